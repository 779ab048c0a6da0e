#!/bin/bash
# seed.sh ID [--notest] [--check Cxx ...]: qualify a planted bug in a scratch copy and run its property's check on it
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift
S=$V/seeded/$ID; W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
NOTEST=0; CH=""
while [ $# -gt 0 ]; do case $1 in --notest) NOTEST=1;; --check) shift; CH="$CH $1";; esac; shift; done
[ -n "$CH" ] || CH=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo worktree prune; cp -a /repo "$W/repo"; rm -rf "$W/repo/_build"
mkdir "$W/vp"; for f in build.sh neco.mk run_tests.py results.py test.sh; do sed "s#/opt/vp#$W/vp#g; s#/repo#$W/repo#g" /opt/vp/$f > "$W/vp/$f"; done
cp -a "$S" "$W/s"; rm -f "$W"/s/*.diff "$W/s/meta.json"
if (cd "$W/repo" && bash "$W/s/demo.sh" >"$W/d0" 2>&1); then echo "$ID clean demo ok"; else echo "$ID BAD: demo fails on clean ($?)"; tail -3 "$W/d0"; exit 1; fi
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID BAD: patch"; exit 1; }
# only original lines
python3 - "$W/repo" <<'P' || exit 1
import subprocess,sys,re
r=sys.argv[1]
d=subprocess.run(['git','-C',r,'diff','-U0'],capture_output=True,text=True).stdout
f=None;bad=[]
bl={}
for l in d.splitlines():
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m and f:
        if f not in bl: bl[f]=subprocess.run(['git','-C',r,'blame','-s','HEAD','--',f],capture_output=True,text=True).stdout.splitlines()
        n=int(m.group(2) or 1)
        for i in range(int(m.group(1)),int(m.group(1))+n):
            if not bl[f][i-1].startswith('^'): bad.append((f,i,bl[f][i-1]))
if bad: print('BAD: touches own lines',bad[:3]); sys.exit(1)
P
if [ $NOTEST = 0 ]; then
bash "$W/vp/build.sh" >"$W/b.log" 2>&1 || { echo "$ID BAD: build"; tail -5 "$W/b.log"; exit 1; }
bash "$W/vp/test.sh" "$W/out.json" >"$W/t.log" 2>&1
python3 - "$W/out.json" "$ID" <<'P' || exit 1
import json,sys
a=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed'])
print(sys.argv[2],'tests', 'ok' if not m else 'BAD missing %s'%sorted(m)); sys.exit(1 if m else 0)
P
fi
if (cd "$W/repo" && bash "$W/s/demo.sh" >"$W/d1" 2>&1); then echo "$ID BAD: demo passes with patch"; exit 1; else echo "$ID patched demo fails ($?): $(tail -1 "$W/d1" | cut -c1-150)"; fi
mkdir "$W/v"; cp -a "$V"/*.py "$V"/harness "$V"/known_findings.txt "$W/v/"
for c in $CH; do
 (cd "$W/v" && VERIF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c > "$W/c.log" 2>&1); rc=$?
 echo "$ID check $c rc=$rc $(grep -m1 -E '^(VIOLATION|OK|ERROR)' "$W/c.log" | cut -c1-120) $(grep -m1 -E 'VIOL |sanit|HANG' "$W/c.log" | cut -c1-160)"
done
