#!/usr/bin/env python3
"""Development tool (no check uses it): mechanical mutants of /repo/neco.c,
restricted to lines the monitors execute, run against cheap versions of the
monitors. Survivors show where the monitors are blind.

  mutate.py gen  GCOV OUT.jsonl [N] [SEED]   sample N mutants of covered lines
  mutate.py gen2 GCOV OUT.jsonl [N] [SEED]   the same with statements skipped, repeated or swapped, and
                                             conditions changed, in particular states of the runtime only
  mutate.py run  IN.jsonl OUT.jsonl [WORKERS]"""
import sys, os, re, json, random, subprocess, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
REPO = '/repo'
SUITE = [  # harness, mode, cases, args
    ('h_chan', 'mix', 6000), ('h_chan', 'select', 3000), ('h_chan', 'bcast', 3000), ('h_chan', 'close', 3000), ('h_chan', 'gen', 4000), ('h_chan', 'basic', 4000),
    ('h_sync', 'mix', 6000), ('h_sync', 'rw', 4000), ('h_sync', 'cond', 3000), ('h_sync', 'wg', 3000), ('h_sync', 'mutex', 3000),
    ('h_life', 'mix', 5000), ('h_life', 'cancel', 3000), ('h_life', 'sleep', 3000), ('h_life', 'cleanup', 3000), ('h_life', 'suspend', 3000), ('h_life', 'life', 3000), ('h_life', 'det', 2000),
    ('h_misc', 'api', 3000), ('h_misc', 'stats', 2000), ('h_misc', 'fair', 3000), ('h_misc', 'rand', 3000), ('h_misc', 'ctx', 500), ('h_misc', 'panic', 7),
    ('h_io', 'mix', 1200), ('h_io', 'stream', 1500), ('h_io', 'file', 800), ('h_io', 'wait', 2000), ('h_io', 'xfer', 800), ('h_io', 'multi', 800),
    ('h_work', 'work', 600), ('h_sig', 'sig', 1500), ('h_sig', 'exit', 120), ('h_sig', 'idle', 200, '--realtime'),
    ('h_net', 'conn', 200), ('h_net', 'addr', 800), ('h_net', 'gai', 800), ('h_net', 'slow', 400), ('h_net', 'fault', 12),
    ('h_mem', 'oom', 300), ('h_mem', 'chaos', 2000), ('h_mt', 'mt', 150), ('h_prog', 'prog', 69)]
HARN = []
for s in SUITE:
    if s[0] not in HARN:
        HARN.append(s[0])


def gen(gcov, out, n, seed, lo=2300):
    cov = set()
    for l in open(gcov):
        m = re.match(r'\s*([0-9]+)\*?:\s*(\d+):', l)
        if m:
            cov.add(int(m.group(2)))
    src = open(REPO + '/neco.c').read().split('\n')
    muts = []
    for i, t in enumerate(src):
        ln = i + 1
        if ln not in cov or ln < lo or '\\' in t[-1:]:
            continue
        s = t.strip()
        def add(new, op):
            if new != t:
                muts.append(dict(line=ln, op=op, old=t, new=new))
        if s.endswith(';') and not re.match(r'(return|break|continue|goto|case|default)\b', s) and s.count('(') == s.count(')') \
           and not re.match(r'(const |static |struct |int |int64_t |size_t |bool |char |void |ssize_t |uint\w+ |neco_\w+ \*|unsigned |socklen_t |pthread_t )', s) and not src[i-1].rstrip().endswith((',', '&&', '||', '=', '(', '?', ':')):
            add(re.match(r'\s*', t).group(0) + ';', 'del')
        m = re.match(r'(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$', t)
        if m:
            add(m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'neg')
            parts = re.split(r'( && | \|\| )', m.group(2))
            if len(parts) > 1:
                for k in range(0, len(parts), 2):
                    if parts[k].count('(') == parts[k].count(')'):
                        q = parts[:k] + parts[k+2:] if k == 0 else parts[:k-1] + parts[k+1:]
                        add(m.group(1) + ''.join(q) + m.group(3), 'dropcond')
        for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('--', '++'), (' += ', ' -= '), (' -= ', ' += '),
                     ('true', 'false'), ('false', 'true'), ('NECO_OK', 'NECO_ERROR'), ('NECO_CANCELED', 'NECO_TIMEDOUT'), ('NECO_TIMEDOUT', 'NECO_CANCELED'), ('= 0;', '= 1;'), ('INT64_MAX', '0')):
            for m in re.finditer(re.escape(a), t):
                add(t[:m.start()] + b + t[m.end():], a.strip() + '>' + b.strip())
        m = re.match(r'(\s*)return (\w+|-1);$', t)
        if m and m.group(2) in ('true', 'false', '-1', '0'):
            add(m.group(1) + 'return %s;' % {'true': 'false', 'false': 'true', '-1': '0', '0': '-1'}[m.group(2)], 'ret')
    random.Random(seed).shuffle(muts)
    seen = set(); res = []
    for m in muts:
        k = (m['line'], m['new'])
        if k in seen:
            continue
        seen.add(k); res.append(m)
    print(len(res), 'possible')
    res = res[:n]
    with open(out, 'w') as f:
        for k, m in enumerate(res):
            m['id'] = k
            f.write(json.dumps(m) + '\n')


CO = '(rt && coself() && coself()->%s)'
GUARDS = [CO % 'canceled', CO % 'deadlined', CO % 'done', CO % 'cancelstate == NECO_CANCEL_DISABLE', CO % 'canceltype == NECO_CANCEL_INLINE', CO % 'sigwatch', CO % 'gen', CO % 'casechan'] + \
         ['(rt && rt->%s)' % x for x in ('all.count > 8', 'ndeadlines > 4', 'nresumers > 1', 'nevwaiters > 2', 'npool > 3', 'nsenders > 1', 'nreceivers > 2', 'nlocked > 1', 'nsuspended > 1', 'nsleepers > 3', 'zchanpoollen > 2',
          'qfd == -1', 'ntotal > 30', 'ncondwaiters > 1', 'nwaitgroupers > 1', 'niowaiters > 1', 'nsigwaiters > 1')]


def gen2(gcov, out, n, seed, lo=3800):
    cov = set()
    for l in open(gcov):
        m = re.match(r'\s*([0-9]+)\*?:\s*(\d+):', l)
        if m:
            cov.add(int(m.group(2)))
    src = open(REPO + '/neco.c').read().split('\n')
    rnd = random.Random(seed); muts = []
    def stmt(i):
        t = src[i]; s = t.strip()
        return i + 1 in cov and s.endswith(';') and not re.match(r'(return|break|continue|goto|case|default|for|if|while|else|\})\b', s) and s.count('(') == s.count(')') and '\\' not in t \
            and not re.match(r'(const |static |struct |int |int64_t |size_t |bool |char |void |ssize_t |uint\w+ |neco_\w+ \*|unsigned |socklen_t |pthread_t )', s) and not src[i-1].rstrip().endswith((',', '&&', '||', '=', '(', '?', ':', '+', '-')) and 'cleanup_p' not in s
    for i, t in enumerate(src):
        if i + 1 < lo or i + 1 not in cov:
            continue
        ind = re.match(r'\s*', t).group(0)
        if stmt(i):
            for g in GUARDS:
                muts.append(dict(line=i + 1, op='skip', old=t, new=ind + 'if (!%s) { %s }' % (g, t.strip())))
            muts.append(dict(line=i + 1, op='twice', old=t, new=ind + t.strip() + ' ' + t.strip(), w=6))
            if stmt(i + 1) and re.match(r'\s*', src[i+1]).group(0) == ind:
                muts.append(dict(line=i + 1, op='swap', old=t, new=src[i+1] + ' ' + t.strip(), drop=i + 2, w=12))
        m = re.match(r'(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$', t)
        if m:
            for g in GUARDS:
                muts.append(dict(line=i + 1, op='cond&', old=t, new='%s(%s) && !%s%s' % (m.group(1), m.group(2), g, m.group(3))))
                if 'while' not in m.group(1):
                    muts.append(dict(line=i + 1, op='cond|', old=t, new='%s(%s) || %s%s' % (m.group(1), m.group(2), g, m.group(3))))
    print(len(muts), 'possible')
    res = sorted(muts, key=lambda m: -rnd.random() ** (1.0 / m.get('w', 1)))[:n]
    with open(out, 'w') as f:
        for k, m in enumerate(res):
            m['id'] = k
            f.write(json.dumps(m) + '\n')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prep(d):
    for h in HARN + ['vh']:
        subprocess.check_call(['gcc', '-O2', '-g', '-w', '-I' + REPO, '-I' + V + '/harness', '-c', '%s/harness/%s.c' % (V, h), '-o', '%s/%s.o' % (d, h)])


def judge(srcfile, d, obj, suite=SUITE, cflags=()):
    w = tempfile.mkdtemp(prefix='m.', dir=d)
    try:
        p = sh(['gcc', '-O1', '-g', '-w', *cflags, '-I' + REPO, '-c', srcfile, '-o', w + '/neco.o'])
        if p.returncode:
            return 'nocompile'
        built = {}
        for s in suite:
            h = s[0]
            if h not in built:
                wr = checks.BASEWRAPS + checks.WRAPS.get(h, [])
                p = sh(['gcc', *cflags, obj + '/vh.o', obj + '/%s.o' % h, w + '/neco.o'] + ['-Wl,--wrap=' + x for x in wr] + ['-lm', '-ldl', '-lpthread', '-o', w + '/' + h])
                if p.returncode:
                    return 'nolink ' + p.stdout.decode()[-200:]
                built[h] = 1
            try:
                p = subprocess.Popen([w + '/' + h, '--mode', s[1], '--cases', str(s[2]), '--caselimit', '8'] + list(s[3:]), cwd=w, stdin=subprocess.DEVNULL, stdout=open(w + '/out', 'wb'), stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    rc = p.wait(120)
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            except OSError as e:
                return 'oserror %s' % e
            if rc != 0:
                o = open(w + '/out', 'rb').read(200000).decode('utf8', 'replace')
                m = re.search(r'^(VIOL|HANG|HARNESS).*$', o, re.M)
                return 'killed %s/%s rc=%s %s' % (s[0], s[1], rc, (m.group(0) if m else o[-150:])[:200])
        return 'SURVIVED'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run(inp, out, workers):
    d = tempfile.mkdtemp(prefix='mutrun.', dir='/tmp')
    prep(d)
    src = open(REPO + '/neco.c').read().split('\n')
    muts = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    f = open(out, 'a')

    def one(m):
        if m['id'] in done:
            return
        s = list(src)
        assert s[m['line'] - 1] == m['old'], m
        s[m['line'] - 1] = m['new']
        if 'drop' in m:
            s[m['drop'] - 1] = ''
        p = '%s/mut%d.c' % (d, m['id'])
        open(p, 'w').write('\n'.join(s))
        m['res'] = judge(p, d, d)
        os.unlink(p)
        f.write(json.dumps(m) + '\n'); f.flush()
    try:
        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, muts))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 400, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    elif sys.argv[1] == 'gen2':
        gen2(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 400, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 7)
