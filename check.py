#!/usr/bin/env python3
"""Driver of the neco runtime monitors.

  check.py ID [--tier quick|thorough]   decide one property on /repo's working tree
  check.py --replay FILE                run one recorded violation again
  check.py --list                       the properties and their jobs
  check.py --build-only [ID...]         build what the checks need

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
HDIR = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS, WRAPS, BASEWRAPS  # noqa: E402

NCPU = max(2, min(8, os.cpu_count() or 8))


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building
def sources(variant):
    v = VARIANTS[variant]
    if v.get('sep'):
        return ['neco.c', 'deps/sco.c', 'deps/stack.c', 'deps/worker.c']
    return ['neco.c']


def repo_digest():
    h = hashlib.sha256()
    for root in ('', 'deps'):
        d = os.path.join(REPO, root)
        for f in sorted(os.listdir(d)):
            if f.endswith(('.c', '.h')):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


_locks = {}
_lk = threading.Lock()


def once(key, fn):
    with _lk:
        l = _locks.setdefault(key, threading.Lock())
    with l:
        return fn()


def compile_obj(variant, src, incs, extra, digest):
    v = VARIANTS[variant]
    flags = v['cflags'] + extra
    h = hashlib.sha256((digest + variant + ' '.join([v['cc']] + flags) + src).encode())
    for f in sorted(os.listdir(HDIR)):
        if f == os.path.basename(src) or f.endswith('.h'):
            h.update(open(os.path.join(HDIR, f), 'rb').read())
    out = os.path.join(BUILD, 'o', h.hexdigest()[:24] + '.o')

    def do():
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        cmd = [v['cc']] + flags + ['-I' + i for i in incs] + ['-c', src, '-o', tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError('compile failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        os.rename(tmp, out)
        return out
    return once(out, do)


def build(harness, variant, digest):
    v = VARIANTS[variant]
    objs = []
    for s in sources(variant):
        objs.append(compile_obj(variant, os.path.join(REPO, s), [REPO], v.get('ndefs', []), digest))
    incs = [REPO, HDIR]
    for s in ('vh.c', harness + '.c'):
        objs.append(compile_obj(variant, os.path.join(HDIR, s), incs, ['-Wall', '-Wno-unused-function'] + v.get('ndefs', []), digest))
    h = hashlib.sha256(' '.join(objs + [harness, variant]).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'bin', '%s-%s-%s' % (harness, variant, h))

    def do():
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        wraps = BASEWRAPS + WRAPS.get(harness, [])
        cmd = [v['cc']] + v['cflags'] + objs + ['-Wl,--wrap=' + w for w in wraps] + \
            ['-lm', '-ldl', '-lpthread', '-o', tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError('link failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        os.rename(tmp, out)
        return out
    return once(out, do)


# ------------------------------------------------------------------- running
ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:allocator_may_return_null=1:use_sigaltstack=0:handle_abort=0:max_allocation_size_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4',
    'LC_ALL': 'C',
})
SAN = re.compile(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*)')


class Res:
    pass


def run_bin(path, args, tmp, timeout):
    r = Res()
    prog = tempfile.mktemp(prefix='prog.', dir=tmp)
    hashes = tempfile.mktemp(prefix='hash.', dir=tmp)
    dump = tempfile.mktemp(prefix='dump.', dir=tmp)
    cmd = [path] + args + ['--progress', prog, '--hashes', hashes, '--dump', dump]
    t0 = time.time()
    cwd = tempfile.mkdtemp(prefix='cwd.', dir=tmp)
    with open(tempfile.mktemp(prefix='out.', dir=tmp), 'w+b') as fo:
        p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=ENV, cwd=cwd, start_new_session=True)
        try:
            p.wait(timeout)
            r.timeout = False
        except subprocess.TimeoutExpired:
            r.timeout = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        fo.seek(0)
        data = fo.read(4_000_000)
    r.out = data.decode('utf-8', 'replace')
    r.rc = p.returncode
    r.wall = time.time() - t0
    r.args = args
    r.seed = None
    try:
        r.seed = int(open(prog, 'rb').read().split(b'\0')[0] or b'0')
    except (OSError, ValueError):
        pass
    r.hashes = set()
    try:
        r.hashes = set(l.split()[1] for l in open(hashes) if l.strip())
    except (OSError, IndexError):
        pass
    r.events = ''
    try:
        r.events = open(dump + '.events').read()[:200000]
    except OSError:
        pass
    r.summary = None
    m = re.search(r'^SUMMARY (\{.*\})\s*$', r.out, re.M)
    if m:
        try:
            r.summary = json.loads(m.group(1), strict=False)
        except ValueError:
            pass
    shutil.rmtree(cwd, ignore_errors=True)
    for f in (prog, hashes, dump + '.events'):
        try:
            os.unlink(f)
        except OSError:
            pass
    return r


def verdict(r):
    """-> (kind, text): ok | viol | hang | error"""
    v = re.search(r'^VIOL .*$', r.out, re.M)
    s = SAN.search(r.out)
    if s:
        return 'viol', 'sanitizer: ' + s.group(1)
    if v:
        return 'viol', v.group(0)
    if r.timeout:
        return 'hang', 'outer time limit'
    if r.rc in (40, 41):
        m = re.search(r'^HANG .*$', r.out, re.M)
        return 'hang', m.group(0) if m else 'hang'
    if r.rc == 77 or 'HARNESS-ERROR' in r.out:
        m = re.search(r'^HARNESS-ERROR.*$', r.out, re.M)
        return 'error', m.group(0) if m else 'harness error'
    if r.rc != 0:
        what = 'exit status %d' % r.rc if r.rc > 0 else 'killed by signal %d' % -r.rc
        return 'viol', 'process ended abnormally (%s) in case seed=%s: %s' % (what, r.seed, r.out[-400:].strip().replace('\n', ' | '))
    if not r.summary:
        return 'viol', 'process ended without finishing its cases (seed=%s): %s' % (r.seed, r.out[-300:])
    return 'ok', ''


def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)$', l)
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == '--list':
        for k in sorted(CHECKS):
            c = CHECKS[k]
            print(k)
            for j in c['jobs']:
                print('    ', j)
        return 0
    if args and args[0] == '--replay':
        rec = json.load(open(args[1]))
        path = build(rec['harness'], rec['variant'], repo_digest())
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='run.', dir=BUILD)
        try:
            r = run_bin(path, rec['args'], tmp, 600)
            sys.stdout.write(r.out); sys.stdout.write(r.events)
            k, t = verdict(r)
            print('replay:', k, t)
            return 1 if k in ('viol', 'hang') else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if args and args[0] == '--build-only':
        ids = args[1:] or sorted(CHECKS)
        dg = repo_digest()
        todo = sorted({(j['h'], j['v']) for i in ids for j in CHECKS[i]['jobs']})
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda x: build(x[0], x[1], dg), todo))
        return 0
    if not args or args[0] not in CHECKS:
        print(__doc__)
        return 2
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return check(pid, tier, seed)


def check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    dg = repo_digest()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run.', dir=BUILD)
    stop = threading.Event()
    known = [k for k in known_findings() if k[0] == pid]
    known_hit = {}
    viols = []
    inconclusive = []
    results = []
    lock = threading.Lock()
    errors = []

    def unit(u):
        j, idx, start, n = u
        if stop.is_set():
            return
        try:
            path = build(j['h'], j['v'], dg)
            a = ['--mode', j['m'], '--seed0', str(start), '--cases', str(n), '--caselimit', str(j.get('limit', 20))] + j.get('args', [])
            tl = j.get('timeout', 300 if tier == 'quick' else 3000)
            guard = 0
            while n > 0 and not stop.is_set() and guard < 50:
                guard += 1
                r = run_bin(path, a, tmp, tl)
                k, txt = verdict(r)
                r.job = j
                if k == 'hang':
                    # inconclusive: once more, this seed alone, nothing else decides
                    sd = r.seed if r.seed else start
                    a1 = ['--mode', j['m'], '--seed0', str(sd), '--cases', '1', '--caselimit', str(2 * j.get('limit', 20))] + j.get('args', [])
                    r1 = run_bin(path, a1, tmp, 2 * j.get('limit', 20) + 60)
                    k1, t1 = verdict(r1)
                    r1.job = j
                    if k1 == 'hang' or k1 == 'viol':
                        with lock:
                            viols.append((j, a1, r1, t1)); stop.set()
                        return
                    with lock:
                        inconclusive.append('%s: %s (did not repeat)' % (' '.join(a), txt))
                        results.append(r1)
                    done = (sd - start) + 1
                    start, n = sd + 1, n - done
                    a = ['--mode', j['m'], '--seed0', str(start), '--cases', str(n), '--caselimit', str(j.get('limit', 20))] + j.get('args', [])
                    continue
                if k == 'error':
                    with lock:
                        errors.append(txt + ' [' + ' '.join(a) + ']'); stop.set()
                    return
                if k == 'viol':
                    hit = [f for f in known if f[1].search(txt)]
                    if hit:
                        with lock:
                            known_hit[hit[0][2]] = known_hit.get(hit[0][2], 0) + 1
                        return
                    with lock:
                        viols.append((j, a, r, txt)); stop.set()
                    return
                with lock:
                    results.append(r)
                return
        except CheckError as e:
            with lock:
                errors.append(str(e)); stop.set()
        except Exception as e:  # noqa
            import traceback
            with lock:
                errors.append(traceback.format_exc()); stop.set()

    units = []
    for idx, j in enumerate(spec['jobs']):
        n = j['n'] if tier == 'quick' else j.get('N', j['n'] * 12)
        chunks = j.get('chunks', 4 if n >= 40 else max(1, min(n, 4)))
        if tier == 'thorough':
            chunks = max(chunks, min(8, n))
        if j.get('fixed'):
            base = j.get('seed0', 1)  # enumerated, not sampled
        else:
            base = (seed * 1_000_000_007 + int(hashlib.sha256((pid + j['h'] + j['m'] + j['v']).encode()).hexdigest()[:6], 16) * 1000) % (1 << 52) + 1
        per = (n + chunks - 1) // chunks
        s = 0
        while s < n:
            units.append((j, idx, base + s, min(per, n - s)))
            s += per
    # interleave the jobs
    order = {}
    for u in units:
        order.setdefault(u[1], []).append(u)
    mixed = []
    while any(order.values()):
        for k in sorted(order):
            if order[k]:
                mixed.append(order[k].pop(0))
    serial = [u for u in mixed if u[0].get('serial')]
    par = [u for u in mixed if not u[0].get('serial')]
    try:
        todo = sorted({(j['h'], j['v']) for j in spec['jobs']})
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(build, h, v, dg) for h, v in todo]
            for f in fs:
                f.result()
        tb = time.time() - t0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(unit, par))
        for u in serial:
            unit(u)
    except CheckError as e:
        errors.append(str(e))
        tb = 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- evidence
    hashes = set()
    ev = dict(cases=0, events=0)
    ctrs = {}
    samples = []
    per_job = {}
    for r in results:
        if not r.summary:
            continue
        hashes |= {r.job['h'] + r.job['m'] + x for x in r.hashes}
        ev['cases'] += r.summary['cases']
        ev['events'] += r.summary['events']
        for k, n in r.summary['counters'].items():
            ctrs[k] = ctrs.get(k, 0) + n
        key = '%s/%s/%s' % (r.job['h'], r.job['m'], r.job['v'])
        pj = per_job.setdefault(key, dict(cases=0, events=0))
        pj['cases'] += r.summary['cases']; pj['events'] += r.summary['events']
        if len(samples) < 6:
            samples += r.summary['samples'][:1]
    floor = spec.get('floor', {})
    weak = {k: ctrs.get(k, 0) for k, n in floor.items() if ctrs.get(k, 0) < n}
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': ev['cases'],
            'distinct_nontrivial': len(hashes),
            'rule': spec['rule'],
            'samples': samples or ['none'],
            'events_observed': ev['events'],
            'observed': dict(sorted(ctrs.items())),
            'jobs': per_job,
            'inconclusive': inconclusive,
            'known_findings_hit': known_hit,
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viols),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if viols:
        j, a, r, txt = viols[0]
        sd = None
        m = re.search(r'seed=(\d+)', txt)
        if m:
            sd = m.group(1)
        elif r.seed:
            sd = str(r.seed)
        ra = list(a)
        if sd and not j.get('whole'):
            ra[ra.index('--seed0') + 1] = sd
            ra[ra.index('--cases') + 1] = '1'
        rp = os.path.join(EVID, 'replay', '%s-%s.json' % (pid, sd or '0'))
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, harness=j['h'], variant=j['v'], args=ra, original_args=a, what=txt,
                           output=r.out[-6000:], events=r.events[-20000:],
                           replay='python3 %s --replay %s' % (os.path.join(VERIF, 'check.py'), rp)), f, indent=1)
        print('  %s %s %s: %s' % (j['h'], j['m'], j['v'], txt[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errors:
        print('CHECK-ERROR property=%s\n%s' % (pid, '\n'.join(errors)[:6000]))
        return 2
    if weak:
        print('CHECK-ERROR property=%s: the monitors observed too little: %s' % (pid, weak))
        return 2
    print('OK property=%s cases=%d distinct=%d events=%d build=%.1fs wall=%.1fs%s' % (
        pid, ev['cases'], len(hashes), ev['events'], tb, time.time() - t0,
        ' inconclusive=%d' % len(inconclusive) if inconclusive else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
