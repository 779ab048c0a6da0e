# The properties' workloads. A job: harness h, mode m, build variant v, number
# of cases n (quick) and N (thorough).
BASEWRAPS = ['clock_gettime', 'nanosleep', 'clock_nanosleep', 'usleep', 'epoll_wait', 'epoll_pwait', 'mmap', 'munmap', 'epoll_create1']
WRAPS = {
    'h_mem': ['epoll_ctl', 'pthread_create', 'getaddrinfo', 'freeaddrinfo'],
    'h_io': ['read', 'write', 'close'],
    'h_work': ['pthread_create', 'pthread_cond_timedwait'],
    'h_net': ['socket', 'connect', 'bind', 'listen', 'accept', 'accept4', 'setsockopt', 'pipe', 'fcntl', 'pthread_create', 'getaddrinfo', 'freeaddrinfo'],
}

ASAN = ['-O1', '-g', '-fstack-protector-all', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
        '-fno-sanitize=function,alignment', '-mllvm', '-asan-stack=0']
TSAN = ['-O1', '-g', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
VARIANTS = {
    # the two ways of building the library, with the two compilers
    'gcc': dict(cc='gcc', cflags=['-O2', '-g', '-fstack-protector-all']),
    'sep': dict(cc='clang', cflags=['-O2', '-g'], ndefs=['-DNECO_NOAMALGA'], sep=True),
    # the build options
    'noasm': dict(cc='gcc', cflags=['-O2', '-g'], ndefs=['-DLLCO_NOASM']),
    'nopool': dict(cc='gcc', cflags=['-O2', '-g'], ndefs=['-DNECO_NOPOOL', '-DNECO_NOSTACKFREELIST']),
    'guards': dict(cc='clang', cflags=['-O2', '-g'], ndefs=['-DNECO_USEGUARDS', '-DNECO_GAPSIZE=65536', '-DNECO_DEFCAP=2', '-DNECO_MAXCAP=8']),
    'heap': dict(cc='gcc', cflags=['-O2', '-g'], ndefs=['-DNECO_USEHEAPSTACK', '-DNECO_BURST=0']),
    'noworkers': dict(cc='clang', cflags=['-O2', '-g'], ndefs=['-DNECO_NOWORKERS', '-DNECO_BURST=2']),
    'rworkers': dict(cc='gcc', cflags=['-O2', '-g'], ndefs=['-DNECO_USEREADWORKERS', '-DNECO_USEWRITEWORKERS', '-DNECO_MAXWORKERS=2', '-DNECO_MAXIOWORKERS=1', '-DNECO_MAXRINGSIZE=2']),
    'nowworkers': dict(cc='gcc', cflags=['-O2', '-g'], ndefs=['-DNECO_NOWRITEWORKERS', '-DNECO_NOREADWORKERS']),
    'nosignals': dict(cc='gcc', cflags=['-O2', '-g'], ndefs=['-DNECO_NOSIGNALS']),
    # address and undefined behaviour sanitizers
    'asan': dict(cc='clang', cflags=ASAN),
    'asansep': dict(cc='clang', cflags=ASAN, ndefs=['-DNECO_NOAMALGA'], sep=True),
    # without pools and with stacks from malloc: a finished coroutine and its stack are freed at once
    'asannp': dict(cc='clang', cflags=ASAN, ndefs=['-DNECO_NOPOOL', '-DNECO_NOSTACKFREELIST', '-DNECO_USEHEAPSTACK', '-DNECO_STACKSIZE=262144']),
    # thread sanitizer
    'tsan': dict(cc='clang', cflags=TSAN),
    'tsansep': dict(cc='clang', cflags=TSAN, ndefs=['-DNECO_NOAMALGA'], sep=True),
}
CHECKS = {}


def J(h, m, v, n, N=None, **kw):
    d = dict(h=h, m=m, v=v, n=n, **kw)
    d['N'] = N if N is not None else n * 15
    return d


def add(id, jobs, rule, **kw):
    CHECKS[id] = dict(jobs=jobs, rule=rule, **kw)



def R(what, nontriv):
    return ('one evaluation = one seeded case (%s) run on the real library; non-trivial = %s; distinct = distinct hash of the '
            'recorded call/return history of the case' % (what, nontriv))


CHAN = R('a random program of 2-10 coroutines over 1-4 channels under a virtual clock', 'at least two messages were sent successfully')
SYNC = R('a random program of 2-10 coroutines over mutexes, condition variables and waitgroups under a virtual clock', 'at least one operation had to wait')
LIFE = R('a random tree of coroutines that start, join, sleep, suspend, resume, cancel, exit, under a virtual clock', 'more than one coroutine ran')
MISC = R('a random workload', 'the monitor evaluated its oracle at least once')
IOR = R('random transfers over pipes, socket pairs and files with injected short transfers, interruptions, would-blocks and errors', 'bytes were transferred or waits ended')


def chan(*modes, n=60000):
    js = []
    for i, m in enumerate(modes):
        js += [J('h_chan', m, ('gcc', 'sep')[i % 2], n, n * 25), J('h_chan', m, 'asan', n // 12, n * 2)]
    return js


def lone(mode, n=1000):
    return [J('h_lone', mode, 'gcc', n, n * 20), J('h_lone', mode, 'asan', n // 5, n * 3)]


def sync(*modes, n=60000):
    js = []
    for i, m in enumerate(modes):
        js += [J('h_sync', m, ('gcc', 'sep')[i % 2], n, n * 25), J('h_sync', m, 'asan', n // 12, n * 2)]
    return js


def life(*modes, n=40000):
    js = []
    for i, m in enumerate(modes):
        js += [J('h_life', m, ('gcc', 'sep')[i % 2], n, n * 25), J('h_life', m, 'asan', n // 16, n)]
    return js


add('C01', lone('chan') + chan('basic', 'mix', 'select'), CHAN, floor={'messages': 1000})
add('C02', chan('basic', 'mix', 'select'), CHAN, floor={'messages': 1000})
add('C03', lone('chan') + chan('basic', 'mix', 'close'), CHAN, floor={'messages': 1000})
add('C04', chan('close', 'mix', 'select'), CHAN, floor={'closed': 1000})
add('C05', lone('chan') + chan('select', 'mix', 'bcast'), CHAN, floor={'messages': 1000})
add('C06', chan('bcast', 'mix'), CHAN, floor={'bcast_delivered': 1000})
add('C07', lone('chan') + chan('gen') + [J('h_chan', 'gen', 'sep', 60000, 1000000)], CHAN, floor={'messages': 1000})
add('C08', lone('sync') + sync('mutex', 'rw', 'mix'), SYNC, floor={'contended_ok': 1000})
add('C09', lone('sync') + sync('rw', 'mutex', 'mix'), SYNC, floor={'contended_ok': 1000})
add('C10', lone('sync') + sync('cond', 'mix'), SYNC, floor={'cond_wakeups': 1000})
add('C11', lone('sync') + sync('wg', 'mix'), SYNC, floor={'wg_released': 1000})
add('C12', lone('life') + life('life', 'mix', 'cleanup'), LIFE, floor={'joins_released': 1000})
add('C13', lone('all', 4000) + life('sleep', 'mix') + chan('mix', n=20000) + sync('mix', n=20000) + [J('h_misc', 'fair', 'gcc', 10000, 200000)], LIFE, floor={'sleep': 1000})
add('C14', lone('life') + life('cancel', 'mix', 'suspend') + chan('mix', n=20000) + sync('mix', n=20000) + [J('h_io', 'mix', 'gcc', 1000, 20000)], LIFE, floor={'cancels_delivered': 1000})
add('C15', life('cleanup', 'mix', 'cancel'), LIFE, floor={'handlers_run': 1000})
add('C16', [J('h_misc', 'fair', 'gcc', 20000, 400000), J('h_misc', 'fair', 'sep', 10000, 200000), J('h_life', 'det', 'gcc', 10000, 200000),
            J('h_life', 'det', 'sep', 10000, 200000)], MISC, floor={'fair_pairs': 1000, 'prompt_checked': 1000})
add('C17', lone('life') + life('suspend', 'mix'), LIFE, floor={'suspends_resumed': 1000})
add('C18', lone('io') + [J('h_io', 'err', 'gcc', 3000, 60000), J('h_io', 'err', 'asansep', 500, 8000), J('h_io', 'xfer', 'gcc', 3000, 60000), J('h_io', 'multi', 'sep', 3000, 60000), J('h_io', 'file', 'gcc', 3000, 60000),
            J('h_io', 'xfer', 'asan', 600, 10000), J('h_io', 'file', 'asan', 600, 10000),
            J('h_io', 'file', 'rworkers', 1000, 20000), J('h_io', 'xfer', 'rworkers', 600, 10000), J('h_io', 'xfer', 'nowworkers', 600, 10000), J('h_io', 'file', 'noworkers', 600, 10000)], IOR, floor={'bytes': 1000, 'faults': 100}, level='fault_enumeration')
add('C19', lone('io') + [J('h_io', 'wait', 'gcc', 12000, 200000), J('h_io', 'multi', 'gcc', 4000, 60000), J('h_io', 'wait', 'asan', 1500, 20000)], IOR,
    floor={'waits_ready': 1000, 'many_ready': 50, 'fd_reused': 500})
add('C20', lone('io') + [J('h_io', 'err', 'sep', 3000, 60000), J('h_io', 'err', 'asan', 500, 8000), J('h_io', 'stream', 'gcc', 6000, 100000), J('h_io', 'stream', 'nowworkers', 8000, 200000), J('h_io', 'stream', 'asan', 1500, 20000)], IOR, floor={'bytes': 1000, 'faults': 100}, level='fault_enumeration')
NET = R('real connections over TCP and unix sockets, with a stand-in resolver, or one scenario with every system call it makes failing in turn', 'a call returned')
WORK = R('random background works with pinning, delays, cancelations and failing thread creation', 'a work ran')
SIG = R('random signals from several threads, or one way of using signals in a child process', 'a signal was delivered')
add('C21', [J('h_net', 'conn', 'gcc', 1200, 20000), J('h_net', 'conn', 'sep', 400, 8000), J('h_net', 'addr', 'gcc', 3000, 60000), J('h_net', 'conn', 'asan', 300, 5000),
            J('h_net', 'slow', 'gcc', 1500, 30000), J('h_net', 'slow', 'asan', 500, 8000), J('h_net', 'fault', 'gcc', 12, 12, fixed=True), J('h_net', 'fault', 'asan', 12, 12, fixed=True)], NET,
    floor={'dialed': 1000, 'accepted': 1000, 'slow_dialed': 300, 'async_canceled_connecting': 50, 'faults': 300}, level='fault_enumeration')
add('C22', [J('h_net', 'gai', 'gcc', 4000, 60000), J('h_net', 'gai', 'sep', 1500, 30000), J('h_net', 'addr', 'gcc', 1000, 20000), J('h_net', 'gai', 'asan', 1200, 20000),
            J('h_net', 'gai', 'tsan', 800, 12000), J('h_net', 'fault', 'gcc', 12, 12, fixed=True)], NET,
    floor={'lookups': 1000, 'gai_errors': 300, 'gai_timedout': 100}, level='fault_enumeration')
add('C23', [J('h_work', 'work', 'gcc', 4000, 80000), J('h_work', 'work', 'sep', 3000, 60000), J('h_work', 'work', 'asan', 1200, 20000), J('h_work', 'work', 'tsan', 400, 6000),
            J('h_work', 'work', 'tsansep', 400, 6000), J('h_io', 'file', 'gcc', 1000, 20000)], WORK, floor={'works': 1000, 'idle_ends': 1000})
add('C24', lone('sig') + [J('h_sig', 'sig', 'gcc', 12000, 200000), J('h_sig', 'sig', 'sep', 6000, 100000), J('h_sig', 'sig', 'asan', 3000, 40000), J('h_sig', 'exit', 'gcc', 120, 120, fixed=True),
            J('h_sig', 'idle', 'gcc', 1500, 20000, args=['--realtime'])], SIG, floor={'delivered': 1000, 'idle_signals': 100})
MEMR = R('the random programs of all parts under the address and undefined behaviour sanitizers with live-block, descriptor and thread accounting', 'the workload did what its own rule asks')
OOM = R('one operation repeated with its n-th allocation, mapping, event registration or thread creation failing for every n, or a random program under random allocation failures', 'a fault point was enumerated')
MT = R('2-6 threads with runtimes of their own', 'every case')
CFG = R('the random programs of the other properties on a library built with other options', 'the workload did what its own rule asks')
add('C25', [J('h_lone', 'all', 'asansep', 500, 8000), J('h_lone', 'all', 'asannp', 300, 5000)] + [J('h_chan', 'mix', 'asansep', 5000, 100000), J('h_sync', 'mix', 'asansep', 5000, 100000), J('h_life', 'mix', 'asansep', 4000, 80000), J('h_chan', 'gen', 'asan', 5000, 100000),
            J('h_misc', 'api', 'asan', 1500, 20000), J('h_misc', 'rand', 'asan', 1000, 20000), J('h_io', 'mix', 'asan', 1500, 20000), J('h_io', 'file', 'asansep', 600, 10000), J('h_work', 'work', 'asansep', 500, 8000),
            J('h_sig', 'sig', 'asansep', 1500, 20000), J('h_net', 'mix', 'asansep', 400, 8000), J('h_mem', 'chaos', 'asan', 3000, 50000), J('h_mt', 'mt', 'asan', 300, 5000), J('h_mt', 'mt', 'gcc', 500, 5000),
            J('h_life', 'mix', 'asannp', 3000, 60000), J('h_life', 'cancel', 'asannp', 3000, 60000), J('h_life', 'cleanup', 'asannp', 2000, 40000), J('h_chan', 'mix', 'asannp', 3000, 60000), J('h_chan', 'select', 'asannp', 3000, 60000), J('h_chan', 'gen', 'asannp', 2000, 40000),
            J('h_sync', 'mix', 'asannp', 3000, 60000), J('h_io', 'mix', 'asannp', 500, 10000), J('h_net', 'mix', 'asannp', 200, 4000), J('h_work', 'work', 'asannp', 300, 5000), J('h_mem', 'chaos', 'asannp', 800, 20000),
            J('h_mem', 'steady', 'gcc', 250, 6000), J('h_mem', 'steady', 'sep', 100, 3000), J('h_mem', 'steady', 'nopool', 40, 600), J('h_mem', 'steady', 'heap', 60, 1000)], MEMR,
    floor={'messages': 1000, 'works': 500, 'rounds': 5000, 'stack_mappings': 1000})
add('C26', [J('h_mem', 'oom', 'gcc', 2000, 30000), J('h_mem', 'oom', 'asan', 800, 10000), J('h_mem', 'oom', 'nopool', 600, 10000), J('h_mem', 'chaos', 'sep', 12000, 200000), J('h_mem', 'chaos', 'asan', 3000, 50000),
            J('h_mem', 'chaos', 'nopool', 4000, 60000)], OOM, floor={'faults': 1000, 'nomem': 1000}, level='fault_enumeration')
add('C27', [J('h_mt', 'mt', 'gcc', 1500, 30000), J('h_mt', 'mt', 'sep', 1000, 20000), J('h_mt', 'mt', 'tsan', 400, 6000), J('h_mt', 'mt', 'tsansep', 400, 6000), J('h_mt', 'mt', 'asan', 300, 5000)], MT,
    floor={'runtimes': 1000, 'refused_foreign': 1000})
CFGV = ('noasm', 'nopool', 'guards', 'heap', 'noworkers', 'rworkers', 'nowworkers', 'nosignals')
add('C32', [J(h, m, v, n, N) for v in CFGV for h, m, n, N in (('h_chan', 'mix', 3000, 60000), ('h_sync', 'mix', 3000, 60000), ('h_life', 'mix', 3000, 60000), ('h_io', 'mix', 500, 10000))] +
    [J('h_misc', 'ctx', v, 150, 3000) for v in ('noasm', 'nopool', 'guards', 'heap')] + [J('h_mt', 'mt', v, 60, 1000) for v in CFGV] +
    [J('h_work', 'work', v, 150, 3000) for v in ('noasm', 'heap', 'nowworkers')] + [J('h_net', 'conn', v, 40, 1000) for v in ('noasm', 'noworkers', 'rworkers')] + [J('h_io', m, v, 400, 6000) for v in ('noworkers', 'rworkers', 'nowworkers') for m in ('file', 'err')],
    CFG, floor={'messages': 1000})
add('C28', [J('h_io', 'err', 'gcc', 2000, 30000), J('h_misc', 'api', 'gcc', 20000, 300000), J('h_misc', 'api', 'asan', 2000, 30000), J('h_misc', 'panic', 'gcc', 40, 40, fixed=True)] + chan('mix', n=12000) + sync('mix', n=12000) + life('mix', n=12000),
    MISC, floor={'api_calls': 1000})
add('C29', [J('h_misc', 'rand', 'gcc', 20000, 300000), J('h_misc', 'rand', 'sep', 10000, 300000, args=['--nocsprng']), J('h_misc', 'rand', 'asan', 3000, 50000)], MISC, floor={'prng_bytes': 1000})
add('C30', [J('h_misc', 'ctx', 'gcc', 3000, 60000), J('h_misc', 'ctx', 'sep', 3000, 60000), J('h_misc', 'ctx', 'noasm', 500, 10000), J('h_misc', 'ctx', 'nopool', 500, 10000),
            J('h_misc', 'ctx', 'guards', 500, 10000), J('h_misc', 'ctx', 'heap', 500, 10000)], MISC, floor={'switches': 1000})
add('C31', lone('all', 3000) + [J('h_lone', 'all', 'sep', 2000, 30000)] + [J('h_misc', 'stats', 'gcc', 8000, 150000), J('h_misc', 'stats', 'sep', 4000, 60000)], MISC, floor={'stat_checks': 1000})
PROG = R('one program in a child process whose ending and output are known', 'every program')
add('C33', [J('h_prog', 'prog', 'gcc', 184, 460, fixed=True), J('h_prog', 'prog', 'sep', 92, 460, fixed=True), J('h_prog', 'prog', 'guards', 92, 460, fixed=True, args=['--guards']),
            J('h_prog', 'prog', 'nopool', 46, 230, fixed=True)], PROG, floor={'programs': 300, 'output': 5, 'crash': 5})
