#!/usr/bin/env python3
"""The properties, in one place. `python3 props.py` writes properties.jsonl and
MANIFEST.json; only properties that have a check in checks.py are claimed."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, mech, observe, level='exploration', technique='', note='', files=('neco.c',), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, mech=mech, observe=observe,
                  level=level, technique=technique, note=note, files=list(files), state=list(state)))


NOTE = ('Runtime monitoring of the real library compiled from the working tree: holds on every execution the seeded workloads '
        'produced (counts in the evidence file), not proved beyond them. Trusts the compiler, libc, the kernel, the monitor and, where '
        'used, the interposed clock and system calls.')
HIST = ('seeded random multi-coroutine programs on the real library under a virtual clock; ')

prop('C01', 'A channel delivers every sent message exactly once, intact',
     'Every message whose send reported success is received by exactly one receiver, byte for byte as it was sent, unless it is still buffered '
     'in, or waiting at, the channel when the channel is freed; a send that reported a timeout, cancelation, or closed channel delivers nothing. '
     'No receive reports success without having taken one such message, and one that fails leaves the queue of messages as it was.',
     ['schedules', 'histories', 'inputs'],
     'every channel capacity and message size, every mix of senders, receivers, polls, deadlines, cancelations, and every scheduling order',
     'The tests run fixed scripts of a few sends and receives on a few capacities; losing or doubling a message needs a send or receive to be '
     'completed by its peer in the same scheduler turn in which its deadline or a cancelation fires, or a particular buffer wrap-around.',
     [('chan_send0 / chan_tryrecv0 hand-over and ring buffer', 'neco.c: chan_send0, chan_tryrecv0, cbuf_push, cbuf_pop'),
      ('result decided once', 'neco.c: checkdl, checkwait')],
     ['return codes of send/recv/tryrecv/select+case and the received bytes'],
     technique='offline/online trace checker (exactly-once, content, conservation) over recorded channel histories + ASan/UBSan',
     note='Unique tagged messages; a reference queue replays each successful send and receive. ' + NOTE)
prop('C02', 'Channel messages are received in the order they were sent',
     'On any one channel, messages are received in the order in which the successful sends were accepted, whichever coroutines receive them and '
     'whether by receive, poll, or select. Senders blocked on the same channel are served in the order they started waiting, and so are blocked receivers.',
     ['schedules', 'histories'], 'every capacity, number of senders and receivers, interleaving, deadline and cancelation',
     'Order is only sampled for one producer and one consumer; reordering needs several blocked senders, a partly full buffer and a waiter that gives up.',
     [('FIFO wait queue and ring', 'neco.c: colist_push_back, colist_pop_front, cbuf_push, cbuf_pop')],
     ['order of sends and receives in the event log'],
     technique='FIFO trace checker over recorded channel histories',
     note='The order of acceptance is the order in which operations took effect in the single-threaded schedule, tracked by a reference queue. ' + NOTE)
prop('C03', 'Channel operations block exactly while they have to, within capacity',
     'A channel never holds more accepted, unreceived messages than its capacity (no message at all for capacity zero, where a send completes only '
     'together with a receive). A send or receive blocks only while it cannot proceed, is woken once it can, and a poll reports an empty channel only if '
     'there is no buffered message and no blocked sender.',
     ['schedules', 'histories', 'configurations'], 'every capacity including zero, and every interleaving of blocked senders and receivers with deadlines and cancelations',
     'A lost wake-up needs a specific order of arrivals, departures by timeout or cancel, and hand-overs; tests contain a few such orders at most.',
     [('blocking rule and hand-over', 'neco.c: chan_send0, chan_tryrecv0'), ('pause and wake', 'neco.c: copause, sched_resume')],
     ['blocked/returned state of each operation at each quiescent point'],
     technique='lost-wakeup and capacity monitor at quiescent points of recorded histories',
     note='Checks at every quiescent point that no operation is blocked that could proceed, and capacity at every event. ' + NOTE)
prop('C04', 'Closing a channel drains it, then reports closed to everyone',
     'After a channel is closed every further send reports closed and delivers nothing, while receives keep returning the messages accepted before the close, '
     'in order, and report closed only once none is left. Every blocked receiver is woken when the channel closes with nothing left to receive, and closing a second time reports closed and changes nothing.',
     ['schedules', 'histories'], 'every moment of closing relative to buffered messages, blocked senders, blocked receivers, selects and deadlines',
     'Tests close empty or simply filled channels; the dangerous states are a close with blocked senders that then time out or are canceled, and closes raced by selects.',
     [('close', 'neco.c: chan_close'), ('drain on receive', 'neco.c: chan_tryrecv0'), ('select on closed', 'neco.c: chan_select, chan_case')],
     ['return codes after close, messages received after close, blocked coroutines'],
     technique='close/drain trace checker with quiescence (stuck waiter) detection',
     note='Messages of senders blocked at the time of the close stay receivable, as the library documents by behaviour. ' + NOTE)
prop('C05', 'Select picks a ready channel and consumes from that one only',
     'A select over several channels returns the index of a channel on which a message (or the closed state) was really available, and the following case operation takes it from exactly that channel; '
     'no message is lost or taken from any other channel. It blocks only while none of them is ready; its try form never blocks and reports emptiness only if none is ready, and a select that times out or is canceled consumes nothing.',
     ['schedules', 'histories', 'inputs'], 'every set of channels (repeated ones included), capacities, closes, competing receivers, nested selects by several coroutines, deadlines and cancelations',
     'Tests use a few channels and one selecting coroutine; registering on several queues at once and unregistering after a hand-over goes wrong only in particular interleavings.',
     [('multi-registration and unregistration', 'neco.c: chan_select'), ('consume', 'neco.c: chan_case')],
     ['returned index, message received by the case, messages still receivable'],
     technique='trace checker of select/case over recorded channel histories', note=NOTE)
prop('C06', 'Broadcast reaches exactly the receivers waiting at that moment',
     'A broadcast delivers a copy of the message to every receiver that is blocked on the channel at the time of the call and to nobody else, returns how many there were, '
     'buffers nothing, and never blocks. On a closed channel it reports closed and delivers nothing.',
     ['schedules', 'histories'], 'every number of waiting receivers and selects, capacities, and every interleaving with sends, timeouts, cancels and closes',
     'The tests broadcast to one fixed set of receivers; the count and the set differ only when receivers leave by timeout, cancel or another channel of a select around the call.',
     [('broadcast', 'neco.c: chan_broadcast / chan_send0(broadcast)')], ['returned count, set of woken receivers, payloads'],
     technique='broadcast trace checker (set and count of receivers) over recorded histories', note=NOTE)
prop('C07', 'Generators hand each yielded value to the consumer once, in order',
     'Each value a generator yields successfully is obtained by exactly one next call, in order and intact, and next reports closed exactly after the generator has returned or the generator was closed and nothing remains. '
     'A yield started after the consumer closed the generator reports closed, while a value offered before stays obtainable; arguments reach the generator unchanged, and its resources are released once it has ended and the last reference is gone.',
     ['schedules', 'histories'], 'every number of values, consumer and generator life time, early close, retain and release, timeouts and cancelations on either side',
     'Tests iterate a few values to the end; abandonment, timeouts on either side and several consumers are where values are lost or the generator leaks.',
     [('generator over a channel', 'neco.c: gen_start, neco_gen_yield_dl, neco_gen_next_dl, neco_gen_close')], ['values obtained, return codes, live blocks'],
     technique='exactly-once trace checker for generators + live-block accounting', note=NOTE)
prop('C08', 'A mutex excludes, and is never lost or handed to nobody',
     'At no time do two coroutines hold the same mutex unless both hold it for reading; every successful lock is a real acquisition and a lock that reported a timeout or cancelation has not acquired it. '
     'Whenever the mutex is free no coroutine stays blocked on it: each unlock passes it to a waiter or leaves it free for the next lock; a mutex that is held, in either way, cannot be destroyed.',
     ['schedules', 'histories'], 'every mix of lock, read lock, try locks, deadlines and cancelations by any number of coroutines',
     'A lost lock needs the hand-off by unlock to coincide with the deadline or cancelation of the waiter it is handed to; the tests have no such coincidence.',
     [('hand-off', 'neco.c: mutex_unlock, mutex_handoff, mutex_lock_dl'), ('state word', 'neco.c: struct neco_mutex')],
     ['holder set after each return; blocked coroutines at quiescent points'],
     technique='mutual-exclusion and lost-lock monitor over recorded lock histories', note=NOTE)
prop('C09', 'Read/write locks are granted in order and without needless refusals',
     'Lock requests that have to wait are granted in the order they were made, except that neighbouring read requests are granted together; a waiting writer is not overtaken by later readers. '
     'A try lock reports busy only if the lock is really held or handed over in a conflicting way or earlier requests are waiting, and takes the lock otherwise.',
     ['schedules', 'histories'], 'every sequence of read and write lock requests, try locks, releases, deadlines and cancelations',
     'The order among waiters is only visible with several blocked readers and writers of which some give up; tests check one arrangement.',
     [('wait queue', 'neco.c: mutex_rdlock_dl, mutex_unlock, mutex_tryrdlock')], ['order of grants in the event log'],
     technique='grant-order trace checker over recorded read/write lock histories', note=NOTE)
prop('C10', 'Condition variables wake whom they should and always relock',
     'A signal wakes the longest waiting coroutine and a broadcast every coroutine waiting at that moment; nobody else wakes except by deadline or cancelation, and no signal sent after a waiter released the mutex is missed by it. '
     'Waiting releases the mutex while blocked, and the caller holds it again whenever wait returns, whatever the result.',
     ['schedules', 'histories'], 'every interleaving of waits, signals, broadcasts, deadlines and cancelations, with a contended mutex',
     'Missed signals and returning without the mutex need a signal that coincides with a deadline or cancel, or a contended relock; tests signal one quiet waiter.',
     [('wait', 'neco.c: cond_wait_dl'), ('signal and broadcast', 'neco.c: cond_signal, cond_broadcast')], ['wake-ups, mutex holder after return'],
     technique='condition-variable trace checker (wake set, mutex re-acquisition) over recorded histories', note=NOTE)
prop('C11', 'A waitgroup releases its waiters exactly when the count reaches zero',
     'A wait on a waitgroup returns success only when the count is, or has just reached, zero, and every coroutine waiting when the count reaches zero is released by that. '
     'Decrements below zero and additions out of range are refused and change nothing; waits end by deadline or cancelation without disturbing the count or other waiters.',
     ['schedules', 'histories', 'inputs'], 'every sequence of add (any delta), done, and wait by any number of coroutines with deadlines and cancelations',
     'Tests use one waiter and one count-down; the defects are with several waiters, negative adds reaching zero, reuse, and waiters that leave early.',
     [('counter and wake-up', 'neco.c: waitgroup_add, waitgroup_done, waitgroup_wait_dl')], ['count after every call, released and blocked waiters'],
     technique='counter model and stuck-waiter monitor over recorded waitgroup histories', note=NOTE)
prop('C12', 'Coroutines run once with their arguments; joins and identifiers are sound',
     'Every successfully started coroutine runs exactly once, with exactly the arguments it was started with, under an identifier that no other coroutine of the process has ever had; the first start returns only after all of them have ended. '
     'Join succeeds only after its target has ended, wakes every joiner of it then, and succeeds at once if the target has already ended or does not exist; starter and last-started identifiers are reported correctly.',
     ['schedules', 'histories', 'programs'], 'every tree of starts, any number of arguments, joins before and after the end, nested ends, cancelations and exits',
     'Tests start a few coroutines in fixed shapes; recycling of coroutine records, late joins and ends during joins depend on the history.',
     [('start and argument copy', 'neco.c: start, run'), ('end of a coroutine', 'neco.c: coentry, coexit, cleanup'), ('join', 'neco.c: join_dl')],
     ['entry and exit of each coroutine, arguments, ids, join results'],
     technique='lifecycle trace checker (exactly-once execution, join ordering, id uniqueness) over recorded histories', note=NOTE)
prop('C13', 'Sleeps and deadlines are never early, and not late when idle',
     'A sleep does not return success before its time, sleeping coroutines wake in the order of their wake-up times, and an operation reports a timeout only at or after its deadline. '
     'Once the time has come the sleeper or the timed out operation returns at the next scheduler round: the runtime neither oversleeps nor forgets a deadline, however many are pending. With a deadline already past a lock, a waitgroup wait or a sleep times out at once without side effects, and any other operation does unless it can complete without waiting.',
     ['schedules', 'histories', 'inputs'], 'every set of simultaneous sleeps and deadlines, extreme values included, changed and removed in any order by wake-ups and cancelations, and clock progress at any point',
     'Tests use a couple of real-time sleeps with wide tolerances; wrong order in the deadline map or a missed timeout needs many interleaved deadlines.',
     [('deadline map', 'neco.c: dl_compare, copause'), ('expiry', 'neco.c: rt_sched_paused_step'), ('clamping', 'neco.c: i64_add_clamp, neco_sleep')],
     ['virtual time of every wake-up and timeout against its deadline'],
     technique='deadline monitor under a virtual clock (never early, promptness, order)', note='The clock, epoll_wait and nanosleep are interposed so that time is exact. ' + NOTE)
prop('C14', 'A cancelation reaches its target exactly once and only its target',
     'Canceling a coroutine makes its current or next blocking operation, and only that one, report cancelation (or ends the coroutine, if it asked for asynchronous cancelation), without the operation having taken effect. '
     'While cancelation is disabled the target is unaffected and the canceler waits until it is enabled or the target ends; canceling a coroutine that does not exist reports not found, and other coroutines are unaffected.',
     ['schedules', 'histories'], 'every operation the target may be blocked in, every moment of the cancel, multiple cancelers, changing cancel types and states, deadlines of the canceler',
     'Each blocking operation can be interrupted at each moment; tests cancel a few kinds of them at one moment each.',
     [('cancel', 'neco.c: cancel_dl'), ('delivery', 'neco.c: checkdl, checkwait, coexit'), ('state and type', 'neco.c: setcancelstate, setcanceltype')],
     ['results of canceled operations, cancel return codes, coroutine ends'],
     technique='cancelation trace checker over recorded histories of all blocking operations', note=NOTE)
prop('C15', 'Cleanup handlers run exactly once, last first, on every way out',
     'When a coroutine ends by exit or asynchronous cancelation, from any call depth, each cleanup handler pushed and not yet popped runs exactly once, in the reverse order of pushing and with its own argument, even if handlers block, yield or exit themselves. '
     'Popping runs the handler if and only if asked to, and no handler runs after its coroutine has ended or for another coroutine.',
     ['schedules', 'histories', 'programs'], 'every nesting of pushes and pops, every way and moment of ending, handlers that themselves use the library',
     'Tests push one or two handlers and end in one way; handlers interrupted by further cancelations and re-entered exits are not reached.',
     [('handler stack', 'neco.c: cleanup_push, cleanup_pop'), ('exit', 'neco.c: coexit, neco_exit')], ['handler runs with argument and order'],
     technique='cleanup-handler trace checker over recorded histories', note=NOTE)
prop('C16', 'Scheduling is fair and deterministic',
     'Coroutines that keep yielding take turns: between two consecutive turns of one, every other one has exactly one turn, and no amount of yielding, waking or channel traffic keeps an expired sleeper, a resumed coroutine or a ready descriptor from running within a few rounds. '
     'A started coroutine runs immediately, and the same program run again with the same inputs and times is scheduled in exactly the same order.',
     ['schedules', 'programs'], 'every number of runnable, sleeping, suspended and descriptor-waiting coroutines joining and leaving at any time',
     'Tests never compare complete schedules nor measure waiting times; starvation appears only with particular mixes of busy and waiting coroutines.',
     [('run queue', 'neco.c: rt_scheduler, rt_sched_event_step, rt_sched_paused_step; deps/sco.c: sco_yield')], ['turn order, rounds until a ready coroutine runs'],
     files=('neco.c', 'deps/sco.c'), technique='turn-order and bounded-waiting monitors, and trace comparison of repeated executions', note=NOTE)
prop('C17', 'Suspended coroutines wake exactly when resumed',
     'A suspended coroutine continues only when it is resumed, its deadline passes, or it is canceled, and reports which of these it was; each suspend is ended by at most one resume, and that resume reports success. '
     'Resuming a coroutine that is not suspended reports just that, one that does not exist not found, and neither has any effect.',
     ['schedules', 'histories'], 'every interleaving of suspends, resumes by several coroutines, deadlines, cancelations and ends of the target',
     'Two resumes of one suspension, or a resume at the moment of a timeout, are not in the tests.',
     [('suspend and resume', 'neco.c: suspend_dl, resume')], ['results of suspend and resume'],
     technique='suspend/resume pairing checker over recorded histories', note=NOTE)
prop('C18', 'Reads and writes transfer every byte once and report the exact count',
     'Bytes written to a descriptor arrive complete, in order and unaltered, and each read or write reports exactly the number of bytes transferred, across short transfers, interruptions, would-block conditions, deadlines, cancelations and worker threads. '
     'Write returns only when all bytes are written or with a partial count or an error; a read returns as soon as there is data, zero only at the end of the stream, and the error of the system otherwise.',
     ['inputs', 'schedules', 'fault_sequences'], 'every transfer size and split, every system-call outcome sequence, every interleaving of readers and writers with deadlines and cancelations, files, pipes and sockets',
     'Short and interrupted transfers do not occur at will in tests, and their combination with timeouts and cancelations is not exercised.',
     [('read', 'neco.c: read_dl, read1, ioread'), ('write', 'neco.c: write_dl, write1, write2, write3, iowrite')],
     ['bytes seen by the interposed system calls against bytes and counts seen by the caller'], level='fault_enumeration',
     technique='byte-conservation monitor with system-call fault injection + ASan/UBSan/TSan', note=NOTE)
prop('C19', 'Waiting for a descriptor ends exactly when it becomes ready',
     'A wait for readability or writability returns success only if the descriptor really is ready (or hung up or in error), every coroutine waiting for a descriptor that became ready is woken, and those waiting for other descriptors or the other direction are not. '
     'Descriptor numbers that are closed and reused, several waiters on one descriptor and waits that end by deadline or cancelation do not disturb later waits, however many descriptors become ready at once.',
     ['schedules', 'histories', 'fault_sequences'], 'every set of waiters over descriptors and directions, and every order of readiness, hang-ups, deadlines, cancelations and descriptor reuse',
     'Tests wait with one coroutine on one descriptor; shared registrations and stale one-shot events need more.',
     [('registration', 'neco.c: wait_dl, cowait, wait_dl_addevent, wait_dl_delevent'), ('dispatch', 'neco.c: rt_sched_event_step')],
     ['poll(2) of the descriptor at each return and at quiescence'],
     technique='readiness monitor comparing each wait with poll(2), lost-wakeup detection', note=NOTE)
prop('C20', 'Streams preserve the byte sequence through buffering',
     'Through any sequence of stream reads, full reads, byte reads, unreads, writes, flushes and closes, in one or both directions of the same stream, the bytes delivered are exactly those accepted, in order, none lost, repeated or invented, and the reported buffered sizes and counts are exact; a successful flush or close means everything accepted was written. '
     'An operation that fails, times out or is canceled keeps the bytes not yet delivered or written for the next call; the end of the stream is reported only after all bytes.',
     ['inputs', 'histories', 'fault_sequences'], 'every buffer size, operation sequence, chunking by the peer, and every pattern of short transfers, errors, deadlines and cancelations',
     'Buffer boundaries combined with short or failed transfers are sampled by tests at a few sizes only.',
     [('buffers', 'neco.c: stream_read_dl, stream_readfull_dl, stream_write_dl, stream_flush_dl, stream_unread_byte, stream_close_dl')],
     ['bytes, counts and buffered sizes against the interposed descriptor traffic'], level='fault_enumeration',
     technique='stream byte-sequence and accounting monitor with system-call fault injection + ASan/UBSan', note=NOTE)
prop('C21', 'Dial, serve and accept yield usable connections or a clean error',
     'Dial and accept return descriptors that are connected and non-blocking, serve one that is listening; every connection is accepted exactly once and reaches the address that was asked for, addresses of one name being tried in order until one connects. '
     'Host, port and network kind are taken from the address exactly as written and malformed ones are refused; on any failure, timeout or cancelation the call reports that cause and leaves no descriptor, memory or address list behind.',
     ['inputs', 'schedules', 'fault_sequences'], 'every address and network kind, every number of simultaneous clients and acceptors, deadlines, cancelations, and the failure of each system call involved',
     'Tests dial a few well formed addresses; failures of individual system calls, several acceptors and canceled dials are not exercised.',
     [('dial and serve', 'neco.c: dial_dl, dial_connect_dl, serve_dl, resolve_tcp_addr_dl'), ('accept and connect', 'neco.c: accept_dl, connect_dl')],
     ['descriptors (flags, peer, listening), accepted connections, open descriptors, last error'], level='fault_enumeration',
     technique='connection monitor (exactly-once accept, descriptor state, leak accounting) with every system call failing in turn + ASan/UBSan', note=NOTE)
prop('C22', 'Name lookups return the resolver answer, and abandon safely',
     'A lookup returns exactly the answer or the error of the system resolver for the given name, service and hints, while other coroutines keep running. '
     'If its deadline passes or it is canceled it returns at once with that result; the resolver thread left behind uses only copies of the strings, and its result, descriptors and memory are released once it ends.',
     ['inputs', 'schedules', 'fault_sequences'], 'every name, service, hints, resolver delay and result, deadline and moment of cancelation, number of simultaneous lookups, and failure of each system call involved',
     'Tests resolve a name or two that answer immediately; abandoned lookups and resolver errors are not exercised.',
     [('lookup thread', 'neco.c: neco_getaddrinfo_dl, getaddrinfo_th, gai_args')],
     ['address lists allocated and freed, results, arguments at the resolver, threads, descriptors'], level='fault_enumeration',
     technique='stand-in resolver with delays and failures, answer comparison, leak accounting + ASan/UBSan/TSan', note=NOTE)
prop('C23', 'Background work runs exactly once, completely, off the scheduler',
     'Each submitted work function runs exactly once, on another thread and outside coroutine context, and the submitting coroutine continues only after it has finished, with its effects visible; other coroutines run meanwhile. '
     'Cancelation does not interrupt it and stays pending for the next operation; works with the same pin run one at a time, in the order of submission as long as the queue of their thread is not full, and neither full queues nor threads that cannot be created lose a work. Works without a pin are given to the threads in turn, so that a few submitted together run at the same time.',
     ['schedules', 'histories', 'fault_sequences'], 'every number of simultaneous works, pins, durations, cancelations, thread-creation failures, and every interleaving of worker threads with the scheduler',
     'Tests submit a few works; lost or doubled completions depend on thread timing and on limits that tests do not reach.',
     [('workers', 'deps/worker.c and neco.c: worker_submit, thread'), ('hand-over to the scheduler', 'neco.c: work, iowork, rt_sched_ionotif, neco_work')],
     ['runs of each work, thread, overlap and order per pin, results seen after return'], files=('neco.c', 'deps/worker.c'),
     technique='exactly-once and ordering monitor of works + ThreadSanitizer + ASan/UBSan', note=NOTE)
prop('C24', 'Signals reach exactly one watcher, or end the process',
     'Each signal received while some coroutine watches it is delivered exactly once, to one coroutine that watches and waits for it, and is kept until there is one; nothing but a watched signal, the deadline or a cancelation ends the wait, whichever thread the signal arrives on. '
     'Signals that nobody watches (any more) end the process with status 128 plus their number, except a broken pipe; watches end with their coroutine, waiting without watching is refused, and the previous handlers and alternate stack are back after the runtime ends.',
     ['schedules', 'histories', 'inputs'], 'every set of watchers and signals, every moment and thread of arrival, deadlines and cancelations',
     'Tests raise single signals at fixed moments on the scheduler thread.',
     [('handler', 'neco.c: sighandler, rt_sigmask/sigqueue'), ('wait', 'neco.c: signal_wait_dl, signal_watch, signal_unwatch'), ('delivery', 'neco.c: rt_sched_signal_step')],
     ['signals sent against signals delivered; exit status of child programs'],
     technique='exactly-once signal accounting under synchronous and cross-thread signals, child-process exit oracle + ASan', note=NOTE)
prop('C25', 'No memory error, leak or double free in any history',
     'No sequence of library calls that respects the documented rules makes the library access memory outside its live objects, execute undefined behaviour, or free anything twice. '
     'When the first start returns, every block, descriptor, stack mapping and thread the runtime acquired has been released, whatever mix of timeouts, cancelations, exits, errors and abandoned operations occurred. While a runtime lasts, what it holds follows what is alive: repeating work that ends completely does not make it grow.',
     ['schedules', 'histories', 'inputs', 'programs'], 'every program over the whole API, every interleaving, deadline, cancelation and exit',
     'Tests do not run under sanitizers with every early exit path, and leaks on early exits are invisible to them.',
     [('all of neco.c', 'neco.c: coexit, run, rt_release, stream_close_dl, chan_fastrelease'), ('stacks', 'deps/stack.c'), ('workers', 'deps/worker.c')],
     ['sanitizer reports, allocator events, descriptor and thread counts'], files=('neco.c', 'deps/sco.c', 'deps/stack.c', 'deps/worker.c'),
     technique='AddressSanitizer and UBSan plus an allocation/descriptor/thread conservation monitor over randomised programs of the whole API', note=NOTE)
prop('C26', 'Lack of memory is reported, and harmless',
     'When an allocation, a stack mapping, an event registration or a thread creation fails inside a call, the call reports no memory (or the system error), has no other effect, leaks nothing, and succeeds when repeated once resources are back; operations on existing objects that need no memory keep working. '
     'Messages, bytes and coroutines that existed before are unaffected, and releasing, closing and ending never fail for lack of memory.',
     ['fault_sequences', 'histories'], 'every call, every single point of failure in it and every failure from some point on, in any state of pools and caches',
     'Tests make one or two allocations fail; each call has several points, and state after the failure is not examined.',
     [('allocation', 'neco.c: neco_malloc, neco_realloc, coroutine_new, start, run, chan_fastmake, chan_select, stream_make, gai_args_new'), ('stack groups', 'deps/stack.c: stack_get')],
     ['return codes, statistics, live blocks, object state and the repeated call'], level='fault_enumeration', files=('neco.c', 'deps/stack.c', 'deps/worker.c'),
     technique='fault enumeration over every allocation, mapping, registration and thread creation point with state and leak monitors + ASan', note=NOTE)
prop('C27', 'Runtimes of different threads are isolated',
     'Each thread may run a runtime of its own at the same time; each behaves as if it were alone, without data races, and coroutine identifiers are unique over all threads. '
     'Channels, generators, mutexes, waitgroups, condition variables and streams of another runtime are refused with permission denied and coroutines of another runtime are not found, in both cases without effect; last error and random sequence are separate.',
     ['schedules', 'histories'], 'every number of threads, every interleaving, runtimes starting and ending at any time',
     'Tests run at most two threads in a fixed script; races need timing and a race detector.',
     [('thread-local runtime', 'neco.c: rt, lasterr'), ('identity checks', 'neco.c: rtid fields'), ('identifiers', 'deps/sco.c: sco_next_id')],
     ['per-thread results, identifiers, return codes on foreign objects, race reports'], files=('neco.c', 'deps/sco.c', 'deps/worker.c', 'deps/stack.c'),
     technique='ThreadSanitizer plus per-thread conservation and cross-thread refusal monitors', note=NOTE)
prop('C28', 'Errors are reported consistently and misuse is refused without effect',
     'Every call with invalid arguments, or made from outside a coroutine, is refused with the documented code, has no effect and leaves the runtime usable. '
     'After every call that reports a code the last-error query returns that same code (OK after success), system errors map to and from codes without loss, and error texts exist for every code; with panic-on-error enabled exactly the programming errors (invalid argument, permission, no memory) abort.',
     ['inputs', 'histories', 'configurations'], 'every public function with every kind of invalid argument, in any state, inside and outside coroutines',
     'Tests check codes function by function but not the last-error contract after each call nor that a refused call left everything unchanged.',
     [('error handling', 'neco.c: error_guard, errhpnd, neco_lasterr, neco_errconv_to_sys, neco_errconv_from_sys, neco_strerror')], ['return code, last error, errno, object state after the call'],
     technique='API-misuse monitor: return code / last-error / state-unchanged oracle over randomised invalid calls', note=NOTE)
prop('C29', 'Random data fills exactly the buffer and is reproducible by seed',
     'The pseudo-random generator writes exactly the requested bytes, yields the same byte sequence for the same seed however it is split into word-sized requests and whatever other coroutines do meanwhile unless they draw from it too, and setting a seed returns the previous one. '
     'Cryptographic requests fill exactly the requested buffer of any size, do not depend on the seed, and honour deadlines and cancelations.',
     ['inputs', 'schedules'], 'every length, seed, request split, and interleaving',
     'Tests draw a few lengths and do not check buffer bounds or reproducibility across splits.',
     [('generator', 'neco.c: pcgrandom_buf, rand_setseed, rand_dl')], ['buffer content with guard bytes, returned seeds'],
     technique='reproducibility and buffer-bounds monitor (guard bytes, reference stream) + ASan', note=NOTE)
prop('C30', 'A coroutine keeps its stack and registers across every switch',
     'Local variables, call depth and floating-point values of a coroutine are the same after any yielding or blocking call as before it, whatever other coroutines do meanwhile and however deep they are, up to the configured stack size. '
     'Stacks of live coroutines never overlap, and a coroutine that starts on recycled memory is not affected by the coroutine before it.',
     ['schedules', 'programs', 'configurations'], 'every interleaving of switches, depths, coroutine starts and ends, with every context-switch implementation and stack configuration available here',
     'Tests switch between shallow coroutines with few live values.',
     [('context switch', 'deps/sco.c and neco.c: llco / sco_switch'), ('stack allocation', 'deps/stack.c: stack_get, stack_put')],
     ['canaries in locals, callee-saved registers and the whole used stack'], files=('neco.c', 'deps/sco.c', 'deps/stack.c'),
     technique='stack/register canary monitor across forced context switches', note=NOTE)
prop('C31', 'Runtime statistics agree with the real state',
     'At any moment the statistics report exactly how many coroutines exist, are runnable, sleep, wait for descriptors, wait for signals, wait for senders, receivers, locks, suspended or joining, and how many are pending in total. '
     'Counts return to their previous values when the operations end, on whatever path.',
     ['schedules', 'histories'], 'every mix of blocked coroutines and every way an operation ends',
     'Tests read statistics in one or two states.',
     [('counters', 'neco.c: getstats and the n-counters maintained around each blocking operation')], ['statistics against the set of coroutines known to be blocked in each operation'],
     technique='statistics monitor against an independently tracked blocked set', note=NOTE)
prop('C32', 'Build options do not change behaviour',
     'The library built with any of its options (portable context switch, guarded or heap stacks, no pools, no workers, workers for reads, small worker limits, no signals, any burst setting) gives the same guarantees for channels, synchronisation, life cycle, cancelation, deadlines, input/output, networking and threads as the default build.',
     ['configurations', 'schedules', 'histories'], 'each build option, with every program, interleaving, deadline and cancelation',
     'The test suite is built and run with one configuration only.',
     [('options', 'neco.c: NECO_NOPOOL, NECO_USEGUARDS, NECO_USEHEAPSTACK, NECO_NOWORKERS, NECO_USEREADWORKERS, NECO_BURST, NECO_NOSIGNALS, LLCO_NOASM')],
     ['the same monitors as for the other properties'], files=('neco.c', 'deps/stack.c', 'deps/sco.c'),
     technique='the trace monitors of the other properties run against eight differently configured builds', note=NOTE)

prop('C33', 'Programs end as they should, with their output',
     'A program run by neco_main receives its arguments unchanged and ends as soon as its main coroutine returns, with exactly that status and with all buffered output written, whatever other coroutines do; a runtime begun with the first start ends by itself once every coroutine has ended, even if the first one exits early. A fault (invalid access, illegal instruction, stack overflow into a guard) on any coroutine or thread ends the process with status 128 plus the signal, a panic aborts with its message, and a broken standard output or error ends the program; the global settings for cancelation and panic apply to every coroutine started later.',
     ['configurations', 'histories', 'crash_points'], 'every way a program can end: return, exit, panic, misuse, fault on a coroutine, worker or thread, broken pipe, with other coroutines blocked or busy',
     'The tests run inside one process that must not end, and the exit paths are compiled out of it.',
     [('exit', 'neco.h: neco_main; neco.c: __neco_exit_prog, cleanup, crash_and_exit, sighandler, write1, neco_panic'), ('settings', 'neco.c: neco_env_setcanceltype, neco_env_setcancelstate, neco_env_setpaniconerror, start')],
     ['exit status, standard output and error of child processes, and markers in shared memory'], files=('neco.c', 'neco.h'),
     technique='process-level monitor: child programs with known endings, exit status and output compared', note=NOTE)

def main():
    from checks import CHECKS
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] not in CHECKS:
                continue
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': p['state'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 check.py --build-only', 'checks': [], 'not_applicable': [],
           'notes': 'No hooks in /repo: observation is through the public API, linker-interposed system calls (clock, epoll_wait, read, write, ...) and sanitizers. Generated by props.py.'}
    for p in P:
        if p['id'] in CHECKS:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                                  'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                                  'evidence_file': 'evidence/%s.json' % p['id'],
                                  'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
            assert CHECKS[p['id']].get('level', p['level']) == p['level']
            assert len(p['title']) <= 80, p['title']
    json.dump(man, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
    miss = set(CHECKS) - {p['id'] for p in P}
    assert not miss, miss


if __name__ == '__main__':
    main()
