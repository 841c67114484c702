"""What each check analyses, and the bookkeeping shared by the checks."""
import os

EXPL = ('Disjunctive abstract interpretation of the LLVM IR of the library (clang -O0 of every /repo/src/lib source, linked with the '
        'driver that names the entry points and the obligations). Every call of the C library is an abstract transformer with all of its '
        'outcomes (success, partial transfer, each failure); first loop iterations are separate partitions, later ones are generalised to '
        'an inductive header state. Obligations are checked on every abstract path; counts below are measured on this run. ')

ASSUMPTIONS = [
    'the system-call and C++ standard library transformers in engine/models*.py describe the real calls',
    'operator new does not fail',
    'C++ standard mutexes and condition variables fail only on misuse',
]


def P(areas, what, **kw):
    d = {'areas': areas.split(), 'explanation': EXPL + what}
    d.update(kw)
    return d


def S(what, *rules):
    return {'areas': ['lib'], 'rules': {'lib': list(rules)}, 'explanation': 'Structural rules, decided by the compiler front end. ' + what}


PROPS = {
    'C01': P('io', 'Obligations: what read_chunk/read_all return, append to the read buffer and report as end of file, error or reset, for every '
                   'sequence of read() outcomes.'),
    'C02': P('io', 'Obligations: what write_chunk/write_all send, remove from the write buffer and report, for every sequence of write() outcomes.'),
    'C03': P('io', 'Obligations: every access of the buffer stays inside its memory, and offsets and contents follow FIFO order for every sequence '
                   'of operations.'),
    'C04': P('io', 'Obligations: every descriptor an object owns is closed exactly once, on every path including failures, moves and assignments.'),
    'C05': P('io', 'Obligations: moving an io object carries over descriptor, buffers, flags and peer, and leaves the source harmless.'),
    'C06': P('io', 'Obligations: every failing system call of an operation is either handled or thrown with its own error number.'),
    'C07': P('io', 'Obligations: datagram receive and send transfer one datagram with its exact bytes and peer and report failures.'),
    'C08': P('io', 'Obligations: addresses passed to and read from the kernel for ipv4, ipv6 and unix sockets.'),
    'C09': P('io', 'Obligations: socket options, shutdown and blocking mode reach the kernel with the requested option, direction and value.'),
    'C10': P('evl', 'Obligations: order of storing and activating a handler against a concurrently dispatching thread, error discipline, load counts.'),
    'C11': P('evl', 'Obligations: which handlers one poll round runs, how often, in which order and with which object.'),
    'C12': P('evl', 'Obligations: what removal forgets and tells the kernel; locksets of every access of the loop tables by two threads.'),
    'C13': P('evl', 'Obligations: the stop request against every system call of the loop, and its visibility.'),
    'C14': P('tcp', 'Obligations: which callbacks a connection gets, in which order and thread, and what becomes of its descriptor, with threads as coroutines over a kernel model of descriptors and pollers.'),
    'C15': P('tcp', 'Obligations: bytes sent, completion reports and poller registration of asynchronous writes for scripted partial, blocked and failing writes.'),
    'C16': P('tcp', 'Obligations: shutdown joins every thread whatever each thread was doing, and connections are closed with their server.'),
    'C17': P('tcp', 'Obligations: number, family and fate of the connections a client attempts, with requests interleaved at the system calls, and locksets of concurrent requests.'),
    'C18': P('tcp', 'Obligations: which worker gets a connection, and in which worker its callbacks run.'),
    'C36': P('tcp', 'Obligations: sockets, addresses, threads and callbacks of servers and clients for every failing call of the set-up and every event.'),
    'C19': P('thr', 'Obligations: which thread runs each queued task, how often and in which order, for adders and workers as coroutines with forced switches at synchronisation calls; locksets of every queue access.'),
    'C20': P('thr', 'Obligations: where and how often a body runs, what each thread call is given and how its failure is reported.'),
    'C21': P('thr', 'Obligations: exact bytes written for scripted outcomes of write(), with logging threads and the writer as coroutines; happens-before of every buffer access.'),
    'C22': P('thr', 'Obligations: instants, order and thread of every call on concrete grids with a clock that moves only in sleeps.'),
    'C23': P('ipc', 'Obligations: how the shared-memory object is opened, sized, mapped, handed over and undone, for every outcome of every call.'),
    'C24': P('ipc', 'Obligations: how the named semaphore is opened, taken, given, handed over and closed, for every outcome of every call.'),
    'C25': P('lock', 'Obligations: attributes, call, object and error of every lock operation; what a condition wait guarantees, with threads as coroutines '
                     'switched at synchronisation calls.'),
    'C26': P('lock', 'Obligations: nobody passes the closed fence and everybody passes the open one; happens-before of its state.'),
    'C27': P('lock', 'Obligations: nobody passes the barrier before the last arrival, exactly the counted threads pass, the others are told.'),
    'C28': P('lock', 'Obligations: locks held at every point of a guard\'s life in its mode; readers and writers as coroutines.'),
    'C29': P('subp', 'Obligations: both sides of the fork on one path; descriptor table, program, arguments and environment at exec, and what the caller keeps.'),
    'C30': P('subp', 'Obligations: what waiting, polling, communicating and signalling do against a program described by the driver (bounded pipes, input copied '
                     'to output, error output, exit) that goes on at any call.'),
    'C31': P('util', 'Obligations: parts, separators and rests for strings whose characters are arbitrary; comparisons of characters split the paths.'),
    'C32': P('util', 'Obligations: call, signal, set, process and direction of every signal operation, its answer and its error.'),
    'C33': P('util', 'Obligations: library, symbol and handle of every loader operation for every outcome of every call.'),
    'C37': P('util', 'Obligations: which time is asked for, broken down, written and returned, and what is thrown, for every outcome of the clock and calendar calls.'),
    'C34': S('Compile-time witnesses (engine/wit/ownership.cc): one static assertion per type and operation, checked by the compiler front end '
             'against the current headers; a failing assertion is the violation.', 'ownership'),
    'C35': S('Every public header is compiled alone, twice, before and after all others; the dependencies of cppev.h, the linkage of every '
             'definition the headers emit and the definition of every operation they declare are read; every template is instantiated (engine/wit/templates.cc) from the front end and the IR.',
             'self_sufficient', 'one_header', 'no_strong_definitions', 'declared_is_defined', 'instantiable'),
}


# drivers of other properties whose obligations a property implies as well: {driver: which of its obligations}
ERRNO = r'errno|error number|throw'
ALSO = {
    'C01': {'C06_nio': 'blocking mode'},
    'C04': {'C05_.*': 'closed|descriptor', 'C07_factory': 'leak|closed', 'C08_factory': 'closed|leak', 'C06_sock': 'closed', 'C06_connect': 'clos'},
    'C05': {'C04_assign': '.', 'C04_construct': '.', 'C04_construct_closed': '.', 'C04_self': '.'},
    'C06': {'C01_.*': ERRNO, 'C02_.*': ERRNO, 'C07_.*': ERRNO + '|failed', 'C04_factory': ERRNO + '|error', 'C04_accept': 'throws',
            'C08_namefail': '.', 'C08_unixconnect': '.', 'C09_options': ERRNO, 'C09_shutdown': ERRNO, 'C09_blocking': ERRNO},
    'C07': {'C06_badip': '.', 'C08_unixpeer': '.', 'C05_nsockudp': '.'},
    'C08': {'C06_unix': '.', 'C06_badip': '.', 'C07_recv': 'sender', 'C07_send': 'descriptor|goes out', 'C04_accept': 'family', 'C06_connect': '.',
            'C07_factory': 'family'},
    'C09': {'C06_nio': '.', 'C06_sock': '.'},
    'C10': {'C12_race': '.', 'C11_reentrant': '.'},
    'C11': {'C12_remove': '.', 'C10_interleaved': '.', 'C12_race': '.'},
    'C12': {'C10_interleaved': '.', 'C11_reentrant': '.', 'C11_dispatch_.*': '.'},
    'C14': {'C15_.*': '.', 'C18_stays': '.', 'C36_unset': '.'},
    'C15': {'C14_freed': '.', 'C14_accept': '.'},
    'C18': {'C14_freed': 'refers'},
    'C13': {'C12_race': 'race|lock'},
}


def pretty(mod, fns):
    import names
    return sorted(set(names.strip(mod.dem(f)) for f in fns))


for _p, _a in ALSO.items():
    PROPS[_p]['also'] = _a

_lib = {}


def lib_functions(mod):
    """functions defined in /repo/src"""
    r = _lib.get(id(mod))
    if r is None:
        r = set()
        for n, f in mod.funcs.items():
            if 'cppev' in mod.dem(n).split('(')[0] and not n.startswith('C'):
                r.add(n)
        _lib[id(mod)] = r
    return r


def required_covers(mod, fname):
    """the outcomes a driver declares: each has to be reachable"""
    out = set()
    for n in list(mod.funcs):
        if n != fname and not mod.dem(n).startswith(fname + '::'):
            continue
        fn = mod.funcs[n].parse()
        for b in fn.blocks.values():
            for i in b:
                if i.op in ('call', 'invoke') and i.a['callee'] == ('global', 'vf_cover'):
                    v = i.a['args'][0][1]
                    if v[0] == 'global':
                        g = mod.ginit(v[1])
                        if g and g[2][0] == 'bytes':
                            out.add(g[2][1].split(b'\0')[0].decode())
    return out


def known_findings(here, pid):
    """'known: property=C07 driver=... | message prefix | what fails' lines"""
    out = []
    p = os.path.join(here, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: property=%s ' % pid):
                head, msg, what = [x.strip() for x in ln.split('|')]
                drv = head.split('driver=')[1].strip()
                out.append((drv, msg, what))
    return out


def match_finding(known, drv, msg):
    for d, m, what in known:
        if d == drv and msg.startswith(m):
            return what
    return None
