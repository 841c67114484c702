"""Abstract semantics of what the library calls: system calls, pthreads, the C library and the parts of the
C++ standard library that are not interpreted from their own IR."""
from dom import Lin, L, ZERO, ONE, atom, fresh, Contradiction, root_of, _atoms
import interp as IN
from interp import Cond, TRUE, FALSE, Agg, UNDEF, Event, c_and, c_or

M = {}

SEM_FAILED = 0
EINTR, EAGAIN, EPIPE, ECONNRESET, EEXIST, ENOENT, EBUSY = 4, 11, 32, 104, 17, 2, 16


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def errno_addr():
    return atom(('errno',), ptr=True, nonnull=True, region='private', name='errno')


def newval(s, name, lo=None, hi=None, ptr=False, nonnull=False, region=None, site=None):
    s.nalloc += 1
    fr = s.frames[-1] if s.frames else None
    # named by call site and position on the path: the same path gives the same name
    return atom(('v', name, fr.uid if fr else 0, fr.block if fr else 0, fr.idx if fr else 0, s.nalloc, name, lo, hi),
                lo=lo, hi=hi, ptr=ptr, nonnull=nonnull, region=region, name=name)


def set_errno(s, v=None):
    e = v if v is not None else newval(s, 'errno', lo=1, hi=133)
    s.store(errno_addr(), 4, L(e))
    return L(e)


@model('__errno_location')
def _errno(I, s, c):
    I.finish_call(s, errno_addr())


def feasible(s, *ges):
    """copy of s with the given terms >= 0, or None"""
    z = s.copy()
    try:
        for g in ges:
            z.facts.add_ge(g)
    except Contradiction:
        return None
    z.rekey()
    return z


def finish(I, z, ev, ret):
    ev.ret = ret
    outs = I.emit(z, ev)
    more = []
    for q in outs:
        if q.status is None:
            I.finish_call(q, ret)
            I.emit_done(q, ev)
            g = q.ghost.get(('on', ev.name))
            me = q.ghost.get('tid', 0)
            if g is not None and not (ev.info or {}).get('outcome') == 'fail' and (me == g[1] or 'kern' in q.ghost and me != g[2]):
                # another thread may run here, or not
                w = q.copy()
                w.ghost.pop(('on', ev.name))
                w.log('interference', [], None, ev.where)
                w.ghost['tid'] = g[2]
                I.interrupt(w, g[0], resume(me))
                more.append(w)
    return outs + more


def resume(tid, relock=None):
    def f(I, s):
        s.ghost['tid'] = tid
        if relock is not None:
            relock(I, s)
    return f


def event(I, s, name, args, ret=None, info=None):
    ev = Event(name, args, ret, I.where(s), info)
    return finish(I, s, ev, ret)


def initialised(I, s, p, n):
    """are the n bytes at p all initialised?"""
    if not n.isconst():
        return True
    i = 0
    while i < n.c:
        st = 8 if i % 8 == 0 and i + 8 <= n.c else 4 if i % 4 == 0 and i + 4 <= n.c else 1
        v = s.load(p + i, st)
        if v is UNDEF:
            return False
        i += st
    return True


def cap_addr(pi, li):
    def f(I, s, a):
        """family, port field, first address word, fully initialised?, path length (AF_UNIX)"""
        p, n = a[pi], a[li]
        if not p.t:
            return [ZERO] * 6
        if I.bounds:
            I.check_access(s, p, n, 'read', 'socket address')
        fam = s.load(p, 2)
        port = s.load(p + 2, 2)
        w = s.load(p + 4, 4)
        w2 = s.load(p + 8, 8)
        isun = isinstance(fam, Lin) and fam.isconst() and fam.c == 1
        return [fam, port, w, ONE if isun or initialised(I, s, p, n) else ZERO,
                cstrlen(I, s, p + 2) if isun else ZERO, w2]
    return f


CAPTURE = {
    'setsockopt': lambda I, s, a: [s.load(a[3], 4), s.load(a[3] + 4, 4) if a[4].isconst() and a[4].c >= 8 else ZERO],
    'bind': cap_addr(1, 2), 'connect': cap_addr(1, 2), 'sendto': cap_addr(4, 5),
    'epoll_ctl': lambda I, s, a: [s.load(a[3], 4), s.load(a[3] + 4, 4)] if a[3].t else [],
}


class Sys:
    """a system call: list of outcomes (label, function(I, state, args) -> (ret, info) or None)"""

    def __init__(self, name, *outcomes, noret=False):
        self.name = name
        self.outcomes = outcomes
        M[name] = self

    def __call__(self, I, s, c):
        args = [I.tolin(a) if a is not UNDEF else fresh('undef') for a in c.args]
        args = [s.norm(a) for a in args]
        undef = [i for i, a in enumerate(c.args) if a is UNDEF]
        where = I.where(s)
        out = []
        skip = s.ghost.get('ok', ())
        only = s.ghost.get(('only', self.name))
        forced = None
        sc = s.ghost.get(('script', self.name))
        if sc:
            only, forced = (sc[0].split(':')[0],), sc[0].split(':')[1:]
        for label, f in self.outcomes:
            if label == 'fail' and sc is None and (self.name in skip or self.name in I.assume_ok or '*' in skip):
                continue
            if only is not None and label not in only:
                continue
            z = s.copy()
            if forced and label == 'data':
                z.ghost['forced'] = forced[0]
            try:
                r = f(I, z, args)
            except Contradiction:
                continue
            if r is None:
                continue
            rs = r if isinstance(r, list) else [(z, r[0], r[1] if len(r) > 1 else {})]
            for z2, ret, info in rs:
                info = dict(info)
                if sc is not None:
                    z2.ghost[('script', self.name)] = sc[1:]
                    z2.ghost.pop('forced', None)
                    if forced and isinstance(info.get('errno', info.get('err')), Lin):
                        try:
                            z2.facts.add_eq(info.get('errno', info.get('err')) - int(forced[0]))
                        except Contradiction:
                            continue
                    elif forced and label == 'data' and self.name == 'write':
                        pass
                    elif forced and isinstance(ret, Lin):
                        try:
                            z2.facts.add_eq(ret - int(forced[0]))
                        except Contradiction:
                            continue
                info['outcome'] = label
                cap = CAPTURE.get(self.name)
                if cap:
                    info['val'] = cap(I, z2, args)
                if undef:
                    info['undef'] = undef
                z2.rekey()
                ev = Event(self.name, args, ret, where, info)
                out += finish(I, z2, ev, ret)
        return out


def fail(ret=-1, errs=None):
    def f(I, z, a):
        e = set_errno(z)
        return (L(ret), {'errno': e})
    return ('fail', f)


def ok0(I, z, a):
    return (ZERO, {})


def okfd(I, z, a):
    return (newval(z, 'fd', lo=0, hi=1 << 20), {})


def simple(name, okf=ok0, label='ok'):
    return Sys(name, fail(), (label, okf))


EXACT = 4


def _read_ok(I, z, a):
    n = a[2]
    forced = z.ghost.get('forced')
    if n.isconst() and 0 < n.c <= EXACT or forced and n.isconst() and int(forced) <= n.c:
        # short transfers: one partition per length, the bytes named by their position in the stream
        if I.bounds:
            I.check_access(z, a[1], n, 'write', 'read()')
        out = []
        for k in (int(forced),) if forced else range(1, n.c + 1):
            q = z.copy()
            g = ('rpos', a[0])
            pos = q.ghost.get(g, 0)
            for i in range(k):
                q.store(a[1] + i, 1, atom(('rbyte', a[0], pos + i), lo=-128, hi=127, name='in[%d]' % (pos + i)))
            q.ghost[g] = pos + k
            out.append((q, Lin(k), {}))
        return out
    if n.isconst() and n.c < 0:
        z.violate('read() with length %d at %s' % (n.c, I.where(z)))
    z.facts.add_ge(n - 1)
    z.rekey()
    r = newval(z, 'nread', lo=1)
    z.facts.add_ge(z.norm(n) - r)
    if I.bounds:
        I.check_access(z, a[1], n, 'write', 'read()')
    z.havoc_range(a[1], z.norm(r))
    return (r, {})


def _read0(I, z, a):
    return (ZERO, {})


Sys('read', fail(), ('data', _read_ok), ('eof', _read0))


def _write_ok(I, z, a):
    n = a[2]
    k = z.ghost.get('forced')
    if n.isconst() and 0 < n.c <= (4096 if k else EXACT):
        if I.bounds:
            I.check_access(z, a[1], n, 'read', 'write()')
        out = []
        bs = [z.load(a[1] + i, 1) for i in range(n.c)]
        for k in [n.c if k == 'all' else min(int(k), n.c)] if k else range(1, n.c + 1):
            q = z.copy()
            g = ('wrote', a[0])
            q.ghost[g] = q.ghost.get(g, ()) + tuple(bs[:k])
            out.append((q, Lin(k), {}))
        return out
    if n.isconst() and n.c < 0:
        z.violate('write() with length %d at %s' % (n.c, I.where(z)))
    z.facts.add_ge(n - 1)
    z.rekey()
    if I.bounds:
        I.check_access(z, a[1], n, 'read', 'write()')
    r = newval(z, 'nwritten', lo=1)
    z.facts.add_ge(z.norm(n) - r)
    return (r, {})


def _write0(I, z, a):
    z.facts.add_eq(a[2])
    return (ZERO, {})


Sys('write', fail(), ('data', _write_ok), ('zero', _write0))


def sa_store(I, z, p):
    """the kernel fills in a socket address"""
    z.havoc_range(p, None)
    fam = z.ghost.get('sa_family')
    if fam is not None:
        z.store(p, 2, fam)
        z.store(p + 2, 2, atom(('saport',), lo=0, hi=65535, name='netport'))
        if isinstance(fam, Lin) and fam.isconst():
            z.store(p + (4 if fam.c == 2 else 8), 4, atom(('saaddr',), name='address'))


def _recv_ok(I, z, a):
    n = a[2]
    if len(a) > 5 and a[5].t:
        z.ghost['salen'] = z.load(a[5], 4)
    z.facts.add_ge(n)
    if I.bounds:
        I.check_access(z, a[1], n, 'write', 'recvfrom()')
    if n.isconst():
        out = []
        for k in range(0, min(n.c, 2) + 1):
            q = z.copy()
            g = ('rpos', a[0])
            pos = q.ghost.get(g, 0)
            for i in range(k):
                q.store(a[1] + i, 1, atom(('rbyte', a[0], pos + i), lo=-128, hi=127, name='in[%d]' % (pos + i)))
            q.ghost[g] = pos + k
            if len(a) > 4 and a[4].t:
                sa_store(I, q, a[4])
            out.append((q, Lin(k), {}))
        if n.c > 2:
            q = z.copy()
            r = newval(q, 'nrecv', lo=3)
            q.facts.add_ge(n - r)
            q.havoc_range(a[1], r)
            q.ghost[('rpos', a[0])] = 1 << 20
            if len(a) > 4 and a[4].t:
                sa_store(I, q, a[4])
            out.append((q, r, {}))
        return out
    r = newval(z, 'nrecv', lo=0)
    z.facts.add_ge(z.norm(n) - r)
    z.havoc_range(a[1], z.norm(r))
    if a[4].t:
        z.havoc_range(a[4], None)
        sa_store(I, z, a[4])
    return (r, {})


def _send_ok(I, z, a):
    n = a[2]
    z.facts.add_ge(n)
    if I.bounds:
        I.check_access(z, a[1], n, 'read', 'sendto()')
    if n.isconst() and n.c <= EXACT:
        g = ('wrote', a[0])
        z.ghost[g] = z.ghost.get(g, ()) + tuple(z.load(a[1] + i, 1) for i in range(n.c))
    return (n, {})      # datagrams are sent whole


Sys('recvfrom', fail(), ('data', _recv_ok))
Sys('recv', fail(), ('data', _recv_ok))
Sys('sendto', fail(), ('data', _send_ok))
Sys('send', fail(), ('data', _send_ok))
for _n in ('socket', 'accept', 'accept4', 'open', 'shm_open', 'epoll_create', 'epoll_create1', 'dup', 'eventfd'):
    Sys(_n, fail(), ('ok', okfd))
for _n in ('connect', 'bind', 'listen', 'shutdown', 'unlink', 'mkfifo', 'epoll_ctl', 'ftruncate', 'munmap', 'kill',
           'raise', 'setsockopt', 'sem_close', 'sem_post', 'sem_wait', 'sem_trywait', 'sem_unlink',
           'shm_unlink', 'sigaction', 'sigsuspend', 'killpg', 'fchmod', 'fcntl64', 'ioctl', 'sem_init', 'sem_destroy',
           'sem_timedwait', 'fallocate'):
    simple(_n)


def _dup2(I, z, a):
    return (a[1], {})


Sys('dup2', fail(), ('ok', _dup2))
Sys('dup3', fail(), ('ok', _dup2))


def _close(I, z, a):
    return (ZERO, {})


Sys('close', ('ok', _close))


def _fcntl(I, z, a):
    if a[1].isconst() and a[1].c == 3:      # F_GETFL
        return (newval(z, 'flags', lo=0), {})
    if a[1].isconst() and a[1].c in (0, 1030):
        return okfd(I, z, a)
    if a[1].isconst() and a[1].c == 1:
        return (newval(z, 'fdflags', lo=0, hi=1), {})
    return (ZERO, {})


Sys('fcntl', fail(), ('ok', _fcntl))


def _pipe(I, z, a):
    r, w = newval(z, 'pipe_r', lo=0, hi=1 << 20), newval(z, 'pipe_w', lo=0, hi=1 << 20)
    z.store(a[0], 4, r)
    z.store(a[0] + 4, 4, w)
    return (ZERO, {'r': r, 'w': w})


Sys('pipe', fail(), ('ok', _pipe))
Sys('pipe2', fail(), ('ok', _pipe))


def _socketpair(I, z, a):
    r, w = newval(z, 'pipe_r', lo=0, hi=1 << 20), newval(z, 'pipe_w', lo=0, hi=1 << 20)
    z.store(a[3], 4, r)
    z.store(a[3] + 4, 4, w)
    return (ZERO, {'r': r, 'w': w})


Sys('socketpair', fail(), ('ok', _socketpair))


def _getsockopt(I, z, a):
    ln = z.load(a[4], 4)
    n = ln.c if isinstance(ln, Lin) and ln.isconst() else None
    z.havoc_range(a[3], Lin(n) if n is not None else None)
    if n is not None:
        for o in range(0, n, 4):
            v = newval(z, 'optval')
            z.store(a[3] + o, 4, v)
            z.ghost[('optval', o // 4)] = v
    return (ZERO, {'len': ln})


Sys('getsockopt', fail(), ('ok', _getsockopt))


def _getname(I, z, a):
    ln = z.load(a[2], 4)
    if I.bounds and isinstance(ln, Lin):
        I.check_access(z, a[1], ln, 'write', 'getsockname()')
    sa_store(I, z, a[1])
    z.ghost['salen'] = ln
    return (ZERO, {'len': ln})


Sys('getsockname', fail(), ('ok', _getname))
Sys('getpeername', fail(), ('ok', _getname))


def _fstat(I, z, a):
    z.havoc_range(a[1], Lin(144))
    sz = newval(z, 'st_size', lo=0)
    z.store(a[1] + 48, 8, sz)
    return (ZERO, {'st_size': sz})


Sys('fstat', fail(), ('ok', _fstat))


def _mmap(I, z, a):
    p = newval(z, 'map', ptr=True, nonnull=True, region='map')
    z.sizes[p.t[0][0]] = a[1]
    old = z.ghost.get('mapold')
    if old is not None:         # what is already there when it is mapped
        z.store(p, 1, old)
    return (p, {})


Sys('mmap', fail(-1), ('ok', _mmap))


def _sem_open(I, z, a):
    p = newval(z, 'sem', ptr=True, nonnull=True, region='sem')
    return (p, {})


Sys('sem_open', fail(SEM_FAILED), ('ok', _sem_open))


def _fork(I, z, a):
    z2 = z.copy()
    z2.ghost['child'] = ONE
    p = newval(z, 'pid', lo=1)
    z.ghost['child'] = ZERO
    return [(z2, ZERO, {'who': 'child'}), (z, p, {'who': 'parent'})]


Sys('fork', fail(), ('ok', _fork))
Sys('vfork', fail(), ('ok', _fork))


def _waitpid(I, z, a):
    if a[1].t:
        st = newval(z, 'status')
        z.store(a[1], 4, st)
    else:
        st = None
    r = a[0]
    return (r, {'status': st})


def _waitpid0(I, z, a):
    if a[2].isconst() and not a[2].c & 1:
        return None
    return (ZERO, {})


Sys('waitpid', fail(), ('exited', _waitpid), ('running', _waitpid0))


def _terminal(status):
    def h(I, s, c):
        args = [s.norm(I.tolin(a)) for a in c.args]
        outs = I.emit(s, Event(c.sn, args, None, I.where(s)))
        for z in outs:
            z.status = status
        return outs
    return h


M['_exit'] = _terminal('_exit')
M['_Exit'] = _terminal('_exit')
M['exit'] = _terminal('exit')
M['quick_exit'] = _terminal('exit')
M['abort'] = _terminal('abort')
M['__assert_fail'] = _terminal('abort')
M['std::terminate'] = _terminal('terminate')
M['__clang_call_terminate'] = _terminal('terminate')
M['__cxa_pure_virtual'] = _terminal('abort')


def _exec(I, s, c):
    args = [s.norm(I.tolin(a)) for a in c.args]
    z = s.copy()
    where = I.where(s)
    outs = I.emit(z, Event('exec', args, None, where, {'fn': c.sn}))
    for q in outs:
        q.status = 'exec'
    set_errno(s)
    ev = Event('exec_failed', args, Lin(-1), where, {'fn': c.sn})
    return outs + finish(I, s, ev, Lin(-1))


for _n in ('execvp', 'execv', 'execve', 'execvpe', 'execl', 'execlp', 'execle', 'fexecve'):
    M[_n] = _exec

LOCKS = {'pthread_mutex_lock': 'x', 'pthread_mutex_trylock': 'x', 'pthread_spin_lock': 'x', 'pthread_spin_trylock': 'x',
         'pthread_rwlock_rdlock': 'r', 'pthread_rwlock_tryrdlock': 'r', 'pthread_rwlock_wrlock': 'x', 'pthread_rwlock_trywrlock': 'x'}
UNLOCKS = ('pthread_mutex_unlock', 'pthread_spin_unlock', 'pthread_rwlock_unlock')


def recursive(z, m):
    """is the mutex at m of the recursive kind?"""
    v = z.load(m + 16, 4)
    return isinstance(v, Lin) and z.norm(v) == ONE


def hb_acquire(z, m):
    """happens-before: what was released at m is before what this thread does from here on"""
    if z.ghost.get('hb'):
        me = ('vc', z.ghost.get('tid', 0))
        z.ghost[me] = vc_join(z.ghost.get(me, ()), z.ghost.get(('rel', m), ()))


def hb_release(z, m):
    if z.ghost.get('hb'):
        t = z.ghost.get('tid', 0)
        v = vc_join(z.ghost.get(('vc', t), ()), ((t, 1),))
        z.ghost[('rel', m)] = vc_join(z.ghost.get(('rel', m), ()), v)
        z.ghost[('vc', t)] = tuple((i, n + (i == t)) for i, n in v)


def vc_join(a, b):
    d = dict(a)
    for i, n in b:
        d[i] = max(d.get(i, 0), n)
    return tuple(sorted(d.items()))


def lock_effect(I, z, n, a):
    """which locks this thread holds (lock identity -> mode)"""
    me = z.ghost.get('tid', 0)
    if n in LOCKS:
        k = ('held', a[0], me)
        for j, m in list(z.ghost.items()):
            if isinstance(j, tuple) and j[0] == 'held' and j[1] == a[0] and j[2] != me and not (m == 'r' and LOCKS[n] == 'r'):
                raise Contradiction     # another thread holds it: blocked here
        if z.ghost.get(k) and n.startswith('pthread_mutex') and recursive(z, a[0]):
            d = ('rdepth', a[0], me)
            z.ghost[d] = z.ghost.get(d, 1) + 1
            return
        if z.ghost.get(k):
            if 'try' in n:
                raise Contradiction
            if not (LOCKS[n] == 'r' and z.ghost[k] == 'r'):
                z.violate('lock acquired while this thread already holds it at %s' % I.where(z))
        z.ghost[k] = LOCKS[n]
        hb_acquire(z, a[0])
    elif n in UNLOCKS:
        k = ('held', a[0], me)
        if not z.ghost.get(k):
            if I.lock_discipline:
                z.violate('lock released that this thread does not hold at %s' % I.where(z))
        d = ('rdepth', a[0], me)
        if z.ghost.get(d, 1) > 1:
            z.ghost[d] -= 1
            return
        z.ghost.pop(d, None)
        z.ghost.pop(k, None)
        hb_release(z, a[0])


# functions returning an error code
for _n in ('pthread_create', 'pthread_join', 'pthread_detach', 'pthread_cancel', 'pthread_kill', 'pthread_setcancelstate',
           'pthread_setcanceltype', 'pthread_sigmask', 'pthread_spin_init', 'pthread_spin_lock', 'pthread_spin_unlock',
           'pthread_spin_trylock', 'pthread_spin_destroy', 'pthread_mutexattr_init', 'pthread_mutexattr_destroy',
           'pthread_mutexattr_settype', 'pthread_mutexattr_setprotocol', 'pthread_mutexattr_setpshared', 'pthread_mutexattr_setrobust',
           'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock',
           'pthread_condattr_init', 'pthread_condattr_destroy', 'pthread_condattr_setpshared', 'pthread_condattr_setclock',
           'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal',
           'pthread_cond_broadcast', 'pthread_rwlockattr_init', 'pthread_rwlockattr_destroy', 'pthread_rwlockattr_setpshared',
           'pthread_rwlockattr_setkind_np',
           'pthread_rwlock_init', 'pthread_rwlock_destroy', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
           'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'sigwait',
           'pthread_attr_init', 'pthread_attr_destroy', 'pthread_attr_setdetachstate', 'pthread_sigqueue'):
    def _mk(n):
        def failc(I, z, a):
            if n in I.sync_ok or I.is_lib_lock(z, a):
                return None     # a C++ standard lock fails only on misuse
            e = newval(z, 'err', lo=1, hi=133)
            return (e, {'err': e})

        def okc(I, z, a):
            lock_effect(I, z, n, a)
            if n == 'sigwait':
                z.havoc_range(a[1], Lin(4))
                v = newval(z, 'sig', lo=1, hi=64)
                z.store(a[1], 4, v)
                return (ZERO, {'sig': v})
            if n == 'pthread_create':
                t = newval(z, 'thread')
                z.store(a[0], 8, t)
                return (ZERO, {'thread': t})
            if n == 'pthread_sigmask' and a[2].t:
                z.store(a[2], 8, newval(z, 'sigmask'))
                z.ghost[('sigset', a[2])] = ('mask', ())
            return (ZERO, {})
        Sys(n, ('fail', failc), ('ok', okc))
    _mk(_n)


# locks that only fail on misuse: C++ mutexes
def _sync(name):
    base = M[name]

    def h(I, s, c):
        return base(I, s, c)
    return h


# signal sets
def _sigset(kind):
    def h(I, s, c):
        a = [s.norm(I.tolin(x)) for x in c.args]
        k = ('sigset', a[0])
        cur = s.ghost.get(k, ('?', ()))
        if kind in ('empty', 'full'):
            s.ghost[k] = (kind, ())
        else:
            s.ghost[k] = (cur[0], cur[1] + ((kind, a[1]),))
        I.finish_call(s, ZERO)
    return h


M['sigemptyset'] = _sigset('empty')
M['sigfillset'] = _sigset('full')
M['sigaddset'] = _sigset('add')
M['sigdelset'] = _sigset('del')


def _sigismember(I, s, c):
    a = [s.norm(I.tolin(x)) for x in c.args]
    st = s.ghost.get(('sigset', a[0]), ('?', ()))
    v = atom(('sigismember', st[0], st[1], s.load(a[0], 8), a[1]), lo=0, hi=1, name='sigismember')
    return event(I, s, 'sigismember', a, v, {'set': st})


M['sigismember'] = _sigismember


def _sigpending_ok(I, z, a):
    z.store(a[0], 8, newval(z, 'pendmask'))
    z.ghost[('sigset', a[0])] = ('pending', ())
    return (ZERO, {})


Sys('sigpending', fail(), ('ok', _sigpending_ok))


# misc C library
def _ret(name, lo=None, hi=None):
    def h(I, s, c):
        args = [s.norm(I.tolin(a)) if a is not UNDEF else fresh('undef') for a in c.args]
        return event(I, s, c.sn, args, newval(s, name, lo=lo, hi=hi))
    return h


def _time(I, z, a):
    v = newval(z, 'now', lo=0)
    if len(a) and a[0].t:
        z.store(a[0], 8, v)
    return (v, {})


Sys('time', fail(), ('ok', _time))
M['getpid'] = _ret('pid', 1)
_sc, _gt = _ret('syscall'), _ret('tid', 1)


def _tid(f):
    def h(I, s, c):
        if 'plain' in s.ghost:
            return event(I, s, 'gettid', [], Lin(70 + s.ghost.get('tid', 0)))
        return f(I, s, c)
    return h


M['syscall'] = _tid(_sc)
M['gettid'] = _tid(_gt)
M['pthread_self'] = _ret('self')
M['rand'] = _ret('rand', 0)
M['sched_yield'] = _ret('zero', 0, 0)
M['usleep'] = _ret('zero', 0, 0)
M['alarm'] = _ret('x', 0)


def _swap16(I, s, c):
    v = s.norm(I.tolin(c.args[0]))
    if v.isconst():
        x = v.c & 0xffff
        I.finish_call(s, Lin(IN.sext(((x & 255) << 8) | (x >> 8), 16)))
        return
    I.finish_call(s, atom(('bswap16', v), lo=0, hi=65535, name='bswap16(%s)' % v))


def _swap32(I, s, c):
    v = s.norm(I.tolin(c.args[0]))
    if v.isconst():
        I.finish_call(s, Lin(IN.sext(int.from_bytes((v.c & 0xffffffff).to_bytes(4, 'little'), 'big'), 32)))
        return
    I.finish_call(s, atom(('bswap32', v), name='bswap32(%s)' % v))


M['htons'] = M['ntohs'] = _swap16
M['htonl'] = M['ntohl'] = _swap32


def _pton_ok(I, z, a):
    n = 4 if a[0].isconst() and a[0].c == 2 else 16
    z.havoc_range(a[2], Lin(n))
    z.store(a[2], 4, newval(z, 'addr'))
    return (ONE, {})


Sys('inet_pton', ('fail', fail()[1]), ('bad', lambda I, z, a: (ZERO, {})), ('ok', _pton_ok))


def _ntop_ok(I, z, a):
    if I.bounds:
        I.check_access(z, a[2], a[3], 'write', 'inet_ntop()')
    z.havoc_range(a[2], None)
    try:
        v = z.load(a[1], 4)
    except Exception:
        v = None
    for i, ch in enumerate(b'n1\0'):        # the text of whatever address
        z.store(a[2] + i, 1, Lin(ch))
    return (a[2], {'val': [v]})


Sys('inet_ntop', fail(0), ('ok', _ntop_ok))


def _localtime(I, z, a):
    z.havoc_range(a[1], Lin(56))
    try:
        t = z.load(a[0], 8)
    except Exception:
        t = None
    vs = []
    for i in range(9):
        vs.append(newval(z, 'tm%d' % i, lo=0))
        z.store(a[1] + 4 * i, 4, vs[-1])
    z.ghost['tm'] = tuple(vs)
    return (a[1], {'val': [t]})


Sys('localtime_r', fail(0), ('ok', _localtime))
Sys('gmtime_r', fail(0), ('ok', _localtime))


def _strftime_ok(I, z, a):
    if I.bounds:
        I.check_access(z, a[0], a[1], 'write', 'strftime()')
    if 'plain' in z.ghost:
        z.store(a[0], 1, Lin(ord('T')))
        z.store(a[0] + 1, 1, ZERO)
        return (ONE, {})
    same = ZERO
    try:
        vs = z.ghost.get('tm')
        if vs and all(z.norm(I.tolin(z.load(a[3] + 4 * i, 4)) - v) == ZERO for i, v in enumerate(vs)):
            same = ONE
    except Exception:
        pass
    if 'text' in z.ghost:
        cs = [newval(z, 'text%d' % i, lo=1, hi=127) for i in range(3)]
        for i, v in enumerate(cs):
            z.store(a[0] + i, 1, v)
        z.store(a[0] + 3, 1, ZERO)
        return (Lin(3), {'val': [same] + cs})
    z.havoc_range(a[0], None)
    n = newval(z, 'n', lo=1)
    z.facts.add_ge(a[1] - n - 1)
    return (n, {'val': [same]})


Sys('strftime', ('zero', lambda I, z, a: None if 'plain' in z.ghost else (ZERO, {})), ('ok', _strftime_ok))


def cstrlen(I, s, p):
    """length of the C string at p"""
    v = copied_len(I, s, p)
    if v is not None:
        return v
    bs = I.const_bytes(p, s)
    if bs is not None and b'\0' in bs:
        return Lin(bs.index(b'\0'))
    # the c_str() of a known string
    b, off = s.base(p)
    r = root_of(b)
    if r is not None and r in s.strs and b.t == ((r, 1),) and off == 0:
        pcs = s.strs[r]
        for i, x in enumerate(pcs):
            if x[0] != 'c':
                break
            if s.facts.entails_eq(x[1]):
                return Lin(i)
            if not s.facts.entails_ne(x[1]):
                break
        else:
            return Lin(len(pcs))
        return atom(('cstrlen', pcs), lo=0, name='strlen')
    # an array with characters that are known not to end it
    for i in range(64):
        v = s.load(p + i, 1)
        if not isinstance(v, Lin) or not v.isconst() and not s.facts.entails_ne(v):
            break
        if v.isconst() and v.c == 0:
            return Lin(i)
    return atom(('cstrlen', s.norm(p), s.version(b)), lo=0, hi=1 << 30, name='strlen')


IN.Interp.cstrlen = staticmethod(cstrlen)


def copied_len(I, s, p):
    k = s.ghost.get(('copyof', s.norm(p)))
    if k is not None and k[0] == s.version(s.base(p)[0]):
        return s.norm(k[1])
    return None


@model('strlen')
def _strlen(I, s, c):
    p = s.norm(I.tolin(c.args[0]))
    v = cstrlen(I, s, p)
    return event(I, s, 'strlen', [p], v)


@model('strncpy', 'strcpy', 'strcat', 'strncat')
def _strncpy(I, s, c):
    a = [s.norm(I.tolin(x)) for x in c.args]
    ln = cstrlen(I, s, a[1])
    if c.sn in ('strcat', 'strncat'):
        s.unknown = s.unknown | {c.sn}
    n = a[2] if c.sn == 'strncpy' else ln + 1
    if I.bounds:
        I.check_access(s, a[0], n, 'write', c.sn + '()')
    if c.sn != 'strncpy':
        s.havoc_range(a[0], n)
        s.ghost[('copyof', s.norm(a[0]))] = (s.version(s.base(a[0])[0]), ln)
        return event(I, s, c.sn, a, a[0], {'len': ln})
    fits, cut = I.fork(s, Cond('ge', n - ln - 1))
    out = []
    for z, m in [(z, ln) for z in fits] + [(z, n) for z in cut]:
        nz = z.norm(n)
        nul = m is n and isinstance(z.load(z.norm(a[0]) + nz, 1), Lin) and z.load(z.norm(a[0]) + nz, 1) == ZERO
        z.havoc_range(a[0], nz)
        if m is ln or nul:
            z.ghost[('copyof', z.norm(a[0]))] = (z.version(z.base(a[0])[0]), m)
        out += event(I, z, c.sn, a, a[0], {'len': m})
    return out


@model('memcpy', 'memmove')
def _memcpy(I, s, c):
    I.do_copy(s, c.args[0], c.args[1], c.args[2], c.ins)
    I.finish_call(s, c.args[0])


@model('memset')
def _memset(I, s, c):
    I.do_fill(s, c.args[0], c.args[1], c.args[2], c.ins)
    I.finish_call(s, c.args[0])


def chars(I, s, p, n):
    """the n characters at p"""
    bs = I.const_bytes(p, s)
    b, off = s.base(p)
    r = root_of(b)
    pcs = s.strs.get(r) if r is not None else None
    out = []
    for i in range(n):
        if bs is not None:
            out.append(Lin(bs[i] - 256 if bs[i] > 127 else bs[i]) if i < len(bs) else None)
        elif pcs is not None and b.t == ((r, 1),):
            j = off + i
            ok = 0 <= j <= len(pcs) and all(x[0] == 'c' for x in pcs[:j + 1])
            out.append((pcs[j][1] if j < len(pcs) else ZERO) if ok else None)
        else:
            v = s.load(p + i, 1)
            out.append(v if isinstance(v, Lin) else None)
    return out


@model('memcmp', 'strcmp', 'strncmp', 'bcmp')
def _memcmp(I, s, c):
    pair = None
    if c.args[0] is not UNDEF and c.args[1] is not UNDEF:
        p, q = s.norm(I.tolin(c.args[0])), s.norm(I.tolin(c.args[1]))
        if c.sn.startswith('str'):
            n, m = s.norm(cstrlen(I, s, p)), s.norm(cstrlen(I, s, q))
            if n.isconst() and m.isconst():
                n, m = n.c + 1, m.c + 1
                k = s.norm(I.tolin(c.args[2])) if c.sn == 'strncmp' else Lin(1 << 20)
                if k.isconst():
                    n, m = min(n, k.c), min(m, k.c)
                    pair = chars(I, s, p, n), chars(I, s, q, m)
        else:
            n = s.norm(I.tolin(c.args[2]))
            if n.isconst() and 0 <= n.c <= 256:
                pair = chars(I, s, p, n.c), chars(I, s, q, n.c)
    if pair is None or any(x is None or y is None for x, y in zip(*pair)) or \
            sum(not s.norm(x - y).isconst() for x, y in zip(*pair)) > 24:
        I.finish_call(s, newval(s, 'cmp'))
        return
    return compared(I, s, pair[0], pair[1], ZERO)


def same_chars(I, s, xs, ys):
    """states in which the sequences are equal; states in which they differ, with the first two that do"""
    eq, ne = [s], []
    for a, b in zip(xs, ys):
        nxt = []
        for z in eq:
            d = z.norm(a - b)
            if d.isconst():
                if d.c == 0:
                    nxt.append(z)
                else:
                    ne.append((z, a, b))
                continue
            t, f = I.fork(z, Cond('eq', d))
            nxt += t
            ne += [(y, a, b) for y in f]
        eq = nxt
    return eq, ne


def compared(I, s, xs, ys, same):
    """the result of comparing two character sequences: what it is when they agree, its sign when they do not"""
    eq, ne = same_chars(I, s, xs, ys)
    for z in eq:
        I.finish_call(z, same)
    out = list(eq)
    for z, a, b in ne:
        a, b = z.norm(a), z.norm(b)
        if a.isconst():
            a = Lin(a.c % 256)
        if b.isconst():
            b = Lin(b.c % 256)
        plain = z.facts.entails_ge(a) and z.facts.entails_ge(b)
        if plain and z.facts.entails_ge(a - b - 1):
            v = newval(z, 'cmp', lo=1, hi=1 << 30)
        elif plain and z.facts.entails_ge(b - a - 1):
            v = newval(z, 'cmp', lo=-(1 << 30), hi=-1)
        else:
            v = newval(z, 'cmp')
            z.facts.add_ne(v)
            z.rekey()
        I.finish_call(z, v)
        out.append(z)
    return out


@model('poll', 'ppoll', 'select')
def _poll(I, s, c):
    args = [s.norm(I.tolin(a)) if a is not UNDEF else fresh('undef') for a in c.args]
    out = []
    for lo, hi in ((-1, -1), (0, 1)):
        z = s.copy()
        if lo < 0:
            set_errno(z)
            r = Lin(-1)
        else:
            r = newval(z, 'pollret', lo=0, hi=64)
        out += finish(I, z, Event('poll', args, r, I.where(s)), r)
    return out


def _epoll_wait_ok(I, z, a):
    k = z.ghost.get('events')
    if k is not None:
        # the driver bounds how many events are ready: one partition per number, descriptors and masks arbitrary
        lo, hi = k
        out = []
        base = z.ghost.get('evseq', 0)
        for n in range(lo, hi + 1):
            q = z.copy()
            q.facts.add_ge(a[2] - n)
            if I.bounds:
                I.check_access(q, a[1], a[2] * 12, 'write', 'epoll_wait()')
            for i in range(n):
                q.store(a[1] + 12 * i, 4, evmask(base + i))
                q.store(a[1] + 12 * i + 4, 4, evfd(base + i))
            q.ghost['evseq'] = base + n
            q.ghost['nready'] = Lin(n)
            q.ghost['events'] = q.ghost.get('events2', (0, 0))
            out.append((q, Lin(n), {'n': Lin(n)}))
        return out
    r = newval(z, 'nevents', lo=0)
    z.facts.add_ge(a[2] - r)
    if I.bounds:
        I.check_access(z, a[1], a[2] * 12, 'write', 'epoll_wait()')
    z.havoc_range(a[1], None)
    return (r, {'evs': a[1]})


def evmask(i):
    return atom(('evmask', i), lo=0, hi=31, name='evmask%d' % i)


def evfd(i):
    return atom(('evfd', i), lo=0, hi=1 << 20, name='evfd%d' % i)


@model('vf_evmask')
def _vf_evmask(I, s, c):
    I.finish_call(s, evmask(s.norm(I.tolin(c.args[0])).c))


@model('vf_evfd')
def _vf_evfd(I, s, c):
    I.finish_call(s, evfd(s.norm(I.tolin(c.args[0])).c))


@model('vf_events')
def _vf_events(I, s, c):
    """the next epoll_wait reports lo..hi events, later ones lo2..hi2"""
    v = [s.norm(I.tolin(x)).c for x in c.args]
    s.ghost['events'] = (v[0], v[1])
    s.ghost['events2'] = (v[2], v[3])
    I.finish_call(s, None)


@model('vf_on')
def _vf_on(I, s, c):
    """when this thread makes the call, thread `tid` may run the function at once"""
    s.ghost[('on', cname(I, s, c.args[0]))] = (cname(I, s, c.args[1]), s.ghost.get('tid', 0), s.norm(I.tolin(c.args[2])).c)
    I.finish_call(s, None)


@model('vf_off_all')
def _vf_off_all(I, s, c):
    for k in [k for k in s.ghost if isinstance(k, tuple) and k[0] == 'on']:
        del s.ghost[k]
    I.finish_call(s, None)


@model('vf_thread')
def _vf_thread(I, s, c):
    s.ghost['tid'] = s.norm(I.tolin(c.args[0])).c
    I.finish_call(s, None)


@model('vf_nheld')
def _vf_nheld(I, s, c):
    me = s.ghost.get('tid', 0)
    I.finish_call(s, Lin(len([1 for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'held' and v and k[2] == me])))


@model('vf_race')
def _vf_race(I, s, c):
    """start (1) or end (0) recording accesses; at the end, conflicting unsynchronised accesses are violations"""
    if s.norm(I.tolin(c.args[0])).c:
        s.ghost['race'] = ()
        if s.norm(I.tolin(c.args[0])).c == 2:
            s.ghost['hb'] = True
        s.ghost['raceold'] = frozenset(root_of(b) for b in s.mem)
    else:
        report_races(I, s)
        s.ghost.pop('race', None)
        s.ghost.pop('hb', None)
    I.finish_call(s, None)


def report_races(I, s):
    acc = s.ghost.get('race') or ()
    seen = set()
    for i, x in enumerate(acc):
        for y in acc[i + 1:]:
            if x[0] != y[0] or x[3] == y[3]:
                continue
            if not (x[2] or y[2]) or (x[4] and y[4]):
                continue
            if s.ghost.get('hb'):
                # the accesses are in the order they were made: is the first one before the second?
                if dict(y[7]).get(x[3], 0) >= x[8]:
                    continue
            elif set(x[5]) & set(y[5]):
                continue
            if not (x[1][0] < y[1][1] and y[1][0] < x[1][1]):
                continue
            k = tuple(sorted((x[6], y[6])))
            if k not in seen:
                seen.add(k)
                s.violate('unsynchronised accesses by two threads: %s and %s' % k)


def note_access(I, s, p, size, write, atomic):
    acc = s.ghost.get('race')
    if acc is None or p is UNDEF:
        return
    b, off = s.base(p)
    r = root_of(b)
    if r is None:
        return
    at = _atoms[r]
    if at.region == 'alloca' and isinstance(at.key, tuple) and at.key[0] == 'alloca' and at.key[1] != s.ghost.get('shared_uid'):
        pass
    if at.region == 'heap' and r not in s.ghost.get('raceold', ()):
        return          # made since: reachable by others only through what is checked
    me = s.ghost.get('tid', 0)
    locks = tuple(k[1] for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'held' and v and k[2] == me)
    w = I.where(s)
    if not w.startswith('src/') or I.mod.dem(s.frames[-1].fn.name).startswith(('std::_Sp_counted_base', '__gnu_cxx::__')):
        return          # reference counts are the library's own business
    rec = (b, (off, off + size), write, me, atomic, tuple(sorted(locks, key=repr)), '%s of %s by %s' % ('write' if write else 'read', w, 'an atomic operation' if atomic else 'a plain access'))
    rec = rec[:6] + (('%s at %s' % ('write' if write else 'read', w)),)
    if s.ghost.get('hb'):
        vc = s.ghost.get(('vc', me), ())
        rec += (vc, dict(vc).get(me, 1))
    if rec not in acc:
        s.ghost['race'] = acc + (rec,)


IN.note_access = note_access


Sys('epoll_wait', fail(), ('ok', _epoll_wait_ok))
Sys('epoll_pwait', fail(), ('ok', _epoll_wait_ok))


# ---------------------------------------------------------------- memory
@model('operator new', 'operator new[]', 'malloc')
def _new(I, s, c):
    n = s.norm(I.tolin(c.args[0]))
    p = newval(s, 'heap', ptr=True, nonnull=True, region='heap')
    s.sizes[p.t[0][0]] = n
    s.log('new', [n], p, I.where(s))
    I.finish_call(s, p)


@model('calloc')
def _calloc(I, s, c):
    p = newval(s, 'heap', ptr=True, nonnull=True, region='heap')
    I.finish_call(s, p)


@model('operator delete', 'operator delete[]', 'free')
def _delete(I, s, c):
    p = c.args[0]
    if p is UNDEF:
        I.finish_call(s, None)
        return
    p = s.norm(I.tolin(p))
    if p.isconst() and p.c == 0:
        I.finish_call(s, None)
        return
    r = root_of(p)
    if r is not None:
        if ('freed', r) in s.ghost:
            s.violate('memory freed twice at %s' % I.where(s))
        if _atoms[r].region == 'heap':
            s.ghost[('freed', r)] = 1
            s.drop_root(r)
    s.log('delete', [p], None, I.where(s))
    I.finish_call(s, None)


# ---------------------------------------------------------------- exceptions
@model('__cxa_allocate_exception')
def _alloc_exc(I, s, c):
    p = newval(s, 'exc', ptr=True, nonnull=True, region='private')
    I.finish_call(s, p)


@model('__cxa_free_exception')
def _free_exc(I, s, c):
    I.finish_call(s, None)


@model('__cxa_throw')
def _cxa_throw(I, s, c):
    obj = s.norm(c.args[0])
    k = IN._gk(c.args[1])
    info = None
    if k == '_ZTISt12system_error':
        info = s.load(obj + 16, 4)
    return I.throw(s, k, obj, info)


@model('__cxa_begin_catch')
def _begin_catch(I, s, c):
    s.ghost['caught'] = s.ghost.get('caught', ()) + ((s.exc['type'] if s.exc else None),)
    s.log('catch', [s.exc['type'] if s.exc else None], None, I.where(s))
    if s.exc:
        s.ghost[('exc', len(s.ghost['caught']))] = s.exc['obj']
        s.ghost['excinfo'] = (s.exc['type'], s.exc['obj'], s.exc['info'])
    s.exc = None
    I.finish_call(s, s.norm(I.tolin(c.args[0])))


@model('__cxa_end_catch')
def _end_catch(I, s, c):
    k = s.ghost.get('caught', ())
    s.ghost['caught'] = k[:-1]
    I.finish_call(s, None)


@model('__cxa_rethrow')
def _rethrow(I, s, c):
    t = s.ghost.get('excinfo', (None, fresh('exc', ptr=True), None))
    return I.throw(s, t[0], t[1], t[2])


def thrower(typ):
    def h(I, s, c):
        return I.throw(s, typ, newval(s, 'exc', ptr=True, nonnull=True, region='private'), None)
    return h


for n, t in (('std::__throw_length_error', '_ZTISt12length_error'), ('std::__throw_logic_error', '_ZTISt11logic_error'),
             ('std::__throw_out_of_range', '_ZTISt12out_of_range'), ('std::__throw_out_of_range_fmt', '_ZTISt12out_of_range'),
             ('std::__throw_bad_alloc', '_ZTISt9bad_alloc'), ('std::__throw_bad_array_new_length', '_ZTISt9bad_alloc'),
             ('std::__throw_bad_function_call', '_ZTISt17bad_function_call'), ('std::__throw_system_error', '_ZTISt12system_error'),
             ('std::__throw_future_error', '_ZTISt12future_error'), ('std::__throw_bad_cast', '_ZTISt8bad_cast'),
             ('std::__throw_runtime_error', '_ZTISt13runtime_error'), ('std::__throw_invalid_argument', '_ZTISt16invalid_argument'),
             ('std::__throw_bad_weak_ptr', '_ZTISt12bad_weak_ptr')):
    M[n] = thrower(t)


@model('std::system_error::system_error')
def _system_error(I, s, c):
    this = s.norm(c.args[0])
    d = c.dem
    if 'system_error const&' in d or 'system_error&&' in d:
        s.store(this + 16, 4, s.load(s.norm(c.args[1]) + 16, 4))
    elif '(int' in d:
        s.store(this + 16, 4, s.norm(I.tolin(c.args[1])))
    else:
        # error_code by value: {i32, ptr} passed in two registers (or {i64, ptr})
        v = c.args[1]
        v = s.norm(I.tolin(v))
        s.store(this + 16, 4, v)
    I.finish_call(s, None)


@model('std::logic_error::logic_error', 'std::runtime_error::runtime_error', 'std::invalid_argument::invalid_argument',
       'std::out_of_range::out_of_range', 'std::length_error::length_error', 'std::exception::exception')
def _exc_ctor(I, s, c):
    I.finish_call(s, None)


@model('std::_V2::system_category', 'std::_V2::generic_category', 'std::system_category', 'std::generic_category')
def _category(I, s, c):
    I.finish_call(s, atom(('category', c.sn), ptr=True, nonnull=True, region='global'))


@model('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what', 'strerror', 'dlerror', 'getenv')
def _what(I, s, c):
    I.finish_call(s, newval(s, 'cstr', ptr=True, nonnull=True))


for n in ('std::logic_error::~logic_error', 'std::runtime_error::~runtime_error', 'std::system_error::~system_error',
          'std::exception::~exception'):
    def _nop(I, s, c):
        I.finish_call(s, None)
    M[n] = _nop


@model('__gnu_cxx::__is_single_threaded')
def _single(I, s, c):
    I.finish_call(s, TRUE)


@model('__gthread_active_p', '__gthread_active_p()')
def _active(I, s, c):
    I.finish_call(s, ONE)


@model('__cxa_guard_acquire')
def _guard_acq(I, s, c):
    a = s.norm(I.tolin(c.args[0]))
    I.finish_call(s, ONE)


@model('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def _guard_rel(I, s, c):
    I.finish_call(s, ZERO)


# ---------------------------------------------------------------- harness intrinsics
def cname(I, s, p):
    b = I.const_bytes(p, s)
    return b.split(b'\0')[0].decode() if b is not None else None


@model('vf_int')
def _vf_int(I, s, c):
    n = cname(I, s, c.args[0])
    lo, hi = I.tolin(c.args[1]), I.tolin(c.args[2])
    v = atom(('in', n, lo.c, hi.c), lo=lo.c, hi=hi.c, name=n)
    I.finish_call(s, v)


@model('vf_any')
def _vf_any(I, s, c):
    """any value of the range, another one at every call"""
    I.finish_call(s, newval(s, cname(I, s, c.args[0]), lo=I.tolin(c.args[1]).c, hi=I.tolin(c.args[2]).c))


@model('vf_coin')
def _vf_coin(I, s, c):
    """both ways, another choice at every call"""
    z = s.copy()
    I.finish_call(s, ZERO)
    I.finish_call(z, ONE)
    return [s, z]


@model('vf_pick')
def _vf_pick(I, s, c):
    """every value of the range, one partition each"""
    n = cname(I, s, c.args[0])
    lo, hi = I.tolin(c.args[1]), I.tolin(c.args[2])
    out = []
    for i in range(lo.c, hi.c + 1):
        z = s.copy()
        z.ghost['pick:' + n] = Lin(i)
        I.finish_call(z, Lin(i))
        out.append(z)
    return out


@model('vf_cover')
def _vf_cover(I, s, c):
    n = cname(I, s, c.args[0])
    I.covered.add(n)
    I.finish_call(s, None)


@model('vf_bool')
def _vf_bool(I, s, c):
    n = cname(I, s, c.args[0])
    I.finish_call(s, Cond('ne', atom(('in', n), lo=0, hi=1, name=n)))


@model('vf_ptr')
def _vf_ptr(I, s, c):
    n = cname(I, s, c.args[0])
    I.finish_call(s, atom(('inptr', n), ptr=True, nonnull=True, region='obj', name=n))


@model('vf_assume')
def _vf_assume(I, s, c):
    a, b = I.fork(s, I.tocond(c.args[0]))
    for z in a:
        I.finish_call(z, None)
    b = [z for z in b if z.viol]
    for z in b:             # the path ends here, what was violated on it before stays violated
        z.status = 'stop'
    return a + b


@model('vf_assert')
def _vf_assert(I, s, c):
    msg = cname(I, s, c.args[1])
    I.stats['asserts'] = I.stats.get('asserts', 0) + 1
    I.covered.add('assert: ' + str(msg))
    good, bad = I.fork(s, I.tocond(c.args[0]))
    for z in bad:
        z.violate('%s [%s]' % (msg, last_lib_where(z)))
        I.finish_call(z, None)
    for z in good:
        z.log('assert', [msg], ONE, '')
        I.finish_call(z, None)
    return good + bad


def last_lib_where(z):
    t = z.trace
    while t is not None:
        x = t[0]
        w = x[3] if len(x) > 3 else None
        if isinstance(w, str) and w.startswith('src/'):
            return '%s %s' % (x[0], w)
        t = t[1]
    return '?'


@model('vf_mark')
def _vf_mark(I, s, c):
    n = cname(I, s, c.args[0])
    vals = [s.norm(I.tolin(a)) if a is not UNDEF else UNDEF for a in c.args[1:]]
    return event(I, s, 'mark:' + n, vals)


def lastev(s, name, k):
    """k-th event of the name (k < 0: from the end) since the last vf_reset"""
    l = []
    t = s.trace
    while t is not None:
        if t[0][0] == 'vf_reset':
            break
        if t[0][0] == name:
            l.append(t[0])
        t = t[1]
    l.reverse()
    try:
        return l, l[k]
    except IndexError:
        return l, None


@model('vf_reset')
def _vf_reset(I, s, c):
    s.log('vf_reset')
    I.finish_call(s, None)


@model('vf_ok')
def _vf_ok(I, s, c):
    """the listed system calls do not fail from here on"""
    s.ghost['ok'] = tuple(x.strip() for x in cname(I, s, c.args[0]).split(',') if x.strip())
    I.finish_call(s, None)


@model('vf_only')
def _vf_only(I, s, c):
    """restrict the outcomes of a call"""
    n = cname(I, s, c.args[0])
    s.ghost[('only', n)] = tuple(cname(I, s, c.args[1]).split(','))
    if s.ghost[('only', n)] == ('*',):
        s.ghost.pop(('only', n))
    I.finish_call(s, None)


@model('vf_count')
def _vf_count(I, s, c):
    l, _ = lastev(s, cname(I, s, c.args[0]), 0)
    I.finish_call(s, Lin(len(l)))


@model('vf_ret')
def _vf_ret(I, s, c):
    _, e = lastev(s, cname(I, s, c.args[0]), I.tolin(c.args[1]).c)
    v = e[2] if e else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


@model('vf_err')
def _vf_err(I, s, c):
    _, e = lastev(s, cname(I, s, c.args[0]), I.tolin(c.args[1]).c)
    v = (e[4] or {}).get('errno') or (e[4] or {}).get('err') if e and len(e) > 4 else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else ZERO)


@model('vf_failed')
def _vf_failed(I, s, c):
    """the last such call failed"""
    _, e = lastev(s, cname(I, s, c.args[0]), -1)
    ok = e and len(e) > 4 and (e[4] or {}).get('outcome') == 'fail'
    I.finish_call(s, TRUE if ok else FALSE)


@model('vf_arg')
def _vf_arg(I, s, c):
    _, e = lastev(s, cname(I, s, c.args[0]), I.tolin(c.args[1]).c)
    i = I.tolin(c.args[2]).c
    v = e[1][i] if e and i < len(e[1]) else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


M['vf_argp'] = _vf_arg


@model('vf_val')
def _vf_val(I, s, c):
    """value captured at a call (socket address, option value, ...)"""
    _, e = lastev(s, cname(I, s, c.args[0]), I.tolin(c.args[1]).c)
    i = I.tolin(c.args[2]).c
    l = (e[4] or {}).get('val', []) if e and len(e) > 4 else []
    v = l[i] if i < len(l) else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


def failures(s):
    out = []
    t = s.trace
    while t is not None:
        x = t[0]
        if x[0] == 'vf_reset':
            break
        if len(x) > 4 and isinstance(x[4], dict) and x[4].get('outcome') == 'fail':
            out.append(x)
        t = t[1]
    return out[::-1]


@model('vf_pos')
def _vf_pos(I, s, c):
    """position of the k-th such call among all events, -1 when there was none"""
    _, e = lastev(s, cname(I, s, c.args[0]), I.tolin(c.args[1]).c)
    n, at, t = 0, None, s.trace
    while t is not None:
        n += 1
        if e is not None and t[0] is e:
            at = n
        t = t[1]
    I.finish_call(s, Lin(-1 if at is None else n - at))


@model('vf_oks')
def _vf_oks(I, s, c):
    """how many such calls did not fail"""
    l, _ = lastev(s, cname(I, s, c.args[0]), 0)
    I.finish_call(s, Lin(len([e for e in l if not (len(e) > 4 and (e[4] or {}).get('outcome') == 'fail')])))


@model('vf_stsize')
def _vf_stsize(I, s, c):
    """the size the k-th fstat reported"""
    _, e = lastev(s, 'fstat', I.tolin(c.args[0]).c)
    v = (e[4] or {}).get('st_size') if e and len(e) > 4 else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


@model('vf_nfail')
def _vf_nfail(I, s, c):
    I.finish_call(s, Lin(len(failures(s))))


@model('vf_lasterr')
def _vf_lasterr(I, s, c):
    l = failures(s)
    if not l:
        I.finish_call(s, ZERO)
        return
    v = l[-1][4].get('errno') or l[-1][4].get('err')
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else ZERO)


@model('vf_closes')
def _vf_closes(I, s, c):
    """how often the descriptor was closed (since the start of the driver)"""
    fd = s.norm(I.tolin(c.args[0]))
    n = 0
    t = s.trace
    while t is not None:
        if t[0][0] == 'close' and s.facts.entails_eq(s.norm(t[0][1][0]) - fd):
            n += 1
        t = t[1]
    I.finish_call(s, Lin(n))


@model('vf_piped')
def _vf_piped(I, s, c):
    """descriptor of the k-th pipe: 0 read end, 1 write end"""
    _, e = lastev(s, 'pipe', I.tolin(c.args[0]).c)
    if e is None:
        _, e = lastev(s, 'pipe2', I.tolin(c.args[0]).c)
    i = I.tolin(c.args[1]).c
    v = (e[4] or {}).get('rw'[i]) if e else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


@model('vf_accepted')
def _vf_accepted(I, s, c):
    n = 0
    for nm in ('accept', 'accept4'):
        l, _ = lastev(s, nm, 0)
        n += sum(1 for e in l if len(e) > 4 and e[4].get('outcome') == 'ok')
    I.finish_call(s, Lin(n))


@model('vf_optval')
def _vf_optval(I, s, c):
    v = s.ghost.get(('optval', I.tolin(c.args[0]).c))
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


@model('vf_static')
def _vf_static(I, s, c):
    """initialise the namespace-scope object whose (mangled) name contains the text"""
    want = cname(I, s, c.args[0])
    for n, f in sorted(I.mod.funcs.items()):
        if want in f.text:
            return I.push(s, f, [], c.ins)
    I.finish_call(s, None)


@model('vf_saaddr')
def _vf_saaddr(I, s, c):
    I.finish_call(s, atom(('saaddr',), name='address'))


@model('vf_saport')
def _vf_saport(I, s, c):
    I.finish_call(s, atom(('bswap16', atom(('saport',), lo=0, hi=65535)), name='hostport'))


@model('vf_cstr')
def _vf_cstr(I, s, c):
    n = cname(I, s, c.args[0])
    p = atom(('inptr', n), ptr=True, nonnull=True, region='strin', name=n)
    v = cstrlen(I, s, p)
    s.facts.add_ge(v - I.tolin(c.args[1]))
    s.facts.add_ge(I.tolin(c.args[2]) - v)
    s.sizes[p.t[0][0]] = v + 1
    I.finish_call(s, p)


@model('vf_cstrlen')
def _vf_cstrlen(I, s, c):
    I.finish_call(s, cstrlen(I, s, s.norm(I.tolin(c.args[0]))))


@model('vf_rcount')
def _vf_rcount(I, s, c):
    I.finish_call(s, Lin(s.ghost.get(('rpos', s.norm(I.tolin(c.args[0]))), 0)))


@model('vf_rbyte')
def _vf_rbyte(I, s, c):
    fd, i = s.norm(I.tolin(c.args[0])), s.norm(I.tolin(c.args[1]))
    I.finish_call(s, atom(('rbyte', fd, i.c), lo=-128, hi=127))


@model('vf_wcount')
def _vf_wcount(I, s, c):
    I.finish_call(s, Lin(len(s.ghost.get(('wrote', s.norm(I.tolin(c.args[0]))), ()))))


@model('vf_wbyte')
def _vf_wbyte(I, s, c):
    fd, i = s.norm(I.tolin(c.args[0])), s.norm(I.tolin(c.args[1]))
    w = s.ghost.get(('wrote', fd), ())
    v = w[i.c] if i.isconst() and 0 <= i.c < len(w) else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))


@model('vf_g')
def _vf_g(I, s, c):
    n = cname(I, s, c.args[0])
    v = s.ghost.get(n, ZERO)
    I.finish_call(s, v)


@model('vf_set')
def _vf_set(I, s, c):
    n = cname(I, s, c.args[0])
    s.ghost[n] = s.norm(I.tolin(c.args[1]))
    I.finish_call(s, None)


@model('vf_off')
def _vf_off(I, s, c):
    """offset of a pointer inside its region"""
    p = s.norm(I.tolin(c.args[0]))
    r = root_of(p)
    I.finish_call(s, p - Lin(0, ((r, 1),)) if r is not None else fresh('off'))


@model('vf_size')
def _vf_size(I, s, c):
    p = s.norm(I.tolin(c.args[0]))
    r = root_of(p)
    I.finish_call(s, s.norm(s.sizes.get(r, ZERO)) if r is not None else ZERO)


@model('vf_root')
def _vf_root(I, s, c):
    p = s.norm(I.tolin(c.args[0]))
    r = root_of(p)
    I.finish_call(s, Lin(0, ((r, 1),)) if r is not None else p)


@model('vf_yield')
def _vf_yield(I, s, c):
    """other threads run here"""
    s.havoc_shared(I.user_call)
    I.finish_call(s, None)


@model('vf_text')
def _vf_text(I, s, c):
    """strftime() writes three characters, any of them"""
    s.ghost['text'] = 1
    I.finish_call(s, None)


@model('vf_plain')
def _vf_plain(I, s, c):
    """fixed times and thread numbers, so that texts that contain them are known"""
    s.ghost['plain'] = 1
    I.finish_call(s, None)
