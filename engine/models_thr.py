"""Threads as coroutines, descriptor readiness, and scripted outcomes.

In the default mode the transformers of models.py give every outcome of every call to one thread.  A driver that
calls vf_kernel() gets in addition a state machine of the kernel objects the library talks to: open descriptors are
distinct, pollers know which descriptors are registered for what, pipes know what was written, and threads the
program starts can be run by the driver (vf_run) until they block; a blocked thread keeps its stack and goes on where
it stopped the next time it is run."""
from dom import Lin, L, ZERO, ONE, atom, fresh, Contradiction, root_of, _atoms
import interp as IN
from interp import Cond, TRUE, FALSE, Agg, UNDEF, Event, Frame, intern_uid
import models
from models import M, model, newval, event, finish, Sys, set_errno

EEXIST, ENOENT, EAGAIN, EPIPE = 17, 2, 11, 32
IN_, OUT, HUP = 1, 4, 16


def kern(s):
    return 'kern' in s.ghost


@model('vf_kernel')
def _vf_kernel(I, s, c):
    s.ghost['kern'] = 1
    I.finish_call(s, None)


def const(I, s, v):
    v = s.norm(I.tolin(v))
    return v.c if v.isconst() else None


def nevents(s):
    n, t = 0, s.trace
    while t is not None:
        n += 1
        t = t[1]
    return n


# ---------------------------------------------------------------- scripts
@model('vf_script')
def _vf_script(I, s, c):
    """the next outcomes of a call, e.g. "data,fail:11"; further ones unconstrained, unless the script ends in '.'"""
    n, w = models.cname(I, s, c.args[0]), models.cname(I, s, c.args[1])
    s.ghost[('script', n)] = tuple(x for x in w.split(',') if x)
    I.finish_call(s, None)


# ---------------------------------------------------------------- descriptors
def opened(I, s, fd):
    """a new descriptor differs from every open one"""
    if not kern(s):
        return
    o = s.ghost.get('open', ())
    for x in o:
        s.facts.add_ne(s.norm(fd) - s.norm(x))
    s.ghost['open'] = o + (fd,)


@model('vf_opened')
def _vf_opened(I, s, c):
    fd = s.norm(I.tolin(c.args[0]))
    try:
        opened(I, s, fd)
    except Contradiction:
        return []
    I.finish_call(s, None)


def isopen(s, fd):
    return any(s.facts.entails_eq(s.norm(x) - fd) for x in s.ghost.get('open', ()))


def closed(I, s, fd):
    if not kern(s):
        return
    s.ghost['open'] = tuple(x for x in s.ghost.get('open', ()) if not s.facts.entails_eq(s.norm(x) - fd))
    for k in list(s.ghost):
        if isinstance(k, tuple) and k[0] == 'ep':
            s.ghost[k] = tuple(e for e in s.ghost[k] if not s.facts.entails_eq(s.norm(e[0]) - fd))
        elif isinstance(k, tuple) and k[0] == 'ready' and s.facts.entails_eq(s.norm(k[1]) - fd):
            del s.ghost[k]
    s.ghost[('closedfd', fd)] = 1


def pipe_of(s, fd):
    """(read end, write end) of the pipe fd is the read end of"""
    for k, w in s.ghost.items():
        if isinstance(k, tuple) and k[0] == 'pipe' and s.facts.entails_eq(s.norm(k[1]) - fd):
            return k[1], w
    return None


def is_closed(s, fd):
    return any(isinstance(k, tuple) and k[0] == 'closedfd' and s.facts.entails_eq(s.norm(k[1]) - s.norm(fd)) for k in s.ghost)


def pipe_level(s, r, w):
    """bytes waiting, None if unknown"""
    n = 0
    for k, v in s.ghost.items():
        if isinstance(k, tuple) and k[0] == 'wrote' and s.facts.entails_eq(s.norm(k[1]) - s.norm(w)):
            if v is None:
                return None
            n += len(v)
    for k, v in s.ghost.items():
        if isinstance(k, tuple) and k[0] == 'rpos' and s.facts.entails_eq(s.norm(k[1]) - s.norm(r)):
            n -= v
    return n


_okfd = models.okfd


def okfd(I, z, a):
    r = _okfd(I, z, a)
    opened(I, z, r[0])
    return r


for _n in ('socket', 'accept', 'accept4', 'open', 'shm_open', 'epoll_create', 'epoll_create1', 'dup', 'eventfd'):
    M[_n].outcomes = (M[_n].outcomes[0], ('ok', okfd))


def _close(I, z, a):
    closed(I, z, a[0])
    return (ZERO, {})


def _close_intr(I, z, a):
    """interrupted, but the descriptor is gone: only for drivers that ask for it"""
    if not z.ghost.get(('only', 'close')):
        return None
    r = _close(I, z, a)
    models.set_errno(z, Lin(4))
    return (Lin(-1), r[1])


M['close'].outcomes = (('ok', _close), ('intr', _close_intr))
_pipe0 = models._pipe


def _pipe(I, z, a):
    r = _pipe0(I, z, a)
    if kern(z):
        opened(I, z, r[1]['r'])
        opened(I, z, r[1]['w'])
        z.ghost[('pipe', r[1]['r'])] = r[1]['w']
    return r


for _n in ('pipe', 'pipe2'):
    M[_n].outcomes = (M[_n].outcomes[0], ('ok', _pipe))

_read = M['read']


def read(I, s, c):
    if kern(s) and c.args[0] is not UNDEF:
        fd = s.norm(I.tolin(c.args[0]))
        p = pipe_of(s, fd)
        n = s.norm(I.tolin(c.args[2]))
        if p is not None and n.isconst():
            lv = pipe_level(s, *p)
            a = [fd, s.norm(I.tolin(c.args[1])), n]
            if lv == 0:
                if is_closed(s, p[1]):
                    return finish(I, s, Event('read', a, ZERO, I.where(s), {'outcome': 'eof'}), ZERO)
                e = set_errno(s, Lin(EAGAIN))
                return finish(I, s, Event('read', a, Lin(-1), I.where(s), {'outcome': 'fail', 'errno': e}), Lin(-1))
            if lv is not None:
                k = min(lv, n.c)
                g = ('rpos', p[0])
                s.ghost[g] = s.ghost.get(g, 0) + k
                s.fill(a[1], Lin(k), None)
                return finish(I, s, Event('read', a, Lin(k), I.where(s), {'outcome': 'data'}), Lin(k))
    return _read(I, s, c)


M['read'] = read

# ---------------------------------------------------------------- pollers
_ctl = M['epoll_ctl']


def split_eq(I, s, x, y):
    """[(state, equal?)]"""
    t, f = I.fork(s, Cond('eq', s.norm(x) - s.norm(y)) if (s.norm(x) - s.norm(y)).t else (TRUE if s.norm(x) == s.norm(y) else FALSE))
    return [(q, True) for q in t] + [(q, False) for q in f]


def epoll_ctl(I, s, c):
    if not kern(s):
        return _ctl(I, s, c)
    a = [s.norm(I.tolin(x)) if x is not UNDEF else fresh('undef') for x in c.args]
    ep, op, fd, evp = a
    out = []
    key = ('ep', ep)
    ents = s.ghost.get(key, ())
    cur = [(s, None)]
    for i, e in enumerate(ents):
        nxt = []
        for z, hit in cur:
            if hit is not None:
                nxt.append((z, hit))
                continue
            nxt += [(q, i if eq else None) for q, eq in split_eq(I, z, e[0], fd)]
        cur = nxt
    for z, hit in cur:
        ents = z.ghost.get(key, ())
        info = {}
        if evp.t:
            info['val'] = [z.load(evp, 4), z.load(evp + 4, 4)]

        def failed(z, e):
            v = set_errno(z, e)
            z.rekey()
            return finish(I, z, Event('epoll_ctl', a, Lin(-1), I.where(z), dict(info, outcome='fail', errno=v)), Lin(-1))
        if op.isconst() and op.c == 1 and hit is not None:
            out += failed(z, Lin(EEXIST))
            continue
        if op.isconst() and op.c in (2, 3) and hit is None:
            out += failed(z, Lin(ENOENT))
            continue
        skip = z.ghost.get('ok', ())
        if not ('epoll_ctl' in skip or '*' in skip):
            out += failed(z.copy(), None)
        if op.isconst() and op.c == 2:
            z.ghost[key] = ents[:hit] + ents[hit + 1:]
        else:
            m = info['val'][0] if evp.t else None
            d = info['val'][1] if evp.t else None
            new = (fd, z.norm(m) if isinstance(m, Lin) else None, z.norm(d) if isinstance(d, Lin) else fd)
            if hit is None:
                z.ghost[key] = ents + (new,)
            else:
                z.ghost[key] = ents[:hit] + (new,) + ents[hit + 1:]
        out += finish(I, z, Event('epoll_ctl', a, ZERO, I.where(z), dict(info, outcome='ok')), ZERO)
    return out


M['epoll_ctl'] = epoll_ctl


@model('vf_armed')
def _vf_armed(I, s, c):
    """events the descriptor is registered for, over all pollers (0: none)"""
    fd = s.norm(I.tolin(c.args[0]))
    m = 0
    for k, v in s.ghost.items():
        if isinstance(k, tuple) and k[0] == 'ep':
            for e in v:
                if s.facts.entails_eq(s.norm(e[0]) - fd):
                    if e[1] is None or not e[1].isconst():
                        s.unknown = s.unknown | {'symbolic event mask'}
                    else:
                        m |= e[1].c
    I.finish_call(s, Lin(m))


@model('vf_pollers')
def _vf_pollers(I, s, c):
    """number of pollers the descriptor is registered with"""
    fd = s.norm(I.tolin(c.args[0]))
    n = sum(1 for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'ep' for e in v if s.facts.entails_eq(s.norm(e[0]) - fd))
    I.finish_call(s, Lin(n))


@model('vf_ready')
def _vf_ready(I, s, c):
    """the descriptor has something to report once: delivered when a poller is armed for it"""
    fd = s.norm(I.tolin(c.args[0]))
    m = s.norm(I.tolin(c.args[1])).c
    for k in list(s.ghost):
        if isinstance(k, tuple) and k[0] == 'ready' and s.facts.entails_eq(s.norm(k[1]) - fd):
            m |= s.ghost.pop(k)
    s.ghost[('ready', fd)] = m
    I.finish_call(s, None)


_wait = M['epoll_wait']


IDLE = {'epoll_wait', 'memcpy', 'memset', 'map.equal_range', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'assert'}


def spins(s, ep):
    """this poller was told the same over and over and nobody did anything about it: its thread waits for the others"""
    n, t = 0, s.trace
    while t is not None:
        e = t[0]
        if e[0] not in IDLE:
            return False
        if e[0] == 'epoll_wait' and e[1][0] == ep:
            n += 1
            if n == 4:
                return True
        t = t[1]
    return False


def epoll_wait(I, s, c):
    if not kern(s) or 'events' in s.ghost:
        return _wait(I, s, c)
    a = [s.norm(I.tolin(x)) if x is not UNDEF else fresh('undef') for x in c.args]
    cands = []
    for e in s.ghost.get(('ep', a[0]), ()):
        fd, m, d = e
        if m is None or not m.isconst():
            s.unknown = s.unknown | {'symbolic event mask'}
            continue
        p = pipe_of(s, s.norm(fd))
        if p is not None:
            lv = pipe_level(s, *p)
            r = (m.c & IN_ if lv is None or lv > 0 else 0) | (HUP if is_closed(s, p[1]) else 0)
            if r:
                cands.append((e, r, None))
            continue
        for k, v in s.ghost.items():
            if isinstance(k, tuple) and k[0] == 'ready' and v & (m.c | HUP | 8) and s.facts.entails_eq(s.norm(k[1]) - s.norm(fd)):
                cands.append((e, v & (m.c | HUP | 8), k))
    if not cands or all(k is None for _, _, k in cands) and spins(s, a[0]):
        return block(I, s)
    sets = [[x] for x in cands]
    if len(cands) > 1:
        sets.append(cands)
        if len(cands) == 2:
            sets.append(cands[::-1])
    out = []
    for st in sets:
        z = s.copy()
        try:
            z.facts.add_ge(a[2] - len(st))
        except Contradiction:
            continue
        if I.bounds:
            I.check_access(z, a[1], a[2] * 12, 'write', 'epoll_wait()')
        for i, (e, r, k) in enumerate(st):
            z.store(a[1] + 12 * i, 4, Lin(r))
            z.store(a[1] + 12 * i + 4, 4, z.norm(e[2]))
            if k is not None:
                v = z.ghost.get(k, 0) & ~r
                if v:
                    z.ghost[k] = v
                else:
                    z.ghost.pop(k, None)
        z.rekey()
        out += finish(I, z, Event('epoll_wait', a, Lin(len(st)), I.where(s), {'outcome': 'ok'}), Lin(len(st)))
    return out


M['epoll_wait'] = epoll_wait
M['epoll_pwait'] = epoll_wait


# ---------------------------------------------------------------- threads
def threads(s):
    return s.ghost.get('threads', ())


def set_thread(s, i, st):
    t = threads(s)
    s.ghost['threads'] = t[:i - 1] + (st,) + t[i:]


def add_thread(s, fn, args, handle):
    """register a started thread; its number"""
    s.ghost['threads'] = threads(s) + (('new', fn, tuple(args), handle),)
    n = len(threads(s))
    if s.ghost.get('hb'):       # what the creator did is before what the thread does
        models.hb_release(s, ('thread', n))
        s.ghost[('vc', n)] = models.vc_join(s.ghost.get(('vc', n), ()), s.ghost[('rel', ('thread', n))])
    return n


def hb_join(s, i):
    """what thread i did is before what the joining thread does from here on"""
    if s.ghost.get('hb'):
        me = ('vc', s.ghost.get('tid', 0))
        v = models.vc_join(s.ghost.get(('vc', i), ()), ((i, 1),))
        s.ghost[me] = models.vc_join(s.ghost.get(me, ()), v)


def thread_of(s, handle):
    for i, t in enumerate(threads(s)):
        h = t[-1]
        if isinstance(h, Lin) and isinstance(handle, Lin) and s.facts.entails_eq(s.norm(h) - s.norm(handle)):
            return i + 1
    return None


_create_ok = dict(M['pthread_create'].outcomes)['ok']


def new_handle(z):
    """the handles of threads are unknown values that differ from each other"""
    b = z.ghost.get('thread_base')
    if b is None:
        b = z.ghost['thread_base'] = newval(z, 'thread', lo=1)
    return z.norm(b) + 4096 * len(threads(z))


def pthread_create(I, z, a):
    t = new_handle(z)
    z.store(a[0], 8, t)
    n = add_thread(z, a[2], [a[3]], t)
    return (ZERO, {'thread': t, 'tid': n})


M['pthread_create'].outcomes = (M['pthread_create'].outcomes[0], ('ok', pthread_create))


@model('std::thread::_M_start_thread')
def _thr_start(I, s, c):
    this = s.norm(c.args[0])
    st = s.load(s.norm(c.args[1]), 8, ptr=True) if c.args[1] is not UNDEF else None
    t = new_handle(s)
    s.store(this, 8, t)
    s.ghost['thread_state'] = st
    # the state object now belongs to the thread
    s.store(s.norm(c.args[1]), 8, ZERO)
    vt = s.load(st, 8, ptr=True) if isinstance(st, Lin) else None
    f = I.do_load(s, s.norm(vt) + 16, ('ptr',), c.ins) if isinstance(vt, Lin) else None
    n = add_thread(s, f, [st], t)
    return event(I, s, 'thread_start', [this], None, {'state': st, 'thread': t, 'tid': n})


def fn_name(I, s, f):
    f = s.norm(f) if isinstance(f, Lin) else f
    at = f.single() if isinstance(f, Lin) else None
    if at is not None and isinstance(at.key, tuple) and at.key[0] == 'fn':
        return I.mod.aliases.get(at.key[1], at.key[1])
    return None


def run_thread(I, s, i, then):
    """run thread i until it ends or blocks, then then(I, s, ended?)"""
    t = threads(s)[i - 1]
    me = s.ghost.get('tid', 0)

    def back(I, s, ended):
        s.ghost['tid'] = me
        then(I, s, ended)

    def ended(I, s):
        set_thread(s, i, ('done', t[-1]))
        if any(isinstance(k, tuple) and k[0] == 'held' and k[2] == i for k in s.ghost):
            s.violate('a thread ends holding a lock')
        back(I, s, True)

    s.ghost['tid'] = i
    if t[0] == 'new':
        n = fn_name(I, s, t[1])
        if n is None or n not in I.mod.funcs:
            s.unknown = s.unknown | {'thread body'}
            return ended(I, s)
        fn = I.mod.funcs[n].parse()
        f = Frame(fn, intern_uid(('thread', i, n)), len(s.frames))
        for p, v in zip(fn.params, t[2]):
            f.env[p] = v
        I.stats['functions'].add(n)
        fs = [f]
    else:
        fs = [x.copy() for x in t[1]]
    fs[0].intr = ended
    fs[0].quiet = 'thread'
    fs[0].depth = (i, back)
    set_thread(s, i, ('running', t[-1]))
    s.frames.extend(fs)


def runner(s):
    """index of the bottom frame of the running thread, None for the driver itself"""
    me = s.ghost.get('tid', 0)
    for j in range(len(s.frames) - 1, -1, -1):
        d = s.frames[j].depth
        if isinstance(d, tuple) and d[0] == me:
            return j
    return None


def block(I, s, retry=None):
    """the call at the top frame's pc cannot go on now: [states]"""
    if any(getattr(f, 'intr', None) and not getattr(f, 'quiet', None) for f in s.frames):
        return []           # the other thread cannot get past this point here: it runs at another one
    j = runner(s)
    if j is not None:
        me = s.ghost['tid']
        saved = s.frames[j:]
        back = saved[0].depth[1]
        s.frames = s.frames[:j]
        set_thread(s, me, ('parked', tuple(saved), threads(s)[me - 1][-1]))
        s.ghost['parked'] = nevents(s)
        back(I, s, False)
        return [s]
    # the driver itself: others have to go on first
    n = nevents(s)
    key = ('tried', s.frames[-1].uid, s.frames[-1].block, s.frames[-1].idx)
    at, tried = s.ghost.get(key, (None, ()))
    if at != n:
        tried = ()
    live = [i + 1 for i, t in enumerate(threads(s)) if t[0] in ('new', 'parked') and i + 1 not in tried]
    if not live:
        s.ghost.pop(key, None)
        if s.ghost.get('mustwake', 1):
            s.violate('blocks for ever at %s' % I.where(s))
        s.status = 'blocked'
        return [s]
    i = live[0]
    s.ghost[key] = (n, tried + (i,))

    def again(I, s, ended):
        if ended:
            s.log('thread ended', [], None, '')
    run_thread(I, s, i, again)
    return [s]


@model('vf_run')
def _vf_run(I, s, c):
    """run the i-th started thread until it ends (2) or blocks (1); 0: no such thread"""
    i = const(I, s, c.args[0])
    if i is None or i < 1 or i > len(threads(s)) or threads(s)[i - 1][0] in ('running', 'done'):
        done = i is not None and 1 <= i <= len(threads(s)) and threads(s)[i - 1][0] == 'done'
        I.finish_call(s, Lin(2 if done else 0))
        return None
    run_thread(I, s, i, lambda I, s, ended: I.finish_call(s, Lin(2 if ended else 1)))
    return [s]


@model('vf_nthreads')
def _vf_nthreads(I, s, c):
    I.finish_call(s, Lin(len(threads(s))))


@model('vf_ended')
def _vf_ended(I, s, c):
    i = const(I, s, c.args[0])
    I.finish_call(s, Lin(1 if 1 <= i <= len(threads(s)) and threads(s)[i - 1][0] in ('done', 'joined') else 0))


# joining
_join = M['pthread_join']


def pthread_join(I, s, c):
    if kern(s):
        i = thread_of(s, s.norm(I.tolin(c.args[0])))
        if i is None:
            s.violate('joins a thread that was not started at %s' % I.where(s))
        else:
            st = threads(s)[i - 1][0]
            if st == 'joined':
                s.violate('joins a thread twice at %s' % I.where(s))
            elif st != 'done':
                return block(I, s)
            else:
                set_thread(s, i, ('joined', threads(s)[i - 1][-1]))
                hb_join(s, i)
    return _join(I, s, c)


M['pthread_join'] = pthread_join


@model('std::thread::join', 'std::thread::detach')
def _thr_join(I, s, c):
    this = s.norm(c.args[0])
    t = s.load(this, 8)
    if kern(s) and c.sn.endswith('join'):
        i = thread_of(s, t)
        if i is not None and threads(s)[i - 1][0] not in ('done', 'joined'):
            return block(I, s)
        if i is not None:
            hb_join(s, i)
    s.store(this, 8, ZERO)
    return event(I, s, c.sn, [this, t if isinstance(t, Lin) else fresh('thr')], None)


# locks
def contended(s, m, mode):
    me = s.ghost.get('tid', 0)
    return any(isinstance(k, tuple) and k[0] == 'held' and k[1] == m and k[2] != me and v and not (v == 'r' and mode == 'r')
               for k, v in s.ghost.items())


def _lock(n):
    base = M[n]
    mode = models.LOCKS[n]

    def h(I, s, c):
        if kern(s) and c.args[0] is not UNDEF:
            m = s.norm(I.tolin(c.args[0]))
            if contended(s, m, mode):
                if 'try' in n:
                    v = Lin(16)
                    return event(I, s, n, [m], v, {'outcome': 'fail', 'err': v})
                return block(I, s)
        return base(I, s, c)
    M[n] = h


for _n in models.LOCKS:
    _lock(_n)


# condition variables
def notify(I, s, cv, all_):
    """[states]: who is woken"""
    ws = [k[1] for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'cvwait' and v[0] == cv and not v[1]]
    ws.sort()
    if not ws:
        return [s]
    if all_:
        for w in ws:
            s.ghost[('cvwait', w)] = (cv, True)
        return [s]
    out = []
    for w in ws:
        z = s.copy() if w != ws[-1] else s
        z.ghost[('cvwait', w)] = (cv, True)
        out.append(z)
    return out


def kernel_wait(I, s, name, cv, m, timed, done):
    me = s.ghost.get('tid', 0)
    k = ('cvwait', me)
    hk = ('held', m, me)
    if k not in s.ghost:
        s.log(name, [cv, m], None, I.where(s), {'held': ()})
        if not s.ghost.get(hk):
            s.violate('waits on a condition variable without holding its lock at %s' % I.where(s))
        if s.ghost.get(('rdepth', m, me), 1) > 1:
            s.violate('waits on a condition variable while still holding its lock at %s' % I.where(s))
        s.ghost[('depthof', m, me)] = s.ghost.pop(hk, 'x')
        models.hb_release(s, m)
        s.ghost[k] = (cv, False)
        out = []
        n = s.ghost.get('spurious', 0)
        if n:
            z = s.copy()
            z.ghost['spurious'] = n - 1
            z.ghost.pop(k)
            z.ghost[hk] = z.ghost.pop(('depthof', m, me), 'x')
            models.hb_acquire(z, m)
            z.log('woken: spurious', [], None, '')
            done(I, z, ZERO)
            out.append(z)
        return out + block_wait(I, s)
    cvv, woken = s.ghost[k]
    out = []
    free = not contended(s, m, 'x')

    def go(z, why, v):
        z.ghost.pop(k)
        z.ghost[hk] = z.ghost.pop(('depthof', m, me), 'x')
        models.hb_acquire(z, m)
        z.log('woken: ' + why, [], None, '')
        done(I, z, v)
        out.append(z)
    if not free:
        return block(I, s)
    if woken:
        go(s, 'notified', ZERO)
        return out
    n = s.ghost.get('spurious', 0)
    if n:
        z = s.copy()
        z.ghost['spurious'] = n - 1
        go(z, 'spurious', ZERO)
    if timed:
        z = s.copy()
        go(z, 'timeout', ONE)
        if s.ghost.get('timeouts') == 'sure':
            return out
    return out + block(I, s)


def block_wait(I, s):
    """the lock was just released: a thread parks; the driver lets others run"""
    return block(I, s)


import models_std
_cw = models_std.cond_wait


def cond_wait(I, s, name, cv, m, timed, done):
    if kern(s):
        return kernel_wait(I, s, name, cv, m, timed, done)
    return _cw(I, s, name, cv, m, timed, done)


models_std.cond_wait = cond_wait
_notify = M['std::condition_variable::notify_one']


def cv_notify(I, s, c):
    if not kern(s):
        return _notify(I, s, c)
    cv = s.norm(c.args[0])
    name = 'cv.' + models_std.cv_kind(c.sn)
    out = []
    for z in notify(I, s, cv, c.sn.endswith('all')):
        out += event(I, z, name, [cv], None, {'held': models_std.held(z)})
    return out


for _n in ('std::condition_variable::notify_one', 'std::condition_variable::notify_all',
           'std::_V2::condition_variable_any::notify_one', 'std::_V2::condition_variable_any::notify_all'):
    M[_n] = cv_notify


def _pc(n, all_):
    base = M[n]

    def h(I, s, c):
        if not kern(s):
            return base(I, s, c)
        cv = s.norm(I.tolin(c.args[0]))
        out = []
        for z in notify(I, s, cv, all_):
            out += event(I, z, n, [cv], ZERO, {'outcome': 'ok', 'held': models_std.held(z)})
        return out
    M[n] = h


_pc('pthread_cond_signal', False)
_pc('pthread_cond_broadcast', True)


def _pw(n, timed):
    base = M[n]

    def h(I, s, c):
        if not kern(s) and 'wait' not in s.ghost:
            return base(I, s, c)
        cv, m = s.norm(I.tolin(c.args[0])), s.norm(I.tolin(c.args[1]))
        out = []
        skip = s.ghost.get('ok', ())
        if ('cvwait', s.ghost.get('tid', 0)) not in s.ghost and not (n in skip or '*' in skip):
            z = s.copy()
            e = newval(z, 'err', lo=1, hi=133)
            out += event(I, z, n, [cv, m], e, {'outcome': 'fail', 'err': e})

        def done(I, q, val=None):
            v = ZERO if val is None or (isinstance(val, Lin) and val == ZERO) else Lin(110)
            q.log(n, [cv, m], v, I.where(q), {'outcome': 'ok'})
            I.finish_call(q, v)
        return out + cond_wait(I, s, n + ' starts', cv, m, timed, done)
    M[n] = h


_pw('pthread_cond_wait', False)
_pw('pthread_cond_timedwait', True)

# semaphores
_semwait = M['sem_wait']


def sem_wait(I, s, c):
    a = s.norm(I.tolin(c.args[0])) if c.args[0] is not UNDEF else None
    g = ('semval', a)
    if kern(s) and a is not None and g in s.ghost:
        if s.ghost[g] == 0:
            return block(I, s)
        if not s.ghost.get('semintr'):
            s.ghost[g] -= 1
            return event(I, s, 'sem_wait', [a], ZERO, {'outcome': 'ok'})
    return _semwait(I, s, c)


M['sem_wait'] = sem_wait
_sempost = M['sem_post']


def sem_post(I, s, c):
    a = s.norm(I.tolin(c.args[0])) if c.args[0] is not UNDEF else None
    g = ('semval', a)
    if kern(s) and a is not None and g in s.ghost:
        s.ghost[g] += 1
        return event(I, s, 'sem_post', [a], ZERO, {'outcome': 'ok'})
    return _sempost(I, s, c)


M['sem_post'] = sem_post
_seminit = M['sem_init']


def sem_init(I, s, c):
    out = _seminit(I, s, c)
    if kern(s) and c.args[0] is not UNDEF:
        a, n = s.norm(I.tolin(c.args[0])), const(I, s, c.args[2])
        for z in [s] if out is None else out:
            if n is not None:
                z.ghost[('semval', a)] = n
    return out


M['sem_init'] = sem_init


@model('vf_sched')
def _vf_sched(I, s, c):
    """another thread may run here, or not: at most one"""
    out = [s.copy()]
    I.finish_call(out[0], None)
    for i, t in enumerate(threads(s)):
        if t[0] in ('new', 'parked'):
            z = s.copy()
            run_thread(I, z, i + 1, lambda I, q, e: I.finish_call(q, None))
            out.append(z)
    return out


@model('vf_quietlog')
def _vf_quietlog(I, s, c):
    """what is logged does not matter here (the logger has its own checks)"""
    s.ghost['quietlog'] = 1
    I.finish_call(s, None)


@model('cppev::async_logger::operator<<')
def _log_op(I, s, c):
    if 'quietlog' not in s.ghost:
        return NotImplemented
    I.finish_call(s, c.args[0])


@model('vf_tid')
def _vf_tid(I, s, c):
    I.finish_call(s, Lin(s.ghost.get('tid', 0)))


# ---------------------------------------------------------------- preemption
@model('vf_preempt')
def _vf_preempt(I, s, c):
    """from here on up to n times a thread is interrupted before a synchronisation call and others go on first"""
    s.ghost['preempt'] = const(I, s, c.args[0])
    I.finish_call(s, None)


def interrupted(I, s, k, at):
    """states in which somebody else goes on first"""
    b = s.ghost['preempt']
    me = s.ghost.get('tid', 0)
    out = []
    j = runner(s)
    if j is not None:
        z = s.copy()
        z.ghost['preempt'] = b - 1
        z.ghost[k] = at
        z.log('preempted', [], None, I.where(z))
        saved = z.frames[j:]
        back = saved[0].depth[1]
        z.frames = z.frames[:j]
        z.ghost['parked'] = nevents(z)
        set_thread(z, me, ('parked', tuple(saved), threads(z)[me - 1][-1]))
        back(I, z, False)
        out.append(z)
    else:
        for i, t in enumerate(threads(s)):
            if t[0] in ('new', 'parked'):
                z = s.copy()
                z.ghost['preempt'] = b - 1
                z.ghost[k] = at
                z.log('preempted', [], None, I.where(z))
                run_thread(I, z, i + 1, lambda I, q, e: None)
                out.append(z)
    return out


def preempt_atomic(I, s):
    """before an atomic access to shared memory"""
    me = s.ghost.get('tid', 0)
    k = ('preskip', me)
    at = (s.frames[-1].uid, s.frames[-1].block, s.frames[-1].idx)
    if s.ghost.get(k) is not None:
        if s.ghost[k] == at:
            s.ghost.pop(k)
            return []
        s.ghost.pop(k)
    if not s.ghost.get('preempt') or not kern(s) or ('cvwait', me) in s.ghost:
        return []
    return interrupted(I, s, k, at)


IN.PREEMPT = preempt_atomic


def _preemptible(n):
    base = M[n]

    def h(I, s, c):
        if '::wait' in n and len(c.args) > 2:
            return base(I, s, c)        # with a predicate: the plain wait inside
        b = s.ghost.get('preempt', 0)
        me = s.ghost.get('tid', 0)
        k = ('preskip', me)
        at = (s.frames[-1].uid, s.frames[-1].block, s.frames[-1].idx)
        if s.ghost.get(k) is not None:
            # resumed at the same call, or blocked in it meanwhile
            if s.ghost[k] == at:
                r = base(I, s, c)
                for z in (r if isinstance(r, list) else [s]):
                    if z.ghost.get(k) == at and not parked_at(z, me, at):
                        z.ghost.pop(k)
                return r
            s.ghost.pop(k)
        if not b or not kern(s) or ('cvwait', me) in s.ghost:
            return base(I, s, c)
        out = interrupted(I, s, k, at)
        r = base(I, s, c)
        return out + (r if isinstance(r, list) else [s])
    M[n] = h


def parked_at(s, me, at):
    t = threads(s)
    if not me or me > len(t) or t[me - 1][0] != 'parked':
        return False
    f = t[me - 1][1][-1]
    return (f.uid, f.block, f.idx) == at


for _n in list(models.LOCKS) + ['pthread_mutex_unlock', 'std::condition_variable::notify_one', 'std::condition_variable::notify_all',
                                'std::_V2::condition_variable_any::notify_one', 'std::_V2::condition_variable_any::notify_all',
                                'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_rwlock_unlock', 'sem_post', 'sched_yield',
                                'pthread_cond_wait', 'pthread_cond_timedwait', 'std::condition_variable::wait',
                                'std::_V2::condition_variable_any::wait']:
    if _n in M:
        _preemptible(_n)


# ---------------------------------------------------------------- promises
def _pf(names, f):
    for n in names:
        if n in M:
            def h(I, s, c, base=M[n]):
                if kern(s):
                    r = f(I, s, c)
                    if r is not None:
                        return r
                return base(I, s, c)
            M[n] = h


def _get_future(I, s, c):
    s.ghost[('future', s.norm(c.args[0]))] = s.norm(c.args[1])


def _set_value(I, s, c):
    p = s.norm(c.args[0])
    if s.ghost.get(('pset', p)):
        s.violate('a promise is set twice at %s' % I.where(s))
    s.ghost[('pset', p)] = 1


def _wait_for(I, s, c):
    p = s.ghost.get(('future', s.norm(c.args[0])))
    if p is None:
        return None
    v = Lin(0 if s.ghost.get(('pset', p)) else 1)
    return event(I, s, 'future.wait_for', [s.norm(c.args[0])], v)


_pf(['std::promise::get_future'], _get_future)
_pf(['std::promise::set_value'], _set_value)
_pf(['std::__basic_future::wait_for', 'std::__basic_future::wait_until'], _wait_for)
