"""Processes: descriptor tables, fork/exec, system calls the driver itself answers.

With vf_fdtab() descriptors are numbers, allocated lowest first, and refer to objects that survive dup2, fork and
exec.  With vf_fork() both sides of a fork are followed on one path: the child up to exec or exit, where the driver
looks at what it became (vfd_exec, vfd_exit), then the parent from the fork on.  With vf_hook() the driver's own
functions vfd_<call> answer system calls, so that a driver can describe the environment as a program."""
from dom import Lin, L, ZERO, ONE
import interp as IN
from interp import UNDEF, Event, Frame, intern_uid
import models
from models import M, model, finish, newval, set_errno

EBADF, EMFILE = 9, 24


def tab(s):
    return s.ghost.get('fdtab')


def lowest(t, frm=0):
    used = {f for f, _ in t}
    n = frm
    while n in used:
        n += 1
    return n


def put(s, fd, obj):
    t = [x for x in tab(s) if x[0] != fd]
    s.ghost['fdtab'] = tuple(sorted(t + [(fd, obj)]))


def obj_of(s, fd):
    fd = s.norm(fd)
    if fd.isconst():
        for f, o in tab(s):
            if f == fd.c:
                return o
    return None


def newobj(s):
    n = s.ghost.get('nobj', 10)
    s.ghost['nobj'] = n + 2
    return n


def over(name, f):
    """answer for successful outcomes while descriptors are numbers"""
    sy = M[name]
    outs = []
    for label, g in sy.outcomes:
        if label in ('fail', 'intr'):
            outs.append((label, g))
            continue

        def h(I, z, a, g=g):
            if tab(z) is not None:
                return f(I, z, a)
            return g(I, z, a)
        outs.append((label, h))
    sy.outcomes = tuple(outs)


def _pipe(I, z, a):
    o = newobj(z)
    r = lowest(tab(z))
    put(z, r, o)
    w = lowest(tab(z))
    put(z, w, o + 1)
    z.store(a[0], 4, Lin(r))
    z.store(a[0] + 4, 4, Lin(w))
    if len(a) > 1 and a[1].isconst() and a[1].c & 0o4000:
        z.ghost[('nonblock', o)] = z.ghost[('nonblock', o + 1)] = 1
    if len(a) > 1 and a[1].isconst() and a[1].c & 0o2000000:
        z.ghost[('cloexec', r)] = z.ghost[('cloexec', w)] = 1
    return (ZERO, {'r': Lin(r), 'w': Lin(w)})


def _dup2(I, z, a):
    o = obj_of(z, a[0])
    n = z.norm(a[1])
    if o is None or not n.isconst():
        set_errno(z, Lin(EBADF))
        return (Lin(-1), {'outcome': 'fail'})
    if z.norm(a[0]) != n:
        put(z, n.c, o)
        z.ghost.pop(('cloexec', n.c), None)
        if len(a) > 2 and a[2].isconst() and a[2].c & 0o2000000:
            z.ghost[('cloexec', n.c)] = 1
    return (n, {})


def _dup(I, z, a):
    o = obj_of(z, a[0])
    if o is None:
        set_errno(z, Lin(EBADF))
        return (Lin(-1), {})
    n = lowest(tab(z))
    put(z, n, o)
    return (Lin(n), {})


def _close(I, z, a):
    fd = z.norm(a[0])
    if obj_of(z, fd) is None:
        z.violate('a descriptor that is not open is closed at %s' % I.where(z))
        return (ZERO, {})
    z.ghost['fdtab'] = tuple(x for x in tab(z) if x[0] != fd.c)
    z.ghost.pop(('cloexec', fd.c), None)
    return (ZERO, {})


def _fcntl(I, z, a):
    o = obj_of(z, a[0])
    cmd = a[1].c if a[1].isconst() else None
    if o is None:
        set_errno(z, Lin(EBADF))
        return (Lin(-1), {})
    if cmd == 3:
        return (Lin(2 | (0o4000 if z.ghost.get(('nonblock', o)) else 0)), {})
    if cmd == 4:
        fl = z.norm(a[2])
        if fl.isconst():
            z.ghost[('nonblock', o)] = 1 if fl.c & 0o4000 else 0
            return (ZERO, {})
        z.unknown = z.unknown | {'fcntl flags'}
        return (ZERO, {})
    if cmd in (0, 1030):
        m = z.norm(a[2])
        n = lowest(tab(z), m.c if m.isconst() else 0)
        put(z, n, o)
        if cmd == 1030:
            z.ghost[('cloexec', n)] = 1
        return (Lin(n), {})
    if cmd == 1:
        return (Lin(z.ghost.get(('cloexec', a[0].c), 0)), {})
    if cmd == 2:
        fl = z.norm(a[2])
        z.ghost[('cloexec', a[0].c)] = fl.c & 1 if fl.isconst() else 0
    return (ZERO, {})


over('pipe', _pipe)
over('pipe2', _pipe)
over('dup2', _dup2)
over('dup3', _dup2)
over('dup', _dup)
over('close', _close)
over('fcntl', _fcntl)
over('fcntl64', _fcntl)


def _newfd(I, z, a):
    o = newobj(z)
    n = lowest(tab(z))
    put(z, n, o)
    return (Lin(n), {})


for _n in ('open', 'socket', 'eventfd'):
    over(_n, _newfd)


# ---------------------------------------------------------------- fork, exec
class Forked:
    """the parent, waiting for the child of the same path to be followed"""

    def __init__(self, state, pid):
        self.state, self.pid = state, pid


_fork = models._fork


def fork(I, z, a):
    if not z.ghost.get('forks'):
        return _fork(I, z, a)
    if 'forked' in z.ghost:
        z.violate('a child process forks at %s' % I.where(z))
        return _fork(I, z, a)
    p = z.ghost.get('forkpid')
    if p is None:
        p = newval(z, 'pid', lo=2)
    par = z.copy()
    z.ghost['forked'] = Forked(par, p)
    return (ZERO, {'who': 'child'})


for _n in ('fork', 'vfork'):
    M[_n].outcomes = (M[_n].outcomes[0], ('ok', fork))


def back_to_parent(I, s):
    fk = s.ghost['forked']
    par = fk.state.copy()
    par.facts = s.facts.copy()
    for k, v in s.ghost.items():
        if isinstance(k, str) and k.startswith('c.'):
            par.ghost[k] = v
    viol, unk, wid, tr = s.viol, s.unknown, s.widened, s.trace
    for n in s.__slots__:
        if n not in ('conds', 'steps'):
            setattr(s, n, getattr(par, n))
    s.viol, s.unknown, s.widened = viol, unk, wid
    s.log('fork', [], fk.pid, I.where(s), {'who': 'parent', 'outcome': 'ok'})
    I.finish_call(s, fk.pid)


def look(I, s, name, args):
    """the driver looks at the child, then the parent goes on"""
    n = I.mod.funcs.get(name)
    if n is None:
        return back_to_parent(I, s)
    fn = n.parse()
    fr = s.frames[-1]
    f = Frame(fn, intern_uid((fr.uid, fr.block, fr.idx, 'child', name)), len(s.frames))
    for p, v in zip(fn.params, args):
        f.env[p] = v
    f.intr = back_to_parent
    f.quiet = 'thread'
    I.stats['functions'].add(name)
    s.frames.append(f)


def close_on_exec(s):
    if tab(s) is not None:
        s.ghost['fdtab'] = tuple(x for x in tab(s) if not s.ghost.get(('cloexec', x[0])))


def wrap_exec(name):
    base = M[name]

    def h(I, s, c):
        if 'forked' not in s.ghost or name not in ('execvp', 'execv', 'execve', 'execvpe'):
            return base(I, s, c)
        args = [s.norm(I.tolin(a)) for a in c.args]
        where = I.where(s)
        z = s.copy()
        z.log('exec', args, None, where)
        close_on_exec(z)
        env = args[2] if len(args) > 2 else z.load(I.gaddr('environ'), 8, ptr=True)
        look(I, z, 'vfd_exec', [args[0], args[1], env])
        if name in s.ghost.get('ok', ()):
            return [z]
        e = set_errno(s)
        ev = Event('exec_failed', args, Lin(-1), where, {'fn': name, 'errno': e, 'outcome': 'fail'})
        return [z] + finish(I, s, ev, Lin(-1))
    M[name] = h


for _n in ('execvp', 'execv', 'execve', 'execvpe'):
    wrap_exec(_n)


def wrap_exit(name):
    base = M[name]

    def h(I, s, c):
        if 'forked' not in s.ghost:
            return base(I, s, c)
        a = [s.norm(I.tolin(x)) for x in c.args]
        s.log(name, a, None, I.where(s))
        look(I, s, 'vfd_exit', [a[0] if a else Lin(134), Lin(1 if name in ('_exit', '_Exit') else 0)])
        return [s]
    M[name] = h


for _n in ('_exit', '_Exit', 'exit', 'quick_exit', 'abort', 'std::terminate', '__clang_call_terminate'):
    wrap_exit(_n)


# ---------------------------------------------------------------- calls the driver answers
def wrap_hook(name):
    base = M[name]

    def h(I, s, c):
        hk = s.ghost.get('hooks')
        if hk and name in hk:
            f = I.mod.funcs.get('vfd_' + name)
            if f is not None:
                return I.push(s, f, c.args, c.ins)
        return base(I, s, c)
    if hasattr(base, 'outcomes'):
        h.outcomes = base.outcomes
    M[name] = h




# ---------------------------------------------------------------- driver vocabulary
@model('vf_fdtab')
def _vf_fdtab(I, s, c):
    """descriptors are numbers from here on; those of the mask are open"""
    m = s.norm(I.tolin(c.args[0])).c
    s.ghost['fdtab'] = tuple((i, i) for i in range(3) if m >> i & 1)
    I.finish_call(s, None)


@model('vf_fork')
def _vf_fork(I, s, c):
    s.ghost['forks'] = 1
    I.finish_call(s, None)


@model('vf_hook')
def _vf_hook(I, s, c):
    n = models.cname(I, s, c.args[0])
    s.ghost['hooks'] = tuple(x for x in n.split(',') if x)
    I.finish_call(s, None)


@model('vf_fdobj')
def _vf_fdobj(I, s, c):
    o = obj_of(s, I.tolin(c.args[0]))
    I.finish_call(s, Lin(-1 if o is None else o))


@model('vf_fdcount')
def _vf_fdcount(I, s, c):
    I.finish_call(s, Lin(len(tab(s))))


@model('vf_nonblock')
def _vf_nonblock(I, s, c):
    """whether the object is used without blocking"""
    o = s.norm(I.tolin(c.args[0]))
    I.finish_call(s, Lin(1 if s.ghost.get(('nonblock', o.c)) else 0))


@model('vf_child')
def _vf_child(I, s, c):
    I.finish_call(s, Lin(1 if 'forked' in s.ghost else 0))


# ---------------------------------------------------------------- signal sets
def sigset(s, p):
    """contents of the set at p: (base, operations)"""
    st = s.ghost.get(('sigset', s.norm(p)), ('?', ()))
    if st[0] == '?':
        v = s.load(p, 8)
        if isinstance(v, Lin) and s.norm(v) == ZERO:
            st = ('empty', st[1])
    return st


def cap_set(i):
    def h(I, s, a):
        return [sigset(s, a[i])] if a[i].t else [None]
    return h


def cap_action(I, s, a):
    if not a[1].t:
        return [None]
    return [sigset(s, a[1] + 8), s.load(a[1], 8), s.load(a[1] + 136, 4)]


models.CAPTURE.update({'pthread_sigmask': cap_set(1), 'sigwait': cap_set(0), 'sigsuspend': cap_set(0), 'sigaction': cap_action,
                       'sigprocmask': cap_set(1)})
_cpy = M['memcpy']


def _copyset(I, s, c):
    if c.args[0] is not UNDEF and c.args[1] is not UNDEF:
        d, f = s.norm(I.tolin(c.args[0])), s.norm(I.tolin(c.args[1]))
        k = ('sigset', f)
        if k in s.ghost:
            s.ghost[('sigset', d)] = s.ghost[k]
    return _cpy(I, s, c)


M['memcpy'] = M['memmove'] = _copyset


@model('vf_sigset')
def _vf_sigset(I, s, c):
    """whether the set given at a call has the signal: 1, 0; -1 no set, -2 unknown"""
    _, e = models.lastev(s, models.cname(I, s, c.args[0]), I.tolin(c.args[1]).c)
    v = ((e[4] or {}).get('val') or [None])[0] if e and len(e) > 4 else None
    sig = s.norm(I.tolin(c.args[2]))
    if v is None:
        return I.finish_call(s, Lin(-1))
    r = {'empty': 0, 'full': 1}.get(v[0], -2)
    for op, x in v[1]:
        if s.facts.entails_eq(s.norm(x) - sig):
            r = 1 if op == 'add' else 0
        elif not s.facts.entails_ne(s.norm(x) - sig):
            r = -2
    I.finish_call(s, Lin(r))


@model('vf_member')
def _vf_member(I, s, c):
    """the k-th query of a set: 1 of the thread's mask, 2 of the pending signals, 0 of anything else"""
    _, e = models.lastev(s, 'sigismember', I.tolin(c.args[0]).c)
    b, ops = (e[4] or {}).get('set', ('?', ())) if e else ('?', ())
    I.finish_call(s, Lin(0 if ops else {'mask': 1, 'pending': 2}.get(b, 0)))


@model('vf_deep')
def _vf_deep(I, s, c):
    I.finish_call(s, Lin(1 if getattr(I, 'deep', False) else 0))


# ---------------------------------------------------------------- dynamic loading
def _dl(name, okf):
    models.Sys(name, models.fail(0), ('ok', okf))


_dl('dlopen', lambda I, z, a: (newval(z, 'handle', ptr=True, nonnull=True, region='dl'), {}))
_dl('dlsym', lambda I, z, a: (newval(z, 'symbol', ptr=True, nonnull=True, region='dl'), {}))
models.Sys('dlclose', ('fail', lambda I, z, a: (Lin(-1), {})), ('ok', lambda I, z, a: (ZERO, {})))


for _n in ('read', 'write', 'waitpid', 'kill'):
    wrap_hook(_n)


@model('vf_waited')
def _vf_waited(I, s, c):
    """the signal sigwait delivered"""
    _, e = models.lastev(s, 'sigwait', -1)
    v = (e[4] or {}).get('sig') if e else None
    I.finish_call(s, s.norm(v) if isinstance(v, Lin) else Lin(-12345))
