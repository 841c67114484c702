"""Disjunctive abstract interpreter over the linked LLVM IR of the library.

Abstract values are linear terms over atoms (value numbers); a state is (call stack, abstract memory,
linear facts, monitor state).  Loops are solved to a fixpoint: cells that change are either tied to a
shared iteration symbol (affine relations between the cells are kept) or forgotten, and candidate
inequalities survive only if they are inductive.  Nothing of /repo is executed."""
import math
import operator
import struct
import time
import sys
import names
from dom import (Lin, L, ZERO, ONE, atom, fresh, A, Facts, Contradiction, root_of, distinct, _atoms)

sys.setrecursionlimit(20000)


class EngineError(Exception):
    pass


class Cond:
    """three-valued condition tree"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __hash__(self):
        return hash((self.k, self.a))

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k and self.a == o.a

    def __repr__(self):
        return '%s%s' % (self.k, self.a)

    def neg(self):
        k, a = self.k, self.a
        if k == 'const':
            return Cond('const', not a[0])
        if k == 'ge':
            return Cond('ge', -a[0] - 1)
        if k == 'eq':
            return Cond('ne', a[0])
        if k == 'ne':
            return Cond('eq', a[0])
        if k == 'and':
            return Cond('or', a[0].neg(), a[1].neg())
        return Cond('and', a[0].neg(), a[1].neg())


TRUE = Cond('const', True)
FALSE = Cond('const', False)

FCMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def fval(v):
    """the value of a known floating-point number, None when unknown"""
    if not isinstance(v, Lin):
        return None
    if v.isconst():
        return 0.0 if v.c == 0 else None
    at = v.single()
    if at is not None and isinstance(at.key, tuple) and at.key[0] == 'fp' and isinstance(at.key[1], float):
        return at.key[1]
    return None


def fconst(x, t):
    if t == ('fp', 'float') and x == x and abs(x) < 3e38:
        x = struct.unpack('f', struct.pack('f', x))[0]
    return atom(('fp', x))


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __hash__(self):
        return hash(self.v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __repr__(self):
        return 'Agg%r' % (self.v,)


UNDEF = None


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'env', 'prev', 'uid', 'depth', 'sites', 'tag', 'intr', 'quiet')

    def __init__(self, fn, uid, depth):
        self.fn = fn
        self.block = fn.entry
        self.idx = 0
        self.env = {}
        self.prev = None
        self.uid = uid
        self.depth = depth
        self.tag = None
        self.quiet = False
        self.intr = None       # runs on behalf of another thread: what to do when it ends

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.env, f.prev, f.uid, f.depth, f.tag, f.intr, f.quiet = (
            self.fn, self.block, self.idx, dict(self.env), self.prev, self.uid, self.depth, self.tag, self.intr, self.quiet)
        return f

    def instr(self):
        return self.fn.blocks[self.block][self.idx]


def bump(v):
    """the version after a write of a memory root; generalised versions ('w', id) are counted on their own"""
    if isinstance(v, tuple):
        return (v[0], v[1], (v[2] if len(v) > 2 else 0) + 1)
    return v + 1


class State:
    __slots__ = ('frames', 'mem', 'fills', 'ver', 'epoch', 'facts', 'ghost', 'trace', 'exc', 'status', 'ret',
                 'nalloc', 'viol', 'unknown', 'sizes', 'steps', 'conds', 'widened', 'strs')

    def __init__(self):
        self.frames = []
        self.mem = {}          # base Lin(const 0) -> {off: (size, val)}
        self.fills = {}        # base -> tuple of (lo, hi, byte)   most recent last
        self.ver = {}
        self.epoch = 0
        self.facts = Facts()
        self.ghost = {}
        self.trace = None
        self.exc = None
        self.status = None
        self.ret = None
        self.nalloc = 0
        self.viol = ()
        self.unknown = frozenset()
        self.sizes = {}        # region atom id -> size term
        self.steps = 0
        self.conds = frozenset()
        self.widened = False
        self.strs = {}         # string data region -> pieces

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.fills = dict(self.fills)
        s.ver = dict(self.ver)
        s.epoch = self.epoch
        s.facts = self.facts.copy()
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.exc = self.exc
        s.status = self.status
        s.ret = self.ret
        s.nalloc = self.nalloc
        s.viol = self.viol
        s.unknown = self.unknown
        s.sizes = dict(self.sizes)
        s.steps = self.steps
        s.conds = self.conds
        s.widened = self.widened
        s.strs = dict(self.strs)
        return s

    # ---- trace
    def log(self, *x):
        self.trace = (x, self.trace)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    # ---- terms
    def norm(self, v):
        if isinstance(v, Lin):
            return self.facts.norm(v)
        return v

    def base(self, addr):
        addr = self.facts.norm(addr)
        return Lin(0, addr.t), addr.c

    def version(self, base):
        r = root_of(base)
        if r is None:
            return 0
        reg = _atoms[r].region
        v = self.ver.get(r, 0)
        if reg == 'alloca':
            return v
        return (v, self.epoch) if (v or self.epoch) else 0

    # ---- memory
    def load(self, addr, size, ptr=False, bits=None):
        b, off = self.base(addr)
        d = self.mem.get(b)
        if d is not None:
            c = d.get(off)
            if c is not None:
                if c[0] == size:
                    return self.norm(c[1])
                v = self.norm(c[1])
                if isinstance(v, Lin) and v.isconst() and size < c[0]:
                    return Lin(sext(v.c, size * 8))
                if v is UNDEF:
                    return UNDEF
                if size < c[0] and isinstance(v, Lin):
                    return atom(('part', v, 0, size))
                if size > c[0]:
                    # a wider read than the last write: combine constants
                    r = self._combine(d, b, off, size)
                    if r is not None:
                        return r
                    r = self._cat(d, off, size)
                    if r is not None:
                        return r
                    return atom(('wide', b, off, size, v, self.version(b)), ptr=ptr)
            else:
                for o, (sz, v) in d.items():
                    if o < off < o + sz:
                        v = self.norm(v)
                        if isinstance(v, Lin) and v.isconst():
                            return Lin(sext((v.c >> (8 * (off - o))), size * 8))
                        if v is UNDEF:
                            return UNDEF
                        return atom(('part', v, off - o, size))
                if size > 1:
                    r = self._cat(d, off, size)
                    if r is not None:
                        return r
        for lo, hi, byte in reversed(self.fills.get(b, ())):
            if lo <= off and (hi is None or off + size <= hi):
                if byte is UNDEF:
                    return UNDEF
                return Lin(sext(int.from_bytes(bytes([byte]) * size, 'little'), size * 8))
        # initial value of the cell
        r = root_of(b)
        if r is not None and r in self.strs and size == 1:
            v = self.strload(r, addr)
            if v is not None:
                return v
        if r is not None and _atoms[r].region == 'alloca' and _atoms[r].key[0] == 'alloca' and self.version(b) == 0:
            return UNDEF
        # a symbolic-index write to the same root may have hit this cell: versions take care of it
        return atom(('ld', b, off, self.version(b), size), ptr=ptr)

    def strload(self, r, addr):
        """character of a string whose contents are known as pieces"""
        off = self.norm(addr) - Lin(0, ((r, 1),))
        pos = ZERO
        f = self.facts
        for p in self.strs[r]:
            if p[0] == 'c':
                if f.entails_eq(off - pos):
                    return self.norm(p[1])
                pos = pos + 1
            elif p[0] == 'r':
                if f.entails_ge(off - pos) and f.entails_ge(pos + p[2] - 1 - off):
                    b = self.base(p[1])[0]
                    if self.version(b) == p[3]:
                        return self.load(p[1] + (off - pos), 1)
                    return None
                pos = pos + p[2]
            else:
                return None
            if not f.entails_ge(off - pos):
                return None
        if f.entails_eq(off - pos):
            return ZERO
        return None

    def _cat(self, d, off, size):
        """several cells read as one value (structures passed in registers)"""
        parts = []
        for o, (sz, v) in sorted(d.items()):
            if off <= o and o + sz <= off + size:
                v = self.norm(v)
                if v is not UNDEF and not isinstance(v, Lin):
                    return None
                parts.append((o - off, sz, v))
            elif o < off + size and off < o + sz:
                return None
        if not parts:
            return None
        return atom(('cat', size, tuple(parts)))

    def _combine(self, d, b, off, size):
        n = 0
        o = off
        while o < off + size:
            c = d.get(o)
            if c is None:
                hit = None
                for lo, hi, byte in reversed(self.fills.get(b, ())):
                    if lo <= o and (hi is None or o < hi) and byte is not UNDEF:
                        hit = byte
                        break
                if hit is None:
                    return None
                n |= hit << (8 * (o - off))
                o += 1
                continue
            v = self.norm(c[1])
            if not (isinstance(v, Lin) and v.isconst()):
                return None
            n |= (v.c & ((1 << (8 * c[0])) - 1)) << (8 * (o - off))
            o += c[0]
        return Lin(sext(n, 8 * size))

    def store(self, addr, size, val):
        b, off = self.base(addr)
        self._alias_kill(b, off, size)
        d = self.mem.setdefault(b, {})
        if isinstance(val, Lin) and len(val.t) == 1:
            a = val.single()
            if a is not None and isinstance(a.key, tuple) and a.key[0] == 'cat' and a.key[1] == size:
                self.fill(addr, Lin(size), None)
                self.fills[b] = self.fills.get(b, ()) + ((off, off + size, UNDEF),)
                for o, sz, v in a.key[2]:
                    self.store(addr + o, sz, v)
                return
        for o in [o for o, (sz, _) in d.items() if o < off + size and off < o + sz and o != off]:
            sz, v = d.pop(o)
            # keep the remains of an overwritten constant
            v = self.norm(v)
            if isinstance(v, Lin) and v.isconst():
                for i in range(sz):
                    if not (off <= o + i < off + size):
                        d[o + i] = (1, Lin((v.c >> (8 * i)) & 255))
            elif v is not UNDEF:
                for i in range(sz):
                    if not (off <= o + i < off + size) and (o + i) not in d:
                        d[o + i] = (1, atom(('part', v, i, 1)) if v is not None else None)
        c = d.get(off)
        if c is not None and c[0] > size:
            v = self.norm(c[1])
            d.pop(off)
            if isinstance(v, Lin) and v.isconst():
                for i in range(size, c[0]):
                    d[off + i] = (1, Lin((v.c >> (8 * i)) & 255))
        d[off] = (size, val)

    def _alias_kill(self, b, off, size):
        """a write through b+off invalidates same-root cells it may overlap"""
        r = root_of(b)
        if r is None:
            return
        kill = []
        for ob in self.mem:
            if ob is b or ob == b:
                continue
            if root_of(ob) != r:
                continue
            diff = b - ob
            for o, (sz, _) in self.mem[ob].items():
                # disjoint iff diff+off >= o+sz or diff+off+size <= o
                if self.facts.entails_ge(diff + (off - o - sz)) or self.facts.entails_ge(-diff + (o - off - size)):
                    continue
                kill.append((ob, o))
        for ob, o in kill:
            del self.mem[ob][o]
        if b.t != ((r, 1),):
            # symbolic offset: unmaterialised cells of the root get a new version
            self.ver[r] = bump(self.ver.get(r, 0))
            for k in list(self.fills):
                if root_of(k) == r:
                    del self.fills[k]

    def fill(self, addr, n, byte):
        """memset(addr, byte, n); n may be symbolic"""
        b, off = self.base(addr)
        n = self.norm(n)
        r = root_of(b)
        if isinstance(n, Lin) and n.isconst():
            hi = off + n.c
            d = self.mem.get(b)
            if d:
                for o in [o for o, (sz, _) in d.items() if o < hi and off < o + sz]:
                    del d[o]
            if byte is not None:
                self.fills[b] = self.fills.get(b, ()) + ((off, hi, byte),)
            else:
                self.havoc_range(addr, n)
        else:
            self.havoc_range(addr, n)

    def havoc_range(self, addr, n):
        b, off = self.base(addr)
        r = root_of(b)
        n = self.norm(n) if n is not None else None
        if n is not None and n.isconst() and b.t == ((r, 1),):
            # exact range: explicit fresh cells on demand through a fill of "unknown"
            d = self.mem.get(b, {})
            for o in [o for o, (sz, _) in d.items() if o < off + n.c and off < o + sz]:
                del d[o]
            keep = [(b, o, v) for o, v in d.items()]
            fk = self.fills.get(b, ())
            self.ver[r] = bump(self.ver.get(r, 0))
            # cells outside the range keep their old (unmaterialised) identity only if materialised
            self.fills[b] = tuple(x for y in fk for x in split_fill(y, off, off + n.c))
            return
        for ob in list(self.mem):
            if root_of(ob) == r:
                diff = b - ob
                for o in list(self.mem[ob]):
                    sz = self.mem[ob][o][0]
                    if self.facts.entails_ge(diff + (off - o - sz)):
                        continue
                    if n is not None and self.facts.entails_ge(-diff + (o - off) - n):
                        continue
                    del self.mem[ob][o]
        if r is not None:
            self.ver[r] = bump(self.ver.get(r, 0))
            for k in list(self.fills):
                if root_of(k) == r:
                    del self.fills[k]

    def copy_range(self, dst, src, n):
        """memcpy with constant n: copy cells"""
        db, doff = self.base(dst)
        sb, soff = self.base(src)
        cells = []
        d = self.mem.get(sb, {})
        covered = []
        for o, (sz, v) in sorted(d.items()):
            if soff <= o and o + sz <= soff + n:
                cells.append((o - soff, sz, v))
                covered.append((o - soff, o - soff + sz))
        fl = []
        for lo, hi, byte in self.fills.get(sb, ()):
            a, z = max(lo, soff), min(hi if hi is not None else soff + n, soff + n)
            if a < z:
                fl.append((a - soff, z - soff, byte))
        undef_src = False
        r = root_of(sb)
        if r is not None and _atoms[r].region == 'alloca' and _atoms[r].key[0] == 'alloca' and self.version(sb) == 0:
            undef_src = True
        # unmaterialised parts: alias them through 8/4/1-byte loads
        pos = 0
        holes = []
        cov = sorted(covered + [(a, z) for a, z, _ in fl])
        for a, z in cov:
            if a > pos:
                holes.append((pos, a))
            pos = max(pos, z)
        if pos < n:
            holes.append((pos, n))
        extra = []
        if not undef_src and n <= 512:
            for a, z in holes:
                p = a
                while p < z:
                    step = 8 if p % 8 == 0 and p + 8 <= z else (4 if p % 4 == 0 and p + 4 <= z else 1)
                    extra.append((p, step, self.load(src + p, step)))
                    p += step
        self.fill(dst, Lin(n), None)
        if undef_src:
            self.fills[db] = self.fills.get(db, ()) + ((doff, doff + n, UNDEF),)
        for a, z, byte in fl:
            self.fills[db] = self.fills.get(db, ()) + ((doff + a, doff + z, byte),)
        for o, sz, v in extra + cells:
            self.store(dst + o, sz, v)

    def drop_root(self, r):
        for b in [b for b in self.mem if root_of(b) == r]:
            del self.mem[b]
        for b in [b for b in self.fills if root_of(b) == r]:
            del self.fills[b]
        self.ver.pop(r, None)

    def rekey(self):
        """after a substitution: re-normalise memory keys"""
        eq = self.facts.eq
        if not eq:
            return
        for b in [b for b in self.mem if any(a in eq for a, _ in b.t)]:
            d = self.mem.pop(b)
            nb = self.facts.norm(b)
            base, c = Lin(0, nb.t), nb.c
            t = self.mem.setdefault(base, {})
            for o, v in d.items():
                t[o + c] = v
        for b in [b for b in self.fills if any(a in eq for a, _ in b.t)]:
            f = self.fills.pop(b)
            nb = self.facts.norm(b)
            base, c = Lin(0, nb.t), nb.c
            self.fills[base] = self.fills.get(base, ()) + tuple((lo + c, None if hi is None else hi + c, by) for lo, hi, by in f)

    def havoc_shared(self, keep=None):
        """other code ran: forget everything that is not a local of the analysed code.
        keep(state, base, off, size, val) -> True to preserve a cell"""
        self.epoch += 1
        for b in list(self.mem):
            r = root_of(b)
            if r is not None and _atoms[r].region in ('alloca', 'private', 'global_const'):
                continue
            d = self.mem[b]
            for o in list(d):
                sz, v = d[o]
                v = self.norm(v)
                if is_vtable(v) or (keep and keep(self, b, o, sz, v)):
                    continue
                del d[o]
            if not d:
                del self.mem[b]
        for b in list(self.fills):
            r = root_of(b)
            if r is not None and _atoms[r].region in ('alloca', 'private'):
                continue
            del self.fills[b]

    def violate(self, msg):
        weak = self.widened or bool(self.unknown)
        self.viol = self.viol + ((msg, weak),)
        if CUR is not None and not weak and msg not in CUR.found:
            CUR.found[msg] = self.copy()
            if CUR.deadline:
                # the rest of the exploration need not be finished to report it
                CUR.deadline = min(CUR.deadline, time.time() + 60)


def split_fill(f, lo, hi):
    a, z, byte = f
    out = []
    if z is None:
        z = 1 << 60
    if a < lo:
        out.append((a, min(z, lo), byte))
    if z > hi:
        out.append((max(a, hi), z, byte))
    return [x for x in out if x[0] < x[1]]


def is_vtable(v):
    if not isinstance(v, Lin) or len(v.t) != 1:
        return False
    k = _atoms[v.t[0][0]].key
    return isinstance(k, tuple) and k[0] == 'global' and k[1].startswith(('_ZTV', '_ZTT', '_ZTC'))


def sext(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def c_and(a, b):
    if a.k == 'const':
        return b if a.a[0] else FALSE
    if b.k == 'const':
        return a if b.a[0] else FALSE
    return Cond('and', a, b)


def c_or(a, b):
    return c_and(a.neg(), b.neg()).neg()


class Scope:
    __slots__ = ('depth', 'uid', 'header', 'blocks')

    def __init__(self, depth, uid, header, blocks):
        self.depth, self.uid, self.header, self.blocks = depth, uid, header, blocks


class Interp:
    MAX_STATES = 60000
    MAX_STEPS = 40000000
    deadline = None

    def __init__(self, mod, models=None, monitors=()):
        self.mod = mod
        self.models = models or {}
        self.monitors = list(monitors)
        self.stats = {'instr': 0, 'states': 0, 'loops': 0, 'functions': set(), 'calls': 0, 'unknown': {}, 'fixpoints': 0}
        self.opaque = {}
        self.max_depth = 90
        self.user_call = None
        self.cond_log = None
        self.unroll = 2
        self.max_unroll = 70
        self.active = []
        self.widen = True
        self.cond_terms = set()
        self.bounds = True          # check memory accesses against known region sizes
        self.assume_ok = frozenset()  # system calls assumed not to fail
        self.sync_ok = frozenset()
        self.sockaddr_hook = None
        self.usercall_hook = None
        self.usercall_throws = False
        self.join_hook = None
        self.wait_hook = None
        self.preempt_hook = PREEMPT
        self._gmaps = None
        self.lock_discipline = True
        self.covered = set()
        self.found = {}

    # ------------------------------------------------ values
    def gaddr(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls:
            return atom(('fn', name), ptr=True, nonnull=True, region='global', name='@' + name[:60])
        g = self.mod.ginit(name)
        return atom(('global', name), ptr=True, nonnull=True, region='global', name='@' + self.mod.dem(name)[:60])

    def val(self, s, fr, t, v):
        k = v[0]
        if k == 'ssa':
            x = fr.env.get(v[1], UNDEF)
            return s.norm(x) if isinstance(x, Lin) else x
        if k == 'const':
            return Lin(v[1])
        if k == 'global':
            return self.gaddr(v[1])
        if k == 'undef':
            rt = self.mod.types.resolve(t)
            if rt[0] == 'struct':
                return Agg([UNDEF] * len(rt[1]))
            return UNDEF
        if k == 'zero':
            rt = self.mod.types.resolve(t)
            if rt[0] == 'struct':
                return Agg([ZERO] * len(rt[1]))
            return ZERO
        if k == 'fconst':
            return atom(('fp', v[1]))
        if k == 'cgep':
            ops = v[2]
            return self.gep(s, v[1], self.val(s, fr, ops[0][0], ops[0][1]), [(t2, self.val(s, fr, t2, x)) for t2, x in ops[1:]])
        if k == 'agg':
            return Agg([self.val(s, fr, t2, x) for t2, x in v[1]])
        if k == 'opaque':
            return fresh('cexpr')
        raise EngineError('value %r' % (v,))

    def gep(self, s, bt, p, idx):
        T = self.mod.types
        if p is UNDEF:
            return UNDEF
        p = self.tolin(p)
        off = ZERO
        t = bt
        first = True
        for it, iv in idx:
            if iv is UNDEF:
                return UNDEF
            iv = self.tolin(iv)
            if first:
                off = off + iv * T.size(t)
                first = False
                continue
            rt = T.resolve(t)
            if rt[0] == 'struct':
                offs, _ = T.layout(rt)
                if not iv.isconst():
                    raise EngineError('gep')
                off = off + offs[iv.c]
                t = rt[1][iv.c]
            elif rt[0] in ('arr', 'vec'):
                t = rt[2]
                off = off + iv * T.size(t)
            else:
                raise EngineError('gep on %r' % (rt,))
        return p + off

    def tolin(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Cond):
            if v.k == 'const':
                return Lin(1 if v.a[0] else 0)
            if v.k in ('ne', 'eq'):
                x = v.a[0].single()
                if x is not None and x.lo == 0 and x.hi == 1:
                    return v.a[0] if v.k == 'ne' else ONE - v.a[0]
            a = atom(('bool', v), lo=0, hi=1)
            return a
        if v is UNDEF:
            return fresh('undef')
        if isinstance(v, Agg):
            return fresh('agg')
        raise EngineError('tolin %r' % (v,))

    def tocond(self, v):
        """i1 view of a value"""
        if isinstance(v, Cond):
            return v
        if v is UNDEF:
            return Cond('ne', fresh('undefbool', lo=0, hi=1))
        if v.isconst():
            return TRUE if v.c & 1 else FALSE
        a = v.single()
        if a is not None and isinstance(a.key, tuple) and a.key[0] == 'bool':
            return a.key[1]
        return Cond('ne', v)

    # ------------------------------------------------ conditions
    def decide(self, s, c):
        """True/False/None"""
        if c.k == 'const':
            return c.a[0]
        f = s.facts
        if c.k == 'ge':
            l = f.norm(c.a[0])
            if not l.t:
                return l.c >= 0
            if f.entails_ge(l):
                return True
            if f.entails_ge(-l - 1):
                return False
            return None
        if c.k in ('eq', 'ne'):
            l = f.norm(c.a[0])
            r = None
            if not l.t:
                r = l.c == 0
            else:
                a = Lin(0, l.t).single() or Lin(0, (-l).t).single()
                bc = self._boolatom(l)
                if bc is not None:
                    r0 = self.decide(s, bc)
                    r = r0
                elif f.entails_ne(l):
                    r = False
                elif f.entails_eq(l):
                    r = True
            if r is None:
                return None
            return r if c.k == 'eq' else not r
        x = self.decide(s, c.a[0])
        if c.k == 'and':
            if x is False:
                return False
            y = self.decide(s, c.a[1])
            if y is False:
                return False
            return True if x and y else None
        if x is True:
            return True
        y = self.decide(s, c.a[1])
        if y is True:
            return True
        return False if x is False and y is False else None

    def _boolatom(self, l):
        """l == 0 as a condition, if l is +-(bool atom - const)"""
        if len(l.t) == 1:
            a = _atoms[l.t[0][0]]
            if isinstance(a.key, tuple) and a.key[0] == 'bool':
                k = l.t[0][1]
                v = -l.c // k if l.c % k == 0 else None
                if v == 1:
                    return a.key[1]
                if v == 0:
                    return a.key[1].neg()
                return FALSE
        return None

    def assume(self, s, c):
        """list of states in which c holds (s may be consumed)"""
        d = self.decide(s, c)
        if d is True:
            return [s]
        if d is False:
            return []
        if c.k in ('ge', 'eq', 'ne'):
            l = s.facts.norm(c.a[0])
            if any(isinstance(_atoms[a].key, tuple) and _atoms[a].key[0] == 'S' for a, _ in l.t):
                self.cond_terms.add(l)
        try:
            if c.k == 'ge':
                s.facts.add_ge(c.a[0])
            elif c.k in ('eq', 'ne'):
                l = s.facts.norm(c.a[0])
                bc = self._boolatom(l)
                if bc is not None:
                    return self.assume(s, bc if c.k == 'eq' else bc.neg())
                n = len(s.facts.eq)
                if c.k == 'eq':
                    s.facts.add_eq(l)
                else:
                    s.facts.add_ne(l)
            elif c.k == 'and':
                out = []
                for x in self.assume(s, c.a[0]):
                    out += self.assume(x, c.a[1])
                return out
            else:
                s2 = s.copy()
                return self.assume(s, c.a[0]) + [y for x in self.assume(s2, c.a[0].neg()) for y in self.assume(x, c.a[1])]
        except Contradiction:
            return []
        s.rekey()
        return [s]

    def fork(self, s, c):
        """(states where c, states where not c)"""
        d = self.decide(s, c)
        if d is True:
            return [s], []
        if d is False:
            return [], [s]
        s2 = s.copy()
        return self.assume(s, c), self.assume(s2, c.neg())

    def icmp(self, s, p, t, x, y):
        if x is UNDEF or y is UNDEF:
            # comparison of an uninitialised value
            return Cond('ne', fresh('undefcmp', lo=0, hi=1))
        if isinstance(x, Cond) or isinstance(y, Cond):
            if isinstance(y, Cond) and not isinstance(x, Cond):
                x, y = y, x
            if isinstance(y, Lin) and y.isconst() and p in ('eq', 'ne'):
                want = (y.c & 1) if abs(y.c) <= 1 else None
                if want is None:
                    return FALSE if p == 'eq' else TRUE
                r = x if want else x.neg()
                return r if p == 'eq' else r.neg()
            if p in ('eq', 'ne') and self.isbool(x) and self.isbool(y):
                x, y = self.tocond(x), self.tocond(y)
                if x == y:
                    r = TRUE
                elif x == y.neg():
                    r = FALSE
                else:
                    r = c_or(c_and(x, y), c_and(x.neg(), y.neg()))
                return r if p == 'eq' else r.neg()
            x, y = self.tolin(x), self.tolin(y)
        x, y = s.norm(self.tolin(x)), s.norm(self.tolin(y))
        d = x - y
        if p in ('eq', 'ne'):
            bc = self._boolatom(d)
            if bc is not None:
                return bc if p == 'eq' else bc.neg()
        if p == 'eq':
            return Cond('eq', d) if d.t else (TRUE if d.c == 0 else FALSE)
        if p == 'ne':
            return Cond('ne', d) if d.t else (FALSE if d.c == 0 else TRUE)
        if p[0] == 'u':
            if t[0] == 'ptr':
                pass
            else:
                bits = t[1]
                if x.isconst():
                    x = Lin(x.c & ((1 << bits) - 1))
                if y.isconst():
                    y = Lin(y.c & ((1 << bits) - 1))
                nx = s.facts.entails_ge(x)
                ny = s.facts.entails_ge(y)
                if not (nx and ny):
                    # wrap-around cases
                    strict = p in ('ult', 'ugt')
                    a, b = (x, y) if p in ('ult', 'ule') else (y, x)
                    na, nb = (nx, ny) if p in ('ult', 'ule') else (ny, nx)
                    lt = Cond('ge', b - a - (1 if strict else 0))
                    ga = TRUE if na else Cond('ge', a)
                    gb = TRUE if nb else Cond('ge', b)
                    both = c_and(c_and(ga, gb), lt)
                    mixed = c_and(ga, gb.neg())
                    bothneg = c_and(c_and(ga.neg(), gb.neg()), lt)
                    return c_or(c_or(both, mixed), bothneg)
            p = 's' + p[1:]
        d = x - y
        l = {'slt': -d - 1, 'sle': -d, 'sgt': d - 1, 'sge': d}[p]
        if not l.t:
            return TRUE if l.c >= 0 else FALSE
        return Cond('ge', l)

    @staticmethod
    def isbool(v):
        if isinstance(v, Cond):
            return True
        if isinstance(v, Lin):
            a = v.single()
            return a is not None and a.lo == 0 and a.hi == 1
        return False

    def bitand(self, s, x, k):
        """x & k (k constant), seeing through or-ed constants"""
        a = x.single()
        if a is not None and isinstance(a.key, tuple) and len(a.key) == 3 and a.key[0] in ('or', 'and'):
            for u, w in ((a.key[1], a.key[2]), (a.key[2], a.key[1])):
                if u.isconst():
                    if a.key[0] == 'or':
                        if u.c & k == k:
                            return Lin(k)
                        if u.c & k == 0:
                            return self.arith(s, 'and', ('int', 64), w, Lin(k))
                    else:
                        return self.arith(s, 'and', ('int', 64), w, Lin(k & u.c))
        return None

    def arith(self, s, op, t, x, y):
        if t[0] == 'int' and t[1] > 1:
            if isinstance(x, Cond):
                d = self.decide(s, x)
                x = x if d is None else Lin(1 if d else 0)
            if isinstance(y, Cond):
                d = self.decide(s, y)
                y = y if d is None else Lin(1 if d else 0)
        if x is UNDEF or y is UNDEF:
            return UNDEF
        bits = t[1] if t[0] == 'int' else 64
        if op[0] == 'f':
            a, b = fval(x), fval(y)
            if a is not None and b is not None and (b or op not in ('fdiv', 'frem')):
                r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b,
                     'frem': lambda: math.fmod(a, b)}[op]()
                return fconst(r, t)
        if t == ('int', 1):
            a, b = self.tocond(x), self.tocond(y)
            if op == 'xor':
                if b.k == 'const':
                    return a.neg() if b.a[0] else a
                if a.k == 'const':
                    return b.neg() if a.a[0] else b
                return c_or(c_and(a, b.neg()), c_and(a.neg(), b))
            if op == 'and':
                return c_and(a, b)
            if op == 'or':
                return c_or(a, b)
        x, y = s.norm(self.tolin(x)), s.norm(self.tolin(y))
        if op[0] == 'f':
            return atom((op, x, y))
        if op == 'add':
            return self.wrap(x + y, bits)
        if op == 'sub':
            return self.wrap(x - y, bits)
        if op == 'mul':
            if x.isconst():
                return self.wrap(y * x.c, bits)
            if y.isconst():
                return self.wrap(x * y.c, bits)
            return atom(('mul', x, y) if repr(x) < repr(y) else ('mul', y, x))
        if x.isconst() and y.isconst():
            m = (1 << bits) - 1
            ux, uy = x.c & m, y.c & m
            sx, sy = sext(x.c, bits), sext(y.c, bits)
            if op in ('sdiv', 'srem', 'udiv', 'urem') and sy == 0:
                return fresh('divzero')
            if op == 'sdiv':
                q = abs(sx) // abs(sy)
                return Lin(q if (sx < 0) == (sy < 0) else -q)
            if op == 'srem':
                q = abs(sx) % abs(sy)
                return Lin(-q if sx < 0 else q)
            r = {'udiv': lambda: ux // uy, 'urem': lambda: ux % uy, 'shl': lambda: ux << uy, 'lshr': lambda: ux >> uy,
                 'ashr': lambda: sx >> uy, 'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy}[op]()
            return Lin(sext(r, bits))
        if op == 'shl' and y.isconst():
            return self.wrap(x * (1 << y.c), bits)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and y.isconst():
            k = y.c if op in ('sdiv', 'udiv') else (1 << y.c)
            if k == 1:
                return x
            if k > 1:
                return self.div(s, x, k)
        if op in ('srem', 'urem') and y.isconst() and y.c > 0 and s.facts.entails_ge(x):
            return x - self.div(s, x, y.c) * y.c
        if op == 'and' and y.isconst():
            if y.c == 0:
                return ZERO
            if sext(y.c, bits) == -1:
                return x
        if op == 'and' and x.isconst():
            return self.arith(s, op, t, y, x)
        if op in ('or', 'xor') and y.isconst() and y.c == 0:
            return x
        if op in ('or', 'xor') and x.isconst() and x.c == 0:
            return y
        if op in ('and', 'or') and x == y:
            return x
        if op == 'and' and (x.isconst() or y.isconst()):
            r = self.bitand(s, *((x, y.c) if y.isconst() else (y, x.c)))
            if r is not None:
                return r
        if op in ('and', 'or', 'xor') and repr(y) < repr(x):
            x, y = y, x
        # values are kept sign-extended, so the bitwise operations do not depend on the width
        r = atom((op, x, y)) if op in ('and', 'or', 'xor') else atom((op, bits, x, y))
        if op == 'and':
            for z in (x, y):
                if z.isconst() and z.c > 0:
                    a = r.single()
                    if a.lo is None:
                        a.lo = 0
                        a.hi = z.c
        return r

    def div(self, s, x, k):
        if all(c % k == 0 for _, c in x.t) and x.c % k == 0:
            return Lin(x.c // k, tuple((a, c // k) for a, c in x.t))
        q = atom(('div', x, k))
        if s.facts.entails_ge(x):
            try:
                s.facts.add_ge(x - q * k)
                s.facts.add_ge(q * k + (k - 1) - x)
                s.rekey()
            except Contradiction:
                pass
        return s.norm(q)

    @staticmethod
    def wrap(l, bits):
        if l.isconst():
            return Lin(sext(l.c, bits)) if bits <= 64 else l
        return l

    def cast(self, s, op, v, t0, t1):
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            if t1 == ('int', 1):
                return self.tocond(v)
            if isinstance(v, Cond):
                return v
            if v.isconst():
                return Lin(sext(v.c, t1[1]))
            return v
        if op in ('zext', 'sext'):
            if t0 == ('int', 1):
                c = self.tocond(v)
                if op == 'sext':
                    l = self.tolin(c)
                    return -l
                return c
            if isinstance(v, Cond):
                return v
            if v.isconst() and op == 'zext':
                return Lin(v.c & ((1 << t0[1]) - 1))
            return v
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op in ('sitofp', 'uitofp'):
            v = s.norm(self.tolin(v))
            if v.isconst() and (op == 'sitofp' or v.c >= 0):
                return fconst(float(v.c), t1)
        elif fval(v) is not None:
            if op in ('fpext', 'fptrunc'):
                return fconst(fval(v), t1)
            if op in ('fptosi', 'fptoui') and abs(fval(v)) < 2 ** (t1[1] - 1):
                return Lin(int(fval(v)))
        return atom((op, self.tolin(v), t1[1] if len(t1) > 1 else 0))

    # ------------------------------------------------ exploration
    def explore(self, work, scope=None):
        back, exits, terms = [], [], []
        work = list(work)
        first = set(map(id, work)) if scope is not None else ()
        while work:
            s = work.pop()
            pend = [('state', s)]
            while pend:
                k, s = pend.pop()
                if s.status is not None:
                    terms.append(s)
                    continue
                if scope is not None and len(s.frames) <= scope.depth:
                    exits.append(s)
                    continue
                r = self.run_until(s)
                for item in r:
                    if item[0] == 'goto':
                        _, s2, blk = item
                        fr = s2.frames[-1]
                        inscope = scope is not None and len(s2.frames) - 1 == scope.depth
                        if inscope and blk == scope.header:
                            self.enter(s2, blk)
                            back.append(s2)
                            continue
                        if inscope and blk not in scope.blocks:
                            s2.frames[-1].tag = blk
                            exits.append(s2)
                            continue
                        loops = fr.fn.loops
                        if blk in loops and (fr.block not in loops[blk] or (fr.uid, blk) not in self.active):
                            self.enter(s2, blk)
                            ex, tm = self.run_loop(s2)
                            terms.extend(tm)
                            for e in ex:
                                if e.status is not None:
                                    terms.append(e)
                                elif e.frames and e.frames[-1].tag is not None:
                                    # leaves the loop by a jump: re-examine against the enclosing scope
                                    b2 = e.frames[-1].tag
                                    e.frames[-1].tag = None
                                    work.append(GotoState(e, b2))
                                else:
                                    work.append(e)
                            continue
                        self.enter(s2, blk)
                        work.append(s2)
                    else:
                        s2 = item[1]
                        if s2.status is not None:
                            terms.append(s2)
                        elif scope is not None and len(s2.frames) <= scope.depth:
                            exits.append(s2)
                        else:
                            work.append(s2)
            if len(work) + len(terms) + len(exits) > self.MAX_STATES:
                raise EngineError('state explosion')
        return back, exits, terms

    def enter(self, s, blk):
        fr = s.frames[-1]
        fr.prev = fr.block
        fr.block = blk
        fr.idx = 0
        ins = fr.fn.blocks[blk]
        vals = {}
        i = 0
        while i < len(ins) and ins[i].op == 'phi':
            t, inc = ins[i].a
            for v, b in inc:
                if b == fr.prev:
                    vals[ins[i].res] = self.val(s, fr, t, v)
                    break
            i += 1
        fr.env.update(vals)
        fr.idx = i

    def run_until(self, s):
        """run s until it forks, jumps, or ends; returns list of ('goto', s, block) / ('state', s)"""
        if isinstance(s, GotoState):
            return [('goto', s.s, s.blk)]
        while True:
            fr = s.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            self.stats['instr'] += 1
            if self.stats['instr'] > self.MAX_STEPS:
                raise EngineError('instruction budget exhausted')
            if self.deadline and not self.stats['instr'] & 1023 and time.time() > self.deadline:
                raise EngineError('time budget exhausted')
            r = self.step(s, fr, ins)
            if r is None:
                continue
            return r

    # ------------------------------------------------ one instruction
    def step(self, s, fr, ins):
        op = ins.op
        if self.preempt_hook and (s.ghost.get('preempt') or ('preskip', s.ghost.get('tid', 0)) in s.ghost) and \
                (op in ('atomicrmw', 'cmpxchg') or op in ('load', 'store') and ins.a[2]):
            extra = self.preempt_hook(self, s)
            if extra:
                r = self.step1(s, fr, ins)
                return [('state', z) for z in extra] + ([('state', s)] if r is None else r)
        return self.step1(s, fr, ins)

    def step1(self, s, fr, ins):
        op = ins.op
        T = self.mod.types
        if op == 'alloca':
            t, n = ins.a
            a = atom(('alloca', fr.uid, ins.res), ptr=True, nonnull=True, region='alloca',
                     name=fr.fn.name[-24:] + '/' + str(ins.res))
            s.drop_root(a.t[0][0])
            if n is not None:
                nn = self.val(s, fr, n[0], n[1])
                s.sizes[a.t[0][0]] = self.tolin(nn) * T.size(t)
            else:
                s.sizes[a.t[0][0]] = Lin(T.size(t))
            fr.env[ins.res] = a
            fr.idx += 1
            return None
        if op == 'load':
            t, (pt, pv), at = ins.a
            p = self.val(s, fr, pt, pv)
            fr.env[ins.res] = self.do_load(s, p, t, ins, at)
            fr.idx += 1
            return None
        if op == 'store':
            (vt, vv), (pt, pv), at = ins.a
            v = self.val(s, fr, vt, vv)
            p = self.val(s, fr, pt, pv)
            self.do_store(s, p, vt, v, ins, at)
            fr.idx += 1
            return None
        if op == 'getelementptr':
            bt, ops = ins.a
            p = self.val(s, fr, ops[0][0], ops[0][1])
            fr.env[ins.res] = self.gep(s, bt, p, [(t, self.val(s, fr, t, v)) for t, v in ops[1:]])
            fr.idx += 1
            return None
        if op in ('call', 'invoke'):
            return self.call(s, fr, ins)
        if op == 'br':
            return [('goto', s, ins.a[0])]
        if op == 'condbr':
            (ct, cv), x, y = ins.a
            c = self.tocond(self.val(s, fr, ct, cv))
            tr, fa = self.fork(s, c)
            return [('goto', z, x) for z in tr] + [('goto', z, y) for z in fa]
        if op == 'switch':
            (ct, cv), dflt, cases = ins.a
            v = self.val(s, fr, ct, cv)
            if v is UNDEF:
                v = fresh('undef')
            v = self.tolin(v)
            out = []
            cur = [s]
            for k, b in cases:
                nxt = []
                for z in cur:
                    a, n = self.fork(z, Cond('eq', v - k) if (v - k).t else (TRUE if v.c == k else FALSE))
                    out += [('goto', q, b) for q in a]
                    nxt += n
                cur = nxt
            out += [('goto', q, dflt) for q in cur]
            return out
        if op == 'ret':
            v = None
            if ins.a is not None:
                v = self.val(s, fr, ins.a[0], ins.a[1])
            self.do_return(s, v)
            return [('state', s)]
        if op == 'icmp':
            p, t, x, y = ins.a
            rt = T.resolve(t)
            fr.env[ins.res] = self.icmp(s, p, rt, self.val(s, fr, t, x), self.val(s, fr, t, y))
            fr.idx += 1
            return None
        if op == 'fcmp':
            p, t, x, y = ins.a
            a, b = fval(self.val(s, fr, t, x)), fval(self.val(s, fr, t, y))
            if a is not None and b is not None and a == a and b == b and p[0] in 'ou' and p[1:] in FCMP:
                fr.env[ins.res] = Cond('const', FCMP[p[1:]](a, b))
                fr.idx += 1
                return None
            fr.env[ins.res] = Cond('ne', atom(('fcmp', p, self.tolin(self.val(s, fr, t, x)), self.tolin(self.val(s, fr, t, y))), lo=0, hi=1))
            fr.idx += 1
            return None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t, x, y = ins.a
            fr.env[ins.res] = self.arith(s, op, T.resolve(t), self.val(s, fr, t, x), self.val(s, fr, t, y))
            fr.idx += 1
            return None
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            (t0, v0), t1 = ins.a
            fr.env[ins.res] = self.cast(s, op, self.val(s, fr, t0, v0), T.resolve(t0), T.resolve(t1))
            fr.idx += 1
            return None
        if op == 'fneg':
            fr.env[ins.res] = atom(('fneg', self.tolin(self.val(s, fr, *ins.a))))
            fr.idx += 1
            return None
        if op == 'select':
            (ct, cv), x, y = ins.a
            c = self.tocond(self.val(s, fr, ct, cv))
            tr, fa = self.fork(s, c)
            out = []
            for z, (t, v) in [(z, x) for z in tr] + [(z, y) for z in fa]:
                f2 = z.frames[-1]
                f2.env[ins.res] = self.val(z, f2, t, v)
                f2.idx += 1
                out.append(('state', z))
            return out
        if op == 'extractvalue':
            (t, v), ix = ins.a
            x = self.val(s, fr, t, v)
            for i in ix:
                x = x.v[i] if isinstance(x, Agg) else UNDEF
            fr.env[ins.res] = x
            fr.idx += 1
            return None
        if op == 'insertvalue':
            (t, v), (t2, v2), ix = ins.a
            x = self.val(s, fr, t, v)
            y = self.val(s, fr, t2, v2)
            if not isinstance(x, Agg):
                x = Agg([UNDEF] * len(T.resolve(t)[1]))
            if len(ix) == 1:
                l = list(x.v)
                l[ix[0]] = y
                x = Agg(l)
            fr.env[ins.res] = x
            fr.idx += 1
            return None
        if op == 'landingpad':
            fr.env[ins.res] = Agg([s.exc['obj'], s.exc['sel']])
            fr.idx += 1
            return None
        if op == 'resume':
            return self.unwind(s, pop=True)
        if op == 'unreachable':
            s.status = 'unreachable'
            return [('state', s)]
        if op == 'atomicrmw':
            o, (pt, pv), (vt, vv) = ins.a
            p = self.val(s, fr, pt, pv)
            old = self.do_load(s, p, vt, ins, True)
            v = self.val(s, fr, vt, vv)
            if o == 'xchg':
                new = v
            elif old is UNDEF:
                new = UNDEF
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.arith(s, o, T.resolve(vt), old, v)
            else:
                new = fresh('rmw')
            self.do_store(s, p, vt, new, ins, True)
            fr.env[ins.res] = old
            fr.idx += 1
            return None
        if op == 'cmpxchg':
            (pt, pv), (ct, cv), (nt, nv) = ins.a
            p = self.val(s, fr, pt, pv)
            old = self.do_load(s, p, ct, ins, True)
            c = self.icmp(s, 'eq', T.resolve(ct), old, self.val(s, fr, ct, cv))
            tr, fa = self.fork(s, c)
            out = []
            for z in tr:
                f2 = z.frames[-1]
                self.do_store(z, p, nt, self.val(z, f2, nt, nv), ins, True)
                f2.env[ins.res] = Agg([old, TRUE])
                f2.idx += 1
                out.append(('state', z))
            for z in fa:
                f2 = z.frames[-1]
                f2.env[ins.res] = Agg([old, FALSE])
                f2.idx += 1
                out.append(('state', z))
            return out
        if op == 'fence':
            fr.idx += 1
            return None
        if op == 'freeze':
            fr.env[ins.res] = self.val(s, fr, *ins.a)
            fr.idx += 1
            return None
        if op == 'phi':
            fr.idx += 1
            return None
        raise EngineError('instruction %s' % ins.text)

    def where(self, s, ins=None):
        """innermost location inside the library"""
        for fr in reversed(s.frames):
            i = ins if (ins is not None and fr is s.frames[-1]) else fr.fn.blocks[fr.block][min(fr.idx, len(fr.fn.blocks[fr.block]) - 1)]
            l = self.mod.loc(i.dbg)
            if l.startswith('src/'):
                return '%s (%s)' % (l, names.strip(fr.fn.dem))
        fr = s.frames[-1] if s.frames else None
        return '?' if fr is None else '%s (%s)' % (self.mod.loc(fr.instr().dbg), names.strip(fr.fn.dem))

    def do_load(self, s, p, t, ins, atomic=False):
        rt = self.mod.types.resolve(t)
        if p is UNDEF:
            return UNDEF
        p = self.tolin(p)
        size = self.mod.types.size(rt)
        if rt[0] in ('struct', 'arr'):
            if rt[0] == 'struct':
                offs, _ = self.mod.types.layout(rt)
                return Agg([self.do_load(s, p + o, x, ins, atomic) for o, x in zip(offs, rt[1])])
            return fresh('arrload')
        for m in self.monitors:
            f = getattr(m, 'on_load', None)
            if f:
                r = f(self, s, p, size, ins, atomic)
                if r is not None:
                    return r
        if self.bounds and s.sizes:
            self.check_access(s, p, Lin(size), 'read', 'read')
        if 'race' in s.ghost:
            note_access(self, s, p, size, False, atomic)
        g = self.global_load(s, p, rt, size)
        if g is not None:
            return g
        v = s.load(p, size, ptr=rt[0] == 'ptr')
        return v

    def do_store(self, s, p, t, v, ins, atomic=False):
        rt = self.mod.types.resolve(t)
        if p is UNDEF:
            return
        p = self.tolin(p)
        if rt[0] == 'struct':
            offs, _ = self.mod.types.layout(rt)
            for i, (o, x) in enumerate(zip(offs, rt[1])):
                self.do_store(s, p + o, x, v.v[i] if isinstance(v, Agg) else UNDEF, ins, atomic)
            return
        size = self.mod.types.size(rt)
        if isinstance(v, Cond):
            v = self.tolin(v)
        for m in self.monitors:
            f = getattr(m, 'on_store', None)
            if f:
                f(self, s, p, size, v, ins, atomic)
        if self.bounds and s.sizes:
            self.check_access(s, p, Lin(size), 'write', 'write')
        if 'race' in s.ghost:
            note_access(self, s, p, size, True, atomic)
        s.store(p, size, v)

    # constant globals
    def global_load(self, s, p, rt, size):
        p = s.norm(p)
        if len(p.t) != 1 or p.t[0][1] != 1:
            return None
        k = _atoms[p.t[0][0]].key
        if not (isinstance(k, tuple) and k[0] == 'global'):
            return None
        gi = self.mod.ginit(k[1])
        if gi is None or gi[2] is None or not gi[0]:
            return None
        return self.const_at(s, gi[1], gi[2], p.c, rt, size)

    def const_leaves(self, s, t, v, off):
        T = self.mod.types
        r = T.resolve(t)
        if r[0] == 'arr':
            es = T.size(r[2])
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]):
                    yield off + i, 1, Lin(sext(b, 8))
            elif v[0] == 'zero':
                if es * r[1] <= 4096:
                    for i in range(r[1]):
                        yield from self.const_leaves(s, r[2], v, off + i * es)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    yield from self.const_leaves(s, et, ev, off + i * es)
        elif r[0] == 'struct':
            offs, _ = T.layout(r)
            for i, o in enumerate(offs):
                et, ev = (r[1][i], v) if v[0] == 'zero' else v[1][i]
                yield from self.const_leaves(s, et, ev, off + o)
        else:
            x = ZERO if v[0] == 'zero' else self.val(s, None, t, v)
            if isinstance(x, Lin):
                yield off, T.size(r), x

    def const_at(self, s, t, v, off, rt, size):
        T = self.mod.types
        r = T.resolve(t)
        if v[0] == 'zero':
            return ZERO
        if r[0] == 'arr':
            es = T.size(r[2])
            if v[0] == 'bytes':
                b = v[1][off:off + size]
                if len(b) < size:
                    return None
                return Lin(sext(int.from_bytes(b, 'little'), size * 8))
            i = off // es if es else 0
            if i < 0 or i >= len(v[1]):
                return None
            et, ev = v[1][i]
            return self.const_at(s, et, ev, off - i * es, rt, size)
        if r[0] == 'struct':
            offs, _ = T.layout(r)
            for i in range(len(offs) - 1, -1, -1):
                if off >= offs[i]:
                    et, ev = v[1][i]
                    return self.const_at(s, et, ev, off - offs[i], rt, size)
            return None
        if off != 0:
            return None
        return self.val(s, None, t, v)

    def const_bytes(self, p, s=None):
        """bytes of a string constant at address p, or None"""
        if s is not None:
            p = s.norm(p)
        if len(p.t) != 1 or p.t[0][1] != 1:
            return None
        k = _atoms[p.t[0][0]].key
        if not (isinstance(k, tuple) and k[0] == 'global'):
            return None
        gi = self.mod.ginit(k[1])
        if gi is None or gi[2] is None or not gi[0]:
            return None
        if gi[2][0] == 'bytes':
            return gi[2][1][p.c:]
        if gi[2][0] == 'zero':
            return b'\0' * max(0, self.mod.types.size(gi[1]) - p.c)
        return None

    # ------------------------------------------------ calls
    def do_return(self, s, v):
        fr = s.frames.pop()
        for m in self.monitors:
            f = getattr(m, 'on_return', None)
            if f:
                f(self, s, fr, v)
        # locals of the frame die
        pre = fr.uid
        for b in list(s.mem):
            r = root_of(b)
            if r is not None:
                k = _atoms[r].key
                if k[0] == 'alloca' and k[1] == pre:
                    del s.mem[b]
        for b in list(s.fills):
            r = root_of(b)
            if r is not None:
                k = _atoms[r].key
                if k[0] == 'alloca' and k[1] == pre:
                    del s.fills[b]
        if not s.frames:
            s.status = 'ret'
            s.ret = v
            return
        if fr.intr is not None:
            if not fr.quiet:
                s.log('interference ends', [], None, '')
            fr.intr(self, s)
            return
        self.finish_call(s, v)

    def interrupt(self, s, name, then):
        """run a driver function on behalf of another thread, then resume"""
        fn = self.mod.funcs[name].parse()
        caller = s.frames[-1]
        f = Frame(fn, intern_uid((caller.uid, caller.block, caller.idx, 'interrupt', name)), len(s.frames))
        f.intr = then
        s.frames.append(f)
        self.stats['functions'].add(name)

    def run_ir(self, s, name, args, then, key=0):
        """a model runs a function of the program, then goes on with then(I, s)"""
        fn = self.mod.funcs[name].parse()
        caller = s.frames[-1]
        f = Frame(fn, intern_uid((caller.uid, caller.block, caller.idx, 'model', name, key)), len(s.frames))
        f.intr = then
        f.quiet = True
        for p, v in zip(fn.params, args):
            f.env[p] = v
        s.frames.append(f)

    def finish_call(self, s, v):
        """the call at the top frame's pc produced v; advance"""
        fr = s.frames[-1]
        ins = fr.instr()
        if fr.tag == 'unwinding-call':
            fr.tag = None
        if ins.res is not None:
            fr.env[ins.res] = v
        if ins.op == 'invoke':
            fr.tag = None
            s.frames[-1].idx = len(fr.fn.blocks[fr.block]) - 1
            fr.env['!goto'] = ins.a['normal']
        else:
            fr.idx += 1

    def call(self, s, fr, ins):
        if '!goto' in fr.env:
            b = fr.env.pop('!goto')
            return [('goto', s, b)]
        a = ins.a
        cal = a['callee']
        if cal[0] == 'asm':
            self.finish_call(s, fresh('asm'))
            return [('state', s)]
        args = [self.val(s, fr, t, v) for t, v in a['args']]
        self.stats['calls'] += 1
        if cal[0] == 'global':
            name = self.mod.aliases.get(cal[1], cal[1])
            return self.call_named(s, name, args, ins)
        f = self.val(s, fr, ('ptr',), cal)
        return self.call_ptr(s, f, args, ins)

    def call_ptr(self, s, f, args, ins):
        f = s.norm(f) if isinstance(f, Lin) else f
        if isinstance(f, Lin):
            at = f.single()
            if at is not None and isinstance(at.key, tuple) and at.key[0] == 'fn':
                return self.call_named(s, at.key[1], args, ins)
        return self.call_unknown_ptr(s, f, args, ins)

    def call_unknown_ptr(self, s, f, args, ins):
        """an indirect call we cannot resolve: a user-supplied callback"""
        ev = Event('usercall', args, f, self.where(s))
        outs = self.emit(s, ev)
        res = []
        for z in outs:
            if z.status is not None:
                res.append(('state', z))
                continue
            z.havoc_shared(self.user_call)
            self.emit_done(z, ev)
            rt = self.mod.types.resolve(ins.a['rt'])
            self.finish_call(z, None if rt[0] == 'void' else fresh('cb', ptr=rt[0] == 'ptr'))
            res.append(('state', z))
        return res

    def call_named(self, s, name, args, ins):
        if name.startswith('llvm.'):
            return self.intrinsic(s, name, args, ins)
        dem = self.mod.dem(name)
        sn = names.strip(dem)
        h = self.models.get(name) or self.models.get(sn)
        if h is None:
            h = self.models_prefix(sn)
        if h is not None:
            r = h(self, s, Call(name, dem, sn, args, ins))
            if r is not NotImplemented:
                return self.after(s, r)
        fn = self.mod.funcs.get(name)
        if fn is None:
            return self.unknown(s, name, sn, args, ins)
        return self.push(s, fn, args, ins)

    def models_prefix(self, sn):
        return None

    def after(self, s, r):
        """model result: None (value already delivered) | list of states | ..."""
        if r is None:
            return [('state', s)]
        out = []
        for x in r:
            out.append(x if isinstance(x, tuple) else ('state', x))
        return out

    def push(self, s, fn, args, ins):
        fn.parse()
        if len(s.frames) > self.max_depth or sum(1 for f in s.frames if f.fn is fn) > 3:
            return self.unknown(s, fn.name, 'recursion:' + fn.dem, args, ins)
        self.stats['functions'].add(fn.name)
        caller = s.frames[-1]
        uid = (caller.uid, caller.block, caller.idx, fn.name)
        uid = intern_uid(uid)
        f = Frame(fn, uid, len(s.frames))
        for i, p in enumerate(fn.params):
            v = args[i] if i < len(args) else UNDEF
            f.env[p] = v
            # byval-like aggregates are not used on x86-64 for our types
        s.frames.append(f)
        for m in self.monitors:
            g = getattr(m, 'on_call', None)
            if g:
                g(self, s, fn, args, ins)
        return [('state', s)]

    def unknown(self, s, name, sn, args, ins):
        self.stats['unknown'][sn] = self.stats['unknown'].get(sn, 0) + 1
        s.unknown = s.unknown | {sn}
        # it may write through its pointer arguments
        for (t, _), v in zip(ins.a['args'], args):
            if t[0] == 'ptr' and isinstance(v, Lin) and v.t:
                r = root_of(v)
                if r is not None and _atoms[r].region in ('alloca', 'heap', 'obj', 'private'):
                    s.havoc_range(Lin(0, ((r, 1),)), None)
        rt = self.mod.types.resolve(ins.a['rt'])
        v = None
        if rt[0] == 'struct':
            v = Agg([fresh('ext', ptr=x == ('ptr',)) for x in rt[1]])
        elif rt[0] != 'void':
            v = fresh('ext:' + sn[-30:], ptr=rt[0] == 'ptr')
        self.finish_call(s, v)
        return [('state', s)]

    def tls(self, s, p):
        """this thread's copy of a thread_local variable, zero or constant-initialised when first used"""
        if 'kern' not in s.ghost or not isinstance(p, Lin) or p.single() is None:
            return p
        g = p.single().key
        q = atom(('tls', g, s.ghost.get('tid', 0)), ptr=True, nonnull=True, region='heap', name='tls')
        if s.ghost.get(('tlsinit', q)) is None:
            s.ghost[('tlsinit', q)] = 1
            gi = self.mod.ginit(g[1]) if g[0] == 'global' else None
            if gi:
                n = self.mod.types.size(gi[1])
                s.sizes[q.t[0][0]] = Lin(n)
                if gi[2][0] in ('int', 'const') and n <= 8 and isinstance(gi[2][1], int):
                    s.store(q, n, Lin(gi[2][1]))
                else:
                    s.fills[q] = s.fills.get(q, ()) + ((0, n, 0),)
        return q

    def intrinsic(self, s, name, args, ins):
        b = name.split('.')[1]
        if b in ('memcpy', 'memmove'):
            self.do_copy(s, args[0], args[1], args[2], ins)
            self.finish_call(s, None)
        elif b == 'memset':
            self.do_fill(s, args[0], args[1], args[2], ins)
            self.finish_call(s, None)
        elif b == 'threadlocal':
            self.finish_call(s, self.tls(s, args[0]))
        elif b == 'eh':
            # llvm.eh.typeid.for
            k = args[0].single()
            self.finish_call(s, typeid(k.key[1] if k else None))
        elif b in ('umul', 'uadd', 'smul', 'sadd', 'usub', 'ssub'):
            op = b[1:]
            t = ('int', 64)
            self.finish_call(s, Agg([self.arith(s, op, t, args[0], args[1]), FALSE]))
        elif b in ('expect',):
            self.finish_call(s, args[0])
        elif b in ('umax', 'smax', 'umin', 'smin'):
            x, y = self.tolin(args[0]), self.tolin(args[1])
            c = Cond('ge', x - y)
            tr, fa = self.fork(s, c)
            out = []
            for z in tr:
                self.finish_call(z, x if b[1:] == 'max' else y)
                out.append(('state', z))
            for z in fa:
                self.finish_call(z, y if b[1:] == 'max' else x)
                out.append(('state', z))
            return out
        elif b == 'trap':
            s.status = 'abort'
        elif b == 'stacksave':
            self.finish_call(s, fresh('sp', ptr=True))
        else:
            rt = self.mod.types.resolve(ins.a['rt'])
            self.finish_call(s, None if rt[0] == 'void' else fresh('intr.' + b))
        return [('state', s)]

    def check_overlap(self, s, dst, src, n):
        """memcpy between overlapping ranges is undefined"""
        d = s.norm(dst - src)
        if root_of(dst) is None or root_of(dst) != root_of(src) or s.facts.entails_eq(d):
            return
        for x in (d, -d):           # 0 < x < n
            try:
                z = s.copy()
                z.facts.add_ge(x - 1)
                z.facts.add_ge(n - x - 1)
            except Contradiction:
                continue
            s.violate('memcpy between overlapping ranges at %s' % self.where(s))
            return

    def do_copy(self, s, dst, src, n, ins):
        if dst is UNDEF or src is UNDEF or n is UNDEF:
            return
        n = s.norm(self.tolin(n))
        ev = Event('memcpy', [dst, src, n], None, self.where(s))
        self.emit1(s, ev)
        if self.bounds:
            self.check_access(s, dst, n, 'write', 'memcpy')
            self.check_access(s, src, n, 'read', 'memcpy')
        if 'memcpy' in str(ins.a.get('callee')):
            self.check_overlap(s, dst, src, n)
        if n.isconst() and n.c <= 4096:
            bs = self.const_bytes(src, s)
            if bs is not None:
                s.fill(dst, n, None)
                i = 0
                while i < n.c and i < len(bs):
                    s.store(dst + i, 1, Lin(bs[i]))
                    i += 1
                if b'\0' in bs[:n.c]:
                    d = s.norm(self.tolin(dst))
                    s.ghost[('copyof', d)] = (s.version(s.base(d)[0]), Lin(bs.index(b'\0')))
                return
            g = _gk(src)
            if g == 'in6addr_any':
                s.fill(dst, n, 0)
                return
            if g is not None and self.mod.ginit(g) and self.mod.ginit(g)[0]:
                # constant aggregate: copy leaf by leaf
                gi = self.mod.ginit(g)
                s0 = s.norm(src).c
                s.fill(dst, n, None)
                for o, sz, v in self.const_leaves(s, gi[1], gi[2], 0):
                    if s0 <= o and o + sz <= s0 + n.c:
                        s.store(dst + (o - s0), sz, v)
                return
            k = s.ghost.get(('copyof', s.norm(self.tolin(src))))
            keep = k if k is not None and k[0] == s.version(s.base(s.norm(self.tolin(src)))[0]) else None
            s.copy_range(dst, src, n.c)
            if keep is not None and s.facts.entails_ge(n - s.norm(keep[1]) - 1):
                d = s.norm(self.tolin(dst))
                s.ghost[('copyof', d)] = (s.version(s.base(d)[0]), keep[1])
        else:
            # a whole C string, with its end or onto zeroes
            ln = s.norm(self.cstrlen(self, s, s.norm(self.tolin(src))))
            whole = s.facts.entails_eq(n - ln - 1)
            if not whole and s.facts.entails_eq(n - ln):
                e = s.load(s.norm(self.tolin(dst)) + n, 1)
                whole = isinstance(e, Lin) and s.norm(e) == ZERO
            s.havoc_range(dst, n)
            if whole:
                d = s.norm(self.tolin(dst))
                s.ghost[('copyof', d)] = (s.version(s.base(d)[0]), ln)

    def do_fill(self, s, dst, byte, n, ins):
        if dst is UNDEF or n is UNDEF:
            return
        byte = self.tolin(byte) if byte is not UNDEF else None
        n = s.norm(self.tolin(n))
        ev = Event('memset', [dst, byte, n], None, self.where(s))
        self.emit1(s, ev)
        if self.bounds:
            self.check_access(s, dst, n, 'write', 'memset')
        s.fill(dst, n, (byte.c & 255) if byte is not None and byte.isconst() else None)

    # ------------------------------------------------ exceptions
    def throw(self, s, typ, obj, info=None):
        """start unwinding from the call at the top frame"""
        s.exc = {'type': typ, 'obj': obj, 'sel': ZERO, 'where': self.where(s), 'info': info}
        s.log('throw', typ, s.exc['where'])
        return self.unwind(s, pop=False)

    def unwind(self, s, pop):
        if pop:
            self._pop_frame(s)
        while s.frames:
            fr = s.frames[-1]
            ins = fr.instr()
            if ins.op == 'invoke':
                blk = ins.a['unwind']
                lp = None
                for i in fr.fn.blocks[blk]:
                    if i.op == 'landingpad':
                        lp = i
                        break
                sel = None
                if lp is not None:
                    cleanup, clauses = lp.a
                    for w, (t, v) in clauses:
                        if w != 'catch':
                            continue
                        if v[0] == 'const' or v[0] == 'undef':
                            sel = ONE
                            break
                        tn = v[1] if v[0] == 'global' else None
                        if exc_matches(s.exc['type'], tn):
                            sel = typeid(tn)
                            break
                    if sel is None and cleanup:
                        sel = ZERO
                if sel is not None:
                    s.exc = dict(s.exc, sel=sel)
                    return [('goto', s, blk)]
            if fr.intr is not None and fr.quiet is not True:
                break           # leaves the function of another thread
            self._pop_frame(s)
        s.status = 'throw'
        return [('state', s)]

    def _pop_frame(self, s):
        fr = s.frames.pop()
        for m in self.monitors:
            f = getattr(m, 'on_unwind', None)
            if f:
                f(self, s, fr)
        for b in list(s.mem):
            r = root_of(b)
            if r is not None:
                k = _atoms[r].key
                if k[0] == 'alloca' and k[1] == fr.uid:
                    del s.mem[b]

    # ------------------------------------------------ events
    def emit(self, s, ev):
        """deliver an event; monitors may fork"""
        s.log(ev.name, ev.args, ev.ret, ev.where, ev.info)
        states = [s]
        for m in self.monitors:
            f = getattr(m, 'on_event', None)
            if f is None:
                continue
            nxt = []
            for z in states:
                r = f(self, z, ev)
                nxt.extend([z] if r is None else r)
            states = nxt
        return states

    def emit1(self, s, ev):
        s.log(ev.name, ev.args, ev.ret, ev.where, ev.info)
        for m in self.monitors:
            f = getattr(m, 'on_event', None)
            if f is not None:
                f(self, s, ev)

    def emit_done(self, s, ev):
        for m in self.monitors:
            f = getattr(m, 'on_event_done', None)
            if f is not None:
                f(self, s, ev)

    # ------------------------------------------------ loops
    def run_loop(self, s0):
        """s0 is positioned at the loop header (just entered).  Returns (exit states, terminal states)."""
        import loops
        k = (s0.frames[-1].uid, s0.frames[-1].block)
        self.active.append(k)
        try:
            return loops.run_loop(self, s0)
        finally:
            self.active.remove(k)

    def unroll_k(self, fn, header):
        return self.unroll

    # ------------------------------------------------ memory bounds
    def check_access(self, s, p, n, kind, what):
        """n bytes at p must lie inside the region p points into, if its size is known"""
        if p is UNDEF or n is UNDEF:
            return
        p, n = s.norm(self.tolin(p)), s.norm(self.tolin(n))
        r = root_of(p)
        if r is None:
            return
        self.stats['accesses'] = self.stats.get('accesses', 0) + 1
        if ('freed', r) in s.ghost:
            s.violate('%s touches freed memory at %s' % (what, self.where(s)))
            return
        size = s.sizes.get(r)
        if size is None:
            return
        off = p - Lin(0, ((r, 1),))
        if off.t and any(_atoms[a].ptr for a, _ in off.t):
            return
        if n.isconst() and n.c == 0:
            return
        f = s.facts
        if not f.entails_ge(off):
            s.violate('%s may start %s bytes before its memory at %s' % (what, -off, self.where(s)))
        elif not f.entails_ge(size - off - n):
            s.violate('%s of %s bytes at offset %s may exceed the %s bytes of its memory at %s' % (what, n, off, s.norm(size), self.where(s)))

    def is_lib_lock(self, s, a):
        """the pthread call is made by a C++ standard lock (which only fails on misuse)?"""
        return any('__gthread' in fr.fn.name for fr in s.frames[-2:])

    def global_maps(self):
        """contents of the constant global maps, from the initialisers in the source"""
        if self._gmaps is None:
            self._gmaps = {}
            for name, fn in list(self.mod.funcs.items()):
                if not name.startswith('__cxx_global_var_init'):
                    continue
                fn.parse()
                tgt = None
                for b in fn.blocks.values():
                    for i in b:
                        if i.op in ('call', 'invoke') and i.a['callee'][0] == 'global':
                            d = names.strip(self.mod.dem(i.a['callee'][1]))
                            if d.startswith(('std::unordered_map::unordered_map', 'std::map::map')) and i.a['args'][0][1][0] == 'global':
                                tgt = i.a['args'][0][1][1]
                if tgt is None:
                    continue
                sub = type(self)(self.mod, self.models)
                sub._gmaps = {}
                sub.bounds = False
                for st in sub.run(sub.start(name, [])):
                    if st.status == 'ret':
                        self._gmaps[tgt] = st
        return self._gmaps

    # ------------------------------------------------ entry
    def settings(self, s):
        """the library's size settings: any positive value"""
        for name in sorted(self.mod.globals):
            if 'sysconfig' not in name or not self.mod.dem(name).startswith('cppev::sysconfig::'):
                continue
            g = self.mod.ginit(name)
            if g is None or g[0] or self.mod.types.resolve(g[1])[0] != 'int':
                continue
            p = self.gaddr(name)
            v = atom(('setting', name), lo=1, hi=1 << 20, name=self.mod.dem(name).split('::')[-1])
            s.store(p, self.mod.types.size(g[1]), v)

    def start(self, fname, args, setup=None):
        fn = self.mod.funcs[fname].parse()
        s = State()
        f = Frame(fn, intern_uid(('entry', fname)), 0)
        for p, v in zip(fn.params, args):
            f.env[p] = v
        s.frames.append(f)
        self.stats['functions'].add(fname)
        self.settings(s)
        if setup:
            setup(s)
        return s

    def run(self, s):
        global CUR
        CUR = self
        _, ex, terms = self.explore([s])
        self.stats['states'] += len(terms)
        return terms


class GotoState:
    status = None

    def __init__(self, s, blk):
        self.s, self.blk = s, blk

    @property
    def frames(self):
        return self.s.frames


class Call:
    __slots__ = ('name', 'dem', 'sn', 'args', 'ins')

    def __init__(self, name, dem, sn, args, ins):
        self.name, self.dem, self.sn, self.args, self.ins = name, dem, sn, args, ins


class Event:
    __slots__ = ('name', 'args', 'ret', 'where', 'info')

    def __init__(self, name, args, ret, where, info=None):
        self.name, self.args, self.ret, self.where, self.info = name, args, ret, where, info

    def __repr__(self):
        return '%s(%s)=%s @%s' % (self.name, ', '.join(map(str, self.args)), self.ret, self.where)


CUR = None
note_access = None
PREEMPT = None
_tids = {}


def typeid(name):
    return Lin(_tids.setdefault(name, len(_tids) + 2))


_uids = {}


def intern_uid(t):
    v = _uids.get(t)
    if v is None:
        v = len(_uids) + 1
        _uids[t] = v
    return v


def _gk(p):
    if isinstance(p, Lin) and len(p.t) == 1:
        k = _atoms[p.t[0][0]].key
        if isinstance(k, tuple) and k[0] == 'global':
            return k[1]
    return None


BASES = {
    '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
}


def exc_matches(t, caught):
    return t == caught or caught in BASES.get(t, ())
