"""Value terms (integer linear combinations of atoms) and a conjunctive linear-constraint domain."""
from math import gcd

_atoms = []          # id -> Atom
_index = {}          # key -> id


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'ptr', 'nonnull', 'name', 'region', 'op')

    def __init__(self, i, key):
        self.id = i
        self.key = key
        self.lo = self.hi = None
        self.ptr = False
        self.nonnull = False
        self.region = None      # 'alloca' | 'heap' | 'global' | 'obj' | None
        self.name = None
        self.op = None


def atom(key, lo=None, hi=None, ptr=False, nonnull=False, region=None, name=None):
    i = _index.get(key)
    if i is None:
        i = len(_atoms)
        _index[key] = i
        a = Atom(i, key)
        a.lo, a.hi, a.ptr, a.nonnull, a.region, a.name = lo, hi, ptr, nonnull, region, name
        _atoms.append(a)
    else:
        a = _atoms[i]
        if lo is not None and a.lo is None:
            a.lo = lo
        if ptr:
            a.ptr = True
        if nonnull:
            a.nonnull = True
        if region and not a.region:
            a.region = region
    return Lin(0, ((i, 1),))


_cnt = [0]


def fresh(name, **kw):
    _cnt[0] += 1
    return atom(('fresh', name, _cnt[0]), name=name, **kw)


def A(i):
    return _atoms[i]


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))
    __rmul__ = __mul__

    def isconst(self):
        return not self.t

    def single(self):
        """the atom if this is exactly 1*atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return _atoms[self.t[0][0]]
        return None

    def subst(self, m):
        hit = False
        for a, _ in self.t:
            if a in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, tuple((a, k) for a, k in self.t if a not in m))
        for a, k in self.t:
            if a in m:
                r = r + m[a] * k
        return r

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = aname(a)
            s.append(n if k == 1 else '%d*%s' % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s).replace('+-', '-')


def aname(i):
    a = _atoms[i]
    if a.name:
        return '%s#%d' % (a.name, i)
    k = a.key
    if isinstance(k, tuple):
        if k[0] == 'ld':
            return '*(%s)%s' % (k[1], '' if not k[3] else "'%s" % (k[3],))
        return '%s(%s)' % (k[0], ','.join(map(str, k[1:]))) if len(str(k)) < 160 else '%s..#%d' % (k[0], i)
    return str(k)


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


class Contradiction(Exception):
    pass


def tighten(d, c):
    """sum d[a]*a + c >= 0 with integer atoms"""
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = c // g   # floor
    return d, c


_fm_cache = {}


def fm_infeasible(cons):
    """cons: iterable of Lin >= 0.  True only if definitely infeasible over the integers."""
    key = frozenset(cons)
    if key in _fm_cache:
        return _fm_cache[key]
    r = _fm(key)
    if len(_fm_cache) > 400000:
        _fm_cache.clear()
    _fm_cache[key] = r
    return r


def _fm(key):
    cs = {}
    for l in key:
        if not l.t:
            if l.c < 0:
                return True
            continue
        d, c = tighten(dict(l.t), l.c)
        k = tuple(sorted(d.items()))
        if k not in cs or cs[k] > c:
            cs[k] = c
    # atom bounds
    atoms = set(a for k in cs for a, _ in k)
    for a in atoms:
        at = _atoms[a]
        if at.lo is not None:
            k = ((a, 1),)
            if k not in cs or cs[k] > -at.lo:
                cs[k] = -at.lo
        if at.hi is not None:
            k = ((a, -1),)
            if k not in cs or cs[k] > at.hi:
                cs[k] = at.hi
        if at.nonnull and at.ptr:
            k = ((a, 1),)
            if k not in cs or cs[k] > -4096:
                cs[k] = -4096
    while True:
        if not cs:
            return False
        # quick parallel contradiction
        for k, c in cs.items():
            nk = tuple((a, -x) for a, x in k)
            if nk in cs and c + cs[nk] < 0:
                return True
        pos = {}
        neg = {}
        for k in cs:
            for a, x in k:
                if x > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        best = None
        for a in set(pos) | set(neg):
            p = pos.get(a, 0)
            n = neg.get(a, 0)
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, a)
        a = best[1]
        P, N, R = [], [], {}
        for k, c in cs.items():
            co = 0
            for b, x in k:
                if b == a:
                    co = x
                    break
            if co > 0:
                P.append((k, c, co))
            elif co < 0:
                N.append((k, c, -co))
            else:
                R[k] = c
        if len(P) * len(N) + len(R) > 3000:
            return False
        for k1, c1, x1 in P:
            for k2, c2, x2 in N:
                d = {}
                for b, x in k1:
                    d[b] = x * x2
                for b, x in k2:
                    v = d.get(b, 0) + x * x1
                    if v:
                        d[b] = v
                    else:
                        d.pop(b, None)
                c = c1 * x2 + c2 * x1
                if not d:
                    if c < 0:
                        return True
                    continue
                d, c = tighten(d, c)
                k = tuple(sorted(d.items()))
                if k not in R or R[k] > c:
                    R[k] = c
        cs = R


class Facts:
    __slots__ = ('ge', 'ne', 'eq')

    def __init__(self, ge=frozenset(), ne=frozenset(), eq=None):
        self.ge = ge
        self.ne = ne
        self.eq = eq or {}

    def copy(self):
        return Facts(self.ge, self.ne, dict(self.eq))

    def sig(self):
        return (self.ge, self.ne, frozenset(self.eq.items()))

    def norm(self, l):
        eq = self.eq
        if not eq:
            return l
        while True:
            r = l.subst(eq)
            if r is l:
                return l
            l = r

    # -- component of facts relevant to the atoms of l
    def _component(self, lins):
        atoms = set()
        for l in lins:
            atoms.update(a for a, _ in l.t)
        pool = list(self.ge) + [n for n in self.ne]
        sel = []
        changed = True
        rest = pool
        while changed:
            changed = False
            nr = []
            for p in rest:
                if any(a in atoms for a, _ in p.t):
                    sel.append(p)
                    for a, _ in p.t:
                        if a not in atoms:
                            atoms.add(a)
                            changed = True
                else:
                    nr.append(p)
            if len(nr) != len(rest):
                changed = True
            rest = nr
        return [p for p in sel if p in self.ge], [p for p in sel if p in self.ne]

    def infeasible_with(self, extra):
        ex = []
        for l in extra:
            l = self.norm(l)
            if not l.t:
                if l.c < 0:
                    return True
                continue
            ex.append(l)
        if not ex:
            return False
        ge, ne = self._component(ex)
        base = ge + ex
        if fm_infeasible(base):
            return True
        # disequalities that became tight
        for _ in range(3):
            ch = False
            for n in ne:
                if fm_infeasible(base + [n - 1]) and fm_infeasible(base + [-n - 1]):
                    return True
                if n - 1 not in base and fm_infeasible(base + [-n - 1]):
                    base = base + [n - 1]
                    ch = True
                elif -n - 1 not in base and fm_infeasible(base + [n - 1]):
                    base = base + [-n - 1]
                    ch = True
            if not ch:
                break
            if fm_infeasible(base):
                return True
        return False

    def entails_ge(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        if l in self.ge:
            return True
        return self.infeasible_with([-l - 1])

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        if l in self.ne or -l in self.ne:
            return True
        d = distinct(l)
        if d is not None:
            return d
        return self.infeasible_with([l, -l])

    # mutators; raise Contradiction
    def add_ge(self, l):
        l = self.norm(l)
        if l.t:
            d, c = tighten(dict(l.t), l.c)
            l = Lin(c, tuple(sorted(d.items())))
        if not l.t:
            if l.c < 0:
                raise Contradiction
            return
        if l in self.ge:
            return
        if -l in self.ge:
            self.add_eq(l)
            return
        if self.infeasible_with([l]):
            raise Contradiction
        # drop weaker parallel fact
        ge = self.ge
        for g in list(ge):
            if g.t == l.t and g.c > l.c:
                ge = ge - {g}
            elif g.t == l.t:
                return
        self.ge = ge | {l}
        if self.infeasible_with([l - 1]):
            self.ge = self.ge - {l}
            self.add_eq(l)

    def add_ne(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                raise Contradiction
            return
        d = distinct(l)
        if d is True:
            return
        if l in self.ne or -l in self.ne:
            return
        if self.entails_ge(l):
            self.add_ge(l - 1)
        elif self.entails_ge(-l):
            self.add_ge(-l - 1)
        else:
            self.ne = self.ne | {l}

    def add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                raise Contradiction
            return
        if distinct(l) is True:
            raise Contradiction
        if l in self.ne or -l in self.ne or self.infeasible_with([l, -l]):
            raise Contradiction
        # choose the atom to eliminate: unit coefficient, prefer non-region, newest
        cand = [(a, k) for a, k in l.t if abs(k) == 1 and _atoms[a].region is None]
        if not cand:
            cand = [(a, k) for a, k in l.t if abs(k) == 1]
        if not cand:
            self.ge = self.ge | {l, -l}
            return
        np = [(a, k) for a, k in cand if not (_atoms[a].ptr and _atoms[a].nonnull)]
        a, k = max(np or cand)
        r = (l - Lin(0, ((a, k),))) * (-k)
        # facts carried by the eliminated atom's bounds
        at = _atoms[a]
        extra = []
        if at.lo is not None:
            extra.append(r - at.lo)
        if at.hi is not None:
            extra.append(-r + at.hi)
        m = {a: r}
        self.eq = {x: y.subst(m) for x, y in self.eq.items()}
        self.eq[a] = r
        ge, ne = self.ge, self.ne
        self.ge = frozenset(g for g in ge if not any(b == a for b, _ in g.t))
        self.ne = frozenset(g for g in ne if not any(b == a for b, _ in g.t))
        for g in ge:
            if any(b == a for b, _ in g.t):
                self.add_ge(g)
        for g in ne:
            if any(b == a for b, _ in g.t):
                self.add_ne(g)
        for e in extra:
            self.add_ge(e)


def root_of(l):
    """(pointer atom or None) of an address term: the one pointer atom with coefficient 1"""
    ps = [a for a, k in l.t if k == 1 and _atoms[a].ptr]
    if len(ps) == 1:
        return ps[0]
    if len(ps) > 1:
        return ps[0]
    # fall back: any coefficient-1 atom
    for a, k in l.t:
        if k == 1:
            return a
    return None


def distinct(l):
    """True if l (a difference of addresses) cannot be zero, None if unknown"""
    if not l.t:
        return l.c != 0
    ps = [(a, k) for a, k in l.t if _atoms[a].ptr]
    if len(ps) == 1 and len(l.t) == 1 and ps[0][1] in (1, -1) and _atoms[ps[0][0]].nonnull and -4096 < l.c < 4096:
        return True
    if len(ps) == 2 and len(l.t) == 2 and ps[0][1] + ps[1][1] == 0:
        x, y = _atoms[ps[0][0]], _atoms[ps[1][0]]
        if x.region and y.region:
            return True
    return None
