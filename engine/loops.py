"""Loops: the first iterations are kept as separate trace partitions, then the header state is generalised
until it is inductive (affine relations between the changed cells kept, inequalities kept only if inductive)."""
from dom import Lin, L, ZERO, atom, fresh, Contradiction, root_of, _atoms, Facts
import interp as IN


def deps(a, _c={}):
    """fresh/region atoms a term's atom is built from"""
    r = _c.get(a)
    if r is None:
        out = set()
        k = _atoms[a].key

        def walk(x):
            if isinstance(x, Lin):
                for b, _ in x.t:
                    out.update(deps(b))
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
            elif isinstance(x, IN.Cond):
                walk(x.a)
        if isinstance(k, tuple):
            for y in k[1:]:
                walk(y)
        if not out:
            out.add(a)
        r = _c[a] = frozenset(out)
    return r


def vatoms(v, out):
    if isinstance(v, Lin):
        out.update(a for a, _ in v.t)
    elif isinstance(v, IN.Cond):
        for x in v.a:
            vatoms(x, out)
    elif isinstance(v, IN.Agg):
        for x in v.v:
            vatoms(x, out)
    elif isinstance(v, (tuple, list, frozenset)):
        for x in v:
            vatoms(x, out)


def live(s, skip=frozenset()):
    out = set()
    n = s.norm
    for fr in s.frames:
        for v in fr.env.values():
            vatoms(n(v) if isinstance(v, Lin) else v, out)
    for b, d in s.mem.items():
        vatoms(b, out)
        for sz, v in d.values():
            vatoms(n(v) if isinstance(v, Lin) else v, out)
    for v in s.ghost.values():
        vatoms(n(v) if isinstance(v, Lin) else v, out)
    for k, v in s.sizes.items():
        vatoms(n(v), out)
    for v in s.strs.values():
        vatoms(v, out)
    if s.exc:
        vatoms(tuple(x for x in s.exc.values() if isinstance(x, (Lin, tuple))), out)
    base = set()
    for a in out:
        base |= deps(a)
        base.add(a)
    return base


def project(s):
    """facts of s that can still matter"""
    lv = live(s)

    def islive(a):
        return a in lv or all(d in lv for d in deps(a))
    facts = [('g', f) for f in s.facts.ge] + [('n', f) for f in s.facts.ne]
    keep = set()
    atoms = set()
    rest = []
    for k, f in facts:
        if any(islive(a) for a, _ in f.t):
            keep.add((k, f))
            atoms.update(a for a, _ in f.t)
        else:
            rest.append((k, f))
    ch = True
    while ch:
        ch = False
        nr = []
        for k, f in rest:
            if any(a in atoms for a, _ in f.t):
                keep.add((k, f))
                atoms.update(a for a, _ in f.t)
                ch = True
            else:
                nr.append((k, f))
        rest = nr
    eq = frozenset((a, l) for a, l in s.facts.eq.items() if islive(a))
    return frozenset(keep), eq


def memsig(s):
    n = s.norm
    return frozenset((b, o, sz, n(v) if isinstance(v, Lin) else v) for b, d in s.mem.items() for o, (sz, v) in d.items())


def loop_env(fr, scope):
    """environment of the loop's frame without values recomputed in the loop"""
    defs = fr.fn.__dict__.get('_ldefs') if hasattr(fr.fn, '__dict__') else None
    return fr.env


_ld = {}


def loop_defs(fn, header, blocks):
    k = (id(fn), header)
    r = _ld.get(k)
    if r is None:
        r = set()
        for b in blocks:
            for i in fn.blocks[b]:
                if i.res is not None and not (b == header and i.op == 'phi'):
                    r.add(i.res)
        _ld[k] = r
    return r


def clean(s, scope):
    fr = s.frames[scope.depth]
    d = loop_defs(fr.fn, scope.header, scope.blocks)
    for k in [k for k in fr.env if k in d]:
        del fr.env[k]
    return s


def sig(s):
    n = s.norm
    env = tuple(frozenset((k, n(v) if isinstance(v, Lin) else v) for k, v in fr.env.items()) for fr in s.frames)
    g = frozenset((k, n(v) if isinstance(v, Lin) else v) for k, v in s.ghost.items())
    f, eq = project(s)
    return (env, memsig(s), frozenset(s.fills.items()), frozenset(s.ver.items()), s.epoch, f, eq, g,
            s.exc and s.exc['type'], s.viol, s.unknown, s.widened)


def just_parked(e, scope):
    """left the loop only because its thread waits inside"""
    if len(e.frames) > scope.depth or 'parked' not in e.ghost:
        return False
    n, t = 0, e.trace
    while t is not None:
        n, t = n + 1, t[1]
    return e.ghost['parked'] == n


def run_loop(I, s0):
    fr = s0.frames[-1]
    header = fr.block
    scope = IN.Scope(len(s0.frames) - 1, fr.uid, header, fr.fn.loops[header])
    I.stats['loops'] += 1
    exits, terms = [], []
    clean(s0, scope)
    frontier = [s0]
    seen = {sig(s0)}
    k = 0
    K = I.unroll_k(fr.fn, header)
    u = s0.ghost.get('unroll')          # the driver's environment is finite: its loops are followed to the end
    if isinstance(u, Lin):
        K = max(K, u.c)
    while frontier:
        back = []
        decided = True
        for z in frontier:
            bk, ex, tm = I.explore([z], scope)
            exits += ex
            terms += tm
            back += bk
            if bk and any(not just_parked(e, scope) for e in ex):
                decided = False
        nxt = []
        for b in back:
            clean(b, scope)
            g = sig(b)
            if g in seen:
                continue
            seen.add(g)
            nxt.append(b)
        frontier = nxt
        k += 1
        if not frontier:
            return exits, terms
        concrete = decided and len(frontier) <= 600
        if k >= I.max_unroll or (k >= K and not concrete):
            break
    # generalise what is left
    I.stats['fixpoints'] += 1
    if not I.widen:
        I.stats['cut'] = I.stats.get('cut', 0) + len(frontier)
        return exits, terms
    ex, tm = generalise(I, frontier, scope)
    return exits + ex, terms + tm


# ---------------------------------------------------------------- generalisation
class Gen:
    __slots__ = ('base', 'samples', 'state', 'rel', 'rounds', 'dead', 'cands', 'facts', 'opaque', 'roots', 'sigs', 'id', 'nback', 'syms')


_gid = [0]


def dsig(s):
    g = frozenset((k, v) for k, v in s.ghost.items() if not isinstance(v, Lin))
    return (g, s.exc and s.exc['type'], bool(s.viol), tuple(fr.block for fr in s.frames))


def cells(s):
    """numeric cells of a state: key -> Lin"""
    out = {}
    for b, d in s.mem.items():
        for o, (sz, v) in d.items():
            out[('m', b, o, sz)] = s.norm(v) if isinstance(v, Lin) else v
    for i, fr in enumerate(s.frames):
        for k, v in fr.env.items():
            out[('e', i, k)] = s.norm(v) if isinstance(v, Lin) else v
    for k, v in s.ghost.items():
        if isinstance(v, Lin):
            out[('g', k)] = s.norm(v)
    return out


def get_cell(s, key):
    if key[0] == 'm':
        v = s.load(key[1] + key[2], key[3])
        return v
    if key[0] == 'e':
        v = s.frames[key[1]].env.get(key[2])
        return s.norm(v) if isinstance(v, Lin) else v
    v = s.ghost.get(key[1], ZERO)
    return s.norm(v) if isinstance(v, Lin) else v


def set_cell(s, key, v):
    if key[0] == 'm':
        s.mem.setdefault(key[1], {})[key[2]] = (key[3], v)
    elif key[0] == 'e':
        s.frames[key[1]].env[key[2]] = v
    else:
        s.ghost[key[1]] = v


def ratio(dl, dc):
    """k with dc == k*dl for all samples, or None"""
    k = None
    for x, y in zip(dl, dc):
        if not x.t and x.c == 0:
            if y.t or y.c:
                return None
            continue
        # find a coefficient
        if x.c:
            num, den = y.c, x.c
        else:
            a, den = x.t[0]
            num = dict(y.t).get(a, 0)
        if num % den:
            return None
        q = num // den
        if x * q != y:
            return None
        if k is None:
            k = q
        elif k != q:
            return None
    return k


def build(G):
    """the generalised header state from base and samples"""
    base = G.base
    st = base.copy()
    changed = []
    for s in G.samples:
        for c in s['delta']:
            if c not in changed:
                changed.append(c)
    leaders = []
    rel = {}
    opaque = set(G.opaque)
    for c in changed:
        ds = [s['delta'].get(c, ZERO) for s in G.samples]
        if c in opaque or any(d is None for d in ds) or any(_atoms[a].ptr for d in ds for a, _ in d.t):
            opaque.add(c)
            continue
        best = None
        for lc, lds in leaders:
            k = ratio(lds, ds)
            if k is not None:
                best = (lc, k)
                break
        if best is None:
            leaders.append((c, ds))
            best = (c, 1)
        rel[c] = best
    G.opaque = opaque
    G.rel = rel
    G.syms = {}
    for lc, _ in leaders:
        G.syms[lc] = atom(('S', G.id, str(lc)), name='S%d' % G.id)
    for c in opaque:
        v = get_cell(base, c)
        if c[0] == 'm' and c not in cells(base):
            continue
        if isinstance(v, Lin):
            isp = any(_atoms[a].ptr for a, _ in v.t)
            set_cell(st, c, atom(('W', G.id, str(c)), ptr=isp, name='W%d' % G.id))
        elif c[0] == 'm':
            st.mem.get(c[1], {}).pop(c[2], None)
        else:
            set_cell(st, c, None)
    for c, (lc, k) in rel.items():
        v = get_cell(base, c)
        set_cell(st, c, v + G.syms[lc] * k)
    for key in G.dead:
        d = st.mem.get(key[1])
        if d and key[2] in d:
            del d[key[2]]
    for r in G.roots:
        st.ver[r] = ('w', G.id)
        for k in list(st.fills):
            if root_of(k) == r:
                del st.fills[k]
    if G.facts is not None:
        f = Facts()
        for kind, l in G.facts:
            try:
                f.add_ge(l) if kind == 'g' else (f.add_ne(l) if kind == 'n' else f.add_eq(l))
            except Contradiction:
                pass
        st.facts = f
    for c in G.cands:
        try:
            st.facts.add_ge(c)
        except Contradiction:
            pass
    st.rekey()
    st.widened = True
    G.state = st
    return st


def allfacts(f):
    return [('g', x) for x in f.ge] + [('n', x) for x in f.ne] + [('e', atom_lin(a) - l) for a, l in f.eq.items()]


def atom_lin(a):
    return Lin(0, ((a, 1),))


def entailed(f, kind, l):
    return f.entails_ge(l) if kind == 'g' else (f.entails_ne(l) if kind == 'n' else f.entails_eq(l))


def sample(G, b):
    """delta of b against the base; also notes dead cells and changed roots"""
    cb, ch = cells(G.base), cells(b)
    ball = live(G.base)
    delta = {}
    for c, v in cb.items():
        if c in ch:
            w = ch[c]
        elif c[0] == 'm':
            if c in G.dead:
                continue
            G.dead.add(c)
            continue
        else:
            w = None if c[0] == 'e' else ZERO
        if v == w:
            continue
        if isinstance(v, Lin) and isinstance(w, Lin):
            delta[c] = w - v
        else:
            delta[c] = None
    for c, w in ch.items():
        if c in cb:
            continue
        if c[0] == 'm':
            at = set()
            vatoms(c[1], at)
            if not all(a in ball or all(d in ball for d in deps(a)) for a in at):
                r = root_of(c[1])
                if r is not None and r in ball:
                    G.roots.add(r)
                continue
            if root_of(c[1]) is not None and _atoms[root_of(c[1])].region == 'alloca':
                fu = _atoms[root_of(c[1])].key[1]
                if not any(fr.uid == fu for fr in G.base.frames):
                    continue
            v = G.base.load(c[1] + c[2], c[3])
            if v == w:
                continue
            delta[c] = (w - v) if isinstance(v, Lin) and isinstance(w, Lin) else None
        elif c[0] == 'g':
            delta[c] = w
        else:
            delta[c] = None
    for r in set(G.base.ver) | set(b.ver):
        if G.base.ver.get(r) != b.ver.get(r) and b.ver.get(r) != ('w', G.id):
            G.roots.add(r)
    for k in set(G.base.fills) | set(b.fills):
        if G.base.fills.get(k) != b.fills.get(k):
            r = root_of(k)
            if r is not None:
                G.roots.add(r)
    return delta


def covers(G, b):
    """is b an instance of G.state?  returns True, or a reason to widen"""
    delta = sample(G, b)
    nd, nr = len(G.dead), len(G.roots)
    for c in delta:
        if c not in G.rel and c not in G.opaque:
            return delta
    # leaders determine the symbols
    m = {}
    for lc, sym in G.syms.items():
        d = delta.get(lc, ZERO)
        if d is None:
            return delta
        m[sym.t[0][0]] = d
    for c, (lc, k) in G.rel.items():
        d = delta.get(c, ZERO)
        if d is None or (lc in G.syms and not b.facts.entails_eq(d - m[G.syms[lc].t[0][0]] * k)):
            return delta
    return m


def inst(l, m):
    """l with the symbols replaced simultaneously"""
    r = Lin(l.c, tuple((a, k) for a, k in l.t if a not in m))
    for a, k in l.t:
        if a in m:
            r = r + m[a] * k
    return r


def generalise(I, frontier, scope):
    gens = {}
    work = [(s, None) for s in frontier]
    rounds = 0
    while work:
        rounds += 1
        if rounds > 300 or len(gens) > 24:
            I.stats['giveup'] = I.stats.get('giveup', 0) + 1
            return [], []
        s, _ = work.pop()
        key = dsig(s)
        G = gens.get(key)
        changed = False
        if G is None:
            G = Gen()
            _gid[0] += 1
            G.id = _gid[0]
            G.base = s
            G.samples = []
            G.dead = set()
            G.roots = set()
            G.opaque = set()
            G.cands = set()
            G.facts = None
            G.rounds = 0
            G.rel = {}
            G.syms = {}
            gens[key] = G
            build(G)
            changed = True
        else:
            nd, nr = len(G.dead), len(G.roots)
            c = covers(G, s)
            m = None
            if isinstance(c, dict) and all(isinstance(k, int) for k in c) and (c or not G.syms):
                # c maps symbols (possibly empty when nothing is generalised)
                delta = sample(G, s)
                if all(k in G.rel or k in G.opaque for k in delta):
                    m = c
            if m is None:
                G.samples.append({'delta': sample(G, s)})
                G.rounds += 1
                if G.rounds > 6:
                    for k in list(G.samples[-1]['delta']):
                        G.opaque.add(k)
                changed = True
                m = None
            if len(G.dead) != nd or len(G.roots) != nr:
                changed = True
            # facts of the base that b does not have
            cur = allfacts(G.base.facts) if G.facts is None else G.facts
            kept = [(k, l) for k, l in cur if entailed(s.facts, k, l)]
            if len(kept) != len(cur):
                G.facts = kept
                changed = True
            if changed:
                old = set(G.syms)
                build(G)
                if m is None:
                    # candidates: inequalities true at the base (symbols = 0) and in this sample
                    seeds = set(G.cands)
                    for sym in G.syms.values():
                        seeds |= {sym, -sym}
                    for l in I.cond_terms:
                        for x in (l, -l):
                            seeds |= {x, x + 1, x - 1}
                    inv = live(G.base)
                    sy = {x.t[0][0] for x in G.syms.values()}
                    zero = {a: ZERO for a in sy}
                    mm = {}
                    d = G.samples[-1]['delta']
                    for lc, sym in G.syms.items():
                        mm[sym.t[0][0]] = d.get(lc, ZERO)
                    good = set()
                    for x in seeds:
                        at = {a for a, _ in x.t}
                        if not (at & sy) or not all(a in sy or a in inv for a in at):
                            continue
                        if G.base.facts.entails_ge(inst(x, zero)) and s.facts.entails_ge(inst(x, mm)):
                            good.add(x)
                    G.cands = good
                    build(G)
            if m is not None:
                bad = {x for x in G.cands if not s.facts.entails_ge(inst(x, m))}
                if bad:
                    G.cands -= bad
                    build(G)
                    changed = True
        if changed:
            back, ex, tm = I.explore([G.state.copy()], scope)
            for b in back:
                clean(b, scope)
                work.append((b, key))
    exits, terms = [], []
    for G in gens.values():
        back, ex, tm = I.explore([G.state.copy()], scope)
        exits += ex
        terms += tm
    return exits, terms
