"""Abstract semantics of the C++ standard library classes that are not interpreted from their own IR."""
from dom import Lin, L, ZERO, ONE, atom, fresh, Contradiction, root_of, _atoms
import interp as IN
from interp import Cond, TRUE, FALSE, Agg, UNDEF, Event, c_and, c_or
from models import same_chars, compared, M, model, newval, event, finish, cname, cstrlen, feasible, Sys

# ---------------------------------------------------------------- std::string


def nn(v):
    if isinstance(v, Lin):
        for a, k in v.t:
            at = _atoms[a]
            if at.lo is None and k == 1 and len(v.t) == 1 and isinstance(at.key, tuple) and at.key[0] == 'ld':
                at.lo = 0
                at.hi = 1 << 40
    return v


def slen(s, o):
    return nn(s.load(s.norm(o) + 8, 8))


def sdata(s, o):
    p = s.load(s.norm(o), 8, ptr=True)
    if isinstance(p, Lin) and len(p.t) == 1:
        at = _atoms[p.t[0][0]]
        if isinstance(at.key, tuple) and at.key[0] == 'ld' and not at.nonnull:
            at.ptr = at.nonnull = True
            if at.region is None:
                at.region = 'strin'
        if at.region == 'strin' and p.t[0][0] not in s.sizes:
            s.sizes[p.t[0][0]] = slen(s, o) + 1
    return p


def content(s, o):
    """pieces of the string object at o"""
    d = sdata(s, o)
    if isinstance(d, Lin) and len(d.t) == 1 and d.c == 0 and d.t[0][0] in s.strs:
        return s.strs[d.t[0][0]]
    if not isinstance(d, Lin):
        return (('o', fresh('str')),)
    n = slen(s, o)
    return norm_pieces(s, ref(s, d, n))


def ref(s, d, n):
    """pieces for n characters at address d"""
    d = s.norm(d)
    b, off = s.base(d)
    r = root_of(b)
    if r is not None and r in s.strs:
        sub = substr_pieces(s, s.strs[r], d - Lin(0, ((r, 1),)), n)
        if sub is not None:
            return sub
    n = s.norm(n)
    if n.isconst() and 0 <= n.c <= 64:
        out = []
        for i in range(n.c):
            v = s.load(d + i, 1)
            out.append(('c', v) if isinstance(v, Lin) else ('o', fresh('ch')))
        return tuple(out)
    return (('r', d, n, s.version(b)),)


def plen(p):
    k = p[0]
    if k == 'c':
        return ONE
    if k == 'r':
        return p[2]
    return None


def substr_pieces(s, pcs, off, n):
    """pieces[off:off+n] if decidable"""
    off, n = s.norm(off), s.norm(n)
    out = []
    pos = ZERO
    f = s.facts
    total = ZERO
    for p in pcs:
        l = plen(p)
        if l is None:
            total = None
            break
        total = total + l
    if off.isconst() and off.c == 0 and total is not None and f.entails_eq(total - n):
        return pcs
    end = off + n
    for p in pcs:
        l = plen(p)
        if l is None:
            return (('sub', pcs, off, n),)
        a, z = pos, pos + l
        pos = z
        if f.entails_ge(off - z) or f.entails_ge(a - end):
            continue
        lo = a if f.entails_ge(a - off) else (off if f.entails_ge(off - a) else None)
        hi = z if f.entails_ge(end - z) else (end if f.entails_ge(z - end) else None)
        if lo is None or hi is None:
            return (('sub', pcs, off, n),)
        if p[0] == 'c':
            out.append(p)
        else:
            out.append(('r', p[1] + (lo - a), s.norm(hi - lo), p[3]))
    return tuple(out)


def norm_pieces(s, pcs):
    out = []
    for p in pcs:
        if p[0] == 'r':
            d, n = s.norm(p[1]), s.norm(p[2])
            if n.isconst() and n.c == 0:
                continue
            if s.facts.entails_eq(n):
                continue
            if n.isconst() and n.c <= 64 and s.version(s.base(d)[0]) == p[3]:
                for i in range(n.c):
                    v = s.load(d + i, 1)
                    out.append(('c', v) if isinstance(v, Lin) else ('o', fresh('ch')))
                continue
            if out and out[-1][0] == 'r' and out[-1][3] == p[3] and s.facts.entails_eq(out[-1][1] + out[-1][2] - d):
                q = out.pop()
                out.append(('r', q[1], s.norm(q[2] + n), p[3]))
                continue
            out.append(('r', d, n, p[3]))
        elif p[0] == 'c':
            out.append(('c', s.norm(p[1])))
        else:
            out.append(p)
    return tuple(out)


def same_content(s, a, b):
    a, b = norm_pieces(s, a), norm_pieces(s, b)
    if a == b:
        return True
    if len(a) != len(b):
        return None
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return None
        if x[0] == 'r' and not (x[3] == y[3] and s.facts.entails_eq(x[1] - y[1]) and s.facts.entails_eq(x[2] - y[2])):
            return None
        if x[0] == 'c' and not s.facts.entails_eq(x[1] - y[1]):
            return False if s.facts.entails_ne(x[1] - y[1]) else None
        if x[0] not in 'rc' and x != y:
            return None
    return True


def pieces_len(s, pcs):
    t = ZERO
    for p in pcs:
        l = plen(p)
        if l is None:
            if p[0] == 'sub':
                l = p[3]
            elif p[0] in ('z', 'o'):
                l = atom(('plen', p), lo=0, hi=1 << 30, name='len')
                if p[0] == 'z':
                    l = atom(('cstrlen', p[1], p[2]), lo=0, hi=1 << 30, name='strlen')
            else:
                l = atom(('plen', p), lo=0, hi=1 << 30, name='len')
        t = t + l
    return s.norm(t)


def put(s, o, pcs, n=None):
    o = s.norm(o)
    n = n if n is not None else pieces_len(s, pcs)
    p = newval(s, 'str', ptr=True, nonnull=True, region='heap')
    s.strs[p.t[0][0]] = tuple(pcs)
    s.sizes[p.t[0][0]] = n + 1
    s.store(o, 8, p)
    s.store(o + 8, 8, n)
    return p


def cpieces(I, s, p):
    p = s.norm(I.tolin(p))
    bs = I.const_bytes(p, s)
    if bs is not None:
        bs = bs.split(b'\0')[0]
        return tuple(('c', Lin(IN.sext(x, 8))) for x in bs)
    b, off = s.base(p)
    r = root_of(b)
    if r is not None and r in s.strs and off == 0 and b.t == ((r, 1),):
        pcs = norm_pieces(s, s.strs[r])
        if all(x[0] == 'c' and s.facts.entails_ne(x[1]) for x in pcs):
            return pcs
        return (('cstr', pcs),)
    # an array with known characters
    out = []
    for i in range(64):
        v = s.load(p + i, 1)
        if not isinstance(v, Lin) or not v.isconst() and not s.facts.entails_ne(v):
            break
        if v.isconst() and v.c == 0:
            return tuple(out)
        out.append(('c', v))
    return (('z', p, s.version(b)),)


def S(*names):
    return model(*['std::string::' + n for n in names])


@S('basic_string', 'assign', 'operator=')
def _str_ctor(I, s, c):
    a = c.args
    this = s.norm(a[0])
    assign = not c.sn.endswith('::basic_string')
    params = c.dem[c.dem.rindex('(') + 1:c.dem.rindex(')')] if '(' in c.dem else ''
    # parameter list by top-level commas
    d = c.dem
    i = d.find('::operator=(') if c.sn.endswith('operator=') else -1
    params = top_params(d)
    ret = this if assign else None
    if not params:
        put(s, this, ())
    elif params[0] in ('std::string const&', 'std::string&&', 'std::string&'):
        src = s.norm(I.tolin(a[1]))
        pcs = content(s, src)
        n = slen(s, src)
        rest = [p for p in params[1:] if 'allocator' not in p]
        if rest:
            return substr_like(I, s, c, this, src, a[2], a[3] if len(rest) > 1 else None, ret)
        if assign and s.facts.entails_eq(src - this):
            I.finish_call(s, ret)
            return None
        put(s, this, pcs, n)
        if params[0] == 'std::string&&':
            put(s, src, ())
    elif params[0] in ('char const*', 'char*'):
        if len(params) > 1 and params[1] in ('unsigned long',):
            n = s.norm(I.tolin(a[2]))
            p = s.norm(I.tolin(a[1]))
            if I.bounds:
                I.check_access(s, p, n, 'read', 'std::string')
            bs = I.const_bytes(p, s)
            if bs is not None and n.isconst():
                put(s, this, tuple(('c', Lin(IN.sext(x, 8))) for x in bs[:n.c]), n)
            else:
                put(s, this, ref(s, p, n), n)
        elif len(params) > 1 and params[1] in ('char const*', 'char*'):
            p = s.norm(I.tolin(a[1]))
            n = s.norm(I.tolin(a[2]) - p)
            if I.bounds:
                I.check_access(s, p, n, 'read', 'std::string')
            put(s, this, ref(s, p, n), n)
        else:
            pcs = cpieces(I, s, a[1])
            n = cstrlen(I, s, s.norm(I.tolin(a[1])))
            s.log('cstring', [s.norm(I.tolin(a[1]))], None, I.where(s))
            put(s, this, pcs, n if pcs and pcs[0][0] != 'c' else None)
    elif params[0] == 'unsigned long':
        n = s.norm(I.tolin(a[1]))
        put(s, this, (('fill', n, s.norm(I.tolin(a[2]))),) if not n.isconst() or n.c > 64 else tuple(('c', s.norm(I.tolin(a[2]))) for _ in range(n.c)), n)
    elif params[0] == 'char':
        put(s, this, (('c', s.norm(I.tolin(a[1]))),))
    elif params[0].startswith('std::initializer_list'):
        p, n = s.norm(I.tolin(a[1])), s.norm(I.tolin(a[2]))
        put(s, this, ref(s, p, n), n)
    elif '__normal_iterator<char' in params[0]:
        p = s.norm(I.tolin(a[1]))
        n = s.norm(I.tolin(a[2]) - p)
        put(s, this, ref(s, p, n), n)
    else:
        return NotImplemented
    I.finish_call(s, ret)


def top_params(d):
    """top-level parameter types of a demangled function"""
    # the last top-level parenthesised group
    depth = 0
    end = d.rfind(')')
    i = end
    while i >= 0:
        ch = d[i]
        if ch == ')':
            depth += 1
        elif ch == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    body = d[i + 1:end]
    out = []
    cur = ''
    k = 0
    for ch in body:
        if ch in '<(':
            k += 1
        elif ch in '>)':
            k -= 1
        if ch == ',' and k == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def substr_like(I, s, c, dst, src, pos, n, ret=None):
    pos = s.norm(I.tolin(pos))
    ln = slen(s, src)
    pcs = content(s, src)
    out = []
    # pos > size: out_of_range   (pos is unsigned)
    ok = c_and(Cond('ge', pos) if not s.facts.entails_ge(pos) else TRUE, Cond('ge', ln - pos))
    good, bad = I.fork(s, ok)
    for z in bad:
        out += I.throw(z, '_ZTISt12out_of_range', newval(z, 'exc', ptr=True, nonnull=True, region='private'))
    for z in good:
        rest = z.norm(ln - pos)
        if n is None:
            variants = [(z, rest)]
        else:
            n1 = z.norm(I.tolin(n))
            if n1.isconst() and n1.c == -1:
                variants = [(z, rest)]
            else:
                # n is unsigned: negative means huge
                neg, nonneg = I.fork(z, Cond('ge', -n1 - 1))
                variants = [(q, q.norm(rest)) for q in neg]
                for q in nonneg:
                    a, b = I.fork(q, Cond('ge', rest - n1))
                    variants += [(w, w.norm(n1)) for w in a] + [(w, w.norm(rest)) for w in b]
        for q, m in variants:
            p = substr_pieces(q, pcs, pos, m)
            put(q, dst, p, m)
            I.finish_call(q, ret)
            out.append(q)
    return out


@S('substr')
def _substr(I, s, c):
    return substr_like(I, s, c, s.norm(c.args[0]), s.norm(c.args[1]), c.args[2], c.args[3])


@S('~basic_string', 'shrink_to_fit')
def _str_dtor(I, s, c):
    I.finish_call(s, None)


@S('reserve')
def _str_reserve(I, s, c):
    # a huge request throws length_error
    if len(c.args) > 1:
        n = s.norm(I.tolin(c.args[1]))
        if s.facts.entails_ge(-n - 1):
            return I.throw(s, '_ZTISt12length_error', newval(s, 'exc', ptr=True, nonnull=True, region='private'))
    I.finish_call(s, None)


@S('c_str', 'data')
def _str_cstr(I, s, c):
    I.finish_call(s, sdata(s, c.args[0]))


@S('size', 'length')
def _str_size(I, s, c):
    I.finish_call(s, slen(s, c.args[0]))


@S('capacity')
def _str_cap(I, s, c):
    I.finish_call(s, newval(s, 'cap', lo=15))


@S('empty')
def _str_empty(I, s, c):
    n = slen(s, c.args[0])
    I.finish_call(s, I.icmp(s, 'eq', ('int', 64), n, ZERO))


@S('clear')
def _str_clear(I, s, c):
    put(s, c.args[0], ())
    I.finish_call(s, None)


@S('operator[]', 'at')
def _str_index(I, s, c):
    i = s.norm(I.tolin(c.args[1]))
    n = slen(s, c.args[0])
    d = sdata(s, c.args[0])
    if c.sn.endswith('at'):
        good, bad = I.fork(s, c_and(Cond('ge', i), Cond('ge', n - i - 1)))
        out = []
        for z in bad:
            out += I.throw(z, '_ZTISt12out_of_range', newval(z, 'exc', ptr=True, nonnull=True, region='private'))
        for z in good:
            I.finish_call(z, sdata(z, c.args[0]) + i)
            out.append(z)
        return out
    if I.bounds:
        if not (s.facts.entails_ge(i) and s.facts.entails_ge(n - i)):
            s.violate('string index may be out of range at %s' % I.where(s))
    I.finish_call(s, d + i)


@S('front')
def _str_front(I, s, c):
    I.finish_call(s, sdata(s, c.args[0]))


@S('back')
def _str_back(I, s, c):
    I.finish_call(s, sdata(s, c.args[0]) + slen(s, c.args[0]) - 1)


@S('begin', 'cbegin')
def _str_begin(I, s, c):
    I.finish_call(s, sdata(s, c.args[0]))


@S('end', 'cend')
def _str_end(I, s, c):
    I.finish_call(s, sdata(s, c.args[0]) + slen(s, c.args[0]))


@S('append', 'operator+=', 'push_back')
def _str_append(I, s, c):
    this = s.norm(c.args[0])
    params = top_params(c.dem)
    cur = content(s, this)
    n0 = slen(s, this)
    a = c.args
    ret = this if not c.sn.endswith('push_back') else None
    if params[0] == 'std::string const&':
        if len(params) > 1:
            return NotImplemented
        add, n = content(s, a[1]), slen(s, a[1])
    elif params[0] == 'char const*':
        if len(params) > 1 and params[1] == 'unsigned long':
            n = s.norm(I.tolin(a[2]))
            bs = I.const_bytes(a[1], s)
            if bs is not None and n.isconst():
                add = tuple(('c', Lin(IN.sext(x, 8))) for x in bs[:n.c])
            else:
                add = ref(s, s.norm(I.tolin(a[1])), n)
        else:
            add = cpieces(I, s, a[1])
            n = cstrlen(I, s, s.norm(I.tolin(a[1])))
            if not add or add[0][0] == 'c':
                n = Lin(len(add))
    elif params[0] == 'char':
        add, n = (('c', s.norm(I.tolin(a[1]))),), ONE
    elif params[0] == 'unsigned long':
        n = s.norm(I.tolin(a[1]))
        add = (('fill', n, s.norm(I.tolin(a[2]))),)
    else:
        return NotImplemented
    put(s, this, norm_pieces(s, cur + add), s.norm(n0 + n))
    I.finish_call(s, ret)


@model('std::operator+')
def _str_plus(I, s, c):
    if 'std::string' not in c.dem:
        return NotImplemented
    params = top_params(c.dem)
    if len(params) != 2 or len(c.args) != 3:
        return NotImplemented
    tot, n = (), ZERO
    for p, v in zip(params, c.args[1:]):
        if p.startswith('std::string'):
            tot = tot + content(s, v)
            n = n + slen(s, v)
        elif p == 'char const*':
            x = cpieces(I, s, v)
            tot = tot + x
            n = n + (Lin(len(x)) if not x or x[0][0] == 'c' else cstrlen(I, s, s.norm(I.tolin(v))))
        elif p == 'char':
            tot = tot + (('c', s.norm(I.tolin(v))),)
            n = n + 1
        else:
            return NotImplemented
    put(s, c.args[0], norm_pieces(s, tot), s.norm(n))
    I.finish_call(s, None)


def streq(s, a, b, na, nb):
    r = same_content(s, a, b)
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    if s.facts.entails_ne(na - nb):
        return FALSE
    x, y = sorted((norm_pieces(s, a), norm_pieces(s, b)), key=repr)
    return Cond('ne', atom(('streq', x, y), lo=0, hi=1, name='streq'))


@model('std::operator==', 'std::operator!=')
def _str_eq(I, s, c):
    params = top_params(c.dem)
    if len(params) != 2 or not any(p == 'std::string const&' for p in params):
        return NotImplemented
    xs = []
    for p, v in zip(params, c.args):
        if p == 'std::string const&':
            xs.append((content(s, v), slen(s, v)))
        elif p == 'char const*':
            pc = cpieces(I, s, v)
            xs.append((pc, Lin(len(pc)) if not pc or pc[0][0] == 'c' else cstrlen(I, s, s.norm(I.tolin(v)))))
        else:
            return NotImplemented
    r = streq(s, xs[0][0], xs[1][0], xs[0][1], xs[1][1])
    I.finish_call(s, r if c.sn.endswith('==') else r.neg())


def plain_chars(s, pcs):
    """the characters of a string whose every character is a value of its own"""
    out = []
    for x in pcs:
        if x[0] != 'c' or len(out) > 64:
            return None
        out.append(s.norm(x[1]))
    return out


def operand(I, s, c, params, k, n_after):
    """characters of a string, C string (with length) or character parameter"""
    p, v = params[k], c.args[k + 1]
    if p == 'std::string const&':
        return plain_chars(s, content(s, v))
    if p == 'char const*':
        xs = plain_chars(s, cpieces(I, s, v))
        if xs is not None and n_after is not None:
            n = s.norm(I.tolin(n_after))
            return xs[:n.c] if n.isconst() and n.c <= len(xs) else None
        return xs
    if p == 'char':
        return [s.norm(I.tolin(v))]
    return None


def cpos(I, s, v, size):
    n = s.norm(I.tolin(v))
    if not n.isconst():
        return None
    return size if n.c < 0 else n.c


@S('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of')
def _str_find(I, s, c):
    r = exact_find(I, s, c)
    if r is not None:
        return r
    z = s.copy()
    n = slen(s, c.args[0])
    v = newval(s, 'find', lo=0)
    I.finish_call(z, Lin(-1))
    try:
        s.facts.add_ge(n - v)
    except Contradiction:
        return [z]
    I.finish_call(s, v)
    s.unknown = s.unknown | {c.sn}
    z.unknown = z.unknown | {c.sn}
    return [s, z]


def exact_find(I, s, c):
    params = top_params(c.dem)
    op = c.sn.split('::')[-1]
    xs = plain_chars(s, content(s, c.args[0]))
    ys = operand(I, s, c, params, 0, c.args[3] if len(params) > 2 else None)
    if xs is None or ys is None:
        return None
    back = op == 'rfind' or 'last' in op
    pos = cpos(I, s, c.args[2], len(xs)) if len(params) > 1 else (len(xs) if back else 0)
    if pos is None:
        return None
    whole = op in ('find', 'rfind')
    m = len(ys) if whole else 1
    at = list(range(min(pos, len(xs) - m), -1, -1)) if back else list(range(pos, len(xs) - m + 1))
    out, rest = [], [s]
    for i in at:
        nxt = []
        for z in rest:
            if whole:
                hit, miss = same_chars(I, z, xs[i:i + m], ys)
                miss = [y[0] for y in miss]
            else:
                hit, miss = [], [z]
                for y in ys:
                    again = []
                    for w in miss:
                        e, d = same_chars(I, w, xs[i:i + 1], [y])
                        hit += e
                        again += [q[0] for q in d]
                    miss = again
                if 'not' in op:
                    hit, miss = miss, hit
            for z in hit:
                I.finish_call(z, Lin(i))
                out.append(z)
            nxt += miss
        rest = nxt
    for z in rest:
        I.finish_call(z, Lin(-1))
        out.append(z)
    return out


@S('compare')
def _str_compare(I, s, c):
    params = top_params(c.dem)
    xs = plain_chars(s, content(s, c.args[0]))
    ys = None
    if xs is not None and params and params[0] == 'unsigned long' and len(params) >= 3:
        pos, n = cpos(I, s, c.args[1], len(xs)), cpos(I, s, c.args[2], len(xs))
        if pos is not None and n is not None and pos <= len(xs):
            ys = operand(I, s, c, params, 2, c.args[4] if len(params) == 4 else None)
            xs = xs[pos:pos + n]
            if len(params) == 5:
                q, k = cpos(I, s, c.args[4], 1 << 20), cpos(I, s, c.args[5], 1 << 20)
                ys = ys[q:q + k] if ys is not None and q is not None and k is not None and q <= len(ys) else None
    elif xs is not None and len(params) == 1:
        ys = operand(I, s, c, params, 0, None)
    if xs is None or ys is None:
        s.unknown = s.unknown | {c.sn}
        I.finish_call(s, newval(s, 'cmp'))
        return
    return compared(I, s, xs, ys, Lin(len(xs) - len(ys)))


def num_pieces(I, s, v):
    v = s.norm(I.tolin(v)) if v is not UNDEF else fresh('undef')
    if v.isconst():
        return tuple(('c', Lin(ord(x))) for x in str(v.c))
    return (('num', v),)


@model('std::to_string')
def _to_string(I, s, c):
    t = top_params(c.dem)
    pcs = num_pieces(I, s, c.args[1]) if t and t[0] in ('int', 'long', 'long long', 'unsigned int', 'unsigned long', 'unsigned long long') else \
        (('num', s.norm(I.tolin(c.args[1])) if c.args[1] is not UNDEF else fresh('undef')),)
    put(s, c.args[0], pcs)
    I.finish_call(s, None)


# ---------------------------------------------------------------- streams
def skey(s, p):
    r = root_of(s.norm(p))
    return ('ss', r)


@model('std::basic_stringstream::basic_stringstream', 'std::basic_ostringstream::basic_ostringstream')
def _ss_ctor(I, s, c):
    s.ghost[skey(s, c.args[0])] = ()
    I.finish_call(s, None)


@model('std::basic_stringstream::~basic_stringstream', 'std::basic_ostringstream::~basic_ostringstream')
def _ss_dtor(I, s, c):
    I.finish_call(s, None)


@model('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def _ss_str(I, s, c):
    pcs = s.ghost.get(skey(s, c.args[1]), (('o', fresh('ss')),))
    put(s, c.args[0], pcs)
    I.finish_call(s, None)


@model('std::operator<<', 'std::ostream::operator<<', 'std::basic_ostream::operator<<')
def _ostream(I, s, c):
    params = top_params(c.dem)
    if c.sn == 'std::operator<<':
        if not params or 'ostream' not in params[0]:
            return NotImplemented
        p = params[1]
    else:
        p = params[0]
    k = skey(s, c.args[0])
    cur = s.ghost.get(k, ())
    v = c.args[1]
    if 'char const*' == p:
        add = cpieces(I, s, v)
    elif p == 'std::string const&':
        add = content(s, v)
    elif p == 'char':
        add = (('c', s.norm(I.tolin(v))),)
    elif '(' in p:
        add = ()
    elif p in ('int', 'long', 'long long', 'short', 'unsigned int', 'unsigned long', 'unsigned long long'):
        add = num_pieces(I, s, v)
    else:
        add = (('num', s.norm(I.tolin(v)) if v is not UNDEF else fresh('undef')),)
    if k[1] is not None:
        s.ghost[k] = cur + add
    I.finish_call(s, s.norm(I.tolin(c.args[0])))


# ---------------------------------------------------------------- std::function
@model('std::function::function', 'std::function::operator=')
def _fn_copy(I, s, c):
    params = top_params(c.dem)
    if len(c.args) == 1:
        this = s.norm(c.args[0])
        for o in (0, 8, 16, 24):
            s.store(this + o, 8, ZERO)
        I.finish_call(s, None)
        return
    p = params[0] if params else ''
    if not p.startswith('std::function<'):
        if c.sn.endswith('operator=') and p == 'std::nullptr_t':
            this = s.norm(c.args[0])
            for o in (0, 8, 16, 24):
                s.store(this + o, 8, ZERO)
            I.finish_call(s, this)
            return
        return NotImplemented
    this, src = s.norm(c.args[0]), s.norm(c.args[1])
    if not s.facts.entails_eq(this - src):
        vals = [s.load(src + o, 8, ptr=o >= 16) for o in (0, 8, 16, 24)]
        for o, v in zip((0, 8, 16, 24), vals):
            s.store(this + o, 8, v)
        if p.endswith('&&'):
            s.store(src + 16, 8, ZERO)
            s.store(src + 24, 8, ZERO)
    I.finish_call(s, this if c.sn.endswith('operator=') else None)


@model('std::function::~function')
def _fn_dtor(I, s, c):
    I.finish_call(s, None)


@model('std::function::operator()')
def _fn_call(I, s, c):
    this = s.norm(c.args[0])
    inv = s.load(this + 24, 8, ptr=True)
    man = s.load(this + 16, 8, ptr=True)
    if isinstance(inv, Lin):
        at = inv.single()
        if at is not None and isinstance(at.key, tuple) and at.key[0] == 'fn':
            return NotImplemented
    if not isinstance(man, Lin):
        s.unknown = s.unknown | {'uninitialised std::function'}
        man = fresh('man', ptr=True)
    out = []
    empty, full = I.fork(s, Cond('eq', man) if man.t else (TRUE if man.c == 0 else FALSE))
    for z in empty:
        out += I.throw(z, '_ZTISt17bad_function_call', newval(z, 'exc', ptr=True, nonnull=True, region='private'))
    for z in full:
        args = [z.norm(I.tolin(a)) if a is not UNDEF else fresh('undef') for a in c.args[1:]]
        ev = Event('usercall', [z.norm(inv) if isinstance(inv, Lin) else fresh('inv')] + args, None, I.where(z),
                   {'fn': this, 'functor': z.load(this, 8), 'inv': inv})
        for q in I.emit(z, ev):
            if q.status is not None:
                out.append(q)
                continue
            if I.usercall_hook:
                outs = I.usercall_hook(I, q, ev)
            else:
                q.havoc_shared(I.user_call)
                outs = [q]
            for w in outs:
                I.emit_done(w, ev)
                rt = I.mod.types.resolve(c.ins.a['rt'])
                I.finish_call(w, None if rt[0] == 'void' else newval(w, 'cbret', lo=0 if rt == ('int', 1) else None, hi=1 if rt == ('int', 1) else None))
                out.append(w)
            if I.usercall_throws:
                w = q.copy()
                out += I.throw(w, 'user', newval(w, 'exc', ptr=True, nonnull=True, region='private'))
    return out


# ---------------------------------------------------------------- threads and condition variables
@model('std::thread::_M_start_thread')
def _thr_start(I, s, c):
    this = s.norm(c.args[0])
    st = s.load(s.norm(c.args[1]), 8, ptr=True) if c.args[1] is not UNDEF else None
    t = newval(s, 'thread', lo=1)
    s.store(this, 8, t)
    s.ghost['thread_state'] = st
    # the state object now belongs to the thread
    s.store(s.norm(c.args[1]), 8, ZERO)
    return event(I, s, 'thread_start', [this], None, {'state': st, 'thread': t})


@model('std::thread::join', 'std::thread::detach')
def _thr_join(I, s, c):
    this = s.norm(c.args[0])
    t = s.load(this, 8)
    s.store(this, 8, ZERO)
    if c.sn.endswith('join') and I.join_hook:
        I.join_hook(I, s, c)
    return event(I, s, c.sn, [this, t if isinstance(t, Lin) else fresh('thr')], None)


@model('std::thread::hardware_concurrency')
def _thr_hw(I, s, c):
    I.finish_call(s, newval(s, 'hw', lo=0))


@model('vf_run_thread')
def _run_thread(I, s, c):
    st = s.ghost.get('thread_state')
    if st is None:
        s.violate('no thread was started')
        I.finish_call(s, None)
        return None
    vt = s.load(st, 8, ptr=True)
    f = I.do_load(s, s.norm(vt) + 16, ('ptr',), c.ins) if isinstance(vt, Lin) else None
    if not isinstance(f, Lin):
        return I.unknown(s, c.name, 'thread body', c.args, c.ins)
    s.log('thread_body', [st], None, '')
    return I.call_ptr(s, f, [st], c.ins)


@model('vf_run_pthread')
def _run_pthread(I, s, c):
    t = s.trace
    while t is not None:
        if t[0][0] == 'pthread_create':
            a = t[0][1]
            s.log('thread_body', a, None, '')
            # void *(*)(void*): the harness declares vf_run_pthread as returning void*
            return I.call_ptr(s, a[2], [a[3]], c.ins)
        t = t[1]
    s.violate('no thread was started')
    I.finish_call(s, ZERO)


def cv_kind(sn):
    return sn.rsplit('::', 1)[1]


@model('std::condition_variable::condition_variable', 'std::condition_variable::~condition_variable',
       'std::_V2::condition_variable_any::condition_variable_any', 'std::_V2::condition_variable_any::~condition_variable_any')
def _cv_ctor(I, s, c):
    I.finish_call(s, None)


@model('std::condition_variable::notify_one', 'std::condition_variable::notify_all',
       'std::_V2::condition_variable_any::notify_one', 'std::_V2::condition_variable_any::notify_all')
def _cv_notify(I, s, c):
    cv = s.norm(c.args[0])
    s.ghost[('notified', cv)] = 1
    return event(I, s, 'cv.' + cv_kind(c.sn), [cv], None, {'held': held(s)})


@model('std::condition_variable::wait', 'std::_V2::condition_variable_any::wait',
       'std::condition_variable::wait_for', 'std::condition_variable::wait_until',
       'std::_V2::condition_variable_any::wait_for', 'std::_V2::condition_variable_any::wait_until')
def _cv_wait(I, s, c):
    k = cv_kind(c.sn)
    if k == 'wait' and len(c.args) != 2 or k != 'wait' and len(c.args) != 3:
        return NotImplemented
    lk = s.norm(c.args[1])
    m = s.load(lk, 8, ptr=True)
    m = m if isinstance(m, Lin) else fresh('m')
    cv = s.norm(c.args[0])

    def done(I, q, val=None):
        rt = I.mod.types.resolve(c.ins.a['rt'])
        I.finish_call(q, None if rt[0] == 'void' else (val if val is not None else newval(q, 'cvstat', lo=0, hi=1)))
    return cond_wait(I, s, 'cv.' + k, cv, m, k != 'wait', done)


def cond_wait(I, s, name, cv, m, timed, done):
    """wait on a condition variable.

    Default: other threads run and anything shared may have changed.  Exact mode (vf_wait): the waiter is
    woken spuriously (when allowed), by its timeout, or by a notification another thread issues meanwhile;
    otherwise it stays blocked, which is a violation where the driver says somebody must wake it."""
    mode = s.ghost.get('wait')
    me = s.ghost.get('tid', 0)
    s.log(name, [cv, m], None, I.where(s), {'held': held(s)})
    k = ('held', m, me)
    if not s.ghost.get(k):
        s.violate('waits on a condition variable without holding its lock at %s' % I.where(s))
    if mode is None:
        s.havoc_shared(I.user_call)
        done(I, s)
        return [s]
    out = []
    had = s.ghost.pop(k, None)
    if me != 0 and mode != 'both':
        return []           # the other thread would block here: that interleaving ends

    def again(I, q, why):
        if any(isinstance(j, tuple) and j[0] == 'held' and j[1] == m and j[2] != me for j in q.ghost):
            raise Contradiction
        q.ghost[k] = had
        q.log('woken: ' + why, [], None, '')
        done(I, q, ZERO if why != 'timeout' else ONE)

    if timed:
        z = s.copy()
        again(I, z, 'timeout')
        out.append(z)
    n = s.ghost.get('spurious', 0)
    if n:
        z = s.copy()
        z.ghost['spurious'] = n - 1
        again(I, z, 'spurious')
        out.append(z)
    g = s.ghost.get(('on', 'wait'))
    if g is not None and g[1] == me:
        z = s.copy()
        z.ghost.pop(('on', 'wait'))
        z.ghost.pop(('notified', cv), None)
        z.log('interference', [], None, I.where(s))
        z.ghost['tid'] = g[2]

        def then(I, q):
            q.ghost['tid'] = me
            if q.ghost.get(('notified', cv)):
                again(I, q, 'notified')
            else:
                stay(I, q)
        I.interrupt(z, g[0], then)
        out.append(z)
    elif not timed:
        z = s.copy()
        stay(I, z)
        out.append(z)
    return out


def stay(I, z):
    if z.ghost.get('mustwake'):
        z.violate('a waiter is never woken at %s' % I.where(z))
    z.status = 'blocked'


@model('vf_wait')
def _vf_wait(I, s, c):
    """exact waiting: vf_wait(spurious wake-ups allowed, somebody must wake the waiter)"""
    s.ghost['wait'] = 'exact'
    s.ghost['spurious'] = s.norm(I.tolin(c.args[0])).c
    s.ghost['mustwake'] = s.norm(I.tolin(c.args[1])).c
    I.finish_call(s, None)


def held(s):
    return tuple(sorted((k[1] for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'held' and v), key=repr))


@model('std::this_thread::sleep_for', 'std::this_thread::sleep_until')
def _sleep(I, s, c):
    if 'vfd_nanosleep' in I.mod.funcs and models_kern(s):
        return NotImplemented
    a = s.norm(c.args[0])
    v = s.load(a, 8)
    return event(I, s, c.sn, [v if isinstance(v, Lin) else fresh('t')], None)


@model('nanosleep', 'clock_nanosleep')
def _nanosleep(I, s, c):
    f = I.mod.funcs.get('vfd_nanosleep')
    if f is not None and models_kern(s):
        return I.push(s, f, c.args, c.ins)      # the driver's clock
    return event(I, s, c.sn, [], ZERO)


@model('std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now')
def _now(I, s, c):
    return event(I, s, 'now', [], newval(s, 'now', lo=0))


def models_kern(s):
    return s.ghost.get('kern')


# promise / future
@model('std::promise::promise', 'std::promise::~promise', 'std::future::~future', 'std::__basic_future::~__basic_future',
       'std::promise::get_future', 'std::future::future', 'std::future::operator=')
def _prom(I, s, c):
    s.log(c.sn, [s.norm(x) if isinstance(x, Lin) else x for x in c.args], None, I.where(s))
    rt = I.mod.types.resolve(c.ins.a['rt'])
    I.finish_call(s, None if rt[0] == 'void' else c.args[0])


@model('std::promise::set_value')
def _prom_set(I, s, c):
    return event(I, s, 'promise.set_value', [s.norm(x) if isinstance(x, Lin) else fresh('x') for x in c.args], None)


@model('std::__basic_future::wait_for', 'std::__basic_future::wait_until')
def _fut_wait(I, s, c):
    out = []
    for v in (0, 1, 2):
        z = s.copy()
        out += event(I, z, 'future.wait_for', [z.norm(x) if isinstance(x, Lin) else fresh('x') for x in c.args], Lin(v))
    return out


@model('std::__basic_future::wait', 'std::future::get', 'std::future::wait')
def _fut_get(I, s, c):
    rt = I.mod.types.resolve(c.ins.a['rt'])
    return event(I, s, 'future.wait', [s.norm(c.args[0])], None if rt[0] == 'void' else newval(s, 'futval', lo=0, hi=1))


# random
@model('std::random_device::random_device', 'std::random_device::~random_device',
       'std::linear_congruential_engine::linear_congruential_engine', 'std::mersenne_twister_engine::mersenne_twister_engine')
def _rand(I, s, c):
    I.finish_call(s, None)


@model('std::random_device::operator()')
def _rand2(I, s, c):
    I.finish_call(s, newval(s, 'rand', lo=0))


@model('std::uniform_int_distribution::operator()')
def _uniform(I, s, c):
    this = s.norm(c.args[0])
    sz = 4 if '<int>' in c.dem or '<unsigned int>' in c.dem else 8
    a, b = s.load(this, sz), s.load(this + sz, sz)
    v = newval(s, 'uniform')
    try:
        if isinstance(a, Lin):
            s.facts.add_ge(v - a)
        if isinstance(b, Lin):
            s.facts.add_ge(b - v)
    except Contradiction:
        return []
    s.rekey()
    I.finish_call(s, v)


# shared_ptr control blocks we know nothing about
@model('std::_Sp_counted_base::_M_release', 'std::_Sp_counted_base::_M_release_last_use', 'std::_Sp_counted_base::_M_release_last_use_cold',
       'std::_Sp_counted_base::_M_weak_release', 'std::_Sp_counted_base::_M_destroy')
def _sp_release(I, s, c):
    this = s.norm(c.args[0])
    vt = s.load(this, 8, ptr=True)
    if IN.is_vtable(vt):
        return NotImplemented
    s.log('sp_release', [this], None, I.where(s))
    I.finish_call(s, None)


@model('std::_Sp_counted_base::_M_add_ref_copy')
def _sp_add(I, s, c):
    this = s.norm(c.args[0])
    vt = s.load(this, 8, ptr=True)
    if IN.is_vtable(vt):
        return NotImplemented
    I.finish_call(s, None)


# ---------------------------------------------------------------- dynamic_cast
def typeinfo(I, name):
    """(kind, [(base ti, offset, virtual)]) of a typeinfo global"""
    gi = I.mod.ginit(name)
    if gi is None or gi[2] is None or gi[2][0] != 'agg':
        return None
    f = gi[2][1]

    def gname(v):
        if v[0] == 'global':
            return v[1]
        return None
    k = repr(f[0])
    if '__vmi_class' in k:
        bases = []
        for i in range(4, len(f), 2):
            b = gname(f[i][1])
            off = f[i + 1][1][1]
            bases.append((b, off >> 8, bool(off & 1)))
        return bases
    if '__si_class' in k:
        return [(gname(f[2][1]), 0, False)]
    return []


def find_base(I, s, ti, want, addr):
    """addresses of base subobjects of type want in an object of type ti at addr"""
    if ti == want:
        return {addr}
    out = set()
    for b, off, virt in typeinfo(I, ti) or []:
        if virt:
            vt = s.load(addr, 8, ptr=True)
            o = I.do_load(s, s.norm(vt) + off, ('int', 64), None)
            if not isinstance(o, Lin) or not o.isconst():
                return set()
            out |= find_base(I, s, b, want, addr + o.c)
        else:
            out |= find_base(I, s, b, want, addr + off)
    return out


@model('__dynamic_cast')
def _dyncast(I, s, c):
    p = s.norm(c.args[0])
    dst = IN._gk(c.args[2])
    vt = s.load(p, 8, ptr=True)
    if IN.is_vtable(vt):
        vt = s.norm(vt)
        top = I.do_load(s, vt - 16, ('int', 64), c.ins)
        ti = I.do_load(s, vt - 8, ('ptr',), c.ins)
        tn = IN._gk(ti) if isinstance(ti, Lin) else None
        if isinstance(top, Lin) and top.isconst() and tn:
            whole = p + top.c
            r = find_base(I, s, tn, dst, whole)
            I.finish_call(s, next(iter(r)) if len(r) == 1 else ZERO)
            return None
    z = s.copy()
    I.finish_call(z, ZERO)
    q = atom(('dyncast', p, dst), ptr=True, nonnull=True)
    I.finish_call(s, q)
    return [s, z]


# ---------------------------------------------------------------- associative containers
def mc_load(s, m):
    """(entries, base) of the container at m; entries: ((keyid, elem address), ...)"""
    if 'race' in s.ghost:
        IN.note_access(IN.CUR, s, m, 8, False, False)
    v = s.load(m, 8)
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
        k = _atoms[v.t[0][0]].key
        if isinstance(k, tuple) and k[0] == 'mapc':
            return k[1], k[2]
    if isinstance(v, Lin) and v.isconst() and v.c == 0:
        return (), None
    return (), v if isinstance(v, Lin) else fresh('mapbase')


def mc_store(s, m, entries, base):
    if 'race' in s.ghost:
        IN.note_access(IN.CUR, s, m, 8, True, False)
    s.store(m, 8, atom(('mapc', tuple(entries), base)))


def ktype(c):
    d = c.dem
    i = max(d.find('unordered_multimap<'), d.find('unordered_map<'), d.find('std::map<'))
    i = d.find('<', i)
    depth = 0
    out = []
    cur = ''
    for ch in d[i:]:
        if ch == '<':
            depth += 1
            if depth == 1:
                continue
        elif ch == '>':
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out


def kinfo(c):
    kt = ktype(c)
    k, v = kt[0], kt[1]
    if 'std::string' in k and k.startswith('std::tuple'):
        return 'tuple', 40
    if k in ('long', 'unsigned long', 'long const'):
        return 'i64', 8
    # value alignment
    v8 = not (v in ('int', 'unsigned int', 'bool', 'cppev::fd_event', 'cppev::family', 'short'))
    return 'i32', 8 if v8 else 4


def keyid(s, p, kind):
    p = s.norm(p)
    if kind == 'i32':
        v = s.load(p, 4)
        return v if isinstance(v, Lin) else fresh('key')
    if kind == 'i64':
        v = s.load(p, 8)
        return v if isinstance(v, Lin) else fresh('key')
    f, i = s.load(p, 4), s.load(p + 4, 4)
    return ('t', f, i, norm_pieces(s, content(s, p + 8)), slen(s, p + 8))


def keyeq(s, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = s.norm(a - b)
        return Cond('eq', d) if d.t else (TRUE if d.c == 0 else FALSE)
    if a == b:
        return TRUE
    c = TRUE
    for x, y in ((a[1], b[1]), (a[2], b[2])):
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = s.norm(x - y)
            c = c_and(c, Cond('eq', d) if d.t else (TRUE if d.c == 0 else FALSE))
        else:
            c = c_and(c, Cond('ne', fresh('k', lo=0, hi=1)))
    return c_and(c, streq(s, a[3], b[3], a[4], b[4]))


UM = ('std::unordered_map', 'std::unordered_multimap', 'std::map', 'std::multimap')


def U(*names):
    return model(*[u + '::' + n for u in UM for n in names])


PLAIN = ('int', 'unsigned int', 'bool', 'long', 'unsigned long', 'short', 'char', 'cppev::fd_event', 'cppev::family', 'cppev::priority')


def copy_elems(I, s, c, m, ents):
    """copies of a map's elements; None when they are not plain values"""
    kind, voff = kinfo(c)
    vt = ktype(c)[1]
    if vt not in PLAIN and not vt.endswith('*'):
        return None
    out = []
    for k, e in ents:
        n = newelem(s, m)
        copy_key(s, n, e, kind)
        s.copy_range(n + voff, e + voff, 8 if vt.endswith('*') or 'long' in vt else 1 if vt in ('bool', 'char') else 4)
        out.append((k, n))
    return out


def uctor(u):
    n = u.rsplit('::', 1)[1]

    @model(u + '::' + n)
    def _ctor(I, s, c):
        this = s.norm(c.args[0])
        params = top_params(c.dem)
        if not params or len(c.args) == 1:
            mc_store(s, this, (), None)
        elif params[0].startswith('std::initializer_list'):
            kind, voff = kinfo(c)
            p, cnt = s.norm(I.tolin(c.args[1])), s.norm(I.tolin(c.args[2]))
            if not cnt.isconst():
                return NotImplemented
            vt = ktype(c)[1]
            size = voff + (4 if voff == 4 else 8)
            ents = []
            for i in range(cnt.c):
                e = newelem(s, this)
                I.do_copy(s, e, p + i * size, Lin(size), c.ins)
                ents.append((keyid(s, e, kind), e))
            mc_store(s, this, ents, None)
        elif params[0].startswith(u) and len(c.args) == 2:
            src = s.norm(c.args[1])
            e, b = mc_load(s, src)
            mc_store(s, this, e, b)
            if params[0].endswith('&&'):
                mc_store(s, src, (), None)
            elif e:
                n = copy_elems(I, s, c, this, e)
                if n is not None:
                    mc_store(s, this, n, b)
                else:
                    s.unknown = s.unknown | {c.sn}
        else:
            mc_store(s, this, (), None)
            if 'unsigned long' not in params[0]:
                s.unknown = s.unknown | {c.sn}
        I.finish_call(s, None)

    @model(u + '::~' + n)
    def _dtor(I, s, c):
        m = s.norm(c.args[0])
        if IN._gk(m) is not None:
            I.finish_call(s, None)
            return
        ents, base = mc_load(s, m)
        mc_store(s, m, (), None)
        destroy(I, s, c, [e for k, e in ents], lambda I, s: I.finish_call(s, None))


for _u in UM:
    uctor(_u)


def newelem(s, m):
    p = newval(s, 'node', ptr=True, nonnull=True, region='heap')
    return p + 8


def gmap(I, s, m):
    """contents of a constant global map"""
    k = IN._gk(m)
    if k is None:
        return None
    g = I.global_maps()
    if k in g:
        if m not in s.mem or 0 not in s.mem[m]:
            src = g[k]
            v = src.load(m, 8)
            s.store(m, 8, v)
            for b, d in src.mem.items():
                r = root_of(b)
                if r is not None and _atoms[r].name == 'node':
                    s.mem.setdefault(b, {}).update(d)
        return True
    return None


def lookup(I, s, m, kid):
    """[(state, elem address or None)]"""
    gmap(I, s, m)
    ents, base = mc_load(s, m)
    out = []
    cur = [s]
    for k, e in ents:
        nxt = []
        for z in cur:
            t, f = I.fork(z, keyeq(z, k, kid))
            out += [(q, e) for q in t]
            nxt += f
        cur = nxt
    for z in cur:
        if base is None:
            out.append((z, None))
            continue
        b = atom(('present', m, base, kid), lo=0, hi=1, name='present')
        t, f = I.fork(z, Cond('ne', b))
        e = atom(('melem', m, base, kid), ptr=True, nonnull=True, region='heap', name='elem') + 8
        for q in t:
            # make the unknown element a known entry
            en, bs = mc_load(q, m)
            mc_store(q, m, en + ((kid, e),), bs)
            out.append((q, e))
        out += [(q, None) for q in f]
    return out


@U('operator[]')
def _m_index(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    kid = keyid(s, c.args[1], kind)
    out = []
    for z, e in lookup(I, s, m, kid):
        if e is None:
            e = newelem(z, m)
            ents, base = mc_load(z, m)
            mc_store(z, m, ents + ((kid, e),), base)
            kk = z.norm(c.args[1])
            copy_key(z, e, kk, kind)
            z.fill(e + voff, Lin(64), 0)
            z.log('map.insert', [m, kid], e, I.where(z))
        I.finish_call(z, e + voff)
        out.append(z)
    return out


def copy_key(z, e, k, kind):
    if kind == 'i32':
        z.store(e, 4, z.load(k, 4))
    elif kind == 'i64':
        z.store(e, 8, z.load(k, 8))
    else:
        z.store(e, 4, z.load(k, 4))
        z.store(e + 4, 4, z.load(k + 4, 4))
        put(z, e + 8, content(z, k + 8), slen(z, k + 8))


@U('at')
def _m_at(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    kid = keyid(s, c.args[1], kind)
    out = []
    for z, e in lookup(I, s, m, kid):
        if e is None:
            out += I.throw(z, '_ZTISt12out_of_range', newval(z, 'exc', ptr=True, nonnull=True, region='private'))
        else:
            I.finish_call(z, e + voff)
            out.append(z)
    return out


@U('count', 'contains')
def _m_count(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    kid = keyid(s, c.args[1], kind)
    out = []
    if 'multimap' in c.sn:
        gmap(I, s, m)
        ents, base = mc_load(s, m)
        cur = [(s, 0)]
        for k, e in ents:
            nxt = []
            for z, n in cur:
                t, f = I.fork(z, keyeq(z, k, kid))
                nxt += [(q, n + 1) for q in t] + [(q, n) for q in f]
            cur = nxt
        for z, n in cur:
            v = Lin(n)
            if base is not None:
                v = v + newval(z, 'count', lo=0)
            I.finish_call(z, v)
            out.append(z)
        return out
    for z, e in lookup(I, s, m, kid):
        I.finish_call(z, ONE if e is not None else ZERO)
        out.append(z)
    return out


@U('find')
def _m_find(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    kid = keyid(s, c.args[1], kind)
    out = []
    for z, e in lookup(I, s, m, kid):
        I.finish_call(z, e - 8 if e is not None else ZERO)
        out.append(z)
    return out


@U('size')
def _m_size(I, s, c):
    m = s.norm(c.args[0])
    ents, base = mc_load(s, m)
    v = Lin(len(ents))
    if base is not None:
        v = v + atom(('msize', base), lo=0, hi=1 << 30, name='msize')
    I.finish_call(s, v)


@U('empty')
def _m_empty(I, s, c):
    m = s.norm(c.args[0])
    ents, base = mc_load(s, m)
    if ents:
        I.finish_call(s, FALSE)
    elif base is None:
        I.finish_call(s, TRUE)
    else:
        I.finish_call(s, Cond('eq', atom(('msize', base), lo=0, hi=1 << 30, name='msize')))


@U('clear')
def _m_clear(I, s, c):
    m = s.norm(c.args[0])
    ents, base = mc_load(s, m)
    mc_store(s, m, (), None)
    I.emit1(s, Event('map.clear', [m], None, I.where(s), {'held': held(s)}))
    destroy(I, s, c, [e for k, e in ents], lambda I, s: I.finish_call(s, None))


@U('swap')
def _m_swap(I, s, c):
    a, b = s.norm(c.args[0]), s.norm(c.args[1])
    x, y = mc_load(s, a), mc_load(s, b)
    mc_store(s, a, *y)
    mc_store(s, b, *x)
    return event(I, s, 'map.swap', [a, b], None, {'held': held(s)})


@U('operator=')
def _m_assign(I, s, c):
    a, b = s.norm(c.args[0]), s.norm(c.args[1])
    y = mc_load(s, b)
    mc_store(s, a, *y)
    if top_params(c.dem)[0].endswith('&&'):
        mc_store(s, b, (), None)
    elif y[0]:
        n = copy_elems(I, s, c, a, y[0])
        if n is not None:
            mc_store(s, a, n, y[1])
        else:
            s.unknown = s.unknown | {c.sn}
    I.emit1(s, Event('map.assign', [a, b], None, I.where(s), {'held': held(s)}))
    I.finish_call(s, a)


@U('emplace', 'insert', 'try_emplace', 'insert_or_assign')
def _m_emplace(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    params = top_params(c.dem)
    method = c.sn.rsplit('::', 1)[1]
    multi = 'multimap' in c.sn
    pair = None
    if method == 'insert' or len(c.args) == 2:
        if len(c.args) != 2:
            return NotImplemented
        pair = s.norm(c.args[1])
        kaddr = pair
    else:
        kaddr = s.norm(c.args[1])
        if len(c.args) != 3:
            return NotImplemented
    kid = keyid(s, kaddr, kind)
    if not multi:
        cands = lookup(I, s, m, kid)
    else:
        gmap(I, s, m)
        cands = [(s, None)]
    out = []
    rt = I.mod.types.resolve(c.ins.a['rt'])
    for z, e in cands:
        new = e is None
        if new:
            e = newelem(z, m)
            ents, base = mc_load(z, m)
            mc_store(z, m, ents + ((kid, e),), base)
        ev = Event('map.insert', [m, kid if isinstance(kid, Lin) else fresh('kid')], e, I.where(z), {'held': held(z), 'kid': kid, 'value': e + voff})
        for q in I.emit(z, ev):
            r = Agg([e - 8, TRUE if new else FALSE]) if rt[0] == 'struct' else e - 8

            def done(I, q, r=r):
                I.finish_call(q, r)
            if new:
                ctor = pair_fn(I, c, pair is not None)
                if ctor is not None:
                    I.run_ir(q, ctor, [e, pair] if pair is not None else [e] + c.args[1:3], done, id(ctor))
                else:
                    copy_key(q, e, kaddr, kind)
                    src = pair + voff if pair is not None else q.norm(c.args[2])
                    q.copy_range(e + voff, src, msize_of(ktype(c)[1]))
                    q.unknown = q.unknown | {c.sn}
                    done(I, q)
            elif method == 'insert_or_assign':
                q.unknown = q.unknown | {c.sn}
                done(I, q)
            else:
                done(I, q)
            out.append(q)
    return out


def msize_of(vt):
    return 4 if vt in ('int', 'unsigned int', 'cppev::fd_event', 'cppev::family') else 8


def reachable(I, name):
    """functions a library function may call, itself included"""
    k = ('reach', name)
    r = I.mod.gcache.get(k)
    if r is None:
        r, work = [], [name]
        seen = {name}
        while work:
            n = work.pop(0)
            fn = I.mod.funcs.get(n)
            if fn is None or (n != name and not I.mod.dem(n).startswith(('std::', 'void std::', '__gnu', 'void __gnu', 'bool std::', 'decltype'))):
                r.append(n)
                continue
            r.append(n)
            fn.parse()
            for b in fn.blocks.values():
                for i in b:
                    if i.op in ('call', 'invoke') and i.a['callee'][0] == 'global':
                        x = I.mod.aliases.get(i.a['callee'][1], i.a['callee'][1])
                        if x not in seen and not x.startswith('llvm.'):
                            seen.add(x)
                            work.append(x)
        I.mod.gcache[k] = r
    return r


def pair_type(c):
    k, v = ktype(c)[:2]
    return 'std::pair<%s const, %s>' % (k, v)


def pair_fn(I, c, whole):
    """the constructor of the stored pair that an insertion ends in"""
    pt = pair_type(c)
    for n in reachable(I, c.name):
        d = I.mod.dem(n)
        if d.startswith(pt + '::pair') and n in I.mod.funcs:
            k = len(I.mod.funcs[n].parse().params)
            if k == (2 if whole else 3):
                return n
    return None


def pair_dtor(I, c):
    pt = pair_type(c)
    for n in reachable(I, c.name):
        if I.mod.dem(n) == pt + '::~pair()' and n in I.mod.funcs:
            return n
    return None


def destroy(I, s, c, elems, then):
    """run the destructors of removed elements, release their nodes"""
    d = pair_dtor(I, c)

    def step(I, s, i):
        if i == len(elems):
            then(I, s)
            return
        e = elems[i]

        def nxt(I, s):
            r = root_of(e)
            if r is not None and _atoms[r].name == 'node':
                s.ghost[('freed', r)] = 1
                s.drop_root(r)
            step(I, s, i + 1)
        if d is None:
            nxt(I, s)
        else:
            I.run_ir(s, d, [e], nxt, i)
    step(I, s, 0)


@U('erase')
def _m_erase(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    params = top_params(c.dem)
    gmap(I, s, m)
    if 'iterator' in params[0]:
        node = s.norm(I.tolin(c.args[1]))
        ents, base = mc_load(s, m)
        nxt = s.load(node, 8, ptr=True)
        left = [(k, e) for k, e in ents if not s.facts.entails_eq(e - 8 - node)]
        if len(left) == len(ents) and base is None and ents:
            s.unknown = s.unknown | {c.sn}
        nb = base
        if len(left) == len(ents) and base is not None:
            nb = atom(('merase', base, node), name='mbase')
        mc_store(s, m, left, nb)
        rt = I.mod.types.resolve(c.ins.a['rt'])
        if not isinstance(nxt, Lin):
            nxt = newval(s, 'next', ptr=True)
        gone = [e for k, e in ents if (k, e) not in left]
        r = nxt if rt[0] != 'void' else None
        out = []
        for q in I.emit(s, Event('map.erase', [m, node], r, I.where(s), {'held': held(s)})):
            destroy(I, q, c, gone, lambda I, q: I.finish_call(q, r))
            out.append(q)
        return out
    kid = keyid(s, c.args[1], kind)
    ents, base = mc_load(s, m)
    cur = [(s, [], [])]
    for k, e in ents:
        nxt = []
        for z, left, n in cur:
            t, f = I.fork(z, keyeq(z, k, kid))
            nxt += [(q, left, n + [e]) for q in t] + [(q, left + [(k, e)], n) for q in f]
        cur = nxt
    out = []
    for z, left, n in cur:
        mc_store(z, m, left, None if base is None else atom(('merasek', base, kid), name='mbase'))
        v = Lin(len(n))
        if base is not None:
            v = v + newval(z, 'erased', lo=0)
        ev = Event('map.erase', [m, kid if isinstance(kid, Lin) else fresh('kid')], v, I.where(z), {'held': held(z), 'kid': kid})
        for q in I.emit(z, ev):
            destroy(I, q, c, n, lambda I, q, v=v: I.finish_call(q, v))
            out.append(q)
    return out


def chain(I, s, elems, end):
    """link the nodes in iteration order"""
    for i, e in enumerate(elems):
        s.store(e - 8, 8, elems[i + 1] - 8 if i + 1 < len(elems) else end)
    return elems[0] - 8 if elems else end


@U('equal_range')
def _m_eqrange(I, s, c):
    m = s.norm(c.args[0])
    kind, voff = kinfo(c)
    kid = keyid(s, c.args[1], kind)
    gmap(I, s, m)
    ents, base = mc_load(s, m)
    cur = [(s, [])]
    for k, e in ents:
        nxt = []
        for z, l in cur:
            t, f = I.fork(z, keyeq(z, k, kid))
            nxt += [(q, l + [e]) for q in t] + [(q, l) for q in f]
        cur = nxt
    out = []
    rt = I.mod.types.resolve(c.ins.a['rt'])
    for z, l in cur:
        end = newval(z, 'rangeend', ptr=True, nonnull=True, region='heap')
        first = chain(I, z, l, end)
        if base is not None:
            z.unknown = z.unknown | {'equal_range of an unknown map'}
        I.emit1(z, Event('map.equal_range', [m, kid if isinstance(kid, Lin) else fresh('kid')], first, I.where(z), {'held': held(z), 'kid': kid}))
        if rt[0] == 'struct':
            I.finish_call(z, Agg([first, end]))
        else:
            # sret
            z.store(z.norm(c.args[0]), 8, first)
            I.finish_call(z, None)
        out.append(z)
    return out


@U('begin', 'cbegin')
def _m_begin(I, s, c):
    m = s.norm(c.args[0])
    gmap(I, s, m)
    ents, base = mc_load(s, m)
    I.emit1(s, Event('map.begin', [m], None, I.where(s), {'held': held(s)}))
    if base is None:
        es = [e for k, e in ents]
        if c.sn.startswith(('std::map', 'std::multimap')):
            es = order(I, s, ents)
            if es is None:
                s.unknown = s.unknown | {'order of std::map keys'}
                es = [e for k, e in ents]
        I.finish_call(s, chain(I, s, es, ZERO))
        return None
    out = []
    z = s.copy()
    try:
        z.facts.add_eq(atom(('msize', base), lo=0, hi=1 << 30, name='msize'))
        z.rekey()
        I.finish_call(z, chain(I, z, [e for k, e in ents], ZERO))
        out.append(z)
    except Contradiction:
        pass
    try:
        s.facts.add_ge(atom(('msize', base), lo=0, hi=1 << 30, name='msize') - 1)
    except Contradiction:
        return out
    n = atom(('mnode', m, base), ptr=True, nonnull=True, region='heap', name='mnode')
    I.finish_call(s, n)
    return out + [s]


def order(I, s, ents):
    l = list(ents)
    for k, e in l:
        if not isinstance(k, Lin):
            return None
    import functools
    bad = []

    def cmp(a, b):
        d = s.norm(a[0] - b[0])
        if s.facts.entails_ge(-d - 1):
            return -1
        if s.facts.entails_ge(d - 1):
            return 1
        bad.append(1)
        return 0
    l.sort(key=functools.cmp_to_key(cmp))
    return None if bad else [e for k, e in l]


@U('end', 'cend')
def _m_end(I, s, c):
    I.finish_call(s, ZERO)


@model('std::_Rb_tree_increment')
def _rb_inc(I, s, c):
    n = s.norm(I.tolin(c.args[0]))
    v = s.load(n, 8, ptr=True)
    I.finish_call(s, v if isinstance(v, Lin) else newval(s, 'next', ptr=True))


@model('std::_Rb_tree_const_iterator::operator->', 'std::_Rb_tree_iterator::operator->',
       'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_iterator::operator*')
def _rb_deref(I, s, c):
    it = s.norm(c.args[0])
    n = s.load(it, 8, ptr=True)
    I.finish_call(s, (n if isinstance(n, Lin) else newval(s, 'n', ptr=True)) + 8)


@model('__gnu_cxx::__is_single_threaded')
def _single(I, s, c):
    I.finish_call(s, FALSE)
