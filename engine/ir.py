"""Front end: compile /repo's current sources (and our driver unit, which only instantiates the
header templates) to LLVM IR and give a lazily parsed view of the linked module."""
import os, re, subprocess, sys, tempfile, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.path.abspath(os.environ.get('CPPEV_REPO', '/repo'))
HERE = os.path.dirname(os.path.abspath(__file__))
LLVM = '/usr/lib/llvm-18/bin/'
FLAGS = ['-std=c++17', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-w']


class FrontendError(Exception):
    pass


def sources():
    d = os.path.join(REPO, 'src', 'lib')
    out = []
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith(('.cc', '.cpp', '.cxx', '.c')):
                out.append(os.path.join(root, f))
    return sorted(out)


def build_ll(area):
    """Return the text of the linked module (library + the driver unit of the area)."""
    srcs = sources()
    if not srcs:
        raise FrontendError('no library sources found')
    inc = ['-I' + os.path.join(REPO, 'src', 'include')]
    drv = os.path.join(HERE, 'drv', area + '.cc')
    tmp = tempfile.mkdtemp(prefix='cppev_ir_')
    try:
        jobs = []
        for i, s in enumerate(srcs):
            jobs.append((s, os.path.join(tmp, '%d.bc' % i), []))
        jobs.append((drv, os.path.join(tmp, 'drv.bc'), ['-femit-all-decls', '-I' + os.path.join(HERE, 'drv')]))

        def one(j):
            s, o, extra = j
            return subprocess.run([LLVM + 'clang++'] + FLAGS + extra + inc + ['-c', '-emit-llvm', s, '-o', o],
                                  capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        for j, r in zip(jobs, res):
            if r.returncode != 0:
                raise FrontendError('cannot compile %s:\n%s' % (j[0], r.stderr[:3000]))
        out = os.path.join(tmp, 'all.ll')
        r = subprocess.run([LLVM + 'llvm-link', '-S', '-o', out] + [j[1] for j in jobs], capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontendError('llvm-link: ' + r.stderr[:2000])
        r = subprocess.run([LLVM + 'opt', '-S', '-passes=mem2reg', '-o', out + '2', out], capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontendError('opt: ' + r.stderr[:2000])
        with open(out + '2') as f:
            return f.read(), srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<gl>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<lv>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w.]))
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def unq(s):
    if len(s) > 1 and s[1] == '"':
        return s[2:-1]
    return s[1:]


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, text):
        self.t = [(m.lastgroup, m.group()) for m in TOK.finditer(text)]
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise SyntaxError('expected %r got %r near %r' % (s, x, [y[1] for y in self.t[max(0, self.i - 8):self.i + 8]]))


# ---------------------------------------------------------------- types
class Types:
    def __init__(self):
        self.named = {}      # name -> text
        self.cache = {}

    def parse(self, ts):
        k = ts.kind()
        w = ts.peek()
        if k == 'lv':
            ts.next()
            return ('named', unq(w))
        if w == '[':
            ts.next()
            n = int(ts.next())
            ts.expect('x')
            e = self.parse(ts)
            ts.expect(']')
            return ('arr', n, e)
        if w == '{' or (w == '<' and ts.peek(1) == '{'):
            packed = ts.accept('<')
            ts.expect('{')
            el = []
            while not ts.accept('}'):
                el.append(self.parse(ts))
                ts.accept(',')
            if packed:
                ts.expect('>')
            return ('struct', tuple(el), packed)
        if w == '<':
            ts.next()
            n = int(ts.next())
            ts.expect('x')
            e = self.parse(ts)
            ts.expect('>')
            return ('vec', n, e)
        ts.next()
        if w == 'ptr':
            t = ('ptr',)
        elif w == 'void':
            t = ('void',)
        elif re.fullmatch(r'i\d+', w):
            t = ('int', int(w[1:]))
        elif w in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            t = ('fp', w)
        elif w in ('label', 'metadata', 'token', 'opaque'):
            t = (w,)
        else:
            raise SyntaxError('type? %r' % w)
        # function type
        if ts.peek() == '(' and ts.kind() == 'p':
            # only appears in call instructions / cexprs as fn type
            save = ts.i
            try:
                ts.next()
                args = []
                while not ts.accept(')'):
                    if ts.accept('...'):
                        args.append('...')
                    else:
                        args.append(self.parse(ts))
                    ts.accept(',')
                return ('fn', t, tuple(args))
            except SyntaxError:
                ts.i = save
        return t

    def resolve(self, t):
        while t[0] == 'named':
            n = t[1]
            if n not in self.cache:
                txt = self.named.get(n)
                if txt is None or txt.strip() == 'opaque':
                    self.cache[n] = ('struct', (), False)
                else:
                    self.cache[n] = self.parse(Toks(txt))
            t = self.cache[n]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] + [1])
        return 8

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            a = self.align(t)
            return max(a, (t[1] + 7) // 8) if t[1] <= 64 else ((t[1] + 7) // 8 + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.layout(t)[1]
        return 0

    def layout(self, t):
        t = self.resolve(t)
        key = ('lay', t)
        if key in self.cache:
            return self.cache[key]
        off = 0
        offs = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        self.cache[key] = (offs, off)
        return offs, off


PARAM_ATTRS = set('''noundef nonnull zeroext signext inreg nocapture noalias immarg readonly writeonly readnone returned
nofree nest swiftself swifterror noext nounwind dead_on_unwind writable'''.split())
PAREN_ATTRS = set('align dereferenceable dereferenceable_or_null sret byval inalloca preallocated elementtype byref captures range allocalign memory nofpclass'.split())
CONVS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
         'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast'}


class Instr:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text')

    def __init__(self, op, res, a, dbg, text):
        self.op = op
        self.res = res
        self.a = a
        self.dbg = dbg
        self.text = text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self.text = str(body) if name.startswith('__cxx_global_var_init') else ''
        self.parsed = False

    @property
    def dem(self):
        return self.mod.dem(self.name)

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        m = self.mod
        ts = Toks(self.header)
        # skip to @name(
        while not (ts.kind() == 'gl'):
            ts.next()
        ts.next()
        ts.expect('(')
        self.params = []
        self.ptypes = []
        self.sret = False
        n = 0
        while not ts.accept(')'):
            if ts.accept('...'):
                continue
            t = m.types.parse(ts)
            at = m.skip_attrs(ts)
            if 'sret' in at:
                self.sret = True
            if ts.kind() == 'lv':
                nm = unq(ts.next())
            else:
                nm = str(n)
            self.params.append(nm)
            self.ptypes.append(t)
            n += 1
            ts.accept(',')
        self.blocks = {}
        self.order = []
        cur = None
        # join continuation lines
        lines = self.body
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                mm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
                nm = mm.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
                first = False
                continue
            if first:
                cur = []
                nm = str(len(self.params))
                self.blocks[nm] = cur
                self.order.append(nm)
                first = False
            txt = ln.strip()
            while i < len(lines) and (lines[i].startswith('    ') or lines[i].strip().startswith(']')) and lines[i].strip():
                txt += ' ' + lines[i].strip()
                i += 1
            cur.append(txt)
        for b, ins in self.blocks.items():
            self.blocks[b] = [m.parse_instr(t) for t in ins]
        self.body = None
        self.entry = self.order[0]
        self._cfg()
        return self

    def _cfg(self):
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            s = []
            if t.op == 'br':
                s = [t.a[0]]
            elif t.op == 'condbr':
                s = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a['normal'], t.a['unwind']]
            self.succ[b] = s
        # dominators (iterative)
        order = []
        seen = set()
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self.loops = {h: frozenset(b) for h, b in self.loops.items()}
        self.reach = set(rpo)


class Module:
    def __init__(self, text, srcs):
        self.srcs = srcs
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.gcache = {}
        self.aliases = {}
        self.md = {}
        self._dem = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                nm = unq('@' + mm.group(1))
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = Function(self, nm, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                self.decls[unq('@' + mm.group(1))] = ln
            elif ln.startswith('%'):
                mm = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)$', ln)
                self.types.named[unq('%' + mm.group(1))] = mm.group(2)
            elif ln.startswith('@'):
                mm = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', ln)
                nm = unq('@' + mm.group(1))
                if re.match(r'(?:[\w() ]+ )?alias ', mm.group(2)):
                    al = re.search(r'ptr @("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*$', mm.group(2))
                    if al:
                        self.aliases[nm] = unq('@' + al.group(1))
                else:
                    self.globals[nm] = mm.group(2)
            elif ln.startswith('!'):
                mm = re.match(r'!(\d+) = (.*)$', ln)
                if mm:
                    self.md[int(mm.group(1))] = mm.group(2)
            i += 1
        names = list(self.funcs) + list(self.decls) + list(self.globals)
        r = subprocess.run([LLVM + 'llvm-cxxfilt', '-n'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            self._dem[a] = norm_dem(b)
        self.bydem = {}
        for f in self.funcs:
            self.bydem.setdefault(self._dem[f], []).append(f)

    def dem(self, n):
        return self._dem.get(n, n)

    # -- debug locations
    def loc(self, dbg):
        if dbg is None:
            return '?'
        m = self.md.get(dbg, '')
        line = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: !(\d+)', m)
        f = self._file(int(sc.group(1))) if sc else '?'
        return '%s:%s' % (f, line.group(1) if line else '0')

    def _file(self, n, d=0):
        m = self.md.get(n, '')
        x = re.search(r'file: !(\d+)', m)
        if x:
            y = re.search(r'filename: "([^"]*)"', self.md.get(int(x.group(1)), ''))
            if y:
                fn = y.group(1)
                z = re.search(r'directory: "([^"]*)"', self.md.get(int(x.group(1)), ''))
                if z and not fn.startswith('/'):        # clang shortens names below the directory it runs in
                    fn = os.path.normpath(os.path.join(z.group(1), fn))
                if fn.startswith(REPO + '/'):
                    fn = fn[len(REPO) + 1:]
                return fn
        x = re.search(r'scope: !(\d+)', m)
        if x and d < 40:
            return self._file(int(x.group(1)), d + 1)
        return '?'

    # -- parsing helpers
    def skip_attrs(self, ts):
        got = set()
        while True:
            w = ts.peek()
            k = ts.kind()
            if k == 'word' and w in PARAM_ATTRS:
                got.add(w)
                ts.next()
            elif k == 'word' and w in PAREN_ATTRS:
                got.add(w)
                ts.next()
                if ts.peek() == '(':
                    d = 0
                    while True:
                        x = ts.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif w == 'align':
                    ts.next()
            elif k == 'str' and not w.startswith('c"'):
                ts.next()
                if ts.accept('='):
                    ts.next()
            else:
                return got

    def parse_val(self, t, ts):
        k = ts.kind()
        w = ts.peek()
        if k == 'lv':
            ts.next()
            return ('ssa', unq(w))
        if k == 'gl':
            ts.next()
            return ('global', unq(w))
        if k == 'num':
            ts.next()
            if '.' in w or 'e' in w:
                return ('fconst', float(w))
            if t[0] == 'fp':
                return ('fconst', float(w))
            return ('const', int(w))
        if k == 'hex':
            ts.next()
            if w[2] in 'KLMHR':
                return ('fconst', w)
            import struct
            return ('fconst', struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0])
        if k == 'str':
            ts.next()
            return ('bytes', self._bytes(w))
        if w in ('true', 'false'):
            ts.next()
            return ('const', 1 if w == 'true' else 0)
        if w == 'null':
            ts.next()
            return ('const', 0)
        if w in ('undef', 'poison'):
            ts.next()
            return ('undef',)
        if w == 'zeroinitializer':
            ts.next()
            return ('zero',)
        if w == 'none':
            ts.next()
            return ('undef',)
        if w in ('[', '{', '<'):
            ts.next()
            close = {'[': ']', '{': '}', '<': '>'}[w]
            if w == '<' and ts.peek() == '{':
                ts.next()
                close = '}>'
            el = []
            while True:
                if close == '}>' and ts.peek() == '}':
                    ts.next()
                    ts.expect('>')
                    break
                if ts.peek() == close:
                    ts.next()
                    break
                et = self.types.parse(ts)
                el.append((et, self.parse_val(et, ts)))
                ts.accept(',')
            return ('agg', el)
        if w == 'getelementptr':
            ts.next()
            ts.accept('inbounds')
            ts.expect('(')
            bt = self.types.parse(ts)
            ts.expect(',')
            ops = []
            while True:
                ts.accept('inrange')
                et = self.types.parse(ts)
                ops.append((et, self.parse_val(et, ts)))
                if not ts.accept(','):
                    break
            ts.expect(')')
            return ('cgep', bt, ops)
        if w in CASTS:
            ts.next()
            ts.expect('(')
            et = self.types.parse(ts)
            v = self.parse_val(et, ts)
            ts.expect('to')
            self.types.parse(ts)
            ts.expect(')')
            return v
        if w in CONVS or w in ('icmp', 'select'):
            ts.next()
            d = 0
            while True:
                x = ts.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            return ('opaque', w)
        if w == 'blockaddress' or w == 'dso_local_equivalent' or w == 'no_cfi':
            raise SyntaxError(w)
        raise SyntaxError('value? %r' % w)

    @staticmethod
    def _bytes(w):
        s = w[2:-1] if w.startswith('c') else w[1:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out.extend(s[i].encode())
                i += 1
        return bytes(out)

    def tv(self, ts):
        t = self.types.parse(ts)
        self.skip_attrs(ts)
        return (t, self.parse_val(t, ts))

    def parse_instr(self, text):
        dbg = None
        m = re.search(r', !dbg !(\d+)', text)
        if m:
            dbg = int(m.group(1))
        ts = Toks(text)
        res = None
        if ts.kind() == 'lv' and ts.peek(1) == '=':
            res = unq(ts.next())
            ts.next()
        op = ts.next()
        if op in ('tail', 'musttail', 'notail'):
            op = ts.next()
        a = None
        if op == 'alloca':
            ts.accept('inalloca')
            t = self.types.parse(ts)
            n = None
            if ts.peek() == ',' and ts.peek(1) != 'align' and not (ts.peek(1) or '').startswith('!'):
                ts.next()
                n = self.tv(ts)
            a = (t, n)
        elif op == 'load':
            at = ts.accept('atomic')
            ts.accept('volatile')
            t = self.types.parse(ts)
            ts.expect(',')
            a = (t, self.tv(ts), at)
        elif op == 'store':
            at = ts.accept('atomic')
            ts.accept('volatile')
            v = self.tv(ts)
            ts.expect(',')
            a = (v, self.tv(ts), at)
        elif op == 'getelementptr':
            ts.accept('inbounds')
            bt = self.types.parse(ts)
            ts.expect(',')
            ops = []
            while True:
                ops.append(self.tv(ts))
                if ts.peek() == ',' and not (ts.peek(1) or '').startswith('!'):
                    ts.next()
                else:
                    break
            a = (bt, ops)
        elif op in ('call', 'invoke'):
            while ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc'):
                ts.next()
            self.skip_attrs(ts)
            rt = self.types.parse(ts)
            if rt[0] == 'fn':
                rt = rt[1]
            if ts.peek() == 'asm':
                a = {'rt': rt, 'callee': ('asm',), 'args': [], 'normal': None, 'unwind': None}
            else:
                callee = self.parse_val(('ptr',), ts)
                ts.expect('(')
                args = []
                while not ts.accept(')'):
                    t = self.types.parse(ts)
                    at = self.skip_attrs(ts)
                    if t[0] == 'metadata':
                        d = 0
                        while ts.peek() not in (',', ')') or d:
                            x = ts.next()
                            d += (x == '(') - (x == ')')
                        v = ('undef',)
                    else:
                        v = self.parse_val(t, ts)
                    args.append((t, v))
                    ts.accept(',')
                a = {'rt': rt, 'callee': callee, 'args': args, 'normal': None, 'unwind': None}
                if op == 'invoke':
                    while ts.peek() != 'to':
                        ts.next()
                    ts.expect('to')
                    ts.expect('label')
                    a['normal'] = unq(ts.next())
                    ts.expect('unwind')
                    ts.expect('label')
                    a['unwind'] = unq(ts.next())
        elif op == 'br':
            if ts.accept('label'):
                a = (unq(ts.next()),)
            else:
                c = self.tv(ts)
                ts.expect(',')
                ts.expect('label')
                x = unq(ts.next())
                ts.expect(',')
                ts.expect('label')
                a = (c, x, unq(ts.next()))
                op = 'condbr'
        elif op == 'switch':
            c = self.tv(ts)
            ts.expect(',')
            ts.expect('label')
            d = unq(ts.next())
            ts.expect('[')
            cs = []
            while not ts.accept(']'):
                v = self.tv(ts)
                ts.expect(',')
                ts.expect('label')
                cs.append((v[1][1], unq(ts.next())))
            a = (c, d, cs)
        elif op == 'ret':
            if ts.accept('void'):
                a = None
            else:
                a = self.tv(ts)
        elif op in ('icmp', 'fcmp'):
            while ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                ts.next()
            p = ts.next()
            t = self.types.parse(ts)
            x = self.parse_val(t, ts)
            ts.expect(',')
            y = self.parse_val(t, ts)
            a = (p, t, x, y)
        elif op in CONVS:
            while ts.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                ts.next()
            t = self.types.parse(ts)
            x = self.parse_val(t, ts)
            ts.expect(',')
            y = self.parse_val(t, ts)
            a = (t, x, y)
        elif op == 'fneg':
            while ts.kind() == 'word' and ts.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
                ts.next()
            a = self.tv(ts)
        elif op in CASTS:
            ts.accept('nneg')
            v = self.tv(ts)
            ts.expect('to')
            a = (v, self.types.parse(ts))
        elif op == 'phi':
            t = self.types.parse(ts)
            inc = []
            while ts.accept('['):
                v = self.parse_val(t, ts)
                ts.expect(',')
                inc.append((v, unq(ts.next())))
                ts.expect(']')
                ts.accept(',')
            a = (t, inc)
        elif op == 'select':
            c = self.tv(ts)
            ts.expect(',')
            x = self.tv(ts)
            ts.expect(',')
            a = (c, x, self.tv(ts))
        elif op == 'extractvalue':
            v = self.tv(ts)
            ix = []
            while ts.accept(','):
                if ts.kind() != 'num':
                    break
                ix.append(int(ts.next()))
            a = (v, ix)
        elif op == 'insertvalue':
            v = self.tv(ts)
            ts.expect(',')
            w = self.tv(ts)
            ix = []
            while ts.accept(','):
                if ts.kind() != 'num':
                    break
                ix.append(int(ts.next()))
            a = (v, w, ix)
        elif op == 'landingpad':
            t = self.types.parse(ts)
            cl = []
            cleanup = False
            while ts.peek() in ('cleanup', 'catch', 'filter'):
                w = ts.next()
                if w == 'cleanup':
                    cleanup = True
                else:
                    cl.append((w, self.tv(ts)))
            a = (cleanup, cl)
        elif op == 'resume':
            a = self.tv(ts)
        elif op == 'unreachable':
            a = None
        elif op == 'atomicrmw':
            ts.accept('volatile')
            o = ts.next()
            p = self.tv(ts)
            ts.expect(',')
            a = (o, p, self.tv(ts))
        elif op == 'cmpxchg':
            ts.accept('weak')
            ts.accept('volatile')
            p = self.tv(ts)
            ts.expect(',')
            x = self.tv(ts)
            ts.expect(',')
            a = (p, x, self.tv(ts))
        elif op == 'fence':
            a = None
        elif op == 'freeze':
            a = self.tv(ts)
        elif op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            a = None
        else:
            raise SyntaxError('instr %s' % text)
        return Instr(op, res, a, dbg, text)

    # -- global initialisers: (constant?, type, value) or None
    def ginit(self, name):
        if name in self.gcache:
            return self.gcache[name]
        txt = self.globals.get(name)
        r = None
        if txt is not None:
            ts = Toks(txt)
            const = False
            ext = False
            while ts.kind() in ('word', 'p'):
                w = ts.peek()
                if w == 'constant':
                    const = True
                    ts.next()
                    break
                if w == 'global':
                    ts.next()
                    break
                if w in ('external', 'extern_weak'):
                    ext = True
                ts.next()
            try:
                t = self.types.parse(ts)
                v = None if ext else self.parse_val(t, ts)
                r = (const, t, v)
            except (SyntaxError, IndexError):
                r = None
        self.gcache[name] = r
        return r


def norm_dem(s):
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    s = s.replace('std::__cxx11::', 'std::')
    s = s.replace('[abi:cxx11]', '')
    return s


def load(area):
    text, srcs = build_ll(area)
    return Module(text, srcs)
