"""Structural rules: compile-time witnesses and queries over the declarations and the IR of the library."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import ir

RULES = {}
HERE = os.path.dirname(os.path.abspath(__file__))


def rule(f):
    RULES[f.__name__] = f
    return f


def run(mod, name, r):
    t0 = time.time()
    r['instances'] = {}
    RULES[name](mod, r)
    r['paths'] = r['exact_paths'] = r['assert_evals'] = len(r['instances'])
    r['asserts'] = sorted(r['instances'])
    r['time'] = time.time() - t0
    return r


def viol(r, msg, *where):
    r['viol'].append({'msg': msg, 'paths': 1, 'trace': list(where)})


def inc():
    return os.path.join(ir.REPO, 'src', 'include')


def headers():
    d = inc()
    return sorted(os.path.relpath(p, d) for p in glob.glob(d + '/**/*.h*', recursive=True))


def clang(text, *flags):
    p = subprocess.run([ir.LLVM + 'clang++', '-std=c++17', '-x', 'c++', '-', '-I' + inc(), '-w', '-ferror-limit=0',
                        '-fno-caret-diagnostics'] + list(flags), input=text, capture_output=True, text=True)
    return p


def errors(p):
    return [x for x in p.stderr.splitlines() if ' error: ' in x]


# ------------------------------------------------------------------ types
@rule
def ownership(mod, r):
    """Compile-time witnesses of engine/wit/ownership.cc: one static_assert per type and operation.  A failing assertion is the
    violation; a type that is gone leaves its lines undecided."""
    with open(os.path.join(HERE, 'wit', 'ownership.cc')) as f:
        src = f.read().splitlines()
    head = [x for x in src if not x.startswith('W(')]
    wit = [x for x in src if x.startswith('W(')]
    text = '\n'.join(head + wit) + '\n'
    p = clang(text, '-fsyntax-only')
    bad = {}
    for e in errors(p):
        m = re.match(r'<stdin>:(\d+):\d+: error: (.*)', e)
        n = int(m.group(1)) - 1 - len(head) if m else -1
        if n < 0:
            r['gaveup'] = 'the witnesses do not compile: ' + e[:300]
            return
        bad.setdefault(n, []).append(m.group(2))
    for i, w in enumerate(wit):
        q = re.search(r'"(.*)"', w).group(1)
        if i not in bad:
            r['instances'][q] = 'holds'
        elif all('static assertion failed' in b for b in bad[i]):
            r['instances'][q] = 'broken'
            viol(r, q + ': no longer holds', *bad[i])
        else:
            r['instances'][q] = 'undecided'
            r['undecided'][q + ': ' + bad[i][0]] = 1


# ------------------------------------------------------------------ headers
@rule
def self_sufficient(mod, r):
    """Each public header compiles alone, after and before every other one, twice, and with the debug option."""
    hs = headers()
    jobs = []
    for h in hs:
        rest = [x for x in hs if x != h]
        one = '#include "%s"\n' % h
        jobs.append((h + ' alone', one, []))
        jobs.append((h + ' twice', one + one, []))
        jobs.append((h + ' before all others', one + ''.join('#include "%s"\n' % x for x in rest), []))
        jobs.append((h + ' after all others', ''.join('#include "%s"\n' % x for x in reversed(rest)) + one, []))

    def go(j):
        return clang(j[1], '-fsyntax-only', *j[2])
    with ThreadPoolExecutor(8) as ex:
        for j, p in zip(jobs, ex.map(go, jobs)):
            r['instances'][j[0]] = p.returncode == 0
            if p.returncode:
                viol(r, 'header does not compile: ' + j[0], *errors(p)[:5])


@rule
def one_header(mod, r):
    """cppev.h brings in every public header."""
    hs = headers()
    main = [h for h in hs if os.path.basename(h) == 'cppev.h']
    if not main:
        r['gaveup'] = 'no cppev.h'
        return
    p = clang('#include "%s"\n' % main[0], '-M', '-MT', 'x')
    got = set(os.path.realpath(x) for x in p.stdout.replace('\\\n', ' ').split()[1:])
    for h in hs:
        ok = os.path.realpath(os.path.join(inc(), h)) in got
        r['instances']['cppev.h includes ' + h] = ok
        if not ok:
            viol(r, 'cppev.h does not include ' + h, main[0])


@rule
def no_strong_definitions(mod, r):
    """No header defines a function or variable that two translation units could not share."""
    text = ''.join('#include "%s"\n' % h for h in headers())
    p = clang(text, '-O0', '-S', '-emit-llvm', '-femit-all-decls', '-o', '-')
    if p.returncode:
        r['gaveup'] = 'the headers do not compile together'
        return
    weak = ('internal', 'private', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'available_externally', 'external', 'extern_weak', 'common',
            'appending')
    n = 0
    for line in p.stdout.splitlines():
        m = re.match(r'(define)\s+(.*?)@("?[\w.$]+"?)\(|(@"?[\w.$]+"?) = (.*)', line)
        if not m:
            continue
        n += 1
        words = (m.group(2) or m.group(5)).split()
        if words and any(w in weak for w in words[:3]):
            continue
        viol(r, 'a header defines %s, which two translation units then define twice' % (m.group(3) or m.group(4)), line[:200])
    r['instances']['%d definitions of the headers can be shared' % n] = True


def walk(d, path, ns, out):
    k = d.get('kind')
    for x in d.get('inner', ()) or ():
        kk = x.get('kind')
        if kk in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            out.append((path, x))
        elif kk in ('CXXRecordDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
            walk(x, path + [x.get('name', '')], ns, out)


@rule
def declared_is_defined(mod, r):
    """Every operation a public header declares without a body has a definition in the library."""
    text = ''.join('#include "%s"\n' % h for h in headers())
    p = clang(text, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=cppev')
    if p.returncode:
        r['gaveup'] = 'the headers do not compile together'
        return
    docs = []
    dec = json.JSONDecoder()
    s = p.stdout
    i = 0
    while i < len(s):
        j = s.find('{', i)
        if j < 0:
            break
        d, i = dec.raw_decode(s, j)
        docs.append(d)
    decls = []
    for d in docs:
        if d.get('kind') == 'NamespaceDecl' and d.get('name') == 'cppev':
            walk(d, [], None, decls)
    body = set()
    for path, x in decls:
        if any(y.get('kind') == 'CompoundStmt' for y in x.get('inner', ()) or ()):
            body.add(x.get('mangledName'))
    seen = set()
    for path, x in decls:
        mn = x.get('mangledName')
        if not mn or mn in seen or mn in body or x.get('isImplicit') or x.get('explicitlyDeleted') or x.get('explicitlyDefaulted') or x.get('pure'):
            continue
        if x.get('previousDecl'):
            continue
        seen.add(mn)
        name = '::'.join([q for q in path if q] + [x.get('name', '')]) + ' ' + x.get('type', {}).get('qualType', '')
        alt = [mn, mn.replace('C1E', 'C2E').replace('D1E', 'D2E')]
        ok = any(mod_has_body(mod, a) for a in alt)
        r['instances']['defined: ' + name] = ok
        if not ok:
            viol(r, 'declared in a public header but defined nowhere: ' + name, mn)
    if len(seen) < 10:
        r['gaveup'] = 'only %d declarations found' % len(seen)


def mod_has_body(mod, name):
    f = mod.funcs.get(name)
    return f is not None and not re.match(r'define\s+(?:dso_local\s+)?(internal|private|linkonce|weak_odr|available_externally)', f.header)


@rule
def instantiable(mod, r):
    """Every template of the headers compiles when it is used (engine/wit/templates.cc, one line per template)."""
    with open(os.path.join(HERE, 'wit', 'templates.cc')) as f:
        src = f.read().splitlines()
    head = [x for x in src if not x.startswith('T(')]
    jobs = []
    for w in src:
        m = re.match(r'T\("(.*?)"\) (.*)', w)
        if m:
            jobs.append((m.group(1), '\n'.join(head + [m.group(2)]) + '\n'))
    jobs.append(('', '\n'.join(head) + '\n'))

    def go(j):
        return clang(j[1], '-fsyntax-only')
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, [jobs[-1]] + jobs[:-1]))
    if res[0].returncode:
        r['gaveup'] = 'the headers do not compile together'
        return
    for j, p in zip(jobs[:-1], res[1:]):
        es = errors(p)
        r['instances']['can be used: ' + j[0]] = not es
        # an error at the use itself means the interface changed; one inside the header means it does not compile
        inside = [e for e in es if not e.startswith('<stdin>')]
        if inside:
            viol(r, 'does not compile when used: ' + j[0], *inside[:3])
        elif es:
            r['undecided']['%s: %s' % (j[0], es[0])] = 1
