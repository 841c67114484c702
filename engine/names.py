import re
OPS = ['operator<<=', 'operator>>=', 'operator<=>', 'operator->*', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator->', 'operator<', 'operator>', 'operator()']


def strip(d, _c={}):
    """demangled name -> qualified name without return type, template arguments and parameters"""
    if d in _c:
        return _c[d]
    out = []
    depth = 0
    par = 0
    i = 0
    n = len(d)
    s = d
    while i < n:
        c = s[i]
        if c == 'o' and s.startswith('operator', i) and depth == 0 and par == 0:
            for o in OPS:
                if s.startswith(o, i):
                    out.append(o.replace('<', '\x01').replace('>', '\x02').replace('(', '\x03').replace(')', '\x04'))
                    i += len(o)
                    break
            else:
                out.append('operator')
                i += 8
            continue
        if c == '<':
            depth += 1
        elif c == '>' and depth:
            depth -= 1
        elif depth == 0:
            if c == '(':
                if s.startswith('(anonymous namespace)', i):
                    i += len('(anonymous namespace)')
                    out.append('{anon}')
                    continue
                par += 1
                if par == 1:
                    out.append('(')
            elif c == ')':
                par -= 1
                if par == 0:
                    out.append(')')
            elif par == 0:
                out.append(c)
        i += 1
    r = ''.join(out)
    # local entities: f()::'lambda'()::operator()() -> keep everything, drop parens
    r = re.sub(r'\(\)( const)?( &&?)?(?=$|::|\s)', lambda m: '' if m.end() == len(r) else '()', r)
    r = re.sub(r' (const|\[clone [^\]]*\])$', '', r)
    # drop the return type: last space at top level not inside quotes / operator names
    m = re.search(r"operator ", r)
    head, tail = (r[:m.start()], r[m.start():]) if m else (r, '')
    k = head.rfind(' ')
    if k >= 0:
        head = head[k + 1:]
    r = head + tail
    r = r.replace('\x01', '<').replace('\x02', '>').replace('\x03', '(').replace('\x04', ')')
    _c[d] = r
    return r
