"""linear forms of integer terms: {atom: coefficient}, constant"""


def form(t):
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return {}, t[1]
    if t[0] == 'op' and len(t) == 4:
        op = t[1]
        if op in ('+', '-'):
            (a, x), (b, y) = form(t[2]), form(t[3])
            s = 1 if op == '+' else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}, x + s * y
        if op == '*':
            (a, x), (b, y) = form(t[2]), form(t[3])
            if not a or not b:
                if not a:
                    a, x, b, y = b, y, a, x
                return {k: v * y for k, v in a.items() if v * y}, x * y
        if op == '<<':
            b, y = form(t[3])
            if not b and isinstance(y, int) and 0 <= y < 64:
                a, x = form(t[2])
                return {k: v << y for k, v in a.items()}, x * (1 << y)
    if t[0] == 'op' and len(t) == 3 and t[1] == '-':
        a, x = form(t[2])
        return {k: -v for k, v in a.items()}, -x
    return {t: 1}, 0


def same(a, b):
    return form(a) == form(b)


def term(f, k):
    """canonical term of a linear form"""
    t = None
    for a in sorted(f, key=repr):
        m = f[a]
        if not m:
            continue
        x = a if m == 1 else ('op', '*', a, ('c', m))
        t = x if t is None else ('op', '+', t, x)
    if t is None:
        return ('c', k)
    if k:
        t = ('op', '+', t, ('c', k)) if k > 0 else ('op', '-', t, ('c', -k))
    return t


def sub(a, b):
    """a - b as a form"""
    (f, x), (g, y) = form(a), form(b)
    r = dict(f)
    for k, v in g.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}, x - y


def prove_ge0(f, k, ineqs, depth=4):
    """the form f + k >= 0, given that atoms are unsigned and every (g, c) of ineqs satisfies g + c >= 0"""
    neg = [a for a, m in f.items() if m < 0]
    if not neg and k >= 0:
        return True
    if not depth:
        return False
    for g, c in ineqs:
        for a in (neg or list(g)):
            m = g.get(a, 0)
            if neg and m >= 0:
                continue
            if neg:
                if f[a] % m:
                    continue
                q = f[a] // m
            else:
                q = f.get(a, 0) // m if m > 0 and f.get(a, 0) % m == 0 else 0
            if q <= 0:
                continue
            h = dict(f)
            for b, v in g.items():
                h[b] = h.get(b, 0) - q * v
            if prove_ge0({b: v for b, v in h.items() if v}, k - q * c, ineqs, depth - 1):
                return True
    return False


def ineqs(st):
    """recorded orderings of a state as forms that are not negative"""
    out = []
    for k, v in st.facts.items():
        if k[0] == 'lt':
            if v:
                f, c = sub(k[2], k[1])
                out.append((f, c - 1))
            else:
                out.append(sub(k[1], k[2]))
        elif k[0] == 'eq' and v:
            out.append(sub(k[1], k[2]))
            out.append(sub(k[2], k[1]))
        elif k[0] == '=' and v[0] == 'c' and isinstance(v[1], int):
            f, c = form(k[1])
            out.append((f, c - v[1]))
            out.append(({a: -m for a, m in f.items()}, v[1] - c))
    return out
