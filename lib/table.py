"""Constant tables and the functions that look names up: strings are known exactly (('s', text)) or by their beginning
(('pre', text): text followed by anything); lookups in tables with constant entries and string comparisons are decided on that."""
import re
import flow, cont, spec, fx
from flow import C, ZERO

OPEN = 'pre'


def const(prog, nodes, i, depth=0):
    """constant denoted by an initialiser, or None"""
    if i is None or i < 0 or depth > 12:
        return None
    n = nodes[i]
    k = n['k']
    if k == 'StringLiteral':
        return ('s', n.get('s', ''))
    if n.get('v') is not None and not isinstance(n['v'], str):
        return C(int(n['v']))
    if k == 'DeclRefExpr' and n.get('dk') == 'global':
        g = prog.globals.get(n['d'])
        if g is not None:
            if 'v' in g:
                return C(g['v'])
            if 'root' in g:
                return const(prog, g['nodes'], g['root'], depth + 1)
        return None
    ch = [c for c in (n.get('c') or n.get('args') or ()) if c is not None and c >= 0]
    if k == 'CallExpr' and str(n.get('fn', '')).split('::')[-1].split('<')[0] in ('to_integer', 'to_underlying') and n.get('args'):
        return const(prog, nodes, n['args'][0], depth + 1)
    if k == 'UnaryOperator' and n.get('op') == '-' and ch:
        v = const(prog, nodes, ch[0], depth + 1)
        return C(-v[1]) if v and v[0] == 'c' else None
    if k in flow.CASTS or k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'UserDefinedLiteral'):
        if len(ch) >= 1:
            vs = [const(prog, nodes, c, depth + 1) for c in ch]
            vs = [v for v in vs if v is not None]
            if len(vs) == 1:
                return vs[0]
            if len(ch) == 2 and len(vs) == 2 and vs[0][0] == 's' and vs[1][0] == 'c' and 'basic_string' in str(n.get('cls', '')) + n.get('t', ''):
                return ('s', vs[0][1][:vs[1][1]])
            if len(ch) > 1 and vs and vs[0][0] == 's':
                return vs[0]
        return None
    return None


def entries(prog, g):
    """[(key, value)] of a table whose entries are constants; value None for a set; None if g is no such table"""
    if g is None or 'root' not in g:
        return None
    nodes = g['nodes']

    def lists(i, d=0):
        if i is None or i < 0 or d > 6:
            return None
        n = nodes[i]
        ch = [c for c in (n.get('c') or n.get('args') or ()) if c is not None and c >= 0]
        if n['k'] == 'InitListExpr' and len(ch) > 1 or n['k'] == 'InitListExpr' and ch and nodes[ch[0]]['k'] in ('InitListExpr', 'CXXConstructExpr') and len(nodes[ch[0]].get('c') or nodes[ch[0]].get('args') or ()) > 1:
            return ch
        for c in ch[:1]:
            r = lists(c, d + 1)
            if r:
                return r
        return None
    ch = lists(g['root'])
    if not ch:
        return None
    out = []
    for c in ch:
        n = nodes[c]
        while n['k'] not in ('CXXConstructExpr', 'InitListExpr', 'CXXTemporaryObjectExpr') and len(n.get('c') or ()) == 1 and n['c'][0] >= 0:
            n = nodes[n['c'][0]]
        sub = [x for x in (n.get('c') or n.get('args') or ()) if x is not None and x >= 0]
        if len(sub) == 2 and n['k'] != 'StringLiteral':
            k, v = const(prog, nodes, sub[0]), const(prog, nodes, sub[1])
            out.append((k, v if v is not None else ('?',)))
        else:
            out.append((const(prog, nodes, c), None))
    return out


def is_str(v):
    return v[0] in ('s', OPEN)


TOLOWER = ('tolower',)
LOWER = ('makeLowerCase', 'convertToLowerCase')
UPPER = ('makeUpperCase', 'convertToUpperCase')


INF = ('inf',)


class Names:
    """hook for spec.check(called=...): decides string operations and lookups in constant tables"""

    def __init__(self, prog):
        self.prog = prog
        self.t = {}
        self.used = set()
        self.root = None
        self.depth = 0

    def table(self, loc, fr=None):
        if loc[0] == 'g':
            n = loc[1]
        elif loc[0] == 'v':
            n = loc[1]
            if n not in self.t:
                self.t[n] = self.local(fr, n) if fr is not None else None
            return self.t[n]
        else:
            return None
        if n not in self.t:
            g = self.prog.globals.get(n)
            e = None
            if g is None and fr is not None:
                e = self.local(fr, n)
            if g is not None and (g.get('const') or g.get('cx')) and not g['t'].startswith(('const std::basic_string', 'const char')):
                e = entries(self.prog, g)
            self.t[n] = e
        return self.t[n]

    def off(self, it, v):
        if it[2] == 'begin':
            return 0
        if it[2] == 'end':
            return INF
        return it[3] if it[2] == 'at' and 0 <= it[3] <= len(v[1]) else None

    def local(self, fr, d):
        """table kept in a constant local variable, perhaps filled by a function that only returns it"""
        while fr is not None:
            for n in fr.fn.nodes:
                if n['k'] != 'DeclStmt':
                    continue
                for v in n.get('vars', ()):
                    if v['d'] == d and v['t'].startswith('const ') and cont.STDC.match(v['t']) or v['d'] == d and 'frozen::' in v['t']:
                        nodes, i = fr.fn.nodes, v.get('init', -1)
                        for _ in range(6):
                            if i is None or i < 0:
                                return None
                            m = nodes[i]
                            ch = [c for c in (m.get('c') or m.get('args') or ()) if c is not None and c >= 0]
                            if m['k'] == 'CallExpr' and m.get('fu') in self.prog.funcs:
                                f = self.prog.funcs[m['fu']]
                                r = [x for x in f.nodes if x['k'] == 'ReturnStmt']
                                if len(r) != 1 or [x for x in f.nodes if x['k'] in ('IfStmt', 'ForStmt', 'WhileStmt')]:
                                    return None
                                nodes, i = f.nodes, r[0]['c'][0]
                                continue
                            if m['k'] in ('CXXStdInitializerListExpr', 'InitListExpr') or len(ch) != 1 and m['k'] != 'CXXConstructExpr':
                                break
                            if m['k'] == 'CXXConstructExpr' and not ch:
                                break
                            i = ch[0]
                        return entries(self.prog, {'root': i, 'nodes': nodes})
            fr = fr.caller
        return None

    def hit(self, rule, eng, st, loc, key, val, tag):
        it = ('it', loc, ('key', tag))
        base = ('d', it)
        if key is not None:
            eng.write(st, cont.fld(base, 'first'), key)
            eng.write(st, cont.fld(('d', ('ptr', it)), 'first'), key)
        if val is not None and val[0] != '?':
            eng.write(st, cont.fld(base, 'second'), val)
        self.used.add(loc[1])
        return it

    def lookup(self, rule, eng, st, fr, loc, k):
        """[(state, entry or None)]"""
        es = self.table(loc, fr)
        if k[0] in ('s', 'c'):
            if any(kk is None for kk, v in es):
                sure = False
            else:
                sure = True
            for kk, v in es:
                if kk == k:
                    return [(st, (kk, v))]
            if sure:
                return [(st, None)]
            s2 = st.copy()
            return [(st, None), (s2, ('?', ('?',)))]
        if k[0] == OPEN:
            out = [(st.copy(), (kk, v)) for kk, v in es if kk is not None and kk[0] == 's' and kk[1].startswith(k[1])]
            return [(s, e) for s, e in out] + [(st, None)]
        return None

    def __call__(self, rule, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        short = name.split('::')[-1]
        args = [a for a in args if a is not None and a >= 0]
        if self.root is not None and n.get('fu') == self.root.u and self.depth < 3:
            vals = [eng.ev(st, fr, a) for a in args]
            if vals and all(is_str(v) or v[0] == 'c' for v in vals):
                h = Names(self.prog)
                h.t, h.depth = self.t, self.depth + 1
                out, _ = results(self.prog, self.root, dict(enumerate(vals)), h)
                rets = []
                for v, x in out:
                    if v not in rets:
                        rets.append(v)
                return [(st.copy(), v if v is not None else ('h', (fr.id, i, 'rec'), ZERO)) for v in rets]
            return None
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and n.get('cls', '').startswith('std::basic_string') and args:
            vals = [const_text(eng.ev(st, fr, a)) for a in args if fr.fn.nodes[a]['k'] != 'CXXDefaultArgExpr']
            if vals and is_str(vals[0]) and (len(vals) == 1 or vals[1][0] in ('k', 'h')):
                return [(st, vals[0])]
            return None
        # free functions on strings
        if short in LOWER + UPPER and args:
            f = str.lower if short in LOWER else str.upper
            if short.startswith('make'):
                l = eng.lv(st, fr, args[0])
                v = eng.read(st, l)
                if is_str(v):
                    eng.write(st, l, (v[0], f(v[1])))
                    return [(st, ZERO)]
            else:
                v = eng.ev(st, fr, args[0])
                if is_str(v):
                    return [(st, (v[0], f(v[1])))]
            return None
        if name.startswith('std::') and short == 'transform' and len(args) == 4:
            a, b, d, fv = [eng.ev(st, fr, x) for x in args[:3]] + [self.fname(fr, args[3])]
            if a[0] == b[0] == d[0] == 'sit' and a[1] == b[1]:
                v, w = eng.read(st, a[1]), eng.read(st, d[1])
                if is_str(v) and is_str(w) and ('tolower' in fv or 'toupper' in fv):
                    p, q, r = [self.off(x, y) for x, y in ((a, v), (b, v), (d, w))]
                    if None in (p, q, r) or q is not INF and w[0] != 's' and v[0] != 's':
                        return None
                    if p == r == 0 and q is INF and (w == v or w[0] == 's' and len(w[1]) == len(v[1])):
                        t = (v[0], v[1])
                        new = (v[0], v[1].lower() if 'tolower' in fv else v[1].upper())
                    elif w[0] == v[0] == 's':
                        part = v[1][p:len(v[1]) if q is INF else q]
                        new = ('s', w[1][:r] + (part.lower() if 'tolower' in fv else part.upper()) + w[1][r + len(part):])
                    else:
                        return None
                    eng.write(st, d[1], new)
                    return [(st, d)]
            return None
        if name.startswith('std::') and short == 'remove' and len(args) == 3:
            a, b, c = [eng.ev(st, fr, x) for x in args]
            if a[0] == b[0] == 'sit' and a[2] == 'begin' and b[2] == 'end' and c[0] == 'c':
                return [(st, ('sit', a[1], 'rest', chr(c[1])))]
            return None
        if name == 'std::erase' and len(args) == 2:
            l = eng.lv(st, fr, args[0])
            v, c = eng.read(st, l), eng.ev(st, fr, args[1])
            if is_str(v) and c[0] == 'c':
                eng.write(st, l, (v[0], v[1].replace(chr(c[1]), '')))
                return [(st, ZERO)]
            return None
        if n['k'] == 'CXXOperatorCallExpr' and n.get('op') in ('+', '-', '+=', '-=', '++', '--') and 'normal_iterator' in n.get('t', ''):
            ops = list(args) if obj is None or obj < 0 else [obj] + [a for a in args if a != obj]
            a = eng.ev(st, fr, ops[0])
            c = eng.ev(st, fr, ops[1]) if n['op'] in '+-' and len(ops) > 1 else None
            if a[0] == 'sit' and a[2] in ('begin', 'at') and c is not None and c[0] == 'c':
                return [(st, ('sit', a[1], 'at', (a[3] if a[2] == 'at' else 0) + (c[1] if n['op'] == '+' else -c[1])))]
            if a[0] == 'sit':
                return [(st, ('?it', i))]
        if n['k'] == 'CXXOperatorCallExpr':
            ops = list(args) if obj is None or obj < 0 else [obj] + [a for a in args if a != obj]
            op = n.get('op')
            if op in ('==', '!=') and len(ops) == 2:
                a, b = eng.ev(st, fr, ops[0]), eng.ev(st, fr, ops[1])
                if is_str(a) and is_str(b):
                    r = self.equal(eng, st, fr, ops, a, b)
                    if r is not None:
                        return [(s, C(1 if e == (op == '==') else 0)) for s, e in r]
                return None
            if op == '[]' and len(ops) == 2:
                loc = eng.lv(st, fr, ops[0])
                if loc[0] in ('g', 'v') and self.table(loc, fr) is not None:
                    return None
                v, k = eng.read(st, loc), eng.ev(st, fr, ops[1])
                if is_str(v) and k[0] == 'c' and 0 <= k[1] < len(v[1]):
                    return [(st, C(ord(v[1][k[1]])))]
                return None
            if op == '=':
                return None
        if obj is None or obj < 0 or n['k'] not in ('CXXMemberCallExpr',):
            return None
        loc = rule.objloc(eng, st, fr, obj)
        if loc[0] in ('g', 'v') and self.table(loc, fr) is not None:
            if short in ('find', 'at', 'count', 'contains') and args:
                k = eng.ev(st, fr, args[0])
                r = self.lookup(rule, eng, st, fr, loc, k)
                if r is None:
                    # an unknown key: the answer is some entry
                    return None
                out = []
                for s, e in r:
                    if short == 'find':
                        out.append((s, ('end', loc) if e is None else self.hit(rule, eng, s, loc, e[0], e[1], e[0])))
                    elif short == 'at':
                        if e is not None:
                            it = self.hit(rule, eng, s, loc, e[0], e[1], e[0])
                            out.append((s, ('L', cont.fld(('d', it), 'second'))))
                    else:
                        out.append((s, C(0 if e is None else 1)))
                return out
            if short in ('end', 'cend'):
                return [(st, ('end', loc))]
            return None
        v = eng.read(st, loc)
        if not is_str(v):
            return None
        return self.method(rule, eng, st, fr, short, loc, v, args)

    def fname(self, fr, a):
        out = ''
        for j in fr.fn.walk(a) if hasattr(fr.fn, 'walk') else ():
            m = fr.fn.nodes[j]
            if m['k'] == 'DeclRefExpr':
                out += ' ' + str(m.get('n'))
            if m['k'] == 'LambdaExpr':
                for u in m['fns']:
                    f = self.prog.funcs.get(u)
                    if f:
                        out += ' ' + ' '.join(str(x.get('fn', x.get('n', ''))) for x in f.nodes)
        return out

    def equal(self, eng, st, fr, ops, a, b):
        if a[0] == 's' and b[0] == 's':
            return [(st, a[1] == b[1])]
        if b[0] == OPEN:
            a, b, ops = b, a, ops[::-1]
        if b[0] == OPEN:
            return None
        if not b[1].startswith(a[1]):
            return [(st, False)]
        s2 = st.copy()
        self.learn(eng, s2, fr, ops[0], b)
        return [(s2, True), (st, False)]

    def learn(self, eng, st, fr, o, v):
        try:
            l = eng.lv(st, fr, o)
        except Exception:
            return
        if eng.read(st, l)[0] == OPEN:
            eng.write(st, l, v)

    def method(self, rule, eng, st, fr, short, loc, v, args):
        t, op = v[1], v[0] == OPEN
        vals = [eng.ev(st, fr, a) for a in args]
        num = [x[1] if x[0] == 'c' else None for x in vals]
        if short == 'empty':
            if t or not op:
                return [(st, C(0 if t else 1))]
            return None
        if short in ('size', 'length') and not op:
            return [(st, C(len(t)))]
        if short == 'front' and t:
            return [(st, C(ord(t[0])))]
        if short == 'back' and t and not op:
            return [(st, C(ord(t[-1])))]
        if short == 'back' and t and op:
            # the last character may be an underscore, or anything else
            s2 = st.copy()
            return [(st, C(ord('_'))), (s2, C(0))]
        if short == 'remove_suffix' and op and num[0] == 1:
            return [(st, ZERO)]
        if short in ('operator[]', 'at') and num and num[0] is not None and num[0] < len(t):
            return [(st, C(ord(t[num[0]])))]
        if short in ('begin', 'cbegin', 'end', 'cend'):
            return [(st, ('sit', loc, 'begin' if short.endswith('begin') else 'end'))]
        if short in ('data', 'c_str') and not op:
            return [(st, v)]
        if short == 'erase' and len(vals) == 2 and vals[0][0] == 'sit' and vals[0][2] == 'rest' and vals[0][1] == loc:
            eng.write(st, loc, (v[0], v[1].replace(vals[0][3], '')))
            return [(st, ZERO)]
        if short == 'remove_suffix' and num[0] is not None and not op and num[0] <= len(t):
            eng.write(st, loc, ('s', t[:len(t) - num[0]]))
            return [(st, ZERO)]
        if short == 'pop_back' and not op and t:
            eng.write(st, loc, ('s', t[:-1]))
            return [(st, ZERO)]
        if short == 'remove_prefix' and num[0] is not None and num[0] <= len(t):
            eng.write(st, loc, (v[0], t[num[0]:]))
            return [(st, ZERO)]
        if short == 'substr' and (not num or num[0] is not None):
            b = num[0] if num else 0
            if b > len(t):
                return None
            if len(vals) < 2 or vals[1] == C(-1) or vals[1] == C(2**64 - 1) or num[1] is None:
                if len(vals) >= 2 and num[1] is None:
                    return None
                return [(st, (v[0], t[b:]))]
            if not op or b + num[1] <= len(t):
                return [(st, ('s', t[b:b + num[1]]))]
            return None
        if short in ('compare', 'starts_with', 'ends_with'):
            pos, cnt, lit = 0, None, None
            if short == 'compare' and len(vals) >= 3:
                pos, cnt, lit = num[0], num[1], vals[2]
                if pos is None or cnt is None or len(vals) > 3:
                    return None
            elif len(vals) == 1:
                lit = vals[0]
            if lit is None:
                return None
            if lit[0] == 'c' and short == 'starts_with':
                lit = ('s', chr(lit[1]))
            if lit[0] == 'c' and short == 'ends_with':
                lit = ('s', chr(lit[1]))
            if lit[0] != 's':
                return None
            if short == 'ends_with':
                return [(st, C(1 if t.endswith(lit[1]) else 0))] if not op else None
            if short == 'starts_with':
                cnt = len(lit[1])
                r = self.prefix(eng, st, fr, loc, v, lit[1], cnt, pos)
                return [(s, C(1 if e else 0)) for s, e in r] if r is not None else None
            if cnt is None:
                if not op:
                    return [(st, C((t > lit[1]) - (t < lit[1])))]
                return None
            r = self.prefix(eng, st, fr, loc, v, lit[1], cnt, pos)
            return [(s, C(0 if e else 1)) for s, e in r] if r is not None else None
        if short in ('find', 'rfind', 'find_first_of', 'find_last_of') and vals and vals[0][0] in ('s', 'c') and not op and len(vals) == 1:
            x = vals[0][1] if vals[0][0] == 's' else chr(vals[0][1])
            if short == 'find' or len(x) == 1:
                p = t.find(x) if short in ('find', 'find_first_of') else t.rfind(x)
                return [(st, C(p))]
        if short == 'rfind' and len(vals) == 2 and num[1] == 0 and vals[0][0] == 's':
            r = self.prefix(eng, st, fr, loc, v, vals[0][1], len(vals[0][1]), 0)
            return [(s, C(0 if e else -1)) for s, e in r] if r is not None else None
        return None

    def prefix(self, eng, st, fr, loc, v, lit, cnt, pos):
        """does v.substr(pos, cnt) equal lit"""
        t, op = v[1], v[0] == OPEN
        have = t[pos:]
        if not op or len(have) >= cnt:
            return [(st, have[:cnt] == lit)]
        # the known part is shorter than what is compared
        if not lit.startswith(have) or len(lit) > cnt:
            return [(st, False)]
        s2 = st.copy()
        if len(lit) == cnt:
            eng.write(s2, loc, (OPEN, t[:pos] + lit))
        else:
            eng.write(s2, loc, ('s', t[:pos] + lit))
        return [(s2, True), (st, False)]


class NameSpec(spec.Spec):
    """marks paths that depend on a condition which could not be decided"""

    def on_branch(self, eng, st, fr, nid, val):
        if flow.truth(st, val) is None and fr.fn.nodes[nid]['k'] != 'DeclStmt':
            self.eff(eng, st, ('guess', fr.fn.nodes[nid].get('l')))


def results(prog, fn, binding, hook=None, opaque=(), rec=(), extra=None, throws=False, this=None):
    """interpret fn with parameters bound to abstract values ({index: value}); list of (returned value or None when it hangs on
    something undecided, X)"""
    h = hook or Names(prog)
    h.root = fn
    out = []

    def val(x):
        if any(e[0] == 'guess' for e in x.all()):
            return None
        return ('none',) if x.ret is None else const_text(x.ret)

    def ex(x):
        out.append((val(x), x))
    r = NameSpec(fn, exit=ex, called=h if extra is None else lambda *a: extra(*a) or h(*a), opaque=opaque, rec=rec)
    if throws:
        r.x_throw = lambda x: out.append((None if val(x) is None and any(e[0] == 'guess' for e in x.all()) else ('throw',), x))
        r.eh = True
    eng = flow.Engine(prog, r)
    env = dict(this or {})
    for k, v in binding.items():
        env[r.Ploc(k)] = v
    eng.analyse(fn, env=env)
    return out, h


def const_text(v):
    """strings made from a constant are that constant"""
    if v is not None and v[0] == 'k' and 'basic_string' in v[1] and v[2] and v[2][0][0] in ('s', 'pre'):
        return v[2][0]
    if v is not None and v[0] == 'k' and 'basic_string' in v[1] and not [a for a in v[2] if a[0] not in ('k',)]:
        return ('s', '')
    return v
