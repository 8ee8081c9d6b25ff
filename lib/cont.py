"""Standard containers for the dataflow engine.

An iteration is summarised by one arbitrary element: an iterator into container C is the value ('it', C), its element the
location ('d', ('it', C)); comparing it with end() splits into "one more element" and "exhausted".  Range-for, iterator
loops and the <algorithm> calls with a predicate all become the same events: it_begin, it_next, it_done, mutate.
"""
import re
import flow
from flow import C, ZERO

MUT = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint',
       'pop_back', 'pop_front', 'pop', 'erase', 'clear', 'resize', 'assign', 'insertAtEnd', 'removeIndex', 'append'}
RALGO = re.compile(r'^std::ranges::__(\w+?)_fn::operator\(\)$')
ALGO1 = {'any_of', 'all_of', 'none_of', 'find_if', 'for_each', 'count_if', 'find_if_not', 'remove_if', 'erase_if'}
STDC = re.compile(r'^(const )?std::(__cxx11::|__debug::)?(vector|deque|list|map|multimap|unordered_map|unordered_multimap|set|multiset|unordered_set|unordered_multiset|queue|priority_queue|stack|array|initializer_list)\b')
STRS = re.compile(r'^(const )?std::(__cxx11::)?basic_string(_view)?\b')
MAPS = re.compile(r'\b(map|multimap|unordered_map|unordered_multimap)\b')


WHOLE = ('int', 'unsigned int', 'long', 'unsigned long', 'std::size_t', 'size_t', 'uint32_t', 'int32_t', 'uint16_t', 'unsigned short')


def base(c):
    while c[0] in ('butlast', 'butfirst', 'from'):
        c = c[1]
    return c


def find_counters(fn, anywhere=False):
    zero, bad, sized = set(), set(), set()
    for n in fn.nodes:
        if n['k'] == 'DeclStmt':
            for v in n.get('vars', ()):
                i = v.get('init', -1)
                if i is not None and i >= 0 and (any(fn.nodes[j].get('v') in (0, 1) for j in peel(fn, i)) or anywhere and v['t'].replace('const ', '') in WHOLE) and not v['t'].endswith(('&', '*')) and v['t'] != 'bool':
                    zero.add(v['d'])
        elif n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in flow.REL:
            t = fn.nodes[n['c'][0]]
            if t['k'] == 'DeclRefExpr' and n['op'] == '=' and any(fn.nodes[j].get('v') in (0, 1) for j in peel(fn, n['c'][1])):
                zero.add(t.get('d'))
            elif t['k'] == 'DeclRefExpr':
                bad.add(t.get('d'))
        elif n['k'] == 'UnaryOperator' and n['op'] in ('--', '&'):
            t = fn.nodes[n['c'][0]]
            if t['k'] == 'DeclRefExpr':
                bad.add(t.get('d'))
        elif n['k'] == 'BinaryOperator' and n['op'] in ('<', '>', '!=') or n['k'] == 'CallExpr' and n.get('fn', '').startswith('std::cmp_'):
            for a in n['c']:
                for j in peel(fn, a):
                    if fn.nodes[j]['k'] == 'DeclRefExpr':
                        sized.add(fn.nodes[j].get('d'))
    return (zero & sized) - bad


def peel(fn, i):
    out = []
    while i is not None and i >= 0:
        n = fn.nodes[i]
        out.append(i)
        if n['k'] in flow.CASTS and n.get('c') or n['k'] == 'InitListExpr' and len(n.get('c', ())) == 1:
            i = n['c'][0]
        else:
            break
    return out


def el(c, *k):
    return ('d', ('it', c) + k)


def fld(loc, *names):
    for n in names:
        loc = ('f', loc, 'std::pair::' + n if n in ('first', 'second') else n)
    return loc


def is_tuple(v):
    return v[0] == 'k' and v[1] == 'std::pair' and len(v[2]) > 0


def lexical(op, a, b):
    """comparison of two values, part by part when they are tuples"""
    if not (is_tuple(a) and is_tuple(b) and len(a[2]) == len(b[2])):
        return flow.rel_term(op, a, b)
    if op in ('>', '<='):
        a, b = b, a
    if op in ('==', '!='):
        r = C(1)
        for p, q in list(zip(a[2], b[2]))[::-1]:
            e = flow.rel_term('==', p, q)
            r = e if r == C(1) else ('and', e, r)
        return r if op == '==' else ('not', r)
    r = ZERO
    for p, q in list(zip(a[2], b[2]))[::-1]:
        l = flow.rel_term('<', p, q)
        r = l if r == ZERO else ('or', l, ('and', flow.rel_term('==', p, q), r))
    return r if op in ('<', '>') else ('not', r)


def sz(eng, st, c):
    return ('p', '#', eng.read(st, c))


RANGES = set()      # further functions that take a part of a container


def positions(fn):
    """nodes that name a position in arguments of erase, insert and distance"""
    r = fn.d.get('_positions')
    if r is None:
        r = set()
        for n in fn.nodes:
            f = re.sub(r'<.*>', '', n.get('fn') or '').split('::')[-1]
            todo = []
            if (f in ('erase', 'insert', 'distance') or f in RANGES) and 'args' in n:
                todo = [a for a in n['args'] if a >= 0]
            elif n['k'] == 'CXXOperatorCallExpr' and n.get('op') in ('==', '!='):
                todo = [a for a in [n.get('obj', -1)] + list(n.get('args') or ()) if a >= 0]
            if todo:
                while todo:
                    j = todo.pop()
                    r.add(j)
                    m = fn.nodes[j]
                    if m['k'] in flow.CASTS or m['k'] in ('CXXConstructExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'):
                        todo += [q for q in list(m.get('c') or ()) + list(m.get('args') or ()) if q >= 0]
        fn.d['_positions'] = r
    return r


class Cont(flow.Rule):
    """container semantics; subclasses override the event hooks"""
    sized = {}              # values that are the number of elements of something that is no container
    containers = ()         # further class names handled like standard containers

    def counted(self, eng, st, fr, i, c):
        pass

    def count_value(self, eng, st, fr, i, c):
        return ('call', 'std::count_if', fr.id, i)

    def it_begin(self, eng, st, fr, i, c):
        pass

    def it_next(self, eng, st, fr, i, c):
        pass

    def it_done(self, eng, st, fr, i, c):
        pass

    def mutate(self, eng, st, fr, i, c, op, vals):
        pass

    def reverse(self, eng, st, fr, i, c):
        pass

    def called(self, eng, st, fr, i, name, obj, args):
        return None

    # ------------------------------------------------------------------
    def isc(self, n):
        return bool(STDC.match(n.get('cls', ''))) or n.get('cls', '') in self.containers

    def objloc(self, eng, st, fr, o):
        t = fr.fn.nodes[o].get('t', '').rstrip()
        if t.endswith('*') or t.endswith('*const'):
            return eng.loc_of_val(eng.ev(st, fr, o))
        l = eng.lv(st, fr, o)
        if l[0] == 'm' and l[1][0] in ('l',):
            return l[1][1]
        return l

    chain = False       # keep what is known about the element before the current one apart from those further back

    def chained(self, c):
        return self.chain is True or bool(self.chain) and c in self.chain

    def relabel(self, eng, st, old, new, facts):
        ren = {}
        for k in [k for k in st.env if k[0] not in ('in', 'outer', 'idxof') and flow.contains(k, old)]:
            ren[eng._subst(k, old, new)] = st.env.pop(k)
        st.env.update(ren)
        for k in [k for k, v in st.env.items() if k[0] != 'in' and flow.contains(v, old)]:
            st.env[k] = eng._subst(st.env[k], old, new)
        for k in [k for k in st.facts if flow.contains(k, old)]:
            b = st.facts.pop(k)
            if facts:
                st.facts[eng._subst(k, old, new)] = b

    def passed(self, eng, st, c):
        cur, bef, far = ('d', ('it', c)), ('d', ('it', c, ('s', 'earlier'))), ('d', ('it', c, ('s', 'older')))
        # a value that equals that of the element now passed is remembered as its value
        for k in [k for k, b in st.facts.items() if b and k[0] == 'eq' and len(k) == 3]:
            for p, q in (k[1:], k[:0:-1]):
                if p[0] == 'l' and flow.contains(p, cur) and q[0] == 'l' and (flow.contains(q, bef) or flow.contains(q, far)):
                    for l in [l for l, v in st.env.items() if v == q]:
                        st.env[l] = p
        for k in [k for k in st.facts if flow.contains(k, far)]:
            del st.facts[k]
        self.relabel(eng, st, bef, far, False)
        self.relabel(eng, st, cur, bef, True)
        st._k = None

    def behind(self, st, c, loc):
        """other iterators stay where they are when this one moves on"""
        if self.chained(c):
            for k, v in st.env.items():
                if k[0] == 'v' and k != loc and v[0] == 'it' and v[1] == c:
                    if v == ('it', c):
                        st.env[k] = ('it', c, ('s', 'earlier'))
                    elif v[2] == ('s', 'earlier'):
                        st.env[k] = ('it', c, ('s', 'older'))

    def before(self, st, v):
        """position one before"""
        if v[0] == 'end' and self.chained(v[1]) and st.env.get(('in', v[1])) == ZERO and ('moved', v[1]) in st.env:
            return ('it', v[1], ('s', 'earlier'))
        if v[0] == 'it' and len(v) == 3 and v[2][0] in ('ub', 'lb'):
            return ('it', v[1], ('prev', v[2]))
        if self.chained(v[1]) and v == ('it', v[1]):
            return ('it', v[1], ('s', 'earlier'))
        if v[0] == 'end' and self.chained(v[1]):
            return ('it', v[1], ('s', 'last'))
        return None

    def drop(self, eng, st, pat):
        """forget everything about locations below pat"""
        st._k = None
        for k in [k for k in st.env if flow.contains(k, pat)]:
            del st.env[k]
        for k in [k for k, v in st.env.items() if k[0] in ('v', 'ref') and flow.contains(v, ('l', pat))]:
            st.env[k] = ('m', ('h', ('gone', str(k)), ZERO)) if k[0] == 'ref' else ('h', ('gone', str(k)), ZERO)
        # what was taken from an element stays with that element
        if pat[0] == 'd' and len(pat[1]) == 2:
            old = ('d', pat[1] + (('s', 'earlier'),))
            for k in [k for k, v in st.env.items() if k[0] not in ('ref', 'in') and flow.contains(v, pat)]:
                st.env[k] = eng._subst(st.env[k], pat, old)
        for k in [k for k in st.facts if flow.contains(k, pat)]:
            del st.facts[k]

    def enter(self, eng, st, fr, i, c):
        st.env[('in', c)] = C(1)
        st._k = None
        self.it_begin(eng, st, fr, i, c)

    def advance(self, eng, st, fr, i, c):
        if st.env.get(('in', c)) == C(1):
            self.it_next(eng, st, fr, i, c)
        st.env.pop(('in', c), None)
        if self.chained(c):
            self.passed(eng, st, c)
            st.env[('moved', c)] = C(1)
        self.drop(eng, st, ('d', ('it', c)))

    def done(self, eng, st, fr, i, c):
        st.env[('in', c)] = ZERO
        st._k = None
        self.it_done(eng, st, fr, i, c)

    def compare(self, eng, st, fr, i, a, b):
        """values of two iterators -> list of (state, equal?)"""
        if a[0] == 'end' and b[0] == 'it':
            a, b = b, a
        if a[0] == 'end' and b[0] == 'end':
            return [(st, a == b or None)]
        if b[0] == 'end' and a == ('it', b[1], ('s', 'begin')):
            v = sz(eng, st, b[1])
            flow.assume_lt(st, v, ZERO, False)
            return self.split(st, flow.rel_term('==', v, ZERO))
        if a[0] == 'it' and b[0] == 'it':
            if len(a) == 2 or a[2] == ('s', 'begin'):
                a, b = b, a
            if a == ('it', b[1], ('s', 'begin')) and len(b) == 2:
                a, b = b, a
            if b == ('it', a[1], ('s', 'begin')) and len(a) == 2 and self.chained(a[1]):
                return [(st, ('moved', a[1]) not in st.env)]
            if a[1] == b[1] and len(a) == 3 and a[2][0] in ('ub', 'lb') and (len(b) == 3 and b[2] == ('s', 'begin') or len(b) == 2 and ('in', b[1]) not in st.env):
                k = ('first', a[1], a[2])
                if k in st.env:
                    return [(st, st.env[k] == C(1))]
                s2 = st.copy()
                for s, w in ((st, 1), (s2, 0)):
                    s.env[k] = C(w)
                    s._k = None
                return [(st, True), (s2, False)]
            return [(st, True if a == b and len(a) == 3 else None)]
        c = a[1]
        if len(a) == 3:
            if a[2] == ('s', 'begin'):
                return None
            return [(st, False)]
        if c[0] == 'range' and b[1] != c:
            s2 = st.copy()
            self.done(eng, s2, fr, i, c)
            return [(st, False), (s2, True)]
        cur = st.env.get(('in', c))
        if cur is not None:
            return [(st, cur == ZERO)]
        s2 = st.copy()
        self.done(eng, s2, fr, i, c)
        self.enter(eng, st, fr, i, c)
        return [(st, False), (s2, True)]

    def has(self, eng, st, c, k):
        return st.env.get(('has', c, k))

    def set_has(self, st, c, k, v):
        st.env[('has', c, k)] = C(v)
        st._k = None

    def lookup(self, eng, st, c, k):
        h = self.has(eng, st, c, k)
        if h is not None:
            return [(st, h == C(1))]
        s2 = st.copy()
        self.set_has(st, c, k, 1)
        self.set_has(s2, c, k, 0)
        return [(st, True), (s2, False)]

    def on_incr(self, eng, st, fr, i, loc, val):
        if val[0] == 'it' and len(val) == 2:
            self.behind(st, val[1], loc)
            self.advance(eng, st, fr, i, val[1])
            return val
        if val[0] == 'idx':
            c = st.env.get(('idxof',) + val[1:])
            if c is not None:
                self.advance(eng, st, fr, i, c)
                self.leave(eng, st, val, loc)
            return val
        return None

    def leave(self, eng, st, t, loc):
        """what is stored at the position left behind is not at the next one"""
        old = t + (('s', 'earlier'),)
        for k in [k for k in st.env if k[0] not in ('in', 'idxof') and flow.contains(k, old)]:
            del st.env[k]
        for k in [k for k in st.facts if flow.contains(k, old)]:
            del st.facts[k]
        keep = st.env.get(loc)
        self.relabel(eng, st, t, old, False)
        if keep is not None:
            st.env[loc] = keep
        st._k = None

    # loops over positions: a counter from 0 by one that is compared with the size of a container
    def counters(self, fn):
        k = '_counters' + ('+' if self.any_start else '')
        r = fn.d.get(k)
        if r is None:
            r = fn.d[k] = find_counters(fn, self.any_start)
        return r

    def on_decl(self, eng, st, fr, i, d, val):
        if (val in (ZERO, C(1)) or self.any_start and val[0] not in ('it', 'idx', 'end', 'h')) and d in self.counters(fr.fn):
            st.env.pop(('idxof', d, fr.id), None)
            st.env.pop(('idxfrom', d, fr.id), None)
            if val != ZERO:
                st.env[('idxfrom', d, fr.id)] = val
            return ('idx', d, fr.id)
        return None

    any_start = False

    def on_set(self, eng, st, fr, i, loc, val):
        return self.on_decl(eng, st, fr, i, loc[1], val) if loc[0] == 'v' else None

    def on_compare(self, eng, st, fr, i, n):
        for a, b, flip in ((n['c'][0], n['c'][1], False), (n['c'][1], n['c'][0], True)):
            v = eng.ev(st, fr, a)
            plus = v[0] == 'op' and v[1] == '+' and v[2][0] == 'idx' and v[3] == C(1) and ('idxof',) + v[2][1:] in st.env
            if plus:
                v = v[2]
            if v[0] != 'idx':
                continue
            w = eng.ev(st, fr, b)
            if w in self.sized:
                w = ('p', '#', ('l', self.sized[w]))
            part = w[0] == 'op' and w[1] == '-' and w[3] == C(1) and w[2][0] == 'p' and w[2][1] == '#'
            if part:
                w = w[2]
            if w[0] != 'p' or w[1] != '#':
                return None
            c = w[2][1] if w[2][0] == 'l' else w[2][2] if w[2][0] == 'h' else None
            if c is None:
                for j in peel(fr.fn, b):
                    m = fr.fn.nodes[j]
                    if m['k'] == 'CXXMemberCallExpr' and m.get('obj', -1) >= 0:
                        l = eng.lv(st, fr, m['obj'])
                        c = l if l[0] in ('v', 'f') and eng.read(st, l) == w[2] else None
                        break
            op = n['op']
            if plus:
                if part or c is None:
                    return None
                part = True
                c = ('butlast', c)
            elif part and c is not None:
                c = ('butlast', c)
            if ('idxfrom',) + v[1:] in st.env and c is not None:
                v0 = st.env[('idxfrom',) + v[1:]]
                c = ('butfirst', c) if v0 == C(1) else ('from', c, ('s', repr(v0)))
            w0 = st.env.get(('idxof',) + v[1:])
            if w0 is not None and part and c is not None and w0 != c and base(w0) == base(c) and w0[0] != 'butlast':
                op = {'<': '>', '>': '<'}.get(op, op) if flip else op
                q = ('call', 'before the last', (el(w0),), 0)
                return [(s, C(int(t is (op in ('<', '!='))))) for s, t in self.split(st, q)] if op in ('<', '!=', '==') else None
            if plus:
                return None
            if c is None or op not in ('<', '>', '!=', '=='):
                return None
            if ('idxof',) + v[1:] not in st.env:
                st.env[('idxof',) + v[1:]] = c
                st.env.pop(('in', c), None)
                self.drop(eng, st, ('d', ('it', c)))
            r = self.compare(eng, st, fr, i, ('it', c), ('end', c))
            return [(s, C(1 if e == (op == '==') else 0)) for s, e in r]
        return None

    def lam_of(self, eng, st, fr, v, node=None):
        if v[0] == 'l' and v[1][0] == 'g':
            fus = [f for f in eng.p.funcs.values() if f.d.get('parent') == 'global:' + v[1][1] and 'cfg' in f.d]
            return (fus[0], fr.id) if fus else (None, None)
        if v[0] == 'fn' and v[1] in eng.p.funcs and 'cfg' in eng.p.funcs[v[1]].d:
            return eng.p.funcs[v[1]], fr.id
        if v[0] != 'lam':
            return None, None
        fus = [eng.p.funcs[u] for u in v[1] if u in eng.p.funcs and 'cfg' in eng.p.funcs[u].d]
        return (fus[0], v[2]) if fus else (None, None)

    def from_begin(self, eng, st, fr, i, c):
        if i in positions(fr.fn) and ('in', c) in st.env:
            return [(st, ('it', c, ('s', 'begin')))]
        st.env.pop(('in', c), None)
        st.env.pop(('moved', c), None)
        self.drop(eng, st, ('d', ('it', c)))
        return [(st, ('it', c))]

    def compared(self, eng, outs, fr, i, c, p, q):
        """an order on the elements of a container is used: its answers for the elements at p and q"""

    def call_lam(self, eng, st, fr, i, lam, lf, locs):
        """inline a lambda with its parameters bound to locations; list of (state, value)"""
        parent = fr
        while parent is not None and parent.id != lf:
            parent = parent.caller
        parent = parent or fr
        sub = flow.Frame(lam, fr.id + ((i, lam.line),), parent.this, fr.depth + 1, fr.stack + (lam.n,), parent, fr.us, fr)
        for p, l in zip(lam.params, locs):
            if flow.is_ref(p['t']):
                st.env[('ref', p['d'], sub.id)] = l
            else:
                st.env[('v', p['d'], sub.id)] = eng.read(st, l) if l[0] != 'm' else l[1]
        out = []
        for s, kind, ret in eng.run(lam, [st], sub):
            if kind == 'return':
                ret = ret if ret is not None else ZERO
                s.env = {k: v for k, v in s.env.items() if not (k[0] in ('v', 'ref') and k[2][:len(sub.id)] == sub.id)}
                s.vals = {k: v for k, v in s.vals.items() if k[0][:len(sub.id)] != sub.id}
                s._k = None
                out.append((s, ret))
        return out

    def split(self, s, v):
        """states by truth of v"""
        t = flow.truth(s, v)
        if t is not None:
            return [(s, t)]
        w = flow.cond(v)
        if w[0] == 'not':
            return [(p, not t) for p, t in self.split(s, w[1])]
        if w[0] in ('and', 'or'):
            out = []
            for p, t in self.split(s, w[1]):
                out += [(p, t)] if t == (w[0] == 'or') else self.split(p, w[2])
            return out
        s2 = s.copy()
        out = []
        if flow.assume(s, v, True):
            out.append((s, True))
        if flow.assume(s2, v, False):
            out.append((s2, False))
        return out

    def algo(self, eng, st, fr, i, short, args):
        if short == 'erase_if':
            c, lamv = self.objloc(eng, st, fr, args[0]), eng.ev(st, fr, args[1])
        else:
            a = eng.ev(st, fr, args[0])
            if a[0] != 'it' or len(args) < 3:
                return None
            c, lamv = a[1], eng.ev(st, fr, args[2])
        return self.searched(eng, st, fr, i, short, c, lamv)

    def searched(self, eng, st, fr, i, short, c, lamv):
        lam, lf = self.lam_of(eng, st, fr, lamv)
        if lam is None:
            return None
        out = []
        st.env.pop(('in', c), None)
        st.env.pop(('moved', c), None)
        self.drop(eng, st, ('d', ('it', c)))
        res = {'any_of': (C(1), ZERO), 'none_of': (ZERO, C(1)), 'all_of': (ZERO, C(1))}
        ended, starts = [st.copy()], [st]
        for k in range(2 if self.chained(c) and short.startswith('find') else 1):
            starts = self.round(eng, starts, fr, i, c, short, lam, lf, out, res)
            ended += starts
            starts = [s.copy() for s in starts]
        # a later iteration starts from a state in which earlier ones already happened: events are recorded per iteration,
        # so one arbitrary iteration stands for all of them
        for s in ended:
            self.done(eng, s, fr, i, c)
        val = res[short][1] if short in res else ('end', c) if short.startswith('find') else self.count_value(eng, st, fr, i, c) if short == 'count_if' else ('call', 'std::' + short, fr.id, i)
        out += [(s, val) for s in ended]
        return out

    def round(self, eng, starts, fr, i, c, short, lam, lf, out, res):
        """one element of an algorithm with a predicate; the states in which it goes on"""
        ended = []
        for one in starts:
            self.enter(eng, one, fr, i, c)
        for s, v in [q for one in starts for q in self.call_lam(eng, one, fr, i, lam, lf, [('d', ('it', c))])]:
            for s2, t in ([(s, None)] if short == 'for_each' else self.split(s, v)):
                if short in ('any_of', 'none_of', 'find_if') and t:
                    out.append((s2, ('it', c) if short == 'find_if' else res[short][0]))
                    continue
                if short == 'all_of' and not t:
                    out.append((s2, ZERO))
                    continue
                if short == 'find_if_not' and not t:
                    out.append((s2, ('it', c)))
                    continue
                if short == 'count_if' and t:
                    self.counted(eng, s2, fr, i, c)
                if short in ('remove_if', 'erase_if') and t:
                    self.mutate(eng, s2, fr, i, c, 'erase', (('it', c),))
                self.advance(eng, s2, fr, i, c)
                ended.append(s2)
        return ended

    def guard(self, eng, st, fr, i, n, name, short, op, obj, args):
        """guarded objects: the handle is a pointer to the object, which lies where its guard does"""
        cls = n.get('cls', '')
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return [(st, eng.ev(st, fr, args[0]))] if len(args) == 1 and 'lock_handle' in cls else None
        if obj is None or obj < 0:
            return None
        if 'lock_handle' not in cls:
            return [(st, ('addr', self.objloc(eng, st, fr, obj)))] if short in ('lock', 'lock_shared') and not args else None
        v = eng.ev(st, fr, obj)
        if v[0] != 'addr':
            return None
        if op == '->' or short == 'get':
            return [(st, v)]
        if op == '*':
            return [(st, ('L', v[1]))]
        if short in ('begin', 'end'):
            if short == 'end':
                return [(st, ('end', v[1]))]
            return self.from_begin(eng, st, fr, i, v[1])
        if short == 'operator bool':
            return [(st, C(1))]
        return None

    def on_call(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        r = self.called(eng, st, fr, i, name, obj, args)
        if r is not None:
            return r
        short = name.split('::')[-1].split('<')[0]
        op = n.get('op') if n['k'] == 'CXXOperatorCallExpr' else None
        m = RALGO.match(name)
        if m and m.group(1) in ALGO1 and m.group(1) != 'erase_if':
            given = [a for a in args if a >= 0 and '_fn' not in (fr.fn.nodes[a].get('t') or '')]
            if len(given) == 2 or len(given) > 2 and 'identity' in str(fr.fn.nodes[given[2]].get('t')):
                r = self.searched(eng, st, fr, i, m.group(1), self.objloc(eng, st, fr, given[0]), eng.ev(st, fr, given[1]))
                if r is not None:
                    return r
        if name.startswith('std::cmp_') and len(args) == 2:
            rel = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}.get(short[4:])
            if rel:
                r = self.on_compare(eng, st, fr, i, {'c': list(args), 'op': rel})
                return r if r is not None else [(st, flow.rel_term(rel, eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])))]
        if op == '<=>' and name.startswith('std::'):
            ops = ([n['obj']] if n.get('obj', -1) >= 0 else []) + list(args)
            if len(ops) == 2:
                return [(st, ('cmp3', eng.ev(st, fr, ops[0]), eng.ev(st, fr, ops[1])))]
        if op in ('<', '>', '<=', '>=', '==', '!=') and name.startswith('std::') and len(args) == 2:
            a, b = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
            if b[0] == 'cmp3' and a[0] == 'k':
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a[0] == 'cmp3' and b[0] == 'k':
                return [(st, lexical(op, a[1], a[2]))]
            if is_tuple(a) and is_tuple(b) and len(a[2]) == len(b[2]):
                return [(st, lexical(op, a, b))]
        if name.startswith('gmlc::libguarded::'):
            r = self.guard(eng, st, fr, i, n, name, short, op, obj, args)
            if r is not None:
                return r
        if name.startswith(('std::atomic', 'std::__atomic_base')) and obj is not None and obj >= 0:
            l = eng.lv(st, fr, obj)
            d = {'++': 1, '--': -1, 'fetch_add': 1, 'fetch_sub': -1}.get(op or short)
            if d is not None:
                k = eng.ev(st, fr, args[0]) if args and short.startswith('fetch') else C(1)
                old = eng.read(st, l)
                new = eng.arith('+' if d > 0 else '-', old, k)
                eng.write(st, l, new)
                self.eff(eng, st, ('incr' if d > 0 else 'decr', l))
                return [(st, old if short.startswith('fetch') or args else new)]
            if op in ('|=', '&=', '^=', '+=', '-=') and args:
                v = eng.arith(op[:-1], eng.read(st, l), eng.ev(st, fr, args[0]))
                eng.write(st, l, v)
                return [(st, v)]
            if short == 'exchange' and args:
                old = eng.read(st, l)
                eng.write(st, l, eng.ev(st, fr, args[0]))
                return [(st, old)]
        if op in ('==', '!='):
            ops = ([n['obj']] if n.get('obj', -1) >= 0 else []) + list(args)
            if len(ops) == 2:
                a, b = eng.ev(st, fr, ops[0]), eng.ev(st, fr, ops[1])
                if {a[0], b[0]} <= {'it', 'end'}:
                    r = self.compare(eng, st, fr, i, a, b)
                    if r is None:
                        return None
                    out = []
                    for s, e in r:
                        if e is None:
                            out.append((s, ('call', 'itcmp', fr.id, i)))
                        else:
                            out.append((s, C(1 if e == (op == '==') else 0)))
                    return out
            return None
        if op in ('++', '--'):
            x = n['obj'] if n.get('obj', -1) >= 0 else args[0]
            v = eng.ev(st, fr, x)
            if v[0] == 'it' and len(v) == 2 and not (self.chained(v[1]) and op == '--'):
                self.behind(st, v[1], eng.lv(st, fr, x))
                self.advance(eng, st, fr, i, v[1])
                return [(st, ('L', eng.lv(st, fr, x)))]
            p = self.before(st, v) if op == '--' else None
            if p:
                l = eng.lv(st, fr, x)
                eng.write(st, l, p)
                return [(st, ('L', l) if len([a for a in args if a >= 0]) < 2 else v)]
            return None
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if len(args) >= 1 and 'iterator' in n.get('cls', '').lower():
                return [(st, eng.ev(st, fr, args[0]))]
            if self.isc(n) and not [a for a in args if a >= 0]:
                return [(st, ('k', 'empty', ()))]
            return None
        if name in ('std::begin', 'std::cbegin', 'std::end', 'std::cend') and args:
            obj, args = args[0], []
        elif obj is None or obj < 0:
            if name.startswith('std::'):
                if short in ('make_pair', 'make_tuple', 'pair', 'forward_as_tuple', 'tie'):
                    return [(st, ('k', 'std::pair', tuple(eng.ev(st, fr, a) for a in args)))]
                if short in ('min', 'max') and len(args) == 2 and not any('lambda' in (fr.fn.nodes[a].get('t') or '') for a in args):
                    a, b = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
                    out = []
                    for s, t in self.split(st, flow.rel_term('<', *((b, a) if short == 'min' else (a, b)))):
                        s._k = None
                        out.append((s, b if t else a))
                    return out
                if short == 'get' and len(args) == 1:
                    m = re.match(r'c:@N@std@F@get<#V\w?(\d+)', n.get('fu') or '')
                    if m:
                        k = int(m.group(1))
                        v = eng.ev(st, fr, args[0])
                        if v[0] == 'k' and len(v[2]) > k:
                            return [(st, v[2][k])]
                        return [(st, ('L', ('f', eng.lv(st, fr, args[0]), 'std::pair::' + ('first', 'second')[k] if k < 2 else 'std::tuple::%d' % k)))]
                if short in ALGO1 and len(args) >= 2:
                    return self.algo(eng, st, fr, i, short, args)
                if short in ('sort', 'stable_sort') and len(args) >= 2:
                    a = eng.ev(st, fr, args[0])
                    if a[0] == 'it':
                        c = a[1]
                        lam, lf = self.lam_of(eng, st, fr, eng.ev(st, fr, args[2])) if len(args) > 2 else (None, None)
                        if lam is not None:
                            p, q = (('d', ('it', c, ('s', z))) for z in ('first', 'second'))
                            self.compared(eng, self.call_lam(eng, st.copy(), fr, i, lam, lf, [p, q]), fr, i, c, p, q)
                        self.eff(eng, st, ('sort', c, short, lam is not None))
                        return [(st, ZERO)]
                if short in ('min_element', 'max_element') and len(args) >= 2:
                    a = eng.ev(st, fr, args[0])
                    if a[0] == 'it' and len(a) == 2:
                        e = ('it', a[1], ('s', short))
                        if len(args) >= 3:
                            lam, lf = self.lam_of(eng, st, fr, eng.ev(st, fr, args[2]))
                            if lam is not None:
                                p, q = (('d', ('it', a[1], ('s', z))) for z in ('first', 'second'))
                                r = self.call_lam(eng, st.copy(), fr, i, lam, lf, [p, q])
                                self.eff(eng, st, ('order', a[1], tuple(v for s, v in r)))
                        return [(st, e)]
                if short in ('lower_bound', 'upper_bound') and len(args) >= 3:
                    a = eng.ev(st, fr, args[0])
                    if a[0] == 'it' and len(a) == 2:
                        c, k = a[1], eng.ev(st, fr, args[2])
                        it = ('it', c, ('lb', k) if short == 'lower_bound' else ('ub', k))
                        s2 = st.copy()
                        s2.env[('bound', c, k)] = C(1)
                        s2._k = None
                        st.env[('bound', c, k)] = C(0)
                        st._k = None
                        out = [(s2, ('end', c))]
                        lam, lf = self.lam_of(eng, st, fr, eng.ev(st, fr, args[3])) if len(args) > 3 else (None, None)
                        locs = [('d', it), ('m', k)]
                        if lam is not None:
                            # the element found does not come before the key
                            ab = locs if short == 'lower_bound' else locs[::-1]
                            self.compared(eng, self.call_lam(eng, st.copy(), fr, i, lam, lf, ab), fr, i, c, *ab)
                            for s, v in self.call_lam(eng, st, fr, i, lam, lf, locs if short == 'lower_bound' else locs[::-1]):
                                if flow.assume(s, v, short == 'upper_bound'):
                                    s._k = None
                                    out.append((s, it))
                        else:
                            out.append((st, it))
                        return out
                if short == 'find' and len(args) == 3:
                    a = eng.ev(st, fr, args[0])
                    if a[0] == 'it':
                        k = eng.ev(st, fr, args[2])
                        c = a[1]
                        st.env.pop(('in', c), None)
                        self.drop(eng, st, ('d', ('it', c)))
                        s2 = st.copy()
                        self.enter(eng, st, fr, i, c)
                        flow.assume(st, flow.rel_term('==', eng.read(st, el(c)), k), True)
                        self.done(eng, s2, fr, i, c)
                        return [(st, ('it', c)), (s2, ('end', c))]
                if short == 'distance' and len(args) == 2:
                    a, b = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
                    if a[0] == 'it' and b[0] in ('it', 'end') and a[1] == b[1] and len(b) == 2:
                        return [(st, ('dist', a[1]))]
                if short in ('next', 'prev', 'advance') and args:
                    a = eng.ev(st, fr, args[0])
                    p = self.before(st, a) if short == 'prev' and len([q for q in args if q >= 0]) < 2 or short == 'prev' and eng.ev(st, fr, args[1]) == C(1) else None
                    if p:
                        return [(st, p)]
                    if a[0] == 'it':
                        return [(st, a)]
            return None
        if STRS.match(n.get('cls', '')):
            c = self.objloc(eng, st, fr, obj)
            if short in ('size', 'length', 'empty') and not args:
                v = sz(eng, st, c)
                if v[2][0] == 's':
                    v = C(len(v[2][1]))
                else:
                    flow.assume_lt(st, v, ZERO, False)
                return [(st, v if short != 'empty' else flow.rel_term('==', v, ZERO))]
            if short == 'clear':
                eng.write(st, c, ('s', ''))
                return [(st, ZERO)]
            return None
        if not self.isc(n):
            return None
        c = self.objloc(eng, st, fr, obj)
        if short in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            if short.lstrip('c')[0] == 'r':
                self.reverse(eng, st, fr, i, c)
            return self.from_begin(eng, st, fr, i, c)
        if short in ('end', 'cend', 'rend', 'crend'):
            return [(st, ('end', c))]
        if short in ('size', 'length') and not args:
            v = sz(eng, st, c)
            flow.assume_lt(st, v, ZERO, False)
            return [(st, v)]
        if short == 'empty':
            v = sz(eng, st, c)
            flow.assume_lt(st, v, ZERO, False)
            return [(st, flow.rel_term('==', v, ZERO))]
        ismap = MAPS.search(n.get('cls', '')) is not None
        if short in ('find', 'count', 'contains') and len(args) >= 1:
            k = eng.ev(st, fr, args[0])
            out = []
            for s, f in self.lookup(eng, st, c, k):
                if short == 'find':
                    out.append((s, ('it', c, k) if f else ('end', c)))
                elif f:
                    out.append((s, C(1)))
                else:
                    out.append((s, ZERO))
            return out
        if short == 'equal_range' and len(args) == 1:
            k = eng.ev(st, fr, args[0])
            r = ('range', c, k)
            st.env.pop(('in', r), None)
            return [(st, ('k', 'std::pair', (('it', r), ('end', r))))]
        if op == '[]' or short == 'at':
            k = eng.ev(st, fr, args[0])
            if ismap:
                if op == '[]' and self.has(eng, st, c, k) != C(1):
                    self.mutate(eng, st, fr, i, c, 'index', (k,))
                self.set_has(st, c, k, 1)
                return [(st, ('L', ('f', ('d', ('it', c, k)), 'std::pair::second')))]
            if k[0] == 'idx' and st.env.get(('in', c)) == C(1):
                return [(st, ('L', el(c)))]
            if k[0] == 'idx':
                w = b = st.env.get(('idxof',) + k[1:])
                while b is not None and b[0] in ('butlast', 'butfirst', 'from') and b != c:
                    b = b[1]
                if w != c and b == c and st.env.get(('in', w)) == C(1):
                    return [(st, ('L', el(w)))]
            return [(st, ('L', ('i', c, k)))]
        if short in ('front', 'top') and not args:
            return [(st, ('L', ('i', c, ('s', 'front'))))]
        if short == 'back' and not args:
            return [(st, ('L', ('i', c, ('s', 'back'))))]
        if short in MUT:
            vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
            self.mutate(eng, st, fr, i, c, short, vals)
            if short == 'erase' and vals and vals[0][0] == 'it':
                it = vals[0]
                if len(it) == 2:
                    if len(vals) == 1 or vals[1] != ('end', it[1]):
                        self.advance(eng, st, fr, i, it[1])
                else:
                    self.set_has(st, c, it[2], 0)
                inn = st.env.get(('in', c))
                eng.havoc(st, fr, i, c, 'obj')
                if inn is not None:
                    st.env[('in', c)] = inn
                return [(st, it if len(it) == 2 else ('end', c))]
            keep = {k: v for k, v in st.env.items() if flow.contains(k, ('it', c)) or k == ('in', c) or k[0] == 'bound' or k[0] == 'has' and k[1] == c and short not in ('erase', 'clear')}
            el3 = {k: v for k, v in st.env.items() if k[0] != 'has' and any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'it' and x[1] == c for x in self.subs(k))} if short not in ('erase', 'clear') else {}
            eng.havoc(st, fr, i, c, 'obj')
            st.env.update(keep)
            st.env.update(el3)
            st._k = None
            if vals and (ismap or 'set' in n.get('cls', '')):
                if short in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
                    k = vals[0]
                    if k[0] == 'k' and len(k[2]) == 2 and ismap:
                        k = k[2][0]
                    self.set_has(st, c, k, 1)
                    return [(st, ('k', 'std::pair', (('it', c, k), ('call', 'inserted', fr.id, i))))]
                if short == 'erase':
                    self.set_has(st, c, vals[0], 0)
            for a in args:
                if a >= 0 and fr.fn.nodes[a].get('fn', '').split('<')[0] == 'std::move':
                    pass
            if short in ('emplace_back', 'emplace_front') and n.get('lv'):
                return [(st, ('L', ('i', c, ('s', 'back' if short == 'emplace_back' else 'front'))))]
            if short in ('emplace', 'insert') and len(vals) >= 2 and vals[0][0] in ('it', 'end') and not ismap:
                return [(st, ('it', c, ('new', fr.id, i)))]
            if short in ('push_back', 'push', 'pop_back', 'clear', 'pop_front', 'pop'):
                return [(st, ZERO)]
            return [(st, ('call', name, fr.id, i))]
        return None

    def subs(self, t):
        o = set()
        flow.subterms(t, o)
        return o


class Contract(Cont):
    """records what a function does as (effects outside iterations, effects of the current iteration, containers run through)"""
    depth = 5
    cap = 400
    small = 4000
    mute = ()

    def __init__(self):
        self.bad = []
        self.iters = 0
        self.exits = 0

    def init(self):
        return (frozenset(), (), frozenset())

    def eff(self, eng, st, e):
        a, it, d = st.rs
        inside = any(k[0] == 'in' and v == C(1) for k, v in st.env.items())
        if inside:
            if len(it) < 30 and it.count(e) < 3:
                # what a loop within the iteration does again and again is kept three times
                st.rs = (a, it + (e,), d)
        else:
            st.rs = (a | {e}, it, d)
        st._k = None

    def mutate(self, eng, st, fr, i, c, op, vals):
        self.eff(eng, st, ('mut', c, op, vals))

    def reverse(self, eng, st, fr, i, c):
        self.eff(eng, st, ('rev', c))

    def counted(self, eng, st, fr, i, c):
        self.eff(eng, st, ('count', c))

    def iteration(self, eng, st, fr, i, c, effs):
        pass

    def it_begin(self, eng, st, fr, i, c):
        st.rs = (st.rs[0], st.rs[1] + (('[', c),), st.rs[2])

    def it_next(self, eng, st, fr, i, c):
        self.iters += 1
        it = st.rs[1]
        j = max([k for k, e in enumerate(it) if e == ('[', c)], default=-1)
        self.iteration(eng, st, fr, i, c, tuple(e for e in it[j + 1:] if e[0] != '['))
        st.rs = (st.rs[0], it[:max(j, 0)], st.rs[2])

    def it_done(self, eng, st, fr, i, c):
        st.rs = (st.rs[0], st.rs[1], st.rs[2] | {c})

    def fail(self, fr, i, what):
        m = '%s: %s' % (fr.fn.loc(i), what)
        if m not in self.bad:
            self.bad.append(m)


def flat(vals):
    """leaves of nested tuples built from constructors"""
    out = []
    for v in vals:
        if v[0] == 'k':
            out += flat(v[2])
        else:
            out.append(v)
    return out
