"""Disjunctive forward dataflow over the extractor's CFGs (property simulation).

A state is (environment: location -> value term, facts: atoms known true or false, automaton state of the rule).
Conditions refine the facts, writes update the environment, in-repository callees are analysed in the calling state
(bounded depth), every other call forgets what it may change.  States that agree are merged; when more than CAP states
of one automaton state meet at a block they are joined into one, so the analysis always reaches its fixpoint.
Nothing is executed and no solver is asked: facts are only looked up.
"""
import fx
import lin as linear

CAP = 48


def C(v):
    return ('c', v)


ZERO = ('c', 0)
THIS = ('t',)


class State:
    __slots__ = ('env', 'facts', 'hv', 'vals', 'rs', '_k')

    def __init__(self, env=None, facts=None, hv=None, vals=None, rs=None):
        self.env = env or {}
        self.facts = facts or {}
        self.hv = hv or {}
        self.vals = vals or {}
        self.rs = rs
        self._k = None

    def copy(self):
        return State(dict(self.env), dict(self.facts), dict(self.hv), dict(self.vals), self.rs)

    def key(self):
        if self._k is None:
            self._k = (self.rs, frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.hv.items()),
                       frozenset(self.vals.items()))
        return self._k


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def within(t, x):
    """is location x part of location t?  an index is a value, not part of it"""
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t[:2] if t and t[0] == 'i' and len(t) == 3 and t[2][0] == 'l' and t[2][1][0] == 'f' else t:
            if isinstance(y, tuple) and within(y, x):
                return True
    return False


def subterms(t, out):
    if isinstance(t, tuple):
        out.add(t)
        for y in t:
            if isinstance(y, tuple):
                subterms(y, out)


# ---------------------------------------------------------------- facts
def order(a, b):
    if a[0] == 'c' and b[0] != 'c':
        return b, a
    if b[0] == 'c':
        return a, b
    return (a, b) if repr(a) <= repr(b) else (b, a)


def const_of(st, a):
    if a[0] in ('c', 's'):
        return a
    return st.facts.get(('=', a))


def known_eq(st, a, b):
    if a == b:
        return True
    ca, cb = const_of(st, a), const_of(st, b)
    if ca is not None and cb is not None:
        return ca[1] == cb[1] and ca[0] == cb[0]
    if a[0] == 'it' and b[0] == 'end' and len(a) == 3 and a[2][0] == 'key' or b[0] == 'it' and a[0] == 'end' and len(b) == 3 and b[2][0] == 'key':
        return False
    x, y = order(a, b)
    r = st.facts.get(('eq', x, y))
    if r is not None:
        return r
    if st.facts.get(('lt', a, b)) or st.facts.get(('lt', b, a)):
        return False
    for u, v in ((a, b), (b, a)):
        if v == ZERO and (nonnull(u) or st.facts.get(('nn', u))):
            return False
        if cb is not None or ca is not None:
            c = cb if u is a else ca
            if c is not None:
                r = st.facts.get(('eq',) + order(u, c))
                if r is not None:
                    return r
    # one step of congruence through known equalities
    for k, v in st.facts.items():
        if k[0] == 'eq' and v:
            for p, q in ((k[1], k[2]), (k[2], k[1])):
                if p == a and q != b:
                    r = st.facts.get(('eq',) + order(q, b))
                    if r is not None:
                        return r
                elif p == b and q != a:
                    r = st.facts.get(('eq',) + order(q, a))
                    if r is not None:
                        return r
    return None


def nonnull(v):
    return v[0] in ('addr', 'new', 'lam', 'k', 's')


def known_lt(st, a, b):
    if a == b:
        return False
    ca, cb = const_of(st, a), const_of(st, b)
    if ca is not None and cb is not None and ca[0] == 'c' and cb[0] == 'c':
        try:
            return ca[1] < cb[1]
        except TypeError:
            return None
    r = st.facts.get(('lt', a, b))
    if r is not None:
        return r
    if st.facts.get(('lt', b, a)):
        return False
    e = st.facts.get(('eq',) + order(a, b))
    if e:
        return False
    if reach_lt(st, a, b):
        return True
    if reach_le(st, b, a):
        return False
    return None


def num(x):
    return x[0] == 'c' and isinstance(x[1], (int, float))


def lin(x):
    """term -> (base, constant); base None for a number"""
    if num(x):
        return None, x[1]
    if x[0] == 'op' and len(x) == 4 and x[1] in ('+', '-') and num(x[3]):
        b, k = lin(x[2])
        return b, k + (x[3][1] if x[1] == '+' else -x[3][1])
    return x, 0


def le_edges(st):
    """base -> [(base', k, strict)]: base <= base' + k"""
    g = {}

    def add(p, q, strict):
        (bp, kp), (bq, kq) = lin(p), lin(q)
        g.setdefault(bp, []).append((bq, kq - kp, strict))
    for k, v in st.facts.items():
        if k[0] == 'lt':
            if v:
                add(k[1], k[2], True)
            else:
                add(k[2], k[1], False)
        elif k[0] == 'eq' and v:
            add(k[1], k[2], False)
            add(k[2], k[1], False)
        elif k[0] == '=' and num(v):
            add(k[1], v, False)
            add(v, k[1], False)
    return g


def _reach(st, a, b, strict):
    """a < b (strict) or a <= b follows from the recorded orderings"""
    if not st.facts and lin(a)[0] != lin(b)[0]:
        return False
    g = le_edges(st)
    ba, ka = lin(a)
    bb, kb = lin(b)
    best = {}
    todo = [(ba, ka, False)]
    steps = 0
    while todo and steps < 400:
        steps += 1
        x, k, s = todo.pop()
        if x == bb and (k < kb or k == kb and (s or not strict)):
            return True
        o = best.get(x)
        if o is not None and (o[0] < k or o[0] == k and (o[1] or not s)):
            continue
        best[x] = (k, s)
        for y, c, t in g.get(x, ()):
            todo.append((y, k + c, s or t))
    return False


def reach_lt(st, a, b):
    return _reach(st, a, b, True)


def reach_le(st, a, b):
    return _reach(st, a, b, False)


def known_le(st, a, b):
    r = known_lt(st, b, a)
    if r is not None:
        return not r
    return True if reach_le(st, a, b) else None


def assume_eq(st, a, b, want):
    """mutates st; False when contradictory"""
    k = known_eq(st, a, b)
    if k is not None:
        return k == want
    if any(q[0] == 'lt' and (a == q[1] or a == q[2]) for q in st.facts):
        if want and (reach_lt(st, a, b) or reach_lt(st, b, a)) or not want and reach_le(st, a, b) and reach_le(st, b, a):
            return False
    x, y = order(a, b)
    if want and y[0] in ('c', 's'):
        # every recorded disequality/equality with other constants follows from the binding
        st.facts[('=', x)] = y
        for q in [q for q in st.facts if q[0] == 'eq' and x in (q[1], q[2]) and (q[2][0] in ('c', 's') or q[1][0] in ('c', 's'))]:
            del st.facts[q]
        st._k = None
        for q, v in list(st.facts.items()):
            if q[0] == 'eq' and v and x in (q[1], q[2]):
                o = q[2] if q[1] == x else q[1]
                if o[0] not in ('c', 's') and ('=', o) not in st.facts:
                    st.facts[('=', o)] = y
            elif q[0] == 'lt' and x in (q[1], q[2]):
                o1, o2 = (y if q[1] == x else q[1]), (y if q[2] == x else q[2])
                if o1[0] == 'c' and o2[0] == 'c':
                    try:
                        if (o1[1] < o2[1]) != v:
                            return False
                    except TypeError:
                        pass
        return True
    st.facts[('eq', x, y)] = want
    if want:
        cx, cy = const_of(st, x), const_of(st, y)
        if cx is not None and cy is None:
            return assume_eq(st, y, cx, True)
        if cy is not None and cx is None:
            return assume_eq(st, x, cy, True)
    st._k = None
    return True


def assume_lt(st, a, b, want):
    k = known_lt(st, a, b)
    if k is not None:
        return k == want
    st.facts[('lt', a, b)] = want
    st._k = None
    if not want and st.facts.get(('lt', b, a)) is False:
        return assume_eq(st, a, b, True)
    return True


REL = {'==': ('eq', 0, 0), '!=': ('eq', 0, 1), '<': ('lt', 0, 0), '>': ('lt', 1, 0), '>=': ('lt', 0, 1), '<=': ('lt', 1, 1)}


def rel_term(op, a, b):
    kind, swap, neg = REL[op]
    if swap:
        a, b = b, a
    t = ('rel', kind, a, b)
    return ('not', t) if neg else t


def isbool(v):
    return v[0] in ('not', 'rel', 'and', 'or') or v in (('c', 0), ('c', 1))


def cond(v):
    """bit operations on conditions"""
    if v[0] == 'op' and len(v) == 4:
        if v[1] == '|':
            return ('or', v[2], v[3])
        if v[1] == '&' and isbool(v[2]) and isbool(v[3]):
            return ('and', v[2], v[3])
    return v


def truth(st, v):
    """True / False / None for a value used as a condition"""
    v = cond(v)
    if v[0] == 'c':
        return bool(v[1])
    if v[0] == 'not':
        r = truth(st, v[1])
        return None if r is None else not r
    if v[0] == 'rel':
        return known_eq(st, v[2], v[3]) if v[1] == 'eq' else known_lt(st, v[2], v[3])
    if v[0] in ('and', 'or'):
        a, b = truth(st, v[1]), truth(st, v[2])
        if v[0] == 'and':
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None
    r = known_eq(st, v, ZERO)
    return None if r is None else not r


def assume(st, v, want):
    """mutates st; False when the branch is infeasible"""
    v = cond(v)
    if v[0] == 'not':
        return assume(st, v[1], not want)
    if v[0] == 'rel':
        return assume_eq(st, v[2], v[3], want) if v[1] == 'eq' else assume_lt(st, v[2], v[3], want)
    if v[0] == 'c':
        return bool(v[1]) == want
    if v[0] == 'and' and want or v[0] == 'or' and not want:
        return assume(st, v[1], want) and assume(st, v[2], want)
    if v[0] in ('and', 'or'):
        t = truth(st, v)
        if t is not None:
            return t == want
        a, b = truth(st, v[1]), truth(st, v[2])
        if a is not None:
            return assume(st, v[2], want)
        if b is not None:
            return assume(st, v[1], want)
        return True
    return assume_eq(st, v, ZERO, not want)


# ---------------------------------------------------------------- rules
class Rule:
    depth = 4          # inlining bound
    eh = False         # follow exceptional edges

    def throws(self, n):
        return True
    cap = CAP
    max_nodes = 4000   # callees larger than this are not inlined
    name = ''

    def init(self):
        return None

    events = ()        # names of functions the rule reacts to (callees that reach one are inlined)
    fields = ()        # names of fields whose writes matter to the rule
    small = 60         # callees up to this many nodes are inlined for their value whatever they touch
    exit_cap = 12      # states kept per automaton state when a callee returns

    def opaque(self, eng, fn):
        """True: do not inline this callee"""
        return False

    def keyfact(self, k):
        """False: states that differ only in this fact are joined where they meet"""
        return True

    def pure(self, eng, name):
        """True: result depends on the argument values only"""
        return False

    def on_call(self, eng, st, fr, nid, name, obj, args):
        """called for every call site before it is analysed; may change st.rs; returns None, or a list of (state, value)
        that replaces the analysis of the call"""

    def on_return_from(self, eng, st, fr, nid, name, val):
        pass

    def on_write(self, eng, st, fr, nid, loc, val):
        pass

    def on_assign(self, eng, st, fr, nid, loc, val):
        pass

    def on_return(self, eng, st, fr, nid, val):
        pass

    def on_set(self, eng, st, fr, nid, loc, val):
        """another value for what is assigned, or None"""

    def on_compound(self, eng, st, fr, nid, loc, op, val):
        pass

    def on_exit(self, eng, st, fr, kind, ret):
        """kind: 'return' | 'throw' (only the analysed entry function)"""

    def on_branch(self, eng, st, fr, nid, val):
        pass

    def on_deref(self, eng, st, fr, nid, val):
        pass

    def on_new(self, eng, st, fr, nid, val):
        pass

    def on_delete(self, eng, st, fr, nid, val):
        pass

    def on_local_exit(self, eng, st, fr, var):
        pass

    def on_incr(self, eng, st, fr, nid, loc, val):
        """value after ++/-- of a location, or None"""

    def on_decl(self, eng, st, fr, nid, d, val):
        """value a declared variable starts with, or None"""

    affine = False     # keep linear relations between variables at loop heads instead of forgetting counters

    def on_loop(self, eng, st, fr, head, again):
        """a loop head is reached (again: over the back edge); False drops the state"""
        return True

    def on_load(self, eng, st, fr, nid, loc):
        """value read through a dereference or subscript, or None"""

    def on_compare(self, eng, st, fr, nid, n):
        """list of (state, value) for a comparison, or None"""


class Frame:
    __slots__ = ('fn', 'id', 'this', 'depth', 'stack', 'us', 'parent', 'caller')

    def __init__(self, fn, id, this, depth, stack, parent=None, us=frozenset(), caller=None):
        self.fn = fn
        self.caller = caller
        self.us = us | {fn.u}
        self.id = id
        self.this = this
        self.depth = depth
        self.stack = stack
        self.parent = parent


_known = set()


def helper(fu):
    """a lambda, or a function the rules do not know by name: always looked into"""
    if fu.d.get('lambda'):
        return True
    if not _known:
        with open(fx.VERIF + '/lib/known.txt') as fh:
            _known.update(fh.read().split('\n'))
    r = fu.d.get('helper')
    if r is None:
        r = fu.d['helper'] = fu.n not in _known and fu.file.startswith(fx.SRC)
    return r


PASS_METHODS = {'get', 'load', 'value', 'operator->', 'operator*', 'operator bool', 'has_value', 'release_ptr'}
PASS_FUNCS = {'std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::launder', 'std::as_bytes'}
CASTS = {'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr',
         'CXXDynamicCastExpr', 'CXXStdInitializerListExpr', 'AttributedStmt', 'UserDefinedLiteral', 'ConstantExpr', 'CXXDefaultInitExpr', 'CXXDefaultArgExpr'}
ASSIGN_NAMES = ('operator=',)


def own_vars(fn):
    c = fn._cache.get('own')
    if c is None:
        c = {p['d'] for p in fn.params}
        for n in fn.nodes:
            for v in n.get('vars', ()):
                c.add(v['d'])
                c.update(v.get('bind', ()))
            c.update(v['d'] for v in n.get('caps', ()) if 'ic' in v)
        fn._cache['own'] = c
    return c


def is_ref(t):
    return t.endswith('&')


def const_ref(t):
    return t.endswith('&') and t.startswith('const ')


class Engine:
    def __init__(self, prog, rule):
        self.p = prog
        self.rule = rule
        self.findings = {}
        self.n_states = 0
        self.n_funcs = set()
        self.n_sites = set()
        self._mod = {}
        self._live = {}
        self._rel = {}
        self._entered = set()

    def report(self, fr, nid, msg, key=None):
        f = fr.fn
        via = ''
        if len(fr.stack) > 1:
            via = ' (reached through %s)' % ' -> '.join(x.split('::')[-1] for x in fr.stack[:-1])
        loc = f.loc(nid)
        k = key or (loc, msg)
        self.findings.setdefault(k, '%s: %s: %s%s' % (loc, f.n, msg, via))

    # ---- locations
    def frame_key(self, fr):
        return fr.id

    def root(self, loc):
        while loc[0] in ('f', 'i'):
            loc = loc[1]
        return loc

    def fieldkey(self, loc):
        while loc[0] == 'i':
            loc = loc[1]
        return loc[2] if loc[0] == 'f' else None

    def read(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] == 'm':
            return loc[1]
        if loc[0] == 'f':
            if loc[2] in st.hv and self.root(loc)[0] not in ('v', 'm'):
                return ('h', st.hv[loc[2]], loc)
            b = self.read_base(st, loc[1])
            if b is not None:
                return self.fld(b, loc[2])
        elif loc[0] == 'i':
            b = self.read_base(st, loc[1])
            if b is not None:
                return ('elt', b, loc[2])
        return ('l', loc)

    def fld(self, b, f):
        if b[0] == 'l':
            return ('l', ('f', b[1], f))
        if b[0] == 'upd':
            for k, v in b[2]:
                if k == f:
                    return v
            return self.fld(b[1], f)
        if b[0] == 'k' and len(b[2]) == 1 and (b[2][0][0] == 'upd' or b[2][0][0] == 'k' and b[2][0][1] == b[1]):
            return self.fld(b[2][0], f)
        if b[0] == 'k' and f in ('std::pair::first', 'std::pair::second') and len(b[2]) == 2:
            return b[2][0 if f.endswith('first') else 1]
        return ('fld', b, f)

    def read_base(self, st, loc):
        """value of a base object when it has been bound to something, else None"""
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] == 'm':
            return loc[1]
        if loc[0] == 'f':
            if loc[2] in st.hv and self.root(loc)[0] not in ('v', 'm'):
                return ('h', st.hv[loc[2]], loc)
            b = self.read_base(st, loc[1])
            return None if b is None else self.fld(b, loc[2])
        if loc[0] == 'i':
            b = self.read_base(st, loc[1])
            return None if b is None else ('elt', b, loc[2])
        return None

    def write(self, st, loc, val):
        st._k = None
        fk = loc[2] if loc[0] == 'f' else None
        rt = self.root(loc)[0]
        dele = []
        for l in st.env:
            if l != loc and within(l, loc):
                dele.append(l)
            elif fk and l[0] == 'f' and l[2] == fk and l != loc and rt not in ('v', 'm', 'g') and self.root(l)[0] not in ('v', 'm', 'g') and rt != self.root(l)[0]:
                dele.append(l)
        for l in dele:
            del st.env[l]
        same = st.env.get(loc) == val
        st.env[loc] = val
        # drop facts about a value re-created at the same site
        if val[0] == 'h' and not same:
            self.forget(st, val)

    def forget(self, st, val):
        d = [k for k in st.facts if contains(k, val)]
        for k in d:
            del st.facts[k]
        if d:
            st._k = None

    def havoc(self, st, fr, nid, loc, tag=0):
        self.write(st, loc, ('h', (fr.id, nid, tag), loc))

    # ---- expression evaluation
    def loc_of_val(self, v):
        if v[0] == 'addr':
            return v[1]
        return ('d', v)

    def lv(self, st, fr, i):
        """location denoted by node i"""
        n = fr.fn.nodes[i]
        k = n['k']
        sv = st.vals.get((fr.id, i))
        if sv is not None:
            return sv[1] if sv[0] == 'L' else ('m', sv)
        if k == 'DeclRefExpr':
            dk = n.get('dk')
            if dk in ('param', 'local', 'static', 'binding') or dk == 'var':
                h = fr
                if fr.parent is not None:
                    # captured variable of an enclosing frame
                    while h is not None and n['d'] not in own_vars(h.fn):
                        h = h.parent
                    h = h or fr
                b = st.env.get(('ref', n['d'], h.id))
                return b if b is not None else ('v', n['d'], h.id)
            return ('g', n.get('d') or n.get('n'))
        if k == 'MemberExpr' and n.get('fd'):
            cs = n.get('c', ())
            if not cs:
                return ('f', fr.this, n['cls'] + '::' + n['n'])
            if n.get('ar'):
                pv = self.ev(st, fr, cs[0])
                if fr.fn.nodes[cs[0]]['k'] != 'CXXThisExpr':
                    self.rule.on_deref(self, st, fr, i, pv)
                b = self.loc_of_val(pv)
            else:
                b = self.lv(st, fr, cs[0])
            return ('f', b, n['cls'] + '::' + n['n'])
        if k == 'MemberExpr':
            return ('g', n.get('cls', '') + '::' + n.get('n', ''))
        if k == 'UnaryOperator' and n['op'] == '*':
            pv = self.ev(st, fr, n['c'][0])
            self.rule.on_deref(self, st, fr, i, pv)
            return self.loc_of_val(pv)
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            return self.lv(st, fr, n['c'][0])
        if k == 'UnaryOperator' and n['op'] == '__extension__':
            return self.lv(st, fr, n['c'][0])
        if k == 'ArraySubscriptExpr':
            b = self.ev(st, fr, n['c'][0])
            x = self.ev(st, fr, n['c'][1])
            if b[0] == 'addr':
                return ('i', b[1], x)
            return ('i', ('d', b), x)
        if k in CASTS and n.get('c'):
            return self.lv(st, fr, n['c'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n['op'] not in REL:
            return self.lv(st, fr, n['c'][0])
        if k == 'ConditionalOperator':
            t = truth(st, self.ev(st, fr, n['c'][0]))
            if t is not None:
                return self.lv(st, fr, n['c'][1] if t else n['c'][2])
            return ('m', ('h', (fr.id, i, 'cond'), ZERO))
        if k == 'CXXThisExpr':
            return ('m', ('addr', fr.this))
        return ('m', self.ev(st, fr, i))

    def ev(self, st, fr, i):
        """value of node i"""
        n = fr.fn.nodes[i]
        sv = st.vals.get((fr.id, i))
        if sv is not None:
            return self.read(st, sv[1]) if sv[0] == 'L' else sv
        if 'v' in n and n['k'] not in ('CaseStmt',):
            return ('c', n['v'])
        k = n['k']
        c = n.get('c', ())
        if k == 'CXXNullPtrLiteralExpr':
            return ZERO
        if k == 'StringLiteral':
            return ('s', n.get('s', ''))
        if k == 'FloatingLiteral':
            return ('c', n.get('fv', 0))
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            if k == 'DeclRefExpr' and n.get('dk') == 'func':
                return ('fn', n.get('u'))
            if k == 'MemberExpr' and not n.get('fd'):
                return ('fn', n.get('cls', '') + '::' + n.get('n', ''))
            l = self.lv(st, fr, i)
            t = n.get('t', '')
            if t.endswith(']'):
                return ('addr', l)
            if k == 'ArraySubscriptExpr':
                q = self.rule.on_load(self, st, fr, i, l)
                if q is not None:
                    return q
            return self.read(st, l)
        if k == 'CXXThisExpr':
            return ('addr', fr.this)
        if k == 'UnaryOperator':
            op = n['op']
            if op == '!':
                return self.neg(self.ev(st, fr, c[0]))
            if op == '&':
                if fr.fn.nodes[c[0]].get('dk') == 'func':
                    return self.ev(st, fr, c[0])
                return ('addr', self.lv(st, fr, c[0]))
            if op == '*':
                l = self.lv(st, fr, i)
                q = self.rule.on_load(self, st, fr, i, l)
                return q if q is not None else self.read(st, l)
            if op in ('++', '--'):
                return self.read(st, self.lv(st, fr, c[0]))
            v = self.ev(st, fr, c[0])
            if op in ('-', '~') and v[0] == 'c' and isinstance(v[1], (int, float)):
                return ('c', -v[1] if op == '-' else ~v[1])
            if op == '__extension__':
                return v
            return ('op', op, v)
        if k == 'BinaryOperator':
            op = n['op']
            if op in REL:
                return rel_term(op, self.ev(st, fr, c[0]), self.ev(st, fr, c[1]))
            if op in ('&&', '||'):
                a = self.ev(st, fr, c[0])
                t = truth(st, a)
                if t is not None:
                    if op == '&&':
                        return self.ev(st, fr, c[1]) if t else ZERO
                    return C(1) if t else self.ev(st, fr, c[1])
                return ('and' if op == '&&' else 'or', a, self.ev(st, fr, c[1]))
            if op == ',':
                return self.ev(st, fr, c[1])
            if op.endswith('='):
                return self.read(st, self.lv(st, fr, c[0]))
            a, b = self.ev(st, fr, c[0]), self.ev(st, fr, c[1])
            return self.arith(op, a, b)
        if k == 'CompoundAssignOperator':
            return self.read(st, self.lv(st, fr, c[0]))
        if k == 'ConditionalOperator':
            t = truth(st, self.ev(st, fr, c[0]))
            if t is None:
                a, b = self.ev(st, fr, c[1]), self.ev(st, fr, c[2])
                return a if a == b else ('h', (fr.id, i, 'cond'), ZERO)
            return self.ev(st, fr, c[1] if t else c[2])
        if k in CASTS and c:
            return self.ev(st, fr, c[0])
        if k == 'LambdaExpr':
            for v in n.get('caps', ()):
                if 'ic' in v and 'init' in v and ('v', v['d'], fr.id) not in st.env and ('ref', v['d'], fr.id) not in st.env:
                    if v.get('ref'):
                        st.env[('ref', v['d'], fr.id)] = self.lv(st, fr, v['init'])
                    else:
                        st.env[('v', v['d'], fr.id)] = self.ev(st, fr, v['init'])
                    st._k = None
            return ('lam', tuple(n['fns']), fr.id)
        if k in ('InitListExpr', 'ParenListExpr'):
            if len(c) == 1:
                return self.ev(st, fr, c[0])
            if not c:
                t = n.get('t', '')
                if t in ('int', 'bool', 'double') or t.endswith('*'):
                    return ZERO
            return ('k', n.get('t', ''), tuple(self.ev(st, fr, x) for x in c))
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            return ZERO
        if k == 'CXXNewExpr':
            return ('new', fr.id, i)
        if k == 'CXXThrowExpr':
            return ZERO
        if 'fn' in n or 'args' in n:
            # call not seen as an element (constant folded, default arguments, ...)
            return ('call', n.get('fn', '?'), fr.id, i)
        return ('x', k, fr.id, i)

    def neg(self, v):
        if v[0] == 'not':
            return v[1]
        if v[0] == 'c':
            return C(0 if v[1] else 1)
        return ('not', v)

    def arith(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[1], b[1]
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y,
                     '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}.get(op, lambda: None)()
                if r is not None:
                    return ('c', r)
            except (TypeError, ValueError):
                pass
        if op in ('+', '-') and b == ZERO:
            return a
        if op == '-' and a == b:
            return ZERO
        if op == '+' and a[0] == 'c' and isinstance(a[1], int):
            a, b = b, a
        if op in ('+', '-') and b[0] == 'c' and isinstance(b[1], int):
            k = b[1] if op == '+' else -b[1]
            while a[0] == 'op' and a[1] in ('+', '-') and len(a) == 4 and a[3][0] == 'c' and isinstance(a[3][1], int):
                k += a[3][1] if a[1] == '+' else -a[3][1]
                a = a[2]
            return a if k == 0 else ('op', '+', a, ('c', k)) if k > 0 else ('op', '-', a, ('c', -k))
        if op in ('+', '*', '&', '|', '^') and repr(b) < repr(a) and b[0] != 'c':
            a, b = b, a
        if op in ('+', '*', '&', '|', '^') and a[0] == 'c':
            a, b = b, a
        return ('op', op, a, b)

    # ---- call handling; returns list of (state, value) ; value ('L', loc) for lvalues
    def call(self, st, fr, i, ehq):
        n = fr.fn.nodes[i]
        k = n['k']
        rule = self.rule
        name = n.get('fn', '')
        uid = n.get('fu')
        short = name.split('::')[-1]
        args = n.get('args', [])
        oi = n.get('obj', -1)
        self.n_sites.add((fr.fn.u, i))
        op = n.get('op') if k == 'CXXOperatorCallExpr' else None
        nodes = fr.fn.nodes
        # construction
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            r = rule.on_call(self, st, fr, i, name, None, args)
            if r is not None:
                return r
            a = [x for x in args if x >= 0]
            if n.get('cc') or (len(a) == 1 and self.transparent_ctor(n)):
                if len(a) >= 1:
                    l = self.lv(st, fr, a[0])
                    v = self.read(st, l)
                    return [(st, v if v[0] != 'l' or l[0] == 'm' else v)]
            if len(a) == 0 and n.get('cls', '').startswith(('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::optional', 'std::function')):
                return [(st, ZERO)]
            fu = self.p.funcs.get(uid)
            if fu is not None and fu.d.get('inits') is not None and rule_wants_ctor(rule) and self.can_inline(fr, fu):
                tmp = ('o', fr.id, i)
                return [(s, ('L', tmp)) for s, v in self.inline(st, fr, i, fu, tmp, args, ehq)]
            vals = []
            for x in a:
                v = self.ev(st, fr, x)
                vals.append(v)
            self.kill_args(st, fr, i, n, args)
            t = n.get('cls') or n.get('t', '')
            return [(st, ('k', t, tuple(vals)))]
        # operators that are plain expressions
        if op in REL and len(args) + (1 if oi >= 0 else 0) == 2:
            ops = ([oi] if oi >= 0 else []) + args
            r = rule.on_call(self, st, fr, i, name, None, args)
            if r is not None:
                return r
            return [(st, rel_term(op, self.ev(st, fr, ops[0]), self.ev(st, fr, ops[1])))]
        if op == '!' and (oi >= 0 or args):
            r = rule.on_call(self, st, fr, i, name, oi, args)
            if r is not None:
                return r
            return [(st, self.neg(self.ev(st, fr, oi if oi >= 0 else args[0])))]
        if op in ('->', '*') and (oi >= 0 or len(args) == 1):
            x = oi if oi >= 0 else args[0]
            v = self.ev(st, fr, x)
            rule.on_call(self, st, fr, i, name, x, args)
            if op == '->':
                return [(st, v)]
            rule.on_deref(self, st, fr, i, v)
            return [(st, ('L', self.loc_of_val(v)))]
        if op == '=' and (oi >= 0 or len(args) == 2):
            tgt, src = (oi, args[0]) if oi >= 0 else (args[0], args[1])
            fu = self.p.funcs.get(uid)
            l = self.lv(st, fr, tgt)
            if fu is None or not self.interesting_assign(fu) or not self.can_inline(fr, fu):
                v = self.ev(st, fr, src)
                rs = rule.on_call(self, st, fr, i, name, tgt, args)
                if rs is not None:
                    return rs
                rule.on_assign(self, st, fr, i, l, v)
                self.write(st, l, v)
                return [(st, ('L', l))]
        if op == '[]' and oi >= 0:
            fu = self.p.funcs.get(uid)
            if fu is None or not self.can_inline(fr, fu):
                l = self.lv(st, fr, oi)
                x = self.ev(st, fr, args[0])
                rs = rule.on_call(self, st, fr, i, name, oi, args)
                if rs is not None:
                    return rs
                b = self.read(st, l)
                if nodes[oi].get('t', '').endswith('*') or b[0] == 'addr':
                    return [(st, ('L', ('i', self.loc_of_val(b), x)))]
                return [(st, ('L', ('i', l, x)))]
        if op in ('+', '-', '*', '/', '|', '&', '^', '%', '<<', '>>') and len(args) + (1 if oi >= 0 else 0) == 2 and not n.get('lv'):
            ops = ([oi] if oi >= 0 else []) + args
            r = rule.on_call(self, st, fr, i, name, oi if oi >= 0 else None, args)
            if r is not None:
                return r
            return [(st, self.arith(op, self.ev(st, fr, ops[0]), self.ev(st, fr, ops[1])))]
        if op in ('++', '--', '+=', '-=', '*=', '/=', '|=', '&=', '<<', '>>') and (oi >= 0 or args):
            x = oi if oi >= 0 else args[0]
            l = self.lv(st, fr, x)
            r = rule.on_call(self, st, fr, i, name, x, args)
            if r is not None:
                return r
            if op in ('<<', '>>'):
                self.kill_args(st, fr, i, n, args)
            self.havoc(st, fr, i, l)
            return [(st, ('L', l))]
        if name == 'std::swap' and len(args) == 2:
            a, b = self.lv(st, fr, args[0]), self.lv(st, fr, args[1])
            r = rule.on_call(self, st, fr, i, name, None, args)
            if r is not None:
                return r
            va, vb = self.read(st, a), self.read(st, b)
            if a != b:
                self.write(st, a, vb)
                self.write(st, b, va)
            return [(st, ZERO)]
        if name == 'std::exchange' and len(args) == 2:
            l = self.lv(st, fr, args[0])
            old, v = self.read(st, l), self.ev(st, fr, args[1])
            r = rule.on_call(self, st, fr, i, name, None, args)
            if r is not None:
                return r
            rule.on_assign(self, st, fr, i, l, v)
            self.write(st, l, v)
            return [(st, old)]
        if name in ('std::to_integer', 'std::to_underlying') and len(args) == 1:
            return [(st, self.ev(st, fr, args[0]))]
        if name in PASS_FUNCS and len(args) == 1:
            l = self.lv(st, fr, args[0])
            return [(st, ('L', l))]
        # general call
        r = rule.on_call(self, st, fr, i, name, oi if oi >= 0 else None, args)
        if r is not None:
            return r
        objloc = None
        if oi >= 0:
            on = nodes[oi]
            cal = n.get('c', [None])[0]
            ar = on.get('t', '').rstrip().endswith('*') or on.get('t', '').rstrip().endswith('*const')
            if ar:
                pv = self.ev(st, fr, oi)
                objloc = self.loc_of_val(pv)
                if on['k'] != 'CXXThisExpr':
                    rule.on_deref(self, st, fr, i, pv)
            else:
                objloc = self.lv(st, fr, oi)
        # lambdas / function objects held in a variable
        if op == '()' and oi >= 0:
            v = self.ev(st, fr, oi)
            if v[0] == 'lam':
                fus = [self.p.funcs[u] for u in v[1] if u in self.p.funcs]
                fus = [f for f in fus if f.u == uid] or fus
                if len(fus) >= 1 and self.can_inline(fr, fus[0]):
                    return self.inline(st, fr, i, fus[0], None, args, ehq, lamframe=v[2])
        targets = self.p.targets(n) if uid else []
        bodies = [self.p.funcs[u] for u in targets if u in self.p.funcs]
        if bodies and len(bodies) <= 3 and all(self.can_inline(fr, b) for b in bodies) and (len(bodies) == len([u for u in targets]) or not n.get('virt')):
            out = []
            for b in bodies:
                out += self.inline(st.copy() if len(bodies) > 1 else st, fr, i, b, objloc, args, ehq)
            return out
        if oi >= 0 and short in ('get', 'load', 'value', 'c_str') and not bodies and len(args) <= (1 if short == 'load' else 0):
            v = self.read(st, objloc)
            if n.get('lv'):
                return [(st, ('L', self.loc_of_val(v) if short == 'value' else ('m', v)))]
            return [(st, v if short != 'value' else v)]
        if oi >= 0 and short in ('store',) and not bodies and args:
            v = self.ev(st, fr, args[0])
            rule.on_write(self, st, fr, i, objloc, v)
            self.write(st, objloc, v)
            return [(st, ZERO)]
        if oi >= 0 and short == 'swap' and not bodies and len(args) == 1:
            b = self.lv(st, fr, args[0])
            va, vb = self.read(st, objloc), self.read(st, b)
            if objloc != b:
                self.write(st, objloc, vb)
                self.write(st, b, va)
            return [(st, ZERO)]
        if oi >= 0 and short in ('exchange',) and not bodies and args:
            old = self.read(st, objloc)
            v = self.ev(st, fr, args[0])
            rule.on_write(self, st, fr, i, objloc, v)
            self.write(st, objloc, v)
            return [(st, old)]
        if oi >= 0 and (short in ('has_value',) or short.startswith('operator ')) and not bodies:
            return [(st, self.read(st, objloc))]
        if oi >= 0 and short in ('front', 'back', 'at') and not bodies and n.get('lv'):
            x = self.ev(st, fr, args[0]) if args else ('s', short)
            return [(st, ('L', ('i', objloc, x)))]
        vals = tuple(self.ev(st, fr, a) for a in args if a >= 0)
        pure = rule.pure(self, name) or (oi >= 0 and n.get('cm') and not bodies and not n.get('virt') and uid and 'helics' not in name.split('(')[0].split('<')[0])
        if pure:
            o = self.read(st, objloc) if objloc is not None else None
            val = ('p', name) + ((o,) if o is not None else ()) + vals
            # the address-like content of an unmodified object is its location
            if n.get('lv'):
                return [(st, ('L', self.loc_of_val(val)))]
            return [(st, val)]
        # opaque: forget what it may change
        lam_states = [st]
        for a in args:
            if a < 0:
                continue
            v = self.ev(st, fr, a)
            if v[0] == 'lam':
                fus = [self.p.funcs[u] for u in v[1] if u in self.p.funcs]
                if fus and self.can_inline(fr, fus[0]):
                    nxt = []
                    for s in lam_states:
                        for s2, _ in self.inline(s.copy(), fr, i, fus[0], None, None, ehq, lamframe=v[2]):
                            nxt.append(s2)
                        nxt.append(s)
                    lam_states = self.dedupe(nxt)
        out = []
        for s in lam_states:
            self.kill_args(s, fr, i, n, args)
            if objloc is not None and not n.get('cm') and not (nodes[oi]['k'] == 'CXXThisExpr' or bodies):
                if not n.get('static'):
                    rule.on_write(self, s, fr, i, objloc, ('h', (fr.id, i, 'obj'), objloc))
                    self.havoc(s, fr, i, objloc, 'obj')
            ms = set()
            for u in targets:
                if u in self.p.funcs:
                    ms |= self.modset(u)
            if ms:
                self.kill_fields(s, fr, i, ms)
            val = ('call', name, fr.id, i)
            self.forget(s, val)
            rule.on_return_from(self, s, fr, i, name, val)
            if n.get('lv'):
                val = ('L', self.loc_of_val(val))
            out.append((s, val))
        return out

    def transparent_ctor(self, n):
        t = n.get('cls', '') or ''
        t = t.split('<')[0]
        if t in ('std::shared_ptr', 'std::unique_ptr', 'std::basic_string_view', 'std::basic_string', 'std::optional', 'std::function', 'TimeRepresentation', 'std::atomic', 'std::__cxx11::basic_string', 'std::weak_ptr'):
            return True
        if t.endswith('Iterator') or 'iterator' in t:
            return True
        return t in ('helics::GlobalFederateId', 'helics::GlobalBrokerId', 'helics::GlobalHandle', 'helics::BaseType')

    def interesting_assign(self, fu):
        return not fu.d.get('defaulted') and len(fu.nodes) > 0

    def kill_args(self, st, fr, i, n, args):
        pts = n.get('pt', [])
        for j, a in enumerate(args):
            if a < 0:
                continue
            t = pts[j] if j < len(pts) else (pts[-1] if pts else '')
            if t.endswith('&&') or (t.endswith('&') and not t.startswith('const ')):
                l = self.lv(st, fr, a)
                if l[0] != 'm':
                    self.rule.on_write(self, st, fr, i, l, ('h', (fr.id, i, j), l))
                    self.havoc(st, fr, i, l, j)
            elif t.endswith('*') and not t.startswith('const '):
                v = self.ev(st, fr, a)
                if v[0] == 'addr':
                    self.rule.on_write(self, st, fr, i, v[1], ('h', (fr.id, i, j), v[1]))
                    self.havoc(st, fr, i, v[1], j)

    def kill_fields(self, st, fr, i, ms):
        st._k = None
        dele = []
        for l in st.env:
            if l[0] == 'ref' or self.root(l)[0] in ('v', 'm'):
                continue
            x = l
            while x[0] in ('f', 'i'):
                if x[0] == 'f' and x[2] in ms:
                    dele.append(l)
                    break
                x = x[1]
        for l in dele:
            del st.env[l]
        site = (fr.id, i)
        # only fields that are actually talked about
        for k in ms:
            st.hv[k] = site
        d = [f for f in st.facts if self._mentions_site(f, site)]
        for f in d:
            del st.facts[f]

    def _mentions_site(self, t, site):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'h' and t[1] == site:
                return True
            return any(self._mentions_site(x, site) for x in t if isinstance(x, tuple))
        return False

    # ---- mod sets
    def modset(self, u):
        m = self._mod.get(u)
        if m is not None:
            return m
        # reachability closure over direct sets
        out = set()
        seen = set()
        todo = [u]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.p.funcs.get(x)
            if f is None:
                continue
            out |= self.direct_mod(f)
            todo += [c for c in self.p.callees(f) if c not in seen]
        self._mod[u] = out
        return out

    def direct_mod(self, f):
        m = f._cache.get('mod')
        if m is not None:
            return m
        m = set()

        def root_local(i):
            while True:
                n = f.nodes[i]
                if n['k'] == 'MemberExpr' and n.get('fd') and n.get('c'):
                    if n.get('ar'):
                        return False
                    i = n['c'][0]
                    continue
                if n['k'] in ('ArraySubscriptExpr',) or n.get('op') == '[]':
                    i = n.get('obj', n['c'][0])
                    continue
                if n['k'] == 'DeclRefExpr':
                    return n.get('dk') == 'local' and not n.get('rt')
                return False

        def add(i):
            n = f.nodes[i]
            while n['k'] in ('ArraySubscriptExpr',) or n.get('op') == '[]' or n['k'] in CASTS or (n['k'] == 'CXXMemberCallExpr' and n.get('fn', '').split('::')[-1] in ('at', 'front', 'back')):
                c = n.get('obj', n['c'][0] if n.get('c') else None)
                if c is None:
                    return
                i = c
                n = f.nodes[i]
            if n['k'] == 'MemberExpr' and n.get('fd') and not root_local(i):
                m.add(n['cls'] + '::' + n['n'])
        for i in f.walk():
            n = f.nodes[i]
            k = n['k']
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in REL:
                add(n['c'][0])
            elif k == 'UnaryOperator' and n['op'] in ('++', '--', '&'):
                add(n['c'][0])
            elif 'fn' in n and k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                if n.get('obj', -1) >= 0 and not n.get('cm'):
                    add(n['obj'])
                elif k == 'CXXOperatorCallExpr' and n.get('obj', -1) < 0 and n.get('op') in ('=', '+=', '-=', '++', '--', '<<') and n.get('args'):
                    add(n['args'][0])
                for j, a in enumerate(n.get('args', ())):
                    pt = n.get('pt', [])
                    t = pt[j] if j < len(pt) else ''
                    if a >= 0 and t.endswith('&') and not t.startswith('const '):
                        add(a)
            elif 'args' in n:
                for j, a in enumerate(n.get('args', ())):
                    pt = n.get('pt', [])
                    t = pt[j] if j < len(pt) else ''
                    if a >= 0 and t.endswith('&') and not t.startswith('const '):
                        add(a)
        f._cache['mod'] = m
        return m

    # ---- inlining
    def can_inline(self, fr, fu):
        if fu.u in fr.us or 'cfg' not in fu.d or fu.d.get('dep') and not fu.d.get('lambda') or len(fu.nodes) > self.rule.max_nodes:
            return False
        if helper(fu):
            return fr.depth < 12
        if fr.depth >= self.rule.depth or self.rule.opaque(self, fu):
            return False
        if (self.rule.events or self.rule.fields) and len(fu.nodes) > self.rule.small:
            return self.relevant(fu)
        return True

    def relevant(self, fu):
        r = self._rel.get(fu.u)
        if r is None:
            r = False
            ev, fl = set(self.rule.events), set(self.rule.fields)
            seen, todo = set(), [fu.u]
            while todo and not r:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                f = self.p.funcs.get(x)
                if f is None:
                    continue
                if fl and self.direct_mod(f) & fl:
                    r = True
                for i in f.calls():
                    if f.nodes[i].get('fn') in ev:
                        r = True
                todo += [c for c in self.p.callees(f) if c not in seen]
            self._rel[fu.u] = r
        return r

    def inline(self, st, fr, i, fu, objloc, args, ehq, lamframe=None):
        parent, this = None, objloc if objloc is not None else fr.this
        if lamframe is not None:
            parent = fr
            while parent is not None and parent.id != lamframe:
                parent = parent.caller
            parent = parent or fr
            this = parent.this
        sub = Frame(fu, fr.id + ((i, fu.line),), this, fr.depth + (0.01 if helper(fu) else 1), fr.stack + (fu.n,), parent, fr.us, fr)
        st._k = None
        # bind parameters
        n = fr.fn.nodes[i]
        if helper(fu):
            self._entered.add((fr.fn.u, i))     # what it throws leaves from inside
        for j, p in enumerate(fu.params):
            t = p['t']
            if args is None or j >= len(args) or args[j] < 0:
                v = ('h', (sub.id, 'param', j), ZERO)
                if is_ref(t):
                    st.env[('ref', p['d'], sub.id)] = ('m', v)
                else:
                    st.env[('v', p['d'], sub.id)] = v
                continue
            if is_ref(t):
                st.env[('ref', p['d'], sub.id)] = self.lv(st, fr, args[j])
            else:
                st.env[('v', p['d'], sub.id)] = self.ev(st, fr, args[j])
        res = self.run(fu, [st], sub)
        out = []
        for s, kind, ret in res:
            if kind == 'throw':
                ehq.append(s)
            else:
                out.append((s, ret if ret is not None else ZERO))
        # leave the frame
        fid = sub.id
        done = []
        for s, ret in out:
            self.leave(s, fid, ret, helper(fu))
            done.append((s, ret))
        for s in ehq:
            self.leave(s, fid, ZERO, helper(fu))
        seen, fin = set(), []
        for s, r in done:
            k = (s.key(), r)
            if k not in seen:
                seen.add(k)
                fin.append((s, r))
        if len(fin) > (max(400, self.rule.exit_cap) if helper(fu) else self.rule.exit_cap):
            groups = {}
            for s, r in fin:
                rk = r if r[0] in ('c', 's') else ('?',)
                groups.setdefault((s.rs, rk), []).append((s, r))
            fin = []
            for (rs, rk), l in groups.items():
                if len(l) <= 2:
                    fin += l
                    continue
                acc, rv = l[0]
                for s, r in l[1:]:
                    acc = self.join(acc, s, (fr.id, i))
                    if r != rv:
                        rv = ('h', (fr.id, i, 'ret'), ZERO)
                fin.append((acc, rv))
        return fin

    def leave(self, s, fid, ret, keep=False):
        n = len(fid)

        def of(l):
            if l[0] in ('v', 'ref'):
                f = l[2]
                return f[:n] == fid
            if l[0] in ('f', 'i'):
                return of(l[1])
            return False
        s.env = {k: v for k, v in s.env.items() if not of(k)}
        s.vals = {k: v for k, v in s.vals.items() if k[0][:n] != fid}
        reach = set()
        for k, v in s.env.items():
            subterms(v, reach)
        subterms(ret, reach)
        for v in s.vals.values():
            subterms(v, reach)
        drop = []
        for f in s.facts:
            for t in f[1:]:
                if isinstance(t, tuple) and self._framed(t, fid, n, reach, keep):
                    drop.append(f)
                    break
        for f in drop:
            del s.facts[f]
        s._k = None

    def _framed(self, t, fid, n, reach=(), keep=False):
        if t in reach:
            return False
        if t[0] == 'call' and len(t) == 4 and not keep:
            return t[2][:n] == fid
        if t[0] == 'h':
            if isinstance(t[1][0], tuple) and t[1][0][:n] == fid:
                return True
        if t[0] == 'l' and t[1][0] == 'v':
            return t[1][2][:n] == fid
        return any(self._framed(x, fid, n, reach, keep) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    def dedupe(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def join(self, a, b, tag):
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w == v:
                env[k] = v
            elif k[0] == 'ref':
                env[k] = ('m', ('h', ('join', tag), k))
            else:
                env[k] = ('h', ('join', tag), k)
        for k in b.env:
            if k not in env:
                env[k] = ('h', ('join', tag), k)
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        # a constant on one side and a disequality on the other
        for x, y in ((a, b), (b, a)):
            for k, v in x.facts.items():
                if k in facts:
                    continue
                if k[0] == 'eq' and v is False and known_eq(y, k[1], k[2]) is False:
                    facts[k] = False
                elif k[0] == 'lt' and known_lt(y, k[1], k[2]) == v:
                    facts[k] = v
        hv = dict(a.hv)
        hv.update(b.hv)
        for k in hv:
            if a.hv.get(k) != b.hv.get(k):
                hv[k] = ('join', tag)
        facts = {k: v for k, v in facts.items() if not self._mentions_site(k, ('join', tag))}
        vals = {k: v for k, v in a.vals.items() if b.vals.get(k) == v}
        return State(env, facts, hv, vals, a.rs)

    def level(self, old, new):
        """variables of the loop body are gone at its head; anything else not assigned has its initial value"""
        for k in old.env.keys() ^ new.env.keys():
            if k in new.env and k[0] in ('v', 'ref', 'idxof', 'idxfrom'):
                del new.env[k]
            elif k[0] in ('f', 'i', 'd'):
                (old if k in new.env else new).env[k] = ('l', k)
        new._k = None
        return new

    def widen(self, old, new, tag):
        """smallest state of linear relations that covers both; the old state when it covers the new one; None when they differ otherwise"""
        diff = {}
        for k, v in old.env.items():
            w = new.env[k]
            if v == w:
                continue
            if k[0] in ('ref', 'in', 'has', 'idxof', 'idxfrom') or v[0] in ('s', 'addr', 'k', 'lam', 'it', 'end') or w[0] in ('s', 'addr', 'k', 'lam', 'it', 'end'):
                return None
            diff[k] = (linear.form(v), linear.form(w))
        if not diff:
            facts = {k: v for k, v in old.facts.items() if new.facts.get(k) == v}
            if len(facts) == len(old.facts):
                return old
            st = old.copy()
            st.facts = facts
            st._k = None
            return st
        unit = ('lp', tag, ())
        delta, val = {}, {}
        for k, ((a, x), (b, y)) in diff.items():
            d = {t: b.get(t, 0) - a.get(t, 0) for t in set(a) | set(b) if b.get(t, 0) != a.get(t, 0)}
            delta[k] = (d, y - x)
        covered = True
        st = new.copy()
        for k, (d, c) in delta.items():
            (a, x), _ = diff[k]
            f = dict(a)
            if c:
                if a.get(unit, 0) != c:
                    covered = False
                f[unit] = c
            for t, m in d.items():
                sy = ('lp', tag, t)
                if a.get(sy, 0) != m:
                    covered = False
                f[sy] = m
            st.env[k] = linear.term(f, x)
        if covered:
            ok = True
            for fk, fv in old.facts.items():
                if not self.fact_kept(fk, fv, old, new):
                    ok = False
            if ok:
                return old
        st.facts = {}
        for fk, fv in old.facts.items():
            for g in self.fact_kept(fk, fv, old, new, st):
                st.facts[g] = fv
        st.vals = {k: v for k, v in new.vals.items() if old.vals.get(k) == v}
        st._k = None
        return st

    def fact_kept(self, fk, fv, old, new, wid=None):
        """fact of the old state that also holds (of the same variables) in the new one, rephrased for the widened state"""
        out = [fk] if new.facts.get(fk) == fv else []
        if fk[0] != 'lt':
            return out
        for k, v in old.env.items():
            w = new.env.get(k)
            if w is None or w == v:
                continue
            for p in (1, 2):
                if linear.same(fk[p], v):
                    o = fk[3 - p]
                    for gk, gv in new.facts.items():
                        if gk[0] == 'lt' and gv == fv and gk[3 - p] == o and linear.same(gk[p], w):
                            x = fk[p] if wid is None else wid.env[k]
                            out.append(('lt', x, o) if p == 1 else ('lt', o, x))
        return out

    # ---- intraprocedural fixpoint
    def run(self, fn, init, fr):
        self.n_funcs.add(fn.u)
        cfg = fn.d['cfg']
        blocks = {b['id']: b for b in cfg['b']}
        live = self.liveness(fn)
        seen = {}
        work = []
        exits = []
        exit_keys = set()
        filt = type(self.rule).keyfact is not Rule.keyfact

        heads = loop_heads(fn) if self.rule.affine else ()
        entries = {}

        def push(bid, st, src=None):
            if bid is None or bid not in blocks:
                return
            lv = live.get(bid)
            if lv is not None:
                self.prune(st, fr, lv)
            if bid in heads:
                again = src in heads[bid]
                if self.rule.on_loop(self, st, fr, bid, again) is False:
                    return
                d = seen.setdefault(bid, {})
                if not again:
                    st.env.pop(('ent', bid), None)
                    st._k = None
                    st.env[('ent', bid)] = C(entries.setdefault((bid, st.key()), len(entries)))
                    st._k = None
                for q, old in list(d.items()) if again else ():
                    if old.rs == st.rs and old.hv == st.hv and old.env[('ent', bid)] == st.env[('ent', bid)] and not any(f in old.facts and old.facts[f] != v for f, v in st.facts.items()):
                        st = self.level(old, st)
                        w = self.widen(old, st, (fr.id, bid)) if old.env.keys() == st.env.keys() else None
                        if w is old:
                            return
                        if w is not None:
                            del d[q]
                            st = w
                            break
            k = st.key()
            d = seen.setdefault(bid, {})
            if k in d:
                return
            same = [q for q in d if q[0] == st.rs]
            if filt and same:
                kf = frozenset((f, v) for f, v in st.facts.items() if self.rule.keyfact(f))
                same = [q for q in same if frozenset((f, v) for f, v in d[q].facts.items() if self.rule.keyfact(f)) == kf]
            if len(same) >= (1 if filt else self.rule.cap):
                acc = st
                for q in same:
                    acc = self.join(acc, d[q], (fr.id, bid))
                acc._k = None
                k = acc.key()
                if k in d:
                    return
                for q in same:
                    del d[q]
                st = acc
            d[k] = st
            self.n_states += 1
            work.append((bid, st))

        for s in init:
            push(cfg['entry'], s)
        nwork = 0
        while work:
            bid, st = work.pop()
            nwork += 1
            if nwork > 60000:
                raise fx.Broken('analysis of %s does not converge' % fn.n)
            b = blocks[bid]
            if bid == cfg['exit']:
                kind = 'return'
                x = st.env.get(('exit', fr.id))
                if x is not None:
                    kind = 'throw'
                ret = st.env.get(('ret', fr.id))
                s = st.copy()
                s.env.pop(('ret', fr.id), None)
                s.env.pop(('exit', fr.id), None)
                s._k = None
                kk = (s.key(), kind, ret)
                if kk not in exit_keys:
                    exit_keys.add(kk)
                    exits.append((s, kind, ret))
                continue
            ehq = []
            cur = [st.copy()]
            threw = False
            for e in b['e']:
                nxt = []
                for s in cur:
                    nxt += self.element(s, fr, e, ehq)
                cur = nxt if len(cur) <= 1 and len(nxt) <= 1 else self.dedupe(nxt)
                if not cur:
                    break
                if isinstance(e, int) and fn.nodes[e]['k'] == 'CXXThrowExpr':
                    threw = True
            succ = b['s']
            if ehq:
                tgt = succ[1] if len(succ) == 2 and 'tk' not in b else None
                for s in ehq:
                    s._k = None
                    if tgt is None or tgt == cfg['exit']:
                        s.env[('exit', fr.id)] = ('c', 1)
                        push(cfg['exit'], s)
                    else:
                        push(tgt, s)
            if threw:
                for s in cur:
                    for t in succ:
                        if t == cfg['exit']:
                            s.env[('exit', fr.id)] = ('c', 1)
                            s._k = None
                        push(t, s.copy())
                continue
            self.flow(fr, b, blocks, cur, lambda t, x: push(t, x, bid), cfg)
        return exits

    def flow(self, fr, b, blocks, cur, push, cfg):
        succ = b['s']
        tk = b.get('tk')
        fn = fr.fn
        if not succ:
            return
        if tk == 'CXXTryStmt':
            for t in succ:
                for s in cur:
                    s2 = s.copy()
                    if t == cfg['exit']:
                        s2.env[('exit', fr.id)] = ('c', 1)
                    push(t, s2)
            return
        if len(succ) == 1:
            for s in cur:
                push(succ[0], s)
            return
        if tk is None:
            # call with an exceptional edge
            for s in cur:
                if self.rule.eh and succ[1] is not None and any(self.may_throw_elem(fr, e) for e in b['e'] if isinstance(e, int)):
                    s2 = s.copy()
                    if succ[1] == cfg['exit']:
                        s2.env[('exit', fr.id)] = ('c', 1)
                    self.rule.on_eh(self, s2, fr, b) if hasattr(self.rule, 'on_eh') else None
                    s2._k = None
                    push(succ[1], s2)
                push(succ[0], s)
            return
        if tk == 'SwitchStmt':
            for s in cur:
                v = self.ev(s, fr, b['c'])
                labs = []
                for t in succ:
                    lb = blocks[t].get('lab') if t in blocks else None
                    ln = fn.nodes[lb] if lb is not None and lb >= 0 else None
                    labs.append(ln if ln is not None and ln['k'] == 'CaseStmt' else None)
                cases = [(l['v'], l.get('v2', l['v'])) for l in labs if l is not None and 'v' in l]
                k = const_of(s, v)
                for t, l in zip(succ, labs):
                    s2 = s.copy()
                    if l is not None:
                        lo, hi = l['v'], l.get('v2', l['v'])
                        if lo == hi:
                            if not assume_eq(s2, v, C(lo), True):
                                continue
                        elif k is not None and not (lo <= k[1] <= hi):
                            continue
                    else:
                        ok = True
                        for lo, hi in cases:
                            if lo == hi:
                                ok = ok and assume_eq(s2, v, C(lo), False)
                            elif k is not None and lo <= k[1] <= hi:
                                ok = False
                        if not ok:
                            continue
                    self.clean(s2, fr, b)
                    push(t, s2)
            return
        if tk == 'CXXBindTemporaryExpr' or 'c' not in b:
            for s in cur:
                for t in succ:
                    push(t, s.copy())
            return
        for s in cur:
            v = self.ev(s, fr, b['c'])
            self.rule.on_branch(self, s, fr, b['c'], v)
            for t, want in ((succ[0], True), (succ[1], False)):
                if t is None:
                    continue
                s2 = s.copy()
                if assume(s2, v, want):
                    self.clean(s2, fr, b)
                    push(t, s2)

    def clean(self, s, fr, b):
        if b.get('tk') in ('&&', '||', 'ConditionalOperator'):
            return
        s.vals = {k: v for k, v in s.vals.items() if k[0] != fr.id}
        s._k = None

    def may_throw_elem(self, fr, e):
        n = fr.fn.nodes[e]
        return ('fn' in n or 'args' in n) and not n.get('nx') and (fr.fn.u, e) not in self._entered and self.rule.throws(n)

    def prune(self, st, fr, live):
        if fr.depth == 0:
            live = live | {p['d'] for p in fr.fn.params}
        d = [k for k in st.env if k[0] in ('v', 'ref') and k[2] == fr.id and k[1] not in live]
        if d:
            for k in d:
                del st.env[k]
            dd = [k for k in st.env if k[0] in ('f', 'i') and self.root(k)[0] == 'v' and self.root(k)[2] == fr.id and self.root(k)[1] not in live]
            for k in dd:
                del st.env[k]
        # facts about values nothing can name any more
        if st.facts:
            reach = set()
            for v in st.env.values():
                subterms(v, reach)
            for v in st.vals.values():
                subterms(v, reach)
            drop = []
            for f in st.facts:
                for t in f[1:]:
                    if isinstance(t, tuple) and self.unnamed(t, fr, live, reach) and not self.keep(t):
                        drop.append(f)
                        break
            for f in drop:
                del st.facts[f]
        st._k = None

    def keep(self, t):
        k = getattr(self.rule, 'keep', None)
        return k(t) if k else False

    def unnamed(self, t, fr, live, reach=()):
        if t in reach:
            return False
        if t[0] == 'call' and len(t) == 4 and t[2] == fr.id:
            return True
        if t[0] == 'l' and t[1][0] == 'v' and t[1][2] == fr.id and t[1][1] not in live:
            return True
        if t[0] == 'h' and isinstance(t[1], tuple) and t[1] and t[1][0] == fr.id and t[2][0] in ('v', 'c'):
            return True
        return any(self.unnamed(x, fr, live, reach) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    def liveness(self, fn):
        r = self._live.get(fn.u)
        if r is not None:
            return r
        blocks = fn.d['cfg']['b']
        use = {}
        alldecl = set()
        lam = set()
        for b in blocks:
            u = set()
            ids = [e for e in b['e'] if isinstance(e, int)] + ([b['c']] if 'c' in b else [])
            for e in b['e']:
                if not isinstance(e, int) and 'dtor' in e:
                    u.add(e['dtor'])
            for e in ids:
                for x in fn.walk(e):
                    n = fn.nodes[x]
                    if n['k'] == 'DeclRefExpr':
                        u.add(n['d'])
                    elif n['k'] == 'LambdaExpr':
                        lam.add(e)
                        for cp in n.get('caps', ()):
                            lam.add(cp if isinstance(cp, str) else cp.get('d') if isinstance(cp, dict) else cp)
            use[b['id']] = u
        live = {b['id']: set(use[b['id']]) for b in blocks}
        ch = True
        while ch:
            ch = False
            for b in blocks:
                l = live[b['id']]
                n0 = len(l)
                for s in b['s']:
                    if s in live:
                        l |= live[s]
                if len(l) != n0:
                    ch = True
        # variables bound by reference keep their targets alive only through the binding; lambdas keep everything they capture
        for l in live.values():
            l |= {x for x in lam if isinstance(x, str)}
        if any(n['k'] == 'LambdaExpr' for n in fn.nodes):
            live = {b['id']: None for b in blocks}
        self._live[fn.u] = live
        return live

    def element(self, st, fr, e, ehq):
        if isinstance(e, int):
            n = fr.fn.nodes[e]
            if n['k'] == 'CXXConstructExpr' and (n.get('mc') or n.get('cc')) and n.get('cls', '').startswith('helics::') and len(n.get('args', ())) == 1:
                w = self.whole(st, fr, n['args'][0], self.ev(st, fr, n['args'][0]))
                if w[0] == 'upd':
                    out = self.element1(st, fr, e, ehq)
                    for s in out:
                        s.vals[(fr.id, e)] = ('k', n['cls'], (w,))
                        s._k = None
                    return out
        return self.element1(st, fr, e, ehq)

    def element1(self, st, fr, e, ehq):
        rule = self.rule
        if not isinstance(e, int):
            if 'dtor' in e:
                rule.on_local_exit(self, st, fr, e)
            elif 'init' in e:
                i = e['e']
                if isinstance(i, int) and i >= 0:
                    l = ('f', fr.this, fr.fn.cls + '::' + e['init']) if e['init'] else None
                    if l:
                        v = self.ev(st, fr, i)
                        rule.on_assign(self, st, fr, i, l, v)
                        self.write(st, l, v)
            return [st]
        n = fr.fn.nodes[e]
        k = n['k']
        vk = (fr.id, e)
        if 'fn' in n or ('args' in n and k.endswith(('CallExpr', 'ConstructExpr', 'ObjectExpr'))):
            if 'v' in n:
                return [st]
            st.vals.pop(vk, None)
            st._k = None
            res = self.call(st, fr, e, ehq)
            out = []
            for s, v in res:
                s._k = None
                self.consume(s, fr, n)
                if v is not None:
                    s.vals[vk] = v
                out.append(s)
            return out
        if k == 'CXXNewExpr':
            self.forget(st, ('new', fr.id, e))
            rule.on_new(self, st, fr, e, ('new', fr.id, e))
            return [st]
        if k == 'CXXDeleteExpr':
            rule.on_delete(self, st, fr, e, self.ev(st, fr, n['c'][0]))
            return [st]
        if k == 'DeclStmt':
            for v in n.get('vars', ()):
                d = v['d']
                init = v.get('init', -1)
                st._k = None
                if is_ref(v['t']):
                    if init is not None and init >= 0:
                        st.env[('ref', d, fr.id)] = self.lv(st, fr, init)
                    continue
                l = ('v', d, fr.id)
                if init is not None and init >= 0:
                    x = self.ev(st, fr, init)
                    q = rule.on_decl(self, st, fr, e, d, x)
                    if q is not None:
                        x = q
                    # a constructed object: move its members under the variable
                    sv = st.vals.get((fr.id, init))
                    if sv is not None and sv[0] == 'L' and sv[1][0] == 'o':
                        self.rehome(st, sv[1], l)
                    else:
                        rule.on_assign(self, st, fr, e, l, x)
                        self.write(st, l, x)
                else:
                    self.havoc(st, fr, e, l)
            self.consume(st, fr, n)
            return [st]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in REL:
            l = self.lv(st, fr, n['c'][0])
            if n['op'] == '=':
                v = self.ev(st, fr, n['c'][1])
            else:
                o = self.read(st, l)
                r = self.ev(st, fr, n['c'][1])
                if n['op'] in ('|=', '&=') and fr.fn.nodes[n['c'][0]].get('t') == 'bool':
                    # a flag that collects answers
                    out = []
                    for w in (True, False):
                        s2 = st.copy()
                        if assume(s2, r, w):
                            v = C(1 if w else 0) if w == (n['op'] == '|=') else o
                            rule.on_assign(self, s2, fr, e, l, v)
                            self.write(s2, l, v)
                            self.consume(s2, fr, n)
                            out.append(s2)
                    return out
                v = self.arith(n['op'][:-1], o, r)
                q = rule.on_compound(self, st, fr, e, l, n['op'][:-1], r)
                if q is not None:
                    v = q
                else:
                    d = self.ops_in(v)
                    if n['op'] in ('|=', '&=') and isbool(o) and isbool(r):
                        v = ('or' if n['op'] == '|=' else 'and', o, r)
                        d -= 40
                    if not rule.affine and (d > 6 or self.repeated(fr, e, l)):
                        v = ('h', (fr.id, e, 0), l)
                        self.forget(st, v)
            if v[0] in ('rel', 'not', 'and', 'or'):
                t = truth(st, v)
                if t is not None:
                    v = C(1 if t else 0)
            if n['op'] == '=':
                q = rule.on_set(self, st, fr, e, l, v)
                v = v if q is None else q
            rule.on_assign(self, st, fr, e, l, v)
            self.write(st, l, v)
            self.consume(st, fr, n)
            return [st]
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            l = self.lv(st, fr, n['c'][0])
            q = rule.on_incr(self, st, fr, e, l, self.read(st, l))
            if q is not None:
                v = q
            elif self.repeated(fr, e, l) and not rule.affine:
                v = ('h', (fr.id, e, 0), l)
                if any(contains(f, v) for f in st.facts):
                    self.forget(st, v)
                # the value before stays where it was kept
                old = ('h', (fr.id, e, 'old'), l)
                for q in [q for q, w in st.env.items() if q != l and contains(w, v)]:
                    st.env[q] = self._subst(st.env[q], v, old)
            else:
                v = self.arith('+' if n['op'] == '++' else '-', self.read(st, l), C(1))
            old = self.read(st, l)
            rule.on_assign(self, st, fr, e, l, v)
            self.write(st, l, v)
            if n.get('post'):
                st.vals[vk] = old
                st._k = None
            return [st]
        if k == 'BinaryOperator' and n['op'] in REL:
            r = rule.on_compare(self, st, fr, e, n)
            if r is not None:
                for s, v in r:
                    s._k = None
                    s.vals[vk] = v
                return [s for s, v in r]
            return [st]
        if k == 'ReturnStmt':
            c = n.get('c')
            if c and c[0] >= 0:
                if is_ref(fr.fn.d.get('ret', '')):
                    r = ('L', self.lv(st, fr, c[0]))
                else:
                    r = self.ev(st, fr, c[0])
                    r = self.whole(st, fr, c[0], r)
                    if r[0] in ('rel', 'not', 'and', 'or'):
                        t = truth(st, r)
                        if t is not None:
                            r = C(1 if t else 0)
                st.env[('ret', fr.id)] = r
                rule.on_return(self, st, fr, e, r)
            st._k = None
            self.consume(st, fr, n)
            return [st]
        if k in ('MemberExpr', 'UnaryOperator') and k == 'MemberExpr' and n.get('ar') and n.get('fd'):
            # evaluates the base pointer (dereference hook)
            self.lv(st, fr, e)
            return [st]
        if k == 'UnaryOperator' and n['op'] == '*':
            self.lv(st, fr, e)
            return [st]
        return [st]

    def whole(self, st, fr, i, r):
        """a local object returned by value takes the members set so far with it"""
        nodes = fr.fn.nodes
        while True:
            n = nodes[i]
            if n['k'] in CASTS and n.get('c'):
                i = n['c'][0]
            elif n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(n.get('args', ())) == 1 and n['args'][0] >= 0:
                i = n['args'][0]
            else:
                break
        if nodes[i]['k'] != 'DeclRefExpr':
            return r
        loc = self.lv(st, fr, i)
        if loc[0] != 'v':
            return r
        fs = tuple(sorted(((k[2], v) for k, v in st.env.items() if k[0] == 'f' and k[1] == loc), key=repr))
        if not fs:
            return r
        return ('upd', r, fs)

    def rehome(self, st, src, dst):
        for l in list(st.env):
            if l[0] in ('f', 'i') and self.root(l) == src:
                st.env[self._subst(l, src, dst)] = st.env.pop(l)
        st._k = None

    def _subst(self, t, a, b):
        if t == a:
            return b
        return tuple(self._subst(x, a, b) if isinstance(x, tuple) else x for x in t)

    def ops_in(self, v):
        """how often operations are nested in a value"""
        if v[0] in ('op', 'and', 'or', 'not', 'rel'):
            return 1 + max([self.ops_in(x) for x in v if isinstance(x, tuple)] or [0])
        return 0

    def depth_of(self, v):
        if not isinstance(v, tuple):
            return 0
        return 1 + max([self.depth_of(x) for x in v if isinstance(x, tuple)] or [0])

    def repeated(self, fr, i, l):
        """a change of l at i comes in a loop: of the function, or of those that call it as a helper"""
        r = self.root(l)
        own = r[2] if r[0] in ('v', 'ref') else None
        while fr is not None:
            if self.in_loop(fr.fn, i):
                return True
            if fr.id == own or not helper(fr.fn) or fr.caller is None:
                return False
            i, fr = fr.id[-1][0], fr.caller
        return False

    def in_loop(self, fn, i):
        c = fn._cache.get('loops')
        if c is None:
            c = set()
            for j, n in enumerate(fn.nodes):
                if n['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                    c.update(fn.walk(j))
            fn._cache['loops'] = c
        return i in c

    def consume(self, st, fr, n):
        """drop stored sub-expression values once their parent is evaluated"""
        if not st.vals:
            return
        for c in n.get('c', ()):
            if c >= 0 and (fr.id, c) in st.vals and n['k'] in ('DeclStmt', 'ReturnStmt', 'BinaryOperator', 'CompoundAssignOperator', 'CXXConstructExpr', 'CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXTemporaryObjectExpr'):
                del st.vals[(fr.id, c)]
                st._k = None

    # ---- entry
    def analyse(self, fn, facts=(), rs=None, env=None, this=THIS):
        st = State(rs=self.rule.init() if rs is None else rs)
        fr = Frame(fn, (fn.line,), this, 0, (fn.n,))
        for p in fn.params:
            if is_ref(p['t']):
                st.env[('ref', p['d'], fr.id)] = ('v', p['d'], fr.id)
        if env:
            st.env.update(env)
        for v, want in facts:
            assume(st, v, want)
        res = self.run(fn, [st], fr)
        for s, kind, ret in res:
            self.rule.on_exit(self, s, fr, kind, ret)
        return res


def loop_heads(fn):
    """block -> set of blocks with a back edge to it"""
    r = fn._cache.get('heads')
    if r is None:
        r = {}
        cfg = fn.d['cfg']
        succ = {b['id']: [t for t in b['s'] if t is not None] for b in cfg['b']}
        color = {}
        stack = [(cfg['entry'], iter(succ.get(cfg['entry'], ())))]
        color[cfg['entry']] = 1
        while stack:
            b, it = stack[-1]
            for t in it:
                if color.get(t, 0) == 1:
                    r.setdefault(t, set()).add(b)
                elif not color.get(t):
                    color[t] = 1
                    stack.append((t, iter(succ.get(t, ()))))
                    break
            else:
                color[b] = 2
                stack.pop()
        fn._cache['heads'] = r
    return r


def rule_wants_ctor(rule):
    return getattr(rule, 'ctors', False)


def show(t, depth=0):
    """readable rendering of a term or location"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 's':
        return '"%s"' % t[1]
    if k == 'l':
        return show(t[1])
    if k == 'v':
        return t[1].split('@')[0]
    if k == 't':
        return 'this'
    if k == 'f':
        return show(t[1]) + '.' + t[2].split('::')[-1]
    if k == 'fld':
        return show(t[1]) + '.' + t[2].split('::')[-1]
    if k == 'd':
        return '*' + show(t[1])
    if k == 'm':
        return show(t[1])
    if k == 'i':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'call':
        return t[1].split('::')[-1] + '(..)'
    if k == 'p':
        return t[1].split('::')[-1] + '(' + ','.join(show(x) for x in t[2:]) + ')'
    if k == 'rel':
        return '%s%s%s' % (show(t[2]), {'eq': '==', 'lt': '<'}[t[1]], show(t[3]))
    if k == 'not':
        return '!(' + show(t[1]) + ')'
    if k == 'op':
        return '(' + t[1].join(show(x) for x in t[2:]) + ')' if len(t) == 4 else t[1] + show(t[2])
    if k == 'g':
        return t[1].split('::')[-1]
    if k == 'h':
        return '?' + show(t[2])
    if k == 'addr':
        return '&' + show(t[1])
    return str(k) + "(" + ",".join(show(x) for x in t[1:] if isinstance(x, (tuple, str)))[:80] + ")"
