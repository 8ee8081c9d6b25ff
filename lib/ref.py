"""Comparison of a function with a reference: the reference is a Python function over the initial values; a condition it asks
for is answered from the facts of the path, and where the path leaves it open both answers are followed.  Terms with a known
range of values (enumerators, small codes) are decided by enumeration, so facts that exclude every value make a path impossible."""
import re
import flow
from flow import C


class Open(Exception):
    pass


class Impossible(Exception):
    pass


IDS = {'fedID', 'minFed', 'minFedActual', 'source_id', 'dest_id', 'source_handle', 'dest_handle', 'fed_id', 'handle'}


def forms(t):
    """an identifier is compared as itself or by the number in it"""
    p = peel(t)
    out = [t]
    if p != t:
        out.append(p)
    if p[0] == 'l' and (p[1][0] == 'v' or p[1][0] == 'f' and p[1][2].split('::')[-1] in IDS):
        out += [('l', ('f', p[1], 'helics::' + n)) for n in ('GlobalFederateId::gid', 'GlobalBrokerId::gid', 'InterfaceHandle::hid')]
    return out


HANDLE = ('helics::GlobalHandle::fed_id', 'helics::GlobalHandle::handle')


def parts(st, a, b, f):
    for x in forms(('l', ('f', a, f))):
        for y in forms(('l', ('f', b, f))):
            r = flow.truth(st, flow.rel_term('==', x, y))
            if r is not None:
                return r


class Q:
    def __init__(self, st, dom=None):
        self.st, self.dom = st, dom or {}

    def values(self, t):
        """values the facts leave for a term of known range"""
        k = flow.const_of(self.st, t)
        if k is not None and k[0] == 'c':
            return [k[1]]
        d = self.dom(t) if callable(self.dom) else None
        if d is None and t[0] == 'l' and t[1][0] == 'f' and not callable(self.dom):
            d = self.dom.get(t[1][2].split('::')[-1])
        if d is None and t[0] in ('fld', 'h') and not callable(self.dom):
            n = t[2] if t[0] == 'fld' else t[2][2] if t[2][0] == 'f' else None
            d = self.dom.get(n.split('::')[-1]) if isinstance(n, str) else None
        if d is None:
            return None
        left = []
        for v in d:
            ok = True
            for f, b in self.st.facts.items():
                if len(f) != 3 or t not in f[1:]:
                    continue
                o = f[2] if f[1] == t else f[1]
                o = o if o[0] == 'c' else flow.const_of(self.st, o)
                if o is None or o[0] != 'c':
                    continue
                if f[0] == 'eq':
                    ok &= (o[1] == v) == b
                elif f[0] == 'lt':
                    ok &= ((v < o[1]) if f[1] == t else (o[1] < v)) == b
            if ok:
                left.append(v)
        if not left:
            raise Impossible
        return left

    def rel(self, op, a, b):
        """decide a comparison"""
        va, vb = self.values(a), self.values(b)
        if va is not None and vb is not None:
            r = {cmp(op, x, y) for x in va for y in vb}
            if len(r) == 1:
                return r.pop()
            if a == b:
                return op in ('==', '<=', '>=')
            t = flow.truth(self.st, flow.rel_term(op, a, b))
            if t is not None:
                return t
            if b[0] == 'c' or a[0] == 'c':
                raise Open(flow.rel_term(op, a, b))
            raise Open(('pick', a if len(va) > 1 else b))
        t = flow.rel_term(op, a, b)
        r = flow.truth(self.st, t)
        if r is None:
            va, vb = forms(a), forms(b)
            if len(va) > 1 or len(vb) > 1:
                for x in va:
                    for y in vb:
                        r = flow.truth(self.st, flow.rel_term(op, x, y))
                        if r is not None:
                            return r
            if op == '==' and a[0] == 'l' and b[0] == 'l':
                # an object that was compared part by part
                got = [parts(self.st, a[1], b[1], f) for f in HANDLE]
                if False in got:
                    return False
                if None not in got:
                    return True
            raise Open(t)
        return r

    def eq(self, a, b):
        return self.rel('==', a, b)

    def ne(self, a, b):
        return not self.rel('==', a, b)

    def lt(self, a, b):
        return self.rel('<', a, b)

    def le(self, a, b):
        return self.lt(a, b) or self.eq(a, b) if self.values(a) is None else self.rel('<=', a, b)

    def is_(self, v):
        r = flow.truth(self.st, v)
        if r is None:
            raise Open(v)
        return r

    def bit(self, word, b):
        return self.is_(flow.rel_term('!=', ('op', '&', word, C(1 << b)), C(0)))


def cmp(op, x, y):
    return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]


def cases(st, f, dom=None, limit=4000):
    """[(state, value of the reference)] for every completion of the open conditions"""
    out, todo = [], [st]
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > limit:
            raise RuntimeError('too many cases')
        q = Q(s, dom)
        try:
            out.append((s, f(q)))
        except Impossible:
            continue
        except Open as o:
            t = o.args[0]
            if t[0] == 'pick':
                for v in q.values(t[1]):
                    s2 = s.copy()
                    if flow.assume_eq(s2, t[1], C(v), True):
                        s2._k = None
                        todo.append(s2)
                continue
            for w in (True, False):
                s2 = s.copy()
                if flow.assume(s2, t, w):
                    s2._k = None
                    todo.append(s2)
    return out


def wrong(st, got, want, known=None):
    """is got decidedly another value than wanted?  (unknown calls and joins are no decision)"""
    if got == want or flow.known_eq(st, got, want):
        return False
    g, w = peel(got), peel(want)
    if g[0] in ('not', 'rel', 'and', 'or') or w[0] in ('not', 'rel', 'and', 'or'):
        a, b = flow.truth(st, g), flow.truth(st, w)
        return a is not None and b is not None and a != b
    if g == w or flow.known_eq(st, g, w):
        return False
    return closed(g, known)


SOLE = re.compile(r'^helics::(Global(Federate|Broker)Id|InterfaceHandle|LocalFederateId|RouteId|route_id)::\w+$')


def peel(v):
    """the value behind conversions and identifier classes"""
    while True:
        if v[0] == 'k' and len(v[2]) == 1 and v[2][0][0] in ('l', 'c', 'h', 'op', 'fld', 'k'):
            v = v[2][0]
        elif v[0] == 'l' and v[1][0] == 'f' and SOLE.match(v[1][2]):
            v = ('l', v[1][1])
        elif v[0] == 'fld' and isinstance(v[2], str) and SOLE.match(v[2]):
            v = v[1]
        else:
            return v


def closed(v, known=None):
    if v[0] in ('c', 's', 'l'):
        return True
    if v[0] == 'op':
        return all(closed(x, known) for x in v[2:])
    if v[0] == 'k':
        return all(closed(x, known) for x in v[2])
    if v[0] == 'fld':
        return closed(v[1], known)
    if v[0] in ('rel', 'not', 'and', 'or'):
        return all(closed(x, known) for x in v[1:] if isinstance(x, tuple))
    return known is not None and known(v)
