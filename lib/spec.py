"""Contracts on single functions: every exit (and every iteration over a container) of a function is compared with what the
contract demands under the facts that hold there; a condition of the contract that is still open splits the exit."""
import flow, cont
from flow import C, ZERO, THIS


class X:
    """one exit (or one finished iteration) of the function under analysis"""

    def __init__(self, rule, eng, st, fr, ret=None, kind='return', effs=(), c=None, node=None):
        self.rule, self.eng, self.st, self.fr, self.ret, self.kind, self.effs, self.c, self.node = rule, eng, st, fr, ret, kind, effs, c, node
        self.fn = rule.fn

    def P(self, k):
        """initial value of parameter k (by position or name)"""
        return self.rule.P(k)

    def Pl(self, k):
        return self.rule.P(k)[1]

    def val(self, loc):
        return self.eng.read(self.st, loc)

    def pval(self, k):
        """value now at the object a reference parameter denotes"""
        return self.val(self.rule.Ploc(k))

    def outer(self):
        """variables that were there before the iteration"""
        return self.rule.outers.get(self.c, set())

    def truth(self, v):
        return flow.truth(self.st, v)

    def eq(self, a, b):
        return flow.known_eq(self.st, a, b)

    def lt(self, a, b):
        return flow.known_lt(self.st, a, b)

    def calls(self, *names):
        return [e for e in self.all() if e[0] == 'call' and (not names or e[1] in names or e[1].split('::')[-1] in names)]

    def all(self):
        return list(self.effs) if self.c is not None else list(self.st.rs[0])

    def muts(self, *cs):
        return [e for e in self.all() if e[0] == 'mut' and (not cs or e[1] in cs)]

    def done(self):
        return self.st.rs[2]

    def el(self, *fields):
        return self.val(cont.fld(cont.el(self.c), *fields))

    def fail(self, what):
        self.rule.fail(self.fr, self.node, what)

    def need(self, cond, what):
        if not cond:
            self.fail(what)


class Spec(cont.Contract):
    """exit(x): checks a normal return; throw(x): an exceptional exit; each(x): a finished iteration; when(x): conditions to split
    on before exit/each look at the state; rec: predicate on callee names whose calls are recorded as effects"""

    def __init__(self, fn, exit=None, each=None, when=None, throw=None, rec=(), called=None, opaque=(), containers=(), depth=None, fields=None, heap=None, cap=None, sets=None, atset=None, order=None, outer=False, chain=False, back=None):
        super().__init__()
        self.fn = fn
        self.fid = (fn.line,)
        self.x_exit, self.x_each, self.x_when, self.x_throw, self.x_called = exit, each, when, throw, called
        self.rec = rec
        self.opq = opaque
        self.containers = containers
        if throw:
            self.eh = True
        if depth is not None:
            self.depth = depth
        self.x_back = back
        self.x_outer, self.chain, self.outers = outer, chain, {}
        self.sets, self.atset, self.x_order = sets, atset, order
        if cap:
            self.cap = self.exit_cap = cap
        if fields:
            self.fields = fields

    def pidx(self, k):
        if isinstance(k, str):
            for j, p in enumerate(self.fn.params):
                if p.get('n') == k:
                    return j
            raise KeyError(k)
        return k

    def P(self, k):
        return ('l', self.Ploc(k))

    def Ploc(self, k):
        return ('v', self.fn.params[self.pidx(k)]['d'], self.fid)

    def keep(self, t):
        """facts about the results of recorded calls stay"""
        if t[0] == 'call' and len(t) == 4 and isinstance(t[1], str):
            return self.match(t[1])
        return any(self.keep(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    def match(self, name):
        return any(name == r or name.endswith('::' + r) for r in self.rec)

    def opaque(self, eng, fn):
        return any(fn.n == o or fn.n.endswith('::' + o) for o in self.opq) or self.match(fn.n)

    def called(self, eng, st, fr, i, name, obj, args):
        if self.x_called:
            r = self.x_called(self, eng, st, fr, i, name, obj, args)
            if r is not None:
                return r
        if self.match(name):
            o = None
            if obj is not None and obj >= 0:
                o = self.objloc(eng, st, fr, obj)
            vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
            self.eff(eng, st, ('call', name, o, vals))
        return None

    def on_incr(self, eng, st, fr, i, loc, val):
        r = super().on_incr(eng, st, fr, i, loc, val)
        if r is None and val[0] not in ('it', 'idx', 'end') or val[0] == 'idx' and ('idxof',) + val[1:] not in st.env:
            self.eff(eng, st, ('incr', loc))
        return r

    def on_assign(self, eng, st, fr, i, loc, val):
        super().on_assign(eng, st, fr, i, loc, val)
        if self.sets and self.sets(loc):
            self.eff(eng, st, ('set', loc, val) + ((self.atset(st, loc, val),) if self.atset else ()))

    def on_compound(self, eng, st, fr, i, loc, op, val):
        if self.sets and self.sets(loc):
            self.eff(eng, st, ('add' if op == '+' else 'compound', loc, val, op))

    def variants(self, x):
        todo = [x.st]
        if self.x_when:
            for v in self.x_when(x):
                nxt = []
                for s in todo:
                    nxt += [s2 for s2, t in self.split(s, v)]
                todo = nxt
        return todo

    def on_exit(self, eng, st, fr, kind, ret):
        f = self.x_exit if kind == 'return' else self.x_throw
        if f is None:
            return
        for s in self.variants(X(self, eng, st, fr, ret, kind)):
            if ret is not None and self.fn.d.get('ret') == 'bool' and flow.truth(s, ret) is None:
                for s2, t in self.split(s, ret):
                    self.exits += 1
                    f(X(self, eng, s2, fr, C(1 if t else 0), kind))
                continue
            self.exits += 1
            f(X(self, eng, s, fr, ret, kind))

    def on_return(self, eng, st, fr, i, val):
        if self.x_back and fr.fn is self.fn:
            self.x_back(X(self, eng, st, fr, val, 'return', (), None, i))

    def compared(self, eng, outs, fr, i, c, p, q):
        if self.x_order:
            for s, v in outs:
                for s2, t in self.split(s, v):
                    self.x_order(X(self, eng, s2, fr, C(1 if t else 0), 'order', (), c, i), p, q)

    def it_begin(self, eng, st, fr, i, c):
        super().it_begin(eng, st, fr, i, c)
        if self.x_outer and c not in self.outers:
            self.outers[c] = {k[1] for k in st.env if k[0] == 'v' and isinstance(k[1], str)}

    def iteration(self, eng, st, fr, i, c, effs):
        if self.x_each:
            for s in self.variants(X(self, eng, st, fr, None, 'each', effs, c, i)):
                self.x_each(X(self, eng, s, fr, None, 'each', effs, c, i))


def check(res, pid, prog, fn, must_exit=True, cls=None, env=None, **kw):
    """analyse one function against a contract and move its failures into the result"""
    r = (cls or Spec)(fn, **kw)
    eng = flow.Engine(prog, r)
    eng.analyse(fn, env=env)
    res.count('functions')
    res.count('exits', r.exits)
    if r.iters:
        res.count('iterations', r.iters)
    if must_exit and not r.exits:
        res.add('%s|%s|exit' % (pid, fn.short), '%s: %s never returns' % (fn.loc(), fn.short))
    for m in r.bad:
        res.add('%s|%s|%s' % (pid, fn.short, m.split(': ', 1)[1]), m)
    return r


def stream(rule, eng, st, fr, i, name, obj, args):
    """what is written to a stream becomes the stream's value, in order"""
    n = fr.fn.nodes[i]
    if n.get('op') == '<<' and name.startswith('std::'):
        ops = list(args) if len(args) == 2 else [obj] + list(args)
        l = eng.lv(st, fr, ops[0])
        v = eng.ev(st, fr, ops[1])
        rule.eff(eng, st, ('out', l, v))
        eng.write(st, l, ('cat', eng.read(st, l), v))
        return [(st, ('L', l))]
    return None


def written(t):
    out = []
    while t[0] == 'cat':
        out.insert(0, t[2])
        t = t[1]
    return out
