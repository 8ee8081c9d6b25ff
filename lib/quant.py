"""Predicates over the elements of a container: a function answers for all, for any or for none of the elements that they meet a
condition, or counts those that do.  The condition is a reference over the fields of one arbitrary element; it is compared with
what the code decides on every finished iteration and on every exit."""
import cont, flow, ref, spec
from flow import C


def answered(fn):
    """variables the function returns"""
    out = set()
    for n in fn.nodes:
        if n['k'] == 'ReturnStmt' and n.get('c'):
            todo = [n['c'][0]]
            while todo:
                m = fn.nodes[todo.pop()]
                if m['k'] == 'DeclRefExpr' and m.get('dk') in ('local', 'var', None):
                    out.add(m['d'])
                todo += [c for c in m.get('c', []) if c >= 0]
    return out


def decide(res, pid, prog, fn, c, pred, kind, dom, what, elem=None, cap=3000, when=None, guard=None, **kw):
    """kind all/none/any/count; pred(q, e) over the element location e; guard(q): 'loop' or the value demanded without a look at
    the elements"""
    acc = answered(fn)
    stop = {'all': False, 'none': True, 'any': True, 'count': None}[kind]     # value of the predicate that ends the search
    early = {'all': 0, 'none': 0, 'any': 1}.get(kind)

    def cases(x, e):
        for s, p in ref.cases(x.st, lambda q: pred(q, e), dom):
            res.count('cases')
            yield s, p

    def each(x):
        if x.c != c:
            return
        e = cont.el(c)
        keepers = [('v', d, x.fr.id) for d in acc if ('v', d, x.fr.id) in x.st.env]
        for s, p in cases(x, e):
            if kind == 'count':
                n = len([f for f in x.effs if f[0] in ('count', 'incr')])
                if p and n == 0:
                    x.fail('an element is not counted although %s' % what)
                if not p and n:
                    x.fail('an element is counted although it is not one for which %s' % what)
                if n > 1:
                    x.fail('an element is counted twice')
            elif p == stop:
                if any(x.val(k) == C(early) or x.val(k)[0] != 'c' for k in keepers):
                    continue
                x.fail('the search goes on although it is %sthe case for an element that %s' % ('' if stop else 'not ', what))

    def ex(x):
        if kind == 'count':
            if c not in x.done():
                x.need(x.ret[0] != 'c' or x.eq(('p', '#', ('l', c)), C(0)) is True, 'the elements are not counted')
            return
        inside = x.st.env.get(('in', c)) == C(1)
        r = x.truth(x.ret)
        if r is None:
            return
        if r == bool(early):
            if not inside:
                if c in x.done() and acc:
                    return
                x.need(guarded(x, r), 'answers %s without an element that decides it' % ('yes' if r else 'no'))
                return
            e = cont.el(c)
            for s, p in cases(x, e):
                if p != stop:
                    x.fail('an element decides the answer although it is %sthe case that %s' % ('not ' if stop else '', what))
        else:
            if inside and c not in x.done():
                x.fail('the answer is given before all elements were looked at')
            elif c not in x.done():
                x.need(x.eq(('p', '#', ('l', c)), C(0)) is True or guarded(x, r), 'the answer is given without a look at the elements')

    def guarded(x, r):
        if guard is None:
            return False
        for s, g in ref.cases(x.st, guard, dom):
            if g is None or g != r:
                return False
        return True
    return spec.check(res, pid, prog, fn, exit=ex, each=each, cap=cap, when=when, **kw)
