"""expectations on name <-> value functions"""
import re
import fx, table
from flow import C


def norm(s):
    return s.replace('_', '').lower()


class Expect:
    def __init__(self, res, pid, prog):
        self.res, self.pid, self.prog = res, pid, prog
        self.cache = {}
        self.spots = {}

    def get(self, fn, *vals):
        """set of the decided results of fn for the given abstract arguments, and whether everything was decided"""
        k = (fn.u, vals)
        if k not in self.cache:
            out, h = table.results(self.prog, fn, dict(enumerate(vals)), extra=self.peek(fn))
            rets = []
            for v, x in out:
                v = self.resolve(fn, v)
                if v not in rets:
                    rets.append(v)
            dec = [v for v in rets if v is not None and v[0] in ('c', 's', 'throw', 'none')]
            if not rets:
                rets = dec = [('none',)]
            self.cache[k] = (dec, len(dec) == len(rets) and bool(rets))
        return self.cache[k]

    def peek(self, fn):
        """looking at the first or last character of an empty string is a defect of its own"""
        def hook(rule, eng, st, fr, i, name, obj, args):
            n = fr.fn.nodes[i]
            if n['k'] == 'CXXMemberCallExpr' and obj is not None and obj >= 0 and n.get('cls', '').startswith('std::basic_string'):
                short = name.split('::')[-1]
                if short in ('front', 'back', 'remove_suffix', 'remove_prefix', 'pop_back'):
                    if eng.read(st, rule.objloc(eng, st, fr, obj)) == ('s', ''):
                        self.res.add('%s|%s|empty|%s' % (self.pid, fn.short, short), '%s: %s() of an empty name' % (fr.fn.loc(i), short))
            return None
        return hook

    def resolve(self, fn, v):
        """a reference to a constant string is that string"""
        if v is not None and v[0] == 'l':
            v = ('L', v[1])
        if v is not None and v[0] == 'L' and v[1][0] in ('g', 'v'):
            d = v[1][1]
            for n in fn.nodes:
                if n['k'] == 'DeclStmt':
                    for w in n.get('vars', ()):
                        if w['d'] == d and w['t'].startswith('const '):
                            if w.get('init', -1) >= 0:
                                return table.const(self.prog, fn.nodes, w['init']) or (('s', '') if not fn.nodes[w['init']].get('c') and not fn.nodes[w['init']].get('args') else v)
                            return ('s', '')
            g = self.prog.globals.get(d)
            if g is not None and (g.get('const') or g.get('cx')) and 'root' in g:
                return table.const(self.prog, g['nodes'], g['root']) or v
        return v

    def __call__(self, fn, vals, want, what):
        """every decided result must be one of the wanted ones"""
        dec, sure = self.get(fn, *vals)
        self.res.count('cases')
        self.res.count('cases decided' if sure else 'cases partly decided')
        want = want if isinstance(want, (list, set, tuple)) and (not want or not isinstance(want[0] if isinstance(want, (list, tuple)) else 0, str)) else [want]
        for v in dec:
            if v not in want:
                self.res.add('%s|%s|%s' % (self.pid, fn.short, what), '%s: %s: %s gives %s, expected %s' % (
                    fn.loc(), fn.short, what, self.text(v), ' or '.join(self.text(w) for w in want)))
                return False
        return True

    def text(self, v):
        if v[0] == 'throw':
            return 'an exception'
        if v[0] == 'none':
            return 'no answer (it does not return)'
        return repr(v[1])


def enum_values(prog, n):
    return {e[0]: e[1] for e in prog.enum(n)['e']}
