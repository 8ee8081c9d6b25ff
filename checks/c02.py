"""C02: the registry of not yet resolved interface names answers with exactly what was recorded and not yet resolved."""
import fx, flow, harness, cont
from cont import fld, el, flat
from flow import C, ZERO, THIS

U = 'helics::UnknownHandleManager'
M = lambda n: ('f', THIS, U + '::' + n)
TINFO = ['publications', 'endpoints', 'inputs', 'filters']
LINKS = ['links', 'endpoint_links', 'src_filters', 'dest_filters']
NAMES = {'Publication': 'publications', 'Endpoint': 'endpoints', 'Input': 'inputs', 'Filter': 'filters'}
ADD = {'addUnknown' + k: 'unknown_' + v for k, v in NAMES.items()}
ADD.update({'addReconnectable' + k: 'reconnectable_' + v for k, v in NAMES.items()})
ADD.update(addDataLink='unknown_links', addEndpointLink='unknown_endpoint_links', addSourceFilterLink='unknown_src_filters', addDestinationFilterLink='unknown_dest_filters')
GET = {'checkFor%ss' % k: 'unknown_' + v for k, v in NAMES.items()}
GET.update({'checkForReconnection%ss' % k: 'reconnectable_' + v for k, v in NAMES.items()})
GET.update(checkForLinks='unknown_links', checkForEndpointLinks='unknown_endpoint_links', checkForFilterSourceTargets='unknown_src_filters', checkForFilterDestTargets='unknown_dest_filters')
CLEAR = {'clearInput': ['unknown_inputs'], 'clearPublication': ['unknown_publications', 'unknown_links'], 'clearEndpoint': ['unknown_endpoints', 'unknown_endpoint_links'],
         'clearFilter': ['unknown_filters', 'unknown_src_filters', 'unknown_dest_filters']}
KIND = {'publications': 'PUBLICATION', 'endpoints': 'ENDPOINT', 'inputs': 'INPUT', 'filters': 'FILTER'}
LKIND = {'links': ('PUBLICATION', 'INPUT'), 'endpoint_links': ('ENDPOINT', 'ENDPOINT'), 'src_filters': ('FILTER', 'ENDPOINT'), 'dest_filters': ('FILTER', 'ENDPOINT')}


class R(cont.Contract):
    def __init__(self, fn, kinds, flags):
        super().__init__()
        self.fn = fn
        self.fid = (fn.line,)
        self.kinds = kinds
        self.flags = flags

    def P(self, k):
        return ('l', ('v', self.fn.params[k]['d'], self.fid))

    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        if n.get('op') == '()' and n.get('cls', '').startswith('std::function'):
            vals = tuple(eng.ev(st, fr, a) for a in args)
            self.eff(eng, st, ('call', vals))
            v = ('cb',)
            eng.forget(st, v)
            return [(st, v)]
        return None

    def bit(self, st, eng, c, flag):
        """is the flag bit set on the current element"""
        x = eng.read(st, fld(el(c), 'second', 'second'))
        return flow.known_eq(st, eng.arith('&', x, C(1 << self.flags[flag])), ZERO), x

    # ---------------------------------------------------------------- per function rules
    def iteration(self, eng, st, fr, i, c, effs):
        nm = self.fn.short
        f = lambda *a: eng.read(st, fld(el(c), *a))
        what = flow.show(c if c[0] != 'range' else c[1])
        if nm in GET:
            pushes = [e for e in effs if e[0] == 'mut']
            if c[0] == 'range':
                ok = len(pushes) == 1 and pushes[0][1][0] == 'v' and pushes[0][2] in ('push_back', 'emplace_back') and self.same(eng, st, pushes[0][3], f('second'))
                if not ok:
                    self.fail(fr, i, 'an entry found in %s is not handed out exactly once' % what)
            return
        if nm.startswith('process'):
            calls = [e for e in effs if e[0] == 'call']
            short = c[2].split('::')[-1].replace('unknown_', '') if c[0] == 'f' else ''
            want = True
            if nm in ('processNonOptionalUnknowns', 'processRequiredUnknowns'):
                z, x = self.bit(st, eng, c, 'optional_flag' if 'Optional' in nm else 'required_flag')
                if z is None:
                    self.fail(fr, i, 'an entry of %s is handled without looking at its flag' % what)
                    return
                want = z if 'Optional' in nm else not z
            if len(calls) != (1 if want else 0):
                self.fail(fr, i, 'the callback runs %d time(s) for an entry of %s' % (len(calls), what))
                return
            for e in calls:
                if nm == 'processUnknownLinks':
                    k = LKIND.get(short)
                    exp = [f('first'), C(self.kinds[k[0]]), f('second'), C(self.kinds[k[1]])] if k else None
                else:
                    exp = [f('first'), C(self.kinds[KIND[short]]), f('second')] if short in KIND else None
                if exp is None or list(e[1]) != exp:
                    self.fail(fr, i, 'the callback does not receive the name, kind and target of the entry of %s' % what)
            if [e for e in effs if e[0] == 'mut']:
                self.fail(fr, i, 'the registry changes while it is reported')
            return
        if nm in ('clearFederateUnknowns', 'clearUnknownsIf'):
            er = [e for e in effs if e[0] == 'mut']
            if nm == 'clearFederateUnknowns':
                fed = [v for k, v in st.facts.items() if k[0] == 'eq']
                a = eng.read(st, ('f', fld(el(c), 'second', 'first'), 'helics::GlobalHandle::fed_id'))
                eq = flow.known_eq(st, a, self.P(0))
                want = eq
            else:
                calls = [e for e in effs if e[0] == 'call']
                short = c[2].split('::')[-1].replace('unknown_', '') if c[0] == 'f' else ''
                if len(calls) != 1 or short not in KIND or list(calls[0][1]) != [f('first'), C(self.kinds[KIND[short]]), f('second')]:
                    self.fail(fr, i, 'the callback does not receive the name, kind and target of the entry of %s' % what)
                want = flow.truth(st, ('cb',))
            if want is None:
                self.fail(fr, i, 'an entry of %s is kept or removed without asking' % what)
            elif (len(er) == 1) != want or len(er) > 1 or any(e[1] != c or e[3] != (('it', c),) for e in er):
                self.fail(fr, i, 'an entry of %s that %s be removed %s' % (what, 'must' if want else 'must not', 'is kept' if want else 'is removed'))
            return
        if nm in ('hasNonOptionalUnknowns', 'hasRequiredUnknowns'):
            z, x = self.bit(st, eng, c, 'optional_flag' if 'Optional' in nm else 'required_flag')
            if z is not (False if 'Optional' in nm else True):
                self.fail(fr, i, 'an entry of %s is passed over that should decide the answer' % what)

    def same(self, eng, st, vals, want):
        return tuple(vals) == (want,) or flat(vals) == [want]

    def on_exit(self, eng, st, fr, kind, ret):
        if kind != 'return':
            return
        if ret is not None and self.fn.d.get('ret') == 'bool' and flow.truth(st, ret) is None:
            for s, t in self.split(st, ret):
                self.exit1(eng, s, fr, C(1 if t else 0))
            return
        self.exit1(eng, st, fr, ret)

    def exit1(self, eng, st, fr, ret):
        self.exits += 1
        nm = self.fn.short
        eff, it, done = st.rs
        live = any(k[0] == 'in' and v == C(1) for k, v in st.env.items())
        muts = {e for e in eff if e[0] == 'mut' and e[1][0] == 'f'}
        if nm in ADD:
            c = M(ADD[nm])
            exp = [self.P(k) for k in range(len(self.fn.params))]
            good = [e for e in muts if e[1] == c and e[2] in ('emplace', 'insert', 'emplace_hint') and [x for x in flat(e[3]) if x[0] != 'end'] == exp]
            if len(good) != 1 or len(muts) != 1:
                self.fail(fr, None, '%s does not record exactly its arguments in %s' % (nm, ADD[nm]))
            return
        if nm in GET:
            r = ('range', M(GET[nm]), self.P(0))
            if r not in done and not self.absent(st, r):
                self.fail(fr, None, '%s does not hand out every entry of %s recorded under the name' % (nm, GET[nm]))
            if any(d[0] == 'range' and d != r for d in done):
                self.fail(fr, None, '%s looks in the wrong place' % nm)
            if muts or any(e for e in eff if e[0] == 'mut'):
                self.fail(fr, None, '%s changes or adds entries' % nm)
            return
        if nm in CLEAR:
            got = sorted((e[1], e[2], e[3]) for e in muts)
            want = sorted((M(c), 'erase', (self.P(0),)) for c in CLEAR[nm])
            if got != want:
                self.fail(fr, None, '%s does not erase exactly the entries recorded under the name' % nm)
            return
        allc = [M('unknown_' + x) for x in TINFO]
        linkc = [M('unknown_' + x) for x in LINKS]
        if nm.startswith('process') or nm in ('clearFederateUnknowns', 'clearUnknownsIf'):
            for c in (linkc if nm == 'processUnknownLinks' else allc):
                if c not in done:
                    self.fail(fr, None, '%s does not go through all of %s' % (nm, flow.show(c)))
            if muts or live or [e for e in eff if e[0] == 'call']:
                self.fail(fr, None, '%s acts outside the entries it goes through' % nm)
            return
        empty = lambda c: flow.known_eq(st, cont.sz(eng, st, c), ZERO)
        if nm == 'hasUnknowns':
            e = [empty(c) for c in allc + linkc]
            t = flow.truth(st, ret)
            if t is None or (t is False and not all(x is True for x in e)) or (t is True and False not in e):
                self.fail(fr, None, 'the answer of hasUnknowns does not follow from all eight tables')
            return
        if nm in ('hasNonOptionalUnknowns', 'hasRequiredUnknowns'):
            t = flow.truth(st, ret)
            opt = 'Optional' in nm
            le = [empty(c) for c in linkc] if opt else [True]
            if t is None:
                self.fail(fr, None, 'cannot follow the answer of ' + nm)
            elif t is False:
                if live or not all(c in done or empty(c) is True for c in allc) or not all(x is True for x in le):
                    self.fail(fr, None, '%s denies without having looked at every table' % nm)
            else:
                cur = [k[1] for k, v in st.env.items() if k[0] == 'in' and v == C(1)]
                ok = opt and False in le
                for c in cur:
                    z, x = self.bit(st, eng, c, 'optional_flag' if opt else 'required_flag')
                    ok = ok or z is (True if opt else False)
                if not ok:
                    self.fail(fr, None, '%s confirms without an entry that justifies it' % nm)

    def absent(self, st, r):
        return st.env.get(('has', r[1], r[2])) == ZERO


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/UnknownHandleManager.cpp'])
    rec = prog.record(U)
    maps = {f['n']: f['t'] for f in rec['fields']}
    for n in ['unknown_' + x for x in TINFO + LINKS] + ['reconnectable_' + x for x in TINFO]:
        if n not in maps:
            raise fx.Broken('anchor vanished: %s::%s' % (U, n))
        if 'multimap' not in maps[n]:
            res.add('C02|type|' + n, '%s: %s holds at most one entry for each name' % (rec.get('f', U), n))
    kinds = {e[0]: e[1] for e in prog.enum('helics::InterfaceType')['e']}
    flags = {e[0]: e[1] for e in prog.enum('helics::InterfaceFlags')['e']}
    names = sorted(list(ADD) + list(GET) + list(CLEAR) + ['clearFederateUnknowns', 'clearUnknownsIf', 'hasUnknowns', 'hasNonOptionalUnknowns', 'hasRequiredUnknowns',
                   'processUnknowns', 'processUnknownLinks', 'processNonOptionalUnknowns', 'processRequiredUnknowns'])
    for nm in names:
        fn = prog.fn(U + '::' + nm)
        r = R(fn, kinds, flags)
        eng = flow.Engine(prog, r)
        eng.analyse(fn)
        res.count('functions')
        res.count('iterations', r.iters)
        res.count('exits', r.exits)
        if not r.exits:
            res.add('C02|%s|exit' % nm, '%s: %s never returns' % (fn.loc(), nm))
        for m in r.bad:
            res.add('C02|%s|%s' % (nm, m.split(': ', 1)[1]), m)
    res.need('functions', 37)
    res.need('iterations', 40)
    res.rules = ['each operation of the registry is interpreted with one arbitrary entry per table: what it records, hands out, reports and erases has to match its contract on every path']
    return res

