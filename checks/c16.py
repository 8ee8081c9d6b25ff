"""C16: the minimum time over the dependencies is never beyond what a dependency allows"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, THIS
import c14
from c14 import DEPS, T, fl, glob, TDF, DI

BRK = 0x70000000


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/TimeDependencies.cpp'], [])
    TS = names.enum_values(prog, 'helics::TimeState')
    CT = names.enum_values(prog, 'helics::ConnectionType')
    dom = {'mTimeState': sorted(TS.values()), 'connection': sorted(CT.values()), 'interrupted': [0, 1], 'dependency': [0, 1], 'dependent': [0, 1]}
    iterative = (TS['time_requested_iterative'], TS['time_requested_require_iteration'])
    granted = TS['time_granted']

    # one dependency
    fn = prog.fn('helics::generateMinTimeImplementation')
    if len(fn.params) != 4:
        raise fx.Broken('anchor vanished: generateMinTimeImplementation')
    m, d, ign, code = [('v', p['d'], (fn.line,)) for p in fn.params]

    def M(n):
        return ('l', ('f', m, c14.TD if False else 'helics::TimeData::' + n))

    def D(n):
        return ('l', fl(d, n))
    ign, code = ('l', ign), ('l', code)

    def one(q):
        """value wanted for the fields of the minimum; {} keeps all"""
        w = {}
        gid = ('l', ('f', fl(d, 'fedID'), 'helics::GlobalFederateId::gid'))
        if q.rel('<', D('mTimeState'), C(granted)):
            if q.eq(D('fedID'), ign):
                return w
            full = {'minFed': D('fedID'), 'delayedTiming': D('delayedTiming'), 'restrictionLevel': D('restrictionLevel'),
                    'sequenceCounter': D('sequenceCounter'), 'interrupted': D('interrupted'), 'responseSequenceCounter': D('sequenceCounter')}
            if q.rel('<', D('mTimeState'), M('mTimeState')):
                w.update(full)
                w['mTimeState'] = D('mTimeState')
                w['responseSequenceCounter'] = D('responseSequenceCounter')
            elif q.rel('==', D('mTimeState'), M('mTimeState')):
                if q.lt(D('restrictionLevel'), M('restrictionLevel')):
                    w.update(full)
                elif q.eq(D('restrictionLevel'), M('restrictionLevel')):
                    if q.ne(D('interrupted'), M('interrupted')):
                        if not q.is_(D('interrupted')):
                            w.update(full)
                            w['interrupted'] = C(0)
                    elif q.lt(D('fedID'), M('minFed')):
                        w.update(full)
                        del w['restrictionLevel'], w['interrupted']
            w['next'] = glob('initializationTime')
            w['Te'] = w['minDe'] = glob('timeZero')
            return w
        if q.eq(D('fedID'), ign):
            if not q.lt(gid, C(BRK)) or q.eq(gid, C(1)):
                if q.lt(D('Te'), M('minDe')):
                    w['minDe'] = D('Te')
            return w
        trusted = q.ne(D('connection'), C(CT['SELF'])) and (
            q.eq(code, C(0)) or q.eq(D('responseSequenceCounter'), code) or q.eq(D('timingVersion'), C(0)) or not q.is_(D('dependent')))
        if trusted:
            if not q.lt(D('minDe'), D('next')):
                if q.lt(D('minDe'), M('minDe')):
                    w['minDe'] = D('minDe')
            else:
                w['minDe'] = '-1'
        elif q.is_(D('dependent')) and q.eq(D('responseSequenceCounter'), code):
            if not q.lt(D('minDe'), D('next')) and q.lt(D('minDe'), M('minDe')):
                w['minDe'] = D('minDe')
        elif q.lt(D('next'), M('minDe')):
            w['minDe'] = D('next')
        if q.lt(D('next'), M('next')):
            w['next'] = D('next')
            w['mTimeState'] = D('mTimeState')
            w['interrupted'] = D('interrupted') if q.is_(D('dependent')) and q.eq(D('responseSequenceCounter'), code) else C(0)
        elif q.eq(D('next'), M('next')):
            def anyof(t, vs):
                return any(q.eq(t, C(v)) for v in vs)
            dit = anyof(D('mTimeState'), iterative)
            if dit:
                if not anyof(M('mTimeState'), iterative) or q.rel('<', D('mTimeState'), M('mTimeState')):
                    w['mTimeState'] = D('mTimeState')
            elif q.eq(D('mTimeState'), C(granted)) and not anyof(M('mTimeState'), iterative):
                w['mTimeState'] = D('mTimeState')
            if q.eq(D('mTimeState'), C(granted)) or not q.is_(D('interrupted')):
                w['interrupted'] = C(0)
        if q.lt(D('Te'), M('Te')):
            w['TeAlt'] = M('Te')
            w['Te'] = D('Te')
            w['minFed'] = D('fedID')
            w['sequenceCounter'] = w['responseSequenceCounter'] = D('sequenceCounter')
            w['minFedActual'] = '?'
        elif q.eq(D('Te'), M('Te')):
            w['minFed'] = 'none'
            w['TeAlt'] = M('Te')
        return w

    def dm(t):
        if t[0] == 'l' and t[1][0] == 'f':
            return dom.get(t[1][2].split('::')[-1])
        return None

    def ex1(x):
        for s, w in ref.cases(x.st, one, dm):
            res.count('cases')
            for n in TDF:
                v = x.eng.read(s, M(n)[1])
                want = w.get(n, M(n))
                res.count('fields')
                if want == '?':
                    continue
                if want == '-1':
                    x.need(v != M(n) and ref.peel(v)[0] != 'l', 'a dependency whose times contradict each other does not block the minimum')
                    continue
                if c14.differs(s, v, want):
                    x.fail('%s of the minimum %s' % (n, 'changes although it has to stay' if n not in w else 'does not become %s' % (want if isinstance(want, str) else flow.show(want))))
            for n in DI + TDF:
                if x.eng.read(s, fl(d, n)) != D(n):
                    x.fail('%s of the dependency is changed' % n)
    spec.check(res, 'C16', prog, fn, exit=ex1, cap=4000)

    # all dependencies
    PAR = C(CT['PARENT'])
    for name in ('generateMinTimeUpstream', 'generateMinTimeDownstream', 'generateMinTimeTotal'):
        fn = prog.fn('helics::' + name)
        if len(fn.params) != 5:
            raise fx.Broken('anchor vanished: ' + name)
        p = [('v', q['d'], (fn.line,)) for q in fn.params]
        cc = ('f', p[0], T + '::dependencies')
        e = cont.el(cc)
        sid = ('l', ('f', p[2], 'helics::GlobalFederateId::gid'))

        def used(q):
            if not q.is_(('l', fl(e, 'dependency'))):
                return False
            if name == 'generateMinTimeUpstream' and q.eq(('l', fl(e, 'connection')), PAR):
                return False
            if name == 'generateMinTimeDownstream' and q.ne(('l', fl(e, 'connection')), PAR):
                return False
            if q.ne(sid, C(-1700000000)) and q.ne(sid, C(-2010000000)) and q.eq(('l', fl(e, 'minFedActual')), ('l', p[2])):
                return False
            return True

        def each(x):
            if x.c != cc:
                return
            k = x.calls('generateMinTimeImplementation')
            for s, u in ref.cases(x.st, used, dm):
                res.count('cases')
                x.need(len(k) == (1 if u else 0), 'a dependency that counts is left out of the minimum' if u and not k else 'a dependency counts twice' if u else 'a dependency that does not count enters the minimum')
                for c in k:
                    a = [ref.peel(v) for v in c[3]]
                    if len(a) == 4:
                        x.need(a[1][0] not in ('l', 'L') or a[1][1] == e, 'the dependency at hand is not the one used')
                        x.need(a[2] == ('l', p[3]) or a[2][0] != 'l', 'the federate to ignore is not passed on')
                        x.need(a[3] == ('l', p[4]) or a[3][0] not in ('l', 'c'), 'the response code is not passed on')

        def ex(x):
            x.need(cc in x.done() or x.eq(('p', '#', ('l', cc)), C(0)) is True, 'not all dependencies enter the minimum')
            r = x.ret
            while r is not None and r[0] == 'k' and len(r[2]) == 1 and r[1].endswith('TimeData'):
                r = r[2][0]
            base, up = (r[1], dict(r[2])) if r is not None and r[0] == 'upd' else (r, {})
            if base is None or base[0] != 'h':
                res.count('empty results')
                return
            b = {n: x.eng.fld(base, 'helics::TimeData::' + n) for n in TDF}

            def post(q):
                w = {n: v for n, v in b.items()}
                if q.lt(b['Te'], b['minDe']):
                    w['minDe'] = b['Te']
                if not q.is_(('l', p[1])):
                    if q.lt(b['next'], w['minDe']):
                        w['next'] = w['minDe']
                if name == 'generateMinTimeUpstream':
                    w['sequenceCounter'] = '?'
                if q.rel('<', b['mTimeState'], C(granted)):
                    w['next'] = w['minDe'] = w['Te'] = glob('initializationTime')
                    if name == 'generateMinTimeDownstream' and q.rel('<', b['mTimeState'], C(TS['exec_requested'])):
                        w['minFed'] = 'exec'
                return w
            for s, w in ref.cases(x.st, post, dm):
                res.count('results')
                for n in TDF:
                    v = up.get('helics::TimeData::' + n, b[n])
                    if w[n] == '?':
                        continue
                    if w[n] == 'exec':
                        x.need(v != b[n], 'the federate that holds back the entry to execution is not named')
                    elif v != w[n] and not flow.known_eq(s, v, w[n]):
                        x.need(v[0] not in ('c', 'l', 'fld', 'h'), '%s of the result is not %s' % (n, flow.show(w[n])))

        def called(rule, eng, st, fr, i, name, obj, args):
            if not name.endswith('generateMinTimeImplementation'):
                return None
            rule.eff(eng, st, ('call', name, None, tuple(eng.ev(st, fr, a) for a in args)))
            eng.havoc(st, fr, i, eng.lv(st, fr, args[0]))
            return [(st, C(0))]
        spec.check(res, 'C16', prog, fn, exit=ex, each=each, called=called, rec=['getExecEntryMinFederate'], cap=400)
    # who holds back the entry to execution
    fn = prog.fn('helics::getExecEntryMinFederate')
    if len(fn.params) != 4:
        raise fx.Broken('anchor vanished: getExecEntryMinFederate')
    p = [('v', q['d'], (fn.line,)) for q in fn.params]
    cc = ('f', p[0], T + '::dependencies')
    e = cont.el(cc)
    sid = ('l', ('f', p[1], 'helics::GlobalFederateId::gid'))

    def may(q):
        if not q.is_(('l', fl(e, 'dependency'))) or q.eq(('l', fl(e, 'fedID')), ('l', p[3])):
            return False
        if q.eq(('l', fl(e, 'connection')), C(CT['SELF'])) or q.eq(('l', fl(e, 'connection')), ('l', p[2])):
            return False
        if q.ne(sid, C(-1700000000)) and q.ne(sid, C(-2010000000)) and q.eq(('l', fl(e, 'minFedActual')), ('l', p[1])):
            return False
        return q.rel('<=', ('l', fl(e, 'mTimeState')), C(TS['exec_requested_iterative']))

    def dm2(t):
        return sorted(CT.values()) if t == ('l', p[2]) else dm(t)

    def pick(x):
        if x.c != cc:
            return
        took = [k for k, v in x.st.env.items() if k[0] == 'v' and v == ('addr', e)]
        if took:
            for s, ok in ref.cases(x.st, may, dm2):
                res.count('cases')
                x.need(ok, 'a federate that does not hold back the entry is named')

    def picked(x):
        r = x.ret
        if r is None or r[0] not in ('L', 'l'):
            return
        if r[1] == e and x.st.env.get(('in', cc)) == C(1):
            x.need(all(ok for s, ok in ref.cases(x.st, may, dm2)), 'a federate that does not hold back the entry is named')
    spec.check(res, 'C16', prog, fn, each=pick, exit=picked, cap=400)
    res.need('cases', 300)
    res.need('fields', 1000)
    res.rules = ['every path of the step for one dependency compared, field by field, with a reference of the minimum; each iteration of the aggregates takes exactly the dependencies that count; the result of the aggregates compared with the reference of the final adjustment']
    return res
