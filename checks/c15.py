"""C15: time grants and entry to execution wait for every dependency"""
import fx, harness, names, spec, flow, ref, quant, cont
from flow import C, THIS
import c14
from c14 import DEPS, T, fl, glob

FED, BRK = 0x20000, 0x70000000


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/TimeDependencies.cpp'], [])
    TS = names.enum_values(prog, 'helics::TimeState')
    CT = names.enum_values(prog, 'helics::ConnectionType')
    GD = names.enum_values(prog, 'helics::GrantDelayMode')
    B = [0, 1]
    dom = {'mTimeState': sorted(TS.values()), 'connection': sorted(CT.values())}
    for b in ('dependency', 'dependent', 'nonGranting', 'interrupted', 'delayedTiming'):
        dom[b] = B

    def dm(t):
        if t[0] == 'l' and t[1][0] == 'v':
            d = t[1][1].split('@')[0]
            return sorted(GD.values()) if 'elay' in d else None
        if t[0] == 'l' and t[1][0] == 'f':
            return dom.get(t[1][2].split('::')[-1])
        return None

    def V(e, n):
        return ('l', fl(e, n))

    def passive(q, e):
        """elements that never hold a decision back"""
        return not q.is_(V(e, 'dependency'))

    def is_self(q, e):
        return q.eq(V(e, 'connection'), C(CT['SELF']))

    def over(q, e):
        return not q.lt(V(e, 'next'), glob('cTerminationTime'))

    def state(q, e, *ns):
        return any(q.eq(V(e, 'mTimeState'), C(TS[n])) for n in ns)

    # time grants
    fn = prog.fn(T + '::checkIfReadyForTimeGrant')
    P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
    if len(P) != 3:
        raise fx.Broken('anchor vanished: checkIfReadyForTimeGrant')
    it, des, mode = P
    modes = {('l', mode[1]): sorted(GD.values())}

    def dmg(t):
        return sorted(GD.values()) if t == mode else dm(t)

    def grant(q, e):
        if passive(q, e) or over(q, e) or is_self(q, e):
            return True
        if q.lt(V(e, 'next'), des):
            return False
        iterating = q.is_(it)
        if iterating:
            if q.eq(V(e, 'next'), des) and state(q, e, 'time_granted'):
                return False
            if q.eq(mode, C(GD['WAITING'])) and state(q, e, 'time_requested_iterative', 'time_requested_require_iteration'):
                return not q.lt(V(e, 'sequenceCounter'), V(e, 'grantedIteration'))
            return True
        if not q.eq(V(e, 'next'), des):
            return True
        if q.eq(mode, C(GD['WAITING'])):
            return False
        if state(q, e, 'time_granted'):
            return False
        if state(q, e, 'time_requested') and q.is_(V(e, 'nonGranting')):
            return False
        if q.eq(mode, C(GD['INTERRUPTED'])):
            return q.is_(V(e, 'interrupted')) or q.is_(V(e, 'delayedTiming'))
        return True
    quant.decide(res, 'C15', prog, fn, DEPS, grant, 'all', dmg, 'the federate allows the grant')

    # entry to execution
    def past(q, e, iterating):
        if passive(q, e) or is_self(q, e):
            return True
        m = 'time_requested_require_iteration' if iterating else 'time_requested'
        if not q.rel('<', V(e, 'mTimeState'), C(TS[m])):
            return True
        return state(q, e, 'time_granted') and q.lt(glob('timeZero'), V(e, 'next'))
    fn = prog.fn(T + '::checkIfAllDependenciesArePastExec')
    p0 = ('l', ('v', fn.params[0]['d'], (fn.line,)))
    quant.decide(res, 'C15', prog, fn, DEPS, lambda q, e: past(q, e, q.is_(p0)), 'all', dm, 'the federate is past the initialization')
    fn = prog.fn(T + '::checkIfReadyForExecEntry')
    e0, e1 = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]

    def entry(q, e):
        if q.is_(e0):
            if q.is_(e1):
                if passive(q, e) or is_self(q, e):
                    return True
                if state(q, e, 'initialized'):
                    return not q.eq(V(e, 'grantedIteration'), C(0))
                if state(q, e, 'exec_requested_iterative', 'exec_requested_require_iteration'):
                    return not q.lt(V(e, 'sequenceCounter'), V(e, 'grantedIteration'))
                return True
            return passive(q, e) or not state(q, e, 'initialized')
        if q.is_(e1):
            return past(q, e, False)
        if passive(q, e):
            return True
        if not q.rel('<', V(e, 'mTimeState'), C(TS['exec_requested'])):
            return True
        return is_self(q, e) and not q.rel('<', V(e, 'mTimeState'), C(TS['initialized']))
    quant.decide(res, 'C15', prog, fn, DEPS, entry, 'all', dm, 'the federate allows the entry')

    # active dependencies
    def active(q, e):
        if passive(q, e):
            return False
        g = ('l', ('f', fl(e, 'fedID'), 'helics::GlobalFederateId::gid'))
        if q.lt(g, C(FED)) or not q.lt(g, C(BRK)):
            return False
        return not over(q, e)
    quant.decide(res, 'C15', prog, prog.fn(T + '::hasActiveTimeDependencies'), DEPS, active, 'any', dm, 'a federate is active')
    quant.decide(res, 'C15', prog, prog.fn(T + '::activeDependencyCount'), DEPS, active, 'count', dm, 'the federate is active')

    fn = prog.fn(T + '::verifySequenceCounter')
    t0, s0 = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]

    def answered(q, e):
        if passive(q, e) or not q.is_(V(e, 'dependent')):
            return True
        if not q.lt(C(0), V(e, 'timingVersion')):
            return True
        if q.lt(t0, V(e, 'next')) or over(q, e):
            return True
        return q.eq(V(e, 'responseSequenceCounter'), s0)
    quant.decide(res, 'C15', prog, fn, DEPS, answered, 'all', dm, 'the federate has answered the current request')

    # the earliest active dependency
    fn = prog.fn(T + '::getMinDependency')

    def mins(x):
        if x.c != DEPS:
            return
        e = cont.el(DEPS)
        for s, p in ref.cases(x.st, lambda q: active(q, e), dm):
            res.count('cases')
            took = [k for k, v in x.st.env.items() if k[0] == 'v' and v == V(e, 'next')]
            ids = [k for k, v in x.st.env.items() if k[0] == 'v' and ref.peel(v) in (V(e, 'fedID'),)]
            if not p:
                x.need(not took and not ids, 'a federate that is not an active dependency is taken as the earliest')
            elif took or ids:
                x.need(bool(took) == bool(ids), 'the earliest time and its federate are not kept together')
            if p:
                nx = V(e, 'next')
                lts = [(f[2] if f[1] == nx else f[1], b if f[1] == nx else not b) for f, b in s.facts.items() if f[0] == 'lt' and nx in f[1:] and glob('cTerminationTime') not in f[1:]]
                if took and ids:
                    x.need(not [1 for o, b in lts if not b], 'a later federate replaces the earliest one')
                else:
                    x.need([1 for o, b in lts if not b], 'an earlier federate is passed over')
    spec.check(res, 'C15', prog, fn, each=mins, must_exit=False)

    # resets
    def reset(name, cond, want, also=None):
        fn = prog.fn(T + '::' + name)

        def each(x):
            if x.c != DEPS:
                return
            e = cont.el(DEPS)
            pp = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]

            def f(q):
                if not cond(q, e, pp):
                    return None
                return want(q, e, pp)
            for s, w in ref.cases(x.st, f, dm):
                res.count('cases')
                for n in c14.DI + c14.TDF:
                    v = x.eng.read(s, fl(e, n))
                    if w is None or n not in w:
                        x.need(v == V(e, n) or ref.wrong(s, v, V(e, n)) is False, '%s of a federate is reset without cause' % n if w is None else '%s is changed by the reset' % n)
                    else:
                        x.need(not c14.differs(s, v, w[n]), '%s is not reset as it has to be' % n)

        def ex(x):
            x.need(DEPS in x.done() or x.eq(('p', '#', ('l', DEPS)), C(0)) is True, 'not all federates are looked at')
        spec.check(res, 'C15', prog, fn, each=each, exit=ex)
    reset('resetIteratingExecRequests', lambda q, e, p: not passive(q, e) and q.rel('<=', V(e, 'mTimeState'), C(TS['exec_requested_iterative'])),
          lambda q, e, p: {'mTimeState': C(TS['initialized']), 'grantedIteration': V(e, 'sequenceCounter'), 'sequenceCounter': C(0), 'responseSequenceCounter': C(0), 'restrictionLevel': C(0), 'minFed': 'none'})
    reset('resetIteratingTimeRequests', lambda q, e, p: not passive(q, e) and state(q, e, 'time_requested_iterative') and q.eq(V(e, 'next'), p[0]),
          lambda q, e, p: {'mTimeState': C(TS['time_granted']), 'Te': p[0], 'minDe': p[0]})

    def ev(q, e, p):
        m = p[0] if q.lt(V(e, 'next'), p[0]) else V(e, 'next')
        return {'Te': m, 'minDe': m}
    reset('resetDependentEvents', lambda q, e, p: not passive(q, e), ev)

    # deadlock warning
    fn = prog.fn(T + '::checkForIssues')
    w0 = ('l', ('v', fn.params[0]['d'], (fn.line,)))

    def delayed(q, e):
        return not passive(q, e) and q.is_(V(e, 'dependent')) and q.is_(V(e, 'delayedTiming')) and not is_self(q, e)

    def iss(x):
        inside = x.st.env.get(('in', DEPS)) == C(1)
        code = x.ret[2][0] if x.ret is not None and x.ret[0] == 'k' and x.ret[2] else None
        while code is not None and code[0] == 'k' and code[2]:
            code = code[2][0]
        if code is None or code[0] != 'c':
            return
        if code == C(0):
            x.need(DEPS in x.done() or x.eq(('p', '#', ('l', DEPS)), C(0)) is True, 'no issue is reported before all federates were looked at')
            return
        if inside:
            for s, p in ref.cases(x.st, lambda q: delayed(q, cont.el(DEPS)), dm):
                res.count('cases')
                x.need(p, 'an issue is reported for a federate that does not wait for the current time')

    def seen(x):
        for s, p in ref.cases(x.st, lambda q: q.is_(w0) and delayed(q, cont.el(DEPS)), dm) if x.c == DEPS else ():
            x.need(not p, 'a second federate that waits for the current time is not reported')
    spec.check(res, 'C15', prog, fn, exit=iss, each=seen)
    res.need('cases', 100)
    res.rules = ['each decision over all dependencies compared with a reference predicate of one arbitrary dependency, on every finished iteration and every exit; resets compared field by field']
    return res
