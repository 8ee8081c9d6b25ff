"""C17: a coordinator grants time and execution only when allowed and announces what it granted"""
import fx, harness, names, spec, flow, ref, cont, quant
from flow import C, THIS
import c14
from c14 import DEPS, T, fl, glob

TC, BC, AM = 'helics::TimeCoordinator::', 'helics::BaseTimeCoordinator::', 'helics::ActionMessage::'
BASE = {'sequenceCounter', 'nonGranting', 'executionMode', 'disconnected', 'mSourceId', 'dependencies', 'checkingExec', 'sendMessageFunction', 'parent_broker_id'}


def loc(n):
    r = THIS
    for j, p in enumerate(n.split('.')):
        if j == 0:
            r = ('f', r, (BC if p in BASE else TC) + p)
        else:
            r = ('f', r, ('helics::tcoptions::' if n.startswith('info.') else 'helics::TimeData::') + p)
    return r


def V(n):
    return ('l', loc(n))


TRIG = 'helics::GlobalFederateId::gid'
INV = (-2010000000, -1700000000)


def valid(q, v):
    """is the federate id a valid one"""
    g = ('l', ('f', v[1], TRIG)) if v[0] == 'l' else v
    return all(q.ne(g, C(k)) for k in INV)


def asked(q, x, name, *want):
    """results of recorded questions with these arguments"""
    for e in x.calls(name):
        a = e[3]
        if len(a) >= len(want) and all(w is None or a[j] == w or flow.known_eq(q.st, a[j], w) is True or w in (C(0), C(1)) and a[j][0] != 'c' and
                                       flow.truth(q.st, a[j]) is bool(w[1]) for j, w in enumerate(want)):
            return e[4]
    return None


def dates(x, c, eng, st, fr, l):
    """fields of a message"""
    o = {n: eng.read(st, ('f', l, AM + n)) for n in ('messageAction', 'messageID', 'source_id', 'dest_id', 'counter', 'flags', 'actionTime', 'Te', 'Tdemin',
                                                        'source_handle', 'dest_handle')}
    for n, v in o.items():
        if v[0] == 'fld' and v[1][0] == 'k' and v[1][1] == 'helics::ActionMessage' and all(a[0] in ('c', 'l', 'fld') for a in v[1][2]):
            a = v[1][2]
            j = {'messageAction': 0, 'source_id': 1, 'dest_id': 2}.get(n)
            if j is not None and j < len(a):
                o[n] = a[j]
            elif n in ('counter', 'flags', 'messageID'):
                o[n] = C(0)
    return o


def handler(questions, messages, special=()):
    """records questions (name -> answered by a term of name and arguments) and sent messages with their contents"""
    def called(rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
        if s in special:
            return special[s](rule, eng, st, fr, i, name, obj, args)
        if s in questions:
            r = ('call', s, vals, 0)
            rule.eff(eng, st, ('call', s, None, vals, r))
            return [(st, r)]
        if s in messages:
            d = None
            for a in args:
                if a >= 0 and 'ActionMessage' in (fr.fn.nodes[a].get('t') or ''):
                    d = tuple(sorted(dates(None, None, eng, st, fr, eng.lv(st, fr, a)).items()))
            rule.eff(eng, st, ('sent', s, d, vals[1:] if d else vals))
            if s == 'transmitTimingMessages':
                r = ('call', s, vals[1:], 0)
                return [(st, r)]
            return [(st, C(0))]
        return None
    return called


def sends(x, *ns):
    return [e for e in x.all() if e[0] == 'sent' and (not ns or e[1] in ns)]


def leftout(x, what):
    """no dependent is left out of an announcement"""
    for k in sends(x, 'transmitTimingMessages'):
        a = ref.peel(k[3][0]) if k[3] else None
        x.need(a is None or a[0] in ('k', 'u') and not (len(a) > 2 and a[2]) or a[0] == 'c' and a[1] in range(INV[0], -1700000000 + 1) or a[0] not in ('l', 'k', 'c'),
               'a dependent is left out of the announcement of ' + what)


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/TimeCoordinator.cpp'], [])
    IR = names.enum_values(prog, 'helics::IterationRequest')
    MR = names.enum_values(prog, 'helics::MessageProcessingResult')
    GD = names.enum_values(prog, 'helics::GrantDelayMode')
    TS = names.enum_values(prog, 'helics::TimeState')
    E = names.enum_values(prog, 'helics::action_message_def::action_t')
    flags = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag') or y[0] == 'destination_target'}
    NO, IFN, FORCE = IR['NO_ITERATIONS'], IR['ITERATE_IF_NEEDED'], IR['FORCE_ITERATION']
    NEXT, ITER, GO, HALT = MR['NEXT_STEP'], MR['ITERATING'], MR['CONTINUE_PROCESSING'], MR['HALTED']
    bools = {'nonGranting', 'hasIterationData', 'needSendAll', 'wait_for_current_time_updates', 'disconnected', 'executionMode', 'hasInitUpdates', 'dynamicJoining'}
    cT = glob('cTerminationTime')

    def dom(t):
        if t[0] == 'l' and t[1][0] == 'f':
            n = t[1][2].split('::')[-1]
            return [NO, IFN, FORCE] if n == 'iterating' else [0, 1] if n in bools else None
        if t[0] == 'call' and t[1] == 'applyRestrictionCheckResult':
            return [NEXT, GO]
        return None

    # time grants
    fn = prog.fn('helics::TimeCoordinator::checkTimeGrant')
    trig = ('v', fn.params[0]['d'], (fn.line,))
    it0 = V('iteration')

    def grant(q, x):
        """(result, granted at, iteration, request sent to) or parts that are left open as '?'"""
        exe, alw, blk, req, grd = V('time_exec'), V('time_allow'), V('time_block'), V('time_requested'), V('time_granted')

        def to():
            if not valid(q, ('l', trig)):
                return None
            return None if q.eq(('l', trig), V('mSourceId')) else 'trigger'
        if not q.lt(exe, cT) and not q.lt(alw, cT):
            return {'ret': HALT, 'grant': None, 'send': None}
        if not q.lt(exe, blk) and q.lt(blk, cT):
            return {'ret': GO, 'grant': None, 'send': to(), 'why': 'a time barrier is in force'}
        if q.is_(V('nonGranting')) and q.lt(exe, req):
            return {'ret': GO, 'grant': None, 'send': to(), 'why': 'the federate does not grant before the requested time'}

        def go(why):
            return {'ret': GO, 'grant': None, 'send': 'all' if q.is_(V('needSendAll')) else to(), 'why': why}

        def given(n):
            force = q.eq(V('iterating'), C(FORCE))
            if n == ITER or force:
                return {'ret': ITER, 'grant': exe, 'it': 1, 'send': None}
            return {'ret': NEXT, 'grant': exe, 'it': 0, 'send': None}
        wait = q.is_(V('info.wait_for_current_time_updates'))
        if q.eq(V('iterating'), C(NO)):
            if q.lt(exe, alw):
                return given(NEXT)
            if q.lt(alw, exe):
                return go('the allowed time lies before the time of the step')
            if not wait and not q.lt(exe, req):
                return given(NEXT)
            m = GD['WAITING'] if wait else GD['INTERRUPTED'] if q.lt(exe, req) else GD['NONE']
            r = asked(q, x, 'checkIfReadyForTimeGrant', C(0), exe, C(m))
            if r is None:
                return {'ret': GO, 'grant': None, 'send': '?', 'why': 'it was not asked whether the dependencies allow it'}
            return given(NEXT) if q.is_(r) else go('the dependencies do not allow it')
        if q.lt(exe, alw):
            if not q.lt(grd, exe) or q.is_(V('hasIterationData')):
                return given(ITER)
            return given(NEXT)
        if q.lt(alw, exe):
            return go('the allowed time lies before the time of the step')
        if q.eq(alw, req):
            if not wait:
                return dict(given(NEXT), **({'grant': '?'} if q.eq(V('iterating'), C(FORCE)) else {}))
            return go('the current time has to be awaited')
        r = asked(q, x, 'checkIfReadyForTimeGrant', C(1), exe, C(GD['WAITING'] if wait else GD['NONE']))
        if r is None:
            return {'ret': GO, 'grant': None, 'send': '?', 'why': 'it was not asked whether the dependencies allow it'}
        if not q.is_(r):
            return go('the dependencies do not allow it')
        if q.is_(V('hasIterationData')):
            return given(ITER)
        if q.lt(grd, exe):
            return dict(given(NEXT), **({'grant': '?'} if q.eq(V('iterating'), C(FORCE)) else {}))
        rs = [e for e in x.calls('applyRestrictionCheckResult')]
        if len(rs) != 1:
            return {'ret': '?', 'send': '?'}
        if flow.const_of(q.st, rs[0][4]) not in (None, C(NEXT), C(GO)):
            raise ref.Impossible
        if q.eq(rs[0][4], C(NEXT)):
            return dict(given(NEXT), **({'grant': '?'} if q.eq(V('iterating'), C(FORCE)) else {}))
        return {'ret': GO, 'grant': None, 'send': '?', 'why': 'the restrictions do not allow it'}

    def factors(rule, eng, st, fr, i, name, obj, args):
        # everything before the first update of the factors is outdated
        first = not [e for e in st.rs[0] if e[0] in ('call', 'sent')]
        rule.eff(eng, st, ('call', 'updateTimeFactors', None, ()))
        if first:
            return [(st, C(0))]
        return None

    def given_(rule, eng, st, fr, i, name, obj, args):
        rule.eff(eng, st, ('grant', eng.read(st, loc('time_exec'))))
        return [(st, C(0))]

    def restr(rule, eng, st, fr, i, name, obj, args):
        vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
        r = ('call', 'applyRestrictionCheckResult', (), 0)
        rule.eff(eng, st, ('call', 'applyRestrictionCheckResult', None, vals, r))
        for j, a in enumerate(args):
            if 1 < j < 5:
                eng.havoc(st, fr, i, eng.lv(st, fr, a), j)
        return [(st, r)]

    def ex(x):
        grants = [e for e in x.all() if e[0] == 'grant']
        reqs = sends(x, 'sendTimeRequest')
        x.need(len(grants) < 2, 'the time is granted twice')
        x.need(x.calls('updateTimeFactors'), 'the time is decided without an update of the allowed time')
        for s, w in ref.cases(x.st, lambda q: grant(q, x), dom):
            res.count('cases')
            if w['ret'] == '?':
                continue
            if grants and w['grant'] is None:
                x.fail('time is granted although ' + w.get('why', 'the federate is finished'))
            if not grants and w['grant'] is not None:
                x.fail('time is not granted although nothing stands against it')
            if ref.wrong(s, x.ret, C(w['ret'])):
                x.fail('the result %s does not tell what happened' % flow.show(x.ret))
            if grants and w['grant'] is not None:
                g = grants[0][1]
                x.need(w['grant'] == '?' or not ref.wrong(s, g, w['grant']), 'another time than that of the step is granted')
                n = x.eng.read(s, loc('iteration'))
                if w['it'] == 0:
                    x.need(n[0] not in ('c', 'l', 'op') or n == C(0), 'the iteration count is not reset by a grant')
                    for z in ('sequenceCounter', 'hasIterationData'):
                        v = x.eng.read(s, loc(z))
                        if z == 'hasIterationData' and flow.truth(s, V(z)) is False:
                            continue
                        x.need(v == C(0) or v[0] not in ('l', 'op') and v != C(1), '%s is not reset by a grant' % z)
                else:
                    x.need(n != C(0) and n != it0, 'an iteration is not counted')
                    if w['ret'] == ITER and x.eng.read(s, loc('hasIterationData')) == V('hasIterationData') and flow.truth(s, V('hasIterationData')):
                        x.fail('data of the iteration is not taken as used')
            if w['send'] == '?':
                continue
            if w['send'] is None:
                for e in reqs:
                    x.need(grants == [] and w['ret'] != HALT, 'a time request is sent along with a grant')
                    if w['ret'] == GO:
                        x.fail('a time request is sent that nobody waits for')
            else:
                x.need(len(reqs) == 1, 'the request is not sent exactly once to those that wait for it')
                for e in reqs:
                    a = e[3][-1] if e[3] else None
                    t = a is not None and ref.peel(a) == ('l', trig)
                    x.need(a is None or a[0] not in ('l', 'k') or t == (w['send'] == 'trigger'), 'the request is not sent to those that wait for it')
        if x.ret == C(HALT):
            x.need(sends(x, 'disconnect'), 'a finished federate does not disconnect')
            for n in ('time_granted', 'time_grantBase'):
                x.need(not c14.differs(x.st, x.val(loc(n)), 'max'), 'a finished federate is not granted the maximum time')
        else:
            x.need(not sends(x, 'disconnect'), 'a federate that is not finished disconnects')
            if not grants:
                for n in ('time_granted', 'time_grantBase', 'iteration'):
                    x.need(x.val(loc(n)) == V(n) or x.val(loc(n))[0] not in ('l', 'c', 'op'), '%s changes without a grant' % n)
    spec.check(res, 'C17', prog, fn, exit=ex, cap=4000, rec=['checkIfReadyForTimeGrant', 'applyRestrictionCheckResult'],
               called=handler({'checkIfReadyForTimeGrant', 'checkTimeGrantRestriction'}, {'sendTimeRequest', 'disconnect'},
                              {'updateTimeFactors': factors, 'updateTimeGrant': given_, 'applyRestrictionCheckResult': restr}))

    # announcing a grant
    def announced(x):
        leftout(x, 'a grant')
        e = [dict(k[2]) for k in sends(x) if k[2]]
        return e

    fn = prog.fn('helics::TimeCoordinator::updateTimeGrant')

    def upd(x):
        ms = announced(x)
        x.need(len(ms) == 1, 'a grant is not announced exactly once')
        for s, force in ref.cases(x.st, lambda q: q.eq(V('iterating'), C(FORCE)), dom):
            res.count('cases')
            g = V('time_granted') if force else V('time_exec')
            for n in ('time_granted',) + (() if force else ('time_grantBase',)):
                x.need(not ref.wrong(s, x.eng.read(s, loc(n)), g), '%s is not the time of the step' % n if not force else '%s changes in a forced iteration' % n)
            for n in ('next', 'Te', 'minDe'):
                x.need(not ref.wrong(s, x.eng.read(s, loc('lastSend.' + n)), g), 'the %s last announced is not the granted time' % n)
            x.need(not ref.wrong(s, x.eng.read(s, loc('lastSend.mTimeState')), C(TS['time_granted'])), 'the state last announced is not granted')
            for m in ms:
                x.need(m['messageAction'] == C(E['cmd_time_grant']), 'a grant is announced by another command')
                x.need(not ref.wrong(s, m['source_id'], V('mSourceId')), 'a grant is announced in the name of another federate')
                x.need(not ref.wrong(s, m['actionTime'], g), 'another time than the granted one is announced')
                x.need(m['counter'] != V('sequenceCounter') and m['counter'] != C(0), 'the grant does not advance the sequence')
            k = x.calls('resetIteratingTimeRequests')
            no = ref.Q(s, dom)
            try:
                n = no.eq(V('iterating'), C(NO))
                x.need(len(k) == (0 if n else 1), 'requests of iterating dependencies are not reset exactly for iterative grants')
            except ref.Open:
                x.fail('the reset of iterating dependencies does not depend on the iteration')
            for e in k:
                x.need(not ref.wrong(s, e[3][0], V('time_exec')), 'iterating dependencies are reset at another time')
    spec.check(res, 'C17', prog, fn, exit=upd, called=handler({'resetIteratingTimeRequests'}, {'transmitTimingMessages'}), rec=['resetIteratingTimeRequests', 'transmitTimingMessages'])

    # entry to execution
    fn = prog.fn('helics::TimeCoordinator::checkExecEntry')
    tZ = glob('timeZero')

    apart = any(f.n.endswith('::applyRestrictionCheckResult') for f in prog.funcs.values())

    def entry(q, x):
        if not q.lt(tZ, V('time_block')):
            return {'ret': GO, 'why': 'a time barrier is in force'}
        wait = q.is_(V('info.wait_for_current_time_updates'))
        no = q.eq(V('iterating'), C(NO))
        w = C(1 if wait else 0)
        r = asked(q, x, 'checkIfReadyForExecEntry', C(0 if no else 1), w)
        if r is None:
            return {'ret': GO, 'why': 'it was not asked whether the dependencies allow it'}
        if not q.is_(r):
            return {'ret': GO, 'why': 'the dependencies do not allow it'}
        if no:
            if not wait:
                return {'ret': NEXT}
            t = x.calls('generateMinTimeTotal')
            t = x.eng.fld(t[0][4], 'helics::TimeData::next') if t else None
            if t is None:
                return {'ret': GO, 'why': 'it was not asked whether others have entered'}
            return {'ret': NEXT} if q.lt(tZ, t) else {'ret': GO, 'why': 'others have not entered'}
        force = q.eq(V('iterating'), C(FORCE))
        done = {'ret': ITER if force else NEXT}
        if not q.lt(it0, V('info.maxIterations')):
            return done
        if q.is_(V('hasInitUpdates')):
            return {'ret': ITER}
        r = asked(q, x, 'checkIfReadyForExecEntry', C(0), w)
        if r is None:
            return {'ret': '?'}
        if q.is_(r):
            return done
        if wait:
            r = asked(q, x, 'checkIfAllDependenciesArePastExec', C(1))
            if r is None:
                return {'ret': GO, 'why': 'it was not asked whether others have entered'}
            if q.is_(r):
                return done
        rs = [e for e in x.calls('applyRestrictionCheckResult')]
        if len(rs) != 1:
            return {'ret': '?'} if not apart else {'ret': GO, 'why': 'the restrictions were not asked'}
        k = flow.const_of(q.st, rs[0][4])
        if k not in (None, C(NEXT), C(GO), C(ITER)):
            raise ref.Impossible
        x.need(flow.known_eq(q.st, rs[0][3][-1], C(done['ret'])) is not False, 'the restrictions decide about another kind of entry')
        if q.eq(rs[0][4], C(done['ret'])):
            return done
        if k not in (None, C(GO)):
            raise ref.Impossible
        return {'ret': GO, 'why': 'the restrictions do not allow it'}

    def enter(x):
        ms = [m for m in announced(x) if m['messageAction'] in (C(E['cmd_exec_grant']), C(E['cmd_time_grant']))]
        odd = [m for m in announced(x) if m['messageAction'][0] != 'c']
        dyn = x.truth(V('dynamicJoining'))
        for s, w in ref.cases(x.st, lambda q: entry(q, x), dom):
            res.count('cases')
            if w['ret'] == '?':
                continue
            if ref.wrong(s, x.ret, C(w['ret'])):
                x.fail('execution is entered although ' + w.get('why', 'another iteration is due') if w['ret'] != NEXT else 'execution is not entered although nothing stands against it')
                continue
            mode = x.eng.read(s, loc('executionMode'))
            if w['ret'] == NEXT:
                x.need(mode == C(1) or mode[0] not in ('c', 'l') or flow.truth(s, mode), 'the federate enters execution without being in execution mode')
                x.need(odd or len(ms) == 1, 'the entry to execution is not announced exactly once')
                for n in ('time_granted', 'time_grantBase'):
                    v = x.eng.read(s, loc(n))
                    x.need(v != V(n), '%s is not set on entry to execution' % n)
                    if dyn is False:
                        x.need(not ref.wrong(s, v, tZ), '%s is not zero on entry to execution' % n)
                v = x.eng.read(s, loc('iteration'))
                x.need(v == C(0) or v[0] not in ('c', 'l', 'op'), 'the iteration count is not reset on entry to execution')
                x.need(x.eng.read(s, loc('currentRestrictionLevel')) == C(0) or x.eng.read(s, loc('currentRestrictionLevel'))[0] not in ('c', 'l'), 'the restriction level is not reset on entry to execution')
                for m in ms:
                    x.need(not ref.wrong(s, m['source_id'], V('mSourceId')), 'the entry is announced in the name of another federate')
                    x.need(x.truth(('op', '&', m['flags'], C(1 << flags['iteration_requested_flag']))) is not True, 'the entry is announced as an iteration')
                    if dyn is False:
                        x.need(m['messageAction'] == C(E['cmd_exec_grant']), 'the entry is announced by another command')
            else:
                x.need(mode == V('executionMode') or mode[0] not in ('c', 'l'), 'the execution mode changes although execution is not entered')
                for n in ('time_granted', 'time_grantBase'):
                    x.need(x.eng.read(s, loc(n)) == V(n) or x.eng.read(s, loc(n))[0] not in ('c', 'l'), '%s changes although execution is not entered' % n)
                if w['ret'] == ITER and dyn is False:
                    x.need(odd or len(ms) == 1, 'an iteration is not announced exactly once')
                    x.need(x.calls('resetIteratingExecRequests'), 'requests of iterating dependencies are not reset by an iteration')
                    v = x.eng.read(s, loc('hasInitUpdates'))
                    x.need(v == C(0) or flow.truth(s, v) is False or v[0] not in ('c', 'l'), 'updates before the iteration are not taken as used')
                    v = x.eng.read(s, loc('iteration'))
                    x.need(v != C(0) and v != it0, 'an iteration is not counted')
                    for m in ms:
                        x.need(m['messageAction'] == C(E['cmd_exec_grant']), 'the iteration is announced by another command')
                        x.need(m['flags'][0] not in ('c', 'l') or m['flags'] != C(0) and m['flags'][0] == 'c', 'the iteration is not announced as one')
                if w['ret'] == GO:
                    x.need(not ms, 'execution is announced although it is not entered')
                    v = x.eng.read(s, loc('iteration'))
                    x.need(v == it0 or v[0] not in ('c', 'l', 'op'), 'an iteration is counted that does not take place')

    def mfed(rule, eng, st, fr, i, name, obj, args):
        return [(st, ('L', ('d', ('call', 'getExecEntryMinFederate', (), 0))))]
    spec.check(res, 'C17', prog, fn, exit=enter, cap=4000,
               rec=['checkIfReadyForExecEntry', 'checkIfAllDependenciesArePastExec', 'applyRestrictionCheckResult', 'generateMinTimeTotal', 'resetIteratingExecRequests'],
               opaque=['updateTimeFactors', 'getDependencyInfo', 'generateAllowedTime', 'dependencyCount'],
               called=handler({'checkIfReadyForExecEntry', 'checkIfAllDependenciesArePastExec', 'checkExecEntryRestriction', 'generateMinTimeTotal'},
                              {'transmitTimingMessages', 'sendUpdatedExecRequest'}, {'applyRestrictionCheckResult': restr, 'getExecEntryMinFederate': mfed}))

    # every dependent learns of a request or grant
    fn = prog.fn('helics::TimeCoordinator::transmitTimingMessages')
    cc = ('f', loc('dependencies'), T + '::dependencies')
    e = cont.el(cc)
    mp, sp = ('v', fn.params[0]['d'], (fn.line,)), ('v', fn.params[1]['d'], (fn.line,))

    def target(q):
        if not q.is_(('l', fl(e, 'dependent'))):
            return None
        if q.eq(('l', fl(e, 'fedID')), ('l', sp)):
            return 'skip'
        return 'request' if any(q.eq(('l', ('f', mp, AM + 'messageAction')), C(E[n])) for n in ('cmd_exec_request', 'cmd_time_request')) else 'other'

    def tdom(t):
        return [0, 1] if t[0] == 'l' and t[1][0] == 'f' and t[1][2].endswith('::dependent') else None
    flagsvar = quant.answered(fn)

    def each(x):
        if x.c != cc:
            return
        ms = sends(x)
        for s, w in ref.cases(x.st, target, tdom):
            res.count('cases')
            if w in (None, 'skip'):
                x.need(not ms, 'a message is sent to a federate that %s' % ('is no dependent' if w is None else 'is to be left out'))
                keep = [x.st.env.get(('v', d, x.fr.id)) for d in flagsvar]
                if w == 'skip':
                    x.need(not flagsvar or any(k is None or k[0] != 'c' or k == C(1) for k in keep), 'leaving a federate out is not reported')
                continue
            x.need(len(ms) == 1, 'a dependent does not get the message exactly once')
            for m in ms:
                d = dict(m[2] or ())
                x.need(not d or not ref.wrong(s, d['dest_id'], ('l', fl(e, 'fedID'))), 'the message to a dependent is addressed to another federate')
                if w == 'request' and d:
                    x.need(d['source_handle'] != ('l', ('f', mp, AM + 'source_handle')), 'a request does not tell which request of the dependent it answers')

    def all_(x):
        x.need(cc in x.done() or x.eq(('p', '#', ('l', cc)), C(0)) is True, 'not all dependents are looked at')
    spec.check(res, 'C17', prog, fn, each=each, exit=all_, called=handler((), {'sendMessageFunction', 'operator()'}))

    # requests are repeated to all only when something changed
    fn = prog.fn('helics::TimeCoordinator::checkAndSendTimeRequest')
    up = ('v', fn.params[0]['d'], (fn.line,))

    def U(n):
        return ('l', ('f', up, AM + n))
    PARTS = (('next', U('actionTime')), ('minDe', U('Tdemin')), ('Te', U('Te')))

    def changed(q):
        for n, v in PARTS:
            if not q.eq(V('lastSend.' + n), v):
                return True
        if not q.eq(V('lastSend.mTimeState'), C(TS['time_requested'])) or not q.eq(V('lastSend.sequenceCounter'), V('sequenceCounter')):
            return True
        g = x_min(q)
        if g is None or not g:
            return None
        k = by(q, 'interrupted', 'flags')
        if k is not None:
            return not k
        return q.bit(U('flags'), flags['interrupted_flag']) != q.is_(V('lastSend.interrupted'))

    def x_min(q):
        """is the minimum federate the one announced last"""
        return by(q, 'minFed', 'dest_handle')

    def by(q, a, b):
        for k, v in q.st.facts.items():
            if k[0] == 'eq' and any(a in str(t) for t in k[1:]) and any(b in str(t) for t in k[1:]):
                return v
        return None

    def again(x):
        ms = sends(x, 'transmitTimingMessages')
        for s, w in ref.cases(x.st, changed, lambda t: sorted(TS.values()) if 'mTimeState' in str(t) else [0, 1] if t == V('lastSend.interrupted') else None):
            res.count('cases')
            if w is False:
                x.need(not ms, 'a request is repeated although nothing changed')
            elif w:
                x.need(ms, 'a changed request is not sent')
            else:
                t = x_min(ref.Q(s))
                x.need(ms or t is not None, 'a request is not sent although the minimum federate may have changed')
                if t is False:
                    x.need(ms, 'a changed request is not sent')
            if ms:
                for n, v in PARTS + (('sequenceCounter', V('sequenceCounter')), ('mTimeState', C(TS['time_requested']))):
                    x.need(not ref.wrong(s, x.eng.read(s, loc('lastSend.' + n)), v), 'the %s last announced is not that of the request' % n)
                x.need(len(ms) == 1 and (not ms[0][3] or ms[0][3][0] == ('l', ('v', fn.params[1]['d'], (fn.line,))) or ms[0][3][0][0] == 'c'), 'another federate is left out')
    spec.check(res, 'C17', prog, fn, exit=again, cap=3000, called=handler((), {'transmitTimingMessages'}), rec=['transmitTimingMessages'])

    # time barriers
    fn = prog.fn('helics::TimeCoordinator::processTimeBlockMessage')
    cmd = ('v', fn.params[0]['d'], (fn.line,))
    PR = names.enum_values(prog, 'helics::TimeProcessingResult')
    blocks = loc('timeBlocks')
    ids = [E[n] for n in ('cmd_time_block', 'cmd_time_barrier', 'cmd_time_unblock', 'cmd_time_barrier_clear')]

    def A(n):
        return ('l', ('f', cmd, AM + n))

    def barrier(q, x):
        act = A('messageAction')
        k = x.calls('updateTimeBlocks')
        if any(q.eq(act, C(v)) for v in ids[:2]):
            return k, A('actionTime')
        if any(q.eq(act, C(v)) for v in ids[2:]):
            if q.eq(('p', '#', ('l', blocks)), C(0)):
                return [], None
            return k, 'max'
        return [], None

    def block(x):
        for s, (k, t) in ref.cases(x.st, lambda q: barrier(q, x), lambda t: sorted(set(E.values())) if t == A('messageAction') else None):
            res.count('cases')
            v = x.eng.read(s, loc('time_block'))
            if t is None:
                x.need(not x.calls('updateTimeBlocks'), 'a barrier changes without a command')
                x.need(not c14.differs(s, v, 'max'), 'time stays blocked without any barrier')
            else:
                x.need(len(k) == 1, 'a barrier is not registered exactly once')
                for c in k:
                    x.need(not ref.wrong(s, c[3][0], A('messageID')), 'the barrier of another number is changed')
                    x.need(not (c14.differs(s, c[3][1], t) if t == 'max' else ref.wrong(s, c[3][1], t)), 'the barrier is set to another time')
                    x.need(v == c[4], 'the blocking time is not the smallest barrier')
            if k:
                lifted = flow.known_lt(s, V('time_block'), v)
                x.need(lifted is not None or x.ret[0] != 'c', 'it is not asked whether a barrier was lifted')
                x.need(lifted is not True or not ref.wrong(s, x.ret, C(PR['PROCESSED'])), 'lifting a barrier is not reported')
    spec.check(res, 'C17', prog, fn, exit=block, called=handler({'updateTimeBlocks'}, ()), rec=['updateTimeBlocks'])

    fn = prog.fn('helics::TimeCoordinator::updateTimeBlocks')
    bid, bt = [('v', p['d'], (fn.line,)) for p in fn.params]

    def blk(x):
        ms = x.muts(blocks)
        for m in ms:
            x.need(m[2] in ('emplace_back', 'push_back', 'emplace', 'insert'), 'barriers are removed')
            vals = [v for a in m[3] for v in (a[2] if a[0] == 'k' else (a,))]
            x.need(('l', bid) in vals and ('l', bt) in vals or any(v[0] not in ('c', 'l') for v in vals), 'the barrier stored is not the one given')
        x.need(len(ms) < 2, 'a barrier is stored twice')
        changed = [k for k in x.all() + list(x.st.rs[1]) if k[0] == 'set']
        x.need(ms or changed, 'the barrier is not stored')
        for k in changed:
            x.need(k[2] == ('l', bt) or k[2][0] not in ('c', 'l'), 'another time is stored for the barrier')
            x.need(k[1][1] != cont.el(blocks) or k[3], 'the barrier of another number is changed')
        x.need(not (ms and changed), 'more than one barrier changes')
        for k in x.all():
            if k[0] == 'order':
                p, q = (('d', ('it', blocks, ('s', z))) for z in ('first', 'second'))
                for v in k[2]:
                    if v[0] in ('rel', 'not'):
                        x.need(v[0] == 'rel' and v[1] == 'lt' and tuple(t[1][1] for t in v[2:] if t[0] == 'l' and t[1][0] == 'f') == (p, q) and
                               all(t[1][2].endswith('::first') for t in v[2:]), 'the barriers are not compared by their time')
        x.need(x.ret != ('l', bt) and x.ret[0] != 'c', 'the answer is not the smallest of the barriers')

    spec.check(res, 'C17', prog, fn, exit=blk, sets=lambda l: l[0] == 'f' and l[2].endswith('::first'),
               atset=lambda st, l, v: flow.known_eq(st, ('l', ('f', l[1], l[2].replace('::first', '::second'))), ('l', bid)) is True)

    # grants forced from outside
    fn = prog.fn('helics::TimeCoordinator::processTimeMessage')
    cmd = ('v', fn.params[0]['d'], (fn.line,))

    def kind(q):
        a = ('l', ('f', cmd, AM + 'messageAction'))
        if q.eq(a, C(E['cmd_force_time_grant'])):
            return 'force' if q.lt(V('time_granted'), ('l', ('f', cmd, AM + 'actionTime'))) else 'late'
        if any(q.eq(a, C(v)) for v in ids):
            return 'block'
        if q.eq(a, C(E['cmd_request_current_time'])):
            return 'current'
        if any(q.eq(a, C(E[n])) for n in ('cmd_disconnect', 'cmd_broadcast_disconnect', 'cmd_disconnect_core', 'cmd_disconnect_fed', 'cmd_disconnect_broker',
                                          'cmd_global_error', 'cmd_local_error')):
            return 'gone'
        return 'other'

    def proc(x):
        at = ('l', ('f', cmd, AM + 'actionTime'))
        for s, w in ref.cases(x.st, kind, lambda t: sorted(set(E.values())) if t == ('l', ('f', cmd, AM + 'messageAction')) else None):
            res.count('cases')
            ms = announced(x)
            g = x.eng.read(s, loc('time_granted'))
            if w == 'force':
                x.need(not ref.wrong(s, g, at), 'a forced grant does not set the time')
                x.need(len(ms) == 1, 'a forced grant is not announced')
                for m in ms:
                    x.need(m['messageAction'] == C(E['cmd_time_grant']) and not ref.wrong(s, m['actionTime'], at) and not ref.wrong(s, m['source_id'], V('mSourceId')),
                           'the announcement of a forced grant is another one')
                continue
            x.need(g == V('time_granted') or g[0] not in ('c', 'l', 'op'), 'the granted time changes by a message')
            x.need(not [m for m in ms if m['messageAction'] == C(E['cmd_time_grant'])], 'a grant is announced that did not happen')
            k = [c[1] for c in x.calls('removeDependent', 'updateTime', 'processTimeBlockMessage')]
            if w == 'gone':
                x.need('removeDependent' in k, 'a federate that is gone stays a dependent')
            else:
                x.need('removeDependent' not in k, 'a dependent is removed by an unrelated message')
            if w == 'block':
                x.need('processTimeBlockMessage' in k, 'a time barrier is ignored')
            elif w in ('other', 'gone'):
                late = x.eq(('l', ('f', cmd, AM + 'messageAction')), C(E['cmd_time_grant']))
                x.need('updateTime' in k or late is True, 'a message is not used for the dependency it comes from')
            for c in x.calls('removeDependent'):
                x.need(not ref.wrong(s, c[3][0], ('l', ('f', cmd, AM + 'source_id'))), 'another dependent is removed')
    spec.check(res, 'C17', prog, fn, exit=proc, cap=4000, opaque=['getDependencyInfo', 'generateTimeRequest', 'checkForIssues'],
               called=handler({'removeDependent', 'updateTime', 'processTimeBlockMessage'}, {'transmitTimingMessages'}),
               rec=['removeDependent', 'updateTime', 'processTimeBlockMessage', 'transmitTimingMessages'])

    # restrictions: a federate may go on only if everything that holds it back waits for its own last request
    for name, isexec in (('checkTimeGrantRestriction', False), ('checkExecEntryRestriction', True)):
        fs = [f for f in prog.funcs.values() if f.n.split('::')[-1] == name] if hasattr(prog, 'funcs') else prog.fns('helics::' + name)
        if not fs:
            continue
        fn = fs[0]
        P = {p['n']: ('v', p['d'], (fn.line,)) for p in fn.params}
        if not {'dependencies', 'sourceId', 'sequenceCounter', 'waitForCurrentTimeUpdates', 'restricted'} <= set(P):
            continue
        if not any(n['k'] == 'MemberExpr' and n.get('n') == 'allowed' and 'RestrictionCheckResult' in n.get('cls', '') for n in fn.nodes):
            continue
        cc2 = ('f', P['dependencies'], T + '::dependencies')
        e2 = cont.el(cc2)

        def holds(q):
            def D(n):
                return ('l', fl(e2, n))
            if not q.is_(D('dependency')):
                return None
            if isexec:
                if q.eq(D('mTimeState'), C(TS['initialized'])):
                    return 'stop'
                if q.rel('>=', D('mTimeState'), C(TS['exec_requested'])):
                    return None
            else:
                if q.lt(('l', P['executionTime']), D('next')) or q.eq(D('connection'), C(CT['SELF'])):
                    return None
            if not q.eq(D('responseSequenceCounter'), ('l', P['sequenceCounter'])):
                return 'stop'
            return 'mine' if q.eq(D('minFed'), ('l', P['sourceId'])) else 'other'
        CT = names.enum_values(prog, 'helics::ConnectionType')
        rdom = {'mTimeState': sorted(TS.values()), 'connection': sorted(CT.values()), 'dependency': [0, 1]}

        def reach(x):
            if x.c != cc2:
                return
            al = [k[2] for k in x.effs if k[0] == 'set']
            for s, w in ref.cases(x.st, holds, rdom):
                res.count('cases')
                if w in ('stop', 'other'):
                    x.need(C(0) in al or any(flow.truth(s, v) is not True for v in al), 'the federate goes on although a dependency %s' % (
                        'has not answered its last request' if w == 'stop' else 'waits for another one'))
                else:
                    x.need(C(0) not in al, 'a dependency that does not stand against it holds the federate back')

        def rex(x):
            if x.st.env.get(('in', cc2)) == C(1):
                reach(spec.X(x.rule, x.eng, x.st, x.fr, x.ret, x.kind, x.st.rs[1], cc2))
            x.need(cc2 in x.done() or x.st.env.get(('in', cc2)) == C(1) or x.eq(('p', '#', ('l', cc2)), C(0)) is True or
                   any(str(P['waitForCurrentTimeUpdates']) in str(k) for k in x.st.facts), 'the dependencies are not asked')
        spec.check(res, 'C17', prog, fn, each=reach, exit=rex, cap=2000, sets=lambda l: l[0] == 'f' and l[2].endswith('RestrictionCheckResult::allowed'))
    res.need('cases', 300)
    res.rules = ['every exit of the grant, entry, announcement and barrier functions compared with a reference over flags, order of the times, iteration request and the answers of the dependencies; every iteration over the dependents sends one message to it']
    return res
