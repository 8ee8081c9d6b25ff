"""C14: what a coordinator knows about its dependencies: registry of dependencies and dependents, and effect of timing messages"""
import fx, harness, names, spec, flow, ref
from flow import C, THIS

T = 'helics::TimeDependencies'
DEPS = ('f', THIS, T + '::dependencies')
D, TD = 'helics::DependencyInfo::', 'helics::TimeData::'


def fl(e, n):
    return ('f', e, (D if n in DI else TD) + n)


DI = ('fedID', 'cyclic', 'connection', 'dependent', 'dependency', 'forwarding', 'nonGranting', 'triggered', 'updateRequested')
TDF = ('next', 'Te', 'minDe', 'TeAlt', 'lastGrant', 'minFed', 'minFedActual', 'mTimeState', 'hasData', 'interrupted', 'delayedTiming',
       'timingVersion', 'restrictionLevel', 'timeoutCount', 'sequenceCounter', 'responseSequenceCounter', 'grantedIteration')


def elements(x):
    """locations of elements the path talks about"""
    o = set()
    for t in list(x.st.facts) + list(x.st.env) + [v for v in x.st.env.values()] + ([x.ret] if x.ret else []):
        flow.subterms(t, o)
    return [t for t in o if t and t[0] == 'd' and len(t) == 2 and t[1][:1] == ('it',) and t[1][1] == DEPS or t[:2] == ('i', DEPS)]


def found(x, gid):
    for e in elements(x):
        if flow.known_eq(x.st, ('l', fl(e, 'fedID')), gid) is True:
            return e
    return None


def glob(n):
    return ('l', ('g', 'helics::' + n))


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/TimeDependencies.cpp'], [])
    have = {f['n'] for r in ('helics::DependencyInfo', 'helics::TimeData') for f in prog.record(r)['fields']}
    for n in DI + TDF:
        if n not in have:
            raise fx.Broken('anchor vanished: dependency field ' + n)
    TS = names.enum_values(prog, 'helics::TimeState')

    def each(n, f, **kw):
        fns = prog.fns(T + '::' + n)
        if not fns:
            raise fx.Broken('anchor vanished: ' + n)
        for fn in fns:
            hits = [0, 0]

            def ex(x):
                e = found(x, x.P(0))
                hits[0 if e else 1] += 1
                gid = x.P(0)
                for b in elements(x):
                    if b[0] == 'd' and b[1][2:] == (('lb', gid),) and x.st.env.get(('bound', DEPS, gid)) == C(0):
                        x.need(x.lt(('l', fl(b, 'fedID')), gid) is False, 'the search in the list does not follow the order of the federates')
                f(x, e)
            spec.check(res, 'C14', prog, fn, exit=ex)
            if not hits[0] or not hits[1]:
                res.add('C14|%s|cases' % n, '%s: %s does not tell known federates from unknown ones' % (fn.loc(), n))

    def touched(x, e):
        return [n for n in DI + TDF if x.val(fl(e, n)) != ('l', fl(e, n))] if not isnew(e) else []

    def isnew(e):
        return e[0] == 'i' and e[2] == ('s', 'back') or e[0] == 'd' and len(e[1]) == 3 and e[1][2][0] == 'new'

    # questions
    for n, flag in (('isDependency', 'dependency'), ('isDependent', 'dependent')):
        def ask(x, e, flag=flag):
            r = x.truth(x.ret)
            x.need(not (r and e is None), 'answers yes for a federate that is not listed')
            if e is not None:
                b = x.truth(('l', fl(e, flag)))
                x.need(b is None or r is None or b == r, 'the answer is not the %s flag of the federate' % flag)
                x.need(r is None or b is not None, 'the answer does not look at the %s flag' % flag)
            x.need(not x.muts(DEPS), 'a question changes the list')
        each(n, ask)

    def info(x, e):
        r = x.ret
        if e is None:
            x.need(r == C(0) or r[0] not in ('addr',), 'returns the entry of another federate')
        else:
            x.need(r[0] not in ('addr', 'c') or r == ('addr', e), 'does not return the entry of the federate')
        x.need(not x.muts(DEPS), 'a question changes the list')
    each('getDependencyInfo', info)

    # registration
    def add(x, e, n):
        ms = x.muts(DEPS)
        if e is None:
            x.need(len(ms) == 1 and ms[0][2] in ('emplace', 'insert', 'emplace_back', 'push_back'), 'an unknown federate is not listed exactly once')
            if not ms:
                return
            m = ms[0]
            gid = x.P(0)
            v = m[3][-1]
            while v[0] == 'k' and len(v[2]) == 1:
                v = v[2][0]
            x.need(v == gid or v[0] not in ('c', 'l') and not (v[0] == 'k' and not v[2]), 'the entry made is not for the federate')
            empty = x.eq(('p', '#', ('l', DEPS)), C(0))
            pos = x.st.env.get(('bound', DEPS, gid))
            if m[2] in ('emplace', 'insert'):
                p = m[3][0]
                x.need(p[0] not in ('it', 'end') or p[0] == 'it' and len(p) == 3 and p[2] in (('lb', gid), ('ub', gid)) or p[0] == 'end' and (empty or pos == C(1)),
                       'the entry is not put at its place in the order')
            else:
                x.need(empty is True or pos != C(0) and pos is not None or x.calls('sort'), 'the entry is put at the end although others belong behind it')
            new = [b for b in elements(x) if isnew(b)]
            on = [x.truth(x.val(fl(b, n))) for b in new]
            x.need(True in on or not new, 'the new entry is not marked as %s' % n)
            other = 'dependent' if n == 'dependency' else 'dependency'
            for b in new:
                o = x.val(fl(b, other))
                x.need(o == ('l', fl(b, other)) or o[0] == 'h' or x.truth(o) is not True, 'the new entry is also marked as %s' % other)
            x.need(x.truth(x.ret) is not False, 'a new registration is reported as already present')
            return
        x.need(not ms, 'a federate already listed is listed again')
        x.need(x.truth(x.val(fl(e, n))) is not False and x.val(fl(e, n)) != ('l', fl(e, n)) or x.truth(('l', fl(e, n))) is True, 'the federate is not marked as %s' % n)
        was = x.truth(('l', fl(e, n)))
        r = x.truth(x.ret)
        gone = x.lt(glob('cTerminationTime'), ('l', fl(e, 'next'))) if n == 'dependency' else False
        if gone:
            x.need(r is not False, 'a federate that comes back is not reported as new')
            for f, w in (('next', glob('negEpsilon')), ('lastGrant', glob('timeZero')), ('mTimeState', C(TS['initialized']))):
                x.need(not ref.wrong(x.st, x.val(fl(e, f)), w), 'the %s of a federate that comes back is not reset' % f)
        elif gone is False:
            x.need(was is not None or r is None, 'the answer does not depend on the earlier registration')
            if was is not None and r is not None:
                x.need(r == (not was), 'the return value does not tell whether the federate was registered')
            x.need(set(touched(x, e)) <= {n}, 'registering again changes %s' % ','.join(sorted(set(touched(x, e)) - {n})))
    each('addDependency', lambda x, e: add(x, e, 'dependency'))
    each('addDependent', lambda x, e: add(x, e, 'dependent'))

    def rem(x, e, n, other):
        ms = x.muts(DEPS)
        if e is None:
            x.need(not ms, 'removing an unknown federate changes the list')
            for b in elements(x):
                x.need(not touched(x, b), 'removing an unknown federate changes another one')
            return
        o = x.truth(('l', fl(e, other))) if other else False
        if o:
            x.need(not ms, 'a federate that still is a %s is removed' % other)
            x.need(x.truth(x.val(fl(e, n))) is not True and x.val(fl(e, n)) != ('l', fl(e, n)) or x.truth(('l', fl(e, n))) is False, 'the federate stays a %s' % n)
            x.need(set(touched(x, e)) <= {n}, 'removing a %s changes more of the entry' % n)
        elif o is False:
            erase = [m for m in ms if m[2] == 'erase']
            x.need(erase, 'the federate stays listed')
            for m in erase:
                x.need(m[3][0][0] not in ('it', 'end') or ('d', m[3][0]) == e, 'the entry of another federate is removed')
            x.need(len(erase) < 2 and not [m for m in ms if m[2] not in ('erase',)], 'more than the entry of the federate is removed')
        else:
            x.fail('whether the federate still is a %s is not asked before it is removed' % other)
    each('removeDependency', lambda x, e: rem(x, e, 'dependency', 'dependent'))
    each('removeDependent', lambda x, e: rem(x, e, 'dependent', 'dependency'))
    each('removeInterdependence', lambda x, e: rem(x, e, None, None))

    # effect of messages
    fn = prog.fn(T + '::updateTime')
    cmd = ('v', fn.params[0]['d'], (fn.line,))
    A = 'helics::ActionMessage::'
    E = names.enum_values(prog, 'helics::action_message_def::action_t')
    R = names.enum_values(prog, 'helics::TimeProcessingResult')
    CT = names.enum_values(prog, 'helics::ConnectionType')
    flags = {x[0]: x[1] for q in prog.enums.values() for x in q['e'] if x[0].endswith('_flag') or x[0] == 'destination_target'}

    def a(n):
        return ('l', ('f', cmd, A + n))
    MAX = None

    def message(q, e):
        def g(n):
            return ('l', fl(e, n))
        act = a('messageAction')

        def isa(*ns):
            return any(q.eq(act, C(E[n])) for n in ns)

        def flag(n):
            return q.bit(a('flags'), flags[n])
        w = {}
        res_ = C(R['PROCESSED'])
        req = None
        for c, st in (('cmd_exec_request', 'exec_requested'), ('cmd_time_request', 'time_requested')):
            if isa(c):
                req = st
        if req:
            if req == 'time_requested' and q.eq(g('mTimeState'), C(TS['time_granted'])):
                w['lastGrant'] = g('next')
                res_ = C(R['PROCESSED_NEW_REQUEST'])
            if flag('iteration_requested_flag'):
                w['mTimeState'] = C(TS[req + ('_require_iteration' if flag('required_flag') else '_iterative')])
            else:
                w['mTimeState'] = C(TS[req])
            d = flag('delayed_timing_flag')
            if d and not q.is_(g('delayedTiming')):
                res_ = C(R['PROCESSED_AND_CHECK'])
            w['sequenceCounter'] = a('counter')
            w['minFed'] = a('dest_handle')
            self_ = q.eq(g('connection'), C(CT['SELF']))
            w['responseSequenceCounter'] = a('counter') if self_ else ('l', ('f', a('source_handle')[1], 'helics::InterfaceHandle::hid'))
            if q.eq(w['responseSequenceCounter'], g('grantedIteration')):
                w['updateRequested'] = C(0)
            if req == 'exec_requested':
                w['delayedTiming'] = C(1 if d else 0)
                w['restrictionLevel'] = a('messageID')
            else:
                if d:
                    w['delayedTiming'] = C(1)
                w['next'], w['Te'], w['minDe'] = a('actionTime'), a('Te'), a('Tdemin')
                if q.lt(a('Te'), a('Tdemin')):
                    w['minDe'] = a('Te')
                w['interrupted'] = C(1 if flag('interrupted_flag') else 0)
                if flag('non_granting_flag'):
                    w['nonGranting'] = C(1)
                w['triggered'] = C(1 if flag('destination_target') else 0)
        elif isa('cmd_exec_grant'):
            w['hasData'] = C(0)
            w['responseSequenceCounter'] = w['restrictionLevel'] = C(0)
            if flag('iteration_requested_flag'):
                w['mTimeState'] = C(TS['initialized'])
                w['sequenceCounter'] = a('counter')
            else:
                w['mTimeState'] = C(TS['time_granted'])
                w['next'] = w['Te'] = w['minDe'] = glob('timeZero')
                w['sequenceCounter'] = w['grantedIteration'] = w['timeoutCount'] = C(0)
                w['minFed'] = 'none'
        elif isa('cmd_time_grant'):
            w['mTimeState'] = C(TS['time_granted'])
            w['next'] = w['Te'] = w['minDe'] = a('actionTime')
            w['minFed'] = 'none'
            w['timeoutCount'] = w['interrupted'] = w['hasData'] = C(0)
            w['sequenceCounter'] = a('counter')
        elif isa('cmd_disconnect', 'cmd_priority_disconnect', 'cmd_broadcast_disconnect', 'cmd_disconnect_core', 'cmd_disconnect_broker', 'cmd_disconnect_fed'):
            w['mTimeState'] = C(TS['time_granted'])
            w['next'] = w['Te'] = w['minDe'] = 'max'
            w['minFed'] = 'none'
            w['timeoutCount'] = w['hasData'] = w['updateRequested'] = C(0)
        elif isa('cmd_timing_info'):
            w['nonGranting'] = C(1 if flag('non_granting_flag') else 0)
            w['delayedTiming'] = C(1 if flag('delayed_timing_flag') else 0)
            w['timingVersion'] = 'version'
            res_ = C(R['PROCESSED_AND_CHECK'])
        elif isa('cmd_local_error', 'cmd_global_error'):
            w['mTimeState'] = C(TS['error'])
            w['next'] = w['Te'] = w['minDe'] = 'max'
            w['minFed'] = 'none'
            w['timeoutCount'] = C(0)
        elif isa('cmd_send_message', 'cmd_pub'):
            w['hasData'] = C(1)
        elif isa('cmd_request_current_time'):
            w['sequenceCounter'] = a('counter')
        else:
            res_ = C(R['NOT_PROCESSED'])
        return w, res_

    dom = {'mTimeState': sorted(TS.values()), 'connection': sorted(CT.values()), 'delayedTiming': [0, 1], 'dependency': [0, 1], 'messageAction': sorted(set(E.values()))}

    def upd(x):
        e = found(x, a('source_id'))
        if e is None or x.truth(('l', fl(e, 'dependency'))) is False:
            for b in elements(x):
                x.need(not touched(x, b), 'a message of a federate that is no dependency changes an entry')
            x.need(x.ret[0] != 'c' or x.ret == C(R['NOT_PROCESSED']), 'a message of a federate that is no dependency is reported as processed')
            return
        x.need(x.truth(('l', fl(e, 'dependency'))) is True, 'a message is applied without asking whether the sender is a dependency')
        for s, (w, r) in ref.cases(x.st, lambda q: message(q, e), dom):
            res.count('cases')
            for n in DI + TDF:
                if n == 'fedID':
                    continue
                v = x.eng.read(s, fl(e, n))
                res.count('fields')
                bad = differs(s, v, w.get(n, ('l', fl(e, n))))
                if bad:
                    x.fail('%s is not %s after %s' % (n, flow.show(w[n]) if n in w and not isinstance(w[n], str) else w.get(n, 'kept'), action(s)))
            x.need(not ref.wrong(s, x.ret, r), 'the result does not tell how the message was used')

    def action(s):
        q = ref.Q(s, dom)
        v = q.values(a('messageAction')) or []
        inv = {}
        for n, k in E.items():
            inv.setdefault(k, n)
        return inv.get(v[0], '?') if len(v) == 1 else 'the message'

    r = spec.check(res, 'C14', prog, fn, exit=upd, cap=2000)

    def up(x):
        th, u = THIS, ('v', x.fn.params[0]['d'], (x.fn.line,))
        same = []
        copied = ('mTimeState', 'next', 'Te', 'minDe', 'TeAlt', 'minFed', 'sequenceCounter', 'interrupted', 'responseSequenceCounter', 'minFedActual')

        def f(q):
            ch = False
            for n in copied:
                if n != 'sequenceCounter' and not q.eq(('l', fl(u, n)), ('l', fl(th, n))):
                    ch = True
            return ch
        diff = [n for n in copied if n != 'sequenceCounter' and x.eq(('l', fl(u, n)), ('l', fl(th, n))) is False]
        for n in copied:
            v = x.val(fl(th, n))
            res.count('fields')
            if v != ('l', fl(u, n)) and x.eq(('l', fl(u, n)), ('l', fl(th, n))) is not True:
                x.need(not ref.wrong(x.st, v, ('l', fl(u, n))), '%s is not taken over' % n)
        for n in TDF:
            if n not in copied:
                x.need(x.val(fl(th, n)) == ('l', fl(th, n)), '%s is changed by an update' % n)
        t = x.truth(x.ret)
        open_ = [n for n in copied if n != 'sequenceCounter' and x.eq(('l', fl(u, n)), ('l', fl(th, n))) is not True]
        if diff or t is False and open_:
            x.need(t is not False, 'a change of %s is not reported' % (diff + open_)[0])
        elif all(x.eq(('l', fl(u, n)), ('l', fl(th, n))) is True for n in copied if n != 'sequenceCounter'):
            x.need(t is not True, 'an update without change is reported as one')
    spec.check(res, 'C14', prog, prog.fn('helics::TimeData::update'), exit=up, cap=3000)
    res.need('cases', 100)
    res.need('fields', 2000)
    res.rules = ['each exit of the registry functions compared with the list entry of the federate asked for; each exit of the message handling compared field by field with a reference of the message kinds']
    return res


def differs(st, v, w):
    p = ref.peel(v)
    if w == 'version':
        return False
    if w == 'none':
        return p[0] in ('l', 'c')
    if w == 'max':
        return not ('maxVal' in str(p)) and p[0] in ('c', 'l')
    return ref.wrong(st, v, w)
