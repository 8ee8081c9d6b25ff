"""C24: connection requirements that are not met are reported and stop the start"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, ZERO, THIS
from c23 import contents, AM

H = 'helics::'
NII = H + 'InterfaceInfo::'
FS = H + 'FederateState::'
DISTINCT = ('call', 'distinct', (), 0)       # how many different interfaces a set was filled with


class Issues(spec.Spec):
    """what is put into the list of issues; the rest of the text is free"""
    cap = 4000

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.eh = False

    def mutate(self, eng, st, fr, i, c, op, vals):
        super().mutate(eng, st, fr, i, c, op, vals)
        if op in ('emplace_back', 'push_back'):
            st.env[('v', 'reported', ())] = C(1)
            st._k = None

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if name.startswith('fmt::') or s in ('logMessage',):
            return [(st, ('call', s, (), 0))]
        if s in ('checkTypeMatch', 'checkUnitMatch'):
            v = tuple(eng.ev(st, fr, a) for a in args)
            return [(st, ('call', s, v, 0))]
        if s in ('checkInterfacesForIssues',) and args:
            self.eff(eng, st, ('asked', self.objloc(eng, st, fr, obj), eng.lv(st, fr, args[0])))
            return [(st, ZERO)]
        if s == 'size' and self.objloc(eng, st, fr, obj)[0] == 'v' and 'set<' in fr.fn.nodes[obj].get('t', ''):
            return [(st, DISTINCT)]
        return super().called(eng, st, fr, i, name, obj, args)


def added(effs):
    return [e for e in effs if e[0] == 'mut' and e[2] in ('emplace_back', 'push_back')]


def code(e):
    v = e[3][0]
    while v[0] == 'k' and v[2]:
        v = v[2][0]
    return v


class All:
    """every interface is looked at, every requirement of it, every source"""

    def __init__(self, res, prog):
        self.res, self.prog = res, prog
        self.fn = prog.fn(NII + 'checkInterfacesForIssues')
        self.fail = C(names.enum_values(prog, H + 'defs::Errors')['CONNECTION_FAILURE'])
        self.L = {n: ('f', THIS, NII + n) for n in ('inputs', 'publications', 'endpoints')}
        ptr = {n: ('d', ('l', cont.el(l))) for n, l in self.L.items()}
        self.inp = lambda n: ('l', ('f', ptr['inputs'], H + 'InputInfo::' + n))
        self.pub = lambda n: ('l', ('f', ptr['publications'], H + 'PublicationInfo::' + n))
        self.ept = ptr['endpoints']
        self.src = ('f', ptr['inputs'], H + 'InputInfo::source_info')

    def s(self, n):
        return ('l', ('f', cont.el(self.src), H + 'InputInfo::sourceInformation::' + n))

    def match(self, q, f, args):
        """is the answer known to be true, whatever the order of the two sides?"""
        for k in list(q.st.facts):
            for t in k[1:]:
                if isinstance(t, tuple) and t[:2] == ('call', f) and sorted(map(str, map(ref.peel, t[2][:2]))) == sorted(map(str, map(ref.peel, args[:2]))) and t[2][2:] == args[2:]:
                    return q.is_(t)
        return q.is_(('call', f, args, 0))

    def want(self, c):
        def input_(q):
            if q.is_(self.inp('required')) and not q.is_(self.inp('has_target')):
                return True
            n = self.inp('required_connnections')
            return q.lt(ZERO, n) and not q.eq(('p', '#', self.inp('input_sources')), n)

        def source(q):
            if not self.match(q, 'checkTypeMatch', (self.inp('type'), self.s('type'), self.inp('strict_type_matching'))):
                return True
            return not q.is_(self.inp('ignore_unit_mismatch')) and not self.match(q, 'checkUnitMatch', (self.inp('units'), self.s('units'), ZERO))

        def publication(q):
            if q.is_(self.pub('required')) and q.eq(('p', '#', self.pub('subscribers')), ZERO):
                return True
            n = self.pub('requiredConnections')
            return q.lt(ZERO, n) and not q.eq(('p', '#', self.pub('subscribers')), n)
        return {self.L['inputs']: input_, self.L['publications']: publication, self.src: source}.get(c)

    def each(self, x):
        new = added(x.effs)
        x.need(all(code(e) == self.fail for e in new), 'an unmet requirement is reported as something else')
        if x.c == self.L['endpoints']:
            asked = [e for e in x.effs if e[0] == 'asked']
            x.need(len(asked) == 1 and asked[0][1] == self.ept, 'an endpoint is not asked about its requirements')
            self.lists |= {e[2] for e in asked}
            return
        w = self.want(x.c)
        if w is None:
            return x.need(not new, 'an issue is made up')
        self.lists |= {e[1] for e in new}
        for s, bad in ref.cases(x.st, w):
            self.res.count('cases')
            x.need(bad or not new, 'a requirement that is met is reported')
            x.need(not bad or new, 'a requirement that is not met is not reported')
        if x.c == self.L['inputs']:
            x.need(self.src in x.done() or flow.known_eq(x.st, ('p', '#', ('l', self.src)), ZERO) is True, 'not all sources of an input are looked at')

    def ex(self, x):
        x.need(set(self.L.values()) <= set(x.done()), 'not all interfaces are looked at')
        x.need(not added(x.st.rs[1]), 'an issue is made up')
        x.need(self.lists and len(self.lists) == 1, 'the issues end up in several lists')
        for l in self.lists:
            some = ('v', 'reported', ()) in x.st.env
            x.need(flow.contains(x.ret, l) or not some, 'another list than that of the issues is returned')

    def run(self):
        self.lists = set()
        spec.check(self.res, 'C24', self.prog, self.fn, cls=Issues, exit=self.ex, each=self.each, sets=lambda l: False)


def endpoint(res, prog):
    fn = prog.fn(H + 'EndpointInfo::checkInterfacesForIssues')
    fail = C(names.enum_values(prog, H + 'defs::Errors')['CONNECTION_FAILURE'])
    out = ('v', fn.params[0]['d'], (fn.line,))
    f = lambda n: ('l', ('f', THIS, H + 'EndpointInfo::' + n))
    S, T = f('sourceInformation')[1], f('targetInformation')[1]
    n = lambda c: ('p', '#', ('l', c))

    def each(x):
        put = [e for e in x.effs if e[0] == 'mut']
        x.need(x.c in (S, T) and len(put) == 1 and put[0][1] != out, 'a connection is not counted once')
        for e in put:
            v = str(e[3])
            x.need('EndpointInformation::id' in v and str(cont.el(x.c)) in v, 'a connection is counted as another')

    def ex(x):
        new = [e for e in added(x.all()) if e[1] == out]
        x.need(all(code(e) == fail for e in new), 'an unmet requirement is reported as something else')
        need = f('requiredConnections')

        def want(q):
            if not q.is_(f('targetedEndpoint')):
                return False
            if q.is_(f('required')) and q.eq(n(S), ZERO) and q.eq(n(T), ZERO):
                return True
            if not q.lt(ZERO, need):
                return False
            big = n(T) if q.lt(n(S), n(T)) else n(S)
            if q.lt(need, big):
                return True
            if q.eq(('op', '+', n(S), n(T)), need):
                return False
            # what is connected in both directions counts once
            if {S, T} - set(x.done()):
                x.need(all(flow.known_eq(q.st, n(c), ZERO) is True for c in {S, T} - set(x.done())), 'the connections of both directions are not counted')
            return not q.eq(DISTINCT, need)
        for s, bad in ref.cases(x.st, want):
            res.count('cases')
            x.need(bad or not new, 'a requirement that is met is reported')
            x.need(not bad or new, 'a requirement that is not met is not reported')
    spec.check(res, 'C24', prog, fn, cls=Issues, exit=ex, each=each, sets=lambda l: False)


def outcome(res, prog):
    """the federate takes the first issue as its error, tells of all of them and answers with the code"""
    fn = prog.fn(FS + 'checkInterfaces')
    found = ('call', 'issues', (), 0)
    code, text = ('f', THIS, FS + 'errorCode'), ('f', THIS, FS + 'errorString')

    def called(rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        if s == 'checkInterfacesForIssues':
            rule.eff(eng, st, ('asked',))
            return [(st, found)]
        if s == 'logMessage':
            rule.eff(eng, st, ('log',))
            return [(st, ('call', s, (), 0))]
        if name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))]

    def each(x):
        x.need(any(e[0] == 'log' for e in x.effs), 'an issue is not told')

    def ex(x):
        sets = [e for e in x.all() if e[0] == 'set']
        x.need(len([e for e in x.all() if e[0] == 'asked']) == 1, 'the interfaces are not asked')
        if not sets:
            return x.need(x.ret == ZERO and flow.known_eq(x.st, ('p', '#', found), ZERO) is True, 'issues that were found are not answered with')
        x.need({e[1] for e in sets} == {code, text}, 'the first issue does not become the error')
        for e in sets:
            x.need(e[2] in [('fld', ('elt', found, k), 'std::pair::' + ('first' if e[1] == code else 'second')) for k in (('s', 'front'), ZERO)], 'the error is not that of the first issue')
        x.need(x.done(), 'the issues are not told')
        x.need(x.ret == x.val(code) or x.ret == [e[2] for e in sets if e[1] == code][0], 'another code is answered')
    spec.check(res, 'C24', prog, fn, called=called, exit=ex, each=each, sets=lambda l: l in (code, text))


class Told(spec.Spec):
    """what is sent and done; lists kept on the way do not matter"""
    cap = 300

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.eh = False

    def mutate(self, eng, st, fr, i, c, op, vals):
        pass

    def it_begin(self, eng, st, fr, i, c):
        pass

    it_next = it_done = it_begin

    def counters(self, fn):
        return ()


def raised(v):
    """the flags that were set for certain"""
    if v[0] == 'op' and v[1] == '|':
        return raised(v[2]) | raised(v[3])
    return v[1] if v[0] == 'c' else 0


class Start:
    """the root lets the federation start only when nothing required is missing; otherwise everybody hears of it"""
    ASKS = ('hasUnknowns', 'hasNonOptionalUnknowns', 'hasRequiredUnknowns', 'checkExecEntry')
    WALKS = ('processUnknowns', 'processUnknownLinks', 'processRequiredUnknowns', 'processNonOptionalUnknowns', 'clearUnknownsIf')
    DOES = ('broadcast', 'transmit', 'routeMessage', 'addActionMessage', 'sendDisconnect', 'setBrokerState', 'enteringExecMode')
    QUIET = ('linkInterfaces', 'findAndNotifyPublicationTargets', 'findAndNotifyInputTargets', 'findAndNotifyEndpointTargets', 'findAndNotifyFilterTargets', 'findRegexMatch', 'empty',
             'logMessage', 'logFlush', 'checkDependencies', 'loadTimeMonitor', 'interfaceTypeName', 'getIdentifier', 'sendToLogger', 'compare')

    def __init__(self, res, prog):
        self.res, self.prog = res, prog
        self.fn = prog.fn(H + 'CoreBroker::executeInitializationOperations')
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.fail = C(names.enum_values(prog, H + 'defs::Errors')['CONNECTION_FAILURE'])
        self.operating = names.enum_values(prog, H + 'BrokerBase::BrokerState')['OPERATING']
        self.F = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag')}
        self.strict = ('l', ('f', THIS, H + 'BrokerBase::errorOnUnmatchedConnections'))

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s == 'setAction' and args:
            eng.write(st, ('f', rule.objloc(eng, st, fr, obj), AM + 'messageAction'), eng.ev(st, fr, args[0]))
            return [(st, ZERO)]
        if s in self.ASKS:
            return [(st, ('call', s, (), 0))]
        if s in self.DOES:
            v = []
            for a in args:
                if 'ActionMessage' in fr.fn.nodes[a].get('t', ''):
                    l = eng.lv(st, fr, a)
                    d = dict(contents(eng, st, l))
                    v.append(('msg', d['messageAction'], d['messageID'], d['dest_id'], d['dest_handle'], d['flags']))
                else:
                    v.append(eng.ev(st, fr, a))
            e = ('does', s) + tuple(v)
            rule.eff(eng, st, e if e not in st.rs[0] else ('twice',) + e[1:])
            return [(st, ('call', s, (), 0))]
        if s == 'operator=' and 'SmallBuffer' in name:
            eng.havoc(st, fr, i, rule.objloc(eng, st, fr, obj), 'text')
            return [(st, ZERO)]
        if s in self.QUIET or name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))]
        if s == 'getInterfaceHandle' and args:
            return [(st, ('call', 'handle', (eng.ev(st, fr, args[0]),), 0))]
        if s in self.WALKS and args:
            lam = eng.ev(st, fr, args[-1])
            if lam[0] != 'lam':
                return None
            lam, lf = self.prog.funcs[lam[1][0]], lam[2]
            links = s == 'processUnknownLinks'
            strict = flow.truth(st, self.strict) is True
            if s in ('processUnknowns', 'processUnknownLinks', 'clearUnknownsIf') and not strict:
                return [(st, ZERO)]
            rule.eff(eng, st, ('walk', s, strict))
            # nothing to walk over, or one of what there is
            out = [(st, ZERO)]
            one = st.copy()
            at = [('v', '%s of %s' % (n, s), ()) for n in (('origin', 'otype', 'target', 'type') if links else ('target', 'type', 'who'))]
            for s2, v in rule.call_lam(eng, one, fr, i, lam, lf, at):
                for s3, t in rule.split(s2, ('and', ('call', 'handle', (('l', at[0]),), 0), ('call', 'handle', (('l', at[2]),), 0))) if links else [(s2, False)]:
                    rule.eff(eng, s3, ('pass', s, strict, not t))
                    out.append((s3, ZERO))
            return out
        return None

    def ex(self, x):
        eff = x.all()
        does = lambda n: [e[2:] for e in eff if e[0] == 'does' and e[1] == n]
        x.need(not any(e[0] == 'twice' and e[1] in ('broadcast', 'setBrokerState', 'enteringExecMode') for e in eff), 'the start is announced twice')
        ask = lambda q, n: q.is_(('call', n, (), 0))
        seen = lambda n: [e for e in eff if e[0] == 'pass' and e[1] == n]

        def want(q):
            if not ask(q, 'hasUnknowns'):
                return 'go', None
            if q.is_(self.strict) and [e for e in seen('processUnknowns') + seen('processUnknownLinks') if e[3]]:
                return 'stop', None
            if q.is_(self.strict) and not {'processUnknowns', 'processUnknownLinks'} <= {e[1] for e in eff if e[0] == 'walk'}:
                return 'unasked', None
            if not ask(q, 'hasNonOptionalUnknowns'):
                return 'go', None
            return ('stop', 'processRequiredUnknowns') if ask(q, 'hasRequiredUnknowns') else ('go', 'processNonOptionalUnknowns')
        for s, (w, walk) in ref.cases(x.st, want):
            self.res.count('cases')
            x.need(w != 'unasked', 'what could not be connected is not looked at when all of it has to be')
            grants = [m for m, in does('broadcast') if m[1] == C(self.A['cmd_init_grant'])]
            errors = [m for m, in does('broadcast') if m[1] in (C(self.A['cmd_error']), C(self.A['cmd_global_error']))]
            stop = does('sendDisconnect'), does('addActionMessage')
            if w == 'go':
                x.need(len(grants) == 1 and does('setBrokerState') == [(C(self.operating),)] and len(does('enteringExecMode')) == 1, 'the start that nothing speaks against is not made')
                x.need(not any(raised(m[5]) >> self.F['iteration_requested_flag'] & 1 for m in grants), 'the start asks for another iteration')
                x.need(not errors and not any(stop), 'an error is raised without need')
            elif w == 'stop':
                x.need(not grants and not does('setBrokerState') and not does('enteringExecMode'), 'the federation starts although a required connection is missing')
                x.need(len(errors) == 1 and errors[0][2] == self.fail, 'not everybody hears that a required connection is missing')
                x.need(stop[0] == [(C(self.A['cmd_global_disconnect']),)] and [m[1] for m, in stop[1]] == [C(self.A['cmd_stop'])], 'the federation is not ended although a required connection is missing')
            if walk:
                x.need(any(e[0] == 'walk' and e[1] == walk for e in eff), 'who asked for what is missing is not told')
            for k, a in (('processRequiredUnknowns', 'cmd_error'), ('processNonOptionalUnknowns', 'cmd_warning')):
                told = [m for m, in does('routeMessage') if m[1] == C(self.A[a])]
                x.need(len(told) == len(seen(k)), 'who asked for what is missing is not told')
                who = ('f', ('v', 'who of ' + k, ()), 'std::pair::first')
                for m in told:
                    x.need(m[2] == self.fail and flow.contains(m[3], who) and flow.contains(m[4], who), 'another one than who asked for it is told of what is missing')

    def run(self):
        spec.check(self.res, 'C24', self.prog, self.fn, cls=Told, called=self.called, exit=self.ex, env={('v', self.fn.params[0]['d'], (self.fn.line,)): ZERO})


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/InterfaceInfo.cpp', 'core/EndpointInfo.cpp'], [])
    a = All(res, prog)
    a.run()
    endpoint(res, prog)
    outcome(res, fx.load(['core/FederateState.cpp'], []))
    Start(res, fx.load(['core/CoreBroker.cpp'], [])).run()
    return res
