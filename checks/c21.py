"""C21: interfaces know exactly their connections"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, ZERO, THIS

H = 'helics::'
EMPTY = (('s', ''), ('k', 'empty', ()))


class Lists(spec.Spec):
    """remembers, behind the last change of a list, whether the list was walked and what each of its elements was put into"""

    def eff(self, eng, st, e):
        if e[0] == 'mut' and e[2] != 'reserve':
            gone = {k for k in st.rs[0] if k[0] in ('walk', 'turn', 'put') and (k[1] == e[1] or k[0] == 'put' and k[2] == e[1] and e[2] == 'clear')}
            if gone:
                st.rs = (st.rs[0] - gone, st.rs[1], st.rs[2])
        super().eff(eng, st, e)

    def mutate(self, eng, st, fr, i, c, op, vals):
        n = fr.fn.nodes[i]
        super().mutate(eng, st, fr, i, c, 'remove' if 'remove_if' in str(n.get('n') or n.get('callee') or n) else op, vals)

    def it_next(self, eng, st, fr, i, c):
        it = st.rs[1]
        j = max([k for k, e in enumerate(it) if e == ('[', c)], default=-1)
        own = it[j + 1:]
        super().it_next(eng, st, fr, i, c)
        new = set() if [e for e in own if e[0] == 'mut' and e[1] == c] else {('turn', c)}
        new |= {(('marked' if e[2] == 'remove' else 'dropped'), c) for e in own if e[0] == 'mut' and e[1] == c and e[2] in ('remove', 'erase')}
        for e in own:
            if e[0] == 'mut' and e[1] != c and e[2] in ('push_back', 'emplace_back'):
                new.add(('put', c, e[1], len([1 for f in own if f[0] == 'mut' and f[1] == e[1]]), e[3], ('mut', e[1], 'clear', ()) in list(st.rs[0]) + list(it)))
        st.rs = (st.rs[0] | new, st.rs[1], st.rs[2])

    def it_done(self, eng, st, fr, i, c):
        super().it_done(eng, st, fr, i, c)
        st.rs = (st.rs[0] | {('walk', c)}, st.rs[1], st.rs[2])


class Conn:
    def __init__(self, cls, rec, lst, key, text=None, vec=None, named=False):
        self.cls = H + cls + '::'
        f = lambda n: ('f', THIS, self.cls + n)
        self.lst, self.text, self.vec, self.named = f(lst), text and f(text), vec and f(vec), named
        self.id = H + rec + '::id'
        self.key = H + rec + '::' + key
        self.rec = rec


PUB = Conn('PublicationInfo', 'SubscriberInformation', 'subscribers', 'key', 'destTargets')
EPD = Conn('EndpointInfo', 'EndpointInformation', 'targetInformation', 'key', 'destinationTargets', 'targets', True)
EPS = Conn('EndpointInfo', 'EndpointInformation', 'sourceInformation', 'key', 'sourceTargets')
FLS = Conn('FilterInfo', 'EptInformation', 'sourceEndpoints', 'key', 'sourceEpts', 'sourceTargets')
FLD = Conn('FilterInfo', 'EptInformation', 'destEndpoints', 'key', 'destEpts', 'destTargets')
ADDS = [(PUB, 'addSubscriber'), (EPD, 'addDestination'), (EPS, 'addSource'), (FLD, 'addDestinationEndpoint'), (FLS, 'addSourceEndpoint')]
DROPS = [('PublicationInfo', 'removeSubscriber', (PUB,), False), ('PublicationInfo', 'disconnectFederate', (PUB,), True),
         ('EndpointInfo', 'removeTarget', (EPD, EPS), False), ('EndpointInfo', 'disconnectFederate', (EPD, EPS), True),
         ('FilterInfo', 'removeTarget', (FLS, FLD), False)]


def effects(x):
    return [e for e in list(x.st.rs[0]) + list(x.st.rs[1]) if e[0] != '[']


def before(x):
    it = x.st.rs[1]
    j = max([k for k, e in enumerate(it) if e == ('[', x.c)], default=0)
    return list(x.st.rs[0]) + list(it[:j])


def derived(x, k):
    """what is made from the list follows its change"""
    if k.text:
        x.need(x.val(k.text) in EMPTY, 'the text with the connections stays as it was before the change')
    if k.vec:
        put = [e for e in effects(x) if e[0] == 'put' and e[1] == k.lst and e[2] == k.vec]
        own = [e for e in effects(x) if e[0] == 'mut' and e[1] == k.vec and e[2] in ('push_back', 'emplace_back')]
        if own and not put and not k.named:
            return own
        x.need(('walk', k.lst) in x.st.rs[0], 'the list of targets stays as it was before the change')
        x.need(put or ('turn', k.lst) not in x.st.rs[0], 'the list of targets is not made from the connections again')
        for e in put:
            x.need(e[3] == 1, 'a target is listed twice')
            x.need(e[5], 'new targets are put behind the old ones')
            a = flat(e[4])
            w = [('l', ('f', cont.el(k.lst), k.id))] + ([('l', ('f', cont.el(k.lst), k.key))] if k.named else [])
            x.need(len(a) >= len(w) and all(not ref.wrong(x.st, p, q) for p, q in zip(a, w)), 'another target is listed than the connection')
    return ()


def flat(a):
    out = []
    for v in a:
        if v[0] == 'k' and v[1] != 'empty':
            out += flat(v[2])
        else:
            out.append(v)
    return out


def added(res, prog, k, name):
    fn = prog.fn(k.cls + name)
    P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]

    def ex(x):
        grow = [e for e in effects(x) if e[0] == 'mut' and e[1] == k.lst]
        here = x.st.env.get(('in', k.lst)) == C(1) and any(b and f[0] == 'eq' and flow.contains(f, cont.el(k.lst)) for f, b in x.st.facts.items())
        if here:
            for s, w in ref.cases(x.st, lambda q: q.eq(('l', ('f', cont.el(k.lst), k.id)), P[0])):
                res.count('cases')
                x.need(w, 'a connection is taken for known because another one is')
            x.need(not grow, 'a connection that is known is added again')
            x.need(x.ret is None or x.truth(x.ret) is not True, 'a known connection is reported as new')
            return
        x.need(k.lst in x.done() or x.eq(('p', '#', ('l', k.lst)), ZERO) is True, 'a connection is added without looking for it')
        x.need(x.ret is None or x.truth(x.ret) is not False, 'a new connection is reported as known')
        x.need(len(grow) == 1 and grow[0][2] in ('push_back', 'emplace_back'), 'a new connection is not added once')
        for e in grow:
            a = flat(e[3])
            x.need(len(a) == len(P) and all(not ref.wrong(x.st, p, q) for p, q in zip(a, P)), 'another connection is added than the one given')
        for e in derived(x, k):
            x.need(flat(e[3])[:1] == [P[0]], 'another target is listed than the connection')

    def each(x):
        if x.c == k.lst and ('mut', k.lst, 'emplace_back') not in [e[:3] for e in before(x)]:
            for s, w in ref.cases(x.st, lambda q: q.eq(('l', ('f', cont.el(k.lst), k.id)), P[0])):
                x.need(not w or [e for e in x.effs if e[0] in ('set', 'call')], 'a known connection is passed over')
    spec.check(res, 'C21', prog, fn, cls=Lists, exit=ex, each=each, sets=lambda l: True)


def removed(res, prog, cls, name, ks, fed):
    fn = prog.fn(H + cls + '::' + name)
    P0 = ('l', ('v', fn.params[0]['d'], (fn.line,)))

    def match(k):
        i = ('f', cont.el(k.lst), k.id)
        return (lambda q: q.eq(('l', ('f', i, H + 'GlobalHandle::fed_id')), P0)) if fed else (lambda q: q.eq(('l', i), P0))

    def each(x):
        for k in ks:
            if x.c == k.lst:
                m = [e for e in x.effs if e[0] == 'mut' and e[1] == k.lst]
                b = before(x)
                if not m and ((('dropped', k.lst) in b or ('mut', k.lst, 'erase') in [e[:3] for e in b]) and (not fed or [e for e in x.effs if e[0] == 'mut' and e[1] == k.vec])):
                    # walked again for what is made from the list
                    continue
                for s, w in ref.cases(x.st, match(k)):
                    res.count('cases')
                    x.need(bool(m) == w, 'a connection that is meant stays' if w else 'a connection is dropped that is not meant')
                x.need(all(e[2] in ('erase', 'remove') for e in m), 'connections are dropped in another way')

    def ex(x):
        for k in ks:
            one = ('it', k.lst)
            m = [e for e in effects(x) if e[0] == 'mut' and e[1] == k.lst]
            x.need(all(e[2] in ('erase',) for e in m), 'the list of connections is changed in another way')
            found = x.st.env.get(('in', k.lst)) == C(1)
            if ('dropped', k.lst) in x.st.rs[0]:
                x.need(k.lst in x.done(), 'not every connection is looked at')
                if not unchanged(x, k):
                    derived(x, k)
            elif not m:
                if ('walk', k.lst) in x.st.rs[0]:
                    # marked but not taken out
                    marked = ('marked', k.lst) in x.st.rs[0]
                    x.need(not marked or any(f[0] == 'eq' and b and ('end', k.lst) in f[1:] for f, b in x.st.facts.items()), 'the connections to be dropped stay in the list')
                else:
                    x.need(x.eq(('p', '#', ('l', k.lst)), ZERO) is True, 'not every connection is looked at')
                continue
            for e in m:
                if e[3] and e[3][0] == one:
                    x.need(found and not fed, 'not every connection of the federate is dropped')
                    x.need(len(e[3]) == 1, 'connections are dropped that are not meant')
                    for s, w in ref.cases(x.st, match(k)):
                        x.need(w, 'a connection is dropped that is not meant')
                else:
                    x.need(('walk', k.lst) in x.st.rs[0] or k.lst in x.done(), 'not every connection is looked at')
                    x.need(len(e[3]) == 2 and e[3][0][:2] == ('call', 'std::remove_if') and e[3][1] == ('end', k.lst), 'connections are dropped that are not meant')
            if not unchanged(x, k):
                derived(x, k)
    spec.check(res, 'C21', prog, fn, cls=Lists, exit=ex, each=each, sets=lambda l: l[0] != 'v')


def unchanged(x, k):
    '''the path knows that nothing was taken out'''
    for f, b in x.st.facts.items():
        if f[0] == '=' and b == ZERO and f[1][:2] == ('call', 'std::erase_if'):
            return True
        if f[0] == 'eq' and b and all(t[:2] == ('p', '#') for t in f[1:]) and ('p', '#', ('l', k.lst)) in f[1:]:
            return True
        if f[0] == 'lt' and not b and f[1] == ZERO and f[2][:2] == ('call', 'std::erase_if'):
            return True
        if f[0] == 'lt' and not b and all(t[:2] == ('p', '#') for t in f[1:]) and f[2] == ('p', '#', ('l', k.lst)):
            return True
    return False


def lists(res):
    for cls in ('PublicationInfo', 'EndpointInfo', 'FilterInfo'):
        prog = fx.load(['core/%s.cpp' % cls], [])
        for k, n in ADDS:
            if k.cls == H + cls + '::':
                added(res, prog, k, n)
        for c, n, ks, fed in DROPS:
            if c == cls:
                removed(res, prog, c, n, ks, fed)


AM = H + 'ActionMessage::'
DO = ('addSource', 'addSubscriber', 'addDestination', 'removeSource', 'removeSubscriber', 'removeTarget', 'addDependency', 'addDependent', 'resetDependency', 'routeMessage', 'closeInterface')
ASK = ('getInput', 'getPublication', 'getEndpoint', 'getState', 'getTranslatorInfo', 'getInputInfo', 'getPubInfo', 'getEndpointInfo', 'getCurrentIteration', 'name', 'getString', 'minVal')


class Hears:
    go = 0

    """what a federate does with a message about a connection"""

    def __init__(self, res, prog, fn, skip=()):
        self.res, self.prog, self.fn = res, prog, fn
        self.A = names.enum_values(prog, 'helics::action_message_def::action_t')
        self.cmd = ('v', fn.params[0]['d'], (fn.line,))
        self.skip = skip

    def m(self, n):
        return ('l', ('f', self.cmd, AM + n))

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        if s in DO:
            o = rule.objloc(eng, st, fr, obj) if obj is not None and obj >= 0 else None
            vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
            if s == 'routeMessage':
                l = eng.lv(st, fr, args[0])
                vals = tuple(sorted((n, eng.read(st, ('f', l, AM + n))) for n in ('messageAction', 'source_id', 'source_handle', 'dest_id', 'dest_handle', 'payload', 'actionTime')))
            rule.eff(eng, st, ('do', s, o, vals))
            return [(st, ('call', s, vals, 0))]
        if name == AM + 'setAction':
            eng.write(st, ('f', rule.objloc(eng, st, fr, obj), AM + 'messageAction'), eng.ev(st, fr, args[0]))
            return [(st, ZERO)]
        if name == H + 'SmallBuffer::operator=':
            l = rule.objloc(eng, st, fr, obj if obj is not None and obj >= 0 else args[0])
            eng.write(st, l, eng.ev(st, fr, args[-1]))
            return [(st, ('L', l))]
        if s == 'processCoordinatorMessage':
            return [(st, ('k', 'std::tuple', (eng.ev(st, fr, args[2]), C(self.go), ZERO)))]
        if s in ASK:
            vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
            o = ()
            if obj is not None and obj >= 0 and s in ('getInputInfo', 'getPubInfo', 'getEndpointInfo', 'name', 'getString'):
                o = (('l', rule.objloc(eng, st, fr, obj)),)
            if s == 'name' and vals:
                return None
            return [(st, ('call', s, o + vals, 0))]
        if s in self.skip:
            return [(st, ('call', s, (), 0))]

    def match(self, st, got, vals):
        if isinstance(vals, dict):
            got = {n: part(v) for n, v in got}
            src = vals['source']
            if not (same(st, got['source_id'], src) or same(st, got['source_id'], ('l', ('f', src[1], H + 'GlobalHandle::fed_id'))) and same(st, got['source_handle'], ('l', ('f', src[1], H + 'GlobalHandle::handle')))):
                return False
            return all(same(st, got[n], v) for n, v in vals.items() if n != 'source')
        got = flat(got)
        return len(got) == len(vals) and all(v is None or same(st, p, v) for p, v in zip(got, vals))

    def on(self, action, want, extra=()):
        """want: reference [(operation, holder, arguments)]; extra: operations that may be there as well"""
        def ex(x):
            did = [e for e in effects(x) if e[0] == 'do']
            for s, w in ref.cases(x.st, want):
                self.res.count('cases')
                left = list(did)
                for op, holder, vals in [v for k, v in enumerate(w) if v not in w[:k]]:
                    hit = [e for e in left if e[1] == op and (holder is None or e[2] == holder) and self.match(s, e[3], vals)]
                    x.need(hit, '%s: %s is not done as the message says' % (action, op))
                    if hit:
                        left.remove(hit[0])
                for e in left:
                    x.need(e[1] in extra, '%s: %s is done though the message does not ask for it' % (action, e[1]))
        r = spec.check(self.res, 'C21', self.prog, self.fn, env={('f', self.cmd, AM + 'messageAction'): C(self.A[action])}, exit=ex, called=self.called, sets=lambda l: False)


def part(v):
    if v[0] == 'fld' and v[1][0] == 'k':
        n = v[2].split('::')[-1]
        k = {'fed_id': 0, 'handle': 1, 'messageAction': 0}.get(n)
        if k is not None and k < len(v[1][2]):
            return v[1][2][k]
    return v


def same(st, a, b):
    return a == b or flow.known_eq(st, a, b) is True or ref.peel(a) == ref.peel(b)


def routed(res):
    prog = fx.load(['core/FederateState.cpp'], [])
    h = Hears(res, prog, prog.fn(H + 'FederateState::processDataConnectionMessage'))
    m = h.m
    call = lambda n, *a: ('call', n, a, 0)
    src, dst, sid = [m('source_id'), m('source_handle')], [m('dest_id'), m('dest_handle')], m('source_id')
    gh = ('k', H + 'GlobalHandle', tuple(src))
    cmdo = ('l', h.cmd)
    L = [prog.globals[H + n]['v'] for n in ('typeStringLoc', 'unitStringLoc')]
    nm, ty, un = call('name', cmdo), call('getString', cmdo, C(L[0])), call('getString', cmdo, C(L[1]))
    method = ('l', ('f', THIS, H + 'FederateState::timeMethod'))
    granted = ('l', ('f', THIS, H + 'FederateState::time_granted'))
    inp, pub, ept = (call(n, m('dest_handle')) for n in ('getInput', 'getPublication', 'getEndpoint'))
    S = names.enum_values(prog, H + 'FederateStates')
    D = names.enum_values(prog, H + 'TimeSynchronizationMethod')
    state = call('getState')
    flags = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag') or y[0] == 'destination_target'}
    dist = lambda q: q.eq(method, C(D['DISTRIBUTED']))
    T = ('d', ept)

    def publisher(q):
        if not q.eq(inp, ZERO):
            return [('addSource', ('d', inp), src + [nm, ty, un])] + ([('addDependency', None, [sid])] if q.is_(call('addSource', gh, nm, ty, un)) and dist(q) else [])
        if not q.eq(ept, ZERO):
            return [('addSource', T, src + [nm, ty])] + ([('addDependency', None, [sid])] if dist(q) else [])
        return []

    def subscriber(q):
        if q.eq(pub, ZERO):
            return []
        out = [('addSubscriber', ('d', pub), src + [nm])]
        if q.is_(call('addSubscriber', gh, nm)) and dist(q):
            out.append(('addDependent', None, [sid]))
        if not q.lt(C(S['CREATED']), state):
            return out
        if q.eq(state, C(S['EXECUTING'])) and dist(q):
            out += [('resetDependency', None, [sid]), ('addDependent', None, [sid])]
        d = ('d', pub)
        last = ('l', ('f', d, H + 'PublicationInfo::lastPublishTime'))
        data = ('f', d, H + 'PublicationInfo::data')
        if not q.eq(('l', ('f', data, H + 'SmallBuffer::bufferSize')), ZERO) and q.lt(call('minVal'), last):
            out.append(('routeMessage', None, {'messageAction': C(h.A['cmd_pub']), 'dest_id': src[0], 'dest_handle': src[1], 'payload': ('l', data), 'actionTime': last, 'source': ('l', ('f', d, H + 'PublicationInfo::id'))}))
        return out

    def endpoint(q):
        if q.eq(ept, ZERO):
            return []
        to = q.bit(m('flags'), flags['destination_target'])
        out = [('addDestination' if to else 'addSource', T, src + [nm, ty])]
        if q.is_(('l', ('f', T, H + 'EndpointInfo::targetedEndpoint'))) and dist(q):
            out.append(('addDependent' if to else 'addDependency', None, [sid]))
        return out

    def ends(who, q):
        return granted if q.eq(m('actionTime'), ('l', ('g', 'helics::timeZero'))) else m('actionTime')
    h.on('cmd_add_publisher', publisher)
    h.on('cmd_add_subscriber', subscriber, ('addDependent',))
    h.on('cmd_add_endpoint', endpoint)
    h.on('cmd_remove_publication', lambda q: [] if q.eq(inp, ZERO) else [('removeSource', ('d', inp), src + [None])])
    named = call('getInput', m('source_handle'))
    h.on('cmd_remove_named_publication', lambda q: [] if q.eq(named, ZERO) else [('removeSource', ('d', named), [None, None])])
    h.on('cmd_remove_subscriber', lambda q: [] if q.eq(pub, ZERO) else [('removeSubscriber', ('d', pub), src)])


def translated(res):
    prog = fx.load(['core/TranslatorFederate.cpp'], [])
    h = Hears(res, prog, prog.fn(H + 'TranslatorFederate::handleMessage'))
    h.go = names.enum_values(prog, H + 'MessageProcessingResult')['CONTINUE_PROCESSING']
    m = h.m
    call = lambda n, *a: ('call', n, a, 0)
    src, sid = [m('source_id'), m('source_handle')], m('source_id')
    L = [prog.globals[H + n]['v'] for n in ('typeStringLoc', 'unitStringLoc')]
    cmdo = ('l', h.cmd)
    nm, ty, un = call('name', cmdo), call('getString', cmdo, C(L[0])), call('getString', cmdo, C(L[1]))
    near = call('getTranslatorInfo', ('l', ('f', THIS, H + 'TranslatorFederate::mFedID')), m('dest_handle'))
    far = call('getTranslatorInfo', ('k', H + 'GlobalHandle', (m('dest_id'), m('dest_handle'))))
    flags = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag') or y[0] == 'destination_target'}

    def at(t, n):
        return ('d', call(n, ('l', ('d', t))))

    def found(q):
        for t in (near, far):
            if any(flow.contains(f, t) for f in q.st.facts):
                return None if q.eq(t, ZERO) else t
        return q.eq(near, ZERO) or near

    def heard(side, op, vals, dep):
        def want(q):
            t = found(q)
            if t is None or t is True:
                return []
            s, o, d = side, op, dep
            if op is None:
                to = q.bit(m('flags'), flags['destination_target'])
                o, d = ('addDestination', 'addDependent') if to else ('addSource', 'addDependency')
            return [(o, at(t, s), vals)] + ([(d, None, [sid])] if d and not q.bit(m('flags'), flags['error_flag']) else [])
        return want
    h.on('cmd_add_publisher', heard('getInputInfo', 'addSource', src + [nm, ty, un], 'addDependency'))
    h.on('cmd_add_subscriber', heard('getPubInfo', 'addSubscriber', src + [nm], 'addDependent'))
    h.on('cmd_add_endpoint', heard('getEndpointInfo', None, src + [nm, ty], None))
    h.on('cmd_remove_publication', heard('getInputInfo', 'removeSource', src + [None], None))
    h.on('cmd_remove_subscriber', heard('getPubInfo', 'removeSubscriber', src, None))
    h.on('cmd_remove_endpoint', heard('getEndpointInfo', 'removeTarget', src, None))


def leaves(res):
    '''every interface of a federate forgets a federate that left'''
    prog = fx.load(['core/InterfaceInfo.cpp'], [])
    fn = prog.fn(H + 'InterfaceInfo::disconnectFederate')
    P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
    II = H + 'InterfaceInfo::'
    lst = {n: ('f', THIS, II + n) for n in ('publications', 'endpoints', 'inputs')}
    end = ('l', ('g', 'helics::cTerminationTime'))

    def each(x):
        for n, c in lst.items():
            if flow.contains(x.c, c):
                d = [e for e in x.effs if e[0] == 'call']
                x.need(len(d) == 1 and d[0][2] is not None and flow.contains(d[0][2], c), 'an interface keeps its connections with a federate that left')
                if d:
                    a = d[0][3]
                    x.need(a and not ref.wrong(x.st, a[0], P[0]), 'the connections with another federate are dropped')
                    x.need(n != 'inputs' or len(a) == 2 and not ref.wrong(x.st, a[1], P[1]), 'the sources of an input end at another time')

    def ex(x):
        w = [c for c in x.done()]
        for n, c in lst.items():
            if n == 'inputs' and flow.known_lt(x.st, P[1], end) is False:
                continue
            x.need(any(flow.contains(d, c) for d in w) or [f for f in x.st.facts if flow.contains(f, c)], 'the %s keep their connections with a federate that left' % n)
    spec.check(res, 'C21', prog, fn, exit=ex, each=each, rec=['disconnectFederate'])


TEXTS = [(PUB, 'getTargets'), (EPD, 'getDestinationTargets'), (EPS, 'getSourceTargets'), (FLS, 'getSourceEndpoints'), (FLD, 'getDestinationEndpoints'),
         (Conn('InputInfo', 'InputInfo::sourceInformation', 'source_info', 'key', 'sourceTargets'), 'getTargets')]


def listed(res, prog, k, name):
    '''the text with the connections names each of them'''
    fn = prog.fn(k.cls + name)
    size = ('p', '#', ('l', k.lst))
    old = ('p', '#', ('l', k.text))

    def called(rule, eng, st, fr, i, n, obj, args):
        s = n.split('::')[-1]
        if s == 'generateJsonQuotedString':
            return [(st, ('call', s, tuple(eng.ev(st, fr, a) for a in args if a >= 0), 0))]
        if s in ('append', 'push_back', 'operator+=', 'operator=', 'assign', 'pop_back') and cont.STRS.match(fr.fn.nodes[i].get('cls', '') or n):
            a = [q for q in args if q >= 0]
            o = obj if obj is not None and obj >= 0 else a.pop(0)
            vals = tuple(eng.ev(st, fr, q) for q in a)
            l = rule.objloc(eng, st, fr, o)
            rule.eff(eng, st, ('text', l, s, vals))
            if s in ('operator=', 'assign') and len(vals) == 1:
                eng.write(st, l, vals[0])
            else:
                eng.write(st, l, ('call', 'text', (), rule.nth(st)))
            return [(st, ('L', l))]

    def names_of(es):
        return [v for e in es if e[0] == 'text' for v in e[3] for v in flow_calls(v)]

    def flow_calls(v):
        out = []
        if isinstance(v, tuple):
            if v[:2] == ('call', 'generateJsonQuotedString'):
                out.append(v)
            else:
                for w in v:
                    out += flow_calls(w)
        return out

    def each(x):
        if x.c == k.lst:
            q = names_of(x.effs)
            x.need(len(q) == 1 and q[0][2] == (('l', ('f', cont.el(k.lst), k.key)),), 'a connection is not named once in the text')

    def ex(x):
        t = [e for e in effects(x) if e[0] in ('text', 'set') and flow.contains(e[1], k.text)]
        x.need(x.ret is None or x.ret == ('L', k.text) or x.ret == x.val(k.text) or flow.contains(x.ret, k.text), 'another text is given than that with the connections')
        if x.eq(old, ZERO) is False:
            x.need(not t, 'the text changes although the connections do not')
            return
        if x.eq(size, ZERO) is True:
            x.need(not t or x.val(k.text) in EMPTY or x.val(k.text)[0] == 'k' and not x.val(k.text)[2], 'connections are named although there are none')
            return
        if k.lst in x.done():
            return
        x.need(x.eq(size, C(1)) is True, 'not every connection is named')
        first = ('f', ('i', k.lst, ('s', 'front')), k.key)
        x.need(x.val(k.text) in (('l', first), ('l', ('f', ('i', k.lst, ZERO), k.key)), ('l', ('f', cont.el(k.lst, ('s', 'begin')), k.key))), 'the only connection is not named')
    spec.check(res, 'C21', prog, fn, cls=Text, exit=ex, each=each, called=called, sets=lambda l: True)


class Text(spec.Spec):
    def nth(self, st):
        return 0


def run(tier):
    res = harness.Result()
    lists(res)
    routed(res)
    translated(res)
    leaves(res)
    for k, n in TEXTS:
        listed(res, fx.load(['core/%s.cpp' % k.cls.split('::')[1]], []), k, n)
    return res
