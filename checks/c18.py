"""C18: an endpoint hands out its messages in time order and only when they are due"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, THIS
import c14
from c14 import glob

EP, MSG, FS = 'helics::EndpointInfo::', 'helics::Message::', 'helics::FederateState::'
QUEUE, AVAIL = ('f', THIS, EP + 'message_queue'), ('f', THIS, EP + 'mAvailableMessages')
GRANTED = ('l', ('f', THIS, FS + 'time_granted'))


def param(fn, k):
    return ('v', fn.params[k]['d'], (fn.line,))


def mfield(v, n):
    """field of the message a smart pointer with this value points to"""
    return ('l', ('f', ('d', v), MSG + n))


def position(st, v):
    """is the value the number of elements that were passed"""
    return any(t[0] == 'dist' or t[0] == 'idx' and ('idxof',) + t[1:] in st.env for t in allsubs(v) | {v})


def scan(res, pid, prog, fn, c, due, result, dom=None, then=None, what='due'):
    """the elements for which due(q, e) are counted, each once; elements are looked at until the first that is not, or all.
    result(x): where the count goes"""
    pos = [False]

    def look(x):
        pos[0] = pos[0] or position(x.st, result(x))
    spec.check(harness.Result(), pid, prog, fn, exit=look)

    def state(x, e, n, stopped):
        for s, d in ref.cases(x.st, lambda q: due(q, e), dom):
            res.count('cases')
            if stopped:
                x.need(not d and (n == 0 or pos[0]), 'the count ends at an element that is %s' % what)
            elif d:
                x.need(n == 1, 'an element that is %s is not counted exactly once' % what)
            else:
                x.need(n == 0, 'an element that is not %s is counted' % what)

    def count(effs):
        return 1 if pos[0] else len([e for e in effs if e[0] in ('incr', 'count')])

    def each(x):
        if x.c == c:
            state(x, cont.el(c), count(x.effs), False)

    def ex(x):
        if x.st.env.get(('in', c)) == C(1):
            state(x, cont.el(c), count(x.st.rs[1]), True)
        else:
            x.need(c in x.done() or x.eq(('p', '#', ('l', c)), C(0)) is True, 'the elements are not looked at')
        x.need(result(x)[0] != 'op', 'another number than that of the elements is given')
        if then:
            then(x)
    return spec.check(res, pid, prog, fn, exit=ex, each=each)


def member_terms(asks, acts=(), holders=(), watch=None):
    """questions to elements become terms of the element; holders name containers that are reached through an accessor"""
    def called(rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        hit = s in holders or s in asks or s in acts
        if not hit:
            return None
        o = rule.objloc(eng, st, fr, obj) if obj is not None and obj >= 0 else None
        vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
        if s in holders:
            if 'Info' not in name or s not in ('getEndpoints', 'getInputs', 'getPublications'):
                return None
            return [(st, ('addr', ('f', THIS, '#' + s)))]
        r = ('call', s, (('l', o),) + vals, 0)
        if s in acts:
            rule.eff(eng, st, ('act', s, o, vals, r) + ((watch(eng, st, s, vals),) if watch else ()))
        return [(st, r)]
    return called


def acts(x, *n):
    return [e for e in x.all() if e[0] == 'act' and (not n or e[1] in n)]


def owner(c):
    """object an element (smart pointer) of the container points to"""
    return ('d', ('l', cont.el(c)))


def about(v, c):
    """does the value speak of an element of the container"""
    return flow.contains(v, cont.el(c)) or any(isinstance(t, tuple) and len(t) > 2 and t[0] == 'it' and t[1] == c for t in allsubs(v))


def allsubs(t):
    o = set()
    flow.subterms(t, o)
    return o


def smaller(st, loc, val):
    """is a value smaller than the one it replaces"""
    old = st.env.get(loc)
    if old == val:
        return ('s', 'same')
    r = None if old is None else flow.known_lt(st, val, old)
    return C(1) if r is True else C(0) if r is False else ('s', 'open')


def nothigher(st, loc, val):
    """is a value at most the one it replaces"""
    old = st.env.get(loc)
    if old == val:
        return ('s', 'same')
    r = None if old is None else flow.known_lt(st, old, val)
    return C(1) if r is False else C(0) if r is True else ('s', 'open')


def smallest(res, pid, prog, fn, c, ask, dom, called, lower=None, guard=None, pointer=False, exit=None, what='time', cap=600, term=None, unless=None, ties=False, **kw):
    """the smallest answer over the elements (not below `lower` if given; only those meeting guard) is kept"""
    def each(x):
        if x.c != c:
            return
        t0 = term or ('call', ask, (('l', owner(c)),), 0)
        out = x.outer()
        sets = [k for k in x.effs if k[0] == 'set' and k[1][1] in out and k[3] != ('s', 'same')]
        for s, ok in ref.cases(x.st, lambda q: None if guard and not guard(q, t0) else 'low' if lower is not None and q.lt(t0, lower) else 'asis', dom):
            res.count('cases')
            t = lower if ok == 'low' else t0
            best = [k for k in sets if k[2] == t or flow.known_eq(s, k[2], t) is True]
            if ok is None:
                x.need(not best, 'an element that does not take part decides the %s' % what)
                continue
            if ok == 'low':
                x.need(not [k for k in sets if k[2] == t0], 'a %s is taken that lies before what is possible' % what)
            for k in best:
                x.need(k[3] == C(1), 'a %s is taken that is not known to be smaller' % what)
                if pointer:
                    x.need(any(about(j[2], c) for j in sets if j not in best), 'the %s of an element is taken without the element' % what)
            if not best:
                vals = [v for k, v in x.st.env.items() if k[0] == 'v' and k[1] in out and v[0] not in ('it', 'end', 'addr')]
                x.need(any(flow.known_lt(s, t, v) is False for v in vals), 'a smaller %s may be passed over' % what)
                x.need(not pointer or not any(about(j[2], c) for j in sets), 'an element is taken that has no smaller %s' % what)

    def ex(x):
        if c not in x.done() and not (unless and x.truth(unless) is True):
            x.need(x.eq(('p', '#', ('l', c)), C(0)) is True, 'not every element is looked at')
        if exit:
            exit(x)
    return spec.check(res, pid, prog, fn, exit=ex, each=each, called=called, cap=cap, outer=True, rec=[ask] if ask else [], sets=lambda l: l[0] == 'v', atset=nothigher if ties else smaller, **kw)


def filled(res, pid, prog, name, c, update, lst):
    """every element is brought up to the time once, and those that changed are listed"""
    fn = prog.fn(FS + name)
    now = ('l', param(fn, 0))
    l = ('f', THIS, FS + lst)

    loops = set()
    kw = dict(called=member_terms((), {'updateTimeUpTo', 'updateTimeInclusive', 'updateTimeNextIteration'}, {'getEndpoints', 'getInputs'}),
              rec=['updateTimeUpTo', 'updateTimeInclusive', 'updateTimeNextIteration'])

    def seen(x):
        if x.c == c and [k for k in x.effs if k[0] == 'act' and k[1].startswith('updateTime')]:
            loops.add((x.fr.fn.n, x.node))
    spec.check(harness.Result(), pid, prog, fn, each=seen, **kw)
    if not loops:
        res.add('%s|%s|update' % (pid, fn.short), '%s: %s brings no element of %s up to the new time' % (fn.loc(), fn.short, lst))

    def each(x):
        if x.c != c or (x.fr.fn.n, x.node) not in loops:
            return
        u = [k for k in x.effs if k[0] == 'act' and k[1].startswith('updateTime')]
        x.need(len(u) == 1 and u[0][2] == owner(c), 'an element is not brought up to the new time exactly once')
        m = [k for k in x.effs if k[0] == 'mut' and k[1] == l]
        for k in u:
            x.need(k[1] == update, '%s brings elements up to the time by %s' % (name, k[1]))
            x.need(not ref.wrong(x.st, k[3][0], now), 'elements are brought up to another time')
            for s, w in ref.cases(x.st, lambda q: q.is_(k[4])):
                res.count('cases')
                x.need(len(m) == (1 if w else 0), 'an element that changed is not listed exactly once' if w else 'an element is listed that did not change')
        for k in m:
            x.need(k[2] in ('push_back', 'emplace_back') and k[3] and (about(k[3][0], c) and 'handle' in str(k[3][0]) or k[3][0][0] not in ('l', 'c')), 'the wrong thing is listed')

    def ex(x):
        x.need(c in x.done() or x.eq(('p', '#', ('l', c)), C(0)) is True, 'not every element is brought up to the time')
        first = [k for k in x.muts(l)]
        x.need([k for k in first if k[2] == 'clear'] or x.val(l) == ('k', 'empty', ()), 'the list of changes keeps old entries')
    spec.check(res, pid, prog, fn, exit=ex, each=each, **kw)


FILLS = (('fillEventVectorUpTo', 'updateTimeUpTo'), ('fillEventVectorInclusive', 'updateTimeInclusive'), ('fillEventVectorNextIteration', 'updateTimeNextIteration'))
AM = 'helics::ActionMessage::'


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/EndpointInfo.cpp'], [])
    e = cont.el(QUEUE)
    time = mfield(('l', e), 'time')

    # messages that are due are counted
    for name, incl in (('updateTimeUpTo', False), ('updateTimeNextIteration', True), ('updateTimeInclusive', True)):
        fn = prog.fn(EP + name)
        now = ('l', param(fn, 0))

        def due(q, e, now=now, incl=incl):
            t = mfield(('l', e), 'time')
            return not q.lt(now, t) if incl else q.lt(t, now)

        def stored(x):
            v, v0 = x.val(AVAIL), ('l', AVAIL)
            if v == v0:
                same = [k for k, b in x.st.facts.items() if k[0] == 'eq' and b and v0 in k[1:]] or any(k[0] == '=' and k[1] == v0 for k in x.st.facts)
                x.need(same, 'the number of messages due is not stored')
                x.need(x.truth(x.ret) is not True, 'a change of the messages due is reported that did not happen')
            else:
                x.need(v[0] != 'l' and (v[0] != 'c' or v == C(0)), 'another number than that of the messages due is stored')
                x.need(x.truth(x.ret) is not False, 'a change of the messages due is not reported')
        scan(res, 'C18', prog, fn, QUEUE, due, lambda x: x.val(AVAIL), then=stored)
    for name, incl in (('queueSize', True), ('queueSizeUpTo', False)):
        fn = prog.fn(EP + name)
        now = ('l', param(fn, 0))

        def due2(q, e, now=now, incl=incl):
            t = mfield(('l', e), 'time')
            return not q.lt(now, t) if incl else q.lt(t, now)

        def counted(x):
            x.need(x.ret[0] not in ('l',) and (x.ret[0] != 'c' or x.ret == C(0)), 'another number than that of the messages is returned')
        scan(res, 'C18', prog, fn, QUEUE, due2, lambda x: x.ret, then=counted)

    # the first one is handed out
    fn = prog.fn(EP + 'getMessage')
    mx = ('l', param(fn, 0))
    front = ('i', QUEUE, ('s', 'front'))
    n = ('p', '#', ('l', QUEUE))

    def give(q):
        if not q.lt(C(0), ('l', AVAIL)):
            return False
        if q.eq(n, C(0)):
            return False
        return not q.lt(mx, mfield(('l', front), 'time')) or q.eq(mx, mfield(('l', front), 'time'))

    def got(x):
        ms = x.muts(QUEUE)
        for s, g in ref.cases(x.st, give):
            res.count('cases')
            if g:
                r = ref.peel(x.ret)
                x.need(r == ('l', front) or r[0] not in ('c', 'l'), 'a message that is due is not handed out')
                x.need(len(ms) == 1 and (ms[0][2] == 'pop_front' or ms[0][2] == 'erase'), 'the message handed out does not leave the queue')
                x.need(x.eng.read(s, AVAIL) == ('op', '-', ('l', AVAIL), C(1)) or x.eng.read(s, AVAIL)[0] == 'h', 'the message handed out still counts as available')
                x.need(len([k for k in x.all() if k[0] == 'decr']) == 1, 'the message handed out still counts as available')
            else:
                x.need(x.ret == C(0) or x.ret[0] not in ('c', 'l'), 'a message is handed out that is not due')
                x.need(not ms and x.eng.read(s, AVAIL) == ('l', AVAIL), 'the queue changes although no message is handed out')
    spec.check(res, 'C18', prog, fn, exit=got)

    fn = prog.fn(EP + 'firstMessageTime')

    def first(x):
        for s, none in ref.cases(x.st, lambda q: q.eq(n, C(0))):
            res.count('cases')
            if none:
                x.need(not c14.differs(s, x.ret, 'max'), 'an endpoint without messages names a time')
            else:
                x.need(not ref.wrong(s, x.ret, mfield(('l', front), 'time')), 'the time named is not that of the first message')
    spec.check(res, 'C18', prog, fn, exit=first)

    # messages are kept in order
    fn = prog.fn(EP + 'addMessage')
    orders = [0]

    def lex(q, p, r):
        a, b = ('l', p) if p[0] != 'm' else p[1], ('l', r) if r[0] != 'm' else r[1]
        t, u = mfield(a, 'time'), mfield(b, 'time')
        if not q.eq(t, u):
            return q.lt(t, u)
        return q.lt(mfield(a, 'original_source'), mfield(b, 'original_source'))

    def order(x, p, r):
        orders[0] += 1
        if x.c != QUEUE:
            return
        for s, w in ref.cases(x.st, lambda q: lex(q, p, r)):
            res.count('cases')
            x.need(flow.truth(s, x.ret) is not (not w), 'messages are not ordered by time and then by the name of their source')

    def added(x):
        m = x.muts(QUEUE)
        ins = [k for k in m if k[2] in ('push_back', 'emplace_back', 'insert', 'emplace')]
        x.need(len(ins) == 1, 'a message is not put into the queue exactly once')
        x.need(not [k for k in m if k not in ins], 'other messages leave the queue')
        srt = [k for k in x.all() if k[0] == 'sort' and k[1] == QUEUE]
        for k in ins:
            if k[2] in ('push_back', 'emplace_back'):
                x.need(srt or x.lt(C(1), ('p', '#', x.val(QUEUE))) is False, 'a message is put at the end whatever its time')
            elif k[3] and k[3][0][0] == 'it' and len(k[3][0]) == 3 and k[3][0][2][0] == 'lb':
                x.fail('a message is put before those that came earlier at the same time')
        x.need(not srt or all(k[2] == 'stable_sort' for k in srt), 'messages of the same time and source may change their order')
        x.need(not srt or all(k[3] for k in srt), 'messages are ordered by their addresses')
    r = spec.check(res, 'C18', prog, fn, exit=added, order=order)
    if not orders[0] and not r.bad:
        raise fx.Broken('anchor vanished: order of the message queue')

    fn = prog.fn(EP + 'clearQueue')

    def cleared(x):
        x.need([k for k in x.muts(QUEUE) if k[2] == 'clear' or k[2] == 'erase'] or not x.val(QUEUE)[0] == 'l', 'the messages stay in the queue')
        x.need(x.val(AVAIL) == C(0), 'messages that are gone count as available')
    spec.check(res, 'C18', prog, fn, exit=cleared)
    fn = prog.fn(EP + 'availableMessages')
    spec.check(res, 'C18', prog, fn, exit=lambda x: x.need(not ref.wrong(x.st, x.ret, ('l', AVAIL)), 'another number than that of the available messages is named'))

    # the federate
    prog = fx.load(['core/FederateState.cpp'], [])
    EPS = ('f', THIS, '#getEndpoints')
    HOLD = {'getEndpoints', 'getInputs'}
    fn = prog.fn(FS + 'nextMessageTime')
    smallest(res, 'C18', prog, fn, EPS, 'firstMessageTime', None, member_terms({'firstMessageTime'}, (), HOLD), lower=GRANTED)

    fn = prog.fn(FS + 'receiveAny')
    hid = param(fn, 0)

    def anyof(x):
        g = acts(x, 'getMessage')
        x.need(len(g) < 2, 'two messages are taken')
        for k in g:
            x.need(not ref.wrong(x.st, k[3][0], GRANTED), 'messages are taken up to another time than the granted one')
        if g:
            x.need(x.ret == g[0][4] or x.ret[0] not in ('c', 'l') or x.ret == C(0) and x.eq(g[0][4], C(0)) is True, 'the message taken is not handed out')
            h = x.val(hid)
            for s, some in ref.cases(x.st, lambda q: q.ne(g[0][4], C(0))):
                if some:
                    x.need(h != ('l', hid) and (h[0] != 'k' or h[2]) and h[0] != 'c', 'the endpoint of the message is not named')
        else:
            x.need(x.ret == C(0) or x.ret[0] not in ('c', 'l'), 'a message is made up')
    smallest(res, 'C18', prog, fn, EPS, 'firstMessageTime', None, member_terms({'firstMessageTime'}, {'getMessage'}, HOLD), pointer=True, exit=anyof)

    for fn in prog.fns(FS + 'receive'):
        def one(x):
            g = acts(x, 'getMessage')
            q = [k for k in acts(x, 'getEndpoint')]
            x.need(len(q) == 1 and q[0][3] and not ref.wrong(x.st, q[0][3][0], ('l', param(fn, 0))), 'another endpoint than the one named is looked at')
            for k in g:
                x.need(not ref.wrong(x.st, k[3][0], GRANTED), 'messages are taken up to another time than the granted one')
                x.need(ref.peel(x.ret) == k[4] or x.ret[0] not in ('c', 'l'), 'the message taken is not handed out')
            for s, w in ref.cases(x.st, lambda z: bool(q) and z.ne(q[0][4], C(0))):
                x.need(bool(g) == w, 'the messages of an endpoint are not looked at')
        spec.check(res, 'C18', prog, fn, exit=one, called=member_terms((), {'getMessage', 'getEndpoint'}))

    for fn in prog.fns(FS + 'getQueueSize'):
        if fn.params:
            def size(x):
                q = acts(x, 'getEndpoint')
                a = acts(x, 'availableMessages')
                for s, w in ref.cases(x.st, lambda z: bool(q) and z.ne(q[0][4], C(0))):
                    x.need(not a or not ref.wrong(s, x.ret, a[0][4]), 'another number than that of the available messages is named')
                    x.need(w or x.ret == C(0), 'an endpoint that does not exist has messages')
                    x.need(not w or a, 'the messages of an endpoint are not counted')
            spec.check(res, 'C18', prog, fn, exit=size, called=member_terms((), {'availableMessages', 'getEndpoint'}))
        else:
            def tot(x):
                if x.c == EPS:
                    t = ('call', 'availableMessages', (('l', owner(EPS)),), 0)
                    x.need(any(flow.contains(k[2], t) for k in x.effs if k[0] == 'add' or k[0] == 'set' and k[2][0] == 'op' and k[2][1] == '+'), 'the messages of an endpoint do not add to the total')
            spec.check(res, 'C18', prog, fn, each=tot, exit=lambda x: x.need(EPS in x.done(), 'not every endpoint is counted'),
                       called=member_terms({'availableMessages'}, (), HOLD), sets=lambda l: l[0] == 'v')
    for name, update in FILLS:
        filled(res, 'C18', prog, name, EPS, update, 'eventMessages')

    # messages that arrive
    E = names.enum_values(prog, 'helics::action_message_def::action_t')
    fn = prog.fn(FS + 'processDataMessage')
    cmd = param(fn, 0)
    act, at, dest = (('l', ('f', cmd, AM + z)) for z in ('messageAction', 'actionTime', 'dest_handle'))
    low = ('l', ('f', THIS, FS + 'minimumReceiveTime'))

    def watch(eng, st, s, vals):
        v = vals[0] if vals else ('c', 0)
        return (eng.read(st, ('f', cmd, AM + 'actionTime')), eng.read(st, ('f', ('d', v), MSG + 'time')) if s == 'addMessage' else ('c', 0))

    def arrives(q, ep):
        if not q.eq(act, C(E['cmd_send_message'])):
            return None
        if not ep or q.eq(ep[0][4], C(0)):
            return False
        return not q.is_(('l', ('f', ('d', ep[0][4]), EP + 'sourceOnly')))

    def arrived(x):
        ep = [k for k in acts(x, 'getEndpoint')]
        add, upd = acts(x, 'addMessage'), acts(x, 'updateMessageTime')
        for s, w in ref.cases(x.st, lambda q: arrives(q, ep)):
            res.count('cases')
            if w is None:
                continue
            x.need(len(ep) == 1 and not ref.wrong(s, ep[0][3][0], dest), 'a message looks for another endpoint than its destination')
            x.need(len(add) == (1 if w else 0), 'a message is not put into the queue of its endpoint exactly once' if w else 'a message is put into a queue that takes none')
            x.need(len(upd) == (1 if w else 0), 'the federate does not learn of the time of a message' if w else 'the federate learns of a message that it does not get')
            for k in add + upd:
                for s2, t in ref.cases(s, lambda q: low if q.lt(at, low) else at):
                    got = k[3][0] if k[1] == 'updateMessageTime' else k[5][0]
                    x.need(not ref.wrong(s2, got, t), 'a message arrives at another time than its own or the smallest allowed one')
            for k in add:
                x.need(k[2] == ('d', ep[0][4]), 'a message is put into the queue of another endpoint')
    A = {'getEndpoint', 'getInput', 'updateMessageTime', 'addMessage', 'addData', 'processTimeMessage', 'updateValueTime', 'processQueryActual', 'logMessage',
         'createMessageFromCommand', 'getSourceName'}
    spec.check(res, 'C18', prog, fn, exit=arrived, called=member_terms((), A, HOLD, watch), rec=sorted(A), cap=2000)
    return res
