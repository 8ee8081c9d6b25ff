"""C25: initialization is asked for and granted only when everybody who was waited for has asked"""
import fx, harness, names, spec, flow, ref, cont, quant
from flow import C, ZERO, THIS
from c18 import smallest
from c22 import contents
from c23 import AM

H = 'helics::'
CB, CC, BB = H + 'CoreBroker::', H + 'CommonCore::', H + 'BrokerBase::'
BI, FI = H + 'BasicBrokerInfo::', H + 'BasicFedInfo::'
VEC = ('gmlc::containers::DualStringMappedVector',)
own = lambda c, n: ('l', ('f', THIS, c + n))
size = lambda l: ('p', '#', ('l', l))
Q = lambda n, *a: ('call', n, tuple(a), 0)


class Count(spec.Spec):
    """counters of elements keep a name after the loop that counts"""

    def __init__(self, fn, known=None, asks=(), **kw):
        super().__init__(fn, containers=VEC, cap=3000, **kw)
        self.eh = False
        self.asks, self.known = asks, known if known is not None else {}

    def counters(self, fn):
        return ()

    def on_incr(self, eng, st, fr, i, loc, val):
        c = [e[1] for e in st.rs[1] if e[0] == '[']
        if c and loc[0] == 'v':
            self.known.setdefault(c[-1], set()).add(loc)
        self.eff(eng, st, ('incr', loc))
        return None

    def counted(self, eng, st, fr, i, c):
        self.known.setdefault(c, set()).add(('n', fr.id, i))
        self.eff(eng, st, ('incr', ('n', fr.id, i)))

    def count_value(self, eng, st, fr, i, c):
        return Q('count', ('n', fr.id, i))

    def it_done(self, eng, st, fr, i, c):
        super().it_done(eng, st, fr, i, c)
        for l in self.known.get(c, ()):
            if l in st.env:
                st.env[l] = Q('count', l)
                st._k = None

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        if s in self.asks:
            return [(st, Q(s, *[eng.ev(st, fr, a) for a in args if a >= 0]))]
        if s == 'find' and obj is not None and obj >= 0 and fr.fn.nodes[i].get('cls', '') in VEC:
            # found, or as one would ask for the end
            c = self.objloc(eng, st, fr, obj)
            out = []
            for s2, t in self.split(st, Q('held', c, eng.ev(st, fr, args[0]))):
                out.append((s2, ('it', c, ('s', 'found')) if t else ('end', c)))
            return out
        return super().called(eng, st, fr, i, name, obj, args)


class Ready:
    """everybody who is waited for is there and has asked"""

    def __init__(self, res, prog, name, asks, roles, want, items):
        """roles: container -> {name: (condition of an element, condition under which it matters)}; items: container -> what a
        good element is; want(q, count, passed) the answer"""
        self.res, self.prog, self.fn = res, prog, prog.fn(name)
        self.asks, self.roles, self.want, self.items = asks, roles, want, items
        self.known = {}

    def run(self):
        kw = dict(known=self.known, asks=self.asks)
        cls = lambda fn, **k: Count(fn, **kw, **k)
        self.alive = {}
        spec.check(harness.Result(), 'C25', self.prog, self.fn, cls=cls)
        spec.check(self.res, 'C25', self.prog, self.fn, cls=cls, each=self.each, exit=self.ex)
        # what is counted is known now
        spec.check(self.res, 'C25', self.prog, self.fn, cls=cls, exit=self.verdict)

    def each(self, x):
        for l in self.known.get(x.c, ()):
            if l[0] == 'v' and l not in x.st.env:
                continue
            n = len([e for e in x.effs if e == ('incr', l)])
            live = self.alive.setdefault((x.c, l), set(self.roles.get(x.c, ())))
            for r in list(live):
                p, matters = self.roles[x.c][r]
                for s, v in ref.cases(x.st, lambda q: p(q, cont.el(x.c)) if matters is None or matters(q) else None):
                    if v is not None and n != (1 if v else 0):
                        live.discard(r)
        good = self.items.get(x.c)
        if good and not x.effs:
            counts = any(l in x.st.env for l in self.known.get(x.c, ()))
            for s, v in ref.cases(x.st, lambda q: good(q, cont.el(x.c))):
                self.res.count('cases')
                x.need(v or counts, 'what is waited for is passed over')

    def ex(self, x):
        pass

    def verdict(self, x):
        r = x.truth(x.ret)
        x.need(r is not None, 'the answer is neither yes nor no')
        inside = {c for c in self.items if x.st.env.get(('in', c)) == C(1) and c not in x.done()}
        over = {c for c in self.items if c in x.done() or flow.known_eq(x.st, size(c), ZERO) is True}
        role = {}
        for (c, l), rs in self.alive.items():
            for k in rs:
                role.setdefault(k, []).append(Q('count', l))

        def count(q, k, bound):
            """is the number of these elements below the bound"""
            known = [t for t in role.get(k, ()) if any(flow.contains(f, t) for f in q.st.facts)]
            return q.lt((known or role.get(k) or [Q('never', ('s', k))])[0], bound)

        def passed(q, c):
            if c in inside:
                return self.items[c](q, cont.el(c))
            return c in over or 'open'

        for s, w in ref.cases(x.st, lambda q: self.want(q, count, passed)):
            self.res.count('cases')
            if w == 'open':
                w = not r           # a look that is missing is missing for a yes only, a no needs a reason
                x.need(False, 'the answer is given without a look at all that is waited for')
            elif r:
                x.need(w, 'everything is called ready although something is still waited for')
            else:
                x.need(not w, 'nothing is waited for, and yet it is not ready')


def ready(res, prog, cprog):
    cs = names.enum_values(prog, H + 'ConnectionState')
    feds, brks, req = (('f', THIS, CB + 'mFederates'), ('f', THIS, CB + 'mBrokers'), ('f', THIS, BB + 'requiredFederates'))
    me = own(BB, 'global_broker_id_local')
    n = lambda k: own(BB, k)
    f = lambda e, k: ('l', ('f', e, k))

    child = lambda q, e: q.eq(f(e, BI + 'parent'), me)
    holder = lambda e: ('d', Q('getBrokerById', f(e, FI + 'parent')))
    here = lambda q, e: not q.is_(f(e, FI + 'nonCounting')) and q.is_(Q('getBrokerById', f(e, FI + 'parent'))) and q.eq(f(holder(e), BI + 'parent'), me) and q.is_(f(holder(e), BI + '_core'))
    pos = lambda k: lambda q: q.lt(ZERO, n(k))
    roles = {brks: {'minChildCount': (child, pos('minChildCount')), 'minLocalBrokerCount': (lambda q, e: child(q, e) and not q.is_(f(e, BI + '_core')), pos('minLocalBrokerCount'))},
             feds: {'minLocalFederateCount': (here, pos('minLocalFederateCount'))}}
    held = lambda c: lambda q, e: q.eq(size(e), ZERO) or q.is_(Q('held', c, ('l', e)))

    def want(q, count, passed):
        if q.lt(size(feds), n('minFederateCount')) or q.lt(size(brks), n('minBrokerCount')):
            return False
        for k in ('minChildCount', 'minLocalBrokerCount', 'minLocalFederateCount'):
            if q.lt(ZERO, n(k)) and count(q, k, n(k)):
                return False
        if q.lt(Q('getAllConnectionState'), C(cs['INIT_REQUESTED'])) or q.lt(Q('getCountableFederates'), n('minFederateCount')):
            return False
        return passed(q, req)
    Ready(res, prog, CB + 'allInitReady', ('getAllConnectionState', 'getCountableFederates', 'getBrokerById'), roles, want, {req: held(feds)}).run()

    lf = ('f', THIS, CC + 'loopFederates')

    def cwant(q, count, passed):
        if q.lt(ZERO, own(CC, 'delayInitCounter')):
            return False
        if q.lt(size(lf), n('minFederateCount')) or q.lt(size(lf), n('minChildCount')):
            return False
        a = passed(q, req)
        return a and passed(q, lf) if a != 'open' else a
    asked = lambda q, e: q.is_(f(('d', ('l', e)), H + 'FederateState::init_transmitted'))
    Ready(res, cprog, CC + 'allInitReady', (), {}, cwant, {req: held(lf), lf: asked}).run()


def states(res, prog):
    """the state of all is the lowest of those directly below; federates that do not count are not counted"""
    feds, brks = ('f', THIS, CB + 'mFederates'), ('f', THIS, CB + 'mBrokers')
    cs = names.enum_values(prog, H + 'ConnectionState')
    f = lambda e, k: ('l', ('f', e, k))
    quant.decide(res, 'C25', prog, prog.fn(CB + 'getCountableFederates'), feds, lambda q, e: not q.is_(f(e, FI + 'nonCounting')), 'count', None, 'the federate counts', containers=VEC)
    e = cont.el(brks)
    below = lambda q, t=None: not q.is_(f(e, BI + '_nonLocal'))
    fn = prog.fn(CB + 'getAllConnectionState')
    mark = ('v', 'somebody is below', ())

    class Fold(spec.Spec):
        def counters(self, fn):
            return ()

        def it_next(self, eng, st, fr, i, c):
            if c == brks and flow.truth(st, f(e, BI + '_nonLocal')) is False:
                st.env[mark] = C(1)
                st._k = None
            super().it_next(eng, st, fr, i, c)

        def on_incr(self, eng, st, fr, i, loc, val):
            # what is counted up from nothing is not nothing
            if val == ZERO or val == Q('some', loc):
                flow.assume(st, flow.rel_term('<', ZERO, Q('some', loc)), True)
                st._k = None
                return Q('some', loc)
            return super().on_incr(eng, st, fr, i, loc, val)

    def ex(x):
        some = mark in x.st.env
        if some:
            x.need(x.ret[0] != 'c' or x.ret == C(cs['DISCONNECTED']), 'the state of those below is replaced by another')
        else:
            x.need(x.ret == C(cs['CONNECTED']), 'without anybody below the state is not that of a connection')
    smallest(res, 'C25', prog, fn, brks, None, None, None, guard=below, what='state', term=f(e, BI + 'state'), containers=VEC, exit=ex, cls=Fold, ties=True)


def raised(v):
    """the flags that are set for certain, and what the rest is"""
    if v[0] == 'op' and v[1] == '|':
        a, b = raised(v[2]), raised(v[3])
        return a[0] | b[0], a[1] if a[1] != ZERO else b[1]
    return (v[1], ZERO) if v[0] == 'c' else (0, v)


def built(v):
    """what a field of a message made from action, source and destination is"""
    if v[0] == 'op':
        return v[:2] + tuple(built(a) for a in v[2:])
    if v[0] == 'fld' and v[1][0] == 'k' and v[1][1] == H + 'ActionMessage':
        k = {'messageAction': 0, 'source_id': 1, 'dest_id': 2}.get(v[2].split('::')[-1])
        if k is None:
            return ZERO
        return v[1][2][k] if k < len(v[1][2]) else v
    return v


class Command(spec.Spec):
    """what is sent and done about one message"""
    cap = 400
    keyed = ('transitionBrokerState',)
    owned = ('getState',)

    def __init__(self, fn, asks=(), does=(), quiet=(), watch=None, at=None, **kw):
        super().__init__(fn, containers=VEC, **kw)
        self.eh = False
        self.asks, self.does, self.quiet, self.watch, self.at = asks, does, quiet, watch, at

    def value(self, eng, st, fr, a):
        if 'ActionMessage' in fr.fn.nodes[a].get('t', ''):
            l = eng.lv(st, fr, a)
            d = dict(contents(eng, st, l))
            return ('msg',) + tuple(built(d[k]) for k in ('messageAction', 'source_id', 'dest_id', 'flags')) + (l, built(d['messageID']))
        v = eng.ev(st, fr, a)
        while v[0] == 'k' and len(v[2]) == 1:
            v = v[2][0]
        return v

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s == 'setAction' and args:
            eng.write(st, ('f', self.objloc(eng, st, fr, obj), AM + 'messageAction'), eng.ev(st, fr, args[0]))
            return [(st, ZERO)]
        if s in self.asks:
            v = [self.value(eng, st, fr, a) for a in args]
            self.eff(eng, st, ('ask', s) + tuple(v) + (tuple(eng.read(st, w) for w in self.watch) if self.watch else (),))
            if s in self.owned:
                return [(st, Q(s, ('l', self.objloc(eng, st, fr, obj))))]
            return [(st, Q(s, *v) if s in self.keyed else Q(s))]
        if s in self.does:
            o = self.objloc(eng, st, fr, obj) if obj is not None and obj >= 0 else THIS
            e = ('does', s, o) + tuple(self.value(eng, st, fr, a) for a in args)
            self.eff(eng, st, e if e not in st.rs[0] else ('twice',) + e[1:])
            if self.watch and s == self.at:
                self.eff(eng, st, ('at', s) + tuple(eng.read(st, w) for w in self.watch))
            return [(st, Q(s))]
        if s in self.quiet or name.startswith('fmt::'):
            return [(st, Q(s))]
        if s == 'apply' and len(args) == 1 and obj is not None and obj >= 0:
            return self.searched(eng, st, fr, i, 'for_each', self.objloc(eng, st, fr, obj), eng.ev(st, fr, args[0]))
        return super().called(eng, st, fr, i, name, obj, args)


def does(x, n, effs=None):
    return [e[3:] for e in (x.all() if effs is None else effs) if e[0] in ('does', 'twice') and e[1] == n for k in range(2 if e[0] == 'twice' else 1)]


class Handles:
    QUIET = ('logMessage', 'logFlush', 'checkDependencies', 'sendToLogger', 'getIdentifier', 'generateFederationSummary', 'prettyPrintString', 'setErrorState', 'errorRespondDelayedMessages', 'transmitDelayedMessages', 'setSourceId', 'setParentId',
             'disableParentPing', 'reset', 'getSpecialFederateId', 'errorMessageString', 'name')

    def __init__(self, res, prog, name):
        self.res, self.prog, self.fn = res, prog, prog.fn(name)
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.B = {k: C(v) for k, v in names.enum_values(prog, BB + 'BrokerState').items()}
        self.F = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag')}
        self.me = own(BB, 'global_broker_id_local')
        if self.fn.params and 'ActionMessage' in self.fn.params[0]['t']:
            self.cmd = ('v', self.fn.params[0]['d'], (self.fn.line,))
            self.m = lambda n: ('l', ('f', self.cmd, AM + n))

    def bit(self, q, n):
        return q.bit(self.m('flags'), self.F[n])

    def known(self, s, msg, n):
        b = flow.truth(s, flow.rel_term('!=', ('op', '&', self.m('flags'), C(1 << self.F[n])), ZERO))
        if msg is None:
            return b
        k, rest = raised(msg[4])
        if k >> self.F[n] & 1:
            return True
        return b if rest == self.m('flags') else False

    def check(self, env=None, cls=Command, **kw):
        spec.check(self.res, 'C25', self.prog, self.fn, cls=cls, quiet=self.QUIET, env=env, **kw)


def connection(prog):
    return {k: C(v) for k, v in names.enum_values(prog, H + 'ConnectionState').items()}


class BrokerAsked(Handles):
    """the broker counts who asked, and passes on or grants when all did"""

    def __init__(self, res, prog):
        super().__init__(res, prog, CB + 'processInitCommand')
        self.CS = connection(prog)
        self.brk = Q('getBrokerById')
        self.b = lambda n: ('f', ('d', self.brk), BI + n)

    def ex(self, x):
        A, need = self.A, x.need
        sent = does(x, 'transmit')
        execs, routed, cast = does(x, 'executeInitializationOperations'), does(x, 'routeMessage'), does(x, 'broadcast')
        state, iters = x.val(self.b('state')), x.val(self.b('initIterating'))
        mine = x.val(('f', THIS, CB + 'initIterating'))
        act = self.m('messageAction')

        def want(q):
            w = dict(sent=None, exec=None, cast=False, route=False, state=('l', self.b('state')), iters=('l', self.b('initIterating')), mine=own(CB, 'initIterating'), ready=False)
            known = q.is_(self.brk)
            root = q.is_(own(CB, 'isRootc'))
            if q.eq(act, C(A['cmd_init'])):
                if not known:
                    return w
                if q.eq(('l', self.b('state')), self.CS['CONNECTED']):
                    w['state'] = self.CS['INIT_REQUESTED']
                late = (q.is_(own(BB, 'dynamicFederation')) or q.is_(('l', self.b('_observer')))) and not q.lt(Q('getBrokerState'), self.B['OPERATING'])
                if late:
                    return dict(w, sent='grant' if root else 'late')
                if self.bit(q, 'iteration_requested_flag'):
                    w['iters'] = w['mine'] = C(1)
                w['ready'] = True
                if not q.is_(Q('allInitReady')):
                    return w
                if root:
                    return dict(w, exec=w['mine'] == C(1) or q.is_(own(CB, 'initIterating')))
                return dict(w, sent='up', flag=w['mine'] == C(1) or q.is_(own(CB, 'initIterating')))
            if q.eq(act, C(A['cmd_init_not_ready'])):
                if q.is_(Q('allInitReady')):
                    if root:
                        return dict(w, sent=None)
                    w['sent'] = 'not'
                return dict(w, state=self.CS['CONNECTED'], iters=ZERO) if known else w
            if q.eq(act, C(A['cmd_init_grant'])):
                if self.bit(q, 'observer_flag') or self.bit(q, 'dynamic_join_flag'):
                    return dict(w, route=True)
                if self.bit(q, 'iteration_requested_flag'):
                    return dict(w, exec=True)
                return dict(w, cast=True)
            return dict(w, any=True)
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            if w.get('any'):
                need(not sent and not execs and not routed and not cast, 'another message has to do with the initialization')
                continue
            same = lambda p, t: p == t or not ref.wrong(s, p, t)
            need(same(state, w['state']), 'who asked, or is no longer ready, is not remembered as that')
            need(same(iters, w['iters']) and (same(mine, w['mine']) or execs), 'the wish to iterate is not remembered as it was made')
            need(len(execs) == (w['exec'] is not None), 'the initialization is granted although not everybody asked' if execs else 'the initialization is not granted although everybody asked')
            for v, in execs:
                need(flow.truth(s, v) is w['exec'], 'the grant iterates when nobody asked for it, or the other way round')
            if w['cast']:
                need([c[0][5] for c in cast] == [self.cmd] and does(x, 'setBrokerState') == [(self.B['OPERATING'],)], 'a grant does not reach everybody below')
            else:
                need(not cast and not does(x, 'setBrokerState'), 'something is told to everybody without need')
            need(len(routed) == w['route'] and all(r[0][5] == self.cmd for r in routed), 'a grant for one that joins late is not passed to it')
            need(len(sent) == (w['sent'] is not None), 'a message about the initialization is sent %s' % ('without need' if sent else 'too seldom'))
            for to, msg in (sent if w['sent'] else ()):
                F = lambda n, k=s: self.known(k, msg, n)
                if w['sent'] == 'grant':
                    need(to == ('l', self.b('route')) and msg[1] == C(A['cmd_init_grant']) and not ref.wrong(s, msg[3], self.m('source_id')), 'one that joins late does not get its grant')
                    need(F('iteration_requested_flag') == self.known(s, None, 'iteration_requested_flag'), 'one that joins late is granted an iteration it did not ask for, or the other way round')
                    obs = flow.truth(s, ('l', self.b('_observer')))
                    need(F('observer_flag') is (obs is True) and F('dynamic_join_flag') is (obs is False), 'one that joins late is granted as something else')
                    continue
                need('parent_route_id' in str(to), 'the request is not sent to the parent')
                need(not ref.wrong(s, msg[1], act), 'the request is passed on as something else')
                if w['sent'] == 'late':
                    need(not ref.wrong(s, msg[2], self.m('source_id')), 'the request of one that joins late is passed on under another name')
                else:
                    need(not ref.wrong(s, msg[2], self.me), 'the broker speaks to its parent under another name')
                if w['sent'] == 'up':
                    need(F('iteration_requested_flag') is w['flag'], 'the wish to iterate is not passed on as it was made')
            for e in x.all():
                if e[0] == 'ask' and e[1] == 'getBrokerById':
                    need(str(self.m('source_id')[1]) in str(e[2]), 'another than the sender is taken for the one who asked')
                if e[0] == 'ask' and e[1] == 'allInitReady' and w['ready']:
                    need(not ref.wrong(s, e[-1][0], w['state']), 'it is asked whether all are ready before the request was counted')

    def run(self):
        self.check(asks=('getBrokerById', 'allInitReady', 'getBrokerState', 'checkExecEntry'), does=('transmit', 'executeInitializationOperations', 'routeMessage', 'broadcast', 'setBrokerState', 'enteringExecMode'),
                   watch=[self.b('state')], exit=self.ex)


class CoreAsked(Handles):
    """the core counts which federates asked, speaks up once when all did, and hands every grant to those it is for"""
    STEP = 'transitionBrokerState'

    def __init__(self, res, prog):
        super().__init__(res, prog, CC + 'processInitRequest')
        self.fed = Q('getFederateCore')
        self.lf = ('f', THIS, CC + 'loopFederates')
        self.me_ = ('f', ('d', self.fed), H + 'FederateState::init_transmitted')
        e = ('d', ('l', cont.el(self.lf)))
        self.e = lambda n: ('f', e, H + 'FederateState::' + n)
        self.el = e
        B = self.B
        self.go, self.again, self.start = Q(self.STEP, B['CONNECTED'], B['INITIALIZING']), Q(self.STEP, B['INITIALIZING'], B['CONNECTED']), Q(self.STEP, B['INITIALIZING'], B['OPERATING'])

    def joins(self, q):
        return self.bit(q, 'observer_flag') or self.bit(q, 'dynamic_join_flag')

    def phase(self, q):
        """what a grant does to the federates of this core"""
        if not q.eq(self.m('messageAction'), C(self.A['cmd_init_grant'])):
            return None
        if self.bit(q, 'iteration_requested_flag'):
            if not q.is_(own(CC, 'initIterations')):
                return None
            return 'again' if q.is_(self.again) else 'route' if self.joins(q) else None
        return 'start' if q.is_(self.start) else 'join' if self.joins(q) else None

    def each(self, x):
        if x.c != self.lf:
            return

        def want(q):
            p = self.phase(q)
            if p == 'again':
                return 'again' if q.is_(('l', self.e('initIterating'))) else None
            if p == 'join':
                return 'start' if q.eq(Q('getState', ('l', self.el)), self.created) else None
            return p if p == 'start' else None
        got = does(x, 'addAction', x.effs)
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            x.need(len(got) == (w is not None), 'a federate of the core %s' % ('hears of a grant that is not for it' if got else 'does not hear of its grant'))
            x.need(all(g[0][5] == self.cmd for g in got) and all(e[2] == self.el for e in x.effs if e[0] == 'does'), 'a federate hears of another grant')
            fl, tr = x.val(self.e('initIterating')), x.val(self.e('init_transmitted'))
            if w == 'again':
                x.need(fl == ZERO and tr == ZERO, 'who iterates is not waited for again')
                for e in x.effs:
                    if e[0] == 'at':
                        x.need(e[2] == ZERO, 'the wish of a federate that may already have asked again is thrown away')
            else:
                x.need(fl == ('l', self.e('initIterating')) and tr == ('l', self.e('init_transmitted')), 'it is forgotten that a federate asked')

    def ex(self, x):
        A, need = self.A, x.need
        sent, routed = does(x, 'transmit'), does(x, 'routeMessage')
        asks = {e[1:-1] for e in x.all() if e[0] == 'ask'}
        iters = x.val(('f', THIS, CC + 'initIterations'))

        def want(q):
            w = dict(sent=None, mark=False, iters=own(CC, 'initIterations'), phase=None, ready=True)
            if q.eq(self.m('messageAction'), C(A['cmd_init'])):
                if not q.is_(self.fed):
                    return w
                w['mark'] = True
                if not q.is_(Q('allInitReady')):
                    return dict(w, ready=False)
                if q.is_(self.go):
                    return dict(w, sent='up', flag=q.is_(own(CC, 'initIterations')))
                if q.is_(own(BB, 'dynamicFederation')):
                    return dict(w, sent='late')
                return dict(w, sent='maybe')
            w['phase'] = self.phase(q)
            if q.eq(self.m('messageAction'), C(A['cmd_init_grant'])) and self.bit(q, 'iteration_requested_flag'):
                w['iters'] = ZERO
            return w
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            p = w['phase']
            if w['mark']:
                need(x.val(self.me_) == C(1), 'it is not remembered that a federate asked')
                for e in x.all():
                    if e[0] == 'ask' and e[1] == 'allInitReady':
                        need(e[-1][0] == C(1), 'it is asked whether all are ready before the request was counted')
                    if e[0] == 'ask' and e[1] == 'getFederateCore':
                        need(str(self.m('source_id')[1]) in str(e[2]), 'another than the sender is taken for the one who asked')
            need(w['ready'] or (self.STEP, self.B['CONNECTED'], self.B['INITIALIZING']) not in asks, 'the core stops waiting although something is still waited for')
            need(ref.peel(iters) == w['iters'] or flow.known_eq(s, iters, w['iters']), 'the wish to iterate outlives its grant, or is lost before it')
            if w['sent'] == 'maybe':
                need(len(sent) <= 1 and (not sent or any('observer' in str(f) for f in s.facts)), 'the core asks for initialization a second time')
            else:
                need(len(sent) == (w['sent'] is not None), 'the core %s' % ('asks for initialization without need' if sent else 'does not ask for initialization although all are ready'))
            for to, msg in sent:
                need('parent_route_id' in str(to) and not ref.wrong(s, msg[1], C(A['cmd_init'])), 'the request is not sent to the parent, or as something else')
                need(msg[2] == self.me, 'the core speaks to its parent under another name')
                if w['sent'] == 'up' and w['flag']:
                    need(self.known(s, msg, 'iteration_requested_flag') is True, 'the wish to iterate is not passed on')
                else:
                    need(not raised(msg[4])[0] >> self.F['iteration_requested_flag'] & 1, 'an iteration is asked for that nobody wished')
            need(len(routed) == (p == 'route') and all(r[0][5] == self.cmd for r in routed), 'a grant for one that joins late is not passed to it')
            need(p not in ('again', 'start', 'join') or self.lf in x.done() or flow.known_eq(s, size(self.lf), ZERO) is True, 'not every federate of the core is asked whether the grant is for it')
            need(len(does(x, 'enteringExecMode')) == (p == 'start'), 'the time coordination of the core does not start with the grant')
            for f, cond in (('filterFed', lambda q: q.is_(own(CC, 'filterTiming')) or q.is_(own(BB, 'globalTime'))), ('translatorFed', lambda q: True)):
                h = [e for e in x.all() if e[0] in ('does', 'twice') and e[1] == 'handleMessage' and f in str(e[2])]
                for s2, must in ref.cases(s, lambda q: p == 'start' and q.is_(own(CC, f)) and cond(q)):
                    need(len(h) == (1 if must else 0) and all(e[0] == 'does' and e[3][5] == self.cmd for e in h), 'the %s of the core does not hear of the grant' % ('filters' if f == 'filterFed' else 'translators'))

    def run(self):
        self.created = C(names.enum_values(self.prog, H + 'FederateStates')['CREATED'])
        self.check(asks=('getFederateCore', 'allInitReady', 'transitionBrokerState', 'checkExecEntry', 'hasActiveTimeDependencies', 'getState'),
                   does=('transmit', 'routeMessage', 'addAction', 'handleMessage', 'organizeFilterOperations', 'enteringExecMode', 'disconnect'),
                   watch=[self.me_, self.e('initIterating')], exit=self.ex)
        self.check(asks=('getFederateCore', 'allInitReady', 'transitionBrokerState', 'checkExecEntry', 'hasActiveTimeDependencies', 'getState'),
                   does=('transmit', 'routeMessage', 'addAction', 'handleMessage', 'organizeFilterOperations', 'enteringExecMode', 'disconnect'),
                   watch=[self.e('initIterating')], at='addAction', each=self.each, exit=lambda x: None)


class Again(Handles):
    """a grant to iterate goes to those who wished it, and only those are waited for again"""

    def __init__(self, res, prog):
        super().__init__(res, prog, CB + 'executeInitializationOperations')
        self.CS = connection(prog)
        self.brks = ('f', THIS, CB + 'mBrokers')
        self.e = lambda n: ('f', cont.el(self.brks), BI + n)

    def each(self, x):
        if x.c != self.brks:
            return
        sent = does(x, 'transmit', x.effs)
        state, iters = x.val(self.e('state')), x.val(self.e('initIterating'))

        def want(q):
            return not q.is_(('l', self.e('_nonLocal'))) and q.lt(('l', self.e('state')), self.CS['DISCONNECTED']) and q.is_(('l', self.e('initIterating')))
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            x.need(len(sent) == (1 if w else 0), 'a grant to iterate is sent to one it is not for' if sent else 'one that wished to iterate is not granted it')
            x.need(w or state == ('l', self.e('state')), 'it is forgotten that one asked')
            for to, msg in sent if w else ():
                x.need(to == ('l', self.e('route')) and msg[1] == C(self.A['cmd_init_grant']) and msg[2] == self.me and str(self.e('global_id')) in str(msg[3]) and raised(msg[4])[0] >> self.F['iteration_requested_flag'] & 1, 'the grant to iterate is sent as something else')
                x.need(state == self.CS['CONNECTED'] and iters == ZERO, 'who iterates is not waited for again')

    def ex(self, x):
        x.need(self.brks in x.done() or flow.known_eq(x.st, size(self.brks), ZERO) is True, 'not everybody is asked whether it wished to iterate')
        x.need(does(x, 'setBrokerState') == [(self.B['CONNECTED'],)], 'the broker does not wait again')
        x.need(x.val(('f', THIS, CB + 'initIterating')) == ZERO, 'the wish to iterate outlives its grant')
        x.need(not does(x, 'broadcast') and not does(x, 'enteringExecMode'), 'a grant to iterate lets the others start')

    def run(self):
        p = self.fn.params[0]
        self.check(env={('v', p['d'], (self.fn.line,)): C(1)}, does=('transmit', 'setBrokerState', 'broadcast', 'enteringExecMode'), each=self.each, exit=self.ex)


class Once(Handles):
    """wherever else the core asks for initialization: when all are ready, once, and with the wish to iterate"""

    def __init__(self, res, prog, name, when):
        super().__init__(res, prog, name)
        self.when, self.env = when, None
        self.go = Q('transitionBrokerState', self.B['CONNECTED'], self.B['INITIALIZING'])

    def ex(self, x):
        sent = [e for e in does(x, 'transmit') if e[1][1] == C(self.A['cmd_init'])]
        stepped = ('transitionBrokerState', self.B['CONNECTED'], self.B['INITIALIZING']) in {e[1:-1] if e[-1] == () else e[1:] for e in x.all() if e[0] == 'ask'}
        counter = x.val(('f', THIS, CC + 'delayInitCounter'))

        def want(q):
            w = self.when(self, q, counter)
            if w is None or w == 'moot':
                return w, None
            if not w or not q.is_(Q('allInitReady')):
                return False, False
            return (True, q.is_(own(CC, 'initIterations'))) if q.is_(self.go) else (False, True)
        for s, (w, f) in ref.cases(x.st, want):
            self.res.count('cases')
            if w == 'moot':
                continue
            if w is None:
                x.need(not sent and not stepped, 'another command asks for initialization')
                continue
            x.need(len(sent) == (1 if w else 0), 'the core asks for initialization without need' if sent else 'the core does not ask for initialization although all are ready')
            x.need(w or f or not stepped, 'the core stops waiting although something is still waited for')
            for to, msg in sent if w else ():
                x.need('parent_route_id' in str(to) and str(self.me[1]) in str(msg[2]) or msg[2] == x.val(self.me[1]), 'the request is sent to somebody else, or under another name')
                if f:
                    x.need(self.known(s, msg, 'iteration_requested_flag') is True, 'the wish to iterate is not passed on')
                else:
                    x.need(not raised(msg[4])[0] >> self.F['iteration_requested_flag'] & 1, 'an iteration is asked for that nobody wished')

    def run(self):
        self.check(asks=('allInitReady', 'transitionBrokerState'), does=('transmit',), exit=self.ex, env=self.env)


def once(res, prog):
    flags = names.enum_values(prog, H + 'defs::Flags')

    def configured(h, q, counter):
        if not q.eq(h.m('messageID'), C(flags['ENABLE_INIT_ENTRY'])):
            return None
        # a core that is told to wait is not ready (Ready decides that)
        return 'moot' if q.lt(ZERO, counter) and q.is_(Q('allInitReady')) else True

    def acked(h, q, counter):
        n = lambda k: own(BB, k)
        if q.bit(h.m('flags'), h.F['error_flag']) or not q.eq(Q('name'), n('identifier')):
            return None
        return q.lt(counter, ZERO) and q.eq(n('minFederateCount'), ZERO) and q.eq(n('minChildCount'), ZERO)
    h = Once(res, prog, CC + 'processCoreConfigureCommands', configured)
    h.run()
    h = Once(res, prog, CC + 'processPriorityCommand', acked)
    h.env = {h.m('messageAction')[1]: C(h.A['cmd_broker_ack'])}
    h.run()


class Newcomer(Handles):
    """a newcomer who is let in takes back that the broker was ready; one who is refused does not"""
    ADDED = ('v', 'the newcomer is let in', ())
    OTHER = ('generateRouteId', 'addRoute', 'removeRoute', 'getRoute', 'getExtraData', 'getString', 'setString', 'addDependency', 'addDependent', 'setAsChild', 'addSearchTermForIndex')

    def __init__(self, res, prog, name, who):
        super().__init__(res, prog, name)
        self.all, self.who = ('f', THIS, CB + who), who

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        if s == 'insert' and obj is not None and obj >= 0 and rule.objloc(eng, st, fr, obj) == self.all:
            rule.eff(eng, st, ('insert',))
            st.env[self.ADDED] = C(1)
            st._k = None
            return [(st, Q('insert'))]
        if s == 'transmit' and rule.value(eng, st, fr, [a for a in args if a >= 0][-1])[1] != C(self.A['cmd_init_not_ready']):
            return [(st, ZERO)]
        if s in ('sendBrokerErrorAck', 'sendFedErrorAck') + self.OTHER:
            return [(st, Q(s))]
        return None

    def ex(self, x):
        sent = [e for e in does(x, 'transmit') if e[1][1] == C(self.A['cmd_init_not_ready'])]

        def want(q):
            if ('insert',) not in x.all() or self.who == 'mBrokers' and not q.is_(Q('insert')):
                return False
            if not q.lt(Q('getBrokerState'), self.B['OPERATING']) or self.who == 'mFederates' and self.bit(q, 'non_counting_flag'):
                return False
            if not sent and q.is_(own(CB, 'isRootc')):
                return False        # nobody is above the root
            return q.is_(Q('allInitReady'))
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            x.need(len(sent) == (1 if w else 0), 'a broker that is still ready takes that back' if sent else 'the parent still takes the broker for ready when somebody new is waited for')
            for to, msg in sent if w else ():
                x.need('parent_route_id' in str(to) and msg[2] == self.me, 'the parent is not told under the name it knows')
        for e in x.all():
            if e[0] == 'ask' and e[1] == 'allInitReady':
                x.need(e[-1][0] != C(1), 'the newcomer itself is asked whether the broker was ready')

    def run(self):
        # what the broker is set to otherwise only concerns its answer: all of it set, and none of it
        for v in (ZERO, C(1)):
            env = {self.ADDED: ZERO, **{('f', THIS, BB + k): v for k in ('no_ping', 'globalTime', 'asyncTime', 'globalDisconnect')}}
            self.check(asks=('allInitReady', 'getBrokerState', 'verifyBrokerKey', 'getCountableFederates'), does=('transmit',), called=self.called, watch=[self.ADDED], exit=self.ex, env=env)



def run(tier):
    res = harness.Result()
    prog, cprog = fx.load(['core/CoreBroker.cpp', 'core/ActionMessage.cpp'], []), fx.load(['core/CommonCore.cpp', 'core/ActionMessage.cpp'], [])
    ready(res, prog, cprog)
    states(res, prog)
    BrokerAsked(res, prog).run()
    Again(res, prog).run()
    Newcomer(res, prog, CB + 'brokerRegistration', 'mBrokers').run()
    Newcomer(res, prog, CB + 'fedRegistration', 'mFederates').run()
    CoreAsked(res, cprog).run()
    once(res, cprog)
    return res
