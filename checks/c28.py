"""C28: an error stays, and who has gone is known to everybody who waits"""
import fx, harness, names, spec, flow, ref, cont, quant
from flow import C, ZERO, THIS
from c18 import smallest
from c23 import AM
from c25 import Command, Handles, does, own, size, Q, connection, VEC
from c26 import everything, flat

H = 'helics::'
CB, CC, BB = H + 'CoreBroker::', H + 'CommonCore::', H + 'BrokerBase::'
BI, FI = H + 'BasicBrokerInfo::', H + 'BasicFedInfo::'


def table(res, prog):
    """what a broker or core becomes when it is told to be in a state"""
    B = names.enum_values(prog, BB + 'BrokerState')
    fn = prog.fn(BB + 'setBrokerState')
    loc = ('f', THIS, BB + 'brokerState')
    wish = ('v', fn.params[0]['d'], (fn.line,))
    sick = ('CONNECTED_ERROR', 'TERMINATING_ERROR', 'ERRORED')

    def want(now, to):
        if now == 'ERRORED':
            return 'ERRORED'
        if now in sick:
            if to in ('TERMINATED', 'ERRORED'):
                return 'ERRORED'
            if to == 'TERMINATING' and now == 'CONNECTED_ERROR':
                return 'TERMINATING_ERROR'
            return now
        if to == 'ERRORED' and B['CONNECTING'] < B[now] < B['TERMINATING']:
            return 'CONNECTED_ERROR'
        return to
    for now in B:
        for to in B:
            w = want(now, to)

            def ex(x):
                v, r = x.val(loc), x.truth(x.ret)
                if now in sick:
                    x.need(v in [C(B[k]) for k in sick] or v == ('l', loc), 'an error is forgotten')
                x.need(v == C(B[w]), 'told to be %s a broker that is %s becomes another state than %s' % (to, now, w))
                x.need(r is (now not in sick or w != now or to == now), 'whether the state was taken is not told as it is')
            res.count('transitions')
            spec.check(res, 'C28', prog, fn, exit=ex, env={loc: C(B[now]), wish: C(B[to])})
    # a step that is only taken from the state it starts in
    fn = prog.fn(BB + 'transitionBrokerState')
    a, b = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]

    def called(rule, eng, st, fr, i, name, obj, args):
        if name.split('::')[-1] in ('compare_exchange_strong', 'compare_exchange_weak') and obj is not None and obj >= 0:
            o, e = rule.objloc(eng, st, fr, obj), eng.lv(st, fr, args[0])
            t = flow.known_eq(st, eng.read(st, o), eng.read(st, e))
            st = st.copy()
            rule.eff(eng, st, ('step',))
            eng.write(st, o if t else e, eng.ev(st, fr, args[1]) if t else eng.read(st, o))
            return [(st, C(int(bool(t))))]
    for hit in (True, False):
        def ex(x):
            x.need(x.truth(x.ret) is hit and x.val(loc) == C(4 if hit else 3), 'a step is taken from another state than the one it starts in, or not from that')
            x.need(('step',) in x.all(), 'two can take the same step, as the state is looked at and set separately')
        spec.check(res, 'C28', prog, fn, exit=ex, called=called, env={loc: C(3), a[1]: C(3 if hit else 5), b[1]: C(4)})


class Left(Handles):
    """everything below one that went away is away too"""

    def __init__(self, res, prog):
        super().__init__(res, prog, CB + 'markAsDisconnected')
        self.id = ('l', ('v', self.fn.params[0]['d'], (self.fn.line,)))
        self.CS = connection(prog)
        self.brks, self.feds = ('f', THIS, CB + 'mBrokers'), ('f', THIS, CB + 'mFederates')

    def each(self, x):
        e = cont.el(x.c)
        brk = x.c == self.brks
        S = BI if brk else FI
        f = lambda n: ('l', ('f', e, S + n))
        rec, gone = does(x, 'markAsDisconnected', x.effs), does(x, 'removeFederateHandles', x.effs)
        st = x.val(f('state')[1])

        def want(q):
            down = q.eq(f('parent'), self.id)
            it = down or brk and q.eq(f('global_id'), self.id)
            err = q.eq(f('state'), self.CS['ERROR_STATE'])
            return it, down, err, down and not brk and not err and q.is_(f('reentrant'))
        for s, (it, down, err, re) in ref.cases(x.st, want):
            self.res.count('cases')
            if it and not err:
                x.need(st == self.CS['DISCONNECTED'], 'one that is gone, or below one that is gone, is thought to be there')
            else:
                x.need(st == f('state') or err and flow.known_eq(s, st, self.CS['ERROR_STATE']), 'one that failed is called disconnected' if err else 'one that is still there is called disconnected')
            if brk:
                x.need(all(r == (f('global_id'),) for r in rec), 'those below another one are marked')
                x.need(len(rec) == 1 or err and not rec if down else not rec, 'those below one that is gone are not marked' if down else 'those below one that is still there are marked')
            else:
                x.need(not rec and gone == ([(f('global_id'),)] if re else []), 'the interfaces of a federate that may come back stay' if re else 'the interfaces of a federate are removed that does not come back')

    def ex(self, x):
        for c in (self.brks, self.feds):
            x.need(c in x.done() or x.eq(size(c), ZERO), 'not everybody below one that is gone is marked')

    def run(self):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Command, quiet=self.QUIET, each=self.each, exit=self.ex, does=('markAsDisconnected', 'removeFederateHandles'))


def shout(res, prog):
    """a broadcast reaches everybody directly below that is still connected"""
    h = Handles(res, prog, CB + 'broadcast')
    brks = ('f', THIS, CB + 'mBrokers')
    e = cont.el(brks)
    f = lambda n: ('l', ('f', e, BI + n))
    CS = connection(prog)

    def each(x):
        sent = does(x, 'transmit', x.effs)
        for s, w in ref.cases(x.st, lambda q: not q.is_(f('_nonLocal')) and q.lt(f('state'), CS['DISCONNECTED'])):
            res.count('cases')
            x.need(len(sent) == int(w), 'a broadcast does not reach one that is connected, once' if w else 'a broadcast goes to one that is gone or not directly below')
            x.need(all(r == f('route') and m[3] == f('global_id') and m[1] == h.m('messageAction') and m[5] == h.cmd for r, m in sent), 'a broadcast goes another way than to the one it is for')

    def ex(x):
        x.need(brks in x.done() or x.eq(size(brks), ZERO), 'a broadcast does not reach everybody')
    spec.check(res, 'C28', prog, h.fn, cls=Command, quiet=h.QUIET, each=each, exit=ex, does=('transmit',))


class Gone(Command):
    """what was asked after the broker had been given up is marked"""
    keyed = ('transitionBrokerState', 'getRoute')
    mark = ('v', 'given up', ())
    found = ('v', 'held', ())

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        out = super().called(eng, st, fr, i, name, obj, args)
        if s in ('disconnectBroker', 'markAsDisconnected'):
            for s2, _ in out:
                s2.env[self.mark] = C(1)
                s2._k = None
        return out

    def value(self, eng, st, fr, a):
        n = fr.fn.nodes[a]
        if 'BasicBrokerInfo' in n.get('t', '') and '*' not in n.get('t', ''):
            l = eng.lv(st, fr, a)
            return ('l', l) if l is not None else eng.ev(st, fr, a)
        return super().value(eng, st, fr, a)


def forgotten(res, prog):
    """a broker that is gone is marked, no query waits for it, and before the start everybody is told"""
    h = Handles(res, prog, CB + 'disconnectBroker')
    brk = ('v', h.fn.params[0]['d'], (h.fn.line,))
    f = lambda n: ('l', ('f', brk, BI + n))
    brks = ('f', THIS, CB + 'mBrokers')
    e = cont.el(brks)
    g = lambda n: ('l', ('f', e, BI + n))
    pre = lambda q: q.lt(Q('getBrokerState'), h.B['OPERATING']) and q.is_(root)
    root = own(CB, 'isRootc')

    def each(x):
        if x.c != brks:
            return
        cl = does(x, 'clearFederateUnknowns', x.effs)
        for s, w in ref.cases(x.st, lambda q: pre(q) and not q.is_(f('_core')) and q.eq(g('parent'), f('global_id')) and q.is_(g('_core'))):
            res.count('cases')
            x.need(cl == ([(g('global_id'),)] if w else []), 'what a core below a broker that is gone waited for is still waited for' if w else 'what somebody else waits for is forgotten')

    def ex(x):
        x.need(does(x, 'markAsDisconnected') == [(f('global_id'),)], 'one that is gone is not marked')
        x.need(does(x, 'checkInFlightQueries') == [(f('global_id'),)], 'queries wait for one that is gone')
        cl, cast = does(x, 'clearFederateUnknowns'), does(x, 'broadcast')
        for s, (w, core) in ref.cases(x.st, lambda q: (pre(q), q.is_(f('_core')))):
            res.count('cases')
            x.need(len(cast) == int(w) and all(m[1] == C(h.A['cmd_broadcast_disconnect']) and m[2] == f('global_id') for m, in cast), 'the others are not told that one is gone before they start' if w else 'one that is gone is announced where nobody waits for it')
            x.need([c for c in cl if c != (g('global_id'),)] == ([(f('global_id'),)] if w else []), 'what one that is gone waited for is still waited for' if w else 'what somebody waits for is forgotten')
            if w and not core:
                x.need(brks in x.done() or x.eq(size(brks), ZERO), 'what the cores below a broker that is gone waited for is still waited for')
    spec.check(res, 'C28', prog, h.fn, cls=Gone, quiet=h.QUIET, each=each, exit=ex, asks=('getBrokerState',), does=('markAsDisconnected', 'checkInFlightQueries', 'clearFederateUnknowns', 'broadcast'))


class Ends(Handles):
    """a disconnect is acknowledged once, and a broker is done when everybody below is"""
    STOP = None

    def __init__(self, res, prog):
        super().__init__(res, prog, CB + 'processBrokerDisconnect')
        p = ('v', self.fn.params[1]['d'], (self.fn.line,))
        self.brk = ('l', p)
        self.b = lambda n: ('f', ('d', self.brk), BI + n)
        self.CS = connection(prog)
        self.brks = ('f', THIS, CB + 'mBrokers')
        self.all = own(BB, 'globalDisconnect')
        self.parent = ('l', ('g', H + 'parent_route_id'))
        self.root, self.up = own(CB, 'isRootc'), own(BB, 'higher_broker_id')

    def ack(self, s, brk):
        c = flow.truth(s, ('l', ('f', brk, BI + '_core')))
        return C(self.A['cmd_disconnect_core_ack' if c else 'cmd_disconnect_broker_ack']) if c is not None else None

    def acked(self, x, s, effs, brk, due, mark, route):
        """the broker got its acknowledgement (due), is marked as having got it, and its route is closed"""
        f = lambda n: ('l', ('f', brk, BI + n))
        a = [m for r, m in does(x, 'transmit', effs) if r == f('route')]
        x.need(len(a) == int(due), 'a disconnect is not acknowledged once' if due else 'a disconnect is acknowledged that should not be, or again')
        x.need(all(m[1] == self.ack(s, brk) and m[2] == self.me and m[3] == f('global_id') for m in a), 'a disconnect is acknowledged with another message than the one that is waited for')
        k = x.val(f('_sent_disconnect_ack')[1])
        x.need(k == C(1) if mark else k == f('_sent_disconnect_ack'), 'it is not noted that a disconnect was acknowledged' if mark else 'it is noted that a disconnect was acknowledged although it was not')
        rm = [r for r, in does(x, 'removeRoute', effs) if r == f('route')]
        x.need(len(rm) == int(route), 'the route to one that is gone stays' if route else 'the route to one that is there is removed')

    def everybody(self, x, w):
        """all that have no acknowledgement get it"""
        if x.c != self.brks:
            return
        e = cont.el(x.c)
        for s, d in ref.cases(x.st, lambda q: (w(q) and not q.is_(('l', ('f', e, BI + '_sent_disconnect_ack'))), q.is_(('l', ('f', e, BI + '_core'))))):
            self.res.count('cases')
            self.acked(x, s, x.effs, e, d[0], d[0], d[0])

    def case(self, q):
        if not q.is_(self.root) and q.eq(self.m('source_id'), self.up):
            return 'down'
        return 'over' if not q.lt(Q('getAllConnectionState'), self.CS['DISCONNECTED']) else 'on'

    def each(self, x):
        self.everybody(x, lambda q: self.case(q) == 'over' and q.is_(self.root) and q.is_(self.brk) and not q.is_(('l', self.b('_nonLocal'))) and q.is_(self.all))

    def ex(self, x):
        need, A = x.need, self.A
        B = ('d', self.brk)

        def want(q):
            k = self.case(q)
            w = dict(case=k, brk=None, near=False, ack=False, mark=False, close=False, all=False, told=False, root=q.is_(self.root))
            if k == 'down':
                return w
            w['brk'] = q.is_(self.brk)
            if w['brk']:
                w['near'] = not q.is_(('l', self.b('_nonLocal')))
                w['core'] = q.is_(('l', self.b('_core')))
            glob = w['near'] and q.is_(self.all)
            quiet = w['near'] and not glob and self.bit(q, 'error_flag')
            if w['near'] and (w['root'] or k == 'on'):
                w['all'] = glob and k == 'over'
                w['mark'] = w['close'] = not glob
                w['ack'] = not glob and not quiet
            if k == 'on' and not w['root'] and w['brk']:
                w['told'] = q.lt(Q('getBrokerState'), self.B['OPERATING'])
            return w
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            up = [m for r, m in does(x, 'transmit') if r == self.parent]
            stop = [m for m in does(x, 'addActionMessage')]
            gone, td, sd = does(x, 'disconnectBroker'), [e for e in x.all() if e[0] == 'does' and e[1] == 'disconnect'], does(x, 'sendDisconnect')
            if w['case'] == 'down':
                need(len(sd) == 1 and sd[0][0] == C(A['cmd_global_disconnect']) and self.halts(stop), 'what the broker above ends goes on here')
                need(not up and not gone, 'a disconnect from above is taken for one from below')
                continue
            need(not sd, 'those below are cut off although nobody asked for it')
            need(len(gone) == int(bool(w['brk'])) and all(g[0] in (('l', B), B, self.brk) for g in gone), 'one that is gone is not given up, once')
            need(all(e[-1] == ((C(1) if w['brk'] else ('l', Gone.mark)),) for e in x.all() if e[0] == 'ask' and e[1] == 'getAllConnectionState'), 'one that is gone is still counted when the others are looked at')
            over = w['case'] == 'over'
            need(len(td) == int(over), 'the broker keeps its time although everybody is gone' if over else 'the broker gives up its time although somebody is there')
            need(self.halts(stop) if over and w['root'] else not stop, 'the root does not stop when everybody is gone' if over and w['root'] else 'the broker stops although somebody is there, or before the one above says so')
            if w['told']:
                need(len(up) == 1 and up[0][1] == C(A['cmd_disconnect_core' if w['core'] else 'cmd_disconnect_broker']) and up[0][5] == self.cmd, 'the broker above is not told who is gone before the start')
            elif over and not w['root']:
                need(len(up) == 1 and up[0][1] == C(A['cmd_disconnect']) and up[0][2] == self.me, 'the broker above is not told, once, that everybody is gone')
            else:
                need(not up, 'the broker above is told that somebody is gone although it does not wait for that')
            if w['all']:
                need(self.brks in x.done() or x.eq(size(self.brks), ZERO), 'not everybody is acknowledged in the end')
            elif w['brk']:
                self.acked(x, s, x.all(), B, w['ack'], w['mark'], w['close'])

    def halts(self, stop):
        return len(stop) == 1 and (stop[0][0][1] if stop[0][0][0] == 'msg' else stop[0][0]) == C(self.A['cmd_stop'])

    def run(self):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Gone, quiet=self.QUIET, each=self.each, exit=self.ex, asks=('getAllConnectionState', 'getBrokerState'), watch=[Gone.mark],
                   does=('sendDisconnect', 'addActionMessage', 'disconnectBroker', 'disconnect', 'transmit', 'removeRoute'))


class Sent(Ends):
    """who a disconnect is for"""

    def __init__(self, res, prog, name):
        Handles.__init__(self, res, prog, CB + name)
        self.brk = Q('getBrokerById')
        self.b = lambda n: ('f', ('d', self.brk), BI + n)
        self.root, self.up, self.CS = own(CB, 'isRootc'), own(BB, 'higher_broker_id'), connection(prog)
        self.brks = ('f', THIS, CB + 'mBrokers')
        self.parent = ('l', ('g', H + 'parent_route_id'))
        self.top = ('l', ('g', H + 'parent_broker_id'))

    DOES = ('disconnectTiming', 'processBrokerDisconnect', 'processTimeMonitorMessage', 'transmit', 'disconnectBroker')

    def ex(self, x):
        A = self.A
        acts = {k: C(A['cmd_' + k]) for k in ('disconnect', 'priority_disconnect', 'disconnect_core', 'disconnect_broker')}

        def want(q):
            a = self.m('messageAction')
            if q.eq(a, acts['disconnect']) or q.eq(a, acts['priority_disconnect']):
                d = self.m('dest_id')
                if q.eq(d, self.me):
                    return 'disconnectTiming'
                if q.eq(d, self.top):
                    return 'processBrokerDisconnect'
                return 'processTimeMonitorMessage' if q.eq(d, own(CB, 'mTimeMonitorLocalFederateId')) else 'route'
            if q.eq(a, acts['disconnect_core']) or q.eq(a, acts['disconnect_broker']):
                return None if not q.is_(self.brk) else 'give up' if q.is_(self.root) else 'give up and tell'
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            d = {n: does(x, n) for n in self.DOES}
            due = {'route': ['transmit'], 'give up': ['disconnectBroker'], 'give up and tell': ['disconnectBroker', 'transmit'], None: []}.get(w, [w])
            for n in self.DOES:
                x.need(len(d[n]) == int(n in due), 'a disconnect is not handled as one for %s' % {'route': 'another', None: 'nobody'}.get(w, 'this broker'))
            for n in due:
                if n == 'disconnectBroker':
                    x.need(all(v[0] in (('l', ('d', self.brk)), self.brk, ('d', self.brk)) for v in d[n]), 'another broker is given up than the one that is gone')
                elif n == 'transmit':
                    to = self.parent if w == 'give up and tell' else Q('getRoute', self.m('dest_id'))
                    x.need(all(v[0] == to and v[1][5] == self.cmd and v[1][1] == self.m('messageAction') for v in d[n]), 'a disconnect goes another way than to the one it is for')
                else:
                    x.need(all(v[0][5] == self.cmd for v in d[n]), 'another disconnect is handled')
                    if n == 'processBrokerDisconnect':
                        x.need(all(v[1] == self.brk for v in d[n]), 'a disconnect is taken for that of another')
            x.need(all(self.m('source_id')[1] in flat(e[2]) for e in x.all() if e[0] == 'ask' and e[1] == 'getBrokerById'), 'a disconnect is taken for that of another')

    def run(self):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Gone, quiet=self.QUIET, exit=self.ex, asks=('getBrokerById', 'getRoute'), does=self.DOES)


class Cut(Ends):
    """when a broker ends, everybody directly below is told or acknowledged, once, and nobody's time is waited for"""

    def __init__(self, res, prog):
        Handles.__init__(self, res, prog, CB + 'sendDisconnect')
        self.CS = connection(prog)
        self.brks = ('f', THIS, CB + 'mBrokers')
        self.kind = ('l', ('v', self.fn.params[0]['d'], (self.fn.line,)))
        self.timed = own(BB, 'hasTimeDependency')

    def each(self, x):
        if x.c != self.brks:
            return
        e = cont.el(x.c)
        f = lambda n: ('l', ('f', e, BI + n))
        sent, acks = does(x, 'routeMessage', x.effs), does(x, 'transmit', x.effs)
        rm = {n: does(x, n, x.effs) for n in ('removeDependency', 'removeDependent')}

        def want(q):
            up = q.lt(f('state'), self.CS['DISCONNECTED'])
            return up and q.eq(f('parent'), self.me), up and q.is_(self.timed), not up and q.eq(f('state'), self.CS['DISCONNECTED']) and not q.is_(f('_sent_disconnect_ack')), q.is_(f('_core'))
        for s, (bye, time, ack, core) in ref.cases(x.st, want):
            self.res.count('cases')
            x.need(len(sent) == int(bye) and all(m[1] == self.kind and m[2] == self.me and to in (f('global_id'), ('k',)) for m, to in sent), 'one below is not told once that this one ends' if bye else 'one that is gone or is not directly below is told that this one ends')
            x.need((x.val(f('state')[1]) == self.CS['DISCONNECTED']) if bye else x.val(f('state')[1]) == f('state'), 'one below that was told is not gone' if bye else 'the state of one changes that was not told')
            x.need(len(acks) == int(ack) and all(r == f('route') and m[1] == C(self.A['cmd_disconnect_core_ack' if core else 'cmd_disconnect_broker_ack']) and m[2] == self.me and m[3] == f('global_id') for r, m in acks), 'one that is gone does not get its acknowledgement, once' if ack else 'an acknowledgement goes to one that has it')
            k = x.val(f('_sent_disconnect_ack')[1])
            x.need(k == C(1) if bye or ack else k == f('_sent_disconnect_ack'), 'it is not kept who was acknowledged')
            for n in rm:
                x.need(rm[n] == ([(f('global_id'),)] if time else []), 'the time of one that is cut off is still waited for' if time else 'the time of one is not waited for that was not cut off')

    def ex(self, x):
        x.need(self.brks in x.done() or x.eq(size(self.brks), ZERO), 'not everybody below is told that this one ends')
        td = [e for e in x.all() if e[0] == 'does' and e[1] == 'disconnect']
        for s, w in ref.cases(x.st, lambda q: q.is_(self.timed)):
            x.need(len(td) == int(w), 'the broker keeps its time after its end' if w else 'time that is not kept is given up')

    def run(self):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Gone, quiet=self.QUIET + ('writeProfilingData',), each=self.each, exit=self.ex, does=('routeMessage', 'transmit', 'removeDependency', 'removeDependent', 'disconnect'))


class Told(Ends):
    """the messages of a disconnect that are handled where they arrive"""

    def __init__(self, res, prog):
        Handles.__init__(self, res, prog, CB + 'processCommand')
        self.root, self.up, self.CS = own(CB, 'isRootc'), own(BB, 'higher_broker_id'), connection(prog)
        self.brks, self.feds = ('f', THIS, CB + 'mBrokers'), ('f', THIS, CB + 'mFederates')
        self.parent = ('l', ('g', H + 'parent_route_id'))

    DOES = ('transmit', 'removeRoute', 'addActionMessage', 'broadcast', 'removeFederateHandles', 'clearFederateUnknowns', 'processDisconnectCommand', 'disconnect', 'fulfillAllPromises')

    def check(self, act, ex, each=None):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Gone, quiet=self.QUIET, each=each, exit=ex, asks=('getBrokerState', 'getAllConnectionState'), does=self.DOES,
                   env={('f', self.cmd, AM + 'messageAction'): C(self.A[act])})

    def run(self):
        A = self.A
        mine = lambda q: q.eq(self.m('dest_id'), self.me) and q.eq(self.m('source_id'), self.up)

        def ends(x):
            for s, w in ref.cases(x.st, mine):
                self.res.count('cases')
                stop = does(x, 'addActionMessage')
                x.need(self.halts(stop) if w else not stop, 'a broker whose end was acknowledged does not stop, once' if w else 'a broker stops that was not acknowledged by the one above')
                x.need(not w or self.brks in x.done() or x.eq(size(self.brks), ZERO), 'not everybody below is acknowledged in the end')
        self.check('cmd_disconnect_broker_ack', ends, lambda x: self.everybody(x, mine))

        def fedgone(x):
            sts = [(l, v) for l, v in x.st.env.items() if l[0] == 'f' and l[2] == FI + 'state']
            rm, cl, cast, up = does(x, 'removeFederateHandles'), does(x, 'clearFederateUnknowns'), does(x, 'broadcast'), does(x, 'transmit')
            k = x.st.env.get(('has', self.feds, self.m('source_id')))
            x.need(k is not None, 'it is not looked up which federate is gone')
            k = k == C(1)

            def want(q):
                return k, k and any(q.is_(('l', ('f', l[1], FI + 'reentrant'))) for l, v in sts), q.is_(self.root), q.is_(self.root) and q.lt(Q('getBrokerState'), self.B['OPERATING'])
            for s, (k, r, root, pre) in ref.cases(x.st, want):
                self.res.count('cases')
                x.need([v for l, v in sts] == ([self.CS['DISCONNECTED']] if k else []), 'a federate that is gone is thought to be there' if k else 'another federate is called gone')
                x.need(rm == ([(self.m('source_id'),)] if r else []), 'the interfaces of a federate that may come back stay' if r else 'the interfaces of a federate are removed that does not come back')
                x.need(len(up) == int(not root) and all(v[0] == self.parent and v[1][5] == self.cmd and v[1][1] == C(A['cmd_disconnect_fed']) for v in up), 'the broker above is not told that a federate is gone')
                x.need(len(cast) == int(pre) and all(m[1] == C(A['cmd_broadcast_disconnect']) and m[2] == self.m('source_id') for m, in cast), 'the others are not told that a federate is gone before they start' if pre else 'a federate that is gone is announced where nobody waits for it')
                x.need(cl == ([(self.m('source_id'),)] if pre else []), 'what a federate that is gone waited for is still waited for' if pre else 'what somebody waits for is forgotten')
        self.check('cmd_disconnect_fed', fedgone)

        for a in ('cmd_disconnect', 'cmd_disconnect_core', 'cmd_disconnect_broker'):
            self.check(a, lambda x: x.need([v[0][5] for v in does(x, 'processDisconnectCommand')] == [self.cmd], 'a disconnect is not handled'))

        def stop(x):
            td, up = [e for e in x.all() if e[0] == 'does' and e[1] == 'disconnect'], does(x, 'transmit')
            for s, (w, root) in ref.cases(x.st, lambda q: (q.lt(Q('getAllConnectionState'), self.CS['DISCONNECTED']), q.is_(self.root))):
                self.res.count('cases')
                x.need(len(td) == int(w), 'a broker that stops keeps its time')
                x.need(len(up) == int(w and not root) and all(r == self.parent and m[1] == C(A['cmd_disconnect']) and m[2] == self.me for r, m in up), 'a broker that stops does not tell the one above, once')
            x.need(len(does(x, 'fulfillAllPromises')) == 1, 'who asked a broker that stops waits for ever')
        self.check('cmd_stop', stop)


class Failed(Ends):
    """an error is passed to everybody still connected and to the one above, and a global one stops here"""

    def __init__(self, res, prog):
        Handles.__init__(self, res, prog, CB + 'processError')
        self.brk = Q('getBrokerById')
        self.b = lambda n: ('f', ('d', self.brk), BI + n)
        self.root, self.CS = own(CB, 'isRootc'), connection(prog)
        self.parent, self.top, self.rid = (('l', ('g', H + n)) for n in ('parent_route_id', 'parent_broker_id', 'gRootBrokerID'))
        self.feds = ('f', THIS, CB + 'mFederates')
        self.timed = own(BB, 'hasTimeDependency')

    def ex(self, x):
        A, B = self.A, self.B
        held = x.st.env.get(Gone.found)
        G, L, E = (C(A['cmd_' + n]) for n in ('global_error', 'local_error', 'error'))
        need = x.need

        def want(q):
            src, act = self.m('source_id'), self.m('messageAction')
            w = dict(state=False, err=False, cast=None, up=None, brk=None, fed=False, again=False, time=False, root=q.is_(self.root))
            if q.eq(src, self.me):
                w.update(state=True, err=q.eq(act, G), cast=True, up=None if w['root'] else L)
                return w
            if q.eq(src, self.top) or q.eq(src, self.rid):
                w.update(state=True, err=q.eq(act, G), cast=True)
                return w
            w['brk'] = q.is_(self.brk)
            w['fed'] = not w['brk'] and held == C(1)
            w['look'] = not w['brk'] and held is None
            ends = w['root'] or q.eq(self.m('dest_id'), self.me) or q.eq(self.m('dest_id'), self.top)
            if q.eq(act, L) or q.eq(act, E):
                if q.is_(own(BB, 'terminate_on_error')):
                    w['again'] = True
                else:
                    w.update(up=None if ends else act, time=q.is_(self.timed))
            elif q.eq(act, G):
                w.update(err=True, up=None if ends else act, cast=ends)
            return w
        st = [v for e in x.all() if e[0] == 'does' and e[1] == 'setBrokerState' for v in [e[3]]]
        err, cast, up = does(x, 'setErrorState'), does(x, 'broadcast'), does(x, 'transmit')
        again, tm = does(x, 'processError'), does(x, 'processTimeMessage')
        fs = [e[2] for e in x.all() if e[0] == 'set']
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            need(st == ([B['ERRORED']] if w['state'] else []), 'an error of the broker, or from above, leaves it as it was' if w['state'] else 'the broker fails for an error of somebody below')
            need(len(err) == int(w['err']) and all(v[0] == self.m('messageID') for v in err), 'a global error is not kept with its code' if w['err'] else 'an error that is not global is kept as one')
            need(len(cast) == int(bool(w['cast'])), 'those below do not hear of an error, once' if w['cast'] else 'those below hear of an error that is not for them')
            need(all(m[5] == self.cmd and m[1] == self.m('messageAction') or m[1] == G and w['brk'] is not None for m, in cast), 'those below hear of another error')
            need(not (w['brk'] is not None and w['cast']) or all(m[2] == self.me for m, in cast), 'a global error is passed down in the name of the one who failed')
            need(len(up) == int(w['up'] is not None) and all(r == self.parent and m[5] == self.cmd and (m[1] == w['up'] or flow.known_eq(s, m[1], w['up']) is True) for r, m in up), 'the broker above does not hear of an error, once' if w['up'] else 'the broker above hears of an error that ends here')
            if w['brk'] is not None:
                v = x.val(self.b('state'))
                need(v == (self.CS['ERROR_STATE'] if w['brk'] else ('l', self.b('state'))), 'one that failed is thought to be well')
                need(not w['look'] and fs == ([self.CS['ERROR_STATE']] if w['fed'] else []), 'a federate that failed is thought to be well')
            need(len(again) == int(w['again']) and all(m[5] == self.cmd and m[1] == G for m, in again), 'an error that ends everything does not' if w['again'] else 'an error that ends nothing does')
            need(len(tm) == int(w['time']) and all(m[5] == self.cmd for m, in tm), 'the time of one that failed is waited for' if w['time'] else 'an error is told where no time is waited for')

    def run(self):
        look = ('has', self.feds, self.m('source_id'))

        class Seen(Gone):
            def set_has(self, st, c, k, v):
                super().set_has(st, c, k, v)
                if ('has', c, k) == look:
                    st.env[self.found] = C(v)
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Seen, sets=lambda l: l[0] == 'f' and l[2] == FI + 'state', quiet=tuple(q for q in self.QUIET if q != 'setErrorState'), exit=self.ex, asks=('getBrokerById',), does=('setBrokerState', 'setErrorState', 'broadcast', 'transmit', 'processError', 'processTimeMessage'))


class Core(Ends):
    """the same for a core and its federates"""
    QUIET2 = ('writeProfilingData', 'setTickForwarding', 'now')

    def __init__(self, res, prog, name):
        Handles.__init__(self, res, prog, CC + name)
        self.lf = ('f', THIS, CC + 'loopFederates')
        self.OS = {k: C(v) for k, v in names.enum_values(prog, H + 'OperatingState').items()}
        self.FS = {k: C(v) for k, v in names.enum_values(prog, H + 'FederateStates').items()}
        e = cont.el(self.lf)
        self.e = e
        self.fed = ('d', ('l', e))
        self.st = ('f', e, H + 'FedInfo::state')
        self.up, self.all = own(BB, 'higher_broker_id'), own(BB, 'globalDisconnect')
        self.parent, self.top, self.rid = (('l', ('g', H + n)) for n in ('parent_route_id', 'parent_broker_id', 'gRootBrokerID'))
        self.filt, self.trans = own(CC, 'filterFed'), own(CC, 'translatorFed')
        self.timed = own(BB, 'hasTimeDependency')

    def over(self, x):
        return self.lf in x.done() or x.eq(size(self.lf), ZERO)

    def fed_id(self, v):
        return self.fed in flat(v) and 'global_id' in str(v)

    def go(self, cls=Gone, env=None, quiet=(), **kw):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=cls, quiet=self.QUIET + self.QUIET2 + tuple(quiet), env=env, **kw)


def lowest(res, prog):
    """a core is as far as the federate that is behind all others"""
    h = Core(res, prog, 'minFederateState')
    smallest(res, 'C28', prog, h.fn, h.lf, None, None, None, what='state', term=('l', h.st), containers=VEC, ties=True,
             exit=lambda x: x.need(x.ret[0] != 'c' or x.ret == h.OS['DISCONNECTED'], 'a core without federates is called something else than disconnected'))
    h = Core(res, prog, 'allDisconnected')

    def ex(x):
        t = x.truth(x.ret)
        for s, w in ref.cases(x.st, lambda q: q.eq(Q('minFederateState'), h.OS['DISCONNECTED']) and not (q.is_(h.filt) and q.is_(Q('hasActiveTimeDependencies')))):
            res.count('cases')
            r = flow.truth(s, x.ret) if t is None else t
            x.need(r is w, 'a core is called done although a federate or filter is not' if not w else 'a core whose federates are all gone is not called done')
    h.go(exit=ex, asks=('minFederateState', 'hasActiveTimeDependencies'))


def quits(res, prog):
    """a core that is done says so, once"""
    h = Core(res, prog, 'checkAndProcessDisconnect')
    A, B = h.A, h.B

    def ex(x):
        g = Q('getBrokerState')

        def want(q):
            if not q.lt(g, B['TERMINATING']) and not q.lt(B['TERMINATED'], g):
                return 'gone'
            return 'done' if q.is_(Q('allDisconnected')) else 'on', q.is_(h.filt), q.is_(h.trans)
        sent, st, fl = does(x, 'transmit'), does(x, 'setBrokerState'), does(x, 'checkInFlightQueriesForDisconnect')
        td = [e for e in x.all() if e[0] == 'does' and e[1] == 'disconnect']
        for s, w in ref.cases(x.st, want):
            res.count('cases')
            done = w[0] == 'done'
            x.need(x.truth(x.ret) is (w == 'gone' or done), 'whether a core is done is not told as it is')
            x.need(len(sent) == int(done) and all(r == h.parent and m[1] == C(A['cmd_disconnect']) and m[2] == h.me and (m[3] == h.top or m[3][0] == 'fld') for r, m in sent), 'a core that is done does not say so, once' if done else 'a core says that it is done although it is not, or has said so')
            x.need(st == ([(B['TERMINATING'],)] if done else []), 'a core that is done does not end' if done else 'a core ends that is not done')
            x.need(len(fl) == int(done), 'queries wait for a core that is gone' if done else 'queries are given up that are answered later')
            x.need(len(td) == int(done), 'the time of a core that is gone is waited for' if done else 'a core gives up its time that is not done')
            m = does(x, 'handleMessage')
            x.need(len(m) == (int(w[1]) + int(w[2]) if done else 0) and all(v[0][1] == C(A['cmd_disconnect']) for v in m), 'the filters and translators of a core do not hear of its end' if done else 'the filters and translators of a core end before it')
            if done:
                x.need(set(v[0][2] for v in m) == {own(CC, k) for k, b in (('filterFedID', w[1]), ('translatorFedID', w[2])) if b}, 'the filters or translators of a core end in the name of another')
    h.go(exit=ex, asks=('getBrokerState', 'allDisconnected', 'hasActiveTimeDependencies'), does=('transmit', 'setBrokerState', 'checkInFlightQueriesForDisconnect', 'disconnect', 'handleMessage'))


def cut(res, prog):
    """a core that ends tells its federates and the broker"""
    h = Core(res, prog, 'sendDisconnect')
    kind = ('l', ('v', h.fn.params[0]['d'], (h.fn.line,)))

    def each(x):
        if x.c != h.lf:
            return
        acts, rm = does(x, 'addAction', x.effs), {n: does(x, n, x.effs) for n in ('removeDependency', 'removeDependent')}
        for s, (bye, time) in ref.cases(x.st, lambda q: (not q.eq(Q('getState', ('l', h.fed)), h.FS['FINISHED']), q.is_(h.timed))):
            res.count('cases')
            x.need(len(acts) == int(bye) and all(m[1] == kind and m[2] == h.me and h.fed_id(m[3]) for m, in acts), 'a federate of a core that ends is not told, once' if bye else 'a federate that has finished is told that its core ends')
            for n in rm:
                x.need(len(rm[n]) == int(time) and all(h.fed_id(v[0]) for v in rm[n]), 'the time of a federate that is cut off is still waited for' if time else 'time that is not kept is given up')

    def ex(x):
        sent = does(x, 'transmit')
        x.need(h.over(x), 'not every federate of a core that ends is told')
        x.need(len(sent) == 1 and all(r == h.parent and m[1] == C(h.A['cmd_disconnect']) and m[2] == h.me for r, m in sent), 'a core that ends does not say so, once')
        x.need(len(does(x, 'checkInFlightQueriesForDisconnect')) == 1, 'queries wait for a core that is gone')
        td = [e for e in x.all() if e[0] == 'does' and e[1] == 'disconnect']
        for s, (t, f) in ref.cases(x.st, lambda q: (q.is_(h.timed), q.is_(h.filt))):
            x.need(len(td) == int(t), 'the time of a core that is gone is waited for' if t else 'time that is not kept is given up')
            m = does(x, 'handleMessage')
            x.need(len(m) == int(f) and all(v[0][1] == kind for v in m), 'the filters of a core do not hear of its end')
    h.go(each=each, exit=ex, asks=('getState',), does=('transmit', 'addAction', 'removeDependency', 'removeDependent', 'checkInFlightQueriesForDisconnect', 'disconnect', 'handleMessage'))


class CoreTold(Core):
    DOES = ('transmit', 'routeMessage', 'addActionMessage', 'setBrokerState', 'sendDisconnect', 'processTimeMessage', 'addAction', 'fulfillAllPromises', 'broadcastToFederates', 'checkAndProcessDisconnect')

    def __init__(self, res, prog):
        super().__init__(res, prog, 'processDisconnectCommand')

    def act(self, a, ex, each=None):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Asked, quiet=self.QUIET + self.QUIET2, each=each, exit=ex, asks=('getBrokerState', 'minFederateState', 'isConnected', 'getState'), does=self.DOES,
                   sets=lambda l: l[0] == 'f' and l[2] == H + 'FedInfo::state', env={('f', self.cmd, AM + 'messageAction'): C(self.A[a])})

    def ends(self, always):
        B, g = self.B, Q('getBrokerState')

        def ex(x):
            st, sd, stop = does(x, 'setBrokerState'), does(x, 'sendDisconnect'), does(x, 'addActionMessage')

            def want(q):
                if q.is_(Q('isConnected')):
                    return 'ends' if q.lt(g, B['TERMINATING']) else None
                return 'failed' if always and q.eq(g, B['ERRORED']) else None
            for s, w in ref.cases(x.st, want):
                self.res.count('cases')
                x.need(len(sd) == int(w is not None), 'those of a core that is ended are not told, once' if w else 'those of a core are told again that it ends')
                x.need(st == ([(B['TERMINATING'],)] if w == 'ends' else []), 'a core that is ended goes on' if w == 'ends' else 'a core that has ended begins to end')
            x.need(self.halts(stop) if always else not stop, 'a core that is ended does not stop, once' if always else 'a core that stops goes on to stop')
            if not always:
                x.need(len(does(x, 'fulfillAllPromises')) == 1, 'who asked a core that stops waits for ever')
        return ex

    def run(self):
        A, B, g = self.A, self.B, Q('getBrokerState')
        for a in ('cmd_user_disconnect', 'cmd_global_disconnect'):
            self.act(a, self.ends(True))
        self.act('cmd_stop', self.ends(False))

        def heard(x):
            x.need(self.over(x), 'not every federate hears that somebody is gone')
            x.need([v[0][5] for v in does(x, 'processTimeMessage')] == [self.cmd], 'the time of somebody who is gone is waited for')
            x.need(len(does(x, 'checkAndProcessDisconnect')) == 1, 'it is not looked at whether a core is done')
        self.act('cmd_broadcast_disconnect', heard, lambda x: x.need([v[0][5] for v in does(x, 'addAction', x.effs)] == [self.cmd], 'a federate does not hear, once, that somebody is gone'))
        self.act('cmd_disconnect_check', lambda x: x.need(len(does(x, 'checkAndProcessDisconnect')) == 1, 'it is not looked at whether a core is done'))

        mine = lambda q: q.eq(self.m('dest_id'), self.me) and q.eq(self.m('source_id'), self.up)

        def bye(x):
            if x.c != self.lf:
                return
            acts = does(x, 'addAction', x.effs)
            for s, w in ref.cases(x.st, lambda q: mine(q) and not q.eq(Q('getState', ('l', self.fed)), self.FS['FINISHED'])):
                self.res.count('cases')
                x.need(len(acts) == int(w) and all(m[1] == C(A['cmd_disconnect_fed_ack']) and m[2] == self.top and self.fed_id(m[3]) for m, in acts), 'a federate does not get the acknowledgement of its core, once' if w else 'a federate is acknowledged that should not be')

        def acked(x):
            stop = does(x, 'addActionMessage')
            for s, w in ref.cases(x.st, mine):
                self.res.count('cases')
                x.need(self.halts(stop) if w else not stop, 'a core whose end was acknowledged does not stop, once' if w else 'a core stops that was not acknowledged by the broker')
                x.need(not w or self.over(x), 'not every federate gets the acknowledgement of its core')
        self.act('cmd_disconnect_core_ack', acked, bye)
        for a in ('cmd_disconnect', 'cmd_disconnect_fed'):
            self.act(a, self.fedgone)

    def fedgone(self, x):
        A, B, g = self.A, self.B, Q('getBrokerState')
        held, fs = x.st.env.get(Gone.found), [e[2] for e in x.all() if e[0] == 'set']
        src = self.m('source_id')
        up, ack, chk = does(x, 'transmit'), does(x, 'routeMessage'), does(x, 'checkAndProcessDisconnect')

        def want(q):
            if not q.eq(self.m('dest_id'), self.top):
                return 'pass'
            if q.lt(B['TERMINATING'], g):
                return 'late'
            if held != C(1):
                return 'unknown'
            early, late = q.lt(g, B['OPERATING']), q.eq(g, B['TERMINATING'])
            done = q.is_(Q('checkAndProcessDisconnect'))
            tell = not done or early or late
            return 'gone', tell, tell and (early or late or not q.eq(Q('minFederateState'), self.OS['DISCONNECTED']) or q.is_(self.filt) or q.is_(self.trans)) and not q.is_(self.all)
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            if w == 'pass':
                x.need(not up and not chk and not fs and [m[5] for m, in ack] == [self.cmd], 'the disconnect of one elsewhere is not passed on')
                continue
            if w in ('late', 'unknown'):
                x.need(not up and not ack and not fs and not chk, 'a federate that is not there, or whose core is gone, disconnects')
                x.need(w == 'late' or held is not None, 'it is not looked up which federate is gone')
                continue
            _, tell, due = w
            x.need(fs == [self.OS['DISCONNECTED']], 'a federate that is gone is thought to be there')
            x.need(len(chk) == 1 and all(v == (self.OS['DISCONNECTED'],) for e in x.all() if e[0] == 'at' and e[1] == 'checkAndProcessDisconnect' for v in [e[2:]]), 'it is not looked at whether a core is done when a federate has gone')
            x.need(len(up) == int(tell) and all(r == self.parent and m[1] == C(A['cmd_disconnect_fed']) and m[5] == self.cmd and m[2] == src for r, m in up), 'the broker is not told that a federate is gone' if tell else 'the broker is told that a federate of a core that is gone is gone')
            x.need(len(ack) == int(due) and all(m[1] == C(A['cmd_disconnect_fed_ack']) and m[3] == src and m[2] == self.top for m, in ack), 'a federate does not get its acknowledgement, once' if due else 'a federate is acknowledged by itself and with its core')


class Asked(Gone):
    """a federate is found, or not"""

    def set_has(self, st, c, k, v):
        super().set_has(st, c, k, v)
        if c == ('f', THIS, CC + 'loopFederates'):
            st.env[self.found] = C(v)


class CoreFailed(Core):
    """an error in a core or from above"""
    DOES = ('transmit', 'routeMessage', 'setBrokerState', 'processTimeMessage', 'addAction', 'sendErrorToFederates', 'setErrorState', 'handleMessage', 'processDisconnect')

    def __init__(self, res, prog):
        super().__init__(res, prog, 'processLogAndErrorCommand')

    def act(self, a, ex):
        spec.check(self.res, 'C28', self.prog, self.fn, cls=Asked, quiet=tuple(q for q in self.QUIET + self.QUIET2 if q not in self.DOES) + ('getFederateNameNoThrow',), exit=ex, asks=('getBrokerState', 'isConnected'), does=self.DOES,
                   sets=lambda l: l[0] == 'f' and l[2] == H + 'FedInfo::state', env={('f', self.cmd, AM + 'messageAction'): C(self.A[a])})

    def run(self):
        A, B, g = self.A, self.B, Q('getBrokerState')
        src, dst = self.m('source_id'), self.m('dest_id')
        above = lambda q: q.eq(src, self.up) or q.eq(src, self.top) or q.eq(src, self.rid)

        def local(x):
            held, fs = x.st.env.get(Gone.found), [e[2] for e in x.all() if e[0] == 'set']
            tell, err, st, up, rt, add, tm, hm = (does(x, n) for n in ('sendErrorToFederates', 'setErrorState', 'setBrokerState', 'transmit', 'routeMessage', 'addAction', 'processTimeMessage', 'handleMessage'))

            def want(q):
                w = dict(tell=0, err=False, st=False, glob=False, rt=False, add=False, fs=False, tm=False, hm=False)
                end = lambda: q.is_(own(BB, 'terminate_on_error'))
                if q.eq(dst, self.me):
                    if above(q):
                        w.update(tell=1, err=True)
                    else:
                        if held == C(1):
                            k = self.bit(q, 'indicator_flag')
                            w.update(add=k, fs=not k)
                        else:
                            w['hm'] = q.eq(src, own(CC, 'filterFedID'))
                        w['tm'] = q.is_(self.timed)
                    if end():
                        w['glob'] = True
                        if not q.eq(g, B['ERRORED']) and not q.eq(g, B['CONNECTED_ERROR']):
                            w['tell'] += 1
                            w['st'] = True
                    return w
                if q.eq(dst, self.top) and end():
                    w['glob'] = True
                    if not q.eq(g, B['ERRORED']):
                        w.update(tell=1, st=True)
                    return w
                w['rt'] = True
                w['fs'] = q.eq(dst, self.top) and held == C(1)
                return w
            for s, w in ref.cases(x.st, want):
                self.res.count('cases')
                x.need(len(tell) == w['tell'] or w['tell'] == 2 and tell, 'the federates of a core do not hear of an error' if w['tell'] else 'the federates of a core hear of an error that is not for them')
                x.need(all(v[0] == self.m('messageID') for v in tell + err), 'an error is told with another code')
                x.need(len(err) == int(w['err']), 'an error from above is not kept' if w['err'] else 'an error of a federate is kept as one of the core')
                x.need(st == ([(B['ERRORED'],)] if w['st'] else []), 'an error that ends everything leaves the core as it was' if w['st'] else 'a core fails although it goes on, or fails again')
                x.need(len(up) == int(w['glob']) and all(r == self.parent and m[1] == C(A['cmd_global_error']) and m[2] == self.me and m[3] == self.rid and m[5] == self.cmd for r, m in up), 'an error that ends everything is not told to the root' if w['glob'] else 'an error is told to the root that does not end everything')
                x.need(len(rt) == int(w['rt']) and all(m[5] == self.cmd for m, in rt), 'an error is not passed on to the one it is for' if w['rt'] else 'an error is passed on that ends here')
                x.need(len(add) == int(w['add']) and all(m[5] == self.cmd for m, in add), 'a federate does not hear of its error')
                x.need(fs == ([self.OS['ERROR_STATE']] if w['fs'] else []), 'a federate that failed is thought to be well' if w['fs'] else 'a federate is thought to have failed that has not')
                x.need(len(tm) == int(w['tm']) and all(m[5] == self.cmd for m, in tm), 'the time of one that failed is waited for' if w['tm'] else 'an error is told where no time is waited for')
                x.need(len(hm) == int(w['hm']), 'the filters do not hear of their error')
        for a in ('cmd_error', 'cmd_local_error'):
            self.act(a, local)

        def glob(x):
            tell, err, up, pd = (does(x, n) for n in ('sendErrorToFederates', 'setErrorState', 'transmit', 'processDisconnect'))
            for s, w in ref.cases(x.st, lambda q: (q.is_(Q('isConnected')), not (q.eq(src, self.up) or q.eq(src, self.rid)), q.eq(g, B['CONNECTING']))):
                self.res.count('cases')
                x.need(len(err) == 1 and all(v[0] == self.m('messageID') for v in err), 'a global error is not kept with its code')
                x.need(len(tell) == int(w[0]) and all(v[0] == self.m('messageID') for v in tell), 'the federates of a core do not hear of a global error')
                x.need(len(up) == int(w[0] and w[1]) and all(r == self.parent and m[5] == self.cmd and m[1] == C(A['cmd_global_error']) for r, m in up), 'a global error is not told to the one above' if w[0] and w[1] else 'a global error goes back where it came from')
                x.need(len(pd) == int(w[2]), 'a core that fails while it connects goes on connecting')
        self.act('cmd_global_error', glob)


def spread(res, prog):
    """an error reaches every federate that is running"""
    for name in ('sendErrorToFederates', 'broadcastToFederates'):
        h = Core(res, prog, name)

        def each(x):
            if x.c != h.lf:
                return
            acts = does(x, 'addAction', x.effs)
            for s, w in ref.cases(x.st, lambda q: q.is_(('l', ('f', h.e, H + 'FedInfo::fed'))) and q.eq(('l', h.st), h.OS['OPERATING'])):
                res.count('cases')
                x.need(len(acts) == int(w), 'a federate that runs does not hear what all are told, once' if w else 'a federate that is gone is told')
                for m, in acts:
                    if name.startswith('send'):
                        x.need(m[1] == C(h.A['cmd_local_error']) and m[2] == h.me and m[6] == ('l', ('v', h.fn.params[0]['d'], (h.fn.line,))), 'a federate hears of another error')
                    else:
                        x.need(m[5] == h.cmd and h.fed_id(m[3]), 'a federate is told something else')
        h.go(each=each, exit=lambda x: x.need(h.over(x), 'not every federate hears what all are told'), does=('addAction',))


def leave(res, prog, cls):
    """a broker or core that leaves by itself"""
    h = Core(res, prog, 'processDisconnect') if cls == CC else Ends.__new__(Ends)
    if cls == CB:
        Handles.__init__(h, res, prog, CB + 'processDisconnect')
        h.parent = ('l', ('g', H + 'parent_route_id'))
    B, g = h.B, Q('getBrokerState')
    skip = ('l', ('v', h.fn.params[0]['d'], (h.fn.line,)))

    def ex(x):
        sts = [e[3] for e in x.all() if e[0] in ('does', 'twice') and e[1] == 'setBrokerState']
        bd, sd, un, tr, stop = (does(x, n) for n in ('brokerDisconnect', 'sendDisconnect', 'unregister', 'trigger', 'addActionMessage'))

        def want(q):
            if not q.lt(B['CONFIGURED'], g):
                return 'never there', q.is_(skip)
            if not q.lt(g, B['TERMINATING']):
                return ('ends' if cls == CC else 'gone'), q.is_(skip)
            return ('asks' if cls == CC else 'ends'), q.is_(skip)
        for s, (w, sk) in ref.cases(x.st, want):
            res.count('cases')
            fin = w in ('never there', 'ends')
            x.need((B['TERMINATED'] in sts) == fin, 'one that leaves is not gone in the end' if fin else 'one is gone that waits for its acknowledgement, or that was gone')
            x.need((B['TERMINATING'] in sts) == (w == 'asks' or w == 'ends' and cls == CB), 'one that leaves does not end')
            x.need(len(bd) == int(w == 'ends'), 'the connection of one that leaves stays' if w == 'ends' else 'the connection is taken from one that needs it, or has none')
            x.need(len(un) == int(fin and not sk), 'one that leaves is still found' if fin and not sk else 'one cannot be found that is there')
            if cls == CC:
                x.need(len(tr) == int(fin), 'who waits for one that leaves waits for ever' if fin else 'who waits for one that leaves is woken too early')
                x.need(len(sd) == int(w == 'asks') and (self_halts(stop) if w == 'asks' else not stop), 'a core that leaves does not tell its federates and stop' if w == 'asks' else 'a core that is gone goes on to tell so')
    self_halts = h.halts
    spec.check(res, 'C28', prog, h.fn, cls=Gone, quiet=h.QUIET, exit=ex, asks=('getBrokerState',), does=('setBrokerState', 'brokerDisconnect', 'sendDisconnect', 'unregister', 'trigger', 'addActionMessage', 'transmit'))


def run(tier):
    res = harness.Result()
    res.prog = prog = fx.load(['core/CoreBroker.cpp', 'core/BrokerBase.cpp'])
    table(res, prog)
    Left(res, prog).run()
    shout(res, prog)
    forgotten(res, prog)
    Ends(res, prog).run()
    Sent(res, prog, 'processDisconnectCommand').run()
    Cut(res, prog).run()
    Told(res, prog).run()
    Failed(res, prog).run()
    leave(res, prog, CB)
    prog = fx.load(['core/CommonCore.cpp'])
    lowest(res, prog)
    quits(res, prog)
    cut(res, prog)
    CoreTold(res, prog).run()
    CoreFailed(res, prog).run()
    spread(res, prog)
    leave(res, prog, CC)
    return res
