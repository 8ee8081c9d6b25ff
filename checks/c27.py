"""C27: a message goes through the active filters of its endpoint, once each, and time waits while it is away"""
import fx, harness, names, spec, flow, ref, cont, c25
from flow import C, ZERO, THIS
from c18 import smaller
from c22 import contents
from c23 import AM
from c25 import Command, own, size, Q, built, VEC
from c26 import Reply, text, flat, everything, PARENT

H = 'helics::'
FF, FI, FC, BH = H + 'FilterFederate::', H + 'FilterInfo::', H + 'FilterCoordinator::', H + 'BasicHandleInfo::'
GH = H + 'GlobalHandle::'
ID = H + 'GlobalFederateId::gid'
SENDS = {'mSendMessage': 'send', 'mSendMessageMove': 'send', 'mQueueMessage': 'send', 'mQueueMessageMove': 'send', 'mDeliverMessage': 'deliver'}
MARK = ('v', 'marked', ())
AWAY = ('v', 'taken off', ())
WAS = ('v', 'was the least', ())
MIN = ('f', THIS, FF + 'minReturnTime')
LIST = ('f', THIS, FF + 'timeBlockProcesses')
ACT = {}
BIT = {}


def made(v):
    """a field of a message that was made from what a filter gave back"""
    if v[0] == 'op':
        return v[:2] + tuple(made(a) for a in v[2:])
    if v[0] == 'fld' and v[1][0] == 'k' and v[1][1] == H + 'ActionMessage' and len(v[1][2]) == 1:
        f, a = v[2].split('::')[-1], v[1][2][0]
        if a[0] == 'c':
            return a if f == 'messageAction' else PARENT if f in ('source_id', 'dest_id') else ('s', '#none') if f in ('source_handle', 'dest_handle') else ZERO
        if f in ('source_id', 'dest_id'):
            return PARENT
        if f in ('source_handle', 'dest_handle'):
            return ('s', '#none')
        return ACT['cmd_send_message'] if f == 'messageAction' else ZERO if f in ('counter', 'sequenceID') else ('l', ('f', ('d', a), f))
    return built(v)


def whole(v):
    """a value that was wrapped"""
    if v[0] == 'fld' and v[1][0] == 'k' and v[1][1] == H + 'GlobalHandle' and len(v[1][2]) == 2:
        v = v[1][2][0 if v[2].endswith('fed_id') else 1]
    while v[0] == 'k' and len(v[2]) == 1 and v[1] != H + 'ActionMessage' or v[0] == 'fld' and v[2] in (ID, H + 'GlobalBrokerId::gid'):
        v = v[2][0] if v[0] == 'k' else v[1]
    if v[0] == 'k' and v[1].endswith('Handle') and not v[2]:
        return ('s', '#none')
    if v[0] == 'l' and v[1][0] == 'f' and v[1][2].split('::')[-1] == 'gid':
        return ('l', v[1][1])
    return v


F = ('action', 'source', 'dest', 'flags', 'counter', 'payload', 'source_handle', 'dest_handle', 'sequence', 'time', 'id', 'loc')


class Msg:
    def __init__(self, v):
        self.__dict__.update(zip(F, v[1:]))


class Filt(Reply):
    any_start = True
    keyed = ('createMessageFromCommand', 'getFilterInfo', 'getFilterCoordinator')
    owned = ()
    passes = True       # what a filter does to the message is modelled by its contract

    def value(self, eng, st, fr, a):
        if 'helics::ActionMessage' in fr.fn.nodes[a].get('t', ''):
            return self.message(eng, st, eng.lv(st, fr, a))
        v = text(Command.value(self, eng, st, fr, a))
        return whole(v)

    def message(self, eng, st, l):
        r = lambda n: whole(made(eng.read(st, ('f', l, AM + n))))
        p = made(eng.read(st, ('f', l, AM + 'payload')))
        return ('msg',) + tuple(r(n) for n in ('messageAction', 'source_id', 'dest_id', 'flags', 'counter')) + (p,) + tuple(r(n) for n in ('source_handle', 'dest_handle', 'sequenceID', 'actionTime', 'messageID')) + (l,)

    def away(self, eng, st, l):
        pass

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        node = fr.fn.nodes[i]
        args = [a for a in args if a >= 0]
        if s == 'operator()' and obj is not None and obj >= 0:
            o = eng.lv(st, fr, obj)
            k = o is not None and o[0] == 'f' and SENDS.get(o[2].split('::')[-1])
            if k:
                e = ('does', k, THIS, self.value(eng, st, fr, args[0]))
                self.eff(eng, st, e if e not in everything2(st) else ('twice',) + e[1:])
                return [(st, ZERO)]
        if name == AM + 'operator=' and args and 'unique_ptr' in ' '.join(node.get('pt', ())):
            l = self.objloc(eng, st, fr, obj)
            v = whole(eng.ev(st, fr, args[0]))
            keep = {n: eng.read(st, ('f', l, AM + n)) for n in ('source_id', 'source_handle', 'dest_id', 'dest_handle', 'counter', 'sequenceID')}
            eng.write(st, l, ('k', H + 'ActionMessage', (v,)))
            for n, w in keep.items():
                eng.write(st, ('f', l, AM + n), w)
            return [(st, ('L', l))]
        if name == AM + 'operator=' and args:
            l = self.objloc(eng, st, fr, obj if obj is not None and obj >= 0 else args[0])
            v = eng.ev(st, fr, args[-1])
            while v[0] == 'k' and v[1] == H + 'ActionMessage' and len(v[2]) == 1 and v[2][0][0] == 'k':
                v = v[2][0]
            if v[0] == 'k' and v[1] == H + 'ActionMessage' and len(v[2]) == 1:
                eng.write(st, l, v)
                eng.write(st, ('f', l, AM + 'messageAction'), v[2][0] if v[2][0][0] == 'c' else ACT['cmd_send_message'])
                return [(st, ('L', l))]
        if (node.get('cls') == 'std::pair' or s == 'make_pair') and len(args) == 2 and 'ActionMessage' in fr.fn.nodes[args[0]].get('t', ''):
            return [(st, ('k', 'std::pair', (('L', eng.lv(st, fr, args[0])), eng.ev(st, fr, args[1]))))]
        if name == H + 'HandleManager::getInterfaceHandle':
            v = self.value(eng, st, fr, args[0])
            self.eff(eng, st, ('ask', 'endpoint', v))
            return [(st, Q('endpoint', v))]
        if s == 'createMessageFromCommand':
            return [(st, Q(s, self.message(eng, st, eng.lv(st, fr, args[0]))))]
        if name == FF + 'getFilterCoordinator':
            return [(st, Q('coordinator', self.value(eng, st, fr, args[0])))]
        if name == FF + 'getFilterInfo':
            v = tuple(self.value(eng, st, fr, a) for a in args)
            return [(st, Q('filter', *v))]
        if s in ('process', 'processVector') and name.startswith(H + 'FilterOperator::'):
            o, v = self.objloc(eng, st, fr, obj), whole(eng.ev(st, fr, args[0]))
            e = ('does', s, o, v)
            self.eff(eng, st, e if e not in everything2(st) else ('twice',) + e[1:])
            return [(st, Q(s, ('l', o), v))]
        if name == FF + 'executeFilter' and self.passes:
            l, f = eng.lv(st, fr, args[0]), self.value(eng, st, fr, args[1])
            e = ('does', s, THIS, self.message(eng, st, l), f)
            self.eff(eng, st, e if e not in everything2(st) else ('twice',) + e[1:])
            out = []
            for k in ('on', 'away', 'dropped'):
                s2 = st.copy()
                s2._k = None
                a = eng.read(s2, ('f', l, AM + 'messageAction'))
                if a[0] != 'c':
                    flow.assume_eq(s2, a, ACT['cmd_ignore'], False)     # what is processed is a message
                if k == 'dropped':
                    eng.write(s2, l, ('k', H + 'ActionMessage', (ACT['cmd_ignore'],)))
                    eng.write(s2, ('f', l, AM + 'messageAction'), ACT['cmd_ignore'])
                elif k == 'away':
                    eng.write(s2, ('f', l, AM + 'dest_id'), ('l', ('f', ('d', f), FI + 'core_id')))
                    eng.write(s2, ('f', l, AM + 'dest_handle'), ('l', ('f', ('d', f), FI + 'handle')))
                    s2.env[AWAY] = f
                else:
                    # a filter of this core makes a new message
                    s2.env[MARK] = s2.env.get(MARK, ZERO)
                    for n, w in (('source_id', 'parent'), ('source_handle', 'none'), ('counter', 'c'), ('sequenceID', 's')):
                        eng.write(s2, ('f', l, AM + n), ('call', 'lost', (('s', n),), 0))
                    eng.write(s2, ('f', l, AM + 'payload'), ('call', 'filtered', (), 0))
                out.append((s2, ('k', 'std::pair', (('L', l), C(int(k == 'on'))))))
            return out
        if s in ('generateProcessMarker', 'generateDestProcessMarker') and s in self.does:
            st.env[('v', 'generated', ())] = C(1)
            st._k = None
        if s in ('acceptProcessReturn', 'acceptDestProcessReturn') and s in self.does:
            self.eff(eng, st, ('accepted', ('v', 'generated', ()) in st.env))
        if s == 'erase' and obj is not None and obj >= 0 and self.objloc(eng, st, fr, obj) == LIST:
            t = ('l', ('f', cont.el(LIST), 'std::pair::second'))
            k = flow.known_eq(st, t, eng.read(st, MIN))
            st.env[WAS] = C(0 if k is False else 1)
            st._k = None
        return super().called(eng, st, fr, i, name, obj, args)


def everything2(st):
    return list(st.rs[0]) + list(st.rs[1])


def does(x, n, effs=None):
    return c25.does(x, n, everything(x) if effs is None else effs)


def some(x, *k):
    return [Msg(v[0]) for n in k for v in does(x, n)]


def elsewhere(st, r):
    """the filter gave the message another target"""
    return any(k[0] == 'eq' and v is False and ('l', ('f', ('d', r), H + 'Message::dest')) in k[1:] for k, v in st.facts.items())


def local(q, c):
    """whether the filter belongs to this core, as it is asked for anywhere on the path"""
    me = own(FF, 'mFedID')
    ends = (me, ('l', ('f', me[1], ID)))
    heads = (c, ('l', ('f', c[1], H + 'GlobalBrokerId::gid')))
    for a in heads:
        for b in ends:
            t = flow.known_eq(q.st, a, b)
            if t is not None:
                return t
    return q.eq(heads[0], ends[1])


class Flow:
    """one function of the filter federate"""

    def __init__(self, res, prog):
        self.res, self.prog = res, prog

    def check(self, name, ex, each=None, res=None, **kw):
        self.fn = fn = self.prog.fn(FF + name)
        self.p = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
        kw.setdefault('asks', ())
        kw.setdefault('does', ('generateProcessMarker', 'acceptProcessReturn', 'generateDestProcessMarker', 'acceptDestProcessReturn', 'addTimeReturn', 'clearTimeReturn', 'updateMessageTime', 'runCloningDestinationFilters'))
        kw.setdefault('cls', Filt)
        r = spec.check(self.res if res is None else res, 'C27', self.prog, fn, exit=ex, each=each, **kw)

    # the time that is kept back
    def marks(self):
        me = own(FF, 'mFedID')
        for dest in (False, True):
            n = 'Dest' if dest else ''
            lst = ('f', THIS, FF + 'ongoing%sFilterProcesses' % n)

            def ends(x):
                fid, pid = self.p[0], self.p[1]
                ids = ('l', ('f', fid[1], ID))
                s = [m for m in {e[1] for e in x.muts()} if m[-1] == 'std::pair::second' and lst in flat(m)]
                x.need(len(s) == 1 and (ids in flat(s[0]) or fid in flat(s[0])), 'what is away is noted for another federate')
                sent = some(x, 'send')
                return fid, pid, s[0], sent

            def right(x, m, act, fid, pid):
                x.need(m.action == ACT[act], 'the federate is told something else than to wait, or to go on')
                want = (fid, me) if dest else (own(FF, 'mCoreID'), fid)
                x.need((whole(m.dest), whole(m.source)) == want, 'another than the federate whose message is away is told')

            def out(x):
                fid, pid, s, sent = ends(x)
                ins = [e for e in x.muts(s) if e[2] in ('insert', 'emplace')]
                x.need(len(x.muts(s)) == 1 and len(ins) == 1 and pid in flat(ins[0]), 'a message that goes away is not noted once')
                x.need(does(x, 'addTimeReturn') == [(pid, self.p[2])], 'the time of a message that goes away is not kept')
                e = x.eq(size(s), ZERO)
                x.need(e is not None and len(sent) == int(e), 'the federate is not told to wait exactly when its first message goes away')
                for m in sent:
                    right(x, m, 'cmd_time_block', fid, pid)

            def back(x):
                fid, pid, s, sent = ends(x)
                era = [e for e in x.muts(s) if e[2] in ('erase', 'extract')]
                x.need(len(x.muts(s)) == 1 and len(era) == 1 and pid in flat(era[0]), 'a message that came back is not taken off, or others are')
                x.need(does(x, 'clearTimeReturn') == [(pid,)], 'the time of a message that came back is kept on')
                known = [k == ZERO if f[0] == '=' else k for f, k in x.st.facts.items() if f[0] in ('eq', '=') and f[1][0] == 'p' and f[1][2][0] == 'h' and s in flat(f[1]) and (f[0] == '=' or f[2] == ZERO)]
                x.need(known and all(k is known[0] for k in known) and len(sent) == int(known[0]), 'the federate is not told to go on exactly when the last of its messages is back')
                for m in sent:
                    right(x, m, 'cmd_time_unblock', fid, pid)
            self.check('generate%sProcessMarker' % n, out)
            self.check('accept%sProcessReturn' % n, back)

    def times(self):
        now = lambda x: x.val(MIN)
        told = lambda x: [v[0] for v in does(x, 'updateMessageTime')]

        def add(x):
            a = [e for e in x.muts(LIST)]
            x.need(len(a) == 1 and a[0][2] in ('emplace_back', 'push_back', 'emplace_front', 'push_front') and all(p in flat(a[0]) for p in self.p), 'a message that goes away is not noted with its time')
            lt = x.lt(self.p[1], ('l', MIN))
            x.need(lt is not None, 'whether the new time is the least is not looked at')
            x.need((now(x) == self.p[1]) if lt else (now(x) == ('l', MIN)), 'the least time of what is away is not kept')
            x.need(told(x) == [self.p[1]] if lt else told(x) in ([], [('l', MIN)]), 'the least time of what is away is not told on')
        self.check('addTimeReturn', add)
        first, second = (('l', ('f', cont.el(LIST), 'std::pair::' + n)) for n in ('first', 'second'))

        def each(x):
            x.need(x.c == LIST, 'another list than that of what is away is looked at')
            era = [e for e in x.effs if e[0] == 'mut']
            sets = [e for e in x.effs if e[0] == 'set' and e[3] != ('s', 'same')]
            if era:
                x.need(len(era) == 1 and x.eq(first, self.p[0]) is True, 'another message is taken off the list')
                return
            if WAS not in x.st.env:
                x.need(x.eq(first, self.p[0]) is False, 'a message that came back stays on the list')
                x.need(not sets, 'the least time is changed while the message is searched')
                return
            m = x.st.env.get(MIN)
            x.need(x.st.env[WAS] == ZERO or m is not None, 'the least time is looked for among those that are larger than the old one')
            if sets:
                x.need(all(e[2] == second and e[3] == C(1) for e in sets), 'the least time is replaced by one that is not smaller')
            else:
                x.need(x.lt(second, now(x)) is False, 'the least time of what is away is passed over')

        def ex(x):
            w = x.st.env.get(WAS)
            if w is None:
                x.need(LIST in x.done() or x.eq(size(LIST), ZERO), 'not everything that is away is looked through')
            if w != C(1):
                x.need(now(x) == ('l', MIN) and told(x) in ([], [('l', MIN)]), 'the least time changes although it is still away')
                return
            x.need(LIST in x.done(), 'the least of what is still away is not looked for')
            n = now(x)
            x.need(n == ('l', ('g', H + 'cBigTime')) or 'pair::second' in str(n) and LIST in flat(n), 'the least time is something else than the least of what is away, or none')
            x.need(told(x) == [n], 'the least time of what is away is not told on')
        self.check('clearTimeReturn', ex, each, sets=lambda l: l == MIN, atset=smaller)

    # filters
    def execute(self):
        class One(Filt):
            passes = False

        def parts():
            f = ('d', self.p[1])
            return lambda n: ('l', ('f', f, FI + n))

        def outcome(x):
            r = x.ret
            if r[0] != 'k' or len(r[2]) != 2:
                raise fx.Broken('executeFilter does not return the message and whether to go on')
            return r[2][1]

        def ex(x):
            f = parts()
            c = Msg(x.rule.message(x.eng, x.st, self.p[0][1]))
            m = lambda n: ('l', ('f', self.p[0][1], AM + n))
            fun = ('d', f('filterOp'))
            sent, dlv = some(x, 'send'), some(x, 'deliver')
            one, many = does(x, 'process'), does(x, 'processVector')
            same = lambda: c.action == m('messageAction') and c.payload == m('payload') and c.dest == m('dest_id')

            def want(q):
                clone = q.is_(f('cloning'))
                if not local(q, f('core_id')):
                    return 'copy' if clone else 'away'
                if not q.is_(f('filterOp')):
                    return 'none'
                return 'clones' if clone else 'here'
            go = x.truth(outcome(x))
            for s, w in ref.cases(x.st, want):
                self.res.count('cases')
                x.need(go is (w not in ('away',)) or w == 'here', 'a message goes on although it is away, or stays although it is not')
                x.need(len(one) == (w == 'here') and len(many) == (w == 'clones'), 'a filter is not applied once, or one of another core or without operation is')
                x.need(not dlv and len(sent) == (w == 'copy'), 'something is sent that the filter did not ask for, or the copy for a filter is not')
                if w == 'here':
                    r = Q('process', ('l', fun), one[0][0] if one else ZERO)
                    null = x.truth(r)
                    x.need(self.p[0][1] in flat(one[0][0]) if one else False, 'another message is given to the filter')
                    x.need(null is not None, 'whether the filter dropped the message is not looked at')
                    if null is False:
                        x.need(go is False and c.action == ACT['cmd_ignore'], 'a message that was dropped by a filter goes on')
                    else:
                        x.need(go is True and r in flat(c.payload), 'what a filter made of a message is not what goes on')
                    continue
                x.need(c.payload == m('payload') and c.action == m('messageAction'), 'a message is changed without a filter, or by a copy')
                if w == 'away':
                    x.need(whole(c.dest) == whole(f('core_id')) and c.dest_handle == f('handle'), 'a message is sent to another than the filter')
                else:
                    x.need(c.dest == m('dest_id'), 'a message is sent to another place than its own')
                if w == 'clones':
                    x.need(any('new' in str(d) or 'processVector' in str(d) for d in x.done()), 'not every copy a filter made is delivered')
                for t in sent:
                    self.copy(x, t, f, self.p[0][1])
        self.check('executeFilter', ex, self.copies, cls=One)

    def copy(self, x, t, f, l):
        x.need(t.action == ACT['cmd_send_for_filter'] and t.payload == ('l', ('f', l, AM + 'payload')), 'the copy for a filter of another core is not the message')
        x.need(whole(t.dest) == whole(f('core_id')) and t.dest_handle == f('handle'), 'the copy for a filter goes to another')

    def copies(self, x):
        """each of the messages that a filter made leaves once"""
        e = ('l', cont.el(x.c))
        dlv, snd = does(x, 'deliver', x.effs), does(x, 'send', x.effs)
        t = x.truth(e)
        x.need(t is not None and len(dlv) + len(snd) == int(t), 'a message that a filter made is not delivered once')
        for v in dlv + snd:
            m = Msg(v[0])
            x.need(e in flat(m.payload) or cont.el(x.c) in flat(m.payload), 'something else than what the filter made is delivered')
            x.need(m.action == ACT['cmd_send_message'], 'what a filter made is not delivered as a message')
        for v in dlv:
            x.need(Msg(v[0]).dest == PARENT, 'what a filter made is delivered to another than it names')

    def active(self, x, e):
        """whether the filter at the element is open"""
        b = ('l', ('f', ('d', ('l', e)), FI + 'flags'))
        return lambda q: not q.bit(b, BIT['disconnected_flag'])

    def turn(self, x):
        """one filter in the order of the filters"""
        e = cont.el(x.c)
        done = does(x, 'executeFilter', x.effs)
        act = self.active(x, e)
        for s, a in ref.cases(x.st, act):
            self.res.count('cases')
            x.need(len(done) == int(a), 'a filter is not applied once' if a else 'a filter that was closed is applied')
        for v in done:
            x.need(v[1] == ('l', e), 'the filters are not applied in their order')

    def onward(self, x, f, m, handle, fid, lst):
        """the message m goes to the filter f and comes back if there are others after it"""
        A = ACT
        gen = does(x, 'generateProcessMarker')
        q = [v for k, v in x.st.facts.items() if 'before the last' in str(k)]
        last = None
        for k, v in x.st.facts.items():
            t = k[1] if k[0] in ('eq', '=') else None
            if t and t[0] == 'call' and t[1] == 'before the last':
                last = (v == ZERO) if k[0] == '=' else v if k[2] == ZERO else None
        x.need(m.action in (A['cmd_send_for_filter'], A['cmd_send_for_filter_return']), 'a message for a filter of another core is not sent as one')
        ret = m.action == A['cmd_send_for_filter_return']
        x.need(ret or last is True, 'a message does not come back although there are other filters after this one')
        x.need(whole(m.dest) == whole(('l', ('f', ('d', f), FI + 'core_id'))), 'a message is sent to another than the filter')
        if not ret:
            x.need(not gen, 'time waits for a message that does not come back')
            return
        x.need(m.counter[0] == 'idx' and ('idxof',) + m.counter[1:] in x.st.env, 'the place of the filter in the order is not kept')
        x.need(len(gen) == 1, 'time does not wait for a message that is away')
        for g in gen:
            x.need(g[1] == m.sequence and fresh(m.sequence), 'a message that is away has no number of its own')
            x.need(g[2] == m.time, 'time does not wait for a message that is away')
            x.need(whole(g[0]) == whole(fid), 'another federate than the one whose message is away waits')
        x.need((whole(m.source), m.source_handle) == (whole(('l', ('f', ('f', handle, BH + 'handle'), GH + 'fed_id'))), ('l', ('f', ('f', handle, BH + 'handle'), GH + 'handle'))) or m.source_handle == ('l', ('f', ('f', handle, BH + 'handle'), GH + 'handle')), 'a message that is away does not find its way back')

    def source(self):
        def ex(x):
            c = Msg(x.rule.message(x.eng, x.st, self.p[0][1]))
            h = ('d', self.p[1])
            fid = ('l', ('f', ('f', h, BH + 'handle'), GH + 'fed_id'))
            x.need(not some(x, 'send', 'deliver'), 'a message leaves before its filters are done')
            lst = [d for d in x.done() if 'sourceFilters' in str(d)]
            f = x.st.env.get(AWAY)
            if f is not None:
                x.need('sourceFilters' in str(f), 'a message goes to something else than a filter of its endpoint')
                self.onward(x, f, c, h, fid, None)
                return
            x.need(not does(x, 'generateProcessMarker'), 'time waits for a message that is not away')
            if c.action == ACT['cmd_ignore']:
                return
            x.need(c.action == ('l', ('f', self.p[0][1], AM + 'messageAction')), 'a message is sent as something else')
            co = Q('coordinator', ('l', ('f', ('f', h, BH + 'handle'), GH + 'handle')))
            no = x.truth(co) is False or x.truth(('l', ('f', ('d', co), FC + 'hasSourceFilters'))) is False
            x.need(no or lst and all(cont.base(d) == d for d in lst), 'a message leaves although not all its filters are done')
        self.check('processMessage', ex, self.turn)

    def returned(self):
        def ex(x):
            c0 = lambda n: ('l', ('f', self.p[0][1], AM + n))
            hq = Q('endpoint', c0('dest_handle'))
            h = ('d', hq)
            fid = ('l', ('f', ('f', h, BH + 'handle'), GH + 'fed_id'))
            acc, dlv, snd = does(x, 'acceptProcessReturn'), some(x, 'deliver'), some(x, 'send')
            here = x.st.env.get(('v', 'held', ()))
            x.need(not snd, 'a message that came back is sent past its target')
            if x.truth(hq) is False or here != C(1):
                x.need(x.truth(hq) is False or here == ZERO, 'whether a message that comes back was away is not looked at')
                x.need(not acc and not dlv and not does(x, 'executeFilter'), 'a message that was not away is taken as one that came back')
                return
            x.need(len(acc) == 1 and whole(acc[0][0]) == whole(fid) and acc[0][1] == c0('sequenceID'), 'time goes on waiting for a message that came back')
            null = x.eq(c0('messageAction'), ACT['cmd_null_message'])
            if null is not False:
                x.need(null is True and not dlv and not does(x, 'executeFilter') and not does(x, 'generateProcessMarker'), 'a message that was dropped on the way is delivered')
                return
            c = Msg(x.rule.message(x.eng, x.st, self.p[0][1]))
            f = x.st.env.get(AWAY)
            gen = does(x, 'generateProcessMarker')
            x.need(len(dlv) == (0 if c.action == ACT['cmd_ignore'] else 1), 'a message that came back is not delivered once, or one that was dropped is')
            if f is not None:
                for m in dlv:
                    self.onward(x, f, m, h, fid, None)
                x.need(not gen or ('accepted', True) in x.all(), 'time goes on for a moment between two filters')
                return
            x.need(not gen, 'time waits for a message that is not away')
            if c.action == ACT['cmd_ignore']:
                return
            for m in dlv:
                x.need(m.action == ACT['cmd_send_message'] and m.dest == PARENT, 'a message that came back is not sent to its target')
            want = ('s', repr(('op', '+', c0('counter'), C(1))))
            lst = [d for d in x.done() if 'sourceFilters' in str(d)]
            x.need(lst and all(d[0] == 'from' and d[2] == want for d in lst), 'the filters after the one it came back from are not all applied to a message')

        class Held(Filt):
            def called(self, eng, st, fr, i, name, obj, args):
                s = name.split('::')[-1]
                if s in ('find', 'contains', 'count') and obj is not None and obj >= 0 and len(args) == 1 and 'std::set' in name + fr.fn.nodes[obj].get('t', ''):
                    o = self.objloc(eng, st, fr, obj)
                    out = []
                    for s2, t in self.split(st, Q('held', ('l', o), self.value(eng, st, fr, args[0]))):
                        s2 = s2.copy()
                        s2._k = None
                        mine = 'FilterProcesses' in str(o) and self.value(eng, s2, fr, args[0]) == ('l', ('f', self.Ploc(0), AM + 'sequenceID'))
                        s2.env[('v', 'held', ())] = C(int(t)) if mine else C(2)
                        out.append((s2, (('it', o, ('s', 'found')) if t else ('end', o)) if s == 'find' else C(int(t))))
                    return out
                return super().called(eng, st, fr, i, name, obj, args)
        self.Held = Held
        self.check('processFilterReturn', ex, self.turn, cls=Held)

        def dest(x):
            c0 = lambda n: ('l', ('f', self.p[0][1], AM + n))
            hq = Q('endpoint', c0('dest_handle'))
            h = ('d', hq)
            fid = ('l', ('f', ('f', h, BH + 'handle'), GH + 'fed_id'))
            acc, dlv, snd, cl = does(x, 'acceptDestProcessReturn'), some(x, 'deliver'), some(x, 'send'), does(x, 'runCloningDestinationFilters')
            here = x.st.env.get(('v', 'held', ()))
            x.need(not dlv, 'a message that came back from the filter of its target goes through it again')
            if x.truth(hq) is False or here != C(1):
                x.need(x.truth(hq) is False or here == ZERO, 'whether a message that comes back was away is not looked at')
                x.need(not acc and not snd and not cl, 'a message that was not away is taken as one that came back')
                return
            x.need(len(acc) == 1 and whole(acc[0][0]) == whole(fid) and acc[0][1] == c0('sequenceID'), 'time goes on waiting for a message that came back')
            null = x.eq(c0('messageAction'), ACT['cmd_null_dest_message'])
            x.need(null is not None and len(snd) == int(not null), 'a message that came back is not delivered once, or one that was dropped is')
            for m in snd:
                x.need(m.action == ACT['cmd_send_message'] and m.payload == c0('payload') and m.dest == c0('dest_id') and m.dest_handle == c0('dest_handle'), 'a message that came back is not delivered as it is')
            co = ('d', Q('coordinator', ('l', ('f', ('f', h, BH + 'handle'), GH + 'handle'))))
            if null:
                x.need(not cl, 'a message that was dropped is copied')
            else:
                e = x.eq(size(('f', co, FC + 'cloningDestFilters')), ZERO)
                x.need(len(cl) == 1 and e is not True or e is True and len(cl) <= 1, 'a message that came back is not copied to the cloning filters once')
        self.check('processDestFilterReturn', dest, cls=Held)

    def target(self):
        def ex(x):
            l = self.p[0][1]
            c0 = lambda n: ('l', ('f', l, AM + n))
            c = Msg(x.rule.message(x.eng, x.st, l))
            h = ('d', self.p[1])
            H1 = lambda n: ('l', ('f', ('f', h, BH + 'handle'), GH + n))
            coq = Q('coordinator', H1('handle'))
            co = ('d', coq)
            fq = ('l', ('f', co, FC + 'destFilter'))
            f = lambda n: ('l', ('f', ('d', fq), FI + n))
            fun = ('d', f('filterOp'))
            one, cl, gen = does(x, 'process'), does(x, 'runCloningDestinationFilters'), does(x, 'generateDestProcessMarker')
            snd, dlv = some(x, 'send'), some(x, 'deliver')
            r = Q('process', ('l', fun), one[0][0]) if one else None

            def want(q):
                if not q.is_(coq):
                    return 'plain'
                if not q.is_(fq) or q.bit(f('flags'), BIT['disconnected_flag']):
                    return 'clones'
                if not local(q, f('core_id')):
                    return 'away'
                if not q.is_(f('filterOp')):
                    return 'clones'
                return 'here'
            for s, w in ref.cases(x.st, want):
                self.res.count('cases')
                t = x.truth(x.ret)
                x.need(t is not None, 'whether the message is to be delivered is not told')
                x.need(len(one) == (w == 'here'), 'the filter of the target is not applied once, or one that is closed or of another core is')
                x.need(len(gen) == (w == 'away') and len(snd) == (w == 'away'), 'a message is not sent to the filter of its target, or time does not wait for it')
                if w == 'away':
                    x.need(t is False and not cl and not dlv, 'a message is delivered or copied before the filter of its target was applied')
                    for m in snd:
                        x.need(m.action == ACT['cmd_send_for_dest_filter_return'], 'a message that goes to the filter of its target does not come back')
                        x.need(whole(m.dest) == whole(f('core_id')) and m.dest_handle == f('handle'), 'a message is sent to another than the filter')
                        x.need((whole(m.source), m.source_handle) == (whole(H1('fed_id')), H1('handle')), 'a message that is away does not find its way back')
                        x.need(m.payload == c0('payload'), 'something else than the message is sent to the filter')
                        x.need(gen and gen[0][1] == m.sequence and fresh(m.sequence), 'a message that is away has no number of its own')
                    for g in gen:
                        x.need(whole(g[0]) == whole(H1('fed_id')) and g[2] == c0('actionTime'), 'another federate than the one whose message is away waits')
                    continue
                if w == 'here':
                    null = x.truth(r) if r else False
                    x.need(null is not None, 'whether the filter dropped the message is not looked at')
                    if null is False:
                        x.need(t is False and not cl and not dlv, 'a message that was dropped is delivered or copied')
                        continue
                    x.need(r in flat(c.payload), 'what the filter of the target made of a message is not what is delivered')
                    x.need(t is True or len(dlv) == 1, 'a message is neither delivered nor sent elsewhere')
                    if t is False:
                        x.need(not cl, 'a message that goes elsewhere is copied')
                        x.need(elsewhere(x.st, r), 'a message that keeps its target is not delivered')
                        for m in dlv:
                            x.need(r in flat(m.payload) and m.dest == PARENT and m.action == ACT['cmd_send_message'], 'a message that goes elsewhere is sent to its old target')
                        continue
                    x.need(not elsewhere(x.st, r), 'a message with another target is delivered to the old one')
                x.need(t is True and not dlv, 'a message that has passed the filters of its target is not delivered')
                x.need(c.action == c0('messageAction') or w == 'here', 'a message is delivered as something else')
                if w == 'plain':
                    continue
                e = flow.known_eq(s, size(('f', co, FC + 'cloningDestFilters')), ZERO)
                x.need(len(cl) == 1 and e is not True or e is True and len(cl) <= 1, 'a message is not copied to the cloning filters of its target once')
        self.check('destinationProcessMessage', ex)

    def cloned(self):
        def each(x):
            if 'cloningDestFilters' not in str(x.c):
                self.copies(x)
                return
            e = cont.el(x.c)
            f = lambda n: ('l', ('f', ('d', ('l', e)), FI + n))
            snd, many = [Msg(v[0]) for v in does(x, 'send', x.effs)], does(x, 'processVector', x.effs)

            def want(q):
                if q.bit(f('flags'), BIT['disconnected_flag']):
                    return 'closed'
                if not local(q, f('core_id')):
                    return 'copy'
                return 'here'
            for s, w in ref.cases(x.st, want):
                self.res.count('cases')
                outer = [m for m in snd if m.payload == ('l', ('f', self.p[2][1], AM + 'payload'))]
                x.need(len(outer) == (w == 'copy'), 'the copy for a cloning filter of another core is not sent once')
                if w == 'here':
                    none = flow.truth(s, Q('filter', own(FF, 'mFedID'), f('handle'))) is False
                    op = ('l', ('f', ('d', Q('filter', own(FF, 'mFedID'), f('handle'))), FI + 'filterOp'))
                    none = none or flow.truth(s, op) is False or flow.truth(s, f('filterOp')) is False
                    x.need(len(many) == 1 or none and not many, 'a cloning filter of this core is not applied once')
                else:
                    x.need(not many, 'a filter that is closed or of another core is applied')
                for m in outer:
                    self.copy(x, m, f, self.p[2][1])

        def ex(x):
            x.need(any('cloningDestFilters' in str(d) for d in x.done()), 'not all cloning filters get their copy')
        self.check('runCloningDestinationFilters', ex, each)

    def asked(self):
        """a filter of this core is asked to process a message of another"""
        def ex(x):
            l = self.p[0][1]
            c0 = lambda n: ('l', ('f', l, AM + n))
            me = own(FF, 'mFedID')
            fqs = [t for k in list(x.st.facts) for t in flat(k) if t and t[0] == 'call' and len(t) == 4 and t[1] == 'filter']
            snd, dlv = some(x, 'send'), some(x, 'deliver')
            one, many = does(x, 'process'), does(x, 'processVector')
            mine = x.eq(c0('dest_id'), me)
            mine = x.eq(('l', ('f', c0('dest_id')[1], 'gid')), ('l', ('f', me[1], 'gid'))) if mine is None else mine
            if mine is not True and not fqs:
                x.need(len(snd) == 1 and not dlv and snd[0].payload == c0('payload') and snd[0].action == c0('messageAction') and snd[0].dest == c0('dest_id'), 'a message for another is not passed on as it is')
                return
            x.need(not snd, 'a message for a filter of this core is passed on')
            fq = fqs[0]
            if x.truth(fq) is False:
                x.need(not dlv, 'a message is delivered by a filter that is not known')
                return
            f = lambda n: ('l', ('f', ('d', fq), FI + n))
            fun = ('d', f('filterOp'))
            A = ACT

            def want(q):
                on = not q.bit(f('flags'), BIT['disconnected_flag']) and q.is_(f('filterOp'))
                dst = q.eq(c0('messageAction'), A['cmd_send_for_dest_filter_return'])
                ret = dst or q.eq(c0('messageAction'), A['cmd_send_for_filter_return'])
                return on, q.is_(f('cloning')), 'dest' if dst else 'back' if ret else 'on'
            for s, (on, clone, how) in ref.cases(x.st, want):
                self.res.count('cases')
                x.need(len(many) == int(on and clone) and len(one) == int(on and not clone), 'a filter is not applied once, or one that is closed is')
                if clone and how == 'on':
                    x.need(not [m for m in dlv if on or True], 'the copy for a cloning filter is delivered as a message')
                    if on:
                        x.need(any('processVector' in str(d) or 'new' in str(d) for d in x.done()), 'not every copy a filter made is delivered')
                    continue
                if clone and on:
                    continue
                r = Q('process', ('l', fun), one[0][0]) if one else None
                null = (flow.truth(s, r) if r else False) if on else True
                x.need(null is not None, 'whether the filter dropped the message is not looked at')
                back = [m for m in dlv if m.dest != PARENT]
                there = [m for m in dlv if m.dest == PARENT]
                content = lambda m: r in flat(m.payload) if on else m.payload == c0('payload')
                if how == 'on':
                    x.need(not back and len(there) == int(null), 'what comes from the last filter is not sent to its target once, or something dropped is')
                    for m in there:
                        x.need(content(m) and m.action == A['cmd_send_message'], 'what comes from the last filter is not sent as the message')
                    continue
                else_ = on and null and how == 'dest' and elsewhere(s, r)
                x.need(len(back) == 1 and len(there) == int(else_), 'a message is not answered by the filter once')
                for m in there:
                    x.need(content(m) and m.action == A['cmd_send_message'], 'what a filter sends elsewhere is not the message')
                for m in back:
                    d = how == 'dest'
                    gone = null is False or else_
                    x.need(m.action == A[('cmd_null_dest_message' if d else 'cmd_null_message') if gone else ('cmd_dest_filter_result' if d else 'cmd_filter_result')], 'what became of the message is not what is told back')
                    x.need(gone or content(m), 'something else than what the filter made is sent back')
                    x.need((whole(m.dest), m.dest_handle) == (c0('source_id'), c0('source_handle')), 'what a filter made is sent back to another')
                    x.need((m.counter, m.sequence) == (c0('counter'), c0('sequenceID')), 'what comes back is not known as the message that went away')
        self.check('processMessageFilter', ex, self.copies)


    def closed(self):
        """a filter that is closed is closed wherever it is listed"""
        fn = self.fn = self.prog.fn(FC + 'closeFilter')
        g = ('v', fn.params[0]['d'], (fn.line,))
        fid, hid = ('l', ('f', ('f', g, GH + 'fed_id'), ID)), ('l', ('f', g, GH + 'handle'))

        def same(x, p, effs):
            f = lambda n: ('l', ('f', ('d', p), FI + n))
            set_ = [e for e in effs if e[0] == 'set' and e[1] == f('flags')[1]]

            def want(q):
                a = q.eq(f('core_id'), fid)
                return a and q.eq(f('handle'), hid)
            for st, w in ref.cases(x.st, want):
                self.res.count('cases')
                x.need(len(set_) == int(w), 'a filter that is closed stays open' if w else 'another filter than the one that is closed is closed')
            for e in set_:
                x.need(e[2] in (('op', '|', f('flags'), C(1 << BIT['disconnected_flag'])), ('op', '|', C(1 << BIT['disconnected_flag']), f('flags'))), 'a filter is not closed but marked otherwise')

        def each(x):
            same(x, ('l', cont.el(x.c)), x.effs)

        def ex(x):
            for n in ('allSourceFilters', 'cloningDestFilters'):
                x.need(('f', THIS, FC + n) in x.done(), 'not all filters of an endpoint are looked through when one is closed')
            d = ('l', ('f', THIS, FC + 'destFilter'))
            if x.truth(d) is False:
                return
            x.need(x.truth(d) is True, 'the filter of the target is not looked at when a filter is closed')
            same(x, d, everything(x))
        spec.check(self.res, 'C27', self.prog, fn, exit=ex, each=each, cls=Filt, sets=lambda l: l[0] == 'f' and l[2] == FI + 'flags')

    def listed(self):
        """a filter is put on the list of an endpoint once"""
        def ex(x):
            l = self.p[0][1]
            c0 = lambda n: ('l', ('f', l, AM + n))
            coq = Q('coordinator', c0('dest_handle'))
            co = ('d', coq)
            src = ('l', ('f', co, FC + 'allSourceFilters'))[1]
            cln, dst = ('f', co, FC + 'cloningDestFilters'), ('f', co, FC + 'destFilter')
            puts = [e for e in x.muts() if e[1] in (src, cln)]
            errs = [m for m in some(x, 'send') if m.action == ACT['cmd_error']]
            put = dst if dst in x.st.env and x.val(dst) != ('l', dst) else None
            made_ = [('call', 'createFilter', (), 0)] if does(x, 'createFilter') else []
            x.need(len(does(x, 'createFilter')) <= 1, 'a filter is made more than once')
            known = Q('filter', ('k', H + 'GlobalHandle', (c0('source_id'), c0('source_handle'))))

            def want(q):
                if not q.is_(coq):
                    return None
                to = q.bit(c0('flags'), BIT['destination_target'])
                return 'source' if not to else 'clone' if q.bit(c0('flags'), BIT['clone_flag']) else 'dest'
            for st, w in ref.cases(x.st, want):
                self.res.count('cases')
                if w is None:
                    continue
                lst = {'source': src, 'clone': cln, 'dest': dst}[w]
                n = len([e for e in puts if e[1] == lst]) if w != 'dest' else int(put is not None)
                x.need(len(puts) == (n if w != 'dest' else 0) and (w == 'dest' or put is None), 'a filter is put on another list than the one it is for')
                there = lambda v, p: any(k[0] == 'eq' and val is v and p in flat(k) and (FI + 'core_id' in str(k) or FI + 'handle' in str(k)) for k, val in x.st.facts.items())
                el = ('l', dst) if w == 'dest' else ('l', cont.el(lst))
                if not n:
                    x.need(errs or any(flow.known_eq(st, ('l', ('f', ('d', el), FI + 'core_id')), v) is True for v in (c0('source_id'), ('l', ('f', c0('source_id')[1], ID)))) and flow.known_eq(st, ('l', ('f', ('d', el), FI + 'handle')), c0('source_handle')) is True, 'a filter is not put on the list of its endpoint')
                    continue
                x.need(not errs and n == 1, 'a filter is put on the list twice, or although it was refused')
                x.need(w == 'dest' or lst in x.done(), 'a filter that is on the list already is put there again')
                if w == 'dest':
                    x.need(flow.truth(st, ('l', dst)) is False or there(False, el), 'the filter of a target is put there again')
                v = [whole(e[3][0]) for e in puts] if w != 'dest' else [whole(x.val(dst))]
                x.need(v == [known] and x.truth(known) is True or v == made_ and x.truth(known) is False, 'another filter is put on the list of an endpoint')
                h = ('f', co, FC + ('hasSourceFilters' if w == 'source' else 'hasDestFilters'))
                x.need(x.truth(x.val(h)) is True, 'an endpoint with filters is taken as one without')
                hd = Q('endpoint', c0('dest_handle'))
                if x.truth(hd) is not False:
                    fl = ('f', ('d', hd), BH + 'flags')
                    b, r = c25.raised(x.val(fl))
                    x.need(b & (1 << BIT['has_source_filter_flag' if w == 'source' else 'has_dest_filter_flag']), 'the messages of an endpoint with filters are not led through them')
        self.check('processFilterInfo', ex, does=('createFilter',))


def fresh(v):
    return 'messageCounter' in str(v)


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/FilterFederate.cpp', 'core/FilterCoordinator.cpp'], [])
    ACT.update({k: C(v) for k, v in names.enum_values(prog, H + 'action_message_def::action_t').items()})
    BIT.update({y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith(('_flag', '_target'))})
    f = Flow(res, prog)
    f.marks()
    f.times()
    f.execute()
    f.source()
    f.returned()
    f.target()
    f.cloned()
    f.asked()
    f.closed()
    f.listed()
    return res

