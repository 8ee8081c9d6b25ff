"""C26: a query put together from several answers is answered once to everybody who asked"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, ZERO, THIS
from c22 import contents
from c23 import AM
from c25 import Command, does, own, size, Q, built

H = 'helics::'
CB, CC, BB = H + 'CoreBroker::', H + 'CommonCore::', H + 'BrokerBase::'
BI, FI = H + 'BasicBrokerInfo::', H + 'BasicFedInfo::'
JM = H + 'fileops::JsonMapBuilder::'
WAIT = ('s', '#wait')
DIRECT = ('l', ('g', H + 'gDirectCoreId'))
PARENT = ('l', ('g', H + 'parent_broker_id'))


def lit(e, n):
    return [x[3:] for x in e if x[0] == 'mut' and x[2] == n]


GONE = ('v', 'taken off the list', ())


class Builder(Command):
    """the parts that are missing of a map"""
    def __init__(self, fn, **kw):
        super().__init__(fn, **kw)
        self.eh = kw.get('throw') is not None

    def throws(self, n):
        # text that cannot be read as JSON is the one thing that is caught
        return 'loadJson' in n.get('fn', '')

    def called(self, eng, st, fr, i, name, obj, args):
        if name.split('::')[-1] == 'push_back' and 'json' in (fr.fn.nodes[i].get('cls') or ''):
            self.eff(eng, st, ('put',) if ('put',) not in st.rs[0] else ('put again',))
            return [(st, ZERO)]
        if name.endswith('::erase'):
            st.env[GONE] = C(2 if GONE in st.env else 1)
            st._k = None
        if name.split('::')[-1] in ('find', 'contains', 'count') and obj is not None and obj >= 0 and args:
            c = self.objloc(eng, st, fr, obj)
            out = []
            for s2, t in self.split(st, Q('held', c, eng.ev(st, fr, args[0]))):
                v = ('it', c, ('s', 'found')) if t else ('end', c)
                out.append((s2, v if name.endswith('find') else C(int(t))))
            return out
        return super().called(eng, st, fr, i, name, obj, args)


def everything(x):
    return list(x.all()) + [e for e in x.st.rs[1] if e[0] != '[']


def builders(res, prog):
    miss, jmap = ('f', THIS, JM + 'missing_components'), ('l', ('f', THIS, JM + 'jMap'))

    def check(name, ex, each=None, k=None, throw=None):
        fns = [f for f in prog.fns(JM + name) if k is None or len(f.params) == k]
        if len(fns) != 1:
            raise fx.Broken('anchor vanished: ' + JM + name)
        spec.check(res, 'C26', prog, fns[0], cls=Builder, exit=lambda x: ex(x, fns[0]), each=each, throw=throw)
    gone = lambda x: [e for e in everything(x) if e[0] == 'mut' and e[1] == miss and e[2] == 'erase']
    cleared = lambda x: [e for e in x.all() if e[0] in ('mut', 'does') and e[2 if e[0] == 'mut' else 1] == 'clear']

    def add(x, fn):
        key = ('l', ('v', fn.params[1]['d'], (fn.line,)))
        g, puts = gone(x), [e for e in x.all() if e[0] in ('put', 'put again')]
        if not g:
            x.need(x.truth(x.ret) is False and not puts, 'an answer nobody waits for changes the map')
            x.need(x.eq(size(miss), ZERO) or x.truth(Q('held', miss, key)) is False, 'an answer that is waited for is thrown away')
            return
        x.need(len(g) == 1 and (key in flat(g[0]) or ('it', miss, ('s', 'found')) in flat(g[0]) and x.truth(Q('held', miss, key))), 'another part than the one that was answered is taken off the list')
        x.need(puts == [('put',)], 'an answer is not put into the map once')
        none(x, x.ret)

    def none(x, v):
        t = x.truth(v)
        last = []
        for f, k in x.st.facts.items():
            if f[0] in ('eq', '=') and f[1][0] == 'p' and f[1][2][0] == 'h' and miss in flat(f[1]) and (f[0] == '=' or f[2] == ZERO):
                last.append(k == ZERO if f[0] == '=' else k)
        x.need(t is not None and last and all(k is t for k in last), 'whether all parts are there is not told as it is')
    check('addComponent', add, throw=lambda x: None)

    def clear(x, fn):
        code = ('l', ('v', fn.params[0]['d'], (fn.line,)))
        if GONE in x.st.env:
            none(x, x.ret)
        else:
            x.need(miss in x.done() or x.eq(size(miss), ZERO), 'the parts that are missing are not all looked at')
            x.need(x.truth(x.ret) is False, 'all parts are called there although none was given up')

    def seen(x):
        e = cont.el(miss)
        second = ('f', ('f', e, 'std::pair::second'), 'std::pair::second')
        if x.effs:
            x.need(any(f[0] in ('eq', '=') and second in flat(f) and v is not False for f, v in x.st.facts.items()), 'a part expected from somebody else is given up')
        else:
            x.need(any(f[0] == 'eq' and second in flat(f) and v is False for f, v in x.st.facts.items()), 'a part expected from the one that went away is kept')
    check('clearComponents', clear, seen, 1)

    def wipe(x, fn):
        x.need(len(cleared(x)) == 1, 'not all parts are given up')
        t, j = x.truth(x.ret), x.truth(jmap)
        x.need(t is not None and t is j, 'whether there is anything to answer is not told as it is')
    check('clearComponents', wipe, None, 0)

    def complete(x, fn):
        t, j = x.truth(x.ret), x.truth(jmap)
        e = x.eq(size(miss), ZERO)
        x.need(t is True and j is True and e is True or t is False and (j is False or e is False), 'a map is called complete although parts are missing, or the other way round')
    check('isCompleted', complete)
    check('isActive', lambda x, fn: x.need(x.truth(x.ret) is not None and x.truth(x.ret) is x.truth(jmap), 'whether a map is being put together is not told as it is'))

    def place(x, fn):
        a = [e for e in x.all() if e[0] == 'mut' and e[1] == miss]
        x.need(len(a) == 1 and a[0][2] in ('emplace', 'insert', 'try_emplace', 'emplace_hint', 'insert_or_assign'), 'a part that is waited for is not put on the list')
        p = [('l', ('v', y['d'], (fn.line,))) for y in fn.params]
        for e in a:
            x.need(x.ret in flat(e[3:]) and all(y in flat(e[3:]) for y in p), 'a part is not on the list under the number that was given out, with its place and its source')
            x.need(size(miss) in flat(x.ret), 'the number of a part does not differ from those before')
    check('generatePlaceHolder', place)

    def again(x, fn):
        x.need(len(cleared(x)) == 1, 'the missing parts of the last map stay on the list')
        x.need(x.val(('f', THIS, JM + 'jMap')) == ZERO, 'the last map is kept')
    check('reset', again)


def flat(t):
    out, todo = set(), [t]
    while todo:
        u = todo.pop()
        if isinstance(u, tuple):
            out.add(u)
            todo += u
    return out


class Reply(Command):
    """a message is told with what it carries"""
    owned = ('addComponent', 'isCompleted', 'clearComponents', 'generate', 'isActive')
    keyed = ('generateGlobalStatus', 'getRoute', 'coreQuery', 'generateQueryAnswer', 'getFederateCore', 'federateQuery', 'getString', 'checkFedQuery', 'checkBrokerQuery', 'getNameList')

    def value(self, eng, st, fr, a):
        if 'JsonMapBuilder' in fr.fn.nodes[a].get('t', ''):
            return ('l', eng.lv(st, fr, a))
        v = super().value(eng, st, fr, a)
        if v[0] == 'msg':
            d = dict(contents(eng, st, v[5]))
            v += (built(d['counter']), text(eng.read(st, ('f', v[5], AM + 'payload'))))
        return text(v)

    def called(self, eng, st, fr, i, name, obj, args):
        if name == H + 'SmallBuffer::operator=' and obj is not None:
            eng.write(st, self.objloc(eng, st, fr, obj), self.value(eng, st, fr, args[0]))
            self.moved(eng, st, fr, args)
            return [(st, ZERO)]
        if name.endswith('::to_string') and 'SmallBuffer' in name:
            return [(st, text(eng.read(st, self.objloc(eng, st, fr, obj))))]
        s = name.split('::')[-1]
        if s in ('empty', 'size', 'length') and obj is not None and obj >= 0 and not args and 'basic_string' in name:
            v = text(eng.read(st, self.objloc(eng, st, fr, obj)))
            if v[0] == 's':
                return [(st, C(int(not v[1]) if s == 'empty' else len(v[1])))]
        if s in ('push_back', 'push', 'emplace_back', 'emplace') and obj is not None and obj >= 0 and len(args) == 1 and 'ActionMessage' in fr.fn.nodes[args[0]].get('t', ''):
            e = ('does', 'queue', self.objloc(eng, st, fr, obj), self.value(eng, st, fr, args[0]))
            self.eff(eng, st, e if e not in st.rs[0] else ('twice',) + e[1:])
            return [(st, ZERO)]
        if s == 'generateJsonErrorResponse':
            st = st.copy()
            flow.assume(st, flow.rel_term('==', size_of(Q(s)), ZERO), False)
            flow.assume_eq(st, Q(s), ('s', ''), False)
            return [(st, Q(s))]
        if s == 'clearStringData':
            return [(st, ZERO)]
        out = super().called(eng, st, fr, i, name, obj, args)
        if name.split('::')[-1] in self.does:
            self.moved(eng, st, fr, args)
        return out

    def moved(self, eng, st, fr, args):
        """a string that was given away is empty"""
        for a in args:
            n = fr.fn.nodes[a] if a >= 0 else {}
            while n.get('k') == 'CXXConstructExpr' and len(n.get('args', ())) == 1:
                n = fr.fn.nodes[n['args'][0]]
            if n.get('fn', '').split('<')[0] == 'std::move' and 'string' in n.get('t', '') and n.get('args'):
                l = eng.lv(st, fr, n['args'][0])
                if l is not None:
                    eng.write(st, l, ('s', ''))


def size_of(v):
    return ('p', '#', v)


def text(v):
    """a string by what it was made from"""
    if v[0] == 'k' and 'string' in v[1] and not v[2]:
        return ('s', '')
    while v[0] == 'k' and ('string' in v[1] or 'SmallBuffer' in v[1]) and v[2] and isinstance(v[2][0], tuple):
        v = v[2][0]
    return v


class Answer:
    """everybody who waits for a map gets it, once"""
    ASKS = ('addComponent', 'isCompleted', 'clearComponents', 'generate', 'generateGlobalStatus', 'generateMapObjectCounter', 'isActive')
    DOES = ('setDelayedValue', 'routeMessage', 'reset', 'setCounterCode', 'transmit')

    def __init__(self, res, prog, cls, name):
        self.res, self.prog, self.fn, self.cls = res, prog, prog.fn(cls + name), cls
        self.core = cls == CC
        self.maps = ('f', THIS, cls + 'mapBuilders')
        self.off = C(names.enum_values(prog, H + 'QueryReuse')['DISABLED'])
        self.me = own(BB, 'global_broker_id_local')

    def here(self, q, r):
        d = ('l', ('f', r, AM + 'dest_id'))
        return q.eq(d, self.me) or self.core and q.eq(d, DIRECT)

    def answered(self, x, effs, r, what):
        """the requester at r was answered by these effects; returns the answer"""
        vals = [v for v in does(x, 'setDelayedValue', effs) if v[0] == ('l', ('f', r, AM + 'messageID'))]
        sent = [m for m, in (v[:1] for v in does(x, 'routeMessage', effs)) if m[0] == 'msg' and m[5] == r]
        for s, h in ref.cases(x.st, lambda q: self.here(q, r)):
            self.res.count('cases')
            x.need((len(vals), len(sent)) == ((1, 0) if h else (0, 1)), 'one who waits for a map ' + ('is not answered once' if len(vals) + len(sent) != 1 else 'is answered in another place than where it asked'))
        return [v[1] for v in vals] + [m[-1] for m in sent]


class Arrived(Answer):
    """the answer of one source: it is the whole answer, or a part of a map that is told to everybody when it was the last"""

    def __init__(self, res, prog, cls):
        super().__init__(res, prog, cls, 'processQueryResponse')
        m = ('v', self.fn.params[0]['d'], (self.fn.line,))
        self.m = lambda n: ('l', ('f', m, AM + n))
        self.M = m
        e = ('i', self.maps, self.m('counter'))
        self.b, self.r, self.u = ('f', e, 'std::pair::first'), ('f', e, 'std::pair::second'), ('f', e, 'std::tuple::2')
        self.told = []

    def run(self):
        kw = dict(cls=Reply, asks=self.ASKS, does=self.DOES)
        spec.check(harness.Result(), 'C26', self.prog, self.fn, each=self.each, exit=lambda x: None, **kw)
        spec.check(self.res, 'C26', self.prog, self.fn, each=self.each, exit=self.ex, **kw)

    def each(self, x):
        self.told += self.answered(x, x.effs, cont.el(x.c), 'each')

    def ex(self, x):
        need = x.need
        asked = [e for e in x.all() if e[0] == 'ask' and e[1] == 'addComponent']
        vals, sent = does(x, 'setDelayedValue'), does(x, 'routeMessage')
        part = Q('addComponent', ('l', self.b))

        def want(q):
            if q.eq(self.m('counter'), ZERO):
                return 'whole'
            if q.lt(self.m('counter'), ZERO) or not q.lt(self.m('counter'), size(self.maps)):
                return 'nothing'
            return 'last' if q.is_(part) else 'part'
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            if w == 'whole':
                need(not asked and not sent and [v[0] for v in vals] == [self.m('messageID')] and vals[0][1] != ('s', ''), 'the answer to a query is not told to the one who asked, once')
                need(all(self.M in flat(v[1]) and 'payload' in str(v[1]) for v in vals), 'something else than the answer is told')
                continue
            need(len(asked) == (w != 'nothing'), 'a part of an answer is not put into the map it belongs to')
            for a in asked:
                need(self.m('messageID') in a and self.M in flat(a[2]) and 'payload' in str(a[2]), 'a part of an answer is put into another place of the map, or something else is')
            if w != 'last':
                need(not vals and not sent and not x.done(), 'those who wait are answered before the last part is there')
                need(not does(x, 'reset') and not [e for e in x.all() if e[0] in ('mut', 'does') and self.r in e[2:4] and 'clear' in e], 'those who wait are forgotten before the last part is there')
                continue
            self.close(x, s, x.all(), self.r, self.b, self.u)

    def close(self, x, s, effs, r, b, u, over=None):
        need = x.need
        over = x.done() if over is None else over
        if r in over:
            got = []
        else:
            last = ('i', r, ('s', 'back'))
            need(('butlast', r) in over, 'not everybody who waits for a map is answered')
            got = self.answered(x, effs, last, 'last')
        for t in got + self.told:
            need(t == Q('generate', ('l', b)) or t == Q('generateGlobalStatus', ('l', b)) or t[0] == 's' and t[1] not in ('', '#wait'), 'another answer is told than the map')
        cl = [e for e in effs if e[0] in ('mut', 'does') and ('clear' in e[1:3]) and r in e]
        need(len(cl) == 1, 'those who were answered stay on the list and are answered again')
        resets = [e for e in effs if e[0] in ('does', 'twice') and e[1] == 'reset' and e[2] == b]
        for s2, off in ref.cases(s, lambda q: q.eq(('l', u), self.off)):
            need(len(resets) == (1 if off else 0), 'a map that is made anew each time is kept' if off else 'a map that is used again is thrown away')


class Gone(Arrived):
    """when a source goes away every map that waits for it does without"""

    def __init__(self, res, prog, cls, name):
        Answer.__init__(self, res, prog, cls, name)
        e = cont.el(self.maps)
        self.b, self.r, self.u = ('f', e, 'std::pair::first'), ('f', e, 'std::pair::second'), ('f', e, 'std::tuple::2')
        self.told = []
        self.code = ('v', self.fn.params[0]['d'], (self.fn.line,)) if self.fn.params else None

    def each(self, x):
        if x.c != self.maps:
            return super().each(x)
        need = x.need
        b = ('l', self.b)
        giv = [e for e in x.effs if e[0] == 'ask' and e[1] == 'clearComponents']
        vals, sent = does(x, 'setDelayedValue', x.effs), does(x, 'routeMessage', x.effs)
        for s, w in ref.cases(x.st, lambda q: 'over' if q.is_(Q('isCompleted', b)) else 'last' if q.is_(Q('clearComponents', b)) else 'part'):
            self.res.count('cases')
            if w == 'over':
                need(not vals and not sent, 'a map that is complete is answered again')
                continue
            need(len(giv) == 1, 'a map goes on waiting for one that went away')
            if not self.code:
                need(all(len(g) == 3 for g in giv), 'only some of the parts are given up when nobody can answer any more')
            else:
                need(all(self.code in flat(g) for g in giv), 'the parts of another than the one that went away are given up')
            if w == 'part':
                need(not vals and not sent and not does(x, 'reset', x.effs), 'those who wait are answered before the last part is there')
            else:
                self.close(x, s, x.effs, self.r, self.b, self.u, x.st.rs[2])

    def ex(self, x):
        x.need(self.maps in x.done(), 'not every map is looked at')


class Intake(Answer):
    """a query is answered, queued until its answer is there, or passed on: one of these, once"""
    ASKS = ('coreQuery', 'federateQuery', 'getFederateCore', 'getString', 'getRoute', 'getIdentifier', 'generateQueryAnswer', 'checkFedQuery', 'checkBrokerQuery', 'getNameList')
    DOES = ('setDelayedValue', 'routeMessage', 'transmit', 'addAction', 'processQueryResponse', 'processLocalQuery', 'processQuery', 'setTickForwarding')
    QUIET = ('generateStringVector', 'generateJsonString', 'generate', 'getJValue')

    def __init__(self, res, prog, cls, name):
        super().__init__(res, prog, cls, name)
        self.A = {k: C(v) for k, v in names.enum_values(prog, H + 'action_message_def::action_t').items()}
        m = ('v', self.fn.params[0]['d'], (self.fn.line,))
        self.m = lambda n: ('l', ('f', m, AM + n))
        self.M = m
        self.waits = ('f', THIS, cls + 'queryTimeouts')

    def outcomes(self, x):
        o = []
        for e in x.all():
            if e[0] in ('does', 'twice') and e[1] != 'setTickForwarding':
                o += [e[1:]] * (2 if e[0] == 'twice' else 1)
        return o

    def ordered(self, q):
        a = self.m('messageAction')
        return q.eq(a, self.A['cmd_query_ordered']) or q.eq(a, self.A['cmd_broker_query_ordered'])

    def mine(self, q):
        d = self.m('source_id')
        return q.eq(d, DIRECT) if self.core else q.eq(d, self.me)

    def reply(self, x, msg, s, ordered, answer=None, counter=True, waits=False):
        eq = lambda a, b: a == b or not ref.wrong(s, a, b)
        x.need(msg[1] == self.A['cmd_query_reply_ordered' if ordered else 'cmd_query_reply'], 'an answer is not sent the way the query came, ordered or not')
        x.need(eq(msg[3], self.m('source_id')), 'an answer is sent to another than the one who asked')
        x.need(eq(msg[6], self.m('messageID')), 'an answer does not say which query it is for')
        if counter:
            x.need(eq(msg[7], self.m('counter')), 'an answer does not say which map it is a part of')
        x.need(waits or flow.known_eq(s, msg[8], WAIT) is not True, 'the word for an answer that is still to come is sent as the answer')
        if answer is not None:
            x.need(msg[8] == answer, 'something else than the answer is sent')

    def tell(self, x, s, o, ordered, answer, mine, counter=True):
        """the answer goes to the one who asked"""
        if mine:
            if o[0] == 'processQueryResponse':
                self.reply(x, o[2], s, ordered, answer)
                return
            x.need(o[0] == 'setDelayedValue', 'an answer for this one itself is not told here')
            if o[0] == 'setDelayedValue':
                x.need(o[2] == self.m('messageID'), 'an answer does not say which query it is for')
                x.need(answer is None or o[3] == answer, 'something else than the answer is told')
            return
        x.need(o[0] in ('transmit', 'routeMessage'), 'an answer is not sent to the one who asked')
        if o[0] == 'transmit':
            x.need(o[2][0] == 'call' and o[2][1] == 'getRoute' and not ref.wrong(s, o[2][2][0], self.m('source_id')), 'an answer is sent another way than to the one who asked')
            self.reply(x, o[3], s, ordered, answer, counter)
        elif o[0] == 'routeMessage':
            x.need(len(o) == 3 or not ref.wrong(s, o[3], self.m('source_id')), 'an answer is sent another way than to the one who asked')
            self.reply(x, o[2], s, ordered, answer, counter)

    def wait(self, x, s, o, ordered):
        x.need(o[0] == 'queue' and self.maps in flat(o[1]) and o[1][-1] == 'std::pair::second' and self.m('payload') in flat(o[1]), 'one whose answer is not there yet is not put on the list of those who wait for it')
        if o[0] == 'queue':
            self.reply(x, o[2], s, ordered, waits=True)

    def watched(self, x, mine):
        w = [e for e in x.all() if e[0] == 'mut' and e[1] == self.waits]
        x.need(len(w) == (1 if mine else 0), 'a query of this one itself that waits is not watched for a time-out' if mine else 'a query of another is watched for a time-out')
        for e in w:
            x.need(self.m('messageID') in flat(e), 'another query is watched for a time-out')
        tick = does(x, 'setTickForwarding')
        if mine:
            for s, none in ref.cases(x.st, lambda q: q.eq(size(self.waits), ZERO)):
                x.need(not none or len(tick) == 1 and flow.truth(s, tick[0][1]) is True, 'a query is watched for a time-out but no time passes')

    def run(self, env=None):
        spec.check(self.res, 'C26', self.prog, self.fn, cls=Reply, asks=self.ASKS, does=self.DOES, quiet=self.QUIET, exit=self.ex, env=env)


class CoreCommand(Intake):
    def __init__(self, res, prog):
        super().__init__(res, prog, CC, 'processQueryCommand')

    def ex(self, x):
        A, need, act, o = self.A, x.need, self.m('messageAction'), self.outcomes(x)
        to_me = lambda q: q.eq(self.m('dest_id'), self.me) or q.eq(self.m('dest_id'), DIRECT)
        isa = lambda q, *n: any(q.eq(act, A[k]) for k in n)
        asked = lambda n: [e for e in x.all() if e[0] == 'ask' and e[1] == n]
        core = [Q('coreQuery', *e[2:-1]) for e in asked('coreQuery')]
        fed = [Q('federateQuery', *e[2:-1]) for e in asked('federateQuery')]
        target = [Q('getString', *e[2:-1]) for e in asked('getString')]

        def want(q):
            if isa(q, 'cmd_query_reply', 'cmd_query_reply_ordered'):
                return ('here',) if to_me(q) else ('reply on',)
            if isa(q, 'cmd_broker_query', 'cmd_broker_query_ordered'):
                if not to_me(q):
                    return ('on',)
                if not core:
                    return ('unasked',)
                return ('wait' if q.eq(core[0], WAIT) else 'tell', self.ordered(q), core[0], self.mine(q))
            if isa(q, 'cmd_query', 'cmd_query_ordered'):
                if q.eq(self.m('dest_id'), PARENT):
                    return ('up', q.eq(self.me, PARENT), self.mine(q), self.ordered(q))
                if core:
                    return ('wait' if q.eq(core[0], WAIT) else 'tell', self.ordered(q), core[0], self.mine(q), 'nt')
                if not fed:
                    return ('unasked',)
                if q.eq(fed[0], WAIT):
                    if q.is_(fed[0][2][0]):
                        return ('fed', fed[0][2][0])
                    return ('tell', self.ordered(q), None, self.mine(q))
                return ('tell', self.ordered(q), fed[0], self.mine(q))
            return ('none',)
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            if w[0] == 'none':
                need(not o, 'another message is taken for a query')
                continue
            need(w[0] != 'unasked', 'nobody is asked for the answer to a query')
            if w[0] == 'unasked':
                continue
            need(len(o) == 1, 'a query is answered, queued or passed on %s' % ('more than once' if o else 'not at all'))
            if len(o) != 1:
                continue
            o1 = o[0]
            for c in core + fed:
                need(self.m('payload') in flat(c) and (flow.truth(s, c[2][-1]) is w[1] if w[0] in ('wait', 'tell') else True), 'something else is asked than the query asks')
            if w[0] == 'here':
                need(o1[0] == 'processQueryResponse' and o1[2][5] == self.M, 'an answer for this core is not taken')
            elif w[0] == 'reply on':
                need(o1[0] in ('transmit', 'routeMessage') and self.M in flat(o1) and (o1[0] == 'routeMessage' or o1[2] == Q('getRoute', self.m('dest_id'))), 'an answer for another is not passed on')
            elif w[0] == 'on':
                need(o1[0] in ('routeMessage', 'transmit') and self.M in flat(o1), 'a query for another is not passed on')
            elif w[0] == 'fed':
                need(o1[0] == 'addAction' and not ref.wrong(s, o1[1], ('d', w[1])) and o1[2][5] == self.M, 'a federate that has to answer itself is not asked')
                need(o1[0] != 'addAction' or 'global_id' in str(o1[2][3]) and not ref.wrong(s, o1[2][2], self.m('source_id')), 'a federate is asked under another name')
            elif w[0] == 'wait':
                self.wait(x, s, o1, w[1])
            elif w[0] == 'tell':
                self.tell(x, s, o1, w[1], w[2], w[3])
            elif w[0] == 'up':
                late, mine, ordered = w[1:]
                if late:
                    need(o1[0] == 'queue' and o1[2][5] == self.M, 'a query from before the registration is not kept for later')
                    msg = o1[2] if o1[0] == 'queue' else None
                else:
                    need(o1[0] == 'transmit' and 'parent_route_id' in str(o1[2]) and o1[3][5] == self.M, 'a query for the broker is not passed on to it')
                    msg = o1[3] if o1[0] == 'transmit' else None
                if msg:
                    need(not ref.wrong(s, msg[2], DIRECT if late else self.me), 'a query is passed on under another name')
                    for t in ('root', 'federation', 'parent', 'broker'):
                        if any(s.facts.get(('=', g)) == ('s', t) for g in target):
                            need(msg[1] == A['cmd_broker_query_ordered' if ordered else 'cmd_broker_query'], 'a query for a broker is passed on as one for something else')
                            need(('gRootBrokerID' if t in ('root', 'federation') else 'higher_broker_id') in str(msg[3]), 'a query for a broker is passed on to another')
                self.watched(x, mine)
            if w[0] == 'wait' and len(w) == 4:
                self.watched(x, w[3])


class LocalQuery(Intake):
    """a query for the broker itself"""

    def __init__(self, res, prog):
        super().__init__(res, prog, CB, 'processLocalQuery')

    def ex(self, x):
        o = self.outcomes(x)
        asked = [Q('generateQueryAnswer', *e[2:-1]) for e in x.all() if e[0] == 'ask' and e[1] == 'generateQueryAnswer']
        x.need(len(asked) == 1 and self.m('payload') in flat(tuple(asked)), 'the answer to a query is not looked for once')
        x.need(len(o) == 1, 'a query is answered or queued %s' % ('more than once' if o else 'not at all'))
        if len(o) != 1 or len(asked) != 1:
            return
        for s, (w, mine, ordered) in ref.cases(x.st, lambda q: (q.eq(asked[0], WAIT), self.mine(q), self.ordered(q))):
            self.res.count('cases')
            x.need(flow.truth(s, asked[0][2][-1]) is ordered, 'an ordered query is asked out of order, or the other way round')
            if w:
                self.wait(x, s, o[0], ordered)
            else:
                self.tell(x, s, o[0], ordered, asked[0], mine)
            self.watched(x, w and mine)


class BrokerCommand(Intake):
    def __init__(self, res, prog):
        super().__init__(res, prog, CB, 'processQueryCommand')

    def ex(self, x):
        A, need, act, o = self.A, x.need, self.m('messageAction'), self.outcomes(x)
        isa = lambda q, *n: any(q.eq(act, A[k]) for k in n)

        def want(q):
            if isa(q, 'cmd_broker_query', 'cmd_broker_query_ordered'):
                if not q.is_(own(CB, 'connectionEstablished')):
                    return ('queue',)
                if q.eq(self.m('dest_id'), self.me) or q.is_(own(CB, 'isRootc')) and q.eq(self.m('dest_id'), PARENT):
                    return ('processLocalQuery',)
                return ('routeMessage',)
            if isa(q, 'cmd_query', 'cmd_query_ordered'):
                return ('processQuery',)
            if isa(q, 'cmd_query_reply', 'cmd_query_reply_ordered'):
                return ('processQueryResponse',) if q.eq(self.m('dest_id'), self.me) else ('transmit', Q('getRoute', self.m('dest_id')))
            return None
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            if w is None:
                continue
            need(len(o) == 1, 'a query or an answer to one is handled %s' % ('more than once' if o else 'not at all'))
            if len(o) != 1:
                continue
            if w[0] == 'routeMessage' and o[0][0] == 'transmit':
                w = ('transmit',)
            need(o[0][0] == w[0] and self.M in flat(o[0]) and all(v in o[0] for v in w[1:]), 'a query or an answer to one does not go where it belongs: ' + w[0])
            if w[0] == 'queue':
                need('earlyMessages' in str(o[0][1]), 'a query from before the registration is not kept for later')


class BrokerQuery(Intake):
    """a query by name: answered here, or passed on to the one with the name or to the parent"""

    def __init__(self, res, prog):
        super().__init__(res, prog, CB, 'processQuery')
        self.ends = {C(v) for k, v in names.enum_values(prog, H + 'ConnectionState').items() if k in ('ERROR_STATE', 'DISCONNECTED', 'REQUEST_DISCONNECT')}
        self.feds, self.brks = ('f', THIS, CB + 'mFederates'), ('f', THIS, CB + 'mBrokers')

    def ex(self, x):
        need, o = x.need, self.outcomes(x)
        target = [Q('getString', *e[2:-1]) for e in x.all() if e[0] == 'ask' and e[1] == 'getString']
        need(len(o) == 1, 'a query is answered or passed on %s' % ('more than once' if o else 'not at all'))
        if len(o) != 1:
            return
        o = o[0]
        name = lambda q, *n: any(q.eq(target[0], ('s', k)) for k in n)

        def lost(s):
            # a state that there is not
            no = {}
            for f, v in s.facts.items():
                if f[0] == 'eq' and v is False and f[1][0] == 'l' and f[1][1][-1] in (FI + 'state', BI + 'state'):
                    no.setdefault(f[1], set()).add(f[2])
            return any(self.ends <= n for n in no.values())

        def want(q):
            root = q.is_(own(CB, 'isRootc'))
            if q.eq(target[0], Q('getIdentifier')) or name(q, 'broker') or root and name(q, 'root', 'federation'):
                return ('local',)
            w = (self.mine(q), self.ordered(q), root)
            if root and name(q, 'gid_to_name', 'global', 'global_value'):
                return ('tell',) + w
            return ('name',) + w
        for s, w in ref.cases(x.st, want):
            self.res.count('cases')
            if w[0] == 'local':
                need(o[0] == 'processLocalQuery' and self.M in flat(o), 'a query for the broker itself is not answered by it')
                continue
            mine, ordered, root = w[1:]
            on = o[0] == 'transmit' and o[3][5] == self.M
            if w[0] == 'tell' or not on:
                self.tell(x, s, o, ordered, None, mine, False)
                a = o[3][8] if o[0] == 'transmit' else o[3] if o[0] == 'setDelayedValue' else ZERO
                need(flow.known_eq(s, a, ('s', '')) is not True and a != ('s', '') and flow.known_eq(s, size_of(a), ZERO) is not True, 'an empty answer is given')
                self.watched(x, False)
                continue
                need(o[3][1] == self.m('messageAction') and not ref.wrong(s, o[3][2], self.m('source_id')) and o[3][6] == self.m('messageID'), 'a query is changed when it is passed on')
            to, up = o[2], 'parent_route_id' in str(o[2])
            for c, f, d in ((self.feds, FI, 'parent'), (self.brks, BI, 'global_id')):
                if c in flat(to):
                    e = to[1][1]
                    need(to == ('l', ('f', e, f + 'route')) and not ref.wrong(s, o[3][3], ('l', ('f', e, f + d))), 'a query is passed on to another than its route says')
                    up = None
            if up is not None:
                need(o[3][3] == self.m('dest_id') or lost(s), 'a query for one that is known here is passed on to the parent')
            need(up is None or up and not root, 'a query for somebody else is passed on to nobody')
            self.watched(x, mine)


class FedQuery(Intake):
    """a federate that is asked answers"""
    ASKS = ('processQueryActual',)
    DOES = ('routeMessage', 'addAction', 'transmit')
    QUIET = ('processCoordinatorMessage', 'checkProcResult', 'prettyPrintString', 'processDelayQueue', 'logMessage')
    keyed = ('processQueryActual',)

    def __init__(self, res, prog):
        f = [f for f in prog.fns(H + 'FederateState::processActionMessage')]
        if len(f) != 1:
            raise fx.Broken('anchor vanished: FederateState::processActionMessage')
        super().__init__(res, prog, H + 'FederateState::', 'processActionMessage')

    def run(self):
        for k in ('cmd_query', 'cmd_query_ordered'):
            self.now = k
            super().run(env={('f', self.M, AM + 'messageAction'): self.A[k]})

    def ex(self, x):
        if x.truth(Q('checkProcResult')) is True:
            return      # the coordinator took the message, which it never does with a query
        o = self.outcomes(x)
        asked = [Q('processQueryActual', *e[2:-1]) for e in x.all() if e[0] == 'ask']
        x.need(len(asked) == 1 and self.m('payload') in flat(tuple(asked)), 'the answer to a query is not looked for once')
        x.need(len(o) == 1 and o[0][0] == 'routeMessage', 'a query is not answered, or more than once')
        if len(o) == 1 and o[0][0] == 'routeMessage':
            self.reply(x, o[0][2], x.st, 'ordered' in self.now)
            x.need('processQueryActual' in str(o[0][2][8]), 'something else than the answer is sent')


def run(tier):
    res = harness.Result()
    builders(res, fx.load(['common/JsonBuilder.cpp'], []))
    for p, c in (('core/CommonCore.cpp', CC), ('core/CoreBroker.cpp', CB)):
        prog = fx.load([p], [])
        Arrived(res, prog, c).run()
        Gone(res, prog, c, 'checkInFlightQueriesForDisconnect' if c == CC else 'checkInFlightQueries').run()
        if c == CC:
            CoreCommand(res, prog).run()
        else:
            LocalQuery(res, prog).run()
            BrokerCommand(res, prog).run()
            BrokerQuery(res, prog).run()
    prog = fx.load(['core/FederateState.cpp'], [])
    FedQuery(res, prog).run()
    return res
