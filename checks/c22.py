"""C22: what is published or sent leaves once for each of its targets"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, ZERO, THIS
from c20 import bits
from c21 import part, flat

H = 'helics::'
AM = H + 'ActionMessage::'
FIELDS = ('messageAction', 'messageID', 'source_id', 'source_handle', 'dest_id', 'dest_handle', 'counter', 'flags', 'payload', 'actionTime')
ASK = ('getHandleInfo', 'getFederateAt', 'checkAndSetValue', 'getSubscribers', 'getMessageDestinations', 'nextAllowedSendTime', 'getCurrentIteration', 'loggingLevel', 'waitCoreRegistration')
QUIET = ('logMessage', 'prettyPrintString')


def contents(eng, st, l):
    return tuple((n, part(eng.read(st, ('f', l, AM + n)))) for n in FIELDS) + tuple(('str%d' % k, eng.read(st, ('f', l, 'str%d' % k))) for k in range(4))


class Leave(spec.Spec):
    """what is handed to the queue, and what is put into packages"""
    ask, quiet = ASK, QUIET
    sinks = ('addActionMessage', 'mSendMessage', 'mSendMessageMove', 'mDeliverMessage', 'transmit', 'addAction', 'routeMessage')

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.eh = False             # what is thrown here, not what callees might throw

    def flag(self, st, l, n, v=None):
        k = ('v', 'package %s %s' % (n, l), ())
        if v is None:
            return st.env.get(k) == C(1)
        st.env[k] = C(v)
        st._k = None

    def fresh(self, st, fr, l, node):
        if self.flag(st, l, 'pending') and not self.flag(st, l, 'gone'):
            self.fail(fr, node, 'a package is replaced before it was handed over')
        for n, v in (('pending', 0), ('gone', 0), ('fresh', 1), ('moved', 0)):
            self.flag(st, l, n, v)

    def on_decl(self, eng, st, fr, i, d, val):
        self.flag(st, ('v', d, fr.id), 'moved', 0)
        return super().on_decl(eng, st, fr, i, d, val)

    def it_next(self, eng, st, fr, i, c):
        it = st.rs[1]
        j = max([k for k, e in enumerate(it) if e == ('[', c)], default=-1)
        n = len(outs(it[j + 1:]))
        super().it_next(eng, st, fr, i, c)
        st.rs = (st.rs[0] | {('turn', c, (fr.id, i), n)}, st.rs[1], st.rs[2])

    def it_done(self, eng, st, fr, i, c):
        super().it_done(eng, st, fr, i, c)
        st.rs = (st.rs[0] | {('walk', c, eng.read(st, c))}, st.rs[1], st.rs[2])

    def leaves(self, eng, st, fr, i, l, name, to=(), consumed=False):
        m = contents(eng, st, l)
        if self.flag(st, l, 'moved'):
            self.fail(fr, i, 'a message leaves again after its contents were given away')
        if consumed:
            self.flag(st, l, 'moved', 1)
        if dict(m)['messageAction'] == self.multi:
            if self.flag(st, l, 'gone'):
                self.fail(fr, i, 'a package is handed over twice')
            self.flag(st, l, 'gone', 1)
            self.flag(st, l, 'pending', 0)
            self.flag(st, l, 'fresh', 0)
            self.eff(eng, st, ('handed', l))
        else:
            self.eff(eng, st, ('out', name, m) + tuple(to))

    def called(self, eng, st, fr, i, name, obj, args):
        if self.x_called:
            r = self.x_called(self, eng, st, fr, i, name, obj, args)
            if r is not None:
                return r
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if not args and s in self.sinks:
            return None
        if s in self.ask:
            return [(st, ('call', s, tuple(eng.ev(st, fr, a) for a in args), 0))]
        if s in self.quiet or name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))]
        if s == 'appendMessage' and len(args) == 2:
            p, l = eng.lv(st, fr, args[0]), eng.lv(st, fr, args[1])
            if part(eng.read(st, ('f', p, AM + 'messageAction'))) != self.multi:
                self.fail(fr, i, 'a message is put into something that is no package')
            if self.flag(st, l, 'moved'):
                self.fail(fr, i, 'a message leaves again after its contents were given away')
            if self.flag(st, p, 'gone'):
                self.fail(fr, i, 'a message is put into a package that was handed over')
            out = []
            s2 = st.copy()
            self.eff(eng, st, ('out', 'package', contents(eng, st, l)))
            self.flag(st, p, 'pending', 1)
            out.append((st, C(1)))
            if not self.flag(s2, p, 'fresh'):
                s2._k = None
                out.append((s2, C(-1)))
            self.flag(st, p, 'fresh', 0)
            return out
        if s == 'operator=' and name.startswith(AM):
            l = self.objloc(eng, st, fr, obj if obj is not None and obj >= 0 else args[0])
            self.fresh(st, fr, l, i)
            return None
        if s in self.sinks or s == 'operator()' and obj is not None and 'std::function' in fr.fn.nodes[obj].get('t', '') or s in ('push', 'emplace') and 'actionQueue' in str(self.objloc(eng, st, fr, obj)):
            own = [a for a in args if 'ActionMessage' in fr.fn.nodes[a].get('t', '')]
            if own:
                a = own[-1]
                l = eng.lv(st, fr, a)
                self.leaves(eng, st, fr, i, l, s, [self.towards(eng, st, fr, b) for b in args if b != a], self.consumed(fr, i, a, obj))
                return [(st, ZERO)]
        if name == H + 'SmallBuffer::assign':
            eng.write(st, self.objloc(eng, st, fr, obj), ('k', 'bytes', tuple(eng.ev(st, fr, a) for a in args)))
            return [(st, ZERO)]
        if name == H + 'SmallBuffer::operator=' and args:
            l = self.objloc(eng, st, fr, obj if obj is not None and obj >= 0 else args[0])
            eng.write(st, l, eng.ev(st, fr, args[-1]))
            return [(st, ('L', l))]
        if name == AM + 'setString' and len(args) == 2:
            k = eng.ev(st, fr, args[0])
            eng.write(st, ('f', self.objloc(eng, st, fr, obj), 'str%s' % (k[1],)), eng.ev(st, fr, args[1]))
            return [(st, ZERO)]
        if name == AM + 'setStringData':
            for k, a in enumerate(args):
                eng.write(st, ('f', self.objloc(eng, st, fr, obj), 'str%d' % k), eng.ev(st, fr, a))
            return [(st, ZERO)]
        if name == AM + 'getString' and len(args) == 1:
            k = eng.ev(st, fr, args[0])
            return [(st, ('L', ('f', self.objloc(eng, st, fr, obj), 'str%s' % (k[1],))))]
        return super().called(eng, st, fr, i, name, obj, args)

    def consumed(self, fr, i, a, obj):
        """what is passed as an rvalue, or by a reference that is not const to the function that delivers"""
        n = fr.fn.nodes[i]
        t = [t for t in n.get('pt', ()) if 'ActionMessage' in t]
        return bool(t) and (t[-1].endswith('&&') or n.get('cls') == 'std::function' and not t[-1].startswith('const'))

    def towards(self, eng, st, fr, b):
        return eng.ev(st, fr, b)


def lone(st, n):
    return flow.known_lt(st, n, C(2)) is True and (flow.known_lt(st, ZERO, n) is True or flow.known_eq(st, n, ZERO) is False)


def outs(effs):
    return [e for e in effs if e[0] == 'out']


def around(x):
    return [e for e in list(x.st.rs[0]) + list(x.st.rs[1]) if e[0] != '[']


def name_of(v):
    """texts come as objects, references and views"""
    while v[0] == 'k' and len(v[2]) == 1 and v[2][0][0] in ('l', 'c', 's', 'k', 'fld', 'call'):
        v = v[2][0]
    return v


def same(st, a, b):
    a, b = name_of(a), name_of(b)
    if a == b or flow.known_eq(st, a, b) is True:
        return True
    p, q = ref.peel(a), ref.peel(b)
    return p == q or bits(p) == bits(q)


def fits(st, m, want):
    """fields in which a message is not as wanted"""
    m = dict(m)
    bad = []
    for n, v in want.items():
        vs = v if isinstance(v, list) else [v]
        if n == 'flags':
            if not all(bits(('op', '&', m[n], C(1 << b))) == C(1 << b) for b in vs):
                bad.append(n)
        elif n == 'payload' and m[n][0] == 'k' and m[n][1] == 'bytes':
            if not any(v[0] == 'k' and v[1] == 'bytes' and len(v[2]) == len(m[n][2]) and all(same(st, a, b) for a, b in zip(v[2], m[n][2])) for v in vs):
                bad.append(n)
        elif not any(same(st, m[n], v) for v in vs):
            bad.append(n)
    return bad


WORD = {'messageAction': 'kind', 'messageID': 'number', 'source_id': 'sender', 'source_handle': 'sending interface', 'dest_id': 'destination', 'dest_handle': 'destination', 'counter': 'iteration',
        'flags': 'flags', 'payload': 'data', 'actionTime': 'time', 'str0': 'destination name', 'str1': 'source name', 'str2': 'original source name'}


def apart(v):
    """what a field is a field of, and which"""
    path = []
    while True:
        if v[0] == 'fld':
            path.insert(0, v[2])
            v = v[1]
        elif v[0] == 'l' and v[1][0] == 'f':
            path.insert(0, v[1][2])
            v = ('l', v[1][1])
        elif v[0] == 'l' and v[1][0] in ('d', 'i', 'elt', '?'):
            return v[1], path
        else:
            return v, path


class Send:
    """one function of a core through which something leaves"""

    def __init__(self, res, prog, fn, kind, targets, by_name, at=None, dest=None):
        self.res, self.prog, self.fn, self.kind, self.targets, self.by_name = res, prog, fn, kind, targets, by_name
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.F = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag')}
        self.I = names.enum_values(prog, H + 'InterfaceType')
        P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
        self.handle, self.P = P[0], P
        self.at, self.dest = at and P[at], dest and P[dest]
        self.info = ('call', 'getHandleInfo', (self.handle,), 0)
        self.fed = ('call', 'getFederateAt', (('l', ('f', ('d', self.info), H + 'BasicHandleInfo::local_fed_id')),), 0)

    def i(self, n):
        return ('l', ('f', ('d', self.info), H + 'BasicHandleInfo::' + n))

    def base(self, q):
        """what each of the messages carries"""
        fed, hnd = (('l', ('f', ('f', ('d', self.info), H + 'BasicHandleInfo::handle'), H + 'GlobalHandle::' + n)) for n in ('fed_id', 'handle'))
        nxt = ('call', 'nextAllowedSendTime', (), 0)
        w = {'messageAction': C(self.A[self.kind]), 'source_id': fed, 'source_handle': [self.handle, hnd], 'actionTime': nxt}
        if self.kind == 'cmd_pub':
            w['counter'] = ('call', 'getCurrentIteration', (), 0)
        if self.at is not None:
            w['actionTime'] = nxt if q.lt(self.at, nxt) else self.at
        if self.kind == 'cmd_send_message':
            w['str1'] = w['str2'] = self.i('key')
            w['messageID'] = ('op', '+', ('l', ('f', THIS, H + 'CommonCore::messageCounter')), C(1))
        w['payload'] = ('k', 'bytes', tuple(self.P[1:3]))
        return w

    def refuse(self, q):
        return q.eq(self.info, ZERO) or not q.eq(self.i('handleType'), C(self.I[{'cmd_pub': 'PUBLICATION'}.get(self.kind, 'ENDPOINT')]))

    def bit(self, q, b):
        return q.bit(self.i('flags'), b)

    def want(self, q):
        """'throw', 'nothing', 'targets', or the name a single message goes to"""
        if self.refuse(q):
            return 'throw'
        if self.kind == 'cmd_pub':
            if self.bit(q, self.F['disconnected_flag']) or not q.is_(self.i('used')):
                return 'nothing'
            if q.eq(('call', 'checkAndSetValue', (self.handle, self.P[1], self.P[2]), 0), ZERO):
                return 'nothing'
        if self.dest is not None and not q.eq(('p', '#', self.dest), ZERO):
            if self.bit(q, self.F['targeted_flag']):
                return 'among', self.dest
            return 'name', self.dest
        return 'targets'

    def all(self):
        return ('call', self.targets, (self.handle,), 0)

    def to(self, x, c, el):
        """destination fields for the element"""
        if self.by_name:
            p = ('f', el, 'std::pair::first')
            return {'dest_id': ('l', ('f', p, H + 'GlobalHandle::fed_id')), 'dest_handle': ('l', ('f', p, H + 'GlobalHandle::handle')), 'str0': ('l', ('f', el, 'std::pair::second')),
                    'flags': [self.F['filter_processing_required_flag']]}
        return {'dest_id': ('l', ('f', el, H + 'GlobalHandle::fed_id')), 'dest_handle': ('l', ('f', el, H + 'GlobalHandle::handle'))}

    def is_targets(self, x, c):
        v = x.val(c)
        return v == self.all() or ('L', c) == self.all() or c == ('m', self.all()) or ('l', c) == self.all()

    def each(self, x):
        o = outs(x.effs)
        if not o:
            return
        if not self.is_targets(x, x.c):
            return x.fail('something leaves for each element of a list that is not the list of targets')
        x.need(len(o) == 1, 'a target gets it twice')
        for e in o:
            for s, b in ref.cases(x.st, self.base):
                for f in fits(s, e[2], dict(b, **self.to(x, x.c, cont.el(x.c)))):
                    x.fail('what a target gets has another %s' % WORD[f])

    def pending(self, x):
        for k, v in x.st.env.items():
            if k[0] == 'v' and k[1].startswith('package pending') and v == C(1):
                x.fail('a package with messages is never handed over')

    def ex(self, x):
        self.pending(x)
        eff = around(x)
        o = outs(eff)
        for s, w in ref.cases(x.st, self.want):
            self.res.count('cases')
            if w == 'throw':
                x.fail('nothing is refused although the interface is not one to send from')
                continue
            if w == 'nothing':
                x.need(not o and not any(e[0] == 'turn' and e[3] for e in eff), 'something leaves although nothing should')
                continue
            if isinstance(w, tuple):
                self.single(x, s, eff, o, w)
                continue
            self.every(x, s, eff, o)

    def single(self, x, s, eff, o, w):
        x.need(not any(e[0] == 'turn' and e[3] for e in eff), 'something leaves for every target although one was named')
        x.need(len(o) == 1, 'a message with a destination leaves %s' % ('twice' if o else 'never'))
        for e in o:
            for s2, b in ref.cases(s, self.base):
                for f in fits(s2, e[2], dict(b, str0=w[1])):
                    x.fail('what leaves has another %s' % WORD[f])
        if w[0] == 'among':
            # the name was found in the list
            found = [k for k, v in s.facts.items() if k[0] == 'eq' and v is True and any('std::pair::second' in str(a) for a in k[1:]) and any(same(s, a, w[1]) for a in k[1:])]
            x.need(found, 'an endpoint with fixed targets sends to another destination')

    def every(self, x, s, eff, o):
        walks = {e[1] for e in eff if e[0] == 'walk' and (e[2] == self.all() or self.is_targets(x, e[1]))}
        turns = {}
        for e in eff:
            if e[0] == 'turn':
                turns.setdefault(e[2], (e[1], set()))[1].add(e[3])
        busy = {n: t for n, t in turns.items() if t[1] != {0}}
        if busy:
            x.need(all(t[1] == {1} for t in busy.values()), 'a target is left out')
            x.need(len(busy) == 1, 'a target gets it twice')
            x.need(all(t[0] in walks for t in busy.values()), 'not all targets are served')
            x.need(not o, 'something else leaves as well')
            return
        n = flow.const_of(s, ('p', '#', self.all()))
        if n is None and any(e[0] == 'walk' and e[1] in walks for e in eff) and not turns:
            n = ZERO                # the walk found no element
        if n == ZERO:
            return x.need(not o, 'something leaves although there is no target')
        if n != C(1) and not lone(x.st, ('p', '#', self.all())):
            return x.fail('not all targets are served')
        x.need(len(o) == 1, 'the only target gets it %s' % ('twice' if o else 'never'))
        for e in o:
            for s2, b in ref.cases(s, self.base):
                d = self.to(x, None, ('?',))
                for n in fits(s2, e[2], dict(b, **({'flags': d.pop('flags')} if 'flags' in d else {}))):
                    x.fail('what the only target gets has another %s' % WORD[n])
                for n, v in d.items():
                    root, path = apart(dict(e[2])[n])
                    x.need(path == apart(v)[1] and self.sole(x, root), 'what the only target gets has another %s' % WORD[n])

    def sole(self, x, root):
        """is this the only element of the targets?"""
        if root[0] == 'elt' and len(root) == 3:
            return (root[1] == self.all() or root[1][0] == 'l' and self.is_targets(x, root[1][1])) and root[2] in (ZERO, ('s', 'front'), ('s', 'back'))
        if root[0] == 'd' and root[1][0] == 'it':
            return self.is_targets(x, root[1][1])
        if root[0] == 'i' and len(root) == 3:
            return self.is_targets(x, root[1]) and root[2] in (ZERO, ('s', 'front'), ('s', 'back'))
        return False

    def throw(self, x):
        for s, w in ref.cases(x.st, self.want):
            if w == 'throw':
                continue
            if isinstance(w, tuple) and w[0] == 'among':
                found = [k for k, v in s.facts.items() if k[0] == 'eq' and v is True and any('std::pair::second' in str(a) for a in k[1:]) and any(same(s, a, w[1]) for a in k[1:])]
                x.need(not found, 'a message to one of the targets is refused')
                continue
            x.fail('a message that may leave is refused')
            return

    def run(self):
        self.turns = set()
        r = spec.check(self.res, 'C22', self.prog, self.fn, cls=self.cls(), exit=self.ex, each=self.each, throw=self.throw, sets=lambda l: False, cap=6000)
        return r

    def cls(self):
        L = type('L', (Leave,), {'multi': C(self.A['cmd_multi_message'])})
        return L


class Whole(Send):
    """a message the user made is sent"""

    def o(self, n):
        return ('fld', ('k', H + 'ActionMessage', (self.P[1],)), AM + n)

    def s(self, k):
        return ('fld', ('k', H + 'ActionMessage', (self.P[1],)), 'str%d' % k)

    def direct(self, q):
        return q.eq(self.handle, ('l', ('g', H + 'gDirectSendHandle')))

    def base(self, q):
        same = {'messageAction': part(self.o('messageAction')), 'payload': self.o('payload'), 'str2': self.s(2), 'str3': self.s(3)}
        if self.direct(q):
            return dict(same, messageID=self.o('messageID'), actionTime=self.o('actionTime'), str1=self.s(1), source_id=('l', ('f', THIS, H + 'BrokerBase::global_id')), source_handle=self.handle)
        w = super().base(q)
        nxt, at = w['actionTime'], self.o('actionTime')
        return dict(w, actionTime=nxt if q.lt(at, nxt) else at, str2=same['str2'], payload=same['payload'], messageAction=same['messageAction'],
                    messageID=w['messageID'] if q.eq(self.o('messageID'), ZERO) else self.o('messageID'))

    def want(self, q):
        if self.direct(q):
            return ('name', self.s(0)) if q.is_(('call', 'waitCoreRegistration', (), 0)) else 'throw'
        if self.refuse(q) or self.bit(q, self.F['receive_only_flag']):
            return 'throw'
        targeted = self.bit(q, self.F['targeted_flag'])
        if q.eq(('p', '#', self.s(0)), ZERO):
            return 'targets' if targeted else 'throw'
        return ('among' if targeted else 'name'), self.s(0)


class Translated(Send):
    """what a translator makes of a message or a value"""

    def __init__(self, res, prog, fn, kind):
        Send.__init__(self, res, prog, fn, kind, '', kind == 'cmd_send_message')
        self.cmd, self.tr = ('v', fn.params[0]['d'], (fn.line,)), ('d', self.P[1])
        self.subs = ('f', ('d', ('call', 'getPubInfo', (), 0)), H + 'PublicationInfo::subscribers')

    def all(self):
        return ('call', 'getTargets', (), 0) if self.by_name else ('l', self.subs)

    def is_targets(self, x, c):
        return c == self.subs if not self.by_name else super().is_targets(x, c)

    def to(self, x, c, el):
        if self.by_name:
            d = super().to(x, c, el)
            d.pop('flags')
            return d
        p = ('f', el, H + 'SubscriberInformation::id')
        return {'dest_id': ('l', ('f', p, H + 'GlobalHandle::fed_id')), 'dest_handle': ('l', ('f', p, H + 'GlobalHandle::handle'))}

    def t(self, *ns):
        l = self.tr
        for n in ns:
            l = ('f', l, H + n)
        return ('l', l)

    def made(self):
        return ('call', 'convertToMessage', (('l', ('f', self.cmd, AM + 'payload')),), 0)

    def value(self):
        return ('call', 'convertToValue', (('call', 'createMessageFromCommand', (('l', self.cmd),), 0),), 0)

    def base(self, q):
        if self.by_name:
            return {}
        at = ('call', 'computeNewValueTime', (('l', ('f', self.cmd, AM + 'actionTime')),), 0)
        return {'messageAction': C(self.A['cmd_pub']), 'source_id': self.t('TranslatorInfo::id', 'GlobalHandle::fed_id'), 'source_handle': self.t('TranslatorInfo::id', 'GlobalHandle::handle'),
                'payload': self.value(), 'actionTime': at}

    def want(self, q):
        if not q.is_(self.t('TranslatorInfo::tranOp')):
            return 'nothing'
        if self.by_name:
            return 'targets' if not q.eq(self.made(), ZERO) else 'nothing'
        if not q.lt(ZERO, ('p', '#', ('l', self.subs))):
            return 'nothing'
        return 'nothing' if q.eq(('fld', self.value(), H + 'SmallBuffer::bufferSize'), ZERO) else 'targets'

    def ex(self, x):
        super().ex(x)
        sent = outs(around(x)) or [e for e in around(x) if e[0] == 'turn' and e[3]]
        if self.by_name and sent:
            m = ('d', self.made())
            for n, v, what in (('time', ('call', 'computeNewMessageTime', (('l', ('f', self.cmd, AM + 'actionTime')),), 0), 'time'), ('source', self.t('TranslatorInfo::key'), 'source name'),
                               ('original_source', None, 'original source name')):
                got = x.val(('f', m, H + 'Message::' + n))
                if v is None:
                    v = ('call', 'getSourceName', (('k', H + 'GlobalHandle', tuple(('l', ('f', self.cmd, AM + k)) for k in ('source_id', 'source_handle'))),), 0)
                    x.need('getSourceName' in str(got), 'the message made of a value has another %s' % what)
                    continue
                x.need(same(x.st, got, v), 'the message made of a value has another %s' % what)

    def cls(self):
        L = super().cls()
        L.ask = ASK + ('getPubInfo', 'convertToValue', 'computeNewValueTime', 'convertToMessage', 'getTargets', 'getInputInfo', 'getEndpointInfo', 'getSourceName', 'computeNewMessageTime', 'createMessageFromCommand')
        return L

    def run(self):
        self.turns = set()
        return spec.check(self.res, 'C22', self.prog, self.fn, cls=self.cls(), exit=self.ex, each=self.each, env={('f', self.cmd, AM + 'messageAction'): C(self.A['cmd_pub' if self.by_name else 'cmd_send_message'])}, sets=lambda l: False, cap=6000)


class Asks(Leave):
    ask = ('minVal',)


def due(res):
    """when a publication lets a value pass"""
    prog = fx.load(['core/PublicationInfo.cpp'], [])
    fn = prog.fn(H + 'PublicationInfo::CheckSetValue')
    P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
    f = {n: ('l', ('f', THIS, H + 'PublicationInfo::' + n)) for n in ('minTimeGap', 'lastPublishTime', 'only_update_on_change', 'buffer_data', 'data')}
    zero = ('l', ('g', H + 'timeZero'))
    view = ('k', 'std::basic_string_view', (P[0], P[1]))
    held = ('k', 'std::basic_string_view', (('l', ('f', f['data'][1], H + 'SmallBuffer::heap')), ('l', ('f', f['data'][1], H + 'SmallBuffer::bufferSize'))))

    def want(x):
        def g(q):
            if q.lt(zero, f['minTimeGap']) and q.lt(('call', 'minVal', (), 0), f['lastPublishTime']) and q.lt(('op', '-', P[2], f['lastPublishTime']), f['minTimeGap']):
                return False, False
            if q.is_(f['only_update_on_change']) or q.is_(P[3]):
                return (False, False) if q.eq(view, held) else (True, True)
            return True, q.is_(f['buffer_data'])
        return g

    def ex(x):
        put = x.val(f['data'][1]) == ('k', 'bytes', (P[0], P[1]))
        for s, (passes, keep) in ref.cases(x.st, want(x)):
            res.count('cases')
            t = flow.truth(s, x.ret)
            x.need(t is passes, 'a value is %s although the settings say otherwise' % ('published' if t else 'held back'))
            x.need(put or not keep, 'what is published is not kept')
            x.need(not put or passes, 'the last value published is replaced by one that is not published')
            at = x.val(f['lastPublishTime'][1])
            x.need(at == (P[2] if passes else f['lastPublishTime']), 'the time of the last publication is not the one of the last value published')
    spec.check(res, 'C22', prog, fn, cls=Asks, exit=ex)


def asked(res, prog):
    """a federate answers for its publications"""
    fn = prog.fn(H + 'FederateState::checkAndSetValue')
    P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
    F = {n: ('l', ('f', THIS, H + 'FederateState::' + n)) for n in ('time_granted', 'only_transmit_on_change')}

    def called(rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        if name.startswith('std::scoped_lock'):
            return [(st, ZERO)]
        if s == 'getPublication':
            return [(st, ('call', s, tuple(eng.ev(st, fr, a) for a in args if a >= 0), 0))]
        if s == 'CheckSetValue':
            o = rule.objloc(eng, st, fr, obj)
            vals = tuple(eng.ev(st, fr, a) for a in args if a >= 0)
            rule.eff(eng, st, ('check', o, vals))
            return [(st, ('call', s, vals, 0))]

    def ex(x):
        e = [e for e in x.all() if e[0] == 'check']
        x.need(len(e) == 1, 'a value is checked %s' % ('twice' if e else 'nowhere'))
        for _, o, vals in e:
            x.need(o == ('d', ('call', 'getPublication', (P[0],), 0)), 'a value is checked for another publication')
            x.need(len(vals) == 4 and vals == (P[1], P[2], F['time_granted'], F['only_transmit_on_change']), 'a value is checked with other settings')
            t = x.truth(('call', 'CheckSetValue', vals, 0))
            x.need(t is not None and t == x.truth(x.ret), 'the answer of the publication is not the answer given')
    spec.check(res, 'C22', prog, fn, exit=ex, called=called)

    fn = prog.fn(H + 'FederateState::getSubscribers')
    pub = ('call', 'getPublication', (('l', ('v', fn.params[0]['d'], (fn.line,))),), 0)
    subs = ('f', ('d', pub), H + 'PublicationInfo::subscribers')

    def each(x):
        put = [e for e in x.effs if e[0] == 'mut']
        x.need(x.c == subs, 'other things than the subscribers are looked at')
        x.need(len(put) == 1 and put[0][2] in ('push_back', 'emplace_back'), 'a subscriber is not listed once')
        for e in put:
            v = flat(e[3])
            x.need(v and all(same(x.st, a, b) for a, b in zip(v, [('l', ('f', cont.el(subs), H + 'SubscriberInformation::id'))])), 'a subscriber is listed as another')

    def ex2(x):
        x.need(x.eq(pub, ZERO) is True or subs in x.done(), 'not all subscribers are listed')
    spec.check(res, 'C22', prog, fn, exit=ex2, each=each, called=called)


class Deliver:
    """a message that reached its core"""

    def __init__(self, res, prog, fn):
        self.res, self.prog, self.fn = res, prog, fn
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.F = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag')}
        self.I = names.enum_values(prog, H + 'InterfaceType')
        self.m = ('v', fn.params[0]['d'], (fn.line,))

    def f(self, n):
        return ('l', ('f', self.m, AM + n if n[:3] != 'str' else n))

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s in ('getInterfaceHandle', 'findHandle') and args:
            return [(st, ('call', s, tuple(eng.ev(st, fr, a) for a in args), 0))]
        if s in ('getInterfaceHandle', 'getFederateId', 'getSource', 'getDest') and not args:
            return None
        if s in ('getFederateCore', 'getRoute', 'destinationProcessMessage'):
            return [(st, ('call', s, tuple(eng.ev(st, fr, a) for a in args[:1] if s != 'destinationProcessMessage'), 0))]
        if s in ('addAction', 'handleMessage', 'transmit'):
            to = rule.objloc(eng, st, fr, obj) if s != 'transmit' else eng.ev(st, fr, args[0])
            rule.eff(eng, st, ('out', s, contents(eng, st, eng.lv(st, fr, args[-1])), to))
            return [(st, ZERO)]

    def want(self, q):
        dest = ('k', H + 'GlobalHandle', (self.f('dest_id'), self.f('dest_handle')))
        if not q.eq(self.f('messageAction'), C(self.A['cmd_send_message'])):
            return 'route', None, None
        up = q.eq(self.f('dest_id'), ('l', ('g', H + 'parent_broker_id')))
        found = ('call', 'getInterfaceHandle', (self.f('str0'), C(self.I['ENDPOINT'])), 0) if up else ('call', 'findHandle', (dest,), 0)
        if q.eq(found, ZERO):
            return 'beyond', None, None
        if q.bit(('l', ('f', ('d', found), H + 'BasicHandleInfo::flags')), self.F['has_dest_filter_flag']) and not q.is_(('call', 'destinationProcessMessage', (), 0)):
            return 'nothing', None, None
        fid = ('l', ('f', ('f', ('d', found), H + 'BasicHandleInfo::handle'), H + 'GlobalHandle::fed_id'))
        fed = ('call', 'getFederateCore', (fid,), 0)
        if not q.eq(fed, ZERO):
            return 'fed', ('d', fed), found if up else None
        tr = ('l', ('f', THIS, H + 'CommonCore::translatorFed'))
        if q.eq(fid, ('l', ('f', THIS, H + 'CommonCore::translatorFedID'))) and q.is_(tr):
            return 'translator', ('d', tr), found if up else None
        return 'nothing', None, None

    def ex(self, x):
        o = outs(around(x))
        known = ('f', THIS, H + 'CommonCore::knownExternalEndpoints')
        for s, (w, to, named) in ref.cases(x.st, self.want):
            self.res.count('cases')
            if w == 'nothing':
                x.need(not o, 'something is passed on although nothing should be')
                continue
            x.need(len(o) == 1, 'a message is passed on %s' % ('twice' if o else 'nowhere'))
            if len(o) != 1:
                continue
            _, how, m, at = o[0]
            x.need(how == {'fed': 'addAction', 'translator': 'handleMessage'}.get(w, 'transmit'), 'a message is passed on to another place')
            fs = {n: self.f(n) for n, _ in m if n not in ('dest_id', 'dest_handle', 'flags')}
            for n in fits(s, m, fs):
                x.fail('a message is passed on with another %s' % WORD.get(n, n))
            if w == 'route':
                x.need(at == ('call', 'getRoute', (self.f('dest_id'),), 0), 'a message takes a route that is not the one of its destination')
            elif w == 'beyond':
                has = [v for k, v in s.env.items() if k[0] == 'has' and k[1] == known]
                if at == ('l', ('g', H + 'parent_route_id')) or ref.peel(at) == ref.peel(('l', ('g', H + 'parent_route_id'))):
                    x.need(ZERO in has, 'a message for a known endpoint of another core goes to the parent')
                else:
                    x.need(contains(at, known) and 'second' in str(at) and ZERO not in has, 'a message for an endpoint of another core takes another route')
            else:
                x.need(at == to, 'a message is handed to another federate')
            d = dict(m)
            if named is not None:
                h = ('f', ('d', named), H + 'BasicHandleInfo::handle')
                x.need(same(s, d['dest_id'], ('l', ('f', h, H + 'GlobalHandle::fed_id'))) and (same(s, d['dest_handle'], ('l', ('f', h, H + 'GlobalHandle::handle')))), 'a message is handed over for another interface than the one with its name')
            else:
                x.need(same(s, d['dest_id'], self.f('dest_id')) and same(s, d['dest_handle'], self.f('dest_handle')), 'a message is passed on for another destination')

    def run(self):
        spec.check(self.res, 'C22', self.prog, self.fn, cls=type('D', (Leave,), {'multi': C(self.A['cmd_multi_message'])}), called=self.called, exit=self.ex, sets=lambda l: False, cap=6000)


class Unpacked:
    """what arrives in packages is handled as if it had arrived alone"""
    ends = ('cmd_terminate_immediately', 'cmd_stop', 'cmd_tick', 'cmd_base_configure', 'cmd_ping', 'cmd_error_check')

    def __init__(self, res, prog, fn):
        self.res, self.prog, self.fn = res, prog, fn
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.cmd = ('v', fn.params[0]['d'], (fn.line,))
        self.act = ('l', ('f', self.cmd, AM + 'messageAction'))
        self.V = ('texts',)

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if name.startswith('std::cmp_') and len(args) == 2:
            n = dict(fr.fn.nodes[i], op={'cmp_less': '<', 'cmp_greater': '>', 'cmp_not_equal': '!=', 'cmp_equal': '=='}.get(s.split('<')[0], '?'), c=args)
            return rule.on_compare(eng, st, fr, i, n) if n['op'] != '?' else None
        if s == 'getString' and len(args) == 1:
            return [(st, ('call', s, (('l', rule.objloc(eng, st, fr, obj)), eng.ev(st, fr, args[0])), 0))]
        if s == 'from_string':
            eng.write(st, ('f', rule.objloc(eng, st, fr, obj), 'text'), eng.ev(st, fr, args[0]))
            return [(st, ('call', s, (), 0))]
        if s == 'operator=' and name.startswith(AM):
            l = rule.objloc(eng, st, fr, obj if obj is not None and obj >= 0 else args[0])
            rule.eff(eng, st, ('taken', l, eng.read(st, ('f', eng.lv(st, fr, args[-1]), 'text'))))
            return [(st, ('L', l))]
        if s == 'commandProcessor':
            v = eng.read(st, ('f', eng.lv(st, fr, args[0]), 'text'))
            rule.eff(eng, st, ('run', v))
            return [(st, ('call', s, (v,), 0))]
        if s in ('processCommand', 'processPriorityCommand'):
            rule.eff(eng, st, ('one', s, eng.lv(st, fr, args[0])))
            return [(st, ZERO)]

    def text(self, x):
        for k, v in x.st.env.items():
            if k[0] == 'idxof' and v == self.V:
                return ('call', 'getString', (('l', self.cmd), ('idx',) + k[1:]), 0)

    def each(self, x):
        run = [e for e in x.effs if e[0] == 'run']
        x.need(x.c == self.V and len(run) == 1, 'a message of a package is handled %s' % ('twice' if run else 'never'))
        x.need(not run or run[0][1] == self.text(x), 'another text than the one at its place in the package is handled')
        x.need(not any(e[0] in ('taken', 'one') for e in x.effs), 'the package itself is changed while its messages are handled')
        for e in run:
            r = ('call', 'commandProcessor', (e[1],), 0)
            for s, ok in ref.cases(x.st, lambda q: q.eq(r, C(self.A['cmd_ignore'])) or q.eq(r, C(self.A['cmd_tick']))):
                x.need(ok, 'a package goes on after one of its messages has stopped the core or broker')

    def want(self, q):
        for n in ('cmd_ignore',) + self.ends + ('cmd_multi_message',):
            if q.eq(self.act, C(self.A[n])):
                return n
        if q.is_(('l', ('f', THIS, H + 'BrokerBase::haltOperations'))):
            return 'halted'
        return 'processPriorityCommand' if q.lt(self.act, ZERO) else 'processCommand'

    def ex(self, x):
        eff = [e for e in around(x) if e[0] in ('run', 'one', 'taken')]
        one = [e[1:] for e in eff if e[0] == 'one']
        ign = C(self.A['cmd_ignore'])
        for s, w in ref.cases(x.st, self.want):
            self.res.count('cases')
            if w == 'cmd_multi_message':
                if self.V in x.done():
                    x.need(not one, 'a package is handled as a message of its own')
                    x.need(x.ret == ign, 'the result of a package is not the one of its messages')
                    continue
                t = self.text(x)
                run = [e for e in x.st.rs[1] if e[0] == 'run']
                if len(run) != 1 or run[0][1] != t:
                    x.fail('not all messages of a package are handled')
                    continue
                r = ('call', 'commandProcessor', (t,), 0)
                for s2, ok in ref.cases(s, lambda q: q.eq(r, ign) or q.eq(r, C(self.A['cmd_tick']))):
                    x.need(not ok, 'not all messages of a package are handled')
                x.need(('taken', self.cmd, t) in eff and x.ret == r, 'the message that stops the core or broker is not the one passed on')
                continue
            x.need(not any(e[0] in ('run', 'taken') for e in eff), 'a message is taken for a package')
            if w.startswith('process'):
                x.need(one == [(w, self.cmd)], 'a message is not handled as what it is')
            else:
                x.need(not one, 'a message is handled although it only concerns the queue' if w != 'halted' else 'a message is handled after the halt')
            x.need(same(s, x.ret, self.act if w in self.ends else ign), 'the queue gets another answer')

    def run(self):
        k = type('U', (spec.Spec,), {'sized': {('l', ('f', self.cmd, AM + 'counter')): self.V}})
        spec.check(self.res, 'C22', self.prog, self.fn, cls=k, called=self.called, exit=self.ex, each=self.each, sets=lambda l: False)


def packed(res, prog):
    """one more message in a package"""
    fn = prog.fn(H + 'appendMessage')
    P = [('v', p['d'], (fn.line,)) for p in fn.params]
    A = names.enum_values(prog, H + 'action_message_def::action_t')
    n, act = (('l', ('f', P[0], AM + f)) for f in ('counter', 'messageAction'))

    def called(rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s == 'to_string':
            return [(st, ('call', s, (('l', rule.objloc(eng, st, fr, obj)),), 0))]
        if s == 'setString':
            rule.eff(eng, st, ('text', rule.objloc(eng, st, fr, obj)) + tuple(eng.ev(st, fr, a) for a in args))
            return [(st, ZERO)]

    def ex(x):
        put = [e for e in x.all() if e[0] == 'text']
        for s, room in ref.cases(x.st, lambda q: q.eq(act, C(A['cmd_multi_message'])) and q.lt(n, C(255))):
            res.count('cases')
            more = x.val(n[1])
            if room:
                x.need(put == [('text', P[0], n, ('call', 'to_string', (('l', P[1]),), 0))], 'a message is not put at the next place of its package')
                x.need(more == ('op', '+', n, C(1)) or more == ('op', '+', C(1), n), 'the number of messages of a package does not grow by one')
                x.need(flow.known_lt(s, x.ret, ZERO) is not True and (x.ret == more or flow.known_lt(s, x.ret, ZERO) is False), 'a message that was put into a package is reported as refused')
            else:
                x.need(not put and more == n, 'a message is put into a full package, or into something that is no package')
                x.need(flow.known_lt(s, x.ret, ZERO) is True or x.ret[0] == 'c' and x.ret[1] < 0, 'a message that was not put into a package is reported as put')
    spec.check(res, 'C22', prog, fn, called=called, exit=ex, sets=lambda l: False)


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/CommonCore.cpp'], [])
    CC = H + 'CommonCore::'
    Send(res, prog, prog.fn(CC + 'setValue'), 'cmd_pub', 'getSubscribers', False).run()
    M = ('cmd_send_message', 'getMessageDestinations', True)
    for name, kw in (('send', {}), ('sendAt', {'at': 3}), ('sendTo', {'dest': 3}), ('sendToAt', {'dest': 3, 'at': 4})):
        Send(res, prog, prog.fn(CC + name), *M, **kw).run()
    Whole(res, prog, prog.fn(CC + 'sendMessage'), *M).run()
    Deliver(res, prog, prog.fn(CC + 'deliverMessage')).run()
    bp = fx.load(['core/BrokerBase.cpp'], [])
    Unpacked(res, bp, bp.fn(H + 'BrokerBase::commandProcessor')).run()
    packed(res, fx.load(['core/ActionMessage.cpp'], []))
    due(res)
    asked(res, fx.load(['core/FederateState.cpp'], []))
    tp = fx.load(['core/TranslatorFederate.cpp'], [])
    for kind in ('cmd_pub', 'cmd_send_message'):
        Translated(res, tp, tp.fn(H + 'TranslatorFederate::executeTranslator'), kind).run()
    return res
