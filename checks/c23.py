"""C23: what reaches a federate is handled once, in order, and ends where it is meant"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, ZERO, THIS
from c21 import flat
from c22 import Leave, contents, same, around

H = 'helics::'
AM = H + 'ActionMessage::'
FS = H + 'FederateState::'
RES = H + 'MessageProcessingResult'


def this(n):
    return ('l', ('f', THIS, FS + n))


QUIET = ('checkValueBufferWarning', 'logMessage', 'printTimeStatus', 'getSourceName', 'processQueryActual', 'prettyPrintString', 'insert', 'generateProfilingMessage', 'setState')


class Arrives:
    """data: into the interface it is for, counted in the time"""

    def __init__(self, res, prog):
        self.res, self.prog = res, prog
        self.fn = prog.fn(FS + 'processDataMessage')
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.S = names.enum_values(prog, H + 'FederateStates')
        self.T = names.enum_values(prog, H + 'TimeSynchronizationMethod')
        self.cmd = ('v', self.fn.params[0]['d'], (self.fn.line,))
        self.inp, self.ept = (('call', n, (self.f('dest_handle'),), 0) for n in ('getInput', 'getEndpoint'))
        self.srcs = ('f', ('d', self.inp), H + 'InputInfo::input_sources')

    def f(self, n):
        return ('l', ('f', self.cmd, AM + n))

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s in ('getInput', 'getEndpoint') and args:
            v = tuple(eng.ev(st, fr, a) for a in args)
            while v[0][0] == 'k' and len(v[0][2]) == 1:
                v = v[0][2]
            return [(st, ('call', s, v, 0))]
        if s == 'createMessageFromCommand':
            return [(st, ('call', s, (('k', 'msg', contents(eng, st, eng.lv(st, fr, args[0]))),), 0))]
        if s == 'addMessage':
            v = eng.ev(st, fr, args[0])
            made = tuple(sorted((k[2].split('::')[-1], w) for k, w in st.env.items() if k[0] == 'f' and k[1] == ('d', v)))
            rule.eff(eng, st, ('msg', rule.objloc(eng, st, fr, obj), v, made))
            return [(st, ZERO)]
        if s in ('updateMessageTime', 'updateValueTime', 'processTimeMessage'):
            rule.eff(eng, st, (s,) + tuple(eng.ev(st, fr, a) for a in args))
            return [(st, ('call', s, (), 0))]
        if s == 'addData':
            rule.eff(eng, st, (s, rule.objloc(eng, st, fr, obj)) + tuple(eng.ev(st, fr, a) for a in args))
            return [(st, ('call', s, (), 0))]
        if s.startswith('make_shared') and args:
            return [(st, ('k', 'shared', tuple(eng.ev(st, fr, a) for a in args)))]
        if s in QUIET or name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))]

    def open(self):
        return flow.rel_term('==', this('timeGranted_mode'), ZERO)

    def moment(self, q):
        """the time a value counts at"""
        if q.eq(this('timeMethod'), C(self.T['ASYNC'])) and q.lt(self.f('actionTime'), this('time_granted')):
            return this('time_granted')
        return self.f('actionTime')

    def mine(self, el):
        return lambda q: q.eq(self.f('source_id'), ('l', ('f', el, H + 'GlobalHandle::fed_id'))) and q.eq(self.f('source_handle'), ('l', ('f', el, H + 'GlobalHandle::handle')))

    def data(self, x, effs, turn):
        """the effects for one source of an input"""
        el = cont.el(self.srcs)
        put = [e for e in effs if e[0] == 'addData']
        upd = [e for e in effs if e[0] == 'updateValueTime']
        for s, (m, at) in ref.cases(x.st, lambda q: (self.mine(el)(q), self.moment(q))):
            self.res.count('cases')
            if not m:
                x.need(not put and not upd, 'an input gets a value of another source')
                continue
            x.need(len(put) == 1, 'a value is put into its input %s' % ('twice' if put else 'never'))
            for e in put:
                x.need(e[1] == ('d', self.inp), 'a value is put into another input')
                v = e[2:]
                x.need(len(v) == 4 and (v[0] == ('l', el) or flat([v[0]]) == flat([('l', el)])), 'a value is put under another source')
                x.need(len(v) == 4 and same(s, v[1], at), 'a value is put with another time')
                x.need(len(v) == 4 and same(s, v[2], self.f('counter')), 'a value is put with another iteration')
                x.need(len(v) == 4 and v[3] == ('k', 'shared', (self.f('payload'),)), 'other data than what arrived is put')
            add = flow.truth(s, ('call', 'addData', (), 0))
            hush = flow.truth(s, ('l', ('f', ('d', self.inp), H + 'InputInfo::not_interruptible')))
            want = add is True and hush is False
            x.need(len(upd) == (1 if want else 0), 'the time of a value %s' % ('does not count' if want else 'counts although it should not'))
            for e in upd:
                x.need(same(s, e[1], at) and self.is_open(s, e[2]), 'a value counts at another time')

    def is_open(self, s, v):
        return v == self.open() or flow.truth(s, v) is not None and flow.truth(s, v) is (not flow.truth(s, this('timeGranted_mode'))) or v == ('not', this('timeGranted_mode'))

    def each(self, x):
        x.need(x.c == self.srcs, 'another list than the sources of the input is searched')
        self.data(x, x.effs, True)

    def want(self, q):
        if q.eq(self.f('messageAction'), C(self.A['cmd_send_message'])):
            if q.eq(self.ept, ZERO) or q.is_(('l', ('f', ('d', self.ept), H + 'EndpointInfo::sourceOnly'))):
                return 'nothing', None
            least = this('minimumReceiveTime')
            return 'message', least if q.lt(self.f('actionTime'), least) else self.f('actionTime')
        if not q.eq(self.f('messageAction'), C(self.A['cmd_pub'])):
            return 'nothing', None
        if q.eq(self.inp, ZERO):
            return ('nothing', None) if q.eq(self.ept, ZERO) else ('made', self.f('actionTime'))
        return 'value', None

    def ex(self, x):
        eff = [e for e in around(x) if e[0] in ('msg', 'updateMessageTime', 'updateValueTime', 'processTimeMessage', 'addData')]
        kinds = lambda n: [e for e in eff if e[0] == n]
        tell = kinds('processTimeMessage')
        for s, (w, at) in ref.cases(x.st, self.want):
            self.res.count('cases')
            if w == 'nothing':
                x.need(not eff, 'something happens although there is no interface for what arrived')
                continue
            runs = flow.known_lt(s, C(self.S['EXECUTING']), self.state(s))
            x.need(runs is not None and len(tell) == (0 if runs else 1), 'the time coordination is %s' % ('not told' if runs is False else 'told after the end'))
            if w == 'value':
                x.need(not kinds('msg'), 'a value becomes a message')
                if self.srcs in x.done():
                    x.need(not kinds('addData') and not kinds('updateValueTime'), 'a value is put although its source is unknown')
                else:
                    self.data(x, eff, False)
                    m = [ok for _, ok in ref.cases(s, self.mine(cont.el(self.srcs)))]
                    x.need(all(m), 'the search for the source ends too early')
                continue
            x.need(not kinds('addData'), 'a message becomes a value')
            got, upd = kinds('msg'), kinds('updateMessageTime')
            x.need(len(got) == 1, 'a message is put into its endpoint %s' % ('twice' if got else 'never'))
            x.need(len(upd) == 1 and same(s, upd[0][1], at) and self.is_open(s, upd[0][2]), 'a message does not count at its time')
            for e in got:
                x.need(e[1] == ('d', self.ept), 'a message is put into another endpoint')
                if w == 'message':
                    if e[2][:2] != ('call', 'createMessageFromCommand'):
                        x.fail('another message than the one that arrived is put')
                        continue
                    for n, v in e[2][2][0][2]:
                        want = at if n == 'actionTime' else self.f(n) if n[:3] != 'str' else ('l', ('f', self.cmd, n))
                        x.need(v == want or same(s, v, want), 'a message is put with another %s' % n)
                else:
                    m = dict(e[3])
                    key = ('l', ('f', ('d', self.ept), H + 'EndpointInfo::key'))
                    for n, v in (('data', self.f('payload')), ('dest', key), ('original_dest', key), ('flags', self.f('flags')), ('time', at), ('counter', self.f('counter')), ('messageID', self.f('messageID'))):
                        x.need(n in m and same(s, m[n], v), 'a value that arrives at an endpoint gets another %s' % n)

    def state(self, s):
        for k in s.facts:
            if k[0] in ('lt', 'eq') and any('FederateState::state' in str(a) for a in k[1:]):
                return [a for a in k[1:] if 'FederateState::state' in str(a)][0]
        return this('state')

    def run(self):
        spec.check(self.res, 'C23', self.prog, self.fn, cls=type('L', (Leave,), {'multi': C(self.A['cmd_multi_message'])}), called=self.called, exit=self.ex, each=self.each, sets=lambda l: False)


ANSWER = ('call', 'processActionMessage', (), 0)
LATER = ('call', 'messageShouldBeDelayed', (), 0)


class Queue(spec.Spec):
    """what is taken from the queue is handled or kept for later, once"""
    multi = None

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.eh = False

    def mark(self, st, v=None):
        k = ('v', 'taken', ())
        if v is None:
            return st.env.get(k, C(0))[1]
        st.env[k] = C(v)
        st._k = None

    def forget(self, st, t):
        for k in [k for k in st.facts if flow.contains(k, t)]:
            del st.facts[k]
        st._k = None

    def settled(self, eng, st, fr, i):
        """the message taken last is dealt with"""
        m = self.mark(st)
        if m == 1:
            self.fail(fr, i, 'a message taken from the queue is lost')
        if m == 2 and flow.known_eq(st, ANSWER, self.delay) is not False:
            self.fail(fr, i, 'a message that has to wait is lost')

    def take(self, eng, st, fr, i):
        self.settled(eng, st, fr, i)
        if ('v', 'waiting', ()) not in st.env:
            self.fail(fr, i, 'new messages are taken before those that wait are looked at')
        self.forget(st, ANSWER)
        self.forget(st, LATER)
        self.mark(st, 1)

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s in ('pop', 'try_pop') and 'queue' in str(self.objloc(eng, st, fr, obj)):
            out = []
            if s == 'try_pop':
                s2 = st.copy()
                self.settled(eng, s2, fr, i)
                self.mark(s2, 0)
                s2._k = None
                out.append((s2, ZERO))
            self.take(eng, st, fr, i)
            v = ('call', s, (), 0)
            self.forget(st, v)
            flow.assume_eq(st, v, ZERO, False)
            return out + [(st, v)]
        if s == 'messageShouldBeDelayed':
            return [(st, LATER)]
        if s == 'processActionMessage':
            m = self.mark(st)
            if m != 1:
                self.fail(fr, i, 'a message is handled again')
            if flow.truth(st, LATER) is not False:
                self.fail(fr, i, 'a message is handled before earlier ones of the same federate')
            self.forget(st, ANSWER)
            self.mark(st, 2)
            return [(st, ANSWER)]
        if s == 'processDelayQueue':
            st.env[('v', 'waiting', ())] = C(1)
            st._k = None
            return [(st, ('call', s, (), 0))]
        if s in ('push_back', 'emplace_back') and 'delayQueues' in str(self.objloc(eng, st, fr, obj)):
            m = self.mark(st)
            if m == 3 or m == 0:
                self.fail(fr, i, 'a message is kept for later twice')
            if m == 1 and flow.truth(st, LATER) is not True:
                self.fail(fr, i, 'a message that could be handled is kept for later')
            if m == 2 and flow.known_eq(st, ANSWER, self.delay) is not True:
                self.fail(fr, i, 'a message that was handled is kept for later')
            v, l = eng.ev(st, fr, args[0]), self.objloc(eng, st, fr, obj)
            if 'source_id' not in str(l) or AM[:-2] not in str(l):
                self.fail(fr, i, 'a message is kept for later under another federate')
            self.mark(st, 3)
            return [(st, ZERO)]
        if s in QUIET or s in ('localError', 'addActionMessage', 'callbackReturnResult') or name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))]
        return super().called(eng, st, fr, i, name, obj, args)

    def on_exit(self, eng, st, fr, kind, ret):
        self.settled(eng, st, fr, 0)
        return super().on_exit(eng, st, fr, kind, ret)


class Waiting(Queue):
    """what was kept is handled in order once it may be: each list of one federate from its front"""

    def front(self, eng, st, l):
        return l[0] == 'i' and l[2] == ('s', 'front') and l[1] == ('f', cont.el(('f', THIS, FS + 'delayQueues')), 'std::pair::second')

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s == 'messageShouldBeDelayed':
            if not self.front(eng, st, eng.lv(st, fr, args[0])):
                self.fail(fr, i, 'another message than the next one is asked about')
            return [(st, LATER)]
        if s == 'processActionMessage':
            if not self.front(eng, st, eng.lv(st, fr, args[0])):
                self.fail(fr, i, 'another message than the next one is handled')
            if self.mark(st) == 2:
                self.fail(fr, i, 'a message is handled again')
            if flow.truth(st, LATER) is not False:
                self.fail(fr, i, 'a message is handled before earlier ones of the same federate')
            self.forget(st, ANSWER)
            self.mark(st, 2)
            out = []
            for v in (self.go_on, self.delay, None):
                s2 = st.copy()
                if v is None:
                    flow.assume_lt(s2, ANSWER, ZERO, False)
                else:
                    flow.assume_eq(s2, ANSWER, v, True)
                s2._k = None
                out.append((s2, ANSWER if v is None else v))
            return out
        if s in ('pop_front', 'pop_back', 'erase', 'clear') and 'delayQueues' in str(self.objloc(eng, st, fr, obj)):
            if s != 'pop_front' or self.mark(st) != 2 or flow.known_eq(st, ANSWER, self.delay) is not False:
                self.fail(fr, i, 'a message that waits is lost')
            self.mark(st, 1)
            self.forget(st, LATER)
        return spec.Spec.called(self, eng, st, fr, i, name, obj, args)

    def end_of(self, eng, st, fr, i, c):
        """the list of one federate is left"""
        q = ('f', cont.el(c), 'std::pair::second')
        m = self.mark(st)
        if m == 2:
            if flow.known_eq(st, ANSWER, self.delay) is not True:
                self.fail(fr, i, 'a message that was handled stays in its list')
        elif flow.truth(st, LATER) is not True and flow.known_eq(st, cont.sz(eng, st, q), ZERO) is not True:
            self.fail(fr, i, 'a list is left although its next message could be handled')
        self.mark(st, 0)
        self.forget(st, LATER)
        self.forget(st, ANSWER)

    def it_next(self, eng, st, fr, i, c):
        self.end_of(eng, st, fr, i, c)
        super().it_next(eng, st, fr, i, c)

    def on_exit(self, eng, st, fr, kind, ret):
        if fr.depth == 0:
            Q = ('f', THIS, FS + 'delayQueues')
            done = any(e[0] == 'walk' and e[1] == Q for e in st.rs[0]) or flow.known_eq(st, cont.sz(eng, st, Q), ZERO) is True
            if not done:
                if flow.known_lt(st, ANSWER, ZERO) is not False or ret != ANSWER:
                    self.fail(fr, 0, 'waiting messages are left although nothing was granted')
                if self.mark(st) == 2:
                    self.fail(fr, 0, 'a message that was handled stays in its list')
        return spec.Spec.on_exit(self, eng, st, fr, kind, ret)

    def it_done(self, eng, st, fr, i, c):
        super().it_done(eng, st, fr, i, c)
        st.rs = (st.rs[0] | {('walk', c)}, st.rs[1], st.rs[2])


def queues(res, prog):
    R = names.enum_values(prog, RES)
    k = type('Q', (Queue,), {'delay': C(R['DELAY_MESSAGE'])})
    for n in ('processQueue', 'callbackProcessing'):
        fn = prog.fn(FS + n)
        spec.check(res, 'C23', prog, fn, cls=k, exit=lambda x: res.count('cases'), sets=lambda l: False, cap=4000)
    fn = prog.fn(FS + 'processDelayQueue')
    spec.check(res, 'C23', prog, fn, cls=type('W', (Waiting,), {'delay': C(R['DELAY_MESSAGE']), 'go_on': C(R['CONTINUE_PROCESSING'])}), exit=lambda x: res.count('cases'), sets=lambda l: False)


def told(res, prog):
    """what follows from the answer of the coordination"""
    fn = prog.fn(FS + 'checkProcResult')
    R = names.enum_values(prog, RES)
    S = names.enum_values(prog, H + 'FederateStates')
    A = names.enum_values(prog, H + 'action_message_def::action_t')
    pr, cmd = (('v', p['d'], (fn.line,)) for p in fn.params)
    m = lambda n: ('l', ('f', cmd, AM + n))
    state, result, granted = (('call', 'std::get', (k,), 0) for k in range(3))
    own = ('l', ('g', 'x'))

    def called(rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if name.startswith('std::get<') or name == 'std::get':
            import re
            n = fr.fn.nodes[i].get('t', '')
            k = 0 if 'FederateStates' in n else 1 if 'MessageProcessingResult' in n else 2
            return [(st, ('call', 'std::get', (k,), 0))]
        if s == 'getState':
            return [(st, ('call', s, (), 0))]
        if s in ('addFederateToDelay', 'routeMessage', 'processActionMessage', 'setState', 'enterInitialization', 'updateTimeFactors', 'checkInterfaces', 'commandErrorString'):
            rule.eff(eng, st, (s,) + tuple(flat([eng.ev(st, fr, a) for a in args])))
            return [(st, ('call', s, (), 0))]
        if s in ('getGrantedTime', 'allowedSendTime'):
            return [(st, ('call', s, (), 0))]
        if s in ('logMessage', 'prettyPrintString', 'to_string') or name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))]

    def ex(x):
        eff = x.all()
        does = lambda n: [e[1:] for e in eff if e[0] == n]

        def want(q):
            new = not q.eq(('call', 'getState', (), 0), state)
            w = {'state': [(state,)] if new else [], 'init': 0, 'exec': 0}
            if new and q.eq(state, C(S['INITIALIZING'])):
                if not q.eq(('call', 'checkInterfaces', (), 0), ZERO):
                    return dict(w, state=[(state,), (C(S['ERRORED']),)], ret=C(R['ERROR_RESULT']), delay=0, route=0, again=0)
                w['init'] = 1
            elif new and q.eq(state, C(S['EXECUTING'])):
                w['exec'] = 1
            w.update(delay=0, route=0, again=0)
            if q.eq(result, C(R['CONTINUE_PROCESSING'])):
                return dict(w, ret=None)
            if q.eq(result, C(R['REPROCESS_MESSAGE'])):
                if q.eq(m('dest_id'), ('l', ('f', THIS, FS + 'global_id'))):
                    return dict(w, again=1, ret=('call', 'processActionMessage', (), 0))
                return dict(w, route=1, ret=C(R['CONTINUE_PROCESSING']))
            if q.eq(result, C(R['DELAY_MESSAGE'])):
                return dict(w, delay=1, ret=C(R['DELAY_MESSAGE']))
            return dict(w, ret=result, grant=q.is_(granted))
        for s, w in ref.cases(x.st, want):
            res.count('cases')
            x.need(set(does('setState')) == set(w['state']), 'the federate takes another state than the one the coordination gave')
            x.need(len(does('enterInitialization')) == w['init'] and len(does('updateTimeFactors')) == w['exec'], 'the coordination is not told of the new state')
            d = does('addFederateToDelay')
            x.need(len(d) == w['delay'] and all(len(e) == 1 and same(s, e[0], m('source_id')) for e in d), 'the later messages of the federate whose message has to wait %s' % ('do not wait' if not d else 'wait without need'))
            x.need(len(does('routeMessage')) == w['route'] and len(does('processActionMessage')) == w['again'], 'a message that was changed is not handled as what it became')
            ret = x.ret
            while ret is not None and ret[0] == 'k' and len(ret[2]) == 1:
                ret = ret[2][0]
            if ret is not None and ret[0] == 'l' and ret[1][0] == 'g' and ret[1][1].startswith(RES + '::'):
                ret = C(R[ret[1][1].split('::')[-1]])
            if w['ret'] is None:
                x.need(ret in (None, ('l', ('g', 'std::nullopt'))) or ret[0] == 'k' and not ret[2], 'a message the coordination did not take is not handled')
            else:
                x.need(ret is not None and same(s, ret, w['ret']), 'another result than that of the coordination is passed on')
            x.need(same(s, x.val(this('timeGranted_mode')[1]), granted), 'whether the federate is granted is not what the coordination says')
            if w.get('grant'):
                x.need(x.val(this('time_granted')[1]) == ('call', 'getGrantedTime', (), 0), 'the granted time is not the one of the coordination')
                x.need(x.val(this('allowed_send_time')[1]) == ('call', 'allowedSendTime', (), 0), 'the time allowed for sending is not the one of the coordination')
            else:
                x.need(x.val(this('time_granted')[1]) == this('time_granted'), 'the granted time changes without a grant')
    spec.check(res, 'C23', prog, fn, called=called, exit=ex, sets=lambda l: False)


class Handled:
    """each kind of message goes to what handles it"""
    PLACES = dict(processDataMessage='send_message pub', processLoggingMessage='log remote_log warning set_profiler_flag timeout_disconnect', timeoutCheck='grant_timeout_check',
                  processDataConnectionMessage='add_publisher add_subscriber add_endpoint remove_named_publication remove_publication remove_subscriber remove_endpoint close_interface',
                  setInterfaceProperty='interface_configure', sendCommand='send_command send_command_ordered')
    ASKS = ('processDelayQueue', 'getLastGrant', 'nextValueTime', 'nextMessageTime', 'checkTimeGrant', 'getGrantedTime', 'allowedSendTime', 'processCoordinatorMessage', 'checkProcResult', 'getState', 'processQueryActual')
    DOES = tuple(PLACES) + ('disconnect', 'disconnectFederate', 'routeMessage', 'setState', 'processTimeMessage', 'addFederateToDelay', 'timeRequest', 'processActionMessage', 'setProperty', 'setOptionFlag',
                            'addDependent', 'addDependency', 'setAsParent', 'setGlobalId', 'setSourceId')

    def __init__(self, res, prog):
        self.res, self.prog = res, prog
        self.fn = prog.fn(FS + 'processActionMessage')
        self.A = names.enum_values(prog, H + 'action_message_def::action_t')
        self.S = names.enum_values(prog, H + 'FederateStates')
        self.R = names.enum_values(prog, RES)
        self.TR = names.enum_values(prog, H + 'TimeProcessingResult')
        self.I = names.enum_values(prog, H + 'IterationRequest')
        self.F = {y[0]: y[1] for q in prog.enums.values() for y in q['e'] if y[0].endswith('_flag')}
        self.cmd = ('v', self.fn.params[0]['d'], (self.fn.line,))
        self.place = {self.A['cmd_' + a]: k for k, v in self.PLACES.items() for a in v.split()}

    def f(self, n):
        return ('l', ('f', self.cmd, AM + n))

    def called(self, rule, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if s == 'setAction' and args:
            eng.write(st, ('f', rule.objloc(eng, st, fr, obj), AM + 'messageAction'), eng.ev(st, fr, args[0]))
            return [(st, ZERO)]
        if s in self.ASKS:
            return [(st, ('call', s, (), 0))]
        if s in self.DOES and (s != 'setState' or args):
            v = []
            for a in args:
                if 'ActionMessage' in fr.fn.nodes[a].get('t', ''):
                    l = eng.lv(st, fr, a)
                    v.append((l, contents(eng, st, l)))
                else:
                    v += flat([eng.ev(st, fr, a)])
            if s == 'disconnect' and 'timeCoord' not in str(rule.objloc(eng, st, fr, obj)):
                return None
            rule.eff(eng, st, ('does', s) + tuple(v))
            return [(st, ('call', s, (), 0))]
        if s in ('logMessage', 'prettyPrintString', 'commandErrorString', 'operator==', 'name') or name.startswith('fmt::'):
            return [(st, ('call', s, (), 0))] if s != 'operator==' else None

    def held(self, q):
        for k in q.st.facts:
            for a in k[1:]:
                if isinstance(a, tuple) and a != this('state') and flow.contains(a, this('state')) and a[0] != 'op':
                    return a
        return this('state')

    def own(self, q):
        return q.eq(self.f('source_id'), ('l', ('f', THIS, FS + 'global_id')))

    def bit(self, q, n):
        return q.bit(self.f('flags'), self.F[n])

    def goes(self, q):
        """a federate that leaves"""
        if q.eq(self.held(q), C(self.S['FINISHED'])) or q.eq(self.held(q), C(self.S['TERMINATING'])):
            return {'do': []}
        return {'do': ['disconnect'] + ([] if q.eq(self.held(q), C(self.S['ERRORED'])) else ['setState']) + ['routeMessage'], 'out': True}

    def want(self, q):
        A, act = self.A, self.f('messageAction')
        on = C(self.R['CONTINUE_PROCESSING'])
        first = []
        is_ = lambda *ns: any(q.eq(act, C(A['cmd_' + n])) for n in ns)
        asked = is_('time_request') and self.own(q) and self.bit(q, 'indicator_flag')
        if asked:
            first = ['timeRequest']
            it = 'NO_ITERATIONS'
            if self.bit(q, 'iteration_requested_flag'):
                it = 'FORCE_ITERATION' if self.bit(q, 'required_flag') else 'ITERATE_IF_NEEDED'
            w = {'it': C(self.I[it])}
            if q.le(ZERO, ('call', 'processDelayQueue', (), 0)):
                return dict(w, do=first, ret=('call', 'processDelayQueue', (), 0))
        else:
            w = {}
        r = ('call', 'checkProcResult', (), 0)
        if q.is_(r):
            return dict(w, do=first, ret=('l', ('d', r)))
        if asked:
            return dict(w, do=first, ret=on)
        for k, v in self.place.items():
            if q.eq(act, C(k)):
                return {'do': [v], 'ret': on}
        if is_('exec_request'):
            if not (self.own(q) and self.bit(q, 'indicator_flag')):
                return {'do': [], 'ret': on}
            d = ('call', 'processDelayQueue', (), 0)
            if q.le(ZERO, d):
                return {'do': [], 'ret': d}
            return {'do': ['processActionMessage'], 'ret': ('call', 'processActionMessage', (), 0), 'check': True}
        if is_('global_disconnect', 'user_disconnect'):
            return dict(self.goes(q), ret=on)
        if is_('disconnect_fed', 'disconnect'):
            if self.own(q):
                return dict(self.goes(q), ret=on)
            t = ('call', 'processTimeMessage', (), 0)
            if q.eq(t, C(self.TR['DELAY_PROCESSING'])):
                return {'do': ['processTimeMessage', 'addFederateToDelay'], 'ret': C(self.R['DELAY_MESSAGE'])}
            if q.eq(t, C(self.TR['NOT_PROCESSED'])) or not q.eq(self.held(q), C(self.S['EXECUTING'])):
                return {'do': ['processTimeMessage'], 'ret': on}
            w = {'do': ['processTimeMessage', 'disconnectFederate']}
            g = ('call', 'checkTimeGrant', (), 0)
            if not q.is_(this('timeGranted_mode')) and q.le(ZERO, g):
                return dict(w, ret=g, grant=True)
            return dict(w, ret=on)
        if is_('query', 'query_ordered'):
            return {'do': ['routeMessage'], 'ret': on, 'answer': 'cmd_query_reply' if is_('query') else 'cmd_query_reply_ordered'}
        if is_('fed_ack', 'fed_configure_time', 'fed_configure_int', 'fed_configure_flag'):
            return None
        return {'do': [], 'ret': on}

    def ex(self, x):
        eff = [e[1:] for e in x.all() if e[0] == 'does']
        par = ('l', ('g', H + 'parent_broker_id'))
        for s, w in ref.cases(x.st, self.want, limit=40000):
            self.res.count('cases')
            if w is None:
                x.need(not any(e[0] in self.PLACES or e[0] in ('disconnect', 'disconnectFederate', 'routeMessage') for e in eff), 'a message is handled as another kind')
                continue
            x.need(sorted(e[0] for e in eff) == sorted(w['do']), 'a message %s' % ('is not handled' if len(eff) < len(w['do']) else 'is handled as another kind'))
            x.need(x.ret is not None and same(s, x.ret, w['ret']), 'another result is passed on')
            for e in eff:
                if e[0] in self.PLACES or e[0] == 'processTimeMessage':
                    x.need(len(e) == 2 and e[1][0] == self.cmd, 'another message is handled')
                if e[0] == 'addFederateToDelay':
                    x.need(same(s, e[1], self.f('source_id')), 'another federate has to wait')
                if e[0] == 'setState':
                    x.need(e[1] == C(self.S['TERMINATING']), 'a federate that leaves takes another state')
                if e[0] == 'disconnectFederate':
                    x.need(same(s, e[1], self.f('source_id')) and e[2] == ('call', 'getLastGrant', (), 0), 'another federate is taken out, or at another time')
                if e[0] == 'routeMessage':
                    m = dict(e[1][1])
                    if w.get('out'):
                        x.need(same(s, m['dest_id'], par) and same(s, m['messageAction'], self.f('messageAction')) and same(s, m['source_id'], self.f('source_id')), 'the parent is not told that the federate leaves')
                    if w.get('answer'):
                        x.need(m['messageAction'] == C(self.A[w['answer']]) and same(s, m['dest_id'], self.f('source_id')) and same(s, m['messageID'], self.f('messageID')) and same(s, m['counter'], self.f('counter')) and
                               same(s, m['source_id'], self.f('dest_id')), 'a query is not answered to the one that asked')
                        x.need('processQueryActual' in str(m['payload']), 'a query gets something else than its answer')
                if e[0] == 'timeRequest':
                    x.need(len(e) == 5 and same(s, e[1], self.f('actionTime')) and same(s, e[2], w['it']) and e[3] == ('call', 'nextValueTime', (), 0) and e[4] == ('call', 'nextMessageTime', (), 0), 'another time is requested')
                if e[0] == 'processActionMessage' and w.get('check'):
                    x.need(e[1][0] == self.cmd and dict(e[1][1])['messageAction'] == C(self.A['cmd_exec_check']), 'the request to execute is not checked')
            if 'timeRequest' in w['do']:
                x.need(x.val(this('timeGranted_mode')[1]) == ZERO, 'a federate that requests time counts as granted')
            if w.get('grant'):
                x.need(x.val(this('timeGranted_mode')[1]) == C(1) and x.val(this('time_granted')[1]) == ('call', 'getGrantedTime', (), 0) and x.val(this('allowed_send_time')[1]) == ('call', 'allowedSendTime', (), 0),
                       'a grant is not taken over')

    def run(self):
        spec.check(self.res, 'C23', self.prog, self.fn, cls=type('L', (Leave,), {'multi': C(self.A['cmd_multi_message'])}), called=self.called, exit=self.ex, sets=lambda l: False)


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/FederateState.cpp'], [])
    Arrives(res, prog).run()
    queues(res, prog)
    told(res, prog)
    Handled(res, prog).run()
    return res
