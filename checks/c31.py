"""C31: a timer sends its message at most once, not before its time, and not after it was cancelled"""
import fx, harness, names, spec, flow, ref, cont, lin
from flow import C, ZERO, THIS
from c23 import AM
from c25 import Command, does, size, Q
from c26 import flat
from c29 import Lock

H = 'helics::'
MT = H + 'MessageTimer::'
BUF, TIMES, TIMERS = [('f', THIS, MT + n) for n in ('buffers', 'expirationTimes', 'timers')]
MUTEX = ('f', THIS, MT + 'timerLock')
AT = lambda c, k: ('i', c, k)


class Timer(Lock, Command):
    TAKE, GIVE, TRY = ('std::mutex::lock',), 'std::mutex::unlock', 'std::mutex::try_lock'
    what = 'the lock of the timers'
    whose = MUTEX
    keyed = ('now',)

    def mine(self, t):
        return 'mutex' in t

    def opaque(self, eng, fn):
        return Command.opaque(self, eng, fn)

    def called(self, eng, st, fr, i, name, obj, args):
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if self.probe is not None and s == 'processTimerCallback':
            self.probe.append(self.value(eng, st, fr, args[1]))
            return [(st, ZERO)]
        if name.startswith('std::chrono') and s in ('operator+=', 'operator+', 'operator-=', 'operator-'):
            ops = ([obj] if obj is not None and obj >= 0 else []) + args
            v = ('op', s[8], eng.ev(st, fr, ops[0]), eng.ev(st, fr, ops[1]))
            if s.endswith('='):
                l = eng.lv(st, fr, ops[0])
                eng.write(st, l, v)
                return [(st, ('L', l))]
            return [(st, v)]
        if s in ('async_wait', 'expires_at', 'cancel', 'sendMessage', 'addTimer', 'updateTimer') or s == 'operator()' and obj is not None and obj >= 0:
            o = self.objloc(eng, st, fr, obj) if obj is not None and obj >= 0 else THIS
            if s != 'operator()' or o == ('f', THIS, MT + 'sendFunction'):
                v = [self.value(eng, st, fr, a) for a in args]
                if s == 'async_wait':
                    v = [self.index(eng, st, fr, v[0])]
                self.eff(eng, st, ('at', s, o) + tuple(v) + (self.held(st, MUTEX),) + ((tuple((k, eng.read(st, k)) for k in self.marks)) if s == 'operator()' else ()))
                if s in ('addTimer', 'updateTimer', 'sendMessage', 'operator()') and self.held(st, MUTEX):
                    self.fail(fr, i, 'a callback or a function of the timer is called under the lock of the timers')
                return [(st, Q(s))]
            if o[0] == 'v' and eng.read(st, o)[0] == 'lam':
                self.eff(eng, st, ('at', 'direct', o, self.index(eng, st, fr, eng.read(st, o)), self.held(st, MUTEX)))
                if self.held(st, MUTEX):
                    self.fail(fr, i, 'a callback or a function of the timer is called under the lock of the timers')
                return [(st, ZERO)]
        return super().called(eng, st, fr, i, name, obj, args)

    marks = ()

    probe = None

    def index(self, eng, st, fr, v):
        """the timer that a callback is for: what it does when its time has come, and nothing more"""
        if v[0] != 'lam':
            return ('s', 'unknown')
        lam = self.prog.funcs[v[1][0]]
        s2 = st.copy()
        self.probe, keep = [], self.probe
        out = self.call_lam(eng, s2, fr, -1, lam, v[2], [ERR])
        got, self.probe = self.probe, keep
        return got[0] if len(set(got)) == 1 and len(got) >= 1 and out else ('s', 'several or none')


ERR = ('v', 'error', ())


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/MessageTimer.cpp'], [])
    # what a callback does
    for n in ('timers', 'buffers', 'expirationTimes', 'timerLock', 'sendFunction'):
        if n not in [f['n'] for f in prog.record(MT[:-2])['fields']]:
            raise fx.Broken('anchor vanished: MessageTimer::' + n)
    GUARD = (BUF, TIMES, TIMERS)

    def look(fn, ex, each=None, **kw):
        def end(x):
            x.need(not any(k[0] == 'v' and str(k[1]).startswith('held ') and v == C(1) for k, v in x.st.env.items()), 'the lock of the timers is not given back')
            ex(x)
        r = spec.check(res, 'C31', prog, fn, cls=type('T', (Timer,), dict(kw.pop('attrs', {}), prog=prog)), exit=end, each=each or (lambda x: None), guarded=GUARD, asks=('now',), **kw)
        res.count('lock operations', r.ops)
        return r

    def at(x, n, effs=None):
        return [e[2:] for e in (x.all() if effs is None else effs) if e[0] == 'at' and e[1] == n]

    # sending
    fn = prog.fn(MT + 'sendMessage')
    k = ('l', ('v', fn.params[0]['d'], (fn.line,)))
    act = ('f', AT(BUF, k), AM + 'messageAction')

    def valid(q, k):
        return not q.lt(k, ZERO) and q.lt(k, size(TIMERS))

    def sends(x):
        out = at(x, 'operator()')
        for s, w in ref.cases(x.st, lambda q: valid(q, k) and not q.lt(Q('now'), ('l', AT(TIMES, k))) and not q.eq(('l', act), ZERO)):
            res.count('cases')
            x.need(len(out) == int(w), 'a message whose time has come is not sent, once' if w else 'a message is sent before its time, or was cancelled or sent before')
            if w:
                x.need(x.val(act) == ZERO, 'a message that was sent can be sent again')
        for o in out:
            x.need(('l', AT(BUF, k)) in flat(o[1]) or flow.contains(o[1], AT(BUF, k)), 'another message is sent')
            x.need(o[-1] == (act, ZERO), 'a message can be sent again while it is sent')
    look(fn, sends, attrs={'marks': (act,)})

    # setting
    def index(fn):
        return ('l', ('v', fn.params[0]['d'], (fn.line,)))

    def par(fn, j):
        return ('l', ('v', fn.params[j]['d'], (fn.line,)))

    def changed(fn, time, mess, keep, ret):
        k = index(fn)
        t = ('d', ('l', AT(TIMERS, k)))
        b = AT(BUF, k)
        a = ('l', ('f', b, AM + 'messageAction'))

        def ex(x):
            exp, wait = at(x, 'expires_at'), at(x, 'async_wait')
            put = [e for e in x.all() if e[0] == 'set']
            for s, w in ref.cases(x.st, lambda q: valid(q, k) and (not keep or not q.eq(a, ZERO))):
                res.count('cases')
                here = valid(ref.Q(s, None), k)
                soft = here and not w and time is not None and ret == 'may'
                if soft:
                    continue
                if time is not None:
                    x.need(len(exp) == int(w) and len(wait) == int(w) or not w and here and ret, 'a timer that is set is not waited for, once' if w else 'a timer that is not there or whose message is gone is set')
                if w:
                    if time is not None:
                        want = time(k)
                        x.need(all(e[0] == t and lin.same(e[1], want) for e in exp), 'a timer waits for another time')
                        x.need(all(e[0] == t and e[1] == k for e in wait), 'a timer that runs out sends the message of another')
                        x.need(lin.same(x.val(AT(TIMES, k)), want), 'the time of a message is not noted')
                    m = x.val(b)
                    if mess is not None:
                        x.need(flow.contains(m, mess[1]) or m == mess or any(e[1] == b and flow.contains(e[2], mess[1]) for e in put), 'a timer does not get its message')
                    else:
                        x.need(x.val(('f', b, AM + 'messageAction')) == a, 'a message is changed with its time')
                elif not here:
                    x.need(not exp and not wait and not put, 'a timer that is not there is changed')
                if ret:
                    for s2, r in ref.cases(s, lambda q: valid(q, k) and not q.eq(a, ZERO)):
                        x.need(flow.truth(s2, x.ret) is bool(r), 'whether a timer still has its message is not told as it is')
        look(fn, ex, sets=lambda l: flow.contains(l, BUF) or flow.contains(l, TIMES) or flow.contains(l, TIMERS))
    for fn in prog.fns(MT + 'updateTimer'):
        full = len(fn.params) == 3
        changed(fn, lambda k, fn=fn: par(fn, 1), par(fn, 2) if full else None, False, not full)
    fn = prog.fn(MT + 'addTimeToTimer')
    changed(fn, lambda k, fn=fn: ('op', '+', ('l', AT(TIMES, k)), par(fn, 1)), None, True, True)
    fn = prog.fn(MT + 'updateMessage')
    changed(fn, None, par(fn, 1), False, False)

    # making one
    fn = prog.fn(MT + 'addTimer')
    time, mess = par(fn, 0), par(fn, 1)

    def makes(x):
        t = [e for e in x.all() if e[0] == 'mut']
        got = {b: [e for e in t if e[1] == b] for b in GUARD}
        x.need(len(t) == 3 and all(len(v) == 1 and v[0][2].split('::')[-1] in ('push_back', 'emplace_back') for v in got.values()), 'a timer is not added once to each of the three lists')
        if not all(len(v) == 1 for v in got.values()):
            return
        new = got[TIMERS][0][3][0]
        x.need(flow.contains(got[BUF][0][3], mess[1]), 'a timer is made without its message')
        x.need(time in flat(got[TIMES][0][3]), 'a timer is made with another time')
        exp, wait, now = at(x, 'expires_at'), at(x, 'async_wait'), at(x, 'direct')
        x.need(len(exp) == 1 and exp[0][1] == time, 'a timer does not expire at its time')
        x.need(len(wait) + len(now) == 1, 'a timer that was made is not waited for, once, or run')
        x.need(all(e[0] == ('d', new) or e[0] == ('d', ('l', AT(TIMERS, size(TIMERS)))) or e[0][0] == 'd' and e[0][1][0] == 'elt' and e[0][1][-1] in (('s', 'back'), size(TIMERS)) for e in wait), 'another timer is waited for')
        x.need(all(e[1] in (size(TIMERS), size(BUF), size(TIMES)) for e in wait + now), 'a timer that runs out sends the message of another')
        x.need(x.ret in (size(TIMERS), size(BUF), size(TIMES)), 'who makes a timer is told of another')
        if now:
            for s, w in ref.cases(x.st, lambda q: q.lt(Q('now'), time)):
                x.need(not w, 'a timer is run before its time, which loses its message')
    look(fn, makes, sets=lambda l: False)

    # cancelling
    fn = prog.fn(MT + 'cancelTimer')
    kc = index(fn)
    cact = ('f', AT(BUF, kc), AM + 'messageAction')

    def cancels(x):
        out = at(x, 'cancel')
        for s, w in ref.cases(x.st, lambda q: valid(q, kc)):
            res.count('cases')
            x.need(not w or x.val(cact) == ZERO, 'a message whose timer was cancelled is still sent')
            x.need(all(e[0] == ('d', ('l', AT(TIMERS, kc))) for e in out) and (w or not out), 'another timer is cancelled')
            x.need(w or x.val(cact) == ('l', cact), 'a timer that is not there is cancelled')
    look(fn, cancels)
    fn = prog.fn(MT + 'cancelAll')
    over, short = set(), set()

    def all_(x):
        env = x.st.env
        ok = x.c == BUF and x.val(('f', ('d', ('it', BUF)), AM + 'messageAction')) == ZERO
        ok = ok or any(k[0] == 'f' and k[2] == AM + 'messageAction' and k[1][0] == 'i' and k[1][1] == BUF and k[1][2][0] == 'idx' and len(k[1][2]) == 3 and x.val(k) == ZERO for k in list(env))
        (over if ok else short).add(x.c)

    def whole(x):
        x.need(any(c in over and c not in short for c in x.done()), 'a message is passed over when all are cancelled')
    look(fn, whole, each=all_)

    # delegates
    for n, to, j in (('addTimerFromNow', 'addTimer', 0), ('updateTimerFromNow', 'updateTimer', 1)):
        fn = prog.fn(MT + n)

        def fromnow(x, fn=fn, to=to, j=j):
            out = at(x, to)
            x.need(len(out) == 1, 'a timer is not set, once')
            for e in out:
                x.need(lin.same(e[1 + j], ('op', '+', Q('now'), par(fn, j))), 'a timer is set from another time than now')
                x.need(flow.contains(e, par(fn, j + 1)[1]), 'a timer does not get its message')
                x.need(j == 0 or e[1] == par(fn, 0), 'another timer is set')
            x.need(j or x.ret == Q('addTimer'), 'who makes a timer is told of another')
        look(fn, fromnow)
    fn = prog.fn(H + 'processTimerCallback')

    def back(x):
        out = at(x, 'sendMessage')
        err = ('l', ('v', fn.params[2]['d'], (fn.line,)))
        off = [v for f, v in x.st.facts.items() if f[0] == 'eq' and err in f and any(t[0] == 'k' and 'error_code' in t[1] and (('c', 125) in t[2]) for t in f[1:] if isinstance(t, tuple))]
        res.count('cases')
        x.need(len(off) == 1, 'whether a timer was cancelled is not looked at')
        if len(off) == 1:
            x.need(len(out) == int(not off[0]), 'a timer that ran out sends nothing' if not off[0] else 'a timer that was set anew or cancelled sends its message')
        x.need(all(e[1] == par(fn, 1) for e in out), 'a timer that runs out sends the message of another')
    look(fn, back)
    res.need('functions', 11)
    res.need('cases', 20)
    return res
