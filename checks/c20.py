"""C20: a flag, option or property reads back as it was set"""
import fx, harness, names, spec, flow, ref, cont
from c17 import handler, AM
from flow import C, ZERO, THIS

CORE = 'helics::'
# options that are two views of one setting
RELATED = [{'CONNECTION_REQUIRED', 'CONNECTION_OPTIONAL', 'CONNECTIONS_REQUIRED', 'CONNECTIONS_OPTIONAL'}, {'SINGLE_CONNECTION_ONLY', 'MULTIPLE_CONNECTIONS_ALLOWED', 'CONNECTIONS'},
           {'INPUT_PRIORITY_LOCATION', 'CLEAR_PRIORITY_LIST'}, {'RT_LAG', 'RT_LEAD', 'RT_TOLERANCE'}, {'ALLOW_REMOTE_CONTROL', 'DISABLE_REMOTE_CONTROL'},
           {'SLOW_RESPONDING', 'DEBUGGING'}, {'OBSERVER', 'SOURCE_ONLY'}, {'INTERRUPTIBLE', 'UNINTERRUPTIBLE'}, {'ONLY_UPDATE_ON_CHANGE', 'HANDLE_ONLY_UPDATE_ON_CHANGE'},
           {'ONLY_TRANSMIT_ON_CHANGE', 'HANDLE_ONLY_TRANSMIT_ON_CHANGE'}, {'STRICT_INPUT_TYPE_CHECKING', 'STRICT_TYPE_CHECKING'}, {'IGNORE_INPUT_UNIT_MISMATCH', 'IGNORE_UNIT_MISMATCH'},
           {'LOG_LEVEL', 'FILE_LOG_LEVEL', 'CONSOLE_LOG_LEVEL'}]
# settings that only count before the federate runs
STARTUP = {'REALTIME', 'SOURCE_ONLY', 'OBSERVER', 'REENTRANT', 'CALLBACK_FEDERATE'}
# what is answered is not a setting but something that happened
OBSERVED = {'CONNECTIONS', 'CURRENT_ITERATION', 'CLEAR_PRIORITY_LIST'}
# settings that are not to be read
SILENT = {'ALLOW_REMOTE_CONTROL', 'DISABLE_REMOTE_CONTROL'}
MASK = 0xffff


def bits(t):
    """arithmetic on single bits and constant factors, as far as it can be carried out"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(bits(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'op' and len(t) == 4:
        _, o, a, b = t
        if o in ('&', '|') and a[0] == 'c' and b[0] != 'c':
            a, b = b, a
        if o == '&' and b[0] == 'c' and isinstance(b[1], int):
            m = b[1]
            if m & MASK == 0:
                return ZERO
            if a[0] == 'op' and len(a) == 4 and a[1] in ('&', '|'):
                p, q = a[2], a[3]
                if p[0] == 'c':
                    p, q = q, p
                if q[0] == 'c' and isinstance(q[1], int):
                    k = q[1]
                    if a[1] == '&':
                        return bits(('op', '&', p, C(k & m))) if (k & m) & MASK else ZERO
                    if k & m & MASK == m & MASK:
                        return C(m)
                    if k & m & MASK == 0:
                        return bits(('op', '&', p, b))
            return ('op', '&', a, C(m & MASK))
        if o == '*' and a[0] == 'op' and a[1] == '*' and a[3][0] == 'c' and b[0] == 'c':
            return bits(('op', '*', a[2], C(a[3][1] * b[1])))
        if o == '/' and a[0] == 'op' and a[1] == '*' and b in a[2:]:
            return a[2] if a[3] == b else a[3]
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            r = {'*': a[1] * b[1], '+': a[1] + b[1], '-': a[1] - b[1], '|': a[1] | b[1], '/': a[1] // b[1] if b[1] else None}.get(o)
            return t if r is None else C(r)
        return ('op', o, a, b)
    return t


def suppose(st, a, c, w):
    """a == c, or not; taken apart when a is itself a condition"""
    if a[0] in ('rel', 'not', 'and', 'or') and c in (ZERO, C(1)):
        return flow.assume(st, a, (c != ZERO) == w)
    return flow.assume(st, flow.rel_term('==', a, c), w)


class Row:
    def __init__(self, x, opt):
        self.x, self.st, self.ret = x, x.st, x.ret
        self.o = flow.const_of(x.st, opt)
        self.o = self.o[1] if self.o is not None and self.o[0] == 'c' else None
        self.effs = [e for e in list(x.st.rs[0]) + list(x.st.rs[1]) if e[0] != '[']


def clamped(rule, eng, st, fr, i, name, obj, args):
    """std::clamp, case by case"""
    if name != 'std::clamp' or len(args) != 3:
        return None
    v, lo, hi = (eng.ev(st, fr, a) for a in args)
    out = []
    for rel, val in (((flow.rel_term('<', v, lo), True),), lo), (((flow.rel_term('<', v, lo), False), (flow.rel_term('<', hi, v), True)), hi), (
            ((flow.rel_term('<', v, lo), False), (flow.rel_term('<', hi, v), False)), v):
        s = st.copy()
        if all(flow.assume(s, t, w) for t, w in rel):
            s._k = None
            out.append((s, ('L', ('m', val)) if fr.fn.nodes[i].get('lv') else val))
    return out


def rows(res, prog, fn, k, **kw):
    """what a function does for each value of parameter k"""
    opt = ('l', ('v', fn.params[k]['d'], (fn.line,)))
    out = []
    r = spec.Spec(fn, exit=lambda x: out.append(Row(x, opt)), cap=6000, called=clamped, **kw)
    r.split_ret = False
    flow.Engine(prog, r).analyse(fn)
    res.count('functions')
    res.count('exits', len(out))
    return out


def fields(t, out=None):
    """what a term reads"""
    out = set() if out is None else out
    if isinstance(t, tuple) and t:
        if t[0] == 'l' and t[1][0] != 'v':
            out.add(t[1])
        for x in t:
            if isinstance(x, tuple):
                fields(x, out)
    return out


class Pair:
    """a setter and the getter that answers for it"""
    related = RELATED

    def __init__(self, res, pid, prog, sfn, gfn, so=0, sv=1, go=0, kind='flag', label=None, others=(), **kw):
        self.res, self.pid, self.prog, self.sfn, self.gfn = res, pid, prog, sfn, gfn
        self.kind, self.label = kind, label or sfn.short
        self.val = ('l', ('v', sfn.params[sv]['d'], (sfn.line,)))
        self.sopt, self.gopt = (('l', ('v', f.params[k]['d'], (f.line,))) for f, k in ((sfn, so), (gfn, go)))
        self.same = [((('v', gfn.params[b]['d'], (gfn.line,))), ('v', sfn.params[a]['d'], (sfn.line,))) for a, b in others]
        self.S = rows(res, prog, sfn, so, **kw)
        self.G = rows(res, prog, gfn, go, **kw)
        self.names = NAMES

    def fail(self, fn, o, what):
        n = self.names.get(o, str(o))
        self.res.add('%s|%s|%s|%s' % (self.pid, fn.short, n, what), '%s: %s (%s, %s)' % (fn.loc(), what, n, fn.short))

    def natural(self, s, t):
        """what cannot be negative"""
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'l' and t[1][0] == 'f':
            cls, n = t[1][2].rsplit('::', 1)
            if any(f['n'] == n and 'unsigned' in f['t'] for f in self.prog.records.get(cls, {'fields': []})['fields']):
                flow.assume(s, flow.rel_term('<', t, ZERO), False)
        for x in t:
            self.natural(s, x)

    def after(self, s, row, t):
        """a term of the getter, read after the setter"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'l':
            loc = self.rename(t[1])
            v = row.x.eng.read(s, loc)
            return v
        if t[0] == 'i' or t[0] == 'f':
            return self.rename(t)
        return tuple(self.after(s, row, x) if isinstance(x, tuple) else x for x in t)

    def rename(self, t):
        for a, b in self.same:
            if t == a:
                return b
        return tuple(self.rename(x) if isinstance(x, tuple) else x for x in t)

    def answers(self, p, o):
        """the ways the getter may answer for option o after row p of the setter: [(state, value, row)]"""
        out = []
        for g in self.G:
            if g.o != o:
                continue
            s = p.st.copy()
            ok = True
            for f in g.st.facts:
                self.natural(s, f)
            for f, b in g.st.facts.items():
                if any(flow.contains(f, z) for z in (self.gopt,)):
                    continue
                if f[0] == '=':
                    ok = ok and suppose(s, bits(self.after(p.st, p, f[1])), b, True)
                elif f[0] in ('eq', 'lt'):
                    a, c = (bits(self.after(p.st, p, q)) for q in f[1:3])
                    ok = ok and (suppose(s, a, c, b) if f[0] == 'eq' else flow.assume(s, flow.rel_term('<', a, c), b))
            if ok:
                s._k = None
                out.append((s, bits(self.after(p.st, p, g.ret)), g))
        return out

    def written(self, p):
        return {l for l, v in p.st.env.items() if l[0] in ('f', 'i', 'd') and v != ('l', l)} | {e[1] for e in p.effs if e[0] == 'mut'}

    def run(self, settable=True):
        so = {p.o for p in self.S} - {None}
        go = {g.o for g in self.G} - {None}
        res = self.res
        if not so or not go:
            raise RuntimeError('%s: no options found' % self.label)
        reads = {o: set().union(*[fields(g.ret) | set().union(*[fields(f) for f in g.st.facts] or [set()]) for g in self.G if g.o == o]) - {self.gopt[1]} for o in go}
        for o in sorted(so | go):
            n = self.names.get(o, str(o))
            res.count('options')
            ps = [p for p in self.S if p.o == o]
            w = set().union(*[self.written(p) for p in ps] or [set()])
            if o not in go:
                if w and n not in SILENT and any(g.o is None and g.ret is not None and g.ret[0] == 'c' for g in self.G) and self.kind == 'flag':
                    self.fail(self.gfn, o, 'a setting is answered as if it was never set')
                continue
            if o not in so or not w and not any(e[0] == 'mut' for p in ps for e in p.effs):
                if n not in OBSERVED and settable and not any(p.o in (o, None) and self.written(p) for p in self.S):
                    self.fail(self.sfn, o, 'a setting that can be read cannot be set')
                continue
            if n in OBSERVED:
                continue
            for p in ps:
                self.one(p, o, n)
        # settings do not touch each other
        for o in sorted(so):
            a = self.names.get(o, str(o))
            for p in [p for p in self.S if p.o == o]:
                w = self.written(p)
                for q in sorted(go - {o}):
                    b = self.names.get(q, str(q))
                    if any(a in r and b in r for r in self.related) or not {self.rename(z) for z in reads[q]} & w:
                        continue
                    res.count('pairs')
                    for g in [g for g in self.G if g.o == q]:
                        for t in [g.ret] + [y for f in g.st.facts if not flow.contains(f, self.gopt) for y in f[1:]]:
                            if isinstance(t, tuple) and bits(self.after(p.st, p, t)) != bits(self.rename(t)):
                                self.fail(self.sfn, o, 'the setting changes another one, %s' % b)

    def one(self, p, o, n):
        v, kind = self.val, self.kind
        if n == 'INPUT_PRIORITY_LOCATION':
            m = [e for e in p.effs if e[0] == 'mut']
            if not (len(m) == 1 and m[0][2] in ('push_back', 'emplace_back') and m[0][3] == (v,)):
                self.fail(self.sfn, o, 'the setting is not stored')
            for g in self.G:
                if g.o == o and m and g.ret[0] == 'l' and g.ret != ('l', ('i', m[0][1], ('s', 'back'))):
                    self.fail(self.gfn, o, 'another value is answered than the one that was set')
            return
        if not self.written(p) and any(f[0] in ('=', 'eq') and kindof(f) for f in p.st.facts) and any(self.written(q) for q in self.S if q.o == o):
            return    # a setting of another kind of interface
        for s, r, g in self.answers(p, o):
            if n == 'TIME_RESTRICTED':
                self.unit(p, g, o)
                continue
            if kind == 'flag':
                for s2, w in ref.cases(s, lambda q: q.is_(v)):
                    self.res.count('cases')
                    t = flow.truth(s2, r)
                    if t == w:
                        continue
                    if t is None and not ref.closed(ref.peel(r)) and not (r[0] in ('rel', 'not') and not [x for x in calls(r)]):
                        continue
                    self.held(p, o, n, s2)
            else:
                self.res.count('cases')
                if r == v or calls(r) and n != 'INDEX_GROUP':
                    continue
                if kind == 'int' and not self.written(p):
                    continue
                if ref.wrong(s, r, v) or not flow.known_eq(s, r, v):
                    if n == 'INDEX_GROUP':
                        if grouped(s, r, v):
                            continue
                    elif conversion(r, v) or flow.known_lt(s, ZERO, v) is False or not_positive(s, v):
                        continue
                    self.held(p, o, n, s)

    def held(self, p, o, n, s):
        if n in STARTUP and any('state' in str(f) and b is not None for f, b in p.st.facts.items()):
            return
        self.fail(self.sfn, o, 'another value is answered than the one that was set')

    def unit(self, p, g, o):
        st = [v for l, v in p.st.env.items() if l in self.written(p)]
        for v in st:
            if not flow.contains(v, self.val):
                self.fail(self.sfn, o, 'another value is stored than the one that was set')
            if v[0] == 'k' and len(v[2]) == 2 and v[2][1][0] == 'c':
                u = {3: 'to_ms'}.get(v[2][1][1])
                if u is None or any(x[1].startswith('to_') and x[1] != u for x in calls(g.ret)):
                    self.fail(self.sfn, o, 'the time is answered in another unit than the one it was set in')
        if not flow.contains(g.ret, ('l', [l for l in self.written(p)][0])):
            self.fail(self.gfn, o, 'another value is answered than the one that was set')


def kindof(t):
    return isinstance(t, tuple) and (t[:1] == ('l',) and t[1][0] == 'f' and t[1][2].endswith('::handleType') or any(kindof(x) for x in t))


def calls(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple) and t:
        if t[0] == 'call' or t[0] == 'h':
            out.append((t[0], str(t[1]).split('::')[-1]))
        for x in t:
            if isinstance(x, tuple):
                calls(x, out)
    return out


def contains(t, v):
    return flow.contains(t, v)


def conversion(r, v):
    """the value in another representation"""
    return flow.contains(r, v) and r[0] in ('k', 'call', 'fld')


def grouped(s, r, v):
    """the numbers of groups go from 0 to 16"""
    return r == C(0) and (not_positive(s, v) or flow.known_lt(s, v, ZERO)) or r == C(16) and (flow.known_lt(s, C(16), v) or flow.known_lt(s, v, C(16)) is False)


def not_positive(s, v):
    for f, b in s.facts.items():
        if f[0] == 'lt' and len(f) == 3 and (f[2] == v and b is False or f[1] == v and b is True):
            return True
        if f[0] == 'eq' and b and v in f[1:]:
            return True
    return False


HIDE = ['ActionMessage', 'setExtraData', 'addTimerFromNow', 'cancelTimer', 'updateTimer', 'setLogLevel', 'generateProfilingMarker', 'getState', 'to_ms', 'make_shared', 'MessageTimer', 'addAction']


NAMES = {}


def given(st):
    """what is known in a state, as conditions"""
    out = []
    for f, b in st.facts.items():
        if f[0] == '=':
            out.append((flow.rel_term('==', f[1], b), True))
        elif f[0] in ('eq', 'lt'):
            out.append((flow.rel_term('==' if f[0] == 'eq' else '<', f[1], f[2]), b))
    return out


class Flat(spec.Spec):
    """nothing is looked into but messages"""

    def opaque(self, eng, fn):
        return not (fn.n.startswith('helics::ActionMessage::') or 'ActionFlag' in fn.n or fn.n.startswith('helics::InterfaceHandle::') or fn.n.endswith('::setInterfaceProperty'))


def quiet(name):
    """the coordinator has no part in settings (which is looked at separately)"""
    def f(rule, eng, st, fr, i, n, obj, args):
        return [(st, ('call', name, (), 0))]
    return f


QUIET = {n: quiet(n) for n in ('processCoordinatorMessage', 'checkProcResult')}


def passed(x):
    """the message came past the coordinator"""
    for f, b in x.st.facts.items():
        if any(isinstance(t, tuple) and 'checkProcResult' in str(t) for t in f[1:]):
            return b == ZERO if f[0] == '=' else b is True
    return None


class Way:
    """how a setting travels to the one that keeps it"""

    def __init__(self, res, pid, prog):
        self.res, self.pid, self.prog = res, pid, prog

    def fail(self, fn, what):
        self.res.add('%s|%s|%s' % (self.pid, fn.short, what), '%s: %s (%s)' % (fn.loc(), what, fn.short))

    def exits(self, fn, asks=(), sends=(), opaque=(), facts=(), env=None, kind=spec.Spec):
        out = []
        h = handler(asks, sends, QUIET)
        r = kind(fn, exit=lambda x: out.append(x), rec=(), called=h, cap=6000, opaque=opaque)
        r.split_ret = False
        flow.Engine(self.prog, r).analyse(fn, facts=facts, env=env)
        self.res.count('functions')
        self.res.count('exits', len(out))
        return out

    def carried(self, fn, msg, n=0):
        """the parameter of a handler with the contents of a message"""
        env = {}
        l = ('v', fn.params[n]['d'], (fn.line,))
        for k, v in msg:
            env[('f', l, AM + k)] = v
            if v[0] == 'k' and v[1] == 'helics::InterfaceHandle' and len(v[2]) == 1:
                env[('f', ('f', l, AM + k), 'helics::InterfaceHandle::hid')] = v[2][0]
        return env


def effects(x, *ns):
    return [e for e in x.st.rs[0] if e[0] in ('call', 'sent') and e[1] in ns]


def asked_fed(x):
    """the federate was found"""
    for f, b in x.st.facts.items():
        for t in f[1:]:
            if isinstance(t, tuple) and t[0] == 'call' and t[1].split('::')[-1] in ('getFederateAt', 'getHandleFederate'):
                return not (f[0] == '=' and b == ZERO or f[0] == 'eq' and ZERO in f[1:] and b is True)
    return None


ENDS = {'setIntegerProperty': 'setProperty', 'setTimeProperty': 'setProperty', 'setFlagOption': 'setOptionFlag'}
PROPS = {105: 'setInputProperty', 112: 'setPublicationProperty', 101: 'setEndpointProperty'}
ASK = {105: 'getInputProperty', 112: 'getPublicationProperty', 101: 'getEndpointProperty'}
FAR = ['waitCoreRegistration', 'getFederateAt', 'getHandleInfo', 'getHandleFederate', 'modify', 'read', 'enable', 'spinlock', 'unlock']


def plain(t):
    """an identifier made of a number, and its number"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(plain(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'fld' and t[1][0] == 'k' and len(t[1][2]) == 1 and t[1][1].endswith(('Handle', 'Id')):
        return t[1][2][0]
    return t


def mode(x):
    """the federate is still being set up"""
    for f, b in x.st.facts.items():
        if any(isinstance(t, tuple) and 'FederateState::state' in str(t) for t in f[1:]):
            return b == ZERO if f[0] == '=' else b is True
    return None


def possible(st):
    """no condition on single bits is contradicted"""
    for f, b in st.facts.items():
        u, v, w = (f[1], b, True) if f[0] == '=' else (f[1], f[2], b) if f[0] == 'eq' else (ZERO, ZERO, True)
        if u[0] == 'op' and bits(u)[0] == 'c' and v[0] == 'c' and (bits(u) == v) != w:
            return False
    return True


def same(s, a, b, flag):
    a = bits(plain(a))
    if a == b or flow.known_eq(s, a, b) is True:
        return True
    return flag and all(flow.truth(s2, a) is w for s2, w in ref.cases(s, lambda q: q.is_(b)))


def travels(res, prog):
    w = Way(res, 'C20', prog)
    CCN, FSN = 'helics::CommonCore::', 'helics::FederateState::'
    take, later, coord = prog.fn(FSN + 'setProperties'), prog.fn(FSN + 'processActionMessage'), prog.fn('helics::processCoordinatorMessage')
    for n in ('setIntegerProperty', 'setTimeProperty', 'setFlagOption', 'setHandleOption'):
        fn = prog.fn(CCN + n)
        P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
        flag = n == 'setFlagOption'
        for x in w.exits(fn, (), ('setProperties', 'addActionMessage'), FAR):
            m = effects(x, 'setProperties')
            if not m:
                if asked_fed(x):
                    w.fail(fn, 'a setting does not reach the federate')
                continue
            res.count('messages')
            if len(m) != 1 or m[0][2] is None:
                w.fail(fn, 'a setting reaches the federate more than once')
                continue
            msg = m[0][2]
            ends = (ENDS.get(n),) if n in ENDS else tuple(PROPS.values())
            facts = given(x.st)
            for y in w.exits(coord, (), (), (), facts, w.carried(coord, msg), kind=Flat):
                res.count('deliveries')
                l = ('v', coord.params[0]['d'], (coord.line,))
                if any(y.eng.read(y.st, ('f', l, AM + k)) != v for k, v in msg):
                    w.fail(coord, 'the coordinator takes a setting for itself')
            for f, at in ((take, 'now'), (take, 'queue'), (later, 'later')):
                seen = set()
                for y in w.exits(f, ends, ('addAction',), (), facts, w.carried(f, msg), kind=Flat):
                    if f is take and mode(y) is not (at == 'now') or f is later and passed(y) is False or not possible(y.st):
                        continue
                    res.count('deliveries')
                    e, q = effects(y, *ends), effects(y, 'addAction')
                    if at == 'queue':
                        if len(q) != 1 or e:
                            w.fail(f, 'a setting of a running federate does not reach its queue')
                        elif dict(q[0][2] or ()) and any(dict(q[0][2]).get(z) != v for z, v in msg):
                            w.fail(f, 'a queued setting is altered')
                        continue
                    if n == 'setHandleOption':
                        kind = [(g, b) for g, b in y.st.facts.items() if kindof(g)]
                        c = [b[1] for g, b in kind if g[0] == '=']
                        want = PROPS.get(c[0]) if c else None
                        seen.add(c[0] if c else None)
                        if want is None:
                            if e:
                                w.fail(f, 'a setting of an interface is given to another kind of interface')
                            continue
                        if len(e) != 1 or e[0][1] != want or q:
                            w.fail(f, 'a setting of an interface does not reach it')
                            continue
                        if not (same(y.st, e[0][3][0], P[0], False) and same(y.st, e[0][3][1], P[1], False) and same(y.st, e[0][3][2], P[2], False)):
                            w.fail(f, 'an interface gets another setting than the one that was set')
                        continue
                    if len(e) != 1 or q:
                        w.fail(f, 'a setting of a federate is not applied')
                    elif not (same(y.st, e[0][3][0], P[1], False) and same(y.st, e[0][3][1], P[2], flag)):
                        w.fail(f, 'a federate gets another setting than the one that was set')
                if n == 'setHandleOption' and at != 'queue' and not set(PROPS) <= seen:
                    w.fail(f, 'a setting of an interface does not reach it')


class Bare(spec.Spec):
    """nothing is looked into but messages, locks and the log settings"""

    def opaque(self, eng, fn):
        return not (fn.n.startswith(('helics::ActionMessage::', 'helics::InterfaceHandle::', 'helics::LogBuffer::', 'helics::LogManager::get', 'helics::LogManager::setLogLevel', 'helics::LogManager::updateMax')) or
                    'ActionFlag' in fn.n or fn.n.split('::')[-1] in ('setLogLevel', 'setLogLevels', 'getFlagValue', 'getIntegerProperty', 'getFlagOption'))


class Core(Pair):
    """settings of a core itself travel through its queue"""
    related = [r for r in RELATED if 'LOG_LEVEL' not in r] + [{'LOG_LEVEL', 'FILE_LOG_LEVEL'}, {'LOG_LEVEL', 'CONSOLE_LOG_LEVEL'}]

    def __init__(self, res, pid, prog, sfn, gfn, kind):
        self.res, self.pid, self.prog, self.sfn, self.gfn, self.kind, self.label = res, pid, prog, sfn, gfn, kind, sfn.short
        self.names, self.same = NAMES, [(('v', gfn.params[0]['d'], (gfn.line,)), ('v', sfn.params[0]['d'], (sfn.line,)))]
        P = [('l', ('v', p['d'], (sfn.line,))) for p in sfn.params]
        self.val, self.sopt, self.gopt = P[2], P[1], ('l', ('v', gfn.params[1]['d'], (gfn.line,)))
        w = Way(res, pid, prog)
        core = flow.rel_term('==', P[0], ('l', ('g', 'helics::gLocalCoreId')))
        gcore = flow.rel_term('==', ('l', ('v', gfn.params[0]['d'], (gfn.line,))), ('l', ('g', 'helics::gLocalCoreId')))
        acts = names.enum_values(prog, 'helics::action_message_def::action_t')
        take = {acts['cmd_core_configure']: prog.fn('helics::CommonCore::processCoreConfigureCommands'), acts['cmd_base_configure']: prog.fn('helics::BrokerBase::baseConfigure')}
        self.S = []
        for x in w.exits(sfn, (), ('addActionMessage',), (), [(core, True)], kind=Bare):
            m = effects(x, 'addActionMessage')
            if not m:
                self.S.append(Row(x, self.sopt))
            if any(e[2] is None for e in m):
                raise fx.Broken('%s: contents of a message not followed' % sfn.short)
            if len(m) > 1:    # the settings of the log are told to the queue twice
                m = [e for e in m if take.get(dict(e[2])['messageAction'][1]) is take[acts['cmd_base_configure']]]
            for e in m:
                self.res.count('messages')
                f = take.get(dict(e[2])['messageAction'][1])
                if f is None:
                    w.fail(sfn, 'a setting of a core is sent as another command')
                    continue
                for y in w.exits(f, (), (), (), given(x.st), w.carried(f, e[2]), kind=Bare):
                    if possible(y.st):
                        r = Row(y, self.sopt)
                        if r.o is None:
                            r.o = flow.const_of(x.st, self.sopt)
                            r.o = r.o[1] if r.o is not None and r.o[0] == 'c' else None
                        self.S.append(r)
        own = {v for e in (('Flags',) if kind == 'flag' else ('Properties',)) for v in names.enum_values(fx.load(['core/PublicationInfo.cpp'], []), 'helics::defs::' + e).values()}
        own |= {v for v, n in NAMES.items() if n == 'LOG_BUFFER'}
        self.delays([p for p in self.S if NAMES.get(p.o) == 'DELAY_INIT_ENTRY'])
        self.S = [p for p in self.S if p.o in own and NAMES.get(p.o) not in ('DELAY_INIT_ENTRY', 'ENABLE_INIT_ENTRY')]
        self.G = [Row(x, self.gopt) for x in w.exits(gfn, (), (), (), [(gcore, True)], kind=Bare)]


    def written(self, p):
        return {l for l in super().written(p) if flow.contains(l, THIS)}

    def delays(self, ps):
        """how many wait for the initialization is counted"""
        l = ('f', THIS, 'helics::CommonCore::delayInitCounter')
        for p in ps:
            on = flow.truth(p.st, self.val)
            d = bits(p.x.eng.read(p.st, l))
            want = {True: ('op', '+', ('l', l), C(1)), False: ('op', '-', ('l', l), C(1))}.get(on)
            self.res.count('cases')
            if d != want:
                self.fail(self.sfn, p.o, 'the delay of the initialization is not counted')


BORN = {'createPublication': {'required': 'CONNECTION_REQUIRED', 'optional': 'CONNECTION_OPTIONAL', 'buffer_data': 'BUFFER_DATA', 'only_transmit_on_change': 'HANDLE_ONLY_TRANSMIT_ON_CHANGE', 'single_connection': 'SINGLE_CONNECTION_ONLY'},
        'createInput': {'required': 'CONNECTION_REQUIRED', 'optional': 'CONNECTION_OPTIONAL', 'only_update_on_change': 'HANDLE_ONLY_UPDATE_ON_CHANGE', 'single_connection': 'SINGLE_CONNECTION_ONLY'},
        'createEndpoint': {'required': 'CONNECTION_REQUIRED', 'optional': 'CONNECTION_OPTIONAL', 'single_connection': 'SINGLE_CONNECTION_ONLY', 'source_only': 'SEND_ONLY', 'receive_only': 'RECEIVE_ONLY'}}


class Given(spec.Spec):
    def opaque(self, eng, fn):
        return 'ActionFlag' not in fn.n


class Through(spec.Spec):
    def opaque(self, eng, fn):
        return True


def forwarded(res, prog):
    """an interface of a federate gets and answers its own settings"""
    w = Way(res, 'C20', prog)
    fn = prog.fn('helics::FederateState::getHandleOption')
    P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
    seen = set()
    for x in w.exits(fn, tuple(ASK.values()), (), kind=Through):
        c = flow.const_of(x.st, P[1])
        c = c[1] if c is not None and c[0] == 'c' else None
        e = effects(x, *ASK.values())
        seen.add(c)
        if c not in ASK:
            if e:
                w.fail(fn, 'another kind of interface is asked for a setting')
        elif len(e) != 1 or e[0][1] != ASK[c] or x.ret != e[0][4] or tuple(e[0][3]) != (P[0], P[2]):
            w.fail(fn, 'an interface is not asked for its setting')
    if not set(ASK) <= seen:
        w.fail(fn, 'an interface is not asked for its setting')
    for k in ('Input', 'Publication', 'Endpoint'):
        for sg in ('set', 'get'):
            fn = prog.fn('helics::InterfaceInfo::%s%sProperty' % (sg, k))
            P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
            found = 0
            for x in w.exits(fn, ('get' + k, sg + 'Property'), (), kind=Through):
                res.count('cases')
                i, e = effects(x, 'get' + k), effects(x, sg + 'Property')
                if len(i) != 1 or tuple(i[0][3]) != (P[0],):
                    w.fail(fn, 'another interface is looked for')
                    continue
                there = flow.truth(x.st, i[0][4])
                if there is not True:
                    if e:
                        w.fail(fn, 'a setting goes to an interface that is not there')
                    continue
                found += 1
                if not e or any(tuple(q[3]) != tuple(P[1:]) for q in e) or sg == 'get' and x.ret != e[0][4]:
                    w.fail(fn, 'a setting is not that of the interface')
            if not found:
                w.fail(fn, 'a setting is not that of the interface')


def registered(res, prog):
    """the flags an interface is registered with are its settings"""
    w = Way(res, 'C20', prog)
    num = {}
    for v, n in NAMES.items():
        num.setdefault(n, v)
    num = {**num, **names.enum_values(fx.load(['core/PublicationInfo.cpp'], []), 'helics::defs::Options')}
    bit = {**names.enum_values(prog, 'helics::InterfaceFlags'), **names.enum_values(prog, 'helics::EndpointFlags')}
    for n, table in BORN.items():
        fn = prog.fn('helics::InterfaceInfo::' + n)
        fl = [('l', ('v', p['d'], (fn.line,))) for p in fn.params][-1]
        for x in w.exits(fn, ('setProperty',), (), kind=Given):
            set_ = {}
            for e in effects(x, 'setProperty'):
                if len(e[3]) != 2 or e[3][0][0] != 'c' or e[3][1][0] != 'c':
                    raise fx.Broken('%s: a setting is not followed' % n)
                set_[e[3][0][1]] = e[3][1][1]
            for f, o in table.items():
                t = bits(('op', '&', fl, C(1 << bit[f + '_flag'])))
                on = None
                for q, b in x.st.facts.items():
                    if bits(q[1]) == t and (q[0] == '=' or q[0] == 'eq' and q[2] == ZERO):
                        on = (b != ZERO) if q[0] == '=' else not b
                res.count('cases')
                if (num[o] in set_ and set_[num[o]] != 0) and on is not True or on and num[o] not in set_ or on is None:
                    w.fail(fn, 'the flag %s is not what the interface is registered with' % f)
            if set(set_) - {num[o] for o in table.values()}:
                w.fail(fn, 'a setting is made that was not asked for')


def answered(res, prog, kept, stored):
    """questions are answered by the one that keeps the setting"""
    w = Way(res, 'C20', prog)
    CCN = 'helics::CommonCore::'
    for n, ask in (('getIntegerProperty', 'getIntegerProperty'), ('getTimeProperty', 'getTimeProperty'), ('getFlagOption', 'getOptionFlag'), ('getHandleOption', 'getHandleOption')):
        fn = prog.fn(CCN + n)
        P = [('l', ('v', p['d'], (fn.line,))) for p in fn.params]
        for x in w.exits(fn, (ask, 'read'), (), FAR):
            res.count('answers')
            e = effects(x, ask)
            o = flow.const_of(x.st, P[1])
            o = o[1] if o is not None and o[0] == 'c' else None
            if e:
                args = e[0][3]
                good = x.ret is not None and (flow.contains(x.ret, e[0][4]) or same(x.st, x.ret, e[0][4], True))
                if len(e) != 1 or not good:
                    w.fail(fn, 'what the federate answers is not returned')
                elif not same(x.st, args[0] if n != 'getHandleOption' else args[2], P[1], False) or n == 'getHandleOption' and (args[0] != P[0] or not kindof(args[1])):
                    w.fail(fn, 'another setting is asked for')
                continue
            if n == 'getHandleOption':
                r = effects(x, 'read')
                if r and o not in stored:
                    w.fail(fn, 'the table of handles is asked for a setting it does not keep (%s)' % NAMES.get(o, o))
                if asked_fed(x):
                    w.fail(fn, 'a setting of an interface is not asked for')
                continue
            core = any(f[0] == 'eq' and b is True and any(t == ('l', ('g', 'helics::gLocalCoreId')) for t in f[1:]) for f, b in x.st.facts.items())
            if not core and o is not None and o in kept:
                w.fail(fn, 'a setting of a federate is answered without asking it (%s)' % NAMES.get(o, o))
            if not core and o is None:
                w.fail(fn, 'a setting of a federate is not asked for')


def run(tier):
    res = harness.Result()
    for e in ('Flags', 'Properties', 'Options'):
        for n, v in names.enum_values(fx.load(['core/PublicationInfo.cpp'], []), 'helics::defs::' + e).items():
            NAMES.setdefault(v, n)
    for tu, cls in (('core/PublicationInfo.cpp', 'PublicationInfo'), ('core/InputInfo.cpp', 'InputInfo'), ('core/EndpointInfo.cpp', 'EndpointInfo')):
        prog = fx.load([tu], [])
        n = 'helics::%s::' % cls
        Pair(res, 'C20', prog, prog.fn(n + 'setProperty'), prog.fn(n + 'getProperty')).run()
    prog = fx.load(['core/HandleManager.cpp'], [])
    n = 'helics::HandleManager::'
    H = Pair(res, 'C20', prog, prog.fn(n + 'setHandleOption'), prog.fn(n + 'getHandleOption'), 1, 2, 1, others=((0, 0),))
    H.run(False)
    prog = fx.load(['core/FederateState.cpp', 'core/TimeCoordinator.cpp', 'core/InterfaceInfo.cpp', 'common/LogBuffer.cpp'], [])
    n = 'helics::FederateState::'
    F = Pair(res, 'C20', prog, prog.fn(n + 'setOptionFlag'), prog.fn(n + 'getOptionFlag'), opaque=HIDE)
    F.run()
    for f in prog.fns(n + 'setProperty'):
        time = 'Time' in f.params[1]['t']
        Pair(res, 'C20', prog, f, prog.fn(n + ('getTimeProperty' if time else 'getIntegerProperty')), kind='time' if time else 'int', opaque=HIDE).run(time)
    registered(res, fx.load(['core/InterfaceInfo.cpp'], []))
    prog = fx.load(['core/CommonCore.cpp', 'core/FederateState.cpp', 'core/TimeCoordinatorProcessing.cpp', 'core/ActionMessage.cpp'], [])
    travels(res, prog)
    forwarded(res, fx.load(['core/FederateState.cpp', 'core/InterfaceInfo.cpp'], []))
    answered(res, prog, {p.o for p in F.S if p.o is not None and F.written(p)} & {g.o for g in F.G}, {p.o for p in H.S if p.o is not None and H.written(p)})
    prog = fx.load(['core/CommonCore.cpp', 'core/BrokerBase.cpp', 'core/LogManager.cpp', 'common/LogBuffer.cpp', 'core/ActionMessage.cpp'], [])
    n = 'helics::CommonCore::'
    Core(res, 'C20', prog, prog.fn(n + 'setFlagOption'), prog.fn(n + 'getFlagOption'), 'flag').run(False)
    Core(res, 'C20', prog, prog.fn(n + 'setIntegerProperty'), prog.fn(n + 'getIntegerProperty'), 'int').run(False)
    return res
