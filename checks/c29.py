"""C29: a federate works on one thread at a time: its lock is taken once, held while it matters, and given back once"""
import fx, harness, names, spec, flow, cont
from flow import C, ZERO, THIS

H = 'helics::'
FS, CC = H + 'FederateState::', H + 'CommonCore::'
TAKE = (FS + 'spinlock', FS + 'sleeplock', FS + 'lock')
GUARDS = ('std::scoped_lock', 'std::lock_guard', 'std::unique_lock')
INFO = ('f', THIS, FS + 'interfaceInformation')
TAGS = ('f', THIS, FS + 'tags')


def mine(t):
    return 'FederateState' in t


class Lock(spec.Spec):
    """typestate of a lock along every path of a function"""
    TAKE, GIVE, TRY = TAKE, FS + 'unlock', FS + 'try_lock'
    whose = THIS
    what = 'the lock of a federate'

    def mine(self, t):
        return mine(t)

    def __init__(self, fn, guarded=(), takers=(), **kw):
        super().__init__(fn, **kw)
        self.guarded, self.takers = guarded, takers
        self.eh = False
        self.ops = 0

    def key(self, o):
        return ('v', 'held ' + repr(o), ())

    def held(self, st, o):
        return st.env.get(self.key(o), ZERO) == C(1)

    def mark(self, st, o, v):
        st.env[self.key(o)] = C(v)
        st._k = None

    def take(self, st, fr, i, o):
        self.ops += 1
        if self.held(st, o):
            self.fail(fr, i, self.what + ' is taken by who holds it already')
        self.mark(st, o, 1)

    def give(self, st, fr, i, o):
        self.ops += 1
        if not self.held(st, o):
            self.fail(fr, i, self.what + ' is given back by who does not hold it')
        self.mark(st, o, 0)

    def trial(self, st, o):
        self.ops += 1
        out = []
        if not self.held(st, o):
            s2 = st.copy()
            self.mark(s2, o, 1)
            out.append((s2, C(1)))
        return out + [(st, ZERO)]

    def on(self, eng, st, fr, obj):
        return self.objloc(eng, st, fr, obj) if obj is not None and obj >= 0 else fr.this

    def opaque(self, eng, fn):
        return True

    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        s = name.split('::')[-1]
        args = [a for a in args if a >= 0]
        if name in self.TAKE:
            self.take(st, fr, i, self.on(eng, st, fr, obj))
            return [(st, ZERO)]
        if name == self.GIVE:
            self.give(st, fr, i, self.on(eng, st, fr, obj))
            return [(st, ZERO)]
        if name == self.TRY:
            return self.trial(st, self.on(eng, st, fr, obj))
        if n.get('cls') in GUARDS and n['k'].endswith(('ConstructExpr', 'ObjectExpr')) and self.mine(n.get('t', '')):
            if not args or n['k'] == 'CXXConstructExpr' and 'unique_lock<' in n.get('pt', [''])[0]:
                return None
            o = eng.lv(st, fr, args[0])
            how = n['pt'][1] if len(n.get('pt', ())) > 1 else ''
            tok = lambda v: ('k', 'guard', (('addr', o), C(v)))
            if 'adopt' in how:
                return [(st, tok(1))]
            if 'defer' in how:
                return [(st, tok(0))]
            if 'try' in how:
                return [(s2, tok(v[1])) for s2, v in self.trial(st, o)]
            self.take(st, fr, i, o)
            return [(st, tok(1))]
        if obj is not None and obj >= 0 and s in ('lock', 'unlock', 'try_lock', 'owns_lock', 'operator bool') and name.startswith('std::unique_lock'):
            g = self.objloc(eng, st, fr, obj)
            v = eng.read(st, g)
            if v[0] == 'k' and v[1] == 'guard':
                o = v[2][0][1]
                tok = lambda b: ('k', 'guard', (v[2][0], C(b)))
                if s == 'unlock':
                    self.give(st, fr, i, o)
                    eng.write(st, g, tok(0))
                    return [(st, ZERO)]
                if s == 'lock':
                    self.take(st, fr, i, o)
                    eng.write(st, g, tok(1))
                    return [(st, ZERO)]
                if s == 'try_lock':
                    out = self.trial(st, o)
                    for s2, b in out:
                        eng.write(s2, g, tok(b[1]))
                    return out
                return [(st, v[2][1])]
        if name in self.takers:
            self.ops += 1
            if self.held(st, self.on(eng, st, fr, obj)):
                self.fail(fr, i, 'who holds %s waits for it in %s' % (self.what, s))
        o = self.on(eng, st, fr, obj)
        for w in self.guarded:
            if name == w if isinstance(w, str) else obj is not None and obj >= 0 and flow.contains(o, w):
                self.ops += 1
                if not self.held(st, self.whose if not isinstance(w, str) else o):
                    self.fail(fr, i, '%s is done without %s' % (s, self.what))
        return super().called(eng, st, fr, i, name, obj, args)

    def on_local_exit(self, eng, st, fr, var):
        super().on_local_exit(eng, st, fr, var)
        if var['t'].replace('const ', '').startswith(GUARDS) and self.mine(var['t']):
            for k in [k for k in st.env if k[0] == 'v' and k[1] == var['dtor']]:
                v = st.env[k]
                if v[0] == 'k' and v[1] == 'guard' and v[2][1] == C(1):
                    self.give(st, fr, None, v[2][0][1])
                    st.env[k] = ('k', 'guard', (v[2][0], ZERO))
                    st._k = None

    def on_assign(self, eng, st, fr, i, loc, val):
        super().on_assign(eng, st, fr, i, loc, val)
        for w in self.guarded:
            if not isinstance(w, str) and flow.contains(loc, w):
                self.ops += 1
                if not self.held(st, self.whose):
                    self.fail(fr, i, 'something is changed without ' + self.what)

    def it_begin(self, eng, st, fr, i, c):
        super().it_begin(eng, st, fr, i, c)
        if c in self.guarded:
            self.ops += 1
            if not self.held(st, self.whose):
                self.fail(fr, i, 'something is looked through without ' + self.what)


class Asked(Lock):
    """a query with a given text"""
    word = ''

    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        if n.get('op') in ('==', '!=') and name.startswith('std::'):
            ops = [eng.ev(st, fr, a) for a in ([obj] if obj is not None and obj >= 0 else []) + [a for a in args if a >= 0]]
            lits = [t for t in map(literal, ops) if t is not None]
            if len(ops) == 2 and len(lits) == 1:
                return [(st, C(int((lits[0] == self.word) == (n['op'] == '=='))))]
        return super().called(eng, st, fr, i, name, obj, args)


def literal(v):
    while v[0] == 'k' and v[2] and isinstance(v[2][0], tuple):
        v = v[2][0]
    return v[1] if v[0] == 's' else None


def direct(fn):
    """a function waits for the lock of a federate itself"""
    for i in fn.walk():
        n = fn.nodes[i]
        if n.get('fn') in TAKE or n.get('cls') in GUARDS and mine(n.get('t', '')) and len(n.get('pt', ())) < 2:
            return True
    return False


def uses(fn):
    """a function has to do with the lock of a federate itself"""
    for i in fn.walk():
        n = fn.nodes[i]
        if n.get('fn') in TAKE + (FS + 'unlock', FS + 'try_lock') or n.get('cls') in GUARDS and mine(n.get('t', '')):
            return True
    return False


def callees(prog, fn):
    for i in fn.calls():
        n = fn.nodes[i].get('fn', '')
        if n.startswith(FS):
            for g in prog.fns(n):
                yield g


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/FederateState.cpp', 'core/CommonCore.cpp'], [])
    own = [f for f in prog.funcs.values() if f.cls == FS[:-2] and not f.d.get('dep') and f.n not in TAKE + (FS + 'unlock', FS + 'try_lock')]
    waits = {f.n for f in own if direct(f)}
    calls = {}
    for f in own:
        calls.setdefault(f.n, set()).update(g.n for g in callees(prog, f))
    via = {n: None for n in waits}
    todo = list(waits)
    while todo:
        t = todo.pop()
        for f, c in calls.items():
            if t in c and f not in via:
                via[f] = t
                todo.append(f)
    res.count('functions that wait for the lock', len(via))
    # what runs inside the lock never waits for it
    INSIDE = [FS + n for n in ('processQueue', 'processActionMessage', 'processQueryActual', 'updateDataForExecEntry', 'updateDataForTimeReturn')]
    for n in INSIDE:
        f = prog.fn(n)
        res.count('functions run under the lock')
        if n in via:
            path = [n]
            while via[path[-1]]:
                path.append(via[path[-1]])
            res.add('C29|%s|waits' % f.short, '%s: %s runs under the lock of the federate and waits for it: %s' % (f.loc(), f.short, ' -> '.join(p.split('::')[-1] for p in path)))
    # every function that has to do with the lock
    work = tuple(INSIDE)
    WITH = {FS + 'waitSetup': work, FS + 'enterInitializingMode': work, FS + 'enterExecutingMode': work, FS + 'requestTime': work,
            FS + 'genericUnspecifiedQueueProcess': work, FS + 'forceProcessMessage': work, FS + 'createInterface': (INFO,),
            FS + 'checkAndSetValue': (INFO,), FS + 'getSubscribers': (INFO,), FS + 'getMessageDestinations': (INFO,),
            FS + 'setTag': (TAGS,), FS + 'getTag': (TAGS,),
            FS + 'setProperties': (FS + 'setProperty', FS + 'setOptionFlag', FS + 'setInterfaceProperty'),
            FS + 'setCoreObject': (('f', THIS, FS + 'mParent'),),
            CC + 'getValue': (FS + 'getValue',), CC + 'getAllValues': (FS + 'getAllValues',)}

    def look(fn, env=None, cls=Lock, **kw):

        def ex(x):
            x.need(not any(k[0] == 'v' and str(k[1]).startswith('held ') and v == C(1) for k, v in x.st.env.items()), 'the lock of a federate is not given back')
        r = spec.check(res, 'C29', prog, fn, cls=cls, exit=ex, takers=tuple(via), env=env, **kw)
        res.count('lock operations', r.ops)
        return r

    def helped(f, seen):
        if f.u in seen:
            return False
        seen.add(f.u)
        return uses(f) or any(g is not None and flow.helper(g) and helped(g, seen) for i in f.calls() for g in [prog.funcs.get(f.nodes[i].get('fu'))])
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        lam = 'operator()' in f.n and uses(f)
        if f.d.get('dep') or flow.helper(f) and not lam or f.n in TAKE + (FS + 'unlock', FS + 'try_lock'):
            continue
        if f.n == FS + 'processQuery':
            continue
        if f.n in WITH or helped(f, set()):
            r = look(f, guarded=WITH.get(f.n, ()))
            if f.n in WITH and not r.ops:
                res.add('C29|%s|ops' % f.short, '%s: %s no longer does anything under the lock of the federate' % (f.loc(), f.short))
    # a query is looked into under the lock, except for what needs none
    fn = prog.fn(FS + 'processQuery')
    forced = ('v', fn.params[1]['d'], (fn.line,))
    FREE = ('publications', 'inputs', 'endpoints', 'global_state')
    for word in FREE + ('subscriptions', 'tags', 'current_time', 'values', 'timeconfig', 'dependencies', 'global_time'):
        for force in (0, 1):
            cls = type('Asked', (Asked,), {'word': word})
            r = look(fn, cls=cls, env={forced: C(force)}, guarded=() if word in FREE and not force else (FS + 'processQueryActual',))
            res.count('queries')
            if not r.ops and not (word in FREE and not force):
                res.add('C29|processQuery|%s' % word, '%s: the query %s is answered without the lock of the federate' % (fn.loc(), word))
    return res
