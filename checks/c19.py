"""C19: an input shows the newest due value of each of its sources"""
import fx, harness, names, spec, flow, ref, cont
from flow import C, ZERO, THIS
import c18
from c18 import param, acts, about, owner, allsubs, member_terms, smallest, position

II, FS = 'helics::InputInfo::', 'helics::FederateState::'
DR = II + 'dataRecord::'
F = lambda n: ('f', THIS, II + n)
QS, SRC, NOW, CUR, OFF, INFO, BYTES = (F(n) for n in ('data_queues', 'input_sources', 'current_data_time', 'current_data', 'deactivated', 'source_info', 'queuedDataSizeBytes'))
CACHES = ('inputUnits', 'inputType')
ONE = cont.el(QS)


def rec(loc, n):
    return ('l', ('f', loc, DR + n))


def now(x):
    """effects so far, those of the unfinished iteration included"""
    return [e for e in list(x.st.rs[0]) + list(x.st.rs[1]) if e[0] != '[']


def shared(ea, b):
    return ea == b or about(b, ea)


def upto(res, prog, name):
    """the newest due value of each queue is taken over, everything up to it leaves the queue"""
    fn = prog.fn(II + name)
    T = ('l', param(fn, 0))
    first = name.endswith('NextIteration')
    strict = name.endswith('UpTo')
    E, K = ('d', ('it', ONE, ('s', 'earlier'))), ('d', ('it', ONE))
    ever = set()

    def known(st, loc):
        t = rec(loc, 'time')
        return any(flow.contains(f, t) for f in st.facts)

    def due(q, k, e):
        """belongs to what is taken, given that everything before does and e is the one before (None: there is none)"""
        t = rec(k, 'time')
        if strict:
            return q.lt(t, T)
        before = None if e is None or not first else flow.known_lt(q.st, rec(e, 'time'), T)
        if before is None and flow.known_lt(q.st, t, T) is True:
            return True
        if e is not None and first and (before is False or before is None and not q.lt(rec(e, 'time'), T)):
            # the queue is in order
            return q.eq(t, T) and q.eq(rec(k, 'iteration'), rec(e, 'iteration'))
        if q.lt(T, t):
            return False
        if not first or q.lt(t, T) or not q.eq(t, T) or e is None:
            return True
        if q.lt(rec(e, 'time'), T) or not q.eq(rec(e, 'time'), T):
            return True
        return q.eq(rec(k, 'iteration'), rec(e, 'iteration'))

    def called(rule, eng, st, fr, i, n, obj, args):
        s = n.split('::')[-1].split('<')[0]
        if s == 'updateData':
            l = eng.lv(st, fr, args[0])
            k = eng.ev(st, fr, args[1])
            r = ('call', 'updateData', (('l', l),), 0)
            x = spec.X(rule, eng, st, fr, None, 'call', (), None, i)
            taken(x, l)
            rule.eff(eng, st, ('act', s, l, k, r, position(st, k)))
            return [(st, r)]
        if s == 'dataSize':
            r = ('call', 'dataSize', tuple(eng.ev(st, fr, a) for a in args), 0)
            rule.eff(eng, st, ('act', s, None, r[2], r))
            return [(st, r)]

    def taken(x, l):
        at = x.st.env.get(('in', ONE))
        if not (l[0] == 'd' and l[1][0] == 'it'):
            return
        x.need(l[1][1] == ONE, 'a value from another queue is taken')
        if l[1][1] != ONE:
            return
        if at == C(1):
            x.need(l in (E, ('d', ('it', ONE, ('s', 'begin')))) or len(l[1]) == 3 and l[1][2][0] == 'prev', 'another value than the last due one is taken')
            if l == E:
                for s, d in ref.cases(x.st, lambda q: due(q, K, E)):
                    res.count('cases')
                    x.need(not d, 'a value is taken although a newer one is due')
                for s, d in ref.cases(x.st, lambda q: due(q, E, None)):
                    x.need(d, 'a value is taken that is not due')
        elif at == ZERO:
            x.need(l == E or l[1][2:] == (('s', 'last'),), 'another value than the last due one is taken')
            if l == E:
                for s, d in ref.cases(x.st, lambda q: due(q, E, None)):
                    x.need(d, 'a value is taken that is not due')

    def each(x):
        if x.c == ONE:
            prev = E if known(x.st, E) else None
            for s, d in ref.cases(x.st, lambda q: due(q, K, prev)):
                res.count('cases')
                x.need(d, 'values are passed that are not due')
        if x.c != QS:
            return
        u = [k for k in x.effs if k[0] == 'act' and k[1] == 'updateData']
        m = [k for k in x.effs if k[0] == 'mut' and k[1] == ONE]
        b = [k for k in x.effs if k[0] in ('add', 'compound') and k[1] == BYTES]
        inc = [k[1] for k in x.effs if k[0] == 'incr']
        ever.update(inc)
        for v in ever:
            x.need(inc.count(v) == 1, 'the queues are not counted one by one')
        x.need(len(u) < 2, 'two values of a queue are taken')
        if not u:
            gone = x.st.env.get(('in', ONE))
            if gone == C(1):
                for s, d in ref.cases(x.st, lambda q: due(q, K, None)):
                    x.need(not d, 'a due value is not taken')
            x.need(not m and not b, 'values leave a queue although none is taken')
            return
        k = u[0]
        if k[3][0] == 'c' or k[3][0] == 'h':
            x.need(inc, 'the values of all queues go to the same place')
            before = x.effs[:x.effs.index(k)]
            x.need(not [e for e in before if e[0] == 'incr'], 'the value goes to the place of another source')
        x.need(len(m) == 1, 'the values that were taken or passed do not leave the queue')
        for e in m:
            if e[2] != 'erase':
                continue
            a = e[3]
            x.need(len(a) == 2 and a[0] == ('it', ONE, ('s', 'begin')) or a[0][0] not in ('it', 'end'), 'older values stay in the queue')
            if len(a) == 2 and a[1][0] in ('it', 'end'):
                x.need(a[1] in (('it', ONE), ('end', ONE)) or len(a[1]) == 3 and a[1][2][0] in ('lb', 'ub'), 'the value taken stays in the queue')
        d = [e for e in x.effs if e[0] == 'act' and e[1] == 'dataSize']
        x.need(len(b) == 1 and b[0][3] == '-', 'the size of the queues is not reduced by what left them')
        if len(b) == 1 and b[0][2][:2] == ('call', 'dataSize'):
            a = b[0][2][2]
            x.need(len(a) == 2 and a[0] == ('it', ONE, ('s', 'begin')) and (len(a[1]) == 2 or a[1][0] == 'end'), 'the size of the queues is reduced by another part than what left them')
            if d:
                x.need(x.effs.index(d[0]) < x.effs.index(k), 'the size of a value is asked for after it is gone')
        said = [e for e in x.effs if e[0] == 'set' and e[1][0] == 'v' and e[1][1] in x.outer() and e[1] not in inc]
        for s, w in ref.cases(x.st, lambda q: q.is_(k[4])):
            res.count('cases')
            out = x.outer()
            if w:
                x.need(any(flow.truth(s, v) is True for l, v in s.env.items() if l[0] == 'v' and l[1] in out and v[0] in ('c', 'rel', 'not', 'or', 'and', 'op', 'call')), 'a change is not reported')
            else:
                x.need(not [e for e in said if e[3] == ('s', 'flip') or e[3] == ('s', 'open') and flow.truth(s, e[2]) is False], 'an unchanged source hides or fakes a change')
    outs = []

    def ex(x):
        x.need(QS in x.done() or x.eq(('p', '#', ('l', QS)), ZERO) is True, 'not every queue is looked at')
        outs.append(x.ret)

    def flips(st, loc, val):
        old = st.env.get(loc)
        a, b = (flow.truth(st, v) if v is not None else None for v in (old, val))
        return ('s', 'same' if old == val or a is not None and a == b or a is False and b is None else 'flip' if b is not None else 'open')
    r = spec.check(res, 'C19', prog, fn, exit=ex, each=each, called=called, chain={ONE}, outer=True, rec=['updateData'], sets=lambda l: l == BYTES or l[0] == 'v', atset=flips)
    if not any(o == ZERO or o[0] != 'c' for o in outs):
        res.add('C19|%s|always' % fn.short, '%s: %s reports a change whatever happened' % (fn.loc(), fn.short))
    if not any(o == C(1) or o[0] != 'c' for o in outs):
        res.add('C19|%s|reported' % fn.short, '%s: %s never reports a change' % (fn.loc(), fn.short))


def taken_over(res, prog):
    fn = prog.fn(II + 'updateData')
    u, i = param(fn, 0), ('l', param(fn, 1))
    cur, at = ('i', CUR, i), ('i', NOW, i)
    P = 'std::pair::'

    def new(q):
        if not q.is_(('l', F('only_update_on_change'))):
            return True
        if q.eq(('l', cur), ZERO):
            return True
        return not q.eq(('l', ('d', rec(u, 'data'))), ('l', ('d', ('l', cur))))

    def ex(x):
        for s, w in ref.cases(x.st, new):
            res.count('cases')
            x.need(x.truth(x.ret) is not (not w), 'a new value is not reported' if w else 'a value that is the same is reported')
            v = x.eng.read(s, cur)
            t, k = x.eng.read(s, ('f', at, P + 'first')), x.eng.read(s, ('f', at, P + 'second'))
            if w:
                x.need(not ref.wrong(s, v, rec(u, 'data')), 'the value shown is another one than the new one')
                x.need(not ref.wrong(s, t, rec(u, 'time')), 'the time of the value shown is another one than that of the new value')
                x.need(not ref.wrong(s, k, rec(u, 'iteration')), 'the iteration of the value shown is another one than that of the new value')
            else:
                x.need(v == ('l', cur), 'the value shown changes although the new one is the same')
                x.need(not ref.wrong(s, t, ('l', ('f', at, P + 'first'))), 'the time of the value shown changes although the new one is the same')
    spec.check(res, 'C19', prog, fn, exit=ex)


def arrives(res, prog):
    """a value that a source published is put into its queue in order, or refused for one of the stated reasons"""
    fn = prog.fn(II + 'addData')
    src, t, it, data = (('l', param(fn, k)) for k in range(4))

    def place(x):
        for k, v in x.st.env.items():
            if k[0] == 'idxof' and v == SRC:
                return ('idx',) + k[1:]
        return ('dist', SRC)

    def ex(x):
        ms = [e for e in now(x) if e[0] == 'mut' and flow.contains(e[1], QS)]
        adds = [e for e in now(x) if e[0] in ('add', 'compound') and e[1] == BYTES]
        i = place(x)
        inside = x.st.env.get(('in', SRC)) == C(1) and x.eq(('l', cont.el(SRC)), src) is True
        if not inside:
            for e in ms[:1]:
                if e[1][0] == 'i':
                    inside, i = True, e[1][2]
        if not inside or i is None:
            x.need(x.truth(x.ret) is not True or x.eq(data, ZERO) is False and ms, 'a value of an unknown source is accepted')
            x.need(SRC in x.done() or x.eq(data, ZERO) is True or x.eq(('p', '#', ('l', SRC)), ZERO) is True or x.truth(x.ret) is not False, 'a value is refused although not all sources were looked at')
            x.need(not ms and not adds, 'a value of an unknown source is stored')
            return
        qu = ('i', QS, i)
        n = ('p', '#', ('l', qu))
        back = ('i', qu, ('s', 'back'))
        ub = [k[2] for k in x.st.env if k[0] in ('bound', 'first') and k[1] == qu and len(k) == 3]
        pos = [a[2] for e in ms for a in e[3] if a[0] == 'it' and len(a) == 3]
        ubs = [k for k in x.st.env if k[0] == 'first' and k[1] == qu]

        def equal(q, loc):
            """is the value the same as that of the record at loc"""
            for f, b in x.st.facts.items():
                if f[0] == 'eq' and any(flow.contains(a, loc) for a in f[1:]) and not any(a[0] == 'c' for a in f[1:]) and q.st.facts.get(f) is not None:
                    return b
            return q.eq(('l', ('d', ('l', loc))), ('l', ('d', data)))

        def accept(q):
            if q.eq(data, ZERO):
                return False
            if q.lt(('l', ('i', OFF, i)), t):
                return False
            if ubs:
                k = ubs[0]
                prev = None if x.st.env[k] == C(1) else ('d', ('it', qu, ('prev', k[2])))
                pt, pd = (rec(prev, 'time'), ('f', prev, DR + 'data')) if prev else (None, None)
            elif q.eq(n, ZERO):
                prev = None if q.eq(('l', ('i', CUR, i)), ZERO) else ('i', CUR, i)
                pt, pd = ('l', ('f', ('i', NOW, i), 'std::pair::first')), prev
            else:
                if not q.lt(rec(back, 'time'), t):
                    return None
                prev = back
                pt, pd = rec(back, 'time'), ('f', back, DR + 'data')
            if prev is None:
                return True
            if q.lt(('l', ('v', 'timeZero')) if False else zero, ('l', F('minTimeGap'))) and q.lt(('op', '-', t, pt), ('l', F('minTimeGap'))):
                return False
            if q.is_(('l', F('only_update_on_change'))) and equal(q, pd):
                return False
            return True
        zero = next((f[1] for f in x.st.facts if f[0] == 'lt' and f[2] == ('l', F('minTimeGap'))), C(0))
        for s, w in ref.cases(x.st, accept):
            res.count('cases')
            if w is None:
                # neither empty nor after the last one: the place has to be searched
                x.need(x.truth(x.ret) is not True or any(e[2] in ('insert', 'emplace') for e in ms), 'a value is put behind one that is not older')
                continue
            x.need(x.truth(x.ret) is not (not w), 'a value is refused without a reason' if w else 'a value is accepted although there is a reason to refuse it')
            x.need(len(ms) == (1 if w else 0), 'a value that is accepted is not stored exactly once' if w else 'a value that is refused is stored')
            x.need(len(adds) == (1 if w else 0), 'the size of the queues does not grow with an accepted value' if w else 'the size of the queues grows with a refused value')
        for e in ms:
            x.need(e[1] == qu, 'a value is put into the queue of another source')
            v = list(e[3])
            if e[2] in ('insert', 'emplace'):
                p = v.pop(0)
                x.need(p[0] == 'end' or len(p) == 3 and p[1] == qu and p[2][0] == 'ub' or p[0] not in ('it', 'end'), 'a value is put at a place that was not searched for it')
                if p[0] == 'end':
                    x.need(not ubs or x.st.env.get(('bound', qu, ubs[0][2][1])) == C(1) or True, '')
            elif e[2] not in ('emplace_back', 'push_back'):
                x.need(False, 'a value is put somewhere else than behind the earlier ones')
            if len(v) == 1 and v[0][0] == 'k':
                v = list(v[0][2])
            if len(v) == 3:
                for a, b, what in zip(v, (t, it, data), ('time', 'iteration', 'data')):
                    x.need(not ref.wrong(x.st, a, b), 'a value is stored with another %s' % what)
        for e in adds:
            x.need(e[3] == '+' and (about_data(e[2], data) or e[2][0] not in ('l', 'c')), 'the size of the queues grows by something else than the size of the value')

    def about_data(v, d):
        return flow.contains(v, d)

    orders = [0]

    def order(x, p, q):
        if not flow.contains(x.c, QS):
            return
        orders[0] += 1
        tp, tq, ip, iq = (x.val(('f', l, DR + n)) for n in ('time', 'iteration') for l in (p, q))
        for s, w in ref.cases(x.st, lambda z: z.lt(tp, tq) or z.eq(tp, tq) and z.lt(ip, iq)):
            res.count('cases')
            x.need(flow.truth(s, x.ret) is not (not w), 'values are not ordered by time and then by iteration')
    spec.check(res, 'C19', prog, fn, exit=ex, order=order, sets=lambda l: l == BYTES, cap=3000)


def sources(res, prog):
    """sources come and go"""
    fn = prog.fn(II + 'addSource')
    new, nm, ty, un = (('l', param(fn, k)) for k in range(4))
    never = lambda v: 'maxVal' in str(v)

    def added(x):
        ef = now(x)
        grow = [e for e in ef if e[0] == 'mut' and e[1] in (SRC, INFO, OFF, QS, CUR, NOW)]
        back = [e for e in ef if e[0] == 'set' and e[1][0] == 'i' and e[1][1] == OFF]
        here = x.st.env.get(('in', SRC)) == C(1) and x.eq(('l', cont.el(SRC)), new) is True
        clear = [n for n in CACHES if not (x.val(F(n)) == ('s', '') or x.val(F(n)) == ('k', 'empty', ()))]
        if here:
            x.need(not grow, 'a source that is known is added again')
            x.need(x.truth(x.ret) is not None and (x.truth(x.ret) is True) == bool(back), 'a known source is reported as added without being connected again, or the other way round')
            if back:
                i = back[0][1][2]
                x.need(never(back[0][2]) or back[0][2][0] not in ('l', 'c'), 'a source that comes back stays disconnected')
                for n, v in (('units', un), ('type', ty)):
                    x.need(not ref.wrong(x.st, x.val(('f', ('i', INFO, i), II + 'sourceInformation::' + n)), v), 'a source that comes back is listed with other %s' % n)
                x.need(not clear, 'the units or types of the sources are not determined again')
            else:
                ds = [f for f in x.st.facts if flow.contains(f, OFF)]
                x.need(not [e for e in ef if e[0] == 'set' and e[1][0] == 'f' and flow.contains(e[1], INFO)], 'a source that is connected changes')
            return
        x.need(SRC in x.done() or x.eq(('p', '#', ('l', SRC)), ZERO) is True, 'a source is added without looking for it')
        x.need(x.truth(x.ret) is not False, 'a new source is refused')
        x.need(not clear and x.val(F('sourceTargets')) in (('s', ''), ('k', 'empty', ())), 'units, types or targets of the sources are not determined again')
        x.need(x.truth(x.val(F('has_target'))) is not False and x.val(F('has_target')) != ('l', F('has_target')), 'the input still counts as unconnected')
        for c, what in ((SRC, 'source'), (INFO, 'information about the source'), (OFF, 'end time'), (QS, 'queue'), (CUR, 'value'), (NOW, 'time of the value')):
            m = [e for e in grow if e[1] == c]
            x.need(len(m) == 1 and m[0][2] in ('push_back', 'emplace_back', 'resize'), 'a new source does not get its %s' % what)
        for e in grow:
            a = e[3]
            if e[2] == 'resize' and a[0][0] == 'p' and a[0][1] == '#':
                x.need(a[0][2][0] != 'l', 'the list is brought to the size before the new source')
            if e[1] == SRC and e[2] != 'resize':
                x.need(len(a) == 1 and not ref.wrong(x.st, a[0], new), 'another source is added')
            if e[1] == OFF and e[2] != 'resize':
                x.need(a and (never(a[0]) or a[0][0] not in ('l', 'c')), 'a new source starts disconnected')
            if e[1] == INFO and len(a) == 3:
                for v, w, what in zip(a, (nm, ty, un), ('name', 'type', 'units')):
                    x.need(not ref.wrong(x.st, v, w), 'a new source is listed with another %s' % what)
    spec.check(res, 'C19', prog, fn, exit=added, sets=lambda l: l[0] != 'v')

    # removal
    def leave(fn, c, match, pops):
        T = ('l', param(fn, 1))
        poss = [False]

        def called(rule, eng, st, fr, i, n, obj, args):
            if n.split('::')[-1] == 'pop_back' and obj is not None and obj >= 0:
                l = rule.objloc(eng, st, fr, obj)
                if flow.contains(l, QS):
                    x = spec.X(rule, eng, st, fr, None, 'call', (), None, i)
                    x.need(flow.known_lt(st, T, eng.read(st, ('f', ('i', l, ('s', 'back')), DR + 'time'))) is True, 'a value is dropped that is not known to be published after the end')
            return None

        def end(x, i):
            qu, off = ('i', QS, i), ('l', ('i', OFF, i))
            v = x.val(qu)
            sets = [e for e in x.effs if e[0] == 'set' and e[1] == off[1]]
            drops = [e for e in x.effs if e[0] == 'mut' and e[1] == qu]
            if pops:
                left = ('p', '#', v)
                last = x.val(('f', ('i', qu, ('s', 'back')), DR + 'time'))
                if not any(e[2] != 'pop_back' for e in drops):
                    x.need(x.eq(left, ZERO) is True or flow.known_lt(x.st, T, last) is False, 'values published after the end stay in the queue')
            for s, low in ref.cases(x.st, lambda q: q.lt(T, off)):
                x.need(bool(sets) == low or bool(sets) and not ref.wrong(s, sets[-1][2], off), 'a source keeps sending after its end' if low else 'the end of a source moves to a later time')
                for e in sets:
                    x.need(not ref.wrong(s, e[2], T if low else off), 'a source ends at another time')

        def index(x):
            for k, v in x.st.env.items():
                if k[0] == 'idxof' and v == x.c:
                    return ('idx',) + k[1:]
            for e in x.effs:
                if e[0] == 'set' and e[1][0] == 'i' and e[1][1] == OFF:
                    return e[1][2]

        def each(x):
            if x.c != c:
                return
            i = index(x)
            for s, w in ref.cases(x.st, lambda q: match(q, cont.el(c))):
                res.count('cases')
                ch = [e for e in x.effs if (e[0] == 'mut' or e[0] == 'set') and (flow.contains(e[1], QS) or flow.contains(e[1], OFF))]
                if not w:
                    x.need(not ch, 'a source is changed that is not meant')
                elif i is not None:
                    x.need(not [e for e in ch if e[1] not in (('i', QS, i), ('i', OFF, i))], 'the data of another source changes')
                    end(x, i)
            ds = [e for e in x.effs if e[0] == 'mut' and flow.contains(e[1], QS)]
            bs = [e for e in x.effs if e[0] in ('compound', 'add') and e[1] == BYTES]
            if ds and all(e[2] == 'pop_back' for e in ds):
                x.need(bs and all(e[3] == '-' for e in bs) or any(e[2] == ZERO for e in bs), 'the size of the queues is not reduced by what left them')

        def ex(x):
            x.need(c in x.done() or x.eq(('p', '#', ('l', c)), ZERO) is True, 'not every source is looked at')
            for n in CACHES:
                x.need(x.val(F(n)) in (('s', ''), ('k', 'empty', ())), 'the %s of the sources are not determined again' % n[5:].lower())
        spec.check(res, 'C19', prog, fn, exit=ex, each=each, called=called, sets=lambda l: l[0] != 'v')
    for fn in prog.fns(II + 'removeSource'):
        P0 = ('l', param(fn, 0))
        if 'string' in fn.params[0].get('t', ''):
            leave(fn, INFO, lambda q, e, P0=P0: q.eq(('l', ('f', e, II + 'sourceInformation::key')), P0), True)
        else:
            leave(fn, SRC, lambda q, e, P0=P0: q.eq(('l', e), P0), True)
    fn = prog.fn(II + 'disconnectFederate')
    P1 = ('l', param(fn, 0))
    leave(fn, SRC, lambda q, e: q.eq(('l', ('f', e, 'helics::GlobalHandle::fed_id')), P1), False)


def shown(res, prog):
    """what is handed out"""
    for fn in prog.fns(II + 'getData'):
        k = ('l', param(fn, 0))
        if '*' not in fn.params[0].get('t', ''):
            def one(x):
                r = x.ret
                n = ('p', '#', ('l', CUR))
                for s, ok in ref.cases(x.st, lambda q: not q.lt(k, ZERO) and q.lt(k, n)):
                    res.count('cases')
                    if ok:
                        x.need(r in (('L', ('i', CUR, k)), ('l', ('i', CUR, k))) or r[0] not in ('L', 'l'), 'the value of another source is handed out')
                    else:
                        x.need(not flow.contains(r, CUR), 'a value is handed out for a source that does not exist')
            spec.check(res, 'C19', prog, fn, exit=one)
            continue
        t = ('l', ('f', cont.el(NOW), 'std::pair::first'))
        ever = set()

        def called(rule, eng, st, fr, i, n, obj, args):
            if n.split('::')[-1] == 'priorityCheck':
                a = tuple(eng.ev(st, fr, q) for q in args)
                r = ('call', 'priorityCheck', (), 0)
                for f in [f for f in st.facts if flow.contains(f, r)]:
                    del st.facts[f]
                st._k = None
                rule.eff(eng, st, ('act', 'priorityCheck', a, r))
                return [(st, r)]

        def bigger(st, loc, val):
            old = st.env.get(loc)
            if old == val:
                return ('s', 'same')
            r = None if old is None else flow.known_lt(st, old, val)
            return C(1) if r is True else ZERO if r is False else ('s', 'open')

        def each(x):
            if x.c != NOW:
                return
            out = x.outer()
            inc = [e[1] for e in x.effs if e[0] == 'incr']
            ever.update(inc)
            for v in ever:
                x.need(inc.count(v) == 1, 'the sources are not counted one by one')
            sets = [e for e in x.effs if e[0] == 'set' and e[1][1] in out and e[1] not in inc]
            best = [e for e in sets if e[2] == t or flow.known_eq(x.st, e[2], t) is True]
            place = [e for e in sets if e not in best]
            asked = [e for e in x.effs if e[0] == 'act']
            pos = {x.effs.index(e) for e in place}
            for e in best:
                if e[3] == C(1):
                    x.need(place, 'the time of a source counts without the source')
                elif e[3] != ('s', 'same'):
                    x.need(flow.known_eq(x.st, e[2], t) and place, 'a value counts as the newest that is not known to be newer')
            for e in place:
                i = x.effs.index(e)
                x.need(not [z for z in x.effs[:i] if z[0] == 'incr'], 'the value of another source is chosen')
            vals = [v for l, v in x.st.env.items() if l[0] == 'v' and l[1] in out and l not in inc and v[0] not in ('it', 'end', 'addr')]
            if not best:
                x.need(any(flow.known_lt(x.st, v, t) is False for v in vals), 'a newer value may be passed over')
                for s, tie in ref.cases(x.st, lambda q: bool(asked) and q.is_(asked[0][3])):
                    x.need(bool(place) == (bool(asked) and tie) or not asked and not place, 'the priority does not decide between values of the same time')
                if place:
                    x.need(asked, 'an older value replaces a newer one')
                if not asked:
                    x.need(any(flow.known_lt(x.st, t, v) is True or flow.known_eq(x.st, t, v) is False for v in vals), 'the priority does not decide between values of the same time')
            for e in asked:
                a = e[2]
                x.need(any(flow.known_eq(x.st, v, t) is True for v in vals), 'the priority decides although the times differ')
                x.need(a[0] == a[1] or a[0][0] in ('h', 'c', 'idx') and (a[0][0] != 'h' or a[0][2] in ever or a[0][2] not in ever and not inc), 'the priorities are compared the wrong way round')
                if a[0][0] == 'h' and inc and a[0][2] not in inc or a[0][0] == 'c' and a[1][0] == 'h':
                    x.fail('the priorities are compared the wrong way round')

        def ex(x):
            x.need(NOW in x.done() or x.eq(('p', '#', ('l', NOW)), ZERO) is True, 'not every source is looked at')
            r = x.ret
            if r[0] == 'L' and r[1][0] == 'i':
                x.need(r[1][1] == CUR, 'another thing than a value is handed out')
                for s, some in ref.cases(x.st, lambda q: q.ne(k, ZERO)):
                    if some:
                        v = x.eng.read(s, ('d', k))
                        x.need(not ref.wrong(s, v, r[1][2]) and not (v != r[1][2] and v[0] in ('h', 'idx', 'c') and r[1][2][0] in ('h', 'idx', 'c') and flow.known_eq(s, v, r[1][2]) is None), 'another source is named than that of the value')
        spec.check(res, 'C19', prog, fn, exit=ex, each=each, called=called, outer=True, rec=['priorityCheck'], sets=lambda l: l[0] == 'v', atset=bigger)
    fn = prog.fn('helics::priorityCheck')
    i1, i2, ps = (param(fn, j) for j in range(3))

    def prio(x):
        # the first entry looked at decides the paths that end with it; the others run through the same code
        for f, b in x.st.facts.items():
            for a in f[1:]:
                if a[0] == 'l' and a[1][0] == 'i' and a[1][1] == ps:
                    x.need(a[1][2] != ZERO and a[1][2][0] != 'idx' or x.eq(('p', '#', ('l', ps)), C(1)) is True, 'the priorities are looked at from the oldest on')
                    if f[0] == 'eq' and b and ('l', i1) in f[1:]:
                        x.need(x.truth(x.ret) is not False, 'a source that is listed first has no priority')
                    elif f[0] == 'eq' and b and ('l', i2) in f[1:]:
                        x.need(x.truth(x.ret) is not True, 'a source has priority over one that is listed before')
                if a[0] == 'l' and a[1] == cont.el(ps):
                    x.need(any(e == ('rev', ps) for e in now(x)) or x.eq(('p', '#', ('l', ps)), C(1)) is True, 'the priorities are looked at from the oldest on')
        if x.eq(('p', '#', ('l', ps)), ZERO) is True:
            x.need(x.truth(x.ret) is not True, 'a source has priority that is not listed')
    spec.check(res, 'C19', prog, fn, exit=prio)


def ahead(res, prog):
    fn = prog.fn(II + 'nextValueTime')
    off = ('l', F('not_interruptible'))

    def none(x):
        if x.truth(off) is True:
            x.need('maxVal' in str(x.ret) or x.ret[0] not in ('l', 'c'), 'an input that interrupts nothing names a time')
        else:
            x.need(x.truth(off) is False, 'it is not asked whether the input may interrupt')
    smallest(res, 'C19', prog, fn, QS, None, None, None, guard=lambda q, t: q.ne(('p', '#', ('l', ONE)), ZERO), exit=none,
             term=rec(('i', ONE, ('s', 'front')), 'time'), unless=off, what='time of a value')
    fn = prog.fn(II + 'clearFutureData')

    def each(x):
        if x.c == QS:
            x.need([e for e in x.effs if e[0] == 'mut' and e[1] == ONE and e[2] == 'clear'] or x.val(ONE) == ('k', 'empty', ()), 'a queue keeps values')

    def ex(x):
        x.need(QS in x.done() or x.eq(('p', '#', ('l', QS)), ZERO) is True, 'not every queue is cleared')
        x.need(not ref.wrong(x.st, x.val(BYTES), ZERO), 'the cleared queues still have a size')
    spec.check(res, 'C19', prog, fn, exit=ex, each=each)


FILL = {n: 'fillEventVector' + n for n in ('UpTo', 'Inclusive', 'NextIteration')}


def federate(res, prog):
    """the federate brings its inputs up to the time it was granted"""
    INS = ('f', THIS, '#getInputs')
    GRANTED = c18.GRANTED
    HOLD = {'getInputs', 'getEndpoints', 'getPublications'}
    for name, update in c18.FILLS:
        c18.filled(res, 'C19', prog, name, INS, update, 'events')
    fn = prog.fn(FS + 'nextValueTime')
    smallest(res, 'C19', prog, fn, INS, 'nextValueTime', None, member_terms({'nextValueTime'}, (), HOLD), guard=lambda q, t: not q.lt(t, GRANTED), what='time of a value')

    R = names.enum_values(prog, 'helics::MessageProcessingResult')
    I = names.enum_values(prog, 'helics::IterationRequest')
    wait = ('l', ('f', THIS, FS + 'wait_for_current_time'))
    GT, AT, IT = (('f', THIS, FS + n) for n in ('time_granted', 'allowed_send_time', 'iterating'))
    start = None

    def watch(eng, st, s, vals):
        return (eng.read(st, GT), eng.read(st, AT))

    def domain(fn, ri, ii):
        r, i = ('l', param(fn, ri)), ('l', param(fn, ii))
        return lambda t: sorted(set(R.values())) if t == r else sorted(set(I.values())) if t == i else None

    def granted(fn, ri, ii, times, fill, iters=None):
        dom = domain(fn, ri, ii)

        def ex(x):
            f = acts(x, *FILL.values())
            for s, want in ref.cases(x.st, lambda q: (times(q), fill(q, x)), dom):
                res.count('cases')
                (g, a), kind = want
                for loc, w, what in ((GT, g, 'granted time'), (AT, a, 'time of sending')):
                    v = x.eng.read(s, loc)
                    if w is None:
                        x.need(not ref.wrong(s, v, ('l', loc)), 'the %s changes without a grant' % what)
                    elif w[0] == 's':
                        x.need(w[1] in str(v) or v[0] not in ('l', 'c') and not (v[0] == 'call' and v[1] in ('getGrantedTime', 'allowedSendTime')), 'the %s is another one than that of the coordinator' % what)
                    else:
                        x.need(not ref.wrong(s, v, w), 'the %s is another one than the initial one' % what)
                for s2, w in iters(s, dom) if iters else ():
                    x.need(flow.truth(s2, x.eng.read(s2, IT)) is not (not w), 'the iteration is reported the wrong way round')
                x.need(len(f) == (1 if kind else 0), 'the inputs are not brought up to the granted time exactly once' if kind else 'the inputs change without a grant')
                for k in f if kind else ():
                    x.need(k[1] == FILL[kind], 'the inputs are brought up to the time by %s instead of %s' % (k[1], FILL[kind]))
                    x.need(k[3][0] == k[5][0] or not ref.wrong(s, k[3][0], x.eng.read(s, GT)) and k[3][0] != ('l', GT) or k[5][0] == ('l', GT) and k[3][0] == ('l', GT), 'the inputs are brought up to another time than the granted one')
                    x.need(k[5][0] == x.eng.read(s, GT), 'the granted time is set after the inputs were brought up to it')
        spec.check(res, 'C19', prog, fn, exit=ex, called=member_terms({'getGrantedTime', 'allowedSendTime'}, set(FILL.values()), (), watch), rec=sorted(FILL.values()), cap=2000)

    fn = prog.fn(FS + 'updateDataForExecEntry')
    r, i = ('l', param(fn, 0)), ('l', param(fn, 1))

    def etimes(q):
        if q.eq(r, C(R['NEXT_STEP'])):
            return ('s', 'getGrantedTime'), ('s', 'allowedSendTime')
        if q.eq(r, C(R['ITERATING'])):
            return ('s', 'initializationTime'), ('s', 'initializationTime')
        return None, None

    def efill(q, x):
        if q.eq(r, C(R['ERROR_RESULT'])):
            return None
        if q.eq(i, C(I['FORCE_ITERATION'])):
            return 'NextIteration'
        if q.eq(i, C(I['ITERATE_IF_NEEDED'])):
            return 'UpTo' if q.eq(r, C(R['NEXT_STEP'])) else 'NextIteration'
        if q.eq(i, C(I['NO_ITERATIONS'])):
            return 'Inclusive' if q.is_(wait) else 'UpTo'
        return None
    granted(fn, 0, 1, etimes, efill)

    fn = prog.fn(FS + 'updateDataForTimeReturn')
    r2, nxt, i2 = (('l', param(fn, k)) for k in range(3))

    def ttimes(q):
        return (('s', 'maxVal'), ('s', 'maxVal')) if q.eq(r2, C(R['HALTED'])) else (('s', 'getGrantedTime'), ('s', 'allowedSendTime'))

    def tfill(q, x):
        g = x.eng.read(q.st, GT)
        if q.eq(i2, C(I['FORCE_ITERATION'])):
            return 'NextIteration'
        for n, early in (('ITERATE_IF_NEEDED', 'NextIteration'), ('NO_ITERATIONS', 'Inclusive')):
            if q.eq(i2, C(I[n])):
                return early if q.lt(g, nxt) or q.is_(wait) else 'UpTo'
        return None

    def iters(s, dom):
        return ref.cases(s, lambda q: q.eq(r2, C(R['ITERATING'])), dom)
    granted(fn, 0, 2, ttimes, tfill, iters)

    # values that arrive
    E = names.enum_values(prog, 'helics::action_message_def::action_t')
    AM = c18.AM
    fn = prog.fn(FS + 'processDataMessage')
    cmd = param(fn, 0)
    act, at, dest, cnt, sid, sh = (('l', ('f', cmd, AM + z)) for z in ('messageAction', 'actionTime', 'dest_handle', 'counter', 'source_id', 'source_handle'))
    TM = names.enum_values(prog, 'helics::TimeSynchronizationMethod')
    method = ('l', ('f', THIS, FS + 'timeMethod'))

    def mine(c):
        return flow.contains(c, II + 'input_sources') or 'input_sources' in str(c)

    def state(x, c, effs, stopped):
        inp = [k for k in x.all() if k[0] == 'act' and k[1] == 'getInput'] or [k for k in x.st.rs[0] if k[0] == 'act' and k[1] == 'getInput']
        e = cont.el(c)
        add = [k for k in effs if k[0] == 'act' and k[1] == 'addData']
        upd = [k for k in effs if k[0] == 'act' and k[1] == 'updateValueTime']
        f1, f2 = ('l', ('f', e, 'helics::GlobalHandle::fed_id')), ('l', ('f', e, 'helics::GlobalHandle::handle'))
        whole = flow.known_eq(x.st, ('k', 'helics::GlobalHandle', (sid, sh)), ('l', e))
        for s, w in ref.cases(x.st, lambda q: q.eq(sid, f1) and q.eq(sh, f2) if whole is None else whole):
            res.count('cases')
            x.need(len(add) == (1 if w else 0), 'a value is not stored for its source exactly once' if w else 'a value is stored for another source')
            if not w:
                continue
            for k in add:
                x.need(ref.peel(k[3][0]) in (('l', e), e) or k[3][0][0] not in ('l', 'c'), 'a value is stored for another source')
                x.need(not ref.wrong(s, k[3][2], cnt), 'a value is stored with another iteration')
                for s2, t in ref.cases(s, lambda q: GRANTED if q.eq(method, C(TM['ASYNC'])) and q.lt(at, GRANTED) else at):
                    x.need(not ref.wrong(s2, k[3][1], t), 'a value is stored with another time than that it was published with')
                    for u in upd:
                        x.need(not ref.wrong(s2, u[3][0], t), 'the federate learns of another time than that of the value')
                quiet = ('l', ('f', k[2], II + 'not_interruptible')) if k[2] else None
                for s2, ok in ref.cases(s, lambda q: q.is_(k[4]) and not q.is_(quiet)):
                    x.need(len(upd) == (1 if ok else 0), 'the federate does not learn of a value that arrived' if ok else 'the federate is woken by a value that was refused or does not interrupt')

    def each(x):
        if mine(x.c):
            state(x, x.c, x.effs, False)

    def ex(x):
        c = [k[1] for k, v in x.st.env.items() if k[0] == 'in' and v == C(1) and mine(k[1])]
        for k in c:
            state(x, k, [e for e in x.st.rs[1] if e[0] != '['], True)
        inp = acts(x, 'getInput')
        for s, w in ref.cases(x.st, lambda q: q.eq(act, C(E['cmd_pub']))):
            if w:
                x.need(len(inp) == 1 and not ref.wrong(s, inp[0][3][0], dest), 'a value looks for another input than its destination')
                for s2, some in ref.cases(s, lambda q: bool(inp) and q.ne(inp[0][4], ZERO)):
                    x.need(not some or c or any(mine(d) for d in x.done()), 'a value that arrives is ignored')
            else:
                x.need(not [k for k in x.all() if k[0] == 'act' and k[1] == 'addData'], 'another message counts as a value')
    A = {'getEndpoint', 'getInput', 'updateMessageTime', 'addMessage', 'addData', 'processTimeMessage', 'updateValueTime', 'processQueryActual', 'logMessage',
         'createMessageFromCommand', 'getSourceName', 'checkValueBufferWarning'}
    spec.check(res, 'C19', prog, fn, exit=ex, each=each, called=member_terms((), A, HOLD), rec=sorted(A), cap=2000)


def run(tier):
    res = harness.Result()
    cont.RANGES.add('dataSize')
    prog = fx.load(['core/InputInfo.cpp'], [])
    for n in ('updateTimeUpTo', 'updateTimeInclusive', 'updateTimeNextIteration'):
        upto(res, prog, n)
    taken_over(res, prog)
    arrives(res, prog)
    sources(res, prog)
    shown(res, prog)
    ahead(res, prog)
    federate(res, fx.load(['core/FederateState.cpp'], []))
    return res
