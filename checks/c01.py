"""C01: the message buffer class owns exactly the memory it frees, stays inside it, and keeps its contents."""
import re
import fx, flow, harness
from flow import C, THIS, ZERO

SB = 'helics::SmallBuffer'
F = lambda o, n: ('f', o, SB + '::' + n)
INLINE = 64


def split(p):
    """pointer -> (base, offset)"""
    if p[0] == 'op' and p[1] == '+':
        a, b = p[2], p[3]
        for x, y in ((a, b), (b, a)):
            if isptr(x):
                bb, o = split(x)
                return bb, plus(o, y)
    if p[0] == 'addr' and p[1][0] == 'i':
        bb, o = split(flow_ptr(p[1][1]))
        return bb, plus(o, p[1][2])
    return p, ZERO


def flow_ptr(loc):
    if loc[0] == 'd':
        return loc[1]
    return ('addr', loc)


def plusp(p, o):
    b, k = split(p)
    o = plus(k, o)
    return b if o == ZERO else ('op', '+', b, o)


def eng_minus1(base, k):
    return base if k == 1 else ('op', '+', base, C(k - 1))


def isptr(x):
    if x[0] in ('addr', 'blk', 'new', 'ptr'):
        return True
    return x[0] == 'op' and x[1] == '+' and (isptr(x[2]) or isptr(x[3]))


def plus(a, b):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    if a[0] == 'c' and b[0] == 'c':
        return C(a[1] + b[1])
    for x, y in ((a, b), (b, a)):
        if y[0] == 'op' and y[1] == '-' and y[3] == x:
            return y[2]
    if a[0] == 'c' or (b[0] != 'c' and repr(b) < repr(a)):
        a, b = b, a
    return ('op', '+', a, b)


class R(flow.Rule):
    depth = 6
    eh = False
    ctors = False
    cap = 200

    def __init__(self, chk):
        self.chk = chk
        self.ob = 0
        self.bad = {}
        self.where = ''
        self.news = 0

    def fail(self, eng, fr, nid, what):
        m = '%s: %s: %s' % (fr.fn.loc(nid), self.where, what)
        self.bad.setdefault((self.where, what), m)

    def opaque(self, eng, fn):
        return fn.cls != SB and not (fn.file.endswith('SmallBuffer.hpp'))

    # ---- the memory model
    def capacity(self, st, base):
        if base[0] == 'addr' and base[1][0] == 'f' and base[1][2] == SB + '::buffer':
            return C(INLINE)
        return st.env.get(('size', base))

    def content(self, st, base):
        c = st.env.get(('cont', base))
        return c if c is not None else ((ZERO, ('C', base), ('len', base)),)

    def le(self, st, a, b):
        if a == b or flow.known_le(st, a, b) is True:
            return True
        base, k = flow.lin(a)
        return k >= 1 and base is not None and flow.known_lt(st, eng_minus1(base, k), b) is True

    def check_range(self, eng, st, fr, i, ptr, n, what):
        base, off = split(ptr)
        self.ob += 1
        if st.env.get(('freed', base)):
            self.fail(eng, fr, i, '%s uses storage that was already released' % what)
            return base, off
        cap = self.capacity(st, base)
        if cap is None:
            return base, off
        need = plus(off, n)
        if not self.le(st, need, cap) and not flow.known_eq(st, n, ZERO):
            self.fail(eng, fr, i, '%s of %s byte(s) at offset %s is not bounded by the capacity of the storage' % (what, flow.show(n), flow.show(off)))
        return base, off

    def on_call(self, eng, st, fr, i, name, obj, args):
        short = name.split('::')[-1]
        n = fr.fn.nodes[i]
        if short in ('memcpy', 'memmove', 'memset') and len(args) == 3:
            dst, src, ln = [eng.ev(st, fr, a) for a in args]
            ln = self.norm(st, ln)
            db, do = self.check_range(eng, st, fr, i, dst, ln, 'write')
            if short != 'memset':
                sbase, so = self.check_range(eng, st, fr, i, src, ln, 'read')
                if sbase == db and so == do:
                    return [(st, dst)]
                new = ((do, self.source(st, sbase, so, ln), ln),)
                if so == ZERO:
                    sc = self.content(st, sbase)
                    if len(sc) == 1 and (sc[0][2] == ln or flow.known_eq(st, sc[0][2], ln)):
                        new = ((do, sc[0][1], ln),)
            else:
                new = ((do, ('fill', src), ln),)
            if do != ZERO:
                old = self.content(st, db)
                new = old + new
            st.env[('cont', db)] = new
            st._k = None
            return [(st, dst)]
        if short == 'data' and obj is not None and n.get('cls', '').startswith('std::array'):
            l = eng.lv(st, fr, obj)
            return [(st, ('addr', l))]
        if short in ('begin', 'data') and obj is not None and 'basic_string' in name:
            return [(st, ('ptr', ('p', 'text', eng.ev(st, fr, obj))))]
        if short in ('size', 'length') and obj is not None and 'basic_string' in name:
            v = ('p', 'textlen', eng.ev(st, fr, obj))
            flow.assume_lt(st, v, ZERO, False)
            return [(st, v)]
        if name == 'std::swap' or short == 'swap' and obj is not None and n.get('cls', '').startswith('std::array'):
            a, b = [eng.lv(st, fr, x) for x in (args if obj is None else [obj] + args)]
            if a[0] == 'f' and a[2] == SB + '::buffer':
                pa, pb = ('addr', a), ('addr', b)
                ca, cb = self.content(st, pa), self.content(st, pb)
                st.env[('cont', pa)], st.env[('cont', pb)] = cb, ca
                st._k = None
                return [(st, ZERO)]
        if name in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'std::uninitialized_copy'):
            self.other(eng, st, fr, i, short, args)
            return [(st, ZERO)]
        return None

    def other(self, eng, st, fr, i, short, args):
        v = [eng.ev(st, fr, a) for a in args]
        if short == 'copy':
            sb, so = split(v[0])
            eb, eo = split(v[1])
            ln = eo if so == ZERO and eb == sb else eng.arith('-', v[1], v[0])
            dst, src = v[2], v[0]
        elif short == 'copy_n':
            src, ln, dst = v
        elif short == 'fill_n':
            dst, ln, src = v
        else:
            db, do = split(v[0])
            eb, eo = split(v[1])
            ln = eo if do == ZERO else eng.arith('-', eo, do)
            dst, src = v[0], v[2]
        ln = self.norm(st, ln)
        db, do = self.check_range(eng, st, fr, i, dst, ln, 'write')
        if short.startswith('copy'):
            sbase, so = self.check_range(eng, st, fr, i, src, ln, 'read')
            s = self.source(st, sbase, so, ln)
            sc = self.content(st, sbase)
            if so == ZERO and len(sc) == 1 and (sc[0][2] == ln or flow.known_eq(st, sc[0][2], ln)):
                s = sc[0][1]
        else:
            s = ('fill', src)
        new = ((do, s, ln),)
        if do != ZERO:
            new = self.content(st, db) + new
        st.env[('cont', db)] = new
        st._k = None

    def norm(self, st, v):
        return v

    def source(self, st, base, off, ln):
        return ('C', base) if off == ZERO else ('C', ('at', base, off))

    def on_assign(self, eng, st, fr, i, loc, val):
        if loc[0] == 'i' and fr.fn.cls == SB:
            self.check_range(eng, st, fr, i, plusp(flow_ptr(loc[1]), loc[2]), C(1), 'write')

    def on_new(self, eng, st, fr, nid, val):
        n = fr.fn.nodes[nid]
        self.news += 1
        if n.get('arrnew') and n.get('c'):
            sz = eng.ev(st, fr, n['c'][0])
            st.env[('size', val)] = sz
            self.ob += 1
            if sz[0] != 'c' and not flow._reach(st, sz, C(float('inf')), False):
                self.fail(eng, fr, nid, 'the size of a new block is not bounded by a constant before it is enlarged')
        st.env.pop(('freed', val), None)
        st._k = None

    def on_delete(self, eng, st, fr, nid, val):
        self.ob += 1
        n = fr.fn.nodes[nid]
        if st.env.get(('freed', val)):
            self.fail(eng, fr, nid, 'storage released twice')
        if val[0] == 'addr':
            self.fail(eng, fr, nid, 'the inline storage is released')
        elif val[0] == 'blk' and not st.env.get(('owned', val)):
            self.fail(eng, fr, nid, 'storage the buffer does not own is released')
        elif val[0] not in ('blk', 'new'):
            self.fail(eng, fr, nid, 'storage of unknown origin is released')
        if not n.get('arrdel'):
            self.fail(eng, fr, nid, 'array storage released with a scalar delete')
        st.env[('freed', val)] = C(1)
        st._k = None


def inv(rule, eng, st, fr, o, name, kind):
    """the class invariant of one object"""
    fn = fr.fn
    rd = lambda f: eng.read(st, F(o, f))
    heap, cap, size = rd('heap'), rd('bufferCapacity'), rd('bufferSize')
    ua, no = flow.truth(st, rd('usingAllocatedBuffer')), flow.truth(st, rd('nonOwning'))
    bad = lambda m: rule.fail(eng, fr, None, '%s (%s on %s)' % (m, name, kind))
    rule.ob += 4
    if ua is None:
        bad('cannot tell whether the storage is inline or allocated')
        return None
    if heap[0] == 'op':
        bad('the data pointer is not the start of its storage')
    if not ua:
        if heap != ('addr', F(o, 'buffer')):
            bad('marked as using inline storage but the data pointer refers to something else')
        if flow.known_eq(st, cap, C(INLINE)) is not True:
            bad('inline storage with a capacity other than its extent')
    else:
        if heap[0] == 'addr':
            bad('marked as using allocated storage but the data pointer refers to inline storage')
        if st.env.get(('freed', heap)):
            bad('the data pointer refers to released storage')
        c = rule.capacity(st, heap)
        if c is not None and not rule.le(st, cap, c):
            bad('recorded capacity exceeds the storage')
    own = any(k[0] == 'eq' and v and 'text' in repr(k) and heap in k for k, v in st.facts.items())
    if not own and not rule.le(st, size, cap):
        bad('size is not bounded by the capacity')
    return ua, no, heap


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ActionMessage.cpp'], ['smallbuffer.cpp'])
    rec = prog.record(SB)
    need = {'buffer', 'bufferSize', 'bufferCapacity', 'heap', 'nonOwning', 'locked', 'usingAllocatedBuffer'}
    have = {f['n']: f for f in rec['fields']}
    if need - set(have):
        raise fx.Broken('anchor vanished: buffer members %s' % sorted(need - set(have)))
    global INLINE
    INLINE = int(re.search(r',\s*(\d+)', have['buffer']['t']).group(1))
    fns = [f for f in prog.funcs.values() if f.cls == SB and not f.d.get('dep')]
    res.analysed['member_functions'] = len(fns)
    extra = SpecChecker(prog, res)
    for fn in sorted(fns, key=lambda f: f.line):
        extra.method(fn)
    extra.equality()
    res.analysed['entry_states'] = extra.entries
    res.analysed['abstract_states'] = extra.states
    res.analysed['obligations'] = extra.obl
    res.analysed['exits_checked'] = extra.exits
    res.need('member_functions', 35)
    res.need('exits_checked', 150)
    res.rules = ['abstract interpretation of every member function of the buffer class from every combination of inline/owned/borrowed/locked entry state (including self-assignment): ownership is linear, writes and reads stay inside the storage, size <= capacity, contents follow the operation, locked buffers keep their storage']
    res.assumptions = ['caller-supplied pointers are valid for the length given with them', 'sums of sizes do not wrap', 'sources passed to append/assign do not point into the buffer itself']
    return res


class SpecChecker:
    def __init__(self, prog, res):
        self.p = prog
        self.res = res
        self.entries = self.states = self.obl = self.exits = 0

    def setup(self, env, facts, o, tag, ua, no, locked, live=True):
        blk = ('blk', tag)
        env[F(o, 'usingAllocatedBuffer')] = C(ua)
        env[F(o, 'nonOwning')] = C(no)
        env[F(o, 'locked')] = C(locked)
        env[F(o, 'bufferSize')] = ('n', tag)
        if ua:
            env[F(o, 'heap')] = blk
            env[F(o, 'bufferCapacity')] = ('cap', tag)
            env[('size', blk)] = ('cap', tag)
            env[('cont', blk)] = ((ZERO, ('C', tag), ('n', tag)),)
            if not no:
                env[('owned', blk)] = C(1)
            facts.append((('rel', 'lt', ('cap', tag), ('n', tag)), False))
            for q in ('this', 'sb'):
                facts.append((('rel', 'eq', blk, ('addr', F(self.objloc.get(q, THIS), 'buffer'))), False))
        else:
            ib = ('addr', F(o, 'buffer'))
            env[F(o, 'heap')] = ib
            env[F(o, 'bufferCapacity')] = C(INLINE)
            env[('cont', ib)] = ((ZERO, ('C', tag), ('n', tag)),)
            facts.append((('rel', 'lt', C(INLINE), ('n', tag)), False))
        facts.append((('rel', 'lt', ('n', tag), ZERO), False))

    def method(self, fn):
        ctor = fn.d.get('ctor')
        sbp = [p for p in fn.params if p['t'].rstrip('& ').replace('const ', '') == SB]
        combos = [(0, 0, 0)] if ctor else [(a, n, l) for a, n in ((0, 0), (1, 0), (1, 1)) for l in (0, 1)]
        sb = [None] if not sbp else [(a, n, l) for a, n in ((0, 0), (1, 0), (1, 1)) for l in (0, 1)]
        for c in combos:
            for s in sb:
                self.one(fn, ctor, c, sbp, s, False)
            if fn.short in ('moveAssign', 'spanAssign') and c[0]:
                self.one(fn, ctor, c, sbp, None, False, True)
            if sbp and not ctor:
                self.one(fn, ctor, c, sbp, None, True)

    def one(self, fn, ctor, c, sbp, s, alias, same=False):
        rule = R(self)
        sig = '%s(%s)' % (fn.short, ', '.join(p['t'].replace('helics::', '') for p in fn.params))
        if fn.d.get('const'):
            sig += ' const'
        rule.where = sig
        eng = flow.Engine(self.p, rule)
        env, facts = {}, []
        rule.objs = {}
        self.objloc = {'this': THIS}
        if sbp and not alias:
            self.objloc['sb'] = ('v', sbp[0]['d'], (fn.line,))
        if not ctor:
            self.setup(env, facts, THIS, 'this', *c)
            rule.objs['this'] = THIS
        fid = (fn.line,)
        so = None
        if sbp and alias:
            env[('ref', sbp[0]['d'], fid)] = THIS
        elif sbp:
            so = ('v', sbp[0]['d'], fid)
            self.setup(env, facts, so, 'sb', *s)
            rule.objs['sb'] = so
            facts.append((('rel', 'eq', ('addr', THIS), ('addr', so)), False))
        for p in fn.params:
            if p['t'].endswith('*'):
                env[('v', p['d'], fid)] = ('ptr', p['n'])
            elif not p['t'].endswith('&'):
                env[('v', p['d'], fid)] = ('arg', p['n'])
                if 'long' in p['t']:
                    facts.append((('rel', 'lt', ('arg', p['n']), ZERO), False))
        # memory handed over by the caller is a block of the stated capacity
        if fn.short in ('moveAssign', 'spanAssign'):
            d, n, k = [p for p in fn.params][:3]
        if fn.short in ('moveAssign', 'spanAssign') and same:
            # the storage handed over is the storage already in use
            env[('v', d['d'], fid)] = ('blk', 'this')
            env[('size', ('blk', 'this'))] = ('arg', k['n'])
            facts.append((('rel', 'lt', ('arg', k['n']), ('arg', n['n'])), False))
            facts.append((('rel', 'eq', ('arg', k['n']), ('cap', 'this')), True))
        elif fn.short in ('moveAssign', 'spanAssign'):
            env[('v', d['d'], fid)] = ('blk', 'given')
            env[('size', ('blk', 'given'))] = ('arg', k['n'])
            env[('cont', ('blk', 'given'))] = ((ZERO, ('C', 'given'), ('arg', n['n'])),)
            if fn.short == 'moveAssign':
                env[('owned', ('blk', 'given'))] = C(1)
            facts.append((('rel', 'lt', ('arg', k['n']), ('arg', n['n'])), False))
        self.entries += 1
        outs = eng.analyse(fn, facts=facts, env=env)
        self.states += eng.n_states
        fr = flow.Frame(fn, fid, THIS, 0, (fn.n,))
        for st, kind, ret in outs:
            self.exits += 1
            self.exit(rule, eng, st, fr, fn, kind, ret, ctor, c, s, so, alias, sig, same)
        self.obl += rule.ob
        for k, m in rule.bad.items():
            self.res.add('C01|%s|%s' % k, m)

    def exit(self, rule, eng, st, fr, fn, kind, ret, ctor, c, s, so, alias, sig, same):
        bad = lambda m: rule.fail(eng, fr, None, m)
        if fn.d.get('dtor') or fn.short.startswith('~'):
            rule.ob += 1
            owned = c[0] and not c[1]
            if bool(st.env.get(('freed', ('blk', 'this')))) != bool(owned):
                bad('owned storage is not released exactly once at destruction' if owned else 'destruction releases storage the buffer does not own')
            return
        # storage blocks assumed identical: nothing to compare
        for k, v in st.facts.items():
            if k[0] == 'eq' and v and k[1][0] == 'blk' and k[2][0] == 'blk' and k[1] != k[2]:
                inv_same(rule, eng, st, fr, fn, kind, bad)
                return
        objs = [('the buffer', THIS)]
        if so is not None:
            objs.append(('the other buffer', so))
        hold = {}
        if ctor and kind == 'throw':
            return
        for nm, o in objs:
            r = inv(rule, eng, st, fr, o, nm, kind)
            if r is None:
                return
            ua, no, heap = r
            if ua and no is False:
                hold.setdefault(heap, []).append(nm)
            if ua and no is None:
                bad('cannot tell whether the storage is owned (%s)' % nm)
            # borrowed storage must not become owned and owned storage must not become borrowed by its only holder
            if ua and no is False and heap[0] == 'blk' and not st.env.get(('owned', heap)) and not (same and fn.short == 'moveAssign'):
                bad('borrowed storage becomes owned')
        owned = [('blk', t) for t, ok in (('this', not ctor and c[0] and not c[1]), ('sb', s and s[0] and not s[1]), ('given', fn.short == 'moveAssign' and not same)) if ok]
        owned += [k[1] for k in st.env if k[0] == 'size' and k[1][0] == 'new']
        for b in owned:
            rule.ob += 1
            n = len(hold.get(b, ())) + (1 if st.env.get(('freed', b)) else 0) + (1 if ret == b and fn.short == 'release' else 0)
            if n == 0:
                bad('storage is leaked')
            elif n > 1:
                bad('storage ends up with more than one owner')
        rd = lambda o, f: eng.read(st, F(o, f))
        if same:
            return
        self.spec(rule, eng, st, fr, fn, kind, ret, ctor, c, s, so, alias, bad, rd)

    def data(self, rule, st, heap):
        return rule.content(st, heap)

    def spec(self, rule, eng, st, fr, fn, kind, ret, ctor, c, s, so, alias, bad, rd):
        name = fn.short
        P = fn.params
        eqv = lambda a, b: a == b or flow.known_eq(st, a, b) is True
        arg = lambda i: ('arg', P[i]['n'])
        ptr = lambda i: ('ptr', P[i]['n'])
        n0 = ('n', 'this')
        heap, size, cap = rd(THIS, 'heap'), rd(THIS, 'bufferSize'), rd(THIS, 'bufferCapacity')

        def cont(want, o=THIS, what='contents'):
            """want: segments (offset, source, length); segments of length 0 count as absent"""
            rule.ob += 1
            got = [g for g in rule.content(st, rd(o, 'heap')) if flow.known_eq(st, g[2], ZERO) is not True]
            want = [w for w in want if flow.known_eq(st, w[2], ZERO) is not True]
            ok = len(got) >= len(want)
            for w, g in zip(want, got):
                ok = ok and eqv(w[0], g[0]) and w[1] == g[1] and (eqv(w[2], g[2]) or flow.known_le(st, w[2], g[2]) is True)
            if len(got) > len(want):
                # extra bytes after the wanted ones are allowed only behind the size
                ok = ok and all(flow.known_le(st, rd(o, 'bufferSize'), g[0]) is True for g in got[len(want):])
            if not ok:
                bad('%s are not what the operation specifies' % what)

        def sz(want, o=THIS):
            rule.ob += 1
            if not eqv(rd(o, 'bufferSize'), want):
                bad('size after the operation is %s instead of %s' % (flow.show(rd(o, 'bufferSize')), flow.show(want)))

        mine = (ZERO, ('C', 'this'), n0)
        if kind == 'throw':
            # nothing may have been lost
            if not ctor and name not in ('operator=', 'assign'):
                sz(n0)
                cont([mine])
            if name == 'at':
                if flow.known_lt(st, arg(0), n0) is not False:
                    bad('a valid index is rejected')
            return
        lockd = not ctor and c[2]
        if lockd and name in ('reserve', 'resize', 'append', 'assign', 'push_back', 'operator=', 'clear', 'pop_back', 'null_terminate'):
            rule.ob += 1
            was = ('blk', 'this') if c[0] else ('addr', F(THIS, 'buffer'))
            if heap != was:
                bad('a locked buffer changes its storage')
            if not alias and flow.truth(st, rd(THIS, 'locked')) is not True:
                bad('a locked buffer loses its lock')
        if ctor or name == 'operator=':
            if alias:
                t = P[0]['t']
                if not t.endswith('&&'):
                    sz(n0)
                    cont([mine])
                return
            if so is not None:
                mv = P[0]['t'].endswith('&&')
                failed = rd(THIS, 'errorCondition')
                if failed[0] == 'c' and failed[1]:
                    return
                sz(('n', 'sb'))
                cont([(ZERO, ('C', 'sb'), ('n', 'sb'))])
                if not mv or lockd:
                    sz(('n', 'sb'), so)
                    cont([(ZERO, ('C', 'sb'), ('n', 'sb'))], so, 'contents of the source')
                else:
                    sz(ZERO, so)
                    rule.ob += 1
                    if flow.truth(st, rd(so, 'usingAllocatedBuffer')) is not False:
                        bad('a moved-from buffer keeps its storage')
                if mv and not ctor and not lockd and flow.truth(st, rd(THIS, 'locked')) != bool(s[2]):
                    bad('move assignment does not carry the lock status')
                if mv and s[0] and not lockd:
                    rule.ob += 1
                    if flow.truth(st, rd(THIS, 'nonOwning')) != bool(s[1]):
                        bad('moving changes whether the storage is owned')
                return
            if len(P) == 0:
                sz(ZERO)
            elif len(P) == 1 and P[0]['t'].startswith('unsigned'):
                sz(arg(0))
            elif len(P) == 1:
                v = self.text(size)
                if v is None and flow.known_eq(st, size, ZERO) is not True:
                    bad('size is not the length of the text')
                elif v is not None:
                    if heap[0] == 'blk' or heap[0] in ('addr', 'new'):
                        c2 = rule.content(st, heap)
                        # text that already lies at the start of the storage
                        same = any(k[0] == 'eq' and vv and heap in k and 'text' in repr(k) for k, vv in st.facts.items())
                        if not same and not flow.known_eq(st, size, ZERO):
                            cont([(ZERO, ('C', ('ptr', ('p', 'text', v))), size)])
            elif P[0]['t'].endswith('*'):
                sz(arg(1))
                cont([(ZERO, ('C', ptr(0)), arg(1))])
            else:
                sz(arg(0))
                rule.ob += 1
                cs = [g for g in rule.content(st, heap) if g[1][0] == 'fill']
                if not flow.known_eq(st, arg(0), ZERO) and (len(cs) != 1 or not eqv(cs[0][2], arg(0)) or 'val' not in repr(cs[0][1]) and P[1]['n'] not in repr(cs[0][1])):
                    bad('the buffer is not filled with the given value')
            return
        if name in ('assign', 'append'):
            base = ptr(0) if P[0]['t'].endswith('*') else None
            if len(P) == 1:
                v = ('arg', P[0]['n'])
                src, ln = ('ptr', ('p', 'text', v)), ('p', 'textlen', v)
            elif P[1]['t'].endswith('*'):
                src, ln = ptr(0), ('op', '-', ptr(1), ptr(0))
                rule.ob += 1
                if flow.known_lt(st, ptr(1), ptr(0)) is not False:
                    bad('an inverted range is accepted')
            else:
                src, ln = ptr(0), arg(1)
            if name == 'assign':
                sz(ln)
                cont([(ZERO, ('C', src), ln)])
            else:
                sz(plus(n0, ln))
                cont([mine, (n0, ('C', src), ln)])
            return
        if name == 'push_back':
            sz(plus(n0, C(1)))
            rule.ob += 1
            got = rule.content(st, heap)
            if not (len(got) == 2 and eqv(got[0][2], n0) and got[0][1] == ('C', 'this') and eqv(got[1][0], n0) and eqv(got[1][2], C(1)) and P[0]['n'] in repr(got[1][1])
                    or len(got) == 1 and P[0]['n'] in repr(got[0][1])):
                # a direct store through the data pointer is recorded as an element write
                e = [v for k, v in st.env.items() if k[0] == 'i' and k[2] == n0 and flow_ptr(k[1]) == heap]
                if not e or P[0]['n'] not in repr(e):
                    bad('contents are not what the operation specifies')
            return
        if name == 'pop_back':
            if flow.known_eq(st, n0, ZERO) is True:
                sz(ZERO)
            elif flow.known_eq(st, n0, ZERO) is False or flow.known_lt(st, ZERO, n0):
                sz(('op', '-', n0, C(1)))
            else:
                bad('an empty buffer is not told apart')
            cont([mine])
            return
        if name == 'clear':
            sz(ZERO)
            return
        if name == 'null_terminate':
            rule.ob += 1
            el = [st.env[k] for k in st.env if k[0] == 'i' and k[2] == n0]
            via = [g for g in rule.content(st, heap) if eqv(g[0], n0)]
            if size != n0 and not (size[0] == 'op' and flow.show(size) == '((n(this)+1)-1)') and size != ('op', '-', ('op', '+', n0, C(1)), C(1)) and not eqv(size, n0):
                bad('size changes')
            if not el and not via:
                bad('no terminator is written behind the data')
            return
        if name == 'resize':
            sz(arg(0))
            if len(P) == 1:
                cont([mine]) if flow.known_le(st, n0, arg(0)) else self.shrunk(rule, st, rd, bad)
            else:
                grow = flow.known_lt(st, n0, arg(0))
                if grow is True:
                    rule.ob += 1
                    got = rule.content(st, heap)
                    fl = [g for g in got if g[1][0] == 'fill']
                    f0 = len(got) >= 2 and got[0][1] == ('C', 'this') and eqv(got[0][2], n0)
                    if not fl or not eqv(fl[0][0], n0) or fl[0][2] not in (('op', '-', arg(0), n0),) or P[1]['n'] not in repr(fl[0][1]) or not f0:
                        bad('new bytes are not filled with the given value')
                elif grow is None:
                    bad('growth is not told apart')
            return
        if name == 'reserve':
            sz(n0)
            cont([mine])
            rule.ob += 1
            if flow.known_le(st, arg(0), cap) is not True:
                bad('the reserved capacity is not available afterwards')
            return
        if name == 'swap':
            if alias:
                sz(n0)
                return
            sz(('n', 'sb'))
            sz(n0, so)
            cont([(ZERO, ('C', 'sb'), ('n', 'sb'))])
            cont([mine], so, 'contents of the other buffer')
            return
        if name in ('moveAssign', 'spanAssign'):
            rule.ob += 3
            if heap != ('blk', 'given'):
                if not (c[0] and flow.known_eq(st, ('blk', 'given'), heap)):
                    bad('the given storage is not used')
            sz(arg(1))
            if not eqv(cap, arg(2)):
                bad('the given capacity is not recorded')
            no = flow.truth(st, rd(THIS, 'nonOwning'))
            if no is not (name == 'spanAssign'):
                bad('ownership of the given storage is wrong')
            return
        if name == 'release':
            rule.ob += 1
            if c[0]:
                if ret != ('blk', 'this'):
                    bad('the storage is not handed out')
            elif flow.known_eq(st, ret, ZERO) is not True:
                bad('inline storage is handed out')
            sz(ZERO) if c[0] else None
            return
        if name == 'at':
            if flow.known_lt(st, arg(0), n0) is not True:
                bad('an index is used without being checked against the size')
            self.ret_elem(rule, st, ret, heap, arg(0), bad)
            return
        if name == 'operator[]':
            self.ret_elem(rule, st, ret, heap, arg(0), bad)
            return
        if name == 'lock':
            rule.ob += 1
            if not eqv(rd(THIS, 'locked'), arg(0)):
                bad('the lock status is not stored')
            return
        want = {'data': heap, 'begin': heap, 'char_data': heap, 'end': plus(heap, n0), 'size': n0, 'capacity': cap, 'isLocked': C(c[2] if c else 0)}.get(name)
        if want is not None:
            rule.ob += 1
            if ret is None or not (eqv(ret, want) or split(ret) == split(want)):
                bad('returns %s instead of %s' % (flow.show(ret), flow.show(want)))
        elif name == 'empty':
            rule.ob += 1
            s1, s2 = st.copy(), st.copy()
            if flow.assume(s1, ret, True) and flow.known_eq(s1, n0, ZERO) is not True or flow.assume(s2, ret, False) and flow.known_eq(s2, n0, ZERO) is not False:
                bad('emptiness is not size zero')
        elif name == 'to_string':
            rule.ob += 1
            if not (ret and ret[0] == 'k' and len(ret[2]) == 2 and ret[2][0] == heap and eqv(ret[2][1], n0)):
                bad('the view does not cover exactly the data')
        if fn.d.get('const'):
            cont([mine])
            sz(n0)

    def shrunk(self, rule, st, rd, bad):
        got = rule.content(st, rd(THIS, 'heap'))
        if got[0][1] != ('C', 'this') or len(got) != 1:
            bad('contents are not what the operation specifies')

    def ret_elem(self, rule, st, ret, heap, idx, bad):
        rule.ob += 1
        if ret is None:
            bad('nothing is returned')
            return
        l = ret[1] if ret[0] in ('L', 'l') else None
        if l is None or l[0] != 'i' or l[2] != idx or flow_ptr(l[1]) != heap:
            bad('does not refer to the indexed element')

    def text(self, size):
        if size[0] == 'p' and size[1] == 'textlen':
            return size[2]
        return None

    def equality(self):
        """== compares the views of both operands, != is its negation"""
        for op in ('operator==', 'operator!='):
            for f in self.p.funcs.values():
                if f.short == op and len(f.params) == 2 and all('SmallBuffer' in p['t'] for p in f.params):
                    rule = R(self)
                    rule.where = op
                    rule.objs = {}
                    eng = flow.Engine(self.p, rule)
                    self.entries += 1
                    for st, kind, ret in eng.analyse(f):
                        self.exits += 1
                        self.obl += 1
                        r = ret
                        neg = False
                        while r[0] == 'not':
                            neg, r = not neg, r[1]
                        fid = (f.line,)
                        a, b = [self.view(eng, st, ('v', p['d'], fid)) for p in f.params]
                        ok = r[0] == 'rel' and r[1] == 'eq' and neg == (op == 'operator!=') and {r[2], r[3]} == {a, b}
                        if not ok:
                            self.res.add('C01|%s' % op, '%s: %s does not compare the whole contents of both buffers' % (f.loc(), op))

    def view(self, eng, st, o):
        return ('k', 'std::basic_string_view', (eng.read(st, F(o, 'heap')), eng.read(st, F(o, 'bufferSize'))))


def inv_same(rule, eng, st, fr, fn, kind, bad):
    heap = eng.read(st, F(THIS, 'heap'))
    if st.env.get(('freed', heap)):
        bad('the data pointer refers to released storage')
