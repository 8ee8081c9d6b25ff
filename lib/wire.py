"""Byte layout of messages: what the serializer puts where, what the loader takes from where, and that neither leaves the buffer.

The functions are interpreted over their CFGs with linear forms for offsets (relations between the cursor and the running sizes
are kept at loop heads).  A store or copy into the buffer is a token (offset, width, source); a load is the value ('rd', offset,
width).  Header tokens have constant offsets; everything behind them has to be gapless, tracked by a ghost cursor."""
import re
import fx, flow, cont, spec, lin
from flow import C, ZERO, THIS

AM = 'helics::ActionMessage'
CUR = ('cur',)
WID = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'std::byte': 1, 'int8_t': 1, 'uint8_t': 1, 'short': 2, 'unsigned short': 2, 'int16_t': 2, 'uint16_t': 2,
       'int': 4, 'unsigned int': 4, 'int32_t': 4, 'uint32_t': 4, 'long': 8, 'unsigned long': 8, 'int64_t': 8, 'uint64_t': 8, 'std::size_t': 8, 'bool': 1}


def width(t, prog):
    t = t.replace('const ', '').strip().rstrip('&').strip()
    t = {'std::uint8_t': 'uint8_t', 'std::uint32_t': 'uint32_t', 'std::int32_t': 'int32_t', 'std::uint16_t': 'uint16_t'}.get(t, t)
    if t in WID:
        return WID[t]
    if 'action_t' in t:
        return 4
    return None


def F(name, base=THIS):
    return ('f', base, AM + '::' + name)


def member(loc):
    """top-level message member a location belongs to"""
    while loc[0] == 'f':
        if loc[2].startswith(AM + '::'):
            return loc[2].split('::')[-1]
        loc = loc[1]
    return None


def mentions(t, p):
    """p occurs in t outside the labels of loop sums"""
    if t == p:
        return True
    return isinstance(t, tuple) and not (t and t[0] == 'lp') and any(mentions(x, p) for x in t)


def rename(t, p, q):
    if t == p:
        return q
    if isinstance(t, tuple) and not (t and t[0] == 'lp'):
        return tuple(rename(x, p, q) for x in t)
    return t


class Mem(cont.Contract):
    """base: parameter holding the buffer, cap: term for its size, header: bytes in front of the gapless part"""
    affine = True
    cap = 200
    depth = 3
    eh = False
    gapless = True
    keyfact = flow.Rule.keyfact

    def __init__(self, prog, fn, buf, cap, header, writer, pre=None):
        super().__init__()
        self.prog = prog
        self.fn = fn
        self.fid = (fn.line,)
        self.buf = ('l', ('v', fn.params[buf]['d'], self.fid))
        self.capt = ('l', ('v', fn.params[cap]['d'], self.fid))
        self.header = header
        self.writer = writer
        self.mem = []          # memory failures
        self.bad = []
        self.access = 0
        self.results = []
        self.loops = []
        self.iterations = []
        self.pre = pre

    # rs: header tokens, sequence of later tokens, tokens of the running iteration, loop
    def init(self):
        return (frozenset(), (), (), None)

    def counters(self, fn):
        return cont.Contract.counters(self, fn) if self.writer else {}

    def it_begin(self, *a):
        pass

    def it_next(self, *a):
        pass

    def it_done(self, *a):
        pass

    def eff(self, eng, st, e):
        pass

    def mutate(self, eng, st, fr, i, c, op, vals):
        if c == F('stringData'):
            if op in ('resize', 'clear'):
                st.env[('sd',)] = vals[0] if vals else ZERO
            elif op == 'pop_back':
                st.env[('pop',)] = C(1)
            elif op not in ('reserve', 'push_back', 'emplace_back', 'index', 'back', 'shrink_to_fit'):
                st.env[('sd',)] = ('s', op)
            st._k = None

    def opaque(self, eng, fn):
        return fn.short in ('depacketize', 'from_json_string', 'fromByteArray', 'isLittleEndian') or 'swap_bytes' in fn.n or (fn.cls or '') == 'helics::SmallBuffer'

    def offset(self, p):
        f, k = lin.form(p)
        if f.get(self.buf) != 1:
            return None
        f = dict(f)
        del f[self.buf]
        return f, k

    def inb(self, eng, st, fr, i, off, w):
        """off + w <= capacity"""
        self.access += 1
        f, k = lin.sub(self.capt, ('op', '+', lin.term(*off), w))
        if not lin.prove_ge0(f, k, lin.ineqs(st)):
            m = '%s: %s bytes at offset %s %s without room in the buffer being established' % (fr.fn.loc(i), flow.show(w), flow.show(lin.term(*off)), 'written' if self.writer else 'read')
            if m not in self.mem:
                self.mem.append(m)

    def token(self, eng, st, fr, i, off, w, val, memo=False):
        """record an access; returns False when it was already recorded"""
        f, k = off
        if not f and k < self.header:
            h, seq, it, lp = st.rs
            st.rs = (h | {(k, w[1] if w[0] == 'c' else w, val)}, seq, it, lp)
            st._k = None
            return
        o = lin.term(*off)
        if memo:
            if st.env.get(('got', o)) is not None:
                return
        cur = st.env.get(CUR, C(self.header))
        if not self.gapless:
            cur = o
        if not lin.same(cur, o):
            self.fail(fr, i, 'data at offset %s is not where the preceding data ends (%s)' % (flow.show(o), flow.show(cur)))
        st.env[CUR] = lin.term(*lin.form(('op', '+', o, w)))
        if memo:
            st.env[('got', o)] = C(1)
        h, seq, it, lp = st.rs
        if lp is None:
            st.rs = (h, seq + ((w, val),), it, lp)
        else:
            st.rs = (h, seq, it + ((w, val),), lp)
        st._k = None

    def on_loop(self, eng, st, fr, head, again):
        h, seq, it, lp = st.rs
        if (fr.fn.u != self.fn.u and not fr.fn.u) or not self.mine(fr, head):
            return True
        for k in [k for k in st.env if k[0] == 'got']:
            del st.env[k]
        if CUR not in st.env:
            st.env[CUR] = C(self.header)
        if again:
            self.iters += 1
            # what was read in this iteration becomes what was read in the previous one
            for j, (w, v) in enumerate(it):
                while v[0] == 'into':
                    v = v[1]
                if v[0] != 'rd':
                    continue
                past = ('past', (fr.id, head), C(j))
                self.age(st, v, past)
                it = rename(it, v, past)
            for k in [k for k in st.env if k[0] == 'i']:
                del st.env[k]
            it = (it, byte_order(self.prog, self.fn, st))
            if it not in self.iterations:
                self.iterations.append(it)
            st.rs = (h, seq, (), lp)
        elif lp is None or lp != (fr.id, head):
            for k in [k for k in st.env if k[0] == 'i']:
                del st.env[k]
            st.rs = (h, seq + it + (('loop',),), (), (fr.id, head))
        st._k = None
        return True

    def mine(self, fr, head):
        """loops that touch the buffer: those of the analysed function and of helpers outside std"""
        return True

    # ---- the element of an iteration becomes the previous element
    def drop(self, eng, st, pat):
        if pat[0] != 'd' or pat[1][0] != 'it':
            return super().drop(eng, st, pat)
        past = ('d', ('past', pat[1][1]))
        st._k = None
        for k in [k for k in st.env if flow.contains(k, pat)]:
            del st.env[k]
        self.age(st, pat, past)

    def age(self, st, pat, past):
        for k, v in list(st.env.items()):
            if mentions(v, past):
                st.env[k] = ('m', ('h', ('gone', k), ZERO)) if k[0] == 'ref' else ('h', ('gone', k), ZERO)
            elif mentions(v, pat):
                st.env[k] = rename(v, pat, past)
        for k in list(st.facts):
            if mentions(k, past):
                del st.facts[k]
            elif mentions(k, pat):
                v = st.facts.pop(k)
                st.facts[rename(k, pat, past)] = v

    # ---- accesses
    def on_load(self, eng, st, fr, i, loc):
        p = eng_ptr(loc, fr, i, self.prog)
        if p is None:
            return None
        off = self.offset(p)
        if off is None or self.writer:
            return None
        w = width(fr.fn.nodes[i].get('t', ''), self.prog)
        if w is None:
            return None
        self.inb(eng, st, fr, i, off, C(w))
        o = lin.term(*off)
        v = ('rd', o, C(w))
        if not (not off[0] and off[1] < self.header):
            self.token(eng, st, fr, i, off, C(w), v, memo=True)
        return v

    def on_assign(self, eng, st, fr, i, loc, val):
        if loc[0] not in ('d', 'i'):
            return
        n = fr.fn.nodes[i]
        t = fr.fn.nodes[n['c'][0]].get('t', '') if n.get('c') else ''
        p = eng_ptr(loc, fr, n['c'][0] if n.get('c') else i, self.prog)
        if p is None:
            return
        off = self.offset(p)
        if off is None:
            return
        w = width(t, self.prog)
        if w is None:
            self.fail(fr, i, 'store of unknown width')
            return
        if not self.writer:
            self.fail(fr, i, 'the loader changes the data it reads')
            return
        self.inb(eng, st, fr, i, off, C(w))
        self.token(eng, st, fr, i, off, C(w), val)

    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        short = name.split('::')[-1].split('<')[0]
        if short in ('memcpy', '__builtin_memcpy', 'memmove') and len(args) == 3:
            d, s, w = (eng.ev(st, fr, a) for a in args)
            do, so = self.offset(d), self.offset(s)
            if do is not None and self.writer:
                self.inb(eng, st, fr, i, do, w)
                src = eng.read(st, s[1]) if s[0] == 'addr' else ('bytes', s)
                self.token(eng, st, fr, i, do, w, src)
                return [(st, d)]
            if so is not None and not self.writer:
                self.inb(eng, st, fr, i, so, w)
                v = ('rd', lin.term(*so), w)
                if not (not so[0] and so[1] < self.header):
                    self.token(eng, st, fr, i, so, w, v, memo=True)
                if d[0] == 'addr':
                    eng.write(st, self.canon(d[1]), v)
                else:
                    self.fail(fr, i, 'bytes are copied to an unknown place')
                return [(st, d)]
            return None
        if 'swap_bytes' in short or short in ('byteswap_inplace',):
            m = re.search(r'<(\d+)', name) or re.search(r'#V\w?(\d+)', n.get('fu', ''))
            p = eng.ev(st, fr, args[0])
            if p[0] == 'addr' and m:
                l = self.canon(p[1])
                old = eng.read(st, l)
                k = int(m.group(1))
                if old[0] == 'swap':
                    self.fail(fr, i, 'a value is converted twice')
                eng.write(st, l, ('swap', C(k), old))
                return [(st, ZERO)]
            return None
        if name.startswith('__builtin_bswap') and len(args) == 1:
            k = int(re.sub(r'\D', '', name)) // 8
            return [(st, ('swap', C(k), eng.ev(st, fr, args[0])))]
        if short == 'getBaseTimeCode' and obj is not None:
            v = eng.read(st, self.objloc(eng, st, fr, obj))
            return [(st, v[1] if v[0] == 'tc' else ('p', 'code', v))]
        if short == 'setBaseTimeCode' and obj is not None:
            eng.write(st, self.objloc(eng, st, fr, obj), ('tc', eng.ev(st, fr, args[0])))
            return [(st, ZERO)]
        if short == 'to_integer' and args:
            return [(st, eng.ev(st, fr, args[0]))]
        if n.get('cls') == 'helics::SmallBuffer' and obj is not None and obj >= 0:
            l = self.objloc(eng, st, fr, obj)
            return self.buffer(eng, st, fr, i, short, l, args)
        if cont.STRS.match(n.get('cls', '')) and obj is not None and obj >= 0:
            l = self.objloc(eng, st, fr, obj)
            if short in ('data', 'c_str'):
                return [(st, ('p', 'data', eng.read(st, l)))]
            if short == 'assign' and len(args) == 2 and not self.writer:
                return self.take(eng, st, fr, i, l, args)
            if n['k'] == 'CXXConstructExpr':
                return None
        if cont.STRS.match(n.get('cls', '')) and n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '=' and not self.writer:
            v = eng.ev(st, fr, args[0])
            l = self.objloc(eng, st, fr, obj)
            h, seq, it, lp = st.rs
            if it and it[-1][1] == v:
                st.rs = (h, seq, it[:-1] + ((it[-1][0], ('into', v, l)),), lp)
            eng.write(st, l, v)
            return [(st, ('L', l))]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and cont.STRS.match(n.get('cls', '')) and len([a for a in args if a >= 0]) >= 2 and not self.writer:
            p, w = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
            so = self.offset(p)
            if so is not None:
                self.inb(eng, st, fr, i, so, w)
                v = ('rd', lin.term(*so), w)
                self.token(eng, st, fr, i, so, w, v, memo=True)
                return [(st, v)]
        if short in ('emplace_back', 'push_back') and len(args) == 2 and not self.writer:
            p, w = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
            so = self.offset(p)
            if so is not None:
                self.inb(eng, st, fr, i, so, w)
                self.token(eng, st, fr, i, so, w, ('into', ('rd', lin.term(*so), w), ('next',)))
                return [(st, ZERO)]
        if short in ('depacketize', 'fromByteArray') and args:
            p, w = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
            so = self.offset(p)
            if so is None:
                return None
            self.inb(eng, st, fr, i, so, w)
            v = ('sub', lin.term(*so), lin.term(*lin.form(w)))
            s2 = st.copy()
            flow.assume_eq(st, v, ZERO, True)
            flow.assume_eq(s2, v, ZERO, False)
            flow.assume_lt(s2, ZERO, v, True)
            return [(st, ZERO), (s2, v)]
        if short == 'from_json_string':
            return [(st, ('sub', 'json'))]
        return None

    def canon(self, l):
        """the scalar inside an identifier stands for the identifier"""
        while l[0] == 'f' and l[2].split('::')[-1] in ('gid', 'hid', 'fid', 'rid'):
            l = l[1]
        return l

    def take(self, eng, st, fr, i, l, args):
        p, w = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
        so = self.offset(p)
        if so is None:
            return None
        self.inb(eng, st, fr, i, so, w)
        v = ('rd', lin.term(*so), w)
        self.token(eng, st, fr, i, so, w, ('into', v, l))
        eng.write(st, l, v)
        return [(st, ('L', l))]

    def buffer(self, eng, st, fr, i, short, l, args):
        if short == 'size':
            return [(st, ('p', '#', eng.read(st, l)))]
        if short == 'empty':
            return [(st, flow.rel_term('==', ('p', '#', eng.read(st, l)), ZERO))]
        if short == 'data':
            return [(st, ('p', 'data', eng.read(st, l)))]
        if short == 'assign' and len(args) == 2 and not self.writer:
            return self.take(eng, st, fr, i, l, args)
        if short in ('clear',) or short == 'resize' and eng.ev(st, fr, args[0]) == ZERO:
            eng.write(st, l, ('none',))
            return [(st, ZERO)]
        if short == 'append':
            eng.write(st, l, ('cat', eng.read(st, l), tuple(eng.ev(st, fr, a) for a in args)))
            return [(st, ZERO)]
        if short == 'reserve':
            return [(st, ZERO)]
        return None

    def start(self):
        return ZERO

    def on_exit(self, eng, st, fr, kind, ret):
        if kind == 'return':
            self.exits += 1
            self.results.append((eng, st, ret))


def eng_ptr(loc, fr, i, prog):
    """pointer value of a dereferenced or subscripted location"""
    if loc[0] == 'd':
        return loc[1]
    if loc[0] == 'i' and loc[1][0] == 'd':
        w = width(fr.fn.nodes[i].get('t', ''), prog)
        if w is None:
            return None
        x = loc[2] if w == 1 else ('op', '*', loc[2], C(w))
        return ('op', '+', loc[1][1], x)
    return None


# ---------------------------------------------------------------- comparison of layouts
SCALARS = None


def bits(t, n, sym, depth=0):
    """the n low bits of an integer term over the bits of sym; None when it is something else"""
    if t == sym:
        return [('b', k) for k in range(n)]
    if t[0] == 'c' and isinstance(t[1], int):
        return [(t[1] >> k) & 1 for k in range(n)]
    if t[0] == 'cast':
        return bits(t[-1], n, sym)
    if t[0] == 'op' and len(t) == 4:
        op = t[1]
        if op in ('>>', '<<', '/', '*', '%') and t[3][0] == 'c':
            k = t[3][1]
            if op in ('/', '*', '%'):
                if k <= 0 or k & (k - 1):
                    return None
                k = k.bit_length() - 1
            if op == '%':
                a = bits(t[2], n, sym)
                return a and [x if j < k else 0 for j, x in enumerate(a)]
            a = bits(t[2], n + k, sym)
            if a is None:
                return None
            return a[k:k + n] if op in ('>>', '/') else ([0] * k + a)[:n]
        if op in ('&', '|'):
            a, b = bits(t[2], n, sym), bits(t[3], n, sym)
            if a is None or b is None:
                return None
            out = []
            for x, y in zip(a, b):
                if op == '&':
                    out.append(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else None)
                else:
                    out.append(1 if 1 in (x, y) else y if x == 0 else x if y == 0 else x if x == y else None)
            return None if None in out else out
    return None


def source(val):
    """the member a stored value is, or None"""
    if val[0] == 'p' and val[1] == 'code':
        val = val[2]
    if val[0] == 'l':
        m = member(val[1])
        l = val[1]
        while l[0] == 'f' and l[2].split('::')[-1] in ('gid', 'hid', 'fid', 'rid'):
            l = l[1]
        if m and l == F(m):
            return m
    return None


def endian_source(prog, fn, val):
    """the stored byte says which byte order this machine has"""
    if val[0] == 'l' and val[1][0] in ('v', 'g'):
        d = val[1][1]
        for g in [fn] + [g for g in prog.funcs.values() if g.file == fn.file and g is not fn]:
            for n in g.nodes:
                for v in n.get('vars', ()):
                    if v.get('d') == d and v.get('init', -1) is not None and v.get('init', -1) >= 0:
                        return calls_endian(g, v['init'])
    return val[0] == 'call' and 'isLittleEndian' in repr(val)


def calls_endian(fn, i):
    n = fn.nodes[i]
    if 'isLittleEndian' in str(n.get('fn', '')):
        return True
    return any(calls_endian(fn, c) for c in list(n.get('c', ())) + list(n.get('args', ())) if c >= 0)


def byte_order(prog, fn, st):
    """the comparison of byte orders passed on the way: same, other, or not decided"""
    first = ('rd', ZERO, C(1))
    for (k, v) in st.facts.items():
        if k[0] == 'eq' and first in k[1:]:
            if endian_source(prog, fn, k[2] if k[1] == first else k[1]):
                return v
    return None


def exitsub(st, t):
    """counters of loops that ran to their bound stand for the bound"""
    for (k, v) in st.facts.items():
        if k[0] == 'lt' and v is False and k[1][0] == 'lp' and k[1][2] == ():
            t = rename2(t, k[1], k[2])
        elif k[0] == 'eq' and v:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == 'lp' and a[2] == ():
                    t = rename2(t, a, b)
    return t


def rename2(t, p, q):
    if t == p:
        return q
    if isinstance(t, tuple) and t and t[0] in ('op',):
        return tuple(rename2(x, p, q) if isinstance(x, tuple) else x for x in t)
    return t


CMD_FIELD = F('messageAction')
TIMES = ('Te', 'Tdemin', 'Tso')


def request(prog, st, action):
    """is this state about a time request: True, False, None"""
    v = [x[1] for x in prog.enum('helics::action_message_def::action_t')['e'] if x[0] == 'cmd_time_request']
    if not v:
        raise fx.Broken('anchor vanished: cmd_time_request')
    return flow.known_eq(st, action, C(v[0]))


def scalars(prog):
    return [f['n'] for f in prog.record(AM)['fields'] if f['n'] not in ('payload', 'stringData') + TIMES]


class Layout:
    """what the serializer writes: member -> (offset, width)"""

    def __init__(self, prog, res, pid):
        self.prog, self.res, self.pid = prog, res, pid
        fn = self.fn = prog.fn(AM + '::toByteArray')
        self.rule = r = Mem(prog, fn, 0, 1, 44, True)
        flow.Engine(prog, r).analyse(fn)
        self.at = {}
        self.count0 = None

    def fail(self, m):
        self.res.add('toByteArray|' + m, '%s: %s' % (self.fn.loc(0), m))

    def run(self):
        r, prog = self.rule, self.prog
        payload = ('l', F('payload'))
        psize = ('p', '#', payload)
        nstr = ('p', '#', ('l', F('stringData')))
        for m in r.bad:
            self.fail(m)
        sc = scalars(prog)
        ok = 0
        for eng, st, ret in r.results:
            head, seq, it, lp = st.rs
            if ret == C(-1):
                continue
            ok += 1
            req = request(prog, st, ('l', CMD_FIELD))
            if req is None:
                self.fail('a message is written without deciding whether it is a time request')
                continue
            # header
            covered, size, got = {}, {}, set()
            for off, w, val in sorted(head, key=repr):
                for b in range(off, off + (w if isinstance(w, int) else 0)):
                    if b in covered:
                        self.fail('byte %d of the header is written twice' % b)
                    covered[b] = val
                m = source(val)
                if m:
                    if self.at.setdefault(m, (off, w)) != (off, w):
                        self.fail('%s is written at offset %s in one case and %s in another' % (m, off, self.at[m]))
                    if m in got:
                        self.fail('%s is written twice' % m)
                    got.add(m)
                    fw = FW.get(m)
                    if fw and w != fw:
                        self.fail('%s is written with %s of %s bytes' % (m, w, fw))
                elif off in (1, 2, 3) and w == 1:
                    size[off] = val
                elif off == 0 and w == 1:
                    if not endian_source(prog, self.fn, val):
                        self.fail('the first byte does not tell the byte order')
                else:
                    self.fail('the %s bytes at offset %s are %s, not a member of the message' % (w, off, flow.show(val)))
            for b in range(44):
                if b not in covered:
                    self.fail('byte %d of the header is not written' % b)
            for m in sc:
                if m not in got:
                    self.fail('%s is not written' % m)
            if len(size) != 3:
                self.fail('the block size is not written into bytes 1 to 3')
            # tail
            tail = list(seq)
            total = st.env.get(CUR, C(44))
            if req:
                for m in TIMES:
                    w, val = tail.pop(0) if tail else (None, ('none',))
                    if w != C(8) or source(val) != m:
                        self.fail('a time request does not continue with %s' % m)
                if tail != [(C(1), ZERO)]:
                    self.fail('a time request does not end with a string count of zero')
                block = ZERO
            else:
                block = ZERO
                if tail and len(tail[0]) == 2 and tail[0][1][0] == 'bytes':
                    block, val = tail.pop(0)
                    if val[1] != ('p', 'data', payload):
                        self.fail('the block behind the header is not the start of the payload')
                big = block[0] == 'c' and block[1] != 0
                if not big and not lin.same(block, psize) and not zero(st, psize):
                    self.fail('the payload is written with another length than its size')
                w, val = tail.pop(0) if tail and len(tail[0]) == 2 else (None, ZERO)
                f, k = lin.form(val)
                if w != C(1) or f != {nstr: 1} and not (zero(st, nstr) and not f):
                    self.fail('the number of strings does not follow the payload')
                    continue
                if zero(st, nstr) and not f:
                    pass
                if (k == 1) != big or k not in (0, 1):
                    self.fail('the number of strings written is off by %d' % (k - (1 if big else 0)))
                if tail and tail[0] == ('loop',):
                    tail.pop(0)
                elif not zero(st, nstr):
                    self.fail('the strings are not written')
                if big:
                    if block[1] != 0xFFFFFF:
                        self.fail('payloads are split at %d bytes, not at the largest size the header can hold' % block[1])
                    rest = lin.term(*lin.sub(psize, block))
                    tt = [x for x in list(tail) + list(it)]
                    if len(tt) != 2 or tt[0][0] != C(4) or not lin.same(tt[0][1], rest) or not lin.same(tt[1][0], rest) or \
                            tt[1][1][0] != 'bytes' or not lin.same(tt[1][1][1], ('op', '+', ('p', 'data', payload), block)):
                        self.fail('the rest of a payload that is too long is not written as the last string')
                    self.split = block[1]
                elif tail or it:
                    self.fail('something is written behind the last string')
            for off, sh in ((1, 16), (2, 8), (3, 0)):
                v = size.get(off)
                if v is None:
                    continue
                want = bits(block, 24, block) if block[0] != 'c' else bits(block, 24, None)
                g = bits(v, 8, block if block[0] != 'c' else None)
                if g != want[sh:sh + 8]:
                    if zero(st, psize) and block == ZERO:
                        g = bits(v, 8, psize)
                        if g is not None and g == [('b', sh + x) for x in range(8)]:
                            continue
                    self.fail('byte %d is not byte %d of the block size' % (off, sh // 8))
            n = lin.term(*lin.sub(ret, r.start()))
            if not lin.same(ret, total) and not lin.same(n, total) and not lin.same(exitsub(st, ret), total):
                self.fail('the number returned is not the number of bytes written')
            self.totals = getattr(self, 'totals', []) + [(st, req, block, total)]
        for it, _ in r.iterations:
            el = None
            if len(it) == 2 and it[0][0] == C(4) and it[0][1][0] == 'p' and it[0][1][1] == '#':
                el = it[0][1][2]
            if el is None or not flow.contains(el, F('stringData')) or it[1] != (('p', '#', el), ('bytes', ('p', 'data', el))):
                self.fail('an iteration over the strings does not write the length and then the text of a string')
        self.res.count('layouts', ok)
        return self


FW = {'messageAction': 4, 'messageID': 4, 'source_id': 4, 'source_handle': 4, 'dest_id': 4, 'dest_handle': 4, 'counter': 2, 'flags': 2, 'sequenceID': 4,
      'actionTime': 8}


def zero(st, t):
    return flow.known_eq(st, t, ZERO) is True or flow.known_lt(st, ZERO, t) is False


class Loading:
    """what the loader takes from the bytes, compared with the layout of the serializer"""

    def __init__(self, prog, res, pid, layout):
        self.prog, self.res, self.pid, self.layout = prog, res, pid, layout
        fn = self.fn = prog.fn(AM + '::fromByteArray')
        self.rule = r = Mem(prog, fn, 0, 1, 44, False)
        flow.Engine(prog, r).analyse(fn)

    def fail(self, m):
        self.res.add('fromByteArray|' + m, '%s: %s' % (self.fn.loc(0), m))

    def run(self):
        r, prog = self.rule, self.prog
        for m in r.bad:
            self.fail(m)
        first = ('rd', ZERO, C(1))
        size = lin.term({('rd', C(1), C(1)): 65536, ('rd', C(2), C(1)): 256, ('rd', C(3), C(1)): 1}, 0)
        ok = 0
        for eng, st, ret in r.results:
            head, seq, it, lp = st.rs
            if ret[0] == 'sub':
                if flow.known_eq(st, first, C(0xF3)) is not True:
                    self.fail('a message is loaded as a packet without the packet mark in front')
                continue
            if ret == ZERO or any(k[0] == 'eq' and v is False and ZERO in k[1:] and st.facts.get(('lt', ZERO, k[2] if k[1] == ZERO else k[1])) is False
                                  for k, v in st.facts.items()):
                continue
            ok += 1
            env = st.env
            same = byte_order(prog, self.fn, st)
            if same is None:
                self.fail('a message is loaded without comparing byte orders')
                continue

            def conv(v, w):
                return v if same or w == 1 else ('swap', C(w), v)
            action = env.get(CMD_FIELD)
            req = request(prog, st, action) if action else None
            if req is None:
                self.fail('a message is loaded without deciding whether it is a time request')
                continue
            at = dict(self.layout.at)
            if req:
                at.update({m: (44 + 8 * i, 8) for i, m in enumerate(TIMES)})
            for m, (off, w) in at.items():
                v = env.get(F(m))
                if v is not None and v[0] == 'tc':
                    v = v[1]
                if v != conv(('rd', C(off), C(w)), w):
                    self.fail('%s is loaded as %s, written as %d bytes at offset %d%s' % (m, flow.show(v) if v else 'unchanged', w, off, '' if same else ' in the other byte order'))
            if not req:
                for m in TIMES:
                    v = env.get(F(m))
                    if v is None or not ('timeZero' in repr(v) or v == ('tc', ZERO)):
                        self.fail('%s keeps a value of an earlier message' % m)
            # payload
            base = 68 if req else 44
            tail = [t for t in seq if len(t) == 2]
            if req and [t[0] for t in tail[:3]] == [C(8)] * 3:
                tail = tail[3:]
            if not tail or tail[0][1][0] != 'into' or tail[0][1][2] != F('payload') or not lin.same(tail[0][0], size) or \
                    not lin.same(tail[0][1][1][1], C(base)):
                self.fail('the payload is not loaded from the block behind the header with the size in the header')
                continue
            tail.pop(0)
            if not tail or tail[0][0] != C(1):
                self.fail('the number of strings is not read behind the payload')
                continue
            count = tail.pop(0)[1]
            if tail:
                self.fail('something is read behind the number of strings')
            # strings
            looped = ('loop',) in seq
            ops = env.get(('sd',), ('none',))
            if not looped and flow.known_eq(st, count, ZERO) is not True:
                self.fail('the strings are not loaded')
            if not looped and not zero(st, ops):
                self.fail('strings of an earlier message remain')
            if looped and ops != count and not (ops == ZERO and all(x[1][1][0] == 'into' and x[1][1][2] == ('next',) for x, _ in r.iterations if len(x) == 2)):
                self.fail('the number of strings is not taken from the message')
            total = env.get(CUR, C(base + 1))
            if not lin.same(exitsub(st, ret), exitsub(st, total)):
                self.fail('the number returned is not the number of bytes used (%s, %s)' % (flow.show(ret), flow.show(total)))
            # split payload
            p = env.get(F('payload'))
            bigs = flow.known_eq(st, C(self.layout.split), size)
            if bigs is None:
                bigs = flow.known_eq(st, lin.term(*lin.form(size)), C(self.layout.split))
            moved = p is not None and p[0] == 'cat'
            popped = env.get(('pop',)) is not None
            if moved != popped:
                self.fail('the rest of a long payload is added without being removed from the strings, or removed without being added')
            if moved and bigs is not True:
                self.fail('a string is added to a payload that was not split')
            if not moved and looped and bigs is not False and env.get(('none',)) is None and not self.nostr(st):
                self.fail('the rest of a payload that was split is not added to it')
        for it, same in r.iterations:
            good = len(it) == 2 and it[0][0] == C(4) and it[1][1][0] == 'into' and same is not None and \
                it[1][0] == (it[0][1] if same else ('swap', C(4), it[0][1])) and it[1][1][1][2] == it[1][0]
            if not good:
                self.fail('an iteration does not load the length and then the text of a string')
                continue
            t = it[1][1][2]
            if t != ('next',) and not (t[0] == 'i' and t[1] == F('stringData') and (t[2] == ZERO or t[2][0] == 'lp' and t[2][2] == ())):
                self.fail('a string is stored at another place than its position')
        self.res.count('loads', ok)
        return self

    def nostr(self, st):
        return any(k[0] == 'eq' and v and 'stringData' in repr(k) for k, v in st.facts.items()) or any('stringData' in repr(k) and k[0] == '=' for k in st.facts)


def untag(f):
    """forms of different functions become comparable"""
    return {rename_tag(a): m for a, m in f.items()}


def rename_tag(t):
    if isinstance(t, tuple):
        if t and t[0] == 'lp':
            return ('lp', rename_tag(t[2]))
        return tuple(rename_tag(x) for x in t)
    return t


class Count(Mem):
    """a function that only computes"""

    def __init__(self, prog, fn):
        cont.Contract.__init__(self)
        self.prog, self.fn, self.fid = prog, fn, (fn.line,)
        self.buf = self.capt = ('none',)
        self.header, self.writer = 0, True
        self.mem, self.bad, self.results, self.loops, self.iterations = [], [], [], [], []
        self.access = 0
        self.pre = None


def byte_count(prog, res, layout):
    fn = prog.fn(AM + '::serializedByteCount')
    r = Count(prog, fn)
    flow.Engine(prog, r).analyse(fn)
    psize = ('p', '#', ('l', F('payload')))

    def norm(st, t):
        f, k = lin.form(t)
        if zero(st, psize):
            f = dict(f)
            f[psize] = 1
        return frozenset(untag(f).items()), k

    def big(st):
        v = flow.known_lt(st, psize, C(layout.split))
        return None if v is None else not v
    a, b = {}, {}
    for st, req, block, total in layout.totals:
        bg = block[0] == 'c' and block[1] != 0
        a.setdefault((req, None if req else bg), set()).add(lin_drop(st, total, psize) if req else norm(st, total))
    for eng, st, ret in r.results:
        req = request(prog, st, ('l', CMD_FIELD))
        bg = None if req else big(st)
        if req is None or (bg is None and not req):
            res.add('serializedByteCount|case', '%s: the size is computed without deciding whether the message is a time request or has a long payload' % fn.loc(0))
            continue
        b.setdefault((req, bg), set()).add(lin_drop(st, ret, psize) if req else norm(st, ret))
    for k in sorted(set(a) | set(b), key=repr):
        if a.get(k) != b.get(k):
            what = 'a time request' if k[0] else 'a message with a payload that is split' if k[1] else 'a message'
            res.add('serializedByteCount|%s' % (k,), '%s: the size computed for %s is not the number of bytes written' % (fn.loc(0), what))
    res.count('sizes compared', len(a))


def lin_drop(st, t, p):
    f, k = lin.form(t)
    return frozenset(untag(f).items()), k


STRB = re.compile(r'std::(basic_string|vector)\b')


class Pack(cont.Contract):
    """assembles a packet in a string"""
    affine = True
    cap = 400
    keyfact = flow.Rule.keyfact

    def __init__(self, prog, fn):
        super().__init__()
        self.prog, self.fn = prog, fn
        self.results, self.bad = [], []

    def init(self):
        return ()

    def it_begin(self, *a):
        pass
    it_next = it_done = mutate = it_begin

    def opaque(self, eng, fn):
        return fn.short in ('serializedByteCount', 'toByteArray', 'to_json_string')

    def fail(self, fr, i, what):
        self.bad.append('%s: %s' % (fr.fn.loc(i), what))

    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        short = name.split('::')[-1]
        if short == 'serializedByteCount':
            return [(st, ('size',))]
        if short == 'to_json_string' and not args:
            return [(st, ('json', '#'))]
        if short == 'toByteArray':
            p, w = eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])
            st.rs = st.rs + (('body', p, w),)
            st._k = None
            return [(st, w)]
        op = n.get('op') if n['k'] == 'CXXOperatorCallExpr' else None
        if not STRB.match(n.get('cls', '')) or obj is None or obj < 0:
            return None
        l = self.objloc(eng, st, fr, obj)
        key = ('len', l)
        ln = st.env.get(key)
        if ln is None:
            v = eng.read(st, l)
            ln = ('json#',) if v == ('json', '#') else ('unknown',)
        if short == 'resize':
            w = eng.ev(st, fr, args[0])
            st.env[key] = w
            st.rs = st.rs + (('len', l, w),)
            st._k = None
            return [(st, ZERO)]
        if short in ('size', 'length'):
            return [(st, ln)]
        if short == 'data' or short == 'begin':
            return [(st, ('addr', ('i', l, ZERO)))]
        if op == '[]' or short in ('at', 'front'):
            return [(st, ('L', ('i', l, eng.ev(st, fr, args[0]) if args else ZERO)))]
        if short in ('push_back',) or op == '+=':
            st.env[key] = ('op', '+', ln, C(1))
            st.rs = st.rs + (('push', l, ln, byte(eng.ev(st, fr, args[0]))),)
            st._k = None
            return [(st, ZERO)]
        if short == 'insert' and len(args) == 3:
            p, k, ch = (eng.ev(st, fr, a) for a in args)
            if p == ('addr', ('i', l, ZERO)) or p == ZERO:
                st.rs = st.rs + (('shift', l, k),)
                if k[0] == 'c':
                    for j in range(k[1]):
                        st.rs = st.rs + (('set', ('i', l, C(j)), ch),)
                st.env[key] = ('op', '+', ln, k)
                st._k = None
                return [(st, ZERO)]
        return None

    def on_assign(self, eng, st, fr, i, loc, val):
        if loc[0] == 'i' and loc[2][0] == 'c':
            st.rs = st.rs + (('set', loc, val),)
            st._k = None

    def on_exit(self, eng, st, fr, kind, ret):
        if kind == 'return':
            self.results.append((eng, st, ret))


def byte(v):
    if v[0] == 'c' and isinstance(v[1], int):
        return C(v[1] & 255)
    return v


def packets(prog, res):
    fns = [(f, 'bytes') for f in prog.fns(AM + '::packetize') if f.params] + [(prog.fn(AM + '::packetize_json'), 'json')]
    if len(fns) != 2:
        raise fx.Broken('anchor vanished: packetize')
    for fn, what in fns:
        r = Pack(prog, fn)
        flow.Engine(prog, r).analyse(fn)

        def fail(m):
            res.add('%s|%s' % (fn.short, m), '%s: %s' % (fn.loc(0), m))
        for m in r.bad:
            fail(m)
        if not r.results:
            fail('no packet is produced')
        for eng, st, ret in r.results:
            keys = [k for k in st.env if k[0] == 'len']
            if what == 'bytes':
                l = ('v', fn.params[0]['d'], (fn.line,))
                keys = [k for k in keys if k[1] == l] or keys
            if len(keys) != 1:
                fail('the packet is not assembled in one string')
                continue
            l = keys[0][1]
            body = [x for x in st.rs if x[0] in ('body', 'shift')]
            sizes = ('size',) if what == 'bytes' else ('json#',)
            if len(body) != 1 or (body[0] != ('body', ('addr', ('i', l, C(4))), sizes) if what == 'bytes' else body[0] != ('shift', l, C(4))):
                fail('the message is not placed four bytes into the packet')
            total = ('op', '+', sizes, C(4))
            pushes = [x for x in st.rs if x[0] == 'push']
            tail = {}
            for x in pushes:
                tail[lin.term(*lin.sub(x[2], total))] = x[3]
            for j in (0, 1):
                v = st.env.get(('i', l, lin.term(*lin.form(('op', '+', total, C(j))))))
                if v is not None:
                    tail[C(j)] = byte(v)
            if tail != {C(0): C(0xFA), C(1): C(0xFC)}:
                fail('the two end marks do not follow the message')
            if not lin.same(st.env[keys[0]], ('op', '+', total, C(2))):
                fail('the packet is not four bytes of header, the message and two bytes of end mark')
            head = [byte(([x[2] for x in st.rs if x[0] == 'set' and x[1] == ('i', l, C(j))] or [('none',)])[-1]) for j in range(4)]
            if head[0] != C(0xF3):
                fail('the packet does not start with its mark')
            for j, sh in ((1, 16), (2, 8), (3, 0)):
                sym = lin.term(*lin.form(total))
                if bits(retotal(head[j], total), 8, ('total',)) != [('b', sh + x) for x in range(8)]:
                    fail('byte %d of the packet is not byte %d of its length' % (j, sh // 8))
        res.count('packets', len(r.results))
    # unpacking
    fn = prog.fn(AM + '::depacketize')
    r = Mem(prog, fn, 0, 1, 4, False)
    r.gapless = False
    flow.Engine(prog, r).analyse(fn)

    def fail(m):
        res.add('depacketize|' + m, '%s: %s' % (fn.loc(0), m))
    ms = {('rd', C(1), C(1)): 65536, ('rd', C(2), C(1)): 256, ('rd', C(3), C(1)): 1}
    good = 0
    for eng, st, ret in r.results:
        if ret == ZERO:
            continue
        good += 1
        if lin.form(ret) != (ms, 2):
            fail('the number returned is not the length of the packet')
        for off, v, w in ((C(0), 0xF3, 'mark in front'), (lin.term(ms, 0), 0xFA, 'first end mark'), (lin.term(ms, 1), 0xFC, 'second end mark')):
            if not any(flow.known_eq(st, ('rd', o, C(1)), C(v)) is True for o in reads(st, off)):
                fail('a packet is accepted without its %s' % w)
        subs = [x for x in loaded(st)]
        if not any(x[0] == 'sub' and len(x) == 3 and x[1] == C(4) and lin.form(x[2]) == (ms, -4) for x in subs):
            fail('the message is not loaded from the inside of the packet')
        if not any(v is not True and k[0] == 'eq' and ZERO in k[1:] and any(p[0] == 'sub' for p in k[1:]) or k[0] == 'lt' and v and k[1] == ZERO and k[2][0] == 'sub'
                   or k[0] == 'truth' and v for k, v in st.facts.items()):
            fail('a packet is accepted whose message could not be loaded')
    if not good:
        fail('no packet is accepted')
    res.count('packets', good)


def retotal(t, total):
    if isinstance(t, tuple) and t and t[0] in ('op', 'size', 'json#') and lin.same(t, total):
        return ('total',)
    if isinstance(t, tuple):
        return tuple(retotal(x, total) for x in t)
    return t


def reads(st, off):
    out = [off]
    for k in st.facts:
        for x in k[1:]:
            if isinstance(x, tuple) and x and x[0] == 'rd' and lin.same(x[1], off):
                out.append(x[1])
    return out


def loaded(st):
    for k in st.facts:
        for x in k[1:]:
            if isinstance(x, tuple) and x and x[0] == 'sub':
                yield x


def buffers(prog, res):
    """messages written into strings and vectors"""
    n = 0
    for nm in ('to_string', 'to_vector'):
        for fn in prog.fns(AM + '::' + nm):
            r = Pack(prog, fn)
            flow.Engine(prog, r).analyse(fn)
            for eng, st, ret in r.results:
                n += 1
                body = [x for x in st.rs if x[0] == 'body']
                js = ret is not None and ret == ('json', '#') or 'json' in repr(ret)
                if js and not body:
                    continue
                lens = [x[2] for x in st.rs if x[0] == 'len'][-1:]
                if len(body) != 1 or body[0][1][0] != 'addr' or body[0][1][1][0] != 'i' or body[0][1][1][2] != ZERO or body[0][2] != ('size',) or lens != [('size',)]:
                    res.add('%s|%d' % (nm, len(fn.params)), '%s: the message is not written to the start of a buffer of its size' % fn.loc(0))
    if n < 4:
        raise fx.Broken('anchor vanished: to_string/to_vector')
    res.count('buffers', n)


JS = 'nlohmann::basic_json'


class Json(cont.Contract):
    eh = True
    cap = 200
    keyfact = flow.Rule.keyfact

    def __init__(self, prog, fn):
        super().__init__()
        self.prog, self.fn = prog, fn
        self.results, self.bad, self.iterations = [], [], []
        self.content, self.strings = {}, set()

    # rs: assignments to json members, effects of the running iteration
    def init(self):
        return ((), ())

    def opaque(self, eng, fn):
        return fn.short == 'setString' or fn.n.startswith(('gmlc::', 'nlohmann::', 'helics::fileops'))

    def it_begin(self, *a):
        pass

    def it_next(self, eng, st, fr, i, c):
        if (c, st.rs[1]) not in self.iterations:
            self.iterations.append((c, st.rs[1]))
        st.rs = (st.rs[0], ())
        st._k = None

    def it_done(self, eng, st, fr, i, c):
        st.env[('ran', c)] = C(1)
        st._k = None

    def mutate(self, eng, st, fr, i, c, op, vals):
        if op == 'resize':
            st.env[('sd',)] = vals[0]
        self.note(st, (op, c) + tuple(vals))

    def note(self, st, e):
        if st.rs[1][-1:] != (e,):
            st.rs = (st.rs[0], (st.rs[1] + (e,))[-6:])
            st._k = None

    def fail(self, fr, i, what):
        self.bad.append('%s: %s' % (fr.fn.loc(i), what))

    def jl(self, eng, st, fr, o):
        l = eng.lv(st, fr, o)
        return l

    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        short = name.split('::')[-1]
        cls = n.get('cls', '')
        if cls.startswith(JS):
            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                a = [x for x in args if x >= 0]
                return [(st, eng.ev(st, fr, a[0]) if a else ('k', 'empty', ()))]
            if obj is None or obj < 0:
                return None
            op = n.get('op') if n['k'] == 'CXXOperatorCallExpr' else None
            l = eng.lv(st, fr, obj)
            if op == '[]' or short in ('at',):
                k = eng.ev(st, fr, args[0])
                if k[0] == 's':
                    return [(st, ('L', ('f', l, 'json:' + k[1])))]
                return [(st, ('L', ('i', l, k)))]
            if op == '=':
                v = eng.ev(st, fr, args[0])
                eng.write(st, l, v)
                if l[0] == 'f' and l[2].startswith('json:'):
                    keep = tuple(x for x in st.rs[0] if x[0] != l[2][5:])
                    st.rs = (keep + ((l[2][5:], v),), st.rs[1])
                    st._k = None
                return [(st, ('L', l))]
            if short in ('push_back', 'emplace_back') or op == '+=':
                self.content.setdefault(eng.read(st, l), set()).add(eng.ev(st, fr, args[0]))
                return [(st, ZERO)]
            if short in ('get',):
                return [(st, ('l', l))]
            if short in ('contains', 'is_string'):
                return [(st, ('p', short, ('l', l), eng.ev(st, fr, args[0]) if args else ZERO))]
            return None
        if name.endswith('json::array') or name.endswith('basic_json<>::array'):
            return [(st, ('k', 'array', (C(i),)))]
        if short in ('base64_encode', 'base64_decode_to_string'):
            v = eng.ev(st, fr, args[0])
            return [(st, ('p', 'b64' if short == 'base64_encode' else 'raw', v))]
        if short == 'getBaseTimeCode' and obj is not None:
            v = eng.read(st, self.objloc(eng, st, fr, obj))
            return [(st, v[1] if v[0] == 'tc' else ('p', 'code', v))]
        if short == 'setBaseTimeCode' and obj is not None:
            eng.write(st, self.objloc(eng, st, fr, obj), ('tc', eng.ev(st, fr, args[0])))
            return [(st, ZERO)]
        if short in ('to_string', 'data') and cls == 'helics::SmallBuffer':
            return [(st, ('p', 'text', eng.read(st, self.objloc(eng, st, fr, obj))))]
        if short == 'data' and cont.STRS.match(cls):
            return [(st, ('p', 'text', eng.read(st, self.objloc(eng, st, fr, obj))))]
        if cls == 'helics::SmallBuffer' and n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '=':
            l = self.objloc(eng, st, fr, obj)
            eng.write(st, l, eng.ev(st, fr, args[0]))
            return [(st, ('L', l))]
        if short == 'size' and cls == 'helics::SmallBuffer':
            return [(st, ('p', '#', eng.read(st, self.objloc(eng, st, fr, obj))))]
        if short == 'loadJsonStr':
            return [(st, ('doc',))]
        if cont.STRS.match(cls) and n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '=':
            l = self.objloc(eng, st, fr, obj)
            v = eng.ev(st, fr, args[0])
            self.note(st, ('set', l, v))
            eng.write(st, l, v)
            return [(st, ('L', l))]
        if short == 'setString':
            self.strings.add((eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])))
            return [(st, ZERO)]
        return None

    def on_exit(self, eng, st, fr, kind, ret):
        if kind == 'return':
            self.results.append((eng, st, ret))


def jkey(v):
    """json key a loaded value comes from"""
    while v[0] in ('tc',) or v[0] == 'k' and len(v[2]) == 1:
        v = v[1] if v[0] == 'tc' else v[2][0]
    if v[0] == 'l' and v[1][0] == 'f' and v[1][2].startswith('json:'):
        return v[1][2][5:]
    return None


def json_text(prog, res):
    fw = prog.fn(AM + '::to_json_string')
    w = Json(prog, fw)
    flow.Engine(prog, w).analyse(fw)
    payload = ('p', 'text', ('l', F('payload')))
    el = ('l', ('d', ('it', F('stringData'))))
    sc = scalars(prog)
    keys = {}

    def fail(m):
        res.add('to_json_string|' + m, '%s: %s' % (fw.loc(0), m))
    n = 0
    for eng, st, ret in w.results:
        d = dict(st.rs[0])
        n += 1
        req = request(prog, st, ('l', CMD_FIELD))
        enc = d.get('encoding') == ('s', 'base64')
        got = set()
        for k, v in d.items():
            m = source(v)
            if m:
                if m in got:
                    fail('%s is written twice' % m)
                got.add(m)
                if keys.setdefault(m, k) != k:
                    fail('%s is written under two names' % m)
        want = set(sc) | (set(TIMES) if req else set())
        for m in sorted(want - got):
            fail('%s is not written' % m)
        if req is None:
            fail('a message is written without deciding whether it is a time request')
        if d.get('payload') != (('p', 'b64', payload) if enc else payload):
            fail('the payload is not written%s' % (' in the announced encoding' if enc else ''))
        nstr = ('p', '#', ('l', F('stringData')))
        if d.get('stringCount') != nstr:
            fail('the number of strings is not written')
        if not zero(st, nstr):
            a = d.get('strings')
            c = w.content.get(a, set())
            ok = {('p', 'b64', ('p', 'text', el)), ('p', 'b64', el)} if enc else {el}
            if a is None or not c or not c <= ok:
                fail('the strings are not written%s' % (' in the announced encoding' if enc else ''))
    fr = prog.fn(AM + '::from_json_string')
    r = Json(prog, fr)
    flow.Engine(prog, r).analyse(fr)

    def fail(m):
        res.add('from_json_string|' + m, '%s: %s' % (fr.loc(0), m))
    good = 0
    for eng, st, ret in r.results:
        if ret == ZERO:
            continue
        good += 1
        a = st.env.get(CMD_FIELD)
        req = request(prog, st, a) if a else None
        if req is None:
            fail('a message is loaded without deciding whether it is a time request')
            continue
        for m in sc + (list(TIMES) if req else []):
            v = st.env.get(F(m))
            if v is None or jkey(v) is None or jkey(v) != keys.get(m):
                fail('%s is loaded from %s, written as %s' % (m, jkey(v) if v else 'nowhere', keys.get(m)))
        if not req:
            for m in TIMES:
                v = st.env.get(F(m))
                if v is None or not ('timeZero' in repr(v) or v == ('tc', ZERO)):
                    fail('%s keeps a value of an earlier message' % m)
        doc = st.env.get(CMD_FIELD)[1][1] if st.env.get(CMD_FIELD)[0] == 'l' else None
        enc = flow.known_eq(st, ('l', ('f', doc, 'json:encoding')), ('s', 'base64')) is True
        p = st.env.get(F('payload'), ('none',))
        src = p
        if enc:
            while src[0] == 'p' and src[1] in ('raw', 'text'):
                src = src[2]
            if not (p[0] == 'p' and p[1] == 'raw'):
                fail('an encoded payload is not decoded')
        if jkey(src) != 'payload':
            fail('the payload is not loaded')
        sd = st.env.get(('sd',))
        cnt = ('l', ('f', doc, 'json:stringCount'))
        if sd != cnt:
            fail('the number of strings is not taken from the message')
        if not any(k[0] == 'lt' and v is False and k[2] == cnt for k, v in st.facts.items()):
            fail('the strings are not loaded up to their number')
        ran = st.env.get(('ran', F('stringData'))) == C(1)
        if ran != enc:
            fail('encoded strings are not decoded' if enc else 'strings are decoded that were not encoded')
    for k, v in r.strings:
        if not (v[0] == 'l' and v[1][0] == 'i' and v[1][2] == k and jkey(('l', v[1][1])) == 'strings'):
            fail('a string is stored at another place than its position')
    if not r.strings:
        fail('the strings are not loaded')
    if not any([e[:2] + (e[2][:2],) for e in x if e[0] == 'set'] == [('set', el[1], ('p', 'raw'))] for c, x in r.iterations):
        fail('encoded strings are not decoded')
    if not n or not good:
        raise fx.Broken('anchor vanished: to_json_string, from_json_string')
    res.count('json forms', n + good)


def entrances(prog, res):
    """from_string, from_vector: the whole buffer is offered, json only when the byte form was refused"""
    n = 0
    for nm in ('from_string', 'from_vector'):
        for fn in prog.fns(AM + '::' + nm):
            r = Enter(prog, fn)
            flow.Engine(prog, r).analyse(fn)
            d = ('v', fn.params[0]['d'], (fn.line,))

            def fail(m):
                res.add('%s|%s' % (nm, m), '%s: %s' % (fn.loc(0), m))
            for eng, st, ret in r.results:
                n += 1
                calls = st.rs
                if not calls or calls[0][0] != 'bytes' or calls[0][1:] != ('data', 'size'):
                    fail('the bytes are not offered to the byte loader in full')
                    continue
                if len(calls) > 1 and (calls[1][0] != 'json' or calls[1][1:] != ('data', 'size') or flow.known_eq(st, ('byteres',), ZERO) is not True):
                    fail('json is tried although the bytes were accepted, or not on all of the data')
                ok = flow.known_eq(st, ('jsonres',), ZERO) is False
                if ret == ('size',):
                    if not (len(calls) > 1 and ok):
                        fail('a message is reported as loaded that was not')
                elif ret != ('byteres',) and not (ret == ZERO and flow.known_eq(st, ('byteres',), ZERO) is True):
                    fail('the result of the byte loader is not returned')
                elif len(calls) > 1 and flow.known_eq(st, ('jsonres',), ZERO) is not True:
                    fail('a message loaded from json is reported as not loaded')
    if n < 2:
        raise fx.Broken('anchor vanished: from_string, from_vector')
    res.count('entrances', n)


class Enter(Pack):
    def called(self, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        short = name.split('::')[-1].split('<')[0]
        cls = n.get('cls', '')
        if short in ('fromByteArray', 'from_json_string'):
            v = [eng.ev(st, fr, a) for a in args]
            if len(v) == 1 and v[0][0] == 'k':
                v = list(v[0][2])
            if len(v) == 1:
                v = [('data',), ('size',)] if v[0][0] == 'l' or v[0] == ('view',) else [('none',)] * 2
            st.rs = st.rs + (('bytes' if short == 'fromByteArray' else 'json', v[0][0], v[1][0]),)
            st._k = None
            return [(st, ('byteres',) if short == 'fromByteArray' else ('jsonres',))]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'string_view' in cls:
            v = [eng.ev(st, fr, a) for a in args if a >= 0]
            return [(st, ('view',) if v == [('data',), ('size',)] else v[0] if len(v) == 1 else ('k', 'view', tuple(v)))]
        if obj is not None and obj >= 0 and ('string' in cls or 'vector' in cls):
            if short in ('data', 'c_str'):
                return [(st, ('data',))]
            if short in ('size', 'length'):
                return [(st, ('size',))]
            if short == 'empty':
                return [(st, flow.rel_term('==', ('size',), ZERO))]
            if short in ('front',) or n.get('op') == '[]':
                return [(st, ('front',))]
        return None

    def opaque(self, eng, fn):
        return fn.short in ('fromByteArray', 'from_json_string')


class Swap(cont.Contract):
    affine = True
    keyfact = flow.Rule.keyfact

    def __init__(self, prog, fn):
        super().__init__()
        self.prog, self.fn = prog, fn
        self.pairs, self.whole, self.bounds, self.other = [], [], [], 0

    def init(self):
        return ()

    def it_begin(self, *a):
        pass
    it_next = it_done = mutate = it_begin

    def counters(self, fn):
        return {}

    def called(self, eng, st, fr, i, name, obj, args):
        short = name.split('::')[-1].split('<')[0]
        if short in ('swap', 'iter_swap') and len(args) == 2:
            a, b = (eng.lv(st, fr, x) for x in args)
            self.pairs.append((st.copy(), pos(a), pos(b)))
            return [(st, ZERO)]
        if short == 'reverse' and len(args) == 2:
            self.whole.append((eng.ev(st, fr, args[0]), eng.ev(st, fr, args[1])))
            return [(st, ZERO)]
        return None

    def on_exit(self, eng, st, fr, kind, ret):
        self.bounds.append(st)


def pos(l):
    if l[0] == 'i' and l[1][0] == 'd':
        return ('op', '+', l[1][1], l[2])
    return l[1] if l[0] == 'd' else ('none',)


def swaps(prog, res):
    fns = [f for f in prog.funcs.values() if 'swap_bytes' in f.n and f.params]
    seen = set()
    for fn in fns:
        m = re.search(r'<(\d+)', fn.n) or re.search(r'#V\w?(\d+)', fn.u)
        if not m:
            continue
        n = int(m.group(1))
        seen.add(n)
        r = Swap(prog, fn)
        flow.Engine(prog, r).analyse(fn)
        base = ('l', ('v', fn.params[0]['d'], (fn.line,)))

        def fail(what):
            res.add('swap_bytes|' + what, '%s: %s' % (fn.loc(0), what))
        if r.whole:
            a, b = r.whole[0]
            if not (lin.same(a, base) and lin.same(b, ('op', '+', base, C(n)))) or r.pairs:
                fail('the bytes are not reversed as a whole')
            continue
        ok = False
        for st, a, b in r.pairs:
            f, k = lin.form(('op', '+', a, b))
            if f != {base: 2} or k != n - 1:
                fail('a byte is not exchanged with its mirror position')
        lo = [lin.sub(a, base) for st, a, b in r.pairs]
        unit = [f for f, k in lo if len(f) == 1 and list(f.values()) == [1] and list(f)[0][0] == 'lp' and list(f)[0][2] == () and k == 0]
        consts = sorted({k for f, k in lo if not f})
        for st in r.bounds:
            for k, v in st.facts.items():
                if k[0] == 'lt' and v is False and k[1][0] == 'lp' and k[2] == C(n // 2):
                    ok = bool(unit)
        if not ok and consts != list(range(n // 2)):
            fail('the exchange does not cover one half of the bytes')
    res.count('byte orders', len(seen))
    if not seen >= {2, 4, 8}:
        raise fx.Broken('anchor vanished: swap_bytes')


def invalid(prog, r, res):
    """what is refused is marked invalid"""
    v = [x[1] for x in prog.enum('helics::action_message_def::action_t')['e'] if x[0] == 'cmd_invalid']
    n = 0
    for eng, st, ret in r.results:
        if ret != ZERO:
            continue
        n += 1
        a = st.env.get(CMD_FIELD, ('none',))
        if a != C(v[0]) and not flow.known_eq(st, ('rd', ZERO, C(1)), C(ord('{'))):
            res.add('fromByteArray|refused', '%s: bytes that are refused leave a message that is not marked invalid' % r.fn.loc(0))
    res.count('refusals', n)
