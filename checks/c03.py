"""C03: identifiers compare by value, know whether they are set, and the ranges that tell brokers, federates and routes apart do not overlap."""
import fx, flow, harness, spec, lin
from flow import C, ZERO, THIS

H = 'helics::'
IDS = {'LocalFederateId': 'fid', 'InterfaceHandle': 'hid', 'GlobalBrokerId': 'gid', 'GlobalFederateId': 'gid', 'route_id': 'rid'}


def own(cls, base=THIS):
    return ('f', base, H + cls + '::' + IDS[cls])


def const(prog, name):
    out = []

    class W(flow.Rule):
        def on_exit(self, eng, st, fr, kind, ret):
            out.append(ret)
    flow.Engine(prog, W()).analyse(prog.fn('witness::' + name))
    if len(out) != 1 or out[0] is None or out[0][0] != 'c':
        raise fx.Broken('cannot fold ' + name)
    return out[0][1]


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/LocalFederateId.cpp'], ['ids.cpp'])
    unset = {c: const(prog, c) for c in IDS}
    FED, BRK, ROOT = const(prog, 'fedShift'), const(prog, 'brokerShift'), const(prog, 'root')
    INVH = unset['InterfaceHandle']

    def boolean(fn, want, atoms):
        """the answer has to follow want"""
        def ex(x):
            w, g = flow.truth(x.st, want(x)), x.truth(x.ret)
            if w is None or g is None or w != g:
                x.fail('%s does not answer what its values say' % fn.short)
        spec.check(res, 'C03', prog, fn, exit=ex, when=atoms)

    for cls in IDS:
        a = ('l', own(cls))
        for op in ('operator==', 'operator!=', 'operator<', 'operator>'):
            for fn in prog.fns(H + cls + '::' + op):
                pt = fn.params[0]['t'].replace('const ', '').replace(' &', '').split('::')[-1]
                if pt not in IDS:
                    continue
                b = lambda x, pt=pt: ('l', own(pt, x.Pl(0)))
                rel = lambda x, op=op, b=b: flow.rel_term(op[8:], a, b(x))
                boolean(fn, rel, lambda x, rel=rel: [rel(x)])
        if cls in ('GlobalBrokerId', 'GlobalFederateId'):
            ge = lambda v: flow.rel_term('>=', a, C(v))
            boolean(prog.fn(H + cls + '::isFederate'), lambda x: ('and', ge(FED), flow.rel_term('<', a, C(BRK))), lambda x: [ge(BRK), ge(FED)])
            boolean(prog.fn(H + cls + '::isBroker'), lambda x: ('or', ge(BRK), flow.rel_term('==', a, C(ROOT))), lambda x: [flow.rel_term('==', a, C(ROOT)), ge(BRK)])
            shift = BRK if cls == 'GlobalBrokerId' else FED

            def li(x, shift=shift):
                big = x.truth(ge(shift))
                x.need(lin.same(x.ret, ('op', '-', a, C(shift)) if big else a), 'the local index does not undo the shift')
            spec.check(res, 'C03', prog, prog.fn(H + cls + '::localIndex'), exit=li, when=lambda x: [ge(shift)])
        invalid = [unset[cls]] + ([INVH] if cls.startswith('Global') else [])
        un = [flow.rel_term('==', a, C(v)) for v in invalid]
        boolean(prog.fn(H + cls + '::isValid'), lambda x, un=un: ('not', un[0]) if len(un) == 1 else ('not', ('or', un[0], un[1])), lambda x, un=un: un)
        spec.check(res, 'C03', prog, prog.fn(H + cls + '::baseValue'), exit=lambda x, a=a: x.need(x.ret == a, 'baseValue is not the stored value'))
        for fn in prog.fns(H + cls + '::' + cls):
            if len(fn.params) == 1 and fn.params[0]['t'] in ('int', 'BaseType', 'int32_t', 'IdentifierBaseType') or 'I#' == fn.u[-2:]:
                spec.check(res, 'C03', prog, fn, exit=lambda x, cls=cls: x.need(x.val(own(cls)) == x.P(0), 'the constructor does not store its value'))
    for fn in prog.fns(H + 'GlobalFederateId::GlobalFederateId'):
        if 'GlobalBrokerId' in fn.u:
            spec.check(res, 'C03', prog, fn, exit=lambda x: x.need(x.val(own('GlobalFederateId')) == ('l', own('GlobalBrokerId', x.Pl(0))), 'conversion from a broker id changes the value'))
    # conversions and pairs
    fed, hnd = ('f', THIS, H + 'GlobalHandle::fed_id'), ('f', THIS, H + 'GlobalHandle::handle')

    def parts(x):
        return ('l', fed), ('l', ('f', x.Pl(0), H + 'GlobalHandle::fed_id')), ('l', hnd), ('l', ('f', x.Pl(0), H + 'GlobalHandle::handle'))

    def lex(x):
        f1, f2, h1, h2 = parts(x)
        return [flow.rel_term('<', f1, f2), flow.rel_term('==', f1, f2), flow.rel_term('<', h1, h2), flow.rel_term('==', h1, h2)]
    boolean(prog.fn(H + 'GlobalHandle::operator<'), lambda x: ('or', lex(x)[0], ('and', lex(x)[1], lex(x)[2])), lex)
    boolean(prog.fn(H + 'GlobalHandle::operator=='), lambda x: ('and', lex(x)[1], lex(x)[3]), lambda x: [lex(x)[1], lex(x)[3]])
    boolean(prog.fn(H + 'GlobalHandle::operator!='), lambda x: ('not', ('and', lex(x)[1], lex(x)[3])), lambda x: [lex(x)[1], lex(x)[3]])

    un = lambda x: [flow.rel_term('==', ('l', own('GlobalFederateId', fed)), C(unset['GlobalFederateId'])), flow.rel_term('==', ('l', own('GlobalFederateId', fed)), C(INVH)),
                    flow.rel_term('==', ('l', own('InterfaceHandle', hnd)), C(INVH))]
    boolean(prog.fn(H + 'GlobalHandle::isValid'), lambda x: ('not', ('or', ('or', un(x)[0], un(x)[1]), un(x)[2])), un)

    # the 64 bit key keeps the federate in the upper and the handle in the lower half
    def bits(t):
        """bit k of the key -> set of (source, bit) that can reach it; signed 32 bit sources extend to 64"""
        n = lambda l: 'fed' if flow.contains(l, fed) else 'hnd' if flow.contains(l, hnd) else None
        if t[0] == 'c':
            return [{('one',)} if (t[1] >> k) & 1 else set() for k in range(64)]
        if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '|', '^'):
            a, b = bits(t[2]), bits(t[3])
            out = []
            for u, v in zip(a, b):
                out.append(u | v | ({('mix',)} if u and v else set()))
            return out
        if t[0] == 'op' and len(t) == 4 and t[1] == '&' and t[3][0] == 'c':
            a = bits(t[2])
            return [a[k] if (t[3][1] >> k) & 1 else set() for k in range(64)]
        if t[0] == 'op' and len(t) == 4 and t[1] == '<<' and t[3][0] == 'c':
            a, s = bits(t[2]), t[3][1]
            return [set()] * s + a[:64 - s]
        s = n(t)
        if s is None:
            return [{('mix',)}] * 64
        return [{(s, min(k, 31))} for k in range(64)]

    def key(x):
        b = bits(x.ret)
        got = {s for c in b if len(c) == 1 for s in c}
        want = {('fed', k) for k in range(32)} | {('hnd', k) for k in range(32)}
        x.need(want <= got, 'two different handles can get the same key')
    spec.check(res, 'C03', prog, prog.fn(H + 'GlobalHandle::operator unsigned long'), exit=key)
    # special federates of brokers
    brk, idx = ('f', None), None

    def special(x):
        a, k = lin.form(x.ret)
        b = x.eng.fld(x.P(0), H + 'GlobalBrokerId::gid') if False else ('l', ('f', x.Pl(0), H + 'GlobalBrokerId::gid'))
        isroot = x.eq(x.P(0), ('l', ('g', H + 'gRootBrokerID')))
        if isroot is None:
            isroot = x.eq(b, C(ROOT))
        i = x.P(1)
        if isroot is None:
            x.fail('special federates of the root are not told apart')
            return
        lo, hi = BRK - 3, BRK - 1
        if set(a) - {i, b} or abs(a.get(i, 0)) != 1:
            x.fail('the special federate id does not depend on the index alone')
            return
        vals = [k + a[i] * j for j in range(3)]
        if isroot:
            x.need(not a.get(b) and all(lo <= v <= hi for v in vals), 'special federates of the root leave their range')
        else:
            cb = a.get(b, 0)
            x.need(abs(cb) >= 3, 'special federates of different brokers overlap')
            first = [v + cb * BRK for v in vals]
            x.need(cb < 0 and all(v < lo for v in first), 'special federates of a broker overlap those of the root')
    spec.check(res, 'C03', prog, prog.fn(H + 'getSpecialFederateId'), exit=special, when=lambda x: [])
    # routes
    form = []
    spec.check(res, 'C03', prog, prog.fn(H + 'generateRouteId'), exit=lambda x: form.append((lin.form(x.ret[2][0] if x.ret[0] == 'k' and len(x.ret[2]) == 1 else x.val(own('route_id', x.ret[1]))
               if x.ret[0] == 'l' else x.ret), x.P(0), x.P(1))))
    code = []
    spec.check(res, 'C03', prog, prog.fn(H + 'getRouteTypeCode'), exit=lambda x: code.append(x.ret))
    if len(form) != 1 or len(code) != 1:
        raise fx.Broken('route ids')
    (f, k), t, i = form[0]
    sh = code[0][3][1] if code[0][0] == 'op' and code[0][1] == '>>' and len(code[0]) == 4 and code[0][3][0] == 'c' else None
    if sh is None and code[0][0] == 'op' and code[0][1] == '/' and code[0][3][0] == 'c':
        sh = code[0][3][1].bit_length() - 1
    if f.get(i) != 1 or k or sh is None or f.get(t) != 1 << sh or sh < 16:
        res.add('C03|route', 'src/helics/core/GlobalFederateId.hpp: the route type code is not recovered from a generated route id')
    # hashing depends on the value alone
    for cls in list(IDS) + ['GlobalHandle']:
        for fn in prog.fns('std::hash<helics::%s>::operator()' % cls):
            def ex(x, cls=cls):
                v = x.ret
                ok = v[0] != 'h' and not (v[0] == 'call' and False)
                x.need(ok, 'the hash does not depend on the value alone')
            spec.check(res, 'C03', prog, fn, exit=ex)
    # distinct special values
    vals = {'unset ' + c: v for c, v in unset.items()}
    for n in ('localCore', 'directCore', 'root', 'parentBroker'):
        v = const(prog, n)
        if v in [unset['GlobalFederateId'], unset['LocalFederateId'], INVH] or FED <= v:
            res.add('C03|special|' + n, 'src/helics/core/GlobalFederateId.hpp: the special id %s falls into a range in use' % n)
    if const(prog, 'directSend') == INVH or const(prog, 'directSend') >= 0:
        res.add('C03|special|directSend', 'src/helics/core/LocalFederateId.hpp: the direct send handle collides')
    if not (1 < FED < BRK) or const(prog, 'parentRoute') == const(prog, 'controlRoute'):
        res.add('C03|ranges', 'src/helics/core/GlobalFederateId.hpp: federate and broker ids overlap')
    for c in IDS:
        if unset[c] >= 0:
            res.add('C03|unset|' + c, 'src/helics/core: a default constructed %s looks like a value in use' % c)
    # printing
    for fn in prog.fns(H + 'operator<<'):
        if len(fn.params) != 2:
            continue
        cls = fn.params[1]['t'].split('::')[-1]

        def ex(x, cls=cls):
            out = spec.written(x.val(x.rule.Ploc(0)))
            p = x.Pl(1)
            if cls in IDS:
                want = [('l', own(cls, p))]
            else:
                want = [('l', own('GlobalFederateId', ('f', p, H + 'GlobalHandle::fed_id'))), ('s', '::'), ('l', own('InterfaceHandle', ('f', p, H + 'GlobalHandle::handle')))]
            x.need(out == want, 'the text of a %s is not its value' % cls)
        spec.check(res, 'C03', prog, fn, exit=ex, called=spec.stream)
    res.need('functions', 50)
    res.rules = ['every comparison, conversion and range query of the identifier classes is reduced to relations over the stored values and compared with its contract on every path; ranges and packings are compared as linear forms and bit maps']
    res.assumptions = ['identifiers do not overflow 32 bits when special federate ids are formed']
    return res
