"""C13: copies of messages and the conversion between queue commands and user messages keep every part"""
import fx, harness, names, table, spec, flow
from flow import C, THIS

A, M = 'helics::ActionMessage', 'helics::Message'
# user message member -> command member, or position of the string
PAIR = {'data': 'payload', 'time': 'actionTime', 'flags': 'flags', 'messageID': 'messageID', 'dest': 0, 'source': 1, 'original_source': 2, 'original_dest': 3}
RETURN = 'return'


def af(base, n):
    return ('f', base, A + '::' + n)


def mf(base, n):
    return ('f', base, M + '::' + n)


def strip(v):
    """moving, copying or converting a value keeps it"""
    while v is not None and v[0] == 'k' and len(v[2]) == 1:
        v = v[2][0]
    if v is not None and v[0] == 'L':
        v = ('l', v[1])
    return v


def judge(v, want, own):
    """True: the wanted value; False: decidedly another one; None: cannot be told"""
    v = strip(v)
    if v == want:
        return True
    if v is None or v == ('l', own) or v[0] == 'c' or v[0] == 'k' and not v[2]:
        return False
    if v[0] == 'l' and v[1][0] == 'v':
        return False
    if v[0] == 'l' and want[0] == 'l' and str(v[1]).count('::') and root(v[1]) == root(want[1]):
        return False
    return None


def root(l):
    while l[0] in ('f', 'i'):
        l = l[1]
    return l


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ActionMessage.cpp'], ['flags.cpp'])
    F = [f['n'] for f in prog.record(A)['fields']]
    MF = [f['n'] for f in prog.record(M)['fields']]
    for n in ('payload', 'stringData', 'messageAction', 'actionTime', 'counter', 'source_id', 'source_handle', 'dest_id', 'dest_handle'):
        if n not in F:
            raise fx.Broken('anchor vanished: ActionMessage::' + n)
    for n in PAIR:
        if n not in MF:
            raise fx.Broken('anchor vanished: Message::' + n)
    E = names.enum_values(prog, 'helics::action_message_def::action_t')
    OP = ['operator=', 'SmallBuffer::operator=']

    def each(fn, opaque=OP, rec=()):
        out = [x for v, x in table.results(prog, fn, {}, opaque=opaque, rec=rec)[0] if x.kind == 'return']
        res.count('functions')
        res.count('exits', len(out))
        if not out:
            res.add('C13|%s|exit|%d' % (fn.short, len(fn.params)), '%s: %s never returns' % (fn.loc(), fn.short))
        return out

    def bad(fn, key, what):
        res.add('C13|%s|%s' % (fn.short, key), '%s: %s: %s' % (fn.loc(), fn.short, what))

    # copies
    for kind in ('ActionMessage', 'operator='):
        seen = 0
        for fn in prog.fns(A + '::' + kind):
            t = [p['t'].replace('const ', '').replace('struct ', '').replace('class ', '') for p in fn.params]
            if len(t) != 1:
                if kind == 'ActionMessage' and len(t) == 3 and 'action_t' in t[0]:
                    for x in each(fn):
                        for n, k in (('messageAction', 0), ('source_id', 1), ('dest_id', 2)):
                            res.count('fields')
                            if judge(x.val(af(THIS, n)), x.P(k), af(THIS, n)) is False:
                                bad(fn, n, 'does not set %s from its argument' % n)
                continue
            that = ('v', fn.params[0]['d'], (fn.line,))
            if t[0].startswith(A + ' &'):
                seen += 1
                for x in each(fn):
                    for n in F:
                        res.count('fields')
                        if judge(x.val(af(THIS, n)), ('l', af(that, n)), af(THIS, n)) is False:
                            bad(fn, n, 'the copy does not get the %s of the original' % n)
            elif 'action_t' in t[0]:
                for x in each(fn):
                    res.count('fields')
                    if judge(x.val(af(THIS, 'messageAction')), x.P(0), af(THIS, 'messageAction')) is False:
                        bad(fn, 'action', 'does not set the action')
            elif 'unique_ptr' in t[0]:
                seen += 1
                src = ('d', ('l', that))
                for x in each(fn):
                    act = strip(x.val(af(THIS, 'messageAction')))
                    if act != C(E['cmd_send_message']) and (act[0] == 'c' or act == ('l', af(THIS, 'messageAction'))):
                        bad(fn, 'action', 'the command made from a message is no message command')
                    strs = x.val(af(THIS, 'stringData'))
                    for m, n in PAIR.items():
                        res.count('fields')
                        if isinstance(n, str):
                            if judge(x.val(af(THIS, n)), ('l', mf(src, m)), af(THIS, n)) is False:
                                bad(fn, n, 'the command does not get the %s of the message' % m)
                        else:
                            s = listed(strs)
                            if s is None:
                                s = x.val(('i', af(THIS, 'stringData'), C(n)))
                                ok = judge(s, ('l', mf(src, m)), ('i', af(THIS, 'stringData'), C(n)))
                            else:
                                ok = len(s) > n and judge(s[n], ('l', mf(src, m)), None)
                            if ok is False:
                                bad(fn, 'string %d' % n, 'string %d of the command is not the %s of the message' % (n, m))
        if seen < 3:
            raise fx.Broken('anchor vanished: copy functions of ActionMessage')
    # back to user messages
    two = prog.fns('helics::createMessageFromCommand')
    if len(two) < 2:
        raise fx.Broken('anchor vanished: createMessageFromCommand')
    for fn in two:
        cmd = ('v', fn.params[0]['d'], (fn.line,))
        size = ('p', '#', ('l', af(cmd, 'stringData')))
        opq = OP + ['createMessageFromCommand']

        def back(x):
            o = x.ret
            if o is None or o[0] == 'call' and o[1].endswith('createMessageFromCommand'):
                return
            new = ('d', o)
            for m, n in PAIR.items():
                l = mf(new, m)
                v = x.val(l)
                res.count('fields')
                if isinstance(n, str):
                    if judge(v, ('l', af(cmd, n)), l) is False:
                        bad(fn, m, 'the message does not get the %s of the command' % n)
                    continue
                has = more(x.st, size, n)
                w = ('l', ('i', af(cmd, 'stringData'), C(n)))
                if has and judge(v, w, l) is False:
                    bad(fn, m, 'the message does not get string %d of the command as %s' % (n, m))
                if has is False and flow.contains(v, w[1]):
                    bad(fn, m, 'string %d of the command is used although there is none' % n)
        spec.check(res, 'C13', prog, fn, exit=back, opaque=opq, when=lambda x: [flow.rel_term('==', size, C(n)) for n in range(4)])
    # accessors
    S = af(THIS, 'stringData')
    for fn in prog.fns(A + '::setStringData'):
        k = len(fn.params)
        for x in each(fn):
            sz = [e[3][0] for e in x.muts(S) if e[2] in ('resize', 'assign') and e[3]]
            if sz and sz[-1][0] == 'c' and sz[-1][1] != k:
                bad(fn, 'size %d' % k, 'leaves %d strings when given %d' % (sz[-1][1], k))
            lst = listed(x.val(S))
            for n in range(k):
                res.count('fields')
                l = ('i', S, C(n))
                v = x.val(l) if lst is None else lst[n] if n < len(lst) else None
                if judge(v, x.P(n), l) is False:
                    bad(fn, 'string %d of %d' % (n, k), 'string %d is not the one given' % n)

    def setstr(x):
        i = x.P(0)
        x.need(x.lt(i, C(255)) is True and x.lt(i, C(0)) is False, 'a string is stored at an index outside of 0 to 254')
        if judge(x.val(('i', S, i)), x.P(1), ('i', S, i)) is False:
            x.fail('the string is not stored at its index')
        size = ('p', '#', ('l', S))
        rs = [e for e in x.muts(S) if e[2] == 'resize']
        small = x.lt(i, size)
        if small is False:
            x.need(rs and x.lt(i, rs[-1][3][0]) is not False, 'the strings are not extended to hold the index')
        elif small:
            x.need(not rs, 'strings beyond the index are dropped')

    fn = prog.fn(A + '::setString')
    i0 = ('l', ('v', fn.params[0]['d'], (fn.line,)))
    spec.check(res, 'C13', prog, fn, exit=setstr, opaque=OP, when=lambda x: [flow.rel_term('<', i0, C(255)), flow.rel_term('<', i0, C(0)), flow.rel_term('<', i0, ('p', '#', ('l', S)))])

    def getstr(x):
        i, size = x.P(0), ('p', '#', ('l', S))
        r = x.ret
        inside = x.lt(i, size) is True and x.lt(i, C(0)) is False
        outside = x.lt(i, size) is False or x.lt(i, C(0)) is True
        own = r is not None and r[0] == 'L' and r[1] == ('i', S, i)
        if outside and r is not None and r[0] == 'L' and root(r[1]) == THIS:
            x.fail('a string is read at an index that does not exist')
        if inside and not own and r is not None and r[0] == 'L':
            x.fail('the string at an existing index is not the one returned')
    fn = prog.fn(A + '::getString')
    g0 = ('l', ('v', fn.params[0]['d'], (fn.line,)))
    spec.check(res, 'C13', prog, fn, exit=getstr, when=lambda x: [flow.rel_term('<', g0, ('p', '#', ('l', S))), flow.rel_term('<', g0, C(0))])
    H = 'helics::GlobalHandle::'
    for f, a, b in (('setSource', 'source_id', 'source_handle'), ('setDestination', 'dest_id', 'dest_handle')):
        fn = prog.fn(A + '::' + f)
        for x in each(fn):
            for n, w in ((a, 'fed_id'), (b, 'handle')):
                res.count('fields')
                if judge(x.val(af(THIS, n)), ('l', ('f', x.Pl(0), H + w)), af(THIS, n)) is False:
                    bad(fn, n, '%s is not the %s given' % (n, w))
            untouched(bad, fn, x, F, (a, b))
    for f, a, b in (('getSource', 'source_id', 'source_handle'), ('getDest', 'dest_id', 'dest_handle')):
        fn = prog.fn(A + '::' + f)
        for x in each(fn):
            r = x.ret
            if r is not None and r[0] == 'k' and len(r[2]) == 2:
                for v, n in zip(r[2], (a, b)):
                    res.count('fields')
                    if judge(v, ('l', af(THIS, n)), None) is False:
                        bad(fn, n, 'does not return the %s' % n)
            untouched(bad, fn, x, F, ())
    fn = prog.fn(A + '::swapSourceDest')
    for x in each(fn):
        for a, b in (('source_id', 'dest_id'), ('dest_id', 'source_id'), ('source_handle', 'dest_handle'), ('dest_handle', 'source_handle')):
            res.count('fields')
            if judge(x.val(af(THIS, a)), ('l', af(THIS, b)), af(THIS, a)) is False:
                bad(fn, a, '%s does not become the earlier %s' % (a, b))
    for f, a in (('setExtraData', 'dest_handle'), ('setExtraDestData', 'source_handle'), ('setAction', 'messageAction')):
        fn = prog.fn(A + '::' + f)
        for x in each(fn):
            res.count('fields')
            if judge(x.val(af(THIS, a)), x.P(0), af(THIS, a)) is False:
                bad(fn, a, '%s is not the value given' % a)
            untouched(bad, fn, x, F, (a,))
    for f, a in (('getExtraData', 'dest_handle'), ('getExtraDestData', 'source_handle'), ('action', 'messageAction')):
        fn = prog.fn(A + '::' + f)
        for x in each(fn):
            res.count('fields')
            r = strip(x.ret)
            if r is not None and r[0] == 'l' and root(r[1]) == THIS and not flow.contains(r, af(THIS, a)):
                bad(fn, a, 'does not return the %s' % a)
    # several messages in one
    fn = prog.fn('helics::appendMessage')
    mm = ('v', fn.params[0]['d'], (fn.line,))
    cnt, st = ('l', af(mm, 'counter')), af(mm, 'stringData')
    is_multi = flow.rel_term('==', ('l', af(mm, 'messageAction')), C(E['cmd_multi_message']))
    room = flow.rel_term('<', cnt, C(255))

    def app(x):
        now = x.val(af(mm, 'counter'))
        if x.truth(is_multi) is False or x.truth(room) is False:
            x.need(x.ret is None or x.ret == C(-1) or x.ret[0] != 'c' and x.ret != now, 'a message that cannot be appended is not refused')
            x.need(now == cnt and not x.muts(st), 'the container changes although the message is refused')
            return
        if x.ret == C(-1):
            x.fail('a message is refused although there is room')
            return
        x.need(x.eq(now, ('op', '+', cnt, C(1))) is not False, 'the number of messages does not grow by one')
        v = x.val(('i', st, cnt))
        if v == ('l', ('i', st, cnt)) or v[0] == 'c':
            x.fail('the message is not stored behind the earlier ones')
        x.need(x.ret == now or x.ret[0] not in ('c', 'l'), 'the position returned is not the number of messages')
    def late(x):
        if x.lt(cnt, C(255)) is False:
            x.fail('appending to a full container throws instead of refusing')
    spec.check(res, 'C13', prog, fn, exit=app, throw=late, opaque=OP + ['to_string', 'to_json_string'], when=lambda x: [is_multi, room])
    # error texts
    fn = prog.fn('helics::errorMessageString')
    cmd = ('v', fn.params[0]['d'], (fn.line,))
    ef = [x[1] for q in prog.enums.values() for x in q['e'] if x[0] == 'error_flag'][0]
    flag = flow.rel_term('!=', ('op', '&', ('l', af(cmd, 'flags')), C(1 << ef)), C(0))

    def err(x):
        r = x.ret
        if r is None:
            return
        if x.truth(flag) is False:
            x.need(r[0] == 'k' and not flow.contains(r, ('s',)) or r == ('s', ''), 'a message without error has an error text')
            return
        g, c = x.calls('getString'), x.calls('commandErrorString')
        gs = next((t for f in x.st.facts for t in f[1:] if isinstance(t, tuple) and t[0] == 'p' and t[1] == '#' and 'getString' in str(t)), None)
        empty = x.eq(gs, C(0)) if gs else None
        if g and g[0][3] and g[0][3][0][0] == 'c':
            x.need(g[0][3][0] == C(0), 'the error text is not the first string')
        if 'commandErrorString' in str(r):
            x.need(empty is not False, 'the text of an error is ignored')
            x.need(not c or strip(c[-1][3][0]) == ('l', af(cmd, 'messageID')) or strip(c[-1][3][0])[0] not in ('l', 'c'), 'the text is not looked up by the error code of the message')
        elif 'getString' in str(r):
            x.need(empty is not True, 'an error without text of its own is not described by its code')
        elif r[0] == 'k' and not r[2]:
            x.fail('an error is reported without text')
    spec.check(res, 'C13', prog, fn, exit=err, rec=['getString', 'commandErrorString'], when=lambda x: [flag])
    # user messages
    fn = prog.fn(M + '::swap')
    that = ('v', fn.params[0]['d'], (fn.line,))
    for x in each(fn, opaque=['SmallBuffer::swap'], rec=['SmallBuffer::swap']):
        for n in PAIR:
            res.count('fields')
            if [e for e in x.calls('swap') if e[2] == mf(THIS, n) and e[3] == (('l', mf(that, n)),) or e[2] == mf(that, n) and e[3] == (('l', mf(THIS, n)),)]:
                continue
            for a, b in ((THIS, that), (that, THIS)):
                if judge(x.val(mf(a, n)), ('l', mf(b, n)), mf(a, n)) is False:
                    bad(fn, n, '%s is not exchanged' % n)
    fn = prog.fn(M + '::clear')
    for x in each(fn, opaque=['SmallBuffer::resize', 'SmallBuffer::clear'], rec=['SmallBuffer::resize', 'SmallBuffer::clear']):
        for n in list(PAIR) + ['counter']:
            res.count('fields')
            if n == 'data':
                if not [e for e in x.calls('resize', 'clear') if e[2] == mf(THIS, n) and e[3][:1] in ((), (C(0),))] and x.val(mf(THIS, n)) == ('l', mf(THIS, n)):
                    bad(fn, n, 'the data stays')
            elif x.val(mf(THIS, n)) == ('l', mf(THIS, n)):
                bad(fn, n, 'the %s stays' % n)
    res.need('fields', 100)
    res.need('exits', 40)
    res.rules = ['each member after a copy, conversion or setter compared with the value that has to arrive there, on every path; conditions of the contract split the paths']
    return res


def listed(v):
    """elements of a vector built from a list"""
    if v is not None and v[0] == 'k':
        if '[' in v[1]:
            return list(v[2])
        for y in v[2]:
            r = listed(y)
            if r is not None:
                return r
    return None


def more(st, size, n):
    """is size > n?  decided over the values the facts of the path leave"""
    left = []
    for k in range(9):
        ok = True
        for f, b in st.facts.items():
            if f == ('=', size):
                ok &= b == C(k)
            elif f[0] == 'eq' and size in f[1:]:
                o = f[2] if f[1] == size else f[1]
                ok &= o[0] != 'c' or (o[1] == k) == b
            elif f[0] == 'lt' and f[1] == size and f[2][0] == 'c':
                ok &= (k < f[2][1]) == b
            elif f[0] == 'lt' and f[2] == size and f[1][0] == 'c':
                ok &= (f[1][1] < k) == b
        if ok:
            left.append(k)
    if not left:
        return None
    return True if all(k > n for k in left) else False if all(k <= n for k in left) else None


def untouched(bad, fn, x, F, but):
    for n in F:
        if n not in but:
            l = af(THIS, n)
            v = x.val(l)
            if v != ('l', l) and (v[0] in ('c', 'l')):
                bad(fn, 'also ' + n, 'also changes %s' % n)
