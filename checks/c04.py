"""C04: profiler messages reach the file once, in order, and are never dropped or duplicated."""
import fx, flow, harness, spec, cont
from flow import C, ZERO, THIS

U = 'helics::ProfilerBuffer'
BUF = ('f', THIS, U + '::mBuffers')
NAME = ('f', THIS, U + '::mFileName')
APP, OUT, TRUNC = 1, 16, 32


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ProfilerBuffer.cpp'])
    for f in ('mBuffers', 'mFileName'):
        if f not in [x['n'] for x in prog.record(U)['fields']]:
            raise fx.Broken('anchor vanished: %s::%s' % (U, f))

    def files(rule, eng, st, fr, i, name, obj, args):
        n = fr.fn.nodes[i]
        cls = n.get('cls', '')
        short = name.split('::')[-1]
        if n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '<<':
            return spec.stream(rule, eng, st, fr, i, name, obj, args)
        if cls.startswith('std::basic_ofstream') or cls.startswith('std::basic_fstream'):
            if short == 'open' or n['k'] == 'CXXConstructExpr' and args:
                vals = [eng.ev(st, fr, a) for a in args if a >= 0]
                mode = vals[1] if len(vals) > 1 and vals[1][0] == 'c' else C(OUT)
                rule.eff(eng, st, ('open', vals[0], mode))
                o = ('opened', vals[0], mode)
                if n['k'] == 'CXXConstructExpr':
                    return [(st, o)]
                eng.write(st, rule.objloc(eng, st, fr, obj), o)
                return [(st, ZERO)]
            if n['k'] == 'CXXConstructExpr':
                return [(st, ('closed',))]
        if cls.startswith(('std::basic_ios', 'std::basic_ofstream')) and (obj is not None and obj >= 0 or args):
            obj = obj if obj is not None and obj >= 0 else args[0]
            if short in ('fail', 'operator!', 'is_open', 'good', 'operator bool'):
                o = eng.read(st, rule.objloc(eng, st, fr, obj))
                bad = st.copy()
                rule.eff(eng, st, ('ok', o))
                rule.eff(eng, bad, ('bad', o))
                neg = short in ('fail', 'operator!')
                return [(st, C(0 if neg else 1)), (bad, C(1 if neg else 0))]
            if short in ('exceptions', 'flush', 'close'):
                return [(st, ZERO)]
        return None

    name0 = ('l', NAME)

    # recording
    for fn in prog.fns(U + '::addMessage'):
        def add(x):
            m = x.muts()
            ok = len(m) == 1 and m[0][1] == BUF and m[0][2] in ('push_back', 'emplace_back') and m[0][3] == (x.P(0),)
            x.need(ok or not m and x.eq(('p', '#', x.P(0)), ZERO), 'addMessage does not append exactly its message')
        spec.check(res, 'C04', prog, fn, exit=add, called=files)
    if len(prog.fns(U + '::addMessage')) < 2:
        raise fx.Broken('anchor vanished: addMessage')

    # writing
    def each(x):
        outs = [e for e in x.effs if e[0] == 'out']
        if [e for e in x.effs if e[0] == 'mut' and e[1] == BUF]:
            x.fail('the buffer changes while it is written')
        v = [e[2] for e in outs]
        elv = ('l', cont.el(x.c))
        if x.c != BUF:
            return
        empty = x.eq(('p', '#', elv), ZERO)
        if not outs:
            x.need(empty is True, 'a message is passed over without being written')
            return
        first = v[0]
        x.need(len(outs) == 2 and first == elv and (v[1][0] == 'fn' and 'endl' in str(v[1]) or v[1] in (('s', '\n'), C(10))), 'a message is not written once, on a line of its own')
        x.need(all(e[1] == outs[0][1] for e in outs), 'message and line end go to different places')

    def wexit(x):
        effs = x.all()
        opens = [e for e in effs if e[0] == 'open']
        clears = x.muts(BUF)
        none = x.eq(cont.sz(x.eng, x.st, BUF), ZERO)
        if not opens:
            x.need(not clears and x.eq(('p', '#', ('l', BUF)), ZERO) is True, 'writeFile returns without opening the file')
            return
        x.need(len(opens) == 1 and opens[0][1] == name0, 'writeFile opens something other than the named file')
        x.need(opens[0][2][1] & APP and not opens[0][2][1] & TRUNC, 'writeFile does not append: what was written before is lost')
        x.need(('ok', ('opened', opens[0][1], opens[0][2])) in effs, 'writeFile goes on although the file could not be opened')
        x.need(BUF in x.done() and ('rev', BUF) not in effs, 'writeFile does not write all messages in the order they were added')
        x.need(any(e[2] in ('clear',) for e in clears) and all(e[2] in ('clear',) for e in clears), 'written messages stay in the buffer')

    def wthrow(x):
        x.need(not x.muts(), 'messages are dropped although the file could not be written')
    spec.check(res, 'C04', prog, prog.fn(U + '::writeFile'), exit=wexit, each=each, throw=wthrow, called=files)

    # destruction
    def dexit(x):
        n = ('p', '#', ('l', BUF))
        w = x.calls('writeFile')
        e = x.eq(n, ZERO)
        x.need(len(w) == 1 or not w and e is True, 'pending messages are not written when the buffer goes away')
        x.need(not x.muts(), 'messages are dropped when the buffer goes away')
    spec.check(res, 'C04', prog, prog.fn(U + '::~ProfilerBuffer'), exit=dexit, rec=['writeFile'], called=files)
    dt = prog.fn(U + '::~ProfilerBuffer')
    CATCH = ('std::ios_base::failure', 'std::system_error', 'std::runtime_error', 'std::exception')
    if not any(n['k'] == 'CXXCatchStmt' and (not n.get('ct') or any(c in n['ct'] for c in CATCH)) for n in dt.nodes):
        res.add('C04|dtor|catch', '%s: a failure to write escapes the destructor' % dt.loc())

    # choosing the file
    def sexit(x):
        effs = x.all()
        opens = [e for e in effs if e[0] == 'open']
        arg, app = x.P(0), x.P(1)
        empty = x.eq(('p', '#', arg), ZERO)
        final = x.val(NAME)
        if empty is None:
            x.fail('setOutputFile does not look whether a name was given')
            return
        if empty:
            x.need(final in (('s', ''), arg) and not opens, 'an empty name does not switch the file off')
            return
        x.need(final == arg, 'the file name is not kept')
        a = x.eq(app, ZERO)
        if a is None:
            x.fail('setOutputFile ignores the append flag')
            return
        if not a:
            x.need(all(e[2][1] & APP and not e[2][1] & TRUNC for e in opens), 'appending clears the file')
            return
        x.need(len(opens) == 1 and opens[0][1] == arg and (opens[0][2][1] == OUT or opens[0][2][1] & TRUNC) and not opens[0][2][1] & APP, 'the file is not cleared on first use')
        if opens:
            x.need(('ok', ('opened', opens[0][1], opens[0][2])) in effs, 'a file that cannot be opened goes unnoticed')
        x.need(not x.muts(), 'choosing a file changes the buffer')
    spec.check(res, 'C04', prog, prog.fn(U + '::setOutputFile'), exit=sexit, called=files)
    res.need('functions', 5)
    res.rules = ['each member is interpreted with one arbitrary buffered message: what is appended, opened, written and cleared has to match the contract on every path']
    res.assumptions = ['the standard streams behave as specified']
    return res
