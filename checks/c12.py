"""C12: commands, their kinds and flags"""
import re
import fx, harness, names, table, flow
from flow import C

A = 'helics::ActionMessage::'
PRIORITY = ('priority_disconnect fed_ack broker_ack add_route route_ack register_route reg_fed priority_ack query set_global broker_query interface_query query_reply '
            'reg_broker send_command command_response broker_setup ping_priority protocol_priority').split()
KIND = {
    'isProtocolCommand': 'protocol protocol_priority protocol_big',
    'isTimingCommand': 'disconnect broadcast_disconnect disconnect_core disconnect_broker disconnect_fed time_grant time_request exec_grant exec_request '
                       'priority_disconnect terminate_immediately error local_error global_error timing_info',
    'isDependencyCommand': 'add_dependency remove_dependency add_dependent remove_dependent add_interdependency remove_interdependency',
    'isDisconnectCommand': 'disconnect disconnect_check disconnect_name user_disconnect disconnect_fed disconnect_core priority_disconnect terminate_immediately '
                           'remove_filter remove_endpoint disconnect_fed_ack disconnect_core_ack disconnect_broker_ack disconnect_broker broadcast_disconnect stop',
    'isErrorCommand': 'error local_error global_error'}
KIND['isIgnoreableCommand'] = KIND['isDisconnectCommand'] + ' ' + KIND['isErrorCommand'] + ' log warning remote_log time_request request_current_time'
MACRO = {'CMD_REG_ROUTE': 'cmd_register_route', 'CMD_SEND_FOR_FILTER_AND_RETURN': 'cmd_send_for_filter_return', 'CMD_REG_ENDPOINT': 'cmd_reg_end',
         'CMD_SEND_FOR_DEST_FILTER_AND_RETURN': 'cmd_send_for_dest_filter_return'}
TEXT = {'cmd_ping_reply': 'ping reply', 'cmd_filter_link': 'link filter', 'cmd_data_link': 'data link', 'cmd_remove_publication': 'remove publisher',
        'cmd_null_dest_message': 'null destination message', 'cmd_time_barrier_request': 'request time barrier', 'cmd_time_barrier_clear': 'clear time barrier',
        'cmd_resend': 'reg_resend', 'cmd_disconnect_name': 'disconnect by name', 'cmd_user_disconnect': 'disconnect from user',
        'cmd_disconnect_broker_ack': 'disconnect broker acknowledge', 'cmd_disconnect_core_ack': 'disconnect core acknowledge',
        'cmd_disconnect_fed_ack': 'disconnect fed acknowledge', 'cmd_filter_result': 'result from running a filter'}
ERR = {-2: 'connection error result', -5: 'lost connection with server', 5: 'already in initialization mode', 6: 'duplicate federate name detected',
       7: 'duplicate broker name detected', 9: 'Broker key does not match', 11: 'the maximum number of federates has been reached',
       13: 'the maximum number of brokers or cores has been reached'}
ITER = {'NO_ITERATIONS': (), 'FORCE_ITERATION': ('iteration_requested_flag', 'required_flag'), 'ITERATE_IF_NEEDED': ('iteration_requested_flag',), 'HALT_OPERATIONS': (),
        'ERROR_CONDITION': ('error_flag',)}


def bit(t, word, b):
    """0, 1, 'same' or None: bit b of a term over the flag word"""
    if t == word:
        return 'same'
    if t[0] == 'c':
        return (t[1] >> b) & 1
    if t[0] == 'op' and len(t) == 4:
        x, y = bit(t[2], word, b), bit(t[3], word, b)
        if t[1] == '|':
            return 1 if 1 in (x, y) else x if y == 0 else y if x == 0 else None
        if t[1] == '&':
            return 0 if 0 in (x, y) else x if y == 1 else y if x == 1 else None
        if t[1] == '^':
            return x if y == 0 else y if x == 0 else 'flip' if y == 1 and x == 'same' or x == 1 and y == 'same' else None
    if t[0] == 'op' and len(t) == 3 and t[1] == '~':
        x = bit(t[2], word, b)
        return 1 - x if x in (0, 1) else 'flip' if x == 'same' else None
    return None


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ActionMessage.cpp'], ['flags.cpp'])
    e = names.Expect(res, 'C12', prog)
    E = names.enum_values(prog, 'helics::action_message_def::action_t')
    en = prog.enum('helics::action_message_def::action_t')
    where = fx.rel(en['f']) if 'f' in en else 'src/helics/core/ActionMessageDefintions.hpp'
    # codes and constants
    seen = {}
    for k, v in E.items():
        res.count('commands')
        if v in seen:
            res.add('C12|code|%s' % k, '%s: %s and %s have the same code %d' % (where, seen[v], k, v))
        seen.setdefault(v, k)
        if (k[4:] in PRIORITY) != (v < 0) and k != 'priority_null_info_command':
            res.add('C12|priority|%s' % k, '%s: %s %s' % (where, k, 'is no priority command but has a negative code' if v < 0 else 'is a priority command but has no negative code'))
    mac = {k: v for k, v in fx.macros('core/ActionMessage.cpp').items() if k.startswith('CMD_')}
    used = {}
    for k, (par, text) in sorted(mac.items()):
        m = re.match(r'^\(?\s*(?:helics::)?action_message_def::action_t::(\w+)\s*\)?$', text)
        if not m or m.group(1) not in E:
            continue
        res.count('command constants')
        want = k.lower() if k.lower() in E else MACRO.get(k)
        if want in E and E[want] != E[m.group(1)]:
            res.add('C12|%s' % k, '%s: %s names the command %s instead of %s' % (where, k, m.group(1), want))
        elif used.setdefault(E[m.group(1)], k) != k:
            res.add('C12|%s' % k, '%s: %s and %s name the same command' % (where, k, used[E[m.group(1)]]))
    # kinds
    def loc(fn, k, f):
        return ('f', ('v', fn.params[k]['d'], (fn.line,)), A + f)

    def ask(fn, v):
        out, h = table.results(prog, fn, {}, this={loc(fn, 0, 'messageAction'): C(v)})
        return out
    for f, l in list(KIND.items()) + [('isPriorityCommand', None), ('isValidCommand', None)]:
        fn = prog.fn('helics::' + f)
        yes = {E['cmd_' + x] for x in l.split()} if l else None
        for k, v in list(E.items()) + [('code %d' % c, c) for c in (-2**31, -7, 7777777, 2**31 - 1)]:
            if f == 'isPriorityCommand':
                want = v < 0
            elif f == 'isValidCommand':
                want = k != 'cmd_invalid'
            else:
                want = v in yes
            if f in ('isDisconnectCommand', 'isIgnoreableCommand') and k == 'cmd_time_grant':
                for val, x in ask(fn, v):
                    res.count('cases')
                    eq = [b for a, b in x.st.facts.items() if a[0] == 'eq' and flow.contains(a, loc(fn, 0, 'actionTime')) and 'maxVal' in str(a)]
                    if val is not None and val[0] == 'c' and (not eq and val[1] or eq and bool(eq[0]) != bool(val[1])):
                        res.add('C12|%s|grant' % f, '%s: %s: a time grant counts although it is not for the maximum time, or does not at the maximum time' % (fn.loc(), f))
                continue
            res.count('cases')
            for val, x in ask(fn, v):
                if val is not None and val[0] == 'c' and bool(val[1]) != want:
                    res.add('C12|%s|%s' % (f, k), '%s: %s says %s for %s' % (fn.loc(), f, 'yes' if val[1] else 'no', k))
                    break
    # printed texts
    amt, ces = prog.fn('helics::actionMessageType'), prog.fn('helics::commandErrorString')
    by = {}
    for k, v in list(E.items()) + [(None, -777), (None, 123456)]:
        dec, sure = e.get(amt, C(v))
        res.count('cases')
        for t in dec:
            if t[0] != 's':
                continue
            n = names.norm(t[1]).replace(' ', '')
            own = names.norm(k[4:] if k.startswith('cmd_') else k.replace('_command', '')) if k else None
            other = [q for q in E if names.norm(q[4:] if q.startswith('cmd_') else q.replace('_command', '')) == n]
            if t[1] == 'unknown':
                if k in TEXT:
                    res.add('C12|text|%s' % k, '%s: %s is printed as unknown' % (amt.loc(), k))
                continue
            if k is None:
                res.add('C12|text|none', '%s: a code that is no command is printed as "%s"' % (amt.loc(), t[1]))
            elif by.setdefault(t[1], k) != k:
                res.add('C12|text|%s' % k, '%s: %s and %s are both printed as "%s"' % (amt.loc(), by[t[1]], k, t[1]))
            elif n != own and other:
                res.add('C12|text|%s' % k, '%s: %s is printed as "%s"' % (amt.loc(), k, t[1]))
    for k, t in TEXT.items():
        if k in E:
            e(amt, (C(E[k]),), ('s', t), k)
    for v in set(ERR) | set(range(-8, 20)):
        if v in ERR:
            e(ces, (C(v),), ('s', ERR[v]), 'the error code %d' % v)
        else:
            dec, sure = e.get(ces, C(v))
            res.count('cases')
            if dec and any(t[0] == 's' and t[1] in ERR.values() for t in dec):
                res.add('C12|error|%d' % v, '%s: the code %d is described as "%s"' % (ces.loc(), v, dec[0][1]))
    # flags
    F = {}
    for n, q in prog.enums.items():
        for x in q['e']:
            if n.startswith('helics::') and n.endswith('Flags') and x[0].endswith(('_flag', '_flag1', '_flag2', '_flag3')):
                F[x[0]] = x[1]
                if not 0 <= x[1] <= 15:
                    res.add('C12|flag|%s' % x[0], '%s: %s is %d, not a bit of the 16 bit flag word' % (fx.rel(q['f']) if 'f' in q else n, x[0], x[1]))
    for a in ('iteration_requested_flag', 'required_flag', 'error_flag'):
        if a not in F:
            raise fx.Broken('anchor vanished: ' + a)
    for w, what in (('setFlag', 'set'), ('clearFlag', 'clear'), ('toggleFlag', 'toggle')):
        fn = prog.fn('witness::' + w)
        word = ('l', loc(fn, 0, 'flags'))
        for b in range(16):
            out, h = table.results(prog, fn, {1: C(b)})
            for v, x in out:
                t = x.val(loc(fn, 0, 'flags'))
                res.count('flag cases')
                on = x.truth(flow.rel_term('!=', ('op', '&', word, C(1 << b)), C(0)))
                for q in range(16):
                    g = bit(t, word, q)
                    if q != b:
                        ok = g == 'same'
                    elif what == 'toggle':
                        ok = g == 'flip' or on is not None and g == (0 if on else 1)
                    else:
                        ok = g == (1 if what == 'set' else 0)
                    if not ok and g is not None:
                        res.add('C12|%s' % w, '%s: the helper to %s a flag does not do that to bit %d when asked for bit %d' % (
                            prog.fns('helics::%sActionFlag' % what)[0].loc() if prog.fns('helics::%sActionFlag' % what) else fn.loc(), what, q, b))
    for w in ('checkFlag', 'checkWord'):
        fn = prog.fn('witness::' + w)
        word = ('l', loc(fn, 0, 'flags')) if w == 'checkFlag' else ('l', ('v', fn.params[0]['d'], (fn.line,)))
        for b in range(16):
            out, h = table.results(prog, fn, {1: C(b)})
            for v, x in out:
                res.count('flag cases')
                on = x.truth(flow.rel_term('!=', ('op', '&', word, C(1 << b)), C(0)))
                got = x.truth(x.ret) if x.ret is not None else None
                if got is not None and on is not got:
                    res.add('C12|%s' % w, '%s: testing bit %d does not say whether it is set' % (fn.loc(), b))
    fn = prog.fn('helics::setIterationFlags')
    I = names.enum_values(prog, 'helics::IterationRequest')
    for k, fl in ITER.items():
        bits = sum(1 << F[a] for a in fl)
        word = ('l', loc(fn, 0, 'flags'))
        out, h = table.results(prog, fn, {1: C(I[k])})
        for v, x in out:
            t = x.val(loc(fn, 0, 'flags'))
            res.count('flag cases')
            for q in range(16):
                g = bit(t, word, q)
                if g is not None and g != (1 if (bits >> q) & 1 else 'same'):
                    res.add('C12|iteration|%s' % k, '%s: an iteration request of kind %s %s bit %d' % (fn.loc(), k, 'does not set' if (bits >> q) & 1 else 'changes', q))
    # order of messages
    lt = prog.fn('helics::operator<')
    for v, x in table.results(prog, lt, {})[0]:
        a, b = ('l', loc(lt, 0, 'actionTime')), ('l', loc(lt, 1, 'actionTime'))
        if v is not None and v[0] == 'c' and x.lt(a, b) is not bool(v[1]):
            res.add('C12|order', '%s: messages are not ordered by their time' % lt.loc())
    res.need('commands', 120)
    res.need('cases', 1000)
    res.rules = ['constant propagation of every command code through the predicates and the text tables; the macro of each command compared with its enumerator; '
                 'flag helpers interpreted for each bit, the resulting word compared bit by bit']
    return res
