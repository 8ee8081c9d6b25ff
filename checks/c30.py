"""C30: a message goes to exactly one place, the one its destination names"""
import fx, harness, names, spec, flow, ref, cont, lin
from flow import C, ZERO, THIS
from c23 import AM
from c25 import Command, Handles, does, own, size, Q
from c26 import PARENT, flat

H = 'helics::'
CB, CC, BB = H + 'CoreBroker::', H + 'CommonCore::', H + 'BrokerBase::'
UP = ('l', ('g', H + 'parent_route_id'))
HIGHER, ME = own(BB, 'higher_broker_id'), own(BB, 'global_broker_id_local')
PLACES = ('transmit', 'addAction', 'processPostTerminationAction', 'handleMessage', 'processCommandsForCore', 'routeMessage')


class Way(Command):
    keyed = ('getRoute', 'isLocal', 'getFederateCore', 'hasTimeBlock', 'fillMessageRouteInformation')


def unknown(s, dest):
    """it is known that nobody is named"""
    if flow.known_eq(s, dest, ('k', H + 'GlobalFederateId', ())) is True:
        return True
    for k, v in s.facts.items():
        if k[0] in ('=', 'eq') and k[1][0] == 'l' and k[1][1][0] == 'f' and ('l', k[1][1][1]) == dest:
            if k[0] == '=' and v[0] == 'c' and v[1] in (-1700000000, -2010000000):
                return True
    return False


def routed(res, prog, cls, core):
    fns = prog.fns(cls + 'routeMessage')
    if len(fns) < 2:
        raise fx.Broken('anchor vanished: ' + cls + 'routeMessage')
    for fn in fns:
        cmd = ('v', fn.params[0]['d'], (fn.line,))
        dest = ('l', ('v', fn.params[1]['d'], (fn.line,))) if len(fn.params) == 2 else ('l', ('f', cmd, AM + 'dest_id'))
        local, fed = Q('isLocal', dest), Q('getFederateCore', dest)
        state = Q('getState', ('l', ('d', fed)))
        S = names.enum_values(prog, H + 'FederateStates')
        other = [(own(CC, 'filterFedID'), 'filterFed'), (own(CC, 'translatorFedID'), 'translatorFed')] if core else []

        def ex(x):
            went = [e for e in x.all() if e[0] in ('does', 'twice') and e[1] in PLACES and any(v[0] == 'msg' and v[1] == ('l', ('f', cmd, AM + 'messageAction')) for v in e[3:] if isinstance(v, tuple))]
            x.need(not any(e[0] == 'twice' for e in went) and len(went) <= 1, 'a message goes to more than one place')
            res.count('ways', len(went))
            if not went:
                if unknown(x.st, dest):
                    return
                x.need(core and x.truth(local) is True and x.truth(fed) is False, 'a message is not passed on')
                return
            for e in went:
                m = [v for v in e[3:] if isinstance(v, tuple) and v[0] == 'msg'][0]
                x.need(m[3] == dest and m[2] == ('l', ('f', cmd, AM + 'source_id')) and m[4] == ('l', ('f', cmd, AM + 'flags')) or m[5] == cmd and m[3] == dest, 'a message is passed on changed')
                up = lambda q: q.eq(dest, PARENT) or q.eq(dest, HIGHER)

                def right(q):
                    if e[1] == 'transmit':
                        if e[3] == UP:
                            return up(q)
                        if e[3] != Q('getRoute', dest):
                            return False
                        return not core or not up(q) and not q.eq(dest, ME) and not any(q.eq(dest, o) for o, f in other) and not q.is_(local)
                    if e[1] == 'processCommandsForCore':
                        return q.eq(dest, ME)
                    if e[1] == 'handleMessage':
                        return any(f in str(e[2]) and q.eq(dest, o) for o, f in other)
                    if e[2] != ('d', fed) or not q.is_(local):
                        return False
                    if e[1] == 'addAction':
                        return not q.eq(state, C(S['FINISHED']))
                    return q.eq(state, C(S['FINISHED'])) or q.eq(state, C(S['ERRORED']))
                for s, w in ref.cases(x.st, right):
                    res.count('cases')
                    x.need(w, 'a message goes to another place than its destination')
        spec.check(res, 'C30', prog, fn, cls=Way, quiet=Handles.QUIET, exit=ex, asks=('getRoute', 'isLocal', 'getFederateCore', 'getState'), does=PLACES)


def route(res, prog, cls, core):
    """the way to somebody is the one noted for him, or up"""
    fn = prog.fn(cls + 'getRoute')
    who = ('l', ('v', fn.params[0]['d'], (fn.line,)))
    table = ('f', THIS, cls + 'routing_table')
    noted = ('l', ('f', ('d', ('it', table, who)), 'std::pair::second'))
    seen = set()

    def ex(x):
        up = flow.known_eq(x.st, who, PARENT) is True or flow.known_eq(x.st, who, HIGHER) is True
        seen.add(x.ret)
        x.need(x.ret in (UP, noted), 'the way to somebody is another one than noted')
        if up:
            x.need(x.ret == UP, 'what is for the one above does not go up')
        if x.ret == noted:
            x.need(core or flow.known_eq(x.st, who, PARENT) is False and flow.known_eq(x.st, who, HIGHER) is False, 'what is for the one above does not go up')
    spec.check(res, 'C30', prog, fn, cls=Way, exit=ex)
    if seen != {UP, noted}:
        res.add('C30|%s|noted' % fn.short, '%s: %s: the way that was noted for somebody is not used' % (fn.loc(), fn.short))


# what every broker passes on unless it is for it
PASS = ('cmd_ping', 'cmd_broker_ping', 'cmd_ping_reply', 'cmd_log', 'cmd_remote_log', 'cmd_grant_timeout_check', 'cmd_time_request', 'cmd_time_grant', 'cmd_request_current_time', 'cmd_exec_request',
        'cmd_exec_grant', 'cmd_add_dependency', 'cmd_remove_dependency', 'cmd_add_dependent', 'cmd_remove_dependent', 'cmd_add_interdependency', 'cmd_remove_interdependency', 'cmd_timing_info',
        'cmd_add_endpoint', 'cmd_add_filter', 'cmd_add_subscriber', 'cmd_add_publisher', 'cmd_remove_publication', 'cmd_remove_subscriber', 'cmd_remove_filter', 'cmd_remove_endpoint',
        'cmd_dest_filter_result', 'cmd_null_dest_message', 'cmd_warning')
ALWAYS = ('cmd_pub',)
NAMED = ('cmd_send_message', 'cmd_send_for_filter', 'cmd_send_for_filter_return', 'cmd_filter_result', 'cmd_null_message')
QUIET = Handles.QUIET + ('processTimeMessage', 'checkExecEntry', 'updateTimeFactors', 'grantTimeoutCheck', 'processDependencyUpdateMessage', 'generateTimeBarrier', 'processTimeMonitorMessage', 'pingReply',
                         'pingSub', 'generateJsonString', 'getDependents', 'tick', 'checkQueryTimeouts')


def brokers(res, prog):
    h = Handles(res, prog, CB + 'processCommand')
    dest, src = h.m('dest_id'), h.m('source_id')
    TM = own(CB, 'mTimeMonitorLocalFederateId')
    fill = None
    for a in PASS + ALWAYS + NAMED:
        if a not in h.A:
            raise fx.Broken('anchor vanished: ' + a)

        def passed(x, effs):
            out = []
            for n in ('routeMessage', 'transmit'):
                for v in does(x, n, effs):
                    ms = [m for m in v if isinstance(m, tuple) and m[0] == 'msg' and m[1] == C(h.A[a]) and m[5] == h.cmd]
                    if ms:
                        out.append((n, v, ms[0]))
            return out

        def ex(x):
            went = passed(x, None)
            way = Q('fillMessageRouteInformation', [e for e in x.all() if e[0] == 'ask' and e[1] == 'fillMessageRouteInformation'][0][2]) if any(e[0] == 'ask' and e[1] == 'fillMessageRouteInformation' for e in x.all()) else None

            def want(q):
                if a in ALWAYS:
                    return 'pass'
                if a in NAMED:
                    if not q.eq(dest, PARENT):
                        return 'pass'
                    if way is not None and a == 'cmd_send_message' and q.eq(way, UP) and q.is_(own(CB, 'isRootc')):
                        return 'drop'
                    return 'find'
                if q.eq(dest, ME):
                    return 'own'
                if q.eq(dest, PARENT) or q.eq(dest, TM) or q.eq(src, ME):
                    return 'open'
                return 'pass'
            for s, w in ref.cases(x.st, want):
                res.count('cases')
                if w == 'open':
                    continue
                if w in ('own', 'drop'):
                    x.need(not went, 'a message that is for the broker itself is passed on' if w == 'own' else 'a message for nobody known is passed on')
                    if w == 'drop':
                        for s2, tell in ref.cases(s, lambda q: not h.bit(q, 'optional_flag') and (h.bit(q, 'required_flag') and 'cmd_error' or 'cmd_warning')):
                            r = [(v, m) for v in does(x, 'transmit') for m in v if isinstance(m, tuple) and m[0] == 'msg']
                            x.need(len(r) == int(bool(tell)), 'who sends to somebody nobody knows is not told so, once' if tell else 'a message that may be lost is complained about')
                            x.need(all(tell and m[1] == C(h.A[tell]) and m[3] == src and v[0] == Q('getRoute', src) for v, m in r), 'that a message was dropped is told to somebody else or as something else')
                    if w == 'own' and a in ('cmd_ping', 'cmd_broker_ping'):
                        r = [m for v in does(x, 'routeMessage') for m in v if isinstance(m, tuple) and m[0] == 'msg']
                        x.need(len(r) == 1 and r[0][1] == C(h.A['cmd_ping_reply']) and r[0][3] == src and r[0][2] == ME, 'a ping is not answered once to the one who asked')
                    continue
                x.need(len(went) == 1, 'a message for another is passed on %s' % ('more than once' if went else 'not at all'))
                for n, v, m in went:
                    if w == 'find':
                        x.need(n == 'transmit' and way is not None and v[0] == way, 'a message for a name is not sent where the name is known')
                    else:
                        x.need(m[3] == dest and (n == 'routeMessage' and len([k for k in v if k != ZERO]) == 1 or n == 'transmit' and v[0] == Q('getRoute', dest)), 'a message for another is sent to another place')
        spec.check(res, 'C30', prog, h.fn, cls=Way, quiet=QUIET, exit=ex, each=lambda x: None, env={('f', h.cmd, AM + 'messageAction'): C(h.A[a])},
                   asks=('getRoute', 'fillMessageRouteInformation', 'getBrokerState', 'isLocal'), does=('routeMessage', 'transmit', 'broadcast'))


CORE = ('cmd_time_request', 'cmd_time_grant', 'cmd_grant_timeout_check', 'cmd_pub', 'cmd_set_profiler_flag', 'cmd_add_dependency', 'cmd_remove_dependency', 'cmd_add_dependent',
        'cmd_remove_dependent', 'cmd_add_interdependency', 'cmd_remove_interdependency', 'cmd_timing_info')


def cores(res, prog):
    h = Handles(res, prog, CC + 'processCommand')
    src = h.m('source_id')
    kept = 'delayedTimingMessages'
    for a in CORE:
        def ex(x):
            went = [m for v in does(x, 'routeMessage') for m in v if isinstance(m, tuple) and m[0] == 'msg']
            put = [e for e in x.all() if e[0] == 'mut' and e[2] in ('push_back', 'emplace_back', 'insert') and kept in str(e[1])]

            def want(q):
                if a in ('cmd_time_request', 'cmd_time_grant') and q.is_(Q('isLocal', src)) and q.is_(Q('hasTimeBlock', src)):
                    return 0
                return 1
            for s, w in ref.cases(x.st, want):
                res.count('cases')
                x.need(len(went) == w and len(put) == 1 - w, 'a message is neither passed on nor kept, once' if w else 'a time message of one who is blocked is not kept')
                x.need(all(flow.contains(e[1], ('f', h.cmd, AM + 'source_id')) and ('l', h.cmd) in flat(e[3]) for e in put), 'a time message is kept for somebody else or changed')
                x.need(all(m[5] == h.cmd and m[1] == C(h.A[a]) and m[3] == h.m('dest_id') for m in went), 'a message is passed on changed')
        spec.check(res, 'C30', prog, h.fn, cls=Way, quiet=QUIET + ('store',), exit=ex, env={('f', h.cmd, AM + 'messageAction'): C(h.A[a])}, asks=('isLocal', 'hasTimeBlock'), does=('routeMessage', 'transmit', 'broadcast'))


class Counted(Way):
    """what is counted up or down is known"""

    def on_incr(self, eng, st, fr, i, loc, val):
        if loc[0] == 'f' and loc[2] == 'std::pair::second':
            return ('op', '+', val, C(1 if fr.fn.nodes[i]['op'] == '++' else -1))
        return super().on_incr(eng, st, fr, i, loc, val)

    def on_compound(self, eng, st, fr, i, loc, op, val):
        if loc[0] == 'f' and loc[2] == 'std::pair::second' and op in '+-':
            return ('op', op, eng.read(st, loc), val)
        return super().on_compound(eng, st, fr, i, loc, op, val)


def blocks(res, prog):
    """time messages are kept while a federate is blocked as often as it was unblocked, and then passed on in order"""
    A = names.enum_values(prog, H + 'action_message_def::action_t')
    lst = ('f', THIS, CC + 'timeBlocks')
    e = cont.el(lst)
    who, n = ('f', e, 'std::pair::first'), ('f', e, 'std::pair::second')
    fn = prog.fn(CC + 'hasTimeBlock')
    fed = ('l', ('v', fn.params[0]['d'], (fn.line,)))

    def ex(x):
        inside = x.st.env.get(('in', lst)) == C(1) and lst not in x.done()
        if not inside:
            x.need(x.truth(x.ret) is False and (lst in x.done() or x.eq(size(lst), ZERO)), 'somebody is blocked whom nobody blocked')
            return
        for s, w in ref.cases(x.st, lambda q: q.eq(fed, ('l', who)) and not q.eq(('l', n), ZERO)):
            x.need(x.truth(x.ret) is bool(w), 'whether somebody is blocked is not told as it is')
            x.need(flow.known_eq(s, fed, ('l', who)) is True, 'another is taken for the one who is blocked')
    spec.check(res, 'C30', prog, fn, cls=Way, exit=ex, each=lambda x: x.need(x.eq(fed, ('l', who)) is False, 'one who is blocked is passed over'))
    fn = prog.fn(CC + 'manageTimeBlocks')
    cmd = ('v', fn.params[0]['d'], (fn.line,))
    src = ('l', ('f', cmd, AM + 'source_id'))
    for a in ('cmd_time_block', 'cmd_time_unblock'):
        def each(x):
            v, out = x.val(n), does(x, 'transmitDelayedMessages', x.effs)
            for s, w in ref.cases(x.st, lambda q: q.eq(src, ('l', who))):
                res.count('cases')
                if not w:
                    x.need(v == ('l', n) and not out, 'a block of another is changed')
                elif a == 'cmd_time_block':
                    x.need(lin.same(v, ('op', '+', ('l', n), C(1))) and not out, 'a block is not counted')
                else:
                    less = ('op', '+', ('l', n), C(-1))
                    rest = ref.cases(s, lambda q: not q.lt(ZERO, less))
                    for s2, last in rest:
                        x.need(len(out) == int(last) and all(o[0] == src for o in out), 'what is kept is passed on while a block remains, or not when the last one ends')
                        x.need(lin.same(v, ZERO if last else less) or last and flow.known_eq(s2, v, ZERO) is True, 'the end of a block is not counted')

        def ex(x):
            x.need(lst in x.done() or x.eq(size(lst), ZERO) or x.st.env.get(('in', lst)) == C(1), 'not all blocks are looked at')
            new = [m for m in x.muts(lst) if m[2] in ('emplace_back', 'push_back')]
            if a == 'cmd_time_unblock':
                x.need(not new, 'the end of a block blocks')
            else:
                x.need(len(new) <= 1 and all(src in flat(m[3]) and C(1) in flat(m[3]) for m in new), 'somebody else is blocked')
                if x.eq(size(lst), ZERO) is True and lst not in x.done():
                    x.need(len(new) == 1, 'a first block is not noted')
        spec.check(res, 'C30', prog, fn, cls=Counted, exit=ex, each=each, does=('transmitDelayedMessages',), env={('f', cmd, AM + 'messageAction'): C(A[a])})


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/CoreBroker.cpp'], [])
    routed(res, prog, CB, False)
    route(res, prog, CB, False)
    brokers(res, prog)
    prog = fx.load(['core/CommonCore.cpp'], [])
    routed(res, prog, CC, True)
    route(res, prog, CC, True)
    cores(res, prog)
    blocks(res, prog)
    return res
