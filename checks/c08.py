"""C08: core type names"""
import fx, harness, names
from flow import C

NAMES = {
    'DEFAULT': 'default def', 'MPI': 'mpi message_passing_interface', 'ZMQ': 'zmq 0mq zeromq',
    'ZMQ_SS': 'zeromq_ss zmqss zmq_ss 0mq_ss 0mqss zeromq2 zmq2', 'INTERPROCESS': 'interprocess ipc interproc', 'TCP': 'tcp tcpip',
    'TCP_SS': 'tcpss tcpipss tcp_ss tcpip_ss single_socket ss', 'UDP': 'udp', 'TEST': 'test local test1', 'INPROC': 'inprocess inproc',
    'WEBSOCKET': 'websocket web', 'NNG': 'nng', 'NULLCORE': 'null nullcore none', 'EMPTY': 'empty', 'HTTP': 'http', 'MULTI': 'multi'}
PREFIX = {'zmqss': 'ZMQ_SS', 'zmq_ss': 'ZMQ_SS', 'zmq2': 'ZMQ_SS', 'zmq': 'ZMQ', 'ipc': 'INTERPROCESS', 'test': 'TEST', 'tcpss': 'TCP_SS', 'tcp': 'TCP',
          'udp': 'UDP', 'http': 'HTTP', 'mpi': 'MPI', 'inproc': 'INPROC', 'web': 'WEBSOCKET', 'null': 'NULLCORE'}
WILD = ['any', 'all', 'data', 'string', 'block', '', 'def', 'default', 'def_1']


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/coreTypeOperations.cpp', 'application_api/typeOperations.cpp'])
    T = {k: C(v) for k, v in names.enum_values(prog, 'helics::CoreType').items()}
    for k in list(NAMES) + ['UNRECOGNIZED']:
        if k not in T:
            raise fx.Broken('anchor vanished: CoreType::' + k)
    e = names.Expect(res, 'C08', prog)
    N = 'helics::core::'
    tostr, parse, avail, match = [prog.fn(N + f) for f in ('to_string', 'coreTypeFromString', 'isCoreTypeAvailable', 'matchingTypes')]
    same = {T['IPC']: [T['IPC'], T['INTERPROCESS']]}     # documented as the same type
    s = lambda t: ('s', t)
    for k, l in NAMES.items():
        for n in l.split() + (['single socket'] if k == 'TCP_SS' else []):
            for v in {n, n.upper(), n.capitalize()}:
                e(parse, (s(v),), T[k], 'the name "%s"' % v)
            for pre in '-=':
                e(parse, (s(pre + n),), T[k], 'the name "%s%s"' % (pre, n))
    # printing and reading back
    seen = {}
    for k, v in T.items():
        dec, sure = e.get(tostr, v)
        res.count('types')
        for t in dec:
            if t[0] == 's' and t[1]:
                e(parse, (t,), same.get(v, [v]), 'reading back the printed name "%s" of %s' % (t[1], k))
                if seen.setdefault(t[1], v) != v and k != 'IPC' and seen[t[1]] != T['IPC']:
                    res.add('C08|to_string|%s' % t[1], '%s: two core types print as "%s"' % (tostr.loc(), t[1]))
            elif t[0] == 's' and k in NAMES and k not in ('DEFAULT', 'MULTI'):
                res.add('C08|to_string|%s' % k, '%s: core type %s has no printed name' % (tostr.loc(), k))
    # names that continue
    for p, k in PREFIX.items():
        longer = {T[x] for q, x in PREFIX.items() if q.startswith(p)}
        listed = {T[x] for x, l in NAMES.items() for n in l.split() if n.startswith(p)}
        e(parse, (('pre', p),), list(longer | listed), 'a name beginning with "%s"' % p)
        for q in ('_core7', '8x'):
            if not any(o.startswith(p + q[0]) for o in PREFIX):
                e(parse, (s(p + q),), T[k], 'the name "%s"' % (p + q))
    for n in ('bob', 'qqq', 'z', 't', 'tc', '_', 'x_', 'mp'):
        e(parse, (s(n),), T['UNRECOGNIZED'], 'the name "%s"' % n)
    e(parse, (s(''),), T['DEFAULT'], 'the empty name')
    # availability
    for k in ('DEFAULT', 'EMPTY'):
        e(avail, (T[k],), C(1), k)
    for k in ('NULLCORE', 'HTTP', 'WEBSOCKET', 'UNRECOGNIZED'):
        e(avail, (T[k],), C(0), k)
    for a, b in (('ZMQ', 'ZMQ_SS'), ('TCP', 'TCP_SS'), ('INTERPROCESS', 'IPC')):
        da, db = e.get(avail, T[a]), e.get(avail, T[b])
        res.count('cases')
        if da[1] and db[1] and da[0] != db[0]:
            res.add('C08|available|' + b, '%s: %s and %s differ in availability' % (avail.loc(), a, b))
    # data type matching is symmetric, types match themselves and the wildcards, and nothing else
    kinds = WILD + ['double', 'int64', 'dat', 'de', 'anything', 'Any']
    for a in kinds:
        for b in kinds:
            want = a == b or a in WILD or b in WILD
            e(match, (s(a), s(b)), C(1 if want else 0), 'matching "%s" with "%s"' % (a, b))
    for a in ('double', 'any'):
        e(match, (s(a), ('pre', 'def')), C(1), 'matching "%s" with a name beginning with "def"' % a)
        e(match, (('pre', 'def'), s(a)), C(1), 'matching a name beginning with "def" with "%s"' % a)
    it = prog.fn('helics::interfaceTypeName')
    I = names.enum_values(prog, 'helics::InterfaceType')
    for k, v in I.items():
        if k in ('PUBLICATION', 'ENDPOINT', 'INPUT', 'FILTER', 'TRANSLATOR'):
            e(it, (C(v),), s(k.capitalize()), k)
    # the application interface asks the same functions
    for f, g in (('to_string', tostr), ('coreTypeFromString', parse), ('isCoreTypeAvailable', avail)):
        for w in prog.fns('helics::' + f):
            if len(w.params) != 1:
                continue
            t = w.params[0]['t']
            for k, v in T.items():
                arg = s(NAMES[k].split()[0]) if f == 'coreTypeFromString' and k in NAMES else v
                if arg[0] == 's' or 'CoreType' in t:
                    dec, sure = e.get(g, arg)
                    if sure and ('CoreType' in t) == (arg[0] == 'c'):
                        e(w, (arg,), list(dec), 'for %s' % k)
    res.need('cases', 400)
    if res.analysed.get('cases decided', 0) * 2 < res.analysed['cases']:
        raise fx.Broken('less than half of the names could be decided')
    res.rules = ['constant propagation over names (known exactly or by their beginning) and enumerators through the lookup functions and the constant tables '
                 'they use: each documented name in each spelling, each printed name, each documented beginning, all pairs of wildcard and other data types']
    res.assumptions = ['the table lookups of frozen and the standard library find an entry exactly when the key is listed']
    return res
