"""C09: default ports and socket type names"""
import fx, harness, names
from flow import C

PORT = {'TCP': 24160, 'TCP_SS': 33133, 'ZMQ': 23404, 'ZMQ_SS': 23414, 'UDP': 23901, 'HTTP': 80, 'WEBSOCKET': 80}
BACKUP = {'BACKUP_ZMQ_PORT': 23406, 'BACKUP_ZMQSS_PORT': 23814, 'BACKUP_TCP_PORT': 24161, 'BACKUP_UDP_PORT': 23902}
SOCK = {'req': 'req request', 'rep': 'rep reply', 'dealer': 'dealer', 'router': 'router', 'pub': 'pub publish', 'sub': 'sub subscribe', 'xpub': 'xpub',
        'xsub': 'xsub', 'push': 'push', 'pull': 'pull', 'pair': 'pair', 'stream': 'stream'}


def run(tier):
    res = harness.Result()
    prog = fx.load(['network/networkDefaults.cpp', 'network/zmq/ZmqHelper.cpp'])
    e = names.Expect(res, 'C09', prog)
    port = prog.fn('helics::getDefaultPort')
    T = None
    for n, en in prog.enums.items():
        d = {x[0]: x[1] for x in en['e']}
        if 'HELICS_CORE_TYPE_TCP_SS' in d:
            T = d
    if T is None:
        raise fx.Broken('anchor vanished: HELICS_CORE_TYPE_*')
    seen = set()
    for k, v in T.items():
        s = k[len('HELICS_CORE_TYPE_'):]
        e(port, (C(v),), C(PORT.get(s, -1)), s)
        seen.add(v)
    for v in list(range(-3, 60)) + [-2**31, 2**31 - 1, 1000]:
        if v not in seen:
            e(port, (C(v),), C(-1), 'core type code %d' % v)
    # named constants: a service has a port of its own
    val = {}
    for n, g in prog.globals.items():
        if n.startswith('helics::network::') and n.endswith('_PORT') and 'v' in g:
            val[n.split('::')[-1]] = (g['v'], '%s:%d' % (fx.rel(g['f']) if not g['f'].startswith('src') else g['f'], g['l']))
    for k, w in BACKUP.items():
        res.count('cases')
        if k in val and val[k][0] != w:
            res.add('C09|%s' % k, '%s: %s is %d, documented as %d' % (val[k][1], k, val[k][0], w))
    for a in val:
        for b in val:
            if a < b and val[a][0] == val[b][0]:
                res.add('C09|%s|%s' % (a, b), '%s: %s and %s are the same port' % (val[b][1], a, b))
    sock = prog.fn('socketTypeFromString')
    S = names.enum_values(prog, 'zmq::socket_type') if 'zmq::socket_type' in prog.enums else None
    Z = {'pair': 0, 'pub': 1, 'sub': 2, 'req': 3, 'rep': 4, 'dealer': 5, 'router': 6, 'pull': 7, 'push': 8, 'xpub': 9, 'xsub': 10, 'stream': 11}
    for k, l in SOCK.items():
        for n in l.split():
            for v in {n, n.upper(), n.capitalize(), n[:1] + n[1:].upper()}:
                e(sock, (('s', v),), C((S or Z)[k]), 'the name "%s"' % v)
    res.need('cases', 130)
    if res.analysed.get('cases decided', 0) * 2 < res.analysed['cases']:
        raise fx.Broken('less than half of the cases could be decided')
    res.rules = ['constant propagation of each core type code (each enumerator, codes around them, the extreme codes) and of each socket name in each spelling '
                 'through the lookup functions and their tables; the port constants are pairwise different']
    return res
