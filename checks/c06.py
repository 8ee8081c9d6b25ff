"""C06: serialising and loading stay inside the buffer they are given; what is too short is refused."""
import fx, flow, harness, wire


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ActionMessage.cpp'])
    for nm, writer, header in (('toByteArray', True, 44), ('fromByteArray', False, 44), ('depacketize', False, 4)):
        fn = prog.fn(wire.AM + '::' + nm)
        r = wire.Mem(prog, fn, 0, 1, header, writer)
        r.gapless = False
        flow.Engine(prog, r).analyse(fn)
        for m in r.mem:
            res.add('%s|%s' % (nm, m.split(': ', 1)[1][:80]), m)
        for m in r.bad:
            res.add('%s|%s' % (nm, m.split(': ', 1)[1][:80]), m)
        res.count('accesses', r.access)
        res.count('paths', len(r.results))
        if nm == 'fromByteArray':
            wire.invalid(prog, r, res)
    res.need('accesses', 120)
    res.need('refusals', 3)
    res.rules.append('for every store, load, copy and sub-call on every path the linear form offset + width <= buffer size follows from the comparisons passed '
                     'before it (loop heads keep the relation between cursor and running size); refused bytes leave the message marked invalid')
    res.assumptions += ['sizes do not overflow 64 bits; the length of a packet is at least 4 (its own header bytes cannot equal the end mark)']
    return res
