"""C05: a message written to bytes and loaded again is the same message, also on a machine with the other byte order."""
import fx, harness, wire


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ActionMessage.cpp'])
    layout = wire.Layout(prog, res, 'C05').run()
    wire.Loading(prog, res, 'C05', layout).run()
    wire.byte_count(prog, res, layout)
    wire.buffers(prog, res)
    wire.swaps(prog, res)
    res.need('layouts', 4)
    res.need('loads', 8)
    res.need('sizes compared', 3)
    res.rules.append('on every path of toByteArray the header holds each scalar member once at a fixed offset and width, bytes 1-3 the block size (bit by bit), '
                     'and behind it payload block, string count, length and text of each string, remainder of a split payload, without gaps; on every path of '
                     'fromByteArray each member is loaded from that offset and width, converted exactly when the byte orders differ, strings to their own '
                     'position and nothing of an earlier message remains; the linear form of serializedByteCount equals the bytes written case by case')
    res.assumptions += ['sizes do not overflow 64 bits', 'at most 254 strings (setString enforces this)']
    return res
