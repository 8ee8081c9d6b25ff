"""C07: packets and json text carry a message completely and are accepted only when intact."""
import fx, harness, wire


def run(tier):
    res = harness.Result()
    prog = fx.load(['core/ActionMessage.cpp'])
    wire.packets(prog, res)
    wire.json_text(prog, res)
    wire.entrances(prog, res)
    res.need('packets', 3)
    res.need('json forms', 6)
    res.need('entrances', 4)
    res.rules.append('packetize/packetize_json: mark, 24-bit length (bit by bit), message at offset 4, two end marks; depacketize accepts only on paths that compared '
                     'mark, length and both end marks and loaded the inside; every member is written to json under one name and loaded from the same name, strings '
                     'and payload in the encoding that is announced; from_string/from_vector offer all bytes and use json only for refused bytes')
    return res
