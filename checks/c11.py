"""C11: names of data types and truth values"""
import fx, harness, names, table
from flow import C

TYPES = {
    'DOUBLE': ['double', 'float', 'd', 'f'], 'STRING': ['string', 's'], 'BOOL': ['bool', 'boolean', 'binary', 'flag'],
    'VECTOR': ['vector', 'double_vector', 'double vector', 'doublevector', 'v'], 'COMPLEX': ['complex', 'pair'],
    'INT': ['int', 'int64', 'long long', 'longlong', 'integer', 'int32', 'uint32', 'uint64', 'int16', 'uint16', 'short', 'unsigned short', 'unsignedshort', 'long',
            'unsigned long', 'unsignedlong', 'uchar', 'unsigned char', 'unsignedchar', 'byte', 'int8', 'uint8', 'i', 'i64'],
    'CHAR': ['char', 'char8_t', 'c'], 'COMPLEX_VECTOR': ['complex_vector', 'complex vector', 'complexvector', 'cv'],
    'NAMED_POINT': ['np', 'point', 'pt', 'named_point', 'namedpoint'], 'TIME': ['time', 'tm', 't'], 'MULTI': ['multi', 'many'], 'JSON': ['json'],
    'ANY': ['default', 'def', 'any', '', 'all']}
PRINTED = {'DOUBLE': 'double', 'INT': 'int64', 'STRING': 'string', 'COMPLEX': 'complex', 'BOOL': 'bool', 'VECTOR': 'double_vector', 'COMPLEX_VECTOR': 'complex_vector',
           'NAMED_POINT': 'named_point', 'TIME': 'time', 'JSON': 'json', 'CHAR': 'char', 'ANY': 'any'}
FALSE = ['0', '00', '\0', '0000', '\0' * 8, 'false', 'off', 'OFF', 'False', 'FALSE', 'f', '-', 'F', 'n', 'N', 'no', 'No', 'NO', 'disable', 'disabled', '']
TRUE = ['1', 'true', 'on', 'ON', 'True', 'TRUE', 't', '+', 'T', 'y', 'Y', 'yes', 'Yes', 'YES', 'enable', 'enabled', '2', '-1', 'bob', 'x', '0001', '0.5']


def run(tier):
    res = harness.Result()
    prog = fx.load(['application_api/helicsTypes.cpp'])
    e = names.Expect(res, 'C11', prog)
    D = names.enum_values(prog, 'helics::DataType')
    T = {k[len('HELICS_'):]: C(v) for k, v in D.items()}
    s = lambda t: ('s', t)
    parse, pr = prog.fn('helics::getTypeFromString'), prog.fn('helics::typeNameStringRef')
    for k, l in TYPES.items():
        for n in l:
            e(parse, (s(n),), T[k], 'the name "%s"' % n)
            if len(n) > 2:
                for v in {n.upper(), n.capitalize()}:
                    e(parse, (s(v),), T[k], 'the name "%s"' % v)
    for n in ('bob', 'custom', 'vector2', 'doubl'):
        e(parse, (s(n),), T['CUSTOM'], 'the unknown name "%s"' % n)
    e(parse, (('pre', '['),), T['MULTI'], 'a list of types')
    for k, n in PRINTED.items():
        e(pr, (T[k],), s(n), k)
        dec, sure = e.get(pr, T[k])
        for t in dec:
            if t[0] == 's' and t[1]:
                e(parse, (t,), T[k], 'reading back the printed name "%s" of %s' % (t[1], k))
    for k in T:
        if k not in PRINTED:
            e(pr, (T[k],), s(''), k)
    b = prog.fn('helics::helicsBoolValue')
    for n in FALSE:
        e(b, (s(n),), C(0), 'the text %r' % n)
    for n in TRUE:
        e(b, (s(n),), C(1), 'the text %r' % n)
    res.need('cases', 150)
    if res.analysed.get('cases decided', 0) * 3 < res.analysed['cases']:
        raise fx.Broken('less than a third of the names could be decided')
    res.rules = ['constant propagation of each documented type name, printed type name and truth value text through the lookup functions and their tables']
    res.assumptions = ['the mangled type names of the compiler are none of the documented names, or denote the same type']
    return res
