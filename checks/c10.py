"""C10: names of properties, flags, options and option values in configurations"""
import fx, harness, names, table
from flow import C
norm = names.norm

ALIAS = {
    'PROPERTY': {'period': 'TIME_PERIOD', 'delta': 'TIME_DELTA', 'offset': 'TIME_OFFSET', 'stop_time': 'TIME_STOPTIME', 'rtlead': 'TIME_RT_LEAD', 'rtlag': 'TIME_RT_LAG',
                 'rttolerance': 'TIME_RT_TOLERANCE', 'rt_lead': 'TIME_RT_LEAD', 'rt_lag': 'TIME_RT_LAG', 'rt_tolerance': 'TIME_RT_TOLERANCE', 'input_delay': 'TIME_INPUT_DELAY',
                 'output_delay': 'TIME_OUTPUT_DELAY', 'grant_timeout': 'TIME_GRANT_TIMEOUT', 'log_level': 'INT_LOG_LEVEL', 'console_log_level': 'INT_CONSOLE_LOG_LEVEL',
                 'file_log_level': 'INT_FILE_LOG_LEVEL', 'max_iterations': 'INT_MAX_ITERATIONS', 'index_group': 'INT_INDEX_GROUP', 'log_buffer': 'INT_LOG_BUFFER',
                 'value_buffer_warning': 'INT_VALUE_BUFFER_WARNING', 'value_buffer_warning_mib': 'INT_VALUE_BUFFER_WARNING', 'time_period': 'TIME_PERIOD',
                 'time_delta': 'TIME_DELTA', 'time_offset': 'TIME_OFFSET', 'int_log_level': 'INT_LOG_LEVEL', 'int_max_iterations': 'INT_MAX_ITERATIONS',
                 'time_rt_lead': 'TIME_RT_LEAD', 'time_rt_lag': 'TIME_RT_LAG', 'time_rt_tolerance': 'TIME_RT_TOLERANCE', 'time_input_delay': 'TIME_INPUT_DELAY',
                 'time_output_delay': 'TIME_OUTPUT_DELAY'},
    'FLAG': {'source': 'FLAG_SOURCE_ONLY', 'slow': 'FLAG_SLOW_RESPONDING', 'slow_response': 'FLAG_SLOW_RESPONDING', 'real_time': 'FLAG_REALTIME', 'json': 'FLAG_USE_JSON_SERIALIZATION',
             'ignore_time_mismatch': 'FLAG_IGNORE_TIME_MISMATCH_WARNINGS', 'strict_input_type_checking': 'HANDLE_OPTION_STRICT_TYPE_CHECKING', 'optional': 'HANDLE_OPTION_CONNECTION_OPTIONAL',
             'required': 'HANDLE_OPTION_CONNECTION_REQUIRED', 'dump_log': 'FLAG_DUMPLOG', 'buffer_data': 'HANDLE_OPTION_BUFFER_DATA', 'reconnectable': 'HANDLE_OPTION_RECONNECTABLE',
             'connection_required': 'HANDLE_OPTION_CONNECTION_REQUIRED', 'connection_optional': 'HANDLE_OPTION_CONNECTION_OPTIONAL', 'ignore_unit_mismatch': 'HANDLE_OPTION_IGNORE_UNIT_MISMATCH'},
    'OPTION': {'required': 'CONNECTION_REQUIRED', 'uninterruptible': 'IGNORE_INTERRUPTS', 'strict_input_type_checking': 'STRICT_TYPE_CHECKING'},
}
NOFLAG = {'IGNORE', 'CALLBACKFEDERATE', 'AUTOMATEDTIMEREQUEST'}
ONLYSPLIT = {'usejsonserialization', 'localprofilingcapture', 'slowresponding', 'profilingmarker', 'slowresponse'}  # listed only with underscores
VALUES = {'0': 0, '1': 1, '2': 2, '3': 3, '4': 4, '-': 0, '+': 1, 'false': 0, 'true': 1, 'on': 1, 'off': 0, 'disable': 0, 'enable': 1, 'disabled': 0, 'enabled': 1, 'stop': 0,
          'start': 1}
MULTI = {'no_op': 'NO_OP', 'and': 'AND_OPERATION', 'or': 'OR_OPERATION', 'sum': 'SUM_OPERATION', 'max': 'MAX_OPERATION', 'min': 'MIN_OPERATION', 'average': 'AVERAGE_OPERATION',
         'mean': 'AVERAGE_OPERATION', 'vectorize': 'VECTORIZE_OPERATION', 'diff': 'DIFF_OPERATION'}


def run(tier):
    res = harness.Result()
    prog = fx.load(['application_api/FederateInfo.cpp'])
    e = names.Expect(res, 'C10', prog)
    E = {}
    for n, en in prog.enums.items():
        for x in en['e']:
            if x[0].startswith('HELICS_'):
                E.setdefault(x[0][7:], x[1])
    if 'PROPERTY_TIME_DELTA' not in E or 'FLAG_OBSERVER' not in E:
        raise fx.Broken('anchor vanished: helics_enums.h')
    s = lambda t: ('s', t)
    prop, flag, opt, optv = [prog.fn('helics::' + f) for f in ('getPropertyIndex', 'getFlagIndex', 'getOptionIndex', 'getOptionValue')]

    def camel(n):
        p = n.lower().split('_')
        return p[0] + ''.join(x.capitalize() for x in p[1:])

    def spell(n):
        n = n.lower()
        if norm(n) in ONLYSPLIT:
            return [n, n.upper()]
        p = n.replace('_', '')
        return sorted({n, p, camel(n), n.upper(), p.upper(), p[:2] + '_' + p[2:], '_' + p.upper()})

    def ask(fn, what, val, spellings=None):
        for v in spellings or spell(what):
            e(fn, (s(v),), C(val), 'the name "%s"' % v)
    for k, v in E.items():
        if k.startswith('PROPERTY_'):
            n = k[len('PROPERTY_'):]
            if n == 'INT_CURRENT_ITERATION' or n in ('INVALID_PROPERTY_INDEX',):
                continue
            # the names with the full prefix are offered without underscores at least
            dec, sure = e.get(prop, s(n.lower()))
            if dec and dec[0] != C(E.get('INVALID_OPTION_INDEX', -101)):
                ask(prop, n, v)
        elif k.startswith('FLAG_') and norm(k[5:]).upper() not in NOFLAG:
            ask(flag, k[5:], v)
            ask(prop, k[5:], v)
        elif k.startswith('HANDLE_OPTION_') and k[14:] not in ('RECEIVE_ONLY', 'SOURCE_ONLY', 'IGNORE_INTERRUPTS', 'STRICT_TYPE_CHECKING', 'TIME_RESTRICTED'):
            ask(opt, k[14:], v)
    ask(opt, 'TIME_RESTRICTED', E['HANDLE_OPTION_TIME_RESTRICTED'], ['timerestricted', 'timeRestricted', 'TIMERESTRICTED'])
    for a, k in ALIAS['PROPERTY'].items():
        ask(prop, a, E['PROPERTY_' + k])
    for a, k in ALIAS['FLAG'].items():
        ask(flag, a, E[k])
    for a, k in ALIAS['OPTION'].items():
        ask(opt, a, E['HANDLE_OPTION_' + k])
    for a, v in VALUES.items():
        ask(optv, a, v, sorted({a, a.upper(), a.capitalize()}))
    for a, k in MULTI.items():
        ask(optv, a, E['MULTI_INPUT_' + k], sorted({a, a.upper(), a.capitalize()}))
    for k, v in E.items():
        if k.startswith('LOG_LEVEL_') and k[10:] != 'DUMPLOG':
            ask(optv, k[10:], v, sorted({k[10:].lower(), k[10:], k[10:].capitalize()}))
    # a name that is none of these
    bad = E.get('INVALID_OPTION_INDEX')
    inv = [g for n, g in prog.globals.items() if n.endswith('HELICS_INVALID_OPTION_INDEX')]
    bad = C(-101) if bad is None else C(bad)
    for fn in (prop, flag, opt, optv):
        for n in ('', 'bob', 'time', 'log', 'value_', 'deltax', 'observers'):
            e(fn, (s(n),), bad, 'the unknown name "%s"' % n)
    # further names of the tables: spellings of one name mean one thing, and a name spelled like an enumerator means that one
    for t, pre in (('propStringsTranslations', ['PROPERTY_', 'PROPERTY_TIME_', 'PROPERTY_INT_']), ('flagStringsTranslations', ['FLAG_', 'HANDLE_OPTION_']),
                   ('optionStringsTranslations', ['HANDLE_OPTION_'])):
        g = prog.globals.get('helics::' + t)
        es = table.entries(prog, g) if g else None
        if not es:
            continue
        by = {}
        for k, v in es:
            if not k or k[0] != 's' or not v or v[0] != 'c':
                continue
            res.count('entries')
            o = by.setdefault(norm(k[1]), (v, k[1]))
            if o[0] != v:
                res.add('C10|%s|%s' % (t, norm(k[1])), '%s:%d: "%s" and "%s" denote different things' % (fx.rel(g['f']), g['l'], o[1], k[1]))
            for p in pre:
                for en, val in E.items():
                    if en.startswith(p) and norm(en[len(p):]) == norm(k[1]) and not (p == 'HANDLE_OPTION_' and t.startswith('flag') and 'FLAG_' + en[len(p):] in E):
                        res.count('entries spelled like an enumerator')
                        if C(val) != v:
                            res.add('C10|%s|%s' % (t, k[1]), '%s:%d: "%s" does not denote HELICS_%s' % (fx.rel(g['f']), g['l'], k[1], en))
    res.need('cases', 500)
    if res.analysed.get('cases decided', 0) * 2 < res.analysed['cases']:
        raise fx.Broken('less than half of the names could be decided')
    res.rules = ['constant propagation of each documented name in each spelling (underscores anywhere, camel case, upper case) through the lookup functions and the constant '
                 'tables they use; within a table all spellings of a name and the enumerator of that name agree']
    res.assumptions = ['the table lookups of frozen find an entry exactly when the key is listed']
    return res
