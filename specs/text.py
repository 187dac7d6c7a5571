def q(d, b, **k): return dict(defs=d, bounds=b, **k)
X = dict(file='text.cpp')
ID = ['core/build/id.cpp', 'core/key_value_store/json_handle.cpp']
TX = ['core/exec/command.cpp', 'core/utils/system_time_stamp.cpp', 'core/sched/thread_count.cpp', 'core/db/source_file_origin.cpp', 'core/db/rebuild_policy.cpp'] + ID
from specs.db import DBTUS
CL = dict(X, models=['jansson'], tus=sorted(set(DBTUS + TX + ['core/db/compilation_log.cpp', 'core/cmd_line_parser/command_line.cpp'])))
P = {
 'C14': dict(harnesses=[dict(X, name='id_print', entry='harness_id_print', tus=TX, models=['jansson'], reach=['printed'], quick=[q([], 'every 256-bit id')]),
                        dict(X, name='id_roundtrip', entry='harness_id_roundtrip', tus=TX, models=['jansson'], reach=['roundtrip'], quick=[q(['-DWINDOW=2'], 'any two consecutive bytes arbitrary, at every position, upper and lower case')], thorough=[q(['-DWINDOW=4'], 'any four consecutive bytes arbitrary, at every position, upper and lower case', split=16, depth=8)]),
                        dict(X, name='id_reject', entry='harness_id_reject', tus=TX, models=['jansson'], reach=['accepted', 'rejected'], quick=[q([], '0..70 digits, any character in any one position')])]),
 'C15': dict(harnesses=[dict(X, name='quote', entry='harness_quote', tus=TX, models=['jansson'], reach=['printed'], quick=[q(['-DLEN=2', '-DARGS=2'], 'program of 1..2 and 0..2 arguments of 0..2 arbitrary bytes', split=8, depth=5)], thorough=[q(['-DLEN=4', '-DARGS=1'], 'program and one argument of up to 4 bytes', split=16, depth=7), q(['-DLEN=2', '-DARGS=3'], '3 arguments of up to 2 bytes', split=16, depth=7)])]),
 'C16': dict(harnesses=[dict(X, name='number', entry='harness_number', tus=TX, models=['jansson'], reach=['number'], quick=[q(['-DLEN=4'], 'numbers of 1..4 digits')], thorough=[q(['-DLEN=5'], 'numbers of 1..5 digits')]),
                        dict(X, name='badtime', entry='harness_badtime', tus=TX, models=['jansson'], reach=['bad time'], quick=[q(['-DLEN=4'], '1..4 characters')]),
                        dict(CL, name='option', entry='harness_option', reach=['accepted', 'rejected'], quick=[q(['-DCMDLINE', '-DEVERY'], 'each option, correct, or with any one character replaced, truncated, or extended; with no, empty, or a valid value', split=16, depth=8)]),
                        dict(CL, name='options', entry='harness_options', reach=['both'], quick=[q(['-DCMDLINE', '-DLEN=2'], 'every pair of options, values of 1..2 bytes', split=8, depth=8)]),
                        dict(CL, name='list', entry='harness_list', reach=['list'], quick=[q(['-DCMDLINE', '-DLEN=2', '-DARGS=2'], 'lists of 1..2 elements of up to 2 bytes', split=8, depth=6)], thorough=[q(['-DCMDLINE', '-DLEN=3', '-DARGS=3'], 'lists of 1..3 elements of up to 3 bytes', split=16, depth=8)])]),
 'C23': dict(harnesses=[dict(X, name=n, entry='harness_' + n, tus=TX, models=['jansson'], reach=['names'], quick=[q([], 'every value; every name with one character replaced, truncated, or extended')]) for n in ('origin', 'policy')] + [dict(CL, name=n, entry='harness_' + n, tus=CL['tus'] + ['core/source_file_info_loaders/generic/source_file_loader.cpp'], reach=['names'], quick=[q(['-DMORENAMES'], 'every value; every name with one character replaced, truncated, or extended')]) for n in ('mode', 'loglevel', 'logformat')]),
}
