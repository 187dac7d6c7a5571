DBTUS = ['core/db/task.cpp', 'core/db/dependency_graph.cpp', 'core/db/dependency.cpp', 'core/db/source_file_record.cpp', 'core/db/target_info.cpp', 'core/db/compiler.cpp', 'core/db/source_file_origin.cpp', 'core/db/log_format.cpp', 'core/db/rebuild_policy.cpp', 'core/build/info.cpp', 'core/build/id.cpp', 'core/utils/fs.cpp', 'core/exec/command.cpp', 'core/key_value_store/compound.cpp', 'core/key_value_store/array.cpp', 'core/key_value_store/json_handle.cpp', 'core/exec/execve.cpp', 'core/utils/system_time_stamp.cpp']
P = {
 'C05': dict(harnesses=[dict(name='uptodate', file='uptodate.cpp', entry='harness_uptodate', tus=DBTUS, models=['jansson'], native_shadow=True, reach=['run', 'skip', 'error'],
   quick=[dict(defs=['-DDEPS=2', '-DTARGETS=1'], split=8, depth=6, bounds='1 target, 2 dependencies (side by side or chained), any 64-bit time stamps, missing/directory/regular, any origin'), dict(defs=['-DDEPS=0', '-DTARGETS=2'], bounds='2 targets, no dependencies')],
   thorough=[dict(defs=['-DDEPS=3', '-DTARGETS=2'], split=16, depth=8, bounds='2 targets, 3 dependencies')])]),
}
TL = dict(file='tasklist.cpp', tus=DBTUS + ['core/db/task_list.cpp', 'core/db/compilation_log.cpp', 'core/sched/thread_pool.cpp', 'core/sched/thread_count.cpp'], models=['jansson'], threads=True, native_shadow=True)

def tl(n, w, o, *f, **k): return dict(defs=[f'-DNODES={n}', f'-DWORKERS={w}', f'-DOUTCOMES={o}'] + ['-D' + x for x in f], bounds=f'{n} source files, {w} workers, outcomes per command: success, failure' + (', cannot be started' if o > 1 else '') + (', killed' if o > 2 else '') + '; every acyclic graph over them' + (' with use and build edges' if 'KINDS' in f else '') + (' through the generated files' if 'VIA' in f else '') + (', files without targets' if 'PLAIN' in f else '') + (', any subset up to date' if 'INCREMENTAL' in f else '') + '; every interleaving at synchronisation points', **k)
NR = ['--no-race']
TLQ = [dict(TL, name='tasklist', entry='harness_tasklist', reach=['built', 'failed'], quick=[tl(3, 2, 1, 'VIA', split=16, depth=8, args=NR), tl(2, 2, 3, 'KINDS', 'PLAIN', split=2, depth=3)],
            thorough=[tl(3, 2, 1, split=16, depth=8, args=NR), tl(3, 2, 2, 'VIA', 'INCREMENTAL', split=32, depth=9, args=NR), tl(3, 2, 2, 'KINDS', split=32, depth=9, args=NR), tl(3, 2, 1, 'INCREMENTAL', 'REVERSED', split=32, depth=9, args=NR), tl(3, 2, 1, 'PLAIN', split=32, depth=9, args=NR), tl(2, 2, 3, 'KINDS', 'PLAIN', 'INCREMENTAL', split=8, depth=5), tl(2, 3, 1, split=8, depth=6, args=NR), tl(4, 1, 1, split=32, depth=9, args=NR)]),
       dict(TL, name='onetarget', entry='harness_onetarget', reach=['built', 'failed'], quick=[tl(2, 2, 2, 'INCREMENTAL', split=4, depth=4, args=NR), tl(3, 1, 1, 'VIA', split=8, depth=6, args=NR)], thorough=[tl(3, 2, 1, 'VIA', split=32, depth=9, args=NR)])]
P['C06'] = dict(only='C06:|memory|data-race|threads', harnesses=TLQ)
P['C07'] = dict(only='C07:|deadlock|step-bound|uncaught|terminate|abort', harnesses=TLQ)
