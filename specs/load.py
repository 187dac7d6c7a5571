from specs.db import DBTUS
import glob, os
REPO = os.environ.get('VERIF_REPO', '/repo')
def q(d, b, **k): return dict(defs=d, bounds=b, **k)
TU = sorted(set([t for t in DBTUS if 'exec/execve' not in t] + ['core/db/source_file_list.cpp', 'core/sched/thread_pool.cpp', 'core/sched/thread_count.cpp', 'core/source_file_info_loaders/cxx/source_file_loader.cpp', 'core/source_file_info_loaders/extension/source_file_loader.cpp', 'core/source_file_info_loaders/generic/source_file_loader.cpp', 'core/source_file_info_loaders/maikerule/source_file_loader.cpp', 'core/source_file_info_loaders/config.cpp'] + ['core/source_tree_loader/' + x + '.cpp' for x in ('command_dictionary', 'config', 'directory_scanner', 'input_filter', 'main', 'source_file_load_ctxt', 'source_file_loader_delegator')]))
FULL = sorted(set(TU + ['core/exec/execve.cpp']))
FT = sorted(set(TU + ['core/db/source_tree.cpp', 'core/db/task_list.cpp', 'core/db/task.cpp', 'core/db/compilation_log.cpp']))
L = dict(file='load.cpp', models=['jansson'], native_shadow=True, redefine=['open', 'read', 'close'], logic='QF_BV')
P = {
 'C19': dict(harnesses=[
   dict(L, native_shadow=False, name='names', entry='harness_resolve', tus=FULL, reach=['project', 'target', 'generated', 'external'], quick=[q(['-DPATHS', '-DLEN=3', '-DSOURCES=2', '-DTARGETS=1'], 'names of 1..3 arbitrary bytes in files at three depths, 2 source directories', split=16, depth=8), q(['-DPATHS', '-DLEN=2', '-DSOURCES=9', '-DTARGETS=5'], 'names of 1..2 arbitrary bytes in files at three depths, 9 source and 5 target directories', split=8, depth=8)], thorough=[q(['-DPATHS', '-DLEN=6', '-DSOURCES=9', '-DTARGETS=5'], 'names of 1..6 arbitrary bytes in files at three depths, 9 source and 5 target directories', split=64, depth=10)]),
   dict(L, native_shadow=False, name='extension', entry='harness_extension', tus=FULL, reach=['matched', 'none'], quick=[q(['-DPATHS', '-DLEN=5', '-DSOURCES=1', '-DTARGETS=1'], 'file names of 1..5 arbitrary bytes in 4 directories, 5 extensions', split=4, depth=6)], thorough=[q(['-DPATHS', '-DLEN=7', '-DSOURCES=1', '-DTARGETS=1'], 'file names of 1..7 arbitrary bytes in 4 directories, 5 extensions', split=16, depth=8)]),
   dict(L, name='command', entry='harness_command', tus=FULL, reach=['found', 'missing'], quick=[q(['-DPATHS', '-DSOURCES=1', '-DTARGETS=1'], '4 ways to write the name; in either place missing, a file, a directory or another object, or not accessible')])]),
 'C21': dict(harnesses=[
   dict(L, name='targets', entry='harness_targets', tus=FT, no_fallback=True, native_shadow=False, reach=['clash', 'own', 'found', 'unknown', 'also source', 'in place'], quick=[q(['-DTARGETS_H', '-DLEN=1', '-DPLACES=4', '-DFILES=2', '-DCOUNT=2'], 'two files in different directories with up to 2 targets in all, names of 1 arbitrary character after up to two directory parts, 4 pairs of directories', split=16, depth=8)], thorough=[q(['-DTARGETS_H', '-DLEN=2', '-DPLACES=4', '-DFILES=2', '-DCOUNT=2'], 'two files in different directories with up to 2 targets in all, names of 1..2 arbitrary characters after up to two directory parts, 4 pairs of directories', split=64, depth=10), q(['-DTARGETS_H', '-DLEN=1', '-DPLACES=1', '-DFILES=3', '-DCOUNT=3'], 'three files with up to 3 targets in all, names of 1 arbitrary character', split=64, depth=10)])]),
 'C24': dict(harnesses=[
   dict(L, name='tags', entry='harness_tags', tus=FT, no_fallback=True, reach=['target', 'targets', 'uses', 'extras', 'compiler', 'policy', 'asked'], quick=[q(['-DTAGS'], 'one file in 3 places; one kind of tag at a time with every form of its entries', split=16, depth=8)]),
   dict(L, name='generic', entry='harness_generic', tus=FT, no_fallback=True, reach=['replaced', 'appended'], quick=[q(['-DTAGS', '-DLEN=2'], 'file names of 1..2 arbitrary characters before the extension, 4 extensions, both modes', split=4, depth=6)], thorough=[q(['-DTAGS', '-DLEN=4'], 'file names of 1..4 arbitrary characters before the extension, 4 extensions, both modes', split=16, depth=8)])]),
 'C26': dict(harnesses=[
   dict(L, name='filter', entry='harness_filter', tus=FT, no_fallback=True, reach=['left out', 'let through'], quick=[q(['-DSCAN', '-DLEN=4', '-DROOTS=4', '-DFILTERS=8'], 'names and paths of 1..4 arbitrary characters, 8 sets of filters', split=8, depth=6)], thorough=[q(['-DSCAN', '-DLEN=6', '-DROOTS=4', '-DFILTERS=8'], 'names and paths of 1..6 arbitrary characters, 8 sets of filters', split=16, depth=8)]),
   dict(L, name='scan', native_regex=True, entry='harness_scan', tus=FT, threads=True, no_fallback=True, args=['--no-race', '--one-schedule'], reach=['file', 'filtered', 'directory', 'inner', 'output left out'], quick=[q(['-DSCAN', '-DLEN=1', '-DROOTS=4', '-DFILTERS=8'], 'a file, a directory and a file in it with names of 1 arbitrary character; 4 source directories, 3 places of the target directory, 8 sets of filters; one worker', split=16, depth=8)], thorough=[q(['-DSCAN', '-DLEN=2', '-DROOTS=4', '-DFILTERS=8'], 'a file, a directory and a file in it with names of 1..2 arbitrary characters; 4 source directories, 3 places of the target directory, 8 sets of filters; one worker', split=64, depth=10)]),
   dict(L, name='errors', entry='harness_scan_errors', tus=FT, threads=True, no_fallback=True, args=['--no-race'], reach=['reported', 'not looked at', 'complete'], quick=[q(['-DSCAN', '-DROOTS=1', '-DFILTERS=1', '-DWORKERS=1'], 'a tree of 7 files; 7 kinds of fault at two depths, in a place that is filtered out or not; one worker', split=1)], thorough=[q(['-DSCAN', '-DROOTS=1', '-DFILTERS=1', '-DWORKERS=2'], 'a tree of 7 files; 7 kinds of fault at two depths, in a place that is filtered out or not; two workers, every schedule', split=16, depth=8)])]),
 'C27': dict(harnesses=[
   dict(L, name='link', native_regex=True, entry='harness_link', tus=FT, threads=True, no_fallback=True, args=['--no-race', '--one-schedule'], reach=['headers in a circle', 'objects in a circle', 'program', 'archive', 'test', 'library', 'in several steps', 'in place', 'same names'], quick=[q(['-DLINK'], 'two headers that each declare an object, a library, or nothing, and include any of the headers; their sources; a program, an archive or a test; every include of them; built in place after an earlier run, and with files of the same name in several directories (some includes fixed)', split=16, depth=8)], thorough=[q(['-DLINK', '-DFULL=1'], 'as quick, one include more, every include everywhere, and in a subdirectory too', split=64, depth=10)])]),
}
