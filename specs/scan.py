from specs.db import DBTUS
def q(d, b, **k): return dict(defs=d, bounds=b, **k)
TUS = sorted(set(DBTUS + ['core/source_file_info_loaders/cxx/source_file_loader.cpp', 'core/source_file_info_loaders/extension/source_file_loader.cpp']))
S = dict(file='scan.cpp', tus=TUS, models=['jansson'])
SEG = 'segments (include, other directive, line comment, block comment, raw string, string literal, tag, other code) in any order, on one line or several, followed by one more include; '
P = {
 'C12': dict(harnesses=[dict(S, name='includes', entry='harness_includes', reach=['scanned'],
    quick=[q(['-DSEGS=2', '-DBODY=1'], 'every text of 2 ' + SEG + 'comments and strings of 0..2, other code of 0..1, and include paths of 1..2 arbitrary bytes', split=16, depth=8)],
    thorough=[q(['-DSEGS=2', '-DBODY=2'], 'every text of 2 ' + SEG + 'comments and strings of 0..3, other code of 0..2, and include paths of 1..2 arbitrary bytes', split=64, depth=10, max_time=5000),
              q(['-DSEGS=3', '-DBODY=1', '-DDIRS=3', '-DKINDS=0xfd'], 'every text of 3 ' + SEG + 'comments and strings of 0..2, other code of 0..1 arbitrary bytes (no system includes, no tags)', split=64, depth=12, max_time=5000)])]),
 'C13': dict(harnesses=[dict(S, name='tags', entry='harness_tags', reach=['filtered'],
    quick=[q(['-DSEGS=2', '-DBODY=1', '-DDIRS=3', '-DKINDS=0x1fc'], 'every text of 2 ' + SEG + 'comments, strings and tags of 0..2, other code of 0..1 arbitrary bytes', split=16, depth=8)],
    thorough=[q(['-DSEGS=2', '-DBODY=2'], 'every text of 2 ' + SEG + 'comments, strings and tags of 0..3, other code of 0..2, and include paths of 1..2 arbitrary bytes', split=64, depth=10, max_time=5000),
              q(['-DSEGS=3', '-DBODY=1', '-DDIRS=2', '-DKINDS=0x1f8'], 'every text of 3 ' + SEG + 'comments, strings and tags of 0..2, other code of 0..1 arbitrary bytes (no directives)', split=64, depth=12, max_time=5000)]),
    dict(S, name='exttags', entry='harness_exttags', reach=['filtered'], quick=[q(['-DSEGS=2', '-DBODY=2'], 'every text of 2 lines, each a tag with 0..2 arbitrary bytes or an arbitrary line of 0..3 bytes', split=8, depth=6)],
    thorough=[q(['-DSEGS=3', '-DBODY=2'], 'every text of 3 lines, each a tag with 0..2 arbitrary bytes or an arbitrary line of 0..3 bytes', split=32, depth=8)])]),
}
