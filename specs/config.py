from specs.load import TU
def q(d, b, **k): return dict(defs=d, bounds=b, **k)
CT = sorted(set([t for t in TU if 'directory_scanner' not in t and 'source_tree_loader/main' not in t and 'thread_pool' not in t] + ['core/bin/config.cpp']))
C = dict(file='config.cpp', models=['jansson'], logic='QF_BV', tus=CT, native_shadow=True, native_regex=True, redefine=['open', 'read', 'close', 'fprintf', 'fputs', 'fwrite', 'puts', 'perror'])
P = {
 'C32': dict(harnesses=[
  dict(C, name='dump', entry='harness_dump', reach=['rejected', 'standard', 'same'], quick=[q(['-DDUMP', '-DLEN=2'], 'a name of 1..2 arbitrary bytes in any one of 8 places; one part at a time with every form; every kind of loader', split=8, depth=8)]),
  dict(C, name='files', entry='harness_files', reach=['not usable', 'none', 'some', 'all'], quick=[q(['-DFILES=2'], 'up to 2 files, each in one of 14 states, with an arbitrary recipe', split=8, depth=8)], thorough=[q(['-DFILES=3'], 'up to 3 files, each in one of 14 states, with an arbitrary recipe', split=64, depth=10)]),
  dict(C, name='kinds', entry='harness_kinds', reach=['unknown', 'known'], quick=[q(['-DKINDS'], 'the 6 kinds of loader, with one character replaced, added or missing; 4 forms of settings')]),
  dict(C, name='map', entry='harness_map', reach=['mapped', 'no loader'], quick=[q(['-DKINDS'], 'up to 3 extensions, 4 names of loaders, 2 loaders')]),
  dict(C, name='recipes', entry='harness_recipes', reach=['failed', 'kept', 'configured'], quick=[q(['-DKINDS'], '3 recipes, any one without a name or without settings; 5 outcomes of the configuration of any one of them; every kind of loader')])]),
}
