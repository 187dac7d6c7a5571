from specs.db import DBTUS
def q(d, b, **k): return dict(defs=d, bounds=b, **k)
X = dict(file='kv.cpp', models=['jansson'])
TU = sorted(set(DBTUS))
NX = [t for t in TU if 'exec' not in t]
D = ['-DKINDS=0x7f', '-DDEPTH=1']
P = {
 'C11': dict(only='C11:|memory|overflow|uncaught|step-bound|deadlock', harnesses=[
   dict(X, name='input', entry='harness_input', tus=TU, reach=['read'], quick=[q(D + ['-DLEN=5'], 'streams of 0..5 arbitrary bytes delivered in any pieces, through buffers of 2 and 3 bytes')], thorough=[q(D + ['-DLEN=8'], 'streams of 0..8 arbitrary bytes delivered in any pieces, through buffers of 2 and 3 bytes')]),
   dict(X, name='output', entry='harness_output', tus=TU, reach=['written'], quick=[q(D + ['-DLEN=5'], '0..5 arbitrary bytes written through buffers of 2 and 3 bytes, flushed at any points')], thorough=[q(D + ['-DLEN=8'], '0..8 arbitrary bytes written through buffers of 2 and 3 bytes, flushed at any points')]),
   dict(X, name='large', entry='harness_large', tus=TU, reach=['large'], quick=[q(D, 'sizes around multiples of the capacity of a buffer, up to 8194 bytes, two arbitrary bytes')]),
   dict(X, name='redirect', entry='harness_redirect', tus=TU, reach=['redirected'], quick=[q(D + ['-DLEN=3'], 'input and output of 0..3 arbitrary bytes in any pieces')], thorough=[q(D + ['-DLEN=5'], 'input and output of 0..5 arbitrary bytes in any pieces')])]),
 'C20': dict(harnesses=[
   dict(X, name='merge', entry='harness_merge', tus=TU, reach=['merged', 'rejected'], quick=[q(['-DKINDS=0x7f', '-DDEPTH=1', '-DWIDE=1'], 'one name, every pair of kinds of value, groups of one level', split=8, depth=6), q(['-DKINDS=0x41', '-DDEPTH=1', '-DWIDE=2'], 'two names, groups and numbers', split=8, depth=6)],
        thorough=[q(['-DKINDS=0x7f', '-DDEPTH=2', '-DWIDE=1'], 'one name, every pair of kinds of value, groups of two levels', split=32, depth=10), q(['-DKINDS=0x6f', '-DDEPTH=1', '-DWIDE=2'], 'two names, groups of one level', split=32, depth=10)]),
   dict(X, name='compiler', entry='harness_compiler', tus=TU, reach=['combined'], quick=[q(['-DKINDS=0x41', '-DDEPTH=0', '-DWIDE=1'], 'every combination of recipe, origin and flags, one name')])]),
 'C22': dict(harnesses=[
   dict(X, name='load', entry='harness_load', tus=TU, reach=['accepted', 'rejected', 'blank'], quick=[q(D + ['-DLEN=3'], 'every text of 0..3 bytes, delivered in any pieces', split=8, depth=6)], thorough=[q(D + ['-DLEN=4'], 'every text of 0..4 bytes, delivered in any pieces', split=32, depth=8)]),
   dict(X, name='truncated', entry='harness_truncated', tus=TU, reach=['accepted', 'rejected', 'blank'], quick=[q(D, 'seven texts cut off at every point, with the last byte intact or arbitrary', split=8, depth=6)], thorough=[q(D + ['-DWIDE=3'], 'seven texts cut off at every point, with one arbitrary byte anywhere', split=32, depth=8)]),
   dict(X, name='recipe', entry='harness_recipe', tus=NX, no_fallback=True, reach=['read', 'rejected'], quick=[q(D + ['-DRECIPE'], 'output of a recipe of about 30 to 9000 bytes, complete or truncated, two arbitrary bytes')])]),
}
