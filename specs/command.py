from specs.db import DBTUS
CT = sorted(t for t in DBTUS if 'exec/execve' not in t)
def q(d, b, **k): return dict(defs=d, bounds=b, **k)
C = dict(file='command.cpp', models=['jansson'], logic='QF_BV', tus=CT, no_fallback=True)
B = '%s of 1..%d arbitrary bytes in any one place; '
P = {
 'C30': dict(harnesses=[
  dict(C, name='build', entry='harness_build', reach=['told', 'rejected', 'runs itself'], quick=[q(['-DLEN=2'], B % ('a name', 2) + 'up to 2 targets, 2 dependencies of every origin, settings of the loader and of the file', split=16, depth=8)], thorough=[q(['-DLEN=3', '-DASPECTS=2'], B % ('a name', 3) + 'up to 2 targets, 2 dependencies of every origin, settings of the loader and of the file', split=64, depth=10)]),
  dict(C, name='ask', entry='harness_ask', reach=['tags', 'failed', 'rejected'], quick=[q(['-DLEN=2'], B % ('a name', 2) + '5 outputs, 3 outcomes', split=8, depth=6)], thorough=[q(['-DLEN=3'], B % ('a name', 3) + '5 outputs, 3 outcomes', split=16, depth=8)])]),
}
