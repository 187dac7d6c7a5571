TOPO = dict(name='topo', file='topo.cpp', entry='harness_topo', reach=['accepted', 'rejected'], shadow=False,
  quick=[dict(defs=['-DNODES=3', '-DDEG=2'], bounds='all graphs of 3 nodes, 2 ordered references each (any target incl. self, duplicate, unresolved)')],
  thorough=[dict(defs=['-DNODES=3', '-DDEG=3'], bounds='3 nodes x 3 references'), dict(defs=['-DNODES=4', '-DDEG=2'], split=8, depth=8, bounds='4 nodes x 2 references')])
CLOSURE = dict(TOPO, name='closure', entry='harness_closure')
DB = dict(file='dbgraph.cpp', tus=['core/db/dependency_graph.cpp', 'core/utils/fs.cpp'], models=['jansson'])
NEST = dict(defs=['-DNODES=3', '-DUSE=1', '-DBUILD=0', '-DNESTED'], split=8, depth=6, bounds='3 files, one being the directory of another, 1 use dependency each')
SHAPES = dict(defs=['-DNODES=3', '-DSHAPES'], split=8, depth=6, bounds='3 files, each with one dependency of one kind only, or none')
DBTOPO = dict(DB, name='dbtopo', entry='harness_dbtopo', reach=['accepted', 'rejected'],
  quick=[dict(defs=['-DNODES=3'], split=8, depth=6, bounds='every source tree of 3 files with 1 use and 1 build dependency each on any of the files or on a missing one'), NEST, SHAPES],
  thorough=[dict(NEST, defs=['-DNODES=3', '-DNESTED']), dict(defs=['-DNODES=3', '-DUSE=2', '-DBUILD=1'], split=16, depth=8, bounds='3 files, 2 use and 1 build dependency each'), dict(defs=['-DNODES=4'], split=16, depth=8, bounds='4 files, 1 use and 1 build dependency each')])
DBCLOSURE = dict(DBTOPO, name='dbclosure', entry='harness_dbclosure')
RESOLVE = dict(DB, name='resolve', entry='harness_resolve', reach=['resolved', 'unresolved', 'error'], quick=[dict(defs=['-DLEN=3'], split=8, depth=5, bounds='4 files, one dependency of either kind at any of them with an arbitrary name of 1..3 bytes, strict or lenient')], thorough=[dict(defs=['-DLEN=4'], split=16, depth=6, bounds='as quick, names up to 4 bytes')])
P = {
 'C01': dict(harnesses=[TOPO, DBTOPO]),
 'C02': dict(harnesses=[TOPO, CLOSURE, DBTOPO]),
 'C03': dict(harnesses=[CLOSURE, DBCLOSURE]),
 'C04': dict(harnesses=[RESOLVE]),
}
