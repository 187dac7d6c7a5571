import re, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def q(d, b, **k): return dict(defs=d, bounds=b, **k)
# not a property: a self test of the engine and its models (python3 run.py X1)
E_ = re.findall(r'^T\((t_\w+)\)', open(ROOT + '/harness/self.cpp').read(), re.M)
P = {'X1': dict(harnesses=[dict(name=e, file='self.cpp', entry=e, tus=[], models=[], reach=['done'], no_asan=True, **(dict(threads=True, args=['--no-race']) if e in ('t_threads', 't_timed') else {}), quick=[q([], 'self test')]) for e in E_])}
