import importlib, pkgutil, os
PROPERTIES = {}
COMMON_ASSUMPTIONS = [
 'the engine (engine/), its models of libc/libstdc++ internals (models/) and z3 are trusted; sampled path classes are re-run natively and compared',
 'verdicts hold within the bounds stated in coverage.bounds',
 'sources are compiled by clang 18 at -O1 for x86-64 Linux; memory allocation does not fail',
]
for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
    PROPERTIES.update(importlib.import_module('specs.' + m).P)
