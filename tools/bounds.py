# Prints the table of bounds at the end of DESIGN.md: python3 tools/bounds.py (from the specs; times from evidence/, if any)
import os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
import specs
m = json.load(open(f'{ROOT}/MANIFEST.json'))
print('| property | harness | bounds (quick) | bounds added by thorough |\n|---|---|---|---|')
for c in m['checks']:
    i = c['property']; s = specs.PROPERTIES[i]
    if s.get('python'):
        import pyrecipes as R
        for h in R.H[i]: print(f'| {i} | {h[0]} | {R.BOUNDS.get(h[0], "all combinations of outcomes and files").format(**dict(dict(deps=1, flags=2, iquotes=2, args=2, refs=2), **h[3].get("quick", {})))} | {R.BOUNDS.get(h[0], "same").format(**dict(dict(deps=1, flags=2, iquotes=2, args=2, refs=2), **h[3].get("thorough", {}))) if h[3].get("thorough") else "same"} |')
        continue
    for h in s['harnesses']:
        f = lambda t: '; '.join(dict.fromkeys(x.get('bounds', '') for x in h.get(t, []))).replace('|', '/')
        print(f'| {i} | {h["name"]} | {f("quick")} | {f("thorough") or "same"} |')
