#!/usr/bin/env python3
"""Decide one property: compile /repo's current sources to LLVM bitcode, execute the harnesses of the
property symbolically (engine/), replay counterexamples against a native build of the same sources.

Exit status: 0 held within the stated bounds, 1 violated (with a VIOLATION line), 2 no verdict."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import specs
REPO = os.environ.get('VERIF_REPO', '/repo')
CORES = int(os.environ.get('VERIF_CORES', '8'))
BASE = '-std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w -g1 -Wno-invalid-constexpr -fno-pie -fno-pic -mllvm -two-entry-phi-node-folding-threshold=0 -mllvm -phi-node-folding-threshold=0'.split()
ENGINE = f'{ROOT}/engine/build/msx'

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Broken(Exception): pass

def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths: h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def ensure_engine():
    # make decides from the timestamps of the committed engine sources
    r = sh(['make', '-s', '-C', f'{ROOT}/engine'])
    if r.returncode: raise Broken('engine build failed\n' + r.stdout[-3000:])

MODELS = {'stdlib': ('stdlib.cpp', ['-fno-access-control', '-fno-builtin']), 'libc': ('libc.c', ['-fno-builtin']), 'jansson': ('jansson.cpp', ['-fno-builtin'])}

def model_bc(name):
    src, fl = MODELS[name]; path = f'{ROOT}/models/{src}'
    out = f'{ROOT}/build/cache/{name}-{file_hash(path, ROOT + "/models/msx.h", *sorted(glob.glob(ROOT + "/models/shadow/*")))}.bc'
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True); tmp = f'{out}.{os.getpid()}.{threading.get_ident()}'
        cc = ['clang-18', '-O1', '-fno-vectorize', '-w'] if src.endswith('.c') else ['clang++-18'] + BASE
        r = sh(cc + fl + [f'-I{ROOT}/models/shadow', f'-I{ROOT}/models', '-emit-llvm', '-c', path, '-o', tmp])
        if r.returncode: raise Broken(f'model {name} does not compile\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out

def incl(src, shadow):
    f = []
    if shadow: f += [f'-I{ROOT}/models/shadow']
    f += ['-iquote', os.path.dirname(src), '-iquote', REPO, '-I', f'{ROOT}/models', '-I', REPO, '-iquote', f'{ROOT}/harness']
    return f

def compile_bc(src, defs, shadow, out):
    r = sh(['clang++-18'] + BASE + defs + ([f'-I{ROOT}/models/shadow_sym'] if shadow else []) + incl(src, shadow) + ['-emit-llvm', '-c', src, '-o', out])
    if r.returncode: raise Broken(f'{src} does not compile\n' + r.stdout[-4000:])
    return out

def all_tus():
    skip = re.compile(r'\.test\.cpp$|/core/bin/(maike|about)\.cpp$|_test|/test')
    return sorted(p for p in glob.glob(f'{REPO}/core/**/*.cpp', recursive=True) if not skip.search(p[len(REPO):]))

def undefined_maike(bc):
    r = sh(['llvm-nm-18', '-u', bc])
    return [l.split()[-1] for l in r.stdout.splitlines() if re.search(r'_ZN?K?\w*5Maike', l)]

def build_bitcode(h, run, work, pool):
    shadow = h.get('shadow', True); defs = run.get('defs', [])
    srcs = [(f'{ROOT}/harness/{h["file"]}', ['-DMSX_ENGINE'] + defs)] + [(f'{REPO}/{t}', h.get('tu_defs', [])) for t in h.get('tus', [])]
    outs = []
    for s, d in srcs:
        if not os.path.exists(s):
            if s.startswith(REPO): continue  # moved: the fallback below finds the definitions
            raise Broken('missing ' + s)
        key = hashlib.sha256(repr((s, d, shadow)).encode()).hexdigest()[:16]
        outs.append((key, s, d))
    def get(k, s, d):
        with LOCK:
            f = CACHE.get(k)
            if f is None: f = CACHE[k] = pool.submit(compile_bc, s, d, shadow, f'{work}/{k}.bc')
        return f
    bcs = [f.result() for f in [get(k, s, d) for k, s, d in outs]]
    out = f'{work}/{h["name"]}-{run["_i"]}.bc'
    base = bcs + [model_bc(m) for m in ['stdlib', 'libc'] + h.get('models', [])]
    r = sh(['llvm-link-18'] + base + ['-o', out])
    if r.returncode: raise Broken('link failed\n' + r.stdout[-3000:])
    allowed = h.get('stubs', [])
    if [u for u in undefined_maike(out) if not any(re.search(a, u) for a in allowed)] and not h.get('no_fallback'):
        have = {s for _, s, _ in outs}
        extra = []
        for s in all_tus():
            if s in have: continue
            key = hashlib.sha256(repr((s, h.get('tu_defs', []), shadow)).encode()).hexdigest()[:16]
            extra.append((s, get(key, s, h.get('tu_defs', []))))
        ok = []
        for s, f in extra:
            try: ok.append(f.result())
            except Broken: pass
        for _ in range(4):
            und = [u for u in undefined_maike(out) if not any(re.search(a, u) for a in allowed)]
            if not und: break
            add = []
            for b in ok:
                r = sh(['llvm-nm-18', '--defined-only', b]); names = {l.split()[-1] for l in r.stdout.splitlines()}
                if names & set(und) and b not in base: add.append(b)
            if not add: break
            base += add; run['_extra'] = run.get('_extra', []) + add
            r = sh(['llvm-link-18'] + base + ['-o', out])
            if r.returncode: raise Broken('link failed\n' + r.stdout[-3000:])
        h['_extra_tus'] = [s for s, f in extra if f.done() and not f.exception() and f.result() in base]
    return out

def native_build(h, run, work, pool):
    """The same harness and sources, compiled natively with the replay runtime."""
    tag = f'{h["name"]}-{run["_i"]}'; out = f'{work}/{tag}.native'
    thr = h.get('threads', False); shadow = h.get('native_shadow', False)
    cxx = ['g++', '-U_FORTIFY_SOURCE'] if not (h.get('native_clang') or thr) else ['clang++-18']
    fl = ['-std=c++17', '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + (['-pthread'] if thr else ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'])
    if not thr and h.get('no_asan'): fl = ['-std=c++17', '-O1', '-g', '-w', '-pthread']
    if thr: fl += ['-fno-optimize-sibling-calls', '-fsanitize=thread', '-mllvm', '-tsan-instrument-memory-accesses=0', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-mllvm', '-tsan-instrument-memintrinsics=0']
    objs = []
    def comp(s, d, o, f=fl):
        r = sh(cxx + f + d + ([f'-I{ROOT}/models/shadow_sym'] if h.get('native_regex') else []) + incl(s, shadow) + ['-c', s, '-o', o])
        if r.returncode: raise Broken(f'native: {s} does not compile\n' + r.stdout[-3000:])
        red = h.get('redefine', [])
        if red and not s.endswith('native_rt.cpp'):
            a = []
            for x in red: a += ['--redefine-sym', f'{x}=msx_sys_{x}']
            r = sh(['objcopy'] + a + [o])
            if r.returncode: raise Broken('objcopy ' + r.stdout)
        return o
    srcs = [(f'{ROOT}/harness/{h["file"]}', run.get('defs', []))] + [(f'{REPO}/{t}', h.get('tu_defs', [])) for t in h.get('tus', []) if os.path.exists(f'{REPO}/{t}')]
    srcs += [(s, h.get('tu_defs', [])) for s in h.get('_extra_tus', [])]
    srcs += [(f'{ROOT}/models/native_rt.cpp', [f'-DMSX_ENTRY={h["entry"]}'] + (['-DMSX_THREADS'] if thr else []))]
    futs = [pool.submit(comp, s, d, f'{work}/{tag}-{i}.o', ['-std=c++17', '-O1', '-g', '-w', '-pthread'] if s.endswith('native_rt.cpp') and thr else fl) for i, (s, d) in enumerate(srcs)]
    objs = [f.result() for f in futs]
    r = sh(cxx + ([x for x in fl if x != '-fsanitize=thread'] if thr else fl) + objs + ['-o', out, '-ldl', '-lpthread'] + (['-ljansson'] if 'jansson' in h.get('models', []) else []) + h.get('libs', []))
    if r.returncode: raise Broken('native link failed\n' + r.stdout[-3000:])
    return out

def replay_text(case):
    # an input requested repeatedly under the same name gets one line per request, in order
    L = []
    for i in case['inputs']: L.append(f"i {i['name']} {i['bytes']} {len(i['v'])} " + ' '.join(str(x) for x in i['v']))
    L.append(f"s {len(case['sched'])} " + ' '.join(str(x) for x in case['sched']))
    return '\n'.join(L) + '\n'

def run_native(binary, path, timeout=20, cwd=None, norace=False):
    env = dict(os.environ, MSX_REPLAY=path, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    if norace: env['MSX_NORACE'] = '1'
    try:
        r = subprocess.run([binary], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=cwd, errors='replace', stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode('latin1') if isinstance(r.stdout, bytes) else r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1') if isinstance(e.stdout, (bytes, type(None))) else e.stdout

def norace(h, r): return '--no-race' in h.get('args', []) + r.get('args', [])

def reproduced(kind, rc, out, case, thr):
    if rc == 'timeout': return kind in ('step-bound', 'deadlock') or 'hang' in kind
    if rc == 101: return True
    if rc == 77: return False
    if kind == 'data-race': return rc == 0 or rc not in (77, 78)
    if rc == 99 or 'AddressSanitizer' in out or 'runtime error:' in out: return True
    if isinstance(rc, int) and rc < 0: return True
    return False

import threading
LOCK = threading.Lock(); CACHE = {}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--keep', action='store_true'); ap.add_argument('--only'); ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = specs.PROPERTIES[a.id]; tier = a.tier
    if prop.get('python'):  # recipes: a different front end, same protocol
        import importlib; m = importlib.import_module(prop['python']); return m.main(a.id, tier, seed, REPO, ROOT)
    work = f'{ROOT}/build/{a.id}-{tier}-{os.getpid()}'; os.makedirs(work)
    try: return decide(a, prop, tier, seed, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

def decide(a, prop, tier, seed, work, t0):
    ensure_engine(); pool = cf.ThreadPoolExecutor(CORES); npool = cf.ThreadPoolExecutor(CORES); jobs = []
    budget = 700 if tier == 'quick' else 6 * 3600
    runs = []
    for h in prop['harnesses']:
        h = dict(h)
        if a.only and a.only not in h['name']: continue
        for i, r in enumerate(h[tier] if tier in h else h['quick']):
            r = dict(r); r['_i'] = i; runs.append((h, r))
    bpool = cf.ThreadPoolExecutor(16); bc = {}; native = {}
    for h, r in runs: bc[(h['name'], r['_i'])] = bpool.submit(build_bitcode, h, r, work, pool)
    sem = threading.Semaphore(CORES)
    def engine(h, r, part, n):
        out = f'{work}/{h["name"]}-{r["_i"]}-{part}.json'
        args = [ENGINE, bc[(h['name'], r['_i'])].result(), '--entry', h['entry'], '--out', out, '--repo', REPO, '--samples', str(h.get('samples', 6)), '--mem', str(max(3, 28 // max(1, min(CORES, len(runs) if n == 1 else CORES)))), '--max-time', str(r.get('max_time', 600 if tier == 'quick' else 3 * 3600))] + h.get('args', []) + r.get('args', [])
        if n > 1: args += ['--split', f'{part}/{n}/{r.get("depth", 6)}']
        with sem:
            left = budget - (time.time() - t0)
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=max(30, left), env=dict(os.environ, **({'MSX_LOGIC': h['logic']} if 'logic' in h else {})))
        if not os.path.exists(out): raise Broken(f'{h["name"]}: engine produced nothing (rc {p.returncode})\n' + p.stdout[-2000:])
        return json.load(open(out)), p.returncode
    epool = cf.ThreadPoolExecutor(256); futs = []
    for h, r in runs:
        n = r.get('split', 1)
        for part in range(n): futs.append((h, r, part, epool.submit(engine, h, r, part, n)))
    if not a.no_native:
        for h, r in runs:
            def nb(h=h, r=r):
                bc[(h['name'], r['_i'])].result(); return native_build(h, r, work, npool)
            native[(h['name'], r['_i'])] = bpool.submit(nb)
    only = prop.get('only'); ignored = set()
    viol = []; incomplete = []; tot = {}; fns = {}; reach = {}; samples = []; per = {}; sample_cases = {}
    for h, r, part, f in futs:
        try: d, rc = f.result()
        except subprocess.TimeoutExpired: incomplete.append(f'{h["name"]}: time budget exceeded'); continue
        key = f'{h["name"]}[{r["_i"]}]'
        for k, v in d['stats'].items(): tot[k] = round(tot.get(k, 0) + v, 3); per.setdefault(key, {}); per[key][k] = round(per[key].get(k, 0) + v, 3)
        for x in d['functions']: fns[(x['fn'], x['file'])] = x
        for l, c in d['reach'].items(): reach[(key, l)] = reach.get((key, l), 0) + c
        for why, c in d['incomplete'].items(): incomplete.append(f'{key}: {why} ({c} paths)')
        for v in d['violations']:
            if only and not re.search(only, v['kind'] + ' ' + v['msg']): ignored.add(f"{h['name']}: {v['kind']}: {v['msg']}")
            else: viol.append((h, r, v))
        sample_cases.setdefault((h['name'], r['_i']), (h, r, []))[2].extend(d['samples'])
        if rc == 3: incomplete.append(f'{key}: engine error')
    for h, r in runs:
        for l in r.get('reach', h.get('reach', [])):
            if not reach.get((f'{h["name"]}[{r["_i"]}]', l)) and not viol: incomplete.append(f'{h["name"]}[{r["_i"]}]: vacuous, "{l}" was never reached')
    # --- replay
    confirmed = []; unconfirmed = []
    known = [k for k in json.load(open(f'{ROOT}/known_findings.json'))['findings'] if k['property'] == a.id and k['status'] == 'known'] if os.path.exists(f'{ROOT}/known_findings.json') else []
    hit = {}
    os.makedirs(f'{ROOT}/replays/{a.id}', exist_ok=True)
    for n, (h, r, v) in enumerate(viol):
        ks = [k for k in known if re.search(k['match'], f"{h['name']} {v['kind']} {v['msg']}")]
        path = f'{ROOT}/replays/{a.id}/{h["name"]}-{r["_i"]}-{n}.txt'
        open(path, 'w').write(replay_text(v)); json.dump({'harness': h['name'], 'defs': r.get('defs', []), 'violation': v}, open(path[:-4] + '.json', 'w'), indent=1)
        if a.no_native: confirmed.append((h, r, v, path, 'not replayed')); continue
        if len(confirmed) >= 3: continue
        try: rc, out = run_native(native[(h['name'], r['_i'])].result(), path, timeout=15, norace=norace(h, r))
        except Broken as e: unconfirmed.append((h, r, v, path, str(e))); continue
        if reproduced(v['kind'], rc, out, v, h.get('threads')):
            if ks: hit[ks[0]['text']] = 1
            else: confirmed.append((h, r, v, path, f'rc={rc} ' + out[-600:]))
        else: unconfirmed.append((h, r, v, path, f'rc={rc} ' + out[-600:]))
    # --- sampled completed paths must behave identically when run natively (validates engine and models)
    validated = 0; mismatches = []
    if not a.no_native and not confirmed:
        for (hn, i), (h, r, cs) in sample_cases.items():
            cs = cs[:: max(1, len(cs) // h.get('validate', 8))][:h.get('validate', 8)]
            try: b = native[(hn, i)].result()
            except Broken as e: mismatches.append(f'{hn}: {e}'); continue
            def one(nc):
                n, c = nc; p = f'{work}/s-{hn}-{i}-{n}.txt'; open(p, 'w').write(replay_text(c)); rc, out = run_native(b, p, timeout=60, norace=norace(h, r)); return c, rc, out
            for c, rc, out in npool.map(one, enumerate(cs)):
                obs = [int(x.split()[1]) for x in out.splitlines() if x.startswith('OBS ')]
                if rc != 0 or obs != c['obs']: mismatches.append(f'{hn}[{i}]: sampled path differs natively: rc={rc} obs={obs} expected={c["obs"]} inputs={[(x["name"], x["v"]) for x in c["inputs"]]} {out[-500:]}')
                else: validated += 1
                if len(samples) < 12: samples.append({'harness': hn, 'inputs': [[x['name'], x['v']] for x in c['inputs']][:40], 'schedule': c['sched'][:60], 'observations': c['obs'][:40]})
    wall = round(time.time() - t0, 2)
    bounds = {f'{h["name"]}[{r["_i"]}]': r.get('bounds', h.get('bounds', '')) for h, r in runs}
    ev = {'property': a.id, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': wall, 'violations': len(confirmed),
          'assumptions': prop.get('assumptions', []) + specs.COMMON_ASSUMPTIONS,
          'coverage': {'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('forks', 0) + tot.get('sched_points', 0)), 'traces_validated_against_impl': validated,
                       'exhaustive': not incomplete and not confirmed, 'samples': samples or [{'violation': v['msg'], 'inputs': [[x['name'], x['v']] for x in v['inputs']][:40]} for _, _, v, _, _ in confirmed[:3]],
                       'explanation': 'states = symbolic path classes completed; transitions = solver-decided branches plus scheduling points; every assertion was decided by the SMT solver over all inputs of its path class within the bounds',
                       'bounds': bounds, 'harnesses': per, 'reach': {f'{k[0]}:{k[1]}': v for k, v in reach.items()},
                       'solver_queries': int(tot.get('queries', 0)), 'solver_s': tot.get('solver_s', 0), 'assertions_decided': int(tot.get('asserts', 0)), 'assertion_queries': int(tot.get('assert_queries', 0)),
                       'functions_encoded': sorted({f"{x['fn']} ({os.path.relpath(x['file'], REPO) if x['file'].startswith('/') else x['file']}:{x['line']})" for x in fns.values() if REPO in x['file'] or not x['file'].startswith('/')})[:400],
                       'incomplete': incomplete}}
    os.makedirs(f'{ROOT}/evidence', exist_ok=True); json.dump(ev, open(f'{ROOT}/evidence/{a.id}.json', 'w'), indent=1)
    for k in known: 
        if hit.get(k['text']): print(f'KNOWN-FINDING: property={a.id} {k["text"]}')
    for h, r, v, path, out in confirmed:
        print(f'{h["name"]}: {v["kind"]}: {v["msg"]} at {v["where"]}\n  inputs: {[(x["name"], x["v"]) for x in v["inputs"]][:60]}\n  stack: {v["stack"][:8]}\n  native: {out.strip()[-400:]}')
        print(f'VIOLATION property={a.id} replay={path}')
    print(f'{a.id} {tier}: paths={int(tot.get("paths", 0))} merges={int(tot.get("merges", 0))} queries={int(tot.get("queries", 0))} solver={tot.get("solver_s", 0)}s asserts={int(tot.get("asserts", 0))} validated={validated} functions={len(fns)} wall={wall}s')
    if a.verbose:
        for k, v in per.items(): print('  ', k, {x: v[x] for x in ('paths', 'merges', 'queries', 'solver_s', 'wall_s', 'asserts') if x in v}, {l[1]: c for l, c in reach.items() if l[0] == k})
    for x in sorted(ignored): print('NOTE belongs to another property:', x)
    if confirmed: return 1
    bad = False
    for x in unconfirmed: bad = True; print(f'UNCONFIRMED {x[0]["name"]}: {x[2]["kind"]}: {x[2]["msg"]} at {x[2]["where"]} {[(y["name"], y["v"]) for y in x[2]["inputs"]][:40]} stack={x[2]["stack"][:8]}\n  native: {x[4][-500:]}')
    for x in sorted(set(incomplete))[:20]: bad = True; print('INCOMPLETE', x)
    for x in mismatches[:5]: bad = True; print('MISMATCH', x)
    return 2 if bad else 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Broken as e: print('ERROR', e); sys.exit(2)
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
