# Makes and confirms a planted bug: python3 tools/seed.py batch.py [ids...]; batch.py defines SEEDS = [dict(id,property,edits=[(file,old,new)],needs,breaks,cpp,tus,libs)]
import sys, os, subprocess, json, shutil, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('b', sys.argv[1]); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
W = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for s in b.SEEDS:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    d = f'{ROOT}/seeded/{s["id"]}'; os.makedirs(d, exist_ok=True)
    if not os.path.exists(W): sh(f'cp -a /repo {W}')
    sh(f'cd {W} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for f, o, n in s['edits']:
        t = open(f'{W}/{f}').read(); assert t.count(o) == 1, (s['id'], f, t.count(o)); open(f'{W}/{f}', 'w').write(t.replace(o, n))
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {W} diff').stdout)
    if 'sh' in s: open(f'{d}/demo.sh', 'w').write(s['sh'])
    else:
        open(f'{d}/demo.cpp', 'w').write(s['cpp'])
        srcs = ' '.join(s.get('tus', []))
        open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# exits 0 if the property holds
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"; tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
i=0; objs=""
for f in "$here/demo.cpp" {" ".join('"$repo/%s"' % t for t in s.get("tus", []))}; do
  i=$((i+1)); g++ -std=c++17 -O1 -pthread {s.get("flags","")} -w -iquote "$(dirname "$f")" -iquote "$repo" -c "$f" -o "$tmp/$i.o" & objs="$objs $tmp/$i.o"
done; wait
g++ -pthread {s.get("flags","")} $objs {s.get("libs","-lstdc++fs")} -o "$tmp/demo" || exit 2
cd "$tmp"; timeout 60 ./demo; r=$?
[ $r -eq 0 ] && exit 0; echo "demo failed: $r"; exit 1
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    for f, t in s.get('files', {}).items(): open(f'{d}/{f}', 'w').write(t)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    a = sh(f'cd {W} && git stash -q && bash {d}/demo.sh'); x = sh(f'cd {W} && git stash pop -q && bash {d}/demo.sh')
    print(s['id'], 'clean', a.returncode, 'patched', x.returncode, 'OK' if a.returncode == 0 and x.returncode == 1 else 'BAD ' + (a.stdout + a.stderr)[-400:] + ' | ' + (x.stdout + x.stderr)[-300:], flush=True)
