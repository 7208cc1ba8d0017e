#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]: make and confirm planted bugs. SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ or None, sh=..., py=...)].
Applies the edits in /repo, builds, runs the stable tests, runs the demo with and without; keeps it under /verif/seeded. Always restores /repo."""
import sys, os, json, subprocess, runpy, shutil
spec = runpy.run_path(sys.argv[1]); ids = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -w %s -I/repo/_build/include -I/repo/src -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -pthread %s || exit 99
timeout 120 "$t/demo"
'''
SOFA = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
python3 "$d/prep.py" "$t/inc" || exit 99
for f in "$d/demo.cpp"%s; do g++ -c -std=c++17 -O1 -g1 -w %s -I"$d" -I"$t/inc" -I/repo/src -isystem /usr/include/eigen3 "$f" -o "$t/$(basename "$f").o" -pthread & done
for j in $(jobs -p); do wait $j || exit 99; done
g++ "$t"/*.o -o "$t/demo" -pthread %s || exit 99
timeout 120 "$t/demo"
'''
PY = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build/lib/python3/site-packages
timeout 120 /usr/bin/python3 "$d/demo.py"
'''
SDEF = ['-DCARIBOU_BUILD_SOFACARIBOU']
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): return sh('bash /opt/vp/build.sh')
assert not sh('git -C /repo status --porcelain').stdout.strip()
todo = [s for s in spec['SEEDS'] if not ids or s['id'] in ids]
for s in todo:
    d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    if s.get('py'): open(f'{d}/demo.py', 'w').write(s['py']); open(f'{d}/demo.sh', 'w').write(PY)
    elif s.get('sh'):
        open(f'{d}/demo.sh', 'w').write(s['sh'])
        if 'demo' in s: open(f'{d}/demo.cpp', 'w').write(s['demo']); shutil.copy('/verif/tools/seed_sofa_prep.py', f'{d}/prep.py')
        if 'demopy' in s: open(f'{d}/demo.py', 'w').write(s['demopy'])
        for f in s.get('files', []): shutil.copy(f, d)
    elif 'sofa' in s:
        open(f'{d}/demo.cpp', 'w').write(s['demo']); shutil.copy('/verif/shim/minisofa.h', d); shutil.copy('/verif/tools/seed_sofa_prep.py', f'{d}/prep.py')
        open(f'{d}/demo.sh', 'w').write(SOFA % (''.join(f' "/repo/src/SofaCaribou/{x}.cpp"' for x in s['sofa']), ' '.join(SDEF) + ' ' + s.get('flags', ''), s.get('libs', '')))
    else: open(f'{d}/demo.cpp', 'w').write(s['demo']); open(f'{d}/demo.sh', 'w').write(SH % (s.get('flags', ''), s.get('libs', '')))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
build()
clean = {}
for s in todo:
    r = sh(f"bash /verif/seeded/{s['id']}/demo.sh", cwd='/repo'); clean[s['id']] = r
for s in todo:
    d = f"/verif/seeded/{s['id']}"; ok = True; why = []
    if clean[s['id']].returncode != 0: ok = False; why.append(f"demo fails on the clean tree ({clean[s['id']].returncode}): {clean[s['id']].stdout[-1500:]}")
    try:
        for f, old, new in s['edits']:
            p = f'/repo/{f}'; t = open(p).read()
            if t.count(old) != s.get('count', 1): raise SystemExit(f"{s['id']}: {f}: {t.count(old)} matches of {old!r}")
            open(p, 'w').write(t.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/test.sh /tmp/w/seed.json')
        t = json.load(open('/tmp/w/seed.json'))
        miss = stable - set(t['passed'])
        if miss: ok = False; why.append(f'tests fail: {sorted(miss)[:6]} ' + (r.stdout[-1500:] if len(miss) == len(stable) else ''))
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r.returncode == 0: ok = False; why.append('demo passes with the bug')
        if r.returncode == 99: ok = False; why.append('demo does not compile: ' + r.stdout[-1500:])
    finally: sh('git -C /repo checkout -- .')
    print(s['id'], s['property'], 'KEPT' if ok else 'REJECTED ' + ' | '.join(why), '' if not ok else r.stdout[-150:].replace('\n', ' / '), flush=True)
    if not ok: shutil.move(d, f"/tmp/w/seed/{s['id']}") if not os.path.exists(f"/tmp/w/seed/{s['id']}") else shutil.rmtree(d)
build()
