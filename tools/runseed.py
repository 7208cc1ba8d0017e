#!/usr/bin/env python3
"""runseed.py [ids...] [--all-props]: run the check of each planted bug's property against a scratch copy of /repo with the bug applied."""
import sys, os, json, subprocess, shutil, tempfile
V = '/verif'; ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='seedrepo-')
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {d} && cd {d} && git init -q . && git apply {V}/seeded/{i}/patch.diff', shell=True, check=True)
        r = subprocess.run(['python3', f'{V}/check.py', m['property']], env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1'), capture_output=True, text=True)
        print(i, m['property'], {1: 'CAUGHT', 0: 'MISSED'}.get(r.returncode, f'ERROR {r.returncode}'), [l[:160] for l in r.stderr.splitlines() if l.startswith('  ')][:2] or r.stdout[-300:], flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
