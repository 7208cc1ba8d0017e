#!/usr/bin/env python3
"""Run one property check:  check.py P01 [--tier quick|thorough] [--seed N] [--keep]
Builds the property's monitors from /repo's working tree in a scratch directory, runs them, decides.
exit 0 held / exit 1 VIOLATION line / exit 2 the check itself could not run."""
import sys, os, json, re, subprocess, tempfile, shutil, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import JOBS, META   # per-property job lists
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = 8

def log(*a): print(*a, file=sys.stderr, flush=True)

def gen_headers(dst):
    """Configured headers, produced from the templates of the working tree (what cmake's configure_file does)."""
    ver = '0.0.0'
    try:
        m = re.search(r'project\s*\(\s*Caribou\s+VERSION\s+([0-9.]+)', open(f'{REPO}/CMakeLists.txt').read())
        if m: ver = m.group(1)
    except OSError: pass
    on = {'CARIBOU_WITH_VTK', 'CARIBOU_BUILD_TESTS'}
    def conv(src, out):
        t = open(src).read()
        def cd(m):
            n = m.group(1); return f'#define {n}' + (m.group(2) or '') if n in on else f'/* #undef {n} */'
        t = re.sub(r'#cmakedefine\s+(\w+)([^\n]*)', cd, t)
        t = re.sub(r'@[A-Za-z_]*VERSION@|\$\{[A-Za-z_]*VERSION\}', ver, t)
        t = re.sub(r'@[A-Za-z_]*VERSION_MAJOR@|\$\{[A-Za-z_]*VERSION_MAJOR\}', ver.split('.')[0], t)
        t = re.sub(r'@[A-Za-z_]*VERSION_MINOR@|\$\{[A-Za-z_]*VERSION_MINOR\}', (ver.split('.') + ['0'])[1], t)
        t = re.sub(r'@\w+@|\$\{\w+\}', '', t)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        open(out, 'w').write(t)
    s = f'{REPO}/src/Caribou'
    for n in os.listdir(f'{s}/Config'):
        if n.endswith('.h.in'): conv(f'{s}/Config/{n}', f'{dst}/Caribou/{n[:-3]}')
    for sub, src in (('Topology/config.h', 'Topology/config.h.in'), ('Python/Caribou.h', 'Python/Config/Caribou.h.in')):
        if os.path.exists(f'{s}/{src}'): conv(f'{s}/{src}', f'{dst}/Caribou/{sub}')
    # SOFA is not installed: every SOFA header the SofaCaribou sources name forwards to the stand-in of shim/minisofa.h
    s = f'{REPO}/src/SofaCaribou'
    if os.path.exists(f'{s}/config.h.in'): conv(f'{s}/config.h.in', f'{dst}/SofaCaribou/config.h')
    names = {'sofa/config.h'}
    for d, _, fs in os.walk(s):
        for f in fs:
            if f.endswith(('.h', '.inl', '.cpp')):
                names |= set(re.findall(r'#\s*include\s*[<"]((?:sofa|Sofa(?!Caribou))[^>"]*)[>"]', open(f'{d}/{f}', errors='replace').read()))
    for n in names:
        if '..' in n: continue
        os.makedirs(os.path.dirname(f'{dst}/{n}'), exist_ok=True)
        open(f'{dst}/{n}', 'w').write(f'#pragma once\n#include "{HERE}/shim/{"sofapython3" if n.startswith("SofaPython3/") else "minisofa"}.h"\n')

def run(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return 'timeout', o, e

SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
       'tsan': ['-fsanitize=thread'], 'none': []}

def compile_job(job, scratch):
    if job.get('build') is None: return None
    outs = []
    b = job['build']
    exe = f"{scratch}/{job['name']}"
    cxx = b.get('cxx', 'g++')
    cmd = [cxx, '-std=c++17', b.get('opt', '-O1'), '-g1', '-w', '-fno-omit-frame-pointer', '-pthread'] + SAN[b.get('san', 'asan')]
    if cxx.startswith('g++'): cmd += ['-ftrivial-auto-var-init=pattern']
    cmd += [f'-I{scratch}/inc', f'-I{HERE}/harness'] + [f'-I{HERE}/{x}' for x in b.get('inc', [])] + [f'-I{REPO}/src', '-isystem', '/usr/include/eigen3']
    cmd += [f'-I{x}' for x in b.get('sysinc', [])] + [f'-D{d}' for d in b.get('defs', [])]
    cmd += b.get('flags', [])
    srcs = [s.replace('@scratch@', scratch) if s.startswith(('/', '@scratch@')) else (f'{REPO}/{s[6:]}' if s.startswith('@repo/') else f'{HERE}/harness/{s}') for s in b['src']]
    cmd += srcs + ['-o', exe + b.get('suffix', '')] + b.get('libs', [])
    for att in (0, 1):
        rc, o, e = run(cmd, 800)
        if rc == 0: return None
        if rc != 'timeout' and b'Killed' not in e and b'internal compiler error' not in e: break
    return f"build of {job['name']} failed ({rc}): {' '.join(cmd)}\n{e.decode(errors='replace')[-6000:]}"

BASE_ENV = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN_', 'UBSAN_', 'TSAN_', 'LD_PRELOAD'))}

def run_job(job, scratch, tier, seed, only=None):
    """returns dict(violations=[(key, case, msg)], summary=..., error=...)"""
    res = {'violations': [], 'summary': None, 'error': None, 'name': job['name']}
    out = f"{scratch}/{job['name']}.jsonl"
    env = dict(BASE_ENV)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SCRATCH=f"{scratch}/run_{job['name']}", VERIF_REPO=REPO, VERIF_HARNESS=f'{HERE}/harness',
               ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=77:handle_abort=1:handle_sigfpe=1:detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=1048576:max_free_fill_size=4096:free_fill_byte=205:strict_init_order=1:check_initialization_order=1:allocator_may_return_null=1:quarantine_size_mb=64' % (1 if job.get('leaks', True) else 0),
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TSAN_OPTIONS='halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:log_path=' + f"{scratch}/{job['name']}.tsan")
    env.update(job.get('env', {}))
    env = {k: v.replace('@scratch@', scratch).replace('@repo@', REPO) for k, v in env.items()}
    os.makedirs(env['VERIF_SCRATCH'], exist_ok=True)
    if 'cmd' in job: cmd = [c.replace('@scratch@', scratch).replace('@harness@', f'{HERE}/harness').replace('@repo@', REPO) for c in job['cmd']]
    else: cmd = [f"{scratch}/{job['name']}"]
    cmd = cmd + [f'--out={out}', f'--seed={seed}', f'--tier={tier}'] + [a.replace('@scratch@', scratch) for a in job.get('args', [])] + ([f'--only={only}'] if only else [])
    limit = job.get('limit', {'quick': 300, 'thorough': 3000})[tier]
    for att in (0, 1):
        try: os.unlink(out)
        except OSError: pass
        rc, o, e = run(cmd, limit, env, cwd=env['VERIF_SCRATCH'])
        if rc != 'timeout' and rc not in (-9,): break
    recs = []
    if os.path.exists(out):
        for l in open(out, errors='replace'):
            try: recs.append(json.loads(l))
            except ValueError: pass
    for r in recs:
        if r.get('type') == 'violation': res['violations'].append((r['key'], r['case'], r['msg']))
        if r.get('type') == 'summary': res['summary'] = r
    et = e.decode(errors='replace')
    case = ''
    m = re.findall(r'@@CASE (.*)', et)
    if m: case = m[-1]
    if job.get('build') and job['build'].get('san') == 'tsan':
        import glob
        for f in sorted(glob.glob(f"{scratch}/{job['name']}.tsan*")):
            t = open(f, errors='replace').read()
            for blk in t.split('==================')[1:]:
                if 'WARNING: ThreadSanitizer' in blk:
                    fr = [x for x in re.findall(r'#\d+ (.*?) (?:/|<null>)', blk)]
                    loc = [x for x in re.findall(r'(src/(?:Caribou|SofaCaribou)/\S+?):\d+', blk)]
                    kind = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', blk).group(1).strip()
                    res['violations'].append((f"tsan:{kind}:{loc[0] if loc else (fr[0] if fr else '?')}", case, blk.strip()[:1800]))
    if rc == 'timeout':
        res['violations'].append((f"hang:{job['name']}", read_cur(out, case), f'no termination within {limit} s (twice)'))
    elif rc == -9:
        res['error'] = f"{job['name']} was killed (out of memory?)"
    elif rc != 0 or res['summary'] is None:
        kind = None
        for pat in (r'ERROR: AddressSanitizer: ([\w-]+)', r'ERROR: (LeakSanitizer): detected', r'(runtime error: [^\n]*)', r'(Assertion [^\n]*failed)', r'@@EXC ([^\n]*)', r'@@LEAK ([^\n]*)'):
            m = re.search(pat, et)
            if m: kind = m.group(1); break
        if rc == 3 and '@@HARNESS' in et: res['error'] = f"{job['name']}: harness error: {et[-2000:]}"
        else:
            loc = re.findall(r'(src/(?:Caribou|SofaCaribou)/[\w/.]+):\d+', et)
            res['violations'].append((f"crash:{(kind or f'exit {rc}')[:80]}:{loc[0] if loc else '?'}", case, et[-2500:] if kind is None else et[max(0, et.find(kind) - 200):][:2500]))
    res['stderr'] = et[-500:]
    return res

def read_cur(out, case): return case or '(unknown case)'

def known_findings(prop):
    kf = []
    p = f'{HERE}/known_findings.json'
    if os.path.exists(p):
        for f in json.load(open(p)).get('findings', []):
            if f['property'] == prop and f.get('status') == 'open': kf.append(f)
    return kf

def match_finding(f, key, case, msg):
    return (re.fullmatch(f['key'], key) is not None and re.search(f.get('case', ''), case) is not None and re.search(f.get('msg', ''), msg) is not None)

def selftest():
    """setup: the toolchain works and the sanitizers really stop a bad program"""
    d = tempfile.mkdtemp(prefix='caribou-verif-setup-')
    try:
        open(f'{d}/a.cpp', 'w').write('#include <Eigen/Core>\nint main(int c, char**){ int *p = new int[c]; int r = p[c]; delete[] p; return r; }')
        rc, o, e = run(['g++', '-std=c++17', '-g1', '-isystem', '/usr/include/eigen3'] + SAN['asan'] + [f'{d}/a.cpp', '-o', f'{d}/a'], 300)
        if rc != 0: print('setup: the compiler does not work', e.decode()); return 2
        rc, o, e = run([f'{d}/a'], 60)
        if b'heap-buffer-overflow' not in e: print('setup: the sanitizer does not work', rc, e.decode()); return 2
        print('setup: ok'); return 0
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    prop = sys.argv[1]
    if prop == '--selftest': return selftest()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); keep = False; only = None; onlyjob = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--seed': seed = int(a.pop(0))
        elif x == '--keep': keep = True
        elif x == '--only': only = a.pop(0)
        elif x == '--job': onlyjob = a.pop(0)
        elif x == '--replay':
            d = json.load(open(a.pop(0))); seed, tier, onlyjob = d['seed'], d['tier'], d['job']; only = (d['case'].split(' ')[0] or None)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'caribou-verif-{prop}-')
    rcode = 2
    try:
        jobs = JOBS(prop, tier)
        if onlyjob: jobs = [j for j in jobs if j['name'] == onlyjob]
        gen_headers(f'{scratch}/inc')
        # builds shared between jobs are made once
        builds = {}
        for j in jobs:
            if j.get('build'): builds.setdefault(j['name'] if 'exe' not in j else j['exe'], j)
            for extra in j.get('pre', []): builds.setdefault(extra['name'], extra)
        order = sorted(builds.values(), key=lambda j: -j.get('weight', 1))
        errs = []
        for stage in (0, 1):   # objects, then what links them
            with ThreadPoolExecutor(NCPU) as ex: errs += [e for e in ex.map(lambda j: compile_job(j, scratch), [j for j in order if j.get('stage', 0) == stage]) if e]
            if errs: break
        if errs:
            for e in errs: log(e)
            print(f'ERROR property={prop} monitors could not be built'); return 2
        tb = time.time() - t0
        with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(lambda j: run_job(j, scratch, tier, seed, only), jobs))
        errs = [r['error'] for r in results if r['error']]
        obs, cls, samples = {}, {}, []; ev = di = 0
        viols = []
        for r in results:
            for v in r['violations']: viols.append((r['name'],) + tuple(v))
            s = r['summary']
            if s:
                for k, v in s['obs'].items(): obs[k] = obs.get(k, 0) + v
                for k, v in s['cls'].items(): cls[k] = cls.get(k, 0) + v
                ev += s['evaluations']; di += s['distinct']; samples += s['samples'][:3]
        kf = known_findings(prop); unknown = []; seen = {}
        for v in viols:
            for f in kf:
                if match_finding(f, v[1], v[2], v[3]): seen.setdefault(f['id'], f); break
            else: unknown.append(v)
        meta = META[prop]
        if not errs and not unknown and not only:
            # a run that observed nothing decides nothing
            if ev == 0 or di < 2 or not obs: errs.append('the monitors observed nothing')
            for need in meta.get('must_observe', []):
                if not any(re.fullmatch(need, k) for k in list(obs) + list(cls)): errs.append(f'required observation {need} never happened')
        wall = round(time.time() - t0, 2)
        if not only and not onlyjob and REPO == '/repo':
            os.makedirs(f'{HERE}/evidence', exist_ok=True)
            evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': wall, 'violations': len(unknown),
                   'coverage': {'evaluations': ev, 'distinct_nontrivial': di, 'rule': meta['rule'], 'samples': samples[:20] or ['none'],
                                'monitor_observations': obs, 'observed_classes': dict(sorted(cls.items())[:400]), 'jobs': [r['name'] for r in results], 'build_s': round(tb, 1),
                                'known_findings_reproduced': sorted(seen), 'exhaustive': False},
                   'assumptions': meta.get('assumptions', [])}
            json.dump(evd, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
        for f in kf:
            if f['id'] in seen: print(f"KNOWN-FINDING: property={prop} {f['what']}")
        if unknown:
            rdir = f'{HERE}/evidence/replays'; os.makedirs(rdir, exist_ok=True)
            done = set()
            for n, (job, key, case, msg) in enumerate(unknown):
                if key in done or len(done) > 12: continue
                done.add(key)
                rp = f'{rdir}/{prop}-{len(done)}.json'
                json.dump({'property': prop, 'job': job, 'key': key, 'case': case, 'message': msg, 'seed': seed, 'tier': tier,
                           'rerun': f'python3 {HERE}/check.py {prop} --replay {rp}'}, open(rp, 'w'), indent=1)
                print(f'VIOLATION property={prop} replay={rp}')
                log(f'  {key}: case {case[:300]}: {msg[:1200]}')
            rcode = 1
        elif errs:
            for e in errs: log('ERROR', e)
            print(f'ERROR property={prop} the check could not decide'); rcode = 2
        else:
            print(f'OK property={prop} tier={tier} seed={seed} evaluations={ev} distinct={di} monitors={len(obs)} observations={sum(obs.values())} wall={wall}s'); rcode = 0
        return rcode
    finally:
        if keep: log('kept', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
