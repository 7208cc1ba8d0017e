"""prep.py DST: SOFA is not installed, so forward every SOFA header SofaCaribou names to the stand-in beside this file, and configure SofaCaribou/config.h and Caribou's headers."""
import os, re, sys
REPO, DST, HERE = '/repo', sys.argv[1], os.path.dirname(os.path.abspath(__file__))
def conv(src, out):
    t = open(src).read(); on = {'CARIBOU_WITH_VTK', 'CARIBOU_BUILD_TESTS'}
    t = re.sub(r'#cmakedefine\s+(\w+)([^\n]*)', lambda m: f'#define {m.group(1)}' + (m.group(2) or '') if m.group(1) in on else f'/* #undef {m.group(1)} */', t)
    t = re.sub(r'[@$]\{?[A-Za-z_]*VERSION_M(AJ|IN)OR[@}]', '0', t); t = re.sub(r'[@$]\{?[A-Za-z_]*VERSION[@}]', '0.0.0', t); t = re.sub(r'@\w+@|\$\{\w+\}', '', t)
    os.makedirs(os.path.dirname(out), exist_ok=True); open(out, 'w').write(t)
s = f'{REPO}/src/Caribou'
for n in os.listdir(f'{s}/Config'):
    if n.endswith('.h.in'): conv(f'{s}/Config/{n}', f'{DST}/Caribou/{n[:-3]}')
if os.path.exists(f'{s}/Topology/config.h.in'): conv(f'{s}/Topology/config.h.in', f'{DST}/Caribou/Topology/config.h')
s = f'{REPO}/src/SofaCaribou'; conv(f'{s}/config.h.in', f'{DST}/SofaCaribou/config.h'); names = {'sofa/config.h'}
for d, _, fs in os.walk(s):
    for f in fs:
        if f.endswith(('.h', '.inl', '.cpp')): names |= set(re.findall(r'#\s*include\s*[<"]((?:sofa|Sofa(?!Caribou))[^>"]*)[>"]', open(f'{d}/{f}', errors='replace').read()))
for n in names:
    if '..' in n: continue
    os.makedirs(os.path.dirname(f'{DST}/{n}'), exist_ok=True); open(f'{DST}/{n}', 'w').write(f'#pragma once\n#include "{HERE}/{"sofapython3" if n.startswith("SofaPython3/") else "minisofa"}.h"\n')
