#!/usr/bin/env python3
"""Solver stability: each unit is verified under several random seeds. Usage: stability.py SEEDS [unit...]"""
import os, re, subprocess, sys, glob, concurrent.futures
n = int(sys.argv[1])
units = sys.argv[2:] or [os.path.basename(p)[:-3] for p in sorted(glob.glob('/verif/verus/*.rs')) if '// unit: props=' in open(p).read()]
os.makedirs('/tmp/vxo', exist_ok=True)
def go(a):
    u, s = a
    out = f'/tmp/vxo/stab_{u}_{s}.rs'
    subprocess.run(['/verif/build/vx/release/vx', f'/verif/verus/{u}.rs', '/repo', out], check=True)
    r = subprocess.run(['timeout', '600', 'verus', out, '--rlimit', '30', '--num-threads', '2', '--triggers-mode', 'silent', '--smt-option', f'smt.random_seed={s}', '--smt-option', f'sat.random_seed={s}'], capture_output=True, text=True, cwd='/tmp/vxo')
    text = open(out).read().split('\n')
    bad = set()
    for m in re.findall(r'^error.*\n\s*-->.*?:(\d+):', r.stdout + r.stderr, re.M):
        for i in range(int(m), 0, -1):
            k = re.match(r'// @@begin (\S+)', text[i - 1])
            if k: bad.add(k.group(1)); break
    os.remove(out)
    return u, s, bad, r.returncode
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for u, s, bad, rc in ex.map(go, [(u, s) for u in units for s in range(1, n + 1)]):
        if rc: print(u, s, bad, rc, flush=True)
