#!/usr/bin/env python3
"""Vacuity probe: `assert(false)` at the entry (and, separately, before the end) of every function under contract has to be refused.
Usage: vacuity.py [unit...]"""
import os, re, subprocess, sys, glob
units = sys.argv[1:] or [os.path.basename(p)[:-3] for p in sorted(glob.glob('/verif/verus/*.rs')) if '// unit: props=' in open(p).read()]
bad = 0
for u in units:
    for mode in ('entry', 'end', 'loop'):
        out = f'/tmp/vxo/probe_{u}.rs'
        os.makedirs('/tmp/vxo', exist_ok=True)
        subprocess.run(['/verif/build/vx/release/vx', f'/verif/verus/{u}.rs', '/repo', out], env=dict(os.environ, VX_PROBE=mode), check=True)
        r = subprocess.run(['timeout', '600', 'verus', out, '--rlimit', '30', '--num-threads', '8', '--triggers-mode', 'silent', '--multiple-errors', '100'], capture_output=True, text=True, cwd='/tmp/vxo')
        text = open(out).read().split('\n')
        probes = {i + 1 for i, l in enumerate(text) if l.strip().endswith('// probe')}
        hit = {int(m) for m in re.findall(r'-->.*?:(\d+):', r.stdout + r.stderr)}
        miss = probes - hit
        # a function on which the solver gives up is refused, too
        lim = [int(m) for m in re.findall(r'Resource limit.*?\n\s*-->.*?:(\d+):', r.stdout + r.stderr)]
        miss = {m for m in miss if not any(l < m and not any('// @@end' in text[k] for k in range(l, m)) for l in lim)}
        def fn(line):
            for i in range(line, 0, -1):
                m = re.match(r'// @@begin (\S+)', text[i - 1])
                if m: return m.group(1)
        print(u, mode, len(probes), 'probes,', len(miss), 'not refused:', [fn(m) for m in sorted(miss)], flush=True)
        bad += len(miss)
sys.exit(1 if bad else 0)
