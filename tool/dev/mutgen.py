#!/usr/bin/env python3
"""Development tool: writes DIR/<name>.diff for each (name, file, old, new[, file, old, new...]) of a spec file's M list."""
import sys, os, subprocess, shutil, tempfile
spec, out = sys.argv[1], sys.argv[2]; only = sys.argv[3:]
os.makedirs(out, exist_ok=True); g = {}; exec(open(spec).read(), g)
for name, *edits in g['M']:
    if only and name not in only: continue
    d = tempfile.mkdtemp(prefix='mg'); subprocess.run(['git', '-C', '/repo', 'worktree', 'prune']); subprocess.run(f'git -C /repo archive HEAD src imagequant-sys | tar x -C {d} && cd {d} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, check=True)
    for f, old, new in zip(edits[0::3], edits[1::3], edits[2::3]):
        t = open(f'{d}/{f}').read(); n = t.count(old)
        if n != 1: print(f'{name}: {n} matches of {old!r} in {f}'); break
        open(f'{d}/{f}', 'w').write(t.replace(old, new))
    else: open(f'{out}/{name}.diff', 'w').write(subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout)
    shutil.rmtree(d)
