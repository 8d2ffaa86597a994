#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines seeds = [dict(id, property, needs, what, edits=[(file, old, new)], demo=rust source, features='', profile='')]"""
import sys, os, subprocess, json, shutil, runpy
seeds = runpy.run_path(sys.argv[1])['seeds']
T = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_template.sh')).read()
for s in seeds:
    d = '/tmp/mkseed'; shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    for f, old, new in s['edits']:
        p = f'{d}/{f}'; t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
    o = f'/verif/seeded/{s["id"]}'; os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.sh', 'w').write(T.replace('@FEATURES@', ', '.join(f'"{x}"' for x in s.get('features', '').split())).replace('@PROFILE@', s.get('profile', '')))
    open(o + '/demo.rs', 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d, ignore_errors=True)
    print(s['id'])
