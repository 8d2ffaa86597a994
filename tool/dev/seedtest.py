#!/usr/bin/env python3
"""Development tool (no check uses it): confirms planted bugs and refactorings in throw-away copies.
   seedtest.py ID...            confirm: applies, builds, stable tests pass, demo 0 on clean / nonzero with patch; then runs the property's check
   seedtest.py --checks C01,C02 ID   other checks to run;  --noconfirm skips build/test/demo; --refactor DIFF runs checks on DIFF
"""
import sys, os, json, subprocess, shutil, argparse, re, time
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser(); ap.add_argument('ids', nargs='*'); ap.add_argument('--checks'); ap.add_argument('--noconfirm', action='store_true'); ap.add_argument('--nocheck', action='store_true'); ap.add_argument('-j', type=int, default=2)
ap.add_argument('--keep', action='store_true')
a = ap.parse_args()
def ns(d, cmd, timeout=1500):
    s = f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && {cmd}'
    try: p = subprocess.run(['unshare', '-m', 'bash', '-c', s], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, cwd='/')
    except subprocess.TimeoutExpired: return 'timeout', ''
    return p.returncode, p.stdout
def one(i):
    src = i if i.endswith('.diff') else f'/verif/seeded/{i}/patch.diff'
    name = re.sub(r'\W', '_', i)
    d = f'/tmp/st/{name}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', '/verif', d], check=True)
    if not i.endswith('.diff'): shutil.copytree(f'/verif/seeded/{i}', f'{d}/demo', dirs_exist_ok=True)
    out = [name]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    isbug = not i.endswith('.diff')
    meta = json.load(open(f'/verif/seeded/{i}/meta.json')) if isbug else {'property': m.group(1).upper()} if (m := re.match(r'(c\d\d)-', os.path.basename(i))) else {}
    if not a.noconfirm and isbug:
        rc, o = ns(d, f'cd /repo && bash {d}/demo/demo.sh'); out.append(f'demo clean rc={rc}' + ('' if rc == 0 else ' BAD ' + o[-600:]))
    p = subprocess.run(['git', '-C', f'{d}/repo', 'apply', src], capture_output=True, text=True)
    if p.returncode: out.append('DOES NOT APPLY ' + p.stderr); print('\n'.join(out)); return
    if not a.noconfirm:
        rc, o = ns(d, 'bash /opt/vp/build.sh'); out.append(f'build rc={rc}' + ('' if rc == 0 else ' BAD ' + o[-1500:]))
        ns(d, f'bash /opt/vp/test.sh {d}/t.json')
        try: t = json.load(open(f'{d}/t.json')); passed = set(t.get('passed', [])); out.append('tests ' + ('ok' if stable <= passed else 'BAD failing: ' + ' '.join(sorted(stable - passed)[:6])))
        except Exception as e: out.append(f'tests BAD {e}')
        if isbug:
            rc, o = ns(d, f'cd /repo && bash {d}/demo/demo.sh'); out.append(f'demo patched rc={rc}' + (' ' + o[-200:] if rc != 0 else ' BAD (does not fail)'))
    if not a.nocheck:
        for c in (a.checks or meta.get('property', '')).split(','):
            if not c: continue
            t = time.time()
            rc, o = ns(d, f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tool/check.py {c}')
            out.append(f'check {c} rc={rc} {time.time()-t:.0f}s ' + ' | '.join(l[:300] for l in o.splitlines() if l.startswith(('VIOLATION', '  ')))[:900])
    if not a.keep: shutil.rmtree(d, ignore_errors=True)
    print('\n   '.join(out), flush=True)
with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, a.ids))
