"""Runs the Verus units of /verif/verus on functions extracted from /repo's current sources by vx.

A unit is verus/NAME.rs with a line `// unit: props=C01,C16 [skel]`. Outcomes:
  ok      Verus accepted every obligation
  failed  an obligation generated from a function of /repo was refuted or not proved: reported
  lost    the extracted text is not within reach any more (a construct, a name or a loop the contracts do not know, or the
          solver gave up): undecided, never reported as a violation
"""
import os, re, json, subprocess, time, glob, concurrent.futures
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LIQ_REPO', '/repo')
VX = os.path.join(VERIF, 'build', 'vx', 'release', 'vx')
try: SKEL = json.load(open(os.path.join(VERIF, 'verus', 'skeletons.json')))
except OSError: SKEL = {}
OBLIGATION = ('postcondition not satisfied', 'precondition not satisfied', 'precondition not met', 'bitvector assertion', 'unable to prove this pattern', 'could not prove termination', 'invariant not satisfied', 'loop invariant not satisfied', 'loop ensures not satisfied', 'assertion failed', 'possible arithmetic underflow/overflow',
              'possible division by zero', 'decreases not satisfied', 'possible bit shift', 'constant value', 'termination', 'assert_by')

def build():
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(VERIF, 'build', 'vx')], cwd=os.path.join(VERIF, 'vx'),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    return p.returncode == 0, p.stdout[-2000:]

class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-3]
        t = open(path).read()
        m = re.search(r'^// unit: props=(\S+)(.*)$', t, re.M)
        self.props = m.group(1).split(',') if m else []
        self.slow = bool(m and 'slow' in m.group(2))
        self.status, self.reason, self.fns, self.failed, self.output = 'lost', 'not run', [], [], ''
        self.obligations = self.discharged = 0
        self.skel = {}
        self.time, self.trusted, self.cmd, self.lost = 0.0, [], '', {}

def units():
    us = [Unit(p) for p in sorted(glob.glob(os.path.join(VERIF, 'verus', '*.rs')))]
    return [u for u in us if u.props]

def trusted_of(text, name):
    out = set()
    for m in re.finditer(r'^// @@assumed (\S+) (\S+) proved in (\S+)\n#\[verifier::external_body\] ', text, re.M): out.add(f'Verus {name}: uses the contract of {m.group(2)} {m.group(1)}, discharged in unit {m.group(3)}')
    text = re.sub(r'^(// @@assumed .*\n)#\[verifier::external_body\] ', r'\1', text, flags=re.M)
    for m in re.finditer(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:fn|struct|proof fn) (\w+)', text): out.add(f'Verus {name}: external_body {m.group(1)}')
    for m in re.finditer(r'assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', text): out.add(f'Verus {name}: assumed contract of {re.sub(chr(92)+"s+", " ", m.group(1))}')
    for m in re.finditer(r'(?:axiom fn|admit_fn) (\w+)', text): out.add(f'Verus {name}: axiom {m.group(1)}')
    n = len(re.findall(r'\b(?:assume|admit)\s*\(', text))
    if n: out.add(f'Verus {name}: {n} assume statement(s)')
    return sorted(out)

def run_unit(u, workdir, rlimit):
    """functions that are out of reach are taken as their contracts, one after another, so that they do not hide what the others do"""
    t0 = time.time()
    u.lost = {}
    try:
        while True:
            more = attempt(u, workdir, rlimit, t0)
            if not more: break
            u.lost.update(more)
            if len(u.lost) > 8 or time.time() - t0 > 400: u.status, u.reason, u.failed = 'lost', 'out of reach: ' + '; '.join(f'{k}: {v}' for k, v in u.lost.items())[:900], []; break
    except subprocess.TimeoutExpired: u.status, u.reason, u.failed = 'lost', 'timeout', []
    if u.lost and u.status == 'ok': u.status, u.reason = 'lost', '; '.join(f'{k}: {v}' for k, v in u.lost.items())[:900]
    u.fns = [f for f in u.fns if f not in u.lost]
    if not u.time: u.time = round(time.time() - t0, 2)

def attempt(u, workdir, rlimit, t0):
    """sets the unit's status, or returns the functions to be taken as their contracts"""
    out = os.path.join(workdir, u.name + '.rs')
    u.status, u.failed, u.fns, u.skel = 'lost', [], [], {}
    p = subprocess.run([VX, u.path, REPO, out, *u.lost], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    if p.returncode != 0:
        m = re.match(r'vx: \[([^\]]+)\] (.*)', p.stderr.strip(), re.S)
        if m and m.group(1) not in u.lost: return {m.group(1): 'not extracted: ' + m.group(2)[-300:]}
        u.reason = 'not extracted: ' + p.stderr.strip()[-600:]; return
    text = open(out).read()
    owner, cur = {}, None
    for i, l in enumerate(text.splitlines(), 1):
        m = re.match(r'// @@begin (.+)', l)
        if m: cur = m.group(1); u.fns.append(cur)
        m = re.match(r'// skeleton: (.*)', l)
        if m and cur: u.skel[cur] = m.group(1).strip()
        if cur: owner[i] = cur
        if l.startswith('// @@end'): cur = None
    u.trusted = trusted_of(text, u.name)
    cmd = ['verus', out, '--output-json', '--time', '--rlimit', str(rlimit), '--num-threads', '3', '--triggers-mode', 'silent', '--error-format=json']
    u.cmd = f'vx verus/{u.name}.rs /repo OUT && verus OUT --rlimit {rlimit}'
    # an obligation counts as refused only if the solver does not discharge it under any of several seeds
    for seed in (None, 3, 11, 29):
        c = cmd if seed is None else cmd + ['--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}']
        p = subprocess.run(c, cwd=workdir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=max(30, 420 - (time.time() - t0)))
        try: j = json.loads(p.stdout)
        except ValueError: j = {}
        vr = j.get('verification-results', {})
        u.discharged = int(vr.get('verified', 0) or 0)
        u.obligations = u.discharged + int(vr.get('errors', 0) or 0)
        try: u.time = round(j['times-ms']['smt']['total'] / 1000, 2)
        except (KeyError, TypeError): u.time = round(time.time() - t0, 2)
        diags = []
        for l in p.stderr.splitlines():
            if not l.startswith('{'): continue
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due to'): diags.append(d)
        if not u.discharged or not diags or time.time() - t0 > 200: break
    u.output = '\n'.join(d.get('rendered') or d['message'] for d in diags)[-8000:] or p.stderr[-3000:]
    if not diags and p.returncode == 0 and vr.get('success') and u.discharged > 0: u.status, u.reason = 'ok', ''; return
    if not diags: u.reason = 'verus: no verdict ' + p.stderr[-300:]; return
    lost = {}
    for d in diags:
        at = {owner[s['line_start']] for s in d['spans'] if s['file_name'].endswith(u.name + '.rs') and s['line_start'] in owner}
        if not d['message'].startswith(OBLIGATION):
            if not at:
                if lost or d['message'].startswith('could not compile'): continue
                u.reason = 'out of reach: ' + d['message'][:300]; return
            for a in at: lost[a] = 'out of reach: ' + d['message'][:200]
            continue
        if not at: u.reason = 'a lemma is not proved: ' + d['message'][:300]; return
        for a in at:
            if SKEL.get(u.name, {}).get(a, u.skel.get(a)) != u.skel.get(a): lost[a] = f'its loops are not the ones the invariants are for ({d["message"][:150]})'
        prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
        u.failed.append(f"{d['message']} in {', '.join(sorted(at))}: " + ' | '.join(x['text'].strip()[:160] for s in prim[:1] for x in s['text'][:1]))
    if lost: return lost
    u.status, u.reason = 'failed', '; '.join(u.failed)[:900]

def run(prop, workdir, thorough=False):
    os.makedirs(workdir, exist_ok=True)
    us = [u for u in units() if (prop is None or prop in u.props) and (thorough or not u.slow)]
    if not us: return us
    ok, err = build()
    if not ok:
        for u in us: u.reason = 'vx did not build: ' + err[-300:]
        return us
    with concurrent.futures.ThreadPoolExecutor(3) as ex: list(ex.map(lambda u: run_unit(u, workdir, 60 if thorough else 30), us))
    return us

if __name__ == '__main__':
    import sys
    ok, err = build()
    if not ok: print(err)
    os.makedirs('/tmp/vxo', exist_ok=True)
    names = [a for a in sys.argv[1:] if not a.startswith('--')]
    sel = [u for u in units() if not names or u.name in names]
    with concurrent.futures.ThreadPoolExecutor(4) as ex: list(ex.map(lambda u: run_unit(u, '/tmp/vxo', 30), sel))
    if '--skeletons' in sys.argv and all(u.status == 'ok' for u in sel): json.dump({u.name: u.skel for u in sorted(sel, key=lambda u: u.name)}, open(os.path.join(VERIF, 'verus', 'skeletons.json'), 'w'), indent=1, sort_keys=True)
    for u in sel: print(u.name, u.status, u.discharged, u.obligations, u.time, u.reason, len(u.fns))
