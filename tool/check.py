#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current working tree.

1. proof stage: contracts discharged by Kani (CBMC) on /repo's own sources, and by Verus (Z3) on functions extracted
   mechanically from /repo's current sources;
2. bounded stage: `liqx` runs the real library on generated inputs against executable forms of the same postconditions.
   It stands in where no contract is in reach (labelled bounded, never counted as proved), and it is what looks for a
   failing input when an obligation fails.

Exit 0: held on everything. Exit 1 and a VIOLATION line: broken. There is no other exit.
"""
import os, sys, json, subprocess, time, re, threading, traceback, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tool'))
BUILD = os.path.join(VERIF, 'build')
import kanirun
try: import verusrun
except ImportError: verusrun = None

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
LARGE = {'C01', 'C02', 'C03', 'C06', 'C08', 'C16'}      # also checked with the large_palettes feature
ASAN = {'C01', 'C07', 'C08', 'C16'}                     # also run with AddressSanitizer, if that builds
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

def log(*a): print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- liqx
CONFIGS = {
    'threads-debug': (['build', '--features', 'threads'], 'debug', None),
    'single-release': (['build', '--release'], 'release', None),
    'threads-large': (['build', '--features', 'threads,large'], 'debug', None),
    'asan': (['+nightly', 'build', '--target', 'x86_64-unknown-linux-gnu', '--features', 'threads'], 'x86_64-unknown-linux-gnu/debug', '-Zsanitizer=address'),
}
def build_exec(cfg):
    args, sub, flags = CONFIGS[cfg]
    target = os.path.join(BUILD, 'exec-' + cfg)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env.pop('RUSTFLAGS', None)
    if flags: env['RUSTFLAGS'] = flags
    p = subprocess.run(['cargo', *args, '--offline', '--target-dir', target], cwd=os.path.join(VERIF, 'exec'), env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0: return None, p.stdout[-3000:]
    return os.path.join(target, sub, 'liqx'), ''

def run_exec(binary, cfg, prop, secs, threads, seed, min_cases=24):
    note = os.path.join(BUILD, f'running-{prop}-{cfg}')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0')
    cmd = [binary, prop, '--seed', str(seed), '--secs', str(secs), '--threads', str(threads), '--min', str(min_cases), '--progress', note]
    res = {'config': cfg, 'cmd': ' '.join(cmd), 'violations': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'seed': seed}
    try:
        p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 500, text=True, errors='replace')
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', '', ''
    for line in out.splitlines():
        if not line.startswith('{'): continue
        try: d = json.loads(line)
        except ValueError: continue
        if d['kind'] == 'violation': res['violations'].append(d)
        if d['kind'] == 'summary':
            res.update(evaluations=d['evaluations'], distinct_nontrivial=d['distinct_nontrivial'], samples=[s[:200] for s in d['samples'][:2]])
    if rc not in (0, 1):
        running = []
        for t in range(threads):
            try: running.append(open(f'{note}.{t}').read().split())
            except OSError: pass
        # out of memory in the sandbox is not a finding
        if rc == -9 or rc == 137: res['lost'] = 'killed (memory?)'
        else:
            # find which of the running cases it was
            bad = None
            for r in running:
                if len(r) != 2: continue
                try: q = subprocess.run([binary, prop, '--case', r[0], r[1]], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, text=True, errors='replace')
                except subprocess.TimeoutExpired: bad = (r, 'HANG', ''); break
                if q.returncode != 0: bad = (r, q.returncode, q.stderr); break
            r, code, e2 = bad or ((running or [['0', '0']])[0], rc, err)
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|SUMMARY:[^\n]*)', e2 or err or '')
            res['violations'].append({'kind': 'violation', 'idx': int(r[0]), 'case': int(r[1]), 'msg': f'the process died (status {code}) ' + (m.group(1) if m else ''), 'desc': ''})
    return res

# ---------------------------------------------------------------- main
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []       # (what, replay dict, has_input)
        self.kani, self.verus, self.exec = [], [], []
        self.kani_info = {}
        self.notes = []
        self.bins = {}

    def stage_build(self, cfgs):
        def one(c):
            b, err = build_exec(c)
            self.bins[c] = b
            if b is None: self.notes.append(f'liqx configuration {c} did not build: {err[-400:]}')
        ts = [threading.Thread(target=one, args=(c,)) for c in cfgs]
        for t in ts: t.start()
        for t in ts: t.join()

    def stage_exec(self, secs, seed):
        cfgs = [c for c, b in self.bins.items() if b]
        res, ts = [], []
        n = max(1, 8 // max(1, len(cfgs)))
        def one(c): res.append(run_exec(self.bins[c], c, self.prop, secs, n, seed))
        for c in cfgs:
            t = threading.Thread(target=one, args=(c,)); t.start(); ts.append(t)
        for t in ts: t.join()
        self.exec += res
        found = False
        for r in res:
            if r.get('lost'): self.notes.append(f"liqx {r['config']}: {r['lost']}")
            for v in r['violations'][:1]:
                found = True
                self.violations.append(('liqx ' + r['config'] + ': ' + v['msg'], {
                    'kind': 'failing input', 'property': self.prop, 'config': r['config'], 'case': [v['idx'], v['case']], 'message': v['msg'], 'input': v['desc'],
                    'replay_cmd': f"cd {VERIF}/exec && cargo {' '.join(CONFIGS[r['config']][0])} && <target>/liqx {self.prop} --case {v['idx']} {v['case']}"}, True))
        return found

    def stage_kani(self):
        hs, pre = kanirun.load()
        hs = [h for h in hs if self.prop in h.props and (THOROUGH or not h.slow)]
        self.kani = hs
        if hs:
            self.kani_info = kanirun.run(hs, pre, os.path.join(BUILD, 'kani'), jobs=6, harness_timeout=600 if THOROUGH else 60, total_timeout=3600 if THOROUGH else 240)

    def stage_verus(self):
        if verusrun is None: return
        self.verus = verusrun.run(self.prop, os.path.join(BUILD, 'verus'), thorough=THOROUGH)

    def main(self):
        os.makedirs(BUILD, exist_ok=True)
        cfgs = ['threads-debug', 'single-release'] + (['threads-large'] if self.prop in LARGE else []) + (['asan'] if self.prop in ASAN else [])
        tb = threading.Thread(target=self.stage_build, args=(cfgs,)); tb.start()
        tv = threading.Thread(target=self.guard, args=(self.stage_verus,)); tv.start()
        self.guard(self.stage_kani)
        tv.join(); tb.join()
        t_proof = time.time() - self.t0
        secs = 600 if THOROUGH else 35
        found = self.stage_exec(secs, SEED)
        failed_k = [h for h in self.kani if h.status == 'failed']
        failed_v = [u for u in self.verus if u.status == 'failed']
        if not failed_k and not failed_v and not found and any(x.status == 'lost' for x in self.kani + self.verus) and not THOROUGH:
            # what the verifier could not decide on the changed text is at least searched for longer
            found = self.stage_exec(60, SEED + 500)
        if failed_k or failed_v:
            confirmed = {}
            for h in failed_k[:4]:
                ok, text = kanirun.playback(h, self.kani, os.path.join(BUILD, 'kani'))
                if ok: confirmed[h] = text
            if not confirmed and not found:
                # look longer for an input on which the real library fails
                for extra in range(3):
                    if time.time() - self.t0 > 420 and not THOROUGH: break
                    if self.stage_exec(40, SEED + 1000 + extra): found = True; break
            for h in failed_k:
                self.violations.append((f'obligation of {h.path()}: {h.reason}', {
                    'kind': 'failed obligation', 'property': self.prop, 'verifier': 'kani/cbmc', 'harness': h.path(), 'functions': h.fns, 'failed': h.failed,
                    'counterexample_test': confirmed.get(h), 'output': h.output[-4000:]}, h in confirmed or found))
            for u in failed_v:
                self.violations.append((f'obligation of verus unit {u.name}: {u.reason}', {
                    'kind': 'failed obligation', 'property': self.prop, 'verifier': 'verus/z3', 'unit': u.name, 'functions': u.fns, 'failed': u.failed, 'output': u.output[-6000:]}, found))
        self.evidence(t_proof)
        return self.report()

    def guard(self, f):
        try: f()
        except Exception: self.notes.append('internal error, this stage is undecided: ' + traceback.format_exc()[-1500:]); log(traceback.format_exc())

    def report(self):
        if not self.violations:
            print(f'OK property={self.prop}')
            return 0
        d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
        # the one with a failing input first
        self.violations.sort(key=lambda v: (not v[2], v[1]['kind'] != 'failing input'))
        path = os.path.join(d, f'{self.prop}.json')
        json.dump({'violations': [dict(v[1], what=v[0]) for v in self.violations]}, open(path, 'w'), indent=1)
        for v in self.violations: log('  ' + v[0][:500])
        with_input = any(v[2] for v in self.violations)
        print(f'VIOLATION property={self.prop} replay={path}' + ('' if with_input else ' no-failing-input-found'))
        return 1

    def evidence(self, t_proof):
        ok_k = [h for h in self.kani if h.status == 'ok']
        ok_v = [u for u in self.verus if u.status == 'ok']
        obligations = sum(h.checks for h in self.kani) + sum(u.obligations for u in self.verus)
        discharged = sum(h.checks for h in ok_k if not h.bounded) + sum(u.discharged for u in ok_v)
        lost = [f'{h.path()}: {h.reason}' for h in self.kani if h.status == 'lost'] + [f'verus {u.name}: {u.reason}' for u in self.verus if u.status == 'lost']
        trusted = ['Kani 0.68.0 / CBMC 6.11.0', 'Verus 0.2026.09.13 / Z3', "rustc's parser (syn) and the extraction rules of /verif/vx (see DESIGN.md)"]
        for h in self.kani:
            for s in h.stubs: trusted.append(f'Kani stub in {h.name}: {s.strip()} replaced by its contract')
        for u in self.verus: trusted += u.trusted
        ev = {
            'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'proof',
            'coverage': {
                'obligations': obligations, 'discharged': discharged,
                'checker_cmd': ' ; '.join(self.kani_info.get('cmd', []) + sorted({u.cmd for u in self.verus if u.cmd})) or 'none',
                'trusted_base': sorted(set(trusted)),
                'contracts': [{'verifier': 'kani/cbmc', 'obligation': h.path(), 'functions': h.fns, 'checks': h.checks, 'status': h.status, 'solver_s': h.time,
                               **({'bounded': h.bounded} if h.bounded else {})} for h in self.kani] +
                             [{'verifier': 'verus/z3', 'obligation': u.name, 'functions': u.fns, 'checks': u.obligations, 'status': u.status, 'solver_s': u.time} for u in self.verus],
                'functions_under_contract': sorted({f for h in ok_k for f in h.fns if f} | {f for u in ok_v for f in u.fns}),
                'bounded_obligations_not_counted_as_proved': sum(h.checks for h in ok_k if h.bounded),
                'undecided': lost, 'proof_wall_s': round(t_proof, 1),
                'bounded_runs': [{'config': r['config'], 'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial'], 'samples': r['samples']} for r in self.exec],
                'evaluations': sum(r['evaluations'] for r in self.exec), 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in self.exec),
                'rule': 'liqx: images/histograms/settings generated from VERIF_SEED; a case is non-trivial if it exercised the guarded behaviour; distinct by description',
                'samples': [s for r in self.exec for s in r['samples']][:4],
            },
            'assumptions': [
                'what the listed contracts do not cover is only sampled by the bounded runs (never counted as proved)',
                'Verus: f32/f64 arithmetic is treated as real-number or uninterpreted arithmetic, as stated per unit',
                'Kani: dependencies behind stubs satisfy the contract in the stub',
            ] + self.notes,
            'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    c = Check(sys.argv[1])
    try: rc = c.main()
    except Exception:
        log(traceback.format_exc())
        c.notes.append('internal error: ' + traceback.format_exc()[-1500:])
        try: c.evidence(0)
        except Exception: log(traceback.format_exc())
        rc = c.report()
    sys.stdout.flush()
    os._exit(rc)
