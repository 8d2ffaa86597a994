"""Kani stage: assembles the selected proof harnesses from /verif/kani/src, compiles /repo's own sources with
them (cfg(kani) hook) and runs the verifier on each harness."""
import os, re, subprocess, time, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE_MODULES = ['attr', 'hist', 'image', 'kmeans', 'mediancut', 'nearest', 'pal', 'quant', 'remap', 'rows', 'seacow']

class Harness:
    def __init__(self, module, name, attrs, text):
        self.module, self.name, self.text = module, name, text
        self.props = attrs.get('props', '').split(',')
        self.fns = attrs.get('fn', '').split(',')
        self.bounded = attrs.get('bounded')
        self.slow = 'slow' in attrs
        self.stubs = re.findall(r'kani::stub\(([^,]+),', text)
        self.status = None      # ok | failed | lost
        self.reason = ''
        self.failed = []
        self.nan = False
        self.checks = 0
        self.time = 0.0
        self.output = ''
    def path(self): return f'{self.module}::verif_kani::{self.name}' if self.module != 'ffi' else f'verif_kani::{self.name}'

def load():
    out, preludes = [], {}
    d = os.path.join(VERIF, 'kani', 'src')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.rs'): continue
        module = fn[:-3]
        parts = re.split(r'^//@ ', open(os.path.join(d, fn)).read(), flags=re.M)
        preludes[module] = ''
        for part in parts[1:]:
            head, _, body = part.partition('\n')
            words = head.split()
            if words[0] == 'prelude': preludes[module] += body
            else:
                attrs = dict(w.split('=', 1) if '=' in w else (w, '1') for w in words[2:])
                out.append(Harness(module, words[1], attrs, body))
    return out, preludes

def assemble(harnesses, preludes, incdir):
    os.makedirs(incdir, exist_ok=True)
    linemap = {}
    for module in CORE_MODULES + ['ffi']:
        hs = [h for h in harnesses if h.module == module]
        lines, lm = [], []
        # other modules' harnesses may use a prelude (e.g. any_valid_attr), so it's kept if anything is selected
        if hs or module in ('attr',):
            for l in preludes.get(module, '').splitlines(): lines.append(l); lm.append(None)
        for h in hs:
            for l in h.text.splitlines(): lines.append(l); lm.append(h)
        text = '\n'.join(lines) + '\n'
        p = os.path.join(incdir, module + '.rs')
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)
        linemap[module] = lm
    return linemap

def kani_cmd(crate, target, names, extra=(), jobs=6, timeout=None):
    cmd = ['cargo', 'kani', '-Z', 'function-contracts', '-Z', 'stubbing', '-Z', 'unstable-options', '--target-dir', target]
    if crate == 'core': cmd += ['--features', '_internal_c_ffi']
    for n in names: cmd += ['--harness', n]
    if timeout: cmd += ['--harness-timeout', f'{timeout}s']
    return cmd + list(extra)

def run(harnesses, preludes, work, jobs=6, harness_timeout=120, total_timeout=600, log=print):
    """Sets status of every harness. Returns dict with command line and time."""
    t0 = time.time()
    incdir = os.path.join(work, 'inc')
    info = {'cmd': [], 'wall_s': 0}
    for crate in ('core', 'ffi'):
        sel = [h for h in harnesses if (h.module == 'ffi') == (crate == 'ffi')]
        for _round in range(6):
            if not sel: break
            lm = assemble(sel, preludes, incdir)
            env = dict(os.environ, LIQ_VERIF_DIR=incdir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
            left = total_timeout - (time.time() - t0)
            if left < 10:
                for h in sel: h.status, h.reason = 'lost', 'no time left'
                break
            cmd = kani_cmd(crate, os.path.join(work, 'target-' + crate), [h.path() for h in sel], ['-j', str(jobs), '--output-format', 'terse', '--exact'], timeout=harness_timeout)
            info['cmd'] = [f'cd /verif/kani/{crate} && LIQ_VERIF_DIR=... ' + ' '.join(cmd[:12]) + ' ...']
            try:
                p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'kani', crate), env=env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left, text=True, errors='replace')
                out = p.stdout
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
                subprocess.run(['pkill', '-9', '-x', 'cbmc'])
            if 'Checking harness' not in out:
                # compile error: drop the harnesses it mentions
                bad, other = set(), []
                for m in re.finditer(r'^error(?:\[E\d+\])?: (.*)\n((?:.*\n){0,3}?) *--> ([^\n:]+):(\d+)', out, flags=re.M):
                    f, line = m.group(3), int(m.group(4))
                    mod = os.path.basename(f)[:-3]
                    h = None
                    if os.path.dirname(os.path.abspath(f)) == incdir and mod in lm and line - 1 < len(lm[mod]): h = lm[mod][line - 1]
                    if h is not None:
                        bad.add(h); h.reason = 'does not compile: ' + m.group(1)
                    else: other.append((f, m.group(1)))
                mm = re.findall(r"(?:stub|failed to (?:resolve|find))[^\n]*", out)
                if not bad:
                    # error in a prelude: lose that module
                    for f, msg in other:
                        mod = os.path.basename(f)[:-3]
                        if os.path.dirname(os.path.abspath(f)) == incdir:
                            for h in sel:
                                if h.module == mod or mod == 'attr': bad.add(h); h.reason = 'prelude does not compile: ' + msg
                if not bad:
                    # e.g. a stub that cannot be resolved
                    for h in sel:
                        if any(re.search(r'\b' + re.escape(h.name) + r'\b', l) for l in out.splitlines() if 'error' in l or 'unable' in l or '-->' in l or '|' in l):
                            bad.add(h); h.reason = 'rejected by the verifier front end: ' + (mm[0] if mm else '')
                if not bad:
                    reason = 'cargo kani failed: ' + ' / '.join(l for l in out.splitlines() if l.startswith('error'))[:300]
                    for h in sel: h.status, h.reason, h.output = 'lost', reason, out[-4000:]
                    break
                for h in bad: h.status = 'lost'; h.output = out[-4000:]
                sel = [h for h in sel if h not in bad]
                continue
            parse(out, sel)
            break
    info['wall_s'] = round(time.time() - t0, 1)
    return info

def parse(out, sel):
    byname = {h.path(): h for h in sel}
    cur = {}
    last = None
    for line in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', line)
        if m:
            cur[m.group(1)] = byname.get(m.group(2)); continue
        m = re.match(r'Thread (\d+):', line)
        if m: last = cur.get(m.group(1))
        elif len(cur) == 1: last = list(cur.values())[0]
        if last is None: continue
        last.output += line + '\n'
        m = re.match(r' \*\* (\d+) of (\d+) failed', line)
        if m: last.checks = int(m.group(2))
        m = re.match(r' \*\* (\d+) of (\d+) cover properties satisfied', line)
        if m and m.group(1) != m.group(2): last.reason = f'only {m.group(1)} of {m.group(2)} cover properties satisfied'
        m = re.match(r'Failed Checks: (.*)', line)
        if m and not m.group(1).startswith('NaN on'): last.failed.append(m.group(1))
        elif m: last.nan = True
        m = re.match(r'Verification Time: ([\d.]+)s', line)
        if m: last.time = float(m.group(1))
        if line.startswith('VERIFICATION:- SUCCESSFUL'): last.status = 'ok'
        if line.startswith('VERIFICATION:- FAILED'): last.status = 'failed'
    for h in sel:
        if h.status is None: h.status, h.reason = 'lost', 'no verdict (timeout or memory)'
        elif h.status == 'ok':
            if h.reason.startswith('only'): h.status = 'lost'; h.reason = 'vacuous: ' + h.reason
            elif h.checks == 0: h.status, h.reason = 'lost', 'no obligations generated'
        elif h.status == 'failed' and h.nan and not h.failed: h.status = 'ok'   # NaN alone is not an error
        elif h.status == 'failed':
            real = [f for f in h.failed if not re.search(r'unwinding assertion|is not currently supported|unsupported|not supported|recursion unwinding|timed out|CBMC', f)]
            if not real or any(re.search(r'unwinding assertion|is not currently supported|unsupported', f) for f in h.failed):
                h.status, h.reason = 'lost', 'undecided: ' + '; '.join(h.failed[:3])
            else: h.reason = '; '.join(real[:4])

def playback(h, selected, work):
    """Replays the verifier's counterexample natively, against the real code. (confirmed, text of the unit test)"""
    try:
        hs, preludes = load()
        crate = 'ffi' if h.module == 'ffi' else 'core'
        incdir = os.path.join(work, 'inc-playback')
        ok = [x for x in hs if x.path() == h.path()]
        assemble(ok, preludes, incdir)
        env = dict(os.environ, LIQ_VERIF_DIR=incdir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
        cwd = os.path.join(VERIF, 'kani', crate)
        p = subprocess.run(kani_cmd(crate, os.path.join(work, 'target-' + crate), [h.path()], ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact'], timeout=100), cwd=cwd, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150, text=True, errors='replace')
        tests = re.findall(r'```\n(.*?)```', p.stdout, flags=re.S)
        if not tests: return False, None
        test = tests[0]
        with open(os.path.join(incdir, h.module + '.rs'), 'a') as f: f.write(test)
        cmd = ['cargo', 'kani', 'playback', '-Z', 'concrete-playback']
        if crate == 'core': cmd += ['--features', '_internal_c_ffi']
        env['CARGO_TARGET_DIR'] = os.path.join(work, 'playback-' + crate)
        p = subprocess.run(cmd + ['--', 'kani_concrete_playback'], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, text=True, errors='replace')
        failed = re.search(r'test result: FAILED', p.stdout) is not None
        return failed, (test + '\n/* native replay:\n' + p.stdout[-1500:] + '\n*/') if failed else None
    except (subprocess.TimeoutExpired, OSError): return False, None

if __name__ == '__main__':
    import sys
    hs, pre = load()
    want = sys.argv[1:]
    hs = [h for h in hs if not want or h.name in want or h.module in want or any(p in want for p in h.props)]
    i = run(hs, pre, os.path.join(VERIF, 'build', 'kani'))
    seen = {}
    for h in hs: print(h.status, h.path(), h.checks, f'{h.time:.1f}s', h.reason)
    for h in hs:
        if h.status != 'ok' and not seen.get(h.output): seen[h.output]=1; print('=====', h.name, '\n', h.output[-900:])
    print(i)
