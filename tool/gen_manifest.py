#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, 'tool', 'notes.json')))
NA = {
 'C19': 'Equality of two runs/processes is a relation between executions (allocation addresses, hash seeds, build), not a pre/postcondition of one call; the absence of a randomised hasher is a syntactic fact no contract expresses. Neither Kani nor Verus relates two runs of the whole program.',
 'C20': 'Quantifies over thread schedules: Kani has no threads, and Verus would need its own permission types in place of rayon/thread_local, i.e. a model rather than the code. (Row/chunk disjointness, the sequential part of it, is under C01.)',
}
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA: continue
    checks.append({'property': p, 'quick_cmd': f'python3 tool/check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tool/check.py {p}',
        'technique': NOTE[p]['technique'], 'level': 'proof', 'level_note': NOTE[p]['note']})
m = {'version': 1, 'setup_cmd': 'python3 tool/setup.py', 'hooks': {'guard': 'cfg(kani)', 'enable': 'cargo kani sets cfg(kani); LIQ_VERIF_DIR names the directory with the assembled harness files', 'source_commits': hook},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'See DESIGN.md. Bounded stand-ins are labelled bounded in the evidence and never counted as discharged.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
