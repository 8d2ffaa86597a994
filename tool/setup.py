#!/usr/bin/env python3
"""Builds what the checks share, so that they start warm. Every check also builds what it needs by itself."""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, kanirun
def main():
    os.makedirs(check.BUILD, exist_ok=True)
    ts = [threading.Thread(target=check.build_exec, args=(c,)) for c in check.CONFIGS]
    for t in ts: t.start()
    for t in ts: t.join()
    if check.verusrun:
        try: check.verusrun.build()
        except Exception as e: print('verus tool:', e)
    hs, pre = kanirun.load()
    hs = [h for h in hs if h.name in ('k_set_speed',)]
    kanirun.run(hs, pre, os.path.join(check.BUILD, 'kani'))
    print('setup done')
try: main()
except Exception as e: print('setup:', e)
