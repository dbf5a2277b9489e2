"""replaycmd.py <replay file>: runs a recorded counterexample on the real code and prints its log"""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import Builder
import replay

lines = [l.rstrip('\n') for l in open(sys.argv[1])]
dbg = any(l.startswith('#') and 'debug build' in l for l in lines[:4])
b = Builder()
try:
    if any(l.startswith('# source: client program') for l in lines[:4]):
        # a program that must be rejected
        import tlevel
        ok, ds = tlevel.Facts(b).rustc('\n'.join(l for l in lines if not l.startswith('# ')))
        print('the compiler accepts the program' if ok else 'the compiler rejects the program: %s' % ds)
        sys.exit(0)
    if any(l.startswith('# V_ll') or l.startswith('# A2_ll') or l.startswith('# I_ll') for l in lines):
        import lowlevel
        import tlevel
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as pool:
            ops, _ = lowlevel.operations(tlevel.Facts(b), open(os.path.join(b.harness, 'src/lib.rs')).read(), pool)
        b.close()
        b = lowlevel.LLBuilder(ops)
    rc, log = replay.run(b.native(dbg), [l for l in lines if l and not l.startswith('#')])
    for x in log:
        print(x)
    print('exit', rc)
finally:
    b.close()
