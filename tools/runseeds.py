"""dev tool: runs the check of each planted bug's property (or all with 'all') against a scratch copy with the bug applied"""
import json, os, subprocess, sys, time
SR = '/tmp/seedrun'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.isdir(SR):
    sh('git clone -q /repo ' + SR)
sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD; cp /repo/Cargo.lock %s/' % (SR, SR, SR))
args = sys.argv[1:]
tier = 'thorough' if 'thorough' in args else 'quick'
allp = 'all' in args
ids = [a for a in args if a not in ('all', 'thorough')] or sorted(os.listdir('/verif/seeded'))
M = json.load(open('/verif/MANIFEST.json'))
claimed = [c['property'] for c in M['checks']]
for i in ids:
    d = '/verif/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    sh('git -C %s checkout -q -- .' % SR)
    r = sh('git -C %s apply %s/patch.diff' % (SR, d))
    if r.returncode:
        print(i, 'patch does not apply', r.stderr[:200]); continue
    for p in (claimed if allp else [meta['property']]):
        t = time.time()
        r = sh('/verif/check.sh %s %s' % (p, tier), env=dict(os.environ, CI_DEV_REPO=SR, VERIF_SEED='1'))
        l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        x = r.stdout.strip().splitlines()
        if not allp or r.returncode:
            print('%-24s %s rc=%d %5.1fs %s' % (i, p, r.returncode, time.time() - t, (x[-2][:170] if l and len(x) > 1 else '\n'.join(x[-4:])[:600] + r.stderr[-300:])), flush=True)
sh('git -C %s checkout -q -- .' % SR)
