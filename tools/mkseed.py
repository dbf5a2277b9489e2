"""dev tool: (re)creates and tries planted bugs in a scratch copy of /repo.
   mkseed.py <spec.py> [id...]   spec.py defines SEEDS = {id: dict(property, needs, what, edits=[(file, old, new)], main=..., profile=...)}"""
import json, os, shutil, subprocess, sys, runpy
SR = '/tmp/seedrepo'
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# Compiles and runs main.rs (beside this file) against the crate in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=1.89.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 3
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\norx-concurrent-iter = { path = "%%s" }\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
export CARGO_TARGET_DIR="$T/target"
cd "$T" || exit 3
%s
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep():
    if not os.path.isdir(SR):
        sh('cp -a /repo %s' % SR)
    sh('git -C %s checkout -- . && git -C %s fetch /repo HEAD && git -C %s reset --hard FETCH_HEAD' % (SR, SR, SR))
    os.makedirs('/tmp/seedvp', exist_ok=True)
    for f in os.listdir('/opt/vp'):
        try:
            t = open('/opt/vp/' + f).read()
        except Exception:
            continue
        open('/tmp/seedvp/' + f, 'w').write(t.replace('/opt/vp/', '/tmp/seedvp/').replace('/repo', SR))
def tests():
    r = sh('bash /tmp/seedvp/build.sh')
    if r.returncode:
        return 'BUILD FAILED\n' + r.stderr[-3000:]
    sh('bash /tmp/seedvp/test.sh /tmp/seedvp/out.json')
    o = json.load(open('/tmp/seedvp/out.json'))
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    p = set(o.get('passed', o.get('pass', [])))
    miss = [s for s in st if s not in p]
    return 'ok' if not miss else 'TESTS FAIL (%d): %s' % (len(miss), miss[:4])
def demo(d):
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=SR)
    return r.returncode, (r.stdout + r.stderr)[-400:]
if __name__ == '__main__':
    S = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(S)
    prep()
    for i in ids:
        s = S[i]
        d = '/tmp/seedtry/' + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/main.rs', 'w').write(s['main'])
        if s.get('reject'):
            s['run'] = ('# the compiler has to reject the program because of its borrows\n'
                        'if O=$(timeout 200 cargo build --offline -q 2>&1); then echo "accepted: unsound program"; exit 1; fi\n'
                        'echo "$O" | grep -Eq "E0499|E0502|E0505|E0506|E0515|E0597|E0716|E0277|lifetime" || { echo "$O"; exit 3; }')
        run = s.get('run') or 'timeout 200 cargo run --offline -q%s' % (' --release' if s.get('profile') == 'release' else '')
        open(d + '/demo.sh', 'w').write(DEMO % run)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        sh('git -C %s checkout -- .' % SR)
        rc0, o0 = demo(d)
        if rc0 != 0:
            print(i, 'demo fails on the unchanged tree', rc0, o0); continue
        bad = None
        for f, a, b in s['edits']:
            p = os.path.join(SR, f)
            t = open(p).read()
            if t.count(a) != 1:
                bad = '%s: pattern occurs %d times' % (f, t.count(a)); break
            open(p, 'w').write(t.replace(a, b))
        if bad:
            print(i, bad); continue
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % SR).stdout)
        rc1, o1 = demo(d)
        if rc1 == 0:
            print(i, 'demo passes with the change'); sh('git -C %s checkout -- .' % SR); continue
        t = tests()
        sh('git -C %s checkout -- .' % SR)
        print(i, 'demo rc', rc1, '|', o1.strip()[-160:].replace('\n', ' / '), '|', t, flush=True)
        if t == 'ok':
            shutil.rmtree(os.path.join(OUT, i), ignore_errors=True)
            shutil.copytree(d, os.path.join(OUT, i))
