"""Builds the harness + the crate under check from /repo's working tree, to LLVM IR
and (on demand) to an instrumented native replay binary."""
import glob
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CI_DEV_REPO', '/repo')    # (a scratch copy, during development only)
CARGO = '/root/.cargo/bin/cargo'
RUSTC = '/root/.cargo/bin/rustc'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def sysroot_bin():
    return '/root/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin' % TOOLCHAIN


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO') and k not in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER')}
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['HOME'] = '/root'
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


class BuildError(Exception):
    pass


class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='cicheck.')
        self.ll = {}
        self.bin = {}
        hd = os.path.join(self.dir, 'harness')
        shutil.copytree(os.path.join(VERIF, 'harness'), hd, ignore=shutil.ignore_patterns('target'))
        if REPO != '/repo':
            c = os.path.join(hd, 'Cargo.toml')
            with open(c) as f:
                t = f.read()
            with open(c, 'w') as f:
                f.write(t.replace('"/repo"', '"%s"' % REPO))
        self.harness = hd
        self.rt_flags = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def ir(self, dbg):
        """paths of the .ll files of the harness and of the crate"""
        if dbg in self.ll:
            return self.ll[dbg]
        e = env()
        fl = '--cap-lints=allow --emit=llvm-ir,link -Cno-vectorize-loops -Cno-vectorize-slp'
        if dbg:
            fl += ' -Cdebug-assertions=on -Coverflow-checks=on'
        e['RUSTFLAGS'] = fl
        td = os.path.join(self.dir, 'dbg' if dbg else 'rel')
        e['CARGO_TARGET_DIR'] = td
        r = subprocess.run([CARGO, 'build', '--offline', '--release', '--quiet'], cwd=self.harness, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-3000:])
        lls = []
        for pat in ('cih-*.ll', 'orx_concurrent_iter-*.ll'):
            lls += sorted(glob.glob(os.path.join(td, 'release/deps', pat)))
        if len(lls) < 2:
            raise BuildError('no IR produced')
        self.ll[dbg] = lls
        return lls

    def native(self, dbg):
        """instrumented replay binary"""
        if dbg in self.bin:
            return self.bin[dbg]
        objs = []
        td = os.path.join(self.dir, 'nat_dbg' if dbg else 'nat_rel')
        os.makedirs(td, exist_ok=True)
        for i, p in enumerate(self.ir(dbg)):
            q = os.path.join(td, '%d.ll' % i)
            with open(p) as f, open(q, 'w') as g:
                g.write(instrument(f.read()))
            o = q[:-3] + '.o'
            r = subprocess.run([os.path.join(sysroot_bin(), 'llc'), '-O1', '-filetype=obj', '-relocation-model=pic', q, '-o', o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError('llc: ' + r.stdout[-2000:])
            objs.append(o)
        out = os.path.join(td, 'rt')
        cmd = [RUSTC, '--edition=2021', '-O', '-Awarnings', os.path.join(VERIF, 'rt/rt.rs'), '-o', out] + self.rt_flags
        for o in objs:
            cmd.append('-Clink-arg=' + o)
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('rt: ' + r.stdout[-3000:])
        self.bin[dbg] = out
        return out


SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'ptr': 8}
ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}


def ordbits(o):
    return (1 if o in ACQ else 0) | (2 if o in REL else 0)


def instrument(txt):
    """a scheduler call before every atomic operation"""
    out = []
    n = 0
    for l in txt.split('\n'):
        s = l.strip()
        m = re.search(r'= load atomic (?:volatile )?\S+, ptr (%"[^"]*"|%[-\w.$]+|@[-\w.$]+)[^,]*? (monotonic|acquire|seq_cst|unordered)', l)
        if m:
            out.append('  call void @rt_pre(ptr %s, i32 0, i32 %d)' % (m.group(1), ordbits(m.group(2))))
            out.append(l)
            continue
        if s.startswith('store atomic '):
            m = re.search(r', ptr (%"[^"]*"|%[-\w.$]+|@[-\w.$]+)[^,]*? (monotonic|release|seq_cst|unordered)', l)
            out.append('  call void @rt_pre(ptr %s, i32 1, i32 %d)' % (m.group(1), ordbits(m.group(2))))
            out.append(l)
            continue
        m = re.search(r'= atomicrmw (?:volatile )?\S+ ptr (%"[^"]*"|%[-\w.$]+|@[-\w.$]+), \S+ [^,]*? (monotonic|acquire|release|acq_rel|seq_cst)', l)
        if m:
            out.append('  call void @rt_pre(ptr %s, i32 2, i32 %d)' % (m.group(1), ordbits(m.group(2))))
            out.append(l)
            continue
        m = re.search(r'(%"[^"]*"|%[-\w.$]+) = cmpxchg (?:weak )?(?:volatile )?ptr (%"[^"]*"|%[-\w.$]+|@[-\w.$]+), (\S+) .* (monotonic|acquire|release|acq_rel|seq_cst) (monotonic|acquire|seq_cst)', l)
        if m:
            n += 1
            out.append('  call void @rt_pre(ptr %s, i32 3, i32 0)' % m.group(2))
            out.append(l.replace('cmpxchg weak', 'cmpxchg'))
            out.append('  %%rtcas.%d = extractvalue { %s, i1 } %s, 1' % (n, m.group(3), m.group(1)))
            out.append('  call void @rt_cas(ptr %s, i1 %%rtcas.%d, i32 %d, i32 %d)' % (m.group(2), n, ordbits(m.group(4)), ordbits(m.group(5))))
            continue
        m = re.match(r'\s*fence (?:syncscope\S+ )?(acquire|release|acq_rel|seq_cst)', l)
        if m:
            out.append('  call void @rt_pre(ptr null, i32 4, i32 %d)' % ordbits(m.group(1)))
            out.append(l)
            continue
        m = re.match(r'\s*%\S+ = load (?!atomic)(?:volatile )?(\{[^}]*\}|\S+), ptr (%"[^"]*"|%[-\w.$]+)(?:,|$)', l)
        if m and SIZES.get(m.group(1)):
            out.append('  call void @rt_na(ptr %s, i64 %d, i32 0)' % (m.group(2), SIZES[m.group(1)]))
        m = re.match(r'\s*store (?!atomic)(?:volatile )?(i\d+|ptr) .*, ptr (%"[^"]*"|%[-\w.$]+)(?:,|$)', l)
        if m and SIZES.get(m.group(1)):
            out.append('  call void @rt_na(ptr %s, i64 %d, i32 1)' % (m.group(2), SIZES[m.group(1)]))
        m = re.match(r'\s*(?:tail )?call void @llvm\.mem(?:cpy|move)\.[^(]*\(ptr [^%@]*(%"[^"]*"|%[-\w.$]+|@[-\w.$]+), ptr [^%@]*(%"[^"]*"|%[-\w.$]+|@[-\w.$]+), i64 ([^,]+), ', l)
        if m:
            out.append('  call void @rt_na(ptr %s, i64 %s, i32 0)' % (m.group(2), m.group(3)))
            out.append('  call void @rt_na(ptr %s, i64 %s, i32 1)' % (m.group(1), m.group(3)))
        if re.match(r'\s*(%\S+ = )?(cmpxchg|atomicrmw|load atomic|store atomic)', l):
            raise BuildError('uninstrumented atomic: ' + l)
        out.append(l)
    out.append('declare void @rt_na(ptr, i64, i32)')
    out.append('declare void @rt_pre(ptr, i32, i32)')
    out.append('declare void @rt_cas(ptr, i1 zeroext, i32, i32)')
    return '\n'.join(out)
