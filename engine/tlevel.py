"""C14: type-level facts of the crate, decided by z3.

Two parts.
 bounds    which types a program may use: the bounds of the crate's impls, structs and constructors are read from
           the compiler (rustdoc JSON of the working tree) and turned into a formula over "E is Send", "E is Sync",
           "I is Send", "I is Sync" (E: element type, I: wrapped iterator); z3 decides whether a program that creates
           (shares, moves) a concurrent iterator is accepted although E or I may not cross threads.
 lifetimes how long delivered values may be kept: for one client function per way of obtaining a value the compiler
           dumps the region constraints and loans of its borrow check; z3 decides whether there are a point at which
           the source (the iterator, the buffer) is destroyed or pulled again and a later use of the value which the
           constraints do not forbid.
A satisfying assignment is turned into a program and handed to the compiler; only accepted programs are violations."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import z3
import build

NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
AUTO = ('Send', 'Sync')


class Facts:
    def __init__(self, b):
        self.dir = os.path.join(b.dir, 'tl')
        os.makedirs(self.dir, exist_ok=True)
        e = build.env()
        e['RUSTUP_TOOLCHAIN'] = NIGHTLY
        e['CARGO_TARGET_DIR'] = os.path.join(self.dir, 't')
        self.env = e
        src = os.path.join(self.dir, 'crate')
        # a private copy of the manifest's directory is not needed: cargo only writes to the target directory
        man = os.path.join(build.REPO, 'Cargo.toml')
        r = subprocess.run([build.CARGO, 'rustdoc', '--offline', '--quiet', '--lib', '--manifest-path', man, '--', '-Z', 'unstable-options',
                            '--output-format', 'json', '--document-private-items', '--document-hidden-items', '--cap-lints', 'allow'],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise build.BuildError('rustdoc: ' + r.stdout[-2000:])
        with open(os.path.join(e['CARGO_TARGET_DIR'], 'doc/orx_concurrent_iter.json')) as f:
            self.doc = json.load(f)
        r = subprocess.run([build.CARGO, 'check', '--offline', '--lib', '--manifest-path', man, '--message-format=json'],
                           env=dict(e, RUSTFLAGS='--cap-lints=allow'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.rmeta = None
        self.deps = set()
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact':
                for fn in m['filenames']:
                    if fn.endswith('.rmeta'):
                        self.deps.add(os.path.dirname(fn))
                        if os.path.basename(fn).startswith('liborx_concurrent_iter'):
                            self.rmeta = fn
        if r.returncode or not self.rmeta:
            raise build.BuildError('check: ' + r.stderr[-2000:])
        self.n = 0

    def rustc(self, text, extra=(), name=None):
        """(accepted, diagnostics) of the compiler for a client program"""
        self.n += 1
        name = name or 'p%d' % self.n
        p = os.path.join(self.dir, name + '.rs')
        with open(p, 'w') as f:
            f.write(text)
        cmd = [build.RUSTC, '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '-o', p[:-3] + '.rmeta', p, '--error-format=json',
               '--extern', 'orx_concurrent_iter=' + self.rmeta] + [x for d in sorted(self.deps) for x in ('-L', d)] + list(extra)
        r = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        ds = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error':
                ds.append(((m.get('code') or {}).get('code') if m.get('code') else None, m['message'], [s['line_start'] for s in m['spans'] if s['is_primary']]))
        return r.returncode == 0, ds

    # ------------------------------------------------------------ rustdoc types
    def ty(self, t):
        k, v = next(iter(t.items())) if isinstance(t, dict) else ('?', t)
        if k == 'generic':
            return ('p', v)
        if k == 'resolved_path':
            return ('adt', v['path'].split('::')[-1], self.args(v.get('args')), v['id'])
        if k == 'borrowed_ref':
            return ('mut' if v['is_mutable'] else 'ref', self.ty(v['type']))
        if k == 'slice':
            return ('slice', self.ty(v))
        if k == 'array':
            return ('arr', self.ty(v['type']))
        if k == 'tuple':
            return ('tup',) + tuple(self.ty(x) for x in v)
        if k == 'primitive':
            return ('prim', v)
        if k == 'qualified_path':
            return ('proj', self.ty(v['self_type']), (v.get('trait') or {}).get('id'), v['name'])
        return ('?', k)

    def args(self, a):
        if not a:
            return ()
        a = a.get('angle_bracketed') or {}
        return tuple(self.ty(x['type']) for x in a.get('args', []) if 'type' in x)

    def bounds(self, g):
        """[(type, trait name, trait id, trait args)] of a generics item"""
        out = []

        def add(t, bs):
            for b in bs:
                if 'trait_bound' in b and b['trait_bound'].get('modifier', 'none') == 'none':
                    tr = b['trait_bound']['trait']
                    out.append((t, tr['path'].split('::')[-1], tr['id'], self.args(tr.get('args'))))
        for p in g['params']:
            ty = p['kind'].get('type')
            if ty:
                add(('p', p['name']), ty['bounds'])
        for w in g['where_predicates']:
            bp = w.get('bound_predicate')
            if bp:
                add(self.ty(bp['type']), bp['bounds'])
        return out


def subst(t, s):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'p':
        return s.get(t[1], t)
    return tuple(subst(x, s) for x in t)


def unify(pat, t, s):
    """matches a pattern with parameters against a closed type"""
    if pat and pat[0] == 'p':
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if not isinstance(pat, tuple) or not isinstance(t, tuple):
        return pat == t
    if pat[:1] == ('proj',) or t[:1] == ('proj',) or pat[:1] == ('?',) or t[:1] == ('?',):
        return True
    if len(pat) != len(t) or pat[:1] != t[:1]:
        return False
    if pat[:1] == ('adt',):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, s) for a, b in zip(pat[2], t[2]))
    return all(unify(a, b, s) for a, b in zip(pat[1:], t[1:]))


ATOM = {(x, tr): z3.Bool('%s(%s)' % (tr, x)) for x in ('E', 'I') for tr in AUTO}
E, I = ('p', 'E'), ('p', 'I')
STRUCTURAL = {'Vec', 'Option', 'Box', 'ManuallyDrop', 'MaybeUninit', 'PhantomData', 'Range', 'IntoIter'}


class Bounds:
    """formulas: when does the compiler accept a use of the crate"""

    def __init__(self, f):
        self.f = f
        self.impls, self.structs, self.traits, self.local = [], {}, {}, {}
        ix = f.doc['index']
        for i, it in ix.items():
            k, v = next(iter(it['inner'].items()))
            if it['crate_id'] != 0:
                continue
            if k == 'impl' and not v.get('blanket_impl'):
                tr = v['trait']
                self.impls.append(dict(trait=(tr['path'].split('::')[-1] if tr else None), targs=f.args(tr.get('args')) if tr else (),
                                       ty=f.ty(v['for']), bounds=f.bounds(v['generics']), neg=v['is_negative'], syn=v['is_synthetic'],
                                       items=[ix[str(x)] for x in v['items'] if str(x) in ix], unsafe=v['is_unsafe']))
            elif k in ('struct', 'enum', 'union'):
                ps = [p['name'] for p in v['generics']['params'] if 'type' in p['kind']]
                self.structs[it['name']] = (ps, f.bounds(v['generics']))
            elif k == 'trait':
                self.traits[it['name']] = v
        self.used = set()

    def impl_for(self, ty, trait, targs=None):
        for im in self.impls:
            if im['trait'] != trait:
                continue
            s = {}
            if not unify(im['ty'], ty, s):
                continue
            if targs is not None and len(targs) == len(im['targs']) and not all(unify(a, b, s) for a, b in zip(im['targs'], targs)):
                continue
            yield im, s

    def wf(self, ty, depth=8):
        if depth == 0 or not isinstance(ty, tuple):
            return z3.BoolVal(True)
        fs = []
        if ty[0] == 'adt':
            if ty[1] in self.structs:
                ps, bs = self.structs[ty[1]]
                s = dict(zip(ps, ty[2]))
                fs += [self.holds(subst(t, s), tr, subst(a, s), depth - 1) for t, tr, _, a in bs]
            fs += [self.wf(x, depth - 1) for x in ty[2]]
        return z3.And(fs) if fs else z3.BoolVal(True)

    def holds(self, ty, trait, targs=(), depth=8):
        """condition under which `ty: trait<targs>`; over-approximated (True) where the facts do not tell"""
        T = z3.BoolVal(True)
        if depth == 0:
            return T
        k = ty[0]
        if trait in AUTO:
            if k == 'p':
                return ATOM.get((ty[1], trait), T)
            if k == 'ref':
                return self.holds(ty[1], 'Sync', (), depth - 1)
            if k in ('mut', 'slice', 'arr'):
                return self.holds(ty[1], trait, (), depth - 1)
            if k == 'tup':
                return z3.And([self.holds(x, trait, (), depth - 1) for x in ty[1:]])
            if k == 'adt':
                alts = []
                for im, s in self.impl_for(ty, trait):
                    self.used.add((trait, ty[1]))
                    alts.append(z3.BoolVal(False) if im['neg'] else
                                z3.And([self.holds(subst(t, s), tr, subst(a, s), depth - 1) for t, tr, _, a in im['bounds']] + [self.wf(ty, depth - 1)]))
                if alts:
                    return z3.Or(alts)
                if ty[1] in STRUCTURAL:
                    return z3.And([self.holds(x, trait, (), depth - 1) for x in ty[2]])
            return T
        if trait == 'Iterator' and k == 'adt' and ty[1] == 'Range' and ty[2]:
            # Step is unstable: only the integers and a few more std types, all of which are Send and Sync
            return z3.And(self.holds(ty[2][0], 'Send'), self.holds(ty[2][0], 'Sync'))
        alts = []
        for im, s in self.impl_for(ty, trait, targs):
            self.used.add((trait, ty[1] if k == 'adt' else k))
            alts.append(z3.And([self.holds(subst(t, s), tr, subst(a, s), depth - 1) for t, tr, _, a in im['bounds']] + [self.wf(ty, depth - 1)]))
        return z3.Or(alts) if alts else T

    def assoc(self, ty, trait, name):
        for im, s in self.impl_for(ty, trait):
            for it in im['items']:
                if it['name'] == name and 'assoc_type' in it['inner']:
                    return subst(self.f.ty(it['inner']['assoc_type']['type']), s)
        return None

    def inherent(self, ty, fn):
        fs = []
        for im, s in self.impl_for(ty, None):
            for it in im['items']:
                if it['name'] == fn:
                    b = self.f.bounds(it['inner']['function']['generics'])
                    fs.append(z3.And([self.holds(subst(t, s), tr, subst(a, s)) for t, tr, _, a in im['bounds'] + b]))
        return z3.And(z3.Or(fs), self.wf(ty)) if fs else z3.BoolVal(True)


def adt(n, *a):
    return ('adt', n, tuple(a), 0)


# ------------------------------------------------------------------ bounds
# route: (name, ((type, trait) required of the source), concurrent iterator type if fixed, program, what E/I stand for)
SL = adt('ConIterOfSlice', E)
ITE, ITR = adt('ConIterOfIter', E, I), adt('ConIterOfIter', ('ref', E), I)


def routes():
    V, A, S = adt('Vec', E), ('arr', E), ('ref', ('slice', E))
    vec, arr, sl = 'let v: Vec<E> = vec![e()];', 'let v: [E; 1] = [e()];', 'let w: Vec<E> = vec![e()]; let v: &[E] = &w[..];'
    it, itr = 'let v = it(vec![e()].into_iter());', 'let w = vec![e()]; let v = it(w.iter());'
    R = [
        ('vec.into_con_iter', lambda b: [b.holds(V, 'IntoConcurrentIter')], lambda b: b.assoc(V, 'IntoConcurrentIter', 'ConIter') or adt('ConIterOfVec', E), vec, 'IntoConcurrentIter::into_con_iter(v)', 'E'),
        ('array.into_con_iter', lambda b: [b.holds(A, 'IntoConcurrentIter')], lambda b: adt('ConIterOfArray', E), arr, 'IntoConcurrentIter::into_con_iter(v)', 'E'),
        ('slice.into_con_iter', lambda b: [b.holds(S, 'IntoConcurrentIter')], lambda b: SL, sl, 'IntoConcurrentIter::into_con_iter(v)', 'E'),
        ('vec.con_iter', lambda b: [b.holds(V, 'ConcurrentIterable')], lambda b: SL, vec, 'v.con_iter()', 'E'),
        ('array.con_iter', lambda b: [b.holds(A, 'ConcurrentIterable')], lambda b: SL, arr, 'v.con_iter()', 'E'),
        ('slice.con_iter', lambda b: [b.holds(S, 'ConcurrentIterable')], lambda b: SL, sl, 'v.con_iter()', 'E'),
        ('vec.new', lambda b: [b.inherent(adt('ConIterOfVec', E), 'new')], lambda b: adt('ConIterOfVec', E), vec, 'ConIterOfVec::new(v)', 'E'),
        ('vec.from', lambda b: [b.holds(adt('ConIterOfVec', E), 'From', (V,))], lambda b: adt('ConIterOfVec', E), vec, 'ConIterOfVec::from(v)', 'E'),
        ('array.new', lambda b: [b.inherent(adt('ConIterOfArray', E), 'new')], lambda b: adt('ConIterOfArray', E), arr, 'ConIterOfArray::new(v)', 'E'),
        ('array.from', lambda b: [b.holds(adt('ConIterOfArray', E), 'From', (A,))], lambda b: adt('ConIterOfArray', E), arr, 'ConIterOfArray::from(v)', 'E'),
        ('slice.new', lambda b: [b.inherent(SL, 'new')], lambda b: SL, sl, 'ConIterOfSlice::new(v)', 'E'),
        ('slice.from', lambda b: [b.holds(SL, 'From', (S,))], lambda b: SL, sl, 'ConIterOfSlice::from(v)', 'E'),
        ('slice.clone', lambda b: [b.inherent(SL, 'new'), b.holds(SL, 'Clone')], lambda b: SL, sl, 'ConIterOfSlice::new(v).clone()', 'E'),
        ('iter.into_con_iter', lambda b: [b.holds(I, 'IterIntoConcurrentIter')], lambda b: ITE, it, 'IterIntoConcurrentIter::into_con_iter(v)', 'EI'),
        ('iter.new', lambda b: [b.inherent(ITE, 'new')], lambda b: ITE, it, 'ConIterOfIter::new(v)', 'EI'),
        ('iter.from', lambda b: [b.holds(ITE, 'From', (I,))], lambda b: ITE, it, 'ConIterOfIter::from(v)', 'EI'),
        ('ref-iter.into_con_iter', lambda b: [b.wf(ITR)], lambda b: ITR, itr, 'IterIntoConcurrentIter::into_con_iter(v)', 'YI'),
    ]
    for ad, tr in (('cloned', 'Cloned'), ('copied', 'Copied')):
        R.append(('slice.' + ad, lambda b, tr=tr: [b.inherent(SL, 'new'), b.holds(SL, 'Into' + tr, (E, SL))], lambda b, tr=tr: adt(tr, E, SL), sl, 'ConIterOfSlice::new(v).%s()' % ad, 'E'))
        R.append(('vec.con_iter.' + ad, lambda b, tr=tr: [b.holds(V, 'ConcurrentIterable'), b.holds(SL, 'Into' + tr, (E, SL))], lambda b, tr=tr: adt(tr, E, SL), vec, 'v.con_iter().%s()' % ad, 'E'))
        R.append(('ref-iter.' + ad, lambda b, tr=tr: [b.inherent(ITR, 'new'), b.holds(ITR, 'Into' + tr, (E, ITR))], lambda b, tr=tr: adt(tr, E, ITR), itr, 'ConIterOfIter::new(v).%s()' % ad, 'EI'))
    return R


MARK = {(1, 1): '()', (1, 0): 'std::cell::Cell<()>', (0, 1): "std::sync::MutexGuard<'static, ()>", (0, 0): '*const ()'}
PRELUDE = '''#![allow(warnings)]
use orx_concurrent_iter::*;
use std::marker::PhantomData;
/// element: Send = %d, Sync = %d
#[derive(Debug)]
pub struct E(u32, PhantomData<%s>);
impl Clone for E { fn clone(&self) -> Self { E(self.0, PhantomData) } }
impl Copy for E {}
fn e() -> E { E(1, PhantomData) }
/// wrapped iterator: Send = %d, Sync = %d
pub struct I<J>(J, PhantomData<%s>);
impl<J: Iterator> Iterator for I<J> { type Item = J::Item; fn next(&mut self) -> Option<J::Item> { self.0.next() } }
fn it<J: Iterator>(j: J) -> I<J> { I(j, PhantomData) }
fn touch<X>(_: &X) {}
'''
ACTIONS = {
    'create': 'pub fn client() { %s let c = %s; touch(&c); }',
    'share': 'pub fn client() { %s let c = %s; std::thread::scope(|s| { s.spawn(|| { let _ = c.next(); }); s.spawn(|| { let _ = c.next(); }); }); }',
    'move': 'pub fn client() { %s let c = %s; std::thread::scope(|s| { s.spawn(move || { let _ = c.next(); }); }); }',
}


def program(route, action, v):
    _, _, _, src, expr, _ = route
    g = lambda x: (int(v[x, 'Send']), int(v[x, 'Sync']))
    return PRELUDE % (g('E') + (MARK[g('E')],) + g('I') + (MARK[g('I')],)) + ACTIONS[action] % (src, expr)


class Result:
    def __init__(self):
        self.queries = self.reqs = self.probes = 0
        self.solver = 0.0
        self.violations, self.notes, self.samples = [], [], []
        self.routes = 0
        self.dead = []


def check(s, res):
    t = time.time()
    r = s.check()
    res.solver += time.time() - t
    res.queries += 1
    if r == z3.unknown:
        raise RuntimeError('solver gave up')
    return r == z3.sat


def decide_bounds(f, res, pool):
    b = Bounds(f)
    full = {k: True for k in ATOM}
    live = []
    jobs = [(r, a) for r in routes() for a in ACTIONS]
    for (r, a), (ok, d) in zip(jobs, pool.map(lambda x: f.rustc(program(x[0], x[1], full)), jobs)):
        res.probes += 1
        if ok:
            live.append((r, a))
        else:
            res.dead.append('%s %s: %s' % (r[0], a, d[:1]))

    def one(ra):
        r, a = ra
        X = r[2](b)
        fs = r[1](b) + [b.wf(X), b.holds(X, 'ConcurrentIter')]
        if a == 'share':
            fs.append(b.holds(X, 'Sync'))
        if a == 'move':
            fs.append(b.holds(X, 'Send'))
        acc = z3.And(fs)
        need = []
        if 'E' in r[5]:
            need += [('E', 'Send'), ('E', 'Sync')]
        if 'Y' in r[5]:
            need += [('E', 'Sync')]
        if 'I' in r[5]:
            need += [('I', 'Send')]
        return r, a, acc, need
    for ra in live:
        r, a, acc, need = one(ra)
        res.routes += 1
        for x in need:
            res.reqs += 1
            s = z3.Solver()
            s.add(acc)
            # one requirement at a time: the others hold
            s.add(z3.Not(ATOM[x]))
            s.add([ATOM[y] for y in need if y != x])
            while check(s, res):
                m = s.model()
                v = {k: z3.is_true(m.eval(ATOM[k], model_completion=True)) for k in ATOM}
                if 'E' not in r[5] and 'Y' not in r[5]:
                    v['E', 'Send'] = v['E', 'Sync'] = True
                if 'I' not in r[5]:
                    v['I', 'Send'] = v['I', 'Sync'] = True
                p = program(r, a, v)
                ok, d = f.rustc(p)
                res.probes += 1
                if ok:
                    res.violations.append(dict(
                        key='%s:%s-not-%s' % (r[0], 'element' if x[0] == 'E' else 'wrapped-iterator', x[1]),
                        text='%s (%s) is accepted although the %s is not %s' % (r[4], a, 'element type' if x[0] == 'E' else 'wrapped iterator', x[1]),
                        program=p))
                    break
                # the compiler knows a bound that the facts do not show: exclude and ask again
                s.add(z3.Or([ATOM[k] != v[k] for k in ATOM]))
            else:
                continue
    if live:
        r, a, acc, need = one(live[0])
        res.samples.append(dict(route=r[0], action=a, accepted_iff=str(z3.simplify(acc))[:300], required=[str(ATOM[x]) for x in need]))
    return b


# ------------------------------------------------------------------ lifetimes
SOURCES = {
    # name: (generics, parameter, statements creating `it`, kind)
    'vec.con_iter': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = src.con_iter();', 'S'),
    'array.con_iter': ('T: Send + Sync + Clone + \'static', 'src: [T; 3]', 'let it = src.con_iter();', 'S'),
    'slice.into_con_iter': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let r: &[T] = &src; let it = IntoConcurrentIter::into_con_iter(r);', 'S'),
    'slice.con_iter': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let r: &[T] = &src; let it = r.con_iter();', 'S'),
    'slice.new': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = ConIterOfSlice::new(&src[..]);', 'S'),
    'slice.from': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = ConIterOfSlice::from(&src[..]);', 'S'),
    'slice.clone': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = ConIterOfSlice::new(&src[..]).clone();', 'S'),
    'ref-iter': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = IterIntoConcurrentIter::into_con_iter(src.iter());', 'S'),
    'slice.cloned': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = src.con_iter().cloned();', 'C'),
    'slice.copied': ('T: Send + Sync + Copy + \'static', 'src: Vec<T>', 'let it = src.con_iter().copied();', 'C'),
    'ref-iter.cloned': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = ConIterOfIter::new(src.iter()).cloned();', 'C'),
    'ref-iter.copied': ('T: Send + Sync + Copy + \'static', 'src: Vec<T>', 'let it = ConIterOfIter::new(src.iter()).copied();', 'C'),
    'vec.into_con_iter': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = IntoConcurrentIter::into_con_iter(src);', 'V'),
    'vec.new': ('T: Send + Sync + Clone + \'static', 'src: Vec<T>', 'let it = ConIterOfVec::new(src);', 'V'),
    'array.into_con_iter': ('T: Send + Sync + Clone + \'static', 'src: [T; 3]', 'let it = IntoConcurrentIter::into_con_iter(src);', 'V'),
    'iter.into_con_iter': ('T: Send + Sync + Clone + \'static, I: Iterator<Item = T> + Send + Sync + \'static', 'src: I', 'let it = IterIntoConcurrentIter::into_con_iter(src);', 'I'),
    'range.into_con_iter': ('', 'src: std::ops::Range<usize>', 'let it = IntoConcurrentIter::into_con_iter(src);', 'R'),
}
DELIVER = {
    'next': 'let x = it.next();',
    'next_id_and_value': 'let x = it.next_id_and_value();',
    'next_chunk': 'let x = it.next_chunk(2);',
    'chunk-element': 'let x = it.next_chunk(2).and_then(|c| c.values.into_iter().next());',
    'buffered': 'let mut buf = it.buffered_iter(2); let x = buf.next();',
    'buffered-element': 'let mut buf = it.buffered_iter(2); let x = match buf.next() { Some(mut c) => c.values.next(), None => None };',
    'buffer': 'let x = it.buffered_iter(2);',
    'values': 'let x = it.values();',
    'values-element': 'let x = it.values().next();',
    'ids_and_values': 'let x = it.ids_and_values();',
    'ids_and_values-element': 'let x = it.ids_and_values().next();',
    'into_seq_iter': 'let x = it.into_seq_iter();',
    'seq-element': 'let x = it.into_seq_iter().next();',
    'for_each': 'let mut x = None; it.for_each(1, |v| x = Some(v));',
    'for_each-chunks': 'let mut x = None; it.for_each(2, |v| x = Some(v));',
    'enumerate_for_each': 'let mut x = None; it.enumerate_for_each(2, |_, v| x = Some(v));',
    'fold': 'let x = it.fold(2, None, |_, v| Some(v));',
    'iterator': 'let x = it;',
}
OF_IT = {'buffer', 'values', 'ids_and_values'}
BUFD = {'buffered'}
ENDS = {'src': 'drop(src);', 'it': 'drop(it);', 'buf': 'drop(buf);', 'pull': 'let again = buf.next(); drop(again);'}


def depends(kind, d):
    """the places the delivered value must not outlive"""
    out = []
    if kind == 'S' or (kind == 'C' and d in OF_IT | {'next_chunk', 'buffered', 'into_seq_iter', 'iterator'}):
        out.append('src')
    if d in OF_IT or (kind == 'V' and d in ('next_chunk', 'buffered')):
        out.append('it')
    if d in BUFD:
        out += ['buf', 'pull']
    return out


NMARK = 3


def client(name, s, d, ends={}, use=NMARK):
    """a client function; `ends` maps a mark to what happens there, the value is used last after mark `use`"""
    g, par, mk, _ = SOURCES[s]
    body = [mk, DELIVER[d]]
    for k in range(NMARK + 1):
        if k == use:
            body.append('use_(x);')
        if k < NMARK:
            body.append('mark(%d);' % k)
            if k in ends:
                body.append(ends[k])
    return 'pub fn %s<%s>(%s) {\n    %s\n}\n' % (name, g, par, '\n    '.join(body))


LHEAD = '#![allow(warnings)]\nuse orx_concurrent_iter::*;\n#[inline(never)]\npub fn mark(k: u32) { std::hint::black_box(k); }\npub fn use_<X>(x: X) {}\n'


def read_facts(d, fn):
    out = {}
    for n in ('subset_base', 'loan_issued_at', 'use_of_var_derefs_origin', 'drop_of_var_derefs_origin'):
        rows = []
        try:
            with open(os.path.join(d, fn, n + '.facts')) as f:
                for l in f:
                    rows.append(tuple(json.loads(x) if x.startswith('"') else x for x in l.rstrip('\n').split('\t')))
        except OSError:
            pass
        out[n] = rows
    return out


def read_mir(p):
    """{local variable name: local}, {(block, statement index): text}, {mark: point}"""
    names, stm, marks = {}, {}, {}
    blk, k = None, 0
    with open(p) as f:
        for l in f:
            m = re.match(r'\s*debug (\w+) => (_\d+);', l)
            if m:
                names.setdefault(m.group(1), m.group(2))
            m = re.match(r'    (bb\d+)(?: \(cleanup\))?: \{', l)
            if m:
                blk, k = m.group(1), 0
                continue
            if blk is None or not l.startswith('        ') or l.strip().startswith('//'):
                if l.startswith('    }'):
                    blk = None
                continue
            t = l.strip()
            stm[blk, k] = t
            m = re.search(r'= (?:\w+::)*mark\(const (\d+)_u32\)', t)
            if m:
                marks[int(m.group(1))] = (blk, k)
            k += 1
    return names, stm, marks


def decide_lifetimes(f, res, pool):
    progs = {}
    for s in SOURCES:
        for d in DELIVER:
            n = 'c_%s__%s' % (re.sub(r'\W', '_', s), re.sub(r'\W', '_', d))
            progs[n] = (s, d)
    live = dict(progs)
    dirs = (os.path.join(f.dir, 'facts'), os.path.join(f.dir, 'mir'))
    for _ in range(6):
        text, lines = LHEAD, []
        for n, (s, d) in live.items():
            a = text.count('\n') + 1
            text += client(n, s, d)
            lines.append((a, text.count('\n'), n))
        subprocess.run(['rm', '-rf', dirs[0], dirs[1]])
        ok, ds = f.rustc(text, ['-Znll-facts', '-Znll-facts-dir=' + dirs[0], '-Zdump-mir=nll', '-Zdump-mir-dir=' + dirs[1]], name='lt')
        if ok:
            break
        bad = {n for a, b, n in lines for _, _, sp in ds for x in sp if a <= x <= b}
        for n in bad:
            res.dead.append('%s: %s' % (n, [m for c, m, sp in ds if any(a <= x <= b for a, b, k in lines if k == n for x in sp)][:1]))
            live.pop(n)
        if not bad:
            raise build.BuildError('client programs: %s' % ds[:3])
    else:
        raise build.BuildError('client programs do not compile')
    mirs = {}
    for x in os.listdir(dirs[1]):
        m = re.match(r'lt\.(\w+)\.-------\.nll\.0\.mir$', x)
        if m:
            mirs[m.group(1)] = os.path.join(dirs[1], x)
    for n, (s, d) in live.items():
        deps = depends(SOURCES[s][3], d)
        if not deps:
            continue
        res.routes += 1
        F = read_facts(dirs[0], n)
        names, stm, marks = read_mir(mirs[n])
        if 'x' not in names or len(marks) != NMARK:
            raise RuntimeError('cannot read the borrow facts of ' + n)
        vx = names['x']
        orig = {o for v, o in F['use_of_var_derefs_origin'] + F['drop_of_var_derefs_origin'] if v == vx}
        sub = {(a, b) for a, b, _ in F['subset_base']}
        loans = {}
        for o, l, p in F['loan_issued_at']:
            m = re.match(r'(?:Mid|Start)\((bb\d+)\[(\d+)\]\)', p)
            t = stm.get((m.group(1), int(m.group(2))), '')
            m = re.match(r"_\d+ = &(?:'\?\w+ )?(?:mut |two-phase |fake \w+ )*(.*?);", t)
            base = None
            if m:
                pl = m.group(1)
                if not pl.startswith('(*') and '(*' not in pl:
                    base = re.search(r'_\d+', pl).group(0)
            loans.setdefault(base, []).append(o)
        regs = sorted({r for ab in sub for r in ab} | orig | {o for v in loans.values() for o in v})
        In = {(r, k): z3.Bool('%s@%d' % (r, k)) for r in regs for k in range(NMARK)}
        i, j = z3.Ints('end use')
        base = [In[b, k] == In[b, k] for b in ()]
        for a, b in sub:
            base += [z3.Implies(In[b, k], In[a, k]) for k in range(NMARK)]
        for o in orig:
            base += [z3.Implies(k < j, In[o, k]) for k in range(NMARK)]
        base += [0 <= i, i < j, j <= NMARK]
        for place in deps:
            res.reqs += 1
            loc = names.get('buf' if place == 'pull' else place)
            if loc is None:
                raise RuntimeError('no place %s in %s' % (place, n))
            sol = z3.Solver()
            sol.add(base)
            for o in loans.get(loc, []):
                sol.add([z3.Implies(i == k, z3.Not(In[o, k])) for k in range(NMARK)])
            while check(sol, res):
                m = sol.model()
                e, u = m.eval(i).as_long(), m.eval(j).as_long()
                p = LHEAD + client(n, s, d, {e: ENDS[place]}, u)
                ok, ds = f.rustc(p)
                res.probes += 1
                if ok:
                    what = {'src': 'the collection is dropped', 'it': 'the concurrent iterator is dropped', 'buf': 'the buffer is dropped',
                            'pull': 'the next pull on the buffer'}[place]
                    res.violations.append(dict(key='%s:%s:outlives-%s' % (s, d, place),
                                               text='%s: a value obtained by %s can be used after %s' % (s, d, what), program=p))
                    break
                sol.add(z3.Not(z3.And(i == e, j == u)))
    if live:
        res.samples.append(dict(client=n, regions=len(regs), subset_constraints=len(sub), loans=sum(map(len, loans.values()))))
    # the forbidden programs that the answers are about, for a sample: the compiler has to agree
    return len(live)


def run(b, res=None):
    res = res or Result()
    f = Facts(b)
    with ThreadPoolExecutor(8) as pool:
        decide_bounds(f, res, pool)
        decide_lifetimes(f, res, pool)
    return f, res


if __name__ == '__main__':
    bb = build.Builder()
    try:
        t = time.time()
        f, r = run(bb)
        print(r.queries, r.reqs, r.probes, 'routes', r.routes, 'dead', len(r.dead), '%.1f s solver %.2f' % (time.time() - t, r.solver))
        for x in r.dead:
            print('DEAD', x[:200])
        for v in r.violations:
            print('VIOL', v['key'], v['text'])
        print(r.samples)
    finally:
        bb.close()
