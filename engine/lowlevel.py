"""C14, last sentence: no sequence of safe public calls produces two owners of one element.

The safe public methods of the consuming iterators are listed from the compiler's description of the crate (rustdoc
JSON): methods on a shared or exclusive reference to the iterator, its counter or its buffers whose other arguments are
machine words.  For each a wrapper without any unsafe code is generated and handed to the compiler: what the compiler
rejects is not reachable from safe code.  The wrappers become additional operations of the symbolic histories."""
import os
import shutil
import check
import monitor as M
import replay
import seq
import tlevel
from build import Builder
from check import SeqJob, SeqRun
from seq import OpSpec, Setup

KINDS = {'V': 'ConIterOfVec<Tok>', 'A2': 'ConIterOfArray<2, Tok>', 'I': 'ConIterOfIter<Tok, Probe>'}
ADT = {'V': 'ConIterOfVec', 'A2': 'ConIterOfArray', 'I': 'ConIterOfIter'}
SLOTS = 24
# (part of the ordinary harness)
BASE_OPS = {'next', 'next_id_and_value', 'next_chunk', 'try_get_len', 'has_more', 'skip_to_end', 'buffered_iter', 'into_seq_iter',
            'values', 'ids_and_values', 'fmt', 'clone', 'drop'}

OUT = '''
pub trait Out { fn out(self, take: usize); }
impl Out for Tok { fn out(self, _: usize) { unsafe { env_item(0, 0, self.emit()) } } }
impl Out for usize { fn out(self, _: usize) { unsafe { env_obs(3, self, 0) } } }
impl Out for bool { fn out(self, _: usize) {} }
impl Out for () { fn out(self, _: usize) {} }
impl<X: Out> Out for Option<X> { fn out(self, take: usize) { if let Some(x) = self { x.out(take) } } }
impl<X: Out, Y> Out for Result<X, Y> { fn out(self, take: usize) { if let Ok(x) = self { x.out(take) } } }
impl<X: Out, Y: Out> Out for (X, Y) { fn out(self, take: usize) { self.0.out(take); self.1.out(take) } }
impl Out for Next<Tok> { fn out(self, take: usize) { self.value.out(take) } }
impl Out for Vec<Tok> { fn out(self, take: usize) { pour(self.into_iter(), take) } }
impl<I: ExactSizeIterator<Item = Tok>> Out for NextChunk<Tok, I> { fn out(self, take: usize) { pour(self.values, take) } }
fn pour(mut it: impl Iterator<Item = Tok>, take: usize) {
    let mut i = 0;
    while i < take {
        match it.next() {
            Some(v) => v.out(0),
            None => break,
        }
        i += 1;
    }
}
'''


def methods(doc):
    """[(label, receiver, trait path or None, name, number of words)]"""
    idx = doc['index']
    out = []
    for it in idx.values():
        inner = it['inner']
        owner = None
        if 'trait' in inner:
            owner = ('trait', it['name'], '::'.join(doc['paths'].get(str(it['id']), {}).get('path', [])))
            items = inner['trait']['items']
        elif 'impl' in inner:
            im = inner['impl']
            if im.get('trait') is not None:
                continue
            t = im['for'].get('resolved_path')
            if not t:
                continue
            owner = ('adt', t['path'].split('::')[-1])
            items = im['items']
        else:
            continue
        for x in items:
            f = idx.get(str(x)) or idx.get(x)
            if f is None or 'function' not in f['inner']:
                continue
            ins = f['inner']['function']['sig']['inputs']
            if not ins or ins[0][0] != 'self' or 'borrowed_ref' not in ins[0][1]:
                continue
            rest = [list(a[1].items())[0] for a in ins[1:]]
            word = [a == ('primitive', 'usize') for a in rest]
            out.append((owner, f['name'], rest, word))
    res = []
    for owner, name, rest, word in out:
        n = len(rest)
        call = ', '.join('abcd'[i] for i in range(n))
        o = owner[1]
        if all(word) and n <= 2:
            if o == 'AtomicCounter':
                res.append(('counter.' + name, None, '{ use orx_concurrent_iter::iter::atomic_iter::*; Out::out(c.counter().%s(%s), t) }' % (name, call), n))
            elif o in ADT.values() or owner[0] == 'trait':
                if name in BASE_OPS and o not in ('AtomicIter', 'AtomicIterWithInitialLen'):
                    continue
                only = o if o in ADT.values() else None
                if owner[0] == 'trait' and o == 'BufferedChunk':
                    continue
                if o == 'AtomicIter' and name == 'counter':
                    continue
                res.append(('%s.%s' % (o, name), only, '{ #[allow(unused)] use orx_concurrent_iter::iter::atomic_iter::*; Out::out(c.%s(%s), t) }' % (name, call), n))
        elif owner[0] == 'trait' and name not in BASE_OPS and n == 2 and word[1]:
            # a method of the buffers that takes the iterator
            use = '{ use %s; ' % owner[2] if owner[2] else '{ '
            for u in ('{ ', use):
                res.append(('%s.%s' % (o, name), 'generic', u + 'if let Some(it) = <C::BufferedIter>::new(a.max(1)).%s(c, b) { pour(it, t) } }' % name, 2))
    return res


def wrapper(kind, i, m):
    label, only, body, n = m
    unused = ' let _ = (a, b, t);'
    if only == 'generic':
        f = 'fn f<C: ConcurrentIter<Item = Tok>>(c: &C, a: usize, b: usize, t: usize) {%s %s }' % (unused, body)
    else:
        f = 'fn f(c: &mut %s, a: usize, b: usize, t: usize) {%s %s }' % (KINDS[kind], unused, body)
    return f


def operations(f, src, pool):
    """{kind: [(label, wrapper, number of words)]} of what the compiler accepts; rejected ones"""
    ms = methods(f.doc)
    head = src.split('// ---------------------------------------------------------------- operations')[0]
    todo = []
    for k in KINDS:
        seen = set()
        for m in sorted(ms, key=lambda m: m[0]):
            if m[1] not in (None, 'generic', ADT[k]):
                continue
            w = wrapper(k, 0, m)
            if w in seen:
                continue
            seen.add(w)
            todo.append((k, m, w))

    def ask(x):
        k, m, w = x
        inst = ''
        if m[1] == 'generic':
            inst = 'pub fn g(c: &mut %s) { f(c, 1, 1, 1) }' % KINDS[k]
        ok, ds = f.rustc(head + OUT + w + inst, name='ll_%s_%d' % (k, todo.index(x)))
        return ok, ds
    ok, no = {k: [] for k in KINDS}, {}
    for (k, m, w), (a, ds) in zip(todo, pool.map(ask, todo)):
        if a and len(ok[k]) < SLOTS:
            ok[k].append((m[0], w, m[3]))
        else:
            no[m[0]] = ds[0][1] if ds else 'no slot'
    return ok, no


class LLBuilder(Builder):
    """the harness with the generated operations"""

    def __init__(self, ops):
        Builder.__init__(self)
        p = os.path.join(self.harness, 'src/lib.rs')
        with open(p) as f:
            t = f.read()
        t += OUT
        for k in KINDS:
            for i in range(SLOTS):
                f = ops[k][i][1] if i < len(ops[k]) else 'fn f(_: &mut %s, _: usize, _: usize, _: usize) {}' % KINDS[k]
                t += ('pub mod ll_%s_%d { use super::*; %s\n#[export_name = "%s_ll%d"] pub unsafe extern "C-unwind" fn op(c: *mut %s, a: usize, b: usize, '
                      't: usize) { f(&mut *c, a, b, t) } }\n') % (k.lower(), i, f, k, i, KINDS[k])
        with open(p, 'w') as g:
            g.write(t)
        self.rt_flags = ['--cfg', 'll']


class LLJob(SeqJob):
    def make(self, eng, want, cand, deadline, wit):
        return LLRun(self, eng, {want}, cand, deadline, wit)

    def split(self):
        return [LLJob(j.setup, j.alphabet, j.depth, j.finals, j.dbg, j.only_full, j.prefix) for j in SeqJob.split(self)]


def owners(src, events):
    """requirements: every element has at most one owner, and nothing else is owned"""
    out = []
    vals = []
    at = 0
    for e in events:
        at += 1
        v = None
        if e[0] in ('item', 'user'):
            v = e[3]
        elif e[0] in ('elem', 'seq', 'drop'):
            v = e[1]
        elif e[0] == 'fold':
            v = e[2]
        if v is not None:
            c = M.AND(M.ULE(M.BASE, v), M.ULT(v, M.ADD(M.BASE, src.L)))
            if c is not True:
                out.append(M.Req('C14', c, 'safe calls deliver or drop a value that is not an element', at))
            else:
                M.EVALS[0] += 1
            for w in vals:
                d = M.NOT(M.EQ(v, w))
                if d is not True:
                    out.append(M.Req('C14', d, 'safe calls produce two owners of one element', at))
                else:
                    M.EVALS[0] += 1
            vals.append(v)
        if e[0] == 'badfree':
            out.append(M.Req('C14', M.EQ(e[1], 0), 'safe calls release memory wrongly', at))
        if e[0] == 'crash':
            out.append(M.Req('C14', False, 'safe calls crash the process', at))
    return out


class LLRun(SeqRun):
    def leaf(self, st):
        o = st.outcome
        if o is not None and o[0] in ('hang', 'abort'):
            # (a reservation that is never used blocks the others: not a matter of ownership)
            self.stats['paths'] += 1
            self.stats['events'][o[0]] = self.stats['events'].get(o[0], 0) + 1
            st.outcome = None
            self.judge(st)
            return
        if o is not None:
            SeqRun.leaf(self, st)
            return
        self.stats['paths'] += 1
        self.stats['histories'] += 1
        for e in st.trace:
            self.stats['events'][e[0]] = self.stats['events'].get(e[0], 0) + 1
        self.judge(st)
        if len(self.wit) < self.WITNESSES:
            self.witness(st)

    def judge(self, st):
        import z3
        reqs = owners(seq.source(st), st.trace)
        self.stats['reqs'] += len(reqs) + M.EVALS[0]
        M.EVALS[0] = 0
        if not reqs:
            return
        for r in reqs:
            if r.cond is False:
                self.candidate(st, self.E.model_of(st), r.text, 'req')
                return
        m = self.E.check(st, z3.Not(z3.And(*[r.cond for r in reqs])))
        if m is not None:
            r = [r for r in reqs if not m.val(r.cond)][0]
            self.candidate(st, m, r.text, 'req')

    def describe(self, st, m):
        c = SeqRun.describe(self, st, m)
        c['mode'] = 'll'
        c['judge'] = judge_ll
        c['validate'] = validate_ll
        return c


def judge_ll(c, binary, prop, builder):
    rc, log = replay.run(binary, c['lines'], timeout=5)
    evs, src = replay.events(rc, log, c['ops'])
    su = c['setup']
    S = M.Src(su.kind, c['L'], c['L'], 0, src[0], su.fused, su.hint)
    return [r.text for r in owners(S, evs) if r.cond is False], log


def validate_ll(c, binary):
    return check.validate(dict(c, mode='seq'), binary)


def jobs(ops, quick):
    out = []
    names = {k: ['%s_ll%d = %s' % (k, i, m[0]) for i, m in enumerate(ops[k])] for k in KINDS}
    for k, lm in (('V', 2), ('A2', 2), ('I', 2)):
        take = ('sym', 0, lm + 1)
        ll = [[OpSpec('ll%d' % i, n=check.FULL, take=take, k=m[2])] for i, m in enumerate(ops[k])]
        base = check.alphabet(lm, 'next_id chunk skip', check.FULL, take)
        if k == 'I':
            buf = check.alphabet(lm, 'bufb', ('sym', 0, 64), take)
        else:
            buf = check.alphabet(lm, 'buf', check.FULL, take)
        fin = (('drop',), ('into_seq',))
        if quick:
            if k == 'V':
                out.append(LLJob(Setup(k, lm), ll + base + buf, 2, fin, False, True))
                out.append(LLJob(Setup(k, lm), ll + base[:1], 3, (('drop',),), False, True))
            else:
                out.append(LLJob(Setup(k, lm), ll + base + buf, 3, fin, False, True))
        else:
            out.append(LLJob(Setup(k, lm), ll + base + buf, 3, fin, False, True))
            out.append(LLJob(Setup(k, lm), ll + base + buf, 3, fin, True, True))
            if k != 'V':
                out.append(LLJob(Setup(k, lm), ll + base, 4, fin, False, True))
    return out, names


def run(prop, tier, seed, b, known=()):
    """the whole check of C14"""
    import time
    from concurrent.futures import ThreadPoolExecutor
    from build import VERIF
    t = time.time()
    f, r = tlevel.run(b)
    with open(os.path.join(VERIF, 'harness/src/lib.rs')) as g:
        src = g.read()
    with ThreadPoolExecutor(8) as pool:
        ops, no = operations(f, src, pool)
    out = check.Outcome()
    # (one and the same misuse: reported once per key)
    viol = {}
    for v in r.violations:
        viol.setdefault(v['key'], dict(v, setup='client program', confirmed=['accepted by the compiler: ' + v['text']],
                                       lines=v['program'].split('\n'), log=[]))
    out.violations = list(viol.values())
    out.replays = r.probes
    out.errors += ['unreachable: ' + d for d in r.dead] if len(r.dead) * 2 > r.routes else []
    out.stats.append(dict(job='type-level facts: bounds and lifetimes', paths=r.routes, histories=0, reqs=r.reqs, queries=r.queries, solver_s=r.solver,
                          wall=time.time() - t, events={}, fns=[]))
    out.samples = [dict(x) if isinstance(x, dict) else dict(program=str(x)[:600]) for x in r.samples][:2]
    out.extra = dict(routes=r.routes, dead_routes=r.dead[:20], compiler_probes=r.probes, region_and_bound_queries=r.queries,
                     safe_public_methods={k: [m[0] for m in v] for k, v in ops.items()}, not_reachable_from_safe_code=no)
    if any(v['key'] not in known for v in out.violations):
        return out
    lb = LLBuilder(ops)
    try:
        js, names = jobs(ops, tier != 'thorough')
        o = check.run_jobs(prop, js, lb, check.judge, budget=200 if tier != 'thorough' else 2400, seed=seed)
        out.extra['operations'] = names
        for v in o.violations:
            v['key'] = 'low-level:%s:%s' % (v['setup'].kind, v['text'].replace(' ', '_'))
            v['lines'] = ['# %s' % n for n in names[v['setup'].kind]] + v['lines']
        out.violations += o.violations
        out.unconfirmed, out.mismatch, out.ub_unseen = o.unconfirmed, o.mismatch, o.ub_unseen
        out.errors += o.errors
        out.replays += o.replays
        out.validated = o.validated
        out.stats += o.stats
        out.samples += o.samples
    finally:
        lb.close()
    return out
