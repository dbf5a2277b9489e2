"""Product histories: every path of one implementation is re-executed, under its path condition, on a second
implementation (the other build mode, or the adapted iterator), and the solver compares the two transcripts."""
import time
import z3
import monitor as M
import replay
import seq
from check import SeqJob, SeqRun, explore_safe, normal, OBS
from llparse import Unsupported
from seq import OpSpec, Setup
from symex import Infeasible, is_sym


class ProductJob:
    """mode 'build': release against debug;  mode 'adapt': an iterator over references against cloned()/copied()"""

    def __init__(self, setup, alphabet, depth, finals=(('drop',),), mode='build', other=None, dbg=False, only_full=False, prefix=()):
        self.setup = setup
        self.alphabet = alphabet
        self.depth = depth
        self.finals = finals
        self.mode = mode
        self.other = other
        self.dbg = dbg
        self.dbgs = (False, True) if mode == 'build' else (dbg,)
        self.only_full = only_full
        self.prefix = prefix

    def name(self):
        w = 'release vs debug' if self.mode == 'build' else 'against %s%s' % (self.other, ' (debug)' if self.dbg else '')
        return '%s %s depth %d {%s} finals {%s}' % (self.setup, w, self.depth, ' '.join('+'.join(map(repr, a)) for a in self.alphabet),
                                                    ' '.join('+'.join(f) for f in self.finals))

    def split(self):
        if self.prefix or self.depth < 2:
            return [self]
        return [ProductJob(self.setup, self.alphabet, self.depth, self.finals, self.mode, self.other, self.dbg,
                           self.only_full or i > 0, (i,)) for i in range(len(self.alphabet))]

    def make(self, engines, want, cand, deadline, wit):
        return ProductRun(self, engines, want, cand, deadline, wit)


class ProductRun(SeqRun):
    def __init__(self, job, engines, want, cand, deadline, wit):
        super().__init__(job, engines, want, cand, deadline, wit)
        if job.mode == 'build':
            self.E2 = engines(True)
            self.su2 = job.setup
        else:
            self.E2 = self.E
            s = job.setup
            self.su2 = Setup(job.other, s.lmax, s.hint, s.fused, s.panics, cap=s.cap, pcount=s.pcount, lmin=s.lmin)
        self.roots2 = None

    def second_roots(self):
        if self.roots2 is None:
            self.roots2 = [r for r in seq.root(self.E2, self.su2)]
        return self.roots2

    def leaf(self, st):
        o = st.outcome
        self.stats['paths'] += 1
        if o is not None and o[0] in ('bound', 'unsupported'):
            d = self.stats['cut' if o[0] == 'bound' else 'unsupported']
            d[o[1]] = d.get(o[1], 0) + 1
            return
        self.stats['histories'] += 1
        ops = [e for e in st.trace if e[0] == 'op']
        if not ops:
            return
        if self.on_witness is not None and len(self.wit) < self.WITNESSES and o is None:
            self.witness(st)
        t1 = transcript(st)
        n = 0
        for r in self.second_roots():
            if not is_sym(r.env['L']) and not is_sym(st.env['L']) and r.env['L'] != st.env['L']:
                continue
            if r.env.get('cap') != st.env.get('cap'):
                continue
            if is_sym(r.env['L']) != is_sym(st.env['L']):
                continue
            s = r.clone()
            try:
                for c in st.pc:
                    self.E2.assume(s, c)
            except Infeasible:
                continue
            n += 1
            s.env['ops'] = ops
            s.env['k'] = 0
            explore_safe(self.E2, [s], self.second_driver, lambda x: self.compare(st, t1, x), self.stats)

    def second_driver(self, E, st):
        if 'ready' in st.env:
            del st.env['ready']
        else:
            seq.finish_op(E, st)
        k = st.env['k']
        if time.time() > self.deadline:
            st.outcome = ('bound', 'time')
            return [st]
        ops = st.env['ops']
        if k >= len(ops):
            return None
        _, i, nm, it, args = ops[k]
        st.env['k'] = k + 1
        s = st.clone()
        op = OpSpec(nm, it)
        if nm == 'buf_new':
            op.slot, op.n = args[0], args[1]
        elif nm == 'buf_next':
            op.slot, op.take = args[0], args[1]
        elif nm == 'buf_drop' or nm.startswith(('vals_', 'idv_')):
            op.slot = args[0]
        elif nm == 'chunk':
            op.n, op.take = args
        elif nm in ('values', 'ids'):
            op.k = args[0]
        elif nm in ('for_each', 'for_each_id', 'fold'):
            op.n = args[0]
        elif nm == 'into_seq':
            op.take = args[0]
        elif nm == 'clone':
            op.dst = args[0]
        try:
            start_with(E, s, op, i)
        except Infeasible:
            return []
        return [s]

    def compare(self, st1, t1, st2):
        o = st2.outcome
        if o is not None and o[0] in ('bound', 'unsupported'):
            d = self.stats['cut' if o[0] == 'bound' else 'unsupported']
            d[o[1]] = d.get(o[1], 0) + 1
            return
        t2 = transcript(st2)
        conds = []
        text = None
        src1, src2 = seq.source(st1), seq.source(st2)
        adapt = self.job.mode == 'adapt'
        if adapt:
            t1 = [e for e in t1 if e[0] not in ('clone', 'drop', 'fold', 'foldres')]
            t2 = [e for e in t2 if e[0] not in ('clone', 'drop', 'fold', 'foldres')]
        for i in range(max(len(t1), len(t2))):
            a = t1[i] if i < len(t1) else None
            b = t2[i] if i < len(t2) else None
            if a is None or b is None or a[0] != b[0] or len(a) != len(b):
                text = 'the two disagree: %s against %s' % (short(a), short(b))
                conds.append(False)
                break
            vpos = VALUE_ARG.get(a[0]) if adapt else None
            for k in range(1, len(a)):
                x, y = a[k], b[k]
                if isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)):
                    c = same(x, y)
                elif vpos == k:
                    c = M.EQ(M.MUL(M.SUB(y, M.BASE + (M.CLONE if src2.kind in M.CLONED else 0)), 8), M.SUB(x, src1.addr))
                else:
                    c = M.EQ(x, y)
                if c is not True:
                    conds.append(c)
                    text = text or 'the two disagree in %s' % a[0]
        self.stats['reqs'] += max(len(t1), 1)
        if not conds:
            return
        E = self.E2
        m = E.check(st2, z3.Not(z3.And(*[c for c in conds if c is not False]))) if False not in conds else E.model_of(st2)
        if m is None:
            return
        cls = 'req'
        if (st1.outcome or st2.outcome or ('',))[0] == 'ub':
            cls = 'ub'
        c = self.describe(st1, m)
        c['text'] = text + (' (%s)' % (st1.outcome or st2.outcome)[1] if cls == 'ub' else '')
        c['cls'] = cls
        c['mode'] = self.job.mode
        c['judge'] = judge_build if self.job.mode == 'build' else judge_adapt
        if adapt:
            env = {k: v for k, v in st2.env.items() if k in ('cap',)}
            env.update(L=c['L'], start=c['start'])
            for k in ('end', 'probe_panic', 'clone_panic', 'user_panic', 'slack_lo', 'slack_hi'):
                v = st1.env.get(k)
                if v is not None:
                    env[k] = seq.mval(m, v)
            c['lines2'] = seq.script(self.su2, m, env, c['ops'])
            c['setup2'] = self.su2
        self.on_candidate(c)


VALUE_ARG = {'item': 3, 'elem': 1, 'seq': 1, 'user': 3}


def start_with(E, st, op, i):
    """start_op with arguments that are given as values"""
    old = seq.arg
    seq.arg = lambda E, st, spec, name: spec
    try:
        seq.start_op(E, st, op, i)
    finally:
        seq.arg = old


def short(e):
    if e is None:
        return 'nothing'
    return e[0] + ('' if e[0] != 'op' else ' ' + e[2])


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all((a is b) or (not is_sym(a) and not is_sym(b) and a == b) or
                                        (is_sym(a) and is_sym(b) and a.eq(b)) for a, b in zip(x, y))
    return x == y


def transcript(st):
    out = [e for e in st.trace if e[0] in OBS]
    k = st.env['su'].kind
    if k in M.REFS:
        out = [e for e in out if e[0] not in ('fold', 'foldres')]
    if st.outcome is not None:
        out.append(('outcome', st.outcome[0]))
    return out


def nat(c, lines, setup, binary):
    rc, log = replay.run(binary, lines)
    evs, src = replay.events(rc, log, c['ops'])
    evs2 = normal(evs, src[0], src[1], setup.kind)
    for e in evs:
        if e[0] in ('crash', 'hang', 'badfree', 'live'):
            if e[0] == 'badfree' and e[1] == 0:
                continue
            if e[0] == 'live' and e[1] == src[0]:
                continue
            evs2.append([e[0]])
    return evs2, log


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return x, y
    return None


def judge_build(c, binary, prop, builder):
    a, la = nat(c, c['lines'], c['setup'], builder.native(False))
    b, lb = nat(c, c['lines'], c['setup'], builder.native(True))
    d = first_diff(a, b)
    if d is None:
        return [], la
    return ['release: %s, debug: %s' % d], la + ['--- debug build'] + lb


def judge_adapt(c, binary, prop, builder):
    a, la = nat(c, c['lines'], c['setup'], binary)
    b, lb = nat(c, c['lines2'], c['setup2'], binary)

    def clean(x, su):
        out = []
        for e in x:
            if e[0] in ('clone', 'drop', 'fold', 'foldres'):
                continue
            p = VALUE_ARG.get(e[0])
            e = list(e)
            if p is not None:
                v = e[p]
                if isinstance(v, list) and v[0] == 'src':
                    e[p] = v[1] // 8
                elif isinstance(v, int):
                    e[p] = v - M.BASE - (M.CLONE if su.kind in M.CLONED else 0)
            out.append(e)
        return out
    d = first_diff(clean(a, c['setup']), clean(b, c['setup2']))
    if d is None:
        return [], la
    return ['underlying: %s, adapted: %s' % d], la + ['--- adapted iterator'] + lb
