"""Sequential histories: environment model, roots, the history driver and the leaf check."""
import time
import z3
from llparse import Module, UNDEF, Unsupported
from symex import Engine, State, Ptr, Obj, UNWIND, bvv, is_sym, base_of
import monitor as M

BASE = M.BASE
CLONE = M.CLONE


# ---------------------------------------------------------------- environment handlers
def val64(E, v):
    if isinstance(v, Ptr):
        return E.toint(v, 64)
    if v is UNDEF:
        return 0xdeadbeef
    return v


def ev(name, *spec):
    def h(E, st, a, ins):
        st.trace.append((name,) + tuple(val64(E, x) for x in a))
        return None
    return h


def h_item(E, st, a, ins):
    st.trace.append(('item', a[0], val64(E, a[1]), val64(E, a[2])))


def h_more(E, st, a, ins):
    t = E.concretize(st, a[0])
    st.trace.append(('more', t, val64(E, a[1])))


def h_try_len(E, st, a, ins):
    t = E.concretize(st, a[0])
    st.trace.append(('trylen', t, val64(E, a[1])))


def boom(E, st, key):
    """is this the call that panics"""
    p = st.env.get(key)
    if p is None:
        return False
    n = st.env.get(key + '_n', 0)
    return E.truth(st, p == n) if is_sym(p) else p == n


def bump(st, key):
    st.env[key + '_n'] = st.env.get(key + '_n', 0) + 1


def h_clone(E, st, a, ins):
    b = boom(E, st, 'clone_panic')
    bump(st, 'clone_panic')
    v = val64(E, a[0])
    if b:
        st.trace.append(('clone_panic', v))
        return UNWIND
    st.trace.append(('clone', v))
    return E.binop(st, 'add', 64, v, CLONE)


def h_user(E, st, a, ins):
    b = boom(E, st, 'user_panic')
    bump(st, 'user_panic')
    st.trace.append(('user', a[0], val64(E, a[1]), val64(E, a[2])))
    if b:
        st.trace.append(('user_panic',))
        return UNWIND


def h_fold(E, st, a, ins):
    b = boom(E, st, 'user_panic')
    bump(st, 'user_panic')
    st.trace.append(('fold', val64(E, a[0]), val64(E, a[1])))
    if b:
        st.trace.append(('user_panic',))
        return UNWIND
    return E.binop(st, 'add', 64, val64(E, a[0]), val64(E, a[1]))


def h_probe_next(E, st, a, ins):
    pid = E.concretize(st, a[0])
    key = 'probe%d' % pid
    p = st.env[key]
    b = boom(E, st, 'probe_panic')
    if b:
        bump(st, 'probe_panic')
        st.trace.append(('probe_panic', pid))
        return UNWIND
    pos = p['pos']
    L = p['L']
    past = p['past']
    if not past or p['fused']:
        more = E.truth(st, M.ULT(pos, L)) if not past else False
        k = pos
    else:
        # not fused: resumes after its first None
        more = True
        k = pos
    # effects
    bump(st, 'probe_panic')
    p = dict(p)
    st.env[key] = p
    if not more:
        p['past'] = True
        st.trace.append(('probe', pid, -1))
        return 0
    p['pos'] = pos + 1
    st.trace.append(('probe', pid, k))
    if p['refs'] is not None:
        E.store(st, a[1], 64, Ptr(p['refs'], k * 8))
    else:
        E.store(st, a[1], 64, BASE + k)
    return 1


def h_probe_hint(E, st, a, ins):
    pid = E.concretize(st, a[0])
    p = st.env['probe%d' % pid]
    L = p['L']
    rest = max(L - p['pos'], 0)
    h = p['hint']
    if h == 0:
        E.store(st, a[1], 64, rest)
        E.store(st, a[2], 64, rest)
        return 1
    if h == 1:
        E.store(st, a[1], 64, 0)
        return 0
    if h == 2:
        E.store(st, a[1], 64, 0)
        E.store(st, a[2], 64, M.ADD(rest, 1))
        return 1
    if h == 4:
        lo, hi = st.env['slack_lo'], st.env['slack_hi']
        E.store(st, a[1], 64, M.IF(M.ULE(lo, rest), M.SUB(rest, lo), 0))
        E.store(st, a[2], 64, M.ADD(rest, hi))
        return 1
    E.store(st, a[1], 64, rest)
    return 0


ENV = {
    'env_item': h_item, 'env_end': ev('end'), 'env_chunk': ev('chunk'), 'env_elem': ev('elem'), 'env_len': ev('len'),
    'env_chunk_done': ev('chunk_done'), 'env_chunk_drop': ev('chunk_drop'), 'env_try_len': h_try_len, 'env_more': h_more,
    'env_seq_hint': ev('seq_hint'), 'env_seq': ev('seq'), 'env_seq_done': ev('seq_done'), 'env_fold_result': ev('foldres'),
    'env_obs': ev('obs'), 'tok_drop': ev('drop'), 'probe_drop': ev('probe_drop'), 'tok_clone': h_clone,
    'probe_next': h_probe_next, 'probe_hint': h_probe_hint, 'env_user': h_user, 'env_fold': h_fold,
}


def make_engine(lls):
    return Engine(Module(lls), dict(ENV))


# ---------------------------------------------------------------- roots
class Setup:
    """one source configuration: kind and its symbolic parameters"""

    def __init__(self, kind, lmax, hint=0, fused=True, panics=(), nit=1, cap='sym', pcount=4, lmin=0, kinds=None):
        self.kind = kind
        self.lmax = lmax
        self.lmin = lmin
        self.hint = hint
        self.fused = fused
        self.panics = panics
        self.cap = cap
        self.pcount = pcount
        self.kinds = kinds or {}

    def __repr__(self):
        return '%s(L<=%s%s%s%s)' % (self.kind, self.lmax, '' if self.kind not in M.ITER else ',hint%d' % self.hint,
                                   '' if self.fused else ',nonfused', ''.join(',' + p for p in self.panics))


V = {}


def var(name):
    v = V.get(name)
    if v is None:
        v = V[name] = z3.BitVec(name, 64)
    return v


def root(E, su):
    """states just after construction of iterator 0 (a list: one per feasible case)"""
    st = State()
    k = su.kind
    st.env['su'] = su
    L = None
    roots = [st]
    if k in M.ARRAYS:
        L = int(k[-1])
    elif k == 'AS3':
        L = 3
    elif k in M.RANGE:
        L = None
    else:
        L = var('L')
        E.assume(st, M.AND(M.ULE(su.lmin, L), M.ULE(L, su.lmax)))
        out = []
        for s, x in split_on(E, st, L):
            out += root2(E, s, su, x)
        return out
    return root2(E, st, su, L)


def root2(E, st, su, L):
    k = su.kind
    esz = M.ESZ.get(k, 8)
    st.env['L'] = L
    st.env['start'] = 0
    srckind = 'srcheap' if k in M.VECS or k == 'VS' else 'src'
    if k in M.RANGE and su.lmax is not None and su.lmin == su.lmax:
        # one length
        a, b = var('start'), var('end')
        st.env['L'] = su.lmax
        st.env['start'] = a
        if su.lmax == 0:
            E.assume(st, z3.ULE(b, a))
        else:
            b = a + su.lmax
            E.assume(st, z3.ULT(a, b))
        st.env['end'] = b
        st.env['newargs'] = (a, b, 0)
        return start_new(E, st, su)
    if k in M.RANGE:
        a, b = var('start'), var('end')
        st.env['start'] = a
        st.env['end'] = b
        st.env['newargs'] = (a, b, 0)
        s2 = st.clone()
        L = var('L')
        st.env['L'] = L
        st.env['end'] = a + L
        st.env['newargs'] = (a, a + L, 0)
        E.assume(st, z3.ULT(a, a + L))
        if su.lmax is not None:
            E.assume(st, z3.ULE(L, su.lmax))
        s2.env['L'] = 0
        E.assume(s2, z3.ULE(b, a))
        return start_new(E, st, su) + start_new(E, s2, su)
    if k == 'I':
        st.env['probe1'] = dict(pos=0, L=L, past=False, fused=su.fused, hint=su.hint, refs=None)
        st.env['newargs'] = (1, 0, 0)
        panic_vars(E, st, su)
        return start_new(E, st, su)
    if k in ('VZ', 'AZ3'):
        st.env['newargs'] = (8, L, 0)
        panic_vars(E, st, su)
        return start_new(E, st, su)
    # a source object
    out = []
    cases = [None]
    if k in M.VECS:
        cases = ['empty', 'alloc'] if L == 0 else ['alloc']
    elif k == 'VS':
        cases = ['empty'] if L == 0 else ['alloc']
    for case in cases:
        s = st.clone()
        if case == 'empty':
            if su.lmin > 0:
                continue
            s.env['newargs'] = (8, 0, 0)
            s.env['cap'] = 0
            s.env['addr'] = 8
            s.env['src'] = None
        else:
            caps = [L]
            if k in M.VECS:
                # capacity beyond the length: exact or with room to spare
                caps = sorted(set([max(L, 1), L + 2])) if su.cap == 'sym' else [max(L, 1)]
            for cap in caps[1:]:
                s2 = s.clone()
                out += with_src(E, s2, su, L, cap, esz, srckind)
            out += with_src(E, s, su, L, caps[0], esz, srckind)
            continue
        if k == 'VS':
            ax = s.alloc(24, 'aux', 8)
            s.env['aux'] = ax.id
            s.env['newargs'] = (8, 0, Ptr(ax.id, 0))
        panic_vars(E, s, su)
        out += start_new(E, s, su)
    return out


def with_src(E, s, su, L, cap, esz, srckind):
    k = su.kind
    s.env['cap'] = cap
    o = s.alloc(cap * esz, srckind, 8, mk_init(esz))
    s.env['src'] = o.id
    s.env['addr'] = base_of(o.id)
    if srckind == 'srcheap' and k in M.VECS:
        s.trace.append(('alloc', o.id, cap * esz, 8))
    p = Ptr(o.id, 0)
    aux = cap if k in M.VECS else 0
    if k in ('RI', 'CI', 'RCI', 'PI'):
        s.env['probe1'] = dict(pos=0, L=L, past=False, fused=su.fused, hint=su.hint, refs=o.id)
        s.env['newargs'] = (1, 0, 0)
    else:
        s.env['newargs'] = (p, L, aux)
    if k == 'VS':
        ax = s.alloc(24, 'aux', 8)
        s.env['aux'] = ax.id
        s.env['newargs'] = (p, L, Ptr(ax.id, 0))
    panic_vars(E, s, su)
    return start_new(E, s, su)


def panic_vars(E, st, su):
    for p in su.panics:
        v = var(p)
        E.assume(st, z3.ULE(v, su.pcount))
        st.env[p] = v
    if su.kind in M.ITER and su.hint == 4:
        for p in ('slack_lo', 'slack_hi'):
            v = var(p)
            E.assume(st, z3.ULE(v, 3))
            st.env[p] = v


def mk_init(esz):
    def init(off, size):
        if isinstance(off, int):
            return BASE + off // esz
        if esz == 8:
            return z3.LShR(off, 3) + BASE
        return z3.UDiv(off, bvv(esz, 64)) + BASE
    return init


def iter_size(E, kind):
    c = E.__dict__.setdefault('sizes', {})
    if kind not in c:
        s = State()
        E.start_call(s, kind + '_size', [])
        while s.frames:
            E.step(s)
        c[kind] = s.ret[1]
    return c[kind]


def split_on(E, st, v):
    """case split of a state on the value of a variable"""
    out = []
    while True:
        m = E.check(st)
        if m is None:
            return out
        x = m.val(v)
        s = st.clone()
        s.pc.append(v == x)
        s.model = None
        E.keep.append(s.pc[-1])
        E.learn(s, s.pc[-1])
        out.append((s, x))
        st.pc.append(v != x)
        E.keep.append(st.pc[-1])
        st.model = None


def start_new(E, st, su):
    k = su.kind
    o = st.alloc(iter_size(E, k), 'iter', 16)
    st.env['it0'] = o.id
    st.env['kind0'] = k
    a = st.env['newargs']
    E.start_call(st, k + '_new', [Ptr(o.id, 0)] + list(a))
    st.env['srcsnap'] = 0
    out = []
    E.explore([st], lambda e, s: None, out.append)
    E.paths = 0
    for s in out:
        s.ret = None
        s.env['ready'] = True
    return out


def source(st):
    su = st.env['su']
    lm = su.lmax if su.lmax is not None else 0
    L = st.env['L']
    if not is_sym(L):
        lm = max(lm, L)
    return M.Src(su.kind, L, lm, st.env['start'], st.env.get('addr', 0), su.fused, su.hint)


# ---------------------------------------------------------------- operations
class OpSpec:
    """an operation of the alphabet; `args` maps depth -> list of (value, constraint)"""

    def __init__(self, name, it=0, n=None, take=None, slot=None, k=None, dst=None):
        self.name = name
        self.it = it
        self.n = n
        self.take = take
        self.slot = slot
        self.k = k
        self.dst = dst

    def __repr__(self):
        return self.name + ('' if self.it == 0 else '@%d' % self.it)


def arg(E, st, spec, name):
    """spec: int | ('sym', lo, hi)"""
    if isinstance(spec, int):
        return spec
    v = var(name)
    _, lo, hi = spec
    c = True
    if lo > 0:
        c = M.AND(c, M.ULE(lo, v))
    if hi < M.M64:
        c = M.AND(c, M.ULE(v, hi))
    E.assume(st, c)
    return v


def start_op(E, st, op, i):
    """begins operation number i on st (in place)"""
    it = op.it
    kind = st.env['kind%d' % it]
    c = Ptr(st.env['it%d' % it], 0)
    nm = op.name
    if nm == 'buf_new':
        n = arg(E, st, op.n, 'n%d' % i)
        args = (op.slot, n)
        call = [c, n]
    elif nm in ('buf_next', 'buf_drop'):
        b = st.env['buf%d' % op.slot]
        if nm == 'buf_next':
            t = arg(E, st, op.take, 't%d' % i)
            args = (op.slot, t)
            call = [c, b, t]
        else:
            args = (op.slot,)
            call = [c, b]
            st.env['buf%d' % op.slot] = None
    elif nm == 'chunk':
        n = arg(E, st, op.n, 'n%d' % i)
        t = arg(E, st, op.take, 't%d' % i)
        args = (n, t)
        call = [c, n, t]
    elif nm in ('vals_new', 'idv_new'):
        args = (op.slot,)
        call = [c]
    elif nm in ('vals_next', 'vals_drop', 'idv_next', 'idv_drop'):
        args = (op.slot,)
        call = [c, st.env['buf%d' % op.slot]]
        if nm.endswith('_drop'):
            st.env['buf%d' % op.slot] = None
    elif nm.startswith('ll'):
        # a generated operation: up to two words and the number of elements to take
        a = arg(E, st, op.n, 'n%d' % i) if op.k > 0 else 0
        b = arg(E, st, op.n, 'm%d' % i) if op.k > 1 else 0
        t = arg(E, st, op.take, 't%d' % i)
        args = (a, b, t)
        call = [c, a, b, t]
    elif nm in ('values', 'ids'):
        args = (op.k,)
        call = [c, op.k]
    elif nm in ('for_each', 'for_each_id'):
        n = arg(E, st, op.n, 'n%d' % i)
        args = (n,)
        call = [c, n]
    elif nm == 'fold':
        n = arg(E, st, op.n, 'n%d' % i)
        args = (n, 7)
        call = [c, n, 7]
    elif nm == 'into_seq':
        t = arg(E, st, op.take, 't%d' % i)
        args = (t,)
        call = [c, t]
    elif nm == 'clone':
        o = st.alloc(iter_size(E, kind), 'iter', 16)
        st.env['it%d' % op.dst] = o.id
        st.env['kind%d' % op.dst] = kind
        args = (op.dst,)
        call = [c, Ptr(o.id, 0)]
    elif nm in ('check', 'fin'):
        args = ()
        call = [Ptr(st.env['aux'], 0)]
    else:
        args = ()
        call = [c]
    st.trace.append(('op', i, nm, it, args))
    E.start_call(st, kind + '_' + nm, call)
    if nm in ('into_seq', 'drop'):
        st.env['moved%d' % it] = True


def finish_op(E, st):
    """after a call ended: record the outcome; returns the op event"""
    for e in reversed(st.trace):
        if e[0] == 'op':
            op = e
            break
    r = st.ret
    st.ret = None
    if r[0] == 'panic':
        own = True
        for e in reversed(st.trace):
            if e is op:
                break
            if e[0] == 'panic':
                own = False
        st.trace.append(('panicked', op[1], own))
        return op
    if op[2] in ('buf_new', 'vals_new', 'idv_new'):
        st.env['buf%d' % op[4][0]] = r[1]
        st.env['bk%d' % op[4][0]] = op[2][:-4]
    st.trace.append(('ret', op[1]))
    return op


# ---------------------------------------------------------------- native scripts
def mval(m, v):
    if is_sym(v):
        return m.val(v)
    return v


def script(su, m, env, ops, threads=None):
    """replay script: ops is a list of (name, it, args); threads: op index -> thread number"""
    L = mval(m, env['L'])
    k = su.kind
    lines = []
    if k in M.RANGE:
        lines.append('new 0 %s %d %d 0' % (k, mval(m, env['start']), mval(m, env['end'])))
    else:
        words = {'VW': 3, 'AW2': 3}.get(k, 1)
        cap = mval(m, env.get('cap', L))
        if k == 'I' or k in M.ZST:
            lines.append('src 0 1 0 0')
        else:
            heap = 1 if k in M.VECS or k == 'VS' else 0
            lines.append('src %d %d %d %d' % (L, words, heap, cap if heap else max(L, 1)))
        if k in M.ITER:
            pp = env.get('probe_panic')
            lines.append('probe 1 %d %d %d %d %d' % (L, 1 if su.fused else 0, su.hint, -1 if pp is None else mval(m, pp), 0 if k == 'I' else 1)
                         + (' %d %d' % (mval(m, env['slack_lo']), mval(m, env['slack_hi'])) if su.hint == 4 else ''))
            lines.append('new 0 %s 1 0 0' % k)
        else:
            aux = 'aux' if k == 'VS' else str(cap if k in M.VECS else 0)
            lines.append('new 0 %s %s %d %s' % (k, 'src', L, aux))
    for p in ('clone_panic', 'user_panic'):
        if env.get(p) is not None:
            lines.append('%s %d' % (p, mval(m, env[p])))
    for i, (nm, it, args) in enumerate(ops):
        if nm == 'clone':
            lines.append('kindof %d %s' % (args[0], k))
        a = ' '.join(str(mval(m, x)) for x in args)
        if nm in ('check', 'fin'):
            a = 'aux'
        lines.append('op %s %d %s %s' % ('pre' if threads is None else threads[i], it, nm, a))
    return lines
