"""Concurrent mode: each thread's program is executed symbolically on its own, every read of
shared state returning a fresh variable; the interleaving, the values read and the
happens-before relation are then decided by the solver for each combination of thread paths."""
import copy
import re
import time
import z3
import llparse
import monitor as M
import seq
from intenc import NotLinear
from llparse import Unsupported, UNDEF
from symex import Ptr, UNWIND, is_sym, Infeasible, ForkEx, same_val, same_regs
from seq import val64

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}
SPIN_LIMIT = 6        # unproductive iterations of a loop that cannot be reduced
VISIT_LIMIT = 14      # iterations of any loop


class Restart(Exception):
    pass


class Ev:
    __slots__ = ('kind', 'loc', 'order', 'rv', 'wv', 'na', 'npc', 'op', 'pts', 't', 'idx', 'head', 'acq', 'rel', 'clk')

    def __init__(self, kind, loc, order, rv, wv, na, npc, op, pts):
        self.kind = kind       # S start of an operation, R, W, U, P (wrapped iterator), F fence
        self.loc = loc
        self.order = order
        self.rv = rv
        self.wv = wv
        self.na = na
        self.npc = npc
        self.op = op
        self.pts = pts
        self.acq = order in ACQ
        self.rel = order in REL

    def __repr__(self):
        return '%s%s%s' % (self.kind, '' if self.loc is None else self.loc, '' if not self.order else '.' + self.order)


# ---------------------------------------------------------------- liveness
def collect(x, out):
    if type(x) is tuple or type(x) is list:
        if len(x) >= 2 and x[0] == 'r' and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            collect(y, out)
    elif type(x) is dict:
        for y in x.values():
            collect(y, out)


def liveness(fn):
    """registers live at the start of each block, before its phis are assigned from the back edge"""
    use, defs, succ = {}, {}, {}
    phid = {}
    labs = list(fn.blocks.keys())
    for lab in labs:
        phis, ins = fn.blocks[lab]
        u, d = set(), set()
        phid[lab] = set(p[1] for p in phis)
        for i in ins:
            r = set()
            collect(i[2:], r)
            if i[0] == 'call' and isinstance(i[3], str) and i[3][0] == '%':
                r.add(i[3])
            u |= r - d
            if i[1] is not None and isinstance(i[1], str):
                d.add(i[1])
        use[lab], defs[lab] = u, d
        t = ins[-1]
        if t[0] == 'jmp':
            s = [t[2]]
        elif t[0] == 'br':
            s = [t[3], t[4]]
        elif t[0] == 'switch':
            s = [t[4]] + [x[1] for x in t[5]]
        elif t[0] == 'call':
            s = [x for x in (t[5], t[6]) if x is not None]
        else:
            s = []
        succ[lab] = s
    live = {lab: set() for lab in labs}
    ch = True
    while ch:
        ch = False
        for lab in labs:
            out = set()
            for s in succ[lab]:
                out |= live[s] - phid[s]
                for p in fn.blocks[s][0]:
                    o = p[3].get(lab)
                    if o is not None:
                        r = set()
                        collect(o, r)
                        out |= r
            n = use[lab] | (out - defs[lab])
            if n != live[lab]:
                live[lab] = n
                ch = True
    return {lab: live[lab] - phid[lab] for lab in labs}


_vars = {}


def vars_of(e):
    """names of the variables of a term"""
    k = e.get_id()
    r = _vars.get(k)
    if r is None:
        out = set()
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                todo += x.children()
        r = _vars[k] = (frozenset(out), e)
    return r[0]


def mentions(v, name):
    if is_sym(v):
        return name in vars_of(v)
    if isinstance(v, Ptr):
        return is_sym(v.f) and name in vars_of(v.f)
    if isinstance(v, tuple):
        return any(mentions(x, name) for x in v)
    return False


# ---------------------------------------------------------------- hooks into the engine
class Hook:
    def __init__(self, shared, locs, t, epi, facts):
        self.facts = facts
        self.shared = shared
        self.locs = locs          # (object, offset) -> size; shared between the threads
        self.t = t
        self.epi = epi
        self.live = {}
        self.dropped = 0

    # -- helpers
    def name(self, st):
        return 'T%d.%d' % (self.t, st.env['evn'])

    def add(self, E, st, kind, loc, order, rv, wv, na, pts):
        e = Ev(kind, loc, order, rv, wv, na, len(st.pc), st.env['opi'], pts)
        st.events.append(e)
        st.env['evn'] += 1
        return e

    def fresh(self, E, st, size, suffix=''):
        v = z3.BitVec(self.name(st) + suffix, 8 * size)
        E.keep.append(v)
        return v

    def know(self, E, st, loc, v):
        """what is known about a value read from a shared location"""
        f = self.facts
        last = st.env['last']
        if self.epi and loc in last:
            return
        c = f.about(loc, v)
        if c is not None:
            E.assume(st, f.note(E, c))
        if loc in f.mono and not self.epi:
            x = last.get(loc)
            if x is not None:
                E.assume(st, f.note(E, z3.ULE(E.bv(x, v.size()), v)))
            st.env['last'] = dict(last)
            st.env['last'][loc] = v

    def wrote(self, st, loc, v):
        st.env['last'] = dict(st.env['last'])
        st.env['last'][loc] = v

    def overlap(self, oid, off, size):
        """locations that overlap a byte range"""
        return [(k, n) for k, n in self.locs.items() if k[0] == oid and k[1] < off + size and off < k[1] + n]

    def has_locs(self, oid):
        return any(k[0] == oid for k in self.locs)

    def need(self, oid, off, size):
        k = (oid, off)
        if self.locs.get(k) == size:
            return k
        if self.overlap(oid, off, size):
            raise Unsupported('shared location accessed with different sizes')
        self.locs[k] = size
        raise Restart()

    def piece(self, so, sf, do, df, n):
        """size of the next piece of a copy"""
        for o, f in ((so, sf), (do, df)):
            if o in self.shared:
                s = self.locs.get((o, f))
                if s is not None and s <= n:
                    return s
        w = 8 if n >= 8 and sf % 8 == 0 else 1
        for o, f in ((so, sf), (do, df)):
            if o in self.shared and self.overlap(o, f, w):
                return 1
        return w

    # -- accesses
    def load(self, E, st, o, p, size, order):
        if order is None and not self.has_locs(o.id):
            return None
        off = E.concretize(st, p.f)
        if order is None:
            ov = self.overlap(o.id, off, size)
            if not ov:
                return None
            if ov != [((o.id, off), size)]:
                raise Unsupported('partial read of a shared location')
        k = self.need(o.id, off, size)
        v = self.fresh(E, st, size)
        self.know(E, st, k, v)
        self.add(E, st, 'R', k, order, v, None, order is None, 0 if order is None else 1)
        return v

    def store(self, E, st, o, off, size, v, order):
        if v is UNDEF:
            raise Unsupported('undefined value stored to shared memory')
        if order is None:
            ov = self.overlap(o.id, off, size)
            if not ov:
                if self.epi or o.kind == 'srcheap' and self.epi:
                    return False
                self.need(o.id, off, size)
            if ov != [((o.id, off), size)]:
                raise Unsupported('partial write of a shared location')
        k = self.need(o.id, off, size)
        v = val64(E, v)
        if is_sym(v):
            v = E.bv(v, 8 * size)
        self.wrote(st, k, v)
        self.add(E, st, 'W', k, order, None, v, order is None, 0 if order is None else 1)
        return True

    def rmw(self, E, st, o, off, size, fn, order):
        k = self.need(o.id, off, size)
        old = self.fresh(E, st, size)
        self.know(E, st, k, old)
        new = fn(old)
        self.wrote(st, k, new)
        self.add(E, st, 'U', k, order, old, new, False, 1)
        return old

    def cas(self, E, st, o, off, size, e, n, o1, o2):
        k = self.need(o.id, off, size)
        e = val64(E, e)
        n = val64(E, n)
        if e is UNDEF or n is UNDEF:
            raise Unsupported('undefined value in compare exchange')
        x = self.fresh(E, st, size, 'c')
        self.know(E, st, k, x)
        if not E.truth(st, x == (E.bv(e, 8 * size) if is_sym(e) else z3.BitVecVal(e, 8 * size))):
            self.add(E, st, 'R', k, o2, x, None, False, 1)
            return x, False
        if st.events:
            l = st.events[-1]
            if l.kind == 'R' and l.loc == k and not l.na and is_sym(e) and l.rv.eq(e):
                # nothing visible between the read and the exchange: one step
                st.events.pop()
                self.wrote(st, k, n)
                u = self.add(E, st, 'U', k, o1, l.rv, n, False, l.pts + 1)
                u.acq = u.acq or l.acq
                return l.rv, True
        self.wrote(st, k, n)
        self.add(E, st, 'U', k, o1, x, n, False, 1)
        return x, True

    def fence(self, E, st, order):
        self.add(E, st, 'F', None, order, None, None, False, 0)

    # -- loops
    def loop_check(self, E, st, fr, label, v, vals):
        n, oregs, w, ev, tr, pcl, unp, ovals = v
        since = st.events[ev:]
        E.unprod = 0
        if n > VISIT_LIMIT:
            st.outcome = ('bound', 'loop in %s' % fr.fn.name[:60])
            return True
        if tr != len(st.trace) or any(e.kind in 'WUPS' for e in since):
            return False
        if not since:
            if w == st.writes and same(vals, ovals) and same_regs(oregs, fr.regs):
                st.outcome = ('stuck', len(st.events), (), False)
                return True
            return False
        E.unprod = unp + 1
        if w == st.writes:
            lv = self.live.get(fr.fn.name)
            if lv is None:
                lv = self.live[fr.fn.name] = liveness(fr.fn)
            ok = True
            for r in lv[label]:
                if r not in oregs or r not in fr.regs or not same_val(oregs[r], fr.regs[r]):
                    ok = False
                    break
            eqs = []
            if ok and vals is not None:
                rds = {}
                for e in st.events:
                    if e.kind in 'RU':
                        rds[e.rv.decl().name()] = e
                for x, y in zip(ovals, vals):
                    if same_val(x, y):
                        continue
                    a = rds.get(x.decl().name()) if is_sym(x) and z3.is_const(x) else None
                    b = rds.get(y.decl().name()) if is_sym(y) and z3.is_const(y) else None
                    if a is None or b is None or a.loc != b.loc or a.acq != b.acq:
                        ok = False
                        break
                    nm = x.decl().name()
                    # the old value must not matter any more
                    if any(mentions(fr.regs[r], nm) for r in lv[label]) or \
                            any(mentions(c, nm) for c in st.pc[:pcl] if c.get_id() not in self.facts.ids) or any(e.wv is not None and mentions(e.wv, nm) for e in st.events) or \
                            any(mentions(f.regs[r], nm) for f in st.frames[:-1] for r in f.regs) or \
                            any(mentions(c[1], nm) for o in st.mem.values() if o.id not in self.shared for c in o.cells.values()):
                        ok = False
                        break
                    eqs.append(M.EQ(x, y))
            if ok:
                st.outcome = ('stuck', ev, tuple(eqs), False)
                return True
        if E.unprod >= SPIN_LIMIT:
            st.outcome = ('stuck', ev, (), True)
            return True
        return False


def same(a, b):
    if a is None or b is None:
        return a is b
    return all(same_val(x, y) for x, y in zip(a, b))


# ---------------------------------------------------------------- environment
def c_probe_next(E, st, a, ins):
    h = E.conc
    pid = E.concretize(st, a[0])
    p = st.env['probe%d' % pid]
    loc = ('probe', pid)
    c = h.fresh(E, st, 8)
    h.know(E, st, loc, c)
    h.wrote(st, loc, c + 1)
    L = p['L']
    pan = st.env.get('probe_panic')
    m = st.env['maxcalls']
    k = c
    if pan is not None:
        if E.truth(st, c == pan):
            h.add(E, st, 'P', loc, None, c, c + 1, True, 1)
            st.trace.append(('probe_panic', pid))
            return UNWIND
        if E.truth(st, z3.UGT(c, pan)):
            k = c - 1
    if E.truth(st, z3.ULT(k, L)):
        more = True
    elif p['fused']:
        more = False
    elif E.truth(st, k == L):
        more = False
    else:
        k = k - 1
        more = True
    h.add(E, st, 'P', loc, None, c, c + 1, True, 1)
    if not more:
        st.trace.append(('probe', pid, -1))
        return 0
    st.trace.append(('probe', pid, k))
    if p['refs'] is not None:
        E.store(st, a[1], 64, Ptr(p['refs'], k * 8))
    else:
        E.store(st, a[1], 64, k + M.BASE)
    return 1


def c_probe_hint(E, st, a, ins):
    h = E.conc
    pid = E.concretize(st, a[0])
    p = st.env['probe%d' % pid]
    c = h.fresh(E, st, 8)
    h.know(E, st, ('probe', pid), c)
    pan = st.env.get('probe_panic')
    k = c
    if pan is not None and E.truth(st, z3.UGT(c, pan)):
        k = c - 1
    rest = p['L'] - k if E.truth(st, z3.ULT(k, p['L'])) else 0
    hk = p['hint']
    if hk not in (0, 1):
        raise Unsupported('size_hint in concurrent mode')
    h.add(E, st, 'R', ('probe', pid), None, c, None, True, 0)
    if hk == 0:
        E.store(st, a[1], 64, rest)
        E.store(st, a[2], 64, rest)
        return 1
    E.store(st, a[1], 64, 0)
    return 0


class Facts:
    """assumptions about the values of shared locations, verified after the exploration"""
    D = 1 << 20
    TOP = 1 << 40

    def __init__(self):
        self.consts = {}      # loc -> constants (None: any value)
        self.size = {}
        self.mono = set()
        self.ids = set()      # conditions that state facts

    def note(self, E, c):
        c = z3.And(c, c)      # (terms are shared: not the same as a branch condition)
        E.keep.append(c)
        self.ids.add(c.get_id())
        return c

    def start(self, loc, size, init):
        if loc in self.size:
            return
        self.size[loc] = size
        if size > 8 or is_sym(init) or not isinstance(init, int):
            self.consts[loc] = None
            return
        self.mono.add(loc)
        self.consts[loc] = {init} if init >= self.D or size != 8 else set()

    def known(self, loc):
        return self.consts.get(loc) is not None

    def range(self, loc):
        return self.size[loc] == 8

    def about(self, loc, v):
        if not self.known(loc):
            return None
        cs = [v == z3.BitVecVal(k, v.size()) for k in sorted(self.consts[loc])]
        if self.range(loc):
            cs.append(z3.ULE(v, self.TOP))
        return z3.Or(*cs) if len(cs) > 1 else cs[0]


class Mode:
    """switches an engine to concurrent mode and back"""

    def __init__(self, E, hook):
        self.E = E
        self.hook = hook

    def __enter__(self):
        E = self.E
        self.old = (E.env['probe_next'], E.env['probe_hint'], E.MAX_VISITS)
        E.env['probe_next'] = c_probe_next
        E.env['probe_hint'] = c_probe_hint
        E.conc = self.hook

    def __exit__(self, *a):
        E = self.E
        E.env['probe_next'], E.env['probe_hint'], E.MAX_VISITS = self.old
        E.conc = None


class Path:
    __slots__ = ('t', 'events', 'pc', 'trace', 'outcome', 'ops', 'pub', 'own')


# ---------------------------------------------------------------- exploration of one thread
def thread_paths(E, S0, t, opbase, program, hook, stats, deadline, panic_thread):
    """all paths of a thread's program"""
    st = S0.clone()
    st.next_obj += 1000 * (t + 1)
    st.events = []
    st.trace = []
    st.env['evn'] = 0
    st.env['opi'] = 0
    st.env['queue'] = tuple(program)
    st.env['i'] = opbase
    st.env['last'] = {}
    if t != panic_thread:
        for p in ('clone_panic', 'user_panic'):
            if st.env.get(p) is not None:
                st.env[p] = None
    n0 = len(S0.pc)
    out = []
    dead = []

    def start(s):
        env = s.env
        q = env['queue']
        while q:
            op = q[0]
            if op.name.endswith(('_next', '_drop')) and op.slot is not None and env.get('buf%d' % op.slot) is None:
                q = q[1:]
                continue
            if op.name == 'drop_bufs':
                more = [seq.OpSpec(env['bk%d' % k] + '_drop', slot=k) for k in range(16) if env.get('buf%d' % k) is not None and k in op.slot]
                q = tuple(more) + q[1:]
                continue
            break
        if not q:
            env['queue'] = ()
            return None
        env['queue'] = q[1:]
        env['opi'] = env['i']
        hook.add(E, s, 'S', None, None, None, None, False, 1)
        seq.start_op(E, s, q[0], env['i'])
        env['i'] += 1
        return s

    def leaf(s, out=out):
        p = Path()
        p.t = t
        p.events = s.events
        h = 0
        num = [0]
        for c in s.pc[n0:]:
            num.append(num[-1] + (c.get_id() not in hook.facts.ids))
        for i, e in enumerate(p.events):
            e2 = Ev.__new__(Ev)
            for f in ('kind', 'loc', 'order', 'rv', 'wv', 'na', 'op', 'pts', 'acq', 'rel'):
                setattr(e2, f, getattr(e, f))
            e2.npc = num[e.npc - n0]
            e2.t = t
            e2.idx = i
            if e.pts or i == 0:
                h = i
            e2.head = h
            e2.clk = None
            p.events[i] = e2
        p.pc = [c for c in s.pc[n0:] if c.get_id() not in hook.facts.ids]
        p.trace = s.trace
        p.outcome = s.outcome
        p.ops = group(s.trace, t)
        p.pub = None
        p.own = (s.env.get('probe1'),)
        out.append(p)
    work = []
    try:
        s = start(st)
        if s is None:
            leaf(st)
        else:
            work.append(s)
    except Infeasible:
        pass
    while work:
        st = work.pop()
        if time.time() > deadline:
            stats['cut']['time'] = stats['cut'].get('time', 0) + 1
            break
        try:
            if st.outcome is not None:
                if st.outcome[0] == 'bound':
                    stats['cut'][st.outcome[1]] = stats['cut'].get(st.outcome[1], 0) + 1
                    leaf(st, dead)
                    continue
                leaf(st)
                continue
            if not st.frames:
                seq.finish_op(E, st)
                try:
                    s = start(st)
                except Infeasible:
                    leaf(st, dead)
                    continue
                if s is None:
                    leaf(st)
                else:
                    work.append(s)
                continue
            r = E.run(st)
            if not r:
                leaf(st, dead)
            work.extend(reversed(r))
        except Unsupported as e:
            k = str(e)[:120]
            stats['unsupported'][k] = stats['unsupported'].get(k, 0) + 1
            leaf(st, dead)
    return out, dead


class COp:
    """one operation of a history"""
    __slots__ = ('t', 'i', 'name', 'it', 'args', 'obs', 'out', 'own', 'first', 'last', 'epi')

    def __init__(self, t, i, name, it, args):
        self.t = t
        self.i = i
        self.name = name
        self.it = it
        self.args = args
        self.obs = []
        self.out = None
        self.own = None
        self.first = self.last = None
        self.epi = False


def group(trace, t):
    ops = []
    for e in trace:
        if e[0] == 'op':
            ops.append(COp(t, e[1], e[2], e[3], e[4]))
        elif e[0] == 'ret':
            ops[-1].out = 'ret'
        elif e[0] == 'panicked':
            ops[-1].out = 'panicked'
            ops[-1].own = e[2]
        elif ops:
            ops[-1].obs.append(e)
    return ops


# ---------------------------------------------------------------- composition
class Comp:
    """solver over one combination of thread paths"""

    def __init__(self, E, nthreads, init, pc0):
        self.E = E
        self.s = z3.Solver()
        self.s.set('timeout', 30000)
        self.done = [set()]
        self.init = init
        self.queries = 0
        self.time = 0.0
        self.n = nthreads
        for c in pc0:
            self.add(c)

    def push(self):
        self.s.push()
        self.done.append(set())

    def pop(self):
        self.s.pop()
        self.done.pop()

    def tr(self, c):
        """integer term of a bit-vector term / condition; adds its definitions"""
        if not is_sym(c):
            return c
        i, _, ds = self.E.enc.t(c)
        for d in ds:
            if not any(d in x for x in self.done):
                self.done[-1].add(d)
                self.s.add(self.E.enc.defs[d])
        return i

    def add(self, c):
        if c is True:
            return
        if c is False:
            self.s.add(False)
            return
        self.s.add(self.tr(c))

    def check(self, *extra):
        from symex import IModel
        self.queries += 1
        t = time.time()
        ex = [e for e in extra]
        r = self.s.check(*ex)
        self.time += time.time() - t
        if r == z3.sat:
            return IModel(self.s.model(), self.E.enc)
        if r == z3.unsat:
            return None
        raise Unsupported('solver unknown: ' + self.s.reason_unknown())


def lt(a, b):
    """event a before event b: bool or condition"""
    if a.t == b.t:
        return a.idx < b.idx
    if a.t == EPI or b.t == EPI:
        return b.t == EPI
    return a.clk < b.clk


EPI = 99
_clk = {}


def clk(t, i):
    k = (t, i)
    if k not in _clk:
        _clk[k] = z3.Int('c!%d!%d' % k)
    return _clk[k]


def set_clocks(p):
    for e in p.events:
        e.clk = clk(p.t, e.head)


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def ZAND(xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def ZOR(xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            ys.append(x)
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)


def ZNOT(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


class ConcJob:
    """all interleavings of small thread programs over one source, then each epilogue"""

    def __init__(self, setup, threads, epilogues=(('drop',),), prologue=(), dbg=False, panic_thread=None, races=False,
                 freeze=False, monitor=True, only_races=False):
        self.setup = setup
        # identical programs: unordered combinations of paths
        self.same = [t > 0 and threads[t] is threads[t - 1] for t in range(len(threads))]
        # buffers: two per thread
        self.threads = [[o if o.slot is None or not t else
                         seq.OpSpec(o.name, o.it, o.n, o.take, o.slot + 4 * t, o.k, o.dst) for o in p] for t, p in enumerate(threads)]
        self.epilogues = epilogues
        self.prologue = prologue
        self.dbg = dbg
        self.dbgs = (dbg,)
        self.panic_thread = panic_thread
        self.races = races
        self.freeze = freeze
        self.monitor = monitor

    def name(self):
        return '%s %s threads {%s} prologue {%s} epilogues {%s}%s%s' % (
            self.setup, 'debug' if self.dbg else 'release', ' || '.join(' '.join(map(repr, p)) for p in self.threads),
            ' '.join(map(repr, self.prologue)), ' '.join('+'.join(map(str, f)) for f in self.epilogues),
            ', data races' if self.races else '', ', one thread suspended' if self.freeze else '')

    def split(self):
        out = []
        su = self.setup
        if su.kind in M.ARRAYS or su.kind == 'AS3':
            return [self]
        for l in range(su.lmin, su.lmax + 1):
            s = seq.Setup(su.kind, l, su.hint, su.fused, su.panics, 1, 'exact', su.pcount, l, su.kinds)
            j = copy.copy(self)
            j.setup = s
            j.name = self.name
            out.append(j)
        return out

    def make(self, engines, want, cand, deadline, wit):
        return ConcRun(self, engines, want, cand, deadline, wit)


def make_init(E, S0):
    def init(loc, size):
        if loc[0] == 'probe':
            return S0.env['probe%d' % loc[1]]['pos']
        o = S0.mem[loc[0]]
        v = E.load_raw(S0, o, loc[1], size)
        if v is UNDEF:
            raise Unsupported('shared location without initial value')
        return val64(E, v)
    return init


class ConcRun:
    WITNESSES = 4

    def __init__(self, job, engines, want, cand, deadline, wit):
        self.job = job
        self.E = engines(job.dbg)
        self.want = None if want == 'ALL' else {want}
        self.cand = cand
        self.wit = wit
        self.deadline = deadline
        self.stats = dict(paths=0, histories=0, reqs=0, cut={}, unsupported={}, events={}, tuples=0, feasible=0)
        self.nwit = 0
        self.hangs = self.want is None or bool(self.want & {'C09', 'C18', 'C12'})

    # ---------------------------------------------------------- driver
    def run(self):
        E = self.E
        su = self.job.setup
        self.nq = 0
        self.nt = 0.0
        n0 = (E.queries, E.solver_s)
        for r in seq.root(E, su):
            if r.outcome is not None:
                continue
            for s0 in self.prologue(r):
                self.one_root(s0)
        self.stats['queries'] = E.queries - n0[0] + self.nq
        self.stats['solver_s'] = E.solver_s - n0[1] + self.nt
        self.stats['paths'] = self.stats['tuples']
        return self.stats

    def prologue(self, r):
        E = self.E
        r.env.pop('ready', None)
        r.env['i'] = 0
        r.env['opi'] = 0
        states = [r]
        for op in self.job.prologue:
            out = []
            for s in states:
                work = []
                try:
                    seq.start_op(E, s, op, s.env['i'])
                    s.env['i'] += 1
                    work.append(s)
                except Infeasible:
                    continue
                while work:
                    x = work.pop()
                    if x.outcome is not None:
                        continue
                    if not x.frames:
                        seq.finish_op(E, x)
                        out.append(x)
                        continue
                    work.extend(E.run(x))
            states = out
        return states

    def one_root(self, S0):
        E = self.E
        job = self.job
        S0.ret = None
        shared = set(i for i in S0.mem if i < 1000000)
        locs = {}
        self.S0 = S0
        self.locs = locs
        self.init = make_init(E, S0)
        self.facts = facts = Facts()
        for k in S0.env:
            if k.startswith('probe') and isinstance(S0.env[k], dict) and k[5:].isdigit():
                facts.start(('probe', int(k[5:])), 8, S0.env[k]['pos'])
        S0.env['maxcalls'] = 0
        S0.env['evn'] = 0
        base = S0.env['i']
        T = len(job.threads)
        while True:
            try:
                st = dict(cut={}, unsupported={})
                b = base
                self.paths = []
                self.dead = []
                for t, prog in enumerate(job.threads):
                    h = Hook(shared, locs, t, False, facts)
                    slots = sorted(set(o.slot for o in prog if o.slot is not None))
                    full = list(prog) + ([seq.OpSpec('drop_bufs', slot=slots)] if slots else [])
                    with Mode(E, h):
                        ps, dead = thread_paths(E, S0, t, b, full, h, st, self.deadline, job.panic_thread)
                    self.paths.append(ps)
                    self.dead.append(dead)
                    b += opcount(full)
                self.epis = []
                for ep in job.epilogues:
                    h = Hook(shared, locs, EPI, True, facts)
                    with Mode(E, h):
                        q = []
                        for x in ep:
                            lm = S0.env['L'] if not is_sym(S0.env['L']) else 4
                            q.append(x if isinstance(x, seq.OpSpec) else
                                     seq.OpSpec('into_seq', take=lm + 2) if x == 'into_seq' else
                                     seq.OpSpec('into_seq', take=('sym', 0, lm + 1)) if x == 'into_seq_part' else seq.OpSpec(x))
                        self.epis.append(thread_paths(E, S0, EPI, b, q, h, st, self.deadline, None)[0])
                self.stats['rounds'] = self.stats.get('rounds', 0) + 1
                if self.verify(facts):
                    break
            except Restart:
                for k, n in locs.items():
                    facts.start(k, n, self.init(k, n))
        for k in ('cut', 'unsupported'):
            for x, n in st[k].items():
                self.stats[k][x] = self.stats[k].get(x, 0) + n
        self.preops = group(S0.trace, -1)
        self.pre_allocs = []
        seen_op = False
        for e in S0.trace:
            if e[0] == 'op':
                seen_op = True
            if not seen_op and e[0] == 'alloc':
                self.pre_allocs.append(e[1])
        self.src = seq.source(S0)
        if is_sym(self.src.L):
            raise Unsupported('symbolic length in concurrent mode')
        self.stats['thread_paths'] = [len(x) for x in self.paths]
        self.prune()
        for ps in self.paths:
            for p in ps:
                set_clocks(p)
        # identical programs: unordered combinations
        same = [job.same[t] and job.panic_thread is None and not job.freeze for t in range(T)]
        try:
            for tup in self.tuples(same):
                if time.time() > self.deadline:
                    self.stats['cut']['time'] = self.stats['cut'].get('time', 0) + 1
                    break
                self.stats['tuples'] += 1
                self.compose(tup)
        except NotLinear as e:
            raise Unsupported('not linear: %s' % e)

    # ---------------------------------------------------------- facts about shared locations
    def verify(self, facts):
        """The exploration assumed, of every value read from a location: it is the initial one, one of
        the constants C, or (8 byte locations) at most TOP; and not less than what the thread itself
        read or wrote there before (monotone locations).  By induction over the steps of an execution
        this holds if every write keeps it, which the solver decides here for each write of each path:
        a written value is one of C or exceeds the values read before by at most D (an execution has at
        most K writes and K * D is less than TOP); and a monotone location only grows.
        Returns False, after weakening the facts, if a write does not."""
        E = self.E
        # (also what was written on paths that are not continued)
        self.all = [ps + ds for ps, ds in zip(self.paths, self.dead)]
        K = 1 + sum(max([sum(1 for e in p.events if e.kind in 'WUP') for p in ps] or [0]) for ps in self.all)
        if K * facts.D > facts.TOP:
            raise Unsupported('too many writes')
        M0 = z3.Int('M!')
        E.keep.append(M0)
        good = True
        seen = set()
        for ps in self.all:
            for p in ps:
                for n, e in enumerate(p.events):
                    if e.kind not in 'WUP' or not facts.known(e.loc) and e.loc not in facts.mono:
                        continue
                    reads = [x for x in p.events[:n + 1] if x.rv is not None]
                    sig = (e.wv.get_id() if is_sym(e.wv) else e.wv, e.loc, e.kind, tuple(x.get_id() for x in p.pc[:e.npc]), tuple((x.rv.get_id(), x.loc) for x in reads))
                    if sig in seen:
                        continue
                    seen.add(sig)
                    C = facts.consts.get(e.loc)
                    if e.kind == 'W' and e.loc in facts.mono:
                        top = (1 << 8 * self.size_of(e.loc)) - 1
                        if C is not None and not facts.range(e.loc):
                            top = max(C)
                        if is_sym(e.wv) or e.wv < top:
                            facts.mono.discard(e.loc)
                            good = False
                    if not is_sym(e.wv) and (C is None or e.wv in C or facts.range(e.loc) and e.wv < facts.D):
                        continue
                    c = Comp(E, 1, self.init, self.S0.pc)
                    c.s.add(M0 >= facts.D, M0 <= facts.TOP)
                    for x in p.pc[:e.npc]:
                        c.add(x)
                    for x in reads:
                        if facts.known(x.loc):
                            i = c.tr(x.rv)
                            alts = [i == k for k in sorted(facts.consts[x.loc])]
                            c.s.add(ZOR(([i <= M0] if facts.range(x.loc) else []) + alts))
                    w = c.tr(e.wv)
                    if C is not None:
                        bad = [w != k for k in sorted(C)] + ([w > M0 + facts.D] if facts.range(e.loc) else [])
                        m = c.check(ZAND(bad)) if is_sym(e.wv) else c.check()
                        if m is not None:
                            good = False
                            if is_sym(e.wv) or len(C) > 8:
                                facts.consts[e.loc] = None
                            else:
                                C.add(e.wv)
                    if e.kind != 'W' and e.loc in facts.mono and is_sym(e.wv):
                        m = c.check(w < c.tr(e.rv))
                        if m is not None:
                            facts.mono.discard(e.loc)
                            good = False
                    self.nq += c.queries
                    self.nt += c.time
        return good

    def prune(self):
        def keep(p):
            if p.outcome is None or p.outcome[0] != 'stuck' or not p.outcome[2]:
                return True
            c = Comp(self.E, 1, self.init, self.S0.pc)
            for x in p.pc:
                c.add(x)
            for x in p.outcome[2]:
                c.add(x)
            r = c.check() is not None
            self.nq += c.queries
            self.nt += c.time
            return r
        if not self.hangs:
            self.paths = [[p for p in ps if p.outcome is None or p.outcome[0] != 'stuck'] for ps in self.paths]
        self.paths = [[p for p in ps if keep(p)] for ps in self.paths]
        self.epis = [[p for p in ps if keep(p)] for ps in self.epis]

    # ---------------------------------------------------------- combinations of paths
    def tree(self, paths):
        """the paths of a thread as a tree, one level per operation"""
        root = Node(None, None)
        for p in paths:
            cuts = [i for i, e in enumerate(p.events) if e.kind == 'S'][1:] + [len(p.events)]
            n = root
            for d, k in enumerate(cuts):
                last = d == len(cuts) - 1
                if last:
                    n.kids.append(Node(p, p))
                    break
                npc = p.events[k].npc
                key = (k, tuple(x.get_id() for x in p.pc[:npc]), tuple((e.kind, e.loc, e.order, e.wv.get_id() if is_sym(e.wv) else e.wv) for e in p.events[:k]))
                c = n.index.get(key)
                if c is None:
                    q = Path()
                    q.t = p.t
                    q.events = p.events[:k]
                    q.pc = p.pc[:npc]
                    q.trace, q.outcome, q.ops, q.pub, q.own = (), None, (), None, None
                    c = n.index[key] = Node(q, None)
                    n.kids.append(c)
                n = c
        return root

    def shape(self, p):
        """what the path is, up to the names of the thread"""
        b = p.ops[0].i if p.ops else 0

        def sub(x):
            x = re.sub(r'\bT\d+\.', 'T.', x.sexpr())
            return re.sub(r'\b([a-z]+)(\d+)\b', lambda m: 'n%d' % (int(m.group(2)) - b) if m.group(1) == 'n' else m.group(0), x)
        return repr(([(e.kind, e.loc, e.order) for e in p.events], sorted(sub(x) for x in p.pc), p.outcome and p.outcome[0],
                     [(o.name, len(o.obs)) for o in p.ops]))

    def tuples(self, same):
        special = [[p for p in ps if p.outcome is not None and (p.outcome[0] in ('ub', 'abort') or p.outcome[0] == 'stuck' and self.job.freeze)]
                   for ps in self.paths]
        normal = [[p for p in ps if not (p.outcome is not None and p.outcome[0] in ('ub', 'abort'))] for ps in self.paths]
        T = len(self.paths)
        # one thread ends in something special, the others stop anywhere
        for t in range(T):
            if t and same[t]:
                continue
            for p in special[t]:
                rest = [normal[u] if u != t else [p] for u in range(T)]
                for x in product(rest):
                    yield x
        trees = [self.tree(ps) for ps in normal]
        num = {}
        for t in range(1, T):
            if not same[t]:
                continue
            for u in (t - 1, t):
                for p in normal[u]:
                    if id(p) not in num:
                        num[id(p)] = self.shape(p)
            if sorted(num[id(p)] for p in normal[t - 1]) != sorted(num[id(p)] for p in normal[t]) or \
               sorted(map(self.shape, special[t - 1])) != sorted(map(self.shape, special[t])):
                same = same[:t] + [False] + same[t + 1:]
        self.stats['unordered'] = same
        stack = [tuple(trees)]
        while stack:
            nodes = stack.pop()
            if time.time() > self.deadline:
                self.stats['cut']['time'] = self.stats['cut'].get('time', 0) + 1
                return
            todo = [t for t in range(T) if nodes[t].full is None]
            if not todo:
                tup = [n.full for n in nodes]
                if any(same[t] and num[id(tup[t])] < num[id(tup[t - 1])] for t in range(1, T)):
                    continue
                yield tup
                continue
            t = min(todo, key=lambda u: (0 if nodes[u].path is None else nodes[u].depth, u))
            for k in reversed(nodes[t].kids):
                new = nodes[:t] + (k,) + nodes[t + 1:]
                k.depth = nodes[t].depth + 1
                if sum(1 for n in new if n.path is not None) > 1 and any(n.full is None for n in new) and not self.possible(new):
                    continue
                stack.append(new)

    def possible(self, nodes):
        """can the threads get that far, whatever they do afterwards?"""
        self.stats['prefixes'] = self.stats.get('prefixes', 0) + 1
        c = Comp(self.E, len(nodes), self.init, self.S0.pc)
        paths = [n.path for n in nodes if n.path is not None]
        ends = {}
        for t, n in enumerate(nodes):
            if n.full is None:
                ends[t] = z3.Int('end!%d' % t)
                if n.path is not None:
                    c.s.add(n.path.events[-1].clk < ends[t])
        self.structure(c, paths, None, ends)
        m = c.check()
        self.nq += c.queries
        self.nt += c.time
        return m is not None

    # ---------------------------------------------------------- encoding
    def size_of(self, loc):
        return 8 if loc[0] == 'probe' else self.locs[loc]

    def structure(self, c, paths, act=None, ends=None):
        """program order, reads-from and path conditions"""
        for p in paths:
            prev = None
            for e in p.events:
                if e.head == e.idx:
                    if prev is not None:
                        c.s.add(prev.clk < e.clk)
                    prev = e
            if act is None:
                for x in p.pc:
                    c.add(x)
        self.values(c, paths, paths, act, ends)

    def values(self, c, readers, paths, act=None, ends=None):
        by = {}
        for p in paths:
            for e in p.events:
                if e.kind in 'WUP':
                    by.setdefault(e.loc, []).append(e)
        # distinct times for conflicting steps
        for p in readers:
            for e in p.events:
                if e.loc is None or p.t == EPI:
                    continue
                for w in by.get(e.loc, ()):
                    if w.t != e.t and w.t != EPI and (w.t < e.t or e.kind not in 'WUP'):
                        c.s.add(w.clk != e.clk)
        A = (lambda e: True) if act is None else (lambda e: act[e.t][e.idx] if e.t in act else True)
        self.rf = {}
        for p in readers:
            for r in p.events:
                if r.rv is None:
                    continue
                ws = [w for w in by.get(r.loc, ()) if w is not r and not (w.t == r.t and w.idx > r.idx)]
                v = c.tr(r.rv)
                none = []
                # (what a thread does after the considered part of its path is not known)
                E0 = [r.clk < x for t, x in ends.items() if t != r.t] if ends else []
                for w in ws:
                    conds = [A(w), lt(w, r)]
                    for x in ws:
                        if x is not w:
                            conds.append(ZOR([ZNOT(A(x)), lt(x, w), lt(r, x)]))
                    k = ZAND(conds)
                    none.append(ZOR([ZNOT(A(w)), lt(r, w)]))
                    self.rf[(r.t, r.idx, w.t, w.idx)] = k
                    if k is False:
                        continue
                    c.s.add(z3.Implies(ZAND(E0 + [B(A(r)), B(k)]), v == c.tr(w.wv)))
                k = ZAND(none)
                if k is not False:
                    c.s.add(z3.Implies(ZAND(E0 + [B(A(r)), B(k)]), v == c.tr(self.init(r.loc, self.size_of(r.loc)))))

    def compose(self, tup):
        E = self.E
        job = self.job
        stuck = [p for p in tup if p.outcome is not None and p.outcome[0] == 'stuck']
        bad = [p for p in tup if p.outcome is not None and p.outcome[0] in ('ub', 'abort')]
        if len(bad) > 1 or bad and stuck:
            return
        if stuck and not self.hangs:
            return
        if stuck:
            self.stats['reqs'] += 1
        if bad:
            # (the others stop anywhere)
            self.partial(tup, bad[0], bad[0].outcome[1], bad[0].outcome[0])
            return
        if stuck and job.freeze:
            if len(stuck) == 1:
                self.partial(tup, stuck[0], 'a call waits for a suspended thread', 'hang')
            return
        c = Comp(E, len(tup), self.init, self.S0.pc)
        try:
            self.structure(c, tup)
            if stuck:
                for p in stuck:
                    k = p.outcome[1]
                    if k < len(p.events):
                        for q in tup:
                            if q is p:
                                continue
                            m = q.outcome[1] if q.outcome is not None else len(q.events)
                            for e in q.events[:m]:
                                if e.head == e.idx:
                                    c.s.add(e.clk < p.events[k].clk)
                    for x in p.outcome[2]:
                        c.add(x)
                m = c.check()
                if m is not None:
                    self.stats['feasible'] += 1
                    self.report(tup, None, m, 'a call never returns', 'hang' if not any(p.outcome[3] for p in stuck) else 'maybe', None)
                return
            m = c.check()
            if m is None:
                return
            self.stats['feasible'] += 1
            if job.races:
                self.races(c, tup)
                if not job.monitor:
                    return
            for eps in self.epis:
                for ep in eps:
                    c.push()
                    try:
                        for x in ep.pc:
                            c.add(x)
                        rf = self.rf
                        self.values(c, [ep], list(tup) + [ep])
                        self.rf = rf
                        m = c.check()
                        if m is None:
                            continue
                        self.judge(c, tup, ep, m)
                    finally:
                        c.pop()
        finally:
            self.nq += c.queries
            self.nt += c.time

    def history(self, tup, ep):
        ops = list(self.preops)
        for p in tup:
            last = {}
            first = {}
            for e in p.events:
                last[e.op] = e
                if e.kind == 'S':
                    first[e.op] = e
            for o in p.ops:
                o.first = first.get(o.i)
                o.last = last.get(o.i)
                ops.append(o)
        if ep is not None:
            for o in ep.ops:
                o.epi = True
                ops.append(o)
        return ops

    def judge(self, c, tup, ep, m):
        import cmon
        E = self.E
        if ep.outcome is not None:
            if ep.outcome[0] in ('ub', 'abort'):
                self.report(tup, ep, m, '%s: %s' % (ep.outcome[0], ep.outcome[1]), ep.outcome[0], None)
            elif ep.outcome[0] == 'stuck' and self.hangs:
                self.report(tup, ep, m, 'a call never returns', 'hang', None)
            return
        ops = self.history(tup, ep)
        cache = {}

        def before(a, b):
            if a is b:
                return False
            if a.epi or b.epi:
                return (not a.epi) if b.epi and not a.epi else (a.i < b.i if a.epi and b.epi else False)
            if a.t == b.t:
                return a.i < b.i
            if a.t == -1 or b.t == -1:
                return a.t == -1
            k = (a.t, a.i, b.t, b.i)
            r = cache.get(k)
            if r is None:
                v = z3.Bool('b!%d!%d!%d!%d' % k)
                E.keep.append(v)
                c.s.add(v == (a.last.clk < b.first.clk))
                r = cache[k] = v
            return r
        reqs = cmon.concurrent(self.src, ops, self.want, before, self.pre_allocs)
        self.stats['reqs'] += len(reqs) + M.EVALS[0]
        M.EVALS[0] = 0
        self.stats['histories'] += 1
        for p in tup:
            for e in p.events:
                self.stats['events'][e.kind] = self.stats['events'].get(e.kind, 0) + 1
        sy = []
        for r in reqs:
            if r.cond is False:
                self.report(tup, ep, m, r.text, 'req', None)
                return
            sy.append(r)
        if self.nwit < self.WITNESSES and self.stats['histories'] % 7 == 1:
            self.witness(tup, ep, m)
        if not sy:
            return
        neg = ZOR([z3.Not(c.tr(r.cond)) for r in sy])
        m = c.check(neg)
        if m is not None:
            for r in sy:
                if not m.val(r.cond):
                    self.report(tup, ep, m, r.text, 'req', None)
                    return
            self.report(tup, ep, m, sy[0].text, 'req', None)

    def partial(self, tup, main, text, cls):
        """thread `main` goes through its path while the others stop somewhere"""
        E = self.E
        c = Comp(E, len(tup), self.init, self.S0.pc)
        act = {}
        for p in tup:
            if p is main:
                continue
            a = [z3.Bool('a!%d!%d' % (p.t, e.idx)) for e in p.events]
            act[p.t] = a
            for i in range(1, len(a)):
                c.s.add(z3.Implies(a[i], a[i - 1]))
                if p.events[i].head != i:
                    c.s.add(z3.Implies(a[i - 1], a[i]))
            for e in p.events:
                for j in range(e.npc):
                    c.s.add(z3.Implies(a[e.idx], c.tr(p.pc[j])))
        self.structure(c, tup, act)
        for x in main.pc:
            c.add(x)
        if cls == 'hang':
            k = main.outcome[1]
            for p in tup:
                if p is not main and k < len(main.events):
                    for e in p.events:
                        c.s.add(z3.Implies(act[p.t][e.idx], e.clk < main.events[k].clk))
            for x in main.outcome[2]:
                c.add(x)
        m = c.check()
        self.nq += c.queries
        self.nt += c.time
        if m is None:
            return
        self.stats['feasible'] += 1
        on = {p.t: [z3.is_true(m.m.eval(x, model_completion=True)) for x in act[p.t]] for p in tup if p is not main}
        self.report(tup, None, m, text, 'maybe' if cls == 'hang' and main.outcome[3] else cls, on)

    # ---------------------------------------------------------- data races
    def races(self, c, tup):
        pairs = []
        evs = [e for p in tup for e in p.events if e.loc is not None]
        for a in evs:
            for b in evs:
                if a.t != b.t and a.loc == b.loc and (a.na or b.na) and (a.kind in 'WUP' or b.kind in 'WUP'):
                    pairs.append((a, b))
        if not pairs:
            return
        groups = {}
        for a, b in pairs:
            groups.setdefault((a.t, a.idx), (a, []))[1].append(b)
        self.stats['race_pairs'] = self.stats.get('race_pairs', 0) + len(pairs)
        self.stats['reqs'] += len(pairs)
        for a, bs in groups.values():
            c.push()
            reach, flow, fr = {}, {}, {}
            n = '%d!%d' % (a.t, a.idx)
            add = c.s.add
            for p in tup:
                prev = None
                rel_fence = []
                reads = []
                for e in p.events:
                    k = (e.t, e.idx)
                    x = reach[k] = z3.Bool('r!%s!%d!%d' % ((n,) + k))
                    if prev is not None:
                        add(z3.Implies(reach[prev], x))
                    prev = k
                    if e.kind in 'WU':
                        f = flow[k] = z3.Bool('f!%s!%d!%d' % ((n,) + k))
                        if e.rel:
                            add(z3.Implies(x, f))
                        for q in rel_fence:
                            add(z3.Implies(reach[q], f))
                    if e.kind == 'F':
                        if e.rel:
                            rel_fence.append(k)
                        if e.acq:
                            for q in reads:
                                add(z3.Implies(fr[q], x))
                    if e.kind in 'RU' and not e.na:
                        reads.append(k)
                        fr[k] = z3.Bool('g!%s!%d!%d' % ((n,) + k))
            for p in tup:
                for e in p.events:
                    k = (e.t, e.idx)
                    if k not in fr:
                        continue
                    for q in tup:
                        for w in q.events:
                            kk = (w.t, w.idx)
                            if kk not in flow or w.loc != e.loc:
                                continue
                            rf = self.rf.get(k + kk)
                            if rf is None or rf is False:
                                continue
                            g = z3.And(B(rf), flow[kk])
                            add(z3.Implies(g, fr[k]))
                            if e.kind == 'U':
                                add(z3.Implies(g, flow[k]))
                    if e.acq:
                        add(z3.Implies(fr[k], reach[k]))
            add(reach[(a.t, a.idx)])
            m = c.check(ZOR([ZAND([lt(a, b), z3.Not(reach[(b.t, b.idx)])]) for b in bs]))
            if m is not None:
                self.report(tup, None, m, 'data race', 'race', None)
                c.pop()
                return
            c.pop()

    # ---------------------------------------------------------- candidates
    def order(self, tup, m, on=None):
        steps = []
        for p in tup:
            for e in p.events:
                if e.pts == 0 or on is not None and p.t in on and not on[p.t][e.idx]:
                    continue
                t = m.m.eval(e.clk, model_completion=True).as_long()
                steps.append((t, p.t, e.idx, e.pts))
        steps.sort()
        out = []
        for _, t, _, n in steps:
            out += [t] * n
        return out

    def describe(self, tup, ep, m, on=None):
        S0 = self.S0
        su = self.job.setup

        def con(x):
            return tuple(con(y) for y in x) if isinstance(x, tuple) else (m.val(x) if is_sym(x) else x)
        ops, threads = [], []
        for o in self.preops:
            ops.append((o.name, o.it, con(o.args)))
            threads.append('pre')
        for p in tup:
            for o in p.ops:
                ops.append((o.name, o.it, con(o.args)))
                threads.append(str(p.t))
        if ep is not None:
            for o in ep.ops:
                ops.append((o.name, o.it, con(o.args)))
                threads.append('post')
        env = {k: (m.val(v) if is_sym(v) else v) for k, v in S0.env.items() if k in
               ('L', 'start', 'end', 'cap', 'probe_panic', 'clone_panic', 'user_panic', 'slack_lo', 'slack_hi')}
        lines = seq.script(su, m, env, ops, threads)
        if self.job.panic_thread is not None:
            lines.append('panic_thread %d' % self.job.panic_thread)
        o = self.order(tup, m, on)
        if o:
            lines.append('order ' + ' '.join(map(str, o)))
        # (threads without any operation are still there)
        if self.job.freeze and on is not None:
            for t in on:
                lines.append('freeze %d' % t)
        return dict(mode='conc', dbg=self.job.dbg, setup=su, L=env['L'], start=env.get('start', 0), ops=ops, threads=threads,
                    lines=lines, job=self.job.name(), frozen=bool(self.job.freeze and on is not None),
                    judge=judge_native, validate=validate_native)

    def report(self, tup, ep, m, text, cls, on):
        c = self.describe(tup, ep, m, on)
        c['text'] = text
        c['cls'] = cls
        self.cand(c)

    def witness(self, tup, ep, m):
        self.nwit += 1
        import check

        def con(x):
            return tuple(con(y) for y in x) if isinstance(x, tuple) else (m.val(x) if is_sym(x) else x)
        c = self.describe(tup, ep, m)
        S0 = self.S0
        sz = S0.mem[S0.env['src']].size if S0.env.get('src') is not None else 0
        base = self.src.addr if sz else 0
        tr = {}
        for p in list(tup) + [ep]:
            evs = [tuple(con(x) for x in e) for e in p.trace if e[0] in check.OBS]
            tr[str(0 if p is ep else p.t + 1)] = check.normal(evs, base, sz, self.job.setup.kind)
        c['trace'] = [[k] + v for k, v in sorted(tr.items())]
        c['size'] = sz
        self.wit(c)


class Node:
    """a prefix of the paths of a thread, up to the end of an operation"""
    __slots__ = ('path', 'full', 'kids', 'index', 'depth')

    def __init__(self, path, full):
        self.path = path
        self.full = full
        self.kids = []
        self.index = {}
        self.depth = 0


def product(xs):
    if not xs:
        yield []
        return
    for x in xs[0]:
        for y in product(xs[1:]):
            yield [x] + y


def opcount(prog):
    n = 0
    for o in prog:
        n += len(o.slot) if o.name == 'drop_bufs' else 1
    return n


# ---------------------------------------------------------------- native runs
def native_ops(c, log):
    """COp list, extra events, source of a native log"""
    import replay
    ops, extra = [], []
    cur = {}
    src = (0, 0)
    hung = finished = False
    joined = False
    for n, r in enumerate(log):
        tid, t, a = r[1], r[2], r[3:]
        if t == 'op':
            nm, it, args = c['ops'][a[0]]
            o = COp(tid - 1, a[0], nm, it, args)
            o.first = n
            o.epi = joined
            o.t = -1 if tid == 0 and not joined else tid - 1
            cur[tid] = o
            ops.append(o)
        elif t == 'ret':
            cur[tid].out = 'ret'
            cur[tid].last = n
        elif t == 'panicked':
            cur[tid].out = 'panicked'
            cur[tid].own = bool(a[1])
            cur[tid].last = n
        elif t == 'src':
            src = (a[0], a[1])
        elif t == 'joined':
            joined = True
        elif t in ('race', 'overlap', 'badfree', 'live'):
            extra.append(tuple([t] + a))
        elif t == 'srcmem':
            extra.append(('srcmem_raw', a[0]))
        elif t == 'hang':
            hung = True
            extra.append(('hang',))
        elif t == 'others_done':
            finished = True
            hung = True
        elif t == 'finished':
            finished = True
        elif tid in cur:
            cur[tid].obs.append(tuple([t] + a))
    return ops, extra, src, hung, finished


def judge_native(c, binary, prop, builder):
    import cmon
    import replay
    rc, log = replay.run(binary, c['lines'])
    # operation numbers are those of the script: pre, then thread by thread, then post
    ops, extra, src, hung, finished = native_ops(c, log)
    if rc == 'timeout':
        extra.append(('hang',))
        hung = True
    elif not finished and not hung:
        extra.append(('crash', rc))
        hung = True
    su = c['setup']
    S = M.Src(su.kind, c['L'], c['L'], c['start'], src[0], su.fused, su.hint)
    ex = []
    for e in extra:
        if e[0] == 'srcmem_raw':
            if su.kind not in M.OWNING and su.kind != 'VS':
                ex.append(('srcmem', all(w == M.BASE + i for i, w in enumerate(e[1][:c['L']]))))
        elif e[0] == 'live' and e[1] == src[0] and su.kind == 'VS':
            continue
        else:
            ex.append(e)
    want = None if prop == 'ALL' else {prop}

    def before(a, b):
        if a is b:
            return False
        return a.last is not None and a.last < b.first
    reqs = cmon.concurrent(S, ops, want, before, (), quiescent=not hung, extra=ex, final=any(o.name in ('drop', 'into_seq') for o in ops))
    return [r.text for r in reqs if r.cond is False], log


def validate_native(c, binary):
    import check
    import json
    import replay
    rc, log = replay.run(binary, c['lines'])
    ops, extra, src, hung, finished = native_ops(c, log)
    by = {}
    for r in log:
        by.setdefault(str(r[1]), []).append(r)
    for w in c['trace']:
        k, want = w[0], w[1:]
        evs, _ = replay.events(0, [x for x in by.get(k, []) if x[2] not in ('src', 'srcmem', 'live', 'badfree', 'finished', 'joined')] +
                               [[0, 0, 'finished']], c['ops'])
        if k == '0':
            # only what happened after the threads
            if '0' not in by:
                return 'the native run printed nothing (%s)' % (rc,), log
            j = [i for i, r in enumerate(by['0']) if r[2] == 'joined']
            evs, _ = replay.events(0, [x for x in by['0'][j[0] + 1:] if x[2] not in ('srcmem', 'live', 'badfree')] if j else [], c['ops'])
        nat = json.loads(json.dumps(check.normal(evs, src[0], c['size'], c['setup'].kind)))
        want = json.loads(json.dumps(want))
        if nat != want:
            for i in range(max(len(nat), len(want))):
                x = nat[i] if i < len(nat) else None
                y = want[i] if i < len(want) else None
                if x != y:
                    return 'thread %s event %d: encoding %s, native %s' % (k, i, y, x), log
    return None, log
