"""Symbolic execution of LLVM IR with z3.

Values: Python int (concrete bit pattern), z3 BitVec, z3 Bool (i1), Ptr, UNDEF,
tuple (aggregates).  Memory is a set of objects with typed cells.  A path that
depends on an undecided condition forks; every path carries its path condition
and z3 decides feasibility.
"""
import z3
import bounds
from intenc import Enc, IModel, BModel, NotLinear
from llparse import Module, UNDEF, Unsupported, size_of, align_of, field_offset

MASK = {n: (1 << n) - 1 for n in range(1, 129)}
OBJ_SHIFT = 44
_BVV = {}


def bvv(v, w):
    k = (v, w)
    r = _BVV.get(k)
    if r is None:
        r = _BVV[k] = z3.BitVecVal(v, w)
    return r


class Ptr:
    """pointer value: object id and byte offset (int or BitVec 64)"""
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o = o
        self.f = f

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.f)


def base_of(o):
    return (o << OBJ_SHIFT) if o else 0


class Obj:
    __slots__ = ('id', 'size', 'cells', 'init', 'kind', 'live', 'owner', 'align', 'ro', 'tag')

    def __init__(self, id, size, kind, align=8, init=None):
        self.id = id
        self.size = size
        self.cells = {}
        self.init = init
        self.kind = kind
        self.live = True
        self.owner = None
        self.align = align
        self.ro = False
        self.tag = None

    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.init = self.init
        o.kind = self.kind
        o.live = self.live
        o.align = self.align
        o.ro = self.ro
        o.tag = self.tag
        o.owner = None
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'ins', 'ip', 'visits', 'allocas')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.block = self.block
        f.ins = self.ins
        f.ip = self.ip
        f.visits = dict(self.visits)
        f.allocas = list(self.allocas)
        return f


class ForkEx(Exception):
    """alternatives: list of constraints (z3 Bool or None); the instruction is re-executed in each"""

    def __init__(self, alts):
        self.alts = alts


class UB(Exception):
    def __init__(self, why, cond=None):
        self.why = why


class Abort(Exception):
    pass


class Infeasible(Exception):
    pass


_owner = [0]


def new_owner():
    _owner[0] += 1
    return _owner[0]


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.next_obj = 16
        self.own = new_owner()
        self.pc = []
        self.model = None
        self.known = {}
        self.iv = {}
        self.ivdefs = frozenset()
        self.lins = []
        self.trace = []
        self.env = {}
        self.events = []      # concurrent mode
        self.writes = 0       # memory version
        self.steps = 0
        self.ret = None
        self.pos = None       # driver data
        self.outcome = None

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.next_obj = self.next_obj
        self.own = new_owner()
        s.own = new_owner()
        s.pc = list(self.pc)
        s.model = self.model
        s.known = dict(self.known)
        s.iv = dict(self.iv)
        s.ivdefs = self.ivdefs
        s.lins = list(self.lins)
        s.trace = list(self.trace)
        s.env = {k: (dict(v) if type(v) is dict else list(v) if type(v) is list else v) for k, v in self.env.items()}
        s.events = list(self.events)
        s.writes = self.writes
        s.steps = self.steps
        s.ret = self.ret
        s.pos = self.pos
        s.outcome = self.outcome
        return s

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind, align=8, init=None):
        i = self.next_obj
        self.next_obj += 1
        o = Obj(i, size, kind, align, init)
        o.owner = self.own
        self.mem[i] = o
        return o

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.own:
            o = o.clone()
            o.owner = self.own
            self.mem[oid] = o
        return o


def is_sym(v):
    return isinstance(v, z3.ExprRef)


class Engine:
    MAX_STEPS = 60000
    MAX_VISITS = 400

    def __init__(self, mod, env):
        self.mod = mod
        self.env = env           # name -> handler(engine, state, args, call) -> value
        self.solver = z3.Solver()
        self.stack = []
        self.keep = []
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.instrs = 0
        self.fns_used = set()
        self.gobj = {}
        self.fresh_n = 0
        self.conc = None          # concurrent mode: Conc object
        self.timeout_ms = 20000
        self.fork_select = True
        self.enc = Enc()
        self.active = frozenset()
        self.deflevels = []
        self.bvqueries = 0
        self.normc = {}
        self.bnd = bounds.Bounds()
        self.quick_n = 0
        self.solver.set('timeout', self.timeout_ms)
        self.base_state = None
        self.unknown = 0
        self.unprod = 0
        self.evmark = 0

    # ------------------------------------------------------------ solver
    def _pop(self, n):
        self.solver.pop(n)
        for _ in range(n):
            self.active -= self.deflevels.pop()

    def _push(self, cond, defs):
        new = defs - self.active
        self.solver.push()
        for d in new:
            self.solver.add(self.enc.defs[d])
        self.active |= new
        self.deflevels.append(new)
        self.solver.add(cond)

    def _sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if n < len(st):
            self._pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            i, _, ds = self.enc.t(c)
            self._push(i, ds)
            st.append(c)

    def check(self, st, *extra):
        """feasibility of st.pc + extra; returns model or None"""
        import time
        self.queries += 1
        t = time.time()
        try:
            self._sync(st.pc)
            k = 0
            try:
                for c in extra:
                    i, _, ds = self.enc.t(c)
                    self._push(i, ds)
                    k += 1
                r = self.solver.check()
                if r == z3.sat:
                    return IModel(self.solver.model(), self.enc)
                if r == z3.unsat:
                    return None
            finally:
                if k:
                    self._pop(k)
        except NotLinear:
            pass
        finally:
            self.solver_s += time.time() - t
        t = time.time()
        self.bvqueries += 1
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*st.pc)
        s.add(*extra)
        r = s.check()
        self.solver_s += time.time() - t
        if r == z3.sat:
            return BModel(s.model())
        if r == z3.unsat:
            return None
        self.unknown += 1
        raise Unsupported('solver unknown: ' + s.reason_unknown())

    def model_of(self, st):
        if st.model is None:
            m = self.check(st)
            if m is None:
                raise Infeasible()
            st.model = m
        return st.model

    def norm(self, c):
        """(True|False|None, cache key) of a condition"""
        i = c.get_id()
        r = self.normc.get(i)
        if r is None:
            try:
                s = z3.simplify(self.enc.t(c)[0])
            except NotLinear:
                s = z3.simplify(c)
            v = True if z3.is_true(s) else False if z3.is_false(s) else None
            neg = False
            if z3.is_not(s):
                neg = True
                s = s.children()[0]
            r = self.normc[i] = (v, s.get_id(), neg, s, c)
        return r

    def learn(self, st, c):
        """tighten the intervals of a path by a condition that was added to it"""
        try:
            i, _, ds = self.enc.t(c)
        except NotLinear:
            return
        self.learn_defs(st, ds)
        a = self.bnd.atoms(i)
        if a:
            st.lins.append(a)
            self.propagate(st, [a])

    def learn_defs(self, st, ds):
        new = ds - st.ivdefs
        if new:
            st.ivdefs = st.ivdefs | new
            q = []
            for d in sorted(new):
                a = self.bnd.atoms(self.enc.defs[d])
                if a:
                    st.lins.append(a)
                    q.append(a)
            self.propagate(st, q)

    def propagate(self, st, q):
        ch = False
        for a in q:
            ch |= bounds.learn(st.iv, a)
        n = 0
        while ch and n < 4:
            ch = False
            n += 1
            for a in st.lins:
                ch |= bounds.learn(st.iv, a)

    def quick(self, st, c):
        """decide a condition from intervals: True / False / None"""
        try:
            i, _, ds = self.enc.t(c)
        except NotLinear:
            return None
        a = self.bnd.atoms(i)
        if a is None:
            return None
        self.learn_defs(st, ds)
        r = bounds.decide(st.iv, a)
        if r is not None:
            self.quick_n += 1
        return r

    def truth(self, st, c):
        """decide a condition on this path, forking if both outcomes are feasible"""
        if not is_sym(c):
            if c is UNDEF:
                raise UB('branch on undef')
            return bool(c)
        nv, key, neg, _, _ = self.norm(c)
        if nv is not None:
            return nv
        k = st.known.get(key)
        if k is not None:
            return k != neg
        q = self.quick(st, c)
        if q is not None:
            st.known[key] = q != neg
            return q
        m = self.model_of(st)
        v = m.val(c)
        other = z3.Not(c) if v else c
        m2 = self.check(st, other)
        if m2 is None:
            st.known[key] = v != neg
            return v
        mine = c if v else z3.Not(c)
        raise ForkEx([(mine, key, v != neg, m), (other, key, v == neg, m2)])

    def may(self, st, c):
        """is c feasible (no fork)"""
        if not is_sym(c):
            return bool(c)
        nv, key, neg, _, _ = self.norm(c)
        if nv is not None:
            return nv
        k = st.known.get(key)
        if k is not None:
            return k != neg
        q = self.quick(st, c)
        if q is not None:
            return q
        m = self.model_of(st)
        if m.val(c):
            return True
        return self.check(st, c) is not None

    def concretize(self, st, v):
        if not is_sym(v):
            return v
        k = st.known.get(('v', v.get_id()))
        if k is not None:
            return k
        s = z3.simplify(v)
        if z3.is_bv_value(s):
            return s.as_long()
        m = self.model_of(st)
        val = m.val(v)
        c = v == val
        self.keep += [v, c]
        m2 = self.check(st, z3.Not(c))
        if m2 is None:
            st.known[('v', v.get_id())] = val
            return val
        raise ForkEx([(c, ('v', v.get_id()), val, m), (z3.Not(c), None, None, m2)])

    def fresh(self, name, w):
        self.fresh_n += 1
        v = z3.BitVec('%s!%d' % (name, self.fresh_n), w)
        self.keep.append(v)
        return v

    def assume(self, st, c):
        """add c to the path; Infeasible if impossible"""
        if not is_sym(c):
            if not c:
                raise Infeasible()
            return
        nv, key, neg, _, _ = self.norm(c)
        if nv is True:
            return
        if nv is False:
            raise Infeasible()
        m = st.model
        st.pc.append(c)
        self.keep.append(c)
        self.learn(st, c)
        if m is not None and m.val(c):
            return
        st.model = None
        self.model_of(st)

    # ------------------------------------------------------------ values
    def toint(self, v, w):
        """Ptr -> integer"""
        if isinstance(v, Ptr):
            b = base_of(v.o)
            if isinstance(v.f, int):
                return (b + v.f) & MASK[64]
            return v.f + b
        return v

    def bv(self, v, w):
        if isinstance(v, Ptr):
            v = self.toint(v, 64)
        if isinstance(v, int):
            return bvv(v, w)
        if z3.is_bool(v):
            return z3.If(v, bvv(1, 1), bvv(0, 1))
        if v is UNDEF:
            raise UB('use of undef')
        return v

    def operand(self, st, fr, op, ty):
        k = op[0]
        if k == 'r':
            return fr.regs[op[1]]
        if k == 'c':
            v = op[1]
            if ty == 'ptr' and isinstance(v, int):
                return Ptr(0, v)
            return v
        if k == 'g':
            return self.global_ptr(st, op[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.operand(st, fr, v, t) for t, v in op[1])
        if k == 'e':
            return self.constexpr(st, fr, op)
        raise Unsupported('operand %r' % (op,))

    def zero(self, ty):
        if isinstance(ty, int):
            return 0
        if ty == 'ptr':
            return Ptr(0, 0)
        if ty[0] == 'struct':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] == 'arr':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero')

    def constexpr(self, st, fr, op):
        k = op[1]
        if k == 'inttoptr':
            v = self.operand(st, fr, op[3], op[2])
            return self.int2ptr(st, v)
        if k == 'ptrtoint':
            return self.operand(st, fr, op[3], op[2])
        if k == 'gep':
            base = self.operand(st, fr, op[3], 'ptr')
            return self.gep(st, fr, op[2], base, op[4])
        raise Unsupported('constexpr ' + k)

    def int2ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            o = v >> OBJ_SHIFT
            if o in st.mem:
                return Ptr(o, v - base_of(o))
            return Ptr(0, v)
        # symbolic integer: look for an object base
        s = z3.simplify(v)
        if z3.is_bv_value(s):
            return self.int2ptr(st, s.as_long())
        hi = self.concretize(st, z3.Extract(63, OBJ_SHIFT, s))
        if hi in st.mem:
            return Ptr(hi, s - base_of(hi))
        return Ptr(0, s)

    def global_ptr(self, st, name):
        name = self.mod.alias.get(name, name)
        oid = self.gobj.get(name)
        if oid is None:
            oid = 1000000 + len(self.gobj)
            self.gobj[name] = oid
        if oid not in st.mem:
            if name in self.mod.glob:
                gi = self.mod.global_init(name)
                if gi is None:
                    raise Unsupported('global ' + name)
                ty, val, const = gi
                o = Obj(oid, size_of(ty), 'global')
                o.ro = const
                o.tag = name
                st.mem[oid] = o
                o.owner = st.own
                if val is not None:
                    self.init_global(st, o, 0, ty, val)
            else:
                o = Obj(oid, 0, 'fn')
                o.tag = name
                st.mem[oid] = o
        return Ptr(oid, 0)

    def init_global(self, st, o, off, ty, val):
        if val[0] == 'bytes':
            for i, b in enumerate(val[1]):
                o.cells[off + i] = (1, b)
            return
        if val[0] == 'agg':
            if ty[0] == 'struct':
                for i, (t, v) in enumerate(val[1]):
                    self.init_global(st, o, off + field_offset(ty, i), t, v)
            else:
                es = size_of(ty[2])
                for i, (t, v) in enumerate(val[1]):
                    self.init_global(st, o, off + i * es, t, v)
            return
        if val[0] == 'zero' and not isinstance(ty, int) and ty != 'ptr':
            for i in range(size_of(ty)):
                o.cells[off + i] = (1, 0)
            return
        try:
            v = self.operand(st, None, val, ty)
        except Unsupported:
            return
        if v is UNDEF:
            return
        if isinstance(ty, int) or ty == 'ptr':
            o.cells[off] = (size_of(ty), v)

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, size, write):
        """bounds / liveness; returns the object.  Raises UB when a violation is feasible on this path"""
        if isinstance(p, int):
            p = self.int2ptr(st, p)
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise UB('access through undef pointer')
            p = self.int2ptr(st, p)
        if p.o == 0:
            raise UB('access through null or dangling pointer')
        o = st.mem.get(p.o)
        if o is None:
            raise UB('access to unknown object')
        if not o.live:
            raise UB('use after free (%s)' % o.kind)
        if o.kind == 'fn':
            raise UB('access to code')
        if isinstance(p.f, int) and isinstance(o.size, int):
            f = p.f
            if f >= 1 << 63 or f + size > o.size:
                raise UB('out of bounds (%s object of %d bytes at offset %d, %d bytes)' % (o.kind, o.size, f, size))
        else:
            f = self.bv(p.f, 64)
            n = self.bv(o.size, 64)
            bad = z3.Or(z3.UGT(f, n), z3.ULT(n - f, bvv(size, 64)))
            if self.truth(st, bad):
                raise UB('out of bounds (%s object, symbolic offset)' % o.kind)
        if write and o.ro:
            raise UB('write to read-only object')
        return p, o

    def _byte(self, o, i):
        """byte i (concrete) of object as int/BV8 or UNDEF"""
        c = o.cells.get(i)
        if c is not None and c[0] == 1:
            return c[1] if not isinstance(c[1], Ptr) else None
        for d in range(0, 17):
            c = o.cells.get(i - d)
            if c is not None and c[0] > d:
                v = c[1]
                if v is UNDEF:
                    return UNDEF
                v = self.toint(v, 64)
                if isinstance(v, int):
                    return (v >> (8 * d)) & 255
                if z3.is_bool(v):
                    v = z3.If(v, bvv(1, 8), bvv(0, 8))
                return z3.Extract(8 * d + 7, 8 * d, v)
        if o.init is not None:
            e = i - i % 8
            v = self.toint(o.init(e, 8), 64)
            d = i - e
            if isinstance(v, int):
                return (v >> (8 * d)) & 255
            return z3.Extract(8 * d + 7, 8 * d, v)
        return UNDEF

    def load_raw(self, st, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is None and o.init is not None and size == 8 and off % 8 == 0:
            # no overlapping cell?
            if not any(off < k < off + 8 for k in o.cells) and not any(
                    k < off < k + o.cells[k][0] for k in range(max(0, off - 16), off) if k in o.cells):
                return o.init(off, 8)
        bs = [self._byte(o, off + i) for i in range(size)]
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= b << (8 * i)
            return r
        bs = [bvv(b, 8) if isinstance(b, int) else b for b in bs]
        if len(bs) == 1:
            return bs[0]
        return z3.simplify(z3.Concat(*reversed(bs)))

    def load(self, st, p, ty, order=None):
        if isinstance(ty, tuple):
            if ty[0] == 'struct':
                return tuple(self.load(st, self.ptr_add(p, field_offset(ty, i)), t) for i, t in enumerate(ty[1]))
            raise Unsupported('load of %r' % (ty,))
        size = size_of(ty)
        p, o = self.check_access(st, p, size, False)
        if self.conc is not None and o.id in self.conc.shared:
            v = self.conc.load(self, st, o, p, size, order)
            if v is not None:
                return self.from_cell(v, ty)
        f = p.f
        if is_sym(f):
            s = z3.simplify(f)
            if z3.is_bv_value(s):
                f = s.as_long()
        if is_sym(f):
            if o.init is not None and not o.cells and size == 8:
                return self.from_cell(o.init(f, 8), ty)
            f = self.concretize(st, f)
        return self.from_cell(self.load_raw(st, o, f, size), ty)

    def from_cell(self, v, ty):
        if ty == 'ptr':
            return v if isinstance(v, Ptr) or v is UNDEF else v
        if ty == 1:
            if isinstance(v, int):
                return v & 1
            if is_sym(v) and z3.is_bv(v):
                return z3.Extract(0, 0, v) == 1
            return v
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, bvv(1, ty), bvv(0, ty))
        if isinstance(ty, int) and ty % 8 != 0 and isinstance(v, int):
            return v & MASK[ty]
        return v

    def store_raw(self, st, o, off, size, v):
        cells = o.cells
        if cells.get(off, (0,))[0] != size:
            # split or remove overlapping cells
            for k in range(off - 15, off + size):
                c = cells.get(k)
                if c is None:
                    continue
                if k + c[0] <= off:
                    continue
                if k >= off and k + c[0] <= off + size:
                    del cells[k]
                    continue
                bs = [self._byte(o, k + i) for i in range(c[0])]
                if isinstance(c[1], Ptr) and any(b is None for b in bs):
                    raise Unsupported('pointer split')
                del cells[k]
                for i in range(c[0]):
                    cells[k + i] = (1, bs[i])
            for k in range(off, off + size):
                if k in cells:
                    del cells[k]
        cells[off] = (size, v)

    def store(self, st, p, ty, v, order=None):
        if isinstance(ty, tuple):
            if ty[0] == 'struct':
                for i, t in enumerate(ty[1]):
                    self.store(st, self.ptr_add(p, field_offset(ty, i)), t, v[i])
                return
            raise Unsupported('store of %r' % (ty,))
        size = size_of(ty)
        p, o = self.check_access(st, p, size, True)
        if ty == 1 and is_sym(v):
            v = z3.If(v, bvv(1, 8), bvv(0, 8))
        f = p.f
        if is_sym(f):
            f = self.concretize(st, f)
        if self.conc is not None and o.id in self.conc.shared:
            if self.conc.store(self, st, o, f, size, v, order):
                return
        o = st.wobj(o.id)
        st.writes += 1
        self.store_raw(st, o, f, size, v)

    def ptr_add(self, p, n):
        if isinstance(p, Ptr):
            if isinstance(p.f, int) and isinstance(n, int):
                return Ptr(p.o, (p.f + n) & MASK[64])
            if isinstance(n, int) and n == 0:
                return p
            return Ptr(p.o, z3.simplify(self.bv(p.f, 64) + self.bv(n, 64)))
        if isinstance(p, int):
            if isinstance(n, int):
                return (p + n) & MASK[64]
            return z3.simplify(bvv(p, 64) + n)
        if p is UNDEF:
            raise UB('arithmetic on undef pointer')
        return p + (bvv(n, 64) if isinstance(n, int) else n)

    def memcpy(self, st, d, s, n):
        n = self.concretize(st, n)
        if n == 0:
            return
        d, do = self.check_access(st, d, n, True)
        s, so = self.check_access(st, s, n, False)
        sf = self.concretize(st, s.f)
        df = self.concretize(st, d.f)
        if self.conc is not None and (so.id in self.conc.shared or do.id in self.conc.shared):
            # word by word so that shared accesses are seen
            k = 0
            vals = []
            while k < n:
                w = self.conc.piece(so.id, sf + k, do.id, df + k, n - k)
                vals.append((k, w, self.load(st, Ptr(so.id, sf + k), 8 * w)))
                k += w
            for k, w, v in vals:
                if v is UNDEF:
                    continue
                self.store(st, Ptr(do.id, df + k), 8 * w, v)
            return
        # collect source cells
        items = []
        k = 0
        while k < n:
            c = so.cells.get(sf + k)
            if c is not None and k + c[0] <= n:
                # make sure no earlier cell overlaps: cells are kept disjoint
                items.append((k, c[0], c[1]))
                k += c[0]
                continue
            if c is None and so.init is not None and (sf + k) % 8 == 0 and n - k >= 8 and not any(
                    (sf + k + j) in so.cells for j in range(1, 8)):
                items.append((k, 8, so.init(sf + k, 8)))
                k += 8
                continue
            b = self._byte(so, sf + k)
            if b is None:
                raise Unsupported('pointer byte copy')
            items.append((k, 1, b))
            k += 1
        do = st.wobj(do.id)
        st.writes += 1
        # clear destination
        for k in range(df - 15, df + n):
            c = do.cells.get(k)
            if c is None or k + c[0] <= df:
                continue
            if k >= df and k + c[0] <= df + n:
                del do.cells[k]
            else:
                bs = [self._byte(do, k + i) for i in range(c[0])]
                del do.cells[k]
                for i in range(c[0]):
                    if not (df <= k + i < df + n):
                        do.cells[k + i] = (1, bs[i])
        for k, w, v in items:
            if v is UNDEF and do.init is None:
                continue
            do.cells[df + k] = (w, v)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = a.f, b.f
            elif op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return self.ptr_add(a, b)
            elif op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
                return self.ptr_add(a, (-b) & MASK[64])
            else:
                a = self.toint(a, w)
                b = self.toint(b, w)
        if isinstance(a, int) and isinstance(b, int):
            m = MASK[w]
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'udiv':
                if b == 0:
                    raise UB('division by zero')
                return a // b
            if op == 'urem':
                if b == 0:
                    raise UB('division by zero')
                return a % b
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr':
                return (sa >> b) & m if b < w else UNDEF
            if op == 'sdiv':
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & m
            if op == 'srem':
                r = abs(sa) % abs(sb)
                return (r if sa >= 0 else -r) & m
            raise Unsupported(op)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            A = a if is_sym(a) and z3.is_bool(a) else (z3.BoolVal(bool(a)) if isinstance(a, int) else a == 1)
            B = b if is_sym(b) and z3.is_bool(b) else (z3.BoolVal(bool(b)) if isinstance(b, int) else b == 1)
            if op == 'and':
                return z3.And(A, B)
            if op == 'or':
                return z3.Or(A, B)
            if op in ('xor', 'add', 'sub'):
                return z3.Xor(A, B)
            raise Unsupported('i1 ' + op)
        # cheap identities
        if isinstance(b, int) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if isinstance(a, int) and a == 0 and op in ('add', 'or', 'xor'):
            return b
        A = self.bv(a, w)
        B = self.bv(b, w)
        if op == 'add':
            return A + B
        if op == 'sub':
            return A - B
        if op == 'mul':
            return A * B
        if op == 'and':
            return A & B
        if op == 'or':
            return A | B
        if op == 'xor':
            return A ^ B
        if op == 'shl':
            return A << B
        if op == 'lshr':
            return z3.LShR(A, B)
        if op == 'ashr':
            return A >> B
        if op == 'udiv':
            if self.truth(st, B == 0):
                raise UB('division by zero')
            return z3.UDiv(A, B)
        if op == 'urem':
            if self.truth(st, B == 0):
                raise UB('division by zero')
            return z3.URem(A, B)
        if op == 'sdiv':
            return A / B
        if op == 'srem':
            return z3.SRem(A, B)
        raise Unsupported(op)

    def unxor(self, a, b):
        """(c ^ x) == d  ->  x == c ^ d"""
        if is_sym(a) and isinstance(b, int) and a.decl().kind() == z3.Z3_OP_BXOR and a.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(a.arg(i)):
                    return a.arg(1 - i), b ^ a.arg(i).as_long()
        return a, b

    def icmp(self, st, pr, w, a, b):
        if a is UNDEF or b is UNDEF:
            raise UB('comparison of undef')
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa and pb and a.o == b.o:
            a, b = a.f, b.f
            w = 64
            # offsets: compare as unsigned addresses
            if is_sym(a) or is_sym(b):
                pass
        elif pa or pb:
            if pa and pb and pr in ('eq', 'ne') and a.o and b.o:
                return 1 if pr == 'ne' else 0
            if pr in ('eq', 'ne') and ((pa and a.o and isinstance(b, int) and b == 0) or
                                       (pb and b.o and isinstance(a, int) and a == 0) or
                                       (pa and pb and ((a.o == 0 and a.f == 0) or (b.o == 0 and b.f == 0)))):
                return 1 if pr == 'ne' else 0
            a = self.toint(a, 64)
            b = self.toint(b, 64)
            w = 64
        if w == 'ptr':
            w = 64
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's':
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pr])
        if w == 1:
            A = a if is_sym(a) else z3.BoolVal(bool(a))
            B = b if is_sym(b) else z3.BoolVal(bool(b))
            if pr == 'eq':
                return A == B
            if pr == 'ne':
                return A != B
            A, B = self.bv(a, 1), self.bv(b, 1)
        else:
            if pr in ('eq', 'ne'):
                a, b = self.unxor(a, b)
                b, a = self.unxor(b, a)
            A, B = self.bv(a, w), self.bv(b, w)
        if pr == 'eq':
            return A == B
        if pr == 'ne':
            return A != B
        return {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE,
                'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y,
                'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y}[pr](A, B)

    def cast(self, st, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return v
        if op in ('ptrtoint', 'ptrtoaddr'):
            if t2 != 64:
                v = self.toint(v, 64)
                return self.cast(st, 'trunc', 64, v, t2)
            if isinstance(v, Ptr) and v.o == 0:
                return v.f
            return v
        if op == 'inttoptr':
            return self.int2ptr(st, v)
        if isinstance(v, Ptr):
            v = self.toint(v, 64)
        if op == 'zext':
            if isinstance(v, int):
                return v
            if z3.is_bool(v):
                return z3.If(v, bvv(1, t2), bvv(0, t2))
            return z3.ZeroExt(t2 - t, v)
        if op == 'sext':
            if isinstance(v, int):
                return (v | (MASK[t2] ^ MASK[t])) if v >> (t - 1) else v
            if z3.is_bool(v):
                return z3.If(v, bvv(MASK[t2], t2), bvv(0, t2))
            return z3.SignExt(t2 - t, v)
        if op == 'trunc':
            if isinstance(v, int):
                return v & MASK[t2]
            if t2 == 1:
                return z3.Extract(0, 0, v) == 1
            return z3.Extract(t2 - 1, 0, v)
        raise Unsupported('cast ' + op)

    def ite(self, st, c, a, b, ty):
        if not is_sym(c):
            if c is UNDEF:
                raise UB('select on undef')
            return a if c else b
        if a is b:
            return a
        if self.fork_select:
            return a if self.truth(st, c) else b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            return Ptr(a.o, z3.If(c, self.bv(a.f, 64), self.bv(b.f, 64)))
        if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)) or a is UNDEF or b is UNDEF:
            return a if self.truth(st, c) else b
        if ty == 1:
            A = a if is_sym(a) else z3.BoolVal(bool(a))
            B = b if is_sym(b) else z3.BoolVal(bool(b))
            return z3.If(c, A, B)
        w = 64 if ty == 'ptr' else ty
        return z3.If(c, self.bv(a, w), self.bv(b, w))

    def gep(self, st, fr, bt, base, idx):
        p = base
        t = bt
        for k, (it, iv) in enumerate(idx):
            v = self.operand(st, fr, iv, it) if fr is not None or iv[0] != 'r' else None
            if v is UNDEF:
                raise UB('gep on undef')
            if isinstance(v, Ptr):
                v = self.toint(v, 64)
            if isinstance(it, int) and it < 64:
                v = self.cast(st, 'sext', it, v, 64)
            if k == 0:
                sz = size_of(t)
            elif t[0] == 'struct':
                o = field_offset(t, v)
                t = t[1][v]
                p = self.ptr_add(p, o)
                continue
            else:
                t = t[2]
                sz = size_of(t)
            if isinstance(v, int):
                p = self.ptr_add(p, (v * sz) & MASK[64])
            else:
                p = self.ptr_add(p, v * bvv(sz, 64) if sz != 1 else v)
        return p

    # ------------------------------------------------------------ execution
    def push_call(self, st, name, args):
        fn = self.mod.get(name)
        self.fns_used.add(name)
        fr = Frame.__new__(Frame)
        fr.fn = fn
        fr.regs = dict(zip(fn.params, args))
        fr.visits = {}
        fr.allocas = []
        st.frames.append(fr)
        fr.block = None
        self.enter(st, fr, fn.entry)

    def start_call(self, st, name, args):
        """begin an API call; when it ends st.frames is empty and st.ret is set"""
        st.ret = None
        st.steps = 0
        self.push_call(st, '@' + name, args)

    def enter(self, st, fr, label):
        phis, ins = fr.fn.blocks[label]
        prev = fr.block
        vals = None
        if phis:
            vals = [self.operand(st, fr, ph[3][prev], ph[2]) for ph in phis]
        v = fr.visits.get(label)
        if v is not None:
            # loop: detect iterations that change nothing
            if self.loop_check(st, fr, label, v, vals):
                raise LoopCut()
        n = v[0] + 1 if v else 1
        fr.visits[label] = (n, dict(fr.regs) if n >= 2 or self.conc is not None else None, st.writes, len(st.events), len(st.trace), len(st.pc),
                            self.unprod if v else 0, vals)
        if phis:
            for ph, x in zip(phis, vals):
                fr.regs[ph[1]] = x
        fr.block = label
        fr.ins = ins
        fr.ip = 0

    def loop_check(self, st, fr, label, v, vals):
        n, oregs, w, ev, tr, pcl, first, ovals = v
        if self.conc is not None:
            return self.conc.loop_check(self, st, fr, label, v, vals)
        if n > self.MAX_VISITS:
            st.outcome = ('bound', 'loop in %s' % fr.fn.name)
            return True
        if w == st.writes and tr == len(st.trace) and oregs is not None and same_vals(vals, ovals) and same_regs(oregs, fr.regs):
            st.outcome = ('hang', 'loop without progress in %s' % fr.fn.name)
            return True
        return False

    def unwind(self, st):
        """propagate an unwind from the current call instruction of the top frame"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.ins[fr.ip] if fr.ip < len(fr.ins) else None
            if ins is not None and ins[0] == 'call' and ins[6] is not None:
                self.enter(st, fr, ins[6])
                return
            self.pop_frame(st)
        st.ret = ('panic',)

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            del st.mem[oid]

    def do_return(self, st, val):
        self.pop_frame(st)
        if not st.frames:
            st.ret = ('ok', val)
            return
        fr = st.frames[-1]
        self.finish_call(st, fr, fr.ins[fr.ip], val)

    def finish_call(self, st, fr, ins, val):
        if ins[1] is not None:
            fr.regs[ins[1]] = val
        if ins[5] is not None:
            self.enter(st, fr, ins[5])
        else:
            fr.ip += 1

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.ins[fr.ip]
        self.instrs += 1
        st.steps += 1
        if st.steps > self.MAX_STEPS:
            st.outcome = ('bound', 'step limit')
            raise LoopCut()
        op = ins[0]
        regs = fr.regs
        O = self.operand
        if self.conc is not None:
            self.evmark = len(st.events)
            self.evenv = (st.env['evn'], st.env['last'])
        if op == 'bin':
            w = ins[3]
            regs[ins[1]] = self.binop(st, ins[2], w, O(st, fr, ins[4], w), O(st, fr, ins[5], w))
        elif op == 'icmp':
            t = ins[3]
            regs[ins[1]] = self.icmp(st, ins[2], t, O(st, fr, ins[4], t), O(st, fr, ins[5], t))
        elif op == 'br':
            c = O(st, fr, ins[2], 1)
            self.enter(st, fr, ins[3] if self.truth(st, c) else ins[4])
            return
        elif op == 'jmp':
            self.enter(st, fr, ins[2])
            return
        elif op == 'load':
            regs[ins[1]] = self.load(st, O(st, fr, ins[3], 'ptr'), ins[2], ins[4])
        elif op == 'store':
            self.store(st, O(st, fr, ins[4], 'ptr'), ins[2], O(st, fr, ins[3], ins[2]), ins[5])
        elif op == 'gep':
            regs[ins[1]] = self.gep(st, fr, ins[2], O(st, fr, ins[3], 'ptr'), ins[4])
        elif op == 'call':
            self.do_call(st, fr, ins)
            return
        elif op == 'alloca':
            cnt = 1 if ins[3] is None else self.concretize(st, O(st, fr, ins[3], 64))
            o = st.alloc(size_of(ins[2]) * cnt, 'stack')
            fr.allocas.append(o.id)
            regs[ins[1]] = Ptr(o.id, 0)
        elif op == 'cast':
            regs[ins[1]] = self.cast(st, ins[2], ins[3], O(st, fr, ins[4], ins[3]), ins[5])
        elif op == 'select':
            c = O(st, fr, ins[3], 1)
            regs[ins[1]] = self.ite(st, c, O(st, fr, ins[4], ins[2]), O(st, fr, ins[5], ins[2]), ins[2])
        elif op == 'ret':
            self.do_return(st, None if ins[2] is None else O(st, fr, ins[3], ins[2]))
            return
        elif op == 'switch':
            t = ins[2]
            v = O(st, fr, ins[3], t)
            if v is UNDEF:
                raise UB('switch on undef')
            for cv, lab in ins[5]:
                if self.truth(st, self.icmp(st, 'eq', t, v, cv)):
                    self.enter(st, fr, lab)
                    return
            self.enter(st, fr, ins[4])
            return
        elif op == 'rmw':
            self.rmw(st, fr, ins)
        elif op == 'cas':
            self.cas(st, fr, ins)
        elif op == 'landingpad':
            regs[ins[1]] = (Ptr(0, 8), 0)
        elif op == 'resume':
            self.pop_frame(st)
            self.unwind(st)
            return
        elif op == 'extractvalue':
            v = O(st, fr, ins[3], ins[2])
            for i in ins[4]:
                if v is UNDEF:
                    break
                v = v[i]
            regs[ins[1]] = v
        elif op == 'insertvalue':
            v = O(st, fr, ins[3], ins[2])
            x = O(st, fr, ins[4], None)
            regs[ins[1]] = self.insert(v, ins[2], ins[5], x)
        elif op == 'freeze':
            v = O(st, fr, ins[3], ins[2])
            regs[ins[1]] = 0 if v is UNDEF else v
        elif op == 'unreachable':
            raise UB('unreachable reached')
        elif op == 'fence':
            if self.conc is not None:
                self.conc.fence(self, st, ins[2])
        else:
            raise Unsupported(op)
        fr.ip += 1

    def insert(self, v, ty, idx, x):
        if v is UNDEF:
            v = tuple(UNDEF for _ in (ty[1] if ty[0] == 'struct' else range(ty[1])))
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            l[idx[0]] = self.insert(l[idx[0]], ty[1][idx[0]] if ty[0] == 'struct' else ty[2], idx[1:], x)
        return tuple(l)

    def rmw_value(self, st, k, w, old, v):
        if k in ('add', 'sub', 'and', 'or', 'xor'):
            return self.binop(st, k, w, old, v)
        if k == 'xchg':
            return v
        if k in ('umax', 'umin', 'max', 'min'):
            pr = {'umax': 'ugt', 'umin': 'ult', 'max': 'sgt', 'min': 'slt'}[k]
            return self.ite(st, self.icmp(st, pr, w, old, v), old, v, w)
        if k == 'nand':
            return self.binop(st, 'xor', w, self.binop(st, 'and', w, old, v), MASK[w])
        raise Unsupported('rmw ' + k)

    def rmw(self, st, fr, ins):
        _, dest, k, t, ptr, v, order = ins
        p = self.operand(st, fr, ptr, 'ptr')
        v = self.operand(st, fr, v, t)
        w = 64 if t == 'ptr' else t
        size = size_of(t)
        p, o = self.check_access(st, p, size, True)
        f = self.concretize(st, p.f)
        if self.conc is not None and o.id in self.conc.shared:
            old = self.conc.rmw(self, st, o, f, size, lambda x: self.rmw_value(st, k, w, x, v), order)
        else:
            old = self.load_raw(st, o, f, size)
            new = self.rmw_value(st, k, w, old, v)
            o = st.wobj(o.id)
            st.writes += 1
            self.store_raw(st, o, f, size, new)
        fr.regs[dest] = old

    def cas(self, st, fr, ins):
        _, dest, t, ptr, e, n, o1, o2, weak = ins
        p = self.operand(st, fr, ptr, 'ptr')
        e = self.operand(st, fr, e, t)
        n = self.operand(st, fr, n, t)
        w = 64 if t == 'ptr' else t
        size = size_of(t)
        p, o = self.check_access(st, p, size, True)
        f = self.concretize(st, p.f)
        if self.conc is not None and o.id in self.conc.shared:
            old, ok = self.conc.cas(self, st, o, f, size, e, n, o1, o2)
        else:
            old = self.load_raw(st, o, f, size)
            ok = self.truth(st, self.icmp(st, 'eq', w, old, e))
            if ok:
                o = st.wobj(o.id)
                st.writes += 1
                self.store_raw(st, o, f, size, n)
        fr.regs[dest] = (old, int(ok))

    def do_call(self, st, fr, ins):
        _, dest, rt, callee, args, nlab, ulab = ins
        vals = [self.operand(st, fr, v, t) for t, v in args]
        if callee[0] == '%':
            p = fr.regs[callee]
            if not isinstance(p, Ptr) or p.o not in st.mem or st.mem[p.o].kind != 'fn':
                raise UB('indirect call')
            callee = st.mem[p.o].tag
        callee = self.mod.alias.get(callee, callee)
        if callee in self.mod.raw:
            self.push_call(st, callee, vals)
            return
        h = self.resolve(callee)
        r = h(self, st, vals, ins)
        if r is UNWIND:
            self.unwind(st)
            return
        if st.outcome is not None:
            return
        self.finish_call(st, fr, ins, r)

    def resolve(self, name):
        n = name[1:].strip('"')
        h = self.env.get(n)
        if h is not None:
            return h
        if n.startswith('llvm.'):
            for pre, f in INTRINSICS:
                if n.startswith(pre):
                    self.env[n] = f
                    return f
            raise Unsupported('intrinsic ' + n)
        for pat, f in RUNTIME:
            if n.endswith(pat) or (pat[0] == '~' and pat[1:] in n):
                self.env[n] = f
                return f
        at = self.mod.decl_attrs('@' + n if not name.startswith('@"') else name)
        if 'noreturn' in at:
            if any(x in n for x in ('nounwind', 'in_cleanup', 'cannot_unwind', 'abort', 'misaligned', 'null_reference')):
                f = h_abort
            else:
                f = h_panic
            self.env[n] = f
            return f
        raise Unsupported('external function ' + n)

    def run(self, st):
        """run st until its API call ends, the path ends, or it forks; returns list of successor states"""
        try:
            while st.frames and st.outcome is None:
                self.step(st)
            return [st]
        except ForkEx as fx:
            if self.conc is not None:
                del st.events[self.evmark:]
                st.env['evn'], st.env['last'] = self.evenv
            out = []
            for i, (c, key, v, m) in enumerate(fx.alts):
                t = st if i == len(fx.alts) - 1 else st.clone()
                out.append((t, c, key, v, m))
            res = []
            for t, c, key, v, m in out:
                if c is not None:
                    self.keep.append(c)
                    t.pc.append(c)
                    self.learn(t, c)
                t.model = m
                if key is not None:
                    t.known[key] = v
                res.append(t)
            return res
        except LoopCut:
            return [st]
        except UB as e:
            st.outcome = ('ub', e.why, [f.fn.name for f in st.frames][-3:])
            return [st]
        except Abort as e:
            st.outcome = ('abort', str(e))
            return [st]
        except Infeasible:
            return []

    def explore(self, roots, driver, on_leaf, max_paths=None):
        """DFS.  driver(engine, st) is called when a call ended: returns list of states to continue
        with (calls started), or None when the history is complete.  on_leaf gets finished states."""
        work = list(reversed(roots))
        while work:
            st = work.pop()
            if st.outcome is not None:
                self.paths += 1
                on_leaf(st)
                continue
            if not st.frames:
                nxt = driver(self, st)
                if nxt is None:
                    self.paths += 1
                    on_leaf(st)
                    continue
                work.extend(reversed(nxt))
                continue
            r = self.run(st)
            work.extend(reversed(r))
            if max_paths is not None and self.paths >= max_paths:
                return False
        return True


class LoopCut(Exception):
    pass


class _Unw:
    pass


UNWIND = _Unw()


def same_regs(a, b):
    for k, x in a.items():
        y = b[k]
        if x is not y and not same_val(x, y):
            return False
    return True


def same_vals(a, b):
    if a is None or b is None:
        return a is b
    for x, y in zip(a, b):
        if not same_val(x, y):
            return False
    return True


def same_val(x, y):
    if x is y:
        return True
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.o == y.o and same_val(x.f, y.f)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return same_vals(x, y)
    if is_sym(x) and is_sym(y):
        return x.eq(y)
    return False


# ---------------------------------------------------------------- intrinsics / runtime

def h_nop(E, st, a, ins):
    return None


def h_panic(E, st, a, ins):
    st.trace.append(('panic', ins[3]))
    return UNWIND


def h_abort(E, st, a, ins):
    raise Abort(ins[3])


def h_assume(E, st, a, ins):
    c = a[0]
    if c is UNDEF:
        raise UB('assume undef')
    if len(a) and (is_sym(c) or not c):
        if not E.truth(st, c):
            raise UB('llvm.assume violated')
    return None


def _w(ins):
    return ins[4][0][0]


def h_umin(E, st, a, ins):
    w = _w(ins)
    return E.ite(st, E.icmp(st, 'ult', w, a[0], a[1]), E.toint(a[0], w), E.toint(a[1], w), w)


def h_umax(E, st, a, ins):
    w = _w(ins)
    return E.ite(st, E.icmp(st, 'ugt', w, a[0], a[1]), E.toint(a[0], w), E.toint(a[1], w), w)


def h_smin(E, st, a, ins):
    w = _w(ins)
    return E.ite(st, E.icmp(st, 'slt', w, a[0], a[1]), a[0], a[1], w)


def h_smax(E, st, a, ins):
    w = _w(ins)
    return E.ite(st, E.icmp(st, 'sgt', w, a[0], a[1]), a[0], a[1], w)


def h_ucmp(E, st, a, ins):
    w = _w(ins)
    lt = E.icmp(st, 'ult', w, a[0], a[1])
    eq = E.icmp(st, 'eq', w, a[0], a[1])
    rw = ins[2]
    if not is_sym(lt) and not is_sym(eq):
        return MASK[rw] if lt else (0 if eq else 1)
    # decide: the result is always branched on
    if E.truth(st, lt):
        return MASK[rw]
    return 0 if E.truth(st, eq) else 1


def h_scmp(E, st, a, ins):
    w = _w(ins)
    lt = E.icmp(st, 'slt', w, a[0], a[1])
    rw = ins[2]
    if E.truth(st, lt):
        return MASK[rw]
    return 0 if E.truth(st, E.icmp(st, 'eq', w, a[0], a[1])) else 1


def _ovf(kind):
    def h(E, st, a, ins):
        w = _w(ins)
        x, y = E.toint(a[0], w), E.toint(a[1], w)
        if isinstance(x, int) and isinstance(y, int):
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[kind]
            return (r & MASK[w], int(r < 0 or r > MASK[w]))
        r = E.binop(st, kind, w, x, y)
        X, Y = E.bv(x, w), E.bv(y, w)
        if kind == 'add':
            o = z3.ULT(r, X)
        elif kind == 'sub':
            o = z3.ULT(X, Y)
        else:
            o = z3.Not(z3.BVMulNoOverflow(X, Y, False))
        return (r, o)
    return h


def h_usubsat(E, st, a, ins):
    w = _w(ins)
    x, y = E.toint(a[0], w), E.toint(a[1], w)
    return E.ite(st, E.icmp(st, 'ult', w, x, y), 0, E.binop(st, 'sub', w, x, y), w)


def h_uaddsat(E, st, a, ins):
    w = _w(ins)
    r = E.binop(st, 'add', w, a[0], a[1])
    return E.ite(st, E.icmp(st, 'ult', w, r, a[0]), MASK[w], r, w)


def h_memcpy(E, st, a, ins):
    E.memcpy(st, a[0], a[1], a[2])


def h_memset(E, st, a, ins):
    n = E.concretize(st, a[2])
    if n == 0:
        return
    p, o = E.check_access(st, a[0], n, True)
    f = E.concretize(st, p.f)
    v = a[1]
    o = st.wobj(o.id)
    st.writes += 1
    k = 0
    while k < n:
        if n - k >= 8 and isinstance(v, int) and (f + k) % 8 == 0:
            E.store_raw(st, o, f + k, 8, int.from_bytes(bytes([v]) * 8, 'little'))
            k += 8
        else:
            E.store_raw(st, o, f + k, 1, v)
            k += 1


def h_abs_unsup(E, st, a, ins):
    raise Unsupported(ins[3])


def h_expect(E, st, a, ins):
    return a[0]


def h_ctpop(E, st, a, ins):
    w = _w(ins)
    v = a[0]
    if isinstance(v, int):
        return bin(v).count('1')
    return z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, v)) for i in range(w)])


def h_ctlz(E, st, a, ins):
    w = _w(ins)
    v = E.concretize(st, a[0])
    return w - v.bit_length()


def h_cttz(E, st, a, ins):
    w = _w(ins)
    v = E.concretize(st, a[0])
    return w if v == 0 else (v & -v).bit_length() - 1


INTRINSICS = [
    ('llvm.assume', h_assume), ('llvm.umin', h_umin), ('llvm.umax', h_umax), ('llvm.smin', h_smin),
    ('llvm.smax', h_smax), ('llvm.ucmp', h_ucmp), ('llvm.scmp', h_scmp), ('llvm.memcpy', h_memcpy),
    ('llvm.memmove', h_memcpy), ('llvm.memset', h_memset), ('llvm.uadd.with.overflow', _ovf('add')),
    ('llvm.usub.with.overflow', _ovf('sub')), ('llvm.umul.with.overflow', _ovf('mul')),
    ('llvm.usub.sat', h_usubsat), ('llvm.uadd.sat', h_uaddsat), ('llvm.expect', h_expect),
    ('llvm.ctpop', h_ctpop), ('llvm.ctlz', h_ctlz), ('llvm.cttz', h_cttz),
    ('llvm.x86.sse2.pause', h_nop), ('llvm.trap', h_abort),
]


def h_alloc(E, st, a, ins):
    size, align = a[0], a[1]
    if is_sym(size):
        s = z3.simplify(size)
        size = s.as_long() if z3.is_bv_value(s) else s
    if is_sym(size):
        # an allocation beyond isize::MAX cannot happen; one beyond the bound of this model is cut
        if not E.truth(st, z3.ULE(size, bvv(1 << 40, 64))):
            st.outcome = ('bound', 'allocation of more than 2^40 bytes')
            return None
    elif size > 1 << 40:
        st.outcome = ('bound', 'allocation of more than 2^40 bytes')
        return None
    align = E.concretize(st, align)
    o = st.alloc(size, 'heap', align)
    st.trace.append(('alloc', o.id, size, align))
    return Ptr(o.id, 0)


def h_alloc_zeroed(E, st, a, ins):
    size = E.concretize(st, a[0])
    p = h_alloc(E, st, [size, a[1]], ins)
    o = st.wobj(p.o)
    for k in range(0, size, 1):
        o.cells[k] = (1, 0)
    return p


def h_dealloc(E, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr):
        p = E.int2ptr(st, p)
    o = st.mem.get(p.o)
    if p.o == 0 or o is None:
        raise UB('dealloc of a pointer that was not allocated')
    if o.kind not in ('heap', 'srcheap'):
        raise UB('dealloc of %s memory' % o.kind)
    if not o.live:
        raise UB('double free')
    if E.truth(st, E.icmp(st, 'ne', 64, p.f, 0)):
        raise UB('dealloc of an interior pointer')
    if E.truth(st, E.icmp(st, 'ne', 64, a[1], o.size)):
        raise UB('dealloc with wrong size')
    if E.concretize(st, a[2]) != o.align:
        raise UB('dealloc with wrong alignment')
    o = st.wobj(p.o)
    o.live = False
    st.writes += 1
    st.trace.append(('dealloc', o.id))


def h_realloc(E, st, a, ins):
    p, oldsize, align, new = a
    if not isinstance(p, Ptr) or p.o not in st.mem:
        raise UB('realloc of a bad pointer')
    o = st.mem[p.o]
    if not o.live or o.kind not in ('heap', 'srcheap'):
        raise UB('realloc of dead memory')
    if E.truth(st, E.icmp(st, 'ne', 64, oldsize, o.size)):
        raise UB('realloc with wrong size')
    new = E.concretize(st, new)
    if new > 1 << 40:
        st.outcome = ('bound', 'allocation of more than 2^40 bytes')
        return None
    olds = E.concretize(st, o.size)
    n = st.alloc(new, 'heap', o.align)
    st.trace.append(('alloc', n.id, new, o.align))
    E.memcpy(st, Ptr(n.id, 0), Ptr(o.id, 0), min(olds, new))
    o = st.wobj(p.o)
    o.live = False
    st.writes += 1
    st.trace.append(('dealloc', o.id))
    return Ptr(n.id, 0)


RUNTIME = [
    ('___rust_alloc', h_alloc), ('___rust_dealloc', h_dealloc), ('___rust_realloc', h_realloc),
    ('___rust_alloc_zeroed', h_alloc_zeroed), ('~rust_no_alloc_shim_is_unstable', h_nop),
    ('~thread6yield_now', h_nop), ('~thread9functions9yield_now', h_nop), ('~9yield_now', h_nop), ('~5sleep', h_nop),
]
