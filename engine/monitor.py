"""The reference monitor: turns a history (a list of events) into requirements, each
tagged with the property it belongs to.  The same code runs over symbolic traces
(values are z3 terms, requirements become solver queries) and over the concrete log
of a native replay (values are ints, requirements are booleans)."""
import z3

BASE = 1 << 32
CLONE = 1 << 40
M64 = (1 << 64) - 1
_C = {}


def bv(x):
    if isinstance(x, int):
        r = _C.get(x)
        if r is None:
            r = _C[x] = z3.BitVecVal(x, 64)
        return r
    return x


def sym(x):
    return isinstance(x, z3.ExprRef)


def EQ(a, b):
    if not sym(a) and not sym(b):
        return a == b
    if a is b:
        return True
    return bv(a) == bv(b)


def ULT(a, b):
    if not sym(a) and not sym(b):
        return a < b
    return z3.ULT(bv(a), bv(b))


def ULE(a, b):
    if not sym(a) and not sym(b):
        return a <= b
    return z3.ULE(bv(a), bv(b))


def ADD(a, b):
    if not sym(a) and not sym(b):
        return (a + b) & M64
    return bv(a) + bv(b)


def SUB(a, b):
    if not sym(a) and not sym(b):
        return (a - b) & M64
    return bv(a) - bv(b)


def MUL(a, k):
    if not sym(a):
        return (a * k) & M64
    return a * k


def IF(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, bv(a), bv(b))


def NOT(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def AND(*xs):
    if any(x is False for x in xs):
        return False
    ys = [x for x in xs if x is not True]
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def OR(*xs):
    if any(x is True for x in xs):
        return True
    ys = [x for x in xs if x is not False]
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)


def IMP(a, b):
    return OR(NOT(a), b)


def MIN(a, b):
    return IF(ULT(a, b), a, b)


def COUNT(conds):
    """number of true conditions: (constant, list of symbolic conditions)"""
    k = 0
    s = []
    for c in conds:
        if c is True:
            k += 1
        elif c is not False:
            s.append(c)
    return k, s


def COUNT_IS(conds, want):
    """exactly `want` (0/1/int or z3 term) of conds hold"""
    k, s = COUNT(conds)
    if not s:
        return EQ(k, want)
    t = z3.Sum([z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) for c in s] + [z3.BitVecVal(0, 8)])
    if sym(want):
        return t + k == z3.Extract(7, 0, want)
    return t == (want - k) & 255


EVALS = [0]      # requirements that were decided without the solver

class Src:
    """what the reference knows about the source"""

    def __init__(self, kind, L, lmax, start=0, addr=0, fused=True, hint=0):
        self.kind = kind
        self.L = L              # number of elements
        self.lmax = lmax
        self.start = start      # ranges
        self.addr = addr        # address of element 0 (reference yielding kinds)
        self.fused = fused
        self.hint = hint


REFS = {'S', 'VS', 'AS3', 'SC', 'RI', 'RCI'}
CLONED = {'CS', 'CI'}
COPIED = {'PS', 'PI'}
OWNING = {'V', 'VW', 'VZ', 'A0', 'A1', 'A2', 'A3', 'A4', 'AW2', 'AZ3', 'I'}
ZST = {'VZ', 'AZ3'}
ITER = {'I', 'RI', 'CI', 'RCI', 'PI'}
RANGE = {'R', 'RC'}
VECS = {'V', 'VW', 'VZ'}
ARRAYS = {'A0', 'A1', 'A2', 'A3', 'A4', 'AW2', 'AZ3'}
ESZ = {'VW': 24, 'AW2': 24, 'VZ': 0, 'AZ3': 0}


def value_at(src, pos):
    """the value of the element at a position"""
    k = src.kind
    if k in REFS:
        return ADD(src.addr, MUL(pos, 8))
    if k in CLONED:
        return ADD(BASE + CLONE, pos)
    if k in RANGE:
        return ADD(src.start, pos)
    if k in ZST:
        return 1
    return ADD(BASE, pos)


class Req:
    __slots__ = ('prop', 'cond', 'text', 'at')

    def __init__(self, prop, cond, text, at):
        self.prop = prop
        self.cond = cond
        self.text = text
        self.at = at


class Cur:
    """reference state of one iterator"""

    def __init__(self):
        self.cur = 0
        self.ended = False        # a positive pull reported the end
        self.hard_end = False     # ... through a single or one-shot chunk pull
        self.skipped = False
        self.moved = False
        self.weak = False         # a panic happened: positions may be lost
        self.last_len = None


PULLS = {'next', 'next_id', 'chunk', 'values', 'ids', 'vals_next', 'idv_next', 'buf_next', 'for_each', 'for_each_id', 'fold'}


def sequential(src, events, want, final=True):
    """requirements of a sequential history.

    events: ('op', i, name, iter, args) ... observations ... ('ret', i) | ('panicked', i, own)
    want: set of properties (None: all)
    """
    reqs = []
    L = src.L
    its = {0: Cur()}
    bufs = {}
    kind = src.kind
    op = None
    delivered = []     # values handed over by move
    given = []         # every (iter, value) delivered, for duplicates
    drops = []
    clones = []
    produced = []
    allocs = {}
    srcfree = 0
    probe_drops = 0
    panics = 0
    n_at = 0

    def need(props, cond, text):
        if cond is True:
            # (decided without the solver)
            EVALS[0] += want is None or any(p in want for p in props)
            return
        for p in props:
            if want is None or p in want:
                reqs.append(Req(p, cond, text, n_at))
        # iterators that were cloned, or are clones, must still follow their own cursor
        if len(its) > 1 and 'C19' not in props and CURSOR.intersection(props) and (want is None or 'C19' in want):
            reqs.append(Req('C19', cond, text, n_at))

    def got(c, pos_ok_idx, val, text):
        """an element arrives from a pull; c: Cur; pos_ok_idx: reported index or None"""
        need(('C05',), not c.ended, text + ': element delivered after the end was reported')
        need(('C06',), not c.skipped, text + ': element delivered after skip_to_end')
        if pos_ok_idx is not None:
            need(('C02', 'C16'), EQ(val, value_at(src, pos_ok_idx)), text + ': element is not the one at the reported index')
            need(('C02', 'C16'), ULT(pos_ok_idx, L), text + ': index beyond the source')
        if not c.weak:
            need(('C04', 'C16', 'C01'), AND(EQ(val, value_at(src, c.cur)), ULT(c.cur, L)), text + ': element is not the next of the source')
            if pos_ok_idx is not None:
                need(('C04',), EQ(pos_ok_idx, c.cur), text + ': index is not the cursor')
        if kind not in ZST and kind not in CLONED and kind not in COPIED:
            dup = [EQ(val, v) for (i, v) in given if i == c.id]
            if kind in OWNING:
                dup = [EQ(val, v) for (i, v) in given]
            need(('C01', 'C18', 'C06'), NOT(OR(*dup)) if dup else True, text + ': element delivered twice')
        given.append((c.id, val))
        delivered.append(val)

    its[0].id = 0
    chunk = None
    for e in events:
        n_at += 1
        t = e[0]
        if t == 'op':
            op = e
            _, oi, name, it, args = e
            if it not in its:
                its[it] = Cur()
                its[it].id = it
            c = its[it]
            observed_end = False
            foldsum = args[1] if name == 'fold' else None
            folded = 0
            seqn = 0
            seqstart = c.cur
            opclones = 0
            opdrops = 0
            chunk_end_ok = True
            if name == 'buf_new':
                pass
            elif name == 'clone':
                d = Cur()
                d.id = args[0]
                d.cur = c.cur
                d.ended = c.ended
                d.skipped = c.skipped
                d.hard_end = c.hard_end
                its[args[0]] = d
        elif t == 'item':
            _, has, idx, val = e
            got(c, idx if has else None, val, name)
            c.cur = ADD(c.cur, 1) if not c.weak else c.cur
        elif t == 'user':
            _, has, idx, val = e
            got(c, idx if has else None, val, name)
            need(('C12',), AND(EQ(val, value_at(src, c.cur)), ULT(c.cur, L)) if not c.weak else True, name + ': closure called on the wrong element')
            if has:
                need(('C12',), EQ(val, value_at(src, idx)), name + ': wrong index given to the closure')
            need(('C12',), not c.ended and not c.skipped, name + ': closure called after the end')
            c.cur = ADD(c.cur, 1)
        elif t == 'fold':
            _, acc, val = e
            got(c, None, val, name)
            need(('C12',), AND(EQ(val, value_at(src, c.cur)), ULT(c.cur, L)) if not c.weak else True, 'fold: called on the wrong element')
            need(('C12',), EQ(acc, foldsum), 'fold: wrong accumulator')
            foldsum = ADD(foldsum, val)
            c.cur = ADD(c.cur, 1)
        elif t == 'foldres':
            need(('C12',), EQ(e[1], foldsum), 'fold: wrong result')
        elif t == 'chunk':
            _, b, n = e
            size = bufs[args[0]][1] if name == 'buf_next' else args[0]
            chunk = [b, n, 0, size]
            need(('C03', 'C16'), NOT(EQ(n, 0)), name + ': empty chunk')
            need(('C03', 'C16'), ULE(n, size), name + ': chunk longer than requested')
            need(('C16',), NOT(EQ(size, 0)), name + ': a chunk of size zero was delivered')
            need(('C02', 'C03', 'C16'), AND(ULT(b, L), ULE(n, SUB(L, b))), name + ': chunk reaches beyond the source')
            need(('C05',), not c.ended, name + ': chunk delivered after the end was reported')
            need(('C06',), not c.skipped, name + ': chunk delivered after skip_to_end')
            if not c.weak:
                need(('C04', 'C16'), EQ(b, c.cur), name + ': chunk does not start at the cursor')
                need(('C03', 'C04'), EQ(n, MIN(size, SUB(L, b))), name + ': chunk is shorter than allowed')
                c.cur = ADD(b, n)
            else:
                need(('C03',), OR(EQ(n, size), EQ(ADD(b, n), L)), name + ': chunk is shorter than allowed') if panics == 0 else None
        elif t == 'elem':
            b, n, i, size = chunk
            val = e[1]
            need(('C02', 'C03', 'C16'), EQ(val, value_at(src, ADD(b, i))), name + ': chunk element is not at begin index + offset')
            need(('C03', 'C16'), ULT(i, n), name + ': chunk yields more elements than announced')
            if kind not in ZST and kind not in CLONED and kind not in COPIED:
                dup = [EQ(val, v) for (ii, v) in given if ii == c.id or kind in OWNING]
                need(('C01', 'C18', 'C06'), NOT(OR(*dup)) if dup else True, name + ': element delivered twice')
            given.append((c.id, val))
            delivered.append(val)
            chunk[2] += 1
        elif t == 'len':
            need(('C03',), EQ(e[1], SUB(chunk[1], chunk[2])), name + ': announced remaining length is wrong')
        elif t == 'chunk_done':
            need(('C03',), EQ(chunk[1], chunk[2]), name + ': chunk yields fewer elements than announced')
        elif t == 'chunk_drop':
            chunk = None
        elif t == 'end':
            zero = name == 'chunk' and args[0] == 0
            zc = EQ(args[0], 0) if name == 'chunk' else False
            if zc is not True:
                if not c.weak and not c.ended and not c.skipped:
                    need(('C04', 'C01', 'C16'), OR(zc, ULE(L, c.cur)), name + ': end reported before the source is exhausted')
                if zc is False:
                    c.ended = True
                    if name in ('next', 'next_id', 'chunk', 'values', 'ids', 'vals_next', 'idv_next'):
                        c.hard_end = True
        elif t == 'trylen':
            _, some, n = e
            known = kind not in ITER or src.hint == 0
            if known and not c.weak:
                need(('C11',), bool(some), 'try_get_len: unknown for a known-size iterator')
            if some:
                if not c.weak:
                    rem = 0 if (c.skipped or c.ended) else SUB(L, c.cur)
                    need(('C11',), EQ(n, rem), 'try_get_len: not the number of remaining elements')
                if c.last_len is not None:
                    need(('C11',), ULE(n, c.last_len), 'try_get_len: increased')
                c.last_len = n
                if c.ended:
                    need(('C05',), EQ(n, 0), 'try_get_len: positive after the end was reported')
                if c.skipped:
                    need(('C06',), EQ(n, 0), 'try_get_len: positive after skip_to_end')
        elif t == 'more':
            _, tag, n = e
            known = kind not in ITER or src.hint == 0
            if not c.weak:
                rem = 0 if (c.skipped or c.ended) else SUB(L, c.cur)
                if tag == 0:
                    need(('C11',), EQ(rem, 0), 'has_more: No although elements remain')
                elif tag == 1:
                    need(('C11',), AND(EQ(n, rem), NOT(EQ(rem, 0))), 'has_more: Yes with a wrong count')
                else:
                    need(('C11',), not known, 'has_more: Maybe for a known-size source')
            if c.hard_end:
                need(('C11',), tag == 0, 'has_more: not No after a pull reported the end')
            if c.ended and tag == 1:
                need(('C05',), EQ(n, 0), 'has_more: Yes after the end was reported')
            if c.skipped:
                need(('C06',), tag == 0, 'has_more: not No after skip_to_end')
        elif t == 'seq':
            val = e[1]
            # (what remains of a source that resumes after its end is not defined)
            if not c.weak and (src.fused or not c.ended and not c.skipped):
                if c.skipped:
                    if seqn == 0:
                        seqbase = val
                        # a suffix: starts somewhere in [cur, L)
                        if kind in ZST:
                            pass
                        else:
                            need(('C10',), OR(*[AND(EQ(val, value_at(src, k)), ULE(c.cur, k), ULT(k, L)) for k in range(src.lmax)])
                                 if not sym(src.start) else True, 'into_seq_iter: remainder after skip_to_end is not a suffix')
                    elif kind not in ZST:
                        step = 8 if kind in REFS else 1
                        need(('C10',), EQ(val, ADD(seqbase, step * seqn)), 'into_seq_iter: remainder is not consecutive')
                else:
                    need(('C10', 'C16'), AND(EQ(val, value_at(src, ADD(c.cur, seqn))), ULT(ADD(c.cur, seqn), L)),
                         'into_seq_iter: not the undelivered elements in order')
            if kind in OWNING and kind not in ZST:
                dup = [EQ(val, v) for (i, v) in given]
                need(('C10', 'C18', 'C08'), NOT(OR(*dup)) if dup else True, 'into_seq_iter: delivered element yielded again')
            given.append((c.id, val))
            delivered.append(val)
            seqn += 1
        elif t == 'seq_done':
            if not c.weak and src.fused:
                if c.skipped:
                    if seqn and kind not in ZST:
                        need(('C10',), EQ(val, value_at(src, SUB(L, 1))), 'into_seq_iter: remainder after skip_to_end is not a suffix')
                else:
                    need(('C10', 'C16'), EQ(ADD(c.cur, seqn), L), 'into_seq_iter: elements are missing')
        elif t == 'probe':
            if e[2] is not None and e[2] >= 0:
                produced.append(e[2])
        elif t == 'drop':
            drops.append(e[1])
        elif t == 'clone':
            clones.append(e[1])
            if kind in CLONED:
                need(('C13',), OR(*[EQ(e[1], BASE + k) for k in range(src.lmax)]) if src.lmax else True, 'clone of something that is not an element')
        elif t == 'probe_drop':
            probe_drops += 1
        elif t in ('probe_panic', 'clone_panic', 'user_panic'):
            panics += 1
            c.weak = True
        elif t == 'alloc':
            allocs[e[1]] = True
        elif t == 'dealloc':
            if e[1] in allocs:
                allocs[e[1]] = False
            else:
                srcfree += 1
        elif t == 'panicked':
            _, oi, own = e
            if not own:
                if name in ('buf_new', 'for_each', 'for_each_id', 'fold'):
                    size = args[1] if name == 'buf_new' else args[0]
                    need(('C16', 'C09', 'C12', 'C17'), EQ(size, 0), name + ': panics')
                else:
                    need(('C16', 'C09', 'C17', 'C01', 'C04', 'C05', 'C06', 'C10', 'C11'), False, name + ': panics')
                if panics == 0:
                    c.weak = True
        elif t == 'ret':
            if name in ('for_each', 'for_each_id', 'fold', 'buf_new'):
                size = args[1] if name == 'buf_new' else args[0]
                need(('C16',), NOT(EQ(size, 0)), name + ': chunk size zero does not panic')
            if name in ('for_each', 'for_each_id', 'fold'):
                if not c.weak and not c.ended and not c.skipped:
                    need(('C12', 'C01'), EQ(c.cur, L), name + ': returned before every element was visited')
                c.ended = True
            elif name == 'buf_new':
                bufs[args[0]] = (it, args[1])
            elif name == 'skip':
                c.skipped = True
            elif name in ('drop', 'into_seq'):
                c.moved = True
        elif t == 'obs':
            if e[1] == 1:
                need(('C19',), AND(EQ(e[2], src.addr), EQ(e[3], L)), 'the borrowed vector changed')
            else:
                need(('C19',), EQ(e[3], ADD(BASE, e[2])), 'an element of the borrowed vector changed')
        elif t == 'live':
            need(('C15',), False, 'memory is never released')
        elif t == 'srcmem':
            if kind in REFS or kind in CLONED or kind in COPIED:
                need(('C19', 'C13'), e[1], 'the source memory changed')
        elif t == 'badfree':
            need(('C08', 'C15', 'C17', 'C19'), EQ(e[1], 0), 'memory released wrongly')
        elif t in ('overlap', 'race'):
            need(('C07',), False, 'wrapped iterator used without synchronisation')
        elif t == 'hang':
            need(('C09', 'C18', 'C12'), False, 'a call never returns')
        elif t == 'crash':
            need(ALL, False, 'the process crashed: %s' % (e[1],))
    if final:
        ledger(src, need, delivered, drops, clones, produced, probe_drops, allocs, srcfree, events)
    return reqs


ALL = tuple('C%02d' % i for i in range(1, 20))
CURSOR = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C11'}
LEDGER_PROPS = ('C08', 'C18')


def ledger(src, need, delivered, drops, clones, produced, probe_drops, allocs, srcfree, events):
    kind = src.kind
    L = src.L
    if kind in OWNING and kind not in ZST:
        every = delivered + drops
        if kind == 'I':
            for k in sorted(set(produced)):
                need(LEDGER_PROPS, COUNT_IS([EQ(v, BASE + k) for v in every], produced.count(k)),
                     'element %d is not moved out or dropped exactly once' % k)
            for v in every:
                need(LEDGER_PROPS, OR(*[EQ(v, BASE + k) for k in set(produced)]), 'a value that never existed is delivered or dropped')
        else:
            for k in range(src.lmax):
                need(LEDGER_PROPS, COUNT_IS([EQ(v, BASE + k) for v in every], IF(ULT(k, L), 1, 0)),
                     'element %d is not moved out or dropped exactly once' % k)
            for v in every:
                need(LEDGER_PROPS, AND(ULE(BASE, v), ULT(v, ADD(BASE, L))), 'a value that never existed is delivered or dropped')
    elif kind in ZST:
        n = len([v for v in delivered]) + len(drops)
        need(LEDGER_PROPS, EQ(n, L), 'zero-sized elements are not moved out or dropped exactly once')
    elif kind in CLONED:
        every = delivered + drops
        ids = []
        for v in clones:
            if not any(v is w or (not sym(v) and not sym(w) and v == w) for w in ids):
                ids.append(v)
        for v in every:
            need(LEDGER_PROPS + ('C13', 'C19'), OR(*[EQ(v, ADD(w, CLONE)) for w in ids]), 'something that is not a clone is delivered or dropped')
        for k in range(src.lmax):
            ks = [EQ(w, BASE + k) for w in clones]
            a, s = COUNT(ks)
            if not s:
                need(LEDGER_PROPS, COUNT_IS([EQ(v, BASE + CLONE + k) for v in every], a), 'clone of element %d is not released exactly once' % k)
    elif kind in REFS or kind in COPIED:
        if kind not in ('VS',):
            need(('C19', 'C13'), not drops, 'a source element was dropped')
        need(('C19', 'C13'), not clones, 'a source element was cloned')
        if kind == 'VS' and any(e[0] == 'op' and e[2] == 'fin' for e in events):
            for k in range(src.lmax):
                need(('C19',), COUNT_IS([EQ(v, BASE + k) for v in drops], IF(ULT(k, L), 1, 0)),
                     'element %d of the borrowed vector is not dropped exactly once' % k)
    if kind in ITER:
        need(LEDGER_PROPS + ('C15',), probe_drops == 1, 'the wrapped iterator is not dropped exactly once')
    need(('C15',), not any(allocs.values()), 'memory allocated by the machinery is never released')
