"""Requirements of a concurrent history.  Works on symbolic histories (values are z3 terms,
`before` returns z3 conditions) and on native logs (everything concrete)."""
import monitor as M
from monitor import AND, OR, NOT, IMP, EQ, ULT, ULE, ADD, SUB, MUL, IF, value_at, Req, COUNT, COUNT_IS

STEP = {k: 8 for k in M.REFS}
PULL1 = ('next', 'next_id', 'chunk', 'values', 'ids', 'vals_next', 'idv_next', 'buf_next', 'for_each', 'for_each_id', 'fold')


class Deliv:
    """values [lo, hi) of consecutive positions handed over by an operation"""
    __slots__ = ('op', 'lo', 'hi', 'k')

    def __init__(self, op, lo, hi, k):
        self.op = op
        self.lo = lo
        self.hi = hi
        self.k = k


def concurrent(src, ops, want, before, pre_allocs=(), quiescent=True, extra=(), final=True, pre_probe=0, stuck=False, tail=()):
    """requirements of a history.

    ops: COp list (prologue, threads, epilogue); before(a, b): op a returned before op b started;
    extra: further events (races, hangs, ledger facts of a native run); quiescent: all operations ended"""
    reqs = []
    kind = src.kind
    L = src.L
    step = STEP.get(kind, 1)
    zst = kind in M.ZST
    adapt = ('C13',) if kind in M.CLONED or kind in M.COPIED else ()
    CUR = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C11'}

    def need(props, cond, text):
        if cond is True:
            # (decided without the solver)
            M.EVALS[0] += want is None or any(p in want for p in props)
            return
        for p in props:
            if want is None or p in want:
                reqs.append(Req(p, cond, text, 0))
        if adapt and CUR.intersection(props) and 'C13' not in props and (want is None or 'C13' in want):
            reqs.append(Req('C13', cond, text, 0))

    panics = any(e[0] in ('probe_panic', 'clone_panic', 'user_panic') for o in ops for e in o.obs)
    skips = [o for o in ops if o.name == 'skip' and o.out == 'ret']
    anyskip = any(o.name == 'skip' for o in ops)
    deliv = []       # Deliv
    delivered = []   # every value handed over
    drops, clones = [], []
    nprod = 0
    probe_drops = 0
    ends = []        # (op, hard)
    lens = []        # (op, n) reported lengths
    nos = []         # ops that said No or length zero
    remainder = None
    allocs = {i: True for i in pre_allocs}
    srcfree = 0
    sizes = {}
    for o in ops:
        name, args = o.name, o.args
        chunk = None
        last = None
        nd = 0
        pending_end = False
        foldsum = args[1] if name == 'fold' else None
        for e in o.obs:
            t = e[0]
            if t == 'item' or t == 'user':
                _, has, idx, val = e
                if has:
                    need(('C02', 'C12') if t == 'user' else ('C02',), AND(EQ(val, value_at(src, idx)), ULT(idx, L)),
                         name + ': element is not the one at the reported index')
                if not zst:
                    deliv.append(Deliv(o, val, ADD(val, step), nd))
                elif has:
                    deliv.append(Deliv(o, idx, ADD(idx, 1), nd))
                nd += 1
                delivered.append(val)
            elif t == 'fold':
                _, acc, val = e
                need(('C12',), EQ(acc, foldsum), 'fold: wrong accumulator')
                foldsum = ADD(foldsum, val)
                if not zst:
                    deliv.append(Deliv(o, val, ADD(val, step), nd))
                nd += 1
                delivered.append(val)
            elif t == 'foldres':
                need(('C12',), EQ(e[1], foldsum), 'fold: wrong result')
            elif t == 'chunk':
                _, b, n = e
                size = sizes.get((o.t, args[0])) if name == 'buf_next' else args[0]
                chunk = [b, n, 0, size]
                need(('C03',), NOT(EQ(n, 0)), name + ': empty chunk')
                need(('C03',), ULE(n, size), name + ': chunk longer than requested')
                need(('C02', 'C03'), AND(ULT(b, L), ULE(n, SUB(L, b))), name + ': chunk reaches beyond the source')
                if not panics:
                    need(('C03',), OR(EQ(n, size), EQ(ADD(b, n), L)), name + ': chunk is shorter than allowed')
                if zst:
                    deliv.append(Deliv(o, b, ADD(b, n), nd))
                else:
                    deliv.append(Deliv(o, value_at(src, b), value_at(src, ADD(b, n)), nd))
                nd += 1
            elif t == 'elem':
                b, n, i, size = chunk
                need(('C02', 'C03'), EQ(e[1], value_at(src, ADD(b, i))), name + ': chunk element is not at begin index + offset')
                need(('C03',), ULT(i, n), name + ': chunk yields more elements than announced')
                delivered.append(e[1])
                chunk[2] += 1
            elif t == 'len':
                need(('C03',), EQ(e[1], SUB(chunk[1], chunk[2])), name + ': announced remaining length is wrong')
            elif t == 'chunk_done':
                need(('C03',), EQ(chunk[1], chunk[2]), name + ': chunk yields fewer elements than announced')
            elif t == 'end':
                if name == 'chunk' and EQ(args[0], 0) is not False:
                    z = EQ(args[0], 0)
                    if z is True:
                        continue
                ends.append((o, name in ('next', 'next_id', 'chunk', 'values', 'ids', 'vals_next', 'idv_next')))
            elif t == 'trylen':
                _, some, n = e
                if some:
                    lens.append((o, n))
                    need(('C11',), ULE(n, L), 'try_get_len: more than the source has')
                    nos.append((o, EQ(n, 0)))
                elif kind not in M.ITER or src.hint == 0:
                    need(('C11',), False, 'try_get_len: unknown for a known-size iterator')
            elif t == 'more':
                _, tag, n = e
                if tag == 0:
                    lens.append((o, 0))
                    nos.append((o, True))
                elif tag == 1:
                    lens.append((o, n))
                    need(('C11',), AND(NOT(EQ(n, 0)), ULE(n, L)), 'has_more: Yes with an impossible count')
                elif kind not in M.ITER or src.hint == 0:
                    need(('C11',), False, 'has_more: Maybe for a known-size source')
            elif t == 'seq':
                if remainder is None:
                    remainder = []
                remainder.append(e[1])
                delivered.append(e[1])
            elif t == 'seq_done':
                if remainder is None:
                    remainder = []
            elif t == 'probe':
                if not (isinstance(e[2], int) and e[2] < 0):
                    nprod += 1
            elif t == 'drop':
                drops.append(e[1])
            elif t == 'clone':
                clones.append(e[1])
            elif t == 'probe_drop':
                probe_drops += 1
            elif t == 'alloc':
                allocs[e[1]] = True
            elif t == 'dealloc':
                if e[1] in allocs:
                    allocs[e[1]] = False
                else:
                    srcfree += 1
        if o.out == 'panicked' and not o.own:
            need(('C09', 'C12', 'C17', 'C18', 'C01', 'C04', 'C05', 'C06'), False, name + ': panics')
        if o.out == 'ret' and name in ('for_each', 'for_each_id', 'fold'):
            ends.append((o, False))
        if name == 'buf_new':
            sizes[(o.t, args[0])] = args[1]
    for e in tail:
        # (drops and releases outside of any operation)
        if e[0] == 'drop':
            drops.append(e[1])
        elif e[0] == 'probe_drop':
            probe_drops += 1
    pulls = [o for o in ops if o.name in PULL1]
    # ------------------------------------------------------------ exactly once
    nodup = ('C01', 'C12', 'C18') + (('C06',) if anyskip else ())
    for i, a in enumerate(deliv):
        if zst:
            need(('C02',), ULE(a.hi, L), a.op.name + ': position beyond the source')
        elif kind not in M.ITER or True:
            need(('C02', 'C01'), AND(ULE(value_at(src, 0), a.lo), ULE(a.hi, value_at(src, L))),
                 a.op.name + ': an element that is not of the source')
        for b in deliv[:i]:
            need(nodup, OR(ULE(a.hi, b.lo), ULE(b.hi, a.lo)), '%s and %s: element delivered twice' % (b.op.name, a.op.name))
            # ---------------------------------------------------- order
            o = 'C04'
            txt = 'positions are not delivered in order'
            pr = (o, 'C06') if anyskip else (o,)
            if a.op is b.op:
                need(pr, ULE(b.hi, a.lo), '%s: %s' % (a.op.name, txt))
            else:
                x = before(b.op, a.op)
                if x is not False:
                    need(pr, IMP(x, ULE(b.hi, a.lo)), '%s, %s: %s' % (b.op.name, a.op.name, txt))
                y = before(a.op, b.op)
                if y is not False:
                    need(pr, IMP(y, ULE(a.hi, b.lo)), '%s, %s: %s' % (a.op.name, b.op.name, txt))

    def covered(p):
        v = p if zst else value_at(src, p)
        return OR(*[AND(ULE(d.lo, v), ULT(v, d.hi)) for d in deliv]) if deliv else False

    nopos = zst and any(o.name in ('next', 'values', 'vals_next', 'for_each', 'fold') for o in pulls)
    if quiescent and not panics and not nopos:
        cov = [covered(p) for p in range(L)]
        for p in range(L - 1):
            need(('C04', 'C01'), IMP(cov[p + 1], cov[p]), 'position %d is delivered but not position %d' % (p + 1, p))
        if not anyskip:
            # an end report means that everything is delivered once no pull is in flight
            for o, _ in ends:
                z = EQ(o.args[0], 0) if o.name == 'chunk' else False
                txt = '%s reported the end, but an element is never delivered' % o.name
                for p in range(L):
                    need(('C01', 'C12') if o.name in ('for_each', 'for_each_id', 'fold') else ('C01', 'C04'), OR(z, cov[p]), txt)
                break
        # ------------------------------------------------ remainder
        if remainder is not None:
            vs = remainder
            for a, b in zip(vs, vs[1:]):
                need(('C10',), EQ(b, ADD(a, step)), 'into_seq_iter: remainder is not consecutive')
            if not zst and (not ends or src.fused):
                inrem = [OR(*[EQ(v, value_at(src, p)) for v in vs]) if vs else False for p in range(L)]
                for v in vs:
                    need(('C10',), OR(*[EQ(v, value_at(src, p)) for p in range(L)]) if L else False, 'into_seq_iter: an element that is not of the source')
                for p in range(L):
                    need(('C10', 'C08'), NOT(AND(inrem[p], cov[p])), 'into_seq_iter: delivered element yielded again')
                    if not anyskip:
                        need(('C10',), OR(inrem[p], cov[p]), 'into_seq_iter: undelivered element missing')
                    elif vs and p == L - 1:
                        need(('C10',), inrem[p], 'into_seq_iter: remainder after skip_to_end is not a suffix')
        # ------------------------------------------------ truthful at quiescence
        for o in ops:
            if not o.epi:
                continue
            for e in o.obs:
                if e[0] not in ('trylen', 'more'):
                    continue
                # what was delivered before this query
                parts = [d for d in deliv if before(d.op, o) is True]
                n = 0
                for d in parts:
                    n = ADD(n, SUB(d.hi, d.lo))
                if kind in M.REFS:
                    tot = 8 * L
                else:
                    tot = L
                over = OR(*[True for (x, _) in ends if before(x, o) is True and x.name != 'chunk'] +
                          [NOT(EQ(x.args[0], 0)) for (x, _) in ends if before(x, o) is True and x.name == 'chunk'] +
                          [True for x in skips if before(x, o) is True])
                rem = IF(over, 0, SUB(tot, n)) if over is not False else SUB(tot, n)
                hard = OR(*[True for (x, h) in ends if h and before(x, o) is True and x.name != 'chunk'] +
                          [NOT(EQ(x.args[0], 0)) for (x, h) in ends if h and before(x, o) is True and x.name == 'chunk'] +
                          [True for x in skips if before(x, o) is True])
                if e[0] == 'trylen':
                    if e[1]:
                        need(('C11',), EQ(MUL(e[2], step), rem), 'try_get_len: not the number of remaining elements')
                elif e[1] == 0:
                    need(('C11',), EQ(rem, 0), 'has_more: No although elements remain')
                elif e[1] == 1:
                    need(('C11',), AND(EQ(MUL(e[2], step), rem), NOT(EQ(rem, 0))), 'has_more: Yes with a wrong count')
                if e[0] == 'more' and e[1] != 0:
                    need(('C11',), NOT(hard), 'has_more: not No after a pull reported the end')
    # ------------------------------------------------------------ permanence
    dops = {}
    for d in deliv:
        dops[id(d.op)] = d.op
    for o, hard in ends:
        z = EQ(o.args[0], 0) if o.name == 'chunk' else False
        for d in dops.values():
            if d is o:
                continue
            b = before(o, d)
            if b is not False:
                need(('C05',), OR(z, NOT(b)), '%s delivers after %s reported the end' % (d.name, o.name))
        for q, n in lens:
            b = before(o, q)
            if b is not False:
                need(('C05',), OR(z, NOT(b), EQ(n, 0)), '%s: positive after %s reported the end' % (q.name, o.name))
    for s in skips:
        for d in dops.values():
            b = before(s, d)
            if b is not False:
                need(('C06',), NOT(b), '%s delivers after skip_to_end' % d.name)
        for q in ops:
            for e in q.obs:
                b = before(s, q)
                if b is False:
                    continue
                if e[0] == 'more' and e[1] != 0:
                    need(('C06', 'C11'), NOT(b), 'has_more: not No after skip_to_end')
                if e[0] == 'trylen' and e[1]:
                    need(('C06', 'C11'), OR(NOT(b), EQ(e[2], 0)), 'try_get_len: positive after skip_to_end')
    # ------------------------------------------------------------ definitive, monotone
    for o, z in nos:
        if z is False:
            continue
        for d in dops.values():
            b = before(o, d)
            if b is not False:
                need(('C11',), NOT(AND(z, b)), '%s delivers after %s denied it' % (d.name, o.name))
    for i, (a, n) in enumerate(lens):
        for b, m in lens:
            if a is b:
                continue
            x = before(a, b)
            if x is not False:
                need(('C11',), IMP(x, ULE(m, n)), 'a reported length increased')
    # ------------------------------------------------------------ ledger
    if final and quiescent:
        def need2(props, cond, text):
            need(props, cond, text)
        produced = list(range(pre_probe, pre_probe + nprod)) if False else list(range(nprod))
        evs = []
        M.ledger(src, need2, delivered, drops, clones, produced, probe_drops, allocs, srcfree, evs)
    for e in extra:
        t = e[0]
        if t == 'race' or t == 'overlap':
            need(('C07',), False, 'shared memory or the wrapped iterator is used by two threads without synchronisation')
        elif t == 'hang':
            need(('C09', 'C18', 'C12'), False, 'a call never returns')
        elif t == 'crash':
            need(M.ALL, False, 'the process crashed: %s' % (e[1],))
        elif t == 'live':
            need(('C15',), False, 'memory is never released')
        elif t == 'srcmem':
            if kind in M.REFS or kind in M.CLONED or kind in M.COPIED:
                need(('C19', 'C13'), e[1], 'the source memory changed')
        elif t == 'badfree':
            need(('C08', 'C15', 'C17', 'C19'), EQ(e[1], 0), 'memory released wrongly')
    return reqs
