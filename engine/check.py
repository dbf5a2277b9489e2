"""Check driver: runs exploration jobs in worker processes, replays candidates, writes evidence."""
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback
import zlib
import z3
import monitor as M
import seq
import replay
from build import Builder, BuildError, VERIF
from llparse import Unsupported
from symex import Infeasible, is_sym
from seq import OpSpec, Setup

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
PROCS = int(os.environ.get('CHECK_PROCS', '0')) or min(8, os.cpu_count() or 4)


def wants(prop):
    return None if prop == 'ALL' else {prop}


# ---------------------------------------------------------------- sequential jobs
class SeqJob:
    """all histories of at most `depth` steps over the alphabet, then each of the finals"""

    def __init__(self, setup, alphabet, depth, finals=(('drop',),), dbg=False, only_full=False, prefix=()):
        self.setup = setup
        self.alphabet = alphabet        # list of (list of OpSpec)
        self.depth = depth
        self.finals = finals
        self.dbg = dbg
        self.only_full = only_full
        self.prefix = prefix            # indices of the first steps (work splitting)

    def name(self):
        return '%s %s depth %d {%s} finals {%s}' % (self.setup, 'debug' if self.dbg else 'release', self.depth,
                                                    ' '.join('+'.join(map(repr, a)) for a in self.alphabet),
                                                    ' '.join('+'.join(f) for f in self.finals))

    def split(self):
        if self.prefix or self.depth < 2:
            return [self]
        out = []
        for i in range(len(self.alphabet)):
            out.append(SeqJob(self.setup, self.alphabet, self.depth, self.finals, self.dbg, self.only_full or i > 0, (i,)))
        return out


FULL = ('sym', 0, M.M64)


def alphabet(lmax, letters, n=FULL, take=None):
    """step macros from a letter string"""
    if take is None:
        take = ('sym', 0, lmax + 1)
    out = []
    for c in letters.split():
        out.append({
            'next_id': lambda: [OpSpec('next_id')],
            'next': lambda: [OpSpec('next')],
            'chunk': lambda: [OpSpec('chunk', n=n, take=take)],
            'chunk+': lambda: [OpSpec('chunk', n=('sym', 1, n[2]), take=take)],
            'chunk_all': lambda: [OpSpec('chunk', n=('sym', 1, n[2]), take=lmax + 1)],
            'chunk0': lambda: [OpSpec('chunk', n=0, take=1)],
            'buf': lambda: [OpSpec('buf', slot=0, n=('sym', 1, n[2]), take=take)],
            'buf0': lambda: [OpSpec('buf', slot=0, n=n, take=take)],
            'bufb': lambda: [OpSpec('buf', slot=0, n=('sym', 1, min(n[2], lmax + 2)), take=take)],
            'buf2': lambda: [OpSpec('buf', slot=1, n=('sym', 1, n[2]), take=take)],
            'buf_drop': lambda: [OpSpec('buf_drop', slot=0)],
            'values': lambda: [OpSpec('values', k=2)],
            'ids': lambda: [OpSpec('ids', k=2)],
            'vals': lambda: [OpSpec('vals', slot=2)],
            'idv': lambda: [OpSpec('idv', slot=3)],
            'try_len': lambda: [OpSpec('try_len')],
            'more': lambda: [OpSpec('more')],
            'skip': lambda: [OpSpec('skip')],
            'for_each': lambda: [OpSpec('for_each', n=('sym', 1, n[2]))],
            'for_each0': lambda: [OpSpec('for_each', n=n)],
            'for_each_id': lambda: [OpSpec('for_each_id', n=('sym', 1, n[2]))],
            'fold': lambda: [OpSpec('fold', n=('sym', 1, n[2]))],
            'fold0': lambda: [OpSpec('fold', n=n)],
            'clone': lambda: [OpSpec('clone', dst=1)],
            'next_id@1': lambda: [OpSpec('next_id', it=1)],
            'chunk@1': lambda: [OpSpec('chunk', it=1, n=n, take=take)],
            'try_len@1': lambda: [OpSpec('try_len', it=1)],
            'skip@1': lambda: [OpSpec('skip', it=1)],
            'skip': lambda: [OpSpec('skip')],
        }[c]())
    return out


def expand_finals(st, f, lmax):
    """queue of operations that end a history"""
    q = []
    for s in (0, 1, 2, 3):
        if st.env.get('buf%d' % s) is not None:
            q.append(OpSpec(st.env['bk%d' % s] + '_drop', slot=s))
    for x in f:
        if x == 'drop':
            if 'it1' in st.env and not st.env.get('moved1'):
                q.append(OpSpec('drop', it=1))
            q.append(OpSpec('drop'))
        elif x == 'into_seq':
            if 'it1' in st.env and not st.env.get('moved1'):
                q.append(OpSpec('drop', it=1))
            q.append(OpSpec('into_seq', take=(lmax if lmax is not None else 3) + 2))
        elif x == 'into_seq_part':
            q.append(OpSpec('into_seq', take=('sym', 0, (lmax if lmax is not None else 3) + 1)))
        elif x == 'check':
            q.append(OpSpec('check'))
        elif x == 'fin':
            q.append(OpSpec('fin'))
        else:
            q.append(x)
    return q


MAX_WITNESSES = 150
OBS = {'item', 'end', 'chunk', 'elem', 'len', 'chunk_done', 'chunk_drop', 'trylen', 'more', 'seq_hint', 'seq', 'seq_done', 'user',
       'fold', 'foldres', 'drop', 'clone', 'probe', 'probe_panic', 'clone_panic', 'user_panic', 'probe_drop', 'op', 'ret',
       'panicked', 'obs'}


def normal(events, base, size, kind):
    """observable events with addresses made relative to the source"""
    out = []
    for e in events:
        if e[0] not in OBS:
            continue
        if e[0] in ('fold', 'foldres') and kind in M.REFS:
            continue
        out.append([e[0]] + [(['src', x - base] if isinstance(x, int) and not isinstance(x, bool) and size and base <= x < base + size
                              else list(x) if isinstance(x, tuple) else int(x) if isinstance(x, bool) else x) for x in e[1:]])
    return out


class SeqRun:
    WITNESSES = 3

    def __init__(self, job, engines, want, on_candidate, deadline, on_witness=None):
        self.on_witness = on_witness
        self.wit = {}
        self.job = job
        self.want = want
        self.on_candidate = on_candidate
        self.deadline = deadline
        self.E = engines(job.dbg)
        self.stats = dict(paths=0, histories=0, reqs=0, cut={}, unsupported={}, events={})
        self.lmax = job.setup.lmax

    def try_start(self, out, st, op):
        s = st.clone()
        try:
            seq.start_op(self.E, s, op, s.env['i'])
            s.env['i'] += 1
        except Infeasible:
            return
        out.append(s)

    def driver(self, E, st):
        env = st.env
        if 'ready' in env:
            del env['ready']
            env['level'] = 0
            env['i'] = 0
            env['queue'] = ()
            env['fin'] = False
        else:
            seq.finish_op(E, st)
        if time.time() > self.deadline:
            st.outcome = ('bound', 'time')
            return [st]
        out = []
        if env['queue']:
            q = env['queue']
            if q[0].name in ('buf_next', 'vals_next', 'idv_next') and env.get('buf%d' % q[0].slot) is None:
                env['queue'] = q = ()      # (its creation panicked)
        if env['queue']:
            s = st
            s.env['queue'] = q[1:]
            self.try_start(out, s, q[0])
            return out
        if env['fin']:
            return None
        job = self.job
        lv = env['level']
        if lv < job.depth:
            for k, step in enumerate(job.alphabet):
                if lv < len(job.prefix) and job.prefix[lv] != k:
                    continue
                ops = list(step)
                o = ops[0]
                if o.name == 'buf':
                    if env.get('buf%d' % o.slot) is None:
                        ops = [OpSpec('buf_new', slot=o.slot, n=o.n), OpSpec('buf_next', slot=o.slot, take=o.take)]
                    else:
                        ops = [OpSpec('buf_next', slot=o.slot, take=o.take)]
                elif o.name in ('vals', 'idv'):
                    ops = [OpSpec(o.name + '_next', slot=o.slot)]
                    if env.get('buf%d' % o.slot) is None:
                        ops = [OpSpec(o.name + '_new', slot=o.slot)] + ops
                elif o.name == 'buf_drop':
                    if env.get('buf%d' % o.slot) is None:
                        continue
                elif o.name == 'clone':
                    if 'it1' in env:
                        continue
                elif o.it == 1 and 'it1' not in env:
                    continue
                s = st.clone()
                s.env['level'] = lv + 1
                s.env['queue'] = tuple(ops[1:])
                self.try_start(out, s, ops[0])
        if lv == job.depth or not job.only_full or lv >= len(job.prefix) and lv > 0:
            for f in job.finals:
                s = st.clone()
                s.env['fin'] = True
                q = expand_finals(s, f, self.lmax)
                s.env['queue'] = tuple(q[1:])
                if q:
                    self.try_start(out, s, q[0])
                else:
                    out.append(s)
        return out

    def leaf(self, st):
        o = st.outcome
        self.stats['paths'] += 1
        if o is not None:
            if o[0] == 'bound':
                k = o[1]
                self.stats['cut'][k] = self.stats['cut'].get(k, 0) + 1
                return
            if o[0] == 'unsupported':
                self.stats['unsupported'][o[1]] = self.stats['unsupported'].get(o[1], 0) + 1
                return
            self.candidate(st, self.E.model_of(st), '%s: %s' % (o[0], o[1]), o[0])
            return
        src = seq.source(st)
        evs = st.trace
        sm = src_unchanged(st)
        if sm is not None:
            evs = evs + [('srcmem', sm)]
        reqs = M.sequential(src, evs, self.want)
        self.stats['reqs'] += len(reqs) + M.EVALS[0]
        M.EVALS[0] = 0
        self.stats['histories'] += 1
        for e in evs:
            self.stats['events'][e[0]] = self.stats['events'].get(e[0], 0) + 1
        sy = []
        for r in reqs:
            if r.cond is False:
                self.candidate(st, self.E.model_of(st), r.text, 'req')
                return
            if r.cond is not True:
                sy.append(r)
        if self.on_witness is not None and len(self.wit) < self.WITNESSES:
            self.witness(st)
        if not sy:
            return
        m0 = self.E.model_of(st)
        bad = None
        for r in sy:
            if not m0.val(r.cond):
                bad = (m0, r)
                break
        if bad is None:
            m = self.E.check(st, z3.Not(z3.And(*[r.cond for r in sy])))
            if m is not None:
                for r in sy:
                    if not m.val(r.cond):
                        bad = (m, r)
                        break
        if bad is not None:
            self.candidate(st, bad[0], bad[1].text, 'req')

    def witness(self, st):
        """hands over a model of this path with its observable trace, to be executed natively"""
        sig = tuple(e[2] for e in st.trace if e[0] == 'op')
        if sig in self.wit or zlib.crc32(repr((sig, self.stats['paths'], SEED)).encode()) % 5:
            return
        self.wit[sig] = 1
        m = self.E.model_of(st)
        tr = [tuple(tuple(seq.mval(m, y) for y in x) if isinstance(x, tuple) else seq.mval(m, x) for x in e) for e in st.trace
              if e[0] in OBS]
        src = seq.source(st)
        k = src.kind
        sz = st.mem[st.env['src']].size if st.env.get('src') is not None else 0
        base = src.addr if sz else 0
        c = self.describe(st, m)
        c['trace'] = normal(tr, base, sz, k)
        c['size'] = sz
        self.on_witness(c)

    def describe(self, st, m):
        ops = [(e[2], e[3], tuple(seq.mval(m, x) for x in e[4])) for e in st.trace if e[0] == 'op']
        env = {k: (seq.mval(m, v) if is_sym(v) else v) for k, v in st.env.items() if k in
               ('L', 'start', 'end', 'cap', 'probe_panic', 'clone_panic', 'user_panic', 'slack_lo', 'slack_hi')}
        lines = seq.script(self.job.setup, m, env, ops)
        return dict(mode='seq', dbg=self.job.dbg, setup=self.job.setup, L=env['L'], start=env.get('start', 0),
                    ops=ops, lines=lines, job=self.job.name())

    def candidate(self, st, m, text, cls):
        c = self.describe(st, m)
        c['text'] = text
        c['cls'] = cls
        self.on_candidate(c)

    def run(self):
        E = self.E
        n0 = (E.queries, E.solver_s, len(E.fns_used))
        for r in seq.root(E, self.job.setup):
            if r.outcome is not None:
                self.leaf_ctor(r)
                continue
            explore_safe(E, [r], self.driver, self.leaf, self.stats)
        self.stats['queries'] = E.queries - n0[0]
        self.stats['solver_s'] = E.solver_s - n0[1]
        return self.stats

    def leaf_ctor(self, st):
        st.trace.append(('op', 0, 'new', 0, ()))
        self.leaf(st)


def explore_safe(E, roots, driver, on_leaf, stats):
    """Engine.explore with unsupported paths cut and counted"""
    work = list(reversed(roots))
    while work:
        st = work.pop()
        try:
            if st.outcome is not None:
                on_leaf(st)
                continue
            if not st.frames:
                nxt = driver(E, st)
                if nxt is None:
                    on_leaf(st)
                else:
                    work.extend(reversed(nxt))
                continue
            work.extend(reversed(E.run(st)))
        except Unsupported as e:
            k = str(e)[:120]
            stats['unsupported'][k] = stats['unsupported'].get(k, 0) + 1


def src_unchanged(st):
    oid = st.env.get('src')
    k = st.env['su'].kind
    if oid is None or k == 'VS' or not (k in M.REFS or k in M.CLONED or k in M.COPIED):
        return None
    o = st.mem[oid]
    if not o.cells:
        return True
    conds = []
    for off, (n, v) in o.cells.items():
        if n != 8 or off % 8:
            return False
        conds.append(M.EQ(v, o.init(off, 8)))
    return M.AND(*conds)


# ---------------------------------------------------------------- replay of candidates
def judge_seq(c, binary, want, builder=None):
    """replays a sequential candidate; returns the list of violated requirements"""
    rc, log = replay.run(binary, c['lines'])
    evs, src = replay.events(rc, log, c['ops'])
    su = c['setup']
    S = M.Src(su.kind, c['L'], max(c['L'], 0) if c['L'] < 1000 else 0, c['start'], src[0], su.fused, su.hint)
    out = []
    fin = any(e[0] == 'op' and e[2] == 'fin' for e in evs)
    for e in evs:
        if e[0] == 'srcmem_raw':
            if su.kind == 'VS' or su.kind in M.OWNING:
                continue
            words = e[1]
            out.append(('srcmem', all(w == M.BASE + i for i, w in enumerate(words[:c['L']]))))
        elif e[0] == 'live' and e[1] == src[0] and su.kind == 'VS' and not fin:
            continue
        else:
            out.append(e)
    finished = not any(e[0] in ('hang', 'crash') for e in out)
    reqs = M.sequential(S, out, wants(want), final=finished)
    return [r.text for r in reqs if r.cond is False], log


def judge(c, binary, prop, builder):
    if c['mode'] == 'seq':
        return judge_seq(c, binary, prop)
    return c['judge'](c, binary, prop, builder)


def validate(c, binary):
    """executes a witness natively and compares the observable events with those of the symbolic path"""
    if c['mode'] != 'seq':
        return c['validate'](c, binary)
    rc, log = replay.run(binary, c['lines'])
    evs, src = replay.events(rc, log, c['ops'])
    nat = normal(evs, src[0], c['size'], c['setup'].kind)
    want = json.loads(json.dumps(c['trace']))
    nat = json.loads(json.dumps(nat))
    if nat == want:
        return None, log
    for i in range(max(len(nat), len(want))):
        x = nat[i] if i < len(nat) else None
        y = want[i] if i < len(want) else None
        if x != y:
            return 'event %d: encoding %s, native %s' % (i, y, x), log
    return None, log


# ---------------------------------------------------------------- worker pool
def worker(wid, lls, want, jobs, results, stop, deadline, runner_args):
    engines = {}

    def eng(dbg):
        if dbg not in engines:
            engines[dbg] = seq.make_engine(lls[dbg])
        return engines[dbg]
    sys.setrecursionlimit(100000)
    while not stop.is_set():
        try:
            i, job = jobs.get(timeout=0.2)
        except queue.Empty:
            continue
        if job is None:
            break
        sent = {}

        def cand(c):
            k = (c['text'], c['setup'].kind if 'setup' in c else '')
            sent[k] = sent.get(k, 0) + 1
            if sent[k] <= 6:
                results.put(('cand', i, c))
        def wit(c):
            results.put(('wit', i, c))
        t = time.time()
        try:
            if hasattr(job, 'make'):
                r = job.make(eng, want, cand, deadline, wit)
            else:
                r = SeqRun(job, eng, wants(want), cand, deadline, wit)
            st = r.run()
            st['wall'] = time.time() - t
            st['fns'] = sorted(set().union(*[e.fns_used for e in engines.values()])) if engines else []
            st['unknown'] = sum(e.unknown for e in engines.values())
            results.put(('done', i, st))
        except Exception:
            results.put(('error', i, traceback.format_exc()))


class Outcome:
    def __init__(self):
        self.violations = []
        self.unconfirmed = []
        self.ub_unseen = []
        self.stats = []
        self.errors = []
        self.replays = 0
        self.validated = 0
        self.mismatch = []
        self.samples = []


def run_jobs(prop, jobs, builder, judge, budget=600, procs=None, stop_first=True, known=None, seed=1):
    """explores all jobs; returns an Outcome"""
    out = Outcome()
    dbgs = sorted(set(d for j in jobs for d in getattr(j, 'dbgs', (j.dbg,))))
    lls = {d: builder.ir(d) for d in dbgs}
    deadline = time.time() + budget
    ctx = mp.get_context('fork')
    global SEED
    SEED = seed
    jq, rq, stop = ctx.Queue(), ctx.Queue(), ctx.Event()
    import random
    rnd = random.Random(seed)
    pool = {}
    work = []
    for j in jobs:
        work += [(j, s) for s in j.split()]
    for i, (j, s) in enumerate(work):
        jq.put((i, s))
    n = min(procs or PROCS, len(work))
    for _ in range(n):
        jq.put((-1, None))
    ps = [ctx.Process(target=worker, args=(w, lls, prop, jq, rq, stop, deadline, None), daemon=True) for w in range(n)]
    for p in ps:
        p.start()
    left = len(work)
    confirmed_stop = False
    seen = set()
    while left > 0:
        try:
            kind, i, x = rq.get(timeout=1)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                out.errors.append('worker died')
                break
            if time.time() > deadline + 120:
                out.errors.append('workers did not finish in time')
                break
            continue
        if kind == 'cand':
            key = '\n'.join(x['lines']) + str(x['dbg'])
            if key in seen:
                continue
            seen.add(key)
            texts, log = judge(x, builder.native(x['dbg']), prop, builder)
            out.replays += 1
            if texts:
                x['confirmed'] = texts
                x['log'] = log
                out.violations.append(x)
                if stop_first and (known is None or not known(x)):
                    confirmed_stop = True
                    break
            elif x['cls'] in ('ub', 'abort', 'maybe'):
                out.ub_unseen.append(x)
            else:
                x['log'] = log
                out.unconfirmed.append(x)
        elif kind == 'wit':
            pool.setdefault((work[i][0].name(), x['dbg']), []).append(x)
        elif kind == 'done':
            left -= 1
            x['job'] = work[i][0].name()
            out.stats.append(x)
        else:
            left -= 1
            out.errors.append(x)
    stop.set()
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(5)
    rq.cancel_join_thread()
    jq.cancel_join_thread()
    if not confirmed_stop:
        # a sample of the explored paths is executed on the real code
        order = []
        for k in sorted(pool, key=str):
            rnd.shuffle(pool[k])
        while any(pool.values()) and len(order) < MAX_WITNESSES:
            for k in sorted(pool, key=str):
                if pool[k] and len(order) < MAX_WITNESSES:
                    order.append(pool[k].pop())
        for x in order:
            diff, log = validate(x, builder.native(x['dbg']))
            out.validated += 1
            if len(out.samples) < 4:
                out.samples.append(dict(job=x['job'], script=x['lines'], trace=x['trace'][:60]))
            if diff is not None:
                out.mismatch.append('%s [%s]: %s' % (x['job'], '; '.join(x['lines']), diff))
    return out
