"""What each property's check explores, per tier."""
import check
import monitor as M
from check import SeqJob, alphabet, FULL
from product import ProductJob
from seq import Setup, OpSpec
from conc import ConcJob

DROP = (('drop',),)
BOTH = (('drop',), ('into_seq',))
ALLF = (('drop',), ('into_seq',), ('into_seq_part',))
INTO = (('into_seq',),)
VSF = (('drop', 'check', 'fin'),)


NOT_APPLICABLE = {}
CONC = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C17', 'C18'}
TECHNIQUE = {}
NOTES = {}


class Conf:
    def __init__(self, jobs, bounds, assumptions=(), budget=600, custom=None):
        self.jobs = jobs
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.budget = budget
        self.custom = custom


def J(kind, letters, depth=2, finals=DROP, L=3, n=FULL, take=None, dbg=False, only_full=False, **kw):
    """sequential job(s); kind may list several"""
    out = []
    for k in kind.split():
        lm = None if k in M.RANGE and L is None else max(L or 3, int(k[-1]) if k in M.ARRAYS else 0)
        f = VSF if k == 'VS' else finals
        ls = letters
        if k not in ('S', 'VS', 'AS3', 'SC', 'R', 'RC'):
            ls = ' '.join(x for x in ls.split() if x != 'clone' and '@1' not in x)
        if kw.get('fused') is False:
            f = DROP
        out.append(SeqJob(Setup(k, lm, **kw), alphabet(lm if lm is not None else 3, ls, n, take), depth, f, dbg, only_full))
    return out


def PJ(kind, letters, depth=2, finals=DROP, L=3, n=FULL, take=None, mode='build', other=None, dbg=False, **kw):
    out = []
    for k in kind.split():
        lm = None if k in M.RANGE and L is None else max(L or 3, int(k[-1]) if k in M.ARRAYS else 0)
        f = VSF if k == 'VS' else finals
        ls = letters
        if k not in ('S', 'VS', 'AS3', 'SC', 'R', 'RC'):
            ls = ' '.join(x for x in ls.split() if x != 'clone' and '@1' not in x)
        out.append(ProductJob(Setup(k, lm, **kw), alphabet(lm if lm is not None else 3, ls, n, take), depth, f, mode, other, dbg))
    return out


SMALL = ('sym', 0, 5)
REFK = 'S AS3 VS'
OWNK = 'V A0 A1 A3 I'
ITERK = 'I RI CI RCI PI'


def seq_jobs(p, quick):
    q = quick
    d = 2 if q else 3
    if p in ('C01', 'C02', 'C03', 'C04'):
        jobs = J('S V A3 I CS CI', 'next_id chunk buf ids', 2, DROP, n=SMALL)
        jobs += J('R', 'next_id chunk buf', 2, DROP, L=3, n=SMALL)
        jobs += J('RI PS PI VW A1', 'next_id chunk buf', 2, DROP, n=SMALL)
        jobs += J('S V A2 I R', 'vals idv next_id', 3, DROP, L=3, only_full=True)
        jobs += J('CS CI PS PI RI', 'vals idv next_id', 2, DROP, L=2)
        if p == 'C03':
            jobs += J('S V I', 'buf next_id', 3, DROP, L=4, n=SMALL, only_full=True)
        if not q:
            jobs += J('S V A4 I', 'next chunk buf buf2 values buf_drop', 3, DROP, L=4, n=('sym', 0, 6))
            jobs += J('R', 'next chunk buf ids', 3, DROP, L=4, n=SMALL)
            jobs += J('CS CI PS PI RI', 'next chunk buf ids', 3, DROP, L=3, n=SMALL)
            jobs += J(ALLK, 'vals idv next chunk skip', 3, BOTH, L=3, n=SMALL)
        return jobs
    if p == 'C05':
        jobs = J('S V A1 CS', 'next_id chunk buf try_len more for_each', 2, DROP, L=1)
        jobs += J('R', 'next_id chunk buf try_len', 2, DROP, L=2)
        for h in (0, 1):
            for fu in (True, False):
                jobs += J('I', 'next_id chunk buf try_len more fold', 2 if q else 3, DROP, L=1, hint=h, fused=fu)
        jobs += J('S V I', 'next_id chunk buf more', 3, DROP, L=1, n=('sym', 0, M.M64), only_full=True)
        jobs += J('S V A1 R I', 'vals idv next_id', 3, DROP, L=1, only_full=True)
        jobs += J('I', 'vals idv next_id', 3, DROP, L=1, fused=False, only_full=True)
        if not q:
            jobs += J('S V A2 CS PS', 'next_id chunk buf try_len more values', 3, DROP, L=2)
            jobs += J('R', 'next_id chunk more', 3, DROP, L=2)
            jobs += J('CI RI PI', 'next_id chunk buf more', 3, DROP, L=2, fused=False)
            jobs += J('S V I', 'next_id chunk buf', 4, DROP, L=1, only_full=True)
        return jobs
    if p == 'C06':
        jobs = J('S V A2 CS I', 'next_id chunk skip buf more', 2, DROP, L=2)
        jobs += J('R', 'next_id chunk skip more', 2, DROP, L=2)
        jobs += J('S V A2 I R', 'next_id chunk skip', 3, DROP, L=2, n=('sym', 0, M.M64), only_full=True)
        jobs += J('I', 'next_id chunk skip', 3, DROP, L=2, n=SMALL, fused=False, only_full=True)
        jobs += J('S V A2 I R', 'vals idv skip', 3, DROP, L=2, only_full=True)
        if not q:
            jobs += J('S V A3 CS PS I CI PI RI', 'next_id chunk buf skip try_len more', 3, DROP, L=2)
            jobs += J('R', 'next_id chunk buf skip try_len more', 3, DROP, L=2, n=SMALL)
            jobs += J('S V I', 'next_id chunk skip for_each', 4, DROP, L=2, n=SMALL, only_full=True)
        return jobs
    if p in ('C08', 'C15'):
        jobs = J('V I', 'next_id chunk buf skip', 2, ALLF, L=3, n=SMALL)
        jobs += J('VW VZ A0 A1 A3 AW2 AZ3', 'next_id chunk buf skip', 2, ALLF, L=2, n=SMALL)
        jobs += J('V A2 I', 'values for_each fold for_each_id', 1, ALLF, L=3, n=SMALL)
        jobs += J('I', 'buf next_id', 3, BOTH, L=3, n=('sym', 0, 3), only_full=True)
        jobs += J('V A2 I', 'vals idv chunk', 2, ALLF, L=2, n=SMALL)
        if p == 'C15':
            jobs += J('CS CI', 'next_id chunk buf', 2, DROP, L=2, n=SMALL)
        if not q:
            jobs += J('V VW A3 I', 'next_id chunk buf buf2 skip buf_drop', 3, ALLF, L=3, n=SMALL)
            jobs += J('VZ AZ3 AW2 A4', 'next_id chunk buf skip', 3, ALLF, L=3, n=SMALL)
            jobs += J('V A3 I', 'next_id values for_each fold skip', 3, ALLF, L=3, n=SMALL)
            jobs += J('V I A3', 'next_id chunk buf skip', 2, ALLF, L=3, n=SMALL, dbg=True)
            jobs += J('CI CS', 'next_id chunk buf skip for_each', 3, BOTH, L=3, n=SMALL)
        return jobs
    if p == 'C10':
        jobs = J('S V A3 I CS RI', 'next_id chunk buf skip', 2, INTO, L=3, n=SMALL)
        jobs += J('VW VZ A0 A1 AZ3 PS CI PI', 'next_id chunk skip', 2, INTO, L=2, n=FULL)
        jobs += J('R', 'next_id chunk skip', 2, INTO, L=3, n=SMALL)
        jobs += J('V I', 'next_id chunk skip', 3, INTO, L=2, n=SMALL, only_full=True)
        jobs += J('S V A2 I R', 'vals idv next_id', 2, INTO, L=2)
        if not q:
            jobs += J('S V A4 I', 'next_id chunk buf skip values', 3, INTO, L=4, n=('sym', 0, 6))
            jobs += J('R RC', 'next_id chunk buf skip', 3, INTO, L=3, n=SMALL)
            jobs += J('CS PS CI PI RI AS3 SC AW2 VW', 'next_id chunk buf skip for_each', 3, INTO, L=2, n=SMALL)
        return jobs
    if p == 'C11':
        jobs = J('S V A2 CS', 'next_id chunk skip try_len more', 3, DROP, L=2, n=('sym', 0, 4), only_full=True)
        jobs += J('R', 'next_id chunk skip try_len more', 2, DROP, L=3, n=SMALL)
        for h in (0, 1, 3, 4):
            jobs += J('I', 'next_id chunk skip try_len more', 3, DROP, L=2, n=('sym', 0, 4), hint=h, only_full=True)
        jobs += J('I PI', 'buf for_each more try_len', 2, DROP, L=2, n=SMALL)
        jobs += J('S V', 'buf for_each more try_len', 2, DROP, L=2, n=FULL)
        jobs += J('S V A2 R I', 'vals idv more try_len', 2, DROP, L=2)
        jobs += J('I', 'next_id chunk more try_len', 2, DROP, L=2, n=SMALL, fused=False)
        if not q:
            jobs += J('S V A3 PS', 'next_id chunk buf skip try_len more for_each', 3, DROP, L=3, n=FULL)
            jobs += J('R', 'next_id chunk buf skip try_len more', 3, DROP, L=3, n=SMALL)
            for h in (0, 1, 3, 4):
                for fu in (True, False):
                    jobs += J('I CI', 'next_id chunk buf skip try_len more', 3, DROP, L=2, n=SMALL, hint=h, fused=fu)
        return jobs
    if p == 'C12':
        jobs = J('S V A3 I CI', 'for_each for_each_id fold next_id', 2, DROP, L=3, n=SMALL)
        jobs += J('R', 'for_each for_each_id fold next_id', 2, DROP, L=3, n=SMALL)
        jobs += J('S V I', 'for_each for_each_id fold', 1, DROP, L=6, n=('sym', 0, 8))
        jobs += J('I', 'for_each for_each_id fold', 2, DROP, L=2, n=SMALL, fused=False)
        if not q:
            jobs += J('S V A4 I R CS PS CI PI RI VW', 'for_each for_each_id fold next_id chunk buf', 2, DROP, L=4, n=('sym', 0, 6))
            jobs += J('S V I R', 'for_each for_each_id fold next_id chunk', 3, DROP, L=3, n=SMALL)
            jobs += J('S V I R', 'for_each for_each_id fold', 1, DROP, L=12, n=('sym', 0, 14))
        return jobs
    if p == 'C13':
        jobs = []
        for a, b in (('S', 'CS'), ('SC', 'PS'), ('RI', 'CI'), ('RCI', 'PI')):
            jobs += PJ(a, 'next_id next chunk buf try_len skip', 2, BOTH, L=2, n=SMALL, mode='adapt', other=b)
            jobs += PJ(a, 'values ids more for_each for_each_id fold', 1, BOTH, L=3, n=SMALL, mode='adapt', other=b)
            jobs += J(b, 'next_id chunk skip', 2, BOTH, L=2, n=SMALL)
            jobs += PJ(a, 'vals idv next_id', 2, DROP, L=2, mode='adapt', other=b)
            if not q:
                jobs += PJ(a, 'next_id chunk buf try_len more skip for_each', 3, BOTH, L=2, n=SMALL, mode='adapt', other=b)
                jobs += PJ(a, 'next_id chunk buf try_len more skip values ids for_each_id fold', 2, BOTH, L=3, n=FULL, mode='adapt', other=b)
                jobs += PJ(a, 'next_id chunk buf try_len skip', 2, BOTH, L=2, n=SMALL, mode='adapt', other=b, dbg=True)
                if a in ('RI', 'RCI'):
                    for h in (1, 3, 4):
                        jobs += PJ(a, 'next_id chunk try_len more skip', 2, BOTH, L=2, n=SMALL, mode='adapt', other=b, hint=h)
                    jobs += PJ(a, 'next_id chunk try_len more skip', 2, DROP, L=2, n=SMALL, mode='adapt', other=b, fused=False)
        return jobs
    if p == 'C16':
        jobs = J('R', 'next_id chunk skip', 2, INTO, L=None)
        jobs += J('RC', 'buf try_len more', 1, DROP, L=None)
        jobs += J('R', 'buf next_id', 2, DROP, L=None)
        jobs += J('R', 'for_each for_each_id fold', 1, DROP, L=2)
        jobs += J('S V A2', 'next_id chunk buf skip', 2, BOTH, L=2)
        jobs += J('S V A2 CS', 'buf0 for_each0 fold0', 1, DROP, L=2)
        jobs += J('I', 'next_id chunk skip', 2, BOTH, L=2)
        jobs += J('I', 'bufb buf0 for_each0 fold0', 1, DROP, L=2, n=('sym', 0, 4096))
        jobs += J('S V R I', 'chunk next_id buf', 2, DROP, L=2, dbg=True)
        if not q:
            jobs += J('R RC', 'next_id chunk buf skip', 3, INTO, L=None)
            jobs += J('R', 'next_id chunk buf skip', 2, BOTH, L=None, dbg=True)
            jobs += J('V A2 A0 VW VZ AZ3 PS CS', 'next_id chunk buf skip', 3, BOTH, L=2)
            jobs += J('V A2 S CS', 'next_id chunk buf buf0 skip for_each0', 2, BOTH, L=2, dbg=True)
            jobs += J('I CI RI', 'next_id chunk bufb skip', 2, BOTH, L=2, n=('sym', 0, 4096))
            jobs += J('I', 'next_id chunk skip', 3, BOTH, L=2, dbg=True)
        return jobs
    if p == 'C17':
        jobs = PJ('S V A2 I CS', 'next_id chunk buf skip', 2, BOTH, L=2, n=SMALL)
        jobs += PJ('R', 'next_id chunk skip', 2, INTO, L=2, n=SMALL)
        jobs += PJ('VW VZ A0 A1 AW2 AZ3 CI', 'next_id chunk skip', 2, BOTH, L=2, n=SMALL)
        jobs += PJ('S V A2 I R', 'vals idv skip', 2, DROP, L=2)
        jobs += PJ('S V A2 I R', 'values ids try_len more for_each for_each_id fold', 1, DROP, L=2, n=SMALL)
        jobs += PJ('SC PS PI RI RCI AS3 VS RC', 'next_id chunk', 1, BOTH, L=2, n=SMALL)
        if not q:
            jobs += PJ('S V A2 I', 'next_id chunk buf buf0 skip try_len more', 3, ALLF, L=2, n=SMALL)
            jobs += PJ('R', 'next_id chunk buf skip try_len more clone next_id@1', 3, BOTH, L=2, n=SMALL)
            jobs += PJ('VW VZ A0 A1 AW2 AZ3 CI PI RI PS', 'next_id chunk buf skip for_each', 2, ALLF, L=2, n=SMALL)
            jobs += PJ('S V A3 I', 'next_id chunk values ids for_each for_each_id fold', 2, ALLF, L=3, n=SMALL)
        return jobs
    if p == 'C18':
        jobs = J('I', 'next_id chunk buf for_each fold', 2, BOTH, L=2, n=('sym', 0, 3), panics=('probe_panic',))
        jobs += J('I', 'for_each for_each_id fold next_id', 2, BOTH, L=2, n=('sym', 0, 3), panics=('user_panic',))
        jobs += J('V A2', 'for_each for_each_id fold', 1, BOTH, L=3, n=('sym', 0, 4), panics=('user_panic',))
        jobs += J('V', 'for_each next_id', 2, BOTH, L=3, n=('sym', 0, 4), panics=('user_panic',))
        jobs += J('CS CI', 'next_id chunk buf for_each', 2, DROP, L=2, n=('sym', 0, 3), panics=('clone_panic',))
        jobs += J('CI', 'next_id chunk buf', 2, DROP, L=2, n=('sym', 0, 3), panics=('probe_panic',))
        if not q:
            jobs += J('I', 'next_id chunk buf for_each fold values', 3, BOTH, L=3, n=('sym', 0, 4), panics=('probe_panic',))
            jobs += J('V A3 VW I', 'for_each for_each_id fold next_id chunk', 2, ALLF, L=3, n=SMALL, panics=('user_panic',))
            jobs += J('CS CI', 'next_id chunk buf for_each fold values', 3, DROP, L=3, n=SMALL, panics=('clone_panic',))
            jobs += J('I', 'next_id chunk buf', 2, BOTH, L=2, n=('sym', 0, 3), panics=('probe_panic',), dbg=True)
        return jobs
    if p == 'C19':
        jobs = J('VS S AS3', 'next_id chunk clone next_id@1 chunk@1', 3, DROP, L=2, n=('sym', 0, 3), only_full=True)
        jobs += J('VS SC', 'next_id chunk buf skip values', 2, BOTH, L=3, n=SMALL)
        jobs += J('R RC', 'next_id chunk clone next_id@1', 3, DROP, L=2, n=('sym', 0, 3), only_full=True)
        jobs += J('VS', 'for_each fold clone next_id@1', 2, DROP, L=2, n=SMALL)
        jobs += J('CS PS', 'next_id chunk', 2, BOTH, L=2, n=SMALL)
        if not q:
            jobs += J('VS S R', 'next_id chunk clone next_id@1 chunk@1 skip skip@1', 4, DROP, L=2, n=('sym', 0, 3), only_full=True)
            jobs += J('VS AS3 SC', 'next_id chunk buf skip values for_each clone next_id@1 try_len@1', 3, BOTH, L=3, n=SMALL)
        return jobs
    return []


# ---------------------------------------------------------------- thread programs of the concurrent part
def N(k=1):
    return [OpSpec('next_id')] * k


def CH(hi=3, take=4, lo=1):
    return [OpSpec('chunk', n=('sym', lo, hi), take=take)]


def BUF(k=2, hi=2, take=3):
    return [OpSpec('buf_new', n=('sym', 1, hi), slot=0)] + [OpSpec('buf_next', slot=0, take=take)] * k


def VALS(k=2):
    return [OpSpec('vals_new', slot=2)] + [OpSpec('vals_next', slot=2)] * k


def IDV(k=2):
    return [OpSpec('idv_new', slot=3)] + [OpSpec('idv_next', slot=3)] * k


def OP(*names):
    return [OpSpec(x) for x in names]


def LOOP(name, hi=2):
    return [OpSpec(name, n=('sym', 1, hi))]


def ITER(name, k=2):
    return [OpSpec(name, k=k)]


SKIP = OP('skip')
MIX = N() + CH()
PART = CH(take=1) + N()
HUGE = [OpSpec('chunk', n=FULL, take=4)]


def HBUF(k=2):
    return [OpSpec('buf_new', n=('sym', 1, M.M64), slot=0)] + [OpSpec('buf_next', slot=0, take=3)] * k


EPI = (('drop',), ('into_seq',), ('try_len', 'more', 'drop'))
EPD = (('drop',),)
EPO = (('drop',), ('into_seq',), ('into_seq_part',))
EPL = (('try_len', 'more', 'drop'),)
EPS = (('into_seq',),)


def K(kinds, threads, L=(4, 3), ep=EPI, pre=(), races=False, freeze=False, dbg=False, pt=None, monitor=True, **kw):
    """concurrent job(s); kinds may list several; L: bound of the length for known sizes / wrapped iterators"""
    out = []
    for k in kinds.split():
        out.append(ConcJob(Setup(k, L[k in ITERK.split()], **kw), threads, ep, tuple(pre), dbg, pt, races, freeze, monitor))
    return out


ONE = 'S V A3 R I'          # one of every implementor
ADS = 'CS CI'               # and of the adaptors
ALLK = 'S V A3 R I CS PS CI PI RI VW VZ AZ3 A1'
KNOWN = 'S V A3 R CS PS VW'


def conc_jobs(p, q):
    X = [MIX, MIX]
    if p in ('C01', 'C02', 'C03', 'C04'):
        jobs = K(ONE + ' CI', X, ep=EPI)
        jobs += K('CS PI RI VW', X, L=(3, 1), ep=EPI)
        jobs += K('S V A3 R', [BUF(), MIX], ep=EPI)
        jobs += K('I', [BUF(1), N() + N()], L=(4, 2), ep=EPD)
        jobs += K('S V R I CI', [VALS(), IDV()], L=(4, 2), ep=EPI)
        jobs += K('S V R I', [SKIP + N(), N(2)], L=(4, 2), ep=EPD)
        jobs += K('I', [HUGE, N()], L=(4, 2), ep=EPD)
        jobs += K('S V A3 R CI', [HUGE + N(), HUGE], L=(3, 1), ep=EPI)
        if p == 'C03':
            jobs += K('S V A3 R', [HBUF(), N()], L=(3, 1), ep=EPD)
        if p == 'C01':
            jobs += K('S V R I', [CH()] * 3, L=(3, 1), ep=EPI)
            jobs += K('S V I', [LOOP('for_each'), N()], L=(4, 2), ep=EPD)
            jobs += K('S V R', [LOOP('fold'), CH()], L=(4, 2), ep=EPD)
        if p == 'C02':
            jobs += K('S V R I', [ITER('ids'), ITER('values')], L=(4, 2), ep=EPD)
            jobs += K('S V R I', [LOOP('for_each_id'), N()], L=(4, 2), ep=EPD)
        if p == 'C03':
            jobs += K('S V A3 R I', [PART, PART], L=(4, 2), ep=EPI)
            jobs += K('S V A3 R', [BUF(), BUF()], L=(4, 2), ep=EPD)
            jobs += K('I', [BUF(), BUF(1)], L=(3, 1), ep=EPD)
        if p == 'C04':
            jobs += K('S V R I', [N()] * 3, L=(4, 2), ep=EPD)
            jobs += K('S V R', X, L=(4, 2), ep=EPS, pre=CH(2, 1))
            jobs += K('I', [N(), CH()], L=(4, 2), ep=EPS, pre=CH(2, 1))
        if not q:
            jobs += K(ALLK, X, L=(6, 3))
            jobs += K(ALLK, [BUF(), MIX], L=(5, 2))
            jobs += K('S V A3 R I CI', [BUF(), BUF()], L=(5, 2))
            jobs += K('S V A3 R CS PS VW', [MIX + N(), MIX + N()], L=(6, 3))
            jobs += K('I', [MIX + N(), MIX], L=(5, 2), ep=EPD)
            jobs += K(ONE, [CH()] * 3, L=(5, 2))
            jobs += K('S V A3 R', [MIX, N(), CH()], L=(6, 3))
            jobs += K('S V R', [N()] * 4, L=(6, 3))
            jobs += K(ONE + ' CI', [LOOP('for_each'), LOOP('fold')], L=(5, 2))
            jobs += K(ONE, [HUGE + N(), HUGE + N()], L=(5, 2))
            jobs += K(ONE, X, L=(6, 3), pre=CH(2, 1))
            jobs += K(ONE, [SKIP + CH(), BUF()], L=(5, 2))
            jobs += K(ALLK, [VALS(3), MIX], L=(5, 2))
            jobs += K(ALLK, [IDV(3), CH() + N()], L=(5, 2))
        return jobs
    if p == 'C05':
        jobs = K(ONE + ' CI', [MIX + OP('try_len'), MIX], L=(3, 1), ep=EPL)
        jobs += K('S V A1 R', [N(3), N(3)], L=(3, 1), ep=EPL)
        jobs += K('I', [N(3), N(2)], L=(3, 1), ep=EPL)
        jobs += K('I', X, L=(3, 1), ep=EPL, fused=False)
        jobs += K('I', [CH() + N(), N()], L=(4, 2), ep=EPL, fused=False)
        jobs += K('S V A3 R', X, L=(4, 2), ep=EPL)
        jobs += K('I', X, L=(4, 2), ep=EPL)
        jobs += K('S V A3 R', [BUF(), N(2)], L=(3, 1), ep=EPL)
        jobs += K('S V R', [HUGE + N(), N(2)], L=(3, 1), ep=EPL)
        jobs += K('S V R I', [VALS(3), IDV()], L=(3, 1), ep=EPL)
        jobs += K('I', [HUGE + N(), N()], L=(3, 1), ep=EPL)
        jobs += K('S V A3 R', [HBUF(), N()], L=(3, 1), ep=EPL)
        if not q:
            jobs += K(ALLK, X, L=(5, 2))
            jobs += K('I CI RI', X, L=(5, 2), fused=False)
            jobs += K('I', [N(3), N(3)], L=(4, 1), fused=False)
            jobs += K('I', [BUF(), MIX], L=(4, 1), fused=False)
            jobs += K(ONE, [HUGE + N(), HUGE + N()], L=(5, 2))
            jobs += K('S V A3 R', [N(4), N(4)], L=(5, 2))
            jobs += K(ONE, [N(2)] * 3, L=(4, 1))
            jobs += K(ONE, [LOOP('for_each') + N(), MIX], L=(5, 2))
        return jobs
    if p == 'C06':
        jobs = K(ONE + ' CS CI', [SKIP + N(), MIX], L=(4, 2), ep=EPI)
        jobs += K('S V A3 R I', [SKIP + CH(), BUF()], L=(4, 2), ep=EPD)
        jobs += K('S V A3 R I', [CH() + OP('more'), SKIP + OP('try_len')], L=(4, 2), ep=EPL)
        jobs += K('S V R I', [SKIP + N(), SKIP + N()], L=(3, 1), ep=EPI)
        jobs += K('S V R I', [N(), CH(), SKIP], L=(4, 2), ep=EPI)
        jobs += K('S V I', [SKIP, N(2)], L=(4, 2), ep=EPL, pre=CH(2, 1))
        jobs += K('I', [SKIP + N(), N(2)], L=(4, 2), ep=EPL, fused=False)
        jobs += K('S V R I', [SKIP + N(), HUGE + N()], L=(3, 1), ep=EPD)
        if not q:
            jobs += K(ALLK, [SKIP + MIX, MIX], L=(5, 2))
            jobs += K(ALLK, [N() + SKIP + N(), MIX], L=(5, 2))
            jobs += K(ALLK, [SKIP + CH(), BUF()], L=(5, 2))
            jobs += K(ONE, [SKIP + N(), N(), CH()], L=(5, 2))
            jobs += K(ONE, [SKIP + N(), LOOP('for_each')], L=(5, 2))
            jobs += K(ONE, [SKIP + N(), LOOP('fold')], L=(5, 2))
            jobs += K('I CI', [SKIP + MIX, MIX], L=(5, 2), fused=False)
            jobs += K(ONE, [SKIP + N(), HUGE + N()], L=(5, 2))
        return jobs
    if p == 'C07':
        R = dict(races=True, ep=EPD)
        jobs = K(ONE + ' CI RI CS', X, **R)
        jobs += K('I', [BUF(), N(2)], L=(3, 1), **R)
        jobs += K('I CI', [BUF(1), CH()], L=(4, 2), **R)
        jobs += K('S V A3 R VW VZ', [BUF(), MIX], L=(4, 2), **R)
        jobs += K('S V A3 R I CI', [SKIP + N(), MIX], L=(4, 2), **R)
        jobs += K('S V A3 R I', [MIX, OP('try_len', 'more')], L=(4, 2), **R)
        jobs += K('I', [N()] * 3, L=(4, 2), **R)
        jobs += K('I', [CH()] * 3, L=(3, 1), **R)
        jobs += K('S V I R', [LOOP('for_each'), LOOP('fold')], L=(3, 1), **R)
        jobs += K('I', X, L=(3, 1), fused=False, **R)
        jobs += K('I', [HUGE, N()], L=(4, 2), **R)
        jobs += K('I', [HUGE + N(), N()], L=(3, 1), **R)
        jobs += K('I', [HUGE, HUGE], L=(3, 1), **R)
        jobs += K('S V A3 R CI', [HUGE + N(), HUGE], L=(3, 1), **R)
        jobs += K('I', [CH(7), N(2)], L=(4, 2), **R)
        jobs += K('S V A3 R', [HBUF(), N()], L=(3, 1), **R)
        if not q:
            jobs += K(ALLK, X, L=(6, 3), **R)
            jobs += K(ALLK, [BUF(), MIX], L=(5, 2), **R)
            jobs += K('I CI PI RI', [BUF(), BUF()], L=(5, 2), **R)
            jobs += K('I', [N()] * 4, L=(5, 2), **R)
            jobs += K('I CI', [CH()] * 3, L=(5, 2), **R)
            jobs += K('I', [N(), CH(), SKIP], L=(5, 2), **R)
            jobs += K('I', [N(3), N(3)], L=(5, 2), **R)
            jobs += K('I CI', X, L=(5, 2), fused=False, **R)
            jobs += K(ALLK, [LOOP('for_each'), LOOP('fold')], L=(5, 2), **R)
            jobs += K(ALLK, [SKIP + MIX, BUF(1)], L=(5, 2), **R)
            jobs += K('I', X, L=(5, 2), panics=('probe_panic',), pt=0, **R)
            jobs += K('CI', X, L=(5, 2), panics=('clone_panic',), pt=0, **R)
        return jobs
    if p in ('C08', 'C15'):
        jobs = K('V A3 I', X, L=(4, 2), ep=EPO)
        jobs += K('VW VZ AZ3 A1', X, L=(3, 1), ep=EPO)
        jobs += K('V A3 I', [PART, PART], L=(4, 2), ep=EPD)
        jobs += K('V A3', [BUF(2, 2, 1), MIX], L=(4, 2), ep=EPO)
        jobs += K('I', [BUF(1, 2, 1), N(2)], L=(4, 2), ep=EPO)
        jobs += K('V A3 I', [SKIP + N(), PART], L=(4, 2), ep=EPO)
        jobs += K('V I', [LOOP('for_each'), N()], L=(4, 2), ep=EPD)
        jobs += K('V I', [N()] * 3, L=(4, 2), ep=EPO)
        jobs += K('V A3 I', [HUGE, N()], L=(3, 2), ep=EPO)
        jobs += K('V A3', [HBUF(), N()], L=(3, 1), ep=EPO)
        if p == 'C15':
            jobs += K('CI', [BUF(1, 2, 1), N()], L=(4, 2), ep=EPD)
        if not q:
            jobs += K('V A3 VW AW2 VZ AZ3 I', X, L=(6, 3), ep=EPO)
            jobs += K('V A3 VW AW2 VZ AZ3', [BUF(2, 2, 1), BUF(2, 2, 1)], L=(5, 2), ep=EPO)
            jobs += K('I', [BUF(2, 2, 1), MIX], L=(5, 2), ep=EPO)
            jobs += K('V A3 VW VZ I', [SKIP + MIX, PART], L=(5, 2), ep=EPO)
            jobs += K('V A3 I', [LOOP('for_each'), LOOP('fold')], L=(5, 2), ep=EPO)
            jobs += K('V A3 I', [CH(take=1)] * 3, L=(5, 2), ep=EPO)
            jobs += K('V A3', [PART + N(), PART + N()], L=(6, 3), ep=EPO)
            jobs += K('V A3 I', [HUGE + N(), MIX], L=(5, 2), ep=EPO)
            jobs += K('V A3 I', [ITER('values', 3), PART], L=(5, 2), ep=EPO)
        return jobs
    if p == 'C09':
        jobs = K(ONE + ' CI', X, L=(4, 2), ep=EPD)
        jobs += K('I', [BUF(1), N(2)], L=(4, 2), ep=EPD)
        jobs += K('I', [BUF(), CH()], L=(3, 1), ep=EPD)
        jobs += K('I CI', [SKIP + N(), MIX], L=(4, 2), ep=EPD)
        jobs += K('I', [MIX, OP('try_len', 'more')], L=(4, 2), ep=EPD)
        jobs += K('I', [N(3), N(2)], L=(3, 1), ep=EPD)
        jobs += K('I', [CH()] * 3, L=(3, 1), ep=EPD)
        jobs += K('I', [N(), CH(), SKIP], L=(4, 2), ep=EPD)
        jobs += K('I', X, L=(3, 1), ep=EPD, fused=False)
        jobs += K('I', [LOOP('for_each'), N()], L=(4, 2), ep=EPD)
        F = dict(freeze=True, ep=EPD)
        jobs += K(KNOWN, X, L=(4, 2), **F)
        jobs += K('S V A3 R', [BUF(), SKIP + N()], L=(4, 2), **F)
        jobs += K('S V A3 R', [LOOP('for_each'), MIX], L=(4, 2), **F)
        jobs += K('S V R', [OP('try_len', 'more') + N(), CH()], L=(4, 2), **F)
        jobs += K('S V R', [N()] * 3, L=(4, 2), **F)
        jobs += K('I', [HUGE, N()], L=(4, 2), ep=EPD)
        jobs += K('I', [CH(7), N(2)], L=(4, 2), ep=EPD)
        jobs += K('S V A3 R CS', [HUGE + N(), HUGE], L=(3, 1), **F)
        jobs += J('S V A2 I R', 'next_id chunk buf skip for_each fold', 2, DROP, L=2, n=FULL)
        if not q:
            jobs += K('I CI PI RI', X, L=(6, 3), ep=EPD)
            jobs += K('I CI', [BUF(), BUF()], L=(5, 2), ep=EPD)
            jobs += K('I', [N()] * 4, L=(5, 2), ep=EPD)
            jobs += K('I', [CH()] * 3, L=(5, 2), ep=EPD)
            jobs += K('I', [SKIP + MIX, MIX], L=(5, 2), ep=EPD)
            jobs += K('I CI', [LOOP('for_each'), LOOP('fold')], L=(5, 2), ep=EPD)
            jobs += K('I', [HUGE + N(), MIX], L=(5, 2), ep=EPD)
            jobs += K('I', [SKIP + N(), N(), CH()], L=(5, 2), ep=EPD)
            jobs += K('I CI', X, L=(5, 2), ep=EPD, fused=False)
            jobs += K('I', [BUF(), MIX], L=(5, 2), ep=EPD, fused=False)
            jobs += K(KNOWN + ' VZ AZ3 A1', [MIX + N(), MIX + N()], L=(6, 3), **F)
            jobs += K(KNOWN, [BUF(), SKIP + MIX], L=(5, 2), **F)
            jobs += K(KNOWN, [LOOP('for_each'), LOOP('fold')], L=(5, 2), **F)
            jobs += K(KNOWN, [HUGE + N(), HUGE + N()], L=(5, 2), **F)
            jobs += K(KNOWN, [MIX, CH(), N()], L=(5, 2), **F)
            jobs += K(KNOWN, [ITER('values', 3), ITER('ids', 3)], L=(5, 2), **F)
        return jobs
    if p == 'C10':
        jobs = K(ONE + ' CI', X, L=(4, 2), ep=EPS)
        jobs += K('CS PI RI VW VZ AZ3 A1', X, L=(3, 1), ep=EPS)
        jobs += K('S V A3 R', [BUF(), MIX], L=(4, 2), ep=EPS)
        jobs += K('I', [BUF(1), N(2)], L=(4, 2), ep=EPS)
        jobs += K('S V A3 R I', [SKIP, MIX], L=(4, 2), ep=EPS)
        jobs += K('S V R I', [N()] * 3, L=(4, 3), ep=EPS)
        jobs += K('S V A3 R', [HUGE, N()], L=(4, 2), ep=EPS)
        jobs += K('I', [HUGE, N()], L=(4, 2), ep=EPS)
        if not q:
            jobs += K(ALLK, X, L=(6, 3), ep=EPS)
            jobs += K(ALLK, [BUF(), MIX], L=(5, 2), ep=EPS)
            jobs += K(ALLK, [SKIP + N(), MIX], L=(5, 2), ep=EPS)
            jobs += K('S V A3 R CS VW', [BUF(), BUF()], L=(6, 3), ep=EPS)
            jobs += K(ONE, [CH()] * 3, L=(5, 2), ep=EPS)
            jobs += K(ONE, [HUGE, MIX], L=(5, 2), ep=EPS)
            jobs += K(ONE, [LOOP('for_each'), MIX], L=(5, 2), ep=EPS)
        return jobs
    if p == 'C11':
        LEN = OP('try_len', 'more', 'try_len')
        jobs = K('S V A3 R CS', [MIX, LEN], L=(4, 2), ep=EPL)
        for h in (0, 1):
            jobs += K('I', [MIX, LEN], L=(4, 2), ep=EPL, hint=h)
        jobs += K('S V A3 R I', [OP('more') + N(), MIX], L=(4, 2), ep=EPL)
        jobs += K('S V A3 R I', [SKIP + OP('more'), N() + OP('try_len')], L=(4, 2), ep=EPL)
        jobs += K('S V R I', [N() + OP('more'), N() + OP('try_len')], L=(4, 2), ep=EPL)
        jobs += K('S V A3 R', [BUF(), OP('try_len', 'more')], L=(4, 2), ep=EPL)
        jobs += K('S R I', [N(), N(), OP('try_len', 'more')], L=(3, 1), ep=EPL)
        jobs += K('I', [CH() + OP('more'), N()], L=(4, 2), ep=EPL, fused=False)
        jobs += K('S V A3 R I', [HUGE + OP('more'), N() + OP('try_len')], L=(3, 1), ep=EPL)
        if not q:
            jobs += K(ALLK, [MIX, LEN + N()], L=(6, 3), ep=EPL)
            jobs += K(ALLK, [MIX + OP('more'), MIX + OP('try_len')], L=(5, 2), ep=EPL)
            jobs += K(ALLK, [BUF(), OP('try_len', 'more', 'try_len')], L=(5, 2), ep=EPL)
            for h in (0, 1):
                jobs += K('I CI PI RI', [MIX + OP('more'), CH() + OP('try_len')], L=(5, 2), ep=EPL, hint=h)
            jobs += K(ONE, [MIX, N(), OP('try_len', 'more')], L=(5, 2), ep=EPL)
            jobs += K(ONE, [SKIP + OP('more'), MIX + OP('try_len')], L=(5, 2), ep=EPL)
            jobs += K(ONE, [HUGE + OP('try_len'), N() + OP('more')], L=(5, 2), ep=EPL)
        return jobs
    if p == 'C12':
        jobs = []
        for f in ('for_each', 'for_each_id', 'fold'):
            jobs += K('S V A3 R', [LOOP(f), LOOP(f)], L=(4, 2), ep=EPD)
            jobs += K('CS', [LOOP(f), LOOP(f)], L=(3, 1), ep=EPD)
            jobs += K('S V R', [LOOP(f), MIX], L=(4, 2), ep=EPD)
            jobs += K('I', [LOOP(f), LOOP(f)], L=(3, 1), ep=EPD)
            jobs += K('I', [LOOP(f), N()], L=(4, 2), ep=EPD)
        jobs += K('S V R', [LOOP('for_each_id'), BUF()], L=(4, 2), ep=EPD)
        if not q:
            for f in ('for_each', 'for_each_id', 'fold'):
                for g in ('for_each', 'for_each_id', 'fold'):
                    if f <= g:
                        jobs += K('S V A3 R CS PS VW', [LOOP(f, 3), LOOP(g, 3)], L=(6, 3), ep=EPD)
                        jobs += K('I', [LOOP(f), LOOP(g)], L=(5, 2), ep=EPD)
                jobs += K('S V R', [LOOP(f)] * 3, L=(5, 2), ep=EPD)
                jobs += K('I CI', [LOOP(f), MIX], L=(5, 2), ep=EPD)
                jobs += K('S V R I', [LOOP(f), N() + SKIP], L=(5, 2), ep=EPD)
        return jobs
    if p == 'C13':
        jobs = K('CS PS CI PI', X, L=(4, 2), ep=EPI)
        jobs += K('CS PS', [BUF(), MIX], L=(4, 2), ep=EPI)
        jobs += K('CI', [BUF(1), N(2)], L=(4, 2), ep=EPD)
        jobs += K('CS PS CI PI', [SKIP + N(), N() + OP('try_len')], L=(4, 2), ep=EPI)
        jobs += K('CS PS CI PI', [ITER('ids'), LOOP('for_each_id')], L=(3, 1), ep=EPD)
        jobs += K('CS PS CI PI', [HUGE, N()], L=(4, 2), ep=EPI)
        if not q:
            jobs += K('CS PS CI PI', X, L=(6, 3), ep=EPI)
            jobs += K('CS PS CI PI', [BUF(), MIX], L=(5, 2), ep=EPI)
            jobs += K('CS PS', [BUF(), BUF()], L=(6, 3), ep=EPI)
            jobs += K('CS PS CI PI', [LOOP('for_each'), LOOP('fold')], L=(5, 2), ep=EPI)
            jobs += K('CS PS CI PI', [CH()] * 3, L=(4, 1), ep=EPI)
        return jobs
    if p == 'C17':
        jobs = K('S V A3 R I CS', X, L=(4, 2), ep=EPI, dbg=True)
        jobs += K('V R I', [SKIP + N(), MIX], L=(4, 2), ep=EPI, dbg=True)
        jobs += K('V A3 R', [BUF(), N(2)], L=(4, 2), ep=EPI, dbg=True)
        jobs += K('V A3 R I', [HUGE, N()], L=(4, 2), ep=EPI, dbg=True)
        if not q:
            jobs += K(ALLK, X, L=(5, 2), ep=EPO, dbg=True)
            jobs += K(ALLK, [SKIP + CH(), BUF()], L=(5, 2), ep=EPI, dbg=True)
            jobs += K(ONE, [LOOP('for_each'), LOOP('fold')], L=(5, 2), ep=EPI, dbg=True)
            jobs += K(ONE, [CH()] * 3, L=(4, 1), ep=EPI, dbg=True)
        return jobs
    if p == 'C18':
        PP = dict(panics=('probe_panic',), pt=0, ep=EPI)
        jobs = K('I', [MIX, MIX], L=(3, 1), **PP)
        jobs += K('I', [CH(), N(2)], L=(4, 2), **PP)
        jobs += K('I', [N(2), CH()], L=(4, 2), **PP)
        jobs += K('I', [BUF(1), N()], L=(4, 2), **PP)
        jobs += K('I', [N(), BUF(1)], L=(4, 2), **PP)
        jobs += K('I', [CH(), N(), N()], L=(3, 1), **PP)
        jobs += K('V S A3 I', [LOOP('for_each'), MIX], L=(4, 2), panics=('user_panic',), pt=0, ep=EPI)
        jobs += K('V R I', [LOOP('fold'), N()], L=(4, 2), panics=('user_panic',), pt=0, ep=EPI)
        jobs += K('CI CS', X, L=(3, 1), panics=('clone_panic',), pt=0, ep=EPD)
        if not q:
            jobs += K('I CI', [MIX, MIX], L=(5, 2), **PP)
            jobs += K('I', [CH() + N(), BUF()], L=(5, 2), **PP)
            jobs += K('I', [BUF(), N(2)], L=(5, 2), **PP)
            jobs += K('I', [LOOP('for_each'), MIX], L=(5, 2), **PP)
            jobs += K('I', [CH(), CH(), N()], L=(5, 2), **PP)
            jobs += K('V A3 VW I', [LOOP('for_each'), LOOP('fold')], L=(5, 2), panics=('user_panic',), pt=0, ep=EPO)
            jobs += K('CI CS', [BUF(), MIX], L=(5, 2), panics=('clone_panic',), pt=0, ep=EPD)
            jobs += K('CI', X, L=(5, 2), panics=('clone_panic',), pt=0, ep=EPD)
        return jobs
    return []


C14_BOUNDS = [
    'bounds: every way of creating, sharing or moving a concurrent iterator named in tlevel.routes() (constructors, conversions, adaptors), for every '
    'combination of Send/Sync of the element type and of the wrapped iterator',
    'lifetimes: every client function of tlevel.py: one per way of obtaining a value (element, chunk, buffer, adaptor, iterator) and per event that '
    'may invalidate it; every placement of the event and of a later use',
    'ownership: every sequence (depth: see jobs) of the safe public methods listed under safe_public_methods and of the ordinary pulls, source length '
    'up to 2, word arguments over the full range']
C14_ASSUMPTIONS = [
    'the compiler implements the trait system and the borrow rules (what z3 finds admissible is handed to the compiler; what the compiler\'s '
    'constraints exclude is taken as excluded)',
    'methods with generic parameters or other argument types than machine words are not among the generated low-level calls']


def config(p, tier):
    quick = tier != 'thorough'
    if p == 'C14':
        import lowlevel
        return Conf([], C14_BOUNDS, C14_ASSUMPTIONS, 240 if quick else 3000, lowlevel.run)
    jobs = seq_jobs(p, quick) + conc_jobs(p, quick)
    bounds = ['sequential histories: every history of at most the stated depth over the stated operations, every source length up to the '
              'stated L (ranges: every start and end), every chunk size in the stated range (full machine words unless stated), every '
              'number of consumed elements per chunk; see jobs']
    if conc_jobs(p, quick):
        bounds.append('concurrent histories: every interleaving of the stated thread programs (2 to 4 threads) at the granularity of atomic '
                      'operations and calls of the wrapped iterator, every source length up to the stated L, every chunk size in the stated '
                      'range, each followed by each stated epilogue; values are sequentially consistent, data races are decided from the '
                      'orderings in the code; loops that only wait are taken once per change of what they read')
    return Conf(jobs, bounds, [], 240 if quick else 3000)


TECHNIQUE['C14'] = ('z3 over trait-bound formulas (rustdoc JSON) and borrow-check facts (NLL facts, MIR) of the working tree, candidates compiled as '
                    'replay; symbolic execution of the LLVM IR for sequences of safe low-level calls')
NOTES['C14'] = ('Bounds and lifetimes: every answer is over all assignments of Send/Sync to the element type and wrapped iterator, and over all '
                'placements of the invalidating event and the later use, for a fixed family of clients covering each constructor, adaptor and way of '
                'obtaining a value; trusts rustc for the facts and as the judge of the counterexample programs. Ownership: bounded, as for the other '
                'properties, over the safe public methods listed by the compiler. Nothing is claimed about clients outside the family.')
