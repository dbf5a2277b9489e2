"""Entry point of the checks:  main.py <property>   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import props
from build import Builder, BuildError, VERIF

EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
TRUSTED = [
    'rustc/LLVM lower the crate and the harness faithfully to the LLVM IR that is encoded (release -O, and with debug assertions + overflow checks where "debug" is named)',
    'the IR semantics of engine/symex.py (cross-checked on every run: sampled symbolic traces are executed natively and compared event by event)',
    'z3 (every satisfiable answer that matters is replayed on the real code before it is reported)',
    'the environment: element types, wrapped iterators and closures of harness/src/lib.rs and their models in engine/seq.py',
]


def known_findings(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s ' % prop):
                    key = l.split('key=', 1)[1].split(' ', 1)
                    out.append((key[0], key[1] if len(key) > 1 else ''))
    except OSError:
        pass
    return out


def finding_key(v):
    """identity of a violation in the known-findings file"""
    return v.get('key') or '%s:%s' % (v['setup'].kind, v['text'].replace(' ', '_'))


def save_replay(prop, v):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, '%s.txt' % prop)
    with open(p, 'w') as f:
        f.write('# property %s: %s\n' % (prop, v['text']))
        f.write('# confirmed on the real code: %s\n' % '; '.join(v['confirmed'][:4]))
        f.write('# source: %s, %s build\n' % (v.get('setup'), 'debug' if v.get('dbg') else 'release'))
        f.write('# script for the replay binary (engine/replaycmd.py %s)\n' % os.path.relpath(p, VERIF))
        f.write('\n'.join(v['lines']) + '\n')
        f.write('# log of the run\n')
        for l in v.get('log', [])[:400]:
            f.write('# %s\n' % json.dumps(l))
    return p


def merge(d, s):
    for k, v in s.items():
        d[k] = d.get(k, 0) + v


def evidence(prop, tier, seed, out, wall, conf, known_hit):
    st = out.stats
    cov = {}
    tot = dict(paths=0, histories=0, reqs=0, queries=0, events=0)
    cut, uns, fns = {}, {}, set()
    jobs = {}
    solver = 0.0
    for s in st:
        for k in ('paths', 'histories', 'reqs', 'queries'):
            tot[k] += s.get(k, 0)
        tot['events'] += sum(s.get('events', {}).values())
        merge(cut, s.get('cut', {}))
        merge(uns, s.get('unsupported', {}))
        fns |= set(s.get('fns', []))
        solver += s.get('solver_s', 0)
        j = jobs.setdefault(s['job'], dict(paths=0, histories=0, requirements=0, queries=0, cpu_s=0.0))
        j['paths'] += s.get('paths', 0)
        j['histories'] += s.get('histories', 0)
        j['requirements'] += s.get('reqs', 0)
        j['queries'] += s.get('queries', 0)
        j['cpu_s'] = round(j['cpu_s'] + s.get('wall', 0), 2)
        for k in ('tuples', 'feasible'):
            if k in s:
                j[k] = j.get(k, 0) + s[k]
    user = sorted(f for f in fns)
    cov['states'] = tot['paths']
    cov['transitions'] = tot['events']
    cov['traces_validated_against_impl'] = out.validated
    cov['samples'] = out.samples[:4]
    cov['what_is_counted'] = ('states: symbolic paths (thread-path combinations in the concurrent part) explored to their end; '
                              'transitions: visible steps on them; traces_validated_against_impl: solver models of explored paths '
                              'that were executed on the real code and compared event by event')
    cov['requirements_decided'] = tot['reqs']
    cov['queries_discharged'] = tot['queries']
    cov['solver_s'] = round(solver, 2)
    cov['functions_encoded'] = len(user)
    cov['functions_sample'] = [f[:140] for f in user[:40]]
    cov['jobs'] = [dict(job=k[:400], **v) for k, v in list(jobs.items())[:120]]
    cov['outside_the_bounds'] = cut
    cov['not_encodable'] = uns
    cov['candidates_replayed'] = out.replays
    cov['ub_candidates_without_native_effect'] = len(out.ub_unseen)
    cov['bounds'] = conf.bounds
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=TRUSTED + conf.assumptions, wall_s=round(wall, 2), violations=sum(v for v in [1 for x in out.violations if finding_key(x) not in known_hit]))
    cov.update(getattr(out, 'extra', {}))
    if known_hit:
        cov['known_findings'] = known_hit
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov['jobs']:
        cov['jobs'] = cov['jobs'][:len(cov['jobs']) // 2]
        cov['jobs_truncated'] = True
        s = json.dumps(ev, indent=1)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        f.write(s)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    conf = props.config(prop, tier)
    known = known_findings(prop)
    keys = [k for k, _ in known]
    b = Builder()
    try:
        if conf.custom is not None:
            out = conf.custom(prop, tier, seed, b, keys)
        else:
            out = check.run_jobs(prop, conf.jobs, b, check.judge, budget=conf.budget, seed=seed,
                                 known=lambda v: finding_key(v) in keys)
    except BuildError as e:
        print('the tree under check does not build with the harness:\n%s' % e)
        sys.exit(2)
    finally:
        b.close()
    hit = {}
    real = []
    for v in out.violations:
        k = finding_key(v)
        if k in keys:
            hit[k] = hit.get(k, 0) + 1
        else:
            real.append(v)
    for k, d in known:
        if k in hit:
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k, d))
    wall = time.time() - t0
    evidence(prop, tier, seed, out, wall, conf, hit)
    n = sum(s.get('paths', 0) for s in out.stats)
    print('%s %s: %d jobs, %d paths, %d requirements, %d solver queries, %d traces validated natively, %d candidates replayed, %.1f s'
          % (prop, tier, len(out.stats), n, sum(s.get('reqs', 0) for s in out.stats), sum(s.get('queries', 0) for s in out.stats),
             out.validated, out.replays, wall))
    cuts = {}
    for s in out.stats:
        merge(cuts, s.get('cut', {}))
        merge(cuts, s.get('unsupported', {}))
    if cuts:
        print('outside the bounds: %s' % cuts)
    for v in real[:1]:
        p = save_replay(prop, v)
        print('%s [%s %s]: %s' % (prop, v.get('setup'), 'debug' if v.get('dbg') else 'release', '; '.join(v['confirmed'][:3])))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        sys.exit(1)
    if out.errors or out.unconfirmed or out.mismatch:
        for e in out.errors[:2]:
            print('ERROR', e)
        for v in out.unconfirmed[:2]:
            print('UNCONFIRMED counterexample (encoding or harness wrong):', v['text'], v['setup'], v['lines'])
        for v in out.mismatch[:2]:
            print('MISMATCH between encoding and native run:', v)
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
