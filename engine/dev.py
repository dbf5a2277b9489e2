"""development helper: run ad-hoc sequential jobs and list violations"""
import sys, time
sys.path.insert(0,'/verif/engine')
from check import *
def go(prop, jobs, first=False, budget=300):
    b=Builder(); t=time.time()
    try:
        o=run_jobs(prop, jobs, b, judge_seq, budget=budget, stop_first=first)
    finally: b.close()
    agg={}
    for s in o.stats:
        a=agg.setdefault(s['job'],dict(paths=0,q=0,wall=0,cut={},uns={}))
        a['paths']+=s['paths']; a['q']+=s['queries']; a['wall']+=s['wall']
        for k,v in s['cut'].items(): a['cut'][k]=a['cut'].get(k,0)+v
        for k,v in s['unsupported'].items(): a['uns'][k]=a['uns'].get(k,0)+v
    for k,a in agg.items(): print('JOB',k,'paths',a['paths'],'q',a['q'],'cpu %.1f'%a['wall'],a['cut'],a['uns'])
    seen=set()
    for v in o.violations:
        k=(v['setup'].kind,v['dbg'],tuple(v['confirmed'][:1]))
        if k in seen: continue
        seen.add(k); print('VIOL',v['setup'],'dbg' if v['dbg'] else 'rel',v['text'],'|',v['confirmed'][:2]); print('     ','; '.join(v['lines']))
    seen=set()
    for nm,l in (('UNCONF',o.unconfirmed),('UB',o.ub_unseen)):
        for v in l:
            k=(v['setup'].kind,v['dbg'],v['text'])
            if k in seen: continue
            seen.add(k); print(nm,v['setup'],'dbg' if v['dbg'] else 'rel',v['text']); print('     ','; '.join(v['lines']))
    for e in o.errors[:3]: print('ERR',e)
    print('viol',len(o.violations),'unconf',len(o.unconfirmed),'ub',len(o.ub_unseen),'wall %.1f'%(time.time()-t))
