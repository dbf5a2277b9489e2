import sys,time; sys.path.insert(0,'/verif/engine')
import props,check
from build import Builder
b=Builder()
for p in sys.argv[2:]:
    t=time.time()
    c=props.config(p,sys.argv[1])
    o=check.run_jobs(p,c.jobs,b,check.judge,budget=c.budget,stop_first=False)
    print('=====',p,'wall %.1f'%(time.time()-t),'jobs',len(c.jobs),'viol',len(o.violations),'unconf',len(o.unconfirmed),'ub',len(o.ub_unseen),'valid',o.validated,'mism',len(o.mismatch),'err',len(o.errors))
    agg={}
    for s in o.stats:
        a=agg.setdefault(s['job'],dict(p=0,w=0,cut={})); a['p']+=s['paths']; a['w']+=s['wall']
        for d in (s['cut'],s['unsupported']):
            for k,v in d.items(): a['cut'][k]=a['cut'].get(k,0)+v
    for k,a in sorted(agg.items(),key=lambda x:-x[1]['w']): print('   %6d paths %7.1f cpu %s %s'%(a['p'],a['w'],k[:110],a['cut'] or ''))
    for v in o.violations[:3]: print('VIOL',v['setup'],v['confirmed'][:2],v['lines'])
    for v in o.unconfirmed[:3]: print('UNC',v['setup'],v['text'],v['lines'])
    for v in o.ub_unseen[:3]: print('UB',v['setup'],v['text'],v['lines'])
    for v in o.mismatch[:3]: print('MISM',v)
    for v in o.errors[:2]: print('ERR',v)
    sys.stdout.flush()
b.close()
