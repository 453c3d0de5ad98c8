"""Common check runner: argument-free entry, evidence, violations, worker pool."""
import os, sys, gc, json, time, traceback, multiprocessing as mp
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
class Broken(Exception): pass
class Check:
    def __init__(s,pid,level):
        s.pid=pid; s.level=level; s.t0=time.time(); s.viol=[]; s.cov={}; s.notes=[]
        s.tier=os.environ.get('VERIF_TIER','quick'); s.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        s.known=known(pid); s.kn=[]; s.assume=[]
    def violation(s,key,text,data=None):
        """key: stable identification (configuration/function/site) used for known findings"""
        for k in s.known:
            if k in key: s.kn.append((key,text)); return
        s.viol.append((key,text,data))
    def finish(s):
        ev=os.path.join(VERIF,'evidence'); os.makedirs(ev,exist_ok=True)
        rp=os.path.join(ev,f'{s.pid}.replay.json')
        for k,txt in s.kn: print(f"KNOWN-FINDING: property={s.pid} {txt}")
        if s.viol:
            json.dump([dict(site=k,what=x,data=d) for k,x,d in s.viol[:50]],open(rp,'w'),indent=1,default=str)
        elif os.path.exists(rp): os.unlink(rp)
        d=dict(property=s.pid,tier=s.tier if s.tier in('quick','thorough') else 'quick',seed=s.seed,level=s.level,coverage=s.cov,
               assumptions=s.assume,wall_s=round(time.time()-s.t0,2),violations=len(s.viol))
        json.dump(d,open(os.path.join(ev,f'{s.pid}.json'),'w'),indent=1,default=str)
        for k,x,dd in s.viol[:20]: print(f"  {k}: {x}")
        if s.viol:
            print(f"VIOLATION property={s.pid} replay={rp}"); return 1
        print(f"{s.pid}: held on everything analysed ({d['wall_s']} s)"); return 0
def known(pid):
    r=[]
    try:
        for l in open(os.path.join(VERIF,'known-findings.txt')):
            l=l.strip()
            if l.startswith('finding:') and f'property={pid} ' in l+' ': r.append(l.split('site=',1)[1].split(' :: ')[0])
    except OSError: pass
    return r
def _call(a):
    f,x=a
    try: return ('ok',f(x))
    except Exception as e: return ('err',f"{type(e).__name__}: {e}",traceback.format_exc(),x)
def pool(f,tasks,procs=8):
    """runs f over tasks in worker processes; results in task order; raises Broken when one fails"""
    tasks=list(tasks)
    if not tasks: return []
    out=[]
    gc.collect(); gc.freeze()
    with mp.get_context('fork').Pool(min(procs,len(tasks)),initializer=gc.disable) as P:
        for r in P.imap(_call,[(f,x) for x in tasks],chunksize=1):
            if r[0]=='err': raise Broken(f"{r[1]} in {str(r[3])[:120]}\n{r[2]}")
            out.append(r[1])
    return out
def main(fn):
    import build
    try: rc=fn()
    except Broken as e: print('analysis broken:',e); rc=2
    except Exception: traceback.print_exc(); rc=2
    sys.stdout.flush(); sys.exit(rc)
