"""Cases: what a workload does with one seed. A case is a JSON object; run() executes it in a simulator and returns an outcome:
   {'verdict': None | {'kind','detail'}, 'other': None | {...}, 'hash', 'runs', 'simtime', 'ops', 'cover', 'kinds', 'choices', 'nontrivial'}"""
import mesh_gen, re
MPI_KINDS=('deadlock','livelock','mpi-truncate','mpi-misuse','mpi-leak','collective-mismatch','thread-deadlock')
def died(r):
    """abnormal end of the program under test -> (kind, detail) or None"""
    if 'died' in r:
        tail=[l for l in r.get('log','').split('\n') if re.search(r'ssert|rror|terminate|what\(\)|out of bounds|stack smash|free\(\)|corrupt|invalid',l)][-3:]
        return ('hang' if r['died']=='timeout' else 'crash', '%s %s in phase %s: %s'%(r['died'],r['sig'] or r['code'],'/'.join(r.get('phase',[])),' | '.join(tail)[:600]))
    if r.get('errors'): return ('crash','%s in phase %s'%('; '.join(r['errors'])[:600],'/'.join(r.get('phase',[]))))
    if r.get('finished') and any(r['exit']): return ('exit-status','ranks ended with %s'%r['exit'])
    return None
def merge(into,r):
    into['runs']+=1
    into['hash']+=r.get('hash',r.get('died','?')+str(r.get('sig')))[:16]
    into['simtime']+=r.get('simtime',0); into['ops']+=r.get('ops',0); into['choices']+=r.get('choices',0)
    for k,v in r.get('cover',{}).items(): into['cover'][k]=into['cover'].get(k,0)+v
    for k,v in r.get('kinds',{}).items():
        a=into['kinds'].setdefault(k,[0,0]); a[0]+=v[0]; a[1]+=v[1]
def outcome(): return dict(verdict=None,other=None,hash='',runs=0,simtime=0.0,ops=0,choices=0,cover={},kinds={},nontrivial=False)
SCHED_KEYS=['p_sched','p_delay','p_sendmode','p_recvmode','p_coll','p_reduce','p_omp','p_preempt','p_clock','p_io','perturb','clock_skew']
def shrink_schedule(sc):
    """simpler schedules of one scenario"""
    for k in list(sc):
        if (k in SCHED_KEYS and sc[k] not in (0,'0')) or k.startswith('slow'):
            t=dict(sc); t.pop(k); yield t
    i=0
    while 'fault%d'%i in sc:
        t={k:v for k,v in sc.items() if not k.startswith('fault')}; fs=[sc['fault%d'%j] for j in range(99) if 'fault%d'%j in sc]
        fs.pop(i)
        for j,f in enumerate(fs): t['fault%d'%j]=f
        yield t; i+=1
    for k in ('threads','ranks'):
        n=int(sc.get(k,1))
        for m in ({1,n//2,n-1} if n>1 else ()):
            if 0<m<n: t=dict(sc); t[k]=m; yield t
def limit_choices(case,get,put,sim_run,same,deadline):
    """keep only the choices needed: cut the tail by bisection, then drop chunks of the rest"""
    import time
    sc=dict(get(case)); sc['dump_choices']=1
    out=sim_run(put(case,sc))
    r=out.get('_last'); 
    if not r or 'nonzero' not in r: return case
    ch=[c for c in r['nonzero'].split(',') if c]
    if len(ch)>20000: return case
    def with_(l): s=dict(get(case)); s['choices']=','.join(l) or '0:0'; return put(case,s)
    if not same(sim_run(with_(ch))): return case
    lo,hi=0,len(ch)
    while lo<hi and time.time()<deadline:
        m=(lo+hi)//2
        if same(sim_run(with_(ch[:m]))): hi=m
        else: lo=m+1
    cur=ch[:hi]
    if not same(sim_run(with_(cur))): return with_(ch)
    n=2
    while len(cur)>=1 and time.time()<deadline:
        step=max(1,(len(cur)+n-1)//n); i=0; done=False
        while i<len(cur) and time.time()<deadline:
            t=cur[:i]+cur[i+step:]
            if same(sim_run(with_(t))): cur=t; done=True
            else: i+=step
        if step==1 and not done: break
        n=min(max(2,n*2),max(2,len(cur)))
    return with_(cur)

class Mesh:
    """one scenario of the workload 'mesh': a history of mesh, field, ghost and particle operations on the real classes, with the sequential reference"""
    name='mesh'; flavour='plain'
    def __init__(self,focus,comm=False,preempt=False):
        self.focus=focus; self.comm=comm; self.preempt=preempt
        if preempt: self.name='mesh-preempt'; self.flavour='tsan'
    def gen(self,seed,tier): 
        sc=mesh_gen.scenario(seed,self.focus,14 if tier=='quick' else 24)
        if self.preempt: # threads of a kernel are interleaved at single memory accesses
            import random, runs
            runs.preempt(random.Random('preempt/%d'%seed),sc)
        return dict(workload='mesh',sc=sc)
    def run(self,case,sim,prop):
        o=outcome(); r=sim.run(case['sc']); merge(o,r); o['_last']=r
        o['nontrivial']=int(case['sc']['ranks'])>1 and r.get('ops',0)>0
        v=None
        if 'violation' in r:
            k=r['violation']['kind']; d=r['violation']['detail']
            v=(k if ':' in k else prop+':'+k, d+(' [phase %s]'%'/'.join(r.get('phase',[])) if ':' not in k else ''))
        else:
            d=died(r)
            if d: v=(prop+':'+d[0],d[1])
        if v:
            if v[0].startswith(prop+':') : 
                if self.comm and v[0].split(':')[1] not in MPI_KINDS: o['other']=dict(kind=v[0],detail=v[1])
                else: o['verdict']=dict(kind=v[0],detail=v[1])
            else: o['other']=dict(kind=v[0],detail=v[1])
        return o
    def shrink(self,case):
        sc=case['sc']; ops=sc['ops'].split(';')
        n=len(ops)//2
        while n>=1:
            for i in range(0,len(ops),n):
                t=dict(sc); t['ops']=';'.join(ops[:i]+ops[i+n:]); yield dict(case,sc=t)
            n//=2
        for t in shrink_schedule(sc): yield dict(case,sc=t)
        for k,v in (('scaled',0),('periodic',0),('perz',0),('lmax',int(sc['lmax'])-1)):
            if int(sc.get(k,0))!=v and int(sc['lmax'])>=int(sc['lmin'])+1 and (k!='lmax' or v>int(sc['lmin'])): t=dict(sc); t[k]=v; yield dict(case,sc=t)
    def get_sc(self,case): return case['sc']
    def put_sc(self,case,sc): return dict(case,sc=sc)
    def describe(self,case): return {k:v for k,v in case['sc'].items() if k not in('wall_limit','max_ops','workload')}
