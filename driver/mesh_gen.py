"""Seeded scenarios for the workload "mesh": a history of operations, a rank count, and which kinds of schedule choice are on."""
import random
KINDS=['sched','delay','sendmode','recvmode','coll','reduce','omp']
def schedule(r,s,heavy=True):
    """swarm: each kind of nondeterminism is off, rare or frequent in this run"""
    for k in KINDS:
        s['p_'+k]=r.choice([0,0,0.05,0.3,0.7,1.0]) if heavy else 0
    if r.random()<0.25: s['slow%d'%r.randrange(s['ranks'])]=r.choice([5,50])
    s['perturb']=r.choice([0,0,85,170,255])
    return s
def geometry(r,s,small=False):
    dim=r.choice([2,2,2,3]); s['dim']=dim
    lmin=r.choice([0,1,1,2,2,3] if dim==2 else [0,1,1,2]); s['lmin']=lmin
    s['lmax']=lmin+r.choice([1,2,2,3] if dim==2 else [1,1,2])
    full=1<<lmin
    shape=r.choice(['square','square','rect','odd'])
    cx=[full]*3
    if shape=='rect' and lmin>0:
        cx=[r.choice([full,full,max(1,full//2)]) for _ in range(3)]; cx[r.randrange(2)]=full
    elif shape=='odd' and lmin>0:
        cx=[r.randint(1,full) for _ in range(3)]; cx[r.randrange(2)]=r.randint(full//2+1,full)
    s['cx'],s['cy'],s['cz']=cx
    per=0
    if r.random()<0.6: per=r.choice([7,7,1,2,3,4,5])
    s['periodic']=per
    if dim==2: s['perz']=per>>2&1; s['cz']=1
    b=r.choice([[4,4,4],[4,4,4],[2,2,2],[4,2,2],[6,4,2],[2,8,4]] if dim==2 else [[4,4,4],[2,2,2],[2,4,2]])
    s['bx'],s['by'],s['bz']=b
    s['scaled']=int(r.random()<0.2)
    s['max_cells']=1500 if dim==2 else 700
    return s
FN=['a','b','c','d','e','f','g','h']
def op_adapt(r): return 'A:%d:%d:%d:%d'%(r.randrange(1<<30),r.choice([0,5,20,40,70]),r.choice([0,10,50,90,100]),r.choice([0,0,1,1,2,3,4,4]))
def op_balance(r): return 'L:%d'%r.choice([0,0,1,2,3])
def op_fields(r):
    k=r.choice('NVDF')
    if k=='N': return 'N:%d:%s'%(r.randrange(1<<30),':'.join(str(r.randrange(8)) for _ in range(r.choice([1,1,2,3]))))
    if k=='V': return 'V:%d:%d'%(r.randrange(8),r.randrange(8))
    if k=='D': return 'D:%d'%r.randrange(8)
    return 'F:%d:%d'%(r.randrange(1<<30),r.randrange(8))
def op_exchange(r): return 'X:%d:%d:%d:%d'%(r.randrange(1<<30),r.choice([1,1,2,3]),int(r.random()<0.4),int(r.random()<0.25))
def op_reduce(r): return 'R:%d:%d:%d'%(r.randrange(1<<30),r.choice([1,1,2,3]),int(r.random()<0.5))
def op_part(r,what=None):
    w=r.choice([1,2,3,4,4,4,5]) if what is None else what
    return 'P:%d:%d:%d:%d:%d'%(w,r.randrange(1<<30),r.choice([0,0,1]),r.choice([0,1,20,50,100]) if w==4 else r.randrange(5) if w in(1,2,3) else r.choice([1,5,40,200]) if w==0 else r.randrange(2),r.randrange(5))
FOCUS={ # weights of A G L fields X R Q P(array/attr/move) P6
 'P01':dict(A=6,G=1,L=3,f=0.5,Q=0.3),
 'P02':dict(A=7,G=1,L=3),
 'P03':dict(A=3,L=6,f=0.3,G=0.5),
 'P04':dict(A=4,G=0.5,L=3,Q=4),
 'P05':dict(A=3,L=2,f=1.5,X=5),
 'P06':dict(A=3,L=2,f=1,R=5,X=0.5),
 'P07':dict(A=2,L=5,f=6),
 'P08':dict(A=6,G=0.7,L=4,f=1),
 'P09':dict(A=2,L=2,P=7),
 'P10':dict(A=2,L=3,P=1.5,D=5),
 'all':dict(A=4,G=0.5,L=3,f=2,X=2,R=2,Q=1,P=3,D=1),
}
def drill(r,s):
    """deep local refinement around one point: long chains of forced refinement that cross rank borders"""
    dim=r.choice([2,2,3]); s['dim']=dim; s['lmin']=lmin=r.choice([0,1,1,2] if dim==2 else [0,1,1]); s['lmax']=lmin+r.choice([5,6,7,8] if dim==2 else [4,5,6])
    s['cx']=s['cy']=s['cz']=1<<lmin; s['periodic']=r.choice([0,7,7,1]); s['perz']=s['periodic']>>2&1
    if dim==2: s['cz']=1
    s['bx']=s['by']=s['bz']=2; s['scaled']=0; s['max_cells']=1500 if dim==2 else 900; s['drill']=r.randrange(1<<30); s['ranks']=r.choice([2,3,4,5,6,6,6])
def op_drill(r): return 'A:%d:%d:%d:5'%(r.randrange(1<<30),r.choice([0,0,0,30]),r.choice([0,0,0,10,50]))
DEEP={'P01':0.5,'P02':0.4,'P03':0.2,'P04':0.25,'P08':0.2}
def scenario(seed,focus,maxops=14):
    r=random.Random('mesh/%s/%d'%(focus,seed)); s=dict(workload='mesh',seed=seed)
    s['ranks']=r.choice([1,2,2,3,3,4,4,5,6]); s['threads']=r.choice([1,1,2,3])
    geometry(r,s); schedule(r,s)
    w=FOCUS[focus]; names=list(w); n=r.randint(3,maxops); ops=[]
    deep=r.random()<DEEP.get(focus,0.08)
    if deep:
        drill(r,s); n=r.randint(6,maxops+6)
        for _ in range(r.randint(2,s['lmax']-s['lmin'])):
            ops.append(op_drill(r))
            if r.random()<0.4: ops.append(op_balance(r))
    if 'P' in w or 'D' in w: ops.append(op_part(r,0))
    for _ in range(n):
        k=r.choices(names,[w[x] for x in names])[0]
        if k=='A': ops.append(op_drill(r) if deep and r.random()<0.8 else op_adapt(r))
        elif k=='G': ops.append('G')
        elif k=='L': ops.append(op_balance(r))
        elif k=='f': ops.append(op_fields(r))
        elif k=='X': ops.append(op_exchange(r))
        elif k=='R': ops.append(op_reduce(r))
        elif k=='Q': ops.append('Q')
        elif k=='P': ops.append(op_part(r,0) if r.random()<0.15 else op_part(r))
        elif k=='D': ops.append(op_part(r,6))
    s['ops']=';'.join(ops); s['max_ops']=3000000; s['wall_limit']=60
    if focus!='all': s['watch']=focus
    return s
