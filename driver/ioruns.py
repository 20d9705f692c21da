"""Cases on the full program that involve its files: checkpoints, outputs, crashes, I/O errors, interrupts, cadence, recorded configuration, clocks."""
import os, random, re, shutil, math, zlib, rundata, run_gen, runs
from rundata import Bad
from cases import outcome, MPI_KINDS
from runs import Exec, RunCase, states, io_config
def particles(r,c,n=None):
    """carry particles that nothing moves"""
    c['run/initial_conditions']=c['run/initial_conditions']+',dsim_particles'; c['dsim/particles']=n if n is not None else r.choice([0,1,5,20,60]); c['dsim/particle_seed']=r.randrange(1<<30)
def movers(r,c,selfgravity=True):
    """particles that move; everything periodic"""
    particles(r,c); kind=r.choice(['tracers','tracers','NGP','CIC']); dim=int(c['mesh/ndim'])
    for d in range(dim):
        for e in ('min','max'): c['mesh/boundary_type_%s%s'%('xyz'[d],e)]='periodic'
    c['particles/update_position']='ParticleUpdate_%s_move'%kind; c['dsim/particle_velocity']=r.choice([0.3,1,5]); c['dsim/particle_mass']=r.choice([0.01,0.1])
    if kind!='tracers':
        c['dt/dt_kernel']+=',Compute_dt_particle_velocity'; c['dt/particle_cfl']=r.choice([0.3,0.8])
        cg=dim==3 and selfgravity and r.random()<0.4
        c['gravity/gravity_type']='field' if cg else 'constant_field'; c['gravity/solver']='GravitySolver_cg' if cg else r.choice(['GravitySolver_point_mass','dsim_gravity'])
        if c['gravity/solver']=='GravitySolver_point_mass': c['gravity/softening']=0.3; c['gravity/point_mass_Gmass']=0.1 # the gas stays admissible
        if cg: c['gravity/CG_eps']='1e-10'; c['gravity/4_Pi_G']=1.0
        if r.random()<0.6: c['particles/update_density']='ParticleUpdate_%s_density'%r.choice(['NGP','CIC'])
    return kind
def point(o,*k): o['cover']['state.%x'%zlib.crc32(repr(k).encode())]=1
def kill_at(u,ops): return max(1,int((0.1+0.9*u)*ops))
def domain(c): return [float(c['mesh/%smax'%x])-float(c['mesh/%smin'%x]) if 'mesh/%smax'%x in c else 1.0 for x in 'xyz']
PT=dict(tol=1e-11,ptol=1e-9)
def compare(A,B,what,cfg,exact_first=True,first=None):
    """B, a restarted run that began from state `first`, against the states A of the original run -> detail or None"""
    its=sorted(B)
    if not its: return what+': no state was saved'
    if first is not None:
        if its[0]!=first.iter: return '%s: first saved state is iteration %d, the checkpoint was of iteration %d'%(what,its[0],first.iter)
        d=rundata.diff(first,B[its[0]])
        if d: return '%s: state after restart differs from the saved one: %s'%(what,d)
    for it in its:
        if it in A:
            d=rundata.diff(A[it],B[it],tol=1e-11,ptol=1e-9,box=domain(cfg))
            if d: return '%s: iteration %d: %s'%(what,it,d)
    return None
class Restart(RunCase):
    """run, then restart from one of its checkpoints on another number of ranks, then restart again from a checkpoint of that run"""
    name='restart'
    def gen(self,seed,tier):
        r=random.Random('restart/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(3,6) if tier=='quick' else (3,12)); io_config(r,c,out=False); c['run/checkpoint_frequency']=r.choice([1,1,2]); x=r.random()
        if x<0.25: particles(r,c)
        elif x<0.4: movers(r,c)
        n=min(run_gen.max_ranks(c),r.choice([1,2,3,4,5,6])); ch=[]
        for _ in range(r.choice([1,1,2])): ch.append(dict(sc=run_gen.schedule(r,min(run_gen.max_ranks(c),r.choice([1,2,3,4,5,6])),r.random()<0.6),pick=r.random(),over={}))
        return dict(cfg=c,ref=run_gen.schedule(r,n,r.random()<0.5),vars=ch)
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; last=int(cfg['run/nstepmax']); a=Exec(sim,case['ref'],cfg,tag='ref',o=o)
        if a.bad(): return self.stopped(o,prop,a,'first run')
        A=states(a.rec); prev=a
        for v in case['vars']:
            C=[s for s in prev.rec.saves('chk') if s[4]]
            if not C: break
            s,it,t,_,_=C[int(v['pick']*max(1,len(C)-1))]; first=prev.rec.dump('chk',s)
            b=Exec(sim,v['sc'],None,disk=a.disk,name='restart_t_%d.ini'%it,tag='b%d'%case['vars'].index(v),o=o)
            if b.bad(): return self.stopped(o,prop,b,'run on %d ranks restarted from the checkpoint of iteration %d (written by %d ranks)'%(v['sc']['ranks'],it,prev.rec.ranks))
            try: B=states(b.rec)
            except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
            d=compare(A,B,'restart on %d ranks from iteration %d written by %d ranks'%(v['sc']['ranks'],it,prev.rec.ranks),cfg,first=first)
            if d: return self.verdict(o,prop,'restart',d)
            if it<last and last not in B: return self.verdict(o,prop,'restart-end','run restarted from iteration %d did not save iteration %d'%(it,last))
            if it<last: o['nontrivial']=True
            prev=b
        return o
class Crash(RunCase):
    """the job is killed at some step; everything saved before must be usable"""
    name='crash'
    def gen(self,seed,tier):
        r=random.Random('crash/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(3,6) if tier=='quick' else (3,10)); io_config(r,c); c['run/output_frequency']=1; c['run/checkpoint_frequency']=r.choice([1,1,2]); c['output/output_real_type']='double'
        if r.random()<0.2: particles(r,c)
        mr=run_gen.max_ranks(c); n=min(mr,r.choice([1,2,2,3,4,6])); sc=run_gen.schedule(r,n,r.random()<0.7); sc['p_io']=r.choice([0,0.3,1.0])
        return dict(cfg=c,ref=run_gen.calm(n),vars=[dict(sc=sc,u=[r.random() for _ in range(1 if tier=='quick' else 2)],late=r.random()<0.5,re=run_gen.calm(min(mr,r.choice([1,2,3]))),over={})])
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; v=case['vars'][0]; a=Exec(sim,v['sc'],cfg,tag='ref',o=o)
        if a.bad(): return self.stopped(o,prop,a,'undisturbed run')
        A=states(a.rec); ops=a.r['ops']; sc=v['sc']; disk=None; name='in.ini'; what=''
        done_out={}; done_chk={}
        for k,u in enumerate(v['u']):
            at=v.get('at') or kill_at(u,ops)
            b=Exec(sim,dict(sc,fault0='kill at=%d'%at),cfg if k==0 else None,disk=disk,name=name,tag='k%d'%k,o=o); disk=b.disk
            if b.bad() and 'violation' in b.r: return self.stopped(o,prop,b,'run killed at step %d'%at)
            if 'died' in b.r: return self.stopped(o,prop,b,'run killed at step %d'%at)
            what='run on %d ranks killed at step %d of %d'%(sc['ranks'],at,ops)
            for s,it,t,bg,dn in b.rec.saves('out'):
                if bg: done_out.pop(it,None)
                if dn: done_out[it]=b.rec.dump('out',s)
            begun={s[1] for s in b.rec.saves('chk')}
            for it in begun: done_chk.pop(it,None)
            for s,it,t,bg,dn in b.rec.saves('chk'):
                if dn: done_chk[it]=b.rec.dump('chk',s)
            for it,d in done_out.items():
                x=out_check(disk,'t',it,d,cfg)
                if x: return self.verdict(o,prop,'output-damaged','%s: output of iteration %d, completed before: %s'%(what,it,x))
            x=index_check(disk,'t_main.xmf',{it:1 for it in done_out},'t_iter%07d',last_may_miss=True)
            if x and done_out and k==0: return self.verdict(o,prop,'index','%s: %s'%(what,x))
            if not done_chk: break
            it=max(done_chk); o['nontrivial']=True
            name='restart_t_%d.ini'%it
            if k+1<len(v['u']): sc=dict(v['re'])
        if done_chk:
            its=sorted(done_chk); pick=[its[-1]]
            if len(its)>1: pick.append(its[0])
            for it in pick:
                e=Exec(sim,v['re'],None,disk=disk,name='restart_t_%d.ini'%it,tag='re',o=o)
                if e.bad(): return self.verdict(o,prop,'restart','%s, then restarted on %d ranks from the completed checkpoint of iteration %d: %s: %s'%((what,v['re']['ranks'],it)+e.bad()))
                try: B=states(e.rec)
                except Bad as x: return self.verdict(o,prop,'restart',str(x))
                d=compare(A,B,'%s, then restarted on %d ranks from the completed checkpoint of iteration %d'%(what,v['re']['ranks'],it),cfg,first=done_chk[it])
                if d: return self.verdict(o,prop,'restart',d)
                last=int(cfg['run/nstepmax'])
                if it<last and last not in B: return self.verdict(o,prop,'restart','%s, restarted: the run did not reach iteration %d'%(what,last))
                if it==its[-1] and len(pick)>1: continue
        return o
# ---------- output files
def near(a,b,real):
    return a==b if real=='double' else abs(a-b)<=1.5e-7*max(abs(b),1e-30)+1e-37
def f32(x):
    import struct
    try: return struct.unpack('f',struct.pack('f',x))[0]
    except OverflowError: return math.copysign(math.inf,x)
SHUF=((0,0,0),(1,0,0),(1,1,0),(0,1,0),(0,0,1),(1,0,1),(1,1,1),(0,1,1))
def out_check(disk,prefix,it,d,cfg,full=True):
    """the output of one iteration against the recorded state -> detail or None"""
    base='%s_iter%07d'%(prefix,it); p=os.path.join(disk,cfg.get('output/outputDir','./'),base)
    real=cfg.get('output/output_real_type','float'); cast=(lambda x:x) if real=='double' else f32
    for e in ('.h5','.xmf'):
        if not os.path.exists(p+e): return '%s is missing'%(base+e)
    try: h=rundata.h5safe(p+'.h5')
    except Bad as x: return str(x)
    dim=d.dim; b=d.b; nn=4*(dim-1); ncell=len(d.octs)*d.ns
    want=[v for v in cfg.get('output/write_variables','rho').split(',') if v in d.fields or v in('ioct','level','rank')]
    for k in ['coordinates','connectivity']+want:
        if k not in h: return '%s.h5 has no dataset %s'%(base,k)
    co=h['coordinates']; cn=h['connectivity']
    if co[0][-1]!=3 or cn[0]!=(ncell,nn): return '%s.h5: connectivity has shape %s, expected (%d, %d)'%(base,cn[0],ncell,nn)
    npt=len(co[2])//3; C=co[2]; N=cn[2]
    # geometry of every cell: corners in the order of the element type; cells in any order
    lmin=int(cfg['amr/level_min']); cg=[int(cfg.get('amr/coarse_oct_resolution_'+x,1<<lmin)) for x in 'xyz'[:dim]]; lo=[float(cfg.get('mesh/%smin'%x,0)) for x in 'xyz']; L=domain(cfg)
    grid={}
    for k in d.octs: grid[k]=0
    seen=set(); corners=SHUF[:nn]; order=[]; maxl=max(k[0] for k in d.octs)
    cs=[[L[q]/(cg[q]*(1<<(l-lmin))*b[q]) if l>=lmin else 0 for q in range(dim)] for l in range(maxl+1)]
    eps=1e-9 if real=='double' else 3e-6
    for i in range(ncell):
        nd=N[i*nn:(i+1)*nn]
        if max(nd)>=npt or min(nd)<0: return '%s.h5: cell %d names node %d of %d'%(base,i,max(nd),npt)
        x0=[C[3*nd[0]+q] for q in range(dim)]; dx=C[3*nd[1]]-x0[0]
        # level from the cell size
        l=None
        for t in range(lmin,maxl+1):
            if abs(dx-cs[t][0])<0.2*cs[t][0]: l=t
        if l is None: return '%s.h5: cell %d has size %g, which no level has'%(base,i,dx)
        g=[(x0[q]-lo[q])/cs[l][q] for q in range(dim)]; gi=[round(x) for x in g]; tol=[eps*max(abs(lo[q]),L[q]+abs(lo[q]))/cs[l][q]+1e-6 for q in range(dim)]
        if any(abs(g[q]-gi[q])>tol[q] for q in range(dim)): return '%s.h5: cell %d is not on the grid: %s'%(base,i,g)
        for m in range(1,nn):
            for q in range(dim):
                if abs((C[3*nd[m]+q]-lo[q])/cs[l][q]-gi[q]-corners[m][q])>tol[q]: return '%s.h5: corner %d of cell %d is at %g in direction %d, expected %g'%(base,m,i,C[3*nd[m]+q],q,lo[q]+(gi[q]+corners[m][q])*cs[l][q])
        o=[gi[q]//b[q] for q in range(dim)]+[0]*(3-dim); s=[gi[q]-o[q]*b[q] for q in range(dim)]+[0]*(3-dim)
        k=(l,o[0],o[1],o[2]); j=s[0]+b[0]*(s[1]+b[1]*s[2])
        if k not in d.octs: return '%s.h5: cell %d lies in %s, which the mesh does not contain'%(base,i,rundata.oname(k))
        if (k,j) in seen: return '%s.h5: a cell of %s is listed twice'%(base,rundata.oname(k))
        seen.add((k,j)); order.append((k,j))
    if len(seen)!=ncell: return '%s.h5 lists %d cells of %d'%(base,len(seen),ncell)
    for v in want:
        w=h[v]; n=1
        for x in w[0]: n*=x
        if n!=ncell: return '%s.h5: %s has %d values for %d cells'%(base,v,n,ncell)
        vals={}
        for i,(k,j) in enumerate(order):
            if v=='level': e=k[0]
            elif v=='rank': e=d.owner[k]
            elif v=='ioct':
                if 'pos' not in vals: vals['pos']={q:z for z,q in enumerate(d.order)}
                e=vals['pos'][k]
            else:
                if k not in vals: vals[k]=d.values(k,v)
                e=cast(vals[k][j])
            if w[2][i]!=e and not (w[2][i]!=w[2][i] and e!=e): return '%s.h5: %s of sub-cell %d of %s is %.17g, expected %.17g'%(base,v,j,rundata.oname(k),w[2][i],e)
    x=xmf_check(p+'.xmf',base,h,['coordinates','connectivity']+want,d.time)
    if x: return x
    for spec,at in part_wanted(cfg).items():
        if spec not in d.parts: continue
        x=parts_check(disk,cfg,prefix,it,spec,at,d,cast)
        if x: return x
    return None
def part_wanted(cfg):
    w={}
    for v in cfg.get('output/write_particle_variables','').split(','):
        if '/' in v: a,x=v.split('/'); w.setdefault(a,[]).append(x)
        elif v: w.setdefault(v,[])
    return w
def parts_check(disk,cfg,prefix,it,name,at,d,cast):
    base='%s_particles_%s_iter%07d'%(prefix,name,it); p=os.path.join(disk,cfg.get('output/outputDir','./'),base)
    for e in ('.h5','.xmf'):
        if not os.path.exists(p+e): return '%s is missing'%(base+e)
    try: h=rundata.h5safe(p+'.h5')
    except Bad as x: return str(x)
    attrs,rows=d.parts[name]; at=[a for a in at if a in attrs]; n=len(rows)
    for k in ['coordinates']+at:
        if k not in h: return '%s.h5 has no dataset %s'%(base,k)
        if len(h[k][2])!=n*(3 if k=='coordinates' else 1): return '%s.h5: %s has %d values for %d particles'%(base,k,len(h[k][2]),n)
    C=h['coordinates'][2]; got=sorted(tuple(C[3*i:3*i+3])+tuple(h[a][2][i] for a in at) for i in range(n)); exp=sorted(tuple(cast(x) for x in r[:3])+tuple(cast(r[3+attrs.index(a)]) for a in at) for r in rows)
    for g,e in zip(got,exp):
        if g!=e: return '%s.h5 holds a particle %s, expected %s'%(base,g,e)
    return xmf_check(p+'.xmf',base,h,['coordinates']+at,d.time)
def xmf_check(path,base,h,names,time):
    import xml.etree.ElementTree as ET
    try: root=ET.fromstring(re.sub(r'<!DOCTYPE[^>]*>','',open(path).read()))
    except ET.ParseError as x: return '%s.xmf cannot be parsed: %s'%(base,x)
    items=[]
    for e in root.iter('DataItem'):
        t=e.text.strip(); f,_,ds=t.partition(':/')
        if f!=base+'.h5': return '%s.xmf refers to %s'%(base,f)
        if ds not in h: return '%s.xmf refers to dataset %s, which the file does not contain'%(base,ds)
        dims=[int(x) for x in e.get('Dimensions').split()]; n=1
        for x in dims: n*=x
        if n!=len(h[ds][2]): return '%s.xmf: dataset %s is described as %s, the file has %s'%(base,ds,dims,h[ds][0])
        pr=e.get('Precision')
        if pr and int(pr)!=int(h[ds][1][1:]): return '%s.xmf: dataset %s is described with precision %s, the file has %s'%(base,ds,pr,h[ds][1])
        ty=e.get('NumberType') or e.get('DataType')
        if ty and (ty=='Float')!=(h[ds][1][0]=='f'): return '%s.xmf: dataset %s is described as %s'%(base,ds,ty)
        items.append(ds)
    for k in names:
        if items.count(k)!=1: return '%s.xmf refers %d times to %s'%(base,items.count(k),k)
    t=[float(e.get('Value')) for e in root.iter('Time')]
    if len(t)!=1 or abs(t[0]-time)>1e-5*abs(time)+1e-300: return '%s.xmf gives time %s, expected %g'%(base,t,time)
    ne=[int(e.get('NumberOfElements')) for e in root.iter('Topology')]
    n=h['connectivity'][0][0] if 'connectivity' in h else len(h['coordinates'][2])//3
    if ne!=[n]: return '%s.xmf gives %s elements, expected %d'%(base,ne,n)
    return None
def index_check(disk,name,expected,fmt,last_may_miss=False):
    """the index lists each expected iteration once, in order, and no file that is missing (but the last when it was being written)"""
    import xml.etree.ElementTree as ET
    p=os.path.join(disk,name)
    if not os.path.exists(p): return None if not expected else '%s is missing'%name
    txt=open(p).read(); refs=re.findall(r'<xi:include href="([^"]*)"',txt)
    if not last_may_miss:
        try: ET.fromstring(re.sub(r'<!DOCTYPE[^>]*>','',txt))
        except ET.ParseError as x: return '%s cannot be parsed: %s'%(name,x)
    want=[fmt%it+'.xmf' for it in sorted(expected)]
    for i,f in enumerate(refs):
        if not os.path.exists(os.path.join(disk,f)) and not (last_may_miss and i==len(refs)-1): return '%s lists %s, which does not exist'%(name,f)
    got=[f for f in refs if f in want]
    if got!=want or (not last_may_miss and refs!=want): return '%s lists %s, expected %s'%(name,refs,want)
    if last_may_miss and len([f for f in refs if f not in want])>1: return '%s lists %s, completed outputs are %s'%(name,refs,want)
    return None
class Files(RunCase):
    """every completed output against the recorded state"""
    name='files'; same=False
    def gen(self,seed,tier):
        r=random.Random('files/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(1,4) if tier=='quick' else (2,8)); io_config(r,c,chk=False)
        v=['rho','rho_vx','rho_vy','rho_vz','e_tot']+(['Bx','By','Bz'] if 'MHD' in c['hydro/update'] else [])+['ioct','level','rank']; k=r.randint(1,len(v)); r.shuffle(v); c['output/write_variables']=','.join(v[:k])
        if r.random()<0.1: c['output/write_variables']+=',nosuchfield'
        if r.random()<0.45:
            if r.random()<0.3: movers(r,c)
            else: particles(r,c,r.choice([0,1,3,20,60]))
            a=['vx','vy','vz','mass','id']; r.shuffle(a); c['output/write_particle_variables']=','.join('particles/'+x for x in a[:r.randint(1,5)])
        if r.random()<0.3: c['output/outputDir']='sub/dir'
        n=min(run_gen.max_ranks(c),r.choice([1,2,3,4,5,6])); sc=run_gen.schedule(r,n); sc['p_io']=r.choice([0,0.3,1.0])
        return dict(cfg=c,vars=[dict(sc=sc,over={})])
    def run(self,case,sim,prop):
        o=outcome(); v=case['vars'][0]; cfg=dict(case['cfg'],**v.get('over',{})); e=Exec(sim,v['sc'],cfg,tag='a',o=o)
        if e.bad(): return self.stopped(o,prop,e,'run')
        D={}
        for s,it,t,bg,dn in e.rec.saves('out'): D[it]=e.rec.dump('out',s)
        if not D: return self.verdict(o,prop,'output','nothing was written')
        for it,d in D.items():
            x=out_check(e.disk,'t',it,d,cfg)
            if x: return self.verdict(o,prop,'output','%d ranks: %s'%(v['sc']['ranks'],x))
        dd=os.path.join(e.disk,cfg.get('output/outputDir','./')); x=index_check(dd,'t_main.xmf',D,'t_iter%07d')
        if x: return self.verdict(o,prop,'index',x)
        for a in part_wanted(cfg):
            x=index_check(dd,'t_particles_%s_main.xmf'%a,D,'t_particles_%s_iter%%07d'%a)
            if x: return self.verdict(o,prop,'index',x)
        have={int(m.group(1)) for f in os.listdir(dd) for m in [re.match(r't_iter(\d+)\.h5$',f)] if m}
        if have!=set(D): return self.verdict(o,prop,'output','files exist for iterations %s, saved were %s'%(sorted(have),sorted(D)))
        o['nontrivial']=v['sc']['ranks']>1
        return o

class Particles(RunCase):
    """particles that move: the same trajectories on every partition, none lost, exact velocities in a uniform field"""
    name='particles'
    def __init__(self,preempt=False):
        self.preempt=preempt
        if preempt: self.name='particles-preempt'; self.flavour='tsan'
    def gen(self,seed,tier):
        r=random.Random('particles/%d'%seed); c=run_gen.config(r,bc=['periodic'],steps=(2,5) if tier=='quick' else (4,12)); movers(r,c)
        if self.preempt:
            run_gen.small(c)
            if c.get('gravity/CG_eps'): c['gravity/CG_eps']='1e-7'; c['run/nstepmax']=2
        mr=run_gen.max_ranks(c); vs=[]
        for _ in range(1 if self.preempt else 2):
            over={}
            if r.random()<0.5: over['amr/load_balancing_frequency']=r.choice([1,2,3,1000])
            if r.random()<0.5: over['amr/loadbalance_coherent_levels']=r.choice([0,1,2,3])
            vs.append(dict(sc=run_gen.schedule(r,min(mr,r.choice([2,2,3,4,5,6])),r.random()<0.6),over=over))
            if self.preempt: runs.preempt(r,vs[-1]['sc'])
        return dict(cfg=c,ref=run_gen.calm(1),vars=vs)
    def stopped(self,o,prop,e,what):
        if re.search(r'Compute_dt_hydro.*invalid dt',e.bad()[1],re.S): o['other']=dict(kind='gas:no-time-step',detail=what+': the gas became inadmissible'); return o # strong forces on the gas, nothing about particles
        return super().stopped(o,prop,e,what)
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; a=Exec(sim,case['ref'],cfg,tag='ref',o=o)
        if a.bad(): return self.stopped(o,prop,a,'run on one rank')
        A=states(a.rec); x=self.own(a,A,cfg)
        if x: return self.verdict(o,prop,'particles','run on one rank: '+x)
        for v in case['vars']:
            c=dict(cfg,**v.get('over',{})); b=Exec(sim,v['sc'],c,tag='var',o=o); what='%d ranks'%v['sc']['ranks']
            if b.bad(): return self.stopped(o,prop,b,'run on '+what)
            try: B=states(b.rec)
            except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
            x=self.own(b,B,c)
            if x: return self.verdict(o,prop,'particles','run on %s: %s'%(what,x))
            if list(A)!=list(B): return self.verdict(o,prop,'states','%s: iterations saved %s, expected %s'%(what,list(B),list(A)))
            for it in A:
                if set(A[it].octs)!=set(B[it].octs) or A[it].iter!=B[it].iter: break # another property
                for n in A[it].parts:
                    x=rundata.pdiff(n,A[it].parts[n],B[it].parts.get(n,((),[])),1e-8,domain(cfg))
                    if x: return self.verdict(o,prop,'trajectory','iteration %d, %s against 1: %s'%(it,what,x))
            o['nontrivial']=True; last=B[max(B)]
            o['cover']['state.%x'%hash(frozenset(last.owner.items()))]=1
        return o
    def own(self,e,S,cfg):
        """each particle once, inside the domain, mass unchanged; velocity exact in a uniform field"""
        first=None; dim=int(cfg['mesh/ndim']); lo=[float(cfg.get('mesh/%smin'%x,0)) for x in 'xyz']; L=domain(cfg); dts={s['iter']:s['time'] for s in e.rec.steps()}
        for it,d in S.items():
            at,rows=d.parts['particles']; i=3+at.index('id'); m=3+at.index('mass'); P={int(r[i]):r for r in rows}
            if len(P)!=len(rows) or len(rows)!=int(cfg['dsim/particles']): return 'iteration %d: %d particles with %d different numbers, expected %s'%(it,len(rows),len(P),cfg['dsim/particles'])
            if first is None: first=(d.time,P)
            for k,r in P.items():
                for q in range(dim):
                    if not lo[q]<=r[q]<=lo[q]+L[q]: return 'iteration %d: particle %d is at %g in direction %d, outside of the domain'%(it,k,r[q],q)
                if r[m]!=first[1][k][m]: return 'iteration %d: mass of particle %d changed'%(it,k)
                if cfg['particles/update_position']=='ParticleUpdate_tracers_move': g=(0,0,0)
                elif cfg.get('gravity/solver')=='dsim_gravity': g=(0.25,-0.5,0.75 if dim==3 else 0)
                else: continue
                for q in range(dim):
                    v=r[3+at.index('v'+'xyz'[q])]; v0=first[1][k][3+at.index('v'+'xyz'[q])]; w=v0+g[q]*(d.time-first[0])
                    if not abs(v-w)<=1e-9*max(abs(v0),1): return 'iteration %d: velocity %s of particle %d is %.17g, expected %.17g in a uniform field'%(it,'xyz'[q],k,v,w)
        return None
# ---------- checkpoint files
def chk_check(disk,prefix,it,d,cfg):
    """the checkpoint of one iteration against the recorded state -> detail or None"""
    base='restart_%s_%d'%(prefix,it); p=os.path.join(disk,cfg.get('output/outputDir','./'),base)
    for e in ('.h5','.ini'):
        if not os.path.exists(p+e): return '%s is missing'%(base+e)
    try: h=rundata.h5safe(p+'.h5')
    except Bad as x: return str(x)
    n=len(d.order); need=['Octree']+['fields/'+f for f in d.fields]
    for a,(at,rows) in d.parts.items(): need+=['particles/%s/pos/%s'%(a,x) for x in 'xyz']+['particles/%s/attributes/%s'%(a,x) for x in at]
    for k in need:
        if k not in h: return '%s.h5 has no dataset %s'%(base,k)
    o=h['Octree']; seen=[(o[2][4*i+3],o[2][4*i],o[2][4*i+1],o[2][4*i+2]) for i in range(o[0][0])] if len(o[0])==2 and o[0][1]==4 else []
    if sorted(seen)!=sorted(d.octs): return '%s.h5: Octree lists %d octants, not those of the mesh'%(base,len(seen))
    for f in d.fields:
        w=h['fields/'+f][2]
        if len(w)!=n*d.ns: return '%s.h5: field %s has %d values, expected %d'%(base,f,len(w),n*d.ns)
        for i,k in enumerate(seen):
            v=d.values(k,f)
            if v.tobytes()!=w[i*d.ns:(i+1)*d.ns].tobytes(): return '%s.h5: field %s of %s differs from the saved state'%(base,f,rundata.oname(k))
    for a,(at,rows) in d.parts.items():
        cols=[h['particles/%s/pos/%s'%(a,x)][2] for x in 'xyz']+[h['particles/%s/attributes/%s'%(a,x)][2] for x in at]
        if any(len(c)!=len(rows) for c in cols): return '%s.h5: particles %s: %s values, expected %d'%(base,a,[len(c) for c in cols],len(rows))
        if sorted(zip(*cols))!=sorted(rows): return '%s.h5: particles %s differ from the saved state'%(base,a)
    for k,v in (('@scalar_data/iter',d.iter),('@scalar_data/time',d.time)):
        if h.get(k)!=v: return '%s.h5: %s is %s, expected %s'%(base,k,h.get(k),v)
    return None
def text(path): 
    with open(path,'rb') as f: return f.read()
class IOFault(RunCase):
    """a write, open, flush or read fails: the run may stop, but not with success and something missing"""
    name='iofault'
    def gen(self,seed,tier):
        r=random.Random('iofault/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(1,3) if tier=='quick' else (1,6)); io_config(r,c); c['run/checkpoint_frequency']=r.choice([1,1,2]); c['output/output_real_type']='double'
        if r.random()<0.3:
            particles(r,c,r.choice([1,5,20])); c['output/write_particle_variables']=r.choice(['particles','particles/mass','particles/id,particles/vx'])
        n=min(run_gen.max_ranks(c),r.choice([1,1,2,2,3,4])); sc=run_gen.schedule(r,n,r.random()<0.5); sc['p_io']=r.choice([0,0,0.3])
        k=r.choice(['write_error']*6+['open_error']*2+['sync_error']+['open_read_error','read_error','read_error'])
        m={'write_error':['','.h5','.h5','restart_','restart_','iter','_iter','.xmf','.xmf','main.xmf','.ini','.ini','last.ini'],'open_error':['','.h5','.h5','.xmf','main.xmf','.ini','last.ini'],'sync_error':['.h5'],'open_read_error':['','.h5'],'read_error':['','.h5','.h5','.ini']}[k]
        return dict(cfg=c,vars=[dict(sc=sc,fault=dict(kind=k,match=r.choice(m),errno=r.choice([28,28,5,122]),sticky=r.choice([0,0,1]),partial=r.choice([0,1]),rank=r.choice([-1,-1,-1,0,n-1])),u=r.random(),over={})])
    def shrink(self,case):
        yield from super().shrink(case)
        v=case['vars'][0]; f=v['fault']
        for k,x in (('partial',0),('sticky',0),('rank',-1)):
            if f[k]!=x: yield dict(case,vars=[dict(v,fault=dict(f,**{k:x}))])
        if case['cfg'].get('output/write_particle_variables'): c=dict(case['cfg']); c.pop('output/write_particle_variables'); yield dict(case,cfg=c)
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; v=case['vars'][0]; f=v['fault']; sc=v['sc']; read='read' in f['kind']
        spec='%s match=%s errno=%d sticky=%d partial=%d rank=%d'%(f['kind'],f['match'],f['errno'],f['sticky'],f['partial'],f['rank'])
        a=Exec(sim,dict(sc,fault0=spec+' nth=1000000000'),cfg,tag='ref',o=o) # counts the calls the fault applies to
        if a.bad(): return self.stopped(o,prop,a,'undisturbed run')
        A=states(a.rec); disk=None; name='in.ini'; first=None
        if read: # restart from the first checkpoint, with reads failing
            C=[s for s in a.rec.saves('chk') if s[4]]; it=C[0][1]; name='restart_t_%d.ini'%it; first=a.rec.dump('chk',C[0][0]); disk=a.disk; c0=None
            q=Exec(sim,dict(sc,fault0=spec+' nth=1000000000'),None,disk=disk,name=name,tag='q',o=o)
            if q.bad(): return self.stopped(o,'P15',q,'undisturbed restart')
            N=q.r['cover'].get('match0',0)
        else: N=a.r['cover'].get('match0',0)
        if not N: return o
        nth=v.get('nth') or 1+int(v['u']*N)
        b=Exec(sim,dict(sc,fault0=spec+' nth=%d'%nth),None if read else cfg,disk=disk,name=name,tag='b',o=o)
        if not b.r.get('cover',{}).get('fault.'+f['kind']) and 'died' not in b.r: return o
        o['nontrivial']=True; path=[os.path.basename(x) for x in b.r.get('io_failed','').split(';') if x][:1]; point(o,f['kind'],re.sub(r'\d+','#',path[0]) if path else '',nth,N,f['sticky'],f['partial'],sc['ranks'])
        what='%s %d of %d%s%s on %s (errno %d), %d ranks'%(f['kind'],nth,N,' and all later ones' if f['sticky'] else '','' if f['rank']<0 else ' of rank %d'%f['rank'],path[0] if path else '?',f['errno'],sc['ranks'])
        bad=b.bad()
        if bad and bad[0] in MPI_KINDS+('hang',): o['other']=dict(kind='io:'+bad[0],detail=what+': '+bad[1]); return o # ended without success; how is not part of this property
        return self.judge(o,prop,b,A,a,cfg,what,bad is None,read,first)
    def judge(self,o,prop,b,A,a,cfg,what,success,read,first):
        end='the run ended with success, but ' if success else 'the run stopped; '
        if read:
            if success:
                try: B=states(b.rec)
                except Bad as x: return self.verdict(o,prop,'read',what+': '+str(x))
                d=compare(A,B,what+': the restarted run ended with success, but',cfg,first=first)
                if d: return self.verdict(o,prop,'read',d)
            return o
        outs={it:b.rec.dump('out',s) for s,it,t,bg,dn in b.rec.saves('out') if dn}; chks={it:b.rec.dump('chk',s) for s,it,t,bg,dn in b.rec.saves('chk') if dn}
        for it,d in outs.items():
            x=out_check(b.disk,'t',it,d,cfg)
            if x: return self.verdict(o,prop,'output','%s: %soutput of iteration %d: %s'%(what,end,it,x))
        for it,d in chks.items():
            x=chk_check(b.disk,'t',it,d,cfg)
            if x: return self.verdict(o,prop,'checkpoint','%s: %scheckpoint of iteration %d: %s'%(what,end,it,x))
            n='restart_t_%d.ini'%it
            if text(os.path.join(b.disk,n))!=text(os.path.join(a.disk,n)): return self.verdict(o,prop,'checkpoint','%s: %s%s is incomplete'%(what,end,n))
        for n,e in [('t_main.xmf','t_iter%07d')]+[('t_particles_%s_main.xmf'%p,'t_particles_%s_iter%%07d'%p) for p in part_wanted(cfg)]:
            x=index_check(b.disk,n,outs,e,last_may_miss=not success)
            if x: return self.verdict(o,prop,'index','%s: %s%s'%(what,end,x))
        if success:
            for n in a.files():
                if n=='timers.txt': continue
                if n not in b.files(): return self.verdict(o,prop,'missing','%s: %s%s is missing'%(what,end,n))
            if text(os.path.join(b.disk,'last.ini'))!=text(os.path.join(a.disk,'last.ini')): return self.verdict(o,prop,'configuration','%s: %slast.ini is incomplete'%(what,end))
        return o
class Interrupt(RunCase):
    """SIGINT reaches some ranks at some step"""
    name='interrupt'
    def gen(self,seed,tier):
        r=random.Random('interrupt/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(3,7) if tier=='quick' else (3,14)); io_config(r,c,out=r.random()<0.5); c['run/checkpoint_frequency']=r.choice([-1,-1,1,2,3]); c['output/output_real_type']='double'
        if r.random()<0.4: c['run/output_frequency']=r.choice([-1,2,3])
        if r.random()<0.15: particles(r,c)
        mr=run_gen.max_ranks(c); n=min(mr,r.choice([1,2,2,3,4,5,6])); sc=run_gen.schedule(r,n,r.random()<0.7); sc['p_io']=r.choice([0,0,0.3]); who=[k for k in range(n)]; r.shuffle(who); k=r.choice([1,1,2,n]) if n>1 else 1; k=min(k,n); masks=[sum(1<<x for x in who[:k])]
        if k<n and r.random()<0.4: masks.append(sum(1<<x for x in who[k:k+r.randint(1,n-k)])) # others later
        return dict(cfg=c,vars=[dict(sc=sc,masks=masks,u=sorted(r.random() for _ in masks),re=run_gen.calm(min(mr,r.choice([1,2,3]))),over={})])
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; v=case['vars'][0]; sc=v['sc']; a=Exec(sim,sc,cfg,tag='ref',o=o); last=int(cfg['run/nstepmax'])
        if a.bad(): return self.stopped(o,prop,a,'undisturbed run')
        A=states(a.rec); ops=a.r['ops']; t=[int(l[-1]) for g in a.rec.logs for l in g if l[0]=='S']; lo,hi=int(min(t)*0.97),min(ops,int(max(t)*1.03)); at=v.get('at') or [lo+int(u*(hi-lo)) for u in v['u']]
        f={'fault%d'%i:'sigint at=%d mask=%d'%(x,m) for i,(x,m) in enumerate(zip(at,v['masks']))}
        b=Exec(sim,dict(sc,**f),cfg,tag='b',o=o); what='SIGINT to ranks %s of %d'%(', '.join('%s at step %d'%([k for k in range(sc['ranks']) if m>>k&1],x) for x,m in zip(at,v['masks'])),sc['ranks'])
        cov=b.r.get('cover',{})
        if cov.get('fault.sigint_default') or not cov.get('fault.sigint_delivered'): return o # outside of the time loop
        if b.bad():
            k,d=b.bad(); return self.verdict(o,prop,'did-not-end','%s: the run did not end normally: %s: %s'%(what,k,d))
        o['nontrivial']=True; point(o,v['masks'],[[sum(1 for x in t if x<=y) for y in at],[sum(1 for l in g if l[0] in 'BE' and int(l[3])>0) for g in b.rec.logs]],b.r.get('ops',0)//50)
        try: B=states(b.rec); st=b.rec.steps()
        except Bad as x: return self.verdict(o,prop,'ranks-disagree','%s: %s'%(what,x))
        counts=[sum(1 for l in g if l[0]=='S') for g in b.rec.logs]
        if len(set(counts))!=1: return self.verdict(o,prop,'ranks-disagree','%s: ranks took %s steps'%(what,counts))
        O=[s for s in b.rec.saves('out')]; C=[s for s in b.rec.saves('chk')]; F=counts[0]
        # a rank that is told before step n ends takes that step and, when its vote was already cast, one more
        lim=last
        for x,m in zip(at,v['masks']):
            for k in range(sc['ranks']):
                if m>>k&1: lim=min(lim,sum(1 for l in b.rec.logs[k] if l[0]=='S' and int(l[-1])<=x)+2)
        if F>lim: return self.verdict(o,prop,'late','%s: the run went on until iteration %d, expected at most %d'%(what,F,lim))
        for n,S in (('output',O),('checkpoint',C)):
            if not S or S[-1][1]!=F or not S[-1][4]: return self.verdict(o,prop,'final-'+n,'%s: stopped after iteration %d, last %s is of %s'%(what,F,n,S[-1][1:2] if S else None))
        for it in B:
            if it in A:
                d=rundata.diff(A[it],B[it])
                if d: return self.verdict(o,prop,'state','%s: iteration %d: %s'%(what,it,d))
        d=b.rec.dump('out',O[-1][0])
        if cfg['output/backend']=='dsim_hdf5':
            x=out_check(b.disk,'t',F,d,cfg) or index_check(b.disk,'t_main.xmf',{s[1]:1 for s in O},'t_iter%07d')
            if x: return self.verdict(o,prop,'final-output','%s: %s'%(what,x))
        first=b.rec.dump('chk',C[-1][0]); x=chk_check(b.disk,'t',F,first,cfg)
        if x: return self.verdict(o,prop,'final-checkpoint','%s: %s'%(what,x))
        e=Exec(sim,v['re'],None,disk=b.disk,name='restart_t_%d.ini'%F,tag='re',o=o)
        if e.bad(): return self.verdict(o,prop,'restart','%s, then restarted: %s: %s'%((what,)+e.bad()))
        try: R=states(e.rec)
        except Bad as x: return self.verdict(o,prop,'restart',str(x))
        d=compare(A,R,what+', then restarted on %d ranks from iteration %d'%(v['re']['ranks'],F),cfg,first=first)
        if d: return self.verdict(o,prop,'restart',d)
        if F<last and last not in R: return self.verdict(o,prop,'restart','%s, restarted from iteration %d: did not save iteration %d'%(what,F,last))
        return o
class Cadence(RunCase):
    """when things happen: end of run, outputs, checkpoints, mesh cycles, size of the steps"""
    name='cadence'
    def gen(self,seed,tier):
        r=random.Random('cadence/%d'%seed); c=run_gen.config(r,steps=(3,8) if tier=='quick' else (3,20)); mr=run_gen.max_ranks(c); n=min(mr,r.choice([1,1,2,3,4,5])); tuned=[dict()]
        c['run/enable_checkpoint']=r.choice(['true','true','true','false']); c['run/enable_output']=r.choice(['true']*5+['false'])
        fr=lambda:r.choice([-1,-1,0,1,2,3,4,5,1000]); c['run/output_frequency']=fr(); c['run/checkpoint_frequency']=fr(); c['amr/cycle_frequency']=r.choice([1,1,2,3,0,-1]); c['amr/load_balancing_frequency']=r.choice([1,2,3,0,-1,1000])
        if r.random()<0.3: c['output/checkpoint']='dsim_checkpoint'; c['run/enable_checkpoint']='true' # can be restarted
        # times as fractions of the length of a first run; None: not given
        return dict(cfg=c,t0=r.choice([0,0,0,1.5,-0.25]),iter0=r.choice([0,0,0,7]),end=r.choice([None,0.3,0.55,0.8,0.97,'node','use']),out=r.choice([None,0.13,0.31,0.5,0.031,2.5,0,'node']),chk=r.choice([None,None,0.17,0.4,0,'node']),pick=[r.random() for _ in range(4)],ref=run_gen.calm(n),vars=[dict(sc=run_gen.schedule(r,n,r.random()<0.5),re=run_gen.schedule(r,min(mr,r.choice([1,2,3])),False),over={})])
    def shrink(self,case):
        yield from super().shrink(case)
        for k,x in (('t0',0),('iter0',0),('end',None),('out',None),('chk',None)):
            if case[k]!=x: yield dict(case,**{k:x})
    def run(self,case,sim,prop):
        o=outcome(); cfg=dict(case['cfg']); v=case['vars'][0]; N=int(cfg['run/nstepmax']); cfg['run/nstepmax']=N+case['iter0']; cfg['run/iter_start']=case['iter0']; cfg['run/tStart']=repr(case['t0'])
        cfg['run/tEnd']=1e6; a=Exec(sim,case['ref'],dict(cfg,**{'output/checkpoint':'dsim_dumpchk'}),tag='ref',o=o) # to know the times
        if a.bad(): return self.stopped(o,prop,a,'run without a final time')
        d=self.check(a,cfg,N,'run without a final time')
        if d: return self.verdict(o,prop,*d)
        T=[s['time'] for s in a.rec.steps()]; span=T[-1]-T[0]
        if not span>0: return o
        def pick(x,i): return None if x is None else T[int(case['pick'][i]*len(T))]-(0 if i==0 else T[0]) if x=='node' else (T[0] if i==0 else 0)+x*span
        e=case['end']; t=pick(None if e=='use' else e,0)
        if e=='use': cfg['run/use_tEnd']='false'; cfg['run/tEnd']=repr(T[0]+span/2)
        elif t is not None and t>max(0,T[0]): cfg['run/tEnd']=repr(t)
        for k,x,i in (('output',case['out'],1),('checkpoint',case['chk'],2)):
            y=pick(x,i)
            if y is not None: cfg['run/%s_timeslice'%k]=repr(y)
        b=Exec(sim,v['sc'],cfg,tag='b',o=o); what='run on %d ranks'%v['sc']['ranks']
        if b.bad(): return self.stopped(o,prop,b,what)
        d=self.check(b,cfg,N,what)
        if d: return self.verdict(o,prop,*d)
        o['nontrivial']=True; point(o,[s[1] for s in b.rec.saves('out')],[s[1] for s in b.rec.saves('chk')],len(b.rec.steps()),[cfg.get('run/'+k) is not None for k in ('output_timeslice','checkpoint_timeslice')])
        if cfg['output/checkpoint']=='dsim_checkpoint':
            C=[s for s in b.rec.saves('chk')]; s=C[int(case['pick'][3]*0.999*len(C))]
            q=Exec(sim,v['re'],None,disk=b.disk,name='restart_t_%d.ini'%s[1],tag='q',o=o)
            if q.bad(): return self.stopped(o,prop,q,'restart')
            d=self.check(q,cfg,N,'run restarted from iteration %d'%s[1],start=(s[1],s[2]))
            if d: return self.verdict(o,prop,*d)
        return o
    def check(self,e,cfg,N,what,start=None):
        """the model of the input file against what happened -> (kind, detail) or None"""
        try: S=e.rec.steps(); 
        except Bad as x: return 'ranks-disagree','%s: %s'%(what,x)
        g=lambda k,d:float(cfg.get('run/'+k,d)); n0,t0=start or (int(g('iter_start',0)),g('tStart',0)); nmax=int(g('nstepmax',1000)); tend=g('tEnd',0); use=str(cfg.get('run/use_tEnd','true' if tend>0 else 'false'))=='true'
        if not S: return 'steps',what+': no step was taken'
        if [s['iter'] for s in S]!=list(range(n0,n0+len(S))): return 'steps','%s: iterations %s, expected to start at %d and count by one'%(what,[s['iter'] for s in S],n0)
        if S[0]['time']!=t0: return 'steps','%s: starts at time %.17g, expected %.17g'%(what,S[0]['time'],t0)
        on={k:str(cfg.get('run/enable_'+k,'true'))=='true' for k in ('output','checkpoint')}
        saves={k:[(s[1],s[2]) for s in e.rec.saves(k2)] for k,k2 in (('output','out'),('checkpoint','chk'))}
        for k in on:
            if not on[k] and saves[k]: return k,'%s: %s is off but was written at iterations %s'%(what,k,[x[0] for x in saves[k]])
        # the end, as seen by the last save
        end=[saves[k][-1] for k in on if on[k] and saves[k]]
        for k in on:
            if on[k] and not saves[k]: return k,'%s: nothing was written for %s'%(what,k)
        if len(set(end))>1: return 'end','%s: last output and last checkpoint are of %s'%(what,end)
        nf=n0+len(S); tol=1e-12*max(abs(tend),abs(t0))
        times={s['iter']:s['time'] for s in S}
        if end:
            if end[0][0]!=nf: return 'end','%s: last state saved is of iteration %d after %d steps from iteration %d'%(what,end[0][0],len(S),n0)
            times[nf]=end[0][1]
            stop=(nmax>0 and nf>=nmax) or (use and times[nf]>=tend-tol)
            if not stop: return 'end','%s: stopped at iteration %d, time %.17g; limits are %d and %s'%(what,nf,times[nf],nmax,tend if use else None)
        for n in range(n0+1,nf):
            if nmax>0 and n>=nmax: return 'end','%s: went on at iteration %d, limit %d'%(what,n,nmax)
            if use and times[n]>=tend: return 'end','%s: went on at time %.17g, limit %.17g'%(what,times[n],tend)
        if use and max(times.values())>max(tend,t0)+tol and not t0>=tend: return 'end','%s: time %.17g is beyond the final time %.17g'%(what,max(times.values()),tend)
        # steps no longer than the stability limit
        cfl=float(cfg['dt/hydro_cfl'])
        for s in S:
            n=s['iter']
            if n+1 in times and s['tot'] and s['tot']['finite'] and s['tot']['minp']>0:
                dt=times[n+1]-times[n]; lim=cfl/s['tot']['inv']
                if dt>lim*(1+1e-9)+4e-16*max(abs(times[n]),abs(times[n+1])): return 'dt','%s: step from iteration %d is %.17g long, the stability limit of the whole mesh is %.17g'%(what,n,dt,lim)
        # when outputs, checkpoints and mesh cycles happen
        for k in on:
            if not on[k]: continue
            f=int(g(k+'_frequency',-1)); sl=g(k+'_timeslice',-1); want=[]; maybe=set()
            for n in range(n0,nf):
                hit=(k=='output' and n==n0) or (f>0 and n>n0 and n%f==0)
                if hit: want.append(n)
            groups=[]
            if sl>0: # each multiple once, at the first step at or after it; either of two steps when that one is within rounding of the multiple
                prev=None
                for n in range(n0+1,nf):
                    x=times[n]/sl; y=times[n-1]/sl; eps=1e-9*max(1,abs(x))
                    if math.floor(x-eps)>math.floor(y+eps): want.append(n)
                    elif math.floor(x+eps)>math.floor(x-eps): groups.append((n,n+1)) # on a multiple
                    if math.floor(x+eps)>math.floor(x-eps) and (n,n+1) not in groups: groups.append((n,n+1))
                maybe=set(n for g_ in groups for n in g_); want=sorted(set(want)-{n for n in maybe if not((k=='output' and n==n0) or (f>0 and n%f==0))})
            got=[x[0] for x in saves[k]]
            if sorted(got)!=got or len(set(got))!=len(got): return k,'%s: %s written at iterations %s'%(what,k,got)
            miss=[n for n in want+[nf] if n not in got]; extra=[n for n in got if n not in want and n!=nf and n not in maybe]
            if miss or extra: return k,'%s: %s at iterations %s; expected %s and %d (frequency %d, slice %g, times %s)'%(what,k,got,want,nf,f,sl,[times[n] for n in sorted(times)][:12])
            for p_,q_ in groups:
                if q_<nf and not({p_,q_}&set(got)): return k,'%s: no %s at iterations %d or %d, times %.17g and %.17g, slice %.17g'%(what,k,p_,q_,times[p_],times[q_],sl)
                if q_<nf and p_ in got and q_ in got and p_ not in want and q_ not in want and times[q_]-times[p_]<0.99*sl and math.floor(times[q_]/sl-1e-9)<=math.floor(times[p_]/sl+1e-9): return k,'%s: %s written twice for the same multiple of %.17g, at iterations %d and %d, times %.17g and %.17g'%(what,k,sl,p_,q_,times[p_],times[q_])
            for n,t in saves[k]:
                if t!=times[n]: return k,'%s: %s of iteration %d is of time %.17g, the step started at %.17g'%(what,k,n,t,times[n])
        if cfg.get('amr/markers_kernel')=='dsim_hash':
            cf=int(cfg.get('amr/cycle_frequency',1)); want=[n for n in range(n0+1,nf+1) if cf>0 and n%cf==0]
            for r,lg in enumerate(e.rec.logs):
                got=[int(l[1]) for l in lg if l[0]=='M']
                if got!=want: return 'cycle','%s: rank %d adapted the mesh after iterations %s, expected %s'%(what,r,got,want)
        return None
# ---------- recorded configuration
def parse_ini(t):
    """{section/key: value} of a recorded file -> (dict, keys marked as defaulted)"""
    d={}; df=set(); s=''
    for l in t.decode('latin1').split('\n'):
        m=re.match(r'\[(.*)\]\s*$',l)
        if m: s=m.group(1); continue
        if not l.strip(): continue
        k,_,v=l.partition('='); v,*c=re.split(r'\s;',v); k=s+'/'+k.strip()
        if k in d: raise Bad('%s is given twice'%k)
        d[k]=v.strip()
        if any('Default' in x for x in c): df.add(k)
    return d,df
DROP=['hydro/gamma0','amr/load_balancing_frequency','amr/cycle_frequency','amr/nbOctsPerGroup','amr/loadbalance_coherent_levels','run/nlog','output/output_real_type','dsim/state_mode','dsim/state_amp','dsim/refine_seed','dsim/refine_mode','dsim/refine_percent','dsim/coarsen_percent','run/output_frequency','output/outputPrefix','output/write_variables','particles/update_density']
NAMES=['rho','e_tot','rho_vx','rho_vy','rho_vz']
class Config(RunCase):
    """a run, the same run under another schedule, and the run from the file it recorded"""
    name='config'
    def gen(self,seed,tier):
        r=random.Random('config/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(1,4) if tier=='quick' else (2,8)); mr=run_gen.max_ranks(c); n=min(mr,r.choice([1,2,2,3,4]))
        if r.random()<0.25: movers(r,c)
        x=lambda a,b:r.uniform(a,b); c['hydro/gamma0']=x(1.2,1.9); c['dt/hydro_cfl']=x(0.2,0.8); c['dsim/state_amp']=x(0.05,0.3); c['run/tEnd']=r.choice([100,1e3,x(1e-3,1e-1)])
        for d in range(int(c['mesh/ndim'])):
            if r.random()<0.6: lo=x(-2,2); c['mesh/%smin'%'xyz'[d]]=lo; c['mesh/%smax'%'xyz'[d]]=lo+x(0.5,2)
        if r.random()<0.5: io_config(r,c)
        if r.random()<0.3: c['output/write_variables']=','.join(r.choice(NAMES) for _ in range(r.choice([3,9,22,26,30])))[:r.choice([170,180,190,300])].rstrip(',').rsplit(',',1)[0]
        c.setdefault('output/write_variables','rho')
        for k in DROP:
            if k in c and r.random()<0.35: c.pop(k)
        for d in range(int(c['mesh/ndim'])):
            if float(c['mesh/%smin'%'xyz'[d]])==0 and float(c['mesh/%smax'%'xyz'[d]])==1:
                for e in ('min','max'):
                    if r.random()<0.5: c.pop('mesh/%s%s'%('xyz'[d],e))
        # ways of writing the same thing
        style=dict(upper=r.random()<0.3,space=r.random()<0.3,comment=r.random()<0.3,num=r.choice(['repr','e','g17','r']),crlf=r.random()<0.1,nonl=r.random()<0.2,unused=r.random()<0.3,order=r.randrange(1<<20) if r.random()<0.3 else 0,bool=r.choice([['true','false'],['yes','no'],['on','off'],['1','0']]))
        return dict(cfg=c,style=style,ref=run_gen.calm(n),vars=[dict(sc=run_gen.schedule(r,n,r.random()<0.7),over={})])
    def shrink(self,case):
        yield from super().shrink(case)
        for k,v in case['style'].items():
            w=['true','false'] if k=='bool' else 'repr' if k=='num' else 0
            if v!=w: yield dict(case,style=dict(case['style'],**{k:w}))
        for k in DROP:
            if k in case['cfg']: c=dict(case['cfg']); c.pop(k); yield dict(case,cfg=c)
    def text(self,cfg,st):
        def val(v):
            if isinstance(v,float): return {'repr':repr(v),'e':'%.17e'%v,'g17':'%.17g'%v,'r':'%.6f'%v}[st['num']]
            return {'true':st['bool'][0],'false':st['bool'][1]}.get(v,str(v))
        items=list(cfg.items())
        if st['unused']: items+=[('unused/some_key','12 # 3'),('hydro/not_a_parameter','x y')]
        if st['order']: random.Random(st['order']).shuffle(items)
        out=[]; s=None
        for k,v in items:
            a,b=k.split('/',1)
            if a!=s: out.append('[%s]'%(a.upper() if st['upper'] else a)); s=a
            out.append('%s%s%s'%(b.upper() if st['upper'] else b,' = ' if st['space'] else '=',val(v))+(' ; a comment' if st['comment'] else ''))
        return ('\r\n' if st['crlf'] else '\n').join(out)+('' if st['nonl'] else '\n')
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; v=case['vars'][0]; ini=self.text(cfg,case['style']); cg=cfg.get('gravity/solver')=='GravitySolver_cg'
        a=Exec(sim,case['ref'],None,ini=ini,tag='a',o=o)
        if a.bad(): return self.stopped(o,prop,a,'run')
        A=states(a.rec); f=os.path.join(a.disk,'last.ini')
        if not os.path.exists(f): return self.verdict(o,prop,'missing','last.ini was not written')
        fa=text(f)
        try: K,D=parse_ini(fa)
        except Bad as x: return self.verdict(o,prop,'recorded','last.ini: '+str(x))
        given={(k.lower()):w for k,w in cfg.items()}
        for k,w in given.items():
            if k not in K: return self.verdict(o,prop,'recorded','%s, given in the input file, is not in last.ini'%k)
            if k in D: return self.verdict(o,prop,'recorded','%s, given in the input file, is a default in last.ini'%k)
        b=Exec(sim,v['sc'],None,ini=ini,tag='b',o=o); what='run under another schedule'
        if b.bad(): return self.stopped(o,prop,b,what)
        fb=text(os.path.join(b.disk,'last.ini'))
        if fb!=fa: return self.verdict(o,prop,'schedule','last.ini depends on the schedule: %s'%self.first(fa,fb))
        c=Exec(sim,case['ref'],None,ini=fa.decode('latin1'),tag='c',o=o); what='run from last.ini'
        if c.bad(): k,d=c.bad(); return self.verdict(o,prop,'does-not-run','the run from last.ini did not end normally: %s: %s'%(k,d))
        for e,what in ((b,'run under another schedule'),(c,'run from last.ini')):
            try: B=states(e.rec)
            except Bad as x: return self.verdict(o,prop,'ranks-disagree','%s: %s'%(what,x))
            if list(A)!=list(B): return self.verdict(o,prop,'states','%s: iterations saved %s, expected %s'%(what,list(B),list(A)))
            for it in A:
                d=rundata.diff(A[it],B[it])
                if d and not(e is b and cg): return self.verdict(o,prop,'diverges','%s: iteration %d: %s'%(what,it,d)) # iterative solver: sums over ranks and threads depend on the schedule
            if [x for x in e.files() if x!='in.ini']!=[x for x in a.files() if x!='in.ini']: return self.verdict(o,prop,'files','%s: wrote %s, expected %s'%(what,e.files(),a.files()))
        fc=text(os.path.join(c.disk,'last.ini'))
        try: K2,D2=parse_ini(fc)
        except Bad as x: return self.verdict(o,prop,'recorded','last.ini of the second run: '+str(x))
        if D2: return self.verdict(o,prop,'recorded','the run from last.ini used defaults for %s'%', '.join(sorted(D2)))
        if K!=K2: k=min(x for x in set(K)|set(K2) if K.get(x)!=K2.get(x)); return self.verdict(o,prop,'recorded','%s is %s in the first last.ini and %s in the second'%(k,K.get(k),K2.get(k)))
        o['nontrivial']=True
        for it,d in A.items(): o['cover']['state.%x'%hash(frozenset(d.owner.items()))]=1
        return o
    def first(self,a,b):
        for x,y in zip(a.split(b'\n'),b.split(b'\n')):
            if x!=y: return '%r and %r'%(x,y)
        return 'lengths %d and %d'%(len(a),len(b))
# ---------- self-gravity
def cells_of(d,names):
    """{(level,X,Y,Z): values} over the cells of a state"""
    out={}; b=d.b
    for k in d.octs:
        v=[d.values(k,f) for f in names]; l,x,y,z=k; i=0
        for c in range(b[2]):
            for q in range(b[1]):
                for p in range(b[0]): out[l,x*b[0]+p,y*b[1]+q,z*b[2]+c]=tuple(a[i] for a in v); i+=1
    return out
def poisson(d,cfg):
    """second-order finite volumes on the recorded mesh: residual of the potential and force from the potential, computed from their definition
    -> (|r|^2, |b|^2, scale of |A phi|^2, largest error of the force, largest force)"""
    C=cells_of(d,('rho','gphi','gx','gy','gz')); lmin=int(cfg['amr/level_min']); L=domain(cfg); b=d.b; cg=[int(cfg.get('amr/coarse_oct_resolution_'+x,1<<lmin)) for x in 'xyz']
    per=[cfg['mesh/boundary_type_%smin'%x]=='periodic' for x in 'xyz']; refl=[cfg['mesh/boundary_type_%smin'%x]=='reflecting' for x in 'xyz']; G=float(cfg.get('gravity/4_Pi_G',1.0))
    n={l:[cg[q]*b[q]<<(l-lmin) for q in range(3)] for l in {k[0] for k in C}}; h={l:[L[q]/n[l][q] for q in range(3)] for l in n}; V={l:h[l][0]*h[l][1]*h[l][2] for l in n}
    mean=math.fsum(v[0]*V[k[0]] for k,v in C.items())/(L[0]*L[1]*L[2]); R=B=S=E=F=0.0; W=0.0
    for k,v in C.items():
        l=k[0]; res=0.0; sc=0.0; phi=v[1]; W+=(G*mean*V[l])**2
        for q in range(3):
            grad=[]
            for s in (-1,1):
                m=list(k); m[1+q]+=s; hh=h[l][q]; wall=False
                if not 0<=m[1+q]<n[l][q]:
                    if per[q]: m[1+q]%=n[l][q]
                    else: wall=True
                if wall: o=0.0 if refl[q] else phi
                elif tuple(m) in C: o=C[tuple(m)][1]
                else:
                    p=(l-1,m[1]>>1,m[2]>>1,m[3]>>1)
                    if p in C: o=C[p][1]; hh*=1.5
                    else:
                        t=[0.0]; hh*=0.75; u=[x for x in range(3) if x!=q]
                        for a in (0,1):
                            for e in (0,1):
                                z=[l+1,2*m[1],2*m[2],2*m[3]]; z[1+q]+=0 if s>0 else 1; z[1+u[0]]+=a; z[1+u[1]]+=e; t.append(C[tuple(z)][1])
                        o=sum(t)/4
                grad.append(s*(o-phi)/hh); sc+=(abs(o)+abs(phi))/hh*V[l]/h[l][q]
            res+=(grad[1]-grad[0])*V[l]/h[l][q]
            g=-(grad[0]+grad[1])/2; E=max(E,abs(g-v[2+q])); F=max(F,abs(g))
            if not math.isfinite(v[2+q]): return None
        bi=G*(v[0]-mean)*V[l]
        if not math.isfinite(phi): return None
        R+=(bi-res)**2; B+=bi*bi; S+=sc*sc
    return R,B,S,E,F,W
class Gravity(RunCase):
    """the potential of the gas: solves its equation, and does not depend on the partition"""
    name='gravity'
    def __init__(self,preempt=False):
        self.preempt=preempt
        if preempt: self.name='gravity-preempt'; self.flavour='tsan'
    def gen(self,seed,tier):
        r=random.Random('gravity/%d'%seed); c=run_gen.config(r,dim=3,mhd=0.1,steps=(1,3) if tier=='quick' else (2,6))
        if self.preempt: run_gen.small(c)
        mr=run_gen.max_ranks(c)
        for x in 'xyz': c['mesh/boundary_type_%smax'%x]=c['mesh/boundary_type_%smin'%x]
        if r.random()<0.5:
            for x in 'xyz': c['mesh/boundary_type_%smin'%x]=c['mesh/boundary_type_%smax'%x]='periodic'
        c['gravity/gravity_type']='field'; c['gravity/solver']='dsim_cg'; c['gravity/CG_eps']=r.choice(['1e-3','1e-6','1e-8','1e-10','1e-10','1e-10']); c['gravity/4_Pi_G']=r.choice([1.0,0.1,3.0])
        if c['run/initial_conditions']=='dsim_random' and r.random()<0.3: c['dsim/state_amp']=r.choice([0,0,1e-15,1e-12,1e-6])
        if r.random()<0.2: c['mesh/xmin']=2; c['mesh/xmax']=3 # the usual discontinuities are outside
        if r.random()<0.2:
            for x in 'xyz':
                for e in ('min','max'): c['mesh/boundary_type_%s%s'%(x,e)]='periodic'
            particles(r,c); c['dsim/particle_mass']=r.choice([0.01,0.1]); c['particles/update_density']='ParticleUpdate_%s_density'%r.choice(['NGP','CIC'])
        vs=[]
        for _ in range(1 if self.preempt else 2):
            over={}
            if r.random()<0.5: over['amr/load_balancing_frequency']=r.choice([1,2,3,1000])
            if r.random()<0.5: over['amr/loadbalance_coherent_levels']=r.choice([0,1,2,3])
            vs.append(dict(sc=run_gen.schedule(r,min(mr,r.choice([2,2,3,4,5,6])),r.random()<0.6),over=over))
            if self.preempt: runs.preempt(r,vs[-1]['sc'])
        return dict(cfg=c,ref=run_gen.calm(1),vars=vs)
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; A=None
        for v in [dict(sc=case['ref'],over={})]+case['vars']:
            c=dict(cfg,**v.get('over',{})); e=Exec(sim,v['sc'],c,tag='a' if A is None else 'b',o=o); what='%d ranks'%v['sc']['ranks']
            if e.bad():
                k,d=e.bad()
                if k in ('too-long','timeout') or 'budget' in d or 'max_ops' in d: return self.verdict(o,prop,'no-convergence','%s: the solver did not stop: %s'%(what,d)) if 'gravity' in ' '.join(e.r.get('phase',[])) else o
                return self.stopped(o,prop,e,what)
            try: S=states(e.rec,'grv'); 
            except Bad as x: return self.verdict(o,prop,'ranks-disagree','%s: %s'%(what,x))
            eps=float(cfg['gravity/CG_eps'])
            for it,d in S.items():
                if A is not None and set(A[it].octs)!=set(d.octs): return o # another property
                if not all(x==x and x!=math.inf for f,x in zip(d.fields,d.maxabs()) if f=='rho'): return o
                p=poisson(d,c)
                if p is None: return self.verdict(o,prop,'not-finite','%s: iteration %d: the potential or the force is not finite'%(what,it))
                R,B,S2,E,F,W=p
                if R>(1.05*eps)**2*B+(1e-12)**2*(S2+W): return self.verdict(o,prop,'residual','%s: iteration %d: residual of the potential is %.3g of the source, requested %g'%(what,it,math.sqrt(R/B),eps))
                if E>1e-9*F+1e-13*math.sqrt(S2): return self.verdict(o,prop,'force','%s: iteration %d: the force is off by %.3g from the gradient of the potential, largest force %.3g'%(what,it,E,F))
            if A is None: A=S; continue
            o['nontrivial']=True
            if list(A)!=list(S): return self.verdict(o,prop,'states','%s: iterations %s, expected %s'%(what,list(S),list(A)))
            if eps<=1e-8:
                for it in A:
                    G=[max(A[it].maxabs()[A[it].fields.index(f)] for f in ('gx','gy','gz'))]; lim=max(1e4*eps*G[0],1e-10*float(cfg['gravity/4_Pi_G']))
                    for f in ('gx','gy','gz'):
                        for k in A[it].octs:
                            x=A[it].values(k,f); y=S[it].values(k,f)
                            for i in range(len(x)):
                                if not abs(x[i]-y[i])<=lim: return self.verdict(o,prop,'partition','%s: iteration %d: %s of %s sub-cell %d is %.15g, on one rank %.15g'%(what,it,f,rundata.oname(k),i,y[i],x[i]))
            o['cover']['state.%x'%hash(frozenset(S[max(S)].owner.items()))]=1
        return o
# ---------- clocks
def same_file(a,b,n):
    """the content of two files -> difference or None (HDF5: every dataset and attribute, not the times of writing)"""
    p,q=os.path.join(a,n),os.path.join(b,n)
    if not n.endswith('.h5'):
        return None if text(p)==text(q) else 'content differs'
    x,y=rundata.h5safe(p),rundata.h5safe(q)
    if set(x)!=set(y): return 'datasets %s, expected %s'%(sorted(y),sorted(x))
    for k in sorted(x):
        if k.startswith('@'):
            if x[k]!=y[k]: return '%s is %s, expected %s'%(k,y[k],x[k])
        elif x[k][:2]!=y[k][:2] or x[k][2].tobytes()!=y[k][2].tobytes(): return 'dataset %s differs'%k
    return None
class Clock(RunCase):
    """the same run with other clocks and other speeds"""
    name='clock'
    def gen(self,seed,tier):
        r=random.Random('clock/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(2,5) if tier=='quick' else (3,12)); io_config(r,c); mr=run_gen.max_ranks(c); n=min(mr,r.choice([1,2,2,3,4,5,6])); vs=[]
        if r.random()<0.4: c['run/checkpoint_timeslice']=repr(r.choice([1e-3,1e-2,0.05]))
        if r.random()<0.4: c['run/output_timeslice']=repr(r.choice([1e-3,1e-2,0.05]))
        if r.random()<0.3: c['run/tEnd']=repr(r.choice([1e-3,1e-2,0.05]))
        if r.random()<0.2: particles(r,c)
        for _ in range(2):
            s=dict(seed=r.randrange(1<<30),ranks=n,threads=1,p_clock=r.choice([0,0.01,0.1,0.5,1]),clock_skew=r.choice([0,0,1e-3,3600,-1e6]),clock0=r.choice([1.7e9,1.7e9,0,1,2147483646.5,4e9]))
            if r.random()<0.6: s['slow%d'%r.randrange(n)]=r.choice([3,30,1000])
            vs.append(dict(sc=s,over={}))
        return dict(cfg=c,ref=run_gen.calm(n),vars=vs)
    def shrink(self,case):
        yield from super().shrink(case)
        for i,v in enumerate(case['vars']):
            for k,x in (('clock_skew',0),('clock0',1.7e9)):
                if v['sc'].get(k,x)!=x: yield dict(case,vars=case['vars'][:i]+[dict(v,sc=dict(v['sc'],**{k:x}))]+case['vars'][i+1:])
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; a=Exec(sim,case['ref'],cfg,tag='ref',o=o)
        if a.bad(): return self.stopped(o,prop,a,'reference run')
        A=states(a.rec); SA=[(s['iter'],s['time'],s['nocts']) for s in a.rec.steps()]
        for v in case['vars']:
            s=v['sc']; b=Exec(sim,s,cfg,tag='var',o=o); what='clock jumps p=%g, skew %g, start %g, slow ranks %s'%(s.get('p_clock',0),s.get('clock_skew',0),s.get('clock0',0),{k:s[k] for k in s if k.startswith('slow')})
            if b.bad(): return self.stopped(o,prop,b,what) if 'died' not in b.r and b.bad()[0] in MPI_KINDS else self.verdict(o,prop,'did-not-end','%s: %s: %s'%((what,)+b.bad()))
            try: B=states(b.rec); SB=[(s['iter'],s['time'],s['nocts']) for s in b.rec.steps()]
            except Bad as x: return self.verdict(o,prop,'ranks-disagree','%s: %s'%(what,x))
            if SA!=SB: return self.verdict(o,prop,'steps','%s: steps %s, expected %s'%(what,SB,SA))
            if [x[1:] for x in a.rec.saves('chk')]!=[x[1:] for x in b.rec.saves('chk')] or list(A)!=list(B): return self.verdict(o,prop,'saves','%s: saved %s, expected %s'%(what,list(B),list(A)))
            for it in A:
                d=rundata.diff(A[it],B[it])
                if d: return self.verdict(o,prop,'diverges','%s: iteration %d: %s'%(what,it,d))
            if a.files()!=b.files(): return self.verdict(o,prop,'files','%s: wrote %s, expected %s'%(what,b.files(),a.files()))
            for n in a.files():
                if n=='timers.txt': continue
                try: d=same_file(a.disk,b.disk,n)
                except Bad as x: d=str(x)
                if d: return self.verdict(o,prop,'files','%s: %s: %s'%(what,n,d))
            o['nontrivial']=b.r['cover'].get('fault.clock_jump',0)>0 or bool(s.get('clock_skew')) or s['clock0']!=1.7e9
            o['cover']['fault.clock_skew']=o['cover'].get('fault.clock_skew',0)+int(bool(s.get('clock_skew'))); o['cover']['fault.slow_rank']=o['cover'].get('fault.slow_rank',0)+sum(1 for k in s if k.startswith('slow'))
        for it,d in A.items(): o['cover']['state.%x'%hash(frozenset(d.owner.items()))]=1
        return o
# ---------- tiled restart
class Tiled(RunCase):
    """a checkpoint of a periodic box, replicated: every tile holds the saved state"""
    name='tiled'
    def gen(self,seed,tier):
        r=random.Random('tiled/%d'%seed); c=run_gen.config(r,bc=['periodic'],steps=(1,4) if tier=='quick' else (1,8)); dim=int(c['mesh/ndim']); full=1<<int(c['amr/level_min'])
        for x in 'xyz': c.pop('amr/coarse_oct_resolution_'+x,None) # tiles are cubes of a power of two
        io_config(r,c,out=False); c['run/checkpoint_frequency']=1; mr=run_gen.max_ranks(c)
        reps=r.choice([[2,1],[1,2],[2,2],[2,2],[4,1],[1,4],[1,1]] if dim==2 else [[2,1,1],[1,2,1],[1,1,2],[2,2,1],[1,2,2],[2,1,2],[4,1,1],[1,4,1],[1,1,4],[1,1,1]])
        n=1
        for q in reps: n*=q
        return dict(cfg=c,ref=run_gen.schedule(r,min(mr,r.choice([1,2,3,4,5])),r.random()<0.3),reps=reps,vars=[dict(sc=run_gen.schedule(r,n,r.random()<0.6),u=r.random(),over={})])
    def run(self,case,sim,prop):
        o=outcome(); cfg=case['cfg']; v=case['vars'][0]; dim=int(cfg['mesh/ndim']); reps=case['reps']+[1]*(3-len(case['reps']))
        a=Exec(sim,case['ref'],cfg,tag='a',o=o)
        if a.bad(): return self.stopped(o,prop,a,'run that writes the checkpoint')
        C=[s for s in a.rec.saves('chk') if s[4]]; s=C[int(v['u']*0.999*len(C))]; A=a.rec.dump('chk',s[0]); d=max(reps).bit_length()-1
        lmin=int(cfg['amr/level_min']); c=dict(cfg); c['amr/level_min']=lmin+d; c['amr/level_max']=int(cfg['amr/level_max'])+d
        for q in range(dim): c['amr/coarse_oct_resolution_'+'xyz'[q]]=(1<<lmin)*reps[q]; c['mesh/%smax'%'xyz'[q]]=float(cfg['mesh/%smin'%'xyz'[q]])+reps[q]*domain(cfg)[q]; c['restart/nrep_'+'xyz'[q]]=reps[q]
        c['run/initial_conditions']='tiled_restart'; c['restart/filename']='restart_t_%d.h5'%s[1]; c['run/nstepmax']=1; c['output/checkpoint']='dsim_dumpchk'; c['run/enable_checkpoint']='false'
        b=Exec(sim,v['sc'],c,disk=a.disk,tag='b',o=o); what='%s tiles of the checkpoint of iteration %d written by %d ranks'%('x'.join(map(str,reps[:dim])),s[1],case['ref']['ranks'])
        if b.bad(): return self.stopped(o,prop,b,what)
        try: B=b.rec.dump('out',0)
        except Bad as x: return self.verdict(o,prop,'ranks-disagree','%s: %s'%(what,x))
        if B is None: return self.verdict(o,prop,'missing','%s: no first state'%what)
        if B.dup: return self.verdict(o,prop,'mesh','%s: %s is owned twice'%(what,rundata.oname(B.dup)))
        want={}
        for k in A.octs:
            l,x,y,z=k
            for i in range(reps[0]):
                for j in range(reps[1]):
                    for m in range(reps[2]): want[l+d,x+(i<<l),y+(j<<l),z+(m<<l)]=k
        miss=sorted(set(want)-set(B.octs)); extra=sorted(set(B.octs)-set(want))
        if miss or extra: return self.verdict(o,prop,'mesh','%s: %d octants are missing%s and %d were not expected%s'%(what,len(miss),' ('+rundata.oname(miss[0])+')' if miss else '',len(extra),' ('+rundata.oname(extra[0])+')' if extra else ''))
        if set(A.fields)-set(B.fields): return self.verdict(o,prop,'fields','%s: fields %s, expected %s'%(what,B.fields,A.fields))
        for k,src in want.items():
            for f in A.fields:
                x=A.values(src,f); y=B.values(k,f)
                if x!=y:
                    i=[p!=q for p,q in zip(x,y)].index(True); return self.verdict(o,prop,'value','%s: %s of %s sub-cell %d is %.17g, the saved one is %.17g'%(what,f,rundata.oname(k),i,y[i],x[i]))
        o['nontrivial']=v['sc']['ranks']>1; o['cover']['state.%x'%hash(frozenset(B.owner.items()))]=1
        return o
