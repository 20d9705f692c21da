"""Cases on the full program (workload "main")."""
import os, random, shutil, rundata, run_gen
from rundata import Bad, Record
from cases import outcome, merge, died, shrink_schedule, MPI_KINDS
class Exec:
    """one simulated execution of the full program on a disk that outlives it"""
    def __init__(self,sim,sc,cfg,disk=None,ini=None,name='in.ini',tag=0,o=None,files=None):
        self.disk=disk or os.path.join(sim.root,'disk%s'%tag); self.rec_dir=os.path.join(sim.root,'rec%s'%tag)
        if disk is None: shutil.rmtree(self.disk,ignore_errors=True); os.makedirs(self.disk)
        shutil.rmtree(self.rec_dir,ignore_errors=True); os.makedirs(self.rec_dir)
        s=dict(sc,workload='main',ini=name,cwd=self.disk,dump_dir=self.rec_dir); s.setdefault('max_ops',2000000); s.setdefault('wall_limit',90); s.setdefault('mem_mb',6000)
        if cfg is not None: ini=run_gen.ini(cfg)
        s['files']=dict(files or {})
        if ini is not None: s['files'][name]=ini
        self.r=sim.run(s); self.sc=sc
        if o is not None: merge(o,self.r); o['_last']=self.r
        self.rec=Record(self.rec_dir,int(sc['ranks']))
        if o is not None and tag in ('ref','a'): o['_ref']=self
    def unphysical(self):
        """first iteration where the gas has a negative density or pressure or is not finite, or None: results there depend on the order of the operations (time step from NaN)"""
        try: return next((s['iter'] for s in self.rec.steps() if s['tot'] and not (s['tot']['finite'] and s['tot']['minrho']>0 and s['tot']['minp']>0)),None)
        except Bad: return None
    def bad(self):
        """(kind, detail) when the run did not end normally"""
        if 'violation' in self.r: return (self.r['violation']['kind'],self.r['violation']['detail']+' [phase %s]'%'/'.join(self.r.get('phase',[])))
        return died(self.r)
    def files(self): return sorted(os.listdir(self.disk))
def shrink_cfg(cfg,keep=()):
    """simpler configurations"""
    if int(cfg.get('run/nstepmax',1))>1:
        for n in sorted({1,int(cfg['run/nstepmax'])//2,int(cfg['run/nstepmax'])-1}):
            if 0<n<int(cfg['run/nstepmax']): yield dict(cfg,**{'run/nstepmax':n})
    if int(cfg['amr/level_max'])>int(cfg['amr/level_min']): yield dict(cfg,**{'amr/level_max':int(cfg['amr/level_max'])-1})
    for k,v in (('amr/load_balancing_frequency',1000),('amr/cycle_frequency',1000),('dsim/state_mode',0),('amr/loadbalance_coherent_levels',0),('amr/nbOctsPerGroup',1024),('run/initial_conditions','dsim_random'+(',dsim_particles' if 'dsim_particles' in str(cfg.get('run/initial_conditions')) else ''))):
        if k in cfg and cfg[k]!=v and k not in keep: yield dict(cfg,**{k:v})
    for k in ('amr/coarse_oct_resolution_x','amr/coarse_oct_resolution_y','amr/coarse_oct_resolution_z'):
        if k in cfg and k not in keep: c=dict(cfg); c.pop(k); yield c
class RunCase:
    """base of the workloads on the full program. A case: {'cfg', 'ref': schedule, 'vars': [{'sc','over'}]}"""
    name='run'; flavour='plain'
    same=True # decides by comparison with a reference run, which means nothing once the gas of the reference is unphysical
    def verdict(self,o,prop,kind,detail):
        u=o['_ref'].unphysical() if self.same and o.get('_ref') else None
        if u is None: o['verdict']=dict(kind=prop+':'+kind,detail=detail)
        else: o['other']=dict(kind='gas:unphysical',detail='reference run unphysical at iteration %d; then %s: %s'%(u,kind,detail))
        return o
    def stopped(self,o,prop,e,what):
        """the run did not end as it should: belongs to this property only if it is about termination or crashes"""
        k,d=e.bad()
        if self.same and 'invalid dt' in d and (e is o.get('_ref') or o.get('_ref') and o['_ref'].unphysical() is not None): # the program refuses to go on with a gas without a sound speed (e.g. an initial condition with negative pressure on this domain)
            o['other']=dict(kind='gas:unphysical',detail=what+': '+d); return o
        o['verdict' if (k in MPI_KINDS)==(prop=='P14') or k=='hang' else 'other']=dict(kind=('P14' if k in MPI_KINDS else prop)+':'+k,detail=what+': '+d); return o
    def shrink(self,case):
        if len(case['vars'])>1:
            for i in range(len(case['vars'])): yield dict(case,vars=case['vars'][:i]+case['vars'][i+1:])
        for c in shrink_cfg(case['cfg']): yield dict(case,cfg=c)
        for i,v in enumerate(case['vars']):
            for t in shrink_schedule(v['sc']): yield dict(case,vars=case['vars'][:i]+[dict(v,sc=t)]+case['vars'][i+1:])
            for k in list(v.get('over',{})): ov=dict(v['over']); ov.pop(k); yield dict(case,vars=case['vars'][:i]+[dict(v,over=ov)]+case['vars'][i+1:])
    def get_sc(self,case): return case['vars'][-1]['sc']
    def put_sc(self,case,sc): return dict(case,vars=case['vars'][:-1]+[dict(case['vars'][-1],sc=sc)])
    def describe(self,case): return dict(config=run_gen.ini(case['cfg']).replace('\n',' '),reference=case.get('ref'),variants=case['vars'])
def states(rec,kind='out'):
    """{iter: Dump}, in order; the last save of an iteration wins; checks that ranks agree"""
    out={}
    for s,it,t,begun,done in rec.saves(kind):
        if begun:
            d=rec.dump(kind,s)
            if len(d.iters)!=1 or len(d.times)!=1 or len(d.dts)!=1: raise Bad('ranks disagree at save %d: iterations %s times %s dt %s'%(s,sorted(d.iters),sorted(d.times),sorted(d.dts)))
            if len(d.fieldsets)!=1: raise Bad('ranks disagree on the fields at save %d'%s)
            if d.dup: raise Bad('cell %s owned by two ranks at iteration %d'%(rundata.oname(d.dup),it))
            out[it]=d
    return out
def preempt(r,sc):
    sc['threads']=r.choice([2,2,3,3]); sc['wall_limit']=200; sc['preempt']=1; sc['p_preempt']=r.choice([0.1,0.3,0.6,1.0]); sc['p_omp']=r.choice([0,0.3,0.7,1.0]); return sc
class Equiv(RunCase):
    """the same configuration, run as the reference and as variants: every state written must be the same"""
    name='equiv'
    def __init__(self,mode): self.mode=mode; self.name='equiv-'+mode; self.flavour='tsan' if mode=='preempt' else 'plain'
    def gen(self,seed,tier):
        r=random.Random('equiv/%s/%d'%(self.mode,seed)); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(2,5) if tier=='quick' else (3,10))
        if self.mode=='preempt' and tier=='quick': run_gen.small(c)
        mr=run_gen.max_ranks(c); vs=[]
        if self.mode=='ranks':
            ref=run_gen.calm(1)
            for _ in range(2):
                n=min(mr,r.choice([2,2,3,3,4,5,6])); over={}
                if r.random()<0.5: over['amr/load_balancing_frequency']=r.choice([1,2,3,1000])
                if r.random()<0.5: over['amr/loadbalance_coherent_levels']=r.choice([0,1,2,3])
                vs.append(dict(sc=run_gen.schedule(r,n,r.random()<0.5),over=over))
        elif self.mode=='preempt': # threads of a kernel are interleaved at single memory accesses
            n=min(mr,r.choice([1,1,2,3])); ref=run_gen.calm(n)
            for _ in range(2): vs.append(dict(sc=preempt(r,run_gen.schedule(r,n,r.random()<0.3)),over={}))
        else:
            n=min(mr,r.choice([1,2,2,3,3,4,5,6])); ref=run_gen.calm(n)
            for _ in range(2): vs.append(dict(sc=run_gen.schedule(r,n),over={}))
        return dict(cfg=c,ref=ref,vars=vs)
    def run(self,case,sim,prop):
        o=outcome(); a=Exec(sim,case['ref'],case['cfg'],tag='ref',o=o)
        if a.bad(): return self.stopped(o,prop,a,'reference run')
        try: A=states(a.rec)
        except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
        for v in case['vars']:
            b=Exec(sim,v['sc'],dict(case['cfg'],**v.get('over',{})),tag='var',o=o)
            if b.bad(): return self.stopped(o,prop,b,'run on %d ranks'%v['sc']['ranks'])
            try: B=states(b.rec)
            except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
            if list(A)!=list(B): return self.verdict(o,prop,'states','iterations saved %s, expected %s'%(list(B),list(A)))
            for it in A:
                d=rundata.diff(A[it],B[it],tol=1e-11 if self.mode=='ranks' else 0)
                if d: return self.verdict(o,prop,'diverges','iteration %d, %d ranks against %d: %s'%(it,v['sc']['ranks'],case['ref']['ranks'],d))
            o['nontrivial']=True
            o['cover']['state.%x'%hash((frozenset(B[it].owner.items()))) ]=1
        return o
CONS=['rho','rho_vx','rho_vy','rho_vz','e_tot','Bx','By','Bz']
class Conserve(RunCase):
    """a closed domain without sources: totals stay what they were, whatever the schedule, partition and mesh changes"""
    name='conserve'; same=False
    def __init__(self,updaters=None,uniform=None): self.up=updaters; self.uni=uniform
    def gen(self,seed,tier):
        r=random.Random('conserve/%d'%seed); up=r.choice(self.up or CONSERVATIVE*2+UNIFORM_ONLY); uni=self.uni if self.uni is not None else up in UNIFORM_ONLY
        bc=['periodic'] if 'MHD' in up else r.choice([['periodic'],['periodic'],['reflecting'],['periodic','reflecting']])
        c=run_gen.config(r,bc=bc,uniform=uni,updaters=[up],real_ic=0,steps=(2,6) if tier=='quick' else (5,15)); n=min(run_gen.max_ranks(c),r.choice([1,2,2,3,4,5,6]))
        if 'MHD' not in up and r.random()<0.3: self.open_wall(r,c,up)
        return dict(cfg=c,vars=[dict(sc=run_gen.schedule(r,n,r.random()<0.6),over={})])
    def open_wall(self,r,c,up):
        """one open wall, behind gas at rest that no wave reaches during the run: still a closed system"""
        dim=c['mesh/ndim']; d=r.randrange(dim); side=r.randrange(2); cells=c.get('amr/coarse_oct_resolution_'+'xyz'[d],1<<c['amr/level_min'])*c['amr/b'+'xyz'[d]]
        steps=int((cells*0.75-2)//{'HydroUpdate_RK2':6}.get(up,3)) # cells a disturbance crosses per step: at most the stencil, in the coarsest cells
        if steps<1: return
        c.pop('dsim/drift',None)
        c['run/nstepmax']=min(c['run/nstepmax'],steps); c['dsim/quiet_dir']=d; c['dsim/quiet_side']=side; c['dsim/quiet_from']=0.25
        for x in range(dim):
            if c['mesh/boundary_type_%smin'%'xyz'[x]]!='periodic' or x==d: c['mesh/boundary_type_%smin'%'xyz'[x]]=c['mesh/boundary_type_%smax'%'xyz'[x]]='reflecting'
        c['mesh/boundary_type_%s%s'%('xyz'[d],('min','max')[side])]='absorbing'
    def run(self,case,sim,prop):
        o=outcome(); v=case['vars'][0]; c=dict(case['cfg'],**v.get('over',{})); e=Exec(sim,v['sc'],c,tag='a',o=o)
        if e.bad(): return self.stopped(o,prop,e,'run')
        try: st=e.rec.steps()
        except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
        tots=[(s['iter'],s['tot']) for s in st]; fin=e.rec.save_tot('out')
        if fin: tots.append(('end',fin[max(fin)]))
        dim=int(c['mesh/ndim']); per=[c['mesh/boundary_type_%smin'%x]=='periodic' for x in 'xyz'[:dim]]; mhd='MHD' in c['hydro/update']
        what=['rho','e_tot']+([] if mhd and not all(per) else [CONS[1+d] for d in range(3) if d>=dim or per[d]])+(['Bx','By','Bz'] if mhd and all(per) else [])
        t0=tots[0][1]
        for it,t in tots:
            if not t['finite']: return self.verdict(o,prop,'not-finite','iteration %s: a value is not finite'%it)
            if not (t['minrho']>0 and t['minp']>0): return self.verdict(o,prop,'negative','iteration %s: smallest density %g, pressure %g'%(it,t['minrho'],t['minp']))
            for f in what:
                i=CONS.index(f); sc=max(t0['abs'][i],t['abs'][i])
                if f.startswith('rho_v'): sc=max(t['abs'][1:4]+t0['abs'][1:4]+[t0['abs'][0]*1e-3])
                if abs(t['tot'][i]-t0['tot'][i])>1e-11*max(sc,1e-6): return self.verdict(o,prop,'conservation','iteration %s: total %s %.17g, initially %.17g (sum of magnitudes %g)'%(it,f,t['tot'][i],t0['tot'][i],sc))
        o['nontrivial']=v['sc']['ranks']>1
        for it,d in states(e.rec).items(): o['cover']['state.%x'%hash(frozenset(d.owner.items()))]=1
        return o
CONSERVATIVE=['HydroUpdate_hancock_oneneighbor','HydroUpdate_euler','HydroUpdate_RK2','MHDUpdate_hancock_oneneighbor','MHDUpdate_euler','MHDUpdate_RK2','GLMMHDUpdate_euler','GLMMHDUpdate_RK2']
UNIFORM_ONLY=['HydroUpdate_hancock','HydroUpdate_legacy','MHDUpdate_hancock'] # documented as not conservative where the level changes

class Coords(RunCase):
    """the same set-up in another coordinate system (axes exchanged, reversed, moved along periodic directions, other units of length, another origin) on other ranks: the same states, seen from there"""
    name='coords'
    def gen(self,seed,tier):
        r=random.Random('coords/%d'%seed); c=run_gen.config(r,real_ic=0,steps=(2,5) if tier=='quick' else (3,10)); dim=c['mesh/ndim']; up=c['hydro/update']; hydro='MHD' not in up
        if r.random()<0.3 and hydro:
            w=r.choice(['gravity','field','diffusion'])
            if w=='gravity':
                c['gravity/gravity_type']=1
                for d in range(dim): c['gravity/g'+'xyz'[d]]=r.choice([0,0.1,-0.5,1])
                if up.endswith(('euler','RK2')): c['hydro/well_balanced']=r.choice(['on','off'])
            elif w=='field':
                c['gravity/gravity_type']='constant_field'; c['gravity/solver']=r.choice(['dsim_gravity','GravitySolver_point_mass','GravitySolver_point_mass']); self.field(r,c)
            elif w=='diffusion' and 'legacy' not in up and 'oneneighbor' not in up:
                if r.random()<0.7: c['viscosity/update']='ParabolicUpdate_explicit'; c['viscosity/mu']=r.choice([0.001,0.01])
                if r.random()<0.7 or 'viscosity/update' not in c: c['thermal_conduction/update']='ParabolicUpdate_explicit'; c['thermal_conduction/kappa']=r.choice([0.001,0.01])
                c['dt/dt_kernel']+=',Compute_dt_parabolic'; c['dt/parabolic_cfl']=r.choice([0.2,0.4])
        if r.random()<0.25:
            import ioruns; ioruns.movers(r,c,False)
            if 'gravity/solver' in c: self.field(r,c)
        n=run_gen.max_ranks(c); vs=[]
        for _ in range(2):
            glm=up.startswith('GLM') # the damping of psi is applied between the sweeps over the axes, with a coefficient in absolute units
            T=dict(perm=[0,1,2] if glm else r.sample(range(dim),dim)+list(range(dim,3)),flip=[int(d<dim and r.random()<0.5) for d in range(3)],shift=[0,0,0],scale=1.0,origin=[0,0,0])
            for e in range(dim):
                if c['mesh/boundary_type_%smin'%'xyz'[T['perm'][e]]]=='periodic' and c.get('gravity/solver')!='GravitySolver_point_mass' and r.random()<0.5: T['shift'][e]=r.randrange(c.get('amr/coarse_oct_resolution_'+'xyz'[T['perm'][e]],1<<c['amr/level_min']))
            if not glm and r.random()<0.4: T['scale']=r.choice([0.125,0.5,2.0,16.0])
            if r.random()<0.3: T['origin']=[r.choice([-4,-0.75,0.5,3]) for _ in range(3)]
            vs.append(dict(view=T,sc=run_gen.schedule(r,min(n,r.choice([1,2,2,3,4,5,6])),r.random()<0.5),over={}))
        return dict(cfg=c,ref=run_gen.calm(1),vars=vs)
    def field(self,r,c):
        c['gravity/softening']=0.3; c['gravity/point_mass_Gmass']=0.1; dim=c['mesh/ndim']
        for d in range(dim): c['dsim/g'+'xyz'[d]]=r.choice([0,0.1,-0.5]); lo=c['mesh/%smin'%'xyz'[d]]; c['gravity/point_mass_'+'xyz'[d]]=lo+(c['mesh/%smax'%'xyz'[d]]-lo)*r.choice([0.5,0.3,0.9])
        if dim==2: c['gravity/point_mass_z']=0
    def seen(self,c,T):
        """the configuration in the other coordinate system"""
        dim=c['mesh/ndim']; v=dict(c); X='xyz'
        for e in range(dim):
            d=T['perm'][e]
            for k in ('amr/b','amr/coarse_oct_resolution_','gravity/g','dsim/g'):
                v.pop(k+X[e],None)
                if k+X[d] in c: v[k+X[e]]=c[k+X[d]]*(-1 if k.endswith('/g') and T['flip'][e] else 1)
            w=float(c['mesh/%smax'%X[d]])-float(c['mesh/%smin'%X[d]]); v['mesh/%smin'%X[e]]=float(c['mesh/%smin'%X[d]])*T['scale']+T['origin'][e]; v['mesh/%smax'%X[e]]=v['mesh/%smin'%X[e]]+w*T['scale']
            if 'gravity/point_mass_x' in c:
                x=(float(c['gravity/point_mass_'+X[d]])-float(c['mesh/%smin'%X[d]])); v['gravity/point_mass_'+X[e]]=v['mesh/%smin'%X[e]]+(w-x if T['flip'][e] else x)*T['scale']
            for a,b in (('min','max'),('max','min')): v['mesh/boundary_type_%s%s'%(X[e],a)]=c['mesh/boundary_type_%s%s'%(X[d],b if T['flip'][e] else a)]
        v['dsim/perm']='%d%d%d'%tuple(T['perm']); v['dsim/flip']=sum(f<<e for e,f in enumerate(T['flip']))
        for e in range(3): v['dsim/shift_'+X[e]]=T['shift'][e]
        for k in ('amr/mass_coarsen','amr/mass_refine'):
            if k in c: v[k]=c[k]*T['scale']**dim
        for k in c: # lengths and times change alike: velocities, densities and pressures do not
            if k in ('viscosity/mu','thermal_conduction/kappa','gravity/point_mass_Gmass','gravity/softening'): v[k]=c[k]*T['scale']
            if k=='dsim/particle_mass': v[k]=c[k]*T['scale']**dim
            if k=='dsim/particle_velocity': v[k]=c[k]/T['scale'] # counted in boxes per unit of time
        for x in X:
            for k in ('gravity/g','dsim/g'):
                if k+x in v: v[k+x]=v[k+x]/T['scale']
        v['run/tEnd']=c['run/tEnd']*T['scale']; return v
    def run(self,case,sim,prop):
        o=outcome(); c=case['cfg']; a=Exec(sim,case['ref'],c,tag='ref',o=o); dim=c['mesh/ndim']
        if a.bad(): return self.stopped(o,prop,a,'reference run')
        try: A=states(a.rec)
        except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
        cg=[c.get('amr/coarse_oct_resolution_'+x,1<<c['amr/level_min']) for x in 'xyz']
        for v in case['vars']:
            T=v['view']; b=Exec(sim,v['sc'],self.seen(dict(c,**v.get('over',{})),T),tag='var',o=o)
            if b.bad(): return self.stopped(o,prop,b,'run in coordinates %s on %d ranks'%(T,v['sc']['ranks']))
            try: B=states(b.rec)
            except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
            if list(A)!=list(B): return self.verdict(o,prop,'states','iterations saved %s, expected %s'%(list(B),list(A)))
            S=self.seen(c,T); lo=[float(c.get('mesh/%smin'%x,0)) for x in 'xyz']; L=[float(c.get('mesh/%smax'%x,1))-l for x,l in zip('xyz',lo)]; vlo=[float(S.get('mesh/%smin'%x,0)) for x in 'xyz']; vL=[float(S.get('mesh/%smax'%x,1))-l for x,l in zip('xyz',vlo)]
            V=rundata.View(dim,cg,c['amr/level_min'],T['perm'],T['flip'],T['shift'],T['scale'],lo,L,vlo)
            for it in A:
                d=rundata.diff(V.apply(A[it]),B[it],tol=1e-9,ptol=1e-8,box=vL)
                if d: return self.verdict(o,prop,'coordinates','iteration %d, %d ranks, coordinates %s: %s'%(it,v['sc']['ranks'],T,d))
            o['nontrivial']=True; o['cover']['view.%s%s%s%s'%(T['perm']!=[0,1,2],any(T['flip']),any(T['shift']),T['scale']!=1)]=1
            o['cover']['state.%x'%hash((frozenset(B[it].owner.items()))) ]=1
        return o

class Uniform(RunCase):
    """a uniform flow, parallel to closed walls, stays the same while the mesh, the partition and the schedule change"""
    name='uniform'; same=False
    def gen(self,seed,tier):
        r=random.Random('uniform/%d'%seed); up=r.choice(run_gen.HYDRO*2+run_gen.MHD+run_gen.GLM)
        c=run_gen.config(r,bc=['periodic'] if 'MHD' in up else None,updaters=[up],real_ic=0,steps=(2,6) if tier=='quick' else (5,15)); dim=c['mesh/ndim']; n=min(run_gen.max_ranks(c),r.choice([1,2,2,3,4,5,6]))
        c['dsim/state_mode']=3; c['dsim/state_amp']=r.choice([0.1,0.5,0.9]); c['amr/markers_kernel']='dsim_hash'
        if r.random()<0.5: c['dsim/drift']=r.choice([1,4,10]) # supersonic
        if 'MHD' in up: c['dsim/bzero']=r.choice([0,0,0,1,2,4,3,6,7])
        c['dsim/still']=sum(1<<d for d in range(dim) if 'reflecting' in (c['mesh/boundary_type_%smin'%'xyz'[d]],c['mesh/boundary_type_%smax'%'xyz'[d]]) or r.random()<0.1)
        if r.random()<0.3 and up in run_gen.HYDRO[:1]+run_gen.HYDRO[2:4]: c['viscosity/update']=c['thermal_conduction/update']='ParabolicUpdate_explicit'; c['viscosity/mu']=0.01; c['thermal_conduction/kappa']=0.01; c['dt/dt_kernel']+=',Compute_dt_parabolic'; c['dt/parabolic_cfl']=0.4
        if r.random()<0.25:
            import ioruns; ioruns.particles(r,c); c['particles/update_position']='ParticleUpdate_tracers_move'
            for d in range(dim):
                for e in ('min','max'): c['mesh/boundary_type_%s%s'%('xyz'[d],e)]='periodic'
        return dict(cfg=c,vars=[dict(sc=run_gen.schedule(r,n,r.random()<0.6),over={})])
    def run(self,case,sim,prop):
        o=outcome(); v=case['vars'][0]; c=dict(case['cfg'],**v.get('over',{})); e=Exec(sim,v['sc'],c,tag='a',o=o)
        if e.bad(): return self.stopped(o,prop,e,'run')
        try: A=states(e.rec)
        except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
        first=None; p0=None; dim=c['mesh/ndim']
        for it,d in A.items():
            for k in d.octs:
                for f in d.fields:
                    x=d.values(k,f)
                    if first is None: first={}
                    if f not in first: first[f]=x[0]
                    big=max(abs(z) for z in first.values())
                    for i in range(d.ns):
                        if not abs(x[i]-first[f])<=1e-11*max(1.0,big): return self.verdict(o,prop,'uniform','iteration %d: %s of %s sub-cell %d is %.17g in a uniform flow where it was %.17g'%(it,f,rundata.oname(k),i,x[i],first[f]))
            if 'particles' in d.parts and 'rho' in first:
                at,rows=d.parts['particles']; w=at.index('id'); now={q[3+w]:q[:3] for q in rows}
                if p0 is None: p0=(d.time,now)
                else:
                    if len(now)!=len(p0[1]) or set(now)!=set(p0[1]): return self.verdict(o,prop,'particles','iteration %d: %d tracers, %d at the beginning'%(it,len(now),len(p0[1])))
                    for q in now:
                        for a in range(dim):
                            lo=float(c.get('mesh/%smin'%'xyz'[a],0)); L=float(c.get('mesh/%smax'%'xyz'[a],1))-lo; want=p0[1][q][a]+first['rho_v'+'xyz'[a]]/first['rho']*(d.time-p0[0]); g=now[q][a]-want; g-=L*round(g/L)
                            if abs(g)>1e-10*max(1,L): return self.verdict(o,prop,'tracer','iteration %d: tracer %d is %g from where the uniform flow takes it (axis %d)'%(it,q,g,a))
        o['nontrivial']=len({frozenset(d.octs) for d in A.values()})>1 or v['sc']['ranks']>1
        for it,d in A.items(): o['cover']['state.%x'%hash(frozenset(d.owner.items()))]=1
        return o

class Planar(RunCase):
    """a plane problem, and the same problem extended along a third axis: every layer of the second is the first"""
    name='planar'
    def gen(self,seed,tier):
        r=random.Random('planar/%d'%seed); c=run_gen.config(r,dim=2,real_ic=0,updaters=[r.choice(run_gen.HYDRO[:4]*2+run_gen.HYDRO[4:]+run_gen.MHD)],steps=(2,5) if tier=='quick' else (3,10)); up=c['hydro/update']; mhd='MHD' in up
        if c['amr/level_min']==3: c['amr/level_min']=2; c['amr/level_max']=min(c['amr/level_max'],3); [c.pop('amr/coarse_oct_resolution_'+x,None) for x in 'xyz']
        if not c['amr/markers_kernel'].endswith('gradient'): c['amr/markers_kernel']='dsim_hash' # the others measure volumes, or sum over the axes
        c['dt/dt_kernel']='dsim_dt'; c['dsim/flat']='true'; h=[(float(c['mesh/%smax'%x])-float(c['mesh/%smin'%x]))/c.get('amr/coarse_oct_resolution_'+x,1<<c['amr/level_min'])/c['amr/b'+x] for x in 'xy']; fine=0.5**(c['amr/level_max']-c['amr/level_min'])
        if mhd: c['dsim/bzero']=4 # a plane run keeps no third component of the velocity
        w=r.choice(['','','gravity','field','diffusion'])
        if w in ('gravity','field') and 'legacy' in up: w='' # its predictor knows gravity in 2D only
        if not mhd and w=='gravity':
            c['gravity/gravity_type']=1
            for x in 'xy': c['gravity/g'+x]=r.choice([0,0.1,-0.5,1])
            if up.endswith(('euler','RK2')): c['hydro/well_balanced']=r.choice(['on','off'])
        elif not mhd and w=='field': c['gravity/gravity_type']='constant_field'; c['gravity/solver']='dsim_gravity'; c['dsim/gz']=0
        elif not mhd and w=='diffusion' and 'legacy' not in up and 'oneneighbor' not in up:
            if r.random()<0.7: c['viscosity/update']='ParabolicUpdate_explicit'; c['viscosity/mu']=r.choice([0.001,0.01])
            if r.random()<0.7 or 'viscosity/update' not in c: c['thermal_conduction/update']='ParabolicUpdate_explicit'; c['thermal_conduction/kappa']=r.choice([0.001,0.01])
        if r.random()<0.3:
            import ioruns; ioruns.particles(r,c); c['particles/update_position']='ParticleUpdate_tracers_move'
            for x in 'xy':
                for e in ('min','max'): c['mesh/boundary_type_%s%s'%(x,e)]='periodic'
        vs=[]; oz=[]
        for _ in range(2):
            bz=r.choice([2,4] if 'one' in up else [4,4,6]); cz=r.choice([1,1,2,3]) if c['amr/level_min']>1 else r.choice([1,2]); d=dict({'mesh/ndim':3,'amr/bz':bz,'amr/coarse_oct_resolution_z':cz})
            if c['amr/level_min']==2 and c['amr/level_max']>3: d['amr/coarse_oct_resolution_z']=cz=1
            lo=r.choice([0,-1,0.5]); hz=min(h)*r.choice([0.5,1,1,2]); d['mesh/zmin']=lo; d['mesh/zmax']=lo+hz*bz*cz; t=r.choice(['periodic','reflecting','absorbing'])
            for e in ('min','max'): d['mesh/boundary_type_z'+e]=t if t=='periodic' else r.choice(['reflecting','absorbing'])
            if 'particles/update_position' in c or 'one' in up: d['mesh/boundary_type_zmin']=d['mesh/boundary_type_zmax']='periodic'
            if c.get('gravity/gravity_type')==1: d['gravity/gz']=0 # (walls: the one-neighbour scheme uses values without predictor there)
            h.append(hz); n=1
            for x in 'xy': n*=c.get('amr/coarse_oct_resolution_'+x,1<<c['amr/level_min'])
            vs.append(dict(sc=run_gen.schedule(r,min(n*cz,r.choice([1,2,2,3,4,5,6])),r.random()<0.5),over=d))
        c['dsim/fixed_dt']=r.choice([0.05,0.1])*min(h)*fine/(1+c.get('dsim/drift',0))
        return dict(cfg=c,ref=run_gen.calm(min(run_gen.max_ranks(c),r.choice([1,1,2,3]))),vars=vs)
    def run(self,case,sim,prop):
        o=outcome(); c=case['cfg']; a=Exec(sim,case['ref'],c,tag='ref',o=o)
        if a.bad(): return self.stopped(o,prop,a,'plane run')
        try: A=states(a.rec)
        except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
        for v in case['vars']:
            b=Exec(sim,v['sc'],dict(c,**v['over']),tag='var',o=o)
            if b.bad(): return self.stopped(o,prop,b,'extended run on %d ranks'%v['sc']['ranks'])
            try: B=states(b.rec)
            except Bad as x: return self.verdict(o,prop,'ranks-disagree',str(x))
            if list(A)!=list(B): return self.verdict(o,prop,'states','iterations saved %s, expected %s'%(list(B),list(A)))
            for it in A:
                for z,L in sorted(rundata.layers(B[it],v['over']['amr/coarse_oct_resolution_z'],c['amr/level_min']).items()):
                    if isinstance(L,str): return self.verdict(o,prop,'planar','iteration %d: %s'%(it,L))
                    d=rundata.diff(A[it],L,tol=1e-9,ptol=1e-8)
                    if d: return self.verdict(o,prop,'planar','iteration %d, %d ranks, layer %g of the extended box: %s'%(it,v['sc']['ranks'],z,d))
            o['nontrivial']=True; o['cover']['state.%x'%hash((frozenset(B[it].owner.items()))) ]=1
        return o

class Comm(RunCase):
    """communication only: the run ends, every message and collective matches, nothing is left over"""
    name='comm'
    def gen(self,seed,tier):
        r=random.Random('comm/%d'%seed); c=run_gen.config(r,extra=run_gen.EXTRA,steps=(2,5) if tier=='quick' else (3,10)); n=min(run_gen.max_ranks(c),r.choice([2,2,3,3,4,5,6]))
        if r.random()<0.4: io_config(r,c)
        return dict(cfg=c,vars=[dict(sc=run_gen.schedule(r,n),over={})])
    def run(self,case,sim,prop):
        o=outcome(); v=case['vars'][0]; e=Exec(sim,v['sc'],dict(case['cfg'],**v.get('over',{})),tag='a',o=o)
        if e.bad(): return self.stopped(o,prop,e,'run')
        o['nontrivial']=v['sc']['ranks']>1
        for it,d in states(e.rec).items(): o['cover']['state.%x'%hash(frozenset(d.owner.items()))]=1
        return o
def io_config(r,c,out=True,chk=True):
    """write real files"""
    if out: c['output/backend']='dsim_hdf5'; c['run/output_frequency']=r.choice([1,1,2,3]); c['output/output_real_type']=r.choice(['float','double']); c['output/write_variables']=r.choice(['rho','rho,e_tot','rho,rho_vx,rho_vy,e_tot'])
    if chk: c['output/checkpoint']='dsim_checkpoint'; c['run/enable_checkpoint']='true'; c['run/checkpoint_frequency']=r.choice([1,1,2,3])
