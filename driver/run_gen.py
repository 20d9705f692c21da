"""Seeded configurations of the full program. A configuration is {'section/key': value}."""
import os, random
from mesh_gen import KINDS
def ini(cfg):
    s={}
    for k,v in cfg.items(): a,b=k.split('/',1); s.setdefault(a,[]).append('%s=%s'%(b,v))
    return ''.join('[%s]\n%s\n\n'%(a,'\n'.join(l)) for a,l in s.items())
HYDRO=['HydroUpdate_hancock','HydroUpdate_hancock_oneneighbor','HydroUpdate_euler','HydroUpdate_RK2','HydroUpdate_legacy']
MHD=['MHDUpdate_hancock','MHDUpdate_hancock_oneneighbor','MHDUpdate_euler','MHDUpdate_RK2']
GLM=['GLMMHDUpdate_euler','GLMMHDUpdate_RK2']
def schedule(r,ranks,heavy=True):
    """one simulated execution: ranks, threads and which kinds of nondeterminism are on"""
    s=dict(seed=r.randrange(1<<30),ranks=ranks,threads=r.choice([1,1,2,3]))
    if heavy:
        for k in KINDS: s['p_'+k]=r.choice([0,0,0.05,0.3,0.7,1.0])
        if r.random()<0.25: s['slow%d'%r.randrange(ranks)]=r.choice([5,50])
        s['perturb']=r.choice([0,0,85,170,255])
    return s
def calm(ranks=1): return dict(seed=1,ranks=ranks,threads=1)
def config(r,bc=None,uniform=False,updaters=None,mhd=0.25,real_ic=0.35,dim=None,steps=(2,6),amr=None,extra=0):
    c={}; dim=dim or r.choice([2,2,3]); lmin=r.choice([1,2,2,3] if dim==2 else [1,1,2]); lmax=lmin+(0 if uniform else r.choice([1,1,2] if dim==2 or lmin==1 else [1]))
    x=r.random(); kind='glm' if x<mhd*0.35 else 'mhd' if x<mhd else 'hydro'
    up=r.choice(updaters or {'hydro':HYDRO[:4]*3+HYDRO[4:],'mhd':MHD,'glm':GLM}[kind]); kind='glm' if up.startswith('GLM') else 'mhd' if up.startswith('MHD') else 'hydro'
    c['run/nstepmax']=r.randint(steps[0],steps[1] if dim==2 else max(steps[0],steps[1]-2)); c['run/tEnd']=100
    c['run/nlog']=r.choice([1,10,1000])
    c['amr/level_min']=lmin; c['amr/level_max']=lmax
    full=1<<lmin; cg=[full]*dim
    if r.random()<0.3 and lmin>0: # a coarse grid that is not a power of two, nor cubic
        cg=[r.randint(max(1,full//2),full) for _ in range(dim)]; cg[r.randrange(dim)]=r.randint(full//2+1,full)
        for d in range(dim): c['amr/coarse_oct_resolution_'+'xyz'[d]]=cg[d]
    b=r.choice([[4,4,4],[4,4,4],[2,2,2],[4,2,2],[2,4,4]] if dim==3 else [[4,4,1],[4,4,1],[2,2,1],[4,2,1],[8,4,1],[6,4,1]])
    if 'one' not in up: b=[max(4,x) if x>1 else 1 for x in b] # two layers of ghost cells, up to four fine ones: smaller blocks are not supported
    for d in range(dim): c['amr/b'+'xyz'[d]]=b[d]
    c['amr/loadbalance_coherent_levels']=r.choice([0,1,2,3]); c['amr/load_balancing_frequency']=r.choice([1,1,2,3,1000]); c['amr/cycle_frequency']=r.choice([1,1,1,2,3])
    c['amr/nbOctsPerGroup']=r.choice([1024,1024,7,16])
    c['mesh/ndim']=dim
    for d in range(dim):
        if r.random()<0.3: c['mesh/%smin'%'xyz'[d]]=lo=r.choice([-1,0,0.5]); c['mesh/%smax'%'xyz'[d]]=lo+r.choice([1,2,0.5])
        else: c['mesh/%smin'%'xyz'[d]]=0; c['mesh/%smax'%'xyz'[d]]=1
        t=r.choice(bc or ['periodic','periodic','reflecting','absorbing'])
        for e in ('min','max'):
            c['mesh/boundary_type_%s%s'%('xyz'[d],e)]= t if t=='periodic' else r.choice([x for x in (bc or ['reflecting','absorbing']) if x!='periodic'])
    c['hydro/gamma0']=r.choice([1.4,1.666]); c['hydro/update']=up; c['hydro/riemann']='hllc' if kind=='hydro' else r.choice(['hlld','hlld','five_waves'])
    c['dt/dt_kernel']='dsim_dt,Compute_dt_hydro'; c['dt/hydro_cfl']=r.choice([0.3,0.5,0.8])
    ics={'hydro':['blast','kelvin_helmholtz','riemann2d','implode','sod'] if dim==2 else ['blast','sod'],'mhd':['MHD_blast','orszag_tang','MHD_rotor'],'glm':['MHD_blast_glm','orszag_tang_glm','MHD_rotor_glm']}[kind]
    if r.random()<real_ic and kind=='hydro':
        c['run/initial_conditions']=r.choice(ics)
    else:
        c['run/initial_conditions']='dsim_random'; c['dsim/state_mode']=r.choice([0,0,1,2]); c['dsim/state_amp']=r.choice([0.05,0.2,0.3])
    if c['run/initial_conditions']=='dsim_random' and all(c['mesh/boundary_type_%smin'%'xyz'[d]]=='periodic' for d in range(dim)) and r.random()<0.25: c['dsim/drift']=r.choice([0.5,1,3])
    c['dsim/refine_seed']=r.randrange(1<<30); c['dsim/refine_mode']=r.choice([0,1,1,2]); c['dsim/refine_percent']=r.choice([10,20,35] if dim==2 else [10,15,20]); c['dsim/coarsen_percent']=r.choice([10,40,90])
    mk=amr or r.choice(['dsim_hash','dsim_hash','dsim_hash','RefineCondition_pseudo_gradient','RefineCondition_second_derivative_error','RefineCondition_mass'])
    c['amr/markers_kernel']=mk
    if mk.endswith('gradient'): c['amr/epsilon_refine']=0.1; c['amr/epsilon_coarsen']=0.05
    if mk.endswith('error'):
        for d in range(dim): c['amr/b'+'xyz'[d]]=max(4,c['amr/b'+'xyz'[d]]) # same limit on the block size
        c['amr/error_min']=0.1; c['amr/error_max']=0.3
    if mk.endswith('mass'): c['amr/mass_coarsen']=0.9*0.5**(dim*lmax); c['amr/mass_refine']=1.0*0.5**(dim*lmax)
    c['output/outputDir']='./'; c['output/outputPrefix']='t'; c['output/backend']='dsim_dump'; c['output/checkpoint']='dsim_dumpchk'
    c['run/output_frequency']=1; c['run/enable_checkpoint']='false'
    if extra and r.random()<extra: extras(r,c)
    return c
EXTRA=float(os.environ.get("DSIM_EXTRA",0.35)) # share of cases that use them
def extras(r,c):
    """less common parts of the program: source terms, diffusion, cosmological time, other criteria, initial conditions and remapping"""
    dim=c['mesh/ndim']; up=c['hydro/update']; hydro='MHD' not in up; what=r.sample(['gravity','viscosity','conduction','cooling','cosmology','criterion','ic'],r.choice([1,2,2,3]))
    if 'gravity' in what:
        c['gravity/gravity_type']=r.choice([1,'constant_scalar'])
        for d in range(dim): c['gravity/g'+'xyz'[d]]=r.choice([0,0.1,-0.5,1])
        if hydro and up.endswith(('euler','RK2')): c['hydro/well_balanced']=r.choice(['on','off'])
    elif hydro and up.endswith(('euler','RK2')) and r.random()<0.4: c['hydro/well_balanced']='on'
    if hydro and 'legacy' not in up and 'oneneighbor' not in up:
        if 'viscosity' in what: c['viscosity/update']='ParabolicUpdate_explicit'; c['viscosity/mu']=r.choice([0.001,0.01])
        if 'conduction' in what: c['thermal_conduction/update']='ParabolicUpdate_explicit'; c['thermal_conduction/kappa']=r.choice([0.001,0.01])
        if 'viscosity/update' in c or 'thermal_conduction/update' in c: c['dt/dt_kernel']+=',Compute_dt_parabolic'; c['dt/parabolic_cfl']=r.choice([0.2,0.4])
    if hydro and 'cooling' in what: c['cooling/update']='CoolingUpdate_FF'; c['cooling/FF_fluxes']=r.choice([0.01,-0.02])
    if 'cosmology' in what:
        c['cosmology/active']='true'; c['cosmology/aStart']=r.choice([0.01,0.1]); c['cosmology/omega_m']=0.3; c['cosmology/omega_v']=0.7; c['cosmology/da']=r.choice([1.02,1.1]); c['cosmology/lookup_size']=256
        c["dt/dt_kernel"]+=",Compute_dt_cosmology" # without it the time runs past the end of the lookup table
    if 'criterion' in what:
        c['amr/markers_kernel']=k=r.choice(['RefineCondition_downflows','RefineCondition_legacy'])
        for d in range(dim): c['amr/b'+'xyz'[d]]=max(4,c['amr/b'+'xyz'[d]])
        if k.endswith('downflows'): c['amr/downflow_sign']=r.choice([1,-1]); c['amr/velocity_coarsen']=r.choice([-0.1,0]); c['amr/velocity_refine']=r.choice([0.1,0.5])
        else:
            c['amr/error_min']=0.1; c['amr/error_max']=0.3
            for d in range(dim): c['amr/b'+'xyz'[d]]+=c['amr/b'+'xyz'[d]]%2
    if 'ic' in what:
        if hydro: c['run/initial_conditions']='rayleigh_taylor'; c['RT/P0']=2.5; c['RT/z0']=r.choice([0.25,0.5])
        else: c['run/initial_conditions']=r.choice(['MHD_blast','orszag_tang','MHD_rotor'] if dim==2 else ['MHD_blast'])+('_glm' if up.startswith('GLM') else '')
    return c
def small(c):
    """a cheaper configuration, for runs with memory access hooks"""
    if c['mesh/ndim']==3 and c['amr/level_min']>1:
        c['amr/level_max']-=c['amr/level_min']-1; c['amr/level_min']=1
        for d in 'xyz': c.pop('amr/coarse_oct_resolution_'+d,None)
    if c['amr/markers_kernel'].endswith('mass'): c['amr/markers_kernel']='dsim_hash'
    c['run/nstepmax']=min(c['run/nstepmax'],3); return c
def max_ranks(c):
    n=1
    for d in range(c['mesh/ndim']): n*=c.get('amr/coarse_oct_resolution_'+'xyz'[d],1<<c['amr/level_min'])
    return n
