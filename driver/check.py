#!/usr/bin/env python3
"""check.py <property>           decide a property: seeded search over simulated runs (VERIF_SEED, VERIF_TIER)
   check.py --replay <file>      run one replay file again; exit 1 and the same VIOLATION line if it still fails"""
import sys, os, json, time, multiprocessing as mp, subprocess, traceback, signal, collections, re
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); sys.path.insert(0,HERE)
from dsim import Sim, HarnessError
import props
T0=time.time()
BUILD=os.environ.get('DSIM_BUILD',os.path.join(VERIF,'build'))
def build(flavour):
    p=subprocess.run([sys.executable,os.path.join(HERE,'build.py'),flavour],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode:
        print(p.stdout[-4000:]); print('HARNESS-ERROR: build failed'); sys.exit(2)
    return p.stdout.strip().split('\n')[-1]
def site(v): # which assertion failed, so that minimising does not wander to another failure
    m=re.search(r'failed at \S*?(\w+\.\w+:\d+)|(AddressSanitizer: [\w-]+)',v['detail']); return m.group(0) if m else None
def same_verdict(a,b): return bool(a) and bool(b) and a['kind']==b['kind'] and site(a)==site(b)

def worker(wi,nw,prop,tier,seed,dirs,deadline,maxcases,q,stop):
    signal.signal(signal.SIGINT,signal.SIG_IGN)
    P=props.PROPS[prop]; wl=P.workloads; sims={f:Sim(d) for f,d in dirs.items()}
    ev=dict(cases=0,runs=0,simtime=0.0,ops=0,choices=0,kinds={},cover={},nontrivial=0,determinism=0,other=collections.Counter(),per_workload=collections.Counter())
    seen=set(); states=set(); viol=None; err=None; samples=[]; ifirst=None; other_ex={}
    try:
        i=wi
        while time.time()<deadline and i<maxcases and not stop.is_set():
            w=P.pick(seed,i,tier)
            s=seed*10000000+i; case=w.gen(s,tier); o=w.run(case,sims[w.flavour],prop)
            if i%50==wi%50//8*0+wi and ev['cases']%25==0: # determinism of the simulator, sampled: same case twice, same trace
                o2=w.run(case,sims[w.flavour],prop); ev['determinism']+=1
                if o2['hash']!=o['hash']: err='nondeterminism: case %d of %s gave two traces'%(s,w.name); break
            ev['cases']+=1; ev['runs']+=o['runs']; ev['simtime']+=o['simtime']; ev['ops']+=o['ops']; ev['choices']+=o['choices']; ev['per_workload'][w.name]+=1
            for k,v in o['kinds'].items():
                a=ev['kinds'].setdefault(k,[0,0]); a[0]+=v[0]; a[1]+=v[1]
            for k,v in o['cover'].items():
                if k.startswith('state.'): 
                    if len(states)<2000000: states.add(k)
                else: ev['cover'][k]=ev['cover'].get(k,0)+v
            if o['nontrivial'] and o['hash'] not in seen: seen.add(o['hash']); ev['nontrivial']+=1
            if len(samples)<1: samples.append(dict(seed=s,workload=w.name,case=w.describe(case)))
            if o['other']: ev['other'][o['other']['kind']]+=1; other_ex.setdefault(o['other']['kind'],(s,o['other']['detail'][:300]))
            if o['verdict']:
                if props.known(prop,o['verdict']): ev['cover']['known_finding_hits']=ev['cover'].get('known_finding_hits',0)+1
                else: viol=(i,s,wl.index(w),case,o['verdict'],o['hash']); stop.set(); break
            i+=nw
    except HarnessError as e: err='simulator: '+str(e)
    except Exception: err=traceback.format_exc()
    finally:
        for x in sims.values(): x.close()
    q.put((wi,ev,viol,err,samples,states,other_ex))

def minimise(prop,w,case,verdict,sim,budget):
    dl=time.time()+budget; tries=0
    def fails(c):
        try: return same_verdict(w.run(c,sim,prop)['verdict'],verdict)
        except HarnessError: return False
    changed=True
    while changed and time.time()<dl:
        changed=False
        for c in w.shrink(case):
            if time.time()>dl: break
            tries+=1
            if fails(c): case=c; changed=True; break
    if time.time()<dl and hasattr(w,'get_sc'):
        try:
            c=props.cases.limit_choices(case,w.get_sc,w.put_sc,lambda c:w.run(c,sim,prop),lambda o:same_verdict(o['verdict'],verdict),dl)
            if fails(c): case=c
        except HarnessError: pass
    return case,tries

def replay(path):
    R=json.load(open(path)); prop=R['property']; w=[x for x in props.PROPS[prop].workloads if x.name==R['workload']][0]
    d=build(w.flavour); sim=Sim(d)
    try: o=w.run(R['case'],sim,prop)
    finally: sim.close()
    v=o['verdict']
    print(json.dumps(dict(verdict=v,hash=o['hash'])))
    if same_verdict(v,R['verdict']):
        print('VIOLATION property=%s replay=%s'%(prop,path)); return 1
    return 0

def main():
    if sys.argv[1]=='--replay': sys.exit(replay(sys.argv[2]))
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1); P=props.PROPS[prop]
    if tier not in('quick','thorough'): tier='quick'
    dirs={}
    for f in sorted({w.flavour for w in P.of(tier)}): dirs[f]=build(f)
    tb=time.time()-T0
    budget=float(os.environ.get('DSIM_BUDGET',P.quick if tier=='quick' else P.thorough)); nw=int(os.environ.get('DSIM_WORKERS','8'))
    t1=time.time(); deadline=t1+budget; q=mp.Queue(); stop=mp.Event()
    ps=[mp.Process(target=worker,args=(i,nw,prop,tier,seed,dirs,deadline,10000000,q,stop)) for i in range(nw)]
    for p in ps: p.start()
    res=[q.get() for _ in ps]
    for p in ps: p.join()
    search=time.time()-t1
    res.sort(key=lambda r:r[0])
    ev=dict(cases=0,runs=0,simtime=0.0,ops=0,choices=0,nontrivial=0,determinism=0); kinds={}; cover={}; other=collections.Counter(); perw=collections.Counter(); states=set(); oex={}
    for _,e,_,_,_,st,ox in res:
        for k in ev: ev[k]+=e[k]
        for k,v in e['kinds'].items():
            a=kinds.setdefault(k,[0,0]); a[0]+=v[0]; a[1]+=v[1]
        for k,v in e['cover'].items(): cover[k]=cover.get(k,0)+v
        other.update(e['other']); perw.update(e['per_workload']); states|=st
        for k,v in ox.items(): oex.setdefault(k,v)
    errs=[r[3] for r in res if r[3]]
    viols=sorted([r[2] for r in res if r[2]],key=lambda v:v[0])
    samples=[x for r in res for x in r[4]][:3]
    status=0; vrec=None
    if viols and viols[0][4]['kind'].endswith(':hang'): # judged by processor time: only believed if it repeats
        i,s,wi,case,verdict,h=viols[0]; w=P.workloads[wi]; sim=Sim(dirs[w.flavour])
        try: o=w.run(case,sim,prop)
        finally: sim.close()
        if (o['verdict'] or {}).get('kind')!=verdict['kind']: print('note: seed %d took too long once, not again; ignored'%s); viols=[]
    if errs and not viols:
        print('HARNESS-ERROR:',errs[0][-1500:]); status=2
    if viols:
        i,s,wi,case,verdict,h=viols[0]; w=P.workloads[wi]
        print('seed %d (workload %s): %s: %s'%(s,w.name,verdict['kind'],verdict['detail']))
        hs=[]
        for _ in range(0 if verdict['kind'].endswith(':hang') else 2): # gate: the same seed in two fresh simulators gives the same trace and the same verdict
            sim=Sim(dirs[w.flavour])
            try: o=w.run(case,sim,prop); hs.append((o['hash'],(o['verdict'] or {}).get('kind')))
            finally: sim.close()
        if any(x!=(h,verdict['kind']) for x in hs) and not verdict['kind'].endswith(':hang'):
            print('HARNESS-ERROR: violation did not repeat: %s then %s'%((h,verdict['kind']),hs)); sys.exit(2)
        sim=Sim(dirs[w.flavour])
        try: small,tries=(case,0) if verdict['kind'].endswith(':hang') else minimise(prop,w,case,verdict,sim,float(os.environ.get('DSIM_SHRINK','60' if tier=='quick' else '180')))
        finally: sim.close()
        os.makedirs(os.path.join(VERIF,'replays'),exist_ok=True); path=os.path.join(VERIF,'replays','%s-%d.json'%(prop,s))
        def write(c,minimised):
            sim=Sim(dirs[w.flavour])
            try: o=w.run(c,sim,prop)
            finally: sim.close()
            json.dump(dict(property=prop,workload=w.name,seed=s,verdict=o['verdict'],hash=o['hash'],minimised=minimised,case=c),open(path,'w'),indent=1)
            p=subprocess.run([sys.executable,os.path.abspath(__file__),'--replay',path],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            m=re.search(r'"hash": "([^"]*)"',p.stdout)
            return p.returncode==1 and (verdict['kind'].endswith(':hang') or (m and m.group(1)==o['hash'])), p.stdout, o
        ok,out,o=write(small,True)
        if not ok and small is not case: ok,out,o=write(case,False)
        if not ok: print('HARNESS-ERROR: replay file does not reproduce:\n'+out[-1500:]); sys.exit(2)
        print('minimised (%d tries): %s'%(tries,json.dumps(w.describe(small))[:1500])); print('  %s: %s'%(o['verdict']['kind'],o['verdict']['detail']))
        print('VIOLATION property=%s replay=%s'%(prop,path)); status=1; vrec=o['verdict']
    for l in props.known_lines(prop): print(l)
    for k,v in other.most_common(8): print('note: %d runs stopped at %s, which another check decides; first: seed %d %s'%(v,k,oex[k][0],oex[k][1]))
    faults={k[6:]:v for k,v in sorted(cover.items()) if k.startswith('fault.')}
    for k,v in kinds.items(): faults['schedule choice: '+k]=v[1]
    E=dict(property=prop,tier=tier,seed=seed,level=P.level,
      coverage=dict(evaluations=ev['runs'],distinct_nontrivial=ev['nontrivial'],rule=P.rule+' Non-trivial: '+P.nontrivial+' Distinct: by the hash of the whole trace (every scheduling, delivery and I/O decision, every published value).',
        samples=samples or [dict(note='no case ran')],cases=ev['cases'],cases_per_workload=dict(perw),seeds=[seed*10000000,seed*10000000+max(0,ev['cases']-1)],
        runs_per_hour=int(ev['runs']/max(search,1e-3)*3600),seeds_per_hour=int(ev['cases']/max(search,1e-3)*3600),simulated_seconds=round(ev['simtime'],3),simulated_steps=ev['ops'],
        choices_made=ev['choices'],nondefault_choices={k:v[1] for k,v in kinds.items()},choice_points={k:v[0] for k,v in kinds.items()},
        faults_injected=faults,probes={k:v for k,v in sorted(cover.items()) if not k.startswith('fault.')},distinct_states=len(states),distinct_states_measure=P.state_measure,
        determinism_reruns=ev['determinism'],stopped_by_other_property=dict(other),components_real=props.REAL,components_stubbed=props.STUB,build_s=round(tb,1),search_s=round(search,1)),
      assumptions=P.assumptions,wall_s=round(time.time()-T0,1),violations=1 if vrec else 0)
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True); json.dump(E,open(os.path.join(VERIF,'evidence',prop+'.json'),'w'),indent=1)
    print('%s %s: %d cases, %d simulated runs (%d distinct non-trivial), %d states, %.0f s search, %.0f s in all -> exit %d'%(prop,tier,ev['cases'],ev['runs'],ev['nontrivial'],len(states),search,time.time()-T0,status))
    if status==0 and ev['cases']==0: print('HARNESS-ERROR: nothing was explored'); status=2
    sys.exit(status)
if __name__=='__main__': main()
