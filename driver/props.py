"""Which workloads decide which property, with what budget."""
import os, re, random, cases, runs, ioruns
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL=['every source file of core/src (AMR mesh, light octree, ghost and view communicators, user data, particles, initial conditions, update kernels, time loop, HDF5/XML output, checkpoint and restart, parameter files), one private copy of the compiled code per simulated rank','Kokkos','HDF5 library and its MPI-IO file driver logic','libstdc++ and C library buffering']
STUB=['MPI library (point-to-point, collectives, MPI-IO): deterministic simulator','OpenMP runtime: simulated threads','operating system clock, signals, process exit','file system calls: passed to a scratch directory, with faults injected before the call','processes: fibers of one process']
class Prop:
    def __init__(self,workloads,rule,nontrivial,quick=40,thorough=600,level='exploration',state_measure='distinct (mesh, partition) states reached',assumptions=None,mix=None,technique='deterministic simulation: seeded schedules and operation histories against a sequential reference model',note=None):
        self.technique=technique; self.note=note or 'Seeded search; violations are gated, minimised and replayed. Samples executions, does not enumerate them.'
        self.workloads=workloads; self.rule=rule; self.nontrivial=nontrivial; self.quick=quick; self.thorough=thorough; self.level=level; self.state_measure=state_measure; self.mix=mix
        self.deep_only=[]
        self.assumptions=assumptions or ['Up to 6 simulated ranks and 3 threads; meshes up to about 1500 cells-blocks','The simulated MPI keeps the ordering guarantees of the MPI standard; messages are never lost or corrupted, which MPI excludes','A clean batch is evidence, not proof: executions are sampled']
    def of(self,tier): return [w for w in self.workloads if tier=='thorough' or w not in self.deep_only]
    def pick(self,seed,i,tier):
        r=random.Random('mix/%d/%d'%(seed,i)); l=self.of(tier)
        return r.choices(l,[m for w,m in zip(self.workloads,self.mix or [1]*len(self.workloads)) if w in l])[0]
PROPS={}
PREEMPT_QUICK=['P06','P09','P10','P13']
M='Each case: a seeded geometry (dimension, level bounds, coarse grid shape, periodicity, block size), 1-6 ranks, 1-3 threads, a random history of mesh operations on the real classes, and a seeded schedule (message delays, transfer at completion time or at post time, rendez-vous or buffered sends, collective skew, reduction order, thread order, slow ranks, heap poisoning).'
PRE=' In a part of the cases (thorough tier; in the quick tier too for P06, P09, P10 and P13) the code is compiled with memory access hooks, and the threads of a kernel are interleaved at seeded single accesses.'
for p in ['P01','P02','P03','P04','P05','P06','P07','P08','P09','P10']:
    pre={'P01':[2,1],'P02':[2,1],'P04':[3,1],'P06':[2,1],'P08':[2,1],'P09':[2,1],'P10':[1,1]}.get(p)
    PROPS[p]=Prop([cases.Mesh(p)]+([cases.Mesh(p,preempt=True)] if pre else []),M+(PRE if pre else ''),'more than one rank took part.',mix=pre)
F='Each case: a seeded parameter file of the real program (dimension, domain, coarse grid, block size, boundaries, hydro/MHD/GLM solver, initial condition, refinement criterion, adaptation and load-balancing cadence), run under seeded schedules. '
FA=['Up to 6 simulated ranks and 3 threads, up to about 800 blocks, 2-6 steps (quick) or up to 15 (thorough)','The simulated MPI keeps the ordering guarantees of the MPI standard; messages are never lost or corrupted, which MPI excludes','A clean batch is evidence, not proof: executions are sampled']
PROPS['P11']=Prop([runs.Conserve()],F+'Totals over all ranks are compared with the initial ones at every step.','more than one rank took part.',assumptions=FA,technique='deterministic simulation: seeded schedules and partitions of the whole program, conservation invariants at every step')
PROPS['P28']=Prop([runs.Coords()],F+'The same set-up is run in two coordinate systems (mirrored, axes exchanged, moved across periodic boundaries, other origin, other unit of length), each on its own partition and schedule; meshes, values and particles are compared at every saved step.','the second description was compared to the end.',assumptions=FA,technique='deterministic simulation: seeded coordinate changes, partitions and schedules of the whole program, compared cell by cell')
PROPS['P29']=Prop([runs.Uniform()],F+'Every value of every saved state is compared with the initial one, every tracer with its exact path.','the mesh changed during the run or more than one rank took part.',assumptions=FA,technique='deterministic simulation: seeded meshes, mesh cycles, partitions and schedules of a flow whose exact solution is known')
PROPS['P30']=Prop([runs.Planar()],F+'A plane problem is run, and twice more as a box extended along the third axis, each with its own depth, walls, partition and schedule; the layers of the box are compared with the plane at every saved step.','an extended run was compared to the end.',assumptions=FA,technique='deterministic simulation: seeded plane problems against their extension to three dimensions, under seeded partitions and schedules')
PROPS['P12']=Prop([runs.Equiv('ranks')],F+'One rank is the reference; each variant changes rank count, load balancing and schedule, and every saved state is compared.','at least one variant was compared to the end.',assumptions=FA,technique='deterministic simulation: the whole program on 1 rank as reference against seeded partitions and schedules')
PROPS['P13']=Prop([runs.Equiv('sched'),runs.Equiv('preempt')],F+PRE[1:]+' The default schedule is the reference; each variant changes only thread and message timing, and every saved state is compared bit for bit.','at least one variant was compared to the end.',mix=[1,1],assumptions=FA,technique='deterministic simulation: seeded schedules of the whole program compared bit for bit')
PROPS['P14']=Prop([runs.Comm(),cases.Mesh('all',comm=True)],F+'Deadlock, mismatched collectives, truncation, unreceived messages and unfinished requests are detected by the simulated MPI.','more than one rank took part.',assumptions=FA,technique='deterministic simulation: seeded schedules, buffered and rendez-vous sends, with matching checks in the simulated MPI')
D='Disk: every write and read of HDF5 (MPI-IO) and of the C library goes to a scratch directory through the simulator, split and interleaved by the scheduler. '
FD=FA+['The disk keeps what was written, in order: writes are not lost or torn by the operating system, only cut by the crash of the job or refused with an error']
PROPS['P15']=Prop([ioruns.Restart()],F+D+'The program is restarted from its own checkpoints on other rank counts, once or twice in a row; every later state is compared with the run that was not stopped.','at least one restart continued for at least one step.',assumptions=FD,technique='deterministic simulation: stop and restart on another rank count, compared with the uninterrupted run')
PROPS['P16']=Prop([ioruns.Crash()],F+D+'The job is killed at a seeded step (twice in thorough runs); what had been saved is compared with the recorded states and restarted.','a checkpoint had completed before the crash.',assumptions=FD,technique='deterministic simulation: crash at a seeded step with only the files surviving, then recovery compared with the uninterrupted run')
PROPS['P17']=Prop([ioruns.IOFault()],F+D+'One seeded write, open, flush or read fails (disk full, I/O error, quota), once or from then on, on one rank or any, after nothing or part of it was done.','the fault was injected.',assumptions=FD,state_measure='distinct fault points (kind, file, position of the call, lasting or not, partial or not)',technique='deterministic simulation: a seeded system call on a file fails; what the run claims is compared with what is on the disk')
PROPS['P18']=Prop([ioruns.Interrupt()],F+D+'SIGINT reaches a seeded subset of ranks at a seeded step, sometimes other ranks later; the run is compared with the undisturbed one and restarted from its last checkpoint.','the signal arrived inside the time loop.',assumptions=FD,state_measure='distinct (ranks, moment) of interruption, counted at 50 steps resolution',technique='deterministic simulation: signals at seeded steps on seeded ranks, then recovery compared with the undisturbed run')
PROPS['P19']=Prop([ioruns.Files()],F+D+'Every output is read back and compared, cell by cell and particle by particle, with the state recorded in memory when it was saved.','more than one rank took part.',assumptions=FD,technique='deterministic simulation: seeded partitions, schedules and I/O interleavings, files compared with the recorded state')
PROPS['P20']=Prop([ioruns.Cadence()],F+'Final time, iteration count, cadences in iterations and in time, first iteration and time are seeded, many of them on or next to the times of the steps; a model of the input file says what must be written and when the run must end. A restart in the middle follows the same model.','the run was compared to the end.',assumptions=FD,state_measure='distinct sequences of saves (iterations of outputs and checkpoints, length of the run)',technique='deterministic simulation: the whole program under seeded schedules against a small executable model of the input file')
PROPS['P21']=Prop([ioruns.Config()],F+D+'The input file is written in seeded styles and with parameters left out. The program runs from it twice, under two schedules, and once from the file it recorded.','the run from the recorded file was compared to the end.',assumptions=FD,technique='deterministic simulation: a run, the same run under a seeded schedule, and the run from its recorded parameter file, compared bit for bit')
PROPS['P22']=Prop([ioruns.Gravity(),ioruns.Gravity(preempt=True)],F+PRE[1:]+' '+'Every call of the self-gravity solver is recorded; the residual and the force are computed again from their definition, and compared between partitions. Some densities are uniform or nearly so.','at least one variant was compared to the end.',mix=[3,1],assumptions=FA,technique='deterministic simulation: seeded partitions and schedules; residual recomputed from its definition, fields compared with the run on 1 rank')
PROPS['P23']=Prop([ioruns.Clock()],F+D+'Only clocks and speeds change between the runs: jumps forward and backward, skew between ranks, other epochs, ranks up to 1000 times slower.','a clock was disturbed in the last variant.',assumptions=FD,technique='deterministic simulation: virtual clocks with seeded jumps, skew and slow ranks; states and files compared bit for bit')
PROPS['P24']=Prop([ioruns.Tiled()],F+D+'A checkpoint of a periodic box, written under one seeded partition, is tiled under another; every octant and value of every tile is compared with the saved state.','more than one tile.',assumptions=FD+['At most 4 tiles (one rank per tile, at most 6 simulated ranks)'],technique='deterministic simulation: seeded partitions and schedules of the writer and of the tiled start, compared with the recorded state')
PROPS['P25']=Prop([ioruns.Particles(),ioruns.Particles(preempt=True)],F+PRE[1:]+' '+'Particles follow the gas, a uniform field, a point mass or self-gravity. One rank is the reference; each variant changes rank count, load balancing and schedule.','at least one variant was compared to the end.',mix=[3,1],assumptions=FA,technique='deterministic simulation: seeded partitions and schedules against the run on 1 rank and exact motion in a uniform field')
for p,P in PROPS.items(): # a quick check needs one build only: either all its workloads use the build with hooks, or none does
    if any(w.flavour=='tsan' for w in P.workloads):
        if p in PREEMPT_QUICK:
            for w in P.workloads: w.flavour='tsan'
        else: P.deep_only=[w for w in P.workloads if w.flavour=='tsan']
FINDINGS=os.path.join(VERIF,'known_findings.txt')
def findings():
    out=[]
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m=re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)',l.strip())
            if m: out.append((m.group(1),re.compile(m.group(2)),m.group(3)))
    return out
def known(prop,verdict): return any(p==prop and rx.search(verdict['kind']+' '+verdict['detail']) for p,rx,_ in findings())
def known_lines(prop): return ['KNOWN-FINDING: property=%s %s'%(p,w) for p,_,w in findings() if p==prop]

SOON='not yet claimed: the full-program workload that decides it is being built'
NOT_APPLICABLE={p:SOON for p in ['P%02d'%i for i in range(15,26)] if p not in PROPS}
NOT_APPLICABLE['P26']='A pure function of two states: no schedule, clock, I/O, fault or second party can influence it, so simulation has nothing to decide.'
NOT_APPLICABLE['P27']='A pure function of a position and a level: no schedule, clock, I/O, fault or second party can influence it, so simulation has nothing to decide.'
