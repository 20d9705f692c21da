// Simulated OpenMP runtime (GOMP ABI) and memory-access hooks (the __tsan_* ABI emitted by -fsanitize=thread):
// the threads of a parallel region are fibers of the rank, interleaved by the seeded scheduler.
#include "sim.h"
#include <algorithm>
namespace sim {
int omp_threads=1;
struct Team { int n; std::vector<Fiber*> th; std::vector<char> st; int at_barrier=0; std::map<std::string,int> locks; uint64_t switches=0, spins=0;
  std::vector<uint64_t> single_seen; uint64_t single_done=0; 
  struct Loop{ long next,end,incr,chunk; }; std::vector<Loop> loops; std::vector<uint64_t> loop_at; };
static Team* team=nullptr; static long gap=-1; static int nested=0;
bool omp_in_region(){ return team!=nullptr; }
static bool preempt_on=false; 
static void draw_gap(){ // distance (in memory accesses) to the next preemption; 0 = none in this region
  static const long scale[]={0,3,10,40,200,1000,5000,20000}; uint32_t k=choose(CK_PREEMPT,8*16); if(!k){ gap=-1; return; } long s=scale[1+(k%7)]; gap=1+ (long)(s*((k>>3)+1)/16); }
static void pick(bool can_stay){
  int c=cur->thread; static std::vector<int> cand; cand.clear();
  if(can_stay && team->st[c]==0) cand.push_back(c);
  for(int k=1;k<team->n;k++){ int i=(c+k)%team->n; if(team->st[i]==0) cand.push_back(i); } // round robin unless chosen otherwise
  if(!can_stay && team->st[c]==0) cand.push_back(c);
  if(cand.empty()) return;
  int t=cand[choose(CK_OMP,cand.size())]; if(t!=c){ team->switches++; cover("omp.switches"); }
  if(team->th[t]!=cur) fiber_switch(team->th[t]);
}
static void thread_done(){ // a thread finished the region body
  team->st[cur->thread]=2;
  bool all=true; for(char s:team->st) if(s!=2) all=false;
  if(all){ if(cur!=team->th[0]) fiber_switch(team->th[0]); return; }
  bool any=false; for(char s:team->st) if(s==0) any=true;
  if(!any){ violation("thread-deadlock","threads of one rank wait at a barrier that others left"); end_run(); }
  pick(false);
}
static void lock(const std::string& k){ if(!team||team->n==1) return; while(team->locks[k]) pick(false); team->locks[k]=1; }
static void unlock(const std::string& k){ if(!team||team->n==1) return; team->locks[k]=0; pick(true); }
void omp_access(){ if(!preempt_on||!team||gap<0) return; if(--gap>0) return; cover("fault.preempt"); draw_gap(); pick(false); }
}
using namespace sim;
extern "C" {
void GOMP_parallel(void (*fn)(void*),void* data,unsigned nt,unsigned){
  if(team||nested){ nested++; fn(data); nested--; return; }
  int n=nt?(int)nt:omp_threads; if(n>omp_threads) n=omp_threads;
  if(n==1 || !W.in_rank){ 
    if(n==1){ nested++; Team t1; t1.n=1; t1.th={cur}; t1.st={0}; t1.single_seen={0}; t1.loop_at={0}; Team* sv=team; team=&t1; int ot=cur->thread; cur->thread=0; fn(data); cur->thread=ot; team=sv; nested--; return; } }
  Team t; t.n=n; t.th.assign(n,nullptr); t.st.assign(n,0); t.single_seen.assign(n,0); t.loop_at.assign(n,0); t.th[0]=cur; int ot=cur->thread; cur->thread=0; team=&t; cover("omp.regions");
  for(int i=1;i<n;i++){ Fiber* f=fiber_new(1<<20,[fn,data]{ fn(data); thread_done(); fprintf(stderr,"SIM-HARNESS-ERROR: thread resumed\n"); abort(); }); f->rank=cur->rank; f->thread=i; t.th[i]=f; }
  preempt_on = param("preempt")!=nullptr; draw_gap();
  bool ir=W.in_rank; W.in_rank=false;
  pick(true); fn(data); thread_done();
  W.in_rank=ir; team=nullptr; cur->thread=ot; for(int i=1;i<n;i++) fiber_recycle(t.th[i]);
}
void GOMP_barrier(void){ if(!team||team->n==1) return; team->st[cur->thread]=1; int w=0; for(char s:team->st) if(s==1) w++; else if(s==2){ violation("thread-deadlock","barrier not reached by all threads"); end_run(); }
  if(w==team->n){ for(auto&s:team->st) s=0; pick(true); } else pick(false); }
void GOMP_critical_start(void){ lock(""); } void GOMP_critical_end(void){ unlock(""); }
void GOMP_critical_name_start(void** p){ lock(fmt("%p",(void*)p)); } void GOMP_critical_name_end(void** p){ unlock(fmt("%p",(void*)p)); }
void GOMP_atomic_start(void){ lock("atomic"); } void GOMP_atomic_end(void){ unlock("atomic"); }
bool GOMP_single_start(void){ if(!team||team->n==1) return true; uint64_t k=++team->single_seen[cur->thread]; if(k>team->single_done){ team->single_done=k; return true; } return false; }
typedef unsigned long long ull;
static bool loop_start(long s,long e,long inc,long ch,long* is,long* ie);
static bool loop_next(long* is,long* ie){ Team::Loop& l=team->loops[team->loop_at[cur->thread]-1]; if(team->n>1) pick(true); if(l.incr>0? l.next>=l.end : l.next<=l.end) return false; *is=l.next; long e=l.next+l.chunk*l.incr; if(l.incr>0? e>l.end : e<l.end) e=l.end; *ie=e; l.next=e; return true; }
static bool loop_start(long s,long e,long inc,long ch,long* is,long* ie){ uint64_t k=team->loop_at[cur->thread]++; if(team->loops.size()<=k) team->loops.push_back({s,e,inc,ch?ch:1}); return loop_next(is,ie); }
bool GOMP_loop_dynamic_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b);} bool GOMP_loop_dynamic_next(long*a,long*b){ return loop_next(a,b);} 
bool GOMP_loop_nonmonotonic_dynamic_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b);} bool GOMP_loop_nonmonotonic_dynamic_next(long*a,long*b){ return loop_next(a,b);} 
bool GOMP_loop_guided_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b);} bool GOMP_loop_guided_next(long*a,long*b){ return loop_next(a,b);} 
bool GOMP_loop_nonmonotonic_guided_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b);} bool GOMP_loop_nonmonotonic_guided_next(long*a,long*b){ return loop_next(a,b);} 
void GOMP_loop_end(void){ GOMP_barrier(); } void GOMP_loop_end_nowait(void){}
int omp_get_thread_num(void){ return team?cur->thread:0; }
int omp_get_num_threads(void){ return team&&nested<=1?team->n:1; }
int omp_get_max_threads(void){ return omp_threads; }
int omp_get_num_procs(void){ return omp_threads; }
int omp_in_parallel(void){ return team && team->n>1; }
int omp_get_level(void){ return team?1+std::max(0,nested-(team->n==1)):0; }
int omp_get_active_level(void){ return team&&team->n>1; }
void omp_set_num_threads(int){} 
void omp_set_dynamic(int){} int omp_get_dynamic(void){ return 0; } void omp_set_nested(int){} int omp_get_nested(void){ return 0; }
int omp_get_max_active_levels(void){ return 1; } void omp_set_max_active_levels(int){} int omp_get_thread_limit(void){ return omp_threads; }
int omp_get_proc_bind(void){ return 0; } int omp_get_ancestor_thread_num(int){ return 0; } int omp_get_team_size(int){ return team?team->n:1; }
double omp_get_wtime(void){ if(W.in_rank && !team) point("omp_get_wtime"); return clock_now(cur->rank); } double omp_get_wtick(void){ return 1e-9; }
void omp_init_lock(void**l){*l=nullptr;} void omp_destroy_lock(void**){} void omp_set_lock(void**l){ lock(fmt("L%p",(void*)l)); } void omp_unset_lock(void**l){ unlock(fmt("L%p",(void*)l)); } int omp_test_lock(void**l){ std::string k=fmt("L%p",(void*)l); if(!team) return 1; if(team->locks[k]) return 0; team->locks[k]=1; return 1; }
// spin waits of the Kokkos host barriers
int sched_yield(void){ if(team && team->n>1){ if(++team->spins>5000000){ violation("thread-deadlock","threads of one rank spin for ever"); end_run(); } pick(false); } else if(W.in_rank && cur->rank>=0){ me().yielded=true; point("sched_yield"); } return 0; }
}
namespace Kokkos { namespace Impl { enum class WaitMode : int; void host_thread_yield(const uint32_t,const WaitMode){ sched_yield(); } } }

// ------------------------------------------------------------------ memory access hooks
#define HOOK(n) extern "C" void __tsan_read##n(void*){ omp_access(); } extern "C" void __tsan_write##n(void*){ omp_access(); } \
 extern "C" void __tsan_unaligned_read##n(void*){ omp_access(); } extern "C" void __tsan_unaligned_write##n(void*){ omp_access(); } \
 extern "C" void __tsan_volatile_read##n(void*){ omp_access(); } extern "C" void __tsan_volatile_write##n(void*){ omp_access(); } \
 extern "C" void __tsan_read_write##n(void*){ omp_access(); } extern "C" void __tsan_unaligned_read_write##n(void*){ omp_access(); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
extern "C" { void __tsan_read_range(void*,unsigned long){ omp_access(); } void __tsan_write_range(void*,unsigned long){ omp_access(); } void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){} void __tsan_func_entry(void*){} void __tsan_func_exit(void){} void __tsan_init(void){}
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){} }
#define ATOM(bits,T) extern "C" { \
T __tsan_atomic##bits##_load(const volatile T* a,int){ omp_access(); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a,T v,int){ omp_access(); *a=v; } \
T __tsan_atomic##bits##_exchange(volatile T* a,T v,int){ omp_access(); T o=*a; *a=v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int){ omp_access(); T o=*a; *a=o+v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int){ omp_access(); T o=*a; *a=o-v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int){ omp_access(); T o=*a; *a=o&v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a,T v,int){ omp_access(); T o=*a; *a=o|v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int){ omp_access(); T o=*a; *a=o^v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a,T v,int){ omp_access(); T o=*a; *a=~(o&v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* c,T v,int,int){ omp_access(); T o=*a; if(o==*c){ *a=v; return 1; } *c=o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* c,T v,int m,int f){ return __tsan_atomic##bits##_compare_exchange_strong(a,c,v,m,f); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T c,T v,int,int){ omp_access(); T o=*a; if(o==c) *a=v; return o; } }
ATOM(8,unsigned char) ATOM(16,unsigned short) ATOM(32,unsigned int) ATOM(64,unsigned long) ATOM(128,unsigned __int128)
