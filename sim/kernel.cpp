// Deterministic simulator: fibers, scheduler, choices, virtual clock, faults.
#include "sim.h"
#include <sys/mman.h>
#include <unistd.h>
#include <stdarg.h>
#include <algorithm>
#include <cxxabi.h>
#include <exception>
#include <cmath>

namespace sim {

const char* choice_name[CK_N]={"sched","delay","sendmode","recvmode","coll","reduce","omp","preempt","clock","io"};
uint64_t choice_count[CK_N], choice_nonzero[CK_N], trace_hash=1469598103934665603ull;
std::map<std::string,std::string> scenario;
Outcome outcome; std::map<std::string,long> coverage;
World W; Fiber main_fiber; Fiber* cur=&main_fiber; bool exiting=false;
std::vector<Fault> faults;

std::string fmt(const char* f, ...){ va_list a; va_start(a,f); char* s=nullptr; if(vasprintf(&s,f,a)<0) s=nullptr; va_end(a); std::string r=s?s:""; free(s); return r; }
const char* param(const std::string& k){ auto i=scenario.find(k); return i==scenario.end()?nullptr:i->second.c_str(); }
long param_i(const std::string& k,long d){ auto p=param(k); return p?atol(p):d; }
double param_d(const std::string& k,double d){ auto p=param(k); return p?atof(p):d; }

void hash_mix(uint64_t v){ for(int i=0;i<8;i++){ trace_hash^=(v>>(8*i))&255; trace_hash*=1099511628211ull; } }
void hash_bytes(const void* p,size_t n){ const unsigned char* c=(const unsigned char*)p; uint64_t h=trace_hash; for(size_t i=0;i<n;i++){ h^=c[i]; h*=1099511628211ull; } trace_hash=h; }

// ------------------------------------------------------------------ choices
static Rng rng; static double intensity[CK_N];
static uint64_t choice_idx=0, choice_limit=~0ull;
static bool explicit_mode=false; static std::unordered_map<uint64_t,uint32_t> explicit_choices;
std::vector<std::pair<uint64_t,uint32_t>> nonzero_log;

void choices_reset(){
  rng.seed((uint64_t)strtoull(param("seed")?param("seed"):"1",0,10));
  for(int k=0;k<CK_N;k++) intensity[k]=param_d(std::string("p_")+choice_name[k],0);
  choice_limit = param("choice_limit")? strtoull(param("choice_limit"),0,10) : ~0ull;
  if(const char* c=param("choices")){ explicit_mode=true; const char* p=c; while(*p){ char* e; uint64_t i=strtoull(p,&e,10); if(*e!=':') break; uint32_t v=strtoul(e+1,&e,10); explicit_choices[i]=v; p=e; while(*p==','||*p==' ') p++; } }
}
uint32_t choose(ChoiceKind k, uint32_t n){
  if(n<=1) return 0;
  uint64_t idx=choice_idx++; uint32_t v=0; choice_count[k]++;
  if(explicit_mode){ auto i=explicit_choices.find(idx); if(i!=explicit_choices.end()) v=i->second%n; }
  else if(intensity[k]>0){ double u=rng.unit(); uint64_t r=rng.next(); if(idx<choice_limit && u<intensity[k]) v=r%n; }
  if(v){ choice_nonzero[k]++; if(nonzero_log.size()<2000000) nonzero_log.push_back({idx,v}); }
  hash_mix((uint64_t)k<<56|(uint64_t)n<<32|v);
  return v;
}
uint64_t choice_total(){ return choice_idx; }
Rng& clock_rng(){ static Rng r; static bool init=false; if(!init){ r.seed(strtoull(param("seed")?param("seed"):"1",0,10)^0xc10c); init=true; } return r; }

// ------------------------------------------------------------------ fibers
extern "C" void sim_swap(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");
static Fiber* starting=nullptr;
extern "C" __attribute__((noinline)) void sim_fiber_main(){
  Fiber* f=cur; 
  f->entry();
  f->done=true;
  fprintf(stderr,"SIM-HARNESS-ERROR: fiber returned\n"); abort();
}
extern "C" void* __cxa_get_globals();
void fiber_switch(Fiber* to){
  if(to==cur) return;
  Fiber* from=cur; 
  uint64_t* g=(uint64_t*)__cxa_get_globals(); from->eh[0]=g[0]; from->eh[1]=g[1]&0xffffffff; g[0]=to->eh[0]; *(uint32_t*)&g[1]=(uint32_t)to->eh[1];
  cur=to; sim_swap(&from->sp,to->sp);
}
static std::vector<std::pair<void*,size_t>> free_stacks;
Fiber* fiber_new(size_t ss,std::function<void()> entry){
  Fiber* f=new Fiber; f->entry=std::move(entry); f->stack_size=ss;
  for(size_t i=0;i<free_stacks.size();i++) if(free_stacks[i].second==ss){ f->stack=free_stacks[i].first; free_stacks.erase(free_stacks.begin()+i); break; }
  if(!f->stack){ char* m=(char*)mmap(nullptr,ss+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK,-1,0); if(m==MAP_FAILED){ perror("mmap stack"); abort(); } mprotect(m,4096,PROT_NONE); f->stack=m+4096; }
  uint64_t* sp=(uint64_t*)((char*)f->stack+ss); sp-=2; // alignment
  *--sp=0; *--sp=(uint64_t)&sim_fiber_main; // return address
  sp-=6; memset(sp,0,48); sp-=1; { uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0":"=m"(mx)); asm volatile("fnstcw %0":"=m"(cw)); ((uint32_t*)sp)[0]=mx; ((uint32_t*)sp)[1]=cw; }
  f->sp=sp; return f;
}
void fiber_recycle(Fiber* f){ free_stacks.push_back({f->stack,f->stack_size}); delete f; }

// ------------------------------------------------------------------ outcome
void violation(const char* kind,const std::string& d){ if(!outcome.set){ outcome.set=true; outcome.kind=kind; outcome.detail=d; } }
static Fiber* end_target=&main_fiber;
[[noreturn]] void end_run(){ exiting=true; W.in_rank=false; fiber_switch(end_target); abort(); }
void note(const std::string& s){ hash_bytes(s.data(),s.size()); if(param("verbose")) fprintf(stderr,"[sim] %s\n",s.c_str()); }

void fault_fired(Fault& f){ f.fired=true; cover("fault."+f.kind); hash_mix(0xfau); hash_bytes(f.kind.data(),f.kind.size()); }

// ------------------------------------------------------------------ scheduler
static std::deque<EventP> events;
EventP post_event(const char* what,std::function<void()> f){ auto e=std::make_shared<Event>(); e->fire=std::move(f); e->what=what; events.push_back(e); return e; }
Rank& me(){ return W.ranks[cur->rank]; }
static uint64_t max_ops=0; static long abort_countdown=-1; 
double clock_now(int r){ return W.now+ (r>=0&&r<W.n? W.ranks[r].clock_skew:0); }

// A scheduling decision: pick the next thing to happen among the current rank (if it can go on),
// pending network events, and the other runnable ranks.
static void schedule(){
  for(;;){
    if(exiting) { fiber_switch(&main_fiber); }
    // wake up blocked ranks whose condition holds
    for(auto& r:W.ranks) if(r.state==RS_BLOCKED && r.ready && r.ready()) { r.state=RS_RUNNABLE; r.ready=nullptr; }
    static std::vector<int> cand; cand.clear();
    int c=cur->rank; bool cur_ok = c>=0 && W.ranks[c].state==RS_RUNNABLE;
    bool yielded = cur_ok && W.ranks[c].yielded;
    if(cur_ok && !yielded) cand.push_back(c);
    while(!events.empty() && events.front()->dead) events.pop_front();
    int nev=0; for(size_t i=0;i<events.size()&&nev<8;i++) if(!events[i]->dead){ cand.push_back(-1-(int)i); nev++; }
    for(auto& r:W.ranks) if(r.id!=c && r.state==RS_RUNNABLE){
      // a slow rank is offered rarely as long as others can run
      cand.push_back(r.id);
    }
    if(cur_ok && yielded) cand.push_back(c);
    if(cand.empty()){
      bool all=true; std::string s; for(auto& r:W.ranks) if(r.state!=RS_DONE){ all=false; s+=fmt("rank %d blocked in %s; ",r.id,r.where); }
      if(all) { fiber_switch(&main_fiber); continue; }
      if(abort_countdown>=0) end_run();
      for(auto& r:W.ranks) if(r.state==RS_DONE) s+=fmt("rank %d finished (exit %d); ",r.id,r.exit_code);
      violation("deadlock",s); end_run();
    }
    uint32_t v=choose(CK_SCHED,cand.size());
    int pick=cand[v];
    if(pick>=0 && cand.size()>1 && W.ranks[pick].slow>1 && v!=0){ // weight of slow ranks
      if(choose(CK_SCHED,(uint32_t)W.ranks[pick].slow)!=0){ pick=cand[0]; }
    }
    if(pick<0){ EventP e=events[-1-pick]; e->dead=true; W.now+=1e-6; hash_mix(0xe0); e->fire(); 
      if(events.size()>64){ std::deque<EventP> q; for(auto&x:events) if(!x->dead) q.push_back(x); events.swap(q);} 
      continue; }
    Rank& r=W.ranks[pick]; if(c>=0) W.ranks[c].yielded=false;
    if(r.fiber==cur) return;
    W.in_rank=true; hash_mix(0x50+pick); fiber_switch(r.fiber);
    if(exiting && cur!=&main_fiber) { fiber_switch(&main_fiber); }
    return;
  }
}

void clock_tick(Rank& r);
void job_abort(int rank,const std::string& why){
  // One process of the job died: the launcher kills the others, immediately or a little later.
  if(abort_countdown<0) abort_countdown = choose(CK_SCHED,2)? (long)choose(CK_SCHED,200) : 0;
  if(abort_countdown==0) end_run();
}

void point(const char* what){
  if(!W.in_rank || cur->rank<0 || omp_in_region()) return;
  Rank& r=me(); r.ops++; W.ops++;
  // virtual cost of the step
  W.now += 1e-5*r.slow; 
  if(uint32_t j=choose(CK_CLOCK,64)){ // clock of this rank drifts or jumps (also backwards)
    static const double jumps[]={1e-3,-1e-3,1,-1,60,-60,3600,-3600,86400,-86400};
    r.clock_skew += jumps[j%10]; cover("fault.clock_jump"); }
  hash_mix((uint64_t)r.id<<8);
  for(auto& f:faults) if(!f.fired && f.at && ((f.rank<0 && W.ops>=f.at) || (f.rank==r.id && r.ops>=f.at))){
    if(f.kind=="kill"){ fault_fired(f); note("kill"); end_run(); }
    else if(f.kind=="sigint"){ fault_fired(f); // delivered to a set of ranks
      long mask=f.geti("mask",-1); for(auto& q:W.ranks) if(mask>>q.id&1) q.sigint_pending=true; }
    else if(f.kind=="stall"){ fault_fired(f); r.slow=f.geti("factor",50); }
    else if(f.kind=="unstall"){ fault_fired(f); for(auto&q:W.ranks) q.slow=1; }
  }
  if(r.sigint_pending && r.in_handler==0){ r.sigint_pending=false; cover("fault.sigint_delivered");
    if(r.sigint){ r.in_handler++; r.sigint(2); r.in_handler--; }
    else { cover("fault.sigint_default"); r.error="killed by SIGINT"; r.exited=true; r.exit_code=130; job_abort(r.id,"SIGINT"); r.state=RS_BLOCKED; r.where="dead"; r.ready=nullptr; schedule(); } }
  if(abort_countdown>0 && --abort_countdown==0) end_run();
  if(W.ops>max_ops){ violation("livelock",fmt("no end after %lu steps; rank %d in %s",(unsigned long)W.ops,r.id,what)); end_run(); }
  schedule();
}
void block(const char* what,std::function<bool()> ready){
  Rank& r=me(); r.where=what;
  if(ready()) { point(what); return; }
  r.ops++; W.ops++; W.now+=1e-5*r.slow;
  if(W.ops>max_ops){ violation("livelock",fmt("no end after %lu steps; rank %d in %s",(unsigned long)W.ops,r.id,what)); end_run(); }
  r.state=RS_BLOCKED; r.ready=std::move(ready);
  schedule();
}
void rank_dead(const std::string& why,int code){ // current rank terminates abnormally
  Rank& r=me(); if(r.error.empty()) r.error=why; note(r.error); r.exited=true; r.exit_code=code; r.state=RS_BLOCKED; r.ready=nullptr; r.where="dead"; 
  job_abort(r.id,why); schedule(); fprintf(stderr,"SIM-HARNESS-ERROR: dead rank scheduled\n"); abort();
}

static void parse_faults(){
  faults.clear();
  for(int i=0;;i++){ const char* p=param(fmt("fault%d",i)); if(!p) break; Fault f; std::string s=p; size_t b=0; bool first=true;
    while(b<s.size()){ size_t e=s.find(' ',b); if(e==std::string::npos) e=s.size(); std::string t=s.substr(b,e-b); b=e+1; if(t.empty()) continue;
      if(first){ f.kind=t; first=false; continue; } size_t q=t.find('='); if(q!=std::string::npos) f.kv[t.substr(0,q)]=t.substr(q+1); }
    f.at=strtoull(f.gets("at","0").c_str(),0,10); f.rank=(int)f.geti("rank",-1); faults.push_back(f); }
}
char* phase_page=nullptr;
void choices_reset();
void run_world(std::function<int(int)> rank_main){
  W.n=(int)param_i("ranks",1); W.ranks.resize(W.n); max_ops=(uint64_t)param_i("max_ops",20000000);
  choices_reset(); parse_faults(); fs_reset(); mpi_reset();
  W.now = param_d("clock0",1.7e9);
  double skew=param_d("clock_skew",0);
  size_t ss=(size_t)param_i("stack_mb",16)<<20;
  for(int i=0;i<W.n;i++){ Rank& r=W.ranks[i]; r.id=i; r.clock_skew = skew*(i-1); r.slow=param_d(fmt("slow%d",i),1);
    r.fiber=fiber_new(ss,[i,rank_main](){
      // No catch here: as in a real process an uncaught exception ends in std::terminate without unwinding.
      int rc=rank_main(i);
      Rank& r=W.ranks[i];
      r.exit_code=rc; r.exited=true; r.state=RS_DONE; hash_mix(0xd0+i);
      schedule(); fprintf(stderr,"SIM-HARNESS-ERROR: finished rank scheduled\n"); abort();
    });
    r.fiber->rank=i; }
  std::set_terminate([]{ std::string m="std::terminate"; if(auto e=std::current_exception()){ try{ std::rethrow_exception(e); } catch(const std::exception& x){ m=std::string("uncaught exception: ")+x.what(); } catch(...){ m="uncaught exception"; } }
    fprintf(stderr,"%s\n",m.c_str()); if(cur->rank>=0) me().error=m; abort(); });
  cur=&main_fiber; main_fiber.rank=-1;
  // start
  while(!exiting){ bool all=true; for(auto&r:W.ranks) if(r.state!=RS_DONE) all=false; if(all) break; schedule(); }
  W.in_rank=false; W.finished=true; for(auto&r:W.ranks) if(r.state!=RS_DONE) W.finished=false;
}
} // namespace sim

using namespace sim;
// ------------------------------------------------------------------ C API
static std::map<std::string,std::vector<std::vector<std::string>>> blobs;
static int bar_count=0; static uint64_t bar_gen=0;
extern "C" {
int sim_rank(void){ return cur->rank<0?0:cur->rank; }
int sim_size(void){ return W.n; }
const char* sim_param(const char* k){ return param(k); }
double sim_param_d(const char* k,double d){ return param_d(k,d); }
long sim_param_i(const char* k,long d){ return param_i(k,d); }
void sim_publish(const char* tag,const void* d,size_t n){ auto& v=blobs[tag]; if((int)v.size()<W.n) v.resize(W.n); v[sim_rank()].emplace_back((const char*)d,n); hash_bytes(d,n); }
void sim_violation(const char* kind,const char* f,...){ va_list a; va_start(a,f); char* s=nullptr; if(vasprintf(&s,f,a)<0) s=nullptr; va_end(a); violation(kind,fmt("rank %d: %s",sim_rank(),s?s:"")); free(s); hash_mix(0xbad); if(cur!=&main_fiber) end_run(); }
void sim_note(const char* f,...){ va_list a; va_start(a,f); char* s=nullptr; if(vasprintf(&s,f,a)<0) s=nullptr; va_end(a); note(s?s:""); free(s); }
void sim_phase(const char* w){ if(char* p=phase_page) { strncpy(p+64*sim_rank(),w,63); } }
void sim_cover(const char* n,long k){ cover(n,k); }
void sim_yield(void){ point("yield"); }
void sim_barrier(void (*fn)(void*),void* arg){
  uint64_t g=bar_gen; if(++bar_count==W.n){ bool ir=W.in_rank; if(fn) fn(arg); W.in_rank=ir; bar_count=0; bar_gen++; point("sim_barrier"); }
  else block("sim_barrier",[g]{ return bar_gen!=g; });
}
size_t sim_blob_count(const char* tag,int r){ auto i=blobs.find(tag); return i==blobs.end()||r>=(int)i->second.size()?0:i->second[r].size(); }
const void* sim_blob(const char* tag,int r,size_t i,size_t* n){ auto it=blobs.find(tag); if(it==blobs.end()||r>=(int)it->second.size()||i>=it->second[r].size()) return nullptr; auto& s=it->second[r][i]; if(n)*n=s.size(); return s.data(); }
void sim_clear_blobs(const char* tag){ blobs.erase(tag); }
uint64_t sim_ops(void){ return W.ops; }
int sim_in_parallel(void){ return omp_in_region(); }
}
