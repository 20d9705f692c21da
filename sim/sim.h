// Internal header of the deterministic simulator.
#pragma once
#include "sim_api.h"
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <functional>
#include <memory>
#include <unordered_map>
#include <cstring>
#include <cstdio>
#include <cstdlib>

namespace sim {

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x){ uint64_t z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
  void seed(uint64_t x){ s[0]=mix(x); s[1]=mix(x); }
  uint64_t next(){ uint64_t a=s[0],b=s[1]; s[0]=b; a^=a<<23; s[1]=a^b^(a>>18)^(b>>5); return s[1]+b; }
  uint64_t below(uint64_t n){ return n? next()%n : 0; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
};

// ---------------------------------------------------------------- choices
// Every source of nondeterminism is resolved by choose(kind, n). Value 0 is always the
// "undisturbed" alternative. A run is a pure function of (scenario, choice sequence).
enum ChoiceKind {
  CK_SCHED=0,   // which runnable rank / pending network event goes next
  CK_DELAY,     // is a message / transfer delayed
  CK_SENDMODE,  // eager copy or rendezvous (late read of the send buffer)
  CK_RECVMODE,  // when the receive buffer is filled
  CK_COLL,      // may a rank leave a collective before the others arrived
  CK_REDUCE,    // order of the contributions in a reduction
  CK_OMP,       // order / interleaving of simulated threads at thread points
  CK_PREEMPT,   // preemption between two memory accesses of a thread
  CK_CLOCK,     // clock jumps
  CK_IO,        // short write, partial transfer
  CK_N
};
extern const char* choice_name[CK_N];
uint32_t choose(ChoiceKind k, uint32_t n);
extern uint64_t choice_count[CK_N];
extern uint64_t choice_nonzero[CK_N];
extern uint64_t trace_hash;
void hash_mix(uint64_t v);
void hash_bytes(const void* p, size_t n);

// ---------------------------------------------------------------- fibers
struct Fiber {
  void* sp=nullptr; void* stack=nullptr; size_t stack_size=0;
  std::function<void()> entry; bool done=false;
  uint64_t eh[2]={0,0};
  int rank=-1; int thread=0;
};
extern Fiber* cur;            // fiber running now
void fiber_switch(Fiber* to); // raw switch
Fiber* fiber_new(size_t stack, std::function<void()> entry);
void fiber_recycle(Fiber*);

// ---------------------------------------------------------------- ranks
enum RankState { RS_RUNNABLE, RS_BLOCKED, RS_DONE };
struct Rank {
  int id=0; Fiber* fiber=nullptr; RankState state=RS_RUNNABLE;
  std::function<bool()> ready;     // when blocked
  const char* where="";            // name of the blocking call
  uint64_t ops=0;                  // number of seam points passed
  int exit_code=0; bool exited=false; std::string error;
  double clock_skew=0; double slow=1;
  bool yielded=false;
  void (*sigint)(int)=nullptr; bool sigint_pending=false;
  int in_handler=0;
};
struct World {
  int n=1; std::vector<Rank> ranks;
  double now=0;                    // virtual seconds
  uint64_t ops=0;                  // seam points passed, all ranks
  bool finished=false;
  bool in_rank=false;              // a rank fiber is running (not the scheduler / oracle)
};
extern World W;
extern Fiber main_fiber;
Rank& me();
void point(const char* what);                                   // possible context switch
void block(const char* what, std::function<bool()> ready);      // block current rank
void run_world(std::function<int(int)> rank_main);

// pending network events: a scheduler candidate beside the runnable ranks
struct Event { std::function<void()> fire; bool dead=false; const char* what=""; };
typedef std::shared_ptr<Event> EventP;
EventP post_event(const char* what, std::function<void()> f);

// ---------------------------------------------------------------- scenario
extern std::map<std::string,std::string> scenario;
const char* param(const std::string& k);
long param_i(const std::string& k, long def);
double param_d(const std::string& k, double def);

// ---------------------------------------------------------------- outcome of a run
struct Outcome { std::string kind; std::string detail; bool set=false; };
extern Outcome outcome;
void violation(const char* kind, const std::string& detail);  // recorded, first one wins
[[noreturn]] void end_run();          // leave the simulated world at once (result is reported)
void note(const std::string&);
extern std::map<std::string,long> coverage;   // counted items (faults fired, states, ...)
inline void cover(const std::string& k, long n=1){ coverage[k]+=n; }

// ---------------------------------------------------------------- modules
void mpi_reset();
void mpi_check_finalize();
void omp_reset(int nthreads);
void fs_reset();
void fs_finish();
bool fs_tracking();
void maybe_kill(const char* what);    // crash fault
extern int omp_threads;
bool omp_in_region();
extern bool exiting;
extern int real_stdout;
double clock_now(int rank);
std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
// fault table
struct Fault { std::string kind; std::map<std::string,std::string> kv; uint64_t at=0; int rank=-1; bool fired=false;
  long geti(const char*k,long d)const{auto i=kv.find(k);return i==kv.end()?d:atol(i->second.c_str());}
  std::string gets(const char*k,const char*d)const{auto i=kv.find(k);return i==kv.end()?std::string(d):i->second;} };
extern std::vector<Fault> faults;
void fault_fired(Fault& f);
// storage seam used by mpi-io and by the interposed libc calls
int  fs_should_fail_write(const std::string& path, size_t len, size_t* allowed); // errno or 0; *allowed = bytes that go through
int  fs_should_fail_open(const std::string& path, bool write);
int  fs_should_fail_read(const std::string& path);
int  fs_should_fail_sync(const std::string& path);
bool fs_tracked_path(const char* path);
std::string fs_abs(const char* path);
extern "C" {
 int real_open(const char*,int,int); long real_pread(int,void*,size_t,long); long real_pwrite(int,const void*,size_t,long); int real_close(int);
 int real_ftruncate(int,long);
}
} // namespace sim
