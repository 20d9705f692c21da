// Simulator executable: loads one private copy of the code under test per simulated rank, then serves run requests,
// each in a forked child so that every run starts from the same pristine state.
#include "sim.h"
#include <dlfcn.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <sys/syscall.h>
namespace Kokkos { class InitializationSettings; 
  void initialize(int&,char**){} void finalize(){} void finalize_all(){} void initialize(InitializationSettings const&){} }
namespace sim { extern char* phase_page; int real_stdout=1; extern std::vector<std::pair<uint64_t,uint32_t>> nonzero_log; uint64_t choice_total(); extern std::string io_failed_paths; }
using namespace sim;
typedef int (*rank_main_t)(void);
static std::vector<rank_main_t> entry; static void (*kokkos_init)(int&,char**);
static std::string esc(const std::string& s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32){ char b[8]; sprintf(b,"\\u%04x",c); o+=b; } else o+=c<127?(char)c:'?'; } return o; }
static void child(int out){
  mallopt(M_PERTURB,(int)param_i("perturb",0)&255);
  mallopt(M_ARENA_MAX,1);
  omp_threads=(int)param_i("threads",1);
  if(const char* d=param("cwd")) if(chdir(d)){ perror("chdir"); _exit(3); }
  { int argc=1; char a0[]="sim"; char* argv[]={a0,nullptr}; kokkos_init(argc,argv); }
  run_world([](int r){ return entry[r](); });
  bool failed=false; for(auto&r:W.ranks) if(!r.error.empty()) failed=true;
  if(W.finished && !outcome.set && !failed) mpi_check_finalize();
  fflush(stdout); fflush(stderr);
  std::string o="{";
  o+=fmt("\"finished\":%s,\"hash\":\"%016lx\",\"choices\":%lu,\"ops\":%lu,\"simtime\":%.6f,",W.finished?"true":"false",(unsigned long)trace_hash,(unsigned long)choice_total(),(unsigned long)W.ops,W.now-param_d("clock0",1.7e9));
  o+="\"rank_ops\":["; for(auto&r:W.ranks) o+=fmt("%s%lu",r.id?",":"",(unsigned long)r.ops); o+="],";
  o+="\"exit\":["; for(auto&r:W.ranks) o+=fmt("%s%d",r.id?",":"",r.exited?r.exit_code:-1); o+="],";
  o+="\"errors\":["; bool f=true; for(auto&r:W.ranks) if(!r.error.empty()){ o+=fmt("%s\"rank %d: %s\"",f?"":",",r.id,esc(r.error).c_str()); f=false; } o+="],";
  if(outcome.set) o+="\"violation\":{\"kind\":\""+esc(outcome.kind)+"\",\"detail\":\""+esc(outcome.detail)+"\"},";
  if(!io_failed_paths.empty()) o+="\"io_failed\":\""+esc(io_failed_paths)+"\",";
  o+="\"cover\":{"; f=true; for(auto&c:coverage){ o+=fmt("%s\"%s\":%ld",f?"":",",esc(c.first).c_str(),c.second); f=false; } o+="},";
  o+="\"kinds\":{"; for(int k=0;k<CK_N;k++) o+=fmt("%s\"%s\":[%lu,%lu]",k?",":"",choice_name[k],(unsigned long)choice_count[k],(unsigned long)choice_nonzero[k]); o+="}";
  if(param("dump_choices")){ o+=",\"nonzero\":\""; for(auto&c:nonzero_log) o+=fmt("%lu:%u,",(unsigned long)c.first,c.second); o+="\""; }
  o+="}\n";
  size_t p=0; while(p<o.size()){ ssize_t w=syscall(SYS_write,out,o.data()+p,o.size()-p); if(w<=0) break; p+=w; }
  _exit(0);
}
static double wall(){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static double cpu_of(pid_t p){ clockid_t c; struct timespec t; if(clock_getcpuclockid(p,&c)||clock_gettime(c,&t)) return 0; return t.tv_sec+1e-9*t.tv_nsec; } // processor time: a busy machine is not a hang
int main(int argc,char** argv){
  if(!getenv("DSIM_NOASLR")){ setenv("DSIM_NOASLR","1",1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe",argv); }
  const char* dir=argc>1?argv[1]:"."; int nr=argc>2?atoi(argv[2]):4;
  setenv("OMP_PROC_BIND","false",0); setenv("KOKKOS_DISABLE_WARNINGS","1",0); setenv("HDF5_USE_FILE_LOCKING","FALSE",1); setenv("LC_ALL","C",1);
  kokkos_init=(void(*)(int&,char**))dlsym(RTLD_NEXT,"_ZN6Kokkos10initializeERiPPc");
  if(!kokkos_init){ fprintf(stderr,"no Kokkos::initialize\n"); return 2; }
  for(int i=0;i<nr;i++){ std::string p=std::string(dir)+"/rank"+std::to_string(i)+"/librank.so"; void* h=dlopen(p.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"dlopen: %s\n",dlerror()); return 2; } rank_main_t m=(rank_main_t)dlsym(h,"rank_main"); if(!m){ fprintf(stderr,"no rank_main\n"); return 2; } for(auto e:entry) if(e==m){ fprintf(stderr,"rank copies are not distinct\n"); return 2; } entry.push_back(m); }
  phase_page=(char*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  int log=memfd_create("log",0); int save_out=dup(1), save_err=dup(2); (void)save_err;
  FILE* res=fdopen(save_out,"w");
  fprintf(res,"READY\n"); fflush(res);
  char* line=nullptr; size_t cap=0; ssize_t n;
  while((n=getline(&line,&cap,stdin))>0){ while(n&&(line[n-1]=='\n')) line[--n]=0;
    std::string l=line; if(l!="RUN"){ size_t e=l.find('='); if(e!=std::string::npos) scenario[l.substr(0,e)]=l.substr(e+1); continue; }
    if(ftruncate(log,0)){} lseek(log,0,SEEK_SET);
    memset(phase_page,0,4096); int pfd[2]; if(pipe(pfd)){ perror("pipe"); return 2; }
    double t0=wall(); long limit=param_i("wall_limit",120);
    pid_t pid=fork();
    if(pid==0){ real_close(pfd[0]); dup2(log,1); dup2(log,2); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); 
      struct rlimit as={ (rlim_t)param_i("mem_mb",6000)<<20,(rlim_t)param_i("mem_mb",6000)<<20 }; setrlimit(RLIMIT_AS,&as); child(pfd[1]); _exit(9); }
    real_close(pfd[1]); std::string r; char buf[65536]; bool timeout=false;
    for(;;){ struct pollfd p={pfd[0],POLLIN,0}; int k=poll(&p,1,200); if(k>0){ ssize_t g=syscall(SYS_read,pfd[0],buf,sizeof buf); if(g<=0) break; r.append(buf,g); } else if(cpu_of(pid)>limit || wall()-t0>5*limit){ kill(pid,SIGKILL); timeout=true; break; } }
    real_close(pfd[0]); int st=0; waitpid(pid,&st,0);
    if(r.empty()||r.back()!='\n'){ std::string tail; off_t sz=lseek(log,0,SEEK_END); off_t b=sz>4000?sz-4000:0; tail.resize(sz-b); if(sz>b) if(real_pread(log,&tail[0],sz-b,b)<0){} 
      const char* what= timeout?"timeout": WIFSIGNALED(st)?"signal":"exit"; bool harness = tail.find("SIM-HARNESS-ERROR")!=std::string::npos || tail.find("before MPI_INIT")!=std::string::npos;
      r=fmt("{\"died\":\"%s\",\"sig\":%d,\"code\":%d,\"harness_error\":%s,\"log\":\"%s\"}\n",what,WIFSIGNALED(st)?WTERMSIG(st):0,WIFEXITED(st)?WEXITSTATUS(st):-1,harness?"true":"false",esc(tail).c_str()); }
    else if(param("want_log")){ std::string tail; off_t sz=lseek(log,0,SEEK_END); off_t b=sz>20000?sz-20000:0; tail.resize(sz-b); if(sz>b) if(real_pread(log,&tail[0],sz-b,b)<0){} r.resize(r.size()-2); r+=",\"log\":\""+esc(tail)+"\"}\n"; }
    { std::string ph="["; int nn=(int)param_i("ranks",1); for(int i=0;i<nn;i++) ph+=fmt("%s\"%s\"",i?",":"",esc(phase_page+64*i).c_str()); ph+="]"; r.resize(r.size()-2); r+=",\"phase\":"+ph+"}\n"; }
    fputs(r.c_str(),res); fflush(res); scenario.clear();
  }
  return 0;
}
