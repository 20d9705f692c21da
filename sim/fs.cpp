// Storage, clock, signal and process-exit seams: interposed libc entry points.
#include "sim.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <signal.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <limits.h>
namespace sim {
void rank_dead(const std::string&,int);
static std::string root; static std::map<int,std::string> fds; static uint64_t nwrites=0,nopens=0,nreads=0; std::string io_failed_paths;
extern "C" { int real_open(const char* p,int f,int m){ return syscall(SYS_openat,AT_FDCWD,p,f,m); } long real_pread(int fd,void* b,size_t n,long o){ return syscall(SYS_pread64,fd,b,n,o); } long real_pwrite(int fd,const void* b,size_t n,long o){ return syscall(SYS_pwrite64,fd,b,n,o); } int real_close(int fd){ return syscall(SYS_close,fd); } int real_ftruncate(int fd,long n){ return syscall(SYS_ftruncate,fd,n); } }
void fs_reset(){ const char* d=param("cwd"); root= d?d:""; fds.clear(); nwrites=nopens=nreads=0; }
std::string fs_abs(const char* p){ if(p[0]=='/') return p; return root+"/"+p; }
bool fs_tracking(){ return W.in_rank && cur->rank>=0 && !root.empty(); }
bool fs_tracked_path(const char* p){ if(!fs_tracking()||!p) return false; return fs_abs(p).compare(0,root.size(),root)==0; }
static bool hit(Fault& f,const char* kind,const std::string& path,uint64_t n){ if(f.kind!=kind) return false; if(f.rank>=0 && f.rank!=me().id) return false; std::string m=f.gets("match",""); if(!m.empty() && path.find(m)==std::string::npos) return false;
  cover("match"+std::to_string(&f-&faults[0])); long cnt=f.geti("_seen",0)+1; f.kv["_seen"]=std::to_string(cnt); (void)n; long nth=f.geti("nth",1); if(f.geti("sticky",0)) return cnt>=nth; return cnt==nth; }
static int fail(Fault& f,const std::string& path,int def){ if(!f.fired) fault_fired(f); else cover("fault."+f.kind); if(io_failed_paths.find(path+";")==std::string::npos) io_failed_paths+=path+";"; return (int)f.geti("errno",def); }
int fs_should_fail_write(const std::string& path,size_t len,size_t* al){ nwrites++; cover("io.writes"); *al=len; for(auto&f:faults) if(hit(f,"write_error",path,nwrites)){ size_t part= f.geti("partial",0)? len/2:0; *al=part; return fail(f,path,ENOSPC); } 
  if(len>1 && choose(CK_IO,2)){ *al=1+choose(CK_IO,len-1); cover("fault.short_write"); } return 0; }
int fs_should_fail_open(const std::string& path,bool w){ nopens++; for(auto&f:faults) if(hit(f,w?"open_error":"open_read_error",path,nopens)) return fail(f,path,EACCES); return 0; }
int fs_should_fail_sync(const std::string& path){ for(auto&f:faults) if(hit(f,"sync_error",path,0)) return fail(f,path,EIO); return 0; }
int fs_should_fail_read(const std::string& path){ nreads++; for(auto&f:faults) if(hit(f,"read_error",path,nreads)) return fail(f,path,EIO); return 0; }
}
using namespace sim;
static long tracked_write(int fd,const char* b,size_t n,long off,bool at,const std::string& path,bool full){ // off<0: current position
  size_t done=0; do { size_t al; int e=fs_should_fail_write(path,n-done,&al); if(al){ long w= at? real_pwrite(fd,b+done,al,off+done) : syscall(SYS_write,fd,b+done,al); if(w<0){ if(done) break; return -1; } done+=w; } hash_bytes(b,std::min(n,(size_t)64)); point("write"); if(e){ if(done&&!full) return done; errno=e; return -1; } if(!full) break; } while(done<n); return done; }
extern "C" {
static std::string* path_of(int fd){ if(!fs_tracking()) return nullptr; auto i=fds.find(fd); return i==fds.end()?nullptr:&i->second; }
static int do_open(const char* p,int fl,int m){ if(!fs_tracked_path(p)) return real_open(p,fl,m); std::string a=fs_abs(p); bool w=(fl&O_ACCMODE)!=O_RDONLY; point("open"); if(int e=fs_should_fail_open(a,w)){ errno=e; return -1; } int fd=real_open(a.c_str(),fl,m); if(fd>=0) fds[fd]=a; return fd; }
int open(const char* p,int fl,...){ int m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a);} return do_open(p,fl,m); }
int open64(const char* p,int fl,...){ int m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a);} return do_open(p,fl,m); }
int creat(const char* p,mode_t m){ return do_open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int close(int fd){ if(fs_tracking()){ if(fds.erase(fd)) point("close"); } return real_close(fd); }
ssize_t write(int fd,const void* b,size_t n){ if(auto p=path_of(fd)){ std::string s=*p; return tracked_write(fd,(const char*)b,n,0,false,s,false);} return syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd,const struct iovec* v,int c){ if(auto p=path_of(fd)){ std::string s=*p, d; for(int i=0;i<c;i++) d.append((char*)v[i].iov_base,v[i].iov_len); return tracked_write(fd,d.data(),d.size(),0,false,s,false);} return syscall(SYS_writev,fd,v,c); }
ssize_t pwrite(int fd,const void* b,size_t n,off_t o){ if(auto p=path_of(fd)){ std::string s=*p; return tracked_write(fd,(const char*)b,n,o,true,s,false);} return syscall(SYS_pwrite64,fd,b,n,o); }
ssize_t pwrite64(int fd,const void* b,size_t n,off_t o){ return pwrite(fd,b,n,o); }
ssize_t read(int fd,void* b,size_t n){ if(auto p=path_of(fd)){ if(int e=fs_should_fail_read(*p)){ errno=e; return -1; } } return syscall(SYS_read,fd,b,n); }
ssize_t pread(int fd,void* b,size_t n,off_t o){ if(auto p=path_of(fd)){ if(int e=fs_should_fail_read(*p)){ errno=e; return -1; } } return syscall(SYS_pread64,fd,b,n,o); }
ssize_t pread64(int fd,void* b,size_t n,off_t o){ return pread(fd,b,n,o); }
int rename(const char* a,const char* b){ if(fs_tracked_path(a)){ point("rename"); std::string x=fs_abs(a),y=fs_abs(b); size_t al; if(int e=fs_should_fail_write(y,0,&al)){ errno=e; return -1; } return syscall(SYS_rename,x.c_str(),y.c_str()); } return syscall(SYS_rename,a,b); }
int unlink(const char* a){ if(fs_tracked_path(a)){ point("unlink"); return syscall(SYS_unlink,fs_abs(a).c_str()); } return syscall(SYS_unlink,a); }
// --- stdio streams opened by the code under test: same buffering as a file stream, writes go through the seam
struct Ck { int fd; std::string path; bool append; };
static ssize_t ck_w(void* c,const char* b,size_t n){ Ck* k=(Ck*)c; long r=tracked_write(k->fd,b,n,0,false,k->path,true); return r<(long)n?0:r; }
static ssize_t ck_r(void* c,char* b,size_t n){ Ck* k=(Ck*)c; if(int e=fs_should_fail_read(k->path)){ errno=e; return -1; } return syscall(SYS_read,k->fd,b,n); }
static int ck_s(void* c,off64_t* o,int w){ long r=syscall(SYS_lseek,((Ck*)c)->fd,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_c(void* c){ Ck* k=(Ck*)c; if(fs_tracking()) point("fclose"); int r=real_close(k->fd); delete k; return r; }
FILE* fopen64(const char* p,const char* m);
FILE* fopen(const char* p,const char* m){
  static FILE*(*real)(const char*,const char*)=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen");
  if(!fs_tracked_path(p)) return real(p,m);
  { Dl_info di; if(dladdr(__builtin_return_address(0),&di) && di.dli_fname && strstr(di.dli_fname,"libstdc++")) return fopen64(p,m); }
  int fl; bool plus=strchr(m,'+'); if(m[0]=='r') fl=plus?O_RDWR:O_RDONLY; else if(m[0]=='w') fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; else fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND;
  std::string a=fs_abs(p); point("fopen"); if(int e=fs_should_fail_open(a,fl!=O_RDONLY)){ errno=e; return nullptr; }
  int fd=real_open(a.c_str(),fl,0644); if(fd<0) return nullptr; Ck* k=new Ck{fd,a,m[0]=='a'}; cookie_io_functions_t f={ck_r,ck_w,ck_s,ck_c}; return fopencookie(k,m,f); }
FILE* fopen64(const char* p,const char* m){ // used by libstdc++ file streams, which then write on the descriptor
  static FILE*(*real)(const char*,const char*)=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen64");
  if(!fs_tracked_path(p)) return real(p,m);
  std::string a=fs_abs(p); bool w=m[0]!='r'||strchr(m,'+'); point("fopen"); if(int e=fs_should_fail_open(a,w)){ errno=e; return nullptr; }
  FILE* f=real(a.c_str(),m); if(f) fds[fileno(f)]=a; return f; }
int fclose(FILE* f){ static int(*real)(FILE*)=(int(*)(FILE*))dlsym(RTLD_NEXT,"fclose"); if(fs_tracking()&&f){ int fd=fileno(f); if(fd>=0 && fds.erase(fd)) point("fclose"); } return real(f); }
// --- clocks
int gettimeofday(struct timeval* tv,void*) noexcept { if(!W.in_rank){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_REALTIME,&t); if(tv){ tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; } return 0; } point("gettimeofday"); double t=clock_now(cur->rank); if(tv){ tv->tv_sec=(long)t; tv->tv_usec=(long)((t-(long)t)*1e6); } return 0; }
int clock_gettime(clockid_t c,struct timespec* ts) noexcept { if(!W.in_rank) return syscall(SYS_clock_gettime,c,ts); if(!omp_in_region()) point("clock_gettime"); double t=clock_now(cur->rank); ts->tv_sec=(long)t; ts->tv_nsec=(long)((t-(long)t)*1e9); return 0; }
time_t time(time_t* p) noexcept { if(!W.in_rank){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_REALTIME,&t); if(p)*p=t.tv_sec; return t.tv_sec; } time_t t=(time_t)clock_now(cur->rank); if(p)*p=t; return t; }
// --- signals and process exit, per simulated rank
typedef void (*sh)(int);
sh signal(int s,sh h) noexcept { if(W.in_rank && cur->rank>=0){ if(s==SIGINT){ sh o=me().sigint; me().sigint=(h==SIG_DFL||h==SIG_IGN)?nullptr:h; return o?o:SIG_DFL; } return SIG_DFL; } struct sigaction a,o; memset(&a,0,sizeof a); a.sa_handler=h; a.sa_flags=SA_RESTART; if(sigaction(s,&a,&o)) return SIG_ERR; return o.sa_handler; }
int raise(int s) noexcept { if(W.in_rank && cur->rank>=0){ if(s==SIGINT){ me().sigint_pending=true; point("raise"); return 0; } rank_dead(fmt("raise(%d)",s),128+s); } return syscall(SYS_tgkill,getpid(),syscall(SYS_gettid),s); }
void abort(void) noexcept { if((W.in_rank||omp_in_region()) && cur->rank>=0 && !exiting){ if(omp_in_region()) { note("abort in region"); if(me().error.empty()) me().error="abort()"; me().exit_code=134; me().exited=true; end_run(); } rank_dead("abort()",134); } 
  signal(SIGABRT,SIG_DFL); syscall(SYS_tgkill,getpid(),syscall(SYS_gettid),SIGABRT); _exit(134); }
void exit(int c) { if(W.in_rank && cur->rank>=0 && !exiting) rank_dead(fmt("exit(%d)",c),c); static void(*real)(int) __attribute__((noreturn))=(void(*)(int))dlsym(RTLD_NEXT,"exit"); real(c); __builtin_unreachable(); }
}
