// Simulated MPI: point-to-point, collectives, datatypes, communicators, MPI-IO.
// Every function of the real mpi.h that Dyablo or HDF5 uses is defined here and takes precedence over libmpi.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "sim.h"
#include <algorithm>
#include <complex>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>

namespace sim {
void rank_dead(const std::string& why,int code);

// ------------------------------------------------------------------ datatypes
enum Base { B_BYTE,B_CHAR,B_SCHAR,B_UCHAR,B_SHORT,B_USHORT,B_INT,B_UINT,B_LONG,B_ULONG,B_LLONG,B_ULLONG,B_FLOAT,B_DOUBLE,B_LDOUBLE,B_BOOL,B_I8,B_I16,B_I32,B_I64,B_U8,B_U16,B_U32,B_U64,B_MIXED };
struct Seg { MPI_Aint off; size_t len; };
struct Type { Base base=B_MIXED; size_t size=0; MPI_Aint lb=0, ext=0; std::vector<Seg> segs; bool basic=false; };
static std::unordered_map<void*,Type*> types;
static void add_basic(MPI_Datatype d,Base b,size_t n){ Type* t=new Type; t->base=b; t->size=n; t->ext=n; t->segs={{0,n}}; t->basic=true; types[(void*)d]=t; }
static Type& T(MPI_Datatype d){ auto i=types.find((void*)d); if(i==types.end()){ fprintf(stderr,"SIM-HARNESS-ERROR: unknown MPI datatype\n"); abort(); } return *i->second; }
static void merge(std::vector<Seg>& v){ std::vector<Seg> o; for(auto& s:v){ if(!s.len) continue; if(!o.empty() && o.back().off+(MPI_Aint)o.back().len==s.off) o.back().len+=s.len; else o.push_back(s);} v.swap(o); }
static MPI_Datatype new_type(Type* t){ merge(t->segs); void* h=malloc(64); types[h]=t; return (MPI_Datatype)h; }
static bool contiguous(const Type& t){ return t.segs.size()<=1 && (t.segs.empty()||t.segs[0].off==0) && (MPI_Aint)t.size==t.ext; }
static std::string pack(const void* buf,long count,MPI_Datatype d){ Type& t=T(d); std::string r; if(count<=0) return r; r.reserve(count*t.size);
  if(contiguous(t)) { r.assign((const char*)buf,count*t.size); return r; }
  for(long i=0;i<count;i++) for(auto&s:t.segs) r.append((const char*)buf+i*t.ext+s.off,s.len); return r; }
static void unpack(void* buf,long count,MPI_Datatype d,const char* src,size_t n){ Type& t=T(d); if(contiguous(t)){ size_t m=std::min(n,(size_t)count*t.size); if(m) memcpy(buf,src,m); return; }
  size_t p=0; for(long i=0;i<count;i++) for(auto&s:t.segs){ size_t m=std::min(s.len,n-p); memcpy((char*)buf+i*t.ext+s.off,src+p,m); p+=m; if(p>=n) return; } }

// ------------------------------------------------------------------ communicators
struct CollSlot { int arrived=0, left=0; bool complete=false; std::string sig; int sig_rank=-1;
  std::vector<char> here; std::vector<std::string> in; std::vector<std::vector<long>> aux; std::vector<std::string> out; int root=-1; 
  std::vector<const void*> late; };
struct Msg; struct Req;
struct Comm { int id; std::vector<int> world; // member -> world rank
  std::map<int,uint64_t> seq; std::map<uint64_t,CollSlot> slots; std::map<int,std::map<int,void*>> attrs; std::string name;
  int rank_of(int w){ for(size_t i=0;i<world.size();i++) if(world[i]==w) return i; return MPI_UNDEFINED; } };
static std::unordered_map<void*,Comm*> comms; static int next_comm=2; static std::vector<Comm*> self_comms;
static std::map<std::string,void*> made; // collective creation results
static Comm& C(MPI_Comm c){ if(c==MPI_COMM_SELF) return *self_comms[me().id]; auto i=comms.find((void*)c); if(i==comms.end()){ violation("mpi-misuse","use of an invalid communicator"); end_run(); } return *i->second; }

// ------------------------------------------------------------------ requests and messages
enum ReqKind { R_SEND,R_RECV,R_BARRIER };
struct Req { ReqKind kind; bool done=false; int owner; Comm* comm; int peer; int tag; void* buf=nullptr; long count=0; MPI_Datatype type; size_t cap=0;
  int st_src=-1, st_tag=-1; size_t st_len=0; uint64_t csum=0; Msg* msg=nullptr; CollSlot* slot=nullptr; bool freed=false; const char* call=""; int late_fill=0; std::string data; };
struct Msg { int src,dst,tag; Comm* comm; bool arrived=false; bool have_data=false; std::string data; Req* sreq=nullptr; Req* rreq=nullptr; bool matched=false; size_t bytes=0; };
struct Chan { std::deque<Msg*> transit; bool ev=false; };
static std::map<std::tuple<Comm*,int,int>,Chan> chans;   // world ranks
static std::map<int,std::deque<Msg*>> unexpected;        // arrived, unmatched (per dst)
static std::map<int,std::deque<Req*>> posted;            // posted receives (per dst)
static std::vector<char> inited, finalized;
static long live_reqs=0; static std::unordered_map<void*,Req*> req_table;
static Req* R(MPI_Request r){ auto i=req_table.find((void*)r); return i==req_table.end()?nullptr:i->second; }
static uint64_t csum(const std::string& s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; }

void mpi_reset(){
  types.clear(); comms.clear(); chans.clear(); unexpected.clear(); posted.clear(); req_table.clear();
  add_basic(MPI_BYTE,B_BYTE,1); add_basic(MPI_PACKED,B_BYTE,1); add_basic(MPI_CHAR,B_CHAR,1); add_basic(MPI_SIGNED_CHAR,B_SCHAR,1); add_basic(MPI_UNSIGNED_CHAR,B_UCHAR,1);
  add_basic(MPI_SHORT,B_SHORT,2); add_basic(MPI_UNSIGNED_SHORT,B_USHORT,2); add_basic(MPI_INT,B_INT,4); add_basic(MPI_UNSIGNED,B_UINT,4);
  add_basic(MPI_LONG,B_LONG,8); add_basic(MPI_UNSIGNED_LONG,B_ULONG,8); add_basic(MPI_LONG_LONG_INT,B_LLONG,8); add_basic(MPI_UNSIGNED_LONG_LONG,B_ULLONG,8);
  add_basic(MPI_FLOAT,B_FLOAT,4); add_basic(MPI_DOUBLE,B_DOUBLE,8); add_basic(MPI_LONG_DOUBLE,B_LDOUBLE,16); add_basic(MPI_C_BOOL,B_BOOL,1); add_basic(MPI_CXX_BOOL,B_BOOL,1);
  add_basic(MPI_INT8_T,B_I8,1); add_basic(MPI_INT16_T,B_I16,2); add_basic(MPI_INT32_T,B_I32,4); add_basic(MPI_INT64_T,B_I64,8);
  add_basic(MPI_UINT8_T,B_U8,1); add_basic(MPI_UINT16_T,B_U16,2); add_basic(MPI_UINT32_T,B_U32,4); add_basic(MPI_UINT64_T,B_U64,8); add_basic(MPI_AINT,B_I64,8); add_basic(MPI_OFFSET,B_I64,8);
  Comm* w=new Comm; w->id=0; for(int i=0;i<W.n;i++) w->world.push_back(i); comms[(void*)MPI_COMM_WORLD]=w;
  self_comms.clear(); for(int i=0;i<W.n;i++){ Comm* s=new Comm; s->id=-1-i; s->world={i}; self_comms.push_back(s); }
  inited.assign(W.n,0); finalized.assign(W.n,0);
}

static void transfer(Msg* m){ // data reaches the receive request
  Req* r=m->rreq;
  if(!m->have_data){ m->data=pack(m->sreq->buf,m->sreq->count,m->sreq->type); m->have_data=true; if(csum(m->data)!=m->sreq->csum) cover("mpi.sendbuf_changed"); m->sreq->done=true; }
  hash_mix(csum(m->data));
  if(m->data.size()>r->cap){ violation("mpi-truncate",fmt("message of %zu bytes from rank %d to rank %d tag %d received into a buffer of %zu bytes",m->data.size(),m->src,m->dst,m->tag,r->cap)); end_run(); }
  r->st_src=m->comm->rank_of(m->src); r->st_tag=m->tag; r->st_len=m->data.size();
  if(r->late_fill) r->data=std::move(m->data); else unpack(r->buf,r->count,r->type,m->data.data(),m->data.size());
  r->done=true; 
  if(m->sreq) m->sreq->msg=nullptr; delete m;
}
static void match(Msg* m,Req* r){ m->matched=true; m->rreq=r; r->msg=m;
  if(choose(CK_DELAY,2)) { cover("fault.late_transfer"); post_event("transfer",[m]{ transfer(m); }); } else transfer(m); }
static bool fits(Req* r,Msg* m){ return r->comm==m->comm && (r->peer==MPI_ANY_SOURCE||r->comm->world[r->peer]==m->src) && (r->tag==MPI_ANY_TAG||r->tag==m->tag); }
static void arrive(Msg* m){ m->arrived=true; auto& q=posted[m->dst]; for(auto it=q.begin();it!=q.end();++it) if(fits(*it,m)){ Req* r=*it; q.erase(it); match(m,r); return; } unexpected[m->dst].push_back(m); }
static void pump(std::tuple<Comm*,int,int> key){ Chan& c=chans[key]; if(c.ev||c.transit.empty()) return; c.ev=true;
  post_event("deliver",[key]{ Chan& c=chans[key]; c.ev=false; Msg* m=c.transit.front(); c.transit.pop_front(); arrive(m); pump(key); }); }
static void send_msg(Msg* m){ auto key=std::make_tuple(m->comm,m->src,m->dst); Chan& c=chans[key];
  if(c.transit.empty() && !choose(CK_DELAY,2)) arrive(m); else { cover("fault.delayed_message"); c.transit.push_back(m); pump(key); } }
static int rank_check(Comm& c,int r,const char* f){ if(r==MPI_PROC_NULL) return 1; if(r<0||r>=(int)c.world.size()){ violation("mpi-misuse",fmt("%s: rank %d is not in the communicator",f,r)); end_run(); } return 0; }
static Req* start_send(const void* buf,int count,MPI_Datatype d,int dest,int tag,MPI_Comm comm,bool sync,const char* call){
  Comm& c=C(comm); int w=me().id; Req* q=new Req; q->kind=R_SEND; q->owner=w; q->comm=&c; q->peer=dest; q->tag=tag; q->buf=(void*)buf; q->count=count; q->type=d; q->call=call; req_table[q]=q;
  if(count<0){ violation("mpi-misuse",fmt("%s: negative count %d",call,count)); end_run(); }
  if(rank_check(c,dest,call)){ q->done=true; return q; }
  Msg* m=new Msg; m->src=w; m->dst=c.world[dest]; m->tag=tag; m->comm=&c; m->bytes=count*T(d).size; q->msg=m; m->sreq=q;
  std::string data=pack(buf,count,d); q->csum=csum(data); hash_mix(q->csum);
  bool rendezvous = sync || choose(CK_SENDMODE,2);
  if(rendezvous){ cover("fault.rendezvous_send"); } else { m->have_data=true; m->data=std::move(data); m->sreq=nullptr; q->msg=nullptr; q->done=true; }
  send_msg(m); return q; }
static Req* start_recv(void* buf,int count,MPI_Datatype d,int src,int tag,MPI_Comm comm,const char* call){
  Comm& c=C(comm); int w=me().id; Req* q=new Req; q->kind=R_RECV; q->owner=w; q->comm=&c; q->peer=src; q->tag=tag; q->buf=buf; q->count=count; q->type=d; q->cap=(size_t)std::max(count,0)*T(d).size; q->call=call; req_table[q]=q;
  if(count<0){ violation("mpi-misuse",fmt("%s: negative count %d",call,count)); end_run(); }
  if(src!=MPI_ANY_SOURCE && rank_check(c,src,call)){ q->done=true; q->st_src=MPI_PROC_NULL; q->st_tag=MPI_ANY_TAG; return q; }
  q->late_fill=choose(CK_RECVMODE,2); if(q->late_fill){ cover("fault.late_recv_fill"); if(contiguous(T(d))) memset(buf,0xA5,q->cap); }
  auto& u=unexpected[w]; 
  if(src==MPI_ANY_SOURCE){ // any of the first messages of each source may be taken
    std::vector<std::deque<Msg*>::iterator> cands; std::vector<int> seen; for(auto it=u.begin();it!=u.end();++it) if(fits(q,*it) && std::find(seen.begin(),seen.end(),(*it)->src)==seen.end()){ seen.push_back((*it)->src); cands.push_back(it); }
    if(!cands.empty()){ auto it=cands[choose(CK_SCHED,cands.size())]; Msg* m=*it; u.erase(it); match(m,q); return q; }
  } else for(auto it=u.begin();it!=u.end();++it) if(fits(q,*it)){ Msg* m=*it; u.erase(it); match(m,q); return q; }
  posted[w].push_back(q); return q; }
static void finish(Req* q,MPI_Status* st){
  if(q->kind==R_RECV && q->late_fill && q->st_src!=MPI_PROC_NULL){ unpack(q->buf,q->count,q->type,q->data.data(),q->data.size()); q->late_fill=0; }
  if(st && st!=MPI_STATUS_IGNORE){ st->MPI_SOURCE=q->st_src; st->MPI_TAG=q->st_tag; st->MPI_ERROR=0; st->_ucount=q->st_len; st->_cancelled=0; }
  req_table.erase(q); delete q; }

void mpi_check_finalize(){ // all ranks finished: nothing may be left
  for(auto& c:chans) if(!c.second.transit.empty()){ violation("mpi-leak",fmt("message from rank %d to rank %d (tag %d, %zu bytes) was never received",std::get<1>(c.first),std::get<2>(c.first),c.second.transit.front()->tag,c.second.transit.front()->bytes)); return; }
  for(auto& u:unexpected) if(!u.second.empty()){ Msg* m=u.second.front(); violation("mpi-leak",fmt("message from rank %d to rank %d (tag %d, %zu bytes) was never received",m->src,m->dst,m->tag,m->bytes)); return; }
  for(auto& p:posted) if(!p.second.empty()){ violation("mpi-leak",fmt("receive posted by rank %d (%s) never matched",p.first,p.second.front()->call)); return; }
  if(!req_table.empty()){ Req* q=req_table.begin()->second; violation("mpi-leak",fmt("request of rank %d (%s) never completed by a wait",q->owner,q->call)); return; }
}

// ------------------------------------------------------------------ collectives
typedef std::function<void(CollSlot&,Comm&)> Compute;
enum Dep { D_ALL, D_ROOT_OUT /*bcast,scatter: leaf needs root*/, D_ROOT_IN /*reduce,gather: root needs all*/, D_PREFIX };
static std::map<std::pair<Comm*,uint64_t>,int> dummy;
// enter a collective: returns this rank's output bytes
static std::string collective(MPI_Comm comm,const char* name,const std::string& sig,Dep dep,int root,std::string in,std::vector<long> aux,std::function<std::string(CollSlot&,int)> result,bool nonblocking=false,Req* nbreq=nullptr){
  Comm& c=C(comm); int r=c.rank_of(me().id); int n=c.world.size(); uint64_t seq=c.seq[r]++;
  if(dep!=D_ALL && dep!=D_PREFIX && (root<0||root>=n)){ violation("mpi-misuse",fmt("%s: bad root %d",name,root)); end_run(); }
  CollSlot& s=c.slots[seq]; if(s.here.empty()){ s.here.assign(n,0); s.in.resize(n); s.aux.resize(n); s.sig=sig; s.sig_rank=me().id; s.root=root; }
  if(s.sig!=sig){ violation("collective-mismatch",fmt("rank %d calls %s while rank %d called %s (collective number %lu)",me().id,sig.c_str(),s.sig_rank,s.sig.c_str(),(unsigned long)seq)); end_run(); }
  hash_mix(csum(in)); hash_bytes(sig.data(),sig.size());
  s.here[r]=1; s.in[r]=std::move(in); s.aux[r]=std::move(aux); s.arrived++;
  auto all=[&s,n]{ return s.arrived==n; };
  std::function<bool()> ready=all; bool early=false;
  if(dep!=D_ALL && n>1){ early=choose(CK_COLL,2); if(early){
    if(dep==D_ROOT_OUT){ if(r==root) ready=[]{return true;}; else ready=[&s,root]{ return (bool)s.here[root]; }; cover("fault.early_collective_exit"); }
    else if(dep==D_ROOT_IN){ if(r!=root) ready=[]{return true;}; cover("fault.early_collective_exit"); }
    else if(dep==D_PREFIX){ ready=[&s,r]{ for(int i=0;i<=r;i++) if(!s.here[i]) return false; return true; }; cover("fault.early_collective_exit"); } } }
  if(s.arrived==n) cover("mpi.collectives");
  block(name,ready);
  std::string out=result(s,r);
  if(++s.left==n) c.slots.erase(seq);
  return out;
}

template<class F> static void reduce_typed(Base b,char* acc,const char* x,long n,F f){
#define RT(B,TY) case B: { TY* a=(TY*)acc; const TY* y=(const TY*)x; for(long i=0;i<n;i++){ TY av,yv; memcpy(&av,a+i,sizeof(TY)); memcpy(&yv,y+i,sizeof(TY)); av=f(av,yv); memcpy(a+i,&av,sizeof(TY)); } break; }
  switch(b){ RT(B_CHAR,char) RT(B_SCHAR,signed char) RT(B_UCHAR,unsigned char) RT(B_BYTE,unsigned char) RT(B_SHORT,short) RT(B_USHORT,unsigned short) RT(B_INT,int) RT(B_UINT,unsigned) RT(B_LONG,long) RT(B_ULONG,unsigned long) RT(B_LLONG,long long) RT(B_ULLONG,unsigned long long)
    RT(B_FLOAT,float) RT(B_DOUBLE,double) RT(B_LDOUBLE,long double) RT(B_BOOL,bool) RT(B_I8,int8_t) RT(B_I16,int16_t) RT(B_I32,int32_t) RT(B_I64,int64_t) RT(B_U8,uint8_t) RT(B_U16,uint16_t) RT(B_U32,uint32_t) RT(B_U64,uint64_t)
    default: fprintf(stderr,"SIM-HARNESS-ERROR: reduction on derived type\n"); abort(); }
#undef RT
}
template<class F> static void reduce_int(Base b,char* acc,const char* x,long n,F f){
#define RT(B,TY) case B: { TY* a=(TY*)acc; const TY* y=(const TY*)x; for(long i=0;i<n;i++){ TY av,yv; memcpy(&av,a+i,sizeof(TY)); memcpy(&yv,y+i,sizeof(TY)); av=(TY)f(av,yv); memcpy(a+i,&av,sizeof(TY)); } break; }
  switch(b){ RT(B_CHAR,char) RT(B_SCHAR,signed char) RT(B_UCHAR,unsigned char) RT(B_BYTE,unsigned char) RT(B_SHORT,short) RT(B_USHORT,unsigned short) RT(B_INT,int) RT(B_UINT,unsigned) RT(B_LONG,long) RT(B_ULONG,unsigned long) RT(B_LLONG,long long) RT(B_ULLONG,unsigned long long)
    RT(B_BOOL,bool) RT(B_I8,int8_t) RT(B_I16,int16_t) RT(B_I32,int32_t) RT(B_I64,int64_t) RT(B_U8,uint8_t) RT(B_U16,uint16_t) RT(B_U32,uint32_t) RT(B_U64,uint64_t)
    default: fprintf(stderr,"SIM-HARNESS-ERROR: bit reduction on non integer type\n"); abort(); }
#undef RT
}
struct UserOp { MPI_User_function* fn; int commute; }; static std::unordered_map<void*,UserOp> user_ops;
static void apply_op(MPI_Op op,MPI_Datatype d,char* acc,const char* x,long n){ Base b=T(d).base; 
  if(op==MPI_SUM) reduce_typed(b,acc,x,n,[](auto a,auto y){ return (decltype(a))(a+y); });
  else if(op==MPI_PROD) reduce_typed(b,acc,x,n,[](auto a,auto y){ return (decltype(a))(a*y); });
  else if(op==MPI_MIN) reduce_typed(b,acc,x,n,[](auto a,auto y){ return y<a?y:a; });
  else if(op==MPI_MAX) reduce_typed(b,acc,x,n,[](auto a,auto y){ return a<y?y:a; });
  else if(op==MPI_LAND) reduce_typed(b,acc,x,n,[](auto a,auto y){ return (decltype(a))(a&&y); });
  else if(op==MPI_LOR) reduce_typed(b,acc,x,n,[](auto a,auto y){ return (decltype(a))(a||y); });
  else if(op==MPI_BAND) reduce_int(b,acc,x,n,[](auto a,auto y){ return a&y; });
  else if(op==MPI_BOR) reduce_int(b,acc,x,n,[](auto a,auto y){ return a|y; });
  else if(op==MPI_BXOR) reduce_int(b,acc,x,n,[](auto a,auto y){ return a^y; });
  else { auto i=user_ops.find((void*)op); if(i==user_ops.end()){ fprintf(stderr,"SIM-HARNESS-ERROR: unknown MPI_Op\n"); abort(); } std::string in(x,n*T(d).size); std::string io(acc,n*T(d).size); int c=n; MPI_Datatype dd=d; i->second.fn(&in[0],&io[0],&c,&dd); memcpy(acc,io.data(),io.size()); }
}
// order of the contributions: same on every rank for one call, chosen per call
static std::vector<int> reduce_order(int n){ std::vector<int> o(n); for(int i=0;i<n;i++) o[i]=i; for(int i=0;i+1<n;i++){ int j=i+choose(CK_REDUCE,n-i); if(j!=i) cover("fault.reduction_order"); std::swap(o[i],o[j]); } return o; }
static std::string opname(MPI_Op op){ return op==MPI_SUM?"SUM":op==MPI_MIN?"MIN":op==MPI_MAX?"MAX":op==MPI_PROD?"PROD":op==MPI_LAND?"LAND":op==MPI_LOR?"LOR":op==MPI_BOR?"BOR":op==MPI_BAND?"BAND":"op"; }
static const std::string& reduced(CollSlot& s,MPI_Op op,MPI_Datatype d,long n){ if(s.out.empty()){ s.out.resize(1); auto o=reduce_order(s.in.size()); std::string acc=s.in[o[0]]; for(size_t k=1;k<o.size();k++) if(n) apply_op(op,d,&acc[0],s.in[o[k]].data(),n); s.out[0]=acc; } return s.out[0]; }
} // namespace sim
using namespace sim;

static size_t tsz(MPI_Datatype d){ return T(d).size; }
extern "C" {
// ------------------------------------------------------------------ environment
int MPI_Init(int*,char***){ int r=me().id; if(inited[r]){ violation("mpi-misuse","MPI_Init called twice"); end_run(); } inited[r]=1; point("MPI_Init"); return 0; }
int MPI_Init_thread(int* a,char*** b,int req,int* prov){ *prov=req; return MPI_Init(a,b); }
int MPI_Initialized(int* f){ *f= W.n>0 && cur->rank>=0 && inited[me().id]; return 0; }
int MPI_Finalized(int* f){ *f= cur->rank>=0 && finalized[me().id]; return 0; }
typedef struct { MPI_Comm_delete_attr_function* del; void* extra; } Keyval; static std::map<int,Keyval> keyvals; static int next_key=1000;
int MPI_Finalize(void){ int r=me().id; 
  // attribute delete callbacks of MPI_COMM_SELF run first
  auto at=self_comms[r]->attrs[r]; self_comms[r]->attrs.clear(); for(auto it=at.rbegin();it!=at.rend();++it){ auto k=keyvals.find(it->first); if(k!=keyvals.end()&&k->second.del) k->second.del(MPI_COMM_SELF,it->first,it->second,k->second.extra); }
  collective(MPI_COMM_WORLD,"MPI_Finalize","MPI_Finalize",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); finalized[r]=1; return 0; }
int MPI_Abort(MPI_Comm,int code){ rank_dead(fmt("MPI_Abort(%d)",code),code?code:1); return 0; }
int MPI_Comm_rank(MPI_Comm c,int* r){ *r=C(c).rank_of(me().id); return 0; }
int MPI_Comm_size(MPI_Comm c,int* n){ *n=C(c).world.size(); return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int* r){ Comm&x=C(a),&y=C(b); *r= &x==&y?MPI_IDENT: x.world==y.world?MPI_CONGRUENT:MPI_UNEQUAL; return 0; }
double MPI_Wtime(void){ point("MPI_Wtime"); return clock_now(me().id); }
int MPI_Get_processor_name(char* n,int* l){ strcpy(n,"sim"); *l=3; return 0; }
int MPI_Error_string(int e,char* s,int* l){ *l=sprintf(s,"simulated MPI error %d",e); return 0; }
int MPI_Error_class(int e,int* c){ *c=e; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler){ return 0; }
int MPI_Get_address(const void* p,MPI_Aint* a){ *a=(MPI_Aint)p; return 0; }
int MPI_Comm_set_name(MPI_Comm,const char*){ return 0; }
static std::string comm_key(Comm& c,const char* w){ return fmt("%s.%d.%lu",w,c.id,(unsigned long)c.seq[c.rank_of(me().id)]); }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm* o){ Comm& k=C(c); std::string key=comm_key(k,"dup"); 
  collective(c,"MPI_Comm_dup","MPI_Comm_dup",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();});
  if(!made.count(key)){ Comm* n=new Comm; n->id=next_comm++; n->world=k.world; void* h=malloc(1024); memset(h,0,1024); comms[h]=n; made[key]=h; } *o=(MPI_Comm)made[key]; return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key_,MPI_Comm* o){ Comm& k=C(c); std::string key=comm_key(k,"split"); int r=k.rank_of(me().id);
  std::vector<long> mine={color,key_}; std::vector<std::vector<long>> all;
  collective(c,"MPI_Comm_split","MPI_Comm_split",D_ALL,-1,"",mine,[&](CollSlot& s,int){ all=s.aux; return std::string();});
  (void)r; if(color==MPI_UNDEFINED){ *o=MPI_COMM_NULL; return 0; } key+=fmt(".%d",color);
  if(!made.count(key)){ Comm* n=new Comm; n->id=next_comm++; std::vector<std::pair<long,int>> m; for(size_t i=0;i<all.size();i++) if(all[i][0]==color) m.push_back({all[i][1],(int)i}); std::sort(m.begin(),m.end()); for(auto&x:m) n->world.push_back(k.world[x.second]); void* h=malloc(1024); memset(h,0,1024); comms[h]=n; made[key]=h; } *o=(MPI_Comm)made[key]; return 0; }
int MPI_Comm_free(MPI_Comm* c){ point("MPI_Comm_free"); *c=MPI_COMM_NULL; return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*,MPI_Comm_delete_attr_function* d,int* k,void* e){ *k=next_key++; keyvals[*k]={d,e}; return 0; }
int MPI_Comm_free_keyval(int* k){ *k=MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c,int k,void* v){ C(c).attrs[me().id][k]=v; return 0; }
int MPI_Comm_get_attr(MPI_Comm c,int k,void* v,int* f){ auto& m=C(c).attrs[me().id]; auto i=m.find(k); *f=i!=m.end(); if(*f) *(void**)v=i->second; return 0; }

// ------------------------------------------------------------------ point to point
int MPI_Wait(MPI_Request* r,MPI_Status* st){ if(*r==MPI_REQUEST_NULL){ if(st&&st!=MPI_STATUS_IGNORE){ memset(st,0,sizeof *st); st->MPI_SOURCE=MPI_ANY_SOURCE; st->MPI_TAG=MPI_ANY_TAG; } return 0; } Req* q=R(*r); if(!q||q->owner!=me().id){ violation("mpi-misuse","wait on an invalid request"); end_run(); } block(q->call,[q]{ return q->done; }); finish(q,st); *r=MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n,MPI_Request* r,MPI_Status* st){ // requests complete in any order
  for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL && !R(r[i])){ violation("mpi-misuse","wait on an invalid request"); end_run(); }
  std::vector<Req*> q; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL) q.push_back(R(r[i]));
  if(!q.empty()) block("MPI_Waitall",[q]{ for(auto x:q) if(!x->done) return false; return true; }); else point("MPI_Waitall");
  for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL){ finish(R(r[i]), st==MPI_STATUSES_IGNORE||!st?nullptr:st+i); r[i]=MPI_REQUEST_NULL; } return 0; }
int MPI_Waitany(int n,MPI_Request* r,int* idx,MPI_Status* st){ std::vector<Req*> q; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL) q.push_back(R(r[i])); if(q.empty()){ *idx=MPI_UNDEFINED; return 0; }
  block("MPI_Waitany",[q]{ for(auto x:q) if(x->done) return true; return false; }); std::vector<int> d; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL && R(r[i])->done) d.push_back(i); *idx=d[choose(CK_SCHED,d.size())]; finish(R(r[*idx]),st); r[*idx]=MPI_REQUEST_NULL; return 0; }
int MPI_Test(MPI_Request* r,int* f,MPI_Status* st){ me().yielded=true; point("MPI_Test"); if(*r==MPI_REQUEST_NULL){ *f=1; return 0; } Req* q=R(*r); *f=q->done; if(*f){ finish(q,st); *r=MPI_REQUEST_NULL; } return 0; }
int MPI_Testall(int n,MPI_Request* r,int* f,MPI_Status* st){ me().yielded=true; point("MPI_Testall"); *f=1; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL && !R(r[i])->done) *f=0; if(*f) for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL){ finish(R(r[i]), st==MPI_STATUSES_IGNORE||!st?nullptr:st+i); r[i]=MPI_REQUEST_NULL; } return 0; }
int MPI_Request_free(MPI_Request* r){ Req* q=R(*r); if(q) block("MPI_Request_free",[q]{return q->done;}), finish(q,nullptr); *r=MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request*){ return 0; }
int MPI_Isend(const void* b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request* r){ *r=(MPI_Request)start_send(b,n,d,dst,tag,c,false,"MPI_Isend"); point("MPI_Isend"); return 0; }
int MPI_Issend(const void* b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request* r){ *r=(MPI_Request)start_send(b,n,d,dst,tag,c,true,"MPI_Issend"); point("MPI_Issend"); return 0; }
int MPI_Irecv(void* b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Request* r){ *r=(MPI_Request)start_recv(b,n,d,src,tag,c,"MPI_Irecv"); point("MPI_Irecv"); return 0; }
int MPI_Send(const void* b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ MPI_Request r=(MPI_Request)start_send(b,n,d,dst,tag,c,false,"MPI_Send"); return MPI_Wait(&r,MPI_STATUS_IGNORE); }
int MPI_Ssend(const void* b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ MPI_Request r=(MPI_Request)start_send(b,n,d,dst,tag,c,true,"MPI_Ssend"); return MPI_Wait(&r,MPI_STATUS_IGNORE); }
int MPI_Recv(void* b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Status* st){ MPI_Request r=(MPI_Request)start_recv(b,n,d,src,tag,c,"MPI_Recv"); return MPI_Wait(&r,st); }
int MPI_Sendrecv(const void* sb,int sn,MPI_Datatype sd,int dst,int st_,void* rb,int rn,MPI_Datatype rd,int src,int rt,MPI_Comm c,MPI_Status* st){ MPI_Request q[2]; q[0]=(MPI_Request)start_recv(rb,rn,rd,src,rt,c,"MPI_Sendrecv"); q[1]=(MPI_Request)start_send(sb,sn,sd,dst,st_,c,false,"MPI_Sendrecv"); MPI_Status s[2]; MPI_Waitall(2,q,s); if(st&&st!=MPI_STATUS_IGNORE)*st=s[0]; return 0; }
static Msg* find_probe(int src,int tag,Comm& c){ Req q; q.comm=&c; q.peer=src; q.tag=tag; for(auto m:unexpected[me().id]) if(fits(&q,m)) return m; return nullptr; }
static void fill(Msg* m,MPI_Status* st){ if(st&&st!=MPI_STATUS_IGNORE){ st->MPI_SOURCE=m->comm->rank_of(m->src); st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->_ucount=m->bytes; st->_cancelled=0; } }
int MPI_Iprobe(int src,int tag,MPI_Comm c,int* f,MPI_Status* st){ me().yielded=true; point("MPI_Iprobe"); Msg* m=find_probe(src,tag,C(c)); *f=!!m; if(m) fill(m,st); return 0; }
int MPI_Probe(int src,int tag,MPI_Comm c,MPI_Status* st){ Comm* k=&C(c); int w=me().id; block("MPI_Probe",[=]{ Req q; q.comm=k; q.peer=src; q.tag=tag; for(auto m:unexpected[w]) if(fits(&q,m)) return true; return false; }); fill(find_probe(src,tag,*k),st); return 0; }
int MPI_Get_count(const MPI_Status* st,MPI_Datatype d,int* n){ size_t z=tsz(d); *n= z? (st->_ucount%z?MPI_UNDEFINED:(int)(st->_ucount/z)):0; return 0; }
int MPI_Get_elements_x(const MPI_Status* st,MPI_Datatype d,MPI_Count* n){ size_t z=tsz(d); Base b=T(d).base; (void)b; *n= z? st->_ucount : 0; if(T(d).basic && z) *n=st->_ucount/z; return 0; }
int MPI_Get_elements(const MPI_Status* st,MPI_Datatype d,int* n){ MPI_Count c; MPI_Get_elements_x(st,d,&c); *n=c; return 0; }

// ------------------------------------------------------------------ collectives
int MPI_Barrier(MPI_Comm c){ collective(c,"MPI_Barrier","MPI_Barrier",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request* r){ // completes when all entered
  Comm& k=C(c); int me_=k.rank_of(me().id); uint64_t seq=k.seq[me_]++; CollSlot& s=k.slots[seq]; int n=k.world.size(); if(s.here.empty()){ s.here.assign(n,0); s.sig="MPI_Ibarrier"; s.sig_rank=me().id; }
  if(s.sig!="MPI_Ibarrier"){ violation("collective-mismatch",fmt("rank %d calls MPI_Ibarrier while rank %d called %s",me().id,s.sig_rank,s.sig.c_str())); end_run(); }
  Req* q=new Req; q->kind=R_BARRIER; q->owner=me().id; q->call="MPI_Ibarrier"; req_table[q]=q; s.late.push_back(q); if(++s.arrived==n){ for(auto x:s.late) ((Req*)x)->done=true; k.slots.erase(seq);} *r=(MPI_Request)q; point("MPI_Ibarrier"); return 0; }
int MPI_Bcast(void* b,int n,MPI_Datatype d,int root,MPI_Comm c){ Comm& k=C(c); bool r=k.rank_of(me().id)==root; std::string sig=fmt("MPI_Bcast(root %d)",root); size_t bytes=n*tsz(d);
  std::string o=collective(c,"MPI_Bcast",sig,D_ROOT_OUT,root,r?pack(b,n,d):"",{(long)bytes},[&](CollSlot& s,int){ return s.in[root]; });
  if(!r){ if(o.size()!=bytes){ violation("collective-mismatch",fmt("MPI_Bcast: rank %d expects %zu bytes, root %d sends %zu",me().id,bytes,root,o.size())); end_run(); } unpack(b,n,d,o.data(),o.size()); } return 0; }
int MPI_Allreduce(const void* sb,void* rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ std::string sig=fmt("MPI_Allreduce(%s, %d x %zu bytes, type %d)",opname(op).c_str(),n,tsz(d),(int)T(d).base);
  std::string o=collective(c,"MPI_Allreduce",sig,D_ALL,-1,pack(sb==MPI_IN_PLACE?rb:sb,n,d),{},[&](CollSlot& s,int){ return reduced(s,op,d,n); }); unpack(rb,n,d,o.data(),o.size()); return 0; }
int MPI_Reduce(const void* sb,void* rb,int n,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c){ std::string sig=fmt("MPI_Reduce(%s, %d x %zu bytes, root %d)",opname(op).c_str(),n,tsz(d),root); bool r=C(c).rank_of(me().id)==root;
  std::string o=collective(c,"MPI_Reduce",sig,D_ROOT_IN,root,pack(sb==MPI_IN_PLACE?rb:sb,n,d),{},[&](CollSlot& s,int){ return r?reduced(s,op,d,n):std::string(); }); if(r) unpack(rb,n,d,o.data(),o.size()); return 0; }
static std::string prefix(CollSlot& s,int r,bool incl,MPI_Op op,MPI_Datatype d,int n){ int last=incl?r:r-1; if(last<0) return ""; std::string acc=s.in[0]; for(int i=1;i<=last;i++) apply_op(op,d,&acc[0],s.in[i].data(),n); return acc; }
int MPI_Scan(const void* sb,void* rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ std::string sig=fmt("MPI_Scan(%s, %d x %zu bytes)",opname(op).c_str(),n,tsz(d)); std::string o=collective(c,"MPI_Scan",sig,D_PREFIX,-1,pack(sb==MPI_IN_PLACE?rb:sb,n,d),{},[&](CollSlot& s,int r){ return prefix(s,r,true,op,d,n); }); unpack(rb,n,d,o.data(),o.size()); return 0; }
int MPI_Exscan(const void* sb,void* rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ std::string sig=fmt("MPI_Exscan(%s, %d x %zu bytes)",opname(op).c_str(),n,tsz(d)); bool first=C(c).rank_of(me().id)==0; std::string o=collective(c,"MPI_Exscan",sig,D_PREFIX,-1,pack(sb==MPI_IN_PLACE?rb:sb,n,d),{},[&](CollSlot& s,int r){ return prefix(s,r,false,op,d,n); }); if(!first) unpack(rb,n,d,o.data(),o.size()); return 0; }
static void gather_out(const std::vector<std::string>& in,void* rb,const int* counts,const int* displs,int cnt,MPI_Datatype d,const char* f){ for(size_t i=0;i<in.size();i++){ long n=counts?counts[i]:cnt; long off=displs?displs[i]:(counts?0:(long)i*cnt); if(in[i].size()!=(size_t)n*tsz(d)){ violation("collective-mismatch",fmt("%s: rank %d expects %ld bytes from rank %zu which sends %zu",f,me().id,(long)(n*tsz(d)),i,in[i].size())); end_run(); } unpack((char*)rb+off*T(d).ext,n,d,in[i].data(),in[i].size()); } }
int MPI_Allgather(const void* sb,int sn,MPI_Datatype sd,void* rb,int rn,MPI_Datatype rd,MPI_Comm c){ int r=C(c).rank_of(me().id); std::string in= sb==MPI_IN_PLACE? pack((char*)rb+(long)r*rn*T(rd).ext,rn,rd):pack(sb,sn,sd); std::vector<std::string> v;
  collective(c,"MPI_Allgather","MPI_Allgather",D_ALL,-1,in,{},[&](CollSlot& s,int){ v=s.in; return std::string(); }); gather_out(v,rb,nullptr,nullptr,rn,rd,"MPI_Allgather"); return 0; }
int MPI_Allgatherv(const void* sb,int sn,MPI_Datatype sd,void* rb,const int* rc,const int* dis,MPI_Datatype rd,MPI_Comm c){ int r=C(c).rank_of(me().id); std::string in= sb==MPI_IN_PLACE? pack((char*)rb+(long)dis[r]*T(rd).ext,rc[r],rd):pack(sb,sn,sd); std::vector<std::string> v;
  collective(c,"MPI_Allgatherv","MPI_Allgatherv",D_ALL,-1,in,{},[&](CollSlot& s,int){ v=s.in; return std::string(); }); gather_out(v,rb,rc,dis,0,rd,"MPI_Allgatherv"); return 0; }
int MPI_Gather(const void* sb,int sn,MPI_Datatype sd,void* rb,int rn,MPI_Datatype rd,int root,MPI_Comm c){ int r=C(c).rank_of(me().id); std::string in= sb==MPI_IN_PLACE? pack((char*)rb+(long)r*rn*T(rd).ext,rn,rd):pack(sb,sn,sd); std::vector<std::string> v;
  collective(c,"MPI_Gather",fmt("MPI_Gather(root %d)",root),D_ROOT_IN,root,in,{},[&](CollSlot& s,int){ if(r==root) v=s.in; return std::string(); }); if(r==root) gather_out(v,rb,nullptr,nullptr,rn,rd,"MPI_Gather"); return 0; }
int MPI_Gatherv(const void* sb,int sn,MPI_Datatype sd,void* rb,const int* rc,const int* dis,MPI_Datatype rd,int root,MPI_Comm c){ int r=C(c).rank_of(me().id); std::string in= sb==MPI_IN_PLACE? pack((char*)rb+(long)dis[r]*T(rd).ext,rc[r],rd):pack(sb,sn,sd); std::vector<std::string> v;
  collective(c,"MPI_Gatherv",fmt("MPI_Gatherv(root %d)",root),D_ROOT_IN,root,in,{},[&](CollSlot& s,int){ if(r==root) v=s.in; return std::string(); }); if(r==root) gather_out(v,rb,rc,dis,0,rd,"MPI_Gatherv"); return 0; }
int MPI_Scatterv(const void* sb,const int* sc,const int* dis,MPI_Datatype sd,void* rb,int rn,MPI_Datatype rd,int root,MPI_Comm c){ Comm&k=C(c); int r=k.rank_of(me().id); std::string in; std::vector<long> aux; if(r==root){ for(size_t i=0;i<k.world.size();i++){ std::string p=pack((const char*)sb+(long)dis[i]*T(sd).ext,sc[i],sd); aux.push_back(in.size()); in+=p; aux.push_back(p.size()); } }
  std::string o=collective(c,"MPI_Scatterv",fmt("MPI_Scatterv(root %d)",root),D_ROOT_OUT,root,in,aux,[&](CollSlot& s,int rr){ return s.in[root].substr(s.aux[root][2*rr],s.aux[root][2*rr+1]); });
  if(rb!=MPI_IN_PLACE){ if(o.size()>(size_t)rn*tsz(rd)){ violation("collective-mismatch","MPI_Scatterv: receive buffer too small"); end_run(); } unpack(rb,rn,rd,o.data(),o.size()); } return 0; }
int MPI_Scatter(const void* sb,int sn,MPI_Datatype sd,void* rb,int rn,MPI_Datatype rd,int root,MPI_Comm c){ int n=C(c).world.size(); std::vector<int> sc(n,sn),di(n); for(int i=0;i<n;i++) di[i]=i*sn; return MPI_Scatterv(sb,sc.data(),di.data(),sd,rb,rn,rd,root,c); }
static void a2a(const char* name,const void* sb,const int* sc,const int* sdis,int scnt,MPI_Datatype sd,void* rb,const int* rc,const int* rdis,int rcnt,MPI_Datatype rd,MPI_Comm c){ Comm&k=C(c); int n=k.world.size(); int r=k.rank_of(me().id); std::string in; std::vector<long> aux;
  for(int i=0;i<n;i++){ long cnt=sc?sc[i]:scnt, off=sdis?sdis[i]:(long)i*scnt; if(cnt<0){ violation("mpi-misuse",fmt("%s: negative count",name)); end_run(); } std::string p= sb==MPI_IN_PLACE? pack((char*)rb+(long)(rdis?rdis[i]:(long)i*rcnt)*T(rd).ext,rc?rc[i]:rcnt,rd) : pack((const char*)sb+off*T(sd).ext,cnt,sd); aux.push_back(in.size()); aux.push_back(p.size()); in+=p; }
  std::vector<std::string> got(n);
  collective(c,name,name,D_ALL,-1,in,aux,[&](CollSlot& s,int rr){ for(int i=0;i<n;i++) got[i]=s.in[i].substr(s.aux[i][2*rr],s.aux[i][2*rr+1]); return std::string(); });
  // pieces land in the receive buffer in any order
  auto o=reduce_order(n);
  for(int x=0;x<n;x++){ int i=o[x]; long cnt=rc?rc[i]:rcnt, off=rdis?rdis[i]:(long)i*rcnt; if(got[i].size()!=(size_t)cnt*tsz(rd)){ violation("collective-mismatch",fmt("%s: rank %d expects %ld bytes from rank %d which sends %zu",name,r,(long)(cnt*tsz(rd)),i,got[i].size())); end_run(); } unpack((char*)rb+off*T(rd).ext,cnt,rd,got[i].data(),got[i].size()); } }
int MPI_Alltoall(const void* sb,int sn,MPI_Datatype sd,void* rb,int rn,MPI_Datatype rd,MPI_Comm c){ a2a("MPI_Alltoall",sb,nullptr,nullptr,sn,sd,rb,nullptr,nullptr,rn,rd,c); return 0; }
int MPI_Alltoallv(const void* sb,const int* sc,const int* sdis,MPI_Datatype sd,void* rb,const int* rc,const int* rdis,MPI_Datatype rd,MPI_Comm c){ a2a("MPI_Alltoallv",sb,sc,sdis,0,sd,rb,rc,rdis,0,rd,c); return 0; }
int MPI_Op_create(MPI_User_function* f,int commute,MPI_Op* o){ void* h=malloc(256); user_ops[h]={f,commute}; *o=(MPI_Op)h; return 0; }
int MPI_Op_free(MPI_Op* o){ *o=MPI_OP_NULL; return 0; }

// ------------------------------------------------------------------ datatypes
int MPI_Type_contiguous(int n,MPI_Datatype o,MPI_Datatype* d){ Type&b=T(o); Type* t=new Type; t->base=b.base; t->size=b.size*n; t->lb=b.lb; t->ext=b.ext*n; for(int i=0;i<n;i++) for(auto&s:b.segs) t->segs.push_back({s.off+i*b.ext,s.len}); *d=new_type(t); return 0; }
int MPI_Type_create_hvector(int n,int bl,MPI_Aint stride,MPI_Datatype o,MPI_Datatype* d){ Type&b=T(o); Type* t=new Type; t->base=b.base; t->size=b.size*n*bl; MPI_Aint lo=0,hi=0; bool f=true; for(int i=0;i<n;i++){ for(int j=0;j<bl;j++) for(auto&s:b.segs) t->segs.push_back({s.off+i*stride+j*b.ext,s.len}); MPI_Aint a=i*stride+b.lb,z=a+bl*b.ext; if(f||a<lo)lo=a; if(f||z>hi)hi=z; f=false; } t->lb=lo; t->ext=hi-lo; *d=new_type(t); return 0; }
int MPI_Type_vector(int n,int bl,int stride,MPI_Datatype o,MPI_Datatype* d){ return MPI_Type_create_hvector(n,bl,(MPI_Aint)stride*T(o).ext,o,d); }
int MPI_Type_create_hindexed(int n,const int* bl,const MPI_Aint* dis,MPI_Datatype o,MPI_Datatype* d){ Type&b=T(o); Type* t=new Type; t->base=b.base; MPI_Aint lo=0,hi=0; bool f=true; for(int i=0;i<n;i++){ for(int j=0;j<bl[i];j++) for(auto&s:b.segs) t->segs.push_back({s.off+dis[i]+j*b.ext,s.len}); t->size+=b.size*bl[i]; if(!bl[i]) continue; MPI_Aint a=dis[i]+b.lb,z=a+bl[i]*b.ext; if(f||a<lo)lo=a; if(f||z>hi)hi=z; f=false; } t->lb=lo; t->ext=hi-lo; *d=new_type(t); return 0; }
int MPI_Type_create_hindexed_block(int n,int bl,const MPI_Aint* dis,MPI_Datatype o,MPI_Datatype* d){ std::vector<int> b(n,bl); return MPI_Type_create_hindexed(n,b.data(),dis,o,d); }
int MPI_Type_indexed(int n,const int* bl,const int* dis,MPI_Datatype o,MPI_Datatype* d){ std::vector<MPI_Aint> a(n); for(int i=0;i<n;i++) a[i]=dis[i]*T(o).ext; return MPI_Type_create_hindexed(n,bl,a.data(),o,d); }
int MPI_Type_create_struct(int n,const int* bl,const MPI_Aint* dis,const MPI_Datatype* ty,MPI_Datatype* d){ Type* t=new Type; MPI_Aint lo=0,hi=0; bool f=true; for(int i=0;i<n;i++){ Type&b=T(ty[i]); for(int j=0;j<bl[i];j++) for(auto&s:b.segs) t->segs.push_back({s.off+dis[i]+j*b.ext,s.len}); t->size+=b.size*bl[i]; if(!bl[i]) continue; MPI_Aint a=dis[i]+b.lb,z=a+bl[i]*b.ext; if(f||a<lo)lo=a; if(f||z>hi)hi=z; f=false; } t->lb=lo; t->ext=hi-lo; *d=new_type(t); return 0; }
int MPI_Type_create_resized(MPI_Datatype o,MPI_Aint lb,MPI_Aint ext,MPI_Datatype* d){ Type* t=new Type(T(o)); t->basic=false; t->lb=lb; t->ext=ext; *d=new_type(t); return 0; }
int MPI_Type_dup(MPI_Datatype o,MPI_Datatype* d){ Type* t=new Type(T(o)); *d=new_type(t); return 0; }
int MPI_Type_commit(MPI_Datatype*){ return 0; }
int MPI_Type_free(MPI_Datatype* d){ auto i=types.find((void*)*d); if(i!=types.end() && !i->second->basic){ delete i->second; types.erase(i); } *d=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype d,int* n){ *n=tsz(d); return 0; }
int MPI_Type_size_x(MPI_Datatype d,MPI_Count* n){ *n=tsz(d); return 0; }
int MPI_Type_get_extent(MPI_Datatype d,MPI_Aint* lb,MPI_Aint* e){ *lb=T(d).lb; *e=T(d).ext; return 0; }
int MPI_Type_get_extent_x(MPI_Datatype d,MPI_Count* lb,MPI_Count* e){ *lb=T(d).lb; *e=T(d).ext; return 0; }
// ------------------------------------------------------------------ info
static std::unordered_map<void*,std::vector<std::pair<std::string,std::string>>> infos;
int MPI_Info_create(MPI_Info* o){ void* h=malloc(64); infos[h]; *o=(MPI_Info)h; return 0; }
int MPI_Info_set(MPI_Info i,const char* k,const char* v){ infos[(void*)i].push_back({k,v}); return 0; }
int MPI_Info_dup(MPI_Info i,MPI_Info* o){ auto c=infos[(void*)i]; MPI_Info_create(o); infos[(void*)*o]=c; return 0; }
int MPI_Info_free(MPI_Info* i){ infos.erase((void*)*i); *i=MPI_INFO_NULL; return 0; }
int MPI_Info_get_nkeys(MPI_Info i,int* n){ *n=infos[(void*)i].size(); return 0; }
int MPI_Info_get_nthkey(MPI_Info i,int n,char* k){ strcpy(k,infos[(void*)i][n].first.c_str()); return 0; }
int MPI_Info_get(MPI_Info i,const char* k,int n,char* v,int* f){ *f=0; for(auto&p:infos[(void*)i]) if(p.first==k){ *f=1; strncpy(v,p.second.c_str(),n); v[n]=0; } return 0; }

// ------------------------------------------------------------------ MPI-IO
struct SFile { int fd; Comm* comm; MPI_Comm handle; MPI_Offset disp=0; MPI_Datatype etype=MPI_BYTE, ftype=MPI_BYTE; std::string path; int owner; bool del=false; Type ft; };
static std::unordered_map<void*,SFile*> files; static SFile& FL(MPI_File f){ auto i=files.find((void*)f); if(i==files.end()){ violation("mpi-misuse","use of an invalid MPI file"); end_run(); } return *i->second; }
static int io_err(int e){ return e==ENOSPC?MPI_ERR_NO_SPACE: e==ENOENT?MPI_ERR_NO_SUCH_FILE: e==EACCES?MPI_ERR_ACCESS:MPI_ERR_IO; }
int MPI_File_open(MPI_Comm c,const char* name,int amode,MPI_Info,MPI_File* out){
  std::string path=fs_abs(name); int fl=0; bool w=amode&(MPI_MODE_WRONLY|MPI_MODE_RDWR); if(amode&MPI_MODE_RDWR) fl=O_RDWR; else if(amode&MPI_MODE_WRONLY) fl=O_WRONLY; else fl=O_RDONLY; if(amode&MPI_MODE_EXCL) fl|=O_EXCL;
  Comm& k=C(c); int r=k.rank_of(me().id); int err=0,fd=-1;
  // rank 0 creates; the others open afterwards; everybody gets the same verdict
  auto agree=[&](int e){ std::string in((char*)&e,sizeof e); std::vector<std::string> v; collective(c,"MPI_File_open","MPI_File_open",D_ALL,-1,in,{},[&](CollSlot& s,int){ v=s.in; return std::string(); }); int m=0; for(auto&x:v){ int y; memcpy(&y,x.data(),sizeof y); if(y&&!m) m=y; } return m; };
  if(r==0){ err=fs_should_fail_open(path,w); if(!err){ fd=real_open(path.c_str(),fl|((amode&MPI_MODE_CREATE)?O_CREAT:0),0644); if(fd<0) err=errno; } }
  err=agree(err); if(err){ if(fd>=0) real_close(fd); *out=MPI_FILE_NULL; return io_err(err); }
  if(r!=0){ err=fs_should_fail_open(path,w); if(!err){ fd=real_open(path.c_str(),fl&~O_EXCL,0644); if(fd<0) err=errno; } }
  err=agree(err); if(err){ if(fd>=0) real_close(fd); *out=MPI_FILE_NULL; return io_err(err); }
  SFile* f=new SFile; f->fd=fd; f->comm=&k; f->handle=c; f->path=path; f->owner=me().id; f->del=amode&MPI_MODE_DELETE_ON_CLOSE; f->ft=T(MPI_BYTE); void* h=malloc(64); files[h]=f; *out=(MPI_File)h; cover("io.mpi_open"); return 0; }
int MPI_File_close(MPI_File* f){ SFile& s=FL(*f); collective(s.handle,"MPI_File_close","MPI_File_close",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); real_close(s.fd); delete &s; files.erase((void*)*f); *f=MPI_FILE_NULL; return 0; }
int MPI_File_get_size(MPI_File f,MPI_Offset* n){ SFile& s=FL(f); point("MPI_File_get_size"); struct stat st; if(fstat(s.fd,&st)) return MPI_ERR_IO; *n=st.st_size; return 0; }
int MPI_File_set_size(MPI_File f,MPI_Offset n){ SFile& s=FL(f); size_t al; int e=0; if(s.comm->rank_of(me().id)==0){ struct stat st; fstat(s.fd,&st); if(n>st.st_size) e=fs_should_fail_write(s.path,0,&al); if(!e && real_ftruncate(s.fd,n)) e=errno; }
  int m=e; std::string in((char*)&e,sizeof e); collective(s.handle,"MPI_File_set_size","MPI_File_set_size",D_ALL,-1,in,{},[&](CollSlot& c,int){ memcpy(&m,c.in[0].data(),sizeof m); return std::string(); }); return m?io_err(m):0; }
int MPI_File_set_view(MPI_File f,MPI_Offset d,MPI_Datatype e,MPI_Datatype t,const char*,MPI_Info){ SFile& s=FL(f); s.disp=d; s.etype=e; s.ftype=t; s.ft=T(t); collective(s.handle,"MPI_File_set_view","MPI_File_set_view",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); return 0; }
int MPI_File_sync(MPI_File f){ SFile& s=FL(f); int e=fs_should_fail_sync(s.path); collective(s.handle,"MPI_File_sync","MPI_File_sync",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); return e?io_err(e):0; }
int MPI_File_set_atomicity(MPI_File f,int){ SFile& s=FL(f); collective(s.handle,"MPI_File_set_atomicity","MPI_File_set_atomicity",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); return 0; }
int MPI_File_get_atomicity(MPI_File,int* a){ *a=0; return 0; }
// map a byte range of the view onto the file
static std::vector<std::pair<MPI_Offset,size_t>> map_view(SFile& s,MPI_Offset off,size_t bytes){ std::vector<std::pair<MPI_Offset,size_t>> v; Type& t=s.ft; MPI_Offset o=off*(MPI_Offset)T(s.etype).size; 
  if(t.segs.size()==1 && (MPI_Aint)t.segs[0].len==t.ext){ v.push_back({s.disp+t.segs[0].off+o,bytes}); return v; }
  if(!t.size) return v; long tile=o/t.size; size_t skip=o%t.size; 
  while(bytes){ for(auto&g:t.segs){ if(skip>=g.len){ skip-=g.len; continue; } size_t l=std::min(g.len-skip,bytes); v.push_back({s.disp+tile*t.ext+g.off+(MPI_Offset)skip,l}); bytes-=l; skip=0; if(!bytes) break; } tile++; } return v; }
static int do_write(SFile& s,MPI_Offset off,const void* b,int n,MPI_Datatype d,MPI_Status* st){ std::string data=pack(b,n,d); size_t p=0; int err=0;
  for(auto&x:map_view(s,off,data.size())){ size_t done=0; while(done<x.second && !err){ size_t want=x.second-done, al=want; int e=fs_should_fail_write(s.path,want,&al); if(al){ if(real_pwrite(s.fd,data.data()+p+done,al,x.first+done)!=(long)al) e=errno?errno:EIO; done+=al; } if(e) err=e; point("MPI_File_write"); } if(err) break; p+=x.second; }
  if(st&&st!=MPI_STATUS_IGNORE){ memset(st,0,sizeof *st); st->_ucount=err?p:data.size(); } hash_mix(csum(data)); cover("io.mpi_write"); return err?io_err(err):0; }
static int do_read(SFile& s,MPI_Offset off,void* b,int n,MPI_Datatype d,MPI_Status* st){ std::string data; size_t want=(size_t)n*tsz(d); data.resize(want); size_t p=0; bool eof=false; int err=fs_should_fail_read(s.path); if(!err)
  for(auto&x:map_view(s,off,want)){ long g=real_pread(s.fd,&data[p],x.second,x.first); if(g<0){ err=EIO; break; } p+=g; if((size_t)g<x.second){ eof=true; break; } }
  (void)eof; if(!err) unpack(b,n,d,data.data(),p); if(st&&st!=MPI_STATUS_IGNORE){ memset(st,0,sizeof *st); st->_ucount=p; } cover("io.mpi_read"); return err?io_err(err):0; }
int MPI_File_write_at(MPI_File f,MPI_Offset o,const void* b,int n,MPI_Datatype d,MPI_Status* st){ point("MPI_File_write_at"); return do_write(FL(f),o,b,n,d,st); }
int MPI_File_read_at(MPI_File f,MPI_Offset o,void* b,int n,MPI_Datatype d,MPI_Status* st){ point("MPI_File_read_at"); return do_read(FL(f),o,b,n,d,st); }
int MPI_File_write_at_all(MPI_File f,MPI_Offset o,const void* b,int n,MPI_Datatype d,MPI_Status* st){ SFile& s=FL(f); 
  collective(s.handle,"MPI_File_write_at_all","MPI_File_write_at_all",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); return do_write(s,o,b,n,d,st); }
int MPI_File_read_at_all(MPI_File f,MPI_Offset o,void* b,int n,MPI_Datatype d,MPI_Status* st){ SFile& s=FL(f); 
  collective(s.handle,"MPI_File_read_at_all","MPI_File_read_at_all",D_ALL,-1,"",{},[](CollSlot&,int){return std::string();}); return do_read(s,o,b,n,d,st); }
}
