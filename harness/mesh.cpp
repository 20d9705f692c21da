// Workload "mesh": a seeded history of mesh, field and particle operations executed in lockstep by all simulated ranks on the
// real code; after every operation rank 0 compares the published state of all ranks with the sequential reference model.
#include "sim_api.h"
#include "model.h"
#include <sstream>
#include <cstdarg>
#include <cstring>
#include "amr/AMRmesh.h"
#include "amr/LightOctree.h"
#include "amr/MapUserData.h"
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"
#include "mpi/GhostCommunicator.h"
#include "particles/ParticleUpdate.h"
#include "utils/monitoring/Timers.h"
#include "utils/mpi/GlobalMpiSession.h"
#include "ScalarSimulationData.h"
#include "DyabloSession.hpp"

using namespace dyablo;
using ref::Leaf; using ref::hash_n; using ref::hash_s;
namespace {
const double POISON=-7.25e17;
struct Out { std::string s; template<class T> void p(const T& v){ s.append((const char*)&v,sizeof v); } void str(const std::string& x){ p((uint32_t)x.size()); s+=x; } };
struct In { const char* b; const char* e; template<class T> T g(){ T v; if(b+sizeof v>e){ fprintf(stderr,"SIM-HARNESS-ERROR: blob underrun\n"); abort(); } memcpy(&v,b,sizeof v); b+=sizeof v; return v; } std::string str(){ uint32_t n=g<uint32_t>(); std::string r(b,n); b+=n; return r; } };
std::set<std::string> watch; bool stop_run=false;
void viol(const char* prop,const char* kind,const char* f,...) __attribute__((format(printf,3,4)));
void viol(const char* prop,const char* kind,const char* f,...){
  va_list a; va_start(a,f); char buf[900]; vsnprintf(buf,sizeof buf,f,a); va_end(a);
  if(watch.empty()||watch.count(prop)){ sim_violation((std::string(prop)+":"+kind).c_str(),"%s",buf); stop_run=true; }
  else sim_cover((std::string("foreign.")+prop).c_str(),1); }

struct Part { double pos[3]; std::map<std::string,double> attr; };
typedef std::map<std::string,std::map<uint64_t,Part>> Particles;   // array -> id -> particle
// ---- model state (only used by the copy of rank 0)
struct Model {
  ref::Tree T; std::vector<uint32_t> count;         // leaves per rank
  std::map<std::string,std::map<uint64_t,std::vector<double>>> F;  // field -> leaf key -> sub-cell values
  Particles P; bool have=false; uint64_t tree_version=0, part_version=0;
  bool dep_have=false; uint64_t dep_tree=0,dep_part=0; int dep_kind=-1; std::map<uint64_t,std::vector<double>> dep;
};
struct Cfg { ref::Domain D; uint32_t b[3]={4,4,1}; int nsub()const{ return b[0]*b[1]*b[2]; } double lo[3]={0,0,0}, hi[3]={1,1,1}; };

struct World {
  Cfg C; Model M; int rank, size;
  std::unique_ptr<ConfigMap> cm; std::unique_ptr<AMRmesh> mesh; std::unique_ptr<ForeachCell> fc; std::unique_ptr<UserData> U; Timers timers;
  std::unique_ptr<MapUserData> mapper;
  uint64_t opi=0; std::string op;
  // ------------------------------------------------------------ local views
  Leaf leaf(uint32_t i,bool ghost){ auto c=ghost?mesh->getCoordinatesGhost(i):mesh->getCoordinates(i); auto s=ghost?mesh->getSizeGhost(i):mesh->getSize(i); int l=ghost?mesh->getLevelGhost(i):mesh->getLevel(i);
    return {l,(uint32_t)std::llround(c[0]/s[0]),(uint32_t)std::llround(c[1]/s[1]),C.D.dim==3?(uint32_t)std::llround(c[2]/s[2]):0u}; }
  ForeachCell::CellIndex cell(uint32_t iOct,bool ghost,uint32_t sub){ return ForeachCell::CellIndex{ {iOct,ghost}, sub%C.b[0],(sub/C.b[0])%C.b[1],sub/(C.b[0]*C.b[1]), C.b[0],C.b[1],C.b[2] }; }
  UserData::FieldAccessor acc(const std::vector<std::string>& n){ std::vector<UserData::FieldAccessor::FieldInfo> v; int i=0; for(auto&s:n) v.push_back({s,VarIndex(i++)}); return U->getAccessor(v); }
  std::vector<std::string> fields(){ auto s=U->getEnabledFields(); return {s.begin(),s.end()}; }
  double fillv(uint64_t seed,const std::string& f,const Leaf& a,uint32_t sub){ return (double)(hash_n({seed,hash_s(f),(uint64_t)a.l,a.x,a.y,a.z,sub})>>44)-500000.0; }
  void fill(const std::string& f,uint64_t seed){ auto A=acc({f}); for(uint32_t i=0;i<mesh->getNumOctants();i++){ Leaf a=leaf(i,false); for(int s=0;s<C.nsub();s++) A.at_ivar(cell(i,false,s),0)=fillv(seed,f,a,s); } }
  void poison(){ auto fs=fields(); if(fs.empty()) return; auto A=acc(fs); for(uint32_t i=0;i<mesh->getNumGhosts();i++) for(int s=0;s<C.nsub();s++) for(size_t v=0;v<fs.size();v++) A.at_ivar(cell(i,true,s),v)=POISON; }
  // ------------------------------------------------------------ publication
  void publish_state(){
    Out o; uint32_t n=mesh->getNumOctants(), g=mesh->getNumGhosts(); o.p(n); o.p(g); o.p((uint64_t)mesh->getGlobalNumOctants()); o.p((uint64_t)mesh->getGlobalIdx(0));
    for(uint32_t i=0;i<n;i++) o.p(leaf(i,false));
    for(uint32_t i=0;i<g;i++) o.p(leaf(i,true));
    auto fs=fields(); o.p((uint32_t)fs.size()); for(auto&f:fs) o.str(f);
    if(!fs.empty()){ auto A=acc(fs); for(size_t v=0;v<fs.size();v++) for(uint32_t i=0;i<n;i++) for(int s=0;s<C.nsub();s++) o.p((double)A.at_ivar(cell(i,false,s),v)); }
    auto pa=U->getEnabledParticleArrays(); o.p((uint32_t)pa.size());
    for(auto&a:pa){ o.str(a); auto P=U->getParticleArray(a); uint32_t np=P.getNumParticles(); auto at=U->getEnabledParticleAttributes(a); o.p(np); o.p((uint32_t)at.size()); for(auto&x:at) o.str(x);
      for(uint32_t i=0;i<np;i++) for(int d=0;d<3;d++) o.p((double)P.pos(i,(ComponentIndex3D)d));
      for(auto&x:at){ auto D=U->getParticleAccessor(a,{{x,VarIndex(0)}}); for(uint32_t i=0;i<np;i++) o.p((double)D.at_ivar(i,0)); } }
    sim_publish("S",o.s.data(),o.s.size()); }
  struct State { std::vector<std::vector<Leaf>> loc,gho; std::vector<uint64_t> tot,first; std::map<std::string,std::map<uint64_t,std::vector<double>>> F; std::vector<std::map<std::string,std::vector<Part>>> P; std::vector<std::set<std::string>> fn; };
  State read_state(){ State S; for(int r=0;r<size;r++){ size_t n; const char* p=(const char*)sim_blob("S",r,0,&n); In in{p,p+n}; uint32_t nl=in.g<uint32_t>(), ng=in.g<uint32_t>(); S.tot.push_back(in.g<uint64_t>()); S.first.push_back(in.g<uint64_t>());
      S.loc.emplace_back(); S.gho.emplace_back(); for(uint32_t i=0;i<nl;i++) S.loc.back().push_back(in.g<Leaf>()); for(uint32_t i=0;i<ng;i++) S.gho.back().push_back(in.g<Leaf>());
      uint32_t nf=in.g<uint32_t>(); std::vector<std::string> fs; for(uint32_t i=0;i<nf;i++) fs.push_back(in.str()); S.fn.emplace_back(fs.begin(),fs.end());
      for(auto&f:fs){ auto& m=S.F[f]; for(uint32_t i=0;i<nl;i++){ auto& v=m[C.D.sfc(S.loc.back()[i])]; v.resize(C.nsub()); for(int s=0;s<C.nsub();s++) v[s]=in.g<double>(); } }
      S.P.emplace_back(); uint32_t na=in.g<uint32_t>(); for(uint32_t k=0;k<na;k++){ std::string a=in.str(); uint32_t np=in.g<uint32_t>(), nat=in.g<uint32_t>(); std::vector<std::string> at; for(uint32_t i=0;i<nat;i++) at.push_back(in.str());
        auto& v=S.P.back()[a]; v.resize(np); for(uint32_t i=0;i<np;i++) for(int d=0;d<3;d++) v[i].pos[d]=in.g<double>(); for(auto&x:at) for(uint32_t i=0;i<np;i++) v[i].attr[x]=in.g<double>(); } }
    return S; }
  // ------------------------------------------------------------ oracle (rank 0)
  const char* owner_prop(){ switch(op[0]){ case 'A': case 'G': return "P08"; case 'L': case 'N': case 'V': case 'D': case 'F': return "P07"; case 'X': return "P05"; case 'R': return "P06"; case 'P': return "P09"; } return "P07"; }
  // returns false if the mesh is not a tiling (nothing more can be checked)
  bool check_mesh(State& S,ref::Tree& T){
    T=ref::Tree(); T.D=C.D; uint64_t tot=0; for(auto&l:S.loc) tot+=l.size();
    uint64_t acc=0; 
    for(int r=0;r<size;r++){
      if(S.tot[r]!=tot){ viol("P01","global-count","rank %d believes there are %lu cells, there are %lu (after %s)",r,(unsigned long)S.tot[r],(unsigned long)tot,op.c_str()); return false; }
      if(S.first[r]!=acc){ viol("P01","global-index","rank %d starts its numbering at %lu instead of %lu (after %s)",r,(unsigned long)S.first[r],(unsigned long)acc,op.c_str()); return false; }
      acc+=S.loc[r].size(); }
    uint64_t last_end=0; const Leaf* prev=nullptr;
    for(int r=0;r<size;r++) for(size_t i=0;i<S.loc[r].size();i++){ const Leaf& a=S.loc[r][i];
      if(a.l<C.D.lmin||a.l>C.D.lmax){ viol("P01","level-bounds","rank %d cell %zu %s outside levels %d..%d (after %s)",r,i,ref::str(a).c_str(),C.D.lmin,C.D.lmax,op.c_str()); return false; }
      if(!C.D.inside(a)){ viol("P01","outside","rank %d cell %zu %s is outside the domain (after %s)",r,i,ref::str(a).c_str(),op.c_str()); return false; }
      uint64_t k=C.D.sfc(a); if(prev&&k<last_end){ const char* what= T.m.count(k)?"overlap":"order"; viol(what[1]=='v'?"P01":"P03",what,"rank %d cell %zu %s does not follow %s (after %s)",r,i,ref::str(a).c_str(),ref::str(*prev).c_str(),op.c_str()); return false; }
      last_end=k+C.D.span(a.l); prev=&a; T.insert(a,r,i); }
    uint64_t want=(uint64_t)C.D.coarse[0]*C.D.coarse[1]*(C.D.dim==3?C.D.coarse[2]:1)*C.D.vol(C.D.lmin);
    if(T.volume()!=want){ viol("P01","tiling","cells cover %lu/%lu of the domain (after %s)",(unsigned long)T.volume(),(unsigned long)want,op.c_str()); return false; }
    for(auto&p:T.m){ std::vector<const ref::Node*> nb; T.all_neighbors(p.second.leaf,nb); for(auto n:nb) if(n->leaf.l>p.second.leaf.l+1||p.second.leaf.l>n->leaf.l+1){ viol("P01","balance","%s touches %s (after %s)",ref::str(p.second.leaf).c_str(),ref::str(n->leaf).c_str(),op.c_str()); return false; } }
    for(int r=0;r<size;r++){ std::set<Leaf> seen; for(auto&g:S.gho[r]){ const ref::Node* n=C.D.inside(g)&&g.l<=C.D.lmax?T.find(g):nullptr;
        if(!n){ viol("P04","ghost-not-a-cell","rank %d has a remote copy %s that is no cell of the mesh (after %s)",r,ref::str(g).c_str(),op.c_str()); break; }
        if(n->rank==r){ viol("P04","ghost-is-local","rank %d has a remote copy of its own cell %s (after %s)",r,ref::str(g).c_str(),op.c_str()); break; }
        if(!seen.insert(g).second){ viol("P04","ghost-twice","rank %d has two remote copies of %s (after %s)",r,ref::str(g).c_str(),op.c_str()); break; } }
      // completeness: every touching cell of another rank is there
      for(auto&a:S.loc[r]){ std::vector<const ref::Node*> nb; T.all_neighbors(a,nb); bool bad=false; for(auto n:nb) if(n->rank!=r&&!seen.count(n->leaf)){ viol("P04","ghost-missing","rank %d has no copy of %s (rank %d) that touches its cell %s (after %s)",r,ref::str(n->leaf).c_str(),n->rank,ref::str(a).c_str(),op.c_str()); bad=true; break; } if(bad) break; } }
    return true; }
  bool same_tree(const ref::Tree& a,const ref::Tree& b,std::string& why){ if(a.m.size()!=b.m.size()){ why="cell counts "+std::to_string(a.m.size())+" and "+std::to_string(b.m.size()); }
    for(auto&p:a.m){ auto i=b.m.find(p.first); if(i==b.m.end()||!(i->second.leaf==p.second.leaf)){ why+="; expected "+ref::str(p.second.leaf)+(i==b.m.end()?" is absent":" but found "+ref::str(i->second.leaf)); return false; } }
    return a.m.size()==b.m.size(); }
  void check_fields(State& S,const char* prop,const char* kind){
    std::set<std::string> want; for(auto&f:M.F) want.insert(f.first);
    for(int r=0;r<size;r++) if(S.fn[r]!=want){ viol(prop,"field-set","rank %d has %zu fields, expected %zu (after %s)",r,S.fn[r].size(),want.size(),op.c_str()); M.F=S.F; return; }
    for(auto&f:M.F) for(auto&c:f.second){ auto& v=S.F[f.first][c.first]; for(int s=0;s<C.nsub();s++) if(v.size()<=(size_t)s||std::memcmp(&v[s],&c.second[s],8)!=0){ 
      const ref::Node* n=nullptr; auto i=M.T.m.find(c.first); if(i!=M.T.m.end()) n=&i->second;
      viol(prop,kind,"field %s sub-cell %d of %s (rank %d, index %u): %.17g instead of %.17g (after %s)",f.first.c_str(),s,n?ref::str(n->leaf).c_str():"?",n?n->rank:-1,n?n->idx:0,v.size()<=(size_t)s?NAN:v[s],c.second[s],op.c_str()); M.F=S.F; return; } } }
  bool owner_of(const double* pos,const ref::Node*& n,bool& border){ Leaf a{C.D.lmax,0,0,0}; uint32_t* q[3]={&a.x,&a.y,&a.z}; border=false; for(int d=0;d<C.D.dim;d++){ double t=(pos[d]-C.lo[d])/(C.hi[d]-C.lo[d])*C.D.count(d,C.D.lmax); double f=std::floor(t); if(t-f<1e-9||f+1-t<1e-9){ if(t!=f||(C.D.count(d,C.D.lmax)&(C.D.count(d,C.D.lmax)-1))||C.lo[d]!=0||C.hi[d]!=1) border=true; } if(f<0||f>=C.D.count(d,C.D.lmax)) return false; *q[d]=(uint32_t)f; } n=M.T.containing(a); return n!=nullptr; }
  void check_particles(State& S,bool placed){
    for(auto&A:M.P){ std::map<uint64_t,Part> rest=A.second; 
      for(int r=0;r<size;r++){ auto it=S.P[r].find(A.first); if(it==S.P[r].end()){ viol("P09","array-missing","rank %d lost particle array %s (after %s)",r,A.first.c_str(),op.c_str()); return; }
        for(auto&p:it->second){ uint64_t id=(uint64_t)p.attr["id"]; auto w=rest.find(id);
          if(w==rest.end()){ viol("P09",A.second.count(id)?"duplicated":"unknown-particle","rank %d array %s: particle id %lu (after %s)",r,A.first.c_str(),(unsigned long)id,op.c_str()); M.P.clear(); return; }
          for(int d=0;d<3;d++) if(std::memcmp(&p.pos[d],&w->second.pos[d],8)){ viol("P09","position","array %s particle %lu coordinate %d is %.17g instead of %.17g (after %s)",A.first.c_str(),(unsigned long)id,d,p.pos[d],w->second.pos[d],op.c_str()); return; }
          if(p.attr.size()!=w->second.attr.size()){ viol("P09","attribute-set","array %s particle %lu has %zu attributes instead of %zu (after %s)",A.first.c_str(),(unsigned long)id,p.attr.size(),w->second.attr.size(),op.c_str()); return; }
          for(auto&x:w->second.attr){ auto y=p.attr.find(x.first); if(y==p.attr.end()||std::memcmp(&y->second,&x.second,8)){ viol("P09","attribute","array %s particle %lu attribute %s is %.17g instead of %.17g (after %s)",A.first.c_str(),(unsigned long)id,x.first.c_str(),y==p.attr.end()?NAN:y->second,x.second,op.c_str()); return; } }
          if(placed){ const ref::Node* n=nullptr; bool border; if(owner_of(p.pos,n,border)&&!border&&n->rank!=r){ viol("P09","wrong-rank","array %s particle %lu at (%.17g,%.17g,%.17g) is on rank %d, its cell %s is on rank %d (after %s)",A.first.c_str(),(unsigned long)id,p.pos[0],p.pos[1],p.pos[2],r,ref::str(n->leaf).c_str(),n->rank,op.c_str()); return; } }
          rest.erase(w); } }
      if(!rest.empty()){ viol("P09","lost","array %s: %zu particles lost, e.g. id %lu (after %s)",A.first.c_str(),rest.size(),(unsigned long)rest.begin()->first,op.c_str()); return; } } }
  void count_states(State& S){ uint64_t h=0; for(int r=0;r<size;r++){ h=hash_n({h,(uint64_t)r,S.loc[r].size(),S.gho[r].size()}); if(S.loc[r].empty()) sim_cover("probe.empty_rank",1); } for(auto&p:M.T.m) h=ref::mix64(h^p.first^((uint64_t)p.second.leaf.l<<58)); char b[40]; snprintf(b,sizeof b,"state.%016lx",(unsigned long)h); sim_cover(b,1); }
  template<class F> void sync(F f){ sim_barrier(nullptr,nullptr); if(rank==0){ f(); char c[2]={(char)stop_run,(char)((long)M.T.m.size()>2*sim_param_i("max_cells",4000))}; sim_clear_blobs("CTL"); sim_publish("CTL",c,2); } sim_barrier(nullptr,nullptr); size_t n; const char* c=(const char*)sim_blob("CTL",0,0,&n); if(c&&*c) stop_run=true; if(c) big=c[1]; sim_barrier(nullptr,nullptr); if(rank==0){ for(const char* t:{"S","K","X","Q","R"}) sim_clear_blobs(t); } sim_barrier(nullptr,nullptr); }

  // ------------------------------------------------------------ operations
  std::vector<long> arg;
  long a(size_t i,long d=0){ return i<arg.size()?arg[i]:d; }
  bool big=false; // large mesh: shrink it before going on
  int marker(const Leaf& c){ uint64_t seed=a(0); int pr=a(1,20), pc=a(2,30), mode=a(3,0); int m=0;
    auto u=[&](const Leaf& q,uint64_t salt){ return (int)(hash_n({seed,salt,(uint64_t)q.l,q.x,q.y,q.z})%100); };
    if(mode==0||mode==4){ if(u(c,1)<pr) m=1; else { Leaf f=mode==4&&c.l>0?C.D.parent(c):c; if(u(f,2)<pc) m=-1; } }
    else if(mode==1){ double ctr[3]; double d2=0; for(int d=0;d<C.D.dim;d++){ ctr[d]=(hash_n({seed,7,(uint64_t)d})%1000)/1000.0; uint32_t p[3]={c.x,c.y,c.z}; double x=(p[d]+0.5)/C.D.count(d,c.l)-ctr[d]; if(C.D.per[d]) x-=std::round(x); d2+=x*x; } double R=pr/100.0, W=pc/100.0; if(std::fabs(std::sqrt(d2)-R)<W) m=1; else m=-1; }
    else if(mode==5){ // drill: refine the cells around one fixed point (on a dyadic line, so that the partition splits close to it), to reach long chains of forced refinement
      static const uint64_t ds=sim_param_i("drill",1); bool in=true,touch=true; uint32_t p[3]={c.x,c.y,c.z}; for(int d=0;d<C.D.dim;d++){ uint64_t h=hash_n({ds,11,(uint64_t)d}); int k=1+h%3; double w=(double)(1+(h>>8)%((1u<<k)-1))/(1u<<k), x=w*C.D.count(d,c.l)-p[d]+((h>>20&1)?1e-9:-1e-9); if(x<0||x>=1) in=false; if(x< -0.5||x>1.5) touch=false; }
      if(in||(touch&&!big&&u(c,1)<pr)) m=1; else if(u(c.l>0?C.D.parent(c):c,2)<pc) m=-1; }
    else if(mode==2) m=-1; else if(mode==3){ Leaf q=c; while(q.l>C.D.lmin) q=C.D.parent(q); if(u(q,3)<pr) m=1; else if(u(q,4)<pc) m=-1; }
    if(big&&m>=0&&!(m==1&&mode==5)&&u(c.l>0?C.D.parent(c):c,9)<80) m=-1;
    if(m==1&&c.l>=C.D.lmax) m=0; if(m==-1&&c.l<=C.D.lmin) m=0; return m; }
  bool any_particles(){ return !U->getEnabledParticleArrays().empty(); }
  void do_adapt(bool global){
    sim_phase("P01,P02"); poison(); mapper->save_old_mesh();
    if(global) mesh->adaptGlobalRefine(); else { for(uint32_t i=0;i<mesh->getNumOctants();i++) mesh->setMarker(i,marker(leaf(i,false))); mesh->adapt(); }
    sim_phase("P08"); mapper->remap(*U); sim_phase("P09"); if(any_particles()) U->distributeAllParticles(); sim_phase("P04");
    publish_state();
    sync([&]{ State S=read_state(); ref::Tree T; bool valid=check_mesh(S,T);
      std::map<uint64_t,int> req; for(auto&p:M.T.m) req[p.first]= global?1:marker(p.second.leaf);
      auto mk=ref::solve_markers(M.T,req); ref::Tree E=ref::apply_markers(M.T,mk); std::string why;
      if(!valid){ ref::Tree A; A.D=C.D; for(auto&l:S.loc) for(auto&a:l) if(a.l<=C.D.lmax) A.insert(a); if(!same_tree(E,A,why)) viol("P02","adapt","mesh after %s differs from what was asked: %s",op.c_str(),why.c_str()); stop_run=true; return; }
      long nr=0,nc=0,forced=0,denied=0; for(auto&m:mk){ if(m.second==1) nr++; if(m.second==-1) nc++; if(m.second>req[m.first]){ if(req[m.first]==-1) denied++; else forced++; } }
      sim_cover("probe.refined",nr); sim_cover("probe.coarsened",nc); sim_cover("probe.forced_by_2to1",forced); sim_cover("probe.denied_coarsening",denied);
      for(auto&p:M.T.m) if(mk[p.first]==-1&&C.D.dim){ Leaf f=C.D.parent(p.second.leaf); const ref::Node* s=M.T.find(C.D.child(f,0)); if(s&&s->rank!=p.second.rank) { sim_cover("probe.family_across_ranks",1); break; } }
      if(!same_tree(E,T,why)) viol("P02","adapt","mesh after %s differs from what was asked: %s",op.c_str(),why.c_str());
      remap_model(T); M.T=T; M.tree_version++; take_counts(S); check_fields(S,"P08","remap"); check_particles(S,true); count_states(S); }); }
  void remap_model(const ref::Tree& T){ auto old=M.F; const ref::Domain& D=C.D; uint32_t* b=C.b; int ns=C.nsub();
    for(auto&f:M.F){ auto& o=old[f.first]; std::map<uint64_t,std::vector<double>> nw;
      for(auto&p:T.m){ const Leaf& a=p.second.leaf; auto& v=nw[p.first]; v.assign(ns,NAN);
        if(const ref::Node* n=M.T.find(a)){ (void)n; v=o[p.first]; continue; }
        const ref::Node* up=a.l>0?M.T.find(D.parent(a)):nullptr;
        for(int s=0;s<ns;s++){ uint32_t i=s%b[0],j=(s/b[0])%b[1],k=s/(b[0]*b[1]);
          if(up){ uint32_t I=(i+b[0]*(a.x&1))/2,J=(j+b[1]*(a.y&1))/2,K=D.dim==3?(k+b[2]*(a.z&1))/2:0; v[s]=o[D.sfc(up->leaf)][I+b[0]*(J+b[1]*K)]; }
          else { double sum=0; bool ok=true; for(int q=0;q<D.nchild();q++){ uint32_t I=2*i+(q&1),J=2*j+(q>>1&1),K=D.dim==3?2*k+(q>>2&1):0; Leaf c{a.l+1,a.x*2+I/b[0],a.y*2+J/b[1],D.dim==3?a.z*2+K/b[2]:0}; const ref::Node* n=M.T.find(c); if(!n){ ok=false; break; } sum+=o[D.sfc(c)][I%b[0]+b[0]*(J%b[1]+b[1]*(D.dim==3?K%b[2]:0))]; } 
            if(ok) v[s]=sum/D.nchild(); } } }
      f.second.swap(nw); } }
  void take_counts(State& S){ M.count.clear(); for(auto&l:S.loc) M.count.push_back(l.size()); }
  void do_balance(){ int c=a(0,0);
    if(mesh->getGlobalNumOctants()<(uint64_t)size){ sim_cover("skip.balance_fewer_cells_than_ranks",1); return; }
    sim_phase("P03,P07"); poison(); mesh->loadBalance_userdata(c,*U); sim_phase("P09"); if(any_particles()) U->distributeAllParticles(); sim_phase("P04");
    publish_state();
    sync([&]{ State S=read_state(); ref::Tree T; if(!check_mesh(S,T)){ stop_run=true; return; } std::string why;
      if(!same_tree(M.T,T,why)){ viol("P03","cells-changed","cells changed by %s: %s",op.c_str(),why.c_str()); stop_run=true; return; }
      // boundaries
      uint64_t N=T.m.size(); std::vector<Leaf> L; for(auto&p:T.m) L.push_back(p.second.leaf); uint64_t beg=0; uint64_t moved=0;
      for(auto&p:T.m) if(M.T.m[p.first].rank!=p.second.rank) moved++;
      sim_cover("probe.cells_moved",moved);
      // ideal borders are N*r/size (rounded either way), moved to the group border before (or after) it; smaller groups only where a rank would stay empty
      std::set<uint64_t> prevkeys{0};
      for(int r=0;r<size;r++){ if(r>0){ std::set<uint64_t> ok,nextkeys; uint64_t example=0; bool relaxed=false;
            auto first_at=[&](uint64_t k){ size_t lo=0,hi=L.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(C.D.sfc(L[m])<k) lo=m+1; else hi=m; } return (uint64_t)lo; };
            for(uint64_t want: {N*r/size,(N*r+size-1)/size}) if(want<N) for(uint64_t pk:prevkeys){ uint64_t wk=C.D.sfc(L[want]); int g=c; auto start=[&](int q){ return (wk>>(3*q))<<(3*q); }; while(g>0&&start(g)<=pk) g--; if(g<c) relaxed=true;
              for(int up=0;up<=(c>0&&wk!=start(c));up++){ uint64_t k= up?start(c)+(1ull<<(3*c)):start(g); uint64_t f=first_at(k); if(!up) example=f; ok.insert(f); if(f==beg) nextkeys.insert(k); } }
            if(relaxed) sim_cover("probe.grouping_relaxed",1);
            if(!ok.count(beg)){ uint64_t bk=beg<N?C.D.sfc(L[beg]):~0ull; bool split=beg<N&&!relaxed&&bk!=((bk>>(3*c))<<(3*c));
              viol("P03",split?"group-split":"unbalanced","rank %d starts at cell %lu, expected %lu (%lu cells, %d ranks, groups of %d levels) (after %s)",r,(unsigned long)beg,(unsigned long)example,(unsigned long)N,size,c,op.c_str()); break; }
            prevkeys=nextkeys; }
        beg+=S.loc[r].size(); }
      M.T=T; take_counts(S); check_fields(S,"P07","load-balance"); check_particles(S,true); count_states(S); }); }
  void after_fields(const char* prop,const char* kind){ publish_state(); sync([&]{ State S=read_state(); check_fields(S,prop,kind); }); }
  std::string fname(long i){ static const char* n[]={"m","c","z","a","q","f","rho","b"}; return n[((i%8)+8)%8]; }
  void do_fields(){ sim_phase("P07"); long seed=a(0); std::string k=op.substr(0,1);
    if(k=="N"){ std::set<std::string> add; for(size_t i=1;i<arg.size();i++) if(!U->has_field(fname(arg[i]))) add.insert(fname(arg[i])); if(add.empty()) return; U->new_fields(add);
      if(rank==0) for(auto&f:add){ auto& m=M.F[f]; for(auto&p:M.T.m) m[p.first].assign(C.nsub(),0.0); } after_fields("P07","new-field"); 
      if(seed){ for(auto&f:add) fill(f,seed); if(rank==0) for(auto&f:add) for(auto&p:M.T.m) for(int s=0;s<C.nsub();s++) M.F[f][p.first][s]=fillv(seed,f,p.second.leaf,s); after_fields("P07","field-write"); } }
    else if(k=="V"){ auto fs=fields(); std::string src=fs[a(0)%fs.size()], dst=fname(a(1)); if(src==dst||(fs.size()==1)) return; U->move_field(dst,src); if(rank==0){ auto m=M.F[src]; M.F.erase(src); M.F[dst]=m; } after_fields("P07","move-field"); }
    else if(k=="D"){ auto fs=fields(); if(fs.size()<2) return; std::string f=fs[a(0)%fs.size()]; U->delete_field(f); if(rank==0) M.F.erase(f); after_fields("P07","delete-field"); }
    else if(k=="F"){ auto fs=fields(); std::string f=fs[a(1)%fs.size()]; fill(f,seed); if(rank==0) for(auto&p:M.T.m) for(int s=0;s<C.nsub();s++) M.F[f][p.first][s]=fillv(seed,f,p.second.leaf,s); after_fields("P07","field-write"); } }
  std::vector<std::string> pick_fields(uint64_t seed){ auto fs=fields(); std::vector<std::string> v; std::vector<std::pair<uint64_t,std::string>> o; for(auto&f:fs) o.push_back({hash_n({seed,hash_s(f)}),f}); std::sort(o.begin(),o.end()); size_t n=1+hash_n({seed,99})%o.size(); for(size_t i=0;i<n;i++) v.push_back(o[i].second); return v; }
  int gwidth(){ int w=std::min<int>(C.b[0],C.b[1]); if(C.D.dim==3) w=std::min<int>(w,C.b[2]); return 1+(int)(((unsigned long)a(1))%std::min(w,3)); }
  // sub-cells of ghost g that lie within w of its own cells from cell o (over all periodic images)
  void near(const Leaf& g,const Leaf& o,int w,std::vector<char>& need){ 
    int L=std::max(g.l,o.l); // work in units of sub-cells at the finest of both levels
    int64_t lo[3],hi[3],gl[3],sz=1ll<<(L-g.l); uint32_t gp[3]={g.x,g.y,g.z},op_[3]={o.x,o.y,o.z};
    for(int ix=-1;ix<=1;ix++) for(int iy=-1;iy<=1;iy++) for(int iz=(C.D.dim==3?-1:0);iz<=(C.D.dim==3?1:0);iz++){ int im[3]={ix,iy,iz}; bool ok=true; for(int d=0;d<3;d++) if(im[d]&&!C.D.per[d]) ok=false; if(!ok) continue;
      bool touch=true;
      for(int d=0;d<C.D.dim;d++){ int64_t per=(int64_t)C.D.count(d,L)*C.b[d]; lo[d]=((int64_t)op_[d]<<(L-o.l))*C.b[d]+im[d]*per; hi[d]=lo[d]+((int64_t)C.b[d]<<(L-o.l)); gl[d]=((int64_t)gp[d]<<(L-g.l))*C.b[d]; int64_t gh=gl[d]+((int64_t)C.b[d]<<(L-g.l)); if(gl[d]>hi[d]||gh<lo[d]) touch=false; }
      if(!touch) continue;
      for(int s=0;s<C.nsub();s++){ uint32_t c[3]={s%C.b[0],(s/C.b[0])%C.b[1],s/(C.b[0]*C.b[1])}; bool in=true; for(int d=0;d<C.D.dim;d++){ int64_t a0=gl[d]+(int64_t)c[d]*sz,a1=a0+sz; int64_t gap=std::max<int64_t>(0,std::max(a0-hi[d],lo[d]-a1)); if(gap/sz>=w) in=false; } if(in) need[s]=1; } } }
  void needed(uint32_t g,int w,std::vector<char>& need,std::vector<Leaf>& loc){ need.assign(C.nsub(),0); Leaf gl=leaf(g,true); for(auto&o:loc) near(gl,o,w,need); }
  void do_exchange(){ auto fs=pick_fields(a(0)); int w=gwidth(); bool full=a(2); auto all=fields(); sim_phase("P05"); poison();
    if(full){ GhostCommunicator_full_blocks gc(*mesh,U->getShape(),-1); auto A=acc(fs); gc.exchange_ghosts(A); }
    else { GhostCommunicator gc(*mesh,U->getShape(),w); auto A=acc(fs); gc.exchange_ghosts(A); if(a(3)) gc.exchange_ghosts(A); }
    Out o; o.p((uint32_t)mesh->getNumGhosts()); std::vector<Leaf> loc; for(uint32_t i=0;i<mesh->getNumOctants();i++) loc.push_back(leaf(i,false));
    auto A=acc(all); std::vector<char> need; for(uint32_t g=0;g<mesh->getNumGhosts();g++){ o.p(leaf(g,true)); if(full) need.assign(C.nsub(),1); else needed(g,w,need,loc); for(int s=0;s<C.nsub();s++) o.p(need[s]); for(size_t v=0;v<all.size();v++) for(int s=0;s<C.nsub();s++) o.p((double)A.at_ivar(cell(g,true,s),v)); }
    sim_publish("X",o.s.data(),o.s.size()); publish_state();
    sync([&]{ State S=read_state(); check_fields(S,"P05","owned-data-changed"); std::set<std::string> named(fs.begin(),fs.end());
      for(int r=0;r<size;r++){ size_t n; const char* p=(const char*)sim_blob("X",r,0,&n); In in{p,p+n}; uint32_t ng=in.g<uint32_t>(); sim_cover("probe.ghosts_checked",ng);
        for(uint32_t g=0;g<ng;g++){ Leaf gl=in.g<Leaf>(); std::vector<char> nd(C.nsub()); for(auto&c:nd) c=in.g<char>(); uint64_t k=C.D.sfc(gl);
          for(auto&f:all) for(int s=0;s<C.nsub();s++){ double v=in.g<double>(); auto it=M.F[f].find(k); if(it==M.F[f].end()) continue; double w0=it->second[s];
            if(!named.count(f)){ if(v!=POISON&&!stop_run) viol("P05","unnamed-field","rank %d copy of %s field %s changed although it was not exchanged (after %s)",r,ref::str(gl).c_str(),f.c_str(),op.c_str()); }
            else if(nd[s]? std::memcmp(&v,&w0,8)!=0 : (v!=POISON&&std::memcmp(&v,&w0,8)!=0)) if(!stop_run) viol("P05",v==POISON?"not-received":"wrong-value","rank %d copy of %s field %s sub-cell %d: %.17g instead of %.17g (after %s)",r,ref::str(gl).c_str(),f.c_str(),s,v,w0,op.c_str()); } } } }); }
  void do_reduce(){ auto fs=pick_fields(a(0)); int w=gwidth(); bool full=a(2); auto all=fields(); sim_phase("P06"); poison();
    std::vector<Leaf> loc; for(uint32_t i=0;i<mesh->getNumOctants();i++) loc.push_back(leaf(i,false));
    auto A=acc(fs); Out o; std::vector<char> need; o.p((uint32_t)mesh->getNumGhosts());
    for(uint32_t g=0;g<mesh->getNumGhosts();g++){ Leaf gl=leaf(g,true); o.p(gl); if(full) need.assign(C.nsub(),1); else needed(g,w,need,loc);
      for(size_t v=0;v<fs.size();v++) for(int s=0;s<C.nsub();s++){ double x=0; uint64_t h=hash_n({(uint64_t)a(0),(uint64_t)rank,(uint64_t)gl.l,gl.x,gl.y,gl.z,(uint64_t)s,v}); if(need[s]&&h%3) x=(double)((h>>20)%4096)+1; A.at_ivar(cell(g,true,s),v)=x; o.p(x); } }
    sim_publish("R",o.s.data(),o.s.size());
    if(full){ GhostCommunicator_full_blocks gc(*mesh,U->getShape(),-1); gc.reduce_ghosts(A); } else { GhostCommunicator gc(*mesh,U->getShape(),w); gc.reduce_ghosts(A); }
    publish_state();
    sync([&]{ for(int r=0;r<size;r++){ size_t n; const char* p=(const char*)sim_blob("R",r,0,&n); In in{p,p+n}; uint32_t ng=in.g<uint32_t>(); for(uint32_t g=0;g<ng;g++){ Leaf gl=in.g<Leaf>(); uint64_t k=C.D.sfc(gl); for(auto&f:fs) for(int s=0;s<C.nsub();s++){ double x=in.g<double>(); if(x!=0) sim_cover("probe.contributions",1); auto it=M.F[f].find(k); if(it!=M.F[f].end()) it->second[s]+=x; } } }
      State S=read_state(); check_fields(S,"P06","reduction"); }); }
  void do_neighbors(){ sim_phase("P04"); const LightOctree& lm=mesh->getLightOctree(); Out o; int zz=C.D.dim==3; o.p((uint32_t)mesh->getNumOctants());
    for(uint32_t i=0;i<mesh->getNumOctants();i++) for(int dz=-zz;dz<=zz;dz++) for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++) if(dx||dy||dz){ auto ns=lm.findNeighbors({i,false},{(int8_t)dx,(int8_t)dy,(int8_t)dz}); o.p((char)lm.isBoundary({i,false},{(int8_t)dx,(int8_t)dy,(int8_t)dz})); o.p((uint8_t)ns.size()); for(int k=0;k<ns.size()&&k<4;k++){ o.p((char)ns[k].isGhost); o.p((uint32_t)ns[k].iOct); uint32_t lim=ns[k].isGhost?mesh->getNumGhosts():mesh->getNumOctants(); o.p(ns[k].iOct<lim?leaf(ns[k].iOct,ns[k].isGhost):Leaf{-1,0,0,0}); } }
    for(uint32_t i=0;i<mesh->getNumOctants();i++){ auto c=lm.getCenter({i,false}); auto q=lm.getiOctFromPos(c); o.p((char)(q.iOct==i&&!q.isGhost)); }
    sim_publish("Q",o.s.data(),o.s.size());
    sync([&]{ for(int r=0;r<size&&!stop_run;r++){ size_t n; const char* p=(const char*)sim_blob("Q",r,0,&n); In in{p,p+n}; uint32_t no=in.g<uint32_t>(); std::vector<const ref::Node*> mine; for(auto&x:M.T.m) if(x.second.rank==r) mine.push_back(&x.second);
        if(no!=mine.size()) return;
        for(uint32_t i=0;i<no;i++){ const Leaf& L=mine[i]->leaf; for(int dz=-zz;dz<=zz;dz++) for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++) if(dx||dy||dz){ bool bd=in.g<char>(); int k=in.g<uint8_t>(); std::multiset<std::pair<Leaf,int>> got,want; for(int q=0;q<k&&q<4;q++){ bool gh=in.g<char>(); uint32_t idx=in.g<uint32_t>(); Leaf nl=in.g<Leaf>(); got.insert({nl,gh?-1:(int)idx}); }
            std::vector<const ref::Node*> nb; bool inside=M.T.neighbors(L,dx,dy,dz,nb); if(inside) for(auto x:nb) want.insert({x->leaf,x->rank==r?(int)x->idx:-1}); sim_cover("probe.neighbor_queries",1);
            if(bd==inside&&!stop_run) viol("P04","boundary","rank %d cell %s direction (%d,%d,%d): boundary=%d",r,ref::str(L).c_str(),dx,dy,dz,bd);
            if(got!=want&&!stop_run) viol("P04","neighbors","rank %d cell %s direction (%d,%d,%d): %zu neighbours found (first %s local index %d), expected %zu (first %s local index %d)",r,ref::str(L).c_str(),dx,dy,dz,got.size(),got.empty()?"-":ref::str(got.begin()->first).c_str(),got.empty()?-9:got.begin()->second,want.size(),want.empty()?"-":ref::str(want.begin()->first).c_str(),want.empty()?-9:want.begin()->second); } }
        for(uint32_t i=0;i<no;i++) if(!in.g<char>()&&!stop_run) viol("P04","position-lookup","rank %d: the cell found at the centre of %s is another one",r,ref::str(mine[i]->leaf).c_str()); } }); }
  // particles. identity: attribute "id"
  static std::string aname(long i){ static const char* n[]={"mass","vx","u","beta","id2"}; return n[((i%5)+5)%5]; }
  std::string parr(long i){ return (i&1)?"dust":"particles"; }
  void newpos(uint64_t h,double* pos,const double* old){ for(int d=0;d<3;d++){ if(d==2&&C.D.dim==2){ pos[d]=0; continue; } uint64_t q=ref::mix64(h+d); double t; uint32_t n=C.D.count(d,C.D.lmax); double eps=1e-3/n;
      switch(q%8){ case 0: t=(double)(1+(q>>8)%(n>1?n-1:1))/n; if(n<2) t=0.5; break; // on a cell border
        case 1: t=((q>>8)%n+0.5)/n; break; case 2: t=eps; break; case 3: t=1-eps; break;
        case 4: if(old){ t=(old[d]-C.lo[d])/(C.hi[d]-C.lo[d])+((double)((q>>8)%2001)-1000)/1000.0*1.5/n; break; } [[fallthrough]];
        default: t=((q>>8)%1000003+0.5)/1000003.0; }
      if(C.lo[d]!=0||C.hi[d]!=1||(n&(n-1))) { double f=t*n-std::floor(t*n); if(f<1e-6||f>1-1e-6) t+=0.25/n; }
      if(t<1e-9) t+=1-std::floor(t)-1+ (t<0?0:1e-6); if(t>=1) t-=std::floor(t); if(t<=0) t=0.5/n; if(t>=1) t=1-0.5/n; pos[d]=C.lo[d]+t*(C.hi[d]-C.lo[d]); } }
  void set_attr(const std::string& arr,const std::string& at,uint64_t seed){ if(at=="id"){ return; } auto D=U->getParticleAccessor(arr,{{at,VarIndex(0)},{"id",VarIndex(1)}}); uint32_t n=U->getParticleArray(arr).getNumParticles(); for(uint32_t i=0;i<n;i++) D.at(i,VarIndex(0))=(double)(1+hash_n({seed,hash_s(at),(uint64_t)D.at(i,VarIndex(1))})%1000); if(rank==0) for(auto&p:M.P[arr]) p.second.attr[at]=(double)(1+hash_n({seed,hash_s(at),p.first})%1000); }
  void after_particles(bool placed){ publish_state(); sync([&]{ State S=read_state(); check_particles(S,placed); M.part_version++; }); }
  void do_particles(){ sim_phase("P09"); int what=a(0); uint64_t seed=a(1); std::string arr=parr(a(2)); 
    if(what==0){ if(U->has_ParticleArray(arr)) return; long n=a(3,50); std::vector<uint64_t> mine; int only=(seed%5==0)?(int)(seed/5%size):-1; for(long i=0;i<n;i++){ int r= only>=0?only:(int)(hash_n({seed,3,(uint64_t)i})%size); if(r==rank) mine.push_back(i+1); }
      U->new_ParticleArray(arr,mine.size()); bool first=seed&1; auto mk=[&](const char* s){ U->new_ParticleAttribute(arr,s); }; 
      if(first){ mk("mass"); mk("id"); } else { mk("id"); mk("mass"); }
      auto P=U->getParticleArray(arr); auto D=U->getParticleAccessor(arr,{{"id",VarIndex(0)}}); for(size_t i=0;i<mine.size();i++){ double q[3]; newpos(hash_n({seed,4,mine[i]}),q,nullptr); for(int d=0;d<3;d++) P.pos(i,(ComponentIndex3D)d)=q[d]; D.at(i,VarIndex(0))=(double)mine[i]; }
      if(rank==0) for(long i=0;i<n;i++){ Part p; newpos(hash_n({seed,4,(uint64_t)i+1}),p.pos,nullptr); p.attr["id"]=i+1; p.attr["mass"]=0; M.P[arr][i+1]=p; }
      set_attr(arr,"mass",seed); after_particles(false); U->distributeParticles(arr); after_particles(true); return; }
    if(!U->has_ParticleArray(arr)) return;
    if(what==1){ std::string n=aname(a(3)); if(U->has_ParticleAttribute(arr,n)) return; U->new_ParticleAttribute(arr,n); if(rank==0) for(auto&p:M.P[arr]) p.second.attr[n]=0; after_particles(true); set_attr(arr,n,seed); after_particles(true); }
    else if(what==2){ std::string n=aname(a(3)); if(!U->has_ParticleAttribute(arr,n)) return; U->delete_ParticleAttribute(arr,n); if(rank==0) for(auto&p:M.P[arr]) p.second.attr.erase(n); after_particles(true); }
    else if(what==3){ std::string s=aname(a(3)),d=aname(a(4)); if(s==d||!U->has_ParticleAttribute(arr,s)) return; U->move_ParticleAttribute(arr,d,s); if(rank==0) for(auto&p:M.P[arr]){ double v=p.second.attr[s]; p.second.attr.erase(s); p.second.attr[d]=v; } after_particles(true); }
    else if(what==4){ auto P=U->getParticleArray(arr); auto D=U->getParticleAccessor(arr,{{"id",VarIndex(0)}}); int frac=a(3,50); auto mv=[&](uint64_t id,double* p){ if((long)(hash_n({seed,8,id})%100)<frac){ double q[3]; newpos(hash_n({seed,9,id}),q,p); for(int d=0;d<3;d++) p[d]=q[d]; } };
      for(uint32_t i=0;i<P.getNumParticles();i++){ double p[3]; for(int d=0;d<3;d++) p[d]=P.pos(i,(ComponentIndex3D)d); mv((uint64_t)D.at(i,VarIndex(0)),p); for(int d=0;d<3;d++) P.pos(i,(ComponentIndex3D)d)=p[d]; }
      if(rank==0) for(auto&p:M.P[arr]) mv(p.first,p.second.pos); U->distributeParticles(arr); after_particles(true); }
    else if(what==5){ U->distributeAllParticles(); after_particles(true); }
    else if(what==6) do_deposit(a(3)&1); }
  void do_deposit(int kind){ if(!U->has_ParticleArray("particles")||!U->has_ParticleAttribute("particles","mass")) return;
    sim_phase("P07"); bool had=U->has_field("rho"); if(!had){ U->new_fields({"rho"}); } bool hadg=U->has_field("rho_g"); if(hadg) U->delete_field("rho_g"); U->new_fields({"rho_g"});
    if(rank==0&&!had){ for(auto&p:M.T.m) M.F["rho"][p.first].assign(C.nsub(),0.0); }
    // background density must not be negative or huge: deposit on top of zero
    { auto A=acc({"rho"}); for(uint32_t i=0;i<mesh->getNumOctants();i++) for(int s=0;s<C.nsub();s++) A.at_ivar(cell(i,false,s),0)=0; if(rank==0) for(auto&p:M.F["rho"]) for(auto&v:p.second) v=0; }
    sim_phase("P10"); std::string id=kind?"ParticleUpdate_CIC_density":"ParticleUpdate_NGP_density"; auto up=ParticleUpdateFactory::make_instance(id,*cm,*fc,timers); ScalarSimulationData sd; up->update(*U,sd);
    publish_state(); sim_phase("P07");
    sync([&]{ State S=read_state(); auto G=S.F["rho_g"]; double tot=0,mass=0; long n=0; for(auto&p:M.P["particles"]){ mass+=p.second.attr["mass"]; n++; }
      double vdom=1; for(int d=0;d<3;d++) vdom*=C.hi[d]-C.lo[d]; 
      for(auto&p:M.T.m){ double v=vdom; for(int d=0;d<C.D.dim;d++) v/= (double)C.D.count(d,p.second.leaf.l)*C.b[d]; for(double x:G[p.first]) tot+=x*v; }
      sim_cover(kind?"probe.cic_deposits":"probe.ngp_deposits",n);
      if(std::fabs(tot-mass)>1e-9*(1+mass)) viol("P10","mass","%s: deposited mass %.12g, particles have %.12g (after %s)",id.c_str(),tot,mass,op.c_str());
      else if(M.dep_have&&M.dep_kind==kind&&M.dep_tree==M.tree_version&&M.dep_part==M.part_version){ sim_cover("probe.deposit_repartition",1); double sc=1e-300; for(auto&p:M.dep) for(double x:p.second) sc=std::max(sc,std::fabs(x)); for(auto&p:M.dep) for(int s=0;s<C.nsub();s++) if(!stop_run&&(G[p.first].size()<=(size_t)s||std::fabs(G[p.first][s]-p.second[s])>1e-10*sc)) viol("P10","partition","%s: density in %s sub-cell %d changed from %.15g to %.15g with the partition (after %s)",id.c_str(),ref::str(M.T.m[p.first].leaf).c_str(),s,p.second[s],G[p.first].size()?G[p.first][s]:NAN,op.c_str()); }
      { // expected density of every sub-cell
        std::map<uint64_t,std::vector<double>> E; bool amb=false; long near_fine=0,near_coarse=0,near_edge=0;
        auto add=[&](const Leaf& L,const uint32_t* c,double v){ auto& e=E[C.D.sfc(L)]; e.resize(C.nsub()); e[c[0]-L.x*C.b[0]+C.b[0]*(c[1]-L.y*C.b[1]+C.b[1]*(C.D.dim==3?c[2]-L.z*C.b[2]:0))]+=v; };
        auto leaf_at=[&](int l,const uint32_t* c){ Leaf a{l,c[0]/C.b[0],c[1]/C.b[1],C.D.dim==3?c[2]/C.b[2]:0u}; return a; };
        for(auto&p:M.P["particles"]){ const ref::Node* nd=nullptr; bool b; if(!owner_of(p.second.pos,nd,b)||b){ amb=true; break; } const Leaf& L=nd->leaf; uint32_t lp[3]={L.x,L.y,L.z}; uint32_t c[3]={0,0,0}; double q[3]={0,0,0}; double v=vdom;
          for(int d=0;d<C.D.dim;d++){ double t=(p.second.pos[d]-C.lo[d])/(C.hi[d]-C.lo[d])*C.D.count(d,L.l)*C.b[d]; double fl=std::floor(t); uint64_t ncell=(uint64_t)C.D.count(d,L.l)*C.b[d]; if((t-fl<1e-6||fl+1-t<1e-6)&&(t!=fl||(ncell&(ncell-1))||C.lo[d]!=0||C.hi[d]!=1)) amb=true; /* a position on a face is only exact on a power-of-two grid */ long s=(long)fl-(long)(lp[d]*C.b[d]); if(s<0||s>=(long)C.b[d]) amb=true; c[d]=(uint32_t)fl; q[d]=t-fl-0.5; v/=(double)C.D.count(d,L.l)*C.b[d]; }
          if(amb) break; double m=p.second.attr["mass"];
          if(kind==0){ add(L,c,m/v); continue; }
          for(int k=0;k<(1<<C.D.dim);k++){ double f=1; uint32_t n[3]={c[0],c[1],c[2]}; int o[3]={0,0,0}; bool out=false; int nb=0; for(int d=0;d<C.D.dim;d++){ double w=std::fabs(q[d]); if(k>>d&1){ f*=w; o[d]=q[d]>=0?1:-1; nb++; long N=(long)C.D.count(d,L.l)*C.b[d], x=(long)c[d]+o[d]; if(x<0||x>=N){ if(!C.D.per[d]) out=true; x=(x+N)%N; } n[d]=(uint32_t)x; } else f*=1-w; }
            if(out){ add(L,c,m*f/v); near_edge++; continue; }
            Leaf a=leaf_at(L.l,n); const ref::Node* t=M.T.find(a);
            if(t){ add(a,n,m*f/v); continue; }
            Leaf up=C.D.parent(a); if(L.l>0&&M.T.find(up)){ uint32_t h[3]={n[0]/2,n[1]/2,n[2]/2}; add(up,h,m*f/v/C.D.nchild()); near_coarse++; continue; }
            near_fine++; for(int j=0;j<C.D.nchild();j++){ uint32_t h[3]={0,0,0}; bool use=true; for(int d=0;d<C.D.dim;d++){ int bit=j>>d&1; if(o[d]==1&&bit) use=false; if(o[d]==-1&&!bit) use=false; h[d]=2*n[d]+bit; } if(use) add(leaf_at(L.l+1,h),h,m*f/v*(1<<nb)); } } }
        if(amb) sim_cover("probe.deposit_ambiguous",1); else { sim_cover("probe.cic_to_finer",near_fine); sim_cover("probe.cic_to_coarser",near_coarse); sim_cover("probe.cic_at_domain_border",near_edge);
          double esc=1; for(auto&p:E) for(double x:p.second) esc=std::max(esc,std::fabs(x)); for(auto&p:M.T.m) for(int s=0;s<C.nsub();s++){ double e=E.count(p.first)?E[p.first][s]:0; if(!stop_run&&std::fabs(G[p.first][s]-e)>1e-9*esc) viol("P10","cell","%s: density %.15g in %s sub-cell %d, the particles give %.15g (after %s)",id.c_str(),G[p.first][s],ref::str(p.second.leaf).c_str(),s,e,op.c_str()); } } }
      M.dep_have=true; M.dep_kind=kind; M.dep_tree=M.tree_version; M.dep_part=M.part_version; M.dep=G; });
    U->delete_field("rho_g"); }
  // ------------------------------------------------------------ set up
  int main(){
    rank=sim_rank(); size=sim_size(); C.D.dim=sim_param_i("dim",2); C.D.lmin=sim_param_i("lmin",1); C.D.lmax=sim_param_i("lmax",4);
    uint32_t full=1u<<C.D.lmin; C.D.coarse[0]=sim_param_i("cx",full); C.D.coarse[1]=sim_param_i("cy",full); C.D.coarse[2]=C.D.dim==3?sim_param_i("cz",full):1;
    long per=sim_param_i("periodic",0); for(int d=0;d<3;d++) C.D.per[d]=per>>d&1; if(C.D.dim==2) C.D.per[2]=sim_param_i("perz",0);
    C.b[0]=sim_param_i("bx",4); C.b[1]=sim_param_i("by",4); C.b[2]=C.D.dim==3?sim_param_i("bz",4):1;
    if(sim_param_i("scaled",0)){ C.lo[0]=-1.5; C.hi[0]=2.75; C.lo[1]=10; C.hi[1]=10.5; if(C.D.dim==3){ C.lo[2]=-3; C.hi[2]=4; } }
    if(const char* w=sim_param("watch")){ std::stringstream ss(w); std::string t; while(std::getline(ss,t,',')) watch.insert(t); }
    std::ostringstream ini; ini.precision(17); ini<<"[mesh]\nndim="<<C.D.dim<<"\nxmin="<<C.lo[0]<<"\nxmax="<<C.hi[0]<<"\nymin="<<C.lo[1]<<"\nymax="<<C.hi[1]<<"\nzmin="<<C.lo[2]<<"\nzmax="<<C.hi[2]<<"\n[amr]\nbx="<<C.b[0]<<"\nby="<<C.b[1]<<"\nbz="<<C.b[2]<<"\n[gravity]\n";
    cm.reset(new ConfigMap(ini.str())); sim_phase("P01");
    mesh.reset(new AMRmesh(C.D.dim,C.D.dim,std::array<bool,3>{C.D.per[0],C.D.per[1],C.D.per[2]},(uint8_t)C.D.lmin,(uint8_t)C.D.lmax,Kokkos::Array<uint32_t,3>{C.D.coarse[0],C.D.coarse[1],C.D.coarse[2]}));
    fc.reset(new ForeachCell(*mesh,*cm)); U.reset(new UserData(*cm,*fc)); mapper=MapUserDataFactory::make_instance("MapUserData_mean",*cm,*fc,timers);
    op="start"; U->new_fields({"a","f"}); fill("a",1); fill("f",1); publish_state();
    sync([&]{ State S=read_state(); ref::Tree T; if(!check_mesh(S,T)){ stop_run=true; return; } for(auto&p:T.m) if(p.second.leaf.l!=C.D.lmin){ viol("P01","initial","initial mesh has %s",ref::str(p.second.leaf).c_str()); break; }
      M.T=T; M.F=S.F; take_counts(S); count_states(S); });
    std::string ops=sim_param("ops")?sim_param("ops"):""; std::stringstream ss(ops); 
    while(!stop_run&&std::getline(ss,op,';')){ if(op.empty()) continue; arg.clear(); { std::stringstream as(op); std::string t; std::getline(as,t,':'); while(std::getline(as,t,':')) arg.push_back(atol(t.c_str())); }
      opi++; sim_cover((std::string("op.")+op[0]).c_str(),rank==0);
      switch(op[0]){ case 'A': do_adapt(false); break; case 'G': if(sim_param_i("max_cells",4000)>(long)mesh->getGlobalNumOctants()*C.D.nchild()){ bool ok=true; if(rank==0){ for(auto&p:M.T.m) if(p.second.leaf.l>=C.D.lmax) ok=false; } char c=ok; if(rank==0) sim_publish("K",&c,1); sim_barrier(nullptr,nullptr); size_t n; c=*(const char*)sim_blob("K",0,0,&n); sim_barrier(nullptr,nullptr); if(rank==0) sim_clear_blobs("K"); if(c) do_adapt(true); } break;
        case 'L': do_balance(); break; case 'N': case 'V': case 'D': case 'F': do_fields(); break; case 'X': do_exchange(); break; case 'R': do_reduce(); break; case 'Q': do_neighbors(); break; case 'P': do_particles(); break; }
    }
    sim_phase("end"); return 0; }
};
}
int workload_mesh(){
  char a0[]="dyablo"; char* av[]={a0,nullptr}; int ac=1; char** pv=av; (void)pv;
  DyabloSession session(ac,pv); int rc; { World* w=new World; rc=w->main(); delete w; } return rc; }
