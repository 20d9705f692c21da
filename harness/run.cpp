// Plugins for the workload "main" (the real dyablo main program, configured by a parameter file):
//   output/backend, output/checkpoint : dsim_hdf5, dsim_checkpoint (record the state, then call the real class), dsim_dump (record only)
//   dt/dt_kernel                      : dsim_dt    (first in the list: records the step, never limits it)
//   amr/markers_kernel                : dsim_hash  (refinement requests that are a function of cell and iteration only)
//   run/initial_conditions            : dsim_random, dsim_particles
//   gravity/solver                    : dsim_gravity (uniform field), dsim_cg (GravitySolver_cg, recorded)
// Everything is recorded outside the simulated disk, with direct system calls, so that no injected fault can touch the record.
#include "sim_api.h"
#include "model.h"
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <sstream>
#include "amr/AMRmesh.h"
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"
#include "ScalarSimulationData.h"
#include "utils/monitoring/Timers.h"
#include "utils/config/ConfigMap.h"
#include "io/IOManager.h"
#include "io/IOManager_base.h"
#include "compute_dt/Compute_dt_base.h"
#include "refine_condition/RefineCondition_base.h"
#include "init/InitialConditions_base.h"
#include "particles/ForeachParticle.h"
#include "gravity/GravitySolver_base.h"
using ref::hash_n;
namespace dyablo { namespace dsim {
typedef long double ld;
static void put(const std::string& name,const std::string& d,bool append){ const char* dir=sim_param("dump_dir"); if(!dir) return; std::string p=std::string(dir)+"/"+name;
  int fd=syscall(SYS_openat,AT_FDCWD,p.c_str(),O_WRONLY|O_CREAT|(append?O_APPEND:O_TRUNC),0644); if(fd<0){ fprintf(stderr,"SIM-HARNESS-ERROR: cannot record in %s\n",p.c_str()); abort(); }
  size_t o=0; while(o<d.size()){ ssize_t w=syscall(SYS_write,fd,d.data()+o,d.size()-o); if(w<=0){ fprintf(stderr,"SIM-HARNESS-ERROR: cannot record in %s\n",p.c_str()); abort(); } o+=w; } syscall(SYS_close,fd); }
static void log(const char* f,...) __attribute__((format(printf,1,2)));
static void log(const char* f,...){ va_list a; va_start(a,f); char b[1200]; vsnprintf(b,sizeof b,f,a); va_end(a); put("log."+std::to_string(sim_rank()),std::string(b)+"\n",true); sim_note("%s",b); }
struct Bin { std::string s; template<class T> void p(const T& v){ s.append((const char*)&v,sizeof v); } void str(const std::string& x){ p((uint32_t)x.size()); s+=x; } };
static ref::Leaf leaf(AMRmesh& m,uint32_t i){ auto c=m.getCoordinates(i); auto s=m.getSize(i); return {(int)m.getLevel(i),(uint32_t)std::llround(c[0]/s[0]),(uint32_t)std::llround(c[1]/s[1]),m.getDim()==3?(uint32_t)std::llround(c[2]/s[2]):0u}; }
static ForeachCell::CellIndex cell(ForeachCell& fc,uint32_t iOct,uint32_t s){ uint32_t b[3]={fc.blockSize()[IX],fc.blockSize()[IY],fc.blockSize()[IZ]}; return ForeachCell::CellIndex{ {iOct,false}, s%b[0],(s/b[0])%b[1],s/(b[0]*b[1]), b[0],b[1],b[2] }; }
static uint32_t nsub(ForeachCell& fc){ return fc.blockSize()[IX]*fc.blockSize()[IY]*fc.blockSize()[IZ]; }
static UserData::FieldAccessor acc(const UserData& U,const std::vector<std::string>& n){ std::vector<UserData::FieldAccessor::FieldInfo> v; int i=0; for(auto&s:n) v.push_back({s,VarIndex(i++)}); return U.getAccessor(v); }
static double sc(ScalarSimulationData& d,const char* n){ double r=0; d.foreach_var([&](const std::string& k,auto v){ if(k==n) r=(double)v; }); return r; }
static void dump(const char* kind,int seq,ForeachCell& fc,const UserData& U,ScalarSimulationData& sd){
  AMRmesh& m=fc.get_amr_mesh(); Bin o; uint32_t n=m.getNumOctants(), ns=nsub(fc); o.p((int32_t)sd.get<int>("iter")); o.p((double)sd.get<real_t>("time")); o.p(sc(sd,"dt")); o.p((uint32_t)m.getDim()); for(int d=0;d<3;d++) o.p((uint32_t)fc.blockSize()[d]); o.p(n);
  auto es=U.getEnabledFields(); std::vector<std::string> fs(es.begin(),es.end()); o.p((uint32_t)fs.size()); for(auto&f:fs) o.str(f);
  for(uint32_t i=0;i<n;i++){ auto l=leaf(m,i); o.p((uint32_t)l.l); o.p(l.x); o.p(l.y); o.p(l.z); }
  if(!fs.empty()){ auto A=acc(U,fs); for(uint32_t i=0;i<n;i++) for(size_t v=0;v<fs.size();v++) for(uint32_t s=0;s<ns;s++) o.p((double)A.at_ivar(cell(fc,i,s),v)); }
  auto pa=U.getEnabledParticleArrays(); o.p((uint32_t)pa.size());
  for(auto&a:pa){ o.str(a); auto P=U.getParticleArray(a); uint32_t np=P.getNumParticles(); auto at=U.getEnabledParticleAttributes(a); o.p(np); o.p((uint32_t)at.size()); for(auto&x:at) o.str(x);
    for(uint32_t i=0;i<np;i++) for(int d=0;d<3;d++) o.p((double)P.pos(i,(ComponentIndex3D)d));
    for(auto&x:at){ auto D=U.getParticleAccessor(a,{{x,VarIndex(0)}}); for(uint32_t i=0;i<np;i++) o.p((double)D.at_ivar(i,0)); } }
  uint64_t h=1469598103934665603ull; for(unsigned char c:o.s){ h^=c; h*=1099511628211ull; } sim_note("dump %s %d %016lx",kind,seq,(unsigned long)h);
  char b[64]; snprintf(b,sizeof b,"d.%s.%d.%d",kind,seq,sim_rank()); put(b,o.s,false); }
// totals over the owned cells, in units of a cell of the coarsest level; smallest density and pressure; largest signal speed / cell size
static std::string totals(ForeachCell& fc,const UserData& U,ConfigMap* cm,double gamma,const double* L){
  AMRmesh& m=fc.get_amr_mesh(); int lmin=m.get_level_min(), dim=m.getDim(); if(!U.has_field("rho")||!U.has_field("e_tot")) return "none";
  bool mhd=U.has_field("Bx"); std::vector<std::string> n={"rho","rho_vx","rho_vy","rho_vz","e_tot"}; if(mhd) for(auto s:{"Bx","By","Bz"}) n.push_back(s);
  auto A=acc(U,n); ld t[8]={0,0,0,0,0,0,0,0}, ab[8]={0,0,0,0,0,0,0,0}; double minr=1e300,minp=1e300,inv=0; bool fin=true; auto cg=m.get_coarse_grid_size();
  for(uint32_t i=0;i<m.getNumOctants();i++){ int l=m.getLevel(i); ld w=std::ldexp((ld)1,-dim*(l-lmin)); for(uint32_t s=0;s<nsub(fc);s++){ auto c=cell(fc,i,s); double u[8]={0}; for(size_t v=0;v<n.size();v++){ u[v]=A.at_ivar(c,v); if(!std::isfinite(u[v])) fin=false; t[v]+=w*u[v]; ab[v]+=w*std::fabs(u[v]); }
      double r=u[0], k=(u[1]*u[1]+u[2]*u[2]+u[3]*u[3])/(2*r), b2=mhd?u[5]*u[5]+u[6]*u[6]+u[7]*u[7]:0, p=(gamma-1)*(u[4]-k-b2/2); minr=std::min(minr,r); minp=std::min(minp,p);
      double cs=std::sqrt(gamma*p/r), x=0; double dx[3]; for(int d=0;d<dim;d++){ dx[d]=L[d]/((double)cg[d]*(1u<<(l-lmin))*fc.blockSize()[d]); x+=(cs+std::fabs(u[1+d]/r))/dx[d]; } inv=std::max(inv,x);
      if(mhd) for(int d=0;d<dim;d++){ double g=gamma*p, bt=b2-u[5+d]*u[5+d], cf=std::sqrt(0.5*(g+b2+std::sqrt((g-b2)*(g-b2)+4*g*bt))/r); inv=std::max(inv,(std::fabs(u[1+d]/r)+cf)/dx[d]); } } }
  double pinv=0; if(U.has_ParticleArray("particles")&&U.has_ParticleAttribute("particles","vx")&&U.has_ParticleAttribute("particles","vy")&&U.has_ParticleAttribute("particles","vz")){ // fastest particle with the size of its smallest possible cell: only used as a one-sided bound
      auto D=U.getParticleAccessor("particles",{{"vx",VarIndex(0)},{"vy",VarIndex(1)},{"vz",VarIndex(2)}}); auto P=U.getParticleArray("particles"); for(uint32_t i=0;i<P.getNumParticles();i++){ double v=0; for(int d=0;d<dim;d++) v+=std::pow((double)D.at_ivar(i,d),2); pinv=std::max(pinv,std::sqrt(v)); } }
  (void)cm; char b[900]; int q=snprintf(b,sizeof b,"%d %a %a %a %a",(int)fin,minr,minp,inv,pinv); for(int v=0;v<8;v++) q+=snprintf(b+q,sizeof b-q," %a %a",(double)t[v],(double)ab[v]); return b; }
struct Dom { double L[3]; double gamma; Dom(ConfigMap& c){ const char* lo[3]={"xmin","ymin","zmin"}; const char* hi[3]={"xmax","ymax","zmax"}; for(int d=0;d<3;d++) L[d]=c.getValue<real_t>("mesh",hi[d],1.0)-c.getValue<real_t>("mesh",lo[d],0.0); gamma=c.getValue<real_t>("hydro","gamma0",1.4); } };

template<int KIND> class IO : public IOManager { // 0 output+hdf5, 1 checkpoint, 2 dump as output, 3 dump as checkpoint
  ForeachCell& fc; std::unique_ptr<IOManager> real; Dom D; int seq=0;
public:
  IO(ConfigMap& c,ForeachCell& f,Timers& t):fc(f),D(c){ if(KIND==0) real=IOManagerFactory::make_instance("IOManager_hdf5",c,f,t); if(KIND==1) real=IOManagerFactory::make_instance("IOManager_checkpoint",c,f,t); }
  void save_snapshot(const UserData& U,ScalarSimulationData& sd) override { const char* k= KIND%2?"chk":"out"; int it=sd.get<int>("iter"); double t=sd.get<real_t>("time");
    log("B %s %d %d %a %u %s",k,seq,it,t,(unsigned)fc.get_amr_mesh().getNumOctants(),totals(fc,U,nullptr,D.gamma,D.L).c_str()); dump(k,seq,fc,U,sd); sim_phase(k); if(real) real->save_snapshot(U,sd); sim_phase("loop"); log("E %s %d %d %a",k,seq,it,t); seq++; } };
class Dt : public Compute_dt { ForeachCell& fc; Dom D; double fixed; public: Dt(ConfigMap& c,ForeachCell& f,Timers&):fc(f),D(c),fixed(c.getValue<real_t>("dsim","fixed_dt",std::numeric_limits<real_t>::max())){}
  void compute_dt(const UserData& U,ScalarSimulationData& sd) override { sim_phase("loop"); log("S %d %a %a %u %s %lu",sd.get<int>("iter"),(double)sd.get<real_t>("time"),sc(sd,"dt"),(unsigned)fc.get_amr_mesh().getNumOctants(),totals(fc,U,nullptr,D.gamma,D.L).c_str(),(unsigned long)sim_ops()); sd.set<real_t>("dt",fixed); } };
// the same set-up seen in another coordinate system: axis e of this run is axis perm[e] of the original, seen backwards if flip has bit e, then moved by shift_e blocks of the coarse grid
struct View { int perm[3],flip,sh[3]; View(ConfigMap& c){ int p=c.getValue<int>("dsim","perm",12); perm[0]=p/100; perm[1]=p/10%10; perm[2]=p%10; flip=c.getValue<int>("dsim","flip",0); const char* n[3]={"shift_x","shift_y","shift_z"}; for(int e=0;e<3;e++) sh[e]=c.getValue<int>("dsim",n[e],0); }
  void cells(AMRmesh& m,int l,const uint32_t q[3],const uint32_t b[3],uint32_t out[3])const{ auto cg=m.get_coarse_grid_size(); out[0]=out[1]=out[2]=0; for(int e=0;e<m.getDim();e++){ long k=(long)b[e]<<(l-m.get_level_min()), n=(long)cg[e]*k, t=(((long)q[e]-sh[e]*k)%n+n)%n; if(flip>>e&1) t=n-1-t; out[perm[e]]=t; } }
  ref::Leaf leaf(AMRmesh& m,ref::Leaf a)const{ uint32_t one[3]={1,1,1},q[3]={a.x,a.y,a.z},p[3]; cells(m,a.l,q,one,p); a.x=p[0]; a.y=p[1]; a.z=p[2]; return a; }
  double sign(int e)const{ return flip>>e&1?-1:1; } };
// requests: mode 0 independent per cell, 1 ball that moves with the iteration, 2 by block of siblings
struct Marks { View V; bool flat; uint64_t seed; int mode,pr,pc; /* flat: the third axis is ignored */ Marks(ConfigMap& c):V(c),flat(c.getValue<bool>("dsim","flat",false)),seed(c.getValue<int>("dsim","refine_seed",1)),mode(c.getValue<int>("dsim","refine_mode",1)),pr(c.getValue<int>("dsim","refine_percent",10)),pc(c.getValue<int>("dsim","coarsen_percent",40)){}
  int operator()(AMRmesh& m,const ref::Leaf& a0,int iter)const{ ref::Leaf a=V.leaf(m,a0); int dim=m.getDim(), lmin=m.get_level_min(), lmax=m.get_level_max(); if(flat){ dim=2; a.z=0; } int r=0; auto cv=m.get_coarse_grid_size(); uint32_t cg[3]; for(int e=0;e<3;e++) cg[V.perm[e]]=cv[e]; uint32_t p[3]={a.x,a.y,a.z};
    auto u=[&](uint64_t salt,int sh){ return (int)(hash_n({seed,salt,(uint64_t)iter,(uint64_t)a.l,(uint64_t)(a.x>>sh),(uint64_t)(a.y>>sh),(uint64_t)(a.z>>sh)})%100); };
    if(mode==1){ double d2=0; for(int d=0;d<dim;d++){ double c=(hash_n({seed,7,(uint64_t)d})%1000)/1000.0+iter*0.07*(d+1), x=(p[d]+0.5)/((double)cg[d]*(1u<<(a.l-lmin)))-c; x-=std::round(x); d2+=x*x; } double w=std::sqrt(d2); r= w<pr/100.0?1: w>pr/100.0+0.12?-1:0; }
    else if(mode==2){ if(u(1,1)<pr) r=1; else if(u(2,1)<pc) r=-1; } else { if(u(1,0)<pr) r=1; else if(u(2,1)<pc) r=-1; }
    if(r==1&&a.l>=lmax) r=0; if(r==-1&&a.l<=lmin) r=0; return r; } };
class Refine : public RefineCondition { ForeachCell& fc; Marks M; public: Refine(ConfigMap& c,ForeachCell& f,Timers&):fc(f),M(c){}
  void mark_cells(UserData&,ScalarSimulationData& sd) override { AMRmesh& m=fc.get_amr_mesh(); int it=sd.get<int>("iter"); log("M %d",it); for(uint32_t i=0;i<m.getNumOctants();i++) m.setMarker(i,M(m,leaf(m,i),it)); } };
// random or wavy state on a randomly refined mesh
class Init : public InitialConditions { ForeachCell& fc; Marks M; Dom D; ConfigMap& cm; public: Init(ConfigMap& c,ForeachCell& f,Timers&):fc(f),M(c),D(c),cm(c){}
  void init(UserData& U) override { AMRmesh& m=fc.get_amr_mesh(); int lmin=m.get_level_min(),lmax=m.get_level_max(),dim=M.flat?2:m.getDim(); int mode=cm.getValue<int>("dsim","state_mode",0); double amp=cm.getValue<real_t>("dsim","state_amp",0.3); double drift=cm.getValue<real_t>("dsim","drift",0); int bzero=cm.getValue<int>("dsim","bzero",0); /* a uniform velocity added to the gas; components without magnetic field */ int still=cm.getValue<int>("dsim","still",0), qd=cm.getValue<int>("dsim","quiet_dir",-1), qs=cm.getValue<int>("dsim","quiet_side",0); double qf=cm.getValue<real_t>("dsim","quiet_from",0.25); /* beyond this distance from the wall opposite to quiet_side the gas is uniform and at rest */ bool mhd=cm.getValue<std::string>("hydro","update","HydroUpdate_hancock").find("MHD")!=std::string::npos, glm=cm.getValue<std::string>("hydro","update","HydroUpdate_hancock").find("GLM")!=std::string::npos;
    for(int l=lmin;l<lmax;l++){ for(uint32_t i=0;i<m.getNumOctants();i++) if(M(m,leaf(m,i),-1-l)==1) m.setMarker(i,1); m.adapt(); if(cm.getValue<bool>("dsim","init_balance",true)) m.loadBalance(); }
    std::vector<std::string> n={"rho","rho_vx","rho_vy","rho_vz","e_tot"}; if(mhd) for(auto s:{"Bx","By","Bz"}) n.push_back(s); if(glm) n.push_back("psi"); U.new_fields(std::set<std::string>(n.begin(),n.end())); auto A=acc(U,n); auto cv=m.get_coarse_grid_size(); uint32_t bv[3]={fc.blockSize()[0],fc.blockSize()[1],fc.blockSize()[2]},b[3],cg[3]; const View& V=M.V; for(int e=0;e<3;e++){ b[V.perm[e]]=bv[e]; cg[V.perm[e]]=cv[e]; }
    for(uint32_t i=0;i<m.getNumOctants();i++){ auto a0=leaf(m,i), a=V.leaf(m,a0); for(uint32_t s0=0;s0<nsub(fc);s0++){ uint32_t o[3]={a0.x*bv[0]+s0%bv[0],a0.y*bv[1]+(s0/bv[0])%bv[1],a0.z*bv[2]+s0/(bv[0]*bv[1])}, g[3]; V.cells(m,a.l,o,bv,g); if(M.flat){ g[2]=0; a.z=0; } uint32_t s=g[0]%b[0]+b[0]*(g[1]%b[1]+b[1]*(g[2]%b[2])); double x[3]={0,0,0}; for(int d=0;d<dim;d++) x[d]=(g[d]+0.5)/((double)cg[d]*(1u<<(a.l-lmin))*b[d]);
        double v[9]; for(int k=0;k<9;k++){ uint64_t h=hash_n({M.seed,(uint64_t)k,99}); if(mode==0){ double z=0; for(int d=0;d<dim;d++) z+=std::sin(2*M_PI*((1+(h>>(4*d))%2)*x[d]+(h>>(16+8*d))%256/256.0)); v[k]=z/dim; } else if(mode==1) v[k]=(double)(hash_n({h,(uint64_t)a.l,a.x,a.y,a.z,s})>>40)/(1<<23)-1; else v[k]=(double)(hash_n({h,(uint64_t)a.l,a.x,a.y,a.z})>>40)/(1<<23)-1; }
        if(mode==3) for(int k=0;k<9;k++) v[k]=k>=2&&k<=4&&(still>>(k-2)&1)?0:(double)(hash_n({M.seed,(uint64_t)k,77})>>40)/(1<<23)-1; // one uniform flow; at rest along the axes of "still"
        if(qd>=0&&(qs?x[qd]>qf:x[qd]<1-qf)) for(auto& z:v) z=0;
        double rho=1+amp*v[0], pr=1+amp*v[1], vel[3]={amp*v[2],amp*v[3],dim==3?amp*v[4]:0}, B[3]={mhd?amp*v[5]:0,mhd?amp*v[6]:0,mhd?amp*v[7]:0}; for(int d=0;d<3;d++){ if(d<dim&&!(still>>d&1)) vel[d]+=drift*((double)(hash_n({M.seed,(uint64_t)d,55})>>40)/(1<<23)-1); if(bzero>>d&1) B[d]=0; } auto c=cell(fc,i,s0); A.at_ivar(c,0)=rho; double k=0,bb=0; for(int d=0;d<3;d++){ k+=rho*vel[d]*vel[d]/2; bb+=B[d]*B[d]/2; } for(int e=0;e<3;e++){ A.at_ivar(c,1+e)=V.sign(e)*(rho*vel[V.perm[e]]); if(mhd) A.at_ivar(c,5+e)=V.sign(e)*B[V.perm[e]]; } A.at_ivar(c,4)=pr/(D.gamma-1)+k+bb; if(glm) A.at_ivar(c,8)=0; } } } };
class Particles : public InitialConditions { ConfigMap& cm; public: Particles(ConfigMap& c,ForeachCell&,Timers&):cm(c){}
  void init(UserData& U) override { uint64_t seed=cm.getValue<int>("dsim","particle_seed",1); uint32_t n=cm.getValue<int>("dsim","particles",20); double vmax=cm.getValue<real_t>("dsim","particle_velocity",0.5), mass=cm.getValue<real_t>("dsim","particle_mass",0.01); const char* lo[3]={"xmin","ymin","zmin"}; const char* hi[3]={"xmax","ymax","zmax"}; int dim=cm.getValue<int>("mesh","ndim",3); bool flat=cm.getValue<bool>("dsim","flat",false);
    View V(cm); uint32_t cg[3]; const char* cn[3]={"coarse_oct_resolution_x","coarse_oct_resolution_y","coarse_oct_resolution_z"}; for(int e=0;e<3;e++) cg[e]=cm.getValue<int>("amr",cn[e],1<<cm.getValue<int>("amr","level_min",5)); // every rank reads every parameter: each of them records what was read
    U.new_ParticleArray("particles",sim_rank()==0?n:0); for(auto s:{"vx","vy","vz","mass","id"}) U.new_ParticleAttribute("particles",s);
    if(sim_rank()==0){ auto P=U.getParticleArray("particles"); auto D=U.getParticleAccessor("particles",{{"vx",VarIndex(0)},{"vy",VarIndex(1)},{"vz",VarIndex(2)},{"mass",VarIndex(3)},{"id",VarIndex(4)}}); auto r=[&](uint32_t i,int k){ return (double)(hash_n({seed,(uint64_t)i,(uint64_t)k})>>11)*(1.0/9007199254740992.0); };
      for(uint32_t i=0;i<n;i++){ for(int e=0;e<3;e++){ int d=V.perm[e]; double a=cm.getValue<real_t>("mesh",lo[e],0.0), b=cm.getValue<real_t>("mesh",hi[e],1.0), x=r(i,d); if(V.flip>>e&1) x=1-x; if(V.sh[e]){ x+=V.sh[e]/(double)cg[e]; x-=std::floor(x); } P.pos(i,(ComponentIndex3D)e)= a+(b-a)*(e<dim?x:0); D.at_ivar(i,e)= e<dim&&!(flat&&e==2)? V.sign(e)*((2*r(i,3+d)-1)*vmax*(b-a)):0; } D.at_ivar(i,3)=mass*(0.5+r(i,7)); D.at_ivar(i,4)=i; } }
    U.distributeParticles("particles"); } };
// the same acceleration in every cell
class Gravity : public GravitySolver { ForeachCell& fc; double g[3]; public: Gravity(ConfigMap& c,ForeachCell& f,Timers&):fc(f){ g[0]=c.getValue<real_t>("dsim","gx",0.25); g[1]=c.getValue<real_t>("dsim","gy",-0.5); g[2]=f.getDim()==3?c.getValue<real_t>("dsim","gz",0.75):0; }
  void update_gravity_field(UserData& U,ScalarSimulationData&) override { auto A=acc(U,{"gx","gy","gz"}); for(uint32_t i=0;i<fc.get_amr_mesh().getNumOctants();i++) for(uint32_t s=0;s<nsub(fc);s++) for(int d=0;d<3;d++) A.at_ivar(cell(fc,i,s),d)=g[d]; } };
// the real iterative solver, with the state recorded right after it
class Cg : public GravitySolver { ForeachCell& fc; std::unique_ptr<GravitySolver> real; int seq=0; public: Cg(ConfigMap& c,ForeachCell& f,Timers& t):fc(f),real(GravitySolverFactory::make_instance("GravitySolver_cg",c,f,t)){}
  void update_gravity_field(UserData& U,ScalarSimulationData& sd) override { sim_phase("gravity"); real->update_gravity_field(U,sd); sim_phase("loop"); int it=sd.get<int>("iter"); double t=sd.get<real_t>("time"); log("B grv %d %d %a %u none",seq,it,t,(unsigned)fc.get_amr_mesh().getNumOctants()); dump("grv",seq,fc,U,sd); log("E grv %d %d %a",seq,it,t); seq++; } };
using IO_hdf5=IO<0>; using IO_chk=IO<1>; using IO_dump=IO<2>; using IO_dumpchk=IO<3>;
}}
FACTORY_REGISTER( dyablo::IOManagerFactory, dyablo::dsim::IO_hdf5, "dsim_hdf5" );
FACTORY_REGISTER( dyablo::IOManagerFactory, dyablo::dsim::IO_chk, "dsim_checkpoint" );
FACTORY_REGISTER( dyablo::IOManagerFactory, dyablo::dsim::IO_dump, "dsim_dump" );
FACTORY_REGISTER( dyablo::IOManagerFactory, dyablo::dsim::IO_dumpchk, "dsim_dumpchk" );
FACTORY_REGISTER( dyablo::Compute_dtFactory, dyablo::dsim::Dt, "dsim_dt" );
FACTORY_REGISTER( dyablo::RefineConditionFactory, dyablo::dsim::Refine, "dsim_hash" );
FACTORY_REGISTER( dyablo::InitialConditionsFactory, dyablo::dsim::Init, "dsim_random" );
FACTORY_REGISTER( dyablo::InitialConditionsFactory, dyablo::dsim::Particles, "dsim_particles" );
FACTORY_REGISTER( dyablo::GravitySolverFactory, dyablo::dsim::Gravity, "dsim_gravity" );
FACTORY_REGISTER( dyablo::GravitySolverFactory, dyablo::dsim::Cg, "dsim_cg" );
