// Reference model: the global mesh as a sorted map of leaves, with field values and particles. Single copy, sequential, no MPI.
#pragma once
#include <cstdint>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
namespace ref {
inline uint64_t mix64(uint64_t z){ z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
inline uint64_t hash_n(std::initializer_list<uint64_t> l){ uint64_t h=0x1234567; for(uint64_t v:l) h=mix64(h^mix64(v)); return h; }
inline uint64_t hash_s(const std::string& s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return mix64(h); }
struct Leaf { int l; uint32_t x,y,z; bool operator==(const Leaf&o)const{return l==o.l&&x==o.x&&y==o.y&&z==o.z;} bool operator<(const Leaf&o)const{ return std::tie(l,x,y,z)<std::tie(o.l,o.x,o.y,o.z);} };
inline std::string str(const Leaf& a){ char b[80]; snprintf(b,sizeof b,"(level %d at %u,%u,%u)",a.l,a.x,a.y,a.z); return b; }
struct Domain {
  int dim=2,lmin=1,lmax=3; uint32_t coarse[3]={2,2,1}; bool per[3]={0,0,0};
  uint32_t count(int d,int l)const{ if(d==2&&dim==2) return 1; return l>=lmin? coarse[d]<<(l-lmin) : (coarse[d]+(1u<<(lmin-l))-1)>>(lmin-l); }
  uint64_t sfc(const Leaf& a)const{ int s=lmax-a.l; uint64_t k=0; uint64_t X=(uint64_t)a.x<<s,Y=(uint64_t)a.y<<s,Z=(uint64_t)a.z<<s; for(int b=0;b<20;b++) k|=((X>>b&1)<<(3*b))|((Y>>b&1)<<(3*b+1))|((Z>>b&1)<<(3*b+2)); return k; }
  uint64_t span(int l)const{ return 1ull<<(3*(lmax-l)); }
  uint64_t vol(int l)const{ return 1ull<<(dim*(lmax-l)); }
  bool inside(const Leaf& a)const{ return a.x<count(0,a.l)&&a.y<count(1,a.l)&&a.z<count(2,a.l); }
  Leaf parent(const Leaf& a)const{ return {a.l-1,a.x>>1,a.y>>1,a.z>>1}; }
  int nchild()const{ return 1<<dim; }
  Leaf child(const Leaf& a,int j)const{ return {a.l+1,a.x*2+(j&1),a.y*2+(j>>1&1),dim==3?a.z*2+(j>>2&1):0u}; }
  // same-size virtual neighbour; false if outside the domain
  bool neighbor(const Leaf& a,int dx,int dy,int dz,Leaf& n)const{
    int64_t p[3]={(int64_t)a.x+dx,(int64_t)a.y+dy,(int64_t)a.z+dz}; 
    for(int d=0;d<3;d++){ int64_t c=count(d,a.l); if(p[d]<0||p[d]>=c){ if(!per[d]) return false; p[d]=(p[d]+c)%c; } }
    n={a.l,(uint32_t)p[0],(uint32_t)p[1],(uint32_t)p[2]}; return true; }
};
struct Node { Leaf leaf; int rank=-1; uint32_t idx=0; };
struct Tree {
  Domain D; std::map<uint64_t,Node> m;
  const Node* find(const Leaf& a)const{ auto i=m.find(D.sfc(a)); return i!=m.end()&&i->second.leaf==a?&i->second:nullptr; }
  // leaf containing cell a (same size or coarser), nullptr if a is subdivided
  const Node* containing(const Leaf& a)const{ uint64_t k=D.sfc(a); auto i=m.upper_bound(k); if(i==m.begin()) return nullptr; --i; const Leaf& b=i->second.leaf; if(b.l>a.l) return nullptr; Leaf c=a; while(c.l>b.l) c=D.parent(c); return c==b?&i->second:nullptr; }
  // leaves inside region a (a is subdivided) that touch the side given by direction (dx,dy,dz) seen from outside: d=-1 -> upper half
  void touching_inside(const Leaf& a,int dx,int dy,int dz,std::vector<const Node*>& out)const{
    if(const Node* n=find(a)){ out.push_back(n); return; }
    if(a.l>=D.lmax) return;
    for(int j=0;j<D.nchild();j++){ int o[3]={j&1,j>>1&1,j>>2&1}; int d[3]={dx,dy,dz}; bool ok=true; for(int k=0;k<D.dim;k++){ if(d[k]==-1&&o[k]!=1) ok=false; if(d[k]==1&&o[k]!=0) ok=false; }
      if(ok) touching_inside(D.child(a,j),dx,dy,dz,out); } }
  // neighbours in a direction; returns false at a domain boundary
  bool neighbors(const Leaf& a,int dx,int dy,int dz,std::vector<const Node*>& out)const{
    Leaf n; if(!D.neighbor(a,dx,dy,dz,n)) return false;
    if(const Node* c=containing(n)) out.push_back(c); else touching_inside(n,dx,dy,dz,out);
    return true; }
  void all_neighbors(const Leaf& a,std::vector<const Node*>& out)const{
    int zz=D.dim==3; for(int dz=-zz;dz<=zz;dz++) for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++) if(dx||dy||dz) neighbors(a,dx,dy,dz,out); }
  void insert(const Leaf& a,int rank=-1,uint32_t idx=0){ m[D.sfc(a)]={a,rank,idx}; }
  uint64_t volume()const{ uint64_t v=0; for(auto&p:m) v+=D.vol(p.second.leaf.l); return v; }
};
// Meaning of one adaptation step: the smallest markers that are >= the requests and satisfy
//  - all-or-nothing coarsening of complete families, - 2:1 between touching leaves.
inline std::map<uint64_t,int> solve_markers(const Tree& T,const std::map<uint64_t,int>& req){
  std::map<uint64_t,int> mk=req; const Domain& D=T.D;
  std::map<uint64_t,std::vector<const Node*>> nb; for(auto&p:T.m) T.all_neighbors(p.second.leaf,nb[p.first]);
  bool ch=true; 
  while(ch){ ch=false;
    for(auto&p:T.m){ const Leaf& a=p.second.leaf; int& m=mk[p.first]; int old=m;
      if(m==-1){ if(a.l==0) m=0; else { Leaf f=D.parent(a); for(int j=0;j<D.nchild();j++){ const Node* s=T.find(D.child(f,j)); if(!s||mk[D.sfc(s->leaf)]!=-1) m=0; } } }
      for(const Node* n: nb[p.first]){ int need=n->leaf.l+mk[D.sfc(n->leaf)]-1-a.l; if(m<need) m=need; }
      if(m!=old) ch=true; } }
  return mk; }
inline Tree apply_markers(const Tree& T,const std::map<uint64_t,int>& mk){
  Tree R; R.D=T.D; for(auto&p:T.m){ const Leaf& a=p.second.leaf; int m=mk.at(p.first);
    if(m==1) for(int j=0;j<T.D.nchild();j++) R.insert(T.D.child(a,j)); else if(m==0) R.insert(a); else R.insert(T.D.parent(a)); }
  return R; }
} // namespace ref
