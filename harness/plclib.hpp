// An independent model of polygonal space curves, and conversion to and from the library's.
#pragma once
#include "vp.hpp"
#include <array>
#include <gsl/gsl_rng.h>
extern "C" {
#include "plCurve.h"
#include "matrix.h"
}
namespace plm {
using namespace vp; using std::vector; using std::string;
typedef long double ld;
struct V { double x[3]; double&operator[](int i){return x[i];} double operator[](int i)const{return x[i];} };
inline V mk(double a,double b,double c){ V v; v.x[0]=a; v.x[1]=b; v.x[2]=c; return v; }
inline V of(const plc_vector&p){ return mk(p.c[0],p.c[1],p.c[2]); }
inline plc_vector to(const V&v){ plc_vector p; p.c[0]=v[0]; p.c[1]=v[1]; p.c[2]=v[2]; return p; }
struct L3 { ld x[3]; };
inline L3 l(const V&a){ return {{a[0],a[1],a[2]}}; }
inline L3 operator-(L3 a,L3 b){ return {{a.x[0]-b.x[0],a.x[1]-b.x[1],a.x[2]-b.x[2]}}; }
inline L3 operator+(L3 a,L3 b){ return {{a.x[0]+b.x[0],a.x[1]+b.x[1],a.x[2]+b.x[2]}}; }
inline L3 operator*(ld s,L3 a){ return {{s*a.x[0],s*a.x[1],s*a.x[2]}}; }
inline ld dot(L3 a,L3 b){ return a.x[0]*b.x[0]+a.x[1]*b.x[1]+a.x[2]*b.x[2]; }
inline L3 cross(L3 a,L3 b){ return {{a.x[1]*b.x[2]-a.x[2]*b.x[1],a.x[2]*b.x[0]-a.x[0]*b.x[2],a.x[0]*b.x[1]-a.x[1]*b.x[0]}}; }
inline ld norm(L3 a){ return sqrtl(dot(a,a)); }
inline L3 unit(L3 a){ return (1/norm(a))*a; }
inline ld angle(L3 a,L3 b){ return atan2l(norm(cross(a,b)),dot(a,b)); }
inline ld dist(const V&a,const V&b){ return norm(l(a)-l(b)); }
inline V lv(L3 a){ return mk((double)a.x[0],(double)a.x[1],(double)a.x[2]); }
inline bool same(const V&a,const V&b){ return memcmp(a.x,b.x,sizeof a.x)==0 || (a[0]==b[0]&&a[1]==b[1]&&a[2]==b[2]); }
inline bool near(double a,ld b,double scale,double rel=1e-10){ return std::isfinite(a)&&fabsl((ld)a-b)<=rel*(fabsl(b)+scale); }
inline bool vnear(const V&a,L3 b,double scale,double rel=1e-10){ for(int i=0;i<3;i++) if(!near(a[i],b.x[i],scale,rel)) return false; return true; }
struct Col { double c[4]; bool operator==(const Col&o)const{ return c[0]==o.c[0]&&c[1]==o.c[1]&&c[2]==o.c[2]&&c[3]==o.c[3]; } };
struct Cst { int kind=0; V a,b; bool operator==(const Cst&o)const{ if(kind!=o.kind) return false; if(!kind) return true; if(!same(a,o.a)) return false; if(kind==line) return same(b,o.b); if(kind==plane) return b[0]==o.b[0]; return true; } };
struct Strand { vector<V> v; bool open=false; vector<Col> clr; vector<Cst> cst; };
typedef vector<Strand> Curve;
inline string show(const V&v){ return fmt("(%.17g %.17g %.17g)",v[0],v[1],v[2]); }
inline string show(const Curve&c){ string s; for(auto&k:c){ s+=fmt("[%s%zu c%zu",k.open?"open ":"",k.v.size(),k.clr.size()); for(size_t i=0;i<k.v.size()&&i<6;i++) s+=show(k.v[i]); s+="]"; } return s; }
inline u64 fp(const Curve&c){ u64 h=c.size(); for(auto&k:c){ h=mix(h^k.v.size()*2+k.open); for(auto&v:k.v) for(int i=0;i<3;i++){ u64 b; memcpy(&b,&v.x[i],8); h=mix(h^b); } } return h; }
inline plCurve* toPlc(const Curve&c){ vector<int> nv,cc; bool*op=new bool[c.size()]; for(size_t i=0;i<c.size();i++){ nv.push_back((int)c[i].v.size()); cc.push_back((int)c[i].clr.size()); op[i]=c[i].open; } plCurve*L=plc_new((int)c.size(),nv.data(),op,cc.data()); delete[] op;
  for(size_t i=0;i<c.size();i++){ for(size_t j=0;j<c[i].v.size();j++) L->cp[i].vt[j]=to(c[i].v[j]); for(size_t j=0;j<c[i].clr.size();j++){ auto&k=c[i].clr[j]; L->cp[i].clr[j]=plc_build_color(k.c[0],k.c[1],k.c[2],k.c[3]); } } plc_fix_wrap(L);
  for(size_t i=0;i<c.size();i++) for(size_t j=0;j<c[i].cst.size();j++){ auto&k=c[i].cst[j]; if(k.kind==fixed) plc_set_fixed(L,(int)i,(int)j,to(k.a)); else if(k.kind==line) plc_constrain_to_line(L,(int)i,(int)j,1,to(k.a),to(k.b)); else if(k.kind==plane) plc_constrain_to_plane(L,(int)i,(int)j,1,to(k.a),k.b[0]); } return L; }
inline Cst cstof(plCurve*L,int cp,int vt){ plc_constraint*k=NULL; Cst r; if(plc_is_constrained(L,cp,vt,&k)){ r.kind=k->kind; r.a=of(k->vect[0]); r.b=of(k->vect[1]); } return r; }
// exact comparison of everything observable ("" when equal); tol>0: coordinates within rel tol of scale
inline string diff(plCurve*L,const Curve&c,double tol=0,double scale=1){
  if(L->nc!=(int)c.size()) return fmt("nc %d want %zu",L->nc,c.size());
  for(int i=0;i<L->nc;i++){ auto&s=L->cp[i]; auto&k=c[i]; int n=(int)k.v.size(); if(s.nv!=n) return fmt("comp %d: nv %d want %d",i,s.nv,n); if(s.open!=k.open) return fmt("comp %d: open %d want %d",i,s.open,k.open); if(s.cc!=(int)k.clr.size()) return fmt("comp %d: cc %d want %zu",i,s.cc,k.clr.size());
    auto eq=[&](const plc_vector&p,const V&v){ return tol>0?vnear(of(p),l(v),scale,tol):same(of(p),v); };
    for(int j=0;j<n;j++) if(!eq(s.vt[j],k.v[j])) return fmt("comp %d vertex %d: ",i,j)+show(of(s.vt[j]))+" want "+show(k.v[j]);
    if(n>=2||!k.open){ V lo=k.open?k.v[1]:k.v[n-1],hi=k.open?k.v[n-2]:k.v[0]; if(!eq(s.vt[-1],lo)) return fmt("comp %d: vertex before first ",i)+show(of(s.vt[-1]))+" want "+show(lo); if(!eq(s.vt[n],hi)) return fmt("comp %d: vertex after last ",i)+show(of(s.vt[n]))+" want "+show(hi); }
    for(int j=0;j<s.cc;j++){ Col q={{s.clr[j].r,s.clr[j].g,s.clr[j].b,s.clr[j].alpha}}; if(!(q==k.clr[j])) return fmt("comp %d colour %d differs",i,j); }
    for(int j=0;j<n;j++){ Cst w=j<(int)k.cst.size()?k.cst[j]:Cst(),g=cstof(L,i,j); if(g.kind!=w.kind) return fmt("comp %d vertex %d constraint kind %d want %d",i,j,g.kind,w.kind); if(!w.kind) continue; bool ok=tol>0?(vnear(g.a,l(w.a),scale,tol)&&(w.kind==line?vnear(g.b,l(w.b),scale,tol):w.kind==plane?near(g.b[0],w.b[0],scale,tol):true)):g==w; if(!ok) return fmt("comp %d vertex %d constraint data ",i,j)+show(g.a)+show(g.b)+" want "+show(w.a)+show(w.b); } }
  return ""; }
// the constraint list itself: legal ranges, nonoverlapping, ordered
inline string cst_list_ok(plCurve*L,bool ordered=true){ int lc=-1,lv=0,n=0; std::set<std::pair<int,int>> used; for(plc_constraint*k=L->cst;k;k=k->next){ if(++n>100000) return "endless constraint list"; if(k->kind!=fixed&&k->kind!=line&&k->kind!=plane) return fmt("kind %d listed",k->kind); if(k->cmp<0||k->cmp>=L->nc) return fmt("constraint on component %d of %d",k->cmp,L->nc); if(k->num_verts<1||k->vert<0||k->vert+k->num_verts>L->cp[k->cmp].nv) return fmt("constraint run %d+%d on component of %d vertices",k->vert,k->num_verts,L->cp[k->cmp].nv); if(k->kind==fixed&&k->num_verts!=1) return "fixed run longer than 1"; for(int v=k->vert;v<k->vert+k->num_verts;v++) if(!used.insert({k->cmp,v}).second) return fmt("vertex %d.%d constrained twice",k->cmp,v); if(ordered&&(k->cmp<lc||(k->cmp==lc&&k->vert<lv))) return "constraint list out of order"; lc=k->cmp; lv=k->vert+k->num_verts; } return ""; }
inline Curve fromPlc(plCurve*L){ Curve c; for(int i=0;i<L->nc;i++){ Strand s; s.open=L->cp[i].open; for(int j=0;j<L->cp[i].nv;j++){ s.v.push_back(of(L->cp[i].vt[j])); s.cst.push_back(cstof(L,i,j)); } for(int j=0;j<L->cp[i].cc;j++) s.clr.push_back({{L->cp[i].clr[j].r,L->cp[i].clr[j].g,L->cp[i].clr[j].b,L->cp[i].clr[j].alpha}}); c.push_back(s); } return c; }
// ---- generators ---------------------------------------------------------------------------
inline double coord(Rng&r,int style){ switch(style){ case 0: return r.gauss(); case 1: return (double)r.range(-4,4); case 2: return r.gauss()*pow(10,r.range(-6,6)); case 3: return r.unif(-1,1)*1e-3; case 4: return r.chance(0.3)?0.0:r.gauss(); case 5: return r.gauss()*pow(10,(double)r.range(-120,120)); default: return r.gauss()*100; } }
inline V point(Rng&r,int style){ return mk(coord(r,style),coord(r,style),coord(r,style)); }
inline Col color(Rng&r){ Col c; bool q=r.chance(0.5); for(int i=0;i<4;i++) c.c[i]=q?(double)r.below(5)/4:r.unif(); return c; }
inline V nonzero(Rng&r,int style){ for(;;){ V v=point(r,style); if(norm(l(v))>1e-3) return v; } }
inline Cst rcst(Rng&r,int style=0){ Cst k; k.kind=1+(int)r.below(3); k.a=k.kind==fixed?point(r,style):nonzero(r,style==5?0:style); k.b=k.kind==line?point(r,style):k.kind==plane?mk(coord(r,style),0,0):mk(0,0,0); return k; }
struct Gen { int maxnc=4,maxnv=14,style=-1; double colors=0.6,csts=0.4,openp=0.45; int minnv=1; };
inline Strand strand(Rng&r,const Gen&g,int style){ Strand s; int n=g.minnv+(int)r.below(r.chance(0.1)?4*g.maxnv:g.maxnv); s.open=n<3||r.chance(g.openp); for(int i=0;i<n;i++) s.v.push_back(point(r,style)); if(r.chance(g.colors)){ int cc=r.chance(0.4)?1:n; for(int i=0;i<cc;i++) s.clr.push_back(color(r)); } s.cst.resize(n); if(r.chance(g.csts)){ int k=1+(int)r.below(4); for(int q=0;q<k;q++){ Cst t=rcst(r,style); int a=(int)r.below(n),len=t.kind==fixed?1:1+(int)r.below(n-a); for(int j=a;j<a+len;j++) s.cst[j]=t; } } return s; }
inline Curve curve(Rng&r,const Gen&g){ Curve c; int style=g.style>=0?g.style:(int)r.below(7); int nc=1+(int)r.below(r.chance(0.5)?1:g.maxnc); for(int i=0;i<nc;i++) c.push_back(strand(r,g,style)); return c; }
// curves for geometry: edges and angles not degenerate
inline Curve nice(Rng&r,int maxnc,int minnv,int maxnv,double openp){ Curve c; int nc=1+(int)r.below(r.chance(0.5)?1:maxnc); for(int i=0;i<nc;i++){ Strand s; int n=minnv+(int)r.below(maxnv-minnv+1); s.open=n<3||r.chance(openp); int st=(int)r.below(3); V p=mk(r.gauss(),r.gauss(),r.gauss()); for(int j=0;j<n;j++){ if(st==0){ double t=6.283185307179586*j/n; p=mk(cos(t)*(2+0.3*r.gauss()),sin(t)*(2+0.3*r.gauss()),0.5*r.gauss()); } else if(st==1) p=mk(r.gauss(),r.gauss(),r.gauss()); else p=mk(p[0]+r.gauss(),p[1]+r.gauss(),p[2]+r.gauss()); s.v.push_back(p); } s.cst.resize(n); c.push_back(s); } return c; }
inline double scale_of(const Curve&c){ double m=0; for(auto&s:c) for(auto&v:s.v) for(int i=0;i<3;i++) m=std::max(m,fabs(v[i])); return m; }
inline void rm_cst(Curve&c){ for(auto&s:c) for(auto&k:s.cst) k=Cst(); }
struct PL { plCurve*p; PL(plCurve*q=0):p(q){} ~PL(){ plc_free(p);} PL(const PL&)=delete; operator plCurve*(){return p;} plCurve*operator->(){return p;} };
}
