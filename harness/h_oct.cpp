// Thickness, struts and minrad of polygonal curves against exhaustive search in extended precision.
#include "plclib.hpp"
#include <float.h>
#include <array>
extern "C" {
#include "octrope.h"
void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],double *t, double *u, double *dist);
}
using namespace plm;
static ld clamp1(ld x){ return x<0?0:x>1?1:x; }
struct Seg { ld s,t,d; bool sure; };
static Seg closest(L3 a,L3 b,L3 p,L3 q){ L3 d1=b-a,d2=q-p,w=p-a; ld D1=dot(d1,d1),D2=dot(d2,d2),R=dot(d1,d2),S1=dot(d1,w),S2=dot(d2,w),den=D1*D2-R*R; Seg best; best.d=1e300L; auto at=[&](ld s,ld t){ L3 x=(a+s*d1)-(p+t*d2); ld d=norm(x); if(d<best.d){ best.s=s; best.t=t; best.d=d; } };
  for(int k=0;k<2;k++){ at(k,clamp1((k*R-S2)/D2)); at(clamp1((k*R+S1)/D1),k); } bool par=den<1e-7L*D1*D2; if(den>0){ ld s=(S1*D2-S2*R)/den,t=(s*R-S2)/D2; if(s>=0&&s<=1&&t>=0&&t<=1) at(s,t); }
  // is the position of the closest pair well determined?
  best.sure=!par; L3 x=(a+best.s*d1)-(p+best.t*d2); ld n=best.d; if(n<=0) best.sure=false; else { auto chk=[&](ld v,ld g){ if(v==0){ if(!(g>1e-6L)) best.sure=false; } else if(v==1){ if(!(g<-1e-6L)) best.sure=false; } else if(v<1e-6L||v>1-1e-6L) best.sure=false; }; chk(best.s,dot(x,d1)/(n*sqrtl(D1))); chk(best.t,-dot(x,d2)/(n*sqrtl(D2))); } return best; }
struct Strut { int c[2],e[2]; ld p[2],d; int sure; /* 1 certainly a strut, 0 cannot tell */ };
struct All { vector<Strut> st; bool ambiguous=false; };
static L3 vt(const Strand&s,int i){ int n=(int)s.v.size(); if(s.open){ if(i<0) i=1; if(i>=n) i=n-2; } return l(s.v[((i%n)+n)%n]); }
static int edges(const Strand&s){ return (int)s.v.size()-(s.open?1:0); }
// every pair of edges whose closest points are a local minimum of distance along the whole curve
static int is_local(const Strand&s,int e,ld p,L3 far,bool sure){ int n=(int)s.v.size(); if(p==0){ L3 v=vt(s,e),f=far-v; ld nf=norm(f); L3 x=unit(vt(s,e+1)-v),y=unit(vt(s,e-1)-v); ld g=dot(x,f)/nf,h=dot(y,f)/nf; if(fabsl(g)<1e-6L||fabsl(h)<1e-6L) return 0; return g<0&&h<0?1:-1; } if(p==1) return s.open&&e==n-2?1:-1; (void)sure; return 1; }
static ld maxturn(const Curve&k){ ld m=0; for(auto&s:k){ int n=(int)s.v.size(); for(int i=s.open?1:0;i<(s.open?n-1:n);i++) m=std::max(m,angle(vt(s,i)-vt(s,i-1),vt(s,i+1)-vt(s,i))); } return m; }
static All brute(const Curve&k){ All A; for(size_t a=0;a<k.size();a++) for(size_t b=0;b<=a;b++){ int na=edges(k[a]),nb=edges(k[b]); for(int i=0;i<na;i++) for(int j=0;j<(a==b?i:nb);j++){ if(a==b){ int df=i-j; if(df<2||(!k[a].open&&df>(int)k[a].v.size()-2)) continue; } Seg g=closest(vt(k[a],i),vt(k[a],i+1),vt(k[b],j),vt(k[b],j+1)); L3 P=vt(k[a],i)+g.s*(vt(k[a],i+1)-vt(k[a],i)),Q=vt(k[b],j)+g.t*(vt(k[b],j+1)-vt(k[b],j)); int u=is_local(k[a],i,g.s,Q,g.sure),w=is_local(k[b],j,g.t,P,g.sure); if(g.sure&&(u<0||w<0)) continue; Strut s; s.c[0]=a; s.c[1]=b; s.e[0]=i; s.e[1]=j; s.p[0]=g.s; s.p[1]=g.t; s.d=g.d; s.sure=g.sure&&u>0&&w>0; if(!s.sure) A.ambiguous=true; A.st.push_back(s); } } return A; }
static Curve gen(Rng&r){ Curve k; int nc=r.chance(0.6)?1:1+(int)r.below(3); double sc=r.chance(0.3)?pow(10,r.unif(-3,3)):1; int big=r.chance(0.12)?60+(int)r.below(140):r.chance(0.01)?300+(int)r.below(500):0; for(int q=0;q<nc;q++){ Strand s; s.open=r.chance(0.35); int st=(int)r.below(5),n=big?big/nc+3:(s.open?2:3)+(int)r.below(r.chance(0.5)?8:40); V p=mk(r.gauss(),r.gauss(),r.gauss()); double off=q*r.unif(0,2),pa=2+(int)r.below(3),jit=pow(10,r.unif(-3,-0.7)); V dir=mk(r.gauss(),r.gauss(),r.gauss()); for(int i=0;i<n;i++){ double t=6.283185307179586*i/n+0.1; switch(st){ case 0: p=mk(cos(t)*(2+jit*r.gauss()),sin(t)*(2+jit*r.gauss()),jit*r.gauss()+off); break; case 1: p=mk(r.gauss()*2,r.gauss()*2,r.gauss()*2); break; case 2: p=mk((2+cos(3*t))*cos(pa*t)+jit*r.gauss(),(2+cos(3*t))*sin(pa*t)+jit*r.gauss(),sin(3*t)+jit*r.gauss()+off); break; case 3: p=mk(p[0]+r.gauss(),p[1]+r.gauss(),p[2]+r.gauss()); break; default: for(int j=0;j<3;j++){ dir[j]+=0.5*r.gauss(); } { L3 u=unit(l(dir)); for(int j=0;j<3;j++){ dir[j]=(double)u.x[j]; p[j]+=0.3*dir[j]; } } } s.v.push_back(p); } s.cst.resize(n); k.push_back(s); } double cl=r.chance(0.15)?1e-3:0; if(cl>0&&k[0].v.size()>6){ k[0].v[4]=k[0].v[0]; for(int j=0;j<3;j++) k[0].v[4][j]+=cl*r.gauss(); } for(auto&s:k) for(auto&v:s.v) for(int j=0;j<3;j++) v[j]*=sc; for(auto&s:k) for(size_t i=0;i<s.v.size();i++) for(size_t j=0;j<i;j++) if(dist(s.v[i],s.v[j])<1e-7*sc) throw Skip(); return k; }
static void* buffer(Rng&r,vector<char>&b,int&n,int ne){ int z=(int)r.below(4); if(z==0){ n=0; return NULL; } int est=octrope_est_mem(ne); n=z==1?est:z==2?(int)r.below(est+64)&~15:est/2&~15; b.assign(n+16,(char)r.below(256)); if(n==0) return NULL; return b.data(); }
static ld shortest(const All&A,bool&ok){ ld best=1e300L,amb=1e300L; for(auto&s:A.st) if(s.sure) best=std::min(best,s.d); else amb=std::min(amb,s.d); ok=amb>best*(1+1e-9L)||amb==1e300L; return best; }
static void checklist(Case&c,const Curve&k,plCurve*L,const All&A,vector<octrope_strut>&st,int n,ld bound,double cutoff,double eps,const string&w,bool complete){ std::map<std::array<int,4>,int> got; for(int i=0;i<n;i++){ auto&s=st[i]; for(int q=0;q<2;q++) c.require(s.component[q]>=0&&s.component[q]<(int)k.size()&&s.lead_vert[q]>=0&&s.lead_vert[q]<edges(k[s.component[q]])&&s.position[q]>=0&&s.position[q]<=1,"strut-range",w+fmt(" strut %d end %d: comp %d vert %d pos %.17g",i,q,s.component[q],s.lead_vert[q],s.position[q])); L3 e[2]; for(int q=0;q<2;q++){ auto&z=k[s.component[q]]; e[q]=vt(z,s.lead_vert[q])+(ld)s.position[q]*(vt(z,s.lead_vert[q]+1)-vt(z,s.lead_vert[q])); } c.require(near(s.length,norm(e[0]-e[1]),scale_of(k),1e-11),"strut-length",w+fmt(" strut %d length %.15g ends %.15Lg apart",i,s.length,norm(e[0]-e[1]))); plc_vector se[2]; octrope_strut_ends(L,&s,se); for(int q=0;q<2;q++) c.require(vnear(of(se[q]),e[q],scale_of(k),1e-12),"strut-ends",w); c.require(s.length<=bound*(1+1e-9L)+1e-300L,"strut-too-long",w+fmt(" strut %d length %.15g limit %.15Lg",i,s.length,bound)); std::array<int,4> key={s.component[0],s.lead_vert[0],s.component[1],s.lead_vert[1]}; if(key[0]<key[2]||(key[0]==key[2]&&key[1]<key[3])){ std::swap(key[0],key[2]); std::swap(key[1],key[3]); } c.require(!got.count(key),"strut-duplicate",w); got[key]=i; }
  std::set<std::array<int,4>> may; for(auto&s:A.st){ std::array<int,4> key={s.c[0],s.e[0],s.c[1],s.e[1]}; may.insert(key); if(s.sure){ if(got.count(key)){ auto&z=st[got[key]]; c.require(near(z.length,s.d,scale_of(k)*1e-3,1e-8),"strut-not-closest",w+fmt(" length %.15g want %.15Lg",z.length,s.d)); } else if(complete&&s.d<bound*(1-1e-9L)) c.fail("strut-missing",w+fmt(" between %d:%d (%.6Lg) and %d:%d (%.6Lg), length %.12Lg, limit %.12Lg",s.c[0],s.e[0],s.p[0],s.c[1],s.e[1],s.p[1],s.d,bound)); } } for(auto&g:got) c.require(may.count(g.first),"strut-not-local-minimum",w+fmt(" between %d:%d and %d:%d length %.12g",g.first[0],g.first[1],g.first[2],g.first[3],st[g.second].length)); c.count("struts_checked",n); (void)cutoff; (void)eps; }
static void m_struts(Case&c){ Curve k=gen(c.rng); All A=brute(k); PL L(toPlc(k)); int ne=plc_num_edges(L); ld mt=maxturn(k); if(fabsl(acosl(-1)/mt-roundl(acosl(-1)/mt))<1e-9L) throw Skip(); bool ok; ld sh=shortest(A,ok); int lev=c.rng.chance(0.5)?0:1+(int)c.rng.below(12); octrope_set_levels(lev); string w=fmt("%zu components, %d edges, %d levels;",k.size(),ne,lev); vector<char> b; int n; void*m; double got;
  m=buffer(c.rng,b,n,ne); got=octrope_poca(L,m,n); if(ok){ if(sh>1e299L) c.require(got==DBL_MAX,"poca-from-nothing",w+fmt(" %.15g",got)); else c.require(near(got,sh,scale_of(k)*1e-3,1e-9),"poca-value",w+fmt(" shortest strut %.15g want %.15Lg",got,sh)); c.count("shortest_checked"); } string d=diff(L,k); c.require(d=="","octrope-modified-curve",d);
  int mode=(int)c.rng.below(3); double cutoff=0,eps=0; if(mode==0){ cutoff=A.st.empty()?1:(double)c.rng.pick(A.st).d*c.rng.unif(0.8,1.3); if(cutoff<=0) cutoff=1; if(c.rng.chance(0.2)) cutoff=1e9; } else eps=c.rng.chance(0.3)?0:scale_of(k)*pow(10,c.rng.unif(-4,1)); int total=(int)A.st.size(); bool small=c.rng.chance(0.25); int sl=small?1+(int)c.rng.below(total/2+1):total+5; vector<octrope_strut> st(sl); double s2=-1; m=buffer(c.rng,b,n,ne); int r=octrope_struts(L,cutoff,eps,st.data(),sl,&s2,m,n); w+=fmt(" cutoff %.6g epsilon %.6g room %d",cutoff,eps,sl); c.require(r>=0&&r<=sl,"strut-count",w+fmt(" returned %d",r)); ld bound=cutoff>0?(ld)cutoff:(ld)s2+eps; if(cutoff==0){ if(ok&&sh<1e299L) c.require(near(s2,sh,scale_of(k)*1e-3,1e-9),"struts-shortest",w+fmt(" %.15g want %.15Lg",s2,sh)); c.require(s2==got||near(s2,got,scale_of(k),1e-12),"struts-shortest-differs",w); } else if(ok&&sh<cutoff*(1-1e-9)) c.require(near(s2,sh,scale_of(k)*1e-3,1e-9),"struts-shortest",w+fmt(" %.15g want %.15Lg",s2,sh)); checklist(c,k,L,A,st,r,bound,cutoff,eps,w,!small); if(cutoff==0&&got<DBL_MAX) c.require(r>=1,"struts-none",w); c.seen(fp(k)); c.maxi("edges",ne); if(A.ambiguous) c.count("with_ambiguous_pairs"); octrope_set_levels(0); }
// ---- minrad and the combined call -------------------------------------------------------------------
struct Mr { int c,v,s; ld r; };
static vector<Mr> minrads(const Curve&k){ vector<Mr> o; for(size_t a=0;a<k.size();a++){ auto&s=k[a]; int n=(int)s.v.size(); for(int i=s.open?1:0;i<(s.open?n-1:n);i++){ L3 x=vt(s,i)-vt(s,i-1),y=vt(s,i+1)-vt(s,i); ld th=angle(x,y),f=1/(2*tanl(th/2)); if(th<1e-9L) continue; o.push_back({(int)a,i,i-1,norm(x)*f}); o.push_back({(int)a,i,i+1,norm(y)*f}); } } return o; }
static Curve gen2(Rng&r){ Curve k=gen(r); if(r.chance(0.3)){ auto&s=k[r.below(k.size())]; int n=(int)s.v.size(); if(n>=4){ int i=1+(int)r.below(n-2),z=(int)r.below(3); V a=s.v[i-1],b=s.v[i],q; double h=(double)dist(a,b); for(int j=0;j<3;j++) q[j]=z==0?b[j]+(b[j]-a[j]):b[j]-0.5*(b[j]-a[j])+(z==2?1e-4*r.gauss()*h:0); s.v[i+1]=q; } } return k; }
static void checkmr(Case&c,const Curve&k,const vector<Mr>&M,ld want,vector<octrope_mrloc>&lo,int n,int room,ld bound,const string&w,bool complete){ std::set<std::array<int,3>> got; c.require(n>=0&&n<=room,"minrad-count",w+fmt(" %d of %d",n,room)); std::map<std::array<int,3>,ld> val; for(auto&m:M) val[{m.c,m.v,m.s}]=m.r; double sc=scale_of(k); for(int i=0;i<n;i++){ std::array<int,3> key={lo[i].component,lo[i].vert,lo[i].svert}; c.require(val.count(key),"minrad-location",w+fmt(" %d:%d/%d",key[0],key[1],key[2])); c.require(got.insert(key).second,"minrad-duplicate",w); c.require(near(lo[i].mr,val[key],sc*1e-3,1e-7),"minrad-local-value",w+fmt(" %.15g want %.15Lg",lo[i].mr,val[key])); c.require(lo[i].mr<=bound*(1+1e-9L)+1e-9L*sc,"minrad-above-bound",w); } if(complete) for(auto&m:M) if(m.r<bound*(1-1e-6L)-1e-9L*sc) c.require(got.count({m.c,m.v,m.s}),"minrad-missing",w+fmt(" %d:%d/%d value %.12Lg limit %.12Lg",m.c,m.v,m.s,m.r,bound)); c.count("locations",n); (void)want; }
static void m_minrad(Case&c){ Curve k=gen2(c.rng); PL L(toPlc(k)); auto M=minrads(k); ld want=1e300L; for(auto&m:M) want=std::min(want,m.r); double sc=scale_of(k); string w=fmt("%zu components %d edges scale %.3g;",k.size(),plc_num_edges(L),sc); double got=octrope_minradval(L); if(M.empty()) c.require(got==DBL_MAX,"minrad-from-nothing",w+fmt(" %.15g",got)); else c.require(near(got,want,sc*1e-3,1e-7),"minrad-value",w+fmt(" %.15g want %.15Lg",got,want)); double cutoff=0,eps=0; if(c.rng.chance(0.5)){ cutoff=M.empty()?1:(double)c.rng.pick(M).r*c.rng.unif(0.8,1.2); if(cutoff<=0) cutoff=1; if(c.rng.chance(0.2)) cutoff=1e12; } else eps=c.rng.chance(0.3)?0:sc*pow(10,c.rng.unif(-4,1)); bool small=c.rng.chance(0.3); int room=small?(int)c.rng.below(M.size()/2+1):(int)M.size()+4; vector<octrope_mrloc> lo(room); int n=-1; double g2=octrope_minrad(L,cutoff,eps,room?lo.data():NULL,room,&n); c.require(g2==got,"minrad-value-differs",w); w+=fmt(" cutoff %.6g epsilon %.6g room %d",cutoff,eps,room); ld bound=cutoff>0?(ld)cutoff:(ld)got+eps; checkmr(c,k,M,want,lo,n,room,bound,w,!small); string d=diff(L,k); c.require(d=="","minrad-modified-curve",d); c.seen(fp(k)); if(want<sc*1e-6) c.count("hairpins"); }
static void m_rope(Case&c){ Curve k=gen(c.rng); All A=brute(k); auto M=minrads(k); PL L(toPlc(k)); int ne=plc_num_edges(L); ld mt=maxturn(k); if(fabsl(acosl(-1)/mt-roundl(acosl(-1)/mt))<1e-9L) throw Skip(); bool ok; ld sh=shortest(A,ok),mr=1e300L; for(auto&m:M) mr=std::min(mr,m.r); if(!ok) throw Skip(); double sc=scale_of(k); ld len=0; for(auto&s:k) for(int i=0;i<edges(s);i++) len+=norm(vt(s,i+1)-vt(s,i)); double lam=c.rng.chance(0.2)?0:c.rng.chance(0.5)?1:c.rng.unif(0.1,4); ld th=sh/2; if(lam>0) th=std::min(th,mr/lam); octrope_set_levels(c.rng.chance(0.5)?0:1+(int)c.rng.below(9)); string w=fmt("%zu components %d edges lambda %.6g;",k.size(),ne,lam); vector<char> b; int n; void*m; c.require(near(octrope_curvelength(L),len,sc,1e-12),"curvelength",w); m=buffer(c.rng,b,n,ne); double T=octrope_thickness(L,m,n,lam); if(th<1e290L) c.require(near(T,th,sc*1e-3,1e-8),"thickness",w+fmt(" %.15g want %.15Lg",T,th)); m=buffer(c.rng,b,n,ne); double Rl=octrope_ropelength(L,m,n,lam); if(th<1e290L&&th>sc*1e-6L) c.require(near(Rl,len/th,1,1e-7),"ropelength",w+fmt(" %.15g want %.15Lg",Rl,len/th));
  double sc_=c.rng.chance(0.5)?0:(sh<1e299L?(double)sh:1)*c.rng.unif(0.5,2.5),mc=c.rng.chance(0.5)?0:(mr<1e299L?(double)mr:1)*c.rng.unif(0.5,2.5),se=sc*pow(10,c.rng.unif(-4,0)),me=sc*pow(10,c.rng.unif(-4,0)); if(sc_<0||(sc_>0&&sc_<1e-12)) sc_=0; if(mc>0&&mc<1e-12) mc=0; double r1=-1,t1=-1,l1=-1,mr1=-1,ms1=-1; int nm=-1,ns=-1; vector<octrope_mrloc> lo(M.size()+2); vector<octrope_strut> st(A.st.size()+2); m=buffer(c.rng,b,n,ne); bool want[5]; for(auto&x:want) x=c.rng.chance(0.8); octrope(L,want[0]?&r1:NULL,want[1]?&t1:NULL,want[2]?&l1:NULL,want[3]?&mr1:NULL,want[4]?&ms1:NULL,mc,me,lo.data(),(int)lo.size(),&nm,sc_,se,st.data(),(int)st.size(),&ns,m,n,lam); w+=fmt(" strut cutoff %.6g epsilon %.6g, minrad cutoff %.6g epsilon %.6g",sc_,se,mc,me); if(want[0]&&th<1e290L&&th>sc*1e-6L) c.require(near(r1,len/th,1,1e-7),"combined-ropelength",w+fmt(" %.15g want %.15Lg",r1,len/th)); if(want[1]&&th<1e290L) c.require(near(t1,th,sc*1e-3,1e-8),"combined-thickness",w+fmt(" %.15g want %.15Lg",t1,th)); if(want[2]) c.require(near(l1,len,sc,1e-12),"combined-length",w); if(want[3]&&lam>0&&mr<1e299L) c.require(near(mr1,mr,sc*1e-3,1e-7),"combined-minrad",w+fmt(" %.15g want %.15Lg",mr1,mr)); if(want[4]&&sh<1e299L) c.require(near(ms1,sh,sc*1e-3,1e-8),"combined-strut",w+fmt(" %.15g want %.15Lg",ms1,sh)); c.require(ns>=0&&ns<=(int)st.size(),"combined-strut-count",w); checklist(c,k,L,A,st,ns,sc_>0?(ld)sc_:sh+se,sc_,se,w,true); if(lam>0) checkmr(c,k,M,mr,lo,nm,(int)lo.size(),mc>0?(ld)mc:mr+me,w,true); else c.require(nm==0,"combined-minrad-without-stiffness",w); string d=diff(L,k); c.require(d=="","octrope-modified-curve",d); octrope_set_levels(0); c.seen(fp(k)); c.count(lam==0?"flexible":th==sh/2?"strut_controlled":"minrad_controlled"); }
// ---- two segments ---------------------------------------------------------------------------------
static void m_segments(Case&c){ for(int q=0;q<20;q++){ double sc=c.rng.chance(0.5)?1:pow(10,c.rng.unif(-4,4)); int st=(int)c.rng.below(6); V p[4]; for(int i=0;i<4;i++) p[i]=st==1?mk(c.rng.range(-3,3),c.rng.range(-3,3),c.rng.range(-3,3)):mk(c.rng.gauss(),c.rng.gauss(),c.rng.gauss()); if(st==2) for(int j=0;j<3;j++) p[3][j]=p[2][j]+(p[1][j]-p[0][j])*1.3; if(st==3){ double e=pow(10,c.rng.unif(-12,-2)); for(int j=0;j<3;j++) p[3][j]=p[2][j]+(p[1][j]-p[0][j])+e*c.rng.gauss(); } if(st==4) for(int i=0;i<4;i++) p[i][2]=0; if(st==5){ double g=pow(10,c.rng.unif(0,3)); for(int j=0;j<3;j++) p[3][j]=p[2][j]+(p[3][j]-p[2][j])*g; } for(auto&x:p) for(int j=0;j<3;j++) x[j]*=sc; if(dist(p[0],p[1])<1e-3*sc||dist(p[2],p[3])<1e-3*sc) continue; Seg g=closest(l(p[0]),l(p[1]),l(p[2]),l(p[3])); plc_vector A[2]={to(p[0]),to(p[1])},B[2]={to(p[2]),to(p[3])}; double t=-9,u=-9,d=-9; find_poca(A,B,&t,&u,&d); string w; for(auto&x:p) w+=show(x); c.require(t>=0&&t<=1&&u>=0&&u<=1,"segments-position",w+fmt(" %.17g %.17g",t,u)); double S=0; for(auto&x:p) for(int j=0;j<3;j++) S=std::max(S,fabs(x[j])); L3 P=l(p[0])+(ld)t*(l(p[1])-l(p[0])),Q=l(p[2])+(ld)u*(l(p[3])-l(p[2])); c.require(near(d,norm(P-Q),S,1e-12),"segments-distance-of-points",w+fmt(" %.15g, points %.15Lg apart",d,norm(P-Q))); c.require(d<=g.d+3e-7L*S,"segments-not-closest",w+fmt(" %.15g want %.15Lg",d,g.d)); c.seen(hstr(w)); c.count(fmt("style_%d",st)); } }
// ---- strut files ----------------------------------------------------------------------------------
static void m_strutfile(Case&c){ Curve k=gen(c.rng); PL L(toPlc(k)); int ns=(int)c.rng.below(12),nm=(int)c.rng.below(8); vector<octrope_strut> st(ns); vector<octrope_mrloc> lo(nm); for(auto&s:st){ for(int q=0;q<2;q++){ s.component[q]=(int)c.rng.below(k.size()); s.lead_vert[q]=(int)c.rng.below(edges(k[s.component[q]])); s.position[q]=c.rng.chance(0.2)?0:c.rng.unif(); } s.length=fabs(c.rng.gauss())*pow(10,c.rng.range(-5,5)); s.compression=c.rng.chance(0.3)?0:c.rng.gauss(); } for(auto&m:lo){ m.component=(int)c.rng.below(k.size()); m.vert=(int)c.rng.below(k[m.component].v.size()); m.svert=m.vert+1; m.mr=fabs(c.rng.gauss()); m.compression=c.rng.gauss(); } char*b=0; size_t n=0; FILE*f=open_memstream(&b,&n); octrope_strutfile_write(ns,st.data(),nm,lo.data(),f); fclose(f); string t(b,n); free(b); c.require(octrope_error_num==0,"strutfile-write-error",octrope_error_str); bool host=c.rng.chance(0.6); if(host){ int e=1+(int)c.rng.below(3); for(int q=0;q<e&&t.size();q++){ size_t p=c.rng.below(t.size()); switch(c.rng.below(5)){ case 0: t[p]=(char)c.rng.below(256); break; case 1: t.resize(p); break; case 2: t.erase(p,1+c.rng.below(8)); break; case 3: { static const char*aw[]={"-1","0","-5","7","1000","99999","x","nan","-2147483648","2147483647"}; size_t a=p; while(a<t.size()&&!isdigit((unsigned char)t[a])) a++; size_t z=a; while(z<t.size()&&isdigit((unsigned char)t[z])) z++; if(a<z) t.replace(a,z-a,aw[c.rng.below(10)]); break; } default: t.insert(p,c.rng.chance(0.5)?" # comment\n":" -3 "); } } } else if(c.rng.chance(0.3)) { size_t p=t.find('\n'); t.insert(p+1,"# a comment\n"); }
  if(t.empty()) throw Skip(); FILE*g=fmemopen((void*)t.data(),t.size(),"r"); int ns2=-1,nm2=-1; octrope_strut*s2=NULL; octrope_mrloc*m2=NULL; octrope_strutfile_read(L,&ns2,&s2,&nm2,&m2,g); fclose(g); int err=octrope_error_num; string msg=octrope_error_str; struct G{void*a,*b;~G(){free(a);free(b);}} guard{s2,m2}; if(!host) c.require(err==0&&ns2==ns&&nm2==nm,"strutfile-rejected",msg+" in "+t.substr(0,400)); if(err){ c.require(!msg.empty(),"strutfile-error-without-message"); c.count("refused"); } else { for(int i=0;i<ns2;i++) for(int q=0;q<2;q++) c.require(s2[i].component[q]>=0&&s2[i].component[q]<L->nc&&s2[i].lead_vert[q]>=0&&s2[i].lead_vert[q]<L->cp[s2[i].component[q]].nv,"strutfile-impossible-strut",fmt("%d:%d in ",s2[i].component[q],s2[i].lead_vert[q])+t.substr(0,400)); for(int i=0;i<nm2;i++) c.require(m2[i].component>=0&&m2[i].component<L->nc&&m2[i].vert>=0&&m2[i].vert<L->cp[m2[i].component].nv,"strutfile-impossible-location",t.substr(0,400)); c.count("accepted"); if(!host){ for(int i=0;i<ns;i++){ for(int q=0;q<2;q++) c.require(s2[i].component[q]==st[i].component[q]&&s2[i].lead_vert[q]==st[i].lead_vert[q]&&near(s2[i].position[q],st[i].position[q],1e-300,1e-14),"strutfile-strut",fmt("%.17g want %.17g",s2[i].position[q],st[i].position[q])); c.require(near(s2[i].length,st[i].length,1e-300,1e-14)&&near(s2[i].compression,st[i].compression,1e-300,1e-14),"strutfile-strut-values"); } for(int i=0;i<nm;i++) c.require(m2[i].component==lo[i].component&&m2[i].vert==lo[i].vert&&near(m2[i].mr,lo[i].mr,1e-300,1e-14)&&near(m2[i].compression,lo[i].compression,1e-300,1e-14),"strutfile-location"); } } c.seen(hstr(t)); }
int main(int argc,char**argv){ return run(argc,argv,{{"struts",m_struts},{"minrad",m_minrad},{"rope",m_rope},{"segments",m_segments},{"strutfile",m_strutfile}}); }
