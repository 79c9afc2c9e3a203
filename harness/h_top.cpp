// pd codes of space polygons: the knot or link type of the diagram the library draws must be that of the curve.
#include "plclib.hpp"
#include "pdlib.hpp"
extern "C" void set_pd_code_from_plCurve_debug(bool);
using namespace pdl; using plm::Curve; using plm::Strand; using plm::V; using plm::L3; using plm::mk; using plm::PL; using plm::toPlc;
using std::vector; using std::string;
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };
typedef long double ld;
struct RNG { gsl_rng*r; RNG(u64 s){ r=gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r,(unsigned long)(s&0x7fffffff)); } ~RNG(){ gsl_rng_free(r); } };
static string homfly_s(Case&c,pd_code_t*p){ char*s=pd_homfly(p); c.require(s!=NULL,"homfly-null",show(p)); string r=s; free(s); return r; }

// ---- oracle: own projection of the polygon in a random direction, in long double ------------------
// returns false if the projection is not comfortably generic
static bool project(const Curve&C,Rng&r,Dg&d,bool axis_z=false){
  L3 z={{(ld)r.gauss(),(ld)r.gauss(),(ld)r.gauss()}}; if(axis_z) z={{0,0,1}}; z=plm::unit(z); L3 a={{1,0,0}}; if(fabsl(z.x[0])>0.7L) a={{0,1,0}}; L3 x=plm::unit(plm::cross(a,z)),y=plm::cross(z,x);
  L3 o=plm::l(C[0].v[0]); ld S=0; for(auto&s:C) for(auto&v:s.v) S=std::max(S,plm::norm(plm::l(v)-o));
  struct E{ int c,i; ld p[2],q[2],hp,hq; }; vector<E> es; for(size_t c=0;c<C.size();c++){ int n=(int)C[c].v.size(); for(int i=0;i<n;i++){ L3 P=(1/S)*(plm::l(C[c].v[i])-o),Q=(1/S)*(plm::l(C[c].v[(i+1)%n])-o); es.push_back({(int)c,i,{plm::dot(P,x),plm::dot(P,y)},{plm::dot(Q,x),plm::dot(Q,y)},plm::dot(P,z),plm::dot(Q,z)}); } }
  struct X{ int a,b; ld s,t; bool aover; int sg; }; vector<X> xs; const ld M=1e-7L;
  for(size_t i=0;i<es.size();i++) for(size_t j=i+1;j<es.size();j++){ E&A=es[i],&B=es[j]; int n=(int)C[A.c].v.size(); if(A.c==B.c){ if(B.i==(A.i+1)%n||A.i==(B.i+1)%n) continue; }
    ld ux=A.q[0]-A.p[0],uy=A.q[1]-A.p[1],wx=B.q[0]-B.p[0],wy=B.q[1]-B.p[1],dx=B.p[0]-A.p[0],dy=B.p[1]-A.p[1],D=ux*wy-uy*wx; ld lu=sqrtl(ux*ux+uy*uy),lw=sqrtl(wx*wx+wy*wy); if(lu<M||lw<M) return false;
    if(fabsl(D)<1e-6L*lu*lw){ // nearly parallel: fine only if far apart
      ld dd=fabsl(dx*uy-dy*ux)/lu; if(dd<1e-4L){ ld t0=(dx*ux+dy*uy)/lu,t1=t0+(wx*ux+wy*uy)/lu; if(std::max(t0,t1)<-1e-4L||std::min(t0,t1)>lu+1e-4L) continue; return false; } if(fabsl(D)<1e-12L*lu*lw) continue; }
    ld s=(dx*wy-dy*wx)/D,t=(dx*uy-dy*ux)/D; auto in=[&](ld v,ld len){ ld m=M/len; return v>m&&v<1-m?1: (v<-m||v>1+m)?0:-1; }; int is=in(s,lu),it=in(t,lw); if(is==0||it==0) continue; if(is<0||it<0) return false; ld ha=A.hp+s*(A.hq-A.hp),hb=B.hp+t*(B.hq-B.hp); if(fabsl(ha-hb)<1e-7L) return false; bool ao=ha>hb; int sg=(ao?D:-D)>0?1:-1; xs.push_back({(int)i,(int)j,s,t,ao,sg}); }
  int n=(int)xs.size(); vector<vector<vector<std::pair<ld,int>>>> ord(C.size()); for(size_t c=0;c<C.size();c++) ord[c].resize(C[c].v.size()); d=Dg(); d.resize(n);
  for(int k=0;k<n;k++){ ord[es[xs[k].a].c][es[xs[k].a].i].push_back({xs[k].s,2*k}); ord[es[xs[k].b].c][es[xs[k].b].i].push_back({xs[k].t,2*k+1}); }
  for(size_t c=0;c<C.size();c++){ vector<int> seq; for(size_t i=0;i<ord[c].size();i++){ auto&o2=ord[c][i]; std::sort(o2.begin(),o2.end()); L3 P=plm::l(C[c].v[i]),Q=plm::l(C[c].v[(i+1)%C[c].v.size()]); ld len=plm::norm(Q-P)/S; for(size_t k=0;k+1<o2.size();k++) if((o2[k+1].first-o2[k].first)*len<1e-9L) return false; for(auto&q:o2) seq.push_back(q.second); }
    if(seq.empty()){ d.loose.push_back('A'+(int)c); continue; }
    // positions: over strand enters at 0, leaves at 2; under strand leaves at 3 if it crosses from right to left as seen along the over strand
    auto inh=[&](int q){ X&X_=xs[q/2]; bool over=(q&1)?!X_.aover:X_.aover; int v=q/2; if(over) return 4*v+0; return 4*v+(X_.sg>0?1:3); };
    for(size_t k=0;k<seq.size();k++){ int h=inh(seq[k]),o2=opp(h),g=inh(seq[(k+1)%seq.size()]); d.mate[o2]=g; d.mate[g]=o2; d.out[o2]=1; d.out[g]=0; d.tag[h]=d.tag[o2]='A'+(int)c; } }
  for(int v=0;v<n;v++){ d.over[v]=0; if(sgn(d,v)!=xs[v].sg) abort(); }
  return true; }
static ld segdist(L3 a,L3 b,L3 c,L3 e){ auto cl=[](ld t){ return t<0?0:t>1?1:t; }; L3 u=b-a,w=e-c; ld best=1e30L; auto pt=[&](ld s,ld t){ L3 q=(a+s*u)-(c+t*w); best=std::min(best,plm::norm(q)); }; ld uu=plm::dot(u,u),ww=plm::dot(w,w),uw=plm::dot(u,w),du=plm::dot(u,a-c),dw=plm::dot(w,a-c),D=uu*ww-uw*uw; if(D>1e-12L*uu*ww){ ld s=(uw*dw-ww*du)/D,t=(uu*dw-uw*du)/D; if(s>=0&&s<=1&&t>=0&&t<=1) pt(s,t); } for(int k=0;k<2;k++){ pt(k,cl(plm::dot(w,(a+(ld)k*u)-c)/ww)); pt(cl(plm::dot(u,(c+(ld)k*w)-a)/uu),k); } return best; }
// smallest distance between non-adjacent edges, smallest turning slack and edge length, relative to the mean edge
static double clearance(const Curve&C){ struct S{L3 a,b;int c,i,n;}; vector<S> es; ld tot=0; for(size_t c=0;c<C.size();c++){ int n=(int)C[c].v.size(); for(int i=0;i<n;i++){ es.push_back({plm::l(C[c].v[i]),plm::l(C[c].v[(i+1)%n]),(int)c,i,n}); tot+=plm::norm(es.back().b-es.back().a); } } ld mean=tot/es.size(),best=1e30L; for(size_t i=0;i<es.size();i++){ best=std::min(best,plm::norm(es[i].b-es[i].a)); for(size_t j=i+1;j<es.size();j++){ if(es[i].c==es[j].c){ int n=es[i].n,df=es[j].i-es[i].i; if(df==1||df==n-1){ ld an=plm::angle(es[i].b-es[i].a,es[j].b-es[j].a); best=std::min(best,mean*(3.14159265358979323846L-an)); continue; } } best=std::min(best,segdist(es[i].a,es[i].b,es[j].a,es[j].b)); } } return (double)(best/mean); }

// ---- workloads ---------------------------------------------------------------------------------------
static Strand mkstrand(const vector<V>&v){ Strand s; s.open=false; s.v=v; s.cst.resize(v.size()); return s; }
static Curve w_random(Rng&r){ int n=5+(int)r.below(r.chance(0.2)?26:14); vector<V> v; if(r.chance(0.5)){ for(int i=0;i<n;i++) v.push_back(mk(r.gauss(),r.gauss(),r.gauss())); } else { L3 p={{0,0,0}}; vector<L3> e; L3 s={{0,0,0}}; for(int i=0;i<n;i++){ L3 u=plm::unit(L3{{(ld)r.gauss(),(ld)r.gauss(),(ld)r.gauss()}}); e.push_back(u); s=s+u; } for(int i=0;i<n;i++){ v.push_back(plm::lv(p)); p=p+(e[i]-((ld)1/n)*s); } } return {mkstrand(v)}; }
// grid diagrams: every column has one vertical bar, every row one horizontal bar; vertical bars over
static Curve w_grid(Rng&r){ int n=3+(int)r.below(r.chance(0.3)?9:5); vector<int> X(n),O(n); for(int t=0;;t++){ for(int i=0;i<n;i++) X[i]=O[i]=i; r.shuffle(X); r.shuffle(O); bool ok=true; for(int i=0;i<n;i++) if(X[i]==O[i]) ok=false; if(ok||t>200) break; } for(int i=0;i<n;i++) if(X[i]==O[i]) throw Skip();
  vector<int> rowO(n); for(int i=0;i<n;i++) rowO[O[i]]=i; vector<char> seen(n,0); Curve C; bool zfirst=r.chance(0.5); int mirrorz=r.chance(0.5)?-1:1; for(int s=0;s<n;s++) if(!seen[s]){ vector<V> v; int c=s; do{ seen[c]=1; // vertical bar in column c from X to O at height 1, then horizontal bar in row O[c] at height 0
      v.push_back(mk(c,X[c],mirrorz)); v.push_back(mk(c,O[c],mirrorz)); v.push_back(mk(c,O[c],0)); int nc=-1; for(int k=0;k<n;k++) if(X[k]==O[c]) nc=k; v.push_back(mk(nc,O[c],0)); c=nc; }while(c!=s); (void)zfirst; C.push_back(mkstrand(v)); } (void)rowO; return C; }
// all edges long and close to one vertical axis: the z-projection has a (nearly) multiple point
static Curve w_star(Rng&r){ int k=3+(int)r.below(6); vector<V> v; vector<int> h(k); for(int i=0;i<k;i++) h[i]=i; r.shuffle(h); for(int i=0;i<k;i++){ double a=3.141592653589793*(i+0.3*r.unif())/k+(r.chance(0.5)?3.141592653589793:0); double z=h[i]*0.5; v.push_back(mk(cos(a),sin(a),z)); v.push_back(mk(-cos(a),-sin(a),z)); } return {mkstrand(v)}; }
static Curve w_torus(Rng&r){ int p=2+(int)r.below(3),q=2+(int)r.below(5); auto g=[](int a,int b){ while(b){ int t=a%b; a=b; b=t; } return a; }; int c=g(p,q); int n=std::max(6,(int)((3+r.below(3))*(p/c)*q/2+r.below(6))); if(n*c>60) n=60/c; Curve C; double jit=r.chance(0.5)?0.01:0; int sg=r.chance(0.5)?1:-1; for(int k=0;k<c;k++){ vector<V> v; for(int i=0;i<n;i++){ double t=2*3.141592653589793*i/n; double a=t*p/c,b=sg*(t*q/c+2*3.141592653589793*k/p*1.0*(p/c)*0+2*3.141592653589793*k/c/(p/c)); v.push_back(mk((2+cos(b))*cos(a)+jit*r.gauss(),(2+cos(b))*sin(a)+jit*r.gauss(),sin(b)+jit*r.gauss())); } if(r.chance(0.4)) std::reverse(v.begin(),v.end()); C.push_back(mkstrand(v)); } return C; }
static Curve w_lattice(Rng&r){ // self-avoiding cubic lattice polygons grown by random BFACF-like moves
  vector<std::array<int,3>> p={{{0,0,0}},{{1,0,0}},{{1,1,0}},{{0,1,0}}}; int want=8+(int)r.below(40); for(int it=0;it<4000&&(int)p.size()<want;it++){ int n=(int)p.size(),i=(int)r.below(n),j=(i+1)%n; int ax=-1; for(int k=0;k<3;k++) if(p[i][k]!=p[j][k]) ax=k; int b=(ax+1+(int)r.below(2))%3,s=r.chance(0.5)?1:-1; auto a=p[i],c=p[j]; a[b]+=s; c[b]+=s; bool ok=true; for(auto&q:p) if(q==a||q==c) ok=false; if(!ok) continue; vector<std::array<int,3>> q; for(int k=0;k<n;k++){ q.push_back(p[k]); if(k==i){ q.push_back(a); q.push_back(c); } } p=q; } vector<V> v; for(auto&q:p) v.push_back(mk(q[0],q[1],q[2])); return {mkstrand(v)}; }
static Curve w_chain(Rng&r){ // chain of linked rings, random orientation
  int k=2+(int)r.below(4); Curve C; for(int i=0;i<k;i++){ int n=4+(int)r.below(6); vector<V> v; double ph=r.unif(); for(int j=0;j<n;j++){ double t=2*3.141592653589793*(j+ph)/n; double x=cos(t)+1.25*i,y=sin(t); if(i%2) v.push_back(mk(x,0.05*r.gauss(),y)); else v.push_back(mk(x,y,0.05*r.gauss())); } if(r.chance(0.5)) std::reverse(v.begin(),v.end()); C.push_back(mkstrand(v)); } return C; }
static Curve workload(Rng&r,string&what){ Curve C; switch(r.below(7)){ case 0: case 1: C=w_random(r); what="random"; break; case 2: C=w_grid(r); what="grid"; break; case 3: C=w_star(r); what="star"; break; case 4: C=w_torus(r); what="torus"; break; case 5: C=w_lattice(r); what="lattice"; break; default: C=w_chain(r); what="chain"; }
  if(C.size()>1) for(size_t i=C.size()-1;i>0;i--) std::swap(C[i],C[r.below(i+1)]); return C; }
static void place(Rng&r,Curve&C,string&what){ double sc=1; int k=(int)r.below(8); if(k==0) sc=0.05; else if(k==1) sc=1e-3; else if(k==2) sc=1e-5; else if(k==3) sc=1e4; else if(k==4) sc=exp(r.unif(-8,8)); V off=mk(0,0,0); if(r.chance(0.3)) off=mk(sc*20*r.gauss(),sc*20*r.gauss(),sc*20*r.gauss()); for(auto&s:C) for(auto&v:s.v) for(int i=0;i<3;i++) v[i]=v[i]*sc+off[i]; if(sc<0.02) what+="_small"; }
static std::multiset<int> lks(const Dg&d){ std::multiset<int> m; for(auto&t:link2(d)) m.insert(t.second); return m; }
static bool lkconnected(const Dg&d,int nc){ auto l2=link2(d); vector<int> par(nc); for(int i=0;i<nc;i++) par[i]=i; std::function<int(int)> f=[&](int x){ return par[x]==x?x:par[x]=f(par[x]); }; for(auto&t:l2) par[f(t.first.first-'A')]=f(t.first.second-'A'); for(int i=0;i<nc;i++) if(f(i)!=f(0)) return false; return true; }
static Curve embedded(Case&c,string&what,Dg&d){ Curve C=workload(c.rng,what); place(c.rng,C,what); double cl=clearance(C); if(cl<1e-2) throw Skip(); bool ok=false; int best=1<<30; for(int t=0;t<6;t++){ Dg e; if(project(C,c.rng,e)){ ok=true; if(e.n<best){ best=e.n; d=e; } } } if(!ok||best>120) throw Skip(); if(C.size()>1&&(!lkconnected(d,(int)C.size())||!d.loose.empty())) throw Skip(); if(C.size()>1&&!connected(d)) throw Skip(); return C; }
static string verts(const Curve&C){ string s; for(auto&k:C){ s+="["; for(auto&v:k.v) s+=fmt("(%.15g,%.15g,%.15g)",v[0],v[1],v[2]); s+="]"; } return s; }

static void m_type(Case&c){ string what; Dg d; Curve C=embedded(c,what,d); PL L(toPlc(C)); RNG g(c.rng.next()); srand((unsigned)c.rng.next()); PD p(pd_code_from_plCurve(g.r,L)); c.require(p.p!=NULL,"pd-null",what+" "+verts(C)); string df=plm::diff(L,C); c.require(df=="","pd-modified-curve",df); string v=validate(p); c.require(v=="","pd-invalid",v+" "+what+" "+verts(C)); c.require(p->ncomps==C.size(),"pd-components",what+" "+verts(C)); for(pd_idx_t k=0;k<p->ncross;k++) c.require(p->cross[k].sign==PD_POS_ORIENTATION||p->cross[k].sign==PD_NEG_ORIENTATION,"pd-unsigned",what);
  Dg e=fromPd(p); c.require(lks(e)==lks(d),"pd-linking",what+" "+verts(C)); if(p->ncross>180) throw Skip();
  PD q(toPd(d.n?d:[&]{ Dg z; z.loose={'A'}; return z; }(),c.rng)); string s=homfly_s(c,p),t=homfly_s(c,q); Poly a,b; c.require(parse_poly(s.c_str(),a)&&parse_poly(t.c_str(),b),"homfly-unparsable",s+" / "+t); c.require(a==b,"pd-knot-type",what+" library diagram "+s+" curve "+t+" "+verts(C)); Poly w; if(d.n&&homfly(d,w,6000)){ c.require(a==w,"pd-knot-type-skein",what+" library diagram "+s+" curve "+show(w)+" "+verts(C)); c.count("skein_oracle"); } else if(!d.n) c.require(s==t,"pd-unknot",s);
  c.count("wl_"+what); c.count(fmt("comps_%zu",std::min<size_t>(5,C.size()))); if(b.size()>1) c.count("nontrivial"); c.maxi("crossings",p->ncross); c.seen(fp(e)); c.sample(what+fmt(" %d crossings: ",(int)p->ncross)+s);
  if(c.rng.chance(0.3)){ char*h=plc_homfly(g.r,L); c.require(h!=NULL,"plc_homfly-null",what+" "+verts(C)); Poly z; bool ok=parse_poly(h,z); string hs=h; free(h); c.require(ok&&z==b,"plc_homfly",what+" "+hs+" want "+t+" "+verts(C)); c.count("plc_homfly"); }
  if(c.rng.chance(0.3)){ int n1=-1,n2=-1; plc_knottype*k1=plc_classify(g.r,L,&n1),*k2=pd_classify(q,&n2); c.require(n1==n2&&(k1==NULL)==(k2==NULL)&&(n1>0)==(k1!=NULL),"classify-count",what+fmt(" %d vs %d ",n1,n2)+verts(C)); bool same=true; for(int i=0;i<n1&&k1;i++) if(k1[i].nf!=k2[i].nf||memcmp(k1[i].cr,k2[i].cr,sizeof(int)*k1[i].nf)||memcmp(k1[i].ind,k2[i].ind,sizeof(int)*k1[i].nf)||strcmp(k1[i].homfly,k2[i].homfly)) same=false; if(n1>0) c.require((C.size()==1),"classify-link-as-knot",what+" "+verts(C)); if(n1>0&&k1[0].cr[0]==0) c.require(b==Poly{{{0,0},1}},"classify-unknot",what+" "+t); else if(C.size()==1&&b==Poly{{{0,0},1}}) c.require(n1>0,"classify-unknot-missed",what+" "+verts(C)); free(k1); free(k2); c.require(same,"classify-list",what+" "+verts(C)); c.count("plc_classify"); } }

// the type does not depend on isometries, scale, where the polygon starts, or which way all of it is travelled; mirror images get the mirror polynomial
static void m_invariance(Case&c){ string what; Dg d; Curve C=embedded(c,what,d); RNG g(c.rng.next()); srand((unsigned)c.rng.next()); auto hom=[&](const Curve&K,const char*key){ PL L(toPlc(K)); PD p(pd_code_from_plCurve(g.r,L)); c.require(p.p!=NULL,"pd-null",string(key)+" "+what+" "+verts(K)); if(p->ncross>180) throw Skip(); Poly a; string s=homfly_s(c,p); c.require(parse_poly(s.c_str(),a),"homfly-unparsable",s); return a; };
  Poly a=hom(C,"base"); Curve K=C; int op=(int)c.rng.below(5); const char*nm="";
  if(op==0){ nm="start"; for(auto&s:K){ size_t k=c.rng.below(s.v.size()); std::rotate(s.v.begin(),s.v.begin()+k,s.v.end()); } }
  else if(op==1){ nm="reverse"; for(auto&s:K) std::reverse(s.v.begin(),s.v.end()); }
  else if(op==2){ nm="mirror"; int ax=(int)c.rng.below(3); for(auto&s:K) for(auto&v:s.v) v[ax]=-v[ax]; }
  else if(op==3){ nm="subdivide"; for(auto&s:K){ vector<V> v; size_t n=s.v.size(); for(size_t i=0;i<n;i++){ v.push_back(s.v[i]); if(c.rng.chance(0.4)){ double t=c.rng.unif(0.2,0.8); V w; for(int k=0;k<3;k++) w[k]=(1-t)*s.v[i][k]+t*s.v[(i+1)%n][k]; v.push_back(w); } } s.v=v; s.cst.assign(v.size(),plm::Cst()); } if(clearance(K)<1e-2) throw Skip(); }
  else { nm="permute_axes"; int sh=1+(int)c.rng.below(2); for(auto&s:K) for(auto&v:s.v){ V w=v; for(int k=0;k<3;k++) v[k]=w[(k+sh)%3]; } }
  Poly b=hom(K,nm); if(op==2) b=mirror(b); c.require(a==b,"pd-not-invariant",string(nm)+" "+what+" "+show(a)+" vs "+show(b)+" "+verts(C)); c.count(string("op_")+nm); if(a.size()>1) c.count("nontrivial"); c.seen(plm::fp(K)); }

// large polygons: far too many crossings for a polynomial, so compare linking numbers and the second order invariant v2 (Gauss diagram formula)
static long long v2(const Dg&d,int tag){ vector<std::pair<int,int>> seq; auto cs=comps(d); for(auto&k:cs) if(k.tag==tag) for(int h:k.h){ int m=d.mate[h]; int v=m/4; seq.push_back({v,d.over[v]==(m&1)}); } std::map<int,int> cnt; for(auto&q:seq) cnt[q.first]++; vector<std::pair<int,int>> g; for(auto&q:seq) if(cnt[q.first]==2) g.push_back(q); int n=(int)g.size(); std::map<int,std::array<int,2>> at; std::map<int,int> k; for(int i=0;i<n;i++) at[g[i].first][k[g[i].first]++]=i; vector<std::array<int,3>> ch; for(auto&x:at) ch.push_back({{x.second[0],x.second[1],x.first}}); std::sort(ch.begin(),ch.end()); long long t=0; for(size_t i=0;i<ch.size();i++) for(size_t j=i+1;j<ch.size();j++){ if(ch[j][0]>ch[i][1]) break; if(ch[j][1]<ch[i][1]) continue; if(!g[ch[i][0]].second&&g[ch[j][0]].second) t+=sgn(d,ch[i][2])*sgn(d,ch[j][2]); } 
  return t; }
static void m_big(Case&c){ int k=c.rng.chance(0.3)?2:1; Curve C; for(int i=0;i<k;i++){ int n=(c.rng.chance(0.2)?70:30)+(int)c.rng.below(40); vector<V> v; for(int j=0;j<n;j++) v.push_back(mk(c.rng.gauss(),c.rng.gauss(),c.rng.gauss())); C.push_back(mkstrand(v)); } string what="big"; place(c.rng,C,what); Dg d; if(!project(C,c.rng,d)||!d.loose.empty()||!connected(d)) throw Skip(); if(clearance(C)<1e-5) throw Skip(); PL L(toPlc(C)); RNG g(c.rng.next()); srand((unsigned)c.rng.next()); PD p(pd_code_from_plCurve(g.r,L)); c.require(p.p!=NULL,"big-null",verts(C)); string df=plm::diff(L,C); c.require(df=="","big-modified-curve",df); string v=validate(p); c.require(v=="","big-invalid",v+" "+verts(C)); c.require(p->ncomps==C.size(),"big-components",verts(C)); Dg e=fromPd(p); c.require(lks(e)==lks(d),"big-linking",verts(C)); std::multiset<long long> a,b; for(auto&x:comps(e)) a.insert(v2(e,x.tag)); for(auto&x:comps(d)) b.insert(v2(d,x.tag)); c.require(a==b,"big-v2",fmt("%lld vs %lld %d crossings ",*a.begin(),*b.begin(),e.n)+verts(C)); c.maxi("crossings",e.n); c.count(e.n>1024?"over_1024":e.n>256?"over_256":"smaller"); if(*a.begin()) c.count("knotted"); c.seen(fp(e)); }
// the projection direction is held fixed, so special positions stay special and have to be repaired
static void m_fixeddir(Case&c){ string what; Dg d; Curve C; C=workload(c.rng,what); if(what=="random"){ for(auto&s:C) for(auto&v:s.v) for(int i=0;i<3;i++) v[i]=std::floor(v[i]*3); what="rounded"; } if(c.rng.chance(0.3)) place(c.rng,C,what); if(clearance(C)<1e-2) throw Skip(); bool ok=false; int best=1<<30; for(int t=0;t<6;t++){ Dg e; if(project(C,c.rng,e)){ ok=true; if(e.n<best){ best=e.n; d=e; } } } if(!ok||best>60||(C.size()>1&&(!lkconnected(d,(int)C.size())||!d.loose.empty()||!connected(d)))) throw Skip(); set_pd_code_from_plCurve_debug(true); PL L(toPlc(C)); RNG g(c.rng.next()); srand((unsigned)c.rng.next()); PD p(pd_code_from_plCurve(g.r,L)); set_pd_code_from_plCurve_debug(false); c.count(p.p?"drawn_"+what:"refused_"+what); if(!p.p) return; string v=validate(p); c.require(v=="","fixed-invalid",v+" "+what+" "+verts(C)); c.require(p->ncomps==C.size(),"fixed-components",what+" "+verts(C)); Dg e=fromPd(p); c.require(lks(e)==lks(d),"fixed-linking",what+" "+verts(C)); if(p->ncross>150) throw Skip(); PD q(toPd(d.n?d:[&]{ Dg z; z.loose={'A'}; return z; }(),c.rng)); string s=homfly_s(c,p),t=homfly_s(c,q); Poly x,y; c.require(parse_poly(s.c_str(),x)&&parse_poly(t.c_str(),y)&&x==y,"fixed-knot-type",what+" library diagram "+s+" curve "+t+" "+verts(C)); if(y.size()>1) c.count("nontrivial"); c.seen(fp(e)); }
int main(int argc,char**argv){ return run(argc,argv,{{"type",m_type},{"invariance",m_invariance},{"big",m_big},{"fixeddir",m_fixeddir}}); }
