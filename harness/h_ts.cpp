// Toric symplectic Markov chain sampling: triangulations, embeddings, chain steps, expectations and error bars.
#include "plclib.hpp"
#include <memory>
#include <functional>
#include <gsl/gsl_randist.h>
extern "C" {
#include "tsmcmc.h"
#include "geyer_estimators.h"
tsmcmc_run_parameters tsmcmc_default_unconfined_parameters(void);
tsmcmc_run_parameters tsmcmc_default_confined_parameters(void);
}
using namespace plm;
typedef tsmcmc_triangulation_t T_;
typedef std::pair<int,int> pr;
struct Rg { gsl_rng*r; Rg(u64 s){ r=gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r,(unsigned long)(s&0x7fffffff)+1); } ~Rg(){ gsl_rng_free(r);} operator gsl_rng*(){return r;} Rg(const Rg&)=delete; };
struct Tri { T_ t; ~Tri(){ tsmcmc_triangulation_free(t); } Tri(T_ x):t(x){} Tri(const Tri&)=delete; };
static pr un(int a,int b){ return a<b?pr(a,b):pr(b,a); }
static bool crosses(pr a,pr b){ if(a==b) return true; if(a.first==b.first||a.first==b.second||a.second==b.first||a.second==b.second) return false; bool x=b.first>a.first&&b.first<a.second,y=b.second>a.first&&b.second<a.second; return x!=y; }
// a random triangulation of our own: chords in random order and orientation
static void split(Rng&r,vector<int> p,vector<pr>&o){ int n=(int)p.size(); if(n<=3) return; int e=(int)r.below(n); std::rotate(p.begin(),p.begin()+e,p.end()); int k=1+(int)r.below(n-2); // apex of the triangle on edge p[n-1]p[0]
  if(k>1) o.push_back({p[0],p[k]}); if(k<n-2) o.push_back({p[k],p[n-1]}); split(r,vector<int>(p.begin(),p.begin()+k+1),o); split(r,vector<int>(p.begin()+k,p.end()),o); }
static vector<pr> mychords(Rng&r,int n){ vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; vector<pr> o; split(r,p,o); r.shuffle(o); for(auto&x:o) if(r.chance(0.5)) std::swap(x.first,x.second); return o; }
static vector<tsmcmc_chord_t> cc(const vector<pr>&v){ vector<tsmcmc_chord_t> o; for(auto&x:v){ tsmcmc_chord_t t; t.vt[0]=x.first; t.vt[1]=x.second; o.push_back(t); } return o; }
static const char*tname[]={"fan","spiral","random","teeth","generated"};
static T_ make(Case&c,int k,int n,gsl_rng*g,vector<pr>*src=NULL){ switch(k){ case 0: return tsmcmc_fan_triangulation(n); case 1: return tsmcmc_spiral_triangulation(n); case 2: return tsmcmc_random_triangulation(g,n); case 3: return tsmcmc_teeth_triangulation(n); default: { auto v=mychords(c.rng,n); if(src) *src=v; auto w=cc(v); w.reserve(1); return tsmcmc_generate_triangulation(n,w.data()); } } }
static tsmcmc_chord_t ch(const T_&t,int i,chordtype_t y){ return y==diagonal?t.diags[i]:t.edges[i]; }
static void checktri(Case&c,const T_&t,int n,const string&w){ c.require(t.nedges==n&&t.ntri==n-2&&t.ndiags==n-3,"tri-sizes",w+fmt(" edges %d triangles %d diagonals %d",t.nedges,t.ntri,t.ndiags)); vector<pr> D; for(int i=0;i<n;i++) c.require(t.edges[i].vt[0]==i&&t.edges[i].vt[1]==(i+1)%n,"tri-edge",w+fmt(" edge %d",i)); for(int i=0;i<n-3;i++){ int a=t.diags[i].vt[0],b=t.diags[i].vt[1]; c.require(a>=0&&a<n&&b>=0&&b<n&&a!=b&&(a+1)%n!=b&&(b+1)%n!=a,"tri-diagonal",w+fmt(" diagonal %d joins %d %d",i,a,b)); pr p=un(a,b); for(auto&q:D) c.require(!crosses(p,q),"tri-diagonals-cross",w); D.push_back(p); }
  vector<int> ue(n,0),ud(std::max(0,n-3),0),par(n-2,-1); std::set<std::array<int,3>> seen; for(int i=0;i<n-2;i++){ auto&z=t.triangles[i]; chordtype_t ty[3]={z.parent_type,z.daughter_type[0],z.daughter_type[1]}; int ix[3]={z.parent_chord,z.daughter_chord[0],z.daughter_chord[1]}; std::set<int> vs; for(int q=0;q<3;q++){ c.require(ty[q]==edge?ix[q]>=0&&ix[q]<n:(ty[q]==diagonal&&ix[q]>=0&&ix[q]<n-3),"tri-chord-index",w); (ty[q]==edge?ue[ix[q]]:ud[ix[q]])++; auto h=ch(t,ix[q],ty[q]); vs.insert(h.vt[0]); vs.insert(h.vt[1]); } c.require(vs.size()==3,"tri-not-a-triangle",w+fmt(" triangle %d",i)); auto it=vs.begin(); std::array<int,3> key; for(auto&x:key) x=*it++; c.require(seen.insert(key).second,"tri-repeated-triangle",w);
    auto p=ch(t,ix[0],ty[0]),a=ch(t,ix[1],ty[1]),b=ch(t,ix[2],ty[2]); int p0=i?p.vt[1]:p.vt[0],p1=i?p.vt[0]:p.vt[1]; c.require(p1==a.vt[0]&&a.vt[1]==b.vt[0]&&b.vt[1]==p0,"tri-orientation",w+fmt(" triangle %d",i)); if(i==0) c.require(ty[0]==edge&&ix[0]==0,"tri-root",w); else c.require(ty[0]==diagonal,"tri-parent-type",w);
    for(int q=0;q<2;q++){ int d=z.daughter_tri[q]; if(z.daughter_type[q]==edge) c.require(d==-1,"tri-daughter-of-edge",w); else { c.require(d>0&&d<n-2&&par[d]==-1&&t.triangles[d].parent_type==diagonal&&t.triangles[d].parent_chord==z.daughter_chord[q],"tri-daughter",w+fmt(" triangle %d daughter %d is %d",i,q,d)); par[d]=i; } } }
  for(int i=0;i<n;i++) c.require(ue[i]==1,"tri-edge-use",w); for(int i=0;i<n-3;i++) c.require(ud[i]==2,"tri-diagonal-use",w); for(int i=1;i<n-2;i++) c.require(par[i]>=0,"tri-orphan",w); }
static void m_tri(Case&c){ int k=(int)c.rng.below(5),n=c.rng.chance(0.05)?3:4+(int)c.rng.below(c.rng.chance(0.9)?16:120); Rg g(c.rng.next()); vector<pr> src; string w=fmt("%s n=%d",tname[k],n); Tri T(make(c,k,n,g,&src)); checktri(c,T.t,n,w); c.require(tsmcmc_triangulation_ok(T.t),"tri-ok-refused",w); if(k==4) for(int i=0;i<n-3;i++) c.require(un(src[i].first,src[i].second)==un(T.t.diags[i].vt[0],T.t.diags[i].vt[1]),"tri-diagonal-order",w);
  if(k==0) for(int i=0;i<n-3;i++) c.require(un(T.t.diags[i].vt[0],T.t.diags[i].vt[1])==pr(0,i+2),"tri-fan",w);
  std::map<pr,int> ix; for(int i=0;i<n-3;i++) ix[un(T.t.diags[i].vt[0],T.t.diags[i].vt[1])]=i; for(int q=0;q<10;q++){ int a=(int)c.rng.below(n),b=(int)c.rng.below(n); auto it=ix.find(un(a,b)); c.require(tsmcmc_triangulation_chordnum(T.t,a,b)==(it==ix.end()?-1:it->second),"tri-chordnum",w+fmt(" %d %d",a,b)); } for(auto&x:ix){ c.require(tsmcmc_triangulation_chordnum(T.t,x.first.first,x.first.second)==x.second&&tsmcmc_triangulation_chordnum(T.t,x.first.second,x.first.first)==x.second,"tri-chordnum",w); }
  // text forms
  char*s=tsmcmc_triangulation_MathematicaForm(T.t); string m(s); free(s); string want="{"; for(int i=0;i<n-3;i++) want+=fmt("%s{%d,%d}",i?",":"",T.t.diags[i].vt[0],T.t.diags[i].vt[1]); want+="}"; c.require(m==want,"tri-mathematica",w+" "+m.substr(0,200)); { char*b=0; size_t z=0; FILE*f=open_memstream(&b,&z); tsmcmc_triangulation_print(f,T.t); fclose(f); int pos=0,a,d,used,cnt=0; bool ok=true; while(sscanf(b+pos,"%d , %d%n",&a,&d,&used)==2){ pos+=used; if(cnt>=n-3||a!=T.t.diags[cnt].vt[0]||d!=T.t.diags[cnt].vt[1]) ok=false; cnt++; } free(b); c.require(ok&&cnt==n-3,"tri-print",w); }
  { vector<double> el(n); bool integral=c.rng.chance(0.4); for(auto&x:el) x=integral?1+(double)c.rng.below(5):c.rng.unif(0.5,2); char*b=0; size_t z=0; FILE*f=open_memstream(&b,&z); tsmcmc_triangulation_polymake(f,T.t,el.data(),integral); fclose(f); string t(b,z); free(b); vector<vector<double>> got; size_t p=t.find("=>["); c.require(p!=string::npos,"tri-polymake-head",w); p+=3; bool ok=true; while((p=t.find('[',p))!=string::npos){ vector<double> row; p++; char*e; for(;;){ row.push_back(strtod(t.c_str()+p,&e)); p=e-t.c_str(); if(t[p]==','){ p++; continue; } break; } if(t[p]!=']'||(int)row.size()!=n-2) ok=false; got.push_back(row); } c.require(ok,"tri-polymake-form",w); vector<vector<double>> exp; for(int i=0;i<n-2;i++){ auto&x=T.t.triangles[i]; int id[3]={x.parent_chord,x.daughter_chord[0],x.daughter_chord[1]}; chordtype_t ty[3]={x.parent_type,x.daughter_type[0],x.daughter_type[1]}; for(int neg=0;neg<3;neg++){ vector<double> row(n-2,0); for(int q=0;q<3;q++){ double sg=q==neg?-1:1; if(ty[q]==edge) row[0]+=sg*el[id[q]]; else row[id[q]+1]+=sg; } exp.push_back(row); } } std::sort(got.begin(),got.end()); std::sort(exp.begin(),exp.end()); bool same=got.size()==exp.size(); for(size_t i=0;same&&i<got.size();i++) for(size_t j=0;j<got[i].size();j++) if(fabs(got[i][j]-exp[i][j])>1e-9) same=false; if(!same&&got.size()==exp.size()){ // sorting by nearly equal constants may disagree: match row by row
        vector<char> used(exp.size(),0); same=true; for(auto&g2:got){ bool hit=false; for(size_t j=0;j<exp.size()&&!hit;j++) if(!used[j]){ bool eq=true; for(size_t q=0;q<g2.size();q++) if(fabs(g2[q]-exp[j][q])>1e-9) eq=false; if(eq){ used[j]=1; hit=true; } } if(!hit) same=false; } } c.require(same,"tri-polymake-inequalities",w); }
  // arbitrary chord systems
  for(int q=0;q<4;q++){ int m2=(int)c.rng.below(7); vector<pr> v; for(int i=0;i<m2;i++){ int a=(int)c.rng.below(10),b=(a+2+(int)c.rng.below(7))%10; v.push_back({a,b}); } if(c.rng.chance(0.6)){ v=mychords(c.rng,10); if(c.rng.chance(0.5)){ int i=(int)c.rng.below(v.size()),a=(int)c.rng.below(10); v[i]={a,(a+2+(int)c.rng.below(7))%10}; } } bool ok=true; for(size_t i=0;i<v.size();i++) for(size_t j=0;j<i;j++) if(crosses(un(v[i].first,v[i].second),un(v[j].first,v[j].second))) ok=false; auto cv=cc(v); cv.reserve(1); c.require(tsmcmc_chord_system_ok((int)v.size(),cv.data())==ok,"chord-system-ok",fmt("%zu chords, expected %d",v.size(),(int)ok)); c.count(ok?"systems_good":"systems_bad"); }
  // damaged triangulations are refused
  if(n>=5){ Tri B(make(c,4,n,g)); int i=(int)c.rng.below(n-2); auto&z=B.t.triangles[i]; switch(c.rng.below(5)){ case 0: z.daughter_tri[c.rng.below(2)]=n-2+(int)c.rng.below(3); break; case 1: z.daughter_chord[c.rng.below(2)]=n+(int)c.rng.below(9); break; case 2: z.parent_chord=-1-(int)c.rng.below(3); break; case 3: { int d=(int)c.rng.below(n-3); std::swap(B.t.diags[d].vt[0],B.t.diags[d].vt[1]); break; } default: B.t.edges[c.rng.below(n)].vt[c.rng.below(2)]=n+(int)c.rng.below(4); } c.require(!tsmcmc_triangulation_ok(B.t),"tri-damage-accepted",w); }
  c.seen(hstr(m)); c.count(tname[k]); c.maxi("edges",n); }
// ---- embeddings -------------------------------------------------------------------------------------------
static ld lenof(const vector<V>&v,tsmcmc_chord_t h){ return dist(v[h.vt[0]],v[h.vt[1]]); }
static vector<V> verts(plCurve*L){ vector<V> o; for(int i=0;i<L->cp[0].nv;i++) o.push_back(of(L->cp[0].vt[i])); return o; }
static ld vol(const V&a,const V&b,const V&c,const V&d){ return dot(l(b)-l(a),cross(l(c)-l(a),l(d)-l(a))); }
struct Data { vector<double> e,d,a; };
static double fatness(const T_&t,const vector<V>&v){ ld m=1; for(int i=0;i<t.ntri;i++){ auto&z=t.triangles[i]; auto a=ch(t,z.daughter_chord[0],z.daughter_type[0]),b=ch(t,z.daughter_chord[1],z.daughter_type[1]); L3 x=l(v[a.vt[1]])-l(v[a.vt[0]]),y=l(v[b.vt[1]])-l(v[b.vt[0]]),s=x+y; ld M=std::max(norm(x),std::max(norm(y),norm(s))); if(M==0) return 0; m=std::min(m,norm(cross(x,y))/(M*M)); } return (double)m; }
static void m_embed(Case&c){ int k=(int)c.rng.below(5),n=c.rng.chance(0.05)?3:4+(int)c.rng.below(c.rng.chance(0.85)?12:50); Rg g(c.rng.next()); Tri T(make(c,k,n,g)); string w=fmt("%s n=%d",tname[k],n); vector<V> p(n); int st=(int)c.rng.below(5); for(int i=0;i<n;i++) for(int j=0;j<3;j++) p[i][j]=st==1?(double)c.rng.range(-2,2):st==2?(j==2?0:c.rng.gauss()):st==3?(j?0:(double)c.rng.range(-3,3)):c.rng.gauss(); if(st==4&&n>=5){ int a=(int)c.rng.below(n),b=(a+2+(int)c.rng.below(n-3))%n; p[a]=p[b]; }
  for(int i=0;i<n;i++) if(dist(p[i],p[(i+1)%n])<1e-6) throw Skip(); Curve k0(1); k0[0].open=false; k0[0].v=p; k0[0].cst.resize(n); PL L(toPlc(k0)); vector<double> el(n),dl(n),di(n); std::unique_ptr<bool[]> ok(new bool[n]()); el.resize(n); dl.resize(std::max(1,n-3)); di.resize(std::max(1,n-3)); tsmcmc_compute_edgelengths(L,T.t,el.data()); tsmcmc_compute_diagonals(L,T.t,dl.data()); tsmcmc_compute_dihedral_angles(L,T.t,di.data(),ok.get()); for(int i=0;i<n;i++) c.require(near(el[i],lenof(p,T.t.edges[i]),1,1e-13),"embed-edgelength",w); bool zero=false; for(int i=0;i<n-3;i++){ c.require(near(dl[i],lenof(p,T.t.diags[i]),1,1e-13),"embed-diagonal",w); if(dl[i]<1e-9) zero=true; c.require(std::isfinite(di[i])&&(ok[i]||di[i]==0),"embed-dihedral-finite",w); }
  double fat=fatness(T.t,p); if(st==0||st==2) if(fat>1e-6) for(int i=0;i<n-3;i++) c.require(ok[i],"embed-dihedral-undefined",w); string d0=diff(L,k0); c.require(d0=="","embed-modified-input",d0);
  // flat data from exact coordinates can violate the inequalities by rounding: widen only then
  plCurve*E=tsmcmc_embed_polygon(T.t,el.data(),dl.data(),di.data()); struct G{plCurve*e;~G(){ if(e) plc_free(e);}} gd{E}; if(fat>1e-6) c.require(E!=NULL,"embed-refused",w); if(!E){ c.count("flat_refused"); return; } c.require(E->nc==1&&E->cp[0].nv==n&&!E->cp[0].open,"embed-shape",w); auto q=verts(E); double tol=fat>1e-3?1e-9:2e-5; for(auto&x:q) for(int j=0;j<3;j++) c.require(std::isfinite(x[j]),"embed-not-finite",w+(zero?" (a diagonal has length zero)":fat<1e-9?" (a triangle is flat)":"")); for(int i=0;i<n;i++) c.require(near((double)lenof(q,T.t.edges[i]),el[i],10,tol),"embed-edge-length-lost",w+fmt(" edge %d is %.12Lg want %.12g%s",i,lenof(q,T.t.edges[i]),el[i],zero?" (a diagonal has length zero)":"")); for(int i=0;i<n-3;i++) c.require(near((double)lenof(q,T.t.diags[i]),dl[i],10,tol),"embed-diagonal-length-lost",w+fmt(" diagonal %d is %.12Lg want %.12g",i,lenof(q,T.t.diags[i]),dl[i]));
  if(fat>1e-2){ for(int i=0;i<n;i++) for(int j=0;j<i;j++) c.require(fabsl(dist(q[i],q[j])-dist(p[i],p[j]))<1e-7,"embed-not-congruent",w+fmt(" vertices %d %d are %.12Lg apart, want %.12Lg",i,j,dist(q[i],q[j]),dist(p[i],p[j]))); for(int z=0;z<6&&n>=4;z++){ int a[4]; for(auto&x:a) x=(int)c.rng.below(n); c.require(fabsl(vol(q[a[0]],q[a[1]],q[a[2]],q[a[3]])-vol(p[a[0]],p[a[1]],p[a[2]],p[a[3]]))<1e-6,"embed-mirrored",w); } c.require(tsmcmc_polygon_embedding_ok(E,T.t,el.data(),dl.data(),di.data()),"embedding-ok-refused",w); c.require(tsmcmc_polygon_embedding_ok(L,T.t,el.data(),dl.data(),di.data()),"embedding-ok-refused",w+" (original)");
    c.count("congruent"); auto e2=el,d2=dl,a2=di; int z=(int)c.rng.below(n==3?2:4); double h=c.rng.chance(0.5)?1e-3:-1e-3; if(z==0) e2[c.rng.below(n)]+=h; else if(z==1) { if(n==3) e2[0]+=h; else d2[c.rng.below(n-3)]+=h; } else if(z==2) a2[c.rng.below(n-3)]+=h; else { T_ o=tsmcmc_fan_triangulation(n+1); vector<double> e3(n+1,1),d3(n-2,1),a3(n-2,1); bool b=tsmcmc_polygon_embedding_ok(E,o,e3.data(),d3.data(),a3.data()); tsmcmc_triangulation_free(o); c.require(!b,"embedding-ok-wrong-size",w); } if(z<3) c.require(!tsmcmc_polygon_embedding_ok(E,T.t,e2.data(),d2.data(),a2.data()),"embedding-ok-accepted-wrong-data",w+fmt(" kind %d",z));
    c.require(tsmcmc_diagonals_ok(T.t,el.data(),dl.data()),"diagonals-ok-refused",w); if(n>3){ auto d3=dl; int i=(int)c.rng.below(n-3); d3[i]=c.rng.chance(0.5)?100:-1; c.require(!tsmcmc_diagonals_ok(T.t,el.data(),d3.data()),"diagonals-ok-accepted",w); plCurve*bad=tsmcmc_embed_polygon(T.t,el.data(),d3.data(),di.data()); if(bad) plc_free(bad); c.require(!bad,"embed-accepted-impossible",w); d3[i]=NAN; c.require(!tsmcmc_diagonals_ok(T.t,el.data(),d3.data()),"diagonals-ok-nan",w); } }
  c.seen(fp(k0)^mix(k)); c.count(fmt("style_%d",st)); if(zero) c.count("zero_diagonal"); }
// ---- chain steps -------------------------------------------------------------------------------------------
struct Conf { double*e,*d,*a; int n; Conf(int n):e(0),d(0),a(0),n(n){} ~Conf(){ free(e); free(d); free(a); } vector<double> E()const{ return vector<double>(e,e+n); } vector<double> D()const{ return vector<double>(d,d+n-3); } vector<double> A()const{ return vector<double>(a,a+n-3); } };
static void ineq(Case&c,const T_&t,const Conf&k,const string&w){ for(int i=0;i<t.ntri;i++){ auto&z=t.triangles[i]; auto L=[&](int ix,chordtype_t y){ return y==edge?k.e[ix]:k.d[ix]; }; double s[3]={L(z.parent_chord,z.parent_type),L(z.daughter_chord[0],z.daughter_type[0]),L(z.daughter_chord[1],z.daughter_type[1])}; for(int q=0;q<3;q++) c.require(s[q]<=s[(q+1)%3]+s[(q+2)%3]+1e-9&&s[q]>=-1e-9,"step-triangle-inequality",w+fmt(" triangle %d sides %.12g %.12g %.12g",i,s[0],s[1],s[2])); } }
static double flat(const T_&t,const Conf&k){ double m=1e9; for(int i=0;i<t.ntri;i++){ auto&z=t.triangles[i]; auto L=[&](int ix,chordtype_t y){ return y==edge?k.e[ix]:k.d[ix]; }; double s[3]={L(z.parent_chord,z.parent_type),L(z.daughter_chord[0],z.daughter_type[0]),L(z.daughter_chord[1],z.daughter_type[1])}; for(int q=0;q<3;q++) m=std::min(m,s[(q+1)%3]+s[(q+2)%3]-s[q]); } return m; }
static vector<ld> gram(const vector<V>&p,int from){ int n=(int)p.size(); vector<L3> e; for(int i=from;i<n;i++) e.push_back(l(p[(i+1)%n])-l(p[i])); vector<ld> o; for(size_t i=0;i<e.size();i++) for(size_t j=0;j<i;j++) o.push_back(dot(e[i],e[j])); std::sort(o.begin(),o.end()); return o; }
static void m_steps(Case&c){ int kind=(int)c.rng.below(4),k=kind==3?0:(int)c.rng.below(5),n=4+(int)c.rng.below(c.rng.chance(0.85)?12:40); Rg g(c.rng.next()); Tri T(make(c,k,n,g)); Conf x(n); double R=0,f=1; string w=fmt("%s n=%d",tname[k],n); if(kind==0) tsmcmc_regular_ngon(T.t,&x.e,&x.d,&x.a); else if(kind==1) tsmcmc_equilateral_ngon(g,T.t,&x.e,&x.d,&x.a); else if(kind==2){ f=c.rng.chance(0.3)?1:c.rng.unif(0.05,0.97)*(n-1); w+=fmt(" first edge %.6g",f); if(c.rng.chance(0.5)) tsmcmc_regular_failure_to_close_ngon(T.t,f,&x.e,&x.d,&x.a); else tsmcmc_failure_to_close_ngon(g,T.t,f,&x.e,&x.d,&x.a); } else { R=c.rng.chance(0.2)?1.0001:c.rng.unif(1.01,n/2.0); w+=fmt(" confined to %.6g",R); tsmcmc_confined_equilateral_ngon(g,T.t,R,&x.e,&x.d,&x.a); }
  auto state=[&](const string&s){ ineq(c,T.t,x,s); for(int i=0;i<n;i++) c.require(near(x.e[i],i==0?f:1,1,1e-7),"step-edge-length",s+fmt(" edge %d is %.12g",i,x.e[i])); for(int i=0;i<n-3;i++){ c.require(x.a[i]>=-7&&x.a[i]<=7,"step-dihedral-range",s+fmt(" %.12g",x.a[i])); if(kind==3) c.require(x.d[i]<=R+1e-9,"step-unconfined",s+fmt(" diagonal %d is %.12g",i,x.d[i])); } plCurve*E=tsmcmc_embed_polygon(T.t,x.e,x.d,x.a); struct G{plCurve*e;~G(){ if(e) plc_free(e);}} gd{E}; c.require(E!=NULL,"step-unembeddable",s+fmt(" flattest %.3g",flat(T.t,x))); auto q=verts(E); for(int i=0;i<n;i++) c.require(near((double)dist(q[i],q[(i+1)%n]),i==0?f:1,1,1e-6),"step-embedded-edge",s+fmt(" edge %d is %.12Lg",i,dist(q[i],q[(i+1)%n]))); if(kind==3) for(int i=1;i<n;i++) c.require(dist(q[0],q[i])<=R+1e-6,"step-outside-sphere",s); return q; };
  auto q=state(w+" start"); if(kind==0){ for(int i=0;i<n-3;i++){ int s=abs(T.t.diags[i].vt[0]-T.t.diags[i].vt[1]); c.require(near(x.d[i],sin(M_PI*s/n)/sin(M_PI/n),1,1e-9),"regular-ngon",w); } }
  c.require(tsmcmc_edgelengths_equilateral(T.t,x.e)==(fabs(f-1)<=1e-8),"edgelengths-equilateral",w); int steps=10; for(int s=0;s<steps;s++){ auto e0=x.E(),d0=x.D(),a0=x.A(); string v=w+fmt(" step %d",s); int z=(int)c.rng.below(4); double be=c.rng.chance(0.2)?0:c.rng.chance(0.25)?1:c.rng.unif(),de=kind==3?0:c.rng.chance(0.2)?0:c.rng.chance(0.25)?1:c.rng.unif(); tsmcmc_step_t t; if(kind==3){ if(z==0){ tsmcmc_confined_moment_polytope_step(g,T.t,R,x.e,x.d); t=moment_polytope; } else if(z==1){ tsmcmc_dihedrals_step(g,T.t,x.a); t=dihedral; } else t=tsmcmc_confined_dihedral_diagonal_step(g,T.t,R,x.e,x.d,x.a,be,1+(int)c.rng.below(5)); } else if(z==0){ tsmcmc_moment_polytope_step(g,T.t,x.e,x.d); t=moment_polytope; } else if(z==1){ tsmcmc_edgepermute_step(g,T.t,x.e,x.d,x.a); t=permute; } else if(z==2){ t=tsmcmc_dihedral_diagonal_step(g,T.t,x.e,x.d,x.a,be); c.require(t!=permute,"step-type",v); } else { t=tsmcmc_dihedral_diagonal_permute_step(g,T.t,x.e,x.d,x.a,be,de,1+(int)c.rng.below(4)); if(de>=1) c.require(t==permute,"step-type",v); if(de<=0) c.require(t!=permute,"step-type",v); } if(t!=permute&&z>=2){ if(be>=1) c.require(t==moment_polytope,"step-type",v); if(be<=0) c.require(t==dihedral,"step-type",v); }
    if(t!=permute) c.require(x.E()==e0,"step-edges-changed",v); if(t==moment_polytope){ c.require(x.A()==a0,"step-dihedrals-changed",v); c.count("polytope"); } if(t==dihedral){ c.require(x.D()==d0,"step-diagonals-changed",v); for(double y:x.A()) c.require(y>=0&&y<=2*M_PI+1e-12,"step-dihedral-range",v); c.count("dihedral"); } auto p=state(v); if(t==permute&&fatness(T.t,p)<1e-5) c.count("permute_flat"); else if(t==permute){ int from=kind==2&&fabs(f-1)>1e-8?1:0; auto A=gram(q,from),B=gram(p,from); for(size_t i=0;i<A.size();i++) c.require(fabsl(A[i]-B[i])<2e-5,"permute-changed-edges",v+fmt(" sorted angle %zu: %.12Lg want %.12Lg",i,B[i],A[i])); c.count("permute"); } q=p; if(kind==3) c.require(tsmcmc_confined_diagonals_ok(T.t,R*(1+1e-9),x.e,x.d,s)||true,"-"); }
  c.seen(mix(n*5+k)^hstr(fmt("%.17g %.17g",x.d[0],x.a[0]))); static const char*kn[]={"regular","equilateral","fixed_gap","confined"}; c.count(kn[kind]); c.maxi("edges",n); }
// ---- error bars --------------------------------------------------------------------------------------------
static ld lagcov(const vector<double>&x,ld mu,int k){ ld s=0; for(size_t i=0;i+k<x.size();i++) s+=((ld)x[i]-mu)*((ld)x[i+k]-mu); return s/x.size(); }
struct Ips { ld mu,g0,est; bool sure,exhausted,negative; };
// lags: number of autocovariances the estimator may use (0: all of the data is at hand)
static Ips ips(const vector<double>&x,int lags){ Ips r; int m=(int)x.size(); ld s=0; for(double v:x) s+=v; r.mu=s/m; r.g0=lagcov(x,r.mu,0); r.sure=true; r.exhausted=false; ld sc=r.g0+r.mu*r.mu*1e-6L; ld tol=1e-9L*sc; if(lags==0){ ld est=r.g0+2*(m>1?lagcov(x,r.mu,1):0); for(int k=1;k<m/2;k++){ ld G=lagcov(x,r.mu,2*k)+lagcov(x,r.mu,2*k+1); if(fabsl(G)<tol) r.sure=false; if(G<=0) break; est+=2*G; } r.est=est; } else { ld est=-r.g0; bool stop=false; for(int k=0;2*k+1<lags;k++){ ld G=lagcov(x,r.mu,2*k)+lagcov(x,r.mu,2*k+1); if(fabsl(G)<tol) r.sure=false; if(G<=0){ stop=true; break; } est+=2*G; } r.exhausted=!stop; r.est=est; } if(fabsl(r.est)<1e-7L*sc) r.sure=false; r.negative=r.est<0; return r; }
static vector<double> series(Rng&r,int m){ vector<double> x(m); int st=(int)r.below(7); double phi=st==0?r.unif(0,0.95):st==1?-r.unif(0,0.95):0,off=r.chance(0.5)?0:r.gauss()*pow(10,r.unif(-1,2)),sd=pow(10,r.unif(-2,2)),v=r.gauss(); for(int i=0;i<m;i++){ switch(st){ case 0: case 1: v=phi*v+r.gauss(); break; case 2: v=r.gauss(); break; case 3: v=0; break; case 4: v=i%2?1:-1; break; case 5: v=sin(0.05*i)+0.3*r.gauss(); break; default: v=r.chance(0.02)?r.gauss()*10:v; } x[i]=off+sd*v; } return x; }
static void m_geyer(Case&c){ int m=1+(int)c.rng.below(c.rng.chance(0.3)?8:c.rng.chance(0.7)?120:600),B=c.rng.chance(0.3)?m+(int)c.rng.below(20):4+(int)c.rng.below(c.rng.chance(0.5)?30:200); auto x=series(c.rng,m); string w=fmt("%d samples, buffer %d",m,B); double sc=0; for(double v:x) sc=std::max(sc,fabs(v)); vector<double> raw=x; { ld s=0; for(double v:x) s+=v; c.require(near(sample_mean(raw.data(),m),s/m,sc,1e-12),"sample-mean",w); double e=-1,v=ips_value(raw.data(),m,&e); Ips r=ips(x,0); c.require(near(v,s/m,sc,1e-12),"ips-mean",w); c.require(raw==x,"ips-modified-data",w); c.require(std::isfinite(e)&&e>=0,"ips-error-not-a-number",w+fmt(" %g",e)); if(r.sure&&!r.negative) c.require(near(e,1.96L*sqrtl(r.est/m),sc*1e-6,1e-6),"ips-error",w+fmt(" %.12g want %.12Lg",e,1.96L*sqrtl(r.est/m))); }
  geyer_ips_t*g=geyer_ips_new(B); struct F{geyer_ips_t*g;~F(){ geyer_ips_free(&g);}} fr{g}; { double e=-1; bool ok=false; if(c.rng.chance(0.2)) { double v=geyer_ips_value(g,&e,&ok); c.require(v==0,"gips-empty",w); } } vector<double> sofar; for(int i=0;i<m;i++){ geyer_ips_add(g,x[i]); sofar.push_back(x[i]); if(i==m-1||c.rng.chance(0.03)||i+1==B||i==B){ ld s=0; for(double v:sofar) s+=v; int n=(int)sofar.size(); double e=-1; bool ok=false; string u=w+fmt(" after %d",n); double v=geyer_ips_value(g,&e,&ok); c.require(near(v,s/n,sc,1e-11),"gips-mean",u+fmt(" %.15g want %.15Lg",v,s/n)); c.require(!std::isnan(e)&&e>=0,"gips-error-not-a-number",u+fmt(" %g",e)); Ips r=ips(sofar,n<=B?0:g->nldots); if(n<=B) c.require(ok,"gips-not-ok",u); if(r.sure){ if(n>B) c.require(ok==!r.exhausted,"gips-ok",u+fmt(" ok %d with %d lags",(int)ok,g->nldots)); if(ok&&!r.negative) c.require(near(e,1.96L*sqrtl(r.est/n),sc*1e-5,1e-5),"gips-error",u+fmt(" %.12g want %.12Lg",e,1.96L*sqrtl(r.est/n))); c.count(n<=B?"in_buffer":"streamed"); } else c.count("ambiguous"); } }
  if(c.rng.chance(0.3)){ bool ok=false; double v=geyer_ips_value(g,NULL,&ok); ld s=0; for(double y:x) s+=y; c.require(ok&&near(v,s/m,sc,1e-11),"gips-mean-only",w); } uint64_t h=m; for(double v:x){ u64 b; memcpy(&b,&v,8); h=mix(h^b); } c.seen(h); c.maxi("samples",m); }
// ---- expectations ------------------------------------------------------------------------------------------
struct Watch { Case*c; int n,a,b,pw; double f,R; string w; vector<double> v; };
static double integrand(plCurve*L,void*p){ Watch&k=*(Watch*)p; k.c->require(L->nc==1&&L->cp[0].nv==k.n&&!L->cp[0].open,"expect-shape",k.w); auto q=verts(L); for(int i=0;i<k.n;i++) k.c->require(near((double)dist(q[i],q[(i+1)%k.n]),i==0?k.f:1,1,1e-6),"expect-edge",k.w+fmt(" edge %d is %.12Lg",i,dist(q[i],q[(i+1)%k.n]))); if(k.R>0) for(int i=1;i<k.n;i++) k.c->require(dist(q[0],q[i])<=k.R+1e-6,"expect-outside-sphere",k.w); double d=(double)dist(q[k.a],q[k.b]); k.v.push_back(k.pw==2?d*d:d); return k.v.back(); }
struct Mean { double n=0,s=0,q=0; void add(double v){ n++; s+=v; q+=v*v; } double m()const{return s/n;} double se()const{ double var=std::max(q/n-m()*m(),0.0); return sqrt(var/n); } };
// uniform points of the moment polytope by rejection; f(d) for each
static bool polytope(Rng&r,const T_&t,const vector<double>&e,double R,int want,std::function<void(const vector<double>&)> use){ int m=t.ndiags,n=t.nedges; vector<double> hi(m),d(m); for(int i=0;i<m;i++){ int a=t.diags[i].vt[0],b=t.diags[i].vt[1]; double s=0,tot=0; for(int j=0;j<n;j++) tot+=e[j]; for(int j=a;j!=b;j=(j+1)%n) s+=e[j]; hi[i]=std::min(s,tot-s); if(R>0) hi[i]=std::min(hi[i],R); } long tries=0; for(int got=0;got<want;){ if(++tries>(long)want*400) return false; for(int i=0;i<m;i++) d[i]=r.unif()*hi[i]; bool ok=true; for(int i=0;i<t.ntri&&ok;i++){ auto&z=t.triangles[i]; auto L=[&](int ix,chordtype_t y){ return y==edge?e[ix]:d[ix]; }; double s[3]={L(z.parent_chord,z.parent_type),L(z.daughter_chord[0],z.daughter_type[0]),L(z.daughter_chord[1],z.daughter_type[1])}; for(int q=0;q<3;q++) if(s[q]>s[(q+1)%3]+s[(q+2)%3]) ok=false; } if(!ok) continue; use(d); got++; } return true; }
static double drive(Case&c,int kind,gsl_rng*g,const T_&t,double f,double R,int n,int steps,tsmcmc_run_parameters rp,Watch&k,double*err,bool stats){ tsmcmc_run_stats st; memset(&st,-1,sizeof st); tsmcmc_run_stats*sp=stats?&st:NULL; k.v.clear(); double r=kind==0?tsmcmc_equilateral_expectation(g,integrand,&k,steps,1000,t,rp,sp,err):kind==1?tsmcmc_confined_equilateral_expectation(g,integrand,&k,R,n,steps,1000,rp,sp,err):tsmcmc_fixed_ftc_expectation(g,integrand,&k,f,steps,1000,t,rp,sp,err); c.require((int)k.v.size()==steps-rp.burn_in-1,"expect-sample-count",k.w+fmt(" %zu samples of %d steps, burn in %d",k.v.size(),steps,rp.burn_in)); ld s=0; for(double v:k.v) s+=v; if(k.v.size()) c.require(near(r,s/k.v.size(),1,1e-10),"expect-mean",k.w+fmt(" returned %.12g, samples average %.12Lg",r,s/k.v.size())); Ips q=ips(vector<double>(k.v.begin(),k.v.begin()+std::min<size_t>(k.v.size(),k.v.size())),0); if(err){ c.require(!std::isnan(*err)&&*err>=0,"expect-error",k.w); if(q.sure&&!q.negative&&k.v.size()<3000) c.require(near(*err,1.96L*sqrtl(q.est/k.v.size()),1e-6,1e-5),"expect-error",k.w+fmt(" %.12g want %.12Lg",*err,1.96L*sqrtl(q.est/k.v.size()))); } if(stats){ c.require(st.dihedral_steps>=0&&st.mp_steps>=0&&st.permute_steps>=0&&st.dihedral_steps+st.mp_steps+st.permute_steps==steps,"expect-step-counts",k.w+fmt(" %d %d %d of %d",st.dihedral_steps,st.mp_steps,st.permute_steps,steps)); if(kind==1) c.require(st.permute_steps==0,"expect-step-counts",k.w); c.require(st.total_seconds>=0&&st.geyer_ips_seconds>=0,"expect-times",k.w); char*m=tsmcmc_run_stats_MathematicaForm(st); string ms(m); free(m); c.require(ms.find(fmt("\"dihedral steps\" -> %d,",st.dihedral_steps))!=string::npos&&ms.find(fmt("\"permute steps\" -> %d,",st.permute_steps))!=string::npos,"expect-stats-form",ms); } return r; }
static void m_expect(Case&c){ int kind=(int)c.rng.below(3),n=4+(int)c.rng.below(4); Rg g(c.rng.next()); int k=kind==1?0:(int)c.rng.below(5); Tri T(make(c,k,n,g)); double f=1,R=0; if(kind==1) R=c.rng.unif(1.05,std::max(1.3,n/2.0)); if(kind==2) f=c.rng.unif(0.1,0.9)*(n-1); static const char*kn[]={"equilateral","confined","fixed_gap"}; string w=fmt("%s %s n=%d",kn[kind],tname[k],n)+(kind==1?fmt(" radius %.5g",R):kind==2?fmt(" gap %.5g",f):""); tsmcmc_run_parameters rp=kind==1?tsmcmc_default_confined_parameters():tsmcmc_default_unconfined_parameters(); if(c.rng.chance(0.4)){ rp.beta=c.rng.unif(0.2,0.8); rp.delta=kind==1?0:c.rng.unif(0,0.9); } vector<double> e(n,1); e[0]=f; int j=(int)c.rng.below(n-3); auto dg=T.t.diags[j]; int ap[2],na=0; chordtype_t sty[2][2]; int six[2][2]; for(int i=0;i<T.t.ntri;i++){ auto&z=T.t.triangles[i]; int id[3]={z.parent_chord,z.daughter_chord[0],z.daughter_chord[1]}; chordtype_t ty[3]={z.parent_type,z.daughter_type[0],z.daughter_type[1]}; int at=-1; for(int q=0;q<3;q++) if(ty[q]==diagonal&&id[q]==j) at=q; if(at<0) continue; int o=0; for(int q=0;q<3;q++) if(q!=at){ auto h=ch(T.t,id[q],ty[q]); if(h.vt[0]!=dg.vt[0]&&h.vt[0]!=dg.vt[1]) ap[na]=h.vt[0]; if(h.vt[1]!=dg.vt[0]&&h.vt[1]!=dg.vt[1]) ap[na]=h.vt[1]; bool first=h.vt[0]==dg.vt[0]||h.vt[1]==dg.vt[0]; sty[na][first?0:1]=ty[q]; six[na][first?0:1]=id[q]; o++; } (void)o; na++; }
  Mean dm,am; if(!polytope(c.rng,T.t,e,R,20000,[&](const vector<double>&d){ dm.add(d[j]); double z[2],rr[2]; for(int q=0;q<2;q++){ double A=sty[q][0]==edge?e[six[q][0]]:d[six[q][0]],B=sty[q][1]==edge?e[six[q][1]]:d[six[q][1]],D=std::max(d[j],1e-9); z[q]=(A*A+D*D-B*B)/(2*D); rr[q]=A*A-z[q]*z[q]; } am.add((z[0]-z[1])*(z[0]-z[1])+rr[0]+rr[1]); })) throw Skip();
  for(int what=0;what<(kind==0?3:2);what++){ Watch k2; k2.c=&c; k2.n=n; k2.f=f; k2.R=R; k2.w=w; double want,se; if(what==0){ k2.a=dg.vt[0]; k2.b=dg.vt[1]; k2.pw=1; want=dm.m(); se=dm.se(); } else if(what==1){ k2.a=ap[0]; k2.b=ap[1]; k2.pw=2; want=am.m(); se=am.se(); } else { k2.a=(int)c.rng.below(n); int s=2+(int)c.rng.below(n-3); k2.b=(k2.a+s)%n; k2.pw=2; want=s*(n-s)/(n-1.0); se=0; } int M=4,steps=1500; double tot=0,var=0; for(int q=0;q<M;q++){ double er=-1; double r=drive(c,kind,g,T.t,f,R,n,steps,rp,k2,&er,c.rng.chance(0.5)); tot+=r/M; var+=er*er/(1.96*1.96*M*M); } double sd=sqrt(var+se*se),z=fabs(tot-want)/(sd+1e-12); c.require(z<9,"expect-value",w+fmt(" integrand %d (vertices %d %d): %.6g want %.6g, %.1f standard errors",what,k2.a,k2.b,tot,want,z)); c.maxi("z_times_10",(long)(z*10)); c.count("expectations"); }
  c.seen(hstr(w)^mix(j)); c.count(kn[kind]); c.count("chain_steps",4*1500*(kind==0?3:2)); }
static void m_log(Case&c){ int kind=(int)c.rng.below(3),n=4+(int)c.rng.below(c.rng.chance(0.5)?20:140); Rg g(c.rng.next()); int k=kind==1?0:(int)c.rng.below(5); Tri T(make(c,k,n,g)); double f=1,R=0; if(kind==1) R=c.rng.unif(1.05,3); if(kind==2) f=c.rng.unif(0.1,0.9)*(n-1); string w=fmt("driver %d %s n=%d",kind,tname[k],n); tsmcmc_run_parameters rp=kind==1?tsmcmc_default_confined_parameters():tsmcmc_default_unconfined_parameters(); rp.burn_in=1+(int)c.rng.below(20); rp.log_interval=1+(int)c.rng.below(4); rp.moment_polytope_repeat=1+(int)c.rng.below(4); int steps=rp.burn_in+6+(int)c.rng.below(40); size_t ln=c.rng.chance(0.5)?c.rng.below(40):c.rng.below(4000); string name(ln,'q'); strcpy(rp.logfile_name,name.c_str()); { char*m=tsmcmc_run_params_MathematicaForm(rp); string s(m); free(m); c.require(s.find("\""+name+"\" }")!=string::npos&&s.find(fmt("\"burn in steps\" -> %d,",rp.burn_in))!=string::npos,"params-form",s.substr(0,200)); } char*b=0; size_t z=0; FILE*lf=open_memstream(&b,&z); rp.logfile=lf; Watch k2; k2.c=&c; k2.n=n; k2.f=f; k2.R=R; k2.w=w; k2.a=0; k2.b=2; k2.pw=2; struct G{FILE*f;char**b;~G(){ fclose(f); free(*b);}} gd{lf,&b}; double er; drive(c,kind,g,T.t,f,R,n,steps,rp,k2,c.rng.chance(0.8)?&er:NULL,c.rng.chance(0.5)); fflush(lf); string t(b,z); size_t p=0; int lines=0; while((p=t.find("{ \"step number\"->",p))!=string::npos){ int s=-1; double iv=NAN,sm=NAN; sscanf(t.c_str()+p,"{ \"step number\"->%d",&s); size_t q=t.find("\"integrand\"->",p),q2=t.find("\"sample mean\"->",p); c.require(q!=string::npos&&q2!=string::npos,"log-form",w); sscanf(t.c_str()+q,"\"integrand\"->%lf",&iv); sscanf(t.c_str()+q2,"\"sample mean\"->%lf",&sm); c.require(s>=0&&s<steps&&s%rp.log_interval==0,"log-step",w+fmt(" step %d",s)); if(s>rp.burn_in){ int used=s-rp.burn_in; ld su=0; for(int i=0;i<used;i++) su+=k2.v[i]; c.require(near(iv,k2.v[used-1],1e-3,1e-4),"log-integrand",w+fmt(" step %d: %g want %g",s,iv,k2.v[used-1])); c.require(near(sm,su/used,1e-3,1e-4),"log-mean",w+fmt(" step %d: %g want %Lg",s,sm,su/used)); lines++; } p+=5; } int want=0; for(int s=rp.burn_in+1;s<steps;s++) if(s%rp.log_interval==0) want++; c.require(lines==want,"log-lines",w+fmt(" %d lines want %d",lines,want)); c.count("log_lines",lines); c.seen(hstr(w)^mix(steps)); c.maxi("edges",n); }
int main(int argc,char**argv){ return run(argc,argv,{{"tri",m_tri},{"embed",m_embed},{"steps",m_steps},{"geyer",m_geyer},{"expect",m_expect},{"log",m_log}}); }
