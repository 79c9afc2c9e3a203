// Random polygons: exact shape guarantees, and the probability distributions they are documented to have.
#include "plclib.hpp"
#include <gsl/gsl_randist.h>
extern "C" {
double plc_xoshiro_uniform(uint64_t *state);
bool plc_is_sap(plCurve *L);
}
using namespace plm;
struct Rg { gsl_rng*r; Rg(u64 s){ r=gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r,(unsigned long)(s&0x7fffffff)+1); } ~Rg(){ gsl_rng_free(r);} operator gsl_rng*(){return r;} Rg(const Rg&)=delete; };
enum Kind { CS, OS, CP, OP, EC, EO, NK };
static const char*kname[]={"closed","open","closed_plane","open_plane","equilateral_closed","equilateral_open"};
static plCurve*make(int k,gsl_rng*r,int n){ switch(k){ case CS: return plc_random_closed_polygon(r,n); case OS: return plc_random_open_polygon(r,n); case CP: return plc_random_closed_plane_polygon(r,n); case OP: return plc_random_open_plane_polygon(r,n); case EC: return plc_random_equilateral_closed_polygon(r,n); default: return plc_random_equilateral_open_polygon(r,n); } }
static bool isclosed(int k){ return k==CS||k==CP||k==EC; }
static vector<L3> edges(plCurve*L,int cp=0){ vector<L3> e; auto&s=L->cp[cp]; for(int i=0;i<s.nv-(s.open?1:0);i++) e.push_back(l(of(s.vt[i+1]))-l(of(s.vt[i]))); return e; }
// ---- shape --------------------------------------------------------------------------------------
static void shape(Case&c,plCurve*L,int k,int n){ string w=fmt("%s n=%d",kname[k],n); c.require(L!=NULL,"rand-null",w); c.require(L->nc==1,"rand-components",w); auto&s=L->cp[0]; c.require(s.open==!isclosed(k),"rand-open-flag",w); c.require(s.nv==n+(isclosed(k)?0:1),"rand-vertex-count",w+fmt(" nv %d",s.nv)); Curve m=fromPlc(L); for(auto&v:m[0].v) for(int i=0;i<3;i++) c.require(std::isfinite(v[i]),"rand-not-finite",w); string d=diff(L,m); c.require(d=="","rand-wrap",w+" "+d); c.require(L->cst==NULL&&s.cc==0,"rand-decoration",w);
  auto e=edges(L); ld len=0,eq=k==EC?1.0L:2.0L/n; L3 sum={{0,0,0}}; for(auto&x:e){ len+=norm(x); sum=sum+x; } c.require(near((double)len,k==EC?(ld)n:2.0L,1,1e-9),"rand-length",w+fmt(" length %.15Lg",len)); if(isclosed(k)) c.require(norm(sum)<1e-9,"rand-not-closed",w); if(k==EC||k==EO) for(size_t i=0;i<e.size();i++) c.require(near((double)norm(e[i]),eq,1e-3,1e-8),"rand-edge-length",w+fmt(" edge %zu length %.15Lg want %.15Lg",i,norm(e[i]),eq));
  if(k==CP||k==OP){ // all vertices in one plane
    for(auto&v:m[0].v) c.require(fabs(v[0])<1e-9||fabs(v[1])<1e-9||fabs(v[2])<1e-9,"rand-not-planar",w); int ax=-1; for(int i=0;i<3;i++){ bool z=true; for(auto&v:m[0].v) if(fabs(v[i])>1e-9) z=false; if(z) ax=i; } c.require(ax>=0,"rand-not-planar",w); }
  c.seen(fp(m)); c.count(kname[k]); c.maxi("edges",n); }
static void m_poly(Case&c){ int k=(int)c.rng.below(NK); int n; double z=c.rng.unif(); n=z<0.5?3+(int)c.rng.below(8):z<0.93?3+(int)c.rng.below(80):z<0.995?80+(int)c.rng.below(400):k==EC?480+(int)c.rng.below(2521):500+(int)c.rng.below(3000); if(!isclosed(k)&&c.rng.chance(0.1)) n=1+(int)c.rng.below(2); u64 s=c.rng.next(); Rg r(s); int reps=n<100?3:1; u64 prev=0; vector<Curve> h; for(int q=0;q<reps;q++){ PL L(make(k,r,n)); shape(c,L,k,n); h.push_back(fromPlc(L)); u64 f=fp(h.back()); if(n>=4) c.require(f!=prev,"rand-repeats-itself",fmt("%s n=%d",kname[k],n)); prev=f; }
  Rg r2(s); for(int q=0;q<reps;q++){ PL L(make(k,r2,n)); string d=diff(L,h[q]); c.require(d=="","rand-not-determined-by-seed",fmt("%s n=%d: ",kname[k],n)+d); } }
// ---- distributions --------------------------------------------------------------------------------
// incomplete beta by numeric integration of the density (a,b small, smooth after substitution)
struct Cdf { vector<double> x,F; double at(double v)const{ if(v<=x.front()) return 0; if(v>=x.back()) return 1; size_t i=std::upper_bound(x.begin(),x.end(),v)-x.begin(); double t=(v-x[i-1])/(x[i]-x[i-1]); return F[i-1]+t*(F[i]-F[i-1]); } };
template<class D> static Cdf tab(double lo,double hi,int m,D dens){ Cdf k; double a=0; for(int i=0;i<=m;i++){ double v=lo+(hi-lo)*i/m; if(i) { double h=(hi-lo)/m; a+=h*dens(v-h/2); } k.x.push_back(v); k.F.push_back(a); } for(auto&f:k.F) f/=a; return k; }
static double ks(vector<double> v,const Cdf&k){ std::sort(v.begin(),v.end()); double d=0,n=(double)v.size(); for(size_t i=0;i<v.size();i++){ double F=k.at(v[i]); d=std::max(d,std::max(fabs(F-i/n),fabs((i+1)/n-F))); } return d*sqrt(n); }
static double ks2(vector<double> a,vector<double> b){ std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); size_t i=0,j=0; double d=0; while(i<a.size()&&j<b.size()){ double v=std::min(a[i],b[j]); while(i<a.size()&&a[i]<=v) i++; while(j<b.size()&&b[j]<=v) j++; d=std::max(d,fabs((double)i/a.size()-(double)j/b.size())); } return d*sqrt((double)a.size()*b.size()/(a.size()+b.size())); }
static const double KS=3.4, ZS=6.5; // about 1e-10 either way
struct Mean { double n=0,s=0,q=0; void add(double v){ n++; s+=v; q+=v*v; } double m()const{return s/n;} double z(double want)const{ double var=std::max(q/n-m()*m(),1e-30); return (m()-want)/sqrt(var/n); } };
static double e2(int k,int n){ switch(k){ case CS: return 6.0/(n*(n+1.0)); case OS: return 6.0/(n*(n+0.5)); case CP: return 8.0/(n*(n+2.0)); case OP: return 8.0/(n*(n+1.0)); case EC: return 1; default: return 4.0/n/n; } }
static double chord2(int k,int n,int j){ return isclosed(k)?e2(k,n)*j*(n-j)/(n-1.0):e2(k,n)*j; }
// q_k(r)=p_k(r)/r on a grid, p_k the density of |sum of k random unit vectors|
static vector<vector<double>> qtab(int n,int m){ vector<vector<double>> q(n+1); int R=n*m; q[1].assign(R+1,0); q[2].assign(R+1,0); for(int i=0;i<=2*m&&i<=R;i++) q[2][i]=0.5; for(int k=3;k<=n;k++){ vector<double> cum(R+2,0); for(int i=0;i<R;i++) cum[i+1]=cum[i]+0.5*(q[k-1][i]+q[k-1][i+1])/m; q[k].assign(R+1,0); for(int i=0;i<=R;i++){ int a=abs(i-m),b=std::min(R,i+m); if(b>a) q[k][i]=0.5*(cum[b]-cum[a]); } } return q; }
static void m_dist(Case&c){ int k=(int)c.rng.below(NK),n=(isclosed(k)?4:2)+(int)c.rng.below(c.rng.chance(0.7)?7:26),N=c.rng.chance(0.2)?6000:1500; string w=fmt("%s n=%d N=%d",kname[k],n,N); Rg r(c.rng.next()); c.sample(w);
  int a=(int)c.rng.below(n),j=1+(int)c.rng.below(n-1); if(!isclosed(k)){ a=(int)c.rng.below(n+1-j); } int b=(a+j)%(isclosed(k)?n:n+1);
  Mean ch,all,iso[3],edge; vector<double> el,cd,az,pz; int g=(int)c.rng.below(n); Mean full; vector<Mean> per(n);
  for(int q=0;q<N;q++){ PL L(make(k,r,n)); auto&s=L->cp[0]; double d=plc_distance(s.vt[a],s.vt[b]); ch.add(d*d); cd.push_back(d); auto e=edges(L); el.push_back((double)norm(e[g])); edge.add(el.back()); for(int i=0;i<n;i++) per[i].add((double)norm(e[i])); double t=0; int cnt=0; for(int i=0;i<(isclosed(k)?n:n+1-j);i++){ double x=plc_distance(s.vt[i],s.vt[(i+j)%(isclosed(k)?n:n+1)]); t+=x*x; cnt++; } all.add(t/cnt);
    if(k==CS||k==OS||k==EO){ ld m=norm(e[g]); for(int i=0;i<3;i++) iso[i].add((double)(e[g].x[i]*e[g].x[i]/(m*m))); az.push_back(atan2((double)e[g].x[1],(double)e[g].x[0])); pz.push_back((double)(e[g].x[2]/m)); } else if(k!=EC){ double u=0,v=0; int f=0; for(int i=0;i<3;i++){ bool zero=true; for(int z=0;z<s.nv;z++) if(fabs(s.vt[z].c[i])>1e-12) zero=false; if(zero&&f!=3){ u=(double)e[g].x[(i+1)%3]; v=(double)e[g].x[(i+2)%3]; f=3; } } if(f==3) az.push_back(atan2(v,u)); } }
  double want=chord2(k,n,j); c.require(fabs(ch.z(want))<ZS||fabs(ch.m()-want)<1e-9,"rand-chord-mean",w+fmt(" chord %d..%d mean square %.6g want %.6g (%.1f sigma)",a,b,ch.m(),want,ch.z(want))); c.require(fabs(all.z(want))<ZS||fabs(all.m()-want)<1e-9,"rand-chord-mean-all",w+fmt(" skip %d mean square %.6g want %.6g",j,all.m(),want)); double me=k==EC?1:2.0/n; for(int i=0;i<n;i++) c.require(fabs(per[i].z(me))<ZS||fabs(per[i].m()-me)<1e-9,"rand-edge-mean",w+fmt(" edge %d mean %.6g want %.6g",i,per[i].m(),me));
  if(k<=OP&&n>=4){ double al=k==CS||k==OS?2:1,be=k==CS?n-2:k==OS?2*n-2:k==CP?(n-2)/2.0:n-1,sc=k==CS||k==CP?1:2; Cdf t=tab(0,1,20000,[&](double x){ return pow(x,al-1)*pow(1-x,be-1); }); for(auto&v:t.x) v*=sc; double d=ks(el,t); c.require(d<KS,"rand-edge-distribution",w+fmt(" edge %d: KS %.2f",g,d)); c.count("edge_distributions"); }
  if(az.size()>500){ Cdf t=tab(-M_PI,M_PI,4,[](double){return 1.0;}); double d=ks(az,t); c.require(d<KS,"rand-direction-azimuth",w+fmt(" edge %d: KS %.2f",g,d)); }
  if(pz.size()>500){ Cdf t=tab(-1,1,4,[](double){return 1.0;}); double d=ks(pz,t); c.require(d<KS,"rand-direction-height",w+fmt(" edge %d: KS %.2f",g,d)); for(int i=0;i<3;i++) c.require(fabs(iso[i].z(1/3.0))<ZS,"rand-isotropy",w); }
  if((k==EC||k==EO)&&j>=2&&(k==EO||n-j>=2)){ int m=400; auto q=qtab(n,m); int hi=k==EC?std::min(j,n-j):j; Cdf t=tab(0,hi,4000,[&](double x){ auto val=[&](int kk){ double y=x*m; int i=(int)y; double f=y-i; return i+1<(int)q[kk].size()?q[kk][i]*(1-f)+q[kk][i+1]*f:0.0; }; return k==EC?val(j)*val(n-j):val(j)*x; }); if(k==EO) for(auto&v:t.x) v*=2.0/n; double d=ks(cd,t); c.require(d<KS,"rand-chord-distribution",w+fmt(" chord %d..%d: KS %.2f",a,b,d)); c.count("chord_distributions"); }
  c.seen(mix(k*1000+n)^mix(a*64+j)); c.count(kname[k]); c.count("samples",N); }
// ---- directions ------------------------------------------------------------------------
static void m_dirs(Case&c){ Rg r(c.rng.next()); int N=1500,kind=c.rng.chance(0.5)?0:2; vector<double> az[3],pz[3]; if(kind==0) srand((unsigned)c.rng.below(1u<<30)+1); for(int q=0;q<N;q++){ plc_vector v[3]; if(kind==0) v[0]=v[1]=v[2]=plc_random_vect(); else { plc_vector p; double R=2; p=plc_build_vect(0,0,0); plc_perturb_vect(r,&p,R); double d=plc_norm(p); c.require(d<=R*(1+1e-12)&&d>0,"rand-perturb-radius",fmt("%.15g",d)); pz[1].push_back(pow(d/R,3)*2-1); v[0]=plc_scale_vect(1/d,p); v[1]=v[2]=v[0]; }
    for(int i=0;i<(kind==1?3:1);i++){ c.require(near(plc_norm(v[i]),1,1,1e-9),"rand-direction-unit",fmt("%.15g",plc_norm(v[i]))); az[i].push_back(atan2(v[i].c[1],v[i].c[0])); pz[i].push_back(v[i].c[2]); } }
  for(int i=0;i<3;i++){ if(az[i].size()){ double d=ks(az[i],tab(-M_PI,M_PI,4,[](double){return 1.0;})); c.require(d<KS,"rand-dir-azimuth",fmt("kind %d: KS %.2f",kind,d)); } if(pz[i].size()){ double d=ks(pz[i],tab(-1,1,4,[](double){return 1.0;})); c.require(d<KS,"rand-dir-height",fmt("kind %d vector %d: KS %.2f",kind,i,d)); } } c.seen(c.rng.next()); c.count("vectors",N); }
// ---- self-avoiding polygons ------------------------------------------------------------------------
static bool avoids(const Curve&k,double&margin){ vector<V> p; for(auto&s:k) for(auto&v:s.v) p.push_back(v); bool ok=true; margin=1e9; for(size_t i=0;i<p.size();i++) for(size_t j=0;j<i;j++){ ld d=dist(p[i],p[j]); d*=d; margin=std::min(margin,(double)fabsl(d-1)); if(d<1-1e-10L) ok=false; } return ok; }
static void m_sap(Case&c){ int n=5+(int)c.rng.below(c.rng.chance(0.97)?10:18); u64 seed=c.rng.chance(0.1)?c.rng.below(3):c.rng.next(); uint64_t*x=plc_xoshiro_init(seed); struct F{uint64_t*x;~F(){plc_xoshiro_free(x);}} f{x}; int reps=n<12?4:1; vector<Curve> h; string w=fmt("n=%d seed=%llu",n,(unsigned long long)seed); for(int q=0;q<reps;q++){ PL L(plc_random_equilateral_closed_self_avoiding_polygon(x,n)); c.require(L.p!=NULL&&L->nc==1&&!L->cp[0].open&&L->cp[0].nv==n,"sap-layout",w); Curve k=fromPlc(L); string d=diff(L,k); c.require(d=="","sap-wrap",w+d); for(int i=0;i<n;i++){ c.require(near((double)dist(k[0].v[i],k[0].v[(i+1)%n]),1,0,1e-8),"sap-edge-length",w+fmt(" edge %d %.15Lg",i,dist(k[0].v[i],k[0].v[(i+1)%n]))); for(int j=0;j<i;j++){ ld t=dist(k[0].v[i],k[0].v[j]); c.require(t*t>=1-2e-9L,"sap-overlap",w+fmt(" vertices %d %d at %.12Lg",i,j,t)); } } h.push_back(k); c.seen(fp(k)); }
  uint64_t*y=plc_xoshiro_init(seed); F g{y}; for(int q=0;q<reps;q++){ PL L(plc_random_equilateral_closed_self_avoiding_polygon(y,n)); string d=diff(L,h[q]); c.require(d=="","sap-not-determined-by-seed",w+d); } for(int q=1;q<reps;q++) c.require(fp(h[q])!=fp(h[q-1]),"sap-repeats",w);
  for(int q=0;q<50;q++){ double u=plc_xoshiro_uniform(y); c.require(u>=0&&u<=1,"sap-uniform-range",fmt("%.17g",u)); }
  // the public test of self-avoidance
  Curve k=h[0]; if(c.rng.chance(0.5)){ double sc=c.rng.unif(0.9,1.2); for(auto&s:k) for(auto&v:s.v) for(int i=0;i<3;i++) v[i]*=sc; } if(c.rng.chance(0.3)){ k[0].v[c.rng.below(n)]=mk(c.rng.gauss(),c.rng.gauss(),c.rng.gauss()); } if(c.rng.chance(0.4)){ Strand s=h[reps-1][0]; double dx=c.rng.unif(0,8); for(auto&v:s.v) v[0]+=dx; k.push_back(s); } double mar; bool ok=avoids(k,mar); if(mar>1e-8){ PL L(toPlc(k)); bool got=plc_is_sap(L); c.require(got==ok,"sap-test",w+fmt(": plc_is_sap says %d, want %d, %zu components",got,ok,k.size())); c.count(ok?"sap_yes":"sap_no"); } c.maxi("edges",n); }
static vector<V> mysap(Rng&r,int n){ for(;;){ vector<double> d(n-1); d[0]=1; bool ok=true; for(int i=1;i<n-2&&ok;i++){ d[i]=d[i-1]+r.unif(-1,1); if(d[i]+d[i-1]<1||d[i]<=0) ok=false; } if(!ok||d[n-3]>2||d[n-3]<=0) continue; d[n-2]=1; vector<L3> p(n); p[0]={{0,0,0}}; p[1]={{1,0,0}}; for(int i=2;i<n;i++){ // place vertex i at distance d[i-1] from the origin, distance 1 from vertex i-1, at a random angle about the axis
      ld D=d[i-2],R=d[i-1],ca=(D*D+R*R-1)/(2*D*R),sa=sqrtl(std::max((ld)0,1-ca*ca)); L3 f=unit(p[i-1]); L3 t={{1,0,0}}; if(fabsl(f.x[0])>0.7) t={{0,1,0}}; L3 g=unit(cross(f,t)),hh=cross(f,g); ld th=r.unif(0,2*M_PI); p[i]=(R*ca)*f+(R*sa)*(cosl(th)*g+sinl(th)*hh); } for(int i=0;i<n&&ok;i++) for(int j=0;j<i;j++){ L3 q=p[i]-p[j]; if(dot(q,q)<1-1e-9L) { ok=false; break; } } if(!ok) continue; vector<V> o; for(auto&q:p) o.push_back(lv(q)); return o; } }
static void m_sapdist(Case&c){ int n=5+(int)c.rng.below(5),N=n<8?1200:500; uint64_t*x=plc_xoshiro_init(c.rng.next()); struct F{uint64_t*x;~F(){plc_xoshiro_free(x);}} f{x}; int a=(int)c.rng.below(n),j=2+(int)c.rng.below(n-3),b=(a+j)%n; int t0=(int)c.rng.below(n); vector<double> A,B,U,V1; for(int q=0;q<N;q++){ PL L(plc_random_equilateral_closed_self_avoiding_polygon(x,n)); auto p=mysap(c.rng,n); vector<V> m=fromPlc(L)[0].v; A.push_back((double)dist(m[a],m[b])); B.push_back((double)dist(p[a],p[b])); auto vol=[&](vector<V>&z){ L3 e[3]; for(int i=0;i<3;i++) e[i]=l(z[(t0+i+1)%n])-l(z[(t0+i)%n]); return (double)dot(e[0],cross(e[1],e[2])); }; U.push_back(vol(m)); V1.push_back(vol(p)); }
  double d=ks2(A,B); c.require(d<KS,"sap-chord-distribution",fmt("n=%d chord %d..%d: KS %.2f",n,a,b,d)); d=ks2(U,V1); c.require(d<KS,"sap-twist-distribution",fmt("n=%d at %d: KS %.2f",n,t0,d)); c.seen(mix(n*100+a)^j); c.count("samples",N); }
// ---- loop closure ----------------------------------------------------------------------------------
static void m_closure(Case&c){ Rg r(c.rng.next()); int n=4+(int)c.rng.below(20); Curve k; bool fromloop=c.rng.chance(0.8); if(fromloop){ PL P(c.rng.chance(0.5)?plc_random_closed_polygon(r,n):plc_random_closed_plane_polygon(r,n)); int keep=2+(int)c.rng.below(n-1); auto v=fromPlc(P)[0].v; v.resize(std::min((int)v.size(),keep)); Strand s; s.open=true; s.v=v; s.cst.resize(v.size()); k.push_back(s); } else { Strand s; s.open=true; int m=2+(int)c.rng.below(6); V p=mk(c.rng.gauss(),c.rng.gauss(),c.rng.gauss()); bool ax=c.rng.chance(0.5); double st=c.rng.unif(0.05,1.9)/m; for(int i=0;i<m;i++){ s.v.push_back(p); if(ax){ int q=(int)c.rng.below(3); p[q]+=c.rng.chance(0.5)?st:-st; } else { V d=lv(unit(l(mk(c.rng.gauss(),c.rng.gauss(),c.rng.gauss())))); for(int i2=0;i2<3;i2++) p[i2]+=st*d[i2]; } } s.cst.resize(s.v.size()); k.push_back(s); }
  if(c.rng.chance(0.3)){ int cc=c.rng.chance(0.5)?1:(int)k[0].v.size(); for(int i=0;i<cc;i++) k[0].clr.push_back(color(c.rng)); } int cp=0; if(c.rng.chance(0.4)){ int extra=1+(int)c.rng.below(2); for(int q=0;q<extra;q++){ Strand s; s.open=c.rng.chance(0.5); int m=3+(int)c.rng.below(4); for(int i=0;i<m;i++) s.v.push_back(mk(c.rng.gauss()*0.01,c.rng.gauss()*0.01,c.rng.gauss()*0.01)); s.cst.resize(m); k.insert(k.begin()+c.rng.below(k.size()+1),s); } for(size_t i=0;i<k.size();i++) if(scale_of({k[i]})>0.1||k[i].clr.size()) cp=(int)i; } if(!k[cp].open) throw Skip(); int m=(int)k[cp].v.size(); int ne=m-1+(int)c.rng.below(c.rng.chance(0.3)?3:12); if(fromloop&&c.rng.chance(0.2)) ne=n; PL L(toPlc(k)); ld tot=0; for(int i=0;i<L->nc;i++) for(auto&e:edges(L,i)) tot+=norm(e); ld gap=dist(k[cp].v[0],k[cp].v[m-1]),slack=2-tot-gap; int q=ne-(m-1); bool poss; if(fabsl(slack)<1e-11L&&q==1) poss=true; else if(fabsl(slack)<1e-6L) throw Skip(); else poss=slack>0&&q>1; string w=fmt("closing component %d of %zu: %d vertices, gap %.12Lg, slack %.12Lg, %d edges in all",cp,k.size(),m,gap,slack,ne);
  if(tot+gap<1e-6) throw Skip(); PL M(plc_loop_closure(r,cp,L,ne)); string d=diff(L,k); c.require(d=="","closure-modified-input",d); if(!poss){ c.require(M.p==NULL,"closure-of-impossible",w); c.count("refused"); return; } c.require(M.p!=NULL,"closure-refused",w); Curve o=fromPlc(M); c.require(o.size()==k.size()&&!o[cp].open&&(int)o[cp].v.size()==ne,"closure-layout",w+" got "+show(o)); d=diff(M,o); c.require(d=="","closure-wrap",d); for(int i=0;i<m;i++) c.require(same(o[cp].v[i],k[cp].v[i]),"closure-moved-vertex",w+fmt(" vertex %d",i)); for(size_t i=0;i<k.size();i++) if((int)i!=cp){ c.require(o[i].open==k[i].open&&o[i].v.size()==k[i].v.size(),"closure-other-component",w); for(size_t j=0;j<k[i].v.size();j++) c.require(same(o[i].v[j],k[i].v[j]),"closure-other-component",w); } ld len=0; for(int i=0;i<M->nc;i++) for(auto&e:edges(M,i)) len+=norm(e); c.require(near((double)len,2,1,1e-7),"closure-length",w+fmt(" length %.15Lg",len)); for(size_t j=0;j<k[cp].clr.size();j++) c.require(j<o[cp].clr.size()&&o[cp].clr[j]==k[cp].clr[j],"closure-colours",w); c.seen(fp(o)); c.count(k.size()>1?"multi":"single"); if(q==1) c.count("straight"); }
int main(int argc,char**argv){ return run(argc,argv,{{"poly",m_poly},{"dist",m_dist},{"dirs",m_dirs},{"sap",m_sap},{"sapdist",m_sapdist},{"closure",m_closure}}); }
