// the curve programs: ropelength, struts, mrlocs, plcurvature, randompolygon, knottype
#include "plclib.hpp"
#include <float.h>
#include <fcntl.h>
#include <sys/time.h>
extern "C" {
#include "octrope.h"
#include "plcTopology.h"
#include "polynomials.h"
char *pdcode_to_ccode(pd_code_t *pd);
char *plc_lmpoly(char *ccode,int timeout);
}
#include "clilib.hpp"
using namespace plm; using cli::good; using cli::Res; using cli::Dir;
static vector<string> lines(const string&s){ vector<string> r; std::istringstream i(s); string l; while(std::getline(i,l)) r.push_back(l); return r; }
static int edges(const Strand&s){ return (int)s.v.size()-(s.open?1:0); }
static L3 at(const Strand&s,int i){ int n=(int)s.v.size(); return l(s.v[((i%n)+n)%n]); }
// our own writer: 17 digits, so that the program sees exactly the doubles we have
static void save(const string&f,const Curve&k){ FILE*o=fopen(f.c_str(),"w"); int n=0; for(auto&s:k) n+=(int)s.v.size(); fprintf(o,"VECT\n%zu %d 0\n",k.size(),n); for(auto&s:k) fprintf(o,"%d ",s.open?(int)s.v.size():-(int)s.v.size()); fprintf(o,"\n"); for(size_t i=0;i<k.size();i++) fprintf(o,"0 "); fprintf(o,"\n"); for(auto&s:k) for(auto&v:s.v) fprintf(o,"%.17g %.17g %.17g\n",v[0],v[1],v[2]); fclose(o); }
static Curve curve(Rng&r,bool hairpin=false){ Curve k; int nc=r.chance(0.6)?1:1+(int)r.below(3); double sc=r.chance(0.3)?pow(10,r.unif(-2,2)):1; for(int q=0;q<nc;q++){ Strand s; s.open=r.chance(0.35); int st=(int)r.below(3),n=(s.open?2:3)+(int)r.below(r.chance(0.5)?8:40); V p=mk(r.gauss(),r.gauss(),r.gauss()); double off=q*r.unif(0,2),pa=2+(int)r.below(3),jit=pow(10,r.unif(-3,-0.7)); for(int i=0;i<n;i++){ double t=6.283185307179586*i/n+0.1; if(st==0) p=mk(cos(t)*(2+jit*r.gauss()),sin(t)*(2+jit*r.gauss()),jit*r.gauss()+off); else if(st==1) p=mk((2+cos(3*t))*cos(pa*t)+jit*r.gauss(),(2+cos(3*t))*sin(pa*t)+jit*r.gauss(),sin(3*t)+jit*r.gauss()+off); else p=mk(p[0]+r.gauss(),p[1]+r.gauss(),p[2]+r.gauss()); s.v.push_back(p); } k.push_back(s); } if(hairpin&&r.chance(0.1)&&k[0].v.size()>4){ k[0].v[1]=mk(1,2,3); k[0].v[2]=mk(4,2,3); k[0].v[3]=mk(2,2,3); } for(auto&s:k) for(auto&v:s.v) for(int j=0;j<3;j++) v[j]*=sc; for(auto&s:k) for(size_t i=0;i<s.v.size();i++) for(size_t j=0;j<i;j++) if(dist(s.v[i],s.v[j])<1e-7*sc) throw Skip(); for(auto&s:k) s.cst.resize(s.v.size()); return k; }
static string named(Rng&r,int i){ static const char*n[]={"a%d.vect","knot_%d.vect","x-%d.5.vect","c%d","run%d.dat"}; return fmt(n[r.below(5)],i); }
static string stem(const string&f){ size_t p=f.find(".vect"); return p==string::npos?f:f.substr(0,p); }
static string ctx(const string&p,const vector<string>&a,const Curve&k){ return cli::cmdline(p,a)+" "+show(k); }
static bool close(double a,double b,double rel=1e-9,double abs_=0){ return a==b||fabs(a-b)<=rel*std::max(fabs(a),fabs(b))+abs_; }
static double field(Case&c,const string&out,const string&name,const string&w){ size_t p=out.find(name); c.require(p!=string::npos,"missing-field",name+" :: "+out+" :: "+w); return strtod(out.c_str()+p+name.size(),NULL); }

static void m_rope(Case&c){ Dir D(c.i); int nf=c.rng.chance(0.6)?1:2+(int)c.rng.below(4); bool q=c.rng.chance(0.5); double lam=c.rng.chance(0.6)?1:c.rng.chance(0.2)?0:c.rng.unif(0.1,4); vector<Curve> k; vector<string> a,f; if(q) a.push_back(c.rng.chance(0.5)?"-q":"--quiet"); if(lam!=1){ a.push_back(c.rng.chance(0.5)?"-L":"--lambda"); a.push_back(fmt("%.17g",lam)); if(a.size()&&a[a.size()-2]=="--lambda"){ a[a.size()-2]="--lambda="+a.back(); a.pop_back(); } } bool diam=!q&&c.rng.chance(0.4),exc=nf==1&&c.rng.chance(0.3); if(diam) a.push_back("--diameter"); if(c.rng.chance(0.3)){ a.push_back("-l"); a.push_back(fmt("%d",1+(int)c.rng.below(8))); } for(int i=0;i<nf;i++){ k.push_back(curve(c.rng,true)); f.push_back(named(c.rng,i)); save(f[i],k[i]); }
  vector<double> rl,th,mr,ms,len; double best=1e300; int win=-1; for(int i=0;i<nf;i++){ PL L(toPlc(k[i])); double R=0,T=0,le=0,m=0,s=0; octrope_error_num=0; octrope(L,&R,&T,&le,&m,&s,0,0,NULL,0,NULL,0,0,NULL,0,NULL,NULL,0,lam); ld own=0; for(auto&z:k[i]) for(int j=0;j<edges(z);j++) own+=norm(at(z,j+1)-at(z,j)); if(T>1e100) throw Skip(); rl.push_back(T==0?INFINITY:(double)own/T); th.push_back(T); mr.push_back(m); ms.push_back(s); len.push_back((double)own); if(T>0&&rl[i]<best){ best=rl[i]; win=i; } } if(exc) for(int i=0;i<nf;i++) if(th[i]==0) exc=false; int nopen=0,og=-1; for(size_t i=0;i<k[0].size();i++) if(k[0][i].open){ nopen++; og=(int)i; } if(exc&&nopen!=1) exc=false; if(exc) a.push_back("--excesslength"); for(auto&x:f) a.push_back(x); string w=ctx("ropelength",a,k[0]); Res r=good(c,"ropelength",a,w); auto ls=lines(r.out);
  if(q){ c.require((int)ls.size()>=nf,"ropelength-lines",r.out+" "+w); size_t p=0; for(int i=0;i<nf;i++){ char*e=NULL; double v=strtod(ls[p].c_str(),&e); c.require(e&&*e==0&&e!=ls[p].c_str(),"ropelength-quiet-text",r.out+" "+w); c.require(close(v,rl[i],1e-9),"ropelength-quiet-value",fmt("file %d: %.17g want %.17g ",i,v,rl[i])+w); p++; if(exc&&i==0){ c.require(p<ls.size()&&ls[p].find("excesslength: ")!=string::npos,"ropelength-excess",r.out+w); p++; } } c.count("quiet"); }
  else for(int i=0;i<nf;i++){ string o; for(auto&x:ls) if(x.compare(0,f[i].size()+1,f[i]+":")==0) o+=x+"\n"; if(th[i]==0){ c.require(o.find("Ropelength: infinity")!=string::npos,"ropelength-infinite",o+w); c.count("zero_thickness"); } else { c.require(close(field(c,o,":Ropelength: ",w),rl[i],1e-9,1e-6),"ropelength-value",o+fmt("want %.12g ",rl[i])+w); c.require(close(field(c,o,"  Thickness: ",w),th[i],1e-9,1e-6),"ropelength-thickness",o+w); c.require(close(field(c,o,"Diameter Ropelength: ",w),rl[i]/2,1e-9,1e-6)&&close(field(c,o,"Diameter Thickness: ",w),2*th[i],1e-9,1e-6),"ropelength-diameter",o+w); } int ne=0; for(auto&s:k[i]) ne+=edges(s); c.require((int)field(c,o,"Edges: ",w)==ne&&close(field(c,o,"Average Edgelength: ",w),len[i]/ne,1e-9,1e-6),"ropelength-edges",o+w); if(ms[i]<1e100) c.require(close(field(c,o,"minStrut: ",w),ms[i],1e-9,1e-6),"ropelength-minstrut",o+w); if(lam>0&&mr[i]<1e100) c.require(close(field(c,o,"minRad: ",w),mr[i],1e-9,1e-6),"ropelength-minrad",o+w); if(lam==0) c.require(o.find("minRad: (not recorded)")!=string::npos,"ropelength-minrad-unrecorded",o+w); if(diam){ ld d=0; vector<V> v; for(auto&s:k[i]) for(auto&p:s.v) v.push_back(p); for(auto&x:v) for(auto&y:v) d=std::max(d,dist(x,y)); c.require(close(field(c,o,"Pointset Diameter: ",w),(double)d,1e-5),"ropelength-pointset",o+w); } }
  if(exc) c.require(close(field(c,r.out,"excesslength: ",w),rl[0]-(double)dist(k[0][og].v[0],k[0][og].v.back()),1e-8,2e-6),"ropelength-excess-value",r.out+w);
  if(nf>1&&win>=0){ string last; for(auto&x:ls) if(x.find(" Rop: ")!=string::npos) last=x; c.require(last.compare(0,f[win].size()+6,f[win]+" Rop: ")==0,"ropelength-winner",last+" want "+f[win]+" "+w); c.require(close(field(c,last," Rop: ",w),best,1e-5)&&close(field(c,last," Thi: ",w),th[win],1e-5),"ropelength-winner-value",last+w); c.count("several_files"); } c.seen(fp(k[0])^mix(nf)); c.sample(w.substr(0,200)); }

struct St { int c0,v0,c1,v1; double p0,p1,len; L3 e[2]; };
static void m_struts(Case&c){ Dir D(c.i); Curve k=curve(c.rng); string f=named(c.rng,0); string dir; if(c.rng.chance(0.2)){ mkdir("sub",0700); dir="sub/"; } save(dir+f,k); PL L(toPlc(k)); int ne=plc_num_edges(L),how=(int)c.rng.below(3); double sc=scale_of(k),eps=0,rad=0; octrope_error_num=0; double poca=octrope_poca(L,NULL,0); vector<string> a; double cutoff=1.0; if(how==1){ eps=c.rng.chance(0.3)?1e-3*sc:sc*pow(10,c.rng.unif(-3,0.3)); a={"-e",fmt("%.17g",eps)}; cutoff=0; if(poca>1e100) throw Skip(); } if(how==2){ rad=(poca<1e100?poca:1)*c.rng.unif(0.3,2.5); a={fmt("--radius=%.17g",rad)}; cutoff=2*rad; if(rad<=0) throw Skip(); } bool S=c.rng.chance(0.5),sv=c.rng.chance(0.3),nf=c.rng.chance(0.3),st=c.rng.chance(0.4); int room=20*ne; if(S) a.push_back("-S"); if(sv) a.push_back("--sv"); if(nf) a.push_back("-n"); if(st) a.push_back("-s"); int lev=c.rng.chance(0.3)?1+(int)c.rng.below(8):0; if(lev){ a.push_back("-l"); a.push_back(fmt("%d",lev)); }
  vector<octrope_strut> sl(room+1); double sh=0; octrope_set_levels(lev); int n=octrope_struts(L,cutoff,how==1?eps:0,sl.data(),room,&sh,NULL,0); octrope_set_levels(0); c.require(n>=0&&n<=room,"struts-count",""); if(n>=room) throw Skip(); vector<St> want; for(int i=0;i<n;i++){ auto&s=sl[i]; St x={s.component[0],s.lead_vert[0],s.component[1],s.lead_vert[1],s.position[0],s.position[1],s.length,{}}; for(int q=0;q<2;q++){ auto&z=k[s.component[q]]; L3 u=at(z,s.lead_vert[q]),v=at(z,s.lead_vert[q]+1); x.e[q]=u+(ld)s.position[q]*(v-u); } want.push_back(x); }
  a.push_back(dir+f); string w=ctx("struts",a,k); Res r=good(c,"struts",a,w); auto ls=lines(r.out); string out=stem(f)+".struts.skel"; bool file=!nf&&!sv; c.require(cli::exists(out)==file,"struts-file",w); vector<char> used; auto match=[&](auto pred,const char*key,const string&what){ for(size_t i=0;i<want.size();i++) if(!used[i]&&pred(want[i])){ used[i]=1; return; } c.fail(key,what+" "+w); }; auto reset=[&]{ used.assign(want.size(),0); }; auto pt=[&](L3 p,double x,double y,double z,double rel){ return fabs((double)p.x[0]-x)<=rel*(fabs(x)+sc)&&fabs((double)p.x[1]-y)<=rel*(fabs(y)+sc)&&fabs((double)p.x[2]-z)<=rel*(fabs(z)+sc); };
  if(file){ auto q=lines(cli::slurp(out)); int nv=-1,nn=-1; c.require(q.size()>=2&&q[0]=="SKEL"&&sscanf(q[1].c_str(),"%d %d",&nv,&nn)==2&&nv==2*n&&nn==n&&(int)q.size()==2+3*n,"struts-skel-header",fmt("%d struts, %zu lines ",n,q.size())+w); reset(); for(int i=0;i<n;i++){ double x[6]; c.require(sscanf(q[2+2*i].c_str(),"%lf %lf %lf",x,x+1,x+2)==3&&sscanf(q[3+2*i].c_str(),"%lf %lf %lf",x+3,x+4,x+5)==3,"struts-skel-point",q[2+2*i]+w); match([&](St&s){ return pt(s.e[0],x[0],x[1],x[2],2e-5)&&pt(s.e[1],x[3],x[4],x[5],2e-5); },"struts-skel-strut",q[2+2*i]+" to "+q[3+2*i]); int u=-1,v=-1,b=-1; c.require(sscanf(q[2+2*n+i].c_str(),"%d %d %d",&b,&u,&v)==3&&b==2&&u==2*i&&v==2*i+1,"struts-skel-edge",q[2+2*n+i]+w); } c.require(r.out.find(fmt("struts: %d struts written to %s.",n,out.c_str()))!=string::npos,"struts-report",r.out+w); } else c.require(r.out.find(fmt("struts: %d struts found.",n))!=string::npos,"struts-report",r.out+w);
  if(S){ reset(); int got=0; for(auto&x:ls){ int b[4]; double p[2]; if(sscanf(x.c_str(),"%d:%d - %d:%d %lf %lf",b,b+1,b+2,b+3,p,p+1)==6){ got++; match([&](St&s){ return s.c0==b[0]&&s.v0==b[1]&&s.c1==b[2]&&s.v1==b[3]&&fabs(s.p0-p[0])<1e-9&&fabs(s.p1-p[1])<1e-9; },"struts-shown",x); } } c.require(got==n,"struts-shown-count",fmt("%d of %d ",got,n)+w); }
  if(sv){ reset(); int got=0; for(auto&x:ls){ double e[6]; if(sscanf(x.c_str(),"%lf %lf %lf to %lf %lf %lf",e,e+1,e+2,e+3,e+4,e+5)==6){ got++; match([&](St&s){ return pt(s.e[0],e[0],e[1],e[2],1e-11)&&pt(s.e[1],e[3],e[4],e[5],1e-11); },"struts-ends-shown",x); } } c.require(got==n,"struts-ends-count",fmt("%d of %d ",got,n)+w); }
  if(st){ std::map<std::pair<int,int>,int> cnt; for(size_t i=0;i<k.size();i++) for(int j=0;j<edges(k[i]);j++) cnt[{(int)i,j}]=0; for(auto&s:want){ cnt[{s.c0,s.v0}]++; cnt[{s.c1,s.v1}]++; } vector<int> vals; for(auto&x:cnt) vals.push_back(x.second); std::sort(vals.rbegin(),vals.rend()); size_t row=0; std::set<std::pair<int,int>> listed; vector<double> lens; for(auto&s:want) lens.push_back(s.len); std::sort(lens.begin(),lens.end()); size_t row2=0; for(auto&x:ls){ int b[5]; double d; if(sscanf(x.c_str(),"Comp: %d  Lead Vert: %d  # of struts: %d.",b,b+1,b+2)==3){ auto it=cnt.find({b[0],b[1]}); c.require(it!=cnt.end()&&it->second==b[2]&&row<vals.size()&&vals[row]==b[2]&&listed.insert({b[0],b[1]}).second,"struts-table",x+" "+w); row++; } else if(sscanf(x.c_str(),"%lf %d:%d",&d,b,b+1)==3&&x.find('(')!=string::npos){ c.require(row2<lens.size()&&close(d,lens[row2],1e-5),"struts-length-table",x+" "+w); row2++; } } c.require(row==std::min<size_t>(10,cnt.size())&&row2==std::min<size_t>(10,lens.size()),"struts-table-rows",r.out+w); }
  c.count("struts",n); c.count(fmt("how_%d",how)); c.seen(fp(k)^mix(how)); c.sample(w.substr(0,150)); }

static void m_mrlocs(Case&c){ Dir D(c.i); Curve k=curve(c.rng,true); string f=named(c.rng,0); save(f,k); PL L(toPlc(k)); octrope_error_num=0; double mv=octrope_minradval(L),sc=scale_of(k); int how=(int)c.rng.below(3); vector<string> a; double lo=0.5,hi=0.5,eps=0; if(how==1){ if(mv>1e100) throw Skip(); eps=c.rng.chance(0.3)?1e-3*sc:sc*pow(10,c.rng.unif(-3,0.3)); a={fmt("--epsilon=%.17g",eps)}; lo=hi=mv+eps; } if(how==2){ double x=(mv<1e100&&mv>0?mv:1)*c.rng.unif(0.6,6); a={fmt("--lambda=%.17g",x)}; lo=x/2; hi=x; } bool st=c.rng.chance(0.5),nf=c.rng.chance(0.3); if(st) a.push_back("-s"); if(nf) a.push_back("--nofile"); a.push_back(f); string w=ctx("mrlocs",a,k);
  struct M{ int c,v; double r; }; vector<M> all; for(size_t i=0;i<k.size();i++){ auto&s=k[i]; int n=(int)s.v.size(); for(int j=s.open?1:0;j<(s.open?n-1:n);j++){ L3 x=at(s,j)-at(s,j-1),y=at(s,j+1)-at(s,j); ld t=angle(x,y); if(t<1e-9L) continue; ld g=1/(2*tanl(t/2)); all.push_back({(int)i,j,(double)(norm(x)*g)}); all.push_back({(int)i,j,(double)(norm(y)*g)}); } }
  Res r=good(c,"mrlocs",a,w); string out=stem(f)+".mrlocs"; c.require(cli::exists(out)==!nf,"mrlocs-file",w); auto check=[&](const vector<M>&g,const char*what){ vector<char> used(all.size(),0); double tol=1e-7*sc; for(auto&m:g){ bool hit=false; for(size_t i=0;i<all.size()&&!hit;i++) if(!used[i]&&all[i].c==m.c&&all[i].v==m.v&&close(all[i].r,m.r,1e-6,tol)){ used[i]=1; hit=true; } c.require(hit,"mrlocs-wrong",string(what)+fmt(" %d:%d %.12g ",m.c,m.v,m.r)+w); c.require(m.r<=hi*(1+1e-6)+tol,"mrlocs-above",string(what)+fmt(" %.12g limit %.12g ",m.r,hi)+w); } for(size_t i=0;i<all.size();i++) if(!used[i]) c.require(all[i].r>=lo*(1-1e-6)-tol,"mrlocs-missing",string(what)+fmt(" %d:%d %.12g limit %.12g ",all[i].c,all[i].v,all[i].r,lo)+w); };
  int n=-1; if(!nf){ auto q=lines(cli::slurp(out)); c.require(!q.empty()&&q[0]=="MRLOCS","mrlocs-header",w); vector<M> g; for(size_t i=1;i<q.size();i++){ M m; c.require(sscanf(q[i].c_str(),"%d %d %lf",&m.c,&m.v,&m.r)==3,"mrlocs-line",q[i]+w); g.push_back(m); } check(g,"file"); n=(int)g.size(); c.require(r.out.find(fmt("mrlocs: %d mrlocs written to %s.",n,out.c_str()))!=string::npos,"mrlocs-report",r.out+w); } else { size_t p=r.out.find(" mrlocs found."); c.require(p!=string::npos&&sscanf(r.out.c_str()+r.out.rfind("mrlocs: ",p),"mrlocs: %d",&n)==1,"mrlocs-report",r.out+w); if(!all.empty()) c.require(close(field(c,r.out,"mrlocs: minrad ",w),mv,1e-5,1e-7*sc),"mrlocs-minrad",r.out+w); }
  if(st){ vector<M> g; bool on=false; for(auto&x:lines(r.out)){ if(x.find("-----")!=string::npos){ on=true; continue; } M m; if(on&&sscanf(x.c_str(),"%d %d %lf",&m.c,&m.v,&m.r)==3){ if(!g.empty()) c.require(g.back().r<=m.r,"mrlocs-unsorted",x+w); g.push_back(m); } } check(g,"table"); c.require((int)g.size()==n,"mrlocs-table-size",fmt("%zu of %d ",g.size(),n)+w); } c.count("locations",n); c.count(fmt("how_%d",how)); c.seen(fp(k)^mix(how)); }

static void m_curv(Case&c){ Dir D(c.i); Curve k=curve(c.rng); string f=named(c.rng,0); save(f,k); vector<string> a; string out=stem(f)+".curvature.dat"; if(c.rng.chance(0.4)){ out="res.txt"; a={"-o",out}; } a.push_back(f); string w=ctx("plcurvature",a,k); double sc=scale_of(k); Res r=good(c,"plcurvature",a,w); c.require(cli::exists(out),"curvature-file",w); size_t cp=0,vt=0; ld s=0; int rows=0; for(auto&x:lines(cli::slurp(out))){ if(x.empty()||x[0]=='#') continue; int ci,vi; double S,K; char inv[64]; c.require(sscanf(x.c_str(),"%d %d %lf %lf %63s",&ci,&vi,&S,&K,inv)==5,"curvature-line",x+w); while(cp<k.size()&&vt>=k[cp].v.size()){ cp++; vt=0; s=0; } c.require(cp<k.size()&&ci==(int)cp&&vi==(int)vt,"curvature-order",x+w); auto&z=k[cp]; int n=(int)z.v.size(); bool lastopen=z.open&&(int)vt==n-1; if(!lastopen){ s+=norm(at(z,(int)vt+1)-at(z,(int)vt)); c.require(close(S,(double)s,1e-5,1e-6*sc),"curvature-arclength",x+fmt(" want %.8Lg ",s)+w); } ld want=0; if(!(z.open&&(vt==0||lastopen))){ L3 p=at(z,(int)vt)-at(z,(int)vt-1),q=at(z,(int)vt+1)-at(z,(int)vt); ld t=angle(p,q); want=2*tanl(t/2)/std::min(norm(p),norm(q)); } c.require(want>1e5/sc||close(K,(double)want,1e-4,1e-5/sc),"curvature-value",x+fmt(" want %.8Lg ",want)+w); double iv=strtod(inv,NULL); if(K!=0) c.require(close(iv*K,1,1e-4),"curvature-radius",x+w); vt++; rows++; } int nv=0; for(auto&z:k) nv+=(int)z.v.size(); c.require(rows==nv,"curvature-rows",fmt("%d of %d ",rows,nv)+w);
  ld tot=0; vector<ld> by; for(auto&z:k){ ld t=0; int n=(int)z.v.size(); for(int j=z.open?1:0;j<(z.open?n-1:n);j++) t+=angle(at(z,j)-at(z,j-1),at(z,j+1)-at(z,j)); by.push_back(t); tot+=t; } c.require(close(field(c,r.out,"total curvature (all components): ",w),(double)tot,1e-5,1e-6),"curvature-total",r.out+w); size_t p=r.out.find("(by component):"); c.require(p!=string::npos,"curvature-by-component",r.out); const char*q=r.out.c_str()+p+15; for(auto t:by){ char*e; double v=strtod(q,&e); c.require(e!=q&&close(v,(double)t,1e-5,1e-6),"curvature-component",r.out+w); q=strchr(e,')'); c.require(q!=NULL,"curvature-component",r.out+w); q++; } c.seen(fp(k)); }

static Curve readvect(Case&c,const string&f,const string&w){ FILE*i=fopen(f.c_str(),"r"); c.require(i!=NULL,"sample-missing",f+" "+w); int e=0; char s[200]; plCurve*p=plc_read(i,&e,s,200); fclose(i); c.require(p&&!e,"sample-unreadable",f+" "+w); PL L(p); return fromPlc(L); }
static bool hastype(Rng&r,const Curve&k,int cr,int ind){ PL L(toPlc(k)); gsl_rng*g=gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(g,(unsigned long)(r.next()&0xffffff)); srand(1); int np=0; plc_knottype*t=plc_classify(g,L,&np); bool y=false; for(int i=0;t&&i<np;i++) if(t[i].nf==1&&t[i].cr[0]==cr&&t[i].ind[0]==ind) y=true; free(t); gsl_rng_free(g); return y; }
static void m_rpoly(Case&c){ Dir D(c.i); int kind=(int)c.rng.below(5); int fm=(int)c.rng.below(3); int n=kind==3?5+(int)c.rng.below(14):kind==4?6+(int)c.rng.below(4):3+(int)c.rng.below(c.rng.chance(0.2)?200:30),N=kind==4?1+(int)c.rng.below(3):1+(int)c.rng.below(12); if(kind==4) n=8+(int)c.rng.below(8); long seed=(long)c.rng.below(1000000); vector<string> a={"-n",fmt("%d",n),"-s",fmt("%d",N),fmt("--seed=%ld",seed)}; double rad=0,ftc=0; if(kind==1){ n=4+(int)c.rng.below(20); a[1]=fmt("%d",n); rad=c.rng.unif(1.1,4); a.push_back("-r"); a.push_back(fmt("%.6f",rad)); a.push_back("--skip=20"); } if(kind==2){ n=4+(int)c.rng.below(20); a[1]=fmt("%d",n); ftc=c.rng.unif(0.1,0.9)*(n-1); a.push_back(fmt("--failure-to-close=%.6f",ftc)); a.push_back("--skip=15"); if(c.rng.chance(0.5)) a.push_back(fmt("--delta=%.3f",c.rng.unif(0,1))); if(c.rng.chance(0.5)) a.push_back(fmt("--beta=%.3f",c.rng.unif(0,1))); } if(kind==3) a.push_back("--sap"); int cr=0,ind=0; if(kind==4){ static const int T[][2]={{0,1},{3,1},{3,1},{4,1}}; int z=(int)c.rng.below(4); cr=T[z][0]; ind=T[z][1]; if(cr){ n=(cr==3?20:40)+(int)c.rng.below(30); N=cr==3?1+(int)c.rng.below(10):1+(int)c.rng.below(3); a[1]=fmt("%d",n); a[3]=fmt("%d",N); } a.push_back("-k"); a.push_back(fmt("%d_%d",cr,ind)); fm=0; } string out; static const char*fn[]={"VECT","Mathematica","ChordLength"}; if(fm||c.rng.chance(0.5)){ a.push_back("-f"); a.push_back(fn[fm]); } bool o=c.rng.chance(0.5); int skip=n/2; if(fm==2&&c.rng.chance(0.5)){ skip=(int)c.rng.below(n); a.push_back(fmt("--chord_skip=%d",skip)); } if(o){ out="res"; a.push_back("-o"); a.push_back(out); } else if(fm==2) out=fmt("rws-chordlength-%03d-edge-%03d-skip.csv",n,skip); else out=kind==1?fmt("rws-%03d-edge-%.2f-rad",n,atof(fmt("%.6f",rad).c_str())):fmt("rws-%03d-edge",n); if(c.rng.chance(0.2)) a.push_back("--verbose"); if(fm!=2&&c.rng.chance(0.3)){ mkdir(out.c_str(),0700); FILE*x=fopen((out+"/old.txt").c_str(),"w"); fputs("x",x); fclose(x); } string w=cli::cmdline("randompolygon",a);
  good(c,"randompolygon",a,w); vector<Curve> got; vector<double> ch; auto content=[&]{ string s; if(fm==2) return cli::slurp(out); for(auto&f:cli::ls(out)) s+=f+"\n"+cli::slurp(out+"/"+f); return s; }; string first=content(); if(fm<2){ auto fs=cli::ls(out); c.require((int)fs.size()==N,"rpoly-files",fmt("%zu files, %d samples ",fs.size(),N)+w); for(int i=0;i<N;i++){ string f=out+fmt(fm?"/walk-%05d.csv":"/walk-%05d.vect",i); if(fm==0) got.push_back(readvect(c,f,w)); else { Curve k(1); k[0].open=false; c.require(cli::exists(f),"sample-missing",f+" "+w); for(auto&x:lines(cli::slurp(f))){ double p[3]; c.require(sscanf(x.c_str(),"%lf, %lf, %lf",p,p+1,p+2)==3,"rpoly-csv",x+" "+w); k[0].v.push_back(mk(p[0],p[1],p[2])); } got.push_back(k); } } } else { for(auto&x:lines(first)) ch.push_back(atof(x.c_str())); c.require((int)ch.size()==N,"rpoly-rows",fmt("%zu rows ",ch.size())+w); for(double d:ch){ double mx=kind==2?n:std::min(skip,n-skip); c.require(d>=-1e-9&&d<=mx+1e-6&&(skip>0||d==0),"rpoly-chord",fmt("%.12g skip %d ",d,skip)+w); if(kind==1) c.require(d<=rad+1e-6,"rpoly-chord-confined",fmt("%.12g ",d)+w); } }
  double tol=fm==1?2e-5*n:1e-7*n; for(size_t i=0;i<got.size();i++){ auto&k=got[i]; string W=fmt("sample %zu ",i)+w; c.require(k.size()==1,"rpoly-components",W); auto&s=k[0]; int nv=(int)s.v.size(); c.require(nv==n&&!s.open,"rpoly-vertices",W+fmt(" %d open %d",nv,(int)s.open)); int odd=0; for(int j=0;j<nv;j++){ ld d=dist(s.v[j],s.v[(j+1)%nv]); if(fabsl(d-1)<tol) continue; odd++; c.require(kind==2&&odd==1&&fabsl(d-ftc)<tol+2e-6,kind==2?"rpoly-failure-to-close":"rpoly-edge-length",W+fmt(" edge %d %.12Lg",j,d)); } if(kind==2) c.require(odd==1||fabs(ftc-1)<1e-4,"rpoly-failure-to-close",W); if(kind==1) for(int j=1;j<nv;j++) c.require(dist(s.v[0],s.v[j])<=rad+2e-6+tol,"rpoly-confinement",W+fmt(" vertex %d at %.12Lg",j,dist(s.v[0],s.v[j]))); if(kind==3) for(int x=0;x<nv;x++) for(int y=0;y<x;y++) c.require(dist(s.v[x],s.v[y])>=1-tol,"rpoly-self-avoiding",W+fmt(" %d %d %.12Lg",x,y,dist(s.v[x],s.v[y]))); if(kind==4) c.require(hastype(c.rng,k,cr,ind),"rpoly-knot-type",W+show(k)); for(size_t j=0;j<i;j++) if(n>3) c.require(fp(got[j])!=fp(k)||kind==1||kind==2,"rpoly-repeats",W); }
  if(kind!=4&&!c.rng.chance(0.5)){ good(c,"randompolygon",a,w); c.require(content()==first,"rpoly-not-reproducible",w); if(kind!=1&&kind!=2&&n>3&&(fm<2||(skip>1&&skip<n-1))){ a[4]=fmt("--seed=%ld",seed+1); good(c,"randompolygon",a,w); c.require(content()!=first,"rpoly-seed-ignored",w); } c.count("repeated"); } c.count(fmt("kind_%d",kind)); c.count(fn[fm]); c.seen(hstr(w)); c.sample(w); }

static void m_ktype(Case&c){ Dir D(c.i); int nf=c.rng.chance(0.7)?1:2+(int)c.rng.below(2); vector<string> f; vector<Curve> ks; vector<int> cr,ind; for(int i=0;i<nf;i++){ Curve k(1); int st=(int)c.rng.below(3); cr.push_back(-1); ind.push_back(-1); if(st==0){ static const int T[][4]={{2,3,3,1},{2,5,5,1},{2,7,7,1},{2,1,0,1},{3,4,8,19}}; int z=(int)c.rng.below(5),p=T[z][0],q=T[z][1]; cr[i]=T[z][2]; ind[i]=T[z][3]; int n=p*q*6+12; int sg=c.rng.chance(0.5)?1:-1; for(int j=0;j<n;j++){ double t=6.283185307179586*j/n; k[0].v.push_back(mk((2+cos(q*t))*cos(p*t)+0.01*c.rng.gauss(),(2+cos(q*t))*sin(p*t)+0.01*c.rng.gauss(),sg*sin(q*t)+0.01*c.rng.gauss())); } } else { int n=5+(int)c.rng.below(14); for(int j=0;j<n;j++) k[0].v.push_back(mk(c.rng.gauss(),c.rng.gauss(),c.rng.gauss())); } k[0].cst.resize(k[0].v.size()); ks.push_back(k); if(c.rng.chance(0.5)){ int a=cr[i]>=0&&c.rng.chance(0.6)?cr[i]:3+(int)c.rng.below(3),b=cr[i]>=0&&c.rng.chance(0.6)?ind[i]:1; f.push_back(fmt("kl_%d_%d_I%d.vect",a,b,i)); } else f.push_back(fmt("k%d.vect",i)); save(f[i],k); }
  bool K=c.rng.chance(0.7),P=c.rng.chance(0.5),H=c.rng.chance(0.5),V=nf==1&&c.rng.chance(0.4),T=c.rng.chance(0.3),M=c.rng.chance(0.3),J=c.rng.chance(0.4); if(!(K||P||H||V||T||M)) K=true; vector<string> a; if(T) a.push_back("-l"); if(M) a.push_back("--mathematica"); if(J) a.push_back("--composite"); if(H&&c.rng.chance(0.3)) a.push_back("--verbose"); homfly_polynomial_t*prod=NULL; bool noprod=false; if(K) a.push_back("-k"); if(P) a.push_back("-p"); if(H) a.push_back("--homfly"); if(V) a.push_back("-v"); a.push_back(fmt("--seed=%d",(int)c.rng.below(10000))); for(auto&x:f) a.push_back(x); string w=ctx("knottype",a,ks[0]); Res r=good(c,"knottype",a,w); vector<string> sec; { string cur; size_t q=0; bool on=false; for(auto&x:lines(r.out)){ if(q<f.size()&&x==f[q]){ if(on) sec.push_back(cur); cur=""; on=true; q++; } else if(on) cur+=x+"\n"; } if(on) sec.push_back(cur); } c.require((int)sec.size()==nf,"ktype-sections",r.out+w);
  for(int i=0;i<nf;i++){ PL L(toPlc(ks[i])); gsl_rng*g=gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(g,77); srand(77); int np=0; plc_knottype*t=plc_classify(g,L,&np); std::multiset<string> want; bool any=false,allok=true; int fa=0,fb=0; bool nm=sscanf(f[i].c_str(),"kl_%d_%d_",&fa,&fb)==2; for(int j=0;t&&j<np;j++){ string s="|"; for(int x=0;x<t[j].nf;x++) s+=fmt("<%d_%d %s>",t[j].cr[x],t[j].ind[x],t[j].sym[x]); want.insert(s+"|"); if(t[j].cr[0]==fa&&t[j].ind[0]==fb) any=true; else allok=false; } pd_code_t*pd=pd_code_from_plCurve(g,L); char*h=pd_homfly(pd); string hw=h?h:""; free(h); string tw,mw; { char*cc=pd->ncross?pdcode_to_ccode(pd):NULL,*raw=cc?plc_lmpoly(cc,60):strdup("[[1]]N "); free(cc); if(raw){ homfly_polynomial_t*y=lmpoly_to_polynomial(raw); free(raw); char*z=poly_to_latex(y); tw=z; free(z); z=poly_to_mathematica(y); mw=z; free(z); if(!prod) prod=y; else { homfly_polynomial_t*p2=product_polynomial(prod,y); homfly_polynomial_free(&prod); homfly_polynomial_free(&y); prod=p2; } } else noprod=true; } pd_code_free(&pd); if(T&&tw!="") c.require(sec[i].find("Homfly polynomial (latex): "+tw+"\n")!=string::npos,"ktype-latex",sec[i]+" want "+tw+" "+w); if(M&&mw!="") c.require(sec[i].find("Homfly polynomial (mathematica): "+mw+"\n")!=string::npos,"ktype-mathematica",sec[i]+" want "+mw+" "+w); gsl_rng_free(g); std::multiset<string> got; int times=0; bool skip=false; auto sl=lines(sec[i]); for(auto&x:sl){ if(x=="Possible knot type(s):"){ times++; got.clear(); skip=false; } else if(x.size()>1&&x[0]=='|'&&!skip) got.insert(x); }
    if(K&&t){ c.require(times==(V?2:1)&&got==want,"ktype-types",sec[i]+fmt(" want %zu: %s ",want.size(),want.empty()?"":want.begin()->c_str())+w); if(cr[i]>=0){ bool in=false; for(auto&x:got) if(x.find(fmt("<%d_%d ",cr[i],ind[i]))==1) in=true; c.require(in,"ktype-torus",sec[i]+fmt(" is %d_%d ",cr[i],ind[i])+w); } } if(K&&!t) c.require(sec[i].find("Unable to classify")!=string::npos,"ktype-unclassified",sec[i]+w); if(H) c.require(sec[i].find("Homfly polynomial:("+hw+")")!=string::npos,"ktype-homfly",sec[i]+" want "+hw+" "+w); if(V&&t&&nm){ string v=allok?"RESULT: Ok\n":any?"RESULT: Maybe ok\n":"RESULT: Not ok\n"; c.require(sec[i].find(v)!=string::npos,"ktype-verify",sec[i]+" want "+v+w); c.count(allok?"verified":any?"maybe":"refuted"); }
    if(P){ string pt; for(auto&x:sl) if(x.compare(0,3,"PD[")==0) pt=x; c.require(!pt.empty()||sec[i].find("PD")!=string::npos,"ktype-pd",sec[i]+w); if(!pt.empty()&&pt.find('X')!=string::npos){ FILE*m=fmemopen((void*)pt.data(),pt.size(),"r"); pd_code_t*q=pd_read_KnotTheory(m); fclose(m); c.require(q!=NULL,"ktype-pd-unreadable",pt+w); char*s=pd_homfly(q); c.require(s&&hw==s,"ktype-pd-type",pt+" "+string(s?s:"")+" want "+hw+" "+w); free(s); pd_code_free(&q); c.count("pdcodes"); } } free(t); } if(prod&&!noprod){ char*z=poly_to_latex(prod); string tl=z; free(z); z=poly_to_mathematica(prod); string ml=z; free(z); const string&o=r.out; auto has=[&](const string&x){ return o.find(x)!=string::npos; }; c.require(has("Composite Homfly polynomial:("+tl+")")==(J&&H),"ktype-composite",o+" want "+tl+" "+w); c.require(has("Composite Homfly polynomial (latex): "+tl+"\n")==(J&&T),"ktype-composite-latex",o+" want "+tl+" "+w); c.require(has("Composite Homfly polynomial (mathematica): "+ml+"\n")==(J&&M),"ktype-composite-mathematica",o+" want "+ml+" "+w); if(J) c.count("composites"); } homfly_polynomial_free(&prod); c.seen(fp(ks[0])); }
// damaged, missing and unusual files: a message and a status, never a crash, and no output from what could not be read
static void m_badvect(Case&c){ Dir D(c.i); Curve k=curve(c.rng); string f="in.vect"; save(f,k); string t=cli::slurp(f); int how=(int)c.rng.below(6); if(how==0) t=t.substr(0,c.rng.below(t.size())); else if(how==1){ for(int i=0;i<3;i++) t[c.rng.below(t.size())]=(char)(32+c.rng.below(95)); } else if(how==2){ size_t p=t.find('\n')+1; size_t e=t.find('\n',p); t.replace(p,e-p,fmt("%d %d %d",(int)c.rng.range(-3,5),(int)c.rng.range(-3,60),(int)c.rng.range(-3,9))); } else if(how==3) t=""; else if(how==4){ size_t p=t.find("VECT"); t.replace(p,4,"OFF"); } FILE*o=fopen(f.c_str(),"w"); fwrite(t.data(),1,t.size(),o); fclose(o); if(how==5) f="nothere.vect"; static const char*pr[]={"ropelength","struts","mrlocs","plcurvature","knottype"}; int p=(int)c.rng.below(5); FILE*i=fopen(f.c_str(),"r"); int err=-1; bool bad=true,tiny=false; if(i){ char s[200]; plCurve*L=plc_read(i,&err,s,200); fclose(i); bad=err!=0||!L; if(L&&!bad){ if(L->nc>1||L->cp[0].open||L->cp[0].nv<4) tiny=true; Curve m=fromPlc(L); for(auto&z:m) for(size_t x=0;x<z.v.size();x++) for(size_t y=0;y<x;y++) if(!(dist(z.v[x],z.v[y])>1e-9)) tiny=true; for(auto&z:m) if(z.v.size()<2) tiny=true; for(auto&z:m) for(auto&v:z.v) for(int j=0;j<3;j++) if(!(fabs(v[j])<1e6)) tiny=true; plc_free(L); } } if(!bad&&(tiny||p==4)) throw Skip(); vector<string> a; if(p==4) a.push_back("-k"); a.push_back(f); string w=cli::cmdline(pr[p],a)+fmt(" (how %d) ",how)+t.substr(0,200); Res r=good(c,pr[p],a,w,-1); size_t files=cli::ls(".").size(); if(bad){ c.require(files==1,"output-from-bad-input",w); c.require(!r.err.empty(),"bad-input-silent",w); if(p==0||p==3) c.require(r.rc!=0,"bad-input-status",w); c.count("refused"); } else { c.require(r.rc==0,"good-input-status",w+r.err); c.count("accepted"); } c.count(pr[p]); c.seen(hstr(t)^mix(p)); }
int main(int argc,char**argv){ return run(argc,argv,{{"rope",m_rope},{"struts",m_struts},{"mrlocs",m_mrlocs},{"curv",m_curv},{"rpoly",m_rpoly},{"ktype",m_ktype},{"badvect",m_badvect}}); }
