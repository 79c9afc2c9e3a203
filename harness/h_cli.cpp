// the diagram-store programs: splitpd, joinpd, filterpd, computepd, connectsum, orientedshadows, shadow2diagram, processpdstor, carbonizepd
#include "pdlib.hpp"
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
}
#undef new
#include "clilib.hpp"
using namespace pdl; using cli::good; using cli::Res; using cli::Dir;
extern "C" char *pdcode_to_ccode(pd_code_t *pd);
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };
static const int EXACT=CODE_SIGN|CODE_ORIENT, ISO=CODE_REFLECT, ISOT=CODE_SIGN|CODE_ORIENT|CODE_REFLECT;
typedef vector<int> Code; typedef std::multiset<Code> Bag;
static bool tame(const Dg&d){ auto cs=comps(d); double k=1; std::map<size_t,int> len; for(auto&c:cs){ k*=2.0*c.h.size(); len[c.h.size()]++; } for(auto&l:len) for(int i=2;i<=l.second;i++) k*=i; return k<2000; }
// component tags are not kept by stores, so diagrams get the default ones
static Dg small(Case&c,int lim,int signs){ for(;;){ int n=1+(int)c.rng.below(lim); Dg d= signs==1&&c.rng.chance(0.5)? knotty(c.rng,n):random_diagram(c.rng,n,signs); if(tame(d)) return d; } }
static vector<Dg> batch(Case&c,int k,int lim,int signs){ vector<Dg> v; for(int i=0;i<k;i++){ if(!v.empty()&&c.rng.chance(0.25)) v.push_back(relabel(c.rng.pick(v),c.rng)); else v.push_back(small(c,lim,signs<0?(int)c.rng.below(2):signs)); } return v; }
static void write_store(Case&c,const string&f,const vector<Dg>&v){ pd_stor_t*s=pd_new_pdstor(); for(auto&d:v){ PD p(toPd(d,c.rng)); pd_addto_pdstor(s,p,NONE); } FILE*o=fopen(f.c_str(),"w"); pd_write_pdstor(o,s); fclose(o); pd_free_pdstor(&s); }
struct Loaded { vector<Dg> d; vector<string> hash; vector<pd_uid_t> uid; vector<pd_code_t*> pd; ~Loaded(){ for(auto p:pd) pd_code_free(&p); } };
static void load(Case&c,const string&f,Loaded&L){ FILE*i=fopen(f.c_str(),"r"); c.require(i!=NULL,"output-missing",f); pd_stor_t*s=pd_read_pdstor(i,NONE); fclose(i); c.require(s!=NULL,"output-unreadable",f+": "+cli::slurp(f).substr(0,1500)); for(pd_code_t*p=pd_stor_firstelt(s);p;p=pd_stor_nextelt(s)){ string v=validate(p); c.require(v=="","output-invalid",v+" "+f+" "+show(p)); L.d.push_back(fromPd(p)); L.hash.push_back(p->hash); L.uid.push_back(p->uid); L.pd.push_back(p); } pd_free_pdstor(&s); }
static void loadseq(Case&c,const string&f,Loaded&L){ FILE*i=fopen(f.c_str(),"r"); int a,b,h; if(fscanf(i,"pdstor nelts %d/%d (claimed/actual) nhashes %d ",&a,&b,&h)!=3) c.fail("store-header",f); for(int k=0;k<a;k++){ pd_code_t*p=pd_read(i); c.require(p!=NULL,"store-element",f); L.d.push_back(fromPd(p)); L.hash.push_back(p->hash); L.uid.push_back(p->uid); L.pd.push_back(p); } fclose(i); }
static Bag bag(const vector<Dg>&v,int fl){ Bag b; for(auto&d:v) b.insert(canon(d,fl)); return b; }
static std::set<Code> uniq(const vector<Dg>&v,int fl){ std::set<Code> b; for(auto&d:v) b.insert(canon(d,fl)); return b; }
static string sizes(const vector<Dg>&v){ string s=fmt("%zu diagrams:",v.size()); for(auto&d:v) s+=fmt(" %d/%zu",d.n,comps(d).size()); return s; }
static string base(Case&c){ static const char*n[]={"a","input","x-1","knots_5","my.store","deep"}; return n[c.rng.below(6)]; }

static void m_split(Case&c){ Dir D(c.i); int k=c.rng.chance(0.1)?1+(int)c.rng.below(400):1+(int)c.rng.below(30); auto v=batch(c,k,k>60?3:7,-1); string b=base(c); bool ext=!c.rng.chance(0.15); string in=b+(ext?".pdstor":c.rng.chance(0.5)?".txt":""); string dir; if(c.rng.chance(0.2)){ mkdir("sub",0700); dir="sub/"; } write_store(c,dir+in,v);
  Loaded O; load(c,dir+in,O); c.require(bag(O.d,EXACT)==bag(v,EXACT),"store-differs",sizes(v)); bool bysize=c.rng.chance(0.5); int q=c.rng.chance(0.15)?k:c.rng.chance(0.1)?k+1+(int)c.rng.below(5):1+(int)c.rng.below(k); vector<string> a={dir.empty()&&c.rng.chance(0.5)?"--file="+in:"--file="+dir+in,(bysize?"-s":"-n")+string(c.rng.chance(0.5)?" ":"")}; if(a[1].back()==' '){ a[1].pop_back(); a.push_back(std::to_string(q)); } else a[1]+=std::to_string(q); if(c.rng.chance(0.2)) a.push_back("-v");
  good(c,"splitpd",a,sizes(v)); int sz=bysize?q:(k+q-1)/q, cnt=(k+sz-1)/sz; string ctx=cli::cmdline("splitpd",a)+" "+sizes(v); string stem= ext? b: in; vector<string> names; vector<Dg> all; vector<string> files=cli::ls("."); int found=0; for(auto&f:files) if(f!=in&&f!="sub") found++; c.require(found==cnt,"split-pieces",fmt("%d files, %d expected ",found,cnt)+ctx);
  for(int i=0;i<cnt;i++){ string f=stem+fmt("-%05d.pdstor",i); c.require(cli::exists(f),"split-name",f+" "+ctx); Loaded L; load(c,f,L); int want= i<cnt-1?sz:k-sz*(cnt-1); c.require((int)L.d.size()==want,"split-size",fmt("%s has %zu, %d expected ",f.c_str(),L.d.size(),want)+ctx); for(auto&d:L.d) all.push_back(d); names.push_back(f); }
  c.require(bag(all,EXACT)==bag(v,EXACT),"split-lost",ctx); // and joined again
  if(!c.rng.chance(0.5)){ int eq=(int)c.rng.below(3); static const char*en[]={"--no-checking","--isomorphism-checking","--isotopy-checking"}; if(eq&&k>40) eq=0; c.rng.shuffle(names); vector<string> ja={en[eq],"-o","joined.pdstor"}; for(auto&n:names) ja.push_back(n); good(c,"joinpd",ja,ctx); Loaded J; load(c,"joined.pdstor",J); if(eq==0) c.require(bag(J.d,EXACT)==bag(v,EXACT),"rejoin-lost",ctx); else { int fl=eq==1?ISO:ISOT; auto u=uniq(v,fl); c.require(uniq(J.d,fl)==u,"rejoin-set",ctx); bool knots=true; for(auto&d:v) if(comps(d).size()>1) knots=false; if(eq==1||knots) c.require(J.d.size()==u.size(),"rejoin-duplicates",fmt("%zu for %zu classes ",J.d.size(),u.size())+ctx); } }
  c.count(bysize?"by_size":"by_pieces"); c.maxi("elements",k); c.seen(mix(k*1000+q)^fp(v[0])); c.sample(ctx); }

static void m_join(Case&c){ Dir D(c.i); int nf=1+(int)c.rng.below(5); vector<vector<Dg>> fs; vector<Dg> all; int sg=c.rng.chance(0.5)?1:-1; for(int i=0;i<nf;i++){ vector<Dg> v; int k=c.rng.chance(0.1)?0:1+(int)c.rng.below(8); for(int j=0;j<k;j++){ Dg d; if(!all.empty()&&c.rng.chance(0.4)){ d=relabel(c.rng.pick(all),c.rng); if(c.rng.chance(0.3)) d=reflect(d); if(c.rng.chance(0.2)){ int x=(int)c.rng.below(d.n); if(d.over[x]<2) d.over[x]=1-d.over[x]; } } else d=small(c,6,sg<0?(int)c.rng.below(2):1); v.push_back(d); all.push_back(d); } fs.push_back(v); }
  int eq=(int)c.rng.below(3); static const char*en[]={"--no-checking","--isomorphism-checking","--isotopy-checking"}; vector<string> a; for(int i=0;i<nf;i++){ string f=fmt("f%d.pdstor",i); write_store(c,f,fs[i]); a.push_back(f); } string out=c.rng.chance(0.5)?"out.pdstor":"result"; int where=(int)c.rng.below(3); a.insert(where==0?a.begin():a.end(),en[eq]); a.insert(where==2?a.begin():a.end(),"--output="+out); string ctx=cli::cmdline("joinpd",a)+" "+sizes(all); good(c,"joinpd",a,sizes(all)); Loaded J; load(c,out,J);
  if(eq==0) c.require(bag(J.d,EXACT)==bag(all,EXACT),"join-lost",fmt("%zu of %zu ",J.d.size(),all.size())+ctx); else { int fl=eq==1?ISO:ISOT; auto u=uniq(all,fl); c.require(uniq(J.d,fl)==u,"join-set",ctx); bool knots=true; for(auto&d:all) if(comps(d).size()>1) knots=false; if(eq==1||knots) c.require(J.d.size()==u.size(),"join-duplicates",fmt("%zu for %zu classes ",J.d.size(),u.size())+ctx); if(u.size()<all.size()) c.count("merged"); } for(int i=0;i<nf;i++){ Loaded L; load(c,fmt("f%d.pdstor",i),L); c.require(bag(L.d,EXACT)==bag(fs[i],EXACT),"join-input-changed",ctx); } c.count(en[eq]+2); c.seen(mix(all.size()*7+eq)^(all.empty()?0:fp(all[0]))); c.sample(ctx); }

static void m_filter(Case&c){ Dir D(c.i); int k=c.rng.chance(0.05)?0:1+(int)c.rng.below(40); auto v=batch(c,k,8,-1); write_store(c,"in.pdstor",v); bool use=!c.rng.chance(0.1); int nc=(int)c.rng.below(5); vector<string> a={"--file=in.pdstor","-o","out.pdstor"}; if(use) a.push_back(fmt("--ncomps=%d",nc)); string ctx=cli::cmdline("filterpd",a)+" "+sizes(v); good(c,"filterpd",a,sizes(v)); Loaded L; load(c,"out.pdstor",L); vector<Dg> w; for(auto&d:v) if(!use||(int)comps(d).size()==nc) w.push_back(d); c.require(bag(L.d,EXACT)==bag(w,EXACT),"filter-wrong",fmt("%zu kept, %zu expected ",L.d.size(),w.size())+ctx); c.count(w.empty()?"none_kept":w.size()==v.size()?"all_kept":"some_kept"); if(!v.empty()) c.seen(fp(v[0])^mix(nc)); }

static vector<string> csv(const string&l){ vector<string> r; string cur; for(char ch:l){ if(ch==','){ r.push_back(cur); cur=""; } else cur+=ch; } r.push_back(cur); for(auto&s:r){ while(!s.empty()&&isspace((unsigned char)s.back())) s.pop_back(); while(!s.empty()&&isspace((unsigned char)s[0])) s.erase(0,1); } return r; }
static void interlace(pd_code_t*p,vector<long>&sg,vector<long>&un){ Dg q=fromPd(p); for(pd_idx_t k=0;k<p->ncomps;k++){ std::map<int,vector<int>> at; for(pd_idx_t j=0;j<p->comp[k].nedges;j++) at[p->edge[p->comp[k].edge[j]].head].push_back((int)j); long cu=0,cs=0; auto psign=[&](int v){ int a=outpos(q,v,0),b=outpos(q,v,1),e1,e2; if(((a+1)&3)==b){e1=a;e2=b;} else {e1=b;e2=a;} return p->cross[v].edge[e2]>p->cross[v].edge[e1]?1:-1; };
  for(auto&x:at) if(x.second.size()==2) for(auto&y:at) if(y.first>x.first&&y.second.size()==2){ int a=x.second[0],b=x.second[1]; bool i1=y.second[0]>a&&y.second[0]<b,i2=y.second[1]>a&&y.second[1]<b; if(i1!=i2){ cu++; cs+=psign(x.first)*psign(y.first); } } sg.push_back(cs); un.push_back(cu); } }
static void m_compute(Case&c){ Dir D(c.i); int k=1+(int)c.rng.below(25); auto v=batch(c,k,7,1); write_store(c,"in.pdstor",v); Loaded O; load(c,"in.pdstor",O); static const char*q[]={"hash","uid","ncomps","ncross","interlacements","unsigned-interlacements","nauts","homfly","monogons","bigons"}; vector<string> a={"--file=in.pdstor"}; vector<int> col; int nq=1+(int)c.rng.below(6); for(int i=0;i<nq;i++){ int x=(int)c.rng.below(10); col.push_back(x); if(c.rng.chance(0.5)){ a.push_back("-c"); a.push_back(q[x]); } else a.push_back(string("--compute=")+q[x]); } a.push_back("-o"); a.push_back("out.csv"); string ctx=cli::cmdline("computepd",a)+" "+sizes(v); good(c,"computepd",a,sizes(v));
  std::istringstream is(cli::slurp("out.csv")); string line; size_t row=0; vector<bool> used(O.d.size(),false); while(std::getline(is,line)){ c.require(row<O.d.size(),"compute-rows",ctx); auto f=csv(line); size_t p=0; Dg&d=O.d[row]; string rc=fmt("row %zu: ",row)+line+" :: "+show(d)+" :: "+ctx; auto next=[&]()->string{ c.require(p<f.size(),"compute-columns",rc); return f[p++]; }; c.require(next()==std::to_string(row),"compute-index",rc); vector<long> sg,un; interlace(O.pd[row],sg,un); auto fc=faces(d); int mono=0,bi=0; for(auto&x:fc){ if(x.size()==1) mono++; if(x.size()==2) bi++; }
    for(int x:col) switch(x){ case 0: c.require(next()==O.hash[row],"compute-hash",rc); break; case 1: c.require(next()==std::to_string(O.uid[row]),"compute-uid",rc); break; case 2: c.require(next()==std::to_string(comps(d).size()),"compute-ncomps",rc); break; case 3: c.require(next()==std::to_string(d.n),"compute-ncross",rc); break;
      case 4: case 5: { vector<long> g; for(size_t i=0;i<sg.size();i++) g.push_back(atol(next().c_str())); c.require(g==(x==4?sg:un),"compute-interlacements",rc); break; }
      case 6: { bool two=false; for(auto&kk:comps(d)) if(kk.h.size()==2) two=true; string s=next(); c.require(two||s==std::to_string(count_autos(d,CODE_REFLECT)),"compute-nauts",fmt("%ld expected ",count_autos(d,CODE_REFLECT))+rc); break; }
      case 7: { Poly want,got; string s=next(); c.require(parse_poly(s.c_str(),got),"compute-homfly-text",rc); if(homfly(d,want,20000)) c.require(got==want,"compute-homfly",rc); break; }
      case 8: c.require(next()==std::to_string(mono),"compute-monogons",rc); break; case 9: c.require(next()==std::to_string(bi),"compute-bigons",rc); break; }
    c.require(p==f.size(),"compute-columns",rc); row++; }
  c.require(row==O.d.size(),"compute-rows",fmt("%zu of %zu ",row,O.d.size())+ctx); c.seen(fp(v[0])^mix(nq*100+col[0])); c.sample(ctx); }

// own connected sum of shadows: cut edge e of a and f of b, join crosswise respecting direction
static Dg csum_own(const Dg&a,int e,const Dg&b,int f){ Dg r=merge({a,b}); int o=4*a.n; int p=e,q=a.mate[e],s=f+o,t=b.mate[f]+o; r.mate[p]=t; r.mate[t]=p; r.mate[s]=q; r.mate[q]=s; int tg=r.tag[p]; (void)tg; return r; }
static void m_csum(Case&c){ Dir D(c.i); auto mk=[&](int lim){ vector<Dg> v; int k=1+(int)c.rng.below(2); for(int i=0;i<k;i++){ Dg d; do d=small(c,lim,(int)c.rng.below(2)); while(comps(d).size()>2); v.push_back(d); } return v; }; auto A=mk(3),B=mk(3); write_store(c,"a.pdstor",A); write_store(c,"b.pdstor",B); vector<string> a={"-a","a.pdstor","-b","b.pdstor","-o","o.pdstor"}; string ctx=cli::cmdline("connectsum",a)+" A "+sizes(A)+" B "+sizes(B); good(c,"connectsum",a,ctx); Loaded L; load(c,"o.pdstor",L); std::set<Code> want; for(auto&x:A) for(auto&y:B) for(int e=0;e<4*x.n;e++) for(int f=0;f<4*y.n;f++){ Dg s=csum_own(x,e,y,f); for(int v=0;v<s.n;v++) s.over[v]=2; want.insert(canon(s,ISO)); }
  std::set<Code> got; for(auto&d:L.d){ got.insert(canon(d,ISO)); for(int v=0;v<d.n;v++) c.require(d.over[v]==2,"connectsum-signed",ctx+show(d)); } string miss; for(auto&w:want) if(!got.count(w)) miss="missing"; for(auto&g:got) if(!want.count(g)) miss+=" extra"; c.require(got==want,"connectsum-set",fmt("%zu classes, %zu expected, %s ",got.size(),want.size(),miss.c_str())+ctx+show(A[0])+" "+show(B[0])); c.require(L.d.size()==got.size(),"connectsum-duplicates",ctx); c.maxi("classes",(long)want.size()); c.seen(fp(A[0])^mix(fp(B[0]))); }

static Dg shadow(Dg d){ for(int v=0;v<d.n;v++) d.over[v]=2; return d; }
static void m_oshadow(Case&c){ Dir D(c.i); int k=1+(int)c.rng.below(12); auto v=batch(c,k,6,c.rng.chance(0.6)?0:-1); bool many=c.rng.chance(0.3); bool o=c.rng.chance(0.5); vector<string> a={"in.pdstor"}; write_store(c,"in.pdstor",v); vector<Dg> w; if(many){ w=batch(c,1+(int)c.rng.below(5),5,0); write_store(c,"in2.pdstor",w); a.push_back("in2.pdstor"); } if(o){ a.push_back("-o"); a.push_back("res.pdstor"); } string ctx=cli::cmdline("orientedshadows",a)+" "+sizes(v); good(c,"orientedshadows",a,ctx); auto chk=[&](const string&f,vector<Dg> in){ Loaded L; load(c,f,L); for(auto&d:in) d=shadow(d); for(auto&d:L.d) for(int x=0;x<d.n;x++) c.require(d.over[x]==2,"oshadow-signed",ctx); auto u=uniq(in,ISO); c.require(uniq(L.d,ISO)==u,"oshadow-set",f+" "+ctx); c.require(L.d.size()==u.size(),"oshadow-duplicates",f+" "+ctx); }; if(o&&many){ auto x=v; for(auto&d:w) x.push_back(d); chk("res.pdstor",x); } else { chk(o?"res.pdstor":"in-oriented.pdstor",v); if(many) chk("in2-oriented.pdstor",w); } c.seen(fp(v[0])^mix(k)); }

// all diagrams of a shadow: every orientation of the components and every choice of signs
static vector<Dg> all_diagrams(const Dg&s,bool orient=true,bool signs=true){ vector<Dg> r; auto cs=comps(s); int nc=(int)cs.size(); for(int om=0;om<(orient?1<<nc:1);om++){ Dg d=s; for(int i=0;i<nc;i++) if(om>>i&1) for(int h:cs[i].h){ d.out[h]=!d.out[h]; int m=d.mate[h]; d.out[m]=!d.out[m]; } for(int sm=0;sm<(signs?1<<d.n:1);sm++){ Dg e=d; if(signs) for(int v=0;v<d.n;v++) setsgn(e,v,(sm>>v&1)?-1:1); r.push_back(e); } } return r; }
static vector<string> lines(const string&s){ vector<string> r; std::istringstream i(s); string l; while(std::getline(i,l)) r.push_back(l); return r; }
static Dg readkt(Case&c,const string&t,const string&ctx){ FILE*f=fmemopen((void*)t.data(),t.size(),"r"); PD p(pd_read_KnotTheory(f)); fclose(f); c.require(p.p!=NULL,"kt-unreadable",t+" "+ctx); string v=validate(p); c.require(v=="","kt-invalid",v+" "+t+" "+ctx); return fromPd(p); }
static bool twoedge(const Dg&d){ for(auto&k:comps(d)) if(k.h.size()==2) return true; return false; }
static void m_s2d(Case&c){ Dir D(c.i); int k=1+(int)c.rng.below(3); vector<Dg> v; for(int i=0;i<k;i++){ Dg d; do d=small(c,4,0); while(comps(d).size()>3); v.push_back(d); } write_store(c,"in.pdstor",v); int how=(int)c.rng.below(4); bool o=c.rng.chance(0.6); vector<string> a={"in.pdstor"}; if(how==1) a.push_back(c.rng.chance(0.5)?"-K":"--KnotTheory"); if(how==2) a.push_back("-C"); if(how==3) a.push_back("--count-only"); if(o){ a.push_back("-o"); a.push_back("res"); } string ctx=cli::cmdline("shadow2diagram",a)+" "+sizes(v)+" "+show(v[0]); Res r=good(c,"shadow2diagram",a,ctx); string out=o?"res":how==1?"in-diagrams.KnotTheory":how==2?"in-diagrams.ccodes":"in-diagrams.pdstor";
  Bag want; std::set<Code> wset; bool knots=true,two=false; for(auto&s:v){ if(comps(s).size()>1) knots=false; if(twoedge(s)) two=true; std::set<Code> u; for(auto&d:all_diagrams(s)) u.insert(canon(d,ISOT)); for(auto&x:u){ want.insert(x); wset.insert(x); } }
  long total=-1,types=-1; { size_t p=r.out.find("wrote "); if(p!=string::npos) sscanf(r.out.c_str()+p,"wrote %ld diagram pdcodes/%ld",&total,&types); } long all=0; for(auto&s:v) all+=(1L<<comps(s).size())*(1L<<s.n); c.require(total==all,"s2d-total",fmt("%ld reported, %ld exist ",total,all)+ctx); if(how==0||how==3) c.require(knots?types==(long)want.size():types>=(long)want.size()&&types<=all,"s2d-count",fmt("%ld reported, %zu classes ",types,want.size())+ctx);
  if(how==0){ Loaded L; load(c,out,L); c.require((long)L.d.size()==types,"s2d-header",ctx); c.require(uniq(L.d,ISOT)==wset,"s2d-set",ctx); if(knots) c.require(bag(L.d,ISOT)==want,"s2d-multiplicity",ctx); }
  else if(how==1){ c.require(cli::exists(out),"output-missing",out+" "+ctx); vector<Dg> g; for(auto&l:lines(cli::slurp(out))) if(l.find("PD[")!=string::npos||l.find("X[")!=string::npos) g.push_back(readkt(c,l,ctx)); if(!two){ c.require(uniq(g,ISOT)==wset,"s2d-kt-set",fmt("%zu lines ",g.size())+ctx); if(knots) c.require(bag(g,ISOT)==want,"s2d-kt-multiplicity",ctx); } }
  else if(how==2) c.require(cli::exists(out),"output-missing",out+" "+ctx); c.count(fmt("how_%d",how)); c.seen(fp(v[0])^mix(how*10+k)); }

static void m_process(Case&c){ Dir D(c.i); int k=1+(int)c.rng.below(6); bool exps=c.rng.chance(0.35),expo=c.rng.chance(0.35),orb=c.rng.chance(0.3); auto v=batch(c,k,exps?4:7,c.rng.chance(0.7)?1:-1); for(auto&d:v) if(comps(d).size()>3||(exps&&d.n>4)) throw Skip(); int how=(int)c.rng.below(3); bool ks=c.rng.chance(0.2); int nc=!ks&&c.rng.chance(0.2)?1+(int)c.rng.below(3):0; bool simp=c.rng.chance(0.15),cant=!simp&&c.rng.chance(0.15); vector<string> a={"in.pdstor"}; write_store(c,"in.pdstor",v); Loaded O; loadseq(c,"in.pdstor",O); if(exps) a.push_back("-e"); if(expo) a.push_back("--generate-all-orientations"); if(orb) a.push_back("--orbit-reps"); if(how==1) a.push_back("-K"); if(how==2) a.push_back("--knottypes"); if(ks) a.push_back("-k"); if(nc) a.push_back(fmt("--number-of-components=%d",nc)); if(simp) a.push_back("-s"); if(cant) a.push_back("--no-simplifications-possible"); bool o=c.rng.chance(0.5); if(o){ a.push_back("-o"); a.push_back("res"); } string ctx=cli::cmdline("processpdstor",a)+" "+sizes(v)+" "+show(v[0]); Res r=good(c,"processpdstor",a,ctx); string out=o?"res":how==0?"in.ccode":how==1?"in.KnotTheory":"in.knottypes"; c.require(cli::exists(out),"output-missing",out+" "+ctx);
  // what should be written: per input, in file order, the list of codes
  string txt=cli::slurp(out); struct Rec{ int cr; unsigned long uid; string ors,sg,body; }; vector<Rec> recs; for(auto&l:lines(txt)){ if(l[0]=='#'){ Rec x; char b1[600]="",b2[600]=""; if(sscanf(l.c_str(),"# %d crossing pd from original UID %lu, orientations %599s crossings %599s",&x.cr,&x.uid,b1,b2)<2) c.fail("process-header",l+" "+ctx); if(b1[0]==0) sscanf(l.c_str(),"# %d crossing pd from original UID %lu, crossings %599s",&x.cr,&x.uid,b2); x.ors=b1; x.sg=b2; recs.push_back(x); } else { c.require(!recs.empty(),"process-text",ctx); recs.back().body+=l+"\n"; } }
  size_t at=0; for(size_t i=0;i<O.d.size();i++){ Dg d=O.d[i]; if(simp||cant){ PD p(pd_copy(O.pd[i])),q(pd_simplify(p)); if(cant&&q->ncross!=O.pd[i]->ncross&&how!=2) continue; if(q->ncross==0&&how!=2) continue; d=fromPd(q); if(!d.n) throw Skip(); } int nk=(int)comps(d).size(); if((ks&&nk!=1)||(nc&&nk!=nc)) continue; for(int x=0;x<d.n;x++) if(d.over[x]==2) setsgn(d,x,1); auto ex=all_diagrams(d,expo,exps); // unset signs become positive after reorientation
    bool unset=false; for(int x=0;x<O.d[i].n;x++) if(O.d[i].over[x]==2) unset=true; size_t cnt=ex.size(); if(orb){ std::set<Code> u; for(auto&e:ex) u.insert(canon(e,ISOT)); if(nk>1||(unset&&!exps)){ // tags make links more distinct
        size_t m=0; while(at+m<recs.size()&&recs[at+m].uid==O.uid[i]&&recs[at+m].cr==d.n&&m<cnt) m++; c.require(m>=1,"process-orbits",ctx); cnt=m; c.count("orbit_links"); if(i+1<O.d.size()) throw Skip(); } else cnt=u.size(); }
    c.require(at+cnt<=recs.size(),"process-count",fmt("input %zu: %zu codes expected, %zu left ",i,cnt,recs.size()-at)+ctx); Bag got,want; for(size_t j=0;j<cnt;j++){ Rec&x=recs[at+j]; c.require(x.cr==d.n&&x.uid==O.uid[i],"process-record",fmt("input %zu record %zu ",i,j)+ctx); c.require((int)x.sg.size()==d.n,"process-signs",x.sg+" "+ctx); if(how==1){ if(!twoedge(d)) got.insert(canon(readkt(c,x.body,ctx),orb?ISOT:EXACT)); } else if(how==0){ int nl=0; for(auto&l:lines(x.body)) if(!l.empty()) nl++; c.require(nl>=d.n,"process-ccode",x.body+" "+ctx); } }
    if(how==1&&!twoedge(d)&&!(unset&&!exps&&expo)){ if(orb){ std::set<Code> u; for(auto&e:ex) u.insert(canon(e,ISOT)); c.require(std::set<Code>(got.begin(),got.end())==u,"process-orbit-set",ctx); } else { for(auto&e:ex) want.insert(canon(e,EXACT)); c.require(got==want,"process-kt-set",fmt("input %zu of %zu ",i,O.d.size())+ctx); } }
    if(how==2&&!orb&&!(unset&&!exps&&expo)){ // the knot types (or polynomials) written are those of the expansions
      std::multiset<string> w,g; for(size_t j=0;j<cnt;j++) g.insert(recs[at+j].body); for(auto&e:ex){ PD p(toPd(e,c.rng)); string b; if(nk==1){ int np=0; plc_knottype*t=pd_classify(p,&np); for(int q=0;q<np;q++){ b+=fmt("%d_%d",t[q].cr[0],t[q].ind[0]); for(int f=1;f<t[q].nf;f++) b+=fmt("#%d_%d",t[q].cr[f],t[q].ind[f]); b+=string(" (")+t[q].homfly+") \n"; } free(t); } else { char*h=pd_homfly_timeout(p,120); b=string(h?h:"(null)")+"\n"; free(h); } w.insert(b); } c.require(g==w,"process-knottypes",(g.empty()?"":*g.begin())+" :: "+(w.empty()?"":*w.begin())+" :: "+ctx); c.count("knottypes",(long)g.size()); }
    at+=cnt; }
  c.require(at==recs.size(),"process-extra",fmt("%zu of %zu used ",at,recs.size())+ctx); c.count(fmt("how_%d",how)); if(exps) c.count("all_signs"); if(expo) c.count("all_orientations"); c.seen(fp(v[0])^mix(how*64+k)); }

static void m_carbon(Case&c){ Dir D(c.i); int k=1+(int)c.rng.below(6); auto v=batch(c,k,12,-1); write_store(c,"in.pdstor",v); Loaded O; loadseq(c,"in.pdstor",O); bool o=c.rng.chance(0.5),weak=c.rng.chance(0.3); vector<string> a={"in.pdstor"}; if(o){ a.push_back("-o"); a.push_back("res.c"); } if(weak) a.push_back("--weak-checking"); string ctx=cli::cmdline("carbonizepd",a)+" "+sizes(v); good(c,"carbonizepd",a,ctx); string out=o?"res.c":"in.c"; c.require(cli::exists(out),"output-missing",ctx); string t=cli::slurp(out); size_t at=0; for(size_t i=0;i<O.d.size();i++){ string fn=fmt("pd_code_t *pd_create_in_%zu()",i); size_t s=t.find(fn,at); c.require(s!=string::npos,"carbon-function",fn+" "+ctx); size_t e=t.find("pd_code_t *pd_create_",s+5); string b=t.substr(s,e==string::npos?string::npos:e-s); at=s; pd_code_t*q=O.pd[i]; std::map<string,string> val; for(auto&l:lines(b)){ size_t eq=l.find(" = "); if(l.compare(0,4,"pd->")==0&&eq!=string::npos&&l.back()==';') val[l.substr(4,eq-4)]=l.substr(eq+3,l.size()-eq-4); }
    auto chk=[&](const string&key,long x){ auto it=val.find(key); c.require(it!=val.end(),"carbon-missing",key+" "+ctx+" "+b.substr(0,600)); const string&w=it->second; long y= w[0]=='\''? (unsigned char)w[1] : w=="PD_POS_ORIENTATION"?PD_POS_ORIENTATION:w=="PD_NEG_ORIENTATION"?PD_NEG_ORIENTATION:w=="PD_UNSET_ORIENTATION"?PD_UNSET_ORIENTATION:atol(w.c_str()); c.require(x==y,"carbon-value",key+"="+w+fmt(" wanted %ld ",x)+ctx); };
    chk("ncross",q->ncross); chk("nedges",q->nedges); chk("ncomps",q->ncomps); chk("nfaces",q->nfaces); for(unsigned x=0;x<q->ncross;x++){ for(int j=0;j<4;j++) chk(fmt("cross[%u].edge[%d]",x,j),q->cross[x].edge[j]); chk(fmt("cross[%u].sign",x),q->cross[x].sign); } for(unsigned x=0;x<q->nedges;x++){ chk(fmt("edge[%u].head",x),q->edge[x].head); chk(fmt("edge[%u].tail",x),q->edge[x].tail); chk(fmt("edge[%u].headpos",x),q->edge[x].headpos); chk(fmt("edge[%u].tailpos",x),q->edge[x].tailpos); } for(unsigned x=0;x<q->ncomps;x++){ chk(fmt("comp[%u].nedges",x),q->comp[x].nedges); chk(fmt("comp[%u].tag",x),q->comp[x].tag); for(unsigned j=0;j<q->comp[x].nedges;j++) chk(fmt("comp[%u].edge[%u]",x,j),q->comp[x].edge[j]); } for(unsigned x=0;x<q->nfaces;x++){ chk(fmt("face[%u].nedges",x),q->face[x].nedges); for(unsigned j=0;j<q->face[x].nedges;j++){ chk(fmt("face[%u].edge[%u]",x,j),q->face[x].edge[j]); chk(fmt("face[%u].orient[%u]",x,j),q->face[x].orient[j]); } }
    c.require(!weak||b.find(O.hash[i])!=string::npos,"carbon-hash",ctx); }
  c.require(t.find(fmt("pd_create_in_%zu()",O.d.size()))==string::npos,"carbon-extra",ctx); c.seen(fp(v[0])^mix(k)); }

// missing or malformed input files: an error is reported, nothing crashes, and no result is invented
static void m_badfile(Case&c){ Dir D(c.i); if(c.rng.chance(0.004)){ // many components: the expansion is out of reach, but nothing may be overrun before it
    vector<Dg> v; pd_code_t*p=pd_build_simple_chain(10+(pd_idx_t)c.rng.below(3)); v.push_back(fromPd(p)); pd_code_free(&p); for(auto&o:v[0].over) o=2; write_store(c,"chain.pdstor",v); vector<string> a={"chain.pdstor"}; Res r=cli::tool("orientedshadows",a,2); c.require(r.err.find("ERROR: AddressSanitizer")==string::npos&&r.err.find("runtime error:")==string::npos,"orientedshadows-sanitizer",cli::head(r.err,700)); c.count("many_components"); c.seen(mix(99)); return; }
  auto v=batch(c,1+(int)c.rng.below(5),5,-1); write_store(c,"ok.pdstor",v); string t=cli::slurp("ok.pdstor"); int kind=(int)c.rng.below(5); if(kind==1) t=t.substr(0,c.rng.below(t.size())); if(kind==2){ for(int i=0;i<3;i++) t[c.rng.below(t.size())]=(char)c.rng.range(32,126); } if(kind==3) t=""; if(kind==4) t="hello\n"; if(kind){ std::ofstream("bad.pdstor")<<t; } static const char*tn[]={"splitpd","filterpd","computepd","connectsum","joinpd","orientedshadows","processpdstor","carbonizepd"}; int w=(int)c.rng.below(8); vector<string> a; switch(w){ case 0: a={"--file=bad.pdstor","-n2"}; if(c.rng.chance(0.3)){ a={"--file=ok.pdstor",c.rng.chance(0.5)?"-n0":"-s0"}; c.count("no_pieces"); } break; case 1: a={"--file=bad.pdstor","-o","out","--ncomps=1"}; break; case 2: a={"--file=bad.pdstor","-c","ncross","-o","out"}; break; case 3: a={"-a","bad.pdstor","-b","ok.pdstor","-o","out"}; if(c.rng.chance(0.5)) std::swap(a[1],a[3]); if(v.size()>2) throw Skip(); for(auto&d:v) if(d.n>3) throw Skip(); break; case 4: a={"ok.pdstor","bad.pdstor","--no-checking","-o","out"}; if(c.rng.chance(0.5)) std::swap(a[0],a[1]); break; default: a={"bad.pdstor","-o","out"}; } Res r=good(c,tn[w],a,cli::head(t,400),-1); c.count(r.rc?"refused":"accepted"); c.count(fmt("kind_%d",kind)); if((kind==3||kind==4||kind==0)&&w<5&&cli::exists("out")&&w!=4){ c.require(false,"result-from-nothing",cli::cmdline(tn[w],a)+fmt(" kind %d ",kind)+cli::head(cli::slurp("out"),200)); } c.seen(mix(w*8+kind)); }

int main(int argc,char**argv){ return run(argc,argv,{{"split",m_split},{"join",m_join},{"filter",m_filter},{"compute",m_compute},{"csum",m_csum},{"oshadow",m_oshadow},{"s2d",m_s2d},{"process",m_process},{"carbon",m_carbon},{"badfile",m_badfile}}); }
