// finite-group iterators, isomorphism groups and the small containers under them
#include "pdlib.hpp"
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_cyclic.h"
#include "pd_dihedral.h"
#include "pd_orientation.h"
#include "pd_isomorphisms.h"
#include "pd_container.h"
#include "pd_sortedbuf.h"
}
#undef new
using namespace pdl;
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };
typedef vector<int> VI;
static string sv(const VI&v){ string s="("; for(int x:v) s+=fmt("%d ",x); return s+")"; }
static VI of(const pd_perm_t*p){ VI v; for(pd_idx_t i=0;i<p->n;i++) v.push_back((int)p->map[i]); return v; }
static VI of(const pd_cyclic_t*p){ VI v; for(pd_idx_t i=0;i<p->n;i++) v.push_back((int)p->map[i]); return v; }
static VI of(const pd_dihedral_t*p){ VI v; v.push_back(p->orient); for(pd_idx_t i=0;i<p->n;i++) v.push_back((int)p->map[i]); return v; }
static VI state(void*o,int kind){ return kind==0?of((pd_perm_t*)o):kind==1?of((pd_cyclic_t*)o):kind==2?of((pd_dihedral_t*)o):VI{(int)((pd_orientation_t*)o)->orient}; }
static pd_iterops_t opsof(int k){ return k==0?perm_ops:k==1?cyclic_ops:k==2?dihedral_ops:orientation_ops; }
static VI first(int kind,int n){ VI v; if(kind==3) return VI{PD_POS_ORIENTATION}; if(kind==2) v.push_back(PD_POS_ORIENTATION); for(int i=0;i<n;i++) v.push_back(i); return v; }
static long order(int kind,int n){ if(kind==1) return n; if(kind==2) return 2*n; if(kind==3) return 2; long f=1; for(int i=2;i<=n;i++) f*=i; return f; }
static bool member(int kind,int n,const VI&v){ if(kind==3) return v.size()==1&&(v[0]==PD_POS_ORIENTATION||v[0]==PD_NEG_ORIENTATION); if(kind==0){ if((int)v.size()!=n) return false; VI w=v; std::sort(w.begin(),w.end()); for(int i=0;i<n;i++) if(w[i]!=i) return false; return true; } int o=kind==2; if((int)v.size()!=n+o) return false; bool rev=o&&v[0]==PD_NEG_ORIENTATION; for(int i=0;i<n;i++){ int want=rev?((v[o]-i)%n+n)%n:(v[o]+i)%n; if(v[o+i]!=want) return false; } return v[o]>=0&&v[o]<n; }
static const char*KN[]={"perm","cyclic","dihedral","orientation"};
template<class F> static void checked_print(Case&c,F f,void*o,const char*k){ char*s=f(o); c.require(s!=NULL&&strlen(s)<100000,(string(k)+"-print-null").c_str()); free(s); }

// each iterator runs through its group exactly once and comes back; products of iterators run through all tuples
static void m_iter(Case&c){ int kind=(int)c.rng.below(4); pd_idx_t n=1+(pd_idx_t)c.rng.below(kind==0?(c.rng.chance(0.05)?8:6):c.rng.chance(0.1)?300:24); pd_iterops_t ops=opsof(kind); void*o=ops.new_(&n); string nm=KN[kind]; long N=order(kind,(int)n); c.require((long)ops.nvals(o)==N,(nm+"-count").c_str(),fmt("n=%u says %u want %ld",n,ops.nvals(o),N)); VI st=first(kind,(int)n); c.require(state(o,kind)==st,(nm+"-first").c_str(),sv(state(o,kind))); if(N>3000&&c.rng.chance(0.7)){ ops.free(&o); throw Skip(); }
  std::set<VI> seen; VI prev; void*saved=NULL; long at=(long)c.rng.below(N); VI savedst; for(long i=0;i<N;i++){ VI s=state(o,kind); c.require(member(kind,(int)n,s),(nm+"-not-member").c_str(),fmt("step %ld ",i)+sv(s)); c.require(seen.insert(s).second,(nm+"-repeated").c_str(),fmt("step %ld of %ld ",i,N)+sv(s)); c.require(ops.ok(o),(nm+"-ok-false").c_str(),sv(s)); if(kind==0&&i) c.require(prev<s,"perm-not-lexicographic",sv(prev)+sv(s)); prev=s; if(i==at){ saved=ops.copy(o); savedst=s; } else if(c.rng.chance(0.05)&&saved){ VI t=state(o,kind); int cm=ops.cmp(&saved,&o),rc=ops.cmp(&o,&saved); c.require((cm==0)==(t==savedst)&&(cm<0)==(rc>0)&&(cm>0)==(rc<0),(nm+"-cmp").c_str(),sv(t)+sv(savedst)); if(kind==0&&t!=savedst) c.require((cm<0)==(savedst<t),"perm-cmp-order",sv(t)); } ops.incr(o); }
  c.require(state(o,kind)==st,(nm+"-does-not-return").c_str(),sv(state(o,kind))); c.require(state(saved,kind)==savedst&&ops.ok(saved),(nm+"-copy-shared").c_str(),sv(savedst)); checked_print(c,ops.print,saved,KN[kind]); ops.incr(saved); VI nx=state(saved,kind); ops.free(&saved); ops.free(&o); c.require(saved==NULL&&o==NULL,(nm+"-free").c_str()); { void*q=ops.new_(&n); for(long i=0;i<=at;i++) ops.incr(q); c.require(state(q,kind)==nx,(nm+"-copy-continues-wrong").c_str(),sv(nx)); ops.free(&q); } c.count("iter_"+nm); c.seen(mix(kind*1000+n)); c.maxi("group_order",N); }

static void m_multidx(Case&c){ int kind=(int)c.rng.below(4); pd_idx_t k=1+(pd_idx_t)c.rng.below(5); vector<pd_idx_t> n(k); double tot=1; for(auto&x:n){ x=1+(pd_idx_t)c.rng.below(kind==0?4:5); tot*=order(kind,(int)x); } if(tot>5000) throw Skip(); vector<void*> init; for(auto&x:n) init.push_back(&x); pd_iterops_t ops=opsof(kind); pd_multidx_t*m=pd_new_multidx(k,kind==3&&c.rng.chance(0.5)?NULL:init.data(),ops); unsigned N=pd_multidx_nvals(m); c.require(N==(unsigned)tot,"multidx-count",fmt("%u want %g",N,tot)); auto st=[&](pd_multidx_t*q){ VI v; for(pd_idx_t i=0;i<k;i++){ VI s=state(q->obj[i],kind); v.insert(v.end(),s.begin(),s.end()); v.push_back(-1); } return v; };
  VI s0=st(m); std::map<VI,unsigned> seen; vector<pd_multidx_t*> copies; VI cs; unsigned at=(unsigned)c.rng.below(N); bool all=N<=60; for(unsigned i=0;i<N;i++){ VI s=st(m); c.require(!seen.count(s),"multidx-repeated",fmt("tuple at %u of %u ",i,N)+sv(s)); seen[s]=i; c.require(pd_multidx_ok(m),"multidx-ok-false",sv(s)); for(pd_idx_t j=0;j<k;j++) c.require(member(kind,(int)n[j],state(m->obj[j],kind)),"multidx-not-member",sv(s)); if(all||i==at){ copies.push_back(pd_copy_multidx(m)); if(i==at) cs=s; } pd_increment_multidx(m); }
  c.require(st(m)==s0,"multidx-does-not-return",sv(st(m))); pd_multidx_t*cp=copies[all?at:0]; c.require(st(cp)==cs&&pd_multidx_ok(cp),"multidx-copy-shared"); int cm=pd_multidx_cmp(&cp,&m),rc=pd_multidx_cmp(&m,&cp); c.require((cm==0)==(cs==s0)&&(cm<0)==(rc>0),"multidx-cmp"); if(all){ c.require(pd_multidxs_unique((unsigned)copies.size(),copies.data()),"multidx-unique-false"); if(copies.size()>1){ auto d=copies; size_t a=c.rng.below(d.size()),b=c.rng.below(d.size()); if(a!=b){ pd_multidx_t*dup=pd_copy_multidx(d[a]); auto sw=d[b]; d[b]=dup; c.require(!pd_multidxs_unique((unsigned)d.size(),d.data()),"multidx-duplicate-not-seen"); d[b]=sw; pd_free_multidx(&dup); } } }
  pd_increment_multidx(cp); pd_increment_multidx(m); for(unsigned i=0;i<at;i++) pd_increment_multidx(m); c.require(st(m)==st(cp),"multidx-copy-continues-wrong"); for(auto&q:copies) pd_free_multidx(&q); pd_free_multidx(&m); c.require(m==NULL,"multidx-free"); c.count(string("tuples_of_")+KN[kind]); u64 h=kind; for(auto x:n) h=mix(h^x); c.seen(h); c.maxi("tuples",N); }

// permutation arithmetic against a direct model
static void m_perm(Case&c){ pd_idx_t n=1+(pd_idx_t)c.rng.below(c.rng.chance(0.4)?6:c.rng.chance(0.2)?40:9); auto mkp=[&](const VI&v){ pd_perm_t*p=(pd_perm_t*)pd_new_perm(&n); for(pd_idx_t i=0;i<n;i++) p->map[i]=v[i]; pd_regenerate_pcidx(p); return p; }; auto rnd=[&]{ VI v; for(pd_idx_t i=0;i<n;i++) v.push_back(i); c.rng.shuffle(v); return v; }; auto mul=[&](const VI&a,const VI&b){ VI r(n); for(pd_idx_t i=0;i<n;i++) r[i]=a[b[i]]; return r; };
  VI id=first(0,(int)n); vector<VI> M; vector<pd_perm_t*> P; for(int i=0;i<3;i++){ VI v=c.rng.chance(0.15)?id:rnd(); M.push_back(v); P.push_back(mkp(v)); c.require(pd_perm_ok(P.back()),"perm-ok-false",sv(v)); }
  int steps=1+(int)c.rng.below(12); string log; for(int s=0;s<steps;s++){ size_t a=c.rng.below(P.size()),b=c.rng.below(P.size()),t=c.rng.below(P.size()); int op=(int)c.rng.below(6); log+=fmt("%d:%zu,%zu,%zu ",op,a,b,t); pd_perm_t*r=NULL; VI m;
    if(op==0){ r=pd_compose_perms(P[a],P[b]); m=mul(M[a],M[b]); } else if(op==1){ r=(pd_perm_t*)pd_copy_perm(P[a]); pd_stareq_perm(r,P[b]); m=mul(M[a],M[b]); } else if(op==2){ r=pd_inverse_perm(P[a]); m.assign(n,0); for(pd_idx_t i=0;i<n;i++) m[M[a][i]]=i; } else if(op==3){ pd_stareq_perm(P[a],P[a]); M[a]=mul(M[a],M[a]); } else if(op==4&&n<=9){ pd_increment_perm(P[a]); if(!std::next_permutation(M[a].begin(),M[a].end())) M[a]=id; } else if(op==5){ long per=1; VI w=M[a]; while(w!=id){ w=mul(w,M[a]); per++; } if(per<9999) c.require((long)pd_perm_period(P[a])==per,"perm-period",sv(M[a])+fmt(" want %ld",per)); }
    if(r){ pd_free_perm((void**)&P[t]); P[t]=r; M[t]=m; }
    for(size_t i=0;i<P.size();i++){ c.require(of(P[i])==M[i],"perm-wrong",log+sv(of(P[i]))+" want "+sv(M[i])); c.require(pd_perm_ok(P[i]),"perm-ok-false",log+sv(M[i])); c.require(pd_perm_is_e(P[i])==(M[i]==id),"perm-is-e",log); }
    c.require(pd_perms_eq(P[a],P[b])==(M[a]==M[b]),"perms-eq",log); int cm=pd_perm_cmp(&P[a],&P[b]); c.require((cm<0)==(M[a]<M[b])&&(cm==0)==(M[a]==M[b]),"perm-cmp-order",log); }
  // equal maps print alike, different maps print differently (when the text is not abbreviated)
  if(n<=40){ char*s0=pd_print_perm(P[0]),*s1=pd_print_perm(P[1]); bool eq=!strcmp(s0,s1); free(s0); free(s1); c.require(eq==(M[0]==M[1]),"perm-print",sv(M[0])+sv(M[1])); }
  { vector<pd_perm_t*> q=P; bool uq=M[0]!=M[1]&&M[1]!=M[2]&&M[0]!=M[2]; c.require(pd_perms_unique(3,q.data())==uq,"perms-unique",sv(M[0])+sv(M[1])+sv(M[2])); }
  // corrupted permutations are rejected
  { size_t i=c.rng.below(n); pd_perm_t*p=(pd_perm_t*)pd_copy_perm(P[0]); pd_idx_t old=p->map[i]; pd_idx_t nw=c.rng.chance(0.5)?n+(pd_idx_t)c.rng.below(3):(pd_idx_t)c.rng.below(n); if(nw!=old){ p->map[i]=nw; c.require(!pd_perm_ok(p),"perm-ok-accepts-bad",sv(of(p))); } pd_free_perm((void**)&p); if(n<=6){ pd_perm_t*q=(pd_perm_t*)pd_copy_perm(P[0]); q->pc_idx=(pd_idx_t)order(0,(int)n)+(pd_idx_t)c.rng.below(3); c.require(!pd_perm_ok(q),"perm-ok-accepts-bad-index",sv(of(q))); pd_free_perm((void**)&q); } }
  c.seen([&]{ u64 h=n; for(auto&m:M) for(int x:m) h=mix(h^(u64)x); return h; }()); for(auto&p:P) pd_free_perm((void**)&p); c.count(n<=6?"tabulated":"computed"); }

// automorphisms of a diagram: closed under composition, contain the identity and inverses, orders right, apply correctly
static Dg symmetric(Case&c){ for(int t=0;t<50;t++){ Dg d; int k=(int)c.rng.below(4); if(k==0){ d=braid_closure(c.rng,2,3+(int)c.rng.below(6),1.0); } else if(k==1) d=random_diagram(c.rng,2+(int)c.rng.below(7),0); else if(k==2) d=knotty(c.rng,3+(int)c.rng.below(6)); else { int q=2+(int)c.rng.below(4); Dg b; b.resize(2*q); // (s1 s2^-1)^q closed
        vector<int> cur(3,-1),bot(3,-1); for(int v=0;v<2*q;v++){ int i=v&1; for(int j=0;j<2;j++){ int h=4*v+j; if(cur[i+j]<0) bot[i+j]=h; else { b.mate[cur[i+j]]=h; b.mate[h]=cur[i+j]; } } cur[i]=4*v+3; cur[i+1]=4*v+2; b.over[v]=i; } for(int i=0;i<3;i++){ b.mate[cur[i]]=bot[i]; b.mate[bot[i]]=cur[i]; } orient_and_tag(b,c.rng); d=b; }
      bool ok=true; double w=1; std::map<size_t,int> len; for(auto&q:comps(d)){ if(q.h.size()<3) ok=false; w*=2.0*q.h.size(); len[q.h.size()]++; } for(auto&l:len) for(int i=2;i<=l.second;i++) w*=i; if(ok&&w<3000) return d; } throw Skip(); }
static void m_isogroup(Case&c){ Dg d=symmetric(c); PD A(toPd(d,c.rng)); bool maponly=c.rng.chance(0.3); unsigned n=0; pd_iso_t**g=maponly?pd_build_map_isomorphisms(A,A,&n):pd_build_isos(A,A,&n); long want=count_autos(d,maponly?0:CODE_REFLECT); string ctx=show(A); c.require((long)n==want,maponly?"map-automorphisms-count":"automorphisms-count",fmt("%u want %ld ",n,want)+ctx); c.require(n>0&&g,"no-identity",ctx); unsigned ne=0; for(unsigned i=0;i<n;i++){ if(pd_iso_is_e(g[i])) ne++; c.require(pd_iso_ok(g[i])&&pd_iso_consistent(A,A,g[i]),"iso-inconsistent",ctx); if(maponly) c.require(g[i]->crossmap->orient==PD_POS_ORIENTATION&&g[i]->facemap->orient==PD_POS_ORIENTATION,"map-iso-orientation",ctx); } c.require(ne==1,"identity-count",fmt("%u ",ne)+ctx); c.require(pd_isos_unique(n,g),"isos-not-unique",ctx);
  auto find=[&](pd_iso_t*x){ for(unsigned i=0;i<n;i++) if(pd_iso_cmp(&x,&g[i])==0) return (int)i; return -1; }; auto key=[&](pd_iso_t*x){ VI v=of(x->edgemap->perm); for(pd_idx_t e=0;e<x->edgemap->perm->n;e++) v.push_back(x->edgemap->orient[e]); return v; };
  for(int t=0;t<6;t++){ unsigned a=(unsigned)c.rng.below(n),b=(unsigned)c.rng.below(n); pd_iso_t*x=pd_compose_isos(g[a],g[b]); int f=find(x); c.require(f>=0,"group-not-closed",fmt("%u*%u ",a,b)+ctx); c.require(pd_iso_ok(x)&&pd_iso_consistent(A,A,x),"composition-inconsistent",ctx); // model of composition on edges
      VI ka=key(g[a]),kb=key(g[b]),kx=key(x); size_t E=A->nedges; for(size_t e=0;e<E;e++){ int m=kb[e]; c.require(kx[e]==ka[m]&&((kx[E+e]==PD_POS_ORIENTATION)==((kb[E+e]==PD_POS_ORIENTATION)==(ka[E+m]==PD_POS_ORIENTATION))),"composition-wrong",ctx); }
      pd_iso_t*y=pd_copy_iso(g[a]); pd_stareq_iso(y,g[b]); c.require(pd_iso_cmp(&x,&y)==0,"stareq-differs",ctx); c.require(pd_iso_ok(y)&&pd_iso_consistent(A,A,y),"stareq-inconsistent",ctx); char*p1=pd_print_iso(x),*p2=pd_print_iso(y); bool eq=!strcmp(p1,p2); free(p1); free(p2); c.require(eq,"iso-print",ctx); pd_free_iso(&x); pd_free_iso(&y);
      long per=1; VI w=key(g[a]),k1=w; VI idk; for(size_t e=0;e<E;e++) idk.push_back((int)e); for(size_t e=0;e<E;e++) idk.push_back(PD_POS_ORIENTATION); auto mulk=[&](const VI&p,const VI&q){ VI r(2*E); for(size_t e=0;e<E;e++){ r[e]=p[q[e]]; r[E+e]=(p[E+q[e]]==q[E+e])?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; } return r; }; auto cro=g[a]->crossmap->orient; int orn=cro==PD_POS_ORIENTATION?1:-1,cur=orn; while(!(w==idk&&cur==1)&&per<5000){ w=mulk(k1,w); cur*=orn; per++; } c.require((long)pd_iso_period(g[a])==per,"iso-period",fmt("want %ld ",per)+ctx); c.require(n%per==0,"period-does-not-divide-order",ctx); }
  c.count(maponly?"map_groups":"groups"); c.maxi("group_order",n); if(n>1) c.count("nontrivial_groups"); c.seen(mix(fp(d,CODE_REFLECT)+maponly)); pd_free_isos(&n,&g); }
static void m_isostr(Case&c){ Dg a=random_diagram(c.rng,2+(int)c.rng.below(c.rng.chance(0.2)?18:7),0),b; auto tame=[](const Dg&d){ double w=1; std::map<size_t,int> len; for(auto&q:comps(d)){ w*=2.0*q.h.size(); len[q.h.size()]++; } for(auto&l:len) for(int i=2;i<=l.second;i++) w*=i; return w<5000; }; int k=(int)c.rng.below(3); if(k==0) b=relabel(a,c.rng); else if(k==1) b=reflect(relabel(a,c.rng)); else b=random_diagram(c.rng,a.n,0); if(!tame(a)||!tame(b)) throw Skip(); auto str=[&](const Dg&d){ PD p(toPd(d,c.rng)); string s; vector<int> o; for(int v=0;v<d.n;v++) o.push_back(v); c.rng.shuffle(o); for(int v:o){ int r=(int)c.rng.below(4); for(int q=0;q<4;q++) s+=(char)(65+p->cross[v].edge[(q+r)&3]); } return s; }; string s=str(a),t=str(b); bool want=canon(a,CODE_REFLECT)==canon(b,CODE_REFLECT); vector<char> x(s.begin(),s.end()),y(t.begin(),t.end()); x.push_back(0); y.push_back(0); bool got=pd_isomorphic_strings(x.data(),a.n,y.data(),b.n); c.require(got==want,want?"isostr-missed":"isostr-invented",s+" "+t); c.require(!pd_isomorphic_strings(x.data(),a.n,y.data(),b.n-1),"isostr-length",s+" "+t); c.count(want?"isomorphic":"different"); c.seen(mix(fp(a,CODE_REFLECT)*3+fp(b,CODE_REFLECT))); }

// containers and sorted buffers against simple models
static int nfreed; static void cfree(void**p){ nfreed++; free(*p); *p=NULL; }
static void m_container(Case&c){ pd_container_t*k=pd_new_container((pd_contidx_t)(c.rng.chance(0.5)?c.rng.below(5):c.rng.below(300))); vector<int*> m; int steps=(int)c.rng.below(c.rng.chance(0.2)?1500:150); for(int s=0;s<steps;s++){ if(m.empty()||c.rng.chance(0.75)){ int*p=(int*)malloc(sizeof(int)); *p=s; pd_addto_container(k,p); m.push_back(p); } else { int*p=(int*)pd_pop_container(k); c.require(p==m.back(),"container-pop",fmt("step %d",s)); free(p); m.pop_back(); } c.require(pd_container_nelts(k)==m.size(),"container-count"); c.require(pd_container_ok(k),"container-ok"); if(!m.empty()){ size_t i=c.rng.below(m.size()); c.require(pd_container_elt(k,(pd_contidx_t)i)==m[i]&&*(int*)pd_container_elt(k,(pd_contidx_t)i)==*m[i],"container-elt",fmt("%zu of %zu",i,m.size())); } }
  for(size_t i=0;i<m.size();i++) c.require(pd_container_elt(k,(pd_contidx_t)i)==m[i],"container-elt-final",fmt("%zu",i)); nfreed=0; bool own=c.rng.chance(0.5); pd_free_container(&k,own?cfree:NULL); c.require(k==NULL&&(!own||nfreed==(int)m.size()),"container-free",fmt("%d of %zu",nfreed,m.size())); c.maxi("container_size",m.size()); c.count("container_steps",steps);
  std::set<pd_idx_t> S; pd_idx_t*buf=NULL,n=0; int ins=(int)c.rng.below(60); for(int i=0;i<ins;i++){ pd_idx_t x=(pd_idx_t)c.rng.below(c.rng.chance(0.5)?20:100000); buf=pd_sortedbuf_insert(buf,&n,x); S.insert(x); c.require(n==S.size()&&std::equal(S.begin(),S.end(),buf),"sortedbuf-insert",fmt("after inserting %u",x)); pd_idx_t y=(pd_idx_t)c.rng.below(25); c.require(pd_sortedbuf_contains(buf,n,y)==(S.count(y)>0),"sortedbuf-contains",fmt("%u",y)); pd_idx_t w=77; bool h=pd_buf_contains(buf,n,y,&w); c.require(h==(S.count(y)>0)&&(h?buf[w]==y:w==(pd_idx_t)PD_UNSET_IDX),"buf-contains",fmt("%u",y)); } u64 hh=n; for(auto x:S) hh=mix(hh^x); c.seen(hh); free(buf); c.count("sortedbuf_inserts",ins); }

int main(int argc,char**argv){ return run(argc,argv,{{"iter",m_iter},{"multidx",m_multidx},{"perm",m_perm},{"isogroup",m_isogroup},{"isostr",m_isostr},{"container",m_container}}); }
