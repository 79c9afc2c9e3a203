// Quantities computed from link diagrams: HOMFLY, classification, linking numbers, over/under
// strands, interlacement, alternation; diagram validity decisions; copies; splitting; builders.
#include "pdlib.hpp"
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#include "pd_invariants.h"
#include "pd_splitdiagram.h"
#include "polynomials.h"
char *pdcode_to_ccode(pd_code_t *pd);
}
#undef new
using namespace pdl;
static const int FULL=CODE_SIGN|CODE_ORIENT|CODE_TAG;
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };

// model moves used to make diagrams of a known link more complicated
static Dg loop(const Dg&d,int h,int side,int o){ Dg e; e.resize(d.n+1); for(int x=0;x<4*d.n;x++){ e.mate[x]=d.mate[x]; e.out[x]=d.out[x]; e.tag[x]=d.tag[x]; } for(int v=0;v<d.n;v++) e.over[v]=d.over[v]; int v=4*d.n,m=d.mate[h],t=d.tag[h]; int a=v,b=v+2,l2=side?v+3:v+1,o2=opp(l2); e.mate[h]=a; e.mate[a]=h; e.mate[b]=l2; e.mate[l2]=b; e.mate[o2]=m; e.mate[m]=o2; e.out[a]=0; e.out[b]=1; e.out[l2]=0; e.out[o2]=1; for(int k=0;k<4;k++) e.tag[v+k]=t; e.over[d.n]=o; return e; }
static bool bigon(const Dg&d,int h1,int h2,int o,Dg&r){ Dg e; e.resize(d.n+2); for(int x=0;x<4*d.n;x++){ e.mate[x]=d.mate[x]; e.out[x]=d.out[x]; e.tag[x]=d.tag[x]; } for(int v=0;v<d.n;v++) e.over[v]=d.over[v]; int m1=d.mate[h1],m2=d.mate[h2],A=4*d.n,B=A+4;
  for(int variant=0;variant<2;variant++){ Dg f=e; auto c2=[&](int a,int b){ f.mate[a]=b; f.mate[b]=a; }; int x=variant?1:3,y=variant?3:1; c2(h1,A); c2(A+2,B); c2(B+2,m1); c2(h2,B+x); c2(B+((x+2)&3),A+y); c2(A+((y+2)&3),m2); int d1=d.out[h1],d2=d.out[h2]; f.out[A]=!d1; f.out[A+2]=d1; f.out[B]=!d1; f.out[B+2]=d1; f.out[B+x]=!d2; f.out[B+((x+2)&3)]=d2; f.out[A+y]=!d2; f.out[A+((y+2)&3)]=d2; for(int k=0;k<4;k++){ f.tag[A+k]=f.tag[B+k]=(k&1)?d.tag[h2]:d.tag[h1]; } f.over[d.n]=f.over[d.n+1]=o; if((int)faces(f).size()==f.n+2){ r=f; return true; } } return false; }
static Dg inflate(Dg d,Rng&r,int moves){ for(int i=0;i<moves;i++){ if(r.chance(0.4)){ vector<int> o; for(int x=0;x<4*d.n;x++) if(d.out[x]) o.push_back(x); d=loop(d,r.pick(o),(int)r.below(2),(int)r.below(2)); } else { auto fs=faces(d); auto&f=r.pick(fs); if(f.size()<2) continue; int a=f[r.below(f.size())],b=f[r.below(f.size())]; if(a==b||d.mate[a]==b) continue; Dg e; if(bigon(d,a,b,(int)r.below(2),e)) d=e; } } return d; }

static string homfly_s(Case&c,pd_code_t*p){ char*s=pd_homfly(p); c.require(s!=NULL,"homfly-null",show(p)); string r=s; free(s); return r; }
static void m_homfly(Case&c){ int n=c.rng.chance(0.02)?0:1+(int)c.rng.below(c.rng.chance(0.2)?16:11); Dg d=n?any_signed(c.rng,n):random_diagram(c.rng,0,1); Poly want,got; if(!homfly(d,want,40000)) throw Skip(); PD p(toPd(d,c.rng)); PD keep(pd_copy(p)); string s=homfly_s(c,p); c.require(parse_poly(s.c_str(),got),"homfly-unparsable",s); c.require(got==want,"homfly-wrong","lib "+s+" oracle "+show(want)+" "+show(p.p)); string df=same(keep,p); c.require(df=="","homfly-modified-input",df);
  c.seen(fp(d)); c.count(fmt("comps_%zu",std::min<size_t>(6,comps(d).size()))); if(want.size()>1) c.count("nontrivial"); c.sample(show(d)+" -> "+s);
  if(n&&c.rng.chance(0.4)){ Dg m=mirror_over(d); PD q(toPd(m,c.rng)); Poly g2; c.require(parse_poly(homfly_s(c,q).c_str(),g2)&&g2==mirror(got),"homfly-mirror",show(p.p)); }
  if(n&&c.rng.chance(0.4)){ Dg m=relabel(d,c.rng); PD q(toPd(m,c.rng)); c.require(homfly_s(c,q)==s,"homfly-relabel",show(p.p)); }
  if(n&&c.rng.chance(0.3)){ char*t=pd_homfly_timeout(p,300); c.require(t&&s==t,"homfly-timeout-variant",show(p.p)); free(t); } }
// larger diagrams: invariance under Reidemeister moves and reversal of everything
static void m_homfly_big(Case&c){ Dg d=any_signed(c.rng,4+(int)c.rng.below(16)); Poly want; bool have=homfly(d,want,8000); PD p(toPd(d,c.rng)); string s=homfly_s(c,p); Poly g; c.require(parse_poly(s.c_str(),g),"homfly-unparsable",s); if(have) c.require(g==want,"homfly-wrong","lib "+s+" "+show(p.p));
  Dg e=inflate(d,c.rng,1+(int)c.rng.below(12)); PD q(toPd(e,c.rng)); Poly g2; c.require(parse_poly(homfly_s(c,q).c_str(),g2)&&g2==g,"homfly-not-invariant",show(p.p)+" -> "+show(q.p)); Dg r=d; for(auto&o:r.out) o=!o; PD w(toPd(r,c.rng)); Poly g3; c.require(parse_poly(homfly_s(c,w).c_str(),g3)&&g3==g,"homfly-reversal",show(p.p)); c.maxi("crossings",e.n); c.seen(fp(e)); if(g.size()>1) c.count("nontrivial"); }

// diagrams close to the engine's size limit, kept computable by being mostly nugatory
static void m_homfly_huge(Case&c){ Dg d=any_signed(c.rng,3+(int)c.rng.below(8)); Poly want,g; if(!homfly(d,want,40000)) throw Skip(); int target=c.rng.chance(0.2)?250:40+(int)c.rng.below(211); while(d.n<target){ if(d.n+2<=target&&c.rng.chance(0.3)&&d.n<60){ d=inflate(d,c.rng,1); } else { vector<int> o; for(int x=0;x<4*d.n;x++) if(d.out[x]) o.push_back(x); d=loop(d,c.rng.pick(o),(int)c.rng.below(2),(int)c.rng.below(2)); } } d=relabel(d,c.rng); PD p(toPd(d,c.rng)); string s=homfly_s(c,p); c.require(parse_poly(s.c_str(),g)&&g==want,"homfly-wrong-large","lib "+s+" oracle "+show(want)+fmt(" n=%d",d.n)); c.maxi("crossings",d.n); c.seen(fp(d)); }

// composite links: connected sums and split unions of small factors, many components, large coefficients
static void retag(Dg&d,Rng&r){ vector<int> t; for(int i='A';i<127;i++) t.push_back(i); r.shuffle(t); size_t k=0; for(auto&x:comps(d)){ for(int h:x.h) d.tag[h]=d.tag[d.mate[h]]=t.at(k); k++; } }
static Dg hopf(int o,bool linked){ Dg d; d.resize(2); auto c2=[&](int a,int b){ d.mate[a]=b; d.mate[b]=a; }; c2(0,6); c2(2,4); c2(1,5); c2(3,7); d.out.assign(8,0); d.out[2]=1; d.out[6]=1; d.out[3]=1; d.out[5]=1; if((int)faces(d).size()!=4){ c2(1,7); c2(3,5); d.out[5]=0; d.out[7]=1; d.out[3]=1; } for(int h=0;h<8;h++) d.tag[h]='A'+(h&1); d.over[0]=o; d.over[1]=linked?1-o:o; return d; }
static void m_homfly_comp(Case&c){ Poly want; Dg d; int kind=(int)c.rng.below(4); auto factor=[&](Poly&q)->Dg{ Dg f; if(kind<2||c.rng.chance(0.5)){ f=hopf((int)c.rng.below(2),kind==0?c.rng.chance(0.2):c.rng.chance(0.7)); if(c.rng.chance(0.5)){ auto cs=comps(f); for(int h:cs[0].h){ f.out[h]=!f.out[h]; f.out[f.mate[h]]=!f.out[f.mate[h]]; } } } else f=any_signed(c.rng,1+(int)c.rng.below(5)); homfly(f,q,100000); return f; };
  d=factor(want); int ops=kind==3?2+(int)c.rng.below(4):2+(int)c.rng.below(c.rng.chance(0.3)?32:10); int splits=0; for(int i=0;i<ops;i++){ Poly q; Dg f=factor(q); if(d.n+f.n+2>200||comps(d).size()+comps(f).size()>52) break; bool split=c.rng.chance(kind==0?0.1:0.25); Poly w=mul(want,q); if(split) w=mul(w,delta_pow(1)); bool fits=true; for(auto&x:w) if(llabs(x.second)>2100000000LL) fits=false; if(!fits) break; int n0=d.n; Dg m=merge({d,f}); vector<int> oa,ob; for(int h=0;h<4*m.n;h++) if(m.out[h]) (h<4*n0?oa:ob).push_back(h); int x=c.rng.pick(oa),y=c.rng.pick(ob); if(split){ Dg e; if(!bigon(m,c.rng.chance(0.5)?x:m.mate[x],c.rng.chance(0.5)?y:m.mate[y],(int)c.rng.below(2),e)) continue; d=e; splits++; } else { int mx=m.mate[x],my=m.mate[y]; m.mate[x]=my; m.mate[my]=x; m.mate[y]=mx; m.mate[mx]=y; d=m; } want=w; }
  retag(d,c.rng); if(c.rng.chance(0.4)) d=inflate(d,c.rng,1+(int)c.rng.below(4)); d=relabel(d,c.rng); long long big=0; for(auto&x:want) big=std::max(big,(long long)llabs(x.second)); PD p(toPd(d,c.rng)); string s=homfly_s(c,p); Poly g; c.require(parse_poly(s.c_str(),g)&&g==want,"homfly-composite",fmt("%zu components ",comps(d).size())+"lib "+s+" oracle "+show(want)+show(p.p)); c.maxi("crossings",d.n); c.maxi("components",comps(d).size()); c.maxi("coefficient",big); c.count(fmt("digits_%d",(int)std::to_string(big).size())); if(splits) c.count("split"); c.seen(fp(d)); }

// ---- classification -----------------------------------------------------------------------
#include "data_rolfsen.inc"
static pd_code_t* rolfsen(int i){ FILE*f=fmemopen((void*)rolfsen10[i],strlen(rolfsen10[i]),"r"); pd_code_t*p=pd_read_KnotTheory(f); fclose(f); return p; }
static void name_of(int i,int&cr,int&ind){ static const int cnt[]={1,1,2,3,7,21,49,165}; cr=3; int k=0; while(i>=cnt[k]){ i-=cnt[k++]; cr++; } ind=i+1; }
static Poly polyof(const char*lm){ char*t=strdup(lm); homfly_polynomial_t*h=lmpoly_to_polynomial(t); free(t); Poly p; for(int i=0;i<h->nmonomials;i++) p[{h->mono[i].l,h->mono[i].m}]+=h->mono[i].coeff; homfly_polynomial_free(&h); return p; }
typedef std::multiset<std::pair<int,int>> KT;
static std::set<KT> classify(Case&c,pd_code_t*p,const char*what){ int np=-7; PD keep(pd_copy(p)); plc_knottype*k=pd_classify(p,&np); string df=same(keep,p); c.require(df=="","classify-modified-input",df); std::set<KT> r; c.require(np>=0&&(np>0)==(k!=NULL),"classify-count",fmt("%s nposs %d",what,np)); for(int i=0;i<np;i++){ c.require(k[i].nf>=1&&k[i].nf<=MAXPRIMEFACTORS,"classify-nf"); KT t; for(int j=0;j<k[i].nf;j++) t.insert({k[i].cr[j],k[i].ind[j]}); r.insert(t); }
  if(np>0){ char*hs=pd_homfly(p); Poly g; if(hs&&parse_poly(hs,g)) for(int i=0;i<np;i++) c.require(polyof(k[i].homfly)==g,"classify-other-homfly",string(what)+" "+k[i].homfly+" vs "+hs); free(hs); } free(k); return r; }
static void m_classify(Case&c){
  int pick=(int)c.rng.below(10);
  if(pick<6){ // prime knots of the standard table, mirrored, reversed, relabelled, made more complicated
    int i=(int)c.rng.below(c.rng.chance(0.5)?249:35),cr,ind; name_of(i,cr,ind); PD p(rolfsen(i)); c.require(p.p!=NULL,"table-read"); Dg d=fromPd(p); if(c.rng.chance(0.5)) d=mirror_over(d); if(c.rng.chance(0.5)) for(auto&o:d.out) o=!o; d=relabel(d,c.rng); d=inflate(d,c.rng,(int)c.rng.below(7)); PD q(toPd(d,c.rng)); auto s=classify(c,q,fmt("%d_%d",cr,ind).c_str()); c.require(s.count(KT{{cr,ind}})==1,"classify-missing",fmt("%d_%d ",cr,ind)+show(q.p)); c.count("prime"); c.seen(i*4+d.n*1000); }
  else if(pick<8){ // unknots
    Dg d; d.resize(1); PD u(pd_build_unknot(1)); d=fromPd(u); d=inflate(d,c.rng,1+(int)c.rng.below(14)); PD q(toPd(d,c.rng)); auto s=classify(c,q,"unknot"); c.require(s.count(KT{{0,1}})==1,"classify-missing","0_1 "+show(q.p)); c.count("unknot"); c.seen(fp(d)); }
  else { // whatever: sound and repeatable
    Dg d; int t=0; do d=any_signed(c.rng,1+(int)c.rng.below(13)); while(comps(d).size()>1&&++t<200); if(comps(d).size()>1) throw Skip(); PD q(toPd(d,c.rng)); auto s=classify(c,q,"random"); for(auto&k:s){ int tot=0; for(auto&x:k) tot+=x.first; c.count(tot?"found_knot":"found_unknot"); } bool fits=false; for(auto&k:s){ int tot=0; for(auto&x:k) tot+=x.first; if(tot<=d.n) fits=true; } if(d.n<=10) c.require(fits,"classify-too-big",show(q.p)); c.seen(fp(d)); } }
// knot type names: written and read back
static void m_ktname(Case&c){ static const int cnt[]={1,0,0,1,1,2,3,7,21,49,165}; int nf=1+(int)c.rng.below(10); vector<std::pair<int,int>> f; string s; for(int i=0;i<nf;i++){ int cr; do cr=(int)c.rng.below(11); while(!cnt[cr]); int ind=1+(int)c.rng.below(cnt[cr]); f.push_back({cr,ind}); if(i) s+="#"; s+=fmt("%d_%d",cr,ind); }
  plc_knottype*k=plc_read_knottype(s.c_str()); c.require(k!=NULL,"ktname-rejected",s); c.require(k->nf==nf,"ktname-nf",s); for(int i=0;i<nf;i++) c.require(k->cr[i]==f[i].first&&k->ind[i]==f[i].second,"ktname-factor",s); char*b=0; size_t l=0; FILE*o=open_memstream(&b,&l); plc_write_knottype(o,*k); fclose(o); string w(b,l); free(b); free(k); c.require(w.compare(0,s.size()+2,s+" (")==0,"ktname-write",s+" -> "+w);
  // malformed names are refused
  string bad=s; switch(c.rng.below(6)){ case 0: bad="x"+s; break; case 1: bad=s+"#"+fmt("%d_%d",20+(int)c.rng.below(1000),1); break; case 2: { int cr=3+(int)c.rng.below(8); bad=fmt("%d_%d",cr,cnt[cr]+1+(int)c.rng.below(1000)); if(c.rng.chance(0.5)) bad=s+"#"+bad; break; } case 3: bad=s+"#"+fmt("-%d_1",1+(int)c.rng.below(9)); break; case 4: bad=""; for(int i=0;i<11+(int)c.rng.below(20);i++) bad+=(i?"#3_1":"3_1"); break; default: bad=fmt("%d",(int)c.rng.below(20)); } plc_knottype*q=plc_read_knottype(bad.c_str()); bool acc=q!=NULL; free(q); c.require(!acc,"ktname-accepted-bad",bad); c.seen(hstr(s)); c.sample(s+" / "+bad); }

// ---- combinatorial quantities ---------------------------------------------------------------
static void m_quant(Case&c){ int n=1+(int)c.rng.below(c.rng.chance(0.2)?40:12); bool sgnd=c.rng.chance(0.75); Dg d=sgnd?any_signed(c.rng,n):random_diagram(c.rng,n,0); if(sgnd&&c.rng.chance(0.2)){ // make it alternating
    // colour faces; over strand determined by colouring
    auto fs=faces(d); vector<int> fo(4*d.n); for(size_t i=0;i<fs.size();i++) for(int h:fs[i]) fo[h]=(int)i; vector<int> col(fs.size(),-1); vector<int> st{0}; col[0]=0; while(!st.empty()){ int f=st.back(); st.pop_back(); for(int h:fs[f]){ int g=fo[d.mate[h]]; if(col[g]<0){ col[g]=1-col[f]; st.push_back(g);} } } for(int v=0;v<d.n;v++) d.over[v]=col[fo[4*v]]; if(c.rng.chance(0.3)) d=mirror_over(d); }
  PD p(toPd(d,c.rng)); Dg q=fromPd(p); string ctx=show(p); PD keep(pd_copy(p));
  // strands
  if(sgnd) for(pd_idx_t v=0;v<p->ncross;v++){ pd_idx_t oi,oo,ui,uo; pd_overstrand_pos(p,v,&oi,&oo); pd_understrand_pos(p,v,&ui,&uo); int o=outpos(q,v,q.over[v]),u=outpos(q,v,1-q.over[v]); c.require((int)oo==o&&(int)oi==(o^2)&&(int)uo==u&&(int)ui==(u^2),"strand-pos",fmt("cross %u ",v)+ctx); pd_idx_t a,b; pd_overstrand(p,v,&a,&b); c.require(a==p->cross[v].edge[o^2]&&b==p->cross[v].edge[o],"overstrand",ctx); pd_understrand(p,v,&a,&b); c.require(a==p->cross[v].edge[u^2]&&b==p->cross[v].edge[u],"understrand",ctx); }
  // navigation
  for(int t=0;t<6;t++){ pd_idx_t e=c.rng.below(p->nedges),cc,pos; pd_component_and_pos(p,e,&cc,&pos); c.require(cc<p->ncomps&&pos<p->comp[cc].nedges&&p->comp[cc].edge[pos]==e,"component-and-pos",ctx); pd_idx_t L=p->comp[cc].nedges; c.require(pd_next_edge(p,e)==p->comp[cc].edge[(pos+1)%L]&&pd_previous_edge(p,e)==p->comp[cc].edge[(pos+L-1)%L],"next-prev-edge",ctx); pd_idx_t pf,pp,nf,np; pd_face_and_pos(p,e,&pf,&pp,&nf,&np); c.require(p->face[pf].edge[pp]==e&&p->face[pf].orient[pp]==PD_POS_ORIENTATION&&p->face[nf].edge[np]==e&&p->face[nf].orient[np]==PD_NEG_ORIENTATION,"face-and-pos",ctx); for(pd_idx_t f=0;f<p->nfaces;f++) c.require(pd_edge_on_face(p,e,f)==(f==pf||f==nf),"edge-on-face",ctx); }
  // linking
  for(pd_idx_t a=0;a<p->ncomps&&a<6;a++) for(pd_idx_t b=0;b<p->ncomps&&b<6;b++) if(a!=b){ int s=0,u=0; for(int v=0;v<q.n;v++){ int x=q.tag[4*v],y=q.tag[4*v+1]; int ta=p->comp[a].tag,tb=p->comp[b].tag; if((x==ta&&y==tb)||(x==tb&&y==ta)){ u++; s+=sgn(q,v);} } if(sgnd) c.require(pd_linking_number(p,a,b)*2==s,"linking",fmt("%u %u ",a,b)+ctx); c.require((int)pd_unsigned_linking_number(p,a,b)*2==u,"unsigned-linking",fmt("%u %u ",a,b)+ctx); if(u) c.count("linked_pairs"); }
  // alternating
  if(sgnd){ bool alt=true; for(int h=0;h<4*q.n;h++){ int m=q.mate[h]; bool o1=q.over[h/4]==(h&1),o2=q.over[m/4]==(m&1); if(o1==o2) alt=false; } c.require(pd_is_alternating(p)==alt,"alternating",ctx); c.count(alt?"alternating":"not_alternating"); }
  // interlacement
  { unsigned*iu=pd_interlaced_crossings_unsigned(p); int*is=pd_interlaced_crossings(p); for(pd_idx_t k=0;k<p->ncomps;k++){ vector<int> g; for(pd_idx_t j=0;j<p->comp[k].nedges;j++) g.push_back(p->edge[p->comp[k].edge[j]].head); std::map<int,vector<int>> at; for(size_t j=0;j<g.size();j++) at[g[j]].push_back((int)j); unsigned cu=0; int cs=0; auto psign=[&](int v){ // outgoing edges in counterclockwise order
        int a=outpos(q,v,0),b=outpos(q,v,1); int e1,e2; if(((a+1)&3)==b){e1=a;e2=b;} else {e1=b;e2=a;} return p->cross[v].edge[e2]>p->cross[v].edge[e1]?1:-1; };
      for(auto&x:at) if(x.second.size()==2) for(auto&y:at) if(y.first>x.first&&y.second.size()==2){ int a=x.second[0],b=x.second[1]; bool i1=y.second[0]>a&&y.second[0]<b,i2=y.second[1]>a&&y.second[1]<b; if(i1!=i2){ cu++; cs+=psign(x.first)*psign(y.first);} }
      bool ok=iu[k]==cu&&is[k]==cs; if(!ok){ string m=fmt("comp %u lib %u,%d want %u,%d ",k,iu[k],is[k],cu,cs)+ctx; free(iu); free(is); c.fail("interlaced",m);} c.require(true,""); if(cu) c.count("interlaced"); } free(iu); free(is); }
  string df=same(keep,p); c.require(df=="","quant-modified-input",df); c.seen(fp(q)); c.sample(ctx); }

// ---- validity decision ------------------------------------------------------------------------
static void m_okreject(Case&c){ int n=1+(int)c.rng.below(c.rng.chance(0.03)?90:12); Dg d=random_diagram(c.rng,n,(int)c.rng.below(3)); PD p(toPd(d,c.rng,2)); string what; auto&r=c.rng; auto other=[&](pd_idx_t v,pd_idx_t lim){ pd_idx_t w; if(r.chance(0.15)) return (pd_idx_t)(r.chance(0.5)?lim:lim+1+r.below(50)); if(r.chance(0.05)) return (pd_idx_t)PD_UNSET_IDX; do w=(pd_idx_t)r.below(lim+1); while(w==v); return w; };
  bool face=false;
  { if(r.chance(0.3)) for(int i=0;i<n;i++) if(r.chance(0.5)) p->cross[i].sign=PD_UNSET_ORIENTATION; if(r.chance(0.3)){ vector<int> tg; for(int i=0;i<60;i++) tg.push_back('A'+i); r.shuffle(tg); for(pd_idx_t k=0;k<p->ncomps;k++) p->comp[k].tag=(pd_tag_t)tg[k]; }
    c.require(pd_cross_ok(p),"rejects-wellformed-crossings",show(p.p)); c.require(pd_edges_ok(p),"rejects-wellformed-edges",show(p.p)); c.require(pd_comps_ok(p),"rejects-wellformed-components",show(p.p)); c.require(pd_faces_ok(p),"rejects-wellformed-faces",show(p.p)); c.require(pd_ok(p),"rejects-wellformed",show(p.p)); c.count("accepted"); }
  switch(r.below(18)){
    case 14:{ auto&f=p->face[r.below(p->nfaces)]; if(f.nedges<3) throw Skip(); std::reverse(f.edge+1,f.edge+f.nedges); std::reverse(f.orient+1,f.orient+f.nedges); for(pd_idx_t i=0;i<f.nedges;i++) f.orient[i]=1-f.orient[i]; what="face walked backwards"; face=true; break; }
    case 15:{ auto&f=p->face[r.below(p->nfaces)]; if(f.nedges<2) throw Skip(); int k=1+(int)r.below(f.nedges-1); std::rotate(f.edge,f.edge+k,f.edge+f.nedges); std::rotate(f.orient,f.orient+k,f.orient+f.nedges); pd_idx_t lo=*std::min_element(f.edge,f.edge+f.nedges); if(f.edge[0]==lo) throw Skip(); what="face rotated"; face=true; break; }
    case 16:{ pd_idx_t a=r.below(p->nfaces),b=r.below(p->nfaces); if(pd_face_cmp(&p->face[a],&p->face[b])==0) throw Skip(); std::swap(p->face[a],p->face[b]); what="faces out of order"; face=true; break; }
    case 17:{ pd_idx_t a=r.below(n),b=r.below(n); if(a==b||pd_cross_cmp(&p->cross[a],&p->cross[b])==0) throw Skip(); std::swap(p->cross[a],p->cross[b]); for(pd_idx_t e=0;e<p->nedges;e++){ auto fx=[&](pd_idx_t&x){ if(x==a) x=b; else if(x==b) x=a; }; fx(p->edge[e].head); fx(p->edge[e].tail); } what="crossings out of order"; break; }
    case 0:{ auto&x=p->cross[r.below(n)].edge[r.below(4)]; x=other(x,p->nedges); what="cross edge"; break; }
    case 1:{ auto&x=p->cross[r.below(n)]; int a=(int)r.below(4),b=(a+1+(int)r.below(3))&3; if(x.edge[a]==x.edge[b]) throw Skip(); std::swap(x.edge[a],x.edge[b]); what="cross swap"; break; }
    case 2:{ auto&x=p->cross[r.below(n)].sign; x=(pd_or_t)(3+r.below(250)); what="sign"; break; }
    case 3:{ auto&e=p->edge[r.below(p->nedges)]; e.head=other(e.head,p->ncross); what="edge head"; break; }
    case 4:{ auto&e=p->edge[r.below(p->nedges)]; e.tail=other(e.tail,p->ncross); what="edge tail"; break; }
    case 5:{ auto&e=p->edge[r.below(p->nedges)]; e.headpos=other(e.headpos,4); what="edge headpos"; break; }
    case 6:{ auto&e=p->edge[r.below(p->nedges)]; e.tailpos=other(e.tailpos,4); what="edge tailpos"; break; }
    case 7:{ auto&e=p->edge[r.below(p->nedges)]; std::swap(e.head,e.tail); std::swap(e.headpos,e.tailpos); what="edge reversed"; break; }
    case 8:{ auto&k=p->comp[r.below(p->ncomps)]; auto&x=k.edge[r.below(k.nedges)]; x=other(x,p->nedges); what="comp edge"; break; }
    case 9:{ auto&k=p->comp[r.below(p->ncomps)]; if(r.chance(0.5)&&p->ncomps>1){ auto&k2=p->comp[r.below(p->ncomps)]; if(k2.tag==k.tag) throw Skip(); k2.tag=k.tag; what="tag repeated"; } else { k.tag=(pd_tag_t)r.below('A'); what="tag illegal"; } break; }
    case 10:{ if(r.chance(0.5)){ auto&k=p->comp[r.below(p->ncomps)]; if(k.nedges==1) throw Skip(); k.nedges--; what="comp shortened"; } else { pd_idx_t a=r.below(p->ncomps),b=r.below(p->ncomps); if(p->comp[a].nedges==p->comp[b].nedges) throw Skip(); std::swap(p->comp[a],p->comp[b]); what="comps out of order"; } break; }
    case 11:{ auto&f=p->face[r.below(p->nfaces)]; auto&x=f.edge[r.below(f.nedges)]; x=other(x,p->nedges); what="face edge"; face=true; break; }
    case 12:{ auto&f=p->face[r.below(p->nfaces)]; auto&x=f.orient[r.below(f.nedges)]; x=r.chance(0.5)?(pd_or_t)(1-x):(pd_or_t)(2+r.below(200)); what="face orientation"; face=true; break; }
    case 13:{ switch(r.below(6)){ case 0: p->ncross++; what="ncross+1"; break; case 1: p->ncross--; what="ncross-1"; break; case 2: p->nedges++; what="nedges+1"; break; case 3: p->nedges--; what="nedges-1"; break; case 4: throw Skip(); default: p->ncomps--; if(!p->ncomps) { p->ncomps++; throw Skip(); } what="ncomps-1"; } break; } }
  string v; { pd_idx_t nf=p->nfaces,nc=p->ncomps,ne=p->nedges,nv=p->ncross; v=validate(p); p->nfaces=nf;p->ncomps=nc;p->ncross=nv;p->nedges=ne; }
  if(face&&v=="face entry repeated") throw Skip(); // completeness of the face list is not part of the decision (partial face lists are legal)
  if(v=="") { c.require(pd_ok(p),"ok-rejects-wellformed",what+" "+show(p.p)); c.count("still_valid"); }
  else { bool ok=pd_ok(p); pd_idx_t realnc=comps(d).size(); bool acc=ok; (void)realnc; c.count("corrupt:"+what); p->ncross=n; p->nedges=2*n; p->nfaces=n+2; p->ncomps=realnc; c.require(!acc,"ok-accepts-corrupt",what+" ("+v+")"); }
  c.seen(hstr(what)^mix(fp(d))); }

static void m_copy(Case&c){ Dg d=random_diagram(c.rng,c.rng.chance(0.05)?0:1+(int)c.rng.below(20),(int)c.rng.below(3)); pd_code_t*p=toPd(d,c.rng,(int)c.rng.below(4)); p->uid=c.rng.next(); pd_code_t*q=c.rng.chance(0.5)?pd_copy(p):pd_copy_newsize(p,std::max<pd_idx_t>(1,p->ncross)+(pd_idx_t)c.rng.below(20)); string s=same(p,q); c.require(s=="","copy-differs",s+" "+show(p)); string v=validate(q); c.require(v=="","copy-invalid",v); pd_code_t*r=pd_copy(q);
  // scribble on the first, free it: the copy must not change
  for(pd_idx_t i=0;i<p->ncross;i++) p->cross[i].edge[0]^=1; for(pd_idx_t i=0;i<p->nedges;i++) p->edge[i].head+=7; for(pd_idx_t i=0;i<p->ncomps;i++){ p->comp[i].tag='q'; p->comp[i].edge[0]+=3; } for(pd_idx_t i=0;i<p->nfaces;i++){ p->face[i].edge[0]+=3; p->face[i].orient[0]^=1; } p->hash[0]='?'; pd_code_free(&p); c.require(p==NULL,"free-not-null"); s=same(r,q); c.require(s=="","copy-shares-memory",s); 
  if(q->ncross&&c.rng.chance(0.5)){ pd_idx_t k=c.rng.below(q->ncomps); pd_reorient_component(q,k,PD_NEG_ORIENTATION); v=validate(r); c.require(v=="","copy-shares-memory2",v); pd_reorient_component(q,k,PD_NEG_ORIENTATION); }
  pd_code_free(&q); pd_code_free(&r); c.seen(fp(d,FULL)); }

// ---- splitting ------------------------------------------------------------------------------
static void m_split(Case&c){ int k=1+(int)c.rng.below(4); vector<Dg> ds; vector<int> tags; for(int t='A';t<'A'+60;t++) tags.push_back(t); c.rng.shuffle(tags); size_t ti=0; for(int i=0;i<k;i++){ int nn=1+(int)c.rng.below(c.rng.chance(0.1)?40:7); Dg d=c.rng.chance(0.5)?any_signed(c.rng,nn):random_diagram(c.rng,nn,(int)c.rng.below(3)); auto cs=comps(d); if(ti+cs.size()>55) break; std::map<int,int> mp; for(auto&x:cs) mp[x.tag]=tags[ti++]; for(auto&t:d.tag) t=mp[t]; ds.push_back(d); }
  Dg m=merge(ds); if(c.rng.chance(0.5)) m=relabel(m,c.rng); int n=m.n; int loose=c.rng.chance(0.4)?(int)c.rng.below(3):0; auto cs=comps(m);
  // disordered numbering
  pd_code_t*pd=pd_code_new(n+5+loose); pd->ncross=n; vector<int> num; c.rng.shuffle(cs); int ne=0; vector<int> eno(4*n,-1); pd->ncomps=cs.size()+loose; vector<int> ltags; vector<int> order; for(size_t i=0;i<cs.size()+loose;i++) order.push_back((int)i); c.rng.shuffle(order);
  for(size_t oi=0;oi<order.size();oi++){ size_t i=order[oi]; pd_component_t&C=pd->comp[oi]; if(i<cs.size()){ C.nedges=cs[i].h.size(); C.edge=(pd_idx_t*)calloc(C.nedges,sizeof(pd_idx_t)); C.tag=(pd_tag_t)cs[i].tag; for(size_t j=0;j<cs[i].h.size();j++){ int h=cs[i].h[j]; eno[h]=eno[m.mate[h]]=ne; pd->edge[ne].tail=h/4; pd->edge[ne].tailpos=h&3; pd->edge[ne].head=m.mate[h]/4; pd->edge[ne].headpos=m.mate[h]&3; C.edge[j]=ne++; } } else { C.nedges=1; C.edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); C.tag=(pd_tag_t)tags[ti]; ltags.push_back(tags[ti++]); pd->edge[ne].head=pd->edge[ne].tail=PD_UNSET_IDX; pd->edge[ne].headpos=pd->edge[ne].tailpos=PD_UNSET_POS; C.edge[0]=ne++; } }
  pd->nedges=ne; pd->nfaces=0; for(int v=0;v<n;v++){ for(int q=0;q<4;q++) pd->cross[v].edge[q]=eno[4*v+q]; int s=m.over[v]<2?sgn(m,v):0; pd->cross[v].sign=s>0?PD_POS_ORIENTATION:s<0?PD_NEG_ORIENTATION:PD_UNSET_ORIENTATION; }
  pd_code_t**ch=0; pd_idx_t nch=pd_split_diagram(pd,&ch); std::multiset<vector<int>> want,got; for(auto&d:ds) want.insert(canon(d,FULL)); for(int t:ltags){ Dg e; e.loose={t}; want.insert(canon(e,FULL)); } string bad; for(pd_idx_t i=0;i<nch;i++){ string v=validate(ch[i]); if(v!=""&&bad=="") bad=v+" "+show(ch[i]); if(v=="") got.insert(canon(fromPd(ch[i]),FULL)); } for(pd_idx_t i=0;i<nch;i++) pd_code_free(&ch[i]); free(ch); pd_code_free(&pd); c.require(bad=="","split-invalid",bad); c.require(nch==want.size(),"split-count",fmt("%u for %zu",nch,want.size())); c.require(got==want,"split-wrong"); c.count(fmt("pieces_%u",nch)); if(loose) c.count("with_circles"); c.seen(fp(m.n?canon(m,0):vector<int>{1})); }

// ---- builders -------------------------------------------------------------------------------
static void m_builders(Case&c){ int which=(int)c.rng.below(5); PD p; string what; Poly h; auto chk=[&](int n){ string v=validate(p); c.require(v=="","builder-invalid",what+" "+v); c.require(pd_ok(p),"builder-not-ok",what); c.require((int)p->ncross==n,"builder-crossings",what); };
  if(which==0){ int n=(int)c.rng.below(40); p.p=pd_build_unknot(n); what=fmt("unknot %d",n); chk(n); Dg d=fromPd(p); c.require(p->ncomps==1,"builder-comps",what); for(int v=0;v<d.n;v++) c.require(sgn(d,v)==1,"builder-unknot-sign",what); r1reduce(d); c.require(d.n==0,"builder-unknot-not-nugatory",what); c.seen(n); }
  else if(which==1){ int a=1+(int)c.rng.below(6),b=1+(int)c.rng.below(6),e=1+(int)c.rng.below(6); p.p=pd_build_unknot_wye(a,b,e); what=fmt("wye %d %d %d",a,b,e); string v=validate(p); c.require(v=="","builder-invalid",what+" "+v); Dg d=fromPd(p); c.require(p->ncomps==1,"builder-comps",what); r1reduce(d); c.require(d.n<=1||d.n==0,"builder-wye-nontrivial",what+show(d)); c.seen(1000+a*100+b*10+e); }
  else if(which==2){ int q=2+(int)c.rng.below(30); p.p=pd_build_torus_knot(2,q); what=fmt("torus 2,%d",q); chk(q); c.require((int)p->ncomps==(q%2?1:2),"builder-comps",what); Dg d=fromPd(p); int s=sgn(d,0); for(int v=0;v<d.n;v++) c.require(sgn(d,v)==s,"builder-torus-signs",what); c.require(pd_is_alternating(p),"builder-torus-alternating",what); auto fs=faces(d); int two=0,big=0; for(auto&f:fs){ two+=f.size()==2; big+=(int)f.size()==q; } c.require(q==2? two==4 : (two==q&&big==2),"builder-torus-faces",what); if(q<=10&&q%2&&q>2){ auto ks=classify(c,p,what.c_str()); c.require(ks.count(KT{{q,1}})==1,"builder-torus-type",what); } c.seen(2000+q); }
  else if(which==3){ int n=1+(int)c.rng.below(20); p.p=pd_build_twist_knot(n); what=fmt("twist %d",n); chk(n+2); c.require(p->ncomps==1,"builder-comps",what); c.require(pd_is_alternating(p),"builder-twist-alternating",what); static const int cr[]={0,3,4,5,6,7,8,9,10},ind[]={0,1,1,2,1,2,1,2,1}; if(n<=8){ auto ks=classify(c,p,what.c_str()); c.require(ks.count(KT{{cr[n],ind[n]}})==1,"builder-twist-type",what); } c.seen(3000+n); }
  else { int n=2+(int)c.rng.below(20); p.p=pd_build_simple_chain(n); what=fmt("chain %d",n); string v=validate(p); c.require(v=="","builder-invalid",what+" "+v); c.require((int)p->ncomps==n,"builder-comps",what); Dg d=fromPd(p); std::map<int,int> deg; int pairs=0; for(auto&l:link2(d)){ pairs++; c.require(abs(l.second)==2,"builder-chain-linking",what); deg[l.first.first]++; deg[l.first.second]++; } c.require(pairs==n-1,"builder-chain-pairs",what); int ends=0; for(auto&x:deg) ends+=x.second==1; c.require(ends==2,"builder-chain-shape",what); c.seen(4000+n); } c.count(what.substr(0,what.find(' '))); }

// ---- polynomial representations ----------------------------------------------------------------
static void m_poly(Case&c){ Poly p; int t=1+(int)c.rng.below(12); int par=(int)c.rng.below(2); for(int i=0;i<t;i++){ int l=(int)c.rng.range(-9,9),m=2*(int)c.rng.range(-2,5)+par; long long k=c.rng.range(-40,40); if(c.rng.chance(0.05)) k=c.rng.range(-2000000000,2000000000); if(k) p[{l,m}]=k; } if(c.rng.chance(0.1)){ int l0=(int)c.rng.range(-6,0),l1=(int)c.rng.range(0,6),m0=(int)c.rng.range(-4,1),m1=(int)c.rng.range(0,5); for(int l=l0;l<=l1;l++) for(int m=m0;m<=m1;m++) p[{l,m}]=c.rng.chance(0.5)?-c.rng.range(1000000000,2000000000):-c.rng.range(1,2000000000); c.count("dense"); } if(p.empty()) p[{0,0}]=1;
  bool spans=false; { int lo=1000,hi=-1000; for(auto&x:p){ lo=std::min(lo,x.first.second); hi=std::max(hi,x.first.second);} spans=lo<=0&&hi>=0; }
  auto mk=[&](const Poly&q){ homfly_polynomial_t*h=(homfly_polynomial_t*)calloc(1,sizeof *h); h->nmonomials=q.size(); h->mono=(monomial_t*)calloc(q.size()+1,sizeof(monomial_t)); vector<std::pair<std::pair<int,int>,long long>> v(q.begin(),q.end()); c.rng.shuffle(v); for(size_t i=0;i<v.size();i++){ h->mono[i].l=v[i].first.first; h->mono[i].m=v[i].first.second; h->mono[i].coeff=(int)v[i].second; } return h; };
  auto back=[&](homfly_polynomial_t*h){ Poly q; for(int i=0;i<h->nmonomials;i++) if(h->mono[i].coeff) q[{h->mono[i].l,h->mono[i].m}]+=h->mono[i].coeff; return q; };
  homfly_polynomial_t*h=mk(p); Poly g; char*s=poly_to_latex(h); bool ok=parse_poly(s,g); string ss=s; free(s); c.require(ok&&g==p,"poly-latex",ss);
  s=poly_to_mathematica(h); { Poly q; const char*x=s; bool good=true; while(*x){ int k,a=0,z=0,n=0; if(*x==' '||*x=='+'){x++;continue;} if(sscanf(x,"(%d)%n",&k,&n)!=1||!n){good=false;break;} x+=n; n=0; if(sscanf(x,"*a^(%d)%n",&a,&n)==1&&n) x+=n; n=0; if(sscanf(x,"*z^(%d)%n",&z,&n)==1&&n) x+=n; q[{a,z}]+=k; } ss=s; free(s); c.require(good&&q==p,"poly-mathematica",ss); }
  if(spans){ char*l=polynomial_to_lmpoly(h->mono,h->nmonomials); homfly_polynomial_t*h2=lmpoly_to_polynomial(l); ss=l; Poly q=back(h2); c.require(q==p,"poly-lmpoly",ss+" from "+show(p)); char*l2=lmpoly_check(l); c.require(ss==l2,"poly-lmpoly-check",ss); free(l2); vector<char> l3(ss.begin(),ss.end()); l3.push_back(0); free(l); c.require(polynomials_eq(h,h2),"poly-eq",ss); { char*t=lmpoly_to_latex(l3.data()); Poly gg; c.require(parse_poly(t,gg)&&gg==p,"poly-lmpoly-latex",ss); free(t); t=lmpoly_to_mathematica(l3.data()); char*t2=poly_to_mathematica(h2); c.require(!strcmp(t,t2),"poly-lmpoly-mathematica",ss); free(t); free(t2); } homfly_polynomial_free(&h2); c.count("lmpoly"); }
  { string kt; for(int i=0;i<h->nmonomials;i++) kt+=fmt("%s%d a^%d z^%d",i?" + ":"",h->mono[i].coeff,h->mono[i].l,h->mono[i].m); vector<char> b(kt.begin(),kt.end()); b.push_back(0); homfly_polynomial_t*k=KnotTheory_to_polynomial(b.data()); c.require(k&&back(k)==p,"poly-knottheory",kt); c.require(polynomials_eq(h,k),"poly-eq2",kt); homfly_polynomial_free(&k); }
  { Poly r; int t2=1+(int)c.rng.below(6); for(int i=0;i<t2;i++){ long long k=c.rng.range(-9,9); if(k) r[{(int)c.rng.range(-5,5),(int)c.rng.range(-3,3)}]=k; } bool small=true; for(auto&x:p) if(llabs(x.second)>1000) small=false; if(!r.empty()&&small){ homfly_polynomial_t*b=mk(r); homfly_polynomial_t*pr=product_polynomial(h,b); Poly q=back(pr); c.require(q==mul(p,r),"poly-product",show(p)+" times "+show(r)); std::set<std::pair<int,int>> seen; for(int i=0;i<pr->nmonomials;i++) c.require(seen.insert({pr->mono[i].l,pr->mono[i].m}).second,"poly-product-duplicate"); for(int i=0;i<pr->nmonomials;i++) c.require(pr->mono[i].coeff!=0,"poly-product-zero-term",show(p)+" times "+show(r)); { homfly_polynomial_t*e=mk(q); c.require(polynomials_eq(pr,e)&&polynomials_eq(e,pr),"poly-product-eq",show(p)+" times "+show(r)); homfly_polynomial_free(&e); } homfly_polynomial_free(&b); homfly_polynomial_free(&pr); c.count("product"); } }
  { Poly q=p; q.begin()->second+=1; if(q.begin()->second){ homfly_polynomial_t*b=mk(q); c.require(!polynomials_eq(h,b),"poly-neq",show(p)); homfly_polynomial_free(&b);} }
  homfly_polynomial_free(&h); c.require(h==NULL,"poly-free"); c.seen(hstr(show(p))); c.sample(show(p)); }

// links are never given a knot type (the lowest power of m in HOMFLY counts the components)
static void m_classifylink(Case&c){ Dg d; bool ok=false; for(int t=0;t<30&&!ok;t++){ d=any_signed(c.rng,2+(int)c.rng.below(10)); ok=comps(d).size()>1; } if(!ok) throw Skip(); if(c.rng.chance(0.3)) d=inflate(d,c.rng,1+(int)c.rng.below(3)); PD p(toPd(d,c.rng)); int np=-7; plc_knottype*k=pd_classify(p,&np); c.require(np==0&&k==NULL,"classify-link-as-knot",fmt("nposs %d for a %zu component diagram ",np,comps(d).size())+show(p.p)); free(k); c.seen(fp(d)); c.count(fmt("comps_%zu",std::min<size_t>(6,comps(d).size()))); }
int main(int argc,char**argv){ return run(argc,argv,{{"homfly",m_homfly},{"homfly_big",m_homfly_big},{"homfly_huge",m_homfly_huge},{"homfly_comp",m_homfly_comp},{"classifylink",m_classifylink},{"classify",m_classify},{"ktname",m_ktname},{"quant",m_quant},{"okreject",m_okreject},{"copy",m_copy},{"split",m_split},{"builders",m_builders},{"poly",m_poly}}); }
