// Text formats for link diagrams: exact round trips and hostile input.
#include "pdlib.hpp"
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
}
#undef new
using namespace pdl;
static const int FULL=CODE_SIGN|CODE_ORIENT|CODE_TAG;
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };

static string text(pd_code_t*p,bool kt=false){
  char*b=0; size_t l=0; FILE*f=open_memstream(&b,&l);
  if(kt) pd_write_KnotTheory(f,p); else pd_write(f,p);
  fclose(f); string s(b,l); free(b); return s; }

struct Stream { FILE*f; string s; Stream(const string&t):s(t){ if(s.empty()) s=" "; f=fmemopen((void*)s.data(),s.size(),"r"); } ~Stream(){ fclose(f);} };

static Dg any(Case&c,int lim){
  int n = c.rng.chance(0.06)?0 : c.rng.chance(0.03)? 100+(int)c.rng.below(150) : 1+(int)c.rng.below(lim);
  return random_diagram(c.rng,n,(int)c.rng.below(3)); }

// ---- pd_write / pd_read -----------------------------------------------------------------
static void m_pdtext(Case&c){
  int k=1+(int)c.rng.below(4); string all; std::vector<pd_code_t*> ps;
  for(int i=0;i<k;i++){ Dg d=any(c,30); pd_code_t*p=toPd(d,c.rng,(int)c.rng.below(3)); p->uid= c.rng.chance(0.3)? c.rng.next()/2 : c.rng.below(1000); ps.push_back(p); all+=text(p); if(c.rng.chance(0.5)) all+="\n"; c.seen(fp(d,FULL)); c.maxi("crossings",d.n); }
  { Stream st(all);
    for(int i=0;i<k;i++){ int err=0; PD q(c.rng.chance(0.5)?pd_read(st.f):pd_read_err(st.f,&err)); c.require(q.p&&!err,"reread-failed",fmt("diagram %d of %d err %d ",i,k,err)+show(ps[i])); string d=same(ps[i],q.p); c.require(d=="","reread-differs",d+" "+show(ps[i])+" -> "+show(q.p)); string v=validate(q.p); c.require(v=="","reread-invalid",v); c.require(text(q.p)==text(ps[i]),"rewrite-differs",show(ps[i])); c.count("diagrams"); }
  }
  c.sample(all.substr(0,300)); for(auto*p:ps) pd_code_free(&p); }

// text with the crossings listed in another order and rotation, without a hash
static void m_handtext(Case&c){
  Dg d=random_diagram(c.rng,1+(int)c.rng.below(25),(int)c.rng.below(3)); PD p(toPd(d,c.rng)); int n=p->ncross;
  vector<int> pos(n),rot(n); for(int i=0;i<n;i++){pos[i]=i; rot[i]=(int)c.rng.below(4);} c.rng.shuffle(pos); // crossing i is written as number pos[i]
  vector<int> at(n); for(int i=0;i<n;i++) at[pos[i]]=i;
  bool notags=c.rng.chance(0.3); string s="pd\n"; if(c.rng.chance(0.5)) s="pd\n"; s+=fmt("nv %d\n",n);
  for(int j=0;j<n;j++){ int i=at[j]; for(int q=0;q<4;q++) s+=fmt("%u ",p->cross[i].edge[(q+rot[i])&3]); int sg=p->cross[i].sign; if(sg<2) s+= sg?"+":"-"; s+="\n"; }
  s+=fmt("ne %u\n",p->nedges); for(pd_idx_t e=0;e<p->nedges;e++){ auto&E=p->edge[e]; s+=fmt("%d,%d -> %d,%d\n",pos[E.tail],(E.tailpos-rot[E.tail])&3,pos[E.head],(E.headpos-rot[E.head])&3); }
  s+=fmt("nc %u\n",p->ncomps); for(pd_idx_t k=0;k<p->ncomps;k++){ s+=fmt("%u : ",p->comp[k].nedges); for(pd_idx_t e=0;e<p->comp[k].nedges;e++) s+=fmt("%u ",p->comp[k].edge[e]); if(!notags) s+=fmt("tag %c",p->comp[k].tag); s+="\n"; }
  s+=fmt("nf %u\n",p->nfaces); for(pd_idx_t k=0;k<p->nfaces;k++){ s+=fmt("%u : ",p->face[k].nedges); for(pd_idx_t e=0;e<p->face[k].nedges;e++) s+=fmt("%c %u ",p->face[k].orient[e]?'+':'-',p->face[k].edge[e]); s+="\n"; }
  if(notags) for(pd_idx_t k=0;k<p->ncomps;k++) p->comp[k].tag='A'+k;
  int err=0; Stream st(s); PD q(pd_read_err(st.f,&err)); c.require(q.p&&!err,"handtext-rejected",fmt("err %d ",err)+s.substr(0,1500));
  string v=validate(q.p); c.require(v=="","handtext-invalid",v+" "+show(q.p)); c.require(canon(fromPd(q.p),FULL)==canon(fromPd(p.p),FULL),"handtext-differs",show(p.p)+" -> "+show(q.p)); c.require(!strcmp(q->hash,p->hash),"handtext-hash",show(p.p)); c.seen(fp(d,FULL)); c.count(notags?"without_tags":"with_tags"); }

// ---- KnotTheory -----------------------------------------------------------------------------
// Component directions are recoverable from the KnotTheory form unless a two-edge
// component passes over at both of its crossings; then either direction is fine.
static void m_kt(Case&c){
  Dg d; for(;;){ d=any_signed(c.rng,1+(int)c.rng.below(c.rng.chance(0.2)?60:12)); if(comps(d).size()<50) break; }
  PD p(toPd(d,c.rng)); string t=text(p,true); PD q(({ Stream st(t); pd_read_KnotTheory(st.f); })); c.require(q.p!=NULL,"kt-null",t);
  string v=validate(q.p); c.require(v=="","kt-invalid",v+" "+t);
  vector<Dg> want{d}; bool amb=false;
  for(auto&k:comps(d)) if(k.h.size()==2&&d.n>1){ bool over=true; for(int h:k.h) if(d.over[h/4]!=(h&1)) over=false; if(over){ amb=true; vector<Dg> w2; for(auto&e:want){ w2.push_back(e); Dg r=e; for(int h:k.h){ r.out[h]=!r.out[h]; int m=r.mate[h]; r.out[m]=!r.out[m]; } w2.push_back(r); } want=w2; if(want.size()>256) throw Skip(); } }
  auto got=canon(fromPd(q.p),CODE_SIGN|CODE_ORIENT); bool ok=false; for(auto&e:want) if(canon(e,CODE_SIGN|CODE_ORIENT)==got) ok=true;
  bool two=false; for(auto&k:comps(d)) if(k.h.size()==2) two=true;
  c.require(ok,two?"kt-differs-two-edge-component":"kt-differs",t+" "+show(p.p)+" -> "+show(q.p));
  c.count(amb?"ambiguous":two?"two_edge":"plain"); c.seen(fp(d)); c.maxi("crossings",d.n); c.sample(t); }

// ---- hostile text -----------------------------------------------------------------------------
static string mutate(Case&c,string s,bool nvlimit){
  auto number=[&](Rng&r)->string{ switch(r.below(9)){ case 0:return "0"; case 1:return "-1"; case 2:return fmt("%d",(int)r.below(8)); case 3: return fmt("%d",(int)r.below(200)); case 4: return fmt("%d",(int)r.below(4000)); case 5: return "4294967295"; case 6: return "4294967296"; case 7: return "99999999999999999999999"; default: return "2147483648"; } };
  int k=1+(int)c.rng.below(c.rng.chance(0.2)?12:3);
  for(int i=0;i<k;i++){
    // tokens
    vector<std::pair<size_t,size_t>> num; for(size_t a=0;a<s.size();){ if(isdigit((unsigned char)s[a])){ size_t b=a; while(b<s.size()&&isdigit((unsigned char)s[b])) b++; num.push_back({a,b-a}); a=b; } else a++; }
    vector<size_t> lines{0}; for(size_t a=0;a+1<s.size();a++) if(s[a]=='\n') lines.push_back(a+1);
    auto lend=[&](size_t a){ size_t b=s.find('\n',a); return b==string::npos?s.size():b+1; };
    switch(c.rng.below(9)){
      case 0: case 1: case 2: if(!num.empty()){ auto t=c.rng.pick(num); s.replace(t.first,t.second,number(c.rng)); } break;
      case 3: if(!num.empty()){ auto t=c.rng.pick(num); long v=(long)((u64)atol(s.substr(t.first,t.second).c_str())%1000000000000ull)+(c.rng.chance(0.5)?1:-1); s.replace(t.first,t.second,fmt("%ld",v)); } break;
      case 4: if(!s.empty()) s.resize(c.rng.below(s.size())); break;
      case 5: { size_t a=c.rng.pick(lines); s.erase(a,lend(a)-a); break; }
      case 6: { size_t a=c.rng.pick(lines); string l=s.substr(a,lend(a)-a); s.insert(c.rng.pick(lines),l); break; }
      case 7: if(!s.empty()) for(int q=1+(int)c.rng.below(3);q>0;q--) s[c.rng.below(s.size())]=(char)(c.rng.chance(0.7)?32+c.rng.below(95):c.rng.below(256)); break;
      case 8: if(num.size()>1){ auto a=c.rng.pick(num),b=c.rng.pick(num); string x=s.substr(a.first,a.second),y=s.substr(b.first,b.second); if(a.first>b.first){ std::swap(a,b); std::swap(x,y);} if(a.first+a.second<=b.first){ s.replace(b.first,b.second,x); s.replace(a.first,a.second,y);} } break; } }
  if(s.empty()) s=" ";
  if(nvlimit){ // declared crossing counts between 3000 and 2^31 only test how much memory calloc has
    for(size_t a=s.find("nv");a!=string::npos;a=s.find("nv",a+2)){ size_t b=a+2; while(b<s.size()&&isspace((unsigned char)s[b])) b++; size_t e=b; if(e<s.size()&&(s[e]=='-'||s[e]=='+')) e++; while(e<s.size()&&isdigit((unsigned char)s[e])) e++; if(e-b>4&&e-b<11){ string t=s.substr(b,e-b); long v=atol(t.c_str()); if(v>3000&&v<2147483648L) s.replace(b,e-b,"3000"); } } }
  return s; }
static void exercise(Case&c,pd_code_t*p,const string&t){
  c.require(pd_ok(p),"accepted-but-not-ok",t.substr(0,2000)); { PD k(pd_copy(p)); string d=same(p,k); c.require(d=="","accepted-copy",d); } text(p); pd_regenerate_hash(p); c.count("accepted"); }
static string junk(Case&c){ string s; int n=(int)c.rng.below(300); for(int i=0;i<n;i++) s.push_back((char)(c.rng.chance(0.8)?32+c.rng.below(95):c.rng.below(256))); return s; }

static void m_hostile_pd(Case&c){
  Dg d=any(c,8); PD p(toPd(d,c.rng)); string s= c.rng.chance(0.05)? (c.rng.chance(0.5)?"pd ":"")+junk(c) : mutate(c,text(p),true); c.sample(s);
  { int err=0; Stream st(s); pd_code_t*q=pd_read_err(st.f,&err); if(q&&!err) exercise(c,q,s); else { c.require(err!=0,"rejected-without-error",s.substr(0,2000)); c.count(fmt("rejected_%d",err)); } pd_code_free(&q); }
  { Stream st(s); pd_code_t*q=pd_read(st.f); if(q) exercise(c,q,s); pd_code_free(&q); }
  c.seen(hstr(s)); }
static void m_hostile_kt(Case&c){
  Dg d=any_signed(c.rng,1+(int)c.rng.below(8)); PD p(toPd(d,c.rng)); string s= c.rng.chance(0.05)? (c.rng.chance(0.5)?"PD[X[":"")+junk(c) : mutate(c,text(p,true),false); c.sample(s);
  { Stream st(s); pd_code_t*q=pd_read_KnotTheory(st.f); if(q) exercise(c,q,s); else c.count("rejected"); pd_code_free(&q); } c.seen(hstr(s)); }
static void m_hostile_stor(Case&c){
  pd_stor_t*s=pd_new_pdstor(); int k=(int)c.rng.below(5); for(int i=0;i<k;i++){ PD p(toPd(random_diagram(c.rng,1+(int)c.rng.below(5),c.rng.below(2)?1:0),c.rng)); pd_addto_pdstor(s,p,NONE); }
  char*b=0; size_t l=0; FILE*f=open_memstream(&b,&l); pd_write_pdstor(f,s); fclose(f); string t(b,l); free(b); pd_free_pdstor(&s); t=mutate(c,t,true);
  Stream st(t); pd_equivalence_t eq=(pd_equivalence_t)c.rng.below(3); pd_stor_t*r=pd_read_pdstor(st.f,eq); if(r){ unsigned n=0; for(pd_code_t*p=pd_stor_firstelt(r);p;p=pd_stor_nextelt(r)){ c.require(pd_ok(p),"stored-not-ok",t.substr(0,2000)); pd_code_free(&p); n++; } c.require(n==pd_stor_nelts(r),"stored-count"); pd_free_pdstor(&r); c.count("accepted"); } else c.count("rejected"); c.seen(hstr(t)); }

int main(int argc,char**argv){ return run(argc,argv,{{"pdtext",m_pdtext},{"handtext",m_handtext},{"kt",m_kt},{"hostile_pd",m_hostile_pd},{"hostile_kt",m_hostile_kt},{"hostile_stor",m_hostile_stor}}); }
