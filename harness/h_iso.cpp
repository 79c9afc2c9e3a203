#include "pdlib.hpp"
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#include "pd_pack.h"
}
#undef new
using namespace pdl;
static const int FULL=CODE_SIGN|CODE_ORIENT|CODE_TAG;
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };
static bool tame(const Dg&d){ auto cs=comps(d); double k=1; std::map<size_t,int> len; for(auto&c:cs){ k*=2.0*c.h.size(); len[c.h.size()]++; } for(auto&l:len) for(int i=2;i<=l.second;i++) k*=i; return k<6000; }
static Dg small(Case&c,int lim,int signs){ for(;;){ int n=c.rng.chance(0.3)?1+(int)c.rng.below(4):1+(int)c.rng.below(lim); Dg d= signs==1&&c.rng.chance(0.5)? knotty(c.rng,n):random_diagram(c.rng,n,signs); if(tame(d)) return d; } }
static Dg variant(Case&c,const Dg&a,int&what){ Dg b=relabel(a,c.rng); what=(int)c.rng.below(8); switch(what){
  case 0: break; case 1: b=reflect(b); break; case 2: b=reflect(b); for(int v=0;v<b.n;v++) if(b.over[v]<2) b.over[v]=1-b.over[v]; break; // turned over
  case 3: { auto cs=comps(b); auto&k=c.rng.pick(cs); for(int h:k.h){ b.out[h]=!b.out[h]; int m=b.mate[h]; b.out[m]=!b.out[m]; } break; }
  case 4: { int v=(int)c.rng.below(b.n); b.over[v]=(b.over[v]+1)%3; break; }
  case 5: { auto cs=comps(b); if(cs.size()>1){ int i=(int)c.rng.below(cs.size()),j=(int)c.rng.below(cs.size()); if(i!=j){ for(int h:cs[i].h) b.tag[h]=b.tag[b.mate[h]]=cs[j].tag; for(int h:cs[j].h) b.tag[h]=b.tag[b.mate[h]]=cs[i].tag; } } break; }
  case 6: { auto cs=comps(b); for(auto&k:cs) for(int h:k.h){ b.out[h]=!b.out[h]; int m=b.mate[h]; b.out[m]=!b.out[m]; } break; }
  case 7: { Dg e=random_diagram(c.rng,b.n,1); if(tame(e)) b=e; break; } } return b; }

static bool true_iso(pd_code_t*A,pd_code_t*B,pd_iso_t*x);
static bool shortcomp(const Dg&d){ for(auto&k:comps(d)) if(k.h.size()<3) return true; return false; }
static void m_iso0(Case&c){ Dg a,b; int ta=(int)c.rng.range('A','F'),tb=c.rng.chance(0.6)?ta:(int)c.rng.range('A','F'); a.loose={ta}; bool same0=c.rng.chance(0.7); if(same0) b.loose={tb}; else { b=small(c,3,1); } PD A(toPd(a,c.rng)),B(toPd(b,c.rng)); string ctx=show(A)+" vs "+show(B); c.require(pd_isomorphic(A,B)==same0&&pd_isomorphic(B,A)==same0,"iso-zero-crossings",ctx); c.require(pd_map_isomorphic(A,B)==same0&&pd_map_isomorphic(B,A)==same0,"mapiso-zero-crossings",ctx); c.require(pd_diagram_isotopic(A,B)==(same0&&ta==tb),"isotopy-zero-crossings",ctx); unsigned n=0; pd_iso_t**is=pd_build_map_isomorphisms(A,B,&n); c.require((n>0)==same0,"mapiso-zero-count",ctx); for(unsigned i=0;i<n;i++) c.require(pd_iso_consistent(A,B,is[i]),"mapiso-zero-inconsistent",ctx); pd_free_isos(&n,&is); c.count("zero_crossings"); c.seen(mix(ta*64+tb)); }
static void m_iso(Case&c){ if(c.rng.chance(0.02)) return m_iso0(c); Dg a=small(c,12,(int)c.rng.below(3)); int what; Dg b=variant(c,a,what); PD A(toPd(a,c.rng)),B(toPd(b,c.rng)),KA(pd_copy(A)),KB(pd_copy(B)); bool want=canon(a,CODE_REFLECT)==canon(b,CODE_REFLECT); string ctx=fmt("variant %d ",what)+show(A)+" vs "+show(B); bool got=pd_isomorphic(A,B); c.require(got==want,want?"iso-missed":"iso-invented",ctx); c.require(pd_isomorphic(B,A)==want,"iso-asymmetric",ctx); bool wm=canon(a,0)==canon(b,0); c.require(pd_map_isomorphic(A,B)==wm,wm?"mapiso-missed":"mapiso-invented",ctx); if(want) c.require(!strncmp(A->hash,B->hash,PD_HASHSIZE),"hash-not-invariant",fmt("%s %s ",A->hash,B->hash)+ctx);
  c.require(same(KA,A)==""&&same(KB,B)=="","iso-modified-input",ctx);
  if(want){ unsigned n=0; pd_iso_t**isos=pd_build_isos(A,B,&n); long wantn=count_autos(a,CODE_REFLECT); bool two=false; for(auto&k:comps(a)) if(k.h.size()==2) two=true; c.require(two||(long)n==wantn,"iso-count",fmt("%u isomorphisms, expected %ld ",n,wantn)+ctx); for(unsigned k=0;k<n;k++) c.require(pd_iso_consistent(A,B,isos[k]),"iso-inconsistent",ctx); if(!shortcomp(a)) for(unsigned k=0;k<n;k++) c.require(true_iso(A,B,isos[k]),"iso-not-genuine",ctx); pd_free_isos(&n,&isos); }
  c.count(want?"isomorphic":"different"); c.count(wm?"map_isomorphic":"map_different"); c.count(fmt("comps_%u",A->ncomps)); c.seen(mix(fp(a,CODE_REFLECT)*7+fp(b,CODE_REFLECT))); c.sample(ctx); }

static void m_isotopy(Case&c){ Dg a=small(c,12,(int)c.rng.below(3)); int what; Dg b=variant(c,a,what); PD A(toPd(a,c.rng)),B(toPd(b,c.rng)); string ctx=fmt("variant %d ",what)+show(A)+" vs "+show(B); int fl=FULL|CODE_REFLECT; bool want=canon(a,fl)==canon(b,fl); bool got=pd_diagram_isotopic(A,B); c.require(got==want,want?"isotopy-missed":"isotopy-invented",ctx); c.require(pd_diagram_isotopic(B,A)==want,"isotopy-asymmetric",ctx); c.require(pd_diagram_isotopic(A,A),"isotopy-irreflexive",ctx); { unsigned n=0; pd_iso_t**is=pd_build_diagram_isotopies(A,B,&n); c.require((n>0)==want,"isotopies-listed",fmt("%u ",n)+ctx); long wn=want?count_autos(a,fl):0; c.require(shortcomp(a)||(long)n==wn,"isotopies-count",fmt("%u, expected %ld ",n,wn)+ctx); if(!shortcomp(a)) for(unsigned k=0;k<n;k++){ pd_iso_t*x=is[k]; c.require(true_iso(A,B,x),"isotopy-not-genuine",ctx); for(pd_idx_t v=0;v<A->ncross;v++) c.require(A->cross[v].sign==B->cross[x->crossmap->perm->map[v]].sign,"isotopy-sign",ctx); for(pd_idx_t v=0;v<A->ncomps;v++) c.require(A->comp[v].tag==B->comp[x->compperm->map[v]].tag,"isotopy-tag",ctx); for(pd_idx_t e=0;e<A->nedges;e++) c.require(x->edgemap->orient[e]==PD_POS_ORIENTATION,"isotopy-reverses",ctx); for(unsigned q=0;q<k;q++) c.require(pd_iso_cmp(&is[q],&is[k])!=0,"isotopies-repeated",ctx); } long nn=n; pd_free_isos(&n,&is); c.count("isotopies",nn); } c.count(want?"isotopic":"different"); c.count(fmt("variant_%d",what)); c.seen(mix(fp(a,fl)*7+fp(b,fl))); c.sample(ctx); }

static void m_pack(Case&c){ int s=(int)c.rng.below(2); int n=c.rng.chance(0.1)? 60+(int)c.rng.below(200): c.rng.chance(0.01)?0: 1+(int)c.rng.below(40); if(c.rng.chance(0.06)) n=(1<<c.rng.below(10))+(int)c.rng.below(3)-1; Dg d=s?random_diagram(c.rng,n,1):random_diagram(c.rng,n,0); PD A(toPd(d,c.rng)); unsigned len=0; unsigned*w=pd_pack(A,&len); c.require(w!=NULL,"pack-null"); unsigned*w2=(unsigned*)malloc(len*sizeof(unsigned)); memcpy(w2,w,len*sizeof(unsigned)); free(w); PD B(pd_unpack(w2)); free(w2); string v=validate(B); c.require(v=="","unpack-invalid",v+show(A)); int fl=CODE_SIGN|CODE_ORIENT; c.require(canon(fromPd(B),fl)==canon(d,fl),"unpack-different",show(A)+" -> "+show(B)); c.require(!strcmp(A->hash,B->hash),"unpack-hash");
  { pd_signcross_t ct=(n&&A->cross[0].sign!=PD_UNSET_ORIENTATION)?SIGNED_CROSSINGS:UNSIGNED_CROSSINGS; unsigned ib=0; while((1u<<ib)<2u*n) ib++; unsigned bits=n*(4+4*ib+(ct==SIGNED_CROSSINGS)); if(n){ c.require(pd_indexbits(n)==ib,"pack-indexbits",fmt("%d",n)); c.require(pd_packbits(n,ct)==bits,"pack-bits",fmt("%d",n)); } c.require(len==1+(bits+31)/32,"pack-length",fmt("%d crossings: %u words, %u bits",n,len,bits)); }
  { bool canonical=true; for(pd_idx_t i=1;i<A->ncomps;i++) if(A->comp[i].nedges>A->comp[i-1].nedges) canonical=false; if(canonical){ for(pd_idx_t i=0;i<A->ncomps;i++) B->comp[i].tag=A->comp[i].tag; string df=same(A,B,false); c.require(df=="","unpack-records",df+" "+show(A)); c.count("exact"); } } c.seen(fp(d,fl)); c.maxi("crossings",n); }

// storage against a set model
static string dump(pd_stor_t*s){ char*b=0; size_t l=0; FILE*f=open_memstream(&b,&l); pd_write_pdstor(f,s); fclose(f); string r(b,l); free(b); return r; }
static vector<Dg> elements(Case&c,pd_stor_t*s,std::set<std::pair<string,pd_uid_t>>*ids=0){ vector<Dg> r; for(pd_code_t*p=pd_stor_firstelt(s);p;p=pd_stor_nextelt(s)){ string v=validate(p); if(v!=""){ c.fail("stor-invalid-element",v+show(p)); } if(ids&&!ids->insert({p->hash,p->uid}).second) c.fail("stor-duplicate-id",show(p)); r.push_back(fromPd(p)); pd_code_free(&p); } return r; }
static void m_stor(Case&c){ pd_equivalence_t eq=(pd_equivalence_t)c.rng.below(3); int fl= eq==ISOMORPHISM? CODE_REFLECT : eq==DIAGRAM_ISOTOPY? FULL|CODE_REFLECT : CODE_SIGN|CODE_ORIENT; pd_stor_t*s=pd_new_pdstor(); std::multiset<vector<int>> model; std::map<vector<int>,std::pair<string,pd_uid_t>> ids; int steps=1+(int)c.rng.below(40); vector<Dg> pool; int signs= eq==DIAGRAM_ISOTOPY?1:(int)c.rng.below(2); if(eq==NONE&&!signs) fl=0;
  string log; for(int k=0;k<steps;k++){ Dg d; if(!pool.empty()&&c.rng.chance(0.5)){ int w; d=variant(c,c.rng.pick(pool),w); if(w==4||w==7||w==5) d=relabel(c.rng.pick(pool),c.rng); } else d=small(c,c.rng.chance(0.5)?3:8,signs);
    // storage does not keep component tags: use the default ones, in component order
    PD p(toPd(d,c.rng)); { std::map<size_t,int> len; bool tie=false; for(pd_idx_t i=0;i<p->ncomps;i++) if(len[p->comp[i].nedges]++) tie=true; if(tie&&eq==DIAGRAM_ISOTOPY) continue; } for(pd_idx_t i=0;i<p->ncomps;i++) p->comp[i].tag='A'+i; d=fromPd(p); pool.push_back(d); auto code=canon(d,fl); bool dup= eq!=NONE&&model.count(code); pd_addto_pdstor(s,p,eq); log+=show(p)+"; "; string v=validate(p); c.require(v=="","stor-add-damaged",v);
    if(!dup){ model.insert(code); ids[code]={p->hash,p->uid}; } else c.require(ids[code]==std::make_pair(string(p->hash),p->uid),"stor-duplicate-uid",log); c.require(pd_stor_nelts(s)==model.size(),dup?"stor-duplicate-stored":"stor-count",fmt("eq %d have %u want %zu ",eq,pd_stor_nelts(s),model.size())+log); c.count(dup?"duplicate":"new"); }
  std::set<std::pair<string,pd_uid_t>> seen; auto el=elements(c,s,&seen); std::multiset<vector<int>> got; for(auto&d:el) got.insert(canon(d,fl)); c.require(got==model,"stor-contents",log);
  unsigned nh=0,ne=0; pd_stor_stats(s,&nh,&ne); c.require(ne==model.size(),"stor-stats",log); std::set<string> hs; for(auto&x:seen) hs.insert(x.first); c.require(nh==hs.size(),"stor-hashes",log);
  // search
  if(eq!=NONE&&!pool.empty()) for(int k=0;k<3;k++){ Dg d=c.rng.chance(0.6)?relabel(c.rng.pick(pool),c.rng):small(c,5,1); PD p(toPd(d,c.rng)); pd_iso_t**isos=0; unsigned n=0; PD r(pd_search_pdstor_by_isomorphism(s,p,&isos,&n)); bool want=false; for(auto&x:el) if(canon(x,CODE_REFLECT)==canon(d,CODE_REFLECT)) want=true; c.require((r.p!=NULL)==want,"stor-search",show(p)+" in "+log); if(r.p){ c.require(canon(fromPd(r),CODE_REFLECT)==canon(d,CODE_REFLECT),"stor-search-wrong",log); c.require(n>0,"stor-search-isos"); pd_free_isos(&n,&isos); } }
  // file round trip
  string txt=dump(s); c.require(pd_stor_nelts(s)==model.size(),"stor-write-changed",log); FILE*f=fmemopen((void*)txt.data(),txt.size(),"r"); pd_stor_t*t=pd_read_pdstor(f,eq); fclose(f); c.require(t!=NULL,"stor-reread-null",log); auto el2=elements(c,t); std::multiset<vector<int>> got2; for(auto&d:el2) got2.insert(canon(d,fl)); c.require(got2==model,"stor-reread-contents",log); pd_free_pdstor(&t); c.require(t==NULL,"stor-free"); pd_free_pdstor(&s);
  c.seen(hstr(log)); c.maxi("elements",model.size()); c.count(fmt("eq_%d",eq)); c.sample(log.substr(0,600)); }

// stores filled under changing equivalences, iterated and searched meanwhile, written incrementally
static void m_stormix(Case&c){ int signs=1; pd_stor_t*s=pd_new_pdstor(); struct El{ vector<int> iso,isot; string hash; pd_uid_t uid; vector<int> exact; }; vector<El> model; vector<Dg> pool; string log; int steps=1+(int)c.rng.below(30); if(c.rng.chance(0.03)) steps=300; bool bucket=c.rng.chance(0.01); if(bucket) steps=250+(int)c.rng.below(150);
  auto iterate=[&](size_t stop){ size_t k=0; std::multiset<vector<int>> got; std::set<std::pair<string,pd_uid_t>> ids; pd_code_t*p=pd_stor_firstelt(s); while(p&&k<stop){ string v=validate(p); string h=p->hash; pd_uid_t u=p->uid; Dg d=fromPd(p); if(c.rng.chance(0.1)){ pd_iso_t**is=0; unsigned n=0; PD r(pd_search_pdstor_by_isomorphism(s,p,&is,&n)); if(r.p) pd_free_isos(&n,&is); else { pd_code_free(&p); c.fail("mix-search-self",log); } } pd_code_free(&p); c.require(v=="","mix-element",v); if(!ids.insert({h,u}).second) c.fail("mix-repeated",log); bool hit=false; for(auto&e:model) if(e.hash==h&&e.uid==u){ hit=true; c.require(e.exact==canon(d,CODE_SIGN|CODE_ORIENT),"mix-element-differs",log); } c.require(hit,"mix-unknown-element",fmt("%s %lu ",h.c_str(),(unsigned long)u)+log); k++; p=pd_stor_nextelt(s); } if(p) pd_code_free(&p); else c.require(k==model.size(),"mix-iteration-count",fmt("%zu of %zu ",k,model.size())+log); };
  for(int k=0;k<steps;k++){ pd_equivalence_t eq=bucket?NONE:(pd_equivalence_t)c.rng.below(3); Dg d; if(bucket&&!pool.empty()) d=relabel(pool[0],c.rng); else if(!pool.empty()&&c.rng.chance(0.6)){ int w; d=variant(c,c.rng.pick(pool),w); if(w==4||w==7||w==5) d=relabel(c.rng.pick(pool),c.rng); } else d=small(c,c.rng.chance(0.5)?3:7,signs);
    PD p(toPd(d,c.rng)); std::map<size_t,int> len; bool tie=false; for(pd_idx_t i=0;i<p->ncomps;i++) if(len[p->comp[i].nedges]++) tie=true; if(tie) continue; for(pd_idx_t i=0;i<p->ncomps;i++) p->comp[i].tag='A'+i; d=fromPd(p); pool.push_back(d); if(pool.size()>12) pool.erase(pool.begin()+1+c.rng.below(11));
    El e; e.iso=canon(d,CODE_REFLECT); e.isot=canon(d,FULL|CODE_REFLECT); e.exact=canon(d,CODE_SIGN|CODE_ORIENT); e.hash=p->hash; const El*hit=0; for(auto&m:model) if((eq==ISOMORPHISM&&m.iso==e.iso)||(eq==DIAGRAM_ISOTOPY&&m.isot==e.isot)) if(!hit||m.uid<hit->uid) hit=&m; pd_uid_t mx=0; for(auto&m:model) if(m.hash==e.hash) mx=std::max(mx,m.uid);
    p->uid=c.rng.below(100); pd_addto_pdstor(s,p,eq); if(steps<60) log+=fmt("eq%d ",eq)+show(p)+"; "; if(hit) c.require(hit->hash==p->hash&&hit->uid==p->uid,"mix-duplicate-uid",log); else { c.require(p->uid==mx+1,"mix-new-uid",fmt("%lu after %lu ",(unsigned long)p->uid,(unsigned long)mx)+log); e.uid=p->uid; model.push_back(e); } c.require(pd_stor_nelts(s)==model.size(),"mix-count",log); c.count(hit?"duplicate":"new"); if(c.rng.chance(0.05)) iterate(c.rng.below(model.size()+2)); }
  iterate(1u<<30); iterate(1u<<30); unsigned nh=0,ne=0; pd_stor_stats(s,&nh,&ne); std::set<string> hs; for(auto&m:model) hs.insert(m.hash); c.require(nh==hs.size()&&ne==model.size(),"mix-stats",log);
  { char*b=0; size_t l=0; FILE*f=open_memstream(&b,&l); pd_display_pdstor(f,s); fclose(f); string t(b,l); free(b); string want=fmt("pdstor \nnelts %zu/%zu (claimed/actual) nhashes %zu \n",model.size(),model.size(),hs.size()); c.require(t.compare(0,want.size(),want)==0,"display-header",t); for(auto&h:hs){ pd_uid_t mx=0; for(auto&m:model) if(m.hash==h) mx=std::max(mx,m.uid); c.require(t.find(fmt("hash %s uids 1-%lu \n",h.c_str(),(unsigned long)mx))!=string::npos,"display-hash",t); } }
  // incremental file: this store in one or two instalments together with others
  { FILE*f=tmpfile(); if(!f) throw Skip(); unsigned th=0,te=0; pd_start_incremental_pdstor(f); vector<vector<int>> all; int parts=1+(int)c.rng.below(3); unsigned wh=0; for(int k=0;k<parts;k++){ pd_stor_t*q=s; std::set<string> qh; if(k){ q=pd_new_pdstor(); int m=(int)c.rng.below(6); for(int i=0;i<m;i++){ PD p(toPd(small(c,5,1),c.rng)); pd_addto_pdstor(q,p,NONE); qh.insert(p->hash); all.push_back(canon(fromPd(p),CODE_SIGN|CODE_ORIENT)); } } else { for(auto&m:model) all.push_back(m.exact); qh=hs; } wh+=qh.size(); pd_addto_incremental_pdstor(f,q,&th,&te); c.require(te==all.size()&&th==wh,"incremental-totals",fmt("%u elements %u hashes, expected %zu %u ",te,th,all.size(),wh)+log); if(k) pd_free_pdstor(&q); }
    bool fin=c.rng.chance(0.9); if(fin) pd_finish_incremental_pdstor(f,th,te); rewind(f); string head; for(int ch;(ch=fgetc(f))!=EOF&&head.size()<400;) head.push_back((char)ch); rewind(f); pd_stor_t*t=pd_read_pdstor(f,NONE); fclose(f); c.require(t!=NULL||!fin,"incremental-unreadable",head); if(t){ auto el=elements(c,t); std::multiset<vector<int>> got,want(all.begin(),all.end()); for(auto&d:el) got.insert(canon(d,CODE_SIGN|CODE_ORIENT)); c.require(got==want,"incremental-contents",log); c.count("incremental_files"); pd_free_pdstor(&t); } else c.count("unfinished_files"); }
  // written whole and read back under another equivalence
  { string txt=dump(s); FILE*f=fmemopen((void*)txt.data(),txt.size(),"r"); pd_equivalence_t eq=(pd_equivalence_t)c.rng.below(3); pd_stor_t*t=pd_read_pdstor(f,eq); fclose(f); c.require(t!=NULL,"mix-reread",log); std::set<vector<int>> cl; for(auto&m:model) cl.insert(eq==ISOMORPHISM?m.iso:m.isot); c.require(pd_stor_nelts(t)==(eq==NONE?model.size():cl.size()),"mix-reread-count",fmt("eq %d: %u ",eq,pd_stor_nelts(t))+log); pd_free_pdstor(&t); }
  pd_free_pdstor(&s); c.seen(hstr(log)^model.size()); c.maxi("elements",model.size()); }
// header of a store file which contradicts itself
static void m_storhead(Case&c){ pd_stor_t*s=pd_new_pdstor(); int k=1+(int)c.rng.below(4); for(int i=0;i<k;i++){ PD p(toPd(small(c,5,1),c.rng)); pd_addto_pdstor(s,p,NONE); } string t=dump(s); pd_free_pdstor(&s); unsigned a=k,b=k; switch(c.rng.below(3)){ case 0: a=(unsigned)c.rng.below(2*k+2); break; case 1: b=(unsigned)c.rng.below(2*k+2); break; default: a=b=k+1+(unsigned)c.rng.below(3); } string want=fmt("nelts %d/%d",k,k); size_t at=t.find(want); c.require(at!=string::npos,"stor-header",t.substr(0,100)); t.replace(at,want.size(),fmt("nelts %u/%u",a,b)); FILE*f=fmemopen((void*)t.data(),t.size(),"r"); pd_stor_t*r=pd_read_pdstor(f,NONE); fclose(f); bool ok=a==b&&a<=(unsigned)k; unsigned n=r?pd_stor_nelts(r):0; bool got=r!=NULL; if(r) pd_free_pdstor(&r); c.require(got==ok,ok?"stor-header-refused":"stor-header-accepted",t.substr(0,100)); if(ok) c.require(n==a,"stor-header-count"); c.count(ok?"agrees":"contradicts"); c.seen(hstr(t)); }

// big diagrams: knots beyond 128 crossings (edge numbers beyond a byte), where only few dihedral maps need trying
static void m_isobig(Case&c){ Dg a; int n=c.rng.chance(0.5)?100+(int)c.rng.below(60):60+(int)c.rng.below(40); for(int t=0;;t++){ if(t>40) throw Skip(); a= knotty(c.rng,n); if(comps(a).size()==1||tame(a)) break; } int what; Dg b=variant(c,a,what); if(!(comps(b).size()==1||tame(b))) throw Skip(); PD A(toPd(a,c.rng)),B(toPd(b,c.rng)); string ctx=fmt("variant %d n=%d ",what,a.n)+show(A)+" vs "+show(B); bool want=canon(a,CODE_REFLECT)==canon(b,CODE_REFLECT); c.require(pd_isomorphic(A,B)==want,want?"iso-missed":"iso-invented",ctx); int fl=FULL|CODE_REFLECT; bool wi=canon(a,fl)==canon(b,fl); c.require(pd_diagram_isotopic(A,B)==wi,wi?"isotopy-missed":"isotopy-invented",ctx); if(want) c.require(!strncmp(A->hash,B->hash,PD_HASHSIZE),"hash-not-invariant",ctx); c.count(want?"isomorphic":"different"); if(a.n>128) c.count("beyond_a_byte_of_edges"); c.maxi("crossings",a.n); c.seen(fp(a)); }
// links of five to seven components told apart by their tags
static void m_isotags(Case&c){ Dg a; for(int t=0;;t++){ if(t>300) throw Skip(); a=random_diagram(c.rng,8+(int)c.rng.below(9),1); auto cs=comps(a); if(cs.size()<5) continue; double k=1; for(auto&x:cs) k*=x.h.size(); if(k<4000) break; } int what; Dg b=variant(c,a,what); if(c.rng.chance(0.4)){ auto cs=comps(b); int i=(int)c.rng.below(cs.size()),j=(int)c.rng.below(cs.size()); if(i!=j){ for(int h:cs[i].h) b.tag[h]=b.tag[b.mate[h]]=cs[j].tag; for(int h:cs[j].h) b.tag[h]=b.tag[b.mate[h]]=cs[i].tag; } } { auto cs=comps(b); double k=1; for(auto&x:cs) k*=x.h.size(); if(k>=4000) throw Skip(); } PD A(toPd(a,c.rng)),B(toPd(b,c.rng)); string ctx=fmt("variant %d ",what)+show(A)+" vs "+show(B); int fl=FULL|CODE_REFLECT; bool want=canon(a,fl)==canon(b,fl); c.require(pd_diagram_isotopic(A,B)==want,want?"isotopy-missed":"isotopy-invented",ctx); c.require(pd_diagram_isotopic(B,A)==want,"isotopy-asymmetric",ctx); c.count(want?"isotopic":"different"); c.count(fmt("comps_%u",A->ncomps)); c.seen(fp(a)^mix(fp(b))); }
// the certificate check: an iso passes pd_iso_consistent exactly when it is an isomorphism
static bool true_iso(pd_code_t*A,pd_code_t*B,pd_iso_t*x){ int ne=A->nedges; int rev=x->crossmap->orient==PD_NEG_ORIENTATION; auto half=[&](pd_code_t*P,int cr,int p,int&e,int&head){ e=P->cross[cr].edge[p]; pd_edge_t&E=P->edge[e]; head=((int)E.head==cr&&E.headpos==p); };
  std::map<std::pair<int,int>,std::pair<int,int>> at; for(int v=0;v<(int)B->ncross;v++) for(int p=0;p<4;p++){ int e,h; half(B,v,p,e,h); at[{e,h}]={v,p}; }
  for(int v=0;v<(int)A->ncross;v++){ int w=x->crossmap->perm->map[v],p0=-1; for(int p=0;p<4;p++){ int e,h; half(A,v,p,e,h); int e2=x->edgemap->perm->map[e],h2=x->edgemap->orient[e]==PD_POS_ORIENTATION?h:1-h; auto t=at[{e2,h2}]; if(t.first!=w) return false; if(p==0) p0=t.second; else if(t.second!=((p0+(rev?-p:p))&3)) return false; } }
  auto compof=[&](pd_code_t*P,int e){ for(int k=0;k<(int)P->ncomps;k++) for(int j=0;j<(int)P->comp[k].nedges;j++) if((int)P->comp[k].edge[j]==e) return k; return -1; }; for(int e=0;e<ne;e++) if(compof(B,x->edgemap->perm->map[e])!=(int)x->compperm->map[compof(A,e)]) return false;
  if(x->facemap->orient!=x->crossmap->orient) return false; auto sidef=[&](pd_code_t*P){ std::map<std::pair<int,int>,int> m; for(int f=0;f<(int)P->nfaces;f++) for(int j=0;j<(int)P->face[f].nedges;j++) m[{(int)P->face[f].edge[j],(int)P->face[f].orient[j]}]=f; return m; }; auto fa=sidef(A),fb=sidef(B); for(auto&q:fa){ int e=q.first.first; bool pos=q.first.second==PD_POS_ORIENTATION; bool keep=(x->edgemap->orient[e]==PD_POS_ORIENTATION)!=(bool)rev; int e2=x->edgemap->perm->map[e]; int o2=(pos==keep)?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; auto it=fb.find({e2,o2}); if(it==fb.end()||it->second!=(int)x->facemap->perm->map[q.second]) return false; } return true; }
static void m_isocert(Case&c){ Dg a; for(int t=0;;t++){ if(t>200) throw Skip(); a=small(c,10,(int)c.rng.below(2)); bool ok=true; for(auto&k:comps(a)) if(k.h.size()<3) ok=false; bool big=false; for(auto&f:faces(a)) if(f.size()>2) big=true; if(ok&&big) break; } Dg b=c.rng.chance(0.5)?relabel(a,c.rng):reflect(relabel(a,c.rng)); PD A(toPd(a,c.rng)),B(toPd(b,c.rng)); unsigned n=0; pd_iso_t**g=pd_build_isos(A,B,&n); string ctx=show(A)+" vs "+show(B); c.require(n>0,"iso-none",ctx); pd_iso_t*x=pd_copy_iso(g[c.rng.below(n)]); int what=(int)c.rng.below(10); auto sw=[&](pd_perm_t*p){ if(p->n<2) return; int i=(int)c.rng.below(p->n),j=(int)c.rng.below(p->n); std::swap(p->map[i],p->map[j]); pd_regenerate_pcidx(p); };
  pd_iso_t*y=g[c.rng.below(n)]; auto flip=[&](pd_or_t&o){ o=o==PD_POS_ORIENTATION?PD_NEG_ORIENTATION:PD_POS_ORIENTATION; }; auto ident=[&](pd_perm_t*to,pd_perm_t*from){ memcpy(to->map,from->map,to->n*sizeof(pd_idx_t)); to->pc_idx=from->pc_idx; };
  switch(what){ case 0: break; case 1: sw(x->crossmap->perm); break; case 2: sw(x->facemap->perm); break; case 3: sw(x->compperm); break; case 4: { auto&k=A->comp[c.rng.below(A->ncomps)]; vector<int> old; for(pd_idx_t j=0;j<k.nedges;j++) old.push_back(x->edgemap->perm->map[k.edge[j]]); int s=1+(int)c.rng.below(k.nedges-1); for(pd_idx_t j=0;j<k.nedges;j++) x->edgemap->perm->map[k.edge[j]]=old[(j+s)%k.nedges]; pd_regenerate_pcidx(x->edgemap->perm); break; }
    case 5: { auto&k=A->comp[c.rng.below(A->ncomps)]; vector<int> old; for(pd_idx_t j=0;j<k.nedges;j++) old.push_back(x->edgemap->perm->map[k.edge[j]]); int s=(int)c.rng.below(k.nedges); for(pd_idx_t j=0;j<k.nedges;j++){ x->edgemap->perm->map[k.edge[j]]=old[(s+k.nedges-j)%k.nedges]; flip(x->edgemap->orient[k.edge[j]]); } pd_regenerate_pcidx(x->edgemap->perm); break; }
    case 6: flip(x->crossmap->orient); if(c.rng.chance(0.5)) flip(x->facemap->orient); break; case 7: ident(x->crossmap->perm,y->crossmap->perm); x->crossmap->orient=y->crossmap->orient; break; case 8: ident(x->facemap->perm,y->facemap->perm); x->facemap->orient=y->facemap->orient; break; case 9: ident(x->edgemap->perm,y->edgemap->perm); for(pd_idx_t e=0;e<A->nedges;e++) x->edgemap->orient[e]=y->edgemap->orient[e]; break; }
  bool want=true_iso(A,B,x),got=pd_iso_consistent(A,B,x); string m=fmt("perturbation %d ",what); if(want!=got){ char*p=pd_print_iso(x); m+=p; m+=" "; free(p); } pd_free_iso(&x); pd_free_isos(&n,&g); c.require(want==got,want?"certificate-refused":"certificate-wrong",m+ctx); c.count(want?"accepted":"refused"); c.count(fmt("perturbation_%d",what)); c.seen(fp(a)^mix(what)); }
// an edge renumbering which rotates and reverses components: the same map, drawn the other way round
static void m_applyedges(Case&c){ Dg d; for(int t=0;;t++){ if(t>200) throw Skip(); d=random_diagram(c.rng,1+(int)c.rng.below(14),0); bool ok=true; for(auto&k:comps(d)) if(k.h.size()<3) ok=false; if(ok) break; } PD A(toPd(d,c.rng)),K(pd_copy(A)); pd_edgemap_t*m=pd_new_edgemap(&A->nedges); vector<int> rv(A->ncomps); for(pd_idx_t k=0;k<A->ncomps;k++){ int L=A->comp[k].nedges,s=(int)c.rng.below(L); bool r=rv[k]=c.rng.chance(0.5); for(int j=0;j<L;j++){ int e=A->comp[k].edge[j]; m->perm->map[e]=A->comp[k].edge[r?(s+L-j)%L:(s+j)%L]; m->orient[e]=r?PD_NEG_ORIENTATION:PD_POS_ORIENTATION; } } pd_regenerate_pcidx(m->perm); string ctx=show(K); pd_apply_edgemap(A,m);
  auto fset=[&](pd_code_t*p){ std::multiset<vector<std::pair<int,int>>> S; for(pd_idx_t f=0;f<p->nfaces;f++){ vector<std::pair<int,int>> v; for(pd_idx_t j=0;j<p->face[f].nedges;j++) v.push_back({(int)p->face[f].edge[j],(int)p->face[f].orient[j]}); auto best=v; for(size_t r=0;r<v.size();r++){ std::rotate(v.begin(),v.begin()+1,v.end()); if(v<best) best=v; } S.insert(best); } return S; }; PD R(pd_copy(A)); pd_regenerate_faces(R); auto before=fset(A),after=fset(R); pd_free_edgemap(&m); c.require(before==after,"apply-faces",ctx+" -> "+show(A)); string v=validate(A); c.require(v=="","apply-invalid",v+" "+ctx); Dg got=fromPd(A),wd=fromPd(K); { for(pd_idx_t k=0;k<K->ncomps;k++) if(rv[k]) for(pd_idx_t j=0;j<K->comp[k].nedges;j++){ pd_edge_t&E=K->edge[K->comp[k].edge[j]]; int h=4*E.tail+E.tailpos,g=4*E.head+E.headpos; wd.out[h]=!wd.out[h]; wd.out[g]=!wd.out[g]; } } c.require(canon(got,CODE_ORIENT|CODE_TAG)==canon(wd,CODE_ORIENT|CODE_TAG),"apply-orientation",ctx+" -> "+show(A)); c.require(canon(got,0)==canon(fromPd(K),0),"apply-map",ctx+" -> "+show(A)); c.count("renumbered"); c.seen(fp(d)); }

int main(int argc,char**argv){ return run(argc,argv,{{"iso",m_iso},{"isotopy",m_isotopy},{"isobig",m_isobig},{"isotags",m_isotags},{"isocert",m_isocert},{"applyedges",m_applyedges},{"pack",m_pack},{"stor",m_stor},{"stormix",m_stormix},{"storhead",m_storhead}}); }
