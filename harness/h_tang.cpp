// Tangles inside diagrams and sliding a strand across a tangle.
#include "pdlib.hpp"
using namespace pdl;
static const int FULL=CODE_SIGN|CODE_ORIENT|CODE_TAG;
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };
struct TG { pd_tangle_t*t; TG(int n):t(pd_tangle_new(n)){} ~TG(){ pd_tangle_free(&t);} TG(const TG&)=delete; operator pd_tangle_t*(){return t;} pd_tangle_t*operator->(){return t;} };
static vector<Dg> pieces(const Dg&d){ vector<Dg> r; vector<char> s(d.n,0); for(int a=0;a<d.n;a++) if(!s[a]){ vector<int> st{a}; s[a]=1; vector<char> keep(d.n,0); while(!st.empty()){int v=st.back();st.pop_back();keep[v]=1; for(int p=0;p<4;p++){int w=d.mate[4*v+p]/4; if(!s[w]){s[w]=1;st.push_back(w);}}} vector<int> drop; for(int v=0;v<d.n;v++) if(!keep[v]) drop.push_back(v); Dg e=d; e.loose.clear(); r.push_back(dropv(e,drop)); } for(int t:d.loose){ Dg e; e.loose={t}; r.push_back(e);} return r; }

// an isomorphism of half-edges from d to q (same diagram, other numbering)
static bool isomap(const Dg&d,const Dg&q,vector<int>&phi){ if(d.n!=q.n) return false; for(int s=0;s<4*q.n;s++){ phi.assign(4*d.n,-1); vector<int> st; bool ok=true; auto put=[&](int a,int b){ if(phi[a]==-1){ if(d.out[a]!=q.out[b]||d.tag[a]!=q.tag[b]) { ok=false; return; } int da=d.over[a/4],qb=q.over[b/4]; if((da==2)!=(qb==2)||(da!=2&&((da==(a&1))!=(qb==(b&1))))) { ok=false; return; } phi[a]=b; st.push_back(a); } else if(phi[a]!=b) ok=false; }; put(0,s); while(ok&&!st.empty()){ int a=st.back(); st.pop_back(); int b=phi[a]; put(rotp(a,1),rotp(b,1)); if(ok) put(d.mate[a],q.mate[b]); } if(ok){ bool full=true; for(int x:phi) if(x<0) full=false; if(full) return true; } } return false; }

// counter-clockwise boundary of the crossing set S (outward half-edges); several cycles in general
static vector<vector<int>> boundary(const Dg&d,const vector<char>&S){ vector<vector<int>> r; vector<char> seen(4*d.n,0); for(int s=0;s<4*d.n;s++) if(S[s/4]&&!S[d.mate[s]/4]&&!seen[s]){ vector<int> cyc; int h=s; do{ seen[h]=1; cyc.push_back(h); int g=h; do g=rotp(d.mate[g],3); while(S[g/4]||!S[d.mate[g]/4]); h=d.mate[g]; }while(h!=s); r.push_back(cyc);} return r; }
static int ncomp_of(const Dg&d,const vector<char>&S,char val){ vector<char> s(d.n,0); int k=0; for(int a=0;a<d.n;a++) if(S[a]==val&&!s[a]){ k++; vector<int> st{a}; s[a]=1; while(!st.empty()){ int v=st.back(); st.pop_back(); for(int p=0;p<4;p++){ int w=d.mate[4*v+p]/4; if(S[w]==val&&!s[w]){ s[w]=1; st.push_back(w);} } } } return k; }
// grow a connected set from seeds avoiding X; size roughly k
static bool grow(Rng&r,const Dg&d,vector<char>&S,const vector<int>&seeds,const vector<char>&X,int k){ S.assign(d.n,0); for(int w:seeds) if(X[w]) return false; if(seeds.empty()) return false; S[seeds[0]]=1; int cnt=1;
  for(size_t i=1;i<seeds.size();i++){ if(S[seeds[i]]) continue; // join by a random path: BFS from S avoiding X
    vector<int> par(d.n,-2),qu; for(int v=0;v<d.n;v++) if(S[v]){ par[v]=-1; qu.push_back(v);} r.shuffle(qu); for(size_t a=0;a<qu.size();a++){ int v=qu[a]; int o=(int)r.below(4); for(int p=0;p<4;p++){ int w=d.mate[4*v+((p+o)&3)]/4; if(!X[w]&&par[w]==-2){ par[w]=v; qu.push_back(w);} } } if(par[seeds[i]]==-2) return false; for(int v=seeds[i];v>=0&&!S[v];v=par[v]){ S[v]=1; cnt++; } }
  for(int t=0;t<40&&cnt<k;t++){ int v=(int)r.below(d.n); if(!S[v]||0) continue; int w=d.mate[4*v+(int)r.below(4)]/4; if(!S[w]&&!X[w]){ S[w]=1; cnt++; } } return true; }
// make the complement connected: keep only its component containing `root`
static void fill(const Dg&d,vector<char>&S,int root){ vector<char> s(d.n,0); vector<int> st{root}; s[root]=1; while(!st.empty()){ int v=st.back(); st.pop_back(); for(int p=0;p<4;p++){ int w=d.mate[4*v+p]/4; if(!S[w]&&!s[w]){ s[w]=1; st.push_back(w);} } } for(int v=0;v<d.n;v++) S[v]=!s[v]; }

struct View { pd_code_t*pd; vector<int> edge, left; // by half-edge of fromPd numbering: pd edge, pd face on the left
  View(pd_code_t*p):pd(p),edge(4*p->ncross,-1),left(4*p->ncross,-1){ for(pd_idx_t e=0;e<p->nedges;e++){ edge[4*p->edge[e].tail+p->edge[e].tailpos]=e; edge[4*p->edge[e].head+p->edge[e].headpos]=e; } for(pd_idx_t f=0;f<p->nfaces;f++) for(pd_idx_t k=0;k<p->face[f].nedges;k++){ auto&E=p->edge[p->face[f].edge[k]]; left[p->face[f].orient[k]==PD_POS_ORIENTATION?4*E.tail+E.tailpos:4*E.head+E.headpos]=f; } } };
static string arr(const pd_idx_t*a,int n){ string s="["; for(int i=0;i<n;i++) s+=fmt("%s%u",i?",":"",a[i]); return s+"]"; }

// fill a tangle from a cycle of outward half-edges (numbering of q)
static void set_tangle(pd_tangle_t*t,const View&V,const Dg&q,const vector<int>&cyc){ int m=(int)cyc.size(); for(int i=0;i<m;i++){ t->edge[i]=V.edge[cyc[i]]; t->face[i]=V.left[q.mate[cyc[i]]]; } }
// all derived data against the model; inside = crossings in the tangle
static void check_tangle(Case&c,pd_code_t*pd,pd_tangle_t*t,const View&V,const Dg&q,const vector<int>&cyc,const vector<char>&S,const string&ctx){ int m=(int)cyc.size(); c.require((int)t->nedges==m&&(int)t->nstrands==m/2,"tangle-size",ctx);
  std::map<int,int> at; for(int i=0;i<m;i++){ at[cyc[i]]=i; c.require(t->edge_bdy_or[i]==(q.out[cyc[i]]?out:in),"tangle-orientation",ctx); c.require(pd_tangle_bdy_or(pd,t,V.edge[cyc[i]])==t->edge_bdy_or[i],"tangle-bdy-or",ctx); c.require((int)t->edge[i]==V.edge[cyc[i]]&&(int)t->face[i]==V.left[q.mate[cyc[i]]],"tangle-boundary-changed",ctx); }
  int s=0; vector<char> onstrand(pd->nedges,0); for(int i=0;i<m;i++) if(!q.out[cyc[i]]){ int h=opp(cyc[i]); int ne=2; while(S[q.mate[h]/4]){ onstrand[V.edge[h]]=1; h=opp(q.mate[h]); ne++; } c.require(at.count(h)>0,"HARNESS:strand",ctx); auto&st=t->strand[s]; pd_idx_t cmp,pos; pd_component_and_pos(pd,t->edge[i],&cmp,&pos); c.require((int)st.start_edge==i,"tangle-strand-start",ctx); c.require((int)st.end_edge==at[h],"tangle-strand-end",fmt("strand %d ends at %u not %d ",s,st.end_edge,at[h])+ctx); c.require((int)st.nedges==ne,"tangle-strand-length",fmt("strand %d has %u edges not %d ",s,st.nedges,ne)+ctx); c.require(st.comp==cmp&&pd->comp[cmp].tag==q.tag[h],"tangle-strand-comp",ctx); s++; } c.require(s==m/2,"HARNESS:strands",ctx);
  vector<pd_idx_t> cr,ed; for(int v=0;v<q.n;v++) if(S[v]) cr.push_back(v); for(pd_idx_t e=0;e<pd->nedges;e++) if(S[pd->edge[e].head]&&S[pd->edge[e].tail]) ed.push_back(e);
  c.require(t->ninterior_cross==cr.size()&&(cr.empty()||!memcmp(t->interior_cross,cr.data(),cr.size()*sizeof(pd_idx_t))),"tangle-interior-crossings",fmt("%u crossings, expected %zu ",t->ninterior_cross,cr.size())+ctx);
  c.require(t->ninterior_edges==ed.size()&&(ed.empty()||!memcmp(t->interior_edge,ed.data(),ed.size()*sizeof(pd_idx_t))),"tangle-interior-edges",fmt("%u edges, expected %zu ",t->ninterior_edges,ed.size())+ctx);
  c.require(pd_tangle_ok(pd,t),"tangle-not-ok",ctx); for(int e:ed) if(!onstrand[e]) { c.count("with_closed_components"); break; } }
static string tctx(pd_code_t*pd,pd_tangle_t*t){ return "edges "+arr(t->edge,t->nedges)+" faces "+arr(t->face,t->nedges)+" of "+show(pd); }

static Dg gen(Case&c,int lo,int hi){ int n=lo+(int)c.rng.below(hi-lo+1); return c.rng.chance(0.5)?any_signed(c.rng,n):random_diagram(c.rng,n,c.rng.chance(0.85)?1:2); }

// pick a tangle: returns boundary cycle(s) joined into one and the inside set
static bool pick_tangle(Rng&r,const Dg&q,vector<int>&cyc,vector<char>&S,bool&pinched){ vector<char> X(q.n,0); pinched=false; if(q.n<2) return false; int root=(int)r.below(q.n); X[root]=1; vector<int> seeds{(int)r.below(q.n)}; if(!grow(r,q,S,seeds,X,1+(int)r.below(std::max(1,q.n-1)))) return false; fill(q,S,root); auto b=boundary(q,S); if(b.size()!=1) return false; cyc=b[0];
  if(r.chance(0.35)&&q.n>=3){ // second clump meeting a face of the first one: a boundary that passes through a face twice
    vector<char> X2=S; for(int v=0;v<q.n;v++) if(S[v]) for(int p=0;p<4;p++) X2[q.mate[4*v+p]/4]=1; vector<int> free; for(int v=0;v<q.n;v++) if(!X2[v]) free.push_back(v); if(free.empty()) return true; vector<char> S2; if(!grow(r,q,S2,{r.pick(free)},X2,1+(int)r.below(4))) return true; int rt=-1; for(int v=0;v<q.n;v++) if(S[v]) rt=v; vector<char> S3=S2; fill(q,S3,rt); if(S3!=S2) return true; auto b2=boundary(q,S2); if(b2.size()!=1) return true;
    vector<int> face(4*q.n,-1); auto fs=faces(q); for(size_t f=0;f<fs.size();f++) for(int h:fs[f]) face[h]=(int)f; vector<std::pair<int,int>> common; for(size_t i=0;i<cyc.size();i++) for(size_t j=0;j<b2[0].size();j++) if(face[q.mate[cyc[i]]]==face[q.mate[b2[0][j]]]) common.push_back({(int)i,(int)j}); if(common.empty()) return true; auto pr=r.pick(common); vector<int> nc; for(size_t i=0;i<cyc.size();i++) nc.push_back(cyc[(pr.first+i)%cyc.size()]); for(size_t j=0;j<b2[0].size();j++) nc.push_back(b2[0][(pr.second+j)%b2[0].size()]); 
    vector<char> U=S; for(int v=0;v<q.n;v++) if(S2[v]) U[v]=1; if(ncomp_of(q,U,0)!=1) return true; cyc=nc; S=U; pinched=true; 
    if(r.chance(0.4)){ // the same curve seen from the other side
      vector<int> rc; for(int i=(int)cyc.size()-1;i>=0;i--) rc.push_back(q.mate[cyc[i]]); cyc=rc; for(auto&x:S) x=!x; } }
  return true; }

static void m_regen(Case&c){ for(int tr=0;tr<20;tr++){ Dg d=gen(c,2,c.rng.chance(0.1)?40:16); PD pd(toPd(d,c.rng)); Dg q=fromPd(pd); vector<int> cyc; vector<char> S; bool pin; if(!pick_tangle(c.rng,q,cyc,S,pin)) continue; std::rotate(cyc.begin(),cyc.begin()+c.rng.below(cyc.size()),cyc.end()); if(cyc.size()>pd->nedges) continue; View V(pd); PD keep(pd_copy(pd)); TG t((int)cyc.size()); set_tangle(t,V,q,cyc); string ctx=tctx(pd,t); int err=0; if(c.rng.chance(0.8)) pd_regenerate_tangle_err(pd,t,&err); else pd_regenerate_tangle(pd,t); c.require(err==0,"tangle-refused",ctx); check_tangle(c,pd,t,V,q,cyc,S,ctx); string s=same(keep,pd); c.require(s=="","tangle-modified-diagram",s+ctx);
    if(c.rng.chance(0.3)){ int e2=0; pd_regenerate_tangle_err(pd,t,&e2); c.require(e2==0,"tangle-again",ctx); check_tangle(c,pd,t,V,q,cyc,S,"second time "+ctx); }
    if(c.rng.chance(0.3)){ int which=(int)c.rng.below(4); auto&st=t->strand[c.rng.below(t->nstrands)]; string w; bool applies=true; if(which==0){ if(st.nedges>=pd->comp[st.comp].nedges+2) applies=false; st.nedges++; w="strand length"; } else if(which==1){ if(pd->ncomps<2) applies=false; else { st.comp=(st.comp+1)%pd->ncomps; w="strand component"; } } else if(which==2){ st.end_edge=(st.end_edge+1)%t->nedges; w="strand end"; } else { pd_idx_t i=c.rng.below(t->nedges); t->edge_bdy_or[i]=unset; w="orientation"; } if(applies){ c.require(!pd_tangle_ok(pd,t),"tangle-bad-accepted",w+" "+ctx); c.count("corrupted_rejected"); } }
    c.count(pin?"face_revisited":"simple"); c.maxi("boundary_edges",(int)cyc.size()); c.maxi("interior_crossings",std::count(S.begin(),S.end(),1)); c.seen(mix(fp(q)*7+cyc[0]*131+cyc.size())); c.sample(ctx); return; } throw Skip(); }

static void m_badtangle(Case&c){ for(int tr=0;tr<20;tr++){ Dg d=gen(c,3,14); PD pd(toPd(d,c.rng)); Dg q=fromPd(pd); vector<int> cyc; vector<char> S; bool pin; if(!pick_tangle(c.rng,q,cyc,S,pin)) continue; int m=(int)cyc.size(); if(m>(int)pd->nedges) continue; View V(pd); TG t(m); set_tangle(t,V,q,cyc); int k=(int)c.rng.below(4); string w; int i=(int)c.rng.below(m); auto onface=[&](pd_idx_t e,pd_idx_t f){ for(pd_idx_t j=0;j<pd->face[f].nedges;j++) if(pd->face[f].edge[j]==e) return true; return false; };
    if(k==0){ int j=(i+1+(int)c.rng.below(m-1))%m; t->edge[i]=t->edge[j]; w="repeated edge"; }
    else if(k==1){ t->face[i]=c.rng.below(pd->nfaces); if(onface(t->edge[i],t->face[i])) continue; w="edge not on its face"; }
    else if(k==2){ pd_idx_t f=c.rng.below(pd->nfaces); if(!onface(t->edge[i],f)||onface(t->edge[(i+m-1)%m],f)) continue; t->face[i]=f; w="edge not on the next face"; }
    else { t->edge[i]=c.rng.below(pd->nedges); if(onface(t->edge[i],t->face[i])&&onface(t->edge[i],t->face[(i+1)%m])) continue; w="edge off the boundary"; }
    PD keep(pd_copy(pd)); int err=0; string ctx=w+" "+tctx(pd,t); pd_regenerate_tangle_err(pd,t,&err); c.require(err==PD_TANGLE_ERROR,"tangle-bad-accepted",ctx); c.require(same(keep,pd)=="","tangle-modified-diagram",ctx); c.count(w.c_str()); c.seen(mix(fp(q)*7+i*131+k)); return; } throw Skip(); }

// ---- slides --------------------------------------------------------------------------------
struct Slide { Dg d; vector<int> run; /* outgoing half-edges of e[0..n-1] */ vector<int> cyc; vector<char> S; bool left; /* tangle on the left of the run */ bool over; };
static bool anchored(const Slide&s){ int n=(int)s.run.size(); int a=s.run[0]/4,b=s.d.mate[s.run[n-1]]/4; if(s.S[a]||s.S[b]) return false; for(int j=0;j+1<n;j++){ int v=s.d.mate[s.run[j]]/4; if(v==a||v==b) return false; } return true; }
// a run of edges of a random diagram, made to pass over (under) everything, and a tangle beside it
static bool gen_run(Case&c,Slide&s){ Rng&r=c.rng; s.d=gen(c,4,r.chance(0.1)?40:22); Dg&d=s.d; vector<int> outs; for(int h=0;h<4*d.n;h++) if(d.out[h]) outs.push_back(h); int n=2+(int)r.below(r.chance(0.3)?7:3); s.left=r.chance(0.5); s.over=r.chance(0.5); int h=r.pick(outs); s.run.clear(); vector<char> X(d.n,0); vector<int> seeds; for(int j=0;j<n;j++){ s.run.push_back(h); if(j+1<n){ int m=d.mate[h]; if(X[m/4]) return false; X[m/4]=1; h=opp(m); } }
  int a=s.run[0]/4,b=d.mate[s.run[n-1]]/4; bool strict=r.chance(0.9); if(strict&&(X[a]||X[b])) return false; vector<char> Y=X; if(strict){ Y[a]=Y[b]=1; }
  for(int j=0;j+1<n;j++){ int m=d.mate[s.run[j]]; int g=rotp(m,s.left?3:1); seeds.push_back(d.mate[g]/4); } if(!grow(r,d,s.S,seeds,Y,1+(int)r.below(d.n))) return false; int root=d.mate[s.run[0]]/4; if(s.S[root]) return false; fill(d,s.S,root); for(int v=0;v<d.n;v++) if(X[v]&&s.S[v]) return false; auto bd=boundary(d,s.S); if(bd.size()!=1) return false; s.cyc=bd[0];
  for(int j=0;j+1<n;j++){ int m=d.mate[s.run[j]]; d.over[m/4]= s.over? (m&1):1-(m&1); } return true; }
// an edge outside a tangle is carried all the way around it (the slide then removes every crossing)
static bool gen_encircle(Case&c,Slide&s){ Rng&r=c.rng; Dg d; bool split=r.chance(0.4); vector<char> S; int x=-1,st=-1; vector<int> cyc; 
  if(!split){ d=gen(c,3,14); vector<char> X(d.n,0); int root=(int)r.below(d.n); X[root]=1; if(!grow(r,d,S,{(int)r.below(d.n)},X,1+(int)r.below(d.n))) return false; fill(d,S,root); auto b=boundary(d,S); if(b.size()!=1) return false; cyc=b[0]; vector<int> face(4*d.n,-1); auto fs=faces(d); for(size_t f=0;f<fs.size();f++) for(int h:fs[f]) face[h]=(int)f; vector<std::pair<int,int>> cand; for(size_t i=0;i<cyc.size();i++) for(int h:fs[face[d.mate[cyc[i]]]]) if(!S[h/4]&&!S[d.mate[h]/4]) cand.push_back({(int)i,h}); if(cand.empty()) return false; auto p=r.pick(cand); st=p.first; x=p.second; }
  else { Dg a=gen(c,2,9),b=gen(c,1,6); if(a.n<2||b.n<1) return false; vector<char> X(a.n,0),Sa; int root=(int)r.below(a.n); X[root]=1; if(!grow(r,a,Sa,{(int)r.below(a.n)},X,1+(int)r.below(a.n))) return false; fill(a,Sa,root); auto bd=boundary(a,Sa); if(bd.size()!=1) return false; cyc=bd[0]; d=merge({a,b}); std::set<int> ta; for(int h=0;h<4*a.n;h++) ta.insert(a.tag[h]); std::map<int,int> nt; for(int h=4*a.n;h<4*d.n;h++) if(!nt.count(d.tag[h])){ int x='A'; while(ta.count(x)) x++; ta.insert(x); nt[d.tag[h]]=x; } for(int h=4*a.n;h<4*d.n;h++) d.tag[h]=nt[d.tag[h]]; S=Sa; S.resize(d.n,0); st=(int)r.below(cyc.size()); x=4*a.n+(int)r.below(4*b.n); }
  int m=(int)cyc.size(); int n0=d.n; s.over=r.chance(0.5); Dg e; e.resize(n0+m); for(int h=0;h<4*n0;h++){ e.mate[h]=d.mate[h]; e.out[h]=d.out[h]; e.tag[h]=d.tag[h]; } for(int v=0;v<n0;v++) e.over[v]=d.over[v]; e.loose=d.loose; int y=d.mate[x]; int prev=x; vector<int> vs;
  for(int i=0;i<m;i++){ int h=cyc[((st-1-i)%m+m)%m]; int v=4*(n0+i); int mm=e.mate[h]; e.mate[h]=v+2; e.mate[v+2]=h; e.mate[v]=mm; e.mate[mm]=v; e.out[v+2]=!d.out[h]; e.out[v]=d.out[h]; e.tag[v]=e.tag[v+2]=d.tag[h]; e.mate[prev]=v+1; e.mate[v+1]=prev; prev=v+3; e.tag[v+1]=e.tag[v+3]=d.tag[x]; e.out[v+1]=!d.out[x]; e.out[v+3]=d.out[x]; e.over[n0+i]=s.over?1:0; }
  e.mate[prev]=y; e.mate[y]=prev; if((int)faces(e).size()!=e.n+2) return false; s.d=e; s.S=S; s.S.resize(e.n,0); s.cyc=boundary(e,s.S)[0]; s.run.clear(); int h=d.out[x]?x:y; for(int i=0;i<=m;i++){ s.run.push_back(h); h=opp(e.mate[h]); } s.left=!d.out[x]; return true; }

static Dg expected(const Slide&s){ const Dg&d=s.d; int n=(int)s.run.size(),m=(int)s.cyc.size(); Dg e=d; // position of the first crossed tangle edge
  int g0=d.mate[rotp(d.mate[s.run[0]],s.left?3:1)]; int k=-1; for(int i=0;i<m;i++) if(s.cyc[i]==g0) k=i; if(k<0){ Dg z; z.n=-1; return z; } int nc=m-(n-1); int n0=d.n; auto con=[&](int a,int b){ e.mate[a]=b; e.mate[b]=a; };
  { Dg f; f.resize(n0+nc); for(int h=0;h<4*n0;h++){ f.mate[h]=d.mate[h]; f.out[h]=d.out[h]; f.tag[h]=d.tag[h]; } for(int v=0;v<n0;v++) f.over[v]=d.over[v]; f.loose=d.loose; e=f; }
  int a0=s.run[0], b0=d.mate[s.run[n-1]]; int prev=a0; for(int i=0;i<nc;i++){ int h=s.left? s.cyc[((k-1-i)%m+m)%m] : s.cyc[(k+1+i)%m]; int v=4*(n0+i); int mm=e.mate[h]; con(h,v+2); con(v,mm); e.out[v+2]=!d.out[h]; e.out[v]=d.out[h]; e.tag[v]=e.tag[v+2]=d.tag[h]; int en=s.left?1:3, ex=4-en; con(prev,v+en); prev=v+ex; e.out[v+en]=0; e.out[v+ex]=1; e.tag[v+1]=e.tag[v+3]=d.tag[a0]; e.over[n0+i]=s.over?1:0; }
  con(prev,b0); vector<int> del; for(int j=0;j+1<n;j++){ int t=d.mate[s.run[j]]; int v=t/4; del.push_back(v); joinv(e,rotp(t,1),rotp(t,3)); } return dropv(e,del); }

static void do_slide(Case&c,Slide&s){ PD pd(toPd(s.d,c.rng)); Dg q=fromPd(pd); vector<int> phi; if(!isomap(s.d,q,phi)) c.fail("HARNESS:isomap",show(pd)); Slide z; z.d=q; z.left=s.left; z.over=s.over; for(int h:s.run) z.run.push_back(phi[h]); for(int h:s.cyc) z.cyc.push_back(phi[h]); z.S.assign(q.n,0); for(int v=0;v<q.n;v++) if(s.S[v]) z.S[phi[4*v]/4]=1;
  int n=(int)z.run.size(), m=(int)z.cyc.size(); std::rotate(z.cyc.begin(),z.cyc.begin()+c.rng.below(m),z.cyc.end()); if(m>(int)pd->nedges) throw Skip(); View V(pd); TG t(m); set_tangle(t,V,q,z.cyc); int err=0; pd_regenerate_tangle_err(pd,t,&err); string ctx=tctx(pd,t); c.require(err==0,"tangle-refused",ctx); check_tangle(c,pd,t,V,q,z.cyc,z.S,ctx);
  vector<pd_idx_t> es,fs; for(int h:z.run){ es.push_back(V.edge[h]); fs.push_back(V.left[z.left?h:q.mate[h]]); } ctx="slide of "+arr(es.data(),n)+" along faces "+arr(fs.data(),n)+" across "+ctx; PD keep(pd_copy(pd)); pd_idx_t np=0; pd_code_t**out=NULL; err=0;
  bool plain=anchored(z)&&c.rng.chance(0.2); if(plain) pd_tangle_slide(pd,t,n,es.data(),fs.data(),&np,&out); else pd_tangle_slide_err(pd,t,n,es.data(),fs.data(),&np,&out,&err);
  c.require(same(keep,pd)=="","slide-modified-input",same(keep,pd)+ctx); if(!anchored(z)){ if(err){ c.require(err==PD_TANGLE_ERROR,"slide-error-code",ctx); c.count("no_anchor_refused"); return; } for(pd_idx_t i=0;i<np;i++) pd_code_free(&out[i]); free(out); c.count("no_anchor_done"); return; }
  c.require(err==0,"slide-refused",ctx); Dg e=expected(z); if(e.n<0) c.fail("HARNESS:expected",ctx); auto want=pieces(e); for(auto&w:want) if(w.n&&(int)faces(w).size()!=w.n+2) c.fail("HARNESS:planar",ctx);
  c.require(np==want.size()&&out!=NULL,"slide-pieces",fmt("%u pieces returned, %zu expected ",np,want.size())+ctx); std::multiset<vector<int>> A,B; string got; for(pd_idx_t i=0;i<np;i++){ c.require(out[i]!=NULL,"slide-null-piece",ctx); string v=validate(out[i]); c.require(v=="","slide-invalid",v+" "+show(out[i])+" | "+ctx); c.require(pd_ok(out[i]),"slide-not-ok",show(out[i])+" | "+ctx); A.insert(canon(fromPd(out[i]),FULL)); got+=show(out[i])+" "; } for(auto&w:want) B.insert(canon(w,FULL)); string exp; for(auto&w:want) exp+=show(w)+" "; c.require(A==B,"slide-wrong-diagram","got "+got+" | expected "+exp+" | "+ctx);
  for(pd_idx_t i=0;i<np;i++) pd_code_free(&out[i]); free(out);
  if(c.rng.chance(0.2)){ Poly x,y; if(homfly(q,x,4000)&&homfly(e,y,8000)){ c.require(x==y,"HARNESS:slide-changes-link",ctx); c.count("homfly_checked"); } }
  c.count(np>1?"split":"connected"); c.count(m==n-1?"uncrossed_completely":m==n?"one_new_crossing":"several_new_crossings"); c.count(s.over?"over":"under"); c.count(n==2?"one_old_crossing":"more_old_crossings"); c.maxi("strand_edges",n); c.maxi("new_crossings",m-n+1); c.seen(mix(fp(q)*7+es[0]*131+n)^mix(m)); c.sample(ctx); }
static void m_slide(Case&c){ Slide s; for(int t=0;t<60;t++) if(gen_run(c,s)){ do_slide(c,s); return; } throw Skip(); }
static void m_encircle(Case&c){ Slide s; for(int t=0;t<60;t++) if(gen_encircle(c,s)){ do_slide(c,s); return; } throw Skip(); }
static void m_badslide(Case&c){ Slide s; bool ok=false; for(int t=0;t<60&&!ok;t++) ok=c.rng.chance(0.7)?gen_run(c,s):gen_encircle(c,s); if(!ok) throw Skip(); PD pd(toPd(s.d,c.rng)); Dg q=fromPd(pd); vector<int> phi; if(!isomap(s.d,q,phi)) c.fail("HARNESS:isomap",show(pd)); vector<int> cyc,run; for(int h:s.run) run.push_back(phi[h]); for(int h:s.cyc) cyc.push_back(phi[h]); int n=(int)run.size(),m=(int)cyc.size(); if(m>(int)pd->nedges||n<2) throw Skip(); View V(pd); TG t(m); set_tangle(t,V,q,cyc); int err=0; pd_regenerate_tangle_err(pd,t,&err); c.require(err==0,"tangle-refused",tctx(pd,t)); vector<pd_idx_t> es,fs; for(int h:run){ es.push_back(V.edge[h]); fs.push_back(V.left[s.left?h:q.mate[h]]); }
  int k=(int)c.rng.below(4); string w; int i=(int)c.rng.below(n);
  if(k==0){ pd_idx_t e=c.rng.below(pd->nedges); if(e==es[i]) throw Skip(); es[i]=e; w="strand not consecutive"; }
  else if(k==1){ pd_idx_t f=c.rng.below(pd->nfaces); pd_idx_t pf,pp,nf,npp; pd_face_and_pos(pd,es[i],&pf,&pp,&nf,&npp); if(f==pf||f==nf) throw Skip(); fs[i]=f; w="face not beside the strand"; }
  else if(k==2){ if(n<3) throw Skip(); int j=(int)c.rng.below(n-1); pd_idx_t v=pd->edge[es[j]].head; if(pd->cross[v].sign==PD_UNSET_ORIENTATION) throw Skip(); pd->cross[v].sign=pd->cross[v].sign==PD_POS_ORIENTATION?PD_NEG_ORIENTATION:PD_POS_ORIENTATION; w="strand both over and under"; }
  else { for(int j=0;j<n;j++) fs[j]=V.left[s.left?q.mate[run[j]]:run[j]]; bool onb=true; for(int j=0;j<n&&onb;j++){ onb=false; for(int x=0;x<m;x++) if(t->face[x]==fs[j]) onb=true; } if(onb) throw Skip(); w="faces on the other side of the strand"; }
  string ctx=w+" slide of "+arr(es.data(),n)+" along faces "+arr(fs.data(),n)+" across "+tctx(pd,t); PD keep(pd_copy(pd)); pd_idx_t np=0; pd_code_t**out=NULL; pd_tangle_slide_err(pd,t,n,es.data(),fs.data(),&np,&out,&err); c.require(err==PD_TANGLE_ERROR,"slide-bad-accepted",ctx); c.require(same(keep,pd)=="","slide-modified-input",ctx); c.count(w.c_str()); c.seen(mix(fp(q)*7+es[0]*131+n)^mix(m*5+k)); }
int main(int argc,char**argv){ return run(argc,argv,{{"regen",m_regen},{"badtangle",m_badtangle},{"slide",m_slide},{"encircle",m_encircle},{"badslide",m_badslide}}); }
