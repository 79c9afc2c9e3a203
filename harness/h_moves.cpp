#include "pdlib.hpp"
using namespace pdl;
extern "C" { pd_code_t *pd_clump_slide(pd_code_t *pd,pd_idx_t e[3]); }
static const int FULL=CODE_SIGN|CODE_ORIENT|CODE_TAG;
static int gen_n(Case&c,int lim){ double u=c.rng.unif(); if(u<0.2) return 1+(int)c.rng.below(3); return 1+(int)c.rng.below(lim); }
struct PD { pd_code_t*p; PD(pd_code_t*q=0):p(q){} ~PD(){ pd_code_free(&p);} PD(const PD&)=delete; operator pd_code_t*(){return p;} pd_code_t*operator->(){return p;} };
static void valid(Case&c,pd_code_t*p,const char*what,const string&ctx){ c.require(p!=NULL,(string(what)+"-null").c_str(),ctx); string v=validate(p); c.require(v=="",(string(what)+"-invalid").c_str(),v+" "+show(p)+" | input "+ctx); c.require(pd_ok(p),(string(what)+"-not-ok").c_str(),show(p)+" | input "+ctx); }
static void same_diagram(Case&c,pd_code_t*p,const Dg&want,int fl,const char*what,const string&ctx){ Dg g=fromPd(p); c.require(canon(g,fl)==canon(want,fl),(string(what)+"-wrong-diagram").c_str(),show(p)+" | expected "+show(want)+" | input "+ctx); }
// connected pieces
static vector<Dg> pieces(const Dg&d){ vector<Dg> r; vector<char> s(d.n,0); for(int a=0;a<d.n;a++) if(!s[a]){ vector<int> st{a}; s[a]=1; vector<int> in; while(!st.empty()){int v=st.back();st.pop_back();in.push_back(v); for(int p=0;p<4;p++){int w=d.mate[4*v+p]/4; if(!s[w]){s[w]=1;st.push_back(w);}}} vector<char> keep(d.n,0); for(int v:in) keep[v]=1; vector<int> drop; for(int v=0;v<d.n;v++) if(!keep[v]) drop.push_back(v); Dg e=d; e.loose.clear(); r.push_back(dropv(e,drop)); } for(int t:d.loose){ Dg e; e.loose={t}; r.push_back(e);} return r; }
static std::multiset<vector<int>> codes(const vector<Dg>&v,int fl){ std::multiset<vector<int>> r; for(auto&d:v) r.insert(canon(d,fl)); return r; }
static pd_code_t* unchanged_guard(pd_code_t*p){ return pd_copy(p); }
static void unchanged(Case&c,pd_code_t*before,pd_code_t*p,const char*what){ string s=same(before,p); c.require(s=="",(string(what)+"-modified-input").c_str(),s); }

// insert a monogon on half-edge h's edge in model
static Dg add_loop(const Dg&d,int h,int side,int o){ // new crossing on the edge h -- mate(h); h outgoing
  Dg e; e.resize(d.n+1); for(int x=0;x<4*d.n;x++){ e.mate[x]=d.mate[x]; e.out[x]=d.out[x]; e.tag[x]=d.tag[x]; } for(int v=0;v<d.n;v++) e.over[v]=d.over[v]; int v=4*d.n; int m=d.mate[h]; int t=d.tag[h];
  // travel: h -> pos a, through to a+2, loop to next position, through, out to m
  int a=v, b=v+2; int l2= side? v+3:v+1; int o2=opp(l2); e.mate[h]=a; e.mate[a]=h; e.mate[b]=l2; e.mate[l2]=b; e.mate[o2]=m; e.mate[m]=o2; e.out[a]=0; e.out[b]=1; e.out[l2]=0; e.out[o2]=1; e.out[h]=1; e.out[m]=0; for(int k=0;k<4;k++) e.tag[v+k]=t; e.over[d.n]=o; e.loose=d.loose; return e; }
// push edge of h1 over the edge of h2 where both half-edges are on the same face (face on the left of h1 and h2), model R2
static Dg add_bigon(const Dg&d,int h1,int h2,int o){ // h1,h2 tails of directed edges with the common face on the left side
  Dg e; e.resize(d.n+2); for(int x=0;x<4*d.n;x++){ e.mate[x]=d.mate[x]; e.out[x]=d.out[x]; e.tag[x]=d.tag[x]; } for(int v=0;v<d.n;v++) e.over[v]=d.over[v]; e.loose=d.loose; int m1=d.mate[h1],m2=d.mate[h2]; int A=4*d.n,B=4*d.n+4;
  // faces here are traced with next = mate(h) rotated by 3: see faces().  Put crossings A (near tail of h1) and B.
  // Finger from edge1 crosses edge2.  Around the face, edge1 goes h1->m1, edge2 goes h2->m2 in the same rotational sense, so they are antiparallel across the face.
  // crossing A: edge1 passes first; edge2 passes A second.  Positions ccw: choose A: 0=edge1 in,2=edge1 out ; edge2 uses 1,3
  // geometry: edge1 travels east along y=0 (face to its left or right, by convention sgnf), edge2 travels west.
  // With face on the right of h (faces() turn): next edge leaves at headpos-1 = clockwise neighbour => face on the left... decided by planarity check in caller.
  auto con=[&](int a,int b){ e.mate[a]=b; e.mate[b]=a; };
  for(int variant=0;variant<2;variant++){
    Dg f=e; auto c2=[&](int a,int b){ f.mate[a]=b; f.mate[b]=a; };
    // edge1: h1 -> A(0) .. A(2) -> B(0) .. B(2) -> m1 ; edge2: h2 -> B(x) .. B(x+2) -> A(y) .. A(y+2) -> m2
    int x=variant?1:3; int y=variant?3:1; // opposite crossing directions at the two crossings
    c2(h1,A+0); c2(A+2,B+0); c2(B+2,m1); c2(h2,B+x); c2(B+((x+2)&3),A+y); c2(A+((y+2)&3),m2);
    int d1=d.out[h1],d2=d.out[h2]; f.out[A+0]=!d1; f.out[A+2]=d1; f.out[B+0]=!d1; f.out[B+2]=d1; f.out[B+x]=!d2; f.out[B+((x+2)&3)]=d2; f.out[A+y]=!d2; f.out[A+((y+2)&3)]=d2; 
    for(int k=0;k<4;k++){ f.tag[A+k]=(k&1)?d.tag[h2]:d.tag[h1]; f.tag[B+k]=(k&1)?d.tag[h2]:d.tag[h1]; } f.over[d.n]=f.over[d.n+1]=o; // o=0: edge1 over
    if((int)faces(f).size()==f.n+2) { // also must have created a bigon between A and B
      return f; } }
  (void)con; return e; }

static Dg gen(Case&c,int lim){ int n=gen_n(c,lim); return any_signed(c.rng,n); }

static void m_r1del(Case&c){ Dg d; int h=-1; for(int t=0;t<30&&h<0;t++){ d=gen(c,14); if(c.rng.chance(0.7)){ int k=1+(int)c.rng.below(3); while(k--){ vector<int> o; for(int x=0;x<4*d.n;x++) if(d.out[x]) o.push_back(x); d=add_loop(d,c.rng.pick(o),(int)c.rng.below(2),(int)c.rng.below(2)); } } vector<int> cand; for(int x=0;x<4*d.n;x++) if(d.mate[x]==rotp(x,1)) cand.push_back(x); if(!cand.empty()) h=c.rng.pick(cand); }
  if(h<0) throw Skip(); if(c.rng.chance(0.2)) for(auto&o:d.over) if(c.rng.chance(0.3)) o=2;
  PD pd(toPd(d,c.rng)); Dg q=fromPd(pd); vector<int> cand; for(int x=0;x<4*q.n;x++) if(q.mate[x]==rotp(x,1)) cand.push_back(x); h=c.rng.pick(cand); int v=h/4; PD keep(pd_copy(pd));
  PD r(pd_R1_loopdeletion(pd,v)); string ctx=fmt("cr %d of ",v)+show(pd); valid(c,r,"r1del",ctx); unchanged(c,keep,pd,"r1del");
  Dg e=q; bool both=(q.mate[rotp(h,2)]==rotp(h,3)); e.mate[h]=h; e.mate[rotp(h,1)]=rotp(h,1); joinv(e,rotp(h,2),rotp(h,3)); e=dropv(e,{v}); if(both) e.loose={q.tag[h]};
  same_diagram(c,r,e,FULL,"r1del",ctx); c.seen(fp(q)); c.count(both?"to_unknot":"ordinary"); c.sample(ctx); }

static void m_r2del(Case&c){ Dg d; for(int t=0;t<40;t++){ d=gen(c,10); if(c.rng.chance(0.75)){ auto fs=faces(d); vector<int> f=c.rng.pick(fs); if(f.size()<2) continue; int i=(int)c.rng.below(f.size()),j=(int)c.rng.below(f.size()); if(i==j||d.mate[f[i]]==f[j]) continue; Dg g=add_bigon(d,f[i],f[j],(int)c.rng.below(2)); if(g.mate[4*d.n]<0) continue; d=g; }
    vector<int> ok; for(auto&f:faces(d)) if(f.size()==2&&f[0]/4!=f[1]/4){ int v=f[0]/4,w=f[1]/4; int s0=f[0]&1; // strand parity of edge f[0] at v
        int e0=d.mate[f[0]]; if(d.over[v]<2&&d.over[w]<2 && (d.over[v]==(f[0]&1))==(d.over[w]==(e0&1))) ok.push_back(1); (void)s0; } if(ok.empty()) continue; else { goto found; } }
  throw Skip(); found:;
  PD pd(toPd(d,c.rng)); Dg q=fromPd(pd); vector<std::array<int,3>> sites; for(auto&f:faces(q)) if(f.size()==2&&f[0]/4!=f[1]/4){ int v=f[0]/4,w=f[1]/4; int e0=q.mate[f[0]]; bool ov=(q.over[v]==(f[0]&1)),ow=(q.over[w]==(e0&1)); if(ov==ow) sites.push_back({v,w,ov?f[0]:f[1]}); } // third: a half-edge on the over strand
  auto s=c.rng.pick(sites); pd_idx_t cr[2]={(pd_idx_t)s[0],(pd_idx_t)s[1]}; if(c.rng.chance(0.5)) std::swap(cr[0],cr[1]); string ctx=fmt("cr %u,%u of ",cr[0],cr[1])+show(pd); PD keep(pd_copy(pd)); int overtag=q.tag[s[2]];
  pd_idx_t nout=0; pd_code_t**out=0; pd_R2_bigon_elimination(pd,cr,&nout,&out); c.require(nout==1||nout==2,"r2del-count",ctx); unchanged(c,keep,pd,"r2del");
  Dg e=uncross(q,{s[0],s[1]}); auto ps=pieces(e); vector<Dg> got; for(pd_idx_t k=0;k<nout;k++){ valid(c,out[k],"r2del",ctx); got.push_back(fromPd(out[k])); }
  c.require(ps.size()==nout,"r2del-pieces",fmt("%zu pieces expected, %u returned ",ps.size(),nout)+ctx); c.require(codes(ps,FULL)==codes(got,FULL),"r2del-wrong-diagram",show(out[0])+" | "+(nout>1?show(out[1]):"")+" | "+ctx);
  auto ts=tagset(got[0]); c.require(ts.count(overtag)>0,"r2del-over-first",ctx); for(pd_idx_t k=0;k<nout;k++) pd_code_free(&out[k]); free(out); c.seen(fp(q)); c.count(nout==2?"split":"connected"); c.sample(ctx); }

static void m_r1add(Case&c){ bool un=c.rng.chance(0.3); int n=c.rng.chance(0.05)?0:gen_n(c,14); Dg d=un?random_diagram(c.rng,n,0):random_diagram(c.rng,n,1); PD pd(toPd(d,c.rng)); PD keep(pd_copy(pd)); pd_idx_t f=c.rng.below(pd->nfaces), k=c.rng.below(pd->face[f].nedges); string ctx=fmt("face %u pos %u of ",f,k)+show(pd); PD r(pd_R1_loop_addition(pd,f,k)); valid(c,r,"r1add",ctx); unchanged(c,keep,pd,"r1add"); c.require(r->ncross==pd->ncross+1,"r1add-count",ctx); c.require(r->ncomps==pd->ncomps,"r1add-comps",ctx);
  if(n){ Dg q=fromPd(pd); auto&E=pd->edge[pd->face[f].edge[k]]; int h=4*E.tail+E.tailpos; int o=pd->face[f].orient[k]; // loop inside face f
    Dg a=add_loop(q,h,0,2),b=add_loop(q,h,1,2); int fl=un?0:CODE_SIGN|CODE_ORIENT; auto g=canon(fromPd(r),fl); 
    // the loop's monogon must lie inside face f: f gains 1 edge, the other side gains 2... both are accepted only when they describe f
    auto facesz=[&](const Dg&x){ std::multiset<size_t> s; for(auto&ff:faces(x)) s.insert(ff.size()); return s; }; pd_idx_t pf,pp,nf,np; pd_face_and_pos(pd,pd->face[f].edge[k],&pf,&pp,&nf,&np); (void)o;
    auto fsz=[&](pd_idx_t ff){ return (size_t)pd->face[ff].nedges; }; // the new loop lies in the chosen face, which gains its edge and one more; the face across gains one
    std::multiset<size_t> want; for(pd_idx_t x=0;x<pd->nfaces;x++) want.insert(fsz(x)); want.erase(want.find(fsz(pf))); want.erase(want.find(fsz(nf))); size_t inf=fsz(f), ot=fsz(f==pf?nf:pf); want.insert(1); want.insert(inf+2); want.insert(ot+1); bool okA=facesz(a)==want&&g==canon(a,fl), okB=facesz(b)==want&&g==canon(b,fl); if(pf==nf) okA=okB=(g==canon(a,fl)||g==canon(b,fl));
    c.require(okA||okB,"r1add-wrong-shadow",show(r)+" | "+ctx); c.seen(fp(q)); } }

static void m_r2add(Case&c){ bool un=c.rng.chance(0.4); int n=gen_n(c,14); Dg d=un?random_diagram(c.rng,n,0):random_diagram(c.rng,n,1); PD pd(toPd(d,c.rng)); PD keep(pd_copy(pd)); pd_idx_t f=0,i=0,j=0; bool ok=false; for(int t=0;t<30&&!ok;t++){ f=c.rng.below(pd->nfaces); if(pd->face[f].nedges<2) continue; i=c.rng.below(pd->face[f].nedges); j=c.rng.below(pd->face[f].nedges); if(pd->face[f].edge[i]!=pd->face[f].edge[j]) ok=true; } if(!ok) throw Skip();
  string ctx=fmt("face %u pos %u,%u of ",f,i,j)+show(pd); PD r(pd_R2_bigon_addition(pd,f,i,j,c.rng.chance(0.5)?PD_POS_ORIENTATION:PD_NEG_ORIENTATION)); valid(c,r,"r2add",ctx); unchanged(c,keep,pd,"r2add"); Dg q=fromPd(pd); auto half=[&](int k){ auto&E=pd->edge[pd->face[f].edge[k]]; return pd->face[f].orient[k]? 4*E.tail+E.tailpos : 4*E.head+E.headpos; }; Dg e=add_bigon(q,half(i),half(j),2); c.require(r->ncross==pd->ncross+2,"r2add-count",ctx); c.require(r->ncomps==pd->ncomps,"r2add-comps",ctx); int fl=un?0:CODE_SIGN|CODE_ORIENT; c.require(canon(fromPd(r),fl)==canon(e,fl),"r2add-wrong-shadow",show(r)+" | expected "+show(e)+" | "+ctx); c.seen(fp(q)); c.sample(ctx); }

// model of the triangle flip as a map: face h0,h1,h2 with three distinct crossings
static bool flip(const Dg&d,const vector<int>&f,Dg&e){ int v[3]; for(int k=0;k<3;k++) v[k]=f[k]/4; if(v[0]==v[1]||v[1]==v[2]||v[0]==v[2]) return false; e=d;
  // at vertex v[k]: f[k] leaves along the triangle; incoming triangle edge arrives at rotp(f[k],1) (since next = mate rotated by 3)
  // strands: L_k runs through edge (v[k],v[k+1]).  After the flip the order of the two crossings along every strand is exchanged:
  // outside neighbour at v[k] side of strand k is opp(f[k]); at v[k+1] side it is opp(rotp(f[k+1],1)).
  int A[3],B[3]; for(int k=0;k<3;k++){ A[k]=opp(f[k]); B[k]=opp(rotp(f[(k+1)%3],1)); }
  vector<int> mt=d.mate; auto real=[&](int x){ return x; }; (void)real;
  // detach: strand k currently: ext(A) - [A..f_k] - [in..B] - ext(B).  New: ext(A) - [in side of v[k+1]] ... : ext(A) connects to where the inner half of v[k+1] was, i.e. half rotp(f[k+1],1); ext(B) connects to half f[k]; inner edge joins A[k] and B[k].
  vector<int> newm(4*d.n,-2); std::map<int,int> sub; for(int k=0;k<3;k++){ sub[A[k]]=rotp(f[(k+1)%3],1); sub[B[k]]=f[k]; }
  for(int x=0;x<4*d.n;x++) newm[x]=d.mate[x];
  auto S=[&](int x){ auto it=sub.find(x); return it==sub.end()?x:it->second; };
  vector<std::pair<int,int>> ext; std::set<int> tri; for(int k=0;k<3;k++){ tri.insert(A[k]); tri.insert(B[k]); }
  for(int x:tri){ int m=d.mate[x]; int a=S(x), b=tri.count(m)?S(m):m; newm[a]=b; newm[b]=a; }
  for(int k=0;k<3;k++){ newm[A[k]]=B[k]; newm[B[k]]=A[k]; }
  e.mate=newm; return true; }
static void m_r3(Case&c){ Dg d; for(int t=0;t<40;t++){ int n=3+(int)c.rng.below(12); d=random_diagram(c.rng,n,c.rng.chance(0.5)?0:1); bool tri=false; for(auto&f:faces(d)) if(f.size()==3&&f[0]/4!=f[1]/4&&f[1]/4!=f[2]/4&&f[0]/4!=f[2]/4) tri=true; if(tri) goto ok; } throw Skip(); ok:;
  PD pd(toPd(d,c.rng)); PD keep(pd_copy(pd)); vector<pd_idx_t> cand; for(pd_idx_t f=0;f<pd->nfaces;f++) if(pd->face[f].nedges==3){ std::set<pd_idx_t> vs; for(int k=0;k<3;k++) vs.insert(pd->edge[pd->face[f].edge[k]].head); for(int k=0;k<3;k++) vs.insert(pd->edge[pd->face[f].edge[k]].tail); if(vs.size()==3) cand.push_back(f); } { pd_idx_t g=c.rng.below(pd->nfaces); if(pd->face[g].nedges!=3){ pd_code_t*z=pd_R3_triangle_flip(pd,g); bool nil=!z; if(z) pd_code_free(&z); c.require(nil,"r3-not-a-triangle",fmt("face %u of ",g)+show(pd)); unchanged(c,keep,pd,"r3-refused"); c.count("refused"); } } pd_idx_t f=c.rng.pick(cand); string ctx=fmt("face %u of ",f)+show(pd); PD r(pd_R3_triangle_flip(pd,f)); valid(c,r,"r3",ctx); unchanged(c,keep,pd,"r3"); Dg q=fromPd(pd),e; vector<int> hf; for(int k=0;k<3;k++){ auto&E=pd->edge[pd->face[f].edge[k]]; hf.push_back(pd->face[f].orient[k]?4*E.tail+E.tailpos:4*E.head+E.headpos);} if(!flip(q,hf,e)) throw Skip(); if((int)faces(e).size()!=e.n+2) c.fail("HARNESS:flip",ctx); c.require(r->ncross==pd->ncross&&r->ncomps==pd->ncomps,"r3-count",ctx); bool un=d.over[0]==2; int fl=un?0:CODE_SIGN|CODE_ORIENT; c.require(canon(fromPd(r),fl)==canon(e,fl),"r3-wrong-shadow",show(r)+" | expected "+show(e)+" | "+ctx); c.seen(fp(q)); c.sample(ctx); }

static void m_csum(Case&c){ int sa,sb; auto gensum=[&](int&s){ s=c.rng.chance(0.6)?1:(int)c.rng.below(3); int n=gen_n(c,8); return s==1?any_signed(c.rng,n):random_diagram(c.rng,n,s); }; Dg a=gensum(sa), b=gensum(sb); bool s=sa==1&&sb==1; c.count(s?"signed":sa==0&&sb==0?"shadows":"mixed-signs"); if(c.rng.chance(0.07)){ a=Dg(); a.loose={'A'}; } if(c.rng.chance(0.07)){ b=Dg(); b.loose={'A'}; } PD pa(toPd(a,c.rng)),pb(toPd(b,c.rng)),ka(pd_copy(pa)),kb(pd_copy(pb)); pd_idx_t ea=c.rng.below(pa->nedges),eb=c.rng.below(pb->nedges); string ctx=fmt("edges %u,%u of ",ea,eb)+show(pa)+" and "+show(pb); PD r(pd_connect_sum(pa,ea,pb,eb)); valid(c,r,"csum",ctx); if(a.n&&b.n){ unchanged(c,ka,pa,"csum"); unchanged(c,kb,pb,"csum"); } Dg qa=fromPd(pa),qb=fromPd(pb); Dg e;
  if(!a.n) e=qb; else if(!b.n) e=qa; else { e=merge({qa,qb}); auto&A=pa->edge[ea]; auto&B=pb->edge[eb]; int ta=4*A.tail+A.tailpos,ha=4*A.head+A.headpos,tb=4*(B.tail+qa.n)+B.tailpos,hb=4*(B.head+qa.n)+B.headpos; e.mate[ta]=hb; e.mate[hb]=ta; e.mate[tb]=ha; e.mate[ha]=tb; }
  bool any=false; for(int o:e.over) if(o<2) any=true; int fl=any?CODE_SIGN|CODE_ORIENT:CODE_SIGN; same_diagram(c,r,e,fl,"csum",ctx); c.require(r->ncomps==pa->ncomps+pb->ncomps-1,"csum-comps",ctx); c.seen(mix(fp(qa)*3+fp(qb))+ea*131+eb);
  Poly x,y,z; if(s&&a.n&&b.n&&homfly(qa,x,20000)&&homfly(qb,y,20000)){ if(homfly(fromPd(r),z,60000)) c.require(z==mul(x,y),"csum-homfly",ctx); } c.sample(ctx); }

static void m_simplify(Case&c){ Dg d=gen(c,10); int k=(int)c.rng.below(6); while(k--){ vector<int> o; for(int x=0;x<4*d.n;x++) if(d.out[x]) o.push_back(x); d=add_loop(d,c.rng.pick(o),(int)c.rng.below(2),(int)c.rng.below(2)); } if(c.rng.chance(0.05)){ d=Dg(); d.loose={'C'}; } PD pd(toPd(d,c.rng)),keep(pd_copy(pd)); string ctx=show(pd); PD r(pd_simplify(pd)); valid(c,r,"simplify",ctx); unchanged(c,keep,pd,"simplify"); Dg q=fromPd(r); for(auto&f:faces(q)) c.require(f.size()>1,"simplify-monogon-left",show(r)+" | "+ctx); c.require(tagset(q)==tagset(d),"simplify-tags",show(r)+" | "+ctx); c.require(link2(q)==link2(d),"simplify-linking",ctx); c.require(q.n<=d.n,"simplify-grew",ctx); Poly x,y; if(homfly(d,x,60000)&&homfly(q,y,60000)) c.require(x==y,"simplify-homfly",show(r)+" | "+ctx); c.seen(fp(d)); c.maxi("removed",d.n-q.n); }

static void m_reorient(Case&c){ if(c.rng.chance(0.005)){ Dg z; z.loose={(int)c.rng.range(65,90)}; PD P(toPd(z,c.rng)),K(pd_copy(P)); pd_reorient_component(P,0,PD_NEG_ORIENTATION); string v=validate(P); c.require(v=="","reorient-zero-crossings",v); c.require(P->ncross==0&&P->ncomps==1&&P->comp[0].tag==K->comp[0].tag,"reorient-zero-crossings",show(P)); c.count("zero_crossings"); c.seen(mix(z.loose[0])); return; } int s=(int)c.rng.below(3); int n=c.rng.chance(0.01)?130+(int)c.rng.below(60):gen_n(c,18); Dg d=s==1?any_signed(c.rng,n):random_diagram(c.rng,n,s); PD pd(toPd(d,c.rng)); int steps=1+(int)c.rng.below(4); Dg q=fromPd(pd); string ctx=show(pd);
  for(int k=0;k<steps;k++){ pd_idx_t cmp=c.rng.below(pd->ncomps); int tg=pd->comp[cmp].tag; bool neg=c.rng.chance(0.8); if(c.rng.chance(0.5)){ pd_reorient_component(pd,cmp,neg?PD_NEG_ORIENTATION:PD_POS_ORIENTATION); if(neg) for(int h=0;h<4*q.n;h++) if(q.tag[h]==tg) q.out[h]=!q.out[h]; ctx+=fmt(" reorient %u %d",cmp,neg); c.count("reorient"); }
    else { pd_idx_t ofs=c.rng.chance(0.1)?(pd_idx_t)c.rng.below(200000):c.rng.below(pd->comp[cmp].nedges+3); PD b(pd_copy(pd)); pd_renumber_component(pd,cmp,ofs); ctx+=fmt(" renumber %u by %u",cmp,ofs); c.count("renumber"); 
      auto shifted=[&](pd_idx_t sh){ pd_idx_t L=b->comp[cmp].nedges; auto ren=[&](pd_idx_t x){ for(pd_idx_t k=0;k<L;k++) if(b->comp[cmp].edge[k]==x) return b->comp[cmp].edge[(k+sh)%L]; return x; };
        for(pd_idx_t j=0;j<L;j++){ auto&X=b->edge[b->comp[cmp].edge[j]]; auto&Y=pd->edge[ren(b->comp[cmp].edge[j])]; for(int p=0;p<4;p++) if(ren(b->cross[X.head].edge[(X.headpos+p)%4])!=pd->cross[Y.head].edge[(Y.headpos+p)%4]) return false; } return true; };
      pd_idx_t L=b->comp[cmp].nedges; c.require(shifted(ofs%L)||shifted((L-ofs%L)%L),"renumber-wrong-edge",ctx); }
    valid(c,pd,"reorient",ctx); same_diagram(c,pd,q,FULL,"reorient",ctx); }
  c.seen(fp(q,FULL)); c.sample(ctx); }

int main(int argc,char**argv){ return run(argc,argv,{{"r1del",m_r1del},{"r2del",m_r2del},{"r1add",m_r1add},{"r2add",m_r2add},{"r3",m_r3},{"csum",m_csum},{"simplify",m_simplify},{"reorient",m_reorient}}); }
