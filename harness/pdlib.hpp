// Independent model of link diagrams, used as the oracle side of the pd_code checks.
// A diagram is a set of 4-valent crossings; half-edge h=4*v+p is position p (counter-
// clockwise) of crossing v; mate is the edge involution.
#pragma once
#include "vp.hpp"
extern "C" {
#include "plCurve.h"
#include "plcTopology.h"
}
#include <array>
namespace pdl {
using namespace vp; using std::vector; using std::string;

struct Dg {
  int n=0;
  vector<int> mate; vector<char> out; vector<int> over; vector<int> tag; // over: 0 -> 0-2 on top, 1 -> 1-3 on top, 2 unset
  vector<int> loose; // tags of crossingless circles
  void resize(int k){ n=k; mate.assign(4*k,-1); out.assign(4*k,0); over.assign(k,2); tag.assign(4*k,0); }
};
inline int opp(int h){ return (h&~3)|((h+2)&3); }
inline int rotp(int h,int k){ return (h&~3)|((h+k)&3); }

// outgoing positions of the two strands
inline int outpos(const Dg&d,int v,int strand){ int p=strand; return d.out[4*v+p]?p:p+2; }
// +1, -1, 0 (unset)
inline int sgn(const Dg&d,int v){ if(d.over[v]==2) return 0; int o=outpos(d,v,d.over[v]), u=outpos(d,v,1-d.over[v]); return (u==((o+1)&3))?1:-1; }
inline void setsgn(Dg&d,int v,int s){ if(s==0){d.over[v]=2;return;} d.over[v]=0; if(sgn(d,v)!=s) d.over[v]=1; }

struct Comp { vector<int> h; int tag; }; // outgoing half-edges in order of travel
inline vector<Comp> comps(const Dg&d){ vector<Comp> r; vector<char> seen(4*d.n,0);
  for(int s=0;s<4*d.n;s++) if(d.out[s]&&!seen[s]){ Comp c; c.tag=d.tag[s]; int h=s; do{ seen[h]=1; c.h.push_back(h); h=opp(d.mate[h]); }while(h!=s); r.push_back(c);} return r; }
// faces as cycles of half-edges h (edge leaving vertex along h, face on the left); next corner turns left.
// pd faces: consecutive edges satisfy next.tailpos+1 == this.headpos, i.e. the next edge leaves at position headpos-1.
inline vector<vector<int>> faces(const Dg&d){ vector<vector<int>> r; vector<char> seen(4*d.n,0);
  for(int s=0;s<4*d.n;s++) if(!seen[s]){ vector<int> f; int h=s; do{ seen[h]=1; f.push_back(h); h=rotp(d.mate[h],3);}while(h!=s); r.push_back(f);} return r; }
inline bool connected(const Dg&d){ if(d.n==0) return d.loose.size()<=1; vector<int> st{0}; vector<char> s(d.n,0); s[0]=1; int k=1; while(!st.empty()){int v=st.back();st.pop_back(); for(int p=0;p<4;p++){int w=d.mate[4*v+p]/4; if(!s[w]){s[w]=1;k++;st.push_back(w);}}} return k==d.n && d.loose.empty(); }

// ---- orientation and tags -------------------------------------------------------------
inline void orient_and_tag(Dg&d,Rng&r,bool randomtags=true){
  vector<char> seen(4*d.n,0); vector<int> tags; for(int t='A';t<'A'+26+6+26;t++) tags.push_back(t); if(randomtags) r.shuffle(tags); size_t ti=0;
  vector<int> order; for(int i=0;i<4*d.n;i++) order.push_back(i); r.shuffle(order);
  for(int s:order) if(!seen[s]){ int t = ti<tags.size()? tags[ti]:('A'+(int)ti); ti++; int h=s; do{ d.out[h]=1; d.out[d.mate[h]]=0; seen[h]=seen[d.mate[h]]=1; d.tag[h]=d.tag[d.mate[h]]=t; h=opp(d.mate[h]); }while(h!=s);} }
// ---- random connected 4-valent plane maps: medial graphs of random plane maps ------------
inline Dg random_shadow(Rng&r,int n,double loopy=0.3,double local=0.5){
  vector<int> sg(2*n),inv(2*n); int m=0;
  auto setp=[&](int a,int b){ sg[a]=b; inv[b]=a; };
  if(n==0){ Dg d; return d; }
  if(r.chance(0.5)){ setp(0,0); setp(1,1);} else { setp(0,1); setp(1,0);} m=1;
  auto ins=[&](int x,int d){ int t=sg[d]; setp(d,x); setp(x,t); };
  while(m<n){ int x=2*m,y=2*m+1; int c=(int)r.below(2*m);
    if(r.chance(loopy)){ ins(x,c); setp(y,y); if(r.chance(0.5)){} }
    else { int c2=c; int steps= r.chance(local)? (int)r.below(4):(int)r.below(4*m+1); for(int k=0;k<steps;k++) c2=inv[c2^1];
      ins(x,c); if(c2==c){ if(r.chance(0.5)) ins(y,x); else ins(y,c);} else ins(y,c2); }
    m++; }
  Dg d; d.resize(n);
  auto L=[&](int dt){ int e=dt/2; return 4*e+((dt&1)?3:1); }; auto R=[&](int dt){ int e=dt/2; return 4*e+((dt&1)?0:2); };
  for(int t=0;t<2*n;t++){ int a=L(t),b=R(sg[t]); d.mate[a]=b; d.mate[b]=a; }
  return d; }
inline Dg random_diagram(Rng&r,int n,int signs=1/*0 unset,1 all,2 mixed*/){ Dg d=random_shadow(r,n,r.unif(0.05,0.6),r.unif()); orient_and_tag(d,r); for(int v=0;v<n;v++){ d.over[v]= signs==0?2: signs==1?(int)r.below(2):(int)r.below(3);} if(n==0) d.loose={'A'+(int)r.below(20)}; return d; }
// signed diagrams with more knotting: chord-heavy shadows, (nearly) alternating heights
inline Dg knotty(Rng&r,int n){ Dg d; for(int t=0;t<12;t++){ d=random_shadow(r,n,r.chance(0.3)?0.1:0.0,r.unif(0,0.6)); bool mono=false; for(int h=0;h<4*n;h++) if(d.mate[h]==rotp(h,1)) mono=true; if(!mono) break; } orient_and_tag(d,r); int o=(int)r.below(2); double p=r.chance(0.4)?0.0:r.chance(0.5)?0.15:0.5; for(int v=0;v<n;v++) d.over[v]=r.chance(p)?1-o:o; return d; }
inline Dg mirror_over(Dg d); inline Dg braid_closure(Rng&r,int strands,int len,double positive);
inline Dg any_signed(Rng&r,int n){ if(n>=4&&r.chance(0.25)){ int s=2+(int)r.below(std::min(4,n-2)); return braid_closure(r,s,n,r.chance(0.4)?1.0:r.chance(0.5)?0.8:0.5); } return r.chance(0.6)? knotty(r,n):random_diagram(r,n,1); }
// closure of a braid word (crossing ccw: bottom left, bottom right, top right, top left)
inline Dg braid_closure(Rng&r,int strands,int len,double positive){ vector<int> w; for(int i=0;i<strands-1;i++) w.push_back(i); while((int)w.size()<len) w.push_back((int)r.below(strands-1)); r.shuffle(w); Dg d; int n=(int)w.size(); d.resize(n); vector<int> bot(strands,-1),cur(strands,-1); auto join=[&](int a,int b){ d.mate[a]=b; d.mate[b]=a; };
  for(int v=0;v<n;v++){ int i=w[v]; for(int k=0;k<2;k++){ int h=4*v+k; if(cur[i+k]<0) bot[i+k]=h; else join(cur[i+k],h); } cur[i]=4*v+3; cur[i+1]=4*v+2; d.over[v]=r.chance(positive)?0:1; }
  for(int i=0;i<strands;i++) join(cur[i],bot[i]); orient_and_tag(d,r); if(r.chance(0.7)){ // all strands upwards
    for(int v=0;v<n;v++){ d.out[4*v]=d.out[4*v+1]=0; d.out[4*v+2]=d.out[4*v+3]=1; } } return d; }
inline Dg mirror_over(Dg d){ for(auto&o:d.over) if(o<2) o=1-o; return d; }
// reflect the plane: cyclic order reversed; heights kept
inline Dg reflect(const Dg&d){ Dg r=d; auto f=[&](int h){ return (h&~3)|((4-(h&3))&3); }; for(int h=0;h<4*d.n;h++){ r.mate[f(h)]=f(d.mate[h]); r.out[f(h)]=d.out[h]; r.tag[f(h)]=d.tag[h]; } return r; }
// relabel crossings and rotate position labels
inline Dg relabel(const Dg&d,Rng&r){ vector<int> p(d.n),k(d.n); for(int i=0;i<d.n;i++){p[i]=i;k[i]=(int)r.below(4);} r.shuffle(p); Dg e; e.resize(d.n); e.loose=d.loose; auto f=[&](int h){int v=h/4; return 4*p[v]+(((h&3)+k[v])&3);}; for(int h=0;h<4*d.n;h++){ e.mate[f(h)]=f(d.mate[h]); e.out[f(h)]=d.out[h]; e.tag[f(h)]=d.tag[h]; } for(int v=0;v<d.n;v++) e.over[p[v]]= d.over[v]==2?2:((d.over[v]+k[v])&1); return e; }

// ---- canonical codes --------------------------------------------------------------------
enum { CODE_SIGN=1, CODE_ORIENT=2, CODE_TAG=4, CODE_REFLECT=8 };
inline void rooted(const Dg&d,int root,int dir,int fl,vector<int>&code){ code.clear(); vector<int> num(d.n,-1),first(d.n),ord; auto enter=[&](int h){int v=h/4; num[v]=(int)ord.size(); first[v]=h&3; ord.push_back(v);}; enter(root);
  for(size_t i=0;i<ord.size();i++){ int v=ord[i]; code.push_back((fl&CODE_SIGN)? sgn(d,v)+1:0); for(int k=0;k<4;k++){ int h=4*v+((first[v]+dir*k)&3); int m=d.mate[h]; int w=m/4; if(num[w]<0) enter(m); int rel=((m&3)-first[w])*dir; code.push_back(num[w]*4+(rel&3)); if(fl&CODE_ORIENT) code.push_back(d.out[h]); if(fl&CODE_TAG) code.push_back(d.tag[h]); } } }
inline vector<int> canon(const Dg&d,int fl){ vector<int> best,c; for(int s=0;s<4*d.n;s++) for(int dir=1;dir>=-1;dir-=2){ if(dir<0&&!(fl&CODE_REFLECT)) continue; rooted(d,s,dir,fl,c); if(best.empty()||c<best) best=c; } if(d.n==0&&(fl&CODE_TAG)) for(int t:d.loose) best.push_back(t); best.push_back(-1-d.n); return best; }
inline long count_autos(const Dg&d,int fl){ vector<int> base,c; long k=0; if(!d.n) return 0; rooted(d,0,1,fl,base); for(int s=0;s<4*d.n;s++) for(int dir=1;dir>=-1;dir-=2){ if(dir<0&&!(fl&CODE_REFLECT)) continue; rooted(d,s,dir,fl,c); if(c==base) k++; } return k; }
inline u64 fp(const vector<int>&v){ u64 h=v.size(); for(int x:v) h=mix(h^(u64)(unsigned)x); return h; }
inline u64 fp(const Dg&d,int fl=CODE_SIGN|CODE_ORIENT){ return fp(canon(d,fl)); }

// ---- Dg -> pd_code, filled in completely by hand -------------------------------------------
inline pd_code_t* toPd(const Dg&d,Rng&r,int slack=0){
  pd_code_t*pd=pd_code_new(std::max(1,d.n)+slack);
  if(d.n==0){ pd->ncross=0; pd->nedges=1; pd->ncomps=1; pd->nfaces=2; pd->edge[0].head=pd->edge[0].tail=PD_UNSET_IDX; pd->edge[0].headpos=pd->edge[0].tailpos=PD_UNSET_POS;
    pd->comp[0].nedges=1; pd->comp[0].edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); pd->comp[0].tag=(pd_tag_t)(d.loose.empty()?'A':d.loose[0]);
    for(int f=0;f<2;f++){ pd->face[f].nedges=1; pd->face[f].edge=(pd_idx_t*)calloc(1,sizeof(pd_idx_t)); pd->face[f].orient=(pd_or_t*)calloc(1,sizeof(pd_or_t)); pd->face[f].orient[0]= f==0?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; }
    pd_regenerate_hash(pd); return pd; }
  vector<Comp> cs=comps(d); r.shuffle(cs); std::stable_sort(cs.begin(),cs.end(),[](const Comp&a,const Comp&b){return a.h.size()>b.h.size();});
  vector<int> eno(4*d.n,-1); int ne=0; vector<int> tails;
  for(size_t k=0;k<cs.size();k++){ Comp&c=cs[k]; size_t rot=r.below(c.h.size()); std::rotate(c.h.begin(),c.h.begin()+rot,c.h.end()); pd->comp[k].nedges=c.h.size(); pd->comp[k].edge=(pd_idx_t*)calloc(c.h.size(),sizeof(pd_idx_t)); pd->comp[k].tag=(pd_tag_t)c.tag; for(size_t j=0;j<c.h.size();j++){ pd->comp[k].edge[j]=ne; eno[c.h[j]]=eno[d.mate[c.h[j]]]=ne; tails.push_back(c.h[j]); ne++; } }
  pd->ncomps=cs.size(); pd->nedges=ne; pd->ncross=d.n;
  struct CR{ std::array<int,4> e; int v,rot; }; vector<CR> cr(d.n);
  for(int v=0;v<d.n;v++){ bool first=true; for(int k=0;k<4;k++){ std::array<int,4> a; for(int p=0;p<4;p++) a[p]=eno[4*v+((p+k)&3)]; if(first||a<cr[v].e){ cr[v].e=a; cr[v].rot=k; cr[v].v=v; first=false; } } }
  std::sort(cr.begin(),cr.end(),[](const CR&a,const CR&b){return a.e!=b.e? a.e<b.e : a.v<b.v;});
  vector<int> pos(d.n),rot(d.n); for(int i=0;i<d.n;i++){ pos[cr[i].v]=i; rot[cr[i].v]=cr[i].rot; for(int p=0;p<4;p++) pd->cross[i].edge[p]=cr[i].e[p]; int s=sgn(d,cr[i].v); pd->cross[i].sign= s==0?PD_UNSET_ORIENTATION: s>0?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; }
  for(int e=0;e<ne;e++){ int t=tails[e],h=d.mate[t]; pd->edge[e].tail=pos[t/4]; pd->edge[e].tailpos=((t&3)-rot[t/4])&3; pd->edge[e].head=pos[h/4]; pd->edge[e].headpos=((h&3)-rot[h/4])&3; }
  auto fs=faces(d); vector<vector<std::pair<int,int>>> ff; for(auto&f:fs){ vector<std::pair<int,int>> g; for(int h:f) g.push_back({eno[h],d.out[h]?1:0}); size_t b=0; for(size_t k=1;k<g.size();k++) if(g[k].first<g[b].first) b=k; std::rotate(g.begin(),g.begin()+b,g.end()); ff.push_back(g);} 
  std::sort(ff.begin(),ff.end(),[](const auto&a,const auto&b){ if(a.size()!=b.size()) return a.size()>b.size(); for(size_t i=0;i<a.size();i++) if(a[i].first!=b[i].first) return a[i].first<b[i].first; return a<b; });
  pd->nfaces=ff.size(); for(size_t k=0;k<ff.size();k++){ pd->face[k].nedges=ff[k].size(); pd->face[k].edge=(pd_idx_t*)calloc(ff[k].size(),sizeof(pd_idx_t)); pd->face[k].orient=(pd_or_t*)calloc(ff[k].size(),sizeof(pd_or_t)); for(size_t j=0;j<ff[k].size();j++){ pd->face[k].edge[j]=ff[k][j].first; pd->face[k].orient[j]=ff[k][j].second?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; } }
  pd_regenerate_hash(pd); return pd; }

// ---- validator: "" if pd is a well-formed diagram ------------------------------------------
inline string validate(const pd_code_t*pd){
  if(!pd) return "null"; 
  if(pd->ncross>pd->MAXVERTS) return "ncross>MAXVERTS"; if(pd->nedges>pd->MAXEDGES) return "nedges>MAXEDGES"; if(pd->ncomps>pd->MAXCOMPONENTS) return "ncomps>MAX"; if(pd->nfaces>pd->MAXFACES) return "nfaces>MAX";
  if(pd->ncross==0){ if(pd->nedges!=1||pd->ncomps!=1||pd->nfaces!=2) return "bad 0-crossing counts"; if(pd->edge[0].head!=PD_UNSET_IDX||pd->edge[0].tail!=PD_UNSET_IDX||pd->edge[0].headpos!=PD_UNSET_POS||pd->edge[0].tailpos!=PD_UNSET_POS) return "0-crossing edge"; if(pd->comp[0].nedges!=1||pd->comp[0].edge[0]!=0) return "0-crossing comp"; if(pd->comp[0].tag<'A') return "0-crossing tag"; int s=0; for(int f=0;f<2;f++){ if(pd->face[f].nedges!=1||pd->face[f].edge[0]!=0) return "0-crossing face"; s+=pd->face[f].orient[0]; if(pd->face[f].orient[0]>1) return "0-crossing face orientation"; } if(s!=1) return "0-crossing face orientations"; return ""; }
  if(pd->nedges!=2*pd->ncross) return "nedges!=2ncross"; if(pd->nfaces!=pd->ncross+2) return fmt("nfaces %u != ncross+2",pd->nfaces);
  vector<int> cnt(pd->nedges,0);
  for(pd_idx_t c=0;c<pd->ncross;c++){ if(pd->cross[c].sign>2) return "sign"; for(int p=0;p<4;p++){ pd_idx_t e=pd->cross[c].edge[p]; if(e>=pd->nedges) return "cross edge range"; cnt[e]++; if(e<pd->cross[c].edge[0]) return fmt("crossing %u not rotated to lowest edge",c);} if(c){ for(int p=0;p<4;p++){ if(pd->cross[c].edge[p]!=pd->cross[c-1].edge[p]){ if(pd->cross[c].edge[p]<pd->cross[c-1].edge[p]) return fmt("crossings %u,%u out of order",c-1,c); break; } } } }
  for(auto x:cnt) if(x!=2) return "edge not seen twice";
  for(pd_idx_t e=0;e<pd->nedges;e++){ auto&E=pd->edge[e]; if(E.head>=pd->ncross||E.tail>=pd->ncross||E.headpos>3||E.tailpos>3) return fmt("edge %u range",e); if(pd->cross[E.head].edge[E.headpos]!=e) return fmt("edge %u head",e); if(pd->cross[E.tail].edge[E.tailpos]!=e) return fmt("edge %u tail",e); if(E.head==E.tail&&E.headpos==E.tailpos) return fmt("edge %u degenerate",e); }
  pd_idx_t nx=0; std::set<int> tags; for(pd_idx_t c=0;c<pd->ncomps;c++){ auto&C=pd->comp[c]; if(C.nedges==0||!C.edge) return "empty comp"; if(c&&C.nedges>pd->comp[c-1].nedges) return "comps out of order"; if(C.tag<'A') return fmt("comp %u tag %d",c,C.tag); if(!tags.insert(C.tag).second) return "duplicate tag"; for(pd_idx_t k=0;k<C.nedges;k++){ if(C.edge[k]!=nx) return fmt("comp %u edges not consecutive",c); nx++; if(nx>pd->nedges) return "comp edge range"; } for(pd_idx_t k=0;k<C.nedges;k++){ auto&a=pd->edge[C.edge[k]]; auto&b=pd->edge[C.edge[(k+1)%C.nedges]]; if(a.head!=b.tail||((a.headpos+2)&3)!=b.tailpos) return fmt("comp %u not a straight path at %u",c,k); } }
  if(nx!=pd->nedges) return "comps do not cover edges";
  std::set<std::pair<pd_idx_t,int>> fe; for(pd_idx_t f=0;f<pd->nfaces;f++){ auto&F=pd->face[f]; if(F.nedges==0||!F.edge||!F.orient) return "empty face"; if(f&&F.nedges>pd->face[f-1].nedges) return "faces out of order"; if(f&&F.nedges==pd->face[f-1].nedges){ for(pd_idx_t k=0;k<F.nedges;k++) if(F.edge[k]!=pd->face[f-1].edge[k]){ if(F.edge[k]<pd->face[f-1].edge[k]) return "faces out of dictionary order"; break; } }
    for(pd_idx_t k=0;k<F.nedges;k++){ if(F.edge[k]>=pd->nedges||F.orient[k]>1) return "face entry range"; if(F.edge[k]<F.edge[0]) return "face not rotated"; if(!fe.insert({F.edge[k],F.orient[k]}).second) return "face entry repeated"; pd_idx_t j=(k+1)%F.nedges; if(F.edge[j]>=pd->nedges) return "face entry range"; auto&a=pd->edge[F.edge[k]]; auto&b=pd->edge[F.edge[j]]; pd_idx_t ah=F.orient[k]?a.head:a.tail; int ap=F.orient[k]?a.headpos:a.tailpos; pd_idx_t bt=F.orient[j]?b.tail:b.head; int bp=F.orient[j]?b.tailpos:b.headpos; if(ah!=bt||((bp+1)&3)!=ap) return fmt("face %u turn at %u",f,k); } }
  if(fe.size()!=2*pd->nedges) return "faces do not cover edges";
  // hash is a printable nul-terminated string
  if(!memchr(pd->hash,0,PD_HASHSIZE)) return "hash unterminated";
  return ""; }

inline Dg fromPd(const pd_code_t*pd){ Dg d; if(pd->ncross==0){ d.loose.push_back(pd->comp[0].tag); return d; } d.resize(pd->ncross); for(pd_idx_t e=0;e<pd->nedges;e++){ auto&E=pd->edge[e]; int t=4*E.tail+E.tailpos,h=4*E.head+E.headpos; d.mate[t]=h; d.mate[h]=t; d.out[t]=1; d.out[h]=0; }
  for(pd_idx_t c=0;c<pd->ncomps;c++) for(pd_idx_t k=0;k<pd->comp[c].nedges;k++){ auto&E=pd->edge[pd->comp[c].edge[k]]; d.tag[4*E.tail+E.tailpos]=d.tag[4*E.head+E.headpos]=pd->comp[c].tag; }
  for(pd_idx_t v=0;v<pd->ncross;v++) setsgn(d,v,pd->cross[v].sign==PD_POS_ORIENTATION?1:pd->cross[v].sign==PD_NEG_ORIENTATION?-1:0); return d; }

inline string show(const pd_code_t*pd){ if(!pd) return "(null)"; string s=fmt("pd nv=%u:",pd->ncross); for(pd_idx_t c=0;c<pd->ncross&&c<40;c++) s+=fmt("[%u %u %u %u %c]",pd->cross[c].edge[0],pd->cross[c].edge[1],pd->cross[c].edge[2],pd->cross[c].edge[3],"-+U?"[std::min<int>(3,pd->cross[c].sign)]); s+=" comps"; for(pd_idx_t c=0;c<pd->ncomps&&c<20;c++) s+=fmt(" %c%u",pd->comp[c].tag,pd->comp[c].nedges); return s; }
inline string show(const Dg&d){ string s=fmt("n=%d:",d.n); for(int v=0;v<d.n&&v<40;v++){ s+="("; for(int p=0;p<4;p++) s+=fmt("%d%s ",d.mate[4*v+p],d.out[4*v+p]?">":"<"); s+=fmt("o%d)",d.over[v]); } s+=fmt(" loose=%zu",d.loose.size()); return s; }

// exact equality of all documented fields
inline string same(const pd_code_t*a,const pd_code_t*b,bool uid=true,bool hash=true){ if(a->ncross!=b->ncross) return "ncross"; if(a->nedges!=b->nedges) return "nedges"; if(a->ncomps!=b->ncomps) return "ncomps"; if(a->nfaces!=b->nfaces) return "nfaces"; if(uid&&a->uid!=b->uid) return "uid"; if(hash&&strncmp(a->hash,b->hash,PD_HASHSIZE)) return "hash";
  for(pd_idx_t i=0;i<a->ncross;i++){ if(memcmp(a->cross[i].edge,b->cross[i].edge,sizeof a->cross[i].edge)) return "cross"; if(a->cross[i].sign!=b->cross[i].sign) return "sign"; }
  for(pd_idx_t i=0;i<a->nedges;i++){ auto&x=a->edge[i]; auto&y=b->edge[i]; if(x.head!=y.head||x.tail!=y.tail||x.headpos!=y.headpos||x.tailpos!=y.tailpos) return "edge"; }
  for(pd_idx_t i=0;i<a->ncomps;i++){ auto&x=a->comp[i]; auto&y=b->comp[i]; if(x.nedges!=y.nedges) return "comp nedges"; if(x.tag!=y.tag) return "tag"; for(pd_idx_t k=0;k<x.nedges;k++) if(x.edge[k]!=y.edge[k]) return "comp edge"; }
  for(pd_idx_t i=0;i<a->nfaces;i++){ auto&x=a->face[i]; auto&y=b->face[i]; if(x.nedges!=y.nedges) return "face nedges"; for(pd_idx_t k=0;k<x.nedges;k++) if(x.edge[k]!=y.edge[k]||x.orient[k]!=y.orient[k]) return "face entry"; }
  return ""; }

// ---- invariants ---------------------------------------------------------------------------
typedef std::map<std::pair<int,int>,long long> Poly; // (l exponent, m exponent) -> coefficient
inline void addto(Poly&a,const Poly&b,long long k=1,int dl=0,int dm=0){ for(auto&t:b){ auto key=std::make_pair(t.first.first+dl,t.first.second+dm); long long&x=a[key]; x+=k*t.second; if(!x) a.erase(key);} }
inline Poly mul(const Poly&a,const Poly&b){ Poly r; for(auto&t:a) addto(r,b,t.second,t.first.first,t.first.second); return r; }
inline Poly delta_pow(int k){ Poly d; d[{1,-1}]=-1; d[{-1,-1}]=-1; Poly r; r[{0,0}]=1; while(k-->0) r=mul(r,d); return r; }
inline string show(const Poly&p){ string s; for(auto&t:p) s+=fmt("%+lld l^%d m^%d ",t.second,t.first.first,t.first.second); return s; }

// remove crossing v by joining half-edges pairwise: join(a,b): strands ending at a and b (both at v) get connected
inline void joinv(Dg&d,int a,int b){ int x=d.mate[a],y=d.mate[b]; if(x==b){ // closed circle
    d.loose.push_back(d.tag[a]); d.mate[a]=a; d.mate[b]=b; return; }
  d.mate[x]=y; d.mate[y]=x; d.mate[a]=a; d.mate[b]=b; }
// (x or y may be another half-edge of v that is joined later; that works because mate is updated)
inline Dg dropv(const Dg&d,const vector<int>&vs){ vector<char> del(d.n,0); for(int v:vs) del[v]=1; vector<int> nn(d.n,-1); int k=0; for(int v=0;v<d.n;v++) if(!del[v]) nn[v]=k++; Dg e; e.resize(k); e.loose=d.loose; for(int v=0;v<d.n;v++) if(!del[v]){ e.over[nn[v]]=d.over[v]; for(int p=0;p<4;p++){ int m=d.mate[4*v+p]; e.mate[4*nn[v]+p]=4*nn[m/4]+(m&3); e.out[4*nn[v]+p]=d.out[4*v+p]; e.tag[4*nn[v]+p]=d.tag[4*v+p]; } } return e; }
inline Dg smooth(const Dg&d,int v){ Dg e=d; int o0=outpos(d,v,0),o1=outpos(d,v,1); // oriented smoothing: in of strand 0 -> out of strand 1 and vice versa
  int i0=o0^2,i1=o1^2; joinv(e,4*v+i0,4*v+o1); joinv(e,4*v+i1,4*v+o0); return dropv(e,{v}); }
inline Dg uncross(const Dg&d,const vector<int>&vs){ Dg e=d; for(int v:vs){ joinv(e,4*v,4*v+2); joinv(e,4*v+1,4*v+3);} return dropv(e,vs); } // strands pass through each other

// remove nugatory loops cheaply (R1), keeps the skein tree small
inline void r1reduce(Dg&d){ bool ch=true; while(ch){ ch=false; for(int v=0;v<d.n&&!ch;v++) for(int p=0;p<4&&!ch;p++) if(d.mate[4*v+p]==4*v+((p+1)&3)){ Dg e=d; int a=4*v+((p+2)&3),b=4*v+((p+3)&3); e.mate[4*v+p]=4*v+p; e.mate[4*v+((p+1)&3)]=4*v+((p+1)&3); joinv(e,a,b); d=dropv(e,{v}); ch=true; } } }

// skein: l P(+) + l^-1 P(-) + m P(0) = 0
struct SkeinBudget{ long left; };
inline bool homfly_rec(Dg d,Poly&out,SkeinBudget&bud){ if(--bud.left<0) return false; r1reduce(d);
  // descending from a fixed base point on each component
  vector<int> firstpass(d.n,0); auto cs=comps(d); int bad=-1;
  for(auto&c:cs){ for(int h:c.h){ int m=d.mate[h]; int v=m/4; if(!firstpass[v]){ firstpass[v]=1; int strand=m&1; if(d.over[v]!=strand){ bad=v; break; } } } if(bad>=0) break; }
  if(bad<0){ out=delta_pow((int)(cs.size()+d.loose.size())-1); return true; }
  int s=sgn(d,bad); Dg sw=d; sw.over[bad]=1-sw.over[bad]; Dg sm=smooth(d,bad); Poly a,b; if(!homfly_rec(std::move(sw),a,bud)) return false; if(!homfly_rec(std::move(sm),b,bud)) return false; out.clear();
  // s=+1: P(+) = -l^-2 P(-) - l^-1 m P(0);  s=-1: P(-) = -l^2 P(+) - l m P(0)
  if(s>0){ addto(out,a,-1,-2,0); addto(out,b,-1,-1,1);} else { addto(out,a,-1,2,0); addto(out,b,-1,1,1);} return true; }
inline bool homfly(const Dg&d,Poly&p,long budget=200000){ SkeinBudget b{budget}; for(int v=0;v<d.n;v++) if(d.over[v]==2) return false; return homfly_rec(d,p,b); }

// parse library output such as "-2a^{2} - a^{4} + a^{2}z^{2}" ; returns false if malformed
inline bool parse_poly(const char*s,Poly&p){ p.clear(); const char*q=s; auto sp=[&]{ while(*q==' ') q++; }; sp(); if(!*q) return false; 
  while(*q){ int sg=1; sp(); if(*q=='+'){q++;} else if(*q=='-'){sg=-1;q++;} sp(); long long c=1; bool any=false; if(isdigit((unsigned char)*q)){ c=strtoll(q,(char**)&q,10); any=true; } int ea=0,ez=0; sp(); for(int w=0;w<2;w++){ char var=w?'z':'a'; if(*q==var){ q++; any=true; int e=1; if(*q=='^'){ q++; bool br=*q=='{'; if(br) q++; char*en; e=(int)strtol(q,&en,10); if(en==q) return false; q=en; if(br){ if(*q!='}') return false; q++; } } (w?ez:ea)=e; } sp(); } if(!any) return false; long long&x=p[{ea,ez}]; x+=sg*c; if(!x) p.erase({ea,ez}); sp(); if(*q&&*q!='+'&&*q!='-') return false; }
  return true; }
inline Poly mirror(const Poly&p){ Poly r; for(auto&t:p) r[{-t.first.first,t.first.second}]=t.second; return r; }

// linking numbers by tag pair (twice the linking number, to stay integral), self = writhe
inline std::map<std::pair<int,int>,int> link2(const Dg&d){ std::map<std::pair<int,int>,int> r; for(int v=0;v<d.n;v++){ int a=d.tag[4*v],b=d.tag[4*v+1]; if(a!=b) r[{std::min(a,b),std::max(a,b)}]+=sgn(d,v); } for(auto it=r.begin();it!=r.end();) if(!it->second) it=r.erase(it); else ++it; return r; }
inline std::multiset<int> tagset(const Dg&d){ std::multiset<int> r; for(auto&c:comps(d)) r.insert(c.tag); for(int t:d.loose) r.insert(t); return r; }
// disjoint union of diagrams
inline Dg merge(const vector<Dg>&ds){ Dg r; int n=0; for(auto&d:ds) n+=d.n; r.resize(n); int k=0; for(auto&d:ds){ for(int h=0;h<4*d.n;h++){ r.mate[4*k+h]=4*k+d.mate[h]; r.out[4*k+h]=d.out[h]; r.tag[4*k+h]=d.tag[h]; } for(int v=0;v<d.n;v++) r.over[k+v]=d.over[v]; k+=d.n; for(int t:d.loose) r.loose.push_back(t);} return r; }
inline long& homfly_big(){ static long b=0; return b; }
} // namespace pdl
