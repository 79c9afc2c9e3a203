// Polygonal space curves: files, editing, constraints, measurements, splines, symmetries, queries.
#include "plclib.hpp"
#include <gsl/gsl_combination.h>
using namespace plm;
static string text(plCurve*L){ char*b=0; size_t n=0; FILE*f=open_memstream(&b,&n); plc_write(f,L); fclose(f); string s(b,n); free(b); return s; }
struct RdR { plCurve*L; int err; string msg; };
static RdR readf(FILE*f){ char es[300]="?"; int e=-1; plCurve*L=plc_read(f,&e,es,sizeof es); return {L,e,es}; }
static RdR reads(const string&s){ string t=s; FILE*f=fmemopen((void*)t.data(),t.size(),"r"); RdR r=readf(f); fclose(f); return r; }
static double iscale(const Curve&c){ double m=1e-300; for(auto&s:c) for(auto&v:s.v) for(int i=0;i<3;i++) m=std::max(m,fabs(v[i])); return m; }
// relative comparison coordinate by coordinate, as a decimal text file must give
static bool rel(double a,double b){ return fabs(a-b)<=3e-16*fabs(b)*2; }
static string diff_rel(plCurve*L,const Curve&c){ Curve d=c; if(L->nc!=(int)c.size()) return "nc"; for(int i=0;i<L->nc;i++){ if(L->cp[i].nv!=(int)c[i].v.size()||L->cp[i].cc!=(int)c[i].clr.size()) return fmt("comp %d sizes",i); for(int j=0;j<L->cp[i].nv;j++) for(int k=0;k<3;k++){ double a=L->cp[i].vt[j].c[k]; if(!rel(a,c[i].v[j][k])) return fmt("comp %d vertex %d coord %d: %.17g want %.17g",i,j,k,a,c[i].v[j][k]); d[i].v[j][k]=a; } for(int j=0;j<L->cp[i].cc;j++){ double*q=&L->cp[i].clr[j].r; double z[4]={q[0],L->cp[i].clr[j].g,L->cp[i].clr[j].b,L->cp[i].clr[j].alpha}; for(int k=0;k<4;k++){ if(!rel(z[k],c[i].clr[j].c[k])) return fmt("comp %d colour %d",i,j); d[i].clr[j].c[k]=z[k]; } }
    for(int j=0;j<L->cp[i].nv;j++){ Cst g=cstof(L,i,j),w=j<(int)c[i].cst.size()?c[i].cst[j]:Cst(); if(g.kind!=w.kind) return fmt("comp %d vertex %d constraint kind %d want %d",i,j,g.kind,w.kind); if(!w.kind) continue; for(int k=0;k<3;k++) if(!rel(g.a[k],w.a[k])) return fmt("comp %d vertex %d constraint first vector %.17g want %.17g",i,j,g.a[k],w.a[k]); int nb=w.kind==line?3:w.kind==plane?1:0; for(int k=0;k<nb;k++) if(!rel(g.b[k],w.b[k])) return fmt("comp %d vertex %d constraint second vector %.17g want %.17g",i,j,g.b[k],w.b[k]); d[i].cst[j]=g; } }
  return diff(L,d); }
// independent reading of the text
static string parse_vect(const string&s,const Curve&c){ string body; bool cm=false; for(char ch:s){ if(ch=='#') cm=true; if(ch=='\n') cm=false; if(!cm) body+=ch; } std::istringstream is(body); string w; is>>w; if(w!="VECT") return "no VECT"; long nc,nv,nk; if(!(is>>nc>>nv>>nk)) return "header"; long tv=0,tc=0; for(auto&k:c){ tv+=k.v.size(); tc+=k.clr.size(); } if(nc!=(long)c.size()||nv!=tv||nk!=tc) return fmt("header says %ld %ld %ld",nc,nv,nk); for(auto&k:c){ long n; if(!(is>>n)||n!=(k.open?1:-1)*(long)k.v.size()) return "vertex counts"; } for(auto&k:c){ long n; if(!(is>>n)||n!=(long)k.clr.size()) return "colour counts"; } auto num=[&](double x){ string t; if(!(is>>t)) return false; char*e; double d=strtod(t.c_str(),&e); return *e==0&&rel(d,x); }; for(auto&k:c) for(auto&v:k.v) for(int i=0;i<3;i++) if(!num(v[i])) return "coordinates"; for(auto&k:c) for(auto&q:k.clr) for(int i=0;i<4;i++) if(!num(q.c[i])) return "colours"; if(is>>w) return "trailing "+w; return ""; }
static void m_vect(Case&c){ Gen g; g.maxnv=c.rng.chance(0.05)?60:12; if(c.rng.chance(0.1)) g.maxnc=14; Curve k=curve(c.rng,g); if(c.rng.chance(0.15)) for(auto&s:k) for(size_t j=0;j<s.v.size();j++){ s.cst[j].kind=fixed; s.cst[j].a=point(c.rng,0); s.cst[j].b=mk(0,0,0); } PL L(toPlc(k)); string d0=diff(L,k); c.require(d0=="","new-curve",d0+" "+show(k)); string t=text(L); string after=diff(L,k); c.require(after=="","write-modified-curve",after);
  string p=parse_vect(t,k); c.require(p=="","vect-text",p+" in "+t.substr(0,600)); RdR r=reads(t); c.require(r.L&&r.err==0,"vect-unreadable",r.msg+" in "+t.substr(0,600)); PL M(r.L); string d=diff_rel(M,k); c.require(d=="","vect-round-trip",d+" in "+t.substr(0,900)); string cl=cst_list_ok(M); c.require(cl=="","vect-constraint-list",cl);
  bool nocol=true; for(auto&s:k) if(s.clr.size()) nocol=false; if(c.rng.chance(0.2)&&(nocol||k.back().clr.size())){ Curve k2=curve(c.rng,g); PL L2(toPlc(k2)); string both=t+text(L2); FILE*f=fmemopen((void*)both.data(),both.size(),"r"); RdR a=readf(f),b=readf(f); fclose(f); PL A(a.L),B(b.L); c.require(a.L&&b.L,"vect-sequence",a.msg+b.msg); c.require(diff_rel(A,k)==""&&diff_rel(B,k2)=="","vect-sequence-content"); c.count("sequences"); }
  int nk=0; for(auto&s:k) for(auto&q:s.cst) nk+=q.kind!=0; if(nk) c.count("with_constraints"); c.maxi("components",k.size()); c.seen(fp(k)); c.sample(t.substr(0,300)); }
static string cmt(Rng&r){ static const char*w[]={"vertices","  open ","12 13","# # x","","VECT","a comment","3.5 2.1 9"}; return string("#")+w[r.below(8)]+"\n"; }
static string sep(Rng&r){ string s=r.chance(0.6)?" ":r.chance(0.5)?"\n":r.chance(0.5)?" \t ":"\n\n "; if(r.chance(0.08)) s+=cmt(r); return s; }
static string dnum(Rng&r,double x){ switch(r.below(4)){ case 0: return fmt("%.17g",x); case 1: return fmt("%.17e",x); case 2: return x>=0?fmt("+%.17g",x):fmt("%.17g",x); default: return fmt("%.17E",x); } }
static string hand(Rng&r,const Curve&k,vector<Cst>&pool){ // text a person or another program might write; constraints by number
  long tv=0,tc=0; for(auto&s:k){ tv+=s.v.size(); tc+=s.clr.size(); } string t=(r.chance(0.2)?"\n  ":"")+string("VECT")+(r.chance(0.3)?" ":"\n")+(r.chance(0.2)?cmt(r):""); t+=fmt("%zu",k.size())+sep(r)+fmt("%ld",tv)+sep(r)+fmt("%ld",tc)+sep(r); for(auto&s:k) t+=fmt("%d",(s.open?1:-1)*(int)s.v.size())+sep(r); for(auto&s:k) t+=fmt("%zu",s.clr.size())+sep(r);
  t+="\n"; vector<int> ord(pool.size()); for(size_t i=0;i<ord.size();i++) ord[i]=(int)i; if(r.chance(0.5)) r.shuffle(ord); for(int i:ord){ auto&q=pool[i]; auto sp=[&]{ return r.chance(0.8)?string(" "):string("   "); }; t+="#"+sp()+fmt("Constraint %d ",i+1); if(q.kind==fixed) t+="Fixed "+fmt("%.17g %.17g %.17g",q.a[0],q.a[1],q.a[2]); else if(q.kind==line) t+="Line "+fmt("%.17g %.17g %.17g %.17g %.17g %.17g",q.a[0],q.a[1],q.a[2],q.b[0],q.b[1],q.b[2]); else t+="Plane "+fmt("%.17g %.17g %.17g %.17g",q.a[0],q.a[1],q.a[2],q.b[0]); t+="\n"; if(r.chance(0.2)) t+="\n"; }
  for(auto&s:k) for(size_t j=0;j<s.v.size();j++){ t+=dnum(r,s.v[j][0])+" "+dnum(r,s.v[j][1])+(r.chance(0.9)?" ":"\n")+dnum(r,s.v[j][2]); int id=0; for(size_t q=0;q<pool.size();q++) if(s.cst[j].kind&&s.cst[j]==pool[q]) id=(int)q+1; if(id) t+=fmt(" # Cst: %d\n",id); else t+=r.chance(0.8)?"\n":r.chance(0.5)?" ":" "+cmt(r); }
  for(auto&s:k) for(auto&q:s.clr){ for(int i=0;i<4;i++) t+=dnum(r,q.c[i])+sep(r); } return t; }
static void m_vecthand(Case&c){ Gen g; g.csts=0; g.maxnv=10; Curve k=curve(c.rng,g); vector<Cst> pool; int np=c.rng.chance(0.5)?0:1+(int)c.rng.below(c.rng.chance(0.3)?45:6); for(int i=0;i<np;i++) pool.push_back(rcst(c.rng)); if(np) for(auto&s:k) for(size_t j=0;j<s.v.size();j++) if(c.rng.chance(0.6)) s.cst[j]=(j&&c.rng.chance(0.5))?s.cst[j-1]:c.rng.pick(pool); string t=hand(c.rng,k,pool); RdR r=reads(t); c.require(r.L&&r.err==0,"vect-hand-rejected",r.msg+" in "+t.substr(0,900)); PL M(r.L); string d=diff(M,k); c.require(d=="","vect-hand-content",d+" in "+t.substr(0,900)); string cl=cst_list_ok(M); c.require(cl=="","vect-constraint-list",cl); c.seen(hstr(t)); if(np) c.count("with_constraints"); c.maxi("constraint_numbers",np); c.sample(t.substr(0,300)); }
static void m_vecthostile(Case&c){ Gen g; g.maxnv=8; Curve k=curve(c.rng,g); vector<Cst> pool; string t; if(c.rng.chance(0.5)){ PL L(toPlc(k)); t=text(L); } else { rm_cst(k); int np=(int)c.rng.below(5); for(int i=0;i<np;i++) pool.push_back(rcst(c.rng)); if(np) for(auto&s:k) for(size_t j=0;j<s.v.size();j++) if(c.rng.chance(0.6)) s.cst[j]=c.rng.pick(pool); t=hand(c.rng,k,pool); }
  int m=1+(int)c.rng.below(4); for(int q=0;q<m&&t.size();q++){ size_t p=c.rng.below(t.size()); switch(c.rng.below(9)){ case 0: t[p]=(char)c.rng.below(256); break; case 1: t.resize(p); break; case 2: t.erase(p,1+c.rng.below(12)); break; case 3: t.insert(p,string(1+c.rng.below(3),"0123456789-.# \n\tCVx"[c.rng.below(19)])); break;
      case 4: case 5: { // replace a number by an awkward one
        static const char*aw[]={"0","-0","-1","1","2","-3","1000","-1000","nan","inf","-2147483648","1e308","1e-320","abc","0x10","99","-7"}; size_t a=p; while(a<t.size()&&!isdigit((unsigned char)t[a])) a++; size_t b=a; while(b<t.size()&&(isdigit((unsigned char)t[b])||t[b]=='.')) b++; if(a<b) t.replace(a,b-a,aw[c.rng.below(17)]); break; }
      case 6: { static const char*in[]={"# Constraint 1 Fixed 1 2\n","# Constraint 0 Line 1 2 3 4 5 6\n","# Constraint 12 Plane 1 0 0 3\n","# Constraint\n","# Constraint 3 Foo 1 2 3\n"," # Cst: 7\n"," # Cst: -1\n"," # Cst: x\n"," # Cst: 1\n","# Constraint 500 Fixed 1 2 3\n","# Constraint 9 Fixed 1 2 3\n","# Constraint 1 Fixed\n"," # Cst: 2147483647\n"}; size_t a=t.find('\n',p); if(a==string::npos) a=t.size(); t.insert(a,in[c.rng.below(13)]); break; }
      case 7: { size_t a=c.rng.below(t.size()),len=std::min<size_t>(t.size()-a,c.rng.below(40)); t.insert(p,t.substr(a,len)); break; }
      default: { size_t a=t.find("VECT"); if(a!=string::npos&&c.rng.chance(0.3)) t.replace(a,4,c.rng.chance(0.5)?"VEC":"OFF"); else { size_t e=t.find('\n',p); if(e!=string::npos) t.erase(p,e-p); } } } }
  // numbers so large that the file legitimately asks for gigabytes are not the reader's fault
  { string body; bool cm=false; for(char ch:t){ if(ch=='#') cm=true; if(ch=='\n') cm=false; body+=cm||!ch?' ':ch; } size_t v=body.find("VECT"); std::istringstream is(v==string::npos?body:body.substr(v+4)); long long x,nc=1; for(long q=0;q<3+2*nc;q++){ if(!(is>>x)) break; if((x>200000||x<-200000)&&x!=-2147483648LL) throw Skip(); if(q==0) nc=std::max(1LL,std::min(x,200000LL)); } if(is.fail()&&!is.eof()){ is.clear(); string w; is>>w; if(w.size()>6&&isdigit((unsigned char)w[w[0]=='-'||w[0]=='+'?1:0])) throw Skip(); } }
  if(t.empty()) throw Skip(); RdR r=reads(t); if(!r.L){ c.require(r.err!=0,"vect-null-without-error",t.substr(0,600)); c.require(!r.msg.empty()&&r.msg!="?","vect-null-without-message",t.substr(0,600)); c.count(fmt("refused_%d",r.err)); }
  else { PL M(r.L); c.require(r.err==0,"vect-curve-with-error",r.msg); c.require(M->nc>=1,"vect-empty"); for(int i=0;i<M->nc;i++) c.require(M->cp[i].nv>=1&&M->cp[i].cc>=0&&M->cp[i].cc<=M->cp[i].nv,"vect-counts",fmt("comp %d nv %d cc %d",i,M->cp[i].nv,M->cp[i].cc)); string cl=cst_list_ok(M); c.require(cl=="","vect-constraint-list",cl+" in "+t.substr(0,900)); PL N(plc_copy(M)); string w=text(N); c.count("accepted"); } c.seen(hstr(t)); }

// ---- editing --------------------------------------------------------------------------------
static Curve model_delete(const Curve&k,int cp,int a,int b){ Curve r=k; rm_cst(r); auto&s=k[cp]; int n=(int)s.v.size(); bool pc=(int)s.clr.size()==n; auto take=[&](vector<int> id,bool open){ Strand q; q.open=open||id.size()<3; for(int i:id){ q.v.push_back(s.v[i]); if(pc&&n>1) q.clr.push_back(s.clr[i]); } if(!(pc&&n>1)) q.clr=s.clr; q.cst.resize(id.size()); return q; };
  if(s.open){ if(a>b) return r; int A=std::max(a,0),B=std::min(b,n-1); vector<int> lo,hi; for(int i=0;i<A;i++) lo.push_back(i); for(int i=B+1;i<n;i++) hi.push_back(i); r.erase(r.begin()+cp); if(hi.size()) r.insert(r.begin()+cp,take(hi,true)); if(lo.size()) r.insert(r.begin()+cp,take(lo,true)); return r; }
  vector<int> keep; if(a==b+1||(a==0&&b==n-1)){ r.erase(r.begin()+cp); return r; } for(int i=(b+1)%n;i!=a;i=(i+1)%n) keep.push_back(i); r[cp]=take(keep,true); return r; }
static string colorless(plCurve*L,const Curve&k,double tol=0){ Curve q=k; for(int i=0;i<L->nc&&i<(int)q.size();i++){ q[i].clr.clear(); for(int j=0;j<L->cp[i].cc;j++) q[i].clr.push_back({{L->cp[i].clr[j].r,L->cp[i].clr[j].g,L->cp[i].clr[j].b,L->cp[i].clr[j].alpha}}); } return diff(L,q,tol); }
static void check(Case&c,plCurve*L,const Curve&k,const string&op,double tol=0){ double sc=std::max(1.0,scale_of(k)); string d=diff(L,k,tol,sc); c.require(d=="",("edit-"+op).c_str(),d+" "+show(k)); string cl=cst_list_ok(L); c.require(cl=="",("edit-list-"+op).c_str(),cl); int nv=0,ne=0; for(auto&s:k){ nv+=s.v.size(); ne+=(int)s.v.size()-(s.open?1:0); } c.require(plc_num_verts(L)==nv&&plc_num_edges(L)==ne,"edit-counts",fmt("%d/%d want %d/%d",plc_num_verts(L),plc_num_edges(L),nv,ne)); }
static void m_edit(Case&c){ Gen g; g.style=(int)c.rng.below(5); if(g.style==2) g.style=0; g.maxnc=3; if(c.rng.chance(0.01)) g.maxnv=c.rng.chance(0.5)?150:400; Curve k=curve(c.rng,g); plCurve*L=toPlc(k); struct G{plCurve*&l;~G(){plc_free(l);}} guard{L}; check(c,L,k,"new"); double tol=0; int steps=2+(int)c.rng.below(14);
  for(int st=0;st<steps;st++){ int op=(int)c.rng.below(13); c.count(fmt("op_%d",op)); switch(op){
    case 0: if(k.size()<6){ Strand s=strand(c.rng,g,g.style); s.cst.assign(s.v.size(),Cst()); int at=(int)c.rng.below(k.size()+1); vector<plc_vector> v; for(auto&p:s.v) v.push_back(to(p)); vector<plc_color> q; for(auto&z:s.clr) q.push_back(plc_build_color(z.c[0],z.c[1],z.c[2],z.c[3])); bool asopen=s.open&&!(v.size()<3&&c.rng.chance(0.3)); /* fewer than 3 vertices cannot close up */ plc_add_component(L,at,(int)v.size(),asopen,(int)q.size(),v.data(),q.empty()?NULL:q.data()); k.insert(k.begin()+at,s); check(c,L,k,"add",tol); } break;
    case 1: if(k.size()>1){ int at=(int)c.rng.below(k.size()); plc_drop_component(L,at); k.erase(k.begin()+at); check(c,L,k,"drop",tol); } break;
    case 2: { int at=(int)c.rng.below(k.size()); auto&s=k[at]; int n=(int)s.v.size(),old=(int)s.clr.size(),cc=c.rng.chance(0.3)?0:c.rng.chance(0.3)?1:c.rng.chance(0.7)?n:1+(int)c.rng.below(n); plc_resize_colorbuf(L,at,cc); if(cc==0) s.clr.clear(); else if(old==0) s.clr.assign(cc,Col{{0,0,0,0}}); else if(old==1) s.clr.assign(cc,Col(s.clr[0])); else { s.clr.resize(std::min(old,cc)); int o2=(int)s.clr.size(); s.clr.resize(cc); for(int j=o2;j<cc;j++){ s.clr[j]=color(c.rng); auto&z=s.clr[j]; L->cp[at].clr[j]=plc_build_color(z.c[0],z.c[1],z.c[2],z.c[3]); } } check(c,L,k,"resize-colours",tol); break; }
    case 3: { Col q=color(c.rng); plc_set_color(L,plc_build_color(q.c[0],q.c[1],q.c[2],q.c[3])); for(auto&s:k) for(auto&z:s.clr) z=q; check(c,L,k,"set-colour",tol); break; }
    case 4: { plCurve*M=plc_copy(L); check(c,M,k,"copy",tol); if(L->cp[0].nv) L->cp[0].vt[0].c[0]+=1; if(L->cst) L->cst->vect[0].c[0]+=1; check(c,M,k,"copy-independent",tol); plc_free(L); L=M; break; }
    case 5: { int at=(int)c.rng.below(k.size()),j=(int)c.rng.below(k[at].v.size()); V p=point(c.rng,g.style); L->cp[at].vt[j]=to(p); k[at].v[j]=p; plc_fix_wrap(L); check(c,L,k,"fix-wrap",tol); break; }
    case 6: { double a=c.rng.chance(0.2)?-c.rng.unif(0.5,2):c.rng.chance(0.15)?pow(10,c.rng.unif(-3,3)):c.rng.unif(0.2,3); plc_scale(L,a); tol=1e-11; for(auto&s:k){ for(auto&v:s.v) for(int i=0;i<3;i++) v[i]*=a; for(auto&q:s.cst) if(q.kind==fixed) for(int i=0;i<3;i++) q.a[i]*=a; else if(q.kind==line) for(int i=0;i<3;i++) q.b[i]*=a; else if(q.kind==plane) q.b[0]*=a; } check(c,L,k,"scale",tol); break; }
    case 7: { V t=point(c.rng,0); if(c.rng.chance(0.3)){ double f=pow(10,c.rng.range(-7,4)); for(int i=0;i<3;i++) t[i]*=f; } plc_translate(L,to(t)); tol=1e-11; for(auto&s:k){ for(auto&v:s.v) for(int i=0;i<3;i++) v[i]+=t[i]; for(auto&q:s.cst) if(q.kind==fixed) for(int i=0;i<3;i++) q.a[i]+=t[i]; else if(q.kind==line) for(int i=0;i<3;i++) q.b[i]+=t[i]; else if(q.kind==plane) q.b[0]+=(double)dot(l(q.a),l(t)); } check(c,L,k,"translate",tol); break; }
    case 8: { int at=(int)c.rng.below(k.size()),n=(int)k[at].v.size(); int a,b; if(k[at].open){ a=(int)c.rng.range(-1,n); b=(int)c.rng.range(-1,n); if(b<a&&c.rng.chance(0.8)) std::swap(a,b); if(b<0||a>=n) break; } else { a=(int)c.rng.below(n); b=(int)c.rng.below(n); } Curve w=model_delete(k,at,a,b); if(w.empty()) break; plCurve*M=plc_delete_arc(L,at,a,b); check(c,L,k,"delete-arc-input",tol); { string d=colorless(M,w,tol); if(d!=""){ plc_free(M); c.fail("edit-delete-arc",d+fmt(" deleting %d..%d of comp %d of ",a,b,at)+show(k)); } } for(int i=0;i<M->nc;i++) if(!(M->cp[i].cc<=M->cp[i].nv)){ int n2=M->cp[i].nv,cc=M->cp[i].cc; plc_free(M); c.fail("edit-delete-arc-colours",fmt("comp %d: %d colours for %d vertices",i,cc,n2)); } for(int i=0;i<M->nc;i++){ bool pv=false; for(auto&s:k) if(s.clr.size()>1) pv=true; if(!pv) continue; }
      plc_free(L); L=M; k=fromPlc(M); rm_cst(k); for(int i=0;i<M->nc;i++) if(M->cp[i].cc>1&&(int)w[i].clr.size()==M->cp[i].nv&&M->cp[i].cc==M->cp[i].nv) c.require(k[i].clr==w[i].clr,"edit-delete-arc-colour-values"); break; }
    case 9: { V nn=nonzero(c.rng,0); plc_project(L,to(nn)); tol=1e-11; L3 u=unit(l(nn)); for(auto&s:k) for(auto&v:s.v) v=lv(l(v)-dot(l(v),u)*u); check(c,L,k,"project",tol); break; }
    case 10: { V ax=nonzero(c.rng,0); double th=c.rng.unif(-7,7); bool un=c.rng.chance(0.5); if(un) ax=lv(unit(l(ax))); rm_cst(k); plc_remove_all_constraints(L); plc_rotate(L,to(ax),th); tol=1e-11; L3 u=unit(l(ax)); for(auto&s:k) for(auto&v:s.v){ L3 p=l(v); v=lv(cosl(th)*p+sinl(th)*cross(u,p)+((1-cosl(th))*dot(u,p))*u); } check(c,L,k,"rotate",tol); break; }
    case 11: { V ax=lv(unit(l(nonzero(c.rng,0)))); int sp=(int)c.rng.below(8); if(sp==0) ax=mk(0,0,1); if(sp==1) ax=mk(0,0,-1); if(sp==2) ax=mk(1,0,0); rm_cst(k); plc_remove_all_constraints(L); plc_random_rotate(L,to(ax)); tol=1e-9; Curve got=fromPlc(L); double sc=std::max(1.0,scale_of(k)); for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++){ c.require(near(got[i].v[j][2],dot(l(ax),l(k[i].v[j])),sc,1e-9),"edit-axis-to-z","axis "+show(ax)+" vertex "+show(k[i].v[j])+" became "+show(got[i].v[j])); c.require(near((double)norm(l(got[i].v[j])),norm(l(k[i].v[j])),sc,1e-9),"edit-axis-to-z-isometry"); } if(k[0].v.size()>2){ auto det=[&](Curve&q){ return dot(l(q[0].v[0]),cross(l(q[0].v[1]),l(q[0].v[2]))); }; c.require(near((double)det(got),det(k),sc*sc*sc,1e-8),"edit-axis-to-z-orientation"); } for(size_t i=0;i<got.size();i++) got[i].clr=k[i].clr; k=got; check(c,L,k,"axis-to-z",tol); break; }
    default: { if(k[0].v.size()<3) break; int at=0,n=(int)k[at].v.size(); int a=(int)c.rng.below(n),b=(int)c.rng.below(n); if(a==b||dist(k[at].v[a],k[at].v[b])<1e-6) break; double th=c.rng.unif(-3,3); plc_pfm(L,at,a,b,th); tol=1e-10; if(a>b) std::swap(a,b); L3 o=l(k[at].v[a]),u=unit(l(k[at].v[b])-o); for(int j=a+1;j<b;j++){ L3 p=l(k[at].v[j])-o; k[at].v[j]=lv(o+cosl(th)*p+sinl(th)*cross(u,p)+((1-cosl(th))*dot(u,p))*u); } check(c,L,k,"fold",tol); break; } }
    if(tol>0) { Curve now=fromPlc(L); for(size_t i=0;i<k.size();i++) now[i].clr=k[i].clr; k=now; tol=0; } }
  c.seen(fp(k)); c.maxi("components",k.size()); }

// ---- constraints ------------------------------------------------------------------------------
static L3 closest(const Cst&q,L3 p){ if(q.kind==fixed) return l(q.a); if(q.kind==line){ L3 u=unit(l(q.a)); return l(q.b)+dot(p-l(q.b),u)*u; } L3 n=l(q.a); return p-((dot(p,n)-q.b[0])/dot(n,n))*n; }
static void m_cst(Case&c){ Gen g; g.csts=0; g.colors=0.2; g.style=(int)c.rng.below(2); g.maxnc=4; g.maxnv=c.rng.chance(0.3)?30:9; Curve k=curve(c.rng,g); if(c.rng.chance(0.3)) for(auto&s:k){ s.v.resize(k[0].v.size(),mk(1,2,3)); s.cst.resize(s.v.size()); s.open=k[0].open; s.clr.clear(); } PL L(toPlc(k)); vector<Cst> pool; for(int i=0;i<3;i++){ Cst q=rcst(c.rng,g.style); pool.push_back(q); } pool.push_back(pool[0]); for(int t=1;t<4;t++){ Cst q=rcst(c.rng); while(q.kind!=t) q=rcst(c.rng); pool.push_back(q); }
  int steps=3+(int)c.rng.below(30); for(int st=0;st<steps;st++){ int cp=(int)c.rng.below(k.size()); int n=(int)k[cp].v.size(),a=(int)c.rng.below(n),len=1+(int)c.rng.below(c.rng.chance(0.5)?std::min(3,n-a):n-a); string op; switch(c.rng.below(10)){
    case 0: case 1: { op="unconstrain"; plc_unconstrain(L,cp,a,len); for(int j=a;j<a+len;j++) k[cp].cst[j]=Cst(); break; }
    case 2: { op="remove"; Cst q=c.rng.pick(pool); plc_vector v[2]={to(q.a),to(q.b)}; int want=0; for(auto&s:k) for(auto&z:s.cst) if(z==q){ want++; z=Cst(); } int got=plc_remove_constraint(L,(plc_cst_kind)q.kind,v); c.require(got==want,"cst-remove-count",fmt("%d want %d",got,want)); break; }
    case 3: if(c.rng.chance(0.1)){ op="clear"; plc_remove_all_constraints(L); rm_cst(k); break; }
    // fall through
    default: { op="set"; Cst q=c.rng.pick(pool); if(q.kind==fixed){ plc_set_fixed(L,cp,a,to(q.a)); k[cp].cst[a]=q; } else { if(q.kind==line) plc_constrain_to_line(L,cp,a,len,to(q.a),to(q.b)); else plc_constrain_to_plane(L,cp,a,len,to(q.a),q.b[0]); for(int j=a;j<a+len;j++) k[cp].cst[j]=q; } } }
    string d=diff(L,k); c.require(d=="",("cst-"+op).c_str(),d); string cl=cst_list_ok(L); c.require(cl=="",("cst-list-"+op).c_str(),cl); c.count("op_"+op); }
  // distance from being satisfied, and projection onto the constraints
  ld worst=0; Curve want=k; bool thin=false; for(auto&s:want) for(size_t j=0;j<s.v.size();j++) if(s.cst[j].kind){ L3 p=l(s.v[j]),q=closest(s.cst[j],p); worst=std::max(worst,norm(p-q)); s.v[j]=lv(q); if(s.cst[j].kind==plane){ double m=0; (void)m; for(int i=0;i<3;i++) if(fabs(s.cst[j].a[i])<1e-6&&s.cst[j].a[i]!=0) thin=true; } } if(thin) throw Skip();
  double sc=10+scale_of(k)+(double)worst; double e=plc_check_cst(L); c.require(near(e,worst,sc,1e-7),"cst-check",fmt("%.15g want %.15Lg",e,worst)); string d=diff(L,k); c.require(d=="","cst-check-modified",d); plc_fix_cst(L); d=diff(L,want,1e-7,sc); c.require(d=="","cst-fix",d); e=plc_check_cst(L); c.require(e<=1e-7*sc,"cst-fixed-check",fmt("%.15g",e));
  // random perturbation leaves constrained vertices alone and moves the others by at most the radius
  Curve b=fromPlc(L); double rad=c.rng.unif(0.01,2); plc_perturb(L,rad); Curve a=fromPlc(L); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[i].v.size();j++){ ld m=dist(a[i].v[j],b[i].v[j]); if(b[i].cst[j].kind) c.require(m==0,"perturb-moved-constrained",fmt("%zu.%zu",i,j)); else c.require(m<=rad*(1+1e-9),"perturb-too-far",fmt("%Lg > %g",m,rad)); } d=diff(L,a); c.require(d=="","perturb-wrap",d); c.seen(mix(fp(k)^(u64)steps)); }

// ---- measurements -------------------------------------------------------------------------------
static void m_measure(Case&c){ Curve k=nice(c.rng,4,1,c.rng.chance(0.1)?60:12,0.45); PL L(toPlc(k)); int nc=(int)k.size(); string sh=show(k); vector<double> cl(nc,-1),ct(nc,-1),tt(nc,-1); vector<int> ce(nc,-1); ld tot=0,mn=1e30,mx=0,m1=0,m2=0,curv=0,tors=0; int ne=0,nv=0; vector<ld> len(nc,0),cu(nc,0),to_(nc,0);
  auto at=[&](int i,int j){ int n=(int)k[i].v.size(); return l(k[i].v[((j%n)+n)%n]); };
  for(int i=0;i<nc;i++){ int n=(int)k[i].v.size(),e=k[i].open?n-1:n; nv+=n; ne+=e; for(int j=0;j<e;j++){ ld d=norm(at(i,j+1)-at(i,j)); len[i]+=d; mn=std::min(mn,d); mx=std::max(mx,d); m1+=d; m2+=d*d; } tot+=len[i]; for(int j=0;j<n;j++){ if(k[i].open&&(j==0||j==n-1)) continue; cu[i]+=angle(at(i,j)-at(i,j-1),at(i,j+1)-at(i,j)); } curv+=cu[i]; for(int j=0;j<e;j++){ if(k[i].open&&(j==0||j==e-1)) continue; to_[i]+=angle(cross(at(i,j)-at(i,j-1),at(i,j+1)-at(i,j)),cross(at(i,j+1)-at(i,j),at(i,j+2)-at(i,j+1))); } tors+=to_[i]; }
  c.require(plc_num_verts(L)==nv&&plc_num_edges(L)==ne,"count-verts-edges",sh); c.require(plc_edges(L,ce.data())==ne,"count-edges",sh); for(int i=0;i<nc;i++) c.require(ce[i]==(int)k[i].v.size()-(k[i].open?1:0),"count-component-edges",sh); c.require(plc_edges(L,NULL)==ne,"count-edges-null");
  c.require(near(plc_arclength(L,cl.data()),tot,1),"arclength",sh); for(int i=0;i<nc;i++) c.require(near(cl[i],len[i],1),"arclength-component",sh); c.require(near(plc_arclength(L,NULL),tot,1),"arclength-null");
  if(ne){ double a,b,m,q; plc_edgelength_stats(L,&a,&b,&m,&q); c.require(near(a,mx,1)&&near(b,mn,1)&&near(m,m1/ne,1)&&near(q,m2/ne,1),"edgelength-stats",fmt("%g %g %g %g ",a,b,m,q)+sh); double only=-1; plc_edgelength_stats(L,NULL,NULL,&only,NULL); c.require(near(only,m1/ne,1),"edgelength-stats-null"); }
  c.require(near(plc_totalcurvature(L,ct.data()),curv,1,1e-7),"total-curvature",sh); for(int i=0;i<nc;i++) c.require(near(ct[i],cu[i],1,1e-7),"total-curvature-component",sh); c.require(near(plc_totalcurvature(L,NULL),curv,1,1e-7),"total-curvature-null");
  c.require(near(plc_totaltorsion(L,tt.data()),tors,1,1e-6),"total-torsion",fmt("%.12g want %.12Lg ",plc_totaltorsion(L,NULL),tors)+sh); for(int i=0;i<nc;i++) c.require(near(tt[i],to_[i],1,1e-6),"total-torsion-component",sh);
  ld before=0; int base=0; for(int i=0;i<nc;i++){ int n=(int)k[i].v.size(); ld s=0; for(int j=0;j<n;j++){ double g=plc_s(L,i,j); c.require(near(g,before+s,1),"arclength-position",fmt("comp %d vertex %d: %.12g want %.12Lg ",i,j,g,before+s)+sh); if(j+1<n) s+=norm(at(i,j+1)-at(i,j)); c.require(plc_vertex_num(L,i,j)==base+j,"vertex-number",fmt("%d.%d",i,j)); c.require(plc_cp_num(L,base+j)==i&&plc_vt_num(L,base+j)==j,"vertex-number-inverse",fmt("%d.%d",i,j)); }
      int q=(int)c.rng.range(-3*n,4*n); int want=k[i].open?std::min(std::max(q,0),n-1):((q%n)+n)%n; c.require(plc_vertex_num(L,i,q)==base+want,"vertex-number-wrap",fmt("comp %d n=%d open=%d vt=%d got %d",i,n,k[i].open,q,plc_vertex_num(L,i,q)-base));
      for(int t=0;t<3;t++){ int a=(int)c.rng.below(n),b=(int)c.rng.below(n); ld d=0; for(int j=std::min(a,b);j<std::max(a,b);j++) d+=norm(at(i,j+1)-at(i,j)); if(!k[i].open) d=std::min(d,len[i]-d); double g=plc_subarc_length(L,i,a,b); c.require(near(g,d,1),"subarc-length",fmt("comp %d %d..%d %.12g want %.12Lg ",i,a,b,g,d)+sh); }
      if(n>=2){ int j=(int)c.rng.below(n); bool ok=false; plc_vector t=plc_mean_tangent(L,i,j,&ok); L3 w=k[i].open&&j==0?at(i,1)-at(i,0):k[i].open&&j==n-1?at(i,n-1)-at(i,n-2):at(i,j+1)-at(i,j-1); if(norm(w)>1e-6){ c.require(ok&&vnear(of(t),unit(w),1,1e-8),"mean-tangent",fmt("%d.%d ",i,j)+sh); }
        bool ok2=true; int jj=k[i].open?j:(int)c.rng.range(-2*n,2*n); double ta=plc_turning_angle(L,i,jj,&ok2); ld wa=(k[i].open&&(j==0||j==n-1))?0:angle(at(i,jj)-at(i,jj-1),at(i,jj+1)-at(i,jj)); c.require(near(ta,wa,1,1e-7),"turning-angle",fmt("%d.%d %.12g want %.12Lg ",i,jj,ta,wa)+sh);
        if(wa<3.1){ double mr=plc_MR_curvature(L,i,j); ld in=norm(at(i,j)-at(i,j-1)),out=norm(at(i,j+1)-at(i,j)); ld w2=(k[i].open&&(j==0||j==n-1))?0:angle(at(i,j)-at(i,j-1),at(i,j+1)-at(i,j)); if(w2<3.1){ ld want2=2*tanl(w2/2)/std::min(in,out); c.require(near(mr,want2,1,1e-6),"minrad-curvature",fmt("%d.%d %.12g want %.12Lg ",i,j,mr,want2)+sh); } } }
      int nsk=1+(int)c.rng.below(4); vector<int> sk; for(int t=0;t<nsk;t++) sk.push_back((int)c.rng.below(n)); double*ms=plc_mean_squared_chordlengths(L,i,sk.data(),nsk); for(int t=0;t<nsk;t++){ ld a=0; int cnt=0; for(int j=0;j<n;j++){ if(k[i].open&&j+sk[t]>=n) continue; L3 d=at(i,j+sk[t])-at(i,j); a+=dot(d,d); cnt++; } c.require(near(ms[t],a/cnt,1),"chordlengths",fmt("comp %d skip %d ",i,sk[t])+sh); } free(ms);
      before+=len[i]; base+=n; }
  ld diam=0; L3 com={{0,0,0}}; vector<L3> all; for(auto&s:k) for(auto&v:s.v) all.push_back(l(v)); for(auto&a:all) com=com+(1.0L/all.size())*a; ld gy=0; for(auto&a:all){ gy+=dot(a-com,a-com)/all.size(); for(auto&b:all) diam=std::max(diam,norm(a-b)); } c.require(near(plc_pointset_diameter(L),diam,1),"diameter",sh); c.require(vnear(of(plc_center_of_mass(L)),com,1),"center-of-mass",sh); c.require(near(plc_gyradius(L),gy,1),"gyradius",sh);
  // unsigned dihedral angles of four-vertex subsets of the first component
  { int n=(int)k[0].v.size(); if(n>=4&&n<=11){ unsigned cap=c.rng.chance(0.5)?0:1+(unsigned)c.rng.below(2*n*n); unsigned full=(unsigned)((long)n*(n-1)*(n-2)*(n-3)/12),got=cap; float*da=plc_dihedral_angles(L,&got); unsigned want=cap?std::min(cap,full):full; c.require(da!=NULL&&got==want,"dihedrals-count",fmt("n=%d asked %u got %u want %u",n,cap,got,want)); unsigned i=0; for(int a=0;a<n;a++) for(int b=a+1;b<n;b++) for(int d=b+1;d<n;d++) for(int e=d+1;e<n;e++) for(int q=0;q<2;q++,i++) if(i<got){ L3 A=at(0,a),B=at(0,b),C=at(0,d),D=at(0,e); L3 n1=q?cross(B-A,C-A):cross(B-A,D-A),n2=q?cross(D-C,A-C):cross(C-B,D-B); ld w=angle(n1,n2); if(norm(n1)>1e-6&&norm(n2)>1e-6) if(!near(da[i],w,1,1e-4)){ float z=da[i]; free(da); c.fail("dihedral-value",fmt("quad %d %d %d %d: %g want %Lg",a,b,d,e,z,w)); } } free(da); c.count("dihedrals"); } }
  string d=diff(L,k); c.require(d=="","measure-modified",d); c.seen(fp(k)); c.maxi("vertices",nv); c.sample(sh.substr(0,200)); }
static void m_vector(Case&c){ auto&r=c.rng; int st=(int)r.below(2); V A=point(r,st),B=point(r,st),C=point(r,st),D=point(r,st); plc_vector a=to(A),b=to(B),p=to(C),q=to(D); double s=r.gauss(),t=r.gauss(); string sh=show(A)+show(B)+show(C)+show(D); L3 x=l(A),y=l(B),z=l(C),w=l(D);
  auto rq=[&](plc_vector g,L3 want,const char*key,double relt=1e-11){ c.require(vnear(of(g),want,100,relt),key,show(of(g))+" for "+sh); };
  rq(plc_vect_sum(a,b),x+y,"sum"); rq(plc_vect_diff(a,b),x-y,"diff"); rq(plc_cross_prod(a,b),cross(x,y),"cross"); rq(plc_scale_vect(s,a),s*x,"scale"); rq(plc_vlincomb(s,a,t,b),s*x+t*y,"lincomb"); rq(plc_vmadd(a,s,b),x+s*y,"vmadd"); rq(plc_vweighted(s,a,b),(1-s)*x+s*y,"weighted"); rq(plc_component_mult(a,b),{{x.x[0]*y.x[0],x.x[1]*y.x[1],x.x[2]*y.x[2]}},"cmult"); c.require(near(plc_dot_prod(a,b),dot(x,y),10),"dot",sh); c.require(near(plc_norm(a),norm(x),10),"norm",sh); c.require(near(plc_distance(a,b),norm(x-y),10),"distance",sh); c.require(near(plc_sq_dist(a,b),dot(x-y,x-y),10),"sqdist",sh);
  bool ok; if(norm(x)>1e-3){ ok=false; rq(plc_normalize_vect(a,&ok),unit(x),"normalize"); c.require(ok,"normalize-ok"); } plc_vector zero={{0,0,0}}; ok=true; plc_normalize_vect(zero,&ok); c.require(!ok,"normalize-zero");
  { bool nz=fabs(B[0])>1e-3&&fabs(B[1])>1e-3&&fabs(B[2])>1e-3,zc=B[0]==0||B[1]==0||B[2]==0; ok=nz?false:true; plc_vector g=plc_component_div(a,b,&ok); if(nz){ c.require(ok,"cdiv-ok"); c.require(vnear(of(g),{{x.x[0]/y.x[0],x.x[1]/y.x[1],x.x[2]/y.x[2]}},1e4),"cdiv",sh); } else if(zc) c.require(!ok,"cdiv-zero",sh); }
  if(norm(x)>1e-3&&norm(y)>1e-3){ ok=false; double g=plc_angle(a,b,&ok); c.require(ok&&near(g,angle(x,y),1,1e-8),"angle",fmt("%.15g ",g)+sh); c.require(near(g,plc_angle(b,a,&ok),1,1e-12),"angle-symmetric"); }
  if(norm(y)>1e-3){ double th=r.unif(-7,7); L3 u=unit(y); rq(plc_rotate_vect(a,b,th),cosl(th)*x+sinl(th)*cross(u,x)+((1-cosl(th))*dot(u,x))*u,"rotate-vector",1e-9); plc_matrix M; plc_rotation_matrix(b,th,&M); rq(plc_matrix_vector_multiply(&M,a),cosl(th)*x+sinl(th)*cross(u,x)+((1-cosl(th))*dot(u,x))*u,"rotation-matrix",1e-9); plc_matrix F; plc_reflection_matrix(b,&F); rq(plc_matrix_vector_multiply(&F,a),x-(2*dot(u,x))*u,"reflection-matrix",1e-9); plc_matrix*MF=plc_matrix_matrix_multiply(&M,&F); plc_vector g=plc_matrix_vector_multiply(MF,a),g2=plc_matrix_vector_multiply(&M,plc_matrix_vector_multiply(&F,a)); free(MF); c.require(vnear(of(g),l(of(g2)),100,1e-11),"matrix-product",sh); plc_matrix I; plc_identity_matrix(&I); c.require(same(of(plc_matrix_vector_multiply(&I,a)),A),"identity-matrix"); }
  { L3 nn=cross(y-x,z-x); if(norm(nn)>1e-3){ ok=false; rq(plc_normal(a,b,p,&ok),unit(nn),"normal",1e-8); c.require(ok,"normal-ok"); } ok=true; plc_normal(a,b,b,&ok); c.require(!ok,"normal-degenerate"); }
  { L3 n1=cross(y-x,z-x),n2=cross(z-x,w-x),ac=z-x; if(norm(n1)>1e-3&&norm(n2)>1e-3&&norm(ac)>1e-3){ // rotate the B side onto the D side about AC
      ok=false; double g=plc_dihedral_angle(a,b,p,q,&ok); L3 u=unit(ac); L3 pb=(y-x)-dot(y-x,u)*u,pd=(w-x)-dot(w-x,u)*u; ld want=atan2l(dot(u,cross(pb,pd)),dot(pb,pd)); const ld PI=acosl(-1.0L); ld d1=fabsl(remainderl(g-want,2*PI)),d2=fabsl(remainderl(g+want,2*PI)); c.require(ok&&g>=0&&g<2*PI+1e-9,"dihedral-range",fmt("%.15g ",g)+sh); c.require(std::min(d1,d2)<1e-7,"dihedral-angle",fmt("%.15g want +-%.15Lg ",g,want)+sh); c.require(near((double)fabsl(remainderl((ld)plc_dihedral_angle(a,q,p,b,&ok)+g,2*PI)),0,1,1e-7),"dihedral-orientation",sh); static int sgn=0; if(d1<1e-7&&d2>1e-3){ c.require(sgn!=-1,"dihedral-sign",sh); sgn=1; } else if(d2<1e-7&&d1>1e-3){ c.require(sgn!=1,"dihedral-sign",sh); sgn=-1; } } }
  { double th=r.unif(-20,20),ph=r.unif(-20,20); c.require(near(plc_angle_dist(th,ph),fabsl(remainderl((ld)th-ph,2*acosl(-1.0L))),1,1e-8),"angle-dist",fmt("%g %g",th,ph)); }
  { V A2=mk(A[0],A[1],0),B2=mk(B[0],B[1],0),C2=mk(C[0],C[1],0); ld ar=fabsl(cross(l(B2)-l(A2),l(C2)-l(A2)).x[2]); if(ar>1e-2){ double rad=-1; ok=false; V g=of(plc_circumcenter(to(A2),to(B2),to(C2),&rad,&ok)); ld d1=dist(g,A2),d2=dist(g,B2),d3=dist(g,C2); c.require(ok&&near((double)d1,d2,10,1e-6)&&near((double)d1,d3,10,1e-6)&&near(rad,d1,10,1e-6),"circumcenter",sh); } ok=true; plc_circumcenter(to(A2),to(A2),to(C2),NULL,&ok); c.require(!ok,"circumcenter-degenerate"); if(A[2]!=0){ ok=true; plc_circumcenter(a,to(B2),to(C2),NULL,&ok); if(fabs(A[2])>1e-10) c.require(!ok,"circumcenter-off-plane"); } }
  { V N[3],P[3]; for(int i=0;i<3;i++){ N[i]=nonzero(r,0); P[i]=point(r,0); } ld det=dot(unit(l(N[0])),cross(unit(l(N[1])),unit(l(N[2])))); if(fabsl(det)>1e-2){ ok=false; V g=of(plc_3plane_intersection(to(N[0]),to(P[0]),to(N[1]),to(P[1]),to(N[2]),to(P[2]),&ok)); c.require(ok,"three-planes-ok"); for(int i=0;i<3;i++) c.require(fabsl(dot(l(g)-l(P[i]),unit(l(N[i]))))<1e-7*(1+norm(l(g))),"three-planes",sh); plc_matrix*M=plc_build_matrix(to(N[0]),to(N[1]),to(N[2])); int idx[3]; double dd; bool k2=true; plc_matrix*LU=lu_decmp(M,idx,&dd,&k2); c.require(LU&&k2,"lu-ok"); V sol=of(solve_linear(LU,idx,a)); V back=of(plc_matrix_vector_multiply(M,to(sol))); free(M); free(LU); c.require(vnear(back,x,100+(double)norm(l(sol)),1e-9),"solve-linear",sh); } ok=true; plc_3plane_intersection(to(N[0]),to(P[0]),to(N[0]),to(P[1]),to(N[1]),to(P[2]),&ok); c.require(!ok,"three-planes-parallel"); }
  { ld vol=fabsl(dot(x-w,cross(y-w,z-w))); if(vol>1e-2){ ld area=norm(cross(x-w,y-w))+norm(cross(y-w,z-w))+norm(cross(z-w,x-w))+norm(cross(y-x,z-x)); c.require(near(plc_tetrahedron_inradius(a,b,p,q),vol/area,1,1e-9),"inradius",sh); } }
  { plc_vector rv=plc_random_vect(); c.require(near(plc_norm(rv),1,1,1e-9),"random-unit",show(of(rv))); }
  c.require(plc_vecteq(a,a)&&(same(A,B)||norm(x-y)<1e-12||!plc_vecteq(a,b)),"vecteq",sh); c.seen(hstr(sh)); }

// ---- doubling ---------------------------------------------------------------------------------
static void m_double(Case&c){ Curve k=nice(c.rng,3,2,10,0.5); for(auto&s:k){ if(c.rng.chance(0.5)){ int cc=c.rng.chance(0.4)?1:(int)s.v.size(); for(int i=0;i<cc;i++) s.clr.push_back(color(c.rng)); } } // avoid exact backtracking
  PL L(toPlc(k)); PL M(plc_double_verts(L)); string d=diff(L,k); c.require(d=="","double-modified-input",d); c.require(M->nc==L->nc,"double-nc"); for(int i=0;i<M->nc;i++){ int n=(int)k[i].v.size(); c.require(M->cp[i].nv==2*n&&M->cp[i].open==k[i].open,"double-size",fmt("%d -> %d",n,M->cp[i].nv)); int cc=(int)k[i].clr.size(); c.require(M->cp[i].cc==(cc<=1&&n!=1?cc:cc==n?2*n:cc),"double-colour-count",fmt("cc %d n %d -> %d",cc,n,M->cp[i].cc)); for(int j=0;j<M->cp[i].cc;j++){ Col w=cc==1?k[i].clr[0]:k[i].clr[j/2]; auto&q=M->cp[i].clr[j]; c.require(q.r==w.c[0]&&q.g==w.c[1]&&q.b==w.c[2]&&q.alpha==w.c[3],"double-colour",fmt("comp %d colour %d of %d",i,j,M->cp[i].cc)); }
    auto at=[&](int j){ return l(k[i].v[((j%n)+n)%n]); };
    for(int j=0;j<n;j++) for(int h=0;h<2;h++){ V g=of(M->cp[i].vt[2*j+h]); if(k[i].open&&((j==0&&h==0)||(j==n-1&&h==1))){ c.require(same(g,k[i].v[j]),"double-endpoint",show(g)); continue; } int o=h?j+1:j-1; L3 e=at(o)-at(j); ld t=dot(l(g)-at(j),e)/dot(e,e); ld off=norm(l(g)-at(j)-t*e); c.require(std::isfinite(g[0])&&off<1e-7*(1+norm(e))&&t>=-1e-9&&t<=0.5+1e-9,"double-vertex-not-on-edge",fmt("comp %d vertex %d.%d t=%Lg off=%Lg",i,j,h,t,off)+show(k)); }
    int n2=M->cp[i].nv; V lo=of(M->cp[i].vt[k[i].open?1:n2-1]),hi=of(M->cp[i].vt[k[i].open?n2-2:0]); c.require(same(of(M->cp[i].vt[-1]),lo)&&same(of(M->cp[i].vt[n2]),hi),"double-wrap"); }
  c.require(plc_arclength(M,NULL)<=plc_arclength(L,NULL)*(1+1e-9),"double-longer"); c.seen(fp(k)); }

// ---- splines --------------------------------------------------------------------------------------
static void m_spline(Case&c){ Curve k=nice(c.rng,3,3,12,0.5); for(auto&s:k){ double cl=c.rng.unif(); if(cl<0.3) s.clr.push_back(color(c.rng)); else if(cl<0.6) for(size_t i=0;i<s.v.size();i++) s.clr.push_back(color(c.rng)); if(c.rng.chance(0.4)){ int n=(int)s.v.size(); Cst q=rcst(c.rng); int a=(int)c.rng.below(n),len=q.kind==fixed?1:1+(int)c.rng.below(n-a); for(int j=a;j<a+len;j++) s.cst[j]=q; } }
  for(auto&s:k){ int n=(int)s.v.size(); for(int j=0;j<n;j++) if(dist(s.v[j],s.v[(j+1)%n])<1e-3) throw Skip(); if(!s.open&&dist(s.v[1],s.v[n-1])<1e-3) throw Skip(); }
  PL L(toPlc(k)); bool ok=false; plc_spline*S=plc_convert_to_spline(L,&ok); struct G{plc_spline*s;~G(){plc_spline_free(s);}} g{S}; c.require(ok&&S,"spline-ok"); string d=diff(L,k); c.require(d=="","spline-modified-input",d); double sc=10+scale_of(k);
  for(int i=0;i<(int)k.size();i++){ int n=(int)k[i].v.size(); vector<double> s(n+1,0); for(int j=0;j<n;j++) s[j+1]=s[j]+(double)dist(k[i].v[j],k[i].v[(j+1)%n]); double len=k[i].open?s[n-1]:s[n]; c.require(S->cp[i].ns==n&&S->cp[i].open==k[i].open&&S->cp[i].cc==(int)k[i].clr.size(),"spline-shape");
    for(int j=0;j<n;j++) c.require(near(S->cp[i].svals[j],s[j],1),"spline-svals"); 
    for(int j=0;j<n;j++){ V p=of(plc_sample_spline(S,i,s[j])); c.require(vnear(p,l(k[i].v[j]),sc,1e-8),"spline-misses-vertex",fmt("comp %d vertex %d ",i,j)+show(p)+" want "+show(k[i].v[j])+" "+show(k)); }
    if(!k[i].open){ double q=s[(int)c.rng.below(n)]+0.3*(s[1]); for(double off:{-len,len,2*len}){ V a=of(plc_sample_spline(S,i,q)),b=of(plc_sample_spline(S,i,q+off)); c.require(vnear(b,l(a),sc,1e-6),"spline-not-periodic",fmt("comp %d s=%g off=%g",i,q,off)); } }
    if(k[i].open){ L3 t0=unit(l(k[i].v[1])-l(k[i].v[0])),t1=unit(l(k[i].v[n-1])-l(k[i].v[n-2])); V a=of(plc_spline_tangent(S,i,0)),b=of(plc_spline_tangent(S,i,S->cp[i].svals[n-1])); c.require(vnear(a,t0,100,1e-7)&&vnear(b,t1,100,1e-7),"spline-end-tangent",fmt("comp %d ",i)+show(a)+show(b)+" want "+show(lv(t0))+show(lv(t1))); }
    // tangent field is the derivative, continuous across vertices and across the closing point
    double h=1e-5*len; for(int t=0;t<4;t++){ double q=c.rng.unif(2*h,len-2*h); bool nearknot=false; for(int j=0;j<=n;j++) if(fabs(q-s[j])<3*h) nearknot=true; if(nearknot) continue; V a=of(plc_sample_spline(S,i,q-h)),b=of(plc_sample_spline(S,i,q+h)),tg=of(plc_spline_tangent(S,i,q)); L3 fd=(1/(2*(ld)h))*(l(b)-l(a)); c.require(vnear(tg,fd,sc*50,1e-3),"spline-tangent",fmt("comp %d s=%g ",i,q)+show(tg)); }
    double kmax=1; for(int j=0;j<n;j++){ double e=(double)dist(k[i].v[j],k[i].v[(j+1)%n]); kmax=std::max(kmax,1/e); } double ep=1e-9*len; for(int j=k[i].open?1:0;j<(k[i].open?n-1:n);j++){ double x=j?s[j]:len; V a=of(plc_spline_tangent(S,i,x-ep)),b=of(plc_spline_tangent(S,i,(j?s[j]:0)+ep)); if(kmax<100) c.require(vnear(a,l(b),10*kmax,1e-4),"spline-corner",fmt("comp %d vertex %d ",i,j)+show(a)+show(b)+show(k)); } }
  // resampling
  vector<int> nv; for(auto&s:k) nv.push_back(3+(int)c.rng.below(c.rng.chance(0.3)?80:25)); bool samen=c.rng.chance(0.2); if(samen) for(size_t i=0;i<k.size();i++) nv[i]=(int)k[i].v.size(); PL M(plc_convert_from_spline(S,nv.data())); c.require(M->nc==(int)k.size(),"resample-nc"); for(int i=0;i<M->nc;i++){ int n=(int)k[i].v.size(),m=nv[i]; c.require(M->cp[i].nv==m&&M->cp[i].open==k[i].open,"resample-shape"); double len=S->cp[i].svals[k[i].open?n-1:n]; for(int j=0;j<m;j++){ double s=k[i].open?len*j/(m-1):len*j/m; V w=of(plc_sample_spline(S,i,s)); if(k[i].open&&j==m-1) w=k[i].v[n-1]; c.require(vnear(of(M->cp[i].vt[j]),l(w),sc,1e-6),"resample-point",fmt("comp %d point %d/%d ",i,j,m)+show(of(M->cp[i].vt[j]))+" want "+show(w));
        if(k[i].clr.size()>1){ c.require(M->cp[i].cc==m,"resample-colours"); int q=0; int last=k[i].open?n-2:n-1; while(q<last&&S->cp[i].svals[q+1]<=s) q++; double f=(s-S->cp[i].svals[q])/(S->cp[i].svals[q+1]-S->cp[i].svals[q]); const Col&A=k[i].clr[q],&B=k[i].clr[(q+1)%n]; double z[4]={M->cp[i].clr[j].r,M->cp[i].clr[j].g,M->cp[i].clr[j].b,M->cp[i].clr[j].alpha}; for(int t=0;t<4;t++) c.require(near(z[t],(1-f)*A.c[t]+f*B.c[t],1,1e-6),"resample-colour",fmt("comp %d point %d channel %d: %g want %g",i,j,t,z[t],(1-f)*A.c[t]+f*B.c[t])); } }
      if(k[i].clr.size()<=1){ c.require(M->cp[i].cc==(int)k[i].clr.size(),"resample-colours"); if(k[i].clr.size()==1) c.require(M->cp[i].clr[0].r==k[i].clr[0].c[0]&&M->cp[i].clr[0].alpha==k[i].clr[0].c[3],"resample-colour"); }
      V lo=of(M->cp[i].vt[k[i].open?1:m-1]),hi=of(M->cp[i].vt[k[i].open?m-2:0]); c.require(same(of(M->cp[i].vt[-1]),lo)&&same(of(M->cp[i].vt[m]),hi),"resample-wrap"); }
  { int na=0,nb=0; for(plc_constraint*q=L->cst;q;q=q->next) na++; for(plc_constraint*q=M->cst;q;q=q->next) nb++; c.require(na==nb,"resample-constraint-lost",fmt("%d became %d",na,nb)); auto find=[&](plc_constraint*a)->plc_constraint*{ for(plc_constraint*q=M->cst;q;q=q->next) if(q->cmp==a->cmp&&q->kind==a->kind&&memcmp(q->vect,a->vect,sizeof a->vect)==0) return q; return NULL; }; for(plc_constraint*q=L->cst;q;q=q->next){ plc_constraint*z=find(q); c.require(z!=NULL,"resample-constraint-changed"); bool uniq=true; for(plc_constraint*y=L->cst;y;y=y->next) if(y!=q&&y->cmp==q->cmp) uniq=false; if(!uniq) continue; if(q->num_verts==1) c.require(z->num_verts==1,"resample-constraint-spread",fmt("1 vertex became %d",z->num_verts)); if(q->num_verts==L->cp[q->cmp].nv) c.require(z->vert==0&&z->num_verts==M->cp[q->cmp].nv,"resample-constraint-shrunk"); if(q->vert==0) c.require(z->vert==0,"resample-constraint-moved"); if(q->vert==L->cp[q->cmp].nv-1) c.require(z->vert==M->cp[q->cmp].nv-1,"resample-constraint-moved"); c.count("constraints_carried"); } }
  for(plc_constraint*q=M->cst;q;q=q->next) c.require(q->cmp>=0&&q->cmp<M->nc&&q->vert>=0&&q->num_verts>=1&&q->vert+q->num_verts<=M->cp[q->cmp].nv,"resample-constraint-range",fmt("vert %d+%d of %d",q->vert,q->num_verts,M->cp[q->cmp].nv));
  c.seen(fp(k)); }

// ---- Whitten group ----------------------------------------------------------------------------------
static void m_whitten(Case&c){ Gen g; g.maxnc=5; g.style=(int)c.rng.below(2); Curve k=curve(c.rng,g); int nc=(int)k.size(); vector<int> p(nc); for(int i=0;i<nc;i++) p[i]=i; c.rng.shuffle(p); vector<int> eps(nc); for(auto&e:eps) e=c.rng.chance(0.5)?1:-1; int mir=c.rng.chance(0.5)?1:-1;
  // cycle notation: each cycle written out and closed by its first element
  vector<int> arr; vector<char> done(nc,0); for(int i=0;i<nc;i++) if(!done[i]){ int j=i; do { arr.push_back(j); done[j]=1; j=p[j]; } while(j!=i); arr.push_back(i); } while((int)arr.size()<2*nc) arr.push_back(arr.back()); if((int)arr.size()>2*nc) throw Skip();
  PL L(toPlc(k)); plc_whitten(L,mir,eps.data(),arr.data()); Curve w; for(int i=0;i<nc;i++) w.push_back(k[p[i]]); for(int i=0;i<nc;i++){ auto&s=w[i]; int n=(int)s.v.size(); if(mir==-1){ for(auto&v:s.v) v[2]=-v[2]; for(auto&q:s.cst) if(q.kind){ q.a[2]=-q.a[2]; if(q.kind==line) q.b[2]=-q.b[2]; } } if(eps[i]==-1){ std::reverse(s.v.begin(),s.v.end()); std::reverse(s.cst.begin(),s.cst.end()); if((int)s.clr.size()==n) std::reverse(s.clr.begin(),s.clr.end()); } }
  string d=diff(L,w); string ps; for(int x:arr) ps+=fmt("%d ",x); c.require(d=="","whitten",d+" perm "+ps+fmt("mirror %d ",mir)+show(k)); string cl=cst_list_ok(L,true); c.require(cl=="","whitten-constraints",cl); c.seen(mix(fp(k)^hstr(ps))); if(nc>1) c.count("multi"); }

// ---- symmetries ---------------------------------------------------------------------------------------
static void m_symm(Case&c){ auto&r=c.rng; int kind=(int)r.below(3); V ax=lv(unit(l(nonzero(r,0)))); double axl=r.unif(0.5,3); int n=kind==0?2+(int)r.below(6):kind==1?2:8; Curve k; L3 u=l(ax); auto rot=[&](L3 p,ld th){ return cosl(th)*p+sinl(th)*cross(u,p)+((1-cosl(th))*dot(u,p))*u; }; const ld TP=2*acosl(-1.0L);
  L3 e1=unit(cross(u,fabs(ax[0])<0.9?L3{{1,0,0}}:L3{{0,1,0}})),e2=cross(u,e1);
  int ncs=1+(int)r.below(2); for(int q=0;q<ncs;q++){ if(kind==0){ if(r.chance(0.6)){ // one curve carried to itself
        int m=std::max(2,3+(int)r.below(5)); Strand s; s.open=false; vector<L3> fund; for(int j=0;j<m;j++){ ld th=TP/n*(j+0.2+0.6*r.unif())/m; ld R=4+3*q+r.unif(); fund.push_back((R*cosl(th))*e1+(R*sinl(th))*e2+((ld)r.unif(-1,1)+3*q)*u); } for(int t=0;t<n;t++) for(auto&p:fund) s.v.push_back(lv(rot(p,TP*t/n))); k.push_back(s); }
      else { // a family of curves permuted by the group
        vector<L3> b; int m=2+(int)r.below(4); ld cz=4*q; for(int j=0;j<m;j++) b.push_back((8+6*q+(ld)r.unif())*e1+((ld)j*0.9)*u+(0.7L*(ld)r.unif())*e2+cz*u); bool op=m<3||r.chance(0.5); for(int t=0;t<n;t++){ Strand s; s.open=op; for(auto&p:b) s.v.push_back(lv(rot(p,TP*t/n))); k.push_back(s); } } }
    else if(kind==1){ int m=2+(int)r.below(4); vector<L3> b; for(int j=0;j<m;j++) b.push_back((2+(ld)r.unif()+4*q)*u+((ld)2*j)*e1+((ld)r.gauss())*e2); for(int t=0;t<2;t++){ Strand s; s.open=true; for(auto&p:b) s.v.push_back(lv(t?p-(2*dot(p,u))*u:p)); k.push_back(s); } }
    else { int m=2+(int)r.below(3); vector<V> b; for(int j=0;j<m;j++) b.push_back(mk(1+r.unif()+2*j,1+r.unif()+3*q,1+r.unif()+3*q)); for(int t=0;t<8;t++){ Strand s; s.open=true; for(auto&p:b) s.v.push_back(mk((t&1)?-p[0]:p[0],(t&2)?-p[1]:p[1],(t&4)?-p[2]:p[2])); k.push_back(s); } } }
  if(r.chance(0.4)){ Strand s; s.open=true; int m=1+(int)r.below(4); for(int j=0;j<m;j++){ ld h=(ld)(3*j)+0.5L*(ld)r.unif()-4; if(kind==0) s.v.push_back(lv(h*u)); else if(kind==1) s.v.push_back(lv(h*e1+((ld)r.gauss())*e2)); else s.v.push_back(mk(j==m-1&&m%2?0:(j%2?-1:1)*(30.0+3*(j/2)),0,0)); } if(m<2) s.v.push_back(kind==0?lv(9*u):kind==1?lv(9*e1):mk(0,0,0)); if(kind==2){ std::set<double> xs; for(auto&v:s.v) xs.insert(v[0]); bool ok=xs.size()==s.v.size(); for(double x:xs) if(!xs.count(-x)) ok=false; if(ok){ k.push_back(s); c.count("fixed_points"); } } else { k.push_back(s); c.count("fixed_points"); } }
  for(auto&s:k) s.cst.resize(s.v.size()); double noise=r.chance(0.3)?0:0.05; PL L(toPlc(k)); plc_vector axis=to(lv((ld)axl*u)); plc_symmetry_group*G=kind==0?plc_rotation_group(L,axis,n):kind==1?plc_reflection_group(L,axis):plc_coordplanes_reflection_group(L); c.require(G!=NULL,"symmetry-group-refused",fmt("kind %d n %d ",kind,n)+show(k)); L->G=G; double sc=scale_of(k)+1; c.require(plc_symmetry_group_check(L)<1e-9*sc,"symmetry-exact-check",fmt("%g",plc_symmetry_group_check(L)));
  // group structure: inverses, closure of the vertex maps, composition
  auto key=[&](plc_symmetry*s){ string t; for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++) t+=fmt("%d.%d,",s->target[i][j].cp,s->target[i][j].vt); return t; }; std::set<string> els; for(int i=0;i<G->n;i++){ string kk=key(G->sym[i]); els.insert(kk); } string id; for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++) id+=fmt("%zu.%zu,",i,j); c.require((int)els.size()==G->n&&G->n==n,"symmetry-group-elements",fmt("%zu distinct of %d want %d",els.size(),G->n,n));
  for(int i=0;i<G->n;i++){ c.require(G->inverse[i]>=0&&G->inverse[i]<G->n,"symmetry-inverse-range"); plc_symmetry*s=plc_compose_symmetries(G->sym[i],G->sym[G->inverse[i]]); string kk=key(s); double chk=plc_symmetry_check(L,s); plc_symmetry_free(&s); c.require(kk==id&&chk<1e-8*sc,"symmetry-inverse",fmt("element %d",i)); int j=(int)r.below(G->n); s=plc_compose_symmetries(G->sym[i],G->sym[j]); kk=key(s); chk=plc_symmetry_check(L,s); plc_symmetry_free(&s); c.require(els.count(kk)==1&&chk<1e-8*sc,"symmetry-closure",fmt("%d after %d of kind %d",j,i,kind)); }
  // perturb, measure the error, symmetrize
  for(auto&s:k) for(auto&v:s.v) for(int i=0;i<3;i++) v[i]+=noise*r.gauss()*0.3; for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++) L->cp[i].vt[j]=to(k[i].v[j]); plc_fix_wrap(L);
  ld worst=0; Curve w=k; auto apply=[&](int g,L3 p){ plc_vector q=to(lv(p)); return l(of(plc_matrix_vector_multiply(G->sym[g]->transform,q))); }; for(int g=0;g<n;g++) for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++){ auto&t=G->sym[g]->target[i][j]; worst=std::max(worst,norm(apply(g,l(k[i].v[j]))-l(k[t.cp].v[t.vt]))); } c.require(near(plc_symmetry_group_check(L),worst,sc,1e-9),"symmetry-error-measure",fmt("%g want %Lg",plc_symmetry_group_check(L),worst));
  for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++){ L3 a={{0,0,0}}; for(int g=0;g<n;g++){ auto&t=G->sym[g]->target[i][j]; a=a+(1.0L/n)*apply(G->inverse[g],l(k[t.cp].v[t.vt])); } w[i].v[j]=lv(a); }
  vector<plc_vector> var; vector<L3> vin; int nv=plc_num_verts(L); for(int i=0;i<nv;i++){ V q=mk(r.gauss(),r.gauss(),r.gauss()); var.push_back(to(q)); vin.push_back(l(q)); }
  plCurve*M=plc_copy(L); struct GG{plCurve*m;~GG(){plc_free(m);}} gg{M}; c.require(M->G&&M->G->n==n&&M->G->sym[0]->curve==M,"symmetry-copy"); plc_symmetrize(M); string d=diff(M,w,1e-9,sc); c.require(d=="","symmetrize",d+fmt(" kind %d n %d",kind,n)); double after=plc_symmetry_group_check(M); c.require(after<1e-9*sc,"symmetrize-not-symmetric",fmt("%g kind %d n %d",after,kind,n)); d=diff(L,k); c.require(d=="","symmetrize-touched-original",d);
  plc_symmetrize_variation(L,var.data()); { int q=0; for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++,q++){ L3 a={{0,0,0}}; for(int g=0;g<n;g++){ auto&t=G->sym[g]->target[i][j]; a=a+(1.0L/n)*apply(G->inverse[g],vin[plc_vertex_num(L,t.cp,t.vt)]); } c.require(vnear(of(var[q]),a,10,1e-9),"symmetrize-variation",fmt("vertex %d",q)); } } c.require(plc_symmetry_group_variation_check(L,var.data())<1e-8,"variation-not-symmetric");
  // rotating the curve carries its group along
  V ax2=lv(unit(l(nonzero(r,0)))); plc_rotate(M,to(ax2),r.unif(-3,3)); c.require(plc_symmetry_group_check(M)<1e-8*sc,"symmetry-after-rotation",fmt("%g",plc_symmetry_group_check(M)));
  // a curve edited so that the vertex maps no longer fit must not keep using them
  if(r.chance(0.3)){ plc_vector one[2]={to(mk(1,2,3)),to(mk(2,2,3))}; if(r.chance(0.5)) plc_add_component(M,(int)r.below(M->nc+1),2,true,0,one,NULL); else if(M->nc>1) plc_drop_component(M,(int)r.below(M->nc)); plc_symmetrize(M); PL Z(plc_copy(M)); c.count("edited"); }
  c.count(fmt("kind_%d",kind)); c.seen(fp(k)); }
// symmetries that do not commute: rotations and reflections of the cube acting on an orbit
static void m_symcomp(Case&c){ auto&r=c.rng; typedef std::array<std::array<int,3>,3> M; vector<M> grp; int pm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for(auto&q:pm) for(int s=0;s<8;s++){ M m; for(auto&x:m) x.fill(0); for(int i=0;i<3;i++) m[i][q[i]]=(s>>i)&1?-1:1; grp.push_back(m); }
  V b=mk(1+0.4*r.unif(),2.2+0.5*r.unif(),3.9+0.5*r.unif()); vector<V> pts; for(auto&m:grp){ V x; for(int i=0;i<3;i++){ x[i]=0; for(int j=0;j<3;j++) x[i]+=m[i][j]*b[j]; } pts.push_back(x); } r.shuffle(pts); Curve k; size_t at=0; while(at<pts.size()){ size_t m=std::min(pts.size()-at,(size_t)(2+r.below(20))); Strand s; s.open=m<3||r.chance(0.5); s.v.assign(pts.begin()+at,pts.begin()+at+m); s.cst.resize(m); k.push_back(s); at+=m; } for(auto&s:k) if(s.v.size()<2){ s.open=true; }
  PL L(toPlc(k)); auto mat=[&](const M&m){ plc_matrix*A=(plc_matrix*)calloc(1,sizeof(plc_matrix)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) (*A)[i][j]=m[i][j]; return A; }; M a=r.pick(grp),d=r.pick(grp); plc_matrix*A=mat(a),*B=mat(d); plc_symmetry*SA=plc_build_symmetry(A,L),*SB=plc_build_symmetry(B,L); free(A); free(B); struct G{plc_symmetry**s;~G(){ plc_symmetry_free(s); }} g1{&SA},g2{&SB}; c.require(SA&&SB,"symmetry-refused",show(k)); plc_symmetry*SC=plc_compose_symmetries(SA,SB); G g3{&SC}; c.require(plc_symmetry_check(L,SA)<1e-9&&plc_symmetry_check(L,SB)<1e-9,"symmetry-build-error");
  M w; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ w[i][j]=0; for(int q=0;q<3;q++) w[i][j]+=d[i][q]*a[q][j]; } for(int i=0;i<3;i++) for(int j=0;j<3;j++) c.require(fabs((*SC->transform)[i][j]-w[i][j])<1e-12,"symmetry-compose-matrix","first A then B is the product BA"); for(size_t i=0;i<k.size();i++) for(size_t j=0;j<k[i].v.size();j++){ auto&x=SA->target[i][j]; auto&y=SB->target[x.cp][x.vt]; auto&z=SC->target[i][j]; c.require(z.cp==y.cp&&z.vt==y.vt,"symmetry-compose-map"); } c.require(plc_symmetry_check(L,SC)<1e-9,"symmetry-compose-check",fmt("%g",plc_symmetry_check(L,SC))); plc_symmetry*SD=plc_symmetry_copy(SC); G g4{&SD}; c.require(plc_symmetry_check(L,SD)<1e-9,"symmetry-copy-check"); bool com=true; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ int q=0; for(int z=0;z<3;z++) q+=a[i][z]*d[z][j]; if(q!=w[i][j]) com=false; } c.count(com?"commuting":"noncommuting"); c.seen(fp(k)); }
// asymmetric curves are refused
static void m_asymm(Case&c){ Curve k=nice(c.rng,2,3,9,0.5); PL L(toPlc(k)); V ax=nonzero(c.rng,0); plc_symmetry_group*G; int kind=(int)c.rng.below(3); int n=2+(int)c.rng.below(5); G=kind==0?plc_rotation_group(L,to(ax),n):kind==1?plc_reflection_group(L,to(ax)):plc_coordplanes_reflection_group(L); if(G){ for(int i=0;i<G->n;i++) c.require(G->sym[i]!=NULL,"symmetry-incomplete-group",fmt("kind %d element %d of %d",kind,i,G->n)); for(int i=0;i<G->n;i++){ std::set<std::pair<int,int>> t; for(size_t a=0;a<k.size();a++) for(size_t b=0;b<k[a].v.size();b++){ auto&q=G->sym[i]->target[a][b]; c.require(q.cp>=0&&q.cp<L->nc&&q.vt>=0&&q.vt<L->cp[q.cp].nv,"symmetry-target"); t.insert({q.cp,q.vt}); } c.require((int)t.size()==plc_num_verts(L),"symmetry-not-a-permutation"); } c.count("accepted"); plc_symmetry_group_free(&G); } else c.count("refused"); c.seen(fp(k)); }

// ---- nearest point queries --------------------------------------------------------------------------------
static void m_nearest(Case&c){ auto&r=c.rng; bool big=r.chance(0.12); int n=big?5000+(int)r.below(2500):1+(int)r.below(80); int st=(int)r.below(6); vector<plc_vector> b; V p=mk(0,0,0); for(int i=0;i<n;i++){ if(st==0) p=mk(r.gauss(),r.gauss(),r.gauss()); else if(st==1) p=mk(p[0]+r.gauss()*.1,p[1]+r.gauss()*.1,p[2]+r.gauss()*.1); else if(st==2) p=mk((double)r.range(-3,3),(double)r.range(-3,3),(double)r.range(-8,8)); else if(st==3) p=mk(r.gauss()*20,0,0); else if(st==4) p=mk(r.gauss(),r.gauss()*30,r.gauss()*0.01); else p=mk(r.gauss()*1e-3,r.gauss()*1e-3,r.gauss()*1e-3); b.push_back(to(p)); }
  struct plc_nearest_neighbor_pc_data*pc=NULL; struct G{plc_nearest_neighbor_pc_data**p;~G(){plc_nearest_neighbor_pc_data_free(p);}} g{&pc}; int q=big?25:12; for(int i=0;i<q;i++){ V z; int w=(int)r.below(5); if(w==0) z=of(b[r.below(n)]); else if(w==1){ z=of(b[r.below(n)]); for(int t=0;t<3;t++) z[t]+=r.gauss()*0.05; } else if(w==2) z=mk(r.gauss(),r.gauss(),r.gauss()); else if(w==3) z=mk(r.gauss()*50,r.gauss()*50,r.gauss()*50); else { V x=of(b[r.below(n)]),y=of(b[r.below(n)]); z=mk((x[0]+y[0])/2,(x[1]+y[1])/2,(x[2]+y[2])/2); } int err=0; bool keep=!r.chance(0.3)||!big; int got=plc_nearest_neighbor(to(z),n,b.data(),keep?&pc:NULL,&err); c.require(got>=0&&got<n&&err==0,"nearest-index",fmt("%d of %d",got,n)); ld best=1e300L; for(int j=0;j<n;j++) best=std::min(best,dist(z,of(b[j]))); ld d=dist(z,of(b[got])); c.require(d<=best*(1+1e-9L)+1e-12L,"nearest-not-nearest",fmt("n=%d style %d got %Lg best %Lg",n,st,d,best)); c.count(big?"large_queries":"small_queries"); }
  // another buffer with the same saved data: reported stale, answered correctly
  if(r.chance(0.3)&&pc){ vector<plc_vector> b2(b.rbegin(),b.rend()); b2.push_back(to(mk(0.1,0.2,0.3))); V z=mk(r.gauss(),r.gauss(),r.gauss()); int err=0; int got=plc_nearest_neighbor(to(z),(int)b2.size(),b2.data(),&pc,&err); ld best=1e300L; for(auto&x:b2) best=std::min(best,dist(z,of(x))); c.require(err==PLC_E_STALE_PCDATA,"nearest-stale-unreported"); c.require(got>=0&&got<(int)b2.size()&&dist(z,of(b2[got]))<=best*(1+1e-9L)+1e-12L,"nearest-stale-wrong"); err=0; got=plc_nearest_neighbor(to(z),(int)b2.size(),b2.data(),&pc,&err); c.require(err==0,"nearest-stale-twice","data recomputed for this buffer is reported stale again"); c.require(got>=0&&got<(int)b2.size()&&dist(z,of(b2[got]))<=best*(1+1e-9L)+1e-12L,"nearest-stale-wrong"); c.count("stale"); plc_nearest_neighbor_pc_data_free(&pc); }
  Curve k=nice(r,r.chance(0.15)?30:4,1,20,0.5); if(r.chance(0.04)){ Strand s; s.open=false; for(int i=0;i<5200;i++) s.v.push_back(mk(r.gauss()*9,r.gauss(),r.gauss())); s.cst.resize(5200); k.push_back(s); } PL L(toPlc(k)); struct plc_nearest_vertex_pc_data*pv=NULL; bool keep=r.chance(0.5); for(int i=0;i<4;i++){ V z=i%2?mk(r.gauss()*3,r.gauss()*3,r.gauss()*3):k[r.below(k.size())].v[0]; int cp=-1,vt=-1,err=0; plc_vector g2=plc_nearest_vertex(to(z),L,&cp,&vt,keep?&pv:NULL,&err); c.require(cp>=0&&cp<L->nc&&vt>=0&&vt<L->cp[cp].nv&&err==0,"nearest-vertex-index"); c.require(same(of(g2),of(L->cp[cp].vt[vt])),"nearest-vertex-position"); ld best=1e300L; for(auto&s:k) for(auto&v:s.v) best=std::min(best,dist(z,v)); c.require(dist(z,of(g2))<=best*(1+1e-9L)+1e-12L,"nearest-vertex-wrong",fmt("%Lg best %Lg",dist(z,of(g2)),best)); }
  if(pv&&r.chance(0.4)){ Curve k2=nice(r,4,1,20,0.5); PL L2(toPlc(k2)); for(int i=0;i<3;i++){ V z=mk(r.gauss()*3,r.gauss()*3,r.gauss()*3); int cp=-1,vt=-1,err=0; plc_vector g2=plc_nearest_vertex(to(z),L2,&cp,&vt,&pv,&err); c.require((err==PLC_E_STALE_PCDATA)==(i==0),i?"nearest-vertex-stale-twice":"nearest-vertex-stale-unreported"); c.require(cp>=0&&cp<L2->nc&&vt>=0&&vt<L2->cp[cp].nv&&same(of(g2),of(L2->cp[cp].vt[vt])),"nearest-vertex-index"); ld best=1e300L; for(auto&s:k2) for(auto&v:s.v) best=std::min(best,dist(z,v)); c.require(dist(z,of(g2))<=best*(1+1e-9L)+1e-12L,"nearest-vertex-stale-wrong"); } plc_nearest_vertex_pc_data_free(&pv); c.count("stale_curve"); }
  plc_nearest_vertex_pc_data_free(&pv); c.seen(mix(fp(k)^n)); }

int main(int argc,char**argv){ return run(argc,argv,{{"vect",m_vect},{"vecthand",m_vecthand},{"vecthostile",m_vecthostile},{"edit",m_edit},{"cst",m_cst},{"measure",m_measure},{"vector",m_vector},{"double",m_double},{"spline",m_spline},{"whitten",m_whitten},{"symm",m_symm},{"asymm",m_asymm},{"symcomp",m_symcomp},{"nearest",m_nearest}}); }
