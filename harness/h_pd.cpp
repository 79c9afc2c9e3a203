#include "pdlib.hpp"
using namespace pdl;

static int gen_n(Case&c,int lim){ double u=c.rng.unif(); if(u<0.15) return 1+(int)c.rng.below(3); if(u<0.8) return 1+(int)c.rng.below(std::min(lim,14)); return 1+(int)c.rng.below(lim); }
static string rw(pd_code_t*pd,int*err,pd_code_t**back){ char*buf=0; size_t len=0; FILE*f=open_memstream(&buf,&len); pd_write(f,pd); fclose(f); FILE*g=fmemopen(buf,len,"r"); *back=pd_read_err(g,err); fclose(g); string s(buf,len); free(buf); return s; }

// hand-built diagrams are accepted; the library agrees with the model about what is well formed
static void m_build(Case&c){ int n=c.i%7==0?0:gen_n(c,40); Dg d=random_diagram(c.rng,n,(int)c.rng.below(3)); 
  if(n){ auto fs=faces(d); if((int)fs.size()!=n+2||!connected(d)) c.fail("HARNESS:euler",show(d)); }
  pd_code_t*pd=toPd(d,c.rng,(int)c.rng.below(3)); string v=validate(pd); if(v!="") c.fail("HARNESS:validate",v+show(pd));
  c.require(pd_ok(pd),"ok-rejects-wellformed",show(pd)); c.seen(fp(d,CODE_SIGN|CODE_ORIENT|CODE_TAG)); c.maxi("crossings",n);
  Dg e=fromPd(pd); int fl=CODE_SIGN|CODE_ORIENT|CODE_TAG; if(canon(e,fl)!=canon(d,fl)) c.fail("HARNESS:roundtrip",show(pd)); pd_code_free(&pd); 
  c.sample(show(d)); }

// regenerate from an arbitrary numbering
static void m_regen(Case&c){ int n=gen_n(c,30); int sg=(int)c.rng.below(3); Dg d=random_diagram(c.rng,n,sg); bool anyset=false; for(int o:d.over) if(o<2) anyset=true;
  vector<int> eno(4*n,-1),num; for(int i=0;i<2*n;i++) num.push_back(i); c.rng.shuffle(num); int k=0; pd_code_t*pd=pd_code_new(n+(int)c.rng.below(3)); pd->ncross=n; pd->nedges=2*n; 
  for(int h=0;h<4*n;h++) if(d.out[h]){ int e=num[k++]; eno[h]=eno[d.mate[h]]=e; pd->edge[e].tail=h/4; pd->edge[e].tailpos=h&3; pd->edge[e].head=d.mate[h]/4; pd->edge[e].headpos=d.mate[h]&3; }
  for(int v=0;v<n;v++){ for(int p=0;p<4;p++) pd->cross[v].edge[p]=eno[4*v+p]; int s=sgn(d,v); pd->cross[v].sign=s==0?PD_UNSET_ORIENTATION:s>0?PD_POS_ORIENTATION:PD_NEG_ORIENTATION; }
  pd_regenerate(pd); string v=validate(pd); c.require(v=="","regen-invalid",v+" "+show(pd)+" from "+show(d)); c.require(pd_ok(pd),"regen-not-ok",show(pd)); Dg e=fromPd(pd); int fl=anyset?CODE_SIGN|CODE_ORIENT:0; c.require(canon(e,fl)==canon(d,fl),"regen-changed-diagram",show(pd)+" from "+show(d)); c.count(anyset?"with_signs":"shadow"); c.seen(fp(d,fl)); 
  for(pd_idx_t i=0;i<pd->ncomps;i++) c.require(pd->comp[i].tag==(pd_tag_t)('A'+i),"regen-tags","");
  if(c.rng.chance(0.5)){ pd_code_t*q=pd_copy(pd); pd_regenerate(q); v=validate(q); c.require(v=="","regen2-invalid",v); Dg e2=fromPd(q); c.require(canon(e2,fl)==canon(d,fl),"regen2-changed",""); pd_code_free(&q);} 
  pd_code_free(&pd); }

// HOMFLY against the skein oracle
static void m_homfly(Case&c){ int n=1+(int)c.rng.below(10); Dg d=random_diagram(c.rng,n,1); pd_code_t*pd=toPd(d,c.rng); Poly want,got; if(!homfly(d,want)) throw Skip(); char*s=pd_homfly(pd); c.require(s!=NULL,"homfly-null",show(pd)); bool ok=parse_poly(s,got); string ss=s; free(s); c.require(ok,"homfly-unparsable",ss); c.require(got==want,"homfly-wrong","lib "+ss+" oracle "+show(want)+" "+show(pd)); c.seen(fp(d)); c.count(fmt("comps_%zu",comps(d).size())); c.sample(show(d)+" -> "+ss); pd_code_free(&pd); }
static void m_homfly_cal(Case&c){ int n=1+(int)c.rng.below(8); Dg d=random_diagram(c.rng,n,1); pd_code_t*pd=toPd(d,c.rng); Poly want; homfly(d,want); char*s=pd_homfly(pd); fprintf(stderr,"%s || %s || %s\n",show(pd).c_str(),s?s:"(null)",show(want).c_str()); free(s); pd_code_free(&pd);} 

int main(int argc,char**argv){ return run(argc,argv,{{"build",m_build},{"regen",m_regen},{"homfly",m_homfly},{"hcal",m_homfly_cal}}); }
