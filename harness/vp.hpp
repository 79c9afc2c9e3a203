// Case runner shared by all harnesses.  Every case i is a deterministic function
// of (seed, mode, i).  Protocol lines go to the file given by --out; the index of
// the case being run is kept in the --status file so that a crash, an exit() from
// inside the library or a CPU-time limit can be attributed to one case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/mman.h>

extern "C" void __gcov_dump(void) __attribute__((weak));
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
namespace vp {
typedef uint64_t u64;
inline u64 mix(u64 x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31);}
inline u64 hstr(const std::string&s,u64 h=1469598103934665603ULL){ for(unsigned char c:s){h^=c;h*=1099511628211ULL;} return mix(h);}

struct Rng { u64 s; explicit Rng(u64 x=1):s(x){}
  u64 next(){ s+=0x9e3779b97f4a7c15ULL; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
  u64 below(u64 n){ return n? next()%n:0; }
  long range(long a,long b){ return a+(long)below((u64)(b-a+1)); } // inclusive
  double unif(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double unif(double a,double b){ return a+(b-a)*unif(); }
  double gauss(){ double u=unif(),v=unif(); if(u<1e-300)u=1e-300; return sqrt(-2*log(u))*cos(6.283185307179586*v);}
  bool chance(double p){ return unif()<p; }
  template<class T> void shuffle(std::vector<T>&v){ for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[below(i)]); }
  template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
};

inline std::string fmt(const char*f,...){ va_list a; va_start(a,f); char b[8192]; vsnprintf(b,sizeof b,f,a); va_end(a); return b; }

struct Fail { std::string key, detail; };
struct Skip {};

struct Case {
  long i; u64 seed; Rng rng; std::string mode;
  void fail(const std::string&key,const std::string&detail=""){ throw Fail{key,detail}; }
  void require(bool ok,const char*key,const std::string&detail=""){ checks()++; if(!ok) throw Fail{key,detail}; }
  // statistics
  static std::map<std::string,long>& stats(){ static std::map<std::string,long> m; return m; }
  static std::unordered_set<u64>& fps(){ static std::unordered_set<u64> s; return s; }
  static std::vector<std::string>& samples(){ static std::vector<std::string> s; return s; }
  static long& checks(){ static long& c=stats()["checks"]; return c; }
  void count(const std::string&k,long n=1){ stats()[k]+=n; }
  void maxi(const std::string&k,long n){ long&x=stats()["max:"+k]; if(n>x)x=n; }
  void seen(u64 fp){ if(fps().size()<400000) fps().insert(fp); }
  void sample(const std::string&s){ if(samples().size()<4) samples().push_back(s); }
};

inline volatile long* &statusp(){ static volatile long*p=nullptr; return p; }
inline FILE*& outf(){ static FILE*f=nullptr; return f; }
inline int& curcpu(){ static int c=20; return c; }
inline void on_prof(int){ // async-signal-safe
  int fd=fileno(outf()); char b[64]; int n=snprintf(b,sizeof b,"\nT %ld\n",statusp()?*statusp():-1L); if(write(fd,b,n)){} _exit(97);
}
inline void arm(int sec){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=sec; setitimer(ITIMER_PROF,&t,nullptr); }
inline std::string clean(std::string s){ for(char&c:s) if(c=='\n'||c=='|'||c=='\r') c=' '; return s; }

typedef std::function<void(Case&)> Fn;

inline int run(int argc,char**argv,const std::map<std::string,Fn>&modes){
  if(argc<2){ fprintf(stderr,"usage: %s mode --seed S --start a --end b --out F --status F --cpu n\n",argv[0]); return 2; }
  std::string mode=argv[1]; u64 seed=1; long a=0,b=1; std::string out="/dev/stdout",status; int cpu=20;
  for(int k=2;k+1<argc;k+=2){ std::string o=argv[k]; if(o=="--seed")seed=strtoull(argv[k+1],0,10); else if(o=="--start")a=atol(argv[k+1]); else if(o=="--end")b=atol(argv[k+1]);
    else if(o=="--out")out=argv[k+1]; else if(o=="--status")status=argv[k+1]; else if(o=="--cpu")cpu=atoi(argv[k+1]); }
  auto it=modes.find(mode); if(it==modes.end()){ fprintf(stderr,"unknown mode %s\n",mode.c_str()); return 2; }
  outf()=fopen(out.c_str(),"w"); if(!outf()){ perror(out.c_str()); return 2; }
  if(!status.empty()){ int fd=open(status.c_str(),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,8)){perror("status");return 2;}
    statusp()=(volatile long*)mmap(0,8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); *statusp()=-1; }
  signal(SIGPROF,on_prof);
  bool leak=getenv("VP_LEAK")!=nullptr; long every=leak?std::max(1L,atol(getenv("VP_LEAK"))):0,lasti=a;
  for(long i=a;i<b;i++){
    Case c; c.i=i; c.seed=seed; c.mode=mode; c.rng=Rng(mix(seed*1000003ULL+mix((u64)i)+hstr(mode)));
    if(statusp()) *statusp()=i;
    arm(cpu);
    try { it->second(c); c.count("cases"); }
    catch(Fail&f){ c.count("cases"); fprintf(outf(),"V %s|%ld|%s\n",clean(f.key).c_str(),i,clean(f.detail).c_str()); fflush(outf()); if(leak){ fprintf(outf(),"R %ld\n",i+1); fflush(outf()); arm(0); break; } } // what the aborted case held is not the library's to free
    catch(Skip&){ c.count("skipped"); }
    arm(0);
    if(leak&&((i-a+1)%every==0||i+1==b)){ // memory-balance monitor: nothing allocated so far may have become unreachable
      Case::stats()["leak_scans"]++; Case::checks()++;
      if(__lsan_do_recoverable_leak_check&&__lsan_do_recoverable_leak_check()){ fprintf(outf(),"L %ld %ld\n",lasti,i+1); fflush(outf()); break; } lasti=i+1; }
  }
  if(statusp()) *statusp()=-2;
  for(auto&k:Case::stats()) fprintf(outf(),"S %s|%ld\n",k.first.c_str(),k.second);
  for(auto&k:Case::samples()) fprintf(outf(),"X %s\n",clean(k).c_str());
  for(u64 f:Case::fps()) fprintf(outf(),"D %llx\n",(unsigned long long)f);
  fprintf(outf(),"DONE\n"); fflush(outf());
  if(__gcov_dump) __gcov_dump(); // coverage builds only
  _exit(0); // leak checking is done by the memory-balance monitor, not at exit
}
} // namespace vp
