// running the repository's command-line programs (built with sanitizers; VP_TOOL_<name> holds the path)
#pragma once
#include <sys/wait.h>
#include <sys/resource.h>
#include <dirent.h>
#include <fstream>
namespace cli {
using std::string; using std::vector;
struct Res { int rc=-1; bool sig=false; string out,err; };
inline string slurp(const string&f){ std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
inline bool exists(const string&f){ struct stat st; return stat(f.c_str(),&st)==0; }
inline vector<string> ls(const string&d="."){ vector<string> r; DIR*p=opendir(d.c_str()); if(!p) return r; while(dirent*e=readdir(p)){ string n=e->d_name; if(n!="."&&n!="..") r.push_back(n); } closedir(p); std::sort(r.begin(),r.end()); return r; }
// every case works in a fresh subdirectory of the scratch directory
struct Dir { string old,name; Dir(long i){ char b[4096]; if(!getcwd(b,sizeof b)) abort(); old=b; name=old+"/case"+std::to_string(i); mkdir(name.c_str(),0700); if(chdir(name.c_str())) abort(); }
  static void wipe(const string&d){ for(auto&n:ls(d)){ string p=d+"/"+n; struct stat st; if(lstat(p.c_str(),&st)==0&&S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str()); } rmdir(d.c_str()); }
  ~Dir(){ if(chdir(old.c_str())) abort(); wipe(name); } };
inline Res tool(const string&name,vector<string> args,int cpu=60){ const char*exe=getenv(("VP_TOOL_"+name).c_str()); if(!exe){ fprintf(stderr,"no VP_TOOL_%s\n",name.c_str()); abort(); }
  vector<char*> av; av.push_back((char*)name.c_str()); for(auto&a:args) av.push_back((char*)a.c_str()); av.push_back(0);
  string so="../tool.out",se="../tool.err"; fflush(0); pid_t p=fork(); if(p==0){ int o=open(so.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600),e=open(se.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600),z=open("/dev/null",O_RDONLY); dup2(z,0); dup2(o,1); dup2(e,2); struct itimerval t; memset(&t,0,sizeof t); setitimer(ITIMER_PROF,&t,nullptr); struct rlimit rl={(rlim_t)cpu,(rlim_t)cpu+1}; setrlimit(RLIMIT_CPU,&rl); signal(SIGPROF,SIG_DFL); execv(exe,av.data()); _exit(126); }
  Res r; int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFEXITED(st)) r.rc=WEXITSTATUS(st); else { r.sig=true; r.rc=WTERMSIG(st); } r.out=slurp(so); r.err=slurp(se); unlink(so.c_str()); unlink(se.c_str()); return r; }
inline string cmdline(const string&n,const vector<string>&a){ string s=n; for(auto&x:a) s+=" "+x; return s; }
inline string tail(const string&s,size_t n){ return s.size()<=n?s:s.substr(s.size()-n); }
inline string head(const string&s,size_t n){ return s.substr(0,n); }
// the program must end normally, with the status wanted, and without a sanitizer report
inline Res good(vp::Case&c,const string&n,const vector<string>&a,const string&ctx="",int want=0){ Res r=tool(n,a); string what=cmdline(n,a)+" "+ctx+" :: "+head(r.err,700)+" .. "+tail(r.err,200)+" :: "+tail(r.out,300);
  c.require(!r.sig,(n+"-killed").c_str(),vp::fmt("signal %d ",r.rc)+what); c.require(r.rc!=99&&r.err.find("runtime error:")==string::npos&&r.err.find("ERROR: AddressSanitizer")==string::npos,(n+"-sanitizer").c_str(),what); c.require(r.rc!=126,(n+"-noexec").c_str(),what); c.require(want<0||r.rc==want,(n+"-exit-status").c_str(),vp::fmt("exit %d ",r.rc)+what); c.count("runs_"+n); return r; }
}
