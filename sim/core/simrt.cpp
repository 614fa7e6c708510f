#include "simrt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <glob.h>
#include <algorithm>
#include <poll.h>
#include <time.h>
#include <stdarg.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include "net.hpp"

namespace sim {
static RunLog* g_log; static Disk* g_disk; static Clock* g_clk; static Alloc g_al; static Rt g_rt;
RunLog& lg(){ if(!g_log) g_log=new RunLog; return *g_log; }
Disk& disk(){ if(!g_disk) g_disk=new Disk; return *g_disk; }
Clock& clk(){ if(!g_clk) g_clk=new Clock; return *g_clk; }
Alloc& al(){ return g_al; }
Rt& rt(){ return g_rt; }
void RunLog::ev(const std::string& s){ NoPreempt np; hash=hashStr(s,hash); hash=hashStr("\n",hash); events++; if(keep&&text.size()<(1u<<20)){text+=s;text+="\n";} if(echo){ std::string l=s+"\n"; (void)!syscall(SYS_write,2,l.data(),l.size()); } }
void fail(const std::string& c,const std::string& d){ disarmAllocFail(); { NoPreempt np; ev("VIOLATION "+c+": "+d); if(!firstViolation()) firstViolation()=new Violation{c,d}; } throw Violation{c,d}; }
Violation*& firstViolation(){ static Violation* v=nullptr; return v; }
std::string hexd(uint64_t v){ char b[32]; snprintf(b,sizeof b,"%016llx",(unsigned long long)v); return b; }
std::string fmtd(double d,int prec){ char b[64]; snprintf(b,sizeof b,"%.*g",prec,d); return b; }
void Disk::mkdirs(const std::string& p){ std::string c; size_t i=0; while(i<p.size()){ size_t e=p.find('/',i+1); if(e==std::string::npos) e=p.size(); c=p.substr(0,e); if(!c.empty()&&c!="/") dirs.insert(c); i=e; } }

// ---------------------------------------------------------------- allocator
static char* const ARENA=(char*)0x200000000000ULL; static const size_t ARENA_SZ=(size_t)6<<30;
static char* arenaTop=nullptr; static bool arenaMapped=false;
static void* freeList[48];
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
[[noreturn]] void reportFatal(const char* cls,const char* d); // runner.cpp
static inline bool inArena(void* p){ return arenaMapped&&(char*)p>=ARENA&&(char*)p<ARENA+ARENA_SZ; }
void mapArena(){ if(arenaMapped) return; void* p=mmap(ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=ARENA){ fprintf(stderr,"arena map failed\n"); _exit(3);} arenaMapped=true; arenaTop=ARENA; }
// libstdc++'s bounds assertions in library code: an out-of-range index is a memory error
static void boundsError(const char* fn,const char* cond){ static char b[400]; snprintf(b,400,"index outside its container: %s in %s",cond?cond:"",fn?fn:""); reportFatal("bounds-error",b); }
static void heapCorrupt(const char* w){ reportFatal("heap-corruption",w); }
static void* arenaAlloc(size_t n){
  if(g_al.armed){ g_al.allocs++; if(g_al.failAfter>=0&&(int64_t)g_al.allocs>g_al.failAfter&&g_al.failCount>0){ g_al.failCount--; g_al.fired++; throw std::bad_alloc(); } }
  if(n>g_al.bigLimit) throw std::bad_alloc();
  size_t need=n+sizeof(Hdr)+16; unsigned c=5; while(((size_t)1<<c)<need) c++;
  char* b; 
  if(freeList[c]){ b=(char*)freeList[c]; freeList[c]=*(void**)(b+sizeof(Hdr)); }
  else { if(arenaTop+((size_t)1<<c)>ARENA+ARENA_SZ) throw std::bad_alloc(); b=arenaTop; arenaTop+=(size_t)1<<c; }
  Hdr* h=(Hdr*)b; h->size=n; h->cls=c; h->magic=0xC0FFEE01u; char* u=b+sizeof(Hdr);
  memset(u,g_al.fillByte?g_al.fillByte:0xA5,n<4096?n:4096); memset(u+n,0x5C,8);
  g_al.live++; g_al.liveBytes+=n; return u;
}
static void arenaFree(void* p){
  char* u=(char*)p; Hdr* h=(Hdr*)(u-sizeof(Hdr));
  if(h->magic==0xDEAD0002u) heapCorrupt("double delete");
  if(h->magic!=0xC0FFEE01u) heapCorrupt("delete of a bad pointer or overwritten block header");
  for(int i=0;i<8;i++) if((unsigned char)u[h->size+i]!=0x5C) heapCorrupt("write past the end of a heap block");
  size_t n=h->size; memset(u,0xDD,n<4096?n:4096); g_al.live--; g_al.liveBytes-=n; h->magic=0xDEAD0002u; *(void**)u=freeList[h->cls]; freeList[h->cls]=(char*)h;
}
void armAllocFail(int64_t n,int count){ g_al.allocs=0; g_al.failAfter=n; g_al.failCount=count; g_al.armed=true; }
void disarmAllocFail(){ g_al.armed=false; }

// ------------------------------------------------------------ steps/coverage
static unsigned char covMap[1<<16];
unsigned char* coverageMap(){ return covMap; }
static uint64_t g_steps=0, g_stepLimit=~0ULL; static int64_t g_countdown=INT64_MAX; 
static bool g_threads=false; static uint64_t g_switches=0;
uint64_t steps(){ return g_steps; }
void setStepLimit(uint64_t n){ g_stepLimit=g_steps+n; }
static void maybeSwitch(); int g_noPreempt=0;
} // sim
using namespace sim;
extern "C" void __sanitizer_cov_trace_pc(void){
  uint64_t pc=(uint64_t)__builtin_return_address(0);
  covMap[(pc>>2)*0x9E3779B1u>>16 & 0xFFFF]=1;
  if(++g_steps>g_stepLimit){ g_stepLimit=~0ULL; reportFatal("hang","step budget exceeded: no termination within the bound"); }
  if(g_threads&&!g_noPreempt&&--g_countdown<=0) maybeSwitch();
}

void* operator new(size_t n){ if(g_rt.active) return arenaAlloc(n); void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { try{return operator new(n);}catch(...){return nullptr;} }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { try{return operator new(n);}catch(...){return nullptr;} }
void operator delete(void* p) noexcept { if(!p) return; if(inArena(p)) arenaFree(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p,size_t) noexcept { operator delete(p); }
void operator delete[](void* p,size_t) noexcept { operator delete(p); }
void operator delete(void* p,const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p,const std::nothrow_t&) noexcept { operator delete(p); }

// --------------------------------------------------------- cooperative threads
namespace sim {
struct Th { sem_t s; bool done=false; char* waits=nullptr; std::function<void()> f; pthread_t t; int ix; bool hasViol=false; Violation v; std::string exc; };
static std::vector<Th*>* g_th; static int g_cur=-1; static SchedPolicy* g_pol; static size_t g_qix; static sem_t g_main;
static bool g_inSwitch=false;
static uint32_t nextQuantum(){ if(g_pol->quanta.empty()) return 1000; return g_pol->quanta[g_qix%g_pol->quanta.size()]; }
static int pickNext(){ std::vector<int>& r=*new std::vector<int>; for(auto t:*g_th) if(!t->done&&!t->waits) r.push_back(t->ix); int res=-1; if(!r.empty()){ unsigned c=g_pol->choice.empty()?1:g_pol->choice[g_qix%g_pol->choice.size()]; 
    // choice is an offset from the current thread: deterministic, never random
    size_t pos=0; for(size_t i=0;i<r.size();i++) if(r[i]>=g_cur){pos=i;break;} res=r[(pos+c)%r.size()]; } delete &r; g_qix++; return res; }
static void switchTo(int n){ int me=g_cur; if(n==me) return; g_switches++; g_cur=n; sem_post(&(*g_th)[n]->s); if(me>=0&&!(*g_th)[me]->done) { while(sem_wait(&(*g_th)[me]->s)!=0); } }
static void maybeSwitch(){ if(g_inSwitch) return; g_inSwitch=true; bool armed=g_al.armed; g_al.armed=false; int n=pickNext(); g_countdown=nextQuantum(); g_inSwitch=false; if(n>=0) switchTo(n); g_al.armed=armed; }
void NoPreempt::enter(){ g_noPreempt++; } void NoPreempt::leave(){ g_noPreempt--; }
void syscallPoint(){ if(g_threads&&g_pol->atSyscalls) { g_countdown-=7; if(g_countdown<=0&&!g_noPreempt) maybeSwitch(); } }
static void* thMain(void* a){ Th* t=(Th*)a; while(sem_wait(&t->s)!=0); 
  try{ t->f(); } catch(Violation& v){ t->hasViol=true; t->v=v; } catch(std::exception& e){ t->exc=std::string("std::exception: ")+e.what(); } catch(...){ t->exc="unknown exception"; }
  // the turn passes on only after this thread is gone: its thread-local destructors run alone as well
  t->done=true; g_noPreempt++; sem_post(&g_main); return nullptr; }
void runThreads(std::vector<std::function<void()>> bodies,const SchedPolicy& p){
  SchedPolicy pol=p; g_pol=&pol; g_qix=0; std::vector<Th*> th; g_th=&th; sem_init(&g_main,0,0); g_switches=0;
  for(size_t i=0;i<bodies.size();i++){ Th* t=new Th; t->ix=i; t->f=bodies[i]; sem_init(&t->s,0,0); th.push_back(t); }
  if(th.empty()) return;
  for(auto t:th){ pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1<<20); if(pthread_create(&t->t,&at,thMain,t)!=0) reportFatal("harness-error","pthread_create"); }
  g_cur=0; g_countdown=nextQuantum(); g_threads=true; sem_post(&th[0]->s);
  for(;;){ while(sem_wait(&g_main)!=0); pthread_join(th[g_cur]->t,nullptr); g_noPreempt--; g_inSwitch=true; int n=pickNext(); g_countdown=nextQuantum(); g_inSwitch=false; if(n<0){ g_cur=-1; break; } g_cur=n; g_switches++; sem_post(&th[n]->s); }
  g_threads=false; for(auto t:th) if(!t->done) reportFatal("deadlock","every thread waits for the initialisation of a static object");
  std::string exc; Violation v; bool hv=false; for(auto t:th){ if(t->hasViol&&!hv){hv=true;v=t->v;} if(!t->exc.empty()&&exc.empty()) exc=t->exc; delete t; }
  g_th=nullptr; if(hv) throw v; if(!exc.empty()) fail("exception-escaped",exc);
}
uint64_t switches(){ return g_switches; }
void beginRun(){ mapArena(); g_rt.active=true; setenv("TZ","UTC",1); tzset(); }
}
// local statics: a thread preempted inside an initialiser must not block the turn holder
extern "C" int __cxa_guard_acquire(char* g){ if(g[0]) return 0; while(g[1]){ if(!g_threads) abort(); (*g_th)[g_cur]->waits=g; maybeSwitch(); if((*g_th)[g_cur]->waits) reportFatal("deadlock","every thread waits for the initialisation of a static object"); if(g[0]) return 0; } g[1]=1; return 1; }
static void guardDone(char* g){ if(g_threads) for(auto t:*g_th) if(t->waits==g) t->waits=nullptr; }
extern "C" void __cxa_guard_release(char* g){ g[0]=1; g[1]=0; guardDone(g); }
extern "C" void __cxa_guard_abort(char* g){ g[1]=0; guardDone(g); }

// ---------------------------------------------------------------- simulated disk
namespace sim {
struct VFd { std::shared_ptr<Inode> ino; std::string path; int64_t off=0; bool app=false, rd=true, wr=false; };
static VFd* vfd[1024];
// relative names live in the simulated working directory /sim/cwd
static bool isSim(const char* p){ return g_rt.active&&p&&*p&&(p[0]!='/'||strncmp(p,"/sim/",5)==0); }
static bool isSimDir(const char* p){ return g_rt.active&&p&&*p&&(p[0]!='/'||strncmp(p,"/sim/",5)==0||strcmp(p,"/sim")==0); }
static std::string norm(const char* p){ std::string s(p),r; if(p[0]!='/') s="/sim/cwd/"+s; for(char c:s){ if(c=='/'&&!r.empty()&&r.back()=='/') continue; r+=c; } 
  // resolve "/./"
  size_t q; while((q=r.find("/./"))!=std::string::npos) r.erase(q,2); while(r.size()>1&&r.back()=='/') r.pop_back(); return r; }
static std::string parentOf(const std::string& p){ size_t q=p.rfind('/'); return q==std::string::npos||q==0?"/":p.substr(0,q); }
struct Quiet { bool a; NoPreempt np; Quiet(){a=g_al.armed;g_al.armed=false;} ~Quiet(){g_al.armed=a;} };
template<class F> static F real(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
static void onCall(const char* w,const std::string& p){ if(disk().onCall){ auto f=disk().onCall; f(w,p);} }

static ssize_t vread(int fd,void* buf,size_t n){
  syscallPoint(); Quiet q; VFd& v=*vfd[fd]; IoPolicy& P=disk().pol[v.path]; P.calls++; onCall("read",v.path); lg().count("io.read");
  if(!v.rd){ errno=EBADF; return -1; }
  int64_t sz=v.ino->data.size();
  if(!P.readSizes.empty()){ int k=P.readSizes[P.readIx++%P.readSizes.size()]; if(k==0){ fault("read_eintr"); errno=EINTR; return -1; } if(k>0&&(size_t)k<n&&v.off+k<sz){ fault("read_short"); n=k; } }
  if(P.readMax>0&&(int64_t)n>P.readMax) n=P.readMax;
  if(P.readErrAt>=0&&P.readErrCount!=0&&v.off+(int64_t)n>P.readErrAt&&P.readErrAt<=sz){
    if(v.off<P.readErrAt) n=P.readErrAt-v.off;        // deliver what precedes the bad sector
    else { if(P.readErrCount>0) P.readErrCount--; fault("read_eio"); errno=P.readErrNo; return -1; } }
  if(v.off>=sz) return 0; if((int64_t)n>sz-v.off) n=sz-v.off;
  memcpy(buf,v.ino->data.data()+v.off,n); v.off+=n; return n;
}
static ssize_t vwrite(int fd,const char* buf,size_t n){
  syscallPoint(); Quiet q; VFd& v=*vfd[fd]; IoPolicy& P=disk().pol[v.path]; int64_t call=P.wcalls++; onCall("write",v.path); lg().count("io.write");
  if(!v.wr){ errno=EBADF; return -1; }
  if(P.writeErrAtCall>=0&&call>=P.writeErrAtCall&&P.writeErrCount!=0){ if(P.writeErrCount>0) P.writeErrCount--; fault(P.writeErrNo==ENOSPC?"write_enospc":"write_eio"); errno=P.writeErrNo; return -1; }
  if(!P.writeSizes.empty()){ int k=P.writeSizes[P.writeIx++%P.writeSizes.size()]; if(k==0){ fault("write_eintr"); errno=EINTR; return -1; } if(k>0&&(size_t)k<n){ fault("write_short"); n=k; } }
  std::string& d=v.ino->data; if(v.app) v.off=d.size();
  if(P.capacity>=0&&v.off+(int64_t)n>P.capacity){ int64_t room=P.capacity-v.off; if(room<=0){ fault("write_enospc"); errno=ENOSPC; return -1; } n=room; fault("write_short"); }
  if((int64_t)d.size()<v.off+(int64_t)n) d.resize(v.off+n);
  memcpy(&d[v.off],buf,n); if(disk().journalOn) disk().journal.push_back({v.path,v.off,std::string(buf,n)}); v.off+=n; return n;
}
struct VDir { uint64_t magic; std::vector<std::string> names; size_t ix; struct dirent de; std::string path; };
static std::set<void*>* vdirs;
}
extern "C" {
FILE* fopen(const char* p,const char* m){
  static auto r=real<FILE*(*)(const char*,const char*)>("fopen");
  if(!isSim(p)) return r(p,m);
  Quiet q; std::string path=norm(p); onCall("open",path); lg().count("io.open"); IoPolicy& P=disk().pol[path];
  if(P.openFail&&P.openFailCount!=0){ if(P.openFailCount>0) P.openFailCount--; fault("open_err"); errno=P.openErr; return nullptr; }
  if(disk().maxFds>=0&&disk().openFds+disk().openDirs>=disk().maxFds){ fault("emfile"); errno=EMFILE; return nullptr; }
  bool plus=strchr(m,'+'); char k=m[0]; auto& F=disk().files; auto it=F.find(path);
  if(disk().dirs.count(path)&&(k!='r'||plus)){ errno=EISDIR; return nullptr; }
  bool isdir=disk().dirs.count(path);
  if(k=='r'&&it==F.end()&&!isdir){ errno=ENOENT; return nullptr; }
  if(it==F.end()&&!isdir){ std::string par=parentOf(path); if(par!="/sim"&&!disk().dirs.count(par)){ errno=ENOENT; return nullptr; } it=F.emplace(path,std::make_shared<Inode>()).first; }
  FILE* f=r("/dev/null","r+"); if(!f) return nullptr; int fd=fileno(f); if(fd<0||fd>=1024){ fclose(f); errno=EMFILE; return nullptr; }
  VFd* v=new VFd; v->ino=isdir?std::make_shared<Inode>():it->second; v->path=path; v->rd=(k=='r'||plus); v->wr=(k!='r'||plus); v->app=(k=='a'); if(k=='w') v->ino->data.clear(); if(k=='a') v->off=v->ino->data.size(); vfd[fd]=v; disk().openFds++; return f;
}
FILE* fopen64(const char* p,const char* m){ return fopen(p,m); }
int fclose(FILE* f){
  static auto r=real<int(*)(FILE*)>("fclose"); int fd=f?fileno(f):-1;
  if(fd>=0&&fd<1024&&vfd[fd]){ Quiet q; VFd* v=vfd[fd]; onCall("close",v->path); bool cf=disk().pol[v->path].closeFail; vfd[fd]=nullptr; disk().openFds--; delete v; int rc=r(f); if(cf){ fault("close_eio"); errno=EIO; return -1; } return rc; }
  return r(f);
}
ssize_t read(int fd,void* b,size_t n){ if(fd>=0&&fd<1024){ if(vfd[fd]) return vread(fd,b,n); if(netIsFd(fd)) return netRead(fd,b,n); } return syscall(SYS_read,fd,b,n); }
ssize_t write(int fd,const void* b,size_t n){ if(fd>=0&&fd<1024){ if(vfd[fd]) return vwrite(fd,(const char*)b,n); if(netIsFd(fd)) return netWrite(fd,b,n); } if(g_rt.active&&(fd==1||fd==2)) return n; return syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd,const struct iovec* v,int c){ if(fd>=0&&fd<1024&&vfd[fd]){ // a single vectored write may be short anywhere
    std::string s; { Quiet q; for(int i=0;i<c;i++) s.append((char*)v[i].iov_base,v[i].iov_len);} return vwrite(fd,s.data(),s.size()); }
  if(g_rt.active&&(fd==1||fd==2)){ ssize_t t=0; for(int i=0;i<c;i++) t+=v[i].iov_len; return t; }
  return syscall(SYS_writev,fd,v,c); }
int open(const char* p,int flags,...){ va_list ap; va_start(ap,flags); int mode=(flags&O_CREAT)?va_arg(ap,int):0; va_end(ap); if(!isSim(p)) return syscall(SYS_openat,AT_FDCWD,p,flags,mode);
  Quiet q; std::string path=norm(p); onCall("open",path); lg().count("io.open"); IoPolicy& P=disk().pol[path]; if(P.openFail&&P.openFailCount!=0){ if(P.openFailCount>0) P.openFailCount--; fault("open_err"); errno=P.openErr; return -1; }
  if(disk().maxFds>=0&&disk().openFds+disk().openDirs>=disk().maxFds){ fault("emfile"); errno=EMFILE; return -1; }
  int acc=flags&O_ACCMODE; auto& F=disk().files; auto it=F.find(path); if(disk().dirs.count(path)&&acc!=O_RDONLY){ errno=EISDIR; return -1; } if(it==F.end()&&!(flags&O_CREAT)){ errno=ENOENT; return -1; }
  if(it==F.end()){ std::string par=parentOf(path); if(par!="/sim"&&!disk().dirs.count(par)){ errno=ENOENT; return -1; } it=F.emplace(path,std::make_shared<Inode>()).first; }
  int fd=syscall(SYS_openat,AT_FDCWD,"/dev/null",O_RDWR); if(fd<0||fd>=1024){ if(fd>=0) syscall(SYS_close,fd); errno=EMFILE; return -1; }
  VFd* v=new VFd; v->ino=it->second; v->path=path; v->rd=acc!=O_WRONLY; v->wr=acc!=O_RDONLY; v->app=flags&O_APPEND; if(flags&O_TRUNC) v->ino->data.clear(); vfd[fd]=v; disk().openFds++; return fd; }
int open64(const char* p,int flags,...){ va_list ap; va_start(ap,flags); int mode=(flags&O_CREAT)?va_arg(ap,int):0; va_end(ap); return open(p,flags,mode); }
int close(int fd){ if(fd>=0&&fd<1024&&vfd[fd]){ Quiet q; VFd* v=vfd[fd]; onCall("close",v->path); bool cf=disk().pol[v->path].closeFail; vfd[fd]=nullptr; disk().openFds--; delete v; syscall(SYS_close,fd); if(cf){ fault("close_eio"); errno=EIO; return -1; } return 0; } if(netIsFd(fd)) return netClose(fd); return syscall(SYS_close,fd); }
off_t lseek(int fd,off_t o,int w) { if(fd>=0&&fd<1024&&vfd[fd]){ VFd& v=*vfd[fd]; int64_t n=w==SEEK_SET?o:w==SEEK_CUR?v.off+o:(int64_t)v.ino->data.size()+o; if(n<0){ errno=EINVAL; return -1; } v.off=n; return n; } return syscall(SYS_lseek,fd,o,w); }
off64_t lseek64(int fd,off64_t o,int w) { return lseek(fd,o,w); }
int fflush(FILE* f){ static auto r=real<int(*)(FILE*)>("fflush"); return r(f); }
static int fillStat(const std::string& p,struct stat* st){ memset(st,0,sizeof *st); if(disk().dirs.count(p)||p=="/sim"){ st->st_mode=S_IFDIR|0755; st->st_nlink=2; return 0; } auto it=disk().files.find(p); if(it==disk().files.end()){ errno=ENOENT; return -1; } st->st_mode=S_IFREG|0644; st->st_size=it->second->data.size(); st->st_nlink=1; return 0; }
int stat(const char* p,struct stat* st) { if(isSimDir(p)){ Quiet q; std::string n=norm(p); onCall("stat",n); if(disk().statErrCount>0){ disk().statErrCount--; fault("stat_err"); errno=disk().statErrNo; return -1; } return fillStat(n,st); } static auto r=real<int(*)(const char*,struct stat*)>("stat"); return r(p,st); }
int lstat(const char* p,struct stat* st) { if(isSimDir(p)) return stat(p,st); static auto r=real<int(*)(const char*,struct stat*)>("lstat"); return r(p,st); }
int fstat(int fd,struct stat* st) { if(fd>=0&&fd<1024&&vfd[fd]){ memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=vfd[fd]->ino->data.size(); return 0; } static auto r=real<int(*)(int,struct stat*)>("fstat"); return r(fd,st); }
int poll(struct pollfd* f,nfds_t n,int t){ if(n==1&&f[0].fd>=0&&f[0].fd<1024&&vfd[f[0].fd]){ f[0].revents=POLLIN; return 1; } static auto r=real<int(*)(struct pollfd*,nfds_t,int)>("poll"); return r(f,n,t); }
int ioctl(int fd,unsigned long req,...) { va_list ap; va_start(ap,req); void* a=va_arg(ap,void*); va_end(ap); if(fd>=0&&fd<1024&&vfd[fd]){ errno=ENOTTY; return -1; } return syscall(SYS_ioctl,fd,req,a); }
int mkdir(const char* p,mode_t m) { if(isSimDir(p)){ Quiet q; std::string n=norm(p); onCall("mkdir",n); lg().count("io.mkdir"); if(disk().mkdirErrCount>0){ disk().mkdirErrCount--; fault("mkdir_err"); errno=EACCES; return -1; } if(disk().exists(n)||n=="/sim"){ errno=EEXIST; return -1; } std::string par=parentOf(n); if(par!="/sim"&&!disk().dirs.count(par)){ errno=ENOENT; return -1; } disk().dirs.insert(n); return 0; } if(g_rt.active){ errno=EACCES; return -1; } return syscall(SYS_mkdir,p,m); }
int unlink(const char* p) { if(isSimDir(p)){ Quiet q; std::string n=norm(p); if(!disk().files.erase(n)){ errno=ENOENT; return -1;} return 0; } if(g_rt.active){ errno=EACCES; return -1; } return syscall(SYS_unlink,p); }
int remove(const char* p) { return unlink(p); }
int rename(const char* a,const char* b) { if(isSimDir(a)&&isSimDir(b)){ Quiet q; std::string x=norm(a),y=norm(b); auto it=disk().files.find(x); if(it==disk().files.end()){ errno=ENOENT; return -1; } disk().files[y]=it->second; disk().files.erase(x); return 0; } if(g_rt.active){ errno=EACCES; return -1; } return syscall(SYS_rename,a,b); }
int access(const char* p,int m) { if(isSimDir(p)){ Quiet q; std::string n=norm(p); if(disk().exists(n)||n=="/sim") return 0; errno=ENOENT; return -1; } return syscall(SYS_access,p,m); }
DIR* opendir(const char* p){
  static auto r=real<DIR*(*)(const char*)>("opendir"); bool top=g_rt.active&&p&&!strcmp(p,"/"); if(!isSimDir(p)&&!top) return r(p);
  Quiet q; std::string n=top?"":norm(p); onCall("opendir",n); lg().count("io.opendir");
  if(disk().opendirErrCount>0&&disk().opendirSkip>0) disk().opendirSkip--; else if(disk().opendirErrCount>0){ disk().opendirErrCount--; fault("opendir_err"); errno=disk().opendirErrNo; return nullptr; }
  if(disk().maxFds>=0&&disk().openFds+disk().openDirs>=disk().maxFds){ fault("emfile"); errno=EMFILE; return nullptr; }
  if(!disk().dirs.count(n)&&n!="/sim"&&!top){ errno=disk().files.count(n)?ENOTDIR:ENOENT; return nullptr; }
  VDir* d=new VDir; d->magic=0x51D1; d->ix=0; d->path=n; d->names={".",".."}; 
  std::string pre=n+"/"; for(auto&f:disk().files) if(f.first.compare(0,pre.size(),pre)==0&&f.first.find('/',pre.size())==std::string::npos) d->names.push_back(f.first.substr(pre.size()));
  for(auto&f:disk().dirs) if(f.compare(0,pre.size(),pre)==0&&f.find('/',pre.size())==std::string::npos) d->names.push_back(f.substr(pre.size()));
  if(top&&std::find(d->names.begin(),d->names.end(),"sim")==d->names.end()) d->names.push_back("sim");
  if(disk().readdirSeed){ Rng g(mix(disk().readdirSeed,hashStr(n))); g.shuffle(d->names); fault("readdir_shuffle"); }
  if(!vdirs) vdirs=new std::set<void*>; vdirs->insert(d); disk().openDirs++; return (DIR*)d;
}
struct dirent* readdir(DIR* D){
  static auto r=real<struct dirent*(*)(DIR*)>("readdir"); if(!vdirs||!vdirs->count(D)) return r(D);
  Quiet q; VDir* d=(VDir*)D; onCall("readdir",d->path); if(disk().readdirErrAt>=0&&(int)d->ix>=disk().readdirErrAt){ disk().readdirErrAt=-1; fault("readdir_err"); errno=EIO; return nullptr; }
  if(d->ix>=d->names.size()) return nullptr; memset(&d->de,0,sizeof d->de); std::string& nm=d->names[d->ix++]; strncpy(d->de.d_name,nm.c_str(),sizeof(d->de.d_name)-1); d->de.d_ino=d->ix; d->de.d_type=disk().dirs.count(d->path+"/"+nm)||nm=="."||nm==".."||d->path.empty()?DT_DIR:DT_REG; if(disk().dtypeUnknown) d->de.d_type=DT_UNKNOWN; return &d->de;
}
int closedir(DIR* D){ static auto r=real<int(*)(DIR*)>("closedir"); if(!vdirs||!vdirs->count(D)) return r(D); Quiet q; vdirs->erase(D); disk().openDirs--; delete (VDir*)D; return 0; }
// the real glob(3) walks the simulated directories through its own hooks
int glob(const char* pat,int flags,int(*ef)(const char*,int),glob_t* g){
  static auto r=real<int(*)(const char*,int,int(*)(const char*,int),glob_t*)>("glob"); if(!g_rt.active||(pat[0]=='/'&&!isSimDir(pat))) return r(pat,flags,ef,g);
  g->gl_opendir=(void*(*)(const char*))(void*)opendir; g->gl_readdir=(struct dirent*(*)(void*))(void*)readdir; g->gl_closedir=(void(*)(void*))(void*)closedir; g->gl_stat=stat; g->gl_lstat=lstat; lg().count("io.glob");
  return r(pat,flags|GLOB_ALTDIRFUNC,ef,g);
}
char* getcwd(char* b,size_t n) { if(g_rt.active){ const char* c="/sim/cwd"; if(!b) return strdup(c); if(n<9){ errno=ERANGE; return nullptr;} strcpy(b,c); return b; } return (char*)(syscall(SYS_getcwd,b,n)>0?b:nullptr); }

// ---------------------------------------------------------------- clock
static void clkRead(){ Quiet q; Clock& c=clk(); c.reads++; if(c.onRead) c.onRead(); if(c.perCallNs) c.advance(c.perCallNs); }
time_t time(time_t* t) { if(g_rt.active){ clkRead(); if(t) *t=clk().sec; return clk().sec; } struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); if(t)*t=ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval* tv,void* tz) { if(g_rt.active){ clkRead(); tv->tv_sec=clk().sec; tv->tv_usec=clk().nsec/1000; return 0; } struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
int clock_gettime(clockid_t id,struct timespec* ts) { if(g_rt.active){ clkRead(); if(id==CLOCK_REALTIME){ ts->tv_sec=clk().sec; ts->tv_nsec=clk().nsec; } else { ts->tv_sec=clk().mono_ns/1000000000; ts->tv_nsec=clk().mono_ns%1000000000; } return 0; } return syscall(SYS_clock_gettime,id,ts); }
static void simSleep(int64_t ns){ clk().slept_ns+=ns; clk().advance(ns); }
unsigned sleep(unsigned s){ if(g_rt.active){ simSleep(s*1000000000LL); return 0; } struct timespec ts={(time_t)s,0}; syscall(SYS_nanosleep,&ts,&ts); return 0; }
int usleep(useconds_t u){ if(g_rt.active){ simSleep(u*1000LL); return 0; } struct timespec ts={(time_t)(u/1000000),(long)(u%1000000)*1000}; syscall(SYS_nanosleep,&ts,&ts); return 0; }
int nanosleep(const struct timespec* a,struct timespec* b){ if(g_rt.active){ simSleep(a->tv_sec*1000000000LL+a->tv_nsec); return 0; } return syscall(SYS_nanosleep,a,b); }
}

namespace std { [[noreturn]] void __glibcxx_assert_fail(const char* f,int l,const char* fn,const char* c) noexcept; void __glibcxx_assert_fail(const char* f,int l,const char* fn,const char* c) noexcept { if(sim::rt().active) sim::boundsError(fn,c); fprintf(stderr,"%s:%d: %s: %s\n",f,l,fn,c); abort(); } }
