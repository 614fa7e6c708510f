// Coordinator: seeds -> plans -> forked runs on all cores; gate, minimise,
// replay; evidence.
#include "scenario.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <time.h>
namespace sim {
std::vector<Scenario>& scenarios(){ static std::vector<Scenario>* s=new std::vector<Scenario>; return *s; }
extern unsigned char* coverageMap();
void mapArena();
struct Result { int done; int viol; char cls[256]; char detail[4096]; uint64_t hash,shape,events,steps,switches; int64_t simns; uint32_t nstat; char stat[200][64]; uint64_t statn[200]; };
static Result* g_res=nullptr; static unsigned char* g_cov=nullptr; // shared with children
static bool g_echo=false;
static void publish(const char* cls,const char* d){
  Result& r=*g_res; RunLog& L=lg(); r.hash=L.hash; r.shape=L.shape; r.events=L.events; r.steps=steps(); r.switches=switches();
  r.simns=clk().mono_ns; r.nstat=0; for(auto&p:L.stats){ if(r.nstat>=200) break; strncpy(r.stat[r.nstat],p.first.c_str(),63); r.statn[r.nstat]=p.second; r.nstat++; }
  if(cls){ r.viol=1; strncpy(r.cls,cls,255); strncpy(r.detail,d,4095); for(char*p=r.cls;*p;p++) if(*p==' '||*p=='\n') *p='_'; for(char*p=r.detail;*p;p++) if(*p=='\n') *p='|'; }
  unsigned char* c=coverageMap(); if(g_cov) for(int i=0;i<65536;i++) if(c[i]) g_cov[i]=1;
  r.done=1;
}
[[noreturn]] void reportFatal(const char* cls,const char* d){ rt().active=false; publish(cls,d); _exit(0); }
static void childExec(const Scenario& s,const Plan& p){
  if(!g_echo){ int n=open("/dev/null",O_RDWR); dup2(n,1); dup2(n,2); }
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); alarm(g_echo?600:120);
  lg().echo=g_echo; clk(); disk(); beginRun(); setStepLimit(s.stepLimit);
  const char* c=nullptr; std::string cls,det;
  try{ s.exec(p); }
  catch(Violation& v){ cls=v.cls; det=v.detail; c=cls.c_str(); }
  catch(std::exception& e){ cls="exception-escaped"; det=std::string("std::exception: ")+e.what(); c=cls.c_str(); }
  catch(...){ cls="exception-escaped"; det="unknown exception type"; c=cls.c_str(); }
  if(Violation* f=firstViolation()){ cls=f->cls; det=f->detail; c=cls.c_str(); }
  rt().active=false; publish(c,det.c_str()); _exit(0);
}
// run one plan (or generate it from the seed) in a forked child
static void runChild(const Scenario& s,const Plan* p,uint64_t seed,int tier){
  memset(g_res,0,offsetof(Result,stat)); 
  pid_t k=fork(); if(k<0){ perror("fork"); exit(3); }
  if(k==0){ Plan q= p?*p:parsePlan(planText(s.gen(seed,tier))); childExec(s,q); }
  int st; while(waitpid(k,&st,0)<0&&errno==EINTR);
  if(!g_res->done){ g_res->viol=1; g_res->hash=0; if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) strcpy(g_res->cls,"hang"); else snprintf(g_res->cls,255,"crash-%s-%d",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); strcpy(g_res->detail,"process died inside the run"); }
}
static uint64_t seedFor(uint64_t master,const char* prop,uint64_t ix){ return mix(mix(master,hashStr(prop)),ix); }
struct Viol { uint64_t ix; std::string cls,detail; };
struct Agg { uint64_t runs=0,events=0,steps=0,switches=0; double simns=0; std::map<std::string,uint64_t> stats,runsWith; std::set<uint64_t> shapes; std::vector<Viol> v; uint64_t nviol=0; uint64_t nondet=0,detchk=0; };
static double now(){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void* shm(size_t n){ void* p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED){perror("mmap");exit(3);} return p; }
static void worker(const Scenario& s,uint64_t master,int tier,uint64_t n,int w,int W,double deadline,const std::string& out){
  g_res=(Result*)shm(sizeof(Result)); Agg a; 
  for(uint64_t i=w;i<n&&now()<deadline;i+=W){
    runChild(s,nullptr,seedFor(master,s.prop,i),tier); Result& r=*g_res; a.runs++; a.events+=r.events; a.steps+=r.steps; a.switches+=r.switches; a.simns+=r.simns; a.shapes.insert(r.shape);
    if(r.done) for(uint32_t k=0;k<r.nstat;k++){ a.stats[r.stat[k]]+=r.statn[k]; a.runsWith[r.stat[k]]++; }
    if(r.viol){ a.nviol++; bool seen=false; for(auto&v:a.v) if(v.cls==r.cls) seen=true; if(!seen&&a.v.size()<40) a.v.push_back({i,r.cls,r.detail}); }
    if(i%50==0||r.viol){ uint64_t h=r.hash; std::string c=r.cls; int vi=r.viol; bool crash=!r.done; runChild(s,nullptr,seedFor(master,s.prop,i),tier); a.detchk++; if(g_res->hash!=h||g_res->viol!=vi||c!=g_res->cls){ a.nondet++; if(vi&&!crash) for(size_t k=0;k<a.v.size();k++) if(a.v[k].ix==i){ a.v.erase(a.v.begin()+k); break; } } }
  }
  std::ofstream o(out); o<<"runs "<<a.runs<<"\nevents "<<a.events<<"\nsteps "<<a.steps<<"\nswitches "<<a.switches<<"\nsimns "<<a.simns<<"\nnviol "<<a.nviol<<"\nnondet "<<a.nondet<<"\ndetchk "<<a.detchk<<"\n";
  for(auto&p:a.stats) o<<"stat "<<p.first<<" "<<p.second<<" "<<a.runsWith[p.first]<<"\n"; for(auto h:a.shapes) o<<"shape "<<h<<"\n";
  for(auto&v:a.v) o<<"viol "<<v.ix<<" "<<v.cls<<" "<<v.detail<<"\n"; o.close(); _exit(0);
}
static std::string jesc(const std::string& s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static bool same(const Scenario& s,const Plan& p,const std::string& cls){ runChild(s,&p,0,0); return g_res->viol&&cls==g_res->cls; }
static Plan minimise(const Scenario& s,Plan p,const std::string& cls,double budget,int& execs){
  double end=now()+budget; execs=0; bool progress=true;
  while(progress&&now()<end){ progress=false;
    for(size_t chunk=std::max<size_t>(1,p.size()/2);chunk>=1&&now()<end;chunk/=2){
      for(size_t i=0;i<p.size()&&now()<end;){ Plan q; size_t dropped=0; for(size_t k=0;k<p.size();k++){ if(k>=i&&k<i+chunk&&p[k].kind[0]!='!'){dropped++;continue;} q.push_back(p[k]); } if(dropped){ execs++; if(same(s,q,cls)){ p=q; progress=true; continue; } } i+=chunk; }
      if(chunk==1) break; }
    for(size_t i=0;i<p.size()&&now()<end;i++) for(size_t k=0;k<p[i].a.size()&&now()<end;k++){
      char* e; int64_t v=strtoll(p[i].a[k].second.c_str(),&e,10); if(*e||p[i].a[k].first[0]=='_') continue; 
      int64_t tries[]={0,1,v/2,v-1}; for(int64_t t:tries){ if(t==v||std::llabs(t)>=std::llabs(v)) continue; Plan q=p; q[i].a[k].second=std::to_string(t); execs++; if(same(s,q,cls)){ p=q; progress=true; break; } } }
  }
  return p;
}
struct Known { std::string prop,cls,desc; };
static std::vector<Known> loadKnown(const std::string& f){ // lines: "known: property=<id> class=<cls> <what fails>"
  std::vector<Known> r; std::ifstream i(f); std::string l; while(std::getline(i,l)){ if(l.compare(0,16,"known: property=")!=0) continue; std::istringstream is(l.substr(16)); Known k; is>>k.prop; std::string c; is>>c; if(c.compare(0,6,"class=")==0) k.cls=c.substr(6); std::getline(is,k.desc); r.push_back(k);} return r; }
static bool glob1(const char* p,const char* s){ if(!*p) return !*s; if(*p=='*') return glob1(p+1,s)||(*s&&glob1(p,s+1)); return *p==*s&&glob1(p+1,s+1); }
}
using namespace sim;
int main(int argc,char** argv){
  std::map<std::string,std::string> o; std::vector<std::string> pos; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a.compare(0,2,"--")==0){ if(i+1<argc&&argv[i+1][0]!='-'){o[a.substr(2)]=argv[i+1];i++;} else o[a.substr(2)]="1"; } else pos.push_back(a); }
  // one address-space layout for every process: a replay sees the addresses the run saw
  if(!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); int pr=personality(0xffffffff); if(pr!=-1&&!(pr&ADDR_NO_RANDOMIZE)&&personality(pr|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  setenv("TZ","UTC",1); 
  if(pos.empty()){ fprintf(stderr,"usage: sim run|replay|dump|one|list ...\n"); return 3; }
  mapArena();
  auto find=[&](const std::string& p)->Scenario*{ for(auto&s:scenarios()) if(p==s.prop) return &s; return nullptr; };
  if(pos[0]=="list"){ for(auto&s:scenarios()) printf("%s\n",s.prop); return 0; }
  if(pos[0]=="replay"){ // replay FILE: reproduces exactly; exit 1 when the violation recurs
    std::ifstream f(pos[1]); std::stringstream ss; ss<<f.rdbuf(); std::string t=ss.str(); std::string prop,cls,hash; std::istringstream is(t); std::string l; while(std::getline(is,l)){ if(l.compare(0,12,"# property: ")==0) prop=l.substr(12); if(l.compare(0,9,"# class: ")==0) cls=l.substr(9); if(l.compare(0,8,"# hash: ")==0) hash=l.substr(8);} 
    Scenario* s=find(prop); if(!s){ fprintf(stderr,"no such property %s\n",prop.c_str()); return 3; } Plan p=parsePlan(t); g_res=(Result*)shm(sizeof(Result)); g_echo=o.count("echo"); runChild(*s,&p,0,0);
    printf("class=%s hash=%s detail=%s\n",g_res->viol?g_res->cls:"none",hexd(g_res->hash).c_str(),g_res->detail);
    bool ok=g_res->viol&&cls==g_res->cls&&(hash.empty()||hash==hexd(g_res->hash)); if(ok){ printf("VIOLATION property=%s replay=%s\n",prop.c_str(),pos[1].c_str()); return 1; } 
    if(g_res->viol) { printf("a different violation\n"); return 4; } printf("no violation\n"); return 0; }
  Scenario* s=find(o["prop"]); if(!s){ fprintf(stderr,"no scenario for property %s\n",o["prop"].c_str()); return 3; }
  uint64_t master=o.count("seed")?strtoull(o["seed"].c_str(),0,10):1; int tier=o["tier"]=="thorough"; 
  if(pos[0]=="dump"){ printf("%s",planText(s->gen(seedFor(master,s->prop,strtoull(o["index"].c_str(),0,10)),tier)).c_str()); return 0; }
  if(pos[0]=="one"){ g_res=(Result*)shm(sizeof(Result)); g_echo=o.count("echo"); Plan p=parsePlan(planText(s->gen(seedFor(master,s->prop,strtoull(o["index"].c_str(),0,10)),tier))); runChild(*s,&p,0,tier); printf("viol=%d class=%s hash=%s steps=%lu events=%lu detail=%s\n",g_res->viol,g_res->cls,hexd(g_res->hash).c_str(),g_res->steps,g_res->events,g_res->detail); for(uint32_t k=0;k<g_res->nstat;k++) printf("  %s=%lu\n",g_res->stat[k],g_res->statn[k]); return g_res->viol; }
  if(pos[0]!="run") return 3;
  int W=o.count("jobs")?atoi(o["jobs"].c_str()):8; uint64_t n=o.count("runs")?strtoull(o["runs"].c_str(),0,10):(tier?s->thoroughRuns:s->quickRuns); double cap=o.count("cap")?atof(o["cap"].c_str()):(tier?3600:240);
  std::string tmp=o.count("tmp")?o["tmp"]:"/tmp/simtmp"; mkdir(tmp.c_str(),0755); std::string rdir=o.count("replays")?o["replays"]:tmp; mkdir(rdir.c_str(),0755);
  printf("simulation property=%s tier=%s VERIF_SEED=%lu runs=%lu jobs=%d\n",s->prop,tier?"thorough":"quick",master,n,W); fflush(stdout);
  g_cov=(unsigned char*)shm(65536); double t0=now(); std::vector<pid_t> ws; 
  for(int w=0;w<W;w++){ pid_t k=fork(); if(k==0) worker(*s,master,tier,n,w,W,t0+cap,tmp+"/w"+std::to_string(getppid())+"_"+std::to_string(w)); ws.push_back(k);} 
  for(auto k:ws){ int st; waitpid(k,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)){ fprintf(stderr,"worker failed\n"); return 3; } }
  Agg a; for(int w=0;w<W;w++){ std::string fn=tmp+"/w"+std::to_string(getpid())+"_"+std::to_string(w); std::ifstream f(fn); std::string l; while(std::getline(f,l)){ std::istringstream is(l); std::string k; is>>k; uint64_t x; if(k=="runs"){is>>x;a.runs+=x;} else if(k=="events"){is>>x;a.events+=x;} else if(k=="steps"){is>>x;a.steps+=x;} else if(k=="switches"){is>>x;a.switches+=x;} else if(k=="simns"){double d;is>>d;a.simns+=d;} else if(k=="nviol"){is>>x;a.nviol+=x;} else if(k=="nondet"){is>>x;a.nondet+=x;} else if(k=="detchk"){is>>x;a.detchk+=x;} else if(k=="stat"){ std::string nm; uint64_t y; is>>nm>>x>>y; a.stats[nm]+=x; a.runsWith[nm]+=y; } else if(k=="shape"){ is>>x; a.shapes.insert(x);} else if(k=="viol"){ Viol v; is>>v.ix>>v.cls; std::getline(is,v.detail); a.v.push_back(v);} } unlink(fn.c_str()); }
  double wall=now()-t0; g_res=(Result*)shm(sizeof(Result)); auto* cov=g_cov; g_cov=nullptr;
  std::sort(a.v.begin(),a.v.end(),[](const Viol&x,const Viol&y){return x.ix<y.ix;});
  std::vector<Known> known=loadKnown(o["known"]); int exitc=0; std::set<std::string> seen; uint64_t reported=0,unrepro=0; std::set<size_t> knownHit;
  std::vector<std::string> out;
  for(auto&v:a.v){ if(!seen.insert(v.cls).second) continue; bool k=false; for(size_t i=0;i<known.size();i++) if(known[i].prop==s->prop&&glob1(known[i].cls.c_str(),v.cls.c_str())){ k=true; knownHit.insert(i);} if(k) continue; if(reported>=(o.count("all")?50:3)) continue;
    Plan p=parsePlan(planText(s->gen(seedFor(master,s->prop,v.ix),tier))); runChild(*s,&p,0,tier); uint64_t h1=g_res->hash; std::string c1=g_res->cls; runChild(*s,&p,0,tier); if(g_res->hash!=h1||c1!=v.cls||c1!=g_res->cls){ unrepro++; fprintf(stderr,"run %lu (%s) did not reproduce; not reported\n",v.ix,v.cls.c_str()); continue; }
    int ex=0; Plan m=minimise(*s,p,v.cls,o.count("minsec")?atof(o["minsec"].c_str()):25,ex); runChild(*s,&m,0,tier); std::string det=g_res->detail; std::string fn=rdir+"/"+s->prop+"-"+std::to_string(master)+"-"+std::to_string(v.ix)+".replay";
    { std::ofstream f(fn); f<<"# property: "<<s->prop<<"\n# class: "<<v.cls<<"\n# hash: "<<hexd(g_res->hash)<<"\n# seed: VERIF_SEED="<<master<<" run="<<v.ix<<" runseed="<<seedFor(master,s->prop,v.ix)<<"\n# detail: "<<det<<"\n# minimised from "<<p.size()<<" to "<<m.size()<<" ops in "<<ex<<" executions\n# replay with: sim replay <this file> [--echo]\n"<<planText(m); }
    std::string self="/proc/self/exe"; char buf[4096]; ssize_t bn=readlink("/proc/self/exe",buf,4095); if(bn>0){buf[bn]=0; self=buf;} std::string cmd="'"+self+"' replay '"+fn+"' >/dev/null 2>&1"; int rc=system(cmd.c_str()); if(!WIFEXITED(rc)||WEXITSTATUS(rc)!=1){ unrepro++; fprintf(stderr,"fresh-process replay of %s did not reproduce (rc=%d); not reported\n",fn.c_str(),rc); continue; }
    printf("class=%s run=%lu: %s\n",v.cls.c_str(),v.ix,det.c_str()); printf("VIOLATION property=%s replay=%s\n",s->prop,fn.c_str()); reported++; exitc=1; }
  for(size_t i=0;i<known.size();i++) if(known[i].prop==s->prop) printf("KNOWN-FINDING: property=%s %s\n",s->prop,known[i].desc.c_str());
  int edges=0; for(int i=0;i<65536;i++) edges+=cov[i];
  uint64_t faults=0; std::string fj,pj,oj,ij; for(auto&p:a.stats){ std::string e="\""+jesc(p.first)+"\": {\"times\": "+std::to_string(p.second)+", \"runs\": "+std::to_string(a.runsWith[p.first])+"}"; std::string* d=&ij; if(p.first.compare(0,6,"fault.")==0){d=&fj;faults+=p.second;} else if(p.first.compare(0,6,"probe.")==0) d=&pj; else if(p.first.compare(0,3,"op.")==0) d=&oj; if(!d->empty()) *d+=", "; *d+=e; }
  if(o.count("evidence")){ std::ofstream e(o["evidence"]); Plan sp=s->gen(seedFor(master,s->prop,0),tier), sp2=s->gen(seedFor(master,s->prop,1),tier);
    std::string t1=planText(sp).substr(0,3000),t2=planText(sp2).substr(0,3000);
    e<<"{\n \"property\": \""<<s->prop<<"\",\n \"tier\": \""<<(tier?"thorough":"quick")<<"\",\n \"seed\": "<<master<<",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "<<a.runs<<",\n  \"distinct_nontrivial\": "<<a.shapes.size()<<",\n  \"rule\": \""<<jesc(s->rule)<<" Counted as distinct: the hash of the run's sequence of operations, injected faults and outcomes; runs with equal hashes are counted once.\",\n  \"samples\": [\""<<jesc(t1)<<"\", \""<<jesc(t2)<<"\"],\n"
     <<"  \"runs_per_hour\": "<<(uint64_t)(a.runs/std::max(wall,0.001)*3600)<<",\n  \"simulated_seconds\": "<<a.simns*1e-9<<",\n  \"events_logged\": "<<a.events<<",\n  \"library_basic_blocks_executed\": "<<a.steps<<",\n  \"distinct_library_block_slots_reached\": "<<edges<<",\n  \"context_switches\": "<<a.switches<<",\n  \"faults_fired_total\": "<<faults<<",\n  \"faults_fired\": {"<<fj<<"},\n  \"probes\": {"<<pj<<"},\n  \"operations\": {"<<oj<<"},\n  \"simulated_io\": {"<<ij<<"},\n  \"determinism_rechecks\": "<<a.detchk<<",\n  \"determinism_mismatches\": "<<a.nondet<<",\n  \"real_components\": \""<<jesc(s->realParts)<<"\",\n  \"stubbed_components\": \""<<jesc(s->stubParts)<<"\",\n  \"unreproduced_candidates\": "<<unrepro<<"\n },\n \"assumptions\": [\"seeded sampling, not enumeration: a clean batch is evidence, not proof\", \"the simulated disk, clock, allocator and scheduler stand for the operating system\"],\n \"wall_s\": "<<wall<<",\n \"violations\": "<<reported<<"\n}\n"; }
  printf("runs=%lu distinct=%zu faults=%lu blocks=%d detchk=%lu nondet=%lu violating_runs=%lu wall=%.1fs\n",a.runs,a.shapes.size(),faults,edges,a.detchk,a.nondet,a.nviol,wall);
  if(o.count("stats")) for(auto&p:a.stats) printf("  %-40s %lu in %lu runs\n",p.first.c_str(),p.second,a.runsWith[p.first]);
  if(unrepro&&!exitc){ fprintf(stderr,"unreproducible violation candidates: %lu\n",unrepro); return 3; }
  return exitc;
}
