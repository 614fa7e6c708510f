// C01: streams on distinct files used from distinct threads (or interleaved by
// one) each see exactly what they would see alone.
#include "io.hpp"
using namespace sim; using namespace fmt; using std::string;
static string qlist(Rng& g){ int k=g.range(0,4); string s; int n=g.range(1,8); for(int i=0;i<n;i++){ int q=k==0?g.range(1,40):k==1?g.range(20,400):k==2?g.range(300,6000):k==3?g.range(1000,60000):(g.chance(0.5)?g.range(1,60):g.range(500,20000)); s+=(i?",":"")+std::to_string(q); } return s; }
static std::vector<int> parse(const string& s){ std::vector<int> v; size_t i=0; while(i<s.size()){ v.push_back(atoi(s.c_str()+i)); i=s.find(',',i); if(i==string::npos) break; i++; } return v; }
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op s("!sched"); s.sets("_q",qlist(g)); string c; int n=g.range(1,5); for(int i=0;i<n;i++) c+=(i?",":"")+std::to_string(g.range(1,3)); s.sets("_c",c); s.set("_sys",g.chance(0.5)); p.push_back(s);
  bool same=g.chance(0.5); string nm=g.pick(names()); int k=g.range(2,4); for(int i=0;i<k;i++){ Op o("thr"); o.sets("name",same||g.chance(0.3)?nm:g.pick(names())); o.set("_seed",g.next()>>1); o.set("n",g.range(1,7)); o.set("mode",g.range(0,5)); o.set("_pseed",g.next()>>1); o.set("pn",g.range(1,4)); o.set("pr",g.range(0,4)); o.set("pc",g.chance(0.5)); o.set("exc",g.chance(0.3)); o.set("xh",g.chance(0.6)); o.set("chunk",g.chance(0.4)?g.range(1,200):0); p.push_back(o); } return p; }
static void exec(const Plan& p){ SchedPolicy sp; struct T { std::unique_ptr<Set> set; Fix f; int mode; ReadOpt ro; string in,out; int rounds; string res; Got g; string copied; bool copyBad=false; std::unique_ptr<Set> prev; string prevIn; int prevRecs=0; bool prevClose=false; }; std::vector<std::unique_ptr<T>> ts;
  for(auto&o:p){ if(o.kind=="!sched"){ for(int q:parse(o.s("_q"))) sp.quanta.push_back(q<1?1:q); for(int c:parse(o.s("_c"))) sp.choice.push_back(c); sp.atSyscalls=o.i("_sys"); }
    if(o.kind=="thr"){ std::unique_ptr<T> t(new T); t->mode=o.i("mode"); Plan q; Op f("!fmt"); f.a=o.a; q.push_back(f); t->f=fixture(q); t->ro.exceptions=o.i("exc"); t->ro.explicitHdr=o.i("xh"); t->in="/sim/in"+std::to_string(ts.size()); t->out="/sim/out"+std::to_string(ts.size()); disk().put(t->in,t->f.text); if(o.i("chunk")){ disk().pol[t->in].readMax=o.i("chunk"); disk().pol[t->out].writeSizes={(int)o.i("chunk"),-1}; } if(t->mode>=4){ t->prev=make(o.s("name"),o.i("_pseed"),o.i("pn",1)); t->prevIn="/sim/prev"+std::to_string(ts.size()); disk().put(t->prevIn,t->prev->build()); t->prevRecs=o.i("pr"); t->prevClose=o.i("pc"); } ts.push_back(std::move(t)); } }
  std::vector<std::function<void()>> b; for(auto&tp:ts){ T* t=tp.get(); b.push_back([t]{
      if(t->mode==0||t->mode==3) t->g=readAll(*t->f.set,t->in,t->ro);
      if(t->mode==1||t->mode==3){ auto w=t->f.set->writer(t->out,false,false); w->header(true); for(int i=0;i<t->f.set->n();i++) w->put(i); w->close(); }
      if(t->mode==4) t->g=readAll(*t->f.set,t->in,t->ro,t->prevIn,t->prevRecs,t->prevClose);
      if(t->mode==5){ auto w=t->prev->writer(t->prevIn,false,false); w->header(true); for(int i=0;i<t->prev->n()&&i<t->prevRecs;i++) w->put(i); if(t->prevClose) w->close(); w->reopen(t->out,*t->f.set); w->header(true); for(int i=0;i<t->f.set->n();i++) w->put(i); w->close(); }
      if(t->mode==2) t->copied=t->f.set->copy(t->in,t->out); }); }
  runThreads(b,sp); if(switches()) probe("runs_with_switches"); lg().count("fault.preemption",switches()); lg().shapeEv(std::to_string(switches()));
  for(size_t k=0;k<ts.size();k++){ T& t=*ts[k]; const string who=t.f.set->name; string w=" (thread "+std::to_string(k)+" of "+std::to_string(ts.size())+")"; opc("mode"+std::to_string(t.mode)+"."+who);
    if(t.mode==0||t.mode==3||t.mode==4){ Got& g=t.g; if((t.f.set->hdr&&(t.ro.explicitHdr||!t.f.set->implicitHdr)&&(!g.hdrOk||g.hdr!=t.f.wantHdr))) fail("isolation-"+who+"-header","header "+diffAt(t.f.wantHdr,g.hdr)+g.exc+w); for(size_t i=0;i<t.f.want.size();i++) if(i>=g.recs.size()||g.recs[i]!=t.f.want[i]) fail("isolation-"+who+"-record","record "+std::to_string(i)+" read while other streams were in use "+(i<g.recs.size()?diffAt(t.f.want[i],g.recs[i]):"missing: "+g.exc)+w); if(g.recs.size()>t.f.want.size()) fail("isolation-"+who+"-extra","extra records"+w); }
    if(t.mode==1||t.mode==3||t.mode==5) if(disk().get(t.out)!=t.f.text) fail("isolation-"+who+"-written","file written while other streams were in use "+diffAt(t.f.text,disk().get(t.out))+w);
    if(t.mode==2){ Got c=readAll(*t.f.set,t.out,ReadOpt()); if(c.recs!=t.f.want) fail("isolation-"+who+"-copied","file copied while other streams were in use has "+std::to_string(c.recs.size())+" of "+std::to_string(t.f.want.size())+" records or altered ones"+w); } } }
static Reg r({"C01","A run has 2-4 real threads, each reading, writing or copying its own seeded file in one of 16 formats (also with a stream object used on another file before), preempted at seeded library basic blocks and system calls (one runs at a time). Non-trivial: at least one preemption.","all gpstk readers and writers, libstdc++ streams, pthreads","thread scheduler (one thread at a time, seeded switch points), disk, allocator",10000,500000,gen,exec,400000000});
