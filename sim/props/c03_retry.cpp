// C03: a transient read error: the record is
// reported as failed, and after clear() the same stream resumes exactly there.
#include "io.hpp"
#include <algorithm>
using namespace sim; using namespace fmt; using std::string;
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(fmtOp(g,"",g.chance(0.2)?20:7)); Op c("!mode"); c.set("exc",g.chance(0.4)); c.set("xh",g.chance(0.7)); c.sets("_sizes",g.chance(0.5)?std::to_string(g.range(1,300)):string("-1")); p.push_back(c);
  int k=g.range(1,5); for(int i=0;i<k;i++){ Op o("eio"); if(o.kind=="eio"){ o.set("bp",g.range(0,1000000)); o.set("rel",g.chance(0.4)?g.range(-4,4):99); o.set("n",g.chance(0.7)?1:g.range(2,4)); } else { o.set("rec",g.range(0,9)); o.set("at",g.chance(0.5)?g.range(0,12):g.range(0,150)); } p.push_back(o); }
  return p; }
static void exec(const Plan& p){ Fix f=fixture(p); const string who=f.set->name; int64_t N=f.text.size(); bool exc=false,xh=true; string sz;
  std::vector<int64_t> eio; std::vector<int> cnt; std::map<int,std::vector<int>> nomem;
  for(auto&o:p){ if(o.kind=="!mode"){ exc=o.i("exc"); xh=o.i("xh")||!f.set->implicitHdr; sz=o.s("_sizes"); }
    if(o.kind=="eio"){ int64_t at=o.i("rel")!=99?(int64_t)f.marks[o.i("bp")%f.marks.size()]+o.i("rel"):o.i("bp")*N/1000000; at=std::max<int64_t>(0,std::min(at,N-1)); eio.push_back(at); cnt.push_back(o.i("n",1)); opc("eio"); }
    if(o.kind=="nomem"){ nomem[o.i("rec")].push_back(o.i("at")); opc("nomem"); } }
  string path="/sim/r.dat"; disk().put(path,f.text); IoPolicy& P=disk().pol[path]; if(!sz.empty()) P.readSizes.push_back(atoi(sz.c_str()));
  size_t next=0; auto arm=[&]{ P.readErrAt=-1; if(next<eio.size()){ P.readErrAt=eio[next]; P.readErrCount=cnt[next]; next++; } };
  auto r=f.set->reader(path); if(exc) r->s().exceptions(std::ios::failbit);
  arm(); size_t got=0; int failures=0; bool hdr=f.set->hdr&&xh; int idx=0; int fires=0; 
  auto armedErr=[&]{ return P.readErrAt>=0&&P.readErrCount==0; };
  // a header failure is a reopen, as user programs do it; a record failure is a clear and retry
  int guard=0;
  while(guard++<400){
    if(hdr){ uint64_t fired0=al().fired; bool threw=false; try{ r->header(); } catch(gpstk::Exception&){ threw=true; } catch(std::ios_base::failure&){ threw=true; } 
      if(threw||!r->s()){ if(!(P.readErrAt>=0)) fail("retry-"+who+"-header-spurious","header read failed though no fault was injected"); failures++; probe("header_retry"); arm(); P.readErrAt=-1; r=f.set->reader(path); if(exc) r->s().exceptions(std::ios::failbit); continue; }
      (void)fired0; if(r->dumpHdr()!=f.wantHdr) fail("retry-"+who+"-header","header "+diffAt(f.wantHdr,r->dumpHdr())); hdr=false; continue; }
    bool threw=false; string ex; unsigned long rn=r->s().recordNumber; uint64_t fired0=al().fired; bool memArmed=false; auto it=nomem.find((int)got);
    if(it!=nomem.end()&&!it->second.empty()){ int at=it->second.back(); it->second.pop_back(); armAllocFail(at,1); memArmed=true; }
    uint64_t e0=lg().stats["fault.read_eio"];
    try{ r->get(); } catch(gpstk::Exception& e){ threw=true; ex=e.getText(); } catch(std::ios_base::failure& e){ threw=true; ex=e.what(); } catch(std::bad_alloc&){ threw=true; ex="bad_alloc"; }
    disarmAllocFail(); bool memFired=al().fired>fired0; if(memFired) fault("alloc_fail"); bool ioFired=lg().stats["fault.read_eio"]>e0;
    if(!threw&&r->s()){ if(r->isEnd()) continue; string d=r->dump(); ev("rec "+std::to_string(got)+" "+d);
      if(got>=f.want.size()) fail("retry-"+who+"-extra","more records than were written: "+d);
      if(d!=f.want[got]) fail("retry-"+who+"-record","record "+std::to_string(got)+" after "+std::to_string(failures)+" transient failures "+diffAt(f.want[got],d));
      if(got>0&&r->s().recordNumber!=rn+1) fail("retry-"+who+"-count","record number went from "+std::to_string(rn)+" to "+std::to_string(r->s().recordNumber)+" on one record");
      got++; if(memFired) probe("alloc_failure_absorbed"); if(ioFired) probe("io_error_absorbed"); continue; }
    bool eof=r->s().eof()&&!threw; ev("failure at record "+std::to_string(got)+" eof="+std::to_string(eof)+" "+ex); lg().shapeEv("f"+std::to_string(got)+(ioFired?"i":"")+(memFired?"m":""));
    if(!ioFired&&!memFired){ if(eof||(threw&&got==f.want.size())) break; fail("retry-"+who+"-spurious","record "+std::to_string(got)+" failed with no fault injected in that call: "+ex); }
    if(got==0&&f.set->hdr&&!xh){ failures++; probe("implicit_header_retry"); arm(); if(!(P.readErrAt>=0&&P.readErrCount!=0)) P.readErrAt=-1; r=f.set->reader(path); if(exc) r->s().exceptions(std::ios::failbit); continue; }
    failures++; idx++; fires++; probe(ioFired?"retry_after_io":"retry_after_alloc");
    if(r->s().recordNumber!=rn) fail("retry-"+who+"-number","record number moved from "+std::to_string(rn)+" to "+std::to_string(r->s().recordNumber)+" over a failed read");
    if(ioFired&&P.readErrCount==0) arm(); r->s().clear(); }
  if(got!=f.want.size()) fail("retry-"+who+"-lost","only "+std::to_string(got)+" of "+std::to_string(f.want.size())+" records after "+std::to_string(failures)+" transient failures"); 
  if(failures) probe("resumed_to_the_end"); }
static Reg r({"C03","A run reads one seeded file in one of 16 formats with 1-5 transient faults (EIO on the read covering a byte), clearing and retrying. Non-trivial: a fault fired inside a read.","all gpstk readers and writers, libstdc++ filebuf","disk",40000,1500000,gen,exec,200000000});
