// C04: a write the stream reported as done is on the disk after flush/close; a
// full or failing disk is reported by the put, flush or close that met it.
#include "io.hpp"
#include <algorithm>
using namespace sim; using namespace fmt; using std::string;
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(fmtOp(g,"",g.chance(0.5)?60:8)); Op c("!mode"); c.set("exc",g.chance(0.4)); string s; if(g.chance(0.6)){ int n=g.range(1,5); for(int i=0;i<n;i++) s+=(i?",":"")+std::to_string(g.chance(0.2)?0:g.chance(0.3)?-1:g.range(1,3000)); s+=",-1"; } c.sets("_sizes",s); p.push_back(c);
  int k=g.range(0,6); for(int i=0;i<k;i++) p.push_back(Op("flush").set("after",g.range(0,40)));
  int w=g.range(0,4); if(w==0) p.push_back(Op("enospc").set("bp",g.range(0,1000000))); if(w==1) p.push_back(Op("eio").set("call",g.range(0,g.chance(0.5)?3:30)).set("n",-1)); if(w==2) p.push_back(Op("eio").set("call",g.range(0,g.chance(0.5)?3:30)).set("n",1)); 
  if(g.chance(0.1)) p.push_back(Op("badclose"));
  return p; }
static void exec(const Plan& p){ Fix f=fixture(p); const string who=f.set->name; string path="/sim/w.dat"; IoPolicy& P=disk().pol[path]; bool exc=false; std::set<int> fl; bool badclose=false;
  for(auto&o:p){ if(o.kind=="!mode"){ exc=o.i("exc"); string s=o.s("_sizes"); size_t i=0; while(i<s.size()){ P.writeSizes.push_back(atoi(s.c_str()+i)); i=s.find(',',i); if(i==string::npos) break; i++; } }
    if(o.kind=="flush"){ fl.insert(o.i("after")); } if(o.kind=="enospc"){ P.capacity=o.i("bp")*(int64_t)f.text.size()/1000000; opc("enospc"); } if(o.kind=="eio"){ P.writeErrAtCall=o.i("call"); P.writeErrCount=o.i("n"); opc("eio"); } if(o.kind=="badclose"){ P.closeFail=badclose=true; opc("badclose"); } }
  auto firedCount=[&]{ auto& S=lg().stats; return S["fault.write_enospc"]+S["fault.write_eio"]+S["fault.close_eio"]; };
  auto w=f.set->writer(path,false,exc); bool bad=false; string where; size_t acked=0; // bytes acknowledged by a successful flush
  auto guard=[&](const string& what,const std::function<void()>& fn){ if(bad) return; uint64_t f0=firedCount(); bool threw=false; string ex; try{ fn(); } catch(gpstk::Exception& e){ threw=true; ex=e.getText(); } catch(std::ios_base::failure& e){ threw=true; ex=e.what(); }
    bool fired=firedCount()>f0; bool failed=threw||!w->s(); ev(what+(failed?" failed ":" ok")+ex);
    if(failed&&!fired) fail("acked-"+who+"-spurious",what+" failed though the disk accepted everything: "+ex);
    if(!failed&&fired) fail("acked-"+who+"-silent",what+" reported success though a write to the disk failed during it");
    if(failed){ bad=true; where=what; probe("failure_reported_by_"+what.substr(0,what.find(' '))); } };
  unsigned long rn=0; guard("header",[&]{ w->header(true); }); 
  for(int i=0;i<f.set->n()&&!bad;i++){ rn=w->s().recordNumber; guard("put "+std::to_string(i),[&]{ w->put(i); }); 
    if(!bad&&w->s().recordNumber!=rn+1) fail("acked-"+who+"-number","record number "+std::to_string(rn)+" -> "+std::to_string(w->s().recordNumber)+" over one successful put");
    if(!bad&&fl.count(i)){ guard("flush",[&]{ w->s().flush(); }); if(!bad){ acked=f.marks[i+1]; probe("flush_acked"); if(disk().get(path)!=f.text.substr(0,acked)) fail("acked-"+who+"-flushed","after a successful flush the disk does not hold exactly the "+std::to_string(i+1)+" records written: "+diffAt(f.text.substr(0,acked),disk().get(path))); } } }
  lg().shapeEv(where+std::to_string(acked));
  if(!bad){ guard("close",[&]{ w->close(); }); if(!bad){ acked=f.text.size(); probe("clean_close"); if(disk().get(path)!=f.text) fail("acked-"+who+"-closed","after a successful close the file differs from what was written: "+diffAt(f.text,disk().get(path))); } }
  w.reset(); string d=disk().get(path); if(d.compare(0,acked,f.text,0,acked)!=0) fail("acked-"+who+"-lost","data acknowledged by a flush is not on the disk after a later failure ("+where+"): "+diffAt(f.text.substr(0,acked),d.substr(0,acked)));
  // and what was acknowledged reads back
  P=IoPolicy(); if(acked>=f.marks[0]){ Got g=readAll(*f.set,path,ReadOpt()); size_t whole=0; while(whole<f.want.size()&&f.marks[whole+1]<=acked) whole++; if(f.set->lookahead&&whole>0&&acked<f.text.size()) whole--; 
    for(size_t i=0;i<whole;i++) if(i>=g.recs.size()||g.recs[i]!=f.want[i]) fail("acked-"+who+"-unreadable","acknowledged record "+std::to_string(i)+" does not read back: "+(i<g.recs.size()?diffAt(f.want[i],g.recs[i]):g.exc)); } }
static Reg r({"C04","A run writes one seeded file in one of 16 formats through short and interrupted writes with a full disk at a byte, a failing n-th write (once or for good) or a failing close, and flushes at seeded records. Non-trivial: at least one put executed.","all gpstk writers and readers, libstdc++ filebuf","disk",40000,1500000,gen,exec,400000000});
