// C06: a data file damaged on the disk is read to an end without a crash, a
// memory error, a hang or a runaway allocation; errors stay in the stream.
#include "io.hpp"
#include <algorithm>
using namespace sim; using namespace fmt; using std::string;
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(fmtOp(g,"",g.chance(0.2)?16:6)); Op c("!mode"); c.set("exc",g.chance(0.3)); c.set("xh",g.chance(0.6)); c.set("retry",g.chance(0.5)); c.set("cap",g.range(1,60)); p.push_back(c);
  int k=g.range(1,5); for(int i=0;i<k;i++) p.push_back(damageOp(g)); return p; }
static void exec(const Plan& p){ Fix f=fixture(p); const string who=f.set->name; string t=f.text; bool exc=false,xh=true,retry=false; int cap=30;
  for(auto&o:p){ if(o.kind=="!mode"){ exc=o.i("exc"); xh=o.i("xh"); retry=o.i("retry"); cap=o.i("cap",30); continue; } if(o.kind!="!fmt") damage(t,o); }
  string path="/sim/c.dat"; disk().put(path,t); size_t got=0; int fails=0; size_t big=0; 
  { std::unique_ptr<Src> r; try{ r=f.set->reader(path); if(exc) r->s().exceptions(std::ios::failbit); } catch(gpstk::Exception&){ probe("refused_at_open"); return; }
    auto attempt=[&](const std::function<void()>& fn)->bool{ try{ fn(); return (bool)r->s(); } catch(gpstk::Exception& e){ if(!exc) fail("corrupt-"+who+"-throw","an exception left a stream whose exceptions are off: "+e.getText()); return false; } catch(std::ios_base::failure&){ return false; } };
    bool hdr=f.set->hdr&&(xh||!f.set->implicitHdr); if(hdr&&!attempt([&]{ r->header(); })){ probe("header_refused"); lg().shapeEv("h"); if(!retry) return; r->s().clear(); }
    while(got<(size_t)cap&&fails<3){ if(attempt([&]{ r->get(); })){ if(!r->isEnd()) { got++; try{ r->dump(); } catch(Violation&){ throw; } catch(...){ probe("record_not_printable"); } } else got++; } else { fails++; if(r->s().eof()) break; if(!retry) break; r->s().clear(); probe("retried"); } big=std::max<size_t>(big,al().liveBytes); }
    if(got>=(size_t)cap) probe("cap_reached"); if(fails) probe("record_refused"); }
  lg().shapeEv(std::to_string(got)+"/"+std::to_string(fails)); ev(std::to_string(got)+" records, "+std::to_string(fails)+" failures");
  if(big>((size_t)64<<20)) fail("corrupt-"+who+"-memory","reading a "+std::to_string(t.size())+" byte file held "+std::to_string(big)+" bytes"); }
static Reg r({"C06","A run damages one seeded file in one of 16 formats with 1-5 storage faults (bit flips, zeroed or lost or duplicated or misplaced blocks and lines, altered digits, truncation) and reads it, optionally clearing and retrying after each error. Non-trivial: at least one byte damaged.","all gpstk readers, libstdc++ filebuf","disk, allocator (red zones, double-free detection, memory limit)",60000,2000000,gen,exec,60000000});
