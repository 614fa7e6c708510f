// C25: a file loader either loads the whole file or reports failure, whatever
// read errors, failing opens and short reads it meets; a repeated load works.
// C26: loading a damaged file ends with success or a reported failure.
#include "loaders.hpp"
#include "io.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace sim; using std::string; using std::vector;
namespace {
string clip(const string& s){ return s.size()>160?s.substr(0,160)+"...":s; }
Op ldOp(Rng& g,bool damaged){ Op o("!ld"); o.sets("name",g.pick(ld::names())); o.set("_seed",g.next()>>1); o.set("nf",damaged?1:g.range(1,3)); o.set("nr",g.range(1,damaged?4:8)); return o; }
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(ldOp(g,false)); int nf=p[0].i("nf"),n=g.range(1,nf+1); for(int i=0;i<n;i++){ Op o("load"); o.set("f",g.range(0,nf-1)); if(g.chance(0.75)){ o.set("eio",g.chance(0.15)?1000:g.range(0,1000)); o.set("cnt",g.chance(0.5)?-1:g.range(1,3)); } if(g.chance(0.1)) o.set("open",1); if(g.chance(0.5)) o.set("short",g.chance(0.5)?g.range(1,60):g.range(60,4000)); if(g.chance(0.3)) o.set("eintr",g.range(1,5)); o.set("again",g.chance(0.8)); p.push_back(o); } if(g.chance(0.3)) p.push_back(Op("clear")); return p; }
string firstDiff(const string& a,const string& b){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; size_t s=a.rfind('\n',i?i-1:0); s=s==string::npos||s>i?0:s; return "expected '"+a.substr(s,std::min<size_t>(140,a.size()-s))+"' holds '"+b.substr(std::min(s,b.size()),140)+"'"; }
bool same(const string& a,const string& b){ if(a==b) return true; const char *x=a.c_str(),*y=b.c_str(); while(*x||*y){ if(*x==*y&&!isdigit(*x)&&*x!='-'){ x++; y++; continue; } char *p=0,*q=0; double u=strtod(x,&p),v=strtod(y,&q); if(p==x||q==y||!(fabs(u-v)<=1.01e-5*(memchr(x,'.',p-x)!=0))) return false; x=p; y=q; } return true; }
void exec(const Plan& p){ std::unique_ptr<ld::Loader> L; vector<int> loaded; string who; uint64_t fails=0;
  auto path=[](int f){ return "/sim/f"+std::to_string(f); };
  auto reference=[&]{ string w=L->want(loaded); if(!w.empty()||loaded.empty()) return w; return string(); };
  auto check=[&](const string& when){ if(loaded.empty()) return; string w=reference(),d=L->dump(); if(w.empty()){ auto M=ld::make(who,p[0].i("_seed"),p[0].i("nf"),p[0].i("nr")); M->fresh(); for(int f:loaded){ string q="/sim/ref"+std::to_string(f); disk().put(q,L->files[f]); string r=M->load(q); if(!r.empty()) fail("loader-"+who+"-refused","a good file is not loaded: "+clip(r)); } w=M->dump(); } if(!same(w,d)) fail("loader-"+who+"-content",when+" "+firstDiff(w,d)); };
  for(auto&o:p){
    if(o.kind=="!ld"){ who=o.s("name"); L=ld::make(who,o.i("_seed"),std::max<int64_t>(1,o.i("nf")),std::max<int64_t>(1,o.i("nr"))); for(size_t i=0;i<L->files.size();i++) disk().put(path(i),L->files[i]); L->fresh(); opc(who); for(auto&f:L->files) ev(f); continue; }
    if(o.kind=="clear"&&L&&!loaded.empty()&&L->clear()){ opc("clear"); probe("cleared"); for(int k:loaded){ string r=L->load(path(k)); if(!r.empty()) fail("loader-"+who+"-reload","a file loaded before is refused after clear(): "+clip(r)); } check("after clear() and loading again, the object"); continue; }
    if(o.kind!="load"||!L) continue; int f=o.i("f")%L->files.size(); if(std::count(loaded.begin(),loaded.end(),f)) continue; if(!L->multi&&!loaded.empty()) continue;
    IoPolicy io; if(o.has("short")) io.readMax=o.i("short"); if(o.has("eintr")) io.readSizes={(int)o.i("eintr")*300,0}; 
    auto recover=[&]{ if(L->retrySame) return; L->fresh(); for(int k:loaded) L->load(path(k)); };
    if(o.i("open")){ disk().pol[path(f)]=IoPolicy(); disk().pol[path(f)].openFail=true; fault("open_error"); string r=L->load(path(f)); if(r.empty()) fail("loader-"+who+"-open","a file that cannot be opened is loaded without any report"); recover(); disk().pol[path(f)]=IoPolicy(); }
    if(o.has("eio")){ io.readErrAt=(int64_t)L->files[f].size()*std::min<int64_t>(1000,o.i("eio"))/1000; io.readErrCount=o.i("cnt",-1); }
    disk().pol[path(f)]=io; uint64_t before=lg().stats["fault.read_eio"]; string r=L->load(path(f)); bool hit=lg().stats["fault.read_eio"]>before; disk().pol[path(f)]=IoPolicy(); ev("load "+path(f)+" "+(hit?"hit ":"")+clip(r)); lg().shapeEv(r.empty()?"k":"x"); string at="a file of "+std::to_string(L->files[f].size())+" bytes"+(hit?" with a read error at byte "+std::to_string(io.readErrAt):"");
    if(r.empty()){ loaded.push_back(f); check("after loading "+at+", reported as success, the object"); probe("loaded"); continue; }
    if(!hit) fail("loader-"+who+"-refused","loading "+at+" without any fault reports "+clip(r)); fails++; probe("refused"); recover(); if(!o.i("again")) { if(!L->retrySame) continue; L->fresh(); for(int k:loaded) L->load(path(k)); continue; }
    r=L->load(path(f)); if(!r.empty()) fail("loader-"+who+"-retry","loading "+at+" again, without faults, after the failed attempt reports "+clip(r)); loaded.push_back(f); check("after a failed and a repeated load of "+at+" the object"); probe("retried"); } }
Reg r({"C25","A run loads 1-3 seeded files of one of the library's file loaders with read errors (passing or lasting, anywhere in the file), failing opens, short and interrupted reads, repeats failed loads, and clears and loads again; what the object holds after each reported success is compared with the seeded content. Non-trivial: at least one load.","the file loaders, the record readers under them, libstdc++ filebuf","disk",15000,600000,gen,exec,120000000});

Plan gen26(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(ldOp(g,true)); int k=g.range(1,5); for(int i=0;i<k;i++) p.push_back(fmt::damageOp(g)); return p; }
void exec26(const Plan& p){ const Op& o=p.at(0); string who=o.s("name"); auto L=ld::make(who,o.i("_seed"),1,std::max<int64_t>(1,o.i("nr"))); opc(who); string t=L->files[0]; for(auto&x:p) if(x.kind[0]!='!') fmt::damage(t,x); disk().put("/sim/d",t); L->fresh(); int64_t live=al().liveBytes; string r; try{ r=L->load("/sim/d"); } catch(Violation&){ throw; } catch(std::exception& e){ fail("loader-"+who+"-leak",string("loading a damaged file ends with a foreign exception: ")+e.what()); } catch(...){ fail("loader-"+who+"-leak","loading a damaged file ends with a foreign exception"); } 
  probe(r.empty()?"accepted":"refused"); lg().shapeEv(r.empty()?"a":"r"); ev(clip(r)); if(r.empty()) try{ string d=L->dump(); ev(hexd(hashStr(d))); } catch(Violation&){ throw; } catch(gpstk::Exception&){ probe("dump_refused"); } catch(std::exception& e){ probe("dump_refused"); }
  if(al().liveBytes-live>((int64_t)64<<20)) fail("loader-"+who+"-memory","loading a "+std::to_string(t.size())+" byte file holds "+std::to_string(al().liveBytes-live)+" bytes"); }
Reg r26({"C26","A run damages a seeded file of one of the library's file loaders with 1-5 storage faults (bit flips, zeroed or lost or duplicated or misplaced blocks and lines, altered digits, truncation), loads it and lists what the object holds. Non-trivial: at least one byte damaged.","the file loaders, the record readers under them, libstdc++ filebuf","disk, allocator (red zones, double-free detection, memory limit)",30000,1000000,gen26,exec26,200000000});
}
