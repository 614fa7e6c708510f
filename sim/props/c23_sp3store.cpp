// C23: SP3EphemerisStore loaded from SP3 and RINEX clock files in any order,
// with overlaps, reloads, rejected records, read errors and failing opens.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <cmath>
#include <sstream>
#include <memory>
#include "SP3EphemerisStore.hpp"
#include "SP3Stream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "SP3SatID.hpp"
#include "Rinex3ClockStream.hpp"
#include "Rinex3ClockHeader.hpp"
#include "Rinex3ClockData.hpp"
#include "RinexSatID.hpp"
#include "GPSWeekSecond.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::map; using std::set; using std::vector;
namespace {
struct Sp { SatID sat; CommonTime t; PositionRecord p; ClockRecord c; bool badP=false,badC=false,predP=false,predC=false; };
struct File { string path; bool clk=false; bool alien=false; double v=0; vector<Sp> r; string text; };
struct World { int ver; bool vel; TimeSystem ts; int step; int64_t base; uint64_t seed; };
double q(Rng& g,int dec,double lo,double hi){ char b[60]; double x; do{ snprintf(b,60,"%.*f",dec,lo+(hi-lo)*g.unit()); x=strtod(b,0); } while(x==0); return x; }
double e12(Rng& g,double m){ char b[60]; snprintf(b,60,"%.11E",(g.unit()-0.5)*m); double x=strtod(b,0); return x==0?m/8:x; }
CommonTime T(const World& w,int64_t t,TimeSystem ts){ int64_t s=w.base+t; GPSWeekSecond k(1990+(unsigned)(s/604800),(double)(s%604800),TimeSystem::GPS); CommonTime x(k); x.setTimeSystem(ts); return x; }
SatID S(const World& w,int i){ return w.ver&&i%3==2?SatID(i+1,SatelliteSystem::Glonass):SatID(i+1,SatelliteSystem::GPS); }
// write one file with the library's own writer, and say what it holds
File mk(const World& w,const Op& o,int id){ File f; Rng g(o.i("_seed")); f.clk=o.i("clk"); f.alien=o.i("alien"); f.path="/sim/f"+std::to_string(id); int ns=std::max<int64_t>(1,o.i("ns",1)),ne=std::max<int64_t>(1,o.i("ne",1)),e0=o.i("e0"),s0=o.i("s0"); TimeSystem ts=f.alien?(w.ts==TimeSystem::UTC?TimeSystem::GPS:TimeSystem::UTC):w.ts; double pbad=o.i("bad")/100.0,ppred=o.i("pred")/100.0,ploss=o.i("loss")/100.0;
  if(f.clk){ Rinex3ClockStream s(f.path.c_str(),std::ios::out|std::ios::trunc); Rinex3ClockHeader h; h.version=3.0; h.program="sim"; h.runby="sim"; h.dataTypes={"AR","AS"}; h.analCenterDesignator="IGS"; h.analysisCenter="sim"; h.terrRefFrame="IGS08"; h.timeSystem=f.alien?TimeSystem::UTC:TimeSystem::GPS; h.leapSeconds=15; h.numSolnStations=1; h.stationID["AAAA"]="1"; h.stationX["AAAA"]="1000"; h.stationY["AAAA"]="1000"; h.stationZ["AAAA"]="1000"; h.numSolnSatellites=ns; for(int i=0;i<ns;i++) h.satList.push_back(RinexSatID(S(w,s0+i))); h.valid=Rinex3ClockHeader::allRequiredValid|Rinex3ClockHeader::timeSystemValid; s<<h;
    int cstep=o.i("_cstep",w.step); for(int e=0;e<ne;e++) for(int i=0;i<ns;i++){ if(g.chance(ploss)) continue; Rinex3ClockData d; bool ar=g.chance(0.15); d.datatype=ar?"AR":"AS"; d.sat=RinexSatID(S(w,s0+i)); d.site="AAAA"; d.time=T(w,(int64_t)e0*w.step+(int64_t)e*cstep,TimeSystem::GPS); d.bias=e12(g,1e-3); d.sig_bias=std::fabs(e12(g,1e-10)); d.drift=0.0; d.sig_drift=0.0; d.accel=0.0; d.sig_accel=0.0; if(w.vel){ d.drift=e12(g,1e-9); d.sig_drift=std::fabs(e12(g,1e-13)); } s<<d; if(ar) continue; Sp r; r.sat=S(w,s0+i); r.t=d.time; r.c.bias=d.bias; r.c.sig_bias=d.sig_bias; r.c.drift=d.drift; r.c.sig_drift=d.sig_drift; r.c.accel=r.c.sig_accel=0; f.r.push_back(r); }
    s.close(); }
  else { int v=o.has("ver")?o.i("ver"):w.ver; SP3Stream s(f.path.c_str(),std::ios::out|std::ios::trunc); SP3Header h; h.version=v==0?SP3Header::SP3a:v==1?SP3Header::SP3c:SP3Header::SP3d; h.containsVelocity=w.vel; h.allowSP3aEvents=false; h.epochInterval=w.step; h.dataUsed="ORBIT"; h.coordSystem="ITR97"; h.orbitType="FIT"; h.agency="SIM"; h.system=SP3SatID(-1,v==0?SatelliteSystem::GPS:SatelliteSystem::Mixed); h.timeSystem=v==0?TimeSystem(TimeSystem::Any):ts; h.basePV=1.25; h.baseClk=1.025; for(int i=0;i<ns;i++) h.satList[SP3SatID(S(w,s0+i))]=1; for(int i=0;i<4;i++) h.comments.push_back("simulated"); TimeSystem dts=v==0?TimeSystem(TimeSystem::Any):ts; h.time=T(w,(int64_t)e0*w.step,dts); h.numberOfEpochs=ne; s<<h;
    for(int e=0;e<ne;e++){ SP3Data ep; ep.RecType='*'; CommonTime t=T(w,(int64_t)(e0+e)*w.step,dts); ep.time=t; vector<SP3Data> rows; for(int i=0;i<ns;i++){ if(g.chance(ploss)) continue; Sp r; r.sat=S(w,s0+i); r.t=t; SP3Data d; d.RecType='P'; d.sat=r.sat; d.time=t; r.badP=g.chance(pbad); r.badC=g.chance(pbad); for(int k=0;k<3;k++) d.x[k]=q(g,6,-29999,29999); if(r.badP) d.x[0]=d.x[1]=d.x[2]=0; d.clk=r.badC?999999.999999:q(g,6,-999,999); d.eventFlag=false; d.clockEventFlag=false; d.orbitManeuverFlag=g.chance(0.2); d.clockPredFlag=v&&g.chance(ppred); d.orbitPredFlag=v&&g.chance(ppred); r.predP=d.orbitPredFlag; r.predC=d.clockPredFlag; for(int k=0;k<4;k++) d.sig[k]=v?g.range(1,60):0; d.correlationFlag=v&&g.chance(0.3); for(int k=0;k<4;k++) d.sdev[k]=g.range(0,9999); for(int k=0;k<6;k++) d.correlation[k]=g.range(-999,999);
        for(int k=0;k<3;k++){ r.p.Pos[k]=d.x[k]; r.p.sigPos[k]=v?(d.correlationFlag?(double)d.sdev[k]:std::pow(h.basePV,d.sig[k])):0; r.p.Vel[k]=r.p.sigVel[k]=r.p.Acc[k]=r.p.sigAcc[k]=0; } r.c.bias=d.clk; r.c.sig_bias=v?(d.correlationFlag?d.sdev[3]*1e-6:std::pow(h.baseClk,d.sig[3])*1e-6):0; r.c.drift=r.c.sig_drift=r.c.accel=r.c.sig_accel=0; rows.push_back(d);
        if(w.vel){ SP3Data vd=d; vd.RecType='V'; for(int k=0;k<3;k++) vd.x[k]=q(g,6,-39999,39999); vd.clk=q(g,6,-999,999); vd.correlationFlag=v&&g.chance(0.3); for(int k=0;k<4;k++) vd.sig[k]=v?g.range(1,60):0; for(int k=0;k<3;k++){ r.p.Vel[k]=vd.x[k]; r.p.sigVel[k]=v?(vd.correlationFlag?(double)vd.sdev[k]:std::pow(h.basePV,vd.sig[k])):0; } r.c.drift=vd.clk*1e-4; r.c.sig_drift=v?(vd.correlationFlag?vd.sdev[3]*1e-10:std::pow(h.baseClk,vd.sig[3])*1e-10):0; rows.push_back(vd); }
        f.r.push_back(r); }
      if(rows.empty()) continue; s<<ep; for(auto&d:rows) s<<d; }
    s.close(); }
  f.text=disk().get(f.path); return f; }
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op c("!cfg"); c.set("ver",g.range(0,2)); c.set("vel",g.chance(0.5)); c.set("ts",g.range(0,1)); c.set("_step",g.pick(vector<int64_t>{900,300,60})); c.set("_base",g.range(0,3000000)/900*900); c.set("rbp",g.chance(0.8)); c.set("rbc",g.chance(0.8)); c.set("rpp",g.chance(0.4)); c.set("rpc",g.chance(0.4)); c.set("rinex",g.chance(0.4)); c.set("nh",g.pick(vector<int64_t>{5,5,3,2})); c.set("lin",g.chance(0.3)); bool mix=g.chance(0.3); p.push_back(c);
  int nf=g.range(1,5); bool rx=c.i("rinex"); int step=c.i("_step"); for(int i=0;i<nf;i++){ Op o("!file"); o.set("_seed",g.next()>>1); bool clk=(rx||mix)&&g.chance(0.5); o.set("clk",clk); o.set("ns",g.range(1,4)); o.set("s0",g.range(0,2)); o.set("e0",g.range(0,12)); o.set("ne",g.range(1,g.chance(0.3)?4:16)); if(clk) o.set("_cstep",g.pick(vector<int64_t>{step,30,step/3})); else { o.set("bad",g.chance(0.4)?10:0); o.set("pred",g.chance(0.4)?30:0); } o.set("loss",g.chance(0.3)?15:0); if(g.chance(0.06)) o.set("alien",1); p.push_back(o); }
  int nl=g.range(1,2*nf+1); for(int i=0;i<nl;i++){ Op o("load"); o.set("f",i<nf&&g.chance(0.8)?i:g.range(0,nf-1)); if(g.chance(0.25)) o.set("eio",g.range(0,1000)); if(g.chance(0.06)) o.set("open",1); if(g.chance(0.3)) o.set("short",g.range(1,300)); if(g.chance(0.3)) o.set("special",1); if(g.chance(0.4)) o.set("as",g.range(1,3)); p.push_back(o); if(g.chance(0.05)) p.push_back(Op("clear")); if(mix&&g.chance(0.5)) p.push_back(Op(g.pick(vector<string>{"clearpos","clearclk","swap"}))); if(g.chance(0.1)){ Op e("edit"); int a=g.range(0,20),b=g.range(0,26); e.set("a",std::min(a,b)); e.set("b",std::max(a,b)); p.push_back(e); } }
  if(g.chance(0.6)) { vector<Op> t(p.begin()+1+nf,p.end()); g.shuffle(t); std::copy(t.begin(),t.end(),p.begin()+1+nf); } int nq=g.range(2,8); for(int i=0;i<nq;i++){ Op o("q"); o.set("sat",g.range(0,6)); o.set("t",g.range(0,28)*step+(g.chance(0.5)?0:g.range(0,step))); p.push_back(o); } return p; }
string cut(const string& s,const char* from){ size_t i=s.find(from); return i==string::npos?string("missing ")+from:s.substr(i); }
string posDump(const SP3EphemerisStore& s){ std::ostringstream o; s.dumpPosition(o,2); return cut(o.str(),"Dump of PositionSatStore"); }
string clkDump(const SP3EphemerisStore& s){ std::ostringstream o; s.dumpClock(o,2); return cut(o.str(),"Dump of ClockSatStore"); }
string diff(const string& a,const string& b){ std::istringstream x(a),y(b); string l,m; while(true){ bool p=(bool)std::getline(x,l),r=(bool)std::getline(y,m); if(!p&&!r) return "equal"; if(!p) l="(nothing)"; if(!r) m="(nothing)"; if(l!=m||!p||!r) return "holds '"+m+"' instead of '"+l+"'"; } }
string xs(const Xvt& x){ string s; for(int i=0;i<3;i++) s+=fmtd(x.x[i])+" "+fmtd(x.v[i])+" "; return s+fmtd(x.clkbias)+" "+fmtd(x.clkdrift)+" "+fmtd(x.relcorr)+" h"+std::to_string((int)x.health); }
string xvt(const SP3EphemerisStore& s,const SatID& id,const CommonTime& t){ try{ return xs(s.getXvt(id,t)); } catch(InvalidRequest&){ return "refused"; } }
struct Run { World w; bool rbp,rbc,rpp,rpc,rinex; SP3EphemerisStore s,ref; map<SatID,map<CommonTime,PositionRecord>> pos; map<SatID,map<CommonTime,ClockRecord>> clk; bool sysSet=false; set<string> loaded;
  void prep(SP3EphemerisStore& k,int nh,bool lin){ k.setPositionInterpOrder(2*nh); if(lin) k.setClockLinearInterp(); else k.setClockInterpOrder(2*nh); k.rejectBadPositions(rbp); k.rejectBadClocks(rbc); k.rejectPredPositions(rpp); k.rejectPredClocks(rpc); if(rinex) k.useRinexClockData(); }
  void into(const File& f){ for(auto&r:f.r){ if(f.clk){ ref.addClockRecord(r.sat,r.t,r.c); clk[r.sat][r.t]=r.c; continue; } bool fill=!rinex; if(rbp&&r.badP){ fault("record_rejected"); continue; } if(fill&&rbc&&r.badC){ fault("record_rejected"); continue; } if(rpp&&r.predP) fault("record_predicted"); else { ref.addPositionRecord(r.sat,r.t,r.p); pos[r.sat][r.t]=r.p; } if(fill){ if(rpc&&r.predC) fault("record_predicted"); else { ref.addClockRecord(r.sat,r.t,r.c); clk[r.sat][r.t]=r.c; } } } }
  void compare(const string& after){ string a=posDump(ref),b=posDump(s); if(a!=b) fail("sp3store-positions",after+" the position store "+diff(a,b)); a=clkDump(ref); b=clkDump(s); if(a!=b) fail("sp3store-clocks",after+" the clock store "+diff(a,b));
    int n=0; for(auto&x:pos){ n+=x.second.size(); if(s.ndata(x.first)!=(int)x.second.size()) fail("sp3store-count",after+" the store holds "+std::to_string(s.ndata(x.first))+" positions of a satellite instead of "+std::to_string(x.second.size())); } if(s.ndata()!=n||s.size()!=n) fail("sp3store-count",after+" the store holds "+std::to_string(s.ndata())+" positions instead of "+std::to_string(n)); n=0; for(auto&x:clk) n+=x.second.size(); if(s.ndataClock()!=n) fail("sp3store-count",after+" the store holds "+std::to_string(s.ndataClock())+" clocks instead of "+std::to_string(n));
    set<SatID> both; for(auto&x:pos) if(!x.second.empty()&&clk.count(x.first)&&!clk[x.first].empty()) both.insert(x.first); if(s.getIndexSet()!=both) fail("sp3store-index",after+" the index of satellites is wrong"); for(auto&x:both) if(!s.isPresent(x)) fail("sp3store-present",after+" a loaded satellite is not present");
    for(auto&x:both){ CommonTime pa=pos[x].begin()->first,pb=pos[x].rbegin()->first,ca=clk[x].begin()->first,cb=clk[x].rbegin()->first; if(rinex){ pa=std::max(pa,ca); pb=std::min(pb,cb); } if(s.getInitialTime(x)!=pa||s.getFinalTime(x)!=pb) fail("sp3store-times",after+" the time limits of a satellite are wrong"); } }
  void query(int sat,int64_t t){ SatID id=S(w,sat); CommonTime ct=T(w,t,w.ts); string a=xvt(ref,id,ct),b=xvt(s,id,ct),at=" for satellite "+std::to_string(sat)+" at "+std::to_string(t); ev("xvt"+at+" "+b); if(a!=b) fail("sp3store-xvt","getXvt gives "+b+" instead of "+a+at); probe(b=="refused"?"refused":"answered"); lg().shapeEv(b=="refused"?"r":"a");
    Xvt c=s.computeXvt(id,ct); if((c.health!=Xvt::Unavailable)!=(b!="refused")||(b!="refused"&&xs(c)!=b)) fail("sp3store-compute","computeXvt gives "+xs(c)+" where getXvt gives "+b+at); if(b=="refused") return;
    Triple p=s.getPosition(id,ct),v=s.getVelocity(id,ct); Xvt x=s.getXvt(id,ct); for(int i=0;i<3;i++) if(p[i]!=x.x[i]||v[i]!=x.v[i]) fail("sp3store-parts","getPosition or getVelocity disagrees with getXvt"+at);
    // a record's own epoch gives the record, in metres and seconds
    auto pi=pos[id].find(ct); if(pi!=pos[id].end()){ probe("at_record"); for(int i=0;i<3;i++){ if(std::fabs(x.x[i]-1000*pi->second.Pos[i])>1e-4) fail("sp3store-exact","the position at a record's epoch is "+fmtd(x.x[i])+" instead of "+fmtd(1000*pi->second.Pos[i])+at); if(w.vel&&std::fabs(x.v[i]-0.1*pi->second.Vel[i])>1e-7) fail("sp3store-exact","the velocity at a record's epoch is "+fmtd(x.v[i])+" instead of "+fmtd(0.1*pi->second.Vel[i])+at); } }
    auto ci=clk[id].find(ct); if(ci!=clk[id].end()){ double k=rinex?1:1e-6; if(std::fabs(x.clkbias-k*ci->second.bias)>1e-13) fail("sp3store-exact","the clock bias at a record's epoch is "+fmtd(x.clkbias)+" instead of "+fmtd(k*ci->second.bias)+at); if(w.vel&&std::fabs(x.clkdrift-k*ci->second.drift)>1e-18) fail("sp3store-exact","the clock drift at a record's epoch is "+fmtd(x.clkdrift)+" instead of "+fmtd(k*ci->second.drift)+at); } }
};
void exec(const Plan& p){ const Op& c=p.at(0); Run r; World& w=r.w; w.ver=c.i("ver"); w.vel=c.i("vel"); bool anyClk=false; for(auto&o:p) if(o.kind=="!file"&&o.i("clk")) anyClk=true; w.ts=w.ver==0||c.i("rinex")||anyClk||c.i("ts")==0?TimeSystem::GPS:TimeSystem::UTC; w.step=std::max<int64_t>(60,c.i("_step",900)); w.base=c.i("_base"); r.rbp=c.i("rbp"); r.rbc=c.i("rbc"); r.rpp=c.i("rpp"); r.rpc=c.i("rpc"); r.rinex=c.i("rinex"); int nh=std::max<int64_t>(2,c.i("nh",5)); r.prep(r.s,nh,c.i("lin")); r.prep(r.ref,nh,c.i("lin")); opc("ver"+std::to_string(w.ver)+(w.vel?"v":"p")+(r.rinex?"r":""));
  vector<File> fs; for(auto&o:p) if(o.kind=="!file"){ File f=mk(w,o,fs.size()); if(f.text.empty()) throw std::runtime_error("a fixture file is empty"); fs.push_back(f); } if(fs.empty()) return;
  TimeSystem store=TimeSystem::Any; // what the store's time system becomes
  for(auto&o:p){
    auto forget=[&](bool clkf){ for(auto x=r.loaded.begin();x!=r.loaded.end();){ bool isClk=false; for(auto&f:fs) if(x->substr(0,f.path.size())==f.path&&(x->size()==f.path.size()||(*x)[f.path.size()]=='c')) isClk=f.clk; if(isClk==clkf) x=r.loaded.erase(x); else ++x; } };
    auto swap=[&]{ r.rinex=!r.rinex; for(auto k:{&r.s,&r.ref}) if(r.rinex) k->useRinexClockData(); else k->useSP3ClockData(); r.clk.clear(); forget(true); opc("swap"); fault("clock_source_switched"); };
    if(o.kind=="swap"){ swap(); r.compare("after switching the source of clocks"); }
    if(o.kind=="clearpos"){ r.s.clearPosition(); r.ref.clearPosition(); r.pos.clear(); forget(false); opc("clearpos"); r.compare("after clearPosition"); }
    if(o.kind=="clearclk"){ r.s.clearClock(); r.ref.clearClock(); r.clk.clear(); forget(true); opc("clearclk"); r.compare("after clearClock"); }
    if(o.kind=="load"){ File& f=fs[o.i("f")%fs.size()]; string path=f.path; if(o.has("as")){ path+="copy"+o.s("as"); disk().put(path,f.text); } if(f.clk&&!r.rinex) swap(); string nm=(f.clk?"the clock file ":"the SP3 file ")+path; IoPolicy& io=disk().pol[path]; bool dup=r.loaded.count(path)>0; io=IoPolicy(); if(o.has("short")) io.readMax=o.i("short");
      bool rej=false; TimeSystem fts=f.clk?TimeSystem(f.alien?TimeSystem::UTC:TimeSystem::GPS):w.ver==0?TimeSystem(TimeSystem::Any):f.alien?TimeSystem(w.ts==TimeSystem::UTC?TimeSystem::GPS:TimeSystem::UTC):w.ts; if(fts!=TimeSystem::Any){ if(store!=TimeSystem::Any&&store!=fts) rej=true; else if(f.alien&&store==TimeSystem::Any) continue; /* would fix the store's system */ }
      auto load=[&]()->string{ try{ if(f.clk&&o.i("special")) r.s.loadRinexClockFile(path); else if(!f.clk&&o.i("special")) r.s.loadSP3File(path); else r.s.loadFile(path); return ""; } catch(gpstk::Exception& e){ return "E"+e.getText(); } };
      if(o.i("open")){ io.openFail=true; fault("open_error"); if(load().empty()) fail("sp3store-open","loading "+nm+", which cannot be opened, reports nothing"); io.openFail=false; r.compare("after a failed open"); }
      if(o.has("eio")&&!rej&&!dup){ int64_t at=(int64_t)f.text.size()*std::min<int64_t>(999,o.i("eio"))/1000; io.readErrAt=at; io.readErrCount=-1; fault("read_error"); string e=load(); io.readErrAt=-1; io.readErrCount=0; ev("load with a read error at "+std::to_string(at)+" "+e); if(e.empty()) fail("sp3store-readerror","loading "+nm+" ("+std::to_string(f.text.size())+" bytes) with a read error at byte "+std::to_string(at)+" reports nothing"); }
      string e=load(); ev("load "+path+" "+e); if(dup&&!rej){ fault("file_reloaded"); if(e.empty()) fail("sp3store-reload",nm+" was loaded a second time"); r.compare("after loading the same file again"); continue; } if(rej){ fault("alien_timesystem"); if(e.empty()) fail("sp3store-timesystem",nm+" in another time system was accepted"); r.compare("after a refused file"); continue; }
      if(!e.empty()) fail("sp3store-load",nm+" does not load: "+e); if(store==TimeSystem::Any&&fts!=TimeSystem::Any){ store=fts; }
      if(!r.loaded.empty()) fault("file_overlap"); r.loaded.insert(path); r.into(f); r.compare("after loading "+nm); }
    if(o.kind=="clear"){ r.s.clear(); r.ref.clear(); r.loaded.clear(); r.pos.clear(); r.clk.clear(); opc("clear"); r.compare("after clear"); }
    if(o.kind=="edit"){ CommonTime a=T(w,o.i("a")*w.step,w.ts),b=T(w,o.i("b")*w.step,w.ts); r.s.edit(a,b); r.ref.edit(a,b); auto cut=[&](auto& m){ for(auto&x:m) for(auto y=x.second.begin();y!=x.second.end();) if(y->first<a||y->first>b) y=x.second.erase(y); else ++y; }; cut(r.pos); cut(r.clk); opc("edit"); r.compare("after edit"); }
    if(o.kind=="q") r.query(o.i("sat"),o.i("t")); }
}
Reg reg({"C23","A run writes 1-5 overlapping SP3 a/c/d and RINEX clock files (lost records, bad positions and clocks, predicted records, correlation records) with the real writers, loads them into one SP3EphemerisStore in a seeded order with reloads, read errors, short reads, failing opens and files of another time system, and compares the store with one that was given the expected records. Non-trivial: at least one file loaded.","SP3EphemerisStore, FileStore, SP3 and RINEX clock readers and writers, position and clock stores, Xvt","disk",2000,300000,gen,exec,400000000});
}
