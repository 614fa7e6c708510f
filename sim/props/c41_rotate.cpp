// C41: a stream whose file name follows the time, over a disk and a clock that misbehave.
#include "../core/scenario.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
#include "CommonTime.hpp"
#include "TimeNamedFileStream.hpp"
#include "FFTextStream.hpp"
#include "YDSTime.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::vector; using std::map; using std::set;
namespace { namespace c41 {
typedef int64_t I;
string pad(I v,int w){ string s=std::to_string(v); while((int)s.size()<w) s="0"+s; return s; }
I daysOf(I y){ I n=y-1; return n*365+n/4-n/100+n/400-719162; }
void yd(I t,I& y,I& j,I& s){ I d=t/86400; s=t%86400; y=1970+d/366; while(daysOf(y+1)<=d) y++; j=d-daysOf(y)+1; }
const char* SP[]={"/sim/log/%04Y/%03j/x%02H.raw","/sim/log/x%04Y%03j.raw","tmp%03j_%04Y.raw","/sim/log/%03j/x%02H%02M.raw","const.raw","logs/%04Y_%03j/%02H"};
string nameOf(int k,I t){ I y,j,s; yd(t,y,j,s); string H=pad(s/3600,2),M=pad(s/60%60,2),Y=pad(y,4),J=pad(j,3); switch(k){ case 0: return "/sim/log/"+Y+"/"+J+"/x"+H+".raw"; case 1: return "/sim/log/x"+Y+J+".raw"; case 2: return "tmp"+J+"_"+Y+".raw"; case 3: return "/sim/log/"+J+"/x"+H+M+".raw"; case 4: return "const.raw"; default: return "logs/"+Y+"_"+J+"/"+H; } }
// file specifications put together from fields and fixed parts of any length (k>=6)
vector<string> partsOf(int k){ Rng g(mix(k,4141)); vector<string> v; static const char* F[]={"%04Y","%02y","%03j","%02m","%02d","%02H","%02M","%02S"}; string c="abcdefghijklmnopqrstuvwxyz-_"; auto fix=[&](int lo,int hi){ string q; int n=g.range(lo,hi); while(n-->0) q+=c[g.range(0,27)]; return q; }; v.push_back(g.chance(0.7)?"/sim/log/":""); int nd=g.range(0,2); for(int d=0;d<nd;d++){ v.push_back("d"+fix(0,g.chance(0.2)?40:6)); int nf=g.range(0,2); for(int i=0;i<nf;i++){ v.push_back(F[g.range(0,7)]); v.push_back(fix(0,2)); } v.push_back("/"); } v.push_back("f"+fix(0,g.chance(0.3)?60:6)); int nf=g.range(0,4); for(int i=0;i<nf;i++){ v.push_back(F[g.range(0,7)]); v.push_back(fix(0,3)); } v.push_back(fix(0,g.chance(0.3)?80:8)); return v; }
string specOf(int k){ if(k<6) return SP[k]; string s; for(auto&q:partsOf(k)) s+=q; return s; }
string nameAt(int k,I t){ if(k<6) return nameOf(k,t); I y,j,s; yd(t,y,j,s); static const int ml[]={31,28,31,30,31,30,31,31,30,31,30,31}; bool leap=(y%4==0&&y%100)||y%400==0; int m=0; I d=j; while(d>ml[m]+(m==1&&leap)){ d-=ml[m]+(m==1&&leap); m++; } string r; for(auto&q:partsOf(k)){ if(q=="%04Y") r+=pad(y,4); else if(q=="%02y") r+=pad(y%100,2); else if(q=="%03j") r+=pad(j,3); else if(q=="%02m") r+=pad(m+1,2); else if(q=="%02d") r+=pad(d,2); else if(q=="%02H") r+=pad(s/3600,2); else if(q=="%02M") r+=pad(s/60%60,2); else if(q=="%02S") r+=pad(s%60,2); else r+=q; } return r; }
int kOf(I k){ return (int)(((k%1000000)+1000000)%1000000); }
string absOf(const string& n){ return n[0]=='/'?n:"/sim/cwd/"+n; }
CommonTime ct(I t){ I y,j,s; yd(t,y,j,s); return YDSTime(y,j,s,TimeSystem::UTC); }
Plan gen(uint64_t seed,int tier){ Rng g(seed); Plan p; Op c("!cfg"); c.set("k",g.chance(0.5)?g.range(0,5):g.range(6,999999)).set("base",g.range(0,1)).set("app",g.chance(0.7)); I t=900000000+86400LL*g.range(0,7000)+g.range(0,86399); c.set("_t",t); p.push_back(c); bool faults=g.chance(0.6); int n=g.range(3,tier?80:40);
  for(int i=0;i<n;i++){ int q=g.range(0,99); if(q<45){ Op o("rec"); o.set("len",g.chance(0.1)?g.range(5000,20000):g.range(0,60)).set("flush",g.chance(0.4)); p.push_back(o); } else if(q<75){ Op o("tick"); o.set("dt",g.pick(vector<I>{1,30,60,600,3600,86400,g.range(0,200000),-g.range(1,90000)})).set("sys",g.chance(0.3)); p.push_back(o); } else if(q<80){ Op o("spec"); o.set("k",g.chance(0.5)?g.range(0,5):g.range(6,999999)).set("open",g.chance(0.5)); p.push_back(o); } else if(q<84){ p.push_back(Op("restart")); } else if(faults){ Op o("fault"); o.set("what",g.range(0,4)).set("n",g.range(1,3)).set("a",g.range(0,6)); p.push_back(o); } }
  return p; }
struct Rec { string text; bool acked; };
template<class B> struct R { std::unique_ptr<TimeNamedFileStream<B>> s; int k; bool app; I now; map<string,vector<Rec>> want; int n=0; string cur; bool trouble=false,opened=false; set<string> troubled; vector<size_t> pend;
  std::ios::openmode mode() const { return app?std::ios::out|std::ios::app:std::ios::out; }
  void make(){ s.reset(new TimeNamedFileStream<B>(specOf(k),mode())); cur=""; opened=false; }
  void settle(bool ok){ if(cur.empty()) return; auto& v=want[absOf(cur)]; if(ok) for(size_t i: pend) v[i].acked=true; pend.clear(); }
  // what closing leaves behind is only known to be complete when nothing failed
  void leave(){ settle(!trouble&&!faulty); }
  void update(bool sys){ string nm=nameAt(k,now); if(nm!=cur) leave(); bool had=!cur.empty()&&nm==cur; bool r; if(sys){ clk().sec=now; clk().nsec=0; r=s->updateFileName(); } else r=s->updateFileName(ct(now)); if(r==had) { if(!had||!trouble) fail("changed-flag",string("updateFileName returned ")+(r?"true":"false")+" going from '"+cur+"' to '"+nm+"'"); }
    if(s->getCurrentFilename()!=nm) fail("current-name","current file is "+s->getCurrentFilename()+", expected "+nm); { CommonTime a(s->getCurrentTime()),b(ct(now)); a.setTimeSystem(TimeSystem::Any); if(std::abs(a-b)>1e-6) fail("current-time","time of the current file name is off"); }
    if(r){ cur=nm; opened=!s->fail(); if(opened){ trouble=false; if(!app) want[absOf(nm)].clear(); pend.clear(); } else { trouble=true; probe("open.failed"); if(!faulty) fail("open-failed","cannot open "+nm); } lg().shapeEv(string("rot")+(opened?"ok":"F")); ev("file "+nm); } }
  bool faulty=false;
  void rec(const Op& o){ if(cur.empty()) update(false); string text="#"+std::to_string(n++)+"<"+string(std::min<I>(40000,std::max<I>(0,o.i("len"))),'a'+n%26)+">\n"; bool was=s->fail(); (*s)<<text; if(o.i("flush")) s->flush(); bool bad=s->fail(); if(was){ if(!bad) fail("state-lost","a failed stream became good by itself"); s->clear(); if(!s->is_open()) trouble=true; trouble=true; return; }
    auto& v=want[absOf(cur)]; v.push_back({text,false}); pend.push_back(v.size()-1); if(bad){ probe("write.failed"); trouble=true; if(!faulty) fail("write-failed",text); pend.clear(); s->clear(); } else if(o.i("flush")&&!trouble) settle(true); ev("rec"); }
  void check(){ for(auto&w:want){ string d=disk().get(w.first); size_t at=0; string last; for(auto&r:w.second) if(r.acked){ size_t q=d.find(r.text,at); if(q==string::npos) fail("record-lost",r.text.substr(0,20)+" written to "+w.first+" is not there"+(d.find(r.text)!=string::npos?" in order":"")); at=q+r.text.size(); if(d.find(r.text,at)!=string::npos) fail("record-twice",r.text.substr(0,20)); }
      if(!faulty&&d.size()){ string all; for(auto&r:w.second) if(r.acked) all+=r.text; if(d!=all) fail("extra-bytes",w.first+" has "+std::to_string(d.size())+" bytes, expected "+std::to_string(all.size())); } }
    for(auto&f:disk().files) if(f.second->data.size()&&!want.count(f.first)) fail("stray-file",f.first); }
  void run(const Plan& p){ make(); for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; opc(o.kind); if(o.kind=="tick"){ now=std::max<I>(1000000,now+o.i("dt")); if(o.i("dt")<0) fault("clock_back"); update(o.i("sys")); } else if(o.kind=="rec") rec(o); else if(o.kind=="spec"){ leave(); cur=""; k=kOf(o.i("k")); string sp=specOf(k); if(o.i("open")) s->open(sp.c_str(),mode()); else s->setFilespec(sp); if(s->getFilespec()!=sp) fail("filespec","getFilespec"); } else if(o.kind=="restart"){ leave(); fault("restart"); make(); }
      else if(o.kind=="fault"){ faulty=true; int w=(int)(((o.i("what")%5)+5)%5),nn=(int)std::max<I>(1,std::min<I>(5,o.i("n"))); if(w==0) disk().mkdirErrCount=nn; else if(w==1){ IoPolicy& P=disk().pol[absOf(nameAt(k,now))]; P.openFail=true; P.openFailCount=nn; P.openErr=24; } else if(w==2){ IoPolicy& P=disk().pol[absOf(nameAt(k,now))]; P.writeErrAtCall=P.wcalls+o.i("a"); P.writeErrCount=nn; P.writeErrNo=28; } else if(w==3){ IoPolicy& P=disk().pol[absOf(nameAt(k,now))]; P.writeSizes={3,-1,1,100}; } else disk().pol[absOf(nameAt(k,now))].closeFail=true; } }
    // once faults stop a rotation brings the stream back
    disk().mkdirErrCount=0; for(auto&q:disk().pol){ q.second.openFail=false; q.second.writeErrAtCall=-1; q.second.closeFail=false; q.second.writeSizes.clear(); } k=0; leave(); cur=""; s->setFilespec(SP[0]); now+=864000; update(false); if(!opened) fail("no-recovery","the stream does not open its next file after the faults have gone: "+s->getCurrentFilename()); Op r("rec"); r.set("flush",1); size_t m=n; rec(r); if(s->fail()||want[absOf(cur)].empty()||!want[absOf(cur)].back().acked) fail("no-recovery","cannot write"); (void)m; leave(); s.reset(); check(); } };
template<class B> void go(const Plan& p){ const Op& c=p.at(0); R<B> r; r.k=kOf(c.i("k")); r.app=c.i("app"); r.now=std::max<I>(1000000,c.i("_t")); r.run(p); }
void exec(const Plan& p){ disk().mkdirs("/sim/cwd"); if(p.at(0).i("base")&1) go<FFTextStream>(p); else go<std::ofstream>(p); }
Reg r41({"C41","A run has one time-named output stream (plain or FFTextStream) whose clock steps, jumps back and whose disk refuses directories, opens, writes and closes; the program restarts and changes the specification. Non-trivial: at least one record.","TimeNamedFileStream, FileUtils::makeDir, FFTextStream/FFStream open/close, SystemTime, printTime, libstdc++ filebuf","disk, clock",8000,800000,gen,exec,400000000});
}}
