// C22: tabular position and clock stores fed with records that arrive late,
// twice, out of order or never, against a reference model of the table.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <cmath>
#include <memory>
#include "PositionSatStore.hpp"
#include "ClockSatStore.hpp"
#include "GPSWeekSecond.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::map; using std::set; using std::vector;
namespace {
const int NF=6; // fields of a record: pos: P V A (3 axes are the same function with other numbers); clk: bias drift accel
struct Rec { double v[9]; double s[9]; };  // 9 values: pos P0-2 V0-2 A0-2 ; clk b,d,a in 0,3,6
double val(uint64_t seed,int sat,int64_t t,int ver,int f){ Rng g(hashStr(std::to_string(sat)+"/"+std::to_string(t)+"/"+std::to_string(ver)+"/"+std::to_string(f),seed)); double b=(g.unit()-0.5)*2; return b==0?0.5:b; }
struct Cfg { bool clk; int nh; bool lin; int have; TimeSystem ts; uint64_t seed; int64_t step; int64_t base; };
Rec rec(const Cfg& c,int sat,int64_t t,int ver){ Rec r; for(int f=0;f<9;f++){ double k=c.clk?(f<3?100:f<6?1e-3:1e-6):(f<3?25000:f<6?30000:5); r.v[f]=k*val(c.seed,sat,t,ver,f); r.s[f]=std::fabs(val(c.seed,sat,t,ver,f+20)); if(r.s[f]<0.2) r.s[f]=0; if(f/3>c.have) r.v[f]=r.s[f]=0; } return r; }
CommonTime T(const Cfg& c,int64_t t,TimeSystem ts){ int64_t s=604800*10+c.base+t; GPSWeekSecond w(1990+(unsigned)(s/604800),(double)(s%604800),TimeSystem::GPS); CommonTime x(w); x.setTimeSystem(ts); return x; }
SatID S(int i){ return i%3==2?SatID(i+1,SatelliteSystem::Glonass):SatID(i+1,SatelliteSystem::GPS); }
typedef map<int64_t,Rec> Tab;
struct Win { bool ok=false,exact=false; int a=0,b=0; };   // indices into the table
struct Model { const Cfg& c; map<int,Tab> tab; bool gapOn=false,maxOn=false; int64_t gap=0,mx=0;
  explicit Model(const Cfg& c):c(c){}
  // which records answer for t: a matching record (exact && ret), or 2*nh of them around t
  Win win(int sat,int64_t t,bool ret,vector<int64_t>& k) const { Win w; auto i=tab.find(sat); if(i==tab.end()) return w; k.clear(); for(auto&x:i->second) k.push_back(x.first); int n=k.size(); if(n<2) return w; int lb=std::lower_bound(k.begin(),k.end(),t)-k.begin(); w.exact=lb<n&&k[lb]==t; if(w.exact&&ret){ w.ok=true; w.a=w.b=lb; return w; }
    if(lb==n) return w; int h=c.nh; int a=lb-h,b=lb+h-1; if(w.exact&&h==1&&lb==0){ a=0; b=1; } if(w.exact&&b==n&&a>0&&h>1){ a--; b--; } if(a<0||b>=n) return w;
    int g=lb==0?1:lb; if(gapOn&&k[g]-k[g-1]>gap) return w; if(maxOn&&k[b]-k[a]>mx) return w; w.ok=true; w.a=a; w.b=b; return w; }
};
struct Num { double v; double tol; };
// the interpolating polynomial through the window and its derivative
Num lag(const vector<int64_t>& k,const Tab& t,const Win& w,int f,int64_t at,bool deriv){ int n=w.b-w.a+1; long double y=0,m=0; for(int i=0;i<n;i++){ long double xi=k[w.a+i]; long double L; if(!deriv){ L=1; for(int j=0;j<n;j++) if(j!=i) L*=((long double)at-k[w.a+j])/(xi-k[w.a+j]); } else { L=0; for(int q=0;q<n;q++) if(q!=i){ long double p=1/(xi-k[w.a+q]); for(int j=0;j<n;j++) if(j!=i&&j!=q) p*=((long double)at-k[w.a+j])/(xi-k[w.a+j]); L+=p; } } long double v=t.at(k[w.a+i]).v[f]; y+=L*v; m+=fabsl(L*v); } return {(double)y,(double)(m*1e-8L)+1e-300}; }
// straight line through the two records around t
Num lin(const vector<int64_t>& k,const Tab& t,const Win& w,const Cfg& c,int f,int64_t at,bool deriv){ int lo=w.a+c.nh-1,hi=lo+1; long double x0=k[lo],x1=k[hi],y0=t.at(k[lo]).v[f],y1=t.at(k[hi]).v[f]; long double s=(y1-y0)/(x1-x0); long double m=(fabsl(y0)+fabsl(y1)); if(deriv) return {(double)s,(double)(1e-9L*m/(x1-x0))}; return {(double)(y0+s*(at-x0)),(double)(1e-9L*m)}; }
struct P3 : PositionSatStore { };
struct C3 : ClockSatStore { };
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op c("!cfg"); bool clk=g.chance(0.5); bool lin=clk&&g.chance(0.4); c.set("clk",clk); c.set("lin",lin); c.set("nh",lin?1:g.chance(0.4)?5:g.range(2,6)); c.set("have",g.range(0,2)); c.set("_seed",g.next()>>1); int64_t step=g.pick(vector<int64_t>{900,300,30,1,86400}); c.set("_step",step); c.set("ts",g.range(0,2)); int ns=g.range(1,3); c.set("_base",g.range(0,3000000)); p.push_back(c); int nh=c.i("nh");
  struct D { double at; Op o; }; vector<D> d; int ne=g.range(1,g.chance(0.4)?3*nh+4:40); double jit=g.chance(0.3)?0.3:0, loss=g.pick(vector<double>{0,0,0.1,0.3}), dup=g.pick(vector<double>{0,0.2}), upd=g.pick(vector<double>{0,0.15}), late=g.chance(0.4)?0.0:g.chance(0.5)?5:60; vector<vector<int64_t>> ep(ns);
  for(int s=0;s<ns;s++) for(int i=0;i<ne;i++){ int64_t t=i*step+(jit>0&&step>4&&g.chance(jit)?g.range(1,step/3):0); if(g.chance(loss)) continue; ep[s].push_back(t); int n=1+g.chance(dup)+g.chance(upd); for(int q=0;q<n;q++){ Op o("rec"); o.set("sat",s); o.set("t",t); o.set("ver",q?g.range(0,2):0); o.set("how",g.range(0,2)); d.push_back({i+g.unit()*late,o}); } }
  auto qt=[&](int s)->int64_t{ if(ep[s].empty()||g.chance(0.15)) return g.range(-step,step*(ne+1)); int64_t t=g.pick(ep[s]); switch(g.range(0,5)){ case 0: case 1: return t; case 2: return t+1; case 3: return t-1; case 4: return t+step/2; default: return t+g.range(0,step); } };
  int nq=g.range(3,15); for(int i=0;i<nq;i++){ Op o("q"); int s=g.range(0,ns-1); o.set("sat",g.chance(0.05)?9:s); o.set("t",qt(s)); if(g.chance(0.05)) o.set("wrong",1); d.push_back({g.chance(0.4)?g.unit()*(ne+late):1e9+g.unit(),o}); }
  if(g.chance(0.25)){ Op o("gap"); o.set("v",g.chance(0.2)?-1:g.pick(vector<int64_t>{step,step+1,2*step,3*step})); d.push_back({g.chance(0.5)?-1.0:g.unit()*ne,o}); }
  if(g.chance(0.25)){ Op o("max"); o.set("v",g.chance(0.2)?-1:(2*nh-1)*step+g.range(0,2*step)); d.push_back({g.chance(0.5)?-1.0:g.unit()*ne,o}); }
  if(g.chance(0.15)){ Op o("edit"); int64_t a=g.range(-1,ne),b=g.range(-1,ne); o.set("a",std::min(a,b)*step+(g.chance(0.5)?0:step/2)); o.set("b",std::max(a,b)*step); d.push_back({g.unit()*(ne+late),o}); }
  if(g.chance(0.06)) d.push_back({g.unit()*(ne+late),Op("clear")});
  if(g.chance(0.15)){ Op o("alien"); o.set("sat",g.range(0,ns-1)); o.set("t",g.range(0,ne)*step); d.push_back({g.unit()*(ne+late),o}); }
  std::stable_sort(d.begin(),d.end(),[](const D&a,const D&b){return a.at<b.at;}); for(auto&x:d) p.push_back(x.o); return p; }
struct Run { Cfg c; Model m; P3 ps; C3 cs; string nm;
  explicit Run(const Cfg& k):c(k),m(c){ nm=c.clk?(c.lin?"lin":"clk"):"pos"; if(c.clk){ if(c.lin) cs.setLinearInterp(); else cs.setInterpolationOrder(2*c.nh); cs.setTimeSystem(c.ts); } else { ps.setInterpolationOrder(2*c.nh); ps.setTimeSystem(c.ts); } }
  template<class F> auto st(F f)->decltype(f(ps)) { return c.clk?f(cs):f(ps); }
  void add(int sat,int64_t t,const Rec& r,int how,TimeSystem ts){ CommonTime ct=T(c,t,ts); SatID id=S(sat); if(c.clk){ if(how==0){ ClockRecord k; k.bias=r.v[0]; k.sig_bias=r.s[0]; k.drift=r.v[3]; k.sig_drift=r.s[3]; k.accel=r.v[6]; k.sig_accel=r.s[6]; cs.addClockRecord(id,ct,k); } else { for(int j=0;j<3;j++){ int f=how==1?j:2-j; if(f>c.have) continue; if(f==0) cs.addClockBias(id,ct,r.v[0],r.s[0]); else if(f==1) cs.addClockDrift(id,ct,r.v[3],r.s[3]); else cs.addClockAcceleration(id,ct,r.v[6],r.s[6]); } } return; }
    Triple q[6]; for(int f=0;f<3;f++){ q[f]=Triple(r.v[3*f],r.v[3*f+1],r.v[3*f+2]); q[3+f]=Triple(r.s[3*f],r.s[3*f+1],r.s[3*f+2]); } if(how==0){ PositionRecord k; k.Pos=q[0]; k.Vel=q[1]; k.Acc=q[2]; k.sigPos=q[3]; k.sigVel=q[4]; k.sigAcc=q[5]; ps.addPositionRecord(id,ct,k); } else for(int j=0;j<3;j++){ int f=how==1?j:2-j; if(f>c.have) continue; if(f==0) ps.addPositionData(id,ct,q[0],q[3]); else if(f==1) ps.addVelocityData(id,ct,q[1],q[4]); else ps.addAccelerationData(id,ct,q[2],q[5]); } }
  bool anyVel=false,anyAcc=false;  // the store has seen velocity/drift, acceleration
  void cmp(const char* what,double got,Num w,const string& at){ if(!(std::fabs(got-w.v)<=w.tol)) fail("tab-"+nm+"-"+what,string(what)+" is "+fmtd(got)+" instead of "+fmtd(w.v)+at); }
  Num interp(const vector<int64_t>& k,const Tab& t,const Win& w,int f,int64_t at,bool deriv,double scale=1){ Num n; if(w.exact&&w.a==w.b&&!deriv){ n={t.at(k[w.a]).v[f],0}; } else n=c.lin?lin(k,t,w,c,f,at,deriv):lag(k,t,w,f,at,deriv); n.v*=scale; n.tol*=scale; return n; }
  // shift a two-point window so that the line's points are the window's
  void query(int sat,int64_t t,bool wrong){ SatID id=S(sat); CommonTime ct=T(c,t,wrong?(c.ts==TimeSystem::GPS?TimeSystem::UTC:TimeSystem::GPS):c.ts); string at=" for satellite "+std::to_string(sat)+" at "+std::to_string(t); vector<int64_t> k,k1; static const Tab none; auto ti=m.tab.find(sat); const Tab& tb=ti==m.tab.end()?none:ti->second;
    Win wv=m.win(sat,t,anyVel,k1),wp=m.win(sat,t,true,k),wa=m.win(sat,t,anyAcc,k1); if(wrong) wv.ok=wp.ok=wa.ok=false;
    auto verdict=[&](const char* what,bool got,bool want){ if(got!=want) fail("tab-"+nm+"-"+(want?"refused":"answered"),string(what)+(want?" refuses a time the table covers":" answers where the table cannot")+at); lg().shapeEv(got?"a":"r"); probe(got?"answered":"refused"); };
    if(wp.ok&&wp.exact) probe("exact");
    if(c.clk){ bool ok=true; ClockRecord r; try{ r=cs.getValue(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getValue",ok,wv.ok); ev("value "+at+(ok?fmtd(r.bias):"refused"));
      if(ok){ cmp("bias",r.bias,interp(k,tb,wv,0,t,false),at); if(anyVel) cmp("drift",r.drift,interp(k,tb,wv,3,t,false),at); else cmp("drift",r.drift,interp(k,tb,wv,0,t,true),at); if(anyAcc) cmp("accel",r.accel,interp(k,tb,wv,6,t,false),at); else if(anyVel&&wv.a!=wv.b) cmp("accel",r.accel,interp(k,tb,wv,3,t,true),at); if(wv.exact&&r.sig_bias!=tb.at(t).s[0]) fail("tab-"+nm+"-sigma","sigma of an exact match is "+fmtd(r.sig_bias)+at); if(wv.exact&&anyVel&&r.sig_drift!=tb.at(t).s[3]) fail("tab-"+nm+"-sigma","drift sigma of an exact match is "+fmtd(r.sig_drift)+at); }
      ok=true; double b=0; try{ b=cs.getClockBias(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getClockBias",ok,wp.ok); if(ok) cmp("bias",b,interp(k,tb,wp,0,t,false)," from getClockBias"+at);
      ok=true; try{ b=cs.getClockDrift(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getClockDrift",ok,wv.ok); if(ok){ if(anyVel) cmp("drift",b,interp(k,tb,wv,3,t,false)," from getClockDrift"+at); else cmp("drift",b,interp(k,tb,wv,0,t,true)," from getClockDrift"+at); } }
    else { bool ok=true; PositionRecord r; try{ r=ps.getValue(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getValue",ok,wv.ok); ev("value "+at+(ok?fmtd(r.Pos[0]):"refused"));
      if(ok) for(int i=0;i<3;i++){ cmp("position",r.Pos[i],interp(k,tb,wv,i,t,false),at); if(anyVel) cmp("velocity",r.Vel[i],interp(k,tb,wv,3+i,t,false),at); else cmp("velocity",r.Vel[i],interp(k,tb,wv,i,t,true,1e4),at); if(anyAcc) cmp("acceleration",r.Acc[i],interp(k,tb,wv,6+i,t,false),at); else if(anyVel&&wv.a!=wv.b) cmp("acceleration",r.Acc[i],interp(k,tb,wv,3+i,t,true,0.1),at); if(wv.exact&&r.sigPos[i]!=tb.at(t).s[i]) fail("tab-"+nm+"-sigma","sigma of an exact match is "+fmtd(r.sigPos[i])+at); if(wv.exact&&anyVel&&r.sigVel[i]!=tb.at(t).s[3+i]) fail("tab-"+nm+"-sigma","velocity sigma of an exact match is "+fmtd(r.sigVel[i])+at); }
      ok=true; Triple q; try{ q=ps.getPosition(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getPosition",ok,wp.ok); if(ok) for(int i=0;i<3;i++) cmp("position",q[i],interp(k,tb,wp,i,t,false)," from getPosition"+at);
      ok=true; try{ q=ps.getVelocity(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getVelocity",ok,wv.ok); if(ok) for(int i=0;i<3;i++){ if(anyVel) cmp("velocity",q[i],interp(k,tb,wv,3+i,t,false)," from getVelocity"+at); else cmp("velocity",q[i],interp(k,tb,wv,i,t,true,1e4)," from getVelocity"+at); }
      ok=true; try{ q=ps.getAcceleration(id,ct); } catch(InvalidRequest&){ ok=false; } verdict("getAcceleration",ok,wa.ok&&(anyVel||anyAcc)); if(ok) for(int i=0;i<3;i++){ if(anyAcc) cmp("acceleration",q[i],interp(k,tb,wa,6+i,t,false)," from getAcceleration"+at); else cmp("acceleration",q[i],interp(k,tb,wa,3+i,t,true,0.1)," from getAcceleration"+at); } } }
  template<class St> void all(St& s){ int n=0; CommonTime lo(CommonTime::END_OF_TIME),hi(CommonTime::BEGINNING_OF_TIME); vector<SatID> have; for(auto&t:m.tab){ n+=t.second.size(); SatID id=S(t.first); if(s.ndata(id)!=(int)t.second.size()) fail("tab-"+nm+"-count","satellite "+std::to_string(t.first)+" has "+std::to_string(s.ndata(id))+" records instead of "+std::to_string(t.second.size())); CommonTime a=s.getInitialTime(id),b=s.getFinalTime(id);
      if(t.second.empty()){ if(a!=CommonTime::END_OF_TIME||b!=CommonTime::BEGINNING_OF_TIME) fail("tab-"+nm+"-times","a satellite without records has time limits"); continue; } have.push_back(id); if(!s.isPresent(id)) fail("tab-"+nm+"-present","a stored satellite is not present"); if(a!=T(c,t.second.begin()->first,c.ts)||b!=T(c,t.second.rbegin()->first,c.ts)) fail("tab-"+nm+"-times","the time limits of satellite "+std::to_string(t.first)+" are wrong"); lo=a<lo?a:lo; hi=hi<b?b:hi;
      set<int64_t> gaps; int64_t pv=0; bool f=true; for(auto&x:t.second){ if(!f) gaps.insert(x.first-pv); pv=x.first; f=false; } double st=s.nomTimeStep(id); if(gaps.size()<=1&&st!=(gaps.empty()?0.0:(double)*gaps.begin())) fail("tab-"+nm+"-step","the nominal time step is "+fmtd(st)); if(gaps.size()>1&&!gaps.count(llround(st))) fail("tab-"+nm+"-step","the nominal time step is "+fmtd(st)+", which no two records are apart"); }
    if(s.ndata()!=n||s.size()!=n) fail("tab-"+nm+"-count","the store holds "+std::to_string(s.ndata())+" records instead of "+std::to_string(n)); vector<SatID> l=s.getSatList(); std::sort(l.begin(),l.end()); std::sort(have.begin(),have.end()); if(!(l==have)) fail("tab-"+nm+"-satlist","the list of satellites is wrong"); if(s.getInitialTime()!=lo||s.getFinalTime()!=hi) fail("tab-"+nm+"-times","the store's time limits are wrong"); for(int i=0;i<10;i++) if(!m.tab.count(i)&&s.isPresent(S(i))) fail("tab-"+nm+"-present","a satellite never received is present"); }
  void check(){ if(c.clk) all(cs); else all(ps); }
};
void exec(const Plan& p){ const Op& o0=p.at(0); Cfg c; c.clk=o0.i("clk"); c.lin=c.clk&&o0.i("lin"); c.nh=c.lin?1:std::min<int64_t>(6,std::max<int64_t>(2,o0.i("nh",5))); c.have=std::min<int64_t>(2,std::max<int64_t>(0,o0.i("have"))); c.seed=o0.i("_seed"); c.step=o0.i("_step",900); c.base=o0.i("_base"); c.ts=o0.i("ts")==0?TimeSystem::GPS:o0.i("ts")==1?TimeSystem::UTC:TimeSystem::GAL; Run r(c); opc(r.nm+std::to_string(c.have)); int64_t last=INT64_MIN; set<string> seen;
  for(size_t i=1;i<p.size();i++){ const Op& o=p[i];
    if(o.kind=="rec"){ int s=o.i("sat"); int64_t t=o.i("t"); Rec v=rec(c,s,t,o.i("ver")); string key=std::to_string(s)+"/"+std::to_string(t); if(seen.count(key+o.s("ver"))) fault("msg_duplicate"); else if(seen.count(key)) fault("msg_update"); if(t<last) fault("msg_reordered"); last=std::max(last,t); seen.insert(key+o.s("ver")); seen.insert(key); r.add(s,t,v,o.i("how"),c.ts); r.m.tab[s][t]=v; if(c.have>=1) r.anyVel=true; if(c.have>=2) r.anyAcc=true; }
    if(o.kind=="alien"){ fault("msg_corrupt"); int s=o.i("sat"); bool threw=false; try{ r.add(s,o.i("t"),rec(c,s,o.i("t"),7),0,c.ts==TimeSystem::GPS?TimeSystem::UTC:TimeSystem::GPS); } catch(InvalidRequest&){ threw=true; } if(!threw) fail("tab-"+r.nm+"-timesystem","a record in another time system was accepted"); r.check(); }
    if(o.kind=="q") r.query(o.i("sat")%10,o.i("t"),o.i("wrong"));
    if(o.kind=="gap"){ int64_t v=o.i("v"); r.m.gapOn=v>=0; r.m.gap=v; if(v>=0){ r.cs.setGapInterval(v); r.ps.setGapInterval(v); } else { r.cs.disableDataGapCheck(); r.ps.disableDataGapCheck(); } opc("gap"); }
    if(o.kind=="max"){ int64_t v=o.i("v"); r.m.maxOn=v>=0; r.m.mx=v; if(v>=0){ r.cs.setMaxInterval(v); r.ps.setMaxInterval(v); } else { r.cs.disableIntervalCheck(); r.ps.disableIntervalCheck(); } opc("max"); }
    if(o.kind=="edit"){ int64_t a=o.i("a"),b=o.i("b"); if(c.clk) r.cs.edit(T(c,a,c.ts),T(c,b,c.ts)); else r.ps.edit(T(c,a,c.ts),T(c,b,c.ts)); for(auto&t:r.m.tab) for(auto x=t.second.begin();x!=t.second.end();) if(x->first<a||x->first>b) x=t.second.erase(x); else ++x; opc("edit"); r.check(); }
    if(o.kind=="clear"){ r.cs.clear(); r.ps.clear(); r.m.tab.clear(); opc("clear"); r.check(); } }
  r.check(); }
Reg reg({"C22","A run sends 1-40 records each of 1-3 satellites (loss, late arrival, duplicates, updates, whole or field by field) to a real position or clock store with a seeded interpolation order, gap limit and interval limit, with interleaved queries at, beside and between record times, edits and clears. Non-trivial: at least one record and one query.","PositionSatStore, ClockSatStore, TabularSatStore, Lagrange and linear interpolation","delivery of the records",30000,5000000,gen,exec,400000000});
}
