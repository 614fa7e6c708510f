// C21: the GLONASS ephemeris store and the mixed-constellation RINEX 3 store,
// fed by a network that delays, re-orders, duplicates and loses messages.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <list>
#include <cmath>
#include <memory>
#include "Rinex3EphemerisStore.hpp"
#include "Rinex3NavData.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "GloEphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "orbits.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::map; using std::set; using std::vector;
namespace {
const SatelliteSystem SYS[]={SatelliteSystem::Glonass,SatelliteSystem::GPS,SatelliteSystem::Galileo,SatelliteSystem::BeiDou,SatelliteSystem::QZSS};
const TimeSystem TSY[]={TimeSystem::GLO,TimeSystem::GPS,TimeSystem::GAL,TimeSystem::BDT,TimeSystem::QZS};
const char SYC[]="RGECJ"; const int UTCOFF[]={0,18,18,4,18}; const char* SN[]={"glo","gps","gal","bds","qzs"};
CommonTime T(int64_t s,TimeSystem ts){ s+=604800*10; GPSWeekSecond w(1990+(unsigned)(s/604800),(double)(s%604800),TimeSystem::GPS); CommonTime c(w); c.setTimeSystem(ts); return c; }
int64_t sec(const CommonTime& t){ CommonTime c(t),z(T(0,TimeSystem::Any)); c.setTimeSystem(TimeSystem::Any); return llround(c-z); }
string xs(const Xvt& x){ char b[400]; snprintf(b,400,"%.17g %.17g %.17g v %.17g %.17g %.17g c %.17g %.17g r %.17g",x.x[0],x.x[1],x.x[2],x.v[0],x.v[1],x.v[2],x.clkbias,x.clkdrift,x.relcorr); return b; }
// sat index: system = sat%5 (mixed) or GLONASS
// t: nominal epoch; toe, toc, x (transmission) and fit (hours, GPS and QZSS) are what the message says
struct Msg { int sat,sys; int64_t t; bool healthy; int body; int64_t toe,toc,x; int fit; bool hours; };
SatID idOf(int sat,int sys){ return SatID(sys==4?sat+193:sat+1,SYS[sys]); }
double u(Rng& g,double a,double b){ return a+(b-a)*g.unit(); }
void details(Msg& m){ Rng g(m.sat*7919ULL+m.body*104729ULL+31); m.toe=m.toc=m.x=m.t; m.fit=4; m.hours=false; if(!m.sys) return;
  if(m.sys==1){ if(g.chance(0.3)) m.fit=6; m.hours=g.chance(0.4); int64_t b=m.t-1800*m.fit; m.x=b+(g.chance(0.5)?0:30*g.range(0,200)+6*g.range(0,3)); if(g.chance(0.25)){ m.toe=m.toc=m.t-16*g.range(1,12); m.x=m.t-7200+30*g.range(1,200)+6*g.range(0,3); } }
  else { if(g.chance(0.4)) m.toe=m.t+g.pick(vector<int64_t>{-7200,-3600,-600,600,3600}); m.x=m.toe+(m.sys==2?g.range(-600,7200):m.sys==3?g.range(-3600,3600):g.range(-3600,0)); if(m.sys==4){ m.fit=g.chance(0.5)?2:4; m.x=m.toe-g.range(0,3600); } } }
orb::Kep kepOf(const Msg& m){ Rng g(m.sat*7919ULL+m.body*104729ULL+11); orb::Kep e; double A=m.sys==1?26560000:m.sys==2?29600000:m.sys==4?42164000:g.chance(0.5)?27906000:42164000; bool geo=false; double ah=sqrt(A+u(g,-30000,30000)); e.A=ah; e.e=g.chance(0.1)?0:u(g,1e-5,m.sys==4?0.09:0.03); e.i0=m.sys==4?u(g,0.70,0.72):u(g,0.93,0.97); if(m.sys==3&&A>3e7&&g.chance(0.6)){ geo=true; e.i0=u(g,0.0005,0.12); }
  e.M0=u(g,-3.14159,3.14159); e.dn=u(g,3e-9,6e-9); e.O0=u(g,-3.14159,3.14159); e.Od=u(g,-9e-9,-6e-9); e.id=u(g,-6e-10,6e-10); e.w=u(g,-3.14159,3.14159); e.Cuc=u(g,-8e-6,8e-6); e.Cus=u(g,-1e-5,1e-5); e.Crc=u(g,-350,350); e.Crs=u(g,-150,150); e.Cic=u(g,-3e-7,3e-7); e.Cis=u(g,-3e-7,3e-7); e.toe=((m.toe%604800)+604800)%604800; e.af0=u(g,-6e-4,6e-4); e.af1=u(g,-1e-10,1e-10); e.af2=g.chance(0.5)?0:u(g,-1e-17,1e-17); if(m.sys==3) e.bds(geo); if(m.sys==2) e.gal(); return e; } // A holds its root
orb::Glo gloOf(const Msg& m){ Rng g(m.sat*7919ULL+m.body*104729ULL+11); orb::Glo e; double a=u(g,0,6.283),r=u(g,25480e3,25520e3),v=u(g,3940,3960),n=u(g,0,6.283); double P[3]={r*cos(a),r*sin(a)*0.43,r*sin(a)*0.9},V[3]={-v*sin(a),v*cos(a)*0.43,v*cos(a)*0.9}; e.p[0]=P[0]*cos(n)-P[1]*sin(n); e.p[1]=P[0]*sin(n)+P[1]*cos(n); e.p[2]=P[2]; e.v[0]=V[0]*cos(n)-V[1]*sin(n)+7.292115e-5*(double)e.p[1]; e.v[1]=V[0]*sin(n)+V[1]*cos(n)-7.292115e-5*(double)e.p[0]; e.v[2]=V[2]; for(int i=0;i<3;i++) e.a[i]=u(g,-3e-6,3e-6); for(int i=0;i<3;i++){ e.p[i]=(double)(e.p[i]/1000); e.v[i]=(double)(e.v[i]/1000); e.a[i]=(double)(e.a[i]/1000); } e.tau=u(g,-3e-4,3e-4); e.gamma=u(g,-1e-11,1e-11); return e; } // km
Rinex3NavData rec(const Msg& m){ Rinex3NavData r; r.satSys=string(1,SYC[m.sys]); r.PRNID=m.sat+1; r.sat=RinexSatID(idOf(m.sat,m.sys).id,SYS[m.sys]); r.time=T(m.toc,TSY[m.sys]); r.Tgd=0.0; r.Tgd2=0.0;
  if(m.sys==0){ orb::Glo o=gloOf(m); r.TauN=(double)o.tau; r.GammaN=(double)o.gamma; r.MFtime=(m.t%604800+604800)%604800; r.health=m.healthy?0:1; r.freqNum=m.body%14-7; r.ageOfInfo=m.body%5; r.px=(double)o.p[0]; r.py=(double)o.p[1]; r.pz=(double)o.p[2]; r.vx=(double)o.v[0]; r.vy=(double)o.v[1]; r.vz=(double)o.v[2]; r.ax=(double)o.a[0]; r.ay=(double)o.a[1]; r.az=(double)o.a[2]; return r; }
  GPSWeekSecond ws(T(m.x,TimeSystem::GPS)); r.weeknum=ws.week-(m.sys==3?1356:0); r.xmitTime=(long)ws.sow; r.Toe=(double)(((m.toe%604800)+604800)%604800); r.Toc=(double)(((m.toc%604800)+604800)%604800);
  r.IODC=m.body%240; r.IODE=m.body%240; r.IODnav=m.body; r.health=m.healthy?0:(m.sys==2?6:m.sys==4?2:1); r.accuracy=2.0; r.codeflgs=1; r.datasources=1; r.L2Pdata=0; r.fitint=m.sys==4?(m.fit==4?1.0:0.0):m.hours?(double)m.fit:m.fit==6?1.0:0.0; r.Tgd=1e-9*(m.body%50); r.Tgd2=m.sys==2||m.sys==3?2e-9*(m.body%50):0.0;
  orb::Kep k=kepOf(m); r.af0=(double)k.af0; r.af1=(double)k.af1; r.af2=(double)k.af2; r.M0=(double)k.M0; r.dn=(double)k.dn; r.ecc=(double)k.e; r.Ahalf=(double)k.A; r.OMEGA0=(double)k.O0; r.i0=(double)k.i0; r.w=(double)k.w; r.OMEGAdot=(double)k.Od; r.idot=(double)k.id; r.Cuc=(double)k.Cuc; r.Cus=(double)k.Cus; r.Crc=(double)k.Crc; r.Crs=(double)k.Crs; r.Cic=(double)k.Cic; r.Cis=(double)k.Cis; return r; }
struct Rec { Msg m; int64_t toe,begin,end; bool healthy; };
// the validity the interface specifications give a message
Rec attr(const Msg& m){ Rec r; r.m=m; r.toe=m.toe; r.begin=r.end=m.t; r.healthy=m.healthy; if(m.sys==1){ bool even=m.toc%7200==0; r.begin=even?m.toc-1800*m.fit:m.x-(((m.x%30)+30)%30); r.end=m.t+1800*m.fit; } if(m.sys==2){ r.begin=m.x; r.end=m.toe+14400; } if(m.sys==3){ r.begin=std::max(m.x,m.toe); r.end=m.toe+7*86400; } if(m.sys==4){ r.begin=m.x; r.end=m.toe+1800*m.fit; } return r; }
string said(const Msg& m,int64_t t,const Xvt& x){ if(m.sys==0){ orb::Glo o=gloOf(m); for(int i=0;i<3;i++){ o.p[i]*=1000; o.v[i]*=1000; o.a[i]*=1000; } return orb::check(o,t-m.t,x); } orb::Kep k=kepOf(m); k.A*=k.A; return orb::check(k,t-m.toe,t-m.toc,x); }
string lst(const Rinex3NavData& d,int sys){ string s=d.sat.toString()+"/"+d.satSys+std::to_string(d.PRNID)+"/"+std::to_string(sec(d.time)); auto n=[&](double v){ char b[40]; snprintf(b,40,"/%.12g",v); s+=b; }; if(sys==0){ for(double v:{d.TauN.val,d.GammaN.val,(double)d.MFtime,(double)d.health,(double)d.freqNum,d.ageOfInfo.val,d.px.val,d.py.val,d.pz.val,d.vx.val,d.vy.val,d.vz.val,d.ax.val,d.ay.val,d.az.val}) n(v); return s; }
  double x=d.xmitTime,w=d.weeknum,f=0; if(sys==1){ f=d.fitint.val; if(f<2) f=f?6:4; if((long)d.Toc%7200==0){ x=d.Toc-1800*f; if(sys==1&&x<0) x+=604800; w=GPSWeekSecond(d.time).week-(d.Toc<1800*f); } } if(sys==4) f=d.fitint.val; for(double v:{d.af0.val,d.af1.val,d.af2.val,d.Toe.val,(double)d.Toc,x,w,f,d.accuracy.val,sys==2?0.0:(double)d.health,sys==2?d.IODnav.val:(double)d.IODC.val,d.Tgd.val,sys==4?0.0:d.Tgd2.val,d.M0.val,d.dn.val,d.ecc.val,d.Ahalf.val,d.OMEGA0.val,d.i0.val,d.w.val,d.OMEGAdot.val,d.idot.val,d.Cuc.val,d.Cus.val,d.Crc.val,d.Crs.val,d.Cic.val,d.Cis.val}) n(v); return s; }
int sysOf(const SatID& s){ for(int y=0;y<5;y++) if(SYS[y]==s.system) return y; return 0; }
string xvtOf(const Msg& m,int64_t t){ CommonTime c=T(t,TSY[m.sys]); Rinex3NavData d=rec(m); try{ switch(m.sys){ case 0: return xs(GloEphemeris(d).svXvt(c)); case 1: return xs(GPSEphemeris(d).svXvt(c)); case 2: return xs(GalEphemeris(d).svXvt(c)); case 3: return xs(BDSEphemeris(d).svXvt(c)); default: return xs(QZSEphemeris(d).svXvt(c)); } } catch(gpstk::Exception&){ return "throws"; } }
struct Model { map<SatID,map<int64_t,Rec>> tab; set<SatID> seen; bool oh=false,edited=false; int64_t lo=0,hi=0,glo=0,ghi=0; bool any=false,gany=false;
  // 1 stored, 0 refused, -1 refused as contradicting
  int add(const Msg& m){ Rec r=attr(m); SatID id=idOf(m.sat,m.sys); if(m.sys==0){ if(oh&&!m.healthy) return 0; tab[id][m.t]=r; if(!gany||m.t<glo) glo=m.t; if(!gany||m.t>ghi) ghi=m.t; gany=true; seen.insert(id); return 1; }
    seen.insert(id); auto& t=tab[id]; auto put=[&]{ t[r.begin]=r; if(!any||r.begin<lo) lo=r.begin; if(!any||r.end>hi) hi=r.end; any=true; };
    auto f=t.find(r.begin); if(f!=t.end()) return f->second.toe==r.toe?0:-1; auto n=t.lower_bound(r.begin); if(n!=t.end()&&n->second.toe==r.toe){ t.erase(n); put(); return 1; } if(n!=t.begin()&&std::prev(n)->second.toe==r.toe) return 0; put(); return 1; }
  const Rec* find(const SatID& id,int64_t t){ auto i=tab.find(id); if(i==tab.end()||i->second.empty()) return 0; if(id.system==SatelliteSystem::Glonass){ auto n=i->second.lower_bound(t); if(n!=i->second.end()&&n->first<=t+900) return &n->second; if(n==i->second.begin()) return 0; --n; return t<=n->first+900?&n->second:0; }
    auto n=i->second.upper_bound(t); if(n==i->second.begin()) return 0; --n; return t<=n->second.end?&n->second:0; }
};
struct Run { bool r3; std::unique_ptr<Rinex3EphemerisStore> R; std::unique_ptr<GloEphemerisStore> G; Model m; string nm;
  explicit Run(int k){ r3=k!=0; if(r3) R.reset(new Rinex3EphemerisStore); else G.reset(new GloEphemerisStore); nm=r3?"rinex3":"glonass"; }
  XvtStore<SatID>& x(){ return r3?(XvtStore<SatID>&)*R:(XvtStore<SatID>&)*G; }
  void setOnly(bool b){ if(r3) R->setOnlyHealthyFlag(b); else G->setCheckHealthFlag(b); m.oh=b; }
  int add(const Msg& q){ Rinex3NavData d=rec(q); try{ return r3?R->addEphemeris(d):G->addEphemeris(d); } catch(InvalidParameter&){ return -1; } }
  void bad(const string& c,const string& d){ fail("store-"+nm+"-"+c,d); }
  void checkAll(){ set<SatID> ix=x().getIndexSet(); for(auto&t:m.tab) if(!t.second.empty()){ if(!ix.count(t.first)) bad("index","a stored satellite is missing from the index"); if(!x().isPresent(t.first)) bad("present","isPresent is false for a stored satellite"); } for(auto&i:ix) if(!m.seen.count(i)) bad("index","the index names a satellite never received"); for(int y=0;y<5;y++){ SatID id(31,SYS[y]); if(x().isPresent(id)) bad("present","isPresent is true for a satellite never received"); }
    auto eq=[&](const string& what,int64_t a,int64_t b){ if(a!=b) bad("times",what+" is "+std::to_string(a)+" instead of "+std::to_string(b)); };
    for(auto&t:m.tab){ if(t.second.empty()) continue; CommonTime a,b; if(r3){ a=R->getInitialTime(t.first); b=R->getFinalTime(t.first); } else { a=G->getInitialTime(t.first); b=G->getFinalTime(t.first); } string w=string("the ")+(t.first.system==SatelliteSystem::Glonass?"GLONASS":"")+" satellite's "; eq(w+"first time",sec(a),t.second.begin()->first); eq(w+"last time",sec(b),t.second.rbegin()->first); }
    if(!m.edited&&(m.any||m.gany)){ int64_t lo=m.any?m.lo:m.glo, hi=m.any?m.hi:m.ghi; if(m.any&&m.gany){ lo=std::min(lo,m.glo); hi=std::max(hi,m.ghi); } eq("the store's first time",sec(x().getInitialTime()),lo); eq("the store's last time",sec(x().getFinalTime()),hi); }
    if(m.edited&&!r3&&m.gany){ eq("the store's first time",sec(G->getInitialTime()),m.glo); eq("the store's last time",sec(G->getFinalTime()),m.ghi); }
    // the list holds exactly the stored data sets
    std::multiset<string> a,b; if(r3){ std::list<Rinex3NavData> l; int n=R->addToList(l); if(n!=(int)l.size()) bad("list","addToList reports a wrong count"); for(auto&d:l) a.insert(lst(d,sysOf(d.sat))); } else { std::list<GloEphemeris> l; int n=G->addToList(l); if(n!=(int)l.size()) bad("list","addToList reports a wrong count"); for(auto&d:l) a.insert(lst(Rinex3NavData(d),0)); }
    size_t no=0; for(auto&t:m.tab) for(auto&r:t.second){ b.insert(lst(rec(r.second.m),r.second.m.sys)); if(r.second.m.sys) no++; } if(a!=b){ string x,y; for(auto&s:a) if(!b.count(s)){ x=s; break; } for(auto&s:b) if(!a.count(s)){ y=s; break; } bad("list","the list of stored data sets is wrong: "+std::to_string(a.size())+" for "+std::to_string(b.size())+", "+x+" for "+y); }
    if(r3){ size_t got=0; for(int y=1;y<5;y++) got+=R->size(SatID(-1,SYS[y])); if(got!=no) bad("size","the store counts "+std::to_string(got)+" orbit data sets instead of "+std::to_string(no)); } }
  void query(int sat,int sys,int64_t t,int qs){ SatID id=idOf(sat,sys); const Rec* e=m.find(id,t); string q=string(" for ")+SN[sys]+" satellite "+std::to_string(sat+1)+" at "+std::to_string(t)+(qs>=0?string(" asked in the time of ")+SN[qs]:""); int64_t tq=t; TimeSystem ts=TSY[sys]; if(r3&&qs>=0&&qs!=sys){ tq=t-UTCOFF[sys]+UTCOFF[qs]; ts=TSY[qs]; } CommonTime c=T(tq,ts);
    bool edge=sys==0&&e&&t==e->m.t+900; // getXvt excludes, findEphemeris includes this instant
    string want=e&&!edge?xvtOf(e->m,t):"throws",got; try{ got=xs(x().getXvt(id,c)); } catch(InvalidRequest&){ got="throws"; } string w1=(e&&sys&&m.oh&&!e->healthy)?"throws":want; ev("xvt "+std::to_string(t)+" -> "+(got=="throws"?got:"ok")); probe(e?"found":"notfound");
    if(edge){ probe("edge"); return; }
    if(got!=w1) bad("xvt","getXvt gives "+got+" instead of "+w1+q);
    Xvt cx=x().computeXvt(id,c); Xvt::HealthStatus h=!e?Xvt::Unavailable:e->healthy?Xvt::Healthy:Xvt::Unhealthy; if(cx.health!=h) bad("health","computeXvt reports health "+std::to_string(cx.health)+" instead of "+std::to_string(h)+q); if(e&&xs(cx)!=want) bad("xvt","computeXvt gives "+xs(cx)+" instead of "+want+q); if(e){ string d=said(e->m,t,cx); if(!d.empty()) bad(string("orbit-")+SN[sys],d+q); } Xvt::HealthStatus g=x().getSVHealth(id,c); if(g!=h) bad("health","getSVHealth reports "+std::to_string(g)+" instead of "+std::to_string(h)+q);
    if(!r3){ bool ok=true; int64_t t0=0; try{ const GloEphemeris& f=G->findEphemeris(id,c); t0=sec(f.getEpochTime()); if(e&&t==e->m.t&&std::fabs(f.svClockBias(c)-cx.clkbias)>1e-15) bad("clock","the clock bias is "+fmtd(f.svClockBias(c))+" from the data set and "+fmtd(cx.clkbias)+" from the store"+q); } catch(InvalidRequest&){ ok=false; } if(ok!=(e!=0)||(ok&&t0!=e->m.t)) bad("find",string("findEphemeris ")+(ok?"answers another data set":"finds nothing")+q); } }
};
struct Sats { bool mixed; int ns; Sats(bool mx,int n):mixed(mx),ns(n){} Msg msg(uint64_t seed,int s,int j) const { Msg m; s%=ns; m.sat=s; m.sys=mixed?s%5:0; Rng g(seed+977*s); int64_t base=(seed%3?g.range(0,40):g.range(80,88))*7200; if(!m.sys&&seed%3) base/=4; int64_t t=base; bool h=true; for(int i=0;i<=j;i++){ t+=i?(m.sys?7200:1800)*(g.chance(0.2)?g.range(2,5):1):0; h=!g.chance(0.15); } m.t=t; m.healthy=h; m.body=1+s*40+j; details(m); return m; } };
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op c("!cfg"); int k=g.chance(0.6); int ns=k?g.range(2,8):g.range(1,4), nj=g.range(1,8); uint64_t sd=g.next()>>1; c.set("_k",k); c.set("_seed",sd); c.set("_ns",ns); c.set("_nj",nj); c.set("oh",g.chance(0.4)); p.push_back(c); Sats w(k,ns);
  struct D { double at; Op o; }; vector<D> d; double late=g.pick(vector<double>{0,3000,40000}), loss=g.pick(vector<double>{0,0.1,0.4}), dup=g.pick(vector<double>{0,0.2,0.5}); int64_t t0=INT64_MAX,t1=INT64_MIN;
  for(int s=0;s<ns;s++) for(int j=0;j<nj;j++){ Msg m=w.msg(sd,s,j); t0=std::min(t0,m.t); t1=std::max(t1,m.t); if(g.chance(loss)) continue; int n=g.chance(dup)?2:1; for(int q=0;q<n;q++){ Op o("msg"); o.set("sat",s); o.set("set",j); if(m.sys==0&&q&&g.chance(0.5)) o.set("alt",1); d.push_back({m.t+g.unit()*late,o}); } }
  int nq=g.range(3,14); for(int i=0;i<nq;i++){ Op o("q"); int s=g.range(0,ns-1); Msg m=w.msg(sd,s,g.range(0,nj-1)); o.set("sat",s); int64_t t=m.t+g.range(-9000,16000); if(g.chance(0.5)){ int64_t a[]={0,1,-1,900,901,899,-900,-901,-899,-7200,-7201,7200,7201,14400,14401}; t=m.t+g.pick(vector<int64_t>(a,a+15)); } if(m.sys==0) t=m.t+g.pick(vector<int64_t>{0,1,-1,900,901,899,-900,-901,-899,450,-450,1000,-1000,g.range(-2000,2000)}); o.set("t",t); o.set("qs",k&&g.chance(0.4)?g.range(0,4):-1); d.push_back({g.chance(0.6)?(double)t1+late+g.unit():t0+g.unit()*(t1-t0+late),o}); }
  if(g.chance(0.25)){ Op o("edit"); int64_t a=g.range(t0-1000,t1),b=g.range(t0,t1+1000); o.set("a",std::min(a,b)); o.set("b",std::max(a,b)); d.push_back({t0+g.unit()*(t1-t0+late),o}); }
  if(g.chance(0.08)) d.push_back({t0+g.unit()*(t1-t0+late),Op("clear")}); if(g.chance(0.3)) d.push_back({t0+g.unit()*(t1-t0+late),Op("check")});
  std::stable_sort(d.begin(),d.end(),[](const D&a,const D&b){return a.at<b.at;}); for(auto&x:d) p.push_back(x.o); return p; }
void exec(const Plan& p){ const Op& c=p.at(0); int k=c.i("_k")?1:0; Sats w(k,std::max<int>(1,c.i("_ns",1))); uint64_t sd=c.i("_seed"); Run r(k); r.setOnly(c.i("oh")); opc(r.nm); int64_t last=INT64_MIN; map<string,int> n;
  for(size_t i=1;i<p.size();i++){ const Op& o=p[i];
    if(o.kind=="msg"){ Msg m=w.msg(sd,o.i("sat"),o.i("set")); if(o.i("alt")){ m.body+=1000; details(m); fault("msg_contradicting"); } if(n[o.text()]++) fault("msg_duplicate"); if(m.t<last) fault("msg_reordered"); else if(last!=INT64_MIN) clk().advance((m.t-last)*1000000000LL); last=std::max(last,m.t); int want=r.m.add(m),got=r.add(m); ev("add "+std::to_string(m.sat)+" "+std::to_string(m.t)+" -> "+std::to_string(got)); lg().shapeEv(std::to_string(got)); if(got!=want) r.bad("add",string("adding ")+SN[m.sys]+" satellite "+std::to_string(m.sat+1)+"'s data set of "+std::to_string(m.t)+" reports "+std::to_string(got)+" instead of "+std::to_string(want)); }
    if(o.kind=="q"){ int s=o.i("sat")%w.ns; r.query(s,k?s%5:0,o.i("t"),o.i("qs",-1)); }
    if(o.kind=="check") r.checkAll();
    if(o.kind=="edit"){ int64_t a=o.i("a"),b=o.i("b"); r.x().edit(T(a,TimeSystem::Any),T(b,TimeSystem::Any)); r.m.gany=false; for(auto t=r.m.tab.begin();t!=r.m.tab.end();){ for(auto x=t->second.begin();x!=t->second.end();) if(x->first<a||x->first>b) x=t->second.erase(x); else { if(x->second.m.sys==0){ int64_t v=x->first; if(!r.m.gany||v<r.m.glo) r.m.glo=v; if(!r.m.gany||v>r.m.ghi) r.m.ghi=v; r.m.gany=true; } ++x; } ++t; } r.m.edited=true; opc("edit"); r.checkAll(); }
    if(o.kind=="clear"){ r.x().clear(); bool oh=r.m.oh; r.m=Model(); r.m.oh=oh; opc("clear"); r.checkAll(); } }
  r.checkAll(); r.x().clear(); r.m=Model(); r.checkAll(); if(!r.x().getIndexSet().empty()) r.bad("clear","a cleared store still lists satellites"); }
Reg r({"C21","A run sends 1-8 GLONASS data sets each of 1-4 satellites to the GLONASS store, or GPS, Galileo, BeiDou, QZSS and GLONASS data sets of 2-8 satellites to the mixed RINEX 3 store, through a network that delays, re-orders, duplicates, loses and contradicts messages, with queries at and around the validity limits (also asked in another system's time), edits and clears interleaved. Non-trivial: at least one message delivered.","GloEphemerisStore, Rinex3EphemerisStore, OrbitEphStore, GloEphemeris orbit integration, Kepler orbits, time system conversion","network of broadcast messages, allocator",40000,1500000,gen,exec,2000000000});
}
