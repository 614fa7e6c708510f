// C20: broadcast ephemeris stores fed by a network that delays, re-orders,
// duplicates, loses and corrupts messages, against a small reference model.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <list>
#include <cmath>
#include <cstring>
#include <memory>
#include "GPSEphemerisStore.hpp"
#include "GalEphemerisStore.hpp"
#include "QZSEphemerisStore.hpp"
#include "BDSEphemeris.hpp"
#include "OrbitEphStore.hpp"
#include "OrbElemStore.hpp"
#include "OrbElemRinex.hpp"
#include "GloEphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
#include "orbits.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::map; using std::set; using std::vector;
namespace {
enum Kind { GPS_USER, GPS_NEAR, GAL, QZS, MIXED, ELEM, NKIND };
const char* kname[]={"gps","gpsnear","gal","qzs","mixed","elem"};
struct Msg { int sat; int64_t toe,begin,end; bool healthy; int body; };
TimeSystem tsOf(int k,int sat){ if(k==GAL||(k==MIXED&&sat%3==1)) return TimeSystem::GAL; if(k==QZS) return TimeSystem::QZS; if(k==MIXED&&sat%3==2) return TimeSystem::BDT; return TimeSystem::GPS; }
SatID satOf(int k,int sat){ if(k==GAL||(k==MIXED&&sat%3==1)) return SatID(sat+1,SatelliteSystem::Galileo); if(k==QZS) return SatID(sat+193,SatelliteSystem::QZSS); if(k==MIXED&&sat%3==2) return SatID(sat+1,SatelliteSystem::BeiDou); return SatID(sat+1,SatelliteSystem::GPS); }
CommonTime T(int64_t s,TimeSystem ts){ s+=604800*10; GPSWeekSecond w(1990+(unsigned)(s/604800),(double)(s%604800),TimeSystem::GPS); CommonTime c(w); c.setTimeSystem(ts); return c; }
double u(Rng& g,double a,double b){ return a+(b-a)*g.unit(); }
int64_t tocOf(const Msg& m,int k){ if(k==GPS_USER||k==GPS_NEAR) return m.toe; Rng g(m.sat*7919ULL+m.body*104729ULL+5); return g.chance(0.5)?m.toe:m.toe+g.pick(vector<int64_t>{-7200,-16,-3600,600,3600}); }
// what the message says about the satellite's motion, drawn per data set (the sat and body numbers)
orb::Kep kepOf(const Msg& m,int k){ Rng g(m.sat*7919ULL+m.body*104729ULL+11); orb::Kep e; SatelliteSystem y=satOf(k,m.sat).system; bool geo=false; double A=26560000;
  if(y==SatelliteSystem::Galileo) A=29600000; if(y==SatelliteSystem::QZSS) A=42164000; if(y==SatelliteSystem::BeiDou) A=g.chance(0.5)?27906000:42164000; e.A=A+u(g,-30000,30000); e.e=g.chance(0.1)?0:u(g,1e-5,y==SatelliteSystem::QZSS?0.09:0.03); e.i0=y==SatelliteSystem::QZSS?0.71:0.95; if(y==SatelliteSystem::BeiDou&&A>3e7){ geo=g.chance(0.6); e.i0=geo?u(g,0.0005,0.12):0.95; }
  e.i0=(double)(e.i0+u(g,-0.002,0.002)); if(geo) e.i0=fabsl(e.i0); e.M0=u(g,-3.14159,3.14159); e.dn=u(g,3e-9,6e-9); e.O0=u(g,-3.14159,3.14159); e.Od=u(g,-9e-9,-6e-9); e.id=u(g,-6e-10,6e-10); e.w=u(g,-3.14159,3.14159); e.Cuc=u(g,-8e-6,8e-6); e.Cus=u(g,-1e-5,1e-5); e.Crc=u(g,-350,350); e.Crs=u(g,-150,150); e.Cic=u(g,-3e-7,3e-7); e.Cis=u(g,-3e-7,3e-7);
  e.toe=((m.toe%604800)+604800)%604800; e.af0=u(g,-6e-4,6e-4); e.af1=u(g,-1e-10,1e-10); e.af2=g.chance(0.5)?0:u(g,-1e-17,1e-17); if(k!=GPS_USER&&k!=GPS_NEAR&&g.chance(0.2)) e.Adot=u(g,-0.01,0.01); if(y==SatelliteSystem::BeiDou){ e.bds(geo); if(geo) e.Adot=0; } if(y==SatelliteSystem::Galileo) e.gal(); return e; }
template<class E> void orbit(E& e,const Msg& m,int k){ e.dataLoadedFlag=true; e.satID=satOf(k,m.sat); TimeSystem ts=tsOf(k,m.sat); e.ctToe=T(m.toe,ts); e.ctToc=T(tocOf(m,k),ts); e.beginValid=T(m.begin,ts); e.endValid=T(m.end,ts); orb::Kep q=kepOf(m,k);
  e.af0=q.af0; e.af1=q.af1; e.af2=q.af2; e.M0=q.M0; e.dn=q.dn; e.ecc=q.e; e.A=q.A; e.OMEGA0=q.O0; e.i0=q.i0; e.w=q.w; e.OMEGAdot=q.Od; e.idot=q.id; e.dndot=0; e.Adot=q.Adot; e.Cuc=q.Cuc; e.Cus=q.Cus; e.Crc=q.Crc; e.Crs=q.Crs; e.Cic=q.Cic; e.Cis=q.Cis; }
GPSEphemeris mkGPS(const Msg& m,int k){ GPSEphemeris e; orbit(e,m,k); e.health=m.healthy?0:1; e.HOWtime=m.begin%604800; e.transmitTime=e.beginValid; e.IODC=m.body; e.IODE=m.body; e.fitDuration=4; e.fitint=0; e.accuracyFlag=0; e.codeflags=1; e.L2Pdata=0; e.Tgd=0; return e; }
GalEphemeris mkGal(const Msg& m,int k){ GalEphemeris e; orbit(e,m,k); e.health=m.healthy?Xvt::Healthy:Xvt::Unhealthy; e.transmitTime=e.beginValid; e.HOWtime=m.begin%604800; return e; }
QZSEphemeris mkQzs(const Msg& m,int k){ QZSEphemeris e; orbit(e,m,k); e.health=m.healthy?0:2; e.transmitTime=e.beginValid; e.HOWtime=m.begin%604800; e.IODC=m.body; e.IODE=m.body; e.fitDuration=4; return e; }
BDSEphemeris mkBds(const Msg& m,int k){ BDSEphemeris e; orbit(e,m,k); e.health=m.healthy?0:1; e.transmitTime=e.beginValid; e.HOWtime=m.begin%604800; return e; }
OrbElemRinex mkElem(const Msg& m,int k){ OrbElemRinex e; orbit(e,m,k); e.obsID=ObsID(ObservationType::NavMsg,CarrierBand::Undefined,TrackingCode::Undefined); e.setHealth(m.healthy?0:1); e.transmitTime=e.beginValid; e.HOWtime=m.begin%604800; e.fitDuration=4; e.IODC=m.body; return e; }
string xs(const Xvt& x){ char b[400]; snprintf(b,400,"%.17g %.17g %.17g v %.17g %.17g %.17g c %.17g %.17g r %.17g",x.x[0],x.x[1],x.x[2],x.v[0],x.v[1],x.v[2],x.clkbias,x.clkdrift,x.relcorr); return b; }

struct Ans { bool ok=false; int64_t toe=0,begin=0; string xvt; bool healthy=false; };
int64_t sec(const CommonTime& t){ CommonTime c(t),z(T(0,TimeSystem::Any)); c.setTimeSystem(TimeSystem::Any); return llround(c-z); }

struct World { int k; std::unique_ptr<OrbitEphStore> s; std::unique_ptr<OrbElemStore> e;
  explicit World(int kind):k(kind){ if(k==GPS_USER||k==GPS_NEAR) s.reset(new GPSEphemerisStore); else if(k==GAL) s.reset(new GalEphemerisStore); else if(k==QZS) s.reset(new QZSEphemerisStore); else if(k==MIXED) s.reset(new OrbitEphStore); else e.reset(new OrbElemStore); if(k==GPS_NEAR) s->SearchNear(); }
  XvtStore<SatID>& x(){ return s?(XvtStore<SatID>&)*s:(XvtStore<SatID>&)*e; }
  string xvtOf(const Msg& m,int64_t t){ CommonTime c=T(t,tsOf(k,m.sat)); try{ if(k==ELEM) return xs(mkElem(m,k).svXvt(c)); switch(satOf(k,m.sat).system){ case SatelliteSystem::Galileo: return xs(mkGal(m,k).svXvt(c)); case SatelliteSystem::QZSS: return xs(mkQzs(m,k).svXvt(c)); case SatelliteSystem::BeiDou: return xs(mkBds(m,k).svXvt(c)); default: return xs(mkGPS(m,k).svXvt(c)); } } catch(gpstk::Exception& e){ return "throws"; } }
  // 1 stored, 0 refused as a copy, -1 refused as corrupt
  int add(const Msg& m){ try{ if(k==ELEM){ OrbElemRinex o=mkElem(m,k); return e->addOrbElem(&o); }
      if(k==GPS_USER||k==GPS_NEAR) return ((GPSEphemerisStore&)*s).addEphemeris(mkGPS(m,k))!=0;
      if(k==GAL) return ((GalEphemerisStore&)*s).addEphemeris(mkGal(m,k))!=0;
      if(k==QZS) return ((QZSEphemerisStore&)*s).addEphemeris(mkQzs(m,k))!=0;
      switch(satOf(k,m.sat).system){ case SatelliteSystem::Galileo:{ GalEphemeris o=mkGal(m,k); return s->addEphemeris(&o)!=0; } case SatelliteSystem::BeiDou:{ BDSEphemeris o=mkBds(m,k); return s->addEphemeris(&o)!=0; } default:{ GPSEphemeris o=mkGPS(m,k); return s->addEphemeris(&o)!=0; } } } catch(InvalidParameter& e){ return -1; } }
  bool find(int sat,int64_t t,bool near,Ans& a){ CommonTime c=T(t,tsOf(k,sat)); SatID id=satOf(k,sat); if(s){ const OrbitEph* p= near?s->findOrbitEph(id,c):s->findOrbitEph(id,c); if(!p) return false; if(p->satID!=id) fail("store-satellite","an ephemeris of another satellite was returned"); a.toe=sec(p->ctToe); a.begin=sec(p->beginValid); return true; }
    try{ const OrbElemBase* p=near?e->findNearOrbElem(id,c):e->findOrbElem(id,c); if(!p) fail("store-null","NULL returned"); if(p->satID!=id) fail("store-satellite","orbit elements of another satellite were returned"); a.toe=sec(p->ctToe); a.begin=sec(p->beginValid); return true; } catch(InvalidRequest&){ return false; } }
};
struct Model { int k; map<int,map<int64_t,Msg>> tab; set<int> seen; bool any=false,edited=false; int64_t lo=0,hi=0;
  bool near() const { return k==GPS_NEAR; }
  int64_t key(const Msg& m) const { return near()?m.toe:m.begin; }
  int add(const Msg& m){ seen.insert(m.sat); auto& t=tab[m.sat]; for(auto i=t.begin();i!=t.end();++i) if(i->second.toe==m.toe){ if(i->second.begin<=m.begin) return 0; if(t.count(key(m))&&t.find(key(m))!=i) return -1; t.erase(i); put(t,m); return 1; } if(t.count(key(m))) return -1; put(t,m); return 1; }
  void put(map<int64_t,Msg>& t,const Msg& m){ t[key(m)]=m; if(!any||m.begin<lo) lo=m.begin; if(!any||m.end>hi) hi=m.end; any=true; }
  static bool valid(const Msg& m,int64_t t){ return t>=m.begin&&t<=m.end; }
  const Msg* user(int sat,int64_t t){ auto i=tab.find(sat); if(i==tab.end()) return 0; const Msg* b=0; for(auto&r:i->second) if(r.second.begin<=t&&(!b||r.second.begin>b->begin)) b=&r.second; return b&&valid(*b,t)?b:0; }
  const Msg* nearEph(int sat,int64_t t){ auto i=tab.find(sat); if(i==tab.end()) return 0; const Msg *p=0,*n=0; for(auto&r:i->second){ if(r.second.toe==t) return &r.second; if(r.second.toe<t) p=&r.second; else if(!n) n=&r.second; } const Msg *a=n,*b=p; if(p&&n&&n->toe-t>t-p->toe) std::swap(a,b); if(a&&valid(*a,t)) return a; if(b&&valid(*b,t)) return b; return 0; }
  const Msg* nearElem(int sat,int64_t t){ const Msg* u=user(sat,t); if(u) return u; auto i=tab.find(sat); if(i==tab.end()||i->second.empty()) return 0; const Msg *p=0,*n=0; for(auto&r:i->second){ if(r.second.begin<=t) p=&r.second; else if(!n) n=&r.second; } if(!p) return n; if(!n) return p; return n->begin-t>t-p->end?p:n; }
  const Msg* find(int sat,int64_t t,bool nr){ if(k==GPS_NEAR) return nearEph(sat,t); if(k==ELEM&&nr) return nearElem(sat,t); return user(sat,t); }
  size_t size() const { size_t n=0; for(auto&t:tab) n+=t.second.size(); return n; }
};
// the constellation: per satellite a list of data sets, each broadcast several times
struct Sats { vector<vector<Msg>> sets; // per sat: one Msg per data set (earliest copy)
  vector<vector<bool>> upload; vector<vector<int>> step;
  Sats(uint64_t seed,int nsat,int nset,int k){ Rng g(seed); for(int s=0;s<nsat;s++){ vector<Msg> v; vector<bool> u; vector<int> st; int64_t hour=7200*g.range(0,80), nextToe; bool off=false; int64_t o=0; int64_t b=hour; 
        for(int j=0;j<nset;j++){ Msg m; m.sat=s; m.body=1+s*40+j; m.healthy=!g.chance(0.15); bool up=false; 
          if(j&&b<=hour+5000&&g.chance(0.25)){ up=true; b=std::max(b+630,hour+30*g.range(20,100)); o=off?o+16:16; off=true; nextToe=hour+7200-o; m.begin=b; }
          else { if(j) hour+=7200*(g.chance(0.15)?g.range(2,4):1); if(off&&g.chance(0.5)){ off=false; o=0; } nextToe=hour+7200-o; m.begin=hour; b=hour; up=off; }
          m.toe=nextToe; m.end=(m.toe+7199)/7200*7200+7200*(g.chance(0.2)?2:1); if(k!=GPS_USER&&k!=GPS_NEAR&&k!=ELEM&&g.chance(0.4)) m.end=m.toe+g.range(0,3000); if(m.end<=m.begin+600) m.end=m.begin+3600; v.push_back(m); u.push_back(up); st.push_back(up?30:0); }
        sets.push_back(v); upload.push_back(u); step.push_back(st); } }
  Msg msg(int s,int j,int copy) const { s%=sets.size(); j%=sets[s].size(); Msg m=sets[s][j]; m.begin+=(int64_t)step[s][j]*(copy%20); return m; }
};
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op c("!cfg"); int k=g.range(0,NKIND-1), ns=g.range(1,4), nj=g.range(1,8); c.set("_k",k); c.set("_seed",g.next()>>1); c.set("_ns",ns); c.set("_nj",nj); c.set("oh",g.chance(0.4)); c.set("leak",g.chance(0.2)); p.push_back(c);
  Sats w(p[0].i("_seed"),ns,nj,k); struct D { double at; Op o; }; vector<D> d; double late=g.chance(0.3)?0:g.chance(0.5)?3000:40000; double loss=g.pick(std::vector<double>{0,0.1,0.4}), dup=g.pick(std::vector<double>{0,0.2,0.5});
  int64_t t0=INT64_MAX,t1=0; for(int s=0;s<ns;s++) for(int j=0;j<nj;j++){ int nc=g.range(1,3); for(int c=0;c<nc;c++){ int copy=c?g.range(1,19):(g.chance(0.3)?g.range(0,19):0); Msg m=w.msg(s,j,copy); t0=std::min(t0,m.begin); t1=std::max(t1,m.end); if(g.chance(loss)) continue; int n=g.chance(dup)?2:1; for(int q=0;q<n;q++){ Op o("msg"); o.set("sat",s); o.set("set",j); o.set("copy",copy); d.push_back({m.begin+30*copy+g.unit()*late,o}); } } if(k!=GPS_NEAR&&g.chance(0.06)){ Op o("bad"); o.set("sat",s); o.set("set",j); d.push_back({w.msg(s,j,0).begin+g.unit()*late,o}); } }
  int nq=g.range(4,25); for(int i=0;i<nq;i++){ Op o("q"); int s=g.range(0,ns-1); o.set("sat",s); int64_t t=g.range(t0-4000,t1+4000); if(g.chance(0.5)){ Msg m=w.msg(s,g.range(0,nj-1),g.range(0,2)); int64_t c[]={m.begin,m.begin-1,m.begin+1,m.toe,m.toe-1,m.toe+1,m.end,m.end+1,m.end-1,m.begin+30}; t=c[g.range(0,9)]; } o.set("t",t); o.set("near",g.chance(0.5)); d.push_back({g.chance(0.5)?(double)t1+late+g.unit():t0+g.unit()*(t1-t0+late),o}); }
  if(g.chance(0.12)){ Op o("edit"); int64_t a=g.range(t0-1000,t1),b=g.range(t0,t1+1000); o.set("a",std::min(a,b)); o.set("b",std::max(a,b)); d.push_back({t0+g.unit()*(t1-t0+late),o}); }
  if(g.chance(0.08)) d.push_back({t0+g.unit()*(t1-t0+late),Op("clear")});
  if(g.chance(0.3)) d.push_back({t0+g.unit()*(t1-t0+late),Op("check")});
  if((k<=GPS_NEAR||k==ELEM)&&g.chance(0.25)) d.push_back({1e18,Op("rationalize")});
  std::stable_sort(d.begin(),d.end(),[](const D&a,const D&b){return a.at<b.at;}); for(auto&x:d) p.push_back(x.o); return p; }
string ms(const Msg* m){ return m?"the data set of "+std::to_string(m->toe)+" begun "+std::to_string(m->begin):"no data set"; }
struct Run { World w; Model m; string nm; bool oh; int ns;
  Run(int k):w(k){ m.k=k; nm=kname[k]; }
  void checkAll(){ int k=w.k; size_t n=m.size(); size_t got=w.s?w.s->size():w.e->size(); if(got!=n) fail("store-"+nm+"-size","the store holds "+std::to_string(got)+" data sets instead of "+std::to_string(n));
    set<SatID> ix=w.s?w.s->getIndexSet():w.e->getIndexSet(); set<SatID> want; for(int s:m.seen) want.insert(satOf(k,s)); for(auto&t:m.tab) if(!t.second.empty()&&!ix.count(satOf(k,t.first))) fail("store-"+nm+"-index","a stored satellite is missing from the index"); for(auto&i:ix) if(!want.count(i)) fail("store-"+nm+"-index","the index names a satellite never received");
    for(int s=0;s<5;s++){ SatID id=satOf(k,s); if(m.tab.count(s)&&!m.tab[s].empty()&&!w.x().isPresent(id)) fail("store-"+nm+"-present","isPresent is false for a stored satellite"); if(!m.seen.count(s)&&w.x().isPresent(id)) fail("store-"+nm+"-present","isPresent is true for a satellite never received"); }
    if(w.s){ for(SatelliteSystem y:{SatelliteSystem::GPS,SatelliteSystem::Galileo,SatelliteSystem::BeiDou,SatelliteSystem::QZSS,SatelliteSystem::Mixed}){ size_t c=0; for(auto&t:m.tab) if(y==SatelliteSystem::Mixed||satOf(k,t.first).system==y) c+=t.second.size(); if(w.s->size(SatID(-1,y))!=c) fail("store-"+nm+"-syssize","the store counts "+std::to_string(w.s->size(SatID(-1,y)))+" data sets of a system instead of "+std::to_string(c)); }
      for(auto&t:m.tab){ SatID id=satOf(k,t.first); if(w.s->size(id)!=t.second.size()) fail("store-"+nm+"-satsize","the satellite has "+std::to_string(w.s->size(id))+" data sets instead of "+std::to_string(t.second.size())); if(!t.second.empty()){ int64_t a=sec(w.s->getInitialTime(id)),b=sec(w.s->getFinalTime(id)); if(a!=t.second.begin()->first||b!=t.second.rbegin()->first) fail("store-"+nm+"-sattimes","the satellite's first and last times are "+std::to_string(a)+" and "+std::to_string(b)+" instead of "+std::to_string(t.second.begin()->first)+" and "+std::to_string(t.second.rbegin()->first)); } }
      std::list<OrbitEph*> l; int c=w.s->addToList(l); std::multiset<string> a,b; for(auto e:l){ a.insert(std::to_string(e->satID.id)+"/"+std::to_string((int)e->satID.system)+"/"+std::to_string(sec(e->ctToe))+"/"+std::to_string(sec(e->beginValid))); delete e; } for(auto&t:m.tab) for(auto&r:t.second){ SatID id=satOf(k,t.first); b.insert(std::to_string(id.id)+"/"+std::to_string((int)id.system)+"/"+std::to_string(r.second.toe)+"/"+std::to_string(r.second.begin)); } if(a!=b||c!=(int)n) fail("store-"+nm+"-list","the list of stored data sets is wrong"); }
    if(m.any&&!m.edited){ int64_t a=sec(w.x().getInitialTime()),b=sec(w.x().getFinalTime()); if(a!=m.lo||b!=m.hi) fail("store-"+nm+"-times","the store's time limits are "+std::to_string(a)+" and "+std::to_string(b)+" instead of "+std::to_string(m.lo)+" and "+std::to_string(m.hi)); } }
  void query(int sat,int64_t t,bool near){ Ans a; const Msg* e=m.find(sat,t,near); bool f=w.find(sat,t,near,a); ev("find sat "+std::to_string(sat)+" at "+std::to_string(t)+" -> "+(f?std::to_string(a.toe)+"/"+std::to_string(a.begin):"none")); string q=" for satellite "+std::to_string(sat)+" at "+std::to_string(t);
    if(f!=(e!=0)||(f&&(a.toe!=e->toe||a.begin!=e->begin))) fail("store-"+nm+"-find","the store answers "+(f?"the data set of "+std::to_string(a.toe)+" begun "+std::to_string(a.begin):string("no data set"))+" instead of "+ms(e)+q); if(f) probe("found"); else probe("notfound");
    // positions use the current data set
    e=m.find(sat,t,false); SatID id=satOf(w.k,sat); CommonTime c=T(t,tsOf(w.k,sat)); string want=e?w.xvtOf(*e,t):"throws"; string got; try{ got=xs(w.x().getXvt(id,c)); } catch(InvalidRequest&){ got="throws"; }
    string want1=(e&&!e->healthy&&oh)?"throws":want; if(got!=want1) fail("store-"+nm+"-xvt","getXvt gives "+got+" instead of "+want1+q);
    Xvt cx=w.x().computeXvt(id,c); Xvt::HealthStatus h=e?(e->healthy?Xvt::Healthy:Xvt::Unhealthy):Xvt::Unavailable; if(cx.health!=h) fail("store-"+nm+"-health","computeXvt reports health "+std::to_string(cx.health)+" instead of "+std::to_string(h)+q); if(e&&xs(cx)!=want) fail("store-"+nm+"-xvt","computeXvt gives "+xs(cx)+" instead of "+want+q); if(e){ orb::Kep o=kepOf(*e,w.k); string d=orb::check(o,t-e->toe,t-tocOf(*e,w.k),cx); if(!d.empty()) fail("store-"+nm+"-orbit",(o.geo?"geostationary satellite: ":"")+d+q); } Xvt::HealthStatus g=w.x().getSVHealth(id,c); if(g!=h) fail("store-"+nm+"-health","getSVHealth reports "+std::to_string(g)+" instead of "+std::to_string(h)+q);
    // the typed accessors give the same answer
    if(w.k<=GPS_NEAR||w.k==GAL||w.k==QZS){ bool ok=true; int64_t b=0; try{ if(w.k<=GPS_NEAR) b=sec(((GPSEphemerisStore&)*w.s).findEphemeris(id,c).beginValid); else if(w.k==GAL) b=sec(((GalEphemerisStore&)*w.s).findEphemeris(id,c).beginValid); else b=sec(((QZSEphemerisStore&)*w.s).findEphemeris(id,c).beginValid); } catch(InvalidRequest&){ ok=false; } if(ok!=(e!=0)||(ok&&b!=e->begin)) fail("store-"+nm+"-typed",string("findEphemeris ")+(ok?"answers another data set":"finds nothing")+q); }
    if(w.k==ELEM){ auto i=m.tab.find(sat); const Msg* x=0; if(i!=m.tab.end()) for(auto&r:i->second) if(r.second.toe==t) x=&r.second; try{ const OrbElemBase* p=w.e->findToe(id,c); if(!x||sec(p->beginValid)!=x->begin) fail("store-elem-toe","findToe answers a wrong data set"+q); } catch(InvalidRequest& r){ if(x) { string s=r.getText(); if(s.find("Mismatched")==string::npos) fail("store-elem-toe","findToe finds nothing"+q); } } } }
};
void exec(const Plan& p){ const Op& c=p.at(0); int k=c.i("_k")%NKIND; Sats sats(c.i("_seed"),std::max<int>(1,c.i("_ns",1)),std::max<int>(1,c.i("_nj",1)),k); Run r(k); r.oh=c.i("oh"); r.ns=c.i("_ns",1); r.w.x().setOnlyHealthyFlag(r.oh); opc(r.nm); int64_t lastBegin=0; map<string,int> seenMsg;
  for(size_t i=1;i<p.size();i++){ const Op& o=p[i];
    if(o.kind=="msg"){ Msg m=sats.msg(o.i("sat"),o.i("set"),o.i("copy")); if(seenMsg[o.text()]++) fault("msg_duplicate"); if(m.begin<lastBegin) fault("msg_reordered"); lastBegin=std::max(lastBegin,m.begin); int want=r.m.add(m); int got=r.w.add(m); ev("add sat "+std::to_string(m.sat)+" toe "+std::to_string(m.toe)+" begin "+std::to_string(m.begin)+" -> "+std::to_string(got)); if(got!=want) fail("store-"+r.nm+"-add","adding the data set of "+std::to_string(m.toe)+" begun "+std::to_string(m.begin)+" reports "+std::to_string(got)+" instead of "+std::to_string(want)); lg().shapeEv(std::to_string(got)); }
    if(o.kind=="bad"){ Msg m=sats.msg(o.i("sat"),o.i("set"),0); m.toe+=7777; m.body+=17; bool clash=false; for(auto&x:r.m.tab[m.sat]) if(x.second.toe==m.toe) clash=true; if(k==GPS_NEAR||clash) continue; fault("msg_corrupt"); int want=r.m.add(m); int got=r.w.add(m); if(got!=want) fail("store-"+r.nm+"-corrupt","a message that contradicts a stored one reports "+std::to_string(got)+" instead of "+std::to_string(want)); if(want<0){ probe("contradiction_refused"); r.checkAll(); } }
    if(o.kind=="q") r.query(o.i("sat")%5,o.i("t"),o.i("near"));
    if(o.kind=="check") r.checkAll();
    if(o.kind=="edit"){ int64_t a=o.i("a"),b=o.i("b"); TimeSystem ts=k==MIXED?TimeSystem::Any:tsOf(k,0); r.w.x().edit(T(a,ts),T(b,ts)); for(auto&t:r.m.tab) for(auto x=t.second.begin();x!=t.second.end();) if(x->first<a||x->first>b) x=t.second.erase(x); else ++x; r.m.edited=true; opc("edit"); r.checkAll(); }
    if(o.kind=="clear"){ r.w.x().clear(); Model n; n.k=k; r.m=n; opc("clear"); r.checkAll(); }
    if(o.kind=="rationalize"){ opc("rationalize"); r.checkAll(); if(k==ELEM) { if(r.m.size()) r.w.e->rationalize(); } else ((GPSEphemerisStore&)*r.w.s).rationalize(); size_t n=r.m.size(); size_t got=r.w.s?r.w.s->size():r.w.e->size(); if(got!=n) fail("store-"+r.nm+"-rationalize","rationalize turned "+std::to_string(n)+" data sets into "+std::to_string(got));
      // every data set is still there, found at the beginning of its validity
      CommonTime lo(CommonTime::END_OF_TIME),hi(CommonTime::BEGINNING_OF_TIME); lo.setTimeSystem(TimeSystem::Any); hi.setTimeSystem(TimeSystem::Any); if(k!=GPS_NEAR) for(auto&t:r.m.tab){ SatID id=satOf(k,t.first); std::multiset<int64_t> toes; for(auto&x:t.second) toes.insert(x.second.toe); std::multiset<int64_t> have; 
          if(r.w.s){ if(t.second.empty()) continue; for(auto&x:r.w.s->getTimeOrbitEphMap(id)){ have.insert(sec(x.second->ctToe)); if(x.first!=x.second->beginValid) fail("store-"+r.nm+"-rationalize","a data set is not filed under its beginning"); if(x.second->beginValid<lo) lo=x.second->beginValid; if(x.second->endValid>hi) hi=x.second->endValid; } } else { if(t.second.empty()) continue; for(auto&x:r.w.e->getOrbElemMap(id)){ have.insert(sec(x.second->ctToe)); if(x.first!=x.second->beginValid) fail("store-"+r.nm+"-rationalize","a data set is not filed under its beginning"); if(x.second->beginValid<lo) lo=x.second->beginValid; if(x.second->endValid>hi) hi=x.second->endValid; } }
          if(have!=toes) fail("store-"+r.nm+"-rationalize","rationalize lost or altered data sets"); }
      if(k!=GPS_NEAR&&n&&!r.m.edited){ int64_t a=sec(r.w.x().getInitialTime()),b=sec(r.w.x().getFinalTime()); if(a!=sec(lo)||b!=sec(hi)) fail("store-"+r.nm+"-rationalize-times","after rationalize the store's time limits are "+std::to_string(a)+" and "+std::to_string(b)+" instead of "+std::to_string(sec(lo))+" and "+std::to_string(sec(hi))); } return; } }
  r.checkAll(); r.w.x().clear(); Model n; n.k=k; r.m=n; r.checkAll();
  if(c.i("leak")){ // the same history once more to warm up, and once more to count what is never given back
    int64_t l[3]; for(int j=0;j<3;j++){ l[j]=al().live; World w(k); for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; if(o.kind=="msg") w.add(sats.msg(o.i("sat"),o.i("set"),o.i("copy"))); if(o.kind=="clear") w.x().clear(); if(o.kind=="edit") w.x().edit(T(o.i("a"),k==MIXED?TimeSystem::Any:tsOf(k,0)),T(o.i("b"),k==MIXED?TimeSystem::Any:tsOf(k,0))); if(o.kind=="rationalize"&&(k==GPS_USER||k==GPS_NEAR)) ((GPSEphemerisStore&)*w.s).rationalize(); } if(p.size()%2) w.x().clear(); }
    if(al().live!=l[2]) fail("store-"+r.nm+"-leak",std::to_string(al().live-l[2])+" blocks of memory are never given back by a store that was destroyed"); probe("leak_checked"); }
}
Reg r({"C20","A run broadcasts 1-8 data sets each of 1-4 simulated satellites (nominal cutovers, uploads, gaps, several transmissions of a set) into one of six real stores through a network that delays, re-orders, duplicates, loses and contradicts messages, with interleaved queries, edits and clears. Non-trivial: at least one message delivered.","OrbitEphStore and its GPS (user and near search), Galileo, QZSS and mixed forms, OrbElemStore, orbit evaluation","network of broadcast messages, allocator",60000,3000000,gen,exec,400000000});
}
