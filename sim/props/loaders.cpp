#include "loaders.hpp"
#include "formats.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <sstream>
#include <set>
#include "RinexEphemerisStore.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavData.hpp"
#include "RinexNavHeader.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavData.hpp"
#include "Rinex3NavHeader.hpp"
#include "YumaAlmanacStore.hpp"
#include "YumaStream.hpp"
#include "SEMAlmanacStore.hpp"
#include "SEMStream.hpp"
#include "IonexStore.hpp"
#include "IonexStream.hpp"
#include "IonexHeader.hpp"
#include "AntennaStore.hpp"
#include "AntexStream.hpp"
#include "AntexHeader.hpp"
#include "EOPDataStore.hpp"
#include "EOPStore.hpp"
#include "EOPPrediction.hpp"
#include "OceanLoadTides.hpp"
#include "AtmLoadTides.hpp"
#include "SatMetaDataStore.hpp"
#include "SatMetaDataSort.hpp"
#include "DCBDataReader.hpp"
#include "BLQDataReader.hpp"
#include "SatDataReader.hpp"
#include "ConfDataReader.hpp"
#include "PlanetEphemeris.hpp"
#include "SolarSystemEphemeris.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "TimeString.hpp"
#include "RinexUtilities.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::vector; using std::map;
namespace ld {
namespace {
string num(const char* f,double v){ char b[80]; snprintf(b,80,f,v); return b; }
double rnd(Rng& g,int dec,double lo,double hi){ char b[60]; double x; snprintf(b,60,"%.*f",dec,lo+(hi-lo)*g.unit()); x=strtod(b,0); return x; }
string pad(string s,size_t w){ s.resize(w,' '); return s; }
string word(Rng& g,int n){ string s; for(int i=0;i<n;i++) s+=char('A'+g.range(0,25)); return s; }
template<class F> string guard(F f){ try{ return f(); } catch(gpstk::Exception& e){ return "exception: "+e.getText(); } }
string withoutFiles(const string& s,const char* from){ size_t i=s.find(from); return i==string::npos?s:s.substr(i); }
// a navigation record from before the start of its own week count is not a good file
bool beforeWeeks(const string& t){ std::istringstream i(t); for(string l;std::getline(i,l);) if(l.size()>8&&isdigit(l[1])&&isdigit(l[2])&&l[3]==' '){ int y=atoi(l.c_str()+4); if((l[0]=='C'&&y<2007)||(l[0]=='E'&&y<2000)) return true; } return false; }
vector<string> built(const string& fmtName,Rng& g,int nf,int nr){ vector<string> v; while((int)v.size()<nf){ auto s=fmt::make(fmtName,g.next()>>1,nr); string t=s->build(); if(!beforeWeeks(t)) v.push_back(t); } return v; }
// --- loaders over record streams: the model reads the file with the stream
// (its own properties are C02-C07) and adds each record by hand -------------
template<class S,class St,class H,class D> struct ViaStream: Loader {
  std::unique_ptr<S> s;
  virtual void add(S& st,H& h,D& d,const string& path,bool first)=0;
  virtual string show(S& st)=0;
  virtual std::unique_ptr<S> mk()=0;
  virtual string ld(S& st,const string& path)=0;
  virtual bool getHeader(){ return true; }
  void fresh() override { s=mk(); }
  string load(const string& p) override { return guard([&]{ return ld(*s,p); }); }
  string dump() override { return show(*s); }
  string want(const vector<int>& l) override { auto t=mk(); for(int i:l){ string p="/sim/model"+std::to_string(i); disk().put(p,files[i]); St st(p.c_str()); H h; if(getHeader()) st>>h; D d; bool first=true; while(st>>d){ add(*t,h,d,p,first); first=false; } } return show(*t); } };
struct Rnx2Eph: ViaStream<RinexEphemerisStore,RinexNavStream,RinexNavHeader,RinexNavData> {
  Rnx2Eph(Rng& g,int nf,int nr){ files=built("rnxnav2",g,nf,nr); }
  std::unique_ptr<RinexEphemerisStore> mk() override { return std::unique_ptr<RinexEphemerisStore>(new RinexEphemerisStore); }
  string ld(RinexEphemerisStore& st,const string& p) override { st.loadFile(p); return ""; }
  void add(RinexEphemerisStore& st,RinexNavHeader&,RinexNavData& d,const string&,bool) override { st.addEphemeris(d); }
  string show(RinexEphemerisStore& st) override { std::ostringstream o; st.GPSEphemerisStore::dump(o,2); o<<st.GPSEphemerisStore::size(); return o.str(); } };
struct Rnx3Eph: ViaStream<Rinex3EphemerisStore,Rinex3NavStream,Rinex3NavHeader,Rinex3NavData> {
  bool clear() override { s->clear(); return true; }
  int expectN=0;
  Rnx3Eph(Rng& g,int nf,int nr){ files=built(g.pick(vector<string>{"rnxnav3","rnxnav3","rnx2nav3","rnxnav2"}),g,nf,nr); }
  std::unique_ptr<Rinex3EphemerisStore> mk() override { return std::unique_ptr<Rinex3EphemerisStore>(new Rinex3EphemerisStore); }
  string ld(Rinex3EphemerisStore& st,const string& p) override { int n=st.loadFile(p); if(n<0) return "status "+std::to_string(n)+" "+st.what; return ""; }
  void add(Rinex3EphemerisStore& st,Rinex3NavHeader& h,Rinex3NavData& d,const string&,bool first) override { if(first) for(auto&x:h.mapTimeCorr) st.addTimeCorr(x.second); st.addEphemeris(d); }
  string show(Rinex3EphemerisStore& st) override { std::ostringstream o; o<<st.size(); for(auto sys:{SatelliteSystem::GPS,SatelliteSystem::Glonass,SatelliteSystem::Galileo,SatelliteSystem::BeiDou,SatelliteSystem::QZSS}) o<<" "<<st.size(sys); for(auto sys:{SatelliteSystem::GPS,SatelliteSystem::Galileo,SatelliteSystem::BeiDou,SatelliteSystem::QZSS}) { std::list<Rinex3NavData> l; try{ st.addToList(l,SatID(-1,sys)); } catch(InvalidRequest&){} l.sort([](const Rinex3NavData& a,const Rinex3NavData& b){ std::ostringstream x,y; const_cast<Rinex3NavData&>(a).dump(x); const_cast<Rinex3NavData&>(b).dump(y); return x.str()<y.str(); }); for(auto&d:l) const_cast<Rinex3NavData&>(d).dump(o); } return o.str(); } };
struct YumaL: ViaStream<YumaAlmanacStore,YumaStream,YumaHeader,YumaData> {
  YumaL(Rng& g,int nf,int nr){ files=built("yuma",g,nf,nr); }
  std::unique_ptr<YumaAlmanacStore> mk() override { return std::unique_ptr<YumaAlmanacStore>(new YumaAlmanacStore); }
  string ld(YumaAlmanacStore& st,const string& p) override { st.loadFile(p); return ""; }
  void add(YumaAlmanacStore& st,YumaHeader&,YumaData& d,const string&,bool) override { st.addAlmanac(d); }
  string show(YumaAlmanacStore& st) override { std::ostringstream o; st.OrbAlmStore::dump(o,0); st.OrbAlmStore::dump(o,2); return o.str(); } };
struct SemL: ViaStream<SEMAlmanacStore,SEMStream,SEMHeader,SEMData> {
  SemL(Rng& g,int nf,int nr){ files=built("sem",g,nf,nr); }
  std::unique_ptr<SEMAlmanacStore> mk() override { return std::unique_ptr<SEMAlmanacStore>(new SEMAlmanacStore); }
  string ld(SEMAlmanacStore& st,const string& p) override { st.loadFile(p); return ""; }
  void add(SEMAlmanacStore& st,SEMHeader& h,SEMData& d,const string&,bool) override { d.Toa=h.Toa; d.week=h.week; st.addAlmanac(d); }
  string show(SEMAlmanacStore& st) override { std::ostringstream o; st.OrbAlmStore::dump(o,0); st.OrbAlmStore::dump(o,2); return o.str(); } };
struct IonexL: ViaStream<IonexStore,IonexStream,IonexHeader,IonexData> {
  bool clear() override { s->clear(); return true; }
  IonexL(Rng& g,int nf,int nr){ files=built("ionex",g,nf,std::max(2,nr)); }
  std::unique_ptr<IonexStore> mk() override { return std::unique_ptr<IonexStore>(new IonexStore); }
  string ld(IonexStore& st,const string& p) override { st.loadFile(p); return ""; }
  void add(IonexStore& st,IonexHeader&,IonexData& d,const string&,bool) override { st.addMap(d); }
  string show(IonexStore& st) override { std::ostringstream o; st.dump(o,1); string s=o.str(); string r; std::istringstream i(s); for(string l;std::getline(i,l);) if(l.find("/sim/")==string::npos&&l.find("iles")==string::npos) r+=l+"\n"; return r; } };
struct AntexL: ViaStream<AntennaStore,AntexStream,AntexHeader,AntexData> {
  bool clear() override { s->clear(); return true; }
  AntexL(Rng& g,int nf,int nr){ files=built("antex",g,nf,nr); }
  int last=0;
  std::unique_ptr<AntennaStore> mk() override { auto a=std::unique_ptr<AntennaStore>(new AntennaStore); a->includeAllSatellites(); return a; }
  string ld(AntennaStore& st,const string& p) override { last=st.addANTEXfile(p); return ""; }
  void add(AntennaStore& st,AntexHeader&,AntexData& d,const string&,bool) override { if(!d.isValid()) return; CommonTime t=CommonTime::BEGINNING_OF_TIME; t.setTimeSystem(TimeSystem::Any); if(d.isRxAntenna||d.isValid(t)) st.addAntenna(d.name(),d); }
  string show(AntennaStore& st) override { std::ostringstream o; o<<st.size()<<"\n"; vector<string> n; st.getNames(n); std::sort(n.begin(),n.end()); for(auto&x:n){ AntexData d; o<<x<<st.getAntenna(x,d)<<"\n"; d.dump(o,2); } return o.str(); } };
// --- Earth orientation files --------------------------------------------------
struct Eop { int mjd; double xp,yp,ut,dpsi,deps; };
vector<Eop> eops(Rng& g,int nr){ vector<Eop> v; int m=g.range(48000,59000); for(int i=0;i<nr;i++){ Eop e; e.mjd=m; m+=g.chance(0.9)?1:g.range(1,4); e.xp=rnd(g,6,-0.9,0.9); e.yp=rnd(g,6,-0.9,0.9); e.ut=rnd(g,7,-0.9,0.9); e.dpsi=rnd(g,3,-99,99); e.deps=rnd(g,3,-99,99); v.push_back(e); } return v; }
string iersLine(const Eop& e){ string s=pad("190101",7)+num("%8.2f",e.mjd)+" I "+num("%9.6f",e.xp)+pad("",10)+num("%9.6f",e.yp)+pad("",9)+"  I"+num("%10.7f",e.ut); s=pad(s,165)+num("%10.3f",e.dpsi)+num("%10.3f",e.deps)+"  "; return s+"\n"; }
string igsLine(const Eop& e){ return num("%8.2f",e.mjd)+num("%10.0f",e.xp*1e6)+num("%10.0f",e.yp*1e6)+num("%12.0f",e.ut*1e7)+"   100   10   10   20   30  50  50  80   100   200   1   2"+num("%9.0f",e.dpsi)+num("%9.0f",e.deps)+pad("",40)+"\n"; }
string stkLine(const Eop& e){ return "2000 01 01"+num("%6.0f",e.mjd)+num("%10.6f",e.xp)+num("%10.6f",e.yp)+num("%11.7f",e.ut)+"  0.0010000 -0.050000 -0.004000  0.000100  0.000100  32\n"; }
struct EopData: Loader { int kind; vector<vector<Eop>> e; std::unique_ptr<EOPDataStore> s;
  bool clear() override { s->clear(); return true; }
  EopData(Rng& g,int k,int nf,int nr):kind(k){ for(int i=0;i<nf;i++){ e.push_back(eops(g,nr)); string t; if(k==1) t="version 2\nEOP  SOLUTION\n  MJD\n   10**-6\n"; if(k==2) t="VERSION 1.1\nUPDATED 2020\n#\nNUM_OBSERVED_POINTS "+std::to_string(nr)+"\nBEGIN OBSERVED\n"; int q=0; for(auto&x:e.back()){ t+=k==0?iersLine(x):k==1?igsLine(x):stkLine(x); if(k==2&&++q==(nr+1)/2) t+="END OBSERVED\n#\nNUM_PREDICTED_POINTS 1\nBEGIN PREDICTED\n"; } if(k==2) t+="END PREDICTED\n"; files.push_back(t); } }
  void fresh() override { s.reset(new EOPDataStore); }
  string load(const string& p) override { return guard([&]{ if(kind==0) s->loadIERSFile(p); else if(kind==1) s->loadIGSFile(p); else s->loadSTKFile(p); return string(); }); }
  static string row(double m,double a,double b,double c,double d,double f){ return num("%.0f",m)+num(" %.7f",a)+num(" %.7f",b)+num(" %.8f",c)+num(" %.7f",d)+num(" %.7f",f)+"\n"; }
  string dump() override { string r; for(auto&t:s->epochList()){ CommonTime u=t; auto d=s->getEOPData(u); r+=row(MJD(t).mjd,d.xp,d.yp,d.UT1mUTC,d.dPsi,d.dEps); } return r; }
  string want(const vector<int>& l) override { map<int,string> m; for(int i:l){ if(kind!=2) m.clear(); for(auto&x:e[i]){ double ps=kind==0?x.dpsi/1000:kind==1?std::atof(num("%9.0f",x.dpsi).c_str())*1e-6:0,ep=kind==0?x.deps/1000:kind==1?std::atof(num("%9.0f",x.deps).c_str())*1e-6:0; double xp=x.xp,yp=x.yp,ut=x.ut; m[x.mjd]=row(x.mjd,xp,yp,ut,ps,ep); } } string r; for(auto&x:m) r+=x.second; return r; } };
struct EopS: Loader { int kind; struct F { bool p; vector<Eop> e; double v[36]; int tv; }; vector<F> f; std::unique_ptr<EOPStore> s;
  bool clear() override { s->clear(); return true; }
  // kind 0: addFile on either format, 1: addIERSFile, 2: addEOPPFile
  EopS(Rng& g,int k,int nf,int nr):kind(k){ for(int i=0;i<nf;i++){ F x; x.p=k==2||(k==0&&g.chance(0.5)); string t; if(!x.p){ x.e=eops(g,nr); for(auto&q:x.e) t+=iersLine(q); }
      else { double* v=x.v; auto c=[&](int j){ return v[j]=rnd(g,6,-9,9); }; x.tv=g.range(50000,59000); v[0]=x.tv-rnd(g,2,10,90); v[0]=std::atof(num("%.2f",v[0]).c_str()); t+=num("%10.2f",v[0]); for(int j=1;j<=6;j++) t+=num("%10.6f",c(j)); v[7]=rnd(g,2,300,440); v[8]=rnd(g,2,300,440); t+=num("%6.2f",v[7])+"    \n"+num("%6.2f",v[8]); for(int j=9;j<=14;j++) t+=num("%10.6f",c(j)); v[15]=rnd(g,2,300,440); v[16]=rnd(g,2,300,440); t+=num("%6.2f",v[15])+num("%6.2f",v[16])+"  \n"; v[17]=v[0]; t+=num("%10.2f",v[17]); for(int j=18;j<=23;j++) t+=num("%10.6f",c(j)); t+="          \n"; for(int j=24;j<=27;j++) t+=num("%10.6f",c(j)); for(int j=28;j<=31;j++){ v[j]=rnd(g,4,9,400); t+=num("%9.4f",v[j]); } t+="    \n"; t+="  37  821"+num("%6.0f",x.tv)+" "+pad("58000",18)+pad("",46)+"\n"; }
      f.push_back(x); files.push_back(t); } }
  void fresh() override { s.reset(new EOPStore); }
  string load(const string& p) override { return guard([&]{ if(kind==0) s->addFile(p); else if(kind==1) s->addIERSFile(p); else s->addEOPPFile(p); return string(); }); }
  static string row(int m,double a,double b,double c){ return std::to_string(m)+num(" %.5f",a+2e-8)+num(" %.5f",b+2e-8)+num(" %.5f",c+2e-8); }
  string dump() override { std::ostringstream o; s->dump(1,o); string r="n"+std::to_string(s->size())+" "+std::to_string(s->getFirstTimeMJD())+" "+std::to_string(s->getLastTimeMJD())+"\n"; std::istringstream i(o.str()); for(string l;std::getline(i,l);){ int m; double a,b,c; if(sscanf(l.c_str()," %d %lf %lf %lf",&m,&a,&b,&c)==4) r+=row(m,a,b,c)+"\n"; } return r; }
  static void pred(const double* v,double t,double& xp,double& yp,double& ut){ const double P2=2*M_PI; double d=t-v[0],a=P2*d; xp=v[1]+v[2]*d+v[3]*std::sin(a/v[7])+v[4]*std::sin(a/v[8])+v[5]*std::cos(a/v[7])+v[6]*std::cos(a/v[8]); yp=v[9]+v[10]*d+v[11]*std::sin(a/v[15])+v[12]*std::sin(a/v[16])+v[13]*std::cos(a/v[15])+v[14]*std::cos(a/v[16]); d=t-v[17]; a=P2*d; ut=v[18]+v[19]*d; for(int k=0;k<4;k++) ut+=v[20+k]*std::sin(a/v[28+k])+v[24+k]*std::cos(a/v[28+k]); }
  string want(const vector<int>& l) override { map<int,string> m; for(int i:l){ if(f[i].p) for(int k=0;k<7;k++){ double a,b,c; pred(f[i].v,f[i].tv+k,a,b,c); m[f[i].tv+k]=row(f[i].tv+k,a,b,c); } else for(auto&x:f[i].e) m[x.mjd]=row(x.mjd,x.xp,x.yp,x.ut); } string r="n"+std::to_string(m.size())+" "+std::to_string(m.begin()->first)+" "+std::to_string(m.rbegin()->first)+"\n"; for(auto&x:m) r+=x.second+"\n"; return r; } };
// --- tidal loading --------------------------------------------------------------
struct Tide { string site; double lat,lon; vector<double> c; };
struct TideL: Loader { bool ocean; vector<vector<Tide>> t; std::unique_ptr<OceanLoadTides> o; std::unique_ptr<AtmLoadTides> a; std::set<string> names_;
  TideL(Rng& g,bool oc,int nf,int nr):ocean(oc){ for(int i=0;i<nf;i++){ vector<Tide> v; string s="$$ loading displacement\n$$ simulated\n"; if(g.chance(0.5)) s+="\n"; for(int k=0;k<nr;k++){ Tide x; x.site=word(g,4)+(oc&&g.chance(0.3)?" "+word(g,3):""); x.lat=rnd(g,4,-80,80); x.lon=rnd(g,4,-179,179); int rows=oc?6:3,cols=oc?11:4; if(oc) s+="  "+x.site+"\n$$ computed by sim\n$$ "+x.site+",   RADI TANG lon/lat:"+num("%10.4f",x.lon)+num("%10.4f",x.lat)+"\n"; else s+="$$ station "+x.site+"; coord.(long,lat) "+num("%10.4f",x.lon)+num("%10.4f",x.lat)+"\n  "+x.site+"\n"; for(int r=0;r<rows;r++){ s+=" "; for(int c=0;c<cols;c++){ double y=r<3&&oc?rnd(g,5,0,0.09):oc?rnd(g,1,-179,179):rnd(g,4,-0.9,0.9); x.c.push_back(y); s+=oc?(r<3?num(" %7.5f",y):num(" %7.1f",y)):num(" %9.4f",y); } s+="\n"; } bool dup=false; for(auto&z:v) dup|=z.site==x.site; if(!dup) v.push_back(x); else v.back()=v.back(); names_.insert(x.site); } t.push_back(v); files.push_back(s); } }
  void fresh() override { o.reset(new OceanLoadTides); a.reset(new AtmLoadTides); }
  string load(const string& p) override { return guard([&]{ vector<string> s; int n=ocean?o->initializeSites(s,p):a->initializeSites(s,p); return (size_t)n==s.size()||!ocean?string():"only "+std::to_string(n)+" sites"; }); }
  string dump() override { string r; for(auto&n:names_){ if(!(ocean?o->isValid(n):a->isValid(n))) continue; Triple p=ocean?o->getPosition(n):a->getPosition(n); r+=n+num(" %.4f",p[0])+num(" %.4f",p[1]); EphTime e(55000,3600.0); e.setTimeSystem(TimeSystem::UTC); Triple d=ocean?o->computeDisplacement11(n,e):a->computeDisplacement(n,e); for(int i=0;i<3;i++) r+=num(" %.9g",d[i]); r+="\n"; } return r; } };
// --- satellite metadata -----------------------------------------------------------
struct MetaL: Loader { std::unique_ptr<SatMetaDataStore> s; struct R { int svn,prn,chl,slot,norad; string blk; int y0,d0,y1,d1; string plane; }; vector<vector<R>> r;
  MetaL(Rng& g,int nf,int nr){ retrySame=false; int svn=1; const char* blks[]={"IIA","IIF","IIR"}; for(int i=0;i<nf;i++){ vector<R> v; string t="# satellites\n"; if(i==0) for(auto b:blks) t+=string("CLOCK,GPS,")+b+",Rubidium,Cesium,Unknown,USNO\n"; string sat; for(int k=0;k<nr;k++){ R x; x.svn=svn++; x.prn=g.range(1,32); x.chl=0; x.slot=g.range(0,9); x.norad=g.range(10000,49999); x.blk=blks[g.range(0,2)]; x.y0=g.range(1990,2005); x.d0=g.range(1,365); x.y1=g.range(2006,2030); x.d1=g.range(1,365); x.plane=word(g,1); string id=std::to_string(x.svn); t+="LAUNCH,GPS,"+id+","+std::to_string(x.y0)+","+std::to_string(x.d0)+",100,"+x.blk+",7\nNORAD, GPS,"+id+","+std::to_string(x.norad)+"\n"; if(g.chance(0.2)) t+="\n# more\n"; sat+="SAT,GPS,"+id+","+std::to_string(x.prn)+",0,"+std::to_string(x.slot)+","+std::to_string(x.y0)+","+std::to_string(x.d0)+",0,"+std::to_string(x.y1)+","+std::to_string(x.d1)+",0,"+x.plane+",2,GPS X,Operational,1\n"; v.push_back(x); } files.push_back(t+sat); r.push_back(v); } multi=false; files.resize(1); }
  void fresh() override { s.reset(new SatMetaDataStore); }
  string load(const string& p) override { return guard([&]{ return s->loadData(p)?string():string("false"); }); }
  string dump() override { std::set<string> o; for(auto&k:s->satMap) for(auto&m:k.second) o.insert(m.svn+" "+std::to_string(m.prn)+" "+std::to_string(m.slotID)+" "+std::to_string(m.norad)+" "+m.type+" "+printTime(m.startTime,"%Y %j ")+printTime(m.endTime,"%Y %j ")+m.plane+(m.clocks[1]==SatMetaData::ClockType::Cesium?"c":"?")); string t=std::to_string(s->launchMap.size())+" "+std::to_string(s->noradMap.size())+" "+std::to_string(s->clkMap.size())+"\n"; for(auto&x:o) t+=x+"\n"; return t; }
  string want(const vector<int>& l) override { std::set<string> o; size_t n=0; char b[40]; for(int i:l) for(auto&x:r[i]){ n++; snprintf(b,40,"%d %d %d %d ",x.y0,x.d0,x.y1,x.d1); o.insert(std::to_string(x.svn)+" "+std::to_string(x.prn)+" "+std::to_string(x.slot)+" "+std::to_string(x.norad)+" "+x.blk+" "+b+x.plane+"c"); } string t=std::to_string(n)+" "+std::to_string(n)+" 3\n"; for(auto&x:o) t+=x+"\n"; return t; } };
// --- the small readers that load a whole file when opened ---------------------------
template<class T> string opened(T& r,const string& p){ return guard([&]{ r.open(p); return r.bad()||(r.fail()&&!r.eof())?string("stream state"):string(); }); }
struct DcbL: Loader { vector<map<string,double>> v; std::unique_ptr<DCBDataReader> s; std::set<string> ids;
  DcbL(Rng& g,int nf,int nr){ for(int i=0;i<nf;i++){ map<string,double> m; string t="CODE'S MONTHLY DCB\n-----\n\nDIFFERENTIAL CODE BIASES\nREFERENCE\n\nPRN / STATION NAME   VALUE (NS)  RMS (NS)\n"; for(int k=0;k<nr;k++){ bool st=g.chance(0.4),glo=g.chance(0.3); char b[10]; snprintf(b,10,"%02d",(int)g.range(1,24)); string key=string(glo?"R":"G")+(st?word(g,4):b); double x=rnd(g,3,-99,99); m[key]=x; string l=(st?string(glo?"R":"G")+"     "+key.substr(1):pad(key,6)); t+=pad(l,26)+num("%9.3f",x)+num("%12.3f",0.1)+"\n"; ids.insert(key); } v.push_back(m); files.push_back(t); } }
  void fresh() override { s.reset(new DCBDataReader); }
  string load(const string& p) override { return opened(*s,p); }
  string dump() override { string r; for(auto&k:ids){ double x=k.size()==5?s->getDCB(k.substr(1),k[0]=='R'?SatelliteSystem::Glonass:SatelliteSystem::GPS):s->getDCB(atoi(k.c_str()+1),k[0]=='R'?SatelliteSystem::Glonass:SatelliteSystem::GPS); if(x!=0) r+=k+num(" %.3f\n",x); } return r; }
  string want(const vector<int>& l) override { string r; if(l.empty()) return r; for(auto&x:v[l.back()]) if(x.second!=0) r+=x.first+num(" %.3f\n",x.second); return r; } };
struct BlqL: Loader { vector<vector<Tide>> t; std::unique_ptr<BLQDataReader> s; std::set<string> ids;
  BlqL(Rng& g,int nf,int nr){ for(int i=0;i<nf;i++){ vector<Tide> v; string q="$$ ocean loading\n$$\n"; for(int k=0;k<nr;k++){ Tide x; x.site=word(g,4); ids.insert(x.site); q+="  "+x.site+"\n$$ "+x.site+" lon/lat:\n"; for(int r=0;r<6;r++){ q+=" "; for(int c=0;c<11;c++){ double y=r<3?rnd(g,5,0,0.09):rnd(g,1,-179,179); x.c.push_back(y); q+=r<3?num(" %7.5f",y):num(" %7.1f",y); } q+="\n"; } v.push_back(x); } q+="$$ END TABLE\n"; t.push_back(v); files.push_back(q); } }
  void fresh() override { s.reset(new BLQDataReader); }
  string load(const string& p) override { return opened(*s,p); }
  static string row(const string& n,const vector<double>& c){ string r=n; for(double y:c) r+=num(" %.5f",y); return r+"\n"; }
  string dump() override { string r; for(auto&k:ids){ Matrix<double> m=s->getTideHarmonics(k); vector<double> c; bool z=true; for(int i=0;i<6;i++) for(int j=0;j<11;j++){ c.push_back(m(i,j)); z&=m(i,j)==0; } if(!z) r+=row(k,c); } return r; }
  string want(const vector<int>& l) override { map<string,string> m; for(int i:l) for(auto&x:t[i]) m[x.site]=row(x.site,x.c); string r; for(auto&x:m) r+=x.second; return r; } };
struct SatDatL: Loader { struct R { int prn,gn; string blk; int y0,m0,d0,y1,m1,d1; bool glo; }; vector<vector<R>> v; std::unique_ptr<SatDataReader> s; std::set<std::pair<bool,int>> ids;
  SatDatL(Rng& g,int nf,int nr){ multi=false; retrySame=false; nf=1; for(int i=0;i<nf;i++){ vector<R> w; string t="# satellites\nLaunch    Deactivation  GPS PRN block\n"; for(int k=0;k<nr;k++){ R x; x.glo=g.chance(0.3); x.prn=k+1; x.gn=g.range(1,60); x.blk=x.glo?"GLO-M":g.pick(vector<string>{"I","II","IIA","IIR"}); x.y0=g.range(1980,1999); x.m0=g.range(1,12); x.d0=g.range(1,28); x.y1=g.range(2000,2020); x.m1=g.range(1,12); x.d1=g.range(1,28); char b[120]; snprintf(b,120,"%04d-%02d-%02d  %04d-%02d-%02d  %02d  %02d  %s",x.y0,x.m0,x.d0,x.y1,x.m1,x.d1,x.gn,x.prn,x.blk.c_str()); t+=b+string(g.chance(0.2)?" # note\n":"\n"); if(g.chance(0.1)) t+="\n"; w.push_back(x); ids.insert({x.glo,x.prn}); } v.push_back(w); files.push_back(t); } }
  void fresh() override { s.reset(new SatDataReader); }
  string load(const string& p) override { return opened(*s,p); }
  static CommonTime T(int y,int m,int d){ CommonTime t=CivilTime(y,m,d,0,0,0,TimeSystem::Any); return t; }
  string dump() override { string r; for(auto&k:ids){ SatID id(k.second,k.first?SatelliteSystem::Glonass:SatelliteSystem::GPS); CommonTime t=T(2000,1,1); string b=s->getBlock(id,t); if(b.empty()) continue; r+=std::to_string(k.first)+"/"+std::to_string(k.second)+" "+b+" "+std::to_string(s->getGPSNumber(id,t))+" "+printTime(s->getLaunchDate(id,t),"%Y %m %d")+printTime(s->getDeactivationDate(id,t)," %Y %m %d\n"); } return r; }
  string want(const vector<int>& l) override { string r; for(int i:l) for(auto&k:ids) for(auto&x:v[i]) if(x.glo==k.first&&x.prn==k.second){ char b[120]; snprintf(b,120,"%d/%d %s %d %d %d %d %d %d %d\n",x.glo,x.prn,x.blk.c_str(),x.gn,x.y0,x.m0,x.d0,x.y1,x.m1,x.d1); r+=b; } return r; } };
struct ConfL: Loader { vector<map<string,map<string,string>>> v; std::unique_ptr<ConfDataReader> s; std::set<std::pair<string,string>> ids;
  ConfL(Rng& g,int nf,int nr){ for(int i=0;i<nf;i++){ map<string,map<string,string>> m; string sec="DEFAULT",t="# configuration\n"; for(int k=0;k<nr;k++){ if(g.chance(0.3)){ sec="S"+word(g,3); t+="["+sec+"]\n"; } string a="v"+word(g,4),b=g.chance(0.5)?std::to_string(g.range(1,99999)):word(g,5)+" "+word(g,3); t+=a+(g.chance(0.3)?", what it is":"")+" = "+b+(g.chance(0.3)?", unit":"")+(g.chance(0.2)?" # end\n":"\n"); if(g.chance(0.15)) t+="\n; a comment\n"; string A=a; for(char& c:A) c=toupper(c); m[sec][A]=b; ids.insert({sec,A}); } v.push_back(m); files.push_back(t); } }
  void fresh() override { s.reset(new ConfDataReader); s->setIssueException(false); }
  string load(const string& p) override { return opened(*s,p); }
  string dump() override { string r; for(auto&k:ids){ if(!s->ifExist(k.second,k.first)) continue; r+=k.first+"."+k.second+"="+s->getValue(k.second,k.first)+"\n"; } return r; }
  string want(const vector<int>& l) override { map<string,map<string,string>> m; for(int i:l) for(auto&a:v[i]) for(auto&b:a.second) m[a.first][b.first]=b.second; string r; for(auto&k:ids) if(m.count(k.first)&&m[k.first].count(k.second)) r+=k.first+"."+k.second+"="+m[k.first][k.second]+"\n"; return r; } };
// --- planetary ephemerides ------------------------------------------------------------
string pe(double d){ char b[60]; snprintf(b,60,"%.17E",d); string s=b; size_t e=s.find('E'); int x=atoi(s.c_str()+e+1); string m=s.substr(0,e); bool neg=m[0]=='-'; if(neg) m=m.substr(1); m.erase(1,1); char o[60]; snprintf(o,60,"%s0.%sD%+03d",neg?"-":"",m.c_str(),d==0?0:x+1); string r=o; if(r.size()<26) r=string(26-r.size(),' ')+r; return r; }
}
Jpl jpl(Rng& g,int nr,double j0){ Jpl j; j.nc=g.range(358,420); j.j0=2451536.5+32*g.range(0,40); if(j0) j.j0=j0; string h; auto line=[&](string s){ return pad(s,81)+"\n"; };
  h+=line("KSIZE= 2036    NCOEFF= "+std::to_string(j.nc)); h+="\n"+line("GROUP   1010")+"\n"+line("JPL Planetary Ephemeris DE999/LE999")+line("Start Epoch: JED=")+line("Final Epoch: JED=")+"\n"+line("GROUP   1030")+"\n"+line(num("%12.2f",j.j0)+num("%12.2f",j.j0+32*nr)+num("%12.0f.",32))+"\n"+line("GROUP   1040")+"\n"+line("     5")+line("  DENUM   AU      EMRAT   GMS     GMB")+"\n"+line("GROUP   1041")+"\n"+line("     5")+line(pe(999)+pe(j.au)+pe(j.emrat))+line(pe(0.000295912)+pe(0.000000000899)+pe(0))+"\n"+line("GROUP   1050")+"\n";
  string o,c,n; int off=3; int nco[13]={4,3,4,3,3,3,3,3,3,4,4,2,3}, ns[13]={4,2,2,1,1,1,1,1,1,8,2,4,4}; for(int i=0;i<13;i++){ j.off[i]=off; j.nco[i]=nco[i]; j.ns[i]=ns[i]; o+=num("%6.0f",off); c+=num("%6.0f",nco[i]); n+=num("%6.0f",ns[i]); off+=nco[i]*ns[i]*(i==11?2:3); } h+=line(o)+line(c)+line(n)+"\n"+line("GROUP   1070")+"\n"; j.header=h;
  for(int k=0;k<nr;k++){ vector<double> r; r.push_back(j.j0+32*k); r.push_back(j.j0+32*(k+1)); for(int i=2;i<j.nc;i++) r.push_back((g.unit()-0.5)*std::pow(10.0,g.range(-3,8))); j.rec.push_back(r); char b[40]; snprintf(b,40,"%6d%6d ",k+1,j.nc); j.body+=string(b)+"\n"; for(int i=0;i<j.nc;i++){ j.body+=pe(r[i]); if(i%3==2) j.body+="\n"; } if(j.nc%3){ for(int i=j.nc%3;i<3;i++) j.body+=pe(0); j.body+="\n"; } } return j; }
namespace {
// mode 0: ASCII header and data, 1: read a binary file, 2: query a binary file
template<class E> struct JplL: Loader { int mode; Jpl j; std::unique_ptr<E> s; string last; bool hdr=false;
  static int q(PlanetEphemeris& e,double jd,int t,int c,double* pv){ return e.computeState(jd,(PlanetEphemeris::Planet)t,(PlanetEphemeris::Planet)c,pv); }
  static int q(SolarSystemEphemeris& e,double jd,int t,int c,double* pv){ e.RelativeInertialPositionVelocity(jd-2400000.5,(SolarSystemEphemeris::Planet)t,(SolarSystemEphemeris::Planet)c,pv); return 0; }
  JplL(Rng& g,int m,int nr):mode(m){ multi=false; retrySame=false; j=jpl(g,nr); if(m==0||m==3){ files={m?j.body:j.header}; disk().put("/sim/j1",m?j.header:j.body); } else { disk().put("/sim/jh",j.header); disk().put("/sim/jd",j.body); E e; e.readASCIIheader("/sim/jh"); vector<string> f={"/sim/jd"}; int r=e.readASCIIdata(f); if(r) throw std::runtime_error("cannot build a planetary ephemeris"); r=e.writeBinaryFile("/sim/jb"); if(r) throw std::runtime_error("cannot write a planetary ephemeris"); files={disk().get("/sim/jb")}; } }
  void fresh() override { s.reset(new E); last=""; }
  string load(const string& p) override { last=""; return guard([&]{ if(mode==0||mode==3){ s->readASCIIheader(mode?string("/sim/j1"):p); vector<string> f={mode?p:string("/sim/j1")}; int r=s->readASCIIdata(f); if(r) return "status "+std::to_string(r); } else { int r=mode==1?s->readBinaryFile(p):s->initializeWithBinaryFile(p); if(r) return "status "+std::to_string(r); } return string(); }); }
  string dump() override { std::ostringstream o; if(mode!=2){ s->writeASCIIdata(o); } o<<num("%.6f ",s->getConstant("AU"))<<num("%.6f\n",s->getConstant("EMRAT")); return o.str(); } };
}
const vector<string>& names(){ static const vector<string>* v=new vector<string>{"rnx2eph","rnx3eph","yuma","sem","ionex","antex","eopiers","eopigs","eopstk","eopstore","eopfinals","eopp","oceantide","atmtide","satmeta","dcb","blq","satdata","conf","jplbin","ssebin","jplinit","jplhdr","jpldat","ssehdr","ssedat"}; return *v; }
std::unique_ptr<Loader> make(const string& n,uint64_t seed,int nf,int nr){ Rng g(seed); Loader* l;
  if(n=="rnx2eph") l=new Rnx2Eph(g,nf,nr); else if(n=="rnx3eph") l=new Rnx3Eph(g,nf,nr); else if(n=="yuma") l=new YumaL(g,nf,nr); else if(n=="sem") l=new SemL(g,nf,nr); else if(n=="ionex") l=new IonexL(g,nf,nr); else if(n=="antex") l=new AntexL(g,nf,nr);
  else if(n=="eopiers") l=new EopData(g,0,nf,nr+2); else if(n=="eopigs") l=new EopData(g,1,nf,nr+2); else if(n=="eopstk") l=new EopData(g,2,nf,nr+2); else if(n=="eopstore") l=new EopS(g,0,nf,nr+2); else if(n=="eopfinals") l=new EopS(g,1,nf,nr+2); else if(n=="eopp") l=new EopS(g,2,nf,nr);
  else if(n=="oceantide") l=new TideL(g,true,nf,nr); else if(n=="atmtide") l=new TideL(g,false,nf,nr); else if(n=="satmeta") l=new MetaL(g,nf,nr); else if(n=="dcb") l=new DcbL(g,nf,nr+3); else if(n=="blq") l=new BlqL(g,nf,nr); else if(n=="satdata") l=new SatDatL(g,nf,nr+2); else if(n=="conf") l=new ConfL(g,nf,nr+3);
  else if(n=="jplbin") l=new JplL<PlanetEphemeris>(g,1,std::min(nr,4)); else if(n=="ssebin") l=new JplL<SolarSystemEphemeris>(g,1,std::min(nr,4)); else if(n=="jplhdr") l=new JplL<PlanetEphemeris>(g,0,std::min(nr,3)); else if(n=="jpldat") l=new JplL<PlanetEphemeris>(g,3,std::min(nr,3)); else if(n=="ssehdr") l=new JplL<SolarSystemEphemeris>(g,0,std::min(nr,3)); else if(n=="ssedat") l=new JplL<SolarSystemEphemeris>(g,3,std::min(nr,3)); else l=new JplL<PlanetEphemeris>(g,2,std::min(nr,4));
  l->name=n; return std::unique_ptr<Loader>(l); }
}
