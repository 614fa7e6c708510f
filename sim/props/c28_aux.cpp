// C28: auxiliary time-tagged stores (weather, ionosphere, Earth orientation, TEC maps, satellite metadata).
#include "../core/scenario.hpp"
#include <cmath>
#include <memory>
#include "CommonTime.hpp"
#include "MJD.hpp"
#include "WxObsMap.hpp"
#include "IonoModelStore.hpp"
#include "EOPStore.hpp"
#include "EOPDataStore.hpp"
#include "IonexStore.hpp"
#include "IonexStream.hpp"
#include "IonexHeader.hpp"
#include <set>
#include "SatMetaDataStore.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::vector; using std::map;
namespace { namespace c28 {
typedef int64_t I; typedef long double L;
I cap(I v,I a,I b){ return v<a?a:v>b?b:v; }
CommonTime ct(I s,TimeSystem ts){ return CommonTime(MJD(55000+(s>=0?s/86400:-((86399-s)/86400)),TimeSystem(ts)))+(double)(s-(s>=0?s/86400:-((86399-s)/86400))*86400); }
double val(I v,int k){ uint64_t h=mix(v*8+k+77,123456789); return (double)(int64_t)(h%2000000)/1000.0-1000.0; }
L lagr(const vector<L>& x,const vector<L>& y,L t){ L s=0; for(size_t i=0;i<x.size();i++){ L q=y[i]; for(size_t j=0;j<x.size();j++) if(j!=i) q*=(t-x[j])/(x[i]-x[j]); s+=q; } return s; }
template<class F> bool refused(F f){ try{ f(); return false; } catch(Exception&){ return true; } }
Plan gen(uint64_t seed,int tier){ Rng g(seed); Plan p; Op c("!cfg"); int which=g.range(0,5); I step=g.pick(vector<I>{900,3600,7200}); if(which==2) step=86400; c.set("which",which).set("step",step).set("np",g.range(1,12)).set("seed",g.range(1,1<<30)); p.push_back(c); int n=g.range(4,tier?90:45),span=g.pick(vector<int>{4,8,20,40}); I newest=0; bool disorder=g.chance(0.7);
  auto tm=[&](bool grid)->I{ I k=g.range(-1,span+1)*step; return grid?k:k+g.pick(vector<I>{0,0,step/2,1,-1,g.range(0,step-1)}); };
  for(int i=0;i<n;i++){ int q=g.range(0,99); if(q<48){ Op o("add"); I t=disorder?g.range(0,span)*step:(newest+=g.range(1,2)*step); if(which==5) t+=g.range(0,2)*step/4; o.set("t",t).set("v",g.chance(0.3)?g.range(0,3):g.range(0,1<<20)).set("k",g.range(0,9)).set("len",g.range(0,6)*step); p.push_back(o); } else if(q<90){ Op o("get"); o.set("t",tm(false)).set("iv",g.pick(vector<I>{0,step/2,step,3*step,100*step})).set("k",g.range(0,9)).set("lat",g.range(-79000,79000)).set("lon",g.range(0,359999)); p.push_back(o); } else if(q<96){ Op o("cut"); I a=tm(g.chance(0.5)),b=tm(g.chance(0.5)); o.set("a",a).set("b",b); p.push_back(o); } else p.push_back(Op("clear")); }
  return p; }
void near(const string& cls,double got,L want,double tol,const string& what){ if(!(std::fabs(got-(double)want)<=tol*std::max<double>(1,std::fabs((double)want)))) fail(cls,what+" is "+fmtd(got)+", expected "+fmtd((double)want)); }
// ---- weather
struct Wx { WxObsData s; map<I,I> m; static CommonTime T(I t){ return ct(t,TimeSystem::GPS); } 
  static WxObservation make(I t,I v){ return WxObservation(T(t),(float)val(v,0),(float)val(v,1),(float)val(v,2)); }
  void same(const string& cls,const WxObservation& w,I t,const string& what){ auto e=make(t,m.at(t)); if(w.t!=e.t||w.temperature!=e.temperature||w.pressure!=e.pressure||w.humidity!=e.humidity) fail(cls,what+": not the observation of "+std::to_string(t)+" but of "+fmtd(w.t-T(0),8)); }
  void op(const Op& o){ I t=o.i("t"); if(o.kind=="add"){ m[t]=o.i("v"); s.insertObservation(make(t,m[t])); } else if(o.kind=="clear"){ s=WxObsData(); m.clear(); } else if(o.kind=="cut"){ I a=o.i("a"); s.flush(T(a)); m.erase(m.begin(),m.lower_bound(a)); } else { auto w=s.getMostRecent(T(t)); auto it=m.upper_bound(t); if(it==m.begin()){ if(w.temperatureSource!=WxObservation::noWx||w.t!=CommonTime::END_OF_TIME) fail("wx-recent","an observation is returned although none was made by "+std::to_string(t)); } else same("wx-recent",w,(--it)->first,"most recent at "+std::to_string(t));
      bool ip=o.i("k")&1; unsigned iv=cap(o.i("iv"),0,1000000); auto af=m.upper_bound(t),be=af; bool hb=af!=m.begin(); if(hb) --be; bool ha=af!=m.end(); if(hb&&be->first<t-(I)iv) hb=false; if(ha&&af->first>t+(I)iv) ha=false; WxObservation r; bool ref=refused([&]{ r=s.getWxObservation(T(t),iv,ip); }); string q="observation at "+std::to_string(t)+" within "+std::to_string(iv)+(ip?" interpolated":""); if(!hb&&!ha){ if(!ref) fail("wx-get",q+" is given though there is none"); return; } if(ref) fail("wx-get",q+" is refused"); if(hb&&ha&&ip){ if(be->first==t){ same("wx-get",r,t,q); return; } if(r.t!=T(t)||!r.isAllValid()) fail("wx-get",q+": wrong time"); L f=(L)(t-be->first)/(af->first-be->first); float g3[3]={r.temperature,r.pressure,r.humidity}; for(int k=0;k<3;k++) if(std::fabs(g3[k]-(double)((float)val(be->second,k)+f*((L)(float)val(af->second,k)-(float)val(be->second,k))))>2e-3) fail("wx-get",q+": field "+std::to_string(k)+" is "+fmtd(g3[k])); } else if(hb&&ha) same("wx-get",r,af->first-t<t-be->first?af->first:be->first,q); else same("wx-get",r,hb?be->first:af->first,q); } }
  void check(){ if(s.obs.size()!=m.size()) fail("wx-size",std::to_string(s.obs.size())); CommonTime a=m.empty()?CommonTime(CommonTime::END_OF_TIME):T(m.begin()->first),b=m.empty()?CommonTime(CommonTime::BEGINNING_OF_TIME):T(m.rbegin()->first); if(s.firstTime!=a||s.lastTime!=b) fail("wx-limits","first or last time are not those of the "+std::to_string(m.size())+" observations held"); } };
// ---- ionosphere models
struct Io { IonoModelStore s; map<I,I> m; static CommonTime T(I t){ return ct(t,TimeSystem::GPS); }
  static IonoModel make(I v){ double a[4],b[4]; for(int k=0;k<4;k++){ a[k]=val(v,k)*1e-11; b[k]=val(v,k+4)*100+1e5*(k==0); } return IonoModel(a,b); }
  void op(const Op& o){ I t=o.i("t"); if(o.kind=="add"){ if(o.i("k")==0){ if(s.addIonoModel(T(t),IonoModel())) fail("iono-add","an invalid model is accepted"); return; } I v=o.i("v"); auto it=m.upper_bound(t); bool same=it!=m.begin()&&(--it)->second==v; bool r=s.addIonoModel(T(t),make(v)); if(r==same) fail("iono-add","adding a model that "+string(same?"repeats":"differs from")+" the one before reports "+(r?"true":"false")); m[t]=v; } else if(o.kind=="clear"){ s=IonoModelStore(); m.clear(); } else if(o.kind=="cut"){ I a=std::min(o.i("a"),o.i("b")),b=std::max(o.i("a"),o.i("b")); if(o.i("a")>o.i("b")&&o.i("b")%2==0){ s.edit(T(b)); m.erase(m.begin(),m.lower_bound(b)); } else { s.edit(T(a),T(b)); m.erase(m.begin(),m.lower_bound(a)); m.erase(m.upper_bound(b),m.end()); } } else { Position rx(o.i("lat")*1e-3,o.i("lon")*1e-3,100.0,Position::Geodetic); double el=5+o.i("k")*9,az=o.i("lon")%360; CarrierBand b=o.i("k")&1?CarrierBand::L1:CarrierBand::L2; double r=0; bool ref=refused([&]{ r=s.getCorrection(T(t),rx,el,az,b); }); auto it=m.upper_bound(t); if(it==m.begin()){ if(!ref) fail("iono-get","a correction is given before the first model"); } else { if(ref) fail("iono-get","no correction at "+std::to_string(t)+" though a model began at "+std::to_string((--it)->first)); --it; double e=make(it->second).getCorrection(T(t),rx,el,az,b); if(r!=e) fail("iono-get","correction at "+std::to_string(t)+" is not that of the model of "+std::to_string(it->first)); } } }
  void check(){} };
// ---- Earth orientation, daily
struct Eo { EOPStore s; map<I,I> m; static EarthOrientation make(I v){ EarthOrientation e; e.xp=val(v,0)*5e-4; e.yp=val(v,1)*5e-4; e.UT1mUTC=val(v,2)*5e-4; return e; }
  static I day(I t){ return 55000+t/86400; }
  void op(const Op& o){ I t=o.i("t"),d=day(t); if(o.kind=="add"){ m[d]=o.i("v"); EarthOrientation e=make(m[d]); s.addEOP((int)d,e); } else if(o.kind=="clear"){ s.clear(); m.clear(); } else if(o.kind=="cut"){ I a=day(o.i("a")),b=day(o.i("b")); I lo=std::min(a,b),hi=std::max(a,b); if(m.empty()||lo>m.rbegin()->first||hi<m.begin()->first) return; s.edit((int)a,(int)b); m.erase(m.begin(),m.lower_bound(lo)); m.erase(m.upper_bound(hi),m.end()); } else { double q=55000+t/86400.0; if(t<0) return; IERSConvention cv=o.i("k")&1?IERSConvention::IERS2010:IERSConvention::IERS2003; EarthOrientation r; bool ref=refused([&]{ r=s.getEOP(q,cv); }); I d0=(I)q; auto lo=m.find(d0); bool ok=m.size()>=4&&lo!=m.end()&&std::next(lo)!=m.end(); if(ok==ref) fail("eop-get","orientation at MJD "+fmtd(q)+(ref?" is refused":" is given")+" with "+std::to_string(m.size())+" days"); if(ref) return; auto a=lo; if(a!=m.begin()){ --a; if(std::next(lo,2)==m.end()) --a; } vector<double> tt,x,y,u; for(int i=0;i<4;i++,++a){ EarthOrientation e=make(a->second); tt.push_back(a->first); x.push_back(e.xp); y.push_back(e.yp); u.push_back(e.UT1mUTC); } EarthOrientation w; EphTime et; et.setMJD(q); et.setTimeSystem(TimeSystem::UTC); w.interpolateEOP(et,tt,x,y,u,cv); near("eop-get",r.xp,w.xp,1e-9,"xp"); near("eop-get",r.yp,w.yp,1e-9,"yp"); near("eop-get",r.UT1mUTC,w.UT1mUTC,1e-9,"UT1-UTC"); vector<L> lt(tt.begin(),tt.end()),lx(x.begin(),x.end()); near("eop-get",r.xp,lagr(lt,lx,q),2e-3,"xp without tides"); } }
  void check(){ if(s.size()!=(int)m.size()) fail("eop-size",std::to_string(s.size())); int a=m.empty()?-1:(int)m.begin()->first,b=m.empty()?-1:(int)m.rbegin()->first; if(s.getFirstTimeMJD()!=a||s.getLastTimeMJD()!=b) fail("eop-limits",std::to_string(s.getFirstTimeMJD())+".."+std::to_string(s.getLastTimeMJD())); } };
// ---- Earth orientation, any epoch
struct Ed { EOPDataStore s; map<I,I> m; int np; Ed(int n):np(n){ s.setInterpolationPoints(n); } static CommonTime T(I t){ return ct(t,TimeSystem::UTC); }
  void op(const Op& o){ I t=o.i("t"); if(o.kind=="add"){ if(o.i("k")==0){ if(!refused([&]{ s.addEOPData(ct(t,TimeSystem::GPS),EOPDataStore::EOPData()); })) fail("eopd-add","a record not in UTC is accepted"); return; } m[t]=o.i("v"); I v=m[t]; s.addEOPData(T(t),EOPDataStore::EOPData(val(v,0),val(v,1),val(v,2),val(v,3),val(v,4))); } else if(o.kind=="clear"){ s.clear(); m.clear(); } else if(o.kind=="cut"){ I a=o.i("a"),b=o.i("b"),lo=std::min(a,b),hi=std::max(a,b); if(m.empty()||lo>m.rbegin()->first||hi<m.begin()->first) return; s.edit(T(a),T(b)); m.erase(m.begin(),m.lower_bound(lo)); m.erase(m.upper_bound(hi),m.end()); }
    else { EOPDataStore::EOPData r; bool ref=refused([&]{ r=s.getEOPData(T(t)); }); bool in=!m.empty()&&t>=m.begin()->first&&t<=m.rbegin()->first; if(in==ref) fail("eopd-get","data at "+std::to_string(t)+(ref?" are refused":" are given")+" with "+std::to_string(m.size())+" records"); if(ref) return; double g5[5]={r.xp,r.yp,r.UT1mUTC,r.dPsi,r.dEps}; auto it=m.find(t); if(it!=m.end()){ for(int k=0;k<5;k++) if(g5[k]!=val(it->second,k)) fail("eopd-get","data of a stored epoch"); return; } int half=(np+1)/2; vector<std::pair<I,I>> v(m.begin(),m.end()); size_t at=0; while(v[at].first<t) at++; size_t a=0,b=v.size(); if((int)v.size()>2*half){ I lo=(I)at-half; lo=cap(lo,0,(I)v.size()-2*half); a=lo; b=lo+2*half; } vector<L> x,y; for(int k=0;k<5;k++){ x.clear(); y.clear(); L big=1; for(size_t i=a;i<b;i++){ x.push_back((v[i].first-v[a].first)/3600.0L); y.push_back(val(v[i].second,k)); } L tq=(t-v[a].first)/3600.0L; for(size_t i=0;i<x.size();i++){ L w=1; for(size_t j=0;j<x.size();j++) if(j!=i) w*=(tq-x[j])/(x[i]-x[j]); big+=std::fabs((double)w)*1000; } L e=lagr(x,y,tq); if(std::fabs(g5[k]-(double)e)>1e-9*(double)big) fail("eopd-get","field "+std::to_string(k)+" at "+std::to_string(t)+" is "+fmtd(g5[k])+", expected "+fmtd((double)e)+" from "+std::to_string(x.size())+" points"); } } }
  void check(){ if(s.size()!=m.size()) fail("eopd-size",std::to_string(s.size())); if(m.size()&&(s.getInitialTime()!=T(m.begin()->first)||s.getFinalTime()!=T(m.rbegin()->first))) fail("eopd-limits","initial or final time are not those of the records held"); if(m.empty()&&(s.getInitialTime()!=CommonTime::END_OF_TIME||s.getFinalTime()!=CommonTime::BEGINNING_OF_TIME)) fail("eopd-limits","an empty store has time limits"); auto l=s.epochList(); if(l.size()!=m.size()) fail("eopd-list",std::to_string(l.size())); auto a=l.begin(); for(auto&q:m) if(*a++!=T(q.first)||!s.isEpochExist(T(q.first))) fail("eopd-list",std::to_string(q.first)); } };
// ---- TEC maps
struct Tx { IonexStore s; map<I,std::pair<I,I>> m; map<I,I> dcb; std::set<string> files; static CommonTime T(I t){ return ct(t,TimeSystem::Unknown); } I step; static const int NA=9,NO=13;
  static double cell(I v,int a,int o){ return std::floor(std::fabs(val(v+a*31+(o%(NO-1)),5)))/10; }
  static IonexData make(I t,I v,bool rms){ IonexData d; d.time=T(t); d.type=rms?IonexData::RMS:IonexData::TEC; d.dim[0]=NA; d.dim[1]=NO; d.dim[2]=1; d.lat[0]=80; d.lat[1]=-80; d.lat[2]=-20; d.lon[0]=-180; d.lon[1]=180; d.lon[2]=30; d.hgt[0]=d.hgt[1]=450; d.hgt[2]=0; d.exponent=-1; d.valid=true; d.mapID=1; d.data=Vector<double>(NA*NO,0.0); for(int a=0;a<NA;a++) for(int o=0;o<NO;o++) d.data[a*NO+o]=cell(v,a,o); return d; }
  static double bil(I v,double lat,double lon){ while(lon>=180) lon-=360; while(lon<-180) lon+=360; double ya=(80-lat)/20,xo=(lon+180)/30; int a=std::min(NA-2,(int)ya),o=std::min(NO-2,(int)xo); double q=ya-a,p=xo-o; return (1-p)*(1-q)*cell(v,a,o)+p*(1-q)*cell(v,a,o+1)+(1-p)*q*cell(v,a+1,o)+p*q*cell(v,a+1,o+1); }
  // a daily file with maps every six hours and the biases of some satellites
  static I day(I t){ return t>=0?t/86400:-((86399-t)/86400); } static bool has(I v,int prn){ return mix(v*40+prn,99)%4!=0; } static double bias(I v,int prn){ return std::floor(val(v+prn*17,6)*9)/1000; }
  void file(I t,I v,I len){ I d=day(t); int n=2+(int)(len%4); string path="/sim/i"+std::to_string(d)+"v"+std::to_string(v%1000); { IonexHeader h; h.version=1.0; h.fileType="IONOSPHERE MAPS"; h.system="GPS"; h.fileProgram="sim"; h.fileAgency="sim"; h.date="01-JAN-10 00:00"; h.firstEpoch=T(d*86400); h.interval=21600; h.lastEpoch=T(d*86400+(n-1)*21600); h.numMaps=n; h.mappingFunction="COSZ"; h.elevation=10; h.observablesUsed="sim"; h.numStations=1; h.numSVs=30; h.baseRadius=6371.0; h.mapDims=2; IonexData d0=make(0,v,false); for(int k=0;k<3;k++){ h.hgt[k]=d0.hgt[k]; h.lat[k]=d0.lat[k]; h.lon[k]=d0.lon[k]; } h.exponent=-1; h.auxDataFlag=true; h.auxData="DIFFERENTIAL CODE BIASES"; for(int p=1;p<=32;p++) if(has(v,p)) h.svsmap[SatID(p,SatelliteSystem::GPS)]=IonexHeader::DCB('G',p,bias(v,p),0.01); h.valid=true; IonexStream o(path.c_str(),std::ios::out|std::ios::trunc); o<<h; for(int i=0;i<n;i++){ IonexData x=make(d*86400+i*21600,v+i,false); x.mapID=i+1; o<<x; } o.close(); }
    bool dup=files.count(path)>0; bool ref=refused([&]{ s.loadFile(path); }); if(ref!=dup) fail("ionex-load",dup?"a file is loaded twice":"a good file is refused"); if(ref) return; files.insert(path); for(int i=0;i<n;i++) m.emplace(d*86400+i*21600,std::make_pair((I)-1,(I)-1)).first->second.first=v+i; dcb[d]=v; probe("ionex.file"); }
  void biases(I t,int prn){ double r=0; bool in=!m.empty()&&t>=m.begin()->first&&t<=m.rbegin()->first; auto b=dcb.find(day(t)); bool ok=in&&b!=dcb.end()&&has(b->second,prn); bool ref=refused([&]{ r=s.findDCB(SatID(prn,SatelliteSystem::GPS),T(t)); }); if(ref==ok) fail("ionex-dcb","bias of satellite "+std::to_string(prn)+" at "+std::to_string(t)+(ref?" is refused":" is given as "+fmtd(r))+" with "+std::to_string(dcb.size())+" files"); if(ok) near("ionex-dcb",r,bias(b->second,prn),1e-9,"bias of satellite "+std::to_string(prn)+" at "+std::to_string(t)); }
  void slant(double tec,I k,I e){ static const char* mf[]={"NONE","SLM","MSLM","ESM","COSZ"}; string f=mf[cap(k,0,9)%5]; double el=(double)(cap(e,0,360000)%97)-5,r=0,q=0; bool ref=refused([&]{ r=s.getSTEC(el,tec,f); }),ref2=refused([&]{ q=s.getIono(el,tec,1.2e9,f); }); bool bad=tec<0||f=="COSZ"; if(ref!=bad||ref2!=bad) fail("ionex-slant","slant TEC with "+f+" of "+fmtd(tec)+(ref?" is refused":" is given")); if(bad) return; L w=1,z=(90-el)*3.14159265358979323846L/180; if(f=="SLM") w=1/std::sqrt(1-std::pow(6371.0L/6821.0L*std::sin(z),2)); if(f=="MSLM"&&el>=10) w=1/std::sqrt(1-std::pow(6371.0L/6877.7L*std::sin(0.9782L*z),2)); if(el<0) w=0; near("ionex-slant",r,w*tec,1e-9,"slant TEC with "+f+" at elevation "+fmtd(el)); near("ionex-slant",q,40.3e16L/1.44e18L*w*tec,1e-9,"slant delay with "+f+" at elevation "+fmtd(el)); }
  void op(const Op& o){ I t=o.i("t"); if(o.kind=="add"&&o.i("k")>=8){ file(t,o.i("v"),o.i("len")/std::max<I>(1,step)); return; } if(o.kind=="add"){ auto& e=m.emplace(t,std::make_pair((I)-1,(I)-1)).first->second; bool rms=o.i("k")<3; (rms?e.second:e.first)=o.i("v"); s.addMap(make(t,o.i("v"),rms)); } else if(o.kind=="clear"){ s.clear(); m.clear(); dcb.clear(); files.clear(); } else if(o.kind=="cut") return;
    else { biases(t,1+(int)(cap(o.i("lon"),0,400000)%32)); slant((double)(cap(o.i("lat"),-90000,90000))*1e-3,o.i("k"),o.i("lon")); int st=(int)cap(o.i("k"),0,9)%5; double lat=o.i("lat")*1e-3,lon=o.i("lon")*1e-3; if(lon>=360) lon=0; Position rx(lat,lon,6821000.0,Position::Geocentric); Triple r; bool ref=refused([&]{ r=s.getIonexValue(T(t),rx,st); }); bool in=!m.empty()&&t>=m.begin()->first&&t<=m.rbegin()->first&&st>=1; if(in==ref) fail("ionex-get","TEC at "+std::to_string(t)+(ref?" is refused":" is given")+" with "+std::to_string(m.size())+" maps, strategy "+std::to_string(st)); if(ref) return; auto b=m.lower_bound(t),a=b; double f1=0; if(b->first!=t){ --a; f1=(double)(t-a->first)/(b->first-a->first); } vector<std::pair<map<I,std::pair<I,I>>::iterator,double>> use; if(st==1||st==4) use={{f1>0.5?b:a,1.0}}; else use={{a,1-f1},{b,f1}}; double w[2]={0,0}; for(auto&u:use){ double l2=lon; if(st>=3) l2+=(t-u.first->first)*360.0/86400; if(u.second==0) continue; if(u.first->second.first>=0) w[0]+=u.second*bil(u.first->second.first,lat,l2); if(u.first->second.second>=0) w[1]+=u.second*bil(u.first->second.second,lat,l2); } near("ionex-get",r[0],w[0],1e-6,"TEC at "+std::to_string(t)+" strategy "+std::to_string(st)); near("ionex-get",r[1],w[1],1e-6,"RMS at "+std::to_string(t)+" strategy "+std::to_string(st)); if(r[2]!=rx.theArray[2]) fail("ionex-get","height"); } }
  void check(){ CommonTime a=m.empty()?CommonTime(CommonTime::END_OF_TIME):T(m.begin()->first),b=m.empty()?CommonTime(CommonTime::BEGINNING_OF_TIME):T(m.rbegin()->first); if(s.getInitialTime()!=a||s.getFinalTime()!=b) fail("ionex-limits","initial or final time are not those of the "+std::to_string(m.size())+" epochs held"); } };
// ---- satellite metadata
struct Me { SatMetaDataStore s; struct R { I a,b; int prn,svn,chl,slot,sys; }; vector<R> m; static CommonTime T(I t){ return ct(t,TimeSystem::Any); } static SatelliteSystem S(int k){ return k?SatelliteSystem::Glonass:SatelliteSystem::GPS; }
  void op(const Op& o){ I t=o.i("t"); if(o.kind=="add"){ R r; I v=o.i("v"); r.a=t; r.b=t+std::max<I>(1,o.i("len")); r.sys=v%2; r.prn=1+v/2%4; r.svn=40+v/8%6; r.slot=r.sys?1+v/3%4:0; r.chl=r.sys?(int)(v/12%3)-1:0; for(auto&x:m) if(x.sys==r.sys&&x.a<r.b&&r.a<x.b&&(x.prn==r.prn||x.svn==r.svn||(r.sys&&x.slot==r.slot&&x.chl==r.chl))) return; m.push_back(r); SatMetaData d; d.sys=S(r.sys); d.svn=std::to_string(r.svn); d.prn=r.prn; d.chl=r.chl; d.slotID=r.slot; d.startTime=T(r.a); d.endTime=T(r.b); d.norad=(unsigned long)m.size(); s.satMap[d.sys].insert(d); } else if(o.kind=="clear"){ s=SatMetaDataStore(); m.clear(); } else if(o.kind=="cut") return;
    else { int k=(int)cap(o.i("k"),0,9); int sys=k&1; I x=o.i("lat")+90000; int prn=1+x%4,svn=40+x/4%6,slot=1+x/24%4,chl=(int)(x/96%3)-1; auto find=[&](std::function<bool(const R&)> f)->const R*{ for(auto&r:m) if(r.sys==sys&&r.a<=t&&t<r.b&&f(r)) return &r; return nullptr; }; auto cmp=[&](bool got,const SatMetaData& d,const R* e,const string& q){ if(got!=(e!=nullptr)) fail("meta-find",q+" at "+std::to_string(t)+(got?" is found":" is not found")+" among "+std::to_string(m.size())); if(e&&d.norad!=(unsigned long)(e-&m[0]+1)) fail("meta-find",q+" at "+std::to_string(t)+": not the record that applies"); }; SatMetaData d; bool g=k&2?s.findSat(SatID(prn,S(sys)),T(t),d):s.findSat(S(sys),prn,T(t),d); const R* e=find([&](const R& r){ return r.prn==prn; }); cmp(g,d,e,"PRN "+std::to_string(prn)); string sv="?"; bool gs=s.getSVN(S(sys),prn,T(t),sv); if(gs!=(e!=nullptr)||(e&&sv!=std::to_string(e->svn))) fail("meta-find","getSVN"); e=find([&](const R& r){ return r.svn==svn; }); cmp(s.findSatBySVN(S(sys),std::to_string(svn),T(t),d),d,e,"SVN "+std::to_string(svn)); uint32_t pr=0; bool gp=s.getPRN(S(sys),std::to_string(svn),T(t),pr); if(gp!=(e!=nullptr)||(e&&(int)pr!=e->prn)) fail("meta-find","getPRN"); if(sys){ e=find([&](const R& r){ return r.slot==slot&&r.chl==chl; }); cmp(s.findSatBySlotFdma(slot,chl,T(t),d),d,e,"slot "+std::to_string(slot)+" channel "+std::to_string(chl)); } } }
  void check(){} };
template<class S> void go(const Plan& p,S& s){ I last=-1; for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; opc(o.kind); if(o.kind=="add"){ if(o.i("t")<last) fault("late_record"); else if(o.i("t")==last) fault("replaced_record"); else if(last>=0&&o.i("t")>last+p[0].i("step")) fault("gap"); last=std::max(last,o.i("t")); } s.op(o); s.check(); ev(o.kind); } }
void exec(const Plan& p){ const Op& c=p.at(0); int w=(int)(((c.i("which")%6)+6)%6); probe("store."+std::to_string(w)); lg().shapeEv("W"+std::to_string(w)); if(w==0){ Wx s; go(p,s); } else if(w==1){ Io s; go(p,s); } else if(w==2){ Eo s; go(p,s); } else if(w==3){ Ed s((int)cap(c.i("np"),1,12)); go(p,s); } else if(w==4){ Tx s; s.step=std::max<I>(1,c.i("step")); go(p,s); } else { Me s; go(p,s); } }
Reg r28({"C28","A run has one store (weather, ionosphere models, daily or general Earth orientation, TEC maps, satellite metadata) receiving records late, repeated, replaced and with gaps, with queries, edits, flushes and clears in between. Non-trivial: at least one record and one query.","WxObsData, IonoModelStore, IonoModel, EOPStore, EarthOrientation, EOPDataStore/EpochDataStore, IonexStore, IonexData, SatMetaDataStore, SimpleLagrangeInterpolation, CommonTime","the arrival of the records (simulated order, repetition, loss)",12000,1200000,gen,exec,400000000});
}}
