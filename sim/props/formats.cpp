#include "formats.hpp"
#include <cstdio>
#include <cmath>
#include <algorithm>
#include "CivilTime.hpp"
#include "GPSWeekSecond.hpp"
#include "SystemTime.hpp"
#include "RinexObsStream.hpp"
#include "RinexObsHeader.hpp"
#include "RinexObsData.hpp"
#include "RinexNavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "RinexMetStream.hpp"
#include "RinexMetHeader.hpp"
#include "RinexMetData.hpp"
#include "RinexClockStream.hpp"
#include "RinexClockHeader.hpp"
#include "RinexClockData.hpp"
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "Rinex3NavStream.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "Rinex3ClockStream.hpp"
#include "Rinex3ClockHeader.hpp"
#include "Rinex3ClockData.hpp"
#include "SP3Stream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "YumaStream.hpp"
#include "YumaHeader.hpp"
#include "YumaData.hpp"
#include "SEMStream.hpp"
#include "SEMHeader.hpp"
#include "SEMData.hpp"
#include "IonexStream.hpp"
#include "IonexHeader.hpp"
#include "IonexData.hpp"
#include "AntexStream.hpp"
#include "AntexHeader.hpp"
#include "AntexData.hpp"
#include "SinexStream.hpp"
#include "SinexHeader.hpp"
#include "SinexData.hpp"
#include "SinexBlock.hpp"
#include "SinexTypes.hpp"
#include "BinexStream.hpp"
#include "BinexData.hpp"
using namespace gpstk; using sim::Rng; using std::string; using std::vector;
namespace fmt {
// ---- canonical dumps ---------------------------------------------------------
struct O { string s; O& k(const char* n){ s+=' '; s+=n; s+='='; return *this; }
  O& operator<<(const string& v){ s+=v; return *this; } O& operator<<(const char* v){ s+=v; return *this; }
  O& operator<<(char v){ s+=v; return *this; } 
  O& operator<<(double v){ if(v==0) v=0; char b[40]; snprintf(b,40,"%.12g",v); s+=b; return *this; }
  O& operator<<(long v){ s+=std::to_string(v); return *this; } O& operator<<(int v){ return *this<<(long)v; } O& operator<<(unsigned v){ return *this<<(long)v; } O& operator<<(short v){ return *this<<(long)v; } O& operator<<(bool v){ return *this<<(long)v; } O& operator<<(unsigned long v){ return *this<<(long)v; } O& operator<<(unsigned char v){ return *this<<(long)v; } O& operator<<(unsigned short v){ return *this<<(long)v; }
  O& low(double v,int p){ if(v==0) v=0; char b[40]; snprintf(b,40,"%.*g",p,v); s+=b; return *this; } };
static string T(const CommonTime& t){ if(t==CommonTime::BEGINNING_OF_TIME) return "BOT"; if(t==CommonTime::END_OF_TIME) return "EOT"; long d; double sod; TimeSystem ts; t.get(d,sod,ts); char b[80]; snprintf(b,80,"%ld/%.6f/%s",d,sod,gpstk::StringUtils::asString(ts).c_str()); return b; }
static string TQ(const CommonTime& t){ if(t==CommonTime::BEGINNING_OF_TIME) return "BOT"; if(t==CommonTime::END_OF_TIME) return "EOT"; long d; double sod; TimeSystem ts; t.get(d,sod,ts); char b[80]; snprintf(b,80,"%ld/%.6f",d,sod); return b; }
static string strip(string s){ while(!s.empty()&&s.back()==' ') s.pop_back(); size_t i=0; while(i<s.size()&&s[i]==' ') i++; return s.substr(i); }
static double q(Rng& r,int dec,double lo,double hi){ double p=1; for(int i=0;i<dec;i++) p*=10; return r.range((int64_t)(lo*p),(int64_t)(hi*p))/p; }
// a value exactly representable in the D19.12 navigation field
static double nv(Rng& r,int elo,int ehi){ if(r.chance(0.04)) return 0.0; char b[40]; snprintf(b,40,"%s0.%012llde%lld",r.chance(0.5)?"-":"",(long long)r.range(100000000000LL,999999999999LL),(long long)r.range(elo,ehi)); return strtod(b,0); }
static double nvp(Rng& r,int elo,int ehi){ return std::fabs(nv(r,elo,ehi)); }
static string word(Rng& r,int lo,int hi){ static const char c[]="ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; string s; int n=r.range(lo,hi); for(int i=0;i<n;i++) s+=c[r.range(0,35)]; return s; }
static string words(Rng& r,int maxlen){ string s=word(r,1,8); while(r.chance(0.6)){ string w=word(r,1,8); if((int)(s.size()+1+w.size())>maxlen) break; s+=" "+w; } return s.substr(0,maxlen); }

// ---- generic typed set ----------------------------------------------------------
template<class S,class H,class D> struct TSet : Set {
  H h; vector<D> r;
  virtual string dd(const D&)=0; virtual string hd(const H&)=0; virtual void onHeader(S&){}
  virtual bool endMark(const D&){ return false; }
  virtual bool writable(const D&){ return true; }
  int n(){ return r.size(); } string recDump(int i){ return dd(r[i]); } string hdrDump(){ return hd(h); }
  struct R : Src { TSet* t; S st; H h; D d; R(TSet* t_,const string& p):t(t_),st(p.c_str(),std::ios::in){} FFStream& s(){return st;} void reopen(const string& p){ st.open(p.c_str(),std::ios::in); } void header(){ if(t->hdr) st>>h; } void get(){ st>>d; } string dump(){ return t->dd(d);} string dumpHdr(){ return t->hd(h);} bool isEnd(){ return t->endMark(d);} };
  struct W : Dst { TSet* t; S st; W(TSet* t_,const string& p,bool app):t(t_){ st.open(p.c_str(),app?(std::ios::out|std::ios::app):std::ios::out); } FFStream& s(){return st;} void header(bool really){ if(t->hdr){ if(really) st<<t->h; else t->onHeader(st);} } void put(int i){ st<<t->r[i]; } void close(){ st.close(); } void reopen(const string& p,Set& o){ t=dynamic_cast<TSet*>(&o); st.open(p.c_str(),std::ios::out); } };
  std::unique_ptr<Src> reader(const string& p){ return std::unique_ptr<Src>(new R(this,p)); }
  string copy(const string& a,const string& b){ { S i(a.c_str(),std::ios::in); S o; o.open(b.c_str(),std::ios::out); H hh; D d; if(hdr){ i>>hh; o<<hh; } while(i>>d){ if(!endMark(d)) o<<d; } o.close(); } return sim::disk().get(b); }
  std::unique_ptr<Dst> writer(const string& p,bool app,bool exc){ W* w=new W(this,p,app); if(exc) w->st.exceptions(std::ios::failbit); return std::unique_ptr<Dst>(w); }
};
string Set::build(vector<size_t>* m){ string p="/sim/build.tmp"; sim::disk().pol.erase(p); { auto w=writer(p,false,false); w->header(true); w->s().flush(); if(m) m->push_back(sim::disk().get(p).size()); for(int i=0;i<n();i++){ w->put(i); w->s().flush(); if(m) m->push_back(sim::disk().get(p).size()); } w->close(); } string b=sim::disk().get(p); sim::disk().files.erase(p); sim::disk().pol.erase(p); return b; }

// ---- RINEX 2 observation ------------------------------------------------------------
struct RObs2 : TSet<RinexObsStream,RinexObsHeader,RinexObsData> {
  void onHeader(RinexObsStream& s){ s.header=h; }
  string hd(const RinexObsHeader& h){ O o; unsigned long v=h.valid; o.k("ver")<<h.version; o.k("sys")<<h.system.systemString(); o.k("valid")<<v; o.k("prog")<<h.fileProgram; o.k("ag")<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; o.k("mk")<<h.markerName; if(v&RinexObsHeader::markerNumberValid) o.k("mn")<<h.markerNumber; o.k("obs")<<h.observer; o.k("agy")<<h.agency; o.k("rec")<<h.recNo<<"/"<<h.recType<<"/"<<h.recVers; o.k("ant")<<h.antNo<<"/"<<h.antType; Triple p=h.antennaPosition,f=h.antennaOffset; for(int i=0;i<3;i++){ o.k("p")<<p[i]; o.k("f")<<f[i]; } if(v&RinexObsHeader::waveFactValid) o.k("wf")<<h.wavelengthFactor[0]<<"/"<<h.wavelengthFactor[1]; for(auto&e:h.extraWaveFactList){ o.k("ewf")<<e.wavelengthFactor[0]<<"/"<<e.wavelengthFactor[1]; for(auto&s:e.satList) o<<","<<RinexSatID(s).toString(); } for(auto&t:h.obsTypeList) o.k("ot")<<t.type; if(v&RinexObsHeader::intervalValid) o.k("int")<<h.interval; if(v&RinexObsHeader::firstTimeValid) o.k("first")<<TQ(h.firstObs); if(v&RinexObsHeader::lastTimeValid) o.k("last")<<TQ(h.lastObs); if(v&RinexObsHeader::leapSecondsValid) o.k("leap")<<h.leapSeconds; if(v&RinexObsHeader::receiverOffsetValid) o.k("ro")<<h.receiverOffset; if(v&RinexObsHeader::numSatsValid) o.k("ns")<<h.numSVs; if(v&RinexObsHeader::prnObsValid) for(auto&e:h.numObsForSat){ o.k("po")<<RinexSatID(e.first).toString(); for(int c:e.second) o<<","<<c; } return o.s; }
  string dd(const RinexObsData& d){ O o; o.k("t")<<T(d.time); o.k("f")<<d.epochFlag; o.k("n")<<d.numSvs; o.k("clk")<<d.clockOffset; for(auto&s:d.obs){ o.k("sv")<<RinexSatID(s.first).toString(); for(auto&t:s.second) o<<" "<<t.first.type<<":"<<t.second.data<<","<<t.second.lli<<","<<t.second.ssi; } if(d.epochFlag>=2&&d.epochFlag<=5){ for(auto&c:d.auxHeader.commentList) o.k("c")<<c; if(d.auxHeader.valid&RinexObsHeader::markerNameValid) o.k("mk")<<d.auxHeader.markerName; if(d.auxHeader.valid&RinexObsHeader::antennaOffsetValid){ Triple f=d.auxHeader.antennaOffset; for(int i=0;i<3;i++) o.k("fo")<<f[i]; } } return o.s; }
  RObs2(Rng& g,int n){ name="rnxobs2"; 
    h.version=2.11; h.fileType="O"; h.system=RinexSatID(-1,SatelliteSystem::Mixed); h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.date="x"; h.markerName=words(g,60); h.observer=words(g,20); h.agency=words(g,40); h.recNo=word(g,1,20); h.recType=words(g,20); h.recVers=word(g,1,20); h.antNo=word(g,1,20); h.antType=words(g,20); for(int i=0;i<3;i++){ h.antennaPosition[i]=q(g,4,-6400000,6400000); h.antennaOffset[i]=q(g,4,-9,9); }
    h.wavelengthFactor[0]=1; h.wavelengthFactor[1]=g.range(1,2); h.valid=RinexObsHeader::allValid21;
    static const char* types[]={"C1","P1","L1","D1","S1","P2","L2","D2","S2","C2","C5","L5"}; vector<string> ts(types,types+12); g.shuffle(ts); int nt=g.range(1,g.chance(0.3)?12:6); for(int i=0;i<nt;i++) h.obsTypeList.push_back(RinexObsHeader::convertObsType(ts[i]));
    CommonTime t0=CivilTime(g.range(2000,2015),g.range(1,12),g.range(1,28),g.range(0,23),g.range(0,59),g.range(0,59),TimeSystem::GPS).convertToCommonTime(); h.firstObs=t0; h.firstSystem=RinexSatID(-1,SatelliteSystem::GPS); h.valid|=RinexObsHeader::firstTimeValid;
    if(g.chance(0.5)){ h.valid|=RinexObsHeader::intervalValid; h.interval=q(g,3,0.1,60); } if(g.chance(0.5)){ h.valid|=RinexObsHeader::leapSecondsValid; h.leapSeconds=g.range(10,18); } if(g.chance(0.5)){ h.valid|=RinexObsHeader::markerNumberValid; h.markerNumber=word(g,1,20);} if(g.chance(0.6)){ h.valid|=RinexObsHeader::commentValid; int c=g.range(1,4); for(int i=0;i<c;i++) h.commentList.push_back(words(g,60)); }
    if(g.chance(0.3)){ h.valid|=RinexObsHeader::receiverOffsetValid; h.receiverOffset=g.range(0,1);} if(g.chance(0.3)){ h.valid|=RinexObsHeader::lastTimeValid; h.lastObs=t0+86400.0; h.lastSystem=h.firstSystem; }
    if(g.chance(0.3)){ h.valid|=RinexObsHeader::numSatsValid|RinexObsHeader::prnObsValid; int ns=g.range(1,5); h.numSVs=ns; for(int i=0;i<ns;i++){ vector<int> v; for(int k=0;k<nt;k++) v.push_back(g.range(0,9999)); h.numObsForSat[SatID(g.range(1,32),SatelliteSystem::GPS)]=v; } h.numSVs=h.numObsForSat.size(); }
    CommonTime t=t0; for(int i=0;i<n;i++){ RinexObsData d; d.clockOffset=g.chance(0.4)?q(g,9,-0.5,0.5):0.0; d.time=t; int kind=g.range(0,9); d.epochFlag=kind<7?0:kind==7?1:kind==8?(i>0?g.range(3,4):0):0; 
      if(d.epochFlag<2){ int ns=g.range(1,g.chance(0.3)?30:9); for(int k=0;k<ns;k++){ SatID s(g.range(1,32),g.chance(0.7)?SatelliteSystem::GPS:SatelliteSystem::Glonass); for(auto&o:h.obsTypeList){ RinexDatum& x=d.obs[s][o]; if(g.chance(0.1)){ x.data=0; x.lli=0; x.ssi=0; } else { x.data=q(g,3,-9999999,99999999); x.lli=g.range(0,7); x.ssi=g.range(0,9);} } } d.numSvs=d.obs.size(); }
      else { d.clockOffset=0; int c=g.range(1,4); for(int k=0;k<c;k++) d.auxHeader.commentList.push_back(words(g,60)); d.auxHeader.valid=RinexObsHeader::commentValid; if(g.chance(0.4)){ d.auxHeader.valid|=RinexObsHeader::markerNameValid; d.auxHeader.markerName=words(g,60); c++; } if(g.chance(0.3)){ d.auxHeader.valid|=RinexObsHeader::antennaOffsetValid; for(int j=0;j<3;j++) d.auxHeader.antennaOffset[j]=q(g,4,-9,9); c++; } d.numSvs=c; }
      r.push_back(d); t+=q(g,1,0.1,900); } }
};
// ---- RINEX 2 navigation ---------------------------------------------------------------
struct RNav2 : TSet<RinexNavStream,RinexNavHeader,RinexNavData> {
  void onHeader(RinexNavStream& s){ s.header=h; }
  string hd(const RinexNavHeader& h){ O o; o.k("ver")<<h.version; o.k("valid")<<h.valid; o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; if(h.valid&RinexNavHeader::ionAlphaValid) for(int i=0;i<4;i++) o.k("a").low(h.ionAlpha[i],4); if(h.valid&RinexNavHeader::ionBetaValid) for(int i=0;i<4;i++) o.k("b").low(h.ionBeta[i],4); if(h.valid&RinexNavHeader::deltaUTCValid) o.k("u")<<(double)h.A0<<"/"<<(double)h.A1<<"/"<<h.UTCRefTime<<"/"<<h.UTCRefWeek; if(h.valid&RinexNavHeader::leapSecondsValid) o.k("l")<<h.leapSeconds; return o.s; }
  string dd(const RinexNavData& d){ O o; o.k("t")<<T(d.time); o.k("prn")<<d.PRNID; o.k("x")<<d.sf1XmitTime; o.k("wk")<<d.toeWeek; o.k("cf")<<d.codeflgs; o.k("h")<<d.health; o.k("l2p")<<d.L2Pdata; double v[]={d.accuracy,d.IODC,d.IODE,d.af0,d.af1,d.af2,d.Tgd,d.Cuc,d.Cus,d.Crc,d.Crs,d.Cic,d.Cis,d.Toe,d.M0,d.dn,d.ecc,d.Ahalf,d.OMEGA0,d.i0,d.w,d.OMEGAdot,d.idot,d.fitint}; for(double x:v) o<<","<<x; return o.s; }
  RNav2(Rng& g,int n){ name="rnxnav2"; h.version=2.1; h.fileType="N"; h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.valid=RinexNavHeader::allValid21; if(g.chance(0.5)){ h.valid|=RinexNavHeader::commentValid; h.commentList.push_back(words(g,60)); if(g.chance(0.5)) h.commentList.push_back(words(g,60)); } if(g.chance(0.5)){ h.valid|=RinexNavHeader::leapSecondsValid; h.leapSeconds=g.range(10,18);} if(g.chance(0.5)){ h.valid|=RinexNavHeader::deltaUTCValid; h.A0=nv(g,-9,-6); h.A1=nv(g,-15,-12); h.UTCRefTime=g.range(0,604799); h.UTCRefWeek=g.range(1000,2000);} 
    for(int i=0;i<n;i++){ RinexNavData d; d.PRNID=g.range(1,32); int wk=g.range(1100,2000); long toe=g.range(0,302)*2000/16*16; toe=g.range(0,604784)/16*16; d.toeWeek=wk; d.Toe=toe; d.time=GPSWeekSecond(wk,toe,TimeSystem::GPS).convertToCommonTime(); d.sf1XmitTime=std::max<long>(0,toe-7200)/30*30; d.codeflgs=g.range(0,3); d.health=g.range(0,63); d.L2Pdata=g.range(0,1); d.accuracy=2.4; d.IODC=g.range(0,1023); d.IODE=g.range(0,255); RNDouble* f[]={&d.af0,&d.af1,&d.af2,&d.Tgd,&d.Cuc,&d.Cus,&d.Crc,&d.Crs,&d.Cic,&d.Cis,&d.M0,&d.dn,&d.OMEGA0,&d.i0,&d.w,&d.OMEGAdot,&d.idot}; for(auto p:f) *p=nv(g,-11,3); d.ecc=nvp(g,-3,0); d.Ahalf=nvp(g,4,4); d.fitint=4; r.push_back(d); } }
};
// ---- RINEX 2 meteorological --------------------------------------------------------------
struct RMet : TSet<RinexMetStream,RinexMetHeader,RinexMetData> {
  void onHeader(RinexMetStream& s){ s.header=h; }
  string hd(const RinexMetHeader& h){ O o; o.k("v")<<h.version; o.k("valid")<<h.valid; o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; o.k("m")<<h.markerName; if(h.valid&RinexMetHeader::validMarkerNumber) o.k("mn")<<h.markerNumber; for(auto t:h.obsTypeList) o.k("o")<<RinexMetHeader::convertObsType(t); for(auto&s:h.sensorTypeList) o.k("st")<<s.model<<"/"<<s.type<<"/"<<s.accuracy<<"/"<<RinexMetHeader::convertObsType(s.obsType); for(auto&s:h.sensorPosList){ Triple p=s.position; o.k("sp")<<p[0]<<"/"<<p[1]<<"/"<<p[2]<<"/"<<s.height; } return o.s; }
  string dd(const RinexMetData& d){ O o; o.k("t")<<TQ(d.time); for(auto&p:d.data) o.k(RinexMetHeader::convertObsType(p.first).c_str())<<p.second; return o.s; }
  RMet(Rng& g,int n){ name="rnxmet"; h.version=2.1; h.fileType="M"; h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.date="x"; h.markerName=words(g,60); h.valid=RinexMetHeader::allValid21; if(g.chance(0.5)){ h.valid|=RinexMetHeader::validMarkerNumber; h.markerNumber=word(g,1,20);} if(g.chance(0.5)){ h.valid|=RinexMetHeader::validComment; h.commentList.push_back(words(g,60)); }
    vector<RinexMetHeader::RinexMetType> ts={RinexMetHeader::PR,RinexMetHeader::TD,RinexMetHeader::HR,RinexMetHeader::ZW,RinexMetHeader::ZD,RinexMetHeader::ZT,RinexMetHeader::WD,RinexMetHeader::WS,RinexMetHeader::RI,RinexMetHeader::HI}; g.shuffle(ts); std::swap(*std::find(ts.begin(),ts.end(),RinexMetHeader::PR),ts[0]); int nt=g.range(1,10); for(int i=0;i<nt;i++){ h.obsTypeList.push_back(ts[i]); RinexMetHeader::sensorType s; s.model=words(g,20); s.type=words(g,20); s.accuracy=q(g,1,0,90); s.obsType=ts[i]; h.sensorTypeList.push_back(s); RinexMetHeader::sensorPosType sp; for(int k=0;k<3;k++) sp.position[k]=q(g,4,-6e6,6e6); sp.height=q(g,4,0,5000); sp.obsType=ts[i]; h.sensorPosList.push_back(sp); }
    CommonTime t=CivilTime(g.range(2000,2020),g.range(1,12),g.range(1,28),0,0,0,TimeSystem::Any).convertToCommonTime(); for(int i=0;i<n;i++){ RinexMetData d; d.time=t; for(auto x:h.obsTypeList) d.data[x]=q(g,1,-99,2000); r.push_back(d); t+=g.range(1,3600); } }
};
// ---- RINEX 2 clock -------------------------------------------------------------------------
struct RClk2 : TSet<RinexClockStream,RinexClockHeader,RinexClockData> {
  void onHeader(RinexClockStream& s){ s.header=h; }
  string hd(const RinexClockHeader& h){ O o; o.k("v")<<h.version; o.k("p")<<strip(h.fileProgram)<<"/"<<strip(h.fileAgency); for(auto&c:h.commentList) o.k("c")<<strip(c); for(auto&t:h.dataTypeList) o.k("t")<<t.type; o.k("ac")<<strip(h.ac)<<"/"<<strip(h.acName); o.k("ns")<<h.numSta; for(auto&s:h.solnStaList) o.k("st")<<strip(s.name)<<"/"<<strip(s.number)<<"/"<<(long)s.posX<<"/"<<(long)s.posY<<"/"<<(long)s.posZ; o.k("sv")<<h.numSats; for(auto&s:h.prnList) o<<","<<RinexSatID(s).toString(); return o.s; }
  string dd(const RinexClockData& d){ O o; o.k("ty")<<d.type.type; o.k("n")<<strip(d.name); o.k("t")<<TQ(d.epochTime.convertToCommonTime()); o.k("c")<<d.dvCount; for(int i=0;i<d.dvCount&&i<6;i++) o<<","<<(double)d.clockData[i]; return o.s; }
  RClk2(Rng& g,int n){ name="rnxclk2"; h.version=2.0; h.fileType="CLOCK DATA"; h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.date="x"; h.dataTypeList.push_back(RinexClockBase::AR); h.dataTypeList.push_back(RinexClockBase::AS); h.numType=2; h.ac="IGS"; h.acName=words(g,55); h.numSta=g.range(1,4); h.trf=words(g,50); for(int i=0;i<h.numSta;i++){ RinexClockHeader::SolnSta s; s.name=word(g,4,4); s.number=word(g,1,20); s.posX=g.range(-999999999,6000000000LL); s.posY=g.range(-999999999,6000000000LL); s.posZ=g.range(-999999999,6000000000LL); h.solnStaList.push_back(s);} h.numSats=g.range(1,31); for(int i=0;i<h.numSats;i++) h.prnList.push_back(SatID(i+1,SatelliteSystem::GPS)); h.leapSeconds=14;
    RinexClockHeader::RefClkRecord rc; rc.numClkRef=1; rc.startEpoch=CivilTime(2010,1,1,0,0,0); rc.stopEpoch=CivilTime(2010,1,2,0,0,0); RinexClockHeader::RefClk c; c.name=word(g,4,4); c.number=word(g,1,20); rc.clocks.push_back(c); h.refClkList.push_back(rc); 
    h.valid=RinexClockHeader::allValidAS|RinexClockHeader::allValidAR; if(g.chance(0.5)){ h.valid|=RinexClockHeader::commentValid; h.commentList.push_back(words(g,60)); }
    CommonTime t=CivilTime(g.range(2000,2020),g.range(1,12),g.range(1,28),0,0,0,TimeSystem::GPS).convertToCommonTime(); for(int i=0;i<n;i++){ RinexClockData d; bool as=g.chance(0.5); d.type=as?RinexClockBase::AS:RinexClockBase::AR; char b[8]; snprintf(b,8,"G%02d",(int)g.range(1,31)); d.name=as?string(b)+" ":word(g,4,4); d.epochTime=CivilTime(t); d.dvCount=g.chance(0.5)?g.range(1,2):g.range(1,6); for(int k=0;k<d.dvCount;k++) d.clockData[k]=nv(g,-9,-3); r.push_back(d); t+=q(g,1,0.1,900);} }
};
// ---- RINEX 3 observation ----------------------------------------------------------------------
struct RObs3 : TSet<Rinex3ObsStream,Rinex3ObsHeader,Rinex3ObsData> {
  void onHeader(Rinex3ObsStream& s){ s.header=h; }
  string hd(const Rinex3ObsHeader& h){ O o; o.k("v")<<h.version; o.k("sys")<<h.fileSys.substr(0,1); o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; o.k("m")<<h.markerName<<"/"<<h.markerNumber<<"/"<<h.markerType; o.k("o")<<h.observer<<"/"<<h.agency; o.k("r")<<h.recNo<<"/"<<h.recType<<"/"<<h.recVers; o.k("a")<<h.antNo<<"/"<<h.antType; Triple p=h.antennaPosition,f=h.antennaDeltaHEN; for(int i=0;i<3;i++){ o.k("p")<<p[i]; o.k("f")<<f[i]; } for(auto&m:h.mapObsTypes){ o.k("ot")<<m.first; for(auto&t:m.second) o<<","<<t.asString(); } o.k("first")<<TQ(h.firstObs.convertToCommonTime()); if(h.valid.isSet(Rinex3ObsHeader::validInterval)) o.k("i")<<h.interval; if(h.valid.isSet(Rinex3ObsHeader::validLeapSeconds)) o.k("l")<<h.leapSeconds; return o.s; }
  string dd(const Rinex3ObsData& d){ O o; o.k("t")<<TQ(d.time); o.k("f")<<d.epochFlag; o.k("n")<<d.numSVs; o.k("c")<<d.clockOffset; for(auto&s:d.obs){ o.k("sv")<<s.first.toString(); for(auto&x:s.second) o<<" "<<x.data<<","<<(x.lliBlank?0:x.lli)<<","<<(x.ssiBlank?0:x.ssi); } if(d.epochFlag>=2&&d.epochFlag<=5){ for(auto&c:d.auxHeader.commentList) o.k("c")<<c; if(d.auxHeader.valid.isSet(Rinex3ObsHeader::validMarkerName)) o.k("mk")<<d.auxHeader.markerName; } return o.s; }
  RObs3(Rng& g,int n){ name="rnxobs3"; h.version=3.02; h.fileType="O"; h.fileSys="M"; h.fileSysSat=SatID(-1,SatelliteSystem::Mixed); h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.markerName=words(g,60); h.markerNumber=word(g,1,20); h.markerType="GEODETIC"; h.observer=words(g,20); h.agency=words(g,40); h.recNo=word(g,1,20); h.recType=words(g,20); h.recVers=word(g,1,20); h.antNo=word(g,1,20); h.antType=words(g,20); for(int i=0;i<3;i++){ h.antennaPosition[i]=q(g,4,-6400000,6400000); h.antennaDeltaHEN[i]=q(g,4,-9,9); }
    h.valid=Rinex3ObsHeader::allValid302; h.valid.set(Rinex3ObsHeader::validMarkerNumber); h.valid.set(Rinex3ObsHeader::validMarkerType); h.validEoH=true; h.preserveDate=true; h.date="20200101 000000 UTC";
    const char* G[]={"C1C","L1C","D1C","S1C","C1W","C2W","L2W","D2W","S2W","C2X","L2X","C5X","L5X","D5X","S5X"}; const char* R[]={"C1C","L1C","D1C","S1C","C2C","L2C","C1P","L1P"}; const char* E[]={"C1X","L1X","D1X","S1X","C5X","L5X","C7X","L7X"}; const char* S[]={"C1C","L1C","C5X"}; const char* C[]={"C2I","L2I","C7I","L7I"};
    auto add=[&](const char* sys,const char** v,int m){ vector<string> x(v,v+m); g.shuffle(x); int k=g.range(1,m); vector<RinexObsID> id; for(int i=0;i<k;i++) id.push_back(RinexObsID(string(sys)+x[i],3.02)); h.mapObsTypes[sys]=id; };
    add("G",G,15); string sysl="G"; if(g.chance(0.6)){ add("R",R,8); sysl+="R"; } if(g.chance(0.5)){ add("E",E,8); sysl+="E";} if(g.chance(0.3)){ add("S",S,3); sysl+="S"; } if(g.chance(0.3)){ add("C",C,4); sysl+="C";} 
    for(auto&m:h.mapObsTypes){ for(auto&t:m.second){ h.sysPhaseShift[m.first][t]; break; } }
    h.valid.clear(Rinex3ObsHeader::validSystemPhaseShift); h.sysPhaseShift.clear();
    // version 3.02 requires phase shift and GLONASS records
    h.valid.set(Rinex3ObsHeader::validSystemPhaseShift); for(auto&m:h.mapObsTypes) h.sysPhaseShift[m.first][m.second[0]][RinexSatID(string(m.first)+"01")]=0.0;
    h.valid.set(Rinex3ObsHeader::validGlonassSlotFreqNo); h.glonassFreqNo[RinexSatID("R01")]=1; h.glonassFreqNo[RinexSatID("R02")]=-4; h.valid.set(Rinex3ObsHeader::validGlonassCodPhsBias); 
    CommonTime t0=CivilTime(g.range(2000,2020),g.range(1,12),g.range(1,28),g.range(0,23),g.range(0,59),g.range(0,59),TimeSystem::GPS).convertToCommonTime(); h.firstObs=CivilTime(t0); h.valid.set(Rinex3ObsHeader::validFirstTime); if(g.chance(0.5)){ h.valid.set(Rinex3ObsHeader::validInterval); h.interval=q(g,3,0.1,60);} if(g.chance(0.5)){ h.valid.set(Rinex3ObsHeader::validComment); h.commentList.push_back(words(g,60)); } if(g.chance(0.5)){ h.valid.set(Rinex3ObsHeader::validLeapSeconds); h.leapSeconds=g.range(10,18);} 
    CommonTime t=t0; for(int i=0;i<n;i++){ Rinex3ObsData d; d.time=t; int kind=g.range(0,9); d.epochFlag=kind<7?0:kind==7?1:kind==8?(i>0?g.range(3,4):0):0; d.clockOffset=0; if(d.epochFlag<2&&g.chance(0.4)) d.clockOffset=q(g,12,-0.5,0.5); if(d.epochFlag<2){ int ns=g.range(1,g.chance(0.3)?30:9); for(int k=0;k<ns;k++){ string sy(1,sysl[g.range(0,sysl.size()-1)]); char b[8]; snprintf(b,8,"%s%02d",sy.c_str(),(int)g.range(1,sy=="R"?24:30)); RinexSatID s{string(b)}; vector<RinexDatum> v; for(size_t m=0;m<h.mapObsTypes[sy].size();m++){ RinexDatum x; if(g.chance(0.1)){ x.data=0; x.lli=x.ssi=0; } else { x.data=q(g,3,-9999999,99999999); x.lli=g.range(0,7); x.lliBlank=x.lli==0; x.ssi=g.range(0,9); x.ssiBlank=x.ssi==0; } v.push_back(x);} d.obs[s]=v; } d.numSVs=d.obs.size(); } else { int c=g.range(1,3); for(int k=0;k<c;k++) d.auxHeader.commentList.push_back(words(g,60)); d.auxHeader.valid.set(Rinex3ObsHeader::validComment); if(g.chance(0.4)){ d.auxHeader.valid.set(Rinex3ObsHeader::validMarkerName); d.auxHeader.markerName=words(g,60); c++; } d.numSVs=c; } r.push_back(d); t+=q(g,1,0.1,900); } }
};
// ---- RINEX 3 navigation ------------------------------------------------------------------------
struct RNav3 : TSet<Rinex3NavStream,Rinex3NavHeader,Rinex3NavData> {
  void onHeader(Rinex3NavStream& s){ s.header=h; }
  string hd(const Rinex3NavHeader& h){ O o; o.k("v")<<h.version; o.k("valid")<<h.valid; o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; if(h.valid&Rinex3NavHeader::validLeapSeconds) o.k("l")<<h.leapSeconds<<"/"<<h.leapDelta<<"/"<<h.leapWeek<<"/"<<h.leapDay; for(auto&m:h.mapIonoCorr){ o.k("ion")<<m.first; for(int i=0;i<4;i++){ o<<","; o.low(m.second.param[i],4);} } return o.s; }
  string dd(const Rinex3NavData& d){ O o; o.k("t")<<TQ(d.time); o.k("sv")<<d.satSys<<"/"<<d.PRNID; if(d.satSys=="R"||d.satSys=="S"){ double v[]={d.TauN,d.GammaN,(double)d.MFtime,d.px,d.py,d.pz,d.vx,d.vy,d.vz,d.ax,d.ay,d.az,(double)d.health,d.satSys=="R"?(double)d.freqNum:(double)d.accCode,d.satSys=="R"?(double)d.ageOfInfo:(double)d.IODN}; for(double x:v) o<<","<<x; } else { double v[]={d.af0,d.af1,d.af2,d.Crs,d.dn,d.M0,d.Cuc,d.ecc,d.Cus,d.Ahalf,d.Toe,d.Cic,d.OMEGA0,d.Cis,d.i0,d.Crc,d.w,d.OMEGAdot,d.idot,(double)d.weeknum,d.accuracy,(double)d.health,d.Tgd,(double)d.xmitTime}; for(double x:v) o<<","<<x; if(d.satSys=="G"||d.satSys=="J") o<<","<<(double)d.IODE<<","<<(double)d.IODC<<","<<d.codeflgs<<","<<d.L2Pdata<<","<<(double)d.fitint; if(d.satSys=="E") o<<","<<(double)d.IODnav<<","<<d.datasources<<","<<(double)d.Tgd2; if(d.satSys=="C") o<<","<<(double)d.IODE<<","<<(double)d.IODC<<","<<(double)d.Tgd2; } return o.s; }
  RNav3(Rng& g,int n){ name="rnxnav3"; h.version=3.02; h.fileType="N"; h.fileSys="M"; h.fileSysSat=SatID(-1,SatelliteSystem::Mixed); h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.date="20200101 000000 UTC"; h.valid=Rinex3NavHeader::allValid3; if(g.chance(0.5)){ h.valid|=Rinex3NavHeader::validComment; h.commentList.push_back(words(g,60)); } if(g.chance(0.5)){ h.valid|=Rinex3NavHeader::validLeapSeconds; h.leapSeconds=g.range(10,18); h.leapDelta=g.range(10,18); h.leapWeek=g.range(1000,2000); h.leapDay=g.range(1,7); }
    for(int i=0;i<n;i++){ Rinex3NavData d; const char* S="GRECJS"; d.satSys=string(1,S[g.range(0,5)]); d.PRNID=g.range(1,d.satSys=="R"?24:30); d.sat=RinexSatID(); if(d.satSys=="S") d.PRNID=g.range(20,38); if(d.satSys=="J") d.PRNID=g.range(1,5); char b[8]; snprintf(b,8,"%s%02d",d.satSys.c_str(),d.PRNID); d.sat.fromString(b); int wk=g.range(1100,2000); long toe=g.range(0,604784)/16*16; bool glo=d.satSys=="R"||d.satSys=="S"; long sod=toe/ (glo?900:16)*(glo?900:16); 
      RNDouble z(0.0); RNDouble* f[]={&d.accuracy,&d.IODC,&d.IODE,&d.TauN,&d.GammaN,&d.ageOfInfo,&d.IODnav,&d.accCode,&d.IODN,&d.af0,&d.af1,&d.af2,&d.Tgd,&d.Tgd2,&d.Cuc,&d.Cus,&d.Crc,&d.Crs,&d.Cic,&d.Cis,&d.Toe,&d.M0,&d.dn,&d.ecc,&d.Ahalf,&d.OMEGA0,&d.i0,&d.w,&d.OMEGAdot,&d.idot,&d.fitint,&d.px,&d.py,&d.pz,&d.vx,&d.vy,&d.vz,&d.ax,&d.ay,&d.az}; for(auto p:f) *p=nv(g,-11,3); 
      d.IODE=g.range(0,255); d.IODC=g.range(0,1023); d.IODnav=g.range(0,255); d.accCode=g.range(0,15); d.IODN=g.range(0,255); d.ageOfInfo=g.range(0,30); d.accuracy=2.4; d.ecc=nvp(g,-3,0); d.Ahalf=nvp(g,4,4); d.fitint=4; d.Toe=toe; d.weeknum=wk; d.xmitTime=std::max<long>(0,toe-g.range(0,7200))/30*30; d.health=g.range(0,63); d.codeflgs=g.range(0,3); d.L2Pdata=g.range(0,1); d.datasources=g.range(0,1023); d.freqNum=g.range(-7,6); d.MFtime=g.range(0,86370)/30*30; d.MFTraw=d.MFtime; d.Toc=toe; d.time=GPSWeekSecond(wk,sod,TimeSystem::Any).convertToCommonTime(); r.push_back(d);} }
};
// ---- RINEX 3 clock ---------------------------------------------------------------------------------
struct RClk3 : TSet<Rinex3ClockStream,Rinex3ClockHeader,Rinex3ClockData> {
  string hd(const Rinex3ClockHeader& h){ O o; o.k("v")<<h.version; o.k("p")<<strip(h.program)<<"/"<<strip(h.runby); for(auto&c:h.commentList) o.k("c")<<strip(c); for(auto&d:h.dataTypes) o.k("d")<<d; for(auto&s:h.satList) o<<","<<s.toString(); o.k("n")<<h.numSolnStations; for(auto&s:h.stationID) o.k("st")<<s.first<<"/"<<strip(s.second); return o.s; }
  string dd(const Rinex3ClockData& d){ O o; o.k("ty")<<d.datatype; if(d.datatype=="AS") o.k("sv")<<d.sat.toString(); else o.k("site")<<strip(d.site); o.k("t")<<TQ(d.time); double v[]={d.bias,d.sig_bias,d.drift,d.sig_drift,d.accel,d.sig_accel}; for(double x:v) o<<","<<x; return o.s; }
  RClk3(Rng& g,int n){ name="rnxclk3"; h.version=3.0; h.program=words(g,20); h.runby=words(g,20); h.dataTypes={"AR","AS"}; h.analCenterDesignator="IGS"; h.analysisCenter=words(g,50); h.terrRefFrame="IGS08"; h.timeSystem=TimeSystem::GPS; h.leapSeconds=15; h.numSolnStations=g.range(1,3); for(int i=0;i<h.numSolnStations;i++){ string id=word(g,4,4); h.stationID[id]=word(g,5,12); h.stationX[id]=std::to_string(g.range(1000000,6000000000LL)); h.stationY[id]=std::to_string(g.range(1000000,6000000000LL)); h.stationZ[id]=std::to_string(g.range(1000000,6000000000LL)); } h.numSolnStations=h.stationID.size(); h.numSolnSatellites=g.range(1,31); for(int i=0;i<h.numSolnSatellites;i++){ char b[8]; snprintf(b,8,"G%02d",i+1); h.satList.push_back(RinexSatID(string(b))); } h.valid=Rinex3ClockHeader::allRequiredValid; if(g.chance(0.5)){ h.valid|=Rinex3ClockHeader::commentValid; h.commentList.push_back(words(g,60)); }
    CommonTime t=CivilTime(g.range(2000,2020),g.range(1,12),g.range(1,28),0,0,0,TimeSystem::GPS).convertToCommonTime(); for(int i=0;i<n;i++){ Rinex3ClockData d; bool as=g.chance(0.5); d.datatype=as?"AS":"AR"; char b[8]; snprintf(b,8,"G%02d",(int)g.range(1,31)); if(as) d.sat=RinexSatID(string(b)); else d.site=word(g,4,4); d.time=t; auto v=[&]{ double x; do x=nv(g,-9,-3); while(x==0); return x; }; d.bias=v(); d.sig_bias=std::fabs(v()); int k=g.chance(0.5)?2:g.range(2,6); if(k>2) d.drift=v(); if(k>3) d.sig_drift=v(); if(k>4) d.accel=v(); if(k>5) d.sig_accel=v(); r.push_back(d); t+=q(g,1,0.1,900);} }
};
// ---- SP3 ------------------------------------------------------------------------------------------------
struct Sp3 : TSet<SP3Stream,SP3Header,SP3Data> {
  void onHeader(SP3Stream& s){ s.header=h; }
  string hd(const SP3Header& h){ O o; o.k("v")<<string(1,h.versionChar()); o.k("pv")<<h.containsVelocity; o.k("t")<<TQ(h.time); o.k("i")<<h.epochInterval; o.k("n")<<h.numberOfEpochs; o.k("d")<<strip(h.dataUsed); o.k("c")<<strip(h.coordSystem); o.k("o")<<strip(h.orbitType); o.k("a")<<strip(h.agency); for(auto&s:h.satList) o<<","<<s.first.toString()<<":"<<s.second; if(h.version==SP3Header::SP3c||h.version==SP3Header::SP3d) o.k("b")<<h.basePV<<"/"<<h.baseClk; return o.s; }
  string dd(const SP3Data& d){ O o; o.k("r")<<d.RecType; o.k("t")<<T(d.time); if(d.RecType=='*') return o.s; o.k("sv")<<SP3SatID(d.sat).toString(); for(int i=0;i<3;i++) o<<","<<d.x[i]; o<<","<<d.clk; if(h.version==SP3Header::SP3c||h.version==SP3Header::SP3d){ for(int i=0;i<4;i++) o<<","<<d.sig[i]; if(d.RecType=='P') o<<","<<d.clockEventFlag<<d.clockPredFlag<<d.orbitManeuverFlag<<d.orbitPredFlag; o<<","<<d.correlationFlag; if(d.correlationFlag){ for(int i=0;i<4;i++) o<<","<<d.sdev[i]; for(int i=0;i<6;i++) o<<","<<d.correlation[i]; } } else if(h.version==SP3Header::SP3a&&h.allowSP3aEvents&&d.RecType=='P') o<<",E"<<d.eventFlag; return o.s; }
  Sp3(Rng& g,int n){ name="sp3"; int v=g.range(0,3); h.version=v==0?SP3Header::SP3a:v==1?SP3Header::SP3b:v==2?SP3Header::SP3c:SP3Header::SP3d; h.containsVelocity=g.chance(0.5); h.allowSP3aEvents=false; h.epochInterval=g.chance(0.5)?900.0:q(g,3,0.5,1800); h.dataUsed=word(g,5,5); h.coordSystem=word(g,5,5); h.orbitType=word(g,3,3); h.agency=word(g,1,4); h.system=SP3SatID(-1,v==0?SatelliteSystem::GPS:SatelliteSystem::Mixed); { const TimeSystem tsl[]={TimeSystem::GPS,TimeSystem::UTC,TimeSystem::GLO,TimeSystem::GAL,TimeSystem::TAI,TimeSystem::QZS}; h.timeSystem=v==0?TimeSystem::Any:v<=2?tsl[g.range(0,1)]:tsl[g.range(0,5)]; } h.basePV=1.25; h.baseClk=1.025; int ns=g.range(1,v==3?40:24); for(int i=0;i<ns;i++) h.satList[SP3SatID(g.range(1,32),v==0||g.chance(0.6)?SatelliteSystem::GPS:SatelliteSystem::Glonass)]=g.range(0,14); for(int i=0;i<4;i++) h.comments.push_back(words(g,57));
    CommonTime t=CivilTime(g.range(2000,2020),g.range(1,12),g.range(1,28),g.range(0,23),g.range(0,59),g.chance(0.5)?0.0:q(g,2,0,59.9),h.timeSystem).convertToCommonTime(); h.time=t; int ne=0; vector<SP3SatID> sl; for(auto&s:h.satList) sl.push_back(s.first); bool newEp=true; size_t isv=0; 
    while((int)r.size()<n){ if(newEp){ SP3Data e; e.RecType='*'; e.time=t; ne++; r.push_back(e); newEp=false; isv=0; } SP3Data d; d.RecType='P'; d.sat=sl[isv]; d.time=t; for(int i=0;i<3;i++) d.x[i]=q(g,6,-29999,29999); d.clk=g.chance(0.1)?999999.999999:q(g,6,-999,999); for(int i=0;i<4;i++) d.sig[i]=g.range(0,99); d.clockEventFlag=g.chance(0.2); d.clockPredFlag=g.chance(0.2); d.orbitManeuverFlag=g.chance(0.2); d.orbitPredFlag=g.chance(0.2); d.correlationFlag=(v>=2)&&g.chance(0.3); for(int i=0;i<4;i++) d.sdev[i]=g.range(0,9999); for(int i=0;i<6;i++) d.correlation[i]=g.range(-999999,9999999); d.eventFlag=false; r.push_back(d);
      if(h.containsVelocity){ SP3Data vd=d; vd.RecType='V'; for(int i=0;i<3;i++) vd.x[i]=q(g,6,-39999,39999); vd.clk=q(g,6,-999,999); vd.correlationFlag=(v>=2)&&g.chance(0.3); r.push_back(vd);} 
      if(++isv>=sl.size()||g.chance(0.1)){ newEp=true; t+=g.chance(0.3)?q(g,2,0.25,900):900.0; } }
    h.numberOfEpochs=ne; }
  bool endMark(const SP3Data&){ return false; }
};
// ---- Yuma / SEM almanacs ---------------------------------------------------------------------------------
struct Yuma : TSet<YumaStream,YumaHeader,YumaData> {
  string hd(const YumaHeader&){ return ""; }
  string dd(const YumaData& d){ O o; o.k("p")<<d.PRN; o.k("h")<<d.SV_health; o.k("w")<<d.week; o.k("toa")<<(long)d.Toa; double v[]={d.ecc,d.i_total,d.OMEGAdot,d.OMEGA0,d.M0,d.AF0,d.AF1}; for(double x:v){ o<<","; o.low(x,10);} o.k("A")<<d.Ahalf; o.k("ar")<<d.w; return o.s; }
  Yuma(Rng& g,int n){ name="yuma"; hdr=false; for(int i=0;i<n;i++){ YumaData d; d.PRN=i%32+1; d.week=g.range(0,1023); d.SV_health=g.range(0,255); d.Toa=g.range(0,147)*4096; auto e=[&](int lo,int hi){ char b[40]; snprintf(b,40,"%s%lld.%09llde%lld",g.chance(0.5)?"-":"",(long long)g.range(1,9),(long long)g.range(0,999999999),(long long)g.range(lo,hi)); return strtod(b,0); }; d.ecc=std::fabs(e(-4,-2)); d.i_total=std::fabs(e(-1,-1)); d.i_offset=d.i_total-54.0*(gpstk::PI/180.0); d.OMEGAdot=e(-9,-8); d.Ahalf=q(g,6,5000,5200); d.OMEGA0=e(-1,0); d.w=q(g,9,-3,3); d.M0=e(-1,0); d.AF0=e(-5,-3); d.AF1=e(-12,-9); d.xmit_time=0; r.push_back(d);} }
};
struct Sem : TSet<SEMStream,SEMHeader,SEMData> {
  void onHeader(SEMStream& s){ s.header=h; }
  string hd(const SEMHeader& h){ O o; o.k("n")<<h.numRecords; o.k("t")<<strip(h.Title); o.k("w")<<h.week; o.k("toa")<<(long)h.Toa; return o.s; }
  string dd(const SEMData& d){ O o; o.k("p")<<d.PRN; o.k("svn")<<d.SVNnum; o.k("ura")<<d.URAnum; o.k("h")<<d.SV_health; o.k("c")<<d.satConfig; o.k("w")<<d.week; o.k("toa")<<(long)d.Toa; double v[]={d.ecc,d.i_offset,d.OMEGAdot,d.Ahalf,d.OMEGA0,d.w,d.M0,d.AF0,d.AF1}; for(double x:v){ o<<","; o.low(x,9);} return o.s; }
  Sem(Rng& g,int n){ name="sem"; h.numRecords=n; h.Title="CURRENT.ALM "+word(g,3,8); h.week=g.range(1,1023); h.Toa=g.range(0,147)*4096; for(int i=0;i<n;i++){ SEMData d; d.PRN=i%32+1; d.SVNnum=g.range(1,80); d.URAnum=g.range(0,15); d.SV_health=g.range(0,63); d.satConfig=g.range(1,11); d.week=h.week; d.Toa=h.Toa; d.xmit_time=0; auto e=[&](int lo,int hi){ char b[40]; snprintf(b,40,"%s0.%09llde%lld",g.chance(0.5)?"-":"",(long long)g.range(100000000,999999999),(long long)g.range(lo,hi)); return strtod(b,0); }; d.ecc=std::fabs(e(-3,-1)); d.i_offset=e(-2,-1)*gpstk::PI; d.OMEGAdot=e(-8,-8)*gpstk::PI; d.Ahalf=std::fabs(e(4,4)); d.OMEGA0=e(0,0)*gpstk::PI; d.w=e(0,0)*gpstk::PI; d.M0=e(0,0)*gpstk::PI; d.AF0=e(-5,-4); d.AF1=e(-11,-10); r.push_back(d);} }
};
// ---- IONEX --------------------------------------------------------------------------------------------------
struct Ionex : TSet<IonexStream,IonexHeader,IonexData> {
  void onHeader(IonexStream& s){ s.header=h; }
  bool endMark(const IonexData& d){ return !d.valid; }
  string hd(const IonexHeader& h){ O o; o.k("v")<<h.version; o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.descriptionList) o.k("d")<<strip(c); o.k("f")<<TQ(h.firstEpoch); o.k("l")<<TQ(h.lastEpoch); o.k("i")<<h.interval; o.k("n")<<h.numMaps; for(int i=0;i<3;i++){ o.k("h")<<h.hgt[i]<<"/"<<h.lat[i]<<"/"<<h.lon[i]; } o.k("e")<<h.exponent; o.k("mf")<<h.mappingFunction; o.k("el")<<h.elevation; o.k("r")<<h.baseRadius; o.k("aux")<<h.auxData; for(auto&b:h.svsmap) o.k("b")<<b.first.id<<"/"<<(int)b.first.system<<"/"<<b.second.system<<b.second.prn<<"/"<<b.second.bias<<"/"<<b.second.rms; return o.s; }
  string dd(const IonexData& d){ O o; if(!d.valid) return "end"; o.k("id")<<d.mapID; o.k("t")<<TQ(d.time); o.k("ty")<<d.type.type; o.k("dim")<<d.dim[0]<<"/"<<d.dim[1]<<"/"<<d.dim[2]; for(size_t i=0;i<d.data.size();i++){ o<<","; o.low(d.data(i),9);} return o.s; }
  Ionex(Rng& g,int n){ if(n<2) n=2; name="ionex"; h.version=1.0; h.fileType="IONOSPHERE MAPS"; h.system="GPS"; h.fileProgram=words(g,20); h.fileAgency=words(g,20); h.date="01-JAN-10 00:00"; h.descriptionList.push_back(words(g,60)); h.commentList.push_back(words(g,60)); CommonTime t=CivilTime(g.range(2000,2020),g.range(1,12),g.range(1,28),0,0,0,TimeSystem::GPS).convertToCommonTime(); h.firstEpoch=t; h.interval=3600; h.lastEpoch=t+(n-1)*3600.0; h.numMaps=n; h.mappingFunction="COSZ"; h.elevation=10; h.observablesUsed=words(g,60); h.numStations=g.range(1,200); h.numSVs=30; h.baseRadius=6371.0; h.mapDims=2; h.hgt[0]=450; h.hgt[1]=450; h.hgt[2]=0; int nla=g.range(2,5),nlo=g.range(3,35); h.lat[0]=50; h.lat[2]=-2.5; h.lat[1]=50-2.5*(nla-1); h.lon[0]=-80; h.lon[2]=5; h.lon[1]=-80+5.0*(nlo-1); h.exponent=-1; h.auxDataFlag=g.chance(0.5); if(h.auxDataFlag){ h.auxData="DIFFERENTIAL CODE BIASES"; int nb=g.range(1,6); for(int i=0;i<nb;i++){ bool gl=g.chance(0.3); int prn=g.range(1,gl?24:32); h.svsmap[SatID(prn,gl?SatelliteSystem::Glonass:SatelliteSystem::GPS)]=IonexHeader::DCB(gl?'R':'G',prn,(g.chance(0.3)?g.range(-99999999,99999999):g.range(-99999,99999))/1000.0,g.range(0,99999)/1000.0); } } h.valid=true; 
    for(int i=0;i<n;i++){ IonexData d; d.mapID=i+1; d.type=g.chance(0.8)?IonexData::TEC:IonexData::RMS; d.time=t; d.dim[0]=nla; d.dim[1]=nlo; d.dim[2]=1; d.exponent=-1; for(int k=0;k<3;k++){ d.lat[k]=h.lat[k]; d.lon[k]=h.lon[k]; d.hgt[k]=h.hgt[k]; } d.data.resize(nla*nlo,0.0); for(int k=0;k<nla*nlo;k++) d.data(k)=g.chance(0.05)?999.9:std::pow(10.0,-1)*(double)g.range(0,9998); d.valid=true; r.push_back(d); t+=3600.0; } }
};
// ---- ANTEX -----------------------------------------------------------------------------------------------------
struct Antex : TSet<AntexStream,AntexHeader,AntexData> {
  void onHeader(AntexStream& s){ s.header=h; }
  string hd(const AntexHeader& h){ O o; o.k("v")<<h.version; o.k("s")<<h.system; o.k("p")<<h.pcvType; for(auto&c:h.commentList) o.k("c")<<strip(c); return o.s; }
  string dd(const AntexData& d){ O o; o.k("ty")<<strip(d.type); o.k("sn")<<strip(d.serialNo); o.k("m")<<strip(d.method)<<"/"<<strip(d.agency)<<"/"<<d.noAntCalibrated; o.k("n")<<d.nFreq; o.k("az")<<d.azimDelta; for(int i=0;i<3;i++) o<<","<<d.zenRange[i]; for(auto&f:d.freqPCVmap){ o.k("f")<<f.first; for(int i=0;i<3;i++) o<<","<<f.second.PCOvalue[i]; o<<" az"<<f.second.hasAzimuth; for(auto&a:f.second.PCVvalue){ o<<" ["<<a.first<<"]"; for(auto&z:a.second) o<<","<<z.first<<":"<<z.second; } } return o.s; }
  Antex(Rng& g,int n){ name="antex"; h.version=1.3; h.system='M'; h.pcvType='A'; h.valid=AntexHeader::allValid13; if(g.chance(0.5)){ h.commentList.push_back(words(g,60)); h.valid|=AntexHeader::commentValid; } 
    for(int i=0;i<n;i++){ AntexData d; d.absolute=true; d.isRxAntenna=true; d.type="TRM"+word(g,5,5)+".00     NONE"; d.serialNo=g.chance(0.5)?"":word(g,1,20); d.method="ROBOT"; d.agency=words(g,20); d.noAntCalibrated=g.range(1,9); d.date="01-JAN-10"; bool az=g.chance(0.5); d.azimDelta=az?60.0:0.0; d.zenRange[0]=0; d.zenRange[1]=g.range(6,18)*5; d.zenRange[2]=5; d.nFreq=g.range(1,3); const char* fn[]={"G01","G02","R01"}; for(unsigned f=0;f<d.nFreq;f++){ AntexData::antennaPCOandPCVData p; for(int k=0;k<3;k++){ p.PCOvalue[k]=q(g,2,-99,99); p.PCOrms[k]=0; } p.hasAzimuth=az; for(double z=0;z<=d.zenRange[1]+0.01;z+=5) p.PCVvalue[-1.0][z]=q(g,2,-20,20); if(az) for(double a=0;a<=360.01;a+=60) for(double z=0;z<=d.zenRange[1]+0.01;z+=5) p.PCVvalue[a][z]=q(g,2,-20,20); d.freqPCVmap[fn[f]]=p; } d.valid=AntexData::allValid13; r.push_back(d);} }
};
// ---- SINEX: the whole file is one record ---------------------------------------------------------------------------
struct Sinex_ : Set {
  uint64_t seed; Sinex_(uint64_t s,int n):seed(s),ne(n){ name="sinex"; hdr=false; prefixDecodable=false; }
  int ne;
  static Sinex::Time st(Rng& g){ Sinex::Time t; t.year=g.range(0,20); t.doy=g.range(1,365); t.sod=g.range(0,86399); return t; }
  void fill(Sinex::Data& d){ Rng g(seed); d.header.creationAgency="IGS"; d.header.dataAgency="COD"; d.header.creationTime=st(g); d.header.dataTimeStart=st(g); d.header.dataTimeEnd=st(g); d.header.obsCode='P'; d.header.paramCount=g.range(0,99999); d.header.constraintCode='2'; d.header.solutionTypes="S";
    auto* b=new Sinex::Block<Sinex::SolutionEpoch>; for(int i=0;i<ne;i++){ Sinex::SolutionEpoch e; e.siteCode=word(g,4,4); e.pointCode=word(g,2,2); e.solutionId=word(g,4,4); e.obsCode='P'; e.startTime=st(g); e.endTime=st(g); e.meanTime=st(g); b->push_back(e);} d.blocks.push_back(b);
    auto* c=new Sinex::Block<Sinex::SolutionStatistics>; for(int i=0;i<g.range(1,4);i++){ Sinex::SolutionStatistics s; string w=word(g,5,20); s.infoType=w; s.infoValue=q(g,6,0,9999); c->push_back(s);} d.blocks.push_back(c); }
  string copy(const string& a,const string& b){ { Sinex::Stream i(a.c_str(),std::ios::in); Sinex::Stream o; o.open(b.c_str(),std::ios::out); Sinex::Data d; i>>d; if(i) o<<d; o.close(); } return sim::disk().get(b); }
  static string dd(Sinex::Data& d){ O o; o.k("h")<<(string)d.header; for(auto*b:d.blocks){ o.k("b")<<b->getTitle(); if(auto*e=dynamic_cast<Sinex::Block<Sinex::SolutionEpoch>*>(const_cast<Sinex::BlockBase*>(b))) for(auto&x:e->getData()) o<<"|"<<(string)x; if(auto*e=dynamic_cast<Sinex::Block<Sinex::SolutionStatistics>*>(const_cast<Sinex::BlockBase*>(b))) for(auto&x:e->getData()) o<<"|"<<(string)x; } return o.s; }
  int n(){ return 1; } string recDump(int){ Sinex::Data d; fill(d); string s=dd(d); return s; } string hdrDump(){ return ""; }
  struct R:Src{ Sinex::Stream st; Sinex::Data d; R(const string& p):st(p.c_str(),std::ios::in){} FFStream& s(){return st;} void reopen(const string& p){ st.open(p.c_str(),std::ios::in); } void header(){} void get(){ st>>d; } string dump(){ return dd(d);} string dumpHdr(){return "";} };
  struct W:Dst{ Sinex_* t; Sinex::Stream st; W(Sinex_* t_,const string& p,bool app):t(t_){ st.open(p.c_str(),app?(std::ios::out|std::ios::app):std::ios::out);} FFStream& s(){return st;} void header(bool){} void put(int){ Sinex::Data d; t->fill(d); st<<d; } void close(){ st.close(); } void reopen(const string& p,Set& o){ t=dynamic_cast<Sinex_*>(&o); st.open(p.c_str(),std::ios::out); } };
  std::unique_ptr<Src> reader(const string& p){ return std::unique_ptr<Src>(new R(p)); } std::unique_ptr<Dst> writer(const string& p,bool app,bool exc){ W* w=new W(this,p,app); if(exc) w->st.exceptions(std::ios::failbit); return std::unique_ptr<Dst>(w); }
};
// ---- BINEX ------------------------------------------------------------------------------------------------------------
struct BH{};
struct Binex : Set {
  vector<BinexData> r; static string dd(const BinexData& d){ O o; o.k("id")<<(long)d.getRecordID(); o.k("f")<<(long)d.getRecordFlags(); o.k("m"); for(unsigned char c:d.getMessageData()){ char b[4]; snprintf(b,4,"%02x",c); o<<b; } return o.s; }
  Binex(Rng& g,int n){ name="binex"; hdr=false; text=false; for(int i=0;i<n;i++){ BinexData::SyncByte fl=0; if(g.chance(0.5)) fl|=BinexData::eBigEndian; if(g.chance(0.4)) fl|=BinexData::eReverseReadable; if(g.chance(0.4)) fl|=BinexData::eEnhancedCRC; BinexData d(g.chance(0.5)?g.range(0,127):g.range(0,20000),fl); size_t off=0; int sz=g.chance(0.7)?g.range(0,40):g.chance(0.8)?g.range(41,400):g.range(3900,4300); string b; for(int k=0;k<sz;k++) b+=(char)g.range(0,255); if(sz) d.updateMessageData(off,b,b.size()); r.push_back(d);} }
  string copy(const string& a,const string& b){ { BinexStream i(a.c_str(),std::ios::in|std::ios::binary); BinexStream o; o.open(b.c_str(),std::ios::out|std::ios::binary); BinexData d; while(i>>d) o<<d; o.close(); } return sim::disk().get(b); }
  int n(){ return r.size(); } string recDump(int i){ return dd(r[i]); } string hdrDump(){ return ""; }
  struct R:Src{ BinexStream st; BinexData d; R(const string& p):st(p.c_str(),std::ios::in|std::ios::binary){} FFStream& s(){return st;} void reopen(const string& p){ st.open(p.c_str(),std::ios::in|std::ios::binary); } void header(){} void get(){ st>>d; } string dump(){ return dd(d);} string dumpHdr(){return "";} };
  struct W:Dst{ Binex* t; BinexStream st; W(Binex* t_,const string& p,bool app):t(t_){ st.open(p.c_str(),(app?(std::ios::out|std::ios::app):std::ios::out)|std::ios::binary);} FFStream& s(){return st;} void header(bool){} void put(int i){ st<<t->r[i]; } void close(){ st.close(); } void reopen(const string& p,Set& o){ t=dynamic_cast<Binex*>(&o); st.open(p.c_str(),std::ios::out|std::ios::binary); } };
  std::unique_ptr<Src> reader(const string& p){ return std::unique_ptr<Src>(new R(p)); } std::unique_ptr<Dst> writer(const string& p,bool app,bool exc){ W* w=new W(this,p,app); if(exc) w->st.exceptions(std::ios::failbit); return std::unique_ptr<Dst>(w); }
};
// ---- RINEX 2 files through the RINEX 3 classes ---------------------------------------------
// written by the RINEX 2 classes, read and copied by the RINEX 3 ones
struct RObs23 : Set { RObs2 in; vector<CommonTime> tm; 
  RObs23(Rng& g,int n):in(g,n){ name="rnx2obs3"; in.h.system=RinexSatID(-1,SatelliteSystem::GPS); for(auto&d:in.r){ std::map<SatID,RinexObsData::RinexObsTypeMap> m; if(d.epochFlag<2){ for(auto&o:d.obs){ SatID s=o.first; s.system=SatelliteSystem::GPS; m[s]=o.second; } d.obs.clear(); for(auto&x:m) d.obs[x.first]=x.second; d.numSvs=d.obs.size(); } }
    for(auto&d:in.r) tm.push_back(d.time); for(size_t i=1;i<in.r.size();i++) if(in.r[i].epochFlag>=2&&g.chance(0.6)){ in.r[i].time=CommonTime::BEGINNING_OF_TIME; tm[i]=tm[i-1]; } } // event records need no time of their own
  int n(){ return in.r.size(); }
  static string hd(const Rinex3ObsHeader& h){ O o; o.k("ver")<<h.version; o.k("prog")<<h.fileProgram; o.k("ag")<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; o.k("mk")<<h.markerName; o.k("obs")<<h.observer; o.k("agy")<<h.agency; o.k("rec")<<h.recNo<<"/"<<h.recType<<"/"<<h.recVers; o.k("ant")<<h.antNo<<"/"<<h.antType; Triple p=h.antennaPosition,f=h.antennaDeltaHEN; for(int i=0;i<3;i++){ o.k("p")<<p[i]; o.k("f")<<f[i]; } for(auto&t:h.R2ObsTypes) o.k("ot")<<t; o.k("first")<<TQ(h.firstObs.convertToCommonTime()); return o.s; }
  string hdrDump(){ RinexObsHeader& h=in.h; O o; o.k("ver")<<h.version; o.k("prog")<<h.fileProgram; o.k("ag")<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; o.k("mk")<<h.markerName; o.k("obs")<<h.observer; o.k("agy")<<h.agency; o.k("rec")<<h.recNo<<"/"<<h.recType<<"/"<<h.recVers; o.k("ant")<<h.antNo<<"/"<<h.antType; Triple p=h.antennaPosition,f=h.antennaOffset; for(int i=0;i<3;i++){ o.k("p")<<p[i]; o.k("f")<<f[i]; } for(auto&t:h.obsTypeList) o.k("ot")<<t.type; o.k("first")<<TQ(h.firstObs); return o.s; }
  static string dd(const Rinex3ObsData& d){ O o; o.k("t")<<TQ(d.time); o.k("f")<<d.epochFlag; o.k("n")<<d.numSVs; o.k("clk")<<d.clockOffset; for(auto&s:d.obs){ o.k("sv")<<s.first.toString(); for(auto&x:s.second) o<<" "<<x.data<<","<<(x.lliBlank?0:x.lli)<<","<<(x.ssiBlank?0:x.ssi); } if(d.epochFlag>=2&&d.epochFlag<=5){ for(auto&c:d.auxHeader.commentList) o.k("c")<<c; if(d.auxHeader.valid.isSet(Rinex3ObsHeader::validMarkerName)) o.k("mk")<<d.auxHeader.markerName; } return o.s; }
  string recDump(int i){ const RinexObsData& d=in.r[i]; O o; o.k("t")<<TQ(tm[i]); o.k("f")<<d.epochFlag; o.k("n")<<d.numSvs; o.k("clk")<<d.clockOffset; for(auto&s:d.obs){ o.k("sv")<<RinexSatID(s.first).toString(); for(auto&t:in.h.obsTypeList){ auto it=s.second.find(t); if(it==s.second.end()) o<<" 0,0,0"; else o<<" "<<it->second.data<<","<<it->second.lli<<","<<it->second.ssi; } } if(d.epochFlag>=2&&d.epochFlag<=5){ for(auto&c:d.auxHeader.commentList) o.k("c")<<c; if(d.auxHeader.valid&RinexObsHeader::markerNameValid) o.k("mk")<<d.auxHeader.markerName; } return o.s; }
  struct R:Src{ Rinex3ObsStream st; Rinex3ObsHeader h; Rinex3ObsData d; R(const string& p):st(p.c_str(),std::ios::in){} FFStream& s(){return st;} void reopen(const string& p){ st.open(p.c_str(),std::ios::in); } void header(){ st>>h; } void get(){ st>>d; } string dump(){ return dd(d);} string dumpHdr(){return hd(h);} };
  struct W:Dst{ std::unique_ptr<Dst> w; W(std::unique_ptr<Dst> x):w(std::move(x)){} FFStream& s(){return w->s();} void header(bool r){ w->header(r);} void put(int i){ w->put(i);} void close(){ w->close();} void reopen(const string& p,Set& o){ w->reopen(p,dynamic_cast<RObs23*>(&o)->in); } };
  std::unique_ptr<Src> reader(const string& p){ return std::unique_ptr<Src>(new R(p)); } std::unique_ptr<Dst> writer(const string& p,bool app,bool exc){ return std::unique_ptr<Dst>(new W(in.writer(p,app,exc))); }
  string copy(const string& a,const string& b){ { Rinex3ObsStream i(a.c_str(),std::ios::in); Rinex3ObsStream o; o.open(b.c_str(),std::ios::out); Rinex3ObsHeader hh; Rinex3ObsData d; i>>hh; o<<hh; while(i>>d) o<<d; o.close(); } return sim::disk().get(b); }
};
struct RNav23 : Set { RNav2 in; RNav23(Rng& g,int n):in(g,n){ name="rnx2nav3"; } int n(){ return in.r.size(); }
  static string hd(const Rinex3NavHeader& h){ O o; o.k("ver")<<h.version; o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; if(h.valid&Rinex3NavHeader::validLeapSeconds) o.k("l")<<h.leapSeconds; return o.s; }
  string hdrDump(){ auto&h=in.h; O o; o.k("ver")<<h.version; o.k("p")<<h.fileProgram<<"/"<<h.fileAgency; for(auto&c:h.commentList) o.k("c")<<c; if(h.valid&RinexNavHeader::leapSecondsValid) o.k("l")<<h.leapSeconds; return o.s; }
  string recDump(int i){ const RinexNavData& d=in.r[i]; O o; o.k("t")<<TQ(d.time); o.k("prn")<<d.PRNID; o.k("x")<<d.sf1XmitTime; o.k("wk")<<d.toeWeek; o.k("cf")<<d.codeflgs; o.k("h")<<d.health; o.k("l2p")<<d.L2Pdata; double v[]={d.accuracy,d.IODC,d.IODE,d.af0,d.af1,d.af2,d.Tgd,d.Cuc,d.Cus,d.Crc,d.Crs,d.Cic,d.Cis,d.Toe,d.M0,d.dn,d.ecc,d.Ahalf,d.OMEGA0,d.i0,d.w,d.OMEGAdot,d.idot,d.fitint}; for(double x:v) o<<","<<x; return o.s; }
  static string dd(const Rinex3NavData& d){ O o; o.k("t")<<TQ(d.time); o.k("prn")<<d.PRNID; o.k("x")<<(long)d.xmitTime; o.k("wk")<<d.weeknum; o.k("cf")<<d.codeflgs; o.k("h")<<d.health; o.k("l2p")<<d.L2Pdata; double v[]={d.accuracy,d.IODC,d.IODE,d.af0,d.af1,d.af2,d.Tgd,d.Cuc,d.Cus,d.Crc,d.Crs,d.Cic,d.Cis,d.Toe,d.M0,d.dn,d.ecc,d.Ahalf,d.OMEGA0,d.i0,d.w,d.OMEGAdot,d.idot,d.fitint}; for(double x:v) o<<","<<x; return o.s; }
  struct R:Src{ Rinex3NavStream st; Rinex3NavHeader h; Rinex3NavData d; R(const string& p):st(p.c_str(),std::ios::in){} FFStream& s(){return st;} void reopen(const string& p){ st.open(p.c_str(),std::ios::in); } void header(){ st>>h; } void get(){ st>>d; } string dump(){ return dd(d);} string dumpHdr(){return hd(h);} };
  struct W:Dst{ std::unique_ptr<Dst> w; W(std::unique_ptr<Dst> x):w(std::move(x)){} FFStream& s(){return w->s();} void header(bool r){ w->header(r);} void put(int i){ w->put(i);} void close(){ w->close();} void reopen(const string& p,Set& o){ w->reopen(p,dynamic_cast<RNav23*>(&o)->in); } };
  std::unique_ptr<Src> reader(const string& p){ return std::unique_ptr<Src>(new R(p)); } std::unique_ptr<Dst> writer(const string& p,bool app,bool exc){ return std::unique_ptr<Dst>(new W(in.writer(p,app,exc))); }
  string copy(const string& a,const string& b){ { Rinex3NavStream i(a.c_str(),std::ios::in); Rinex3NavStream o; o.open(b.c_str(),std::ios::out); Rinex3NavHeader hh; Rinex3NavData d; i>>hh; o<<hh; while(i>>d) o<<d; o.close(); } return sim::disk().get(b); }
};
const vector<string>& names(){ static const vector<string>* v=new vector<string>{"rnxobs2","rnxnav2","rnxmet","rnxclk2","rnxobs3","rnxnav3","rnxclk3","sp3","yuma","sem","ionex","antex","sinex","binex","rnx2obs3","rnx2nav3"}; return *v; }
std::unique_ptr<Set> make(const string& nm,uint64_t seed,int n){ Rng g(seed); Set* s=nullptr; if(n<1) n=1;
  if(nm=="rnxobs2") s=new RObs2(g,n); else if(nm=="rnxnav2") s=new RNav2(g,n); else if(nm=="rnxmet") s=new RMet(g,n); else if(nm=="rnxclk2") s=new RClk2(g,n); else if(nm=="rnxobs3") s=new RObs3(g,n); else if(nm=="rnxnav3") s=new RNav3(g,n); else if(nm=="rnxclk3") s=new RClk3(g,n); else if(nm=="sp3") s=new Sp3(g,n); else if(nm=="yuma") s=new Yuma(g,n); else if(nm=="sem") s=new Sem(g,n); else if(nm=="ionex") s=new Ionex(g,n); else if(nm=="antex") s=new Antex(g,n); else if(nm=="rnx2obs3") s=new RObs23(g,n); else if(nm=="rnx2nav3") s=new RNav23(g,n); else if(nm=="sinex") s=new Sinex_(seed,n); else s=new Binex(g,n); s->implicitHdr=!(nm=="rnxclk3"||nm=="sp3"||nm=="yuma"||nm=="sem"||nm=="sinex"); s->lookahead=nm=="sp3"; s->appendable=nm!="sp3";
  return std::unique_ptr<Set>(s); }
}
