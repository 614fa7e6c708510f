// C14: legacy GPS subframes broadcast by simulated satellites through a noisy
// channel; the receiver side is the real parity check, EngEphemeris, EngAlmanac.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <cmath>
#include <cstring>
#include <memory>
#include "EngNav.hpp"
#include "EngEphemeris.hpp"
#include "RinexNavData.hpp"
#include "Rinex3NavData.hpp"
#include "GPSEphemeris.hpp"
#include "EngAlmanac.hpp"
#include "GPSWeekSecond.hpp"
#include "GNSSconstants.hpp"
#include <sstream>
#include <iostream>
#include <tuple>
#include "OrbSysStore.hpp"
#include "OrbDataSysFactory.hpp"
#include "OrbSysGpsL_51.hpp"
#include "OrbSysGpsL_52.hpp"
#include "OrbSysGpsL_55.hpp"
#include "OrbSysGpsL_56.hpp"
#include "OrbSysGpsL_63.hpp"
#include "OrbSysGpsC_30.hpp"
#include "OrbSysGpsC_32.hpp"
#include "OrbSysGpsC_33.hpp"
#include "OrbAlmStore.hpp"
#include "OrbAlmGen.hpp"
#include "orbits.hpp"
#include "CNavDataElementStore.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::map; using std::vector;
namespace {
typedef int64_t I;
// ---- the sending side, written from IS-GPS-200 ----
struct F { const char* n; int p2,ppi; bool sg; int b1,n1,b2,n2; };
struct SF { uint32_t w[10]; };
void putBits(SF& s,int b,int n,uint64_t v){ for(int i=0;i<n;i++){ int bit=b-1+i, w=bit/30, k=bit%30; uint32_t m=1u<<(29-k); if((v>>(n-1-i))&1) s.w[w]|=m; else s.w[w]&=~m; } }
void put(SF& s,const F& f,I v){ uint64_t u=(uint64_t)v; if(f.n2){ putBits(s,f.b1,f.n1,(u>>f.n2)&((1ull<<f.n1)-1)); putBits(s,f.b2,f.n2,u&((1ull<<f.n2)-1)); } else putBits(s,f.b1,f.n1,u&((1ull<<f.n1)-1)); }
double val(const F& f,I v){ double d=(double)v; for(int i=0;i<f.ppi;i++) d*=PI; for(int i=0;i>f.ppi;i--) d/=PI; return std::ldexp(d,f.p2); }
I rnd(Rng& g,const F& f){ int n=f.n1+f.n2; I span=(I)1<<n; I lo=f.sg?-(span/2):0, hi=lo+span-1; if(g.chance(0.15)) return lo; if(g.chance(0.15)) return hi; if(g.chance(0.1)) return f.sg?-1:0; return g.range(lo,hi); }
const int pm[6][15]={{1,2,3,5,6,10,11,12,13,14,17,18,20,23,0},{2,3,4,6,7,11,12,13,14,15,18,19,21,24,0},{1,3,4,5,7,8,12,13,14,15,16,19,20,22,0},{2,4,5,6,8,9,13,14,15,16,17,20,21,23,0},{1,3,5,6,7,9,10,14,15,16,17,18,21,22,24},{3,5,6,8,9,10,11,13,15,19,22,23,24,0,0}};
uint32_t par(uint32_t w,int d29,int d30){ uint32_t p=0; for(int k=0;k<6;k++){ int x=(k==0||k==2||k==5)?d29:d30; for(int i=0;i<15&&pm[k][i];i++) x^=(w>>(30-pm[k][i]))&1; p=(p<<1)|x; } return p; }
// parity of all ten words, the last two data bits of words 2 and 10 making D29=D30=0
void seal(SF& s){ int d29=0,d30=0; for(int i=0;i<10;i++){ uint32_t w=s.w[i]&0x3FFFFFC0; if(i==1||i==9){ w&=~0xC0u; for(uint32_t t=0;t<4;t++){ uint32_t x=w|(t<<6); if((par(x,d29,d30)&3)==0){ w=x; break; } } } w|=par(w,d29,d30); s.w[i]=w; d29=(w>>1)&1; d30=w&1; } }
const F eph1[]={{"code",0,0,0,71,2,0,0},{"ura",0,0,0,73,4,0,0},{"health",0,0,0,77,6,0,0},{"l2p",0,0,0,91,1,0,0},{"tgd",-31,0,1,197,8,0,0},{"af2",-55,0,1,241,8,0,0},{"af1",-43,0,1,249,16,0,0},{"af0",-31,0,1,271,22,0,0}};
const F eph2[]={{"crs",-5,0,1,69,16,0,0},{"dn",-43,1,1,91,16,0,0},{"m0",-31,1,1,107,8,121,24},{"cuc",-29,0,1,151,16,0,0},{"ecc",-33,0,0,167,8,181,24},{"cus",-29,0,1,211,16,0,0},{"ahalf",-19,0,0,227,8,241,24},{"fit",0,0,0,287,1,0,0},{"aodo",0,0,0,288,5,0,0}};
const F eph3[]={{"cic",-29,0,1,61,16,0,0},{"omega0",-31,1,1,77,8,91,24},{"cis",-29,0,1,121,16,0,0},{"i0",-31,1,1,137,8,151,24},{"crc",-5,0,1,181,16,0,0},{"w",-31,1,1,197,8,211,24},{"omegadot",-43,1,1,241,24,0,0},{"idot",-43,1,1,279,14,0,0}};
const F almf[]={{"ecc",-21,0,0,69,16,0,0},{"toa",12,0,0,91,8,0,0},{"ioff",-19,1,1,99,16,0,0},{"omegadot",-38,1,1,121,16,0,0},{"health",0,0,0,137,8,0,0},{"ahalf",-11,0,0,151,24,0,0},{"omega0",-23,1,1,181,24,0,0},{"w",-23,1,1,211,24,0,0},{"m0",-23,1,1,241,24,0,0},{"af0",-20,0,1,271,8,290,3},{"af1",-38,0,1,279,11,0,0}};
const F utcf[]={{"a0",-30,0,1,69,8,0,0},{"a1",-27,-1,1,77,8,0,0},{"a2",-24,-2,1,91,8,0,0},{"a3",-24,-3,1,99,8,0,0},{"b0",11,0,1,107,8,0,0},{"b1",14,-1,1,121,8,0,0},{"b2",16,-2,1,129,8,0,0},{"b3",16,-3,1,137,8,0,0},{"A1",-50,0,1,151,24,0,0},{"A0",-30,0,1,181,24,211,8},{"tot",12,0,0,219,8,0,0},{"dtls",0,0,1,241,8,0,0},{"dn",0,0,0,257,8,0,0},{"dtlsf",0,0,1,271,8,0,0}};
const I WEEK=604800, HALF=302400;
void head(SF& s,int id,I how,int tlm,int alert){ memset(&s,0,sizeof s); putBits(s,1,8,0x8b); putBits(s,9,14,tlm); putBits(s,31,17,(how/6)%100800); putBits(s,48,2,alert); putBits(s,50,3,id); }
// one issue of ephemeris data of one satellite
struct Issue { int sat,n; int iodc,iode; I ref; I toe,toc; map<string,I> v; }; // toe, toc: seconds since the reference week
struct Sky { uint64_t seed; int w0; Sky(uint64_t s,int w):seed(s),w0(w){}
  // data set number n of a satellite, first broadcast at begin(n)
  I begin(int sat,int n) const { Rng g(seed+sat*7919); I t=(I)g.range(0,1)*WEEK+g.range(0,80)*7200; if(g.chance(0.3)) t=WEEK-7200*g.range(0,2); return t+7200*n; }
  Issue issue(int sat,int n) const { Rng g(seed+sat*7919+(n+1)*104729); Issue s; s.sat=sat; s.n=n; bool same=g.chance(0.12); s.iode=(21+sat*31+n*7)%240; s.iodc=s.iode+256*g.range(0,3); s.ref=begin(sat,n); s.toe=s.ref+7200; if(g.chance(0.2)) s.toe-=16; s.toc=s.toe; if(g.chance(0.1)) s.toc=s.toe-16*g.range(1,3); (void)same;
    for(auto&f:eph1) s.v[f.n]=rnd(g,f); for(auto&f:eph2) s.v[f.n]=rnd(g,f); for(auto&f:eph3) s.v[f.n]=rnd(g,f); if(g.chance(0.5)){ s.v["health"]=0; } s.v["fit"]=g.chance(0.3); if(s.v["fit"]&&g.chance(0.7)){ int lo=g.pick(vector<int>{240,248,496,497,504,511,752,757,1021,240,761,1012}); s.iodc=lo+(lo==496||lo==511||lo==757?0:g.range(0,2)); s.iode=s.iodc&255; }
    s.v["ecc"]=g.range(0,(I)(0.03*8589934592.0)); s.v["ahalf"]=(I)(g.range(5140000,5170000)/1000.0*524288.0); return s; }
  SF sub(const Issue& s,int id,I t) const { SF f; Rng g(seed^(uint64_t)(t*8+id)*2654435761u); I how=(t+6)%WEEK; head(f,id,how,g.range(0,0x3fff),g.range(0,3)); Issue q=s;
    if(id==1){ for(auto&x:eph1) put(f,x,q.v[x.n]); putBits(f,61,10,(w0+t/WEEK)%1024); putBits(f,83,2,s.iodc>>8); putBits(f,211,8,s.iodc&255); putBits(f,219,16,(s.toc%WEEK)/16); putBits(f,92,23,g.next()); putBits(f,121,24,g.next()); }
    if(id==2){ for(auto&x:eph2) put(f,x,q.v[x.n]); putBits(f,61,8,s.iode); putBits(f,271,16,(s.toe%WEEK)/16); }
    if(id==3){ for(auto&x:eph3) put(f,x,q.v[x.n]); putBits(f,271,8,s.iode); }
    seal(f); return f; } };
struct Page { int sv,id; map<string,I> v; vector<int> h; string msg; int wna=0; I t; };
struct Alm { uint64_t seed; int w0;
  Page page(int sv,int edition,I t) const { Rng g(seed+sv*65537+edition*257); Page p; p.sv=sv; p.t=t; p.id=(sv>=1&&sv<=24)||sv==51?5:4; if(sv<=32) for(auto&f:almf) p.v[f.n]=rnd(g,f); if(sv<=32){ p.v["ahalf"]=(I)(g.range(5140,5170)*2048); p.v["ecc"]=g.range(0,62914); p.v["toa"]=g.range(0,147); }
    if(sv==51) for(int i=0;i<24;i++) p.h.push_back(g.range(0,63)); if(sv==63){ for(int i=0;i<32;i++) p.h.push_back(g.range(0,15)); for(int i=0;i<8;i++) p.h.push_back(g.range(0,63)); } if(sv==56) for(auto&f:utcf) p.v[f.n]=rnd(g,f); if(sv==56) p.v["tot"]=g.range(0,147); if(sv==51) p.v["toa"]=g.range(0,147); p.v["dwt"]=g.range(-60,60); p.v["dwl"]=g.range(-120,120); p.v["dwa"]=g.range(-1,1); if(sv==55) for(int i=0;i<22;i++) p.msg+=(char)('A'+g.range(0,25)); return p; }
  SF sub(const Page& p0,int badPre) const { Page p=p0; SF f; head(f,p.id,(p.t+6)%WEEK,77,1); if(badPre) putBits(f,1,8,0x8b^(1<<(badPre%8))); putBits(f,61,2,1); putBits(f,63,6,p.sv); int wk=w0+(int)(p.t/WEEK);
    if(p.sv>=1&&p.sv<=32) for(auto&x:almf) put(f,x,p.v[x.n]);
    if(p.sv==51){ putBits(f,69,8,p.v["toa"]); putBits(f,77,8,(wk+p.v["dwa"])&255); const int st[6]={91,121,151,181,211,241}; for(int i=0;i<24;i++) putBits(f,st[i/4]+6*(i%4),6,p.h[i]); }
    if(p.sv==63){ int b=69; for(int i=0;i<32;i++){ putBits(f,b,4,p.h[i]); b+=4; if(i==3) b=91; else if(i>3&&(i-4)%6==5) b=91+30*((i-4)/6+1); } const int hb[8]={229,241,247,253,259,271,277,283}; for(int i=0;i<8;i++) putBits(f,hb[i],6,p.h[32+i]); }
    if(p.sv==56){ for(auto&x:utcf) put(f,x,p.v[x.n]); putBits(f,227,8,(wk+p.v["dwt"])&255); putBits(f,249,8,(wk+p.v["dwl"])&255); }
    if(p.sv==55){ int k=0; for(int w=2;w<10&&k<22;w++) for(int q=(w==2?1:0);q<3&&k<22;q++){ if(w==9&&q==2) break; putBits(f,w*30+1+8*q,8,(unsigned char)p.msg[k++]); } }
    seal(f); return f; } };
string num(double d){ char b[64]; snprintf(b,64,"%.17g",d); return b; }
bool near(double a,double b){ return std::fabs(a-b)<=1e-13*std::max(std::fabs(a),std::fabs(b))+1e-300; }
int fitOf(int iodc,int fit){ if(!fit) return 4; if(iodc>=240&&iodc<=247) return 8; if((iodc>=248&&iodc<=255)||iodc==496) return 14; if((iodc>=497&&iodc<=503)||(iodc>=1021&&iodc<=1023)) return 26; if(iodc>=504&&iodc<=510) return 50; if(iodc==511||(iodc>=752&&iodc<=756)) return 74; if(iodc>=757&&iodc<=763) return 98; if((iodc>=764&&iodc<=767)||(iodc>=1008&&iodc<=1010)) return 122; if(iodc>=1011&&iodc<=1020) return 146; return 6; }
CommonTime T(int w0,I t){ t+=500*WEEK; w0-=500; return GPSWeekSecond(w0+(int)(t/WEEK),(double)(t%WEEK),TimeSystem::GPS); }
string xs(const Xvt& x){ char b[300]; snprintf(b,300,"%.17g %.17g %.17g v %.17g %.17g %.17g c %.17g %.17g %.17g",x.x[0],x.x[1],x.x[2],x.v[0],x.v[1],x.v[2],x.clkbias,x.clkdrift,x.relcorr); return b; }

Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op c("!cfg"); c.set("_seed",g.next()>>1); int ns=g.range(1,3); c.set("_ns",ns); int w0=g.range(1100,2400); if(g.chance(0.2)) w0=g.pick(vector<int>{1023,1024,2047,2046,2048,1279,1280}); c.set("_w0",w0); c.set("skew",g.chance(0.2)?g.range(-400,400):0); c.set("upright",g.chance(0.6)); p.push_back(c); Sky sky(c.i("_seed"),w0);
  int nsub=g.range(6,40); double loss=g.pick(vector<double>{0,0.15,0.4}), dup=g.pick(vector<double>{0,0.2}), dmg=g.pick(vector<double>{0,0.1,0.3}); bool reorder=g.chance(0.25); struct D { double at; Op o; }; vector<D> d;
  int al=g.chance(0.6);
  for(int s=0;s<ns;s++){ I cut=sky.begin(s,1); I t=cut-30*g.range(0,4); if(g.chance(0.4)) t=(cut/WEEK)*WEEK+WEEK-30*g.range(1,4); t-=t%30; if(t<0) t=0; int mode=g.chance(0.25); for(int i=0;i<nsub/ns;i++){ int id=1+i%5; I at=t+30*(i/5)+6*(id-1); if(i%15==14&&g.chance(0.3)) t+=7200-30*2; Op o(id<=3?"eph":"page"); o.set("sat",s); o.set("t",at); if(id<=3){ o.set("id",id); if(mode) o.set("np",1); } else { if(!al) continue; int sv=g.pick(vector<int>{1,2,3,(int)g.range(4,32),51,56,63,55,52,57,60,0}); if(g.chance(0.08)) sv=g.range(33,50); o.set("sv",sv); o.set("ed",g.range(0,2)); if(g.chance(0.04)) o.set("pre",g.range(1,8)); } if(g.chance(loss)) { d.push_back({(double)at,Op("lost")}); continue; } if(g.chance(dmg)){ o.set("word",g.range(0,9)); o.set("flips",g.range(1,3)); o.set("fs",g.next()>>40); } double del=reorder?g.unit()*40:0; d.push_back({at+del,o}); if(g.chance(dup)) d.push_back({at+del+g.unit()*60,o}); } }
  int nq=g.range(1,4); double lo=1e18,hi=0; for(auto&x:d){ lo=std::min(lo,x.at); hi=std::max(hi,x.at); } for(int i=0;i<nq;i++){ Op o("inc"); o.set("sat",g.range(0,ns-1)); o.set("t",(I)(lo+g.unit()*(hi-lo))); if(g.chance(0.4)) d.push_back({lo+g.unit()*(hi-lo),o}); }
  std::stable_sort(d.begin(),d.end(),[](const D&a,const D&b){return a.at<b.at;}); for(auto&x:d) p.push_back(x.o); return p; }

struct Rx { bool have[3]={0,0,0}; Issue is[3]; SF f[3]; I t[3]={0,0,0}; };
struct Run { Sky sky; Alm alm; int skew; bool up; EngEphemeris eph[3]; Rx rx[3]; EngAlmanac al; map<int,Page> pages; Page utc,p51,p63; bool hu=false,h51=false,h63=false;
  Run(const Op& c):sky(c.i("_seed"),c.i("_w0",1500)),skew(c.i("skew")),up(c.i("upright",1)){ alm.seed=c.i("_seed")+99; alm.w0=sky.w0; }
  void bad(const string& c,const string& d){ fail("subframe-"+c,d); }
  void field(const char* n,double got,double want){ if(!near(got,want)) bad(string("eph-")+n,string(n)+" is "+num(got)+" instead of "+num(want)); }
  void checkSet(EngEphemeris& e,const Issue& s0,I t1,bool how,const SF* f,const I* tt){ Issue s=s0; auto V=[&](const char* n)->double{ for(auto&x:eph1) if(!strcmp(x.n,n)) return val(x,s.v[n]); for(auto&x:eph2) if(!strcmp(x.n,n)) return val(x,s.v[n]); for(auto&x:eph3) if(!strcmp(x.n,n)) return val(x,s.v[n]); return 0; };
    field("iodc",e.getIODC(),s.iodc); field("iode",e.getIODE(),s.iode); field("code flags",e.getCodeFlags(),V("code")); field("accuracy flag",e.getAccFlag(),V("ura")); field("health",e.getHealth(),V("health")); field("L2P",e.getL2Pdata(),V("l2p")); field("Tgd",e.getTgd(),V("tgd")); field("af0",e.getAf0(),V("af0")); field("af1",e.getAf1(),V("af1")); field("af2",e.getAf2(),V("af2"));
    field("Crs",e.getCrs(),V("crs")); field("dn",e.getDn(),V("dn")); field("M0",e.getM0(),V("m0")); field("Cuc",e.getCuc(),V("cuc")); field("ecc",e.getEcc(),V("ecc")); field("Cus",e.getCus(),V("cus")); field("sqrtA",e.getAhalf(),V("ahalf")); field("fit flag",e.getFitInt(),V("fit")); field("AODO",e.getAODO(),900*V("aodo"));
    field("Cic",e.getCic(),V("cic")); field("OMEGA0",e.getOmega0(),V("omega0")); field("Cis",e.getCis(),V("cis")); field("i0",e.getI0(),V("i0")); field("Crc",e.getCrc(),V("crc")); field("w",e.getW(),V("w")); field("OMEGAdot",e.getOmegaDot(),V("omegadot")); field("idot",e.getIDot(),V("idot"));
    field("Toe",e.getToe(),(double)(s.toe%WEEK)); field("Toc",e.getToc(),(double)(s.toc%WEEK)); field("week",e.getFullWeek(),sky.w0+t1/WEEK); field("PRN",e.getPRNID(),s.sat+5);
    if(e.getEphemerisEpoch()!=T(sky.w0,s.toe)) bad("eph-toe","the ephemeris epoch is "+num(e.getEphemerisEpoch()-T(sky.w0,s.toe))+" s away from the one broadcast, sent at second "+std::to_string(t1%WEEK)+" with Toe "+std::to_string(s.toe%WEEK)); if(e.getEpochTime()!=T(sky.w0,s.toc)) bad("eph-toc","the clock epoch is "+num(e.getEpochTime()-T(sky.w0,s.toc))+" s away from the one broadcast, sent at second "+std::to_string(t1%WEEK)+" with Toc "+std::to_string(s.toc%WEEK));
    int fh=fitOf(s.iodc,(int)s.v["fit"]); if(e.getFitInterval()!=fh) bad("eph-fit","the fit interval of IODC "+std::to_string(s.iodc)+" is "+std::to_string(e.getFitInterval())+" instead of "+std::to_string(fh)); BrcKeplerOrbit o=e.getOrbit(); double b=o.getBeginningOfFitInterval()-T(sky.w0,s.toe), en=o.getEndOfFitInterval()-T(sky.w0,s.toe); if(b!=-1800.0*fh||en!=1800.0*fh) bad("eph-fit","the fit interval of "+std::to_string(fh)+" h runs from "+num(b)+" to "+num(en)+" s around Toe");
    if(how) for(int k=0;k<3;k++){ field("HOW",e.getHOWTime(k+1),(double)((tt[k]+6)%WEEK)); field("TLM",e.getTLMMessage(k+1),(f[k].w[0]>>8)&0x3fff); field("alert",e.getASAlert(k+1),(f[k].w[1]>>11)&3); }
    EngEphemeris ref; for(int k=0;k<3;k++){ SF q=sky.sub(s,k+1,t1-t1%30+6*k); ref.addSubframe(q.w,sky.w0+(int)((t1-t1%30)/WEEK),s.sat+5,1); } for(int k=-1;k<2;k++){ CommonTime t=T(sky.w0,s.toe+3600*k); Xvt xe=e.svXvt(t); string a=xs(xe),c=xs(ref.svXvt(t)); if(a!=c) bad("eph-xvt","the position is "+a+" instead of "+c);
      if(V("ahalf")>2500){ orb::Kep q; q.A=V("ahalf")*V("ahalf"); q.e=V("ecc"); q.M0=V("m0"); q.dn=V("dn"); q.O0=V("omega0"); q.Od=V("omegadot"); q.i0=V("i0"); q.id=V("idot"); q.w=V("w"); q.Cuc=V("cuc"); q.Cus=V("cus"); q.Crc=V("crc"); q.Crs=V("crs"); q.Cic=V("cic"); q.Cis=V("cis"); q.toe=s.toe%WEEK; q.af0=V("af0"); q.af1=V("af1"); q.af2=V("af2"); string d=orb::check(q,3600*k,s.toe+3600*k-s.toc,xe,1e-3); if(!d.empty()) bad("eph-orbit",d); probe("orbit_checked"); } } }
  // the same data set taken through the other representations of an ephemeris
  void checkConv(EngEphemeris& e,const Issue& s,I t1){ Rng g(sky.seed+s.n*31+t1); int m=g.range(0,5); string w; EngEphemeris c; bool full=false; const int fh=fitOf(s.iodc,(int)const_cast<Issue&>(s).v["fit"]); CommonTime toe=T(sky.w0,s.toe);
    try { if(m==0){ w="loadData"; full=true; unsigned short tlm[3]; long how[3]; short as[3]; for(int k=0;k<3;k++){ tlm[k]=e.getTLMMessage(k+1); how[k]=(long)e.getHOWTime(k+1); as[k]=e.getASAlert(k+1); }
        c.loadData("G",tlm,how,as,e.getTracker(),e.getPRNID(),e.getFullWeek(),e.getCodeFlags(),e.getAccFlag(),e.getHealth(),e.getIODC(),e.getL2Pdata(),e.getAODO(),e.getTgd(),e.getToc(),e.getAf2(),e.getAf1(),e.getAf0(),e.getIODE(),e.getCrs(),e.getDn(),e.getM0(),e.getCuc(),e.getEcc(),e.getCus(),e.getAhalf(),e.getToe(),e.getFitInt(),e.getCic(),e.getOmega0(),e.getCis(),e.getI0(),e.getCrc(),e.getW(),e.getOmegaDot(),e.getIDot()); }
      else if(m==1){ w="RinexNavData"; RinexNavData r(e); c=EngEphemeris(r); }
      else if(m==2){ w="Rinex3NavData"; Rinex3NavData r(e); c=EngEphemeris(r); }
      else if(m==3){ w="RinexNavData and Rinex3NavData"; RinexNavData r2(e); Rinex3NavData r(r2); c=EngEphemeris(r); }
      else { GPSEphemeris q; if(m==4){ w="Rinex3NavData to GPSEphemeris"; Rinex3NavData r(e); q=GPSEphemeris(r); } else { w="RinexNavData to GPSEphemeris"; RinexNavData r(e); q=GPSEphemeris(r); }
        if(q.ctToe!=toe||q.ctToc!=T(sky.w0,s.toc)) bad("conv-epoch",w+" gives the epochs Toe "+num(q.ctToe-toe)+" s and Toc "+num(q.ctToc-T(sky.w0,s.toc))+" s away from those broadcast, sent at second "+std::to_string(t1%WEEK)+" with Toe "+std::to_string(s.toe%WEEK));
        if(q.IODC!=s.iodc||q.IODE!=s.iode||q.health!=e.getHealth()||q.L2Pdata!=e.getL2Pdata()||q.codeflags!=e.getCodeFlags()||!near(q.Tgd,e.getTgd())||q.satID!=SatID(s.sat+5,SatelliteSystem::GPS)) bad("conv-field",w+" changes IODC, IODE, health, L2P, code flags, Tgd or the satellite");
        if(q.fitDuration!=fh) bad("conv-fit",w+" gives a fit interval of "+std::to_string(q.fitDuration)+" h instead of "+std::to_string(fh)); double ev=q.endValid-(toe+1800.0*fh); /* rounded up to the hour */ if(!(ev>=0&&ev<3600&&((s.toe%3600)||ev==0))) bad("conv-fit",w+" gives an ephemeris valid until "+num(q.endValid-toe)+" s after Toe, fit interval "+std::to_string(fh)+" h");
        for(int k=-1;k<2;k++){ CommonTime t=toe+3600*k; Xvt x=e.svXvt(t); Xvt y=q.svXvt(t); double d=0; for(int j=0;j<3;j++) d=std::max(d,std::fabs(x.x[j]-y.x[j])); if(d>1e-3||std::fabs(x.clkbias-y.clkbias)>1e-15) bad("conv-xvt",w+" moves the satellite by "+num(d)+" m"); } probe("converted"); return; }
    } catch(InvalidRequest& x){ bad("conv-throw",w+": "+x.what()); return; }
    if(c.getEphemerisEpoch()!=toe||c.getEpochTime()!=T(sky.w0,s.toc)) bad("conv-epoch",w+" gives the epochs Toe "+num(c.getEphemerisEpoch()-toe)+" s and Toc "+num(c.getEpochTime()-T(sky.w0,s.toc))+" s away from those broadcast, sent at second "+std::to_string(t1%WEEK)+" with Toe "+std::to_string(s.toe%WEEK));
    #define CF(n,G) if(!near(c.G(),e.G())) bad(string("conv-")+n,w+" changes "+n+" from "+num(e.G())+" to "+num(c.G()));
    CF("iodc",getIODC) CF("iode",getIODE) CF("code flags",getCodeFlags) CF("health",getHealth) CF("L2P",getL2Pdata) CF("Tgd",getTgd) CF("af0",getAf0) CF("af1",getAf1) CF("af2",getAf2) CF("Crs",getCrs) CF("dn",getDn) CF("M0",getM0) CF("Cuc",getCuc) CF("ecc",getEcc) CF("Cus",getCus) CF("sqrtA",getAhalf) CF("fit flag",getFitInt) CF("Cic",getCic) CF("OMEGA0",getOmega0) CF("Cis",getCis) CF("i0",getI0) CF("Crc",getCrc) CF("w",getW) CF("OMEGAdot",getOmegaDot) CF("idot",getIDot) CF("Toe",getToe) CF("Toc",getToc) CF("PRN",getPRNID) CF("fit interval",getFitInterval) CF("accuracy",getAccuracy)
    if(full){ CF("AODO",getAODO) CF("week",getFullWeek) CF("accuracy flag",getAccFlag) for(int k=1;k<4;k++) if(c.getHOWTime(k)!=e.getHOWTime(k)||c.getTLMMessage(k)!=e.getTLMMessage(k)||c.getASAlert(k)!=e.getASAlert(k)) bad("conv-how",w+" changes the HOW, TLM or alert of subframe "+std::to_string(k)); if(!c.isDataSet()) bad("conv-set",w+" does not give a complete set"); }
    #undef CF
    BrcKeplerOrbit o=c.getOrbit(); double b=o.getBeginningOfFitInterval()-toe, en=o.getEndOfFitInterval()-toe; if(b!=-1800.0*fh||en!=1800.0*fh) bad("conv-fit",w+" gives a fit interval from "+num(b)+" to "+num(en)+" s around Toe (of "+std::to_string(fh)+" h, sent at second "+std::to_string(t1%WEEK)+" with Toe "+std::to_string(s.toe%WEEK)+")");
    for(int k=-1;k<2;k++){ CommonTime t=toe+3600*k; string a=xs(e.svXvt(t)), d=xs(c.svXvt(t)); if(a!=d) bad("conv-xvt",w+" turns the position "+a+" into "+d); } probe("converted"); }
  void ephOp(const Op& o){ int s=o.i("sat")%3, id=o.i("id"); I t=o.i("t"); if(id<1||id>3||t<0) return; int n=(int)((t-sky.begin(s,0))/7200); if(t<sky.begin(s,0)) n=-1; if(n<-1||n>6) return; Issue is=sky.issue(s,n); SF f=sky.sub(is,id,t); if(!recv(f,o)) return; Rx& r=rx[s]; EngEphemeris& e=eph[s]; int wk=sky.w0+(int)(t/WEEK)+skew; if(skew) fault("clock_skew"); bool ok; bool undef=false; try{
    if(o.i("np")){ uint32_t q[10]; for(int i=0;i<10;i++) q[i]=(f.w[i]>>6)&0xffffff; ok=e.addSubframeNoParity(q,wk,s+5,1); } else ok=e.addSubframe(f.w,wk,s+5,1); } catch(InvalidRequest&){ ok=undef=true; } if(!ok) bad("eph-add","a good subframe was refused");
    r.have[id-1]=true; r.is[id-1]=is; r.f[id-1]=f; r.t[id-1]=t; bool all=r.have[0]&&r.have[1]&&r.have[2]; for(int k=0;k<3;k++) if(e.isData(k+1)!=r.have[k]) bad("eph-isdata","isData("+std::to_string(k+1)+") is wrong"); bool same=all&&r.is[0].n==r.is[1].n&&r.is[1].n==r.is[2].n; if(all&&!same&&(r.is[0].iodc&255)==r.is[1].iode&&r.is[1].iode==r.is[2].iode) return; if(undef){ if(all&&r.is[0].iodc>757&&r.is[0].iodc<1021&&r.is[1].v["fit"]){ fault("undefined_iodc"); return; } bad("eph-add","a good subframe was refused"); } bool ds=e.isDataSet(); ev("sat "+std::to_string(s)+" subframe "+std::to_string(id)+" of set "+std::to_string(n)+(ds?" complete":"")); 
    if(ds!=same) bad(ds?"eph-mixed":"eph-complete",ds?"isDataSet() is true while the subframes stored come from the issues "+std::to_string(r.is[0].iode)+", "+std::to_string(r.is[1].iode)+" and "+std::to_string(r.is[2].iode):"isDataSet() is false although the three subframes of one issue are stored");
    if(all&&!same) probe("mixed_issues"); if(same){ probe("complete_set"); checkSet(e,r.is[0],r.t[0],!o.i("np"),r.f,r.t); checkConv(e,r.is[0],r.t[0]); if(e.getTransmitTime()!=T(sky.w0,r.t[0]-r.t[0]%30)) { } if(r.t[0]/WEEK!=r.is[0].toe/WEEK) probe("toe_next_week"); if(r.t[0]/WEEK!=r.t[1]/WEEK) probe("week_change_between_subframes"); }
    // the correction table validity of subframe 2
    if(id==2){ NMCTMeta m; int tw=sky.w0+(int)(t/WEEK); bool v=EngNav::getNMCTValidity(f.w,tw,m); I ao=900*is.v["aodo"], off=is.toe%7200; if(m.aodo!=(uint32_t)ao||v!=(ao!=27900)) bad("nmct","the age of the correction table is "+std::to_string(m.aodo)+" instead of "+std::to_string(ao)); CommonTime tot=T(sky.w0,t),toe=T(sky.w0,is.toe),tn=T(sky.w0,off?is.toe-off+7200-ao:is.toe-ao); tot.setTimeSystem(TimeSystem::Any); toe.setTimeSystem(TimeSystem::Any); tn.setTimeSystem(TimeSystem::Any); if(m.tot!=tot||m.toe!=toe||m.tnmct!=tn) bad("nmct","the times of the correction table are "+num(m.tot-tot)+", "+num(m.toe-toe)+" and "+num(m.tnmct-tn)+" s wrong"); } }
  // the channel and the receiver's parity check; true when the subframe may be used
  bool recv(SF& f,const Op& o){ SF g=f; if(!up){ uint32_t d30=0; for(int i=0;i<10;i++){ uint32_t w=f.w[i]; if(d30) w^=0x3FFFFFC0; g.w[i]=w; d30=f.w[i]&1; } } int nf=o.i("flips"); if(nf){ fault("bit_error"); int w=(int)o.i("word")%10; vector<int> b; Rng r(o.i("fs")+1); while((int)b.size()<nf){ int x=r.range(0,29); if(std::find(b.begin(),b.end(),x)==b.end()) b.push_back(x); } for(int x:b) g.w[w]^=1u<<x; }
    bool ok=EngNav::checkParity(g.w,up); vector<uint32_t> vv(g.w,g.w+10); if(EngNav::checkParity(vv,up)!=ok) bad("parity","the two parity checks disagree"); if(nf&&ok) bad("parity",std::to_string(nf)+" flipped bits of word "+std::to_string(o.i("word")+1)+" pass the parity check"); if(!nf&&!ok) bad("parity","a good subframe fails the parity check");
    if(!nf){ uint32_t p=0; for(int i=0;i<10;i++){ bool nib=i==1||i==9; uint32_t in=f.w[i]&(nib?0x3FFFFF00:0x3FFFFFC0); uint32_t q=EngNav::fixParity(in,p,nib)&0x3FFFFFFF; if(q!=f.w[i]) bad("parity","fixParity gives word "+std::to_string(i+1)+" as "+std::to_string(q)+" instead of "+std::to_string(f.w[i])); p=f.w[i]; } }
    if(nf) probe("damage_detected"); return ok; }
  void pageOp(const Op& o){ int sv=o.i("sv"); I t=o.i("t"); if(sv<0||sv>63||t<0) return; Page p=alm.page(sv,o.i("ed")%3,t); SF f=alm.sub(p,o.i("pre")); if(!recv(f,o)) return; bool reserved=sv>=33&&sv<=50; int wk=sky.w0+(int)(t/WEEK); bool ok=false,thr=false; try{ ok=al.addSubframe(f.w,(short)wk); } catch(InvalidParameter&){ thr=true; } ev("page "+std::to_string(sv)+(ok?" taken":" refused"));
    if(o.i("pre")){ fault("bad_preamble"); if(ok) bad("alm-preamble","a page with a wrong preamble was taken"); } else if(reserved){ fault("reserved_page"); if(ok) bad("alm-reserved","a page with the undefined id "+std::to_string(sv)+" was taken"); } else { if(!ok) bad("alm-add","page "+std::to_string(sv)+" was refused"); if(sv>=1&&sv<=32) pages[sv]=p; if(sv==51){ p51=p; h51=true; } if(sv==63){ p63=p; h63=true; } if(sv==56){ utc=p; hu=true; } } checkAlm(); }
  void checkAlm(){ for(int s=1;s<=32;s++){ SatID id(s,SatelliteSystem::GPS); bool h=pages.count(s); if(al.isData(id)!=h) bad("alm-isdata","isData is wrong for satellite "+std::to_string(s)); if(!h){ try{ al.getEcc(id); bad("alm-isdata","data of a satellite never received"); } catch(SVNotPresentException&){} continue; } Page& p=pages[s]; auto V=[&](const char* n)->double{ for(auto&x:almf) if(!strcmp(x.n,n)) return val(x,p.v[n]); return 0; }; auto c=[&](const char* n,double g,double w){ if(!near(g,w)) bad("alm-field",string(n)+" of satellite "+std::to_string(s)+" is "+num(g)+" instead of "+num(w)); };
      c("ecc",al.getEcc(id),V("ecc")); c("i offset",al.getIOffset(id),V("ioff")); c("OMEGAdot",al.getOmegadot(id),V("omegadot")); c("health",al.getSVHealth(id),V("health")); c("sqrtA",al.getAhalf(id),V("ahalf")); c("A",al.getA(id),V("ahalf")*V("ahalf")); c("OMEGA0",al.getOmega0(id),V("omega0")); c("w",al.getW(id),V("w")); c("M0",al.getM0(id),V("m0")); c("af0",al.getAf0(id),V("af0")); c("af1",al.getAf1(id),V("af1")); c("Toa",al.getToa(id),V("toa")); c("transmit time",al.getXmitTime(id),(double)((p.t+6)%WEEK)); AlmOrbit a=al.getAlmOrbElem(id); c("PRN",a.getPRNID(),s); Xvt x=al.svXvt(id,T(sky.w0,p.t)), y=a.svXvt(T(sky.w0,p.t)); if(xs(x)!=xs(y)) bad("alm-xvt","svXvt differs from the orbit's"); if(V("ahalf")>2500){ orb::Kep q; q.A=V("ahalf")*V("ahalf"); q.e=V("ecc"); q.M0=V("m0"); q.O0=V("omega0"); q.Od=V("omegadot"); q.i0=0.3*PI+V("ioff"); q.w=V("w"); q.toe=V("toa"); string d=orb::place(q,T(sky.w0,p.t)-a.getToaTime(),x,1e-3); if(!d.empty()) bad("alm-orbit",d); } }
    if(al.getAlmOrbElems().size()!=pages.size()) bad("alm-count","the almanac holds "+std::to_string(al.getAlmOrbElems().size())+" satellites instead of "+std::to_string(pages.size()));
    for(int s=1;s<=32;s++){ SatID id(s,SatelliteSystem::GPS); int w=-1,g=-1,wc=-1,gc=-1; if(s<=24&&h51) w=p51.h[s-1]; if(s>24&&h63) w=p63.h[32+s-25]; if(h63) wc=p63.h[s-1]; try{ g=al.get6bitHealth(id); } catch(SVNotPresentException&){} try{ gc=al.getSVConfig(id); } catch(SVNotPresentException&){} if(w!=g) bad("alm-health","the 6 bit health of satellite "+std::to_string(s)+" is "+std::to_string(g)+" instead of "+std::to_string(w)); if(wc!=gc) bad("alm-config","the configuration of satellite "+std::to_string(s)+" is "+std::to_string(gc)+" instead of "+std::to_string(wc)); }
    if(h51){ if(al.getToa()!=4096.0*p51.v["toa"]) bad("alm-toa","Toa of page 51 is "+num(al.getToa())); int w=sky.w0+(int)(p51.t/WEEK)+(int)p51.v["dwa"]; if(al.getAlmWeek()!=w) bad("alm-week","the almanac week is "+std::to_string(al.getAlmWeek())+" instead of "+std::to_string(w)); }
    double a[4],b[4],A0,A1,dl,dlf; long tot; int wt,wl,dn; bool thr=false; try{ al.getIon(a,b); al.getUTC(A0,A1,dl,tot,wt,wl,dn,dlf); } catch(InvalidRequest&){ thr=true; } if(thr==hu) bad("alm-utc","the UTC data are "+string(hu?"missing":"invented")); if(hu){ auto V=[&](int i)->double{ return val(utcf[i],utc.v[utcf[i].n]); }; for(int i=0;i<4;i++) if(!near(a[i],V(i))||!near(b[i],V(4+i))) bad("alm-iono","ionosphere parameter "+std::to_string(i)+" is "+num(a[i])+", "+num(b[i])+" instead of "+num(V(i))+", "+num(V(4+i))); int wk=sky.w0+(int)(utc.t/WEEK); if(!near(A1,V(8))||!near(A0,V(9))||tot!=(long)V(10)||dl!=V(11)||dn!=(int)V(12)||dlf!=V(13)) bad("alm-utc","a UTC parameter is wrong"); if(wt!=wk+utc.v["dwt"]||wl!=wk+utc.v["dwl"]) bad("alm-utcweek","the UTC weeks are "+std::to_string(wt)+" and "+std::to_string(wl)+" instead of "+std::to_string(wk+utc.v["dwt"])+" and "+std::to_string(wk+utc.v["dwl"])); } }
  // a receiver that hands over words 3-10 of a whole set
  void incOp(const Op& o){ int s=o.i("sat")%3; I t=o.i("t"); t-=t%30; if(t<sky.begin(s,0)) return; int n=(int)((t-sky.begin(s,0))/7200); if(n>6) return; Issue is=sky.issue(s,n); if(is.iodc>757&&is.iodc<1021&&is.v["fit"]) return; uint32_t w[3][8]; for(int k=0;k<3;k++){ SF f=sky.sub(is,k+1,t+6*k); for(int i=0;i<8;i++) w[k][i]=f.w[i+2]; } EngEphemeris e; if(!e.addIncompleteSF1Thru3(w[0],w[1],w[2],t%WEEK,sky.w0+(int)(t/WEEK),s+5,1)) bad("inc-add","a good set was refused"); if(!e.isDataSet()) bad("inc-complete","isDataSet() is false for a set of one issue"); opc("incomplete_set"); checkSet(e,is,t,false,0,0); for(int k=0;k<3;k++) if(e.getHOWTime(k+1)!=(double)((t%WEEK+6+6*k)%WEEK)) bad("inc-how","the HOW time of subframe "+std::to_string(k+1)+" is "+num(e.getHOWTime(k+1))); }
};
void exec(const Plan& p){ Run r(p.at(0)); for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; if(o.kind=="eph") r.ephOp(o); else if(o.kind=="page") r.pageOp(o); else if(o.kind=="inc") r.incOp(o); else if(o.kind=="lost") fault("msg_lost"); } r.checkAlm(); for(size_t i=1;i<p.size();i++) opc(p[i].kind); }
Reg r({"C14","A run has 1-3 simulated GPS satellites broadcast ephemeris and almanac subframes across data set cutovers and week changes through a channel that loses, repeats, delays and damages them (1-3 bit errors), in either polarity. Non-trivial: at least one subframe received.","EngNav parity and field decoding, EngEphemeris, EngAlmanac, BrcKeplerOrbit, BrcClockCorrection, AlmOrbit","satellites, radio channel, receiver front end",30000,2000000,gen,exec,400000000});

// ---------------------------------------------------------------------------
// C24: the stores of system messages (OrbSysStore), broadcast almanacs
// (OrbAlmStore) and CNAV elements, fed what simulated satellites broadcast.
namespace c24 {
const F c30[]={{"tgd",-35,0,1,128,13,0,0},{"l1ca",-35,0,1,141,13,0,0},{"l2c",-35,0,1,154,13,0,0},{"l5i5",-35,0,1,167,13,0,0},{"l5q5",-35,0,1,180,13,0,0},{"a0",-30,0,1,193,8,0,0},{"a1",-27,-1,1,201,8,0,0},{"a2",-24,-2,1,209,8,0,0},{"a3",-24,-3,1,217,8,0,0},{"b0",11,0,1,225,8,0,0},{"b1",14,-1,1,233,8,0,0},{"b2",16,-2,1,241,8,0,0},{"b3",16,-3,1,249,8,0,0}};
const F c32[]={{"teop",4,0,0,128,16,0,0},{"pmx",-20,0,1,144,21,0,0},{"pmxd",-21,0,1,165,15,0,0},{"pmy",-20,0,1,180,21,0,0},{"pmyd",-21,0,1,201,15,0,0},{"dut",-24,0,1,216,31,0,0},{"dutd",-25,0,1,247,19,0,0}};
const F c33[]={{"A0",-35,0,1,128,16,0,0},{"A1",-51,0,1,144,13,0,0},{"A2",-68,0,1,157,7,0,0},{"dtls",0,0,1,164,8,0,0},{"tot",4,0,0,172,16,0,0},{"wnt",0,0,0,188,13,0,0},{"wnlsf",0,0,0,201,13,0,0},{"dn",0,0,0,214,4,0,0},{"dtlsf",0,0,1,218,8,0,0}};
I valn(map<string,I>& v,const char* n){ return v[n]; }
struct Msg { int sat=1,nav=0,uid=56,ed=0; I t=0; SF f; Page p; I toaT=0; string pay; int k=0; };
// what satellite `sat` of world k sends as message uid, edition ed, at time t
struct World { uint64_t seed; int w0,k; I t0; Alm alm;
  World(uint64_t s,int w,int kk,I t):seed(s+kk*1000003),w0(w),k(kk),t0(t){ alm.seed=seed; alm.w0=w; }
  I toaOf(int base,int sv) const { I x=t0+129600+86400*(base%3)+4096*(sv%5); return x/4096*4096; }   // relative to week w0
  void change(map<string,I>& v,const F* f,int n,Rng& g,const char* skip) const { const F* x; do x=f+g.range(0,n-1); while(!strcmp(x->n,skip)); v[x->n]^=1; }
  Msg make(int sat,int nav,int uid,int ed,I t) const { Msg m; m.sat=sat; m.nav=nav; m.uid=uid; m.ed=ed; m.t=t; m.k=k; int base=ed%3, var=ed/3; Rng g(seed+uid*7001+base*131+nav*17), h(seed+uid*5003+var*977+base*31+nav); Page& p=m.p; p.sv=uid; p.t=t; p.id=4;
    if(nav){ memset(&m.f,0,sizeof m.f); putBits(m.f,1,8,0x8b); putBits(m.f,9,6,sat); putBits(m.f,15,6,uid); putBits(m.f,21,17,((t+12)%WEEK)/6); const F* F0=uid==30?c30:uid==32?c32:c33; int n=uid==30?13:uid==32?7:9; for(int i=0;i<n;i++) p.v[F0[i].n]=rnd(g,F0[i]); if(uid==30) for(int i=0;i<5;i++) if(g.chance(0.3)) p.v[c30[i].n]=-4096; if(uid==32) p.v["teop"]=((t0+g.range(0,230000))%WEEK)/16; if(uid==33){ p.v["tot"]=g.range(0,37799); p.v["wnt"]=w0+g.range(0,1); p.v["wnlsf"]=w0+g.range(-20,20); p.v["dn"]=g.range(1,7); } if(var) change(p.v,F0,n,h,"dn"); for(int i=0;i<n;i++) put(m.f,F0[i],p.v[F0[i].n]); for(int w=4;w<9;w++) m.pay+=std::to_string(w==4?m.f.w[w]&0x7fffff:m.f.w[w])+"."; return m; }
    if((uid>=1&&uid<=32)||uid==51||uid==55||uid==56||uid==63){ p=alm.page(uid,base,t); if(uid<=32||uid==51){ m.toaT=toaOf(base,uid==51?0:uid); p.v["toa"]=(m.toaT%WEEK)/4096; m.toaT=m.toaT/WEEK*WEEK+p.v["toa"]*4096; p.v["dwa"]=m.toaT/WEEK-t/WEEK; }
      if(uid==56){ p.v["tot"]=g.range(0,147); I wt=t0/WEEK+g.range(-3,3); p.v["dwt"]=wt-t/WEEK; p.v["dwl"]=t0/WEEK+g.range(-100,100)-t/WEEK; p.v["dn"]=g.range(1,7); }
      if(var){ if(uid<=32) change(p.v,almf,11,h,"toa"); else if(uid==56) change(p.v,utcf,14,h,"dn"); else if(uid==55) p.msg[h.range(0,21)]='Z'; else if(uid==51&&h.chance(0.3)){ p.v["toa"]^=1; m.toaT=m.toaT/WEEK*WEEK+p.v["toa"]*4096; } else { int& x=p.h[h.range(0,p.h.size()-1)]; x=(x+1)&15; } }
      m.f=alm.sub(p,0); }
    else { head(m.f,uid==0?5:4,(t+6)%WEEK,55,0); putBits(m.f,61,2,1); putBits(m.f,63,6,uid); if(uid) for(int i=0;i<30;i++) p.h.push_back(0); vector<uint32_t> w; for(int i=0;i<8;i++) w.push_back(g.next()&0xffffff); if(var) w[h.range(1,6)]^=1u<<h.range(0,23); for(int i=0;i<8;i++){ if(i==0) putBits(m.f,69,16,w[i]&0xffff); else putBits(m.f,61+30*i,i==7?22:24,i==7?w[i]>>2:w[i]); } seal(m.f); }
    for(int w=2;w<10;w++) m.pay+=std::to_string((m.f.w[w]>>(w==9?8:6))&(w==9?0x3fffff:0xffffff))+"."; return m; }
  PackedNavBits pnb(const Msg& m) const { ObsID o=m.nav==0?ObsID(ObservationType::NavMsg,CarrierBand::L1,TrackingCode::CA):m.nav==1?ObsID(ObservationType::NavMsg,CarrierBand::L2,TrackingCode::L2CM):ObsID(ObservationType::NavMsg,CarrierBand::L5,TrackingCode::L5I); PackedNavBits b(SatID(m.sat,SatelliteSystem::GPS),o,T(w0,m.t)); for(int i=0;i<10;i++) b.addUnsignedLong(m.f.w[i]&0x3fffffff,30,1); b.trimsize(); return b; } };
NavID nid(int nav){ return NavID(nav==0?NavType::GPSLNAV:nav==1?NavType::GPSCNAVL2:NavType::GPSCNAVL5); }
struct El : CNavDataElement { int tag; El(int s,CommonTime t,int g):tag(g){ satID=SatID(s,SatelliteSystem::GPS); ctXmit=t; } El* clone() const override { return new El(*this); } string getName() const override { return "el"; } string getNameLong() const override { return "el"; } bool isSameData(const CNavDataElement* r) const override { const El* e=dynamic_cast<const El*>(r); return e&&e->tag==tag; } };
typedef std::tuple<int,int,int> K3;
// OrbAlmGen keeps the almanac week of the whole process in static members (a known finding when two data sets are in use): the week an almanac page gets there
struct Shared { bool set=false; int wn=0; I toa=0; string first; } shw;
struct One { World w; bool all,two; OrbSysStore sys; OrbAlmStore alm; CNavDataElementStore cn; map<K3,map<I,Msg>> sm; bool shrunk=false;
  typedef vector<Msg> L; map<int,L> subj; map<int,map<int,L>> xm; bool edited=false; I amin=0,amax=0; bool timesKnown=true;   // lists kept in time order
  map<int,map<I,int>> cm; bool cedit=false; I c1=0,c2=0,cmin=0,cmax=0; bool chas=false;
  One(uint64_t s,int w0,int k,I t0,bool a,bool tw):w(s,w0,k,t0),all(a),two(tw),sys(a){}
  void bad(const string& c,const string& d){ fail("store-"+c,"store "+std::to_string(w.k)+": "+d); }
  string name(const Msg& m){ return "message "+std::to_string(m.uid)+" edition "+std::to_string(m.ed)+" of satellite "+std::to_string(m.sat)+" sent at "+std::to_string(m.t); }
  void num2(const char* n,const Msg& m,double g,double x){ if(!near(g,x)) bad("field",string(n)+" of "+name(m)+" is "+num(g)+" instead of "+num(x)); }
  void shared(Msg& m){ if(m.nav) return; if(m.uid==51){ shw.set=true; shw.wn=w.w0+m.toaT/WEEK; shw.toa=m.toaT%WEEK; return; } if(m.uid>32) return; if(!shw.set){ I e=m.t+86400; shw.set=true; shw.wn=w.w0+e/WEEK; shw.toa=e%WEEK; } if(!m.uid) return;
    I toa=m.toaT%WEEK,d=toa-shw.toa; int wk=shw.wn; if(d<-HALF) wk++; if(d>HALF) wk--; I r=(wk-w.w0)*WEEK+toa; if(r!=m.toaT){ if(!two) bad("alm-week","the almanac week of "+name(m)+" is not the one broadcast"); if(shw.first.empty()) shw.first=name(m)+" of store "+std::to_string(w.k)+" is put "+std::to_string((r-m.toaT)/WEEK)+" weeks off"; m.toaT=r; } }
  void add(const Msg& m0){ Msg m=m0; PackedNavBits b=w.pnb(m); shared(m); // system store
    bool isSys=m.nav?(m.uid==30||m.uid==32||m.uid==33):m.uid>=51; int thr=0; bool rv=false; try{ rv=sys.addMessage(b); } catch(InvalidRequest&){ thr=1; } catch(InvalidParameter&){ thr=2; }
    if(!isSys){ if(rv||thr) bad("sys-add","a message that is no system message was "+string(thr?"met with an exception":"taken")); }
    else { if(thr==2) bad("sys-add",name(m)+" was refused as invalid"); K3 k(m.sat,m.nav,m.uid); auto& mp=sm[k]; auto ub=mp.upper_bound(m.t); auto lo=ub; bool hl=ub!=mp.begin(); if(hl) --lo; bool hu=ub!=mp.end(); int want=1; bool wthr=false;
      if(hl&&lo->first==m.t&&lo->second.pay!=m.pay){ wthr=true; fault("contradiction"); } else if(all){ if(hl&&lo->first==m.t) want=2; } else if(hl&&lo->second.pay==m.pay) want=0; else if(hu&&ub->second.pay==m.pay){ mp.erase(ub); shrunk=true; probe("earlier_copy_replaces_later"); }
      if(wthr!=(thr==1)) bad("sys-add",name(m)+(wthr?" contradicts a stored one of the same time and was not refused":" was refused")); if(!wthr){ if(want!=2&&rv!=(want==1)) bad("sys-add",name(m)+(want?" is new but was not taken":" repeats its predecessor but was taken")); if(want==1) mp[m.t]=m; if(!mp.size()) sm.erase(k); } else if(mp.empty()) sm.erase(k); }
    // almanac store
    thr=0; unsigned short r=99; try{ r=alm.addMessage(b); } catch(InvalidParameter&){ thr=1; } bool isAlm=!m.nav&&m.uid>=1&&m.uid<=32, dummy=!m.nav&&m.uid==0;
    if(dummy){ if(thr!=1) bad("alm-add","a dummy almanac page was not refused"); fault("dummy_page"); return; } if(thr) bad("alm-add",name(m)+" was refused"); if(!isAlm){ if(r!=0) bad("alm-add",name(m)+" is no almanac but was taken"); return; }
    unsigned short want=0; if(put2(subj[m.uid],m)) want|=2; if(put2(xm[m.sat][m.uid],m)) want|=1; if(r!=want) bad("alm-add","adding "+name(m)+" gives "+std::to_string(r)+" instead of "+std::to_string(want)); if(want&&timesKnown){ I b=m.t,e=m.toaT+266400; if(!has){ amin=b; amax=e; has=true; } amin=std::min(amin,b); amax=std::max(amax,e); } }
  bool has=false;
  bool put2(L& l,const Msg& m){ for(size_t i=0;i<l.size();i++) if(l[i].pay==m.pay&&l[i].toaT==m.toaT){ if(l[i].t<=m.t) return false; l.erase(l.begin()+i); break; } auto it=std::upper_bound(l.begin(),l.end(),m,[](const Msg&a,const Msg&b){return a.t<b.t;}); l.insert(it,m); return true; }
  void same(const OrbDataSys* o,const Msg& m,const string& how){ if(!o) bad("find",how+": null pointer"); if((I)o->UID!=m.uid||(int)o->satID.id!=m.sat||o->beginValid!=T(w.w0,m.t)) bad("find",how+" gives message "+std::to_string(o->UID)+" of satellite "+std::to_string(o->satID.id)+" sent "+num(o->beginValid-T(w.w0,m.t))+" s after the "+name(m)); content(o,m); }
  void content(const OrbDataSys* o,const Msg& m){ Msg q=m; auto& v=q.p.v; OrbDataSys* ref=OrbDataSysFactory::convert(w.pnb(m)); if(!ref) bad("field","no object for "+name(m)); bool sd=o->isSameData(ref)&&ref->isSameData(o); delete ref; if(!sd) bad("field","the stored object differs from the "+name(m));
    if(!m.nav&&m.uid==51){ auto p=dynamic_cast<const OrbSysGpsL_51*>(o); if(!p) bad("field","wrong class"); for(int i=1;i<=24;i++) num2("health",m,p->health[i],m.p.h[i-1]); num2("Toa",m,p->toa,4096.0*v["toa"]); if(p->ctToa!=T(w.w0,m.toaT)) bad("field","the almanac reference time of "+name(m)+" is "+num(p->ctToa-T(w.w0,m.toaT))+" s off"); }
    if(!m.nav&&m.uid==63){ auto p=dynamic_cast<const OrbSysGpsL_63*>(o); if(!p) bad("field","wrong class"); for(int i=1;i<=32;i++) num2("configuration",m,p->config[i],m.p.h[i-1]); for(int i=1;i<=8;i++) num2("health",m,p->health[i],m.p.h[31+i]); }
    if(!m.nav&&m.uid==55){ auto p=dynamic_cast<const OrbSysGpsL_55*>(o); if(!p||p->textMsg!=m.p.msg) bad("field","the text of "+name(m)+" is '"+(p?p->textMsg:"")+"' instead of '"+m.p.msg+"'"); }
    if(!m.nav&&m.uid==56){ auto p=dynamic_cast<const OrbSysGpsL_56*>(o); if(!p) bad("field","wrong class"); for(int i=0;i<4;i++){ num2("alpha",m,p->alpha[i],val(utcf[i],v[utcf[i].n])); num2("beta",m,p->beta[i],val(utcf[4+i],v[utcf[4+i].n])); } num2("A1",m,p->A1,val(utcf[8],v["A1"])); num2("A0",m,p->A0,val(utcf[9],v["A0"])); num2("dtLS",m,p->dtLS,v["dtls"]); num2("dtLSF",m,p->dtLSF,v["dtlsf"]); num2("DN",m,p->DN,v["dn"]); I wk=m.t/WEEK; CommonTime e=T(w.w0,(wk+v["dwt"]+50)*WEEK+v["tot"]*4096)-50.0*WEEK; if(p->ctEpoch!=e) bad("field","the UTC epoch of "+name(m)+" is "+num(p->ctEpoch-e)+" s off"); num2("WN_LSF",m,p->WN_LSF_full,w.w0+wk+v["dwl"]); }
    if(!m.nav&&m.uid==52){ auto p=dynamic_cast<const OrbSysGpsL_52*>(o); if(!p) bad("field","wrong class"); string bits; for(int i=2;i<10;i++) for(int b=(i==2?8:0);b<(i==9?22:24);b++) bits+=(m.f.w[i]>>(29-b))&1?'1':'0'; num2("indicator",m,p->availIndicator,(bits[0]-'0')*2+(bits[1]-'0')); for(int k=0;k<30;k++){ int x=0; for(int b=0;b<6;b++) x=2*x+(bits[2+6*k+b]-'0'); if(x>31) x-=64; bool av=x!=-32; if((bool)p->erdAvail[k]!=av) bad("field","range deviation "+std::to_string(k+1)+" of "+name(m)+(av?" is reported missing":" is reported present")); num2("range deviation",m,p->erd[k],av?0.3*x:0); } }
    if(m.nav&&m.uid==30){ auto p=dynamic_cast<const OrbSysGpsC_30*>(o); if(!p) bad("field","wrong class"); double g[5]={p->Tgd,p->ISC_L1CA,p->ISC_L2C,p->ISC_L5I5,p->ISC_L5Q5}; bool a[5]={p->avail_Tgd,p->avail_L1CA,p->avail_L2C,p->avail_L5I5,p->avail_L5Q5}; for(int i=0;i<5;i++){ bool w2=v[c30[i].n]!=-4096; if(a[i]!=w2) bad("field",string("availability of ")+c30[i].n+" of "+name(m)+" is wrong"); num2(c30[i].n,m,g[i],w2?val(c30[i],v[c30[i].n]):0); } for(int i=0;i<4;i++){ num2("alpha",m,p->alpha[i],val(c30[5+i],v[c30[5+i].n])); num2("beta",m,p->beta[i],val(c30[9+i],v[c30[9+i].n])); } }
    if(m.nav&&m.uid==32){ auto p=dynamic_cast<const OrbSysGpsC_32*>(o); if(!p) bad("field","wrong class"); double g[6]={p->PM_X,p->PM_X_dot,p->PM_Y,p->PM_Y_dot,p->delta_UT1,p->delta_UT1_dot}; for(int i=0;i<6;i++) num2(c32[i+1].n,m,g[i],val(c32[i+1],v[c32[i+1].n])); I te=v["teop"]*16, ts=m.t%WEEK, wk=m.t/WEEK; if(std::llabs(te-ts)!=HALF){ if(te-ts>HALF) wk--; else if(te-ts<-HALF) wk++; CommonTime e=T(w.w0,(wk+1)*WEEK+te)-(double)WEEK; if(p->ctEpoch!=e) bad("field","the epoch of "+name(m)+" is "+num(p->ctEpoch-e)+" s off"); } }
    if(m.nav&&m.uid==33){ auto p=dynamic_cast<const OrbSysGpsC_33*>(o); if(!p) bad("field","wrong class"); num2("A0",m,p->A0,val(c33[0],v["A0"])); num2("A1",m,p->A1,val(c33[1],v["A1"])); num2("A2",m,p->A2,val(c33[2],v["A2"])); num2("dtLS",m,p->dtLS,v["dtls"]); num2("dtLSF",m,p->dtLSF,v["dtlsf"]); num2("DN",m,p->DN,v["dn"]); num2("WN_LSF",m,p->WN_LSF,v["wnlsf"]); CommonTime e=GPSWeekSecond(v["wnt"],16.0*v["tot"],TimeSystem::GPS); if(p->ctEpoch!=e) bad("field","the UTC epoch of "+name(m)+" is wrong"); } }
  void sameAlm(const OrbAlm* o,const vector<Msg>& ok,const string& how){ if(!o) bad("alm-find",how+": null pointer"); const OrbAlmGen* a=dynamic_cast<const OrbAlmGen*>(o); if(!a) bad("alm-find","wrong class"); string why; for(auto& m0:ok){ Msg m=m0; auto V=[&](int i){ return val(almf[i],m.p.v[almf[i].n]); }; why="";
      if((int)a->satID.id!=m.sat||(int)a->subjectSV.id!=m.uid||a->beginValid!=T(w.w0,m.t)){ why="gives an almanac of satellite "+std::to_string(a->subjectSV.id)+" sent by "+std::to_string(a->satID.id)+" "+num(a->beginValid-T(w.w0,m.t))+" s after the "+name(m); continue; } if(a->ctToe!=T(w.w0,m.toaT)){ why="gives "+name(m)+" with a reference time "+num(a->ctToe-T(w.w0,m.toaT))+" s off"; continue; }
      if(a->endValid!=T(w.w0,m.toaT+266400)) why="gives a wrong end of validity"; double g[11]={a->ecc,0,a->deltai,a->OMEGAdot,(double)a->health,a->AHalf,a->OMEGA0,a->w,a->M0,a->af0,a->af1}; for(int i=0;i<11;i++) if(i!=1&&!near(g[i],V(i))) why=string("gives ")+almf[i].n+" of "+name(m)+" as "+num(g[i])+" instead of "+num(V(i)); if(a->isHealthy()!=(m.p.v["health"]==0)) why="gives a wrong health"; if(why.empty()&&V(5)>2500){ orb::Kep q; q.A=V(5)*V(5); q.e=V(0); q.i0=0.3*PI+V(2); q.Od=V(3); q.O0=V(6); q.w=V(7); q.M0=V(8); q.af0=V(9); q.af1=V(10); q.toe=((m.toaT%WEEK)+WEEK)%WEEK; I d=m.t+1800-m.toaT; why=orb::check(q,d,d,a->svXvt(T(w.w0,m.t+1800)),1e-3); } if(why.empty()) return; }
    bad("alm-find",how+" "+why); }
  void query(I t,Rng& g){ // system messages
    for(int rep=0;rep<4;rep++){ int sat=g.range(1,3),nav=g.chance(0.7)?0:g.range(1,2),uid=nav?g.pick(vector<int>{30,32,33}):g.pick(vector<int>{51,52,53,55,56,60,63}); if(sm.size()&&g.chance(0.8)){ auto it=sm.begin(); std::advance(it,g.range(0,sm.size()-1)); sat=std::get<0>(it->first); nav=std::get<1>(it->first); uid=std::get<2>(it->first); } I tq=t; auto f=sm.find(K3(sat,nav,uid)); if(f!=sm.end()&&f->second.size()&&g.chance(0.5)){ auto it=f->second.begin(); std::advance(it,g.range(0,f->second.size()-1)); tq=it->first+g.range(-1,1); }
      SatID id(sat,SatelliteSystem::GPS); CommonTime ct=T(w.w0,tq); const Msg* want=0; if(f!=sm.end()) for(auto&x:f->second) if(x.first<tq) want=&x.second; const OrbDataSys* got=0; try{ got=sys.find(id,nid(nav),uid,ct); } catch(InvalidRequest&){} string how="find(satellite "+std::to_string(sat)+", message "+std::to_string(uid)+", "+std::to_string(tq)+")"; if((got!=0)!=(want!=0)) bad("find",how+(got?" invents a message":" finds nothing although "+name(*want)+" is stored")); if(got){ same(got,*want,how); probe("found"); }
      // over all satellites, never at the very time of a message
      I best=-1; bool exact=false; vector<Msg> ok; for(auto&x:sm) if(std::get<1>(x.first)==nav&&std::get<2>(x.first)==uid) for(auto&y:x.second){ if(y.first==tq) exact=true; if(y.first<tq){ if(y.first>best){ best=y.first; ok.clear(); } if(y.first==best) ok.push_back(y.second); } } if(!exact){ got=0; try{ got=sys.find(nid(nav),uid,ct); } catch(InvalidRequest&){} if((got!=0)!=(ok.size()!=0)) bad("find-any",string("the search over all satellites ")+(got?"invents a message":"finds nothing")+", message "+std::to_string(uid)); if(got){ int s=-1; for(size_t i=0;i<ok.size();i++) if((int)got->satID.id==ok[i].sat) s=i; if(s<0) bad("find-any","the search over all satellites gives satellite "+std::to_string(got->satID.id)+", "+num(got->beginValid-ct)+" s, instead of "+name(ok[0])); same(got,ok[s],"search over all satellites"); }
        if(uid==(nav?33:56)){ const OrbDataUTC* u=0; try{ u=sys.findUtcData(nid(nav),ct); } catch(InvalidRequest&){} if((u!=0)!=(ok.size()!=0)) bad("utc","findUtcData finds "+string(u?"something":"nothing")); if(u&&dynamic_cast<const OrbDataSys*>(u)!=got) bad("utc","findUtcData gives another message than find"); }
        if(uid==63&&!nav){ int s=g.range(1,32); static const struct{ CarrierBand b; TrackingCode c; int m; } sg[]={{CarrierBand::L1,TrackingCode::CA,1},{CarrierBand::L2,TrackingCode::Y,1},{CarrierBand::L2,TrackingCode::L2CM,2},{CarrierBand::L5,TrackingCode::L5I,3},{CarrierBand::L1,TrackingCode::L1CP,4}}; auto& q=sg[g.range(0,4)]; int r=-1; try{ r=sys.hasSignal(SatID(s,SatelliteSystem::GPS),ct,ObsID(ObservationType::Range,q.b,q.c)); } catch(InvalidRequest&){} if((r>=0)!=(ok.size()!=0)) bad("signal","hasSignal answers without data or refuses with data"); if(r>=0){ bool any=false; for(auto&m:ok) any|=r==((m.p.h[s-1]&7)>=q.m); if(!any) bad("signal","hasSignal is wrong for satellite "+std::to_string(s)); } } }
      // lists and bounds
      size_t n=0; try{ auto l=sys.findList(id,nid(nav),uid); n=l.size(); size_t i=0; if(f!=sm.end()&&l.size()==f->second.size()) for(auto&x:f->second){ auto it=l.begin(); std::advance(it,i++); same(*it,x.second,"findList"); } } catch(InvalidRequest&){} if(n!=(f==sm.end()?0:f->second.size())) bad("list","findList gives "+std::to_string(n)+" messages instead of "+std::to_string(f==sm.end()?0:f->second.size()));
      auto b=sys.findBounds(id,nid(nav),uid,ct); const Msg *lo=0,*hi=0; if(f!=sm.end()) for(auto&x:f->second){ if(x.first<=tq) lo=&x.second; else if(!hi) hi=&x.second; } if((b.first!=0)!=(lo!=0)||(b.second!=0)!=(hi!=0)) bad("bounds","findBounds gives the wrong ends at "+std::to_string(tq)); if(lo) same(b.first,*lo,"findBounds"); if(hi) same(b.second,*hi,"findBounds"); }
    // almanacs
    for(int rep=0;rep<4;rep++){ int sv=g.pick(vector<int>{1,2,3,(int)g.range(4,32)}); if(subj.size()&&g.chance(0.8)){ auto it=subj.begin(); std::advance(it,g.range(0,subj.size()-1)); sv=it->first; } bool byX=g.chance(0.4); int x=g.range(1,3); L* l=0; if(byX){ auto i=xm.find(x); if(i!=xm.end()){ auto j=i->second.find(sv); if(j!=i->second.end()) l=&j->second; } } else { auto j=subj.find(sv); if(j!=subj.end()) l=&j->second; } if(l&&l->empty()) l=0; I tq=t; if(l&&g.chance(0.5)) tq=(*l)[g.range(0,l->size()-1)].t+g.range(-1,1); bool eff=g.chance(0.4); vector<Msg> ok; if(l){ I best=(*l)[0].t; for(auto&m:*l) if(m.t<tq) best=m.t; for(auto&m:*l) if(m.t==best&&(!eff||(m.t<tq&&tq<=m.toaT+266400))) ok.push_back(m); bool both=false; for(auto&m:*l) if(m.t==best&&!(m.t<tq&&tq<=m.toaT+266400)) both=true; if(eff&&both&&ok.size()) continue; }
      string how="find(almanac of "+std::to_string(sv)+(byX?" from "+std::to_string(x):"")+", "+std::to_string(tq)+(eff?", within validity)":")"); const OrbAlm* o=0; try{ o=byX?alm.find(SatID(sv,SatelliteSystem::GPS),T(w.w0,tq),eff,SatID(x,SatelliteSystem::GPS)):alm.find(SatID(sv,SatelliteSystem::GPS),T(w.w0,tq),eff); } catch(InvalidRequest&){} if((o!=0)!=(ok.size()!=0)) bad("alm-find",how+(o?" invents an almanac":" finds nothing although "+name(ok[0])+" is stored")); if(o){ sameAlm(o,ok,how); probe("almanac_found");
        if(!byX&&!eff&&ok.size()==1){ Xvt a,b2; try{ a=alm.getXvt(SatID(sv,SatelliteSystem::GPS),T(w.w0,tq)); b2=o->svXvt(T(w.w0,tq)); } catch(InvalidRequest&){ bad("alm-xvt","getXvt refuses although find answers"); } if(xs(a)!=xs(b2)) bad("alm-xvt","getXvt is "+xs(a)+" instead of "+xs(b2)); }
        std::list<SatID> by=alm.xmitBySVs(o); vector<int> g2,w2; for(auto&s:by) g2.push_back(s.id); string pay; I toa=0; int sub=o->subjectSV.id; for(auto&m:ok) if(m.sat==(int)o->satID.id&&o->ctToe==T(w.w0,m.toaT)){ const OrbAlmGen* ag=dynamic_cast<const OrbAlmGen*>(o); if(ag&&near(ag->M0,val(almf[8],m.p.v["m0"]))) { pay=m.pay; toa=m.toaT; } } if(ok.size()==1){ for(auto&y:xm){ auto j=y.second.find(sub); if(j!=y.second.end()) for(auto&m:j->second) if(m.pay==pay&&m.toaT==toa) w2.push_back(y.first); } std::sort(g2.begin(),g2.end()); if(g2!=w2) bad("alm-xmit","xmitBySVs lists "+std::to_string(g2.size())+" satellites instead of "+std::to_string(w2.size())); } } }
    sizes(); }
  void sizes(){ size_t n=0; for(auto&x:sm) n+=x.second.size(); if(sys.size()!=n) bad("size","the system store holds "+std::to_string(sys.size())+" messages instead of "+std::to_string(n)); for(int s=1;s<=3;s++){ bool h=false; for(auto&x:sm) if(std::get<0>(x.first)==s&&x.second.size()) h=true; if(sys.isPresent(SatID(s,SatelliteSystem::GPS))!=h) bad("present","isPresent is "+string(h?"false":"true")+" for satellite "+std::to_string(s)); }
    bool thr=false; CommonTime a,b; try{ a=sys.getInitialTime(); b=sys.getFinalTime(); } catch(InvalidRequest&){ thr=true; } if(thr!=(n==0)) bad("times","the time limits of the system store are wrong"); if(n&&!shrunk){ I lo=1LL<<60,hi=-1; for(auto&x:sm) for(auto&y:x.second){ lo=std::min(lo,y.first); hi=std::max(hi,y.first); } if(a!=T(w.w0,lo)||b!=T(w.w0,hi)) bad("times","the time limits of the system store are wrong"); }
    size_t ns=0,nx=0; for(auto&x:subj) ns+=x.second.size(); for(auto&x:xm) for(auto&y:x.second) nx+=y.second.size(); if(alm.size(1)!=ns||alm.size(2)!=nx||alm.size()!=ns+nx) bad("alm-size","the almanac store holds "+std::to_string(alm.size(1))+"+"+std::to_string(alm.size(2))+" almanacs instead of "+std::to_string(ns)+"+"+std::to_string(nx)); for(auto&x:subj) if(alm.sizeSubjAlm(SatID(x.first,SatelliteSystem::GPS))!=x.second.size()) bad("alm-size","wrong count for a subject"); for(auto&x:xm){ size_t q=0; for(auto&y:x.second) q+=y.second.size(); if(alm.sizeXmitAlm(SatID(x.first,SatelliteSystem::GPS))!=q) bad("alm-size","wrong count for a transmitter"); } for(auto&x:subj) if(x.second.size()&&!alm.isPresent(SatID(x.first,SatelliteSystem::GPS))) bad("alm-present","isPresent is false for a stored almanac");
    if(timesKnown&&has&&(alm.getInitialTime()!=T(w.w0,amin)||alm.getFinalTime()!=T(w.w0,amax))) bad("alm-times","the time limits of the almanac store are "+num(alm.getInitialTime()-T(w.w0,amin))+" and "+num(alm.getFinalTime()-T(w.w0,amax))+" s off");
    size_t nc=0; for(auto&x:cm) nc+=x.second.size(); if(cn.size()!=nc) bad("cnav-size","the element store holds "+std::to_string(cn.size())+" elements instead of "+std::to_string(nc)); if(chas&&(cn.getInitialTime()!=T(w.w0,cmin)||cn.getFinalTime()!=T(w.w0,cmax))) bad("cnav-times","the time limits of the element store are wrong"); for(auto&x:cm) if(x.second.size()){ auto& mp=cn.getDataElementMap(SatID(x.first,SatelliteSystem::GPS)); auto it=x.second.begin(); if(mp.size()!=x.second.size()) bad("cnav-map","wrong elements"); for(auto&y:mp){ const El* e=dynamic_cast<const El*>(y.second); if(!e||e->tag!=it->second||y.first!=T(w.w0,it->first)) bad("cnav-map","wrong element"); ++it; } } }
  void del(I pick,int miss){ if(sm.empty()) return; auto it=sm.begin(); std::advance(it,pick%sm.size()); K3 k=it->first; auto j=it->second.begin(); std::advance(j,(pick/7)%it->second.size()); I t=j->first+(miss?1:0); int uid=std::get<2>(k); sys.deleteMessage(SatID(std::get<0>(k),SatelliteSystem::GPS),nid(std::get<1>(k)),uid,T(w.w0,t)); auto f=it->second.find(t); if(f!=it->second.end()){ it->second.erase(f); shrunk=true; probe("deleted"); if(it->second.empty()){ sm.erase(it); probe("emptied"); } } }
  void edit(I a,I b){ alm.edit(T(w.w0,a),T(w.w0,b)); auto cut=[&](L& l){ L n; for(auto&m:l) if(m.t>=a&&m.t<=b) n.push_back(m); l=n; }; for(auto&x:subj) cut(x.second); for(auto&x:xm) for(auto&y:x.second) cut(y.second); timesKnown=false; cn.edit(T(w.w0,a),T(w.w0,b)); for(auto&x:cm){ map<I,int> n; for(auto&y:x.second) if(y.first>=a&&y.first<=b) n.insert(y); x.second=n; } chas=false; cedit=true; }
  void clear(int which){ if(which&1){ sys.clear(); sm.clear(); shrunk=false; } if(which&2){ alm.clear(); subj.clear(); xm.clear(); timesKnown=true; has=false; if(alm.getInitialTime()!=OrbAlmStore().getInitialTime()||alm.getFinalTime()!=OrbAlmStore().getFinalTime()) bad("alm-times","a cleared almanac store keeps its time limits"); } if(which&4){ cn.clear(); cm.clear(); chas=false; cedit=false; } }
  void element(int sat,I t,int tag){ El e(sat,T(w.w0,t),tag); bool nw=!cm[sat].count(t), r=cn.addDataElement(e); if(r!=nw) bad("cnav-add",nw?"a new element was refused":"a second element of the same time was taken"); if(nw) cm[sat][t]=tag; if(nw&&!cedit){ if(!chas){ cmin=cmax=t; chas=true; } cmin=std::min(cmin,t); cmax=std::max(cmax,t); } }
  void dump(int d){ std::ostringstream s; sys.dump(s,d%4); alm.dump(s,d%4); cn.dump(s,0); if(d%4==1){ size_t n=0,want=0; for(auto&x:sm) want+=x.second.size(); std::ostringstream q; sys.dumpTerse(q); for(char c:q.str()) n+=c=='\n'; if(n!=want+3) bad("dump","the terse listing has "+std::to_string((long)n-3)+" lines instead of "+std::to_string(want)); } }
};
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op c("!cfg"); c.set("_seed",g.next()>>1); c.set("_w0",g.chance(0.2)?g.pick(vector<int>{1023,1279,2047}):g.range(1100,2300)); c.set("_w1",g.range(-60,60)); c.set("_t0",g.chance(0.4)?g.range(3,6)*86400:g.range(0,20)*43200); c.set("all",g.chance(0.2)); c.set("two",g.chance(0.25)); p.push_back(c); I t0=c.i("_t0"); int n=g.range(10,60); I span=g.pick(vector<int>{3600,43200,172800,216000}); double loss=g.pick(vector<double>{0,0.2}),dup=g.pick(vector<double>{0,0.2}),late=g.pick(vector<double>{0,0.3,1}); int few=g.chance(0.6); struct D{ double at; Op o; }; vector<D> d; int pool=g.range(2,6); vector<std::pair<int,int>> ids; for(int i=0;i<pool;i++) ids.push_back({0,g.pick(vector<int>{51,52,53,54,55,56,57,60,62,63,51,56,63,1,2,3,1,2,(int)g.range(4,32)})}); if(g.chance(0.5)) for(int i=0;i<2;i++) ids.push_back({(int)g.range(1,2),g.pick(vector<int>{30,32,33})});
  map<int,int> cur; for(int i=0;i<n;i++){ Op o("msg"); I t=t0+(I)((double)i/n*span)/30*30+(g.chance(0.5)?0:6*g.range(0,4)); auto id=g.pick(ids); if(!few&&g.chance(0.15)) id={0,g.pick(vector<int>{0,33,40,50,61})}; int key=id.first*100+id.second; if(g.chance(0.3)){ if(g.chance(0.5)) cur[key]=g.range(0,2); else cur[key]=(cur[key]%3)+3*g.range(0,2); } o.set("sat",g.range(1,3)); o.set("nav",id.first); o.set("uid",id.second); o.set("ed",cur[key]); o.set("t",t); if(c.i("two")&&g.chance(0.5)) o.set("k",1); if(g.chance(loss)) { d.push_back({(double)t,Op("lost")}); continue; } double del=g.chance(late)?g.unit()*span*0.4:0; d.push_back({t+del,o}); if(g.chance(dup)) d.push_back({t+del+g.unit()*span*0.2,o}); if(g.chance(0.03)){ Op q=o; q.set("ed",g.range(0,8)); d.push_back({t+del+1,q}); } }
  int nq=g.range(2,8); for(int i=0;i<nq;i++){ I t=t0+(I)(g.unit()*span*1.3); double at=t0+g.unit()*span*1.4; Op o("query"); int r=g.range(0,19); if(r<2){ o=Op("del"); o.set("pick",g.range(0,1000)); o.set("miss",g.chance(0.2)); } else if(r==2){ o=Op("edit"); o.set("a",t|1); o.set("b",(t+(I)(g.unit()*span))|1); } else if(r==3){ o=Op("clear"); o.set("which",g.range(1,7)); } else if(r<6){ o=Op("el"); o.set("sat",g.range(1,2)); o.set("t",t/12*12); o.set("tag",i); } else if(r==6){ o=Op("dump"); o.set("d",g.range(0,3)); } else { o.set("t",t|1); o.set("s",g.next()>>40); } if(c.i("two")&&g.chance(0.4)) o.set("k",1); d.push_back({at,o}); if(o.kind=="el"){ d.push_back({at+1,o}); Op z=o; z.set("t",o.i("t")+12*g.range(-3,3)); d.push_back({at+1,z}); } }
  std::stable_sort(d.begin(),d.end(),[](const D&a,const D&b){return a.at<b.at;}); for(auto&x:d) p.push_back(x.o); return p; }
void exec(const Plan& p){ std::ostringstream sink; struct Quiet { std::streambuf* o; Quiet(std::ostream& s):o(std::cout.rdbuf(s.rdbuf())){} ~Quiet(){ std::cout.rdbuf(o); } }; const Op& c=p.at(0); auto body=[&]{ Quiet q(sink); I t0=c.i("_t0",86400); int w0=c.i("_w0",1500); std::unique_ptr<One> st[2]; for(int k=0;k<2;k++) st[k].reset(new One(c.i("_seed"),k?w0+c.i("_w1"):w0,k,t0,c.i("all"),c.i("two")));
    for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; One& s=*st[c.i("two")?o.i("k")&1:0]; opc(o.kind); if(o.kind=="msg"){ int nav=((o.i("nav")%3)+3)%3,uid=o.i("uid"); if(uid<0||uid>63||(nav&&uid!=30&&uid!=32&&uid!=33)) continue; I t=o.i("t"); if(t<t0||t>t0+230000||t%6) continue; int ed=o.i("ed"); if(ed<0||ed>8) continue; Msg m=s.w.make(1+(o.i("sat")+2)%3,nav,uid,ed,t); ev("msg "+std::to_string(m.uid)+" t "+std::to_string(t)); s.add(m); } else if(o.kind=="query"){ Rng g(o.i("s")+1); s.query(o.i("t"),g); } else if(o.kind=="del") s.del(std::max<I>(0,o.i("pick")),o.i("miss")); else if(o.kind=="edit") s.edit(o.i("a"),o.i("b")); else if(o.kind=="clear") s.clear(o.i("which")); else if(o.kind=="el") s.element(1+(o.i("sat")&1),std::max<I>(0,o.i("t")),o.i("tag")); else if(o.kind=="dump") s.dump(o.i("d")); else if(o.kind=="lost") fault("msg_lost"); }
    for(int k=0;k<2;k++){ Rng g(77); st[k]->query(t0+400001,g); st[k]->query(t0+40001,g); } sink.str(""); };
  body(); size_t before=al().live; body(); sink.str(""); if(al().live>before+8) fail("store-leak",std::to_string(al().live-before)+" blocks are still allocated after the stores have gone"); if(shw.first.size()) fail("store-week-shared","the two stores share one almanac week: "+shw.first); }
Reg r24({"C24","A run has 1-3 simulated GPS satellites broadcast LNAV system pages, almanac pages and CNAV messages in changing editions; messages are lost, repeated, delayed, reordered and contradicted on the way to two pairs of stores. Non-trivial: at least one message.","OrbSysStore, OrbDataSysFactory, the OrbSysGpsL/OrbSysGpsC classes, OrbAlmStore, OrbAlmFactory, OrbAlmGen, CNavDataElementStore, PackedNavBits","satellites, receiver, CNAV elements",8000,1000000,gen,exec,400000000});
}
}
