// C08: computations with separate library objects, running in threads that are
// preempted anywhere, give what each gives alone in a fresh process.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <cmath>
#include <memory>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <unistd.h>
#include <sys/wait.h>
#include "EngEphemeris.hpp"
#include "EngAlmanac.hpp"
#include "GPSEphemerisStore.hpp"
#include "GloEphemerisStore.hpp"
#include "SP3EphemerisStore.hpp"
#include "gdc.hpp"
#include "SpecialFuncs.hpp"
#include "Expression.hpp"
#include "RinexObsID.hpp"
#include "RinexSatID.hpp"
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "JulianDate.hpp"
#include "MJD.hpp"
#include "BDSWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "TimeSystem.hpp"
#include "GPSWeekSecond.hpp"
#include "SunPosition.hpp"
#include "MoonPosition.hpp"
#include "SolidTides.hpp"
#include "PoleTides.hpp"
#include "SolidEarthTides.hpp"
#include "SolarPosition.hpp"
#include "EarthOrientation.hpp"
#include "PRSolution.hpp"
#include "NBTropModel.hpp"
#include "SaasTropModel.hpp"
#include "NeillTropModel.hpp"
#include "GGTropModel.hpp"
#include "MOPSTropModel.hpp"
#include "GlobalTropModel.hpp"
#include "Position.hpp"
#include "StringUtils.hpp"
#include "FormattedDouble.hpp"
#include "Namelist.hpp"
#include "CommandOptionParser.hpp"
#include "SatPass.hpp"
#include "SVNumXRef.hpp"
#include "GPSWeek.hpp"
#include "WGS84Ellipsoid.hpp"
#include "logstream.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::vector; using std::map;
int dcCall(SatPass& sp,vector<string>& cmds,string& msg,int chan,bool ca);
namespace {
const char* jobs[]={"subframe","almanac","gdc","disccorr","special","expr","obsid","time","sunmoon","tides","prsol","trop","position","strings","shared-eph","shared-sp3","glonass","satpass","earth","convert"};
const int NJ=sizeof(jobs)/sizeof(*jobs);
string d17(double d){ return fmtd(d)+" "; }
GPSEphemeris eph(int sat,int64_t toe,int body){ GPSEphemeris e; e.dataLoadedFlag=true; e.satID=SatID(sat,SatelliteSystem::GPS); CommonTime t=GPSWeekSecond(2000+toe/604800,(double)(toe%604800)); e.ctToe=e.ctToc=t; e.beginValid=t-7200; e.endValid=t+7200; e.transmitTime=e.beginValid; e.HOWtime=(toe+604800-7200)%604800; e.af0=1e-5*body; e.af1=1e-11; e.af2=0; e.M0=0.7*(sat%4)+0.02*body; e.dn=4e-9; e.ecc=0.003+0.0001*body; e.A=26560000.0; e.OMEGA0=1.05*(sat%6); e.i0=0.96; e.w=0.4; e.OMEGAdot=-8e-9; e.idot=1e-10; e.dndot=0; e.Adot=0; e.Cuc=1e-6; e.Cus=2e-6; e.Crc=200; e.Crs=-30; e.Cic=1e-8; e.Cis=2e-8; e.health=0; e.IODC=body; e.IODE=body; e.fitDuration=4; e.fitint=0; e.accuracyFlag=0; e.codeflags=1; e.L2Pdata=0; e.Tgd=0; return e; }
std::unique_ptr<GPSEphemerisStore> gEph; std::unique_ptr<SP3EphemerisStore> gSp3;
const int64_t T0=200000;
void shared(){ gEph.reset(new GPSEphemerisStore); for(int s=1;s<=24;s++) for(int k=0;k<2;k++) gEph->addEphemeris(eph(s,T0+7200*k,s%10+k)); gEph->SearchNear();
  gSp3.reset(new SP3EphemerisStore); for(int s=1;s<=6;s++) for(int i=0;i<14;i++){ PositionRecord r; for(int a=0;a<3;a++) r.Pos[a]=20000+100*s+i*i*0.7+a; ClockRecord c; c.bias=s+0.1*i; c.drift=c.accel=c.sig_bias=c.sig_drift=c.sig_accel=0; CommonTime t=GPSWeekSecond(2000,(double)(T0+900*i)); t.setTimeSystem(TimeSystem::GPS); gSp3->addPositionRecord(SatID(s,SatelliteSystem::GPS),t,r); gSp3->addClockRecord(SatID(s,SatelliteSystem::GPS),t,c); } }
string xv(const Xvt& x){ string o; for(int i=0;i<3;i++) o+=d17(x.x[i])+d17(x.v[i]); return o+d17(x.clkbias)+d17(x.clkdrift)+d17(x.relcorr); }
vector<uint32_t> subframe(Rng& g,int id,int page,int64_t tow){ vector<uint32_t> w(10); w[0]=0x8b<<22|(uint32_t)g.range(0,16383)<<8; w[1]=((uint32_t)(tow/6+1)&0x1ffff)<<13|(uint32_t)id<<8; for(int i=2;i<10;i++) w[i]=((uint32_t)g.next()&0xffffff)<<6; if(id>3) w[2]=(w[2]&0x003fffff)|(1u<<28)|((uint32_t)page<<22); for(int i=0;i<10;i++){ uint32_t prev=i?w[i-1]:0; bool nib=i==1||i==9; uint32_t p=EngNav::fixParity(w[i],prev,nib); w[i]=p; } return w; }
string run(int job,uint64_t seed,int n){ Rng g(seed); std::ostringstream o; o<<std::setprecision(15);
  switch(job){
  case 0: for(int q=0;q<n;q++){ EngEphemeris e; int order[3]={1,2,3}; std::swap(order[0],order[g.range(0,2)]); for(int k=0;k<3;k++){ auto w=subframe(g,order[k],0,T0+6*order[k]); bool ok; try{ ok=e.addSubframeNoParity(w.data(),2000,5,0); } catch(Exception& x){ o<<"x"; ok=false; } o<<ok<<EngNav::checkParity(w)<<"."; double out[60]; for(double& z:out) z=0; o<<EngNav::subframeConvert(w.data(),(short)2000,out); for(double z:out) o<<" "<<z; } if(e.isDataSet()) e.dump(o); } break;
  case 1: { EngAlmanac a; for(int q=0;q<2*n;q++){ bool five=g.chance(0.5); int sv=five?g.range(1,24):g.pick(vector<int>{25,26,27,28,29,30,31,32,56,63}); auto w=subframe(g,five?5:4,sv,T0+30*q); try{ o<<a.addSubframe(w.data(),(short)2000); double out[60]; for(double& z:out) z=0; o<<EngNav::subframeConvert(w.data(),(short)2000,out); for(double z:out) o<<" "<<z; } catch(Exception& x){ o<<"x"; } } try{ a.dump(o,false); } catch(Exception&x){ o<<"X"; } } break;
  case 2: case 3: for(int q=0;q<(n+1)/2;q++){ bool glo=g.chance(0.5); int chan=g.range(-7,6); RinexSatID sat(g.range(1,24),glo?SatelliteSystem::Glonass:SatelliteSystem::GPS); double l1=getWavelength(sat.system,1,chan),l2=getWavelength(sat.system,2,chan); vector<string> ot={"L1","L2",g.chance(0.5)?"P1":"C1","P2"}; SatPass sp(sat,30.0,ot); Epoch t0=CivilTime(2019,3,1,0,0,0,TimeSystem::GPS).convertToCommonTime(); int np=g.range(40,120); long n1=g.range(-1000,1000),n2=g.range(-1000,1000); vector<int> slip; for(int k=0;k<3;k++) slip.push_back(g.range(0,np)); Rng noise(g.next());
      for(int i=0;i<np;i++){ if(g.chance(0.03)) continue; for(int s:slip) if(s==i){ n1+=g.range(-40,40); n2+=g.range(-40,40); } double rho=2.2e7+300.0*i+0.01*i*i, ion=3+0.01*i; double k2=(l2/l1)*(l2/l1); vector<double> d={(rho-ion)/l1+n1+0.01*noise.unit(),(rho-k2*ion)/l2+n2+0.01*noise.unit(),rho+ion+0.5*noise.unit(),rho+k2*ion+0.5*noise.unit()}; sp.addData(t0+30.0*i,ot,d); }
      string msg; int r; vector<string> cmds; if(job==2){ gdc c; c.setParameter("doFix",1); c.setParameter("doCmds",1); if(g.chance(0.5)) c.setParameter("doRINEX3",1); try{ r=c.DiscontinuityCorrector(sp,msg,cmds,glo?chan:-99); } catch(Exception& x){ r=-77; msg=x.getText(0); } } else { r=dcCall(sp,cmds,msg,glo?chan:-99,ot[2]=="C1"); size_t p=0; while((p=msg.find("GDC",p))!=string::npos){ size_t e=msg.find_first_not_of(' ',p+3); size_t f=e; while(f<msg.size()&&isdigit((unsigned char)msg[f])) f++; if(f>e) msg.replace(p+3,f-p-3,"#"); p+=3; } }
      o<<r<<"|"<<msg<<"|"; for(auto&s:cmds){ o<<s<<";"; } for(unsigned i=0;i<sp.size();i++){ o<<sp.getFlag(i); for(auto&s:ot) o<<" "<<sp.data(i,s); o<<","; } } break;
  case 4: for(int q=0;q<4*n;q++){ int k=g.range(0,32); try{ o<<factorial(k)<<" "<<binomialCoeff(k,g.range(0,k))<<" "<<Gamma(0.5+k)<<" "<<beta(1.0+k,2.5)<<" "<<incompGamma(2.0,0.1*k)<<" "<<errorFunc(0.05*k)<<" "<<StudentsCDF(1.2,k+1)<<" "<<ChisqCDF(3.0,k+1)<<" "<<FDistCDF(2.0,k+1,4)<<";"; } catch(Exception& x){ o<<"x"; } } break;
  case 5: for(int q=0;q<n;q++){ double a=g.range(1,50); string s=g.pick(vector<string>{"(1+2)*"+std::to_string(g.range(1,9)),"sin(0.5)+cos(x)^2","sqrt(abs(x-100))/3","log10(x)+exp(0.1)*2-x","x*(x+1)/(x-0.5)","c/L1+x"}); try{ Expression e(s); e.setGPSConstants(); e.set("x",a); o<<e.evaluate()<<" "; Expression f(e); f.set("x",a); f.setGPSConstants(); o<<f.evaluate()<<" "; e.print(o); } catch(ExpressionException&x){ o<<"x"; } catch(Exception&x){ o<<"X"; } } break;
  case 6: for(int q=0;q<3*n;q++){ string id=string(1,g.pick(vector<char>{'G','R','E','S','C','J','I'}))+g.pick(vector<string>{"C1C","L1W","D2L","S5X","C7I","L2P","C1A","L6Z","C9Q","S2M","Q1C","C1"}); o<<isValidRinexObsID(id); try{ RinexObsID r(id,3.02); o<<r.asString(); r.dump(o); o<<StringUtils::asString((ObsID)r)<<d17(getWavelength(SatelliteSystem::GPS,g.range(1,2))); } catch(Exception& x){ o<<"x"; } try{ RinexSatID s(string(1,id[0])+"1"+string(1,char('0'+g.range(0,9)))); o<<s.toString()<<s.systemString3()<<s; } catch(Exception&x){ o<<"y"; } } break;
  case 7: for(int q=0;q<3*n;q++){ try{ CivilTime c(g.range(1985,2030),g.range(1,12),g.range(1,28),g.range(0,23),g.range(0,59),g.unit()*59,TimeSystem::GPS); CommonTime t(c); string f=g.pick(vector<string>{"%F %g","%Y/%m/%d %H:%M:%06.3f %P","%Q %Z","%04E %w","%U %u","%j %s %y","%J","%E %R"}); string s=printTime(t,f); o<<s; CommonTime b; try{ scanTime(b,s,f); o<<b.asString(); } catch(Exception&x){ o<<"s"; } o<<getLeapSeconds(c.year,c.month,c.day)<<" "<<getTimeSystemCorrection(TimeSystem::GPS,TimeSystem::UTC,c.year,c.month,c.day)<<" "<<JulianDate(t).asString()<<MJD(t).asString()<<YDSTime(t).asString()<<GPSWeekZcount(t).asString(); CommonTime u(t); u.setTimeSystem(TimeSystem::BDT); o<<BDSWeekSecond(u).asString(); } catch(Exception& x){ o<<"x"; } } break;
  case 8: for(int q=0;q<(n+1)/2;q++){ CommonTime t=CivilTime(g.range(1995,2024),g.range(1,12),g.range(1,28),g.range(0,23),0,0,TimeSystem::Any); try{ SunPosition s; MoonPosition m; Triple a=s.getPosition(t),b=m.getPosition(t); for(int i=0;i<3;i++) o<<d17(a[i])<<d17(b[i]); double ar; Position p=SolarPosition(t,ar),l=LunarPosition(t,ar); for(int i=0;i<3;i++) o<<d17(p[i])<<d17(l[i]); } catch(Exception&x){ o<<"x"; } } break;
  case 9: for(int q=0;q<(n+1)/2;q++){ CommonTime t=CivilTime(g.range(1995,2024),g.range(1,12),g.range(1,28),g.range(0,23),0,0,TimeSystem::Any); Position p(g.range(-80,80),g.range(0,359),100.0,Position::Geodetic); try{ SolidTides s; Triple a=s.getSolidTide(t,p); PoleTides pt; Triple b=pt.getPoleTide(t,p,0.1,0.3); for(int i=0;i<3;i++) o<<d17(a[i])<<d17(b[i]); double ar; EphTime et(t); et.setTimeSystem(TimeSystem::UTC); p.transformTo(Position::Cartesian); Triple c=computeSolidEarthTides(p,et,SolarPosition(t,ar),LunarPosition(t,ar)); for(int i=0;i<3;i++) o<<d17(c[i]); } catch(Exception&x){ o<<"x"; } } break;
  case 10: for(int q=0;q<(n+1)/2;q++){ CommonTime t=GPSWeekSecond(2000,(double)(T0+g.range(-3000,9000))); Position rx(g.range(-60,60),g.range(0,359),200.0,Position::Geodetic); rx.transformTo(Position::Cartesian); vector<SatID> sv; vector<double> pr; int bad=g.chance(0.4)?g.range(0,5):-1; for(int s=1;s<=24&&pr.size()<7;s++){ SatID id(s,SatelliteSystem::GPS); try{ Xvt x=gEph->getXvt(id,t); Position p(x.x); if(rx.elevation(p)<5) continue; double r=0; for(int a=0;a<3;a++) r+=(x.x[a]-rx[a])*(x.x[a]-rx[a]); r=std::sqrt(r)-C_MPS*(x.clkbias+x.relcorr)+(int)pr.size()*0.3; if((int)pr.size()==bad) r+=5000; sv.push_back(id); pr.push_back(r); } catch(Exception&){} } PRSolution ps; ps.allowedGNSS.push_back(SatelliteSystem::GPS); NBTropModel tm; tm.setReceiverLatitude(10); tm.setReceiverHeight(100); tm.setDayOfYear(100); tm.setReceiverLatitude(10); Matrix<double> no; int r; try{ r=ps.RAIMCompute(t,sv,pr,no,gEph.get(),&tm); } catch(Exception&x){ r=-99; } o<<r; if(r>=0) o<<ps.outputString("T",r); for(auto&x:sv) o<<x.id<<","; } break;
  case 11: for(int q=0;q<2*n;q++){ double h=g.range(0,3000),lat=g.range(-80,80),el=g.range(5,90); int doy=g.range(1,365); try{ switch(g.range(0,5)){ case 0: { NBTropModel m(h,lat,doy); o<<d17(m.correction(el)); } break; case 1: { SaasTropModel m(lat,doy); m.setReceiverHeight(h); o<<d17(m.correction(el)); } break; case 2: { NeillTropModel m(h,lat,doy); o<<d17(m.correction(el)); } break; case 3: { GGTropModel m(15.0,1000.0,50.0); o<<d17(m.correction(el)); } break; case 4: { MOPSTropModel m(h,lat,doy); o<<d17(m.correction(el)); } break; case 5: { GlobalTropModel m(h,lat,10.0,50000.0+doy); o<<d17(m.correction(el)); } } } catch(Exception&x){ o<<"x"; } } break;
  case 12: for(int q=0;q<2*n;q++){ Position p(g.range(-85,85),g.range(0,359),g.range(-100,20000),Position::Geodetic); Position s(2.0e7,1.0e7*(g.unit()-0.5),1e7); o<<p.printf("%04i %03i %02.3h %x %y %z"); p.transformTo(Position::Cartesian); o<<d17(p.elevation(s))<<d17(p.azimuth(s))<<d17(p.elevationGeodetic(s))<<p.asString(); Position r; try{ r.setToString(p.printf("%X %Y %Z"),"%X %Y %Z"); o<<r.asString(); } catch(Exception&x){ o<<"x"; } p.transformTo(Position::Geocentric); o<<p.asString()<<d17(p.getCurvMeridian()); } break;
  case 13: for(int q=0;q<2*n;q++){ using namespace StringUtils; double v=(g.unit()-0.5)*std::pow(10.0,g.range(-20,20)); o<<d2x(std::to_string(g.range(0,1000)))<<for2doub(doub2for(v,18,2))<<doub2sci(v,20,3)<<" "<<FormattedDouble(v,StringUtils::FFLead::Zero,10,2)<<firstWord("aa bb "+std::to_string(q))<<isLike("abc"+std::to_string(q),"abc*",'*','+','?'); string a="one,two,,three"; o<<numWords(a,',')<<word(a,1,',')<<upperCase(a)<<translate(a,"one","xyz",'*'); o<<prettyPrint("some words to wrap around here","\n","  ","  ",20); vector<string> sp=split(a,','); for(auto&s:sp) o<<s<<"/"; } break;
  case 14: for(int q=0;q<4*n;q++){ SatID id(g.range(1,26),SatelliteSystem::GPS); CommonTime t=GPSWeekSecond(2000,(double)(T0+g.range(-9000,16000))); try{ o<<xv(gEph->getXvt(id,t)); o<<gEph->getSVHealth(id,t)<<gEph->isPresent(id)<<gEph->findEphemeris(id,t).IODE; } catch(Exception&x){ o<<"x"; } } break;
  case 15: for(int q=0;q<3*n;q++){ SatID id(g.range(1,7),SatelliteSystem::GPS); CommonTime t=GPSWeekSecond(2000,(double)(T0+g.range(0,13*900))); t.setTimeSystem(TimeSystem::GPS); try{ o<<xv(gSp3->getXvt(id,t)); } catch(Exception&x){ o<<"x"; } } break;
  case 16: { GloEphemerisStore st; CommonTime t0=CivilTime(2019,3,1,1,15,0,TimeSystem::GLO).convertToCommonTime(); for(int s=1;s<=3;s++){ GloEphemeris e; e.setRecord("R",s,t0,Triple(10000+s*100,-15000,17000),Triple(1.5,2.5,1.2),Triple(1e-6,0,-1e-6),1e-5*s,0,1000,0,s,0,30); st.addEphemeris(e); } for(int q=0;q<n;q++){ try{ o<<xv(st.getXvt(SatID(g.range(1,4),SatelliteSystem::Glonass),t0+g.range(-800,800))); } catch(Exception&x){ o<<"x"; } } } break;
  case 17: for(int q=0;q<n;q++){ vector<string> ot={"L1","L2","P1","P2"}; RinexSatID sat(g.range(1,24),SatelliteSystem::Glonass); int chan=g.range(-7,6); double l1=getWavelength(sat.system,1,chan),l2=getWavelength(sat.system,2,chan); SatPass sp(sat,30.0,ot); Epoch t0=CivilTime(2019,3,1,0,0,0,TimeSystem::GPS).convertToCommonTime(); for(int i=0;i<40;i++){ double rho=2.1e7+4000.0*i; vector<double> d={rho/l1,rho/l2,rho,rho}; sp.addData(t0+30.0*i,ot,d); } int n=-99; string m; try{ o<<sp.getGLOchannel(n,m)<<n<<m; string sm; sp.smooth(true,true,sm); o<<sm<<sp; for(unsigned i=0;i<sp.size();i++) o<<sp.data(i,"P1")<<" "<<sp.getFlag(i); } catch(Exception&x){ o<<"x"; } } break;
  case 18: for(int q=0;q<(n+2)/3;q++){ EphTime t(50000+g.range(0,8000),(double)g.range(0,86399)); t.setTimeSystem(TimeSystem::UTC); EarthOrientation e; e.xp=0.1; e.yp=0.2; e.UT1mUTC=-0.1; e.convention=g.pick(vector<IERSConvention>{IERSConvention::IERS1996,IERSConvention::IERS2003,IERSConvention::IERS2010}); try{ Matrix<double> m=e.ECEFtoInertial(t); for(int i=0;i<3;i++) for(int j=0;j<3;j++) o<<d17(m(i,j)); o<<e; } catch(Exception&x){ o<<"x"; } } break;
  case 19: for(int q=0;q<n;q++){ auto w=subframe(g,g.range(1,3),0,T0); double out[60]; for(double& z:out) z=0; o<<EngNav::subframeConvert(w.data(),(short)2000,out); for(double z:out) o<<" "<<z; } break;
  }
  return o.str(); }
string alone(int job,uint64_t seed,int n){ int fd[2]; if(pipe(fd)) return "?"; pid_t p=fork(); if(p==0){ string r; try{ r=run(job,seed,n); } catch(...){ r="EXC"; } const char* b=r.data(); size_t k=r.size(); while(k){ ssize_t w=write(fd[1],b,k); if(w<=0) break; b+=w; k-=w; } _exit(0); } close(fd[1]); string r; char b[65536]; ssize_t k; while((k=read(fd[0],b,sizeof b))>0) r.append(b,k); close(fd[0]); int st; waitpid(p,&st,0); if(!WIFEXITED(st)) r+="CRASH"; return r; }
// preemption quanta: bursts of short ones between long ones (a switch is a real thread switch and costs time)
string qlist(Rng& g){ int k=g.range(0,3); string s; int n=g.range(2,10); for(int i=0;i<n;i++){ int q=g.chance(0.3)||i==0?g.range(300,12000):k==0?g.range(1,40):k==1?g.range(20,400):k==2?g.range(300,6000):g.range(1,60); s+=(i?",":"")+std::to_string(q); } return s; }
vector<int> parse(const string& s){ vector<int> v; size_t i=0; while(i<s.size()){ v.push_back(atoi(s.c_str()+i)); i=s.find(',',i); if(i==string::npos) break; i++; } return v; }
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op s("!sched"); s.sets("_q",qlist(g)); string c; int n=g.range(1,5); for(int i=0;i<n;i++) c+=(i?",":"")+std::to_string(g.range(1,3)); s.sets("_c",c); p.push_back(s); bool same=g.chance(0.5); int j=g.range(0,NJ-1); int k=g.range(2,4); for(int i=0;i<k;i++){ int parts=g.range(1,3); for(int q=0;q<parts;q++){ Op o("job"); o.set("thr",i); o.set("job",same&&(q==0||g.chance(0.7))?j:g.range(0,NJ-1)); o.set("_seed",g.next()>>1); o.set("n",g.range(1,4)); p.push_back(o); } } return p; }
string diff(const string& a,const string& b){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; size_t s=i>30?i-30:0; return "alone \""+a.substr(s,80)+"\" here \""+b.substr(s,80)+"\" at byte "+std::to_string(i); }
void exec(const Plan& p){ static std::ofstream null("/dev/null"); ConfigureLOGstream::Stream()=&null; ConfigureLOG::ReportingLevel()=ConfigureLOG::Level("ERROR"); shared(); SchedPolicy sp; struct J { int thr,job,n; uint64_t seed; string want,got; }; vector<J> js; int nt=0; for(auto&o:p){ if(o.kind=="!sched"){ for(int q:parse(o.s("_q"))) sp.quanta.push_back(q<1?1:q); for(int c:parse(o.s("_c"))) sp.choice.push_back(c); } if(o.kind=="job"){ J j; j.thr=o.i("thr"); j.job=o.i("job"); j.n=o.i("n"); j.seed=o.i("_seed"); js.push_back(j); nt=std::max(nt,j.thr+1); } }
  for(auto&j:js){ j.want=alone(j.job,j.seed,j.n); opc(jobs[j.job]); }
  vector<std::function<void()>> b; for(int t=0;t<nt;t++) b.push_back([t,&js]{ for(auto&j:js) if(j.thr==t){ try{ j.got=run(j.job,j.seed,j.n); } catch(...){ j.got="EXC"; } } });
  runThreads(b,sp); if(switches()) probe("runs_with_switches"); lg().count("fault.preemption",switches()); lg().shapeEv(std::to_string(switches()));
  for(auto&j:js){ ev(string(jobs[j.job])+" "+hexd(hashStr(j.got))); if(j.got!=j.want) fail(string("shared-state-")+jobs[j.job],string("a computation (")+jobs[j.job]+") gives another result here than alone: "+diff(j.want,j.got)); } }
Reg r({"C08","A run has 2-4 real threads, each doing 1-3 seeded computations out of 20 kinds with objects of its own (or a shared, unchanging store), preempted at seeded library basic blocks; each result is compared with that of the same computation in a fresh process. Non-trivial: at least one preemption.","all library computations named in the property, pthreads","thread scheduler (one thread at a time, seeded)",5000,150000,gen,exec,400000000ull});
}
