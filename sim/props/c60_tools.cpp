// C60: the merge, compare and check programs (their own main()) on the simulated disk.
#include "../core/scenario.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include "CommandOption.hpp"
using namespace sim; using std::string; using std::vector; using std::map; using std::set;
extern "C" { int mergeobs_main(int,char**); int mergenav_main(int,char**); int mergemet_main(int,char**); int rowdiff_main(int,char**); int rnwdiff_main(int,char**); int rmwdiff_main(int,char**); int rowcheck_main(int,char**); int rnwcheck_main(int,char**); int rmwcheck_main(int,char**); }
namespace { namespace c60 {
typedef int64_t I;
typedef int (*Main)(int,char**);
Main MAINS[3][3]={{mergeobs_main,rowdiff_main,rowcheck_main},{mergenav_main,rnwdiff_main,rnwcheck_main},{mergemet_main,rmwdiff_main,rmwcheck_main}};
const char* NAMES[3][3]={{"mergeRinObs","rowdiff","rowcheck"},{"mergeRinNav","rnwdiff","rnwcheck"},{"mergeRinMet","rmwdiff","rmwcheck"}};
const char* OT[]={"C1","P1","L1","D1","S1","P2","L2","D2","S2","C2","C5","L5"};
const char* MT[]={"PR","TD","HR","ZW","ZD","ZT"}; // in the order of the library's enumeration
I clampI(I v,I lo,I hi){ return std::max(lo,std::min(hi,v)); }
// civil date of a day number (1970-01-01 = 0)
void civil(I z,int& y,int& m,int& d){ z+=719468; I era=z/146097; I doe=z-era*146097; I yoe=(doe-doe/1460+doe/36524-doe/146096)/365; I doy=doe-(365*yoe+yoe/4-yoe/100); I mp=(5*doy+2)/153; d=doy-(153*mp+2)/5+1; m=mp<10?mp+3:mp-9; y=yoe+era*400+(m<=2); }
I dayNo(I y,I m,I d){ y-=m<=2; I era=y/400; I yoe=y-era*400; I doy=(153*(m+(m>2?-3:9))+2)/5+d-1; I doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+doe-719468; }
string lab(string s,const char* l){ s.resize(60,' '); return s+l+"\n"; }
template<class... A> string f(const char* fm,A... a){ char b[400]; snprintf(b,sizeof b,fm,a...); return b; }
// ---- records: t in units of 0.1 s (obs), seconds (others) ----
uint64_t hits(){ uint64_t n=0; for(auto k:{"read_eio","open_err","write_eio","write_enospc","close_eio"}){ auto it=lg().stats.find(string("fault.")+k); if(it!=lg().stats.end()) n+=it->second; } return n; }
struct Rec { I t; int key=0; vector<double> hd; map<string,map<string,string>> sat; // obs: sat -> type -> canonical "value,lli,ssi"
  string canon(const vector<string>& types) const { string s=std::to_string(t)+"/"+std::to_string(key); for(double x:hd) s+=" "+f("%.15g",x); for(auto&v:sat){ s+=" "+v.first+"{"; for(auto&ty:types){ auto it=v.second.find(ty); s+=(it==v.second.end()?"-":it->second)+";"; } s+="}"; } return s; }
};
struct File { vector<string> types; vector<string> comments; vector<Rec> recs; };
string obsVal(I milli,int lli,int ssi){ return std::to_string(milli)+","+std::to_string(lli)+","+std::to_string(ssi); }
// ---- seeded content ----
Rec mk(int kind,I slot,I var,I base,I step,uint64_t seed){ Rng g(mix(seed,mix(slot*977+13,var+1))); Rng gt(mix(seed,slot)); Rec r;
  if(kind==0){ r.t=(base+slot*step)*10; r.key=0; int ns=gt.range(1,gt.chance(0.2)?14:6); vector<string> all; for(int i=1;i<=32;i++) all.push_back(f("G%02d",i)); for(int i=1;i<=8;i++) all.push_back(f("R%02d",i)); gt.shuffle(all); set<string> sv(all.begin(),all.begin()+ns); bool clk=gt.chance(0.3); double ck=gt.range(-400000000,400000000)/1e9; int what=var?g.range(0,3):0; if(var&&what==1&&sv.size()<14) sv.insert(all[20]); if(var&&what==2&&sv.size()>0){ sv.erase(sv.begin()); sv.insert(all[21]); } if(clk) r.hd.push_back(ck); else r.hd.push_back(0); size_t pick=g.range(0,1000); size_t n=0,tot=sv.size()*12; for(auto&s:sv) for(auto ty:OT){ Rng gv(mix(seed,hashStr(s+ty)+slot*31)); I v=gv.range(-9999999,90000000)*(I)gv.range(1,300); int lli=gv.chance(0.7)?0:gv.range(1,7),ssi=gv.chance(0.4)?0:gv.range(1,9); if(var&&what!=1&&what!=2&&n++%tot==pick%tot){ v+=g.chance(0.5)?1:g.range(2,100000); } if(gv.chance(0.08)) { v=0; lli=ssi=0; } r.sat[s][ty]=obsVal(v,lli,ssi); } }
  else if(kind==1){ I toe=base/7200*7200+slot*7200; r.t=toe; r.key=gt.range(1,32); auto d=[&](int lo,int hi){ I m=g.range(100000000000LL,999999999999LL); int e=g.range(lo,hi); string s=f("%s0.%012lldE%d",g.chance(0.5)?"-":"",(long long)m,e); return strtod(s.c_str(),0); }; auto D=[&](Rng& h,int lo,int hi){ I m=h.range(100000000000LL,999999999999LL); int e=h.range(lo,hi); string s=f("%s0.%012lldE%d",h.chance(0.5)?"-":"",(long long)m,e); return strtod(s.c_str(),0); };
    I week=(toe-315964800)/604800, sow=(toe-315964800)%604800; int iode=gt.range(0,255); double xm=sow-gt.range(0,100)*30; if(xm<0) xm=0; vector<double> v={D(gt,-5,-4),D(gt,-12,-11),0.0, (double)iode,D(gt,1,2),D(gt,-8,-8),D(gt,0,0), D(gt,-6,-5),std::fabs(D(gt,-2,-2)),D(gt,-6,-5),5153.0+gt.range(0,999999)/1e6, (double)sow,D(gt,-7,-7),D(gt,0,0),D(gt,-7,-7), 0.9+gt.range(0,99999)/1e6,D(gt,2,3),D(gt,0,0),-std::fabs(D(gt,-8,-8)), D(gt,-9,-9),(double)gt.range(0,1),(double)week,0.0, 2.0,(double)(gt.chance(0.8)?0:gt.range(1,63)),D(gt,-8,-8),(double)iode, xm,4.0}; if(var){ static const int which[]={0,0,13,16,1,4,5,6,7,9,12,14,17,18,19,25,8,10,15,20,24,26}; static const int lo[29]={-5,-12,0,0,1,-8,0,-6,0,-6,0,0,-7,0,-7,0,2,0,-8,-9,0,0,0,0,0,-8}; int w=which[g.range(0,21)]; if(w==24) v[24]=v[24]?0:63; else if(w==20) v[20]=1-v[20]; else if(w==26) v[26]=v[26]>=768?v[26]-256:v[26]+256; else if(w==8||w==10||w==15) v[w]=v[w]+(v[w]>0.5?1e-6:1e-9)*g.range(1,9); else { double x=d(lo[w],lo[w]); if(w==18) x=-std::fabs(x); v[w]=x; } } r.hd=v; }
  else { r.t=base+slot*step; for(int i=0;i<6;i++){ Rng gv(mix(seed,slot*7+i)); I v=i==0?gv.range(8000,11000):i==2?gv.range(0,1000):gv.range(-400,9999); if(var&&(g.chance(0.3)||i==0)) v+=g.range(1,9); r.sat[""][MT[i]]=std::to_string(v); } }
  return r; }
// ---- own writers ----
string epoch(I t10,const char* fm){ I s=t10/10; int y,m,d; civil(s/86400,y,m,d); I k=s%86400; return f(fm,y%100,m,d,(int)(k/3600),(int)(k/60%60),(k%60)+(t10%10)/10.0); }
string d19(double v){ string s=f("%.11E",v); // d.ddd..E+xx -> 0.dddD+xx
  if(v==0) return " 0.000000000000D+00"; bool neg=s[0]=='-'; if(neg) s=s.substr(1); size_t e=s.find('E'); string dig=s.substr(0,1)+s.substr(2,e-2); int ex=atoi(s.c_str()+e+1)+1; return f("%s0.%sD%s%02d",neg?"-":" ",dig.c_str(),ex<0?"-":"+",abs(ex)); }
string text(int kind,const File& F){ string s; if(kind==0){ s+=lab("     2.11           OBSERVATION DATA    M (MIXED)","RINEX VERSION / TYPE")+lab(f("%-20s%-20s%-20s","sim","agency","01-JAN-10 00:00:00"),"PGM / RUN BY / DATE"); for(auto&c:F.comments) s+=lab(c,"COMMENT"); s+=lab("MARK","MARKER NAME")+lab(f("%-20s%-40s","OBS","AGY"),"OBSERVER / AGENCY")+lab(f("%-20s%-20s%-20s","1","RECTYPE","VERS"),"REC # / TYPE / VERS")+lab(f("%-20s%-20s","2","ANTTYPE"),"ANT # / TYPE")+lab(f("%14.4f%14.4f%14.4f",1.0,2.0,3.0),"APPROX POSITION XYZ")+lab(f("%14.4f%14.4f%14.4f",1.0,0.0,0.0),"ANTENNA: DELTA H/E/N")+lab("     1     1","WAVELENGTH FACT L1/2"); string l=f("%6d",(int)F.types.size()); for(size_t i=0;i<F.types.size();i++){ if(i&&i%9==0){ s+=lab(l,"# / TYPES OF OBSERV"); l="      "; } l+="    "+F.types[i]; } s+=lab(l,"# / TYPES OF OBSERV"); I t=F.recs.empty()?0:F.recs[0].t; I q=t/10; int y,m,d; civil(q/86400,y,m,d); s+=lab(f("%6d%6d%6d%6d%6d%13.7f     GPS",y,m,d,(int)(q%86400/3600),(int)(q/60%60),(q%60)+(t%10)/10.0),"TIME OF FIRST OBS")+lab("","END OF HEADER");
    for(auto&r:F.recs){ string e=epoch(r.t," %02d %2d %2d %2d %2d%11.7f")+f("  %d%3d",r.key,(int)r.sat.size()); int n=0; string clk=r.hd[0]!=0?f("%12.9f",r.hd[0]):""; bool first=true; for(auto&v:r.sat){ if(n==12){ e.resize(68,' '); s+=e+(first?clk:"")+"\n"; first=false; e=string(32,' '); n=0; } e+=v.first; n++; } if(first&&clk.size()){ e.resize(68,' '); e+=clk; } s+=e+"\n"; for(auto&v:r.sat){ string l; for(size_t i=0;i<F.types.size();i++){ if(i&&i%5==0){ s+=l+"\n"; l=""; } long long mv; int a,b; sscanf(v.second.at(F.types[i]).c_str(),"%lld,%d,%d",&mv,&a,&b); l+=mv==0&&!a&&!b?string(16,' '):f("%14.3f",mv/1000.0)+(a?std::to_string(a):" ")+(b?std::to_string(b):" "); } s+=l+"\n"; } } }
  else if(kind==1){ s+=lab("     2.10           NAVIGATION DATA","RINEX VERSION / TYPE")+lab(f("%-20s%-20s%-20s","sim","agency","01-JAN-10 00:00:00"),"PGM / RUN BY / DATE"); for(auto&c:F.comments) s+=lab(c,"COMMENT"); s+=lab("","END OF HEADER"); for(auto&r:F.recs){ s+=f("%2d ",r.key)+epoch(r.t*10,"%02d %2d %2d %2d %2d %4.1f")+d19(r.hd[0])+d19(r.hd[1])+d19(r.hd[2])+"\n"; for(int i=3;i<29;i+=4){ s+="   "; for(int k=i;k<i+4&&k<29;k++) s+=d19(r.hd[k]); s+="\n"; } } }
  else { s+=lab("     2.11           METEOROLOGICAL DATA","RINEX VERSION / TYPE")+lab(f("%-20s%-20s%-20s","sim","agency","01-JAN-10 00:00:00"),"PGM / RUN BY / DATE"); for(auto&c:F.comments) s+=lab(c,"COMMENT"); s+=lab("MARK","MARKER NAME"); string l=f("%6d",(int)F.types.size()); for(auto&t:F.types) l+="    "+t; s+=lab(l,"# / TYPES OF OBSERV"); for(auto&t:F.types) s+=lab(f("%-20s%-20s      %7.1f    %2s ","MODEL","TYPE",0.1,t.c_str()),"SENSOR MOD/TYPE/ACC"); s+=lab(f("%14.4f%14.4f%14.4f%14.4f PR ",1.0,2.0,3.0,4.0),"SENSOR POS XYZ/H")+lab("","END OF HEADER"); for(auto&r:F.recs){ I k=r.t; int y,m,d; civil(k/86400,y,m,d); k%=86400; s+=f(" %02d %2d %2d %2d %2d %2d",y%100,m,d,(int)(k/3600),(int)(k/60%60),(int)(k%60)); for(auto&t:F.types) s+=f("%7.1f",atoi(r.sat.at("").at(t).c_str())/10.0); s+="\n"; } }
  return s; }
// ---- own readers (of what a merge wrote) ----
struct Bad { string why; };
string sub(const string& l,size_t a,size_t n){ return a<l.size()?l.substr(a,n):""; }
string trim(const string& s){ size_t a=s.find_first_not_of(' '),b=s.find_last_not_of(' '); return a==string::npos?"":s.substr(a,b-a+1); }
double num(string s){ for(auto&c:s) if(c=='D'||c=='d') c='E'; return strtod(s.c_str(),0); }
I year(int yy){ return yy<80?2000+yy:1900+yy; }
File parse(int kind,const string& t,string& firstObs){ vector<string> L; { std::istringstream i(t); string l; while(std::getline(i,l)) L.push_back(l); } if(t.size()&&t.back()!='\n') throw Bad{"the last line is cut"}; File F; size_t i=0; bool eoh=false; for(;i<L.size()&&!eoh;i++){ string lb=trim(sub(L[i],60,20)); if(lb=="COMMENT") F.comments.push_back(trim(L[i].substr(0,60))); else if(lb=="# / TYPES OF OBSERV"){ for(size_t k=6;k+6<=60;k+=6){ string x=trim(L[i].substr(k,6)); if(x.size()) F.types.push_back(x); } } else if(lb=="TIME OF FIRST OBS") firstObs=trim(L[i].substr(0,43)); else if(lb=="END OF HEADER") eoh=true; } if(!eoh) throw Bad{"no end of header"};
  auto need=[&](){ if(i>=L.size()) throw Bad{"a record is cut"}; return L[i++]; };
  while(i<L.size()){ Rec r; string e=need(); if(kind==0){ I y=year(atoi(sub(e,1,2).c_str())); double ss=num(sub(e,15,11)); r.t=(dayNo(y,atoi(sub(e,4,2).c_str()),atoi(sub(e,7,2).c_str()))*86400+atoi(sub(e,10,2).c_str())*3600+atoi(sub(e,13,2).c_str())*60)*10+llround(ss*10); r.key=atoi(sub(e,28,1).c_str()); int n=atoi(sub(e,29,3).c_str()); r.hd.push_back(num(sub(e,68,12))); vector<string> sv; string cur=e; for(int k=0;k<n;k++){ if(k&&k%12==0) cur=need(); string x=sub(cur,32+3*(k%12),3); if(x.size()<3) throw Bad{"satellite list"}; if(x[0]==' ') x[0]='G'; if(x[1]==' ') x[1]='0'; sv.push_back(x); } if((int)set<string>(sv.begin(),sv.end()).size()!=n) throw Bad{"a satellite appears twice in one epoch"}; for(auto&s:sv){ string l; for(size_t k=0;k<F.types.size();k++){ if(k%5==0) l=need(); string v=sub(l,16*(k%5),14),a=sub(l,16*(k%5)+14,1),b=sub(l,16*(k%5)+15,1); r.sat[s][F.types[k]]=obsVal(llround(num(v)*1000),atoi(a.c_str()),atoi(b.c_str())); } if(F.types.empty()){ r.sat[s]; need(); } } }
    else if(kind==1){ r.key=atoi(sub(e,0,2).c_str()); r.t=dayNo(year(atoi(sub(e,3,2).c_str())),atoi(sub(e,6,2).c_str()),atoi(sub(e,9,2).c_str()))*86400+atoi(sub(e,12,2).c_str())*3600+atoi(sub(e,15,2).c_str())*60+llround(num(sub(e,17,5))); for(int k=0;k<3;k++) r.hd.push_back(num(sub(e,22+19*k,19))); for(int k=3;k<29;){ string l=need(); for(int q=0;q<4&&k<29;q++,k++) r.hd.push_back(num(sub(l,3+19*q,19))); } }
    else { r.t=dayNo(year(atoi(sub(e,1,2).c_str())),atoi(sub(e,4,2).c_str()),atoi(sub(e,7,2).c_str()))*86400+atoi(sub(e,10,2).c_str())*3600+atoi(sub(e,13,2).c_str())*60+atoi(sub(e,16,2).c_str()); for(size_t k=0;k<F.types.size();k++) r.sat[""][F.types[k]]=std::to_string(llround(num(sub(e,18+7*k,7))*10)); }
    F.recs.push_back(r); } return F; }
// ---- plan ----
Plan gen(uint64_t seed,int tier){ Rng g(seed); Plan p; Op c("!cfg"); int kind=g.range(0,2),nf=g.range(1,4); c.set("kind",kind).set("nf",nf).set("seed",g.range(1,1<<30)).set("_base",980000000LL+g.range(0,600000000)).set("step",g.pick(vector<I>{1,15,30,60,3600,86400})).set("same",g.chance(0.5)); p.push_back(c);
  int n=g.range(1,tier?20:10); bool like=g.chance(0.5); bool sorted=g.chance(0.7); int slot=0; for(int i=0;i<n;i++){ Op o("rec"); slot=sorted?slot+g.range(g.chance(0.1)?0:1,2):g.range(0,n); o.set("t",slot).set("m",like&&g.chance(0.9)?(1<<nf)-1:g.range(1,(1<<nf)-1)).set("v",g.chance(0.85)?0:g.range(1,3)); if(o.i("v")&&g.chance(0.7)){ int a=g.range(0,nf-1); o.set("m",1<<a); Op b("rec"); b.set("t",slot).set("m",((1<<nf)-1)&~(1<<a)).set("v",0); if(b.i("m")) p.push_back(b); } p.push_back(o); }
  int na=g.range(1,4); for(int i=0;i<na;i++){ int q=g.range(0,99); Op o(q<50?"merge":q<80?"diff":"check"); o.set("a",g.range(0,nf-1)).set("b",g.range(0,nf-1)).set("perm",g.range(0,1<<20)).set("m",g.chance(0.6)?(1<<nf)-1:g.range(1,(1<<nf)-1)); if(o.kind=="merge") o.set("old",g.chance(0.4)?g.range(0,20000):0).set("again",g.chance(0.25)).set("dir",g.chance(0.2));
    if(g.chance(0.5)){ int w=g.range(0,o.kind=="merge"?6:3); o.set("f",1+w).set("ff",g.range(0,nf-1)).set("at",g.chance(0.3)?g.range(0,1200):g.range(0,60000)).set("n",g.pick(vector<I>{1,1,2,-1})); } if(g.chance(0.4)) o.set("sh",g.pick(vector<I>{1,7,60,512})).set("ei",g.chance(0.5)); p.push_back(o); }
  return p; }
struct Run { const Plan& p; int kind,nf; vector<File> fs; vector<string> paths;
  Run(const Plan& P):p(P){ const Op& c=p.at(0); kind=(int)(((c.i("kind")%3)+3)%3); nf=(int)clampI(c.i("nf"),1,4); uint64_t seed=c.i("seed"); Rng g(mix(seed,99)); I base=clampI(c.i("_base"),980000000,1600000000),step=clampI(c.i("step"),1,86400); vector<string> all; if(kind==0) all.assign(OT,OT+12); if(kind==2) all.assign(MT,MT+6); vector<string> common; if(kind!=1){ vector<string> a=all; g.shuffle(a); int nt=g.range(1,(int)a.size()); common.assign(a.begin(),a.begin()+nt); }
    for(int i=0;i<nf;i++){ File F; if(kind!=1){ F.types=common; if(!c.i("same")) for(auto&t:all) if(!std::count(common.begin(),common.end(),t)&&g.chance(0.3)) F.types.push_back(t); g.shuffle(F.types); if(kind==2&&!std::count(F.types.begin(),F.types.end(),"PR")) F.types.push_back("PR"); } int nc=g.range(0,3); for(int k=0;k<nc;k++) F.comments.push_back(g.chance(0.4)?"shared comment":"comment "+std::to_string(g.range(1,99999))); fs.push_back(F); paths.push_back("/sim/in/f"+std::to_string(i)+".dat"); }
    if(kind==2){ } for(size_t i=1;i<p.size();i++) if(p[i].kind=="rec"){ const Op& o=p[i]; Rec r=mk(kind,clampI(o.i("t"),0,40),clampI(o.i("v"),0,9),base,step,seed); for(int k=0;k<nf;k++) if(o.i("m")>>k&1) fs[k].recs.push_back(r); }
    for(int k=0;k<nf;k++) if(fs[k].recs.empty()) fs[k].recs.push_back(mk(kind,0,0,base,step,seed)); }
  string cap; bool faultHit=false;
  int call(int which,vector<string> args){ args.insert(args.begin(),NAMES[kind][which]); vector<char*> av; for(auto&s:args) av.push_back(&s[0]); av.push_back(nullptr); gpstk::defaultCommandOptionList.clear(); std::ostringstream o,e; std::streambuf *k=std::cout.rdbuf(o.rdbuf()),*k2=std::cerr.rdbuf(e.rdbuf()); struct Back { std::streambuf *k,*k2; ~Back(){ std::cout.rdbuf(k); std::cerr.rdbuf(k2); std::cout.clear(); } } back{k,k2}; std::cout.clear(); std::cout.flags(std::ios::skipws|std::ios::dec); std::cout.precision(6); int rc=-1; try { rc=MAINS[kind][which]((int)args.size(),av.data()); } catch(...){ cap=o.str()+e.str(); fail("program-threw",string(NAMES[kind][which])+" ended with an exception"); } cap=o.str()+e.str(); ev(string(NAMES[kind][which])+" -> "+std::to_string(rc)); lg().shapeEv(f("%s%d",NAMES[kind][which],rc)); return rc; }
  uint64_t base0=0;
  // faults of one action
  void arm(const Op& o,const string& out){ int w=(int)o.i("f"); string in=paths[clampI(o.i("ff"),0,nf-1)]; int n=(int)o.i("n"); if(n==0) n=1; I at=clampI(o.i("at"),0,1<<20); I insz=disk().get(in).size(); if(w==1||w==2){ IoPolicy& P=disk().pol[in]; P.readErrAt=at%std::max<I>(1,insz); P.readErrCount=n; } else if(w==3){ disk().pol[in].openFail=true; disk().pol[in].openErr=at%2?13:24; disk().pol[in].openFailCount=n; } else if(w==5){ IoPolicy& P=disk().pol[out]; P.capacity=at%20000; } else if(w==6){ IoPolicy& P=disk().pol[out]; P.writeErrAtCall=at%8; P.writeErrCount=n; } else if(w==7){ disk().pol[out].closeFail=true; } else if(w==4&&out.size()){ disk().pol[out].openFail=true; disk().pol[out].openErr=13; disk().pol[out].openFailCount=-1; }
    if(o.i("sh")>0) for(auto q: vector<string>(out.size()?vector<string>{in,out}:vector<string>{in})){ IoPolicy& P=disk().pol[q]; P.readSizes={(int)o.i("sh"),-1,(int)o.i("sh")}; if(o.i("ei")) P.readSizes.push_back(0); P.writeSizes=P.readSizes; } }
  vector<string> outTypes(const vector<int>& in){ vector<string> ts=fs[in[0]].types; if(in.size()<2) return ts; set<string> s(ts.begin(),ts.end()); for(int i:in){ set<string> q; for(auto&t:fs[i].types) if(s.count(t)) q.insert(t); s=q; } vector<string> r; if(kind==2){ for(auto m:MT) if(s.count(m)) r.push_back(m); } else r.assign(s.begin(),s.end()); return r; }
  void merge(const Op& o){ vector<int> in; for(int i=0;i<nf;i++) if(o.i("m")>>i&1) in.push_back(i); if(in.empty()) in.push_back(0); Rng g(o.i("perm")); g.shuffle(in); if(o.i("again")) in.push_back(in[0]); string out=o.i("dir")?"/sim/o/new/dir/out.dat":"/sim/out.dat"; if(o.i("old")>0){ disk().mkdirs("/sim/o/new/dir"); disk().put(out,string(clampI(o.i("old"),0,30000),'x')); } arm(o,out); uint64_t before=hits(); vector<string> a={"-o",out}; for(int i:in) a.push_back(paths[i]); int rc=call(0,a); bool hit=hits()!=before; disk().pol.clear(); string res=disk().get(out);
    if(rc!=0){ if(!hit) fail("merge-failed",string(NAMES[kind][0])+" fails ("+std::to_string(rc)+") without a fault: "+cap.substr(0,300)); probe("merge.failed"); return; }
    vector<string> ts=outTypes(in); string first; File R; try { R=parse(kind,res,first); } catch(Bad& b){ fail("merge-broken-output",b.why+" in the output of a successful merge ("+std::to_string(res.size())+" bytes)"); }
    if(kind!=1&&R.types!=ts){ string x; for(auto&t:R.types) x+=t+" "; fail("merge-types","observation types of the output: "+x); }
    map<string,vector<string>> byKey; set<string> cs; vector<string> want1; for(int i:in){ for(auto&c:fs[i].comments) cs.insert(c); for(auto&r:fs[i].recs){ string cn=r.canon(ts); byKey[kind==1?cn:f("%020lld",(long long)r.t)].push_back(cn); } }
    // one record per epoch (obs, met) or per distinct record (nav)
    set<string> seen; string last; double lastX=-1; for(auto&r:R.recs){ string cn=r.canon(ts); string k=kind==1?cn:f("%020lld",(long long)r.t); auto it=byKey.find(k); if(it==byKey.end()) fail("merge-invented","the output has a record that no input has: "+cn.substr(0,300)); if(!std::count(it->second.begin(),it->second.end(),cn)) fail("merge-altered","the record of "+k+" differs from those of the inputs: "+cn.substr(0,300)+" instead of "+it->second[0].substr(0,300)); if(!seen.insert(k).second) fail("merge-duplicate","a record appears twice: "+cn.substr(0,200)); if(kind!=1){ if(k<last) fail("merge-disorder","records are not in time order"); last=k; } else { double x=r.hd[21]*604800+r.hd[27]; if(x<lastX) fail("merge-disorder","records are not in the order of their transmit times"); lastX=x; } }
    if(seen.size()!=byKey.size()) fail("merge-lost",string(hit?"after a fault, ":"")+"the output of a successful merge has "+std::to_string(seen.size())+" of "+std::to_string(byKey.size())+" records");
    set<string> rc_(R.comments.begin(),R.comments.end()); for(auto&c:cs) if(!rc_.count(c)) fail("merge-comment","a comment is lost: "+c); for(auto&c:rc_) if(!cs.count(c)) fail("merge-comment","an invented comment: "+c);
    if(kind==0){ I t=R.recs[0].t; I q=t/10; int y,m,d; civil(q/86400,y,m,d); string w=trim(f("%6d%6d%6d%6d%6d%13.7f",y,m,d,(int)(q%86400/3600),(int)(q/60%60),(q%60)+(t%10)/10.0)); if(first.compare(0,w.size(),w)!=0) fail("merge-first-obs","first epoch in the header: "+first+", first record: "+w); }
    probe("merge.ok"); probe("merged",seen.size()); }
  bool ascending(const File& F){ for(size_t i=1;i<F.recs.size();i++) if(F.recs[i].t<=F.recs[i-1].t) return false; return true; }
  // what a compare program prints about the differences: every record that differs, once, with the right values
  void listing(int a,int b,const vector<string>& ts,bool alike){ vector<vector<string>> L; { std::istringstream is(cap); string l; while(std::getline(is,l)){ if(l.empty()) continue; vector<string> t; if(l[0]=='<'||l[0]=='>'||(kind==0&&l[0]=='-')){ t.push_back(l.substr(0,1)); l=l.substr(1); } else t.push_back("="); std::istringstream ls(l); string x; while(ls>>x) t.push_back(x); L.push_back(t); } }
    auto wrong=[&](const string& w){ fail("diff-listing",string(NAMES[kind][1])+": "+w); };
    if(kind==0){ if(!alike) return; map<I,const Rec*> A,B; for(auto&r:fs[a].recs) A[r.t]=&r; for(auto&r:fs[b].recs) B[r.t]=&r; std::multiset<string> want,got; map<string,std::multiset<I>> vals; set<I> all; for(auto&x:A) all.insert(x.first); for(auto&x:B) all.insert(x.first);
      auto put=[&](char c,I t,const string& sv,const map<string,string>* x,const map<string,string>* y){ int yy,m,d; I q=t/10; civil(q/86400,yy,m,d); string k=f("%c%d/%03d %.6f ",c,yy,(int)(q/86400-dayNo(yy,1,1)+1),q%86400+(t%10)/10.0)+sv; want.insert(k); for(auto&ty:ts){ long long v=0,w=0; if(x) sscanf(x->at(ty).c_str(),"%lld",&v); if(y) sscanf(y->at(ty).c_str(),"%lld",&w); vals[k].insert(x&&y?v-w:x?v:w); } };
      for(I t:all){ const Rec *x=A.count(t)?A[t]:nullptr,*y=B.count(t)?B[t]:nullptr; if(!x||!y){ for(auto&v:(x?x:y)->sat) put(x?'<':'>',t,v.first,x?&v.second:nullptr,x?nullptr:&v.second); continue; }
        int st=x->hd!=y->hd; set<string> sv; for(auto&v:x->sat) sv.insert(v.first); for(auto&v:y->sat) sv.insert(v.first); bool unsure=false; for(auto&v:sv){ if(!x->sat.count(v)||!y->sat.count(v)){ st=1; continue; } for(auto&ty:ts){ string u=x->sat.at(v).at(ty),w=y->sat.at(v).at(ty); if(u==w) continue; long long m1,m2; int l1,l2,s1,s2; sscanf(u.c_str(),"%lld,%d,%d",&m1,&l1,&s1); sscanf(w.c_str(),"%lld,%d,%d",&m2,&l2,&s2); if((v[0]=='R'&&ty[1]=='5')||(m1==m2&&!(l1&&l2&&l1!=l2)&&!(s1&&s2&&s1!=s2))) unsure=true; else st=1; } }
        if(!st&&unsure){ probe("listing.unsure"); return; } if(!st) continue; for(auto&v:sv){ bool h=x->sat.count(v),k=y->sat.count(v); put(h&&k?'-':h?'<':'>',t,v,h?&x->sat.at(v):nullptr,k?&y->sat.at(v):nullptr); } }
      for(auto&t:L){ if(t[0]=="="||t.size()<5) continue; string k=t[0]+t[1]+" "+t[2]+" "+t[4]; got.insert(k); if(!vals.count(k)) wrong("a difference is reported that is not there: "+k); auto v=vals[k]; for(size_t i=5;i<t.size();i+=2){ auto it=v.find(llround(num(t[i])*1000)); if(it==v.end()) wrong("the value "+t[i]+" of "+k+" is wrong"); v.erase(it); } }
      if(got!=want){ string m; for(auto&k:want) if(got.count(k)!=want.count(k)) m=k; wrong("a difference is not reported once: "+m); } probe("listing.obs"); return; }
    // what each file has more of than the other
    map<string,vector<const Rec*>> X,Y; for(auto&r:fs[a].recs) X[r.canon(ts)].push_back(&r); for(auto&r:fs[b].recs) Y[r.canon(ts)].push_back(&r); map<string,vector<const Rec*>> ka,kb; auto key=[&](const Rec& r){ return kind==1?f("%lld %d %.0f",(long long)r.t,r.key,r.hd[27]):f("%lld",(long long)r.t); };
    for(auto&x:X) for(size_t i=Y.count(x.first)?Y[x.first].size():0;i<x.second.size();i++) ka[key(*x.second[0])].push_back(x.second[0]); for(auto&y:Y) for(size_t i=X.count(y.first)?X[y.first].size():0;i<y.second.size();i++) kb[key(*y.second[0])].push_back(y.second[0]);
    size_t pairs=0,la=0,lb=0,np=0,na=0,nb=0; for(auto&x:ka){ size_t m=std::min(x.second.size(),kb.count(x.first)?kb[x.first].size():0); pairs+=m; la+=x.second.size()-m; } for(auto&y:kb){ size_t m=std::min(y.second.size(),ka.count(y.first)?ka[y.first].size():0); lb+=y.second.size()-m; }
    auto isPair=[&](const vector<string>& t){ return t[0]=="="&&t.size()>=(kind==1?32u:5u)&&isdigit((unsigned char)t[1][0]); };
    for(auto&t:L){ if(t[0]=="<") na++; else if(t[0]==">") nb++; else if(isPair(t)) np++; }
    if(np!=pairs||na!=la||nb!=lb) wrong(f("%d differing, %d and %d single records are listed instead of %d, %d and %d",(int)np,(int)na,(int)nb,(int)pairs,(int)la,(int)lb));
    for(auto&x:ka){ auto it=kb.find(x.first); if(x.second.size()!=1||it==kb.end()||it->second.size()!=1) continue; const Rec &r=*x.second[0],&q=*it->second[0]; int yy,m,d; civil(r.t/86400,yy,m,d); string doy=std::to_string(r.t/86400-dayNo(yy,1,1)+1),sod=std::to_string(r.t%86400); bool ok=false; for(auto&t:L){ if(!isPair(t)||t[1]!=doy||t[2]!=sod) continue; bool good=true; if(kind==1){ for(int i=0;i<29&&good;i++){ double w=r.hd[i]-q.hd[i],g=num(t[3+i]); if(i==21) continue; if(std::fabs(g-w)>1e-9*(std::fabs(r.hd[i])+std::fabs(q.hd[i]))+1e-300) good=false; } } else { map<string,I> v; for(size_t i=5;i+1<t.size();i+=2) v[t[i+1]]=llround(num(t[i])*10); if(v.size()!=ts.size()) good=false; for(auto&ty:ts) if(!v.count(ty)||v[ty]!=atoi(r.sat.at("").at(ty).c_str())-atoi(q.sat.at("").at(ty).c_str())) good=false; } if(good) ok=true; }
      if(!ok) wrong("the values listed for the difference at day "+doy+", second "+sod+" are not the differences of the two records"); probe("listing.pair"); }
    probe("listing.set"); }
  void diff(const Op& o){ int a=(int)clampI(o.i("a"),0,nf-1),b=(int)clampI(o.i("b"),0,nf-1); if(kind==0&&(!ascending(fs[a])||!ascending(fs[b]))){ probe("diff.skipped"); return; } arm(o,""); uint64_t before=hits(); int rc=call(1,{paths[a],paths[b]}); bool hit=hits()!=before; disk().pol.clear();
    vector<string> ts; for(auto&t:fs[a].types) if(std::count(fs[b].types.begin(),fs[b].types.end(),t)) ts.push_back(t); auto list=[&](int k){ vector<string> v; for(auto&r:fs[k].recs){ string s=r.canon(ts); if(kind==0){ s=std::to_string(r.t)+f("%.15g",r.hd[0]); } v.push_back(s); } std::sort(v.begin(),v.end()); return v; }; bool same=list(a)==list(b);
    // a zero indicator means "not given" and is compatible with any other; RINEX 2 names are matched through their RINEX 3 meaning, which
    // depends on what else the file has: with different lists of types only the epochs and satellites are sure to be compared
    bool sure=true; set<string> ta(fs[a].types.begin(),fs[a].types.end()),tb(fs[b].types.begin(),fs[b].types.end()); 
    if(same&&kind==0) for(size_t i=0;i<fs[a].recs.size();i++){ const Rec &x=fs[a].recs[i],&y=fs[b].recs[i]; if(x.sat.size()!=y.sat.size()) same=false; for(auto&v:x.sat){ auto it=y.sat.find(v.first); if(it==y.sat.end()){ same=false; continue; } for(auto&t:ts){ long long m1,m2; int l1,l2,s1,s2; sscanf(v.second.at(t).c_str(),"%lld,%d,%d",&m1,&l1,&s1); sscanf(it->second.at(t).c_str(),"%lld,%d,%d",&m2,&l2,&s2); if(m1!=m2||(l1&&l2&&l1!=l2)||(s1&&s2&&s1!=s2)){ if(ta!=tb||(v.first[0]=='R'&&t[1]=='5')) sure=false; else same=false; } } } }
    if(kind==0&&same&&!sure){ probe("diff.unsure"); return; }
    if(rc==0&&!same) fail("diff-agrees",string(NAMES[kind][1])+(hit?" (after a fault)":"")+" says that two different files agree"); if(rc!=0&&same&&!hit) fail("diff-differs",string(NAMES[kind][1])+" says that two equal files differ: "+cap.substr(0,300)); if(rc==0&&hit&&!same) return; if(rc==1&&!hit&&!same) listing(a,b,ts,ta==tb); if(rc==0) probe("diff.equal"); else probe(hit?"diff.failed":"diff.different"); }
  void check(const Op& o){ vector<int> in; for(int i=0;i<nf;i++) if(o.i("m")>>i&1) in.push_back(i); if(in.empty()) in.push_back(0); arm(o,""); uint64_t before=hits(); vector<string> a; for(int i:in) a.push_back(paths[i]); int rc=call(2,a); bool hit=hits()!=before; disk().pol.clear(); if(rc!=0){ if(!hit) fail("check-failed",string(NAMES[kind][2])+" fails without a fault: "+cap.substr(0,300)); probe("check.failed"); return; }
    size_t at=0; for(int i:in){ size_t q=cap.find("Read ",at); if(q==string::npos) fail("check-count","no count for "+paths[i]); long n=atol(cap.c_str()+q+5); at=q+5; if(n!=(long)fs[i].recs.size()) fail("check-count",string(NAMES[kind][2])+(hit?" (after a fault)":"")+" counts "+std::to_string(n)+" of "+std::to_string(fs[i].recs.size())+" records without reporting an error"); } probe("check.ok"); }
  void run(){ disk().mkdirs("/sim/in"); disk().mkdirs("/sim/cwd"); for(int i=0;i<nf;i++) disk().put(paths[i],text(kind,fs[i])); for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; if(o.kind=="rec") continue; opc(o.kind); if(o.kind=="merge") merge(o); else if(o.kind=="diff") diff(o); else if(o.kind=="check") check(o); } } };
void exec(const Plan& p){ Run r(p); r.run(); }
Reg r60({"C60","A run writes 1-4 RINEX 2 files of one kind (observation, navigation, weather; own writer) that share, repeat and contradict each other's records, in any order, and runs 1-4 programs on them: merge, compare, check. Faults: open, read, write, space, close errors, short and interrupted transfers. Non-trivial: at least one program ended with success.","core/apps mergetools, difftools, checktools (9 whole programs), FileFilterFrame, filter operators, FileSpecFind, RINEX readers and writers","disk (in memory), the programs' arguments and output",8000,300000,gen,exec,2000000000});
}}
