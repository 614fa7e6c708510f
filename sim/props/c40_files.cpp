// C40: the file searches over a simulated archive whose directory listings
// come in any order, race with changes and fail.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include "FileHunter.hpp"
#include "FileSpecFind.hpp"
#include "FileSpec.hpp"
#include "YDSTime.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::vector; using std::map; using std::set; using std::multimap;
namespace {
typedef int64_t I;
typedef FileSpec::FileSpecType FT;
// our own calendar: days since 1970-01-01
void civil(I z,I& y,I& m,I& d){ z+=719468; I era=(z>=0?z:z-146096)/146097; I doe=z-era*146097,yoe=(doe-doe/1460+doe/36524-doe/146096)/365; y=yoe+era*400; I doy=doe-(365*yoe+yoe/4-yoe/100),mp=(5*doy+2)/153; d=doy-(153*mp+2)/5+1; m=mp<10?mp+3:mp-9; if(m<=2) y++; }
I daysOf(I y,I m,I d){ y-=m<=2; I era=(y>=0?y:y-399)/400; I yoe=y-era*400,doy=(153*(m+(m>2?-3:9))+2)/5+d-1,doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+doe-719468; }
struct Tmpl { const char* spec; I gran,res; bool st,rc,sel,txt,prn; };
const Tmpl TM[]={ {"/%04Y/%03j/S%3n%1t%03j.%02yO",86400,86400,1,0,1,0,0}, {"/%04Y/%5n/%03j/nsh-%3x-%5n-%1r-%04Y-%03j-%02H%02M%02S.xml",300,1,1,1,0,1,0}, {"/ADMS%3n/W%04F/p%04F%1w.sp3",86400,86400,1,0,0,0,0}, {"/a%04Y%02m%02d%02H%02M.dat",900,60,0,0,0,0,0}, {"/%04Y/%02m/%02d/r%02p_%04Y%02m%02d%02H.obs",3600,3600,0,0,0,0,1}, {"/sub/x%04Y%03j%05s.bin",1800,1,0,0,0,0,0}, {"/%3n/%04Y/%3n%03j%1r.z",86400,86400,1,1,0,0,0} };
const int NT=sizeof TM/sizeof TM[0];
struct F { I t; int st,rc,sel,txt,prn; };
const char* TXT[]={"FOO","BAR","Q.Z"};
string pad(I v,int w){ string s=std::to_string(v); while((int)s.size()<w) s="0"+s; return s; }
string val(char c,int w,const F& f){ I day=f.t>=0?f.t/86400:-((-f.t+86399)/86400),sod=f.t-day*86400,y,m,d; civil(day,y,m,d);
  switch(c){ case 'Y': return pad(y,w); case 'y': return pad(y%100,w); case 'j': return pad(day-daysOf(y,1,1)+1,w); case 'm': return pad(m,w); case 'd': return pad(d,w); case 'H': return pad(sod/3600,w); case 'M': return pad(sod/60%60,w); case 'S': return pad(sod%60,w); case 's': return pad(sod,w); case 'F': return pad((day-3657)/7,w); case 'w': return pad((day-3657)%7,w); case 'n': return pad(f.st,w); case 'r': return pad(f.rc,w); case 't': return pad(f.sel,w); case 'p': return pad(f.prn,w); case 'x': return TXT[f.txt%3]; } return "?"; }
string render(const string& spec,const F& f){ string r; for(size_t i=0;i<spec.size();i++){ if(spec[i]!='%'){ r+=spec[i]; continue; } size_t j=i+1; while(isdigit((unsigned char)spec[j])) j++; int w=atoi(spec.substr(i+1,j-i-1).c_str()); r+=val(spec[j],w,f); i=j; } return r; }
// end of the span of time that the deepest time fields of the first n levels cover
CommonTime ct(I s,TimeSystem ts,double frac=0){ I day=s>=0?s/86400:-((-s+86399)/86400); I y,m,d; civil(day,y,m,d); YDSTime t(y,(int)(day-daysOf(y,1,1)+1),(double)(s-day*86400)+frac,ts); return t; }
string root(I rel){ return rel?"/sim/cwd/arc":"/sim/arc"; }
Plan gen(uint64_t seed,int tier){ Rng g(seed); Plan p; int k=g.range(0,NT-1); I y=g.pick(vector<I>{1996,1999,2000,2004,2012,2018,2019}); I base=daysOf(y,1,1)*86400+86400*g.pick(vector<I>{-3,-1,0,50,57,180,300}); I span=TM[k].gran*g.pick(vector<I>{3,20,100,600});
  if(g.chance(0.3)) span=86400*g.pick(vector<I>{2,40,400}); Op c("!cfg"); c.set("k",k).set("rel",g.chance(0.2)); p.push_back(c); bool faults=g.chance(0.6); int n=g.range(3,tier?60:30); auto tm=[&]{ return base+g.range(0,(int)(span/TM[k].gran))*TM[k].gran; };
  for(int i=0;i<n;i++){ int q=g.range(0,99); if(q<50||i<3){ Op o("file"); o.set("t",tm()).set("st",g.range(1,3)*100+g.range(0,2)).set("rc",g.range(1,2)).set("sel",g.range(0,1)).set("txt",g.range(0,2)).set("prn",g.pick(vector<int>{8,16})); p.push_back(o); }
    else if(q<58){ Op o("junk"); o.set("t",tm()).set("st",g.range(1,3)*100).set("what",g.range(0,9)).set("at",g.range(0,30)); p.push_back(o); }
    else if(q<62){ Op o("rm"); o.set("pick",g.range(0,30)); p.push_back(o); }
    else if(q<66){ Op o("sort"); o.set("s",g.range(0,1<<30)).set("n",g.range(0,12)).set("desc",g.chance(0.5)).set("v",g.chance(0.6)).set("dirs",g.range(0,2)); p.push_back(o); }
    else { Op o("find"); I a,b; if(g.chance(0.2)) a=b=tm(); else { a=tm()+g.pick(vector<I>{0,0,1,-1,g.range(0,(int)TM[k].gran-1)}); b=tm()+g.pick(vector<I>{0,0,1,-1,g.range(0,(int)TM[k].gran-1)}); if(b<a) std::swap(a,b); if(g.chance(0.15)) a=base-86400*g.range(0,400); if(g.chance(0.15)) b=base+span+86400*g.range(0,400); }
      o.set("how",g.range(0,2)).set("a",a).set("b",b).set("chunk",g.range(0,3)).set("desc",g.chance(0.4)); int nf=g.chance(0.4)?g.range(1,3):0; o.set("nf",nf); for(int j=0;j<nf;j++){ o.set("ff"+std::to_string(j),g.range(0,5)).set("fv"+std::to_string(j),g.range(0,8)); }
      if(g.chance(0.7)) o.set("shuf",g.range(1,1<<30)); o.set("dt",g.chance(0.3));
      if(faults&&g.chance(0.4)){ int w=g.range(0,3); if(w==0) o.set("oe",g.range(0,6)).set("en",g.pick(vector<int>{5,12,13,24})); else if(w==1) o.set("re",g.range(0,6)); else if(w==2) o.set("race",g.range(1,12)).set("rt",tm()).set("rs",g.range(1,3)*100); else o.set("fd",0); }
      p.push_back(o); } }
  return p; }
struct W { int k=0; string rt,abs; map<string,F> files; set<string> junk,opt; 
  string spec() const { return abs+TM[k].spec; } };
FT ftOf(int i){ switch(i){ case 0: return FileSpec::station; case 1: return FileSpec::receiver; case 2: return FileSpec::selected; case 3: return FileSpec::text; case 4: return FileSpec::prn; default: return FileSpec::year; } }
char chOf(int i){ return "nrtxpY"[i]; }
int widthOf(const string& spec,char c){ size_t p=0; while((p=spec.find('%',p))!=string::npos){ size_t j=p+1; while(isdigit((unsigned char)spec[j])) j++; if(spec[j]==c) return atoi(spec.substr(p+1,j-p-1).c_str()); p=j; } return 0; }
string keyOf(const string& last,const F& f){ // fields of the last component in the order of the enumeration
  string r; for(char c: string("nrptIvkxyYmdHMSfGFgQwjsZzUuCc")){ size_t p=0; string lst=last; while((p=lst.find('%',p))!=string::npos){ size_t j=p+1; while(isdigit((unsigned char)lst[j])) j++; if(lst[j]==c) r+=val(c,atoi(lst.substr(p+1,j-p-1).c_str()),f)+"|"; p=j; } } return r; }
void find(W& w,const Op& o,set<string>& maybe){ const Tmpl& T=TM[w.k]; string spec=w.spec(); I a=o.i("a"),b=o.i("b"); if(a<400000000) a=400000000; if(b<400000000) b=400000000; if(b<a) std::swap(a,b); int how=((o.i("how")%3)+3)%3; if(how&&w.rt!="/sim/arc") how=0; 
  // filters on the fields this template has
  map<int,set<string>> flt; for(int j=0;j<o.i("nf")&&j<3;j++){ int f=((o.i("ff"+std::to_string(j))%6)+6)%6; int wd=widthOf(spec,chOf(f)); if(!wd) continue; I v=o.i("fv"+std::to_string(j)); F x{a,(int)((v%3+1)*100+v/3%3),(int)(v%2+1),(int)(v%2),(int)(v%3),v%2?8:16}; flt[f].insert(val(chOf(f),wd,x)); }
  int txt=(int)(((o.i("fv0")%3)+3)%3);
  disk().readdirSeed=o.i("shuf"); disk().dtypeUnknown=o.i("dt"); bool fl=false,race=false; if(o.has("oe")){ disk().opendirSkip=std::max<I>(0,o.i("oe")); disk().opendirErrCount=1; disk().opendirErrNo=o.i("en",5); fl=true; } if(o.has("re")&&how==0){ disk().readdirErrAt=std::max<I>(0,o.i("re")); fl=true; } if(o.has("fd")){ disk().maxFds=disk().openFds; fl=true; }
  map<string,F> all=w.files; if(o.has("race")){ race=true; auto cnt=std::make_shared<I>(std::max<I>(1,o.i("race"))); F nf{o.i("rt"),(int)o.i("rs"),1,0,0,8}; disk().onCall=[cnt,&w,&maybe,nf](const string& what,const string&){ if(what!="opendir"&&what!="readdir") return; if(--*cnt==0){ fault("dir_race"); string n=w.rt+render(TM[w.k].spec,nf); size_t s=n.rfind('/'); for(size_t q=1;(q=n.find('/',q))!=string::npos;q++) if(disk().has(n.substr(0,q))) return; disk().mkdirs(n.substr(0,s)); if(!w.files.count(n)&&!disk().exists(n)){ disk().put(n,"x"); w.files[n]=nf; maybe.insert(n); } else if(w.files.count(n)){ disk().files.erase(n); maybe.insert(n); w.files.erase(n); } } }; }
  vector<string> got; bool threw=false; string msg; TimeSystem ts=how==0?TimeSystem::Any:(a%2?TimeSystem::GPS:TimeSystem::Unknown); static const char* hn[]={"hunter","find-map","find-filter"}; probe(string("how.")+hn[how]);
  try{ if(how==0){ FileHunter h(spec); for(auto&f:flt) h.setFilter(ftOf(f.first),vector<string>(f.second.begin(),f.second.end())); got=h.find(ct(a,ts),ct(b,ts),o.i("desc")?FileSpec::descending:FileSpec::ascending,(FileHunter::FileChunking)(((o.i("chunk")%4)+4)%4)); }
    else if(how==1){ FileSpec::FSTStringMap m; string s2=spec; if(T.txt){ size_t p=s2.find("%3x"); s2.replace(p,3,"%x"); m[FileSpec::text]=TXT[txt]; } else if(o.i("nf")&1) m[FileSpec::text]="FOO"; std::list<string> l=FileSpecFind::find(s2,ct(a,ts),ct(b,ts),m); got.assign(l.begin(),l.end()); }
    else { FileSpecFind::Filter m; for(auto&f:flt) for(auto&v:f.second) m.insert(std::make_pair(ftOf(f.first),v)); std::list<string> l=FileSpecFind::find(FileSpec(spec),ct(a,ts),ct(b,ts),m); got.assign(l.begin(),l.end()); } }
  catch(gpstk::Exception& e){ threw=true; msg=e.what(); }
  bool fired=fl&&(disk().opendirErrCount==0&&o.has("oe"))||(o.has("re")&&how==0&&disk().readdirErrAt<0)||o.has("fd");
  disk().opendirErrCount=0; disk().opendirSkip=0; disk().readdirErrAt=-1; disk().maxFds=-1; disk().onCall=nullptr; disk().readdirSeed=0; disk().dtypeUnknown=false;
  if(disk().openDirs) fail("dir-handle-leak",std::to_string(disk().openDirs)+" directory handles left open by "+hn[how]);
  if(threw){ if(fired||race){ probe("reported"); return; } fail("spurious-throw",string(hn[how])+" "+spec+": "+msg.substr(0,300)); }
  if(fired) { probe("fault-survived"); }
  // the model
  I from=a,to=b; bool closed=false; if(how==0){ closed=true; switch(((o.i("chunk")%4)+4)%4){ case 0: { I d=a>=0?a/86400:0; d-=(d-3657)%7; from=d*86400; break; } case 1: from=a/86400*86400; break; case 2: from=a/3600*3600; break; default: from=a/60*60; } } else from=a/T.res*T.res;
  set<string> must,may; auto add=[&](const string& n,const F& f,bool sure){ if(how==1&&T.txt&&f.txt%3!=txt) return; if(how==1){} else for(auto&x:flt){ int wd=widthOf(spec,chOf(x.first)); if(!x.second.count(val(chOf(x.first),wd,f))) return; } bool in=f.t>=from&&(closed?f.t<=to:(f.t<to||(a==b&&f.t==from))); if(!in) return; (sure?must:may).insert(n); };
  for(auto&x:all) add(x.first,x.second,!maybe.count(x.first)); for(auto&x:w.files) if(maybe.count(x.first)) add(x.first,x.second,false);
  set<string> seen; for(auto&x:got){ if(!seen.insert(x).second) fail("returned-twice",x); string n=x; if((w.junk.count(n)&&how)||w.opt.count(n)) continue; if(!must.count(n)&&!may.count(n)) fail("not-asked-for",string(hn[how])+" "+spec+" returned "+n+" for "+std::to_string(a)+".."+std::to_string(b)); }
  for(auto&x:must) if(!seen.count(x)) fail(fired?"silently-incomplete":"not-found",string(hn[how])+" "+spec+" missed "+x+" for "+std::to_string(a)+".."+std::to_string(b)+(fired?" after a directory could not be read":""));
  if(how==0){ string last=string(T.spec); last=last.substr(last.rfind('/')+1); string prev; bool first=true; for(auto&x:got){ auto it=all.find(x); if(it==all.end()) it=w.files.find(x); if(it==w.files.end()) continue; string kk=keyOf(last,it->second); if(!first&&(o.i("desc")?kk>prev:kk<prev)) fail("order","FileHunter returned "+x+" out of order"); prev=kk; first=false; } }
  lg().shapeEv(string(hn[how])+std::to_string(w.k)+(got.empty()?"0":got.size()>3?"+":"1")+(fired?"F":"")+(flt.empty()?"":"f")); if(!got.empty()) probe("found"); ev("find "+std::to_string(got.size())); }
// FileSpec::sortList on names with or without paths and versions; the object is reused through newSpec
void sortIt(FileSpec& fs,const Op& o){ Rng g(o.i("s")); bool v=o.i("v"),desc=o.i("desc"); string spec=v?"r%3n_%04Y%03j.v%2v":"r%3n_%04Y%03j.dat"; fs.newSpec(spec); if(fs.hasField(FileSpec::version)!=v||fs.hasField(FileSpec::clock)||!fs.hasField(FileSpec::station)||!fs.hasTimeField()||!fs.hasNonTimeField()) fail("stale-fields","FileSpec::newSpec "+spec);
  struct N { string name,key,base; int ver; }; vector<N> all; set<string> have; I n=std::max<I>(0,std::min<I>(20,o.i("n"))); static const char* dirs[]={"","/a/b/","/long/path/to/rinex_100/"}; for(I i=0;i<n;i++){ string d=dirs[o.i("dirs")<=0?0:g.range(0,2)]; string st=pad(100+g.range(0,2),3),t=std::to_string(g.range(1999,2001))+pad(g.pick(vector<I>{1,9,366}),3); int ver=g.range(1,3); string nm=d+"r"+st+"_"+t+(v?".v"+pad(ver,2):".dat"); if(!have.insert(nm).second) continue; all.push_back({nm,st+(v?pad(ver,2):"")+t,d+st+t,ver}); }
  vector<string> l; for(auto&x:all) l.push_back(x.name); fs.sortList(l,desc?FileSpec::descending:FileSpec::ascending); map<string,int> best; for(auto&x:all) best[x.base]=std::max(best[x.base],x.ver);
  set<string> want; for(auto&x:all) if(!v||best[x.base]==x.ver) want.insert(x.name); set<string> got(l.begin(),l.end()); if(got.size()!=l.size()||got!=want) fail("sort-set","FileSpec::sortList of "+std::to_string(all.size())+" names gave "+std::to_string(l.size())+", expected "+std::to_string(want.size()));
  string prev; bool first=true; for(auto&nm:l) for(auto&x:all) if(x.name==nm){ if(!first&&(desc?x.key>prev:x.key<prev)) fail("sort-order","FileSpec::sortList put "+nm+" out of order"); prev=x.key; first=false; } lg().shapeEv(string("sort")+(v?"v":"")+(all.size()>3?"+":"")); }
void exec(const Plan& p){ FileSpec fs("q%1k.%3v"); const Op& c=p.at(0); W w; w.k=(int)(((c.i("k")%NT)+NT)%NT); w.rt=root(c.i("rel")); w.abs=c.i("rel")?"arc":"/sim/arc"; disk().mkdirs(w.rt); set<string> maybe;
  for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; opc(o.kind); const Tmpl& T=TM[w.k]; I t=o.i("t")/T.gran*T.gran; if(t<daysOf(1990,1,1)*86400) t=daysOf(1990,1,1)*86400;
    F f{t,(int)o.i("st",100),(int)o.i("rc",1),(int)o.i("sel"),(int)o.i("txt"),(int)o.i("prn",8)};
    if(o.kind=="file"){ string n=w.rt+render(T.spec,f); size_t s=n.rfind('/'); bool bad=false; for(size_t q=1;(q=n.find('/',q))!=string::npos;q++) if(disk().has(n.substr(0,q))) bad=true; if(bad||disk().dirs.count(n)) continue; disk().mkdirs(n.substr(0,s)); disk().put(n,"x"); w.files[n]=f; maybe.erase(n); ev("file "+n); }
    else if(o.kind=="junk"){ string n=w.rt+render(T.spec,f); size_t s=n.rfind('/'),q=w.rt.size()+1; string dir=n.substr(0,s),last=n.substr(s+1); int what=((o.i("what")%10)+10)%10; size_t at=std::max<I>(0,o.i("at"))%last.size(); if(what==0) last+="~"; else if(what==1) last=last.substr(1); else if(what==2){ size_t d=string(T.spec).rfind('.'); (void)d; size_t e=last.rfind('.'); last[e]='_'; } else if(what==3) last="."+last; else if(what==4) last.insert(at,"1");
      string full=dir+"/"+last; bool asDir=what==5; if(what==6){ // a plain file where a directory is expected
        size_t e=n.find('/',q); if(e==string::npos) continue; full=n.substr(0,e); }
      if(what==8){ size_t e=last.size(); for(size_t z=0;z<last.size();z++) if(isdigit((unsigned char)last[(z+at)%last.size()])){ e=(z+at)%last.size(); break; } if(e<last.size()) last[e]='z'; full=dir+"/"+last; w.opt.insert(full); }
      if(what==9){ size_t d=string(T.spec).rfind('%'); (void)d; for(size_t z=0;z<last.size();z++) if(isdigit((unsigned char)last[z])) last[z]='9'; full=dir+"/"+last; if(!w.files.count(full)) w.opt.insert(full); }
      if(what==7){ string d2=n; size_t e=d2.find('/',q); if(e==string::npos) continue; full=d2.substr(0,e)+"x/"+d2.substr(e+1); }
      if(disk().exists(full)||w.files.count(full)) continue; bool bad=false; for(size_t z=1;(z=full.find('/',z))!=string::npos;z++) if(disk().has(full.substr(0,z))) bad=true; if(bad) continue; fault("stray_entry"); disk().mkdirs(full.substr(0,full.rfind('/'))); if(asDir){ disk().mkdirs(full); w.junk.insert(full); } else disk().put(full,"x"); ev("junk "+full); }
    else if(o.kind=="rm"){ if(w.files.empty()) continue; auto it=w.files.begin(); std::advance(it,std::max<I>(0,o.i("pick"))%w.files.size()); ev("rm "+it->first); disk().files.erase(it->first); w.files.erase(it); }
    else if(o.kind=="sort") sortIt(fs,o);
    else if(o.kind=="find"){ for(auto&m:maybe) (void)m; maybe.clear(); find(w,o,maybe); maybe.clear(); } } }
Reg r40({"C40","A run has a simulated archive directory laid out by one of seven file specifications; files and strays appear and go, and searches meet shuffled listings, unknown entry types, failing opendir/readdir, descriptor limits and changes during the listing. Non-trivial: at least one search.","FileSpec, FileSpecFind, FileHunter, TimeString/mixedScanTime, glob(3) itself","directories, clock",6000,600000,gen,exec,400000000});
}
