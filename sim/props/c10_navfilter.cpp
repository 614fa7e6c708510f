// C10-C13: navigation message filters fed by a network of receivers that lose,
// repeat, delay and corrupt messages, against independent reference models.
#include "../core/scenario.hpp"
#include <algorithm>
#include <vector>
#include <list>
#include <memory>
#include <array>
#include "NavFilterMgr.hpp"
#include "LNavFilterData.hpp"
#include "LNavParityFilter.hpp"
#include "LNavTLMHOWFilter.hpp"
#include "LNavEmptyFilter.hpp"
#include "LNavAlmValFilter.hpp"
#include "LNavCookFilter.hpp"
#include "LNavCrossSourceFilter.hpp"
#include "LNavOrderFilter.hpp"
#include "NavOrderFilter.hpp"
#include "LNavEphMaker.hpp"
#include "CNavFilterData.hpp"
#include "CNavParityFilter.hpp"
#include "CNavTOWFilter.hpp"
#include "CNavEmptyFilter.hpp"
#include "CNavCookFilter.hpp"
#include "CNavCrossSourceFilter.hpp"
#include "CNav2SanityFilter.hpp"
#include "PackedNavBits.hpp"
#include "GPSWeekSecond.hpp"
using namespace sim; using namespace gpstk; using std::string; using std::vector; using std::map; using std::set;
namespace {
typedef vector<bool> Bits;
enum Fmt { LNAV, CNAV, CNAV2 };
// ---- message contents, from the interface specifications -------------------
static const int PB[6][16]={{1,2,3,5,6,10,11,12,13,14,17,18,20,23,0},{2,3,4,6,7,11,12,13,14,15,18,19,21,24,0},{1,3,4,5,7,8,12,13,14,15,16,19,20,22,0},{2,4,5,6,8,9,13,14,15,16,17,20,21,23,0},{1,3,5,6,7,9,10,14,15,16,17,18,21,22,24,0},{3,5,6,8,9,10,11,13,15,19,22,23,24,0}};
static const int PS[6]={29,30,29,30,30,29};
bool parityBit(const Bits& b,int w,int k,bool upright){ bool p29=w?b[(w-1)*30+28]:false, p30=w?b[(w-1)*30+29]:false; bool v=PS[k]==29?p29:p30; for(const int* i=PB[k];*i;i++) v^=b[w*30+*i-1]^(!upright&&p30); return v; }
void setBits(Bits& b,int at,int n,uint64_t v){ for(int i=0;i<n;i++) b[at+i]=(v>>(n-1-i))&1; }
uint64_t getB(const Bits& b,int at,int n){ uint64_t v=0; for(int i=0;i<n;i++) v=v*2+b[at+i]; return v; }
// upright LNAV subframe with parity
Bits lnav(int prn,int64_t e,uint64_t seed,int kind){ Bits b(300); Rng g(seed*1000003+prn*7919+e*31); for(size_t i=0;i<b.size();i++) b[i]=g.next()>>40&1; int sf=(int)(e%5)+1; int64_t tow=(e+1)%100800; int issue=(int)(e/5/4)*7+prn; // a new issue every fourth frame
  setBits(b,0,8,kind==3?0x8a:0x8b); setBits(b,30,17,kind==5?100800+e%30000:tow); setBits(b,49,3,kind==4?(e%2?0:6+e%4/2):sf);
  if(sf==1) setBits(b,210,8,issue&255); if(sf==2) setBits(b,60,8,issue&255); if(sf==3) setBits(b,270,8,issue&255);
  if(kind==2) { int n=0; for(int w=2;w<10;w++) for(int i=w==2?8:0;i<24;i++,n++) b[w*30+i]=i%2==0; setBits(b,49,3,4+e%2); }
  for(int w=0;w<10;w++){ if(w==1||w==9){ // bits 23 and 24 solve for zero last parity bits
      bool ok=false; for(int t=0;t<4&&!ok;t++){ b[w*30+22]=t&1; b[w*30+23]=t>>1; ok=!parityBit(b,w,4,true)&&!parityBit(b,w,5,true); } }
    for(int k=0;k<6;k++) b[w*30+24+k]=parityBit(b,w,k,true); }
  if(kind==1) b.assign(300,false); return b; }
// upright to transmitted
Bits raw(Bits b){ Bits r=b; for(int w=1;w<10;w++) if(b[w*30-1]) for(int i=0;i<24;i++) r[w*30+i]=!b[w*30+i]; return r; }
uint32_t crc24(const Bits& b,size_t n){ // long division by x^24+x^23+x^18+x^17+x^14+x^11+x^10+x^7+x^6+x^5+x^4+x^3+x+1
  Bits r(b.begin(),b.begin()+n); r.resize(n+24); static const int px[]={23,18,17,14,11,10,7,6,5,4,3,1,0}; for(size_t i=0;i<n;i++) if(r[i]){ r[i]=false; for(int p:px) r[i+24-p]=!r[i+24-p]; } return (uint32_t)getB(r,n,24); }
Bits cnav(int prn,int64_t e,uint64_t seed,int kind){ Bits b(300); Rng g(seed*1000003+prn*7919+e*31+5); for(size_t i=0;i<b.size();i++) b[i]=g.next()>>40&1; static const int ty[]={10,11,30,33,12,15,39,37,0,14}; static const int bad[]={1,9,16,29,40,63,22,48,5,28};
  setBits(b,0,8,kind==3?0x8f:0x8b); setBits(b,8,6,prn); setBits(b,14,6,kind==4?bad[e%10]:ty[e%10]); setBits(b,20,17,kind==5?100800+e%30000:(e*2+1)%100800); b[37]=e%3==0;
  if(kind==1) for(int i=38;i<276;i++) b[i]=false; if(kind==2) for(int i=38;i<276;i++) b[i]=i%2; setBits(b,276,24,crc24(b,276)); return b; }
Bits cnav2(int prn,int64_t t,uint64_t seed,int kind){ Bits b(883); Rng g(seed*1000003+prn*7919+t*31+9); for(size_t i=0;i<b.size();i++) b[i]=g.next()>>40&1; int64_t wk=1900+t/604800, sow=t%604800, nx=(sow+18)%604800; setBits(b,0,9,(nx%7200)/18); setBits(b,9,13,wk+(kind==3)); setBits(b,22,8,nx/7200+(kind==5)); setBits(b,609,8,prn+(kind==4)); setBits(b,617,6,kind==1?0:kind==2?7:1+t/18%6); return b; }
CommonTime T(int64_t s){ return CommonTime(GPSWeekSecond(1900+(unsigned)(s/604800),(double)(s%604800),TimeSystem::GPS)); }
const int64_t BASE=6*5*20;
// ---- real messages ---------------------------------------------------------
struct Info { int id; virtual ~Info(){} };
struct LMsg: LNavFilterData, Info { uint32_t w[10]; };
struct CMsg: CNavFilterData, Info { std::unique_ptr<PackedNavBits> p; };
// ---- the model -------------------------------------------------------------
struct MM { int id; int64_t t; int prn,rx; Fmt f; Bits b; };
typedef vector<MM*> ML;
struct MFilt { char c; int depth=3,epoch=6,minId=2; 
  bool cur=false; int64_t curT=0; ML group; ML hold; ML rej; map<std::pair<int,int>,std::array<MM*,3>> eph; vector<std::array<MM*,3>> done; bool ran=false;
  bool pass(MM* m){ Bits& b=m->b; switch(c){
    case 'P': if(m->f==CNAV) return crc24(b,276)==getB(b,276,24); for(int w=0;w<10;w++) for(int k=0;k<6;k++) if(b[w*30+24+k]!=parityBit(b,w,k,true)) return false; return true;
    case 'T': if(m->f==CNAV){ int ty=getB(b,14,6); return getB(b,0,8)==0x8b&&getB(b,20,17)<100800&&(ty==0||(ty>9&&ty<16)||(ty>29&&ty<40)); } { int sf=getB(b,49,3); return getB(b,0,8)==0x8b&&!b[58]&&!b[59]&&getB(b,30,17)<100800&&sf>=1&&sf<=5; }
    case 'E': if(m->f==CNAV){ bool z=true,a=true; for(int i=38;i<276;i++){ if(b[i]) z=false; if(b[i]!=(i%2!=0)) a=false; } return !z&&!a; }
      { bool z=true; for(bool x:b) if(x) z=false; if(z) return false; int sf=getB(b,49,3); if(sf!=4&&sf!=5) return true; for(int w=2;w<10;w++) for(int i=w==2?12:4;i<24;i++) if(b[w*30+i]!=(i%2==0)) return true; return false; }
    case 'A': return true;
    case 'K': if(m->f==CNAV){ if(getB(b,0,8)!=0x8b) b.flip(); return true; } if(getB(b,0,8)==0x74) b.flip(); if(getB(b,0,8)!=0x8b) return true; for(int w=1;w<10;w++) if(b[w*30-1]) for(int i=0;i<24;i++) b[w*30+i]=!b[w*30+i]; return true;
    case 'S': { int64_t sow=m->t%604800, wk=1900+m->t/604800; int64_t s=7200*(int64_t)getB(b,22,8)+18*(int64_t)getB(b,0,9)-18; if(s<0) s+=604800; int pg=getB(b,617,6); return s==sow&&(int64_t)getB(b,9,13)==wk&&(int)getB(b,609,8)==m->prn&&pg>=1&&pg<=6; }
    } return true; }
  void vote(ML& out){ set<int> prns; for(auto m:group) prns.insert(m->prn); for(int q:prns){ map<Bits,ML> g; size_t n=0; for(auto m:group) if(m->prn==q){ g[m->b].push_back(m); n++; } const Bits* win=0; size_t best=0; for(auto&x:g) if(x.second.size()>best){ best=x.second.size(); win=&x.first; } size_t need=group[0]->f==CNAV?(size_t)minId:2, total=group[0]->f==CNAV?(size_t)minId:3; if(best<need||n<total) win=0; for(auto&x:g) for(auto m:x.second) (win==&x.first?out:rej).push_back(m); } group.clear(); }
  void run(const ML& in,ML& out){ ran=true;
    if(c=='X'){ for(auto m:in){ if(cur&&m->t!=curT&&!group.empty()) vote(out); cur=true; curT=m->t; group.push_back(m); } return; }
    if(c=='O'||c=='N'){ bool h=!hold.empty(); int64_t nw=0; for(auto m:hold) nw=std::max(nw,m->t); for(auto m:in) if(h&&m->t<nw-(int64_t)depth*epoch) rej.push_back(m); else hold.push_back(m); std::stable_sort(hold.begin(),hold.end(),[](MM*a,MM*b){return a->t<b->t;}); if(hold.empty()) return; int64_t lim=hold.back()->t-(int64_t)depth*epoch; while(!hold.empty()&&hold[0]->t<=lim){ out.push_back(hold[0]); hold.erase(hold.begin()); } return; }
    if(c=='M'){ done.clear(); for(auto m:in){ out.push_back(m); int sf=getB(m->b,49,3); if(sf<1||sf>3) continue; auto& s=eph[{m->prn,m->rx}]; s[sf-1]=m; if(!s[0]||!s[1]||!s[2]) continue; int64_t t0=getB(s[0]->b,30,17); if((int64_t)getB(s[1]->b,30,17)!=t0+1||(int64_t)getB(s[2]->b,30,17)!=t0+2) continue; uint64_t a=getB(s[0]->b,210,8); if(getB(s[1]->b,60,8)!=a||getB(s[2]->b,270,8)!=a) continue; done.push_back(s); } return; }
    for(auto m:in) (pass(m)?out:rej).push_back(m); }
  void fin(ML& out){ if(c=='X'){ if(!group.empty()) vote(out); cur=false; } if(c=='O'||c=='N'){ out.insert(out.end(),hold.begin(),hold.end()); hold.clear(); } if(c=='M') eph.clear(); }
};
struct Run { string prop,chain; Fmt f; NavFilterMgr mgr; vector<std::unique_ptr<NavFilter>> real; vector<MFilt> mod; map<int,std::unique_ptr<NavFilterKey>> live; map<int,std::unique_ptr<MM>> mm; int reported=0; bool keep=false; LNavEphMaker* maker=0; int64_t lastOut=-1; bool ordered=false; int perm=0;
  NavFilter* make(char c,const Op& o){ int d=std::max<int>(1,o.i("depth",3)),ep=std::max<int>(1,o.i("epoch",6)); if(f==LNAV) switch(c){ case 'P': return new LNavParityFilter; case 'T': return new LNavTLMHOWFilter; case 'E': return new LNavEmptyFilter; case 'A': return new LNavAlmValFilter; case 'K': return new LNavCookFilter; case 'X': return new LNavCrossSourceFilter; case 'O': return new LNavOrderFilter(d,ep); case 'N': return new NavOrderFilter(d,ep); case 'M': return maker=new LNavEphMaker; }
    switch(c){ case 'P': return new CNavParityFilter; case 'T': return new CNavTOWFilter; case 'E': return new CNavEmptyFilter; case 'K': return new CNavCookFilter; case 'X': { CNavCrossSourceFilter* x=new CNavCrossSourceFilter; if(o.i("min")) x->setMinIdentical(o.i("min")); return x; } case 'S': return new CNav2SanityFilter; default: return new NavOrderFilter(d,ep); } }
  Run(const Op& o):prop(o.s("prop")),chain(o.s("chain")),f((Fmt)(o.i("_f")%3)){ perm=o.i("_seed")%4; unsigned depth=1; for(char c:chain){ real.emplace_back(make(c,o)); mgr.addFilter(real.back().get()); MFilt m; m.c=c; m.depth=std::max<int>(1,o.i("depth",3)); m.epoch=std::max<int>(1,o.i("epoch",6)); m.minId=o.i("min")?o.i("min"):2; mod.push_back(m); depth+=c=='X'?1:c=='O'||c=='N'?m.depth:c=='M'?3:0; if(c=='M') keep=true; }
    if(mgr.processingDepth()!=depth) fail(cl("depth"),"the processing depth is "+std::to_string(mgr.processingDepth())+" instead of "+std::to_string(depth)); if(!chain.empty()&&(chain.back()=='O'||chain.back()=='N')) ordered=true; }
  string cl(const string& s){ return "nav-"+string(f==LNAV?"lnav":f==CNAV?"cnav":"cnav2")+"-"+s; }
  NavFilterKey* build(int id,int64_t t,int prn,int rx,const Bits& b,int order){ std::unique_ptr<MM> m(new MM{id,t,prn,rx,f,b}); mm[id]=std::move(m); CommonTime ct=T(t); NavFilterKey* k;
    if(f==LNAV){ LMsg* x=new LMsg; x->id=id; for(int w=0;w<10;w++) x->w[w]=(uint32_t)getB(b,w*30,30); x->sf=x->w; k=x; x->timeStamp=ct; x->prn=prn; int a[4]={0,0,0,0}; for(int q=0;q<3;q++) a[(q+perm)%4]=rx>>q&1; x->carrier=a[0]?CarrierBand::L2:CarrierBand::L1; x->code=a[1]?TrackingCode::Y:TrackingCode::CA; x->stationID=a[2]?"s1":"s0"; x->rxID=a[3]?"r1":"r0"; }
    else { CMsg* x=new CMsg; x->id=id; x->p.reset(new PackedNavBits(SatID(prn,SatelliteSystem::GPS),ObsID(ObservationType::NavMsg,CarrierBand::L2,TrackingCode::L2CM),ct)); for(bool v:b) x->p->addUnsignedLong(v,1,1); x->p->trimsize(); x->p->setRxID("r"+std::to_string(rx)); x->loadData(x->p.get()); k=x; if(x->prn!=(uint32_t)prn||x->timeStamp!=ct) fail(cl("key"),"a message loaded for the filters carries another satellite or time"); }
    live[id].reset(k); return k; }
  static int idOf(NavFilterKey* k){ Info* i=dynamic_cast<Info*>(k); return i?i->id:-1; }
  void same(int id,const string& how){ NavFilterKey* k=live[id].get(); MM* m=mm[id].get(); Bits b; if(f==LNAV){ LMsg* x=static_cast<LMsg*>(k); for(int w=0;w<10;w++) for(int i=29;i>=0;i--) b.push_back(x->w[w]>>i&1); for(int w=0;w<10;w++) if(x->w[w]>>30) fail(cl("content"),"a message has bits set beyond its 30-bit words"); } else { CMsg* x=static_cast<CMsg*>(k); for(size_t i=0;i<x->p->getNumBits();i++) b.push_back(x->p->asBool(i)); } if(b!=m->b) fail(cl("content"),"the "+how+" message "+std::to_string(id)+" has other bits than it should"); }
  void release(int id){ if(keep) return; NavFilterKey* k=live[id].get(); k->prn=9999; k->timeStamp=CommonTime::END_OF_TIME; if(f==LNAV){ LMsg* x=static_cast<LMsg*>(k); for(auto&w:x->w) w=0x15555555; } live.erase(id); mm.erase(id); }
  void settle(const NavFilter::NavMsgList& out,const ML& mout,bool fin,int justId){ // what was reported against what should have been
    vector<int> a,b; for(auto k:out) a.push_back(idOf(k)); for(auto m:mout) b.push_back(m->id); string call=fin?"finalize":"validate of message "+std::to_string(justId);
    auto show=[](vector<int> v){ string s; for(int i:v) s+=" "+std::to_string(i); return s.empty()?string(" none"):s; };
    if(ordered){ for(int i:a) if(mm.count(i)){ if(mm[i]->t<lastOut) fail(cl("order"),call+" released message "+std::to_string(i)+" after a newer one"); lastOut=mm[i]->t; } if(fin) lastOut=-1; }
    vector<int> sa=a,sb=b; std::sort(sa.begin(),sa.end()); std::sort(sb.begin(),sb.end()); if(sa!=sb) fail(cl("passed"),call+" passed messages"+show(sa)+" instead of"+show(sb));
    set<int> gone; for(size_t i=0;i<mod.size();i++){ vector<int> x,y; if(mgr.rejected.count(real[i].get())) for(auto k:real[i]->rejected) x.push_back(idOf(k)); for(auto m:mod[i].rej) y.push_back(m->id); std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(x!=y) fail(cl(string("rejected-")+mod[i].c),call+": filter "+real[i]->filterName()+" reports rejected messages"+show(x)+" instead of"+show(y)); if(mgr.rejected.count(real[i].get())&&x.empty()) fail(cl("rejected-set"),"a filter without rejected messages is listed as rejecting"); for(int id:y){ same(id,"rejected"); gone.insert(id); } mod[i].rej.clear(); }
    for(int id:sb) same(id,"passed"); for(int id:sb) gone.insert(id); if(!sb.empty()) probe("passed"); if(gone.size()>sb.size()) probe("rejected"); ev(call+" ->"+show(sa)); lg().shapeEv(std::to_string(sa.size())+"/"+std::to_string(gone.size()));
    if(maker&&!fin){ const MFilt* mf=0; for(auto&m:mod) if(m.c=='M') mf=&m; if(mf->ran){ vector<vector<int>> x,y; for(auto g:maker->completeEphs){ vector<int> v; for(auto d:*g) v.push_back(idOf(d)); x.push_back(v); } for(auto&d:mf->done) y.push_back({d[0]->id,d[1]->id,d[2]->id}); std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(x!=y){ string s; for(auto&v:x) s+=" ["+show(v)+" ]"; string w; for(auto&v:y) w+=" ["+show(v)+" ]"; fail(cl("ephemeris"),call+" completed the ephemerides"+(s.empty()?" none":s)+" instead of"+(w.empty()?" none":w)); } if(!y.empty()) probe("ephemeris"); } }
    reported+=gone.size(); for(int id:gone) release(id); }

  void clearRan(){ for(auto&m:mod) m.ran=false; }
  void validate(int id,int64_t t,int prn,int rx,const Bits& b){ NavFilterKey* k=build(id,t,prn,rx,b,0); clearRan(); ML in{mm[id].get()},out; for(auto&m:mod){ if(in.empty()) break; out.clear(); m.run(in,out); in=out; } NavFilter::NavMsgList got=mgr.validate(k); settle(got,in,false,id); }
  void finalize(){ clearRan(); ML rv; for(size_t i=0;i<mod.size();i++){ ML in,out; mod[i].fin(in); for(size_t j=i+1;j<mod.size()&&!in.empty();j++){ out.clear(); mod[j].run(in,out); in=out; } rv.insert(rv.end(),in.begin(),in.end()); } NavFilter::NavMsgList got=mgr.finalize(); settle(got,rv,true,-1); opc("finalize"); }
};
void exec(const Plan& p){ const Op& c=p.at(0); Run r(c); opc(c.s("chain")); int id=0; uint64_t seed=c.i("_seed"); set<std::array<int64_t,3>> once; size_t om=r.chain.find_first_of("ON"), mm=r.chain.find('M'); bool uniq=om!=string::npos&&mm!=string::npos&&om<mm; int64_t newest=-1; map<string,int> seen;
  for(size_t i=1;i<p.size();i++){ const Op& o=p[i]; if(o.kind=="fin"){ r.finalize(); once.clear(); continue; } if(o.kind!="msg") continue; int prn=1+o.i("prn")%32, rx=o.i("rx")%8; int step=r.f==LNAV?6:r.f==CNAV?12:18; int64_t e=o.i("e")+(r.f==LNAV?100:300); int64_t t0=e*step+c.i("_t0"), t=t0+o.i("dt")*step; if(t<0) t=0; if(uniq&&!once.insert({prn,rx,t}).second) continue;
    Bits b; if(r.f==LNAV) b=lnav(prn,e,seed,o.i("kind")); else if(r.f==CNAV) b=cnav(prn,e,seed,o.i("kind")); else b=cnav2(prn,t0,seed,o.i("kind")); if(o.i("raw")&&r.f==LNAV) b=raw(b); string fl=o.s("flips"); size_t q=0; int nf=0; while(q<fl.size()){ size_t z=fl.find(',',q); int at=atoi(fl.substr(q,z-q).c_str())%(int)b.size(); b[at]=!b[at]; nf++; q=z==string::npos?fl.size():z+1; } if(nf) fault("bit_errors",nf); if(o.i("inv")){ b.flip(); fault("polarity_inverted"); } if(t<newest) fault("msg_delayed"); newest=std::max(newest,t); if(o.i("dt")) fault("clock_jump"); if(seen[o.text()]++) fault("msg_duplicate");
    if(r.f==LNAV&&!nf&&!o.i("inv")&&!o.i("raw")&&o.i("kind")!=1){ MFilt m; m.c='P'; MM x{0,t,prn,rx,LNAV,b}; if(!m.pass(&x)) throw std::logic_error("harness: bad parity"); }
    r.validate(id++,t,prn,rx,b); }
  r.finalize(); if(!r.keep&&r.reported!=id) fail(r.cl("exactly-once"),std::to_string(r.reported)+" of "+std::to_string(id)+" messages were reported passed or rejected"); }
// ---- generation ------------------------------------------------------------
string flips(Rng& g,int n,int kind){ string s; set<int> u; int nb=g.chance(0.5)?1:g.range(1,3); int w=g.range(0,9); bool one=g.chance(0.5); for(int i=0;i<nb;i++){ int at=one&&n==300?w*30+g.range(0,29):g.range(0,n-1); if(kind==2&&n==300) at=g.range(0,59); if(u.insert(at).second) s+=(s.empty()?"":",")+std::to_string(at); } return s; }
Plan genFor(uint64_t seed,const string& prop){ Rng g(seed); Plan p; Op c("!cfg"); c.sets("prop",prop); Fmt f=prop=="C13"?LNAV:(Fmt)(g.chance(0.55)?0:g.chance(0.85)?1:2); string chain;
  if(prop=="C10"){ string pool=f==LNAV?"PTEAKXOMN":f==CNAV?"PTEKXN":"SN"; vector<char> v(pool.begin(),pool.end()); g.shuffle(v); int n=g.range(1,std::min<int>(6,v.size())); chain.assign(v.begin(),v.begin()+n); if(g.chance(0.35)&&f!=CNAV2){ chain=f==LNAV?"KPETXO":"KPETXN"; if(f==LNAV&&g.chance(0.3)) chain+="M"; while(chain.size()>1&&g.chance(0.4)) chain.erase(g.range(0,(int)chain.size()-1),1); } }
  else if(prop=="C11"){ if(f==CNAV2) f=CNAV; chain="X"; } else if(prop=="C12"){ chain=f==LNAV&&g.chance(0.5)?"O":"N"; } else chain=g.chance(0.5)?"M":g.chance(0.5)?"PM":g.chance(0.5)?"OM":"KPTOM";
  c.set("_f",(int)f); c.sets("chain",chain); c.set("_seed",(int64_t)(g.next()>>20)); int step=f==LNAV?6:f==CNAV?12:18; c.set("depth",g.pick(vector<int>{1,2,3,3,5,8})); c.set("epoch",g.chance(0.7)?step:g.range(1,40)); if(f==CNAV&&g.chance(0.4)) c.set("min",g.range(1,4)); c.set("_t0",g.chance(0.3)?(int64_t)604800-step*g.range(100,f==LNAV?115:310):(int64_t)604800*g.range(0,3)); p.push_back(c);
  int np=g.range(1,3), nr=g.range(1,prop=="C11"?6:4), ne=g.range(2,prop=="C13"?26:14); double loss=g.pick(vector<double>{0,0.05,0.3}),dup=g.pick(vector<double>{0,0,0.15}),err=g.pick(vector<double>{0,0.1,0.4}),late=g.pick(vector<double>{0,0.05,0.3}),odd=g.pick(vector<double>{0,0.05,0.2}),jump=g.pick(vector<double>{0,0,0.03}); double latest=g.pick(vector<double>{1.5,4,12}); bool rawAll=f==LNAV&&g.chance(0.3); int base=g.range(0,40); if(prop=="C13") base=g.range(0,30);
  struct D { double at; Op o; }; vector<D> d; vector<int> prn; for(int i=0;i<np;i++) prn.push_back(g.range(0,31)); int kindE=0; int fourth=0; (void)fourth;
  for(int e=0;e<ne;e++){ if(g.chance(loss*0.3)) continue; for(int i=0;i<np;i++){ kindE=g.chance(odd)?g.range(1,5):0; string common=g.chance(err*0.3)?flips(g,f==CNAV2?883:300,kindE):""; for(int x=0;x<nr;x++){ if(g.chance(loss)){ continue; } Op o("msg"); o.set("e",base+e); o.set("prn",prn[i]); o.set("rx",x); if(kindE) o.set("kind",kindE); string fl=common; if(g.chance(err)) fl=flips(g,f==CNAV2?883:300,kindE); if(!fl.empty()) o.sets("flips",fl); if(rawAll?g.chance(0.9):g.chance(0.03)) o.set("raw",1); if(g.chance(rawAll?0.3:0.03)) o.set("inv",1); if(g.chance(jump)) o.set("dt",g.range(-30,30)); double at=e+0.1*g.unit(); if(g.chance(late)) at+=g.unit()*latest; d.push_back({at,o}); if(g.chance(dup)) d.push_back({at+g.unit()*(g.chance(0.5)?0.05:latest),o}); } } }
  if(g.chance(0.15)) d.push_back({g.unit()*ne,Op("fin")}); std::stable_sort(d.begin(),d.end(),[](const D&a,const D&b){return a.at<b.at;}); for(auto&x:d) p.push_back(x.o); return p; }
Plan g10(uint64_t s,int){ return genFor(s,"C10"); } Plan g11(uint64_t s,int){ return genFor(s,"C11"); } Plan g12(uint64_t s,int){ return genFor(s,"C12"); } Plan g13(uint64_t s,int){ return genFor(s,"C13"); }
const char* REAL="NavFilterMgr and the LNAV, CNAV and CNAV-2 filters, PackedNavBits"; const char* STUB="network of receivers and satellites, allocator";
Reg r10({"C10","A run sends up to 14 epochs of LNAV, CNAV or CNAV-2 messages of 1-3 satellites through 1-4 receivers that lose, repeat, delay, invert and corrupt them into a filter manager with a random chain of 1-7 real filters; the memory of every message is scribbled over and freed as soon as it is reported. Non-trivial: at least one message reported.",REAL,STUB,30000,2000000,g10,exec,400000000});
Reg r11({"C11","A run sends up to 14 epochs of LNAV or CNAV messages of 1-3 satellites through 1-6 receivers that lose, repeat, delay and corrupt them into the voting filter. Non-trivial: at least one epoch voted on.",REAL,STUB,30000,2000000,g11,exec,400000000});
Reg r12({"C12","A run sends up to 14 epochs of messages of 1-3 satellites through 1-4 receivers with delays up to 12 epochs, losses, repeats and clock jumps into the ordering filter with depth 1-8. Non-trivial: at least one message released.",REAL,STUB,30000,2000000,g12,exec,400000000});
Reg r13({"C13","A run sends up to 26 epochs of LNAV subframes, with a new issue of data every fourth frame, through 1-4 lossy receivers into the ephemeris assembler, alone or behind other filters. Non-trivial: at least one subframe passed.",REAL,STUB,30000,2000000,g13,exec,400000000});
}
