// C50: the rolling file recorder (rfw), its own main(), against a simulated TCP device, disk and clock.
#include "../core/scenario.hpp"
#include "../core/net.hpp"
#include <algorithm>
#include <iostream>
#include <sstream>
#include <cerrno>
#include <cstring>
#include "CommandOption.hpp"
using namespace sim; using std::string; using std::vector; using std::map;
extern "C" int rfw_main(int,char**);
namespace { namespace c50 {
typedef int64_t I;
string pad(I v,int w){ string s=std::to_string(v); while((int)s.size()<w) s="0"+s; return s; }
I daysOf(I y){ I n=y-1; return n*365+n/4-n/100+n/400-719162; }
const char* SP[]={"/sim/log/%04Y/%03j/x%02H.raw","/sim/log/x%04Y%03j.raw","tmp%03j_%04Y.raw","/sim/log/%03j/x%02H%02M.raw","const.raw"};
string nameOf(int k,I t){ I d=t/86400,s=t%86400,y=1970+d/366; while(daysOf(y+1)<=d) y++; I j=d-daysOf(y)+1; string H=pad(s/3600,2),M=pad(s/60%60,2),Y=pad(y,4),J=pad(j,3); switch(k){ case 0: return "/sim/log/"+Y+"/"+J+"/x"+H+".raw"; case 1: return "/sim/log/x"+Y+J+".raw"; case 2: return "/sim/cwd/tmp"+J+"_"+Y+".raw"; case 3: return "/sim/log/"+J+"/x"+H+M+".raw"; default: return "/sim/cwd/const.raw"; } }
Plan gen(uint64_t seed,int tier){ Rng g(seed); Plan p; Op c("!cfg"); c.set("k",g.range(0,4)).set("src",g.chance(0.12)?1:0).set("out",g.chance(0.15)).set("login",g.chance(0.35)?g.range(1,3):0).set("ns",g.chance(0.6)?g.range(1,3):0).set("defper",g.chance(0.3)).set("seed",g.range(1,1<<30)).set("pos",g.chance(0.3)).set("_t",900000000+86400LL*g.range(0,7000)+g.range(0,86399)); for(int i=0;i<3;i++) c.set("p"+std::to_string(i),g.pick(vector<I>{0,1,5,30,60,600})).set("l"+std::to_string(i),g.chance(0.1)?g.range(1000,6000):g.range(1,60)); p.push_back(c); bool faults=g.chance(0.7); int n=g.range(3,tier?60:30);
  for(int i=0;i<n;i++){ int q=g.range(0,99); if(q<60){ Op o("burst"); o.set("dt",g.pick(vector<I>{0,0,1,1,5,30,60,600,3600,g.range(0,90000)})).set("len",g.chance(0.15)?g.range(2000,9000):g.chance(0.3)?512*g.range(1,5):g.range(1,700)).set("rep",g.chance(0.2)); p.push_back(o); } else if(q<66){ Op o("end"); o.set("dt",g.range(0,4000)).set("reset",faults&&g.chance(0.4)); p.push_back(o); } else if(faults){ int w=g.range(0,5); if(w==0){ Op o("eintr"); o.set("n",g.range(1,3)).set("again",g.chance(0.3)); p.push_back(o); } else if(w==1){ Op o("jump"); o.set("dt",g.range(-90000,90000)); p.push_back(o); } else if(w==2){ Op o("short"); o.set("n",g.pick(vector<I>{1,2,3,100,511,512,513,2047})); p.push_back(o); } else if(w==3){ Op o("wshort"); o.set("n",g.range(1,20)).set("eintr",g.chance(0.5)); p.push_back(o); } else if(w==4){ Op o("refuse"); o.set("n",g.range(1,4)); p.push_back(o); } else { Op o("dshort"); o.set("n",g.range(1,200)); p.push_back(o); } } }
  return p; }
struct Run { const Plan& p; const Op& c; int k; bool out; Rng g; string avail; size_t at=1; string user,pass; int stage=0; // 0 data, 1 waits for the name, 2 waits for the password
  string toDev,lineBuf; vector<string> strs; vector<int> per; vector<double> last; string expSent,got; string pend; map<string,string> want; string wantOut; size_t shortN=0,wshort=0; int eintr=0,refuse=0; bool again=false,wintr=false,wflip=false,ended=false; std::ostringstream cap; string reply; int nread=0; string loginSeen; bool recording=false;
  Run(const Plan& P):p(P),c(P.at(0)),g(c.i("seed")){ k=(int)(((c.i("k")%5)+5)%5); out=c.i("out"); }
  string bytes(size_t n){ string s; for(size_t i=0;i<n;i++) s+=(char)(g.chance(0.15)?(g.chance(0.5)?255:0):g.range(0,255)); return s; }
  void name(){ for(auto&w:want) if(disk().get(w.first)!=w.second){ const string d=disk().get(w.first); size_t q=0; while(q<d.size()&&q<w.second.size()&&d[q]==w.second[q]) q++; fail(d.size()<w.second.size()&&q==d.size()?"data-missing":"data-wrong",w.first+" holds "+std::to_string(d.size())+" bytes, "+std::to_string(w.second.size())+" were received for it; first difference at "+std::to_string(q)+" (device read "+std::to_string(nread)+")"); } for(auto&f:disk().files) if(f.second->data.size()&&!want.count(f.first)&&f.first!="/sim/in.dat") fail("stray-file",f.first); if(out&&cap.str()!=wantOut){ string d=cap.str(); size_t q=0; while(q<d.size()&&q<wantOut.size()&&d[q]==wantOut[q]) q++; fail("stdout-wrong","standard output carries "+std::to_string(d.size())+" bytes, "+std::to_string(wantOut.size())+" were received; first difference at "+std::to_string(q)+": "+d.substr(q,30)); } }
  // what the recorder must have done by the time it waits for the device again
  void waiting(){ name(); if(expSent.compare(0,string::npos,got)!=0) { size_t q=0; while(q<got.size()&&q<expSent.size()&&got[q]==expSent[q]) q++; fail(got.size()<expSent.size()&&q==got.size()?"command-missing":"command-wrong","the device has received "+std::to_string(got.size())+" bytes, expected "+std::to_string(expSent.size())+"; first difference at "+std::to_string(q)); } }
  void block(const string& b,bool final){ I t=clk().sec; if(out) wantOut+=b; else want[nameOf(k,t)]+=b; lg().shapeEv("B"); if(final) return; for(size_t i=0;i<strs.size();i++) if((double)t-last[i]>per[i]){ last[i]=t; expSent+=strs[i]; probe("command.due"); } }
  void deliver(const string& b){ for(char ch:b){ if(stage){ loginSeen+=ch; if(loginSeen.size()>=7&&loginSeen.compare(loginSeen.size()-7,7,"login: ")==0){ expSent+=user+"\n"; loginSeen.clear(); } else if(loginSeen.size()>=10&&loginSeen.compare(loginSeen.size()-10,10,"Password: ")==0){ expSent+=pass+"\n"; stage=0; loginSeen.clear(); } continue; } pend+=ch; if(pend.size()==512){ block(pend,false); pend.clear(); } } }
  int eof(){ if(!stage) block(pend,true); pend.clear(); ended=true; return 0; }
  // advance the script until the device has something to say
  ssize_t read(char* b,size_t n){ nread++; if(ended) return 0; waiting(); if(eintr>0){ eintr--; fault(again?"recv_eagain":"recv_eintr"); clk().advance(1000000000LL); return again?-EAGAIN:-EINTR; }
    while(avail.empty()){ if(at>=p.size()) return eof(); const Op& o=p[at++]; opc(o.kind); if(o.kind=="burst"){ clk().advance(std::max<I>(0,o.i("dt"))*1000000000LL); avail+=bytes(std::max<I>(1,std::min<I>(20000,o.i("len")))); if(o.i("rep")){ avail+="<"+std::to_string(got.size())+">"; } } else if(o.kind=="end"){ clk().advance(std::max<I>(0,o.i("dt"))*1000000000LL); eof(); if(o.i("reset")){ fault("conn_reset"); return -ECONNRESET; } fault("conn_close"); return 0; } else if(o.kind=="eintr"){ eintr=std::max<I>(0,std::min<I>(5,o.i("n"))); again=o.i("again"); if(eintr) { eintr--; fault(again?"recv_eagain":"recv_eintr"); return again?-EAGAIN:-EINTR; } } else other(o); }
    size_t m=std::min(n,avail.size()); if(shortN&&shortN<m){ m=shortN; fault("recv_short"); } string s=avail.substr(0,m); avail.erase(0,m); memcpy(b,s.data(),m); deliver(s); return m; }
  void other(const Op& o){ if(o.kind=="jump"){ I d=o.i("dt"); if(clk().sec+d<1000000) d=0; clk().sec+=d; if(d) fault("clock_jump"); } else if(o.kind=="short") shortN=std::max<I>(0,o.i("n")); else if(o.kind=="wshort"){ wshort=std::max<I>(1,o.i("n")); wintr=o.i("eintr"); } else if(o.kind=="refuse") refuse=std::max<I>(0,std::min<I>(4,o.i("n"))); else if(o.kind=="dshort"){ for(I t: {clk().sec}) disk().pol[nameOf(k,t)].writeSizes={(int)std::max<I>(1,o.i("n")),0,-1}; } }
  ssize_t write(const char* b,size_t n){ if(wintr&&(wflip=!wflip)){ fault("send_eintr"); return -EINTR; } if(wshort&&wshort<n){ n=wshort; fault("send_short"); } got.append(b,n); return n; }
  void session(){ ended=false; pend.clear(); avail.clear(); got.clear(); expSent.clear(); lineBuf.clear(); cap.str(""); wantOut.clear(); loginSeen.clear(); last.assign(strs.size(),-1e18); stage=0; vector<string> a={"rfw"}; bool file=c.i("src")==1; int lg_=file?0:(int)c.i("login"); user=lg_>=1?"u"+std::to_string(g.range(1,9999)):""; pass=lg_>=2?"p"+std::to_string(g.range(1,9999)):""; if(lg_==3) user=""; if(lg_){ stage=1; avail="\r\nwelcome\r\nlogin: "; string sep=g.chance(0.5)?"Last login today\r\n":""; avail+=sep+"Password: "; if(user.size()){ a.push_back("--username"); a.push_back(user); } if(pass.size()){ a.push_back("--password"); a.push_back(pass); } }
    if(!file) for(size_t i=0;i<strs.size();i++){ a.push_back("-s"); a.push_back(strs[i]); if(!c.i("defper")||i+1<strs.size()){ a.push_back("-p"); a.push_back(std::to_string(per[i])); } }
    a.push_back("-o"); a.push_back(out?"-":SP[k]); string tgt=file?"/sim/in.dat":"tcp:10.20.30.40:4321"; if(file){ string s; while(at<p.size()){ const Op& o=p[at++]; opc(o.kind); if(o.kind=="burst") s+=bytes(std::max<I>(1,std::min<I>(20000,o.i("len")))); else if(o.kind=="end") break; else if(o.kind=="short"){ fault("read_policy"); disk().pol["/sim/in.dat"].readSizes={(int)std::max<I>(1,o.i("n")),0,-1}; } else if(o.kind!="eintr") other(o); } disk().put("/sim/in.dat",s); for(size_t q=0;q<s.size();q+=512) block(s.substr(q,512),true); }
    if(c.i("pos")) a.push_back(tgt); else { a.push_back("-i"); a.push_back(tgt); }
    vector<char*> av; for(auto&s:a) av.push_back(&s[0]); av.push_back(nullptr); gpstk::defaultCommandOptionList.clear(); std::streambuf* keep=std::cout.rdbuf(cap.rdbuf()); struct Back { std::streambuf* k; ~Back(){ std::cout.rdbuf(k); std::cout.clear(); } } back{keep}; std::cin.clear(); std::cout.clear(); int was=nread; rfw_main((int)a.size(),av.data()); std::cout.flush();
    if(!file&&!ended) fail("stopped","the recorder stops while the device is still connected, after "+std::to_string(nread-was)+" reads"+(cap.str().size()&&!out?": "+cap.str().substr(0,200):"")); name(); if(!out&&cap.str().size()) probe("chatter"); if(!file&&got.compare(0,expSent.size(),expSent)!=0&&(got.size()>=expSent.size()||expSent.compare(0,got.size(),got)!=0)) fail("command-wrong","after the end of the session"); if(peer().open) fail("socket-leak",std::to_string(peer().open)+" sockets still open"); ev("session "+std::to_string(nread)); }
  void run(){ clk().sec=std::max<I>(1000000,c.i("_t")); clk().nsec=0; disk().mkdirs("/sim/cwd"); disk().mkdirs("/sim/log"); int ns=(int)std::max<I>(0,std::min<I>(3,c.i("ns"))); for(int i=0;i<ns;i++){ string t; size_t L=std::max<I>(1,std::min<I>(6000,c.i("l"+std::to_string(i)))); for(size_t j=0;j<L;j++) t+=(char)('A'+g.range(0,25)); strs.push_back("$"+t+"\r\n"); I q=std::max<I>(0,c.i("p"+std::to_string(i))); per.push_back(c.i("defper")&&i==ns-1?60:(int)q); }
    peer().onConnect=[&](const string& h,int port)->int{ if(h!="10.20.30.40"||port!=4321) fail("wrong-peer",h+":"+std::to_string(port)); if(refuse>0){ refuse--; fault("conn_refused"); return ECONNREFUSED; } return 0; }; peer().onRead=[&](char*b,size_t n){ return read(b,n); }; peer().onWrite=[&](const char*b,size_t n){ return write(b,n); };
    int s=0; do { session(); if(s++) fault("restart"); } while(at<p.size()&&s<20); probe("sessions",s); } };
void exec(const Plan& p){ Run r(p); r.run(); }
Reg r50({"C50","A run records one scripted device (TCP, or a file): bursts of bytes at simulated times, login prompts, commands sent on a period, receive/send calls cut short or interrupted, refused connections, resets, clock jumps, midnight and hour roll-overs, restarts of the recorder. Non-trivial: at least one byte delivered.","ext/apps/rfw: main(), RollingFileWriter, DeviceStream, FDStreamBuff, TCPStreamBuff; TimeNamedFileStream, BasicFramework, CommandOptionParser, SystemTime","TCP peer, disk, clock",6000,600000,gen,exec,400000000});
}}
