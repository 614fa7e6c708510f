// C07: BINEX: a damaged byte (on the disk, or only in one read of it) is never
// delivered as data; after a passing fault the record is delivered on retry.
#include "io.hpp"
#include <algorithm>
using namespace sim; using namespace fmt; using std::string;
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(fmtOp(g,"binex",g.chance(0.2)?14:5)); Op c("!mode"); c.set("exc",g.chance(0.3)); string s; if(g.chance(0.5)){ int n=g.range(1,4); for(int i=0;i<n;i++) s+=(i?",":"")+std::to_string(g.chance(0.2)?0:g.range(1,200)); s+=",-1"; } c.sets("_sizes",s); p.push_back(c);
  int k=g.range(1,4); for(int i=0;i<k;i++){ Op o(g.chance(0.5)?"rot":"blip"); o.set("rec",g.range(0,13)); o.set("at",g.range(0,1000000)); o.set("x",g.chance(0.5)?1<<g.range(0,7):g.range(1,255)); o.set("y",g.chance(0.5)?g.range(0,255):0); p.push_back(o); } return p; }
static size_t ub(unsigned long v){ return v<128?1:v<16384?2:v<2097152?3:4; }
static void exec(const Plan& p){ Fix f=fixture(p); string t=f.text; size_t n=f.want.size(); bool exc=false; string path="/sim/x.bnx"; IoPolicy& P=disk().pol[path]; std::set<size_t> rotten; std::map<size_t,std::pair<size_t,int>> blip;
  for(auto&o:p){ if(o.kind=="!mode"){ exc=o.i("exc"); string s=o.s("_sizes"); size_t i=0; while(i<s.size()){ P.readSizes.push_back(atoi(s.c_str()+i)); i=s.find(',',i); if(i==string::npos) break; i++; } }
    if(o.kind=="rot"||o.kind=="blip"){ size_t r=o.i("rec")%n; if(rotten.count(r)||blip.count(r)) continue; const string& w=f.want[r]; unsigned long id=strtoul(w.c_str()+w.find("id=")+3,0,10); size_t ml=(w.size()-(w.find(" m=")+3))/2;
      size_t data=ml, total=ub(id)+ub(ml)+ml, crc; long fl=strtol(w.c_str()+w.find(" f=")+3,0,10); bool enh=fl&0x08; crc=enh?(total<128?2:4):(total<128?1:total<4096?2:4); data+=crc; 
      size_t off=f.marks[r]+1+ub(id)+ub(ml)+o.i("at")%data; int x=o.i("x",1)&255; if(!x) x=1; if(off>=f.marks[r+1]) throw std::runtime_error("layout");
      // stored as a two-byte burst where the record carries a CRC and both bytes are message bytes
      int y=0; if(crc>=2&&o.i("at")%data+1<ml) y=o.i("y")&255; if(y) probe("two_byte_burst"); x|=y<<8;
      if(o.kind=="rot"){ t[off]^=x&255; t[off+1<t.size()?off+1:off]^=(x>>8)&255; rotten.insert(r); fault("byte_rot"); } else blip[r]={off,x}; opc(o.kind); } }
  disk().put(path,t); size_t got=0; auto r=f.set->reader(path); if(exc) r->s().exceptions(std::ios::failbit); int guard=0;
  while(guard++<200){ auto b=blip.find(got); bool blipped=b!=blip.end(); string good; size_t off=0; if(blipped){ off=b->second.first; string& d=disk().files[path]->data; int xx=b->second.second; d[off]^=xx&255; if(xx>>8) d[off+1]^=xx>>8; r->s().clear(); r->s().seekg(r->s().tellg()); fault("byte_blip"); }
    bool threw=false; string ex; long before=r->s().tellg(); unsigned long rn=r->s().recordNumber; try{ r->get(); } catch(gpstk::Exception& e){ threw=true; ex=e.getText(); } catch(std::ios_base::failure& e){ threw=true; }
    if(blipped){ int xx=b->second.second; string& d=disk().files[path]->data; d[off]^=xx&255; if(xx>>8) d[off+1]^=xx>>8; }
    bool ok=!threw&&(bool)r->s(); ev("record "+std::to_string(got)+(ok?" ok":" failed ")+ex);
    if(ok){ string d=r->dump(); if(got>=n) fail("checksum-extra","more records than written"); if(rotten.count(got)||blipped) fail("checksum-delivered","record "+std::to_string(got)+" holds a damaged byte and was delivered: "+diffAt(f.want[got],d)); if(d!=f.want[got]) fail("checksum-record","record "+std::to_string(got)+" "+diffAt(f.want[got],d)); got++; continue; }
    if(got>=n){ if(!r->s().eof()) fail("checksum-noeof","end of file not reported"); break; }
    if(blipped){ blip.erase(b); r->s().clear(); if((long)r->s().tellg()!=before) fail("checksum-position","a refused record moved the stream from "+std::to_string(before)+" to "+std::to_string((long)r->s().tellg())); if(r->s().recordNumber!=rn) fail("checksum-number","a refused record changed the record count"); r->s().seekg(before); probe("retry_after_blip"); continue; }
    if(!rotten.count(got)) fail("checksum-spurious","intact record "+std::to_string(got)+" was refused: "+ex);
    // skip the rotten record as a user can: seek to the next one
    probe("rotten_refused"); r->s().clear(); if((long)r->s().tellg()!=before) fail("checksum-position","a refused record moved the stream"); got++; r->s().seekg(f.marks[got]); }
  lg().shapeEv(std::to_string(got)); }
static Reg r({"C07","A run writes one seeded BINEX file and damages 1-4 records by one byte of message or checksum (or two adjacent message bytes where the record carries a CRC), on the disk or for a single read of it, with chunked and interrupted reads. Non-trivial: at least one byte damaged.","BinexData, BinexStream, CRC code, libstdc++ filebuf","disk",60000,2000000,gen,exec,200000000});
