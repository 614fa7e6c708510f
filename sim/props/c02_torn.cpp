// C02: a file cut off (crash while it was written) or with an unreadable sector
// at any byte: every record wholly before the damage, once, in order, unaltered;
// at most one record from the damaged place; then failure; clean end <=> EOF.
#include "io.hpp"
#include <algorithm>
using namespace sim; using namespace fmt; using std::string;
static void chunks(Rng& g,Op& o){ int k=g.range(0,3); string s; if(k==0) s=""; else { int n=g.range(1,6); for(int i=0;i<n;i++){ int v=g.chance(0.15)?0:g.chance(0.3)?g.range(1,9):g.chance(0.5)?g.range(10,400):-1; s+=(i?",":"")+std::to_string(v); } bool ok=false; for(char c:s) if(c>='1'&&c<='9') ok=true; if(!ok) s+=",7"; } if(!s.empty()) o.sets("_sizes",s); }
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(fmtOp(g,"",g.chance(0.2)?20:6)); int k=g.range(1,6);
  for(int i=0;i<k;i++){ Op o(g.chance(0.6)?"cut":"eio"); o.set("bp",g.chance(0.25)?-g.range(1,40):g.range(0,1000000)); o.set("rel",g.chance(0.4)?g.range(-4,4):99); o.set("exc",g.chance(0.4)); o.set("xh",g.chance(0.6)); chunks(g,o); p.push_back(o); }
  return p; }
static std::vector<int> sizes(const Op& o){ std::vector<int> v; string s=o.s("_sizes"); size_t i=0; while(i<s.size()){ v.push_back(atoi(s.c_str()+i)); i=s.find(',',i); if(i==string::npos) break; i++; } return v; }
static void exec(const Plan& p){ Fix f=fixture(p); const string who=f.set->name; int64_t N=f.text.size();
  for(auto& o:p){ if(o.kind!="cut"&&o.kind!="eio") continue; opc(o.kind);
    // the damage point: anywhere, or within a few bytes of a record boundary
    int64_t at; int64_t bp=o.i("bp"); if(o.i("rel")!=99){ size_t m=(bp<0?-bp:bp)%f.marks.size(); at=(int64_t)f.marks[m]+o.i("rel"); } else at=bp<0?N+bp:bp*N/1000000; at=std::max<int64_t>(0,std::min(at,N));
    bool eio=o.kind=="eio"; if(eio&&at>=N) at=N-1;
    string path="/sim/t.dat"; disk().pol.erase(path); disk().put(path,eio?f.text:f.text.substr(0,at));
    IoPolicy& P=disk().pol[path]; P.readSizes=sizes(o); if(eio){ P.readErrAt=at; P.readErrCount=-1; }
    if(!eio) fault("truncate");
    ReadOpt ro; ro.exceptions=o.i("exc"); ro.explicitHdr=o.i("xh"); Got g=readAll(*f.set,path,ro);
    const bool xh=ro.explicitHdr||!f.set->implicitHdr; size_t whole=0; while(whole<f.want.size()&&(int64_t)f.marks[whole+1]<=at) whole++;
    bool lonelyEpoch=f.set->lookahead&&whole>0&&f.want[whole-1].find("r=*")<3; // SP3: an epoch line with no data line is an error by the format
    const size_t wholeRaw=whole; if(f.set->lookahead&&whole>0&&(eio||lonelyEpoch)) whole--;
    bool headerWhole=at>=(int64_t)f.marks[0]+(f.set->lookahead?(eio?90:1):0); bool hasHdr=f.set->hdr;
    string where=" ["+who+" "+o.kind+" at byte "+std::to_string(at)+" of "+std::to_string(N)+", "+std::to_string(whole)+" whole records] ";
    ev(where+" got "+std::to_string(g.recs.size())+" eof="+std::to_string(g.eof)+" fail="+std::to_string(g.fail)+" threw="+std::to_string(g.threw));
    lg().shapeEv(std::to_string(g.recs.size())+"/"+std::to_string(whole)+"/"+std::to_string(g.fail)+std::to_string(g.eof));
    if(hasHdr&&headerWhole&&xh&&(!g.hdrOk||g.hdr!=f.wantHdr)&&g.opened) fail("torn-"+who+"-header","header wholly present but "+(g.hdrOk?diffAt(f.wantHdr,g.hdr):"not delivered: "+g.exc)+where);
    // the header's last line may be complete but for its line end
    if(hasHdr&&at+2<(int64_t)f.marks[0]&&!g.recs.empty()) fail("torn-"+who+"-headerless","records delivered from a file whose header is cut off"+where);
    for(size_t i=0;i<whole;i++){ if(i>=g.recs.size()) fail("torn-"+who+"-lost","record "+std::to_string(i)+" lies wholly before the damage but was not delivered"+where+g.exc); if(g.recs[i]!=f.want[i]) fail("torn-"+who+"-altered","record "+std::to_string(i)+" "+diffAt(f.want[i],g.recs[i])+where); }
    if(g.recs.size()>wholeRaw+1) fail("torn-"+who+"-extra","more than one record from the damaged place: "+g.recs.back()+where);
    if(g.recs.size()==whole+1){ probe(eio?"torn_record_delivered_eio":"torn_record_delivered"); if(!f.set->text&&(whole>=f.want.size()||g.recs[whole]!=f.want[whole])) fail("torn-"+who+"-garbage","a damaged checksummed record was delivered"+where);
      if(whole<f.want.size()&&g.recs[whole]==f.want[whole]) probe("last_record_complete_without_line_end"); }
    if(!g.fail&&!g.threw) fail("torn-"+who+"-nofail","reader kept succeeding at the end"+where);
    if(eio&&!g.bad&&g.eof&&!g.threw) fail("torn-"+who+"-eio-as-eof","an unreadable sector was reported as a clean end of file"+where);
    bool boundary=false; for(size_t m=0;m<f.marks.size();m++) if((int64_t)f.marks[m]==at) boundary=true;
    if(!eio&&boundary&&headerWhole&&!lonelyEpoch&&!g.eof&&!g.threw&&f.set->prefixDecodable) fail("torn-"+who+"-cleanend","file ends exactly after a record but end of file is not reported"+where);
    if(!eio&&!boundary&&whole<f.want.size()&&g.recs.size()==whole){ probe("torn_record_refused"); }
    disk().files.erase(path); disk().pol.erase(path);
  } }
static Reg r({"C02","A run is one seeded file in one of 16 formats read under 1-6 damage cases (truncation or persistent EIO at a byte, biased to record boundaries), each with its own read chunking. Non-trivial: at least one damage case executed.","all gpstk readers and writers, libstdc++ filebuf","disk (in-memory file system below fopen/read/write), allocator",40000,1500000,gen,exec,200000000});
