// C05: what is written, across append sessions and interrupted writes, is what
// is read back, and writing what was read reproduces the file.
#include "io.hpp"
using namespace sim; using namespace fmt; using std::string;
static string sizes(Rng& g,int big){ string s; if(g.chance(0.6)){ int n=g.range(1,5); for(int i=0;i<n;i++) s+=(i?",":"")+std::to_string(g.chance(0.2)?0:g.chance(0.3)?-1:g.range(1,big)); s+=",-1"; } return s; }
static std::vector<int> parse(const string& s){ std::vector<int> v; size_t i=0; while(i<s.size()){ v.push_back(atoi(s.c_str()+i)); i=s.find(',',i); if(i==string::npos) break; i++; } return v; }
static Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; p.push_back(fmtOp(g,"",g.chance(0.2)?40:8)); Op c("!mode"); c.sets("_ws",sizes(g,2000)); c.sets("_rs",sizes(g,600)); c.set("exc",g.chance(0.4)); c.set("wexc",g.chance(0.4)); c.set("xh",g.chance(0.7)); p.push_back(c);
  int k=g.range(0,4); for(int i=0;i<k;i++) p.push_back(Op("reopen").set("after",g.range(0,8))); return p; }
static void exec(const Plan& p){ Fix f=fixture(p); const string who=f.set->name; string path="/sim/a.dat"; ReadOpt o; bool wexc=false; std::set<int> re; std::vector<int> ws,rs; 
  for(auto&q:p){ if(q.kind=="!mode"){ ws=parse(q.s("_ws")); rs=parse(q.s("_rs")); o.exceptions=q.i("exc"); wexc=q.i("wexc"); o.explicitHdr=q.i("xh"); } if(q.kind=="reopen"){ re.insert(q.i("after")); opc("reopen"); } }
  disk().pol[path].writeSizes=ws; disk().pol[path].readSizes=rs;
  { auto w=f.set->writer(path,false,wexc); w->header(true); for(int i=0;i<f.set->n();i++){ 
      if(re.count(i)&&f.set->appendable){ w->close(); w.reset(); w=f.set->writer(path,true,wexc); w->header(false); probe("append_session"); }
      w->put(i); if(!w->s()) fail("rt-"+who+"-put","put "+std::to_string(i)+" failed on a healthy disk"); }
    w->close(); if(!w->s()) fail("rt-"+who+"-close","close failed on a healthy disk"); }
  string text=disk().get(path); if(text!=f.text) fail("rt-"+who+"-sessions","written across sessions and short writes "+diffAt(f.text,text));
  lg().shapeEv(who+std::to_string(f.want.size()));
  Got g=readAll(*f.set,path,o); 
  if(!g.opened||!g.hdrOk) fail("rt-"+who+"-unreadable","file does not read back: "+g.exc+" | "+brief(f.text,300));
  if(f.set->hdr&&(o.explicitHdr||!f.set->implicitHdr)&&g.hdr!=f.wantHdr) fail("rt-"+who+"-header","header "+diffAt(f.wantHdr,g.hdr));
  for(size_t i=0;i<g.recs.size()&&i<f.want.size();i++) if(g.recs[i]!=f.want[i]) fail("rt-"+who+"-record","record "+std::to_string(i)+" "+diffAt(f.want[i],g.recs[i])+" | "+brief(f.text,300));
  if(g.recs.size()!=f.want.size()) fail("rt-"+who+"-count","wrote "+std::to_string(f.want.size())+" read "+std::to_string(g.recs.size())+" "+g.exc+" | "+brief(f.text,300));
  if(!g.fail&&!g.threw) fail("rt-"+who+"-noend","reader did not stop");
  if(!o.exceptions&&!g.eof) fail("rt-"+who+"-noeof","end of data not reported as end of file"); 
  if(g.recordNumber!=(long)g.recs.size()) probe("recordNumber_differs");
  // copy program: read each record and write it to a second stream
  f.set->copy(path,"/sim/b.dat"); ReadOpt o2; Got c=readAll(*f.set,"/sim/b.dat",o2); if(c.recs!=f.want){ size_t i=0; while(i<c.recs.size()&&i<f.want.size()&&c.recs[i]==f.want[i]) i++; fail("rt-"+who+"-copy","a record-by-record copy has "+std::to_string(c.recs.size())+" of "+std::to_string(f.want.size())+" records; record "+std::to_string(i)+" "+(i<c.recs.size()&&i<f.want.size()?diffAt(f.want[i],c.recs[i]):c.exc)+" | "+brief(disk().get("/sim/b.dat"),200)); }
  if(f.set->hdr&&c.hdr!=f.wantHdr) fail("rt-"+who+"-copyheader","header of a copied file "+diffAt(f.wantHdr,c.hdr)); }
static Reg r({"C05","A run writes one seeded file in one of 16 formats in 1-5 sessions (close and reopen for append between records) through short and interrupted writes, reads it back through short and interrupted reads, and copies it record by record. Non-trivial: at least one record.","all gpstk readers and writers, libstdc++ filebuf","disk",40000,1500000,gen,exec,400000000});
