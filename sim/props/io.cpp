#include "io.hpp"
#include "FFStreamError.hpp"
using namespace sim; using std::string;
namespace fmt {
string brief(const string& s,size_t n){ return s.size()<=n?s:s.substr(0,n)+"..."; }
string diffAt(const string& a,const string& b){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; size_t f=i>40?i-40:0; return "differs at "+std::to_string(i)+": expected ..."+a.substr(f,90)+"... got ..."+b.substr(f,90); }
Op fmtOp(Rng& g,const string& only,int maxRec){ Op o("!fmt"); o.sets("name",only.empty()?g.pick(names()):only); o.set("_seed",g.next()>>1); o.set("n",g.range(1,maxRec)); return o; }
Fix fixture(const Plan& p){ Fix f; for(auto&o:p) if(o.kind=="!fmt"){ f.set=make(o.s("name"),o.i("_seed"),o.i("n",1)); opc("fmt."+o.s("name")); break; }
  if(!f.set) throw std::runtime_error("plan has no !fmt"); f.text=f.set->build(&f.marks); f.wantHdr=f.set->hdrDump(); for(int i=0;i<f.set->n();i++) f.want.push_back(f.set->recDump(i)); return f; }
Got readAll(Set& s,const string& path,const ReadOpt& o,const string& prev,int prevRecs,bool prevClose){
  Got g; try{ auto r=s.reader(prev.empty()?path:prev); if(!prev.empty()){ if(s.hdr) r->header(); for(int i=0;i<prevRecs&&r->s();i++) r->get(); if(prevClose) r->s().close(); r->reopen(path); } g.opened=r->s().is_open()&&!r->s().fail(); if(!g.opened){ g.fail=true; return g; }
    if(o.exceptions) r->s().exceptions(std::ios::failbit);
    try{
      if(s.hdr&&(o.explicitHdr||!s.implicitHdr)){ r->header(); g.hdrOk=(bool)r->s(); if(g.hdrOk) g.hdr=r->dumpHdr(); }
      while(g.hdrOk&&g.recs.size()<o.cap){ r->get(); if(!r->s()) break; if(r->isEnd()) continue; g.recs.push_back(r->dump()); }
    } catch(gpstk::Exception& e){ g.threw=true; g.exc=e.getText(); }
    catch(std::ios_base::failure& e){ g.threw=true; g.exc=e.what(); }
    g.eof=r->s().eof(); g.fail=r->s().fail(); g.bad=r->s().bad(); g.recordNumber=r->s().recordNumber;
  } catch(gpstk::Exception& e){ g.threw=true; g.exc="ctor/dtor: "+e.getText(); }
  return g;
}
sim::Op damageOp(sim::Rng& g){ static const char* K[]={"flip","set","zero","del","dup","move","digit","line","linedel","linedup","trunc"}; sim::Op o(K[g.range(0,10)]); o.set("at",g.range(0,1000000)); o.set("len",g.chance(0.7)?g.range(1,12):g.range(1,700)); o.set("v",g.range(0,255)); o.set("to",g.range(0,1000000)); return o; }
void damage(std::string& t,const sim::Op& o){ if(t.empty()) return;
  auto lineAt=[&](int64_t a,size_t& b,size_t& e){ b=t.rfind('\n',a?a-1:0); b=b==std::string::npos?0:b+1; if((int64_t)b>a) b=a; e=t.find('\n',a); e=e==std::string::npos?t.size():e+1; };
  int64_t at=std::min<int64_t>(o.i("at")*(int64_t)t.size()/1000000,t.size()-1), n=std::min<int64_t>(std::max<int64_t>(1,o.i("len")),t.size()-at), to=o.i("to")*(int64_t)t.size()/1000000; size_t b,e; unsigned char v=o.i("v");
  if(o.kind=="flip") t[at]^=1<<(v&7); else if(o.kind=="set") t[at]=v; else if(o.kind=="zero") for(int64_t i=0;i<n;i++) t[at+i]=0; else if(o.kind=="del") t.erase(at,n); else if(o.kind=="dup") t.insert(std::min<size_t>(to,t.size()),t.substr(at,n)); else if(o.kind=="move"){ std::string s=t.substr(at,n); t.erase(at,n); t.insert(std::min<size_t>(to,t.size()),s); }
  else if(o.kind=="digit"){ size_t q=t.find_first_of("0123456789.-+",at); if(q!=std::string::npos){ static const char C[]="0123456789.-+ ED"; t[q]=C[v%16]; } }
  else if(o.kind=="line"){ lineAt(at,b,e); std::string l=t.substr(b,e-b); t.erase(b,e-b); if(!t.empty()) { lineAt(std::min<int64_t>(to,t.size()-1),b,e); t.insert(b,l);} }
  else if(o.kind=="linedel"){ lineAt(at,b,e); t.erase(b,e-b); } else if(o.kind=="linedup"){ lineAt(at,b,e); t.insert(e,t.substr(b,e-b)); } else if(o.kind=="trunc") t.resize(at);
  sim::fault("corrupt_"+o.kind); }
}
