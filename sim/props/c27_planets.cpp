// C27: positions from a planetary ephemeris file, in any order of queries and
// through read errors, are those of the file's polynomials; a binary file that
// could not be written completely is reported.
#include "loaders.hpp"
#include "PlanetEphemeris.hpp"
#include "SolarSystemEphemeris.hpp"
#include <algorithm>
#include <cmath>
using namespace sim; using namespace gpstk; using std::string; using std::vector;
namespace {
struct Src { virtual ~Src(){} virtual string ascii(const string& h,vector<string> d)=0; virtual string write(const string& f)=0; virtual string init(const string& f)=0; virtual string q(double jd,int t,int c,bool km,double* pv,int& code)=0; };
template<class F> string guard(F f){ try{ return f(); } catch(gpstk::Exception& e){ return "exception: "+e.getText(); } }
string st(int r){ return r?"status "+std::to_string(r):string(); }
int ask(PlanetEphemeris& e,double jd,int t,int c,bool km,double* pv){ return e.computeState(jd,(PlanetEphemeris::Planet)t,(PlanetEphemeris::Planet)c,pv,km); }
int ask(SolarSystemEphemeris& e,double jd,int t,int c,bool km,double* pv){ e.RelativeInertialPositionVelocity(jd-2400000.5,(SolarSystemEphemeris::Planet)t,(SolarSystemEphemeris::Planet)c,pv,km); return 0; }
template<class E> struct SrcOf: Src { E e;
  string ascii(const string& h,vector<string> d) override { return guard([&]{ e.readASCIIheader(h); return st(e.readASCIIdata(d)); }); }
  string write(const string& f) override { return guard([&]{ return st(e.writeBinaryFile(f)); }); }
  string init(const string& f) override { return guard([&]{ return st(e.initializeWithBinaryFile(f)); }); }
  string q(double jd,int t,int c,bool km,double* pv,int& code) override { code=0; return guard([&]{ code=ask(e,jd,t,c,km,pv); return st(code); }); } };
Plan gen(uint64_t seed,int){ Rng g(seed); Plan p; Op o("!eph"); o.set("sse",g.chance(0.5)); o.set("_seed",g.next()>>1); o.set("nr",g.range(1,6)); o.set("pieces",g.range(1,3)); if(g.chance(0.3)) o.set("short",g.range(1,4000)); p.push_back(o);
  if(g.chance(0.5)){ Op w("write"); w.set("kind",g.range(0,2)); w.set("at",g.range(0,1000)); p.push_back(w); }
  p.push_back(Op("init")); bool two=g.chance(0.4); if(two){ Op r("init"); r.set("e",1); p.push_back(r); } int64_t last=0; int n=g.range(2,14); double span=32.0*p[0].i("nr"); for(int i=0;i<n;i++){ if(g.chance(0.15)){ Op r("init"); if(g.chance(0.5)) r.set("eio",g.range(0,1000)); if(g.chance(0.2)) r.set("open",1); if(two) r.set("e",g.range(0,1)); if(two||g.chance(0.3)) r.set("f",g.range(0,1)); p.push_back(r); continue; } if(g.chance(0.2)){ Op r("eio"); r.set("cnt",g.chance(0.3)?-1:g.range(1,3)); r.set("at",g.range(0,1000)); p.push_back(r); continue; } if(g.chance(0.1)){ p.push_back(Op("heal")); continue; }
    Op q("q"); int k=g.range(0,9); int64_t t=k==0?(int64_t)(32*86400*g.range(0,p[0].i("nr"))):k==1?(int64_t)(-g.range(1,86400*40)):k==2?(int64_t)(span*86400+g.range(1,86400*40)):k==3?(int64_t)(4*86400*g.range(0,8*p[0].i("nr"))):(int64_t)(span*86400*g.unit()); if(g.chance(0.2)) t=32*86400*g.range(0,p[0].i("nr"))+(g.chance(0.5)?1:-1)*(int64_t)std::pow(10.0,g.unit()*4); if(g.chance(two?0.4:0.15)) t=last; last=t; q.set("t",t); if(two) q.set("e",g.range(0,1)); int a=g.range(1,15),b=g.range(1,13); q.set("a",a); q.set("b",b); q.set("km",g.chance(0.7)); p.push_back(q); }
  return p; }
typedef long double LD;
void body(const ld::Jpl& j,const vector<double>& r,int w,double jd,LD* pv,LD& scale){ for(int i=0;i<6;i++) pv[i]=0; if(w<0) return; int nc=w==11?2:3,ns=j.ns[w],N=j.nco[w]; LD sp=(LD)(r[1]-r[0])/ns; int s=ns-1; while(s>0&&!(jd>r[0]+s*sp)) s--; LD b=r[0]+s*sp,x=2*(jd-b)/sp-1; const double* c=&r[j.off[w]-1+s*nc*N]; for(int i=0;i<nc;i++,c+=N){ LD P=0,V=0; LD C[8]={1,x},U[8]={0,1}; for(int k=2;k<N;k++){ C[k]=2*x*C[k-1]-C[k-2]; U[k]=2*x*U[k-1]+2*C[k-1]-U[k-2]; } for(int k=0;k<N;k++){ P+=c[k]*C[k]; V+=c[k]*U[k]; scale=std::max(scale,(LD)std::fabs(c[k])); } pv[i]=P; pv[i+nc]=V*2/sp; } }
void want(const ld::Jpl& j,const vector<double>& r,int a,int b,bool km,double jd,LD* pv,LD& scale){ for(int i=0;i<6;i++) pv[i]=0; if(a==b) return; if(a>=14){ body(j,r,a-3,jd,pv,scale); return; }
  auto bary=[&](int p,LD* o){ LD m[6],e[6]; if(p==12){ body(j,r,-1,jd,o,scale); return; } if(p==13){ body(j,r,2,jd,o,scale); return; } if(p!=3&&p!=10){ body(j,r,p-1,jd,o,scale); return; } body(j,r,9,jd,m,scale); body(j,r,2,jd,e,scale); LD f=p==3?-1/(1+(LD)j.emrat):(LD)j.emrat/(1+(LD)j.emrat); for(int i=0;i<6;i++) o[i]=e[i]+f*m[i]; };
  LD x[6],y[6]; bary(a,x); bary(b,y); for(int i=0;i<6;i++) pv[i]=(x[i]-y[i])/(km?1:(LD)j.au); if(!km) scale/=j.au; }
// one ephemeris: its file, the object that wrote it and the object that answers
struct Eph { bool sse; string nm,d; const Op& o; ld::Jpl j; std::unique_ptr<Src> w,s; string good; bool ready=false,sick=false; Eph *cur=this,*peer=0,*first=0; // sick: reads may fail, or have failed
  Eph(const Op& o,int k,double j0):sse(o.i("sse")),nm(sse?"sse":"planet"),d(k?"/sim/2":"/sim/"),o(o){ Rng g(o.i("_seed")+k*7919); int nr=std::max<int64_t>(1,o.i("nr")); j=ld::jpl(g,nr,j0); auto mk=[&]{ return sse?std::unique_ptr<Src>(new SrcOf<SolarSystemEphemeris>):std::unique_ptr<Src>(new SrcOf<PlanetEphemeris>); }; opc(nm);
  disk().put(d+"h",j.header); vector<string> files; { // the data, in several files and any order
    size_t per=j.body.size()/nr; int k=std::min<int>(std::max<int64_t>(1,o.i("pieces")),nr); vector<string> parts(k); for(int i=0;i<nr;i++) parts[i%k]+=j.body.substr(per*i,per); for(int i=k-1;i>=0;i--){ string f=d+"d"+std::to_string(i); disk().put(f,parts[i]); files.push_back(f); } }
  w=mk(); string r=w->ascii(d+"h",files); if(!r.empty()) fail(nm+"-ascii","good ASCII files are refused: "+r); r=w->write(d+"good"); if(!r.empty()) fail(nm+"-write","writing the binary file reports "+r); good=disk().get(d+"good");
  if(good.size()!=(size_t)(j.nc*8+400*8+(400-5)*8+nr*j.nc*8)) fail(nm+"-size","the binary file has "+std::to_string(good.size())+" bytes for "+std::to_string(nr)+" records of "+std::to_string(j.nc)+" coefficients");
  disk().put(d+"e",good); if(o.i("short")) disk().pol[d+"e"].readMax=o.i("short"); s=mk(); }
  void op(const Op& x){ int nr=cur->j.rec.size();
    if(x.kind=="write"){ IoPolicy io; int64_t at=(int64_t)good.size()*x.i("at")/1000; if(x.i("kind")==0) io.capacity=at; else if(x.i("kind")==1){ io.writeErrAtCall=at*8/(int64_t)good.size(); io.writeErrCount=-1; } else { io.writeErrAtCall=at*8/(int64_t)good.size(); io.writeErrCount=1; } disk().pol[d+"b"]=io; string r=w->write(d+"b"); ev("write "+r); lg().shapeEv(r.empty()?"w":"x"); if(r.empty()&&disk().get(d+"b")!=good) fail(nm+"-lost","a binary file reported as written has "+std::to_string(disk().get(d+"b").size())+" bytes of "+std::to_string(good.size())); probe(r.empty()?"written":"write_refused"); disk().pol[d+"b"]=IoPolicy(); }
    else if(x.kind=="init"){ if(x.has("f")) cur=x.i("f")?first->peer:first; IoPolicy io; if(o.i("short")) io.readMax=o.i("short"); if(x.has("eio")){ io.readErrAt=(int64_t)cur->good.size()*x.i("eio")/1000; io.readErrCount=1; peer->sick=true; } if(x.i("open")) io.openFail=true; disk().pol[cur->d+"e"]=io; uint64_t b=lg().stats["fault.read_eio"]; string r=s->init(cur->d+"e"); bool hit=lg().stats["fault.read_eio"]>b||x.i("open"); if(x.i("open")) fault("open_error"); ev("init "+r); lg().shapeEv(r.empty()?"i":"j"); if(!r.empty()&&!hit) fail(nm+"-init","a good binary file is refused: "+r); if(r.empty()&&x.i("open")) fail(nm+"-init","a file that cannot be opened is reported as opened"); ready=r.empty(); sick=hit; disk().pol[cur->d+"e"].readErrAt=-1; disk().pol[cur->d+"e"].openFail=false; }
    else if(x.kind=="eio"){ disk().pol[cur->d+"e"].readErrAt=(int64_t)cur->good.size()*x.i("at")/1000; disk().pol[cur->d+"e"].readErrCount=x.i("cnt"); sick=peer->sick=true; }
    else if(x.kind=="heal") disk().pol[cur->d+"e"].readErrAt=-1;
    else if(x.kind=="q"){ double jd=cur->j.j0+x.i("t")/86400.0,pv[6]; int code; bool km=x.i("km"); int a=std::min<int64_t>(15,std::max<int64_t>(1,x.i("a"))),b=std::min<int64_t>(13,std::max<int64_t>(1,x.i("b"))); string r=s->q(jd,a,b,km,pv,code); ev("q "+r); lg().shapeEv(r.empty()?"q":"r"); string at="the state of body "+std::to_string(a)+" seen from "+std::to_string(b)+" at JD "+fmtd(jd);
      if(a==b) return; bool in=jd>=cur->j.j0&&jd<=cur->j.j0+32*nr;
      if(!ready){ if(r.empty()) fail(nm+"-unready",at+" is answered by an object whose last initialisation failed"); return; }
      if(!r.empty()){ probe("q_refused"); if(in&&!sick) fail(nm+"-refused",at+" is refused without any fault: "+r); if(!in&&!sick&&!sse&&code!=(jd<cur->j.j0?-1:-2)) fail(nm+"-code",at+" out of range gives status "+std::to_string(code)); return; }
      if(!in) fail(nm+"-range",at+" is answered although the file spans "+fmtd(cur->j.j0)+" to "+fmtd(cur->j.j0+32*nr)); probe("answered"); string why; bool ok=false; for(auto&rc:cur->j.rec) if(rc[0]<=jd&&jd<=rc[1]){ LD v[6],sc=0; want(cur->j,rc,a,b,km,jd,v,sc); bool eq=true; for(int i=0;i<6;i++) if(!(fabsl(pv[i]-v[i])<=1e-8L*(sc+fabsl(v[i])))){ eq=false; why="component "+std::to_string(i)+" is "+fmtd(pv[i])+", the polynomial gives "+fmtd((double)v[i]); } ok|=eq; } if(!ok) fail(nm+"-state",at+": "+why); } } };
void exec(const Plan& p){ Eph a(p.at(0),0,0),b(p.at(0),1,a.j.j0); a.peer=&b; b.peer=&a; a.first=b.first=&a; for(auto&x:p) (x.i("e")?b:a).op(x); }
Reg r({"C27","A run reads one or two seeded planetary ephemerides (1-6 records of random Chebyshev coefficients for 13 bodies) from ASCII files, writes them as binary files under write faults, initialises objects from the binary files and queries states of random bodies at random times in any order, with passing and lasting read errors, failing opens and re-initialisations in between. Each answer is compared with the polynomials evaluated in long double. Non-trivial: at least one query.","PlanetEphemeris, SolarSystemEphemeris, libstdc++ filebuf","disk",20000,800000,gen,exec,60000000});
}
