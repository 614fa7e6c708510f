// Independent user algorithms of the interface specifications, in long double: what a broadcast message says about a satellite.
#pragma once
#include <cmath>
#include <string>
#include <cstdio>
#include "Xvt.hpp"
namespace orb {
typedef long double ld;
struct Kep { ld A=0,Adot=0,e=0,M0=0,dn=0,dndot=0,O0=0,Od=0,i0=0,id=0,w=0,Cuc=0,Cus=0,Crc=0,Crs=0,Cic=0,Cis=0,toe=0; ld gm=3.986005e14L,we=7.2921151467e-5L; bool geo=false; ld af0=0,af1=0,af2=0;
  void bds(bool g){ gm=3.986004418e14L; we=7.292115e-5L; geo=g; } void gal(){ gm=3.986004418e14L; }
  ld anomaly(ld dt) const { ld n=sqrtl(gm/(A*A*A))+dn+0.5L*dndot*dt, M=M0+n*dt, E=M; for(int i=0;i<60;i++){ ld d=(M-(E-e*sinl(E)))/(1-e*cosl(E)); E+=d; if(fabsl(d)<1e-18L) break; } return E; }
  void pos(ld dt,ld* x) const { ld E=anomaly(dt), v=atan2l(sqrtl(1-e*e)*sinl(E),cosl(E)-e), p=v+w, s=sinl(2*p), c=cosl(2*p), u=p+Cuc*c+Cus*s, r=(A+Adot*dt)*(1-e*cosl(E))+Crc*c+Crs*s, i=i0+id*dt+Cic*c+Cis*s; ld O=O0+(Od-(geo?0:we))*dt-we*toe, a=r*cosl(u), b=r*sinl(u); ld X=a*cosl(O)-b*cosl(i)*sinl(O), Y=a*sinl(O)+b*cosl(i)*cosl(O), Z=b*sinl(i);
    if(geo){ ld f=-5*acosl(-1.0L)/180, z=we*dt; ld y2=Y*cosl(f)+Z*sinl(f), z2=-Y*sinl(f)+Z*cosl(f); Y=-X*sinl(z)+y2*cosl(z); X=X*cosl(z)+y2*sinl(z); Z=z2; } x[0]=X; x[1]=Y; x[2]=Z; }
  void vel(ld dt,ld* v) const { ld a[3],b[3],c[3],d[3]; pos(dt+1,a); pos(dt-1,b); pos(dt+2,c); pos(dt-2,d); for(int i=0;i<3;i++) v[i]=(8*(a[i]-b[i])-(c[i]-d[i]))/12; }
  ld bias(ld dt) const { return af0+dt*(af1+dt*af2); } ld drift(ld dt) const { return af1+2*dt*af2; }
  ld rel(ld dt) const { return -2*sqrtl(3.986005e14L)/(299792458.0L*299792458.0L)*e*sqrtl(A+Adot*dt)*sinl(anomaly(dt)); } };
inline std::string off(const char* n,double got,ld want,double tol){ if(std::fabs((double)(got-want))<=tol) return ""; char b[200]; snprintf(b,200,"%s is %.12g, the message says %.12g",n,got,(double)want); return b; }
// "" when the answer is what the message says; dtc: time since Toc, dte: time since Toe
inline std::string place(const Kep& k,ld dte,const gpstk::Xvt& x,double velTol=1e-5){ ld p[3],v[3]; k.pos(dte,p); k.vel(dte,v); std::string s; const char* n[]={"x","y","z"}; const char* m[]={"the velocity in x","the velocity in y","the velocity in z"}; for(int i=0;i<3&&s.empty();i++){ s=off(n[i],x.x[i],p[i],1e-4); if(s.empty()) s=off(m[i],x.v[i],v[i],velTol); } return s; }
inline std::string check(const Kep& k,ld dte,ld dtc,const gpstk::Xvt& x,double velTol=1e-5){ std::string s=place(k,dte,x,velTol);
  if(s.empty()) s=off("the clock bias",x.clkbias,k.bias(dtc),1e-16+1e-13*(double)fabsl(k.bias(dtc))); if(s.empty()) s=off("the clock drift",x.clkdrift,k.drift(dtc),1e-20+1e-12*(double)fabsl(k.drift(dtc))); if(s.empty()) s=off("the relativity correction",x.relcorr,k.rel(dte),2e-16+1e-9*(double)fabsl(k.rel(dte))); return s; }
// GLONASS: the equations of motion of the ICD in the rotating frame
struct Glo { ld p[3],v[3],a[3]; ld tau=0,gamma=0;   // m, m/s, m/s2
  static void f(const ld* s,const ld* a,ld* d){ const ld mu=3.986004418e14L,ae=6378136.0L,J2=1.08262575e-3L,we=7.292115e-5L; ld r2=s[0]*s[0]+s[1]*s[1]+s[2]*s[2], r=sqrtl(r2), k=mu/(r2*r), q=1.5L*J2*mu*ae*ae/(r2*r2*r), z=5*s[2]*s[2]/r2; for(int i=0;i<3;i++) d[i]=s[3+i]; d[3]=-k*s[0]-q*s[0]*(1-z)+we*we*s[0]+2*we*s[4]+a[0]; d[4]=-k*s[1]-q*s[1]*(1-z)+we*we*s[1]-2*we*s[3]+a[1]; d[5]=-k*s[2]-q*s[2]*(3-z)+a[2]; }
  void at(ld dt,ld* s) const { for(int i=0;i<3;i++){ s[i]=p[i]; s[3+i]=v[i]; } int n=(int)ceill(fabsl(dt)/20); if(n<1) return; ld h=dt/n; for(int j=0;j<n;j++){ ld k1[6],k2[6],k3[6],k4[6],t[6]; f(s,a,k1); for(int i=0;i<6;i++) t[i]=s[i]+h/2*k1[i]; f(t,a,k2); for(int i=0;i<6;i++) t[i]=s[i]+h/2*k2[i]; f(t,a,k3); for(int i=0;i<6;i++) t[i]=s[i]+h*k3[i]; f(t,a,k4); for(int i=0;i<6;i++) s[i]+=h/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]); } } };
inline std::string check(const Glo& k,ld dt,const gpstk::Xvt& x){ ld s[6]; k.at(dt,s); std::string e; const char* n[]={"x","y","z"}; const char* m[]={"the velocity in x","the velocity in y","the velocity in z"}; for(int i=0;i<3&&e.empty();i++){ e=off(n[i],x.x[i],s[i],0.05); if(e.empty()) e=off(m[i],x.v[i],s[3+i],2e-4); } ld c2=299792458.0L*299792458.0L, rel=-2*(s[0]*s[3]+s[1]*s[4]+s[2]*s[5])/c2; if(e.empty()) e=off("the relativity correction",x.relcorr,rel,1e-13); if(e.empty()) e=off("the clock bias",x.clkbias,k.tau+k.gamma*dt-rel,1e-13); if(e.empty()) e=off("the clock drift",x.clkdrift,k.gamma,1e-20+1e-12*(double)fabsl(k.gamma)); return e; }
}
