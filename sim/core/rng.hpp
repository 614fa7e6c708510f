// One PRNG decides everything: splitmix64-seeded xoshiro256**.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
inline uint64_t splitmix(uint64_t& x){ uint64_t z=(x+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);}
inline uint64_t mix(uint64_t a,uint64_t b){ uint64_t x=a*0x9E3779B97F4A7C15ULL^b; return splitmix(x);}
inline uint64_t hashStr(const std::string& s,uint64_t h=1469598103934665603ULL){ for(unsigned char c:s){h^=c;h*=1099511628211ULL;} return h;}
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed=1){ for(int i=0;i<4;i++) s[i]=splitmix(seed); }
  static uint64_t rotl(uint64_t x,int k){return (x<<k)|(x>>(64-k));}
  uint64_t next(){ uint64_t r=rotl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0];s[3]^=s[1];s[1]^=s[2];s[0]^=s[3];s[2]^=t;s[3]=rotl(s[3],45);return r;}
  // uniform in [lo,hi]
  int64_t range(int64_t lo,int64_t hi){ if(hi<=lo) return lo; return lo+(int64_t)(next()%(uint64_t)(hi-lo+1)); }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  bool chance(double p){ return unit()<p; }
  template<class T> const T& pick(const std::vector<T>& v){ return v[range(0,(int64_t)v.size()-1)]; }
  template<class T> void shuffle(std::vector<T>& v){ for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[range(0,i-1)]); }
};
}
