// A plan is the explicit list of operations and faults of one simulated run.
// It is generated from one seed, executed as a pure function, written as text
// (the replay file) and shrunk by dropping ops and reducing numbers.
#pragma once
#include "rng.hpp"
#include <string>
#include <vector>
#include <sstream>
#include <cstdlib>
#include <utility>
namespace sim {
struct Op {
  std::string kind;                                   // kinds starting with '!' are never dropped
  std::vector<std::pair<std::string,std::string>> a;
  Op(){}
  explicit Op(const std::string& k):kind(k){}
  Op& set(const std::string& k,int64_t v){ for(auto&p:a) if(p.first==k){p.second=std::to_string(v);return *this;} a.emplace_back(k,std::to_string(v)); return *this; }
  Op& sets(const std::string& k,const std::string& v){ for(auto&p:a) if(p.first==k){p.second=v;return *this;} a.emplace_back(k,v); return *this; }
  bool has(const std::string& k) const { for(auto&p:a) if(p.first==k) return true; return false; }
  int64_t i(const std::string& k,int64_t d=0) const { for(auto&p:a) if(p.first==k) return strtoll(p.second.c_str(),0,10); return d; }
  std::string s(const std::string& k,const std::string& d="") const { for(auto&p:a) if(p.first==k) return p.second; return d; }
  std::string text() const { std::string r=kind; for(auto&p:a) r+=" "+p.first+"="+p.second; return r; }
  static Op parse(const std::string& line){ std::istringstream is(line); Op o; is>>o.kind; std::string t; while(is>>t){ auto e=t.find('='); if(e==std::string::npos) o.a.emplace_back(t,"1"); else o.a.emplace_back(t.substr(0,e),t.substr(e+1)); } return o; }
};
typedef std::vector<Op> Plan;
inline std::string planText(const Plan& p){ std::string r; for(auto&o:p) r+=o.text()+"\n"; return r; }
inline Plan parsePlan(const std::string& t){ Plan p; std::istringstream is(t); std::string l; while(std::getline(is,l)){ if(l.empty()||l[0]=='#') continue; p.push_back(Op::parse(l)); } return p; }
}
