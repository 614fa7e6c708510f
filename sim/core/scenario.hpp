#pragma once
#include "simrt.hpp"
#include "plan.hpp"
namespace sim {
struct Scenario {
  const char* prop;                                   // property id
  const char* rule;                                   // evidence: how cases are made / what is non-trivial
  const char* realParts; const char* stubParts;       // evidence: which components ran real code / stubs
  uint64_t quickRuns, thoroughRuns;
  Plan (*gen)(uint64_t seed,int tier);
  void (*exec)(const Plan&);
  uint64_t stepLimit;
};
std::vector<Scenario>& scenarios();
struct Reg { Reg(const Scenario& s){ scenarios().push_back(s);} };
}
