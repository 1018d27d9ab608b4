#pragma once
#include "sim.h"
#include "mqtt.h"
#include "run.h"
namespace sim {
struct Ctx {
  std::string prop, scen; u64 seed=0; std::set<int> mask; std::set<std::string> off; u64 preempt_off=0; Rng g; std::vector<std::string> desc; std::vector<std::string> feats; u64 executed=0; bool quick=true;
  bool feature(const std::string&n,bool want){ if(want) feats.push_back(n); return want&&!off.count(n); }
  bool keep(int i) const { return !mask.count(i); }
};
extern Ctx* C;
struct Scenario { const char* name; void(*run)(Ctx&); };
struct PropScen { const char* prop; const char* scen; int weight; };
extern std::vector<Scenario> scenarios; extern std::vector<PropScen> propscens;
struct RegScen { RegScen(const char*n,void(*f)(Ctx&)); };
#define SCENARIO(n) static void scen_##n(Ctx&); static RegScen reg_##n(#n,scen_##n); static void scen_##n(Ctx&c)
}
