// What a simulation binary provides to the driver.
#pragma once
#include "rt.hpp"
namespace sim {
// the plan of run `idx` of `check` under `seed`; deep = thorough tier
Plan makePlan(const std::string& check, uint64_t seed, uint64_t idx, bool deep);
// execute (inside a child process, simulated heap active); throws Violation
void runPlan(const Plan& p, Ctx& c);
// name of an action kind of this world, and back
const char* actName(const Plan& p, int kind);
int         actKind(const std::string& name);
int         actKinds();
struct CheckInfo {
    const char* id;
    int         quickRuns;
    int         deepRuns;
    const char* rule;  // what a run is and what makes it non-trivial
    const char* real;  // components running real code / stubs
    int         second = 0;    // 1: execute each plan under two memory layouts and compare; 2: compare threads with each thread alone
};
const CheckInfo* checkInfo(const std::string& id);
} // namespace sim
