#include "configs.hpp"
#include "uni.hpp"
namespace sim {
void runUni1(const Plan& p, Ctx& c) { runUniverse<CfgTiny>(p, c); }
} // namespace sim
