#include "configs.hpp"
#include "uni.hpp"
namespace sim {
void runUni3(const Plan& p, Ctx& c) { runUniverse<CfgDM>(p, c); }
} // namespace sim
