#include "configs.hpp"
#include "uni.hpp"
namespace sim {
void runUni2(const Plan& p, Ctx& c) { runUniverse<CfgSmall>(p, c); }
} // namespace sim
