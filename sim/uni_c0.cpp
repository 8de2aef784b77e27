#include "configs.hpp"
#include "uni.hpp"
namespace sim {
void runUni0(const Plan& p, Ctx& c) { runUniverse<dd::DDPackageConfig>(p, c); }
} // namespace sim
