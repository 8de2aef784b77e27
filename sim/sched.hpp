// Baton scheduler: real threads of which exactly one runs at a time; who runs next, and after how many basic blocks
// of library code, is decided by the seed.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sim::sched {
// run f(0..n-1), each on a thread of its own with its own heap arena, interleaved.
// grain: 0 switches only between steps, 1..4 also inside library calls (coarse .. fine); at most maxSwitches switches
void     run(const std::vector<int>& arenas, uint64_t seed, int grain, uint64_t maxSwitches, const std::function<void(int)>& f);
void     boundary(); // between two steps of the calling thread
void     stop();     // let all threads end at their next boundary
struct Stop {};
uint64_t switches();
uint64_t inner(); // switches that happened inside library code
uint64_t points();
// unordered accesses of two threads to the same static object, at least one of them a write; "" if there were none
std::string race();
uint64_t    watched(); // accesses to static objects that were checked
} // namespace sim::sched
