// Simulated file system: file names under /simfs/ opened through the C++ streams never reach the real disk.
// Which transfers are short, interrupted or fail is decided by the plan.
#pragma once
#include "rt.hpp"

#include <map>
#include <string>
#include <vector>

namespace sim::fs {
struct Faults {
    uint64_t seed      = 0;
    bool     shortIo   = false; // transfers move fewer bytes than asked
    bool     eintr     = false; // transfers are interrupted now and then
    bool     openFails = false;
    int64_t  writeErrAt = -1; // I/O error once that many bytes were written
    int64_t  spaceLeft  = -1; // medium full after that many bytes
    int64_t  readErrAt  = -1;
    bool     closeFails = false;
    bool     once       = false; // a failing transfer fails only once
};
void                                reset();
void                                setFaults(const Faults& f);
std::map<std::string, std::string>& disk();
struct Stats {
    uint64_t shorts = 0, eintrs = 0, errors = 0, full = 0, opens = 0, closeErr = 0, openErr = 0;
};
Stats& stats();
// programs the code would have started, with the disk as it was then (nothing is ever started)
struct Command {
    std::string                        line;
    std::map<std::string, std::string> disk;
};
std::vector<Command>& commands();
} // namespace sim::fs
