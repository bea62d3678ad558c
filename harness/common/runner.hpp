// Process-sharded exhaustive exploration: work units are pulled by forked workers, so that a crash, an assertion or a
// hang of the code under test costs one case and is itself reported.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

enum Counter { STATES, TRANSITIONS, TRACES, EVALS, SKIPPED, AUX1, AUX2, AUX3, AUX4, AUX5, AUX6, NCOUNTERS };

class Ctx {
public:
    // Name the case about to run (kept for the report of a crash or hang) and restart its clock.
    void begin(const std::string& desc);
    void note(const std::string& more);             // append to the current case's description
    void count(Counter c, uint64_t n = 1);
    bool state(uint64_t h);                         // true when new; counts STATES
    // key identifies the failing case (for deduplication and known findings), detail is written to the replay file
    void violation(const std::string& key, const std::string& detail);
    void sample(const std::string& s);
    bool stop() const;                              // deadline passed or too many violations
    int worker = 0;
    uint64_t unit = 0;
};

struct Options {
    std::string id;            // property
    std::string tier = "quick";
    double deadline_s = 600;   // exploration stops here
    double case_limit_s = 60;  // a single case running longer is a hang
    int workers = 0;
    int64_t only_unit = -1;
    std::string part, part_name; // a second process of the same check (VF_PART) whose results belong to this one
    std::string rule;          // what was enumerated
    std::vector<std::string> assumptions;
    std::map<int, std::string> aux_names;
    bool quick() const { return tier != "thorough"; }
};

Options parse_options(const std::string& id, int argc, char** argv);

// Runs fn for every unit in [0,n). Can be called several times (phases); results accumulate.
void explore(Options& o, const std::string& phase, uint64_t n, const std::function<void(Ctx&, uint64_t)>& fn);

// Writes evidence, prints KNOWN-FINDING / VIOLATION lines, returns the exit code.
int finish(Options& o);

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

template<class... T> std::string cat(const T&... t) { std::ostringstream os; (os << ... << t); return os.str(); }

}
