// Worker side: pristine zygote process, run logs, isolated reference executions, verdicts.
#ifndef SIM_ENGINE_HPP
#define SIM_ENGINE_HPP
#include "core.hpp"
#include "shm.hpp"
#include <unordered_map>
#include <set>
#include <functional>
namespace sim {
struct RunLog {
    bool finished = false; std::string fatal_kind, fatal_msg; int fatal_thr = -1, fatal_step = -1;
    std::vector<Outcome> out; std::vector<Switch> sw; uint64_t hash = 0, sched_hash = 0, nswitch = 0; int shared_changed = 0; bool log_full = false; std::string harness_error;
};
struct Violation { std::string cls; std::string msg; int step = -1; };   // cls: what must persist while minimising
struct Counters {
    std::map<std::string, uint64_t> n; std::unordered_map<uint64_t, char> states;
    void add(std::string const& k, uint64_t v = 1) { n[k] += v; }
};
class Engine {
public:
    Shm* shm = nullptr;
    Engine(); ~Engine();
    void start();               // forks the zygote (before anything touches the library)
    void execute(Run const& r, RunLog& log);
    // reference: the same operation alone in a pristine process; memoised
    Outcome const& isolated(Step const& s, Outcome const& seen, int cwd, std::vector<Step> const& prelude, int warm);
    Outcome const& isolated_run(Run const& r);
    uint64_t runs = 0, iso_runs = 0, iso_hits = 0;
    bool layout_ok = true; bool warm_ok = true;
private:
    int to_z[2] = { -1, -1 }, from_z[2] = { -1, -1 }, zpid[2] = { -1, -1 };
    std::unordered_map<std::string, Outcome> memo;
    int roundtrip(char cmd, int warm); void fork_zygote(int warm);
};
bool judge(Run const& r, RunLog const& log, Engine& e, Counters& c, std::vector<Violation>& v);
void generate(std::string const& prop, uint64_t seed, Run& r);
Step literal_step(Step const& s, Outcome const& o);     // operands replaced by the values seen, faults removed
}
#endif
