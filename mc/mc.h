// Exhaustive bounded exploration of the real code: choice-tree engine.
//
// A scenario is a function that asks ctx.choose(n) for every nondeterministic decision (which
// operation, which argument, which environment answer, which thread runs next). The engine runs the
// scenario once per leaf of the resulting decision tree, in forked worker processes that share the
// tree by work stealing. A crash, a sanitizer report, a hang, an escaped exception or ctx.fail() in
// any execution is a violation; its choice trace is replayed in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Ctx;

struct Scenario {
    std::string name;
    std::function<void(Ctx&)> body;
    bool fork_each = false;      // run every execution in its own process (lazily built globals)
    std::string bounds;          // human readable: alphabet and bound, copied to the evidence
    double hang_s = 20;          // an execution that makes no progress for so long is a hang
    bool expect_branch = true;   // report an error if the scenario has a single execution
};

struct Violation { std::string key, msg; };
struct Abandon {};               // thrown to leave an execution early without a verdict

// Context of one execution. There is exactly one live at a time in a process.
struct Ctx {
    // A decision among n alternatives (n >= 1); alternative 0 is tried first.
    int choose(int n);
    // choose and log in one step
    int choose(int n, const char* what);
    template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    bool flip() { return choose(2) == 1; }
    // Record that one operation of the implementation was executed (a transition).
    void step(uint64_t k = 1);
    // Record the canonical state reached (counted distinct).
    void state(uint64_t hash);
    void state(const std::string& s);
    // Record an observed outcome (counted distinct; shows the exploration is not vacuous).
    void outcome(const std::string& s);
    // Report a violation. `key` identifies the failing input/call site for known findings.
    // Does not return (throws internally when the key is a known finding, else ends the process).
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    // A known finding does not end the execution with this one: true if it is listed.
    bool known(const std::string& key);
    // Free text log of the execution (kept only when sampling or replaying).
    bool logging() const;
    void log(const std::string& s);
    bool thorough() const;
    // number of executions so far in this worker (for one-off work)
    uint64_t exec_index() const;
};

Ctx& ctx();
bool active();

#define MC_LOG(c, expr) do { if ((c).logging()) { std::ostringstream os_; os_ << expr; (c).log(os_.str()); } } while (0)
#define MC_CHECK(c, cond, key, expr) do { if (!(cond)) { std::ostringstream os_; os_ << expr; (c).fail(key, os_.str()); } } while (0)

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0x9e3779b97f4a7c15ull);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

bool thorough();

// Runs all scenarios; parses --tier/--replay/--evidence/--known; returns the process exit code.
int run(int argc, char** argv, const std::string& property, const std::vector<Scenario>& scenarios,
        const std::vector<std::string>& assumptions);

// For the scheduler: invoked when the implementation calls abort-like paths inside an execution.
[[noreturn]] void die_violation(const std::string& key, const std::string& msg);

std::string hex(const std::string& s);

}  // namespace mc
