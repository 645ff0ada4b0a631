// Deterministic simulator core: one PRNG per run decides everything.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <stdint.h>
#include <inttypes.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <streambuf>
#include <ostream>
#include <sstream>

#define NOCOV __attribute__((no_sanitize("coverage")))

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 0) { reseed(seed); }
    void reseed(uint64_t seed);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }     // [0,n)
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    uint64_t geometric(double mean);
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const std::string& s);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- plan (= replay file)
struct Item {
    std::string kind;
    std::vector<std::pair<std::string, std::string> > kv;
    Item() {}
    explicit Item(const std::string& k) : kind(k) {}
    Item& s(const std::string& k, const std::string& v);
    Item& i(const std::string& k, int64_t v);
    Item& x(const std::string& k, uint64_t v);
    bool has(const std::string& k) const;
    std::string gs(const std::string& k, const std::string& d = "") const;
    int64_t gi(const std::string& k, int64_t d = 0) const;
    uint64_t gx(const std::string& k, uint64_t d = 0) const;
    std::string text() const;
    static Item parse(const std::string& line);
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;     // seed of this run
    std::vector<Item> items;
    Item& add(const std::string& kind) { items.push_back(Item(kind)); return items.back(); }
    Item cfg() const;      // merged cfg items
    std::vector<Item> of(const std::string& kind) const;
    std::string text() const;
    static Plan parse(const std::string& text);
    uint64_t sub(const std::string& label) const { return mix(seed, hash_str(label)); }
};

// ---------------------------------------------------------------- child side services
struct HarnessScope {     // code in this scope is simulator code: no faults, no steps, no ledger
    HarnessScope(); ~HarnessScope();
};
struct RealScope { int saved; RealScope(); ~RealScope(); };   // back to code under test, inside a HarnessScope
bool in_harness();

void log(const std::string& line);                     // event log, hashed
void result(const std::string& key, const std::string& value);
void count(const std::string& name, uint64_t n = 1);   // counters for the evidence
inline void count(const char* name, uint64_t n = 1) { HarnessScope h; count(std::string(name), n); }
void sig(uint64_t v);                                  // mixes into the run's state signature
void nontrivial();
void describe(const std::string& text);                // sample text
[[noreturn]] void violation(const std::string& cls, const std::string& detail);
[[noreturn]] void end_run();                           // the simulated process is killed here
void kill_at_alloc(int64_t k, void (*fn)());            // the process dies at its k-th allocation from now; fn reports what survives
[[noreturn]] void harness_error(const std::string& what);
#define SIM_REQUIRE(c) do { if (!(c)) sim::harness_error(std::string("requirement failed: ") + #c); } while (0)

// steps / liveness
void set_step_cap(uint64_t cap);
uint64_t steps();
void seam_step();                                       // called at every seam crossing

// allocator seam
struct AllocStats { uint64_t live_blocks, live_bytes, total; };
AllocStats alloc_stats();                               // repo-owned blocks only
void alloc_set_fill(int mode, uint64_t seed);           // 0: zero, 1: byte, 2: prng
void alloc_fail_at(int64_t k, int64_t every = 0);       // k-th repo allocation from now (1-based), 0 = off
void alloc_off();
uint64_t alloc_seen();                                  // repo allocations since last arm
bool alloc_fired();
uint64_t alloc_mark();                                  // serial: blocks allocated after it
uint64_t alloc_live_since(uint64_t mark);               // live repo blocks with serial > mark
void poison_stack(uint64_t seed);

// clock seam
void clock_setup(int mode, uint64_t seed);              // 0 steady, 1 jumps, 2 frozen, 3 backwards
uint64_t clock_calls();
uint64_t clock_span();                                  // simulated seconds covered

// output seam
class SimBuf : public std::streambuf {
public:
    SimBuf() : fail_at(-1), throw_at(-1), limit(-1), chunk(0), written(0), calls(0), fired(0) {}
    int64_t fail_at;     // n-th write call fails (sets badbit)
    int64_t throw_at;    // n-th write call throws
    int64_t limit;       // bytes accepted before "disk full"
    int64_t chunk;       // max bytes accepted per xsputn call round (short writes)
    std::string data;
    uint64_t written, calls, fired;
protected:
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
private:
    bool gate();
};
struct StreamFault : std::exception { const char* what() const noexcept override { return "simulated stream fault"; } };

// scheduler: real threads, one running at a time; every decision comes from here
struct SchedCfg {
    double mean_gap = 100;    // mean steps between preemptions
    double hot = 0;           // probability of preempting at an access to static data
    uint64_t seed = 1;
    bool replay = false;
    std::vector<std::pair<uint64_t, int> > script;
    uint64_t cap = 400000000ULL;
};
struct SchedOut {
    std::vector<std::pair<uint64_t, int> > trace;
    uint64_t steps = 0, switches = 0, hot_hits = 0, lock_waits = 0;
    uint64_t trace_hash = 0;
};
SchedOut run_tasks(const std::vector<std::function<void()> >& fns, const SchedCfg& cfg);
int current_task();
SchedCfg sched_cfg(const Plan& p);       // from cfg gap/hot, or the explicit schedule of a replay file

// ---------------------------------------------------------------- parent side
struct ChildResult {
    std::map<std::string, std::string> results;
    std::map<std::string, uint64_t> counters;
    std::string vcls, vdetail;
    std::string error;           // harness error / unexplained ending
    std::vector<std::string> loglines;
    uint64_t hash = 0, sig = 0;
    bool nontriv = false;
    std::string desc;
    std::vector<Item> sched;
};
ChildResult run_child(const std::function<void()>& fn);

struct Outcome {
    std::string vcls, vdetail, error;
    uint64_t hash = 0, sig = 0;
    bool nontriv = false;
    std::string desc;
    std::map<std::string, uint64_t> counters;
    std::vector<Item> sched;     // recorded schedule, to be added to the replay file
    std::vector<std::string> loglines;
    void absorb(const ChildResult& c);   // merges counters, hash, violation
};

struct Property {
    std::string id;
    std::function<Plan(uint64_t seed, bool thorough)> generate;
    std::function<Outcome(const Plan&)> evaluate;
    std::vector<std::string> shrink_keys;
    std::string rule;                 // evidence: how cases are made, what is non-trivial
    std::vector<std::string> real_components, stub_components;
    int quick_runs = 1000, thorough_runs = 20000;
    std::vector<std::string> assumptions;
    std::vector<std::string> required;   // counters that must be non-zero ("reach" probes)
};
void register_property(const Property& p);
Outcome simple_eval(const Plan& p, const std::function<void(const Plan&)>& body);

} // namespace sim
#endif
