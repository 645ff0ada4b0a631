// C01: jobs in interleaved threads against the same jobs alone in fresh processes.
#include "jobs.hpp"
#include <iostream>
using namespace sim;
namespace {
Outcome eval(const Plan& p) {
    Outcome o; Item c = p.cfg(); std::vector<Item> jobs = p.of("job"); if (jobs.empty()) { return o; }
    int T = (int)c.gi("threads", 2); std::vector<std::string> alone; uint64_t total = 0;
    for (size_t i = 0; i < jobs.size(); i++) {
        ChildResult r = run_child([&]() { HarnessScope h; alloc_set_fill(0, 0); set_step_cap(1000000000ULL); std::cout.rdbuf(0); std::string s; { RealScope q; s = run_job(jobs[i], job_fault(jobs[i]), jobs[i].gi("v") != 0, 1); } result("out", s); });
        o.absorb(r); total += r.counters["sim.steps"]; if (!o.error.empty() || !o.vcls.empty()) return o; alone.push_back(r.results["out"]);
    }
    ChildResult r = run_child([&]() {
        HarnessScope h; alloc_set_fill(2, c.gx("fill", 1)); static SimBuf sink; std::cout.rdbuf(&sink); std::vector<std::string> got(jobs.size());
        std::vector<std::function<void()> > fns;
        for (int t = 0; t < T; t++) fns.push_back([&, t]() { for (size_t i = 0; i < jobs.size(); i++) if ((int)jobs[i].gi("th") % T == t) { std::string s = run_job(jobs[i], job_fault(jobs[i]), jobs[i].gi("v") != 0, 7 + i); HarnessScope q; got[i] = s; s = std::string(); } });
        SchedCfg sc = sched_cfg(p); sc.cap = 20 * total + 50000000; SchedOut so = run_tasks(fns, sc);
        for (size_t i = 0; i < jobs.size(); i++) { result(strf("out%zu", i), got[i]); describe(strf(" t%d:", (int)jobs[i].gi("th") % T) + jobs[i].gs("type") + (jobs[i].has("fk") ? "!" : "")); }
        count("context_switches", so.switches); count("switches_at_static_data", so.hot_hits); if (so.lock_waits) count("lock_waits", so.lock_waits); sig(so.trace_hash); describe(strf(" %" PRIu64 " switches", so.switches)); if (so.switches > 2) nontrivial();
    });
    o.absorb(r); if (!o.error.empty() || !o.vcls.empty()) return o;
    for (size_t i = 0; i < jobs.size(); i++) {
        std::string g = r.results[strf("out%zu", i)];
        o.counters["jobs_compared"]++; o.counters["job_" + jobs[i].gs("type")]++; if (!alone[i].empty() && alone[i].find('!') != std::string::npos) o.counters["failing_jobs"]++;
        if (g != alone[i] && o.vcls.empty()) { o.vcls = "isolation/" + jobs[i].gs("type"); o.vdetail = strf("job %zu (", i) + jobs[i].gs("type") + ") alone in a fresh process: " + alone[i].substr(0, 700) + "\nwith other threads at work:            " + g.substr(0, 700); }
    }
    return o;
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C01"; p.seed = seed; Rng r(seed); int T = (int)r.range(2, 4), n = T + (int)r.below(3);
    static const int64_t GAP[] = {3, 10, 30, 100, 300, 1000, 5000, 30000};
    p.add("cfg").i("threads", T).x("fill", r.next()).i("gap", GAP[r.below(8)]).i("hot", r.chance(0.4) ? (int64_t)r.range(1, 60) : 0);
    bool twins = r.chance(0.35); Item first; int64_t pf = r.chance(0.4) ? 1 : 0;
    static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_GENERATE, CB_GENERATE_BITS, CB_SETZERO, CB_SEED, CB_SETUP};
    for (int i = 0; i < n; i++) {
        Item j = gen_job(r, "job", thorough && r.chance(0.1) ? "mid" : "small");
        if (twins && i && r.chance(0.8)) { std::string ty = first.gs("type"); for (int k = 0; k < 60 && j.gs("type") != ty; k++) j = gen_job(r, "job", "small"); }   // the same kind of work in several threads
        if (!i) first = j;
        j.i("th", i < T ? i : (int64_t)r.below((uint64_t)T)); if (r.chance(0.2)) j.i("v", 1);
        if (pf && r.chance(0.4)) { int x = (int)r.below(3); if (x == 0) j.s("fk", "oom").i("fat", r.range(0, 200)); else if (x == 1) j.s("fk", "src").i("fat", r.range(0, 6)); else j.s("fk", "cb").i("fcb", CB[r.below(8)]).i("fat", r.range(0, 200)); }
        p.items.push_back(j);
    }
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C01"; p.rule = "A run spreads 2-6 jobs (searches, reducible searches, tempering, combined searches, equidistribution, projection, parity, linearity, period tests, random sources, TinyMT and RMT64 generators) over 2-4 real threads of one process; a seeded scheduler decides at every basic block and memory access of the instrumented library, headers and samples which thread runs next; some jobs fail in an allocation, a draw or a generator operation. Each job's complete outcome is compared with the same job alone in a fresh process. Non-trivial: more than two context switches.";
    p.generate = gen; p.evaluate = eval; p.shrink_keys = {"fat"};
    p.real_components = {"all algorithm headers", "lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", "parameter sources", "samples tinymt32search.hpp, rmt64.hpp, MTGP32search.hpp, sfmtdc and dSFMTdc headers", "NTL (its calls are atomic steps)", "threads, static guards, mutexes"}; p.stub_components = {"thread scheduler", "generators (except TinyMT, RMT64, SFMT, dSFMT, MTGP)", "parameter source", "allocator"};
    p.quick_runs = 5000; p.thorough_runs = 100000;
    for (auto& t : JOB_TYPES) p.required.push_back("job_" + t);
    p.required.push_back("context_switches"); p.required.push_back("failing_jobs"); p.required.push_back("switches_at_static_data"); p.required.push_back("fault.alloc_failure"); p.required.push_back("fault.source_error");
    register_property(p);
} };
Reg reg;
}
