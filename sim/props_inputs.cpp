// C10: one job in differently disturbed processes.
#include "jobs.hpp"
#include <iostream>
#include <iomanip>
#include <locale>
#include <stdlib.h>
using namespace sim;
namespace {
struct Grouped : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\2"; } char do_decimal_point() const override { return ','; } };
void format_state(std::ostream& os, uint64_t k) {
    Rng r(k); static const std::ios_base::fmtflags F[] = {std::ios::hex, std::ios::oct, std::ios::dec}; os.setf(F[r.below(3)], std::ios::basefield);
    if (r.chance(0.5)) os << std::showbase << std::uppercase << std::showpos; if (r.chance(0.5)) os << std::setfill('*') << std::left; if (r.chance(0.3)) os << std::boolalpha << std::scientific << std::setprecision(1);
    if (r.chance(0.3)) os.width((std::streamsize)r.range(1, 30));
}
Outcome eval(const Plan& p) {
    Outcome o; if (p.of("job").empty()) return o; Item ji = p.of("job")[0]; std::vector<Item> envs = p.of("env"), pres = p.of("pre"); std::string ref, refwhat; uint64_t bound = 1000000000;
    for (size_t k = 0; k < envs.size(); k++) {
        Item e = envs[k];
        ChildResult r = run_child([&]() {
            HarnessScope h; alloc_set_fill((int)e.gi("fillmode"), e.gx("fill")); set_step_cap(bound); clock_setup((int)e.gi("clock"), e.gx("cseed", 1)); static SimBuf sink, osb; static std::ostream os(&osb);
            if (e.gi("sink")) std::cout.rdbuf(&sink); else std::cout.rdbuf(0);
            if (e.has("fmt")) { format_state(std::cout, e.gx("fmt")); format_state(os, e.gx("fmt") + 1); format_state(std::cerr, e.gx("fmt") + 2); count("fault.stream_format"); }
            if (e.gi("locale")) { std::locale::global(std::locale(std::locale::classic(), new Grouped)); std::cout.imbue(std::locale()); os.imbue(std::locale()); count("fault.locale_grouping"); }
            if (e.has("frag")) { Rng q(e.gx("frag")); std::vector<void*> v; for (int i = 0; i < 300; i++) v.push_back(malloc(16 + q.below(q.chance(0.1) ? 20000 : 600))); for (auto& x : v) if (q.chance(0.5)) { free(x); x = 0; } count("fault.heap_layout"); }
            for (auto& q : pres) if (q.gi("env") == (int64_t)k) { std::string s; { RealScope z; s = run_job(q, job_fault(q), q.gi("v") != 0, e.gx("stack") + 3, &os); } count(s.find('!') != std::string::npos ? "failed_operations_before" : "operations_before"); }
            std::string s; { RealScope z; s = run_job(ji, JobFault(), e.gi("v") != 0, e.gx("stack"), &os); } result("out", s); if (e.gi("fillmode")) count("fault.memory_garbage"); if (e.gi("v")) count("verbose_runs"); sig(hash_str(s) + k);
        });
        o.absorb(r); if (!o.error.empty() || !o.vcls.empty()) return o;
        std::string g = r.results["out"]; if (!k) { ref = g; bound = 20 * r.counters["sim.steps"] + 400000000; o.desc = " " + ji.gs("type"); o.counters["job_" + ji.gs("type")]++; continue; }
        o.counters["outcomes_compared"]++; o.nontriv = true; o.desc += " |" + e.text().substr(3);
        if (g != ref) { o.vcls = "inputs/" + ji.gs("type"); o.vdetail = "the same job gives, in a process with\n  " + envs[0].text() + "\n" + ref.substr(0, 900) + "\nand with\n  " + e.text() + "\n" + g.substr(0, 900); return o; }
    }
    return o;
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C10"; p.seed = seed; Rng r(seed);
    Item j = gen_job(r, "job", r.chance(thorough ? 0.5 : 0.15) ? "mid" : thorough && r.chance(0.1) ? "big" : "small"); std::string ty = j.gs("type"); p.items.push_back(j);
    static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_GENERATE, CB_GENERATE_BITS, CB_SETZERO, CB_SEED, CB_SETUP, CB_SETPARITY, CB_TEMPER};
    int n = (int)r.range(2, 4); bool text = ty == "tiny" || ty == "rmt" || ty == "sfmt" || ty == "dsfmt" || ty == "mtgp";      // their result includes formatted text
    for (int k = 0; k < n; k++) {
        Item& e = p.add("env"); e.i("fillmode", k ? r.range(0, 2) : 0).x("fill", k ? r.next() : 0).x("stack", k ? r.next() : 0);
        if (k) {
            e.i("clock", r.range(0, 3)).x("cseed", r.next()).i("sink", (int64_t)r.below(2)).i("v", (int64_t)r.below(2));
            if (r.chance(0.5)) e.x("fmt", r.next()); if (r.chance(0.25) && !text) e.i("locale", 1); if (r.chance(0.5)) e.x("frag", r.next());
            int np = r.chance(0.6) ? (int)r.range(1, 3) : 0;
            for (int i = 0; i < np; i++) {
                Item q = gen_job(r, "pre", "small"); for (int t = 0; t < 60 && r.chance(0.97) && q.gs("type") != ty && i == 0; t++) q = gen_job(r, "pre", "small");   // often the same kind of work
                q.i("env", k).i("v", (int64_t)r.below(2)); if (r.chance(0.5)) { int x = (int)r.below(3); if (x == 0) q.s("fk", "oom").i("fat", r.range(0, 300)); else if (x == 1) q.s("fk", "src").i("fat", r.range(0, 6)); else q.s("fk", "cb").i("fcb", CB[r.below(10)]).i("fat", r.range(0, 200)); }
                p.items.push_back(q);
            }
        }
    }
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C10"; p.rule = "A run executes one job (as in C01) in 2-4 fresh processes that differ in what new memory and the stack contain, the clock, heap layout, stream and locale formatting state, verbosity, and which other jobs (successful or failing) ran before, and compares the complete outcomes. Non-trivial: at least two outcomes compared.";
    p.generate = gen; p.evaluate = eval; p.shrink_keys = {"fat", "v", "sink", "locale", "clock", "fillmode"};
    p.real_components = {"all algorithm headers", "lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", "parameter sources", "samples tinymt32search.hpp, rmt64.hpp, MTGP32search.hpp, sfmtdc and dSFMTdc headers", "NTL", "iostreams and locales"}; p.stub_components = {"generators (except TinyMT, RMT64, SFMT, dSFMT, MTGP)", "parameter source", "allocator contents", "clocks", "stream buffers"};
    p.quick_runs = 15000; p.thorough_runs = 300000; p.assumptions = {"memory NTL takes directly from malloc is disturbed through M_PERTURB"};
    for (auto& t : JOB_TYPES) p.required.push_back("job_" + t);
    for (auto& c : {"outcomes_compared", "fault.memory_garbage", "fault.stream_format", "fault.locale_grouping", "fault.heap_layout", "failed_operations_before", "operations_before", "verbose_runs"}) p.required.push_back(c);
    register_property(p);
} };
Reg reg;
}
