// C09: one job, failed at chosen allocations, generator operations and draws, then repeated.
#include "jobs.hpp"
#include <iostream>
using namespace sim;
namespace {
enum How { DONE, OOM, CBFAULT, DRY, OTHER };
const char* const HOW[] = {"completed", "std::bad_alloc", "the generator's or source's own exception", "SourceDry", "another exception"};
struct Res { How how = DONE; int id = 0; std::string out, what; };
bool g_verbose = false;
Res attempt(Job& j) {
    Res r; JobIO io; io.verbose = g_verbose; { HarnessScope h; j.out.clear(); }
    try { j.op(io); }
    catch (const SimFault& x) { r.how = CBFAULT; r.id = x.id; } catch (const SourceDry&) { r.how = DRY; } catch (const std::bad_alloc&) { r.how = OOM; }
    catch (const std::exception& x) { HarnessScope h; r.how = OTHER; r.what = x.what(); } catch (...) { r.how = OTHER; }
    alloc_off(); HarnessScope h; if (j.ctl()) j.ctl()->disarm(); if (j.source()) j.source()->fail_at = -1; r.out = j.out; return r;
}
std::string where(const std::string& fk, int cb) { return fk == "cb" ? strf("generator operation %s number ", CB_NAMES[cb]) : fk == "oom" ? "allocation " : "draw "; }
void body(const Plan& p) {
    HarnessScope h; if (p.of("job").empty()) return; Item ji = p.of("job")[0]; alloc_set_fill((int)p.cfg().gi("fillmode", 2), p.cfg().gx("fill", 1)); set_step_cap(1000000000ULL); static SimBuf sink; std::cout.rdbuf(&sink); g_verbose = ji.gi("v") != 0;
    std::unique_ptr<Job> j = make_job(ji); std::string T = ji.gs("type"); describe(" " + T);
    auto setup = [&]() { j->setup(); };
    uint64_t bound = 0;      // 20 times what the operation needs when nothing fails
    auto run = [&]() { Res r; if (bound) set_step_cap(bound); { RealScope q; r = attempt(*j); } return r; };
    // what the operation does when nothing fails
    setup(); uint64_t st0 = steps(); Res ref = run(); bound = 20 * (steps() - st0) + 20000000; if (ref.how != DONE) violation("failure/clean-run", "with no fault injected " + T + " ended by " + HOW[ref.how] + " " + ref.what);
    setup(); std::string in0 = j->inputs(); int64_t live0 = j->ctl() ? j->ctl()->live : 0; int64_t c0[CB_NUM] = {0}, s0 = j->source() ? j->source()->served : 0; if (j->ctl()) for (int i = 0; i < CB_NUM; i++) c0[i] = j->ctl()->calls[i];
    uint64_t mark = alloc_mark(); alloc_fail_at(0); Res again; set_step_cap(bound); { RealScope q; again = attempt(*j); } uint64_t nalloc = alloc_seen(); int64_t nd = j->source() ? j->source()->served - s0 : 0, nc[CB_NUM] = {0}; if (j->ctl()) for (int i = 0; i < CB_NUM; i++) nc[i] = j->ctl()->calls[i] - c0[i];
    auto clean_after = [&](const std::string& when) {
        uint64_t n = alloc_live_since(mark); if (n) violation("failure/leak/" + T, strf("%" PRIu64 " memory blocks made by the operation are still allocated after it ", n) + when);
        if (j->ctl() && j->ctl()->live != live0) violation("failure/copies/" + T, strf("%" PRId64 " generator objects exist after the operation ", j->ctl()->live) + when + strf(", %" PRId64 " before it", live0));
        std::string in1 = j->inputs(); if (in1 != in0) violation("failure/inputs/" + T, "an object given only for reading is changed after the operation " + when + "\nbefore: " + in0.substr(0, 600) + "\nafter:  " + in1.substr(0, 600));
    };
    if (again.out != ref.out) violation("failure/repeat/" + T, "repeated with nothing failing: " + again.out.substr(0, 800) + "\nfirst time:                    " + ref.out.substr(0, 800));
    clean_after("succeeded"); count("clean_ops"); sig(hash_str(ref.out));
    for (auto& f : p.of("fault")) {
        std::string fk = f.gs("fk"); int cb = (int)f.gi("fcb");
        if (fk == "cb" && j->ctl()) for (int k = 0; k < CB_DRAW && !nc[cb]; k++) cb = (cb + 1) % CB_DRAW;      // an operation this job uses
        if ((fk == "cb" && (!j->ctl() || !nc[cb])) || (fk == "src" && !nd)) fk = "oom";
        uint64_t n = fk == "oom" ? nalloc : fk == "src" ? (uint64_t)nd : (uint64_t)nc[cb];
        if (!n) { count("faults_without_target"); continue; }
        int64_t at = 1 + (int64_t)(f.gx("fat") % n); bool fresh = !j->repeatable || f.gi("fresh"); if (fresh) setup();
        in0 = j->inputs(); live0 = j->ctl() ? j->ctl()->live : 0; mark = alloc_mark();
        if (fk == "oom") alloc_fail_at(at, f.gi("every")); else if (fk == "src") { if (f.gi("dry")) j->source()->left = at - 1; else { j->source()->fail_at = j->source()->served + at; j->source()->fail_id = 31 + (int)at; } } else { j->ctl()->arm(cb, at, 17 + cb); }
        set_step_cap(bound); Res r; { RealScope q; r = attempt(*j); } bool fired = fk == "oom" ? alloc_fired() : fk == "src" ? true : j->ctl()->fired > 0; if (j->source()) j->source()->left = -1;
        std::string wh = strf("failed at %s%" PRId64 " of %" PRIu64, where(fk, cb).c_str(), at, n); log(strf("fault %s %d at %" PRId64 " -> %s", fk.c_str(), cb, at, HOW[r.how]));
        if (!fired) { count("faults_not_reached"); if (r.how != DONE || r.out != ref.out) violation("failure/repeat/" + T, "nothing failed, but the result differs: " + r.out.substr(0, 800) + "\nfirst time: " + ref.out.substr(0, 800)); clean_after("succeeded"); continue; }
        How want = fk == "oom" ? OOM : fk == "src" ? (f.gi("dry") ? DRY : CBFAULT) : CBFAULT; int wid = fk == "src" ? 31 + (int)at : 17 + cb;
        if (r.how == DONE) violation("failure/swallowed/" + T, "the operation " + wh + " but returned normally, with " + r.out.substr(0, 800));
        if (r.how != want || (want == CBFAULT && r.id != wid)) violation("failure/exception/" + T, "the operation " + wh + ", expected " + HOW[want] + ", got " + HOW[r.how] + " " + r.what);
        clean_after(wh); count("faults_contained"); count("contained_" + T); nontrivial();
        if (fresh) setup(); mark = alloc_mark(); live0 = j->ctl() ? j->ctl()->live : 0; in0 = j->inputs();
        Res t = run(); if (t.how != DONE || t.out != ref.out) violation("failure/retry/" + T, "after it " + wh + " the repeated operation gives (" + HOW[t.how] + ") " + t.out.substr(0, 800) + "\nwith nothing failing: " + ref.out.substr(0, 800));
        clean_after("was repeated"); count("retries_equal");
    }
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C09"; p.seed = seed; Rng r(seed); p.add("cfg").x("fill", r.next()).i("fillmode", r.below(3));
    p.items.push_back(gen_job(r, "job", r.chance(thorough ? 0.3 : 0.12) ? "mid" : "small")); if (r.chance(0.25)) p.items.back().i("v", 1);
    int n = (int)r.range(2, 8);
    for (int i = 0; i < n; i++) {
        Item& f = p.add("fault"); int x = (int)r.below(10);
        if (x < 5) { f.s("fk", "oom"); if (r.chance(0.2)) f.i("every", 1); } else if (x < 6) { f.s("fk", "src"); if (r.chance(0.5)) f.i("dry", 1); }
        else f.s("fk", "cb").i("fcb", (int64_t)r.below(CB_DRAW));
        f.x("fat", r.chance(0.5) ? r.below(40) : r.next() >> 16).i("fresh", (int64_t)r.below(2));
    }
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C09"; p.rule = "A run takes one job (as in C01), runs it twice with nothing failing, counts its allocations, generator operations and draws, then fails it at 2-8 seeded ones of these, checks what reaches the caller, what is left allocated or copied and what it was given for reading, and repeats it. Non-trivial: at least one fault struck.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"fat", "fresh"};
    p.real_components = {"all algorithm headers", "lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", "parameter sources", "samples tinymt32search.hpp, rmt64.hpp, MTGP32search.hpp, sfmtdc and dSFMTdc headers", "NTL"}; p.stub_components = {"generators (except TinyMT, RMT64, SFMT, dSFMT, MTGP)", "parameter source", "allocator"};
    p.quick_runs = 15000; p.thorough_runs = 300000; p.assumptions = {"NTL allocates with malloc or non-throwing new and aborts when that fails: its own allocations are not fault points"};
    for (auto& t : JOB_TYPES) p.required.push_back("contained_" + t);
    for (auto& c : {"fault.alloc_failure", "fault.source_error", "fault.source_exhausted", "fault.callback_clone", "fault.callback_copy", "fault.callback_generate", "fault.callback_add", "fault.callback_setUpParam", "retries_equal"}) p.required.push_back(c);
    register_property(p);
} };
Reg reg;
}
