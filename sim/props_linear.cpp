// C13: the linearity test against generators that break linearity once.
#include "env.hpp"
#include <MTToolBox/TestLinearity.hpp>
using namespace sim;
namespace {
template <class U, class G> void go(const Plan& p, bool red) {
    HarnessScope hs;
    Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); set_step_cap(200000000ULL);
    std::vector<Item> gi = p.of("gen"); SIM_REQUIRE(!gi.empty());
    std::shared_ptr<Env> e = red ? make_red_env(gi[0], sizeof(U) * 8) : make_lin_env(gi[0], sizeof(U) * 8);
    std::unique_ptr<G> g; { HarnessScope h; g.reset(new G(e->cfg, &e->ctl, &e->clog)); }
    MTToolBox::TestLinearity<U> test;
    describe(strf(" n=%d", e->cfg.n)); int64_t clean_outs[16] = {0}; int64_t adds_clean = 0; uint64_t cor = 0, clean = 0;
    for (auto& it : p.items) {
        if (it.kind == "set") {       // the state, parameters and mode the caller leaves its generator in
            HarnessScope h; Rng r(it.gx("v", 1)); g->choose(r.next()); g->seed_state((U)r.next()); if (it.gi("zero", 0)) g->setZero();
            for (int i = 0; i < 4; i++) g->set_tb(i, it.gi("temper", 0) ? (U)r.next() : 0);
            int k = (int)it.gi("k", 0); for (int i = 0; i < k; i++) g->step_state(); g->reverse = it.gi("rev", 0) != 0; g->parity = (U)r.next();
            continue;
        }
        if (it.kind != "test") continue;
        std::string mode = it.gs("mode", "clean"); CbCtl& k = e->ctl; std::string before = g->snapshot(); int64_t live0 = k.live; uint64_t mark = alloc_mark();
        int64_t created0 = k.created, adds0 = k.adds; memset(k.obj_outs, 0, sizeof k.obj_outs);
        // renumber: the copies made by this call are 2, 3, ...
        k.created = 1; (void)created0; k.corrupt_at = k.corrupt_add_at = -1; k.corrupted = 0;
        bool expect_fail = false; std::string what = "clean";
        if (mode == "out") {
            // which copies produce outputs, and how many, is measured on a clean call
            HarnessScope h; std::vector<int> who; for (int i = 2; i < 16; i++) if (clean_outs[i] > 0) who.push_back(i);
            if (who.empty()) { k.created = created0; continue; }
            k.corrupt_obj = who[(size_t)it.gi("c") % who.size()]; k.corrupt_at = 1 + it.gi("at") % 100; k.corrupt_bit = it.gi("bit");
            what = strf("bit %d of output %d of copy %d", (int)(k.corrupt_bit % G::W), (int)k.corrupt_at, (int)k.corrupt_obj - 1);
        } else if (mode == "add") {
            if (!adds_clean) { k.created = created0; continue; }
            k.corrupt_add_at = adds0 + 1 + it.gi("c") % adds_clean; k.corrupt_add_bit = it.gi("bit");
            what = strf("state bit %d of sum %d", (int)(k.corrupt_add_bit % e->cfg.n), (int)(k.corrupt_add_at - adds0));
        }
        bool r; mark = alloc_mark(); { RealScope rs; r = test(*g); } bool leaked = alloc_live_since(mark) != 0;
        k.created = created0;
        if (mode == "clean") { memcpy(clean_outs, k.obj_outs, sizeof clean_outs); adds_clean = k.adds - adds0; }
        else if (k.corrupted) {
            if (mode == "out") expect_fail = true;
            else {   // does the flipped state bit show in the outputs that follow?
                HarnessScope h; G* q = g->peek(); memset(q->st, 0, sizeof q->st); int b = (int)(k.corrupt_add_bit % e->cfg.n); q->st[b >> 6] = UINT64_C(1) << (b & 63);
                for (int i = 0; i < 100; i++) { q->step_state(); if (q->map_out()) expect_fail = true; }
                delete q;
            }
        } else if (mode == "out") { expect_fail = true; what += " (never taken)"; }
        k.corrupt_at = k.corrupt_add_at = -1;
        log(strf("test %s -> %d", what.c_str(), r)); describe(" " + what + (r ? "=pass" : "=fail"));
        if (mode == "clean" && !r) violation("linearity/false-alarm", "the test rejected a linear generator");
        if (expect_fail && r) violation("linearity/missed", "the test accepted a generator with " + what + " corrupted");
        if (g->snapshot() != before) violation("linearity/changed-generator", "the caller's generator was changed by the test");
        if (k.live != live0) violation("linearity/leak", strf("%d copies were not released", (int)(k.live - live0)));
        if (leaked) violation("linearity/leak", "memory blocks were not released");
        sig(mix(hash_str(what), (uint64_t)r)); if (expect_fail) { cor++; count(mode == "out" ? "fault.corrupted_output" : "fault.corrupted_sum"); } else clean++;
    }
    count("corrupted_calls", cor); count("clean_calls", clean);
    if (cor && clean) nontrivial();
}
void body(const Plan& p) {
    Item c = p.cfg(); bool w64 = c.gi("w") == 64;
    if (c.gs("kind") == "red") { if (w64) go<uint64_t, RedGen<uint64_t> >(p, true); else go<uint32_t, RedGen<uint32_t> >(p, true); }
    else { if (w64) go<uint64_t, LinGen<uint64_t> >(p, false); else go<uint32_t, LinGen<uint32_t> >(p, false); }
}
Plan gen(uint64_t seed, bool) {
    Plan p; p.prop = "C13"; p.seed = seed; Rng r(seed); int w = r.chance(0.5) ? 32 : 64; bool red = r.chance(0.5);
    p.add("cfg").s("kind", red ? "red" : "lin").i("w", w).x("fill", r.next());
    Item g = red ? gen_red_item(r, "gen", 127, w, false) : gen_lin_item(r, "gen", 192, false, false); p.items.push_back(g);
    int sets = (int)r.range(1, 3);
    for (int s = 0; s < sets; s++) {
        if (s || r.chance(0.8)) p.add("set").x("v", r.next()).i("zero", r.chance(0.1)).i("temper", (int64_t)r.below(2)).i("k", r.range(0, 4)).i("rev", (int64_t)r.below(2));
        p.add("test").s("mode", "clean");
        int t = (int)r.range(1, 12);
        for (int i = 0; i < t; i++) {
            static const int A[] = {0, 1, 49, 50, 97, 98, 99}; static const int B[] = {0, 1, 15, 16, 31, 32, 62, 63};
            p.add("test").s("mode", r.chance(0.1) ? "clean" : r.chance(0.25) ? "add" : "out").i("c", (int64_t)r.below(4)).i("at", r.chance(0.4) ? A[r.below(7)] : (int64_t)r.below(100)).i("bit", r.chance(0.4) ? B[r.below(8)] : (int64_t)r.below(192));
        }
    }
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C13"; p.rule = "A run leaves a generator (linear or reducible, 32 or 64 bit, random parameters, tempering, state, output mode) in some state and calls the linearity test repeatedly: clean, or with one bit of one output of one copy flipped, or one state bit of one sum flipped. Non-trivial: at least one clean and one effectively corrupted call.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"at", "bit", "c", "k"};
    p.real_components = {"TestLinearity"}; p.stub_components = {"generator with one corrupted output or sum"};
    p.quick_runs = 100000; p.thorough_runs = 1500000; p.required = {"corrupted_calls", "clean_calls", "fault.corrupted_output", "fault.corrupted_sum"};
    register_property(p);
} } reg;
}
