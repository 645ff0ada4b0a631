// C08: combined recursion and tempering searches through histories of reuse, interruption, verbosity, clocks and streams.
#include "env.hpp"
#include <iostream>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
using namespace sim;
namespace {
template <class U> struct LinRT {
    typedef LinGen<U> Gen; typedef MTToolBox::AlgorithmRecursionAndTempering<U> RT; enum { red = 0 };
    static std::shared_ptr<Env> env(const Item& it) { return make_lin_env(it, (int)sizeof(U) * 8); }
    static RT* make(SimSource& s, const MTToolBox::AlgorithmPrimitivity* ap) { return ap ? new RT(s, *ap) : new RT(s); }
    static bool search(RT& rt, Gen& g, MTToolBox::AlgorithmTempering<U>& a, MTToolBox::AlgorithmTempering<U>* b, bool v, std::ostream& os, bool no_lsb, bool five) {
        if (five && no_lsb) return rt.search(g, a, v, os);
        return rt.search(g, a, b ? *b : a, v, os, no_lsb);
    }
    static std::string report(RT& rt) { return strf("delta %d weight %d poly ", rt.getDelta(), rt.getWeight()) + poly_str(rt.getCharacteristicPolynomial()); }
};
template <class U> struct RedRT {
    typedef RedGen<U> Gen; typedef MTToolBox::AlgorithmReducibleRecursionAndTempering<U, Gen> RT; enum { red = 1 };
    static std::shared_ptr<Env> env(const Item& it) { return make_red_env(it, (int)sizeof(U) * 8); }
    static RT* make(SimSource& s, const MTToolBox::AlgorithmPrimitivity*) { return new RT(s); }
    static bool search(RT& rt, Gen& g, MTToolBox::AlgorithmTempering<U>& a, MTToolBox::AlgorithmTempering<U>* b, bool v, std::ostream& os, bool no_lsb, bool) { return rt.search(g, a, b ? *b : a, v, os, no_lsb); }
    static std::string report(RT& rt) { return strf("delta %d parity %" PRIx64 " poly ", rt.getDelta(), (uint64_t)rt.getParity()) + poly_str(rt.getIrreducibleFactor()); }
};
// a caller's own tempering algorithm that touches neither the tempering nor the output mode
template <class U> struct Keep : MTToolBox::AlgorithmTempering<U> {
    bool l; Keep(bool lsb) : l(lsb) {}
    int operator()(MTToolBox::TemperingCalculatable<U>& g, bool) override { g.setUpTempering(); return 0; }
    bool isLSBTempering() const override { return l; }
};
template <class U> struct Algs {
    enum { W = sizeof(U) * 8 };
    std::unique_ptr<MTToolBox::AlgorithmTempering<U> > msb, lsb; bool best;
    Algs(int variant) {
        static const int sh[2] = {7, 11}; best = false;
        switch (variant % 6) {
        case 4: msb.reset(new Keep<U>(false)); lsb.reset(new Keep<U>(true)); break;
        case 5: msb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 1, 4, 2>()); lsb.reset(new Keep<U>(true)); break;
        case 0: msb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 1, 4, 2>()); lsb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 1, 4, 2, true>()); break;
        case 1: msb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 2, 3, 1>()); lsb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 2, 2, 2, true>()); break;
        case 2: msb.reset(new MTToolBox::AlgorithmBestBits<U>(W, sh, 2, 2)); lsb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 1, 3, 3, true>()); best = true; break;
        default: msb.reset(new MTToolBox::AlgorithmBestBits<U>(W, sh, 1, 4)); lsb.reset(new MTToolBox::AlgorithmPartialBitPattern<U, W, 1, 5, 5, true>()); best = true; break;
        }
    }
};
template <class K, class U> void go(const Plan& p) {
    typedef typename K::Gen Gen; typedef typename K::RT RT; enum { W = sizeof(U) * 8 };
    HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); poison_stack(c.gx("fill", 1));
    struct G { std::shared_ptr<Env> e; std::unique_ptr<Gen> g; };
    std::vector<Item> gi = p.of("gen"); SIM_REQUIRE(!gi.empty()); std::vector<G> gs(gi.size());
    for (size_t i = 0; i < gs.size(); i++) { gs[i].e = K::env(gi[i]); gs[i].e->cfg.latched = gi[i].gi("latched") != 0; gs[i].g.reset(new Gen(gs[i].e->cfg, &gs[i].e->ctl, &gs[i].e->clog)); }
    // one parameter source, shared by every search object of this run
    SimSource src((int)gi[0].gi("src", 0), gi[0].gx("ss", 1));
    std::unique_ptr<MTToolBox::AlgorithmPrimitivity> ap; if (!K::red && !gs[0].e->mersenne) { for (auto& x : gs) SIM_REQUIRE(x.e->cfg.n == gs[0].e->cfg.n); ap.reset(new MTToolBox::AlgorithmPrimitivity(&gs[0].e->clist[0])); }
    std::map<int, std::unique_ptr<RT> > rts; std::map<int, int> used; std::map<int, std::unique_ptr<Algs<U> > > algs;
    describe(strf(" %s n=%d W=%d", K::red ? "reducible" : "lin", gs[0].e->cfg.n, (int)W)); uint64_t done = 0, failed = 0, reused = 0; Item fault; bool have_fault = false;
    // a combined search runs until it succeeds: only start it when some candidate of the pool qualifies on output bit 0
    auto good = [&](G& x, const ref::Poly& p) {
        std::unique_ptr<Gen> q(x.g->peek()); q->set_poly(p); ref::Poly mp = output_minpoly(*q, 0, x.e->cfg.n); int many = 0;
        if (K::red) { ref::factor_of_degree(mp, x.e->cfg.mexp, &many); return many != 0; }
        return is_maximal(mp, x.e->cfg.n);
    };
    auto acceptable = [&](G& x) {
        for (auto& cd : x.e->cfg.pool->c) if (good(x, cd.p)) return true;
        return false;
    };
    SimBuf coutbuf; std::streambuf* old = std::cout.rdbuf(&coutbuf);
    for (auto& it : p.items) {
        if (it.kind == "fault") { fault = it; have_fault = true; continue; }
        G& x = gs[(size_t)it.gi("g") % gs.size()]; Env& e = *x.e;
        if (it.kind == "mess") {
            std::string w = it.gs("what"); uint64_t v = it.gx("v", 1);
            if (w == "run") { RealScope r; for (uint64_t i = 0; i < v % 50; i++) x.g->generate(); }
            else if (w == "reseed") { RealScope r; x.g->seed((U)v); }
            else if (w == "zero") { RealScope r; x.g->setZero(); }
            else if (w == "retemper") { Rng r(v); for (int i = 0; i < 4; i++) x.g->set_tb(i, r.chance(0.3) ? 0 : (U)r.next()); }
            else if (w == "reverse") { RealScope r; if (x.g->isReverseOutput()) x.g->resetReverseOutput(); else x.g->setReverseOutput(); }
            count("caller_" + w); log("mess " + w); continue;
        }
        if (it.kind == "newrt") { rts.erase((int)it.gi("k")); used.erase((int)it.gi("k")); continue; }
        if (it.kind != "search") continue;
        int k = (int)it.gi("k"), av = (int)it.gi("alg"); bool dry = false, verbose = it.gi("v") != 0, no_lsb = it.gi("nolsb") != 0, five = it.gi("five") != 0;
        set_step_cap(e.cfg.n > 64 ? 6000000000ULL : 1500000000ULL);
        if (!rts[k]) { poison_stack(it.gx("x", 5)); RealScope r; rts[k].reset(K::make(src, ap.get())); used[k] = 0; }
        if (!algs[av]) { RealScope r; algs[av].reset(new Algs<U>(av)); }
        if (av % 6 >= 4) x.g->reverse = false;      // nothing here would set the output mode
        memcpy(x.g->lt, x.g->tb, sizeof x.g->tb);
        if (!acceptable(x)) { for (int i = 0; i < 4; i++) x.g->set_tb(i, 0); if (!acceptable(x)) { count("no_acceptable_candidate"); continue; } }
        if (it.has("drt") && e.cfg.n <= 12 && e.cfg.draws == 1) {      // a long run of candidates that do not qualify
            const auto& cs = e.cfg.pool->c; size_t bad = 0; while (bad < cs.size() && good(x, cs[bad].p)) bad++;
            int64_t len = it.gi("drt") * 1000 * e.cfg.n + it.gi("dd");
            if (bad < cs.size() && len > 0) { src.mode_ = SimSource::SCRIPT; src.pos = 0; src.script.assign((size_t)len, bad + cs.size() * (it.gx("x", 5) % 1000)); dry = true; count("droughts"); }
        }
        // baseline: a copy of the source, an equal generator in its initial state, new objects, nothing written, steady clock
        std::string base; uint64_t base_served;
        {
            SimSource s2(src); s2.tokens.clear(); CbCtl saved = e.ctl; std::unique_ptr<Gen> b(x.g->peek()); b->seed_state(1); b->reverse = false; clock_setup(0, 1); std::ostream nul((std::streambuf*)0); uint64_t st0 = steps();
            RealScope r; { std::unique_ptr<RT> rt(K::make(s2, ap.get())); Algs<U> a(av); K::search(*rt, *b, *a.msb, a.lsb.get(), false, nul, no_lsb, five); HarnessScope h; base = K::report(*rt) + " | " + b->param_text(); if (K::red) base += strf(" parity %" PRIx64, (uint64_t)b->parity); }
            HarnessScope h; set_step_cap(20 * (steps() - st0) + 40000000); base_served = (uint64_t)(s2.served - src.served); b.reset(); saved.live = e.ctl.live; e.ctl = saved;
        }
        U lt0[4]; memcpy(lt0, x.g->lt, sizeof lt0);
        SimBuf sb, cb; std::ostream os(&sb); int sf = (int)it.gi("sf"); int64_t sa = it.gi("sa");
        for (SimBuf* b : {&sb, &cb}) { if (sf == 1) b->fail_at = 1 + sa % 60; else if (sf == 2) b->limit = sa; else if (sf == 3) b->throw_at = 1 + sa % 60; else if (sf == 4) b->chunk = 1 + sa % 5; }
        if (sf == 5) { os.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); }
        bool exc = sf == 6; if (exc) { sb.fail_at = 1 + sa % 60; os.exceptions(std::ios::badbit); }
        if (it.gi("fmt")) { os.flags(std::ios::hex | std::ios::left | std::ios::showbase); os.fill('*'); }
        std::cout.rdbuf(&cb); if (sf == 5) std::cout.setstate(std::ios::failbit);
        clock_setup((int)it.gi("clk"), it.gx("x", 5)); uint64_t served0 = (uint64_t)src.served; size_t c0 = e.clog.size();
        bool ok = true, ret = false; std::string why; poison_stack(it.gx("x", 5) + 1); src.fail_at = -1;
        if (have_fault) {
            have_fault = false; std::string fk = fault.gs("kind");
            if (fk == "oom") alloc_fail_at(1 + fault.gi("at")); else if (fk == "src") { src.fail_at = src.served + 1 + fault.gi("at"); src.fail_id = 9; } else e.ctl.arm((int)fault.gi("cb"), 1 + fault.gi("at"), 6);
        }
        std::ostream& use = it.gi("os") ? os : std::cout;
        try { RealScope r; ret = K::search(*rts[k], *x.g, *algs[av]->msb, algs[av]->lsb.get(), verbose, use, no_lsb, five); }
        catch (const SimFault&) { ok = false; why = "fault"; } catch (const std::bad_alloc&) { ok = false; why = "bad_alloc"; } catch (const std::ios_base::failure&) { ok = false; why = "stream"; SIM_REQUIRE(exc); }
        catch (const char* s) { if (!x.g->poly().get(0)) { src.fail_at = -1; e.ctl.disarm(); alloc_off(); std::cout.clear(); std::cout.rdbuf(old); count("not_invertible"); return; } violation("rt/gave-up", std::string("the search failed: ") + s); }
        e.ctl.disarm(); alloc_off(); src.fail_at = -1; std::cout.clear(); std::cout.rdbuf(&coutbuf); std::cout.flags(std::ios::dec | std::ios::skipws); std::cout.fill(' ');
        if (clock_calls()) count("clock_reads", clock_calls());
        log(strf("search g%d k%d v%d ", (int)it.gi("g"), k, verbose) + (ok ? "" : why)); describe(strf(" search%d.%d%s%s", k, av % 6, verbose ? "v" : "", ok ? "" : "!"));
        if (!ok) { failed++; used[k]++; count("interrupted_searches"); if (e.clog.size() > c0 && e.clog.back().index >= 0) count("interrupted_after_acceptance_or_later"); continue; }
        RT& rt = *rts[k]; done++; if (used[k]++) reused++; if (verbose) count("verbose_searches");
        if (!ret) violation("rt/false", "an uninterrupted search returned false");
        std::string rep = K::report(rt), left = x.g->param_text(); if (K::red) left += strf(" parity %" PRIx64, (uint64_t)x.g->parity);
        log(rep + " | " + left); int n = e.cfg.n; ref::Poly rp = x.g->poly();
        if (x.g->reverse) violation("rt/output-mode", "the generator is left in reversed output mode");
        if (memcmp(x.g->lt, x.g->tb, sizeof x.g->tb) != 0) violation("rt/stale-tables", "the generator's output does not use the tempering parameters it carries");
        // the report against the generator as it is left
        ref::Poly want = rp;
        if (!K::red) { if (!is_maximal(rp, n)) violation("rt/period", "the generator is left with a recursion that has not the maximal period: " + rp.str()); }
        else { int many = 0; want = ref::factor_of_degree(rp, e.cfg.mexp, &many); if (want.zero() || rp.deg() > n) violation("rt/period", "the generator is left with a recursion without the wanted factor: " + rp.str()); }
        std::vector<int> kv = ref_kv(*x.g, n, false, W); int d = defect(kv, n, W);
        std::string rep2;
        if (!K::red) { int w = 0; for (int i = 0; i <= want.deg(); i++) w += want.get(i); rep2 = strf("delta %d weight %d poly ", d, w) + want.str(); }
        else rep2 = strf("delta %d parity %" PRIx64 " poly ", d, (uint64_t)x.g->parity) + want.str();
        if (rep != rep2) violation("rt/report", strf("n=%d: reported  ", n) + rep + "\nrecomputed from the generator as it is left: " + rep2);
        if (K::red && rp.get(0)) {      // (parity is defined for invertible transitions)
            if (!x.g->parity) violation("rt/parity", "the parity left in the generator is zero");
            for (int i = 0; i < n; i++) { ref::Poly s; s.set(i); ref::Poly t = ref::mulmod(s, want, rp); uint64_t wd = t.w.empty() ? 0 : t.w[0]; if (__builtin_popcountll((uint64_t)(U)wd & (uint64_t)x.g->parity) & 1) violation("rt/parity", strf("parity %" PRIx64 " is odd on a state outside the long-period component", (uint64_t)x.g->parity)); }
        }
        if (K::red && rp.get(0)) {      // the state left has no visible short-period part in any output bit, with the tempering the search started from (another may show parts that one hides)
            std::unique_ptr<Gen> q(x.g->peek()); memcpy(q->lt, lt0, sizeof lt0); int fd = want.deg(); std::vector<U> y; for (int t = 0; t < n + fd + 1; t++) y.push_back(q->raw_generate());
            for (int t = 0; t <= n; t++) { U z = 0; for (int i = 0; i <= fd; i++) if (want.get(i)) z ^= y[(size_t)(t + i)]; if (z) { violation("rt/short-component", strf("n=%d: the generator is left in a state whose output (bits %" PRIx64 ") does not follow the reported factor", n, (uint64_t)z)); break; } }
            if (rp.deg() > fd) count("left_in_long_component");
        }
        if (rep + " | " + left != base) violation("rt/history-dependent", strf("n=%d: got  ", n) + rep + " | " + left + "\nwith new objects, an equal generator and nothing disturbed: " + base);
        if ((uint64_t)src.served - served0 != base_served) violation("rt/history-dependent", strf("%" PRIu64 " draws from the parameter source, %" PRIu64 " with new objects and nothing disturbed", (uint64_t)src.served - served0, base_served));
        if (!no_lsb) count("lsb_then_msb"); if (sf) count("searches_under_stream_faults"); if (algs[av]->best) count("best_bits_used"); if (av % 6 >= 4) count("no_op_tempering_used");
        sig(mix(hash_str(rep), (uint64_t)d));
    }
    std::cout.rdbuf(old); rts.clear(); algs.clear(); for (auto& x : gs) x.g.reset();
    count("sim.clock_seconds", clock_span()); count("searches", done); count("reused_search_objects", reused); if (done && (reused || failed)) nontrivial();
}
void body(const Plan& p) {
    Item c = p.cfg(); bool w64 = c.gi("w") == 64;
    if (c.gs("kind") == "red") { if (w64) go<RedRT<uint64_t>, uint64_t>(p); else go<RedRT<uint32_t>, uint32_t>(p); } else { if (w64) go<LinRT<uint64_t>, uint64_t>(p); else go<LinRT<uint32_t>, uint32_t>(p); }
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C08"; p.seed = seed; Rng r(seed); int w = r.chance(0.5) ? 32 : 64; bool red = r.chance(0.5);
    p.add("cfg").s("kind", red ? "red" : "lin").i("w", w).x("fill", r.next());
    int G = r.chance(0.4) ? 2 : 1, maxn = r.chance(0.85) ? 31 : thorough ? 127 : 61; bool mex = G > 1 || r.chance(0.6), drought = r.chance(0.05); if (drought) maxn = 7;
    for (int i = 0; i < G; i++) { Item g = red ? gen_red_item(r, "gen", maxn, w, true) : gen_lin_item(r, "gen", maxn, mex, true); g.i("latched", (int64_t)r.below(2)); if (red && r.chance(0.25)) g.i("comp", 1); if (drought) for (auto& kv : g.kv) if (kv.first == "draws") kv.second = "1"; p.items.push_back(g); }
    static const char* M[] = {"run", "reseed", "zero", "retemper", "reverse"}; static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_GENERATE, CB_GENERATE_BITS, CB_SETZERO, CB_TEMPER, CB_SETUPTEMPER, CB_REVERSE, CB_SETUP, CB_SEED, CB_SETPARITY, CB_ONEBIT};
    int ops = (int)r.range(2, 7); double pf = r.chance(0.3) ? 0 : 0.4, pv = r.chance(0.3) ? 0 : 0.6;
    auto add_search = [&](int g) {
        Item& s = p.add("search"); s.i("g", g).i("k", (int64_t)r.below(2)).i("alg", (int64_t)r.below(6)).i("nolsb", (int64_t)r.below(2)).i("five", (int64_t)r.below(2)).i("os", (int64_t)r.below(3) != 0).i("clk", (int64_t)r.below(4));
        if (r.chance(pv)) s.i("v", 1); if (r.chance(0.5)) s.i("sf", r.range(1, 6)).i("sa", r.range(0, 400)); if (r.chance(0.3)) s.i("fmt", 1); s.x("x", r.next()); if (drought && r.chance(0.6)) s.i("drt", r.range(1, 2)).i("dd", r.chance(0.3) ? r.range(-3000, 3000) : r.range(-2, 2));
    };
    for (int o = 0; o < ops; o++) {
        int x = (int)r.below(100);
        if (x < 35) p.add("mess").i("g", (int64_t)r.below((uint64_t)G)).s("what", M[r.below(5)]).x("v", r.next());
        else if (x < 40) p.add("newrt").i("k", (int64_t)r.below(2));
        else {
            if (r.chance(pf)) { Item& f = p.add("fault"); int cb = CB[r.below(red ? 13 : 11)]; double z = r.chance(0.5) ? 1 : 0.2; if (r.chance(0.3)) f.s("kind", "oom").i("at", r.range(0, (int64_t)(1500 * z))); else if (r.chance(0.3)) f.s("kind", "src").i("at", r.range(0, 8)); else f.s("kind", "cb").i("cb", cb).i("at", cb == CB_REVERSE || cb == CB_SETUP || cb == CB_SEED ? r.range(0, 3) : cb == CB_SETPARITY ? 0 : cb == CB_TEMPER || cb == CB_SETUPTEMPER || cb == CB_ONEBIT ? r.range(0, 20) : r.range(0, (int64_t)(1500 * z))); }
            add_search((int)r.below((uint64_t)G));
        }
    }
    for (int g = 0; g < G; g++) add_search(g);
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C08"; p.rule = "A run reuses one or two combined search objects over one parameter source and one or two generators (irreducible with or without a prime factor list, or reducible; 4..61 state bits, thorough up to 127; 32 and 64 bit; MSB, LSB and best-bits tempering) under every verbosity, clocks that jump, freeze and run backwards, failing, full, throwing and already bad diagnostic streams, runs of thousands of candidates that do not qualify, caller actions between searches, and interruptions in allocations, source draws, generator operations and the stream. Every successful search is recomputed from the generator as it is left and compared with undisturbed new objects on a copy of the source. Non-trivial: a success with a reused object or after a failure.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"at", "sa"};
    p.real_components = {"AlgorithmRecursionAndTempering", "AlgorithmReducibleRecursionAndTempering", "AlgorithmRecursionSearch", "AlgorithmReducibleRecursionSearch", "AlgorithmCalculateParity", "AlgorithmPartialBitPattern", "AlgorithmBestBits", "AlgorithmEquidistribution", "AlgorithmPrimitivity", "NTL", "iostream formatting"}; p.stub_components = {"generators", "parameter source", "clock (time)", "stream buffers", "allocator"};
    p.quick_runs = 2500; p.thorough_runs = 100000;
    p.required = {"left_in_long_component", "searches", "droughts", "reused_search_objects", "interrupted_searches", "verbose_searches", "lsb_then_msb", "best_bits_used", "no_op_tempering_used", "searches_under_stream_faults", "clock_reads", "fault.alloc_failure", "fault.source_error", "fault.stream_write_error", "fault.stream_full", "fault.clock_backwards", "fault.clock_jump"};
    register_property(p);
} } reg;
}
