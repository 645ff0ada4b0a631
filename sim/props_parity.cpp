// C05: parity vectors through histories of calculators, generators and failures.
#include "env.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <samples/RMT/rmt64.hpp>
using namespace sim;
namespace sim { void sfmt_parity(const Plan&); void dsfmt_parity(const Plan&); }
namespace {
// ---- family 1: simulated reducible generators
// state bits that belong to one component each, as in combined generators: the single bits of the short one first, last or anywhere
void split_units(Env& e, int mode, uint64_t seed) {
    e.cfg.units.reset(new std::map<int, std::vector<ref::Poly> >()); Rng r(seed ^ 0x5b);
    for (size_t i = 0; i < e.fac.size(); i++) {
        const ref::Poly& f = e.fac[i]; ref::Poly p = e.cfg.pool->c[i].p; int n = e.cfg.n; if (f.zero() || p.deg() != n || f.deg() >= n) continue;
        ref::Poly q = ref::quo(p, f), b = q; std::vector<ref::Poly> lng, shrt, all; auto step = [&](ref::Poly& s) { ref::Poly t; t.addshift(s, 1); t.mod(p); s = t; };
        for (int k = 0; k < f.deg(); k++) { lng.push_back(b); step(b); } b = f; for (int k = f.deg(); k < n; k++) { shrt.push_back(b); step(b); }
        for (size_t k = shrt.size(); k-- > 0; ) { std::swap(shrt[k], shrt[r.below(k + 1)]); if (k) shrt[k].add(shrt[r.below(k)]); }
        if (mode == 1) { all = shrt; all.insert(all.end(), lng.begin(), lng.end()); } else { all = lng; all.insert(all.end(), shrt.begin(), shrt.end()); }
        if (mode == 2) for (size_t k = all.size(); k > 1; k--) std::swap(all[k - 1], all[r.below(k)]);
        (*e.cfg.units)[(int)i] = all; count("split_states");
    }
}
template <class U> void go(const Plan& p) {
    typedef RedGen<U> Gen; typedef MTToolBox::AlgorithmCalculateParity<U, Gen> Calc;
    HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); poison_stack(c.gx("fill", 1)); set_step_cap(200000000ULL);
    struct G { std::shared_ptr<Env> e; std::unique_ptr<Gen> g; std::map<int, uint64_t> seen; };
    std::vector<Item> gi = p.of("gen"); SIM_REQUIRE(!gi.empty()); std::vector<G> gs(gi.size()); std::map<int, std::unique_ptr<Calc> > calcs;
    auto choose = [&](G& x, uint64_t v) { std::vector<int> ok; for (size_t i = 0; i < x.e->fac.size(); i++) if (!x.e->fac[i].zero()) ok.push_back((int)i); SIM_REQUIRE(!ok.empty()); x.g->choose((uint64_t)ok[v % ok.size()]); };
    for (size_t i = 0; i < gs.size(); i++) { gs[i].e = make_red_env(gi[i], Gen::W); gs[i].e->cfg.parmask = gi[i].gx("pm", ~UINT64_C(0)); gs[i].e->cfg.parrot = (int)gi[i].gi("pr"); if ((U)~gs[i].e->cfg.parmask) count("masked_parity_values"); if (gi[i].has("sb")) split_units(*gs[i].e, (int)gi[i].gi("sb"), gi[i].gx("ss")); gs[i].g.reset(new Gen(gs[i].e->cfg, &gs[i].e->ctl, 0)); choose(gs[i], gi[i].gx("ss")); }
    describe(strf(" m=%d n=%d W=%d", gs[0].e->cfg.mexp, gs[0].e->cfg.n, (int)Gen::W));
    Item fault; bool have_fault = false; uint64_t done = 0, failed = 0, again = 0;
    for (auto& it : p.items) {
        if (it.kind == "fault") { fault = it; have_fault = true; continue; }
        G& x = gs[(size_t)it.gi("g") % gs.size()]; Env& e = *x.e;
        if (it.kind == "mess") {
            std::string w = it.gs("what"); uint64_t v = it.gx("v", 1);
            if (w == "run") { RealScope r; for (uint64_t i = 0; i < v % 50; i++) x.g->generate(); }
            else if (w == "reseed") { RealScope r; x.g->seed((U)v); }
            else if (w == "zero") { RealScope r; x.g->setZero(); }
            else if (w == "onebit") { RealScope r; x.g->setOneBit((int)(v % (uint64_t)e.cfg.n)); }
            else if (w == "retemper") { Rng r(v); for (int i = 0; i < 4; i++) x.g->set_tb(i, (U)r.next()); }
            else if (w == "reverse") { RealScope r; if (x.g->isReverseOutput()) x.g->resetReverseOutput(); else x.g->setReverseOutput(); }
            else if (w == "reparam") choose(x, v);
            count("caller_" + w); log("mess " + w); continue;
        }
        if (it.kind == "newcalc") { calcs.erase((int)it.gi("k")); continue; }
        if (it.kind != "calc") continue;
        std::unique_ptr<Calc>& k = calcs[(int)it.gi("k")]; bool reused = (bool)k; if (!k) { poison_stack(it.gx("v", 7)); RealScope r; k.reset(new Calc()); }
        ref::Poly f = e.fac[(size_t)x.g->cand]; NTL::GF2X nf = ntl_of(f); bool ok = true; std::string why; U par = 0; poison_stack(it.gx("v", 7));
        if (have_fault) { have_fault = false; if (fault.gs("kind") == "oom") alloc_fail_at(1 + fault.gi("at")); else e.ctl.arm((int)fault.gi("cb"), 1 + fault.gi("at"), 6); }
        ref::Poly before = x.g->poly();
        try { RealScope r; par = k->searchParity(*x.g, nf); } catch (const SimFault&) { ok = false; why = "fault"; } catch (const std::bad_alloc&) { ok = false; why = "bad_alloc"; } catch (const char* s) { violation("parity/gave-up", std::string("the calculation failed: ") + s); }
        e.ctl.disarm(); alloc_off();
        log(strf("calc k%d g%d ", (int)it.gi("k"), (int)it.gi("g")) + (ok ? strf("%" PRIx64, (uint64_t)par) : why)); describe(strf(" calc%d%s", (int)it.gi("k"), ok ? "" : "!"));
        if (x.g->poly() != before) violation("parity/recursion-changed", "the calculation changed the generator's recursion");
        if (!ok) { failed++; continue; }
        done++; if (reused) again++;
        if (par == 0) violation("parity/zero", "the parity vector is zero");
        if (x.g->parity != par) violation("parity/not-recorded", strf("the generator carries %" PRIx64 ", the calculation returned %" PRIx64, (uint64_t)x.g->parity, (uint64_t)par));
        // every state without a long-period part: multiples of f modulo the characteristic polynomial
        ref::Poly b = f; int gd = e.cfg.n - e.cfg.mexp; if (x.g->deg == e.cfg.mexp) gd = 0;
        for (int i = 0; i < gd; i++) { std::unique_ptr<Gen> q(x.g->peek()); q->set_state(b); if (__builtin_popcountll((uint64_t)(q->pv() & par)) & 1) violation("parity/not-orthogonal", strf("m=%d n=%d: state %s lies outside the long-period component but has odd inner product with %" PRIx64, e.cfg.mexp, e.cfg.n, b.str().c_str(), (uint64_t)par)); ref::Poly t; t.addshift(b, 1); t.mod(x.g->poly()); b = t; }
        auto s = x.seen.find(x.g->cand); if (s == x.seen.end()) x.seen[x.g->cand] = (uint64_t)par;
        else if (s->second != (uint64_t)par) violation("parity/history", strf("the vector is %" PRIx64 ", an earlier calculation for the same parameters gave %" PRIx64, (uint64_t)par, s->second));
        sig((uint64_t)par);
    }
    // fresh calculators on fresh generators
    for (auto& x : gs) for (auto& s : x.seen) {
        std::unique_ptr<Gen> g(new Gen(x.e->cfg, &x.e->ctl, 0)); g->choose((uint64_t)s.first); NTL::GF2X nf = ntl_of(x.e->fac[(size_t)s.first]); U par; { RealScope r; Calc k; par = k.searchParity(*g, nf); }
        if ((uint64_t)par != s.second) violation("parity/history", strf("a fresh calculator and generator give %" PRIx64 ", the history gave %" PRIx64, (uint64_t)par, s.second));
    }
    count("calculations", done); count("failed_calculations", failed); count("reused_calculators", again);
    if (done > 1 && (again || failed)) nontrivial();
}
// ---- family 2: the RMT64 sample generator
struct KnownRmt { int mexp, pos; uint64_t mata; };
ref::Poly rmt_factor(RMT64Search& g, int n, int mexp) {
    g.seed(1); std::vector<unsigned char> s; for (int i = 0; i < 2 * n; i++) s.push_back((unsigned char)(g.generate() & 1));
    ref::Poly p = ref::minpoly(s); if (p.deg() != n || !p.get(0)) return ref::Poly();
    int many = 0; ref::Poly f = ref::factor_of_degree(p, mexp, &many); return many == 1 ? f : ref::Poly();
}
void rmt(const Plan& p) {
    typedef MTToolBox::AlgorithmCalculateParity<uint64_t, RMT64Search> Calc; HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); set_step_cap(500000000ULL);
    int mexp = (int)c.gi("mexp", 107), n = (mexp / 64 + 1) * 64, pos = 0; uint64_t mata = 0; Rng r(c.gx("es", 1)); ref::Poly f;
    for (int i = 0; i < 3000 && f.zero(); i++) { pos = (int)r.below((uint64_t)n / 64); mata = r.next(); RMT64Search g(mexp, pos, mata, 1); f = rmt_factor(g, n, mexp); }
    if (f.zero()) { count("rmt_none_found"); return; }
    describe(strf(" RMT64 mexp=%d pos=%d mata=%" PRIx64, mexp, pos, mata)); NTL::GF2X nf = ntl_of(f);
    RMT64Search g(mexp, pos, mata, r.next(), r.next(), 1); Calc calc; uint64_t first = 0; uint64_t done = 0, failed = 0; Item fault; bool have_fault = false;
    for (auto& it : p.items) {
        uint64_t v = it.gx("v", 1);
        if (it.kind == "fault") { fault = it; have_fault = fault.gs("kind") == "oom"; continue; }
        if (it.kind == "mess") { RealScope q; if (v % 3 == 0) g.seed(v); else if (v % 3 == 1) for (uint64_t i = 0; i < v % 40; i++) g.generate(); else if (v & 64) g.setReverseOutput(); else g.resetReverseOutput(); continue; }
        if (it.kind != "calc") continue;
        uint64_t par = 0; bool ok = true; if (have_fault) { have_fault = false; alloc_fail_at(1 + fault.gi("at")); }
        try { RealScope q; par = calc.searchParity(g, nf); } catch (const std::bad_alloc&) { ok = false; } catch (const char* s) { violation("parity/gave-up", std::string("the calculation failed: ") + s); }
        alloc_off(); log(ok ? strf("calc %" PRIx64, par) : "calc failed"); if (!ok) { failed++; continue; }
        done++; if (!par) violation("parity/zero", "the parity vector is zero");
        if (!first) first = par; else if (first != par) violation("parity/history", strf("RMT64: the vector is %" PRIx64 ", an earlier calculation for the same parameters gave %" PRIx64, par, first));
        std::string ps = g.getParamString(); if (ps.find(strf("%016" PRIx64, par)) == std::string::npos) violation("parity/not-recorded", "RMT64: parameter string " + ps + " lacks the parity " + strf("%" PRIx64, par));
    }
    if (!first) return;
    for (int k = 0; k < n - mexp + 60; k++) {      // random states with their long-period part removed
        RMT64Search s(mexp, pos, mata, r.next()), acc(s); acc.setZero(); int spin = (int)r.below(3); 
        // state words are filled bit by bit from the seed recurrence; a different seed each time
        for (int i = 0; i < spin; i++) s.generate();
        for (int i = 0; i <= f.deg(); i++) { if (f.get(i)) acc.add(s); s.generate(); }
        if (__builtin_popcountll(acc.getParityValue() & first) & 1) violation("parity/not-orthogonal", strf("RMT64 mexp=%d pos=%d mata=%" PRIx64 ": a state outside the long-period component has odd inner product with %" PRIx64, mexp, pos, mata, first));
    }
    count("rmt_runs"); count("calculations", done); count("failed_calculations", failed); sig(first); if (done > 1) nontrivial();
}
void body(const Plan& p) { Item c = p.cfg(); if (c.gs("kind") == "rmt") rmt(p); else if (c.gs("kind") == "sfmt") sfmt_parity(p); else if (c.gs("kind") == "dsfmt") dsfmt_parity(p); else if (c.gi("w") == 64) go<uint64_t>(p); else go<uint32_t>(p); }
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C05"; p.seed = seed; Rng r(seed); int w = r.chance(0.5) ? 32 : 64; bool isrmt = r.chance(0.08), simd = !isrmt && r.chance(0.015);
    Item& c = p.add("cfg"); c.s("kind", isrmt ? "rmt" : "red").i("w", w).x("fill", r.next());
    if (isrmt) { static const int M[] = {89, 107, 127}; c.i("mexp", thorough && r.chance(0.02) ? 521 : M[r.below(3)]).x("es", r.next()); }
    if (simd) { for (auto& kv : c.kv) if (kv.first == "kind") kv.second = r.chance(0.5) ? "sfmt" : "dsfmt"; c.x("gk", r.below(5)).x("es", r.next()); }
    int G = r.chance(0.5) ? 2 : 1; int maxm = r.chance(0.7) ? 61 : thorough && r.chance(0.1) ? 607 : 127;
    if (!isrmt && !simd) for (int i = 0; i < G; i++) { Item g; do g = gen_red_item(r, "gen", maxm, w, true); while (false); if (r.chance(0.5)) { int m = (int)g.gi("m"); int gmax = std::min(m - 1, w - 1); for (auto& kv : g.kv) if (kv.first == "n") kv.second = strf("%d", m + (int)r.below((uint64_t)gmax + 1)); } if (r.chance(0.35)) { uint64_t all = w == 64 ? ~UINT64_C(0) : UINT64_C(0xffffffff), pm = r.next(); if (r.chance(0.5)) pm &= r.next(); if (r.chance(0.3)) pm &= r.next(); if (r.chance(0.2)) pm = ~UINT64_C(0) << r.below((uint64_t)w); if (r.chance(0.5)) pm |= UINT64_C(1) << (w - 1); pm &= all; pm |= 1; /* bit 0 shows every state sooner or later */ if (pm == all) pm &= ~(UINT64_C(2) << r.below((uint64_t)w - 1)); g.x("pm", pm); if (r.chance(0.7)) g.i("pr", (int64_t)r.below((uint64_t)w)); } if (r.chance(0.3)) g.i("sb", (int64_t)r.below(3)); p.items.push_back(g); }
    static const char* M[] = {"run", "reseed", "zero", "onebit", "retemper", "reverse", "reparam"};
    static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_GENERATE, CB_SETZERO, CB_ISZERO, CB_ONEBIT, CB_GETPARITY, CB_SETPARITY};
    int ops = (int)r.range(3, 12); double pf = r.chance(0.4) ? 0 : 0.3;
    for (int o = 0; o < ops; o++) {
        int x = (int)r.below(100), g = (int)r.below((uint64_t)G);
        if (x < 40) p.add("mess").i("g", g).s("what", M[r.below(7)]).x("v", r.next());
        else if (x < 46) p.add("newcalc").i("k", (int64_t)r.below(2));
        else {
            if (r.chance(pf)) { Item& f = p.add("fault"); if (r.chance(0.35)) f.s("kind", "oom").i("at", r.range(0, 120)); else { int cb = CB[r.below(9)]; f.s("kind", "cb").i("cb", cb).i("at", cb == CB_SETPARITY ? 0 : cb == CB_GENERATE || cb == CB_ADD ? r.range(0, 900) : r.range(0, 70)); } }
            p.add("calc").i("g", g).i("k", (int64_t)r.below(2)).x("v", r.next());
        }
    }
    for (int g = 0; g < G; g++) p.add("calc").i("g", g).i("k", 0).x("v", r.next());
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C05"; p.rule = "A run reuses one or two parity calculators over one or two reducible generators (or the RMT64, SFMT or dSFMT sample generator) while the caller runs, reseeds, zeroes, re-tempers, reverses or re-parametrises them and calculations fail inside allocations or generator operations; every vector is checked against a basis of the short-period component computed by the reference algebra, against earlier vectors for the same parameters and against a fresh calculator; on the 128-bit generators the period certification is run on seeded states with calculated and arbitrary vectors. Non-trivial: at least two calculations with reuse or a failure.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"at"};
    p.real_components = {"AlgorithmCalculateParity", "annihilate", "NTL kernel", "samples/RMT/rmt64.hpp (RMT64Search)", "sfmt and dSFMT sample generators with periodCertification"}; p.stub_components = {"reducible generator (companion recursion with chosen factors)", "allocator"};
    p.quick_runs = 20000; p.thorough_runs = 500000; p.assumptions = {"the state transition is invertible (no factor x), as for every generator the library is meant for"};
    p.required = {"masked_parity_values", "split_states", "calculations", "failed_calculations", "reused_calculators", "rmt_runs", "simd_runs", "certified_states", "repaired_states", "caller_run", "caller_reseed", "caller_zero", "caller_onebit", "caller_reparam", "fault.alloc_failure", "fault.callback_add", "fault.callback_setOneBit", "fault.callback_setParityValue"};
    register_property(p);
} } reg;
}
