// C15: period analyses (minpoly, calcCharacteristicPolynomial, annihilate, hasFactorOfDegree) over histories of generator states.
#include "env.hpp"
#include <MTToolBox/period.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace sim;
namespace {
template <class U> struct LinK { typedef LinGen<U> Gen; enum { red = 0 }; static std::shared_ptr<Env> env(const Item& it) { return make_lin_env(it, (int)sizeof(U) * 8); } static void charpoly(Gen&, NTL::GF2X&) {} };
template <class U> struct RedK { typedef RedGen<U> Gen; enum { red = 1 }; static std::shared_ptr<Env> env(const Item& it) { return make_red_env(it, (int)sizeof(U) * 8); }
    static void charpoly(Gen& g, NTL::GF2X& p) { MTToolBox::calcCharacteristicPolynomial(static_cast<MTToolBox::ReducibleGenerator<U>*>(&g), p); } };
template <class G> ref::Poly seq_minpoly(const G& g, int pos, int len) {
    HarnessScope h; std::unique_ptr<G> c(g.peek()); std::vector<unsigned char> s; for (int i = 0; i < len; i++) { c->step_state(); s.push_back((unsigned char)((uint64_t)c->map_out() >> pos & 1)); } return ref::minpoly(s);
}
ref::Poly lcm(const ref::Poly& a, const ref::Poly& b) { return ref::quo(ref::mul(a, b), ref::gcd(a, b)); }
template <class K> void go(const Plan& p) {
    typedef typename K::Gen Gen; typedef typename std::decay<decltype(std::declval<Gen>().parity)>::type U; enum { W = (int)sizeof(U) * 8 };
    HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); set_step_cap(1500000000ULL);
    struct G { std::shared_ptr<Env> e; std::unique_ptr<Gen> g; }; std::vector<Item> gi = p.of("gen"); SIM_REQUIRE(!gi.empty()); std::vector<G> gs(gi.size());
    for (size_t i = 0; i < gs.size(); i++) { gs[i].e = K::env(gi[i]); SIM_REQUIRE(!gs[i].e->cfg.raw); gs[i].g.reset(new Gen(gs[i].e->cfg, &gs[i].e->ctl, 0)); { uint64_t ci = gi[i].gx("ss"); if (gi[i].gi("comp")) for (size_t k = 0; k < gs[i].e->cfg.pool->c.size(); k++) if (!gs[i].e->fac[k].zero() && gs[i].e->cfg.pool->c[k].p.deg() == gs[i].e->cfg.n) { ci = k; break; } gs[i].g->choose(ci); } gs[i].g->seed_state((U)gi[i].gx("st0", 1)); }
    describe(strf(" n=%d W=%d", gs[0].e->cfg.n, (int)W)); NTL::GF2X P; Item fault; bool have_fault = false; uint64_t done = 0, failed = 0, factored = 0;   // P: the polynomial variable of the session, reused by every operation
    auto rest = [](const Gen& g) { std::string s = g.poly().str(); for (int i = 0; i < 4; i++) s += strf(",%" PRIx64 "/%" PRIx64, (uint64_t)g.tb[i], (uint64_t)g.lt[i]); return s + (g.reverse ? "R" : "N") + strf("%" PRIx64, (uint64_t)g.parity); };
    for (auto& it : p.items) {
        if (it.kind == "fault") { fault = it; have_fault = true; continue; }
        if (it.kind != "mess" && it.kind != "minpoly" && it.kind != "charpoly" && it.kind != "ann" && it.kind != "factor") continue;
        G& x = gs[(size_t)it.gi("g") % gs.size()]; Env& e = *x.e; Gen& g = *x.g; int n = e.cfg.n; uint64_t v = it.gx("v", 1);
        if (it.kind == "mess") {
            std::string w = it.gs("what");
            if (w == "run") { RealScope r; for (uint64_t i = 0; i < v % 50; i++) g.generate(); }
            else if (w == "state") { Rng r(v); ref::Poly s = r.chance(0.1) ? ref::Poly() : ref::random_poly(r, n - 1 - (int)r.below(r.chance(0.5) ? 1 : (uint64_t)std::min(n - 1, 8)), false); s.mod(g.poly()); g.set_state(s); }
            else if (w == "retemper") { Rng r(v); for (int i = 0; i < 4; i++) g.set_tb(i, r.chance(0.3) ? 0 : (U)r.next()); }
            else if (w == "reverse") { RealScope r; if (g.isReverseOutput()) g.resetReverseOutput(); else g.setReverseOutput(); }
            else g.choose(v), g.seed_state((U)(v | 1));
            count("caller_" + w); log("mess " + w); continue;
        }
        const ref::Poly s0 = g.state_poly(), cp = g.poly(); const std::string fixed0 = rest(g); const int64_t outs0 = g.outs; std::vector<std::string> others; for (auto& q : gs) others.push_back(q.g->snapshot());
        ref::Poly want, arg; int pos = (int)(it.gi("pos") % W), size = 0, d = 0; bool b = false, wantb = false, seeded = false;
        if (it.kind == "minpoly") { size = it.gi("size") ? n + (int)it.gi("size") - 1 : (int)-(v & 1); want = seq_minpoly(g, pos, 2 * n + 4); }
        else if (it.kind == "charpoly") { if (!K::red || !cp.get(0)) continue; seeded = it.gi("pre"); want = ref::Poly(1); bool whole = false; for (int i = 0; i < W; i++) { ref::Poly m = seq_minpoly(g, i, 2 * n + 4); whole = whole || m.deg() == n; want = lcm(want, m); } if (want.deg() == n && !whole) count("characteristic_from_parts"); NTL::set(P); if (seeded) { arg = seq_minpoly(g, pos, 2 * n + 4); P = ntl_of(arg); } }
        else if (it.kind == "ann") {
            std::string w = it.gs("what"); ref::Poly f = K::red ? e.fac[(size_t)g.cand] : ref::Poly(); Rng r(v);
            if (w == "cof" && !f.zero()) arg = ref::quo(cp, f); else if (w == "fac" && !f.zero()) arg = f; else if (w == "zero") arg = ref::Poly(); else if (w == "seq") arg = seq_minpoly(g, pos, 2 * n + 4); else arg = ref::random_poly(r, (int)r.below((uint64_t)(2 * n + 3)), r.chance(0.5));
            P = ntl_of(arg); want = ref::mulmod(s0, arg, cp);
        } else { if (!K::red) continue; arg = it.gi("pre") ? seq_minpoly(g, pos, 2 * n + 4) : cp; d = e.cfg.mexp; int many = 0; want = ref::factor_of_degree(arg, d, &many); wantb = many == 1; SIM_REQUIRE(many <= 1); P = ntl_of(arg); }
        if (have_fault) { have_fault = false; if (fault.gs("kind") == "oom") alloc_fail_at(1 + fault.gi("at")); else e.ctl.arm((int)fault.gi("cb"), 1 + fault.gi("at"), 5); }
        bool ok = true; std::string why;
        try {
            RealScope r;
            if (it.kind == "minpoly") { if (size || (v & 2)) MTToolBox::minpoly(P, g, pos, size); else if (pos) MTToolBox::minpoly(P, g, pos); else MTToolBox::minpoly(P, g); }
            else if (it.kind == "charpoly") K::charpoly(g, P);
            else if (it.kind == "ann") MTToolBox::annihilate(static_cast<MTToolBox::EquidistributionCalculatable<U>*>(&g), P);
            else b = MTToolBox::hasFactorOfDegree(P, d);
        } catch (const SimFault&) { ok = false; why = "fault"; } catch (const std::bad_alloc&) { ok = false; why = "bad_alloc"; }
        catch (const std::exception& q) { violation("period/exception", it.kind + " failed: " + q.what()); }
        e.ctl.disarm(); alloc_off(); std::string what = it.kind + strf(" n=%d of %s, state %s", n, cp.str().c_str(), s0.str().c_str());
        log(it.kind + (ok ? "" : " " + why)); describe(" " + it.kind + (ok ? "" : "!"));
        if (rest(g) != fixed0) violation("period/changed-generator", what + ": parameters, tempering or output mode changed from " + fixed0 + " to " + rest(g));
        for (size_t i = 0; i < gs.size(); i++) if (&gs[i] != &x && gs[i].g->snapshot() != others[i]) violation("period/changed-generator", what + ": another generator was changed");
        if (!ok) { failed++; g.set_state(s0); continue; }
        done++; ref::Poly got = ref_of(P); sig(mix(hash_str(it.kind), hash_str(want.str())));
        if (it.kind == "ann") { if (g.state_poly() != want) violation("period/annihilate", what + " by " + arg.str() + ": the state is " + g.state_poly().str() + ", it should be " + want.str()); if (want.zero() && !s0.zero()) count("annihilated_to_zero"); if (got != arg) violation("period/argument", what + ": the polynomial was changed"); continue; }
        if (it.kind == "factor") { if (b != wantb) violation("period/factor", strf("hasFactorOfDegree(%s, %d) returned %d", arg.str().c_str(), d, (int)b)); if (b) { factored++; if (got != want) violation("period/factor", strf("hasFactorOfDegree(%s, %d) left ", arg.str().c_str(), d) + got.str() + " instead of the factor " + want.str()); } continue; }
        if (it.kind == "minpoly" && got != want) violation("period/minpoly", what + strf(": bit %d, size %d: ", pos, size) + got.str() + " instead of " + want.str());
        if (it.kind == "charpoly" && got != want) violation("period/charpoly", what + (seeded ? ", starting from " + arg.str() : "") + ": " + got.str() + " instead of " + want.str());
        if (want.deg() < n) count("shorter_than_state"); std::unique_ptr<Gen> y(g.peek()); y->set_state(s0); for (int64_t i = outs0; i < g.outs; i++) y->step_state();
        if (y->state_poly() != g.state_poly()) violation("period/state", what + strf(": after %lld outputs the generator is not where these outputs lead", (long long)(g.outs - outs0)));
    }
    for (auto& x : gs) x.g.reset();
    count("analyses", done); count("failed_operations", failed); count("factors_found", factored); if (done > 1) nontrivial();
}
void body(const Plan& p) {
    Item c = p.cfg(); bool w64 = c.gi("w") == 64;
    if (c.gs("kind") == "red") { if (w64) go<RedK<uint64_t> >(p); else go<RedK<uint32_t> >(p); } else { if (w64) go<LinK<uint64_t> >(p); else go<LinK<uint32_t> >(p); }
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C15"; p.seed = seed; Rng r(seed); int w = r.chance(0.5) ? 32 : 64; bool red = r.chance(0.65); p.add("cfg").s("kind", red ? "red" : "lin").i("w", w).x("fill", r.next());
    int G = r.chance(0.4) ? 2 : 1, maxn = r.chance(0.8) ? 64 : thorough && r.chance(0.2) ? 607 : 127;
    for (int i = 0; i < G; i++) { Item g; do g = red ? gen_red_item(r, "gen", maxn, w, false) : gen_lin_item(r, "gen", maxn, r.chance(0.5), false); while (g.gs("pool") == "raw"); if (red && r.chance(0.5)) g.i("comp", r.chance(0.3) ? 1 : 2); g.x("st0", r.next()); p.items.push_back(g); }
    int ops = (int)r.range(4, 16); double pf = r.chance(0.4) ? 0 : 0.15; static const char* M[] = {"run", "state", "state", "retemper", "reverse", "reparam"}; static const char* A[] = {"cof", "cof", "fac", "zero", "seq", "rnd"};
    static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_SETZERO, CB_GENERATE, CB_GENERATE};
    for (int o = 0; o < ops; o++) {
        int x = (int)r.below(100); int64_t g = (int64_t)r.below((uint64_t)G);
        if (r.chance(pf)) { Item& f = p.add("fault"); if (r.chance(0.3)) f.s("kind", "oom").i("at", r.range(0, 12)); else f.s("kind", "cb").i("cb", CB[r.below(6)]).i("at", r.chance(0.3) ? 0 : r.range(0, 200)); }
        if (x < 26) p.add("mess").i("g", g).s("what", M[r.below(6)]).x("v", r.next());
        else if (x < 52) p.add("minpoly").i("g", g).i("pos", r.chance(0.2) ? 0 : (int64_t)r.below((uint64_t)w)).i("size", r.chance(0.6) ? 0 : r.range(1, 20)).x("v", r.next());
        else if (x < 66) p.add("charpoly").i("g", g).i("pos", (int64_t)r.below((uint64_t)w)).i("pre", (int64_t)r.below(2));
        else if (x < 88) p.add("ann").i("g", g).s("what", A[r.below(6)]).i("pos", (int64_t)r.below((uint64_t)w)).x("v", r.next());
        else p.add("factor").i("g", g).i("pos", (int64_t)r.below((uint64_t)w)).i("pre", (int64_t)r.below(2));
    }
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C15"; p.rule = "A session of up to 16 steps on one or two simulated generators (irreducible or reducible, 32 and 64 bit, sizes up to 127, thorough up to 607+63; state transitions with and without factor x) mixes minimal polynomials of any output bit, characteristic polynomials, annihilation (by the cofactor, the factor, zero, the sequence's own polynomial, any polynomial) and factor searches with the caller running, setting, re-tempering, reversing and re-parametrising its generators and with analyses that fail part-way, all sharing one polynomial variable. Reference: Berlekamp-Massey on the generator's future outputs from its present state, polynomial arithmetic on the state, own factorisation. Non-trivial: at least two completed analyses.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"at", "pos"};
    p.real_components = {"minpoly", "calcCharacteristicPolynomial", "annihilate", "hasFactorOfDegree", "util getBitOfPos, LCM", "NTL"}; p.stub_components = {"generator (companion recursion with chosen polynomial and output map)", "allocator"};
    p.quick_runs = 40000; p.thorough_runs = 600000;
    p.required = {"analyses", "failed_operations", "factors_found", "annihilated_to_zero", "characteristic_from_parts", "shorter_than_state", "caller_run", "caller_state", "caller_retemper", "caller_reverse", "caller_reparam", "fault.alloc_failure", "fault.callback_add", "fault.callback_generate", "fault.callback_clone"};
    register_property(p);
} } reg;
}
