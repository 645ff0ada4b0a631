// One job class for the two generators with 128-bit words; T supplies what differs.
#ifndef VERIF_JOBS_SIMD_HPP
#define VERIF_JOBS_SIMD_HPP
#include <map>
namespace {
using namespace sim;
inline std::string simd_poly(const NTL::GF2X& p) { HarnessScope h; return poly_str(p); }
inline std::string simd_fmt(const char* nm, int d, const int* v, int n) { HarnessScope h; std::string s = strf("%s%d:", nm, d); for (int i = 0; i < n; i++) s += strf("%d.", v[i]); return s; }
// keys: sub (search, parity, equi, linear, special), gk known parameters, ss seed, at position of the known parameters in the stream, calls, b, bl, mode
template <class T> struct SimdJob : Job {
    typedef typename T::Gen Gen; Item it; std::unique_ptr<SimSource> src; std::unique_ptr<Gen> g; NTL::GF2X f; std::string sub;
    struct Known { std::unique_ptr<Gen> g; NTL::GF2X f; };
    // the irreducible factor of known parameters and the generator in its long-period component
    static Known& known(uint64_t k) {
        static std::map<uint64_t, Known> m; Known& e = m[k % 5];
        if (!e.g) { e.g.reset(new Gen(T::param(k))); w128_t one = MTToolBox::getOne<w128_t>(); e.g->seed(one); NTL::GF2X p; MTToolBox::minpoly<w128_t>(p, *e.g); e.f = p; SIM_REQUIRE(MTToolBox::hasFactorOfDegree(e.f, T::MEXP)); SIM_REQUIRE(anni(*e.g)); }
        return e;
    }
    SimdJob(const Item& i) : it(i) { sub = it.gs("sub"); repeatable = sub == "equi" || sub == "linear"; }
    SimSource* source() override { return sub == "search" ? src.get() : 0; }
    void setup() override {
        HarnessScope h; out.clear(); g.reset(); src.reset(new SimSource(SimSource::SCRIPT, it.gx("ss", 1))); uint64_t k = it.gx("gk");
        if (sub == "search") { Rng r(it.gx("ss", 1) + 1); for (int i = 0; i < T::NDRAW * (int)it.gi("at"); i++) src->script.push_back(r.next()); T::draws(src->script, T::param(k)); g.reset(new Gen((int)T::MEXP)); return; }
        f = known(k).f; if (sub == "equi") g.reset(new Gen(*known(k).g)); else { g.reset(new Gen(T::param(k))); w128_t s = MTToolBox::getOne<w128_t>(); s.u64[1] = it.gx("ss"); g->seed(s); }
    }
    std::string inputs() override {
        HarnessScope h; if (sub != "equi" && sub != "linear") return sub == "search" ? "" : poly_str(f); Gen c(*g); std::string s = c.getParamString(); for (int i = 0; i < 12; i++) { w128_t w = c.generate(); s += strf("%016" PRIx64 "%016" PRIx64 ".", w.u64[1], w.u64[0]); } return s;
    }
    void say_gen() { HarnessScope h; Gen c(*g); say(c.getParamString()); for (int i = 0; i < 3; i++) { w128_t w = c.generate(); out += strf("%016" PRIx64 "%016" PRIx64 ".", w.u64[1], w.u64[0]); } out += ' '; }
    void op(const JobIO&) override {
        if (sub == "search") {
            MTToolBox::AlgorithmReducibleRecursionSearch<w128_t> s(*g, *src);
            for (int k = 0; k < (int)it.gi("calls", 2); k++) { bool r = s.start((int)it.gi("b", 2)); say(strf("%d/%ld", (int)r, (long)s.getCount())); if (r) { say(simd_poly(s.getIrreducibleFactor())); say(simd_poly(s.getCharacteristicPolynomial())); say_gen(); } }
        } else if (sub == "parity") {
            MTToolBox::AlgorithmCalculateParity<w128_t, Gen> c; w128_t p = c.searchParity(*g, f); { HarnessScope h; say(strf("%016" PRIx64 "%016" PRIx64, p.u64[1], p.u64[0])); } say_gen();
        } else if (sub == "linear") { MTToolBox::TestLinearity<w128_t> t; say(t(*g) ? "linear" : "nonlinear"); }
        else if (sub == "equi") T::equi(*g, (int)it.gi("bl", 2), (int)it.gi("mode", 64), simd_fmt, *this);
        else { T::special(*g, f, *this); bool r = anni(*g); say(r ? "annihilated" : "not annihilated"); say_gen(); }
    }
};
// C05 on the 128-bit generators: parity vectors through a history, and the certification of seeded states that rests on them
inline int odd(const w128_t& a, const w128_t& b) { return (__builtin_popcountll(a.u64[0] & b.u64[0]) + __builtin_popcountll(a.u64[1] & b.u64[1])) & 1; }
inline std::string hex128(const w128_t& w) { return strf("%016" PRIx64 "%016" PRIx64, w.u64[1], w.u64[0]); }
template <class T> void simd_parity(const Plan& p) {
    typedef typename T::Gen Gen; typedef MTToolBox::AlgorithmCalculateParity<w128_t, Gen> Calc; HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); set_step_cap(3000000000ULL);
    uint64_t k = c.gx("gk"); Rng r(c.gx("es", 1)); NTL::GF2X f = SimdJob<T>::known(k).f; Gen g(T::param(k)); Calc calc; Item fault; bool have = false; uint64_t done = 0, failed = 0; std::vector<w128_t> seen;
    describe(strf(" %d.%d", (int)T::MEXP, (int)(k % 5)));
    auto word = [&]() { w128_t w; w.u64[0] = r.next(); w.u64[1] = r.next(); return w; };
    { w128_t s = word(); RealScope q; g.seed(s); }
    for (auto& it : p.items) {
        uint64_t v = it.gx("v", 1);
        if (it.kind == "fault") { fault = it; have = fault.gs("kind") == "oom"; continue; }
        if (it.kind == "mess") { w128_t s = word(); RealScope q; if (v % 3 == 0) g.seed(s); else if (v % 3 == 1) for (uint64_t i = 0; i < v % 40; i++) g.generate(); else g.setOneBit((int)(v % (uint64_t)g.bitSize())); continue; }
        if (it.kind == "newcalc" || it.kind != "calc") continue;
        w128_t par; bool ok = true; poison_stack(v); if (have) { have = false; alloc_fail_at(1 + fault.gi("at")); }
        try { RealScope q; par = calc.searchParity(g, f); } catch (const std::bad_alloc&) { ok = false; } catch (const char* s) { violation("parity/gave-up", std::string("the calculation failed: ") + s); }
        alloc_off(); log(ok ? "calc " + hex128(par) : "calc failed"); if (!ok) { failed++; continue; }
        done++; if (!par.u64[0] && !par.u64[1]) violation("parity/zero", "the parity vector is zero");
        if (!seen.empty() && (seen[0].u64[0] != par.u64[0] || seen[0].u64[1] != par.u64[1])) violation("parity/history", "the vector is " + hex128(par) + ", an earlier calculation for the same parameters gave " + hex128(seen[0]));
        std::string ps = g.getParamString(); for (auto& w : T::parity_text(par)) if (ps.find(w) == std::string::npos) violation("parity/not-recorded", "parameter string " + ps + " lacks the parity " + hex128(par));
        seen.push_back(par);
    }
    if (seen.empty()) return;
    w128_t par = seen[0]; int n = g.bitSize(); std::unique_ptr<Gen> st(new Gen(T::param(k)));
    for (int b = 0; b < n; b += 1 + (int)r.below(12)) {         // states with their long-period part removed
        if (r.chance(0.3)) st->seed(word()); else { st->setZero(); st->setOneBit(b); }
        Gen acc(*st); acc.setZero(); for (long i = 0; i <= NTL::deg(f); i++) { if (NTL::IsOne(NTL::coeff(f, i))) acc.add(*st); st->generate(); }
        for (int i = 0; i < 2; i++) { if (odd(acc.getParityValue(), par)) violation("parity/not-orthogonal", strf("a state outside the long-period component (bit %d) has odd inner product with ", b) + hex128(par)); acc.generate(); }
    }
    for (int i = 0; i < 12; i++) {                              // certification of seeded states, with this vector and with arbitrary ones
        w128_t v = par; if (i >= 4) { v = word(); if (i % 2) { int z = (int)r.below(128); for (int b = 0; b < z; b++) { int q = b ^ (i & 4 ? 64 : 0); v.u64[q >> 6] &= ~(UINT64_C(1) << (q & 63)); } } if (!v.u64[0] && !v.u64[1]) v.u64[1] = UINT64_C(1) << r.below(64); }
        typename T::Param pp = T::param(k); w128_t fix = word(); bool nofix = T::set_parity(pp, v, fix, i & 1); w128_t sd = word(); Gen s(pp); s.seed(sd);
        w128_t a = s.getParityValue(); w128_t x = a; if (!nofix) { x.u64[0] ^= fix.u64[0]; x.u64[1] ^= fix.u64[1]; } int was = odd(x, v), ret, ret2; { RealScope q; ret = T::certify(s, nofix); }
        w128_t b = s.getParityValue(), y = b; if (!nofix) { y.u64[0] ^= fix.u64[0]; y.u64[1] ^= fix.u64[1]; } w128_t d; d.u64[0] = a.u64[0] ^ b.u64[0]; d.u64[1] = a.u64[1] ^ b.u64[1]; int flips = __builtin_popcountll(d.u64[0]) + __builtin_popcountll(d.u64[1]);
        { RealScope q; ret2 = T::certify(s, nofix); }
        if (ret != was || !odd(y, v) || flips != (was ? 0 : 1) || ret2 != 1) violation("parity/certification", strf("certification of a state with %s product returned %d, changed %d bits, and then %d; vector ", was ? "odd" : "even", ret, flips, ret2) + hex128(v) + ", parity word " + hex128(a) + " -> " + hex128(b));
        count(was ? "certified_states" : "repaired_states");
    }
    count("simd_runs"); count("calculations", done); count("failed_calculations", failed); sig(par.u64[0] ^ par.u64[1]); if (done > 1) nontrivial();
}
}
#endif
