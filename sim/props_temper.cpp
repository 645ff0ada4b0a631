// C07: tempering searches through histories of reuse, caller actions, failing diagnostic streams and interruptions.
#include "env.hpp"
#include <iostream>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace sim;
namespace {
struct Shape { bool best, lsb; int params, bits, step; std::vector<int> shifts; };
template <class U> struct Maker {
    enum { W = sizeof(U) * 8 };
    template <int P, int T, int S> static MTToolBox::AlgorithmTempering<U>* pb(bool lsb) {
        if (lsb) return new MTToolBox::AlgorithmPartialBitPattern<U, W, P, T, S, true>(); return new MTToolBox::AlgorithmPartialBitPattern<U, W, P, T, S, false>();
    }
    static MTToolBox::AlgorithmTempering<U>* make(const Shape& s) {
        if (s.best) return new MTToolBox::AlgorithmBestBits<U>((int)W, &s.shifts[0], s.params, s.bits);
        if (s.bits == W) return pb<1, W, 3>(s.lsb); if (s.bits == W - 3) return pb<2, W - 3, 2>(s.lsb); if (s.bits > W / 2) return pb<1, W / 2 + W / 16 - 1, W == 64 ? 4 : 3>(s.lsb);
        switch (s.params * 100 + s.bits * 10 + s.step) {
        case 142: return pb<1, 4, 2>(s.lsb); case 231: return pb<2, 3, 1>(s.lsb); case 163: return pb<1, 6, 3>(s.lsb); case 253: return pb<2, 5, 3>(s.lsb); case 342: return pb<3, 4, 2>(s.lsb); default: return pb<1, 5, 5>(s.lsb);
        }
    }
};
Shape shape_of(const Item& it, int W) {
    Shape s; s.best = it.gs("kind") == "best"; s.lsb = it.gi("lsb") != 0; s.params = (int)it.gi("params", 1); s.bits = (int)it.gi("bits", 4); s.step = (int)it.gi("step", 2);
    if (s.best) { s.params = std::max(1, std::min(2, s.params)); s.bits = std::max(1, std::min(s.params == 1 ? 6 : 3, s.bits)); for (int i = 0; i < s.params; i++) s.shifts.push_back((int)it.gi(strf("sh%d", i), 7)); s.lsb = false; }
    else { static const int V[6][3] = {{1, 4, 2}, {2, 3, 1}, {1, 6, 3}, {2, 5, 3}, {3, 4, 2}, {1, 5, 5}}; int k = (int)it.gi("variant") % 9; if (k < 6) { const int* v = V[k]; s.params = v[0]; s.bits = v[1]; s.step = v[2]; } else if (k == 6) { s.params = 1; s.bits = W; s.step = 3; } else if (k == 8) { s.params = 1; s.bits = W / 2 + W / 16 - 1; s.step = W == 64 ? 4 : 3; } else { s.params = 2; s.bits = W - 3; s.step = 2; } }
    return s;
}
// the bits of the last group a search examines: pairs (parameter, bit position)
std::vector<std::vector<std::pair<int, int> > > last_group(const Shape& s, int W) {
    std::vector<std::vector<std::pair<int, int> > > alts;       // each alternative: the set of one-bits inside the group
    std::vector<std::pair<int, int> > bits;
    if (!s.best) {
        int p = (s.bits - 1) / s.step * s.step;
        for (int b = p; b < s.bits; b++) bits.push_back(std::make_pair(s.params - 1, s.lsb ? b : W - 1 - b));
        for (int m = 0; m < 1 << bits.size(); m++) { std::vector<std::pair<int, int> > a; for (size_t i = 0; i < bits.size(); i++) if (m >> i & 1) a.push_back(bits[i]); alts.push_back(a); }
        return alts;
    }
    // best bits: top bits of each parameter at the last accuracy, then those reached through the shifts (parameter 0 first)
    int v = s.bits - 1, np = s.params * (s.params + 1) / 2, sum = 0, index = 0, idx = 0, rdx = s.params - 1; std::vector<bool> ok;
    for (int k = 0; k < np; k++) {
        bits.push_back(std::make_pair(index, W - v - sum - 1)); ok.push_back(v + s.shifts[(size_t)index] + sum <= W);
        if (++index >= s.params) { sum += s.shifts[(size_t)rdx]; index = idx++; rdx--; }
    }
    for (int m = 0; m < 1 << np; m++) {
        std::vector<std::pair<int, int> > a; bool in = true;
        for (int i = 0; i < np; i++) if (m >> i & 1) { if (!ok[(size_t)i]) in = false; if (bits[(size_t)i].second >= 0 && W > v + (W - 1 - v - bits[(size_t)i].second) + 1) a.push_back(bits[(size_t)i]); }
        if (in) alts.push_back(a);
    }
    return alts;
}
std::vector<std::pair<int, int> > group_bits(const std::vector<std::vector<std::pair<int, int> > >& alts) { std::vector<std::pair<int, int> > r; for (auto& a : alts) for (auto& b : a) { bool f = false; for (auto& x : r) if (x == b) f = true; if (!f) r.push_back(b); } return r; }

template <class U> void go(const Plan& p) {
    typedef LinGen<U> Gen; enum { W = sizeof(U) * 8 }; typedef MTToolBox::AlgorithmTempering<U> Alg;
    HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); poison_stack(c.gx("fill", 1));
    struct G { std::shared_ptr<Env> e; std::unique_ptr<Gen> g; };
    struct S { Shape sh; std::unique_ptr<Alg> a; int used; };
    std::vector<Item> gi = p.of("gen"), si = p.of("alg"); SIM_REQUIRE(!gi.empty() && !si.empty()); std::vector<G> gs(gi.size()); std::vector<S> ss(si.size());
    auto choose = [&](G& x, uint64_t v) { std::vector<int> ok; for (size_t i = 0; i < x.e->cfg.pool->c.size(); i++) if (x.e->cfg.pool->c[i].tag == "prim") ok.push_back((int)i); SIM_REQUIRE(!ok.empty()); x.g->choose((uint64_t)ok[v % ok.size()]); };
    for (size_t i = 0; i < gs.size(); i++) { gs[i].e = make_lin_env(gi[i], W); gs[i].e->cfg.latched = gi[i].gi("latched") != 0; gs[i].g.reset(new Gen(gs[i].e->cfg, &gs[i].e->ctl, 0)); choose(gs[i], gi[i].gx("ss")); }
    for (size_t i = 0; i < ss.size(); i++) { ss[i].sh = shape_of(si[i], W); if (ss[i].sh.bits >= W - 3) count("whole_word_shapes"); else if (ss[i].sh.bits > 20 || (!ss[i].sh.best && ss[i].sh.bits > W / 2)) count("beyond_half_shapes"); RealScope r; ss[i].a.reset(Maker<U>::make(ss[i].sh)); ss[i].used = 0; }
    describe(strf(" n=%d W=%d", gs[0].e->cfg.n, (int)W)); uint64_t done = 0, failed = 0, reused = 0; Item fault; bool have_fault = false;
    SimBuf quiet; std::streambuf* old = std::cout.rdbuf(&quiet); (void)old;
    for (auto& it : p.items) {
        if (it.kind == "fault") { fault = it; have_fault = true; continue; }
        G& x = gs[(size_t)it.gi("g") % gs.size()]; Env& e = *x.e;
        if (it.kind == "mess") {
            std::string w = it.gs("what"); uint64_t v = it.gx("v", 1);
            if (w == "run") { RealScope r; for (uint64_t i = 0; i < v % 50; i++) x.g->generate(); }
            else if (w == "reseed") { RealScope r; x.g->seed((U)v); }
            else if (w == "retemper") { Rng r(v); for (int i = 0; i < 4; i++) x.g->set_tb(i, r.chance(0.3) ? 0 : (U)r.next()); }
            else if (w == "reverse") { RealScope r; if (x.g->isReverseOutput()) x.g->resetReverseOutput(); else x.g->setReverseOutput(); }
            else if (w == "reparam") choose(x, v);
            if (x.g->zero_state()) x.g->seed_state(1);
            count("caller_" + w); log("mess " + w); continue;
        }
        if (it.kind == "newalg") { S& s = ss[(size_t)it.gi("s") % ss.size()]; RealScope r; s.a.reset(Maker<U>::make(s.sh)); s.used = 0; continue; }
        if (it.kind != "search") continue;
        set_step_cap(e.cfg.n > 64 ? 6000000000ULL : 1500000000ULL);
        S& s = ss[(size_t)it.gi("s") % ss.size()]; bool verbose = it.gi("v") != 0; memcpy(x.g->lt, x.g->tb, sizeof x.g->tb);
        U start[4]; memcpy(start, x.g->tb, sizeof start); ref::Poly poly = x.g->poly(); bool startrev = x.g->reverse;
        // baseline: an equal generator in its initial state, a new search object, nothing written, nothing failing
        U base[4]; int64_t calls[CB_NUM], allocs; { std::unique_ptr<Gen> b(x.g->peek()); b->seed_state(1); b->reverse = false; CbCtl saved = *b->ctl; uint64_t a0 = alloc_stats().total, st0 = steps(); RealScope r; std::unique_ptr<Alg> a(Maker<U>::make(s.sh)); (*a)(*b, false); memcpy(base, b->tb, sizeof base); HarnessScope h; for (int k = 0; k < CB_NUM; k++) calls[k] = b->ctl->calls[k] - saved.calls[k]; allocs = (int64_t)(alloc_stats().total - a0); set_step_cap(20 * (steps() - st0) + 40000000); saved.live = b->ctl->live; *b->ctl = saved; }
        SimBuf sb; int sf = (int)it.gi("sf"); int64_t sa = it.gi("sa");
        if (sf == 1) sb.fail_at = 1 + sa % 40; else if (sf == 2) sb.limit = sa; else if (sf == 3) sb.throw_at = 1 + sa % 40; else if (sf == 4) sb.chunk = 1 + sa % 5;
        std::cout.clear(); std::cout.rdbuf(&sb); std::ios::fmtflags ff = std::cout.flags(); char fc = std::cout.fill();
        if (it.gi("fmt")) { std::cout.flags(std::ios::hex | std::ios::left | std::ios::showbase | std::ios::showpos | std::ios::uppercase); std::cout.fill('*'); std::cout.width(11); }
        if (sf == 5) std::cout.setstate(std::ios::failbit);
        if (sf == 6) { sb.fail_at = 1 + sa % 40; std::cout.exceptions(std::ios::badbit); }
        bool ok = true; std::string why; poison_stack(it.gx("x", 7));
        if (have_fault) {      // "fr": at this share (permille) of what an undisturbed search does
            have_fault = false; bool oom = fault.gs("kind") == "oom"; int64_t total = oom ? allocs : calls[fault.gi("cb")], at = fault.has("fr") ? fault.gi("fr") * total / 1000 : fault.gi("at");
            if (oom) alloc_fail_at(1 + at); else e.ctl.arm((int)fault.gi("cb"), 1 + at, 6); if (fault.has("fr") && fault.gi("fr") >= 200) count("interruptions_midway");
        }
        try { RealScope r; (*s.a)(*x.g, verbose); } catch (const SimFault&) { ok = false; why = "fault"; } catch (const std::bad_alloc&) { ok = false; why = "bad_alloc"; } catch (const std::ios_base::failure&) { ok = false; why = "stream"; SIM_REQUIRE(sf == 6); }
        e.ctl.disarm(); alloc_off(); std::cout.exceptions(std::ios::goodbit); std::cout.clear(); std::cout.rdbuf(&quiet); std::cout.flags(ff); std::cout.fill(fc); std::cout.width(0);
        std::string tbs; for (int i = 0; i < 4; i++) tbs += strf("%s%" PRIx64, i ? "," : "", (uint64_t)x.g->tb[i]);
        log(strf("search g%d s%d v%d ", (int)it.gi("g"), (int)it.gi("s"), verbose) + (ok ? tbs : why)); describe(strf(" search%d%s%s", (int)it.gi("s"), verbose ? "v" : "", ok ? "" : "!"));
        if (x.g->poly() != poly) violation("temper/recursion-changed", "a tempering search changed the recursion");
        if (!ok) { failed++; s.used++; count("interrupted_searches"); if (x.g->zero_state()) x.g->seed_state(1); continue; }
        done++; if (s.used++) { reused++; } if (verbose) count("verbose_searches"); if (startrev) count("searches_started_reversed"); if (s.sh.best) count("best_bits_searches"); else if (s.sh.lsb) count("lsb_searches"); else count("msb_searches");
        if (e.cfg.latched) count("latched_tables");
        if (x.g->reverse) violation("temper/output-mode", "the generator is left in reversed output mode");
        if (memcmp(x.g->lt, x.g->tb, sizeof x.g->tb) != 0) violation("temper/stale-tables", "the generator's output does not use the tempering parameters it carries (setUpTempering was not called after the last change)");
        if (memcmp(base, x.g->tb, sizeof base) != 0) { std::string b; for (int i = 0; i < 4; i++) b += strf("%s%" PRIx64, i ? "," : "", (uint64_t)base[i]); violation("temper/history-dependent", "n=" + strf("%d", e.cfg.n) + ": ends with " + tbs + ", but a new search object on an equal generator in its initial state ends with " + b); }
        int upto = s.sh.best ? s.sh.bits : (int)W;
        if (!s.sh.best) {
            U m = 0; for (int b = 0; b < s.sh.bits; b++) m |= (U)1 << (s.sh.lsb ? b : W - 1 - b);
            for (int i = 0; i < 4; i++) { U allowed = i < s.sh.params ? m : 0; if ((x.g->tb[i] ^ start[i]) & ~allowed) violation("temper/outside-range", strf("tempering parameter %d went from %" PRIx64 " to %" PRIx64 ", searched bits %" PRIx64, i, (uint64_t)start[i], (uint64_t)x.g->tb[i], (uint64_t)allowed)); }
        }
        std::unique_ptr<Gen> r(x.g->peek()); int n = e.cfg.n; int fin = defect(ref_kv(*r, n, s.sh.lsb, upto), n, upto);
        std::vector<std::vector<std::pair<int, int> > > alts = last_group(s.sh, W); std::vector<std::pair<int, int> > gb = group_bits(alts); U cur[4]; memcpy(cur, x.g->tb, sizeof cur); size_t lim = n > 64 ? 4 : 64, k = 0;
        for (auto& a : alts) {
            if (k++ >= lim) break;
            U t[4]; memcpy(t, cur, sizeof t); for (auto& b : gb) t[b.first] &= ~((U)1 << b.second); for (auto& b : a) t[b.first] |= (U)1 << b.second;
            for (int i = 0; i < 4; i++) r->set_tb(i, t[i]);
            int d = defect(ref_kv(*r, n, s.sh.lsb, upto), n, upto); count("alternatives_compared");
            if (d < fin) violation("temper/not-best", strf("n=%d: the search ended with total defect %d (parameters ", n, fin) + tbs + strf("), an alternative of its last group (%" PRIx64 ",%" PRIx64 ",%" PRIx64 ") has %d", (uint64_t)t[0], (uint64_t)t[1], (uint64_t)t[2], d));
        }
        if (!s.sh.best) { for (int i = 0; i < 4; i++) r->set_tb(i, start[i]); int d = defect(ref_kv(*r, n, s.sh.lsb, upto), n, upto); if (fin > d) violation("temper/worse-than-start", strf("n=%d: total defect %d before, %d after", n, d, fin)); if (fin < d) count("searches_that_improved"); }
        sig(mix((uint64_t)fin, hash_str(tbs)));
    }
    std::cout.rdbuf(old);
    ss.clear(); for (auto& x : gs) x.g.reset();
    count("searches", done); count("reused_search_objects", reused); if (done && (reused || failed || done > 1)) nontrivial();
}
void body(const Plan& p) { if (p.cfg().gi("w") == 64) go<uint64_t>(p); else go<uint32_t>(p); }
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C07"; p.seed = seed; Rng r(seed); int w = r.chance(0.5) ? 32 : 64; p.add("cfg").i("w", w).x("fill", r.next());
    int G = r.chance(0.5) ? 2 : 1, A = r.chance(0.5) ? 2 : 1; int maxn = r.chance(0.8) ? 40 : thorough ? 127 : 64; bool half = r.chance(0.05);
    for (int i = 0; i < G; i++) { Item g = gen_lin_item(r, "gen", half ? 64 : maxn, false, true); for (int z = 0; half && z < 20 && g.gi("n") < 38; z++) g = gen_lin_item(r, "gen", 64, false, true); g.i("latched", (int64_t)r.below(2)); p.items.push_back(g); }
    for (int i = 0; i < A; i++) { Item& a = p.add("alg"); if (half) a.s("kind", "pb").i("variant", 8).i("lsb", r.chance(0.8)); else if (r.chance(0.4)) a.s("kind", "best").i("params", r.range(1, 2)).i("bits", r.range(1, 6)).i("sh0", r.range(1, 16)).i("sh1", r.range(1, 16)); else a.s("kind", "pb").i("variant", r.chance(0.06) ? 6 + (int64_t)r.below(2) : (int64_t)r.below(6)).i("lsb", (int64_t)r.below(2)); }
    static const char* M[] = {"run", "reseed", "retemper", "retemper", "reverse", "reverse", "reparam"}; static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_GENERATE_BITS, CB_SETZERO, CB_TEMPER, CB_SETUPTEMPER, CB_REVERSE};
    int ops = (int)r.range(3, 9); double pf = r.chance(0.4) ? 0 : 0.3, pv = r.chance(0.3) ? 0 : 0.5;
    for (int o = 0; o < ops; o++) {
        int x = (int)r.below(100);
        if (x < 45) p.add("mess").i("g", (int64_t)r.below((uint64_t)G)).s("what", M[r.below(7)]).x("v", r.next());
        else if (x < 50) p.add("newalg").i("s", (int64_t)r.below((uint64_t)A));
        else {
            bool faulty = false; int64_t alg = (int64_t)r.below((uint64_t)A);
            if (r.chance(pf)) { Item& f = p.add("fault"); int cb = CB[r.below(8)]; if (r.chance(0.35)) f.s("kind", "oom").i("at", r.range(0, 600)); else f.s("kind", "cb").i("cb", cb).i("at", cb == CB_REVERSE ? r.range(0, 1) : cb == CB_TEMPER || cb == CB_SETUPTEMPER ? r.range(0, 20) : r.range(0, 400)); if (r.chance(0.7)) f.i("fr", r.range(0, 1050)); faulty = true; }
            Item& s = p.add("search"); s.i("g", (int64_t)r.below((uint64_t)G)).i("s", alg); if (r.chance(pv)) s.i("v", 1); if (r.chance(0.5)) s.i("sf", r.range(1, 6)).i("sa", r.range(0, 300)); if (r.chance(0.3)) s.i("fmt", 1); s.x("x", r.next());
            if (faulty && r.chance(0.6)) p.add("search").i("g", (int64_t)r.below((uint64_t)G)).i("s", alg).x("x", r.next());      // the same object again, perhaps on another generator
        }
    }
    for (int g = 0; g < G; g++) p.add("search").i("g", g).i("s", (int64_t)r.below((uint64_t)A)).i("v", (int64_t)r.below(2)).x("x", r.next());
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C07"; p.rule = "A run uses one or two tempering search objects (partial bit patterns from either end, best bits; nine shapes, three of them beyond half of the word) again and again on one or two maximal-period generators (4..127 state bits, two tempering models, tables that take effect at once or only when set up) while the caller runs, reseeds, re-tempers, reverses and re-parametrises them, the diagnostic stream fails, fills up, throws or is already bad, and searches are interrupted in allocations, generator operations or the stream. Non-trivial: a search with a reused object, after a failure, or a second search.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"at", "sa"};
    p.real_components = {"AlgorithmPartialBitPattern", "AlgorithmBestBits", "AlgorithmEquidistribution", "NTL", "std::cout formatting"}; p.stub_components = {"generator", "stream buffer behind std::cout", "allocator"};
    p.quick_runs = 2500; p.thorough_runs = 100000;
    p.required = {"searches", "reused_search_objects", "interrupted_searches", "interruptions_midway", "verbose_searches", "searches_started_reversed", "best_bits_searches", "lsb_searches", "msb_searches", "latched_tables", "whole_word_shapes", "beyond_half_shapes", "searches_that_improved", "fault.alloc_failure", "fault.callback_setTemperingPattern", "fault.stream_write_error", "fault.stream_full", "fault.stream_throw"};
    register_property(p);
} } reg;
}
