// C06: equidistribution analyses as snapshots, through histories of caller actions, other analyses and failures.
#include "env.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
using namespace sim;
namespace {
template <class U> struct LinK {
    typedef LinGen<U> Gen; enum { red = 0 };
    static std::shared_ptr<Env> env(const Item& it) { return make_lin_env(it, (int)sizeof(U) * 8); }
    struct An { MTToolBox::AlgorithmEquidistribution<U> a; An(const Gen& g, Env& e, int bl) : a(g, bl, 0) { (void)e; } };
    static bool good(const Candidate& c) { return c.tag == "prim"; }
};
template <class U> struct RedK {
    typedef RedGen<U> Gen; enum { red = 1 };
    static std::shared_ptr<Env> env(const Item& it) { return make_red_env(it, (int)sizeof(U) * 8); }
    struct An { MTToolBox::AlgorithmReducibleEquidistribution<U, Gen> a; An(const Gen& g, Env& e, int bl) : a(g, ntl_of(e.fac[(size_t)g.cand]), bl, e.cfg.mexp) {} };
    static bool good(const Candidate& c) { return c.tag.compare(0, 2, "ok") == 0; }
};
std::string join(const std::vector<int>& v) { std::string s; for (int x : v) s += strf("%s%d", s.empty() ? "" : " ", x); return s; }

template <class K> void go(const Plan& p) {
    typedef typename K::Gen Gen; HarnessScope hs; Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); set_step_cap(1500000000ULL);
    struct G { std::shared_ptr<Env> e; std::unique_ptr<Gen> g; };
    struct A { std::unique_ptr<typename K::An> a; int bl; std::vector<int> want; int n; size_t g; uint64_t interfered; };
    std::vector<Item> gi = p.of("gen"); SIM_REQUIRE(!gi.empty()); std::vector<G> gs(gi.size()); std::map<int, A> as; int W = Gen::W;
    auto pick_good = [&](G& x, uint64_t v) { std::vector<int> ok; for (size_t i = 0; i < x.e->cfg.pool->c.size(); i++) if (K::good(x.e->cfg.pool->c[i])) ok.push_back((int)i); SIM_REQUIRE(!ok.empty()); x.g->choose((uint64_t)ok[v % ok.size()]); };
    auto sane = [&](G& x) {   // a state with a long-period part
        if (x.g->zero_state()) { x.g->seed_state(1); return; }
        if (K::red) { ref::Poly s = ref::mulmod(x.g->state_poly(), ref::quo(x.g->poly(), x.e->fac[(size_t)x.g->cand]), x.g->poly()); if (s.zero()) x.g->seed_state(1); }
    };
    for (size_t i = 0; i < gs.size(); i++) { gs[i].e = K::env(gi[i]); gs[i].g.reset(new Gen(gs[i].e->cfg, &gs[i].e->ctl, 0)); pick_good(gs[i], gi[i].gx("ss")); gs[i].g->seed_state((typename std::decay<decltype(gs[i].g->parity)>::type)gi[i].gx("st0", 1)); sane(gs[i]); }
    describe(strf(" n=%d W=%d", gs[0].e->cfg.n, W)); Item fault; bool have_fault = false; uint64_t queries = 0, interfered = 0, failed = 0;
    auto arm = [&](Env& e) { if (!have_fault) return; have_fault = false; if (fault.gs("kind") == "oom") alloc_fail_at(1 + fault.gi("at")); else e.ctl.arm((int)fault.gi("cb"), 1 + fault.gi("at"), 5); };
    for (auto& it : p.items) {
        if (it.kind == "fault") { fault = it; have_fault = true; continue; }
        G& x = gs[(size_t)it.gi("g") % gs.size()]; Env& e = *x.e; 
        if (it.kind == "mess") {
            std::string w = it.gs("what"); uint64_t v = it.gx("v", 1);
            for (auto& q : as) q.second.interfered++;
            if (w == "destroy") { x.g.reset(); x.g.reset(new Gen(e.cfg, &e.ctl, 0)); pick_good(x, v); x.g->seed_state((typename std::decay<decltype(x.g->parity)>::type)v); }
            else if (w == "run") { RealScope r; for (uint64_t i = 0; i < v % 50; i++) x.g->generate(); }
            else if (w == "reseed") { RealScope r; x.g->seed((typename std::decay<decltype(x.g->parity)>::type)v); }
            else if (w == "retemper") { Rng r(v); for (int i = 0; i < 4; i++) x.g->set_tb(i, r.chance(0.3) ? 0 : (typename std::decay<decltype(x.g->parity)>::type)r.next()); }
            else if (w == "reverse") { RealScope r; if (x.g->isReverseOutput()) x.g->resetReverseOutput(); else x.g->setReverseOutput(); }
            else if (w == "reparam") { pick_good(x, v); }
            sane(x); count("caller_" + w); log("mess " + w); continue;
        }
        if (it.kind == "make") {
            int id = (int)it.gi("a"); int bl = (int)it.gi("bl", 8); bl = std::max(1, std::min(bl, W));
            as.erase(id); std::string before = x.g->snapshot();
            A a; a.bl = bl; a.g = (size_t)it.gi("g") % gs.size(); a.interfered = 0; a.n = K::red ? e.cfg.mexp : e.cfg.n;
            a.want = ref_kv(*x.g, a.n, x.g->reverse, bl, K::red ? &e.fac[(size_t)x.g->cand] : 0);
            bool ok = true; std::string why; arm(e);
            try { RealScope r; a.a.reset(new typename K::An(*x.g, e, bl)); } catch (const SimFault&) { ok = false; why = "fault"; } catch (const std::bad_alloc&) { ok = false; why = "bad_alloc"; }
            e.ctl.disarm(); alloc_off();
            log(strf("make a%d bl=%d %s", id, bl, ok ? "ok" : why.c_str())); describe(strf(" make%d(bl%d)%s", id, bl, ok ? "" : "!"));
            if (x.g->snapshot() != before) violation("equi/changed-generator", "constructing an analysis changed the caller's generator");
            for (auto& q : as) q.second.interfered++;
            if (ok) as[id] = std::move(a); else failed++;
            sig(mix((uint64_t)bl, ok)); continue;
        }
        if (it.kind == "drop") { as.erase((int)it.gi("a")); continue; }
        if (it.kind == "query") {
            int id = (int)it.gi("a"); auto f = as.find(id); if (f == as.end()) continue; A& a = f->second; Env& ae = *gs[a.g].e;
            std::vector<std::string> before; for (auto& q : gs) before.push_back(q.g->snapshot());
            std::vector<int> buf((size_t)a.bl + 2, -77777); int ret = 0, sum = -77777; bool all = it.gi("all", 1) != 0; bool ok = true; std::string why; arm(ae);
            try { RealScope r; if (all) ret = a.a->a.get_all_equidist(&buf[1]); else ret = a.a->a.get_equidist(&sum); }
            catch (const SimFault&) { ok = false; why = "fault"; } catch (const std::bad_alloc&) { ok = false; why = "bad_alloc"; }
            catch (const std::exception& x) { violation("equi/exception", std::string("analysis failed: ") + x.what()); } catch (std::exception* x) { violation("equi/exception", std::string("analysis failed: ") + x->what()); }
            ae.ctl.disarm(); alloc_off();
            for (size_t i = 0; i < gs.size(); i++) if (gs[i].g->snapshot() != before[i]) violation("equi/changed-generator", "a query changed a caller's generator");
            for (auto& q : as) if (q.first != id) q.second.interfered++;
            if (!ok) { failed++; log(strf("query a%d %s", id, why.c_str())); describe(strf(" query%d!", id)); as.erase(id); continue; }
            queries++; if (a.interfered) interfered++;
            if (all) {
                std::vector<int> got(buf.begin() + 1, buf.begin() + 1 + a.bl); int want = defect(a.want, a.n, a.bl);
                log(strf("query a%d all -> %d: ", id, ret) + join(got)); describe(strf(" query%d=%d", id, ret));
                if (buf[0] != -77777 || buf[(size_t)a.bl + 1] != -77777) violation("equi/overrun", "entries outside the result array were written");
                if (got != a.want) violation("equi/dimension", strf("n=%d bit length %d: reported k = ", a.n, a.bl) + join(got) + " reference k = " + join(a.want));
                if (ret != want) violation("equi/defect", strf("n=%d bit length %d: reported total defect %d, reference %d", a.n, a.bl, ret, want));
            } else {
                int want = defect(a.want, a.n, a.bl - 1); log(strf("query a%d one -> %d sum %d", id, ret, sum)); describe(strf(" query%d=%d/%d", id, ret, sum));
                if (ret != a.want[(size_t)a.bl - 1]) violation("equi/dimension", strf("n=%d: reported k(%d) = %d, reference %d", a.n, a.bl, ret, a.want[(size_t)a.bl - 1]));
                if (sum != want) violation("equi/defect", strf("n=%d: reported sum of defects below %d is %d, reference %d", a.n, a.bl, sum, want));
            }
            sig(mix((uint64_t)ret, hash_str(join(a.want)))); as.erase(id);
        }
    }
    as.clear(); for (auto& x : gs) x.g.reset();
    count("queries", queries); count("queries_after_interference", interfered); count("failed_operations", failed);
    if (queries && interfered) nontrivial();
}
void body(const Plan& p) {
    Item c = p.cfg(); bool w64 = c.gi("w") == 64;
    if (c.gs("kind") == "red") { if (w64) go<RedK<uint64_t> >(p); else go<RedK<uint32_t> >(p); } else { if (w64) go<LinK<uint64_t> >(p); else go<LinK<uint32_t> >(p); }
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C06"; p.seed = seed; Rng r(seed); int w = r.chance(0.5) ? 32 : 64; bool red = r.chance(0.45);
    p.add("cfg").s("kind", red ? "red" : "lin").i("w", w).x("fill", r.next());
    int G = r.chance(0.4) ? 2 : 1; int maxn = r.chance(0.75) ? 64 : thorough && r.chance(0.1) ? 521 : 127;
    for (int i = 0; i < G; i++) { Item g = red ? gen_red_item(r, "gen", maxn, w, true) : gen_lin_item(r, "gen", maxn, false, true); g.x("st0", r.next()); if (red && r.chance(0.35)) g.i("comp", 1); p.items.push_back(g); }
    int ops = (int)r.range(4, 14), live = 0; (void)live; double pf = r.chance(0.4) ? 0 : 0.15;
    static const char* M[] = {"run", "reseed", "retemper", "retemper", "reverse", "destroy", "reparam"};
    static const int CB[] = {CB_CLONE, CB_COPY, CB_ADD, CB_GENERATE_BITS, CB_SETZERO, CB_GENERATE};
    for (int o = 0; o < ops; o++) {
        int x = (int)r.below(100); int a = (int)r.below(3);
        if (r.chance(pf)) { Item& f = p.add("fault"); if (r.chance(0.4)) f.s("kind", "oom").i("at", r.range(0, 90)); else f.s("kind", "cb").i("cb", CB[r.below(6)]).i("at", r.chance(0.5) ? r.range(0, 40) : r.range(0, 600)); }
        int bl = r.chance(0.25) ? w : r.chance(0.15) ? 1 : (int)r.range(1, w); if (maxn >= 521) bl = std::min(bl, 12);
        if (x < 35 || o == 0) p.add("make").i("g", (int64_t)r.below((uint64_t)G)).i("a", a).i("bl", bl);
        else if (x < 62) p.add("mess").i("g", (int64_t)r.below((uint64_t)G)).s("what", M[r.below(7)]).x("v", r.next());
        else if (x < 96) p.add("query").i("a", a).i("all", (int64_t)(r.below(3) != 0));
        else p.add("drop").i("a", a);
    }
    for (int a = 0; a < 3; a++) p.add("query").i("a", a).i("all", (int64_t)(r.below(3) != 0));
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C06"; p.rule = "A run makes up to three analyses at a time over one or two generators (maximal period, or reducible with a long-period component; sizes 4..127, thorough up to 521; 32 and 64 bit; random output maps, tempering, states and output modes) and interleaves them with the caller running, reseeding, re-tempering, reversing, re-parametrising and destroying its generators, other analyses advancing, dropped analyses, and analyses failing inside construction or query. Reference: rank of 2n output words captured at construction. Non-trivial: at least one analysis queried after interference.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); }; p.shrink_keys = {"bl", "at"};
    p.real_components = {"AlgorithmEquidistribution", "AlgorithmReducibleEquidistribution", "annihilate", "calcCharacteristicPolynomial", "minpoly", "NTL"}; p.stub_components = {"generator (companion recursion with chosen polynomial and output map)", "allocator"};
    p.quick_runs = 50000; p.thorough_runs = 300000;
    p.required = {"queries", "queries_after_interference", "failed_operations", "caller_run", "caller_reseed", "caller_retemper", "caller_reverse", "caller_destroy", "caller_reparam", "fault.alloc_failure", "fault.callback_add", "fault.callback_clone", "fault.callback_generate_bits"};
    register_property(p);
} } reg;
}
