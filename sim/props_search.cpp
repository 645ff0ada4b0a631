// C02, C03, C04: histories of budgeted, interruptible searches.
#include "env.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace sim;
namespace {
struct Flags { bool truth; const char* id; };

template <class U> struct LinKind {
    typedef LinGen<U> Gen;
    static std::shared_ptr<Env> env(const Item& it) { return make_lin_env(it, (int)sizeof(U) * 8); }
    struct Search {
        std::unique_ptr<MTToolBox::AlgorithmRecursionSearch<U> > s;
        Search(Gen& g, SimSource& src, const MTToolBox::AlgorithmPrimitivity* ap) {
            HarnessScope h;
            if (ap) s.reset(new MTToolBox::AlgorithmRecursionSearch<U>(g, src, *ap)); else s.reset(new MTToolBox::AlgorithmRecursionSearch<U>(g, src));
        }
        bool start(int b) { return s->start(b); }
        long count() { return s->getCount(); }
        std::string polys() { HarnessScope h; return poly_str(s->getMinPoly()); }
        std::string params() { return s->getParamString(); }
    };
    static std::string expect(const Gen& g, const Env& e, bool* accept) {
        HarnessScope h; ref::Poly p = g.poly(); *accept = is_maximal(p, e.cfg.n); return p.str();
    }
};
template <class U> struct RedKind {
    typedef RedGen<U> Gen;
    static std::shared_ptr<Env> env(const Item& it) { return make_red_env(it, (int)sizeof(U) * 8); }
    struct Search {
        std::unique_ptr<MTToolBox::AlgorithmReducibleRecursionSearch<U> > s;
        Search(Gen& g, SimSource& src, const MTToolBox::AlgorithmPrimitivity*) { HarnessScope h; s.reset(new MTToolBox::AlgorithmReducibleRecursionSearch<U>(g, src)); }
        bool start(int b) { return s->start(b); }
        long count() { return s->getCount(); }
        std::string polys() { HarnessScope h; return poly_str(s->getCharacteristicPolynomial()) + "/" + poly_str(s->getIrreducibleFactor()); }
        std::string params() { return s->getParamString(); }
    };
    static std::string expect(const Gen& g, const Env& e, bool* accept) {
        HarnessScope h; ref::Poly mp = output_minpoly(g, 0, e.cfg.n); int many = 0;
        ref::Poly f = ref::factor_of_degree(mp, e.cfg.mexp, &many); *accept = many >= 1;
        return mp.str() + "/" + f.str();
    }
};

struct Stream {       // one search object and its environment
    std::shared_ptr<Env> e;
};

template <class K> void run_history(const Plan& p, const Flags& fl) {
    typedef typename K::Gen Gen;
    Item c = p.cfg();
    alloc_set_fill(2, c.gx("fill", 1)); poison_stack(c.gx("fill", 1));
    std::vector<Item> gens = p.of("gen"), steps = p.items;
    SIM_REQUIRE(!gens.empty());
    struct One { std::shared_ptr<Env> e; std::unique_ptr<Gen> g; std::unique_ptr<typename K::Search> s; long completed; size_t seen; };
    std::vector<One> all(gens.size());
    std::unique_ptr<MTToolBox::AlgorithmPrimitivity> ap; int apn = 0;
    for (size_t i = 0; i < gens.size(); i++) {
        HarnessScope h;
        One& o = all[i]; o.e = K::env(gens[i]); o.completed = 0; o.seen = 0;
        o.g.reset(new Gen(o.e->cfg, &o.e->ctl, &o.e->clog)); o.e->src->ctl = &o.e->ctl;
        if (!o.e->mersenne && !ap) {
            // the list is handed over in buffers the caller scribbles over afterwards
            std::vector<std::vector<char> > bufs; std::vector<const char*> ptr;
            for (auto& s : o.e->list) { bufs.push_back(std::vector<char>(s.begin(), s.end())); bufs.back().push_back(0); }
            for (auto& b : bufs) ptr.push_back(&b[0]); ptr.push_back(0);
            ap.reset(new MTToolBox::AlgorithmPrimitivity(&ptr[0])); apn = o.e->cfg.n;
            if (c.gi("scribble", 0)) { for (auto& b : bufs) for (size_t k = 0; k + 1 < b.size(); k++) b[k] = '7'; for (auto& q : ptr) q = 0; }
        }
        SIM_REQUIRE(o.e->mersenne || apn == o.e->cfg.n);
        o.s.reset(new typename K::Search(*o.g, *o.e->src, o.e->mersenne ? 0 : ap.get()));
    }
    describe(strf(" %zu stream(s) n=%d", gens.size(), all[0].e->cfg.n) + " pool=" + gens[0].gs("pool").substr(0, 60) + " calls:");
    uint64_t interrupted = 0, accepted = 0, calls = 0, exhausted = 0;
    Item fault; bool have_fault = false;
    for (auto& st : p.items) {
        if (st.kind == "fault") { fault = st; have_fault = true; continue; }
        if (st.kind == "mess") {      // the caller uses its generator between calls
            One& o = all[(size_t)st.gi("g") % all.size()]; HarnessScope h;
            o.g->seed_state((typename std::decay<decltype(o.g->parity)>::type)st.gx("v", 3)); for (int k = 0; k < (int)st.gi("k", 3); k++) o.g->step_state();
            continue;
        }
        if (st.kind != "start") continue;
        size_t gi = (size_t)st.gi("g") % all.size(); One& o = all[gi]; Env& e = *o.e; CbCtl& k = e.ctl;
        int budget = (int)st.gi("b", 1);
        size_t cand0 = e.clog.size(), tok0 = e.src->tokens.size(); (void)tok0;
        k.disarm(); e.src->left = -1; e.src->fail_at = -1;
        bool armed = false;
        if (have_fault && (size_t)fault.gi("g", (int64_t)gi) % all.size() == gi) {
            std::string kind = fault.gs("kind"); armed = true;
            if (kind == "dry") e.src->left = fault.gi("at", 1) - 1;
            else if (kind == "src") { e.src->fail_at = e.src->served + fault.gi("at", 1); e.src->fail_id = 7; }
            else { int cb = (int)fault.gi("cb", CB_GENERATE); int64_t at = fault.gi("at", 1); if (cb == CB_GENERATE) at = 1 + at * (2 * e.cfg.n) / 8 + fault.gi("off", 0) % (2 * e.cfg.n); k.arm(cb, at, 8); }
            have_fault = false;
        }
        std::string outcome; bool ret = false, threw = false; calls++;
        try { ret = o.s->start(budget); outcome = ret ? "true" : "false"; }
        catch (const SimFault& x) { threw = true; outcome = strf("fault%d", x.id); }
        catch (const SourceDry&) { threw = true; outcome = "dry"; }
        catch (const std::exception& x) { threw = true; outcome = std::string("exception ") + x.what(); }
        k.disarm(); e.src->left = -1; e.src->fail_at = -1;
        (void)armed;
        size_t drawn = e.clog.size() - cand0; long before = o.completed;
        long done_now = (long)drawn - (threw && drawn > 0 ? 1 : 0);
        if (threw) interrupted++;
        o.completed += done_now;
        long cnt = o.s->count();
        log(strf("g%zu start(%d) -> %s drawn=%zu count=%ld", gi, budget, outcome.c_str(), drawn, cnt));
        describe(strf(" g%zu.start(%d)=%s", gi, budget, outcome.c_str()));
        // --- order: candidates consume the source strictly in sequence
        {
            HarnessScope h; std::vector<uint64_t> flat; for (auto& cl : e.clog) for (uint64_t d : cl.draws) flat.push_back(d);
            size_t slack = threw ? 1 : 0; (void)slack;
            if (flat != e.src->tokens) violation("search/order", strf("candidates do not consume the parameter source in order: %zu values drawn by candidates, %zu served", flat.size(), e.src->tokens.size()));
        }
        if ((int)drawn > std::max(budget, 0)) violation("search/over-budget", strf("start(%d) examined %zu candidates", budget, drawn));
        if (cnt != o.completed) violation("search/count", strf("after start(%d) -> %s the reported count is %ld, %ld candidates were completed (%ld before the call)", budget, outcome.c_str(), cnt, o.completed, before));
        if (!threw && !ret && (int)drawn != std::max(budget, 0)) violation("search/short", strf("start(%d) reported failure after %zu candidates", budget, drawn));
        if (ret && drawn == 0) violation("search/success-without-candidate", strf("start(%d) reported success without examining a candidate", budget));
        if (!threw && !ret) exhausted++; if (before <= 32767 && o.completed > 32767) count("counts_beyond_15_bits"); if (before <= 65535 && o.completed > 65535) count("counts_beyond_16_bits");
        // --- verdicts
        if (fl.truth) {
            size_t full = threw ? (drawn ? drawn - 1 : 0) : drawn;
            for (size_t q = 0; q < full; q++) {
                HarnessScope h; const CandLog& cl = e.clog[cand0 + q]; std::unique_ptr<Gen> tmp(o.g->peek()); tmp->set_poly(cl.p); bool acc = false; std::string want = K::expect(*tmp, e, &acc);
                bool last = ret && q + 1 == drawn;
                std::string tag = e.cfg.raw ? "raw" : cl.index >= 0 ? e.cfg.pool->c[(size_t)cl.index].tag : "?";
                count(std::string("cand.") + tag);
                if (acc && !last) violation("verdict/missed", strf("n=%d candidate %s (%s) qualifies but was passed over; expected %s", e.cfg.n, cl.p.str().c_str(), tag.c_str(), want.c_str()));
                if (!acc && last) violation("verdict/wrongly-accepted", strf("n=%d candidate %s (%s) was accepted but does not qualify; reference %s", e.cfg.n, cl.p.str().c_str(), tag.c_str(), want.c_str()));
                if (last) {
                    std::string got = o.s->polys();
                    if (got != want) violation("verdict/polynomial", "reported " + got + " expected " + want);
                    if (o.g->poly() != cl.p) violation("verdict/parameters", "the generator no longer carries the accepted parameters");
                }
            }
        }
        if (ret) {
            accepted++;
            HarnessScope h;
            const CandLog& cl = e.clog.back();
            std::string ps = o.s->params();
            if (ps.compare(0, cl.p.str().size() + 1, cl.p.str() + ",") != 0) violation("verdict/param-string", "parameter string " + ps.substr(0, 80) + " does not describe the accepted candidate " + cl.p.str());
        }
        sig(mix(drawn, hash_str(outcome))); sig((uint64_t)cnt);
    }
    for (auto& o : all) if (o.e->ctl.live != 1) violation("search/object-leak", strf("%" PRId64 " generator objects are alive instead of one", o.e->ctl.live));
    count("calls", calls); count("calls_interrupted", interrupted); count("calls_accepted", accepted); count("calls_exhausted", exhausted);
    if (fl.truth ? (accepted > 0 && calls > 1) : (calls > 1 && (interrupted > 0 || exhausted > 0) )) nontrivial();
}

Plan gen_plan(uint64_t seed, bool thorough, bool red, bool truth, const char* id) {
    Plan p; p.prop = id; p.seed = seed; Rng r(seed);
    int w = r.chance(0.5) ? 32 : 64;
    Item& c = p.add("cfg"); c.s("kind", red ? "red" : "lin").i("w", w).x("fill", r.next()).i("scribble", (int64_t)r.below(2));
    int streams = r.chance(0.35) ? 2 : 1; int maxn = truth ? (thorough ? 960 : 607) : 127;
    if (r.chance(0.6)) maxn = 64;
    Item first;
    for (int i = 0; i < streams; i++) {
        Item g = red ? gen_red_item(r, "gen", maxn, w, false) : gen_lin_item(r, "gen", maxn, false, false); if (red && r.chance(0.3)) g.i("comp", r.chance(0.3) ? 1 : 2);
        if (i == 0) first = g;
        else if (!red) {   // same size, so that one primitivity object serves both
            for (auto& kv : g.kv) { if (kv.first == "n") kv.second = first.gs("n"); if (kv.first == "pool" ) kv.second = first.gs("pool"); if (kv.first == "listrot") kv.second = "0"; }
        }
        // environment faults of the source itself
        static const int MODES[] = {SimSource::PRNG, SimSource::PRNG, SimSource::PRNG, SimSource::COUNTER, SimSource::CYCLE, SimSource::STUCK};
        for (auto& kv : g.kv) if (kv.first == "src") kv.second = strf("%d", MODES[r.below(6)]);
        p.items.push_back(g);
    }
    if (!truth && r.chance(thorough ? 0.005 : 0.0012)) {      // counts beyond what 15 or 16 bits hold
        p.items.resize(1); Item g = red ? gen_red_item(r, "gen", 7, w, false) : gen_lin_item(r, "gen", 8, false, false);
        for (int z = 0; z < 50 && g.gi("n") > 9; z++) g = red ? gen_red_item(r, "gen", 7, w, false) : gen_lin_item(r, "gen", 8, false, false);
        for (auto& kv : g.kv) { if (kv.first == "pool") kv.second = red ? "near,split" : "red,low"; if (kv.first == "src") kv.second = strf("%d", r.chance(0.5) ? SimSource::PRNG : SimSource::COUNTER); if (kv.first == "draws") kv.second = "1"; }
        p.items.push_back(g); long left = r.range(33000, 80000); p.add("long");
        while (left > 0) { long b = r.chance(0.3) ? left : r.range(1, 40000); p.add("start").i("g", 0).i("b", b); left -= b; }
        return p;
    }
    int big = (int)first.gi(red ? "m" : "n") > 300;
    int calls = big ? (int)r.range(1, 3) : (int)r.range(2, truth ? 10 : 16);
    double pf = r.chance(0.3) ? 0 : 0.15 + 0.05 * (double)r.below(6);
    for (int i = 0; i < calls; i++) {
        int g = (int)r.below((uint64_t)streams);
        if (r.chance(pf)) {
            Item& f = p.add("fault"); f.i("g", g);
            switch (r.below(3)) {
            case 0: f.s("kind", "dry").i("at", r.range(1, 6)); break;
            case 1: f.s("kind", "src").i("at", r.range(1, 6)); break;
            default: { static const int CB[] = {CB_GENERATE, CB_GENERATE, CB_SEED, CB_SETUP}; f.s("kind", "cb").i("cb", CB[r.below(4)]).i("at", r.range(0, 12)).i("off", (int64_t)r.below(200)); break; }
            }
            if (f.gs("kind") == "cb" && f.gi("cb") != CB_GENERATE && f.gi("at") == 0) f.kv[f.kv.size() - 2].second = "1";
        }
        if (r.chance(0.2)) p.add("mess").i("g", g).x("v", 2 + r.below(1000)).i("k", r.range(0, 5));
        int b = r.chance(0.08) ? 0 : r.chance(0.5) ? (int)r.range(1, 3) : (int)r.range(4, big ? 8 : 40);
        p.add("start").i("g", g).i("b", b);
    }
    return p;
}
void body(const Plan& p, const Flags& fl) {
    Item c = p.cfg(); set_step_cap(100000000ULL);
    bool red = c.gs("kind") == "red", w64 = c.gi("w") == 64;
    if (red) { if (w64) run_history<RedKind<uint64_t> >(p, fl); else run_history<RedKind<uint32_t> >(p, fl); }
    else { if (w64) run_history<LinKind<uint64_t> >(p, fl); else run_history<LinKind<uint32_t> >(p, fl); }
}
Property make(const char* id, const char* rule) {
    Property p; p.id = id; p.rule = rule;
    p.shrink_keys = {"b", "at", "k", "off", "scribble"};
    p.stub_components = {"generator (companion recursion with chosen polynomial)", "parameter source"};
    return p;
}
struct Reg { Reg() {
    {
        Property p = make("C02", "A run is a history of budgeted start() calls on one or two interleaved search objects with source exhaustion, source errors and generator errors placed inside calls; non-trivial: at least two calls and at least one exhausted or interrupted.");
        p.real_components = {"AlgorithmRecursionSearch", "AlgorithmReducibleRecursionSearch", "minpoly", "AlgorithmPrimitivity", "hasFactorOfDegree", "NTL"};
        p.generate = [](uint64_t s, bool t) { Rng r(s ^ 0x55); bool red = r.chance(0.5); return gen_plan(s, t, red, false, "C02"); };
        Flags f = {false, "C02"}; p.evaluate = [f](const Plan& q) { return simple_eval(q, [f](const Plan& x) { body(x, f); }); };
        p.quick_runs = 40000; p.thorough_runs = 200000;
        p.required = {"calls_interrupted", "calls_accepted", "calls_exhausted", "fault.source_exhausted", "fault.source_error", "fault.callback_generate", "fault.callback_seed", "fault.source_stuck", "counts_beyond_15_bits", "counts_beyond_16_bits"};
        register_property(p);
    }
    {
        Property p = make("C03", "A run delivers candidate streams (random, counter, cyclic or stuck sources over pools mixing primitive, irreducible of order (2^n-1)/q, reducible, short and degenerate recursions; state sizes 4..960) to budgeted searches with interruptions; the verdict on every examined candidate is compared with an independent GF(2) reference; non-trivial: at least two calls and one acceptance.");
        p.real_components = {"AlgorithmRecursionSearch", "minpoly", "AlgorithmPrimitivity", "isPrime", "prime factor lists", "NTL"};
        p.generate = [](uint64_t s, bool t) { return gen_plan(s, t, false, true, "C03"); };
        Flags f = {true, "C03"}; p.evaluate = [f](const Plan& q) { return simple_eval(q, [f](const Plan& x) { body(x, f); }); };
        p.quick_runs = 10000; p.thorough_runs = 100000;
        p.required = {"calls_accepted", "cand.prim", "cand.irr", "cand.red", "cand.low", "cand.sq", "cand.x", "cand.raw", "calls_interrupted"};
        register_property(p);
    }
    {
        Property p = make("C04", "A run delivers streams of reducible recursions (wanted factor times random, power-of-x, repeated or no small factors; near-miss degrees; larger irreducible factors; split factors) to budgeted searches with interruptions; the verdict, factor and characteristic polynomial of every examined candidate are compared with an independent GF(2) factorisation of the output's minimal polynomial; non-trivial: at least two calls and one acceptance.");
        p.real_components = {"AlgorithmReducibleRecursionSearch", "minpoly", "hasFactorOfDegree", "isIrreducible", "NTL"};
        p.generate = [](uint64_t s, bool t) { return gen_plan(s, t, true, true, "C04"); };
        Flags f = {true, "C04"}; p.evaluate = [f](const Plan& q) { return simple_eval(q, [f](const Plan& x) { body(x, f); }); };
        p.quick_runs = 40000; p.thorough_runs = 100000;
        p.required = {"calls_accepted", "cand.ok", "cand.okx", "cand.okm", "cand.okl", "cand.short", "cand.near", "cand.over", "cand.split", "calls_interrupted"};
        register_property(p);
    }
} } reg;
}
