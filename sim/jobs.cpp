#include "jobs.hpp"
#include <iostream>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/period.hpp>
#include <samples/RMT/rmt64.hpp>
#include <samples/TinyMTDC/tinymt32search.hpp>
namespace sim {
using namespace MTToolBox;
template <class T> static std::string cat(const T* v, int n) { HarnessScope h; std::string s; for (int i = 0; i < n; i++) s += strf("%s%lld", i ? "." : "", (long long)v[i]); return s; }
static std::string ps(const NTL::GF2X& p) { HarnessScope h; return poly_str(p); }

template <class U, bool RED> struct Base : Job {
    typedef typename std::conditional<RED, RedGen<U>, LinGen<U> >::type Gen; enum { W = sizeof(U) * 8 };
    Item it; std::shared_ptr<Env> e; std::unique_ptr<Gen> g; std::unique_ptr<AlgorithmPrimitivity> ap;
    Base(const Item& i) : it(i) {}
    ~Base() { HarnessScope h; g.reset(); e.reset(); ap.reset(); }
    CbCtl* ctl() override { return e ? &e->ctl : 0; }
    SimSource* source() override { return e ? e->src.get() : 0; }
    bool good(size_t i) { return RED ? !e->fac[i].zero() : e->cfg.pool->c[i].tag == "prim"; }
    void base_setup(bool choose_good) {
        HarnessScope h; out.clear(); g.reset(); e = RED ? make_red_env(it, W) : make_lin_env(it, W); e->cfg.latched = it.gi("latched") != 0;
        g.reset(new Gen(e->cfg, &e->ctl, 0)); e->src->ctl = &e->ctl;
        if (choose_good) {
            std::vector<int> ok; for (size_t i = 0; i < e->cfg.pool->c.size(); i++) if (good(i)) ok.push_back((int)i); SIM_REQUIRE(!ok.empty());
            g->choose((uint64_t)ok[it.gx("ss", 1) % ok.size()]); g->seed_state((U)it.gx("st0", 1)); if (it.gi("rev")) g->reverse = true;
            Rng r(it.gx("st0", 1)); for (int i = 0; i < 4; i++) g->set_tb(i, r.chance(0.5) ? 0 : (U)r.next());
            if (g->zero_state()) g->seed_state(1);
            if (RED) { ref::Poly s = ref::mulmod(g->state_poly(), ref::quo(g->poly(), e->fac[(size_t)g->cand]), g->poly()); if (s.zero()) g->seed_state(1); }
        }
        if (!RED && !e->mersenne && !ap) ap.reset(new AlgorithmPrimitivity(&e->clist[0]));
    }
    bool acceptable() {
        if (e->cfg.raw) return true;
        for (auto& cd : e->cfg.pool->c) {
            std::unique_ptr<Gen> q(g->peek()); q->set_poly(cd.p); ref::Poly mp = output_minpoly(*q, 0, e->cfg.n); int many = 0;
            if (RED) { ref::factor_of_degree(mp, e->cfg.mexp, &many); if (many) return true; } else if (is_maximal(mp, e->cfg.n)) return true;
        }
        return false;
    }
    std::string snap() { HarnessScope h; return g->snapshot(); }
    void say_gen() { HarnessScope h; out += g->param_text() + (g->reverse ? " R" : " N") + strf(" %" PRIx64 " ", (uint64_t)g->parity); }
};
template <class U> struct RsJob : Base<U, false> {
    typedef Base<U, false> B; using B::B;
    void setup() override { B::base_setup(false); }
    void op(const JobIO&) override {
        std::unique_ptr<AlgorithmRecursionSearch<U> > s;
        { if (B::e->mersenne) s.reset(new AlgorithmRecursionSearch<U>(*B::g, *B::e->src)); else s.reset(new AlgorithmRecursionSearch<U>(*B::g, *B::e->src, *B::ap)); }
        for (int k = 0; k < (int)B::it.gi("calls", 3); k++) { bool r = s->start((int)B::it.gi("b", 4)); B::say(strf("%d/%ld", (int)r, (long)s->getCount())); if (r) { B::say(ps(s->getMinPoly())); B::say_gen(); } }
    }
};
template <class U> struct RrsJob : Base<U, true> {
    typedef Base<U, true> B; using B::B;
    void setup() override { B::base_setup(false); }
    void op(const JobIO&) override {
        AlgorithmReducibleRecursionSearch<U> s(*B::g, *B::e->src);
        for (int k = 0; k < (int)B::it.gi("calls", 3); k++) { bool r = s.start((int)B::it.gi("b", 4)); B::say(strf("%d/%ld", (int)r, (long)s.getCount())); if (r) { B::say(ps(s.getIrreducibleFactor())); B::say(ps(s.getCharacteristicPolynomial())); B::say_gen(); } }
    }
};
template <class U> struct TemperSet {
    enum { W = sizeof(U) * 8 }; std::unique_ptr<AlgorithmTempering<U> > a, b;
    TemperSet(int v) {
        static const int sh[2] = {7, 11};
        switch (v % 5) {
        case 0: a.reset(new AlgorithmPartialBitPattern<U, W, 1, 4, 2>()); b.reset(new AlgorithmPartialBitPattern<U, W, 1, 4, 2, true>()); break;
        case 1: a.reset(new AlgorithmPartialBitPattern<U, W, 2, 3, 1>()); b.reset(new AlgorithmPartialBitPattern<U, W, 2, 2, 2, true>()); break;
        case 2: a.reset(new AlgorithmBestBits<U>(W, sh, 2, 2)); b.reset(new AlgorithmPartialBitPattern<U, W, 1, 3, 3, true>()); break;
        case 3: a.reset(new AlgorithmPartialBitPattern<U, W, 1, 5, 3, true>()); b.reset(new AlgorithmPartialBitPattern<U, W, 1, 2, 2, true>()); break;
        default: a.reset(new AlgorithmBestBits<U>(W, sh, 1, 4)); b.reset(new AlgorithmPartialBitPattern<U, W, 1, 4, 4, true>()); break;
        }
    }
};
template <class U> struct TemperJob : Base<U, false> {
    typedef Base<U, false> B; using B::B;
    void setup() override { B::base_setup(true); }
    void op(const JobIO& io) override { TemperSet<U> t((int)B::it.gi("alg")); (*t.a)(*B::g, io.verbose); B::say_gen(); B::say(strf("lsb%d", (int)t.a->isLSBTempering())); }
};
template <class U> struct RtJob : Base<U, false> {
    typedef Base<U, false> B; using B::B;
    void setup() override { B::base_setup(false); HarnessScope h; if (!B::acceptable()) B::it.i("none", 1); }
    void op(const JobIO& io) override {
        if (B::it.has("none")) return;
        std::unique_ptr<AlgorithmRecursionAndTempering<U> > rt; if (B::e->mersenne) rt.reset(new AlgorithmRecursionAndTempering<U>(*B::e->src)); else rt.reset(new AlgorithmRecursionAndTempering<U>(*B::e->src, *B::ap));
        TemperSet<U> t((int)B::it.gi("alg"));
        for (int k = 0; k < (int)B::it.gi("rounds", 1); k++) {
            bool r = rt->search(*B::g, *t.a, *t.b, io.verbose, io.os ? *io.os : std::cout, B::it.gi("nolsb") != 0);
            B::say(strf("%d delta%d weight%d", (int)r, rt->getDelta(), rt->getWeight())); B::say(ps(rt->getCharacteristicPolynomial())); B::say_gen();
            HarnessScope h; for (int i = 0; i < 4; i++) B::g->set_tb(i, 0);
        }
    }
};
template <class U> struct RrtJob : Base<U, true> {
    typedef Base<U, true> B; using B::B;
    void setup() override { B::base_setup(false); HarnessScope h; if (!B::acceptable()) B::it.i("none", 1); }
    void op(const JobIO& io) override {
        if (B::it.has("none")) return;
        AlgorithmReducibleRecursionAndTempering<U, RedGen<U> > rt(*B::e->src); TemperSet<U> t((int)B::it.gi("alg"));
        try {
            bool r = rt.search(*B::g, *t.a, *t.b, io.verbose, io.os ? *io.os : std::cout, B::it.gi("nolsb") != 0);
            B::say(strf("%d delta%d parity%" PRIx64, (int)r, rt.getDelta(), (uint64_t)rt.getParity())); B::say(ps(rt.getIrreducibleFactor())); B::say_gen(); B::say(B::snap());
        } catch (const char*) { B::say("gave up"); }
    }
};
template <class U> struct EqJob : Base<U, false> {
    typedef Base<U, false> B; EqJob(const Item& i) : B(i) { B::repeatable = true; }
    void setup() override { B::base_setup(true); }
    std::string inputs() override { return B::snap(); }
    void op(const JobIO&) override {
        int bl = (int)B::it.gi("bl", 8); bl = std::min(bl, (int)B::W); const LinGen<U>& cg = *B::g; int veq[64];
        { AlgorithmEquidistribution<U> a(cg, bl); int d = a.get_all_equidist(veq); B::say(strf("total%d", d)); B::say(cat(veq, bl)); }
        { AlgorithmEquidistribution<U> a(cg, bl); int sum = 0; int k = a.get_equidist(&sum); B::say(strf("k%d sum%d", k, sum)); }
    }
};
template <class U> struct ReqJob : Base<U, true> {
    typedef Base<U, true> B; ReqJob(const Item& i) : B(i) { B::repeatable = true; } NTL::GF2X f;
    ~ReqJob() {}
    void setup() override { B::base_setup(true); HarnessScope h; f = ntl_of(B::e->fac[(size_t)B::g->cand]); }
    std::string inputs() override { return B::snap() + ps(f); }
    void op(const JobIO&) override {
        int bl = (int)B::it.gi("bl", 8); bl = std::min(bl, (int)B::W); const RedGen<U>& cg = *B::g; int veq[64];
        { AlgorithmReducibleEquidistribution<U, RedGen<U> > a(cg, f, bl, B::e->cfg.mexp); int d = a.get_all_equidist(veq); B::say(strf("total%d", d)); B::say(cat(veq, bl)); }
        { AlgorithmReducibleEquidistribution<U, RedGen<U> > a(cg, f, bl, B::e->cfg.mexp); int sum = 0; int k = a.get_equidist(&sum); B::say(strf("k%d sum%d", k, sum)); }
    }
};
template <class U> struct AnnJob : Base<U, true> {
    typedef Base<U, true> B; using B::B; NTL::GF2X f;
    void setup() override { B::base_setup(true); HarnessScope h; f = ntl_of(B::e->fac[(size_t)B::g->cand]); }
    std::string inputs() override { return ps(f); }
    void op(const JobIO&) override {
        NTL::GF2X lcm(0, 1); std::unique_ptr<RedGen<U> > w(new RedGen<U>(*B::g)); calcCharacteristicPolynomial(static_cast<ReducibleGenerator<U>*>(w.get()), lcm); B::say(ps(lcm));
        NTL::GF2X q = lcm / f; annihilate(static_cast<EquidistributionCalculatable<U>*>(B::g.get()), q); B::say(B::snap());
        annihilate(static_cast<EquidistributionCalculatable<U>*>(B::g.get()), f); B::say(B::g->isZero() ? "zero" : "nonzero");
    }
};
template <class U> struct ParJob : Base<U, true> {
    typedef Base<U, true> B; using B::B; NTL::GF2X f;
    void setup() override { B::base_setup(true); HarnessScope h; f = ntl_of(B::e->fac[(size_t)B::g->cand]); }
    std::string inputs() override { return ps(f); }
    void op(const JobIO&) override { AlgorithmCalculateParity<U, RedGen<U> > c; for (int k = 0; k < 2; k++) { U p = c.searchParity(*B::g, f); B::say(strf("%" PRIx64 " %" PRIx64, (uint64_t)p, (uint64_t)B::g->parity)); } }
};
template <class U> struct LinJob : Base<U, false> {
    typedef Base<U, false> B; LinJob(const Item& i) : B(i) { B::repeatable = true; }
    void setup() override { B::base_setup(true); }
    std::string inputs() override { return B::snap(); }
    void op(const JobIO&) override { TestLinearity<U> t; bool r1 = t(*B::g), r2 = t(*B::g); B::say(strf("%d%d", (int)r1, (int)r2)); }
};
// period and primitivity tests on polynomials and factor lists
struct PrimJob : Job {
    Item it; std::vector<NTL::GF2X> ps_; std::vector<std::string> list; std::vector<const char*> cl; int n; CbCtl k;
    PrimJob(const Item& i) : it(i) { repeatable = true; }
    void setup() override {
        HarnessScope h; out.clear(); ps_.clear(); list.clear(); cl.clear(); Rng r(it.gx("es", 1)); n = (int)it.gi("n", 24); if (ref::is_mexp(n)) n++;
        for (auto& f : ref::factors(n)) list.push_back(f.first); for (auto& s : list) cl.push_back(s.c_str()); cl.push_back(0);
        for (int i = 0; i < 6; i++) { ref::Poly p; switch (r.below(4)) { case 0: p = ref::random_irreducible(r, n); break; case 1: p = ref::random_poly(r, n, true); break; case 2: { int a = (int)r.range(1, n - 1); p = ref::mul(ref::random_irreducible(r, a), ref::random_irreducible(r, n - a)); break; } default: { do p = ref::random_irreducible(r, n); while (!ref::primitive(p)); } } ps_.push_back(ntl_of(p)); }
    }
    std::string inputs() override { HarnessScope h; std::string s; for (auto& p : ps_) s += poly_str(p) + ","; for (auto& l : list) s += l + ","; return s; }
    void op(const JobIO&) override {
        AlgorithmPrimitivity ap(&cl[0]);
        for (auto& p : ps_) {
            int a = ap(n, p), b = isPrime(p, n, &cl[0]), c = isIrreducible(p), d = isPrime(p), m = MersennePrimitivity(n, p);
            NTL::GF2X q = p; int f = hasFactorOfDegree(q, n / 2 + 1); say(strf("%d%d%d%d%d%d", a, b, c, d, m, f)); say(ps(q)); count_mexp(NTL::deg(p));
        }
    }
    void count_mexp(long d) { int c = 0; for (uint32_t i = 2; i <= (uint32_t)d; i++) c += isMexp(i); say(strf("m%d", c)); }
};
struct RandJob : Job {
    Item it; RandJob(const Item& i) : it(i) { repeatable = true; }
    void setup() override { HarnessScope h; out.clear(); }
    template <class S> void draw(S& s, const char* nm, int n) { uint64_t x = 1; for (int i = 0; i < n; i++) { uint64_t v = i % 3 ? s.getUint32() : s.getUint64(); HarnessScope h; x = mix(x, v); } say(strf("%s%" PRIx64, nm, x)); }
    void op(const JobIO&) override {
        uint64_t sd = it.gx("es", 1); int n = (int)it.gi("draws", 700);
        uint32_t a32[5] = {(uint32_t)sd, 2, (uint32_t)(sd >> 32), 4, 5}; uint64_t a64[3] = {sd, 7, ~sd}; char str[24]; { HarnessScope h; snprintf(str, sizeof str, "k%" PRIx64, sd); }
        { std::unique_ptr<MersenneTwister> m(new MersenneTwister((uint32_t)sd)); draw(*m, "a", n); m->seed((uint32_t)(sd >> 7)); draw(*m, "b", n / 2); }
        { std::unique_ptr<MersenneTwister> m(new MersenneTwister(a32, 5)); draw(*m, "c", n); m->seed(str); draw(*m, "d", 40); }
        { std::unique_ptr<MersenneTwister64> m(new MersenneTwister64(sd)); draw(*m, "e", n); }
        { std::unique_ptr<MersenneTwister64> m(new MersenneTwister64(a64, 3)); draw(*m, "f", n); MersenneTwister64 m2(str); draw(m2, "g", 40); }
        { std::unique_ptr<MersenneTwister> m(new MersenneTwister()); draw(*m, "h", 30); std::unique_ptr<MersenneTwister64> m6(new MersenneTwister64()); draw(*m6, "i", 30); }
        { Sequential<uint32_t> s((uint32_t)(sd & 0xff), 12); int u = 0; for (int i = 0; i < 15; i++) { try { uint32_t v = s.getUint32(); say(strf("%" PRIx32, v)); } catch (const std::underflow_error&) { u++; } } say(strf("u%d", u)); }
        { Sequential<uint64_t> s(sd, 5); for (int i = 0; i < 3; i++) say(strf("%" PRIx64, s.next())); s.reseed(9); say(strf("%" PRIx64, s.next())); }
        { std::unique_ptr<Sequential<uint32_t> > s(new Sequential<uint32_t>()); int u = 0; uint32_t v = 0; try { v = s->getUint32(); } catch (const std::underflow_error&) { u = 1; } say(strf("d%d.%" PRIx32, u, v)); }
    }
};
// sample generators
struct TinyJob : Job {
    Item it; std::unique_ptr<SimSource> src; CbCtl k; std::unique_ptr<tinymt::tinymt32> g;
    TinyJob(const Item& i) : it(i) {}
    void setup() override { HarnessScope h; out.clear(); src.reset(new SimSource(0, it.gx("ss", 1))); g.reset(new tinymt::tinymt32((uint32_t)it.gi("id", 1))); }
    SimSource* source() override { return src.get(); }
    void op(const JobIO& io) override {
        AlgorithmRecursionSearch<uint32_t> s(*g, *src); bool r = false; for (int i = 0; i < 40 && !r; i++) r = s.start(50);
        say(strf("%d %ld", (int)r, (long)s.getCount())); say(ps(s.getMinPoly()));
        AlgorithmPartialBitPattern<uint32_t, 32, 1, 2, 1> st; st(*g, io.verbose); int veq[32];
        { AlgorithmEquidistribution<uint32_t> a(*g, 12); int d = a.get_all_equidist(veq); say(strf("d%d", d)); say(cat(veq, 12)); }
        { HarnessScope h; say(g->getParamString()); }   // (formatting: a stream swallows the failure of an allocation)
        TestLinearity<uint32_t> t; say(t(*g) ? "linear" : "nonlinear");
    }
};
struct RmtJob : Job {
    Item it; std::unique_ptr<SimSource> src; std::unique_ptr<RMT64Search> g;
    RmtJob(const Item& i) : it(i) {}
    void setup() override { HarnessScope h; out.clear(); src.reset(new SimSource(0, it.gx("ss", 1))); g.reset(new RMT64Search((int)it.gi("mexp", 89), 1)); }
    SimSource* source() override { return src.get(); }
    void op(const JobIO& io) override {
        AlgorithmReducibleRecursionSearch<uint64_t> s(*g, *src); bool r = false; for (int i = 0; i < 12 && !r; i++) r = s.start(50);
        say(strf("%d %ld", (int)r, (long)s.getCount())); if (!r) return; say(ps(s.getIrreducibleFactor())); NTL::GF2X f = s.getIrreducibleFactor();
        AlgorithmCalculateParity<uint64_t, RMT64Search> c; try { say(strf("%" PRIx64, c.searchParity(*g, f))); } catch (const char*) { say("gave up"); return; }
        int veq[64]; { AlgorithmReducibleEquidistribution<uint64_t, RMT64Search> a(*g, f, 10, (int)it.gi("mexp", 89)); int d = a.get_all_equidist(veq); say(strf("d%d", d)); say(cat(veq, 10)); }
        { HarnessScope h; say(g->getParamString()); }   // (formatting: a stream swallows the failure of an allocation) (void)io;
    }
};
const std::vector<std::string> JOB_TYPES = {"rs", "rrs", "temper", "rt", "rrt", "eq", "req", "ann", "par", "lin", "prim", "rand", "tiny", "rmt", "sfmt", "dsfmt", "mtgp"};
Job* make_sfmt_job(const Item& it); Job* make_dsfmt_job(const Item& it); Job* make_mtgp_job(const Item& it);
std::unique_ptr<Job> make_job(const Item& it) {
    HarnessScope h; std::string t = it.gs("type"); bool w64 = it.gi("w", 32) == 64; Job* j = 0;
#define J(name, T) if (t == name) { if (w64) j = new T<uint64_t>(it); else j = new T<uint32_t>(it); }
    J("rs", RsJob) J("rrs", RrsJob) J("temper", TemperJob) J("rt", RtJob) J("rrt", RrtJob) J("eq", EqJob) J("req", ReqJob) J("ann", AnnJob) J("par", ParJob) J("lin", LinJob)
    if (t == "prim") j = new PrimJob(it); if (t == "rand") j = new RandJob(it); if (t == "tiny") j = new TinyJob(it); if (t == "rmt") j = new RmtJob(it); if (t == "sfmt") j = make_sfmt_job(it); if (t == "dsfmt") j = make_dsfmt_job(it); if (t == "mtgp") j = make_mtgp_job(it);
    SIM_REQUIRE(j != 0); return std::unique_ptr<Job>(j);
}
// runs one job; returns its canonical outcome
std::string run_job(const Item& it, const JobFault& f, bool verbose, uint64_t poison, std::ostream* os) {
    std::unique_ptr<Job> j; { HarnessScope h; j = make_job(it); j->setup(); }
    JobIO io; io.verbose = verbose; io.os = os; std::string why; poison_stack(poison);
    if (f.on) { HarnessScope h; if (f.kind == "oom") alloc_fail_at(1 + f.at); else if (f.kind == "src" && j->source()) { j->source()->fail_at = j->source()->served + 1 + f.at; j->source()->fail_id = 3; } else if (j->ctl()) j->ctl()->arm(f.cb, 1 + f.at, 4); }
    try { j->op(io); }
    catch (const SimFault& x) { HarnessScope h; why = strf("fault%d", x.id); } catch (const SourceDry&) { HarnessScope h; why = "dry"; } catch (const std::bad_alloc&) { HarnessScope h; why = "bad_alloc"; }
    alloc_off();
    HarnessScope h; std::string r = j->out + (why.empty() ? "" : "! " + why); if (f.on && f.kind == "oom" && !why.empty()) r = "!";   // where an allocation fails may depend on what is cached in the process
    j.reset(); return r;
}
JobFault job_fault(const Item& it) { JobFault f; if (it.has("fk")) { f.on = true; f.kind = it.gs("fk"); f.at = it.gi("fat"); f.cb = (int)it.gi("fcb"); } return f; }
Item gen_job(Rng& r, const std::string& kind, const std::string& size) {
    static const int WT[] = {14, 12, 9, 8, 8, 10, 9, 6, 9, 6, 7, 6, 2, 2, 2, 2, 2}; int tot = 0; for (int x : WT) tot += x; int k = (int)r.below((uint64_t)tot), ti = 0; while (k >= WT[ti]) k -= WT[ti++];
    std::string t = JOB_TYPES[(size_t)ti]; int w = r.chance(0.5) ? 32 : 64; bool red = t == "rrs" || t == "rrt" || t == "req" || t == "ann" || t == "par"; bool search = t == "rs" || t == "rrs";
    int maxn = size == "small" ? 31 : size == "mid" ? 64 : 127; if (t == "rt" || t == "rrt" || t == "temper") maxn = std::min(maxn, size == "small" ? 19 : 61);
    Item it(kind);
    if (t == "prim") it.i("n", r.range(6, size == "small" ? 32 : 64)).x("es", r.next());
    else if (t == "rand") it.x("es", r.next()).i("draws", size == "small" ? r.range(20, 700) : r.range(20, 1500));
    else if (t == "tiny") it.i("id", r.range(1, 100)).x("ss", r.next());
    else if (t == "rmt") it.i("mexp", r.chance(0.5) ? 89 : 107).x("ss", r.next());
    else if (t == "sfmt" || t == "dsfmt") {
        static const char* SUB[] = {"search", "search", "search", "parity", "equi", "equi", "equi", "equi", "linear", "linear", "special"}; std::string sub = SUB[r.below(11)]; it.s("sub", sub).x("gk", r.below(5)).x("ss", r.next());
        if (sub == "search") it.i("at", r.range(0, 3)).i("calls", r.range(1, 3)).i("b", r.range(1, 3));
        if (sub == "equi") { static const int MODE[] = {1, 32, 64, 128}; int m = MODE[r.below(4)]; it.i("mode", m).i("bl", r.range(1, m == 1 || m == 128 ? 4 : 2)); }
    }
    else if (t == "mtgp") { static const char* SUB[] = {"search", "search", "equi", "equi", "equi", "temper", "rt", "linear"}; it.s("sub", SUB[r.below(8)]).x("gk", r.below(5)).x("ss", r.next()).i("at", r.range(0, 3)).i("calls", r.range(1, 3)).i("b", r.range(1, 3)).i("bl", r.range(1, 4)).i("rev", (int64_t)r.below(2)); }
    else {
        it = red ? gen_red_item(r, kind, maxn, w, !search) : gen_lin_item(r, kind, maxn, false, !search);
        it.i("w", w).x("st0", r.next()).i("rev", (int64_t)r.below(2)).i("latched", (int64_t)r.below(2));
        if (search) it.i("calls", r.range(1, 4)).i("b", r.range(1, 8));
        if (t == "eq" || t == "req") it.i("bl", r.chance(0.3) ? w : r.range(1, 20));
        if (t == "rt" || t == "rrt") it.i("rounds", r.range(1, 2)).i("nolsb", (int64_t)r.below(2));
        it.i("alg", (int64_t)r.below(5));
    }
    it.s("type", t); return it;
}
}
