// C11: parameter sources against their reference sequences, through histories of several sources.
#include "sim.hpp"
#include <memory>
#include <random>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
extern "C" { struct XORSHIFT128_T { uint32_t x, y, z, w; }; uint32_t xorshift128_generate(XORSHIFT128_T*); void xorshift128_init(XORSHIFT128_T*, uint32_t); void xorshift128_init_by_array(XORSHIFT128_T*, const uint32_t[], int); }   // samples/XORSHIFT/xorshift128.c
using namespace sim;
namespace {
// ---- reference models
template <class E, class W, int N> E from_words(const std::vector<W>& w, int pos) { std::stringstream ss; for (int i = 0; i < N; i++) ss << w[(size_t)i] << ' '; ss << pos; E e; ss >> e; return e; }
std::mt19937 ref_key32(const std::vector<uint32_t>& key) {       // init_by_array
    std::vector<uint32_t> m(624); m[0] = 19650218u; for (uint32_t i = 1; i < 624; i++) m[i] = 1812433253u * (m[i - 1] ^ (m[i - 1] >> 30)) + i;
    size_t i = 1, j = 0;
    for (size_t k = std::max<size_t>(624, key.size()); k; k--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 30)) * 1664525u)) + key[j] + (uint32_t)j; if (++i >= 624) { m[0] = m[623]; i = 1; } if (++j >= key.size()) j = 0; }
    for (size_t k = 623; k; k--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 30)) * 1566083941u)) - (uint32_t)i; if (++i >= 624) { m[0] = m[623]; i = 1; } }
    m[0] = 0x80000000u; return from_words<std::mt19937, uint32_t, 624>(m, 624);
}
std::mt19937_64 ref_key64(const std::vector<uint64_t>& key) {
    std::vector<uint64_t> m(312); m[0] = 19650218u; for (uint64_t i = 1; i < 312; i++) m[i] = UINT64_C(6364136223846793005) * (m[i - 1] ^ (m[i - 1] >> 62)) + i;
    size_t i = 1, j = 0;
    for (size_t k = std::max<size_t>(312, key.size()); k; k--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 62)) * UINT64_C(3935559000370003845))) + key[j] + j; if (++i >= 312) { m[0] = m[311]; i = 1; } if (++j >= key.size()) j = 0; }
    for (size_t k = 311; k; k--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 62)) * UINT64_C(2862933555777941757))) - i; if (++i >= 312) { m[0] = m[311]; i = 1; } }
    m[0] = UINT64_C(1) << 63; return from_words<std::mt19937_64, uint64_t, 312>(m, 312);
}
struct Seeding { int how; uint64_t num; std::vector<uint64_t> key; std::string str; };   // 0 default, 1 number, 2 array, 3 string
Seeding seeding_of(const Item& it) {
    Seeding s; s.how = (int)it.gi("how"); s.num = it.gx("num"); Rng r(it.gx("ks", 1)); size_t len = (size_t)it.gi("len", 3);
    if (s.how == 2 && len == 0) len = 1;
    int style = (int)it.gi("style", 0);     // full-range, small, zeros, all ones
    for (size_t i = 0; i < len; i++) { uint64_t v = r.next(); s.key.push_back(style == 0 ? v : style == 1 ? v % 5 : style == 2 ? 0 : ~UINT64_C(0)); }
    for (size_t i = 0; i < len; i++) { uint64_t v = r.next(); s.str += style == 0 ? (char)(v % 256) : style == 1 ? (char)('a' + v % 26) : style == 2 ? '\0' : (char)0xff; }
    return s;
}
struct Src {        // one source and its model
    virtual ~Src() {}
    virtual void construct(const Seeding& s) = 0;
    virtual void reseed(const Seeding& s, bool viabase) = 0;
    virtual MTToolBox::ParameterGenerator* obj() = 0;
    virtual bool model(int width, uint64_t* v) = 0;     // false: the request must fail
    virtual bool copy_from(Src&) { return false; }
    virtual std::string kind() = 0;
};
struct S32 : Src {
    std::unique_ptr<MTToolBox::MersenneTwister> o; std::mt19937 m;
    std::string kind() override { return "mt32"; }
    static std::vector<uint32_t> k32(const Seeding& s) { std::vector<uint32_t> k; for (uint64_t v : s.key) k.push_back((uint32_t)v); return k; }
    void set(const Seeding& s) {
        HarnessScope h;
        if (s.how == 0) m.seed(5489u); else if (s.how == 1) m.seed((uint32_t)s.num);
        else if (s.how == 2) m = ref_key32(k32(s)); else { std::vector<uint32_t> k; for (char c : s.str) k.push_back((uint32_t)c); if (k.empty()) k.push_back(0); m = ref_key32(k); }
    }
    void construct(const Seeding& s) override {
        std::vector<uint32_t> k; { HarnessScope h; k = k32(s); }
        if (s.how == 0) o.reset(new MTToolBox::MersenneTwister()); else if (s.how == 1) o.reset(new MTToolBox::MersenneTwister((uint32_t)s.num));
        else if (s.how == 2) o.reset(new MTToolBox::MersenneTwister(&k[0], (int)k.size())); else o.reset(new MTToolBox::MersenneTwister(s.str));
        { HarnessScope h; std::fill(k.begin(), k.end(), 0x12345u); } set(s);
        HarnessScope h; std::vector<uint32_t>().swap(k);
    }
    void reseed(const Seeding& s, bool viabase) override {
        std::vector<uint32_t> k; { HarnessScope h; k = k32(s); }
        if (s.how <= 1) { if (viabase) static_cast<MTToolBox::ParameterGenerator*>(o.get())->seed(s.num); else o->seed((uint64_t)s.num); Seeding t = s; t.how = 1; set(t); }
        else if (s.how == 2) { o->seed(&k[0], (int)k.size()); set(s); } else { o->seed(s.str); set(s); }
        HarnessScope h; std::vector<uint32_t>().swap(k);
    }
    MTToolBox::ParameterGenerator* obj() override { return o.get(); }
    bool model(int w, uint64_t* v) override { if (w == 32) *v = m(); else { uint64_t hi = m(); *v = hi << 32 | m(); } return true; }
};
struct S64 : Src {
    std::unique_ptr<MTToolBox::MersenneTwister64> o; std::mt19937_64 m;
    std::string kind() override { return "mt64"; }
    void set(const Seeding& s) {
        HarnessScope h;
        if (s.how == 0) m.seed(UINT64_C(19650218)); else if (s.how == 1) m.seed(s.num);
        else if (s.how == 2) m = ref_key64(s.key); else { std::vector<uint64_t> k; for (char c : s.str) k.push_back((uint64_t)c); if (k.empty()) k.push_back(0); m = ref_key64(k); }
    }
    void construct(const Seeding& s) override {
        if (s.how == 0) o.reset(new MTToolBox::MersenneTwister64()); else if (s.how == 1) o.reset(new MTToolBox::MersenneTwister64(s.num));
        else if (s.how == 2) o.reset(new MTToolBox::MersenneTwister64(&s.key[0], (int)s.key.size())); else o.reset(new MTToolBox::MersenneTwister64(s.str));
        set(s);
    }
    void reseed(const Seeding& s, bool viabase) override {
        if (s.how <= 1) { if (viabase) static_cast<MTToolBox::ParameterGenerator*>(o.get())->seed(s.num); else o->seed(s.num); Seeding t = s; t.how = 1; set(t); }
        else if (s.how == 2) { o->seed(&s.key[0], (int)s.key.size()); set(s); } else { o->seed(s.str); set(s); }
    }
    MTToolBox::ParameterGenerator* obj() override { return o.get(); }
    bool model(int w, uint64_t* v) override { uint64_t x = m(); *v = w == 32 ? x >> 32 : x; return true; }
};
template <class T> struct SSeq : Src {
    std::unique_ptr<MTToolBox::Sequential<T> > o; T cur, mask; bool ended;
    std::string kind() override { return strf("seq%d", (int)sizeof(T) * 8); }
    void construct(const Seeding& s) override {
        mask = (T)(s.key.empty() ? 0 : s.key[0]); ended = false;
        if (s.how == 0) { mask = 0; o.reset(new MTToolBox::Sequential<T>()); cur = (T)~(T)0; }
        else if (s.how == 1) { o.reset(new MTToolBox::Sequential<T>(mask)); cur = (T)~(T)0; }
        else { cur = (T)s.num; o.reset(new MTToolBox::Sequential<T>(mask, cur)); }
    }
    void reseed(const Seeding& s, bool viabase) override {
        cur = (T)s.num; ended = false;
        if (viabase) static_cast<MTToolBox::ParameterGenerator*>(o.get())->seed((uint64_t)s.num);
        else if (s.how == 0) o->reseed(cur); else if (s.how == 1) { o->seed((uint32_t)s.num); cur = (T)(uint32_t)s.num; } else o->seed((uint64_t)s.num);
    }
    bool copy_from(Src& b) override {
        SSeq* x = dynamic_cast<SSeq*>(&b); if (!x || !x->o) return false;
        o.reset(new MTToolBox::Sequential<T>(*x->o)); cur = x->cur; mask = x->mask; ended = x->ended; return true;
    }
    MTToolBox::ParameterGenerator* obj() override { return o.get(); }
    bool model(int w, uint64_t* v) override {
        if (ended) return false;
        if (cur == 0) ended = true;
        T x = (T)(cur ^ mask); cur = (T)(cur - 1); *v = w == 32 ? (uint32_t)x : (uint64_t)x; return true;
    }
};
struct XsSource : MTToolBox::ParameterGenerator { XORSHIFT128_T g; uint32_t getUint32() override { return xorshift128_generate(&g); } uint64_t getUint64() override { uint64_t h = getUint32(); return h << 32 | getUint32(); } void seed(uint64_t v) override { xorshift128_init(&g, (uint32_t)v); } };
struct SXs : Src {        // the stand-alone generator of the XORSHIFT sample
    std::unique_ptr<XsSource> o; uint32_t m[4];
    std::string kind() override { return "xorshift128"; }
    void put(const Seeding& s) {
        std::vector<uint32_t> k; { HarnessScope h; if (s.how == 3) for (char c : s.str) k.push_back((uint32_t)c); else for (uint64_t v : s.key) k.push_back((uint32_t)v); }
        if (s.how <= 1) o->seed(s.num); else xorshift128_init_by_array(&o->g, k.empty() ? 0 : &k[0], (int)k.size()); uint32_t n = (uint32_t)k.size();
        if (s.how <= 1) { uint32_t a[4] = {(uint32_t)s.num, 0, 0, 0}; for (uint32_t i = 1; i < 8; i++) a[i % 4] = 1812433253u * (a[(i + 3) % 4] ^ a[(i + 3) % 4] >> 30) + i; memcpy(m, a, sizeof m); }
        else {
            uint32_t a[4] = {0, 0, 0, 0}, loops = std::max<uint32_t>(n + 1, 8), i = 0; auto A = [&](uint32_t j) -> uint32_t& { return a[j & 3]; };
            for (uint32_t j = 0; j < loops; j++) { uint32_t x = A(i) ^ A(i + 1) ^ A(i + 3), r = (x ^ x >> 27) * 1664525u; A(i + 1) += r; r += (j == 0 ? n : (j <= n ? k[j - 1] : 0u) + i); A(i + 2) += r; A(i) = r; i = (i + 1) & 3; }
            for (uint32_t j = 0; j < 4; j++) { uint32_t x = A(i) + A(i + 1) + A(i + 3), r = (x ^ x >> 27) * 1566083941u; A(i + 1) ^= r; r -= i; A(i + 2) ^= r; A(i) = r; i = (i + 1) & 3; }
            if (!(a[0] | a[1] | a[2] | a[3])) { a[0] = 'X' << 16 | 'O'; a[1] = 'R' << 16 | 'S'; a[2] = 'H' << 16 | 'I'; a[3] = 'F' << 16 | 'T'; } memcpy(m, a, sizeof m);
        }
        HarnessScope h; std::vector<uint32_t>().swap(k);
    }
    void construct(const Seeding& s) override { o.reset(new XsSource()); put(s); }
    void reseed(const Seeding& s, bool) override { put(s); }
    MTToolBox::ParameterGenerator* obj() override { return o.get(); }
    uint32_t step() { uint32_t t = m[0] ^ m[0] << 11; t ^= t >> 7; m[0] = m[1]; m[1] = m[2]; m[2] = m[3]; return m[3] ^= m[3] << 20 ^ t; }
    bool model(int w, uint64_t* v) override { if (w == 32) *v = step(); else { uint64_t hi = step(); *v = hi << 32 | step(); } return true; }
};
std::unique_ptr<Src> make_src(int t) {
    switch (t) { case 0: return std::unique_ptr<Src>(new S32()); case 1: return std::unique_ptr<Src>(new S64()); case 2: return std::unique_ptr<Src>(new SSeq<uint32_t>()); case 3: return std::unique_ptr<Src>(new SSeq<uint64_t>()); case 5: return std::unique_ptr<Src>(new SXs()); default: return std::unique_ptr<Src>(new SSeq<uint16_t>()); }
}
struct Hist {
    std::vector<std::unique_ptr<Src> > s;
    uint64_t draws = 0, mixed = 0, reseeds = 0, underflows = 0, wraps = 0, fails = 0;
    void op(const Item& it) {
        size_t i = (size_t)it.gi("s") % s.size(); 
        if (it.kind == "make") {
            { HarnessScope h; s[i] = make_src((int)it.gi("t")); }
            Seeding sd; { HarnessScope h; sd = seeding_of(it); }
            if (it.gi("oom", 0)) {
                alloc_fail_at(1); bool threw = false;
                try { s[i]->construct(sd); } catch (const std::bad_alloc&) { threw = true; }
                alloc_off(); fails++;
                if (!threw && alloc_fired()) violation("source/alloc-failure-lost", "a failed allocation in a constructor was not reported");
            }
            s[i]->construct(sd);
            log(strf("s%zu make %s how=%d", i, s[i]->kind().c_str(), sd.how)); sig(mix((uint64_t)it.gi("t"), (uint64_t)sd.how));
            HarnessScope h; Seeding().key.swap(sd.key); std::string().swap(sd.str); return;
        }
        if (!s[i] || !s[i]->obj()) return;
        if (it.kind == "seed") {
            Seeding sd; { HarnessScope h; sd = seeding_of(it); }
            s[i]->reseed(sd, it.gi("base", 0) != 0); reseeds++; log(strf("s%zu reseed how=%d", i, sd.how)); sig(mix(7, (uint64_t)sd.how));
            HarnessScope h; std::vector<uint64_t>().swap(sd.key); std::string().swap(sd.str);
        } else if (it.kind == "copy") {
            size_t j = (size_t)it.gi("from") % s.size(); if (j == i || !s[j]) return;
            if (s[i]->copy_from(*s[j])) { log(strf("s%zu copied from s%zu", i, j)); count("copies"); }
        } else if (it.kind == "drop") { s[i].reset(); log(strf("s%zu destroyed", i)); }
        else if (it.kind == "draw") {
            Rng r(it.gx("ds", 1)); int64_t n = it.gi("n", 1); int wmode = (int)it.gi("w", 2); uint64_t h = 0;
            for (int64_t k = 0; k < n; k++) {
                int w = wmode == 0 ? 32 : wmode == 1 ? 64 : r.below(2) ? 32 : 64; uint64_t want = 0, got = 0; bool ok = s[i]->model(w, &want), threw = false; std::string what;
                try { got = w == 32 ? s[i]->obj()->getUint32() : s[i]->obj()->getUint64(); } catch (const std::underflow_error&) { threw = true; } catch (const std::exception& e) { threw = true; what = e.what(); }
                if (!what.empty()) violation("source/wrong-exception", "request failed with " + what);
                if (ok && threw) violation("source/failed-early", strf("s%zu (%s) failed on request %" PRId64 " although a value is due", i, s[i]->kind().c_str(), k));
                if (!ok && !threw) violation("source/no-failure", strf("s%zu (%s) delivered %" PRIx64 " after its last value", i, s[i]->kind().c_str(), got));
                if (ok && got != want) violation("source/value", strf("s%zu (%s) request %" PRId64 " width %d: got %" PRIx64 ", the reference sequence has %" PRIx64, i, s[i]->kind().c_str(), k, w, got, want));
                if (!ok) underflows++; draws++; h = mix(h, got);
            }
            log(strf("s%zu draw %" PRId64 " -> %" PRIx64, i, n, h)); if (wmode == 2) mixed++; sig(mix(9, (uint64_t)wmode));
        }
    }
};
void body(const Plan& p) {
    Item c = p.cfg(); alloc_set_fill(2, c.gx("fill", 1)); size_t K = (size_t)c.gi("k", 2); int threads = (int)c.gi("threads", 1); set_step_cap(2000000000ULL);
    std::vector<Hist> hs((size_t)threads); for (auto& h : hs) { HarnessScope g; h.s.resize(K); }
    AllocStats a0 = alloc_stats();
    if (threads == 1) { for (auto& it : p.items) { if (it.kind == "cfg" || it.kind == "sched") continue; hs[0].op(it); describe(" " + it.kind + (it.has("t") ? it.gs("t") : "") + (it.has("n") ? it.gs("n") : "")); } }
    else {
        std::vector<std::function<void()> > fns;
        for (int t = 0; t < threads; t++) fns.push_back([&, t]() { for (auto& it : p.items) { if (it.kind == "cfg" || it.kind == "sched" || (int)it.gi("th") % threads != t) continue; hs[(size_t)t].op(it); } });
        SchedOut so = run_tasks(fns, sched_cfg(p)); count("context_switches", so.switches); sig(so.trace_hash); describe(strf(" %d threads, %" PRIu64 " switches", threads, so.switches));
        count("threaded_runs");
    }
    uint64_t draws = 0, reseeds = 0, under = 0;
    for (auto& h : hs) { draws += h.draws; reseeds += h.reseeds; under += h.underflows; count("mixed_width_draws", h.mixed); HarnessScope g; for (auto& s : h.s) s.reset(); }
    count("draws", draws); count("reseeds", reseeds); count("underflows", under);
    AllocStats a1 = alloc_stats();
    if (a1.live_blocks != a0.live_blocks && threads == 1) violation("source/leak", strf("%" PRIu64 " blocks are still allocated after every source was destroyed", a1.live_blocks - a0.live_blocks));
    if (draws && (reseeds || under || threads > 1)) nontrivial();
}
void seed_fields(Rng& r, Item& it, bool seq) {
    it.i("how", (int64_t)r.below(4)); 
    static const uint64_t N[] = {0, 1, 2, 5489, 19650218, 0xffffffffULL, 0x100000000ULL, 0xffffffffffffffffULL, 0x8000000000000000ULL, 4357};
    uint64_t v = r.chance(0.3) ? N[r.below(10)] : r.next(); if (seq && r.chance(0.8)) v = r.below(60);
    it.x("num", v).x("ks", r.next());
    static const int64_t L[] = {1, 2, 3, 4, 311, 312, 313, 622, 623, 624, 625, 700, 1023, 1024, 1300};
    it.i("len", r.chance(0.5) ? r.range(it.gi("how") == 3 ? 0 : 1, 12) : L[r.below(15)]).i("style", r.chance(0.6) ? 0 : (int64_t)r.below(4));
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C11"; p.seed = seed; Rng r(seed); int K = (int)r.range(1, 4), th = r.chance(0.25) ? (int)r.range(2, 3) : 1;
    p.add("cfg").i("k", K).i("threads", th).x("fill", r.next()).i("gap", th > 1 ? (int64_t)r.geometric(400) : 100).i("hot", r.chance(0.3) ? 20 : 0);
    std::vector<int> types((size_t)(K * th));
    for (int t = 0; t < th; t++) for (int k = 0; k < K; k++) {
        int ty = r.chance(0.5) ? (int)r.below(2) : 2 + (int)r.below(4); types[(size_t)(t * K + k)] = ty;
        Item& it = p.add("make").i("th", t).i("s", k).i("t", ty); seed_fields(r, it, ty >= 2 && ty < 5); if (r.chance(0.15)) it.i("oom", 1);
    }
    int ops = (int)r.range(3, thorough ? 24 : 14);
    for (int o = 0; o < ops; o++) {
        int t = (int)r.below((uint64_t)th), k = (int)r.below((uint64_t)K); int ty = types[(size_t)(t * K + k)];
        double x = (double)r.below(100);
        if (x < 60) {
            int64_t n; if (ty >= 2 && ty < 5) n = r.chance(0.8) ? r.range(1, 70) : r.range(200, 1000); else { static const int64_t B[] = {1, 2, 3, 226, 227, 228, 311, 312, 313, 396, 397, 398, 623, 624, 625, 1023, 1024, 1025, 1248, 2100}; n = r.chance(0.4) ? r.range(1, 40) : B[r.below(20)] + r.range(-1, 1); if (n < 1) n = 1; }
            if (ty == 4 && r.chance(0.04)) n = 65600;
            if (th > 1 && n > 1300) n = 1300;
            p.add("draw").i("th", t).i("s", k).i("n", n).i("w", (int64_t)r.below(3)).x("ds", r.next());
        } else if (x < 85) { Item& it = p.add("seed").i("th", t).i("s", k).i("base", (int64_t)r.below(2)); seed_fields(r, it, ty >= 2 && ty < 5); }
        else if (x < 92) { p.add("copy").i("th", t).i("s", k).i("from", (int64_t)r.below((uint64_t)K)); }
        else { int nt = r.chance(0.5) ? (int)r.below(2) : 2 + (int)r.below(4); if (r.chance(0.4)) p.add("drop").i("th", t).i("s", k); types[(size_t)(t * K + k)] = nt; Item& it = p.add("make").i("th", t).i("s", k).i("t", nt); seed_fields(r, it, nt >= 2 && nt < 5); if (r.chance(0.15)) it.i("oom", 1); }
    }
    for (int t = 0; t < th; t++) for (int k = 0; k < K; k++) p.add("draw").i("th", t).i("s", k).i("n", 5).i("w", 2).x("ds", r.next());
    return p;
}
struct Reg { Reg() {
    Property p; p.id = "C11"; p.rule = "A run is a history of constructions, seedings (number, array, string; base-class and direct), mixed-width draws, exhaustion, failed constructions and copies over 1-4 sources, in one thread or spread over 2-3 simulated threads preempted between instructions; every value is compared with std::mt19937 / std::mt19937_64 (array and string seeding by an own reference), a counter model or a model of xorshift128. Non-trivial: values drawn and at least one reseed, underflow or second thread.";
    p.generate = gen; p.evaluate = [](const Plan& q) { return simple_eval(q, body); };
    p.shrink_keys = {"n", "len", "oom"}; p.real_components = {"MersenneTwister", "MersenneTwister64", "Sequential", "samples/XORSHIFT/xorshift128.c"}; p.stub_components = {"allocator", "thread scheduler"};
    p.quick_runs = 25000; p.thorough_runs = 1200000; p.required = {"draws", "reseeds", "underflows", "mixed_width_draws", "threaded_runs", "copies", "fault.alloc_failure", "context_switches"};
    register_property(p);
} } reg;
}
