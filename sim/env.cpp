#include "env.hpp"
#include <MTToolBox/AlgorithmPrimitivity.hpp>
namespace sim {
Env::~Env() {}
ref::Poly ref_of(const NTL::GF2X& p) { ref::Poly r; for (long i = 0; i <= NTL::deg(p); i++) if (NTL::IsOne(NTL::coeff(p, i))) r.set((int)i); return r; }
std::string poly_str(const NTL::GF2X& p) { return ref_of(p).str(); }
NTL::GF2X ntl_of(const ref::Poly& p) { NTL::GF2X r; for (int i = 0; i <= p.deg(); i++) if (p.get(i)) NTL::SetCoeff(r, i); return r; }
bool is_maximal(const ref::Poly& p, int n) { return p.deg() == n && ref::primitive(p); }
const char* const* library_list(int n) {
    using namespace MTToolBox;
    switch (n) {
    case 128: return prime_factors2_128_1; case 160: return prime_factors2_160_1; case 192: return prime_factors2_192_1; case 224: return prime_factors2_224_1;
    case 256: return prime_factors2_256_1; case 288: return prime_factors2_288_1; case 320: return prime_factors2_320_1; case 352: return prime_factors2_352_1;
    case 384: return prime_factors2_384_1; case 416: return prime_factors2_416_1; case 448: return prime_factors2_448_1; case 480: return prime_factors2_480_1;
    case 512: return prime_factors2_512_1; case 544: return prime_factors2_544_1; case 640: return prime_factors2_640_1; case 800: return prime_factors2_800_1;
    case 960: return prime_factors2_960_1; default: return 0;
    }
}
static std::vector<std::string> split(const std::string& s, char sep) { std::vector<std::string> v; std::string c; for (char x : s) { if (x == sep) { v.push_back(c); c.clear(); } else c += x; } if (!c.empty()) v.push_back(c); return v; }

static ref::Poly pick_primitive(Rng& r, int n) {
    const std::vector<ref::Poly>& v = ref::primitives(n);
    if (v.empty() || (n <= 64 && r.chance(0.5))) {
        for (;;) { ref::Poly p = ref::random_irreducible(r, n); if (ref::is_mexp(n) || ref::primitive(p)) return p; }
    }
    ref::Poly p = r.pick(v);
    // other primitive polynomials of the same degree: those of x^(2^k+...) powers coprime to the period, here the reciprocal
    if (r.chance(0.5)) { ref::Poly q; int d = p.deg(); for (int i = 0; i <= d; i++) if (p.get(i)) q.set(d - i); return q; }
    return p;
}
static ref::Poly make_candidate(Rng& r, const std::string& tag, int n) {
    if (tag == "prim") return pick_primitive(r, n);
    if (tag == "irr") {       // irreducible, not primitive: root of order (2^n-1)/q
        if (!ref::is_mexp(n) && ref::have_factors(n)) {
            const ref::Poly base = pick_primitive(r, n);
            for (int k = 0; k < 20; k++) {
                const auto& f = r.pick(ref::factors(n)); ref::Poly p = ref::of_index(base, f.second.first);
                if (p.deg() == n) return p;
            }
        }
        ref::Poly p = ref::random_poly(r, n, true); return p;
    }
    if (tag == "red") {       // product of two irreducibles of full total degree
        if (n < 4) return ref::random_poly(r, n, true);
        int a = (int)r.range(1, n - 1); if (n > 96) a = (int)r.range(1, 20);
        ref::Poly p = n - a > 64 ? ref::random_poly(r, n - a, true) : ref::random_irreducible(r, n - a);
        return ref::mul(ref::random_irreducible(r, a), p);
    }
    if (tag == "sq") { if (n % 2 || n > 96) return ref::mul(ref::random_poly(r, n - 1, true), ref::Poly(3)); return ref::sqr(ref::random_irreducible(r, n / 2)); }
    if (tag == "low") {       // a shorter, itself primitive recursion inside the n-bit state
        int d = (int)r.range(std::max(2, n - 3), n - 1); if (d > 64 && ref::primitives(d).empty()) return ref::random_poly(r, d, true);
        return d > 64 ? r.pick(ref::primitives(d)) : ref::random_irreducible(r, d);
    }
    if (tag == "x") { ref::Poly p = n - 1 > 64 ? ref::random_poly(r, n - 1, true) : ref::random_irreducible(r, n - 1); ref::Poly q; q.addshift(p, 1); return q; }
    return ref::random_poly(r, n, r.chance(0.8));
}
static void fill_common(Env& e, const Item& it, Rng& r, int width) {
    int n = e.cfg.n;
    e.cfg.draws = (int)it.gi("draws", 1); e.cfg.draw_width = (int)it.gi("dw", 32);
    e.cfg.om = make_outmap(r, n, width, (int)it.gi("om", 0), (double)it.gi("dens", 50) / 100.0, (int)it.gi("tm", 0));
    e.src.reset(new SimSource((int)it.gi("src", 0), it.gx("ss", 1)));
    if (it.has("dry")) e.src->left = it.gi("dry");
}
// output bits that see only some of the components (prime power factors) of the recursion p; all of them see the component of f if keep
static void structure_outmap(OutMap& om, const ref::Poly& p, const ref::Poly& f, bool keep, int n, Rng& r) {
    std::vector<ref::Poly> comp; ref::Poly rest = p; if (!f.zero()) { rest = ref::quo(rest, f); comp.push_back(f); }
    for (uint64_t q = 2; q < 512 && rest.deg() > 0; q++) { ref::Poly g(q); if (g.deg() < 1 || !ref::divides(g, rest) || !ref::irreducible(g)) continue; ref::Poly c(1); while (ref::divides(g, rest)) { rest = ref::quo(rest, g); c = ref::mul(c, g); } comp.push_back(c); }
    if (rest.deg() > 0) comp.push_back(rest); if (comp.size() < 2) return;
    om.mode = 1; double pk = r.chance(0.5) ? 0.5 : 0.2;
    for (auto& m : om.masks) {
        ref::Poly h(1); size_t sure = keep ? 0 : r.below(comp.size()); for (size_t i = 0; i < comp.size(); i++) if (i != sure && !r.chance(pk)) h = ref::mul(h, comp[i]);
        std::vector<uint64_t> o(m.size(), 0); ref::Poly x = h; x.mod(p);
        for (int j = 0; j < n; j++) { uint64_t a = 0; for (size_t k = 0; k < m.size() && k < x.w.size(); k++) a ^= m[k] & x.w[k]; if (__builtin_popcountll(a) & 1) o[(size_t)j >> 6] |= UINT64_C(1) << (j & 63); ref::Poly y; y.addshift(x, 1); y.mod(p); x = y; }
        m = o;
    }
}
std::shared_ptr<Env> make_lin_env(const Item& it, int width) {
    HarnessScope h; std::shared_ptr<Env> e(new Env()); Rng r(it.gx("es", 1));
    int n = (int)it.gi("n", 31); e->cfg.n = n; e->cfg.mexp = n; SIM_REQUIRE(n >= 2 && n < 64 * MAXW - 64);
    e->mersenne = ref::is_mexp(n);
    std::string pool = it.gs("pool", "prim");
    if (pool == "raw") { SIM_REQUIRE(n <= 64); e->cfg.raw = true; }
    else {
        std::vector<std::string> tags = split(pool, ','); e->cfg.pool.reset(new Pool());
        for (auto& t : tags) { Candidate c; c.tag = t; c.p = make_candidate(r, t, n); e->cfg.pool->c.push_back(c); }
    }
    fill_common(*e, it, r, width);
    if (!e->mersenne) {
        if (n > 64 && library_list(n)) { for (const char* const* p = library_list(n); *p; p++) e->list.push_back(*p); }
        else for (auto& f : ref::factors(n)) e->list.push_back(f.first);
        if (it.has("listrot") && n <= 64) { size_t k = (size_t)it.gi("listrot") % e->list.size(); std::rotate(e->list.begin(), e->list.begin() + (long)k, e->list.end()); }
        for (auto& s : e->list) e->clist.push_back(s.c_str());
    }
    e->clist.push_back(0);
    return e;
}
std::shared_ptr<Env> make_red_env(const Item& it, int width) {
    HarnessScope h; std::shared_ptr<Env> e(new Env()); Rng r(it.gx("es", 1));
    int m = (int)it.gi("m", 31), n = (int)it.gi("n", 40); e->cfg.n = n; e->cfg.mexp = m; SIM_REQUIRE(m >= 2 && n >= m && n < 2 * m && n < 64 * MAXW - 64);
    std::vector<std::string> tags = split(it.gs("pool", "ok"), ','); e->cfg.pool.reset(new Pool()); int gd = n - m;
    std::shared_ptr<ref::Poly> f0;
    for (auto& t : tags) {
        Candidate c; c.tag = t; ref::Poly f = m > 64 ? pick_primitive(r, m) : ref::random_irreducible(r, m);
        if (t == "ok") { ref::Poly g = gd ? ref::random_poly(r, gd, true) : ref::Poly(1); c.p = ref::mul(f, g); }
        else if (t == "okx") { ref::Poly g; int k = gd ? (int)r.range(1, gd) : 0; ref::Poly rest = gd - k ? ref::random_poly(r, gd - k, true) : ref::Poly(1); g.addshift(rest, k); c.p = ref::mul(f, g); }   // factor x^k
        else if (t == "okm") {   // repeated small factors
            ref::Poly g(1); while (g.deg() < gd) { int d = (int)r.range(1, std::min(3, gd - g.deg())); ref::Poly q = ref::random_irreducible(r, d); while (g.deg() + d <= gd && r.chance(0.7)) g = ref::mul(g, q); }
            c.p = ref::mul(f, g);
        }
        else if (t == "okl") { ref::Poly g(1); if (gd) { int k = gd > 3 ? (int)r.below(4) : 0; g = ref::random_irreducible(r, gd - k); if (k) g = ref::mul(g, ref::random_poly(r, k, true)); } c.p = ref::mul(f, g); }   // accompanied by one large factor
        else if (t == "short") { c.p = f; }                       // exactly the factor, degree m < n
        else if (t == "near") { int d = (int)r.range(std::max(2, m - 3), m - 1); ref::Poly a = d > 64 ? ref::random_poly(r, d, true) : ref::random_irreducible(r, d); ref::Poly g = ref::random_poly(r, n - d, true); c.p = ref::mul(a, g); }
        else if (t == "over") { int d = (int)r.range(m + 1, n); if (gd == 0) d = m; ref::Poly a = d > 64 ? ref::random_poly(r, d, true) : ref::random_irreducible(r, d); ref::Poly g = n - d ? ref::random_poly(r, n - d, true) : ref::Poly(1); c.p = ref::mul(a, g); }
        else if (t == "split") {  // degree m part is a product
            int a = (int)r.range(2, m - 2); if (m > 64) a = (int)r.range(2, 30);
            ref::Poly p = ref::mul(ref::random_irreducible(r, a), m - a > 64 ? ref::random_poly(r, m - a, true) : ref::random_irreducible(r, m - a)); ref::Poly g = gd ? ref::random_poly(r, gd, true) : ref::Poly(1); c.p = ref::mul(p, g);
        }
        else c.p = ref::random_poly(r, n, r.chance(0.8));
        if (t.compare(0, 2, "ok") == 0 && e->f.zero()) e->f = f;
        e->fac.push_back(t.compare(0, 2, "ok") == 0 || t == "short" ? f : ref::Poly());
        e->cfg.pool->c.push_back(c);
    }
    fill_common(*e, it, r, width);
    if (it.gi("comp")) for (size_t i = 0; i < e->cfg.pool->c.size(); i++) if (!e->fac[i].zero() && e->cfg.pool->c[i].p.deg() == n) { Rng q(mix(it.gx("es", 1), 5)); structure_outmap(*e->cfg.om, e->cfg.pool->c[i].p, e->fac[i], it.gi("comp") == 1, n, q); break; }
    return e;
}
static const int SMALL_M[] = {5, 7, 13, 17, 19, 31, 61}, BIG_M[] = {89, 107, 127}, HUGE_M[] = {521, 607};
Item gen_lin_item(Rng& r, const std::string& kind, int maxn, bool only_mersenne, bool for_temper) {
    Item it(kind); int n;
    do {
        if (only_mersenne || r.chance(0.5)) { n = maxn >= 521 && r.chance(0.06) ? HUGE_M[r.below(2)] : maxn >= 127 && r.chance(0.2) ? BIG_M[r.below(3)] : SMALL_M[r.below(7)]; }
        else if (maxn >= 160 && r.chance(0.2)) { static const int L[] = {128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 480, 512, 544, 640, 800, 960}; n = L[r.below(17)]; }
        else n = (int)r.range(4, 64);
    } while (n > maxn || (n > 64 && ref::primitives(n).empty() && !ref::is_mexp(n)));
    it.i("n", n);
    bool mex = ref::is_mexp(n); std::string pool;
    if (!for_temper && n <= 31 && r.chance(0.25)) pool = "raw";
    else {
        static const char* T[] = {"irr", "red", "low", "sq", "x", "rnd"};
        int sz = (int)r.range(2, n > 64 ? 6 : 12), good = for_temper ? (int)r.range(1, 2) : (int)r.range(1, 3);
        std::vector<std::string> v; for (int i = 0; i < sz; i++) v.push_back(i < good ? "prim" : T[r.below(r.chance(0.4) && !mex ? 1 : 6)]);
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        for (auto& s : v) pool += (pool.empty() ? "" : ",") + s;
    }
    it.s("pool", pool).i("om", (int64_t)r.below(2)).i("tm", (int64_t)r.below(2)).i("dens", r.range(10, 60)).i("draws", r.chance(0.7) ? 1 : r.range(2, 3)).i("dw", r.chance(0.5) ? 32 : 64).x("es", r.next());
    it.i("src", 0).x("ss", r.next());
    if (!mex && n <= 64) it.i("listrot", (int64_t)r.below(8));
    return it;
}
Item gen_red_item(Rng& r, const std::string& kind, int maxm, int width, bool for_temper) {
    Item it(kind); int m;
    do { m = maxm >= 521 && r.chance(0.05) ? HUGE_M[r.below(2)] : maxm >= 127 && r.chance(0.2) ? BIG_M[r.below(3)] : SMALL_M[r.below(7)]; } while (m > maxm);
    int gmax = std::min(m - 1, std::min(width - 1, for_temper ? 20 : width - 1)); int n = m + (for_temper || r.chance(0.6) ? (int)r.below((uint64_t)gmax + 1) : (int)r.range(gmax / 2, gmax));
    it.i("m", m).i("n", n);
    static const char* OK[] = {"ok", "ok", "okx", "okm", "short", "okl"}; static const char* BAD[] = {"near", "over", "split", "rnd"};
    int sz = (int)r.range(2, m > 64 ? 6 : 10), good = (int)r.range(1, 3); std::vector<std::string> v;
    for (int i = 0; i < sz; i++) v.push_back(i < good ? (for_temper ? (r.below(3) ? "ok" : "okm") : OK[r.below(6)]) : BAD[r.below(4)]);
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    std::string pool; for (auto& s : v) pool += (pool.empty() ? "" : ",") + s;
    it.s("pool", pool).i("om", (int64_t)r.below(2)).i("tm", (int64_t)r.below(2)).i("dens", r.range(10, 60)).i("draws", r.chance(0.7) ? 1 : r.range(2, 3)).i("dw", r.chance(0.5) ? 32 : 64).x("es", r.next());
    it.i("src", 0).x("ss", r.next());
    return it;
}
}
