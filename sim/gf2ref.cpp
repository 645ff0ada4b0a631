#include "gf2ref.hpp"
#include "factors.hpp"
#include "prims.hpp"
#include <map>
namespace ref {
static const int MEXP[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 0};
bool is_mexp(int n) { for (int i = 0; MEXP[i]; i++) if (MEXP[i] == n) return true; return false; }
bool irreducible(const Poly& p) {
    int n = p.deg(); if (n < 1) return false; if (n == 1) return true;
    if (!p.get(0)) return false;
    std::vector<int> checks; int m = n;
    for (int q = 2; q <= m; q++) if (m % q == 0) { checks.push_back(n / q); while (m % q == 0) m /= q; }
    Poly x = Poly::mono(1), t = x; 
    for (int i = 1; i <= n; i++) {
        t = sqrmod(t, p);
        if (i < n && std::find(checks.begin(), checks.end(), i) != checks.end()) { Poly d = t; d.add(x); d.trim(); if (!gcd(p, d).one()) return false; }
    }
    t.add(x); t.mod(p); return t.zero();
}
typedef std::vector<std::pair<std::string, std::pair<std::string, std::string> > > FV;
const FV& factors(int n) {
    static std::map<int, FV> m;
    if (m.empty()) for (int i = 0; FACTORS[i].n; i++) m[FACTORS[i].n].push_back(std::make_pair(std::string(FACTORS[i].dec), std::make_pair(std::string(FACTORS[i].hex), std::string(FACTORS[i].cofhex))));
    return m[n];
}
bool have_factors(int n) { return !factors(n).empty(); }
bool primitive(const Poly& p) {
    int n = p.deg(); if (!irreducible(p)) return false;
    if (n == 1) return p.get(0);
    if (is_mexp(n)) return true;
    SIM_REQUIRE(have_factors(n));
    Poly x = Poly::mono(1); x.mod(p);
    for (auto& f : factors(n)) if (powx_hex(x, f.second.second, p).one()) return false;
    return true;
}
Poly factor_of_degree(const Poly& p0, int d, int* many) {
    // distinct-degree factorisation of the square-free part
    Poly p = p0; *many = 0; Poly res;
    while (p.deg() > 0 && !p.get(0)) p = quo(p, Poly::mono(1));
    Poly x = Poly::mono(1), t = x;
    for (int i = 1; p.deg() >= i; i++) {
        if (2 * i > p.deg() && i < d) { /* p may still be one factor of degree deg p, or powers */ }
        t.mod(p); t = sqrmod(t, p); Poly g = t; g.add(x); g.mod(p); g = g.zero() ? p : gcd(p, g);
        if (g.deg() > 0) {
            if (i == d) { *many = g.deg() / d; res = g; }
            Poly q = g; while (q.deg() > 0) { p = quo(p, q); q = p.deg() > 0 ? gcd(p, q) : Poly(1); }
            if (p.deg() <= 0) break;
        }
        if (i == d) break;
    }
    if (*many != 1) return Poly();
    return res;
}
Poly minpoly(const std::vector<unsigned char>& s) {
    // Berlekamp-Massey; c is the connection polynomial, result is its reciprocal of length L
    Poly c(1), b(1); int L = 0, m = 1;
    for (int n = 0; n < (int)s.size(); n++) {
        int d = s[(size_t)n];
        for (int i = 1; i <= L; i++) if (c.get(i) && s[(size_t)(n - i)]) d ^= 1;
        if (!d) m++;
        else if (2 * L <= n) { Poly t = c; c.addshift(b, m); L = n + 1 - L; b = t; m = 1; }
        else { c.addshift(b, m); m++; }
    }
    Poly r; for (int i = 0; i <= L; i++) if (c.get(i)) r.set(L - i);
    return r;
}
Poly random_poly(sim::Rng& r, int deg, bool c0) {
    Poly p; for (int i = 0; i < deg; i += 64) { uint64_t v = r.next(); for (int b = 0; b < 64 && i + b < deg; b++) if (v >> b & 1) p.set(i + b); }
    p.set(deg); if (c0) p.set(0); return p;
}
Poly random_irreducible(sim::Rng& r, int deg) { for (;;) { Poly p = random_poly(r, deg, true); if (irreducible(p)) return p; } }
const std::vector<Poly>& primitives(int n) {
    static std::map<int, std::vector<Poly> > m;
    if (m.empty()) for (int i = 0; PRIMS[i].n; i++) m[PRIMS[i].n].push_back(Poly::hex(PRIMS[i].hex));
    return m[n];
}
Poly of_index(const Poly& prim, const std::string& qhex) {
    int n = prim.deg(); Poly beta = powx_hex(Poly::mono(1), qhex, prim); Poly cur(1); std::vector<unsigned char> s;
    for (int i = 0; i < 2 * n + 2; i++) { s.push_back((unsigned char)cur.get(0)); cur = mulmod(cur, beta, prim); }
    return minpoly(s);
}
int kv(const WordSeq& s, int n, int v) {
    // rows (t, b): vector over i < n of bit b of out[t + i]; k(v) = largest k with rank(k v rows) = k v
    size_t words = (size_t)(n + 63) / 64; std::vector<std::vector<uint64_t> > piv((size_t)n);
    int k = 0;
    for (int t = 0; t < n / v; t++) {
        bool ok = true;
        for (int b = 0; b < v && ok; b++) {
            std::vector<uint64_t> row(words, 0); int pos = s.width - 1 - b;
            for (int i = 0; i < n; i++) { const std::pair<uint64_t, uint64_t>& o = s.out[(size_t)(t + i)]; uint64_t bit = pos >= 64 ? o.first >> (pos - 64) & 1 : o.second >> pos & 1; row[(size_t)i >> 6] |= bit << (i & 63); }
            for (int i = 0; i < n; i++) if (row[(size_t)i >> 6] >> (i & 63) & 1) {
                if (piv[(size_t)i].empty()) { piv[(size_t)i] = row; row.clear(); break; }
                for (size_t q = 0; q < words; q++) row[q] ^= piv[(size_t)i][q];
            }
            if (!row.empty()) ok = false;
        }
        if (!ok) break;
        k = t + 1;
    }
    return k;
}
}
