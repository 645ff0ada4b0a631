// Independent reference algebra over GF(2): no NTL, no MTToolBox.
#ifndef VERIF_GF2REF_HPP
#define VERIF_GF2REF_HPP
#include <stdint.h>
#include <string>
#include <vector>
#include <algorithm>
#include "sim.hpp"

namespace ref {

struct Poly {
    std::vector<uint64_t> w;
    Poly() {}
    explicit Poly(uint64_t v) { if (v) w.push_back(v); }
    static Poly mono(int d) { Poly p; p.set(d); return p; }
    static Poly hex(const std::string& h) {
        Poly p; int bit = 0;
        for (size_t k = h.size(); k-- > 0;) { char c = h[k]; int v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; for (int b = 0; b < 4; b++, bit++) if (v >> b & 1) p.set(bit); }
        return p;
    }
    std::string str() const {
        int d = deg(); if (d < 0) return "0"; std::string s;
        for (int i = d / 4 * 4; i >= 0; i -= 4) { int v = 0; for (int b = 0; b < 4; b++) v |= get(i + b) << b; s += "0123456789abcdef"[v]; }
        return s;
    }
    int get(int i) const { size_t k = (size_t)i >> 6; return k < w.size() ? (int)(w[k] >> (i & 63) & 1) : 0; }
    void set(int i) { size_t k = (size_t)i >> 6; if (k >= w.size()) w.resize(k + 1, 0); w[k] |= UINT64_C(1) << (i & 63); }
    void flip(int i) { size_t k = (size_t)i >> 6; if (k >= w.size()) w.resize(k + 1, 0); w[k] ^= UINT64_C(1) << (i & 63); trim(); }
    void trim() { while (!w.empty() && w.back() == 0) w.pop_back(); }
    int deg() const { for (size_t k = w.size(); k-- > 0;) if (w[k]) return (int)k * 64 + 63 - __builtin_clzll(w[k]); return -1; }
    bool zero() const { return deg() < 0; }
    bool one() const { return deg() == 0; }
    int weight() const { int c = 0; for (uint64_t v : w) c += __builtin_popcountll(v); return c; }
    void add(const Poly& o) { if (o.w.size() > w.size()) w.resize(o.w.size(), 0); for (size_t i = 0; i < o.w.size(); i++) w[i] ^= o.w[i]; }
    void addshift(const Poly& o, int s) {
        int d = o.deg(); if (d < 0) return;
        size_t need = (size_t)(d + s) / 64 + 1; if (w.size() < need) w.resize(need, 0);
        size_t ws = (size_t)s >> 6; int b = s & 63; size_t on = (size_t)d / 64 + 1;
        for (size_t i = 0; i < on; i++) { w[i + ws] ^= o.w[i] << b; if (b && (o.w[i] >> (64 - b))) w[i + ws + 1] ^= o.w[i] >> (64 - b); }
    }
    void mod(const Poly& m) { int dm = m.deg(), d; while ((d = deg()) >= dm) addshift(m, d - dm); trim(); }
};
inline bool operator==(const Poly& a, const Poly& b) {
    size_t n = std::max(a.w.size(), b.w.size());
    for (size_t i = 0; i < n; i++) if ((i < a.w.size() ? a.w[i] : 0) != (i < b.w.size() ? b.w[i] : 0)) return false;
    return true;
}
inline bool operator!=(const Poly& a, const Poly& b) { return !(a == b); }
inline Poly mul(const Poly& a, const Poly& b) { Poly r; int d = a.deg(); for (int i = 0; i <= d; i++) if (a.get(i)) r.addshift(b, i); r.trim(); return r; }
inline Poly mulmod(const Poly& a, const Poly& b, const Poly& m) { Poly r = mul(a, b); r.mod(m); return r; }
inline Poly sqr(const Poly& a) {
    Poly r; int d = a.deg(); if (d < 0) return r; r.w.assign((size_t)(2 * d) / 64 + 1, 0);
    for (int i = 0; i <= d; i++) if (a.get(i)) r.w[(size_t)(2 * i) >> 6] |= UINT64_C(1) << ((2 * i) & 63);
    return r;
}
inline Poly sqrmod(const Poly& a, const Poly& m) { Poly r = sqr(a); r.mod(m); return r; }
inline void divmod(const Poly& a, const Poly& b, Poly& q, Poly& r) {
    q = Poly(); r = a; int db = b.deg(), d; while ((d = r.deg()) >= db) { q.set(d - db); r.addshift(b, d - db); } r.trim();
}
inline Poly quo(const Poly& a, const Poly& b) { Poly q, r; divmod(a, b, q, r); return q; }
inline bool divides(const Poly& d, const Poly& a) { Poly r = a; r.mod(d); return r.zero(); }
inline Poly gcd(Poly a, Poly b) { while (!b.zero()) { a.mod(b); std::swap(a, b); } a.trim(); return a; }
inline Poly powx_hex(const Poly& base, const std::string& ehex, const Poly& m) {   // base^e mod m, e in hex
    Poly r(1); r.mod(m);
    for (char c : ehex) { int v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; for (int b = 3; b >= 0; b--) { r = sqrmod(r, m); if (v >> b & 1) r = mulmod(r, base, m); } }
    return r;
}
bool irreducible(const Poly& p);
const std::vector<std::pair<std::string, std::pair<std::string, std::string> > >& factors(int n);  // dec, hex, cofactor hex
bool have_factors(int n);
bool primitive(const Poly& p);      // needs factors(deg) or a Mersenne exponent
bool is_mexp(int n);
// the irreducible factor of degree d of p if there is exactly one such factor counted without multiplicity; zero if none
Poly factor_of_degree(const Poly& p, int d, int* how_many);
// linear recurrence of minimal length of the bit sequence: minimal polynomial
Poly minpoly(const std::vector<unsigned char>& bits);
Poly random_poly(sim::Rng& r, int deg, bool c0);
Poly random_irreducible(sim::Rng& r, int deg);
const std::vector<Poly>& primitives(int n);
// irreducible of degree n whose root has order (2^n-1)/q
Poly of_index(const Poly& prim, const std::string& qhex);

// rank-based dimension of equidistribution of a word sequence whose minimal polynomial has degree n:
// out[t] for t < n + n, bits counted from the top of a width-bit word
struct WordSeq { int width; std::vector<std::pair<uint64_t, uint64_t> > out; };  // (high, low) for widths > 64
int kv(const WordSeq& s, int n, int v);
}
#endif
