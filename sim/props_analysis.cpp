// C14: the programs of samples/ that analyse given parameters, run as simulated processes and compared with the independent models.
#include "progs.hpp"
namespace {
// parameters the search programs wrote: all of maximal period
const char* const SFMT_SET[] = {"607,1,25,1,5,5,5ff3feef,576e9bf5,cecdffff,6edffdfe,00000001,00000000,00000400,916a4000", "607,3,29,1,3,1,9fdfaff6,bff76f5f,7ccffedf,de55ff9f,00000001,00000000,80000000,b442fd89", "607,3,26,1,7,1,adff7f99,3fafe77f,fbffeafa,ff7a7f9e,00000001,00000000,00000000,2c2fc6a2", "607,2,15,1,13,3,ffbdd77d,df7effdf,b7f8bfdf,f3dbfb3b,00200001,00000000,00000000,8e622728", "607,1,18,7,25,1,dbf5bf7e,73f07fdf,ff6ef6ff,7ede3ffd,00000001,00000000,00000000,41a380c4", "607,2,8,3,11,5,9bda73ea,ebb7bfff,dfbd6eff,5df3dbbe,00000001,00000000,80000000,be7ec64e", "1279,7,27,1,20,1,7ab7bf46,f5f9ddfd,fbbbfef0,d6effe7a,00000001,00000000,00000000,40000000", "1279,8,23,1,13,1,f0b6cebf,8fb6e593,b75fffdf,fd767efd,00000001,00000000,00000000,00000000", "1279,2,1,5,19,1,e1b7ffbf,3fefbeff,d7ffbeff,fb56f9bd,00000001,00000000,00000000,10000000", "1279,8,8,7,5,1,dfefd7fb,ffebfbd7,bfebafff,7d7b6e0f,00000001,00000000,00000000,00000000"};
const char* const DSFMT_SET[] = {"521,1,9,0009ddbbefbbce1d,000f23bfffffb47b,7e9d4a59d8bfa4c8,a61ad825edd97c02,0000000000001001,0080000000000000", "521,1,25,000f7bbe9bfffff5,00075dfdbf23efbe,471fe3682d283461,239474e321e8efee,0000000000000001,42a1980000000000", "521,1,23,0001ffdffff6f975,000febffc6dee69b,d7123d752e3fb1fc,45941e110ccab1b0,0000000000000001,4a00a00000000000", "521,1,11,000bcee6bf8ffcff,0005f5de5ea7e0fe,5ee9f68405da1547,971228d2a7bff4f8,0000000000000001,4b7a800000000000", "521,1,51,00077ffcbefb7fe7,0005e1f9deffebbf,edef77070f66830a,6d6089a6188349c8,0000000000000001,6ee4600000000000", "521,1,19,000fcaebffbf7cb5,000ffbfc71eff9bf,60f0c70905632187,be4267dbd7a390b7,0000000000000001,2654c00000000200", "1279,3,15,000fdefdfae3bfb7,0008afbafffdfca9,317edc132f2ff6cb,d745afd5350962b5,d04b800000000001,256ede42584aab4d", "1279,1,23,000b7f7f7ddef94d,000dd7bfd57f2e7b,64f37806a28a9dfb,8f3f57ec3616db06,43feb00000000001,19572b82c3da12aa", "1279,7,9,000f73c779fd7bf7,000e3f7effbb77ef,2a1f685570570e55,9f3dbe5470970f5c,271f0d8300000001,c5b5bba497a90024", "1279,5,51,000fdb7dfbf7efdf,000fffdbfffdf3ff,22f75e6338c6294d,bf90760df6693c5b,0963f6df00000001,423f2fade4c9b1cf"};
const char* const RMT_SET[] = {"521,8,c8df3c851702a08e,061772c1b7cf1801,dbfbfdefbff20000,bdaaffa000000000", "521,2,c3ca9df9ad4d123b,c0047ebffea16a01,cbfffffffff20000,bf9dffe000000000", "521,5,955778a7ae16900e,9194279680b2c801,c3ae7ffffffa0000,bfff7fe000000000", "521,1,46eb730bc0f1683d,3268a2f7e5088001,a7bebffffffa0000,bfff7fe000000000", "521,2,4b266be9c06906f4,045e70ddf36a0001,d3effffffffe0000,bc5f7fe000000000", "521,2,595322dad25214e8,8f4887cb93400001,d48ffffffffe0000,beef7fe000000000", "607,3,3c1ae687b4079406,1688469800000001,fb2ffffffafc0000,ffefefe000000000", "607,1,1019933234df3ace,8562243a00000001,cbeffffffafc0000,bbefffe000000000", "607,9,fcafaac36dccce4a,9547902d00000001,73fffffffafc0000,bbefffe000000000", "607,9,84b964cdeeec522d,b815a2c000000001,e3affffffafc0000,ebcfffe000000000", "607,3,be27edbc30756df6,eda58f3100000001,f7fffffffafc0000,efffffe000000000", "607,1,5d1301c3f85f5172,0fcb8a1500000001,c7effffffdbc0000,efffffe000000000", "1279,7,fff30b7ee497b7af,8000000000000001,8f8eb3fff7b60000,efaabda000000000", "1279,7,bf0859786d762478,2000000000000001,938eb3fff7f60000,e7d4fda000000000", "1279,9,e993eee44b315ac1,8000000000000001,d7cef7ffff760000,e7d7fda000000000", "1279,1,b176387e43aba03c,8000000000000001,db5ef7ffff760000,e7d7fda000000000"};
typedef std::vector<std::pair<uint64_t, uint64_t> > Seq;
enum Kind { SFMT, DSFMT, RMT, NONE };
Kind kind_of(const std::string& p) { return p[0] == 's' ? SFMT : p[0] == 'd' ? DSFMT : p[0] == 'r' ? RMT : NONE; }
struct Params {                       // the normalised fields, as the programs write them
    Kind k; std::vector<std::string> f; int mexp;
    Params(Kind kk, const std::string& s) : k(kk), f(split(s)), mexp(atoi(f[0].c_str())) {}
    std::string text(size_t from, size_t to, bool tail) const { std::string s; for (size_t i = from; i < to && i < f.size(); i++) s += (i > from ? "," : "") + f[i]; return s + (tail ? "," : ""); }
    int num(size_t i) const { return atoi(f[i].c_str()); }
};
Sfmt sfmt_of(const Params& p) { Sfmt m; m.mexp = p.mexp; m.N = p.mexp / 128 + 1; m.n = m.N * 128; m.pos1 = p.num(1); m.sl1 = p.num(2); m.sl2 = p.num(3); m.sr1 = p.num(4); m.sr2 = p.num(5); for (size_t i = 0; i < 4; i++) m.msk[i] = (uint32_t)hex(p.f[6 + i]); return m; }
Dsfmt dsfmt_of(const Params& p) { Dsfmt m; m.mexp = p.mexp; m.N = (p.mexp - 128) / 104 + 1; m.n = m.N * 104 + 128; m.pos1 = p.num(1); m.sl1 = p.num(2); m.msk[0] = hex(p.f[3]); m.msk[1] = hex(p.f[4]); return m; }
Rmt rmt_of(const Params& p) { Rmt m; m.mexp = p.mexp; m.N = p.mexp / 64 + 1; m.n = m.N * 64; m.pos = p.num(1); m.mata = hex(p.f[2]); m.mb = hex(p.f[4]); m.mc = hex(p.f[5]); return m; }
uint64_t rev(uint64_t x, int w) { uint64_t y = 0; for (int i = 0; i < w; i++) y |= (x >> i & 1) << (w - 1 - i); return y; }
struct Tab { int bits; Delta d; };
Delta exact_of(const Seq& x, int width, int n) { ref::WordSeq s; s.width = width; s.out = x; Delta d; d.exact = 0; for (int v = 1; v <= width; v++) { int k = ref::kv(s, n, v); d.ke.push_back(k); d.exact += n / v - k; } d.kb = d.ke; d.blocks = d.exact; return d; }
std::vector<Tab> tables(const Params& p, const LinModel& m, const Parts& parts, bool lsb, Rng& r) {
    std::vector<Tab> t; St s = long_part(m, parts, r); Seq a, b, c; int n = p.mexp, len = 2 * n + 8;
    for (int i = 0; i < len; i++) {
        m.step(s);
        if (p.k == SFMT) {
            for (int e = 0; e < 4; e++) { uint64_t w = s[(size_t)e / 2] >> (32 * (e & 1)) & 0xffffffffu; a.push_back(std::make_pair((uint64_t)0, lsb ? rev(w, 32) : w)); }
            for (size_t e = 0; e < 2; e++) b.push_back(std::make_pair((uint64_t)0, lsb ? rev(s[e], 64) : s[e]));
            c.push_back(lsb ? std::make_pair(rev(s[0], 64), rev(s[1], 64)) : std::make_pair(s[1], s[0]));
        } else if (p.k == DSFMT) { a.push_back(std::make_pair((uint64_t)0, s[0])); a.push_back(std::make_pair((uint64_t)0, s[1])); }
        else a.push_back(std::make_pair((uint64_t)0, static_cast<const Rmt&>(m).out(s)));
    }
    auto put = [&](int bits, Delta d) { Tab x; x.bits = bits; x.d = d; t.push_back(x); };
    if (p.k == SFMT) { put(32, delta_elem(a, 32, 4, n)); put(64, delta_elem(b, 64, 2, n)); put(128, exact_of(c, 128, n)); } else if (p.k == DSFMT) put(52, delta_elem(a, 52, 2, n)); else put(64, exact_of(a, 64, n));
    return t;
}
// one line per v; every k(v) between the block-wise value and the exact dimension
std::string check_table(const std::vector<std::string>& l, size_t at, int mexp, const Tab& t, int total) {
    int sum = 0; if (l.size() < at + (size_t)t.bits) return "the table is cut short";
    for (int v = 1; v <= t.bits; v++) {
        int j, k, d, n = 0; const std::string& s = l[at + (size_t)v - 1]; if (sscanf(s.c_str(), "k(%d) = %d\td(%*d) = %d%n", &j, &k, &d, &n) != 3 || s != strf("k(%d) = %d\td(%d) = %d", v, k, v, d)) return "malformed line " + s;
        int ke = t.d.ke[(size_t)v - 1], kb = t.d.kb[(size_t)v - 1]; sum += d; if (k != ke && k != kb) return s + strf(": recomputed as %d", ke) + (kb != ke ? strf(" (%d by blocks)", kb) : ""); if (d != mexp / v - k) return s + ": the defect does not follow from k";
    }
    return sum == total ? "" : strf("the defects of the %d-bit table add up to %d, the total is given as %d", t.bits, sum, total);
}
int degree_range(const LinModel& m, St s, const std::vector<std::pair<int, int> >& bits, int* lo, int* w) {   // smallest and largest degree of the minimal polynomials of the given bits of the first word, one after the other along the sequence
    int hi = -10; *lo = 1 << 30; for (auto& b : bits) { std::vector<unsigned char> x; for (int i = 0; i < 2 * m.n; i++) { m.step(s); x.push_back((unsigned char)(s[(size_t)b.first] >> b.second & 1)); } ref::Poly p = ref::minpoly(x); *lo = std::min(*lo, p.deg()); if (p.deg() > hi) { hi = p.deg(); *w = p.weight(); } }
    return hi;
}
St seeded(const Params& p, const LinModel& m) {      // the state after seed(1)
    if (p.k == SFMT) { std::vector<uint32_t> x((size_t)m.n / 32, 0); x[0] = 1; for (size_t i = 1; i < x.size(); i++) x[i] ^= (uint32_t)i + 1812433253u * (x[i - 1] ^ (x[i - 1] >> 30)); St s; for (size_t i = 0; i < x.size(); i += 2) s.push_back(x[i] | (uint64_t)x[i + 1] << 32); return s; }
    size_t N = (size_t)(m.n - 128) / 104; St s((N + 1) * 2, 0); s[0] = 1; for (size_t i = 1; i < s.size(); i++) s[i] ^= i + UINT64_C(6364136223846793005) * (s[i - 1] ^ (s[i - 1] >> 62)); for (size_t i = 0; i < 2 * N; i++) s[i] &= UINT64_C(0xfffffffffffff); return s;
}
// sfmtdc's test_period describes its seeded state before annihilation in lines 2 and 3; wrong values there are a violation class of their own (see known_findings.txt)
std::string no_digits(const std::string& s) { std::string r; for (char c : s) if (c != '-' && !isdigit((unsigned char)c)) r += c; return r; }
std::string mask_seed_lines(const std::string& s) { std::string r; int line = 1; for (char c : s) { if (c == '\n') line++; if (line < 2 || line > 3 || (c != '-' && !isdigit((unsigned char)c))) r += c; } return r; }
// what the output of one program for one parameter set must be; empty: it is that
std::string check(const std::string& P, const Params& p, bool verb, bool lsb, bool chk, const std::string& out, int rc, uint64_t seed, Outcome& o, std::string& soft) {
    std::vector<std::string> l = lines_of(out); size_t at = 0; Rng r(seed); if (!out.empty() && out.back() != '\n') return "the last line is not ended";
    auto line = [&]() { return at < l.size() ? l[at++] : std::string("<end of output>"); }; auto want = [&](const std::string& w) { std::string g = line(); return g == w ? std::string() : "expected the line \"" + w + "\" and got \"" + g + "\""; };
    #define WANT(x) { std::string e_ = want(x); if (!e_.empty()) return e_; }
    #define DONE(code) { if (at != l.size()) return "stray output: " + l[at]; if (rc != (code)) return strf("exit status %d", rc); return ""; }
    if (P == "mt1") {
        static const int K[] = {19937, 9968, 6240, 4984, 3738, 3115, 2493, 2492, 1869, 1869, 1248, 1246, 1246, 1246, 1246, 1246}; int sum = 0;
        for (int v = 1; v <= 32; v++) { int k = v <= 16 ? K[v - 1] : 623; sum += 19937 / v - k; WANT(strf("k(%2d):%5d  d(%2d):%5d", v, k, v, 19937 / v - k)); } WANT(strf("delta:%d", sum)); DONE(0);
    }
    Sfmt sm; Dsfmt dm; Rmt rm; LinModel* m = p.k == SFMT ? (LinModel*)&(sm = sfmt_of(p)) : p.k == DSFMT ? (LinModel*)&(dm = dsfmt_of(p)) : (LinModel*)&(rm = rmt_of(p));
    std::string echo = p.k == RMT ? p.text(0, 6, false) : p.text(0, p.f.size(), true);
    if (P == "sfmt_test_linearity" || P == "dsfmt_test_linearity") { WANT(echo); WANT(std::string(p.k == SFMT ? 304 : 76, '.')); WANT("Linearity Test OK"); DONE(0); }
    Parts parts = parts_of(*m, r); bool ok = parts.err.empty(); o.counters[ok ? "maximal" : "not_maximal"]++; std::string nofac = strf("error does not have factor of degree %d", p.mexp);
    auto refused = [&](bool withdeg, int code) -> std::string { WANT(nofac); if (withdeg) { int d = -99; std::string g = line(); if (sscanf(g.c_str(), "degree = %d", &d) != 1 || g != strf("degree = %d", d) || d > m->n) return "malformed line " + g; } DONE(code); };
    if (P == "rmt_calc_period") { WANT(echo); if (!ok) return refused(true, -1); WANT(strf("deg irreducible = %d", p.mexp)); WANT(strf("period >= 2^%d-1", p.mexp)); DONE(0); }
    if (P == "rmt_calc_equidist") {
        if (!ok) return refused(true, -1); std::vector<Tab> t = tables(p, *m, parts, false, r); WANT(echo + strf(",%d", t[0].d.exact)); WANT("veq"); std::string e = check_table(l, at, p.mexp, t[0], t[0].d.exact); if (!e.empty()) return e; at += 64; DONE(0);
    }
    if (P == "sfmt_calc_equidist" || P == "dsfmt_calc_equidist") {
        if (!ok) return refused(false, -1); if (lsb) WANT("Equidistribution from LSB"); std::vector<Tab> t = tables(p, *m, parts, lsb, r); std::string g = line(); if (g.compare(0, echo.size(), echo) != 0) return "expected the line to begin with " + echo + " and got " + g;
        std::vector<std::string> f = split(g.substr(echo.size())); if (f.size() != t.size()) return "malformed line " + g; std::vector<int> tot; for (size_t i = 0; i < t.size(); i++) { tot.push_back(atoi(f[i].c_str())); if (f[i] != strf("%d", tot[i]) || tot[i] < t[i].d.exact || tot[i] > t[i].d.blocks) return strf("total defect for %d bits recomputed as ", t[i].bits) + t[i].d.text() + ": " + g; }
        if (verb) for (size_t i = 0; i < t.size(); i++) { WANT(strf("%dbit dimension of equidistribution at v-bit accuracy k(v)%s", t[i].bits, lsb ? " from LSB" : "")); std::string e = check_table(l, at, p.mexp, t[i], tot[i]); if (!e.empty()) return strf("%d bits: ", t[i].bits) + e; at += (size_t)t[i].bits; }
        DONE(0);
    }
    if (P == "sfmt_test_period" || P == "dsfmt_calc_period") {
        WANT(echo); std::vector<std::pair<int, int> > bits; if (p.k == SFMT) for (int i = 0; i < 128; i++) bits.push_back(std::make_pair(i / 64, i % 64)); else for (int i = 0; i < 104; i++) if (i < 52 || i >= 64) bits.push_back(std::make_pair(i / 64, i % 64));
        int lo, w = 0, hi = degree_range(*m, seeded(p, *m), bits, &lo, &w); 
        if (p.k == SFMT) { std::string x = line(), y = line(), X = strf("berore anni  min = %d max = %d", lo, hi), Y = strf("max weight = %d", w); if (no_digits(x) != no_digits(X) || no_digits(y) != no_digits(Y)) return "malformed lines " + x + " and " + y; if (x != X || y != Y) soft = "expected the lines \"" + X + "\" and \"" + Y + "\" for the seed 1 and got \"" + x + "\" and \"" + y + "\""; }
        else WANT(strf("berore anni  min = %d max = %d", lo, hi));
        if (!ok) { WANT(nofac); WANT("annihilate fail"); DONE(-1); } int S = p.k == SFMT ? 4 : 2; for (int i = 0; i < S; i++) for (int j = S; j >= 1; j--) WANT(strf("start_mode = %d weight_mode = %d min = %d max = %d", i, j, p.mexp, p.mexp)); DONE(0);
    }
    auto binary = [&](const ref::Poly& q) -> std::string { std::string row; for (int i = 0; i <= q.deg(); i++) { row += (char)('0' + q.get(i)); if (i % 32 == 31) { WANT(row); row = ""; } } WANT(row + strf("deg=%d", q.deg())); return ""; };
    if (P == "dsfmt_make_old_format") {
        WANT("succ = 1"); WANT(strf("mexp = %d, maxdegree = %d", p.mexp, m->n)); WANT("pos1 = " + p.f[1]); WANT("sl1 = " + p.f[2]); static const char* NM[] = {"msk1", "msk2", "fix1", "fix2", "pcv1", "pcv2"}; for (size_t i = 0; i < 6; i++) WANT(std::string(NM[i]) + " = " + p.f[3 + i]);
        std::string e = binary(parts.f); if (e.empty()) e = binary(ref::mul(parts.f, parts.q)); if (!e.empty()) return e; DONE(0);
    }
    size_t L = p.k == SFMT ? 0 : (size_t)dm.N * 2;
    if (chk) WANT(strf("mexp = %d, maxdegree = %d", p.mexp, m->n)); if (!ok) return refused(true, P == "dsfmt_calc_parity" ? -1 : 0);   // sfmt's calc_parity reports the refusal but ends with 0
    std::vector<std::pair<uint64_t, uint64_t> > shorts; for (int i = 0; i < m->n - p.mexp + 30; i++) { St s = apply(*m, parts.f, m->random(r)); shorts.push_back(std::make_pair(s[L], s[L + 1])); }
    if (P == "sfmt_calc_parity") {
        std::string g = line(), pre = p.text(0, 10, true); if (g.compare(0, pre.size(), pre) != 0) return "expected the line to begin with " + pre + " and got " + g; std::vector<std::string> f = split(g.substr(pre.size())); if (f.size() != 5 || !f[4].empty()) return "malformed line " + g; for (size_t i = 0; i < 4; i++) if (f[i].size() != 8) return "malformed line " + g;
        uint64_t a = hex(f[0]) | hex(f[1]) << 32, b = hex(f[2]) | hex(f[3]) << 32; if (!a && !b) return "zero parity vector: " + g; for (auto& s : shorts) if ((__builtin_popcountll(s.first & a) + __builtin_popcountll(s.second & b)) & 1) return "the parity vector accepts a state outside the long-period component: " + g;
        if (chk) WANT("test successed 100 / 100"); DONE(0);
    }
    if (P == "dsfmt_calc_parity") {
        std::string g = line(), pre = p.text(0, 7, true); if (g.compare(0, pre.size(), pre) != 0) return "expected the line to begin with " + pre + " and got " + g; std::vector<std::string> f = split(g.substr(pre.size())); if (f.size() != 3 || f[0].size() != 16 || f[1].size() != 16) return "malformed line " + g;
        uint64_t a = hex(f[0]), b = hex(f[1]); if (!a && !b) return "zero parity vector: " + g; for (auto& s : shorts) if ((__builtin_popcountll(s.first & a) + __builtin_popcountll(s.second & b)) & 1) return "the parity vector accepts a state outside the long-period component: " + g;
        if (chk) WANT("test successed 100 / 100"); DONE(0);
    }
    if (chk) { ref::Poly q = parts.q; WANT(strf("deg lcm poly = %d", q.deg() + p.mexp)); WANT(strf("deg small poly = %d", q.deg())); }
    std::string g = line(), pre = p.text(0, 5, true), post = ",0000000000000000,0000000000000000,"; if (g.size() != pre.size() + 33 + post.size() || g.compare(0, pre.size(), pre) != 0 || g.compare(pre.size() + 33, std::string::npos, post) != 0) return "malformed line " + g;
    uint64_t f1 = hex(g.substr(pre.size(), 16)), f2 = hex(g.substr(pre.size() + 17, 16));
    std::string e = check_fix(dm, parts, f1, f2, r); if (!e.empty()) return e + g;
    if (chk) { WANT(strf("fix1 = %016" PRIx64, f1)); WANT(strf("fix2 = %016" PRIx64, f2)); } DONE(0);
    #undef WANT
    #undef DONE
}
// ---- the simulated session
void bad(Outcome& o, const std::string& cls, const std::string& d) { if (o.vcls.empty()) { o.vcls = "analysis/" + cls; o.vdetail = d; } }
std::string join(const Args& a) { std::string s; for (auto& x : a) s += " " + x; return s; }
struct Opt { std::string prog, par; bool verb, lsb, chk, has_seed; uint64_t seed; };
Args args_of(const Opt& o, uint64_t style) {
    Args a; if (o.prog == "mt1") return a; if (o.prog == "dsfmt_make_old_format") style &= ~UINT64_C(128); bool opts = o.prog.find("calc_equidist") != std::string::npos && o.prog[0] != 'r'; Params p(kind_of(o.prog), o.par); std::string s;
    for (size_t i = 0; i < p.f.size(); i++) { std::string x = p.f[i]; bool ishex = x.size() >= 8; if (ishex) { if (style & 16) { size_t z = x.find_first_not_of('0'); x = z == std::string::npos ? "0" : x.substr(z); } if (style & 32) for (char& c : x) c = (char)toupper(c); if (style & 64) x = "0x" + x; } s += (i ? "," : "") + x; }
    if (style & 128) s += ",1234,77";    // the rest of a record as a search program writes it
    if (opts) { if (o.verb) a.push_back(style & 2 ? "--verbose" : "-v"); if (o.lsb) a.push_back(style & 2 ? "--reverse" : "-r"); if (o.has_seed) { std::string v = style & 1 ? strf("0x%" PRIx64, o.seed) : strf("%" PRIu64, o.seed); if (style & 4) a.push_back("--seed=" + v); else { a.push_back("-s"); a.push_back(v); } } }
    if (o.chk) a.push_back("-c"); if ((style & 8) && opts) a.insert(a.begin(), s); else a.push_back(s); return a;
}
Outcome eval(const Plan& pl) {
    Outcome o; Item c = pl.cfg(); Opt b; b.prog = c.gs("prog"); b.par = c.gs("par"); b.verb = c.gi("v"); b.lsb = c.gi("r"); b.chk = c.gi("c"); b.has_seed = c.has("sd"); b.seed = c.gx("sd"); Params p(kind_of(b.prog), b.par.empty() ? "0" : b.par);
    Item calm("run"); calm.i("clk", 0).x("cs", c.gx("cs", 1)); Args args = args_of(b, c.gx("style")); std::string cmd = b.prog + join(args); ChildResult r = run_prog(b.prog, args, calm); o.absorb(r); if (!o.error.empty() || !o.vcls.empty()) { if (!o.vcls.empty()) o.vdetail = cmd + ": " + o.vdetail; return o; }
    std::string base = r.results["out"]; int rc = atoi(r.results["rc"].c_str()); uint64_t allocs = strtoull(r.results["allocs"].c_str(), 0, 10); o.counters["prog_" + b.prog]++; o.desc = " " + cmd; o.sig = mix(o.sig, hash_str(base));
    std::string soft, e = check(b.prog, p, b.verb, b.lsb, b.chk, base, rc, pl.sub("m"), o, soft); if (!e.empty()) { bad(o, "wrong", cmd + ": " + e + "\nin\n" + base.substr(0, 3000)); return o; }
    o.counters["analyses_recomputed"]++; int other = 0; if (b.lsb) o.counters["from_lsb"]++;
    for (auto& it : pl.items) {
        if (it.kind != "run") continue; Item h = it; std::string what = it.gs("what"); Opt v = b; if (it.has("sd")) { v.has_seed = true; v.seed = it.gx("sd"); } else v.has_seed = false;
        if (what == "full") h.i("limit", (int64_t)(it.gx("at") % (base.size() + 1))); else if (what == "err") h.i("err", 1 + (int64_t)(it.gx("at") % 12)); else if (what == "kill") h.i("kill", (int64_t)(it.gx("at") % (base.size() + 1))); else if (what == "akill") h.i("akill", 1 + (int64_t)(it.gx("at") % (allocs + 1)));
        ChildResult q = run_prog(b.prog, args_of(v, it.gx("style")), h); o.absorb(q); if (!o.vcls.empty() || !o.error.empty()) { if (!o.vcls.empty()) o.vdetail = cmd + ", " + it.text() + ": " + o.vdetail; return o; }
        std::string got = q.results["out"]; bool cut = what != "same" && (q.results["end"] == "killed" || what == "full" || what == "err"); other++; o.counters["variant_" + what]++;
        bool same = cut ? base.compare(0, got.size(), got) == 0 : got == base; if (!same && b.prog == "sfmt_test_period") { std::string x = mask_seed_lines(base), y = mask_seed_lines(got); if (cut ? x.compare(0, y.size(), y) == 0 : x == y) { same = true; if (soft.empty()) soft = it.text() + " wrote\n" + got.substr(0, 300) + "\ninstead of\n" + base.substr(0, 300); } }
        if (!same) { bad(o, cut ? "cut" : "differs", cmd + " (" + it.text() + ") wrote\n" + got.substr(0, 1500) + "\ninstead of " + (cut ? "a beginning of\n" : "\n") + base.substr(0, 1500)); return o; }
        if (!cut && atoi(q.results["rc"].c_str()) != rc) { bad(o, "exit-status", cmd + " (" + it.text() + ") ended with status " + q.results["rc"]); return o; }
    }
    if (!soft.empty()) bad(o, "seed-words", cmd + ": " + soft);
    o.nontriv = other > 0; o.desc += strf(" -> status %d, %zu bytes, %d disturbed executions", rc, base.size(), other); return o;
}
std::string pick(const char* const* set, size_t n, Rng& r) { return set[r.below(n)]; }
std::string join_fields(const std::vector<std::string>& f) { std::string s; for (size_t i = 0; i < f.size(); i++) s += (i ? "," : "") + f[i]; return s; }
Plan gen(uint64_t seed, bool thorough) {
    Plan pl; pl.prop = "C14"; pl.seed = seed; Rng r(seed); Item c("cfg"); int w = (int)r.below(1000);
    std::string P = w < 160 ? "sfmt_calc_equidist" : w < 230 ? "sfmt_calc_parity" : w < 320 ? "sfmt_test_period" : w < 370 ? "sfmt_test_linearity" : w < 500 ? "dsfmt_calc_equidist" : w < 570 ? "dsfmt_calc_period" : w < 620 ? "dsfmt_test_linearity" : w < 710 ? "dsfmt_calc_fixpoint" : w < 740 ? "dsfmt_make_old_format" : w < 830 ? "dsfmt_calc_parity" : w < 940 ? "rmt_calc_equidist" : w < 985 ? "rmt_calc_period" : "mt1";
    Kind k = kind_of(P); bool eqs = P == "sfmt_calc_equidist", big = r.chance(thorough ? 0.3 : eqs ? 0.03 : 0.08); std::string par; bool eq = P.find("calc_equidist") != std::string::npos;
    if (k != NONE) {
        if (k == SFMT) par = big ? SFMT_SET[6 + r.below(4)] : SFMT_SET[r.below(6)]; else if (k == DSFMT) par = big ? DSFMT_SET[6 + r.below(4)] : DSFMT_SET[r.below(6)]; else par = big ? RMT_SET[12 + r.below(4)] : RMT_SET[r.below(12)];
        std::vector<std::string> f = split(par); auto flip = [&](size_t i, int bits) { uint64_t v = hex(f[i]) ^ UINT64_C(1) << r.below((uint64_t)bits); f[i] = f[i].size() == 8 ? strf("%08x", (unsigned)v) : strf("%016" PRIx64, v); }; auto rnd = [&](size_t i, int bits) { uint64_t v = r.chance(0.2) ? 0 : r.next() >> (64 - bits); f[i] = f[i].size() == 8 ? strf("%08x", (unsigned)v) : strf("%016" PRIx64, v); };
        int mexp = atoi(f[0].c_str()), N = k == SFMT ? mexp / 128 + 1 : k == DSFMT ? (mexp - 128) / 104 + 1 : mexp / 64 + 1; bool lin = P.find("linearity") != std::string::npos;
        if (k == SFMT) { if (r.chance(0.5)) for (size_t i = 10; i < 14; i++) rnd(i, 32); } else if (k == DSFMT) { if (r.chance(0.5)) for (size_t i = 5; i < 9; i++) rnd(i, 64); } else { if (r.chance(0.5)) rnd(3, 64); if (r.chance(0.5)) { rnd(4, 64); rnd(5, 64); } for (size_t i = 4; i < 6; i++) f[i] = strf("%016" PRIx64, hex(f[i]) >> (i == 4 ? 17 : 37) << (i == 4 ? 17 : 37)); }
        if (P != "dsfmt_make_old_format" && r.chance(lin ? 0.6 : 0.25)) {          // most of these do not have the period
            int x = (int)r.below(4);
            if (x == 0) { if (k == SFMT) flip(6 + r.below(4), 32); else if (k == DSFMT) flip(3 + r.below(2), 52); else flip(2, 64); }
            else if (x == 1) f[1] = strf("%d", (int)r.range(1, N - 2)); else if (x == 2) { if (k == SFMT) { f[2] = strf("%d", (int)r.range(1, 31)); f[4] = strf("%d", (int)r.range(1, 31)); } else if (k == DSFMT) f[2] = strf("%d", (int)r.range(1, 51)); else rnd(2, 64); }
            else if (k == SFMT) f[0] = big ? "1277" : r.chance(0.5) ? "601" : "613"; else if (k == DSFMT) f[0] = big ? "1277" : r.chance(0.5) ? "509" : "523"; else f[0] = strf("%d", mexp - (r.chance(0.5) ? 2 : 4));
        }
        par = join_fields(f);
    }
    if (P == "dsfmt_calc_fixpoint") { Params q(k, par); par = q.text(0, 5, false); } else if (P == "dsfmt_calc_parity") { Params q(k, par); par = q.text(0, 7, false); }
    c.s("prog", P).s("par", par).x("style", r.next()).x("cs", r.next()); if (eq && k != RMT) { if (r.chance(0.6)) c.i("v", 1); if (k == SFMT && r.chance(0.4)) c.i("r", 1); if (r.chance(0.5)) c.x("sd", r.chance(0.2) ? r.below(3) : r.next()); }
    if ((P == "dsfmt_calc_fixpoint" || P.find("calc_parity") != std::string::npos) && r.chance(0.5)) c.i("c", 1); pl.items.push_back(c);
    static const char* WH[] = {"same", "same", "full", "err", "kill", "akill"}; int n = big ? 1 : (int)r.range(1, 2);
    for (int i = 0; i < n; i++) { Item it("run"); it.s("what", i ? WH[r.below(6)] : r.chance(0.6) ? "same" : WH[2 + r.below(4)]).x("at", r.next()).i("clk", (int64_t)r.below(4)).x("cs", r.next()).i("buf", r.chance(0.3) ? 1 : r.chance(0.5) ? r.range(2, 90) : 8192).i("fill", r.chance(0.8) ? 2 : 1).x("fs", r.next()).x("style", r.next()); if (eq && k != RMT && r.chance(0.6)) it.x("sd", r.chance(0.2) ? r.below(3) : r.next()); if (r.chance(0.4)) it.i("chunk", r.range(1, 20)); pl.items.push_back(it); }
    return pl;
}
struct Reg { Reg() {
    Property p; p.id = "C14"; p.rule = "A run executes one analysis program (its real main, in a fresh simulated process) on parameters of maximal period or changed ones, recomputes everything it writes with independent models (the echoed parameters, acceptance or refusal, every k(v) and defect, degrees of minimal polynomials, parity, fixed point), and executes it again with another clock, seed, memory contents, argument spelling, output chunking, a failing or full output device, or a kill: the report depends on the parameters alone. Non-trivial: at least one disturbed execution.";
    p.generate = gen; p.evaluate = eval; p.shrink_keys = {"chunk"};
    p.real_components = {"samples/sfmtdc/calc_equidist.cpp, calc_parity.cpp, test_period.cpp, test_linearity.cpp", "samples/dSFMTdc/calc_equidist.cpp, calc_period.cpp, calc_fixpoint*.cpp, calc_parity*.cpp, make_old_format.cpp, test_linearity.cpp", "samples/RMT/calc_equidist.cpp, calc_period.cpp", "samples/MTDC/mt1.cpp", "the whole library under them", "NTL"}; p.stub_components = {"standard output device", "clock", "process memory contents", "process death"};
    p.quick_runs = 480; p.thorough_runs = 12000; p.required = {"prog_sfmt_calc_equidist", "prog_sfmt_test_period", "prog_sfmt_test_linearity", "prog_dsfmt_calc_equidist", "prog_dsfmt_calc_period", "prog_dsfmt_test_linearity", "prog_dsfmt_calc_fixpoint", "prog_dsfmt_calc_parity", "prog_sfmt_calc_parity", "prog_dsfmt_make_old_format", "prog_rmt_calc_equidist", "prog_rmt_calc_period", "prog_mt1", "maximal", "not_maximal", "from_lsb", "analyses_recomputed", "variant_same", "variant_full", "variant_err", "variant_kill", "variant_akill"};
    p.assumptions = {"SIMD element tables: each k(v) may be the exact dimension or the value of the block-wise method the programs use"};
    register_property(p);
} } reg;
}
