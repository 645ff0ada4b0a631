// Running the programs of samples/ as simulated processes, and independent models of their generators. Included by each property that does.
#ifndef VERIF_PROGS_HPP
#define VERIF_PROGS_HPP
#include "sim.hpp"
#include "gf2ref.hpp"
#include <stdarg.h>
#include <iostream>
#include <memory>
#include <set>
#include <getopt.h>
#include <string.h>
#include <stdlib.h>
#define PROG(n) extern int n##_main() __attribute__((weak)); extern int n##_main(int, char**) __attribute__((weak));
#define ALL_PROGS PROG(tinymt32dc) PROG(xorshift_1) PROG(xorshift_2) PROG(xorshift_3) PROG(xorshift_4) PROG(xorshift_5) PROG(mt2) PROG(rmt64dc) PROG(sfmtdc) PROG(sfmtdcfixed) PROG(dSFMTdc) PROG(sfmt_calc_equidist) PROG(sfmt_test_period) PROG(sfmt_test_linearity) PROG(dsfmt_calc_equidist) PROG(dsfmt_calc_period) PROG(dsfmt_test_linearity) PROG(dsfmt_calc_fixpoint) PROG(dsfmt_calc_parity) PROG(rmt_calc_equidist) PROG(rmt_calc_period) PROG(mt1) PROG(sfmt_calc_parity) PROG(dsfmt_make_old_format)
ALL_PROGS
#undef PROG
using namespace sim;
namespace {
int call_main(const std::string& n, int c, char** v) {
#define PROG(x) if (n == #x) { int (*a)() = x##_main; int (*b)(int, char**) = x##_main; if (b) return b(c, v); if (a) return a(); harness_error("program " #x " has no main"); }
    ALL_PROGS
#undef PROG
    harness_error("unknown program " + n);
}
// ---- the output device: a buffered file whose writes can be short, fail or be the last thing the process does
class ProgBuf : public std::streambuf {
public:
    std::string pend, durable; size_t cap = 1 << 16; int64_t chunk = 0, limit = -1, err_call = -1, kill_at = -1; int64_t calls = 0;
    bool flush() {
        HarnessScope h; seam_step();
        while (!pend.empty()) {
            calls++;
            if (err_call >= 0 && calls >= err_call) { count("fault.output_error"); pend.clear(); return false; }
            size_t k = pend.size(); if (chunk > 0 && (int64_t)k > chunk) { k = (size_t)chunk; count("fault.short_write"); }
            if (kill_at >= 0 && (int64_t)(durable.size() + k) >= kill_at) { durable.append(pend, 0, (size_t)kill_at - durable.size()); count("fault.kill_at_byte"); report("killed", -1); end_run(); }
            if (limit >= 0 && (int64_t)(durable.size() + k) > limit) { durable.append(pend, 0, (size_t)limit - durable.size()); count("fault.output_full"); pend.clear(); limit = (int64_t)durable.size(); return false; }
            durable.append(pend, 0, k); pend.erase(0, k);
        }
        return true;
    }
    void report(const char* how, int rc) { HarnessScope h; result("out", durable); result("end", how); result("rc", strf("%d", rc)); result("allocs", strf("%" PRIu64, alloc_stats().total)); }
protected:
    int_type overflow(int_type c) override { HarnessScope h; if (c == traits_type::eof()) return 0; pend.push_back((char)c); if (pend.size() >= cap && !flush()) return traits_type::eof(); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { HarnessScope h; pend.append(s, (size_t)n); if (pend.size() >= cap && !flush()) return 0; return n; }
    int sync() override { return flush() ? 0 : -1; }
};
ProgBuf* g_pb = 0;
void killed_at_alloc() { count("fault.kill_at_allocation"); g_pb->report("killed", -1); }

ssize_t cookie_write(void*, const char* b, size_t n) { HarnessScope h; return g_pb->sputn(b, (std::streamsize)n) == (std::streamsize)n ? (ssize_t)n : 0; }   // printf goes to the same device
typedef std::vector<std::string> Args;
// how: keys clk cs buf chunk fill stk limit err kill akill
ChildResult run_prog(const std::string& prog, const Args& args, const Item& how) {
    return run_child([&]() {
        HarnessScope h; std::string pn = prog; static ProgBuf pb; g_pb = &pb; static SimBuf sink;
        pb.cap = (size_t)how.gi("buf", 1 << 16); pb.chunk = how.gi("chunk", 0); pb.limit = how.gi("limit", -1); pb.err_call = how.gi("err", -1); pb.kill_at = how.gi("kill", -1);
        cookie_io_functions_t io = {0, cookie_write, 0, 0}; stdout = fopencookie(0, "w", io); setvbuf(stdout, 0, _IONBF, 0); std::cout.rdbuf(&pb); std::cerr.rdbuf(&sink); std::clog.rdbuf(&sink);
        std::vector<std::string> st(1, prog); st.insert(st.end(), args.begin(), args.end()); std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(0);
        optind = 1; clock_setup((int)how.gi("clk", 0), how.gx("cs", 1)); alloc_set_fill((int)how.gi("fill", 0), how.gx("fs", 1)); set_step_cap(UINT64_C(300000000)); poison_stack(how.gx("fs", 1));
        if (how.gi("akill", 0) > 0) kill_at_alloc(how.gi("akill"), killed_at_alloc);
        int rc = 0; { RealScope q; rc = call_main(pn, (int)st.size(), &av[0]); }
        kill_at_alloc(0, 0); std::cout.flush(); pb.flush(); pb.report("exit", rc); count("program_runs"); count("clock_reads", clock_calls());
    });
}
std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> v; size_t p = 0, q; while ((q = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }
bool is_record(const std::string& prog, const std::string& l) {
    if (prog == "tinymt32dc") { if (l.size() < 33 || l[32] != ',') return false; for (int i = 0; i < 32; i++) if (!isxdigit((unsigned char)l[(size_t)i])) return false; return true; }
    if (prog == "mt2" || prog == "rmt64dc" || prog == "sfmtdc" || prog == "sfmtdcfixed" || prog == "dSFMTdc") { int c = 0; for (char x : l) c += x == ','; static const std::map<std::string, int> N = {{"mt2", 6}, {"rmt64dc", 6}, {"sfmtdc", 16}, {"sfmtdcfixed", 16}, {"dSFMTdc", 9}}; return !l.empty() && isdigit((unsigned char)l[0]) && isdigit((unsigned char)l.back()) && c == N.at(prog); }
    return !l.empty() && l.find(':') != std::string::npos;
}
std::vector<std::string> records(const std::string& prog, const std::string& out) { std::vector<std::string> v; for (auto& l : lines_of(out)) if (is_record(prog, l)) v.push_back(l); return v; }
std::vector<std::string> split(const std::string& l) { std::vector<std::string> f(1); for (char c : l) if (c == ',') f.push_back(""); else f.back() += c; return f; }

// ---- reference models
std::string line_of(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string line_of(const char* fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
int defect_of(const ref::WordSeq& s, int n, int bits) { int d = 0; for (int v = 1; v <= bits; v++) d += n / v - ref::kv(s, n, v); return d; }
struct Tiny {
    uint32_t m1, m2, tm, s[4];
    Tiny(uint32_t id, uint32_t num) { uint32_t w = (num ^ (num << 15) ^ (num << 23)) << 1; m1 = (w & 0xffff0000u) | (id & 0xffffu); m2 = (w & 0xffffu) | (id & 0xffff0000u); m1 ^= m1 >> 19; m2 ^= m2 << 18; m2 ^= 1; tm = 0; s[0] = s[1] = s[2] = 0; s[3] = 1; }
    uint32_t next() {
        uint32_t y = s[3], x = (s[0] & 0x7fffffffu) ^ s[1] ^ s[2]; x ^= x << 1; y ^= (y >> 1) ^ x;
        s[0] = s[1]; s[1] = s[2]; s[2] = x ^ (y << 10); s[3] = y; if (y & 1) { s[1] ^= m1; s[2] ^= m2; }
        uint32_t t1 = s[0] ^ (s[2] >> 8), t0 = s[3] ^ t1; return t1 & 1 ? t0 ^ tm : t0;
    }
    // the minimal polynomial of the state transition when it is the full 127 degree, zero otherwise
    ref::Poly minpoly() const { Tiny c(*this); std::vector<unsigned char> b; for (int i = 0; i < 260; i++) { c.next(); b.push_back((unsigned char)(c.s[3] & 1)); } ref::Poly p = ref::minpoly(b); return p.deg() == 127 ? p : ref::Poly(); }
};
struct TinyScan {                     // the candidates from a start value downwards that have the maximal period
    uint32_t id; int64_t num; TinyScan(uint32_t i, int64_t start) : id(i), num(start) {}
    bool next(int64_t* n, ref::Poly* p) { for (; num >= 0; num--) { ref::Poly q = Tiny(id, (uint32_t)num).minpoly(); if (q.deg() == 127 && ref::irreducible(q)) { *n = num--; *p = q; return true; } } return false; }
};
std::string tiny_line(uint32_t id, int64_t num, const ref::Poly& p, uint32_t tmat, int* delta) {
    Tiny t(id, (uint32_t)num); t.tm = tmat; ref::WordSeq s; s.width = 32; for (int i = 0; i < 256; i++) s.out.push_back(std::make_pair((uint64_t)0, (uint64_t)t.next())); *delta = defect_of(s, 127, 32);
    uint64_t hi = p.w.size() > 1 ? p.w[1] : 0, lo = p.w.empty() ? 0 : p.w[0]; return line_of("%016" PRIx64 "%016" PRIx64 ",%u,%08x,%08x,%08x,%d,%d", hi, lo, id, t.m1, t.m2, tmat, p.weight(), *delta);
}
// checks the records of one uninterrupted TinyMT search; fills in the candidate number of each. complete: the search ran to the end of the numbers
std::string check_tiny(const std::vector<std::string>& rec, uint32_t id, int64_t start, int maxd, bool strict, bool complete, std::vector<int64_t>* nums) {
    TinyScan sc(id, start); size_t i = 0; int64_t n; ref::Poly p;
    while (i < rec.size()) {
        std::vector<std::string> f = split(rec[i]); if (f.size() != 7) return "record " + rec[i] + " is malformed"; uint32_t tmat = (uint32_t)strtoul(f[4].c_str(), 0, 16);
        if (!sc.next(&n, &p)) return "record " + rec[i] + " describes no candidate at or below the start value that is left";
        int d; std::string want = tiny_line(id, n, p, tmat, &d);
        if (want != rec[i]) {
            if (!strict) continue;    // that candidate may have been left out for its defect
            return strf("record %zu is %s; the next candidate of maximal period is number %" PRId64 ", described by %s", i, rec[i].c_str(), n, want.c_str());
        }
        if (d > maxd) return strf("record %zu has defect %d, the limit is %d", i, d, maxd);
        nums->push_back(n); i++;
    }
    if (complete && strict && sc.next(&n, &p)) return strf("candidate %" PRId64 " has the maximal period but was not written", n);
    return "";
}
typedef std::vector<uint64_t> St;
struct LinModel { virtual ~LinModel() {} virtual void step(St&) const = 0; virtual St random(Rng&) const = 0; int n = 0, mexp = 0; };
St apply(const LinModel& m, const ref::Poly& p, St s) { St a(s.size(), 0); for (int i = 0; i <= p.deg(); i++) { if (p.get(i)) for (size_t k = 0; k < s.size(); k++) a[k] ^= s[k]; m.step(s); } return a; }
bool zero(const St& s) { for (uint64_t v : s) if (v) return false; return true; }
ref::Poly lcm(const ref::Poly& a, const ref::Poly& b) { return ref::quo(ref::mul(a, b), ref::gcd(a, b)); }
ref::Poly annihilator(const LinModel& m, Rng& r) {
    ref::Poly a(1); int same = 0;
    for (int t = 0; t < 400; t++) {
        St s = m.random(r), w;
        if (same >= 2) {    // it annihilates every state unless one of 48 random ones is left over (each with probability 1/2 at least)
            bool done = true; for (int i = 0; i < 48 && done; i++) { s = apply(m, a, m.random(r)); done = zero(s); } if (done) break;
        } for (size_t k = 0; k < s.size(); k++) w.push_back(r.next()); std::vector<unsigned char> b;
        for (int i = 0; i < 2 * m.n + 2; i++) { uint64_t x = 0; for (size_t k = 0; k < s.size(); k++) x ^= s[k] & w[k]; b.push_back((unsigned char)(__builtin_popcountll(x) & 1)); m.step(s); }
        ref::Poly l = same >= 2 ? ref::mul(a, ref::minpoly(b)) : lcm(a, ref::minpoly(b)); if (l == a) same++; else { same = 0; a = l; }
    }
    return a;
}
ref::Poly inverse(ref::Poly a, const ref::Poly& f) {    // a^-1 mod f; zero if there is none
    ref::Poly r0 = f, r1 = a, t0, t1(1); r1.mod(f);
    while (!r1.zero()) { ref::Poly q, r; ref::divmod(r0, r1, q, r); ref::Poly t = ref::mul(q, t1); t.add(t0); t.trim(); r0 = r1; r1 = r; t0 = t1; t1 = t; }
    if (!r0.one()) return ref::Poly(); t0.mod(f); return t0;
}
struct Parts { ref::Poly f, q; std::string err; };
Parts parts_of(const LinModel& m, Rng& r) {
    Parts p; ref::Poly a = annihilator(m, r); int many = 0; p.f = ref::factor_of_degree(a, m.mexp, &many);
    if (many != 1) { p.err = strf("the recursion has %d irreducible factors of degree %d, a period of 2^%d-1 needs one", many, m.mexp, m.mexp); return p; }
    p.q = ref::quo(a, p.f); return p;
}
// largest k such that the v leading bits of k consecutive elements, from element s of a block, are independent; x: elements, E per block
int kv_elem(const std::vector<std::pair<uint64_t, uint64_t> >& x, int width, int E, int s, int n, int v) {
    size_t words = (size_t)(n + 63) / 64; std::vector<std::vector<uint64_t> > piv((size_t)n); int k = 0;
    for (int j = 0; j < n / v; j++) {
        for (int b = 0; b < v; b++) {
            std::vector<uint64_t> row(words, 0); int pos = width - 1 - b; bool dep = true;
            for (int i = 0; i < n; i++) { const std::pair<uint64_t, uint64_t>& o = x[(size_t)(E * i + s + j)]; uint64_t bit = pos >= 64 ? o.first >> (pos - 64) & 1 : o.second >> pos & 1; row[(size_t)i >> 6] |= bit << (i & 63); }
            for (size_t w = 0; w < words && dep; w++) while (row[w]) {
                int i = (int)w * 64 + __builtin_ctzll(row[w]);
                if (piv[(size_t)i].empty()) { piv[(size_t)i] = row; dep = false; break; }
                for (size_t q = w; q < words; q++) row[q] ^= piv[(size_t)i][q];
            }
            if (dep) return k;
        }
        k = j + 1;
    }
    return k;
}
// total defect over the element windows (exact), and the value the block-wise method arrives at: for a start element, windows of e whole blocks beginning w elements later, taken to cover E*e-(E-w) elements
struct Delta { int exact, blocks; std::vector<int> ke, kb; bool operator==(int d) const { return d == exact || d == blocks; } std::string text() const { return exact == blocks ? strf("%d", exact) : strf("%d (exact: %d)", blocks, exact); } };
Delta delta_elem(const std::vector<std::pair<uint64_t, uint64_t> >& x, int width, int E, int n) {
    Delta d; d.exact = d.blocks = 0;
    for (int v = 1; v <= width; v++) {
        std::vector<int> k; for (int s = 0; s < E; s++) k.push_back(kv_elem(x, width, E, s, n, v)); int ke = 1 << 30, kb = 1 << 30;
        for (int s = 0; s < E; s++) { int m = -1; for (int w = 1; w <= E; w++) m = std::max(m, E * (k[(size_t)((s + w) % E)] / E) - (E - w)); ke = std::min(ke, k[(size_t)s]); kb = std::min(kb, m); }
        d.exact += n / v - ke; d.blocks += n / v - kb; d.ke.push_back(ke); d.kb.push_back(kb);
    }
    return d;
}
struct Sfmt : LinModel {      // state: w[0] (latest) ... w[N-1], two 64-bit halves each
    int N, pos1, sl1, sl2, sr1, sr2; uint32_t msk[4];
    void step(St& s) const override {
        auto W = [&](int j) { return &s[(size_t)(j % N) * 2]; }; uint64_t *a = W(1), *b = W(1 + pos1), *c = W(N - 1), *d = W(0), r[2];
        int l = sl2 * 8, rr = sr2 * 8; uint64_t x1 = a[1] << l | a[0] >> (64 - l), x0 = a[0] << l, y0 = c[0] >> rr | c[1] << (64 - rr), y1 = c[1] >> rr;
        auto half = [&](int h, uint64_t x, uint64_t y) { uint64_t o = 0; for (int e = 0; e < 2; e++) { uint32_t bb = (uint32_t)(b[h] >> (32 * e)), dd = (uint32_t)(d[h] >> (32 * e)); uint32_t v = ((bb >> sr1) & msk[2 * h + e]) ^ (dd << sl1); o |= (uint64_t)v << (32 * e); } return o ^ a[h] ^ x ^ y; };
        r[0] = half(0, x0, y0); r[1] = half(1, x1, y1); uint64_t d0 = d[0], d1 = d[1];
        for (int j = 1; j < N - 1; j++) { s[(size_t)j * 2] = s[(size_t)j * 2 + 2]; s[(size_t)j * 2 + 1] = s[(size_t)j * 2 + 3]; }
        s[(size_t)N * 2 - 2] = d0; s[(size_t)N * 2 - 1] = d1; s[0] = r[0]; s[1] = r[1];
    }
    St random(Rng& r) const override { St s; for (int i = 0; i < 2 * N; i++) s.push_back(r.next()); return s; }
};
struct Dsfmt : LinModel {     // state: w[0..N-1] (two 52-bit halves each), lung
    int N, pos1, sl1; uint64_t msk[2];
    void step(St& s) const override {
        uint64_t *a = &s[2 % (size_t)(2 * N)], *b = &s[(size_t)((1 + pos1) % N) * 2], *L = &s[(size_t)N * 2], l[2], r[2];
        for (int h = 0; h < 2; h++) { uint64_t o = L[1 - h]; l[h] = (a[h] << sl1) ^ (o >> 32) ^ (o << 32) ^ b[h]; r[h] = (l[h] >> 12) ^ (l[h] & msk[h]) ^ a[h]; }
        uint64_t d0 = s[0], d1 = s[1]; L[0] = l[0]; L[1] = l[1];
        for (int j = 1; j < N - 1; j++) { s[(size_t)j * 2] = s[(size_t)j * 2 + 2]; s[(size_t)j * 2 + 1] = s[(size_t)j * 2 + 3]; }
        s[(size_t)N * 2 - 2] = d0; s[(size_t)N * 2 - 1] = d1; s[0] = r[0]; s[1] = r[1];
    }
    St random(Rng& r) const override { St s; for (int i = 0; i < 2 * N; i++) s.push_back(r.next() >> 12); s.push_back(r.next()); s.push_back(r.next()); return s; }
};
struct Rmt : LinModel {
    int N, pos; uint64_t mata, mb, mc;
    void step(St& s) const override {
        uint64_t x = s[(size_t)(1 % N)], y = s[(size_t)((1 + pos) % N)]; y ^= y << 17; uint64_t v = y ^ (x >> 1) ^ (x & 1 ? mata : 0), d = s[0];
        for (int j = 1; j < N - 1; j++) s[(size_t)j] = s[(size_t)j + 1]; s[(size_t)N - 1] = d; s[0] = v;
    }
    uint64_t out(const St& s) const { uint64_t x = s[0]; x ^= (x >> 29) & UINT64_C(0x5555555555555555); x ^= (x << 17) & mb; x ^= (x << 37) & mc; x ^= x >> 43; return x; }
    St random(Rng& r) const override { St s; for (int i = 0; i < N; i++) s.push_back(r.next()); return s; }
};
uint64_t hex(const std::string& s) { return strtoull(s.c_str(), 0, 16); }
St long_part(const LinModel& m, const Parts& p, Rng& r) { for (;;) { St s = apply(m, p.q, m.random(r)); if (!zero(s) && zero(apply(m, p.f, s))) return s; } }
std::string check_sfmt(const std::string& l, int mexp, bool fixed, uint64_t seed) {
    std::vector<std::string> f = split(l); Rng r(seed); Sfmt m; m.mexp = mexp; m.N = mexp / 128 + 1; m.n = m.N * 128;
    m.pos1 = atoi(f[1].c_str()); m.sl1 = atoi(f[2].c_str()); m.sl2 = atoi(f[3].c_str()); m.sr1 = atoi(f[4].c_str()); m.sr2 = atoi(f[5].c_str()); for (int i = 0; i < 4; i++) m.msk[i] = (uint32_t)hex(f[6 + (size_t)i]);
    if (m.pos1 < 1 || m.pos1 >= m.N - 1 || m.sl1 < 1 || m.sl1 > 31 || m.sr1 < 1 || m.sr1 > 31 || m.sl2 < 1 || m.sl2 > 7 || m.sr2 < 1 || m.sr2 > 7) return "parameters out of range: " + l;
    if (fixed && (m.sl1 != 19 || m.sl2 != 1 || m.sr1 != 7 || m.sr2 != 1)) return "the fixed shifts differ: " + l;
    Parts p = parts_of(m, r); if (!p.err.empty()) return p.err + ": " + l;
    uint64_t par[2] = {hex(f[10]) | hex(f[11]) << 32, hex(f[12]) | hex(f[13]) << 32}; if (!par[0] && !par[1]) return "zero parity vector: " + l;
    for (int i = 0; i < m.n - mexp + 30; i++) { St s = apply(m, p.f, m.random(r)); if ((__builtin_popcountll(s[0] & par[0]) + __builtin_popcountll(s[1] & par[1])) & 1) return "the parity vector accepts a state outside the long-period component: " + l; }
    St s = long_part(m, p, r); std::vector<std::pair<uint64_t, uint64_t> > x32, x64, x128;
    for (int t = 0; t < 2 * mexp + 8; t++) { m.step(s); for (int e = 0; e < 4; e++) x32.push_back(std::make_pair((uint64_t)0, s[(size_t)e / 2] >> (32 * (e & 1)) & 0xffffffffu)); x64.push_back(std::make_pair((uint64_t)0, s[0])); x64.push_back(std::make_pair((uint64_t)0, s[1])); x128.push_back(std::make_pair(s[1], s[0])); }
    Delta d32 = delta_elem(x32, 32, 4, mexp), d64 = delta_elem(x64, 64, 2, mexp), d128 = delta_elem(x128, 128, 1, mexp);
    if (!(d32 == atoi(f[14].c_str())) || !(d64 == atoi(f[15].c_str())) || !(d128 == atoi(f[16].c_str()))) return "total defects recomputed as " + d32.text() + ", " + d64.text() + ", " + d128.text() + ": " + l;
    return "";
}
std::string check_fix(const Dsfmt& m, const Parts& p, uint64_t f1, uint64_t f2, Rng& r) {
    size_t L = (size_t)m.N * 2;
    // the fixed point of the affine recursion (exponent bits held constant), within the long-period component
    St c(L + 2, 0); const uint64_t P = UINT64_C(0x3ff0000000000000); for (size_t h = 0; h < 2; h++) { c[L + h] = (P << m.sl1) ^ P; c[h] = (c[L + h] >> 12) ^ (c[L + h] & m.msk[h]); }
    ref::Poly t1(3), qi = inverse(ref::mul(p.q, t1), p.f); if (qi.zero()) return ""; St fx = apply(m, qi, apply(m, p.q, c));
    uint64_t d0 = fx[L] ^ f1, d1 = fx[L + 1] ^ f2;
    // only the long-period component matters: the written value may differ by the lung of a state of the other component
    std::map<int, std::pair<uint64_t, uint64_t> > piv; auto red = [&](uint64_t& hi, uint64_t& lo) { for (int i = 127; i >= 0; i--) { bool on = i >= 64 ? hi >> (i - 64) & 1 : lo >> i & 1; if (!on) continue; auto k = piv.find(i); if (k == piv.end()) return i; hi ^= k->second.first; lo ^= k->second.second; } return -1; };
    for (int i = 0; i < m.n - m.mexp + 40; i++) { St u = apply(m, p.f, m.random(r)); uint64_t hi = u[L + 1], lo = u[L]; int k = red(hi, lo); if (k >= 0) piv[k] = std::make_pair(hi, lo); }
    uint64_t h2 = d1, l2 = d0; if (red(h2, l2) >= 0) return strf("fixed point recomputed as %016" PRIx64 ",%016" PRIx64 ": ", fx[L], fx[L + 1]);
    return "";
}
std::string check_dsfmt(const std::string& l, int mexp, int fixed, uint64_t seed) {
    std::vector<std::string> f = split(l); Rng r(seed); Dsfmt m; m.mexp = mexp; m.N = (mexp - 128) / 104 + 1; m.n = m.N * 104 + 128;
    m.pos1 = atoi(f[1].c_str()); m.sl1 = atoi(f[2].c_str()); m.msk[0] = hex(f[3]); m.msk[1] = hex(f[4]);
    if (m.pos1 < 1 || m.pos1 >= m.N - 1 || m.sl1 < 1 || m.sl1 > 52 || (m.msk[0] | m.msk[1]) >> 52) return "parameters out of range: " + l;
    if (fixed >= 0 && m.sl1 != fixed) return "the fixed shift differs: " + l;
    Parts p = parts_of(m, r); if (!p.err.empty()) return p.err + ": " + l;
    uint64_t par[2] = {hex(f[7]), hex(f[8])}; size_t L = (size_t)m.N * 2; if (!par[0] && !par[1]) return "zero parity vector: " + l;
    for (int i = 0; i < m.n - mexp + 30; i++) { St s = apply(m, p.f, m.random(r)); if ((__builtin_popcountll(s[L] & par[0]) + __builtin_popcountll(s[L + 1] & par[1])) & 1) return "the parity vector accepts a state outside the long-period component: " + l; }
    std::string fe = check_fix(m, p, hex(f[5]), hex(f[6]), r); if (!fe.empty()) return fe + l;
    St s = long_part(m, p, r); std::vector<std::pair<uint64_t, uint64_t> > x; for (int t = 0; t < 2 * mexp + 8; t++) { m.step(s); x.push_back(std::make_pair((uint64_t)0, s[0])); x.push_back(std::make_pair((uint64_t)0, s[1])); }
    Delta d = delta_elem(x, 52, 2, mexp); if (!(d == atoi(f[9].c_str()))) return "total defect recomputed as " + d.text() + ": " + l;
    return "";
}
std::string check_rmt(const std::string& l, int mexp, uint64_t seed) {
    std::vector<std::string> f = split(l); Rng r(seed); Rmt m; m.mexp = mexp; m.N = mexp / 64 + 1; m.n = m.N * 64; m.pos = atoi(f[1].c_str()); m.mata = hex(f[2]); m.mb = hex(f[4]); m.mc = hex(f[5]);
    if (m.pos < 0 || m.pos >= m.N) return "parameters out of range: " + l;
    Parts p = parts_of(m, r); if (!p.err.empty()) return p.err + ": " + l; uint64_t par = hex(f[3]); if (!par) return "zero parity vector: " + l;
    for (int i = 0; i < m.n - mexp + 30; i++) { St s = apply(m, p.f, m.random(r)); if (__builtin_popcountll(s[0] & par) & 1) return "the parity vector accepts a state outside the long-period component: " + l; }
    St s = long_part(m, p, r); ref::WordSeq q; q.width = 64; for (int t = 0; t < 2 * mexp + 2; t++) { m.step(s); q.out.push_back(std::make_pair((uint64_t)0, m.out(s))); }
    int d = defect_of(q, mexp, 64), full = d; for (int v = 1; v <= 64; v++) full += m.n / v - mexp / v;   // counted against the whole state, as the combined search does
    if (atoi(f[6].c_str()) != d && atoi(f[6].c_str()) != full) return strf("total defect recomputed as %d (%d against the whole state): ", d, full) + l;
    return "";
}
std::string check_mt(const std::string& l, int mexp, int id, int maxd) {
    std::vector<std::string> f = split(l); int N = mexp / 32 + 1, rr = N * 32 - mexp, pos = atoi(f[2].c_str()); uint32_t mata = (uint32_t)hex(f[3]), mb = (uint32_t)hex(f[4]), mc = (uint32_t)hex(f[5]), up = 0xffffffffu << rr;
    if (atoi(f[1].c_str()) != id || (int)(mata & 0xffffu) != id) return "the identifier is not part of the parameters: " + l;
    if (pos < 1 || pos >= N) return "parameters out of range: " + l;
    std::vector<uint32_t> s; for (int i = 0; i < N; i++) s.push_back((uint32_t)(i * 2654435761u + 12345u)); std::vector<unsigned char> b; ref::WordSeq q; q.width = 32; int ix = N - 1;
    for (int t = 0; t < 2 * mexp + 80; t++) {
        ix = (ix + 1) % N; uint32_t y = (s[(size_t)ix] & up) | (s[(size_t)((ix + 1) % N)] & ~up); y = s[(size_t)((ix + pos) % N)] ^ (y >> 1) ^ (y & 1 ? mata : 0); s[(size_t)ix] = y;
        b.push_back((unsigned char)(y & 1)); y ^= y >> 12; y ^= (y << 7) & mb; y ^= (y << 15) & mc; y ^= y >> 18; q.out.push_back(std::make_pair((uint64_t)0, (uint64_t)y));
    }
    std::vector<unsigned char> tail(b.begin() + 33, b.end()); ref::Poly p = ref::minpoly(tail); if (p.deg() != mexp || !ref::irreducible(p)) return strf("the minimal polynomial has degree %d and is not primitive of degree %d: ", p.deg(), mexp) + l;
    q.out.erase(q.out.begin(), q.out.begin() + 33); int d = defect_of(q, mexp, 32); if (atoi(f[6].c_str()) != d) return strf("total defect recomputed as %d: ", d) + l;
    if (d > maxd) return strf("defect above the limit %d: ", maxd) + l;
    return "";
}
}
#endif
