// C12: the search programs of samples/ run as simulated processes: clock, memory, output device and kill are the simulator's.
#include "progs.hpp"
namespace {
// ---- the XORSHIFT family
struct Xs { uint32_t v[4]; int pat, a, b, c; Xs(int p, int aa, int bb, int cc) : pat(p), a(aa), b(bb), c(cc) { v[0] = v[1] = v[2] = 1; v[3] = ~1u; }
    uint32_t g(uint32_t t) const { switch (pat) { case -1: return t ^ t >> c; case 0: case 1: t ^= t >> a; return t ^ t << b; case 2: case 3: t ^= t << a; return t ^ t >> b; case 4: case 5: return t ^ t >> a; default: return t ^ t << a; } }
    uint32_t h(uint32_t t) const { switch (pat) { case -1: t ^= t << a; return t ^ t >> b; case 0: case 2: return t ^ t << c; case 1: case 3: return t ^ t >> c; case 4: case 6: t ^= t >> b; return t ^ t << c; default: t ^= t << b; return t ^ t >> c; } }
    uint32_t next() { uint32_t t = h(v[0]); v[0] = v[1]; v[1] = v[2]; v[2] = v[3]; return v[3] = g(v[3]) ^ t; }
    ref::Poly minpoly() const { Xs x(*this); std::vector<unsigned char> s; for (int i = 0; i < 256; i++) s.push_back((unsigned char)(x.next() & 1)); return ref::minpoly(s); }
    int delta() const { Xs x(*this); ref::WordSeq s; s.width = 32; for (int i = 0; i < 260; i++) s.out.push_back(std::make_pair((uint64_t)0, (uint64_t)x.next())); return defect_of(s, 128, 32); } };
bool xs_maximal(const Xs& x) { ref::Poly p = x.minpoly(); return p.deg() == 128 && ref::primitive(p); }
Xs xs_of(int prog, uint32_t num) { if (prog == 3) return Xs(-1, (int)(num & 31), (int)(num >> 5 & 31), (int)(num >> 10 & 31)); return Xs((int)(num >> 15 & 7), (int)(num >> 10 & 31), (int)(num >> 5 & 31), (int)(num & 31)); }
std::string check_xs(int prog, const std::string& out, uint64_t seed) {
    std::vector<std::string> ls = lines_of(out); if (ls.empty()) return "no output"; ls.erase(ls.begin()); int64_t top = prog == 3 ? 0x7fff : 0x3ffff, last = top + 1; std::set<int64_t> got;
    for (auto& l : ls) {
        int d, a, b, c, p = -1; int64_t num; bool ok = prog == 3 ? sscanf(l.c_str(), "%d:%d,%d,%d", &d, &a, &b, &c) == 4 : sscanf(l.c_str(), "%d:%d,%d,%d,%d", &d, &p, &a, &b, &c) == 5; if (!ok) return "malformed record " + l;
        num = prog == 3 ? a | b << 5 | c << 10 : c | b << 5 | a << 10 | p << 15; if (num >= last || num < 0) return "record out of order: " + l; last = num; got.insert(num);
        Xs x = xs_of(prog, (uint32_t)num); if (!xs_maximal(x)) return "the period is not 2^128-1: " + l; int dd = x.delta(); if (dd != d) return strf("total defect recomputed as %d: ", dd) + l;
    }
    Rng r(seed); for (int i = 0; i < (prog == 3 ? 6000 : 9000); i++) { int64_t num = (int64_t)r.below((uint64_t)top + 1); if (!got.count(num) && xs_maximal(xs_of(prog, (uint32_t)num))) return strf("candidate %" PRId64 " has the maximal period but is not listed", num); }
    return "";
}
std::string check_xs_table(int prog, const std::string& out) {
    std::string want; if (prog == 1) { Xs x(-1, 5, 14, 1); ref::Poly p = x.minpoly(); want = strf("degree = %d\n", p.deg()) + (p.deg() == 128 && ref::primitive(p) ? "period is 2^128 -1.\n" : "period is unknown.\n"); return out == want ? "" : "expected " + want; }
    Xs x = prog == 2 ? Xs(-1, 5, 14, 1) : Xs(7, 20, 11, 7);   // 5: w ^ w<<a, x ^ x<<b then >>c
    ref::WordSeq s; s.width = 32; for (int i = 0; i < 260; i++) s.out.push_back(std::make_pair((uint64_t)0, (uint64_t)x.next())); int d = 0;
    for (int v = 1; v <= 32; v++) { int k = ref::kv(s, 128, v); d += 128 / v - k; want += strf("k(%2d):%3d  d(%2d):%3d\n", v, k, v, 128 / v - k); } want += strf("delta:%d\n", d); return out == want ? "" : "expected\n" + want;
}
// ---- the simulated session
struct Opt { std::string prog; int64_t id = 1, start = 0x7fffffff, count = 1, max = 1 << 30; bool all = false, verb = false, has_max = false, has_start = false, has_seed = false; int64_t mexp = 0, x = -1; uint64_t seed = 0; };
Args args_of(const Opt& o, uint64_t style) {
    Args a; auto num = [&](int64_t v, bool hexok) { return hexok && (style & 1) ? strf("0x%" PRIx64, v) : strf("%" PRId64, v); };
    auto opt = [&](const char* s, const char* l, const std::string& v) { if (style & 2) a.push_back(std::string("--") + l + "=" + v); else if (style & 4) a.push_back(std::string("-") + s + v); else { a.push_back(std::string("-") + s); a.push_back(v); } };
    if (o.prog.compare(0, 8, "xorshift") == 0) return a; Args pos;
    if (o.prog == "tinymt32dc") { pos.push_back(strf("%" PRId64, o.id)); if (o.all) a.push_back(style & 2 ? "--all" : "-a"); if (o.has_start) opt("s", "start", num(o.start, true)); if (o.has_max) opt("m", "max", num(o.max, false)); }
    else {
        pos.push_back(strf("%" PRId64, o.mexp)); if (o.prog == "mt2") pos.push_back(strf("%" PRId64, o.id));
        if (o.has_seed) opt("s", "seed", num((int64_t)o.seed, true)); if (o.x >= 0) { if (style & 2) a.push_back(strf("--fixed=%" PRId64, o.x)); else a.push_back(strf("-x%" PRId64, o.x)); } if (o.prog == "mt2" && o.has_max) opt("m", "max", num(o.max, false));
    }
    if (!o.all) opt("c", "count", num(o.count, false)); if (o.verb) a.push_back(style & 2 ? "--verbose" : "-v");
    if (style & 8) a.insert(a.begin(), pos.begin(), pos.end()); else a.insert(a.end(), pos.begin(), pos.end()); return a;
}
void bad(Outcome& o, const std::string& cls, const std::string& d) { if (o.vcls.empty()) { o.vcls = "program/" + cls; o.vdetail = d; } }
std::string join(const Args& a) { std::string s; for (auto& x : a) s += " " + x; return s; }
std::string join_lines(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += x + "\n"; return s; }
Outcome eval(const Plan& p) {
    Outcome o; Item c = p.cfg(); Opt b; b.prog = c.gs("prog"); b.id = c.gi("id", 1); b.start = c.gi("start", 0x7fffffff); b.has_start = c.has("start"); b.count = c.gi("count", 1); b.all = c.gi("all"); b.max = c.gi("max", b.prog == "tinymt32dc" ? 10 : 1 << 30); b.has_max = c.has("max"); b.mexp = c.gi("mexp", 521); b.x = c.gi("x", -1); b.has_seed = c.has("sd"); b.seed = c.gx("sd");
    const std::string& P = b.prog; uint64_t style = c.gx("style"); std::string cmd = P + join(args_of(b, style));
    Item calm("run"); calm.i("clk", 0).x("cs", c.gx("cs", 1)); ChildResult r = run_prog(P, args_of(b, style), calm); o.absorb(r); if (!o.error.empty() || !o.vcls.empty()) { if (!o.vcls.empty()) o.vdetail = cmd + ": " + o.vdetail; return o; }
    std::string base = r.results["out"]; int rc = atoi(r.results["rc"].c_str()); uint64_t allocs = strtoull(r.results["allocs"].c_str(), 0, 10); o.counters["prog_" + P]++; o.desc = " " + cmd;
    if (rc != 0) { bad(o, "exit-status", cmd + strf(" ended with status %d\n", rc) + base.substr(0, 500)); return o; }
    std::vector<std::string> rec = records(P, base); std::vector<int64_t> nums; std::string e;
    size_t expect = b.all || P.compare(0, 8, "xorshift") == 0 ? (size_t)-1 : (size_t)b.count;
    if (P == "tinymt32dc") {
        e = check_tiny(rec, (uint32_t)b.id, b.start, (int)b.max, b.max >= 200, b.all || rec.size() < expect, &nums);
        if (e.empty() && rec.size() && lines_of(base)[0] != "# characteristic, id, mat1, mat2, tmat, weight, delta") e = "the heading is " + lines_of(base)[0];
        if (e.empty() && lines_of(base).size() != rec.size() + (rec.size() ? 1 : 0)) e = "stray output:\n" + base; if (e.empty() && b.start > 100000 && rec.size() != expect) e = strf("%zu records instead of %zu", rec.size(), expect);
    }
    else if (P == "xorshift_3" || P == "xorshift_4") e = check_xs(P[9] - '0', base, p.sub("xs"));
    else if (P == "xorshift_1" || P == "xorshift_2" || P == "xorshift_5") e = check_xs_table(P[9] - '0', base);
    else {
        if (b.x >= 0 && rec.size() < expect && base.find("\nsearch failed\n") != std::string::npos) o.counters["gave_up"]++;   // some fixed shifts allow no maximal period: the search says so after its budget
        else if (rec.size() != expect) e = strf("%zu records instead of %zu:\n", rec.size(), expect) + base;
        for (auto& l : rec) if (e.empty()) { if (atoi(l.c_str()) != b.mexp) e = "wrong exponent: " + l; else if (P == "mt2") e = check_mt(l, (int)b.mexp, (int)b.id, (int)b.max); else if (P == "rmt64dc") e = check_rmt(l, (int)b.mexp, p.sub("m")); else if (P == "dSFMTdc") e = check_dsfmt(l, (int)b.mexp, (int)b.x, p.sub("m")); else e = check_sfmt(l, (int)b.mexp, P == "sfmtdcfixed", p.sub("m")); }
    }
    if (!e.empty()) { bad(o, "record", cmd + ": " + e); return o; }
    o.counters["records_recomputed"] += rec.size(); int other = 0; o.sig = mix(o.sig, hash_str(base));
    std::vector<Item> cuts; bool tiny_or_xs = P == "tinymt32dc" || P.compare(0, 8, "xorshift") == 0;
    for (auto& it : p.items) {
        if (it.kind == "cut") { cuts.push_back(it); continue; }
        if (it.kind == "filter" && P == "tinymt32dc") {
            std::vector<std::string> want; for (auto& l : rec) if (atoi(split(l)[6].c_str()) <= it.gi("max")) want.push_back(l); if (want.empty()) continue; Opt f = b; f.all = false; f.has_max = true; f.max = it.gi("max"); f.count = (int64_t)want.size();
            ChildResult q = run_prog(P, args_of(f, it.gx("style")), it); o.absorb(q); if (!o.vcls.empty() || !o.error.empty()) return o; std::vector<std::string> got = records(P, q.results["out"]); o.counters["filtered_searches"]++;
            if (got != want) { bad(o, "filter", cmd + strf(" and then with the limit %" PRId64 ": the records kept are\n", it.gi("max")) + join_lines(got) + "instead of\n" + join_lines(want)); return o; } continue;
        }
        if (it.kind != "run") continue;
        Opt v = b; v.verb = it.gi("v") != 0 && P.compare(0, 8, "xorshift") != 0; Item h = it; if (!tiny_or_xs && !b.has_seed) h.i("clk", 0).x("cs", c.gx("cs", 1)); std::string what = it.gs("what");
        if (what == "full") h.i("limit", (int64_t)(it.gx("at") % (base.size() + 1))); else if (what == "err") h.i("err", 1 + (int64_t)(it.gx("at") % 12)); else if (what == "kill") h.i("kill", (int64_t)(it.gx("at") % (base.size() + 1))); else if (what == "akill") h.i("akill", 1 + (int64_t)(it.gx("at") % (allocs + 1)));
        ChildResult q = run_prog(P, args_of(v, it.gx("style")), h); o.absorb(q); if (!o.vcls.empty() || !o.error.empty()) { if (!o.vcls.empty()) o.vdetail = cmd + ", " + it.text() + ": " + o.vdetail; return o; }
        std::string got = q.results["out"]; bool cut = what != "same" && (q.results["end"] == "killed" || what == "full" || what == "err"); other++; o.counters["variant_" + what]++; if (v.verb) o.counters["variant_verbose"]++;
        if (v.verb) {
            std::vector<std::string> g = records(P, got); bool ok = cut ? g.size() <= rec.size() && std::equal(g.begin(), g.end(), rec.begin()) : g == rec;
            if (!ok) { bad(o, "verbose", cmd + ": the records of the verbose run (" + it.text() + ") are\n" + join_lines(g) + "instead of\n" + join_lines(rec)); return o; }
        } else if (cut ? base.compare(0, got.size(), got) != 0 : got != base) { bad(o, cut ? "cut" : "differs", cmd + " (" + it.text() + ") wrote\n" + got.substr(0, 1500) + "\ninstead of " + (cut ? "a beginning of\n" : "\n") + base.substr(0, 1500)); return o; }
        if (!cut && atoi(q.results["rc"].c_str()) != rc) { bad(o, "exit-status", cmd + " (" + it.text() + ") ended with status " + q.results["rc"]); return o; }
    }
    if (!cuts.empty() && P == "tinymt32dc" && !rec.empty()) {       // killed and restarted until everything is there
        std::vector<std::string> got; Opt v = b; v.has_start = true; bool over = false; size_t kills = 0; std::string trace;
        for (size_t k = 0; k <= cuts.size() && !over; k++) {
            Item h = k < cuts.size() ? cuts[k] : calm; if (k < cuts.size()) { if (h.gi("al")) h.i("akill", 1 + (int64_t)(h.gx("at") % (allocs + 1))); else h.i("kill", (int64_t)(h.gx("at") % (base.size() + 1))); }
            ChildResult q = run_prog(P, args_of(v, h.gx("style")), h); o.absorb(q); if (!o.vcls.empty() || !o.error.empty()) { if (!o.vcls.empty()) o.vdetail = cmd + " restarted: " + o.vdetail; return o; }
            std::vector<std::string> g = records(P, q.results["out"]); got.insert(got.end(), g.begin(), g.end()); bool killed = q.results["end"] == "killed"; trace += strf(" start %" PRId64 " count %" PRId64 " -> %zu records%s;", v.start, v.all ? -1 : v.count, g.size(), killed ? ", killed" : ""); if (killed) kills++;
            if (!killed) { over = true; break; }
            if (got.size() > rec.size() || !std::equal(got.begin(), got.end(), rec.begin())) break;
            if (!got.empty()) { v.start = nums[got.size() - 1] - 1; if (v.start < 0) { over = true; break; } } v.count = b.count - (int64_t)got.size(); if (!b.all && v.count <= 0) { over = true; break; }
        }
        o.counters["restart_chains"]++; o.counters["kills_in_chains"] += kills; if (kills) other++;
        if (got != rec) { bad(o, "restart", cmd + " killed and restarted (" + trace + ") wrote\n" + join_lines(got) + "instead of\n" + join_lines(rec)); return o; }
    }
    o.nontriv = other > 0; o.desc += strf(" -> %zu records, %d disturbed executions", rec.size(), other); return o;
}
Plan gen(uint64_t seed, bool thorough) {
    Plan p; p.prop = "C12"; p.seed = seed; Rng r(seed); Item c("cfg"); int w = (int)r.below(1000); std::string P = w < 480 ? "tinymt32dc" : w < 492 ? "xorshift_1" : w < 504 ? "xorshift_2" : w < 516 ? "xorshift_5" : w < 546 ? "xorshift_3" : w < 558 ? "xorshift_4" : w < 690 ? "mt2" : w < 740 ? "rmt64dc" : w < 805 ? "sfmtdc" : w < 870 ? "sfmtdcfixed" : "dSFMTdc";
    c.s("prog", P).x("style", r.next()).x("cs", r.next()); bool tiny = P == "tinymt32dc", seedless = false; int64_t cnt = 1;
    if (tiny) {
        c.i("id", r.chance(0.3) ? (int64_t)r.below(3) : r.chance(0.5) ? (int64_t)(r.next() & 0xffffffffu) : (int64_t)(r.next() & 0xffffu));
        if (r.chance(0.25)) { c.i("all", 1).i("start", r.range(0, r.chance(0.3) ? 40 : 260)); cnt = 4; } else { cnt = r.range(1, 5); c.i("count", cnt); int x = (int)r.below(5); if (x == 0) c.i("start", r.range(0, 400)); else if (x == 1) c.i("start", (int64_t)r.below(0x80000000u)); else if (x == 2) c.i("start", (int64_t)(UINT64_C(1) << r.below(31)) - 1 + (int64_t)r.below(40)); else if (x == 3) c.i("start", 0x7fffffff - (int64_t)r.below(3)); }
        int m = (int)r.below(10); if (m < 7) c.i("max", r.range(200, 2000)); else if (m < 9) c.i("max", r.range(2, 30));
    } else if (P.compare(0, 8, "xorshift") != 0) {
        bool big = r.chance(thorough ? 0.3 : 0.1); c.i("mexp", P.compare(0, 4, "sfmt") == 0 ? (big ? 1279 : 607) : !big ? 521 : P == "dSFMTdc" ? 1279 : 607).i("count", !big && r.chance(P == "dSFMTdc" ? 0.4 : 0.15) ? 2 : 1); if (P == "mt2") { c.i("id", r.chance(0.3) ? (r.chance(0.5) ? 0 : 0xffff) : (int64_t)r.below(65536)); if (r.chance(0.3)) c.i("max", r.range(120, 4000)); }
        seedless = r.chance(0.3); if (!seedless) c.x("sd", r.chance(0.2) ? r.below(3) : r.chance(0.5) ? r.below(100000) : r.next() >> (P == "mt2" ? 32 : 1)); if (P == "dSFMTdc" && r.chance(0.4)) c.i("x", r.chance(0.5) ? 19 : r.range(11, 25));
    }
    p.items.push_back(c);
    auto how = [&](Item& i) { if (seedless) i.i("clk", 0).x("cs", c.gx("cs")); else i.i("clk", (int64_t)r.below(4)).x("cs", r.next()); i.i("buf", r.chance(0.3) ? 1 : r.chance(0.5) ? r.range(2, 90) : 8192).i("fill", r.chance(0.8) ? 2 : 1).x("fs", r.next()).x("style", r.next()); if (r.chance(0.4)) i.i("chunk", r.range(1, 20)); };
    static const char* WH[] = {"same", "full", "err", "kill", "akill"}; bool slow = !tiny && P[0] != 'x'; int n = P == "mt2" || P == "dSFMTdc" ? 2 : slow ? 1 : tiny ? (int)r.range(1, 3) : 3; if (P == "xorshift_4" || c.gi("mexp") > 607) n = 1;
    for (int i = 0; i < n; i++) { Item it("run"); it.s("what", slow && !i && n > 1 ? "same" : WH[r.below(5)]).x("at", r.next()); if (r.chance(0.3)) it.i("v", 1); how(it); p.items.push_back(it); }
    if (tiny && r.chance(0.4)) { Item f("filter"); f.i("max", r.range(0, 25)); how(f); p.items.push_back(f); }
    if (tiny && r.chance(0.6)) { int k = (int)r.range(1, 4); for (int i = 0; i < k; i++) { Item it("cut"); it.x("at", r.next()).i("al", r.chance(0.4)); if (r.chance(0.3)) it.i("v", 1); how(it); p.items.push_back(it); } }
    (void)thorough; (void)cnt; return p;
}
struct Reg { Reg() {
    Property p; p.id = "C12"; p.rule = "A run executes one search program (its real main, in a fresh simulated process) with seeded options, recomputes every record it writes with independent models (period, weight, identifier, parity, fixed point, defect; for TinyMT and XORSHIFT also that no candidate was left out), and executes it again with other clocks, memory contents, output chunking, verbosity, a failing or full output device, and kills at a byte or an allocation; TinyMT searches are killed and restarted from the value after the last record until complete. Non-trivial: at least one disturbed execution.";
    p.generate = gen; p.evaluate = eval; p.shrink_keys = {"count", "chunk"};
    p.real_components = {"samples/TinyMTDC/tinymt32dc.cpp", "samples/XORSHIFT/xorshift-1..5.cpp", "samples/MTDC/mt2.cpp", "samples/RMT/rmt64dc.cpp", "samples/sfmtdc/sfmtdc.cpp, sfmtdcfixed.cpp", "samples/dSFMTdc/dSFMTdc.cpp", "the whole library under them", "NTL"}; p.stub_components = {"standard output device", "clock", "process memory contents", "process death"};
    p.quick_runs = 210; p.thorough_runs = 12000; p.required = {"prog_tinymt32dc", "prog_xorshift_3", "prog_mt2", "prog_rmt64dc", "prog_sfmtdc", "prog_sfmtdcfixed", "prog_dSFMTdc", "records_recomputed", "restart_chains", "kills_in_chains", "filtered_searches", "variant_same", "variant_full", "variant_err", "variant_kill", "variant_akill", "variant_verbose"};
    p.assumptions = {"allocation failures are not injected into the programs: their string streams swallow them"};
    register_property(p);
} } reg;
}
