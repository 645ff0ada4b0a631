// Jobs on the MTGP generator of samples/MTGPDC, at exponents small enough to simulate.
#include "jobs.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <samples/MTGPDC/MTGP32search.hpp>
namespace {
using namespace sim; using mtgp::mtgp32; typedef mtgp::mtgp_param<uint32_t> Param;
const struct { int mexp, pos; uint32_t id, tbl[4]; } KNOWN[] = {
    {521, 7, 4660, {0xf8c331c2, 0x8d17b6f9, 0x0cf12345, 0x00000537}}, {521, 5, 9320, {0xf0c44c20, 0xc8124bff, 0x07c2468a, 0x000073cd}}, {521, 3, 13980, {0x3aac5e08, 0x7edebd90, 0xed1369c8, 0x0000aeb9}},
    {607, 6, 4660, {0xca8a8dd9, 0x1c4d7e1e, 0x71d12347, 0x0000d57a}}, {607, 3, 23300, {0xe28fdcf0, 0x80ee9211, 0x7fe5b048, 0x00008f61}}};
// formatting is the simulator's, so that a failing allocation never meets a stream, which would swallow it
struct Mtgp : mtgp32 { using mtgp32::mtgp32; const std::string getParamString() override { HarnessScope h; return mtgp32::getParamString(); } };
// keys: sub (search, equi, temper, rt, linear), gk known parameters, ss seed, at their position in the stream, calls, b, bl, rev
struct MtgpJob : Job {
    Item it; std::string sub; std::unique_ptr<SimSource> src; std::unique_ptr<Mtgp> g;
    MtgpJob(const Item& i) : it(i) { sub = it.gs("sub"); repeatable = sub == "equi" || sub == "linear"; }
    SimSource* source() override { return sub == "search" || sub == "rt" ? src.get() : 0; }
    void setup() override {
        HarnessScope h; out.clear(); src.reset(new SimSource(SimSource::SCRIPT, it.gx("ss", 1))); Rng r(it.gx("ss", 1) + 1); auto& k = KNOWN[it.gx("gk") % 5];
        g.reset(new Mtgp(k.mexp, k.id)); bool known = sub != "search" && sub != "rt"; int wrong = known ? 0 : (int)it.gi("at");
        for (int i = 0; i < 5 * wrong; i++) src->script.push_back(r.next());
        src->script.push_back((uint64_t)k.pos - 3); for (uint32_t t : k.tbl) src->script.push_back(t);
        if (known) { SimSource one(SimSource::SCRIPT, 1); one.script = src->script; g->setUpParam(one); g->seed((uint32_t)it.gx("ss")); }
        for (int b = 0; b < 4; b++) g->setTemperingPattern(0xffffffffu, (uint32_t)r.next(), b);
        if (known) g->setUpTempering(); if (it.gi("rev")) g->setReverseOutput();
    }
    std::string state(int n) { HarnessScope h; mtgp32 c(*g); std::string s = param_text(c) + strf(" %d ", (int)c.isReverseOutput()); for (int i = 0; i < n; i++) s += strf("%08x.", c.generate(32)); return s; }
    // the parameters one by one: their text form is the simulator's, so that a failing allocation never meets a stream
    std::string param_text(mtgp32& c) { Param p = c.get_param(); std::string s = strf("%d %d %d %d %u", p.mexp, p.pos, p.sh1, p.sh2, p.id); for (int i = 0; i < 4; i++) s += strf(" %08x %08x", p.tbl[i], p.tmp_tbl[i]); return s + " " + c.getParamString(); }
    std::string inputs() override { return repeatable ? state(80) : ""; }
    std::string poly(const NTL::GF2X& p) { HarnessScope h; return poly_str(p); }
    std::string cat(const int* v, int n) { HarnessScope h; std::string s; for (int i = 0; i < n; i++) s += strf("%d.", v[i]); return s; }
    void op(const JobIO& io) override {
        using namespace MTToolBox;
        if (sub == "search") { AlgorithmRecursionSearch<uint32_t> s(*g, *src); for (int k = 0; k < (int)it.gi("calls", 2); k++) { bool r = s.start((int)it.gi("b", 2)); say(strf("%d/%ld", (int)r, (long)s.getCount())); if (r) { say(poly(s.getMinPoly())); say(state(3)); } } }
        else if (sub == "linear") { TestLinearity<uint32_t> t; say(t(*g) ? "linear" : "nonlinear"); }
        else if (sub == "equi") { int bl = (int)it.gi("bl", 4), v[32]; AlgorithmEquidistribution<uint32_t> a(*g, bl); int d = a.get_all_equidist(v); say(strf("d%d", d)); say(cat(v, bl)); }
        else if (sub == "temper") { AlgorithmPartialBitPattern<uint32_t, 32, 3, 2, 1> st; AlgorithmPartialBitPattern<uint32_t, 32, 3, 1, 1, true> lsb; st(*g, io.verbose); lsb(*g, io.verbose); say(state(3)); }
        else {
            AlgorithmRecursionAndTempering<uint32_t> all(*src); AlgorithmPartialBitPattern<uint32_t, 32, 2, 1, 1> st; AlgorithmPartialBitPattern<uint32_t, 32, 2, 1, 1, true> lsb;
            bool r = io.os ? all.search(*g, st, lsb, io.verbose, *io.os) : all.search(*g, st, lsb, io.verbose); say(r ? "found" : "nothing"); if (r) { say(strf("%d %d", all.getDelta(), all.getWeight())); say(poly(all.getCharacteristicPolynomial())); say(state(3)); }
        }
    }
};
}
namespace sim { Job* make_mtgp_job(const Item& it) { return new MtgpJob(it); } }
