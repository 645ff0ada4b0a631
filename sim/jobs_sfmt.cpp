// Jobs on the SFMT generator of samples/sfmtdc (128-bit words).
#include "jobs.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <samples/sfmtdc/sfmtsearch.hpp>
#include <samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp>
#include <samples/sfmtdc/Annihilate.cpp>
#include "jobs_simd.hpp"
namespace {
const char* const KNOWN[] = {"607 3 2 1 21 3 fd4bbd3d 571c9ffb fc87e83f fef32cff", "607 1 11 1 14 3 7fc7646d f1de9ffa ae3dbcd7 d547b5bf", "607 2 21 7 12 1 eb9b3ff9 ffff5cfd e7f7d4da 597fdffe", "607 1 28 5 7 3 9df5fbde fbfb5f7c aeeffbff bfe74b7f", "607 3 7 1 27 7 57fb7fd8 dbfdffb6 9fa5ffd7 fbf39fee"};
struct SfmtTraits {
    typedef sfmt Gen; typedef sfmt_param Param; enum { MEXP = 607 };
    static sfmt_param param(uint64_t k) { sfmt_param p; sscanf(KNOWN[k % 5], "%d %d %d %d %d %d %x %x %x %x", &p.mexp, &p.pos1, &p.sl1, &p.sl2, &p.sr1, &p.sr2, &p.msk1, &p.msk2, &p.msk3, &p.msk4); return p; }
    static void draws(std::vector<uint64_t>& d, const sfmt_param& p) { d.push_back((uint64_t)p.pos1 - 1); d.push_back((uint64_t)p.sl1 - 1); d.push_back((uint64_t)(p.sl2 - 1) / 2); d.push_back((uint64_t)p.sr1 - 1); d.push_back((uint64_t)(p.sr2 - 1) / 2); for (uint32_t m : {p.msk1, p.msk2, p.msk3, p.msk4}) { d.push_back(m & 0x55555555u); d.push_back(m & 0xaaaaaaaau); } }
    static const int NDRAW = 13;
    static void equi(const sfmt& g, int bl, int mode, std::string (*fmt)(const char*, int, const int*, int), Job& j) {
        int veq[16]; SIMDInfo info; info.bitSize = 128; info.bitMode = mode == 32 ? 32 : 64; info.elementNo = mode == 32 ? 4 : 2;
        if (mode == 128) { AlgorithmEquidistribution<w128_t> re(g, bl, MEXP); int d = re.get_all_equidist(veq); j.say(fmt("all", d, veq, bl)); }
        else if (mode == 1) { AlgorithmSIMDEquidistribution<w128_t, sfmt> a(g, bl, info, g.bitSize()); int k = a.get_equidist(bl); j.say(fmt("one", k, 0, 0)); }
        else { int d = calc_SIMD_equidistribution<w128_t, sfmt>(g, veq, bl, info, MEXP); j.say(fmt("simd", d, veq, bl)); }
    }
    static std::vector<std::string> parity_text(const w128_t& w) { std::vector<std::string> v; for (int i = 0; i < 4; i++) v.push_back(strf("%08x", w.u[i])); return v; }
    static bool set_parity(sfmt_param& p, const w128_t& w, w128_t&, bool) { p.parity1 = w.u[0]; p.parity2 = w.u[1]; p.parity3 = w.u[2]; p.parity4 = w.u[3]; return true; }
    static int certify(sfmt& g, bool) { return g.periodCertification(); }
    static void special(sfmt&, const NTL::GF2X&, Job&) {}
};
}
namespace sim { void sfmt_parity(const Plan& p) { simd_parity<SfmtTraits>(p); } Job* make_sfmt_job(const Item& it) { return new SimdJob<SfmtTraits>(it); } }
