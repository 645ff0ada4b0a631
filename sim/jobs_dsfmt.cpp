// Jobs on the dSFMT generator of samples/dSFMTdc. Its word type has the name of SFMT's: renamed here.
#define w128_t dw128_t
#include "jobs.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <samples/dSFMTdc/dSFMTsearch.hpp>
#include <samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp>
#include <samples/dSFMTdc/Annihilate.cpp>
#include <samples/dSFMTdc/calc_fixpoint.cpp>
#include "jobs_simd.hpp"
namespace {
const char* const KNOWN[] = {"521 1 13 000ffaff7a79f7bb 000effaee7ffbd36", "521 1 9 0007e1ff7f98efb7 000e7ee4f7b3eff7", "521 1 13 000bfbffb957e3be 000dfd0fbffeff7d", "521 1 27 000f99ddf6fff2df 000de8bbad6decfc", "521 1 39 000cffff3ac61fff 000fc23efebebf3e"};
struct DsfmtTraits {
    typedef dSFMT Gen; typedef dSFMT_param Param; enum { MEXP = 521 };
    static dSFMT_param param(uint64_t k) { dSFMT_param p; sscanf(KNOWN[k % 5], "%d %d %d %" SCNx64 " %" SCNx64, &p.mexp, &p.pos1, &p.sl1, &p.msk1, &p.msk2); return p; }
    static void draws(std::vector<uint64_t>& d, const dSFMT_param& p) { d.push_back((uint64_t)p.pos1 - 1); d.push_back((uint64_t)p.sl1 - 1); for (uint64_t m : {p.msk1, p.msk2}) { d.push_back((m & UINT64_C(0x5555555555555555)) | UINT64_C(0x1230000000000000)); d.push_back(m & UINT64_C(0xaaaaaaaaaaaaaaaa)); } }
    static const int NDRAW = 6;
    static void equi(const dSFMT& g, int bl, int mode, std::string (*fmt)(const char*, int, const int*, int), Job& j) {
        int veq[16]; DSFMTInfo info; info.bitSize = 128; info.elementNo = 2;
        if (mode == 1) { AlgorithmDSFMTEquidistribution<w128_t, dSFMT> a(g, bl, info, g.bitSize()); int k = a.get_equidist(bl); j.say(fmt("one", k, 0, 0)); }
        else { int d = calc_dSFMT_equidistribution<w128_t, dSFMT>(g, veq, bl, info, MEXP); j.say(fmt("simd", d, veq, bl)); }
    }
    static std::vector<std::string> parity_text(const w128_t& w) { std::vector<std::string> v; for (int i = 0; i < 2; i++) v.push_back(strf("%016" PRIx64, w.u64[i])); return v; }
    static bool set_parity(dSFMT_param& p, const w128_t& w, w128_t& fix, bool nofix) { p.parity1 = w.u64[0]; p.parity2 = w.u64[1]; p.fix1 = fix.u64[0]; p.fix2 = fix.u64[1]; return nofix; }
    static int certify(dSFMT& g, bool nofix) { return g.periodCertification(nofix); }
    static void special(dSFMT& g, const NTL::GF2X& f, Job& j) {
        GF2X c(0, 1); getLCMPoly(c, g); j.say(simd_poly(c)); GF2X q = c / f; w128_t x = calc_fixpoint(g, f, q);
        HarnessScope h; j.say(strf("fix%016" PRIx64 "%016" PRIx64, x.u64[0], x.u64[1]));
    }
};
}
namespace sim { void dsfmt_parity(const Plan& p) { simd_parity<DsfmtTraits>(p); } Job* make_dsfmt_job(const Item& it) { return new SimdJob<DsfmtTraits>(it); } }
