#include "gens.hpp"
namespace sim {
const char* const CB_NAMES[CB_NUM] = {"generate", "generate_bits", "seed", "setUpParam", "clone", "copy", "add", "setZero", "isZero", "setTemperingPattern", "setUpTempering",
    "reverseOutput", "getParamString", "setOneBit", "getParityValue", "setParityValue", "draw"};
std::shared_ptr<OutMap> make_outmap(Rng& r, int n, int width, int mode, double density, int temper_mode) {
    std::shared_ptr<OutMap> o(new OutMap()); o->mode = mode; o->temper_mode = temper_mode; size_t nw = (size_t)(n + 63) / 64;
    auto mask = [&](double dens) { std::vector<uint64_t> m(nw, 0); bool any = false; while (!any) for (int i = 0; i < n; i++) if (r.chance(dens)) { m[(size_t)i >> 6] |= UINT64_C(1) << (i & 63); any = true; } return m; };
    for (int b = 0; b < width; b++) o->masks.push_back(mask(density));
    for (int i = 0; i < 4; i++) o->aux.push_back(mask(0.3));
    for (int i = 0; i < 4; i++) o->shifts[i] = 1 + (int)r.below((uint64_t)width / 2);
    return o;
}
}
