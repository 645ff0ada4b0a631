// Builds simulated generator families and parameter sources from plan items.
#ifndef VERIF_ENV_HPP
#define VERIF_ENV_HPP
#include "gens.hpp"
#include <NTL/GF2X.h>
namespace sim {
struct Env {
    CbCtl ctl;
    GenCfg cfg;
    std::vector<CandLog> clog;
    std::unique_ptr<SimSource> src;
    bool mersenne = true;
    std::vector<std::string> list;        // prime factor list to hand over (empty: none)
    std::vector<const char*> clist;       // NULL-terminated view of it
    std::vector<ref::Poly> fac;           // reducible: per candidate, the wanted factor (zero if none)
    ref::Poly f;                          // reducible: the irreducible factor of degree mexp used most often
    ~Env();
};
ref::Poly ref_of(const NTL::GF2X& p);
std::string poly_str(const NTL::GF2X& p);
NTL::GF2X ntl_of(const ref::Poly& p);

// comp (reducible): output bits that see only some factors of the first good candidate, 1: always the wanted one, 2: any
// keys: n, pool (comma separated tags), psz, om, tm, dens, draws, dw, src, es (environment seed)
std::shared_ptr<Env> make_lin_env(const Item& it, int width);
std::shared_ptr<Env> make_red_env(const Item& it, int width);
Item gen_lin_item(Rng& r, const std::string& kind, int maxn, bool only_mersenne, bool for_tempering);
Item gen_red_item(Rng& r, const std::string& kind, int maxmexp, int width, bool for_tempering);
// truth about one candidate of a linear family: does its recursion have the maximal period?
bool is_maximal(const ref::Poly& p, int n);
// minimal polynomial of output bit `pos` of a fresh copy of g seeded with 1
template <class G> ref::Poly output_minpoly(const G& g, int pos, int n) {
    HarnessScope h; auto* c = g.peek(); c->seed_state(1); std::vector<unsigned char> s;
    for (int i = 0; i < 2 * n; i++) { c->step_state(); s.push_back((unsigned char)((uint64_t)c->map_out() >> pos & 1)); }
    delete c; return ref::minpoly(s);
}
// dimension of equidistribution k(v), v = 1..bl, of the words g would output from here on; long-period part f if given
template <class G> std::vector<int> ref_kv(const G& g, int n, bool rev, int bl, const ref::Poly* f = 0) {
    HarnessScope h; std::unique_ptr<G> c(g.peek());
    if (f) c->set_state(ref::mulmod(c->state_poly(), ref::quo(c->poly(), *f), c->poly()));
    ref::WordSeq s = c->words(2 * n + 2, rev); std::vector<int> k; for (int v = 1; v <= bl; v++) k.push_back(ref::kv(s, n, v)); return k;
}
inline int defect(const std::vector<int>& k, int n, int upto) { int d = 0; for (int v = 1; v <= upto; v++) d += n / v - k[(size_t)v - 1]; return d; }
const char* const* library_list(int n);   // the prime factor list the library supplies for 2^n-1, or NULL
}
#endif
