// Simulated generators and parameter sources: the "environment" side of every run.
#ifndef VERIF_GENS_HPP
#define VERIF_GENS_HPP
#include <memory>
#include <stdexcept>
#include <string.h>
#include "sim.hpp"
#include "gf2ref.hpp"
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/ParameterGenerator.hpp>

namespace sim {

struct SimFault { int id; };               // raised by the environment; must reach the caller unchanged
template <class E> struct SimFaultAs : SimFault, E { SimFaultAs(int i) : E("simulated fault") { id = i; } };
struct SimFaultStd : SimFault, std::exception { SimFaultStd(int i) { id = i; } };
// the same fault as different kinds of exception: generators and sources may throw anything
[[noreturn]] inline void throw_fault(int id, uint64_t style) {
    switch (style % 7) {
    case 0: throw SimFaultAs<std::runtime_error>(id);
    case 1: throw SimFaultAs<std::underflow_error>(id);
    case 2: throw SimFaultAs<std::logic_error>(id);
    case 3: throw SimFaultAs<std::invalid_argument>(id);
    case 4: throw SimFaultStd(id);
    default: throw SimFault{id};
    }
}
struct SourceDry : std::underflow_error { SourceDry() : std::underflow_error("parameter source exhausted") {} };      // what the library's own Sequential throws

enum Cb { CB_GENERATE, CB_GENERATE_BITS, CB_SEED, CB_SETUP, CB_CLONE, CB_COPY, CB_ADD, CB_SETZERO, CB_ISZERO, CB_TEMPER, CB_SETUPTEMPER, CB_REVERSE,
          CB_PARAMSTR, CB_ONEBIT, CB_GETPARITY, CB_SETPARITY, CB_DRAW, CB_NUM };
extern const char* const CB_NAMES[CB_NUM];

// what the simulator knows and decides about one family of generator objects (the original and all its copies)
struct CbCtl {
    int64_t calls[CB_NUM]; int64_t live, created; int fail_kind; int64_t fail_at; int fail_id; int64_t fired;
    int64_t corrupt_obj, corrupt_at, corrupt_bit, corrupt_add_at, corrupt_add_bit; int64_t outputs, adds; int64_t corrupted; int64_t obj_outs[16];   // obj: creation number of the corrupted object, 0 = any
    CbCtl() { memset(this, 0, sizeof *this); fail_kind = -1; corrupt_at = corrupt_add_at = -1; }
    NOCOV void hit(int k) {
        seam_step(); calls[k]++;
        if (fail_kind == k && calls[k] == fail_at) { HarnessScope h; fired++; count(std::string("fault.callback_") + CB_NAMES[k]); throw_fault(fail_id, mix((uint64_t)calls[k], (uint64_t)k)); }
    }
    void arm(int kind, int64_t nth_from_now, int id) { fail_kind = kind; fail_at = calls[kind] + nth_from_now; fail_id = id; fired = 0; }
    void disarm() { fail_kind = -1; }
};

struct OutMap {                 // how a state becomes an output word
    int mode = 0;               // 0 window, 1 parity masks
    std::vector<std::vector<uint64_t> > masks, aux;   // per output bit / per tempering index
    int temper_mode = 0;        // 0: y ^= tb if aux parity, 1: y ^= (y << sh) & tb
    int shifts[4] = {7, 15, 3, 11};
};
std::shared_ptr<OutMap> make_outmap(Rng& r, int n, int width, int mode, double density, int temper_mode);

struct Candidate { ref::Poly p; std::string tag; };
struct Pool { std::vector<Candidate> c; };
const int MAXW = 18;            // up to 1087 state bits

struct GenCfg {
    int n = 31; int mexp = 0; int draws = 1; int draw_width = 32; bool raw = false;
    std::shared_ptr<Pool> pool; std::shared_ptr<OutMap> om;
    uint64_t parmask = ~UINT64_C(0); int parrot = 0;   // bits of the state that getParityValue() shows, rotated
    std::shared_ptr<std::map<int, std::vector<ref::Poly> > > units;   // candidate -> the states setOneBit() sets (one register per component), instead of single coefficients
    bool latched = false;   // tempering patterns take effect when setUpTempering() is called
};
struct CandLog { std::vector<uint64_t> draws; int index; ref::Poly p; };

template <class U, class Base>
class GenCore : virtual public Base {
public:
    enum { W = (int)sizeof(U) * 8 };
    GenCore(const GenCfg& c, CbCtl* k, std::vector<CandLog>* lg) : ctl(k), clog(lg) {
        HarnessScope h; cfg.reset(new GenCfg(c));
        ctl->live++; id = ++ctl->created; outs = 0; nw = (c.n + 63) / 64; memset(st, 0, sizeof st); memset(tb, 0, sizeof tb); memset(lt, 0, sizeof lt); reverse = false; parity = 0; cand = -1;
        memset(pw, 0, sizeof pw); deg = 0; st[0] = 1;
        if (c.pool && !c.pool->c.empty()) set_poly(c.pool->c[0].p);
    }
    GenCore(const GenCore& o) : Base(), cfg(o.cfg), ctl(o.ctl), clog(0) {
        ctl->hit(CB_COPY);
        ctl->live++; id = ++ctl->created; outs = 0; nw = o.nw; memcpy(st, o.st, sizeof st); memcpy(tb, o.tb, sizeof tb); memcpy(lt, o.lt, sizeof lt); memcpy(pw, o.pw, sizeof pw);
        reverse = o.reverse; parity = o.parity; cand = o.cand; deg = o.deg;
    }
    ~GenCore() { ctl->live--; }
    U generate() override { ctl->hit(CB_GENERATE); return raw_generate(); }
    U generate(int bits) override {
        ctl->hit(CB_GENERATE_BITS);
        U y = raw_generate();
        if (reverse) { U z = 0; for (int i = 0; i < W; i++) if (y >> i & 1) z |= (U)1 << (W - 1 - i); y = z; }
        U mask = bits >= W ? (U)~(U)0 : (U)~(((U)~(U)0) >> bits);
        return y & mask;
    }
    void seed(U v) override { ctl->hit(CB_SEED); HarnessScope h; seed_state(v); }
    int bitSize() const override { return cfg->n; }
    void setUpParam(MTToolBox::ParameterGenerator& g) override {
        if (clog) { HarnessScope h; clog->push_back(CandLog()); clog->back().index = -2; }
        ctl->hit(CB_SETUP);
        uint64_t acc = 0;
        for (int i = 0; i < cfg->draws; i++) {
            uint64_t v = cfg->draw_width == 32 ? g.getUint32() : g.getUint64();
            HarnessScope h; acc = cfg->draws == 1 ? v : mix(acc, v); if (clog) clog->back().draws.push_back(v);
        }
        HarnessScope h;
        choose(acc);
        if (clog) { clog->back().index = cand; clog->back().p = poly(); }
    }
    const std::string getHeaderString() override { return "poly, tb0, tb1, tb2, tb3"; }
    const std::string getParamString() override { ctl->hit(CB_PARAMSTR); char b[2048]; { HarnessScope h; snprintf(b, sizeof b, "%s", param_text().c_str()); } return std::string(b); }
    void add(MTToolBox::EquidistributionCalculatable<U>& that) override {
        ctl->hit(CB_ADD); ctl->adds++;
        GenCore* o = dynamic_cast<GenCore*>(&that); if (!o) throw std::invalid_argument("type");
        for (int i = 0; i < nw; i++) st[i] ^= o->st[i];
        if (ctl->corrupt_add_at == ctl->adds) { int b = (int)(ctl->corrupt_add_bit % cfg->n); st[b >> 6] ^= UINT64_C(1) << (b & 63); ctl->corrupted++; }
    }
    void setZero() override { ctl->hit(CB_SETZERO); memset(st, 0, sizeof st); }
    bool isZero() const override { ctl->hit(CB_ISZERO); return zero_state(); }
    void setTemperingPattern(U mask, U pattern, int idx) override { ctl->hit(CB_TEMPER); tb[idx & 3] = (tb[idx & 3] & ~mask) | (pattern & mask); if (!cfg->latched) lt[idx & 3] = tb[idx & 3]; }
    void setUpTempering() override { ctl->hit(CB_SETUPTEMPER); memcpy(lt, tb, sizeof lt); }
    void set_tb(int i, U v) { tb[i & 3] = lt[i & 3] = v; }
    void setReverseOutput() override { ctl->hit(CB_REVERSE); reverse = true; }
    void resetReverseOutput() override { ctl->hit(CB_REVERSE); reverse = false; }
    bool isReverseOutput() override { return reverse; }

    // ---- simulator side
    std::shared_ptr<GenCfg> cfg; CbCtl* ctl; std::vector<CandLog>* clog;
    int nw; uint64_t st[MAXW]; uint64_t pw[MAXW]; U tb[4], lt[4]; int64_t id, outs; bool reverse; U parity; int cand; int deg;
    void choose(uint64_t acc) {
        if (cfg->raw) { Rng r(mix(acc, 77)); set_poly(ref::random_poly(r, cfg->n, true)); cand = (int)(acc & 0x7fffffff); }
        else { cand = (int)(acc % cfg->pool->c.size()); set_poly(cfg->pool->c[(size_t)cand].p); }
    }
    ref::Poly poly() const { ref::Poly p; p.w.assign(pw, pw + MAXW); p.trim(); return p; }
    void set_poly(const ref::Poly& p) { memset(pw, 0, sizeof pw); for (size_t i = 0; i < p.w.size() && i < (size_t)MAXW; i++) pw[i] = p.w[i]; deg = p.deg(); }
    NOCOV bool zero_state() const { for (int i = 0; i < nw; i++) if (st[i]) return false; return true; }
    ref::Poly state_poly() const { ref::Poly p; p.w.assign(st, st + MAXW); p.trim(); return p; }
    void set_state(const ref::Poly& p) { memset(st, 0, sizeof st); for (size_t i = 0; i < p.w.size() && i < (size_t)MAXW; i++) st[i] = p.w[i]; }
    void seed_state(U v) {
        memset(st, 0, sizeof st); if (v == 0) return;
        if (v != 1) {
            Rng r((uint64_t)v); bool nz = false;
            for (int i = 0; i * 64 < deg; i++) { st[i] = r.next(); if (deg - i * 64 < 64) st[i] &= (UINT64_C(1) << (deg - i * 64)) - 1; nz = nz || st[i]; }
            if (nz) return;
        }
        st[0] = 1;
    }
    NOCOV void step_state() {
        uint64_t c = 0; for (int i = 0; i <= nw; i++) { uint64_t t = st[i] >> 63; st[i] = st[i] << 1 | c; c = t; }
        if (st[deg >> 6] >> (deg & 63) & 1) { int k = deg / 64 + 1; for (int i = 0; i < k; i++) st[i] ^= pw[i]; }
    }
    NOCOV U map_out() const {
        const OutMap& om = *cfg->om; U y = 0;
        if (om.mode == 0) y = (U)st[0];
        else for (int b = 0; b < W; b++) { const uint64_t* m = &om.masks[(size_t)b][0]; uint64_t a = 0; for (int i = 0; i < nw; i++) a ^= m[i] & st[i]; y |= (U)(__builtin_popcountll(a) & 1) << b; }
        if (om.temper_mode == 0) {
            for (int i = 0; i < 4; i++) if (lt[i]) { const uint64_t* m = &om.aux[(size_t)i][0]; uint64_t a = 0; for (int k = 0; k < nw; k++) a ^= m[k] & st[k]; if (__builtin_popcountll(a) & 1) y ^= lt[i]; }
        } else for (int i = 0; i < 4; i++) y ^= (U)(y << om.shifts[i]) & lt[i];
        return y;
    }
    NOCOV U raw_generate() {
        HarnessScope h;
        step_state(); U y = map_out(); ctl->outputs++; outs++; if (id > 0 && id < 16) ctl->obj_outs[id]++;
        if (ctl->corrupt_at >= 0 && ctl->corrupt_at == (ctl->corrupt_obj ? outs : ctl->outputs) && (!ctl->corrupt_obj || ctl->corrupt_obj == id)) { y ^= (U)1 << (ctl->corrupt_bit % W); ctl->corrupted++; }
        return y;
    }
    std::string param_text() const { return poly().str() + strf(",%" PRIx64 ",%" PRIx64 ",%" PRIx64 ",%" PRIx64, (uint64_t)tb[0], (uint64_t)tb[1], (uint64_t)tb[2], (uint64_t)tb[3]); }
    std::string snapshot() const {     // everything a caller could observe of this object
        HarnessScope h; std::string s = poly().str(); for (int i = 0; i < nw; i++) s += strf(".%" PRIx64, st[i]);
        for (int i = 0; i < 4; i++) s += strf(",%" PRIx64, (uint64_t)tb[i]); return s + (reverse ? "R" : "N") + strf("%" PRIx64, (uint64_t)parity);
    }
    // reference: the words this generator would output from here on, without touching it
    ref::WordSeq words(int len, bool rev) const {
        HarnessScope h; GenCore* c = peek(); ref::WordSeq s; s.width = W;
        for (int i = 0; i < len; i++) { c->step_state(); U y = c->map_out(); if (rev) { U z = 0; for (int b = 0; b < W; b++) if (y >> b & 1) z |= (U)1 << (W - 1 - b); y = z; } s.out.push_back(std::make_pair((uint64_t)0, (uint64_t)y)); }
        delete c; return s;
    }
    virtual GenCore* peek() const = 0;     // copy made by the simulator itself (not counted, never fails)
protected:
    struct Quiet {};
    GenCore(const GenCore& o, Quiet) : Base(), cfg(o.cfg), ctl(o.ctl), clog(0) {
        ctl->live++; id = -1; outs = 0; nw = o.nw; memcpy(st, o.st, sizeof st); memcpy(tb, o.tb, sizeof tb); memcpy(lt, o.lt, sizeof lt); memcpy(pw, o.pw, sizeof pw);
        reverse = o.reverse; parity = o.parity; cand = o.cand; deg = o.deg;
    }
};

template <class U>
class LinGen : public GenCore<U, MTToolBox::TemperingCalculatable<U> > {
public:
    typedef GenCore<U, MTToolBox::TemperingCalculatable<U> > Core;
    LinGen(const GenCfg& c, CbCtl* k, std::vector<CandLog>* lg = 0) : Core(c, k, lg) {}
    LinGen(const LinGen& o) : Core(o) {}
    MTToolBox::EquidistributionCalculatable<U>* clone() const override { this->ctl->hit(CB_CLONE); return new LinGen(*this); }
    LinGen* peek() const override { HarnessScope h; return new LinGen(*this, typename Core::Quiet()); }
private:
    LinGen(const LinGen& o, typename Core::Quiet q) : Core(o, q) {}
};

template <class U>
class RedGen : public GenCore<U, MTToolBox::ReducibleTemperingCalculatable<U> > {
public:
    typedef GenCore<U, MTToolBox::ReducibleTemperingCalculatable<U> > Core;
    RedGen(const GenCfg& c, CbCtl* k, std::vector<CandLog>* lg = 0) : Core(c, k, lg) {}
    RedGen(const RedGen& o) : Core(o) {}
    MTToolBox::EquidistributionCalculatable<U>* clone() const override { this->ctl->hit(CB_CLONE); return new RedGen(*this); }
    RedGen* peek() const override { HarnessScope h; return new RedGen(*this, typename Core::Quiet()); }
    void setOneBit(int b) override { this->ctl->hit(CB_ONEBIT); memset(this->st, 0, sizeof this->st); if (this->cfg->units) { auto u = this->cfg->units->find(this->cand); if (u != this->cfg->units->end()) { HarnessScope h; this->set_state(u->second[(size_t)b]); return; } } this->st[b >> 6] = UINT64_C(1) << (b & 63); }
    U getParityValue() const override { this->ctl->hit(CB_GETPARITY); return pv(); }
    U pv() const { U v = (U)(this->st[0] & this->cfg->parmask); int k = this->cfg->parrot; return k ? (U)(v << k | v >> (this->W - k)) : v; }
    void setParityValue(U p) override { this->ctl->hit(CB_SETPARITY); this->parity = p; }
    int getMexp() const override { return this->cfg->mexp; }
private:
    RedGen(const RedGen& o, typename Core::Quiet q) : Core(o, q) {}
};

// the simulated parameter source: an entropy stream with the faults real streams have
class SimSource : public MTToolBox::ParameterGenerator {
public:
    enum Mode { PRNG, STUCK, CYCLE, COUNTER, SCRIPT };
    SimSource(int mode, uint64_t seed, CbCtl* k = 0) : mode_(mode), rng(seed), ctl(k), left(-1), pos(0), served(0), fail_at(-1), fail_id(0) { base = seed; }
    uint32_t getUint32() override { return (uint32_t)next(32); }
    uint64_t getUint64() override { return next(64); }
    void seed(uint64_t v) override { rng.reseed(v); pos = 0; }
    NOCOV uint64_t next(int width) {
        seam_step(); HarnessScope h;
        if (ctl) ctl->hit(CB_DRAW);
        if (left == 0) { count("fault.source_exhausted"); throw SourceDry(); }
        if (left > 0) left--;
        served++;
        if (fail_at >= 0 && served == fail_at) { count("fault.source_error"); throw_fault(fail_id, mix((uint64_t)served, 77)); }
        uint64_t v;
        switch (mode_) {
        case STUCK: v = base; count("fault.source_stuck"); break;
        case CYCLE: v = script.empty() ? base + pos % 3 : script[pos % script.size()]; pos++; break;
        case COUNTER: v = base + pos++; break;
        case SCRIPT: v = pos < script.size() ? script[pos] : rng.next(); pos++; break;
        default: v = rng.next(); break;
        }
        if (width == 32) v &= 0xffffffffu;
        tokens.push_back(v);
        return v;
    }
    int mode_; Rng rng; CbCtl* ctl; int64_t left; size_t pos; int64_t served; int64_t fail_at; int fail_id; uint64_t base;
    std::vector<uint64_t> script, tokens;
};

} // namespace sim
#endif
