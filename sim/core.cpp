#include "sim.hpp"
#include <atomic>
#include <new>
#include <random>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <math.h>
#include <time.h>
#include <poll.h>
#include <signal.h>
#include <semaphore.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/resource.h>

namespace sim {

// ------------------------------------------------------------------ Rng
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += UINT64_C(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb);
    return z ^ (z >> 31);
}
void Rng::reseed(uint64_t seed) { for (int i = 0; i < 4; i++) s[i] = splitmix(seed); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
uint64_t Rng::geometric(double mean) {
    double u = ((double)(next() >> 11) + 1.0) * (1.0 / 9007199254740993.0);
    double v = -::log(u) * mean;
    if (v > 1e15) v = 1e15;
    return (uint64_t)v + 1;
}
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a; uint64_t h = splitmix(x); uint64_t y = b * UINT64_C(0xd6e8feb86659fd93) + (h | 1); uint64_t z = h ^ splitmix(y); return splitmix(z);
}
uint64_t hash_str(const std::string& s) {
    uint64_t h = UINT64_C(0xcbf29ce484222325);
    for (size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= UINT64_C(0x100000001b3); }
    return h;
}
std::string strf(const char* fmt, ...) {
    HarnessScope hs; va_list ap; va_start(ap, fmt); va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(0, 0, fmt, ap); va_end(ap);
    std::string r((size_t)n, 0); vsnprintf(&r[0], (size_t)n + 1, fmt, ap2); va_end(ap2); return r;
}

// ------------------------------------------------------------------ Plan
Item& Item::s(const std::string& k, const std::string& v) { kv.push_back(std::make_pair(k, v)); return *this; }
Item& Item::i(const std::string& k, int64_t v) { return s(k, strf("%" PRId64, v)); }
Item& Item::x(const std::string& k, uint64_t v) { return s(k, strf("0x%" PRIx64, v)); }
bool Item::has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
std::string Item::gs(const std::string& k, const std::string& d) const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
int64_t Item::gi(const std::string& k, int64_t d) const { for (auto& p : kv) if (p.first == k) return strtoll(p.second.c_str(), 0, 0); return d; }
uint64_t Item::gx(const std::string& k, uint64_t d) const { for (auto& p : kv) if (p.first == k) return strtoull(p.second.c_str(), 0, 0); return d; }
std::string Item::text() const { std::string r = kind; for (auto& p : kv) r += " " + p.first + "=" + p.second; return r; }
Item Item::parse(const std::string& line) {
    Item it; size_t p = 0; bool first = true;
    while (p < line.size()) {
        while (p < line.size() && line[p] == ' ') p++;
        size_t q = line.find(' ', p); if (q == std::string::npos) q = line.size();
        std::string w = line.substr(p, q - p); p = q;
        if (w.empty()) continue;
        if (first) { it.kind = w; first = false; }
        else { size_t e = w.find('='); if (e == std::string::npos) it.s(w, ""); else it.s(w.substr(0, e), w.substr(e + 1)); }
    }
    return it;
}
Item Plan::cfg() const { Item r("cfg"); for (auto& it : items) if (it.kind == "cfg") for (auto& p : it.kv) r.kv.push_back(p); return r; }
std::vector<Item> Plan::of(const std::string& kind) const { std::vector<Item> v; for (auto& it : items) if (it.kind == kind) v.push_back(it); return v; }
std::string Plan::text() const {
    std::string r = "prop " + prop + strf("\nseed 0x%" PRIx64 "\n", seed);
    for (auto& it : items) r += it.text() + "\n";
    return r;
}
Plan Plan::parse(const std::string& text) {
    Plan p; std::istringstream is(text); std::string l;
    while (std::getline(is, l)) {
        if (l.empty() || l[0] == '#') continue;
        if (l.compare(0, 5, "prop ") == 0) p.prop = l.substr(5);
        else if (l.compare(0, 5, "seed ") == 0 && l.find('=') == std::string::npos) p.seed = strtoull(l.c_str() + 5, 0, 0);
        else p.items.push_back(Item::parse(l));
    }
    return p;
}

// ------------------------------------------------------------------ child state
static thread_local int tl_harness = 0;
HarnessScope::HarnessScope() { tl_harness++; }
HarnessScope::~HarnessScope() { tl_harness--; }
RealScope::RealScope() : saved(tl_harness) { tl_harness = 0; }
RealScope::~RealScope() { tl_harness = saved; }
bool in_harness() { return tl_harness > 0; }

static int g_out = -1;                 // pipe to the parent
static uint64_t g_hash = 0, g_sig = 0;
static uint64_t g_loglines = 0;
static bool g_nontriv = false;
static std::string* g_desc = 0;
static std::map<std::string, uint64_t>* g_counters = 0;
static pthread_t g_main_thread;

static void wr(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) { ssize_t n = write(g_out, s.data() + o, s.size() - o); if (n < 0) { if (errno == EINTR) continue; break; } o += (size_t)n; }
}
static std::string esc(const std::string& s) {
    std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; } return r;
}
static std::string unesc(const std::string& s) {
    std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; } return r;
}
void log(const std::string& line) {
    HarnessScope h;
    std::string l = line; int t = current_task(); if (t >= 0) l = strf("t%d ", t) + line;
    g_hash = mix(g_hash, hash_str(l));
    if (++g_loglines <= 4000 && g_out >= 0) wr("L " + esc(l.substr(0, 2000)) + "\n");
}
void result(const std::string& k, const std::string& v) { HarnessScope h; g_hash = mix(g_hash, hash_str(k + "=" + v)); if (g_out >= 0) wr("R " + k + " " + esc(v) + "\n"); }
void count(const std::string& n, uint64_t c) { HarnessScope h; if (g_counters) (*g_counters)[n] += c; }
void sig(uint64_t v) { g_sig = mix(g_sig, v); }
void nontrivial() { g_nontriv = true; }
void describe(const std::string& t) { HarnessScope h; if (g_desc && g_desc->size() < 600) { *g_desc += t; } }
static std::string sched_text();
static void finish_child() {
    HarnessScope h;
    std::string s = sched_text();
    if (g_counters) for (auto& c : *g_counters) s += "C " + c.first + strf(" %" PRIu64 "\n", c.second);
    s += strf("H %" PRIx64 " %" PRIx64 " %d\n", g_hash, g_sig, g_nontriv ? 1 : 0);
    if (g_desc) s += "D " + esc(*g_desc) + "\n";
    s += "E\n";
    wr(s);
}
void violation(const std::string& cls, const std::string& detail) {
    tl_harness++;
    std::string d = detail.substr(0, 4000);
    g_hash = mix(g_hash, hash_str(cls));
    wr("V " + cls + "\nVD " + esc(d) + "\n");
    finish_child();
    _exit(0);
}
void harness_error(const std::string& what) {
    tl_harness++;
    if (g_out < 0) { fprintf(stderr, "harness error: %s\n", what.c_str()); _exit(3); }
    wr("X " + esc(what) + "\n");
    finish_child();
    _exit(0);
}

// ------------------------------------------------------------------ allocator seam
namespace {
struct Head { uint64_t magic; uint64_t size; uint64_t serial; uint64_t flags; Head* prev; Head* next; };
enum : uint64_t { M_LIVE = UINT64_C(0xA110CA7EDB10C4A5), M_DEAD = UINT64_C(0xDEADB10CDEADB10C), CAN = UINT64_C(0xC0DEC0DE5EED5EED) };
enum : uint64_t { F_HARNESS = 1 };
static std::atomic_flag g_al = ATOMIC_FLAG_INIT;
struct AL { AL() { while (g_al.test_and_set(std::memory_order_acquire)) sched_yield(); } ~AL() { g_al.clear(std::memory_order_release); } };
static Head g_list = {0, 0, 0, 0, &g_list, &g_list};   // live repo blocks
static uint64_t g_serial = 0, g_total = 0, g_live = 0, g_liveb = 0;
static int g_fill = 0; static uint64_t g_fillseed = 0;
static thread_local int64_t g_fail_left = 0, g_fail_every = 0; static thread_local uint64_t g_seen = 0; static thread_local bool g_fired = false;
static thread_local bool tl_armed = false;
static const size_t QCAP = 24u << 20;
static Head* g_qhead = 0; static Head* g_qtail = 0; static size_t g_qbytes = 0;
static bool g_ledger = false;          // on in children only
static int64_t g_kill_left = 0; static void (*g_kill_fn)() = 0;
}
void kill_at_alloc(int64_t k, void (*fn)()) { g_kill_left = k; g_kill_fn = fn; }
void end_run() { tl_harness++; finish_child(); _exit(0); }
static void fill(void* p, size_t n, uint64_t salt) {
    if (g_fill == 0) memset(p, 0, n);
    else if (g_fill == 1) memset(p, (int)(g_fillseed & 0xff), n);
    else {
        uint64_t x = g_fillseed ^ (salt * UINT64_C(0x9e3779b97f4a7c15)); unsigned char* b = (unsigned char*)p;
        while (n >= 8) { uint64_t v = splitmix(x); memcpy(b, &v, 8); b += 8; n -= 8; }
        if (n) { uint64_t v = splitmix(x); memcpy(b, &v, n); }
    }
}
static void* raw_new(size_t n) {
    if (!g_ledger) {
        char* m = (char*)malloc(sizeof(Head) + n + 16);
        if (!m) return 0;
        Head* h = (Head*)m; h->magic = M_LIVE; h->size = n; h->serial = 0; h->flags = F_HARNESS; h->prev = h->next = 0;
        uint64_t c = CAN; memcpy(m + sizeof(Head) + n, &c, 8);
        return m + sizeof(Head);
    }
    bool har = tl_harness > 0;
    if (!har) {
        seam_step();
        if (g_kill_left > 0 && --g_kill_left == 0) { tl_harness++; g_kill_fn(); finish_child(); _exit(0); }
        if (tl_armed) {
            g_seen++;
            if (g_fail_left > 0 && --g_fail_left == 0) {
                g_fired = true; if (g_fail_every > 0) g_fail_left = g_fail_every;
                count("fault.alloc_failure");
                return 0;
            }
        }
    }
    if (n > (size_t)4 << 30) return 0;
    char* m = (char*)malloc(sizeof(Head) + n + 16);
    if (!m) return 0;
    Head* h = (Head*)m; h->magic = M_LIVE; h->size = n; h->flags = har ? F_HARNESS : 0; h->prev = h->next = 0;
    uint64_t c = CAN; memcpy(m + sizeof(Head) + n, &c, 8);
    {
        AL l;
        h->serial = ++g_serial;
        if (!har) { h->prev = g_list.prev; h->next = &g_list; g_list.prev->next = h; g_list.prev = h; g_live++; g_liveb += n; g_total++; }
    }
    if (!har) fill(m + sizeof(Head), n, g_total);
    return m + sizeof(Head);
}
static void raw_delete(void* p) {
    if (!p) return;
    Head* h = (Head*)((char*)p - sizeof(Head));
    if (h->magic != M_LIVE) {
        if (g_out >= 0) violation(h->magic == M_DEAD ? "memory/double-free" : "memory/invalid-free", "operator delete on a block that is not live");
        abort();
    }
    uint64_t c; memcpy(&c, (char*)p + h->size, 8);
    if (c != CAN && g_out >= 0) violation("memory/overflow", strf("write past the end of a block of %zu bytes", (size_t)h->size));
    if (!g_ledger) { h->magic = M_DEAD; free(h); return; }
    AL l;
    if (h->prev) { h->prev->next = h->next; h->next->prev = h->prev; g_live--; g_liveb -= h->size; }
    h->magic = M_DEAD; h->prev = h->next = 0;
    if (h->flags & F_HARNESS) { free(h); return; }
    memset(p, 0xDB, h->size);
    // quarantine
    if (g_qtail) g_qtail->next = h; else g_qhead = h;
    g_qtail = h; g_qbytes += h->size + sizeof(Head);
    while (g_qbytes > QCAP && g_qhead) {
        Head* o = g_qhead; g_qhead = o->next; if (!g_qhead) g_qtail = 0;
        g_qbytes -= o->size + sizeof(Head); free(o);
    }
}
AllocStats alloc_stats() { AL l; AllocStats a = {g_live, g_liveb, g_total}; return a; }
void alloc_set_fill(int m, uint64_t s) { g_fill = m; g_fillseed = s; mallopt(M_PERTURB, (int)(1 + (s >> 8) % 255)); }
void alloc_fail_at(int64_t k, int64_t every) { g_fail_left = k; g_fail_every = every; g_seen = 0; g_fired = false; tl_armed = true; }
void alloc_off() { tl_armed = false; g_fail_left = 0; g_fail_every = 0; }
uint64_t alloc_seen() { return g_seen; }
bool alloc_fired() { return g_fired; }
uint64_t alloc_mark() { AL l; return g_serial; }
uint64_t alloc_live_since(uint64_t mark) {
    AL l; uint64_t n = 0; for (Head* h = g_list.prev; h != &g_list && h->serial > mark; h = h->prev) n++; return n;
}
__attribute__((noinline)) void poison_stack(uint64_t seed) {
    volatile unsigned char buf[48 * 1024]; uint64_t x = seed; HarnessScope h;
    for (size_t i = 0; i < sizeof buf; i += 8) { uint64_t v = splitmix(x); for (int j = 0; j < 8; j++) buf[i + (size_t)j] = (unsigned char)(v >> (8 * j)); }
}

static __attribute__((noinline)) void poison_deep(uint64_t seed) {
    volatile unsigned char buf[512 * 1024]; uint64_t x = seed;
    for (size_t i = 0; i < sizeof buf; i++) { if (i % 8 == 0) splitmix(x); buf[i] = (unsigned char)(x >> (8 * (i % 8))); }
}
// ------------------------------------------------------------------ clock seam
static int g_cmode = 0; static uint64_t g_cseed = 1; static uint64_t g_ccalls = 0;
static double g_ctime = 1.6e9, g_cmin = 1.6e9, g_cmax = 1.6e9;
void clock_setup(int mode, uint64_t seed) {
    g_cmode = mode; g_cseed = seed; g_ccalls = 0; Rng r(seed);
    g_ctime = (double)(1000000000ULL + r.below(1000000000ULL)); g_cmin = g_cmax = g_ctime;
}
static double clock_read() {
    g_ccalls++;
    uint64_t x = g_cseed + g_ccalls; uint64_t v = splitmix(x);
    switch (g_cmode) {
    case 0: g_ctime += 0.001; break;
    case 1: if (v % 3 == 0) { g_ctime += (double)(v % 100000); count("fault.clock_jump"); } else g_ctime += 1; break;
    case 2: count("fault.clock_frozen"); break;
    default: if (v % 2 == 0) { g_ctime -= (double)(v % 5000); count("fault.clock_backwards"); } else g_ctime += 3; break;
    }
    if (g_ctime < 1) g_ctime = 1;
    if (g_ctime < g_cmin) g_cmin = g_ctime;
    if (g_ctime > g_cmax) g_cmax = g_ctime;
    return g_ctime;
}
uint64_t clock_calls() { return g_ccalls; }
uint64_t clock_span() { return (uint64_t)(g_cmax - g_cmin); }

// ------------------------------------------------------------------ output seam
bool SimBuf::gate() {
    seam_step();
    calls++;
    if (throw_at >= 0 && (int64_t)calls == throw_at) { fired++; count("fault.stream_throw"); throw StreamFault(); }
    if (fail_at >= 0 && (int64_t)calls >= fail_at) { fired++; count("fault.stream_write_error"); return false; }
    return true;
}
SimBuf::int_type SimBuf::overflow(int_type c) {
    if (c == traits_type::eof()) return 0;
    if (!gate()) return traits_type::eof();
    if (limit >= 0 && (int64_t)written >= limit) { fired++; count("fault.stream_full"); return traits_type::eof(); }
    HarnessScope h; data.push_back((char)c); written++; return c;
}
std::streamsize SimBuf::xsputn(const char* s, std::streamsize n) {
    if (!gate()) return 0;
    HarnessScope h;
    std::streamsize k = n;
    if (chunk > 0 && k > chunk) count("fault.short_write");
    if (limit >= 0 && (int64_t)written + k > limit) { k = (std::streamsize)(limit - (int64_t)written); if (k < 0) k = 0; fired++; count("fault.stream_full"); }
    data.append(s, (size_t)k); written += (uint64_t)k;
    return k;
}

// ------------------------------------------------------------------ scheduler
namespace {
struct Task { int id; const std::function<void()>* fn; sem_t sem; pthread_t th; bool done; bool waiting; };
struct Sched {
    bool active = false; std::vector<Task*> tasks; Task* cur = 0; SchedCfg cfg; Rng rng; SchedOut out;
    uint64_t next_switch = 0; size_t ri = 0; sem_t main_sem; Task* finished = 0;
} S;
static uint64_t g_steps = 0, g_cap = UINT64_C(2000000000);
static thread_local Task* tl_task = 0;
extern "C" { extern char __data_start, _end; }
}
static std::string sched_text() {
    if (S.out.trace.empty()) return "";
    std::string t = "T"; for (auto& p : S.out.trace) t += strf(" %" PRIu64 ":%d", p.first, p.second);
    return t + "\n";
}
int current_task() { return tl_task ? tl_task->id : -1; }
void set_step_cap(uint64_t c) { g_cap = g_steps + c; }
uint64_t steps() { return g_steps; }

static int pick_other(bool must) {
    std::vector<int> c;
    for (Task* t : S.tasks) if (!t->done && t != S.cur) c.push_back(t->id);
    (void)must;
    if (c.empty()) return -1;
    if (S.cfg.replay) return c[0];
    return c[S.rng.below(c.size())];
}
static void handoff(int to) {
    Task* me = S.cur; Task* t = S.tasks[(size_t)to];
    S.out.trace.push_back(std::make_pair(g_steps, to));
    S.out.trace_hash = mix(S.out.trace_hash, mix(g_steps, (uint64_t)to));
    S.out.switches++;
    if (S.out.switches % 4000 == 0) { S.cfg.mean_gap *= 2; S.cfg.hot /= 2; }   // fine interleaving first, then coarser: a run stays bounded
    S.cur = t;
    sem_post(&t->sem);
    while (sem_wait(&me->sem) != 0) {}
}
static void step(bool hot) {
    if (tl_harness > 0) return;
    if (g_out < 0) return;
    if (++g_steps > g_cap) { tl_harness++; violation("liveness/step-bound", strf("no completion within the bound of %" PRIu64 " simulated steps", g_cap)); }
    if (!S.active || !tl_task) return;
    tl_harness++;
    int to = -1;
    if (S.cfg.replay) {
        while (S.ri < S.cfg.script.size() && S.cfg.script[S.ri].first < g_steps) S.ri++;
        if (S.ri < S.cfg.script.size() && S.cfg.script[S.ri].first == g_steps) {
            int t = S.cfg.script[S.ri].second; S.ri++;
            if (t >= 0 && t < (int)S.tasks.size() && !S.tasks[(size_t)t]->done && S.tasks[(size_t)t] != S.cur) to = t;
        }
    } else {
        if (hot) { S.out.hot_hits++; if (S.cfg.hot > 0 && S.rng.chance(S.cfg.hot)) to = pick_other(false); }
        if (to < 0 && g_steps >= S.next_switch) { to = pick_other(false); S.next_switch = g_steps + S.rng.geometric(S.cfg.mean_gap); }
    }
    if (to >= 0) handoff(to);
    tl_harness--;
}
void seam_step() { step(false); }
static void* task_main(void* a) {
    Task* t = (Task*)a;
    tl_harness++;
    while (sem_wait(&t->sem) != 0) {}
    tl_task = t;
    tl_harness--;
    try { (*t->fn)(); } catch (...) { violation("crash/escaped-exception", "an exception left a task body"); }
    tl_harness++;
    t->done = true;
    tl_task = 0;
    S.finished = t;
    sem_post(&S.main_sem);      // main joins us (thread-local destructors included) before anyone else runs
    return 0;
}
SchedOut run_tasks(const std::vector<std::function<void()> >& fns, const SchedCfg& cfg) {
    HarnessScope h;
    S.cfg = cfg; S.rng.reseed(cfg.seed); S.out = SchedOut(); S.ri = 0; S.tasks.clear(); S.finished = 0;
    sem_init(&S.main_sem, 0, 0);
    uint64_t start = g_steps; g_cap = g_steps + cfg.cap;
    for (size_t i = 0; i < fns.size(); i++) {
        Task* t = new Task(); t->id = (int)i; t->fn = &fns[i]; t->done = t->waiting = false; sem_init(&t->sem, 0, 0);
        S.tasks.push_back(t);
    }
    S.next_switch = g_steps + S.rng.geometric(cfg.mean_gap);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4u << 20);
    for (Task* t : S.tasks) if (pthread_create(&t->th, &at, task_main, t) != 0) harness_error("pthread_create");
    pthread_attr_destroy(&at);
    S.active = true;
    S.cur = 0;
    size_t left = S.tasks.size();
    int nexti = -1;
    while (left) {
        // choose who continues (start, or after an end)
        if (cfg.replay) {
            while (S.ri < cfg.script.size() && cfg.script[S.ri].first < g_steps) S.ri++;
            nexti = -1;
            if (S.ri < cfg.script.size() && cfg.script[S.ri].first == g_steps) {
                int t = cfg.script[S.ri].second; S.ri++;
                if (t >= 0 && t < (int)S.tasks.size() && !S.tasks[(size_t)t]->done) nexti = t;
            }
            if (nexti < 0) for (Task* t : S.tasks) if (!t->done) { nexti = t->id; break; }
        } else {
            std::vector<int> c; for (Task* t : S.tasks) if (!t->done) c.push_back(t->id);
            nexti = c[S.rng.below(c.size())];
        }
        S.out.trace.push_back(std::make_pair(g_steps, nexti));
        S.out.trace_hash = mix(S.out.trace_hash, mix(g_steps, (uint64_t)nexti));
        S.cur = S.tasks[(size_t)nexti];
        sem_post(&S.cur->sem);
        while (sem_wait(&S.main_sem) != 0) {}
        pthread_join(S.finished->th, 0);
        left--;
    }
    S.active = false;
    S.out.steps = g_steps - start;
    for (Task* t : S.tasks) delete t;
    S.tasks.clear();
    return S.out;
}
// a task found a lock held by a parked task: somebody else must run
static bool lock_wait() {
    if (!S.active || !tl_task) return false;
    tl_harness++;
    if (++g_steps > g_cap) violation("liveness/step-bound", "lock never released within the step bound");
    S.out.lock_waits++;
    int to = -1;
    if (S.cfg.replay) {
        while (S.ri < S.cfg.script.size() && S.cfg.script[S.ri].first < g_steps) S.ri++;
        if (S.ri < S.cfg.script.size() && S.cfg.script[S.ri].first == g_steps) { to = S.cfg.script[S.ri].second; S.ri++; if (to >= (int)S.tasks.size() || S.tasks[(size_t)to]->done || S.tasks[(size_t)to] == S.cur) to = -1; }
        if (to < 0) { int n = (int)S.tasks.size(); for (int k = 1; k < n; k++) { int c = (S.cur->id + k) % n; if (!S.tasks[(size_t)c]->done) { to = c; break; } } }
    } else to = pick_other(true);
    if (to < 0) violation("liveness/deadlock", "a thread waits for a lock that nobody can release");
    handoff(to);
    tl_harness--;
    return true;
}

// ------------------------------------------------------------------ run_child
static void parse_child(const std::string& buf, ChildResult& r, bool& ended) {
    std::istringstream is(buf); std::string l; ended = false;
    while (std::getline(is, l)) {
        if (l.size() < 1) continue;
        if (l == "E") { ended = true; continue; }
        std::string rest = l.size() > 2 ? l.substr(2) : "";
        switch (l[0]) {
        case 'L': r.loglines.push_back(unesc(rest)); break;
        case 'R': { size_t p = rest.find(' '); r.results[rest.substr(0, p)] = p == std::string::npos ? "" : unesc(rest.substr(p + 1)); break; }
        case 'C': { size_t p = rest.rfind(' '); r.counters[rest.substr(0, p)] += strtoull(rest.c_str() + p + 1, 0, 10); break; }
        case 'H': { unsigned long long a, b; int n; if (sscanf(rest.c_str(), "%llx %llx %d", &a, &b, &n) == 3) { r.hash = a; r.sig = b; r.nontriv = n != 0; } break; }
        case 'D': r.desc = unesc(rest); break;
        case 'X': r.error = unesc(rest); break;
        case 'T': { std::istringstream ts(rest); std::string w; while (ts >> w) { size_t c = w.find(':'); Item it("sched"); it.s("st", w.substr(0, c)).s("to", w.substr(c + 1)); r.sched.push_back(it); } break; }
        case 'V': if (l[1] == 'D') r.vdetail = unesc(l.substr(3)); else r.vcls = rest; break;
        default: break;
        }
    }
}
// a child is stopped after WATCHDOG seconds of processor time, or when it gets nowhere for STALL seconds without using any
enum { WATCHDOG = 120, STALL = 90 };
static double cpu_of(pid_t pid) { struct timespec t; clockid_t id = (clockid_t)((~(unsigned)pid << 3) | 2); if (syscall(SYS_clock_gettime, id, &t) != 0) return -1; return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
ChildResult run_child(const std::function<void()>& fn) {
    ChildResult r;
    int pf[2];
    if (pipe(pf) != 0) { r.error = "pipe"; return r; }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { close(pf[0]); close(pf[1]); r.error = "fork"; return r; }
    if (pid == 0) {
        close(pf[0]);
        g_out = pf[1]; g_hash = 1; g_sig = 1; g_steps = 0; g_loglines = 0; g_nontriv = false;
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
        g_main_thread = pthread_self();
        tl_harness++;
        g_desc = new std::string(); g_counters = new std::map<std::string, uint64_t>();
        tl_harness--;
        g_ledger = true; mallopt(M_PERTURB, 0x5a);
        poison_stack(0x1234567); poison_deep(0x1234567);
        try { fn(); }
        catch (const std::exception& e) { violation("crash/escaped-exception", std::string("unexpected exception: ") + e.what()); }
        catch (...) { violation("crash/escaped-exception", "unexpected exception of unknown type"); }
        count("sim.steps", g_steps);
        count("sim.clock_seconds", clock_span());
        finish_child();
        _exit(0);
    }
    close(pf[1]);
    std::string buf; char tmp[65536]; bool timeout = false; double last = 0;
    struct timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    for (;;) {
        struct pollfd p = {pf[0], POLLIN, 0};
        int k = poll(&p, 1, 1000);
        if (k > 0) { ssize_t n = read(pf[0], tmp, sizeof tmp); if (n <= 0) break; buf.append(tmp, (size_t)n); }
        struct timespec t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
        double cpu = cpu_of(pid); if (cpu > last + 0.01) { last = cpu; t0 = t1; }
        if (cpu > WATCHDOG || t1.tv_sec - t0.tv_sec > STALL) { timeout = true; kill(pid, SIGKILL); break; }
    }
    close(pf[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool ended; parse_child(buf, r, ended);
    if (timeout) { r.vcls = "liveness/wall-clock"; r.vdetail = strf("not finished after %d seconds of processor time or stuck (undisturbed runs take a few seconds at most)", WATCHDOG); r.hash = mix(9, 9); r.sched.clear(); r.counters.clear(); r.loglines.clear(); }
    else if (!ended && r.vcls.empty()) {
        if (WIFSIGNALED(st)) { r.vcls = strf("crash/signal-%d", WTERMSIG(st)); r.vdetail = strf("the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); r.hash = mix(7, (uint64_t)WTERMSIG(st)); }
        else { r.vcls = "crash/exit"; r.vdetail = strf("the process ended early with status %d", WEXITSTATUS(st)); r.hash = mix(8, (uint64_t)WEXITSTATUS(st)); }
    }
    return r;
}
void Outcome::absorb(const ChildResult& c) {
    hash = mix(hash, c.hash); sig = mix(sig, c.sig); nontriv = nontriv || c.nontriv;
    for (auto& k : c.counters) counters[k.first] += k.second;
    if (desc.empty()) desc = c.desc;
    if (!c.sched.empty()) sched = c.sched;
    if (error.empty()) error = c.error;
    if (vcls.empty() && !c.vcls.empty()) { vcls = c.vcls; vdetail = c.vdetail; }
    loglines.insert(loglines.end(), c.loglines.begin(), c.loglines.end());
}
SchedCfg sched_cfg(const Plan& p) {
    SchedCfg c; Item g = p.cfg(); c.seed = p.sub("sched"); c.mean_gap = (double)g.gi("gap", 100); c.hot = (double)g.gi("hot", 0) / 100.0;
    for (auto& it : p.items) if (it.kind == "sched") { c.replay = true; c.script.push_back(std::make_pair(it.gx("st"), (int)it.gi("to"))); }
    if (g.gi("explicit", 0)) c.replay = true;
    return c;
}
Outcome simple_eval(const Plan& p, const std::function<void(const Plan&)>& body) {
    Outcome o; o.absorb(run_child([&]() { body(p); })); return o;
}
} // namespace sim

// ------------------------------------------------------------------ interposed symbols
void* operator new(size_t n) { void* p = sim::raw_new(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim::raw_new(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { sim::HarnessScope h; return sim::raw_new(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { sim::HarnessScope h; return sim::raw_new(n ? n : 1); }
void operator delete(void* p) noexcept { sim::raw_delete(p); }
void operator delete[](void* p) noexcept { sim::raw_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::raw_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::raw_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::raw_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::raw_delete(p); }

extern "C" {
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*) { sim::step(false); }
#define ACC(name, T) NOCOV void name(T* p) { sim::step((char*)p >= &sim::__data_start && (char*)p < &sim::_end); }
ACC(__sanitizer_cov_load1, uint8_t) ACC(__sanitizer_cov_load2, uint16_t) ACC(__sanitizer_cov_load4, uint32_t)
ACC(__sanitizer_cov_load8, uint64_t) ACC(__sanitizer_cov_load16, __uint128_t)
ACC(__sanitizer_cov_store1, uint8_t) ACC(__sanitizer_cov_store2, uint16_t) ACC(__sanitizer_cov_store4, uint32_t)
ACC(__sanitizer_cov_store8, uint64_t) ACC(__sanitizer_cov_store16, __uint128_t)

time_t time(time_t* t) { time_t v = (time_t)sim::clock_read(); if (t) *t = v; return v; }
clock_t clock(void) { return (clock_t)(sim::clock_read() * 1000.0); }
int gettimeofday(struct timeval* tv, void*) { double d = sim::clock_read(); tv->tv_sec = (time_t)d; tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t, struct timespec* ts) { double d = sim::clock_read(); ts->tv_sec = (time_t)d; ts->tv_nsec = 0; return 0; }
int rand(void) { return (int)((uint64_t)sim::clock_read() * 2654435761ULL & 0x7fffffff); }
long random(void) { return rand(); }

int pthread_mutex_lock(pthread_mutex_t* m) {
    typedef int (*F)(pthread_mutex_t*);
    static F real = 0, tryl = 0;
    if (!real) { real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock"); tryl = (F)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
    if (!sim::S.active || !sim::tl_task) return real(m);
    for (;;) {
        int r = tryl(m);
        if (r != EBUSY) return r;
        if (!sim::lock_wait()) return real(m);
    }
}
int pthread_once(pthread_once_t* c, void (*f)(void)) {
    volatile int* s = (volatile int*)c;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
        if (!sim::lock_wait()) sched_yield();
    }
}
int __cxa_guard_acquire(uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    for (;;) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (!sim::lock_wait()) sched_yield();
    }
}
void __cxa_guard_release(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t* g) { ((volatile unsigned char*)g)[1] = 0; }
}
