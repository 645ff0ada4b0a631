// Batch runner, minimiser, replayer and evidence writer.
#include "sim.hpp"
#include <algorithm>
#include <set>
#include <fstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/prctl.h>

namespace sim {
static std::vector<Property>& props() { static std::vector<Property> v; return v; }
void register_property(const Property& p) { props().push_back(p); }
static const Property* find_prop(const std::string& id) { for (auto& p : props()) if (p.id == id) return &p; return 0; }

static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static std::string jstr(const std::string& s) {
    std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += (char)c; } return r + "\"";
}
static bool write_file(const std::string& p, const std::string& s) { std::ofstream f(p.c_str(), std::ios::binary); f << s; f.close(); return (bool)f; }
static std::string read_file(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
static std::string oneline(const std::string& s) { std::string r; for (char c : s) r += (c == '\n') ? ' ' : c; return r; }

// ---- known findings
struct Known { std::string prop, cls, sub, what; };
static std::vector<Known> load_known(const std::string& path) {
    std::vector<Known> v; std::ifstream f(path.c_str()); std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 8, "finding:") != 0) continue;     // "finding: property=C09 class=x match=y | text"
        Known k; size_t bar = l.find('|'); Item it = Item::parse(l.substr(0, bar)); k.prop = it.gs("property"); k.cls = it.gs("class"); k.sub = it.gs("match");
        k.what = bar == std::string::npos ? "" : l.substr(bar + 1); v.push_back(k);
    }
    return v;
}
static bool is_known(const std::vector<Known>& ks, const std::string& prop, const Outcome& o) {
    for (auto& k : ks) if (k.prop == prop && k.cls == o.vcls && (k.sub.empty() || o.vdetail.find(k.sub) != std::string::npos)) return true;
    return false;
}

// ---- schedules into the plan
static Plan with_sched(const Plan& p, const Outcome& o) {
    Plan q = p; std::vector<Item> keep; for (auto& it : q.items) if (it.kind != "sched" ) keep.push_back(it);
    if (!o.sched.empty()) { q.items = keep; Item e("cfg"); e.i("explicit", 1); q.items.push_back(e); for (auto& s : o.sched) q.items.push_back(s); }
    return q;
}

// ---- minimiser: drop items (ops, faults, context switches), then shrink numbers, while the class persists
static Plan minimise(const Property& pr, const Plan& start, const std::string& cls, double budget_s, int* evals) {
    Plan best = start; double t0 = now_s(); *evals = 0;
    auto same = [&](const Plan& c, Plan* out) {
        if (now_s() - t0 > budget_s) return false;
        ++*evals; Outcome o = pr.evaluate(c);
        if (!o.error.empty() || o.vcls != cls) return false;
        *out = c; return true;
    };
    bool progress = true;
    for (int round = 0; round < 3 && progress && now_s() - t0 < budget_s; round++) {
        progress = false;
        std::vector<size_t> idx; for (size_t i = 0; i < best.items.size(); i++) if (best.items[i].kind != "cfg") idx.push_back(i);
        for (size_t chunk = std::max<size_t>(1, idx.size() / 2); chunk >= 1 && now_s() - t0 < budget_s;) {
            bool cut = false;
            idx.clear(); for (size_t i = 0; i < best.items.size(); i++) if (best.items[i].kind != "cfg") idx.push_back(i);
            for (size_t a = 0; a < idx.size(); a += chunk) {
                Plan c = best; std::vector<Item> it; std::set<size_t> drop; for (size_t k = a; k < std::min(idx.size(), a + chunk); k++) drop.insert(idx[k]);
                for (size_t i = 0; i < best.items.size(); i++) if (!drop.count(i)) it.push_back(best.items[i]);
                c.items = it; Plan o;
                if (same(c, &o)) { best = o; cut = progress = true; break; }
                if (now_s() - t0 > budget_s) break;
            }
            if (!cut) { if (chunk == 1) break; chunk /= 2; }
            else chunk = std::min(chunk, std::max<size_t>(1, best.items.size() / 2));
        }
        for (size_t i = 0; i < best.items.size(); i++) for (size_t k = 0; k < best.items[i].kv.size(); k++) {
            const std::string key = best.items[i].kv[k].first;
            if (std::find(pr.shrink_keys.begin(), pr.shrink_keys.end(), key) == pr.shrink_keys.end()) continue;
            for (int tries = 0; tries < 6; tries++) {
                int64_t v = strtoll(best.items[i].kv[k].second.c_str(), 0, 0); if (v <= 0) break;
                bool ok = false;
                for (int64_t nv : {(int64_t)0, v / 2, v - 1}) { if (nv == v) continue; Plan c = best; c.items[i].kv[k].second = strf("%" PRId64, nv); Plan o; if (same(c, &o)) { best = o; ok = progress = true; break; } }
                if (!ok) break;
            }
        }
    }
    return best;
}

static int cmd_replay(const std::string& path, bool verbose) {
    std::string txt = read_file(path); if (txt.empty()) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    Plan p = Plan::parse(txt); const Property* pr = find_prop(p.prop); if (!pr) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); return 2; }
    std::string wantc, wanth; std::istringstream is(txt); std::string l;
    while (std::getline(is, l)) { if (l.compare(0, 9, "# class: ") == 0) wantc = l.substr(9); if (l.compare(0, 8, "# hash: ") == 0) wanth = l.substr(8); }
    Outcome o = pr->evaluate(p);
    if (verbose) for (auto& x : o.loglines) printf("  %s\n", x.c_str());
    std::string h = strf("%016" PRIx64, o.hash);
    printf("class: %s\nhash: %s\ndetail: %s\n", o.vcls.empty() ? "-" : o.vcls.c_str(), h.c_str(), o.vdetail.c_str());
    if (!o.error.empty()) { printf("error: %s\n", o.error.c_str()); return 2; }
    if (wantc == "any") return o.vcls.empty() ? 3 : 1;
    if (!wantc.empty()) { bool same = wantc == o.vcls && wanth == h; printf("%s\n", same ? "REPRODUCED exactly" : "NOT REPRODUCED"); return same ? 1 : 3; }
    return o.vcls.empty() ? 0 : 1;
}

struct RunRec { uint64_t idx; uint64_t seed, hash, sig; bool nontriv; std::string desc; };

int driver_main(int argc, char** argv) {
    std::map<std::string, std::string> opt; std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) { opt[a.substr(2)] = argv[i + 1]; i++; } else opt[a.substr(2)] = "1"; }
        else pos.push_back(a);
    }
    if (pos.empty()) { fprintf(stderr, "usage: mtsim batch|replay|list|plan|audit\n"); return 2; }
    std::string exe = argv[0];
    { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) { b[n] = 0; exe = b; } }
    if (pos[0] == "list") { for (auto& p : props()) printf("%s quick=%d thorough=%d\n", p.id.c_str(), p.quick_runs, p.thorough_runs); return 0; }
    if (pos[0] == "replay") return cmd_replay(pos.size() > 1 ? pos[1] : "", opt.count("v"));
    const Property* pr = find_prop(opt["prop"]); if (!pr) { fprintf(stderr, "unknown property '%s'\n", opt["prop"].c_str()); return 2; }
    bool thorough = opt["tier"] == "thorough";
    uint64_t seed = strtoull(opt.count("seed") ? opt["seed"].c_str() : "1", 0, 0);
    auto run_seed = [&](uint64_t i) { return mix(mix(seed, hash_str(pr->id)), i); };
    if (pos[0] == "plan") { Plan p = pr->generate(run_seed(strtoull(opt["run"].c_str(), 0, 0)), thorough); p.prop = pr->id; printf("%s", p.text().c_str()); return 0; }
    if (pos[0] != "batch") return 2;

    uint64_t runs = opt.count("runs") ? strtoull(opt["runs"].c_str(), 0, 0) : (uint64_t)(thorough ? pr->thorough_runs : pr->quick_runs);
    int jobs = opt.count("jobs") ? atoi(opt["jobs"].c_str()) : 8; if (jobs < 1) jobs = 1;
    double wall = opt.count("wall") ? atof(opt["wall"].c_str()) : (thorough ? 3000 : 420);
    std::string outdir = opt.count("out") ? opt["out"] : "out"; mkdir(outdir.c_str(), 0755);
    std::string evid = opt["evidence"];
    std::vector<Known> known = load_known(opt["known"]);
    uint64_t audit_every = opt.count("audit") ? strtoull(opt["audit"].c_str(), 0, 0) : 23;
    double t0 = now_s();

    std::vector<int> fds; std::vector<pid_t> pids; std::vector<std::string> bufs((size_t)jobs);
    fflush(stdout);
    uint64_t* ticket = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (ticket == MAP_FAILED) return 2;      // next run to take
    for (int w = 0; w < jobs; w++) {
        int pf[2]; if (pipe(pf) != 0) return 2;
        pid_t pid = fork(); if (pid < 0) return 2;
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (int fd : fds) close(fd); close(pf[0]);
            auto send = [&](const std::string& s) { std::string l = s + "\n"; size_t o = 0; while (o < l.size()) { ssize_t n = write(pf[1], l.data() + o, l.size() - o); if (n <= 0) _exit(0); o += (size_t)n; } };
            std::map<std::string, uint64_t> cnt; uint64_t done = 0, audited = 0;
            for (uint64_t i; (i = __atomic_fetch_add(ticket, 1, __ATOMIC_SEQ_CST)) < runs;) {
                if (now_s() - t0 > wall) { send("T"); break; }
                Plan p = pr->generate(run_seed(i), thorough); p.prop = pr->id; p.seed = run_seed(i);
                double rt = now_s(); Outcome o = pr->evaluate(p); rt = now_s() - rt;
                if (rt > (getenv("MTSIM_SLOW") ? atof(getenv("MTSIM_SLOW")) : 10)) send(strf("S %" PRIu64 " %.1f", i, rt) + oneline(o.desc).substr(0, 60));
                if (!o.error.empty()) { send(strf("X %" PRIu64 " ", i) + oneline(o.error)); write_file(outdir + strf("/%s-error-%" PRIu64 ".plan", pr->id.c_str(), i), p.text()); break; }
                if (!o.vcls.empty()) {
                    if (is_known(known, pr->id, o)) { cnt["known_findings_hit"]++; }
                    else {
                        write_file(outdir + strf("/%s-cand-%" PRIu64 ".plan", pr->id.c_str(), i), p.text());
                        send(strf("V %" PRIu64 " ", i) + o.vcls + " " + oneline(o.vdetail)); break;
                    }
                }
                done++;
                for (auto& c : o.counters) cnt[c.first] += c.second;
                cnt["sim.max_steps"] = std::max(cnt["sim.max_steps"], o.counters["sim.steps"]);
                if (i < 4 || i % audit_every == 0) {
                    Outcome o2 = pr->evaluate(Plan::parse(p.text())); audited++;      // as a replay file would
                    if (o2.hash != o.hash || o2.vcls != o.vcls) { send(strf("N %" PRIu64 " ", i) + "two executions of one seed differ"); write_file(outdir + strf("/%s-nondet-%" PRIu64 ".plan", pr->id.c_str(), i), p.text()); break; }
                }
                send(strf("R %" PRIu64 " %" PRIx64 " %" PRIx64 " %" PRIx64 " %d %s", i, p.seed, o.hash, o.sig, o.nontriv ? 1 : 0, i < 64 ? oneline(o.desc).c_str() : ""));
            }
            for (auto& c : cnt) send("C " + c.first + strf(" %" PRIu64, c.second));
            send(strf("A %" PRIu64 " %" PRIu64, done, audited));
            _exit(0);
        }
        close(pf[1]); fds.push_back(pf[0]); pids.push_back(pid);
    }
    std::vector<RunRec> recs; std::map<std::string, uint64_t> cnt; std::vector<std::string> slow, errors; std::vector<std::pair<uint64_t, std::string> > viol, nondet;
    uint64_t audited = 0; bool truncated = false; double viol_at = -1;
    auto handle = [&](const std::string& l) {
        if (l.empty()) return;
        std::istringstream is(l.substr(l.size() > 1 ? 2 : 1)); uint64_t i = 0;
        switch (l[0]) {
        case 'T': truncated = true; break;
        case 'S': slow.push_back(l.substr(2)); break;
        case 'X': errors.push_back(l.substr(2)); break;
        case 'V': { is >> i; std::string rest; std::getline(is, rest); viol.push_back(std::make_pair(i, rest)); if (viol_at < 0) viol_at = now_s(); break; }
        case 'N': { is >> i; nondet.push_back(std::make_pair(i, l)); break; }
        case 'C': { size_t p = l.rfind(' '); if (l.substr(2, p - 2) == "sim.max_steps") { cnt["sim.max_steps"] = std::max<uint64_t>(cnt["sim.max_steps"], strtoull(l.c_str() + p + 1, 0, 10)); break; } cnt[l.substr(2, p - 2)] += strtoull(l.c_str() + p + 1, 0, 10); break; }
        case 'A': { uint64_t a, b; is >> a >> b; audited += b; break; }
        case 'R': { RunRec r; int nt = 0; std::string s, h, g; is >> r.idx >> s >> h >> g >> nt; r.seed = strtoull(s.c_str(), 0, 16); r.hash = strtoull(h.c_str(), 0, 16); r.sig = strtoull(g.c_str(), 0, 16); r.nontriv = nt != 0; std::getline(is, r.desc); recs.push_back(r); break; }
        }
    };
    size_t open = fds.size();
    while (open) {
        std::vector<struct pollfd> pv; for (int fd : fds) { struct pollfd p = {fd, POLLIN, 0}; pv.push_back(p); }
        poll(&pv[0], pv.size(), 500);
        for (size_t k = 0; k < fds.size(); k++) if (fds[k] >= 0 && (pv[k].revents & (POLLIN | POLLHUP))) {
            char b[65536]; ssize_t n = read(fds[k], b, sizeof b);
            if (n <= 0) { close(fds[k]); fds[k] = -1; open--; handle(bufs[k]); bufs[k].clear(); continue; }
            bufs[k].append(b, (size_t)n); size_t p;
            while ((p = bufs[k].find('\n')) != std::string::npos) { handle(bufs[k].substr(0, p)); bufs[k].erase(0, p + 1); }
        }
        if (viol_at >= 0 && now_s() - viol_at > 3) { for (size_t k = 0; k < fds.size(); k++) if (fds[k] >= 0) { kill(pids[k], SIGKILL); } viol_at = 1e18; }
        if (now_s() - t0 > wall + (thorough ? 600 : 260)) { truncated = true; /* a machine this slow: what did finish counts */ for (pid_t p : pids) kill(p, SIGKILL); break; }
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
    double wall_s = now_s() - t0;

    // ---- violations: reproduce, minimise, replay in a fresh process
    int rc = 0; std::string vline; int nviol = 0;
    std::sort(viol.begin(), viol.end());
    std::vector<std::string> notes;
    for (size_t vi = 0; vi < viol.size() && !nviol && vi < 4; vi++) {
        uint64_t i = viol[vi].first; Plan p = pr->generate(run_seed(i), thorough); p.prop = pr->id; p.seed = run_seed(i);
        Outcome a = pr->evaluate(p), b = pr->evaluate(p);
        if ((a.vcls != b.vcls || a.hash != b.hash) && (!a.vcls.empty() || !b.vcls.empty())) {
            // the code under test depends on something no seed controls (such as memory it never set): the violation is real if it comes again, the history is not exact
            int again = 0; Outcome keep = a.vcls.empty() ? b : a; for (int k = 0; k < 6 && again < 2; k++) if (!pr->evaluate(p).vcls.empty()) again++;
            if (again < 2) { notes.push_back(strf("run %" PRIu64 ": a violation (%s) that does not come again", i, keep.vcls.c_str())); continue; }
            std::string path = outdir + strf("/%s-%016" PRIx64 ".replay", pr->id.c_str(), p.seed); write_file(path, "# replay with: mtsim replay <this file>\n# class: any\n# detail: " + keep.vcls + " " + oneline(keep.vdetail) + "\n" + p.text());
            nviol++; rc = 1; char rp[4096]; std::string ap = realpath(path.c_str(), rp) ? rp : path; notes.push_back(strf("run %" PRIu64 ": executions of this seed end with violations but differ in detail", i));
            printf("violation class: %s\n%s\n", keep.vcls.c_str(), keep.vdetail.c_str()); vline = "VIOLATION property=" + pr->id + " replay=" + ap; continue;
        }
        if (a.vcls.empty() || a.vcls != b.vcls || a.hash != b.hash) { notes.push_back(strf("run %" PRIu64 ": two executions of the violating seed differ (%s/%s)", i, a.vcls.c_str(), b.vcls.c_str())); continue; }
        Plan q = with_sched(p, a); Outcome c = pr->evaluate(q);
        if (c.vcls != a.vcls) { notes.push_back(strf("run %" PRIu64 ": explicit schedule does not reproduce (%s vs %s)", i, c.vcls.c_str(), a.vcls.c_str())); continue; }
        int ev = 0; bool hang = a.vcls.compare(0, 9, "liveness/") == 0; Plan m = hang && a.vcls != "liveness/step-bound" ? q : minimise(*pr, q, a.vcls, 45, &ev); Outcome f = ev ? pr->evaluate(m) : c;
        if (f.vcls != a.vcls) { m = q; f = c; }
        std::string path = outdir + strf("/%s-%016" PRIx64 ".replay", pr->id.c_str(), p.seed);
        std::string head = "# replay with: mtsim replay <this file>\n# class: " + f.vcls + strf("\n# hash: %016" PRIx64 "\n# run %" PRIu64 " of VERIF_SEED %" PRIu64 ", minimised in %d evaluations from %zu to %zu items\n", f.hash, i, seed, ev, q.items.size(), m.items.size());
        std::istringstream ds(f.vdetail); std::string dl; while (std::getline(ds, dl)) head += "# detail: " + dl + "\n";
        write_file(path, head + m.text());
        std::string cmd = "'" + exe + "' replay '" + path + "' > '" + path + ".log' 2>&1"; int st = system(cmd.c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { notes.push_back(strf("run %" PRIu64 ": fresh-process replay of %s did not reproduce", i, path.c_str())); continue; }
        nviol++; rc = 1;
        char rp[4096]; std::string ap = realpath(path.c_str(), rp) ? rp : path;
        printf("violation class: %s\n%s\nminimised replay (%zu items, %d evaluations):\n%s", f.vcls.c_str(), f.vdetail.c_str(), m.items.size(), ev, m.items.size() < 60 ? m.text().c_str() : "(long)\n");
        vline = "VIOLATION property=" + pr->id + " replay=" + ap;
    }
    if (!viol.empty() && !nviol) { rc = 2; }
    for (auto& n : notes) printf("note: %s\n", n.c_str());
    if (!nviol && !nondet.empty()) { printf("error: nondeterminism: %s\n", nondet[0].second.c_str()); rc = 2; }
    if (!nviol && !errors.empty()) { for (auto& e : errors) printf("error: %s\n", e.c_str()); rc = 2; }
    for (auto& s : slow) printf("slow run: %s\n", s.c_str());
    if (truncated) printf("wall-clock budget reached: %zu of %" PRIu64 " runs\n", recs.size(), runs);

    std::set<uint64_t> hashes, sigs; uint64_t nt = 0; for (auto& r : recs) { sigs.insert(r.sig); if (r.nontriv) { nt++; hashes.insert(r.hash); } }
    if (rc == 0) for (auto& r : pr->required) if (!cnt[r]) { printf("error: reach probe '%s' stayed at zero\n", r.c_str()); if (recs.size() >= runs / 2 && !(truncated && recs.size() < runs * 9 / 10)) rc = 2; }
    std::sort(recs.begin(), recs.end(), [](const RunRec& a, const RunRec& b) { return a.idx < b.idx; });
    if (!evid.empty()) {
        std::string j = "{\n";
        j += " \"property\": " + jstr(pr->id) + ",\n \"tier\": " + jstr(thorough ? "thorough" : "quick") + strf(",\n \"seed\": %" PRIu64 ",\n \"level\": \"exploration\",\n", seed);
        j += strf(" \"wall_s\": %.2f,\n \"violations\": %d,\n \"coverage\": {\n", wall_s, nviol);
        j += strf("  \"evaluations\": %zu,\n  \"distinct_nontrivial\": %zu,\n", recs.size(), hashes.size());
        j += "  \"rule\": " + jstr(pr->rule + " Two runs count as distinct when the hashes of their complete event logs differ.") + ",\n";
        j += strf("  \"simulated_runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", (double)recs.size() / wall_s * 3600, (double)recs.size() / wall_s * 3600);
        j += strf("  \"simulated_steps\": %" PRIu64 ",\n  \"longest_run_steps\": %" PRIu64 ",\n  \"simulated_clock_seconds\": %" PRIu64 ",\n", cnt["sim.steps"], cnt["sim.max_steps"], cnt["sim.clock_seconds"]);
        j += strf("  \"distinct_state_signatures\": %zu,\n  \"runs_re_executed_for_determinism\": %" PRIu64 ",\n", sigs.size(), audited);
        j += strf("  \"nontrivial_runs\": %" PRIu64 ",\n  \"wall_budget_reached\": %s,\n", nt, truncated ? "true" : "false");
        std::string fj, cj; for (auto& c : cnt) { if (c.first.compare(0, 4, "sim.") == 0) continue; bool f = c.first.compare(0, 6, "fault.") == 0; std::string& t = f ? fj : cj; if (!t.empty()) t += ", "; t += jstr(f ? c.first.substr(6) : c.first) + strf(": %" PRIu64, c.second); }
        j += "  \"faults_fired\": {" + fj + "},\n  \"probes\": {" + cj + "},\n";
        std::string l; for (auto& s : pr->real_components) l += (l.empty() ? "" : ", ") + jstr(s); j += "  \"real_components\": [" + l + "],\n";
        l.clear(); for (auto& s : pr->stub_components) l += (l.empty() ? "" : ", ") + jstr(s); j += "  \"stub_components\": [" + l + "],\n";
        l.clear(); int k = 0; for (auto& r : recs) { if (!r.nontriv || k >= 6) continue; k++; l += (l.empty() ? "" : ",\n   ") + jstr(strf("run %" PRIu64 " seed 0x%" PRIx64 ":", r.idx, r.seed) + r.desc); } j += "  \"samples\": [" + l + "]\n },\n";
        l.clear(); for (auto& s : pr->assumptions) l += (l.empty() ? "" : ", ") + jstr(s); j += " \"assumptions\": [" + l + "]\n}\n";
        std::string tmp = evid + ".tmp"; if (!write_file(tmp, j) || rename(tmp.c_str(), evid.c_str()) != 0) { printf("error: cannot write %s\n", evid.c_str()); if (!rc) rc = 2; }
    }
    for (auto& k : known) if (k.prop == pr->id) printf("KNOWN-FINDING: property=%s%s\n", pr->id.c_str(), k.what.c_str());
    printf("%s: %zu runs, %zu distinct non-trivial, %.1f s, exit %d\n", pr->id.c_str(), recs.size(), hashes.size(), wall_s, rc);
    if (!vline.empty()) printf("%s\n", vline.c_str());
    fflush(stdout);
    return rc;
}
} // namespace sim

int main(int argc, char** argv) {
    // fixed address layout: a run must not depend on it, and a replay must see the same one
    if (!getenv("MTSIM_LAYOUT")) {
        setenv("MTSIM_LAYOUT", "1", 1);
        setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1);      // every malloc goes where M_PERTURB fills the block
        if (personality(0xffffffff) != -1 && personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    return sim::driver_main(argc, argv);
}
