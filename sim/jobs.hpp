// Jobs: one complete use of the library each, built from a plan item, with a canonical result string.
// C01 runs them in interleaved threads, C09 fails them at every kind of point, C10 repeats them in disturbed processes.
#ifndef VERIF_JOBS_HPP
#define VERIF_JOBS_HPP
#include "env.hpp"
namespace sim {
struct JobIO { bool verbose = false; std::ostream* os = 0; };
class Job {
public:
    virtual ~Job() {}
    virtual void setup() = 0;                      // simulator side: builds generators, sources, inputs
    virtual void op(const JobIO& io) = 0;          // code under test only; leaves its result in `out`
    virtual std::string inputs() { return ""; }    // everything it was given only for reading
    virtual CbCtl* ctl() { return 0; }
    virtual SimSource* source() { return 0; }
    bool repeatable = false;                       // op() may be repeated without setup(): it changes nothing it was given
    std::string out;                               // canonical result (simulator memory)
    void say(const std::string& s) { HarnessScope h; out += s; out += ' '; }
};
std::unique_ptr<Job> make_job(const Item& it);     // simulator side
Item gen_job(Rng& r, const std::string& kind, const std::string& size);   // size: "small", "mid", "big"
struct JobFault { bool on = false; std::string kind; int64_t at = 0; int cb = 0; };
JobFault job_fault(const Item& it);             // from keys fk, fat, fcb
std::string run_job(const Item& it, const JobFault& f, bool verbose, uint64_t poison, std::ostream* os = 0);   // one job, called outside HarnessScope; canonical outcome
extern const std::vector<std::string> JOB_TYPES;
}
#endif
