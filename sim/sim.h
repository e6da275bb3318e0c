// Public interface of the deterministic simulator (C++14: included by drivers).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t seed);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; } // [0,n)
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return uniform() < p; }
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); } // [0,1)
    double sym() { return 2 * uniform() - 1; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- a simulated case
// Everything a run depends on besides the code: named integers, and an optional operation sequence.
struct Case {
    uint64_t seed = 0; // schedule/fault stream
    std::map<std::string, int64_t> p;
    std::map<std::string, int64_t> simplest; // minimiser target per parameter (absent: not shrunk)
    std::vector<std::vector<int64_t>> ops;
    int64_t operator[](const std::string &k) const {
        auto it = p.find(k);
        return it == p.end() ? 0 : it->second;
    }
    void set(const std::string &k, int64_t v, int64_t simple) {
        p[k]        = v;
        simplest[k] = simple;
    }
    void fix(const std::string &k, int64_t v) { p[k] = v; }
};

struct Driver {
    const char *name;
    void (*generate)(Case &, Rng &, int tier); // draw the workload and the knobs of a case
    void (*run)(const Case &);                 // run it (in a forked child)
};
extern const Driver *driver_table[]; // null terminated, defined by the driver's main TU

// ---------------------------------------------------------------- verdicts
// Ends the run: the property is broken. cls: class, sig: stable short description used to match known findings.
[[noreturn]] void violate(const std::string &cls, const std::string &sig, const std::string &msg);
// As violate, but if (cls,sig) is a listed known finding, count it and return.
void violate_unless_known(const std::string &cls, const std::string &sig, const std::string &msg);
// The simulator itself cannot go on (never a verdict on the code).
[[noreturn]] void sim_error(const std::string &msg);
void count(const char *name, uint64_t n = 1); // reach counters, reported in the evidence
void note(uint64_t bits);                     // adds to the event-log hash of the run
void note_bytes(const void *p, size_t n);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // event log (hash, and text when replaying with -v)
void context(const std::string &what); // what the run is doing, for reports of crashes, races, ...
const std::string &context();
void allow_terminate(bool); // an injected fault may legitimately end the process from here on

// ---------------------------------------------------------------- live code
// Code under test runs "live": preemptible, race- and bounds-checked. Oracles run outside.
struct Live {
    bool prev;
    Live();
    ~Live();
};
struct Quiet {
    bool prev;
    Quiet();
    ~Quiet();
};
void point(const char *what); // an explicit preemption point (e.g. in user callbacks)

// ---------------------------------------------------------------- choices and faults
// One recorded decision: uniform in [0,n), 0 being the benign default.
uint32_t choose(const char *kind, uint32_t n);
bool chance(const char *kind, double p); // recorded coin

// ---------------------------------------------------------------- scheduler
struct SchedConfig {
    int strategy       = 0;   // 0 random, 1 priorities (PCT), 2 starve one, 3 round robin, 4 run to block
    double mean_steps  = 200; // mean number of accesses between preemptions (0: none)
    double sync_switch = 0.3; // probability of a switch at a synchronisation point
    double stall       = 0.0; // probability that a fiber sleeps (simulated time) at a sync point
    uint64_t max_stall = 100000;
    uint64_t max_steps = 400000000ull; // bound on the run
};
void configure(const SchedConfig &);
SchedConfig config_from(const Case &); // reads sched.* parameters
void gen_sched(Case &, Rng &);         // draws sched.* parameters (swarm)
// Run the functions as concurrent fibers sharing memory (caller threads) and return when all ended.
void run_threads(const std::vector<std::function<void()>> &f);
// Run f(rank) on P simulated MPI ranks (own domain each), return when all ended.
void run_ranks(int P, const std::function<void(int)> &f);
void mpi_begin(int P, uint64_t maxdelay); // before run_ranks
uint64_t now();   // simulated nanoseconds
uint64_t steps(); // simulated steps
int current_rank();
int fiber_id(); // of the running fiber, -1 outside of run_threads and run_ranks

// ---------------------------------------------------------------- OpenMP
void omp_threads(int n);                        // threads for regions started from now on by any fiber
void omp_threads_domain(int domain, int n);     // per rank
void omp_dynamic(bool on);                      // the runtime may give fewer threads than asked
// ---------------------------------------------------------------- allocation
struct AllocPlan {
    int64_t fail_at    = -1; // index of the live allocation that fails
    bool sticky        = false; // all later ones fail too
};
void alloc_plan(const AllocPlan &);
uint64_t alloc_count();         // live allocations so far (since alloc_reset)
void alloc_reset();
bool alloc_fired();
int64_t live_blocks();          // blocks allocated by live code and not freed yet
bool addressable(const void *p, size_t n); // in a live heap block (or not heap)
// ---------------------------------------------------------------- disk
struct DiskPlan {
    int open_fail     = 0;  // errno for the next open
    int64_t fail_op   = -1; // index of the write/read/close call that fails
    int fail_errno    = 0;
    int64_t capacity  = -1; // bytes before ENOSPC
    double short_io   = 0;  // probability of a short write / read
    double eintr      = 0;  // probability of EINTR
    int64_t crash_op  = -1; // the machine stops at that call: what later calls do is lost
    double tear       = 0.3; // probability that a crash also loses a stretch in the middle of a file
};
void disk_plan(const DiskPlan &);
void disk_reset_ops();
uint64_t disk_ops();  // number of write/read/close calls so far
bool disk_fired();    // did a hard fault (open_fail, fail_op, capacity) fire
bool disk_exists(const std::string &path);
std::string disk_read(const std::string &path);
void disk_write(const std::string &path, const std::string &content);
void disk_remove(const std::string &path);
void disk_reset();
std::vector<std::string> disk_list();
// After a crash: every file keeps a durable part of what was written (chosen by the seed).
void disk_crash();
} // namespace sim
