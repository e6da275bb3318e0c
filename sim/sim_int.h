// Internal state shared by the simulator's parts.
#pragma once
#include "sim.h"
#include <csetjmp>
#include <memory>
#include <cstring>

namespace sim {

constexpr int MAX_SLOTS = 64;

struct OmpTeam;

struct VC {
    uint32_t c[MAX_SLOTS];
    VC() { memset(c, 0, sizeof c); }
    void join(const VC &o) {
        for (int i = 0; i < MAX_SLOTS; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

enum FState : uint8_t { RUNNABLE, BLOCKED, SLEEPING, DONE };

struct Fiber {
    int id      = 0; // position in g.fibers, reused
    int domain  = 0;
    int slot    = 0; // race detector slot
    int rank    = -1;
    FState state = DONE;
    const char *why = "";
    uint64_t wake = 0;
    void *sp    = nullptr;
    char *stack = nullptr;
    size_t stack_size = 0;
    std::function<void()> body;
    bool live = false;
    int prio  = 0;
    // saved per-thread state
    int saved_errno  = 0;
    std::vector<std::pair<void (*)(void *), void *>> tls_dtors; // of its thread-local variables
    char *tls        = nullptr; // content of the thread-local variables while another fiber runs
    void *eh_caught  = nullptr;
    unsigned eh_uncaught = 0;
    VC vc;
    // OpenMP
    OmpTeam *team = nullptr;
    int tid       = 0;
    unsigned ws   = 0; // work-sharing constructs met in this team
    void *cur_loop = nullptr;
    unsigned long long static_count = 0;
    Fiber *joiner = nullptr;
    int *pending  = nullptr; // joiner's count of unfinished children
    std::shared_ptr<int> kids;                 // explicit tasks it created that have not ended
    std::vector<std::shared_ptr<int>> groups;  // the same for the task groups it is in
    const void *spin_at = nullptr; // repeated atomic operations on one object: waiting for another thread?
    unsigned spins = 0;
    int64_t coll_seq = -1;   // carries out the nonblocking collective with this number
};

struct Choice {
    uint32_t kind; // index in kinds table
    uint32_t value;
    uint64_t index;
};

constexpr int MAX_CHOICES = 1 << 16;
constexpr int MAX_COUNTERS = 256;
constexpr int MAX_KINDS = 64;

enum Outcome : int { OUT_NONE = 0, OUT_OK, OUT_VIOLATION, OUT_SIMERROR };

// Result of one run, in memory shared with the parent process.
struct Shared {
    volatile int outcome;
    volatile int terminate_ok;
    volatile int terminated;
    char cls[64];
    char sig[256];
    char msg[4096];
    char ctx[256];
    uint64_t hash;
    uint64_t sched_hash;
    uint64_t steps, now, switches;
    int nchoices;
    int truncated;
    Choice choices[MAX_CHOICES];
    int nkinds;
    char kinds[MAX_KINDS][32];
    int ncounters;
    char counter_names[MAX_COUNTERS][56];
    uint64_t counters[MAX_COUNTERS];
    int nknown;
    char known[32][320];
};

struct KindState {
    uint64_t count = 0;
    std::map<uint64_t, uint32_t> replay;
};

struct Global {
    bool live      = false; // code under test is running (current fiber)
    bool race_on   = false;
    int sim_depth  = 0;     // inside the simulator: allocations are not the program's
    uint64_t step  = 0;
    uint64_t next_preempt = ~0ull;
    uint64_t clock = 0;
    uint64_t clock_base = 0;
    Shared *sh     = nullptr;
    Fiber *cur     = nullptr;
    char *tls      = nullptr; // thread-local variables of the executable (one copy per fiber, swapped at switches)
    size_t tls_size = 0, tls_init = 0;
    const char *tls_image = nullptr;
    int *errno_at  = nullptr;
    std::vector<Fiber *> fibers;
    std::vector<int> free_ids;
    int nlive_fibers = 0; // not DONE
    SchedConfig cfg;
    Rng rs{1}, rf{2};
    bool replay = false; // choices come from a list
    bool verbose = false;
    bool sched_on = false; // more than the root fiber exists
    uint64_t nforced = 0;
    std::vector<std::pair<std::string, std::string>> known; // class, sig prefix
    uintptr_t exe_base = 0;
};
extern Global g;

struct SimScope {
    SimScope() { ++g.sim_depth; }
    ~SimScope() { --g.sim_depth; }
};

// choices
int kind_id(const char *kind);
uint32_t choose_raw(int kind, uint32_t n, uint32_t drawn);
void load_choices(const std::vector<std::pair<std::string, std::pair<uint64_t, uint32_t>>> &);

// scheduler
void sched_init();
Fiber *new_fiber(int domain, std::function<void()> body);
void start_fiber(Fiber *);
void block(const char *why);           // current fiber waits until made runnable
void make_runnable(Fiber *);
void sleep_for(uint64_t d, const char *why);
void sync_point(const char *what);     // possible switch (and stall)
void preempt_slow();                   // from the access path
void add_event(uint64_t at, std::function<void()> f);
int alloc_slot();
void free_slot(int);
int current_domain();
void sched_trace(uint64_t v);

// race detector
void vc_fork(Fiber *parent, Fiber *child);
void vc_join(Fiber *parent, Fiber *child);
void hb_acquire(const VC &);
void hb_release(VC &);
void range_access(const void *p, size_t n, bool write, const void *pc);
void range_access_strided(const void *p, size_t elem, int64_t rows, int64_t cols, int64_t ld, bool write, const void *pc);
void shadow_forget(void *p, size_t n);
void update_race_on();

// alloc
void arena_init();
bool in_arena(const void *p);
void check_addr(const void *p, size_t n, bool write, const void *pc);
void *sim_malloc(size_t n);

// omp
void omp_reset();
// mpi
void mpi_reset();
void mpi_ranks_ended();
int mpi_world_size();

void out_violation(const char *cls, const std::string &sig, const std::string &msg);
std::string pc_text(const void *pc);
} // namespace sim
