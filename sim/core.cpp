#include "sim_int.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <queue>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void sim_switch(void **save, void *to);
extern "C" void sim_fiber_start();

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}

namespace sim {

Global g;

// ---------------------------------------------------------------- PRNG
static inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9e3779b97f4a7c15ull + b;
    return splitmix(x);
}
void Rng::reseed(uint64_t seed) {
    for (auto &v : s) v = splitmix(seed);
}
uint64_t Rng::next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- verdicts
static void finish(int outcome) {
    g.sh->steps = g.step;
    g.sh->now   = g.clock + g.step;
    g.sh->outcome = outcome;
    _exit(0);
}
static std::string &ctx_string() {
    static std::string s;
    return s;
}
void context(const std::string &w) {
    SimScope ss;
    ctx_string() = w;
    strncpy(g.sh->ctx, w.c_str(), sizeof g.sh->ctx - 1);
}
const std::string &context() { return ctx_string(); }
static bool is_known(const std::string &cls, const std::string &sig) {
    for (auto &k : g.known)
        if (k.first == cls && k.second == sig) return true;
    return false;
}
static void note_known(const std::string &cls, const std::string &sig) {
    std::string t = cls + "\t" + sig;
    for (int i = 0; i < g.sh->nknown; i++)
        if (t == g.sh->known[i]) return;
    if (g.sh->nknown < 32) strncpy(g.sh->known[g.sh->nknown++], t.c_str(), 319);
}
void out_violation(const char *cls, const std::string &sig, const std::string &msg) {
    SimScope ss;
    g.live = false;
    if (is_known(cls, sig)) note_known(cls, sig), finish(OUT_OK);
    strncpy(g.sh->cls, cls, sizeof g.sh->cls - 1);
    strncpy(g.sh->sig, sig.c_str(), sizeof g.sh->sig - 1);
    strncpy(g.sh->msg, msg.c_str(), sizeof g.sh->msg - 1);
    if (g.verbose) fprintf(stderr, "VIOLATION %s [%s] %s\n", cls, sig.c_str(), msg.c_str());
    finish(OUT_VIOLATION);
}
void violate(const std::string &cls, const std::string &sig, const std::string &msg) {
    out_violation(cls.c_str(), sig, msg);
    _exit(3);
}
void violate_unless_known(const std::string &cls, const std::string &sig, const std::string &msg) {
    SimScope ss;
    if (!is_known(cls, sig)) out_violation(cls.c_str(), sig, msg);
    note_known(cls, sig);
}
void sim_error(const std::string &msg) {
    SimScope ss;
    strncpy(g.sh->msg, msg.c_str(), sizeof g.sh->msg - 1);
    if (g.verbose) fprintf(stderr, "SIM ERROR %s\n", msg.c_str());
    finish(OUT_SIMERROR);
    _exit(3);
}
void count(const char *name, uint64_t n) {
    for (int i = 0; i < g.sh->ncounters; i++)
        if (!strncmp(g.sh->counter_names[i], name, 55)) {
            g.sh->counters[i] += n;
            return;
        }
    if (g.sh->ncounters < MAX_COUNTERS) {
        strncpy(g.sh->counter_names[g.sh->ncounters], name, 55);
        g.sh->counters[g.sh->ncounters++] = n;
    }
}
void note(uint64_t v) { g.sh->hash = (g.sh->hash ^ v) * 1099511628211ull; g.sh->hash ^= g.sh->hash >> 29; }
void note_bytes(const void *p, size_t n) { note(hash_bytes(p, n)); }
void sched_trace(uint64_t v) { g.sh->sched_hash = (g.sh->sched_hash ^ v) * 1099511628211ull; g.sh->sched_hash ^= g.sh->sched_hash >> 31; }
void logf(const char *fmt, ...) {
    SimScope ss;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    note_bytes(buf, n < (int)sizeof buf ? n : (int)sizeof buf - 1);
    if (g.verbose) fprintf(stderr, "[step %llu t=%llu f%d] %s\n", (unsigned long long)g.step, (unsigned long long)now(), g.cur ? g.cur->id : -1, buf);
}
void allow_terminate(bool b) { g.sh->terminate_ok = b; }

Live::Live() : prev(g.live) { g.live = true; }
Live::~Live() { g.live = prev; }
Quiet::Quiet() : prev(g.live) { g.live = false; }
Quiet::~Quiet() { g.live = prev; }

// ---------------------------------------------------------------- choices
static KindState kstate[MAX_KINDS];
int kind_id(const char *kind) {
    for (int i = 0; i < g.sh->nkinds; i++)
        if (!strcmp(g.sh->kinds[i], kind)) return i;
    if (g.sh->nkinds >= MAX_KINDS) sim_error("too many choice kinds");
    strncpy(g.sh->kinds[g.sh->nkinds], kind, 31);
    return g.sh->nkinds++;
}
static void record(int kind, uint64_t index, uint32_t value) {
    if (g.sh->nchoices >= MAX_CHOICES) {
        g.sh->truncated = 1;
        return;
    }
    Choice &c = g.sh->choices[g.sh->nchoices++];
    c.kind = kind; c.index = index; c.value = value;
}
uint32_t choose_raw(int k, uint32_t n, uint32_t drawn) {
    KindState &ks = kstate[k];
    uint64_t i = ks.count++;
    uint32_t v;
    if (g.replay) {
        auto it = ks.replay.find(i);
        v = it == ks.replay.end() ? 0 : it->second;
        if (v >= n) v = n ? n - 1 : 0;
    } else
        v = drawn;
    if (v) record(k, i, v);
    note(((uint64_t)k << 56) ^ (i << 20) ^ v);
    return v;
}
uint32_t choose(const char *kind, uint32_t n) {
    if (n <= 1) return 0;
    SimScope ss;
    return choose_raw(kind_id(kind), n, (uint32_t)g.rf.below(n));
}
bool chance(const char *kind, double p) {
    if (p <= 0) return false;
    SimScope ss;
    return choose_raw(kind_id(kind), 2, g.rf.chance(p)) != 0;
}
void load_choices(const std::vector<std::pair<std::string, std::pair<uint64_t, uint32_t>>> &l) {
    g.replay = true;
    for (auto &e : l) kstate[kind_id(e.first.c_str())].replay[e.second.first] = e.second.second;
}

// ---------------------------------------------------------------- scheduler
static int K_PRE, K_FORCED, K_SYNC, K_STALL;
struct Event {
    uint64_t at, seq;
    std::function<void()> f;
    bool operator<(const Event &o) const { return at != o.at ? at > o.at : seq > o.seq; }
};
static std::priority_queue<Event> *events;
static uint64_t event_seq;
static std::vector<char *> *stack_pool;
static bool slot_used[MAX_SLOTS];
static uint32_t slot_clock[MAX_SLOTS];
static int starved = -1;
static Fiber root_fiber;
constexpr size_t STACK = 1 << 20;

uint64_t now() { return g.clock + g.step; }
uint64_t steps() { return g.step; }
int fiber_id() { return g.cur ? g.cur->id : -1; }
int current_rank() { return g.cur ? g.cur->rank : -1; }
int current_domain() { return g.cur ? g.cur->domain : 0; }

int alloc_slot() {
    for (int i = 0; i < MAX_SLOTS; i++)
        if (!slot_used[i]) {
            slot_used[i] = true;
            return i;
        }
    sim_error("too many concurrent fibers");
}
void free_slot(int i) { slot_used[i] = false; }

static void draw_next_preempt() {
    if (g.replay) {
        auto &r = kstate[K_PRE].replay;
        auto it = r.upper_bound(g.step);
        g.next_preempt = it == r.end() ? ~0ull : it->first;
        return;
    }
    if (g.cfg.mean_steps <= 0) {
        g.next_preempt = ~0ull;
        return;
    }
    double u = g.rs.uniform();
    double d = -g.cfg.mean_steps * log(1 - u);
    g.next_preempt = g.step + 1 + (uint64_t)d;
}

void sched_init() {
    SimScope ss;
    events     = new std::priority_queue<Event>();
    stack_pool = new std::vector<char *>();
    K_PRE    = kind_id("preempt");
    K_FORCED = kind_id("next");
    K_SYNC   = kind_id("sync");
    K_STALL  = kind_id("stall");
    root_fiber.id     = 0;
    root_fiber.state  = RUNNABLE;
    root_fiber.slot   = alloc_slot();
    root_fiber.vc.c[root_fiber.slot] = slot_clock[root_fiber.slot] = 1;
    g.fibers.push_back(&root_fiber);
    g.cur          = &root_fiber;
    g.nlive_fibers = 1;
}
void configure(const SchedConfig &c) {
    g.cfg = c;
    draw_next_preempt();
}
SchedConfig config_from(const Case &c) {
    SchedConfig s;
    s.strategy    = (int)c["sched.strategy"];
    s.mean_steps  = (double)c["sched.mean_steps"];
    s.sync_switch = c["sched.sync_permille"] / 1000.0;
    s.stall       = c["sched.stall_permille"] / 1000.0;
    s.max_stall   = (uint64_t)c["sched.max_stall"];
    if (!s.max_stall) s.max_stall = 1000;
    return s;
}
void gen_sched(Case &c, Rng &r) {
    static const int64_t means[] = {0, 3, 10, 30, 100, 300, 1000, 5000, 30000, 200000};
    c.set("sched.strategy", r.below(5), 4);
    c.set("sched.mean_steps", means[r.below(10)], 0);
    static const int64_t sy[] = {0, 50, 200, 500, 900};
    c.set("sched.sync_permille", sy[r.below(5)], 0);
    static const int64_t st[] = {0, 0, 0, 20, 150};
    c.set("sched.stall_permille", st[r.below(5)], 0);
    static const int64_t ms[] = {100, 10000, 1000000};
    c.set("sched.max_stall", ms[r.below(3)], 100);
}

void update_race_on() {
    int d = g.cur->domain, n = 0;
    for (auto f : g.fibers)
        if (f && f->state != DONE && f->domain == d) n++;
    g.race_on = n > 1;
}

static void switch_to(Fiber *f) {
    if (f == g.cur) return;
    Fiber *old = g.cur;
    old->live        = g.live;
    old->saved_errno = errno;
    if (g.tls_size) {
        if (!old->tls) old->tls = (char *)malloc(g.tls_size);
        memcpy(old->tls, g.tls, g.tls_size);
    }
    void **eh        = (void **)__cxxabiv1::__cxa_get_globals();
    old->eh_caught   = eh[0];
    old->eh_uncaught = *(unsigned *)(eh + 1);
    g.cur            = f;
    g.sh->switches++;
    note((g.step << 8) ^ (uint64_t)f->id ^ 0x5157);
    sched_trace(((uint64_t)f->id << 8) ^ (uint64_t)old->id);
    if (g.verbose) fprintf(stderr, "[step %llu t=%llu] switch f%d -> f%d (%s)\n", (unsigned long long)g.step, (unsigned long long)now(), old->id, f->id, old->why);
    sim_switch(&old->sp, f->sp);
    // back in `old`
    eh                     = (void **)__cxxabiv1::__cxa_get_globals();
    eh[0]                  = old->eh_caught;
    *(unsigned *)(eh + 1)  = old->eh_uncaught;
    errno                  = old->saved_errno;
    if (g.tls_size) memcpy(g.tls, old->tls, g.tls_size);
    g.live                 = old->live;
    if (g.nlive_fibers > 1) update_race_on();
}

static void collect(std::vector<Fiber *> &v, bool except_cur) {
    v.clear();
    for (auto f : g.fibers)
        if (f && f->state == RUNNABLE && !(except_cur && f == g.cur)) v.push_back(f);
}
// Index of the fiber the strategy would run next.
static uint32_t strategy_pick(const std::vector<Fiber *> &v) {
    switch (g.cfg.strategy) {
    case 1: {
        size_t b = 0;
        for (size_t i = 1; i < v.size(); i++)
            if (v[i]->prio > v[b]->prio) b = i;
        return (uint32_t)b;
    }
    case 2: {
        if (starved < 0) starved = (int)g.rs.below(8);
        size_t i = g.rs.below(v.size());
        if ((v[i]->id % 8) == starved) i = (i + 1) % v.size();
        return (uint32_t)i;
    }
    case 3:
        for (size_t i = 0; i < v.size(); i++)
            if (v[i]->id > g.cur->id) return (uint32_t)i;
        return 0;
    default: return (uint32_t)g.rs.below(v.size());
    }
}
static void wake_sleepers_and_events() {
    // time advances: run due events, wake due sleepers
    uint64_t t = now();
    while (!events->empty() && events->top().at <= t) {
        auto f = events->top().f;
        events->pop();
        f();
    }
    for (auto f : g.fibers)
        if (f && f->state == SLEEPING && f->wake <= t) f->state = RUNNABLE;
}
static std::string blocked_text() {
    std::string s;
    for (auto f : g.fibers)
        if (f && f->state != DONE) s += "fiber " + std::to_string(f->id) + (f->rank >= 0 ? " (rank " + std::to_string(f->rank) + ")" : "") + ": " + f->why + "; ";
    return s;
}
// The current fiber cannot go on: run another.
static void run_other() {
    std::vector<Fiber *> v;
    for (;;) {
        wake_sleepers_and_events();
        collect(v, false);
        if (!v.empty()) break;
        uint64_t t = ~0ull;
        if (!events->empty()) t = events->top().at;
        for (auto f : g.fibers)
            if (f && f->state == SLEEPING) t = std::min(t, f->wake);
        if (t == ~0ull) out_violation("deadlock", context(), "no execution can proceed: " + blocked_text());
        if (t > now()) g.clock += t - now();
    }
    uint32_t k = v.size() > 1 ? choose_raw(K_FORCED, (uint32_t)v.size(), g.replay ? 0 : strategy_pick(v)) : 0;
    switch_to(v[k]);
}
void block(const char *why) {
    SimScope ss;
    int d = g.sim_depth;
    g.cur->state = BLOCKED;
    g.cur->why   = why;
    g.sim_depth  = 1;
    run_other();
    g.sim_depth = d;
}
void sleep_for(uint64_t d, const char *why) {
    SimScope ss;
    int sd       = g.sim_depth;
    g.cur->state = SLEEPING;
    g.cur->wake  = now() + d;
    g.cur->why   = why;
    g.sim_depth  = 1;
    run_other();
    g.sim_depth = sd;
}
void make_runnable(Fiber *f) {
    if (f->state == BLOCKED) f->state = RUNNABLE;
}
void add_event(uint64_t at, std::function<void()> f) {
    SimScope ss;
    events->push(Event{at, event_seq++, std::move(f)});
}
static void check_budget() {
    if (g.step > g.cfg.max_steps) out_violation("no-progress", context(), "the run did not end within its step bound");
}
void preempt_slow() {
    SimScope ss;
    int d       = g.sim_depth;
    check_budget();
    uint64_t at = g.step;
    std::vector<Fiber *> v;
    wake_sleepers_and_events();
    collect(v, true);
    uint32_t val = 0;
    if (!v.empty()) {
        if (g.replay) {
            auto it = kstate[K_PRE].replay.find(at);
            val     = it == kstate[K_PRE].replay.end() ? 0 : it->second;
        } else {
            if (g.cfg.strategy == 1) g.cur->prio = -(int)g.rs.below(1 << 20); // a priority change point
            uint32_t i = strategy_pick(v);
            if (g.cfg.strategy != 1 || v[i]->prio > g.cur->prio) val = (uint32_t)v[i]->id + 1;
        }
    }
    draw_next_preempt();
    if (val) {
        Fiber *f = nullptr;
        for (auto x : v)
            if ((uint32_t)x->id + 1 == val) f = x;
        if (f) {
            record(K_PRE, at, val);
            note((uint64_t)at ^ ((uint64_t)val << 40));
            g.cur->why  = "preempted";
            count("sched.preemptions");
            g.sim_depth = 1;
            switch_to(f);
            g.sim_depth = d;
        }
    }
}
void sync_point(const char *what) {
    ++g.step;
    if (g.nlive_fibers <= 1) return;
    SimScope ss;
    int d = g.sim_depth;
    check_budget();
    wake_sleepers_and_events();
    if (g.cfg.stall > 0) {
        uint32_t v = choose_raw(K_STALL, 1u << 30, (!g.replay && g.rs.chance(g.cfg.stall)) ? 1 + (uint32_t)g.rs.below(g.cfg.max_stall) : 0);
        if (v) {
            count("fault.stall");
            g.cur->state = SLEEPING;
            g.cur->wake  = now() + v;
            g.cur->why   = what;
            g.sim_depth  = 1;
            run_other();
            g.sim_depth = d;
            return;
        }
    }
    std::vector<Fiber *> v;
    collect(v, true);
    if (v.empty()) return;
    uint32_t c = choose_raw(K_SYNC, (uint32_t)v.size() + 1, (!g.replay && g.rs.chance(g.cfg.sync_switch)) ? 1 + strategy_pick(v) : 0);
    if (c) {
        g.cur->why  = what;
        count("sched.sync_switches");
        g.sim_depth = 1;
        switch_to(v[c - 1]);
        g.sim_depth = d;
    }
}
void point(const char *what) {
    if (g.live) sync_point(what);
}

extern "C" void sim_fiber_main() {
    Fiber *f    = g.cur;
    // entered from switch_to with sim_depth==1
    void **eh             = (void **)__cxxabiv1::__cxa_get_globals();
    eh[0]                 = nullptr;
    *(unsigned *)(eh + 1) = 0;
    errno                 = 0;
    if (g.tls_size) {
        memcpy(g.tls, g.tls_image, g.tls_init);
        memset(g.tls + g.tls_init, 0, g.tls_size - g.tls_init);
    }
    g.sim_depth = 0;
    g.live      = f->live;
    update_race_on();
    try {
        f->body();
        while (!f->tls_dtors.empty()) {
            auto d = f->tls_dtors.back();
            f->tls_dtors.pop_back();
            d.first(d.second);
        }
    } catch (const std::exception &e) {
        out_violation("uncaught-exception", context(), std::string("an exception left a concurrent task: ") + e.what());
    } catch (...) {
        out_violation("uncaught-exception", context(), "an exception left a concurrent task");
    }
    g.live      = false;
    g.sim_depth = 1;
    f->state    = DONE;
    f->why      = "done";
    slot_clock[f->slot] = f->vc.c[f->slot];
    g.nlive_fibers--;
    if (f->pending) {
        if (f->joiner) vc_join(f->joiner, f);
        if (--*f->pending == 0 && f->joiner) make_runnable(f->joiner);
    }
    free_slot(f->slot);
    run_other();
    abort();
}

Fiber *new_fiber(int domain, std::function<void()> body) {
    Fiber *f;
    int id = -1;
    for (size_t i = 1; i < g.fibers.size(); i++)
        if (g.fibers[i]->state == DONE) {
            id = (int)i;
            break;
        }
    if (id < 0) {
        f     = new Fiber;
        f->id = (int)g.fibers.size();
        g.fibers.push_back(f);
        f->stack_size = STACK;
        f->stack      = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->stack == MAP_FAILED) sim_error("no stack");
        mprotect(f->stack, 4096, PROT_NONE);
        f->stack += 4096;
    } else
        f = g.fibers[id];
    shadow_forget(f->stack, f->stack_size);
    f->domain = domain;
    f->rank   = g.cur->rank;
    f->slot   = alloc_slot();
    f->vc     = VC();
    f->vc.c[f->slot] = slot_clock[f->slot] + 1;
    f->body   = std::move(body);
    f->live   = g.live;
    f->prio   = (int)g.rs.below(1 << 20);
    f->team   = nullptr;
    f->tid    = 0;
    f->ws     = 0;
    f->cur_loop = nullptr;
    f->joiner = nullptr;
    f->pending = nullptr;
    f->coll_seq = -1;
    f->kids.reset();
    f->groups.clear();
    f->why    = "start";
    uintptr_t top = ((uintptr_t)f->stack + f->stack_size) & ~(uintptr_t)15;
    void **sp = (void **)top;
    *--sp     = nullptr;
    *--sp     = (void *)&sim_fiber_start;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    return f;
}
void start_fiber(Fiber *f) {
    f->state = RUNNABLE;
    g.nlive_fibers++;
    vc_fork(g.cur, f);
    update_race_on();
}

void run_threads(const std::vector<std::function<void()>> &fs) {
    SimScope ss;
    int pending = (int)fs.size();
    if (!pending) return;
    for (auto &b : fs) {
        Fiber *f   = new_fiber(g.cur->domain, b);
        f->joiner  = g.cur;
        f->pending = &pending;
        f->live    = true;
        start_fiber(f);
    }
    draw_next_preempt();
    while (pending > 0) block("waiting for caller threads");
    update_race_on();
}

void run_ranks(int P, const std::function<void(int)> &body) {
    SimScope ss;
    int pending = P;
    for (int r = 0; r < P; r++) {
        Fiber *f   = new_fiber(r + 1, [&body, r] { body(r); });
        f->rank    = r;
        f->joiner  = g.cur;
        f->pending = &pending;
        f->live    = true;
        start_fiber(f);
    }
    draw_next_preempt();
    while (pending > 0) block("waiting for ranks");
    update_race_on();
    mpi_ranks_ended();
}

std::string pc_text(const void *pc) {
    char b[40];
    snprintf(b, sizeof b, "exe+0x%zx", (size_t)((uintptr_t)pc - g.exe_base));
    return b;
}
} // namespace sim
