// A simulated OpenMP run-time (the libgomp ABI): teams are fibers, every hand-out of work and every
// lock is decided by the seeded scheduler.
#include "sim_int.h"
#include <algorithm>
#include <cerrno>
#include <deque>
#include <map>
#include <pthread.h>

namespace sim {

struct Loop {
    long start = 0, end = 0, incr = 1, chunk = 1;
    int kind = 0; // 0 static,1 dynamic,2 guided
    bool nonmono = false;
    std::vector<std::pair<long, long>> chunks; // iteration-number ranges, in hand-out order
    size_t next_chunk = 0;
    std::map<int, size_t> static_pos;
    int done = 0;
    // sections / single
    unsigned nsections = 0, next_section = 0;
    bool single_taken = false;
    void *copyprivate = nullptr;
    VC copy_vc;
    bool ordered = false;
    std::map<int, size_t> current; // ordered: chunk of each thread
    std::vector<bool> finished;    // ordered: chunks that are over
    size_t turn = 0;               // ordered: the first chunk that is not
    std::vector<Fiber *> turn_wait;
};
struct OmpTeam {
    int n = 1;
    OmpTeam *parent = nullptr;
    int level = 1;
    std::map<unsigned, Loop> loops; // by work-sharing construct number
    int barrier_in = 0;
    uint64_t barrier_gen = 0;
    VC barrier_vc, barrier_out;
    std::vector<Fiber *> barrier_wait;
    int tasks = 0;
};
struct Mutex {
    Fiber *owner = nullptr;
    int depth = 0;
    std::vector<Fiber *> waiting;
    VC vc;
};
static std::map<std::pair<int, const void *>, Mutex> *mutexes; // (domain, address)
static std::map<int, int> *dom_threads;
static int def_threads = 1;
static bool dyn        = false;

void omp_threads(int n) { def_threads = n; SimScope ss; if (dom_threads) dom_threads->clear(); }
void omp_threads_domain(int d, int n) {
    SimScope ss;
    if (!dom_threads) dom_threads = new std::map<int, int>();
    (*dom_threads)[d] = n;
}
void omp_dynamic(bool on) { dyn = on; }
static int icv() {
    if (dom_threads) {
        auto it = dom_threads->find(g.cur->domain);
        if (it != dom_threads->end()) return it->second;
    }
    return def_threads;
}
// ---------------------------------------------------------------- locks
static Mutex &mutex_of(const void *key) {
    if (!mutexes) mutexes = new std::map<std::pair<int, const void *>, Mutex>();
    return (*mutexes)[{g.cur->domain, key}];
}
static void lock(const void *key, bool nest = false) {
    sync_point("lock");
    SimScope ss;
    Mutex &m = mutex_of(key);
    while (m.owner && !(m.owner == g.cur && nest)) {
        if (m.owner == g.cur) out_violation("deadlock", context(), "a thread waits for a lock it holds");
        count("sched.lock_contended");
        m.waiting.push_back(g.cur);
        block("waiting for a lock");
    }
    m.owner = g.cur;
    m.depth++;
    hb_acquire(m.vc);
}
static bool try_lock(const void *key) {
    sync_point("trylock");
    SimScope ss;
    Mutex &m = mutex_of(key);
    if (m.owner) return false;
    m.owner = g.cur;
    m.depth = 1;
    hb_acquire(m.vc);
    return true;
}
static void unlock(const void *key) {
    {
        SimScope ss;
        Mutex &m = mutex_of(key);
        if (m.depth > 0) m.depth--;
        if (m.depth == 0) {
            hb_release(m.vc);
            m.owner = nullptr;
            for (auto f : m.waiting) make_runnable(f);
            m.waiting.clear();
        }
    }
    sync_point("unlock");
}
void key_lock(const void *key) { lock(key); }
void key_unlock(const void *key) { unlock(key); }
// ---------------------------------------------------------------- teams
static void barrier(OmpTeam *t) {
    SimScope ss;
    if (!t || (t->n == 1 && !t->tasks)) return;
    count("omp.barriers");
    uint64_t gen = t->barrier_gen;
    hb_release(t->barrier_vc);
    while (t->tasks) sleep_for(20, "tasks before barrier");
    if (++t->barrier_in == t->n) {
        t->barrier_in  = 0;
        t->barrier_gen++;
        t->barrier_out = t->barrier_vc;
        for (auto f : t->barrier_wait) make_runnable(f);
        t->barrier_wait.clear();
    } else {
        while (t->barrier_gen == gen) {
            t->barrier_wait.push_back(g.cur);
            block("barrier");
        }
    }
    hb_acquire(t->barrier_out);
    g.sim_depth--;
    sync_point("after barrier");
    g.sim_depth++;
}
static void parallel(void (*fn)(void *), void *data, unsigned nt, const std::function<void(OmpTeam *)> &init = {}) {
    SimScope ss;
    Fiber *self = g.cur;
    int n       = nt ? (int)nt : icv();
    if (self->team && self->team->n > 1) n = 1; // nested regions are serialised (max-active-levels 1)
    if (n > 24) n = 24;
    if (dyn && n > 1) n -= (int)choose("omp.dynamic", (uint32_t)n); // benign default: all
    count("omp.regions");
    if (n > 1) count("omp.parallel_regions");
    OmpTeam team;
    team.n      = n;
    team.parent = self->team;
    team.level  = self->team ? self->team->level + 1 : 1;
    if (init) init(&team);
    OmpTeam *old_team = self->team;
    int old_tid       = self->tid;
    unsigned old_ws   = self->ws;
    void *old_loop    = self->cur_loop;
    int pending       = n - 1;
    bool was_live     = g.live;
    for (int i = 1; i < n; i++) {
        Fiber *f = new_fiber(self->domain, [fn, data] { fn(data); });
        f->team    = &team;
        f->tid     = i;
        f->joiner  = self;
        f->pending = &pending;
        start_fiber(f);
    }
    self->team = &team;
    self->tid  = 0;
    self->ws   = 0;
    self->cur_loop = nullptr;
    int d       = g.sim_depth;
    g.sim_depth = 0;
    if (n > 1) sync_point("region start");
    fn(data);
    g.sim_depth = d;
    while (pending > 0) block("end of parallel region");
    while (team.tasks) sleep_for(20, "tasks at region end");
    self->team = old_team;
    self->tid  = old_tid;
    self->ws   = old_ws;
    self->cur_loop = old_loop;
    g.live     = was_live;
    update_race_on();
}
static OmpTeam *solo_team(Fiber *f) {
    // work sharing outside any parallel region: a team of one
    static std::map<int, OmpTeam> *solo;
    if (!solo) solo = new std::map<int, OmpTeam>();
    return &(*solo)[f->id];
}
static OmpTeam *team_of() { return g.cur->team ? g.cur->team : solo_team(g.cur); }
// Enter the next work-sharing construct of this thread.
static Loop &enter_ws(bool &first) {
    OmpTeam *t = team_of();
    unsigned k = g.cur->ws++;
    auto it    = t->loops.find(k);
    first      = it == t->loops.end();
    Loop &l    = t->loops[k];
    g.cur->cur_loop = &l;
    return l;
}
static void fill_chunks(Loop &l, int n) {
    long total = 0;
    if (l.incr > 0 && l.end > l.start) total = (l.end - l.start + l.incr - 1) / l.incr;
    if (l.incr < 0 && l.end < l.start) total = (l.start - l.end - l.incr - 1) / -l.incr;
    long c = l.chunk > 0 ? l.chunk : 1, pos = 0;
    if (l.kind == 0) {
        // static: blocks of c (or equal shares), thread i takes blocks i, i+n, ...
        if (l.chunk <= 0) c = (total + n - 1) / n;
        if (c < 1) c = 1;
        for (; pos < total; pos += c) l.chunks.push_back({pos, std::min(total, pos + c)});
    } else {
        while (pos < total) {
            long sz = c;
            if (l.kind == 2) { // guided: a share of what is left, never below the chunk size
                long share = (total - pos + n - 1) / n;
                uint32_t v = choose("omp.guided", 3);
                if (v == 1) share = share / 2;
                if (v == 2) share = c;
                sz = std::max(c, share);
            }
            long e = std::min(total, pos + sz);
            l.chunks.push_back({pos, e});
            pos = e;
        }
        if (l.nonmono && n > 1)
            for (size_t i = 0; i + 1 < l.chunks.size(); i++) { // chunks may be handed out in any order
                size_t j = i + choose("omp.order", (uint32_t)(l.chunks.size() - i));
                std::swap(l.chunks[i], l.chunks[j]);
            }
    }
    count("omp.loops");
    count("omp.chunks", l.chunks.size());
}
static bool loop_next(long *is, long *ie) {
    sync_point("loop chunk");
    SimScope ss;
    if (!g.cur->cur_loop) { // combined parallel-for: the construct was created by the region
        bool first;
        enter_ws(first);
    }
    Loop &l = *(Loop *)g.cur->cur_loop;
    size_t k;
    if (l.kind == 0) {
        size_t &p = l.static_pos.emplace(g.cur->tid, (size_t)g.cur->tid).first->second;
        k         = p;
        p += (size_t)team_of()->n;
    } else
        k = l.next_chunk++;
    if (l.ordered) {
        auto c = l.current.find(g.cur->tid);
        if (c != l.current.end()) {
            l.finished.resize(l.chunks.size());
            l.finished[c->second] = true;
            l.current.erase(c);
            while (l.turn < l.finished.size() && l.finished[l.turn]) l.turn++;
            for (auto f : l.turn_wait) make_runnable(f);
            l.turn_wait.clear();
        }
        if (k < l.chunks.size()) l.current[g.cur->tid] = k;
    }
    if (k >= l.chunks.size()) return false;
    note(((uint64_t)k << 8) ^ (uint64_t)g.cur->id ^ 0xc40);
    sched_trace((k << 16) ^ (uint64_t)g.cur->tid ^ 0x10000000);
    *is = l.start + l.chunks[k].first * l.incr;
    *ie = l.start + l.chunks[k].second * l.incr;
    return true;
}
static void loop_init(Loop &l, long s, long e, long i, long c, int kind, bool nonmono, int n) {
    l.start = s; l.end = e; l.incr = i; l.chunk = c; l.kind = kind; l.nonmono = nonmono;
    fill_chunks(l, n);
}
static bool loop_start(long s, long e, long i, long c, int kind, bool nonmono, long *is, long *ie) {
    {
        SimScope ss;
        bool first;
        Loop &l = enter_ws(first);
        if (first) loop_init(l, s, e, i, c, kind, nonmono, team_of()->n);
    }
    return loop_next(is, ie);
}
static void ws_done() {
    SimScope ss;
    OmpTeam *t = team_of();
    Loop *l    = (Loop *)g.cur->cur_loop;
    if (l && ++l->done == t->n) {
        for (auto it = t->loops.begin(); it != t->loops.end(); ++it)
            if (&it->second == l) {
                // keep an empty entry so that numbering stays right
                it->second.chunks.clear();
                break;
            }
    }
    g.cur->cur_loop = nullptr;
    if (!g.cur->team) {
        t->loops.clear();
        g.cur->ws = 0;
    }
}
static bool ordered_start(long s, long e, long i, long c, int kind, long *is, long *ie) {
    {
        SimScope ss;
        bool first;
        Loop &l = enter_ws(first);
        if (first) {
            l.ordered = true;
            loop_init(l, s, e, i, c, kind, false, team_of()->n);
        }
    }
    return loop_next(is, ie);
}
static void children_wait() {
    OmpTeam *t = g.cur->team;
    if (!t) return;
    SimScope ss;
    while (g.cur->kids && *g.cur->kids) sleep_for(20, "taskwait");
    hb_acquire(t->barrier_vc);
}
void omp_reset() {}
} // namespace sim

using namespace sim;
static const char crit_key = 0, atomic_key = 0;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt); return (unsigned)(nt ? (int)nt : icv()); }
void GOMP_barrier() { barrier(g.cur->team); }
bool GOMP_barrier_cancel() { barrier(g.cur->team); return false; }
void GOMP_critical_start() { lock(&crit_key); }
void GOMP_critical_end() { unlock(&crit_key); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_key); }
void GOMP_atomic_end() { unlock(&atomic_key); }

#define LOOP(NAME, KIND, NM)                                                                                                                                \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, KIND, NM, is, ie); }                   \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); }                                                                           \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned) {                                 \
        parallel(fn, data, nt, [=](OmpTeam *t) { loop_init(t->loops[0], s, e, i, c, KIND, NM, t->n); });                                                     \
    }
LOOP(static, 0, false)
LOOP(dynamic, 1, false)
LOOP(guided, 2, false)
LOOP(nonmonotonic_dynamic, 1, true)
LOOP(nonmonotonic_guided, 2, true)
#define LOOPRT(NAME)                                                                                                                                         \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, true, is, ie); }                            \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); }                                                                           \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned) {                                         \
        parallel(fn, data, nt, [=](OmpTeam *t) { loop_init(t->loops[0], s, e, i, 1, 1, true, t->n); });                                                      \
    }
LOOPRT(runtime)
LOOPRT(nonmonotonic_runtime)
LOOPRT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { ws_done(); barrier(g.cur->team); }
bool GOMP_loop_end_cancel() { ws_done(); barrier(g.cur->team); return false; }
void GOMP_loop_end_nowait() { ws_done(); }
#define LOOPULL(NAME, KIND, NM)                                                                                                                               \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { \
        (void)up;                                                                                                                                             \
        return loop_start((long)s, (long)e, (long)i, (long)c, KIND, NM, (long *)is, (long *)ie);                                                              \
    }                                                                                                                                                         \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return loop_next((long *)is, (long *)ie); }
LOOPULL(static, 0, false)
LOOPULL(dynamic, 1, false)
LOOPULL(guided, 2, false)
LOOPULL(nonmonotonic_dynamic, 1, true)
LOOPULL(nonmonotonic_guided, 2, true)
// loops whose construct was created by GOMP_parallel_loop_*: the first next() enters construct 0
bool GOMP_single_start() {
    sync_point("single");
    SimScope ss;
    bool first;
    Loop &l = enter_ws(first);
    if (l.single_taken) return false;
    l.single_taken = true;
    return true;
}
void *GOMP_single_copy_start() {
    sync_point("single");
    {
        SimScope ss;
        bool first;
        Loop &l = enter_ws(first);
        if (!l.single_taken) {
            l.single_taken = true;
            return nullptr;
        }
    }
    barrier(g.cur->team);
    return ((Loop *)g.cur->cur_loop)->copyprivate;
}
void GOMP_single_copy_end(void *d) {
    ((Loop *)g.cur->cur_loop)->copyprivate = d;
    barrier(g.cur->team);
}
unsigned GOMP_sections_next() {
    sync_point("section");
    SimScope ss;
    if (!g.cur->cur_loop) {
        bool first;
        enter_ws(first);
    }
    Loop &l = *(Loop *)g.cur->cur_loop;
    if (l.next_section >= l.nsections) return 0;
    return ++l.next_section;
}
unsigned GOMP_sections_start(unsigned n) {
    {
        SimScope ss;
        bool first;
        Loop &l = enter_ws(first);
        if (first) l.nsections = n;
    }
    return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned) {
    parallel(fn, data, nt, [=](OmpTeam *t) { t->loops[0].nsections = count; });
}
void GOMP_sections_end() { ws_done(); barrier(g.cur->team); }
void GOMP_sections_end_nowait() { ws_done(); }
#define LOOPORD(NAME, KIND)                                                                                                                                  \
    bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return ordered_start(s, e, i, c, KIND, is, ie); }              \
    bool GOMP_loop_ordered_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); }                                                                    \
    bool GOMP_loop_ull_ordered_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { \
        return ordered_start((long)s, (long)e, (long)i, (long)c, KIND, (long *)is, (long *)ie);                                                              \
    }                                                                                                                                                         \
    bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return loop_next((long *)is, (long *)ie); }
LOOPORD(static, 0)
LOOPORD(dynamic, 1)
LOOPORD(guided, 2)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long *is, long *ie) { return ordered_start(s, e, i, 1, 1, is, ie); }
bool GOMP_loop_ordered_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
void GOMP_ordered_start() {
    Loop *l = (Loop *)g.cur->cur_loop;
    if (l && l->ordered) {
        SimScope ss;
        auto c = l->current.find(g.cur->tid);
        while (c != l->current.end() && l->turn != c->second) {
            l->turn_wait.push_back(g.cur);
            block("waiting for its turn in an ordered loop");
        }
    }
    lock(&crit_key);
}
void GOMP_ordered_end() { unlock(&crit_key); }
// flags: 8 = depends on earlier tasks of the same parent
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool if_clause, unsigned flags, void **, int, void *) {
    OmpTeam *t = g.cur->team;
    (void)align;
    if (flags & 8) children_wait();
    if (!if_clause || !t || t->n == 1 || t->tasks > 16) {
        if (cpy) {
            alignas(16) char buf[size + 16];
            cpy(buf, data);
            fn(buf);
        } else
            fn(data);
        return;
    }
    SimScope ss;
    char *buf = (char *)malloc((size_t)size + 16);
    if (cpy) {
        g.sim_depth--;
        cpy(buf, data);
        g.sim_depth++;
    } else
        memcpy(buf, data, (size_t)size);
    t->tasks++;
    if (!g.cur->kids) g.cur->kids = std::make_shared<int>(0);
    auto parent = g.cur->kids;
    auto groups = g.cur->groups;
    ++*parent;
    for (auto &q : groups) ++*q;
    Fiber *f = new_fiber(g.cur->domain, [fn, buf, t, parent, groups] {
        fn(buf);
        hb_release(t->barrier_vc);
        t->tasks--;
        --*parent;
        for (auto &q : groups) --*q;
    });
    f->team   = t;
    f->tid    = g.cur->tid;
    f->groups = groups;
    start_fiber(f);
    count("omp.tasks");
}
void GOMP_taskwait() { children_wait(); }
void GOMP_taskwait_depend(void **) { children_wait(); }
void GOMP_taskgroup_start() {
    SimScope ss;
    g.cur->groups.push_back(std::make_shared<int>(0));
}
void GOMP_taskgroup_end() {
    SimScope ss;
    if (g.cur->groups.empty()) return;
    auto q = g.cur->groups.back();
    while (*q) sleep_for(20, "end of a task group");
    g.cur->groups.pop_back();
    if (g.cur->team) hb_acquire(g.cur->team->barrier_vc);
}
// flags: 1<<9 = num_tasks is a grain size, 1<<10 = if clause holds, 1<<11 = nogroup
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, int, long start, long end, long step) {
    long total = step > 0 ? (end > start ? (end - start + step - 1) / step : 0) : (start > end ? (start - end - step - 1) / -step : 0);
    if (total <= 0) return;
    if (!(flags & (1 << 11))) GOMP_taskgroup_start();
    long grain;
    {
        SimScope ss;
        if (flags & (1 << 9)) grain = num ? (long)num : 1;
        else if (num) grain = (total + (long)num - 1) / (long)num;
        else grain = 1 + (long)choose("omp.taskloop", (uint32_t)std::min<long>(total, 8));
    }
    for (long i = 0; i < total; i += grain) {
        alignas(16) char buf[size + 16];
        if (cpy) cpy(buf, data);
        else memcpy(buf, data, (size_t)size);
        ((long *)buf)[0] = start + i * step;
        ((long *)buf)[1] = start + std::min(total, i + grain) * step;
        GOMP_task(fn, buf, nullptr, size, align, (flags & (1 << 10)) != 0, 0, nullptr, 0, nullptr);
    }
    if (!(flags & (1 << 11))) GOMP_taskgroup_end();
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, int prio, unsigned long long start, unsigned long long end, unsigned long long step) {
    GOMP_taskloop(fn, data, cpy, size, align, flags, num, prio, (long)start, (long)end, (long)step);
}
void GOMP_taskyield() { sync_point("taskyield"); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num() { return g.cur->team ? g.cur->tid : 0; }
int omp_get_num_threads() { return g.cur->team ? g.cur->team->n : 1; }
int omp_get_max_threads() { return icv(); }
void omp_set_num_threads(int n) { omp_threads_domain(g.cur->domain, n > 0 ? n : 1); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return g.cur->team && g.cur->team->n > 1; }
int omp_get_level() { return g.cur->team ? g.cur->team->level : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_thread_limit() { return 24; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_dynamic() { return dyn; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? omp_get_thread_num() : l == 0 ? 0 : -1; }
int omp_get_team_size(int l) { return l == omp_get_level() ? omp_get_num_threads() : l == 0 ? 1 : -1; }
int omp_get_supported_active_levels() { return 1; }
int omp_get_cancellation() { return 0; }
int omp_get_max_task_priority() { return 0; }
int omp_in_final() { return 0; }
int omp_get_num_places() { return 0; }
int omp_get_place_num() { return -1; }
int omp_get_proc_bind() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_num_devices() { return 0; }
int omp_get_default_device() { return 0; }
int omp_get_initial_device() { return 0; }
int omp_is_initial_device() { return 1; }
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
void omp_init_lock_with_hint(void *, int) {}
void omp_init_nest_lock_with_hint(void *, int) {}
void omp_set_nested(int) {}
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return now() * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock(l); }
void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { return try_lock(l); }
void omp_init_nest_lock(void *) {}
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { lock(l, true); }
void omp_unset_nest_lock(void *l) { unlock(l); }

// std::mutex in the code under test
static bool rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!g.cur || !g.live || g.sim_depth) return 0;
    lock(m, rec(m));
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!g.cur || !g.live || g.sim_depth) return 0;
    unlock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!g.cur || !g.live || g.sim_depth) return 0;
    return try_lock(m) ? 0 : EBUSY;
}
}
