// Threads, condition variables, read-write locks, one-time initialisation and sleeps of the code under test (std::thread and
// what is built on it), should it use them: they are fibers and waits of the scheduler, like those of OpenMP.
#include "sim_int.h"
#include <atomic>
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <future>
#include <pthread.h>
#include <unordered_map>
using namespace sim;

namespace sim {
void key_lock(const void *key);
void key_unlock(const void *key);
namespace {
struct Thread {
    void *(*fn)(void *);
    void *arg;
    void *ret   = nullptr;
    bool done   = false;
    Fiber *joiner = nullptr;
    VC vc;
};
struct Cond {
    struct W {
        Fiber *f;
        bool *woken;
    };
    std::vector<W> waiting;
    VC vc;
};
struct RW {
    int readers = 0;
    bool writer = false;
    std::vector<Fiber *> waiting;
    VC vc;
};
std::unordered_map<const void *, Cond> *conds;
std::unordered_map<const void *, RW> *rws;
Cond &cond_of(const void *p) {
    if (!conds) conds = new std::unordered_map<const void *, Cond>();
    return (*conds)[p];
}
RW &rw_of(const void *p) {
    if (!rws) rws = new std::unordered_map<const void *, RW>();
    return (*rws)[p];
}
bool mine() { return g.cur && g.live && !g.sim_depth; }
void wake(Cond &c, bool all) {
    hb_release(c.vc);
    while (!c.waiting.empty()) {
        size_t k = all ? 0 : choose("cond.wake", (uint32_t)c.waiting.size());
        *c.waiting[k].woken = true;
        make_runnable(c.waiting[k].f);
        c.waiting.erase(c.waiting.begin() + k);
        if (!all) break;
    }
}
void cond_wait(const void *c, const void *m, bool timed) {
    sync_point("condition");
    {
        SimScope ss;
        bool woken = false;
        cond_of(c).waiting.push_back({g.cur, &woken});
        ++g.step;
        key_unlock(m);
        if (timed) {
            sleep_for(1000, "timed wait");
            auto &w = cond_of(c).waiting;
            for (size_t i = 0; i < w.size(); i++)
                if (w[i].woken == &woken) {
                    w.erase(w.begin() + i);
                    break;
                }
        } else
            while (!woken) block("waiting for a condition");
        hb_acquire(cond_of(c).vc);
    }
    key_lock(m);
}
bool rw_take(const void *p, bool write, bool wait) {
    sync_point("rwlock");
    SimScope ss;
    while (rw_of(p).writer || (write && rw_of(p).readers)) {
        if (!wait) return false;
        rw_of(p).waiting.push_back(g.cur);
        block("waiting for a lock");
    }
    RW &r = rw_of(p);
    if (write) r.writer = true;
    else r.readers++;
    hb_acquire(r.vc);
    return true;
}
} // namespace
} // namespace sim

extern "C" {
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!g.cur) {
        auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
        return real(id, at, fn, arg);
    }
    {
        SimScope ss;
        count("sched.threads_created");
        Thread *t = new Thread{fn, arg};
        *id       = (pthread_t)t;
        Fiber *f  = new_fiber(g.cur->domain, [t] {
            void *r = t->fn(t->arg);
            SimScope ss2;
            t->ret  = r;
            t->vc   = g.cur->vc;
            t->done = true;
            if (t->joiner) make_runnable(t->joiner);
        });
        f->live = true;
        start_fiber(f);
    }
    sync_point("thread created");
    return 0;
}
int pthread_join(pthread_t id, void **ret) {
    SimScope ss;
    Thread *t = (Thread *)id;
    t->joiner = g.cur;
    while (!t->done) block("joining a thread");
    hb_acquire(t->vc);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_once(pthread_once_t *c, void (*f)()) {
    volatile int *s = (volatile int *)c;
    while (*s != 2) {
        if (*s == 0) {
            *s = 1;
            try {
                f();
            } catch (...) {
                *s = 0;
                throw;
            }
            *s = 2;
            if (mine()) {
                SimScope ss;
                hb_release(rw_of(c).vc);
            }
            return 0;
        }
        if (!g.cur) return 0;
        sleep_for(50, "one-time initialisation");
    }
    if (mine()) {
        SimScope ss;
        hb_acquire(rw_of(c).vc);
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (mine()) cond_wait(c, m, false);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    if (mine()) cond_wait(c, m, true);
    return 0;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) {
    if (mine()) cond_wait(c, m, true);
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!mine()) return 0;
    sync_point("signal");
    SimScope ss;
    wake(cond_of(c), false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!mine()) return 0;
    sync_point("broadcast");
    SimScope ss;
    wake(cond_of(c), true);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return mine() && !rw_take(l, false, true) ? EBUSY : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return mine() && !rw_take(l, true, true) ? EBUSY : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return mine() && !rw_take(l, false, false) ? EBUSY : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return mine() && !rw_take(l, true, false) ? EBUSY : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!mine()) return 0;
    {
        SimScope ss;
        RW &r = rw_of(l);
        if (r.writer) r.writer = false;
        else if (r.readers) r.readers--;
        hb_release(r.vc);
        for (auto f : r.waiting) make_runnable(f);
        r.waiting.clear();
    }
    sync_point("rwlock");
    return 0;
}
int sched_yield() {
    if (mine()) sleep_for(1, "yield");
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *) {
    if (mine()) sleep_for((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec, "sleep");
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { return nanosleep(t, nullptr); }
int usleep(unsigned us) {
    if (mine()) sleep_for((uint64_t)us * 1000, "sleep");
    return 0;
}
}
namespace std {
// what std::call_once hands over, here so that it is one per fiber like every thread-local variable of the executable
__thread void *__once_callable;
__thread void (*__once_call)();
// std::future
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
    if (timed) {
        sleep_for(1000, "timed wait");
        return *(volatile unsigned *)a != v;
    }
    while (*(volatile unsigned *)a == v) sleep_for(50, "waiting for a future");
    return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) {}
} // namespace std
