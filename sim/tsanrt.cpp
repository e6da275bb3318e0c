// Run-time for code compiled with -fsanitize=thread, linked without libtsan: every memory access of
// the code under test is a preemption point, a bounds check, and an input of a happens-before race detector.
#include "sim_int.h"
#include <cerrno>
#include <cstdio>
#include <unordered_map>

namespace sim {

struct Cell {
    uint32_t clock;
    uint8_t slot, mask, flags, domain; // flags: 1 valid, 2 write
    uint32_t pc;
};
constexpr int NC = 4;
struct Page {
    Cell c[512][NC];
};
static std::unordered_map<uintptr_t, Page *> *pages;
static uintptr_t last_key = 0;
static Page *last_page    = nullptr;
static uint64_t rr        = 0;
static std::unordered_map<uintptr_t, VC> *atomics;

static Page *page_of(uintptr_t a, bool create) {
    uintptr_t k = a >> 12;
    if (k == last_key && last_page) return last_page;
    SimScope ss;
    if (!pages) pages = new std::unordered_map<uintptr_t, Page *>();
    auto it = pages->find(k);
    if (it == pages->end()) {
        if (!create) return nullptr;
        it = pages->emplace(k, (Page *)calloc(1, sizeof(Page))).first;
    }
    last_key  = k;
    last_page = it->second;
    return last_page;
}
void shadow_forget(void *p, size_t n) {
    SimScope ss;
    if (!pages) return;
    last_page = nullptr;
    for (uintptr_t k = (uintptr_t)p >> 12; k <= ((uintptr_t)p + n - 1) >> 12; k++) {
        auto it = pages->find(k);
        if (it != pages->end()) {
            free(it->second);
            pages->erase(it);
        }
    }
}
void vc_fork(Fiber *p, Fiber *c) {
    uint32_t own = c->vc.c[c->slot];
    c->vc.join(p->vc);
    if (c->vc.c[c->slot] < own) c->vc.c[c->slot] = own;
    p->vc.c[p->slot]++;
}
void vc_join(Fiber *p, Fiber *c) {
    p->vc.join(c->vc);
    p->vc.c[p->slot]++;
}
void hb_acquire(const VC &v) { g.cur->vc.join(v); }
void hb_release(VC &v) {
    v.join(g.cur->vc);
    g.cur->vc.c[g.cur->slot]++;
}

[[noreturn]] static void report_race(uintptr_t a, bool w, const void *pc, const Cell &o) {
    SimScope ss;
    std::string m = "conflicting unsynchronised accesses to the same memory: ";
    m += (o.flags & 2) ? "write" : "read";
    m += " at exe+0x";
    char b[32];
    snprintf(b, sizeof b, "%x", o.pc);
    m += b;
    m += " and ";
    m += w ? "write" : "read";
    m += " at " + pc_text(pc);
    m += in_arena((void *)a) ? " (heap)" : " (stack or global)";
    out_violation("data-race", context(), m);
    abort();
}

static void race_granule(uintptr_t ga, uint8_t mask, bool w, const void *pc) {
    Page *p  = page_of(ga, true);
    Cell *c  = p->c[(ga >> 3) & 511];
    Fiber *f = g.cur;
    int freei = -1;
    for (int i = 0; i < NC; i++) {
        if (!(c[i].flags & 1)) {
            if (freei < 0) freei = i;
            continue;
        }
        if (c[i].slot == f->slot) {
            // our own older access: replaced if it covers no more than the new one
            if ((c[i].mask & ~mask) == 0 && (w || !(c[i].flags & 2))) freei = i;
            else if (c[i].mask == mask && (c[i].flags & 2) && !w && c[i].clock == f->vc.c[f->slot]) return; // same epoch write covers a read
            continue;
        }
        if (!(c[i].mask & mask)) continue;
        if (!w && !(c[i].flags & 2)) {
            continue;
        }
        if (c[i].domain != (uint8_t)f->domain) continue;
        if (c[i].clock > f->vc.c[c[i].slot]) report_race(ga, w, pc, c[i]);
        else if (w && (c[i].mask & ~mask) == 0) freei = i; // ordered before and covered
    }
    if (freei < 0) freei = (int)(rr++ % NC);
    Cell &n  = c[freei];
    n.clock  = f->vc.c[f->slot];
    n.slot   = (uint8_t)f->slot;
    n.mask   = mask;
    n.flags  = 1 | (w ? 2 : 0);
    n.domain = (uint8_t)f->domain;
    n.pc     = (uint32_t)((uintptr_t)pc - g.exe_base);
}
static void race_range(uintptr_t a, size_t n, bool w, const void *pc) {
    if (a - (uintptr_t)g.errno_at < sizeof(int) || a - (uintptr_t)g.tls < g.tls_size) return; // one per thread
    uintptr_t e = a + n;
    // our own stack needs no check when only this fiber can reach it; workers' stacks are private,
    // the parent's stack is shared: keep it simple and check everything.
    while (a < e) {
        unsigned off = a & 7;
        unsigned len = (unsigned)((e - a) < (8 - off) ? (e - a) : (8 - off));
        race_granule(a & ~(uintptr_t)7, (uint8_t)(((1u << len) - 1) << off), w, pc);
        a += len;
    }
}
void range_access(const void *p, size_t n, bool w, const void *pc) {
    if (!n) return;
    check_addr(p, n, w, pc);
    if (g.race_on) race_range((uintptr_t)p, n, w, pc);
}
void range_access_strided(const void *p, size_t elem, int64_t rows, int64_t cols, int64_t ld, bool w, const void *pc) {
    if (rows <= 0 || cols <= 0) return;
    if (ld == rows) {
        range_access(p, elem * rows * cols, w, pc);
        return;
    }
    for (int64_t j = 0; j < cols; j++) range_access((const char *)p + elem * ld * j, elem * rows, w, pc);
}

static inline __attribute__((always_inline)) void access(const void *p, size_t n, bool w, const void *pc) {
    if (!g.live || g.sim_depth) return;
    ++g.step;
    check_addr(p, n, w, pc);
    if (g.race_on) race_range((uintptr_t)p, n, w, pc);
    if (g.step >= g.next_preempt) preempt_slow();
    else if ((g.step & 0xFFFFF) == 0 && g.step > g.cfg.max_steps) out_violation("no-progress", context(), "the run did not end within its step bound");
}
static VC &sync_var(const void *p) {
    if (!atomics) atomics = new std::unordered_map<uintptr_t, VC>();
    return (*atomics)[(uintptr_t)p];
}
// An atomic operation: synchronises, and other fibers may run just before it.
static void atomic_point(const void *p) {
    if (!g.live || g.sim_depth) return;
    ++g.step;
    check_addr(p, 1, true, __builtin_return_address(0));
    if (g.race_on) {
        sync_point("atomic");
        if (g.cur->spin_at != p) g.cur->spin_at = p, g.cur->spins = 0;
        else if (++g.cur->spins > 100) { // whoever it waits for gets to run
            g.cur->spins = 0;
            sleep_for(20, "atomic");
        }
        SimScope ss;
        VC &v = sync_var(p);
        hb_acquire(v);
        hb_release(v);
    }
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *p) { access(p, 1, false, PC); }
void __tsan_read2(void *p) { access(p, 2, false, PC); }
void __tsan_read4(void *p) { access(p, 4, false, PC); }
void __tsan_read8(void *p) { access(p, 8, false, PC); }
void __tsan_read16(void *p) { access(p, 16, false, PC); }
void __tsan_write1(void *p) { access(p, 1, true, PC); }
void __tsan_write2(void *p) { access(p, 2, true, PC); }
void __tsan_write4(void *p) { access(p, 4, true, PC); }
void __tsan_write8(void *p) { access(p, 8, true, PC); }
void __tsan_write16(void *p) { access(p, 16, true, PC); }
void __tsan_unaligned_read2(void *p) { access(p, 2, false, PC); }
void __tsan_unaligned_read4(void *p) { access(p, 4, false, PC); }
void __tsan_unaligned_read8(void *p) { access(p, 8, false, PC); }
void __tsan_unaligned_read16(void *p) { access(p, 16, false, PC); }
void __tsan_unaligned_write2(void *p) { access(p, 2, true, PC); }
void __tsan_unaligned_write4(void *p) { access(p, 4, true, PC); }
void __tsan_unaligned_write8(void *p) { access(p, 8, true, PC); }
void __tsan_unaligned_write16(void *p) { access(p, 16, true, PC); }
void __tsan_volatile_read1(void *p) { access(p, 1, false, PC); }
void __tsan_volatile_read4(void *p) { access(p, 4, false, PC); }
void __tsan_volatile_read8(void *p) { access(p, 8, false, PC); }
void __tsan_volatile_write1(void *p) { access(p, 1, true, PC); }
void __tsan_volatile_write4(void *p) { access(p, 4, true, PC); }
void __tsan_volatile_write8(void *p) { access(p, 8, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); } // whatever was there: it may be uninitialised
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }

#define ATOMIC(T, N)                                                                             \
    T __tsan_atomic##N##_load(const volatile T *a, int) { atomic_point((const void *)a); return *a; } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int) { atomic_point((const void *)a); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { atomic_point((const void *)a); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomic_point((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atomic_point((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomic_point((const void *)a); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(uint8_t, 8)
ATOMIC(uint16_t, 16)
ATOMIC(uint32_t, 32)
ATOMIC(uint64_t, 64)
ATOMIC(unsigned __int128, 128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// mem* called by the program (ld --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
static inline void rng(const void *p, size_t n, bool w, const void *pc) {
    if (g.live && !g.sim_depth && n) {
        ++g.step;
        range_access(p, n, w, pc);
        if (g.step >= g.next_preempt) preempt_slow();
    }
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { rng(d, n, true, PC); return __real_memset(d, c, n); }

// destructors of thread-local variables run when their fiber ends
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) {
    SimScope ss;
    if (g.cur) g.cur->tls_dtors.push_back({fn, obj});
    return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t *gd) {
    volatile uint8_t *b = (volatile uint8_t *)gd;
    for (;;) {
        if (b[0]) {
            if (g.live && g.cur) {
                SimScope ss;
                hb_acquire(sync_var(gd));
            }
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        // somebody else is initialising: let it run
        sleep_for(50, "static initialisation");
    }
}
void __cxa_guard_release(uint64_t *gd) {
    volatile uint8_t *b = (volatile uint8_t *)gd;
    b[0] = 1;
    b[1] = 0;
    if (g.live && g.cur) {
        SimScope ss;
        hb_release(sync_var(gd));
    }
}
void __cxa_guard_abort(uint64_t *gd) { ((volatile uint8_t *)gd)[1] = 0; }
}
