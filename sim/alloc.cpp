// operator new/delete: an arena with red zones and no reuse, allocation failures, accounting.
#include <unistd.h>
#include "sim_int.h"
#include <cstdio>
#include <cstdlib>
#include <new>
#include <algorithm>
#include <sys/mman.h>
#include <vector>

extern "C" char __data_start, _end;

namespace sim {
static char *const ARENA   = (char *)0x100000000000ull;
static const size_t ASIZE  = 8ull << 30;
static uint8_t *const SHAD = (uint8_t *)0x180000000000ull; // 1 byte per 8
static char *top           = nullptr;
static bool ready          = false;
struct Hdr {
    uint64_t magic;
    uint32_t owned; // counted as the program's
    uint32_t freed;
    uint64_t size;
    uint64_t pad;
};
static const uint64_t MAGIC = 0x51a110c8ull;
static AllocPlan plan;
static uint64_t nalloc;
static bool fired;
static int64_t nblocks;

void arena_init() {
    void *p = mmap(ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *q = mmap(SHAD, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA || q != SHAD) {
        fprintf(stderr, "sim: cannot map the arena\n");
        _exit(4);
    }
    top   = ARENA;
    ready = true;
}
bool in_arena(const void *p) { return (uintptr_t)p - (uintptr_t)ARENA < ASIZE; }
void alloc_plan(const AllocPlan &p) { plan = p; }
uint64_t alloc_count() { return nalloc; }
void alloc_reset() { nalloc = 0; fired = false; plan = AllocPlan(); }
bool alloc_fired() { return fired; }

static std::vector<char *> starts; // of the program's blocks, in increasing order

static void *arena_alloc(size_t n, size_t align, bool owned) {
    if (align < 16) align = 16;
    uintptr_t p = (uintptr_t)top + sizeof(Hdr) + 16;
    p           = (p + align - 1) & ~(uintptr_t)(align - 1);
    char *b     = (char *)p;
    size_t r    = (n + 7) & ~(size_t)7;
    top         = b + r + 24;
    if (top > ARENA + ASIZE) return nullptr;
    Hdr *h   = (Hdr *)(b - sizeof(Hdr));
    h->magic = MAGIC;
    h->owned = owned;
    h->freed = 0;
    h->size  = n;
    h->pad   = 0;
    uint8_t *s = SHAD + (b - ARENA) / 8;
    memset(s, 8, n / 8);
    if (n % 8) s[n / 8] = n % 8;
    memset(b, 0xFF, n); // uninitialised doubles are NaN
    if (owned) {
        SimScope ss;
        starts.push_back(b);
    }
    return b;
}
// Blocks still reachable from variables of static or thread storage duration (a function-local constant, a cache,
// a scratch buffer kept by a thread) are not counted as leaked.
static int64_t reachable_blocks() {
    SimScope ss;
    static uint64_t epoch;
    ++epoch;
    std::vector<std::pair<const char *, size_t>> todo;
    int64_t found = 0;
    auto scan     = [&](const char *b, size_t n) {
        const uintptr_t *q = (const uintptr_t *)(((uintptr_t)b + 7) & ~(uintptr_t)7), *e = (const uintptr_t *)(((uintptr_t)b + n) & ~(uintptr_t)7);
        for (; q < e; q++) {
            if (!in_arena((const void *)*q)) continue;
            auto it = std::upper_bound(starts.begin(), starts.end(), (char *)*q);
            if (it == starts.begin()) continue;
            char *s = *--it;
            Hdr *h  = (Hdr *)(s - sizeof(Hdr));
            if (h->freed || h->pad == epoch || *q - (uintptr_t)s > h->size) continue;
            h->pad = epoch;
            found++;
            todo.push_back({s, h->size});
        }
    };
    scan((const char *)&__data_start, (size_t)((const char *)&_end - (const char *)&__data_start));
    if (g.tls_size) {
        scan(g.tls, g.tls_size);
        for (auto f : g.fibers)
            if (f && f != g.cur && f->state != DONE && f->tls) scan(f->tls, g.tls_size);
    }
    while (!todo.empty()) {
        auto t = todo.back();
        todo.pop_back();
        scan(t.first, t.second);
    }
    return found;
}
int64_t live_blocks() { return nblocks ? nblocks - reachable_blocks() : 0; }
static void *do_new(size_t n, size_t align, bool nothrow) {
    if (!ready || g.sim_depth) {
        void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    bool owned = g.live;
    if (owned) {
        if (n > (1ull << 30)) { // more than any run may need
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        uint64_t i = nalloc++;
        if (plan.fail_at >= 0 && ((int64_t)i == plan.fail_at || (plan.sticky && (int64_t)i > plan.fail_at))) {
            fired = true;
            {
                SimScope ss;
                count("fault.alloc");
            }
            note(i ^ 0xa110cf);
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        sync_point("alloc");
    }
    void *p = arena_alloc(n, align, owned);
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (owned) nblocks++;
    return p;
}
static void do_delete(void *p) {
    if (!p) return;
    if (!in_arena(p)) {
        free(p);
        return;
    }
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    if (((uintptr_t)p & 7) || h->magic != MAGIC) out_violation("bad-free", context(), "delete of a pointer that is not a heap block");
    if (h->freed) out_violation("double-free", context(), "a block of " + std::to_string(h->size) + " bytes is freed twice");
    h->freed = 1;
    if (h->owned) nblocks--;
    if (g.live && g.race_on) range_access(p, h->size, true, __builtin_return_address(0));
    memset(SHAD + ((char *)p - ARENA) / 8, 0, (h->size + 7) / 8);
    memset(p, 0xDD, h->size);
}
bool addressable(const void *pp, size_t n) {
    const char *p = (const char *)pp;
    if (!in_arena(p)) return true;
    if (!n) return true;
    uintptr_t a = (uintptr_t)p - (uintptr_t)ARENA, e = a + n;
    while (a < e) {
        unsigned off = a & 7, left = (unsigned)((e - a) < (8 - off) ? (e - a) : (8 - off));
        if (SHAD[a >> 3] < off + left) return false;
        a += left;
    }
    return true;
}
static void bad_access(const void *p, size_t n, bool write, const void *pc) {
    SimScope ss;
    if (!in_arena(p)) out_violation("bad-access", context(), std::string(write ? "write" : "read") + " through a null pointer at " + pc_text(pc));
    out_violation("bad-access", context(), std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes outside any live heap block (overrun or use after free) at " + pc_text(pc));
}
void check_addr(const void *p, size_t n, bool write, const void *pc) {
    if (!in_arena(p)) {
        if ((uintptr_t)p < 4096 && n) bad_access(p, n, write, pc);
        return;
    }
    if (n <= 8) {
        unsigned off = (unsigned)((uintptr_t)p & 7);
        if (off + n <= 8) {
            if (SHAD[((uintptr_t)p - (uintptr_t)ARENA) >> 3] < off + n) bad_access(p, n, write, pc);
            return;
        }
    }
    if (!addressable(p, n)) bad_access(p, n, write, pc);
}
} // namespace sim

using namespace sim;
void *operator new(size_t n) { return do_new(n, 16, false); }
void *operator new[](size_t n) { return do_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_new(n, (size_t)a, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_new(n, (size_t)a, true); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
