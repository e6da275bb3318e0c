// BLAS/LAPACK stay real; their operands go through the bounds and race checks, and a call is a preemption point.
#include "sim_int.h"
#include <complex>
#include <algorithm>
using namespace sim;
typedef std::complex<double> Z;
typedef std::complex<float> C;
static inline void mat(const void *p, size_t e, int64_t r, int64_t c, int64_t ld, bool w, const void *pc) { range_access_strided(p, e, r, c, ld, w, pc); }
static inline void vecr(const void *p, size_t e, int64_t n, int64_t inc, bool w, const void *pc) {
    if (n <= 0) return;
    if (inc < 0) inc = -inc;
    if (inc <= 1) range_access(p, e * (inc == 0 ? 1 : n), w, pc);
    else
        for (int64_t i = 0; i < n; i++) range_access((const char *)p + e * i * inc, e, w, pc);
}
#define PC __builtin_return_address(0)
#define PRE bool live = g.live; if (live) { sync_point("blas"); SimScope ss;
#define MID }
#define POST if (live) sync_point("blas done");
template <class T> static bool nz(const T *b) { return *b != T(0); }
extern "C" {
#define GEMV(P, T)                                                                                                                                             \
    void __real_##P##gemv_(const char *, const int *, const int *, const T *, const T *, const int *, const T *, const int *, const T *, T *, const int *);   \
    void __wrap_##P##gemv_(const char *t, const int *m, const int *n, const T *al, const T *a, const int *lda, const T *x, const int *ix, const T *be, T *y, const int *iy) { \
        PRE bool N = *t == 'N' || *t == 'n';                                                                                                                   \
        if (*m > 0 && *n > 0) {                                                                                                                                \
            if (nz(al)) { mat(a, sizeof(T), *m, *n, *lda, false, PC); vecr(x, sizeof(T), N ? *n : *m, *ix, false, PC); }                                                                                  \
            vecr(y, sizeof(T), N ? *m : *n, *iy, true, PC);                                                                                                    \
        }                                                                                                                                                      \
        MID __real_##P##gemv_(t, m, n, al, a, lda, x, ix, be, y, iy);                                                                                          \
        POST                                                                                                                                                   \
    }                                                                                                                                                          \
    void __real_##P##gemm_(const char *, const char *, const int *, const int *, const int *, const T *, const T *, const int *, const T *, const int *, const T *, T *, const int *); \
    void __wrap_##P##gemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const T *al, const T *a, const int *lda, const T *b, const int *ldb, const T *be, T *c, const int *ldc) { \
        PRE bool NA = *ta == 'N' || *ta == 'n', NB = *tb == 'N' || *tb == 'n';                                                                                 \
        if (*m > 0 && *n > 0) {                                                                                                                                \
            if (*k > 0 && nz(al)) { mat(a, sizeof(T), NA ? *m : *k, NA ? *k : *m, *lda, false, PC); mat(b, sizeof(T), NB ? *k : *n, NB ? *n : *k, *ldb, false, PC); } \
            mat(c, sizeof(T), *m, *n, *ldc, true, PC);                                                                                                         \
        }                                                                                                                                                      \
        MID __real_##P##gemm_(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);                                                                                \
        POST                                                                                                                                                   \
    }                                                                                                                                                          \
    void __real_##P##axpy_(const int *, const T *, const T *, const int *, T *, const int *);                                                                  \
    void __wrap_##P##axpy_(const int *n, const T *al, const T *x, const int *ix, T *y, const int *iy) {                                                        \
        PRE if (*n > 0 && nz(al)) { vecr(x, sizeof(T), *n, *ix, false, PC); vecr(y, sizeof(T), *n, *iy, true, PC); }                                           \
        MID __real_##P##axpy_(n, al, x, ix, y, iy);                                                                                                            \
        POST                                                                                                                                                   \
    }                                                                                                                                                          \
    void __real_##P##scal_(const int *, const T *, T *, const int *);                                                                                          \
    void __wrap_##P##scal_(const int *n, const T *al, T *x, const int *ix) {                                                                                   \
        PRE if (*n > 0) vecr(x, sizeof(T), *n, *ix, true, PC);                                                                                                 \
        MID __real_##P##scal_(n, al, x, ix);                                                                                                                   \
        POST                                                                                                                                                   \
    }                                                                                                                                                          \
    void __real_##P##symm_(const char *, const char *, const int *, const int *, const T *, const T *, const int *, const T *, const int *, const T *, T *, const int *); \
    void __wrap_##P##symm_(const char *s, const char *u, const int *m, const int *n, const T *al, const T *a, const int *lda, const T *b, const int *ldb, const T *be, T *c, const int *ldc) { \
        PRE if (*m > 0 && *n > 0) {                                                                                                                            \
            int ka = (*s == 'L' || *s == 'l') ? *m : *n;                                                                                                       \
            mat(a, sizeof(T), ka, ka, *lda, false, PC); mat(b, sizeof(T), *m, *n, *ldb, false, PC); mat(c, sizeof(T), *m, *n, *ldc, true, PC);                 \
        }                                                                                                                                                      \
        MID __real_##P##symm_(s, u, m, n, al, a, lda, b, ldb, be, c, ldc);                                                                                     \
        POST                                                                                                                                                   \
    }                                                                                                                                                          \
    void __real_##P##trsm_(const char *, const char *, const char *, const char *, const int *, const int *, const T *, const T *, const int *, T *, const int *); \
    void __wrap_##P##trsm_(const char *s, const char *u, const char *t, const char *d, const int *m, const int *n, const T *al, const T *a, const int *lda, T *b, const int *ldb) { \
        PRE if (*m > 0 && *n > 0) {                                                                                                                            \
            int ka = (*s == 'L' || *s == 'l') ? *m : *n;                                                                                                       \
            mat(a, sizeof(T), ka, ka, *lda, false, PC); mat(b, sizeof(T), *m, *n, *ldb, true, PC);                                                             \
        }                                                                                                                                                      \
        MID __real_##P##trsm_(s, u, t, d, m, n, al, a, lda, b, ldb);                                                                                           \
        POST                                                                                                                                                   \
    }
GEMV(d, double)
GEMV(z, Z)
GEMV(s, float)
GEMV(c, C)
#define SYMV(P, T)                                                                                                                                              \
    void __real_##P##_(const char *, const int *, const T *, const T *, const int *, const T *, const int *, const T *, T *, const int *);                      \
    void __wrap_##P##_(const char *u, const int *n, const T *al, const T *a, const int *lda, const T *x, const int *ix, const T *be, T *y, const int *iy) {      \
        PRE if (*n > 0) { mat(a, sizeof(T), *n, *n, *lda, false, PC); vecr(x, sizeof(T), *n, *ix, false, PC); vecr(y, sizeof(T), *n, *iy, true, PC); }           \
        MID __real_##P##_(u, n, al, a, lda, x, ix, be, y, iy);                                                                                                   \
        POST                                                                                                                                                    \
    }
SYMV(dsymv, double)
SYMV(zhemv, Z)
SYMV(zsymv, Z)
#define GETRF(P, T)                                                                                                                   \
    void __real_##P##getrf_(const int *, const int *, T *, const int *, int *, int *);                                                \
    void __wrap_##P##getrf_(const int *m, const int *n, T *a, const int *lda, int *ip, int *info) {                                   \
        PRE mat(a, sizeof(T), *m, *n, *lda, true, PC); vecr(ip, 4, std::min(*m, *n), 1, true, PC);                                    \
        MID __real_##P##getrf_(m, n, a, lda, ip, info);                                                                               \
        POST                                                                                                                          \
    }                                                                                                                                 \
    void __real_##P##getrs_(const char *, const int *, const int *, const T *, const int *, const int *, T *, const int *, int *);    \
    void __wrap_##P##getrs_(const char *t, const int *n, const int *nr, const T *a, const int *lda, const int *ip, T *b, const int *ldb, int *info) { \
        PRE mat(a, sizeof(T), *n, *n, *lda, false, PC); vecr(ip, 4, *n, 1, false, PC); mat(b, sizeof(T), *n, *nr, *ldb, true, PC);    \
        MID __real_##P##getrs_(t, n, nr, a, lda, ip, b, ldb, info);                                                                   \
        POST                                                                                                                          \
    }                                                                                                                                 \
    void __real_##P##potrf_(const char *, const int *, T *, const int *, int *);                                                      \
    void __wrap_##P##potrf_(const char *u, const int *n, T *a, const int *lda, int *info) {                                           \
        PRE mat(a, sizeof(T), *n, *n, *lda, true, PC);                                                                                \
        MID __real_##P##potrf_(u, n, a, lda, info);                                                                                   \
        POST                                                                                                                          \
    }                                                                                                                                 \
    void __real_##P##potrs_(const char *, const int *, const int *, const T *, const int *, T *, const int *, int *);                 \
    void __wrap_##P##potrs_(const char *u, const int *n, const int *nr, const T *a, const int *lda, T *b, const int *ldb, int *info) { \
        PRE mat(a, sizeof(T), *n, *n, *lda, false, PC); mat(b, sizeof(T), *n, *nr, *ldb, true, PC);                                   \
        MID __real_##P##potrs_(u, n, nr, a, lda, b, ldb, info);                                                                       \
        POST                                                                                                                          \
    }
GETRF(d, double)
GETRF(z, Z)
// BLAS and LAPACK refuse an argument: the reference implementation would end the process here.
void xerbla_(const char *name, const int *info, size_t len) {
    SimScope ss;
    std::string n(name, len);
    while (!n.empty() && (n.back() == ' ' || n.back() == 0)) n.pop_back();
    out_violation("illegal-argument", context(), "argument " + std::to_string(*info) + " of " + n + " has an illegal value");
}
}
