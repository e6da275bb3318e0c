// Small dense and low-rank matrices: conversions, reference products, comparisons, and one operation under an allocation fault.
#pragma once
#include "common.hpp"
#include "faults.hpp"
namespace drv {
template <class T>
using LR = htool::LowRankMatrix<T, RealOf<T>>;

// ---------------------------------------------------------------- small dense helpers
template <class T>
Dense<T> dense_of(const Matrix<T> &a) {
    Dense<T> d(a.nb_rows(), a.nb_cols());
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) d(i, j) = a(i, j);
    return d;
}
template <class T>
Dense<T> dense_of(const LR<T> &l, int m, int n) {
    Dense<T> d(m, n);
    auto &U = l.get_U();
    auto &V = l.get_V();
    if (U.nb_cols() == 0 && V.nb_rows() == 0) return d;
    if (U.nb_rows() != m || V.nb_cols() != n || U.nb_cols() != V.nb_rows()) sim::violate("structure", "low-rank shape", cat("a low-rank result for a ", m, "x", n, " block has factors ", U.nb_rows(), "x", U.nb_cols(), " and ", V.nb_rows(), "x", V.nb_cols()));
    for (int q = 0; q < U.nb_cols(); q++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) d(i, j) += U(i, q) * V(q, j);
    return d;
}
template <class T>
Dense<T> dense_of(const HMatrix<T, RealOf<T>> &h) { return reference(h, 'N', 'N').A; }
template <class T>
Dense<T> op_of(char t, const Dense<T> &a) {
    Dense<T> d(t == 'N' ? a.m : a.n, t == 'N' ? a.n : a.m);
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) d(i, j) = opel(t, a, i, j);
    return d;
}
template <class T>
Dense<T> mul(const Dense<T> &a, const Dense<T> &b) {
    Dense<T> d(a.m, b.n);
    for (int j = 0; j < b.n; j++)
        for (int k = 0; k < a.n; k++) {
            T x = b(k, j);
            for (int i = 0; i < a.m; i++) d(i, j) += a(i, k) * x;
        }
    return d;
}
template <class T>
Matrix<T> matrix_of(const Dense<T> &d) {
    Matrix<T> a(d.m, d.n);
    for (int j = 0; j < d.n; j++)
        for (int i = 0; i < d.m; i++) a(i, j) = d(i, j);
    return a;
}
template <class T>
Dense<T> random_dense(Rng &r, int m, int n) {
    Dense<T> d(m, n);
    for (auto &x : d.a) x = make<T>(r.sym(), r.sym());
    return d;
}
template <class T>
LR<T> random_lr(Rng &r, int m, int n, double eps, bool zero_ok) {
    int k = r.chance(0.15) && zero_ok ? 0 : 1 + (int)r.below(5);
    k     = std::min(k, std::min(m, n));
    LR<T> l(eps);
    l.get_U() = matrix_of(random_dense<T>(r, m, k));
    l.get_V() = matrix_of(random_dense<T>(r, k, n));
    return l;
}
template <class T>
void nodes_of(const HMatrix<T, RealOf<T>> &h, vector<const HMatrix<T, RealOf<T>> *> &out) {
    out.push_back(&h);
    for (auto &c : h.get_children()) nodes_of(*c, out);
}
template <class T>
void check_close(const string &sig, const Dense<T> &got, const Dense<T> &want, double allowed) {
    if (got.m != want.m || got.n != want.n) sim::violate_unless_known("structure", sig, "the result has another shape");
    double e = diff(got, want);
    if (!(e <= allowed + tiny<T>())) sim::violate_unless_known("wrong-result", sig, cat(sig, ": the result differs from the dense one by ", e, " in norm (allowed ", allowed, ", norm of the result ", frob(want), ")"));
}

// One operation by one caller: prepared and judged outside of the simulated code.
template <class F>
bool attempt(int64_t fault, F f) { // false: the injected fault was reported
    if (fault) {
        sim::alloc_reset();
        sim::AllocPlan a;
        a.fail_at = fault <= 100 ? fault % 12 : fault;
        a.sticky  = fault % 3 == 0;
        sim::alloc_plan(a);
    }
    bool ok = true;
    try {
        Live l;
        f();
    } catch (const std::bad_alloc &) {
        ok = false;
    } catch (const std::exception &e) {
        sim::alloc_plan(sim::AllocPlan());
        sim::violate("exception", sim::context(), cat(sim::context(), ": unexpected exception ", e.what()));
    }
    sim::alloc_plan(sim::AllocPlan());
    if (!ok && !(fault && sim::alloc_fired())) sim::violate("exception", sim::context(), "an allocation is reported to have failed, but none did");
    if (fault && sim::alloc_fired()) sim::count("faults_alloc");
    return ok;
}

} // namespace drv
