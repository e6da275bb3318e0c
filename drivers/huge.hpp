// Blocks with more coefficients than an int can count: compressed entry by entry, never stored.
#pragma once
#include "common.hpp"
#include <array>
namespace drv {
template <class T>
struct HugeKernel : htool::VirtualInternalGenerator<T> { // sum of k random terms of decreasing sizes
    int m, n, k;
    double ratio;
    HugeKernel(int m_, int n_, int k_, double r_) : m(m_), n(n_), k(k_), ratio(r_) {}
    static double factor(int q, int i) {
        uint64_t h = ((uint64_t)q << 32 | (uint32_t)i) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29, h *= 0xbf58476d1ce4e5b9ull, h ^= h >> 32;
        return 2 * (double)(h >> 11) / (1ull << 53) - 1;
    }
    T entry(int i, int j) const {
        double f = 1, a = 0;
        for (int q = 0; q < k; q++, f *= ratio) a += f * factor(2 * q, i) * factor(2 * q + 1, j);
        return T(a);
    }
    void copy_submatrix(int M, int N, int ro, int co, T *p) const override {
        sim::Quiet quiet;
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) p[(size_t)j * M + i] = entry(ro + i, co + j);
    }
};
struct HugePair { // two distant sets of points, each one leaf
    int m, n;
    std::shared_ptr<Cluster<double>> t, s;
    static std::shared_ptr<Cluster<double>> leaf(int n, double at) {
        vector<double> x(2 * (size_t)n);
        for (int i = 0; i < n; i++) x[2 * i] = at + (double)i / n, x[2 * i + 1] = (double)(i % 7) / 7;
        ClusterOpts co;
        co.nchild = 2, co.P = 1, co.given = 1, co.mcs = 1 << 20, co.split = 0, co.dir = 0;
        return Problem<double>::make_cluster(co, n, 2, x.data(), nullptr, nullptr, {0, n});
    }
    explicit HugePair(Rng &r) {
        // the product is beyond 2^31, close to a multiple of 2^32 or anything
        static const int shapes[][2] = {{46341, 46341}, {65536, 65536}, {50000, 90000}, {65536, 65537}, {46400, 46400}, {131072, 32769}};
        auto &sh = shapes[r.below(6)];
        m = sh[0], n = sh[1];
        if (r.chance(0.5)) std::swap(m, n);
        if (r.chance(0.3)) m += r.below(3000), n += r.below(3000);
        t = leaf(m, 0), s = leaf(n, 40);
    }
};
template <class T>
void check_huge(const htool::LowRankMatrix<T, RealOf<T>> &l, const HugeKernel<T> &g, double tol, bool required, int req, Rng &r, const string &what) {
    int m = g.m, n = g.n, k = l.rank_of();
    string of = cat(what, " of a ", m, "x", n, " block of rank ", g.k, ", rank ", k);
    if (k == 0) sim::violate_unless_known("wrong-result", what + ": huge block refused", of + ": not compressed, although its factors take a tiny part of its memory");
    if (k == 0) return;
    if (l.get_U().nb_rows() != m || l.get_V().nb_cols() != n || l.get_V().nb_rows() != k) sim::violate("structure", what + ": shape of a huge block", of + ": the factors have other sizes");
    if (required ? k > req : k > g.k + 1) sim::violate_unless_known("wrong-result", what + ": rank of a huge block", of);
    if (!required || req >= g.k)
        for (int q = 0; q < 200; q++) {
            int i = r.below(m), j = r.below(n);
            T a   = T(0);
            for (int p = 0; p < k; p++) a += l.get_U()(i, p) * l.get_V()(p, j);
            if (!(std::abs(a - g.entry(i, j)) <= (required ? 1e-9 : tol) * g.k)) sim::violate_unless_known("wrong-result", what + ": coefficient of a huge block", cat(of, ": coefficient (", i, ",", j, ") is ", a, ", expected ", g.entry(i, j)));
        }
    double mem = (double)k * ((double)m + n) / ((double)m * n);
    if (std::abs(l.space_saving() - (1 - mem)) > 1e-12) sim::violate_unless_known("wrong-info", "space saving of a huge block", cat(of, ": the space saving is ", l.space_saving()));
    if (!(std::abs(l.compression_ratio() * mem - 1) <= 1e-12)) sim::violate_unless_known("wrong-info", "compression ratio of a huge block", cat(of, ": the compression ratio is ", l.compression_ratio()));
}
} // namespace drv
