// Workload generation and reference computations shared by the drivers.
// Everything here runs outside the simulated ("live") code unless it is a callback of the library.
#pragma once
#include "sim.h"
#include <mpi.h>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#ifdef _OPENMP
#    include <omp.h>
#endif
#include <htool/htool.hpp>

namespace drv {
using sim::Case;
using sim::Live;
using sim::Rng;
using std::string;
using std::vector;
using Cplx = std::complex<double>;
using htool::Cluster;
using htool::HMatrix;
using htool::Matrix;

template <class T>
struct is_cplx : std::false_type {};
template <class R>
struct is_cplx<std::complex<R>> : std::true_type {};
inline double conj_(double x) { return x; }
inline Cplx conj_(Cplx x) { return std::conj(x); }
inline float conj_(float x) { return x; }
inline std::complex<float> conj_(std::complex<float> x) { return std::conj(x); }
template <class T>
using RealOf = htool::underlying_type<T>;
template <class T>
using DoubleOf = typename std::conditional<is_cplx<T>::value, Cplx, double>::type;
// rounding of T relative to double, for tolerances
template <class T>
constexpr double ulps() { return (double)std::numeric_limits<RealOf<T>>::epsilon() / std::numeric_limits<double>::epsilon(); }
template <class T>
constexpr double tiny() { return ulps<T>() > 1 ? 1e-35 : 1e-290; }
template <class T>
T make(double re, double im);
template <>
inline double make<double>(double re, double) { return re; }
template <>
inline Cplx make<Cplx>(double re, double im) { return Cplx(re, im); }
template <>
inline float make<float>(double re, double) { return (float)re; }
template <>
inline std::complex<float> make<std::complex<float>>(double re, double im) { return std::complex<float>((float)re, (float)im); }
template <class... A>
string cat(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    int d[] = {0, ((void)(o << a), 0)...};
    (void)d;
    return o.str();
}
// Reported values are texts: counts exactly, real numbers up to their last digit (six after the point).
inline bool same_info(const string &got, const string &want) {
    if (got == want) return true;
    if (got.find('.') == string::npos || want.find('.') == string::npos) return false;
    char *e = nullptr, *f = nullptr;
    double x = strtod(got.c_str(), &e), y = strtod(want.c_str(), &f);
    return e != got.c_str() && !*e && !*f && std::abs(x - y) <= 1.5e-6 + 1e-12 * std::abs(y);
}
template <class T>
bool bits_equal(const T *a, const T *b, size_t n) { return n == 0 || memcmp(a, b, n * sizeof(T)) == 0; }

// ---------------------------------------------------------------- dense reference matrices (column major)
template <class T>
struct Dense {
    int m = 0, n = 0;
    vector<T> a;
    Dense() {}
    Dense(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, T(0)) {}
    T &operator()(int i, int j) { return a[i + (size_t)m * j]; }
    const T &operator()(int i, int j) const { return a[i + (size_t)m * j]; }
};
template <class T>
double frob(const Dense<T> &a) {
    double s = 0;
    for (auto &x : a.a) s += std::norm(x);
    return std::sqrt(s);
}
template <class T>
double diff(const Dense<T> &a, const Dense<T> &b) {
    double s = 0;
    for (size_t i = 0; i < a.a.size(); i++) s += std::norm(a.a[i] - b.a[i]);
    return std::sqrt(s);
}
template <class T>
bool finite(const T *x, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (!std::isfinite(std::abs(x[i]))) return false;
    return true;
}
// op(A)(i,j)
template <class T>
T opel(char t, const Dense<T> &A, int i, int j) { return t == 'N' ? A(i, j) : t == 'T' ? A(j, i) : conj_(A(j, i)); }

// ---------------------------------------------------------------- geometry
inline double hash01(uint64_t a, uint64_t b, uint64_t c) { return (sim::mix(sim::mix(a + 1, b + 0x1234567), c + 77) >> 11) * (1.0 / 9007199254740992.0); }

enum { GEOMS = 9 };
inline vector<double> make_points(int kind, int dim, int n, uint64_t seed, double shift) {
    Rng r(seed);
    vector<double> x((size_t)dim * n);
    for (int i = 0; i < n; i++) {
        double p[3] = {0, 0, 0};
        double t    = 2 * M_PI * r.uniform(), rho = std::sqrt(r.uniform()), z = r.uniform();
        switch (kind) {
        case 0: p[0] = rho * std::cos(t), p[1] = rho * std::sin(t), p[2] = 0; break;               // disk
        case 1: p[0] = rho * std::cos(t), p[1] = rho * std::sin(t), p[2] = z; break;               // ball-like
        case 2: p[0] = i * 1.0 / n, p[1] = 0.1 * p[0], p[2] = 0; break;                            // regular line
        case 3: p[0] = 10 * std::cos(t), p[1] = std::sin(t), p[2] = 0.2 * z; break;                // ellipse
        case 4: p[0] = (i % 3) * 5 + 0.1 * rho, p[1] = (i % 2) * 3 + 0.1 * z, p[2] = 0.1 * t; break; // clusters
        case 5: p[0] = std::floor(4 * r.uniform()), p[1] = std::floor(3 * r.uniform()), p[2] = 0; break; // coincident points
        case 6: p[0] = -5 - rho, p[1] = -3 * z, p[2] = -1 - t; break;                              // negative coordinates
        case 7: p[0] = i / 8, p[1] = i % 8, p[2] = (i % 5); break;                                 // grid
        default: p[0] = r.uniform() * r.uniform() * r.uniform() * 100, p[1] = z, p[2] = rho; break; // graded
        }
        p[dim - 1] += shift;
        for (int d = 0; d < dim; d++) x[(size_t)dim * i + d] = p[d];
    }
    return x;
}

// ---------------------------------------------------------------- operators
enum { K_SMOOTH,
       K_GAUSS,
       K_OSC,
       K_RANDOM,
       K_COMPACT,
       K_CONST,
       K_SEPARABLE,
       K_ZERO,
       KERNELS };
struct KernelSpec {
    int kind       = 0;
    char sym       = 'N'; // N, S, H
    uint64_t seed  = 0;
    double shift   = 0; // added on the diagonal
    bool same      = true;
    double scale   = 1;
    bool weights   = true;
    bool smooth() const { return kind == K_SMOOTH || kind == K_CONST; }
};
template <class T>
T kernel(const KernelSpec &k, int dim, const double *x, const double *y, int i, int j) {
    double r2 = 0, d = 0;
    for (int p = 0; p < dim; p++) r2 += (x[p] - y[p]) * (x[p] - y[p]), d += x[p] * y[p];
    double r = std::sqrt(r2), re = 0, im = 0;
    switch (k.kind) {
    case K_SMOOTH: re = 1 / (0.2 + r); break;
    case K_GAUSS: re = std::exp(-0.3 * r2); break;
    case K_OSC: re = std::cos(6 * r) / (0.3 + r), im = std::sin(6 * r) / (0.3 + r); break;
    case K_RANDOM: {
        int a = i, b = j;
        if (k.sym != 'N' && a > b) std::swap(a, b);
        re = 2 * hash01(k.seed, a, b) - 1;
        im = 2 * hash01(k.seed + 99, a, b) - 1;
        break;
    }
    case K_COMPACT: re = r < 0.8 ? (0.8 - r) * (0.8 - r) : 0; break;
    case K_CONST: re = 1.5; break;
    case K_SEPARABLE: re = 1 + d; break;
    default: break;
    }
    T v;
    if (!is_cplx<T>::value) {
        v = make<T>(re, 0);
    } else if (k.sym == 'H') {
        v = make<T>(re, 0);
        if (k.weights) { // a phase conj(p_i) p_j
            double a = 3 * hash01(k.seed, i, 5), b = 3 * hash01(k.seed, j, 5);
            v        = v * make<T>(std::cos(b - a), std::sin(b - a));
            if (i == j) v = make<T>(re, 0);
            if (i > j) v = conj_(make<T>(re, 0) * make<T>(std::cos(a - b), std::sin(a - b)));
        }
        if (k.kind == K_RANDOM && i != j) v = i < j ? make<T>(re, im) : make<T>(re, -im);
    } else {
        v = make<T>(re, im == 0 ? 0.3 * re : im);
    }
    if (k.weights && k.sym != 'H') {
        double a, b;
        if (k.sym == 'N')
            a = 0.5 + hash01(k.seed, i, 1), b = 0.5 + hash01(k.seed, j, 2);
        else {
            a = 0.5 + hash01(k.seed, i, 1), b = 0.5 + hash01(k.seed, j, 1);
            if (i > j) std::swap(a, b);
        }
        v = v * T(a * b);
    }
    v = v * T(k.scale);
    if (k.same && i == j) v = v + T(k.shift);
    return v;
}

inline double kernel_scale(int64_t k) { // units of the kernel
    static const double s[] = {1, 1e6, 1e-6, 1e12, 1e-9, 1e-12, 1e-15, 1e-18};
    return s[k & 7];
}
// User-side generator: stateless, may be preempted inside the callback.
template <class T>
class Gen : public htool::VirtualGenerator<T> {
  public:
    KernelSpec k;
    int dim             = 2;
    const double *xt    = nullptr, *xs = nullptr;
    bool points         = false;
    mutable int64_t calls = 0;
    int64_t throw_at    = -1; // the callback fails there
    T entry(int i, int j) const { return kernel<T>(k, dim, xt + (size_t)dim * i, xs + (size_t)dim * j, i, j); }
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        {
            sim::Quiet q;
            int64_t c = calls++;
            if (throw_at >= 0 && c == throw_at) throw std::runtime_error("user callback failed");
        }
        if (points) sim::point("generator");
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = entry(rows[i], cols[j]);
        if (points) sim::point("generator end");
    }
};
template <class T>
class DenseGen : public htool::VirtualDenseBlocksGenerator<T> {
  public:
    const Gen<T> &g;
    const int *tp, *sp;
    mutable int64_t calls = 0, blocks = 0;
    DenseGen(const Gen<T> &g_, const int *tp_, const int *sp_) : g(g_), tp(tp_), sp(sp_) {}
    void copy_dense_blocks(const vector<int> &M, const vector<int> &N, const vector<int> &rows, const vector<int> &cols, vector<T *> &ptr) const override {
        {
            sim::Quiet q;
            calls++;
            blocks += M.size();
        }
        for (size_t b = 0; b < M.size(); b++)
            for (int j = 0; j < N[b]; j++)
                for (int i = 0; i < M[b]; i++) ptr[b][i + (size_t)M[b] * j] = g.entry(tp[rows[b] + i], sp[cols[b] + j]);
    }
};
// User-side admissibility: by hash of the pair, for clusters that are disjoint.
template <class R>
class HashAdmissibility : public htool::VirtualAdmissibilityCondition<R> {
  public:
    uint64_t seed;
    int percent;
    bool same;
    HashAdmissibility(uint64_t s, int p, bool same_) : seed(s), percent(p), same(same_) {}
    bool ComputeAdmissibility(const Cluster<R> &t, const Cluster<R> &s, double) const override {
        int to = t.get_offset(), te = to + t.get_size(), so = s.get_offset(), se = so + s.get_size();
        if (same && to < se && so < te) return false;
        int a = to * 1000 + t.get_size(), b = so * 1000 + s.get_size();
        if (same && a > b) std::swap(a, b);
        return (int)(100 * hash01(seed, a, b)) < percent;
    }
};

// ---------------------------------------------------------------- a problem: points, clusters, generator
struct ClusterOpts {
    int nchild = 2, P = 2, given = 0, mcs = 10, split = 0, dir = 0, weights = 0;
};
inline void gen_problem(Case &c, Rng &r, int maxn, int maxP) {
    c.fix("wseed", (int64_t)(r.next() >> 2));
    c.set("cplx", r.chance(0.45), 0);
#ifdef DRV_SINGLE
    c.set("single", r.chance(0.15), 0);
#endif
    c.set("dim", 2 + (int)r.below(2), 2);
    c.set("geom", r.below(GEOMS), 0);
    int n = r.chance(0.12) ? 1 + r.below(12) : r.chance(0.5) ? 12 + r.below(std::max(1, maxn / 2 - 12)) : 12 + r.below(std::max(1, maxn - 12));
    c.set("n", n, 1);
    c.set("same", r.chance(0.6), 1);
    int m = r.chance(0.15) ? 1 + r.below(12) : 12 + r.below(std::max(1, maxn - 12));
    c.set("m", m, 1);
    c.set("shiftx", r.below(4), 0);
    c.set("kern", r.chance(0.5) ? (int)r.below(2) : (int)r.below(KERNELS), 0);
    c.set("weights", r.chance(0.7), 0);
    c.set("nchild", r.chance(0.6) ? 2 : 2 + (int)r.below(3), 2);
    c.set("P", maxP > 1 && r.chance(0.7) ? 1 + (int)r.below(maxP) : 2, 1);
    c.set("given", r.chance(0.4), 0);
    c.set("mcs", r.chance(0.3) ? 1 + r.below(3) : 2 + r.below(8), 1);
    c.set("split", r.chance(0.3), 0);
    c.set("dir", r.chance(0.3), 0);
    c.set("cweights", r.chance(0.2), 0);
    c.set("gpoint", r.chance(0.3), 0);
    c.set("snchild", r.chance(0.7) ? 0 : 2 + (int)r.below(4), 0);
    c.set("sP", maxP > 1 && r.chance(0.3) ? 1 + (int)r.below(maxP + 3) : 0, 0);
    c.set("sgiven", r.chance(0.5), 0);
}
inline void gen_builder(Case &c, Rng &r) {
    c.set("epsx", 1 + r.below(9), 3);
    c.set("eta", r.chance(0.5) ? 100 : r.chance(0.5) ? 1 + r.below(30) : 1000, 100);
    c.set("sym", r.chance(0.5) ? 0 : 1 + r.below(2), 0);
    c.set("uplo", r.below(2), 0);
    c.set("comp", r.below(5), 4);
    c.set("rr", r.chance(0.8) ? -1 : 1 + (int)r.below(6), -1);
    c.set("mtd", r.chance(0.8) ? 0 : r.below(4), 0);
    c.set("msd", r.chance(0.8) ? 0 : r.below(4), 0);
    c.set("cons", r.chance(0.75), 1);
    c.set("dbg", r.chance(0.2), 0);
    c.set("adm", r.chance(0.25) ? 20 + (int)r.below(80) : 0, 0);
}
// number of partition parts the cluster builder can honour for n points
inline bool partition_ok(int n, int nchild, int P, int mcs) {
    if (P < nchild) return n / P > mcs;
    int depth = (int)std::floor(std::log(P) / std::log(nchild));
    int extra = P - (int)std::pow(nchild, depth);
    double sz = n;
    for (int d = 0; d < depth; d++) {
        int ch = nchild + (d == depth - 1 ? extra : 0);
        sz     = (int)sz / ch;
        if (sz <= mcs) return false;
    }
    return true;
}
// the same numbers in the precision of the coordinates
template <class R>
struct RealCopy {
    vector<R> v;
    const R *p;
    RealCopy(const double *x, size_t n) : p(nullptr) {
        if (!x) return;
        sim::Quiet q; // the user's
        v.assign(x, x + n);
        p = v.data();
    }
};
template <>
struct RealCopy<double> {
    const double *p;
    RealCopy(const double *x, size_t) : p(x) {}
};
template <class T>
struct Problem {
    int dim, n, m, P;
    bool same;
    vector<double> xt, xs_, wt, ws, rt, rs;
    std::shared_ptr<Cluster<RealOf<T>>> ct, cs;
    Gen<T> gen;
    KernelSpec k;
    int *live_sink = nullptr;
    const Cluster<RealOf<T>> &t() const { return *ct; }
    const Cluster<RealOf<T>> &s() const { return same ? *ct : *cs; }
    const vector<double> &xs() const { return same ? xt : xs_; }
    vector<int> part_t, part_s;
    ClusterOpts co, cos; // of the target and of the source clusters
    static char symm(const Case &c) {
        if (!c["same"]) return 'N';
        int s = c["sym"];
        if (s == 2 && !is_cplx<T>::value) s = 1;
        return s == 0 ? 'N' : s == 1 ? 'S' : 'H';
    }
    static vector<int> make_partition(int n, int P, uint64_t seed) {
        Rng r(seed);
        // P parts of at least one point each
        vector<int> cut = {0, n};
        vector<int> all;
        for (int i = 1; i < n; i++) all.push_back(i);
        for (int i = (int)all.size() - 1; i > 0; i--) std::swap(all[i], all[r.below(i + 1)]);
        if (r.chance(0.5))
            for (int p = 1; p < P; p++) cut.push_back((int)((int64_t)n * p / P));
        else
            for (int p = 0; p < P - 1; p++) cut.push_back(all[p]);
        std::sort(cut.begin(), cut.end());
        vector<int> part;
        for (int p = 0; p < P; p++) part.push_back(cut[p]), part.push_back(cut[p + 1] - cut[p]);
        return part;
    }
    static std::shared_ptr<Cluster<RealOf<T>>> make_cluster(const ClusterOpts &co, int n, int dim, const double *x, const double *radii, const double *w, const vector<int> &part) {
        htool::ClusterTreeBuilder<RealOf<T>> b;
        b.set_minclustersize(co.mcs);
        if (co.dir) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<RealOf<T>>>());
        if (co.split) b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<RealOf<T>>>());
        return std::make_shared<Cluster<RealOf<T>>>(b.create_cluster_tree(n, dim, RealCopy<RealOf<T>>(x, (size_t)n * dim).p, RealCopy<RealOf<T>>(radii, n).p, RealCopy<RealOf<T>>(w, n).p, co.nchild, co.P, co.given ? part.data() : nullptr));
    }
    // forced parameters override the case's: needP > 0 demands exactly that many parts
    explicit Problem(const Case &c, int needP = 0) {
        dim  = c["dim"] == 3 ? 3 : 2;
        n    = std::max<int64_t>(1, c["n"]);
        m    = std::max<int64_t>(1, c["m"]);
        same = c["same"];
        P    = needP ? needP : std::max<int64_t>(1, c["P"]);
        if (needP) n = std::max(n, needP), m = std::max(m, needP);
        if (same) m = n;
        co.nchild  = std::max<int64_t>(2, c["nchild"]);
        co.given   = c["given"] != 0;
        co.mcs     = std::max<int64_t>(1, c["mcs"]);
        co.split   = c["split"];
        co.dir     = c["dir"];
        int smallest = std::min(n, m);
        if (!co.given) {
            if (needP) {
                while (co.mcs > 1 && !partition_ok(smallest, co.nchild, P, co.mcs)) co.mcs--;
                if (!partition_ok(smallest, co.nchild, P, co.mcs)) co.given = 1;
            } else {
                while (P > 1 && !partition_ok(smallest, co.nchild, P, co.mcs)) P--;
                if (!partition_ok(smallest, co.nchild, P, co.mcs)) co.given = 1, P = 1;
            }
        }
        P    = std::min(P, smallest);
        co.P = P;
        // another shape of tree for the source, and where nothing forces it another partition
        cos        = co;
        cos.nchild = c["snchild"] >= 2 ? (int)c["snchild"] : co.nchild;
        if (!needP && c["sP"] > 0) cos.P = std::min<int64_t>(c["sP"], m), cos.given = c["sgiven"] != 0;
        if (!cos.given && !partition_ok(m, cos.nchild, cos.P, cos.mcs)) cos.given = 1;
        uint64_t seed = (uint64_t)c["wseed"];
        int geom      = c["geom"];
        xt            = make_points(geom, dim, n, seed + 1, 0);
        if (!same) xs_ = make_points(geom, dim, m, seed + 2, 0.7 * c["shiftx"]);
        if (c["cweights"]) {
            Rng r(seed + 5);
            for (int i = 0; i < n; i++) wt.push_back(0.5 + r.uniform()), rt.push_back(0.01 * r.uniform());
            for (int i = 0; i < m; i++) ws.push_back(0.5 + r.uniform()), rs.push_back(0.01 * r.uniform());
        }
        part_t = make_partition(n, P, seed + 3);
        part_s = make_partition(m, cos.P, seed + 4);
        clusters();
        // A geometric splitting may leave too few points to define the parts: the library refuses this with an error.
        if (co.split && !(honoured(*ct, P) && (same || honoured(*cs, cos.P)))) {
            co.split = cos.split = 0;
            clusters();
        }
        k.kind    = c["kern"];
        k.sym     = symm(c);
        k.seed    = seed;
        k.same    = same;
        k.shift   = c["dshift"];
        k.weights = c["weights"];
        k.scale   = kernel_scale(ulps<T>() > 1 ? c["kscale"] % 3 : c["kscale"]);
        gen.k     = k;
        gen.dim   = dim;
        gen.xt    = xt.data();
        gen.xs    = xs().data();
        gen.points = c["gpoint"];
        check_cluster(*ct, n, P);
        if (!same) check_cluster(*cs, m, cos.P);
    }
    static bool honoured(const Cluster<RealOf<T>> &c, int P) {
        auto &parts = c.get_clusters_on_partition();
        if ((int)parts.size() != P) return false;
        for (auto p : parts)
            if (!p) return false;
        return true;
    }
    void clusters() {
        ct     = make_cluster(co, n, dim, xt.data(), rt.empty() ? nullptr : rt.data(), wt.empty() ? nullptr : wt.data(), part_t);
        if (!same) cs = make_cluster(cos, m, dim, xs_.data(), rs.empty() ? nullptr : rs.data(), ws.empty() ? nullptr : ws.data(), part_s);
    }
    static void check_cluster(const Cluster<RealOf<T>> &c, int n, int P) {
        auto &parts = c.get_clusters_on_partition();
        if ((int)parts.size() != P) sim::violate("clusters", "partition size", cat("asked for ", P, " parts, got ", parts.size()));
        int o = 0;
        for (auto p : parts) {
            if (!p || p->get_offset() != o) sim::violate("clusters", "partition tiling", "the parts of the partition do not tile the index set");
            o += p->get_size();
        }
        if (o != n) sim::violate("clusters", "partition tiling", "the parts of the partition do not tile the index set");
        vector<char> seen(n, 0);
        for (int i : c.get_permutation()) {
            if (i < 0 || i >= n || seen[i]) sim::violate("clusters", "permutation", "the permutation is not a bijection");
            seen[i] = 1;
        }
    }
    // exact entries in cluster numbering
    Dense<T> exact() const {
        Dense<T> a(n, m);
        const auto &tp = t().get_permutation(), &sp = s().get_permutation();
        for (int j = 0; j < m; j++)
            for (int i = 0; i < n; i++) a(i, j) = gen.entry(tp[i], sp[j]);
        return a;
    }
    Dense<T> exact_user() const {
        Dense<T> a(n, m);
        for (int j = 0; j < m; j++)
            for (int i = 0; i < n; i++) a(i, j) = gen.entry(i, j);
        return a;
    }
};
struct BuildOpts {
    double eps = 1e-3, eta = 10;
    char sym = 'N', uplo = 'N';
    int comp = 4, rr = -1, mtd = 0, msd = 0, adm = 0;
    bool cons = true, dbg = false, admdiag = false; // admdiag: the user also admits blocks on the diagonal
    int tpart = -1, spart = -1;
    template <class T>
    static BuildOpts from(const Case &c, const Problem<T> &p) {
        BuildOpts o;
        o.eps  = std::pow(10., -(double)(ulps<T>() > 1 ? std::min<int64_t>(5, c["epsx"]) : c["epsx"]));
        o.eta  = std::max<int64_t>(1, c["eta"]) * 0.1;
        o.sym  = p.k.sym;
        o.uplo = o.sym == 'N' ? 'N' : c["uplo"] ? 'U' : 'L';
        o.comp = c["comp"];
        o.rr   = c["rr"] == 0 ? -1 : c["rr"];
        o.mtd  = c["mtd"];
        o.msd  = c["msd"];
        o.cons = c["cons"] || o.sym != 'N';
        o.dbg  = c["dbg"];
        o.adm  = c["adm"];
        o.admdiag = c["admdiag"] && o.sym == 'N';
        return o;
    }
};
template <class T>
std::shared_ptr<htool::VirtualLowRankGenerator<T, RealOf<T>>> make_compressor(int comp) {
    switch (comp) {
    case 0: return std::make_shared<htool::SVD<T, RealOf<T>>>();
    case 1: return std::make_shared<htool::fullACA<T, RealOf<T>>>();
    case 2: return std::make_shared<htool::partialACA<T, RealOf<T>>>();
    case 3: return std::make_shared<htool::sympartialACA<T, RealOf<T>>>();
    }
    return nullptr;
}
template <class T>
void setup_builder(htool::HMatrixTreeBuilder<T, RealOf<T>> &b, const BuildOpts &o, const Problem<T> &p, uint64_t seed) {
    if (auto g = make_compressor<T>(o.comp)) b.set_low_rank_generator(g);
    if (o.mtd) b.set_minimal_target_depth(o.mtd);
    if (o.msd) b.set_minimal_source_depth(o.msd);
    if (!o.cons) b.set_block_tree_consistency(false);
    if (o.adm) b.set_admissibility_condition(std::make_shared<HashAdmissibility<RealOf<T>>>(seed, o.adm, p.same && !o.admdiag));
    if (o.dbg) b.set_dense_blocks_generator(std::make_shared<DenseGen<T>>(p.gen, p.t().get_permutation().data(), p.s().get_permutation().data()));
}
// all settings of a builder that was used with other ones
template <class T>
void change_builder(htool::HMatrixTreeBuilder<T, RealOf<T>> &b, const BuildOpts &o, const Problem<T> &p, uint64_t seed) {
    auto g = make_compressor<T>(o.comp);
    b.set_low_rank_generator(g ? g : make_compressor<T>(3));
    b.set_minimal_target_depth(o.mtd), b.set_minimal_source_depth(o.msd);
    b.set_block_tree_consistency(o.cons);
    if (o.adm)
        b.set_admissibility_condition(std::make_shared<HashAdmissibility<RealOf<T>>>(seed, o.adm, p.same && !o.admdiag));
    else
        b.set_admissibility_condition(std::make_shared<htool::RjasanowSteinbach<RealOf<T>>>());
    b.set_dense_blocks_generator(o.dbg ? std::make_shared<DenseGen<T>>(p.gen, p.t().get_permutation().data(), p.s().get_permutation().data()) : nullptr);
}
template <class T>
htool::HMatrixTreeBuilder<T, RealOf<T>> make_builder(const BuildOpts &o, const Problem<T> &p, uint64_t seed) {
    htool::HMatrixTreeBuilder<T, RealOf<T>> b(p.t(), p.s(), o.eps, o.eta, o.sym, o.uplo, o.rr, o.tpart, o.spart);
    setup_builder(b, o, p, seed);
    return b;
}

// ---------------------------------------------------------------- reading an H-matrix
template <class T>
struct Leaf {
    const HMatrix<T, RealOf<T>> *h;
    bool mirrored; // also stands for its transpose
    int ro, co, nr, nc;
};
template <class T>
void collect(const HMatrix<T, RealOf<T>> &h, bool anc, vector<Leaf<T>> &out) {
    bool s = anc || h.get_symmetry() != 'N';
    if (h.get_children().empty()) {
        Leaf<T> l{&h, false, h.get_target_cluster().get_offset(), h.get_source_cluster().get_offset(), h.get_target_cluster().get_size(), h.get_source_cluster().get_size()};
        l.mirrored = s && l.ro != l.co;
        out.push_back(l);
        return;
    }
    for (auto &c : h.get_children()) collect(*c, s, out);
}
template <class T>
Dense<T> leaf_dense(const Leaf<T> &l) {
    Dense<T> a(l.nr, l.nc);
    if (l.h->is_dense()) {
        auto *d = l.h->get_dense_data();
        if (!d || d->nb_rows() != l.nr || d->nb_cols() != l.nc) sim::violate("structure", "dense leaf shape", "a dense block has no data of its size");
        for (int j = 0; j < l.nc; j++)
            for (int i = 0; i < l.nr; i++) a(i, j) = (*d)(i, j);
    } else if (l.h->is_low_rank()) {
        auto *d = l.h->get_low_rank_data();
        if (!d || d->get_U().nb_rows() != l.nr || d->get_V().nb_cols() != l.nc || d->get_U().nb_cols() != d->get_V().nb_rows()) sim::violate("structure", "low-rank leaf shape", cat("a low-rank block has no data of its size: block ", l.nr, "x", l.nc, d ? cat(", U ", d->get_U().nb_rows(), "x", d->get_U().nb_cols(), ", V ", d->get_V().nb_rows(), "x", d->get_V().nb_cols()) : string(", no data")));
        for (int q = 0; q < d->rank_of(); q++)
            for (int j = 0; j < l.nc; j++)
                for (int i = 0; i < l.nr; i++) a(i, j) += d->get_U()(i, q) * d->get_V()(q, j);
    } else
        sim::violate("structure", "leaf without data", "a leaf is neither dense nor low rank");
    return a;
}
// |U||V| bound, for rounding-error bounds of products
template <class T>
Dense<double> leaf_abs(const Leaf<T> &l) {
    Dense<double> a(l.nr, l.nc);
    if (l.h->is_dense()) {
        for (int j = 0; j < l.nc; j++)
            for (int i = 0; i < l.nr; i++) a(i, j) = std::abs((*l.h->get_dense_data())(i, j));
    } else {
        auto *d = l.h->get_low_rank_data();
        for (int q = 0; q < d->rank_of(); q++)
            for (int j = 0; j < l.nc; j++)
                for (int i = 0; i < l.nr; i++) a(i, j) += std::abs(d->get_U()(i, q)) * std::abs(d->get_V()(q, j));
    }
    return a;
}
template <class T>
struct Ref { // what the H-matrix stands for, in cluster numbering local to the H-matrix
    Dense<T> A;
    Dense<double> B; // entrywise magnitude bound
    vector<Leaf<T>> leaves;
    Dense<int> cover;
};
template <class T>
Ref<T> reference(const HMatrix<T, RealOf<T>> &h, char sym, char uplo) {
    Ref<T> r;
    collect(h, false, r.leaves);
    int ro = h.get_target_cluster().get_offset(), co = h.get_source_cluster().get_offset(), nr = h.get_target_cluster().get_size(), nc = h.get_source_cluster().get_size();
    r.A     = Dense<T>(nr, nc);
    r.B     = Dense<double>(nr, nc);
    r.cover = Dense<int>(nr, nc);
    for (auto &l : r.leaves) {
        Dense<T> a      = leaf_dense(l);
        Dense<double> b = leaf_abs(l);
        if (l.ro < ro || l.ro + l.nr > ro + nr || l.co < co || l.co + l.nc > co + nc) sim::violate("structure", "block outside", "a block lies outside of its operator");
        for (int j = 0; j < l.nc; j++)
            for (int i = 0; i < l.nr; i++) {
                int I = l.ro - ro + i, J = l.co - co + j;
                T v = a(i, j);
                if (l.h->get_symmetry() != 'N' && l.h->is_dense()) { // only one triangle counts
                    bool lower = uplo == 'L';
                    if ((lower && i < j) || (!lower && i > j)) v = sym == 'H' ? conj_(a(j, i)) : a(j, i);
                }
                r.A(I, J) += v;
                r.B(I, J) += b(i, j);
                r.cover(I, J)++;
                if (l.mirrored) {
                    int I2 = l.co + j - ro, J2 = l.ro + i - co;
                    if (I2 < 0 || I2 >= nr || J2 < 0 || J2 >= nc) sim::violate("structure", "mirrored block outside", "the transpose of a block lies outside of its operator");
                    r.A(I2, J2) += sym == 'H' ? conj_(a(i, j)) : a(i, j);
                    r.B(I2, J2) += b(i, j);
                    r.cover(I2, J2)++;
                }
            }
    }
    return r;
}
template <class T>
void check_cover(const Ref<T> &r) {
    for (int j = 0; j < r.cover.n; j++)
        for (int i = 0; i < r.cover.m; i++)
            if (r.cover(i, j) != 1) sim::violate("structure", r.cover(i, j) ? "entry covered twice" : "entry not covered", cat("entry (", i, ",", j, ") of the operator is held by ", r.cover(i, j), " blocks"));
}

// ---------------------------------------------------------------- comparing vectors
// |got - want| <= tol * bound, entrywise
template <class T>
void compare(const string &sig, const T *got, const T *want, const double *bound, size_t n, double tol = 1e-12) {
    for (size_t i = 0; i < n; i++) {
        double e = std::abs(got[i] - want[i]);
        if (!(e <= ulps<T>() * tol * bound[i] + tiny<T>())) sim::violate_unless_known("wrong-result", sig, cat(sig, ": entry ", i, " of ", n, " is ", got[i], ", expected ", want[i], " (difference ", e, ", allowed ", ulps<T>() * tol * bound[i], ")"));
    }
}
template <class T>
vector<T> random_vec(Rng &r, size_t n) {
    vector<T> v(n);
    for (auto &x : v) x = make<T>(r.sym(), r.sym());
    return v;
}
template <class T>
T random_scalar(Rng &r, bool benign_zero = true) {
    switch (r.below(6)) {
    case 0: return T(1);
    case 1: return benign_zero ? T(0) : T(1);
    case 2: return T(-1);
    default: return make<T>(r.sym() * 2, r.sym() * 2);
    }
}
// y = alpha op(A) x + beta y (dense reference), with bounds
template <class T>
void ref_gemv(char t, T alpha, const Ref<T> &r, const T *x, T beta, const T *y0, vector<T> &want, vector<double> &bound) {
    int mo = t == 'N' ? r.A.m : r.A.n, ni = t == 'N' ? r.A.n : r.A.m;
    want.assign(mo, T(0));
    bound.assign(mo, 0);
    for (int i = 0; i < mo; i++) {
        T s      = T(0);
        double b = 0;
        for (int j = 0; j < ni; j++) {
            s += opel(t, r.A, i, j) * x[j];
            b += (t == 'N' ? r.B(i, j) : r.B(j, i)) * std::abs(x[j]);
        }
        want[i]  = alpha * s + beta * y0[i];
        bound[i] = std::abs(alpha) * b + std::abs(beta * y0[i]);
    }
}
template <class F>
void dispatch(const Case &c, F f) {
#ifdef DRV_SINGLE
    if (c["single"] && c["cplx"])
        f(std::complex<float>());
    else if (c["single"])
        f(float());
    else
#endif
    if (c["cplx"])
        f(Cplx());
    else
        f(double());
}
// silence and capture std::cout while the library prints
struct CoutCapture {
    std::ostringstream o;
    std::streambuf *old;
    CoutCapture() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf(old); }
};
} // namespace drv
