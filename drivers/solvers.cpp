// Domain decomposition solvers on simulated MPI ranks with overlapping subdomains (D01), and the local solvers they use
// (D02). HPDDM is replaced by the stand-in HPDDM.hpp.
#include "common.hpp"
#include "faults.hpp"
#include "logcapture.hpp"
#include "densekit.hpp"
#define HTOOL_WITH_HPDDM
#include <htool/solvers/ddm.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
#include <htool/solvers/local_solvers/local_dense_solvers.hpp>
#include <htool/solvers/utility.hpp>
using namespace drv;

// |A x - b| of all right-hand sides, relative to |A||x| + |b|
template <class T>
static double residual(const Dense<T> &A, const T *x, const T *b, int mu) {
    double e = 0, nx = 0, nb = 0;
    for (int k = 0; k < mu; k++)
        for (int i = 0; i < A.m; i++) {
            T s = -b[i + (size_t)k * A.m];
            for (int j = 0; j < A.n; j++) s += A(i, j) * x[j + (size_t)k * A.n];
            e += std::norm(s), nb += std::norm(b[i + (size_t)k * A.m]);
        }
    for (size_t i = 0; i < (size_t)A.n * mu; i++) nx += std::norm(x[i]);
    double s = frob(A) * std::sqrt(nx) + std::sqrt(nb);
    return s > 0 ? std::sqrt(e) / s : std::sqrt(e);
}

// I + scaled kernel, diagonally dominant, in the user's numbering; Hermitian or symmetric if the kernel is
template <class T>
class DominantGen : public htool::VirtualGenerator<T> {
  public:
    Gen<T> g;
    double scale = 1;
    T entry(int i, int j) const { return g.entry(i, j) * T(scale) + T(i == j ? 1 : 0); }
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        if (g.points) sim::point("generator");
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = entry(rows[i], cols[j]);
    }
    void init(const Problem<T> &p, char sym, int dominance) {
        g         = p.gen;
        g.k.sym   = sym;
        g.k.shift = 0;
        if (g.k.kind == K_ZERO) g.k.kind = K_SMOOTH;
        double most = 1e-3;
        for (int i = 0; i < p.n; i++) {
            double s = 0, t = 0;
            for (int j = 0; j < p.n; j++) s += std::abs(g.entry(i, j)), t += std::abs(g.entry(j, i));
            most = std::max(most, std::max(s, t));
        }
        static const double f[] = {10, 3, 1.5, 1.2};
        scale                   = 1 / (most * f[dominance & 3]);
    }
};
template <class T>
static char symmetry_of(const Case &c) { return c["sym"] ? (is_cplx<T>::value ? 'H' : 'S') : 'N'; }

static void gen_base(Case &c, Rng &r, int tier, int maxn) {
    sim::gen_sched(c, r);
    gen_problem(c, r, tier ? 2 * maxn : maxn, 1);
    gen_builder(c, r);
    c.set("same", 1, 1), c.set("cons", 1, 1), c.set("mtd", 0, 0), c.set("msd", 0, 0), c.set("dbg", 0, 0), c.set("adm", 0, 0), c.set("rr", -1, -1), c.set("sym", r.below(2), 0);
    c.set("epsx", 3 + (int)r.below(7), 6);
    c.set("dominance", r.below(4), 0);
}

// ================================================================ D01
enum { B_JACOBI, B_ADD, B_LOCAL, B_DJACOBI, B_DADD, B_DLOCAL, BUILDS };
static const char *bnames[] = {"block Jacobi", "adding the overlap to the local block", "building the local operator with overlap", "dense block Jacobi", "dense, adding the overlap", "dense, building the local operator with overlap"};
enum { SOLVE, COARSE, INFO, BARRIER, KINDS };
static const int methods[]         = {HPDDM_SCHWARZ_METHOD_NONE, HPDDM_SCHWARZ_METHOD_RAS, HPDDM_SCHWARZ_METHOD_ASM};
static const char *method_names[]  = {"None", "RAS", "ASM"};
static const char *krylov_names[]  = {"gmres", "bgmres", "cg", "bcg", "gcrodr", "bgcrodr", "bfbcg", "richardson", "none"};
static const char *corr_names[]    = {"None", "Deflated", "Additive", "Balanced"};

static void gen_ddm(Case &c, Rng &r, int tier) {
    gen_base(c, r, tier, 64);
    int P = r.chance(0.1) ? 1 : 2 + (int)r.below(tier ? 5 : 4);
    c.set("ranks", P, 1);
    c.set("threads", r.chance(0.7) ? 1 : 2, 1);
    c.set("delay", r.chance(0.3) ? 0 : 1 << r.below(22), 0);
    c.set("given", r.chance(0.7), 1);
    c.set("build", r.below(BUILDS), 0);
    c.set("overlap", r.chance(0.15) ? 0 : 1 + (int)r.below(14), 0);
    c.set("far", r.chance(0.3), 0);
    c.set("facto", r.below(3), 0);
    if (c["build"] % 3 == 2) c.p["n"] = std::max<int64_t>(c["n"], 23 * P); // the local clusters need 22 points
    if (c["n"] < 6 * P) c.p["n"] = 6 * P;
    c.simplest["n"] = 5;
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) {
        int64_t kind = r.below(10);
        kind         = kind < 6 ? SOLVE : kind < 8 ? COARSE : kind < 9 ? INFO : BARRIER;
        // kind, method, correction, number of right-hand sides, values, variant, krylov method
        c.ops.push_back({kind, (int64_t)r.below(3), (int64_t)r.below(4), r.chance(0.4) ? 1 : 1 + (int64_t)r.below(5), (int64_t)(r.next() >> 2), (int64_t)r.below(64), (int64_t)r.below(10)});
    }
}

template <class T>
struct Side { // what one rank knows, for the checks
    Dense<T> local;    // the local matrix its solver should invert
    double tol = 0;
    int applied = 0;   // local solves seen
};
template <class T>
struct KeepSpace : htool::VirtualCoarseSpaceBuilder<T> {
    htool::VirtualCoarseSpaceBuilder<T> &b;
    Dense<T> Z;
    explicit KeepSpace(htool::VirtualCoarseSpaceBuilder<T> &b_) : b(b_) {}
    Matrix<T> build_coarse_space() override {
        Matrix<T> z = b.build_coarse_space();
        sim::Quiet q;
        Z = dense_of(z);
        return z;
    }
};
template <class T>
struct KeepOperator : htool::VirtualCoarseOperatorBuilder<T> {
    htool::VirtualCoarseOperatorBuilder<T> &b;
    const Dense<T> &Z;
    Dense<T> E;
    int rows;
    KeepOperator(htool::VirtualCoarseOperatorBuilder<T> &b_, const Dense<T> &Z_, int rows_) : b(b_), Z(Z_), rows(rows_) {}
    Matrix<T> build_coarse_operator(int nr, int nc, T **z) override {
        {
            sim::Quiet q;
            if (nr != rows || nc != Z.n) sim::violate("wrong-result", "coarse space handed over", cat("the coarse operator is asked for with a space of ", nr, "x", nc, ", expected ", rows, "x", Z.n));
            for (int j = 0; j < nc; j++)
                if (!bits_equal(z[j], &Z.a[(size_t)j * nr], nr)) sim::violate("wrong-result", "coarse space handed over", "the vectors handed to the coarse operator are not those of the coarse space");
        }
        Matrix<T> e = b.build_coarse_operator(nr, nc, z);
        sim::Quiet q;
        E = dense_of(e);
        return e;
    }
};

// eigenvalues of A x = l S x, by decreasing magnitude
template <class T>
static vector<double> eigen_magnitudes(Dense<T> A, Dense<T> S) {
    int n = A.m, lwork = 40 * n + 40, info = 0, one = 1;
    vector<T> al(n), ai(n), be(n), work(lwork), dummy(1);
    vector<double> rwork(8 * n + 8);
    htool::Lapack<T>::ggev("N", "N", &n, A.a.data(), &n, S.a.data(), &n, al.data(), ai.data(), be.data(), dummy.data(), &one, dummy.data(), &one, work.data(), &lwork, rwork.data(), &info);
    if (info) sim::sim_error("reference eigenvalue problem not solved");
    vector<double> m;
    for (int i = 0; i < n; i++) m.push_back((is_cplx<T>::value ? std::abs(al[i]) : std::hypot(std::abs(al[i]), std::abs(ai[i]))) / std::abs(be[i]));
    std::sort(m.rbegin(), m.rend());
    return m;
}
// S = B11 - B12 B22^-1 B21
template <class T>
static Dense<T> schur(const Dense<T> &B, int ni) {
    int no = B.m - ni;
    HPDDM::SmallLU<T> lu;
    lu.n = no;
    lu.a.resize((size_t)no * no);
    for (int j = 0; j < no; j++)
        for (int i = 0; i < no; i++) lu.a[i + (size_t)j * no] = B(ni + i, ni + j);
    lu.factor();
    Dense<T> S(ni, ni);
    for (int j = 0; j < ni; j++) {
        vector<T> w(no + 1);
        for (int i = 0; i < no; i++) w[i] = B(ni + i, j);
        lu.solve(w.data());
        for (int i = 0; i < ni; i++) {
            S(i, j) = B(i, j);
            for (int k = 0; k < no; k++) S(i, j) -= B(i, ni + k) * w[k];
        }
    }
    return S;
}
// The vectors span the eigenvectors of the largest eigenvalues: real and imaginary parts of those of complex pairs.
template <class T>
static void check_invariant(const string &what, const Dense<T> &Z, const Dense<T> &A, const Dense<T> &S, const vector<double> &ref) {
    int ni = A.m, k = Z.n;
    if (!k) return;
    Dense<T> Q(ni, k);
    for (int q = 0; q < k; q++) {
        double n0 = 0, n1 = 0;
        for (int i = 0; i < ni; i++) Q(i, q) = Z(i, q), n0 += std::norm(Z(i, q));
        for (int twice = 0; twice < 2; twice++)
            for (int p = 0; p < q; p++) {
                T s = T(0);
                for (int i = 0; i < ni; i++) s += conj_(Q(i, p)) * Q(i, q);
                for (int i = 0; i < ni; i++) Q(i, q) -= s * Q(i, p);
            }
        for (int i = 0; i < ni; i++) n1 += std::norm(Q(i, q));
        if (!(n0 > 0)) sim::violate_unless_known("wrong-result", what, "a vector of the coarse space is zero");
        if (!(n1 > 1e-8 * n0)) return sim::count("dependent_eigenvectors"); // nearly defective
        for (int i = 0; i < ni; i++) Q(i, q) /= T(std::sqrt(n1));
    }
    Dense<T> aq = mul(A, Q), sq = mul(S, Q), g = mul(op_of('C', sq), sq), M = mul(op_of('C', sq), aq), one(k, k);
    HPDDM::SmallLU<T> lu;
    lu.n = k;
    lu.a = g.a;
    lu.factor();
    for (int j = 0; j < k; j++) lu.solve(&M(0, j)), one(j, j) = T(1);
    Dense<T> rest = mul(sq, M);
    for (size_t i = 0; i < rest.a.size(); i++) rest.a[i] -= aq.a[i];
    double e = frob(rest);
    if (!(e <= 1e-7 * (frob(A) * std::sqrt(k) + frob(sq) * ref[0]))) sim::violate_unless_known("wrong-result", what, cat(what, ": the vectors do not span an invariant subspace (residual ", e, ")"));
    auto got = eigen_magnitudes(M, one);
    for (int q = 0; q < k; q++)
        if (!(std::abs(got[q] - ref[q]) <= 1e-5 * (ref[q] + ref[0] * 1e-3))) sim::violate_unless_known("wrong-result", what + " selection", cat(what, ": the eigenvalues chosen are not the largest: number ", q, " is ", got[q], ", expected ", ref[q]));
    sim::count("invariant_subspaces");
}
template <class T>
static void check_coarse_space(const string &what, const Dense<T> &Z, const Dense<T> &A, const Dense<T> &B, char sym, int nu, double threshold, const vector<double> &ref, const Dense<T> &S) {
    int ni = A.m;
    size_t want = nu;
    if (threshold > 0) {
        want = 0;
        for (double l : ref) want += l > threshold;
    }
    if (Z.m != B.m || Z.n != (int)want) sim::violate_unless_known("wrong-result", what + " size", cat("the coarse space is ", Z.m, "x", Z.n, ", expected ", B.m, "x", want));
    for (int j = 0; j < Z.n; j++)
        for (int i = ni; i < Z.m; i++)
            if (Z(i, j) != T(0)) sim::violate_unless_known("wrong-result", what + " outside", "a vector of the coarse space is not zero on the overlap");
    vector<double> got;
    if (sym == 'N' && !is_cplx<T>::value) return check_invariant(what, Z, A, S, ref);
    for (int q = 0; q < Z.n; q++) {
        T zaz = T(0), zsz = T(0);
        vector<T> az(ni), sz(ni);
        double na = 0, ns = 0, nz = 0;
        for (int i = 0; i < ni; i++) {
            for (int j = 0; j < ni; j++) az[i] += A(i, j) * Z(j, q), sz[i] += S(i, j) * Z(j, q);
            zaz += conj_(sz[i]) * az[i], zsz += conj_(sz[i]) * sz[i], nz += std::norm(Z(i, q));
        }
        if (!(std::sqrt(nz) > 1e-8)) sim::violate_unless_known("wrong-result", what, "a vector of the coarse space is zero");
        T l = zaz / zsz;
        double e = 0;
        for (int i = 0; i < ni; i++) e += std::norm(az[i] - l * sz[i]), na += std::norm(az[i]), ns += std::norm(l * sz[i]);
        if (!(std::sqrt(e) <= 1e-7 * std::sqrt((na + ns) + nz * frob(A) * frob(A)))) sim::violate_unless_known("wrong-result", what, cat(what, ": vector ", q, " is not an eigenvector (residual ", std::sqrt(e), ", eigenvalue ", std::abs(l), ")"));
        got.push_back(std::abs(l));
    }
    std::sort(got.rbegin(), got.rend());
    for (size_t q = 0; q < got.size(); q++)
        if (!(std::abs(got[q] - ref[q]) <= 1e-6 * (ref[q] + ref[0] * 1e-3))) sim::violate_unless_known("wrong-result", what + " selection", cat(what, ": the eigenvalues chosen are not the largest: number ", q, " is ", got[q], ", expected ", ref[q]));
    if (sym != 'N' && Z.n > 1) // orthonormal for S
        for (int a = 0; a < Z.n; a++)
            for (int b = 0; b < Z.n; b++) {
                T s = T(0);
                for (int i = 0; i < ni; i++)
                    for (int j = 0; j < ni; j++) s += conj_(Z(i, a)) * S(i, j) * Z(j, b);
                if (!(std::abs(s - T(a == b)) <= 1e-7)) sim::violate_unless_known("wrong-result", what + " basis", cat(what, ": the vectors ", a, " and ", b, " are not orthonormal"));
            }
}

template <class T, class Solver>
static const Matrix<T> *dense_block(Solver &, long) { return nullptr; }
template <class T, class Solver>
static auto dense_block(Solver &s, int) -> decltype(&s.block_diagonal_dense_matrix) { return &s.block_diagonal_dense_matrix; }

template <class T>
struct Shared { // for the checks, across ranks
    int P, n;
    vector<Side<T>> side;
    Dense<T> A;                           // the represented operator, cluster numbering
    vector<vector<vector<T>>> x;          // solutions: per op, per rank
    vector<vector<int>> nits;
    vector<vector<Dense<T>>> Z;           // per op, per rank
    vector<Dense<T>> E;                   // per op
    vector<std::map<string, string>> inf; // per rank
    vector<char> null_block;
};
template <class T>
struct Domain { // one rank's subdomain
    vector<int> ovr_to_global, cluster_to_ovr, neighbors, expected;
    vector<vector<int>> intersections;
};
template <class T>
static vector<Domain<T>> make_domains(const Case &c, const Problem<T> &p, int P) {
    Rng r(c["wseed"] + 1234);
    auto &perm = p.t().get_permutation();
    vector<vector<char>> in(P, vector<char>(p.n, 0));
    vector<Domain<T>> d(P);
    for (int k = 0; k < P; k++) {
        auto &cl = p.t().get_cluster_on_partition(k);
        for (int i = 0; i < cl.get_size(); i++) in[k][perm[cl.get_offset() + i]] = 1;
        int want = (int)c["overlap"];
        if (want && r.chance(0.2)) want = (int)r.below(want + 1);
        vector<std::pair<double, int>> outside; // by distance, or anywhere
        for (int i = 0; i < p.n; i++)
            if (!in[k][i]) {
                double best = 1e300;
                if (c["far"])
                    best = r.uniform();
                else
                    for (int j = 0; j < cl.get_size(); j++) {
                        double s = 0;
                        for (int e = 0; e < p.dim; e++) {
                            double z = p.xt[(size_t)p.dim * i + e] - p.xt[(size_t)p.dim * perm[cl.get_offset() + j] + e];
                            s += z * z;
                        }
                        best = std::min(best, s);
                    }
                outside.emplace_back(best, i);
            }
        std::sort(outside.begin(), outside.end());
        for (int i = 0; i < want && i < (int)outside.size(); i++) in[k][outside[i].second] = 1;
    }
    auto shuffle = [&](vector<int> &v) {
        for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
    };
    for (int k = 0; k < P; k++) {
        auto &cl = p.t().get_cluster_on_partition(k);
        auto &o  = d[k].ovr_to_global;
        for (int i = 0; i < p.n; i++)
            if (in[k][i]) o.push_back(i);
        if (r.chance(0.8)) shuffle(o);
        vector<int> at(p.n, -1);
        for (size_t i = 0; i < o.size(); i++) at[o[i]] = (int)i;
        vector<char> mine(o.size(), 0);
        for (int i = 0; i < cl.get_size(); i++) {
            int g = perm[cl.get_offset() + i];
            d[k].cluster_to_ovr.push_back(at[g]), d[k].expected.push_back(g);
            mine[at[g]] = 1;
        }
        for (size_t i = 0; i < o.size(); i++)
            if (!mine[i]) d[k].expected.push_back(o[i]);
        for (int l = 0; l < P; l++)
            if (l != k) d[k].neighbors.push_back(l);
        shuffle(d[k].neighbors);
        vector<int> nb;
        for (int l : d[k].neighbors) {
            vector<int> both;
            for (int i = 0; i < p.n; i++)
                if (in[k][i] && in[l][i]) both.push_back(at[i]);
            if (!both.empty()) nb.push_back(l), d[k].intersections.push_back(both);
        }
        d[k].neighbors = nb;
    }
    return d;
}

template <class T, class Builder, bool dense>
struct Run {
    using H = HMatrix<T, RealOf<T>>;
    const Case &c;
    const Problem<T> &p;
    Shared<T> &sh;
    LogCapture &log;
    int rank, P, ni, nl;
    char sym, uplo;
    const DominantGen<T> &gen;
    BuildOpts o;
    htool::DefaultApproximationBuilder<T, RealOf<T>> &dflt;
    const Domain<T> &dom;
    H *block; // the rank's own copy of its diagonal block
    int build;

    void operator()() {
        std::unique_ptr<Builder> b;
        auto &op    = dflt.distributed_operator;
        Side<T> &me = sh.side[rank];
        string what = bnames[build];
        ni          = p.t().get_cluster_on_partition(rank).get_size();
        nl          = build % 3 == 0 ? ni : (int)dom.expected.size();
        auto &perm  = p.t().get_permutation();
        int off     = p.t().get_cluster_on_partition(rank).get_offset();
        // the local matrix
        me.local = Dense<T>(nl, nl);
        Dense<T> in(ni, ni);
        if (build % 3 < 2) in = reference(*block, sym, uplo).A;
        if (build % 3 == 0) me.local = in;
        if (build % 3 == 1)
            for (int j = 0; j < nl; j++)
                for (int i = 0; i < nl; i++) me.local(i, j) = i < ni && j < ni ? in(i, j) : gen.entry(dom.expected[i], dom.expected[j]);
        me.tol = dense ? 1e-10 : 300 * o.eps + 1e-10;
        // the user's vectors, which the builder may keep references to only while it is constructed
        vector<int> neighbors = dom.neighbors, ovr = dom.ovr_to_global, c2o = dom.cluster_to_ovr;
        vector<vector<int>> inter = dom.intersections;
        sim::context(cat("building the solver: ", what));
        {
            Live l;
            construct(b, op, ovr, c2o, neighbors, inter);
        }
        auto &ddm = b->solver;
        if (build % 3 == 2) {
            auto &lh = *b->local_hmatrix;
            auto lr  = reference(lh, sym, uplo);
            check_cover(lr);
            auto &lp = lh.get_target_cluster().get_permutation();
            for (int j = 0; j < nl; j++)
                for (int i = 0; i < nl; i++) me.local(lp[i], lp[j]) = lr.A(i, j);
            double e = 0, n2 = 0;
            for (int j = 0; j < nl; j++)
                for (int i = 0; i < nl; i++) {
                    T x = gen.entry(dom.expected[i], dom.expected[j]);
                    e += std::norm(x - me.local(i, j)), n2 += std::norm(x);
                }
            bool smooth = gen.g.k.smooth() && (c["geom"] <= 1 || c["geom"] == 6) && o.eta <= 10;
            if (smooth && !(std::sqrt(e) <= (1e4 * o.eps + 1e-9) * std::sqrt(n2))) sim::violate("accuracy", "local operator with overlap", cat("the local operator has relative error ", std::sqrt(e / n2), " for epsilon ", o.eps));
        }
        if (build % 3 && !(b->local_to_global_numbering == dom.expected)) sim::violate("wrong-result", "local numbering", "the local numbering is not the cluster's numbering followed by the overlap");
        if (build % 3 == 0 && !(b->local_to_global_numbering == perm)) sim::violate("wrong-result", "local numbering", "the numbering without overlap is not the permutation of the cluster");
        if (ddm.get_local_size() != nl) sim::violate("wrong-result", "local size", cat("the local size is ", ddm.get_local_size(), ", expected ", nl));
        if (auto *m = dense_block<T>(*b, 0)) {
            if (m->nb_rows() != nl || m->nb_cols() != nl) sim::violate("wrong-result", "dense local matrix", "the dense local matrix has another shape");
            double s = frob(me.local);
            for (int j = 0; j < nl; j++)
                for (int i = 0; i < nl; i++)
                    if ((sym == 'N' || i >= j) && !(std::abs((*m)(i, j) - me.local(i, j)) <= 1e-13 * (s + std::abs(me.local(i, j))))) sim::violate_unless_known("wrong-result", cat("dense local matrix, ", what), cat("entry (", i, ",", j, ") of the dense local matrix is ", (*m)(i, j), ", expected ", me.local(i, j), " (", ni, " unknowns inside)"));
        }
        (void)off;
        HPDDM::Option &opt = *HPDDM::Option::get();
        opt["tol"] = 1e-9, opt["max_it"] = p.n + 15;
        bool facto = false, two = false;
        int nu_now = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            auto &u = c.ops[q];
            switch (u[0] % KINDS) {
            case BARRIER: {
                Live l;
                MPI_Barrier(MPI_COMM_WORLD);
                break;
            }
            case COARSE: coarse(ddm, *b, q, facto, two, nu_now); break;
            case SOLVE: {
                int m = u[1] % 3;
                if ((m || two) && !facto) {
                    sim::context(cat("factorisation, ", what));
                    Live l;
                    ddm.facto_one_level();
                    facto = true;
                }
                solve(ddm, q, m, facto, two, nu_now);
                break;
            }
            default: info(ddm, q);
            }
        }
        sim::context("end of the solver");
        if (c["wseed"] % 2) {
            Live l;
            ddm.clean();
        }
        Live l;
        b.reset();
    }
    void construct(std::unique_ptr<Builder> &b, htool::DistributedOperator<T> &op, const vector<int> &ovr, const vector<int> &c2o, const vector<int> &nb, const vector<vector<int>> &inter) {
        if (build % 3 == 0)
            b.reset(new Builder(op, *block));
        else if (build % 3 == 1)
            b.reset(new Builder(op, *block, gen, ovr, c2o, nb, inter));
        else
            b.reset(new Builder(op, ovr, c2o, nb, inter, gen, p.dim, p.xt.data(), o.eps, o.eta));
    }
    template <class D>
    void coarse(D &ddm, Builder &b, size_t q, bool facto, bool &two, int &nu_now) {
        auto &u = c.ops[q];
        Rng r(u[4] + 977 * rank);
        Rng common(u[4]);
        bool thr = common.chance(0.4), small = common.chance(0.5);
        // A: the local block, or another symmetric matrix; B: any
        Dense<T> A(ni, ni);
        const auto &loc = sh.side[rank].local;
        const H *hm     = nullptr; // the hierarchical overload, before it is factorised
        if (!facto && build % 3 == 2 && b.local_hmatrix && common.chance(0.5)) hm = b.local_hmatrix.get();
        if (!facto && (build == B_JACOBI || build == B_ADD) && P > 1 && common.chance(0.5)) hm = block; // on one rank, its numbering is ambiguous
        bool half = !is_cplx<T>::value && sym == 'N' && common.chance(0.4); // a symmetric part
        if (half) hm = nullptr;
        double unit = common.chance(0.7) ? 1 : std::pow(10., -21. + 6 * (double)common.below(6)); // of the second operator
        for (int j = 0; j < ni; j++)
            for (int i = 0; i < ni; i++) A(i, j) = half ? 0.5 * (loc(i, j) + loc(j, i)) : loc(i, j);
        Dense<T> B(nl, nl);
        for (int j = 0; j < nl; j++)
            for (int i = 0; i < nl; i++) {
                T x = make<T>(r.sym(), r.sym()) * T(0.7 / nl * unit);
                if (i == j)
                    B(i, j) = T(unit * (1 + 3 * r.uniform()));
                else if (sym == 'N' && !half)
                    B(i, j) = x;
                else if (i > j)
                    B(i, j) = x, B(j, i) = conj_(x);
            }
        Dense<T> S = schur(B, ni);
        auto ref   = eigen_magnitudes(A, S);
        int nu     = 1 + (int)r.below(std::min(ni, 4));
        double threshold = -1;
        bool below = thr && common.chance(0.25);
        if (thr && rank && r.chance(0.25)) { // above all: no vector on this process
            threshold = 1.5 * ref[0];
        } else if (thr) { // between two eigenvalues, or below all
            int at    = (int)r.below(std::min(ni, 5));
            if (below) at = ni - 1;
            while (at + 1 < ni && !(ref[at] > 1.01 * ref[at + 1])) at++;
            threshold = at + 1 < ni ? 0.5 * (ref[at] + ref[at + 1]) : 0.5 * ref[ni - 1];
        } else { // eigenvalues that are not equal to the next one
            while (nu < ni && !(ref[nu - 1] > 1.0001 * ref[nu])) nu++;
        }
        Dense<T> arg = A;
        if (!hm && !small) { // with the overlap: only the inner part counts
            arg = Dense<T>(nl, nl);
            for (int j = 0; j < nl; j++)
                for (int i = 0; i < nl; i++) arg(i, j) = i < ni && j < ni ? A(i, j) : make<T>(r.sym(), r.sym());
        }
        string what = cat("coarse space, symmetry ", sym, thr ? ", threshold" : "");
        sim::context(what);
        KeepSpace<T> *ks = nullptr;
        KeepOperator<T> *ko = nullptr;
        using GB = htool::GeneoCoarseSpaceDenseBuilder<T, RealOf<T>>;
        std::unique_ptr<GB> gb;
        std::unique_ptr<htool::GeneoCoarseOperatorBuilder<T>> ob;
        Matrix<T> mA = matrix_of(arg), mB = matrix_of(B);
        {
            Live l;
            if (hm)
                gb.reset(new GB(thr ? GB::GeneoWithThreshold(ni, nl, *hm, mB, sym, uplo, threshold) : GB::GeneoWithNu(ni, nl, *hm, mB, sym, uplo, nu)));
            else
                gb.reset(new GB(thr ? GB::GeneoWithThreshold(ni, nl, mA, mB, sym, uplo, threshold) : GB::GeneoWithNu(ni, nl, mA, mB, sym, uplo, nu)));
            ob.reset(new htool::GeneoCoarseOperatorBuilder<T>(dflt.distributed_operator));
        }
        KeepSpace<T> space(*gb);
        KeepOperator<T> oper(*ob, space.Z, nl);
        ks = &space, ko = &oper;
        int times = common.chance(0.3) ? 2 : 1; // the same builder can be used again
        for (int t = 0; t < times; t++) {
            {
                Live l;
                ddm.build_coarse_space(*ks, *ko);
            }
            check_coarse_space(t ? what + ", again" : what, space.Z, A, B, sym, nu, threshold, ref, S);
        }
        sh.Z[q][rank] = space.Z;
        if (rank == 0) sh.E[q] = oper.E;
        if (ddm.get_nevi() != space.Z.n) sim::violate("wrong-result", "number of coarse vectors", cat("get_nevi gives ", ddm.get_nevi(), " for ", space.Z.n, " vectors"));
        two = true, nu_now = space.Z.n;
        sim::count("coarse_spaces");
        if (!space.Z.n) sim::count("empty_coarse_spaces");
        Live l;
        string g = ddm.get_information(string("GenEO_coarse_size"));
        sim::Quiet qq;
        if (g != std::to_string(oper.E.n)) sim::violate("wrong-info", "GenEO_coarse_size", cat("GenEO_coarse_size is '", g, "' for a coarse operator of size ", oper.E.n));
    }
    template <class D>
    void solve(D &ddm, size_t q, int m, bool facto, bool two, int nu_now) {
        auto &u = c.ops[q];
        int mu = std::max<int64_t>(1, u[3]), n = p.n;
        bool can = two && facto && (!is_cplx<T>::value || sym == 'H');
        int corr = m && can ? u[2] % 4 : 0; // 0: none
        HPDDM::Option &opt = *HPDDM::Option::get();
        opt["schwarz_method"] = methods[m];
        if (corr)
            opt["schwarz_coarse_correction"] = corr == 1 ? HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED : corr == 2 ? HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE : HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED;
        else
            opt.remove("schwarz_coarse_correction");
        if (u[6] < 9)
            opt["krylov_method"] = u[6];
        else
            opt.remove("krylov_method");
        if (methods[m] == HPDDM_SCHWARZ_METHOD_RAS && u[5] % 4 == 0) opt.remove("schwarz_method"); // the default
        Rng r(u[4]);
        vector<T> b = random_vec<T>(r, (size_t)n * mu), x = random_vec<T>(r, (size_t)n * mu), keep = b;
        string what = cat("solve, ", bnames[build], ", ", method_names[m], ", ", corr_names[corr], mu > 1 ? ", several right-hand sides" : "", sym == 'H' ? ", Hermitian" : "");
        sim::context(what);
        int before = sh.side[rank].applied;
        {
            Live l;
            if (mu == 1 && u[5] % 2)
                ddm.solve(b.data(), x.data());
            else
                ddm.solve(b.data(), x.data(), mu);
        }
        if (!bits_equal(b.data(), keep.data(), b.size())) sim::violate("wrong-result", "right-hand side changed", what + ": the right-hand side changed");
        if ((m != 0) != (sh.side[rank].applied > before)) sim::violate("wrong-result", "preconditioner", cat(what, ": the local solver was ", m ? "not " : "", "used"));
        // against the represented operator, in the user's numbering
        auto &perm = p.t().get_permutation();
        Dense<T> xc(n, mu), bc(n, mu);
        for (int k = 0; k < mu; k++)
            for (int i = 0; i < n; i++) xc(i, k) = x[perm[i] + (size_t)k * n], bc(i, k) = b[perm[i] + (size_t)k * n];
        sh.x[q][rank] = x;
        {
            Live l;
            MPI_Barrier(MPI_COMM_WORLD);
        }
        double e = residual(sh.A, xc.a.data(), bc.a.data(), mu);
        if (!(e <= 1e-7)) sim::violate_unless_known("wrong-result", what, cat(what, ": the relative residual of the solution is ", e, " on ", P, " ranks, ", mu, " right-hand sides"));
        if (!bits_equal(sh.x[q][0].data(), x.data(), x.size()) && !sh.x[q][0].empty()) sim::violate("wrong-result", "ranks disagree", what + ": two ranks have different solutions");
        // what is reported
        std::map<string, string> i;
        {
            Live l;
            i = ddm.get_information();
        }
        auto want = [&](const string &k, const string &v) {
            if (i[k] != v) sim::violate_unless_known("wrong-info", k, cat(what, ": ", k, " is '", i[k], "', expected '", v, "'"));
        };
        want("Nb_subdomains", std::to_string(P));
        want("Precond", method_names[m]);
        want("krylov_method", u[6] < 9 ? krylov_names[u[6]] : "none");
        want("Coarse_correction", corr_names[corr]);
        want("htool_solver", "ddm");
        sh.nits[q][rank] = atoi(i["Nb_it"].c_str());
        int nit          = sh.nits[q][rank];
        if (nit < 1 || nit > n + 15) sim::violate("wrong-info", "Nb_it", cat(what, ": ", i["Nb_it"], " iterations are reported"));
        if (m && rank == 0) {
            int total = 0, most = 0, least = 1 << 30;
            for (int k = 0; k < P; k++) total += sh.side[k].applied >= 0 ? nus(k) : 0, most = std::max(most, nus(k)), least = std::min(least, nus(k));
            std::ostringstream mean;
            mean << (double)total / P;
            want("DDM_local_coarse_size_mean", mean.str());
            want("DDM_local_coarse_size_max", std::to_string(most));
            want("DDM_local_coarse_size_min", std::to_string(least));
        }
        (void)nu_now;
        sim::count(m == 0 ? "solves_plain" : corr ? "solves_two_level" : "solves_one_level");
        if (mu > 1) sim::count("solves_several");
    }
    int nus(int k) const { // coarse vectors of rank k at the last coarse space before now
        int v = 0;
        for (auto &z : sh.Z)
            if (z[k].m) v = z[k].n;
        return v;
    }
    template <class D>
    void info(D &ddm, size_t q) {
        auto &u = c.ops[q];
        sim::context("information of the solver");
        string file = cat("/simdisk/ddm", q), sep = u[5] % 2 ? " = " : ": ";
        std::map<string, string> i;
        std::unique_ptr<CoutCapture> cap;
        if (rank == 0 && !cap) cap.reset(new CoutCapture());
        {
            Live l;
            ddm.set_infos("mine", "3");
            ddm.add_infos("mine", "4");
            ddm.add_infos("fresh", cat(q));
            i = ddm.get_information();
        }
        if (rank == 0 && (i["mine"] != "7")) sim::violate("wrong-info", "added information", cat("3 and 4 add up to '", i["mine"], "'"));
        if (rank != 0 && i.count("mine")) sim::violate("wrong-info", "added information", "a rank other than the first keeps added information");
        {
            Live l;
            ddm.print_infos();
        }
        if (rank == 0) {
            string want;
            for (auto &x : i) want += x.first + "\t" + x.second + "\n";
            if (cap->o.str() != want + "\n") sim::violate("wrong-result", "printed information", "what is printed is not the information of the solver");
        }
        cap.reset();
        {
            Live l;
            ddm.save_infos(file, std::ios_base::app, sep);
        }
        if (rank == 0) {
            string want;
            for (auto &x : i) want += x.first + sep + x.second + "\n";
            if (sim::disk_read(file) != want) sim::violate("wrong-result", "saved information", "the file does not have the information of the solver");
        }
        sim::count("infos");
    }
};

template <class T>
static void run_ddm_t(const Case &c) {
    int P = std::max<int64_t>(1, c["ranks"]);
    Problem<T> p(c, P);
    int n    = p.n;
    char sym = symmetry_of<T>(c);
    BuildOpts o = BuildOpts::from(c, p);
    int build   = (int)((uint64_t)c["build"] % BUILDS);
    o.sym = sym, o.uplo = sym == 'N' ? 'N' : build < 3 && c["uplo"] ? 'U' : 'L';
    DominantGen<T> gen;
    gen.init(p, sym, c["dominance"]);
    gen.g.points = false;
    auto doms = make_domains(c, p, P);
    Shared<T> sh;
    sh.P = P, sh.n = n;
    sh.side.resize(P);
    sh.A = Dense<T>(n, n);
    size_t Q = c.ops.size();
    sh.x.assign(Q, vector<vector<T>>(P)), sh.nits.assign(Q, vector<int>(P, 0)), sh.Z.assign(Q, vector<Dense<T>>(P)), sh.E.resize(Q), sh.inf.resize(P), sh.null_block.assign(P, 0);
    LogCapture log;
    HPDDM::Option::reset();
    auto &probe       = HPDDM::Probe::get();
    probe.coarse      = nullptr;
    probe.local_solve = [&](const void *, const void *in, const void *out, int mu) {
        auto &s  = sh.side[sim::current_rank()];
        double e = residual(s.local, (const T *)out, (const T *)in, mu);
        s.applied++;
        if (!(e <= s.tol)) sim::violate_unless_known("wrong-result", cat("local solve, ", bnames[build], ", symmetry ", sym, " ", o.uplo), cat("the local solver of rank ", sim::current_rank(), " leaves a relative residual of ", e, " (allowed ", s.tol, ", ", s.local.n, " local unknowns, ", mu, " right-hand sides)"));
    };
    sim::omp_threads(std::max<int64_t>(1, c["threads"]));
    sim::mpi_begin(P, std::max<int64_t>(0, c["delay"]));
    bool fallback = false;
    sim::run_ranks(P, [&](int rank) {
        sim::Quiet q0;
        using H = HMatrix<T, RealOf<T>>;
        std::unique_ptr<htool::DefaultApproximationBuilder<T, RealOf<T>>> dflt;
        std::unique_ptr<H> block;
        sim::context("building the distributed operator");
        {
            Live l;
            dflt.reset(new htool::DefaultApproximationBuilder<T, RealOf<T>>((const htool::VirtualGenerator<T> &)gen, p.t(), p.s(), o.eps, o.eta, o.sym, o.uplo, MPI_COMM_WORLD));
        }
        Ref<T> ref = reference(dflt->hmatrix, o.sym, o.uplo);
        check_cover(ref);
        int off = p.t().get_cluster_on_partition(rank).get_offset();
        for (int j = 0; j < n; j++)
            for (int i = 0; i < ref.A.m; i++) sh.A(off + i, j) = ref.A(i, j);
        if (!dflt->block_diagonal_hmatrix) sh.null_block[rank] = 1;
        {
            Live l;
            if (dflt->block_diagonal_hmatrix) block.reset(new H(*dflt->block_diagonal_hmatrix));
            MPI_Barrier(MPI_COMM_WORLD);
        }
        int bd = build;
        for (char x : sh.null_block)
            if (x) bd = build < 3 ? B_LOCAL : B_DLOCAL, fallback = true;
        bool tiny = false; // too small for a cluster tree of its own
        for (auto &d : doms) tiny = tiny || d.expected.size() < 22;
        if (bd % 3 == 2 && tiny) bd = fallback ? -1 : bd - 1;
        if (bd < 0) {
            sim::count("skipped");
            Live l;
            block.reset(), dflt.reset();
            return;
        }
        uint64_t before = 0;
        {
            vector<Leaf<T>> lv;
            collect(dflt->hmatrix, false, lv);
            for (auto &l : lv) {
                Dense<T> d = leaf_dense(l);
                before     = sim::mix(before, sim::hash_bytes(d.a.data(), d.a.size() * sizeof(T)));
            }
        }
        if (bd < 3) {
            Run<T, htool::DDMSolverBuilder<T, RealOf<T>>, false> r{c, p, sh, log, rank, P, 0, 0, sym, o.uplo, gen, o, *dflt, doms[rank], block.get(), bd};
            r();
        } else {
            Run<T, htool::DDMSolverWithDenseLocalSolver<T, RealOf<T>>, true> r{c, p, sh, log, rank, P, 0, 0, sym, o.uplo, gen, o, *dflt, doms[rank], block.get(), bd};
            r();
        }
        uint64_t after = 0;
        vector<Leaf<T>> lv;
        collect(dflt->hmatrix, false, lv);
        for (auto &l : lv) {
            Dense<T> d = leaf_dense(l);
            after      = sim::mix(after, sim::hash_bytes(d.a.data(), d.a.size() * sizeof(T)));
        }
        if (before != after) sim::violate("wrong-result", "operator changed", "solving changed the operator");
        Live l;
        block.reset(), dflt.reset();
    });
    sim::context("checking the history");
    for (size_t q = 0; q < Q; q++) {
        for (int k = 1; k < P; k++)
            if (sh.nits[q][k] != sh.nits[q][0]) sim::violate("wrong-info", "Nb_it", "the ranks report different numbers of iterations");
        if (c.ops[q][0] % KINDS != COARSE) continue;
        // the coarse operator against the represented one: (A z_a)^T z_b, and z_a^H A z_b for Hermitian operators
        auto &E = sh.E[q];
        vector<int> first(P + 1, 0);
        for (int k = 0; k < P; k++) first[k + 1] = first[k] + sh.Z[q][k].n;
        if (E.m != first[P] || E.n != first[P]) sim::violate("wrong-result", "coarse operator size", "the coarse operator has another size");
        double big = 0, err = 0;
        for (int a = 0; a < P; a++)
            for (int b = 0; b < P; b++) {
                auto &ca = p.t().get_cluster_on_partition(a), &cb = p.t().get_cluster_on_partition(b);
                for (int i = 0; i < sh.Z[q][a].n; i++)
                    for (int j = 0; j < sh.Z[q][b].n; j++) {
                        T s = T(0);
                        for (int x = 0; x < ca.get_size(); x++)
                            for (int y = 0; y < cb.get_size(); y++) {
                                T za = sh.Z[q][a](x, i), zb = sh.Z[q][b](y, j);
                                s += sym == 'H' ? conj_(za) * sh.A(ca.get_offset() + x, cb.get_offset() + y) * zb : sh.A(cb.get_offset() + y, ca.get_offset() + x) * za * zb;
                                big = std::max(big, std::abs(za) * std::abs(zb));
                            }
                        err = std::max(err, std::abs(s - E(first[a] + i, first[b] + j)));
                    }
            }
        if (!(err <= 1e-11 * big * frob(sh.A) * n)) sim::violate_unless_known("wrong-result", cat("coarse operator, symmetry ", sym), cat("the coarse operator is not that of the coarse space: difference ", err));
    }
    if (log.errors) sim::violate("error-logged", "error logged", cat("the library logged an error on a supported operation: ", log.w->last));
    int app = 0;
    for (auto &s : sh.side) app += s.applied;
    sim::count("local_solves", app);
    if (P > 1 && Q) sim::count("nontrivial");
    if (fallback) sim::count("without_diagonal_block");
    sim::count(cat("build_", build).c_str());
    probe.local_solve = nullptr;
}
static void run_ddm(const Case &c) {
    sim::configure(sim::config_from(c));
    dispatch(c, [&](auto t) { run_ddm_t<decltype(t)>(c); });
}

// ================================================================ D02
enum { L_H, L_OVERLAP, L_DENSE, LKINDS };
static const char *lnames[] = {"hierarchical local solver", "hierarchical local solver with overlap", "dense local solver"};
static void gen_local(Case &c, Rng &r, int tier) {
    gen_base(c, r, tier, 60);
    c.set("dyn", r.chance(0.2), 0);
    int callers = r.chance(0.5) ? 1 : 2 + (int)r.below(2);
    c.set("callers", callers, 1);
    for (int k = 0; k < callers; k++) c.set(cat("threads", k), 1 + (int)r.below(3), 1), c.set(cat("kind", k), r.below(LKINDS), 0);
    bool faults = callers == 1 && r.chance(0.4);
    int n = 1 + (int)r.below(7);
    for (int i = 0; i < n; i++) // caller, in place, right-hand sides, values, fault
        c.ops.push_back({(int64_t)r.below(callers), (int64_t)r.below(2), 1 + (int64_t)r.below(5), (int64_t)(r.next() >> 2), faults && r.chance(0.5) ? 1 + (int64_t)r.below(400) : 0});
    c.set("nover", r.chance(0.2) ? 0 : 1 + (int)r.below(10), 0);
    c.set("perm", r.below(2), 0);
    c.set("fault0", faults && r.chance(0.5) ? 1 + (int64_t)r.below(2000) : 0, 0);
}
template <class F>
static bool local_attempt(int64_t fault, F f) { // false: the injected fault was reported
    if (fault) {
        sim::alloc_reset();
        sim::AllocPlan a;
        a.fail_at = fault <= 100 ? fault % 12 : fault;
        a.sticky  = fault % 3 == 0;
        sim::alloc_plan(a);
    }
    bool ok = true;
    try {
        Live l;
        f();
    } catch (const std::bad_alloc &) {
        ok = false;
    } catch (const std::exception &e) {
        sim::alloc_plan(sim::AllocPlan());
        sim::violate("exception", sim::context(), cat(sim::context(), ": unexpected exception ", e.what()));
    }
    sim::alloc_plan(sim::AllocPlan());
    if (!ok && !(fault && sim::alloc_fired())) sim::violate("exception", sim::context(), "an allocation is reported to have failed, but none did");
    if (fault && sim::alloc_fired()) sim::count("faults_alloc");
    return ok;
}
template <class T>
static void run_local_t(const Case &c) {
    using H = HMatrix<T, RealOf<T>>;
    Problem<T> p(c);
    p.gen.points = false;
    char sym     = symmetry_of<T>(c);
    BuildOpts o  = BuildOpts::from(c, p);
    o.sym = sym, o.uplo = sym == 'N' ? 'N' : c["uplo"] ? 'U' : 'L';
    int K = std::max<int64_t>(1, c["callers"]), n = p.n, nov = (int)c["nover"];
    DominantGen<T> gen;
    gen.init(p, sym, c["dominance"]);
    std::unique_ptr<H> h;
    sim::omp_threads(1);
    {
        Live l;
        auto b = make_builder(o, p, c["wseed"]);
        h.reset(new H(b.build((const htool::VirtualGenerator<T> &)gen)));
    }
    Ref<T> ref = reference(*h, sym, o.uplo);
    auto &perm = p.t().get_permutation();
    // [A B; C D] with a dominant D
    Rng rb(c["wseed"] + 5);
    Dense<T> full(n + nov, n + nov);
    for (int j = 0; j < n + nov; j++)
        for (int i = 0; i < n + nov; i++)
            if (i < n && j < n)
                full(i, j) = ref.A(i, j);
            else if (sym == 'N' || i > j)
                full(i, j) = make<T>(rb.sym(), rb.sym()) * T(0.05 / (1 + nov));
            else if (i == j)
                full(i, j) = T(0);
    for (int j = 0; j < n + nov; j++)
        for (int i = 0; i < j; i++)
            if (sym != 'N' && j >= n) full(i, j) = conj_(full(j, i));
    for (int i = n; i < n + nov; i++) full(i, i) += T(1.5);
    LogCapture log;
    int64_t base = sim::live_blocks();
    vector<vector<vector<int64_t>>> todo(K);
    for (auto &op : c.ops) todo[op[0] % K].push_back(op);
    vector<std::function<void()>> fs;
    for (int k = 0; k < K; k++)
        fs.push_back([&, k] {
            sim::Quiet quiet;
            sim::omp_threads(std::max<int64_t>(1, c[cat("threads", k)]));
            int kind    = c[cat("kind", k)] % LKINDS;
            bool user   = kind == L_H && c["perm"];
            int size    = kind == L_H ? n : n + nov;
            string what = cat(lnames[kind], ", symmetry ", kind == L_DENSE ? 'N' : sym, " ", kind == L_DENSE ? 'N' : o.uplo);
            Dense<T> A(size, size);
            for (int j = 0; j < size; j++)
                for (int i = 0; i < size; i++) A(i, j) = full(i, j);
            if (user)
                for (int j = 0; j < n; j++)
                    for (int i = 0; i < n; i++) A(perm[i], perm[j]) = full(i, j);
            std::unique_ptr<H> mine;
            std::unique_ptr<Matrix<T>> B, C, D, F;
            std::unique_ptr<htool::VirtualLocalSolver<T>> s;
            sim::context(what + ", factorisation");
            auto block = [&](int i0, int m, int j0, int w) {
                std::unique_ptr<Matrix<T>> x(new Matrix<T>(m, w));
                for (int j = 0; j < w; j++)
                    for (int i = 0; i < m; i++) (*x)(i, j) = full(i0 + i, j0 + j);
                return x;
            };
            {
                Live l;
                if (kind != L_DENSE) mine.reset(new H(*h));
                bool keepB = sym == 'N' || o.uplo == 'U', keepC = sym == 'N' || o.uplo == 'L';
                if (kind == L_OVERLAP) {
                    B = keepB ? block(0, n, n, nov) : std::unique_ptr<Matrix<T>>(new Matrix<T>());
                    C = keepC ? block(n, nov, 0, n) : std::unique_ptr<Matrix<T>>(new Matrix<T>());
                    D = block(n, nov, n, nov);
                }
                if (kind == L_DENSE) F = block(0, size, 0, size);
                if (kind == L_H) s.reset(new htool::LocalHMatrixSolver<T, RealOf<T>>(*mine, user));
                if (kind == L_OVERLAP) s.reset(new htool::LocalHMatrixPlusOverlapSolver<T, RealOf<T>>(*mine, *B, *C, *D));
                if (kind == L_DENSE) s.reset(new htool::LocalDenseSolver<T>(*F));
            }
            auto release = [&] {
                Live l;
                s.reset(), mine.reset(), B.reset(), C.reset(), D.reset(), F.reset();
            };
            auto logged = [&] {
                if (log.w->by_fiber[sim::fiber_id()]) sim::violate_unless_known("error-logged", what, cat("an error is reported for a supported operation: ", log.w->last));
            };
            HPDDM::MatrixCSR<T> *none = nullptr;
            if (!local_attempt(K == 1 ? c["fault0"] : 0, [&] { s->numfact(none); })) {
                release();
                return;
            }
            logged();
            for (auto &op : todo[k]) {
                int mu = std::max<int64_t>(1, op[2]);
                Rng r(op[3]);
                std::unique_ptr<vector<T>> b, x;
                {
                    Live l; // the user's memory, gone after the call
                    b.reset(new vector<T>((size_t)size * mu)), x.reset(new vector<T>((size_t)size * mu));
                }
                for (auto &z : *b) z = make<T>(r.sym(), r.sym());
                for (auto &z : *x) z = make<T>(r.sym(), r.sym());
                vector<T> keep = *b;
                sim::context(cat(what, ", solve", op[1] ? " in place" : ""));
                bool ok = local_attempt(K == 1 ? op[4] : 0, [&] {
                    if (op[1])
                        s->solve(b->data(), (unsigned short)mu);
                    else
                        s->solve((const T *)b->data(), x->data(), (unsigned short)mu);
                });
                if (ok) {
                    logged();
                    double e = residual(A, op[1] ? b->data() : x->data(), keep.data(), mu), tol = kind == L_DENSE ? 1e-11 : 300 * o.eps + 1e-10;
                    if (!(e <= tol)) sim::violate_unless_known("wrong-result", what, cat(what, ": the relative residual is ", e, " (allowed ", tol, ", size ", size, ", overlap ", kind == L_H ? 0 : nov, ", ", mu, " right-hand sides)"));
                    sim::count("solves");
                    sim::count(cat("kind_", kind).c_str());
                }
                if (!op[1] && !bits_equal(b->data(), keep.data(), keep.size())) sim::violate("wrong-result", "right-hand side changed", what + ": the right-hand side changed");
                Live l;
                b.reset(), x.reset();
            }
            release();
        });
    if (K == 1)
        fs[0]();
    else
        sim::run_threads(fs);
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of local solvers", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    int busy = 0;
    for (auto &v : todo) busy += !v.empty();
    if (c.ops.size() > 1) sim::count("nontrivial");
    if (busy > 1) sim::count("concurrent_callers");
}
static void run_local(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) { run_local_t<decltype(t)>(c); });
}
static const sim::Driver d1{"ddm", gen_ddm, run_ddm}, d2{"local", gen_local, run_local};
const sim::Driver *sim::driver_table[] = {&d1, &d2, nullptr};
