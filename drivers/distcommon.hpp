// Building distributed operators on simulated ranks, shared by the MPI drivers.
#pragma once
#include "common.hpp"
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include "logcapture.hpp"
namespace drv {
enum { M_DEFAULT, M_HMATRIX, M_LOCAL, M_LOCAL_OFF, M_DENSE, M_SPLIT, M_USER, M_COMPOSED, MODES };

inline void gen_world(Case &c, Rng &r, int tier, int maxn) {
    sim::gen_sched(c, r);
    gen_problem(c, r, tier ? 2 * maxn : maxn, 1);
    gen_builder(c, r);
    int P = r.chance(0.08) ? 1 : 2 + (int)r.below(tier ? 5 : 4);
    c.set("ranks", P, 1);
    c.set("groups", r.chance(0.25) ? 2 : 1, 1);
    c.set("revkeys", r.chance(0.5), 0);
    c.set("threads", r.chance(0.6) ? 1 : 2 + (int)r.below(2), 1);
    c.set("delay", r.chance(0.3) ? 0 : 1 << r.below(20), 0);
    c.set("own", r.chance(0.3), 0);
    c.set("given", r.chance(0.7), 1);
    c.set("mode", r.chance(0.45) ? (int)r.below(2) : (int)r.below(MODES), 0);
    c.set("offkind", r.below(2), 0);
    c.set("nsplit", 1 + r.below(3), 1);
    c.set("tperm", r.below(2), 0);
    c.set("diagperm", r.below(2), 0);
    if (c["n"] < P) c.p["n"] = P;
    if (c["m"] < P) c.p["m"] = P;
    c.simplest["n"] = c.simplest["m"] = 5;
}

// A user's own local operator: a dense row block in cluster numbering.
template <class T>
class UserLocal final : public htool::VirtualLocalOperator<T> {
  public:
    Dense<T> a; // local rows, all columns
    void add_vector_product_global_to_local(T alpha, const T *const in, T beta, T *const out) const override { add_matrix_product_global_to_local(alpha, in, beta, out, 1); }
    void add_matrix_product_global_to_local(T alpha, const T *const in, T beta, T *const out, int mu) const override {
        for (int i = 0; i < a.m; i++)
            for (int k = 0; k < mu; k++) {
                T s = T(0);
                for (int j = 0; j < a.n; j++) s += a(i, j) * in[(size_t)j * mu + k];
                out[(size_t)i * mu + k] = beta * out[(size_t)i * mu + k] + alpha * s;
            }
    }
    void add_vector_product_transp_local_to_global(T alpha, const T *const in, T beta, T *const out) const override { add_matrix_product_transp_local_to_global(alpha, in, beta, out, 1); }
    void add_matrix_product_transp_local_to_global(T alpha, const T *const in, T beta, T *const out, int mu) const override {
        for (int j = 0; j < a.n; j++)
            for (int k = 0; k < mu; k++) {
                T s = T(0);
                for (int i = 0; i < a.m; i++) s += a(i, j) * in[(size_t)i * mu + k];
                out[(size_t)j * mu + k] = beta * out[(size_t)j * mu + k] + alpha * s;
            }
    }
    void sub_matrix_product_to_local(const T *const in, T *const out, int mu, int offset, int size) const override {
        for (int i = 0; i < a.m; i++)
            for (int k = 0; k < mu; k++) {
                T s = T(0);
                for (int j = 0; j < size; j++) s += a(i, offset + j) * in[(size_t)j * mu + k];
                out[(size_t)i * mu + k] = s;
            }
    }
};

template <class T>
struct Group { // what the ranks of one communicator share in the checks (not in the simulated program)
    Dense<T> A;
    Dense<double> B;
    Dense<T> exact;
    bool have_exact = false;
    double exact_tol = -1; // relative, Frobenius
    string exact_what;
};

// One rank's distributed operator.
template <class T>
struct RankOp {
    using H = HMatrix<T, RealOf<T>>;
    Problem<T> *p = nullptr;
    std::unique_ptr<Problem<T>> own;
    BuildOpts o;
    char sym = 'N'; // declared symmetry of the distributed operator
    std::unique_ptr<htool::DefaultApproximationBuilder<T, RealOf<T>>> dflt;
    std::unique_ptr<htool::DefaultLocalApproximationBuilder<T, RealOf<T>>> local;
    std::unique_ptr<htool::DistributedOperatorFromHMatrix<T, RealOf<T>>> fromh;
    std::unique_ptr<htool::PartitionFromCluster<T, RealOf<T>>> pt, ps;
    std::unique_ptr<htool::DistributedOperator<T>> raw;
    vector<std::unique_ptr<Matrix<T>>> mats;
    vector<std::unique_ptr<H>> hmats;
    vector<std::unique_ptr<htool::VirtualLocalOperator<T>>> locals;
    std::shared_ptr<Cluster<RealOf<T>>> offc, offt;
    std::unique_ptr<Gen<T>> offgen, diaggen;
    vector<double> xperm, tpermx;
    struct Single { // a local operator on its own: rows of the rank, all columns, in the numbering of the partition
        const htool::VirtualLocalOperator<T> *op;
        Dense<T> A;
        Dense<double> B;
        int co, nc; // its columns
    };
    vector<Single> singles;
    htool::DistributedOperator<T> *op = nullptr;
    const H *hm = nullptr;
    int mode = 0;

    void build(const Case &c, Problem<T> *shared, MPI_Comm comm, Group<T> &grp) {
        int rank, P;
        MPI_Comm_rank(comm, &rank);
        MPI_Comm_size(comm, &P);
        p = shared;
        if (c["own"]) {
            sim::context("clustering");
            {
                Live l;
                own.reset(new Problem<T>(c, P));
            }
            sim::Quiet q;
            if (!(own->t().get_permutation() == shared->t().get_permutation()) || !(own->s().get_permutation() == shared->s().get_permutation())) sim::violate("clusters", "ranks disagree", "two ranks cluster the same points differently");
            p = own.get();
        }
        sim::Quiet q0;
        o    = BuildOpts::from(c, *p);
        mode = c["mode"] % MODES;
        bool loc = p->t().is_permutation_local() && p->s().is_permutation_local();
        if (mode == M_LOCAL_OFF && !loc) mode = M_LOCAL;
        if (mode >= M_DENSE && mode != M_COMPOSED) o.sym = o.uplo = 'N';
        sym = mode == M_COMPOSED ? 'N' : o.sym;
        auto &lt = p->t().get_cluster_on_partition(rank), &ls = p->s().get_cluster_on_partition(rank);
        int ro = lt.get_offset(), nr = lt.get_size(), nc = p->s().get_size();
        const auto &tp = p->t().get_permutation(), &sp = p->s().get_permutation();
        Dense<T> A(nr, nc);
        Dense<double> B(nr, nc);
        auto addh = [&](const H &h, char s, char u, const vector<int> *colmap) {
            Ref<T> r = reference(h, s, u);
            if (!colmap) check_cover(r);
            int co = h.get_source_cluster().get_offset();
            for (int j = 0; j < r.A.n; j++)
                for (int i = 0; i < r.A.m; i++) {
                    int J = colmap ? (*colmap)[co + j] : co + j;
                    A(i, J) += r.A(i, j), B(i, J) += r.B(i, j);
                }
        };
        sim::context("building the distributed operator");
        double tol = -1;
        bool smooth = p->k.smooth() && (c["geom"] <= 1 || c["geom"] == 6) && o.eta <= 10;
        switch (mode) {
        case M_DEFAULT: {
            {
                Live l;
                dflt.reset(new htool::DefaultApproximationBuilder<T, RealOf<T>>((const htool::VirtualGenerator<T> &)p->gen, p->t(), p->s(), o.eps, o.eta, o.sym, o.uplo, comm));
            }
            op = &dflt->distributed_operator, hm = &dflt->hmatrix;
            addh(*hm, o.sym, o.uplo, nullptr);
            if (smooth) tol = 1e4 * o.eps + ulps<T>() * 1e-9;
            check_diag(dflt->block_diagonal_hmatrix, lt, ls);
            break;
        }
        case M_HMATRIX: {
            o.tpart = o.spart = rank;
            auto b = make_builder(o, *p, c["wseed"]);
            {
                Live l;
                fromh.reset(new htool::DistributedOperatorFromHMatrix<T, RealOf<T>>((const htool::VirtualGenerator<T> &)p->gen, p->t(), p->s(), b, comm));
            }
            op = &fromh->distributed_operator, hm = &fromh->hmatrix;
            addh(*hm, o.sym, o.uplo, nullptr);
            if (o.rr < 0 && o.comp <= 1) tol = o.eps * (1 + 1e-6) + ulps<T>() * 1e-11;
            check_diag(fromh->block_diagonal_hmatrix, lt, ls);
            break;
        }
        case M_LOCAL:
        case M_LOCAL_OFF: {
            {
                Live l;
                local.reset(new htool::DefaultLocalApproximationBuilder<T, RealOf<T>>((const htool::VirtualGenerator<T> &)p->gen, p->t(), p->s(), o.eps, o.eta, o.sym, o.uplo, comm));
            }
            op = &local->distributed_operator, hm = &local->hmatrix;
            addh(*hm, o.sym, o.uplo, nullptr);
            if (smooth) tol = 1e4 * o.eps + ulps<T>() * 1e-9;
            if (mode == M_LOCAL) break;
            off_diagonal(c, rank, lt, ls, A, B);
            break;
        }
        case M_COMPOSED: { // a diagonal block that is symmetric on its own, and the rest
            pt.reset(new htool::PartitionFromCluster<T, RealOf<T>>(p->t())), ps.reset(new htool::PartitionFromCluster<T, RealOf<T>>(p->s()));
            {
                Live l;
                raw.reset(new htool::DistributedOperator<T>(*pt, *ps, 'N', 'N', comm));
            }
            op  = raw.get();
            tol = -2;
            diagonal(c, rank, lt, ls, A, B);
            off_diagonal(c, rank, lt, ls, A, B);
            break;
        }
        default: {
            pt.reset(new htool::PartitionFromCluster<T, RealOf<T>>(p->t())), ps.reset(new htool::PartitionFromCluster<T, RealOf<T>>(p->s()));
            {
                Live l;
                raw.reset(new htool::DistributedOperator<T>(*pt, *ps, 'N', 'N', comm));
            }
            op = raw.get();
            tol = ulps<T>() * 1e-13;
            int K = std::max<int64_t>(1, c["nsplit"]);
            if (mode == M_USER) {
                auto u = std::make_unique<UserLocal<T>>();
                u->a   = Dense<T>(nr, nc);
                for (int j = 0; j < nc; j++)
                    for (int i = 0; i < nr; i++) u->a(i, j) = A(i, j) = p->gen.entry(tp[ro + i], sp[j]), B(i, j) = std::abs(A(i, j));
                locals.push_back(std::move(u));
            } else if (mode == M_DENSE) { // one or several dense operators over all columns, which add up
                for (int k = 0; k < K; k++) {
                    mats.push_back(std::make_unique<Matrix<T>>(nr, nc));
                    for (int j = 0; j < nc; j++)
                        for (int i = 0; i < nr; i++) {
                            T v              = p->gen.entry(tp[ro + i], sp[j]) * T(k == 0 ? 1. - 0.25 * (K - 1) : 0.25);
                            (*mats[k])(i, j) = v;
                            A(i, j) += v, B(i, j) += std::abs(v);
                        }
                    locals.push_back(std::make_unique<htool::LocalDenseMatrix<T, RealOf<T>>>(*mats[k], lt, p->s()));
                }
            } else { // one operator per part of the source, dense or hierarchical
                for (int k = 0; k < P; k++) {
                    auto &sk = p->s().get_cluster_on_partition(k);
                    if ((k + c["nsplit"]) % 2) {
                        htool::HMatrixTreeBuilder<T, RealOf<T>> b(lt, sk, o.eps, o.eta, 'N', 'N', o.rr, -1, -1);
                        {
                            Live l;
                            htool::InternalGeneratorWithPermutation<T> ig(p->gen, tp.data(), sp.data());
                            hmats.push_back(std::make_unique<H>(b.build(ig)));
                        }
                        addh(*hmats.back(), 'N', 'N', nullptr);
                        tol = smooth && o.rr < 0 ? 1e4 * o.eps + ulps<T>() * 1e-9 : -2;
                        locals.push_back(std::make_unique<htool::LocalHMatrix<T, RealOf<T>>>(*hmats.back(), lt, sk));
                    } else {
                        mats.push_back(std::make_unique<Matrix<T>>(nr, sk.get_size()));
                        for (int j = 0; j < sk.get_size(); j++)
                            for (int i = 0; i < nr; i++) {
                                int J                   = sk.get_offset() + j;
                                (*mats.back())(i, j)    = A(i, J) = p->gen.entry(tp[ro + i], sp[J]);
                                B(i, J)                 = std::abs(A(i, J));
                            }
                        locals.push_back(std::make_unique<htool::LocalDenseMatrix<T, RealOf<T>>>(*mats.back(), lt, sk));
                    }
                }
                if (tol > 0 && tol < ulps<T>() * 1e-12 && !hmats.empty()) tol = -2;
            }
            for (auto &l : locals) {
                Live lv;
                op->add_local_operator(l.get());
            }
        }
        }
        if (mode == M_SPLIT) {
            tol = smooth && o.rr < 0 ? 1e4 * o.eps + ulps<T>() * 1e-9 : -1;
        }
        // into the group's reference
        if (!grp.A.m) {
            grp.A = Dense<T>(p->n, p->m), grp.B = Dense<double>(p->n, p->m);
            grp.exact_tol = tol;
            if (mode == M_LOCAL) { // block diagonal
                grp.exact = Dense<T>(p->n, p->m);
                Dense<T> e = p->exact();
                for (int k = 0; k < P; k++) {
                    auto &a = p->t().get_cluster_on_partition(k), &b = p->s().get_cluster_on_partition(k);
                    for (int j = 0; j < b.get_size(); j++)
                        for (int i = 0; i < a.get_size(); i++) grp.exact(a.get_offset() + i, b.get_offset() + j) = e(a.get_offset() + i, b.get_offset() + j);
                }
            } else
                grp.exact = p->exact();
            grp.have_exact = true;
        }
        for (int j = 0; j < nc; j++)
            for (int i = 0; i < nr; i++) grp.A(ro + i, j) = A(i, j), grp.B(ro + i, j) = B(i, j);
        if (tol >= 0) {
            double e = 0, nn = 0;
            for (int j = 0; j < nc; j++)
                for (int i = 0; i < nr; i++) e += std::norm(A(i, j) - grp.exact(ro + i, j)), nn += std::norm(grp.exact(ro + i, j));
            e = std::sqrt(e), nn = std::sqrt(nn);
            if (!(e <= tol * nn + ulps<T>() * 1e-13 * std::sqrt((double)nr * nc))) sim::violate("accuracy", cat("distributed operator, mode ", mode), cat("the rows of rank ", rank, " have relative error ", e / nn, ", allowed ", tol));
        }
        sim::count(cat("mode_", mode).c_str());
    }
    void check_diag(const H *d, const Cluster<RealOf<T>> &lt, const Cluster<RealOf<T>> &ls) {
        // the diagonal block, if the tree has that node, is the rank's own
        if (d && !(d->get_target_cluster() == lt && d->get_source_cluster() == ls)) sim::violate("structure", "diagonal block", "the diagonal block is not the rank's own");
    }
    // the points of a cluster tree in the numbering of its partition, and another tree on them with the given parts
    std::shared_ptr<Cluster<RealOf<T>>> renumbered(const vector<double> &x, const vector<int> &perm, int parts, const vector<int> &part, vector<double> &xp, int nchild) {
        int nn = (int)perm.size();
        xp.resize((size_t)p->dim * nn);
        for (int j = 0; j < nn; j++)
            for (int d = 0; d < p->dim; d++) xp[(size_t)p->dim * j + d] = x[(size_t)p->dim * perm[j] + d];
        htool::ClusterTreeBuilder<RealOf<T>> cb;
        cb.set_minclustersize(p->co.mcs);
        Live l;
        return std::make_shared<Cluster<RealOf<T>>>(cb.create_cluster_tree(nn, p->dim, RealCopy<RealOf<T>>(xp.data(), xp.size()).p, nchild, parts, part.data()));
    }
    // adds what a local operator holds; its rows and columns go through the permutations of its clusters where it is so declared
    void declare(const Dense<T> &a, const Dense<double> &b, const Cluster<RealOf<T>> &lt, const Cluster<RealOf<T>> &ls, bool tp, bool sp, Dense<T> &A, Dense<double> &B) {
        int ro = lt.get_offset(), co = ls.get_offset();
        Single s{locals.back().get(), Dense<T>(A.m, A.n), Dense<double>(A.m, A.n), co, ls.get_size()};
        for (int j = 0; j < a.n; j++)
            for (int i = 0; i < a.m; i++) {
                int I = tp ? lt.get_permutation()[ro + i] - ro : i, J = sp ? ls.get_permutation()[co + j] : co + j;
                A(I, J) += a(i, j), B(I, J) += b(i, j);
                s.A(I, J) += a(i, j), s.B(I, J) += b(i, j);
            }
        singles.push_back(std::move(s));
        Live l;
        op->add_local_operator(locals.back().get());
    }
    void add_dense(const Cluster<RealOf<T>> &lt, const Cluster<RealOf<T>> &ls, const Gen<T> &g, char s, char u, bool tp, bool sp, Dense<T> &A, Dense<double> &B) {
        int nr = lt.get_size(), nc = ls.get_size(), ro = lt.get_offset(), co = ls.get_offset();
        Dense<T> a(nr, nc);
        Dense<double> b(nr, nc);
        vector<T> col(nr);
        for (int j = 0; j < nc; j++) {
            g.copy_submatrix(nr, 1, lt.get_permutation().data() + ro, ls.get_permutation().data() + co + j, col.data());
            for (int i = 0; i < nr; i++) a(i, j) = col[i], b(i, j) = std::abs(col[i]);
        }
        mats.push_back(std::make_unique<Matrix<T>>(nr, nc));
        for (int j = 0; j < nc; j++)
            for (int i = 0; i < nr; i++) {
                (*mats.back())(i, j) = a(i, j);
                if (s != 'N' && (u == 'L' ? i < j : i > j)) (*mats.back())(i, j) = make<T>(1e5, -3e4); // this triangle does not count
            }
        {
            Live l;
            locals.push_back(std::make_unique<htool::LocalDenseMatrix<T, RealOf<T>>>(*mats.back(), lt, ls, s, u, tp, sp));
        }
        declare(a, b, lt, ls, tp, sp, A, B);
    }
    void add_hierarchical(const Cluster<RealOf<T>> &lt, const Cluster<RealOf<T>> &ls, const Gen<T> &g, char s, char u, bool tp, bool sp, Dense<T> &A, Dense<double> &B) {
        htool::HMatrixTreeBuilder<T, RealOf<T>> b(lt, ls, o.eps, o.eta, s, u, -1, -1, -1);
        {
            Live l;
            hmats.push_back(std::make_unique<H>(b.build((const htool::VirtualGenerator<T> &)g)));
        }
        Ref<T> r = reference(*hmats.back(), s, u);
        check_cover(r);
        {
            Live l;
            locals.push_back(std::make_unique<htool::LocalHMatrix<T, RealOf<T>>>(*hmats.back(), lt, ls, s, u, tp, sp));
        }
        declare(r.A, r.B, lt, ls, tp, sp, A, B);
    }
    static vector<int> parts_of(const Cluster<RealOf<T>> &c) {
        vector<int> part;
        for (auto q : c.get_clusters_on_partition()) part.push_back(q->get_offset()), part.push_back(q->get_size());
        return part;
    }
    void diagonal(const Case &c, int rank, const Cluster<RealOf<T>> &lt, const Cluster<RealOf<T>> &ls, Dense<T> &A, Dense<double> &B) {
        const auto &tp = p->t().get_permutation(), &sp = p->s().get_permutation();
        bool perm = c["diagperm"];
        const Cluster<RealOf<T>> *dt = &lt, *ds = &ls;
        // one local operator on another numbering of the same points
        diaggen.reset(perm ? new OffGen(p->gen, &tp, sp) : new Gen<T>(p->gen));
        if (perm) {
            offt = renumbered(p->xt, tp, (int)p->t().get_clusters_on_partition().size(), parts_of(p->t()), tpermx, 3);
            if (!offt->is_permutation_local() && offt->get_clusters_on_partition().size() > 1) sim::violate("clusters", "local permutation", "a tree with a given partition has no local permutation");
            dt = &offt->get_cluster_on_partition(rank);
            if (p->same) ds = dt;
        }
        bool sperm = perm && p->same;
        if (!sperm && perm) diaggen.reset(new OffGen(p->gen, &tp, sp, false));
        if (c["nsplit"] % 2)
            add_dense(*dt, *ds, *diaggen, o.sym, o.uplo, perm, sperm, A, B);
        else
            add_hierarchical(*dt, *ds, *diaggen, o.sym, o.uplo, perm, sperm, A, B);
    }
    void off_diagonal(const Case &c, int rank, const Cluster<RealOf<T>> &lt0, const Cluster<RealOf<T>> &ls, Dense<T> &A, Dense<double> &B) {
        int nc = p->s().get_size(), off = ls.get_offset(), nl = ls.get_size(), rest = nc - off - nl;
        const auto &tp = p->t().get_permutation(), &sp = p->s().get_permutation();
        const Cluster<RealOf<T>> *lt = &lt0;
        bool tperm = c["tperm"];
        if (tperm) {
            if (!offt) offt = renumbered(p->xt, tp, (int)p->t().get_clusters_on_partition().size(), parts_of(p->t()), tpermx, 3);
            lt = &offt->get_cluster_on_partition(rank);
        }
        offgen.reset(new OffGen(p->gen, tperm ? &tp : nullptr, sp));
        offc = renumbered(p->xs(), sp, 2, {0, off, off + nl, rest}, xperm, 2);
        for (int k = 0; k < 2; k++) {
            auto &oc = offc->get_cluster_on_partition(k);
            if (oc.get_size() == 0) continue;
            if (c["offkind"] == 0)
                add_dense(*lt, oc, *offgen, 'N', 'N', tperm, true, A, B);
            else
                add_hierarchical(*lt, oc, *offgen, 'N', 'N', tperm, true, A, B);
        }
    }
    class OffGen : public Gen<T> { // indices in the numbering of a partition
      public:
        const Gen<T> &g;
        const vector<int> *tp;
        const vector<int> &sp;
        bool cols_too;
        OffGen(const Gen<T> &g_, const vector<int> *tp_, const vector<int> &sp_, bool cols = true) : g(g_), tp(tp_), sp(sp_), cols_too(cols) {}
        void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
            for (int j = 0; j < N; j++)
                for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = g.entry(tp ? (*tp)[rows[i]] : rows[i], cols_too ? sp[cols[j]] : cols[j]);
        }
    };
};
} // namespace drv
