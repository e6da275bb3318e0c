// Copies, moves and assignments of operators, low-rank and dense matrices and cluster trees: histories of concurrent
// callers that share the sources, with failing allocations (H01).
#define DRV_SINGLE
#include "common.hpp"
#include "faults.hpp"
#include "logcapture.hpp"
using namespace drv;

enum { COPY, ASSIGN, MOVE, MOVE_ASSIGN, SWAP, SCALE, REPLACE, SETTINGS, PRODUCT, DESTROY, LR_COPY, LR_ASSIGN, LR_MOVE, LR_NEW, M_COPY, M_ASSIGN, M_MOVE, M_RESIZE, M_VIEW, M_NEW, CL_MOVE, CL_NEW, OPS };
static const char *names[] = {"copy of an operator", "copy assignment of an operator", "move of an operator", "move assignment of an operator", "swap of operators", "scaling of an operator", "new coefficients for a block", "new settings of an operator", "product with an operator", "destruction of an operator", "copy of a low-rank matrix", "copy assignment of a low-rank matrix", "move of a low-rank matrix", "new low-rank matrix", "copy of a matrix", "copy assignment of a matrix", "move of a matrix", "resizing a matrix", "view of user memory", "new matrix", "move of a cluster tree", "new cluster tree"};
enum { SLOTS = 3 };

static void gen_objects(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.set("dyn", r.chance(0.2), 0);
    gen_problem(c, r, tier ? 90 : 60, 4);
    gen_builder(c, r);
    int callers = r.chance(0.55) ? 1 : 2 + (int)r.below(2);
    c.set("callers", callers, 1);
    c.set("sticky", r.chance(0.4), 0);
    for (int k = 0; k < callers; k++) c.set(cat("threads", k), 1 + (int)r.below(3), 1);
    int n      = 4 + (int)r.below(tier ? 30 : 16);
    int focus  = (int)r.below(5); // operators, low rank, matrices, clusters, all
    bool fault = callers == 1 && r.chance(0.5);
    for (int k = 0; k < callers; k++) // something to begin with
        for (int kind : {(int)COPY, (int)COPY, (int)LR_NEW, (int)LR_NEW, (int)M_NEW, (int)M_NEW, (int)CL_NEW})
            if (r.chance(0.7)) c.ops.push_back({k, kind, (int64_t)r.below(SLOTS), kind == COPY ? SLOTS + (int64_t)r.below(2) : 0, (int64_t)(r.next() >> 2), 0});
    for (int i = 0; i < n; i++) {
        int64_t kind = r.below(OPS);
        if (focus == 0) kind = r.below(LR_COPY);
        if (focus == 1) kind = LR_COPY + r.below(4);
        if (focus == 2) kind = M_COPY + r.below(6);
        if (focus == 3) kind = CL_MOVE + r.below(2);
        c.ops.push_back({(int64_t)r.below(callers), kind, (int64_t)r.below(SLOTS), (int64_t)r.below(SLOTS + 2), (int64_t)(r.next() >> 2), fault && r.chance(0.4) ? 1 + (int64_t)r.below(r.chance(0.5) ? 12 : 300) : 0});
    }
}

template <class T>
using LR = htool::LowRankMatrix<T, RealOf<T>>;
enum State { EMPTY, KNOWN, MOVED, BROKEN }; // BROKEN: the target of an operation that failed, to be destroyed or overwritten

template <class T>
struct Model { // the value of an operator
    Ref<T> ref;
    char sym = 'N', uplo = 'N';
    double eps = 0, eta = 0;
    unsigned mtd = 0, msd = 0;
    bool cons = true;
    void settings(const HMatrix<T, RealOf<T>> &h) {
        auto &t = *h.get_hmatrix_tree_data();
        eps = t.m_epsilon, eta = t.m_eta, mtd = t.m_minimal_target_depth, msd = t.m_minimal_source_depth, cons = t.m_is_block_tree_consistent;
    }
};
template <class T>
struct HSlot {
    std::unique_ptr<HMatrix<T, RealOf<T>>> h;
    State s = EMPTY;
    Model<T> v;
};
template <class T>
struct MValue {
    int m = 0, n = 0;
    vector<T> a, piv;
};
template <class T>
struct MSlot {
    std::unique_ptr<Matrix<T>> x;
    State s = EMPTY;
    int m = 0, n = 0;
    vector<T> a;
    int view = -1; // looks at this memory of the user
    vector<int> piv;
};
template <class T>
struct LSlot {
    std::unique_ptr<LR<T>> x;
    State s = EMPTY;
    MValue<T> u, v;
    double eps = 0;
};
template <class T>
struct World {
    const Case &c;
    Problem<T> p;
    BuildOpts o;
    int K;
    std::unique_ptr<HMatrix<T, RealOf<T>>> shared[2]; // as the case says, and without symmetry
    Model<T> value[2];
    explicit World(const Case &c_) : c(c_), p(c_) {
        p.gen.points = false;
        o            = BuildOpts::from(c, p);
        K            = std::max<int64_t>(1, c["callers"]);
        sim::omp_threads(1);
        for (int q = 0; q < 2; q++) {
            BuildOpts q_o = o;
            Gen<T> g      = p.gen;
            if (q) q_o.sym = q_o.uplo = 'N', q_o.dbg = false, g.k.seed += 5;
            auto b = make_builder(q_o, p, c["wseed"]);
            Live l;
            shared[q].reset(new HMatrix<T, RealOf<T>>(b.build((const htool::VirtualGenerator<T> &)g)));
        }
        value[0].sym = o.sym, value[0].uplo = o.uplo;
        for (int q = 0; q < 2; q++) value[q].ref = reference(*shared[q], value[q].sym, value[q].uplo), value[q].settings(*shared[q]);
    }
};
template <class T>
struct Caller {
    HSlot<T> h[SLOTS];
    LSlot<T> l[SLOTS];
    MSlot<T> m[SLOTS];
    vector<T> ext[SLOTS];
    std::unique_ptr<Cluster<double>> cl[SLOTS];
    vector<std::pair<int, int>> parts[SLOTS]; // what the tree in the slot must offer
    int nodes[SLOTS] = {0, 0, 0};
};

static vector<int> random_pivots(Rng &r, int n) {
    vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = i + 1 + (int)r.below(n - i);
    return v;
}
template <class T>
static void same_tree(const HMatrix<T, RealOf<T>> &a, const HMatrix<T, RealOf<T>> &b, const string &what) { // a copy of b
    auto bad = [&](const char *w) { sim::violate_unless_known("wrong-copy", what, cat(what, ": the result differs in ", w)); };
    if (!(a.get_target_cluster() == b.get_target_cluster()) || !(a.get_source_cluster() == b.get_source_cluster())) bad("its clusters");
    if (a.get_symmetry() != b.get_symmetry() || a.get_UPLO() != b.get_UPLO()) bad("its symmetry");
    if (a.is_dense() != b.is_dense() || a.is_low_rank() != b.is_low_rank() || a.is_hierarchical() != b.is_hierarchical()) bad("its kind of storage");
    if (a.get_depth() != b.get_depth() || a.is_root() != b.is_root() || a.is_leaf() != b.is_leaf()) bad("its place in the tree");
    if (a.get_epsilon() != b.get_epsilon()) bad("its tolerance");
    if (a.get_symmetry_for_leaves() != b.get_symmetry_for_leaves() || a.get_UPLO_for_leaves() != b.get_UPLO_for_leaves()) bad("the symmetry of its leaves");
    auto &ta = *a.get_hmatrix_tree_data(), &tb = *b.get_hmatrix_tree_data();
    if (ta.m_low_rank_generator != tb.m_low_rank_generator || ta.m_admissibility_condition != tb.m_admissibility_condition || ta.m_reqrank != tb.m_reqrank) bad("its strategies");
    if (ta.m_information != tb.m_information || ta.m_timings != tb.m_timings) bad("its information");
    if (!a.get_dense_data() != !b.get_dense_data() || !a.get_low_rank_data() != !b.get_low_rank_data()) bad("the data it holds");
    if (a.get_dense_data() && a.get_dense_data() == b.get_dense_data()) bad("ownership: both hold the same coefficients");
    if (a.get_dense_data() && b.get_dense_data() && a.get_dense_data()->get_pivots() != b.get_dense_data()->get_pivots()) bad("the pivots of a block");
    if (&ta == &tb) bad("ownership: both hold the same settings");
    if (a.is_dense() && b.is_dense() && a.get_dense_data() == b.get_dense_data()) bad("ownership: both hold the same coefficients");
    if (a.is_low_rank() && b.is_low_rank() && a.get_low_rank_data() == b.get_low_rank_data()) bad("ownership: both hold the same coefficients");
    if (a.get_children().size() != b.get_children().size()) bad("the number of its children");
    for (size_t i = 0; i < std::min(a.get_children().size(), b.get_children().size()); i++) same_tree(*a.get_children()[i], *b.get_children()[i], what);
}
template <class T>
static void check_value(const HMatrix<T, RealOf<T>> &h, const Model<T> &v, const string &what, const char *who) {
    if (h.get_target_cluster().get_size() != v.ref.A.m || h.get_source_cluster().get_size() != v.ref.A.n) sim::violate_unless_known("wrong-copy", what, cat(what, ": ", who, " has another size"));
    htool::preorder_tree_traversal(h, [&](const HMatrix<T, RealOf<T>> &node) {
        auto &t = *node.get_hmatrix_tree_data();
        if (t.m_epsilon != (RealOf<T>)v.eps || node.get_epsilon() != (RealOf<T>)v.eps || t.m_eta != (RealOf<T>)v.eta || t.m_minimal_target_depth != v.mtd || t.m_minimal_source_depth != v.msd || t.m_is_block_tree_consistent != v.cons || node.is_block_tree_consistent() != v.cons) sim::violate_unless_known("wrong-copy", what, cat(what, ": a block of ", who, " has other settings"));
    });
    Ref<T> now = reference(h, v.sym, v.uplo);
    bool same = now.A.a.size() == v.ref.A.a.size();
    for (size_t i = 0; same && i < now.A.a.size(); i++)
        if (!(now.A.a[i] == v.ref.A.a[i]) && !(std::abs(now.A.a[i] - v.ref.A.a[i]) < (ulps<T>() > 1 ? 1e-37 : 1e-300))) same = false; // scaling by two is exact, but not for subnormal numbers
    if (!same) sim::violate_unless_known("wrong-copy", what, cat(what, ": ", who, " has other coefficients, by ", diff(now.A, v.ref.A), " in norm"));
}
template <class T>
static void check_product(const HMatrix<T, RealOf<T>> &h, const Model<T> &v, Rng &r, const string &what) {
    if (v.sym == 'H' && !is_cplx<T>::value) return;
    char t = "NTC"[r.below(3)];
    if ((v.sym == 'S' || v.sym == 'H') && t != 'N' && is_cplx<T>::value) t = 'N';
    if (t == 'C' && !is_cplx<T>::value) t = 'T';
    int ni = t == 'N' ? v.ref.A.n : v.ref.A.m, no = t == 'N' ? v.ref.A.m : v.ref.A.n;
    vector<T> x = random_vec<T>(r, ni), y = random_vec<T>(r, no), want;
    vector<double> bound;
    T alpha = random_scalar<T>(r), beta = random_scalar<T>(r);
    ref_gemv(t, alpha, v.ref, x.data(), beta, y.data(), want, bound);
    bool omp = r.chance(0.5);
    {
        Live l;
        if (omp)
            htool::openmp_internal_add_hmatrix_vector_product(t, alpha, h, x.data(), beta, y.data());
        else
            htool::sequential_internal_add_hmatrix_vector_product(t, alpha, h, x.data(), beta, y.data());
    }
    compare(what, y.data(), want.data(), bound.data(), want.size());
}
template <class F>
static bool attempt(int64_t fault, bool sticky, const string &what, F f) {
    if (fault) {
        sim::alloc_reset();
        sim::AllocPlan a;
        a.fail_at = fault - 1;
        a.sticky  = sticky;
        sim::alloc_plan(a);
    }
    bool ok = true;
    try {
        Live l;
        f();
    } catch (const std::bad_alloc &) {
        ok = false;
    }
    bool fired = fault && sim::alloc_fired();
    sim::alloc_plan(sim::AllocPlan());
    if (!ok && !fired) sim::violate("exception", what, "an allocation is reported to have failed, but none did");
    if (fired) sim::count("faults_alloc");
    if (!ok) sim::count("failed_operations");
    return ok;
}

// ---------------------------------------------------------------- operators
template <class T>
static void h_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, const string &what) {
    using H = HMatrix<T, RealOf<T>>;
    HSlot<T> &d = me.h[op[2] % SLOTS];
    int from    = op[3] % (SLOTS + 2);
    Rng r(op[4]);
    int64_t fault = w.K == 1 ? op[5] : 0;
    bool sticky   = w.c["sticky"];
    HSlot<T> *s   = from < SLOTS ? &me.h[from] : nullptr;
    if ((op[1] == ASSIGN || op[1] == MOVE_ASSIGN) && r.chance(0.15)) s = &d; // to itself, or from one of its own blocks
    const H *src  = s ? s->h.get() : w.shared[from - SLOTS].get();
    bool readable = s ? s->s == KNOWN : true;
    const Model<T> &sv = s ? s->v : w.value[from - SLOTS];
    switch (op[1]) {
    case COPY: {
        if (!readable || s == &d) return;
        std::unique_ptr<H> fresh;
        if (attempt(fault, sticky, what, [&] { fresh.reset(new H(*src)); })) {
            same_tree(*fresh, *src, what);
            check_value(*fresh, sv, what, "the copy");
            check_product(*fresh, sv, r, what + ", product");
            Live l;
            d.h = std::move(fresh);
            sim::Quiet q;
            d.s = KNOWN, d.v = sv;
        }
        check_value(*src, sv, what, "the source");
        break;
    }
    case ASSIGN: {
        if (!readable || !d.h) return;
        bool self = s == &d;
        Model<T> want = sv;
        if (self && r.chance(0.6)) { // one of its own blocks
            vector<const H *> all;
            htool::preorder_tree_traversal(*src, [&](const H &b) { all.push_back(&b); });
            const H *b = all[r.below(all.size())];
            want.sym = b->get_symmetry(), want.uplo = b->get_UPLO();
            if (b != src && sv.sym != 'N' && want.sym == 'N' && b->get_target_cluster().get_offset() == b->get_source_cluster().get_offset()) return; // stores one triangle
            want.ref   = reference(*b, want.sym, want.uplo);
            string own = what + " from one of its blocks";
            unsigned depth = b->get_depth();
            if (attempt(fault, sticky, own, [&] { *d.h = *b; })) {
                d.s = KNOWN, d.v = want;
                check_value(*d.h, d.v, own, "the target");
                if (d.h->get_depth() != depth) sim::violate_unless_known("wrong-copy", own, "the place in the tree differs");
                check_product(*d.h, d.v, r, own + ", product");
                sim::count("assigned_own_blocks");
            } else
                d.s = BROKEN;
            break;
        }
        if (attempt(fault, sticky, what, [&] { *d.h = *src; })) {
            d.s = KNOWN, d.v = want;
            if (!self) same_tree(*d.h, *src, what);
            check_value(*d.h, d.v, what, "the target");
            check_product(*d.h, d.v, r, what + ", product");
        } else
            d.s = self ? KNOWN : BROKEN;
        check_value(*src, self ? want : sv, what, "the source");
        break;
    }
    case MOVE: {
        if (!s || s->s != KNOWN || s == &d) return;
        {
            Live l;
            std::unique_ptr<H> fresh(new H(std::move(*s->h)));
            d.h = std::move(fresh);
        }
        d.s = KNOWN, d.v = s->v, s->s = MOVED;
        check_value(*d.h, d.v, what, "the result");
        check_product(*d.h, d.v, r, what + ", product");
        break;
    }
    case MOVE_ASSIGN: {
        if (!s || s->s != KNOWN || !d.h) return;
        if (s == &d) { // one of its own blocks
            vector<H *> all;
            htool::preorder_tree_traversal(*d.h, [&](const H &b) { all.push_back(const_cast<H *>(&b)); });
            H *b = all[r.below(all.size())];
            if (b == d.h.get()) return;
            Model<T> want = d.v;
            want.sym = b->get_symmetry(), want.uplo = b->get_UPLO();
            if (d.v.sym != 'N' && want.sym == 'N' && b->get_target_cluster().get_offset() == b->get_source_cluster().get_offset()) return; // stores one triangle
            want.ref       = reference(*b, want.sym, want.uplo);
            string own     = what + " from one of its blocks";
            unsigned depth = b->get_depth();
            {
                Live l;
                *d.h = std::move(*b);
            }
            d.v = want;
            check_value(*d.h, d.v, own, "the target");
            if (d.h->get_depth() != depth) sim::violate_unless_known("wrong-copy", own, "the place in the tree differs");
            check_product(*d.h, d.v, r, own + ", product");
            sim::count("moved_own_blocks");
            break;
        }
        {
            Live l;
            *d.h = std::move(*s->h);
        }
        d.s = KNOWN, d.v = s->v, s->s = MOVED;
        check_value(*d.h, d.v, what, "the target");
        check_product(*d.h, d.v, r, what + ", product");
        break;
    }
    case SWAP: {
        if (!s || s->s != KNOWN || d.s != KNOWN || s == &d) return;
        {
            Live l;
            std::swap(*d.h, *s->h);
        }
        std::swap(d.v, s->v);
        check_value(*d.h, d.v, what, "the first");
        check_value(*s->h, s->v, what, "the second");
        check_product(*d.h, d.v, r, what + ", product");
        break;
    }
    case SCALE: {
        if (d.s != KNOWN) return;
        T z = r.chance(0.5) ? T(2) : T(-0.5); // exact
        {
            Live l;
            htool::sequential_scale(z, *d.h);
        }
        for (auto &x : d.v.ref.A.a) x *= z;
        for (auto &x : d.v.ref.B.a) x *= std::abs(z);
        check_value(*d.h, d.v, what, "the operator");
        break;
    }
    case REPLACE: {
        if (d.s != KNOWN) return;
        vector<Leaf<T>> lv;
        collect(*d.h, false, lv);
        auto &at = lv[r.below(lv.size())];
        auto &l  = at;
        H *leaf  = const_cast<H *>(l.h);
        auto old = d.v.ref.A;
        Dense<T> nw(l.nr, l.nc);
        for (auto &x : nw.a) x = make<T>((double)r.below(9) - 4, (double)r.below(9) - 4);
        if (l.ro == l.co && d.v.sym == 'H')
            for (int i = 0; i < l.nr; i++) nw(i, i) = make<T>(std::real(nw(i, i)), 0);
        {
            Live live;
            std::unique_ptr<Matrix<T>> x(new Matrix<T>(l.nr, l.nc));
            for (int j = 0; j < l.nc; j++)
                for (int i = 0; i < l.nr; i++) (*x)(i, j) = nw(i, j);
            if (r.chance(0.5)) x->get_pivots() = random_pivots(r, l.nr); // as a factorisation leaves them
            leaf->set_dense_data(std::move(x));
        }
        d.v.ref = reference(*d.h, d.v.sym, d.v.uplo);
        for (int j = 0; j < old.n; j++)
            for (int i = 0; i < old.m; i++) {
                int i0 = d.h->get_target_cluster().get_offset(), j0 = d.h->get_source_cluster().get_offset();
                Leaf<T> l = at;
                l.ro -= i0, l.co -= l.mirrored ? i0 : j0;
                bool in = i >= l.ro && i < l.ro + l.nr && j >= l.co && j < l.co + l.nc, in2 = l.mirrored && j >= l.ro && j < l.ro + l.nr && i >= l.co && i < l.co + l.nc;
                if (!in && !in2 && std::abs(d.v.ref.A(i, j) - old(i, j)) >= (ulps<T>() > 1 ? 1e-37 : 1e-300) && d.v.ref.A(i, j) != old(i, j)) sim::violate_unless_known("wrong-copy", what, "a coefficient outside of the block changed");
                bool counts = leaf->get_symmetry() == 'N' || (d.v.uplo == 'L' ? i - l.ro >= j - l.co : i - l.ro <= j - l.co);
                if (in && counts && d.v.ref.A(i, j) != nw(i - l.ro, j - l.co)) sim::violate_unless_known("wrong-copy", what, "the block does not hold its new coefficients");
            }
        break;
    }
    case SETTINGS: {
        if (d.s != KNOWN) return;
        d.v.eps = std::pow(10., -1. - (double)r.below(8)), d.v.eta = 1 + (double)r.below(50), d.v.mtd = (unsigned)r.below(5), d.v.msd = (unsigned)r.below(5), d.v.cons = r.chance(0.5);
        {
            Live l;
            d.h->set_epsilon(d.v.eps), d.h->set_eta(d.v.eta), d.h->set_minimal_target_depth(d.v.mtd), d.h->set_minimal_source_depth(d.v.msd), d.h->set_block_tree_consistency(d.v.cons);
        }
        check_value(*d.h, d.v, what, "the operator");
        break;
    }
    case PRODUCT:
        if (d.s == KNOWN) check_product(*d.h, d.v, r, what);
        break;
    case DESTROY: {
        Live l;
        d.h.reset();
        d.s = EMPTY;
        break;
    }
    }
}

// ---------------------------------------------------------------- low-rank and dense matrices
template <class T>
static bool holds(const Matrix<T> &x, const MValue<T> &v) { return x.nb_rows() == v.m && x.nb_cols() == v.n && bits_equal(x.data(), v.a.data(), v.a.size()); }
template <class T>
static MValue<T> random_value(Rng &r, int m, int n) {
    MValue<T> v;
    v.m = m, v.n = n;
    v.a = random_vec<T>(r, (size_t)m * n);
    return v;
}
template <class T>
static Matrix<T> matrix_from(const MValue<T> &v) {
    Matrix<T> x(v.m, v.n);
    std::copy(v.a.begin(), v.a.end(), x.data());
    return x;
}
template <class T>
static void l_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, const string &what) {
    LSlot<T> &d = me.l[op[2] % SLOTS], &s = me.l[op[3] % SLOTS];
    Rng r(op[4]);
    int64_t fault = w.K == 1 ? op[5] : 0;
    bool sticky   = w.c["sticky"];
    auto check    = [&](LSlot<T> &x, const char *who) {
        if (!holds(x.x->get_U(), x.u) || !holds(x.x->get_V(), x.v) || x.x->get_epsilon() != (RealOf<T>)x.eps || x.x->rank_of() != x.u.n) sim::violate_unless_known("wrong-copy", what, cat(what, ": ", who, " has another value"));
    };
    if (op[1] == LR_NEW) {
        int m = 1 + (int)r.below(9), n = 1 + (int)r.below(9), k = (int)r.below(4);
        Live l;
        d.x.reset(new LR<T>(1e-3 * (1 + (int)(op[4] % 7))));
        sim::Quiet q;
        d.eps = 1e-3 * (1 + (int)(op[4] % 7));
        d.u = random_value<T>(r, m, k), d.v = random_value<T>(r, k, n);
        Live l2;
        d.x->get_U() = matrix_from(d.u), d.x->get_V() = matrix_from(d.v);
        d.s = KNOWN;
        return;
    }
    if (s.s != KNOWN) return;
    if (op[1] == LR_COPY) {
        if (&s == &d) return;
        std::unique_ptr<LR<T>> f;
        if (attempt(fault, sticky, what, [&] { f.reset(new LR<T>(*s.x)); })) {
            {
                Live l;
                d.x = std::move(f);
            }
            d.s = KNOWN, d.u = s.u, d.v = s.v, d.eps = s.eps;
            check(d, "the copy");
        }
        check(s, "the source");
    } else if (op[1] == LR_ASSIGN) {
        if (!d.x) return;
        if (attempt(fault, sticky, what, [&] { *d.x = *s.x; })) {
            d.s = KNOWN, d.u = s.u, d.v = s.v, d.eps = s.eps;
            check(d, "the target");
        } else if (&d != &s)
            d.s = BROKEN;
        check(s, "the source");
    } else {
        if (!d.x || &s == &d) return;
        bool ok = attempt(fault, sticky, what, [&] { *d.x = std::move(*s.x); }); // may copy
        if (ok) {
            d.s = KNOWN, d.u = s.u, d.v = s.v, d.eps = s.eps, s.s = MOVED;
            check(d, "the target");
        } else
            d.s = BROKEN, s.s = MOVED;
    }
}
template <class T>
static void m_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, const string &what) {
    MSlot<T> &d = me.m[op[2] % SLOTS], &s = me.m[op[3] % SLOTS];
    Rng r(op[4]);
    int64_t fault = w.K == 1 ? op[5] : 0;
    bool sticky   = w.c["sticky"];
    auto put      = [&](MSlot<T> &x, int m, int n, const vector<T> &a) { x.m = m, x.n = n, x.a = a, x.s = KNOWN, x.piv = x.x->get_pivots(); };
    auto check    = [&](MSlot<T> &x, const char *who) {
        if (x.x->nb_rows() != x.m || x.x->nb_cols() != x.n || (x.m * x.n && !sim::addressable(x.x->data(), sizeof(T) * x.m * x.n)) || !bits_equal(x.x->data(), x.a.data(), x.a.size())) sim::violate_unless_known("wrong-copy", what, cat(what, ": ", who, " has another value"));
        if (x.x->get_pivots() != x.piv) sim::violate_unless_known("wrong-copy", what, cat(what, ": ", who, " has other pivots"));
    };
    vector<vector<T>> before;
    for (auto &e : me.ext) before.push_back(e);
    int mine = d.view; // writing through a view is what it is for
    auto sync = [&](MSlot<T> *but) { // other slots may look at the memory that changed
        for (auto &x : me.m)
            if (&x != but && x.view >= 0 && x.view == mine && x.s == KNOWN) std::copy_n(me.ext[x.view].begin(), x.a.size(), x.a.begin());
    };
    switch (op[1]) {
    case M_NEW: {
        MValue<T> v = random_value<T>(r, (int)r.below(7), (int)r.below(7));
        {
            Live l;
            d.x.reset(new Matrix<T>(matrix_from(v)));
            if (r.chance(0.5)) d.x->get_pivots() = random_pivots(r, v.m);
        }
        put(d, v.m, v.n, v.a), d.view = -1;
        break;
    }
    case M_VIEW: {
        if (!d.x) return;
        int e = (int)r.below(SLOTS), n = 1 + (int)r.below(20);
        for (auto &x : me.m)
            if (x.view == e && x.s != EMPTY) return; // memory of the user stays while it is looked at
        me.ext[e] = random_vec<T>(r, n);
        before[e] = me.ext[e];
        {
            Live l;
            d.x->assign(n, 1, me.ext[e].data(), false);
        }
        put(d, n, 1, me.ext[e]), d.view = e;
        break;
    }
    case M_RESIZE: {
        if (!d.x) return;
        int m = r.chance(0.3) ? d.n : (int)r.below(7), n = r.chance(0.3) ? d.m : (int)r.below(7);
        T z = random_scalar<T>(r);
        if (attempt(fault, sticky, what, [&] { d.x->resize(m, n, z); })) {
            if ((size_t)m * n != d.a.size() || d.s != KNOWN) d.view = -1; // else: keeps its memory
            put(d, m, n, vector<T>((size_t)m * n, z));
            if (d.view < 0) mine = -1;
            check(d, "the matrix");
        } else {
            if (d.s == KNOWN) check(d, "the matrix that could not be resized");
            mine = -1;
        }
        sync(&d);
        break;
    }
    case M_COPY: {
        if ((s.s != KNOWN && s.s != MOVED) || &s == &d) return;
        std::unique_ptr<Matrix<T>> f;
        if (attempt(fault, sticky, what, [&] { f.reset(new Matrix<T>(*s.x)); })) {
            {
                Live l;
                d.x = std::move(f);
            }
            if (s.s == KNOWN)
                put(d, s.m, s.n, s.a), d.piv = s.piv;
            else
                d.s = MOVED;
            d.view = -1;
            if (d.s == KNOWN) check(d, "the copy");
        }
        if (s.s == KNOWN) check(s, "the source");
        mine = -1;
        break;
    }
    case M_ASSIGN: {
        if (s.s != KNOWN || !d.x) return;
        size_t had = d.s == KNOWN ? d.a.size() : (size_t)-1;
        if (attempt(fault, sticky, what, [&] { *d.x = *s.x; })) {
            if (had != s.a.size()) d.view = -1, mine = -1;
            if (&d != &s) put(d, s.m, s.n, s.a), d.piv = s.piv;
            check(d, "the target");
            sync(&d);
        } else if (&d != &s) {
            d.s = BROKEN; // pivots may fail after the coefficients
            sync(&d);
        }
        if (s.view < 0 || s.view != mine) check(s, "the source");
        break;
    }
    case M_MOVE: {
        if (s.s != KNOWN || &s == &d) return;
        bool construct = r.chance(0.5) || !d.x;
        bool ok        = attempt(fault, sticky, what, [&] {
            if (construct) {
                std::unique_ptr<Matrix<T>> f(new Matrix<T>(std::move(*s.x)));
                d.x = std::move(f);
            } else
                *d.x = std::move(*s.x);
        });
        mine = -1;
        if (ok) {
            put(d, s.m, s.n, s.a), d.view = s.view, d.piv = s.piv;
            s.s = MOVED, s.view = -1;
            check(d, "the result");
        } else if (construct) // the allocation of the new object failed: nothing moved
            check(s, "the source");
        else
            d.s = BROKEN, d.view = -1, s.s = BROKEN;
        break;
    }
    }
    for (int e = 0; e < SLOTS; e++)
        if (e != mine && !bits_equal(me.ext[e].data(), before[e].data(), before[e].size())) sim::violate_unless_known("wrong-copy", what, cat(what, ": memory of the user changed"));
}

// ---------------------------------------------------------------- cluster trees
static void tree_nodes(const Cluster<double> &c, std::map<const Cluster<double> *, int> &out) {
    out[&c] = c.get_offset();
    for (auto &x : c.get_children()) tree_nodes(*x, out);
}
template <class T>
static void c_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, const string &what) {
    int d = op[2] % SLOTS, s = op[3] % SLOTS;
    Rng r(op[4]);
    if (op[1] == CL_NEW) {
        int P = 1 + (int)r.below(3);
        auto &p = w.p;
        vector<int> part = Problem<T>::make_partition(p.n, std::min(P, p.n), op[4]);
        {
            Live l;
            htool::ClusterTreeBuilder<double> b;
            b.set_minclustersize(p.co.mcs);
            me.cl[d].reset(new Cluster<double>(b.create_cluster_tree(p.n, p.dim, p.xt.data(), p.co.nchild, (int)part.size() / 2, part.data())));
        }
    } else {
        if (!me.cl[s] || s == d) return;
        bool assign = me.cl[d] && r.chance(0.5);
        {
            Live l;
            if (assign)
                *me.cl[d] = std::move(*me.cl[s]);
            else
                me.cl[d].reset(new Cluster<double>(std::move(*me.cl[s])));
            me.cl[s].reset();
        }
        me.parts[d] = me.parts[s], me.nodes[d] = me.nodes[s];
    }
    const Cluster<double> &c = *me.cl[d];
    std::map<const Cluster<double> *, int> nodes;
    tree_nodes(c, nodes);
    if (&c.get_root_cluster() != &c) sim::violate_unless_known("dangling", "root of a cluster tree", cat(what, ": the root of the tree is not the tree"));
    vector<std::pair<int, int>> parts;
    for (auto q : c.get_clusters_on_partition()) {
        if (!q || !nodes.count(q)) sim::violate_unless_known("dangling", "part of a cluster tree", cat(what, ": a part of the partition is not in the tree"));
        else parts.push_back({q->get_offset(), q->get_size()});
    }
    if (op[1] == CL_NEW)
        me.parts[d] = parts, me.nodes[d] = (int)nodes.size();
    else if (parts != me.parts[d] || (int)nodes.size() != me.nodes[d])
        sim::violate_unless_known("wrong-copy", what, cat(what, ": the tree changed"));
}

template <class T>
static void run_t(const Case &c) {
    World<T> w(c);
    LogCapture log;
    int64_t base = sim::live_blocks();
    {
        vector<std::unique_ptr<Caller<T>>> callers;
        for (int k = 0; k < w.K; k++) callers.emplace_back(new Caller<T>());
        vector<std::function<void()>> fs;
        for (int k = 0; k < w.K; k++)
            fs.push_back([&, k] {
                sim::Quiet q;
                sim::omp_threads(std::max<int64_t>(1, c[cat("threads", k)]));
                for (auto &op : c.ops) {
                    if (op[0] % w.K != k) continue;
                    string what = names[op[1] % OPS];
                    sim::context(what);
                    int kind = op[1] % OPS;
                    if (kind < LR_COPY)
                        h_op(w, *callers[k], op, what);
                    else if (kind < M_COPY)
                        l_op(w, *callers[k], op, what);
                    else if (kind < CL_MOVE)
                        m_op(w, *callers[k], op, what);
                    else
                        c_op(w, *callers[k], op, what);
                    // nothing else changed
                    for (auto &s : callers[k]->h)
                        if (s.s == KNOWN) check_value(*s.h, s.v, what + " changes another operator", "another operator");
                }
            });
        if (w.K == 1)
            fs[0]();
        else
            sim::run_threads(fs);
        for (int q = 0; q < 2; q++) check_value(*w.shared[q], w.value[q], "shared sources", "a shared source");
        sim::context("destroying the objects");
        Live l;
        for (auto &k : callers) {
            for (auto &x : k->h) x.h.reset();
            for (auto &x : k->l) x.x.reset();
            for (auto &x : k->m) x.x.reset();
            for (auto &x : k->cl) x.reset();
        }
    }
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of copies", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    sim::count("operations", c.ops.size());
    if (w.K > 1) sim::count("concurrent_callers");
    if (c.ops.size() > 1) sim::count("nontrivial");
}
static void run_objects(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) { run_t<decltype(t)>(c); });
}
static const sim::Driver d1{"copies", gen_objects, run_objects};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
