// Arithmetic, triangular solves and factorisations of hierarchical operators: histories on own outputs of concurrent
// callers that share the inputs, with failing allocations (A07 products, A08 solves and factorisations).
#define DRV_SINGLE
#include "common.hpp"
#include "faults.hpp"
#include "logcapture.hpp"
#include "densekit.hpp"
using namespace drv;

enum { HHH, HHM, HHL, HLH, HLM, HLL, LHH, LHM, LHL, MHM, MHL, HMM, HML, LLL, LLM, LML, LMM, MLL, MLM, MML, ADD_LL, ADD_LH, RECOMP, SCALE, PRODUCTS };
enum { TRI_M, TRI_L, TRI_H, LU, CHOL, TRI_F, DENSE, SOLVES };
static const char *pnames[] = {"H x H into H", "H x H into dense", "H x H into low rank", "H x low rank into H", "H x low rank into dense", "H x low rank into low rank", "low rank x H into H", "low rank x H into dense", "low rank x H into low rank", "dense x H into dense", "dense x H into low rank", "H x dense into dense", "H x dense into low rank", "low rank x low rank into low rank", "low rank x low rank into dense", "low rank x dense into low rank", "low rank x dense into dense", "dense x low rank into low rank", "dense x low rank into dense", "dense x dense into low rank", "addition of low-rank matrices", "addition of a low-rank matrix to H", "recompression", "scaling of H"};
static const char *snames[] = {"triangular solve, dense right-hand side", "triangular solve, low-rank right-hand side", "triangular solve, hierarchical right-hand side", "LU factorisation and solves", "Cholesky factorisation and solves", "triangular solves with an LU factorisation", "dense factorisations and solves"};

static void gen_common(Case &c, Rng &r, int tier, int kinds) {
    sim::gen_sched(c, r);
    c.set("dyn", r.chance(0.2), 0);
    gen_problem(c, r, tier ? 110 : 70, 4);
    gen_builder(c, r);
    c.set("same", 1, 1), c.set("cons", 1, 1), c.set("mtd", 0, 0), c.set("msd", 0, 0), c.set("dbg", 0, 0), c.set("adm", 0, 0), c.set("rr", -1, -1);
    c.set("epsx", 3 + (int)r.below(8), 4);
    int callers = r.chance(0.5) ? 1 : 2 + (int)r.below(2);
    c.set("callers", callers, 1);
    c.set("dominance", r.below(4), 0);
    c.set("pivoting", r.chance(0.3), 0);
    for (int k = 0; k < callers; k++) c.set(cat("threads", k), 1 + (int)r.below(3), 1);
    int n = 1 + (int)r.below(kinds == PRODUCTS ? 8 : 4), focus = (int)r.below(kinds);
    bool foc = r.chance(0.5);
    bool faults = callers == 1 && r.chance(0.4);
    for (int i = 0; i < n; i++)
        c.ops.push_back({(int64_t)r.below(callers), foc ? focus : (int64_t)r.below(kinds), (int64_t)r.below(9), (int64_t)(r.next() >> 2), r.chance(0.5) ? 0 : (int64_t)r.below(1000), faults && r.chance(0.5) ? 1 + (int64_t)r.below(400) : 0});
}
static void gen_products(Case &c, Rng &r, int tier) { gen_common(c, r, tier, PRODUCTS); }
static void gen_solves(Case &c, Rng &r, int tier) { gen_common(c, r, tier, SOLVES); }

// ---------------------------------------------------------------- the shared operators
// Moves large entries off the diagonal inside of the leaves of the cluster tree, so that factorisations have to pivot.
template <class R>
static void pair_up(const Cluster<R> &c, vector<int> &partner, Rng &r) {
    if (c.is_leaf()) {
        int o = c.get_offset(), n = c.get_size(), how = (int)r.below(4);
        if (how == 0) // every row
            for (int i = 0; i + 1 < n; i += 2) std::swap(partner[o + i], partner[o + i + 1]);
        else // some rows, often only late ones
            for (int i = n - 1, first = how == 1 ? 0 : (int)r.below(n); i > first; i--) std::swap(partner[o + i], partner[o + first + (int)r.below(i - first + 1)]);
        return;
    }
    for (auto &x : c.get_children()) pair_up(*x, partner, r);
}
template <class T>
class DominantGen : public htool::VirtualGenerator<T> {
  public:
    Gen<T> g;
    vector<int> partner; // user numbering
    double scale = 1;
    T entry(int i, int j) const { return g.entry(i, j) * T(scale) + T(partner[i] == j ? 1 : 0); }
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = entry(rows[i], cols[j]);
    }
};
template <class T>
struct World {
    using H = HMatrix<T, RealOf<T>>;
    const Case &c;
    Problem<T> p;
    BuildOpts o;
    double eps;
    std::unique_ptr<H> A, B, C, F, G; // F: dominant, G: dominant and symmetric or Hermitian
    char gs = 'N', gu = 'N';
    int K;
    explicit World(const Case &c_) : c(c_), p(c_) {
        p.gen.points = false;
        o            = BuildOpts::from(c, p);
        K            = std::max<int64_t>(1, c["callers"]);
        o.sym = o.uplo = 'N';
        o.adm = o.mtd = o.msd = 0, o.rr = -1, o.dbg = false, o.cons = true;
        eps = o.eps;
        sim::omp_threads(1);
    }
    Gen<T> plain(char sym) const {
        Gen<T> g    = p.gen;
        g.k.sym     = sym;
        g.k.shift   = 0;
        if (g.k.kind == K_ZERO) g.k.kind = K_SMOOTH;
        return g;
    }
    void products() {
        Rng r(c["wseed"] + 17);
        Gen<T> g = plain('N');
        auto b   = make_builder(o, p, c["wseed"]);
        A.reset(new H(b.build((const htool::VirtualGenerator<T> &)g)));
        Gen<T> g2  = g;
        g2.k.kind  = (int[]){K_SMOOTH, K_GAUSS, K_RANDOM, K_OSC}[r.below(4)];
        g2.k.seed += 3;
        auto b2    = make_builder(o, p, c["wseed"]);
        B.reset(new H(b2.build((const htool::VirtualGenerator<T> &)g2)));
        Gen<T> g3  = g;
        g3.k.scale = 0.5;
        BuildOpts o3 = o;
        if (r.chance(0.4)) o3.eta = std::max(0.1, o.eta * (0.1 + r.uniform()));
        auto b3      = make_builder(o3, p, c["wseed"]);
        C.reset(new H(b3.build((const htool::VirtualGenerator<T> &)g3)));
    }
    std::unique_ptr<H> dominant(char sym, char uplo, bool pivoting) {
        DominantGen<T> d;
        d.g         = plain(sym);
        double most = 0;
        for (int i = 0; i < p.n; i++) {
            double s = 0;
            for (int j = 0; j < p.n; j++) s += std::abs(d.g.entry(i, j));
            most = std::max(most, s);
        }
        if (sym == 'N')
            for (int j = 0; j < p.n; j++) {
                double s = 0;
                for (int i = 0; i < p.n; i++) s += std::abs(d.g.entry(i, j));
                most = std::max(most, s);
            }
        static const double f[] = {10, 3, 1.5, 1.15};
        d.scale                 = 1 / (std::max(most, 1e-3) * f[c["dominance"] % 4]);
        vector<int> partner(p.n);
        auto &perm = p.t().get_permutation();
        for (int i = 0; i < p.n; i++) partner[i] = i;
        if (pivoting) {
            Rng r(c["wseed"] + 41);
            pair_up(p.t(), partner, r);
        }
        d.partner.resize(p.n);
        for (int i = 0; i < p.n; i++) d.partner[perm[i]] = perm[partner[i]];
        BuildOpts fo = o;
        fo.sym = sym, fo.uplo = uplo;
        auto b = make_builder(fo, p, c["wseed"]);
        return std::unique_ptr<H>(new H(b.build((const htool::VirtualGenerator<T> &)d)));
    }
};
template <class T>
static uint64_t digest(const HMatrix<T, RealOf<T>> *h) {
    if (!h) return 0;
    vector<Leaf<T>> lv;
    collect(*h, false, lv);
    uint64_t z = 7;
    for (auto &l : lv) {
        Dense<T> d = leaf_dense(l);
        z          = sim::mix(z, sim::hash_bytes(d.a.data(), d.a.size() * sizeof(T)));
    }
    return z;
}

template <class T>
struct Caller { // what one caller owns
    std::unique_ptr<HMatrix<T, RealOf<T>>> C;
};

template <class T>
static void product_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, LogCapture &log) {
    using H = HMatrix<T, RealOf<T>>;
    sim::Quiet quiet;
    int kind = op[1] % PRODUCTS;
    char ta = "NTC"[op[2] % 3], tb = "NTC"[op[2] / 3 % 3];
    Rng r(op[3]);
    string what = cat(pnames[kind], kind < ADD_LL ? cat(", ", ta, tb) : "");
    sim::context(what);
    int64_t fault = w.K == 1 ? op[5] : 0;
    // the blocks taking part
    vector<const H *> na, nb;
    const H *a = w.A.get(), *b = w.B.get();
    H *c       = me.C.get();
    if (op[4]) {
        nodes_of(*a, na), nodes_of(*b, nb);
        const H *x = na[op[4] % na.size()];
        const Cluster<RealOf<T>> &out = ta == 'N' ? x->get_target_cluster() : x->get_source_cluster(), &mid = ta == 'N' ? x->get_source_cluster() : x->get_target_cluster();
        vector<const H *> ok;
        for (auto y : nb)
            if ((tb == 'N' ? y->get_target_cluster() : y->get_source_cluster()) == mid) ok.push_back(y);
        if (!ok.empty()) {
            const H *y                = ok[r.below(ok.size())];
            const Cluster<RealOf<T>> &in = tb == 'N' ? y->get_source_cluster() : y->get_target_cluster();
            H *z                      = c->get_sub_hmatrix(out, in);
            if (kind == HHH && z) a = x, b = y, c = z;
            if (kind == HHM || kind == HHL) a = x, b = y;
            if (kind == HLH || kind == LHH || kind == ADD_LH || kind == SCALE) { // one factor and the output share clusters
                vector<const H *> nc;
                nodes_of(*c, nc);
                const H *q = nc[op[4] % nc.size()];
                H *zz      = const_cast<H *>(q);
                vector<const H *> fit;
                if (kind == HLH) {
                    for (auto y2 : na)
                        if ((ta == 'N' ? y2->get_target_cluster() : y2->get_source_cluster()) == q->get_target_cluster()) fit.push_back(y2);
                    if (!fit.empty()) c = zz, a = fit[r.below(fit.size())];
                } else if (kind == LHH) {
                    for (auto y2 : nb)
                        if ((tb == 'N' ? y2->get_source_cluster() : y2->get_target_cluster()) == q->get_source_cluster()) fit.push_back(y2);
                    if (!fit.empty()) c = zz, b = fit[r.below(fit.size())];
                } else
                    c = zz;
            }
            if (kind == HLM || kind == HLL || kind == HMM || kind == HML) a = x;
            if (kind == LHM || kind == LHL || kind == MHM || kind == MHL) b = y;
        }
    }
    auto rows = [](char t, const H &h) { return t == 'N' ? h.nb_rows() : h.nb_cols(); };
    auto cols = [](char t, const H &h) { return t == 'N' ? h.nb_cols() : h.nb_rows(); };
    bool ah = kind == HHH || kind == HHM || kind == HHL || kind == HLH || kind == HLM || kind == HLL || kind == HMM || kind == HML;
    bool bh = kind == HHH || kind == HHM || kind == HHL || kind == LHH || kind == LHM || kind == LHL || kind == MHM || kind == MHL;
    bool ch = kind == HHH || kind == HLH || kind == LHH || kind == ADD_LH || kind == SCALE;
    bool al = kind == LHH || kind == LHM || kind == LHL || kind == LLL || kind == LLM || kind == LML || kind == LMM;
    bool bl = kind == HLH || kind == HLM || kind == HLL || kind == LLL || kind == LLM || kind == MLL || kind == MLM;
    bool cl = kind == HHL || kind == HLL || kind == LHL || kind == MHL || kind == HML || kind == LLL || kind == LML || kind == MLL || kind == MML;
    int m = 1 + (int)r.below(12), k = 1 + (int)r.below(12), n = 1 + (int)r.below(12);
    if (ch) m = c->nb_rows(), n = c->nb_cols();
    if (ah) m = rows(ta, *a), k = cols(ta, *a);
    if (bh) k = rows(tb, *b), n = cols(tb, *b);
    double eps = r.chance(0.5) ? w.eps : std::pow(10., -3. - (double)r.below(9));
    T alpha = random_scalar<T>(r), beta = random_scalar<T>(r);
    if (r.chance(0.2)) alpha = T(1);
    // inputs
    LR<T> la(eps), lb(eps), lc(eps);
    Matrix<T> ma, mb, mc;
    Dense<T> da, db, dc;
    if (kind < ADD_LL) {
        int am = ta == 'N' ? m : k, an = ta == 'N' ? k : m, bm = tb == 'N' ? k : n, bn = tb == 'N' ? n : k;
        if (ah)
            da = dense_of(*a);
        else if (al)
            la = random_lr<T>(r, am, an, eps, true), da = dense_of(la, am, an);
        else
            da = random_dense<T>(r, am, an), ma = matrix_of(da);
        if (bh)
            db = dense_of(*b);
        else if (bl)
            lb = random_lr<T>(r, bm, bn, eps, true), db = dense_of(lb, bm, bn);
        else
            db = random_dense<T>(r, bm, bn), mb = matrix_of(db);
        if (ch)
            dc = dense_of(*c);
        else if (cl) {
            if (r.chance(0.8) || kind == HHL) lc = random_lr<T>(r, m, n, eps, true); // else: an output without a shape yet, as the library itself passes them (not to H x H)
            dc = dense_of(lc, m, n);
        } else
            dc = random_dense<T>(r, m, n), mc = matrix_of(dc);
        double scale_of = std::abs(alpha) * frob(da) * frob(db) + std::abs(beta) * frob(dc);
        Dense<T> want   = mul(op_of(ta, da), op_of(tb, db));
        for (size_t i = 0; i < want.a.size(); i++) want.a[i] = alpha * want.a[i] + beta * dc.a[i];
        // what lies around the block of the output must not change
        Dense<T> whole;
        if (ch && c != me.C.get()) whole = dense_of(*me.C);
        double worst = std::max(eps, ch ? (double)c->get_epsilon() : 0.);
        int e0       = log.w->by_fiber[sim::fiber_id()];
        bool done    = attempt(fault, [&] {
            switch (kind) {
            case HHH: htool::internal_add_hmatrix_hmatrix_product(ta, tb, alpha, *a, *b, beta, *c); break;
            case HHM: htool::internal_add_hmatrix_hmatrix_product(ta, tb, alpha, *a, *b, beta, mc); break;
            case HHL: htool::internal_add_hmatrix_hmatrix_product(ta, tb, alpha, *a, *b, beta, lc); break;
            case HLH: htool::internal_add_hmatrix_lrmat_product(ta, tb, alpha, *a, lb, beta, *c); break;
            case HLM: htool::internal_add_hmatrix_lrmat_product(ta, tb, alpha, *a, lb, beta, mc); break;
            case HLL: htool::internal_add_hmatrix_lrmat_product(ta, tb, alpha, *a, lb, beta, lc); break;
            case LHH: htool::internal_add_lrmat_hmatrix_product(ta, tb, alpha, la, *b, beta, *c); break;
            case LHM: htool::internal_add_lrmat_hmatrix_product(ta, tb, alpha, la, *b, beta, mc); break;
            case LHL: htool::internal_add_lrmat_hmatrix_product(ta, tb, alpha, la, *b, beta, lc); break;
            case MHM: htool::internal_add_matrix_hmatrix_product(ta, tb, alpha, ma, *b, beta, mc); break;
            case MHL: htool::internal_add_matrix_hmatrix_product(ta, tb, alpha, ma, *b, beta, lc); break;
            case HMM: htool::internal_add_hmatrix_matrix_product(ta, tb, alpha, *a, mb, beta, mc); break;
            case HML: htool::internal_add_hmatrix_matrix_product(ta, tb, alpha, *a, mb, beta, lc); break;
            case LLL: htool::add_lrmat_lrmat_product(ta, tb, alpha, la, lb, beta, lc); break;
            case LLM: htool::add_lrmat_lrmat_product(ta, tb, alpha, la, lb, beta, mc); break;
            case LML: htool::add_lrmat_matrix_product(ta, tb, alpha, la, mb, beta, lc); break;
            case LMM: htool::add_lrmat_matrix_product(ta, tb, alpha, la, mb, beta, mc); break;
            case MLL: htool::add_matrix_lrmat_product(ta, tb, alpha, ma, lb, beta, lc); break;
            case MLM: htool::add_matrix_lrmat_product(ta, tb, alpha, ma, lb, beta, mc); break;
            case MML: htool::add_matrix_matrix_product(ta, tb, alpha, ma, mb, beta, lc); break;
            }
        });
        if (log.w->by_fiber[sim::fiber_id()] != e0) sim::violate_unless_known("error-logged", what, cat("an error is reported for a supported operation: ", log.w->last));
        if (done) {
            double tol = (ch || cl ? 100 * worst : 0) + ulps<T>() * 1e-11;
            if (ch)
                check_close(what, dense_of(*c), want, tol * scale_of);
            else if (cl)
                check_close(what, dense_of(lc, m, n), want, tol * scale_of);
            else
                check_close(what, dense_of(mc), want, tol * scale_of);
            if (ch && c != me.C.get()) {
                Dense<T> now = dense_of(*me.C);
                int ro = c->get_target_cluster().get_offset() - me.C->get_target_cluster().get_offset(), co = c->get_source_cluster().get_offset() - me.C->get_source_cluster().get_offset();
                for (int j = 0; j < now.n; j++)
                    for (int i = 0; i < now.m; i++)
                        if (!(i >= ro && i < ro + m && j >= co && j < co + n) && now(i, j) != whole(i, j)) sim::violate_unless_known("wrong-result", what + " outside of its output", "a coefficient outside of the output changed");
            }
        } else if (ch) {
            Live l;
            me.C.reset(new H(*w.C));
        }
        // inputs
        if (al && !bits_equal(dense_of(la, da.m, da.n).a.data(), da.a.data(), da.a.size())) sim::violate("wrong-result", what + " changes its input", "the low-rank factor changed");
        if (bl && !bits_equal(dense_of(lb, db.m, db.n).a.data(), db.a.data(), db.a.size())) sim::violate("wrong-result", what + " changes its input", "the low-rank factor changed");
        if (!ah && !al && !bits_equal(dense_of(ma).a.data(), da.a.data(), da.a.size())) sim::violate("wrong-result", what + " changes its input", "the dense factor changed");
        if (!bh && !bl && !bits_equal(dense_of(mb).a.data(), db.a.data(), db.a.size())) sim::violate("wrong-result", what + " changes its input", "the dense factor changed");
        return;
    }
    switch (kind) {
    case ADD_LL: { // X and Y on nested pairs of clusters
        vector<const H *> nc;
        nodes_of(*w.A, nc);
        const H *big = nc[r.below(nc.size())];
        vector<const H *> in;
        nodes_of(*big, in);
        const H *small = in[r.below(in.size())];
        bool extend    = r.chance(0.5);
        const H *x = extend ? small : big, *y = extend ? big : small;
        LR<T> X = random_lr<T>(r, x->nb_rows(), x->nb_cols(), eps, true), Y(eps);
        Y       = random_lr<T>(r, y->nb_rows(), y->nb_cols(), eps, true);
        Dense<T> dx = dense_of(X, x->nb_rows(), x->nb_cols()), want = dense_of(Y, y->nb_rows(), y->nb_cols());
        double size = frob(dx) + frob(want);
        int ro = x->get_target_cluster().get_offset() - y->get_target_cluster().get_offset(), co = x->get_source_cluster().get_offset() - y->get_source_cluster().get_offset();
        for (int j = 0; j < dx.n; j++)
            for (int i = 0; i < dx.m; i++)
                if (i + ro >= 0 && i + ro < want.m && j + co >= 0 && j + co < want.n) want(i + ro, j + co) += dx(i, j);
        if (attempt(fault, [&] { htool::add_lrmat_lrmat(X, x->get_target_cluster(), x->get_source_cluster(), Y, y->get_target_cluster(), y->get_source_cluster()); })) check_close(what, dense_of(Y, want.m, want.n), want, (100 * eps + ulps<T>() * 1e-11) * size);
        if (!bits_equal(dense_of(X, dx.m, dx.n).a.data(), dx.a.data(), dx.a.size())) sim::violate("wrong-result", what + " changes its input", "the added matrix changed");
        break;
    }
    case ADD_LH: {
        LR<T> X       = random_lr<T>(r, m, n, eps, true);
        Dense<T> want = dense_of(*c), dx = dense_of(X, m, n);
        double size = frob(want) + frob(dx);
        for (size_t i = 0; i < want.a.size(); i++) want.a[i] += dx.a[i];
        if (attempt(fault, [&] { htool::internal_add_lrmat_hmatrix(X, *c); }))
            check_close(what, dense_of(*c), want, (100 * std::max(eps, (double)c->get_epsilon()) + ulps<T>() * 1e-11) * size);
        else {
            Live l;
            me.C.reset(new H(*w.C));
        }
        break;
    }
    case RECOMP: {
        LR<T> X     = random_lr<T>(r, m, n, eps, false);
        if (r.chance(0.3)) { // more columns than needed
            LR<T> Y = random_lr<T>(r, m, n, eps, false);
            Dense<T> u(m, X.get_U().nb_cols() + Y.get_U().nb_cols()), v(u.n, n);
            int kx = X.get_U().nb_cols();
            for (int q = 0; q < u.n; q++) {
                for (int i = 0; i < m; i++) u(i, q) = q < kx ? X.get_U()(i, q) : Y.get_U()(i, q - kx);
                for (int j = 0; j < n; j++) v(q, j) = q < kx ? X.get_V()(q, j) : Y.get_V()(q - kx, j);
            }
            X.get_U() = matrix_of(u), X.get_V() = matrix_of(v);
        }
        Dense<T> want = dense_of(X, m, n);
        int before    = X.rank_of();
        if (r.chance(0.5)) {
            if (attempt(fault, [&] { htool::recompression(X); })) {
                check_close(what, dense_of(X, m, n), want, (3 * eps + ulps<T>() * 1e-11) * frob(want));
                if (X.rank_of() > std::min(before, std::min(m, n))) sim::violate_unless_known("wrong-result", "rank after recompression", cat("the rank is ", X.rank_of(), " after recompression of a ", m, "x", n, " block of rank ", before));
            }
        } else {
            std::unique_ptr<LR<T>> Y;
            if (attempt(fault, [&] { Y = htool::recompression(static_cast<const LR<T> &>(X)); })) check_close(what, dense_of(*Y, m, n), want, (3 * eps + ulps<T>() * 1e-11) * frob(want));
            if (!bits_equal(dense_of(X, m, n).a.data(), want.a.data(), want.a.size())) sim::violate("wrong-result", what + " changes its input", "the input of the recompression changed");
            Live l;
            Y.reset();
        }
        break;
    }
    case SCALE: {
        Dense<T> want = dense_of(*c);
        for (auto &x : want.a) x *= beta;
        sim::allow_terminate(fault != 0);
        if (attempt(fault, [&] { htool::scale(beta, *c); }))
            check_close(what, dense_of(*c), want, ulps<T>() * 1e-12 * frob(want));
        else {
            Live l;
            me.C.reset(new H(*w.C));
        }
        sim::allow_terminate(false);
        break;
    }
    }
}

// The dense algebra below: factorisations, solves and triangular solves with and without pivots
template <class T, class L>
static void dense_op(Rng &r, char tr, char side, int64_t fault, L logged) {
    int n = 1 + (int)r.below(r.chance(0.3) ? 4 : 24), mu = 1 + (int)r.below(6), how = (int)r.below(4);
    Dense<T> a = random_dense<T>(r, n, n);
    for (auto &x : a.a) x *= T(0.5 / n);
    vector<int> place(n);
    for (int i = 0; i < n; i++) place[i] = i;
    if (how < 2) {
        int mode = (int)r.below(3), from = (int)r.below(n);
        if (mode == 1) std::rotate(place.begin(), place.begin() + from, place.end());
        if (mode == 2)
            for (int i = n - 1; i > from; i--) std::swap(place[i], place[from + (int)r.below(i - from + 1)]);
    }
    for (int i = 0; i < n; i++) a(place[i], i) += T(1);
    if (how == 2)
        for (int j = 0; j < n; j++)
            for (int i = 0; i <= j; i++) a(j, i) = conj_(a(i, j)), a(i, j) = i == j ? T(std::real(a(i, j))) : a(i, j);
    Dense<T> b = how < 2 && side == 'R' ? random_dense<T>(r, mu, n) : random_dense<T>(r, n, mu);
    Matrix<T> A = matrix_of(a), X = matrix_of(b);
    bool used   = how >= 2 && r.chance(0.4); // the object was another matrix before, factorised with pivots
    if (used) {
        Dense<T> o = random_dense<T>(r, n, n);
        if (how == 2 || r.chance(0.5)) {
            A = matrix_of(o);
            htool::lu_factorization(A);
            if (how == 3) A.resize(n, n);
            for (int j = 0; j < n; j++)
                for (int i = 0; i < n; i++) A(i, j) = a(i, j);
        } else {
            Matrix<T> B = matrix_of(o);
            htool::lu_factorization(B);
            B = A;
            A = std::move(B);
        }
    }
    auto judge = [&](const string &what, const Dense<T> &t, const Dense<T> &want) {
        logged(what);
        Dense<T> x = dense_of(X);
        check_close(what, side == 'L' ? mul(t, x) : mul(x, t), want, ulps<T>() * 1e-11 * (frob(t) * frob(x) + frob(want)));
    };
    T alpha = r.chance(0.5) ? T(1) : random_scalar<T>(r, false);
    if (how < 2) { // with pivots
        if (how == 0) side = 'L';
        if (how == 0 && X.nb_rows() != n) X = matrix_of(b = random_dense<T>(r, n, mu));
        string what = how == 0 ? cat("dense LU solve ", tr) : cat("dense triangular solves with an LU factorisation, side ", side, " ", tr);
        sim::context(what);
        if (!attempt(fault, [&] { htool::lu_factorization(A); })) return;
        Matrix<T> A1 = A;
        if (!attempt(fault, [&] {
                if (how == 0)
                    htool::lu_solve(tr, A, X);
                else if ((side == 'L') == (tr == 'N')) {
                    htool::triangular_matrix_matrix_solve(side, 'L', tr, 'U', alpha, A, X);
                    htool::triangular_matrix_matrix_solve(side, 'U', tr, 'N', T(1), A, X);
                } else {
                    htool::triangular_matrix_matrix_solve(side, 'U', tr, 'N', T(1), A, X);
                    htool::triangular_matrix_matrix_solve(side, 'L', tr, 'U', alpha, A, X);
                }
            }))
            return;
        if (how == 1)
            for (auto &x : b.a) x *= alpha;
        judge(what, op_of(tr, a), b);
        if (!bits_equal(A.data(), A1.data(), (size_t)n * n)) sim::violate("wrong-result", what + " changes its input", "the factors changed");
    } else if (how == 2) {
        char u      = r.chance(0.5) ? 'L' : 'U';
        string what = cat("dense Cholesky solve ", u);
        side        = 'L';
        sim::context(what);
        for (int i = 0; i < n; i++) a(i, i) += T(1), A(i, i) = a(i, i);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++)
                if (u == 'L' ? i < j : i > j) A(i, j) = T(std::numeric_limits<double>::quiet_NaN());
        bool steps = r.chance(0.5); // one triangular solve after the other
        char first = u == 'L' ? 'N' : 'C', then = u == 'L' ? 'C' : 'N';
        if (steps) what += ", two triangular solves", sim::context(what);
        if (attempt(fault, [&] {
                htool::cholesky_factorization(u, A);
                if (steps) {
                    htool::triangular_matrix_matrix_solve('L', u, first, 'N', T(1), A, X);
                    htool::triangular_matrix_matrix_solve('L', u, then, 'N', T(1), A, X);
                } else
                    htool::cholesky_solve(u, A, X);
            }))
            judge(what, a, b);
    } else {
        char u = r.chance(0.5) ? 'L' : 'U', d = r.chance(0.5) ? 'N' : 'U';
        if (side == 'R') X = matrix_of(b = random_dense<T>(r, mu, n));
        string what = cat("dense triangular solve, side ", side, " ", u, " ", tr, " ", d);
        sim::context(what);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) {
                if (u == 'L' ? i < j : i > j) a(i, j) = T(0), A(i, j) = T(std::numeric_limits<double>::quiet_NaN());
                if (i == j && d == 'U') a(i, j) = T(1);
            }
        if (!attempt(fault, [&] { htool::triangular_matrix_matrix_solve(side, u, tr, d, alpha, A, X); })) return;
        for (auto &x : b.a) x *= alpha;
        judge(what, op_of(tr, a), b);
    }
    sim::count("dense_solves");
}
template <class T>
static void solve_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, LogCapture &log) {
    using H = HMatrix<T, RealOf<T>>;
    sim::Quiet quiet;
    int kind = op[1] % SOLVES;
    if (std::is_same<RealOf<T>, float>::value && w.c["pivoting"] && (kind == TRI_M || kind == TRI_L || kind == TRI_H)) kind = TRI_F; // the triangles alone are not dominant: what they solve overflows
    Rng r(op[3]);
    char tr = "NTC"[op[2] % 3], side = r.chance(0.5) ? 'L' : 'R', uplo = r.chance(0.5) ? 'L' : 'U', diag = r.chance(0.5) ? 'N' : 'U';
    int64_t fault = w.K == 1 ? op[5] : 0;
    int n = w.p.n, mu = 1 + (int)r.below(6);
    double eps = w.eps;
    T alpha    = r.chance(0.5) ? T(1) : random_scalar<T>(r, false);
    int e0     = log.w->by_fiber[sim::fiber_id()];
    auto logged = [&](const string &what) {
        if (log.w->by_fiber[sim::fiber_id()] != e0) sim::violate_unless_known("error-logged", what, cat("an error is reported for a supported operation: ", log.w->last));
    };
    if (kind == TRI_M || kind == TRI_L || kind == TRI_H) {
        string what = cat(snames[kind], ", side ", side, " ", uplo, " ", tr, " ", diag);
        sim::context(what);
        Dense<T> t = dense_of(*w.F);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) {
                if ((uplo == 'L' && i < j) || (uplo == 'U' && i > j)) t(i, j) = T(0);
                if (i == j && diag == 'U') t(i, j) = T(1);
            }
        Dense<T> ot = op_of(tr, t);
        auto judge  = [&](const Dense<T> &X, const Dense<T> &b, double tol) {
            Dense<T> got = side == 'L' ? mul(ot, X) : mul(X, ot), want = b;
            for (auto &x : want.a) x *= alpha;
            check_close(what, got, want, tol * (frob(t) * frob(X) + frob(want)));
        };
        if (kind == TRI_M) {
            Dense<T> b = side == 'L' ? random_dense<T>(r, n, mu) : random_dense<T>(r, mu, n);
            Matrix<T> X = matrix_of(b);
            if (attempt(fault, [&] { htool::internal_triangular_hmatrix_matrix_solve(side, uplo, tr, diag, alpha, *w.F, X); })) logged(what), judge(dense_of(X), b, ulps<T>() * 1e-11);
        } else if (kind == TRI_L) {
            int bm = side == 'L' ? n : mu + 3, bn = side == 'L' ? mu + 3 : n;
            LR<T> X    = random_lr<T>(r, bm, bn, eps, true);
            Dense<T> b = dense_of(X, bm, bn);
            if (attempt(fault, [&] { htool::internal_triangular_hmatrix_lrmat_solve(side, uplo, tr, diag, alpha, *w.F, X); })) logged(what), judge(dense_of(X, bm, bn), b, ulps<T>() * 1e-11);
        } else {
            Dense<T> b = dense_of(*me.C);
            if (attempt(fault, [&] { htool::internal_triangular_hmatrix_hmatrix_solve(side, uplo, tr, diag, alpha, *w.F, *me.C); })) logged(what), judge(dense_of(*me.C), b, 300 * eps + ulps<T>() * 1e-11);
            if (!fault) sim::count("triangular_solves");
            Live l;
            me.C.reset(new H(*w.C));
        }
        return;
    }
    if (kind == DENSE) {
        dense_op<T>(r, tr, side, fault, logged);
        return;
    }
    if (kind == TRI_F) { // both factors one after the other solve with the operator, from both sides
        string what = cat(snames[kind], ", side ", side, " ", tr);
        sim::context(what);
        Dense<T> t = op_of(tr, dense_of(*w.F));
        std::unique_ptr<H> f;
        {
            Live l;
            f.reset(new H(*w.F));
        }
        if (attempt(fault, [&] { htool::lu_factorization(*f); })) {
            uint64_t d0 = digest(f.get());
            int how     = (int)r.below(3);
            bool first  = (side == 'L') == (tr == 'N'); // the lower factor comes first
            auto judge  = [&](const Dense<T> &X, Dense<T> want, double tol) {
                for (auto &x : want.a) x *= alpha;
                check_close(cat(what, how == 0 ? ", dense" : how == 1 ? ", low rank" : ", hierarchical"), side == 'L' ? mul(t, X) : mul(X, t), want, tol * (frob(t) * frob(X) + frob(want)));
            };
            auto both = [&](auto solve) {
                for (int k = 0; k < 2; k++) {
                    bool lower = first == (k == 0);
                    solve(lower ? 'L' : 'U', lower ? 'U' : 'N', k == 0 ? alpha : T(1));
                }
            };
            if (how == 0) {
                Dense<T> b  = side == 'L' ? random_dense<T>(r, n, mu) : random_dense<T>(r, mu, n);
                Matrix<T> X = matrix_of(b);
                if (attempt(fault, [&] { both([&](char u, char d, T a) { htool::internal_triangular_hmatrix_matrix_solve(side, u, tr, d, a, *f, X); }); })) logged(what), judge(dense_of(X), b, 300 * eps + ulps<T>() * 1e-10);
            } else if (how == 1) {
                int bm = side == 'L' ? n : mu + 3, bn = side == 'L' ? mu + 3 : n;
                LR<T> X    = random_lr<T>(r, bm, bn, eps, true);
                Dense<T> b = dense_of(X, bm, bn);
                if (attempt(fault, [&] { both([&](char u, char d, T a) { htool::internal_triangular_hmatrix_lrmat_solve(side, u, tr, d, a, *f, X); }); })) logged(what), judge(dense_of(X, bm, bn), b, 300 * eps + ulps<T>() * 1e-10);
            } else {
                Dense<T> b = dense_of(*me.C);
                if (attempt(fault, [&] { both([&](char u, char d, T a) { htool::internal_triangular_hmatrix_hmatrix_solve(side, u, tr, d, a, *f, *me.C); }); })) logged(what), judge(dense_of(*me.C), b, 600 * eps + ulps<T>() * 1e-10);
                Live l;
                me.C.reset(new H(*w.C));
            }
            if (digest(f.get()) != d0) sim::violate("wrong-result", what + " changes its input", "the factors changed");
            sim::count("factor_solves");
        }
        Live l;
        f.reset();
        return;
    }
    bool lu     = kind == LU;
    string what = lu ? "LU factorisation and solve" : "Cholesky factorisation and solve";
    sim::context(what);
    const H *src = lu ? w.F.get() : w.G.get();
    if (!src) return;
    char s = lu ? 'N' : w.gs, u = lu ? 'N' : w.gu;
    Ref<T> ref = reference(*src, s, u);
    std::unique_ptr<H> f;
    {
        Live l;
        f.reset(new H(*src));
    }
    // a diagonal block of it, the rest stays as it is
    H *part       = f.get();
    Dense<T> full = ref.A, before;
    if (op[4] % 3 == 1) {
        while (part->is_hierarchical() && (part == f.get() || r.chance(0.5))) {
            vector<H *> diagonal;
            for (auto &k : part->get_children())
                if (k->get_target_cluster() == k->get_source_cluster()) diagonal.push_back(k.get());
            if (diagonal.empty()) break;
            part = diagonal[r.below(diagonal.size())];
        }
        if (part->is_low_rank()) part = f.get();
    }
    if (part != f.get()) {
        int off = part->get_target_cluster().get_offset();
        before  = dense_of(*f);
        n       = part->get_target_cluster().get_size();
        ref.A   = Dense<T>(n, n);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) ref.A(i, j) = full(off + i, off + j);
        what += " of a block";
        sim::context(what);
        sim::count("diagonal_blocks");
    }
    bool ok = attempt(fault, [&] {
        if (lu)
            htool::lu_factorization(*part);
        else
            htool::cholesky_factorization(u, *part);
    });
    if (ok && part != f.get()) {
        int off        = part->get_target_cluster().get_offset();
        Dense<T> after = dense_of(*f);
        for (int j = 0; j < after.n; j++)
            for (int i = 0; i < after.m; i++)
                if ((i < off || i >= off + n || j < off || j >= off + n) && !bits_equal(&after(i, j), &before(i, j), 1)) sim::violate("wrong-result", what + " changes its surroundings", "a coefficient outside of the factorised block changed");
    }
    if (ok) {
        logged(what);
        int solves = 1 + (int)r.below(3);
        auto &perm = w.p.t().get_permutation();
        for (int q = 0; q < solves; q++) {
            char t     = lu ? "NTC"[r.below(3)] : 'N';
            Dense<T> b = random_dense<T>(r, n, mu), x(n, mu), bc(n, mu);
            Matrix<T> X = matrix_of(b);
            bool user   = r.chance(0.5) && part == f.get();
            if (!attempt(fault, [&] {
                    if (lu && user)
                        htool::lu_solve(t, *f, X);
                    else if (lu)
                        htool::internal_lu_solve(t, *part, X);
                    else if (user)
                        htool::cholesky_solve(u, *f, X);
                    else
                        htool::internal_cholesky_solve(u, *part, X);
                }))
                continue;
            logged(what);
            for (int k = 0; k < mu; k++)
                for (int i = 0; i < n; i++) {
                    x(i, k)  = user ? X(perm[i], k) : X(i, k);
                    bc(i, k) = user ? b(perm[i], k) : b(i, k);
                }
            check_close(cat(what, " ", t), mul(op_of(t, ref.A), x), bc, (300 * eps + ulps<T>() * 1e-10) * (frob(ref.A) * frob(x) + frob(bc)));
            sim::count("solves");
        }
    }
    Live l;
    f.reset();
}

template <class T>
static void run_t(const Case &c, bool solves) {
    using H = HMatrix<T, RealOf<T>>;
    World<T> w(c);
    {
        Live l;
        w.products();
    }
    if (solves) {
        Live l;
        w.F  = w.dominant('N', 'N', c["pivoting"]);
        w.gs = is_cplx<T>::value ? 'H' : 'S', w.gu = c["uplo"] ? 'U' : 'L';
        w.G  = w.dominant(w.gs, w.gu, false);
    }
    LogCapture log;
    vector<Caller<T>> callers(w.K);
    for (auto &k : callers) {
        Live l;
        k.C.reset(new H(*w.C));
    }
    uint64_t d0 = digest(w.A.get()), d1 = digest(w.B.get()), d2 = digest(w.F.get()), d3 = digest(w.G.get());
    vector<vector<vector<int64_t>>> todo(w.K);
    for (auto &op : c.ops) todo[op[0] % w.K].push_back(op);
    int64_t base = sim::live_blocks();
    vector<std::function<void()>> fs;
    for (int k = 0; k < w.K; k++)
        fs.push_back([&, k] {
            sim::omp_threads(std::max<int64_t>(1, c[cat("threads", k)]));
            for (auto &op : todo[k])
                if (solves)
                    solve_op(w, callers[k], op, log);
                else
                    product_op(w, callers[k], op, log);
        });
    if (w.K == 1)
        fs[0]();
    else
        sim::run_threads(fs);
    if (digest(w.A.get()) != d0 || digest(w.B.get()) != d1 || digest(w.F.get()) != d2 || digest(w.G.get()) != d3) sim::violate("wrong-result", "shared inputs changed", "an operation changed an operator it only reads");
    {
        Live l;
        for (auto &k : callers) k.C.reset(new H(*w.C));
    }
    if (solves && sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of operations", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    int busy = 0;
    for (auto &v : todo) busy += !v.empty();
    sim::count("operations", c.ops.size());
    if (busy > 1) sim::count("concurrent_callers");
    if (c.ops.size() > 1 || busy > 1) sim::count("nontrivial");
}
static void run_products(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) { run_t<decltype(t)>(c, false); });
}
static void run_solves(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) { run_t<decltype(t)>(c, true); });
}
static const sim::Driver d1{"products", gen_products, run_products}, d2{"solves", gen_solves, run_solves};
const sim::Driver *sim::driver_table[] = {&d1, &d2, nullptr};
