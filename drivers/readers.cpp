// Concurrent callers reading one shared operator and one shared factorisation (A05).
#define DRV_SINGLE
#include "common.hpp"
#include "logcapture.hpp"
using namespace drv;

enum { R_VEC_OMP, R_VEC_SEQ, R_ROW_OMP, R_ROW_SEQ, R_MAT, R_DENSE, R_DENSE_USER, R_DIAG, R_INFO, R_PRINT, R_LEAVES, R_SUB, R_SOLVE, R_RENUMBER, R_COPY, KINDS };

static void gen_readers(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.set("dyn", r.chance(0.2), 0);
    gen_problem(c, r, tier ? 160 : 100, 4);
    gen_builder(c, r);
    if (r.chance(0.5)) c.set("same", 1, 1), c.set("cons", 1, 1); // allows a factorisation
    c.set("admdiag", r.chance(0.5), 0);
    int callers = r.chance(0.1) ? 1 : 2 + (int)r.below(3);
    c.set("callers", callers, 2);
    for (int k = 0; k < callers; k++) c.set(cat("threads", k), 1 + (int)r.below(4), 1);
    int n = 2 + (int)r.below(4 * callers);
    bool focus = r.chance(0.4); // everybody does the same
    int kind0  = (int)r.below(KINDS);
    for (int i = 0; i < n; i++)
        c.ops.push_back({(int64_t)r.below(callers), focus && r.chance(0.7) ? kind0 : (int64_t)r.below(KINDS), (int64_t)r.below(3), (int64_t)(r.next() >> 2), r.chance(0.6) ? 0 : (int64_t)r.below(1000), 1 + (int64_t)r.below(5)});
}

template <class T>
static void nodes_of(const HMatrix<T, RealOf<T>> &h, vector<const HMatrix<T, RealOf<T>> *> &out) {
    out.push_back(&h);
    for (auto &c : h.get_children()) nodes_of(*c, out);
}
template <class T>
struct Task {
    int kind, mu;
    char tr;
    const HMatrix<T, RealOf<T>> *a;
    const Ref<T> *ref;
    T alpha, beta;
    vector<T> x, x0, y, want;
    vector<double> bound;
    Matrix<T> B, C;
    std::map<string, string> info, info_want;
    string text, text_want;
    size_t leaves = 0, mirrored = 0;
    int pick = 0;
    bool sub_ok = true;
    std::unique_ptr<HMatrix<T, RealOf<T>>> copy;
    int errors = 0;
};
static string strip(const std::map<string, string> &m) {
    string s;
    for (auto &e : m)
        if (e.first != "Number_of_threads") s += e.first + "=" + e.second + "\n"; // depends on the team of the caller
    return s;
}

template <class T>
static void perform(Task<T> &t, const Problem<T> &p, const HMatrix<T, RealOf<T>> *fac, char facuplo, char facsym) {
    using H    = HMatrix<T, RealOf<T>>;
    const H &a = *t.a;
    switch (t.kind) {
    case R_VEC_OMP: htool::openmp_internal_add_hmatrix_vector_product(t.tr, t.alpha, a, t.x.data(), t.beta, t.y.data()); break;
    case R_VEC_SEQ: htool::sequential_internal_add_hmatrix_vector_product(t.tr, t.alpha, a, t.x.data(), t.beta, t.y.data()); break;
    case R_ROW_OMP: htool::openmp_internal_add_hmatrix_matrix_product_row_major(t.tr, 'N', t.alpha, a, t.x.data(), t.beta, t.y.data(), t.mu); break;
    case R_ROW_SEQ: htool::sequential_internal_add_hmatrix_matrix_product_row_major(t.tr, 'N', t.alpha, a, t.x.data(), t.beta, t.y.data(), t.mu); break;
    case R_MAT: htool::internal_add_hmatrix_matrix_product(t.tr, 'N', t.alpha, a, t.B, t.beta, t.C); break;
    case R_DENSE: htool::copy_to_dense(a, t.y.data()); break;
    case R_DENSE_USER: htool::copy_to_dense_in_user_numbering(a, t.y.data()); break;
    case R_DIAG:
        if (t.tr == 'N')
            htool::copy_diagonal(a, t.y.data());
        else
            htool::copy_diagonal_in_user_numbering(a, t.y.data());
        break;
    case R_INFO: t.info = htool::get_hmatrix_information(a); break;
    case R_PRINT: {
        std::ostringstream o;
        htool::print_tree_parameters(a, o);
        t.text = o.str();
        break;
    }
    case R_LEAVES: {
        auto l     = htool::get_leaves_from(a);
        t.leaves   = l.first.size();
        t.mirrored = l.second.size();
        break;
    }
    case R_SUB: {
        vector<const H *> nodes;
        htool::preorder_tree_traversal(a, [&](const H &h) { nodes.push_back(&h); });
        const H *w = nodes[t.pick % nodes.size()];
        t.sub_ok   = a.get_sub_hmatrix(w->get_target_cluster(), w->get_source_cluster()) == w;
        break;
    }
    case R_SOLVE:
        if (fac && facsym == 'N')
            htool::lu_solve(t.tr, *fac, t.C);
        else if (fac)
            htool::cholesky_solve(facuplo, *fac, t.C);
        break;
    case R_RENUMBER:
        if (t.tr == 'N')
            htool::user_to_cluster(p.t(), t.x.data(), t.y.data());
        else
            htool::cluster_to_user(p.t(), t.x.data(), t.y.data());
        break;
    case R_COPY: t.copy.reset(new H(a)); break;
    }
}

static void run(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto tag) {
        using T = decltype(tag);
        using H = HMatrix<T, RealOf<T>>;
        Problem<T> p(c);
        p.gen.points = false;
        BuildOpts o  = BuildOpts::from(c, p);
        sim::omp_threads(1);
        auto b = make_builder(o, p, c["wseed"]);
        H h    = b.build((const htool::VirtualGenerator<T> &)p.gen);
        LogCapture log;
        // a well conditioned operator to factorise
        char fs = o.sym, fu = o.uplo;
        std::unique_ptr<H> fac;
        if (p.same && o.cons && !(is_cplx<T>::value && fs == 'S')) {
            Gen<T> g   = p.gen;
            g.k.shift  = 20. * p.n;
            BuildOpts fo = o;
            fo.adm = 0, fo.admdiag = false, fo.eta = 10, fo.mtd = fo.msd = 0;
            auto fb = make_builder(fo, p, c["wseed"]);
            if (fo.dbg) fb.set_dense_blocks_generator(nullptr);
            fac.reset(new H(fb.build((const htool::VirtualGenerator<T> &)g)));
            if (fs == 'N')
                htool::lu_factorization(*fac);
            else
                htool::cholesky_factorization(fu, *fac);
        }
        if (log.errors) fac.reset();
        vector<const H *> nodes;
        nodes_of(h, nodes);
        std::map<const H *, Ref<T>> refs;
        int K = std::max<int64_t>(1, c["callers"]);
        vector<vector<std::unique_ptr<Task<T>>>> tasks(K);
        static const char *names[] = {"parallel vector product", "sequential vector product", "parallel row-major product", "sequential row-major product", "matrix product", "dense copy", "dense copy in user numbering", "diagonal", "information", "tree parameters", "list of leaves", "search of a block", "solve with a factorised operator", "renumbering", "copy of an operator"};
        for (auto &op : c.ops) {
            std::unique_ptr<Task<T>> tp(new Task<T>);
            Task<T> &t = *tp;
            t.kind     = op[1] % KINDS;
            Rng r(op[3]);
            bool whole = t.kind == R_DENSE_USER || t.kind == R_DIAG || t.kind == R_COPY || t.kind == R_INFO;
            t.a        = whole ? &h : nodes[op[4] % nodes.size()];
            t.mu       = t.kind <= R_VEC_SEQ ? 1 : std::max<int64_t>(1, op[5]);
            t.tr       = "NTC"[op[2] % 3];
            t.pick     = (int)r.below(1 << 20);
            if (t.kind == R_DIAG && !p.same) t.kind = R_INFO;
            if (t.kind == R_DIAG && "NTC"[op[2] % 3] == 'N') { // also the diagonal of a diagonal block
                vector<const H *> on;
                for (auto w : nodes)
                    if (w->get_target_cluster().get_offset() == w->get_source_cluster().get_offset() && w->get_target_cluster().get_size() == w->get_source_cluster().get_size()) on.push_back(w);
                t.a = on[op[4] % on.size()];
            }
            char sl = t.a->get_symmetry_for_leaves();
            if ((sl == 'H' && t.tr == 'T') || (sl == 'S' && t.tr == 'C')) t.tr = 'N';
            if (t.kind == R_COPY && o.sym != 'N') t.kind = R_LEAVES;
            if (!refs.count(t.a)) refs[t.a] = reference(*t.a, o.sym, o.uplo);
            t.ref         = &refs[t.a];
            const Ref<T> &ref = *t.ref;
            int nr = t.tr == 'N' ? ref.A.m : ref.A.n, nc = t.tr == 'N' ? ref.A.n : ref.A.m;
            t.alpha = random_scalar<T>(r), t.beta = random_scalar<T>(r);
            if (t.kind <= R_MAT) {
                t.x = random_vec<T>(r, (size_t)nc * t.mu), t.y = random_vec<T>(r, (size_t)nr * t.mu);
                t.want.assign((size_t)nr * t.mu, T(0)), t.bound.assign((size_t)nr * t.mu, 0);
                for (int k = 0; k < t.mu; k++) {
                    vector<T> xk(nc), yk(nr), wk;
                    vector<double> bk;
                    for (int i = 0; i < nc; i++) xk[i] = t.x[(size_t)i * t.mu + k];
                    for (int i = 0; i < nr; i++) yk[i] = t.y[(size_t)i * t.mu + k];
                    ref_gemv(t.tr, t.alpha, ref, xk.data(), t.beta, yk.data(), wk, bk);
                    for (int i = 0; i < nr; i++) t.want[(size_t)i * t.mu + k] = wk[i], t.bound[(size_t)i * t.mu + k] = bk[i];
                }
                if (t.kind == R_MAT) {
                    t.B = Matrix<T>(nc, t.mu), t.C = Matrix<T>(nr, t.mu);
                    for (int k = 0; k < t.mu; k++) {
                        for (int i = 0; i < nc; i++) t.B(i, k) = t.x[(size_t)i * t.mu + k];
                        for (int i = 0; i < nr; i++) t.C(i, k) = t.y[(size_t)i * t.mu + k];
                    }
                }
            } else if (t.kind == R_DENSE || t.kind == R_DENSE_USER) {
                size_t sz = (size_t)ref.A.m * ref.A.n;
                t.y.assign(sz, T(0));
                t.want = t.y;
                t.bound.assign(sz, 0);
                auto &tperm = p.t().get_permutation(), &sperm = p.s().get_permutation();
                int ro = t.a->get_target_cluster().get_offset(), co = t.a->get_source_cluster().get_offset();
                for (auto &l : ref.leaves) {
                    Dense<T> d       = leaf_dense(l);
                    Dense<double> bd = leaf_abs(l);
                    for (int j = 0; j < l.nc; j++)
                        for (int i = 0; i < l.nr; i++) {
                            int I = l.ro + i, J = l.co + j;
                            size_t at   = t.kind == R_DENSE ? (I - ro) + (size_t)ref.A.m * (J - co) : tperm[I] + (size_t)ref.A.m * sperm[J];
                            t.want[at]  = d(i, j);
                            t.bound[at] = bd(i, j);
                            if (t.kind == R_DENSE_USER && l.mirrored) {
                                at          = tperm[J] + (size_t)ref.A.m * sperm[I];
                                t.want[at]  = o.sym == 'H' ? conj_(d(i, j)) : d(i, j);
                                t.bound[at] = bd(i, j);
                            }
                        }
                }
            } else if (t.kind == R_DIAG) {
                int nd = ref.A.m;
                t.y.assign(nd, T(7)), t.want.assign(nd, T(0)), t.bound.assign(nd, 0);
                auto &perm = p.t().get_permutation();
                for (int i = 0; i < nd; i++) {
                    int at      = t.tr == 'N' ? i : perm[i];
                    t.want[at]  = ref.A(i, i);
                    t.bound[at] = ref.B(i, i);
                }
            } else if (t.kind == R_SOLVE) {
                t.C = Matrix<T>(p.n, t.mu);
                for (int k = 0; k < t.mu; k++)
                    for (int i = 0; i < p.n; i++) t.C(i, k) = make<T>(r.sym(), r.sym());
                if (fac) { // what one caller alone gets
                    Matrix<T> keep = t.C;
                    perform(t, p, fac.get(), fu, fs);
                    double nx = 0;
                    for (int k = 0; k < t.mu; k++)
                        for (int i = 0; i < p.n; i++) nx = std::max(nx, (double)std::abs(t.C(i, k)));
                    for (int k = 0; k < t.mu; k++)
                        for (int i = 0; i < p.n; i++) t.want.push_back(t.C(i, k)), t.bound.push_back(nx);
                    t.C = keep;
                }
            } else if (t.kind == R_RENUMBER) {
                t.x = random_vec<T>(r, p.n), t.y.assign(p.n, T(0)), t.want.assign(p.n, T(0));
                t.bound.assign(p.n, 0);
                auto &perm = p.t().get_permutation();
                for (int i = 0; i < p.n; i++) {
                    if (t.tr == 'N')
                        t.want[i] = t.x[perm[i]];
                    else
                        t.want[perm[i]] = t.x[i];
                }
            } else if (t.kind == R_INFO) {
                t.info_want = htool::get_hmatrix_information(*t.a);
            } else if (t.kind == R_PRINT) {
                std::ostringstream os;
                htool::print_tree_parameters(*t.a, os);
                t.text_want = os.str();
            }
            t.x0 = t.x;
            tasks[op[0] % K].push_back(std::move(tp));
        }
        uint64_t before = 0, fbefore = 0;
        auto digest = [&](const H &m) {
            vector<Leaf<T>> lv;
            collect(m, false, lv);
            uint64_t z = 7;
            for (auto &l : lv) {
                Dense<T> d = leaf_dense(l);
                z          = sim::mix(z, sim::hash_bytes(d.a.data(), d.a.size() * sizeof(T)));
            }
            return z;
        };
        before = digest(h);
        if (fac) fbefore = digest(*fac);
        log.clear();
        vector<std::function<void()>> fs_;
        for (int k = 0; k < K; k++)
            fs_.push_back([&, k] {
                sim::omp_threads(std::max<int64_t>(1, c[cat("threads", k)]));
                for (auto &tp : tasks[k]) {
                    Task<T> &t = *tp;
                    string what;
                    int e0;
                    {
                        sim::Quiet q;
                        what = cat("concurrent ", names[t.kind]);
                        sim::context(what);
                        e0 = log.w->by_fiber[sim::fiber_id()];
                    }
                    {
                        Live l;
                        perform(t, p, fac.get(), fu, fs);
                    }
                    sim::Quiet q;
                    t.errors = log.w->by_fiber[sim::fiber_id()] - e0;
                    if (t.errors && t.kind != R_DENSE_USER && t.kind != R_DIAG) sim::violate("error-logged", what, cat("an error is reported for a supported operation: ", log.w->last));
                    if (t.kind == R_MAT || t.kind == R_SOLVE) {
                        vector<T> y;
                        if (t.kind == R_MAT) {
                            y.resize(t.want.size());
                            for (int kk = 0; kk < t.mu; kk++)
                                for (int i = 0; i < t.C.nb_rows(); i++) y[(size_t)i * t.mu + kk] = t.C(i, kk);
                            for (int kk = 0; kk < t.mu; kk++)
                                for (int i = 0; i < t.B.nb_rows(); i++)
                                    if (t.B(i, kk) != t.x[(size_t)i * t.mu + kk]) sim::violate("wrong-result", what + " changes its input", "the input matrix changed");
                        } else if (fac)
                            y.assign(t.C.data(), t.C.data() + t.want.size());
                        compare(what, y.data(), t.want.data(), t.bound.data(), t.want.size(), 1e-12);
                        if (t.kind == R_SOLVE && fac) sim::count("solves");
                    } else if (!t.y.empty())
                        compare(what, t.y.data(), t.want.data(), t.bound.data(), t.want.size());
                    if (!bits_equal(t.x.data(), t.x0.data(), t.x.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
                    if (strip(t.info) != strip(t.info_want)) sim::violate("wrong-result", what, "the information differs from what one caller alone gets");
                    if (t.text != t.text_want) sim::violate("wrong-result", what, "the parameters differ from what one caller alone gets");
                    if (t.kind == R_LEAVES) {
                        size_t m = 0;
                        for (auto &l : t.ref->leaves) m += l.mirrored;
                        // a block below a symmetric one does not know it: only its own flags count
                        if (t.leaves != t.ref->leaves.size() || t.mirrored != m) sim::violate("wrong-result", what, cat(t.leaves, " leaves and ", t.mirrored, " mirrored ones, expected ", t.ref->leaves.size(), " and ", m));
                    }
                    if (!t.sub_ok) sim::violate("wrong-result", what, "a block of the operator is not found");
                    if (t.copy) {
                        if (digest(*t.copy) != before) sim::violate("wrong-result", what, "the copy differs from the operator");
                        Live l;
                        t.copy.reset();
                    }
                }
            });
        if (K == 1)
            fs_[0]();
        else
            sim::run_threads(fs_);
        if (digest(h) != before) sim::violate("wrong-result", "shared operator changed", "reading the shared operator changed it");
        if (fac && digest(*fac) != fbefore) sim::violate("wrong-result", "shared factorisation changed", "solving with the shared factorisation changed it");
        int busy = 0;
        for (auto &v : tasks) busy += !v.empty();
        if (busy > 1) sim::count("nontrivial");
        sim::count("operations", c.ops.size());
        if (fac) sim::count("factorised");
    });
}
static const sim::Driver d1{"shared", gen_readers, run};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
