// Products with and scaling of hierarchical matrices under simulated threads (A02, A03, A04).
#define DRV_SINGLE
#include "common.hpp"
#include "logcapture.hpp"
using namespace drv;

enum { VEC_OMP, VEC_SEQ, ROW_OMP, ROW_SEQ, COL_SEQ, SCALE_OMP, SCALE_SEQ, SCALE_DEFAULT, KINDS };

static void gen_common(Case &c, Rng &r, int tier, const vector<int> &kinds, int nops) {
    sim::gen_sched(c, r);
    c.set("threads", r.chance(0.1) ? 1 : 2 + (int)r.below(7), 1);
    c.set("dyn", r.chance(0.2), 0);
    gen_problem(c, r, tier ? 220 : 130, 5);
    gen_builder(c, r);
    c.set("tpart", r.chance(0.25) ? (int)r.below(8) : -1, -1);
    c.set("admdiag", r.chance(0.3), 0);
    for (int i = 0; i < nops; i++) {
        int k = kinds[r.below(kinds.size())];
        c.ops.push_back({k, (int64_t)r.below(3), (int64_t)(r.next() >> 2), r.chance(0.6) ? 0 : (int64_t)r.below(1000), 1 + (int64_t)r.below(r.chance(0.8) ? 5 : 20)});
    }
}
static void gen_vec(Case &c, Rng &r, int tier) { gen_common(c, r, tier, {VEC_OMP, VEC_OMP, VEC_OMP, VEC_SEQ}, 1 + r.below(6)); }
static void gen_mat(Case &c, Rng &r, int tier) { gen_common(c, r, tier, {ROW_OMP, ROW_OMP, ROW_OMP, ROW_SEQ, COL_SEQ}, 1 + r.below(5)); }
static void gen_scale(Case &c, Rng &r, int tier) { gen_common(c, r, tier, {SCALE_OMP, SCALE_OMP, SCALE_DEFAULT, SCALE_SEQ, VEC_OMP, ROW_OMP}, 2 + r.below(5)); }

template <class T>
static void nodes_of(HMatrix<T, RealOf<T>> &h, vector<HMatrix<T, RealOf<T>> *> &out) {
    out.push_back(&h);
    for (auto &c : h.get_children()) nodes_of(*c, out);
}

static void run(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) {
        using T = decltype(t);
        using H = HMatrix<T, RealOf<T>>;
        Problem<T> p(c);
        p.gen.points = false;
        BuildOpts o  = BuildOpts::from(c, p);
        if (c["tpart"] >= 0) o.tpart = o.spart = c["tpart"] % p.P;
        auto b = make_builder(o, p, c["wseed"]);
        H h    = b.build((const htool::VirtualGenerator<T> &)p.gen);
        check_cover(reference(h, o.sym, o.uplo));
        sim::omp_threads(std::max<int64_t>(1, c["threads"]));
        vector<H *> nodes;
        nodes_of(h, nodes);
        int par = 0;
        LogCapture log;
        for (size_t q = 0; q < c.ops.size(); q++) {
            auto &op = c.ops[q];
            int kind = op[0] % KINDS;
            H &a     = *nodes[op[3] % nodes.size()];
            Rng r(op[2]);
            Ref<T> ref = reference(a, o.sym, o.uplo);
            // an off-diagonal block of a symmetric operator is a plain operator; the block of a row is symmetric only in part
            char tr  = "NTC"[op[1] % 3];
            char sl  = a.get_symmetry_for_leaves();
            bool bad = (sl == 'H' && tr == 'T') || (sl == 'S' && tr == 'C' && is_cplx<T>::value);
            int mu   = kind <= VEC_SEQ ? 1 : std::max<int64_t>(1, op[4]);
            int nr = tr == 'N' ? ref.A.m : ref.A.n, nc = tr == 'N' ? ref.A.n : ref.A.m;
            static const char *names[] = {"parallel vector product", "sequential vector product", "parallel row-major product", "sequential row-major product", "column-major product", "parallel scaling", "sequential scaling", "scaling"};
            string what = cat(names[kind], kind >= SCALE_OMP ? "" : cat(" trans ", tr), o.sym != 'N' ? cat(" symmetry ", o.sym) : "", &a == &h ? "" : " of a block");
            sim::context(what);
            if (kind >= SCALE_OMP) {
                T f = o.sym == 'H' ? T(std::abs(random_scalar<T>(r)) - 0.5) : random_scalar<T>(r);
                vector<Leaf<T>> all, sub;
                collect(h, false, all);
                collect(a, false, sub);
                std::map<const H *, Dense<T>> before;
                std::map<const H *, Dense<double>> mag;
                std::map<const H *, bool> in;
                for (auto &l : all) before[l.h] = leaf_dense(l), mag[l.h] = leaf_abs(l);
                for (auto &l : sub) in[l.h] = true;
                if (bad) f = T(2);
                {
                    Live l;
                    if (kind == SCALE_OMP)
                        htool::openmp_scale(f, a);
                    else if (kind == SCALE_SEQ)
                        htool::sequential_scale(f, a);
                    else
                        htool::scale(f, a);
                }
                vector<Leaf<T>> after;
                collect(h, false, after);
                if (after.size() != all.size()) sim::violate("structure", what, "scaling changed the blocks of the operator");
                for (auto &l : after) {
                    if (!before.count(l.h)) sim::violate("structure", what, "scaling changed the blocks of the operator");
                    Dense<T> got = leaf_dense(l), &w = before[l.h];
                    if (got.m != w.m || got.n != w.n) sim::violate("structure", what, "scaling changed the shape of a block");
                    if (!in[l.h]) {
                        if (!bits_equal(got.a.data(), w.a.data(), w.a.size())) sim::violate("wrong-result", what + " touches other blocks", "a block outside of the scaled one changed");
                    } else {
                        for (auto &x : w.a) x *= f;
                        for (auto &x : mag[l.h].a) x *= std::abs(f);
                        compare(what, got.a.data(), w.a.data(), mag[l.h].a.data(), w.a.size());
                    }
                }
                if (kind != SCALE_SEQ) par++;
                continue;
            }
            T alpha = random_scalar<T>(r), beta = random_scalar<T>(r);
            vector<T> x = random_vec<T>(r, (size_t)nc * mu), y0 = random_vec<T>(r, (size_t)nr * mu), want, y, x0 = x;
            vector<double> bound;
            ref.A.m = ref.A.m; // shapes fixed
            want.assign((size_t)nr * mu, T(0)), bound.assign((size_t)nr * mu, 0);
            for (int k = 0; k < mu; k++) {
                vector<T> xk(nc), yk(nr), wk;
                vector<double> bk;
                for (int i = 0; i < nc; i++) xk[i] = x[(size_t)i * mu + k];
                for (int i = 0; i < nr; i++) yk[i] = y0[(size_t)i * mu + k];
                ref_gemv(tr, alpha, ref, xk.data(), beta, yk.data(), wk, bk);
                for (int i = 0; i < nr; i++) want[(size_t)i * mu + k] = wk[i], bound[(size_t)i * mu + k] = bk[i];
            }
            y = y0;
            log.clear();
            if (kind == COL_SEQ) {
                char tb = "NTC"[r.below(3)];
                Matrix<T> B(tb == 'N' ? nc : mu, tb == 'N' ? mu : nc), C(nr, mu);
                for (int k = 0; k < mu; k++) {
                    for (int i = 0; i < nc; i++) {
                        T v = x[(size_t)i * mu + k];
                        if (tb == 'N')
                            B(i, k) = v;
                        else
                            B(k, i) = tb == 'T' ? v : conj_(v);
                    }
                    for (int i = 0; i < nr; i++) C(i, k) = y0[(size_t)i * mu + k];
                }
                Matrix<T> B0 = B;
                {
                    Live l;
                    htool::internal_add_hmatrix_matrix_product(tr, tb, alpha, a, B, beta, C);
                }
                if (!bits_equal(B.data(), B0.data(), (size_t)B.nb_rows() * B.nb_cols())) sim::violate("wrong-result", what + " changes its input", "the input matrix changed");
                for (int k = 0; k < mu; k++)
                    for (int i = 0; i < nr; i++) y[(size_t)i * mu + k] = C(i, k);
            } else {
                Live l;
                if (kind == VEC_OMP)
                    htool::openmp_internal_add_hmatrix_vector_product(tr, alpha, a, x.data(), beta, y.data());
                else if (kind == VEC_SEQ)
                    htool::sequential_internal_add_hmatrix_vector_product(tr, alpha, a, x.data(), beta, y.data());
                else if (kind == ROW_OMP)
                    htool::openmp_internal_add_hmatrix_matrix_product_row_major(tr, 'N', alpha, a, x.data(), beta, y.data(), mu);
                else
                    htool::sequential_internal_add_hmatrix_matrix_product_row_major(tr, 'N', alpha, a, x.data(), beta, y.data(), mu);
            }
            if (!bits_equal(x.data(), x0.data(), x.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
            if (bad) { // not supported for this storage: must at least be reported
                if (!log.errors) {
                    bool same = true;
                    for (size_t i = 0; i < y.size(); i++) same = same && std::abs(y[i] - want[i]) <= ulps<T>() * 1e-12 * bound[i] + tiny<T>();
                    if (!same) sim::violate("wrong-result", what + ": unsupported and not reported", "an unsupported combination gives a wrong result without an error");
                }
                sim::count("unsupported_combinations");
            } else
                compare(what, y.data(), want.data(), bound.data(), y.size());
            if (kind == VEC_OMP || kind == ROW_OMP) par++;
            if (o.sym != 'N') sim::count("symmetric_products");
            if (tr != 'N') sim::count("transposed_products");
            if (&a != &h) sim::count("block_products");
        }
        Ref<T> ref = reference(h, o.sym, o.uplo);
        if (par && c["threads"] > 1 && ref.leaves.size() > 2) sim::count("nontrivial");
        sim::count("products", c.ops.size());
    });
}
static const sim::Driver d1{"vector", gen_vec, run}, d2{"multi", gen_mat, run}, d3{"scale", gen_scale, run};
const sim::Driver *sim::driver_table[] = {&d1, &d2, &d3, nullptr};
