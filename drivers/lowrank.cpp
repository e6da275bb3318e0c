// Low-rank matrices: compression of blocks, recompression, additions and products of histories of concurrent callers that
// share generator, compressor and inputs, with failing callbacks and allocations (A09).
#include "common.hpp"
#include "faults.hpp"
#include "logcapture.hpp"
#include "densekit.hpp"
#include "huge.hpp"
using namespace drv;

enum { BUILD, RECOMP, ADD, LLL, LML, MLL, MML, SCALE, READ, COPY, ERRORS, KINDS, HUGE_BLOCK = KINDS };
static const char *names[] = {"compression", "recompression", "addition of low-rank matrices", "low rank x low rank into low rank", "low rank x dense into low rank", "dense x low rank into low rank", "dense x dense into low rank", "scaling of a low-rank matrix", "reading a low-rank matrix", "copying a low-rank matrix", "error of a low-rank matrix", "compression of a huge block"};
static const char *comps[] = {"SVD", "ACA with full pivoting", "ACA with partial pivoting", "symmetric ACA"};

static void gen_blocks(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.set("dyn", 0, 0);
    gen_problem(c, r, tier ? 110 : 70, 4);
    gen_builder(c, r);
    c.set("dbg", 0, 0), c.set("adm", 0, 0), c.set("mtd", 0, 0), c.set("msd", 0, 0), c.set("rr", -1, -1), c.set("cons", 1, 1);
    c.set("comp", r.below(4), 2);
    c.set("kscale", r.chance(0.5) ? 0 : 1 + r.below(7), 0);
    int callers = r.chance(0.5) ? 1 : 2 + (int)r.below(2);
    c.set("callers", callers, 1);
    int n = 1 + (int)r.below(8);
    bool faults = callers == 1 && r.chance(0.4);
    for (int i = 0; i < n; i++)
        c.ops.push_back({(int64_t)r.below(callers), r.chance(0.4) ? BUILD : (int64_t)r.below(KINDS), (int64_t)r.below(9), (int64_t)(r.next() >> 2), (int64_t)r.below(1000), faults && r.chance(0.5) ? 1 + (int64_t)r.below(400) : 0});
    if (r.chance(0.02)) c.ops.push_back({0, HUGE_BLOCK, 0, (int64_t)(r.next() >> 2), 0, 0});
}

// ---------------------------------------------------------------- singular values by one-sided Jacobi rotations
template <class T>
static vector<double> singular(Dense<T> a) {
    if (a.m < a.n) a = op_of('C', a);
    double big = 0;
    for (auto &x : a.a) big = std::max(big, std::abs(x));
    vector<double> s(a.n, 0.);
    if (!(big > 0)) return s;
    for (auto &x : a.a) x /= big;
    for (int sweep = 0; sweep < 60; sweep++) {
        bool turned = false;
        for (int p = 0; p < a.n; p++)
            for (int q = p + 1; q < a.n; q++) {
                double al = 0, be = 0;
                T ga      = T(0);
                for (int i = 0; i < a.m; i++) al += std::norm(a(i, p)), be += std::norm(a(i, q)), ga += conj_(a(i, p)) * a(i, q);
                double g = std::abs(ga);
                if (g <= 1e-15 * std::sqrt(al * be) || g < 1e-200) continue;
                turned    = true;
                T ph      = conj_(ga) / T(g);
                double ze = (be - al) / (2 * g), t = (ze >= 0 ? 1 : -1) / (std::abs(ze) + std::sqrt(1 + ze * ze)), co = 1 / std::sqrt(1 + t * t), si = co * t;
                for (int i = 0; i < a.m; i++) {
                    T x = a(i, p), y = a(i, q) * ph;
                    a(i, p) = T(co) * x - T(si) * y;
                    a(i, q) = T(si) * x + T(co) * y;
                }
            }
        if (!turned) break;
    }
    for (int p = 0; p < a.n; p++) {
        double x = 0;
        for (int i = 0; i < a.m; i++) x += std::norm(a(i, p));
        s[p] = big * std::sqrt(x);
    }
    std::sort(s.rbegin(), s.rend());
    return s;
}
static double tail(const vector<double> &s, int k) { // best error of rank k
    double x = 0;
    for (int i = (int)s.size() - 1; i >= k; i--) x += s[i] * s[i];
    return std::sqrt(x);
}

template <class T>
struct World {
    const Case &c;
    Problem<T> p;
    double eps;
    int K, comp;
    std::shared_ptr<htool::VirtualLowRankGenerator<T, RealOf<T>>> compressor;
    std::unique_ptr<htool::InternalGeneratorWithPermutation<T>> ig;
    vector<const Cluster<double> *> ts, ss;
    static void all(const Cluster<double> &c, vector<const Cluster<double> *> &out) {
        out.push_back(&c);
        for (auto &x : c.get_children()) all(*x, out);
    }
    explicit World(const Case &c_) : c(c_), p(c_) {
        p.gen.k.shift = 0;
        eps           = std::pow(10., -(double)c["epsx"]);
        K             = std::max<int64_t>(1, c["callers"]);
        comp          = c["comp"] & 3;
        sim::omp_threads(1);
        compressor = make_compressor<T>(comp);
        ig.reset(new htool::InternalGeneratorWithPermutation<T>(p.gen, p.t().get_permutation().data(), p.s().get_permutation().data()));
        all(p.t(), ts), all(p.s(), ss);
    }
    Dense<T> block(const Cluster<double> &t, const Cluster<double> &s) const {
        Dense<T> a(t.get_size(), s.get_size());
        auto &tp = p.t().get_permutation(), &sp = p.s().get_permutation();
        for (int j = 0; j < a.n; j++)
            for (int i = 0; i < a.m; i++) a(i, j) = p.gen.entry(tp[t.get_offset() + i], sp[s.get_offset() + j]);
        return a;
    }
};
// A low-rank matrix whose terms have very different sizes, sometimes linearly dependent.
template <class T>
static LR<T> graded_lr(Rng &r, int m, int n, double eps, double scale) {
    LR<T> l   = random_lr<T>(r, m, n, eps, true);
    int k     = l.rank_of(), mode = (int)r.below(4);
    for (int q = 0; q < k; q++) {
        double f = mode == 0 ? 1 : std::pow(10., -(double)r.below(mode == 1 ? 4 : 13));
        for (int j = 0; j < n; j++) l.get_V()(q, j) *= T(f * scale);
        if (mode == 3 && q > 0 && r.chance(0.5))
            for (int i = 0; i < m; i++) l.get_U()(i, q) = l.get_U()(i, q - 1);
    }
    return l;
}
template <class T>
static double size_of(const LR<T> &l) { // bounds the rounding errors made with the factors
    return frob(dense_of(l.get_U())) * frob(dense_of(l.get_V()));
}
template <class T>
struct Caller {
    std::unique_ptr<LR<T>> acc;
    const Cluster<double> *t = nullptr, *s = nullptr;
    bool from_gen = false;
};

// the sum of the first k terms, and what is left of a after them
template <class T>
static Dense<T> partial(const LR<T> &l, int m, int n, int k) {
    Dense<T> d(m, n);
    for (int q = 0; q < k; q++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) d(i, j) += l.get_U()(i, q) * l.get_V()(q, j);
    return d;
}
template <class T>
static double term(const LR<T> &l, int q) {
    double u = 0, v = 0;
    for (int i = 0; i < l.get_U().nb_rows(); i++) u += std::norm(l.get_U()(i, q));
    for (int j = 0; j < l.get_V().nb_cols(); j++) v += std::norm(l.get_V()(q, j));
    return std::sqrt(u) * std::sqrt(v);
}
template <class T>
static void zero_lines(const Dense<T> &a, const Dense<T> &e, const LR<T> &l, bool transposed, int &rows, int &cols) {
    double big = 0, growth = 1; // a small pivot amplifies the rounding errors of its line
    for (int q = 0; q < l.rank_of(); q++) {
        double g = 0;
        for (int i = 0; i < (transposed ? a.n : a.m); i++) g = std::max(g, (double)std::abs(transposed ? l.get_V()(q, i) : l.get_U()(i, q)));
        growth *= std::max(1., g);
    }
    for (int j = 0; j < a.n; j++)
        for (int i = 0; i < a.m; i++) {
            double x = std::abs(a(i, j));
            for (int q = 0; q < l.rank_of(); q++) x += std::abs(l.get_U()(i, q)) * std::abs(l.get_V()(q, j));
            big = std::max(big, x);
        }
    rows = cols = 0;
    for (int i = 0; i < a.m; i++) {
        bool z = true;
        for (int j = 0; j < a.n; j++) z = z && std::abs(e(i, j)) <= std::max(1e-10, 1e-15 * growth) * big;
        rows += z;
    }
    for (int j = 0; j < a.n; j++) {
        bool z = true;
        for (int i = 0; i < a.m; i++) z = z && std::abs(e(i, j)) <= std::max(1e-10, 1e-15 * growth) * big;
        cols += z;
    }
}
template <class T>
static Dense<T> minus(const Dense<T> &a, const Dense<T> &b) {
    Dense<T> d = a;
    for (size_t i = 0; i < d.a.size(); i++) d.a[i] -= b.a[i];
    return d;
}

// What a compression of the block a gave, at a tolerance (rank -1) or a required rank.
template <class T>
static void judge_build(World<T> &w, const LR<T> &l, const Cluster<double> &t, const Cluster<double> &s, int req, double eps, const string &what) {
    int m = t.get_size(), n = s.get_size(), r = l.rank_of();
    Dense<T> a  = w.block(t, s);
    double norm = frob(a);
    if (r > 0 || req == 0) {
        if (l.get_U().nb_rows() != m || l.get_V().nb_cols() != n || l.get_V().nb_rows() != r) sim::violate("structure", what + " shape", cat("the factors for a ", m, "x", n, " block are ", l.get_U().nb_rows(), "x", r, " and ", l.get_V().nb_rows(), "x", l.get_V().nb_cols()));
    } else if (l.get_V().nb_rows() != 0)
        sim::violate("structure", what + " shape", "one factor is empty and the other is not");
    if (l.get_epsilon() != eps) sim::violate("wrong-result", what + " tolerance", "the low-rank matrix does not keep the tolerance");
    if (req == 0) {
        if (r != 0) sim::violate("wrong-result", what + " rank", cat("rank 0 was asked for, got ", r));
        return;
    }
    if (!finite(l.get_U().data(), (size_t)m * r) || !finite(l.get_V().data(), (size_t)n * r)) sim::violate("wrong-result", what + " not finite", cat("a factor of a ", m, "x", n, " block of norm ", norm, " is not finite"));
    auto bad = [&](const char *sig, const string &msg) { sim::violate_unless_known("wrong-result", cat(what, ": ", sig), cat(what, " of a ", m, "x", n, " block of norm ", norm, " at ", eps, ", rank ", r, req > 0 ? cat(" (", req, " required)") : string(), ": ", msg)); };
    double most = 0;
    for (auto &x : a.a) most = std::max(most, (double)std::abs(x));
    if (most > 0 && most < 1e-90) return; // close to the smallest numbers
    Dense<T> e = minus(a, partial(l, m, n, r));
    double err = frob(e), dust = 1e-13 * norm;
    int kmax   = (int)((int64_t)m * n / (m + n));
    if (req > 0 && r > req) bad("rank above the required one", "the rank is above the required one");
    if (req < 0 && (int64_t)r * (m + n) > (int64_t)m * n) bad("rank without advantage", "the factors take more memory than the block");
    auto stops = [&](const LR<T> &x, int k, double margin) { return term(x, k - 1) <= margin * eps * frob(partial(x, m, n, k)); };
    if (w.comp == 0) {
        vector<double> sv = singular(a);
        if (req > 0) {
            if (r != std::min(req, std::min(m, n))) bad("rank", "another rank than the required one");
            if (!(err <= tail(sv, r) * (1 + 1e-8) + dust)) bad("not the best approximation", cat("error ", err, ", the best one of this rank is ", tail(sv, r)));
        } else {
            auto needed = [&](double f, double d) {
                int k = std::min(m, n);
                while (k > 1 && (norm == 0 || tail(sv, k - 1) < f * eps * norm + d)) k--;
                return k;
            };
            int lo = needed(1 + 1e-6, dust), hi = needed(1 - 1e-6, -dust);
            if (r > 0 && (r < lo || r > hi)) bad("rank", cat("the smallest sufficient rank is ", hi));
            if (r > 0 && !(err <= eps * norm * (1 + 1e-6) + dust)) bad("accuracy", cat("error ", err));
            if (r == 0 && lo <= kmax && hi <= kmax) bad("refused", cat("a rank of ", hi, " suffices, but the block is not compressed"));
        }
        return;
    }
    auto again = [&](int k) { // the same crosses without a stopping criterion
        sim::Quiet q;
        return LR<T>(*w.ig, *w.compressor, t, s, k, eps);
    };
    if (w.comp == 1) {
        if (req < 0 && r > 0) {
            if (!(err <= eps * norm * (1 + 1e-6) + dust)) bad("accuracy", cat("error ", err));
            if (r > 1 && frob(minus(a, partial(l, m, n, r - 1))) <= eps * norm * (1 - 1e-6) - dust) bad("too large a rank", "one cross less was enough");
        }
        if (req < 0 && r == 0 && norm > 0 && kmax > 0) {
            LR<T> x = again(kmax);
            if (frob(minus(a, partial(x, m, n, x.rank_of()))) <= eps * norm * (1 - 1e-6) - dust) bad("refused", cat("a rank of ", x.rank_of(), " suffices, but the block is not compressed"));
        }
        if (req > 0 && r < std::min(req, std::min(m, n)) && (r > 0 || std::min(req, std::min(m, n)) <= kmax) && !(err <= dust * 100)) bad("rank below the required one", cat("error ", err));
    } else {
        int zr = 0, zc = 0;
        zero_lines(a, e, l, w.comp == 3 && t.get_offset() < s.get_offset(), zr, zc);
        int zl = w.comp == 3 && t.get_offset() < s.get_offset() ? zc : zr; // lines visited one after the other
        if (r > 0 && (zr < r || zc < r)) bad("crosses not interpolated", cat("only ", zr, " rows and ", zc, " columns are reproduced"));
        if (req < 0 && r > 0) {
            if (!stops(l, r, 1 + 1e-6) && zl <= r) bad("stopped before its criterion", cat("the last term has norm ", term(l, r - 1), " of ", frob(partial(l, m, n, r)), ", error ", err));
            for (int k = 1; k < r; k++)
                if (stops(l, k, 1 - 1e-6)) bad("did not stop at its criterion", cat("the term ", k, " satisfies it"));
        }
        auto first_line = [&] {
            double first = 0;
            bool col     = w.comp == 3 && t.get_offset() < s.get_offset();
            for (int i = 0; i < (col ? m : n); i++) first = std::max(first, std::abs(col ? a(i, 0) : a(0, i)));
            if (first > 1e-100) bad("refused", cat("the block is not compressed, and its first line has an entry of ", first));
        };
        if (req > 0 && r == 0 && std::min(req, std::min(m, n)) <= kmax) first_line();
        if (req < 0 && r == 0 && kmax > 0 && norm > 0) {
            LR<T> x = again(kmax);
            int k   = x.rank_of();
            if (k == 0) { // the first line must vanish
                first_line();
            } else {
                for (int q = 1; q <= k; q++)
                    if (stops(x, q, 1 - 1e-6)) bad("refused", cat("its stopping criterion holds at rank ", q, ", but the block is not compressed"));
                if (k < kmax) bad("refused", cat("with a required rank it ends at rank ", k, ", but the block is not compressed"));
            }
        }
        if (req > 0 && r > 0 && r < std::min(req, std::min(m, n)) && zl <= r) bad("rank below the required one", cat("error ", err));
    }
    htool::RjasanowSteinbach<RealOf<T>> rs;
    int geom = w.c["geom"];
    if (req < 0 && r > 0 && w.p.k.smooth() && (geom <= 1 || geom == 6) && rs.ComputeAdmissibility(t, s, 10.) && !(err <= 1e4 * eps * norm + 1e-9 * norm)) bad("accuracy on a smooth kernel", cat("error ", err));
}
// After a recompression at the tolerance of l: what it stood for before is want, made of terms of the given size.
template <class T>
static void judge_recompressed(const LR<T> &l, const Dense<T> &want, double eps, double size, int most, bool minimal, const string &what) {
    double norm = frob(want);
    int r       = l.rank_of();
    check_close(what, dense_of(l, want.m, want.n), want, 1.01 * eps * norm + 1e-12 * size);
    if (r > most) sim::violate_unless_known("wrong-result", what + ": rank", cat(what, ": rank ", r, " of at most ", most));
    if (minimal && r > 1 && norm > 0 && tail(singular(want), r - 1) <= 0.99 * eps * norm - 1e-12 * size) sim::violate_unless_known("wrong-result", what + ": rank not reduced", cat(what, ": rank ", r, " of a ", want.m, "x", want.n, " block, a smaller one suffices for ", eps));
}

template <class T>
static void fresh(World<T> &w, Caller<T> &me, Rng &r) { // an accumulator on some pair of clusters
    me.t = w.ts[r.below(w.ts.size())], me.s = w.ss[r.below(w.ss.size())];
    double eps = r.chance(0.5) ? w.eps : std::pow(10., -1. - (double)r.below(10));
    LR<T> l    = graded_lr<T>(r, me.t->get_size(), me.s->get_size(), eps, w.p.k.scale);
    Live live;
    me.acc.reset(new LR<T>(l));
    me.from_gen = false;
}
template <class T>
static void lr_op(World<T> &w, Caller<T> &me, const vector<int64_t> &op, LogCapture &log) {
    sim::Quiet quiet;
    int kind = (int)(op[1] % (KINDS + 1));
    char ta = "NTC"[op[2] % 3], tb = "NTC"[op[2] / 3 % 3];
    Rng r(op[3]);
    int64_t fault = w.K == 1 ? op[5] : 0;
    int e0        = log.w->by_fiber[sim::fiber_id()];
    string what   = cat(names[kind], kind >= LLL && kind <= MML ? cat(", ", ta, tb) : "");
    if (kind == BUILD) what = cat(names[kind], " by ", comps[w.comp]);
    sim::context(what);
    auto logged = [&] {
        if (log.w->by_fiber[sim::fiber_id()] != e0) sim::violate_unless_known("error-logged", what, cat("an error is reported for a supported operation: ", log.w->last));
    };
    LR<T> &acc = *me.acc;
    int m = me.t->get_size(), n = me.s->get_size();
    double eps = acc.get_epsilon(), sc = w.p.k.scale;
    int r0     = acc.rank_of();
    Dense<T> before = dense_of(acc, m, n);
    double size0    = size_of(acc);
    T alpha = random_scalar<T>(r), beta = random_scalar<T>(r);
    switch (kind) {
    case BUILD: {
        const Cluster<double> &t = *w.ts[r.below(w.ts.size())], &s = *w.ss[r.below(w.ss.size())];
        int req     = r.chance(0.7) ? -1 : r.chance(0.1) ? 0 : 1 + (int)r.below(12);
        double tol  = r.chance(0.5) ? w.eps : std::pow(10., -1. - (double)r.below(10));
        bool user   = fault && fault % 2; // the user's callback fails
        auto &calls = w.p.gen.calls;
        if (user) w.p.gen.throw_at = calls + fault / 2 % 6;
        std::unique_ptr<LR<T>> l;
        bool done = false;
        int64_t base = sim::live_blocks();
        if (user) {
            Live live;
            try {
                l.reset(new LR<T>(*w.ig, *w.compressor, t, s, req, tol));
                done = true;
            } catch (const std::runtime_error &e) {
                if (string(e.what()) != "user callback failed") sim::violate("exception", what, cat("unexpected exception ", e.what()));
            }
            sim::count("throwing_callbacks", !done);
        } else
            done = attempt(fault, [&] { l.reset(new LR<T>(*w.ig, *w.compressor, t, s, req, tol)); });
        w.p.gen.throw_at = -1;
        if (!done) {
            if (sim::live_blocks() != base) sim::violate("leak", what, cat(sim::live_blocks() - base, " blocks of memory were not returned after a failed compression"));
            return;
        }
        logged();
        judge_build(w, *l, t, s, req, tol, what);
        sim::count("compressions");
        sim::count("refused", req < 0 && l->rank_of() == 0);
        if (l->rank_of() > 0 || req == 0) me.acc = std::move(l), me.t = &t, me.s = &s, me.from_gen = req != 0;
        Live live;
        l.reset();
        return;
    }
    case RECOMP: {
        bool copy = r.chance(0.3), zero = r0 > 0 && r.chance(0.1);
        if (zero) {
            Live live;
            htool::scale(T(0), acc);
        }
        if (zero) before = dense_of(acc, m, n), size0 = 0;
        std::unique_ptr<LR<T>> made;
        bool ok = attempt(fault, [&] {
            if (copy)
                made = htool::recompression(static_cast<const LR<T> &>(acc));
            else
                htool::recompression(acc);
        });
        if (!ok) {
            if (!copy) fresh(w, me, r);
            return;
        }
        logged();
        judge_recompressed(copy ? *made : acc, before, eps, size0, r0, true, what);
        if (zero && (copy ? *made : acc).rank_of() > 1) sim::violate_unless_known("wrong-result", what + ": rank not reduced", cat(what, ": rank ", (copy ? *made : acc).rank_of(), " for a zero ", m, "x", n, " block"));
        if (copy && !bits_equal(dense_of(acc, m, n).a.data(), before.a.data(), before.a.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
        sim::count("recompressions");
        Live live;
        made.reset();
        return;
    }
    case ADD: {
        const Cluster<double> *t = me.t, *s = me.s;
        vector<const Cluster<double> *> a, b;
        bool inside = r.chance(0.5);
        for (auto x : w.ts)
            if (inside ? htool::left_cluster_contains_right_cluster(*me.t, *x) : htool::left_cluster_contains_right_cluster(*x, *me.t)) a.push_back(x);
        for (auto x : w.ss)
            if (inside ? htool::left_cluster_contains_right_cluster(*me.s, *x) : htool::left_cluster_contains_right_cluster(*x, *me.s)) b.push_back(x);
        t = a[r.below(a.size())], s = b[r.below(b.size())];
        LR<T> X = graded_lr<T>(r, t->get_size(), s->get_size(), r.chance(0.5) ? eps : 0.3, sc);
        Dense<T> dx = dense_of(X, t->get_size(), s->get_size()), want = before;
        int ro = t->get_offset() - me.t->get_offset(), co = s->get_offset() - me.s->get_offset();
        for (int j = 0; j < dx.n; j++)
            for (int i = 0; i < dx.m; i++)
                if (i + ro >= 0 && i + ro < m && j + co >= 0 && j + co < n) want(i + ro, j + co) += dx(i, j);
        if (!attempt(fault, [&] { htool::add_lrmat_lrmat(X, *t, *s, acc, *me.t, *me.s); })) {
            fresh(w, me, r);
            return;
        }
        logged();
        double size = size0 + size_of(X);
        int rx      = X.rank_of();
        if (r0 == 0)
            check_close(what, dense_of(acc, m, n), want, 1e-12 * size);
        else
            judge_recompressed(acc, want, eps, size, r0 + rx, true, what);
        if (!bits_equal(dense_of(X, dx.m, dx.n).a.data(), dx.a.data(), dx.a.size())) sim::violate("wrong-result", what + " changes its input", "the added matrix changed");
        sim::count("additions");
        me.from_gen = false;
        return;
    }
    case LLL:
    case LML:
    case MLL:
    case MML: {
        int k  = 1 + (int)r.below(12);
        int am = ta == 'N' ? m : k, an = ta == 'N' ? k : m, bm = tb == 'N' ? k : n, bn = tb == 'N' ? n : k;
        LR<T> la(eps), lb(eps);
        Matrix<T> ma, mb;
        Dense<T> da, db;
        bool al = kind == LLL || kind == LML, bl = kind == LLL || kind == MLL;
        if (al)
            la = graded_lr<T>(r, am, an, eps, sc), da = dense_of(la, am, an);
        else
            da = random_dense<T>(r, am, an), ma = matrix_of(da);
        if (bl)
            lb = graded_lr<T>(r, bm, bn, eps, al ? 1 : sc), db = dense_of(lb, bm, bn);
        else
            db = random_dense<T>(r, bm, bn), mb = matrix_of(db);
        if (!bl && !al) alpha *= T(sc);
        Dense<T> ab = mul(op_of(ta, da), op_of(tb, db)), want = before;
        for (size_t i = 0; i < want.a.size(); i++) want.a[i] = alpha * ab.a[i] + beta * before.a[i];
        double sa = al ? size_of(la) : frob(da), sb = bl ? size_of(lb) : frob(db), size = std::abs(alpha) * sa * sb + std::abs(beta) * size0;
        int ra = al ? la.rank_of() : std::min(am, an), rb = bl ? lb.rank_of() : std::min(bm, bn);
        bool ok = attempt(fault, [&] {
            switch (kind) {
            case LLL: htool::add_lrmat_lrmat_product(ta, tb, alpha, la, lb, beta, acc); break;
            case LML: htool::add_lrmat_matrix_product(ta, tb, alpha, la, mb, beta, acc); break;
            case MLL: htool::add_matrix_lrmat_product(ta, tb, alpha, ma, lb, beta, acc); break;
            default: htool::add_matrix_matrix_product(ta, tb, alpha, ma, mb, beta, acc);
            }
        });
        if (!ok) {
            fresh(w, me, r);
            return;
        }
        logged();
        bool none      = ra == 0 || rb == 0; // nothing to add
        bool over      = r0 == 0 || beta == T(0);
        double allowed = 1e-12 * size;
        if (!none && (!over || kind == LML || kind == MML)) allowed += 1.01 * eps * frob(want);
        if (kind == MML) allowed += 1.02 * eps * std::abs(alpha) * frob(ab);
        check_close(what, dense_of(acc, m, n), want, allowed);
        int most = none ? r0 : (kind == LLL ? rb : kind == LML ? ra : kind == MLL ? rb : std::min(m, n)) + (over ? 0 : r0);
        if (acc.rank_of() > most) sim::violate_unless_known("wrong-result", what + ": rank", cat(what, ": rank ", acc.rank_of(), " of at most ", most));
        if (acc.get_epsilon() != eps) sim::violate("wrong-result", what + " tolerance", "the tolerance of the output changed");
        if ((al && !bits_equal(dense_of(la, am, an).a.data(), da.a.data(), da.a.size())) || (bl && !bits_equal(dense_of(lb, bm, bn).a.data(), db.a.data(), db.a.size())) || (!al && !bits_equal(ma.data(), da.a.data(), da.a.size())) || (!bl && !bits_equal(mb.data(), db.a.data(), db.a.size()))) sim::violate("wrong-result", what + " changes its input", "a factor changed");
        sim::count("lr_products");
        me.from_gen = false;
        return;
    }
    case HUGE_BLOCK: {
        HugePair h(r);
        HugeKernel<T> g(h.m, h.n, 1 + (int)r.below(4), r.chance(0.5) ? 1 : 0.01);
        int which  = 2 + (int)r.below(2), req = r.chance(0.5) ? -1 : 1 + (int)r.below(5);
        double tol = 1e-8;
        auto comp  = make_compressor<T>(which);
        what       = cat(names[BUILD], " by ", comps[which]);
        std::unique_ptr<LR<T>> l;
        {
            Live live;
            l.reset(new LR<T>(g, *comp, *h.t, *h.s, req, tol));
        }
        logged();
        check_huge(*l, g, 1e-6, req > 0, req, r, what);
        sim::count("huge_blocks");
        Live live;
        l.reset(), comp.reset();
        return;
    }
    case SCALE: {
        {
            Live l;
            htool::scale(alpha, acc);
        }
        for (auto &x : before.a) x *= alpha;
        check_close(what, dense_of(acc, m, n), before, 1e-13 * std::abs(alpha) * size0);
        me.from_gen = false;
        return;
    }
    case COPY: {
        std::unique_ptr<LR<T>> two;
        bool assign = r.chance(0.5);
        if (assign) {
            Live l;
            two.reset(new LR<T>(0.5));
        }
        if (!attempt(fault, [&] {
                if (assign)
                    *two = acc;
                else
                    two.reset(new LR<T>(acc));
            })) {
            Live l;
            two.reset();
            return;
        }
        if (two->get_epsilon() != eps || two->rank_of() != r0 || !bits_equal(dense_of(*two, m, n).a.data(), before.a.data(), before.a.size())) sim::violate("wrong-result", what, "the copy differs");
        {
            Live l;
            htool::scale(T(3), acc);
            htool::recompression(acc);
        }
        if (two->rank_of() != r0 || !bits_equal(dense_of(*two, m, n).a.data(), before.a.data(), before.a.size())) sim::violate("wrong-result", what, "the copy changes with its source");
        Live l;
        me.acc = std::move(two);
        return;
    }
    case READ: {
        Ref<T> ref;
        ref.A = before;
        ref.B = Dense<double>(m, n);
        for (int q = 0; q < r0; q++)
            for (int j = 0; j < n; j++)
                for (int i = 0; i < m; i++) ref.B(i, j) += std::abs(acc.get_U()(i, q)) * std::abs(acc.get_V()(q, j));
        int no = ta == 'N' ? m : n, ni = ta == 'N' ? n : m, mu = 1 + (int)r.below(5), how = (int)r.below(5);
        vector<T> x = random_vec<T>(r, (size_t)ni * mu), y = random_vec<T>(r, (size_t)no * mu), y0 = y, x0 = x;
        vector<T> wv(no);
        vector<double> bv;
        what = cat(what, " (", how, ") ", ta);
        sim::context(what);
        if (how == 0) { // vector
            if (!attempt(fault, [&] { htool::add_lrmat_vector_product(ta, alpha, acc, x.data(), beta, y.data()); })) return;
            ref_gemv(ta, alpha, ref, x.data(), beta, y0.data(), wv, bv);
            compare(what, y.data(), wv.data(), bv.data(), no);
        } else if (how == 1) { // row major
            if (!attempt(fault, [&] { htool::add_lrmat_matrix_product_row_major(ta, 'N', alpha, acc, x.data(), beta, y.data(), mu); })) return;
            vector<T> xi(ni), yi(no), yg(no);
            for (int q = 0; q < mu; q++) {
                for (int i = 0; i < ni; i++) xi[i] = x0[(size_t)i * mu + q];
                for (int i = 0; i < no; i++) yi[i] = y0[(size_t)i * mu + q], yg[i] = y[(size_t)i * mu + q];
                ref_gemv(ta, alpha, ref, xi.data(), beta, yi.data(), wv, bv);
                compare(what, yg.data(), wv.data(), bv.data(), no);
            }
        } else if (how == 2) { // matrix
            Dense<T> dx(ni, mu), dy(no, mu);
            dx.a = x, dy.a = y;
            Matrix<T> X = matrix_of(tb == 'N' ? dx : op_of(tb, dx)), Y = matrix_of(dy);
            if (!attempt(fault, [&] { htool::add_lrmat_matrix_product(ta, tb, alpha, acc, X, beta, Y); })) return;
            for (int q = 0; q < mu; q++) {
                ref_gemv(ta, alpha, ref, &dx(0, q), beta, &dy(0, q), wv, bv);
                compare(what, Y.data() + (size_t)q * no, wv.data(), bv.data(), no);
            }
        } else if (how == 3) { // the coefficients
            vector<T> d((size_t)m * n, T(7));
            if (r0 > 0) {
                if (!attempt(fault, [&] { acc.copy_to_dense(d.data()); })) return;
                compare("copy_to_dense of a low-rank matrix", d.data(), before.a.data(), ref.B.a.data(), d.size());
            }
            if (acc.nb_rows() != m || acc.nb_cols() != n) sim::violate("structure", what, "the low-rank matrix has another shape");
            double mem = (double)r0 * (m + n) / ((double)m * n);
            if (std::abs(acc.space_saving() - (1 - mem)) > 1e-12 * (1 + mem)) sim::violate_unless_known("wrong-info", "space saving", cat("space saving is ", acc.space_saving(), " for rank ", r0, " of ", m, "x", n));
            if (r0 > 0 && std::abs(acc.compression_ratio() * mem - 1) > 1e-12) sim::violate_unless_known("wrong-info", "compression ratio", cat("compression ratio is ", acc.compression_ratio(), " for rank ", r0, " of ", m, "x", n));
        } else { // operator*
            vector<T> z(x.begin(), x.begin() + std::min<size_t>(x.size(), n)), got;
            z.resize(n, T(1));
            if (r0 > 0) {
                if (!attempt(fault, [&] { got = acc * z; })) return;
                if ((int)got.size() != m) sim::violate("structure", what, "the product has another size");
                vector<T> none(m, T(0));
                ref_gemv('N', T(1), ref, z.data(), T(0), none.data(), wv, bv);
                compare("product of a low-rank matrix and a vector", got.data(), wv.data(), bv.data(), m);
            }
        }
        logged();
        if (!bits_equal(x.data(), x0.data(), x.size()) || !bits_equal(dense_of(acc, m, n).a.data(), before.a.data(), before.a.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
        sim::count("readings");
        return;
    }
    default: { // distance to the kernel
        if (r0 == 0) return;
        Dense<T> a = w.block(*me.t, *me.s);
        int req    = r.chance(0.5) ? -1 : (int)r.below(r0 + 1);
        double x = 0, y = 0, want = frob(minus(a, partial(acc, m, n, req < 0 ? r0 : req)));
        bool ok = attempt(fault, [&] {
            x = htool::Frobenius_absolute_error(*me.t, *me.s, acc, *w.ig, req);
            y = htool::Frobenius_relative_error(*me.t, *me.s, acc, *w.ig, req);
        });
        if (!ok) return;
        double slack = 1e-12 * (frob(a) + size0);
        if (!(std::abs(x - want) <= slack)) sim::violate_unless_known("wrong-result", "absolute error", cat("the absolute error is ", want, ", got ", x));
        if (frob(a) > 0 && !(std::abs(y * frob(a) - want) <= slack)) sim::violate_unless_known("wrong-result", "relative error", cat("the relative error is ", want / frob(a), ", got ", y));
        sim::count("errors_read");
    }
    }
}

template <class T>
static void run_t(const Case &c) {
    World<T> w(c);
    LogCapture log;
    vector<Caller<T>> callers(w.K);
    int64_t base = sim::live_blocks();
    for (int k = 0; k < w.K; k++) {
        Rng r(c["wseed"] + 31 + k);
        fresh(w, callers[k], r);
    }
    vector<vector<vector<int64_t>>> todo(w.K);
    for (auto &op : c.ops) todo[op[0] % w.K].push_back(op);
    vector<std::function<void()>> fs;
    for (int k = 0; k < w.K; k++)
        fs.push_back([&, k] {
            for (auto &op : todo[k]) lr_op(w, callers[k], op, log);
        });
    if (w.K == 1)
        fs[0]();
    else
        sim::run_threads(fs);
    {
        Live l;
        for (auto &k : callers) k.acc.reset();
    }
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of operations", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    int busy = 0;
    for (auto &v : todo) busy += !v.empty();
    sim::count("operations", c.ops.size());
    if (busy > 1) sim::count("concurrent_callers");
    if (c["kscale"]) sim::count("scaled_kernels");
    if (c.ops.size() > 1 || busy > 1) sim::count("nontrivial");
}
static void run_blocks(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) { run_t<decltype(t)>(c); });
}
static const sim::Driver d1{"blocks", gen_blocks, run_blocks};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
