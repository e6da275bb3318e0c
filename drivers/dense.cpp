// Dense matrices: products of every layout, with general, symmetric and Hermitian matrices, and the other operations of the
// matrix class, by concurrent callers that share their inputs, with failing allocations (A10).
#define DRV_SINGLE
#include "common.hpp"
#include "faults.hpp"
#include "logcapture.hpp"
#include "densekit.hpp"
#include <iomanip>
using namespace drv;

enum { VEC, SYMVEC, MAT, SYMMAT, ROWS, SYMROWS, ARITH, PARTS, PRINT, KINDS };
static const char *names[] = {"matrix-vector product", "matrix-vector product", "matrix product", "matrix product", "row-major product", "row-major product", "matrix arithmetic", "rows and columns", "printing"};

static void gen_kernels(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.set("dyn", 0, 0);
    c.set("cplx", r.chance(0.5), 0);
    c.fix("wseed", (int64_t)(r.next() >> 2));
    for (int i = 0; i < 3; i++) c.set(cat("d", i), 1 + (int64_t)r.below(r.chance(0.3) ? 3 : tier ? 40 : 24), 1);
    c.set("kscale", r.chance(0.6) ? 0 : 1 + r.below(6), 0);
    c.set("single", r.chance(0.15), 0);
    int callers = r.chance(0.4) ? 1 : 2 + (int)r.below(3);
    c.set("callers", callers, 1);
    int n       = 1 + (int)r.below(10);
    bool faults = callers == 1 && r.chance(0.5);
    for (int i = 0; i < n; i++)
        c.ops.push_back({(int64_t)r.below(callers), (int64_t)r.below(KINDS), (int64_t)r.below(1 << 12), (int64_t)(r.next() >> 2), faults && r.chance(0.6) ? 12 * (1 + (int64_t)r.below(3)) + (int64_t)r.below(3) : 0});
}

template <class T>
struct World {
    int K;
    int d[3];
    double sc;
    Dense<T> g[3][3];            // general matrices d[i] x d[j]
    Matrix<T> G[3][3];
    Dense<T> s[2][3];            // symmetric, Hermitian
    Matrix<T> S[2][3][2];        // ... of which one triangle is stored (0: lower), the other one is somebody else's
    explicit World(const Case &c) {
        K  = std::max<int64_t>(1, c["callers"]);
        sc = c["kscale"] ? std::pow(10., (std::is_same<RealOf<T>, float>::value ? 7. : 24.) * ((double)(c["kscale"] % 7) - 3.5) / 3.5) : 1;
        Rng r(c["wseed"]);
        for (int i = 0; i < 3; i++) d[i] = std::max<int64_t>(1, c[cat("d", i)]);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) {
                g[i][j] = random_dense<T>(r, d[i], d[j]);
                for (auto &x : g[i][j].a) x *= T(sc);
                G[i][j] = matrix_of(g[i][j]);
            }
        for (int h = 0; h < 2; h++)
            for (int i = 0; i < 3; i++) {
                Dense<T> &a = s[h][i] = random_dense<T>(r, d[i], d[i]);
                for (int q = 0; q < d[i]; q++)
                    for (int p = q; p < d[i]; p++) {
                        a(p, q) *= T(sc);
                        if (h && p == q) a(p, q) = T(std::real(a(p, q)));
                        a(q, p) = h ? conj_(a(p, q)) : a(p, q);
                    }
                for (int u = 0; u < 2; u++) {
                    S[h][i][u] = matrix_of(a);
                    for (int q = 0; q < d[i]; q++)
                        for (int p = 0; p < d[i]; p++)
                            if (u == 0 ? p < q : p > q) S[h][i][u](p, q) = make<T>(-77 * sc, 13 * sc);
                }
            }
    }
    void check_inputs() const {
        auto same = [](const Matrix<T> &m, const Dense<T> &x) { return m.nb_rows() == x.m && m.nb_cols() == x.n && bits_equal(m.data(), x.a.data(), x.a.size()); };
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                if (!same(G[i][j], g[i][j])) sim::violate("wrong-result", "input of a matrix operation", "a matrix that was only read has changed");
        for (int h = 0; h < 2; h++)
            for (int i = 0; i < 3; i++)
                for (int u = 0; u < 2; u++) {
                    Dense<T> x = s[h][i];
                    for (int q = 0; q < d[i]; q++)
                        for (int p = 0; p < d[i]; p++)
                            if (u == 0 ? p < q : p > q) x(p, q) = make<T>(-77 * sc, 13 * sc);
                    if (!same(S[h][i][u], x)) sim::violate("wrong-result", "input of a matrix operation", "a matrix that was only read has changed");
                }
    }
};
static double tol() { return 1e-13; }

// a vector of the caller between two guards
template <class T>
struct Buffer {
    vector<T> v;
    size_t n;
    static const int G = 3;
    explicit Buffer(const vector<T> &x) : v(x.size() + 2 * G, T(1234)), n(x.size()) { std::copy(x.begin(), x.end(), v.begin() + G); }
    T *data() { return v.data() + G; }
    void check(const string &what) const {
        for (int i = 0; i < G; i++)
            if (v[i] != T(1234) || v[G + n + i] != T(1234)) sim::violate("wrong-result", what + " beyond its output", "entries around the output were written");
    }
};
template <class T>
static vector<T> row_major(const Dense<T> &a) {
    vector<T> v((size_t)a.m * a.n);
    for (int j = 0; j < a.n; j++)
        for (int i = 0; i < a.m; i++) v[(size_t)i * a.n + j] = a(i, j);
    return v;
}
template <class T>
static Dense<T> from_rows(const T *v, int m, int n) {
    Dense<T> a(m, n);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) a(i, j) = v[(size_t)i * n + j];
    return a;
}
template <class T>
static void kernel_op(const World<T> &w, const vector<int64_t> &op, LogCapture &log) {
    sim::Quiet quiet;
    int kind = op[1] % KINDS, f = (int)op[2];
    Rng r(op[3]);
    int64_t fault = op[4];
    char ta = "NTC"[f % 3], tb = "NTC"[f / 3 % 3], side = f / 9 % 2 ? 'L' : 'R', uplo = f / 18 % 2 ? 'L' : 'U';
    int h = f / 36 % 2, i = f / 72 % 3, j = f / 216 % 3, k = f / 648 % 3;
    if (!is_cplx<T>::value && r.chance(0.5)) h = 0;
    const int *d = w.d;
    T alpha = random_scalar<T>(r), beta = random_scalar<T>(r);
    // C, overwritten without being read when beta is zero
    auto output = [&](int m, int n) {
        Dense<T> c = random_dense<T>(r, m, n);
        for (auto &x : c.a) x *= T(w.sc);
        if (beta == T(0) && r.chance(0.5))
            for (auto &x : c.a) x = T(std::numeric_limits<double>::quiet_NaN());
        return c;
    };
    auto wanted = [&](const Dense<T> &a, const Dense<T> &b, const Dense<T> &c) {
        Dense<T> x = mul(a, b);
        for (size_t q = 0; q < x.a.size(); q++) x.a[q] = alpha * x.a[q] + (beta == T(0) ? T(0) : beta * c.a[q]);
        return x;
    };
    auto allowed = [&](const Dense<T> &a, const Dense<T> &b, const Dense<T> &c) { return ulps<T>() * tol() * (std::abs(alpha) * frob(a) * frob(b) + (beta == T(0) ? 0 : std::abs(beta) * frob(c))); };
    int errs = log.w->by_fiber[sim::fiber_id()];
    string what = names[kind];
    auto logged = [&] {
        if (log.w->by_fiber[sim::fiber_id()] != errs) sim::violate_unless_known("error", what, cat(what, ": the library logged an error: ", log.w->last));
    };
    auto tried = [&](auto g) {
        int64_t base = sim::live_blocks();
        bool ok      = attempt(fault, g);
        if (!ok && sim::live_blocks() != base) sim::violate("leak", what, cat(sim::live_blocks() - base, " blocks of memory were not returned after a failed operation"));
        return ok;
    };
    const Matrix<T> &SY = w.S[h][i][uplo == 'U'];
    const char *sort    = h ? "Hermitian" : "symmetric";
    switch (kind) {
    case VEC:
    case SYMVEC: {
        const Dense<T> &a = kind == VEC ? w.g[i][j] : w.s[h][i];
        Dense<T> A        = kind == VEC ? op_of(ta, a) : a;
        Dense<T> x = random_dense<T>(r, A.n, 1), y = output(A.m, 1);
        Buffer<T> in(x.a), out(y.a);
        what = cat(what, kind == VEC ? cat(" ", ta) : cat(" ", sort, " ", uplo));
        sim::context(what);
        bool ok = tried([&] {
            if (kind == VEC)
                htool::add_matrix_vector_product(ta, alpha, w.G[i][j], (const T *)in.data(), beta, out.data());
            else if (h)
                htool::add_hermitian_matrix_vector_product(uplo, alpha, SY, (const T *)in.data(), beta, out.data());
            else
                htool::add_symmetric_matrix_vector_product(uplo, alpha, SY, (const T *)in.data(), beta, out.data());
        });
        out.check(what);
        if (!bits_equal(in.data(), x.a.data(), x.a.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
        if (!ok) return;
        logged();
        Dense<T> got(A.m, 1);
        std::copy_n(out.data(), A.m, got.a.begin());
        check_close(what, got, wanted(A, x, y), allowed(A, x, y));
        break;
    }
    case MAT:
    case SYMMAT: {
        const Dense<T> &a = kind == MAT ? w.g[ta == 'N' ? i : k][ta == 'N' ? k : i] : w.s[h][i];
        const Dense<T> &b = kind == MAT ? w.g[tb == 'N' ? k : j][tb == 'N' ? j : k] : side == 'L' ? w.g[i][j] : w.g[j][i];
        const Matrix<T> &MA = w.G[ta == 'N' ? i : k][ta == 'N' ? k : i], &MB = kind == MAT ? w.G[tb == 'N' ? k : j][tb == 'N' ? j : k] : side == 'L' ? w.G[i][j] : w.G[j][i];
        Dense<T> A = kind == MAT ? op_of(ta, a) : side == 'L' ? a : b, B = kind == MAT ? op_of(tb, b) : side == 'L' ? b : a, y = output(A.m, B.n);
        Matrix<T> C = matrix_of(y);
        what        = cat(what, kind == MAT ? cat(" ", ta, tb) : cat(" ", sort, " ", side, uplo));
        sim::context(what);
        bool ok = tried([&] {
            if (kind == MAT)
                htool::add_matrix_matrix_product(ta, tb, alpha, MA, MB, beta, C);
            else if (h && is_cplx<T>::value)
                htool::add_hermitian_matrix_matrix_product(side, uplo, alpha, SY, MB, beta, C);
            else
                htool::add_symmetric_matrix_matrix_product(side, uplo, alpha, SY, MB, beta, C);
        });
        if (!ok) return;
        logged();
        check_close(what, dense_of(C), wanted(A, B, y), allowed(A, B, y));
        break;
    }
    case ROWS:
    case SYMROWS: {
        // op(A) op(B) (or op(B) A on the right), B and the result given row by row
        if (kind == SYMROWS) tb = 'N';
        const Dense<T> &a = kind == ROWS ? w.g[ta == 'N' ? i : k][ta == 'N' ? k : i] : w.s[h][i];
        bool left         = kind == ROWS || side == 'L';
        Dense<T> A        = kind == ROWS ? op_of(ta, a) : a;
        int mu            = d[j];
        Dense<T> b        = left ? random_dense<T>(r, tb == 'N' ? A.n : mu, tb == 'N' ? mu : A.n) : random_dense<T>(r, mu, A.m);
        Dense<T> B = op_of(tb, b), y = left ? output(A.m, mu) : output(mu, A.n);
        vector<T> x = row_major(b);
        Buffer<T> in(x), out(row_major(y));
        what = cat(what, kind == ROWS ? cat(" ", ta, tb) : cat(" ", sort, " ", side, uplo));
        sim::context(what);
        bool ok = tried([&] {
            if (kind == ROWS)
                htool::add_matrix_matrix_product_row_major(ta, tb, alpha, w.G[ta == 'N' ? i : k][ta == 'N' ? k : i], (const T *)in.data(), beta, out.data(), mu);
            else if (h)
                htool::add_hermitian_matrix_matrix_product_row_major(side, uplo, alpha, SY, (const T *)in.data(), beta, out.data(), mu);
            else
                htool::add_symmetric_matrix_matrix_product_row_major(side, uplo, alpha, SY, (const T *)in.data(), beta, out.data(), mu);
        });
        out.check(what);
        if (!bits_equal(in.data(), x.data(), x.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
        if (!ok) return;
        logged();
        const Dense<T> &l = left ? A : B, &q = left ? B : A;
        check_close(what, from_rows((const T *)out.data(), y.m, y.n), wanted(l, q, y), allowed(l, q, y));
        break;
    }
    case ARITH: {
        int how = (int)r.below(9);
        what    = cat(what, " ", how);
        sim::context(what);
        const Matrix<T> &A = w.G[i][j];
        const Dense<T> &a  = w.g[i][j];
        Dense<T> want      = a;
        double bound       = ulps<T>() * tol() * frob(a);
        Matrix<T> R;
        vector<T> v, x = random_vec<T>(r, d[j]);
        bool ok = true;
        switch (how) {
        case 0: // A + A2, A - A2
        case 1: {
            Dense<T> b = random_dense<T>(r, d[i], d[j]);
            for (auto &q : b.a) q *= T(w.sc);
            Matrix<T> B = matrix_of(b);
            ok          = tried([&] { R = how ? A - B : A + B; });
            for (size_t q = 0; q < want.a.size(); q++) want.a[q] += how ? -b.a[q] : b.a[q];
            break;
        }
        case 2: // by a scalar, on either side
            ok = tried([&] { R = r.chance(0.5) ? A * alpha : alpha * A; });
            for (auto &q : want.a) q *= alpha;
            bound *= std::abs(alpha);
            break;
        case 3: // A B
            ok    = tried([&] { R = A * w.G[j][k]; });
            want  = mul(a, w.g[j][k]);
            bound = ulps<T>() * tol() * frob(a) * frob(w.g[j][k]);
            break;
        case 4: { // A x
            ok = tried([&] { v = A * x; });
            if (!ok) return;
            Dense<T> dx(d[j], 1);
            dx.a = x;
            want = mul(a, dx);
            if ((int)v.size() != d[i]) sim::violate("structure", what, "the product has another size");
            R     = Matrix<T>(d[i], 1);
            std::copy(v.begin(), v.end(), R.data());
            bound = ulps<T>() * tol() * frob(a) * frob(dx);
            break;
        }
        case 5: // scale in place, of memory of the caller half of the time
        {
            Buffer<T> mine(a.a);
            bool view = r.chance(0.5);
            ok        = tried([&] {
                if (view) {
                    R.assign(d[i], d[j], mine.data(), false);
                    htool::scale(alpha, R);
                } else {
                    R = A;
                    htool::scale(alpha, R);
                }
            });
            mine.check(what);
            for (auto &q : want.a) q *= alpha;
            bound *= std::abs(alpha);
            if (ok && view) {
                if (R.data() != mine.data()) sim::violate("wrong-result", what, "a view no longer shows the memory of the caller");
                Matrix<T> kept(R);
                R = std::move(kept);
            }
            break;
        }
        case 6: // transpose
            R = Matrix<T>(d[j], d[i]);
            ok   = tried([&] { htool::transpose(A, R); });
            want = op_of('T', a);
            break;
        case 7: { // shapes: resized, filled, copied, moved, made a view of memory of the caller
            Buffer<T> mine(a.a);
            bool view = false;
            R         = A;
            for (int q = 0, n = 1 + (int)r.below(4); q < n && ok; q++) {
                int p = (int)r.below(6), x = (int)r.below(4), y = (int)r.below(4), rows = x < 3 ? d[x] : want.n, cols = x < 3 ? d[y % 3] : want.m; // or as many entries in another shape
                T z    = r.chance(0.5) ? T(0) : random_scalar<T>(r);
                bool z0 = z == T(0);
                ok      = tried([&] {
                    switch (p) {
                    case 0: z0 ? R.resize(rows, cols) : R.resize(rows, cols, z); break;
                    case 1: R = z; break;
                    case 2: R = A; break;
                    case 3: {
                        Matrix<T> S(R);
                        R = std::move(S);
                        break;
                    }
                    case 4: {
                        Matrix<T> S(std::move(R));
                        R = S;
                        break;
                    }
                    default: R.assign(d[i], d[j], mine.data(), false);
                    }
                });
                if (!ok) break;
                if (p == 0 && !(view && want.m * want.n == rows * cols)) view = false;
                if (p == 0) want = Dense<T>(rows, cols);
                if (p <= 1) std::fill(want.a.begin(), want.a.end(), z);
                if (p == 2) view = view && want.m * want.n == d[i] * d[j], want = a;
                if (p == 3 || p == 4) view = false;
                if (p == 5) view = true, want = a, std::copy(a.a.begin(), a.a.end(), mine.data());
                if ((R.data() == mine.data()) != view) sim::violate("wrong-result", what, view ? "a view no longer shows the memory of the caller" : "a matrix still shows the memory of the caller");
                check_close(what, dense_of(R), want, 0);
            }
            mine.check(what);
            if (!ok) return;
            bound = 0;
            if (view) R = Matrix<T>(want.m, want.n), R = matrix_of(want);
            break;
        }
        default: { // norm, largest entry
            double n = 0;
            std::pair<int, int> at(-1, -1);
            ok = tried([&] { n = htool::normFrob(A), at = argmax(A); });
            if (!ok) return;
            if (!(std::abs(n - frob(a)) <= ulps<T>() * 1e-13 * frob(a))) sim::violate_unless_known("wrong-result", "Frobenius norm", cat("the norm is ", frob(a), ", got ", n));
            double big = 0;
            for (auto &q : a.a) big = std::max(big, (double)std::abs(q));
            if (at.first < 0 || at.first >= a.m || at.second < 0 || at.second >= a.n || std::abs(a(at.first, at.second)) < big * (1 - ulps<T>() * 1e-14)) sim::violate_unless_known("wrong-result", "largest entry", cat("(", at.first, ",", at.second, ") of a ", a.m, "x", a.n, " matrix is not its largest entry"));
            R = A;
        }
        }
        if (!ok) return;
        logged();
        check_close(what, dense_of(R), want, bound);
        break;
    }
    case PARTS: { // rows, columns and strided slices, read and written
        what = cat(what, " ", f % 4);
        sim::context(what);
        Matrix<T> R = w.G[i][j];
        Dense<T> want = w.g[i][j];
        int row = (int)r.below(d[i]), col = (int)r.below(d[j]);
        vector<T> vr = random_vec<T>(r, d[j]), vc = random_vec<T>(r, d[i]), got, x;
        bool ok = true;
        switch (f % 4) {
        case 0:
            ok = tried([&] { got = w.G[i][j].get_row(row); });
            for (int q = 0; q < d[j]; q++) x.push_back(want(row, q));
            break;
        case 1:
            ok = tried([&] { got = w.G[i][j].get_col(col); });
            for (int q = 0; q < d[i]; q++) x.push_back(want(q, col));
            break;
        case 2: {
            int size = d[i] * d[j], start = (int)r.below(size), stride = 1 + (int)r.below(4), len = (size - start + stride - 1) / stride;
            len = (int)r.below(len + 1);
            ok  = tried([&] { got = w.G[i][j].get_stridedslice(start, len, stride); });
            for (int q = 0; q < len; q++) x.push_back(want.a[start + q * stride]);
            vector<T> v = random_vec<T>(r, len);
            if (ok) ok = attempt(0, [&] { R.set_stridedslice(start, len, stride, v); });
            for (int q = 0; q < len; q++) want.a[start + q * stride] = v[q];
            break;
        }
        default:
            ok = tried([&] { R.set_row(row, vr), R.set_col(col, vc); });
            for (int q = 0; q < d[j]; q++) want(row, q) = vr[q];
            for (int q = 0; q < d[i]; q++) want(q, col) = vc[q];
        }
        if (!ok) return;
        logged();
        if (got.size() != x.size() || !bits_equal(got.data(), x.data(), x.size())) sim::violate_unless_known("wrong-result", what, cat(what, ": another slice"));
        if (!bits_equal(R.data(), want.a.data(), want.a.size())) sim::violate_unless_known("wrong-result", what, cat(what, ": another part of the matrix was written"));
        break;
    }
    default: { // every row on a line, the entries separated by the delimiter
        static const char *del[] = {",", " ", "\t", "; "};
        string delim = del[f % 4], s;
        what         = cat(what, " '", delim, "'");
        sim::context(what);
        std::ostringstream os;
        os << std::setprecision(17);
        bool ok = attempt(0, [&] { w.G[i][j].print(os, delim); });
        s       = os.str();
        if (!ok) return;
        logged();
        std::ostringstream want;
        want << std::setprecision(17);
        for (int p = 0; p < d[i]; p++)
            for (int q = 0; q < d[j]; q++) {
                want << w.g[i][j](p, q);
                if (q + 1 < d[j])
                    want << delim;
                else
                    want << "\n";
            }
        if (s != want.str()) sim::violate_unless_known("wrong-result", "printing a matrix", cat("a ", d[i], "x", d[j], " matrix is printed as ", s.substr(0, 200), " instead of ", want.str().substr(0, 200)));
    }
    }
    sim::count(names[kind] == string("printing") ? "printed" : "matrix_operations");
}

template <class T>
static void run_t(const Case &c) {
    World<T> w(c);
    LogCapture log;
    vector<vector<vector<int64_t>>> todo(w.K);
    for (auto &op : c.ops) todo[op[0] % w.K].push_back(op);
    vector<std::function<void()>> fs;
    for (int k = 0; k < w.K; k++)
        fs.push_back([&, k] {
            for (auto &op : todo[k]) kernel_op(w, op, log);
        });
    if (w.K == 1)
        fs[0]();
    else
        sim::run_threads(fs);
    w.check_inputs();
    int busy = 0;
    for (auto &v : todo) busy += !v.empty();
    sim::count("operations", c.ops.size());
    if (busy > 1) sim::count("concurrent_callers");
    if (c.ops.size() > 1 || busy > 1) sim::count("nontrivial");
}
static void run_kernels(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_dynamic(c["dyn"]);
    dispatch(c, [&](auto t) { run_t<decltype(t)>(c); });
}
static const sim::Driver d1{"kernels", gen_kernels, run_kernels};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
