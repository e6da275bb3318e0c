// Stand-in for the HPDDM library (not installed here), for htool's wrapper_hpddm.hpp, ddm.hpp and solvers/utility.hpp:
// the same interface and conventions, real messages over the simulated MPI, and a reference implementation of the
// Schwarz preconditioners and of a right-preconditioned GMRES. What HPDDM computes itself is not under test.
#pragma once
#include "sim.h"
#include <mpi.h>
#include <algorithm>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <string>
#include <vector>
#define HPDDM_SCHWARZ_METHOD_RAS 0
#define HPDDM_SCHWARZ_METHOD_ORAS 1
#define HPDDM_SCHWARZ_METHOD_SORAS 2
#define HPDDM_SCHWARZ_METHOD_ASM 3
#define HPDDM_SCHWARZ_METHOD_OSM 4
#define HPDDM_SCHWARZ_METHOD_NONE 5
#define HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED 0
#define HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE 1
#define HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED 2
#define HPDDM_KRYLOV_METHOD_GMRES 0
#define HPDDM_KRYLOV_METHOD_BGMRES 1
#define HPDDM_KRYLOV_METHOD_CG 2
#define HPDDM_KRYLOV_METHOD_BCG 3
#define HPDDM_KRYLOV_METHOD_GCRODR 4
#define HPDDM_KRYLOV_METHOD_BGCRODR 5
#define HPDDM_KRYLOV_METHOD_BFBCG 6
#define HPDDM_KRYLOV_METHOD_RICHARDSON 7
#define HPDDM_KRYLOV_METHOD_NONE 8

namespace HPDDM {
template <class K>
struct underlying { typedef K type; };
template <class R>
struct underlying<std::complex<R>> { typedef R type; };
template <class K>
using underlying_type = typename underlying<K>::type;
inline double cj(double x) { return x; }
inline std::complex<double> cj(std::complex<double> x) { return std::conj(x); }
inline MPI_Datatype mpi_of(double) { return MPI_DOUBLE; }
inline MPI_Datatype mpi_of(std::complex<double>) { return MPI_C_DOUBLE_COMPLEX; }

class Option { // one per process
    std::map<std::string, double> o;

  public:
    static Option *table() {
        static Option t[64];
        return t;
    }
    static Option *get() { return &table()[std::max(0, sim::current_rank()) % 64]; }
    static void reset() {
        for (int i = 0; i < 64; i++) table()[i].o.clear();
    }
    double &operator[](const std::string &k) { return o[k]; }
    void remove(const std::string &k) { o.erase(k); }
    bool set(const std::string &k) const { return o.count(k) > 0; }
    template <class T = double>
    T val(const std::string &k, T d = T()) const {
        auto i = o.find(k);
        return i == o.end() ? d : T(i->second);
    }
};
// What the driver observes
struct Probe {
    std::function<void(const void *op, const void *in, const void *out, int mu)> local_solve;
    std::function<void(const void *op, const void *E)> coarse;
    static Probe &get() {
        static Probe p;
        return p;
    }
};

template <class K>
class MatrixCSR {
  public:
    int n_;
    bool sym_;
    const K *a_;
    MatrixCSR(int n, bool sym, const K *a) : n_(n), sym_(sym), a_(a) {}
};

// A small LU with partial pivoting, column major
template <class K>
class SmallLU {
  public:
    int n = 0;
    std::vector<K> a;
    std::vector<int> p;
    void factor() {
        p.resize(n);
        for (int k = 0; k < n; k++) {
            int b = k;
            for (int i = k + 1; i < n; i++)
                if (std::abs(a[i + (size_t)k * n]) > std::abs(a[b + (size_t)k * n])) b = i;
            p[k] = b;
            if (b != k)
                for (int j = 0; j < n; j++) std::swap(a[b + (size_t)j * n], a[k + (size_t)j * n]);
            for (int i = k + 1; i < n; i++) {
                K f = a[i + (size_t)k * n] /= a[k + (size_t)k * n];
                for (int j = k + 1; j < n; j++) a[i + (size_t)j * n] -= f * a[k + (size_t)j * n];
            }
        }
    }
    void solve(K *b) const {
        for (int k = 0; k < n; k++) std::swap(b[k], b[p[k]]);
        for (int k = 0; k < n; k++)
            for (int i = k + 1; i < n; i++) b[i] -= a[i + (size_t)k * n] * b[k];
        for (int k = n - 1; k >= 0; k--) {
            b[k] /= a[k + (size_t)k * n];
            for (int i = 0; i < k; i++) b[i] -= a[i + (size_t)k * n] * b[k];
        }
    }
};
template <class K>
class LapackTRSub { // dense local solver: the lower triangle of symmetric and Hermitian matrices
    SmallLU<K> lu;

  public:
    static constexpr char numbering_ = 'F';
    template <char N = 'F'>
    void numfact(MatrixCSR<K> *const &A, bool = false, K *const & = nullptr) {
        sim::Quiet q;
        lu.n = A->n_;
        lu.a.assign(A->a_, A->a_ + (size_t)lu.n * lu.n);
        if (A->sym_)
            for (int j = 0; j < lu.n; j++)
                for (int i = 0; i < j; i++) lu.a[i + (size_t)j * lu.n] = cj(lu.a[j + (size_t)i * lu.n]);
        lu.factor();
    }
    void solve(K *const b, const unsigned short &mu = 1) const {
        sim::Quiet q;
        for (int k = 0; k < mu; k++) lu.solve(b + (size_t)k * lu.n);
    }
    void solve(const K *const b, K *const x, const unsigned short &mu = 1) const {
        sim::Quiet q;
        std::copy(b, b + (size_t)mu * lu.n, x);
        for (int k = 0; k < mu; k++) lu.solve(x + (size_t)k * lu.n);
    }
    void dtor() {}
};
template <class K>
class LapackTR {};
template <class Op>
struct hpddm_method_id { static constexpr char value = 0; };

template <template <class> class Solver, template <class> class Coarse, char S, class K>
class Schwarz {
  public:
    enum class Prcndtnr : char { NO, SY, GE, OS, OG };

  protected:
    int dof_ = 0;
    MatrixCSR<K> *a_ = nullptr;
    std::vector<std::pair<int, std::vector<int>>> map_;
    K **buff_ = nullptr;
    mutable K *none_ = nullptr;
    MPI_Comm comm_ = MPI_COMM_WORLD;
    Solver<K> s_;
    const underlying_type<K> *d_ = nullptr;
    K **ev_ = nullptr;
    int nu_ = 0;
    bool two_ = false;
    SmallLU<K> E_; // on the first rank
    std::vector<int> nus_;
    Prcndtnr type_ = Prcndtnr::SY;

  public:
    Schwarz() {}
    Schwarz(const Schwarz &) = delete;
    virtual ~Schwarz() {
        delete a_;
        if (ev_) {
            delete[] ev_[0];
            delete[] ev_;
        }
        clearBuffer(true);
    }
    void setup(int n, bool sym, K *ptr, const std::vector<int> &neighbors, const std::vector<std::vector<int>> &intersections) {
        dof_ = n;
        a_   = new MatrixCSR<K>(n, sym, ptr);
        for (size_t i = 0; i < neighbors.size(); i++) map_.emplace_back(neighbors[i], intersections[i]);
    }
    void initialize(underlying_type<K> *d) { d_ = d; }
    int getDof() const { return dof_; }
    const std::vector<std::pair<int, std::vector<int>>> &getMap() const { return map_; }
    K **getBuffer() const { return buff_ ? buff_ : &none_; }
    bool setBuffer() const {
        auto me = const_cast<Schwarz *>(this);
        if (buff_) return false;
        me->buff_ = new K *[2 * map_.size() + 1]();
        for (size_t i = 0; i < map_.size(); i++) me->buff_[i] = new K[64 * map_[i].second.size() + 1], me->buff_[map_.size() + i] = new K[64 * map_[i].second.size() + 1];
        return true;
    }
    void clearBuffer(bool free) const {
        if (!free || !buff_) return;
        auto me = const_cast<Schwarz *>(this);
        for (size_t i = 0; i < 2 * map_.size(); i++) delete[] buff_[i];
        delete[] buff_;
        me->buff_ = nullptr;
    }
    Solver<K> &getSolver() { return s_; }
    K *const *getVectors() const { return ev_; }
    void setVectors(K **ev) {
        if (ev_) {
            delete[] ev_[0];
            delete[] ev_;
        }
        ev_ = ev;
    }
    const underlying_type<K> *getScaling() const { return d_; }
    Prcndtnr getType() const { return type_; }
    void callNumfact() {
        a_ ? s_.template numfact<'F'>(a_) : s_.template numfact<'F'>(a_);
    }
    void sum(K *x, int mu) const { // adds the values of the neighbours
        bool own = setBuffer();
        std::vector<MPI_Request> rq;
        for (size_t i = 0; i < map_.size(); i++) {
            auto &idx = map_[i].second;
            int c     = (int)idx.size() * mu;
            {
                sim::Quiet q;
                for (int k = 0; k < mu; k++)
                    for (size_t j = 0; j < idx.size(); j++) buff_[i][k * idx.size() + j] = x[idx[j] + (size_t)k * dof_];
            }
            MPI_Request r;
            MPI_Irecv(buff_[map_.size() + i], c, mpi_of(K()), map_[i].first, 7, comm_, &r);
            rq.push_back(r);
            MPI_Isend(buff_[i], c, mpi_of(K()), map_[i].first, 7, comm_, &r);
            rq.push_back(r);
        }
        if (!rq.empty()) MPI_Waitall((int)rq.size(), rq.data(), MPI_STATUSES_IGNORE);
        sim::Quiet q;
        for (size_t i = 0; i < map_.size(); i++) {
            auto &idx = map_[i].second;
            for (int k = 0; k < mu; k++)
                for (size_t j = 0; j < idx.size(); j++) x[idx[j] + (size_t)k * dof_] += buff_[map_.size() + i][k * idx.size() + j];
        }
        clearBuffer(own);
    }
    // scaled by the partition of unity, then summed: every copy of an unknown has its value
    template <bool allocate = false>
    void exchange(K *const x, const unsigned short &mu = 1) const {
        {
            sim::Quiet q;
            for (int k = 0; k < mu; k++)
                for (int i = 0; i < dof_; i++) x[i + (size_t)k * dof_] *= d_[i];
        }
        sum(x, mu);
    }
    virtual int GMV(const K *const in, K *const out, const int &mu = 1) const = 0;
    int buildTwo(MPI_Comm comm, K *E) {
        comm_ = comm;
        int P, r;
        MPI_Comm_size(comm, &P);
        MPI_Comm_rank(comm, &r);
        nu_ = (int)Option::get()->val("geneo_nu", 0);
        nus_.resize(P);
        MPI_Allgather(&nu_, 1, MPI_INT, nus_.data(), 1, MPI_INT, comm);
        sim::Quiet q;
        if (Probe::get().coarse) Probe::get().coarse(this, E);
        if (r == 0) {
            E_.n = 0;
            for (int x : nus_) E_.n += x;
            E_.a.resize((size_t)E_.n * E_.n);
            for (int i = 0; i < E_.n; i++)
                for (int j = 0; j < E_.n; j++) E_.a[i + (size_t)j * E_.n] = std::is_same<K, double>::value ? E[j + (size_t)i * E_.n] : E[i + (size_t)j * E_.n];
            E_.factor();
        }
        two_ = true;
        return 0;
    }
    void local_solve(const K *in, K *out, int mu) const {
        s_.solve(in, out, (unsigned short)mu);
        sim::Quiet q;
        if (Probe::get().local_solve) Probe::get().local_solve(this, in, out, mu);
    }
    // Z E^-1 Z^H in
    void coarse(const K *in, K *out, int mu) const {
        int P, r;
        MPI_Comm_size(comm_, &P);
        MPI_Comm_rank(comm_, &r);
        std::vector<K> mine, all;
        std::vector<int> cnt(P), dis(P);
        {
            sim::Quiet q;
            mine.assign((size_t)nu_ * mu + 1, K(0));
            int tot = 0;
            for (int i = 0; i < P; i++) cnt[i] = nus_[i] * mu, dis[i] = tot, tot += cnt[i];
            all.assign(tot + 1, K(0));
            for (int k = 0; k < mu; k++)
                for (int v = 0; v < nu_; v++)
                    for (int i = 0; i < dof_; i++) mine[(size_t)k * nu_ + v] += cj(ev_[v][i]) * in[i + (size_t)k * dof_] * d_[i];
        }
        MPI_Gatherv(mine.data(), nu_ * mu, mpi_of(K()), all.data(), cnt.data(), dis.data(), mpi_of(K()), 0, comm_);
        if (r == 0) {
            sim::Quiet q;
            std::vector<K> b(E_.n);
            for (int k = 0; k < mu; k++) {
                for (int p = 0, at = 0; p < P; p++)
                    for (int v = 0; v < nus_[p]; v++) b[at++] = all[dis[p] + k * nus_[p] + v];
                E_.solve(b.data());
                for (int p = 0, at = 0; p < P; p++)
                    for (int v = 0; v < nus_[p]; v++) all[dis[p] + k * nus_[p] + v] = b[at++];
            }
        }
        MPI_Scatterv(all.data(), cnt.data(), dis.data(), mpi_of(K()), mine.data(), nu_ * mu, mpi_of(K()), 0, comm_);
        {
            sim::Quiet q;
            for (int k = 0; k < mu; k++)
                for (int i = 0; i < dof_; i++) {
                    K s = K(0);
                    for (int v = 0; v < nu_; v++) s += ev_[v][i] * mine[(size_t)k * nu_ + v];
                    out[i + (size_t)k * dof_] = s;
                }
        }
        exchange(out, mu);
    }
    void one_level(const K *in, K *out, int mu) const {
        local_solve(in, out, mu);
        if (type_ == Prcndtnr::GE)
            exchange(out, mu);
        else
            sum(out, mu);
    }
    int apply(const K *in, K *out, int mu) const {
        size_t len = (size_t)dof_ * mu;
        if (type_ == Prcndtnr::NO) {
            sim::Quiet q;
            std::copy(in, in + len, out);
            return 0;
        }
        int corr = Option::get()->val("schwarz_coarse_correction", -1);
        if (!two_ || corr < 0) {
            one_level(in, out, mu);
            return 0;
        }
        std::vector<K> z, t;
        {
            sim::Quiet q;
            z.resize(len), t.resize(len);
        }
        coarse(in, z.data(), mu);
        if (corr == HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE) {
            one_level(in, out, mu);
        } else { // z + M^-1 (in - A z)
            GMV(z.data(), t.data(), mu);
            {
                sim::Quiet q;
                for (size_t i = 0; i < len; i++) t[i] = in[i] - t[i];
            }
            one_level(t.data(), out, mu);
            if (corr == HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED) { // out - Q A out
                std::vector<K> w;
                {
                    sim::Quiet q;
                    w.resize(len);
                }
                GMV(out, t.data(), mu);
                coarse(t.data(), w.data(), mu);
                sim::Quiet q;
                for (size_t i = 0; i < len; i++) out[i] -= w[i];
            }
        }
        sim::Quiet q;
        for (size_t i = 0; i < len; i++) out[i] += z[i];
        return 0;
    }
};
template <template <class> class Solver, template <class> class Coarse, char S, class K>
class Dense : public Schwarz<Solver, Coarse, S, K> {
  public:
    typedef Schwarz<Solver, Coarse, S, K> super;
    void initialize(int n, bool sym, K *ptr, const std::vector<int> &neighbors, const std::vector<std::vector<int>> &intersections) { this->setup(n, sym, ptr, neighbors, intersections); }
};

struct IterativeMethod {
    // Flexible GMRES, all right-hand sides in step; the number of iterations
    template <class Op, class K>
    static int solve(const Op &A, const K *b, K *x, const int &mu, MPI_Comm comm) {
        int n = A.getDof(), maxit = Option::get()->val("max_it", 40);
        double tol = Option::get()->val("tol", 1e-8);
        size_t len = (size_t)n * mu;
        auto d     = A.getScaling();
        // dot products of all the pairs given, one reduction
        auto dots = [&](const std::vector<const K *> &u, const K *v) {
            std::vector<K> s, t;
            {
                sim::Quiet q;
                s.assign(u.size() * mu + 1, K(0)), t = s;
                for (size_t p = 0; p < u.size(); p++)
                    for (int k = 0; k < mu; k++)
                        for (int i = 0; i < n; i++) s[p * mu + k] += cj(u[p][i + (size_t)k * n]) * v[i + (size_t)k * n] * d[i];
            }
            MPI_Allreduce(s.data(), t.data(), (int)(u.size() * mu), mpi_of(K()), MPI_SUM, comm);
            return t;
        };
        std::vector<std::vector<K>> V, Z;
        std::vector<std::vector<K>> H; // per column of the Hessenberg matrices: (j + 2) x mu
        std::vector<double> beta, res;
        std::vector<K> w;
        {
            auto bb = dots({b}, b);
            sim::Quiet q;
            beta.resize(mu), res.resize(mu), w.resize(len);
            std::vector<K> v(b, b + len);
            for (int k = 0; k < mu; k++) {
                beta[k] = res[k] = std::sqrt(std::abs(bb[k]));
                for (int i = 0; i < n; i++) v[i + (size_t)k * n] = beta[k] > 0 ? v[i + (size_t)k * n] / beta[k] : K(0);
            }
            V.push_back(std::move(v));
        }
        std::vector<std::vector<K>> g(mu), cs(mu), sn(mu), R; // R[j]: (j + 1) x mu
        {
            sim::Quiet q;
            for (int k = 0; k < mu; k++) g[k].push_back(beta[k]);
        }
        std::vector<int> used(mu, -1); // columns of each right-hand side, -1: still running
        int j = 0;
        for (; j < maxit; j++) {
            bool more = false;
            {
                sim::Quiet q;
                for (int k = 0; k < mu; k++) {
                    if (used[k] < 0 && !(res[k] > tol * beta[k])) used[k] = j;
                    more = more || used[k] < 0;
                }
                if (more) Z.emplace_back(len);
            }
            if (!more) break;
            A.apply(V[j].data(), Z[j].data(), mu);
            A.GMV(Z[j].data(), w.data(), mu);
            std::vector<K> h;
            {
                sim::Quiet q;
                h.assign((size_t)(j + 2) * mu, K(0));
            }
            for (int pass = 0; pass < 2; pass++) { // twice is enough
                std::vector<const K *> u;
                {
                    sim::Quiet q;
                    for (int i = 0; i <= j; i++) u.push_back(V[i].data());
                }
                auto s = dots(u, w.data());
                sim::Quiet q;
                for (int i = 0; i <= j; i++)
                    for (int k = 0; k < mu; k++) {
                        h[(size_t)i * mu + k] += s[(size_t)i * mu + k];
                        for (int l = 0; l < n; l++) w[l + (size_t)k * n] -= s[(size_t)i * mu + k] * V[i][l + (size_t)k * n];
                    }
            }
            auto ww = dots({w.data()}, w.data());
            sim::Quiet q;
            std::vector<K> v(len);
            R.emplace_back((size_t)(j + 1) * mu);
            for (int k = 0; k < mu; k++) {
                double nn = std::sqrt(std::abs(ww[k]));
                for (int i = 0; i < n; i++) v[i + (size_t)k * n] = nn > 1e-14 * beta[k] ? w[i + (size_t)k * n] / nn : K(0);
                K a;
                for (int i = 0; i <= j; i++) R[j][(size_t)i * mu + k] = h[(size_t)i * mu + k];
                for (int i = 0; i < j; i++) {
                    K p = R[j][(size_t)i * mu + k], r = R[j][(size_t)(i + 1) * mu + k];
                    R[j][(size_t)i * mu + k]       = cj(cs[k][i]) * p + cj(sn[k][i]) * r;
                    R[j][(size_t)(i + 1) * mu + k] = -sn[k][i] * p + cs[k][i] * r;
                }
                a        = R[j][(size_t)j * mu + k];
                double t = std::sqrt(std::norm(a) + nn * nn);
                if (t > 0)
                    cs[k].push_back(a / t), sn[k].push_back(nn / t);
                else
                    cs[k].push_back(1), sn[k].push_back(0);
                // the rotation [c^* s; -s c]
                R[j][(size_t)j * mu + k] = t;
                K gk                     = g[k][j];
                g[k][j]                  = cj(cs[k][j]) * gk;
                g[k].push_back(-sn[k][j] * gk);
                if (used[k] < 0) res[k] = std::abs(g[k][j + 1]);
                if (used[k] < 0 && nn <= 1e-14 * beta[k]) used[k] = j + 1;
            }
            V.push_back(std::move(v));
        }
        sim::Quiet q;
        for (int k = 0; k < mu; k++) {
            int m = used[k] < 0 ? j : used[k];
            std::vector<K> y(m);
            for (int i = m - 1; i >= 0; i--) {
                K s = g[k][i];
                for (int l = i + 1; l < m; l++) s -= R[l][(size_t)i * mu + k] * y[l];
                y[i] = std::abs(R[i][(size_t)i * mu + k]) > 0 ? s / R[i][(size_t)i * mu + k] : K(0);
            }
            for (int i = 0; i < m; i++)
                for (int l = 0; l < n; l++) x[l + (size_t)k * n] += y[i] * Z[i][l + (size_t)k * n];
        }
        return j;
    }
};
} // namespace HPDDM
