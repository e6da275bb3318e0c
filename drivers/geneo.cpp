// Coarse operators assembled by simulated MPI ranks from their own vectors (M06).
#define DRV_SINGLE
#include "distcommon.hpp"
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
using namespace drv;

enum { COARSE, COARSE_CLASS, PRODUCT, BARRIER, KINDS };

static void gen_coarse(Case &c, Rng &r, int tier) {
    gen_world(c, r, tier, 50);
    c.set("same", 1, 1);
    c.set("delay", r.chance(0.3) ? 0 : 1 << r.below(24), 0);
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) {
        int64_t kind = r.below(10);
        kind         = kind < 4 ? COARSE : kind < 6 ? COARSE_CLASS : kind < 9 ? PRODUCT : BARRIER;
        if (i == 0) kind = COARSE;
        // kind, number of vectors (0: differs from rank to rank), values, overlap
        c.ops.push_back({kind, (int64_t)r.below(5), (int64_t)(r.next() >> 2), r.chance(0.5) ? 0 : (int64_t)r.below(9), (int64_t)r.below(2)});
    }
}
template <class T>
struct Rec {
    int rank, group, op, nevi = 0;
    Dense<T> Z; // the rank's vectors, its own rows
    Matrix<T> E;
};
static int vectors_of(const vector<int64_t> &op, int rank, int group) { return op[1] ? (int)op[1] : (int)(4 * hash01(op[2] + group, rank, 3)); }

static void run(const Case &c) {
    sim::configure(sim::config_from(c));
    dispatch(c, [&](auto t) {
        using T = decltype(t);
        int P = std::max<int64_t>(1, c["ranks"]), G = std::max<int64_t>(1, c["groups"]), W = P * G;
        Problem<T> shared(c, P);
        shared.gen.points = false;
        vector<Group<T>> groups(G);
        vector<vector<std::unique_ptr<Rec<T>>>> recs(W);
        vector<char> gsym(G, 'N');
        LogCapture log;
        int n = shared.n;
        sim::omp_threads(std::max<int64_t>(1, c["threads"]));
        sim::mpi_begin(W, std::max<int64_t>(0, c["delay"]));
        sim::run_ranks(W, [&](int wr) {
            sim::Quiet q0;
            MPI_Comm comm = MPI_COMM_WORLD;
            int grp = wr % G;
            if (G > 1 || c["revkeys"]) MPI_Comm_split(MPI_COMM_WORLD, grp, c["revkeys"] ? W - wr : wr, &comm);
            int rank;
            MPI_Comm_rank(comm, &rank);
            RankOp<T> ro;
            ro.build(c, &shared, comm, groups[grp]);
            auto &op  = *ro.op;
            gsym[grp] = ro.sym;
            auto &lt  = ro.p->t().get_cluster_on_partition(rank);
            int nr = lt.get_size(), off = lt.get_offset();
            for (size_t q = 0; q < c.ops.size(); q++) {
                auto &o  = c.ops[q];
                int kind = o[0] % KINDS;
                Rng r(o[2] + 31 * grp + 977 * rank);
                if (kind == BARRIER) {
                    Live l;
                    MPI_Barrier(comm);
                    continue;
                }
                if (kind == PRODUCT) { // other traffic on the same communicator
                    Rng rg(o[2] + 31 * grp);
                    vector<T> x = random_vec<T>(rg, n), out(nr), want;
                    sim::context("product between coarse operators");
                    {
                        Live l;
                        op.internal_vector_product_local_to_local(x.data() + off, out.data(), nullptr);
                    }
                    continue;
                }
                auto rec  = std::make_unique<Rec<T>>();
                rec->rank = rank, rec->group = grp, rec->op = (int)q;
                int ovl   = (int)o[3] ? (int)r.below(o[3]) : 0; // rows of the overlap, not to be used
                int nevi  = vectors_of(o, rank, grp);
                rec->nevi = nevi;
                rec->Z    = Dense<T>(nr, nevi);
                for (auto &x : rec->Z.a) x = make<T>(r.sym(), r.sym());
                vector<vector<T>> z(nevi);
                vector<T *> ptr;
                for (int k = 0; k < nevi; k++) {
                    z[k].assign(nr + ovl, make<T>(1e3, 7));
                    for (int i = 0; i < nr; i++) z[k][i] = rec->Z(i, k);
                    ptr.push_back(z[k].data());
                }
                ptr.push_back(nullptr);
                auto keep = z;
                sim::context("coarse operator");
                {
                    Live l;
                    if (kind == COARSE) {
                        if (o[4]) {
                            sim::Quiet qq;
                            rec->E = Matrix<T>(2, 3, T(5)); // to be overwritten
                        }
                        htool::build_geneo_coarse_operator(op, nevi, nr + ovl, (const T *const *)ptr.data(), rec->E);
                    } else {
                        htool::GeneoCoarseOperatorBuilder<T> b(op);
                        Matrix<T> e = b.build_coarse_operator(nr + ovl, nevi, ptr.data());
                        sim::Quiet qq;
                        rec->E = e;
                    }
                }
                for (int k = 0; k < nevi; k++)
                    if (!bits_equal(z[k].data(), keep[k].data(), z[k].size())) sim::violate("wrong-result", "coarse operator changes its input", "a vector of the coarse space changed");
                recs[wr].push_back(std::move(rec));
            }
            if (comm != MPI_COMM_WORLD) MPI_Comm_free(&comm);
        });
        sim::context("checking the history");
        int done = 0;
        for (int g = 0; g < G; g++) {
            Group<T> &grp = groups[g];
            char sym      = gsym[g];
            for (size_t q = 0; q < c.ops.size(); q++) {
                vector<Rec<T> *> by(P, nullptr);
                for (auto &v : recs)
                    for (auto &rec : v)
                        if (rec->group == g && rec->op == (int)q) by[rec->rank] = rec.get();
                if (!by[0]) continue;
                vector<int> first(P + 1, 0);
                for (int k = 0; k < P; k++) first[k + 1] = first[k] + by[k]->nevi;
                int size = first[P];
                auto &E  = by[0]->E;
                string what = sym == 'N' ? "coarse operator" : cat("coarse operator symmetry ", sym);
                if (E.nb_rows() != size || E.nb_cols() != size) sim::violate("wrong-result", what, cat("the coarse operator is ", E.nb_rows() , "x", E.nb_cols(), " for ", size, " vectors"));
                vector<T> got((size_t)size * size), want(got.size());
                vector<double> bound(got.size());
                for (int a = 0; a < P; a++)
                    for (int b = 0; b < P; b++) {
                        int ao = shared.t().get_cluster_on_partition(a).get_offset(), bo = shared.t().get_cluster_on_partition(b).get_offset();
                        for (int i = 0; i < by[a]->nevi; i++)
                            for (int j = 0; j < by[b]->nevi; j++) { // (A z_a)^T z_b, and z_a^H A z_b for Hermitian operators
                                T s      = T(0);
                                double m = 0;
                                for (int x = 0; x < by[a]->Z.m; x++) {
                                    T z = by[a]->Z(x, i);
                                    for (int y = 0; y < by[b]->Z.m; y++) {
                                        T az = grp.A(bo + y, ao + x) * z;
                                        s += by[b]->Z(y, j) * (sym == 'H' ? conj_(az) : az), m += std::abs(by[b]->Z(y, j)) * grp.B(bo + y, ao + x) * std::abs(z);
                                    }
                                }
                                size_t at = (size_t)(first[a] + i) * size + first[b] + j;
                                want[at] = s, bound[at] = m, got[at] = E(first[a] + i, first[b] + j);
                            }
                    }
                compare(what, got.data(), want.data(), bound.data(), got.size());
                done += size > 0;
            }
        }
        if (log.errors) sim::violate("error-logged", "error logged", cat("the library logged an error on a supported operation: ", log.w->last));
        sim::count("coarse_operators", done);
        if (P > 1 && done) sim::count("nontrivial");
        if (G > 1) sim::count("two_communicators");
    });
}
static const sim::Driver d1{"coarse", gen_coarse, run};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
