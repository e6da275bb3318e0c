// Distributed operators on simulated MPI ranks (M01-M05).
#define DRV_SINGLE
#include "distcommon.hpp"
#include "huge.hpp"
using namespace drv;

enum { V_GG, V_GG_T, M_GG, M_GG_T, V_LL, V_LL_T, M_LL, M_LL_T, IV_GL, IM_GL, IV_LG_T, IM_LG_T, IV_LL, IM_LL, IV_LL_T, IM_LL_T, SUB, L2G_S, L2G_T, INFO, ONE_V, ONE_M, ONE_VT, ONE_MT, ONE_SUB, KINDS };
static const char *names[] = {"vector product global-global", "transposed vector product global-global", "matrix product global-global", "transposed matrix product global-global", "vector product local-local", "transposed vector product local-local", "matrix product local-local", "transposed matrix product local-local", "internal vector product global-local", "internal matrix product global-local", "internal transposed vector product local-global", "internal transposed matrix product local-global", "internal vector product local-local", "internal matrix product local-local", "internal transposed vector product local-local", "internal transposed matrix product local-local", "product with part of the columns", "local to global (source)", "local to global (target)", "information", "vector product of one local operator", "matrix product of one local operator", "transposed vector product of one local operator", "transposed matrix product of one local operator", "product of one local operator with part of the columns"};

static void gen_kinds(Case &c, Rng &r, int tier, const vector<int> &kinds, int nops) {
    gen_world(c, r, tier, 60);
    for (int i = 0; i < nops; i++) c.ops.push_back({kinds[r.below(kinds.size())], 1 + (int64_t)r.below(r.chance(0.8) ? 4 : 12), (int64_t)(r.next() >> 2), (int64_t)r.below(2), (int64_t)r.below(2), (int64_t)r.below(6)});
}
static void gen_global(Case &c, Rng &r, int t) { gen_kinds(c, r, t, {V_GG, V_GG, V_GG_T, V_GG_T, M_GG, M_GG_T}, 1 + r.below(5)); }
static void gen_local(Case &c, Rng &r, int t) { gen_kinds(c, r, t, {V_LL, V_LL_T, M_LL, M_LL_T}, 1 + r.below(5)); }
static void gen_internal(Case &c, Rng &r, int t) { gen_kinds(c, r, t, {IV_GL, IM_GL, IV_LG_T, IM_LG_T, IV_LL, IM_LL, IV_LL_T, IM_LL_T, SUB, SUB, L2G_S, L2G_T, ONE_V, ONE_M, ONE_VT, ONE_MT, ONE_SUB}, 1 + r.below(7)); }
static void gen_mixed(Case &c, Rng &r, int t) {
    gen_kinds(c, r, t, {V_GG, V_GG_T, M_GG, M_GG_T, V_LL, V_LL_T, M_LL, M_LL_T, IV_GL, IM_GL, IV_LG_T, IM_LG_T, IV_LL, IM_LL, IV_LL_T, IM_LL_T, SUB, L2G_S, L2G_T, INFO}, 4 + r.below(10));
    c.set("delay", 1 << r.below(24), 0);
    c.set("groups", 1 + r.below(2), 1);
}
static void gen_info(Case &c, Rng &r, int t) {
    gen_kinds(c, r, t, {INFO, INFO, INFO, V_GG}, 1 + r.below(3));
    c.set("mode", r.chance(0.6) ? M_HMATRIX : (int)r.below(4), 0);
    c.set("huge", r.chance(0.004), 0);
}

template <class T>
struct Rec {
    int kind, rank, group, mu;
    bool perm, skip = false;
    int off = 0, size = 0;
    vector<T> x; // global input, cluster numbering, row major (n x mu)
    vector<T> got;
    std::map<string, string> info;
};

template <class T>
static void user_from_cluster(const vector<int> &perm, int off, int size, const T *in, T *out) { // local or global
    for (int i = 0; i < size; i++) out[perm[off + i] - off] = in[i];
}
template <class T>
static void cluster_from_user(const vector<int> &perm, int off, int size, const T *in, T *out) {
    for (int i = 0; i < size; i++) out[i] = in[perm[off + i] - off];
}

struct InfoCount {
    int64_t nd = 0, nl = 0, dmax = 0, dmin = INT64_MAX, lmax = 0, lmin = INT64_MAX, rmax = 0, rmin = INT64_MAX, fp = 0;
    double dsum = 0, lsum = 0, rsum = 0, coef = 0, full = 0;
    int64_t tmax = 0, tmin = INT64_MAX, smax = 0, smin = INT64_MAX;
    double tsum = 0, ssum = 0;
    std::map<string, vector<double>> seconds; // of every rank
    template <class T>
    void add(const HMatrix<T, RealOf<T>> &h) {
        vector<Leaf<T>> lv;
        collect(h, false, lv);
        int64_t nr = h.get_target_cluster().get_size(), nc = h.get_source_cluster().get_size();
        full += (double)nr * nc;
        tmax = std::max(tmax, nr), tmin = std::min(tmin, nr), tsum += nr;
        smax = std::max(smax, nc), smin = std::min(smin, nc), ssum += nc;
        for (auto &l : lv) {
            int64_t sz = (int64_t)l.nr * l.nc;
            if (l.h->is_dense()) {
                nd++, dmax = std::max(dmax, sz), dmin = std::min(dmin, sz), dsum += sz;
                coef += l.h->get_symmetry() != 'N' ? l.nr * (l.nc + 1) / 2 : sz;
            } else {
                int64_t k = l.h->get_low_rank_data()->rank_of();
                nl++, lmax = std::max(lmax, sz), lmin = std::min(lmin, sz), lsum += sz, rmax = std::max(rmax, k), rmin = std::min(rmin, k), rsum += k, coef += (double)k * (l.nr + l.nc);
            }
        }
        auto &inf = h.get_hmatrix_tree_data()->m_information;
        auto it   = inf.find("Number_of_false_positive");
        if (it != inf.end()) fp += std::stoll(it->second);
        for (auto &kv : h.get_hmatrix_tree_data()->m_timings) seconds[kv.first].push_back(kv.second.count());
    }
};

static void check_info(const std::map<string, string> &info, const InfoCount &ic, int P) {
    auto want     = [&](const char *key, const string &v) {
        auto it = info.find(key);
        string got = it == info.end() ? "(missing)" : it->second;
        if (!same_info(got, v)) sim::violate_unless_known("wrong-info", cat("distributed information ", key), cat("distributed information ", key, " is '", got, "', the operators of the ranks say '", v, "'"));
    };
    want("Number_of_dense_blocks", std::to_string(ic.nd));
    want("Number_of_low_rank_blocks", std::to_string(ic.nl));
    want("Dense_block_size_max", std::to_string(ic.dmax));
    want("Low_rank_block_size_max", std::to_string(ic.lmax));
    want("Dense_block_size_min", std::to_string(ic.nd ? ic.dmin : 0));
    want("Low_rank_block_size_min", std::to_string(ic.nl ? ic.lmin : 0));
    want("Rank_max", std::to_string(ic.rmax));
    want("Rank_min", std::to_string(ic.nl ? ic.rmin : 0));
    want("Target_size_max", std::to_string(ic.tmax));
    want("Target_size_min", std::to_string(ic.tmin));
    want("Source_size_max", std::to_string(ic.smax));
    want("Source_size_min", std::to_string(ic.smin));
    want("Target_size_mean", std::to_string(ic.tsum / P));
    want("Source_size_mean", std::to_string(ic.ssum / P));
    want("Dense_block_size_mean", std::to_string(ic.nd ? ic.dsum / ic.nd : 0.));
    want("Low_rank_block_size_mean", std::to_string(ic.nl ? ic.lsum / ic.nl : 0.));
    want("Rank_mean", std::to_string(ic.nl ? ic.rsum / ic.nl : 0.));
    want("Compression_ratio", std::to_string(ic.full / ic.coef));
    want("Space_saving", std::to_string(1 - ic.coef / ic.full));
    want("Number_of_MPI_tasks", std::to_string(P));
    want("Number_of_false_positive", std::to_string(ic.fp));
    for (auto &kv : ic.seconds) {
        auto &v   = kv.second;
        double mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end()), me = 0;
        for (double d : v) me += d / P;
        for (int k = 0; k < 3; k++) {
            string key = kv.first + (k == 0 ? "_min" : k == 1 ? "_mean" : "_max");
            auto it    = info.find(key);
            double say = it == info.end() ? -1 : atof(it->second.c_str()), is = k == 0 ? mn : k == 1 ? me : mx;
            if (!(std::abs(say - is) <= 2e-6 * (1 + is)) || it->second.find("second") == string::npos) sim::violate("wrong-info", "timings", cat(key, " is '", it == info.end() ? "(missing)" : it->second, "', the ranks took ", is));
        }
    }
}
// Every rank holds one compressed block with more coefficients than an int counts.
template <class T>
static void huge_info(const Case &c) {
    sim::Quiet quiet;
    int P = std::max<int64_t>(1, c["ranks"]);
    vector<std::unique_ptr<HugePair>> hp;
    vector<int> k, req;
    InfoCount ic;
    for (int p = 0; p < P; p++) {
        Rng r(c["wseed"] + p);
        hp.emplace_back(new HugePair(r));
        k.push_back(1 + (int)r.below(3)), req.push_back(r.chance(0.5) ? -1 : 1 + (int)r.below(4));
    }
    std::map<string, string> info;
    sim::omp_threads(1);
    sim::mpi_begin(P, std::max<int64_t>(0, c["delay"]));
    sim::run_ranks(P, [&](int rank) {
        sim::Quiet q0;
        sim::context("information on huge blocks");
        auto &x = *hp[rank];
        HugeKernel<T> g(x.m, x.n, k[rank], 0.1);
        std::unique_ptr<HMatrix<T, RealOf<T>>> h;
        std::map<string, string> mine;
        {
            Live l;
            htool::HMatrixTreeBuilder<T, RealOf<T>> b(*x.t, *x.s, 1e-8, 10., 'N', 'N', req[rank], -1, -1);
            h.reset(new HMatrix<T, RealOf<T>>(b.build((const htool::VirtualInternalGenerator<T> &)g)));
        }
        ic.add(*h);
        {
            Live l;
            mine = htool::get_distributed_hmatrix_information(*h, MPI_COMM_WORLD);
        }
        if (rank == 0) info = mine;
        Live l;
        h.reset();
    });
    sim::context("checking the history");
    check_info(info, ic, P);
    sim::count("huge_blocks", P), sim::count("operations");
    if (P > 1) sim::count("nontrivial");
}
template <class T>
static void one(const Case &, RankOp<T> &ro, int kind, const vector<int64_t> &o, int n, int m, int to, int tn, int rank) {
    auto &s  = ro.singles[o[5] % ro.singles.size()];
    int mu   = kind == ONE_V || kind == ONE_VT ? 1 : (int)std::max<int64_t>(1, o[1]);
    bool tr  = kind == ONE_VT || kind == ONE_MT;
    (void)n, (void)to;
    Rng r(o[2] + 1000 * rank);
    T alpha = random_scalar<T>(r), beta = random_scalar<T>(r);
    int off = 0, size = m;
    if (kind == ONE_SUB) {
        alpha = T(1), beta = T(0);
        if (o[3])
            off = s.co, size = s.nc;
        else
            off = r.below(m), size = 1 + r.below(m - off);
    }
    string what = cat(names[kind], ro.o.sym != 'N' ? cat(" among them one of symmetry ", ro.o.sym) : "");
    sim::context(what);
    vector<T> in = random_vec<T>(r, (size_t)(tr ? tn : size) * mu), out0 = random_vec<T>(r, (size_t)(tr ? m : tn) * mu), out = out0, in0 = in;
    {
        Live l;
        switch (kind) {
        case ONE_V: s.op->add_vector_product_global_to_local(alpha, in.data(), beta, out.data()); break;
        case ONE_M: s.op->add_matrix_product_global_to_local(alpha, in.data(), beta, out.data(), mu); break;
        case ONE_VT: s.op->add_vector_product_transp_local_to_global(alpha, in.data(), beta, out.data()); break;
        case ONE_MT: s.op->add_matrix_product_transp_local_to_global(alpha, in.data(), beta, out.data(), mu); break;
        default: s.op->sub_matrix_product_to_local(in.data(), out.data(), mu, off, size); break;
        }
    }
    if (!bits_equal(in.data(), in0.data(), in.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
    vector<T> want(out.size());
    vector<double> bound(out.size());
    for (int i = 0; i < (tr ? m : tn); i++)
        for (int k = 0; k < mu; k++) {
            size_t at = (size_t)i * mu + k;
            T sum     = T(0);
            double b  = 0;
            for (int j = 0; j < (tr ? tn : size); j++) {
                T a      = tr ? s.A(j, i) : s.A(i, off + j);
                double e = tr ? s.B(j, i) : s.B(i, off + j);
                sum += a * in[(size_t)j * mu + k], b += e * std::abs(in[(size_t)j * mu + k]);
            }
            bool its  = !tr || (i >= s.co && i < s.co + s.nc);
            want[at]  = its ? alpha * sum + beta * out0[at] : out0[at]; // the other columns are not its business
            bound[at] = its ? std::abs(alpha) * b + std::abs(beta * out0[at]) : 0;
        }
    compare(what, out.data(), want.data(), bound.data(), out.size());
}

static void run(const Case &c) {
    sim::configure(sim::config_from(c));
    dispatch(c, [&](auto t) {
        using T = decltype(t);
        if (c["huge"]) return huge_info<DoubleOf<T>>(c);
        int P = std::max<int64_t>(1, c["ranks"]), G = std::max<int64_t>(1, c["groups"]), W = P * G;
        Problem<T> shared(c, P);
        shared.gen.points = false;
        vector<Group<T>> groups(G);
        vector<InfoCount> infos(G);
        vector<vector<std::unique_ptr<Rec<T>>>> recs(W);
        LogCapture log;
        const auto &tp = shared.t().get_permutation(), &sp = shared.s().get_permutation();
        bool loc = shared.t().is_permutation_local() && shared.s().is_permutation_local();
        vector<char> gsym(G, 'N');
        int ones = 0;
        int n = shared.n, m = shared.m;
        sim::omp_threads(std::max<int64_t>(1, c["threads"]));
        sim::mpi_begin(W, std::max<int64_t>(0, c["delay"]));
        sim::run_ranks(W, [&](int wr) {
            sim::Quiet q0;
            MPI_Comm comm = MPI_COMM_WORLD;
            int grp = wr % G;
            if (G > 1 || c["revkeys"]) MPI_Comm_split(MPI_COMM_WORLD, grp, c["revkeys"] ? W - wr : wr, &comm);
            int rank;
            MPI_Comm_rank(comm, &rank);
            RankOp<T> ro;
            ro.build(c, &shared, comm, groups[grp]);
            auto &op = *ro.op;
            char sym = ro.sym;
            gsym[grp] = sym;
            auto &lt = ro.p->t().get_cluster_on_partition(rank), &ls = ro.p->s().get_cluster_on_partition(rank);
            int to = lt.get_offset(), tn = lt.get_size(), so = ls.get_offset(), sn = ls.get_size();
            if (ro.hm) infos[grp].add(*ro.hm);
            for (size_t q = 0; q < c.ops.size(); q++) {
                auto &o  = c.ops[q];
                int kind = o[0] % KINDS;
                int mu   = (kind == V_GG || kind == V_GG_T || kind == V_LL || kind == V_LL_T || kind == IV_GL || kind == IV_LG_T || kind == IV_LL || kind == IV_LL_T) ? 1 : (int)std::max<int64_t>(1, o[1]);
                bool perm = o[3], own_work = o[4], in_t = kind == V_GG_T || kind == M_GG_T || kind == V_LL_T || kind == M_LL_T || kind == IV_LG_T || kind == IM_LG_T || kind == IV_LL_T || kind == IM_LL_T || kind == L2G_T;
                if ((kind >= V_LL && kind <= M_LL_T) && !loc) perm = false;
                if (kind == INFO && !ro.hm) continue;
                if (kind >= ONE_V) { // one local operator alone, with any coefficients
                    if (ro.singles.empty()) continue;
                    one(c, ro, kind, o, n, m, to, tn, rank);
                    ones++;
                    continue;
                }
                // transposing a block-diagonal or an off-diagonal composition declared symmetric uses the symmetry
                auto rec = std::make_unique<Rec<T>>();
                rec->kind = kind, rec->rank = rank, rec->group = grp, rec->mu = mu, rec->perm = perm;
                Rng r(o[2] + 77 * grp);
                int ni  = in_t ? n : m;
                rec->x  = random_vec<T>(r, (size_t)ni * mu);
                auto &x = rec->x;
                int io = in_t ? to : so, in_n = in_t ? tn : sn, oo = in_t ? so : to, on = in_t ? sn : tn, no = in_t ? m : n;
                (void)oo;
                const auto &pin = in_t ? tp : sp;
                op.use_permutation() = perm;
                string what = cat(names[kind], perm && kind < IV_GL ? "" : kind < IV_GL ? " without permutation" : "", sym != 'N' ? cat(" symmetry ", sym) : "");
                sim::context(what);
                T junk = make<T>(7.5, -3);
                vector<T> in, out, work;
                auto col = [&](int k) { // column k of x, cluster numbering
                    vector<T> v(ni);
                    for (int i = 0; i < ni; i++) v[i] = x[(size_t)i * mu + k];
                    return v;
                };
                auto local_row_major = [&] { return vector<T>(x.begin() + (size_t)io * mu, x.begin() + (size_t)(io + in_n) * mu); };
                if (kind <= M_GG_T) {
                    in.resize((size_t)ni * mu);
                    for (int k = 0; k < mu; k++) {
                        vector<T> v = col(k);
                        if (perm)
                            user_from_cluster(pin, 0, ni, v.data(), in.data() + (size_t)k * ni);
                        else
                            std::copy(v.begin(), v.end(), in.begin() + (size_t)k * ni);
                    }
                    out.assign((size_t)no * mu, junk);
                } else if (kind <= M_LL_T) {
                    in.resize((size_t)in_n * mu);
                    for (int k = 0; k < mu; k++) {
                        vector<T> v = col(k);
                        if (perm)
                            user_from_cluster(pin, io, in_n, v.data() + io, in.data() + (size_t)k * in_n);
                        else
                            std::copy(v.begin() + io, v.begin() + io + in_n, in.begin() + (size_t)k * in_n);
                    }
                    out.assign((size_t)on * mu, junk);
                } else if (kind == IV_GL || kind == IM_GL)
                    in = x, out.assign((size_t)tn * mu, junk);
                else if (kind == IV_LG_T || kind == IM_LG_T)
                    in = local_row_major(), out.assign((size_t)m * mu, junk);
                else if (kind <= IM_LL_T)
                    in = local_row_major(), out.assign((size_t)on * mu, junk);
                else if (kind == SUB) {
                    // columns of one part, or an arbitrary range
                    if (o[5] < 4) {
                        auto &sc = ro.p->s().get_cluster_on_partition(o[5] % P);
                        rec->off = sc.get_offset(), rec->size = sc.get_size();
                    } else {
                        rec->off  = r.below(m);
                        rec->size = 1 + r.below(m - rec->off);
                    }
                    in.assign(x.begin() + (size_t)rec->off * mu, x.begin() + (size_t)(rec->off + rec->size) * mu);
                    out.assign((size_t)tn * mu, junk);
                } else if (kind == L2G_S || kind == L2G_T)
                    in = local_row_major(), out.assign((size_t)ni * mu, junk);
                bool lltr = kind == V_LL_T || kind == M_LL_T || kind == IV_LL_T || kind == IM_LL_T;
                T *wp = nullptr;
                if (own_work && (kind >= V_LL && kind <= IM_LL_T)) {
                    work.assign((size_t)(m + (lltr ? P * sn : 0)) * mu, junk);
                    wp = work.data();
                }
                vector<T> in0 = in;
                {
                    Live l;
                    switch (kind) {
                    case V_GG: op.vector_product_global_to_global(in.data(), out.data()); break;
                    case V_GG_T: op.vector_product_transp_global_to_global(in.data(), out.data()); break;
                    case M_GG: op.matrix_product_global_to_global(in.data(), out.data(), mu); break;
                    case M_GG_T: op.matrix_product_transp_global_to_global(in.data(), out.data(), mu); break;
                    case V_LL: op.vector_product_local_to_local(in.data(), out.data(), wp); break;
                    case V_LL_T: op.vector_product_transp_local_to_local(in.data(), out.data(), wp); break;
                    case M_LL: op.matrix_product_local_to_local(in.data(), out.data(), mu, wp); break;
                    case M_LL_T: op.matrix_product_transp_local_to_local(in.data(), out.data(), mu, wp); break;
                    case IV_GL: op.internal_vector_product_global_to_local(in.data(), out.data()); break;
                    case IM_GL: op.internal_matrix_product_global_to_local(in.data(), out.data(), mu); break;
                    case IV_LG_T: op.internal_vector_product_transp_local_to_global(in.data(), out.data()); break;
                    case IM_LG_T: op.internal_matrix_product_transp_local_to_global(in.data(), out.data(), mu); break;
                    case IV_LL: op.internal_vector_product_local_to_local(in.data(), out.data(), wp); break;
                    case IM_LL: op.internal_matrix_product_local_to_local(in.data(), out.data(), mu, wp); break;
                    case IV_LL_T: op.internal_vector_product_transp_local_to_local(in.data(), out.data(), wp); break;
                    case IM_LL_T: op.internal_matrix_product_transp_local_to_local(in.data(), out.data(), mu, wp); break;
                    case SUB: op.internal_sub_matrix_product_to_local(in.data(), out.data(), mu, rec->off, rec->size); break;
                    case L2G_S: op.local_to_global_source(in.data(), out.data(), mu); break;
                    case L2G_T: op.local_to_global_target(in.data(), out.data(), mu); break;
                    case INFO:
                        rec->info = htool::get_distributed_hmatrix_information(*ro.hm, comm);
                        if (o[3]) {
                            std::ostringstream os;
                            htool::print_distributed_hmatrix_information(*ro.hm, os, comm);
                            sim::Quiet q;
                            if ((rank == 0) == os.str().empty()) sim::violate("wrong-info", "printing rank", "the information is printed by another rank than the first one");
                        }
                        break;
                    }
                }
                if (!bits_equal(in.data(), in0.data(), in.size())) sim::violate("wrong-result", what + " changes its input", "the input changed");
                rec->got = std::move(out);
                // bring the result to row major, cluster numbering (local or global)
                const auto &pout = in_t ? sp : tp;
                if (kind <= M_GG_T || (kind >= V_LL && kind <= M_LL_T)) {
                    bool g = kind <= M_GG_T;
                    int sz = g ? no : on, of = g ? 0 : oo;
                    vector<T> rm((size_t)sz * mu), v(sz);
                    for (int k = 0; k < mu; k++) {
                        const T *colk = rec->got.data() + (size_t)k * sz;
                        if (perm)
                            cluster_from_user(pout, of, sz, colk, v.data());
                        else
                            std::copy(colk, colk + sz, v.begin());
                        for (int i = 0; i < sz; i++) rm[(size_t)i * mu + k] = v[i];
                    }
                    rec->got = rm;
                }
                recs[wr].push_back(std::move(rec));
            }
            if (comm != MPI_COMM_WORLD) MPI_Comm_free(&comm);
        });
        // what the whole group computed
        sim::context("checking the history");
        int done = 0;
        for (int wr = 0; wr < W; wr++)
            for (auto &rec : recs[wr]) {
                Group<T> &g = groups[rec->group];
                char sym    = gsym[rec->group];
                int mu = rec->mu, kind = rec->kind;
                auto &lt = shared.t().get_cluster_on_partition(rec->rank), &ls = shared.s().get_cluster_on_partition(rec->rank);
                string what = cat(names[kind], rec->perm || kind >= IV_GL ? "" : " without permutation", sym != 'N' ? cat(" symmetry ", sym) : "");
                done++;
                if (kind == INFO) {
                    if (rec->rank) continue;
                    check_info(rec->info, infos[rec->group], P);
                    continue;
                }
                if (kind == L2G_S || kind == L2G_T) {
                    if (!bits_equal(rec->got.data(), rec->x.data(), rec->x.size())) sim::violate("wrong-result", what, cat(what, ": rank ", rec->rank, " does not get the local parts in order"));
                    continue;
                }
                bool tr = kind == V_GG_T || kind == M_GG_T || kind == V_LL_T || kind == M_LL_T || (kind >= IV_LG_T && kind <= IM_LG_T) || kind == IV_LL_T || kind == IM_LL_T;
                bool use_sym = tr && sym != 'N' && kind != IV_LG_T && kind != IM_LG_T;
                int ni = tr ? n : m, no = tr ? m : n;
                vector<T> want((size_t)no * mu);
                vector<double> bound((size_t)no * mu);
                for (int i = 0; i < no; i++)
                    for (int k = 0; k < mu; k++) {
                        T s      = T(0);
                        double b = 0;
                        int j0 = 0, j1 = ni;
                        if (kind == SUB) j0 = rec->off, j1 = rec->off + rec->size;
                        for (int j = j0; j < j1; j++) {
                            T a       = use_sym ? (sym == 'S' ? g.A(i, j) : conj_(g.A(i, j))) : tr ? g.A(j, i) : g.A(i, j);
                            double bb = use_sym || !tr ? g.B(i, j) : g.B(j, i);
                            s += a * rec->x[(size_t)j * mu + k];
                            b += bb * std::abs(rec->x[(size_t)j * mu + k]);
                        }
                        want[(size_t)i * mu + k] = s, bound[(size_t)i * mu + k] = b;
                    }
                bool global_out = kind <= M_GG_T || kind == IV_LG_T || kind == IM_LG_T;
                int of = global_out ? 0 : tr ? ls.get_offset() : lt.get_offset(), sz = global_out ? no : tr ? ls.get_size() : lt.get_size();
                if (rec->got.size() != (size_t)sz * mu) sim::sim_error("result size");
                compare(what, rec->got.data(), want.data() + (size_t)of * mu, bound.data() + (size_t)of * mu, rec->got.size());
            }
        if (log.errors) sim::violate("error-logged", "error logged", cat("the library logged an error on a supported operation: ", log.w->last));
        sim::count("operations", done + ones);
        if (ones) sim::count("single_local_operators", ones);
        if (P > 1 && done) sim::count("nontrivial");
        if (G > 1) sim::count("two_communicators");
    });
}
static const sim::Driver d1{"global", gen_global, run}, d2{"local", gen_local, run}, d3{"internal", gen_internal, run}, d4{"mixed", gen_mixed, run}, d5{"info", gen_info, run};
const sim::Driver *sim::driver_table[] = {&d1, &d2, &d3, &d4, &d5, nullptr};
