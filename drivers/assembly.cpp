// Parallel assembly of hierarchical matrices under simulated threads (A01, A06).
#define DRV_SINGLE
#include "common.hpp"
#include "huge.hpp"
#include "logcapture.hpp"
using namespace drv;

static void gen_threads(Case &c, Rng &r) {
    sim::gen_sched(c, r);
    c.set("threads", r.chance(0.1) ? 1 : 2 + (int)r.below(7), 1);
    c.set("dyn", r.chance(0.2), 0);
}
static void setup_threads(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::omp_threads(std::max<int64_t>(1, c["threads"]));
    sim::omp_dynamic(c["dyn"]);
}

template <class T>
static bool admissible(const Leaf<T> &l, const BuildOpts &o, const Problem<T> &p, const htool::VirtualAdmissibilityCondition<RealOf<T>> &adm) {
    auto &t = l.h->get_target_cluster(), &s = l.h->get_source_cluster();
    return adm.ComputeAdmissibility(t, s, o.eta) && (int)t.get_depth() >= o.mtd && (int)s.get_depth() >= o.msd && t.get_rank() >= 0 && (!o.cons || s.get_rank() >= 0);
}

// every block of h is what the sequential computation of that block alone gives, and h is a partition of the operator
template <class T>
static void check_assembled(const HMatrix<T, RealOf<T>> &h, const Problem<T> &p, const BuildOpts &o, uint64_t seed, bool reused, int c_geom) {
    const char *pre = reused ? "reused builder: " : "";
    sim::context(cat(pre, "reading the assembled operator"));
    Ref<T> r = reference(h, o.sym, o.uplo);
    check_cover(r);
    if (!(h.get_target_cluster() == (o.tpart < 0 ? p.t() : p.t().get_cluster_on_partition(o.tpart))) || !(h.get_source_cluster() == p.s())) sim::violate("structure", "root clusters", "the operator does not stand on the clusters it was asked for");
    htool::RjasanowSteinbach<RealOf<T>> rs;
    HashAdmissibility<RealOf<T>> ha(seed, o.adm, p.same && !o.admdiag);
    const htool::VirtualAdmissibilityCondition<RealOf<T>> &adm = o.adm ? (const htool::VirtualAdmissibilityCondition<RealOf<T>> &)ha : rs;
    auto comp = make_compressor<T>(o.comp);
    if (!comp) comp = make_compressor<T>(3);
    htool::InternalGeneratorWithPermutation<T> ig(p.gen, p.t().get_permutation().data(), p.s().get_permutation().data());
    const auto &tp = p.t().get_permutation(), &sp = p.s().get_permutation();
    int64_t fp = 0, nd = 0, nl = 0, dmax = 0, dmin = INT64_MAX, lmax = 0, lmin = INT64_MAX, rmax = 0, rmin = INT64_MAX;
    double dsum = 0, lsum = 0, rsum = 0, coef = 0;
    for (auto &l : r.leaves) {
        bool a = admissible(l, o, p, adm);
        Dense<T> ex(l.nr, l.nc);
        for (int j = 0; j < l.nc; j++)
            for (int i = 0; i < l.nr; i++) ex(i, j) = p.gen.entry(tp[l.ro + i], sp[l.co + j]);
        int64_t sz = (int64_t)l.nr * l.nc;
        if (l.h->is_dense()) {
            nd++, dmax = std::max(dmax, sz), dmin = std::min(dmin, sz), dsum += sz;
            coef += l.h->get_symmetry() != 'N' ? l.nr * (l.nc + 1) / 2. : sz;
            if (!bits_equal(l.h->get_dense_data()->data(), ex.a.data(), ex.a.size())) sim::violate("wrong-result", cat(pre, "dense block"), cat("the dense block at (", l.ro, ",", l.co, ") of size ", l.nr, "x", l.nc, " does not hold the kernel's entries"));
            if (l.h->get_low_rank_data()) sim::violate("structure", cat(pre, "dense block with low-rank data"), "a dense block also holds low-rank data");
        } else {
            nl++, lmax = std::max(lmax, sz), lmin = std::min(lmin, sz), lsum += sz;
            int64_t k = l.h->get_low_rank_data()->rank_of();
            rmax = std::max(rmax, k), rmin = std::min(rmin, k), rsum += k, coef += (double)k * (l.nr + l.nc);
            if (!a) sim::violate("structure", cat(pre, "inadmissible block compressed"), cat("the block at (", l.ro, ",", l.co, ") is compressed but not admissible"));
        }
        if (a) {
            htool::LowRankMatrix<T, RealOf<T>> lr(ig, *comp, l.h->get_target_cluster(), l.h->get_source_cluster(), o.rr, o.eps);
            bool ok = lr.get_U().nb_rows() == l.nr && lr.get_V().nb_cols() == l.nc;
            if (ok != l.h->is_low_rank()) sim::violate("wrong-result", cat(pre, "storage differs from the sequential computation"), cat("the block at (", l.ro, ",", l.co, ") of size ", l.nr, "x", l.nc, ok ? " is dense, alone it compresses to rank " : " is low rank, alone it does not compress ", lr.rank_of()));
            if (!ok)
                fp++;
            else {
                auto *d = l.h->get_low_rank_data();
                if (d->rank_of() != lr.rank_of() || !bits_equal(d->get_U().data(), lr.get_U().data(), (size_t)l.nr * lr.rank_of()) || !bits_equal(d->get_V().data(), lr.get_V().data(), (size_t)l.nc * lr.rank_of()))
                    sim::violate("wrong-result", cat(pre, "low-rank block differs from the sequential computation"), cat("the block at (", l.ro, ",", l.co, ") of size ", l.nr, "x", l.nc, " has rank ", d->rank_of(), ", alone ", lr.rank_of(), ", or other factors"));
                if (o.rr > 0 && d->rank_of() > o.rr) sim::violate("wrong-result", cat(pre, "rank above the required one"), cat("rank ", d->rank_of(), " > ", o.rr));
                Dense<T> got = leaf_dense(l);
                double e = diff(got, ex), nn = frob(ex);
                if (o.rr < 0 && o.comp <= 1 && !(e <= o.eps * nn * (1 + 1e-6) + ulps<T>() * (1e-11 * nn + 1e-13 * p.k.scale * std::sqrt((double)l.nr * l.nc)))) sim::violate("accuracy", cat(pre, "compressed block"), cat("relative error ", e / nn, " (norm ", nn, ", block ", l.nr, "x", l.nc, ", rank ", d->rank_of(), ") for a requested ", o.eps));
                if (o.rr < 0 && p.k.smooth() && (c_geom <= 1 || c_geom == 6) && o.adm == 0 && o.eta <= 10 && !(e <= 1e4 * o.eps * nn + ulps<T>() * (1e-9 * nn + 1e-13 * p.k.scale * std::sqrt((double)l.nr * l.nc)))) sim::violate("accuracy", cat(pre, "compressed block of a smooth kernel"), cat("relative error ", e / nn, " (norm ", nn, ", block ", l.nr, "x", l.nc, ", rank ", d->rank_of(), ") for a requested ", o.eps));
            }
        }
    }
    // Nothing that may be compressed was cut further.
    int64_t target_cut = 0, source_cut = 0;
    std::function<void(const HMatrix<T, RealOf<T>> &)> inner = [&](const HMatrix<T, RealOf<T>> &b) {
        if (b.get_children().empty()) return;
        auto &bt = b.get_target_cluster(), &bs = b.get_source_cluster();
        if (&b != &h && admissible(Leaf<T>{&b, false, bt.get_offset(), bs.get_offset(), bt.get_size(), bs.get_size()}, o, p, adm)) sim::violate("structure", cat(pre, "admissible block not compressed"), cat("the block at (", bt.get_offset(), ",", bs.get_offset(), ") of size ", bt.get_size(), "x", bs.get_size(), " is admissible but was subdivided"));
        if (bt.get_rank() < 0 && bs.get_rank() >= 0) target_cut++;
        if (bt.get_rank() >= 0 && bs.get_rank() < 0) source_cut++;
        for (auto &ch : b.get_children()) inner(*ch);
    };
    inner(h);
    if (target_cut) sim::count("cut_to_the_target_partition", target_cut);
    if (source_cut) sim::count("cut_to_the_source_partition", source_cut);
    // The reported information describes this operator.
    auto info = htool::get_hmatrix_information(h);
    auto want = [&](const char *key, const string &v, bool known = false) {
        if (same_info(info[key], v)) return;
        string sig = cat(pre, "information ", key), msg = cat("information ", key, " is '", info[key], "', the operator says '", v, "'");
        sim::violate_unless_known("wrong-info", sig, msg);
    };
    want("Number_of_dense_blocks", std::to_string(nd));
    want("Number_of_low_rank_blocks", std::to_string(nl));
    want("Number_of_false_positive", std::to_string(fp));
    want("Target_size", std::to_string(r.A.m));
    want("Source_size", std::to_string(r.A.n));
    want("Dense_block_size_max", std::to_string(dmax));
    want("Low_rank_block_size_max", std::to_string(lmax));
    want("Dense_block_size_min", std::to_string(nd ? dmin : 0));
    want("Low_rank_block_size_min", std::to_string(nl ? lmin : 0));
    want("Rank_max", std::to_string(rmax));
    want("Rank_min", std::to_string(nl ? rmin : 0));
    want("Dense_block_size_mean", std::to_string(nd ? dsum / nd : 0.));
    want("Low_rank_block_size_mean", std::to_string(nl ? lsum / nl : 0.));
    want("Rank_mean", std::to_string(nl ? rsum / nl : 0.));
    double full = (double)r.A.m * r.A.n;
    want("Space_saving", std::to_string(1 - coef / full));
    want("Compression_ratio", std::to_string(full / coef));
    // The settings reported are those the operator was built with.
    info = htool::get_tree_parameters(h);
    want("Eta", std::to_string(o.eta));
    want("Epsilon", std::to_string(o.eps));
    want("MinTargetDepth", std::to_string(o.mtd));
    want("MinSourceDepth", std::to_string(o.msd));
    want("MinClusterSizeTarget", std::to_string(p.t().get_minclustersize()));
    want("MinClusterSizeSource", std::to_string(p.s().get_minclustersize()));
    want("MaxClusterDepthTarget", std::to_string(p.t().get_maximal_depth()));
    want("MinClusterDepthTarget", std::to_string(p.t().get_minimal_depth()));
    want("MaxClusterDepthSource", std::to_string(p.s().get_maximal_depth()));
    want("MinClusterDepthSource", std::to_string(p.s().get_minimal_depth()));
    sim::count("blocks", r.leaves.size());
    sim::count("lowrank_blocks", nl);
    sim::count("false_positives", fp);
    if (o.dbg) sim::count("dense_blocks_generator");
    if (o.sym != 'N') sim::count("symmetric");
    if (o.tpart >= 0) sim::count("row_block");
}

// ---------------------------------------------------------------- A01
static void gen_assembly(Case &c, Rng &r, int tier) {
    gen_threads(c, r);
    gen_problem(c, r, tier ? 260 : 150, 6);
    gen_builder(c, r);
    c.set("tpart", r.chance(0.3) ? (int)r.below(8) : -1, -1);
    c.set("internal", r.chance(0.3), 0);
    c.set("admdiag", r.chance(0.3), 0);
    c.set("kscale", r.chance(0.7) ? 0 : 1 + r.below(7), 0);
    c.set("huge", r.chance(0.01), 0);
}
// One admissible block with more coefficients than an int counts: it is compressed and the report tells its sizes.
template <class T>
static void huge_assembly(const Case &c) {
    sim::Quiet quiet;
    Rng r(c["wseed"]);
    HugePair hp(r);
    HugeKernel<T> g(hp.m, hp.n, 1 + (int)r.below(4), r.chance(0.5) ? 1 : 0.01);
    int comp = 2 + (int)r.below(2), req = r.chance(0.5) ? -1 : 1 + (int)r.below(5);
    sim::context("assembling a huge block");
    std::unique_ptr<HMatrix<T, RealOf<T>>> h;
    {
        Live l;
        htool::HMatrixTreeBuilder<T, RealOf<T>> b(*hp.t, *hp.s, 1e-8, 10., 'N', 'N', req, -1, -1);
        b.set_low_rank_generator(make_compressor<T>(comp));
        h.reset(new HMatrix<T, RealOf<T>>(b.build((const htool::VirtualInternalGenerator<T> &)g)));
    }
    string what = "assembled block";
    const HMatrix<T, RealOf<T>> *b = h.get();
    while (b->get_children().size() == 1) b = b->get_children()[0].get();
    if (!b->is_low_rank()) sim::violate_unless_known("wrong-result", "huge block not compressed", cat("an admissible block of ", hp.m, "x", hp.n, " coefficients of rank ", g.k, " is not compressed"));
    if (!b->is_low_rank()) return;
    auto &l = *b->get_low_rank_data();
    check_huge(l, g, 1e-6, req > 0, req, r, what);
    std::map<string, string> info;
    {
        Live live;
        info = htool::get_hmatrix_information(*h);
    }
    double full = (double)hp.m * hp.n, coef = (double)l.rank_of() * ((double)hp.m + hp.n);
    auto want = [&](const char *key, const string &v) {
        if (!same_info(info[key], v)) sim::violate_unless_known("wrong-info", cat("information ", key, " of a huge block"), cat("information ", key, " is '", info[key], "', the ", hp.m, "x", hp.n, " block of rank ", l.rank_of(), " says '", v, "'"));
    };
    want("Target_size", std::to_string(hp.m)), want("Source_size", std::to_string(hp.n));
    want("Low_rank_block_size_max", std::to_string((int64_t)hp.m * hp.n)), want("Low_rank_block_size_min", std::to_string((int64_t)hp.m * hp.n));
    want("Low_rank_block_size_mean", std::to_string(full));
    want("Rank_max", std::to_string(l.rank_of())), want("Rank_min", std::to_string(l.rank_of()));
    want("Space_saving", std::to_string(1 - coef / full)), want("Compression_ratio", std::to_string(full / coef));
    sim::count("huge_blocks");
    Live live;
    h.reset();
}
template <class T>
static void pick_part(const Case &c, BuildOpts &o, const Problem<T> &p) {
    if (c["tpart"] >= 0) {
        o.tpart = c["tpart"] % p.P;
        o.spart = o.tpart;
    }
}
static void no_error(const LogCapture &log, const char *what) {
    if (log.errors) sim::violate_unless_known("error-logged", what, cat(what, ": an error is reported for a supported operation: ", log.w->last));
}
static void run_assembly(const Case &c) {
    setup_threads(c);
    LogCapture log;
    dispatch(c, [&](auto t) {
        using T = decltype(t);
        if (c["huge"]) return huge_assembly<DoubleOf<T>>(c);
        Problem<T> p(c);
        BuildOpts o = BuildOpts::from(c, p);
        pick_part(c, o, p);
        htool::HMatrixTreeBuilder<T, RealOf<T>> b = make_builder(o, p, c["wseed"]);
        htool::InternalGeneratorWithPermutation<T> ig(p.gen, p.t().get_permutation().data(), p.s().get_permutation().data());
        sim::context("assembling");
        std::unique_ptr<HMatrix<T, RealOf<T>>> h;
        {
            Live l;
            h = c["internal"] ? std::make_unique<HMatrix<T, RealOf<T>>>(b.build((const htool::VirtualInternalGenerator<T> &)ig)) : std::make_unique<HMatrix<T, RealOf<T>>>(b.build((const htool::VirtualGenerator<T> &)p.gen));
        }
        no_error(log, "assembling");
        check_assembled(*h, p, o, c["wseed"], false, c["geom"]);
        vector<Leaf<T>> lv;
        collect(*h, false, lv);
        if (c["threads"] > 1 && lv.size() > 2) sim::count("nontrivial");
    });
}

// ---------------------------------------------------------------- A06: one builder used again, several at once
static void gen_reuse(Case &c, Rng &r, int tier) {
    gen_threads(c, r);
    gen_problem(c, r, tier ? 150 : 90, 4);
    gen_builder(c, r);
    c.set("builds", 2 + r.below(2), 1);
    c.set("callers", r.chance(0.5) ? 1 : 2 + r.below(2), 1);
    c.set("threads", 1 + r.below(3), 1);
    c.set("keep", r.below(2), 0);
    c.set("clusters_live", r.chance(0.5), 0);
    c.set("change", r.chance(0.4), 0);
}
static void run_reuse(const Case &c) {
    setup_threads(c);
    LogCapture log;
    dispatch(c, [&](auto t) {
        using T   = decltype(t);
        using H   = HMatrix<T, RealOf<T>>;
        int K     = std::max<int64_t>(1, c["callers"]), B = std::max<int64_t>(1, c["builds"]);
        vector<std::unique_ptr<Problem<T>>> ps(K);
        vector<BuildOpts> os(K);
        vector<Case> cases;
        for (int k = 0; k < K; k++) {
            Case ck = c;
            ck.p["wseed"] += 1000 * k;
            if (k) ck.p["n"] = 1 + (c["n"] * (k + 2)) / 3;
            cases.push_back(ck);
        }
        bool cl = c["clusters_live"];
        if (!cl)
            for (int k = 0; k < K; k++) ps[k].reset(new Problem<T>(cases[k]));
        vector<vector<std::unique_ptr<H>>> hs(K);
        vector<vector<BuildOpts>> used(K); // the settings of each build
        vector<std::function<void()>> fs;
        for (int k = 0; k < K; k++) {
            hs[k].resize(B), used[k].resize(B);
            fs.push_back([&, k] {
                if (cl) {
                    sim::context("clustering in concurrent callers");
                    Live l;
                    ps[k].reset(new Problem<T>(cases[k]));
                }
                {
                    sim::Quiet q;
                    os[k] = BuildOpts::from(cases[k], *ps[k]);
                }
                std::unique_ptr<htool::HMatrixTreeBuilder<T, RealOf<T>>> b;
                {
                    sim::Quiet q;
                    b.reset(new htool::HMatrixTreeBuilder<T, RealOf<T>>(make_builder(os[k], *ps[k], cases[k]["wseed"])));
                }
                for (int i = 0; i < B; i++) {
                    if (c["change"] && i > 0) { // other settings for the next build
                        sim::Quiet q;
                        Rng r(cases[k]["wseed"] + 77 * i);
                        BuildOpts &o = os[k];
                        o.comp = (int)r.below(5), o.mtd = (int)r.below(3), o.msd = (int)r.below(3), o.dbg = r.chance(0.3), o.adm = r.chance(0.5) ? 0 : 20 + (int)r.below(80);
                        o.cons = o.sym != 'N' || r.chance(0.6);
                        change_builder(*b, o, *ps[k], cases[k]["wseed"]);
                        sim::count("changed_settings");
                    }
                    used[k][i] = os[k];
                    sim::context(i ? "assembling again with the same builder" : "assembling in concurrent callers");
                    {
                        Live l;
                        hs[k][i] = std::make_unique<H>(b->build((const htool::VirtualGenerator<T> &)ps[k]->gen));
                    }
                    sim::Quiet q;
                    no_error(log, "assembling in concurrent callers");
                    check_assembled(*hs[k][i], *ps[k], os[k], cases[k]["wseed"], i > 0, c["geom"]);
                    if (!c["keep"] && i > 0) hs[k][i - 1].reset();
                }
            });
        }
        if (K == 1)
            fs[0]();
        else
            sim::run_threads(fs);
        if (c["keep"])
            for (int k = 0; k < K; k++)
                for (int i = 0; i < B; i++) check_assembled(*hs[k][i], *ps[k], used[k][i], cases[k]["wseed"], true, c["geom"]);
        if (B > 1 || K > 1) sim::count("nontrivial");
    });
}
static const sim::Driver d1{"assembly", gen_assembly, run_assembly}, d2{"reuse", gen_reuse, run_reuse};
const sim::Driver *sim::driver_table[] = {&d1, &d2, nullptr};
