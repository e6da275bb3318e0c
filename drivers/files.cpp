// Text files written and read by the library on the simulated disk (S02: cluster trees, S03: exports).
#include "faults.hpp"
#include "treediff.hpp"
#include <htool/testing/gmsh.hpp>
#include <map>
#include <set>
using namespace drv;

// ---------------------------------------------------------------- S02
struct Tree {
    std::unique_ptr<Cluster<double>> c;
    string props, tree; // what a save without faults writes
};
static std::unique_ptr<Cluster<double>> random_tree(uint64_t seed, bool big) {
    Rng r(seed);
    ClusterOpts co;
    int n     = r.chance(0.15) ? 1 + r.below(8) : big ? 50 + r.below(350) : 5 + r.below(60), dim = 2 + r.below(2);
    co.nchild = 2 + r.below(3);
    co.mcs    = 1 + r.below(10);
    co.given  = r.chance(0.5);
    co.P      = std::min<int>(n, 1 + r.below(6));
    co.split  = r.chance(0.3);
    co.dir    = r.chance(0.3);
    if (!co.given && !partition_ok(n, co.nchild, co.P, co.mcs)) co.given = 1;
    vector<double> x = make_points(r.below(GEOMS), dim, n, seed + 1, r.sym()), rad, w;
    if (r.chance(0.3))
        for (int i = 0; i < n; i++) w.push_back(0.5 + r.uniform()), rad.push_back(0.01 * r.uniform());
    vector<int> part = Problem<double>::make_partition(n, co.P, seed + 3);
    auto make        = [&] {
        htool::ClusterTreeBuilder<double> b;
        b.set_minclustersize(co.mcs);
        if (co.dir) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<double>>());
        if (co.split) b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<double>>());
        return std::unique_ptr<Cluster<double>>(new Cluster<double>(b.create_cluster_tree(n, dim, x.data(), rad.empty() ? nullptr : rad.data(), w.empty() ? nullptr : w.data(), co.nchild, co.P, co.given ? part.data() : nullptr)));
    };
    auto c = make();
    if (!Problem<double>::honoured(*c, co.P)) {
        co.split = 0, co.given = 1;
        c = make();
    }
    return c;
}
static const char *PROPS = "_cluster_tree_properties.csv", *TREE = "_cluster_tree.csv";
enum { C_SAVE,
       C_LOAD,
       C_TRUNC,
       C_OPS };
static void gen_cluster(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.fix("wseed", (int64_t)(r.next() >> 2));
    int callers = r.chance(0.7) ? 1 : 2 + r.below(2);
    c.set("callers", callers, 1);
    c.set("rough", r.chance(0.4), 0);
    c.set("trees", 1 + r.below(3), 1);
    c.set("big", r.chance(0.25), 0);
    // loads that the loader as it is does not end: tried in some of the cases only
    c.set("endless", r.chance(0.04), 0);
    int n     = 2 + r.below(tier ? 10 : 5);
    double pf = r.chance(0.3) ? 0 : 0.5;
    auto arg  = [&] { return (int64_t)(r.chance(0.5) ? r.below(40) : r.below(4000)); };
    for (int i = 0; i < n; i++) {
        int64_t k = r.below(callers), f = r.below(2);
        c.ops.push_back({C_SAVE, k, f, (int64_t)r.below(3), r.chance(pf) ? (int64_t)r.below(FAULTS) : 0, arg(), 0});
        if (r.chance(0.4)) c.ops.push_back({C_TRUNC, k, f, (int64_t)r.below(2), 0, arg(), (int64_t)r.below(4)});
        if (r.chance(0.8)) c.ops.push_back({C_LOAD, k, f, (int64_t)r.below(2), r.chance(pf / 2) ? (int64_t)r.below(FAULTS) : 0, arg(), 0});
    }
}
static void run_cluster(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::disk_reset();
    LogCapture log;
    int K = std::max<int64_t>(1, c["callers"]), NT = std::max<int64_t>(1, c["trees"]);
    sim::context("clustering");
    vector<Tree> trees(NT);
    for (int t = 0; t < NT; t++) {
        trees[t].c = random_tree((uint64_t)c["wseed"] + 10 * t, c["big"]);
        log.clear();
        {
            Live l;
            htool::save_cluster_tree(*trees[t].c, "/simdisk/ref");
        }
        trees[t].props = sim::disk_read(string("/simdisk/ref") + PROPS);
        trees[t].tree  = sim::disk_read(string("/simdisk/ref") + TREE);
        if (log.errors) sim::violate("spurious-failure", "cluster tree save", "saving a cluster tree reported an error without any fault: " + log.w->last);
    }
    int64_t base = sim::live_blocks();
    bool alone   = K == 1;
    int done     = 0;
    auto work    = [&](int k) {
        sim::Quiet q;
        for (auto o : c.ops) {
            if (o.size() != 7 || o[1] % K != k) continue;
            string path = cat("/simdisk/", k, "-", o[2] & 1);
            if (o[0] == C_TRUNC) {
                string p = path + (o[3] & 1 ? TREE : PROPS);
                if (!sim::disk_exists(p)) continue;
                string s = sim::disk_read(p);
                if (o[6] == 0) sim::disk_remove(p);
                else if (o[6] == 1) sim::disk_write(p, s.substr(0, s.empty() ? 0 : o[5] % (s.size() + 1)));
                else sim::disk_write(p, s.substr(0, s.size() - std::min<int64_t>(s.size(), o[5] % 40))); // near the end
                continue;
            }
            if (alone) arm((int)o[4], o[5], c["rough"]);
            int e0     = log.w->by_fiber[sim::fiber_id()];
            string exc;
            auto call = [&](auto f) {
                try {
                    Live l;
                    f();
                } catch (const std::bad_alloc &) {
                    sim::Quiet q2;
                    exc = "bad_alloc";
                    if (!sim::alloc_fired()) sim::violate("exception", "bad_alloc without a failed allocation", sim::context() + ": an allocation error was raised although none failed");
                } catch (const std::exception &e) {
                    sim::Quiet q2;
                    exc = cat("exception ", e.what());
                }
            };
            done++;
            if (o[0] == C_SAVE) {
                sim::context("saving a cluster tree");
                Tree &t = trees[o[3] % NT];
                call([&] { htool::save_cluster_tree(*t.c, path); });
                bool reported = !exc.empty() || log.w->by_fiber[sim::fiber_id()] > e0;
                if (!reported && (sim::disk_read(path + PROPS) != t.props || sim::disk_read(path + TREE) != t.tree)) sim::violate_unless_known("lost-data", "cluster tree saved without complaint", "saving a cluster tree reported nothing but the files are not complete");
                if (reported && !hard()) sim::violate("spurious-failure", "cluster tree save", "saving a cluster tree reported an error without any fault: " + exc + log.w->last);
                sim::count(reported ? "failed_saves" : "saves");
                if (alone && o[4] == F_CRASH) {
                    if (sim::disk_fired()) sim::count("crashes_in_save");
                    sim::disk_crash();
                }
            } else {
                sim::context("loading a cluster tree");
                string p = sim::disk_read(path + PROPS), s = sim::disk_read(path + TREE);
                int wp = -1, ws = -1;
                const Tree *same = nullptr;
                for (int t = 0; t < NT; t++) {
                    if (trees[t].props == p) wp = t;
                    if (trees[t].tree == s) ws = t;
                    if (trees[t].props == p && trees[t].tree == s) same = &trees[t];
                }
                std::unique_ptr<Cluster<double>> got;
                call([&] { got.reset(new Cluster<double>(htool::read_cluster_tree<double>(path + PROPS, path + TREE))); });
                bool reported = !exc.empty() || log.w->by_fiber[sim::fiber_id()] > e0;
                if (!reported && (wp < 0 || ws < 0)) sim::violate_unless_known("undetected", "incomplete cluster tree files", cat("loading a cluster tree from ", wp < 0 ? p.empty() ? "a missing or empty properties file" : "an incomplete properties file" : s.empty() ? "a missing or empty tree file" : "an incomplete tree file", " reported nothing"));
                if (reported && same && !hard()) sim::violate("spurious-failure", "cluster tree load", "loading intact files reported an error without any fault: " + exc + log.w->last);
                if (!reported && same) {
                    string d = cluster_difference(*same->c, *got);
                    if (!d.empty()) sim::violate_unless_known("wrong-data", "cluster tree loaded", "the cluster tree read back is not the one saved: " + d);
                    sim::count("loads");
                }
                if (reported) sim::count("failed_loads");
                if (got) {
                    sim::context("using a loaded cluster tree");
                    Live l;
                    htool::preorder_tree_traversal(*got, [&](const Cluster<double> &x) { for (double y : x.get_center()) if (y > 1e300) sim::point("far"); });
                    for (auto part : got->get_clusters_on_partition())
                        if (part && part->get_size() < 0) sim::point("negative");
                    got.reset();
                }
            }
            if (alone) disarm();
        }
    };
    if (alone)
        work(0);
    else {
        arm(F_NONE, 0, c["rough"]);
        vector<std::function<void()>> fs;
        for (int k = 0; k < K; k++) fs.push_back([&, k] { work(k); });
        sim::run_threads(fs);
        disarm();
        sim::count("concurrent_callers");
    }
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of cluster trees", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    if (done > 1) sim::count("nontrivial");
}

// ---------------------------------------------------------------- S03
// reads one value and what must follow it
template <class T>
static bool value_is(std::istream &in, T want, const string &follow, double tol) {
    T got;
    if (!(in >> got)) return false;
    if (!(std::abs(got - want) <= tol * std::abs(want) + 1e-300)) return false;
    for (char ch : follow)
        if (in.get() != ch) return false;
    return true;
}
static bool ended(std::istream &in) {
    string rest;
    in.clear();
    while (in && in.peek() != EOF) rest += (char)in.get();
    return rest.find_first_not_of(" \t\n") == string::npos;
}
struct Row {
    int a[5];
    bool operator<(const Row &o) const { return std::lexicographical_compare(a, a + 5, o.a, o.a + 5); }
    bool operator==(const Row &o) const { return !memcmp(a, o.a, sizeof a); }
};
static bool blocks_are(const string &s, int rows, int cols, vector<Row> want) {
    std::istringstream in(s);
    if (!value_is(in, (double)rows, ",", 0) || !value_is(in, (double)cols, "\n", 0)) return false;
    vector<Row> got;
    string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        Row r;
        std::istringstream l(line);
        for (int i = 0; i < 5; i++) {
            if (!(l >> r.a[i])) return false;
            if (i < 4 && l.get() != ',') return false;
        }
        if (!ended(l)) return false;
        got.push_back(r);
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    return got == want;
}
struct CoutCount : std::streambuf { // what appears on the standard output, without allocating
    size_t n = 0;
    char first[64];
    std::streambuf *old;
    CoutCount() : old(std::cout.rdbuf(this)) {}
    ~CoutCount() { std::cout.rdbuf(old); }
    int overflow(int c) override {
        sim::Quiet q;
        if (n < sizeof first) first[n] = (char)c;
        n++;
        return c;
    }
    string text(size_t from) const { return string(first + std::min(from, sizeof first), first + std::min(n, sizeof first)); }
};
enum { E_CSV,
       E_PRINT,
       E_MATLAB,
       E_VECTOR,
       E_POINT,
       E_GEOMETRY,
       E_LEAVES,
       E_LEVELS,
       EXPORTS };
static void gen_export(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    gen_problem(c, r, tier ? 140 : 80, 3);
    gen_builder(c, r);
    c.fix("dshift", 0);
    int callers = r.chance(0.5) ? 1 : 2 + r.below(3);
    c.set("callers", callers, 1);
    c.set("rough", r.chance(0.4), 0);
    int n     = 2 + r.below(tier ? 12 : 7);
    double pf = r.chance(0.4) ? 0 : 0.4;
    for (int i = 0; i < n; i++) c.ops.push_back({(int64_t)r.below(EXPORTS), (int64_t)r.below(callers), (int64_t)r.below(12), (int64_t)r.below(12), (int64_t)r.below(5), (int64_t)r.below(1000000), r.chance(pf) ? (int64_t)r.below(F_ALLOC) : 0, (int64_t)r.below(4000)});
}
template <class T>
static void run_export_t(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::disk_reset();
    LogCapture log;
    Problem<T> p(c);
    BuildOpts bo = BuildOpts::from(c, p);
    auto builder = make_builder(bo, p, (uint64_t)c["wseed"]);
    HMatrix<T, RealOf<T>> root = builder.build(p.gen);
    uint64_t h0 = 0;
    auto hash   = [&] {
        vector<Leaf<T>> leaves;
        collect(root, false, leaves);
        uint64_t h = 0;
        for (auto &l : leaves) {
            Dense<T> a = leaf_dense(l);
            h          = sim::mix(h, sim::hash_bytes(a.a.data(), a.a.size() * sizeof(T)));
        }
        return h;
    };
    h0           = hash();
    CoutCount cc;
    int K        = std::max<int64_t>(1, c["callers"]);
    bool alone   = K == 1;
    int64_t base = sim::live_blocks();
    int done     = 0;
    auto work    = [&](int k) {
        sim::Quiet q;
        int index = 0;
        for (auto o : c.ops) {
            if (o.size() != 8 || o[1] % K != k) continue;
            string path = cat("/simdisk/", k, "-", index++);
            Rng r((uint64_t)o[5]);
            int rows = (int)o[2], cols = (int)o[3];
            static const char *delims[] = {",", ";", " ", "\t", " | "};
            string delim                = delims[o[4] % 5];
            if (alone) arm((int)o[6], o[7], c["rough"]);
            size_t cout0 = cc.n;
            done++;
            auto written = [&](const char *what, bool right, bool ok) {
                if (ok && !right) sim::violate_unless_known("wrong-content", what, cat(what, ": reported success (or cannot fail) and met no fault, but what was written is not the object"));
                sim::count(ok ? "exports" : "failed_exports");
            };
            auto status = [&](const char *what, int rc, bool right) {
                if (rc == 0 && !right) sim::violate_unless_known("lost-data", what, cat(what, " returned 0 but the file does not hold the object"));
                if (rc != 0 && !hard()) sim::violate("spurious-failure", what, cat(what, " returned ", rc, " without any fault"));
                sim::count(rc == 0 ? "exports" : "failed_exports");
            };
            switch (o[0]) {
            case E_CSV:
            case E_PRINT: {
                Matrix<T> m(rows, cols);
                vector<T> want = random_vec<T>(r, (size_t)rows * cols);
                if (!want.empty()) std::copy(want.begin(), want.end(), m.data());
                auto right = [&](const string &s) {
                    std::istringstream in(s);
                    if (cols > 0)
                        for (int i = 0; i < rows; i++)
                            for (int j = 0; j < cols; j++)
                                if (!value_is(in, want[i + (size_t)rows * j], j + 1 < cols ? delim : "\n", 1e-5)) return false;
                    return ended(in);
                };
                if (o[0] == E_CSV) {
                    sim::context("saving a matrix as text");
                    int rc;
                    {
                        Live l;
                        rc = m.csv_save(path, delim);
                    }
                    status("csv_save", rc, sim::disk_exists(path) && right(sim::disk_read(path)));
                } else {
                    sim::context("printing a matrix");
                    std::ostringstream os;
                    {
                        Live l;
                        m.print(os, delim);
                    }
                    written("Matrix::print", right(os.str()), true);
                }
                if (!bits_equal(m.data(), want.data(), want.size())) sim::violate("side-effect", "matrix export", "writing a matrix changed it");
                break;
            }
            case E_MATLAB: {
                sim::context("saving a vector as text");
                vector<T> v = random_vec<T>(r, rows * cols);
                if (o[4] == 0)
                    for (auto &x : v) x = T(std::real(x));
                int rc;
                {
                    Live l;
                    rc = htool::matlab_save(v, path);
                }
                auto right = [&] {
                    if (!sim::disk_exists(path)) return false;
                    std::istringstream in(sim::disk_read(path));
                    for (auto &x : v) {
                        double re, im;
                        if (!(in >> re >> im) || re != std::real(x) || im != std::imag(x) || in.get() != 'i') return false;
                        while (in.peek() == '\t') in.get();
                        if (in.get() != '\n') return false;
                    }
                    return ended(in);
                };
                status("matlab_save", rc, right());
                break;
            }
            case E_VECTOR: {
                sim::context("printing a vector");
                vector<T> v = random_vec<T>(r, rows * cols);
                std::ostringstream os;
                {
                    Live l;
                    htool::operator<<(os, v);
                }
                string s = os.str();
                std::istringstream in(s);
                bool right = v.empty() ? s.empty() : in.get() == '[';
                for (size_t i = 0; right && i < v.size(); i++) {
                    right = value_is(in, v[i], "", 1e-5);
                    if (right && i + 1 < v.size()) right = in.get() == ',';
                }
                written("operator<< of a vector", right, true);
                break;
            }
            case E_POINT: {
                sim::context("printing a point");
                std::array<T, 3> v{make<T>(r.sym(), r.sym()), make<T>(r.sym(), r.sym()), make<T>(r.sym(), r.sym())};
                std::ostringstream os;
                {
                    Live l;
                    htool::operator<<(os, v);
                }
                std::istringstream in(os.str());
                bool right = in.get() == '[';
                for (int i = 0; right && i < 3; i++) right = value_is(in, v[i], i < 2 ? "," : "", 1e-5);
                written("operator<< of a point", right, true);
                break;
            }
            case E_GEOMETRY: {
                sim::context("saving a clustered geometry");
                const Cluster<double> &t = p.t();
                vector<int> depths;
                for (int d = 0; d <= (int)t.get_maximal_depth() + 1; d++)
                    if (r.chance(0.6)) depths.push_back(d);
                for (size_t i = depths.size(); i > 1; i--) std::swap(depths[i - 1], depths[r.below(i)]);
                {
                    Live l;
                    htool::save_clustered_geometry(t, p.dim, p.xt.data(), path, depths);
                }
                auto right = [&] {
                    string f = path + ".csv";
                    if (!sim::disk_exists(f)) return false;
                    std::istringstream in(sim::disk_read(f));
                    string head;
                    for (int d = 0; d < p.dim; d++) {
                        if (!std::getline(in, head, ',') || head != cat("x_", d)) return false;
                        for (int i = 0; i < p.n; i++)
                            if (!value_is(in, p.xt[(size_t)p.dim * t.get_permutation()[i] + d], i + 1 < p.n ? "," : "\n", 1e-5)) return false;
                    }
                    for (int depth : depths) {
                        vector<int> label(p.n, 0);
                        int count = 0;
                        std::function<void(const Cluster<double> &)> walk = [&](const Cluster<double> &x) {
                            if ((int)x.get_depth() == depth) {
                                for (int i = 0; i < x.get_size(); i++) label[x.get_offset() + i] = count;
                                count++;
                            }
                            for (auto &ch : x.get_children()) walk(*ch);
                        };
                        walk(t);
                        if (!value_is(in, (double)depth, ",", 0)) return false;
                        for (int i = 0; i < p.n; i++)
                            if (!value_is(in, (double)label[i], i + 1 < p.n ? "," : "\n", 0)) return false;
                    }
                    return ended(in);
                };
                bool ok = !hard();
                written("save_clustered_geometry", !ok || right(), ok);
                break;
            }
            case E_LEAVES:
            case E_LEVELS: {
                sim::context(o[0] == E_LEAVES ? "saving the leaves of an operator" : "saving the levels of an operator");
                const HMatrix<T, RealOf<T>> *block = &root;
                while (!block->get_children().empty() && r.chance(0.4)) block = block->get_children()[r.below(block->get_children().size())].get(); // any block can be saved
                const HMatrix<T, RealOf<T>> &H = *block;
                int to = H.get_target_cluster().get_offset(), so = H.get_source_cluster().get_offset();
                auto rows_if = [&](auto pred) {
                    vector<Row> w;
                    std::function<void(const HMatrix<T, RealOf<T>> &, int)> walk = [&](const HMatrix<T, RealOf<T>> &x, int depth) {
                        if (pred(x, depth)) {
                            Row row{{x.get_target_cluster().get_offset() - to, x.get_target_cluster().get_size(), x.get_source_cluster().get_offset() - so, x.get_source_cluster().get_size(), x.is_low_rank() ? x.get_low_rank_data()->rank_of() : -1}};
                            w.push_back(row);
                        }
                        for (auto &ch : x.get_children()) walk(*ch, depth + 1);
                    };
                    walk(H, (int)H.get_depth());
                    return w;
                };
                int nr = H.get_target_cluster().get_size(), nc = H.get_source_cluster().get_size();
                if (o[0] == E_LEAVES) {
                    {
                        Live l;
                        htool::save_leaves_with_rank(H, path);
                    }
                    bool ok = !hard();
                    written("save_leaves_with_rank", !ok || blocks_are(sim::disk_read(path + ".csv"), nr, nc, rows_if([](const HMatrix<T, RealOf<T>> &x, int) { return x.get_children().empty(); })), ok);
                } else {
                    vector<int> depths;
                    for (int d = 0; d < 6; d++)
                        if (r.chance(0.6)) depths.push_back(d);
                    for (size_t i = depths.size(); i > 1; i--) std::swap(depths[i - 1], depths[r.below(i)]);
                    {
                        Live l;
                        htool::save_levels(H, path, depths);
                    }
                    bool ok    = !hard(), right = true;
                    for (size_t i = 0; ok && i < depths.size(); i++) right = right && blocks_are(sim::disk_read(cat(path, i, ".csv")), nr, nc, rows_if([&](const HMatrix<T, RealOf<T>> &, int depth) { return depth == depths[i]; }));
                    written("save_levels", right, ok);
                }
                break;
            }
            }
            if (!hard() && K == 1 && cc.n != cout0) sim::violate_unless_known("wrong-content", sim::context() == "printing a point" ? "output of a point on another stream" : "output on another stream", cat(sim::context(), ": text appeared on the standard output: ", cc.text(cout0)));
            if (alone) disarm();
        }
    };
    if (alone)
        work(0);
    else {
        arm(F_NONE, 0, c["rough"]);
        vector<std::function<void()>> fs;
        for (int k = 0; k < K; k++) fs.push_back([&, k] { work(k); });
        sim::run_threads(fs);
        disarm();
        sim::count("concurrent_callers");
    }
    if (hash() != h0) sim::violate("side-effect", "operator export", "writing an operator changed it");
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of exports", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    if (done > 1) sim::count("nontrivial");
}
static void run_export(const Case &c) {
    dispatch(c, [&](auto t) { run_export_t<decltype(t)>(c); });
}

// ---------------------------------------------------------------- S04
struct Mesh {
    vector<std::array<double, 3>> x;
    string text;
    vector<size_t> node_end; // where the line of a node ends
    size_t size_end;         // where the line with their number ends
};
static Mesh random_mesh(uint64_t seed, bool big) {
    Rng r(seed);
    Mesh m;
    int n        = r.chance(0.1) ? (int)r.below(2) : big ? 30 + (int)r.below(500) : 1 + (int)r.below(30);
    double scale = std::pow(10., (int)r.below(9) - 4);
    auto num     = [&](double &v) {
        char s[64];
        const char *f[] = {"%.16g", "%.17g", "%.3f", "%g", "%.10e"};
        snprintf(s, sizeof s, f[r.below(5)], v);
        v = strtod(s, nullptr);
        return string(s);
    };
    if (r.chance(0.8)) m.text += "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
    if (r.chance(0.3)) m.text += "$Comments\nNodes of a mesh\n$EndComments\n";
    if (r.chance(0.3)) m.text += "$PhysicalNames\n1\n2 1 \"$Nodes of the boundary\"\n$EndPhysicalNames\n";
    m.text += cat("$Nodes\n", n, "\n");
    m.size_end = m.text.size();
    for (int i = 0, id = 0; i < n; i++) {
        id += 1 + (r.chance(0.1) ? (int)r.below(r.chance(0.1) ? 3000000 : 50) : 0); // at most 530 of them
        std::array<double, 3> v{r.sym() * scale, r.chance(0.2) ? 0. : r.sym() * scale, r.chance(0.3) ? (double)(int)r.below(5) - 2 : r.sym() * scale};
        string sep = r.chance(0.1) ? "  " : " ";
        m.text += cat(id, sep, num(v[0]));
        m.text += sep + num(v[1]);
        m.text += sep + num(v[2]) + (r.chance(0.1) ? " \n" : "\n");
        m.x.push_back(v);
        m.node_end.push_back(m.text.size());
    }
    m.text += "$EndNodes\n";
    if (r.chance(0.6)) m.text += "$Elements\n1\n1 15 2 0 1 1\n$EndElements\n";
    return m;
}
static void gen_mesh(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.fix("wseed", (int64_t)(r.next() >> 2));
    int callers = r.chance(0.7) ? 1 : 2 + r.below(2);
    c.set("callers", callers, 1);
    c.set("rough", r.chance(0.4), 0);
    c.set("big", r.chance(0.25), 0);
    // loads that the loader as it is does not end: tried in some of the cases only
    c.set("endless", r.chance(0.04), 0);
    int n     = 2 + r.below(tier ? 12 : 6);
    double pf = r.chance(0.3) ? 0 : 0.5;
    // {what, caller, file, kind, fault, argument}
    for (int i = 0; i < n; i++) {
        int64_t k = r.below(callers), f = r.below(2);
        if (i == 0 || r.chance(0.7)) c.ops.push_back({0, k, f, (int64_t)r.below(1000), 0, 0});
        if (r.chance(0.5)) c.ops.push_back({1, k, f, (int64_t)r.below(5), 0, (int64_t)(r.next() >> 8)});
        int64_t fault = r.chance(pf) ? (int64_t)r.below(FAULTS) : 0;
        c.ops.push_back({2, k, f, (int64_t)r.below(40), fault == F_CRASH ? F_NONE : fault, r.chance(0.5) ? (int64_t)r.below(40) : (int64_t)r.below(4000)});
    }
}
static void run_mesh(const Case &c) {
    auto cfg      = sim::config_from(c);
    cfg.max_steps = 30000000;
    sim::configure(cfg);
    sim::disk_reset();
    CoutCount cc;
    int K        = std::max<int64_t>(1, c["callers"]);
    bool alone   = K == 1;
    int64_t base = sim::live_blocks();
    int done     = 0;
    auto work    = [&](int k) {
        sim::Quiet q;
        std::map<int, Mesh> meshes;
        for (auto o : c.ops) {
            if (o.size() != 6 || o[1] % K != k) continue;
            int f       = o[2] & 1;
            string path = cat("/simdisk/", k, "-", f, ".msh");
            if (o[0] == 0) {
                meshes[f] = random_mesh(sim::mix((uint64_t)c["wseed"], (uint64_t)o[3] * 8 + k), c["big"]);
                sim::disk_write(path, meshes[f].text);
                continue;
            }
            Mesh &m = meshes[f];
            if (o[0] == 1) {
                if (!sim::disk_exists(path)) continue;
                string s   = sim::disk_read(path);
                uint64_t a = (uint64_t)o[5];
                if (o[3] == 0) sim::disk_remove(path);
                else if (o[3] == 1) s = s.substr(0, a % (s.size() + 1));
                else if (o[3] == 2) s = s.substr(0, s.size() - std::min<size_t>(s.size(), a % 40)); // near the end
                else if (m.node_end.empty()) s = s.substr(0, std::min(s.size(), m.size_end));
                else if (o[3] == 3) s = s.substr(0, std::min<size_t>(s.size(), m.node_end[a % m.node_end.size()] - a / 1000 % 3)); // around the end of a line
                else s = s.substr(0, std::min<size_t>(s.size(), m.size_end - a % 4));
                if (o[3]) sim::disk_write(path, s);
                sim::count("shortened_files");
                continue;
            }
            string s      = sim::disk_exists(path) ? sim::disk_read(path) : "";
            bool intact   = !m.text.empty() && s == m.text;
            bool complete = !m.text.empty() && s.size() >= (m.node_end.empty() ? m.size_end : m.node_end.back());
            int fault = alone ? (int)o[4] : F_NONE;
            bool sick = fault != F_NONE && fault != F_ROUGH;
            // without the line that starts the nodes, or with a fault before it, loading does not end (known finding)
            bool list = !sim::disk_exists(path) || ("\n" + s).find("\n$Nodes\n") != string::npos;
            if ((!list || sick) && !c["endless"]) {
                sim::count("loads_left_out");
                continue;
            }
            vector<htool::R3> x;
            {
                Live l;
                x.resize((size_t)o[3], htool::R3{7., 7., 7.}); // what was there is replaced
            }
            if (alone) arm((int)o[4], o[5], c["rough"]);
            sim::context(!list ? "loading a mesh without its list of nodes" : sick ? "loading a mesh with a hard fault" : "loading the nodes of a mesh");
            int rc = -1;
            string exc;
            try {
                Live l;
                rc = htool::Load_GMSH_nodes(x, path);
            } catch (const std::bad_alloc &) {
                exc = "bad_alloc";
                if (!sim::alloc_fired()) sim::violate("exception", "bad_alloc without a failed allocation", "loading a mesh: an allocation error was raised although none failed");
            } catch (const std::exception &e) {
                exc = cat("exception ", e.what());
            }
            done++;
            bool ok = exc.empty() && rc == 0;
            if (ok && !complete) sim::violate_unless_known("undetected", sim::disk_exists(path) ? "incomplete mesh" : "missing mesh", cat("loading a mesh of which ", sim::disk_exists(path) ? cat("only the first ", s.size(), " of ", m.text.size(), " bytes are there") : string("the file is missing"), " returned 0"));
            if (!ok && intact && !hard()) sim::violate_unless_known("spurious-failure", "mesh load", cat("loading an intact mesh ", exc.empty() ? cat("returned ", rc) : "raised " + exc, " without any fault"));
            if (ok) {
                bool same = x.size() == m.x.size();
                for (size_t i = 0; same && i < x.size(); i++) same = x[i] == m.x[i];
                if (!same) sim::violate_unless_known("wrong-data", intact && !hard() ? "mesh loaded" : "mesh loaded from a cut file or with a fault", cat("the nodes that were loaded are not those of the mesh (", x.size(), " and ", m.x.size(), " nodes)"));
            }
            if (sim::disk_exists(path) && sim::disk_read(path) != s) sim::violate("side-effect", "mesh load", "loading a mesh changed its file");
            sim::count(ok ? "loads" : "failed_loads");
            if (alone) disarm();
            {
                Live l;
                x.clear(), x.shrink_to_fit();
            }
        }
    };
    if (alone)
        work(0);
    else {
        arm(F_NONE, 0, c["rough"]);
        vector<std::function<void()>> fs;
        for (int k = 0; k < K; k++) fs.push_back([&, k] { work(k); });
        sim::run_threads(fs);
        disarm();
        sim::count("concurrent_callers");
    }
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of meshes", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    if (done > 1) sim::count("nontrivial");
}

static const sim::Driver d1{"cluster", gen_cluster, run_cluster}, d2{"export", gen_export, run_export}, d3{"mesh", gen_mesh, run_mesh};
const sim::Driver *sim::driver_table[] = {&d1, &d2, &d3, nullptr};
