// Histories of cluster tree constructions with reused builders, shared strategies, concurrent callers and failing
// allocations (C01).
#include "faults.hpp"
#include "treediff.hpp"
using namespace drv;

enum { BUILD, FRESH, CONVERT, KINDS };
enum { STRATEGIES = 2 };

static void gen_trees(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.fix("wseed", (int64_t)(r.next() >> 2));
    int callers = r.chance(0.55) ? 1 : 2 + (int)r.below(2);
    c.set("callers", callers, 1);
    c.set("clouds", 1 + (int)r.below(3), 1);
    c.set("float", r.chance(0.25), 0);
    c.set("maxn", r.chance(0.2) ? 12 : tier ? 400 : 150, 12);
    bool faults = callers == 1 && r.chance(0.5);
    int n       = 2 + (int)r.below(tier ? 14 : 8);
    for (int i = 0; i < n; i++) {
        int64_t kind = r.below(10);
        kind         = kind < 6 ? BUILD : kind < 7 ? FRESH : CONVERT;
        int64_t fault = faults && kind != CONVERT && r.chance(0.4) ? 1 + (int64_t)r.below(r.chance(0.5) ? 40 : 4000) : 0;
        // caller, kind, cloud, settings, partition, fault, slot
        c.ops.push_back({(int64_t)r.below(callers), kind, (int64_t)r.below(3), (int64_t)(r.next() >> 2), (int64_t)(r.next() >> 2), fault, (int64_t)r.below(2)});
    }
}

template <class C>
struct Cloud {
    int n, dim;
    vector<C> x, radii, weights;
    vector<C> x0, radii0, weights0;
};
struct Settings {
    int mcs, dir, split, nchild, P, given, rad, wei;
    vector<int> part;
};
template <class C>
struct Slot {
    std::unique_ptr<Cluster<C>> tree;
    Settings s;
    int cloud = -1;
    bool ok = false; // the partition could be made
};
template <class C>
struct Caller {
    std::unique_ptr<htool::ClusterTreeBuilder<C>> builder;
    Settings now; // what the builder was told last
    Slot<C> slot[2];
};
static Settings settings_of(int64_t a, int64_t b, int n) {
    Rng r((uint64_t)a);
    Settings s;
    s.mcs    = r.chance(0.1) ? 0 : r.chance(0.7) ? 1 + (int)r.below(10) : 1 + (int)r.below(60);
    s.dir    = r.below(2);
    s.split  = r.below(2);
    s.nchild = 2 + (int)r.below(r.chance(0.7) ? 2 : 6);
    s.rad    = r.chance(0.3);
    s.wei    = r.chance(0.3);
    Rng q((uint64_t)b);
    s.P     = std::min<int>(n, 1 + (int)q.below(q.chance(0.7) ? 5 : 12));
    s.given = q.chance(0.4);
    s.part  = Problem<double>::make_partition(n, s.P, (uint64_t)b + 3);
    if (q.chance(0.3)) // parts in any order
        for (int p = s.P - 1; p > 0; p--) {
            int o = (int)q.below(p + 1);
            std::swap(s.part[2 * p], s.part[2 * o]), std::swap(s.part[2 * p + 1], s.part[2 * o + 1]);
        }
    return s;
}
template <class C>
static Cluster<C> build(htool::ClusterTreeBuilder<C> &b, const Cloud<C> &p, const Settings &s, bool shorter) {
    if (shorter && !s.rad && !s.wei) {
        if (s.given) return b.create_cluster_tree(p.n, p.dim, p.x.data(), s.nchild, s.P, s.part.data());
        return b.create_cluster_tree(p.n, p.dim, p.x.data(), s.nchild, s.P);
    }
    return b.create_cluster_tree(p.n, p.dim, p.x.data(), s.rad ? p.radii.data() : nullptr, s.wei ? p.weights.data() : nullptr, s.nchild, s.P, s.given ? s.part.data() : nullptr);
}
[[noreturn]] static void bad(const string &what, const string &detail) { sim::violate("clusters", what, detail); }

// What a tree must be, whatever the way it was cut
template <class C>
struct Checker {
    const Cloud<C> &p;
    const Settings &s;
    const Cluster<C> &root;
    const vector<int> &perm;
    const vector<C> &weights; // those used
    bool complete; // the partition could be made
    unsigned deepest = 0, shallowest = ~0u;
    int parts = 0;

    void node(const Cluster<C> &c, unsigned depth, int rank, const Cluster<C> *parent) {
        string me = cat("the cluster of offset ", c.get_offset(), " and size ", c.get_size());
        if (c.get_size() < 1 || c.get_offset() < 0 || c.get_offset() + c.get_size() > p.n) bad("range", me + " is empty or outside of the points");
        if (c.get_depth() != depth) bad("depth", cat(me, " says it is at depth ", c.get_depth(), " instead of ", depth));
        if (c.is_root() != (parent == nullptr)) bad("root", me + " is mistaken about being the root");
        if (&c.get_root_cluster() != &root) bad("root", me + " has another root");
        // geometry, from its definition
        long double total = 0, mid[3] = {0, 0, 0}, scale = 0;
        for (int j = 0; j < c.get_size(); j++) {
            int i         = perm[c.get_offset() + j];
            long double w = s.wei ? p.weights[i] : C(1);
            total += w;
            for (int d = 0; d < p.dim; d++) mid[d] += w * p.x[(size_t)p.dim * i + d], scale = std::max(scale, std::abs((long double)p.x[(size_t)p.dim * i + d]));
        }
        long double eps = std::numeric_limits<C>::epsilon() * (8.L + 4 * c.get_size()), far = 0;
        if ((int)c.get_center().size() != p.dim) bad("center", me + " has a center of another dimension");
        for (int d = 0; d < p.dim; d++) {
            mid[d] /= total;
            if (!(std::abs(mid[d] - c.get_center()[d]) <= eps * scale)) bad("center", cat(me, " has the center coordinate ", c.get_center()[d], " instead of ", (double)mid[d]));
        }
        for (int j = 0; j < c.get_size(); j++) {
            int i         = perm[c.get_offset() + j];
            long double q = 0;
            for (int d = 0; d < p.dim; d++) q += (p.x[(size_t)p.dim * i + d] - mid[d]) * (p.x[(size_t)p.dim * i + d] - mid[d]);
            far = std::max(far, std::sqrt(q) + (s.rad ? p.radii[i] : C(0)));
        }
        if (!(std::abs(far - c.get_radius()) <= 4 * eps * (scale + far))) bad("radius", cat(me, " has the radius ", c.get_radius(), " instead of ", (double)far));
        // ranks
        bool part = !s.given && complete ? depth == root.get_clusters_on_partition()[0]->get_depth() : s.given ? depth == 1 : false;
        if (complete && part) {
            if (c.get_rank() < 0 || c.get_rank() >= s.P || root.get_clusters_on_partition()[c.get_rank()] != &c) bad("rank", cat(me, " is a part but its rank ", c.get_rank(), " does not lead to it"));
            rank = c.get_rank(), parts++;
        }
        if (complete && c.get_rank() != rank) bad("rank", cat(me, " has the rank ", c.get_rank(), " instead of ", rank));
        // children
        auto &ch = c.get_children();
        if (ch.empty()) {
            deepest = std::max(deepest, depth), shallowest = std::min(shallowest, depth);
            if (!parent || s.split || (!complete && rank < 0)) return;
            if (!(c.get_size() / s.nchild <= s.mcs)) bad("leaf", cat(me, " was not cut although it has more than ", s.mcs, " points for each of ", s.nchild, " children"));
            return;
        }
        vector<std::pair<int, int>> range;
        for (auto &k : ch) range.push_back({k->get_offset(), k->get_size()});
        bool top = s.given && !parent;
        if (top) {
            if ((int)range.size() != s.P) bad("given partition", cat("a given partition of ", s.P, " parts became ", range.size(), " parts"));
            for (int q = 0; q < s.P; q++)
                if (range[q] != std::make_pair(s.part[2 * q], s.part[2 * q + 1]) || ch[q]->get_rank() != q) bad("given partition", cat("part ", q, " of a given partition was changed"));
        } else if (!s.split) { // equal parts, the last takes the rest
            int k = (int)range.size(), each = c.get_size() / k;
            for (int q = 0; q < k; q++)
                if (range[q].second != (q + 1 < k ? each : c.get_size() - each * (k - 1))) bad("sizes", cat("child ", q, " of ", me, " has ", range[q].second, " points"));
        }
        std::sort(range.begin(), range.end());
        int o = c.get_offset();
        for (auto &x : range) {
            if (x.first != o) bad("tiling", "the children of " + me + " do not tile it");
            o += x.second;
            if (!top && !(x.second > s.mcs)) bad("minimal size", cat("a child of ", me, " has ", x.second, " points, not more than ", s.mcs));
        }
        if (o != c.get_offset() + c.get_size()) bad("tiling", "the children of " + me + " do not tile it");
        if (!top) cut(c, me);
        for (auto &k : ch) {
            if (c == *k || *k == c) bad("equality", me + " is said to be equal to one of its children");
            if (&k != &ch[0] && *k == *ch[0]) bad("equality", "two children of " + me + " are said to be equal");
            if (!(*k == *k)) bad("equality", "a cluster is said to differ from itself");
            bool in = c.get_size() > k->get_size(); // an only child has the same points
            if (!htool::left_cluster_contains_right_cluster(c, *k) || (in && htool::left_cluster_contains_right_cluster(*k, c))) bad("containment", me + " and one of its children are not said to be nested that way");
            if (&k != &ch[0] && k->get_size() && ch[0]->get_size() && (htool::left_cluster_contains_right_cluster(*k, *ch[0]) || htool::left_cluster_contains_right_cluster(*ch[0], *k))) bad("containment", "two children of " + me + " are said to be nested");
            if (complete && htool::is_cluster_on_partition(*k) != (k->get_depth() == root.get_clusters_on_partition()[0]->get_depth())) bad("partition", "a cluster is wrongly said to be, or not to be, at the depth of the partition");
        }
        for (auto &k : ch) node(*k, depth + 1, rank, &c);
    }
    // The children are consecutive along the direction asked for: the axis, or the principal axis, of largest extent.
    // Directions that are ambiguous, or too close to it for the precision used, are not judged.
    C at(int i, int d) const { return p.x[(size_t)p.dim * perm[i] + d]; }
    void ordered(const Cluster<C> &c, const string &me, const vector<long double> &dir, long double tol, const char *axis) {
        long double before = -std::numeric_limits<long double>::infinity();
        for (auto &k : c.get_children()) {
            long double lo = std::numeric_limits<long double>::infinity(), hi = -lo;
            for (int i = k->get_offset(); i < k->get_offset() + k->get_size(); i++) {
                long double v = 0;
                for (int d = 0; d < p.dim; d++) v += dir[d] * at(i, d);
                lo = std::min(lo, v), hi = std::max(hi, v);
            }
            if (lo < before - tol) bad(cat("cut along the ", axis), cat(me, " was not cut across its ", axis, ": a child begins at ", (double)lo, ", the one before it ends at ", (double)before));
            before = hi;
        }
    }
    // sizes of the children of a geometric splitting of the sorted values v, or none if parts of equal size are made
    vector<int> slabs(const vector<C> &v, int k) const {
        vector<int> sizes;
        if ((int)v.size() <= k || !(v.back() > v[0])) return {};
        C each = (v.back() - v[0]) / k, first = v[0];
        size_t begin = 0;
        for (int q = 0; q < k - 1; q++) {
            size_t e = begin;
            while (e < v.size() && !(v[e] - first > each)) e++;
            if (e == v.size()) return {};
            sizes.push_back((int)(e - begin)), begin = e, first = v[e];
        }
        sizes.push_back((int)(v.size() - begin));
        for (int x : sizes)
            if (!(x > s.mcs)) return {};
        return sizes;
    }
    bool single_axis(const Cluster<C> &c, int &axis) const {
        vector<long double> extent(p.dim);
        for (int d = 0; d < p.dim; d++) {
            C lo = at(c.get_offset(), d), hi = lo;
            for (int i = c.get_offset(); i < c.get_offset() + c.get_size(); i++) lo = std::min(lo, at(i, d)), hi = std::max(hi, at(i, d));
            extent[d] = hi - lo;
        }
        axis = (int)(std::max_element(extent.begin(), extent.end()) - extent.begin());
        for (int d = 0; d < p.dim; d++)
            if (d != axis && !(extent[d] < extent[axis] * (1 - 1e-5L))) return false;
        return true;
    }
    void cut(const Cluster<C> &c, const string &me) {
        int axis = 0;
        if (s.dir) {
            if (!single_axis(c, axis)) return;
            vector<long double> e(p.dim, 0);
            e[axis] = 1;
            ordered(c, me, e, 0, "axis of largest extent");
            if (s.split) {
                vector<C> v;
                for (int i = c.get_offset(); i < c.get_offset() + c.get_size(); i++) v.push_back(at(i, axis));
                std::sort(v.begin(), v.end());
                auto &ch         = c.get_children();
                int k            = (int)ch.size();
                vector<int> want = slabs(v, k);
                bool equal       = want.empty();
                if (equal) {
                    want.assign(k, c.get_size() / k);
                    want.back() = c.get_size() - (k - 1) * want[0];
                }
                for (int q = 0; q < k; q++)
                    if (ch[q]->get_size() != want[q]) bad("sizes", cat("child ", q, " of ", me, " has ", ch[q]->get_size(), " points instead of ", want[q], equal ? ", an equal part" : ", a slab of equal width"));
            }
            sim::count("cuts_axis");
            return;
        }
        // principal axis, by Jacobi rotations
        int D = p.dim;
        long double cov[3][3] = {}, vec[3][3] = {}, mid[3] = {}, total = 0;
        for (int i = c.get_offset(); i < c.get_offset() + c.get_size(); i++) {
            long double w = s.wei ? p.weights[perm[i]] : C(1);
            total += w;
            for (int d = 0; d < D; d++) mid[d] += w * at(i, d);
        }
        for (int d = 0; d < D; d++) mid[d] /= total, vec[d][d] = 1;
        for (int i = c.get_offset(); i < c.get_offset() + c.get_size(); i++) {
            long double w = s.wei ? p.weights[perm[i]] : C(1);
            for (int d = 0; d < D; d++)
                for (int e = 0; e < D; e++) cov[d][e] += w * (at(i, d) - mid[d]) * (at(i, e) - mid[e]);
        }
        for (int sweep = 0; sweep < 60; sweep++)
            for (int a = 0; a < D; a++)
                for (int b = a + 1; b < D; b++) {
                    if (!(std::abs(cov[a][b]) > 1e-30L * (std::abs(cov[a][a]) + std::abs(cov[b][b])))) continue;
                    long double th = 0.5L * std::atan2(2 * cov[a][b], cov[a][a] - cov[b][b]), co = std::cos(th), si = std::sin(th);
                    for (int k = 0; k < D; k++) {
                        long double x = cov[k][a], y = cov[k][b];
                        cov[k][a] = co * x + si * y, cov[k][b] = co * y - si * x;
                        x = vec[k][a], y = vec[k][b];
                        vec[k][a] = co * x + si * y, vec[k][b] = co * y - si * x;
                    }
                    for (int k = 0; k < D; k++) {
                        long double x = cov[a][k], y = cov[b][k];
                        cov[a][k] = co * x + si * y, cov[b][k] = co * y - si * x;
                    }
                }
        int best = 0;
        for (int d = 0; d < D; d++)
            if (cov[d][d] > cov[best][best]) best = d;
        long double large = cov[best][best], second = 0, eps = std::numeric_limits<C>::epsilon();
        for (int d = 0; d < D; d++)
            if (d != best) second = std::max(second, cov[d][d]);
        // both ways round; the points of a cluster may be cancelled by their distance to the origin
        long double far = 0, lo = 0, hi = 0;
        vector<long double> dir(D), opp(D);
        for (int d = 0; d < D; d++) dir[d] = vec[d][best], opp[d] = -dir[d];
        for (int i = c.get_offset(); i < c.get_offset() + c.get_size(); i++) {
            long double v = 0;
            for (int d = 0; d < D; d++) v += dir[d] * (at(i, d) - mid[d]), far = std::max(far, std::abs((long double)at(i, d)));
            lo = std::min(lo, v), hi = std::max(hi, v);
        }
        if (!(far * eps * c.get_size() < 1e-4L * (hi - lo))) return;
        // whichever the direction, the points are as spread along it as they can be
        vector<C> found;
        {
            Live l;
            found = htool::ComputeLargestExtent<C>().compute_direction(&c, perm, D, p.x.data(), nullptr, weights.data());
        }
        long double length = 0, spread = 0;
        for (int d = 0; d < D; d++) length += (long double)found[d] * found[d];
        for (int i = c.get_offset(); i < c.get_offset() + c.get_size(); i++) {
            long double v = 0;
            for (int d = 0; d < D; d++) v += found[d] * (at(i, d) - mid[d]);
            spread += weights[perm[i]] * v * v;
        }
        if (!(std::abs(length - 1) < 1e-2L)) bad("direction", cat("the direction found for ", me, " has the norm ", (double)std::sqrt(length)));
        if (!(spread > 0.98L * large)) bad("direction", cat("the points of ", me, " have the spread ", (double)spread, " along the direction found and ", (double)large, " along their principal axis"));
        sim::count("directions");
        if (!(large - second > 0.1L * large)) return;
        auto &ch = c.get_children();
        long double first = 0, last = 0;
        for (int d = 0; d < D; d++) first += dir[d] * (ch.front()->get_center()[d] - mid[d]), last += dir[d] * (ch.back()->get_center()[d] - mid[d]);
        ordered(c, me, first <= last ? dir : opp, 0.1L * (hi - lo), "principal axis");
        sim::count("cuts_principal");
    }
    // whether the parts can be made with parts of equal size
    static bool feasible(const Settings &s, int n) {
        int depth = 1, k = s.P, extra = 0, size = n, whole = 1;
        if (s.P >= s.nchild) {
            depth = 0, k = s.nchild;
            for (long long q = 1; q * s.nchild <= s.P; q *= s.nchild) depth++, whole *= s.nchild;
            extra = s.P - whole;
        }
        // the first cluster of each level is the smallest, but the last one of the last level is cut into more
        vector<int> level = {n};
        for (int d = 0; d < depth; d++) {
            vector<int> next;
            for (size_t q = 0; q < level.size(); q++) {
                int w = d == depth - 1 ? k + (q + 1 == level.size() ? extra : 0) : s.nchild;
                if (!(level[q] / w > s.mcs)) return false;
                for (int j = 0; j < w; j++) next.push_back(j + 1 < w ? level[q] / w : level[q] - (level[q] / w) * (w - 1));
            }
            level = next;
        }
        (void)size;
        return true;
    }
    void check() {
        vector<char> seen(p.n, 0);
        if (root.get_offset() != 0 || root.get_size() != p.n) bad("root", "the root does not contain all points");
        if ((int)perm.size() != p.n) bad("permutation", "the permutation has not one index for each point");
        for (int i : perm) {
            if (i < 0 || i >= p.n || seen[i]) bad("permutation", "the permutation is not a bijection");
            seen[i] = 1;
        }
        if (root.is_permutation_local() != (s.given != 0)) bad("local permutation", "the permutation is local if and only if the partition is given");
        if (s.given)
            for (int q = 0; q < s.P; q++)
                for (int i = 0; i < s.part[2 * q + 1]; i++) {
                    int j = perm[s.part[2 * q] + i];
                    if (j < s.part[2 * q] || j >= s.part[2 * q] + s.part[2 * q + 1]) bad("local permutation", cat("the permutation moves a point in or out of part ", q));
                }
        auto &parts_ = root.get_clusters_on_partition();
        if (complete && (int)parts_.size() != s.P) bad("partition", cat("a partition of ", s.P, " parts was asked for, ", parts_.size(), " were made"));
        node(root, 0, -1, nullptr);
        if (complete && parts != s.P) bad("partition", cat(parts, " of ", s.P, " parts are in the tree"));
        if (complete && (root.get_maximal_depth() != deepest || root.get_minimal_depth() != shallowest)) bad("depths", cat("the leaves are at depths ", shallowest, " to ", deepest, ", the tree says ", root.get_minimal_depth(), " to ", root.get_maximal_depth()));
        if ((int)root.get_minclustersize() != s.mcs) sim::violate_unless_known("clusters", "minimal cluster size", cat("the tree was built with a minimal cluster size of ", s.mcs, " and says ", root.get_minclustersize()));
    }
};

template <class C>
static void convert(const Slot<C> &s, const Cloud<C> &p, int64_t seed, LogWriter &log) {
    using T        = std::complex<C>;
    const auto &t  = *s.tree;
    const auto &pm = t.get_permutation();
    vector<T> in(p.n), out(p.n, T(-7)), back(p.n, T(-7)), want(p.n);
    for (int i = 0; i < p.n; i++) in[i] = T(hash01(seed, i, 1), i);
    auto same = [&](const vector<T> &a, const vector<T> &b, const char *what) {
        for (int i = 0; i < p.n; i++)
            if (!bits_equal(&a[i], &b[i], 1)) sim::violate("conversion", what, cat(what, " gives ", a[i].real(), "+", a[i].imag(), "i for index ", i, " instead of ", b[i].real(), "+", b[i].imag(), "i"));
    };
    auto in0 = in;
    auto errors = [&] { return log.by_fiber.count(sim::fiber_id()) ? log.by_fiber[sim::fiber_id()] : 0; };
    int e0      = errors();
    for (int i = 0; i < p.n; i++) want[i] = in[pm[i]];
    {
        Live l;
        htool::global_to_root_cluster(t, in.data(), out.data());
        htool::root_cluster_to_global(t, out.data(), back.data());
    }
    same(out, want, "global_to_root_cluster");
    same(back, in, "root_cluster_to_global");
    std::fill(out.begin(), out.end(), T(-7)), std::fill(back.begin(), back.end(), T(-7));
    {
        Live l;
        htool::user_to_cluster(t, in.data(), out.data());
        htool::cluster_to_user(t, out.data(), back.data());
    }
    same(out, want, "user_to_cluster");
    same(back, in, "cluster_to_user");
    if (s.ok && t.is_permutation_local())
        for (int way = 0; way < 2; way++) {
            std::fill(out.begin(), out.end(), T(-7)), std::fill(back.begin(), back.end(), T(-7));
            for (int q = 0; q < s.s.P; q++) {
                auto part = t.get_clusters_on_partition()[q];
                int o     = part->get_offset();
                Live l;
                if (way) {
                    htool::user_to_cluster(*part, in.data() + o, out.data() + o);
                    htool::cluster_to_user(*part, out.data() + o, back.data() + o);
                } else {
                    htool::local_to_local_cluster(t, q, in.data() + o, out.data() + o);
                    htool::local_cluster_to_local(t, q, out.data() + o, back.data() + o);
                }
            }
            same(out, want, way ? "user_to_cluster of the parts" : "local_to_local_cluster");
            same(back, in, way ? "cluster_to_user of the parts" : "local_cluster_to_local");
        }
    same(in, in0, "input of the conversions");
    if (errors() != e0) sim::violate("conversion", "spurious report", "an error is reported for a supported conversion: " + log.last);
    // conversions that the numbering does not allow are reported
    if (s.ok && s.s.P > 1 && !t.is_permutation_local()) {
        int q     = (int)((uint64_t)seed % s.s.P);
        auto part = t.get_clusters_on_partition()[q];
        if (part->get_size() == p.n || part == &t) return;
        // the permutation leaves the part, so these write elsewhere in a vector of the whole size
        vector<T> wide(3 * p.n), out2(3 * p.n);
        int ways = 2;
        for (int way = 0; way < ways; way++) {
            int e = errors();
            {
                Live l;
                if (way)
                    htool::user_to_cluster(*part, wide.data() + p.n, out2.data() + p.n);
                else
                    htool::cluster_to_user(*part, wide.data() + p.n, out2.data() + p.n);
            }
            if (errors() == e) sim::violate("conversion", "unreported", "a conversion within a part whose numbering is not local was not reported");
            e = errors();
            {
                Live l;
                if (way)
                    htool::local_to_local_cluster(t, q, wide.data() + p.n, out2.data() + p.n);
                else
                    htool::local_cluster_to_local(t, q, wide.data() + p.n, out2.data() + p.n);
            }
            if (errors() == e) sim::violate("conversion", "unreported", "a local conversion was not reported although the numbering is not local");
        }
    }
}

// symmetric clouds, whose direction of largest extent is ambiguous or is exactly an axis, and other units of length
template <class C>
static void reshape(Cloud<C> &p, Rng &r) {
    int kind = r.chance(0.6) ? 0 : 1 + (int)r.below(4), D = p.dim;
    auto x   = [&](int i, int d) -> C & { return p.x[(size_t)i * D + d]; };
    if (kind == 1) { // lattice of the reference simplex, in the plane x + y + z = k
        int k = 1;
        while ((k + 1) * (k + 2) / 2 < p.n) k++;
        for (int i = 0, a = 0, b = 0; i < p.n; i++) {
            x(i, 0) = a, x(i, 1) = b;
            if (D == 3) x(i, 2) = k - a - b;
            if (++b > k - a) a++, b = 0;
        }
    } else if (kind == 2) { // box of a lattice, with the largest side along any axis
        int side[3] = {1, 1, 1};
        for (int d = (int)r.below(D); side[0] * side[1] * side[2] < p.n; d = r.chance(0.5) ? d : (int)r.below(D)) side[d]++;
        for (int i = 0; i < p.n; i++)
            for (int d = 0, rest = i; d < D; rest /= side[d++]) x(i, d) = rest % side[d];
    } else if (kind == 3) { // regular polygons, in an oblique plane
        for (int i = 0; i < p.n; i++) {
            C t = 2 * std::acos(C(-1)) * i / p.n, u = std::cos(t), v = std::sin(t);
            x(i, 0) = u - v, x(i, 1) = u + v;
            if (D == 3) x(i, 2) = 2 * u;
        }
    } else if (kind == 4) // copies of the same point, or of a few
        for (int i = (int)r.below(4) + 1; i < p.n; i++)
            for (int d = 0; d < D; d++) x(i, d) = x(i % ((int)r.below(3) + 1), d);
    if (r.chance(0.3)) {
        C unit = std::pow(C(10), (C)((int)r.below(13) - 6));
        for (auto &y : p.x) y *= unit;
        for (auto &y : p.radii) y *= unit;
    }
    if (r.chance(0.2))
        for (int d = 0; d < D; d++) {
            C by = (C)(10 * r.sym());
            for (int i = 0; i < p.n; i++) x(i, d) += by;
        }
}
template <class C>
static void run_t(const Case &c) {
    LogCapture log;
    int K = std::max<int64_t>(1, c["callers"]), NC = std::max<int64_t>(1, c["clouds"]);
    uint64_t seed = (uint64_t)c["wseed"];
    vector<Cloud<C>> clouds(NC);
    vector<C> ones;
    for (int q = 0; q < NC; q++) {
        auto &p = clouds[q];
        Rng r(seed + 100 * q);
        p.n   = 1 + (int)r.below(std::max<int64_t>(1, c["maxn"]));
        p.dim = 2 + (int)r.below(2);
        for (double y : make_points(r.below(GEOMS), p.dim, p.n, seed + q + 1, r.sym())) p.x.push_back((C)y);
        reshape(p, r);
        for (int i = 0; i < p.n; i++) p.weights.push_back((C)(0.5 + r.uniform())), p.radii.push_back((C)(0.1 * r.uniform()));
        ones.resize(std::max<size_t>(ones.size(), p.n), 1);
        p.x0 = p.x, p.weights0 = p.weights, p.radii0 = p.radii;
    }
    // strategies have no state: callers may share them
    std::shared_ptr<htool::VirtualDirectionComputationStrategy<C>> dirs[2] = {std::make_shared<htool::ComputeLargestExtent<C>>(), std::make_shared<htool::ComputeBoundingBox<C>>()};
    std::shared_ptr<htool::VirtualSplittingStrategy<C>> splits[2]          = {std::make_shared<htool::RegularSplitting<C>>(), std::make_shared<htool::GeometricSplitting<C>>()};
    auto configure = [&](htool::ClusterTreeBuilder<C> &b, const Settings &s, const Settings *now) { // only what changed
        if (!now || now->mcs != s.mcs) b.set_minclustersize(s.mcs);
        if (!now || now->dir != s.dir) b.set_direction_computation_strategy(dirs[s.dir]);
        if (!now || now->split != s.split) b.set_splitting_strategy(splits[s.split]);
    };
    // loads the lazily allocated parts of the library
    int64_t base = sim::live_blocks();
    {
        vector<std::unique_ptr<Caller<C>>> callers;
        for (int k = 0; k < K; k++) callers.push_back(std::make_unique<Caller<C>>());
        auto work = [&](int k) {
            sim::Quiet quiet;
            auto &me = *callers[k];
            for (auto &op : c.ops) {
                if (op.size() != 7 || op[0] % K != k) continue;
                int kind = (int)(op[1] % KINDS), q = (int)(op[2] % NC);
                auto &p   = clouds[q];
                auto &slot = me.slot[op[6] & 1];
                if (kind == CONVERT) {
                    if (!slot.tree || !slot.ok) continue;
                    sim::context("conversions between numberings");
                    convert(slot, clouds[slot.cloud], op[3], *log.w);
                    sim::count("conversions");
                    continue;
                }
                Settings s = settings_of(op[3], op[4], p.n);
                sim::context(kind == FRESH ? "clustering with a new builder" : "clustering with a used builder");
                string exc;
                std::unique_ptr<Cluster<C>> got;
                bool faulty = op[5] && K == 1;
                int e0      = log.w->no_partition[sim::fiber_id()], e1 = log.w->by_fiber[sim::fiber_id()];
                if (faulty) {
                    sim::alloc_reset();
                    sim::AllocPlan a;
                    a.fail_at = op[5] - 1;
                    sim::alloc_plan(a);
                }
                try {
                    Live l;
                    if (kind == FRESH || !me.builder) {
                        me.builder = std::make_unique<htool::ClusterTreeBuilder<C>>();
                        configure(*me.builder, s, nullptr);
                    } else
                        configure(*me.builder, s, &me.now);
                    me.now = s;
                    got.reset(new Cluster<C>(build(*me.builder, p, s, op[4] & 4)));
                } catch (const std::bad_alloc &) {
                    exc = "bad_alloc";
                }
                if (faulty) sim::alloc_plan(sim::AllocPlan());
                if (!exc.empty()) {
                    if (!faulty || !sim::alloc_fired()) sim::violate("exception", "bad_alloc without a failed allocation", "clustering raised an allocation error although none failed");
                    sim::count("failed_builds");
                    if (!me.builder) continue;
                    Live l;
                    configure(*me.builder, s, nullptr);
                    me.now = s;
                    got.reset(new Cluster<C>(build(*me.builder, p, s, op[4] & 4))); // once the fault is gone
                }
                if (log.w->by_fiber[sim::fiber_id()] != e1) sim::violate("clusters", "spurious report", "an error is reported for a clustering that is supported: " + log.w->last);
                bool refused = log.w->no_partition[sim::fiber_id()] > e0;
                bool made    = (int)got->get_clusters_on_partition().size() == s.P;
                for (auto x : got->get_clusters_on_partition()) made = made && x;
                if (!made && !refused) sim::violate("clusters", "partition", cat("a partition of ", s.P, " parts could not be made and nothing was reported"));
                if (!made && !s.given && !s.split && Checker<C>::feasible(s, p.n)) bad("partition refused", cat("a partition of ", s.P, " parts of ", p.n, " points in ", s.nchild, " children with more than ", s.mcs, " points was refused"));
                if (made && refused && exc.empty()) sim::violate("clusters", "spurious report", "a partition was made and an error was reported");
                Checker<C>{p, s, *got, got->get_permutation(), s.wei ? p.weights : ones, made}.check();
                // the same as what a new builder makes of the same arguments
                {
                    htool::ClusterTreeBuilder<C> b;
                    configure(b, s, nullptr);
                    Cluster<C> ref = build(b, p, s, false);
                    auto &pr = ref.get_clusters_on_partition(), &pg = got->get_clusters_on_partition();
                    string d;
                    if (made)
                        d = cluster_difference(ref, *got);
                    else
                        d = pr.size() != pg.size() ? "another part of the partition was made" : tree_difference(ref, *got);
                    if (!d.empty()) sim::violate("history", "cluster tree", "the tree is not the one a new builder makes: " + d);
                }
                if (op[4] & 8) { // into another object, after which the first one is gone
                    std::unique_ptr<Cluster<C>> other;
                    {
                        Live l;
                        other.reset(new Cluster<C>(std::move(*got)));
                        got = std::move(other);
                    }
                    Checker<C>{p, s, *got, got->get_permutation(), s.wei ? p.weights : ones, made}.check();
                }
                {
                    Live l;
                    slot.tree = std::move(got);
                }
                slot.s = s, slot.cloud = q, slot.ok = made;
                sim::count(made ? "trees" : "refused_partitions");
            }
        };
        if (K == 1)
            work(0);
        else {
            vector<std::function<void()>> fs;
            for (int k = 0; k < K; k++) fs.push_back([&, k] { work(k); });
            sim::run_threads(fs);
            sim::count("concurrent_callers");
        }
        for (auto &p : clouds)
            if (p.x != p.x0 || p.radii != p.radii0 || p.weights != p.weights0) sim::violate("inputs", "points", "the points, radii or weights were changed");
        sim::context("destroying the trees");
        Live l;
        for (auto &k : callers) {
            for (auto &s : k->slot) s.tree.reset();
            k->builder.reset();
        }
    }
    if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of cluster trees", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    if (c.ops.size() > 1) sim::count("nontrivial");
}
static void run_trees(const Case &c) {
    sim::configure(sim::config_from(c));
    if (c["float"])
        run_t<float>(c);
    else
        run_t<double>(c);
}
static const sim::Driver d1{"trees", gen_trees, run_trees};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
