// Files written and read by the library on the simulated disk (S01: vectors and matrices).
#include "faults.hpp"
using namespace drv;

// ---------------------------------------------------------------- S01
template <class T>
struct Pool {
    vector<T> v[2];
    Matrix<T> m[2];
    vector<T> ext[2]; // memory of the user behind a matrix that does not own it
};
struct Caller {
    Pool<double> d;
    Pool<Cplx> c;
    Pool<int> i;
    void pick(Pool<double> *&p) { p = &d; }
    void pick(Pool<Cplx> *&p) { p = &c; }
    void pick(Pool<int> *&p) { p = &i; }
};
template <class T>
T value(uint64_t seed, int64_t k) { return make<T>(4 * hash01(seed, k, 1) - 2, 4 * hash01(seed, k, 2) - 2); }
template <>
int value<int>(uint64_t seed, int64_t k) { return (int)(100000 * hash01(seed, k, 1)) - 50000; }
template <class T>
static string image(const vector<int> &head, const T *a, size_t n) {
    string s((const char *)head.data(), head.size() * sizeof(int));
    s.append((const char *)a, n * sizeof(T));
    return s;
}
// what a file holds, read independently; false: not a complete image
template <class T>
static bool parse(const string &s, int heads, vector<int> &h, vector<T> &a) {
    if (s.size() < heads * sizeof(int)) return false;
    h.resize(heads);
    memcpy(h.data(), s.data(), heads * sizeof(int));
    int64_t n = 1;
    for (int x : h) {
        if (x < 0) return false;
        n *= x;
    }
    if (s.size() < heads * sizeof(int) + n * sizeof(T)) return false;
    a.resize(n);
    if (n) memcpy((void *)a.data(), s.data() + heads * sizeof(int), n * sizeof(T));
    return true;
}
enum { V_SAVE,
       V_LOAD,
       V_SAVEM,
       V_LOADM,
       V_TRUNC,
       V_VIEW,
       V_OPS };
static void gen_vecmat(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    c.fix("wseed", (int64_t)(r.next() >> 2));
    int callers = r.chance(0.6) ? 1 : 2 + r.below(2);
    c.set("callers", callers, 1);
    c.set("rough", r.chance(0.4), 0);
    c.set("hard", callers > 1 && r.chance(0.4) ? 2 + (int)r.below(3) : 0, 0); // one fault for all callers
    c.set("hardarg", r.below(1 << 20), 0);
    int n = 3 + r.below(tier ? 16 : 9);
    double pf = r.chance(0.3) ? 0 : 0.5;
    for (int i = 0; i < n; i++) {
        int64_t kind = r.below(10);
        kind         = kind < 3 ? V_SAVE : kind < 5 ? V_LOAD : kind < 7 ? V_SAVEM : kind < 8 ? V_LOADM : kind < 9 ? V_TRUNC : V_VIEW;
        int64_t big  = r.chance(0.2) ? 2500 : 60;
        c.ops.push_back({kind, (int64_t)r.below(callers), (int64_t)r.below(2), (int64_t)r.below(3), (int64_t)(r.chance(0.1) ? 0 : r.below(big)), (int64_t)(r.chance(0.1) ? 0 : 1 + r.below(9)), (int64_t)r.below(1000000), r.chance(pf) ? (int64_t)r.below(FAULTS) : 0, (int64_t)r.below(4000)});
        // look at what was just written more often than not
        if ((kind == V_SAVE || kind == V_SAVEM || kind == V_TRUNC) && r.chance(0.6)) {
            auto o = c.ops.back();
            o[0]   = kind == V_SAVEM || (kind == V_TRUNC && r.chance(0.5)) ? V_LOADM : V_LOAD;
            o[2]   = r.below(2);
            o[7]   = r.chance(pf / 2) ? (int64_t)r.below(FAULTS) : 0;
            o[8]   = r.below(4000);
            c.ops.push_back(o);
        }
    }
}
// file f of caller k; heads tells how the file was last written (1 vector, 2 matrix), the type likewise
struct FileTag {
    int heads = 0, type = 0;
};
template <class T>
static void vecmat_op(const Case &c, Caller &ca, const vector<int64_t> &o, FileTag &tag, bool alone) {
    Pool<T> *p;
    ca.pick(p);
    int64_t kind = o[0], slot = o[2] & 1, n = o[4], fault = o[7];
    string path = cat("/simdisk/", o[1], "-", o[5] & 1);
    int type    = (int)o[3];
    if (kind == V_TRUNC) {
        if (!sim::disk_exists(path)) return;
        string s = sim::disk_read(path);
        sim::disk_write(path, s.substr(0, s.empty() ? 0 : o[6] % (s.size() + 1)));
        return;
    }
    if (kind == V_VIEW) { // a matrix that looks at memory of the user
        int64_t k = 1 + n % 30;
        vector<T> old;
        old.swap(p->ext[slot]); // returned once nothing looks at it
        p->ext[slot].assign(k, value<T>(o[6], 7));
        Live l;
        p->m[slot].assign((int)k, 1, p->ext[slot].data(), false);
        return;
    }
    if (kind == V_LOAD && tag.heads != 1) return;
    if (kind == V_LOADM && tag.heads != 2) return;
    if ((kind == V_LOAD || kind == V_LOADM) && tag.type != type) return;
    vector<T> ext[2] = {p->ext[0], p->ext[1]};
    if (alone) arm((int)fault, o[8], c["rough"]);
    int rc      = 0;
    bool thrown = false;
    auto call   = [&](auto f) {
        try {
            Live l;
            rc = f();
        } catch (const std::bad_alloc &) {
            sim::Quiet q;
            thrown = true;
        }
        if (thrown && !sim::alloc_fired()) sim::violate("exception", "bad_alloc without a failed allocation", sim::context() + ": an allocation error was raised although none failed");
    };
    if (kind == V_SAVE || kind == V_SAVEM) {
        bool mat = kind == V_SAVEM;
        sim::context(mat ? "saving a matrix" : "saving a vector");
        int rows = (int)n, cols = 1;
        if (mat) cols = (int)o[5], rows = (int)(n % 300);
        vector<T> want((size_t)rows * cols);
        for (size_t i = 0; i < want.size(); i++) want[i] = value<T>(o[6], i);
        string img, before = sim::disk_read(path);
        {
            Matrix<T> m;
            if (mat) {
                Matrix<T> m0(rows, cols);
                if (!want.empty()) std::copy(want.begin(), want.end(), m0.data());
                m   = m0;
                img = image<T>({rows, cols}, want.data(), want.size());
            } else
                img = image<T>({rows}, want.data(), want.size());
            vector<T> arg = want;
            call([&] { return mat ? m.matrix_to_bytes(path) : htool::vector_to_bytes(arg, path); });
            const T *left = mat ? m.data() : arg.data();
            if (!bits_equal(left, want.data(), want.size())) sim::violate("side-effect", "saving changed the object", "the object saved has other coefficients afterwards");
        }
        bool ok   = !thrown && rc == 0;
        if (ok && sim::disk_read(path) != img) sim::violate_unless_known("lost-data", mat ? "matrix saved with success" : "vector saved with success", cat("saving returned 0 but the file holds ", sim::disk_read(path).size(), " bytes that are not the ", img.size(), " expected"));
        if (!ok && !hard()) sim::violate("spurious-failure", mat ? "matrix save" : "vector save", cat("saving returned ", rc, " without any fault"));
        if (ok) sim::count("saves");
        else sim::count("failed_saves");
        if (alone && fault == F_CRASH) {
            if (sim::disk_fired()) sim::count("crashes_in_save");
            sim::disk_crash();
        }
        bool untouched = alone && fault == F_CRASH ? o[8] % 9 == 0 : !ok && sim::disk_read(path) == before; // the open never happened
        if (!untouched) tag.heads = mat ? 2 : 1, tag.type = type;
    } else {
        bool mat = kind == V_LOADM;
        sim::context(mat ? "loading a matrix" : "loading a vector");
        vector<int> h;
        vector<T> want;
        bool there = sim::disk_exists(path), whole = there && parse<T>(sim::disk_read(path), tag.heads, h, want);
        call([&] { return mat ? p->m[slot].bytes_to_matrix(path) : htool::bytes_to_vector(p->v[slot], path); });
        bool ok = !thrown && rc == 0;
        const T *got = mat ? p->m[slot].data() : p->v[slot].data();
        size_t n     = mat ? (size_t)p->m[slot].nb_rows() * p->m[slot].nb_cols() : p->v[slot].size();
        if (n && (!got || !sim::addressable(got, n * sizeof(T)))) sim::violate_unless_known("invalid-object", mat ? "matrix after a load" : "vector after a load", "the object loaded into has sizes beyond its memory");
        if (ok && !whole) sim::violate_unless_known("undetected", mat ? "incomplete matrix file" : "incomplete vector file", cat("loading a file ", there ? "that is cut short" : "that does not exist", " returned 0"));
        if (ok && whole) {
            bool same = mat ? p->m[slot].nb_rows() == h[0] && p->m[slot].nb_cols() == h[1] : (int)n == h[0];
            if (!same || !bits_equal(got, want.data(), want.size())) sim::violate_unless_known("wrong-data", mat ? "matrix loaded" : "vector loaded", "loading returned 0 but the object is not what the file holds");
            sim::count("loads");
        }
        if (!ok && whole && !hard()) sim::violate("spurious-failure", mat ? "matrix load" : "vector load", cat("loading an intact file returned ", rc, " without any fault"));
        if (!ok) sim::count("failed_loads");
    }
    for (int e = 0; e < 2; e++) if (!bits_equal(p->ext[e].data(), ext[e].data(), ext[e].size())) sim::violate("side-effect", "memory of the user changed", "a load changed memory that belongs to the user");
    if (alone) disarm();
}
static void run_vecmat(const Case &c) {
    sim::configure(sim::config_from(c));
    sim::disk_reset();
    LogCapture log;
    int K = std::max<int64_t>(1, c["callers"]);
    vector<std::unique_ptr<Caller>> ca(K);
    vector<FileTag> tags(2 * K);
    int done = 0;
    auto work = [&](int k, bool alone) {
        for (auto &op : c.ops) {
            sim::Quiet q;
            vector<int64_t> o = op;
            if (o.size() != 9) continue;
            o[1] %= K;
            if (o[1] != k) continue;
            FileTag &t = tags[2 * k + (o[5] & 1)];
            if (o[3] == 0) vecmat_op<double>(c, *ca[k], o, t, alone);
            else if (o[3] == 1) vecmat_op<Cplx>(c, *ca[k], o, t, alone);
            else vecmat_op<int>(c, *ca[k], o, t, alone);
            done++;
        }
    };
    for (int k = 0; k < K; k++) ca[k].reset(new Caller());
    if (K == 1)
        work(0, true);
    else {
        arm((int)c["hard"], c["hardarg"], c["rough"]);
        vector<std::function<void()>> fs;
        for (int k = 0; k < K; k++) fs.push_back([&, k] { work(k, false); });
        sim::run_threads(fs);
        disarm();
        sim::count("concurrent_callers");
    }
    sim::context("destroying the objects");
    {
        Live l;
        ca.clear();
    }
    if (sim::live_blocks() != 0) sim::violate_unless_known("leak", "memory of vectors and matrices", cat(sim::live_blocks(), " blocks of memory were never returned"));
    if (done > 1) sim::count("nontrivial");
}

static const sim::Driver d1{"vecmat", gen_vecmat, run_vecmat};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
