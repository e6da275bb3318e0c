// Messages logged by concurrent callers, by the tasks of a parallel region and by the library itself (L01).
#include "common.hpp"
#include <iostream>
using namespace drv;

// What the program writes on its standard output: every insertion arrives whole, others may come in between.
struct CoutText : std::streambuf {
    string text;
    int calls = 0;
    std::streambuf *old;
    CoutText() : old(std::cout.rdbuf(this)) {}
    ~CoutText() { std::cout.rdbuf(old); }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        sim::point("standard output");
        sim::Quiet q;
        text.append(s, (size_t)n);
        calls++;
        return n;
    }
    int overflow(int ch) override {
        sim::point("standard output");
        sim::Quiet q;
        if (ch != EOF) text += (char)ch;
        calls++;
        return ch == EOF ? 0 : ch;
    }
};
typedef std::pair<unsigned, string> Message;
struct Recorder : htool::IObjectWriter { // a writer of the user
    vector<Message> got;
    vector<unsigned> levels; // it was asked for
    void set_log_level(htool::LogLevel l) override {
        sim::Quiet q;
        levels.push_back((unsigned)l);
    }
    void write(htool::LogLevel l, const string &m) override {
        sim::point("writer");
        sim::Quiet q;
        got.push_back({(unsigned)l, m});
    }
};
static const unsigned LEVELS[]  = {0, 10, 20, 30, 40};
static const char *const TEXT[] = {"[Htool critical] ", "[Htool error]    ", "[Htool warning]  ", "[Htool debug]    ", "[Htool info]     "};
static string text_of(const Message &m) { return TEXT[m.first / 10] + m.second; }
// A kernel whose coefficients vanish on some rows: the compressors warn about them.
template <class T>
struct Sparse : htool::VirtualGenerator<T> {
    uint64_t seed;
    int percent;
    Sparse(uint64_t s, int p) : seed(s), percent(p) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        sim::point("generator");
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = (int)(100 * hash01(seed, rows[i] / 3, 1)) < percent ? T(0) : T(1. / (1 + std::abs(rows[i] - cols[j])));
    }
};
enum { M_LOG, M_PRODUCT, M_COPY, M_ASSEMBLE, MKINDS };

static void gen_messages(Case &c, Rng &r, int tier) {
    sim::gen_sched(c, r);
    gen_problem(c, r, tier ? 80 : 50, 1);
    c.fix("same", 1);
    gen_builder(c, r);
    c.set("sym", 1 + r.below(2), 0);
    int callers = 1 + (int)r.below(4);
    c.set("callers", callers, 1);
    for (int k = 0; k < callers; k++) c.set(cat("threads", k), 1 + (int)r.below(3), 1);
    c.set("zeros", r.below(90), 0);
    c.set("writer", r.chance(0.35), 0);
    c.set("phases", 1 + r.below(2), 1);
    for (int i = 0; i < 2; i++) c.set(cat("level", i), r.chance(0.2) ? -1 : (int)r.below(10), -1); // < 5: as a LogLevel, otherwise as a number
    int n = 1 + (int)r.below(tier ? 24 : 12);
    // {caller, phase, kind, level, text, failing allocation}
    for (int i = 0; i < n; i++)
        c.ops.push_back({(int64_t)r.below(callers), (int64_t)r.below(2), r.chance(0.7) ? 0 : (int64_t)r.below(MKINDS), (int64_t)r.below(5), (int64_t)(r.next() >> 40), r.chance(0.1) ? (int64_t)r.below(5) : -1});
}
static void run_messages(const Case &c) {
    sim::configure(sim::config_from(c));
    dispatch(c, [&](auto t) {
        using T = decltype(t);
        using H = HMatrix<T, RealOf<T>>;
        Problem<T> p(c);
        BuildOpts o = BuildOpts::from(c, p);
        if (o.comp < 2 || o.comp > 3) o.comp = 2 + (int)((uint64_t)c["wseed"] & 1);
        Sparse<T> zeros((uint64_t)c["wseed"], (int)c["zeros"]);
        auto build = [&](const htool::VirtualGenerator<T> &g) { return make_builder(o, p, c["wseed"]).build(g); };
        auto &log  = htool::Logger::get_instance();
        auto quiet = std::make_shared<Recorder>();
        log.set_current_writer(quiet);
        H shared = build(p.gen);
        int K    = std::max<int64_t>(1, c["callers"]);
        bool un  = o.sym == 'H' || is_cplx<T>::value; // with an operation that is refused
        char tr  = o.sym == 'H' ? 'T' : 'C';
        struct Op {
            int caller, phase, kind, fail;
            Message direct;
            vector<Message> want;
            vector<T> x, y;
            bool failed = false;
        };
        vector<Op> ops;
        auto perform = [&](Op &op, bool number) {
            switch (op.kind) {
            case M_LOG: log.log((htool::LogLevel)op.direct.first, op.direct.second); break;
            case M_PRODUCT:
                if (number) htool::sequential_internal_add_hmatrix_vector_product(tr, T(1), shared, op.x.data(), T(0), op.y.data());
                else htool::openmp_internal_add_hmatrix_vector_product(tr, T(1), shared, op.x.data(), T(0), op.y.data());
                break;
            case M_COPY: {
                H a(shared);
                break;
            }
            case M_ASSEMBLE: {
                H a = build(zeros);
                break;
            }
            }
        };
        int index = 0;
        for (auto &v : c.ops) {
            if (v.size() != 6) continue;
            Op op{(int)(v[0] % K), (int)(v[1] & 1), (int)(v[2] % MKINDS), (int)v[5], {}, {}, {}, {}};
            if (op.kind == M_PRODUCT && !un) op.kind = M_LOG;
            if (op.kind != M_LOG || K > 1) op.fail = -1;
            op.direct = {LEVELS[v[3] % 5], cat("message ", index++, " ", string((size_t)v[4] % (v[4] % 7 == 0 ? 3000 : 40), "abcdefghij"[v[4] % 10]))};
            Rng r((uint64_t)v[4]);
            op.x = random_vec<T>(r, p.n), op.y.assign(p.n, T(0));
            // what one caller alone logs
            quiet->got.clear();
            if (op.kind == M_LOG) quiet->got.push_back(op.direct);
            else perform(op, v[4] & 1);
            op.want = quiet->got;
            ops.push_back(op);
            sim::count(vector<const char *>{"direct", "products", "copies", "assembly_messages"}[op.kind], op.want.size());
        }
        int64_t base = sim::live_blocks();
        auto mine    = std::make_shared<Recorder>();
        std::shared_ptr<htool::IObjectWriter> w;
        if (c["writer"]) w = mine;
        else w = std::make_shared<htool::StandartOutputWriter>();
        log.set_current_writer(w);
        CoutText out;
        int level = 10; // errors and worse, unless something else is asked
        for (int ph = 0; ph < c["phases"]; ph++) {
            int64_t l = c[cat("level", ph)];
            if (l >= 0) {
                level = LEVELS[l % 5];
                Live live;
                if (l < 5) log.set_current_log_level((htool::LogLevel)level);
                else log.set_current_log_level((unsigned)level);
            }
            if (l >= 0 && c["writer"] && (mine->levels.empty() || mine->levels.back() != (unsigned)level)) sim::violate("wrong-level", "level", "the writer of the user is not told the level it should use");
            out.text.clear(), mine->got.clear(), mine->levels.clear();
            vector<std::function<void()>> fs;
            for (int k = 0; k < K; k++)
                fs.push_back([&, k] {
                    sim::Quiet q;
                    sim::omp_threads(std::max<int64_t>(1, c[cat("threads", k)]));
                    for (auto &op : ops) {
                        if (op.caller != k || (op.phase != ph && c["phases"] > 1)) continue;
                        sim::context("logging");
                        sim::alloc_reset();
                        if (op.fail >= 0) {
                            sim::AllocPlan a;
                            a.fail_at = op.fail;
                            sim::alloc_plan(a);
                        }
                        try {
                            Live live;
                            perform(op, false);
                        } catch (const std::bad_alloc &) {
                            op.failed = true;
                            if (!sim::alloc_fired()) sim::violate("exception", "bad_alloc without a failed allocation", "logging raised an allocation error although no allocation failed");
                            sim::count("failed");
                        }
                        sim::alloc_plan(sim::AllocPlan());
                    }
                });
            if (K == 1) fs[0]();
            else sim::run_threads(fs);
            // what must have arrived
            std::map<string, int> want, maybe, got;
            vector<vector<string>> order(K);
            for (auto &op : ops)
                if (op.phase == ph || c["phases"] <= 1)
                    for (auto &m : op.want)
                        if (c["writer"] || (int)m.first <= level) {
                            string s = text_of(m);
                            (op.failed ? maybe : want)[s]++;
                            if (op.kind == M_LOG && !op.failed) order[op.caller].push_back(s);
                        }
            std::map<string, size_t> at;
            size_t lines = 0;
            auto line    = [&](const string &s) {
                got[s]++, lines++;
                at[s] = lines;
            };
            if (c["writer"]) {
                for (auto &m : mine->got) {
                    if (m.first > 40 || m.first % 10) sim::violate("wrong-level", "level of a message", "the writer of the user got a level that does not exist");
                    line(text_of(m));
                }
                if (!out.text.empty()) sim::violate("garbled", "standard output with another writer", cat("something appears on the standard output although the user asked for another writer: ", out.text.substr(0, 200)));
            } else {
                size_t b = 0;
                while (b < out.text.size()) {
                    size_t e = out.text.find('\n', b);
                    if (e == string::npos) sim::violate_unless_known("garbled", "end of the output", cat("the last line is not ended: ", out.text.substr(b, 200)));
                    line(out.text.substr(b, e == string::npos ? e : e - b));
                    b = e == string::npos ? out.text.size() : e + 1;
                }
            }
            for (auto &e : got)
                if (e.second > want[e.first] + maybe[e.first]) sim::violate_unless_known(want[e.first] ? "duplicate" : "garbled", "line of the output", cat("'", e.first.substr(0, 300), "' appears ", e.second, " times, it was logged ", want[e.first], " times at a level that is shown"));
            for (auto &e : want)
                if (got[e.first] < e.second) sim::violate_unless_known("lost", "line of the output", cat("'", e.first.substr(0, 300), "' was logged ", e.second, " times and appears ", got[e.first], " times"));
            for (auto &v : order)
                for (size_t i = 1; i < v.size(); i++)
                    if (v[i] != v[i - 1] && at[v[i]] < at[v[i - 1]]) sim::violate_unless_known("order", "messages of one caller", cat("'", v[i].substr(0, 100), "' appears before '", v[i - 1].substr(0, 100), "' although its caller logged it later"));
            sim::count("lines", lines);
            int busy = 0;
            for (int k = 0; k < K; k++) {
                bool b = false;
                for (auto &op : ops) b = b || (op.caller == k && !op.want.empty() && (op.phase == ph || c["phases"] <= 1));
                busy += b;
            }
            if (busy > 1 && lines > 1) sim::count("nontrivial");
        }
        log.set_current_writer(std::make_shared<htool::StandartOutputWriter>());
        if (sim::live_blocks() != base) sim::violate_unless_known("leak", "memory of messages", cat(sim::live_blocks() - base, " blocks of memory were never returned"));
    });
}
static const sim::Driver d1{"messages", gen_messages, run_messages};
const sim::Driver *sim::driver_table[] = {&d1, nullptr};
