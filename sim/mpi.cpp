#include "mpi/mpi.h"
#include "sim_int.h"
#include <algorithm>
#include <complex>
#include <deque>
#include <memory>

using namespace sim;

// ---------------------------------------------------------------- objects
struct Part { // one rank's call of a collective
    bool arrived = false;
    const void *sbuf = nullptr;
    void *rbuf       = nullptr;
    std::vector<long> scount, sdispl, rcount, rdispl; // per peer, in elements
    int stype = 0, rtype = 0, op = 0, root = -1;
    std::string kind;
    int color = 0, key = 0;
    int missing = 0; // messages not received yet
    int untaken = 0; // messages sent whose data was not taken yet
    bool eager  = false;
    std::map<int, std::vector<char>> snap; // eager: outgoing data, buffered on arrival
    Fiber *fiber = nullptr;
    std::vector<char> contrib; // captured reduction contribution
    bool captured = false;
};
struct Coll {
    std::string kind;
    std::vector<Part> parts;
    int arrived = 0, left = 0;
    std::vector<char> result;
    bool result_ready = false;
    std::map<int, MPI_Comm> new_comms;
};
struct Msg {
    int src, tag;
    std::vector<char> data;
    int type;
    bool arrived = false; // reached the destination
    struct sim_request *sreq = nullptr; // rendezvous: completes when received
    const void *sbuf = nullptr;
};
struct sim_request {
    bool send = false, done = false;
    void *buf = nullptr;
    long bytes = 0;
    int peer = 0, tag = 0, type = 0;
    MPI_Status st{};
    Fiber *waiter = nullptr;
    bool coll = false; // a nonblocking collective
    VC vc;             // what happened before its completion
};
struct sim_comm {
    std::vector<int> ranks; // world ranks
    std::map<int, uint64_t> seq; // next collective number per world rank
    std::map<uint64_t, Coll> colls;
    std::map<int, std::deque<std::shared_ptr<Msg>>> inbox; // per destination (comm rank), in send order
    std::map<int, std::deque<sim_request *>> posted;
    std::map<int, std::vector<Fiber *>> probers; // waiting for a message to arrive
    bool world = false, self = false;
    int id = 0;
};
struct sim_comm sim_comm_world, sim_comm_self;

namespace sim {
static int world_size = 0;
static std::vector<int64_t> skew;
static bool init_done = false;
static uint64_t max_delay = 1000;
static int last_comm_id = 2;
static std::map<int, sim_comm> *selfs;
static std::vector<sim_comm *> *split_comms;

int mpi_world_size() { return world_size; }
void mpi_begin(int P, uint64_t maxdelay) {
    SimScope ss;
    world_size = P;
    sim_comm_world = sim_comm();
    sim_comm_world.world = true;
    sim_comm_world.id    = 1;
    for (int i = 0; i < P; i++) sim_comm_world.ranks.push_back(i);
    skew.assign(P, 0);
    for (int i = 0; i < P; i++) skew[i] = (int64_t)choose("mpi.skew", 2000000000u);
    max_delay = maxdelay ? maxdelay : 1;
    init_done = true;
}
static int elem(int t) {
    switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_C_COMPLEX: case MPI_2INT: return 8;
    case MPI_C_DOUBLE_COMPLEX: case MPI_DOUBLE_INT: return 16;
    }
    out_violation("mpi-usage", context(), "unknown MPI datatype " + std::to_string(t));
    return 0;
}
// All ranks have ended: nothing may be left behind in a communicator.
static void idle(sim_comm &c) {
    std::string of = " of communicator " + std::to_string(c.id);
    for (auto &kv : c.inbox)
        if (!kv.second.empty()) out_violation("mpi-usage", context(), "a message from rank " + std::to_string(kv.second[0]->src) + " to rank " + std::to_string(kv.first) + of + " was never received");
    for (auto &kv : c.posted)
        if (!kv.second.empty()) out_violation("mpi-usage", context(), "a receive of rank " + std::to_string(kv.first) + of + " never completed");
    for (auto &kv : c.colls) out_violation("mpi-usage", context(), "a collective operation" + of + " (" + kv.second.kind + ") was not completed by all ranks");
}
void mpi_ranks_ended() {
    SimScope ss;
    if (!init_done) return;
    idle(sim_comm_world);
    if (selfs)
        for (auto &kv : *selfs) idle(kv.second);
    if (split_comms)
        for (auto c : *split_comms) idle(*c);
}
[[noreturn]] static void misuse(const std::string &m) {
    out_violation("mpi-usage", context(), "rank " + std::to_string(current_rank()) + ": " + m);
    abort();
}
static int crank(MPI_Comm c) {
    if (!c) misuse("null communicator");
    if (c->self) return 0;
    for (size_t i = 0; i < c->ranks.size(); i++)
        if (c->ranks[i] == g.cur->rank) return (int)i;
    misuse("communicator does not contain the caller");
}
static int csize(MPI_Comm c) {
    if (!c) misuse("null communicator");
    return c->self ? 1 : (int)c->ranks.size();
}
static MPI_Comm real(MPI_Comm c) {
    if (!c) misuse("null communicator");
    if (c == &sim_comm_self || c->self) {
        if (!selfs) selfs = new std::map<int, sim_comm>();
        sim_comm &s = (*selfs)[g.cur->rank];
        if (s.ranks.empty()) {
            s.ranks.push_back(g.cur->rank);
            s.self = true;
            s.id   = 2;
        }
        return &s;
    }
    return c;
}
template <class T>
static void red(T *a, const T *b, long n, int op) {
    for (long i = 0; i < n; i++) switch (op) {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = a[i] * b[i]; break;
        case MPI_MAX: a[i] = std::max(a[i], b[i]); break;
        case MPI_MIN: a[i] = std::min(a[i], b[i]); break;
        case MPI_LAND: a[i] = T(a[i] != T(0) && b[i] != T(0)); break;
        case MPI_LOR: a[i] = T(a[i] != T(0) || b[i] != T(0)); break;
        default: misuse("reduction operation not supported for the type");
        }
}
template <class T>
static void redi(T *a, const T *b, long n, int op) {
    for (long i = 0; i < n; i++) switch (op) {
        case MPI_BAND: a[i] = a[i] & b[i]; break;
        case MPI_BOR: a[i] = a[i] | b[i]; break;
        default: red(a + i, b + i, 1, op);
        }
}
template <class T>
static void redc(T *a, const T *b, long n, int op) {
    for (long i = 0; i < n; i++) switch (op) {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = a[i] * b[i]; break;
        default: misuse("reduction operation not defined for complex numbers");
        }
}
struct DI { double v; int i; };
static void reduce_into(char *a, const char *b, long n, int type, int op) {
    switch (type) {
    case MPI_DOUBLE: red((double *)a, (const double *)b, n, op); break;
    case MPI_FLOAT: red((float *)a, (const float *)b, n, op); break;
    case MPI_INT: redi((int *)a, (const int *)b, n, op); break;
    case MPI_UNSIGNED: redi((unsigned *)a, (const unsigned *)b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: redi((long *)a, (const long *)b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: redi((unsigned long *)a, (const unsigned long *)b, n, op); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: redi((signed char *)a, (const signed char *)b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: redi((unsigned char *)a, (const unsigned char *)b, n, op); break;
    case MPI_C_COMPLEX: redc((std::complex<float> *)a, (const std::complex<float> *)b, n, op); break;
    case MPI_C_DOUBLE_COMPLEX: redc((std::complex<double> *)a, (const std::complex<double> *)b, n, op); break;
    case MPI_DOUBLE_INT:
        for (long i = 0; i < n; i++) {
            DI &x = ((DI *)a)[i];
            const DI &y = ((const DI *)b)[i];
            bool better = op == MPI_MAXLOC ? y.v > x.v : y.v < x.v;
            if (better || (y.v == x.v && y.i < x.i)) x = y;
        }
        break;
    default: misuse("reduction on an unsupported datatype");
    }
}
static void check_buf(const void *p, long bytes, bool write, const char *what) {
    if (bytes < 0) misuse(std::string("negative size in ") + what);
    if (bytes == 0) return;
    if (!p) misuse(std::string("null buffer in ") + what);
    if (!addressable(p, (size_t)bytes)) misuse(std::string(what) + ": buffer of " + std::to_string(bytes) + " bytes leaves its heap block");
    range_access(p, (size_t)bytes, write, __builtin_return_address(0));
}
static uint64_t delay() { return choose("mpi.delay", (uint32_t)std::min<uint64_t>(max_delay, 1u << 30)); }

static Coll *enter(MPI_Comm &c, const char *kind, Part p) {
    c        = real(c);
    int me   = crank(c), n = csize(c);
    count((std::string(g.cur->coll_seq >= 0 ? "mpi.I" : "mpi.") + kind).c_str());
    bool nonblocking = g.cur->coll_seq >= 0; // its place in the order of the collectives was taken when it was called
    uint64_t s       = nonblocking ? (uint64_t)g.cur->coll_seq : c->seq[g.cur->rank]++;
    std::string full = std::string(nonblocking ? "I" : "") + kind;
    Coll &k          = c->colls[s];
    if (k.parts.empty()) {
        k.parts.resize(n);
        k.kind = full;
    }
    if (k.kind != full) misuse("collective mismatch: " + full + " while another rank called " + k.kind);
    p.arrived = true;
    p.fiber   = g.cur;
    p.kind    = kind;
    for (auto &o : k.parts)
        if (o.arrived) {
            if (o.root != p.root) misuse(std::string(kind) + ": ranks disagree on the root");
            if (o.op != p.op) misuse(std::string(kind) + ": ranks disagree on the operation");
            break;
        }
    k.parts[me] = std::move(p);
    k.arrived++;
    logf("%s #%llu comm %d rank %d", kind, (unsigned long long)s, c->id, me);
    sched_trace(((uint64_t)me << 32) ^ s ^ 0x20000000);
    return &k;
}
static void leave(MPI_Comm c, Coll *k) {
    int n = csize(c);
    k->left++;
    if (k->left == n)
        for (auto it = c->colls.begin(); it != c->colls.end(); ++it)
            if (&it->second == k) {
                c->colls.erase(it);
                break;
            }
}
static void wait_until(const std::function<bool()> &f, const char *why) {
    while (!f()) block(why);
}
static void wake_all(Coll *k) {
    for (auto &p : k->parts)
        if (p.fiber) make_runnable(p.fiber);
}
// Pairwise data movement: rank i sends scount[j] elements at sdispl[j] to j, which expects rcount[i] at rdispl[i].
static void exchange(MPI_Comm c, Coll *k, int me) {
    int n = csize(c);
    auto deliver = [k](int from, int to) {
        Part &a = k->parts[from], &b = k->parts[to];
        long sb = a.scount[to] * elem(a.stype), rb = b.rcount[from] * elem(b.rtype);
        if (sb != rb) misuse(a.kind + ": rank " + std::to_string(from) + " sends " + std::to_string(sb) + " bytes to rank " + std::to_string(to) + ", which expects " + std::to_string(rb));
        if (sb && a.stype != b.rtype && a.stype != MPI_BYTE && b.rtype != MPI_BYTE) misuse(a.kind + ": datatypes differ between sender and receiver");
        const char *s = a.eager ? a.snap[to].data() : (const char *)a.sbuf + a.sdispl[to] * elem(a.stype);
        char *d       = (char *)b.rbuf + b.rdispl[from] * elem(b.rtype);
        if (sb && s != d) memmove(d, s, (size_t)sb);
        b.missing--;
        if (!a.eager) a.untaken--;
        make_runnable(b.fiber);
        make_runnable(a.fiber);
        count("mpi.messages");
    };
    // messages between me and everybody who has arrived; later arrivals schedule theirs
    for (int j = 0; j < n; j++) {
        Part &o = k->parts[j];
        if (!o.arrived) continue;
        auto plan = [&](int from, int to) {
            Part &a = k->parts[from], &b = k->parts[to];
            bool sends = !a.scount.empty() && a.scount[to] >= 0, recvs = !b.rcount.empty() && b.rcount[from] >= 0;
            if (sends != recvs) misuse(a.kind + ": one side of a transfer is missing");
            if (!sends) return;
            add_event(now() + delay(), [=] { deliver(from, to); });
        };
        plan(me, j);
        if (j != me) plan(j, me);
    }
}
static bool overlap(const void *a, long na, const void *b, long nb) {
    const char *x = (const char *)a, *y = (const char *)b;
    return na > 0 && nb > 0 && x < y + nb && y < x + na;
}
static long extent(const std::vector<long> &cnt, const std::vector<long> &dis) {
    long e = 0;
    for (size_t i = 0; i < cnt.size(); i++)
        if (cnt[i] > 0) e = std::max(e, dis[i] + cnt[i]);
    return e;
}
// Common body of the moving collectives. The caller may leave once it received all and its data was taken.
static int move_coll(MPI_Comm c, const char *kind, Part p) {
    sync_point(kind);
    SimScope ss;
    for (size_t i = 0; i < p.scount.size(); i++)
        if (p.scount[i] > 0) check_buf((const char *)p.sbuf + p.sdispl[i] * elem(p.stype), p.scount[i] * elem(p.stype), false, kind);
        else if (p.scount[i] < -1) misuse("negative count");
    for (size_t i = 0; i < p.rcount.size(); i++)
        if (p.rcount[i] > 0) check_buf((char *)p.rbuf + p.rdispl[i] * elem(p.rtype), p.rcount[i] * elem(p.rtype), true, kind);
        else if (p.rcount[i] < -1) misuse("negative count");
    for (size_t i = 0; i < p.rcount.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (p.rcount[i] > 0 && p.rcount[j] > 0 && p.rdispl[i] < p.rdispl[j] + p.rcount[j] && p.rdispl[j] < p.rdispl[i] + p.rcount[i]) misuse(std::string(kind) + ": receive regions overlap");
    p.eager = chance("mpi.eager", 0.5);
    for (size_t j = 0; j < p.rcount.size(); j++)
        if (p.rcount[j] >= 0) p.missing++;
    for (size_t j = 0; j < p.scount.size(); j++)
        if (p.scount[j] >= 0) {
            const char *s = (const char *)p.sbuf + p.sdispl[j] * elem(p.stype);
            if (p.eager) p.snap[(int)j].assign(s, s + p.scount[j] * elem(p.stype));
            else p.untaken++;
        }
    Coll *k = enter(c, kind, std::move(p));
    int me  = crank(c);
    Part &m = k->parts[me];
    exchange(c, k, me);
    // leaves once everything arrived here and (unless buffered) everything was taken from here
    wait_until([&] { return m.missing == 0 && m.untaken == 0; }, kind);
    leave(c, k);
    return MPI_SUCCESS;
}
static int reduce_coll(MPI_Comm c, const char *kind, const void *s, void *r, long n, int type, int op, int root, std::vector<long> rcounts = {}) {
    sync_point(kind);
    SimScope ss;
    MPI_Comm cc = real(c);
    int me = crank(cc), P = csize(cc);
    long bytes = n * elem(type);
    std::string K = kind;
    bool receives = K == "Reduce" ? me == root : true;
    Part p;
    p.stype = type;
    p.op    = op;
    p.root  = root;
    p.scount.assign(1, n);
    p.rcount = rcounts;
    if (s == MPI_IN_PLACE) {
        if (!receives) misuse("MPI_IN_PLACE is only allowed on the root");
        s = r;
    } else if (receives) {
        long rb = rcounts.empty() ? bytes : rcounts[me] * elem(type);
        if (overlap(s, bytes, r, rb)) misuse(K + ": send and receive buffers overlap");
    }
    check_buf(s, bytes, false, kind);
    if (receives) check_buf(r, rcounts.empty() ? bytes : rcounts[me] * elem(type), true, kind);
    p.sbuf  = s;
    p.rbuf  = r;
    Coll *k = enter(c, kind, std::move(p));
    Part &m = k->parts[me];
    for (auto &o : k->parts)
        if (o.arrived) {
            if (o.scount[0] != n) misuse(K + ": ranks disagree on the count (" + std::to_string(n) + " and " + std::to_string(o.scount[0]) + ")");
            if (o.stype != type) misuse(K + ": ranks disagree on the datatype");
            if (o.rcount != rcounts) misuse(K + ": ranks disagree on the receive counts");
        }
    // the contribution is taken at some later time
    add_event(now() + delay(), [k, me, bytes, n, type, op, P] {
        Part &q    = k->parts[me];
        q.contrib.assign((const char *)q.sbuf, (const char *)q.sbuf + bytes);
        q.captured = true;
        make_runnable(q.fiber);
        for (auto &o : k->parts)
            if (!o.captured) return;
        // combine in an order chosen by the scheduler
        std::vector<int> order;
        for (int i = 0; i < P; i++) order.push_back(i);
        for (int i = 0; i + 1 < P; i++) std::swap(order[i], order[i + (int)choose("mpi.redorder", (uint32_t)(P - i))]);
        k->result = k->parts[order[0]].contrib;
        for (int i = 1; i < P; i++) reduce_into(k->result.data(), k->parts[order[i]].contrib.data(), n, type, op);
        k->result_ready = true;
        for (auto &o : k->parts) make_runnable(o.fiber);
    });
    count("mpi.messages");
    if (receives) {
        wait_until([&] { return k->result_ready; }, kind);
        uint64_t t = delay();
        if (t) sleep_for(t, kind);
        if (K == "Scan" || K == "Exscan") {
            int upto = K == "Scan" ? me : me - 1;
            if (upto >= 0) {
                std::vector<char> acc = k->parts[0].contrib;
                for (int i = 1; i <= upto; i++) reduce_into(acc.data(), k->parts[i].contrib.data(), n, type, op);
                memcpy(r, acc.data(), (size_t)bytes);
            }
        } else if (rcounts.empty())
            memcpy(r, k->result.data(), (size_t)bytes);
        else {
            long off = 0;
            for (int i = 0; i < me; i++) off += rcounts[i];
            memcpy(r, k->result.data() + off * elem(type), (size_t)(rcounts[me] * elem(type)));
        }
    } else
        wait_until([&] { return m.captured; }, kind); // a contributor may leave as soon as its data is buffered
    leave(c, k);
    return MPI_SUCCESS;
}
static std::vector<long> vec(const int *a, int n) { return std::vector<long>(a, a + n); }
static std::vector<long> iota(long step, int n) {
    std::vector<long> v(n);
    for (int i = 0; i < n; i++) v[i] = i * step;
    return v;
}
} // namespace sim

extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) { if (p) *p = r; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int e) { out_violation("mpi-abort", context(), "MPI_Abort(" + std::to_string(e) + ")"); return 0; }
double MPI_Wtime() {
    int r = g.cur->rank;
    int64_t s = r >= 0 && r < (int)skew.size() ? skew[r] : 0;
    return 1e-9 * (double)now() + 1e-3 * (double)s; // clocks are not synchronised between ranks
}
double MPI_Wtick() { return 1e-9; }
int MPI_Comm_rank(MPI_Comm c, int *r) { SimScope ss; *r = c == &sim_comm_self ? 0 : crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { SimScope ss; *n = c == &sim_comm_self ? 1 : csize(c); return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = elem(t); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int)(s->bytes / elem(t)); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
    sync_point("Comm_split");
    SimScope ss;
    Part p;
    p.color = color;
    p.key   = key;
    Coll *k = enter(c, "Comm_split", std::move(p));
    int me  = crank(c);
    wake_all(k);
    wait_until([&] { return k->arrived == csize(c); }, "Comm_split");
    if (color == MPI_UNDEFINED) *out = MPI_COMM_NULL;
    else {
        if (!k->new_comms.count(color)) {
            sim_comm *nc = new sim_comm();
            nc->id       = ++last_comm_id;
            if (!split_comms) split_comms = new std::vector<sim_comm *>();
            split_comms->push_back(nc);
            std::vector<std::pair<std::pair<int, int>, int>> v;
            for (size_t i = 0; i < k->parts.size(); i++)
                if (k->parts[i].color == color) v.push_back({{k->parts[i].key, (int)i}, c->ranks[i]});
            std::sort(v.begin(), v.end());
            for (auto &e : v) nc->ranks.push_back(e.second);
            k->new_comms[color] = nc;
        }
        *out = k->new_comms[color];
    }
    leave(c, k);
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { int r; MPI_Comm_rank(c, &r); return MPI_Comm_split(c, 0, r, out); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Barrier(MPI_Comm c) {
    sync_point("Barrier");
    SimScope ss;
    Coll *k = enter(c, "Barrier", Part());
    wake_all(k);
    wait_until([&] { return k->arrived == csize(c); }, "Barrier");
    uint64_t t = delay();
    if (t) sleep_for(t, "Barrier");
    leave(c, k);
    return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    SimScope ss;
    MPI_Comm cc = real(c);
    int me = crank(cc), P = csize(cc);
    Part p;
    p.root  = root;
    p.stype = p.rtype = t;
    p.sbuf = p.rbuf = b;
    p.scount.assign(P, -1);
    p.rcount.assign(P, -1);
    p.sdispl.assign(P, 0);
    p.rdispl.assign(P, 0);
    if (me == root) {
        for (int i = 0; i < P; i++)
            if (i != root) p.scount[i] = n;
    } else
        p.rcount[root] = n;
    return move_coll(c, "Bcast", std::move(p));
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_coll(c, "Reduce", s, r, n, t, op, root); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_coll(c, "Allreduce", s, r, n, t, op, -1); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_coll(c, "Scan", s, r, n, t, op, -1); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_coll(c, "Exscan", s, r, n, t, op, -1); }
int MPI_Reduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    std::vector<long> v = vec(rc, P);
    long n = 0;
    for (auto x : v) n += x;
    return reduce_coll(c, "Reduce_scatter", s, r, n, t, op, -1, v);
}
int MPI_Reduce_scatter_block(const void *s, void *r, int rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return reduce_coll(c, "Reduce_scatter", s, r, (long)rc * P, t, op, -1, std::vector<long>(P, rc));
}
static int allgather_like(const char *kind, const void *s, int sn, MPI_Datatype st, void *r, std::vector<long> rc, std::vector<long> rd, MPI_Datatype rt, MPI_Comm c, int root) {
    SimScope ss;
    MPI_Comm cc = real(c);
    int me = crank(cc), P = csize(cc);
    Part p;
    p.root   = root;
    bool recv = root < 0 || me == root;
    if (s == MPI_IN_PLACE) {
        if (!recv) misuse("MPI_IN_PLACE is only allowed on the root");
        s  = (const char *)r + rd[me] * elem(rt);
        sn = (int)rc[me];
        st = rt;
    } else if (recv && overlap(s, (long)sn * elem(st), r, extent(rc, rd) * elem(rt))) {
        for (int i = 0; i < P; i++)
            if (overlap(s, (long)sn * elem(st), (char *)r + rd[i] * elem(rt), rc[i] * elem(rt))) misuse(std::string(kind) + ": send and receive buffers overlap");
    }
    p.sbuf  = s;
    p.rbuf  = r;
    p.stype = st;
    p.rtype = rt;
    p.sdispl.assign(P, 0);
    p.rdispl.assign(P, 0);
    p.scount.assign(P, -1);
    p.rcount.assign(P, -1);
    if (root < 0) p.scount.assign(P, sn);
    else p.scount[root] = sn;
    if (recv) {
        p.rcount = rc;
        p.rdispl = rd;
    }
    return move_coll(c, kind, std::move(p));
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return allgather_like("Allgather", s, sn, st, r, std::vector<long>(P, rn), iota(rn, P), rt, c, -1);
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return allgather_like("Allgatherv", s, sn, st, r, vec(rc, P), vec(rd, P), rt, c, -1);
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return allgather_like("Gather", s, sn, st, r, std::vector<long>(P, rn), iota(rn, P), rt, c, root);
}
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) {
    SimScope ss;
    MPI_Comm cc = real(c);
    int P = csize(cc);
    bool root_here = crank(cc) == root;
    return allgather_like("Gatherv", s, sn, st, r, root_here ? vec(rc, P) : std::vector<long>(P, 0), root_here ? vec(rd, P) : std::vector<long>(P, 0), rt, c, root);
}
static int scatter_like(const char *kind, const void *s, std::vector<long> sc, std::vector<long> sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    SimScope ss;
    MPI_Comm cc = real(c);
    int me = crank(cc), P = csize(cc);
    Part p;
    p.root  = root;
    p.stype = st;
    p.rtype = rt;
    p.sbuf  = s;
    p.rbuf  = r;
    p.sdispl.assign(P, 0);
    p.rdispl.assign(P, 0);
    p.scount.assign(P, -1);
    p.rcount.assign(P, -1);
    p.rcount[root] = rn;
    if (me == root) {
        p.scount = sc;
        p.sdispl = sd;
        if (r == MPI_IN_PLACE) {
            p.rbuf       = (char *)s + sd[me] * elem(st);
            p.rcount[me] = sc[me];
            p.rtype      = st;
        }
    }
    return move_coll(c, kind, std::move(p));
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return scatter_like("Scatter", s, std::vector<long>(P, sn), iota(sn, P), st, r, rn, rt, root, c);
}
int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    SimScope ss;
    MPI_Comm cc = real(c);
    int P = csize(cc);
    bool root_here = crank(cc) == root;
    return scatter_like("Scatterv", s, root_here ? vec(sc, P) : std::vector<long>(P, 0), root_here ? vec(sd, P) : std::vector<long>(P, 0), st, r, rn, rt, root, c);
}
static int a2a(const char *kind, const void *s, std::vector<long> sc, std::vector<long> sd, MPI_Datatype st, void *r, std::vector<long> rc, std::vector<long> rd, MPI_Datatype rt, MPI_Comm c) {
    SimScope ss;
    std::vector<char> tmp;
    Part p;
    bool in_place = s == MPI_IN_PLACE;
    if (in_place) { // what is sent is taken from the receive buffer before anything arrives there
        tmp.assign((const char *)r, (const char *)r + extent(rc, rd) * elem(rt));
        s  = tmp.data();
        st = rt;
        sc = rc;
        sd = rd;
    }
    for (size_t i = 0; i < sc.size() && !in_place; i++)
        for (size_t j = 0; j < rc.size(); j++)
            if (overlap((const char *)s + sd[i] * elem(st), sc[i] * elem(st), (char *)r + rd[j] * elem(rt), rc[j] * elem(rt))) misuse(std::string(kind) + ": send and receive buffers overlap");
    p.sbuf   = s;
    p.rbuf   = r;
    p.stype  = st;
    p.rtype  = rt;
    p.scount = sc;
    p.sdispl = sd;
    p.rcount = rc;
    p.rdispl = rd;
    return move_coll(c, kind, std::move(p));
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return a2a("Alltoall", s, std::vector<long>(P, sn), iota(sn, P), st, r, std::vector<long>(P, rn), iota(rn, P), rt, c);
}
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    SimScope ss;
    int P = csize(real(c));
    return a2a("Alltoallv", s, vec(sc, P), vec(sd, P), st, r, vec(rc, P), vec(rd, P), rt, c);
}
// ---------------------------------------------------------------- point to point
static void match(MPI_Comm c, int dst) {
    for (auto f : c->probers[dst]) make_runnable(f);
    c->probers[dst].clear();
    auto &in = c->inbox[dst];
    auto &po = c->posted[dst];
    for (auto r = po.begin(); r != po.end();) {
        bool hit = false;
        for (auto m = in.begin(); m != in.end(); ++m) {
            bool ok = ((*r)->peer == MPI_ANY_SOURCE || (*r)->peer == (*m)->src) && ((*r)->tag == MPI_ANY_TAG || (*r)->tag == (*m)->tag);
            if (!ok) continue;
            // non-overtaking: only the first matching message from that source
            bool first = true;
            for (auto q = in.begin(); q != m; ++q)
                if ((*q)->src == (*m)->src && ((*r)->tag == MPI_ANY_TAG || (*r)->tag == (*q)->tag)) first = false;
            if (!first || !(*m)->arrived) continue;
            sim_request *rq = *r;
            Msg &g2         = **m;
            const char *src = g2.data.data();
            long nb         = (long)g2.data.size();
            if (nb > rq->bytes) misuse("message truncated: " + std::to_string(nb) + " bytes into a buffer of " + std::to_string(rq->bytes));
            if (g2.sbuf && nb) src = (const char *)g2.sbuf;
            if (nb) memcpy(rq->buf, src, (size_t)nb);
            rq->st.MPI_SOURCE = g2.src;
            rq->st.MPI_TAG    = g2.tag;
            rq->st.MPI_ERROR  = 0;
            rq->st.bytes      = nb;
            rq->done          = true;
            if (rq->waiter) make_runnable(rq->waiter);
            if (g2.sreq) {
                g2.sreq->done = true;
                if (g2.sreq->waiter) make_runnable(g2.sreq->waiter);
            }
            in.erase(m);
            hit = true;
            break;
        }
        if (hit) r = po.erase(r);
        else ++r;
    }
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *rq) {
    sync_point("Isend");
    SimScope ss;
    c          = real(c);
    long bytes = (long)n * elem(t);
    check_buf(b, bytes, false, "Isend");
    sim_request *r = new sim_request();
    r->send        = true;
    *rq            = r;
    if (dst == MPI_PROC_NULL) {
        r->done = true;
        return 0;
    }
    if (dst < 0 || dst >= csize(c)) misuse("invalid destination");
    auto m  = std::make_shared<Msg>();
    m->src  = crank(c);
    m->tag  = tag;
    m->type = t;
    m->data.assign((const char *)b, (const char *)b + bytes);
    if (chance("mpi.rendezvous", 0.5)) { // not buffered: completes with the receive, data read then
        m->sreq = r;
        m->sbuf = b;
    } else
        r->done = true;
    c->inbox[dst].push_back(m);
    count("mpi.messages");
    add_event(now() + delay(), [=] { m->arrived = true; match(c, dst); });
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *rq) {
    sync_point("Irecv");
    SimScope ss;
    c              = real(c);
    sim_request *r = new sim_request();
    r->buf         = b;
    r->bytes       = (long)n * elem(t);
    check_buf(b, r->bytes, true, "Irecv");
    r->peer = src;
    r->tag  = tag;
    *rq     = r;
    if (src == MPI_PROC_NULL) {
        r->done = true;
        return 0;
    }
    int me = crank(c);
    c->posted[me].push_back(r);
    add_event(now(), [=] { match(c, me); });
    return 0;
}
int MPI_Wait(MPI_Request *rq, MPI_Status *st) {
    SimScope ss;
    if (!*rq) return 0;
    (*rq)->waiter = g.cur;
    wait_until([&] { return (*rq)->done; }, (*rq)->send ? "waiting for a send" : "waiting for a message");
    if ((*rq)->coll) hb_acquire((*rq)->vc);
    if (st) *st = (*rq)->st;
    delete *rq;
    *rq = nullptr;
    return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
    for (int i = 0; i < n; i++) MPI_Wait(r + i, st ? st + i : nullptr);
    return 0;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    SimScope ss;
    int k = -1;
    bool any = false;
    for (int i = 0; i < n; i++)
        if (r[i]) {
            any          = true;
            r[i]->waiter = g.cur;
        }
    *idx = MPI_UNDEFINED;
    if (!any) return 0;
    wait_until([&] {
        for (int i = 0; i < n; i++)
            if (r[i] && r[i]->done) {
                k = i;
                return true;
            }
        return false;
    }, "waiting for any request");
    *idx = k;
    return MPI_Wait(r + k, st);
}
int MPI_Test(MPI_Request *rq, int *flag, MPI_Status *st) {
    sync_point("Test");
    if (!*rq || (*rq)->done) {
        *flag = 1;
        return MPI_Wait(rq, st);
    }
    *flag = 0;
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
    MPI_Request r;
    MPI_Isend(b, n, t, dst, tag, c, &r);
    return MPI_Wait(&r, nullptr);
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
    MPI_Request r;
    MPI_Irecv(b, n, t, src, tag, c, &r);
    return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st_, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    MPI_Request a, b;
    MPI_Irecv(rb, rn, rt, src, rtag, c, &a);
    MPI_Isend(sb, sn, st_, dst, stag, c, &b);
    MPI_Wait(&b, nullptr);
    return MPI_Wait(&a, st);
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *rq) { return MPI_Isend(b, n, t, dst, tag, c, rq); }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) {
    sync_point("Testall");
    *flag = 1;
    for (int i = 0; i < n; i++)
        if (r[i] && !r[i]->done) *flag = 0;
    return *flag ? MPI_Waitall(n, r, st) : 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *idx, MPI_Status *st) {
    int k;
    MPI_Waitany(n, r, &k, st);
    *out = k == MPI_UNDEFINED ? MPI_UNDEFINED : 1;
    if (k != MPI_UNDEFINED) idx[0] = k;
    return 0;
}
// The first message that a receive with these arguments would take, if it has arrived.
static bool probe(MPI_Comm c, int me, int src, int tag, MPI_Status *st) {
    auto &in = c->inbox[me];
    for (auto m = in.begin(); m != in.end(); ++m) {
        if (!(src == MPI_ANY_SOURCE || src == (*m)->src) || !(tag == MPI_ANY_TAG || tag == (*m)->tag) || !(*m)->arrived) continue;
        bool first = true;
        for (auto q = in.begin(); q != m; ++q)
            if ((*q)->src == (*m)->src && (tag == MPI_ANY_TAG || tag == (*q)->tag)) first = false;
        if (!first) continue;
        if (st) {
            st->MPI_SOURCE = (*m)->src;
            st->MPI_TAG    = (*m)->tag;
            st->MPI_ERROR  = 0;
            st->bytes      = (long)(*m)->data.size();
        }
        return true;
    }
    return false;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    sync_point("Iprobe");
    SimScope ss;
    c     = real(c);
    *flag = probe(c, crank(c), src, tag, st);
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
    SimScope ss;
    c      = real(c);
    int me = crank(c);
    Fiber *f = g.cur;
    while (!probe(c, me, src, tag, st)) {
        c->probers[me].push_back(f);
        block("waiting for a message to probe");
    }
    return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    std::vector<char> *copy;
    {
        SimScope ss;
        check_buf(b, (long)n * elem(t), false, "Sendrecv_replace");
        copy = new std::vector<char>((const char *)b, (const char *)b + (long)n * elem(t));
    }
    MPI_Sendrecv(copy->data(), n, t, dst, stag, b, n, t, src, rtag, c, st);
    SimScope ss;
    delete copy;
    return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    SimScope ss;
    a = real(a);
    b = real(b);
    if (a == b) *r = MPI_IDENT;
    else if (a->ranks == b->ranks) *r = MPI_CONGRUENT;
    else {
        std::vector<int> x = a->ranks, y = b->ranks;
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
    }
    return 0;
}
// ---------------------------------------------------------------- nonblocking collectives
// A helper of the calling rank carries out the collective. It starts after the call, and what it does is ordered
// with what the caller does next only by the completion of the request: the race detector reports buffers used before.
static int start_coll(MPI_Comm c, MPI_Request *rq, const char *kind, std::function<void()> call) {
    sync_point(kind);
    SimScope ss;
    MPI_Comm cc    = real(c);
    uint64_t s     = cc->seq[g.cur->rank]++;
    sim_request *r = new sim_request();
    r->coll        = true;
    *rq            = r;
    Fiber *f       = new_fiber(g.cur->domain, [r, call] {
        SimScope ss2;
        call();
        r->vc   = g.cur->vc;
        r->done = true;
        if (r->waiter) make_runnable(r->waiter);
    });
    f->coll_seq    = (int64_t)s;
    f->live        = false;
    start_fiber(f);
    return 0;
}
#define ICOLL(KIND, CALL) return start_coll(c, rq, KIND, [=] { CALL; })
int MPI_Ibarrier(MPI_Comm c, MPI_Request *rq) { ICOLL("Ibarrier", MPI_Barrier(c)); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *rq) { ICOLL("Ibcast", MPI_Bcast(b, n, t, root, c)); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *rq) { ICOLL("Ireduce", MPI_Reduce(s, r, n, t, op, root, c)); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq) { ICOLL("Iallreduce", MPI_Allreduce(s, r, n, t, op, c)); }
int MPI_Iscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq) { ICOLL("Iscan", MPI_Scan(s, r, n, t, op, c)); }
int MPI_Iexscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq) { ICOLL("Iexscan", MPI_Exscan(s, r, n, t, op, c)); }
int MPI_Ireduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq) { ICOLL("Ireduce_scatter_block", MPI_Reduce_scatter_block(s, r, n, t, op, c)); }
// The arrays of counts and displacements must stay as they are until the completion, and are read at the start.
int MPI_Ireduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *rq) { ICOLL("Ireduce_scatter", MPI_Reduce_scatter(s, r, rc, t, op, c)); }
int MPI_Igather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq) { ICOLL("Igather", MPI_Gather(s, sn, st, r, rn, rt, root, c)); }
int MPI_Igatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq) { ICOLL("Igatherv", MPI_Gatherv(s, sn, st, r, rc, rd, rt, root, c)); }
int MPI_Iscatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq) { ICOLL("Iscatter", MPI_Scatter(s, sn, st, r, rn, rt, root, c)); }
int MPI_Iscatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *rq) { ICOLL("Iscatterv", MPI_Scatterv(s, sc, sd, st, r, rn, rt, root, c)); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq) { ICOLL("Iallgather", MPI_Allgather(s, sn, st, r, rn, rt, c)); }
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq) { ICOLL("Iallgatherv", MPI_Allgatherv(s, sn, st, r, rc, rd, rt, c)); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq) { ICOLL("Ialltoall", MPI_Alltoall(s, sn, st, r, rn, rt, c)); }
int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *rq) { ICOLL("Ialltoallv", MPI_Alltoallv(s, sc, sd, st, r, rc, rd, rt, c)); }
}
