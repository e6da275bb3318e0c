// Self-test of the simulator: programs with known verdicts.
#include "sim.h"
#include <omp.h>
#include <mpi.h>
#include <vector>
#include <mutex>
#include <fstream>
#include <memory>
#include <atomic>
#include <condition_variable>
#include <future>
#include <shared_mutex>
#include <thread>
using namespace sim;
static void gen(Case &c, Rng &r, int) {
    gen_sched(c, r);
    c.set("threads", 1 + (int)r.below(6), 1);
    c.set("n", 1 + (int)r.below(60), 1);
}
// a data race on a sum
static void racy(const Case &c) {
    configure(config_from(c));
    omp_threads(c["threads"]);
    int n = c["n"];
    std::vector<double> v(n, 1.);
    double s = 0;
    {
        Live l;
#pragma omp parallel for schedule(guided)
        for (int i = 0; i < n; i++) s += v[i];
    }
}
// lost update without a race report: a non-atomic read-modify-write under two separate locks
static void lost(const Case &c) {
    configure(config_from(c));
    omp_threads(c["threads"]);
    int n = c["n"];
    double s = 0;
    {
        Live l;
#pragma omp parallel for schedule(guided)
        for (int i = 0; i < n; i++) {
            double t;
#pragma omp critical
            t = s;
#pragma omp critical
            s = t + 1;
        }
    }
    if (s != n) violate("wrong", "lost update", "sum " + std::to_string(s));
}
static thread_local int counter_tls = 5;
static void good(const Case &c) {
    configure(config_from(c));
    omp_threads(c["threads"]);
    int n = c["n"];
    std::vector<double> v(n, 1.), w(n);
    double s = 0;
    bool tls_bad = false;
    {
        Live l;
#pragma omp parallel
        {
            std::vector<double> loc(n, 0.);
#pragma omp for schedule(guided) nowait
            for (int i = 0; i < n; i++) loc[i] += v[i], counter_tls++;
            int mine = 0;
            for (int i = 0; i < n; i++) mine += loc[i] != 0;
            if (counter_tls != 5 + mine && omp_get_thread_num()) tls_bad = true;
#pragma omp critical
            for (int i = 0; i < n; i++) w[i] += loc[i];
        }
    }
    for (auto x : w) s += x;
    if (s != n || tls_bad) violate("wrong", "sum", "bad");
    if (c["threads"] > 1) count("nontrivial");
}
static void oob(const Case &c) {
    configure(config_from(c));
    int n = c["n"];
    std::vector<double> v(n, 1.);
    double *p = v.data();
    Live l;
    volatile double x = p[n];
    (void)x;
}
static void mpi_good(const Case &c) {
    configure(config_from(c));
    int P = c["threads"];
    mpi_begin(P, 1000);
    std::vector<double> out(P);
    run_ranks(P, [&](int r) {
        std::vector<double> v(3, r + 1.);
        MPI_Allreduce(MPI_IN_PLACE, v.data(), 3, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        out[r] = v[1];
    });
    for (auto x : out) if (x != P * (P + 1) / 2.) violate("wrong", "allreduce", "bad");
    if (P > 1) count("nontrivial");
}
static void mpi_mismatch(const Case &c) {
    configure(config_from(c));
    int P = c["threads"] + 1;
    mpi_begin(P, 1000);
    run_ranks(P, [&](int r) {
        std::vector<double> v(3, r + 1.);
        if (r == 0) MPI_Barrier(MPI_COMM_WORLD);
        MPI_Allreduce(MPI_IN_PLACE, v.data(), 3, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    });
}
static void throws_alloc(const Case &c) {
    configure(config_from(c));
    int n = c["n"];
    int64_t before = live_blocks();
    AllocPlan p; p.fail_at = n / 2;
    alloc_plan(p);
    bool caught = false;
    try {
        Live l;
        std::vector<std::unique_ptr<double>> v;
        for (int i = 0; i < n; i++) v.push_back(std::make_unique<double>(i));
    } catch (std::bad_alloc &) { caught = true; }
    if (caught != alloc_fired()) violate("wrong", "caught", "");
    if (live_blocks() != before) violate("leak", "leak", std::to_string(live_blocks() - before));
    if (caught) count("nontrivial");
}
static void filew(const Case &c) {
    configure(config_from(c));
    DiskPlan p; p.short_io = 0.3; p.eintr = 0.2;
    disk_plan(p);
    std::string s(c["n"] * 1000, 'x');
    {
        Live l;
        std::ofstream f("/simdisk/a");
        f << s;
    }
    if (disk_read("/simdisk/a") != s) violate("wrong", "file", "differs");
    {
        Live l;
        std::ifstream f("/simdisk/a");
        std::string t;
        f >> t;
        if (t != s) violate("wrong", "file", "read differs");
    }
    count("nontrivial");
}
// nonblocking collectives, among themselves and with blocking ones, an all-to-all in place, probed messages
static void mpi_nonblocking(const Case &c) {
    configure(config_from(c));
    int P = c["threads"], n = c["n"];
    mpi_begin(P, 1000);
    std::vector<int> bad(P, 0);
    run_ranks(P, [&](int r) {
        std::vector<double> mine(n, r + 1.), mail(3, r + 1.), all(n * P), sum(n), back(n, r == P - 1 ? 7. : 0.);
        std::vector<int> counts(P, n), displs(P), x(P), sc;
        for (int i = 0; i < P; i++) displs[i] = i * n, x[i] = 100 * r + i;
        MPI_Request rq[3];
        MPI_Iallgatherv(mine.data(), n, MPI_DOUBLE, all.data(), counts.data(), displs.data(), MPI_DOUBLE, MPI_COMM_WORLD, &rq[0]);
        MPI_Iallreduce(mine.data(), sum.data(), n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD, &rq[1]);
        MPI_Ibcast(back.data(), n, MPI_DOUBLE, P - 1, MPI_COMM_WORLD, &rq[2]);
        MPI_Alltoall(MPI_IN_PLACE, 1, MPI_INT, x.data(), 1, MPI_INT, MPI_COMM_WORLD);
        MPI_Request s;
        int to = (r + 1) % P, from = (r + P - 1) % P, len = 0;
        MPI_Isend(mail.data(), r % 3, MPI_DOUBLE, to, 4, MPI_COMM_WORLD, &s);
        MPI_Status st;
        MPI_Probe(from, 4, MPI_COMM_WORLD, &st);
        MPI_Get_count(&st, MPI_DOUBLE, &len);
        std::vector<double> got(len + 1);
        MPI_Recv(got.data(), len, MPI_DOUBLE, from, 4, MPI_COMM_WORLD, &st);
        MPI_Wait(&s, MPI_STATUS_IGNORE);
        if (len != from % 3 || (len && got[0] != from + 1.)) bad[r] = 1;
        MPI_Waitall(3, rq, MPI_STATUSES_IGNORE);
        mine[0] = 0;
        for (int i = 0; i < P; i++)
            if (x[i] != 100 * i + r) bad[r] = 1;
        for (int i = 0; i < n * P; i++)
            if (all[i] != i / n + 1.) bad[r] = 1;
        for (int i = 0; i < n; i++)
            if (sum[i] != P * (P + 1) / 2. || back[i] != 7.) bad[r] = 1;
    });
    for (auto x : bad)
        if (x) violate("wrong", "nonblocking", "bad");
    if (P > 1) count("nontrivial");
}
// the same with the result read before the wait
static void mpi_early(const Case &c) {
    configure(config_from(c));
    int P = c["threads"] + 1, n = c["n"];
    mpi_begin(P, 1000);
    run_ranks(P, [&](int r) {
        std::vector<double> mine(n, r + 1.), sum(n);
        MPI_Request rq;
        MPI_Iallreduce(mine.data(), sum.data(), n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD, &rq);
        volatile double x = sum[n - 1];
        (void)x;
        MPI_Wait(&rq, MPI_STATUS_IGNORE);
    });
}
static const Driver d9{"mpi_nonblocking", gen, mpi_nonblocking}, d10{"mpi_early", gen, mpi_early};
// threads of the standard library and what they wait with
static void std_threads(const Case &c) {
    configure(config_from(c));
    int n = c["n"], T = c["threads"];
    bool bad = false;
    {
        Live l;
        std::mutex m;
        std::condition_variable cv;
        std::vector<int> queue;
        bool closed = false;
        long sum = 0, shared = 0, once = 0, spun = 0;
        std::atomic_flag spin = ATOMIC_FLAG_INIT;
        std::once_flag flag;
        std::shared_timed_mutex rw;
        std::vector<std::thread> ts;
        for (int t = 0; t < T; t++)
            ts.emplace_back([&] {
                std::call_once(flag, [&] { once++; });
                for (;;) {
                    int x;
                    {
                        std::unique_lock<std::mutex> u(m);
                        cv.wait(u, [&] { return closed || !queue.empty(); });
                        if (queue.empty()) break;
                        x = queue.back();
                        queue.pop_back();
                        sum += x;
                    }
                    while (spin.test_and_set()) {}
                    spun++;
                    spin.clear();
                    if (x % 2) {
                        std::unique_lock<std::shared_timed_mutex> w(rw);
                        shared++;
                    } else {
                        std::shared_lock<std::shared_timed_mutex> r(rw);
                        if (shared > n) bad = true;
                    }
                }
            });
        for (int i = 1; i <= n; i++) {
            {
                std::lock_guard<std::mutex> u(m);
                queue.push_back(i);
            }
            cv.notify_one();
            if (i % 7 == 0) std::this_thread::yield();
        }
        {
            std::lock_guard<std::mutex> u(m);
            closed = true;
        }
        cv.notify_all();
        auto f = std::async(std::launch::async, [&] { std::this_thread::sleep_for(std::chrono::microseconds(3)); return 42; });
        if (f.get() != 42) bad = true;
        for (auto &t : ts) t.join();
        if (sum != (long)n * (n + 1) / 2 || spun != n || shared != (n + 1) / 2 || once != 1) bad = true;
    }
    if (bad) violate("wrong", "threads", "bad");
    if (T > 1) count("nontrivial");
}
static void std_racy(const Case &c) {
    configure(config_from(c));
    int n = c["n"];
    Live l;
    long sum = 0;
    std::thread a([&] { for (int i = 0; i < n; i++) sum += i; });
    sum += 1;
    a.join();
}
static const Driver d11{"std_threads", gen, std_threads}, d12{"std_racy", gen, std_racy};
// a message nobody receives
static void mpi_lost(const Case &c) {
    configure(config_from(c));
    int P = c["threads"] + 1;
    mpi_begin(P, 1000);
    run_ranks(P, [&](int r) {
        MPI_Comm half;
        MPI_Comm_split(MPI_COMM_WORLD, r < 2, r, &half);
        double x = r, y = 0;
        if (r == 0) {
            MPI_Send(&x, 1, MPI_DOUBLE, 1, 3, half);
            MPI_Request q;
            MPI_Isend(&x, 1, MPI_DOUBLE, 1, 4, half, &q);
        }
        if (r == 1) MPI_Recv(&y, 1, MPI_DOUBLE, 0, 3, half, MPI_STATUS_IGNORE);
        MPI_Comm_free(&half);
    });
}
static const Driver d13{"mpi_lost", gen, mpi_lost};
// tasks in tasks, task groups, dependences, loops of tasks, ordered loops
static long tree(int n) {
    if (n < 2) return 1;
    long a = 0, b = 0;
#pragma omp task shared(a) firstprivate(n)
    a = tree(n - 1);
#pragma omp task shared(b) firstprivate(n)
    b = tree(n - 2);
#pragma omp taskwait
    return a + b;
}
static void tasks(const Case &c) {
    configure(config_from(c));
    omp_threads(c["threads"]);
    int n = c["n"];
    long t = 0, x = 0, y = 0, cnt = 0;
    std::vector<int> v(n, 0), w(n, 0), order, got;
    {
        Live l;
#pragma omp parallel
        {
#pragma omp single nowait
            {
                t = tree(7);
#pragma omp task depend(out : x)
                x = 5;
#pragma omp task depend(in : x) depend(out : y)
                y = x + 1;
#pragma omp taskloop grainsize(3)
                for (int i = 0; i < n; i++) v[i]++;
#pragma omp taskloop
                for (int i = n - 1; i >= 0; i -= 2) w[i]++;
#pragma omp taskgroup
                {
                    for (int i = 0; i < 3; i++)
#pragma omp task
                    {
#pragma omp task
#pragma omp atomic
                        cnt++;
                    }
                }
                if (cnt != 3) got.push_back(-1);
            }
        }
#pragma omp parallel for ordered schedule(dynamic, 2)
        for (int i = 0; i < n; i++) {
            volatile int z = i;
#pragma omp ordered
            order.push_back((int)z);
        }
#pragma omp parallel for ordered schedule(static, 3)
        for (int i = 0; i < n; i++) {
#pragma omp ordered
            got.push_back(i);
        }
    }
    bool bad = t != 21 || y != 6 || order.size() != (size_t)n || got.size() != (size_t)n;
    for (int i = 0; i < n && !bad; i++)
        bad = v[i] != 1 || w[i] != ((n - 1 - i) % 2 == 0);
    for (int i = 0; i < n && !bad; i++)
        if (order[i] != i || got[i] != i) bad = true;
    if (bad) violate("wrong", "tasks", "t " + std::to_string(t) + " y " + std::to_string(y));
    if (c["threads"] > 1) count("nontrivial");
}
static const Driver d14{"tasks", gen, tasks};
static const Driver d1{"racy", gen, racy}, d2{"lost", gen, lost}, d3{"good", gen, good}, d4{"oob", gen, oob}, d5{"mpi_good", gen, mpi_good}, d6{"mpi_mismatch", gen, mpi_mismatch}, d7{"alloc", gen, throws_alloc}, d8{"file", gen, filew};
const Driver *sim::driver_table[] = {&d1, &d2, &d3, &d4, &d5, &d6, &d7, &d8, &d9, &d10, &d11, &d12, &d13, &d14, nullptr};
