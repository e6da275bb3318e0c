// Runs cases in forked children, collects outcomes; replays a case from a file.
#include "sim_int.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <link.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/single_threaded.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
static Shared *sh;
static double wall() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static std::string esc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}
static void on_terminate() {
    if (g.sh) g.sh->terminated = 1;
    std::string m = "std::terminate";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (std::exception &x) {
            m += std::string(": ") + x.what();
        } catch (...) {
        }
    }
    if (g.sh) strncpy(g.sh->msg, m.c_str(), sizeof g.sh->msg - 1);
    signal(SIGABRT, SIG_DFL);
    abort();
}
struct Result {
    std::string outcome; // ok, violation, error
    std::string cls, sig, msg;
};
typedef std::vector<std::pair<std::string, std::pair<uint64_t, uint32_t>>> ChoiceList;

static Result run_case(const Driver &d, const Case &given, const ChoiceList *list, bool verbose, int limit) {
    // the same containers, down to their shape, whether the case was generated or read from a file
    Case c;
    c.seed = given.seed;
    for (auto &p : given.p) c.p.emplace(p.first, p.second);
    for (auto &p : given.simplest) c.simplest.emplace(p.first, p.second);
    for (auto &v : given.ops) c.ops.emplace_back(v.begin(), v.end());
    memset(sh, 0, offsetof(Shared, choices));
    sh->nkinds = sh->ncounters = sh->nknown = 0;
    memset(sh->kinds, 0, sizeof sh->kinds);
    memset(sh->counter_names, 0, sizeof sh->counter_names);
    memset(sh->counters, 0, sizeof sh->counters);
    memset(sh->known, 0, sizeof sh->known);
    sh->hash = 0x1234567;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit nocore = {0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        struct itimerval it = {};
        it.it_value.tv_sec  = limit;
        setitimer(ITIMER_REAL, &it, nullptr);
        if (!verbose) {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(n, 2);
        }
        g.sh      = sh;
        g.verbose = verbose;
        g.rs.reseed(mix(c.seed, 11));
        g.rf.reseed(mix(c.seed, 22));
        sched_init();
        if (list) load_choices(*list);
        std::set_terminate(on_terminate);
        g.sim_depth = 0;
        try {
            d.run(c);
        } catch (const std::exception &e) {
            out_violation("uncaught-exception", context(), std::string("an exception left the run: ") + e.what());
        }
        g.live = false;
        g.sh->steps = g.step;
        g.sh->now   = sim::now();
        g.sh->outcome = OUT_OK;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    if (sh->outcome == OUT_OK) r.outcome = "ok";
    else if (sh->outcome == OUT_VIOLATION) {
        r.outcome = "violation";
        r.cls     = sh->cls;
        r.sig     = sh->sig;
        r.msg     = sh->msg;
    } else if (sh->outcome == OUT_SIMERROR) {
        r.outcome = "error";
        r.msg     = sh->msg;
    } else if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGALRM || s == SIGKILL) {
            r.outcome = s == SIGALRM ? "violation" : "error";
            r.cls     = "hang";
            r.sig     = sh->ctx;
            r.msg     = s == SIGALRM ? "the run did not end within its wall-clock bound" : "run was killed";
        } else if (sh->terminated && sh->terminate_ok) {
            r.outcome = "ok";
            r.msg     = "terminated";
        } else {
            r.outcome = "violation";
            r.cls     = sh->terminated ? "terminate" : "crash";
            r.sig     = sh->ctx;
            r.msg     = std::string("the process ended with signal ") + std::to_string(s) + " (" + strsignal(s) + ") " + sh->msg;
        }
    } else { // the code under test left through exit
        r.outcome = "violation";
        r.cls     = "exit";
        r.sig     = sh->ctx;
        r.msg     = "the process was ended by the code under test, status " + std::to_string(st);
    }
    return r;
}
static std::string case_text(const Driver &d, const Case &c) {
    std::ostringstream o;
    o << "driver " << d.name << "\nseed " << c.seed << "\n";
    for (auto &p : c.p) {
        o << "p " << p.first << " " << p.second;
        auto it = c.simplest.find(p.first);
        if (it != c.simplest.end()) o << " simplest " << it->second;
        o << "\n";
    }
    for (auto &v : c.ops) {
        o << "op";
        for (auto x : v) o << " " << x;
        o << "\n";
    }
    return o.str();
}
static std::string choices_text() {
    std::ostringstream o;
    for (int i = 0; i < sh->nchoices; i++) o << "choice " << sh->kinds[sh->choices[i].kind] << " " << sh->choices[i].index << " " << sh->choices[i].value << "\n";
    return o.str();
}
static const Driver *find_driver(const std::string &n) {
    for (int i = 0; driver_table[i]; i++)
        if (n == driver_table[i]->name) return driver_table[i];
    fprintf(stderr, "no driver %s\n", n.c_str());
    exit(4);
}
static void load_known(const std::string &f) {
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        size_t t = l.find('\t');
        if (t != std::string::npos) g.known.push_back({l.substr(0, t), l.substr(t + 1)});
    }
}
static void print_result(std::ostream &o, const Result &r) {
    o << "{\"outcome\":" << esc(r.outcome) << ",\"cls\":" << esc(r.cls) << ",\"sig\":" << esc(r.sig) << ",\"msg\":" << esc(r.msg) << ",\"ctx\":" << esc(sh->ctx)
      << ",\"hash\":" << esc(std::to_string(sh->hash)) << ",\"steps\":" << sh->steps << ",\"switches\":" << sh->switches << ",\"nchoices\":" << sh->nchoices << ",\"truncated\":" << sh->truncated << "}";
}
static int cb(struct dl_phdr_info *i, size_t, void *) {
    g.exe_base = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            auto &h     = i->dlpi_phdr[k];
            size_t al   = h.p_align ? h.p_align : 1;
            g.tls_size  = h.p_memsz;
            g.tls_init  = h.p_filesz;
            g.tls_image = (const char *)(i->dlpi_addr + h.p_vaddr);
            g.tls       = (char *)__builtin_thread_pointer() - (h.p_memsz + al - 1) / al * al;
        }
    g.errno_at = &errno;
    return 1;
}
int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    g.sim_depth = 1;
    __libc_single_threaded = 0; // fibers are threads: libstdc++ must use its atomic reference counts
    dl_iterate_phdr(cb, nullptr);
    arena_init();
    sh   = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g.sh = sh;
    std::map<std::string, std::string> a;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char *k, long long def) { return a.count(k) ? atoll(a[k].c_str()) : def; };
    if (a.count("--known")) load_known(a["--known"]);
    bool verbose = num("-v", 0);
    int limit    = (int)num("--limit", 60);

    if (cmd == "run") {
        const Driver *d = find_driver(a["--driver"]);
        uint64_t base   = strtoull(a["--seed"].c_str(), nullptr, 10);
        long long start = num("--start", 0), step = num("--step", 1), cnt = num("--count", 1);
        int tier        = (int)num("--tier", 0);
        double tmax     = (double)num("--time", 1000000);
        long long twice = num("--twice", 0), maxviol = num("--maxviol", 3), hashes = num("--hashes", 0);
        std::ofstream out(a["--out"]);
        double t0 = wall();
        std::map<std::string, uint64_t> counters;
        std::set<uint64_t> distinct;
        std::set<std::string> classes;
        uint64_t maxsteps = 0, nrun = 0, steps = 0, simtime = 0, switches = 0, nondet = 0, rechecked = 0, nterm = 0, nontrivial = 0;
        for (long long k = 0; k < cnt; k++) {
            if (wall() - t0 > tmax) break;
            long long idx = start + k * step;
            Case c;
            uint64_t cs = mix(base, (uint64_t)idx + 1);
            c.seed      = mix(cs, 5);
            Rng w(mix(cs, 9));
            d->generate(c, w, tier);
            Result r = run_case(*d, c, nullptr, verbose, limit);
            if (verbose) std::cerr << case_text(*d, c);
            nrun++;
            steps += sh->steps;
            maxsteps = std::max<uint64_t>(maxsteps, sh->steps);
            simtime += sh->now;
            switches += sh->switches;
            if (r.msg == "terminated") nterm++;
            bool fresh = false;
            {
                // what happened: schedule, faults and results
                uint64_t h = sh->sched_hash;
                for (int i = 0; i < sh->nchoices; i++) h = mix(h, ((uint64_t)sh->choices[i].kind << 48) ^ (sh->choices[i].index << 20) ^ sh->choices[i].value);
                for (auto &p : c.p) h = mix(h, (uint64_t)p.second);
                for (auto &v : c.ops) for (auto x : v) h = mix(h, (uint64_t)x);
                fresh = distinct.insert(h).second;
            }
            bool nt = false;
            for (int i = 0; i < sh->ncounters; i++) {
                counters[sh->counter_names[i]] += sh->counters[i];
                if (!strcmp(sh->counter_names[i], "nontrivial")) nt = true;
            }
            if (nt && fresh) nontrivial++;
            for (int i = 0; i < sh->nknown; i++) out << "{\"type\":\"known\",\"key\":" << esc(sh->known[i]) << ",\"index\":" << idx << "}\n";
            if (r.outcome != "ok") {
                std::string key = r.outcome + r.cls + r.sig;
                if (classes.insert(key).second) {
                    out << "{\"type\":\"" << (r.outcome == "error" ? "error" : "violation") << "\",\"index\":" << idx << ",\"result\":";
                    print_result(out, r);
                    out << ",\"case\":" << esc(case_text(*d, c)) << ",\"choices\":" << (sh->truncated ? esc("") : esc(choices_text())) << "}\n";
                    out.flush();
                }
                if ((long long)classes.size() >= maxviol) break;
            } else {
                if (hashes && nrun <= (uint64_t)hashes) out << "{\"type\":\"hash\",\"index\":" << idx << ",\"hash\":" << esc(std::to_string(sh->hash)) << "}\n";
                if (k == 0 || k == 7) out << "{\"type\":\"sample\",\"index\":" << idx << ",\"case\":" << esc(case_text(*d, c)) << ",\"steps\":" << sh->steps << ",\"switches\":" << sh->switches << ",\"hash\":" << esc(std::to_string(sh->hash)) << "}\n";
            }
            if (twice && k % twice == 0) {
                uint64_t h = sh->hash;
                Result r2  = run_case(*d, c, nullptr, false, limit);
                rechecked++;
                if (sh->hash != h || r2.outcome != r.outcome) {
                    nondet++;
                    out << "{\"type\":\"nondet\",\"index\":" << idx << "}\n";
                }
            }
        }
        out << "{\"type\":\"summary\",\"runs\":" << nrun << ",\"steps\":" << steps << ",\"simtime\":" << simtime << ",\"switches\":" << switches << ",\"nondet\":" << nondet << ",\"rechecked\":" << rechecked << ",\"terminated\":" << nterm
            << ",\"distinct\":" << distinct.size() << ",\"nontrivial\":" << nontrivial << ",\"maxsteps\":" << maxsteps << ",\"wall\":" << (wall() - t0) << ",\"counters\":{";
        bool first = true;
        for (auto &k : counters) {
            out << (first ? "" : ",") << esc(k.first) << ":" << k.second;
            first = false;
        }
        out << "}}\n";
        return 0;
    }
    if (cmd == "replay") {
        std::ifstream in(a["--file"]);
        std::string l;
        Case c;
        ChoiceList list;
        bool use_list   = false;
        std::string drv;
        while (std::getline(in, l)) {
            std::istringstream s(l);
            std::string k;
            s >> k;
            if (k == "driver") s >> drv;
            else if (k == "seed") s >> c.seed;
            else if (k == "p") {
                std::string n, w;
                int64_t v, sm;
                s >> n >> v;
                c.p[n] = v;
                if (s >> w >> sm) c.simplest[n] = sm;
            } else if (k == "op") {
                std::vector<int64_t> v;
                int64_t x;
                while (s >> x) v.push_back(x);
                c.ops.push_back(v);
            } else if (k == "mode") {
                std::string m;
                s >> m;
                use_list = m == "list";
            } else if (k == "choice") {
                std::string kind;
                uint64_t i;
                uint32_t v;
                s >> kind >> i >> v;
                list.push_back({kind, {i, v}});
            }
        }
        const Driver *d = find_driver(drv);
        Result r        = run_case(*d, c, use_list ? &list : nullptr, verbose, limit);
        print_result(std::cout, r);
        std::cout << "\n";
        if (num("--choices", 0)) std::cout << choices_text();
        return 0;
    }
    if (cmd == "list") {
        for (int i = 0; driver_table[i]; i++) printf("%s\n", driver_table[i]->name);
        return 0;
    }
    fprintf(stderr, "usage: drv run|replay|list ...\n");
    return 4;
}
