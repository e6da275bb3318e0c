// A simulated disk. Paths below /simdisk/ live in memory; every open, read, write and close is a
// place where a fault or a crash can happen. Other paths go to the real system.
#include "sim_int.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <sys/ioctl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
struct Node {
    std::string data;
    size_t synced = 0; // bytes known durable
};
struct Open {
    std::string path;
    size_t pos  = 0;
    bool append = false, rd = false, wr = false;
};
struct Disk {
    std::map<std::string, Node> files;
    std::map<int, Open> fds;
    DiskPlan plan;
    uint64_t ops = 0;
    bool fired   = false;
    int64_t written = 0;
    bool crashed = false;
    std::map<std::string, Node> at_crash;
};
static Disk *disk;
static Disk &D() {
    if (!disk) {
        SimScope ss;
        disk = new Disk();
    }
    return *disk;
}
static bool ours(const char *p) { return p && !strncmp(p, "/simdisk/", 9); }
void disk_plan(const DiskPlan &p) { D().plan = p; }
void disk_reset_ops() { D().ops = 0; D().fired = false; D().written = 0; D().crashed = false; D().plan = DiskPlan(); }
uint64_t disk_ops() { return D().ops; }
bool disk_fired() { return D().fired; }
bool disk_exists(const std::string &p) { SimScope ss; return D().files.count(p); }
std::string disk_read(const std::string &p) { SimScope ss; auto it = D().files.find(p); return it == D().files.end() ? std::string() : it->second.data; }
void disk_write(const std::string &p, const std::string &c) { SimScope ss; Node &n = D().files[p]; n.data = c; n.synced = c.size(); }
void disk_remove(const std::string &p) { SimScope ss; D().files.erase(p); }
void disk_reset() { SimScope ss; D().files.clear(); disk_reset_ops(); }
std::vector<std::string> disk_list() { SimScope ss; std::vector<std::string> v; for (auto &f : D().files) v.push_back(f.first); return v; }
void disk_crash() {
    SimScope ss;
    count("fault.crash");
    if (D().crashed) D().files = D().at_crash;
    D().crashed = false;
    for (auto &f : D().files) {
        Node &n = f.second;
        if (n.data.size() > n.synced) {
            size_t un   = n.data.size() - n.synced;
            size_t keep = n.synced + choose("disk.keep", (uint32_t)un + 1);
            // benign default 0 keeps nothing that was not synced
            n.data.resize(keep);
            if (keep > n.synced && chance("disk.torn", D().plan.tear)) { // a block in the middle never reached the disk
                size_t a = n.synced + choose("disk.tear_at", (uint32_t)(keep - n.synced));
                size_t b = std::min(keep, a + 1 + choose("disk.tear_len", 64));
                for (size_t i = a; i < b; i++) n.data[i] = 0;
                count("fault.torn_write");
            }
            count("fault.lost_write");
        }
        n.synced = n.data.size();
    }
}
// Called at each I/O operation; returns an errno to fail with, or 0.
static int op(const char *what, bool may_fail = true) {
    Disk &d    = D();
    if (g.live) sync_point("disk"); // other callers may run before the operation takes effect
    uint64_t i = d.ops++;
    note(i ^ 0xd15c);
    if ((int64_t)i == d.plan.crash_op && !d.crashed) {
        // The machine stops here: nothing after this point reaches the disk (disk_crash() goes back to it).
        d.fired   = true;
        d.crashed = true;
        d.at_crash = d.files;
        logf("machine stops at disk operation %llu (%s)", (unsigned long long)i, what);
    }
    if (may_fail && (int64_t)i == d.plan.fail_op) {
        d.fired = true;
        count((std::string("fault.disk_") + what).c_str());
        logf("disk operation %llu (%s) fails with errno %d", (unsigned long long)i, what, d.plan.fail_errno);
        return d.plan.fail_errno;
    }
    return 0;
}
static int new_fd() { return memfd_create("simdisk", 0); }

static int do_open(const char *path, int flags) {
    SimScope ss;
    Disk &d = D();
    bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY;
    int e = op("open", false);
    if (d.plan.open_fail) {
        e = d.plan.open_fail;
        d.plan.open_fail = 0;
        d.fired = true;
        count("fault.disk_open");
    }
    if (e) {
        errno = e;
        return -1;
    }
    auto it = d.files.find(path);
    if (it == d.files.end()) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        d.files[path];
    } else if (flags & O_EXCL && flags & O_CREAT) {
        errno = EEXIST;
        return -1;
    }
    if (flags & O_TRUNC && wr) {
        d.files[path].data.clear();
        d.files[path].synced = 0;
    }
    int fd = new_fd();
    if (fd < 0) sim_error("memfd_create failed");
    Open o;
    o.path   = path;
    o.rd     = rd;
    o.wr     = wr;
    o.append = flags & O_APPEND;
    if (o.append) o.pos = d.files[path].data.size();
    d.fds[fd] = o;
    logf("open %s %s", path, wr ? (rd ? "rw" : "w") : "r");
    return fd;
}
static ssize_t do_write(Open &o, const char *b, size_t n) {
    SimScope ss;
    Disk &d = D();
    if (!n) return 0;
    if (chance("disk.eintr", d.plan.eintr)) {
        count("fault.eintr");
        errno = EINTR;
        return -1;
    }
    int e = op("write");
    if (e) {
        if (e == ENOSPC || e == EIO) { // part of the data may have been written
            size_t part = choose("disk.partial", (uint32_t)n);
            Node &nd    = d.files[o.path];
            if (o.append) o.pos = nd.data.size();
            if (nd.data.size() < o.pos + part) nd.data.resize(o.pos + part);
            memcpy(&nd.data[0] + o.pos, b, part);
            o.pos += part;
            if (part) {
                d.plan.fail_op = (int64_t)d.ops; // the next call then reports the error
                return (ssize_t)part;
            }
        }
        d.plan.fail_op = (int64_t)d.ops; // a full or broken disk stays so
        errno = e;
        return -1;
    }
    size_t k = n;
    if (n > 1 && chance("disk.short", d.plan.short_io)) {
        k = 1 + choose("disk.len", (uint32_t)n - 1);
        count("fault.short_write");
    }
    if (d.plan.capacity >= 0) {
        int64_t left = d.plan.capacity - d.written;
        if (left <= 0) {
            d.fired = true;
            count("fault.disk_full");
            errno = ENOSPC;
            return -1;
        }
        if ((int64_t)k > left) k = (size_t)left;
    }
    Node &nd = d.files[o.path];
    if (o.append) o.pos = nd.data.size();
    if (nd.data.size() < o.pos + k) nd.data.resize(o.pos + k);
    memcpy(&nd.data[0] + o.pos, b, k);
    o.pos += k;
    d.written += (int64_t)k;
    return (ssize_t)k;
}
static ssize_t do_read(Open &o, char *b, size_t n) {
    SimScope ss;
    Disk &d = D();
    if (chance("disk.eintr", d.plan.eintr)) {
        count("fault.eintr");
        errno = EINTR;
        return -1;
    }
    int e = op("read");
    if (e) {
        d.plan.fail_op = (int64_t)d.ops;
        errno = e;
        return -1;
    }
    Node &nd = d.files[o.path];
    size_t have = o.pos < nd.data.size() ? nd.data.size() - o.pos : 0;
    size_t k = std::min(n, have);
    if (k > 1 && chance("disk.short", d.plan.short_io)) {
        k = 1 + choose("disk.len", (uint32_t)k - 1);
        count("fault.short_read");
    }
    memcpy(b, nd.data.data() + o.pos, k);
    o.pos += k;
    return (ssize_t)k;
}
static Open *find(int fd) {
    if (!disk) return nullptr;
    auto it = disk->fds.find(fd);
    return it == disk->fds.end() ? nullptr : &it->second;
}
template <class F>
static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static int flags_of(const char *mode) {
    bool plus = strchr(mode, '+');
    switch (mode[0]) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
}
static FILE *sim_fopen(const char *p, const char *m) {
    SimScope ss;
    int fd = do_open(p, flags_of(m));
    if (fd < 0) return nullptr;
    // plain C stdio on the stream works on the placeholder: give it the content
    std::string &s = D().files[p].data;
    if (!s.empty() && find(fd)->rd) {
        auto w = next<ssize_t (*)(int, const void *, size_t)>("write");
        if (w(fd, s.data(), s.size()) < 0) {}
        lseek(fd, 0, SEEK_SET);
    }
    std::string mm = m;
    if (mm[0] == 'w') mm[0] = 'r', mm = "r+";
    if (mm[0] == 'a') mm = "r+";
    return fdopen(fd, find(fd)->wr ? "r+" : "r");
}
} // namespace sim
using namespace sim;
extern "C" {
FILE *fopen(const char *p, const char *m) { return ours(p) ? sim_fopen(p, m) : next<FILE *(*)(const char *, const char *)>("fopen")(p, m); }
FILE *fopen64(const char *p, const char *m) { return ours(p) ? sim_fopen(p, m) : next<FILE *(*)(const char *, const char *)>("fopen64")(p, m); }
int fclose(FILE *f) {
    static auto real = next<int (*)(FILE *)>("fclose");
    int fd           = f ? fileno(f) : -1;
    if (!find(fd)) return real(f);
    SimScope ss;
    Open o = *find(fd);
    fflush(f);
    if (o.wr) { // data written with C stdio went to the placeholder
        struct stat st;
        auto rfs = next<int (*)(int, struct stat *)>("fstat");
        if (rfs && rfs(fd, &st) == 0 && st.st_size > 0 && D().files[o.path].data.empty()) {
            std::string s((size_t)st.st_size, '\0');
            auto rpread = next<ssize_t (*)(int, void *, size_t, off_t)>("pread");
            if (rpread(fd, &s[0], s.size(), 0) == (ssize_t)s.size()) D().files[o.path].data = s;
        }
    }
    disk->fds.erase(fd);
    real(f);
    int e = o.wr ? op("close") : 0;
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}
int open(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (ours(p)) return do_open(p, fl);
    return next<int (*)(const char *, int, ...)>("open")(p, fl, mode);
}
int open64(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (ours(p)) return do_open(p, fl);
    return next<int (*)(const char *, int, ...)>("open64")(p, fl, mode);
}
int close(int fd) {
    static auto real = next<int (*)(int)>("close");
    Open *o          = find(fd);
    if (!o) return real(fd);
    SimScope ss;
    bool wr = o->wr;
    disk->fds.erase(fd);
    real(fd);
    int e = wr ? op("close") : 0;
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    static auto real = next<ssize_t (*)(int, const void *, size_t)>("write");
    Open *o          = find(fd);
    return o ? do_write(*o, (const char *)b, n) : real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    static auto real = next<ssize_t (*)(int, const struct iovec *, int)>("writev");
    Open *o          = find(fd);
    if (!o) return real(fd, v, c);
    SimScope ss;
    std::string s;
    for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
    return do_write(*o, s.data(), s.size());
}
ssize_t read(int fd, void *b, size_t n) {
    static auto real = next<ssize_t (*)(int, void *, size_t)>("read");
    Open *o          = find(fd);
    return o ? do_read(*o, (char *)b, n) : real(fd, b, n);
}
off_t lseek(int fd, off_t off, int wh) {
    static auto real = next<off_t (*)(int, off_t, int)>("lseek");
    Open *o          = find(fd);
    if (!o) return real(fd, off, wh);
    size_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : disk->files[o->path].data.size();
    o->pos      = base + (size_t)off;
    return (off_t)o->pos;
}
off64_t lseek64(int fd, off64_t off, int wh) {
    static auto real = next<off64_t (*)(int, off64_t, int)>("lseek64");
    return find(fd) ? (off64_t)lseek(fd, (off_t)off, wh) : real(fd, off, wh);
}
int fstat(int fd, struct stat *st) {
    static auto real = next<int (*)(int, struct stat *)>("fstat");
    int r            = real(fd, st);
    Open *o          = find(fd);
    if (o && r == 0) st->st_size = (off_t)disk->files[o->path].data.size();
    return r;
}
int fstat64(int fd, struct stat64 *st) {
    static auto real = next<int (*)(int, struct stat64 *)>("fstat64");
    int r            = real(fd, st);
    Open *o          = find(fd);
    if (o && r == 0) st->st_size = (off64_t)disk->files[o->path].data.size();
    return r;
}
int fsync(int fd) {
    static auto real = next<int (*)(int)>("fsync");
    Open *o          = find(fd);
    if (!o) return real(fd);
    SimScope ss;
    int e = op("fsync");
    if (e) {
        errno = e;
        return -1;
    }
    Node &n  = disk->files[o->path];
    n.synced = n.data.size();
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *a = va_arg(ap, void *);
    va_end(ap);
    Open *o = find(fd);
    if (o && req == FIONREAD) {
        size_t sz = disk->files[o->path].data.size();
        *(int *)a = (int)(sz > o->pos ? sz - o->pos : 0);
        return 0;
    }
    static auto real = next<int (*)(int, unsigned long, ...)>("ioctl");
    return real(fd, req, a);
}
int rename(const char *a, const char *b) {
    if (!ours(a)) return next<int (*)(const char *, const char *)>("rename")(a, b);
    SimScope ss;
    int e = op("rename");
    if (!e && !D().files.count(a)) e = ENOENT;
    if (e) {
        errno = e;
        return -1;
    }
    D().files[b] = D().files[a];
    D().files.erase(a);
    return 0;
}
int unlink(const char *a) {
    if (!ours(a)) return next<int (*)(const char *)>("unlink")(a);
    SimScope ss;
    int e = D().files.erase(a) ? 0 : ENOENT;
    errno = e;
    return e ? -1 : 0;
}
int remove(const char *a) { return ours(a) ? unlink(a) : next<int (*)(const char *)>("remove")(a); }
}
