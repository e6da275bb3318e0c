// Disk and allocation faults shared by the storage drivers.
#pragma once
#include "common.hpp"
#include "logcapture.hpp"
#include <cerrno>
namespace drv {
// ---------------------------------------------------------------- faults
enum { F_NONE,
       F_ROUGH,    // short and interrupted transfers only
       F_OPEN,     // open fails
       F_ERROR,    // one call fails, and all after it
       F_FULL,     // the disk is full after some bytes
       F_CRASH,    // the machine stops during the operation
       F_ALLOC,    // one allocation fails
       FAULTS };
inline sim::DiskPlan plan_of(int fault, int64_t arg, bool rough) {
    static const int errs[] = {EIO, ENOSPC, EDQUOT, EIO};
    sim::DiskPlan d;
    if (rough || fault == F_ROUGH) d.short_io = 0.5, d.eintr = 0.3;
    if (fault == F_OPEN) d.open_fail = (const int[]){EACCES, EMFILE, ENOSPC, EIO}[arg % 4];
    if (fault == F_ERROR) d.fail_op = arg % 9, d.fail_errno = errs[arg % 4];
    if (fault == F_FULL) d.capacity = arg % 3000;
    if (fault == F_CRASH) d.crash_op = arg % 9;
    d.tear = 0; // a prefix of what was written survives
    return d;
}
inline void arm(int fault, int64_t arg, bool rough) {
    sim::disk_reset_ops();
    sim::disk_plan(plan_of(fault, arg, rough));
    sim::alloc_reset();
    if (fault == F_ALLOC) {
        sim::AllocPlan a;
        a.fail_at = arg % 2 ? arg / 4 % 5 : arg / 4 % 100;
        a.sticky  = (arg / 2) % 2;
        sim::alloc_plan(a);
    }
}
inline void disarm() {
    sim::disk_plan(sim::DiskPlan());
    sim::alloc_plan(sim::AllocPlan());
}
inline bool hard() { return sim::disk_fired() || sim::alloc_fired(); }
} // namespace drv
