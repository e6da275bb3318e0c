// Every clock the code can read is the simulated one; C randomness is seeded.
#include "sim_int.h"
#include <chrono>
#include <ctime>
#include <dlfcn.h>
#include <sys/time.h>
using namespace sim;
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000ll + (long long)sim::now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1700000000000000000ll + (long long)sim::now())); }
} // namespace _V2
} // namespace chrono
} // namespace std
extern "C" {
time_t time(time_t *t) {
    time_t v = 1700000000 + (time_t)(sim::now() / 1000000000ull);
    if (t) *t = v;
    return v;
}
static uint64_t rnd_state = 1;
void srand(unsigned s) { rnd_state = s; }
int rand() {
    rnd_state = mix(rnd_state, 77);
    return (int)(rnd_state & 0x7fffffff);
}
}
