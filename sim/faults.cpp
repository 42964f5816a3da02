#include "faults.hpp"
#include "prng.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
#include <atomic>
#include <semaphore.h>
#include <unordered_map>
#include <cmath>

extern "C" { void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); } // malloc of the linked objects is wrapped
#define malloc __real_malloc
#define free __real_free
namespace faults {
static thread_local int t_lib = 0;
void die(const char *cls, const std::string &msg) {
    t_lib = 0;
    std::string s = std::string("SIMFATAL ") + cls + " " + msg + "\n";
    ssize_t r = syscall(SYS_write, 2, s.data(), s.size()); (void)r;
    _exit(77);
}
// ------------------------------------------------------------------ allocator
template <class T> struct MallocAlloc {
    typedef T value_type; MallocAlloc() {} template <class U> MallocAlloc(const MallocAlloc<U> &) {}
    T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); }
    template <class U> bool operator==(const MallocAlloc<U> &) const { return true; } template <class U> bool operator!=(const MallocAlloc<U> &) const { return false; }
};
typedef std::unordered_map<void *, size_t, std::hash<void *>, std::equal_to<void *>, MallocAlloc<std::pair<void *const, size_t>>> LiveMap;
static LiveMap &live() { static LiveMap *m = new (malloc(sizeof(LiveMap))) LiveMap(); return *m; }
static std::atomic_flag live_lock = ATOMIC_FLAG_INIT;
struct Spin { Spin() { while (live_lock.test_and_set(std::memory_order_acquire)) {} } ~Spin() { live_lock.clear(std::memory_order_release); } };
static long g_fail_at = 0, g_allocs = 0; static bool g_fired = false;
static size_t g_live_bytes = 0;
void lib_enter() { ++t_lib; }
void lib_leave() { --t_lib; }
void alloc_fail_at(long k) { g_fail_at = k; g_allocs = 0; g_fired = false; }
void disarm() { g_fail_at = 0; }
bool alloc_fired() { return g_fired; }
long lib_allocs() { return g_allocs; }
long lib_live() { return (long)live().size(); }
void lib_forget() { live().clear(); g_live_bytes = 0; }
static void *do_new(size_t n, bool nothrow) {
    if (t_lib > 0) {
        ++g_allocs;
        if (g_fail_at > 0 && g_allocs == g_fail_at) { g_fired = true; g_fail_at = 0; if (nothrow) return nullptr; throw std::bad_alloc(); }
        void *p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        int k = t_lib; t_lib = 0;
        memset(p, (int)(0x5a + 37 * (g_allocs & 7)), n < 4096 ? n : 4096); // uninitialised memory differs from one allocation to the next
        { Spin sp; live().emplace(p, n); g_live_bytes += n; }
        t_lib = k;
        if (g_live_bytes > (size_t)1 << 30) die("runaway", "more than 1 GiB of live memory");
        return p;
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_delete(void *p) {
    if (!p) return;
    { Spin sp; auto &m = live(); auto it = m.find(p); if (it != m.end()) { g_live_bytes -= it->second; m.erase(it); } }
    free(p);
}
static void track(void *p, size_t n) { int k = t_lib; t_lib = 0; { Spin sp; live().emplace(p, n); g_live_bytes += n; } t_lib = k; }
static void untrack(void *p) { Spin sp; auto &m = live(); auto it = m.find(p); if (it != m.end()) { g_live_bytes -= it->second; m.erase(it); } }
static bool c_fails() { ++g_allocs; if (g_fail_at > 0 && g_allocs == g_fail_at) { g_fired = true; g_fail_at = 0; return true; } return false; }
void *c_malloc(size_t n) {
    if (t_lib <= 0) return __real_malloc(n);
    if (c_fails()) return nullptr;
    void *p = __real_malloc(n ? n : 1);
    if (p) { memset(p, (int)(0x5a + 37 * (g_allocs & 7)), n < 4096 ? n : 4096); track(p, n); }
    return p;
}
void *c_realloc(void *q, size_t n) {
    if (t_lib <= 0) return __real_realloc(q, n);
    if (c_fails()) return nullptr;
    void *p = __real_realloc(q, n);
    if (p) { if (q) untrack(q); track(p, n); }
    return p;
}
void c_free(void *p) { if (p) untrack(p); __real_free(p); }
// ------------------------------------------------------------------ disk
static Disk g_disk; static bool g_disk_on = false; static DiskFired g_df; static long g_written = 0, g_read = 0, g_calls = 0;
void disk_set(const Disk &d) { g_disk = d; g_disk_on = true; g_df = DiskFired(); g_written = g_read = g_calls = 0; }
void disk_clear() { g_disk_on = false; g_df = DiskFired(); }
DiskFired disk_fired() { return g_df; }
static bool disk_active() { return g_disk_on && t_lib > 0; }
ssize_t sim_write(int fd, const void *b, size_t n) {
    if (!disk_active() || fd <= 2) return syscall(SYS_write, fd, b, n);
    ++g_calls;
    if (g_disk.eintr_every && g_calls % g_disk.eintr_every == 0) { ++g_df.eintr; errno = EINTR; return -1; }
    size_t m = n;
    if (g_disk.short_io && m > (size_t)g_disk.short_io) { m = g_disk.short_io; ++g_df.shorts; }
    if (g_disk.write_limit >= 0) {
        long left = g_disk.write_limit - g_written;
        if (left <= 0) {
            if (g_disk.silent_loss) { ++g_df.lost; return (ssize_t)m; }
            ++g_df.werr; errno = g_disk.write_errno; return -1;
        }
        if ((long)m > left) {
            if (g_disk.silent_loss) { ++g_df.lost; ssize_t r = syscall(SYS_write, fd, b, left); if (r > 0) g_written += r; return (ssize_t)m; }
            m = left; ++g_df.shorts;
        }
    }
    ssize_t r = syscall(SYS_write, fd, b, m);
    if (r > 0) g_written += r;
    return r;
}
ssize_t sim_read(int fd, void *b, size_t n) {
    if (!disk_active() || fd <= 2) return syscall(SYS_read, fd, b, n);
    ++g_calls;
    if (g_disk.eintr_every && g_calls % g_disk.eintr_every == 0) { ++g_df.eintr; errno = EINTR; return -1; }
    size_t m = n;
    if (g_disk.short_io && m > (size_t)g_disk.short_io) { m = g_disk.short_io; ++g_df.shorts; }
    if (g_disk.read_limit >= 0) {
        long left = g_disk.read_limit - g_read;
        if (left <= 0) { ++g_df.rerr; errno = g_disk.read_errno; return -1; }
        if ((long)m > left) m = left;
    }
    ssize_t r = syscall(SYS_read, fd, b, m);
    if (r > 0) g_read += r;
    return r;
}
// ------------------------------------------------------------------ edges, budget, schedule
static uint32_t n_guards = 0; static uint8_t *g_cov = nullptr; static uint16_t *g_cnt = nullptr; static size_t cap = 0;
static uint64_t g_edges = 0, g_budget = 0;
void budget(uint64_t e) { g_budget = e ? g_edges + e : 0; }
uint64_t edges_executed() { return g_edges; }
size_t edges_total() { return n_guards; }
std::vector<uint32_t> edges_hit() { std::vector<uint32_t> v; for (uint32_t i = 1; i <= n_guards; ++i) if (g_cov[i]) v.push_back(i); return v; }
void reset_path_hash() { if (g_cnt) memset(g_cnt, 0, cap * sizeof *g_cnt); }
uint64_t path_hash() {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t i = 1; i <= n_guards; ++i) if (g_cnt[i]) { int b = 0; for (uint32_t c = g_cnt[i]; c > 1; c >>= 2) ++b; h = (h ^ (((uint64_t)i << 4) | b)) * 1099511628211ull; }
    return h;
}
// scheduler state: exactly one registered thread runs at a time
struct Sched {
    int n = 0, cur = 0, alive = 0; std::vector<sem_t> sem; std::vector<char> done;
    Prng rng{1}; double mean = 100; uint64_t next = 0, base = 0; const std::vector<Switch> *replay = nullptr; size_t rp = 0;
    std::vector<Switch> trace;
};
static Sched *g_s = nullptr;
static thread_local int t_id = -1;
static void schedule_next() {
    Sched &s = *g_s;
    double u = ((s.rng.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
    uint64_t gap = (uint64_t)(-log(u) * s.mean) + 1;
    s.next = g_edges + gap;
}
static void switch_to(int k) {
    Sched &s = *g_s; int me = t_id;
    if (k == me) return;
    s.cur = k; sem_post(&s.sem[k]);
    int lib = t_lib; (void)lib;
    while (sem_wait(&s.sem[me]) != 0) {}
}
static int pick_other() { // another thread that is not finished, or -1
    Sched &s = *g_s; int c = 0; for (int i = 0; i < s.n; ++i) if (i != t_id && !s.done[i]) ++c;
    if (!c) return -1;
    int r = (int)s.rng.below(c); for (int i = 0; i < s.n; ++i) if (i != t_id && !s.done[i] && r-- == 0) return i;
    return -1;
}
static void preempt_point() {
    Sched &s = *g_s;
    if (s.replay) {
        while (s.rp < s.replay->size() && (*s.replay)[s.rp].edge + s.base <= g_edges) {
            int to = (*s.replay)[s.rp].to; ++s.rp;
            if (to >= 0 && to < s.n && !s.done[to] && to != t_id) { s.trace.push_back({g_edges - s.base, to}); switch_to(to); return; }
        }
        return;
    }
    if (g_edges < s.next) return;
    schedule_next();
    int k = pick_other();
    if (k >= 0) { s.trace.push_back({g_edges - s.base, k}); switch_to(k); }
}
// a thread blocked on a lock held by a parked thread must hand over the baton
static bool blocked_yield() {
    Sched *s = g_s; if (!s || t_id < 0) return false;
    for (int d = 1; d <= s->n; ++d) { int k = (t_id + d) % s->n; if (k != t_id && !s->done[k]) { switch_to(k); return true; } }
    die("deadlock", "every simulated thread is blocked");
}
void arm(uint64_t e) { if (!g_s) budget(e); }
SchedResult run_threads(std::vector<std::function<void()>> bodies, uint64_t seed, double mean_gap, const std::vector<Switch> *replay) {
    Sched s; s.n = (int)bodies.size(); s.sem.resize(s.n); s.done.assign(s.n, 0); s.rng = Prng(seed); s.mean = mean_gap; s.replay = replay; s.base = g_edges;
    for (auto &x : s.sem) sem_init(&x, 0, 0);
    std::vector<std::thread> th; g_s = &s; schedule_next();
    sem_t all; sem_init(&all, 0, 0);
    for (int i = 0; i < s.n; ++i) th.emplace_back([&, i] {
        while (sem_wait(&s.sem[i]) != 0) {}
        t_id = i; bodies[i](); t_id = -1; s.done[i] = 1;
        int k = -1; for (int d = 1; d < s.n; ++d) { int c = (i + d) % s.n; if (!s.done[c]) { k = c; break; } }
        if (k >= 0) { s.cur = k; sem_post(&s.sem[k]); } else sem_post(&all);
    });
    sem_post(&s.sem[0]);
    while (sem_wait(&all) != 0) {}
    for (auto &t : th) t.join();
    g_s = nullptr;
    for (auto &x : s.sem) sem_destroy(&x);
    return {s.trace, g_edges - s.base};
}
} // namespace faults
using namespace faults;
extern "C" { void *__wrap_malloc(size_t n) { return c_malloc(n); } void *__wrap_realloc(void *p, size_t n) { return c_realloc(p, n); } void __wrap_free(void *p) { c_free(p); } }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (uint32_t *x = a; x < b; ++x) *x = ++n_guards;
    if (n_guards + 1 > cap) { size_t c = n_guards + 4096; g_cov = (uint8_t *)realloc(g_cov, c); memset(g_cov + cap, 0, c - cap); g_cnt = (uint16_t *)realloc(g_cnt, c * 2); memset(g_cnt + cap, 0, (c - cap) * 2); cap = c; }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (t_lib <= 0) return; // inline library code run by the harness itself does not count
    ++g_edges; g_cov[*g] = 1; if (g_cnt[*g] != 65535) ++g_cnt[*g];
    if (g_budget && g_edges > g_budget) die("hang", "instruction budget of the step exhausted");
    if (t_id >= 0 && g_s) preempt_point();
}
void *operator new(size_t n) { return do_new(n, false); }
void *operator new[](size_t n) { return do_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, true); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
extern "C" {
ssize_t write(int fd, const void *b, size_t n) { return sim_write(fd, b, n); }
ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!disk_active() || fd <= 2) return syscall(SYS_writev, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t)r < v[i].iov_len) return tot;
    }
    return tot;
}
static FILE *real_fopen(const char *p, const char *m) { static FILE *(*f)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) {
    if (disk_active() && g_disk.open_errno) { ++g_df.open; errno = (int)g_disk.open_errno; return nullptr; }
    return real_fopen(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }
int fclose(FILE *f) {
    static int (*g)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    int r = g(f);
    if (disk_active() && g_disk.close_errno) { ++g_df.close; errno = g_disk.close_errno; return EOF; }
    return r;
}
// locks taken by the code under test: never block while holding the baton
int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*g)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (t_id < 0 || !g_s) return g(m);
    int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) blocked_yield();
    return r;
}
int __cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *)g;
    while (true) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        uint8_t z = 0;
        if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { b[1] = 0; return 0; } return 1; }
        if (!blocked_yield()) sched_yield();
    }
}
void __cxa_guard_release(uint64_t *g) { uint8_t *b = (uint8_t *)g; __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t *g) { ((uint8_t *)g)[1] = 0; }
}
