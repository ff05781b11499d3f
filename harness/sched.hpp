// A controlled scheduler for the real code. Each participant is a coroutine; it may be preempted where it
// takes a lock, sleeps, or touches memory shared with the others. The library is compiled with
// -fsanitize=thread, but linked with the runtime below instead of the sanitizer's: every access to the
// shared segment is seen here. A schedule is a list of choices; all of them are enumerated depth first.
//
// Preempting only at locks is enough as long as no two unordered accesses conflict; this is checked in
// every schedule (vector clocks), and where it fails the schedules that preempt at every access to the
// shared segment are enumerated too.
#pragma once
#include "hx.hpp"
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <ucontext.h>
namespace sc {
using namespace hx;
#ifndef SC_STACK
#define SC_STACK 256 * 1024
#endif
enum { MAXT = 4, STACK = SC_STACK };
struct Choice { int n, pick; };
struct Co {
    ucontext_t u; char * stack; std::function<void()> body; bool done; void * wait; int impatient, slept, nopoint, patience; bool asleep; uint32_t vc[MAXT]; long op;
};
inline Co co[MAXT]; inline int nco, cur = -1; inline ucontext_t mainctx;
inline std::vector<Choice> path; inline size_t at; inline int preempt, bound; inline bool fine; inline long steps, steplimit; inline long alone;
inline std::string err; inline std::string sched;         // what went wrong; the schedule
inline bool race; inline std::string racewhat;
inline char * lo, * hi;                                    // the shared segment
inline bool ro[MAXT + 1];                                  // its protection if each participant is a process, and if all are threads of one
inline char * plo, * phi;
struct Lock { void * p; int owner; uint32_t vc[MAXT]; }; inline Lock locks[64]; inline int nlocks;
struct Shadow { uint32_t gen; uint32_t w, wt; uint32_t r[MAXT]; }; inline std::vector<Shadow> shadow; inline uint32_t gen;
inline Lock & lk(void * p) { for (int i = 0; i < nlocks; i++) if (locks[i].p == p) return locks[i]; Lock & l = locks[nlocks++ % 64]; memset(&l, 0, sizeof l); l.p = p; l.owner = -1; return l; }
inline char * tls; inline size_t tlsn; inline char tlss[MAXT + 1][32768];     // thread-local variables: each participant has its own
inline void sw(int to) {
    int from = cur; cur = to;
    if (from == to) return;
    if (tlsn) { memcpy(tlss[from + 1], tls, tlsn); memcpy(tls, tlss[to + 1], tlsn); }
    swapcontext(from < 0 ? &mainctx : &co[from].u, to < 0 ? &mainctx : &co[to].u);
}
inline void quit(const std::string & e) { if (err.empty()) err = e; sw(-1); abort(); }   // leaves the execution for good
inline int choose(int n) {
    if (n <= 1) return 0;
    if (at < path.size()) { if (path[at].n != n) { err = "the schedule cannot be repeated"; sw(-1); } return path[at++].pick; }
    path.push_back({n, 0}); at++;
    return 0;
}
// the next participant; free: leaving the current one costs no preemption
inline void pick(bool stay, bool free) {
    int opt[MAXT], n = 0;
    if (++steps > steplimit) quit(fmt("an operation does not end (%ld steps)", steps));
    if (stay && !free) opt[n++] = cur;
    if (free || !stay || preempt < bound) for (int i = 0; i < nco; i++) if (i != cur && !co[i].done && !(co[i].wait && lk(co[i].wait).owner >= 0)) opt[n++] = i;
    if (stay && free) opt[n++] = cur;
    if (!n) {
        bool all = true; for (int i = 0; i < nco; i++) if (!co[i].done) all = false;
        if (!all) quit("all participants wait for a lock: deadlock");
        sw(-1); return;
    }
    int t = opt[choose(n)];
    if (t != cur) { if (stay && !free) preempt++; alone = 0; sched += (char) ('0' + t); }
    sw(t);
}
inline void point() { if (cur < 0) return; if (co[cur].nopoint) co[cur].nopoint = 0; else pick(true, false); }   // nopoint: just scheduled
inline void yielded() { if (cur >= 0) pick(true, true); }
inline void lock(void * p) {
    if (cur < 0) { lk(p).owner = MAXT; return; }
    point();
    while (lk(p).owner >= 0) { if (lk(p).owner == cur) quit("a participant locks what it holds already"); co[cur].wait = p; pick(false, false); co[cur].wait = nullptr; }
    Lock & l = lk(p); l.owner = cur;
    for (int i = 0; i < MAXT; i++) co[cur].vc[i] = std::max(co[cur].vc[i], l.vc[i]);
}
inline bool trylock(void * p) {
    if (cur < 0) { lk(p).owner = MAXT; return true; }
    point();
    if (lk(p).owner >= 0) { if (++alone > 20) { alone = 0; yielded(); } return false; }
    Lock & l = lk(p); l.owner = cur;
    for (int i = 0; i < MAXT; i++) co[cur].vc[i] = std::max(co[cur].vc[i], l.vc[i]);
    return true;
}
inline void unlock(void * p) {
    Lock & l = lk(p);
    if (cur >= 0) {
        if (l.owner != cur) quit("a participant unlocks what it does not hold");
        memcpy(l.vc, co[cur].vc, sizeof l.vc); co[cur].vc[cur]++;
    }
    l.owner = -1;
}
inline void word(size_t i, bool w, const void * a) {
    Shadow & s = shadow[i];
    if (s.gen != gen) { memset(&s, 0, sizeof s); s.gen = gen; }
    Co & c = co[cur];
    bool r = s.w && (int) s.wt != cur && s.w > c.vc[s.wt];
    if (w) for (int j = 0; j < MAXT; j++) if (j != cur && s.r[j] > c.vc[j]) r = true;
    if (r && !race) { race = true; racewhat = i ? fmt("offset %zd", (char *) a - lo) : "protection"; }
    if (w) { s.w = c.vc[cur]; s.wt = cur; } else s.r[cur] = c.vc[cur];
}
inline void access(const void * a, size_t n, bool w) {
    if (cur < 0 || (char *) a < lo || (char *) a >= hi || !n) return;
    if (fine) { point(); if (++alone > 2000) { alone = 0; yielded(); } }
    if (w && (char *) a + n > plo && (char *) a < phi) { if (ro[cur] || ro[MAXT]) quit(fmt("a write to offset %zd while the segment is protected: the process would be killed", (char *) a - lo)); word(0, false, a); }
    size_t b = ((char *) a - lo) / 8, e = ((char *) a + n - 1 - lo) / 8;
    for (size_t i = b; i <= e && i + 1 < shadow.size(); i++) word(i + 1, w, a);
}
inline void sync(const void * a, bool acq, bool rel) { // atomics
    if (cur < 0) return;
    point(); if (++alone > 200) { alone = 0; yielded(); }
    Lock & l = lk((void *) a);
    if (acq) for (int i = 0; i < MAXT; i++) co[cur].vc[i] = std::max(co[cur].vc[i], l.vc[i]);
    if (rel) { for (int i = 0; i < MAXT; i++) l.vc[i] = std::max(co[cur].vc[i], l.vc[i]); co[cur].vc[cur]++; }
}
inline void entry(unsigned i) {
    co[i].body(); co[i].done = true;
    pick(false, false);
    abort();
}
// one execution along path, extended by first choices
inline void run(std::vector<std::function<void()>> bodies) {
    at = 0; preempt = 0; steps = 0; alone = 0; err.clear(); sched.clear(); race = false; nlocks = 0; gen++;
    nco = bodies.size();
    for (int i = 0; i < nco; i++) {
        Co & c = co[i];
        if (!c.stack) c.stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&c.u); c.u.uc_stack.ss_sp = c.stack; c.u.uc_stack.ss_size = STACK; c.u.uc_link = nullptr;
        makecontext(&c.u, (void (*)()) entry, 1, i);
        c.body = bodies[i]; c.done = false; c.wait = nullptr; c.nopoint = 1; c.impatient = c.patience = 0; c.asleep = false; memset(c.vc, 0, sizeof c.vc); c.vc[i] = 1; c.op = -1;
    }
    cur = -1;
    int t = choose(nco); sched += (char) ('0' + t);
    sw(t);
    cur = -1;
}
inline bool next() { // the next path, false: that was all
    path.resize(at);
    while (path.size() && path.back().pick + 1 >= path.back().n) path.pop_back();
    if (path.empty()) return false;
    path.back().pick++;
    return true;
}
inline void segment(void * p, size_t n) { lo = (char *) p; hi = lo + n; if (shadow.size() < n / 8 + 2) shadow.resize(n / 8 + 2); }
}
// {{{ what the library calls
extern "C" {
int pthread_spin_lock(pthread_spinlock_t * l) noexcept { sc::lock((void *) l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t * l) noexcept { return sc::trylock((void *) l) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t * l) noexcept { sc::unlock((void *) l); return 0; }
int mprotect(void * a, size_t n, int prot) noexcept {
    using namespace sc;
    if (a >= lo && a < hi) {
        plo = (char *) a; phi = plo + n;
        if (cur < 0) { for (auto & r : ro) r = !(prot & PROT_WRITE); return 0; }
        if (fine) point();
        ro[cur] = ro[MAXT] = !(prot & PROT_WRITE);
        word(0, true, a);
        return 0;
    }
    return 0;
}
int sched_yield() noexcept { sc::yielded(); return 0; }
int usleep(useconds_t n) {
    using namespace sc;
    if (cur < 0) return 0;
    // either the others go on meanwhile, or nothing happens however long this one waits
    bool any = false; for (int i = 0; i < nco; i++) if (i != cur && !co[i].done && !co[i].asleep && !(co[i].wait && lk(co[i].wait).owner >= 0)) any = true;
    if (!co[cur].impatient && (!any || co[cur].patience >= 3 || choose(2))) { co[cur].impatient = 1; co[cur].slept = 0; }
    if (co[cur].impatient) { co[cur].nopoint = ++co[cur].slept % 50 != 0; return 0; }
    co[cur].patience++; co[cur].asleep = true;
    int me = cur; pick(false, true);
    co[me].asleep = false;
    return 0;
}
#define IN(p) ((char *) (p) >= sc::lo && (char *) (p) < sc::hi)
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * l) { if (!IN(l)) return __real_pthread_mutex_lock(l); sc::lock(l); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t * l) { if (!IN(l)) return __real_pthread_mutex_trylock(l); return sc::trylock(l) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * l) { if (!IN(l)) return __real_pthread_mutex_unlock(l); sc::unlock(l); return 0; }
void * __real_memcpy(void *, const void *, size_t); void * __real_memmove(void *, const void *, size_t); void * __real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
static size_t sc_half(size_t n) { return n > 16 ? n / 2 & ~(size_t) 7 : n; }
void * __wrap_memcpy(void * d, const void * s, size_t n) {
    if (sc::cur < 0) return __real_memcpy(d, s, n);
    size_t h = sc_half(n);
    sc::access(s, h, false); sc::access(d, h, true); __real_memcpy(d, s, h);
    if (h < n) { sc::access((char *) s + h, n - h, false); sc::access((char *) d + h, n - h, true); __real_memcpy((char *) d + h, (char *) s + h, n - h); }
    return d;
}
void * __wrap_memmove(void * d, const void * s, size_t n) { sc::access(s, n, false); sc::access(d, n, true); return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int v, size_t n) {
    if (sc::cur < 0) return __real_memset(d, v, n);
    size_t h = sc_half(n);
    sc::access(d, h, true); __real_memset(d, v, h);
    if (h < n) { sc::access((char *) d + h, n - h, true); __real_memset((char *) d + h, v, n - h); }
    return d;
}
int __wrap_memcmp(const void * a, const void * b, size_t n) { sc::access(a, n, false); sc::access(b, n, false); return __real_memcmp(a, b, n); }
// the interface of the instrumentation
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define RW(n) \
    void __tsan_read##n(void * p) { sc::access(p, n, false); } void __tsan_write##n(void * p) { sc::access(p, n, true); } \
    void __tsan_read##n##_pc(void * p, void *) { sc::access(p, n, false); } void __tsan_write##n##_pc(void * p, void *) { sc::access(p, n, true); } \
    void __tsan_unaligned_read##n(void * p) { sc::access(p, n, false); } void __tsan_unaligned_write##n(void * p) { sc::access(p, n, true); } \
    void __tsan_volatile_read##n(void * p) { sc::access(p, n, false); } void __tsan_volatile_write##n(void * p) { sc::access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void * p) { sc::access(p, n, false); } void __tsan_unaligned_volatile_write##n(void * p) { sc::access(p, n, true); } \
    void __tsan_read_write##n(void * p) { sc::access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { sc::access(p, n, false); }
void __tsan_write_range(void * p, unsigned long n) { sc::access(p, n, true); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T * p, int) { sc::sync((void *) p, true, false); return *p; } \
    void __tsan_atomic##b##_store(volatile T * p, T v, int) { sc::sync((void *) p, false, true); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T * p, T v, int) { sc::sync((void *) p, true, true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T * p, T v, int) { sc::sync((void *) p, true, true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T * p, T v, int) { sc::sync((void *) p, true, true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T * p, T v, int) { sc::sync((void *) p, true, true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T * p, T v, int) { sc::sync((void *) p, true, true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T * p, T v, int) { sc::sync((void *) p, true, true); T o = *p; *p = o ^ v; return o; } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) { sc::sync((void *) p, true, true); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) { sc::sync((void *) p, true, true); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T * p, T e, T v, int, int) { sc::sync((void *) p, true, true); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (sc::cur >= 0) { if (sc::fine) sc::point(); } }
void __tsan_atomic_signal_fence(int) {}
}
// }}}
