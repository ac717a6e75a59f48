#include "sim.h"
#include <ucontext.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <deque>
#include <string>
#include <new>
#include <chrono>
#include <sys/syscall.h>
#include <linux/futex.h>
SimOpt sim_opt;
namespace {
enum { MAXT = 10, STACK = 256 * 1024 };
const i128 NEVER = i128(1) << 120;
struct Thread {
    ucontext_t uc; char* stack; void (*f)(int, void*); void* arg;
    bool live, done; int blocked;              // 0 runnable, 1 futex, 2 sleep
    unsigned char* addr; bool priv; int clk; i128 timer; int res; int err; int prio;
    unsigned bitset; int held;
    bool hasdl; int dlclk; i128 dl; i128 lastrun;
    std::uint32_t vc[MAXT]; std::uint32_t acq[MAXT]; std::uint32_t rel[MAXT]; bool hasrel;
};
Thread T[MAXT]; int nt, cur = -1; ucontext_t mainuc; bool inrt;
std::uint64_t rs, seed0; i128 mono, realoff; long steps, limit; bool fair; int mode; int changes[8], nchanges; std::uint64_t swp;
std::deque<std::string> hist; std::vector<int> fq;    // blocked on futexes, oldest first
std::uint64_t rnd(std::uint64_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (rs * 0x2545F4914F6CDD1Dull >> 11) % n : 0; }
bool chance(std::uint64_t n) { return rnd(n) == 0; }
// ---------------------------------------------------------------- happens-before
struct Cell { std::uintptr_t key; std::uint32_t run; int wt; std::uint32_t wc; bool wa; std::uint32_t rc[MAXT]; bool ra[MAXT]; };
enum { NCELL = 1 << 14 }; Cell cells[NCELL]; std::uint32_t runno;
struct Sync { std::uintptr_t key; std::uint32_t run; std::uint32_t vc[MAXT]; }; enum { NSYNC = 1 << 10 }; Sync syncs[NSYNC];
Cell* cell(std::uintptr_t k) {
    std::size_t h = (k * 0x9E3779B97F4A7C15ull) >> 50;
    for (int i = 0; i < 64; ++i) { Cell* c = &cells[(h + i) & (NCELL - 1)];
        if (c->run != runno) { std::memset(c, 0, sizeof *c); c->run = runno; c->key = k; c->wt = -1; return c; }
        if (c->key == k) return c; }
    return 0;
}
Sync* sync_of(std::uintptr_t k) {
    std::size_t h = (k * 0x9E3779B97F4A7C15ull) >> 54;
    for (int i = 0; i < 64; ++i) { Sync* c = &syncs[(h + i) & (NSYNC - 1)];
        if (c->run != runno) { std::memset(c, 0, sizeof *c); c->run = runno; c->key = k; return c; }
        if (c->key == k) return c; }
    return 0;
}
void access(std::uintptr_t a, int n, bool wr, bool at) {
    if ((a >= (std::uintptr_t)T[cur].stack && a < (std::uintptr_t)T[cur].stack + STACK)) return;
    int g = n < 4 ? 1 : 4;
    std::uint32_t* me = T[cur].vc;
    for (int i = 0; i < n; i += g) {
        Cell* c = cell(((a + i) << 1) | (g == 1)); if (!c) continue;
        if (c->wt >= 0 && c->wt != cur && c->wc > me[c->wt] && !(at && c->wa))
            sim_bad("data race: %s of %d bytes by thread %d while thread %d's write is not ordered before it", wr ? "write" : "read", n, cur, c->wt);
        if (wr) for (int j = 0; j < nt; ++j) if (j != cur && c->rc[j] > me[j] && !(at && c->ra[j]))
            sim_bad("data race: write of %d bytes by thread %d while thread %d's read is not ordered before it", n, cur, j);
        if (wr) { c->wt = cur; c->wc = me[cur]; c->wa = at; std::memset(c->rc, 0, sizeof c->rc); }
        else { c->rc[cur] = me[cur]; c->ra[cur] = at; }
    }
}
void join(std::uint32_t* a, const std::uint32_t* b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
bool isacq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME; }
bool isrel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
void hb_load(std::uintptr_t a, int o) { Sync* s = sync_of(a); if (!s) return; join(T[cur].acq, s->vc); if (isacq(o)) join(T[cur].vc, s->vc); }
void hb_store(std::uintptr_t a, int o, bool rmw) {
    Sync* s = sync_of(a); if (!s) return; Thread& t = T[cur];
    if (!rmw) std::memset(s->vc, 0, sizeof s->vc);
    if (isrel(o)) { join(s->vc, t.vc); ++t.vc[cur]; }
    else if (t.hasrel) join(s->vc, t.rel);
}
// ---------------------------------------------------------------- scheduling
i128 now_of(int clk) { return clk ? mono + realoff : mono; }
void wake_timers() {
    for (int i = 0; i < nt; ++i) if (T[i].live && T[i].blocked && T[i].timer < NEVER && now_of(T[i].clk) >= T[i].timer) {
        if (T[i].blocked == 1) { T[i].res = -1; T[i].err = ETIMEDOUT; for (std::size_t k = 0; k < fq.size(); ++k) if (fq[k] == i) { fq.erase(fq.begin() + k); break; } }
        T[i].blocked = 0;
    }
}
void unblock(int i, int res, int err) { T[i].blocked = 0; T[i].res = res; T[i].err = err; for (std::size_t k = 0; k < fq.size(); ++k) if (fq[k] == i) { fq.erase(fq.begin() + k); break; } }
int pick() {
    wake_timers();
    for (;;) {
        int r[MAXT], n = 0; bool any = false;
        for (int i = 0; i < nt; ++i) if (T[i].live) { any = true; if (!T[i].blocked) r[n++] = i; }
        if (!any) return -1;
        if (n) {
            if (fair || mode != 2) return r[rnd(n)];
            int b = r[0]; for (int i = 1; i < n; ++i) if (T[r[i]].prio > T[b].prio) b = r[i];
            return b;
        }
        // everybody is blocked: time passes until the first timer
        i128 best = NEVER;
        for (int i = 0; i < nt; ++i) if (T[i].live && T[i].timer < NEVER) { i128 d = T[i].timer - now_of(T[i].clk); if (d < best) best = d; }
        if (best >= NEVER) {
            std::string s; for (int i = 0; i < nt; ++i) if (T[i].live) s += " " + std::to_string(i);
            cur = -1; sim_bad("every thread is blocked for ever (threads%s)", s.c_str());
        }
        if (best < 0) best = 0;
        for (int i = 0; i < nt; ++i) if (T[i].live && T[i].hasdl) {
            i128 d = T[i].dl - now_of(T[i].dlclk), l = T[i].lastrun - mono; if (l > d) d = l;
            if (best > d + i128(sim_opt.slack_ms) * 1000000) { int w = i; cur = -1; sim_bad("thread %d sleeps more than %d ms past its deadline", w, sim_opt.slack_ms); }
        }
        mono += best + (i128)rnd(3) * (i128)rnd(500); wake_timers();
    }
}
void switch_to(int n) {
    int o = cur; if (n == o) return;
    int e = errno; cur = n;
    if (o < 0) { if (n >= 0) swapcontext(&mainuc, &T[n].uc); }
    else if (n < 0) { if (T[o].done) setcontext(&mainuc); swapcontext(&T[o].uc, &mainuc); }
    else { if (T[o].done) setcontext(&T[n].uc); swapcontext(&T[o].uc, &T[n].uc); }
    errno = e; if (cur >= 0) T[cur].lastrun = mono;
}
void resched() { int n = pick(); switch_to(n); }
void entry(int i) { T[i].f(i, T[i].arg); inrt = true; T[i].done = true; T[i].live = false; ++T[i].vc[i]; inrt = false; resched(); }
void point(bool strong = false) {
    if (cur < 0 || inrt) return;
    inrt = true; ++steps; mono += 5 + (i128)rnd(40);
    if (sim_opt.timejump && chance(400)) mono += (i128)rnd(3000000);
    T[cur].lastrun = mono;
    if (steps > limit) { if (fair) { int c = cur; cur = -1; sim_bad("no progress after %ld steps (thread %d runs)", steps, c); } fair = true; limit += 600000; }
    bool sw;
    if (fair) sw = chance(20);
    else if (mode == 2) { sw = true; for (int k = 0; k < nchanges; ++k) if (changes[k] == steps) T[cur].prio = -k - 1; if (chance(3000)) T[cur].prio = -(int)(steps & 0xfffff) - 100; wake_timers(); }
    else sw = strong || chance(swp);
    inrt = false;
    if (sw) resched();
}
// ---------------------------------------------------------------- memory
const std::size_t ARENA = 48u << 20; char* arena; unsigned char* valid; std::size_t top; struct Blk { char* p; std::size_t n; bool live; int kind; }; std::vector<Blk> blks; std::size_t nlive;
bool inarena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ARENA && arena; }
void* alloc(std::size_t n, std::size_t al, int kind) {
    if (!arena) { arena = (char*)std::aligned_alloc(4096, ARENA); valid = (unsigned char*)std::calloc(ARENA, 1); top = 0; }
    if (al < 16) al = 16;
    std::size_t o = (top + 64 + al - 1) & ~(al - 1); if (((o / al) & 1) == 0) o += al;       // aligned as asked for, and not better
    if (o + n + 64 > ARENA) { std::printf("END arena\n"); std::fflush(stdout); _exit(0); }
    top = o + n; std::memset(valid + o, 1, n); for (std::size_t i = 0; i < n; ++i) arena[o + i] = (char)(0xA5 + 7 * i);
    Blk b = { arena + o, n, true, kind }; blks.push_back(b); ++nlive; return arena + o;
}
void release(void* p, int kind) {
    if (!p) return;
    for (std::size_t i = blks.size(); i--;) if (blks[i].p == (char*)p) {
        if (!blks[i].live) sim_bad("memory block freed twice");
        if (blks[i].kind != kind) sim_bad("memory block released by the wrong function");
        blks[i].live = false; --nlive; std::memset(valid + (blks[i].p - arena), 0, blks[i].n);
        for (std::size_t k = 0; k < blks[i].n; ++k) blks[i].p[k] = (char)0xDD;
        blks.erase(blks.begin() + i); Blk d = { (char*)p, 0, false, kind }; (void)d; return;
    }
    sim_bad("memory block freed twice, or never allocated");
}
void chk(const void* p, std::size_t n, bool wr) {
    if (!inarena(p)) return;
    std::size_t o = (const char*)p - arena;
    for (std::size_t i = 0; i < n; ++i) if (o + i >= ARENA || !valid[o + i]) sim_bad("%s of %zu bytes outside every live memory block (byte %zu)", wr ? "write" : "read", n, i);
}
int natexit; void (*atexit_fn)();
void mem(void* p, int n, bool wr) { point(); if (inrt) return; inrt = true; chk(p, n, wr); if (cur >= 0) access((std::uintptr_t)p, n, wr, false); inrt = false; }
}
// ---------------------------------------------------------------- interface
std::uint64_t sim_rnd(std::uint64_t n) { return rnd(n); }
int sim_self() { return cur; }
void* sim_raw(std::size_t n) { return std::aligned_alloc(64, (n + 127) & ~std::size_t(63)); }
i128 sim_mono() { return mono; }
i128 sim_real() { return mono + realoff; }
void sim_yield() { point(); }
void sim_sleep(i128 ns) { if (cur < 0) return; inrt = true; T[cur].blocked = 2; T[cur].clk = 0; T[cur].timer = mono + ns; inrt = false; resched(); }
void sim_deadline(int clk, i128 t) { T[cur].hasdl = true; T[cur].dlclk = clk; T[cur].dl = t; }
void sim_nodeadline() { T[cur].hasdl = false; }
std::size_t sim_live_blocks() { return nlive; }
int sim_atexit_count() { return natexit; }
void (*sim_atexit_fn())() { return atexit_fn; }
void sim_note(const char* f, ...) {
    inrt = true; char b[300]; int k = std::snprintf(b, sizeof b, "  [step %ld, t=%.9f] thread %d: ", steps, (double)(long long)(mono - (i128)1000 * 1000000000) / 1e9, cur);
    va_list a; va_start(a, f); std::vsnprintf(b + k, sizeof b - k, f, a); va_end(a); hist.push_back(b); if (hist.size() > 60) hist.pop_front(); inrt = false;
}
void sim_bad(const char* f, ...) {
    inrt = true; char b[400]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a);
    std::printf("BAD %s\n", b); std::printf("  seed %llu, step %ld; end of the history:\n", (unsigned long long)seed0, steps);
    for (auto& s : hist) std::printf("%s\n", s.c_str());
    std::fflush(stdout); _exit(1);
}
void sim_begin(std::uint64_t seed) {
    seed0 = seed; rs = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; ++i) rnd(1);
    nt = 0; cur = -1; steps = 0; limit = 400000; fair = false; mono = (i128)1000 * 1000000000 + (i128)rnd(1000000000); realoff = (i128)1700000000 * 1000000000 + (i128)rnd(1000000000); hist.clear(); fq.clear(); ++runno;
    sim_opt = SimOpt(); sim_opt.slack_ms = 20;
    mode = (int)rnd(3); static const int ps[] = { 1, 2, 4, 12, 40 }; swp = ps[rnd(5)]; nchanges = (int)rnd(5); int span = 200 << rnd(5); for (int i = 0; i < nchanges; ++i) changes[i] = (int)rnd(span);
}
int sim_spawn(void (*f)(int, void*), void* arg) {
    int i = nt++; Thread& t = T[i]; char* s = t.stack; if (!s) s = (char*)std::malloc(STACK);
    t = Thread(); t.stack = s; t.f = f; t.arg = arg; t.live = true; t.timer = NEVER; t.prio = (int)rnd(1000) + 1; t.vc[i] = 1;
    getcontext(&t.uc); t.uc.uc_stack.ss_sp = s; t.uc.uc_stack.ss_size = STACK; t.uc.uc_link = 0; makecontext(&t.uc, (void (*)())entry, 1, i); return i;
}
void sim_run() { if (nt) resched(); cur = -1; nt = 0; ++runno; steps = 0; }
// ---------------------------------------------------------------- kernel
extern "C" {
static long fail(int e) { errno = e; return -1; }
long __wrap_syscall(long n, void* a, int op, unsigned val, void* p4, void* a2, unsigned v3) {
    if (n != SYS_futex) sim_bad("system call %ld", n);
    if (cur < 0) return 0;
    point(true);
    bool priv = op & FUTEX_PRIVATE_FLAG, rt = op & FUTEX_CLOCK_REALTIME; int base = op & 127;
    unsigned char* ad = (unsigned char*)a; inrt = true;
    chk(a, 4, false);
    switch (base) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        const timespec* ts = (const timespec*)p4; i128 timer = NEVER; int clk = 0;
        if (ts) {
            if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { inrt = false; sim_note("futex wait: malformed time %lld s %lld ns", (long long)ts->tv_sec, (long long)ts->tv_nsec); return fail(EINVAL); }
            i128 v = (i128)ts->tv_sec * 1000000000 + ts->tv_nsec;
            if (base == FUTEX_WAIT) timer = mono + v; else { clk = rt; timer = v; }
        }
        if (*(volatile unsigned*)a != val) { inrt = false; return fail(EAGAIN); }
        if (sim_opt.spurious && chance(12)) { int k = (int)rnd(3); inrt = false; sim_note("futex wait ends early: %s", k == 0 ? "EINTR" : k == 1 ? "EAGAIN" : "0"); if (k == 2) return 0; return fail(k ? EAGAIN : EINTR); }
        Thread& t = T[cur]; t.blocked = 1; t.addr = ad; t.priv = priv; t.clk = clk; t.timer = timer; t.res = 0; t.err = 0; t.bitset = base == FUTEX_WAIT_BITSET ? v3 : ~0u;
        fq.push_back(cur); sim_note("sleeps on futex %p", a); inrt = false; resched();
        T[cur].timer = NEVER; sim_note("futex wait on %p returns %d%s", a, T[cur].res, T[cur].err ? " (error)" : "");
        return T[cur].res < 0 ? fail(T[cur].err) : T[cur].res; }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        int k = 0;
        for (std::size_t i = 0; i < fq.size() && (unsigned)k < val && val <= 0x7fffffffu;) { int w = fq[i]; if (T[w].addr == ad && T[w].priv == priv && (base == FUTEX_WAKE || (T[w].bitset & v3))) { unblock(w, 0, 0); ++k; } else ++i; }
        sim_note("futex wake %p: %d woken", a, k); inrt = false; point(true); return k; }
    case FUTEX_REQUEUE: case FUTEX_CMP_REQUEUE: {
        if (base == FUTEX_CMP_REQUEUE && *(volatile unsigned*)a != v3) { inrt = false; return fail(EAGAIN); }
        std::intptr_t rq = (int)(std::intptr_t)p4; int k = 0, m = 0; if ((int)val < 0 || rq < 0) { inrt = false; return fail(EINVAL); }
        for (std::size_t i = 0; i < fq.size();) { int w = fq[i]; if (!(T[w].addr == ad && T[w].priv == priv)) { ++i; continue; }
            if ((unsigned)k < val) { unblock(w, 0, 0); ++k; continue; }
            if (m < rq) { T[w].addr = (unsigned char*)a2; fq.erase(fq.begin() + i); fq.push_back(w); ++m; if (ad == (unsigned char*)a2) break; continue; }
            break; }
        sim_note("futex requeue %p -> %p: %d woken, %d moved", a, a2, k, m); inrt = false; point(true); return k + m; }
    }
    inrt = false; return fail(ENOSYS);
}
int __wrap_clock_gettime(clockid_t c, timespec* ts) {
    if (cur < 0) { ts->tv_sec = 0; ts->tv_nsec = 0; return 0; }
    point(); i128 v = c == CLOCK_REALTIME ? mono + realoff : mono;
    if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_BOOTTIME) return (int)fail(EINVAL);
    ts->tv_sec = (time_t)(v / 1000000000); ts->tv_nsec = (long)(v % 1000000000); return 0;
}
int __wrap_nanosleep(const timespec* ts, timespec*) { if (cur < 0) return 0; if (sim_opt.spurious && chance(20)) { point(true); return (int)fail(EINTR); } sim_sleep((i128)ts->tv_sec * 1000000000 + ts->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const timespec* ts, timespec*) { return __wrap_nanosleep(ts, 0); }
int __wrap_usleep(unsigned us) { if (cur >= 0) sim_sleep((i128)us * 1000); return 0; }
int __wrap_sched_yield() { point(true); return 0; }
std::int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { point(); return (std::int64_t)mono; }
std::int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { point(); return (std::int64_t)(mono + realoff); }
int __wrap_atexit(void (*f)()) { ++natexit; atexit_fn = f; return 0; }
static bool oom() { return cur >= 0 && sim_opt.oom && chance(2); }
int __wrap_posix_memalign(void** p, std::size_t al, std::size_t n) { point(); if (oom()) { sim_note("allocation of %zu bytes fails", n); return ENOMEM; } *p = alloc(n, al, 0); return 0; }
void* __wrap_aligned_alloc(std::size_t al, std::size_t n) { point(); if (oom()) return 0; return alloc(n, al, 0); }
void* __wrap_malloc(std::size_t n) { point(); if (oom()) return 0; return alloc(n, 16, 0); }
void* __wrap_calloc(std::size_t n, std::size_t k) { point(); if (oom()) return 0; void* p = alloc(n * k, 16, 0); std::memset(p, 0, n * k); return p; }
void __wrap_free(void* p) { point(); release(p, 0); }
void* __wrap__ZnwmRKSt9nothrow_t(std::size_t n, const std::nothrow_t&) { point(); if (oom()) { sim_note("allocation of %zu bytes fails", n); return 0; } return alloc(n, 16, 1); }
void* __wrap__Znwm(std::size_t n) { point(); return alloc(n, 16, 1); }
void __wrap__ZdlPvm(void* p, std::size_t) { point(); release(p, 1); }
void __wrap__ZdlPv(void* p) { point(); release(p, 1); }
void __wrap__ZdlPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { point(); release(p, 1); }
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { chk(s, n, false); chk(d, n, true); return std::memmove(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { chk(s, n, false); chk(d, n, true); return std::memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { chk(d, n, true); volatile unsigned char* p = (volatile unsigned char*)d; for (std::size_t i = 0; i < n; ++i) p[i] = (unsigned char)c; return d; }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { return __wrap_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { return __wrap_memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { return __wrap_memset(d, c, n); }
void __wrap___assert_fail(const char* e, const char*, unsigned l, const char*) { sim_bad("assertion failed in the library: %s (line %u)", e, l); }
void __wrap___assertion_fail() { sim_bad("assertion failed in the library"); }
// ---------------------------------------------------------------- instrumentation
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { mem(p, n, false); } void __tsan_write##n(void* p) { mem(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { mem(p, n, false); } void __tsan_unaligned_write##n(void* p) { mem(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { mem(p, n, false); } void __tsan_volatile_write##n(void* p) { mem(p, n, true); } \
    void __tsan_read_write##n(void* p) { mem(p, n, false); mem(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { mem(p, (int)n, false); } void __tsan_write_range(void* p, unsigned long n) { mem(p, (int)n, true); }
void __tsan_vptr_read(void**) {} void __tsan_vptr_update(void**, void*) {}
static void before(volatile void* p, int n) { point(); if (cur >= 0) { inrt = true; chk((void*)p, n, true); inrt = false; } }
static void rmw(volatile void* p, int n, int o) { if (cur < 0) return; inrt = true; access((std::uintptr_t)p, n, true, true); hb_load((std::uintptr_t)p, o); hb_store((std::uintptr_t)p, o, true); inrt = false; }
#define ATOMIC(b, ty) \
    ty __tsan_atomic##b##_load(const volatile ty* p, int o) { before((volatile void*)p, b / 8); ty v = *p; if (cur >= 0) { inrt = true; access((std::uintptr_t)p, b / 8, false, true); hb_load((std::uintptr_t)p, o); inrt = false; } return v; } \
    void __tsan_atomic##b##_store(volatile ty* p, ty v, int o) { before(p, b / 8); if (cur >= 0) { inrt = true; access((std::uintptr_t)p, b / 8, true, true); hb_store((std::uintptr_t)p, o, false); inrt = false; } *p = v; } \
    ty __tsan_atomic##b##_exchange(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = v; return r; } \
    ty __tsan_atomic##b##_fetch_add(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = r + v; return r; } \
    ty __tsan_atomic##b##_fetch_sub(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = r - v; return r; } \
    ty __tsan_atomic##b##_fetch_and(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = r & v; return r; } \
    ty __tsan_atomic##b##_fetch_or(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = r | v; return r; } \
    ty __tsan_atomic##b##_fetch_xor(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = r ^ v; return r; } \
    ty __tsan_atomic##b##_fetch_nand(volatile ty* p, ty v, int o) { before(p, b / 8); ty r = *p; rmw(p, b / 8, o); *p = ~(r & v); return r; } \
    int cas##b(volatile ty* p, ty* e, ty d, int o, int fo, bool weak) { before(p, b / 8); ty r = *p; \
        if (r == *e && !(weak && cur >= 0 && !fair && chance(16))) { rmw(p, b / 8, o); *p = d; return 1; } \
        if (cur >= 0) { inrt = true; access((std::uintptr_t)p, b / 8, false, true); hb_load((std::uintptr_t)p, fo); inrt = false; } *e = r; return 0; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty* p, ty* e, ty d, int o, int fo) { return cas##b(p, e, d, o, fo, false); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty* p, ty* e, ty d, int o, int fo) { return cas##b(p, e, d, o, fo, true); } \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty* p, ty e, ty d, int o, int fo) { cas##b(p, &e, d, o, fo, false); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
static void fence(int o) { if (cur < 0) return; point(); inrt = true; Thread& t = T[cur]; if (isacq(o)) join(t.vc, t.acq); if (isrel(o)) { std::memcpy(t.rel, t.vc, sizeof t.rel); t.hasrel = true; ++t.vc[cur]; } inrt = false; }
void __tsan_atomic_thread_fence(int o) { fence(o); } void __tsan_atomic_signal_fence(int) {}
}
