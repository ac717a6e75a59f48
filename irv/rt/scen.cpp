// Scenarios run under the simulated kernel; compiled with -fsanitize=thread -c, the
// hooks of which are in sim.cpp.  Includes the library's source file itself.
#ifndef SRC
#define SRC "lock_pool.cpp"
#endif
#include SRC
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/posix_clock_traits_fwd.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <map>
#include <chrono>
#include <string>
#include <new>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include "sim.h"
#define NOS __attribute__((no_sanitize("thread"), noinline))
#define INS __attribute__((noinline))
namespace lp = boost::atomics::detail::lock_pool;
namespace ch = std::chrono;
struct S20 { int v[5]; };
struct CustClock { typedef std::int64_t rep; typedef std::nano period; typedef ch::nanoseconds duration; typedef ch::time_point<CustClock> time_point; static const bool is_steady = true;
    NOS static time_point now() noexcept { sim_yield(); return time_point(ch::nanoseconds((std::int64_t)(sim_mono() - (i128)5000 * 1000000000))); } };
struct BootClock { typedef std::int64_t rep; typedef std::nano period; typedef ch::nanoseconds duration; typedef ch::time_point<BootClock> time_point; static const bool is_steady = true;
    NOS static time_point now() noexcept { sim_yield(); return time_point(ch::nanoseconds((std::int64_t)sim_mono())); } };
#if !defined(NO_CLOCK_TRAITS)
namespace boost { namespace atomics {
template<> struct posix_clock_traits<BootClock> {
    static constexpr clockid_t clock_id = CLOCK_BOOTTIME;
    static timespec to_timespec(BootClock::time_point t) noexcept { timespec ts{}; long long n = t.time_since_epoch().count(); ts.tv_sec = n / 1000000000; ts.tv_nsec = n % 1000000000; if (ts.tv_nsec < 0) { --ts.tv_sec; ts.tv_nsec += 1000000000; } return ts; }
};
} }
#endif
template<class T> static T mk(int v) { return (T)v; }
template<> S20 mk<S20>(int v) { S20 s; for (int& x : s.v) x = v; return s; }
template<class T> static NOS int un(T const& t) { return (int)t; }
template<> NOS int un<S20>(S20 const& s) { for (int x : s.v) if (x != s.v[0]) sim_bad("torn value: fields %d and %d of one object", s.v[0], x); return s.v[0]; }
struct Obj {
    virtual int wait(int old) = 0; virtual int load() = 0; virtual void store(int v) = 0; virtual void add(int) = 0; virtual void one() = 0; virtual void all() = 0;
    virtual int twait(int form, long long t, int old, bool& to) = 0;
    const char* name; int kind; bool polls;
};
template<class A, class T> struct O : Obj {
    A a; O() : a(mk<T>(0)) {}
    INS int wait(int old) override { return un<T>(a.wait(mk<T>(old))); }
    INS int load() override { return un<T>(a.load()); }
    INS void store(int v) override { a.store(mk<T>(v)); }
    INS void add(int d) override { T e = a.load(boost::memory_order_relaxed); while (!a.compare_exchange_weak(e, mk<T>(un<T>(e) + d))) {} }
    INS void one() override { a.notify_one(); }
    INS void all() override { a.notify_all(); }
    INS int twait(int form, long long t, int old, bool& to) override {
        boost::atomics::wait_result<T> r;
        switch (form) {
        case 0: r = a.wait_for(mk<T>(old), ch::nanoseconds(t)); break;
        case 1: r = a.wait_until(mk<T>(old), ch::steady_clock::time_point(ch::nanoseconds(t))); break;
        case 2: r = a.wait_until(mk<T>(old), ch::system_clock::time_point(ch::nanoseconds(t))); break;
        case 3: r = a.wait_until(mk<T>(old), CustClock::time_point(ch::nanoseconds(t))); break;
        case 4: r = a.wait_until(mk<T>(old), BootClock::time_point(ch::nanoseconds(t))); break;
        case 5: r = a.wait_for(mk<T>(old), ch::duration<long long, std::micro>(t / 1000)); break;
        default: r = a.wait_until(mk<T>(old), ch::time_point<ch::system_clock, ch::microseconds>(ch::microseconds(t))); break;
        }
        to = r.timeout; return un<T>(r.value);
    }
};
struct alignas(8) Holder { char c[64]; };
template<class T> struct RefA { alignas(64) T v; RefA(T x) : v(x) {}
    T load(boost::memory_order o = boost::memory_order_seq_cst) { return boost::atomic_ref<T>(v).load(o); } void store(T x) { boost::atomic_ref<T>(v).store(x); }
    T wait(T x) { return boost::atomic_ref<T>(v).wait(x); } void notify_one() { boost::atomic_ref<T>(v).notify_one(); } void notify_all() { boost::atomic_ref<T>(v).notify_all(); }
    bool compare_exchange_weak(T& e, T d) { return boost::atomic_ref<T>(v).compare_exchange_weak(e, d); }
    template<class D> boost::atomics::wait_result<T> wait_for(T x, D d) { return boost::atomic_ref<T>(v).wait_for(x, d); } template<class D> boost::atomics::wait_result<T> wait_until(T x, D d) { return boost::atomic_ref<T>(v).wait_until(x, d); } };
template<class A, class T> static Obj* mkobj(const char* n, int k, bool polls) { Obj* o = new (sim_raw(sizeof(O<A, T>))) O<A, T>(); o->name = n; o->kind = k; o->polls = polls; return o; }
static NOS Obj* newobj(int k) {
    switch (k) {
    case 0: return mkobj<boost::atomic<S20>, S20>("atomic<20 bytes>", 0, false);
    case 1: return mkobj<boost::atomic<std::uint64_t>, std::uint64_t>("atomic<uint64_t>", 1, false);
    case 2: return mkobj<boost::atomic<unsigned char>, unsigned char>("atomic<unsigned char>", 2, false);
    case 3: return mkobj<boost::atomic<int>, int>("atomic<int>", 3, false);
    case 4: return mkobj<boost::ipc_atomic<int>, int>("ipc_atomic<int>", 4, false);
    case 5: return mkobj<RefA<S20>, S20>("atomic_ref<20 bytes>", 5, false);
    case 6: return mkobj<RefA<long>, long>("atomic_ref<long>", 6, false);
    default: return mkobj<boost::ipc_atomic<std::uint64_t>, std::uint64_t>("ipc_atomic<uint64_t>", 7, true);
    }
}
static Obj* objs[8][8];
static NOS Obj* obj(int k, int i) { Obj*& o = objs[k][i]; if (!o) o = newobj(k); return o; }
// ------------------------------------------------------------------ A: the internal lock
struct MutexRun { int rounds; long count; int inside; std::size_t h[2]; };
static MutexRun M;
static INS void bump() { long c = M.count; sim_yield(); M.count = c + 1; }
static NOS void mutex_thread(int id, void*) {
    for (int i = 0; i < M.rounds; ++i) {
        void* l = (sim_rnd(2) ? lp::long_lock : lp::short_lock)(0);
        if (M.inside++) sim_bad("two threads hold the internal lock");
        bump();
        for (int k = (int)sim_rnd(4); k; --k) sim_yield();
        if (sim_rnd(6) == 0) sim_sleep((i128)sim_rnd(3000));
        --M.inside; lp::unlock(l);
        if (sim_rnd(4) == 0) sim_sleep((i128)sim_rnd(3000));
    }
    (void)id;
}
static NOS void scen_mutex() {
    int n = 2 + (int)sim_rnd(3); M.rounds = 1 + (int)sim_rnd(4); M.count = 0; M.inside = 0; sim_opt.spurious = sim_rnd(2);
    for (int i = 0; i < n; ++i) sim_spawn(mutex_thread, 0);
    sim_run(); if (M.count != (long)n * M.rounds) sim_bad("update lost under the internal lock");
}
// ------------------------------------------------------------------ B, C: waiting
struct Waiter { Obj* o; int oi; int rounds; bool timed; int form; long long t[4]; bool canend[4]; };
struct Notifier { Obj* o; int oi; int rounds; int waiters; bool one; bool aba; long long gap; long long pre; bool none; };
static Waiter W[8]; static Notifier N[8]; static int nw, nn, nobj; static unsigned vals[8][64];
static NOS void seen(int oi, int v) { if (v < 0 || v >= 64 || !vals[oi][v]) sim_bad("value %d was never stored in the object", v); }
static long long satadd(i128 a, i128 b) { i128 s = a + b; i128 m = ((i128)1 << 63) - 1; return (long long)(s > m ? m : s < -m ? -m : s); }
static NOS void waiter_thread(int, void* a) {
    Waiter& w = *(Waiter*)a;
    for (int r = 0; r < w.rounds; ++r) {
        if (!w.timed) {
            sim_note("%s %d: wait(%d)", w.o->name, w.oi, r);
            int v = w.o->wait(r); sim_note("wait(%d) returns %d", r, v);
            if (v == r) sim_bad("wait(%d) returned the old value", r);
            seen(w.oi, v);
        } else {
            for (;;) {
                long long d = w.t[r]; bool to = false; i128 m0 = sim_mono(), dl; int clk = 0; long long arg = d; bool far = d >= (1ll << 61);
                if (w.form == 1 || w.form == 4) { arg = satadd(m0, d); dl = arg; }
                else if (w.form == 2) { arg = satadd(sim_real(), d); dl = arg; clk = 1; }
                else if (w.form == 3) { arg = satadd(m0 - (i128)5000 * 1000000000, d); if (d < 0 && arg > 0) arg = 0; dl = (i128)arg + (i128)5000 * 1000000000; }
                else if (w.form == 6) { arg = satadd(sim_real(), d) / 1000; dl = (i128)arg * 1000; clk = 1; }
                else { if (w.form == 5) { arg = d / 1000 * 1000; dl = m0 + arg; } else dl = m0 + d; }
                sim_note("%s %d: timed wait(%d), form %d, %lld ns", w.o->name, w.oi, r, w.form, d);
                if (!far) sim_deadline(clk, dl);
                int v = w.o->twait(w.form, arg, r, to); sim_nodeadline();
                sim_note("timed wait(%d) returns %d%s", r, v, to ? ", timeout" : "");
                seen(w.oi, v);
                if (to) { i128 now = clk ? sim_real() : sim_mono(); if (now < dl) sim_bad("timeout reported %lld ns before the deadline", (long long)(dl - now)); if (v != r) sim_bad("timeout reported with a changed value %d (old %d)", v, r); if (w.canend[r]) break; w.t[r] = w.o->polls || sim_opt.oom ? 20000 : 1ll << 61; }
                else { if (v == r) sim_bad("timed wait(%d) returned the old value without a timeout", r); break; }
            }
        }
        if (sim_rnd(3) == 0) sim_sleep((i128)sim_rnd(4000));
    }
}
static NOS void notifier_thread(int, void* a) {
    Notifier& n = *(Notifier*)a; int cnt = n.waiters;
    for (int r = 1; r <= n.rounds; ++r) {
        if (n.pre) sim_sleep(n.pre); else for (int k = (int)sim_rnd(30); k; --k) sim_yield();
        vals[n.oi][r] = 1;
        if (n.aba) { n.o->store(r); if (sim_rnd(2)) n.o->all(); n.o->store(r - 1); if (sim_rnd(2)) n.o->all(); if (sim_rnd(2)) sim_yield(); }
        sim_note("%s %d: store(%d)", n.o->name, n.oi, r);
        const i128 m0 = sim_mono();
        if (sim_rnd(3)) n.o->store(r); else n.o->add(1);
        if (sim_opt.oom && sim_mono() - m0 > 1000000) sim_bad("a store was held up for %lld ns by waiters that have no wait state: they do not give up the lock", (long long)(sim_mono() - m0));
        if (n.one) for (int i = 0; i < cnt; ++i) { sim_note("%s %d: notify_one", n.o->name, n.oi); n.o->one(); if (n.gap && sim_rnd(2)) sim_sleep(n.gap); } else { sim_note("%s %d: notify_all", n.o->name, n.oi); n.o->all(); }
    }
}
static NOS void noise_thread(int, void*) {
    for (int k = 1 + (int)sim_rnd(5); k; --k) {
        if (sim_rnd(2)) sim_sleep((i128)sim_rnd(5000));
        Notifier& n = N[sim_rnd(nn)]; if (n.one) continue;
        if (sim_rnd(2)) n.o->one(); else n.o->all();
    }
}
static void (*cleanup)(); static int ncleanup; static bool anyoom;
static INS void do_cleanup() { cleanup(); }
static NOS void cleanup_thread(int, void*) {
    for (int k = (int)sim_rnd(60); k; --k) sim_yield();
    if (sim_rnd(2)) sim_sleep((i128)sim_rnd(20000));
    cleanup = sim_atexit_fn(); if (!cleanup || ncleanup) return;
    sim_note("cleanup begins"); do_cleanup(); sim_note("cleanup ends"); ++ncleanup;
}
static const long long DUR[] = { -5000000000ll, -1, 0, 1, 900, 1000, 30000, 300000, 1000001, 999999999, 1000000000, 2500000000ll, 31ll * 86400 * 1000000000, 100ll * 86400 * 1000000000, 1ll << 61, (1ll << 62) + 12345, 0x7fffffffffffffffll };
static NOS void scen_wait(bool timed, bool oomy, bool withcleanup, int kinds) {
    sim_opt.oom = oomy; anyoom |= oomy; sim_opt.spurious = sim_rnd(2); sim_opt.timejump = timed && !oomy && sim_rnd(3) == 0;
    nobj = 1 + (int)sim_rnd(3); int budget = 7 - (withcleanup ? 1 : 0); nw = nn = 0; std::memset(vals, 0, sizeof vals);
    if (sim_rnd(3) == 0 && nobj < 3) ++nobj;
    bool noise = sim_rnd(3) == 0;
    for (int i = 0; i < nobj && budget > 1; ++i) {
        int k; do k = (int)sim_rnd(8); while (!(kinds >> k & 1));
        Obj* o = obj(k, i); o->store(0); vals[i][0] = 1; Notifier& n = N[nn++]; n = Notifier(); n.o = o; n.oi = i; n.rounds = 1 + (int)sim_rnd(2); --budget;
        bool short_ = oomy || o->polls;
        int c = 1 + (int)sim_rnd(i + 1 < nobj ? 2 : 3); if (c > budget) c = budget; n.waiters = c; bool anyt = false;
        n.pre = sim_rnd(2) ? (long long)sim_rnd(short_ ? 20000 : 2000000) : 0; if (timed && !short_ && sim_rnd(4) == 0) n.pre = (long long)sim_rnd(40ull * 86400 * 1000000000ull);
        for (int j = 0; j < c; ++j) {
            Waiter& w = W[nw++]; w = Waiter(); w.o = o; w.oi = i; w.rounds = n.rounds; --budget;
            w.timed = timed && sim_rnd(4); anyt |= w.timed; w.form = (int)sim_rnd(7);
            for (int r = 0; r < w.rounds; ++r) { w.t[r] = oomy && !o->polls && sim_rnd(3) == 0 ? 3000000 : short_ ? DUR[sim_rnd(8)] : DUR[sim_rnd(sizeof DUR / sizeof *DUR)]; w.canend[r] = false; }
        }
        n.one = !anyt && sim_rnd(2) && n.rounds == 1; n.aba = !n.one && sim_rnd(3) == 0; n.gap = sim_rnd(2) ? 1500 : 0;
    }
    for (int i = 0; i < nw; ++i) sim_spawn(waiter_thread, &W[i]);
    for (int i = 0; i < nn; ++i) sim_spawn(notifier_thread, &N[i]);
    if (withcleanup) sim_spawn(cleanup_thread, 0); else if (noise && budget > 0) sim_spawn(noise_thread, 0);
    sim_run();
}
// ------------------------------------------------------------------ E: the table, against a model
static NOS void table_thread(int, void* a) {
    std::map<std::size_t, std::pair<void*, int> > model; int nadr = 1 + (int)sim_rnd(*(int*)a ? 60 : 8); static char mem[64 * 64];
    std::vector<std::size_t> held; void* l = lp::long_lock(0);
    for (int k = 10 + (int)sim_rnd(250); k; --k) {
        bool add = held.empty() || sim_rnd(100) < (k > 80 ? 60u : 40u);
        if (add) {
            std::size_t i = sim_rnd(nadr); void* p = lp::allocate_wait_state(l, mem + 64 * i);
            if (!p) { if (!sim_opt.oom) sim_bad("no entry given although memory is available"); if (model.count(i)) sim_bad("entry of address %zu not found", i); continue; }
            for (auto& e : model) { if (e.first == i && e.second.first != p) sim_bad("two entries for one address"); if (e.first != i && e.second.first == p) sim_bad("one entry for two addresses"); }
            model[i].first = p; ++model[i].second; held.push_back(i);
        } else {
            std::size_t j = sim_rnd(held.size()), i = held[j]; held[j] = held.back(); held.pop_back();
            void* p = model[i].first; if (--model[i].second == 0) model.erase(i);
            lp::free_wait_state(l, p);
        }
        if (sim_rnd(16) == 0) { lp::unlock(l); l = lp::long_lock(0); }
        if (sim_rnd(8) == 0) { if (sim_rnd(2)) lp::notify_one(l, mem + 64 * sim_rnd(64)); else lp::notify_all(l, mem + 64 * sim_rnd(64)); }
    }
    for (std::size_t i : held) lp::free_wait_state(l, model[i].first);
    lp::unlock(l);
}
static NOS void scen_table(bool oomy, bool withcleanup) {
    static int big; big = (int)sim_rnd(2); sim_opt.oom = oomy; sim_spawn(table_thread, &big); if (withcleanup) sim_spawn(cleanup_thread, 0); sim_run();
}
static NOS void finish() {
    if (!sim_atexit_fn()) { if (sim_live_blocks()) sim_bad("memory is held but no cleanup at exit was registered"); return; }
    if (ncleanup) {
        // the cleanup has run while others were waiting: nothing may be kept for later since
        if (!anyoom && sim_live_blocks()) sim_bad("%zu memory blocks kept after the cleanup at exit", sim_live_blocks());
        return;
    }
    if (sim_atexit_count() != 1) sim_bad("cleanup registered %d times", sim_atexit_count());
    cleanup = sim_atexit_fn(); do_cleanup();
    if (sim_live_blocks()) sim_bad("%zu memory blocks not released by the cleanup at exit", sim_live_blocks());
}
static void segv(int) { sim_bad("invalid memory access"); }
int NOS main(int argc, char** argv) {
    // scen KIND KINDS FIRST COUNT PERPROC
    std::string what = argv[1]; int kinds = std::atoi(argv[2]); std::uint64_t first = std::strtoull(argv[3], 0, 10), count = std::strtoull(argv[4], 0, 10), per = std::strtoull(argv[5], 0, 10);
    int secs = argc > 6 ? std::atoi(argv[6]) : 20; time_t start = ::time(0);
    static char alt[65536]; stack_t ss; std::memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = segv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0);
    for (std::uint64_t s = first; s < first + count; s += per) {
        if (::time(0) - start >= secs) break;
        pid_t p = fork();
        if (p == 0) {
            for (std::uint64_t k = s; k < s + per; ++k) {
                alarm(60); sim_begin(k * 64 + what[0]);
                if (what == "mutex") scen_mutex();
                else if (what == "wait") scen_wait(false, false, false, kinds);
                else if (what == "timed") scen_wait(true, false, false, kinds);
                else if (what == "oom") { if (sim_rnd(4) == 0) scen_table(true, false); else scen_wait(sim_rnd(2), true, false, kinds); }
                else if (what == "table") scen_table(false, false);
                else if (what == "cleanup") { if (sim_rnd(4) == 0) scen_table(false, true); else scen_wait(sim_rnd(2), sim_rnd(4) == 0, true, kinds); if (sim_rnd(2)) scen_wait(false, false, false, kinds); }
            }
            finish(); std::fflush(stdout); _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st)) { std::printf("BAD the program dies by signal %d (runs %llu..%llu)\n", WTERMSIG(st), (unsigned long long)s, (unsigned long long)(s + per - 1)); }
        std::fflush(stdout); return 1;
    }
    return 0;
}
