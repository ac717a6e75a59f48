"""Replays of failed obligations of the compiled part of the library (src/): small
programs built from /repo's sources, run against the real functions."""
import os, re, subprocess, tempfile, shutil
from . import build

def sh(cmd, timeout=120, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace', **kw)

SEARCH = r'''
#include "%(repo)s/src/lock_pool.cpp"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <initializer_list>
#include <unistd.h>
#include <sys/mman.h>
typedef const volatile void* P;
namespace D = boost::atomics::detail;
static const char* what; static std::size_t fn_size, fn_pos; static int fn_kind;
static void segv(int) { char b[300]; int n = std::snprintf(b, sizeof b, "BAD %%s: memory access outside the array, %%zu entries, content %%d, position %%zu\n", what, fn_size, fn_kind, fn_pos); (void)!write(1, b, n); _exit(1); }
static P* end_of_page(std::size_t n) {
    static char* base = 0; const std::size_t L = 64 * 4096;
    if (!base) { base = (char*)mmap(0, L + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + L, 4096, PROT_NONE); }
    return (P*)(base + 4096 + L - n * 8);
}
static P* start_of_page() { return (P*)((char*)end_of_page(0) - 64 * 4096); }
static void fail(std::size_t n, std::size_t r, int kind, std::size_t pos, const char* m) {
    std::printf("BAD %%s: %%s: %%zu entries, result %%zu, content %%d, position %%zu\n", what, m, n, r, kind, pos); std::exit(1);
}
static void run(const char* w, D::find_address_t* f) {
    what = w;
    const unsigned long A = 0x1122334455667788ul;
    for (std::size_t n = 0; n <= 100; ++n) for (int where = 0; where < 2; ++where) for (int kind = 0; kind < 6; ++kind) for (std::size_t pos = 0; pos <= n; ++pos) for (int pad = 0; pad < 2; ++pad) {
        std::size_t e = (n + 1) & ~std::size_t(1);
        if (kind == 0 && pos) continue;
        if (pad && !(n & 1)) continue;
        P* a = where ? end_of_page(e) : start_of_page();
        unsigned long* v = (unsigned long*)a;
        for (std::size_t i = 0; i < e; ++i) {
            // entries that agree with the address in one half only
            if (kind == 2) v[i] = (A & 0xffffffff00000000ul) | i; else if (kind == 3) v[i] = (A & 0xfffffffful) | (i << 32); else if (kind == 4) v[i] = i & 1 ? (A << 32) | (A >> 32) : A ^ (1ul << (i & 63)); else if (kind == 5) v[i] = i & 1 ? ~0ul : 0; else v[i] = 0x1000 + 64 * i;
        }
        if (n < e) v[n] = pad ? A : 0;
        if (kind && pos < n) v[pos] = A;
        fn_size = n; fn_pos = pos; fn_kind = kind;
        std::size_t r = f((P)A, a, n);
        bool has = kind && pos < n;
        if (has ? r != pos : r < n) fail(n, r, kind, pos, has ? (r < n ? "index of another entry returned" : "entry not found") : "entry found that is not there");
    }
    for (std::size_t n : {1000ul, 4095ul, 20000ul, 20017ul}) for (std::size_t t = 0; t < 40; ++t) {
        std::size_t e = (n + 1) & ~std::size_t(1), pos = (t * 7919) %% (n + n / 8);
        P* a = end_of_page(e); unsigned long* v = (unsigned long*)a;
        for (std::size_t i = 0; i < e; ++i) v[i] = 0x1000 + 64 * i;
        if (pos < n) v[pos] = A;
        fn_size = n; fn_pos = pos; fn_kind = 9;
        std::size_t r = f((P)A, a, n);
        if (pos < n ? r != pos : r < n) fail(n, r, 9, pos, "wrong result");
    }
}
int main() {
    std::signal(SIGSEGV, segv); std::signal(SIGBUS, segv);
    __builtin_cpu_init();
    run("find_address_generic", &D::find_address_generic);
#if defined(BOOST_ATOMIC_USE_SSE2)
    run("find_address_sse2", &D::find_address_sse2);
#endif
#if defined(BOOST_ATOMIC_USE_SSE41)
    if (__builtin_cpu_supports("sse4.1")) run("find_address_sse41", &D::find_address_sse41);
#endif
    run("find_address (as selected)", [](P x, const P* y, std::size_t n) -> std::size_t { return D::lock_pool::find_address(x, y, n); });
    return 0;
}
'''
def search(x, f):
    cfg = build.cfg_of(x['cfg']); txt = ''
    vs = [(x['cfg'], cfg), ('gcc11', build.cfg_of('gcc11'))] if x['cfg'] != 'gcc11' else [('gcc11', cfg)]
    for name, c in vs:
        work = tempfile.mkdtemp(prefix='irvs.')
        try:
            cxx = 'g++' if c.get('gcc') else 'clang++-18'
            fl = ['-std=' + c['std'], '-O1', '-w', '-I%s/include' % build.REPO, '-I%s/src' % build.REPO, '-DBOOST_ATOMIC_SOURCE', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41'] + [q for q in c['flags'] if q.startswith('-m')]
            open(work + '/d.cpp', 'w').write(SEARCH % dict(repo=build.REPO))
            objs = []
            for src, more in (('d', []), ('find_address_sse2', ['-msse2']), ('find_address_sse41', ['-msse4.1'])):
                s = work + '/d.cpp' if src == 'd' else '%s/src/%s.cpp' % (build.REPO, src)
                r = sh([cxx] + fl + more + ['-c', s, '-o', '%s/%s.o' % (work, src)])
                if r.returncode: return False, txt + r.stdout[-800:]
                objs.append('%s/%s.o' % (work, src))
            r = sh([cxx] + objs + ['-o', work + '/d', '-pthread'])
            if r.returncode: return False, txt + r.stdout[-800:]
            try: r = sh([work + '/d'])
            except subprocess.TimeoutExpired: return True, 'search does not return (%s)\n' % name
            m = re.search(r'BAD (.*)', r.stdout)
            if m: return True, 'real code, %s: %s\n(content: 0 no entry, 1 distinct addresses, 2/3 entries equal in one half, 4 mixed halves, 5 all ones/zero; the entry sought is at the position given)\n' % (name, m.group(1))
            if r.returncode: return True, 'search program ended with status %d: %s\n' % (r.returncode, r.stdout[-300:])
            txt += 'search of arrays of 0..100, 1000, 4095, 20000 entries: no difference (%s)\n' % name
        finally: shutil.rmtree(work, ignore_errors=True)
    return False, txt
