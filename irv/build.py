"""compile instantiation units against /repo's current headers to LLVM IR"""
import os, subprocess, hashlib, shutil
REPO = os.environ.get('IRV_REPO', '/repo')
CLANG = 'clang++-18'; OPT = 'opt-18'
PIPE = "always-inline,inline,function(sroa,simplifycfg,instsimplify,early-cse,adce,simplifycfg),globaldce"

# GCC's view of the headers: the same front end, but the headers are told they are
# compiled by GCC (only the compiler identification macros change; standard and
# system headers are included before, under clang's own identity).
MASQ = """
#include <cstddef>
#include <cstdint>
#include <climits>
#include <cfloat>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <cassert>
#include <new>
#include <limits>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <chrono>
#include <ratio>
#include <atomic>
#include <memory>
#include <string>
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <emmintrin.h>
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __clang_patchlevel__
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ %d
#define __GNUC_MINOR__ %d
#define __GNUC_PATCHLEVEL__ 0
"""
CLEARPAD = """
#include <boost/atomic/detail/config.hpp>
template< typename T > struct irv_cp { static inline __attribute__((always_inline)) void f(T*) {} };
template< typename T > inline __attribute__((always_inline)) void irv_clear_padding(T* p) { irv_cp< T >::f(p); }
#undef BOOST_ATOMIC_NO_CLEAR_PADDING
#undef BOOST_ATOMIC_DETAIL_CLEAR_PADDING
#define BOOST_ATOMIC_DETAIL_CLEAR_PADDING(x) ::irv_clear_padding(x)
"""
CONFIGS = {
    # what the clang build of the test suite uses, plus plain baseline and C++11/20 views
    'clang17': dict(std='c++17', flags=['-march=sandybridge']),
    'clang11': dict(std='c++11', flags=['-march=sandybridge']),
    'clang20': dict(std='c++20', flags=['-march=sandybridge']),
    'base17': dict(std='c++17', flags=[]),                       # no cmpxchg16b: 16-byte emulated
    'cx16': dict(std='c++17', flags=['-mcx16']),                 # cmpxchg16b without AVX
    'gcc20': dict(std='c++20', flags=['-march=sandybridge'], pre=MASQ % (13, 3), gcc=True, gxx=['-std=c++20', '-march=sandybridge']),
    'gcc11': dict(std='c++11', flags=[], pre=MASQ % (13, 3), gcc=True, gxx=['-std=c++11']),
    'gcccx': dict(std='c++17', flags=['-mcx16'], pre=MASQ % (13, 3), gcc=True, gxx=['-std=c++17', '-mcx16']),
    'gccfb': dict(std='c++17', flags=['-march=sandybridge', '-DBOOST_ATOMIC_FORCE_FALLBACK'], pre=MASQ % (13, 3), gcc=True, gxx=['-std=c++17', '-march=sandybridge', '-DBOOST_ATOMIC_FORCE_FALLBACK']),
    'gccasm': dict(std='c++11', flags=['-mcx16'], pre=MASQ % (13, 3) + '#include <boost/config.hpp>\n#define __ibmxl__ 1\n'),      # hand-written assembly for every width
    # other architectures' view: compiler intrinsics only, no x86 specialisations (generic extra operations), and the legacy __sync intrinsics
    'gccgen': dict(std='c++17', flags=['-mcx16'], pre=MASQ % (13, 3) + '#include <boost/config.hpp>\n#undef __x86_64__\n#undef __amd64__\n'),
    'gccsync': dict(std='c++17', flags=['-mcx16'], pre=MASQ % (13, 3) + '#include <boost/config.hpp>\n#undef __x86_64__\n#undef __amd64__\n#define __ibmxl__ 1\n'),
    'fallback': dict(std='c++17', flags=['-march=sandybridge', '-DBOOST_ATOMIC_FORCE_FALLBACK']),
}
class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout

_cp = {}
def gxx_clear_padding(cfgname):
    """does the real g++ give the headers a way to clear padding?  (asked of g++ itself on every run)"""
    c = CONFIGS[cfgname]
    if not c.get('gcc'): return False
    if cfgname not in _cp:
        r = subprocess.run(['g++', '-E', '-P', '-x', 'c++', '-I' + REPO + '/include'] + c['gxx'] + ['-'], input='#include <boost/atomic/detail/config.hpp>\nIRV_MARK BOOST_ATOMIC_DETAIL_CLEAR_PADDING(zz)\n', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0: raise BuildError(r.stdout[-3000:])
        _cp[cfgname] = '__builtin_clear_padding(zz)' in r.stdout.split('IRV_MARK')[-1].replace(' ', '')
    return _cp[cfgname]

def cfg_of(name):
    c = dict(CONFIGS[name])
    if c.get('gcc') and gxx_clear_padding(name): c['clear_padding'] = True
    return c

def compile_ir(text, cfgname, work, tag, extra=(), opt=True, path=None, pipe=None):
    c = cfg_of(cfgname)
    src = path
    if src is None:
        src = os.path.join(work, tag + '.cpp')
        with open(src, 'w') as f: f.write((c.get('pre') or '') + (CLEARPAD if c.get('clear_padding') else '') + text)
    a = os.path.join(work, tag + '.raw.ll'); b = os.path.join(work, tag + '.ll')
    run([CLANG, '-std=' + c['std'], '-I' + REPO + '/include', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-discard-value-names', '-w', '-o', a, src] + c['flags'] + list(extra))
    run([OPT, '-S', '-passes=' + (pipe or PIPE), '-inline-threshold=1000000', a, '-o', b])
    os.unlink(a)
    return b
