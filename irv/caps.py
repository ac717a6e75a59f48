"""Capability reports: macros, type traits, object alignment.  Every constant is read
from the module compiled from /repo's headers and related to the others; that the
operations behave as reported is proved separately (categories lockfree, capability, ipc)."""
import os, time, tempfile, shutil, subprocess
from . import build, ll, harness

# macro stem -> C++ types it speaks about
TY = [('FLAG', None), ('BOOL', 'bool'), ('CHAR', 'char'), ('CHAR', 'signed char'), ('CHAR', 'unsigned char'), ('CHAR16_T', 'char16_t'), ('CHAR32_T', 'char32_t'), ('WCHAR_T', 'wchar_t'),
      ('SHORT', 'short'), ('SHORT', 'unsigned short'), ('INT', 'int'), ('INT', 'unsigned int'), ('LONG', 'long'), ('LONG', 'unsigned long'), ('LLONG', 'long long'), ('LLONG', 'unsigned long long'),
      ('ADDRESS', 'void*'), ('POINTER', 'int*'), ('POINTER', 'irv_fn'), ('INT8', 'std::int8_t'), ('INT8', 'std::uint8_t'), ('INT16', 'std::int16_t'), ('INT16', 'std::uint16_t'),
      ('INT32', 'std::int32_t'), ('INT32', 'std::uint32_t'), ('INT64', 'std::int64_t'), ('INT64', 'std::uint64_t'), ('INT128', '__int128'), ('INT128', 'unsigned __int128'),
      ('FLOAT', 'float'), ('DOUBLE', 'double'), ('LONG_DOUBLE', 'long double'),
      ('INT8', 'irv_s1'), ('INT16', 'irv_s2'), ('INT32', 'irv_s4'), ('INT64', 'irv_s8'), ('INT128', 'irv_s16'), ('INT32', 'irv_s3'), ('INT64', 'irv_s5'), ('INT64', 'irv_s7'), ('INT128', 'irv_s12'),
      ('INT8', 'irv_e1'), ('INT32', 'irv_e4'), ('INT64', 'irv_e8')]
PRE = '''
#include <cstddef>
#include <cstdint>
#include <boost/atomic.hpp>
#include <boost/atomic/capabilities.hpp>
typedef void (*irv_fn)();
struct irv_s1 { char c[1]; }; struct irv_s2 { char c[2]; }; struct irv_s3 { char c[3]; }; struct irv_s4 { char c[4]; }; struct irv_s5 { char c[5]; }; struct irv_s7 { char c[7]; }; struct irv_s8 { char c[8]; }; struct irv_s12 { char c[12]; }; struct irv_s16 { char c[16]; };
enum irv_e1 : unsigned char { }; enum irv_e4 : int { }; enum irv_e8 : long { };
#define K extern "C" const int
'''
def gen():
    t = [PRE]; items = []
    def k(name, expr): t.append('K %s = (int)(%s);' % (name, expr)); items.append(name)
    for i, (st, ty) in enumerate(TY):
        at = 'boost::atomic< %s >' % ty if ty else 'boost::atomic_flag'; ipc = 'boost::ipc_atomic< %s >' % ty if ty else 'boost::ipc_atomic_flag'
        k('mlf_%d' % i, 'BOOST_ATOMIC_%s_LOCK_FREE' % st); k('mnw_%d' % i, 'BOOST_ATOMIC_HAS_NATIVE_%s_WAIT_NOTIFY' % st); k('mni_%d' % i, 'BOOST_ATOMIC_HAS_NATIVE_%s_IPC_WAIT_NOTIFY' % st)
        k('lf_%d' % i, at + '::is_always_lock_free'); k('nw_%d' % i, at + '::always_has_native_wait_notify'); k('al_%d' % i, 'alignof(%s)' % at); k('sz_%d' % i, 'sizeof(%s)' % at)
        # inter-process types exist only where the type is lock-free
        t.append('#if BOOST_ATOMIC_%s_LOCK_FREE == 2' % st)
        k('ilf_%d' % i, ipc + '::is_always_lock_free'); k('iw_%d' % i, ipc + '::always_has_native_wait_notify')
        t.append('#endif')
        if ty:
            k('rlf_%d' % i, 'boost::atomic_ref< %s >::is_always_lock_free' % ty); k('rw_%d' % i, 'boost::atomic_ref< %s >::always_has_native_wait_notify' % ty); k('ral_%d' % i, 'boost::atomic_ref< %s >::required_alignment' % ty); k('rsz_%d' % i, 'sizeof(%s)' % ty)
    k('fence_t', 'BOOST_ATOMIC_THREAD_FENCE'); k('fence_s', 'BOOST_ATOMIC_SIGNAL_FENCE')
    return '\n'.join(t) + '\n', items

def obligations(v):
    """-> (holds, what, names)"""
    for i, (st, ty) in enumerate(TY):
        n = ty or 'flag'; g = lambda k: v.get('%s_%d' % (k, i))
        yield g('mlf') in (0, 1, 2), 'BOOST_ATOMIC_%s_LOCK_FREE is not 0, 1 or 2' % st
        yield (g('mlf') == 2) == bool(g('lf')), 'BOOST_ATOMIC_%s_LOCK_FREE is %s but atomic<%s>::is_always_lock_free is %s' % (st, g('mlf'), n, g('lf'))
        yield (g('mnw') == 2) == bool(g('nw')), 'BOOST_ATOMIC_HAS_NATIVE_%s_WAIT_NOTIFY is %s but atomic<%s>::always_has_native_wait_notify is %s' % (st, g('mnw'), n, g('nw'))
        yield not (g('nw') and not g('lf')), 'atomic<%s> claims native waiting without being lock-free' % n
        yield not g('lf') or (g('al') >= g('sz') and g('sz') in (1, 2, 4, 8, 16)), 'lock-free atomic<%s> of %s bytes is aligned to %s bytes only' % (n, g('sz'), g('al'))
        if g('ilf') is not None:
            yield (g('mlf') == 2) == bool(g('ilf')), 'ipc_atomic<%s>::is_always_lock_free is %s but BOOST_ATOMIC_%s_LOCK_FREE is %s' % (n, g('ilf'), st, g('mlf'))
            yield (g('mni') == 2) == bool(g('iw')), 'BOOST_ATOMIC_HAS_NATIVE_%s_IPC_WAIT_NOTIFY is %s but ipc_atomic<%s>::always_has_native_wait_notify is %s' % (st, g('mni'), n, g('iw'))
        if ty:
            yield not g('rlf') or (g('ral') >= g('rsz') and g('rsz') in (1, 2, 4, 8, 16)), 'lock-free atomic_ref<%s> of %s bytes requires an alignment of %s bytes only' % (n, g('rsz'), g('ral'))
            yield g('rsz') != g('sz') or bool(g('rlf')) == bool(g('lf')), 'atomic_ref<%s> and atomic<%s> of the same size disagree on being lock-free' % (n, n)
            yield not (g('rw') and not g('rlf')), 'atomic_ref<%s> claims native waiting without being lock-free' % n
    # the emulated back end may report 0
    yield v['fence_t'] in (0, 2), 'BOOST_ATOMIC_THREAD_FENCE is %s' % v['fence_t']
    yield v['fence_s'] in (0, 2), 'BOOST_ATOMIC_SIGNAL_FENCE is %s' % v['fence_s']

def consts(cfgname):
    text, items = gen(); work = tempfile.mkdtemp(prefix='irv.')
    try: mod = ll.parse_module(open(build.compile_ir(text, cfgname, work, 'k')).read())
    finally: shutil.rmtree(work, ignore_errors=True)
    v = {n: harness.const_global(mod, n) for n in items}
    return {k: x for k, x in v.items() if x is not None}

def native(cfgname):
    """the same constants printed by a program of the real compiler"""
    from . import replay
    text, items = gen(); cxx, flags, pre = replay.compilers(cfgname)[0]
    # only those constants that exist
    for i in range(len(TY)): text = text
    main = '#include <stdio.h>\nint main() {\n' + ''.join('#if %s\nprintf("%s %%d\\n", %s);\n#endif\n' % ('1' if n[:3] not in ('ilf', 'iw_') else 'BOOST_ATOMIC_%s_LOCK_FREE == 2' % TY[int(n.split('_')[1])][0], n, n) for n in items) + 'return 0; }\n'
    work = tempfile.mkdtemp(prefix='irvrp.')
    try:
        open(work + '/k.cpp', 'w').write(pre + text + main)
        r = subprocess.run([cxx, '-w', '-DBOOST_ATOMIC_STATIC_LINK', '-I' + build.REPO + '/include'] + flags + ['-o', work + '/k', work + '/k.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise build.BuildError(r.stdout[-2000:])
        out = subprocess.run([work + '/k'], stdout=subprocess.PIPE, text=True).stdout
        return {l.split()[0]: int(l.split()[1]) for l in out.splitlines()}, cxx + ' ' + ' '.join(flags)
    finally: shutil.rmtree(work, ignore_errors=True)

def unit(t):
    cfg = t['cfg']; t0 = time.time(); fails = []; n = 0
    srcs = [('module', consts(cfg))]
    if build.CONFIGS[cfg].get('gxx'): srcs.append(('g++', native(cfg)[0]))
    for nm, v in srcs:
        for ok, what in obligations(v):
            n += 1
            if not ok: fails.append(dict(name='capability', msg=what, status='refuted', where='constants of the %s, configuration %s' % (nm, cfg), model={}, events=[], args={}, trace=[]))
    return [dict(fn='capability reports', cfg=cfg, nobl=n, ndis=n - len(fails), bykind={'capability': [n, n - len(fails)]}, fails=fails, time=time.time() - t0, loops=0, paths=1, solver=0, queries=0, vacuous=False, nskip=0, meta=dict(kind='caps', op='caps'))]

def replay(x, f):
    v, cmd = native(x['cfg'])
    for ok, what in obligations(v):
        if what == f['msg'] and not ok: return True, 'a program compiled with %s prints the reported constants: %s\n' % (cmd, what)
    return False, 'the natively compiled constants are consistent\n'
