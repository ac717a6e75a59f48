"""Further replays: race detector (weak orders, plain accesses), store buffering and
lost updates on two real threads, compiler fences, undefined behaviour sanitizer."""
import os, subprocess, tempfile, shutil, re
from . import build, harness
from . import replay as R

A_, R_ = (2, 6, 14), (4, 6, 14)
LP = '''
namespace boost { namespace atomics { namespace detail { namespace lock_pool {
void* short_lock(atomics::detail::uintptr_t) noexcept { return nullptr; } void* long_lock(atomics::detail::uintptr_t) noexcept { return nullptr; } void unlock(void*) noexcept {}
void* allocate_wait_state(void*, const volatile void*) noexcept { return nullptr; } void free_wait_state(void*, void*) noexcept {} void wait(void*, void*) noexcept {}
bool wait_until(void*, void*, clockid_t, timespec const&) noexcept { return true; } bool wait_for(void*, void*, std::chrono::nanoseconds) noexcept { return true; }
void notify_one(void*, const volatile void*) noexcept {} void notify_all(void*, const volatile void*) noexcept {} void thread_fence() noexcept { __sync_synchronize(); } void signal_fence() noexcept {}
} } } }
'''
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def small(m, i):
    """value number i that fits every type"""
    v = [0, 1, 2, 5, 7][i]
    t = harness.ALLT[m['t']]
    if m.get('isbool'): return v & 1
    if t.kind == 'fp': return R._st([0.0, 1.0, 2.0, 5.0, 7.0][i], 80 if t.size == 16 else 8 * t.size)
    if t.kind == 'ptr': return 0x1000 * v
    return v

def call_of(n, vals):
    """C++ statements declaring the arguments and the call; vals: name -> int"""
    m = n.m; d = []; call = []
    for p in m['params']:
        if p[0] in ('obj', 'lobj'): call.append('obj')
        elif p[0] in ('in', 'exp', 'out'):
            b = vals.get(p[1], 0).to_bytes(max(p[2], 16), 'little')[:p[2]]
            d.append('alignas(16) unsigned char a_%s[%d] = { %s };' % (p[1], p[2], ', '.join(map(str, b))))
            call.append('(%s*)a_%s' % ('std::ptrdiff_t' if p[1] == 'd' else 'TT_%s' % n.t.name, p[1]))
        else:
            call.append('(%s)%dull' % ((p[3] if len(p) > 3 else 'unsigned int') if p[0] == 'scalar' else 'memory_order', vals.get(p[1], 0)))
    return ' '.join(d) + ' %s(%s);' % (m['fn'], ', '.join(call))

def obj_text(m, v):
    n = m['objsize']; return ', '.join(map(str, v.to_bytes(n, 'little')))

INTS = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long', 16: 'unsigned __int128'}

def tsan_usable(ll, fn):
    """the race detector sees every synchronisation of the function"""
    m = re.search(r'^define [^\n]*@%s\(.*?^}' % re.escape(fn), ll, re.S | re.M)
    if not m: return False
    b = m.group(0)
    for a in re.findall(r'\basm (?:sideeffect )?(?:inteldialect )?"([^"]*)"', b):
        if a.strip(): return False
    if re.search(r'^\s*fence |\bload volatile|\bstore volatile', b, re.M): return False
    if re.search(r'call [^\n]*@_ZN5boost7atomics', b): return False
    return bool(re.search(r'\batomicrmw|\bcmpxchg|\bload atomic|\bstore atomic', b)) or bool(re.search(r'\b(load|store)\b', b))

def order_litmus(x, f, n):
    m = n.m
    if not m['lockfree'] or m['objsize'] not in INTS or m['kind'] not in ('rmw', 'store', 'load', 'cas', 'wait'): return False, ''
    cfg = build.cfg_of(x['cfg']); c = build.CONFIGS[x['cfg']]; pre = c.get('pre') or ''
    ords = [p[1] for p in m['params'] if p[0] == 'order']
    mo = lambda k: int(f['args'].get(k, '0xe'), 16)
    if not ords: combos = [{}]
    elif len(ords) == 2:
        combos = [dict(zip(ords, t)) for t in m['ordersets']]; combos.sort(key=lambda d: (d['order'] != mo('order')) + (d['forder'] != mo('forder')))
    else:
        combos = [{ords[0]: o} for o in m_orders(m)]; combos.sort(key=lambda d: d[ords[0]] != mo(ords[0]))
    IT = INTS[m['objsize']]
    rawflags = ['-mcx16'] if m['objsize'] == 16 else []
    # is the function visible to the race detector at all?
    src = os.path.join(n.work, 'v.cpp'); open(src, 'w').write(pre + n.text)
    r = sh(['clang++-18', '-O1', '-w', '-S', '-emit-llvm', '-I' + build.REPO + '/include', '-std=' + c['std']] + c['flags'] + rawflags + ['-o', os.path.join(n.work, 'v.ll'), src])
    if r.returncode != 0: return False, r.stdout[-300:]
    if not tsan_usable(open(os.path.join(n.work, 'v.ll')).read(), m['fn']): return False, 'race detector cannot see this function\n'
    tests = []
    for d in combos[:6]:
        o = d.get('order', 14 if m['kind'] != 'x' else 14)
        if m['kind'] == 'cas':
            fo = d.get('forder', {6: 2, 4: 0}.get(o, o))
            if o in A_: tests.append(('acq', d, True))
            if o in R_: tests.append(('rel', d, True))
            if fo in A_: tests.append(('acq', d, False))
        else:
            if m['kind'] != 'store' and o in A_: tests.append(('acq', d, True))
            if m['kind'] in ('rmw', 'store') and o in R_: tests.append(('rel', d, True))
    if not tests: return False, ''
    init = small(m, 2) if m['kind'] != 'load' else small(m, 1)
    v1 = small(m, 1)
    body = []
    for i, (k, d, succ) in enumerate(tests):
        vals = dict(d); vals.update(v=small(m, 3), bit=0, d=1)
        if m.get('isbool'): vals['v'] = 0
        at = v1 if k == 'acq' else init
        if m['kind'] == 'cas': vals['exp'] = at if succ else (small(m, 4) if not m.get('isbool') else 1 - at)
        if m['kind'] == 'wait': vals['v'] = small(m, 4) if not m.get('isbool') else 1 - v1
        loop = '%s'
        if k == 'acq':
            a = 'data%d = 1; __atomic_store_n((%s*)obj, (%s)V1, __ATOMIC_RELEASE); __atomic_store_n(&go%d, 1, __ATOMIC_RELAXED);' % (i, IT, IT, i)
            b = 'while (!__atomic_load_n(&go%d, __ATOMIC_RELAXED)) {} { %s } sink = data%d;' % (i, call_of(n, vals), i)
        else:
            b = 'data%d = 1; { %s } __atomic_store_n(&go%d, 1, __ATOMIC_RELAXED);' % (i, call_of(n, vals), i)
            a = 'while (!__atomic_load_n(&go%d, __ATOMIC_RELAXED)) {} (void)__atomic_load_n((%s*)obj, __ATOMIC_ACQUIRE); sink = data%d;' % (i, IT, i)
        body.append('''static int data%d, go%d; alignas(64) static unsigned char obj%d[64] = { %s };
static void* a%d(void*) { unsigned char* obj = obj%d; %s return 0; }
static void* b%d(void*) { unsigned char* obj = obj%d; %s return 0; }
''' % (i, i, i, obj_text(m, init), i, i, a, i, i, b))
    v1t = ' | '.join('((U)%dull << %d)' % ((v1 >> s) & (2**64 - 1), s) for s in ((0, 64) if m['objsize'] == 16 else (0,)))
    main = '#include <pthread.h>\n#include <stdio.h>\nstatic volatile int sink; typedef %s U;\n#define V1 (%s)\n' % (IT, v1t) + ''.join(body) + \
        'int main() { pthread_t p, q;\n' + ''.join('fprintf(stderr, "TEST %d\\n"); pthread_create(&p, 0, a%d, 0); pthread_create(&q, 0, b%d, 0); pthread_join(p, 0); pthread_join(q, 0);\n' % (i, i, i) for i in range(len(tests))) + 'fprintf(stderr, "DONE\\n"); return 0; }\n'
    src = os.path.join(n.work, 'o.cpp'); exe = os.path.join(n.work, 'o'); open(src, 'w').write(pre + n.text + LP + main)
    cmd = ['clang++-18', '-O1', '-g', '-w', '-fsanitize=thread', '-DBOOST_ATOMIC_STATIC_LINK', '-I' + build.REPO + '/include', '-std=' + c['std']] + c['flags'] + rawflags + ['-o', exe, src, '-pthread']
    r = sh(cmd)
    if r.returncode != 0: return False, 'order litmus does not compile: %s\n' % r.stdout[-600:]
    try: r = sh([exe], timeout=60, env=dict(os.environ, TSAN_OPTIONS='halt_on_error=0 exitcode=0 report_bugs=1 history_size=2'))
    except subprocess.TimeoutExpired: return False, 'order litmus timed out\n'
    parts = re.split(r'TEST (\d+)\n', r.stdout)
    for i in range(1, len(parts), 2):
        k = int(parts[i]); t = parts[i + 1]
        if re.search(r"Location is global '(?:[^']*::)?data%d'" % k, t) and 'data race' in t and 'obj%d' % k not in t.split('Location')[1][:60]:
            kind, d, succ = tests[k]
            return True, 'race detector (%s), %s of %s with %s%s:\n%s\n' % (' '.join(cmd).replace(n.work, '.'), {'acq': 'acquire side', 'rel': 'release side'}[kind], m['fn'],
                ', '.join('%s=%d' % kv for kv in d.items()) or 'default order', '' if succ else ' (failing comparison)', t[:2500])
    return False, 'race detector: no report in %d litmus runs\n' % len(tests)

def m_orders(m):
    for p in m['params']:
        if p[0] == 'order': return list(p[2])
    return []

SBT = '''
#include <pthread.h>
#include <stdio.h>
#include <sched.h>
alignas(64) static unsigned char objs[128]; alignas(64) static volatile int Y; alignas(64) static volatile int r1, r2; alignas(64) static volatile int bar1; alignas(64) static volatile int bar2;
static const int N = 300000;
static inline void sync_(int me, int i) { if (me) { __atomic_store_n(&bar2, i, __ATOMIC_SEQ_CST); while (__atomic_load_n(&bar1, __ATOMIC_ACQUIRE) < i) {} } else { __atomic_store_n(&bar1, i, __ATOMIC_SEQ_CST); while (__atomic_load_n(&bar2, __ATOMIC_ACQUIRE) < i) {} } }
static void* ta(void*) { unsigned char* obj = objs; for (int i = 1; i <= N; ++i) { sync_(0, 3 * i); for (int k = i %% 17; k > 0; --k) __asm__ __volatile__(""); %(op)s r1 = __atomic_load_n(&Y, __ATOMIC_RELAXED); sync_(0, 3 * i + 1); sync_(0, 3 * i + 2); } return 0; }
int main() {
    pthread_t p; long bad = 0; pthread_create(&p, 0, ta, 0); unsigned char* obj = objs; %(rt)s* const o = (%(rt)s*)obj;
    for (int i = 1; i <= N; ++i) {
        __atomic_store_n(o, (%(rt)s)%(old)dull, __ATOMIC_SEQ_CST); Y = 0; __atomic_thread_fence(__ATOMIC_SEQ_CST);
        sync_(1, 3 * i); for (int k = i %% 13; k > 0; --k) __asm__ __volatile__("");
        __atomic_exchange_n(&Y, 1, __ATOMIC_SEQ_CST); %(rt)s v = __atomic_load_n(o, __ATOMIC_SEQ_CST);
        sync_(1, 3 * i + 1); if (r1 == 0 && v == (%(rt)s)%(old)dull) ++bad; sync_(1, 3 * i + 2);
    }
    pthread_join(p, 0); printf("BAD %%ld of %%d\\n", bad, N); return 0;
}
'''
def store_buffering(x, f, n):
    m = n.m
    if m['kind'] not in ('store', 'rmw', 'cas') or not m['lockfree'] or m['objsize'] > 8: return False, ''
    if m['kind'] == 'cas': return False, ''
    cxx, flags, pre = R.compilers(x['cfg'])[0]
    vals = dict(v=small(m, 1), bit=0, d=1, order=14, forder=14); old = None
    orc = R.Oracle(m)
    for c in ([0, 1] if m.get('isbool') else [small(m, 2), small(m, 1), small(m, 3), (1 << orc.w) - 1, 0]):
        try:
            new = small(m, 1) if m['kind'] == 'store' and m['op'] != 'clear' else 0 if m['op'] == 'clear' else orc.F(c, vals)
        except Exception: continue
        if new is not None and orc.proj(new) != orc.proj(c): old = c; break
    if old is None: return False, 'store buffering: no changing argument\n'
    IT = INTS[m['objsize']]
    t = pre + n.text + LP + SBT % dict(op='{ %s }' % call_of(n, vals), rt=IT, old=old)
    src = os.path.join(n.work, 's.cpp'); exe = os.path.join(n.work, 's'); open(src, 'w').write(t)
    cmd = [cxx, '-O2', '-w', '-DBOOST_ATOMIC_STATIC_LINK', '-I' + build.REPO + '/include'] + flags + ['-o', exe, src, '-pthread']
    r = sh(cmd)
    if r.returncode != 0: return False, 'store buffering run does not compile: %s\n' % r.stdout[-600:]
    try: r = sh([exe], timeout=90)
    except subprocess.TimeoutExpired: return False, 'store buffering run timed out\n'
    mm = re.search(r'BAD (\d+) of', r.stdout)
    if mm and int(mm.group(1)) > 0:
        return True, 'store buffering, two threads: %s (memory_order_seq_cst) on X then a read of Y, against exchange(Y) then a read of X: both reads missed the other thread\'s write in %s runs\n' % (m['fn'], r.stdout.strip()[4:])
    return False, 'store buffering: not observed\n'

LU = '''
#include <pthread.h>
#include <stdio.h>
#include <string.h>
alignas(64) static unsigned char obj[64]; static int go; static volatile bool done;
static const int N = 1000000; static long count;
static void* ta(void*) { __atomic_add_fetch(&go, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n(&go, __ATOMIC_ACQUIRE) != 2) {} while (!done) { %(op)s ++count; } return 0; }
int main() {
    for (int trial = 0; trial < %(trials)d; ++trial) {
        %(rt)s* const o = (%(rt)s*)obj; *o = (%(rt)s)%(init)dull; pthread_t p; go = 0; done = false; count = 0; pthread_create(&p, 0, ta, 0);
        __atomic_add_fetch(&go, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n(&go, __ATOMIC_ACQUIRE) != 2) {}
        for (int i = 0; i < N / %(trials)d; ++i) { %(other)s }
        done = true; pthread_join(p, 0); const long n1 = count; const long n2 = N / %(trials)d; (void)n1; (void)n2;
        const %(rt)s want = (%(rt)s)(%(want)s);
        if (*o != want) { printf("LOST %%lx instead of %%lx\\n", (unsigned long)*o, (unsigned long)want); return 0; }
    }
    printf("OK\\n"); return 0;
}
'''
def lost_updates(x, f, n):
    m = n.m
    if m['kind'] != 'rmw' or not m['lockfree'] or m['objsize'] > 8 or m.get('isbool'): return False, ''
    t = harness.ALLT[m['t']]
    if t.kind not in ('int', 'enum', 'ptr'): return False, ''
    op = m['op']; IT = INTS[m['objsize']]; w = 8 * m['objsize']; full = (1 << w) - 1
    add = '__atomic_fetch_add(o, (%s)2, __ATOMIC_RELAXED);' % IT; vals = dict(order=0, bit=0, d=0, v=0); init = 0
    trials = 1; want = None
    if op.endswith(('_p1', '_m1')) or op in ('preinc', 'postinc', 'predec', 'postdec'):
        orc = R.Oracle(m); sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        try: ds = {sg((orc.F(c, vals) - c) & full) for c in (0, 2, 100)}
        except Exception: return False, ''
        if len(ds) != 1: return False, ''
        want = '(%d) * (long)n1 + 2 * n2' % ds.pop()
    elif 'complement' in op and not op.startswith('bit_'): add = '__atomic_fetch_xor(o, (%s)1, __ATOMIC_RELAXED);' % IT; want = '((n1 & 1) ? ~0ull : 0ull) ^ (n2 & 1)'; trials = 40
    elif op.startswith('bit_test_and_'):
        vals['bit'] = w - 1
        want = {'set': '(1ull << %d) + 2 * n2' % (w - 1), 'reset': '2 * n2', 'complement': '((n1 & 1) ? (1ull << %d) : 0ull) + 2 * n2' % (w - 1)}[op[13:]]
        if w < 32: add = '__atomic_fetch_xor(o, (%s)1, __ATOMIC_RELAXED);' % IT; want = want.replace('2 * n2', '(n2 & 1)'); trials = 40
        elif op[13:] != 'reset': want = want.replace('2 * n2', '((2ull * n2) & %dull)' % (full >> 1)) if w == 32 else want
    else:
        core = op[:-9] if op.endswith('_and_test') else op
        core = core.split('_')[-1]
        if core == 'and': vals['v'] = full; want = '2 * n2'
        elif core in ('or', 'xor', 'add', 'sub'): want = '2 * n2'
    if want is None: return False, ''
    cxx, flags, pre = R.compilers(x['cfg'])[0]
    src = os.path.join(n.work, 'l.cpp'); exe = os.path.join(n.work, 'l')
    open(src, 'w').write(pre + n.text + LP + LU % dict(op='{ %s }' % call_of(n, vals), rt=IT, init=init, other=add, want=want, trials=trials))
    r = sh([cxx, '-O2', '-w', '-DBOOST_ATOMIC_STATIC_LINK', '-I' + build.REPO + '/include'] + flags + ['-o', exe, src, '-pthread'])
    if r.returncode != 0: return False, 'lost update run does not compile: %s\n' % r.stdout[-600:]
    try: r = sh([exe], timeout=90)
    except subprocess.TimeoutExpired: return False, 'lost update run timed out\n'
    if 'LOST' in r.stdout: return True, 'two threads, one repeating %s, the other %s: %s\n' % (m['fn'], add, r.stdout.strip())
    return False, 'lost updates: none observed\n'

def ubsan(x, f):
    n = R.Native(x)
    try:
        m = n.m
        if m['kind'] not in ('rmw', 'store', 'load', 'cas', 'ctor'): return False, ''
        cxx, flags, pre = R.compilers(x['cfg'])[0]
        n.compile(('clang++-18' if cxx != 'g++' else cxx, flags, pre), ['-fsanitize=undefined', '-fsanitize-trap=undefined'] if cxx != 'g++' else ['-fsanitize=undefined', '-fsanitize-undefined-trap-on-error'], '-O1')
        orc = R.Oracle(m); md, base = R.candidates(x, f, m, orc)
        vecs = []
        import itertools
        inp = [p for p in m['params'] if p[0] in ('in', 'exp', 'scalar')]
        for v in (md + base)[:8]:
            ch = []
            for p in inp:
                c = [int(f['args'][p[1]], 16)] if p[1] in f['args'] else []
                c += [0, 1, 7] if p[0] == 'scalar' else [q & ((1 << (8 * p[2])) - 1) for q in (md + base)[:8]]
                ch.append(c)
            for t in list(itertools.product(*ch))[:60]:
                for o in R.orders_for(m, f): vecs.append(dict(obj=v, args=dict(zip([p[1] for p in inp], t), **o), inj=[]))
        for v, o in zip(vecs, n.run(vecs[:600])):
            if o['why'] == 'C':
                return True, 'undefined behaviour sanitizer stopped %s: object %#x, arguments %s\ncompiled with %s\n' % (m['fn'], v['obj'], ', '.join('%s=%#x' % kv for kv in v['args'].items()), n.cmd.replace(n.work, '.'))
        return False, 'undefined behaviour sanitizer: nothing found in %d inputs\n' % len(vecs)
    finally: n.close()

FEN = '''
#include <boost/atomic.hpp>
#include <boost/memory_order.hpp>
#include <new>
using boost::memory_order;
#define X extern "C"
X void h_fr(void* obj, int* out) { int* p = (int*)obj; int a = *p; boost::%(fn)s(%(o)s); int b = *p; out[0] = a; out[1] = b; }
X void h_fw(void* obj, int* out) { int* p = (int*)obj; *p = 1; boost::%(fn)s(%(o)s); *p = 2; }
typedef unsigned long TT_u64;
'''
ON = {1: 'boost::memory_order_consume', 2: 'boost::memory_order_acquire', 4: 'boost::memory_order_release', 6: 'boost::memory_order_acq_rel', 14: 'boost::memory_order_seq_cst'}
def fences(x, f):
    fn = x['meta']['op']; txt = ''
    mo = int(f['args'].get('order', '0'), 16)
    cand = sorted(ON, key=lambda o: o != mo)
    for o in cand:
        for h in ('h_fr', 'h_fw'):
            if h == 'h_fr' and o == 4 or h == 'h_fw' and o in (1, 2): continue
            xx = dict(x, fn='h_u64_x', meta=dict(x['meta']))
            n = R.Native.__new__(R.Native); n.x = x; n.t = harness.ALLT['u64']; n.text = FEN % dict(fn=fn, o=ON[o]); n.work = tempfile.mkdtemp(prefix='irvrp.')
            n.m = dict(fn=h, params=[('obj',), ('out', 'out', 8)], objsize=4)
            n.text = n.text.replace('int* out', 'TT_u64* out').replace('out[0] = a; out[1] = b;', 'int* q = (int*)out; q[0] = a; q[1] = b;').replace('X void', 'X void').replace('#define X extern "C"', '#define X extern "C"\ntypedef unsigned long TT_u64;')
            try:
                for comp in R.compilers(x['cfg']):
                    try: n.compile(comp)
                    except Exception as e: txt += 'fence run: %s\n' % str(e)[:300]; continue
                    r0 = n.run([dict(obj=5, args={}, inj=[])])[0]
                    if r0['why'] != 'R': continue
                    if h == 'h_fw':
                        if not any(own and v == 1 for own, v in r0['hist']): return True, 'two plain stores of 1 and 2 separated by %s(%s): the first one is never performed (compiled with %s)\n' % (fn, ON[o], n.cmd.replace(n.work, '.'))
                    else:
                        rs = n.run([dict(obj=5, args={}, inj=[(k, 9)]) for k in range(1, r0['steps'] + 1)])
                        if not any(q['out'] & 0xffffffff != q['out'] >> 32 for q in rs): return True, 'two plain loads separated by %s(%s): the second one is never performed, whenever another thread changes the variable (compiled with %s)\n' % (fn, ON[o], n.cmd.replace(n.work, '.'))
            finally: n.close()
    if 'signal' not in fn:
        work = tempfile.mkdtemp(prefix='irvrp.')
        try:
            cxx, flags, pre = R.compilers(x['cfg'])[0]
            t = pre + FEN.split('#define X')[0] + LP + SBT % dict(op='__atomic_store_n((unsigned int*)obj, 1u, __ATOMIC_RELAXED); boost::atomic_thread_fence(boost::memory_order_seq_cst);', rt='unsigned int', old=0)
            open(work + '/s.cpp', 'w').write(t)
            r = sh([cxx, '-O2', '-w', '-DBOOST_ATOMIC_STATIC_LINK', '-I' + build.REPO + '/include'] + flags + ['-o', work + '/s', work + '/s.cpp', '-pthread'])
            if r.returncode == 0:
                r = sh([work + '/s'], timeout=90); mm = re.search(r'BAD (\d+) of', r.stdout)
                if mm and int(mm.group(1)): return True, 'store buffering: X=1; %s(seq_cst); read Y against exchange(Y); read X: both reads missed the other write in %s runs\n' % (fn, r.stdout.strip()[4:])
            else: txt += r.stdout[-300:]
        except subprocess.TimeoutExpired: pass
        finally: shutil.rmtree(work, ignore_errors=True)
    return False, txt

RO = '''
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
static void segv(int, siginfo_t* i, void*) { const char t[] = "WRITE\\n"; ssize_t r = write(1, t, sizeof t - 1); (void)r; (void)i; _exit(3); }
int main() {
    unsigned char* obj = (unsigned char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    const unsigned char init[] = { %(init)s }; memcpy(obj, init, sizeof init); mprotect(obj, 4096, PROT_READ);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = segv; a.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &a, 0); sigaction(SIGBUS, &a, 0);
    { %(op)s }
    printf("OK\\n"); return 0;
}
'''
def build_run(x, n, text, more=()):
    cxx, flags, pre = R.compilers(x['cfg'])[0]
    src = os.path.join(n.work, 'r.cpp'); exe = os.path.join(n.work, 'r'); open(src, 'w').write(pre + n.text + LP + text)
    cmd = [cxx, '-O2', '-w', '-DBOOST_ATOMIC_STATIC_LINK', '-I' + build.REPO + '/include'] + flags + list(more) + ['-o', exe, src, '-pthread']
    r = sh(cmd)
    if r.returncode: return 'not built: ' + r.stdout[-400:]
    try: return sh([exe], timeout=30).stdout
    except subprocess.TimeoutExpired: return 'timed out'

def read_only(x, f, n):
    m = n.m
    if not m['lockfree'] or m['kind'] not in ('load', 'wait'): return False, ''
    txt = ''
    for mo in m_orders(m)[:3] or [14]:
        vals = dict(v=small(m, 1), old=small(m, 1), order=14); vals["order"] = mo
        o = build_run(x, n, RO % dict(init=obj_text(m, small(m, 2)), op=call_of(n, vals)))
        if 'WRITE' in o: return True, '%s on an object in memory mapped read-only (value %#x, order %d): the call faults, it writes\n' % (m['fn'], small(m, 2), vals.get('order', 14))
        txt += 'read-only page: %s\n' % o.strip()[-300:]
    return False, txt

EDGE = '''
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
static void segv(int, siginfo_t*, void*) { const char t[] = "FAULT\\n"; ssize_t r = write(1, t, sizeof t - 1); (void)r; _exit(3); }
int main() {
    unsigned char* const p = (unsigned char*)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p, 4096, PROT_NONE); mprotect(p + 2 * 4096, 4096, PROT_NONE);
    const unsigned char init[] = { %(init)s }; unsigned char* const obj = p + %(off)s; memcpy(obj, init, sizeof init);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = segv; a.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &a, 0); sigaction(SIGBUS, &a, 0);
    { %(op)s }
    printf("OK\\n"); return 0;
}
'''
def page_edge(x, f, n):
    m = n.m
    if not m['lockfree']: return False, ''
    txt = ''
    vals = {p[1]: small(m, 1) for p in m['params'] if p[0] in ('in', 'exp', 'scalar')}
    for p in m['params']:
        if p[0] == 'order': vals[p[1]] = (p[2] or [14])[-1]
    for off, w in (('2 * 4096 - sizeof init', 'last object of the mapped memory'), ('4096', 'first object of the mapped memory')):
        o = build_run(x, n, EDGE % dict(init=obj_text(m, small(m, 2)), off=off, op=call_of(n, vals)))
        if 'FAULT' in o: return True, '%s on the %s (value %#x): the call faults, it accesses bytes outside the object\n' % (m['fn'], w, small(m, 2))
        txt += 'edge of a page: %s\n' % o.strip()[-200:]
    return False, txt

IP = '''
#include <sys/syscall.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
alignas(64) static unsigned char obj[64]; static int calls;
extern "C" long syscall(long no, ...) noexcept {
    va_list ap; va_start(ap, no); void* const a = va_arg(ap, void*); const int op = (int)va_arg(ap, long); va_end(ap);
    if (no != SYS_futex || (unsigned char*)a < obj || (unsigned char*)a >= obj + sizeof obj) { errno = EINVAL; return -1; }
    printf("%%s\\n", (op & FUTEX_PRIVATE_FLAG) ? "PRIVATE" : "SHARED"); fflush(stdout);
    if (++calls > 1000) { printf("MANY\\n"); fflush(stdout); _exit(4); }
    const int c = op & 127; if (c == FUTEX_WAIT || c == FUTEX_WAIT_BITSET) { memset(obj, 1, %(size)d); }
    return 0;
}
int main() { const unsigned char init[] = { %(init)s }; memcpy(obj, init, sizeof init); { %(op)s } printf("DONE\\n"); return 0; }
'''
def ipc_futex(x, f, n):
    m = n.m
    if not m.get('ipc') or m['kind'] not in ('wait', 'wait_timed', 'notify'): return False, ''
    vals = dict(v=small(m, 2), old=small(m, 2), order=14)
    for p in m['params']:
        if p[0] == 'scalar': vals[p[1]] = 1 << 40
        elif p[0] in ('in', 'exp') and p[1] not in vals: vals[p[1]] = small(m, 2)
    o = build_run(x, n, IP % dict(init=obj_text(m, small(m, 2)), op=call_of(n, vals), size=m['objsize']))
    if 'PRIVATE' in o: return True, '%s on an inter-process object: the futex call carries FUTEX_PRIVATE_FLAG, it waits for or wakes threads of this process only\n' % m['fn']
    return False, 'futex call of the inter-process operation: %s\n' % ' '.join(o.split())[:300]

def more(x, f):
    k = x['meta']['kind']; nm = f['name']; txt = ''
    if k == 'fence': return fences(x, f)
    if nm == 'no-undefined-behaviour':
        ok, t = ubsan(x, f)
        if ok: return ok, t
        txt += t
    if k not in ('rmw', 'store', 'load', 'cas', 'wait') and nm != 'ipc': return False, txt
    n = R.Native(x)
    try:
        if nm == 'readonly': L = [read_only]
        elif nm == 'ipc': L = [ipc_futex]
        elif nm == 'order': L = [order_litmus, store_buffering]
        elif nm in ('atomicity', 'asm-constraints', 'not-under-contract'): L = [lost_updates, page_edge]
        elif nm in ('memory-safety', 'frame'): L = [page_edge]
        else: L = []
        for g in L:
            ok, t = g(x, f, n)
            if ok: return ok, t
            txt += t
    finally: n.close()
    return False, txt
