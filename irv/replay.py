"""Replays a counterexample of the verifier against the real, natively compiled code.

The failing function is compiled from /repo's headers by the real compiler and run
one machine instruction at a time; between two instructions the driver lets "another
thread" store any value into the object (never while the internal lock is held).  An
oracle independent of the code judges the observed transitions and results.  Weak
memory orders are looked for with the race detector and with store-buffering runs."""
import os, subprocess, tempfile, shutil, struct, itertools, random, z3
from . import build, harness
from .sym import bv, simp

def describe(x, f):
    s = 'function %s, configuration %s\nfailed obligation: %s\n%s\nstatus: %s\n' % (x['fn'], x['cfg'], f['name'], f['msg'], f['status'])
    if f['where']: s += 'at: %s\n' % f['where']
    if f['args']: s += 'arguments: %s\n' % ', '.join('%s=%s' % kv for kv in sorted(f['args'].items()))
    for e in f['events']: s += '  access: %s\n' % ', '.join('%s=%s' % kv for kv in e.items() if kv[1] is not None)
    if f['trace']: s += 'path: %s\n' % ' -> '.join(f['trace'])
    if f['model']: s += 'solver model: %s\n' % ', '.join('%s=%s' % kv for kv in sorted(f['model'].items())[:40])
    return s

# ---------------------------------------------------------------- evaluation of the contract functions
def _ld(a, n):
    import numpy as np
    if n == 32: return np.frombuffer(struct.pack('<I', a), np.float32)[0]
    if n == 64: return np.frombuffer(struct.pack('<Q', a), np.float64)[0]
    return np.frombuffer(a.to_bytes(16, 'little'), np.longdouble)[0]
def _st(v, n):
    import numpy as np
    if n == 32: return int.from_bytes(np.float32(v).tobytes(), 'little')
    if n == 64: return int.from_bytes(np.float64(v).tobytes(), 'little')
    return int.from_bytes(np.longdouble(v).tobytes()[:10], 'little')
class Skip(Exception): pass
def fpeval(op, a, b, n):
    import numpy as np
    with np.errstate(all='ignore'):
        x, y = _ld(a, n), _ld(b, n)
        if n == 80:
            for q in (a, b):
                if (q >> 64) & 0x7fff and not (q >> 63) & 1: raise Skip     # unsupported encodings
        if x != x or y != y: raise Skip
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
        if r != r: raise Skip
        return _st(r, n)
def ev(e):
    """concrete value of a closed z3 expression whose uninterpreted functions are floating point operations"""
    for _ in range(50):
        e = simp(e)
        if z3.is_bv_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        todo = [e]; hit = None
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 2 and all(z3.is_bv_value(c) for c in x.children()):
                hit = x; break
            todo.extend(x.children())
        if hit is None: raise Skip
        op, n = hit.decl().name().rsplit('_', 1); n = int(n)
        e = z3.substitute(e, (hit, bv(fpeval(op, hit.arg(0).as_long(), hit.arg(1).as_long(), n), n)))
    raise Skip

# ---------------------------------------------------------------- native single-step driver
DRIVER = r'''
#include <signal.h>
#include <setjmp.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <time.h>
#define OS %(os)d
#define NOSTEP __attribute__((noinline))
static unsigned char arena[256] __attribute__((aligned(64)));
static unsigned char* const obj = arena + 64;
static unsigned char snap[OS];
struct Inj { long step; unsigned char val[OS]; };
static Inj inj[8]; static int ninj;
static volatile long step, inited; static volatile int held, stepping;
static unsigned char hist[4096][OS]; static unsigned char own[4096]; static int nh;
static sigjmp_buf jb; static volatile int why;
static long maxstep = 6000;
static long nlock; static uintptr_t lasth; static int badunlock;
static void note(const unsigned char* v, int mine) { if (nh < 4096) { memcpy(hist[nh], v, OS); own[nh] = mine; ++nh; } }
static void sync_own() { if (memcmp(snap, obj, OS) != 0) { memcpy(snap, obj, OS); note(snap, 1); } }
static void inject(const unsigned char* v) { memcpy(obj, v, OS); memcpy(snap, v, OS); note(v, 0); }
static void on_trap(int, siginfo_t*, void* c) {
    if (!stepping) { ((ucontext_t*)c)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
    if (!held) sync_own();
    ++step;
    if (!held) for (int i = 0; i < ninj; ++i) if (inj[i].step == step) inject(inj[i].val);
    if (step > maxstep) { stepping = 0; why = 'L'; siglongjmp(jb, 1); }
}
static void on_bad(int s, siginfo_t*, void*) { stepping = 0; why = s == SIGABRT ? 'A' : 'C'; siglongjmp(jb, 1); }
static int dummylock;
namespace boost { namespace atomics { namespace detail { namespace lock_pool {
static void* lk(uintptr_t h) { held = 1; __asm__ __volatile__("" ::: "memory"); ++nlock; lasth = h; return &dummylock; }
void* short_lock(atomics::detail::uintptr_t h) noexcept { return lk(h); }
void* long_lock(atomics::detail::uintptr_t h) noexcept { return lk(h); }
void unlock(void* p) noexcept { if (!held || p != &dummylock) badunlock = 1; sync_own(); __asm__ __volatile__("" ::: "memory"); held = 0; }
%(lpextra)s
} } } }
#ifdef BOOST_ENABLE_ASSERT_HANDLER
#endif
%(waitdrv)s
static inline void tf_on() { __asm__ __volatile__("pushfq; orq $0x100, (%%%%rsp); popfq" ::: "memory", "cc"); }
static inline void tf_off() { __asm__ __volatile__("pushfq; andq $~0x100, (%%%%rsp); popfq" ::: "memory", "cc"); }
static int rd(unsigned char* p, int n) { return fread(p, 1, n, stdin) == (size_t)n; }
static void px(const unsigned char* p, int n) { for (int i = 0; i < n; ++i) printf("%%02x", p[i]); putchar(' '); }
%(decls)s
int main(int argc, char** argv) {
    static unsigned char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
    sa.sa_flags |= SA_ONSTACK; sa.sa_sigaction = on_bad; sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0);
    static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
    unsigned char n8[8]; unsigned char init[OS];
    while (rd(n8, 1)) {
        ninj = n8[0];
        if (!rd(init, OS)) break;
%(readargs)s
        for (int i = 0; i < ninj; ++i) { uint32_t k; if (!rd((unsigned char*)&k, 4)) return 0; inj[i].step = k; if (!rd(inj[i].val, OS)) return 0; }
        memset(arena, 0xA5, sizeof arena); memcpy(obj, init, OS); memcpy(snap, init, OS);
        step = 0; nh = 0; held = 0; nlock = 0; lasth = 0; badunlock = 0; why = 'R'; note(snap, 0);
        %(waitinit)s
        volatile unsigned ret = 0;
        if (sigsetjmp(jb, 1) == 0) {
            stepping = 1; tf_on();
            %(call)s
            stepping = 0; tf_off();
            sync_own();
        }
        int guard = 0; for (int i = 0; i < 64; ++i) if (arena[i] != 0xA5 || (i + 64 + OS < 256 && arena[64 + OS + i] != 0xA5)) guard = 1;
        printf("%%c %%u %%ld %%d %%d %%d %%ld %%lu ", why, ret & 0xff, (long)step, held, badunlock, guard, nlock, (unsigned long)(lasth - 0));
%(printargs)s
        printf("%%d ", nh);
        for (int i = 0; i < nh; ++i) { putchar(own[i] ? 'o' : 'e'); px(hist[i], OS); }
        %(waitprint)s
        putchar('\n');
    }
    return 0;
}
'''
LPEXTRA = '''
void* allocate_wait_state(void*, const volatile void*) noexcept { return &dummylock; }
void free_wait_state(void*, void*) noexcept {}
void wait(void*, void*) noexcept { stepping = 0; why = 'B'; siglongjmp(jb, 1); }
bool wait_until(void*, void*, clockid_t, timespec const&) noexcept { return true; }
bool wait_for(void*, void*, std::chrono::nanoseconds) noexcept { return true; }
void notify_one(void*, const volatile void*) noexcept {}
void notify_all(void*, const volatile void*) noexcept {}
void thread_fence() noexcept { __sync_synchronize(); }
void signal_fence() noexcept {}
'''

def compilers(cfgname):
    c = build.CONFIGS[cfgname]
    out = []
    if c.get('gxx'): out.append(('g++', c['gxx'], ''))
    else: out.append(('clang++-18', ['-std=' + c['std']] + c['flags'], c.get('pre') or ''))
    return out

def hexle(b): return int.from_bytes(bytes.fromhex(b), 'little')

class Native:
    """the natively compiled failing function"""
    def __init__(s, x, only=None):
        s.x = x; m0 = x['meta']; s.t = harness.ALLT[m0['t']]
        g = lambda t, f, op: op.name == m0['op'] or op.group == m0['op'] or (m0['op'] in ('ctor', 'ctor0') and op.group == 'ctor')
        s.text, metas = harness.gen([s.t], [m0['front']], g, defaults=True)
        s.m = next(m for m in metas if m['fn'] == x['fn'])
        s.m.update({k: v for k, v in m0.items() if k not in s.m or not callable(s.m[k])})
        s.work = tempfile.mkdtemp(prefix='irvrp.')
    def close(s): shutil.rmtree(s.work, ignore_errors=True)
    def compile(s, comp, extra=(), opt='-O2'):
        m = s.m; cxx, flags, pre = comp
        rdargs = []; pr = []; call = []; decl = []
        for p in m['params']:
            k = p[0]
            if k in ('obj', 'lobj'): call.append('obj'); continue
            if k in ('in', 'exp', 'out'):
                nm = p[1]; n = p[2]
                decl.append('static unsigned char a_%s[%d] __attribute__((aligned(64)));' % (nm, max(n, 1)))
                if k != 'out': rdargs.append('        if (!rd(a_%s, %d)) return 0;' % (nm, n))
                else: rdargs.append('        memset(a_%s, 0, %d);' % (nm, n))
                if k != 'in': pr.append('        px(a_%s, %d);' % (nm, n))
                ty = 'std::ptrdiff_t' if nm == 'd' else 'TT_%s' % s.t.name
                call.append('(%s%s*)a_%s' % ('const ' if k == 'in' else '', ty, nm))
            elif k in ('scalar', 'order'):
                nm = p[1]; ty = (p[3] if len(p) > 3 else 'unsigned int') if k == 'scalar' else 'memory_order'
                decl.append('static uint64_t a_%s;' % nm); rdargs.append('        if (!rd((unsigned char*)&a_%s, 8)) return 0;' % nm)
                call.append('(%s)a_%s' % (ty, nm))
        fn = m['fn']; rt = 'bool' if ('X bool %s(' % fn) in s.text else 'void'
        import re
        proto = re.search(r'X (bool|void) %s\(([^)]*)\)' % re.escape(fn), s.text).group(2)
        decl.append('static %s (* volatile fp)(%s) = &%s;' % (rt, proto, fn))
        callt = ('ret = fp(%s);' if rt == 'bool' else 'fp(%s);') % ', '.join(call)
        src = pre + s.text + DRIVER % dict(os=m['objsize'], lpextra=LPEXTRA, waitdrv='', waitinit='', waitprint='', decls='\n'.join(decl), readargs='\n'.join(rdargs), call=callt, printargs='\n'.join(pr))
        s.src = os.path.join(s.work, 'd.cpp'); s.exe = os.path.join(s.work, 'd')
        open(s.src, 'w').write(src)
        cmd = [cxx, opt, '-w', '-g0', '-I' + build.REPO + '/include', '-DBOOST_ATOMIC_STATIC_LINK'] + list(flags) + list(extra) + ['-o', s.exe, s.src, '-latomic']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            cmd.remove('-latomic'); r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise Exception('driver does not compile: ' + r.stdout[-1500:])
        s.cmd = ' '.join(cmd)
    def pack(s, v):
        """v: dict obj, args name -> int, inj list of (step, int)"""
        m = s.m; b = bytes([len(v['inj'])]) + v['obj'].to_bytes(m['objsize'], 'little')
        for p in m['params']:
            if p[0] in ('in', 'exp'): b += v['args'][p[1]].to_bytes(p[2], 'little')
            elif p[0] in ('scalar', 'order'): b += (v['args'][p[1]] & (2**64 - 1)).to_bytes(8, 'little')
        for k, w in v['inj']: b += struct.pack('<I', k) + w.to_bytes(m['objsize'], 'little')
        return b
    def run(s, vecs, tmo=60):
        r = subprocess.run([s.exe], input=b''.join(s.pack(v) for v in vecs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo)
        out = []
        for l in r.stdout.decode('latin1').splitlines():
            w = l.split(' ')
            o = dict(why=w[0], ret=int(w[1]), steps=int(w[2]), held=int(w[3]), badunlock=int(w[4]), guard=int(w[5]), nlock=int(w[6]), hash=int(w[7]))
            i = 8
            for p in s.m['params']:
                if p[0] in ('exp', 'out'): o[p[1]] = hexle(w[i]); i += 1
            n = int(w[i]); i += 1
            o['hist'] = [(h[0] == 'o', hexle(h[1:])) for h in w[i:i + n]]; i += n
            out.append(o)
        return out

class Oracle:
    def __init__(s, m):
        s.m = m; s.vs = m['valsize']; s.w = 8 * s.vs; s.cache = {}
        mk = m.get('mask'); s.mk = ((1 << s.w) - 1) if mk is None else mk & ((1 << s.w) - 1)
        s.isbool = m.get('isbool'); s.ow = 8 * m['objsize']
    def proj(s, x): return x & s.mk
    def objok(s, x):
        m = s.m
        if m.get('tailzero') and m['objsize'] > s.vs and x >> s.w: return False
        if s.isbool and (x & ((1 << s.w) - 1)) > 1: return False
        if m.get('padzero') and m.get('mask') is not None and not m.get('ref') and (x & ((1 << s.w) - 1)) & ~s.mk: return False
        return True
    def zargs(s, a):
        d = {}
        for p in s.m['params']:
            if p[0] in ('in', 'exp'): d[p[1]] = bv(a[p[1]], 8 * p[2])
            elif p[0] == 'scalar': d[p[1]] = bv(a[p[1]], 32)
        return d
    def F(s, old, a):
        k = (old, tuple(sorted(a.items())))
        if k not in s.cache:
            try: s.cache[k] = ev(s.m['F'](bv(old, s.w), s.zargs(a))) & s.mk
            except Skip: s.cache[k] = None
        if s.cache[k] is None: raise Skip
        return s.cache[k]
    def res(s, old, a, o):
        """is the reported result right for previous value old"""
        rk = s.m['ret']
        if rk == 'none': return True
        new = s.F(old, a)
        if rk == 'old': return s.proj(o['out']) == old
        if rk == 'new': return s.proj(o['out']) == new
        if rk == 'test': return bool(o['ret']) == (new != 0)
        if rk == 'bit': return bool(o['ret']) == bool(ev(s.m['bit'](bv(old, s.w), s.zargs(a))))
        if rk == 'desired': return s.proj(o['out']) == s.proj(a['v'])
        raise Skip
    def check(s, a, o):
        """-> None or a text saying what is wrong"""
        m = s.m
        if o['why'] == 'A': return 'the program was aborted (assertion)'
        if o['why'] == 'C': return 'the program crashed'
        if o['why'] != 'R': raise Skip
        if o['guard']: return 'bytes next to the object were modified'
        if o['held'] or o['badunlock']: return 'the internal lock was not released properly'
        if m['lockfree'] and o['nlock'] and m['kind'] not in ('wait', 'wait_timed', 'notify'): return 'a lock was taken by an operation of a type reported lock-free'
        h = o['hist']
        vals = [s.proj(v) for _, v in h]
        tr = [(vals[i - 1], vals[i], h[i][1]) for i in range(1, len(h)) if h[i][0] and vals[i] != vals[i - 1]]
        for i in range(1, len(h)):
            if h[i][0] and not s.objok(h[i][1]) and all(s.objok(v) for _, v in h[:i]): return 'the hidden bytes of the object are no longer zero after the write (%#x)' % h[i][1]
        k = m['kind']
        tt = ', '.join('%#x->%#x' % t[:2] for t in tr)
        if k == 'load':
            if tr: return 'a load changed the object: ' + tt
            if m['ret'] == 'boolval': ok = any(bool(o['ret']) == (v != 0) for v in vals); r = o['ret']
            else: r = s.proj(o['out']); ok = r in vals
            return None if ok else 'the value %#x was returned, but the object held only %s' % (r, ', '.join(map(hex, vals)))
        if k in ('rmw', 'store'):
            if len(tr) > 1: return 'the operation changed the object more than once: ' + tt
            if len(tr) == 1:
                old, new, _ = tr[0]
                if s.F(old, a) != new: return 'the object changed %s, expected %#x->%#x' % (tt, old, s.F(old, a))
                if not s.res(old, a, o): return 'the returned result does not correspond to the transition %s (result %s)' % (tt, s.rtext(o))
                return None
            ok = False
            for v in vals:
                if s.F(v, a) == v and s.res(v, a, o): ok = True
            return None if ok else 'the operation returned (result %s) without having modified the object, which held %s' % (s.rtext(o), ', '.join(map(hex, vals)))
        if k == 'cas':
            exp, des, eo = s.proj(a['exp']), s.proj(a['v']), s.proj(o['exp'])
            if len(tr) > 1: return 'compare-exchange changed the object more than once: ' + tt
            if o['ret']:
                if len(tr) == 1 and tr[0][:2] != (exp, des): return 'compare-exchange reported success, but the transition was ' + tt
                if not tr and not (exp == des and exp in vals): return 'compare-exchange reported success without storing the desired value'
                if eo != exp: return 'compare-exchange succeeded and altered its expected argument'
                return None
            if tr: return 'failed compare-exchange changed the object: ' + tt
            if eo not in vals: return 'failed compare-exchange reported %#x, but the object held only %s' % (eo, ', '.join(map(hex, vals)))
            if not m.get('weak') and all(v == exp for v in vals): return 'strong compare-exchange failed although the object held the expected value throughout'
            if not m.get('weak') and eo == exp: return 'failed strong compare-exchange reports the expected value itself'
            return None
        if k == 'ctor':
            want = s.proj(a['v']) if 'v' in a else 0
            if vals[-1] != want: return 'the constructed object holds %#x instead of %#x' % (vals[-1], want)
            if m.get('tailzero') and h[-1][1] >> s.w: return 'the constructed object has non-zero hidden bytes'
            return None
        if k == 'query':
            if bool(o['ret']) != bool(m['expect']): return 'run-time query returned %d, the compile-time answer is %d' % (o['ret'], m['expect'])
            return None
        raise Skip
    def rtext(s, o): return hex(o['out']) if 'out' in o else o['ret']

def candidates(x, f, m, orc):
    """concrete values for the object and every argument"""
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    w = orc.w; full = (1 << w) - 1
    base = [0, 1, full, 1 << (w - 1), full >> 1, 0x0123456789abcdef0fedcba987654321fedc % (1 << w), rnd.getrandbits(w), 2, 0x80, 1 << (w // 2)]
    if harness.ALLT[m['t']].kind == 'fp':
        n = 80 if m['valsize'] == 16 else 8 * m['valsize']
        base = [_st(v, n) for v in (0.0, 1.0, -2.5, 3e30, 1.1754944e-38, float('inf'), -0.0)] + [rnd.getrandbits(n - 2) | (1 << 63 if n == 80 else 0) for _ in range(2)]
    if orc.isbool: base = [0, 1]
    base = [b & full for b in base]
    if m.get('padzero') is not None and m.get('mask') is not None: base = [b & orc.mk for b in base] + ([] if m.get('padzero') and not m.get('ref') else base)
    md = []
    for e in f['events']:
        for k in ('rd', 'wr'):
            try: md.append(int(e[k], 16) & full)
            except (TypeError, ValueError): pass
    for k, v in f['model'].items():
        try:
            v = int(v, 16)
            if v.bit_length() <= w: md.append(v)
        except ValueError: pass
    if orc.isbool: md = [v for v in md if v in (0, 1)]
    def uniq(l):
        o = []
        for v in l:
            if v not in o: o.append(v)
        return o
    return uniq(md)[:6], uniq(base)

def orders_for(m, f):
    names = [p for p in m['params'] if p[0] == 'order']
    if not names: return [{}]
    if m.get('ordersets'): l = [dict(zip([p[1] for p in names], t)) for t in m['ordersets']]
    else: l = [{names[0][1]: o} for o in names[0][2]]
    def score(d): return sum(f['args'].get(k) != hex(v) for k, v in d.items()), -sum(d.values())
    l = sorted(l, key=score)
    return l[:1] + l[-1:] if len(l) > 1 else l

def single_step(x, f):
    n = Native(x)
    try:
        m = n.m; orc = Oracle(m)
        texts = []
        for comp in compilers(x['cfg']):
            n.compile(comp)
            md, base = candidates(x, f, m, orc)
            vals = (md + base)[:10]
            vecs = []
            inp = [p for p in m['params'] if p[0] in ('in', 'exp', 'scalar')]
            seen = set()
            def args_for(i, init):
                """several argument tuples"""
                ch = []
                for p in inp:
                    if p[0] == 'scalar': c = [int(f['args'].get(p[1], '0'), 16), 0, 1, m['valsize'] * 8 - 1, m['valsize'] * 4]
                    elif p[1] == 'd': c = [int(f['args'].get('d', '1'), 16), 1, 2**64 - 1, 0x123456789, 2**64 - 0x123456789]
                    else: c = ([int(f['args'][p[1]], 16)] if p[1] in f['args'] else []) + [init & ((1 << orc.w) - 1)] * (p[0] == 'exp') + vals
                    if orc.isbool: c = [v & 1 for v in c]
                    ch.append(c[:7])
                l = list(itertools.product(*ch)) if ch else [()]
                random.Random(i).shuffle(l)
                first = tuple(c[0] for c in ch)
                return [dict(zip([p[1] for p in inp], t)) for t in ([first] + l)[:10]]
            ordl = orders_for(m, f)
            if m['kind'] in ('ctor',): ordl = [{}]
            for i, v in enumerate(vals):
                for a in args_for(i, v):
                    for o in ordl:
                        d = dict(a); d.update(o)
                        vecs.append(dict(obj=v, args=d, inj=[]))
            vecs = vecs[:400]
            res = n.run(vecs)
            def judge(v, o):
                try: return orc.check({k: w for k, w in v['args'].items() if k not in ('order', 'forder')}, o)
                except Skip: return None
            def report(v, o, what):
                t = 'compiled with: %s\n' % n.cmd.replace(n.work, '.')
                t += 'single-stepped run of %s: object initially %#x, arguments %s\n' % (m['fn'], v['obj'], ', '.join('%s=%#x' % kv for kv in sorted(v['args'].items())) or 'none')
                for k, w in v['inj']: t += '  another thread stores %#x before instruction %d\n' % (w, k)
                t += '  object history: %s\n' % ', '.join(('operation' if own else 'other') + ' %#x' % q for own, q in o['hist'])
                return True, t + 'observed: ' + what + '\n'
            for v, o in zip(vecs, res):
                w = judge(v, o)
                if w: return report(v, o, w)
            if len(res) < len(vecs):
                texts.append('driver stopped early'); continue
            if m['kind'] in ('ctor', 'query'): continue
            # interference: one and two stores by another thread
            pick = []
            for v, o in list(zip(vecs, res)):
                if o['why'] == 'R' and o['steps'] < 400 and len(pick) < 14: pick.append((v, o['steps']))
            random.Random(1).shuffle(pick)
            rnd = random.Random(2)
            for v, ns in pick[:10]:
                inv = []
                iv = [q for q in vals if q != v['obj']][:4]
                for p in inp:
                    if p[0] == 'exp': iv.append(v['args']['exp'] & ((1 << orc.w) - 1))
                iv.append(v['obj'] ^ (1 if not orc.isbool else 1))
                if m['objsize'] == 16 or not m['lockfree']: iv.append(v['obj'] ^ (1 << (orc.w - 1)) if not orc.isbool else 1)
                if harness.ALLT[m['t']].kind == 'fp': iv = [q for q in iv if q in vals]
                for k in range(1, ns + 1):
                    for q in iv: inv.append(dict(v, inj=[(k, q)]))
                pairs = [(a, b) for a in range(1, ns + 20) for b in range(a + 1, ns + 20)]
                rnd.shuffle(pairs)
                for a, b in pairs[:2500]:
                    q = rnd.choice(iv); q2 = rnd.choice(iv + [v['obj']])
                    inv.append(dict(v, inj=[(a, q), (b, q2)]))
                rs = n.run(inv, tmo=100)
                for vv, o in zip(inv, rs):
                    w = judge(vv, o)
                    if w: return report(vv, o, w)
            texts.append('single-stepped with %s: no deviating run found (%d inputs)' % (comp[0], len(vecs)))
        return False, '\n'.join(texts) + '\n'
    finally: n.close()

def replay(x, f):
    if 'meta' not in x: return False, 'no native replay for this obligation'
    if x['meta'].get('mkind') == 'search':
        from . import replay3
        return replay3.search(x, f)
    if x['meta'].get('mkind') == 'lockpool':
        from . import replay4
        return replay4.conc(x, f)
    k = x['meta']['kind']; txt = ''
    if k == 'caps':
        from . import caps
        return caps.replay(x, f)
    if k in ('rmw', 'store', 'load', 'cas', 'ctor', 'query') and f['name'] not in ('order',):
        ok, t = single_step(x, f)
        if ok: return ok, t
        txt += t
    from . import replay2
    ok, t = replay2.more(x, f)
    if not ok and k in ('wait', 'wait_timed', 'notify'):
        from . import replay4
        txt += t; ok, t = replay4.conc(x, f)
    return ok, txt + t
