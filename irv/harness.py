"""Generates the instantiation units (one extern "C" function per public
operation) and the contract meta data for each function."""
import z3
from .sym import *
from .sym import bv, extract, bv2b
from . import api

class T:
    def __init__(s, name, cxx, size, kind, signed=False, mask=None, decl='', pads=False, elem=None, vs=None, scalarlike=True):
        s.name = name; s.cxx = cxx; s.size = size; s.kind = kind; s.signed = signed; s.mask = mask; s.decl = decl
        s.pads = pads; s.elem = elem; s.vs = vs or size
def struct(n, align='char'):
    return T('S%d' % n, 'S%d' % n, n, 'struct', decl='struct S%d { unsigned char c[%d]; };' % (n, n))

INTS = [T('i8', 'signed char', 1, 'int', True), T('u8', 'unsigned char', 1, 'int'), T('i16', 'short', 2, 'int', True), T('u16', 'unsigned short', 2, 'int'),
        T('i32', 'int', 4, 'int', True), T('u32', 'unsigned int', 4, 'int'), T('i64', 'long', 8, 'int', True), T('u64', 'unsigned long', 8, 'int'),
        T('i128', '__int128', 16, 'int', True), T('u128', 'unsigned __int128', 16, 'int')]
CHR = [T('c8', 'char', 1, 'int', True), T('ll', 'long long', 8, 'int', True), T('c16', 'char16_t', 2, 'int'), T('c32', 'char32_t', 4, 'int'), T('wc', 'wchar_t', 4, 'int', True)]
ENUMS = [T('e8', 'E8', 1, 'enum', decl='enum E8 : unsigned char { e8a };'), T('e16', 'E16', 2, 'enum', True, decl='enum class E16 : short { a };'), T('e32', 'E32', 4, 'enum', decl='enum class E32 : unsigned int { a };'),
         T('e64', 'E64', 8, 'enum', decl='enum class E64 : unsigned long { a };')]
BOOL = [T('b', 'bool', 1, 'bool')]
PTRS = [T('pi', 'int*', 8, 'ptr', elem=4), T('pc', 'char*', 8, 'ptr', elem=1), T('ps', 'SE24*', 8, 'ptr', elem=24, decl='struct SE24 { long x[3]; };'), T('pp', 'void**', 8, 'ptr', elem=8), T('pk', 'const S7P*', 8, 'ptr', elem=7, decl='struct S7P { char x[7]; };')]
VPTR = [T('pv', 'void*', 8, 'vptr'), T('pf', 'FPTR', 8, 'vptr', decl='typedef void (*FPTR)(int);')]
FPS = [T('f32', 'float', 4, 'fp'), T('f64', 'double', 8, 'fp'), T('f80', 'long double', 16, 'fp', mask=(1 << 80) - 1, pads=True)]
STRUCTS = [struct(n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 32, 40, 64, 72)] + \
          [T('SI100', 'SI100', 100, 'struct', decl='struct SI100 { int a[25]; };'), T('SL136', 'SL136', 136, 'struct', decl='struct SL136 { long a[17]; };')] + \
          [T('SL24', 'SL24', 24, 'struct', decl='struct SL24 { long a[3]; };'), T('SI12', 'SI12', 12, 'struct', decl='struct SI12 { int a[3]; };'), T('SL16', 'SL16', 16, 'struct', decl='struct SL16 { long a, b; };'),
           T('SL8', 'SL8', 8, 'struct', decl='struct SL8 { int a, b; };')]
PADS = [T('PA8', 'PA8', 8, 'struct', mask=0xffffffff000000ff, pads=True, decl='struct PA8 { char a; int b; };'),
        T('PA4', 'PA4', 4, 'struct', mask=0xffff00ff, pads=True, decl='struct PA4 { char a; short b; };'),
        T('PB16', 'PB16', 16, 'struct', mask=(0xffff << 64) | (2**64 - 1), pads=True, decl='struct PB16 { long a; short b; };'),
        T('PC24', 'PC24', 24, 'struct', mask=((2**64 - 1) << 128) | (0xff << 64) | (2**64 - 1), pads=True, decl='struct PC24 { long a; char b; long c; };'),
        T('PD6', 'PD6', 6, 'struct', mask=0xffff00ffffff, pads=True, decl='struct PD6 { short a; char b; short c; };')]
FLAG = T('flag', 'unsigned int', 4, 'flag')
ALLT = {t.name: t for t in INTS + CHR + ENUMS + BOOL + PTRS + VPTR + FPS + STRUCTS + PADS + [FLAG]}

FRONTS = {'a': ('atomic', False, False), 'r': ('atomic_ref', True, False), 'ia': ('ipc_atomic', False, True), 'ir': ('ipc_atomic_ref', True, True)}

def W(t): return 8 * t.vs

class Op:
    """one public operation: C++ call text with {O} for the order argument list tail"""
    def __init__(s, name, call, kind, ret, F=None, params=(), orders=api.ALLO, kinds=None, group=None, **x):
        s.name = name; s.call = call; s.kind = kind; s.ret = ret; s.F = F; s.params = params; s.orders = orders
        s.kinds = kinds; s.group = group; s.x = x

def ops_for(t):
    """list of Op for a type"""
    out = []
    w = W(t)
    if t.kind == 'flag':
        nz = lambda o, a: o != 0
        return [Op('test_and_set', 'x.test_and_set({o})', 'rmw', 'bit', lambda o, a: bv(1, 32), [], group='flag', bit=nz),
                Op('clear', 'x.clear({o})', 'store', 'none', lambda o, a: bv(0, 32), [], api.STOREO, group='flag', storekind=True),
                Op('test', 'x.test({o})', 'load', 'boolval', None, [], api.LOADO, group='flag')]
    V = ('in', 'v', t.size, 'T')
    g = 'basic'
    out.append(Op('store', 'x.store(*v{O})', 'store', 'none', lambda o, a: extract(a['v'], 0, w), [V], api.STOREO, group=g, storekind=True))
    out.append(Op('load', 'x.load({o})', 'load', 'value', None, [], api.LOADO, group=g))
    out.append(Op('exchange', 'x.exchange(*v{O})', 'rmw', 'old', lambda o, a: extract(a['v'], 0, w), [V], group=g))
    out.append(Op('conv', 'static_cast<TT>(x)', 'load', 'value', None, [], None, group=g))
    out.append(Op('assign', '(x = *v)', 'store', 'desired', lambda o, a: extract(a['v'], 0, w), [V], None, group=g, storekind=True))
    for st in ('strong', 'weak'):
        out.append(Op('cas_%s' % st, 'x.compare_exchange_%s(*e, *v{O})' % st, 'cas', 'bool', None, [('exp', 'exp', t.size), V], group='cas', weak=st == 'weak'))
        out.append(Op('cas2_%s' % st, 'x.compare_exchange_%s(*e, *v, order, forder)' % st, 'cas', 'bool', None, [('exp', 'exp', t.size), V], orders='pair', group='cas', weak=st == 'weak'))
    isint = t.kind == 'int'
    if t.kind in ('int', 'enum'):
        one = bv(1, w)
        bf = {'and': lambda o, v: o & v, 'or': lambda o, v: o | v, 'xor': lambda o, v: o ^ v}
        for n, f in bf.items():
            F = (lambda f: lambda o, a: f(o, a['v']))(f)
            out.append(Op('fetch_' + n, 'x.fetch_%s(*v{O})' % n, 'rmw', 'old', F, [V], group='bitwise'))
            out.append(Op('bitwise_' + n, 'x.bitwise_%s(*v{O})' % n, 'rmw', 'new', F, [V], group='bitwise'))
            out.append(Op('opaque_' + n, 'x.opaque_%s(*v{O})' % n, 'rmw', 'none', F, [V], group='bitwise'))
            out.append(Op(n + '_and_test', 'x.%s_and_test(*v{O})' % n, 'rmw', 'test', F, [V], group='bitwise'))
            sy = {'and': '&=', 'or': '|=', 'xor': '^='}[n]
            out.append(Op('op_' + n, '(x %s *v)' % sy, 'rmw', 'new', F, [V], None, group='bitwise'))
        F = lambda o, a: ~o
        for n, r in (('fetch_complement', 'old'), ('bitwise_complement', 'new'), ('opaque_complement', 'none'), ('complement_and_test', 'test')):
            out.append(Op(n, 'x.%s({o})' % n, 'rmw', r, F, [], group='bitwise'))
        B = ('scalar', 'bit', (lambda v: z3.ULT(v, bv(8 * t.size, 32))))
        def pos(a): return one << (z3.ZeroExt(w - 32, a['bit']) if w > 32 else extract(a['bit'], 0, w))
        for n, f in (('set', lambda o, m: o | m), ('reset', lambda o, m: o & ~m), ('complement', lambda o, m: o ^ m)):
            F = (lambda f: lambda o, a: f(o, pos(a)))(f)
            out.append(Op('bit_test_and_' + n, 'x.bit_test_and_%s(bit{O})' % n, 'rmw', 'bit', F, [B], group='bit', bit=lambda o, a: (o & pos(a)) != 0))
    if isint:
        for n, f in (('add', lambda o, v: o + v), ('sub', lambda o, v: o - v)):
            F = (lambda f: lambda o, a: f(o, a['v']))(f)
            for nm, r in (('fetch_' + n, 'old'), (n, 'new'), ('opaque_' + n, 'none'), (n + '_and_test', 'test')):
                out.append(Op(nm, 'x.%s(*v{O})' % nm, 'rmw', r, F, [V], group='arith'))
            out.append(Op('op_' + n, '(x %s *v)' % {'add': '+=', 'sub': '-='}[n], 'rmw', 'new', F, [V], None, group='arith'))
        F = lambda o, a: -o
        for nm, r in (('fetch_negate', 'old'), ('negate', 'new'), ('opaque_negate', 'none'), ('negate_and_test', 'test')):
            out.append(Op(nm, 'x.%s({o})' % nm, 'rmw', r, F, [], group='arith'))
        inc = lambda o, a: o + bv(1, w); dec = lambda o, a: o - bv(1, w)
        out += [Op('preinc', '(++x)', 'rmw', 'new', inc, [], None, group='arith'), Op('postinc', '(x++)', 'rmw', 'old', inc, [], None, group='arith'),
                Op('predec', '(--x)', 'rmw', 'new', dec, [], None, group='arith'), Op('postdec', '(x--)', 'rmw', 'old', dec, [], None, group='arith')]
        # literal operands select special encodings (inc/dec)
        for c in (1, -1):
            k = bv(c, w)
            for n, f in (('add', lambda o, v: o + v), ('sub', lambda o, v: o - v)):
                F = (lambda f, k: lambda o, a: f(o, k))(f, k)
                for nm, r in (('opaque_' + n, 'none'), (n + '_and_test', 'test')):
                    out.append(Op('%s_%s' % (nm, 'p1' if c > 0 else 'm1'), 'x.%s((TT)(%d){O})' % (nm, c), 'rmw', r, F, [], group='arith', lit=True))
    if t.kind == 'ptr':
        D = ('scalarp', 'd', 8)
        D = ('in', 'd', 8)
        for n, sg in (('add', 1), ('sub', -1)):
            F = (lambda sg: lambda o, a: o + a['d'] * bv(sg * t.elem, 64))(sg)
            for nm, r in (('fetch_' + n, 'old'), (n, 'new'), ('opaque_' + n, 'none'), (n + '_and_test', 'test')):
                out.append(Op(nm, 'x.%s(*d{O})' % nm, 'rmw', r, F, [D], group='ptr'))
            out.append(Op('op_' + n, '(x %s *d)' % {1: '+=', -1: '-='}[sg], 'rmw', 'new', F, [D], None, group='ptr'))
        inc = lambda o, a: o + bv(t.elem, 64); dec = lambda o, a: o - bv(t.elem, 64)
        out += [Op('preinc', '(++x)', 'rmw', 'new', inc, [], None, group='ptr'), Op('postinc', '(x++)', 'rmw', 'old', inc, [], None, group='ptr'),
                Op('predec', '(--x)', 'rmw', 'new', dec, [], None, group='ptr'), Op('postdec', '(x--)', 'rmw', 'old', dec, [], None, group='ptr')]
    if t.kind == 'fp':
        w2 = 80 if t.size == 16 else 8 * t.size
        def fx(f):
            def g(o, a):
                r = f(extract(o, 0, w2), extract(a['v'], 0, w2) if 'v' in a else None)
                return z3.ZeroExt(o.size() - w2, r) if o.size() > w2 else r
            return g
        for n, op in (('add', 'fadd'), ('sub', 'fsub')):
            F = fx((lambda op: lambda o, v: fpop(op, o, v))(op))
            for nm, r in (('fetch_' + n, 'old'), (n, 'new'), ('opaque_' + n, 'none')):
                out.append(Op(nm, 'x.%s(*v{O})' % nm, 'rmw', r, F, [V], group='fp'))
            out.append(Op('op_' + n, '(x %s *v)' % {'add': '+=', 'sub': '-='}[n], 'rmw', 'new', F, [V], None, group='fp'))
        F = fx(lambda o, v: o ^ bv(1 << (w2 - 1), w2))
        for nm, r in (('fetch_negate', 'old'), ('negate', 'new'), ('opaque_negate', 'none')):
            out.append(Op(nm, 'x.%s({o})' % nm, 'rmw', r, F, [], group='fp'))
    return out

# timed waits: name -> (form, C++ type, rep type, nanoseconds per tick, clock)
TIMED = {
    'ns': ('for', 'std::chrono::nanoseconds', 'long', 1, 'steady'), 'us': ('for', 'std::chrono::microseconds', 'long', 10**3, 'steady'),
    'ms': ('for', 'std::chrono::milliseconds', 'long', 10**6, 'steady'), 's': ('for', 'std::chrono::seconds', 'long', 10**9, 'steady'),
    'min': ('for', 'std::chrono::duration< long, std::ratio< 60 > >', 'long', 60 * 10**9, 'steady'), 'h': ('for', 'std::chrono::duration< long, std::ratio< 3600 > >', 'long', 3600 * 10**9, 'steady'),
    'i32ms': ('for', 'std::chrono::duration< int, std::milli >', 'int', 10**6, 'steady'), 'u64s': ('for', 'std::chrono::duration< unsigned long >', 'unsigned long', 10**9, 'steady'),
    'u32us': ('for', 'std::chrono::duration< unsigned int, std::micro >', 'unsigned int', 10**3, 'steady'), 'i16h': ('for', 'std::chrono::duration< short, std::ratio< 3600 > >', 'short', 3600 * 10**9, 'steady'),
    't100': ('for', 'std::chrono::duration< long, std::ratio< 1, 10000000 > >', 'long', 100, 'steady'),
    'st': ('until', 'std::chrono::steady_clock::time_point', 'long', 1, 'steady'), 'st_s': ('until', 'std::chrono::time_point< std::chrono::steady_clock, std::chrono::seconds >', 'long', 10**9, 'steady'),
    'sy': ('until', 'std::chrono::system_clock::time_point', 'long', 1, 'system'), 'sy_ms': ('until', 'std::chrono::time_point< std::chrono::system_clock, std::chrono::milliseconds >', 'long', 10**6, 'system'),
    'sy_h': ('until', 'std::chrono::time_point< std::chrono::system_clock, std::chrono::duration< int, std::ratio< 3600 > > >', 'int', 3600 * 10**9, 'system'),
    'sy_u': ('until', 'std::chrono::time_point< std::chrono::system_clock, std::chrono::duration< unsigned long > >', 'unsigned long', 10**9, 'system'),
    'c1': ('until', 'IrvC1::time_point', 'long', 1, 'c1'), 'c2': ('until', 'IrvC2::time_point', 'long', 10**3, 'c2'), 'c2_s': ('until', 'std::chrono::time_point< IrvC2, std::chrono::seconds >', 'long', 10**9, 'c2'),
    'cm': ('until', 'IrvCM::time_point', 'long', 1, 'cm'), 'cr': ('until', 'IrvCR::time_point', 'long', 1, 'cr'), 'cb': ('until', 'IrvCB::time_point', 'long', 1, 'cb'),
}
CLKPRE0 = '#include <sys/types.h>\n#include <chrono>\n#include <ctime>\n'
CLKPRE = '''
#include <chrono>
#include <ctime>
extern "C" long irv_now_c1() noexcept; extern "C" long irv_now_c2() noexcept; extern "C" long irv_now_cm() noexcept; extern "C" long irv_now_cr() noexcept; extern "C" long irv_now_cb() noexcept;
extern "C" timespec irv_ts(long) noexcept;
#define IRV_CLK(N, P, F) struct N { typedef std::chrono::duration< long, P > duration; typedef long rep; typedef P period; typedef std::chrono::time_point< N > time_point; static constexpr bool is_steady = false; static time_point now() noexcept { return time_point(duration(F())); } };
IRV_CLK(IrvC1, std::nano, irv_now_c1) IRV_CLK(IrvC2, std::micro, irv_now_c2) IRV_CLK(IrvCM, std::nano, irv_now_cm) IRV_CLK(IrvCR, std::nano, irv_now_cr) IRV_CLK(IrvCB, std::nano, irv_now_cb)
#define IRV_TR(N, ID) namespace boost { namespace atomics { template< > struct posix_clock_traits< N > { static constexpr clockid_t clock_id = ID; static timespec to_timespec(N::time_point tp) noexcept { return irv_ts(tp.time_since_epoch().count()); } }; } }
IRV_TR(IrvCM, CLOCK_MONOTONIC) IRV_TR(IrvCR, CLOCK_REALTIME) IRV_TR(IrvCB, CLOCK_BOOTTIME)
'''
def wait_ops(t):
    old = ('in', 'v', t.size, 'T')
    ov = '*v' if t.kind != 'flag' else '(*v != 0)'
    out = [Op('wait', 'x.wait(%s{O})' % ov, 'wait', 'value', None, [old], api.LOADO, group='wait'),
           Op('notify_one', 'x.notify_one()', 'notify', 'none', None, [], None, group='wait', all=False), Op('notify_all', 'x.notify_all()', 'notify', 'none', None, [], None, group='wait', all=True)]
    for n, (form, cxx, rep, scale, clk) in TIMED.items():
        bits = {'long': 64, 'unsigned long': 64, 'int': 32, 'unsigned int': 32, 'short': 16}[rep]
        arg = '%s(d)' % cxx if form == 'for' else '%s(typename %s::duration(d))' % (cxx, cxx)
        arg = arg.replace('typename ', '')
        out.append(Op('wait_%s_%s' % (form, n), 'x.wait_%s(%s, %s{O})' % (form, ov, arg), 'wait_timed', 'timed', None, [old, ('scalar', 'd', None, rep)], api.LOADO, group='wait' if False else 'timed',
                      form=form, scale=scale, clock=clk, repbits=bits, repsigned='unsigned' not in rep))
    return out

def fpop(op, a, b):
    from .sym import fp2
    return fp2(op, a, b)

CASPAIRS = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (4, 0), (6, 0), (6, 1), (6, 2), (14, 0), (14, 1), (14, 2), (14, 14)]

PRE = '''
#include <boost/atomic.hpp>
#include <boost/memory_order.hpp>
#include <new>
#include <cstddef>
using boost::memory_order;
#define X extern "C"
'''

def front_ok(t, f):
    return True

def cp_spec(t):
    n = t.size; b = [i for i in range(n) if not (t.mask >> (8 * i)) & 0xff]
    return 'template<> struct irv_cp< %s > { static inline __attribute__((always_inline)) void f(%s* p) { unsigned char* q = (unsigned char*)p; %s } };' % (t.cxx, t.cxx, ' '.join('q[%d] = 0;' % i for i in b))

def gen(types, fronts, sel, defaults=True, clear_padding=False):
    """-> (C++ text, list of meta).  sel(t, f, op) selects; each order-taking operation also gets a default-order variant"""
    txt = []; metas = []; decls = []
    for t in types:
        if t.decl and t.decl not in decls: decls.append(t.decl)
    for t in types:
        txt.append('X const unsigned long VS_%s = sizeof(%s);' % (t.name, t.cxx))
        for f in fronts:
            fr, ref, ipc = FRONTS[f]
            cls = 'boost::%s< %s >' % (fr, t.cxx)
            if t.kind == 'flag': cls = 'boost::ipc_atomic_flag' if ipc else 'boost::atomic_flag'
            body = []
            pn = '%s_%s' % (f, t.name)
            txt.append('X const bool LF_%s = %s::is_always_lock_free;' % (pn, cls))
            if ref: txt.append('X const unsigned long SZ_%s = sizeof(%s); X const unsigned long AL_%s = %s::required_alignment;' % (pn, t.cxx, pn, cls))
            else: txt.append('X const unsigned long SZ_%s = sizeof(%s); X const unsigned long AL_%s = alignof(%s);' % (pn, cls, pn, cls))
            txt.append('X const bool NW_%s = %s::always_has_native_wait_notify;' % (pn, cls))
            for op in ops_for(t) + wait_ops(t):
                if not sel(t, f, op): continue
                variants = []
                if op.orders is None: variants = ['']
                else:
                    variants = ['o']
                    if defaults and op.orders != 'pair': variants.append('d')
                for var in variants:
                    name = 'h_%s_%s%s' % (pn, op.name, '_d' if var == 'd' else '')
                    ps = [('obj',)]; cps = ['void* obj']
                    for p in op.params:
                        ps.append(p)
                        if p[0] == 'in': cps.append('const %s* %s' % ('std::ptrdiff_t' if p[1] == 'd' else t.cxx2 if hasattr(t, 'cxx2') else 'TT_%s' % t.name, p[1]))
                        elif p[0] == 'exp': cps.append('TT_%s* e' % t.name)
                        elif p[0] == 'scalar': cps.append('%s %s' % (p[3] if len(p) > 3 else 'unsigned int', p[1]))
                    hasout = op.ret in ('old', 'new', 'value', 'desired', 'timed')
                    if hasout: ps.append(('out', 'out', t.size)); cps.append('TT_%s* out' % t.name)
                    if var == 'o':
                        if op.orders == 'pair':
                            ps += [('order', 'order', api.ALLO), ('order', 'forder', api.LOADO)]; cps += ['memory_order order', 'memory_order forder']
                        else:
                            ps.append(('order', 'order', op.orders)); cps.append('memory_order order')
                    call = op.call.replace('{O}', ', order' if var == 'o' else '').replace('{o}', 'order' if var == 'o' else '').replace('TT', 'TT_%s' % t.name)
                    if ref: acc = '%s x(*static_cast< TT_%s* >(obj));' % (cls, t.name)
                    else: acc = '%s& x = *static_cast< %s* >(obj);' % (cls, cls)
                    if op.ret == 'timed': stm = 'auto r = %s; *out = r.value; return r.timeout;' % call; rt = 'bool'
                    elif hasout: stm = '*out = %s;' % call; rt = 'void'
                    elif op.ret in ('bool', 'test', 'bit', 'boolval'): stm = 'return %s;' % call; rt = 'bool'
                    else: stm = '%s;' % call; rt = 'void'
                    txt.append('X %s %s(%s) { %s %s }' % (rt, name, ', '.join(cps), acc, stm))
                    m = dict(fn=name, t=t.name, front=f, op=op.name, group=op.group, kind=op.kind, ret=op.ret, F=op.F, params=ps, ref=ref, ipc=ipc, var=var, order_default=14, pn=pn)
                    m.update(op.x)
                    if op.orders == 'pair' and var == 'o': m['ordersets'] = CASPAIRS
                    metas.append(m)
            if not ref and sel(t, f, CTOR):
                name = 'h_%s_ctor' % pn
                if t.kind != 'flag': txt.append('X void %s(void* obj, const TT_%s* v) { new (obj) %s(*v); }' % (name, t.name, cls))
                if t.kind != 'flag': metas.append(dict(fn=name, t=t.name, front=f, op='ctor', group='ctor', kind='ctor', ret='none', F=None, params=[('lobj',), ('in', 'v', t.size, 'T')], ref=ref, ipc=ipc, var='', pn=pn))
                name = 'h_%s_ctor0' % pn
                txt.append('X void %s(void* obj) { new (obj) %s(); }' % (name, cls))
                metas.append(dict(fn=name, t=t.name, front=f, op='ctor0', group='ctor', kind='ctor', ret='none', F=None, params=[('lobj',)], ref=ref, ipc=ipc, var='', pn=pn))
            if sel(t, f, QUERY):
                for q, c in (('is_lock_free', 'is_always_lock_free'), ('has_native_wait_notify', 'always_has_native_wait_notify')):
                    name = 'h_%s_%s' % (pn, q)
                    txt.append('X bool %s(void* obj) { %s return x.%s(); }' % (name, acc_of(ref, cls, t), q))
                    txt.append('X const bool Q_%s = %s::%s;' % (name, cls, c))
                    metas.append(dict(fn=name, t=t.name, front=f, op=q, group='query', kind='query', ret='bool', F=None, params=[('obj',)], ref=ref, ipc=ipc, var='', pn=pn))
    if sel(None, 'a', FENCE):
        for nm in ('atomic_thread_fence', 'atomic_signal_fence'):
            name = 'h_' + nm
            txt.append('X void %s(memory_order order) { boost::%s(order); }' % (name, nm))
            metas.append(dict(fn=name, t=None, front='a', op=nm, group='fence', kind='fence', ret='none', F=None, params=[('order', 'order', api.ALLO)], ref=False, ipc=False, var='o', pn='', signal='signal' in nm))
    if clear_padding: decls += [cp_spec(t) for t in types if t.pads]
    head = (CLKPRE0 if any(m['group'] == 'timed' for m in metas) else '') + PRE + (CLKPRE if any(m['group'] == 'timed' for m in metas) else '') + '\n'.join(decls) + '\n' + '\n'.join('typedef %s TT_%s;' % (t.cxx, t.name) for t in types) + '\n'
    return head + '\n'.join(txt) + '\n', metas

def acc_of(ref, cls, t):
    return '%s x(*static_cast< TT_%s* >(obj));' % (cls, t.name) if ref else '%s& x = *static_cast< %s* >(obj);' % (cls, cls)
CTOR = Op('ctor', '', 'ctor', 'none', group='ctor')
FENCE = Op('fence', '', 'fence', 'none', group='fence')
QUERY = Op('query', '', 'query', 'bool', group='query')

def const_global(mod, name):
    g = mod.globals.get(name)
    if g is None: return None
    v = g['init']
    if v.k == 'zero': return 0
    return v.v

def complete(meta, mod, cfg):
    """fill in what the compiled module says about the type"""
    m = dict(meta)
    if m['kind'] == 'fence':
        m.update(lockfree=True, objsize=8, valsize=8, align=8, mask=None, padzero=False, padstore=False, tailzero=False, isbool=False); return m
    t = ALLT[meta['t']]; pn = meta['pn']
    m['lockfree'] = bool(const_global(mod, 'LF_' + pn)); m['objsize'] = const_global(mod, 'SZ_' + pn); m['align'] = const_global(mod, 'AL_' + pn)
    if const_global(mod, 'VS_' + t.name) != t.size: raise Exception('type size')
    m['valsize'] = t.size; m['native'] = bool(const_global(mod, 'NW_' + pn))
    m['waits'] = m['kind'] in ('wait', 'wait_timed', 'notify')
    m['flag'] = t.kind == 'flag'
    m['isbool'] = t.kind in ('bool', 'flag')
    cp = cfg.get('clear_padding', False)
    if t.name == 'f80': m['mask'] = t.mask; m['padzero'] = True; m['padstore'] = m['ref']
    elif t.pads:
        m['mask'] = t.mask if cp else None; m['padzero'] = cp; m['padstore'] = cp and m['ref']
    else: m['mask'] = None
    m['tailzero'] = not m['ref']
    if m['kind'] == 'query': m['expect'] = const_global(mod, 'Q_' + m['fn'])
    return m
