"""What each property's check verifies: which functions, under which contracts, in which configurations."""
import sys, os, json
from . import engine, ops, build
from .ops import mk
T = engine.TIER

INT8 = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
INT16 = ['i128', 'u128']
CHR = ['c8', 'll', 'c16', 'c32', 'wc']
ENUM = ['e8', 'e16', 'e32', 'e64']
PTR = ['pi', 'pc', 'ps', 'pp', 'pk']
FP = ['f32', 'f64', 'f80']
SMALLS = ['S1', 'S2', 'S3', 'S4', 'S5', 'S6', 'S7', 'S8', 'SL8']
BIGS = ['S9', 'S12', 'S15', 'S16', 'S17', 'S24', 'S32', 'S40', 'SL24', 'SI12', 'SL16', 'S64', 'S72', 'SI100', 'SL136']
PADS = ['PA8', 'PA4', 'PB16', 'PC24', 'PD6']
ALLCFG = ['clang17', 'clang11', 'clang20', 'base17', 'cx16', 'fallback', 'gcc20', 'gcc11', 'gcccx', 'gccfb', 'gccasm']

def th(q, t): return t if T == 'thorough' else q

SAFE = {'value', 'result', 'expected', 'atomicity'}

def c01():
    sel = dict(groups=['arith', 'bitwise'])
    out = mk('gcc20', INT8 + INT16, 'a', sel)
    out += mk('gcc20', ENUM, 'a', dict(groups=['bitwise']))
    out += mk('clang17', th(INT8 + INT16, INT8 + INT16 + ENUM + CHR), 'ar', sel, defaults=False)
    out += mk('gcccx', ['u8', 'i16', 'u32', 'i64', 'u128'], 'r', sel, defaults=False)
    out += mk('fallback', th(['i8', 'u32', 'i64', 'i128'], INT8 + INT16 + ENUM), th('a', 'ar'), sel, defaults=False)
    out += mk('gccasm', th(['i8', 'u16', 'i32', 'u64', 'u128'], INT8 + INT16), 'a', sel, defaults=False)
    if T == 'thorough':
        for c in ('clang11', 'clang20', 'base17', 'cx16', 'gcc11', 'gcccx', 'gccfb', 'gccasm'): out += mk(c, INT8 + INT16 + ENUM + CHR, 'ar', sel)
    return out, {'value', 'result', 'vacuous'}


BASIC = dict(groups=['basic']); CAS = dict(groups=['cas'])
def full(cfgs, types, fronts, sel, **kw):
    out = []
    for c in cfgs: out += mk(c, types, fronts, sel, **kw)
    return out

# a cross section of every kind of type and storage size
MIX = ['i8', 'u16', 'i32', 'u64', 'i128', 'e16', 'b', 'pi', 'pv', 'f32', 'f64', 'f80', 'S3', 'S8', 'S12', 'S16', 'S24']
ALLT = INT8 + INT16 + CHR + ENUM + ['b'] + PTR + ['pv', 'pf'] + FP + SMALLS + BIGS + PADS
ANY = dict()

def c02():
    out = untimed()[:6] + full(['gcc20', 'clang17', 'fallback'], MIX, 'a', ANY, defaults=False)
    out += full(['gcccx'], ['u8', 'i16', 'u32', 'i64', 'u128', 'PA8', 'S5', 'S15'], 'r', ANY, defaults=False)
    out += full(['gccasm'], ['i8', 'u16', 'i32', 'u64', 'i128', 'f64'], 'a', ANY, defaults=False)
    out += full(['base17'], ['i128', 'S16', 'S9', 'f80'], 'ar', ANY, defaults=False)
    out += full(['gcc20'], [x for x in MIX if x not in ('i128', 'S24')] + ['S72', 'SI100'], 'r', ANY, defaults=False) + full(['clang17'], ['S72', 'SI100', 'SL136'], 'a', ANY, defaults=False)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', ANY)
    return out, {'atomicity', 'value', 'result', 'expected', 'frame', 'memory-safety', 'asm-constraints', 'lock'}
def c03():
    out = untimed() + timed_all() + full(['gcc20', 'clang17', 'gccasm'], ['i8', 'u16', 'i32', 'u64', 'i128'], 'a', ANY)
    out += full(['gcc20', 'clang17'], ['e16', 'b', 'pi', 'f32', 'f64', 'f80', 'S3', 'S8', 'S16', 'S24'], 'a', dict(groups=['basic', 'cas', 'ptr', 'fp']))
    out += full(['gcccx'], ['u8', 'i16', 'i32', 'u64', 'u128', 'S7', 'f32', 'pi'], 'r', ANY)
    out += full(['gcc20', 'clang17'], ['e16', 'b', 'pv', 'f64', 'f80', 'S3', 'S8', 'S16', 'S24'], 'r', dict(groups=['basic', 'cas', 'ptr', 'fp']))
    out += full(['fallback'], ['u8', 'i64'], 'a', ANY)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', ANY)
    return out, {'order', 'asm-constraints'}
def c04():
    ty = ['i8', 'u16', 'i32', 'u64', 'i128', 'e16', 'b', 'pi', 'f32', 'f64', 'f80', 'S1', 'S3', 'S5', 'S8', 'S12', 'S16', 'S24'] + PADS
    out = full(['gcc20', 'clang17', 'gcccx', 'gccfb'], ty, 'ar', CAS)
    out += full(['gccasm', 'cx16', 'base17'], ['i8', 'u16', 'i32', 'u64', 'i128', 'S15', 'f80'], 'ar', CAS)
    out += full(['gcc20', 'clang17'], [x for x in ALLT if x not in ty], 'ar', CAS)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', CAS)
    return out, {'value', 'expected', 'readonly', 'atomicity', 'asm-constraints'}
WAIT = dict(groups=['wait'])
WMIX = ['i8', 'u16', 'i32', 'u64', 'i128', 'e32', 'b', 'pi', 'f32', 'f64', 'f80', 'S3', 'S4', 'S8', 'S24', 'flag']
WIPC = ['i8', 'u16', 'i32', 'u64', 'i128', 'e32', 'b', 'pi', 'f32', 'S4', 'S8']
def untimed():
    nf = [x for x in WMIX if x != 'flag']
    out = full(['gcc20', 'clang17'], nf, 'ar', WAIT, chunk=4)
    out += full(['fallback', 'base17', 'clang11'], nf, 'a', WAIT, chunk=4) + full(['gcc20', 'clang17', 'fallback'], ['flag'], 'a', WAIT)
    out += full(['gcc20', 'clang17'], WIPC, ['ia', 'ir'], WAIT, chunk=4) + full(['gcc20', 'clang11'], ['flag'], ['ia'], WAIT)
    if T == 'thorough': out += full(ALLCFG, nf, 'ar', WAIT) + full(['clang11', 'clang20', 'cx16', 'gcc11', 'gcccx', 'gccasm'], WIPC, ['ia', 'ir'], WAIT)
    return out
def timed(cfg, t, fr, names, cost=8, **kw):
    from . import harness
    out = []
    for n in names:
        op = 'wait_%s_%s' % (harness.TIMED[n][0], n)
        k = dict(st=1, c1=1, cb=1, c2=3).get(n, 8)
        out += mk(cfg, [t], [fr], dict(ops=[op]), cost=k * cost, **kw)
        for x in out[-1:]: x['name'] += '/' + n
    return out
TQ = ['ns', 'i32ms', 't100', 'st', 'st_s', 'sy_ms', 'c2', 'cm', 'cb']
def timed_all():
    from . import harness
    ALLN = list(harness.TIMED)
    out = timed('clang17', 'i32', 'a', TQ, defaults=False) + timed('gcc20', 'u64', 'a', ['ns', 'u64s', 'st', 'sy', 'cr', 'c1'], defaults=False)
    out += timed('fallback', 'u32', 'a', ['ms', 'st', 'sy'], defaults=False) + timed('gcc20', 'i32', 'ia', ['us', 'sy', 'st_s'], defaults=False) + timed('gcc20', 'u64', 'ia', ['ns', 'st', 'c1'], defaults=False)
    out += timed('gcc20', 'f32', 'r', ['ns', 'st'], defaults=False) + timed('clang17', 'S24', 'a', ['ns', 'st'], defaults=False) + timed('gcc20', 'flag', 'a', ['ns', 'st'], defaults=False)
    out += timed('base17', 'i128', 'r', ['st'], defaults=False) + timed('gcc20', 'i128', 'a', ['st'], defaults=False) + timed('gcc20', 'pi', 'a', ['st'], defaults=False) + timed('gcc20', 'b', 'a', ['st'], defaults=False) + timed('gcc20', 'f80', 'a', ['st'], defaults=False)
    if T == 'thorough':
        for c in ('clang17', 'gcc20', 'clang11', 'fallback', 'base17'):
            for t in ('i32', 'i64', 'u8', 'S24', 'i128', 'e32', 'pi', 'b', 'f32', 'f80', 'S3', 'flag'):
                if c in ('fallback', 'base17') and t not in ('i32', 'S24', 'i128'): continue
                out += timed(c, t, 'a', ALLN if t in ('i32', 'i64', 'S24') else TQ, defaults=False)
        for t in ('i32', 'u64', 'i128'): out += timed('clang17', t, 'ia', ALLN, defaults=False) + timed('gcc20', t, 'ir', TQ, defaults=False)
    return out
def c08(): return untimed() + timed_all(), {'wait', 'value', 'readonly'}
def c09(): return untimed() + timed_all() + pool('notify wait wait_for wait_until', th(('gcc20',), LPCFG)), {'notify', 'block'}
def c10(): return timed_all() + pool('wait_for wait_until', th(('gcc20',), LPCFG)), {'deadline'}
def c05():
    sel = dict(groups=['basic', 'cas', 'arith', 'bitwise', 'bit', 'fp', 'ptr', 'flag', 'ctor', 'wait'])
    ty = ['i8', 'u16', 'i32', 'u64', 'i128', 'e16', 'b', 'pi', 'f32', 'f64', 'f80', 'S1', 'S3', 'S5', 'S8', 'S12', 'S16', 'S17', 'S24', 'SL24', 'SI12']
    out = full(['fallback'], ty, 'ar', sel, defaults=False) + full(['fallback', 'gccfb'], ['flag'], 'a', sel)
    out += full(['gccfb'], ['u8', 'i32', 'i64', 'u128', 'f80', 'S3', 'S24', 'PA8', 'PC24'], 'ar', sel, defaults=False)
    out += full(['base17'], ['i128', 'u128', 'f80', 'S9', 'S16', 'S24'], 'ar', sel, defaults=False) + full(['clang17', 'gcc20'], ['S17', 'S24', 'S40', 'S72', 'SI100'], 'ar', sel)
    # waiting on lock-free types without native support uses the same lock
    out += full(['clang17'], ['i8', 'i64', 'i128', 'S3', 'f64'], 'ar', WAIT)
    out += timed('clang17', 'S24', 'a', ['ns', 'st', 'c1'], defaults=False) + timed('clang17', 'i64', 'r', ['ns', 'st', 'sy'], defaults=False) + timed('fallback', 'i32', 'a', ['ms', 'st', 'cr'], defaults=False)
    if T == 'thorough': out += full(['fallback', 'gccfb'], ALLT, 'ar', sel) + full(['base17', 'gcc11'], INT16 + BIGS + ['f80'], 'ar', sel)
    out += pool('lock')
    return out, {'lock', 'samelock', 'lockmap', 'table-bounds'}
def c14():
    sel = dict(groups=['basic', 'cas', 'arith', 'bitwise', 'bit', 'fp', 'ptr', 'flag', 'ctor', 'query', 'wait'])
    out = [dict(mod='caps', fun='unit', name='%s/capabilities' % c, cfg=c) for c in ALLCFG + ['gccgen', 'gccsync']]
    ty = ['i8', 'u16', 'i32', 'u64', 'i128', 'e16', 'b', 'pi', 'f32', 'f64', 'f80', 'S1', 'S3', 'S5', 'S8', 'S12', 'S16', 'S24', 'flag']
    out += full(['gcc20', 'clang17'], [x for x in ty if x != 'flag'], 'ar', sel, defaults=False) + full(['gcc20', 'clang17', 'base17'], ['flag'], ['a', 'ia'], sel)
    out += full(['base17', 'cx16', 'gcccx', 'gccasm'], ['i8', 'i16', 'i32', 'i64', 'i128', 'f80', 'S15'], 'ar', sel, defaults=False)
    out += full(['fallback', 'gccfb'], ['i8', 'i32', 'i128'], 'ar', dict(groups=['query', 'wait', 'basic']), defaults=False)
    out += full(['gcc20', 'clang17'], WIPC, ['ia', 'ir'], dict(groups=['query', 'wait']))
    out += timed('gcc20', 'i32', 'a', ['ns', 'st', 'sy'], defaults=False) + timed('clang17', 'i32', 'ia', ['ns', 'st', 'sy'], defaults=False) + timed('gcc20', 'flag', 'a', ['ns', 'st'], defaults=False)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', sel)
    return out, {'lockfree', 'capability'}
def c19():
    sel = dict(groups=['basic', 'cas', 'arith', 'bitwise', 'bit', 'fp', 'ptr', 'ctor', 'query', 'wait'])
    ty = ['i8', 'u16', 'i32', 'u64', 'i128', 'e16', 'b', 'pi', 'f32', 'f64', 'f80', 'S1', 'S3', 'S8', 'S12', 'S16']
    out = full(['gcc20', 'clang17'], [x for x in ty if x not in ('S3', 'S12')], ['ia', 'ir'], sel, defaults=False) + full(['gcc20', 'clang17'], ['S3', 'S12'], ['ia'], sel, defaults=False)
    out += full(['gcc20', 'clang11'], ['flag'], ['ia'], dict(groups=['flag', 'ctor', 'query', 'wait']))
    out += full(['gcccx', 'gccasm', 'cx16', 'base17'], ['i8', 'u16', 'i32', 'u64', 'pi'], ['ia', 'ir'], sel, defaults=False)
    out += timed('gcc20', 'i32', 'ia', ['ns', 'st', 'sy', 'cm'], defaults=False) + timed('clang17', 'u32', 'ir', ['ms', 'st', 'c1'], defaults=False) + timed('gcc20', 'u64', 'ia', ['ns', 'st', 'c1', 'sy'], defaults=False) + timed('clang17', 'flag', 'ia', ['ns', 'st'], defaults=False)
    if T == 'thorough': out += full(['clang11', 'clang20', 'clang17', 'gcc20', 'gcc11', 'gcccx', 'gccasm', 'cx16'], INT8 + ENUM + ['b'] + PTR + FP[:2] + ['S1', 'S2', 'S4', 'S8'], ['ia', 'ir'], sel) + full(['clang17', 'gcc20'], ['S3', 'S5', 'S6', 'S7', 'i128', 'f80', 'S16'], ['ia'], sel)
    return out, {'ipc', 'value', 'result', 'expected', 'atomicity', 'order', 'readonly', 'wait', 'block', 'notify', 'lockfree', 'capability', 'memory-safety', 'frame'}
def c11():
    sel = dict(groups=['fp', 'basic', 'cas', 'ctor'])
    out = full(['gcc20', 'clang17', 'fallback', 'gccfb', 'gcc11', 'gcccx'], FP, 'ar', sel)
    if T == 'thorough': out += full(ALLCFG, FP, 'ar', sel)
    return out, {'value', 'result', 'expected', 'atomicity', 'readonly'}
def c12():
    sel = dict(groups=['basic', 'cas', 'ctor'])
    ty = INT8 + INT16 + CHR + ENUM + ['b'] + PTR + ['pv', 'pf'] + FP + SMALLS + BIGS + PADS
    out = full(['gcc20', 'clang17'], ty, 'ar', sel)
    out += full(['gccfb', 'gcc11'], ['i32', 'b', 'e8', 'pv', 'f80', 'S3', 'S7', 'S12', 'S17', 'S24'] + PADS, 'ar', sel, defaults=False)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', sel)
    return out, {'value', 'result', 'expected', 'no-undefined-behaviour', 'memory-safety'}
def c15():
    sel = dict(groups=['flag', 'ctor', 'query', 'wait'])
    out = timed('gcc20', 'flag', 'a', ['ns', 'st'], defaults=False) + timed('clang17', 'flag', 'ia', ['ns', 'st'], defaults=False)
    for c in ALLCFG: out += mk(c, ['flag'], ['a', 'ia'] if c not in ('fallback', 'gccfb') else ['a'], sel)
    return out, {'value', 'result', 'order', 'atomicity', 'readonly', 'lock', 'asm-constraints', 'capability', 'lockfree', 'ipc', 'memory-safety', 'wait', 'block', 'notify', 'assertion'}
def c16():
    sel = dict(groups=['ptr'])
    out = full(['gcc20', 'clang17', 'fallback', 'gccasm'], PTR, 'ar', sel)
    if T == 'thorough': out += full(ALLCFG, PTR, 'ar', sel)
    return out, {'value', 'result', 'atomicity', 'no-undefined-behaviour', 'memory-safety'}
def c17():
    sel = dict(groups=['bit'])
    out = full(['gcc20', 'clang17', 'gccasm', 'gccfb'], INT8 + INT16 + ENUM, 'ar', sel)
    out += full(['clang20', 'base17', 'gccgen'], ['i8', 'u16', 'i32', 'u64', 'i128'], 'a', sel)
    if T == 'thorough': out += full(ALLCFG, INT8 + INT16 + CHR + ENUM, 'ar', sel)
    return out, {'value', 'result', 'atomicity', 'memory-safety', 'asm-constraints', 'no-undefined-behaviour'}
def c18():
    out = [dict(mod='ops', fun='unit', name='%s/fence' % c, cfg=c, types=['i32'], fronts=['a'], sel=dict(groups=['fence'])) for c in ALLCFG + ['gccgen', 'gccsync']]
    out += pool('fence', LPCFG)
    return out, {'order', 'readonly', 'memory-safety', 'asm-constraints'}
def c22():
    pre = untimed() + timed_all()
    sel = dict(ops=['load', 'conv', 'cas_strong', 'cas2_strong', 'cas_weak', 'cas2_weak', 'is_lock_free', 'has_native_wait_notify', 'test'])
    out = pre + full(['gcc20', 'clang17'], ['i8', 'u16', 'i32', 'u64', 'i128', 'e16', 'b', 'pi', 'pv', 'f32', 'f64', 'f80', 'S1', 'S3', 'S5', 'S8', 'S12', 'S16', 'S24', 'flag'], 'a', sel)
    out += full(['gcc20', 'clang17'], ['i8', 'u16', 'i32', 'u64', 'i128', 'b', 'pi', 'f32', 'f80', 'S3', 'S8', 'S24'], 'r', sel)
    out += full(['gccasm', 'gccfb', 'base17', 'cx16', 'gcccx'], ['i8', 'u16', 'i32', 'u64', 'i128', 'S5', 'f64'], 'a', sel, defaults=False)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', sel)
    return out, {'readonly', 'frame'}
def c23():
    out = full(['gcc20', 'clang17', 'fallback'], ['i8', 'i16', 'i32', 'i64', 'i128', 'u16', 'e16', 'b', 'pi', 'f32', 'f64', 'f80', 'S3', 'S8', 'S24'], 'a', dict(groups=['basic', 'cas', 'bitwise', 'bit', 'arith', 'ptr', 'fp', 'ctor', 'query']))
    out += full(['gcccx', 'gccasm'], ['i8', 'i16', 'i32', 'i64', 'i128'], 'r', ANY, defaults=False)
    out += untimed()[:12] + timed('clang17', 'i32', 'a', ['i32ms', 'st_s', 'c2'], defaults=False) + timed('gcc20', 'u64', 'a', ['u64s', 'st'], defaults=False)
    if T == 'thorough': out += full(ALLCFG, ALLT, 'ar', ANY) + timed_all()
    return out, {'no-undefined-behaviour', 'assertion', 'memory-safety', 'asm-constraints'}
def c24():
    ty = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128']
    out = full(['gccasm'], ty, 'a', ANY)
    out += full(['gccsync', 'gccgen'], ['i8', 'u16', 'i32', 'u64', 'i128', 'f32', 'pi', 'b', 'S3'], 'a', ANY)
    out += full(['cx16', 'gcccx', 'base17', 'gccfb', 'gcc20', 'clang17'], ['u8', 'i16', 'u32', 'i64', 'i128'], 'a', ANY, defaults=False)
    out += [dict(mod='ops', fun='unit', name='%s/fence' % c, cfg=c, types=['i32'], fronts=['a'], sel=dict(groups=['fence'])) for c in ALLCFG + ['gccgen', 'gccsync']]
    if T == 'thorough': out += full(ALLCFG + ['gccsync', 'gccgen'], ALLT, 'ar', ANY)
    return out, None

LPSUB = {'wait': 2, 'wait_for': 2, 'wait_until': 6, 'free': 2}
def pool(what, cfgs=('gcc20', 'clang17'), **kw):
    """tasks for functions of src/lock_pool.cpp"""
    out = []
    for c in cfgs:
        for w in what.split():
            n = LPSUB.get(w, 0)
            for i in (range(n) if n else [None]): out.append(dict(mod='lockpool', fun='unit', name='%s/lock_pool %s%s' % (c, w, '' if i is None else '#%d' % i), cfg=c, what=w, sub=None if i is None else [i], cost=30, **kw))
    return out
LPCFG = ('gcc20', 'clang17', 'gccasm')
def c06(): return pool('lock unlock wait wait_for wait_until cleanup', th(('gcc20', 'gccasm'), LPCFG)), {'mutex', 'lock', 'table-bounds'}
def c07(): return pool('alloc free notify unlock wait wait_for wait_until cleanup', th(('gcc20',), LPCFG)), {'table', 'memory-safety', 'assertion', 'lock', 'table-bounds'}
SSE = ('-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41')
def c13():
    out = []
    for c in th(('gcc20', 'gcc11', 'clang17'), ('gcc20', 'gcc11', 'clang17', 'base17', 'gcccx', 'clang20')):
        for s, more in (('find_address_sse2.cpp', ()), ('find_address_sse41.cpp', ('-msse4.1',))):
            out.append(dict(mod='faspec', fun='unit', name='%s/%s' % (c, s), cfg=c, src=s, extra=list(SSE + more), cost=20))
        for i, e in enumerate((SSE, SSE[:1], ())):
            if i == 1 and '-march=sandybridge' in build.CONFIGS[c]['flags']: continue      # not a configuration that compiles
            out.append(dict(mod='faspec', fun='unit', name='%s/lock_pool.cpp#%d' % (c, i), cfg=c, src='lock_pool.cpp', extra=list(e), cost=2))
    return out, {'search', 'memory-safety', 'frame', 'no-undefined-behaviour', 'vacuous'}
def c20(): return pool('alloc free wait wait_for wait_until notify', th(('gcc20',), LPCFG)), {'oom', 'block', 'assertion', 'memory-safety', 'mutex'}
def c21(): return pool('alloc free cleanup', th(('gcc20', 'clang17'), LPCFG)), {'exit', 'memory-safety'}

PLANS = {'C13': c13, 'C06': c06, 'C07': c07, 'C20': c20, 'C21': c21, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C22': c22, 'C23': c23, 'C24': c24}
ASSUME = {}
TECH = {'*': 'contract-based deductive verification: function contracts on the real code, verification conditions generated from its LLVM IR on every run, discharged by z3'}
NOTE = {'*': 'Every obligation of the stated categories is discharged for all inputs, all values other threads may leave in the object, and all loop iterations (loops are cut at inferred invariants that are themselves proved). Trusted: clang front end and the scalar LLVM passes, the IR and x86 instruction semantics of the VC generator, z3, x86-TSO. GCC back ends are verified from the same headers with the compiler identification macros of GCC 13, not from GCC generated code. Only x86-64 Linux back ends.'}

def props():
    return {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(engine.VERIF, 'properties.jsonl'))}

COMMON = ['other threads are represented by an arbitrary value at every read outside a held internal lock (rely: only whole-object transitions by operations of this library)',
          'callers pass valid objects: correctly aligned, alive, not wrapping the address space, memory orders valid for the operation']

def run(pid):
    p = props()[pid]
    r = PLANS[pid]()
    tasks, cats = r[0], r[1]
    extra = r[2] if len(r) > 2 else {}
    engine.main(pid, p['title'], tasks, cats, 'proof', COMMON + extra.get('assume', []), extra.get('trusted', []), post=extra.get('post'))
