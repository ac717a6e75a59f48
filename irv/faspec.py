"""Contract of the address search (src/find_address*.cpp and the dispatch in src/lock_pool.cpp).

  requires  addrs is 16-byte aligned, readable for size rounded up to an even number of
            entries, size <= 2^43
  ensures   result < size  implies  addrs[result] == addr
            result >= size implies  addrs[k] != addr for every k < size
  writes nothing (the dispatcher: only the function pointer, atomically, and only with one
  of the search functions the processor was asked about)

The array is an uninterpreted function of the index; `every k` is one Skolem constant, at
which the loop invariants are stated too."""
import re, os, tempfile, shutil, time
import z3
from .sym import *
from . import ll, sym, api, build, x86asm
from .lpspec import keyoff, MAXCAP, ult

A = UF('addrs', [64], 64)
NAMES = ('find_address_generic', 'find_address_sse2', 'find_address_sse41')
def short(n):
    for k in NAMES + ('find_address_dispatch',):
        if '%d%sE' % (len(k), k) in n: return k
    return None
def ssat(e, w):
    n = e.size(); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return z3.If(e > bv(hi, n), bv(hi, w), z3.If(e < bv(lo, n), bv(lo, w), z3.Extract(w - 1, 0, e)))

class FASpec(Spec):
    def __init__(s, m):
        s.m = m
    def setup(s, ex):
        st = State(); f = ex.fn
        if len(f.params) != 3: raise NotUnderContract('signature of %s' % f.name)
        s.addr = z3.BitVec('addr', 64); s.size = z3.BitVec('size', 64); s.k = z3.BitVec('k', 64)
        reg = Region('arr', 'array'); ex.add_region(reg); s.reg = reg
        st.mem['arr'] = ArrContent(None)
        s.words = (s.size + 1) & bv(~1, 64)
        st.pc += [reg.base & 15 == 0, reg.base != 0, z3.ULE(s.size, bv(MAXCAP, 64)), ult(s.k, s.size)]
        for (n, t, at), v in zip(f.params, (s.addr, reg.base, s.size)): st.env[n] = v
        s.args = dict(addr=s.addr, size=s.size, k=s.k)
        st.ghost['reads'] = (); st.ghost['stored'] = None
        return st
    # ---- memory
    def array_load(s, ex, st, reg, off, n, inst):
        if n % 8: raise NotUnderContract('%d-byte access to the array' % n)
        k = keyoff(off)
        al = re.search(r'align (\d+)', inst.text); al = int(al.group(1)) if al else 8
        if al > 16: raise NotUnderContract('array read with alignment %d' % al)
        ex.require(st, z3.And(off & bv(al - 1, 64) == 0, ult(k, s.words), z3.ULE(k + n // 8, s.words)), 'memory-safety', 'read outside the array of addresses or misaligned', inst)
        out = []
        for i in range(n // 8):
            j = simp(k + i); out.append(A(j))
        return simp(concat_le(out))
    def array_store(s, ex, st, *a): ex.fail(st, 'frame', 'write to the array of addresses', a[-1])
    def global_region(s, ex, name, g, size):
        if 'g_find_address' in name:
            r = Region('@' + name, 'shared', size); r.ptr = True; s.gp = r; return r
        return None
    def shared_load(s, ex, st, reg, off, n, inst, atomic, volatile, hw, sw):
        if not atomic: ex.fail(st, 'search', 'search function pointer read non-atomically', inst)
        if off != 0 or n != 8: raise NotUnderContract('part of the function pointer')
        f = z3.BitVec('searchfn', 64); st.ghost['fn'] = f; return f
    def shared_store(s, ex, st, reg, off, n, val, inst, atomic, volatile, hw, sw):
        if not atomic: ex.fail(st, 'search', 'search function pointer written non-atomically', inst)
        if off != 0 or n != 8: ex.fail(st, 'search', 'part of the search function pointer written', inst); return
        s.callable(ex, st, val, inst, 'stored for later searches')
    def rmw(s, ex, st, p, n, f, inst, hw):
        root, off = ex.decompose(p)
        if root is None or root.kind != 'shared': raise NotUnderContract('atomic operation on %s' % p)
        s.shared_store(ex, st, root, off.as_signed_long(), n, simp(f(z3.BitVec('searchfn', 64))), inst, True, False, hw, hw); st.env[inst.dst] = z3.BitVec('searchfn', 64)
    # ---- which function may be called
    def callable(s, ex, st, fp, inst, why):
        """fp is a search function usable on this processor"""
        ok = []
        for nm in s.m['fns']:
            b = ex.global_region(st, nm).base; k = short(nm)
            if k is None: continue
            if k == 'find_address_dispatch': c = TRUE if why.startswith('called') else FALSE
            elif k == 'find_address_generic': c = TRUE
            elif k == 'find_address_sse2': c = s.has(st, 3, 26)
            else: c = s.has(st, 2, 19)
            ok.append(z3.And(fp == b, c))
        ex.require(st, z3.Or(*ok), 'search', 'a function %s is not one of the search functions the processor supports' % why, inst)
    def has(s, st, r, bit):
        """the processor reports the feature"""
        f = UF('cpuid%d' % r, [32, 32], 32)(bv(1, 32), bv(0, 32))
        mx = UF('cpuid0', [32, 32], 32)(bv(0, 32), bv(0, 32))
        base = {c: 1 for c in s.m.get('base', ())}
        if (r, bit) in base: return TRUE
        return z3.And(z3.UGE(mx, bv(1, 32)), z3.Extract(bit, bit, f) == bv(1, 1))
    def post(s, ex, st, r):
        return [z3.Implies(ult(r, s.size), A(r) == s.addr), z3.Implies(z3.UGE(r, s.size), A(s.k) != s.addr)]
    def contract(s, ex, st, args, inst):
        a, p, n = args
        root, off = ex.decompose(p)
        if root is None or root.name != 'arr': raise NotUnderContract('search in another array')
        # only a search of a part of the same array for the same address is described
        k0 = keyoff(off)
        ex.require(st, z3.And(off & 15 == 0, z3.ULE(k0, s.words), z3.ULE(n, s.words), z3.ULE(k0 + ((n + 1) & bv(~1, 64)), s.words)), 'memory-safety', 'search outside the array or of a misaligned part', inst)
        ex.require(st, a == s.addr, 'search', 'search for another address', inst)
        r = fresh('found', 64)
        if s.m.get('strong'): st.pc.append(z3.ULE(r, n))
        st.pc += [z3.Implies(ult(r, n), A(simp(k0 + r)) == a), z3.Implies(z3.And(z3.UGE(r, n), ult(s.k - k0, n)), A(s.k) != a)]
        st.env[inst.dst] = r
    def call(s, ex, st, name, args, inst):
        k = short(name)
        if k is None or len(args) != 3: raise NotUnderContract('call to %s' % name)
        s.callable(ex, st, ex.global_region(st, name).base, inst, 'called')
        s.contract(ex, st, args, inst)
    def indirect(s, ex, st, fp, args, inst):
        s.callable(ex, st, fp, inst, 'called')
        s.contract(ex, st, args, inst)
    def intrinsic(s, ex, st, name, a, I):
        E = st.env
        def vec(e, w): return [extract(e, i * w, w) for i in range(e.size() // w)]
        m = re.match(r'llvm\.x86\.sse2\.packss(dw|wb)\.128', name)
        if m:
            w = 32 if m.group(1) == 'dw' else 16
            E[I.dst] = simp(concat_le([ssat(x, w // 2) for v in a for x in vec(v, w)])); return
        m = re.match(r'llvm\.x86\.sse2?\.(pmovmskb\.128|movmsk\.ps|movmsk\.pd)', name)
        if m:
            w = {'p': 8, 's': 32, 'd': 64}['p' if m.group(1).startswith('p') else m.group(1)[-1]]
            b = [extract(x, w - 1, 1) for x in vec(a[0], w)]
            E[I.dst] = simp(z3.ZeroExt(32 - len(b), concat_le(b))); return
        m = re.match(r'llvm\.x86\.sse41\.ptest(z|c|nzc)', name)
        if m:
            z = (a[0] & a[1]) == 0; c = (~a[0] & a[1]) == 0
            E[I.dst] = simp(z3.If({'z': z, 'c': c, 'nzc': z3.And(z3.Not(z), z3.Not(c))}[m.group(1)], bv(1, 32), bv(0, 32))); return
        m = re.match(r'llvm\.vector\.reduce\.(or|and)', name)
        if m:
            w = ll.bits_of(I.t, ex.mod); r = None
            for x in vec(a[0], w): r = x if r is None else (r | x if m.group(1) == 'or' else r & x)
            E[I.dst] = simp(r); return
        return NotImplemented
    # ---- loops: everything before the position was compared
    def loop_candidates(s, ex, ent, hv, hvmap, L):
        out = []
        for l in L:
            v = hvmap[l]
            if z3.is_bool(v) or v.size() != 64: continue
            q = ex.phisub.get(v.get_id())
            if q is not None and q[0].eq(v): v = q[1]
            for b in (1, 3, 7, 15, 31): out.append(('%s is a multiple of %d' % (l, b + 1), v & bv(b, 64) == 0))
            out.append(('not found before %s' % (l,), z3.Implies(ult(s.k, v), A(s.k) != s.addr)))
            out.append(('not found from %s on' % (l,), z3.Implies(z3.UGE(s.k, v), A(s.k) != s.addr)))
            for t in s.bounds: out.append(('%s <= %s' % (l, t), z3.ULE(v, t)))
            for t in s.bounds: out.append(('%s <= %s - 1' % (l, t), ult(v, t)))
            out.append(('entries left %s' % (l,), z3.Implies(z3.UGE(s.k, s.size - v), A(s.k) != s.addr)))
        return out
    @property
    def bounds(s):
        n = s.words
        return [s.size, n, n & bv(~15, 64), n & bv(~7, 64), n & bv(~3, 64), n & bv(~31, 64)]
    def havoc_phi(s, ex, ent, hv, p):
        v = simp(ent.env[p])
        if v.size() != 64: return None
        root, off = ex.decompose(v)
        if root is None or root.kind != 'array': return None
        k = fresh(p, 64)
        return root.base + bv(8, 64) * k, k, lambda x: keyoff(ex.decompose(x)[1])
    def on_ret(s, ex, st, val):
        if val is None: ex.fail(st, 'search', 'no result'); return
        ps = s.post(ex, st, val)
        ex.require(st, ps[0], 'search', 'the entry at the returned index is not the address sought')
        ex.require(st, ps[1], 'search', 'an entry equal to the address sought is not found')
        if s.m.get('strong') == 'prove': ex.require(st, z3.ULE(val, s.size), 'search', 'index above the number of entries')

class Asm(x86asm.X86):
    """cpuid besides the common instructions"""
    def execute(s, ex, st, I, args):
        b = [x.strip() for x in re.split(r'[\n;]', I.x['asm']) if x.strip()]
        if b == ['cpuid'] and args and all(a.size() == 32 for a in args):
            cl = x86asm.split_cons(I.x['cons'])
            outs = [c for c in cl if c.startswith('=')]; ins = [c for c in cl if not c.startswith(('=', '~'))]
            reg = lambda c: {'{ax}': 'a', '{bx}': 'b', '{cx}': 'c', '{dx}': 'd', 'a': 'a', 'b': 'b', 'c': 'c', 'd': 'd'}.get(c.lstrip('=&'))
            val = {}
            for c, a in zip(ins, args):
                r = reg(outs[int(c)]) if c.isdigit() else reg(c)
                val[r] = a
            if sorted(filter(None, map(reg, outs))) != ['a', 'b', 'c', 'd'] or 'a' not in val: raise NotUnderContract('operands of cpuid')
            leaf = simp(val['a']); sub = simp(val['c']) if 'c' in val else fresh('ecx', 32)
            # leaves 0 and 1 do not depend on ecx
            if z3.is_bv_value(leaf) and leaf.as_long() in (0, 1): sub = bv(0, 32)
            r = tuple(UF('cpuid%d' % i, [32, 32], 32)(leaf, sub) for i in range(4))
            byreg = dict(a=r[0], b=r[1], c=r[2], d=r[3])
            st.env[I.dst] = tuple(byreg[reg(c)] for c in outs)
            return None
        m = [re.match(r'v?p(and|or|xor|andn)\s+\$(\d+)\s*,\s*\$(\d+)(?:\s*,\s*\$(\d+))?$', x) for x in b]
        cl = [c for c in x86asm.split_cons(I.x['cons']) if not c.startswith('~')]
        if b and all(m) and all(c in ('=x', '=&x', 'x') or c.isdigit() for c in cl) and sum(c.startswith('=') for c in cl) == 1 and cl[0].startswith('='):
            w = args[0].size(); reg = {0: fresh('xmm', w)}; loc = {0: 0}
            for i, (c, a) in enumerate(zip(cl[1:], args), 1):
                if c.isdigit():
                    if int(c) != 0: raise NotUnderContract('operands of %s' % b)
                    loc[i] = 0; reg[0] = a
                else: loc[i] = i; reg[i] = a
            early = cl[0] == '=&x' or any(c.isdigit() for c in cl[1:])
            if not early and len(b) > 1: raise NotUnderContract('output may share a register with an input')
            for k, x in enumerate(m):
                src, a2, d = [int(q) if q else None for q in x.groups()[1:]]
                if b[k].startswith('v'):
                    if d is None: raise NotUnderContract(b[k])
                else:
                    if d is not None: raise NotUnderContract(b[k])
                    d = a2
                if loc[d] != 0: raise NotUnderContract('assembly writes an input operand')
                p, q = reg[loc[a2]], reg[loc[src]]
                reg[0] = simp({'and': lambda: p & q, 'or': lambda: p | q, 'xor': lambda: p ^ q, 'andn': lambda: ~p & q}[x.group(1)]())
            st.env[I.dst] = reg[0]
            return None
        return super().execute(ex, st, I, args)

PRE = {'lock_pool.cpp': '', 'find_address_sse2.cpp': '', 'find_address_sse41.cpp': ''}
def load(cfg, src, extra):
    work = tempfile.mkdtemp(prefix='irv.')
    try:
        p = build.compile_ir('#include "%s/src/%s"\n' % (build.REPO, src), cfg, work, 'fa', extra=['-I%s/src' % build.REPO, '-DBOOST_ATOMIC_SOURCE'] + list(extra))
        return ll.parse_module(open(p).read())
    finally: shutil.rmtree(work, ignore_errors=True)

def finish(s, ex, outs):
    n = 0
    for kind, v, st in outs:
        if kind == 'ret': n += 1; s.on_ret(ex, st, v)
        elif kind == 'unreachable': ex.fail(st, 'search', 'unreachable code can be reached')
        else: raise NotUnderContract('exception (%s)' % kind)
    STATS.paths += n; ex.npaths = n
    ex.vacuous = not any(k == 'ret' and check(st.pc)[0] == 'sat' for k, v, st in outs)
FASpec.finish = finish

def unit(t):
    """all search functions found in one source file compiled one way"""
    from .engine import res_of
    mod = load(t['cfg'], t['src'], t.get('extra', ()))
    flags = build.cfg_of(t['cfg'])['flags'] + list(t.get('extra', ()))
    base = {(3, 26)}                     # SSE2 is part of x86-64
    if any(f in flags for f in ('-march=sandybridge', '-msse4.1')): base.add((2, 19))
    names = [n for n in mod.funcs if short(n)]
    called = set(names)
    for txt in re.findall(r'@([\w.$]+)', mod.text if hasattr(mod, 'text') else ''):
        if short(txt): called.add(txt)
    out = []
    for n in names:
        f = mod.funcs[n]
        t0 = time.time(); q0 = (sym.STATS.queries, sym.STATS.time)
        fns = set(called)
        for k in NAMES: fns.add('_ZN5boost7atomics6detail%d%sEPVKvPKS3_m' % (len(k), k))
        spec = FASpec(dict(base=base, fns=sorted(fns)))
        ex = api.verify(mod, n, spec, deadline=time.time() + t.get('limit', 600), only=t.get('only'), asm=Asm())
        if ex.fails and short(n) in NAMES[1:] and generic_exact(t):
            # the portable search never returns more than the number of entries: use that too
            spec = FASpec(dict(base=base, fns=sorted(fns), strong=True))
            ex = api.verify(mod, n, spec, deadline=time.time() + t.get('limit', 600), only=t.get('only'), asm=Asm())
        if n == names[-1]:
            # what the pointer holds before anybody called the dispatcher
            st = State(); g = [k for k in mod.globals if 'g_find_address' in k]
            for k in g:
                iv = spec_init(mod, k)
                if iv is None or short(iv) is None: ex.fail(st, 'search', 'the initial search function is %s' % iv)
                else: spec.callable(ex, st, ex.global_region(st, iv).base, None, 'called')
        r = res_of(ex, short(n), t['cfg'], t0, dict(solver=sym.STATS.time - q0[1], queries=sym.STATS.queries - q0[0], vacuous=ex.vacuous))
        if r['fails']: r['meta'] = dict(mkind='search', fn=short(n), extra=list(t.get('extra', ())))
        out.append(r)
    if not out: raise build.BuildError('no search function found in %s' % t['src'])
    return out

def generic_exact(t):
    mod = load(t['cfg'], 'lock_pool.cpp', t.get('extra', ()))
    ns = [n for n in mod.funcs if short(n) == 'find_address_generic']
    if not ns: return False
    ex = api.verify(mod, ns[0], FASpec(dict(base=(), fns=ns, strong='prove')), only={'search'}, asm=Asm())
    return not ex.fails

def spec_init(mod, k):
    """name of the function in the initial value of a global"""
    def walk(v):
        if v is None: return None
        if v.k == 'global': return v.v
        if v.k == 'agg':
            for e in v.v:
                r = walk(e)
                if r: return r
        return None
    return walk(mod.globals[k]['init'])
