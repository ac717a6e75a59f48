"""Contracts of the lock pool (src/lock_pool.cpp): internal mutex, waiting-thread
table, waiting, notification, exit cleanup.

The list of one pool element is guarded by the element's mutex: its content is
arbitrary, subject to the table invariant, at every acquisition, and the
invariant is proved at every release (and at function boundaries that keep the
lock).  Quantified invariants are handled by instantiation: assumed at the index
terms the code uses and at Skolem constants, proved at the Skolem constants."""
import z3
from .sym import *
from . import api

T128 = 128
def T(x): return bv(x, T128)
def sx(e): return z3.SignExt(T128 - e.size(), e)
NS = 10 ** 9; SLACK = 10 ** 6; LIM = 1 << 62
ETIMEDOUT = 110
MAXCAP = 1 << 43
def ult(a, b): return z3.ULT(a, b)
def linear(e):
    """(constant, {id: (coefficient, term)}) of a 64-bit sum; shifts by constants count as factors"""
    c = 0; parts = {}
    def add(m, x):
        o = parts.get(x.get_id()); parts[x.get_id()] = (m + (o[0] if o else 0), x)
    def walk(e, m):
        nonlocal c
        if z3.is_bv_value(e): c += m * e.as_signed_long(); return
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            for x in e.children(): walk(x, m)
            return
        if z3.is_app_of(e, z3.Z3_OP_BMUL) and e.num_args() == 2 and z3.is_bv_value(e.arg(0)): walk(e.arg(1), m * e.arg(0).as_signed_long()); return
        if z3.is_app_of(e, z3.Z3_OP_CONCAT) and e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0 and e.arg(1).size() <= 8:
            x = e.arg(0); n = e.arg(1).size()
            if z3.is_app_of(x, z3.Z3_OP_EXTRACT) and x.params()[1] == 0 and x.arg(0).size() == 64: walk(x.arg(0), m << n); return
        if z3.is_app_of(e, z3.Z3_OP_BSHL) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < 32: walk(e.arg(0), m << e.arg(1).as_long()); return
        add(m, e)
    walk(simp(e), 1)
    return c, {k: v for k, v in parts.items() if v[0]}
def unlinear(c, parts):
    r = bv(c, 64)
    for m, x in parts.values(): r = r + bv(m, 64) * x
    return simp(r)
def canon(e): return unlinear(*linear(e))
def divided(off, d):
    """e with d*e == off if no multiplication wraps, or None"""
    c, parts = linear(off)
    if c % d or any(m % d for m, x in parts.values()): return None
    return unlinear(c // d, {k: (m // d, x) for k, (m, x) in parts.items()})
def keyoff(off):
    """word index of a byte offset known to be a multiple of 8: a 64-bit k with 8*k == off;
    every access is separately required to have k below the number of words"""
    r = divided(off, 8)
    return simp(z3.LShR(off, 3)) if r is None else r

class Buf:
    """content of a list buffer: header words, array of addresses (word i+2) and array of wait
    states (word i+2+capacity).  Every access is required to stay within its own array, so the
    two arrays are separate; q(k) reads any word."""
    def __init__(s, cap, q, P=None, W=None, h=None):
        s.cap = cap; s.q = q; s.h = h or (q(bv(0, 64)), q(bv(1, 64)))
        s.P = P or (lambda i: q(simp(i + 2))); s.W = W or (lambda i: q(simp(i + 2 + s.cap)))
    def __call__(s, k): return s.q(k)
    def section(s, k):
        """('H', word), ('P', index) or ('W', index) if the word index says so, else None"""
        k = simp(k); c = simp(s.cap) if s.cap is not None else None
        if z3.is_bv_value(k) and k.as_long() < 2: return 'H', k
        if c is None: return None
        if z3.is_bv_value(c):
            if not z3.is_bv_value(k): return None
            return ('P', simp(k - 2)) if k.as_long() < 2 + c.as_long() else ('W', simp(k - 2 - c))
        kc, kp = linear(k); cc, cp = linear(c)
        if all(i in kp and (kp[i][0] >= m > 0 or kp[i][0] <= m < 0) for i, (m, x) in cp.items()): return 'W', unlinear(kc - 2 - cc, {i: (kp.get(i, (0, 0))[0] - cp.get(i, (0, 0))[0], (kp.get(i) or cp.get(i))[1]) for i in set(kp) | set(cp)})
        if kc or len(kp) > 1: return 'P', unlinear(kc - 2, kp)
        return None
    def range(s, k, nk, f, P, W, h, whole):
        """content after the words k .. k+nk are replaced: f(word), P(i)/W(i) the new entries"""
        o = s.q; q = lambda x: z3.If(ult(x - k, nk), f(x), o(x)); sec = s.section(k)
        if whole: return Buf(s.cap, q, P, W, h)
        if sec is None or sec[0] == 'H': return Buf(s.cap, q)
        w, a = sec
        return Buf(s.cap, q, (lambda i: z3.If(ult(i - a, nk), P(i), s.P(i))) if w == 'P' else s.P, (lambda i: z3.If(ult(i - a, nk), W(i), s.W(i))) if w == 'W' else s.W, s.h)
    def upd(s, k, v, sec):
        o = s.q; q = lambda x: z3.If(x == k, v, o(x))
        if sec is None: return Buf(s.cap, q)
        w, i = sec; P = s.P; W = s.W; h = s.h
        if w == 'H': h = (v, h[1]) if i.as_long() == 0 else (h[0], v)
        elif w == 'P': P = lambda x, o=s.P: z3.If(x == i, v, o(x))
        elif w == 'W': W = lambda x, o=s.W: z3.If(x == i, v, o(x))
        return Buf(s.cap, q, P, W, h)
    def read(s, k, sec):
        if sec is None: return s.q(k)
        if sec[0] == 'H': return s.h[sec[1].as_long()]
        return s.P(sec[1]) if sec[0] == 'P' else s.W(sec[1])
class Snap:
    """content of a list at one moment, as functions"""
    def __init__(s, H, FM, rd, ref, idx, cond, wc, live):
        s.H = H; s.FM = FM; s.rd = rd; s.ref = ref; s.idx = idx; s.cond = cond; s.wc = wc; s.live = live
        s.size, s.cap = rd.h if isinstance(rd, Buf) else (rd(bv(0, 64)), rd(bv(1, 64)))
    def P(s, i): return s.rd.P(i) if isinstance(s.rd, Buf) else s.rd(simp(i + 2))
    def W(s, i): return s.rd.W(i) if isinstance(s.rd, Buf) and s.rd.cap is not None and s.cap.eq(s.rd.cap) else s.rd(simp(i + 2 + s.cap))
    def glob(s):
        return [('size within capacity', z3.ULE(s.size, s.cap)), ('capacity not zero', s.cap != 0), ('capacity bounded', z3.ULE(s.cap, bv(MAXCAP, 64)))]
    def single(s, i):
        w = s.W(i); p = s.P(i); used = ult(i, s.size); inr = ult(i, s.cap)
        return [('entry %s in use has a live wait state that points back to it', z3.Implies(used, z3.And(w != 0, s.live(w) == 1, s.idx(w) == i))),
                ('entry %s in use is referenced', z3.Implies(used, s.ref(w) != 0)),
                ('entry %s in use has an address', z3.Implies(used, p != 0)),
                ('waiter count of entry %s within its reference count', z3.Implies(z3.And(inr, w != 0), z3.ULE(z3.ZeroExt(32, s.wc(w)), s.ref(w)))),
                ('spare wait state %s is live, unreferenced and points back', z3.Implies(z3.And(inr, z3.Not(used), w != 0), z3.And(s.live(w) == 1, s.idx(w) == i, s.ref(w) == 0))),
                ('no spare wait state %s is kept after cleanup', z3.Implies(z3.And(inr, z3.Not(used), s.FM != 0), w == 0))]
    def pair(s, i, j):
        o = z3.And(ult(i, j), ult(j, s.cap))
        return [('addresses of entries differ', z3.Implies(z3.And(o, ult(j, s.size)), s.P(i) != s.P(j))),
                ('spare wait states form a prefix', z3.Implies(z3.And(o, z3.Not(ult(i, s.size)), s.W(i) == 0), s.W(j) == 0))]

WS = ('ref', 'idx', 'cond', 'wc', 'live')
WBITS = dict(ref=64, idx=64, cond=32, wc=32, live=1)
def upd(f, k, v): return lambda q: z3.If(q == k, v, f(q))
def unknown(q): raise NotUnderContract('table content read without the lock')

class LPSpec(Spec):
    K1 = z3.BitVec('K1', 64); K2 = z3.BitVec('K2', 64); KW = z3.BitVec('KW', 64); KE = z3.BitVec('KE', 64)
    def __init__(s, m): s.m = m; s.meta = m; s.args = {}; s.hashes = []
    # ---------------------------------------------------------------- entry
    def setup(s, ex):
        m = s.m; L = m['lay']; st = State(); g = st.ghost
        s.ex = ex; s.L = L
        s.pool = None; s.ls = None; s.nb = 0
        for f in WS: st.mem['ws.' + f] = ArrContent(unknown)
        g.update(held=0, phase=0, H=bv(0, 64), FM=bv(0, 8), mustwake=FALSE, relval=bv(0, 32), sigzero=FALSE, elem=bv(0, 64), marked=FALSE, requeued=FALSE,
                 nwake=bv(0, 64), flagset=FALSE, flagknown=FALSE, oom=FALSE, condrel=bv(0, 32), snap=None, own=(), news=(), fnptr=None, found=None)
        g['#terms'] = ()
        s.errno = ex.add_region(Region('errno', 'global', 4)); s.errno.init = lambda o: z3.BitVec('errno0[%d]' % o, 8)
        for b in ('mono', 'real', 'other'):
            e = z3.BitVec('entry_' + b, T128); g['lb_' + b] = e; st.pc += [e >= 0, e < T(LIM)]
        s.dl = ex.only is None or 'deadline' in ex.only
        g['doneK'] = FALSE
        if m['kind'] in ('cleanup', 'lock', 'find', 'dispatch', 'fence', 'sfence'): pass
        for i, pr in enumerate(ex.fn.params):
            st.env[pr[0]] = s.param(ex, st, i, pr[0])
        if m['kind'] in ('unlock', 'alloc', 'free', 'wait', 'wait_until', 'wait_for', 'notify'):
            g['held'] = 1; g['elem'] = s.ls.base
            s.acquire_content(ex, st)
            s.snap0 = g['snap']
            s.setup_more(ex, st)
        return st
    def param(s, ex, st, i, pn):
        m = s.m; k = m['kind']
        if k == 'lock': v = z3.BitVec('h', 64); s.h = v; s.args['h'] = v; return v
        if i == 0:
            s.ls = ex.add_region(Region('ls', 'shared', s.L['ls_size'])); s.ls.tag = 'ls'
            st.pc += [s.ls.base != 0, s.ls.base & 63 == 0]
            return s.ls.base
        if k in ('alloc', 'notify'):
            s.addr = z3.BitVec('addr', 64); s.args['addr'] = s.addr; st.pc.append(s.addr != 0); return s.addr
        if i == 1:
            s.wsp = z3.BitVec('vws', 64); s.args['vws'] = s.wsp
            if m.get('null'): s.wsp = bv(0, 64)
            else: st.pc.append(s.wsp != 0)
            return s.wsp
        if k == 'wait_for':
            s.rel = z3.BitVec('rel', 64); s.args['rel'] = s.rel; st.pc.append(s.rel > 0); return s.rel
        if k == 'wait_until' and i == 2:
            if m['clock'] is not None: return bv(m['clock'], 32)
            s.cid = z3.BitVec('clock_id', 32); s.args['clock_id'] = s.cid; st.pc += [s.cid != 0, s.cid != 1]; return s.cid
        if k == 'wait_until' and i == 3:
            r = ex.add_region(Region('abs', 'param', 16, writable=False))
            sec, ns = z3.BitVec('abs_sec', 64), z3.BitVec('abs_nsec', 64)
            s.args['sec'] = sec; s.args['nsec'] = ns
            ex.store_bytes(st, r, 0, sec); ex.store_bytes(st, r, 8, ns)
            st.pc += [sec >= 0, ns >= 0, ns < bv(NS, 64)]
            s.D = simp(sx(sec) * T(NS) + sx(ns))
            return r.base
        raise NotUnderContract('parameter %d' % i)
    def setup_more(s, ex, st):
        m = s.m; g = st.ghost
        if m['kind'] in ('free', 'wait', 'wait_until', 'wait_for') and not m.get('null'):
            s.assume_active(ex, st, first=True)
        if m['kind'] in ('alloc',):
            for t in (s.snap0.size, s.snap0.size - 1): s.term(ex, st, t)
        if m['kind'] == 'free': s.term(ex, st, s.snap0.size - 1); s.term(ex, st, s.snap0.size)
        if m['kind'] == 'wait_for': g['start'] = g['lb_mono']
    def assume_active(s, ex, st, first=False):
        """the caller's handle is an entry of the list that stays as long as the handle exists"""
        g = st.ghost; S = g['snap']; w = s.wsp; k = S.idx(w)
        st.pc += [S.H != 0, ult(k, S.size), S.W(k) == w, S.live(w) == 1]
        s.term(ex, st, k)
        own = S.wc(w)
        if first: st.pc.append(ult(z3.ZeroExt(32, own), S.ref(w)))       # the caller's own reference is not a blocked waiter
        else: st.pc.append(own != 0)                                     # rely: others only add and remove their own
        g['wsacq'] = own
    # ---------------------------------------------------------------- guarded content
    def acquire_content(s, ex, st):
        g = st.ghost
        s.nb += 1; n = s.nb
        reg = Region('buf!%d.%d' % (n, _uid()), 'array'); ex.add_region(reg)
        f = UF(reg.name, [64], 64); q = lambda k: f(k); rd = Buf(q(bv(1, 64)), q)
        st.mem[reg.name] = ArrContent(rd)
        fs = {}
        for x in WS:
            u = UF('%s!%s' % (x, reg.name), [64], WBITS[x]); fs[x] = (lambda u: lambda q: u(q))(u)
            st.mem['ws.' + x] = ArrContent(fs[x])
        g['H'] = reg.base; FM = fresh('FM', 8); st.pc.append(z3.ULE(FM, 1)); g['FM'] = FM
        S = Snap(reg.base, FM, rd, **fs); S.reg = reg.name
        g['snap'] = S; g['own'] = (reg.name,); g['news'] = (); g['#terms'] = ()
        reg.words = simp(2 + 2 * S.cap); reg.first = True
        for t, c in S.glob(): st.pc.append(z3.Implies(S.H != 0, c))
        st.pc.append(S.live(bv(0, 64)) == 0)
        st.pc.append(S.H & 15 == 0)
        g['marked'] = FALSE; g['found'] = None
        for t in (s.K1, s.K2): s.term(ex, st, t)
    def term(s, ex, st, i):
        """instantiate the invariant of the snapshot at index i"""
        g = st.ghost; S = g['snap']; i = simp(i)
        if S is None or any(i.eq(t) for t in g['#terms']): return
        for t, c in S.single(i): st.pc.append(z3.Implies(S.H != 0, c))
        w = S.W(i)
        st.pc.append(z3.Implies(z3.And(S.H != 0, ult(i, S.cap), w != 0), z3.ULE(S.ref(w), bv(1 << 31, 64))))
        for t in g['#terms']:
            for a, b in ((i, t), (t, i)):
                for _, c in S.pair(a, b): st.pc.append(z3.Implies(S.H != 0, c))
        g['#terms'] = g['#terms'] + (i,)
    def final(s, st):
        g = st.ghost
        rds = {x: st.mem['ws.' + x].rd for x in WS}
        H = simp(g['H'])
        if z3.is_bv_value(H):
            if H.as_long() != 0: raise NotUnderContract('list header is a constant')
            F = Snap(H, g['FM'], lambda k: bv(0, 64), **rds); F.reg = None
            return F
        reg = s.ex.reg_of_base(H) if z3.is_const(H) else None
        if reg is None or reg.kind != 'array': raise NotUnderContract('list header %s' % H)
        F = Snap(H, g['FM'], st.mem[reg.name].rd, **rds); F.reg = reg.name
        c = getattr(F.rd, 'cap', None)
        if c is not None and not F.cap.eq(c) and prove(st.pc, F.cap == c)[0] == 'proved': F.cap = c
        return F
    def check_inv(s, ex, st, where):
        g = st.ghost; F = s.final(st); nz = F.H != 0
        cat = 'table'
        if F.reg is not None:
            if F.reg not in g['own']: ex.fail(st, cat, '%s: list header points to a buffer that was released' % where)
            for t, c in F.glob(): ex.require(st, z3.Implies(nz, c), cat, '%s: table invariant: %s' % (where, t))
            reg = ex.byname[F.reg]
            ex.require(st, z3.Implies(nz, z3.UGE(reg.words, 2 + 2 * F.cap)), cat, '%s: buffer smaller than its recorded capacity' % where)
            for t, c in F.single(s.K1): ex.require(st, z3.Implies(nz, c), 'exit' if 'cleanup' in t else cat, '%s: table invariant: %s' % (where, t % 'K'))
            for t, c in F.pair(s.K1, s.K2): ex.require(st, z3.Implies(nz, c), cat, '%s: table invariant: %s' % (where, t))
        for n in g['own']:
            if n != F.reg: ex.require(st, ex.byname[n].base == 0, 'exit', '%s: buffer is neither part of the list nor freed (leak)' % where)
        S = g['snap']
        # nothing leaks: every wait state of the old list is still in the list or was freed; unless freed it is the same
        for w, c in [(S.W(s.K1), z3.And(S.H != 0, ult(s.K1, S.cap), S.W(s.K1) != 0))] + [(q, TRUE) for q in g['news']]:
            ex.require(st, z3.Implies(c, z3.Or(F.live(w) == 0, z3.And(nz, ult(F.idx(w), F.cap), F.W(F.idx(w)) == w))), 'exit', '%s: wait state is neither in the list nor freed (leak)' % where)
        return F
    def keep(s, ex, st, F, but, cat, what):
        """entries in use before are still there with their address (but: formula over wait state w)"""
        S = st.ghost['snap']; i = s.K1; w = S.W(i)
        c = z3.And(S.H != 0, ult(i, S.size), z3.Not(but(w)))
        j = F.idx(w)
        ex.require(st, z3.Implies(c, z3.And(F.H != 0, ult(j, F.size), F.W(j) == w)), cat, '%s: entry of another address lost' % what)
        ex.require(st, z3.Implies(c, F.P(j) == S.P(i)), cat, '%s: entry of another address separated from its address' % what)
        ex.require(st, z3.Implies(c, z3.And(F.ref(w) == S.ref(w), F.wc(w) == S.wc(w), F.cond(w) == S.cond(w))), cat, '%s: state of another address changed' % what)
    # ---------------------------------------------------------------- memory
    def global_region(s, ex, name, g, size):
        if g['const']: return None
        if size == s.L['pool']:
            r = Region('@' + name, 'shared', size); r.tag = 'pool'; s.pool = r
            return r
        r = Region('@' + name, 'shared', size)
        if size == 1: r.tag = 'once'
        elif size == 8: r.tag = 'findptr'
        else: r.tag = 'other'
        return r
    def place(s, ex, st, reg, off):
        """(element base address, field offset within the element)"""
        L = s.L
        if reg.tag == 'ls': return reg.base, off
        if isinstance(off, int): f = off % L['stride']; return simp(reg.base + bv(off - f, 64)), f
        f = s.unique(st, z3.URem(off, bv(L['stride'], 64)))
        if f is None: raise NotUnderContract('symbolic field of a pool element')
        ex.require(st, ult(off, bv(L['pool'], 64)), 'table-bounds', 'access outside the table of locks')
        return simp(reg.base + off - bv(f, 64)), f
    def unique(s, st, e):
        e = simp(e)
        if z3.is_bv_value(e): return e.as_long()
        for c in sorted(set([s.L['ls_mutex'], s.L['ls_hdr'], s.L['ls_free']])):
            if prove(st.pc, e == bv(c, 64))[0] == 'proved': return c
        return None
    def guarded(s, ex, st, base, inst, what):
        g = st.ghost
        if not g['held']: ex.fail(st, 'lock', '%s accessed without holding the lock' % what, inst); return False
        ex.require(st, g['elem'] == base, 'lock', '%s of another element accessed than the locked one' % what, inst)
        return True
    def shared_load(s, ex, st, reg, off, n, inst, atomic, volatile, hw, sw):
        return s.sload(ex, st, reg, off, n, inst, atomic or volatile)
    def symoff_load(s, ex, st, reg, off, n, inst, atomic, volatile, hw, sw):
        if reg.tag != 'pool': raise NotUnderContract('symbolic offset into %s' % reg.name)
        return s.sload(ex, st, reg, off, n, inst, atomic or volatile)
    def sload(s, ex, st, reg, off, n, inst, atomic):
        g = st.ghost
        if reg.tag == 'once':
            v = fresh('once', 8); st.ghost['flagknown'] = simp(z3.Or(g['flagknown'], v != 0))
            if not atomic: ex.fail(st, 'exit', 'registration flag read non-atomically', inst)
            return v
        if reg.tag == 'findptr':
            v = fresh('findfn', 64); g['fnptr'] = v; return v
        if reg.tag not in ('ls', 'pool'): raise NotUnderContract('load of %s' % reg.name)
        base, f = s.place(ex, st, reg, off); L = s.L
        if f == L['ls_mutex'] and n == 4:
            if not atomic: ex.fail(st, 'lock', 'mutex word read non-atomically', inst)
            return s.mutex_value(st, base)
        if f == L['ls_hdr'] and n == 8:
            if s.guarded(ex, st, base, inst, 'list header'): return g['H']
            return fresh('race', 64)
        if f == L['ls_free'] and n == 1:
            if s.guarded(ex, st, base, inst, 'cleanup flag'): return g['FM']
            return fresh('race', 8)
        raise NotUnderContract('load of lock state at %s size %d' % (f, n))
    def shared_store(s, ex, st, reg, off, n, val, inst, atomic, volatile, hw, sw): s.sstore(ex, st, reg, off, n, val, inst, atomic, hw, sw)
    def symoff_store(s, ex, st, reg, off, n, val, inst, atomic, volatile, hw, sw):
        if reg.tag != 'pool': raise NotUnderContract('symbolic offset into %s' % reg.name)
        s.sstore(ex, st, reg, off, n, val, inst, atomic, hw, sw)
    def sstore(s, ex, st, reg, off, n, val, inst, atomic, hw=0, sw=0):
        g = st.ghost; L = s.L
        if reg.tag == 'findptr': g['stored'] = val; return
        if reg.tag not in ('ls', 'pool'): raise NotUnderContract('store to %s' % reg.name)
        base, f = s.place(ex, st, reg, off)
        if f == L['ls_mutex'] and n == 4:
            ex.fail(st, 'lock', 'mutex word overwritten: a concurrent change by a blocked thread is lost', inst); return
        if f == L['ls_hdr'] and n == 8:
            if s.guarded(ex, st, base, inst, 'list header'): g['H'] = simp(val)
            return
        if f == L['ls_free'] and n == 1:
            if s.guarded(ex, st, base, inst, 'cleanup flag'): g['FM'] = simp(val)
            return
        raise NotUnderContract('store to lock state at %s size %d' % (f, n))
    # buffers
    def buf(s, ex, st, reg, off, n, inst, what):
        if reg.name not in st.ghost['own']: ex.fail(st, 'memory-safety', '%s of a list buffer after it was freed or without the lock' % what, inst); return None
        if not st.ghost['held']: ex.fail(st, 'lock', '%s of a list buffer without the lock' % what, inst)
        if n % 8: raise NotUnderContract('partial access to a list buffer')
        k = keyoff(off)
        ex.require(st, z3.And(off & 7 == 0, ult(k, reg.words), *([z3.ULE(k, reg.words - n // 8)] if n > 8 else [])), 'memory-safety', '%s outside a list buffer' % what, inst)
        ex.require(st, reg.base != 0, 'memory-safety', '%s through a null list pointer' % what, inst)
        rd = st.mem[reg.name].rd
        for j in range(n // 8):
            sec = s.section(ex, st, rd, simp(k + j)) if isinstance(rd, Buf) else None
            if sec is not None and sec[0] != 'H': ex.require(st, ult(sec[1], rd.cap), 'memory-safety', '%s outside the array of %s' % (what, 'addresses' if sec[0] == 'P' else 'wait states'), inst)
        return k
    def section(s, ex, st, rd, k):
        """which array of the buffer word k belongs to"""
        sec = rd.section(k)
        if rd.cap is None or sec is not None and sec[0] in 'HW': return sec
        if sec is None or any(x[1].get_id() in ids for x in linear(k)[1].values() for ids in [{v[1].get_id() for v in ex.phisub.values()}]):
            if prove(st.pc, z3.UGE(k, 2 + rd.cap))[0] == 'proved': return 'W', simp(k - 2 - rd.cap)
            if prove(st.pc, z3.And(z3.UGE(k, 2), ult(k, 2 + rd.cap)))[0] == 'proved': return 'P', simp(k - 2)
            return None
        return sec
    def array_load(s, ex, st, reg, off, n, inst):
        k = s.buf(ex, st, reg, off, n, inst, 'read')
        if k is None: return fresh('uaf', 8 * n)
        rd = st.mem[reg.name].rd
        if getattr(reg, 'first', False) and st.ghost['snap'] is not None and st.ghost['snap'].reg == reg.name and not z3.is_bv_value(k):
            s.term(ex, st, s.idx_of(ex, st, rd, k))
        R = (lambda x: rd.read(x, s.section(ex, st, rd, x))) if isinstance(rd, Buf) else rd
        return simp(concat_le([R(simp(k + i)) for i in range(n // 8)]))
    def idx_of(s, ex, st, rd, k):
        sec = s.section(ex, st, rd, k) if isinstance(rd, Buf) else None
        return sec[1] if sec is not None else simp(k - 2)
    def array_store(s, ex, st, reg, off, n, val, inst):
        k = s.buf(ex, st, reg, off, n, inst, 'write')
        if k is None: return
        for i in range(n // 8):
            rd = st.mem[reg.name].rd; a = simp(k + i), extract(val, 64 * i, 64)
            sec = s.section(ex, st, rd, a[0]) if isinstance(rd, Buf) else None
            st.ghost['#wr'] = (st.ghost.get('#wr') or ()) + ((reg.name, a[0], sec, a[1]),)
            st.mem[reg.name] = ArrContent(rd.upd(*a, sec) if isinstance(rd, Buf) else upd(rd, *a))
    def range_keys(s, ex, st, p, n, inst, what):
        reg, off = ex.decompose(p)
        if reg is None or reg.kind != 'array': raise NotUnderContract('%s of unknown memory' % what)
        if reg.name not in st.ghost['own']: ex.fail(st, 'memory-safety', '%s of a list buffer after it was freed' % what, inst); return None, None, None
        k = keyoff(off); nk = keyoff(n)
        z = lambda e: e
        ex.require(st, z3.Or(n == 0, z3.And(off & 7 == 0, n & 7 == 0, z3.ULE(z(k), reg.words), z3.ULE(z(nk), reg.words - z(k)))), 'memory-safety', '%s outside a list buffer' % what, inst)
        ex.require(st, z3.Or(n == 0, reg.base != 0), 'memory-safety', '%s through a null pointer' % what, inst)
        return reg, k, nk
    def sym_memset(s, ex, st, p, v, n, inst):
        reg, k, nk = s.range_keys(ex, st, p, n, inst, 'fill')
        if reg is None: return
        v = concat_le([v] * 8); old = st.mem[reg.name].rd; c = lambda i: v
        if isinstance(old, Buf):
            st.mem[reg.name] = ArrContent(old.range(k, nk, c, c, c, (v, v), s.inarray(ex, st, old, k, nk, inst, 'fill'))); return
        st.mem[reg.name] = ArrContent(lambda q: z3.If(ult(q - k, nk), v, old(q)))
    def inarray(s, ex, st, rd, k, nk, inst, what):
        """a range of words is the whole buffer (True) or has to stay within one of the two arrays"""
        sec = rd.section(k)
        if sec is None or rd.cap is None: return False
        if sec[0] == 'H': return z3.is_bv_value(sec[1]) and sec[1].as_long() == 0 and prove(st.pc, nk == 2 + 2 * rd.cap)[0] == 'proved'
        ex.require(st, z3.Or(nk == 0, z3.And(z3.ULE(sec[1], rd.cap), z3.ULE(nk, rd.cap - sec[1]))), 'memory-safety', '%s outside the array of %s' % (what, 'addresses' if sec[0] == 'P' else 'wait states'), inst)
        return False
    def sym_memcpy(s, ex, st, d, src, n, inst):
        rs, ks, n2 = s.range_keys(ex, st, src, n, inst, 'copy')
        reg, k, nk = s.range_keys(ex, st, d, n, inst, 'copy')
        if reg is None or rs is None: return
        if reg is rs: raise NotUnderContract('copy within a buffer')
        old = st.mem[reg.name].rd; so = st.mem[rs.name].rd; f = lambda q: so(simp(q - k + ks))
        if isinstance(old, Buf) and isinstance(so, Buf):
            a, b = old.section(k), so.section(ks)
            w1 = s.inarray(ex, st, old, k, nk, inst, 'copy'); w2 = s.inarray(ex, st, so, ks, nk, inst, 'copy')
            if a is not None and b is not None and a[0] != 'H' and b[0] != 'H':
                g = lambda i: (so.P if b[0] == 'P' else so.W)(simp(i - a[1] + b[1]))
                st.mem[reg.name] = ArrContent(old.range(k, nk, f, g, g, None, False)); return
            st.mem[reg.name] = ArrContent(Buf(old.cap, lambda q: z3.If(ult(q - k, nk), f(q), old(q)))); return
        st.mem[reg.name] = ArrContent(lambda q: z3.If(ult(q - k, nk), f(q), old(q)))
    # wait states
    def wsfield(s, ex, st, p, n, inst, what):
        root, off = ex.split_const(p); L = s.L
        if root is None: ex.fail(st, 'memory-safety', '%s through a null pointer' % what, inst); return None, None
        fld = {L['ws_ref']: 'ref', L['ws_idx']: 'idx', L['ws_cond']: 'cond', L['ws_wc']: 'wc'}.get(off)
        if fld is None or n * 8 != WBITS[fld]: raise NotUnderContract('%s of %d bytes at %s' % (what, n, p))
        g = st.ghost
        if g['held']:
            ex.require(st, st.mem['ws.live'].rd(root) == 1, 'memory-safety', '%s of a wait state that is not alive' % what, inst)
        else:
            # outside the lock only the caller's own handle is known to stay
            if not s.m['kind'].startswith('wait') or s.m.get('null'): ex.fail(st, 'memory-safety', '%s of a wait state without the lock' % what, inst)
            else: ex.require(st, root == s.wsp, 'memory-safety', '%s of a wait state without the lock' % what, inst)
            if fld != 'cond': ex.fail(st, 'lock', '%s of a guarded field without the lock' % what, inst)
        return root, fld
    def heap_load(s, ex, st, p, n, inst, atomic=False):
        root, fld = s.wsfield(ex, st, p, n, inst, 'read')
        if root is None: return fresh('bad', 8 * n)
        if not st.ghost['held']: return fresh('shared_' + fld, 8 * n)
        v = simp(st.mem['ws.' + fld].rd(root))
        if fld == 'idx' and st.ghost['snap'] is not None: s.term(ex, st, st.ghost['snap'].idx(root))
        return v
    def heap_store(s, ex, st, p, n, val, inst):
        root, fld = s.wsfield(ex, st, p, n, inst, 'write')
        if root is None: return
        if fld == 'cond' and not s.fresh_ws(st, root): ex.fail(st, 'notify', 'notification counter written non-atomically', inst)
        st.mem['ws.' + fld] = ArrContent(upd(st.mem['ws.' + fld].rd, root, val))
    def fresh_ws(s, st, root): return any(root.eq(q) for q in st.ghost['news'])
    # ---------------------------------------------------------------- mutex
    def mutex_value(s, st, base):
        v = fresh('mutex', 32)
        if st.ghost['held']: st.pc.append(z3.Implies(st.ghost['elem'] == base, v & 1 == 1))
        return v
    def target(s, ex, st, p, n, inst):
        root, off = ex.decompose(p)
        if root is not None and root.kind == 'shared':
            if root.tag == 'once': return 'once', root
            if root.tag == 'findptr': return 'findptr', root
            o = off.as_signed_long() if z3.is_bv_value(off) else off
            if root.tag == 'pool' and isinstance(o, int): pass
            base, f = s.place(ex, st, root, o)
            if f == s.L['ls_mutex'] and n == 4: return 'mutex', base
            raise NotUnderContract('atomic instruction on lock state field')
        if root is not None and root.kind in ('local', 'param', 'global'): return 'local', None
        if root is None:
            r, o = ex.split_const(p)
            if r is not None and o == s.L['ws_cond'] and n == 4: return 'cond', r
        raise NotUnderContract('atomic instruction on %s' % p)
    def transition(s, ex, st, base, rd, wr, hw, inst):
        """successful atomic change of a mutex word; rd may be any value the word can have"""
        g = st.ghost
        one = lambda e, b: (e & b) == b
        mark = z3.And(one(rd, 1), wr == rd | 2)
        if not g['held']:
            acq = z3.And(rd & 1 == 0, wr == rd | 1)
            r = prove(st.pc, acq)[0]
            if r == 'proved':
                ex.count('mutex')
                if not (hw & A): ex.fail(st, 'mutex', 'lock acquired without acquire ordering', inst)
                else: ex.count('mutex')
                g['held'] = 1; g['elem'] = simp(base); s.on_acquire(ex, st, inst); return
            if prove(st.pc, mark)[0] == 'proved': ex.count('mutex'); return
            clear = z3.And(g['sigzero'], rd == g['relval'], rd & 1 == 0, wr == rd & ~bv(2, 32))
            ex.require(st, clear, 'mutex', 'mutex word changed in a way that neither locks a free lock, marks a held one contended, nor clears a contention mark found stale', inst)
            return
        if prove(st.pc + [g['elem'] == base], mark)[0] == 'proved': ex.count('mutex'); g['marked'] = TRUE; return
        ex.require(st, g['elem'] == base, 'mutex', 'another lock released than the one held', inst)
        rel = wr & 1 == 0
        if prove(st.pc, rel)[0] != 'proved':
            ex.require(st, mark, 'mutex', 'mutex word of a held lock corrupted', inst); return
        ex.require(st, rd & 2 == wr & 2, 'mutex', 'release drops or invents the contention mark', inst)
        ex.require(st, z3.LShR(rd, 2) != z3.LShR(wr, 2), 'mutex', 'release does not advance the counter that distinguishes lock holders', inst)
        if not (hw & R): ex.fail(st, 'mutex', 'lock released without release ordering', inst)
        else: ex.count('mutex')
        s.on_release(ex, st, inst)
        g['held'] = 0; g['mustwake'] = simp(one(rd, 2)); g['relval'] = simp(wr); g['sigzero'] = FALSE
    def on_acquire(s, ex, st, inst):
        g = st.ghost; k = s.m['kind']
        ex.require(st, z3.Not(g['mustwake']), 'mutex', 'lock released while threads were blocked on it and nobody was woken', inst)
        if k in ('lock', 'fence'): return
        if k == 'cleanup': s.acquire_content(ex, st); s.cleanup_acquired(ex, st); return
        if k.startswith('wait'):
            ex.require(st, g['elem'] == s.ls.base, 'mutex', 'another lock acquired after waiting', inst)
            if g['phase'] != 1: ex.fail(st, 'mutex', 'lock acquired more than once', inst)
            g['phase'] = 2
            s.acquire_content(ex, st)
            if not s.m.get('null'): s.assume_active(ex, st)
            s.snap0 = None
            return
        ex.fail(st, 'mutex', 'unexpected acquisition of a lock', inst)
    def on_release(s, ex, st, inst):
        g = st.ghost; k = s.m['kind']
        if k in ('unlock', 'fence'): pass
        elif k == 'cleanup': s.cleanup_release(ex, st)
        elif k.startswith('wait'):
            if g['phase'] != 0: ex.fail(st, 'mutex', 'lock released again after waiting', inst)
            g['phase'] = 1
            F = s.check_inv(ex, st, 'when the lock is given up')
            S = g['snap']
            if s.m.get('null'): s.keep(ex, st, F, lambda w: FALSE, 'table', 'wait')
            else:
                w = s.wsp
                ex.require(st, F.wc(w) == S.wc(w) + 1, 'notify', 'waiting thread not counted before the lock is given up: a notification would not wake it', inst)
                ex.require(st, z3.And(F.ref(w) == S.ref(w), F.cond(w) == S.cond(w), F.idx(w) == S.idx(w)), 'table', 'wait changes the reference count, notification counter or index', inst)
                s.keep(ex, st, F, lambda q: q == w, 'table', 'wait')
                g['condrel'] = simp(F.cond(w))
        else: ex.fail(st, 'mutex', 'lock released by a function that has to keep it', inst)
        s.drop(st)
    def drop(s, st):
        g = st.ghost
        for n in list(st.mem):
            if n.startswith('buf!'): del st.mem[n]
        for f in WS: st.mem['ws.' + f] = ArrContent(unknown)
        g['H'] = bv(0, 64); g['FM'] = bv(0, 8); g['snap'] = None; g['own'] = (); g['news'] = (); g['#terms'] = (); g['found'] = None; g['marked'] = FALSE
    def cond_rmw(s, ex, st, root, f, inst):
        g = st.ghost
        if not g['held']: ex.fail(st, 'lock', 'notification counter changed without the lock', inst); return fresh('bad', 32)
        ex.require(st, st.mem['ws.live'].rd(root) == 1, 'memory-safety', 'notification of a wait state that is not alive', inst)
        old = simp(st.mem['ws.cond'].rd(root)); new = simp(f(old))
        st.mem['ws.cond'] = ArrContent(upd(st.mem['ws.cond'].rd, root, new))
        return old
    def do_rmw(s, ex, st, p, n, f, inst, hw):
        k, b = s.target(ex, st, p, n, inst)
        if k == 'mutex':
            rd = s.mutex_value(st, b); s.transition(ex, st, b, rd, simp(f(rd)), hw, inst); return rd
        if k == 'cond': return s.cond_rmw(ex, st, b, f, inst)
        if k == 'once':
            rd = fresh('once', 8); wr = simp(f(rd)); g = st.ghost
            ex.require(st, wr != 0, 'exit', 'registration flag cleared', inst)
            g['flagset'] = simp(z3.Or(g['flagset'], rd == 0)); g['flagknown'] = TRUE
            return rd
        if k == 'local':
            v = ex.mem_load(st, p, 8 * n, inst); ex.mem_store(st, p, simp(f(v)), inst); return v
        raise NotUnderContract('atomic read-modify-write of %s' % k)
    def rmw(s, ex, st, p, n, f, inst, hw): st.env[inst.dst] = s.do_rmw(ex, st, p, n, f, inst, hw)
    def asm_rmw(s, ex, st, p, n, f, inst, lock, memclob):
        k, b = s.target(ex, st, p, n, inst)
        if k == 'local':
            if lock: ex.emit(st, Ev('fence', hw=7, sw=7 if memclob else 0))
        elif not lock: ex.fail(st, 'mutex', 'read-modify-write instruction without lock prefix', inst)
        return s.do_rmw(ex, st, p, n, f, inst, 7 if memclob else 0)
    def do_cas(s, ex, st, p, n, e, d, inst, hw, fhw, weak):
        k, b = s.target(ex, st, p, n, inst)
        out = []
        s2 = st.copy()
        if k == 'mutex':
            if st.ghost['held']: st.pc.append(z3.Implies(st.ghost['elem'] == b, e & 1 == 1))
            if check(st.pc)[0] != 'unsat':
                s.transition(ex, st, b, e, d, hw, inst); out.append((True, e, st))
            v = s.mutex_value(s2, b)
            if not weak: s2.pc.append(v != e)
            if check(s2.pc)[0] != 'unsat': out.append((False, v, s2))
            return out
        if k == 'once':
            st.ghost['flagset'] = simp(z3.Or(st.ghost['flagset'], e == 0)); st.ghost['flagknown'] = TRUE
            ex.require(st, d != 0, 'exit', 'registration flag cleared', inst)
            v = fresh('once', 8)
            if not weak: s2.pc.append(v != e)
            s2.ghost['flagknown'] = simp(z3.Or(s2.ghost['flagknown'], v != 0))
            return [(True, e, st), (False, v, s2)]
        raise NotUnderContract('compare-exchange of %s' % k)
    def cmpxchg(s, ex, st, p, c, n, inst, weak, hw, fhw):
        out = []
        for ok, old, x in s.do_cas(ex, st, p, c.size() // 8, c, n, inst, hw, fhw, weak):
            x.env[inst.dst] = (old, bv(1 if ok else 0, 1)); out.append(x)
        return out
    def asm_cas(s, ex, st, p, n, e, d, inst, lock, memclob):
        if not lock: ex.fail(st, 'mutex', 'cmpxchg without lock prefix', inst)
        return s.do_cas(ex, st, p, n, e, d, inst, 7 if memclob else 0, 7, False)
    # ---------------------------------------------------------------- time
    def adv(s, st, base, atleast=()):
        if not s.dl: return
        g = st.ghost; k = 'lb_' + base; n = fresh(k, T128); st.pc += [n >= g[k], n < T(LIM)]
        for c, b in atleast: st.pc.append(z3.Implies(c, n >= b))
        g[k] = n
    def reading(s, ex, st, base):
        g = st.ghost; r = fresh('now_' + base, 64)
        if not s.dl: return r
        rn = sx(r); st.pc += [rn < T(LIM), rn >= 0]; k = 'lb_' + base
        if base == 'mono': st.pc.append(rn >= g[k]); g[k] = rn
        else: n = fresh(k, T128); st.pc.append(n == z3.If(rn > g[k], rn, g[k])); g[k] = n
        if base == s.base(): g['ln'] = rn
        return r
    def base(s):
        k = s.m['kind']
        if k == 'wait_until': return {0: 'real', 1: 'mono', None: 'other'}[s.m['clock']]
        return 'mono'
    def late(s, D, t): return z3.Or(t <= D + T(SLACK), D >= T(LIM))
    def timespec(s, ex, st, p, inst):
        sec = ex.mem_load(st, p, 64, inst); ns = ex.mem_load(st, p + bv(8, 64), 64, inst)
        if not s.dl: return T(0)
        ok = z3.And(sec >= 0, ns >= 0, ns < bv(NS, 64))
        ex.require(st, ok, 'deadline', 'time given to the operating system is not well formed', inst); st.pc.append(ok)
        return simp(sx(sec) * T(NS) + sx(ns))
    # ---------------------------------------------------------------- calls
    def call(s, ex, st, name, args, inst):
        g = st.ghost
        if name == '__assert_fail': ex.fail(st, 'assertion', 'assertion can fail', inst); return []
        if name in ('__clang_call_terminate', '_ZSt9terminatev', 'abort'): ex.fail(st, 'assertion', 'program terminated', inst); return []
        if name == '__errno_location': st.env[inst.dst] = s.errno.base; return
        if name == '_ZNSt6chrono3_V212steady_clock3nowEv': st.env[inst.dst] = s.reading(ex, st, 'mono'); return
        if name in ('sched_yield', 'nanosleep', 'usleep'):
            if g['held']: ex.fail(st, 'lock', 'sleeps while holding the lock', inst)
            if name == 'nanosleep':
                t = s.timespec(ex, st, args[0], inst); ex.require(st, t <= T(10 ** 7), 'deadline', 'pause of more than 10 ms', inst)
            s.adv(st, 'mono')
            if inst.dst: st.env[inst.dst] = fresh('ret', 32)
            return
        if name == 'clock_gettime':
            cid = simp(args[0])
            if z3.is_bv_value(cid): b = {0: 'real', 1: 'mono'}.get(cid.as_signed_long())
            else:
                b = 'other'
                if not hasattr(s, 'cid') or not cid.eq(s.cid): b = None
            if b is None: raise NotUnderContract('clock_gettime(%s)' % cid)
            if z3.is_bv_value(cid): bads = []
            else:
                bad = st.copy(); ex.store_bytes(bad, s.errno, 0, fresh('errno', 32)); bad.env[inst.dst] = bv(0xffffffff, 32)
                # a clock that could be read once can be read again
                bad.pc.append(z3.Bool('clock_ok') == FALSE); st.pc.append(z3.Bool('clock_ok')); bads = [x for x in [bad] if check(x.pc)[0] != 'unsat']
            r = s.reading(ex, st, b)
            sec, ns = fresh('sec', 64), fresh('nsec', 64)
            st.pc.append(z3.And(sec >= 0, ns >= 0, ns < bv(NS, 64)))
            if s.dl: st.pc.append(sx(sec) * T(NS) + sx(ns) == sx(r))
            ex.mem_store(st, args[1], sec, inst); ex.mem_store(st, args[1] + bv(8, 64), ns, inst)
            st.env[inst.dst] = bv(0, 32)
            return [st] + bads
        if 'find_address' in name: return s.find_contract(ex, st, args, inst)
        if name == 'syscall': return s.syscall(ex, st, args, inst)
        if name == 'atexit':
            ex.require(st, g['flagset'], 'exit', 'exit cleanup registered by a thread that did not set the registration flag', inst)
            reg = ex.reg_of_base(args[0]) if z3.is_const(simp(args[0])) else None
            if reg is None or reg.name[1:] != s.m['cleanup']: ex.fail(st, 'exit', 'something else than the cleanup function registered', inst)
            g['flagset'] = FALSE; st.env[inst.dst] = fresh('ret', 32); return
        if name in ('posix_memalign', 'aligned_alloc'): return s.alloc(ex, st, name, args, inst)
        if name == 'free': return s.free(ex, st, args[0], inst)
        if name in ('_ZnwmRKSt9nothrow_t',): return s.new(ex, st, args, inst)
        if name in ('_ZdlPvm', '_ZdlPv', '_ZdlPvRKSt9nothrow_t'): return s.delete(ex, st, args[0], inst)
        raise NotUnderContract('call to %s' % name)
    def indirect(s, ex, st, fp, args, inst):
        g = st.ghost
        if g['fnptr'] is None or not simp(fp).eq(g['fnptr']): raise NotUnderContract('indirect call')
        return s.find_contract(ex, st, args, inst)
    def find_contract(s, ex, st, args, inst):
        g = st.ghost
        if not g['held']: ex.fail(st, 'lock', 'table searched without the lock', inst)
        reg, off = ex.decompose(args[1])
        if reg is None or reg.kind != 'array' or reg.name not in g['own']: ex.fail(st, 'memory-safety', 'search in memory that is no live list buffer', inst); st.env[inst.dst] = fresh('r', 64); return
        rd = st.mem[reg.name].rd; n = args[2]; a = args[0]; k = keyoff(off); z = k
        # the search functions may read whole vectors: the array extends to an even number of entries
        ex.require(st, z3.And(off & 15 == 0, reg.base != 0, z3.ULE(n, bv(MAXCAP, 64)), z3.ULE(z + n, reg.words)), 'memory-safety', 'search outside a list buffer or in a misaligned array', inst)
        r = fresh('found', 64)            # proved for every search function by C13
        at = lambda i: rd.read(simp(k + i), s.section(ex, st, rd, simp(k + i))) if isinstance(rd, Buf) else rd(simp(k + i))
        st.pc.append(z3.Implies(ult(r, n), at(r) == a))
        S = g['snap']; s.term(ex, st, r)
        for t in g['#terms']: st.pc.append(z3.Implies(z3.And(z3.UGE(r, n), ult(t, n)), at(t) != a))
        st.env[inst.dst] = r
    def alloc(s, ex, st, name, args, inst):
        g = st.ghost
        if not g['held']: raise NotUnderContract('allocation without the lock')
        al, sz = (args[1], args[2]) if name == 'posix_memalign' else (args[0], args[1])
        if s.m['kind'] != 'alloc': ex.fail(st, 'table', 'allocation in a function that must not allocate', inst)
        ex.require(st, g['flagknown'], 'exit', 'table allocated although exit cleanup was never registered', inst)
        ex.require(st, z3.Not(g['flagset']), 'exit', 'table allocated although exit cleanup was not registered by the thread that set the registration flag', inst)
        ex.require(st, z3.And(al & (al - 1) == 0, z3.UGE(al, 16), sz & 7 == 0, sz != 0), 'memory-safety', 'buffer alignment too small or size not whole entries', inst)
        bad = st.copy(); bad.ghost['oom'] = TRUE
        n = _uid(); reg = Region('buf!n%d' % n, 'array'); ex.add_region(reg); reg.words = simp(z3.LShR(sz, 3))
        f = UF(reg.name, [64], 64); q0 = lambda k: f(k); c = divided(simp(sz - bv(16, 64)), 16)
        st.mem[reg.name] = ArrContent(q0)
        st.pc += [reg.base != 0, reg.base & 15 == 0, z3.ULE(sz, bv(1 << 47, 64))]
        g['own'] = g['own'] + (reg.name,)
        if name == 'posix_memalign':
            ex.mem_store(st, args[0], reg.base, inst); st.env[inst.dst] = bv(0, 32); e = fresh('ret', 32); bad.pc.append(e != 0); bad.env[inst.dst] = e
        else: st.env[inst.dst] = reg.base; bad.env[inst.dst] = bv(0, 64)
        if c is not None and prove(st.pc, z3.And(reg.words == 2 + 2 * c, z3.ULE(c, bv(MAXCAP, 64))))[0] == 'proved': st.mem[reg.name] = ArrContent(Buf(c, q0)); reg.words = simp(2 + 2 * c)
        out = [bad]
        if check(st.pc)[0] != 'unsat': out.append(st)
        return out
    def free(s, ex, st, p, inst):
        g = st.ghost; p = simp(p)
        if z3.is_bv_value(p) and p.as_long() == 0: return
        reg = ex.reg_of_base(p) if z3.is_const(p) else None
        if reg is None or reg.kind != 'array': ex.fail(st, 'memory-safety', 'free of something that is not a list buffer', inst); return
        if reg.name not in g['own']: ex.fail(st, 'memory-safety', 'list buffer freed twice', inst); return
        ex.count('memory-safety')
        g['own'] = tuple(x for x in g['own'] if x != reg.name)
    def new(s, ex, st, args, inst):
        g = st.ghost
        if not g['held']: raise NotUnderContract('allocation without the lock')
        ex.require(st, z3.UGE(args[0], s.L['ws_size']), 'memory-safety', 'wait state allocated too small', inst)
        bad = st.copy(); bad.ghost['oom'] = TRUE; bad.env[inst.dst] = bv(0, 64)
        q = fresh('newws', 64); lv = st.mem['ws.live'].rd
        st.pc += [q != 0, lv(q) == 0]
        for x in g['news']: st.pc.append(q != x)
        S = g['snap']
        if S is not None: st.pc.append(S.live(q) == 0)
        st.mem['ws.live'] = ArrContent(upd(lv, q, bv(1, 1))); g['news'] = g['news'] + (q,)
        st.env[inst.dst] = q
        return [st, bad]
    def delete(s, ex, st, p, inst):
        g = st.ghost; p = simp(p)
        if z3.is_bv_value(p) and p.as_long() == 0: return
        if not g['held']: ex.fail(st, 'lock', 'wait state freed without the lock', inst); return
        lv = st.mem['ws.live'].rd
        ex.require(st, z3.Or(p == 0, lv(p) == 1), 'memory-safety', 'wait state freed twice or never allocated', inst)
        ex.require(st, z3.Or(p == 0, st.mem['ws.ref'].rd(p) == 0), 'exit', 'wait state freed while a thread uses it', inst)
        st.mem['ws.live'] = ArrContent(upd(lv, p, bv(0, 1)))
    def syscall(s, ex, st, args, inst):
        g = st.ghost; L = s.L; k = s.m['kind']
        nr, op = simp(args[0]), simp(args[2])
        if not z3.is_bv_value(nr) or nr.as_long() != 202 or not z3.is_bv_value(op): raise NotUnderContract('system call %s' % nr)
        op = op.as_long(); priv = bool(op & 128); rt = bool(op & 256); op &= 127
        if not priv: ex.fail(st, 'notify', 'waiting and notifying use different futex spaces (private and shared)', inst)
        else: ex.count('notify')
        t, b = s.target(ex, st, args[1], 4, inst)
        if t not in ('mutex', 'cond'): raise NotUnderContract('futex on %s' % t)
        ret = fresh('sysret', 32); r64 = z3.SignExt(32, ret); err = fresh('errno', 32); st.pc.append(err != 0)
        failed = ret == bv(-1, 32); st.pc.append(z3.Or(failed, ret >= 0))
        old = ex.load_bytes(st, s.errno, 0, 4)
        ex.store_bytes(st, s.errno, 0, simp(z3.If(failed, err, old)))
        st.env[inst.dst] = r64
        if op == 1:
            n = extract(args[3], 0, 32)
            if t == 'mutex':
                st.pc.append(z3.Or(failed, ret >= 0))
                if not g['held']:
                    ex.require(st, n >= 1, 'mutex', 'wakes no thread on release', inst)
                    g['mustwake'] = FALSE
                    g['sigzero'] = simp(ret == 0)
                return
            s.wake(ex, st, b, n, bv(0, 32), inst); st.pc.append(z3.Or(failed, ret >= 0)); return
        if op == 3:
            if t != 'cond': raise NotUnderContract('requeue from a mutex')
            n = extract(args[3], 0, 32); q = extract(args[4], 0, 32) if args[4].size() > 32 else args[4]
            t2, b2 = s.target(ex, st, args[5], 4, inst)
            if t2 != 'mutex': ex.fail(st, 'notify', 'threads moved to another futex than the mutex', inst); return
            ex.require(st, b2 == g['elem'], 'notify', 'threads moved to the mutex of another element', inst)
            s.wake(ex, st, b, n, q, inst); st.pc.append(z3.Or(failed, ret >= 0)); return
        if op not in (0, 9): raise NotUnderContract('futex operation %d' % op)
        val = extract(args[3], 0, 32); ts = simp(args[4]); isnull = z3.is_bv_value(ts) and ts.as_long() == 0
        if g['held']: ex.fail(st, 'lock', 'blocks while holding the lock', inst)
        ex.require(st, z3.Not(g['mustwake']), 'mutex', 'blocks after a release that has not woken the threads blocked on the lock', inst)
        if t == 'mutex':
            ex.require(st, (val & 3) == 3, 'mutex', 'blocks on the lock although it may be free or not marked contended: the wakeup can be lost', inst)
            if not isnull: s.timespec(ex, st, ts, inst)
            s.adv(st, 'mono'); s.adv(st, 'real'); s.adv(st, 'other'); return
        if not k.startswith('wait') or s.m.get('null'): ex.fail(st, 'block', 'blocks on a wait state', inst); return []
        ex.require(st, b == s.wsp, 'block', 'blocks on the wait state of another address', inst)
        if g['phase'] != 1: ex.fail(st, 'block', 'blocks outside the window in which the lock is given up', inst)
        ex.require(st, val == g['condrel'], 'block', 'blocks with a notification count other than the one seen under the lock: a notification can be lost', inst)
        if op == 9 and len(args) > 6: ex.require(st, extract(args[6], 0, 32) != 0, 'block', 'empty futex bit mask', inst)
        tout = z3.And(failed, err == ETIMEDOUT)
        if isnull:
            if k != 'wait': ex.fail(st, 'deadline', 'timed wait blocks without a timeout', inst)
            st.pc.append(z3.Implies(failed, err != ETIMEDOUT)); s.adv(st, 'mono'); return
        if k == 'wait': ex.fail(st, 'block', 'untimed wait uses a timeout', inst)
        tv = s.timespec(ex, st, ts, inst)
        if not s.dl: return
        if op == 9:
            cb = 'real' if rt else 'mono'
            if k != 'wait_until' or cb != s.base(): ex.fail(st, 'deadline', 'absolute deadline of one clock given to the operating system as another clock', inst)
            else: ex.require(st, s.late(s.D, tv), 'deadline', 'deadline given to the operating system is too late', inst)
            s.adv(st, cb, [(tout, tv)])
        else:
            if k == 'wait_for': ex.require(st, s.late(sx(s.rel), tv), 'deadline', 'duration given to the operating system is too long', inst)
            elif k == 'wait_until':
                if 'ln' not in g or g['ln'] is None: ex.fail(st, 'deadline', 'duration computed without reading the clock', inst)
                else: ex.require(st, s.late(s.D, tv + g['ln']), 'deadline', 'duration given to the operating system is too long', inst)
            m0 = g['lb_mono']; s.adv(st, 'mono', [(tout, simp(m0 + tv))])
            if s.base() != 'mono': s.adv(st, s.base())
    def wake(s, ex, st, w, n, q, inst):
        g = st.ghost
        if s.m['kind'] != 'notify' or not g['held']: ex.fail(st, 'notify', 'wakes waiting threads outside a notification or without the lock', inst); return
        S = g['snap']; F = s.final(st)
        ex.require(st, z3.And(S.H != 0, ult(S.idx(w), S.size), S.W(S.idx(w)) == w, S.P(S.idx(w)) == s.addr), 'notify', 'wakes threads that wait for another address', inst)
        ex.require(st, F.cond(w) != S.cond(w), 'notify', 'wakes threads before advancing the notification counter: a thread about to block misses it', inst)
        z = lambda e: z3.ZeroExt(32, z3.If(e < 0, bv(0, 32), e))
        g['nwake'] = simp(g['nwake'] + z(n) + z(q)); g['requeued'] = simp(z3.Or(g['requeued'], q > 0))
    # ---------------------------------------------------------------- loops
    def loop_candidates(s, ex, ent, hv, hvmap, L):
        out = []
        for l in L:
            if l[0] == 'ghost' and l[1].startswith('lb_'):
                v = hvmap[l]; out += [('%s does not go back' % l[1], v >= ex.loc_val(ent, l)), ('in range', v < T(LIM)), ('not negative', v >= 0)]
        if s.m['kind'] == 'cleanup':
            st_, n = s.L['stride'], s.L['pool'] // s.L['stride']; base = s.pool.base if s.pool is not None else bv(0, 64)
            pos = []                                # (name, loop variable as an offset into the pool, as an index if it is one)
            for l in L:
                if l[0] == 'ghost' or z3.is_bool(hvmap[l]) or hvmap[l].size() != 64: continue
                v = hvmap[l]; q = ex.phisub.get(v.get_id())
                if q is not None and q[0].eq(v): pos.append(('element', q[1] * bv(st_, 64), q[1])); continue
                pos += [('index', v * bv(st_, 64), v), ('offset', v, None), ('pointer', v - base, None)]
            d = hvmap.get(('ghost', 'doneK')); k = s.kelem(); inr = ult(k, bv(s.L['pool'], 64))
            for nm, o, i in pos:
                if i is not None: out += [(nm + ' in range', z3.ULE(i, bv(n, 64))), (nm + ' inside', ult(i, bv(n, 64))), (nm + ' in range going down', ult(i + 1, bv(n + 1, 64)))]
                else: out += [(nm + ' in range', z3.ULE(o, bv(s.L['pool'], 64))), (nm + ' inside', ult(o, bv(s.L['pool'], 64))), (nm + ' aligned', o & (st_ - 1) == 0)]
                if d is not None: out += [('done == below ' + nm, d == ult(k, o)), ('done == from %s up' % nm, d == z3.And(inr, z3.UGE(k, o))), ('done == above ' + nm, d == z3.And(inr, z3.UGT(k, o))), ('done == below end after ' + nm, d == ult(k, o + bv(st_, 64)))]
        for l in L:
            if l[0] == 'ghost' or z3.is_bool(hvmap[l]): continue
            v = hvmap[l]; g = ent.ghost; S = g['snap']
            if v.size() == 64 and S is not None:
                F = S
                if g['held']:
                    try: F = s.final(ent)
                    except NotUnderContract: pass
                    H = simp(g['H']); reg = ex.decompose(simp(v))[0] if z3.is_const(H) else None
                    if reg is not None and reg.kind == 'array': i = simp(keyoff(simp(v - reg.base)) - 2); out += [('index', z3.ULE(i, F.cap)), ('index', z3.ULE(i, F.size)), ('index', z3.UGE(i - F.cap, F.size)), ('index', z3.ULE(i - F.cap, F.cap)), ('index', z3.ULE(i - F.cap, F.size))]
                out += [('at most capacity', z3.ULE(v, F.cap)), ('at least size', z3.UGE(v, F.size)), ('at most size', z3.ULE(v, F.size))]
            if v.size() == 32 and not g['held']: out.append(('mutex marked', v & 3 == 3))
        X = s.loopvars(ex, hv, [l[1] for l in L if l[0] == 'phi'])
        caps = {}
        for c in hv.mem.values():
            if isinstance(c, ArrContent) and isinstance(c.rd, Buf):
                for e in (c.rd.cap, c.rd.h[0]): caps[simp(e).get_id()] = simp(e)
        if len(X) <= 6:
            for j, (v, at) in enumerate(X):
                out += [('not before its start', z3.UGE(v, at(ent))), ('not after its start', z3.ULE(v, at(ent)))]
                for e in caps.values(): out += [('at most', z3.ULE(v, e)), ('word at most', z3.ULE(v, e + 2)), ('word at least', z3.UGE(v, e + 2))]
                for e in caps.values():
                    for e2 in caps.values(): out.append(('word of second array at most', z3.ULE(v, e + e2 + 2)))
                for v2, at2 in X[:j]: out += [('same distance', v - at(ent) == v2 - at2(ent)), ('opposite distance', v - at(ent) == at2(ent) - v2)]
        for l in L:
            if l == ('ghost', 'ln'):
                for k in L:
                    if k[0] == 'mem' and k[3] == 8:
                        for k2 in L:
                            if k2[0] == 'mem' and k2[1] == k[1] and k2[2] == k[2] + 8:
                                out.append(('latest reading', hvmap[l] == sx(hvmap[k]) * T(NS) + sx(hvmap[k2])))
                                out.append(('well formed', z3.And(hvmap[k] >= 0, hvmap[k2] >= 0, hvmap[k2] < bv(NS, 64))))
        if s.dl and ('ghost', 'ln') in L: out.append(('latest reading in range', z3.And(hvmap[('ghost', 'ln')] >= 0, hvmap[('ghost', 'ln')] < T(LIM))))
        if s.dl:
            for l in L:
                if l == ('ghost', 'ln') and ('ghost', 'lb_' + s.base()) in hvmap: out.append(('reading is past', hvmap[('ghost', 'lb_' + s.base())] >= hvmap[l]))
        return out
    def kelem(s): return simp(s.KE * bv(s.L['stride'], 64))
    def pre_loop(s, ex, st): st.ghost['#pre'] = {n: c.rd for n, c in st.mem.items() if isinstance(c, ArrContent)}; st.ghost['#wr'] = ()
    def havoc_array(s, ex, hv, rn):
        """spare entries are released one after another: content as a function of a frontier variable"""
        g = hv.ghost; S = g['snap']
        if S is None: raise NotUnderContract('table modified in a loop without the lock')
        pre = g['#pre']; H = simp(g['H']); reg = ex.reg_of_base(H) if z3.is_const(H) else None
        f = None
        if reg is not None and 'ws.idx' in pre and g.get('#front') is not None and rn in (reg.name, 'ws.live'):
            Fsnap = Snap(H, g['FM'], pre[reg.name], **{x: pre['ws.' + x] for x in WS}); front, d = g['#front'], g['#frontdir']
            if rn == reg.name: f = lambda st: s.cleared(pre[rn], *s.frontier(st, Fsnap, front, d), Fsnap.cap)
            else:
                def f(st):
                    lo, hi = s.frontier(st, Fsnap, front, d)
                    return lambda q: z3.If(z3.And(z3.UGE(Fsnap.idx(q), lo), ult(Fsnap.idx(q), hi), Fsnap.W(Fsnap.idx(q)) == q, q != 0), bv(0, 1), pre[rn](q))
        elif rn in ex.byname and ex.byname[rn].kind == 'array' and isinstance(pre.get(rn), Buf): f = s.filled(ex, hv, rn, pre[rn])
        if f is None: raise NotUnderContract('table modified in a loop that neither counts through the spare entries nor fills an array')
        hv.mem[rn] = ArrContent(f(hv))
        g['#tmpl'] = dict(g.get('#tmpl') or {}, **{rn: f})
    def loopvars(s, ex, hv, phis):
        """[(variable, its value as a function of a state at the loop header)] for the 64-bit loop variables"""
        out = []
        for p in phis:
            v = hv.env[p]
            if isinstance(v, tuple) or z3.is_bool(v) or v.size() != 64: continue
            q = ex.phisub.get(v.get_id())
            if q is not None and q[0].eq(v): out.append((q[1], (lambda p, f: lambda st: simp(f(st.env[p])))(p, q[2])))
            else: out.append((v, (lambda p: lambda st: simp(st.env[p]))(p)))
        return out
    def filled(s, ex, hv, rn, pre):
        """a loop that writes one word per iteration, at consecutive words: the content is a function
        of the words already written.  Guessed from one execution of the body, proved at every back edge."""
        if ex.loop_last is None: return None
        hv0, phis, bps, ent = ex.loop_last
        X = s.loopvars(ex, hv0, phis)
        steps = []
        for v, at in X:
            ds = [canon(simp(at(b) - v)) for b in bps]
            steps.append(ds[0].as_signed_long() if ds and all(z3.is_bv_value(d) and d.eq(ds[0]) for d in ds) else None)
        wr = [[w for w in (b.ghost.get('#wr') or ()) if w[0] == rn] for b in bps]
        if not wr or any(len(w) != 1 for w in wr) or any(not canon(w[0][1]).eq(canon(wr[0][0][1])) for w in wr): return None
        init = [(v, at(ent)) for v, at in X]; key = wr[0][0][1]
        key0 = canon(simp(z3.substitute(key, *init))); d = canon(simp(z3.substitute(key, *[(v, at(bps[0])) for v, at in X]) - key))
        if not z3.is_bv_value(d) or d.as_signed_long() not in (1, -1): return None
        d = d.as_signed_long(); sec = pre.section(key0)
        if sec is None or sec[0] == 'H': return None
        n0 = len(ent.pc)
        def val(t):
            sub = [(v, simp(i + bv(k, 64) * t)) for (v, i), k in zip(init, steps) if k is not None]
            r = None
            for b, w in zip(bps, wr):
                e = simp(z3.substitute(w[0][3], *sub))
                r = e if r is None else z3.If(z3.substitute(z3.And(*b.pc[n0:]) if len(b.pc) > n0 else TRUE, *sub), e, r)
            return simp(r)
        def content(st):
            now = canon(simp(z3.substitute(key, *[(v, at(st)) for v, at in X])))
            lo, n = (key0, simp(now - key0)) if d > 0 else (simp(now + 1), simp(key0 - now))
            g = lambda i: val(simp((i - sec[1]) * bv(d, 64)))
            r = pre.range(canon(lo), canon(n), lambda q: val(simp((q - key0) * bv(d, 64))), g, g, None, False)
            return r
        return content
    def cleared(s, pre, lo, hi, cap):
        """wait state pointers of the entries lo..hi are null"""
        q = lambda k: z3.If(z3.And(z3.UGE(k - 2 - cap, lo), ult(k - 2 - cap, hi), z3.ULE(2 + cap, k)), bv(0, 64), pre(k))
        if not isinstance(pre, Buf): return q
        return Buf(pre.cap, q, pre.P, lambda i: z3.If(z3.And(z3.UGE(i, lo), ult(i, hi)), bv(0, 64), pre.W(i)), pre.h)
    def frontier(s, st, F, front, d):
        """range of entries already processed, from the loop counter"""
        return (F.size, front(st)) if d > 0 else (front(st), F.cap)
    def havoc_phi(s, ex, ent, hv, p):
        """a pointer that walks over the table or over a list: base + unit * k (the unit is checked at every back edge)"""
        v = ent.env[p]
        if z3.is_bool(v) or v.size() != 64: return None
        reg, off = ex.decompose(v)
        if reg is None or reg.name == 'ls': return None
        if reg.kind == 'array': unit = 8
        elif getattr(reg, 'tag', None) == 'pool': unit = s.L['stride']
        else: return None
        rem = off & (unit - 1)
        if prove(ent.pc, rem == simp(z3.URem(off, bv(unit, 64))))[0] != 'proved': return None
        fld = s.unique(ent, z3.URem(off, bv(unit, 64)))
        if fld is None: return None
        k = fresh(p, 64); hv.pc.append(ult(k, bv(2 ** 64 // unit, 64)))
        hv.ghost['#ptrphi'] = (hv.ghost.get('#ptrphi') or ()) + ((p, reg, unit, fld),)
        return simp(reg.base + bv(unit, 64) * k + bv(fld, 64)), k, lambda v: s.elemno(v, reg, unit, fld)
    def elemno(s, v, reg, unit, fld):
        o = simp(v - reg.base - bv(fld, 64)); r = divided(o, unit)
        return simp(z3.UDiv(o, bv(unit, 64))) if r is None else r
    def on_havoc(s, ex, ent, hv, phis):
        """choose the loop counter that plays the frontier"""
        S = ent.ghost['snap']
        hv.ghost['#front'] = None; hv.ghost['#tmpl'] = {}
        if S is None or simp(ent.ghost['H']) is None: return
        H = simp(ent.ghost['H']); reg = ex.reg_of_base(H) if z3.is_const(H) else None
        if reg is None or reg.name not in ent.mem: return
        F = Snap(H, ent.ghost['FM'], ent.mem[reg.name].rd, **{x: ent.mem['ws.' + x].rd for x in WS})
        for p in phis:
            v = ent.env[p]
            if isinstance(v, tuple) or z3.is_bool(v) or v.size() != 64: continue
            if any(q[0] == p for q in (hv.ghost.get('#ptrphi') or ())):
                f = (lambda p: lambda st: simp(keyoff(simp(st.env[p] - H)) - 2 - F.cap))(p); i = f(ent)
                if prove(ent.pc, i == F.size)[0] == 'proved': hv.ghost['#front'] = f; hv.ghost['#frontdir'] = 1; return
                if prove(ent.pc, i == F.cap)[0] == 'proved': hv.ghost['#front'] = f; hv.ghost['#frontdir'] = -1; return
                continue
            if prove(ent.pc, v == F.size)[0] == 'proved': hv.ghost['#front'] = (lambda p: lambda st: st.env[p])(p); hv.ghost['#frontdir'] = 1; return
            if prove(ent.pc, v == F.cap)[0] == 'proved': hv.ghost['#front'] = (lambda p: lambda st: st.env[p])(p); hv.ghost['#frontdir'] = -1; return
    def loop_neutral(s, ex, head, back):
        out = []
        g = back.ghost
        for p, reg, unit, fld in (head.ghost.get('#ptrphi') or ()):
            if p in back.env: out.append((z3.And(z3.URem(back.env[p] - reg.base, bv(unit, 64)) == fld, ult(s.elemno(simp(back.env[p]), reg, unit, fld), bv(2 ** 64 // unit, 64))), 'not-under-contract', 'pointer does not advance by whole elements'))
        if head.ghost['held'] != g['held']: out.append((FALSE, 'lock', 'lock state differs between loop iterations'))
        for rn, f in (ex.cur_tmpl or {}).items():
            c = f(back); new = back.mem[rn].rd
            if rn == 'ws.live':
                q = z3.BitVec('Kq', 64); out.append((new(q) == c(q), 'not-under-contract', 'loop over spare wait states: set of live wait states'))
            else:
                k = z3.BitVec('Kk', 64)
                if isinstance(new, Buf) and isinstance(c, Buf): goal = z3.And(z3.Implies(ult(k, c.cap), z3.And(new.P(k) == c.P(k), new.W(k) == c.W(k))), new.h[0] == c.h[0], new.h[1] == c.h[1])
                else: goal = new(k) == c(k)
                out.append((goal, 'not-under-contract', 'loop over a list: content'))
        return out
    # ---------------------------------------------------------------- cleanup
    def cleanup_acquired(s, ex, st):
        S = st.ghost['snap']
        s.term(ex, st, S.size)
    def cleanup_release(s, ex, st):
        g = st.ghost; S = g['snap']; F = s.check_inv(ex, st, 'cleanup')
        s.keep(ex, st, F, lambda w: FALSE, 'exit', 'cleanup')
        i = s.K1
        ex.require(st, F.FM != 0, 'exit', 'cleanup does not disable pooling of freed entries')
        ex.require(st, z3.Implies(S.H != 0, z3.Or(F.H == 0, F.size == S.size)), 'exit', 'cleanup changes the number of entries in use')
        ex.require(st, z3.Implies(z3.And(S.H != 0, S.size == 0), F.H == 0), 'exit', 'cleanup leaves an unused buffer allocated')
        w = S.W(i)
        ex.require(st, z3.Implies(z3.And(S.H != 0, z3.UGE(i, S.size), ult(i, S.cap), w != 0), F.live(w) == 0), 'exit', 'cleanup leaves a spare wait state allocated')
        base = s.pool.base if s.pool is not None else bv(0, 64)
        g['doneK'] = simp(z3.Or(g['doneK'], g['elem'] == base + s.kelem()))
    # ---------------------------------------------------------------- postconditions
    def finish(s, ex, outs):
        n = 0
        for kind, v, st in outs:
            if kind == 'ret': n += 1; s.post(ex, st, v)
            elif kind == 'unreachable': ex.fail(st, 'assertion', 'unreachable code can be reached')
            else: raise NotUnderContract('exception or irreducible control flow (%s)' % kind)
        STATS.paths += n; ex.npaths = n
        ex.vacuous = not any(k == 'ret' and check(st.pc)[0] == 'sat' for k, v, st in outs)
    def post(s, ex, st, ret):
        g = st.ghost; m = s.m; k = m['kind']
        heldwant = 0 if k in ('unlock', 'cleanup', 'fence', 'sfence') else 1
        if g['held'] != heldwant: ex.fail(st, 'mutex', 'returns %s the lock' % ('holding' if g['held'] else 'without holding')); return
        ex.count('mutex')
        ex.require(st, z3.Not(g['mustwake']), 'mutex', 'lock released while threads were blocked on it and nobody was woken')
        ex.require(st, z3.Not(g['flagset']), 'exit', 'registration flag set but exit cleanup not registered')
        if k == 'lock':
            ex.require(st, ret == g['elem'], 'lockmap', 'returned lock is not the one acquired')
            e = simp(g['elem'] - s.pool.base) if s.pool is not None else fresh('nopool', 64)
            ex.require(st, ult(e, bv(s.L['pool'], 64)), 'lockmap', 'selected lock outside the table')
            ex.require(st, e & (s.L['stride'] - 1) == 0, 'lockmap', 'selected address is not the start of a lock')
            s.hashes.append((st, e)); return
        if k == 'cleanup':
            ex.require(st, z3.Implies(ult(s.KE, bv(s.L['pool'] // s.L['stride'], 64)), g['doneK']), 'exit', 'cleanup skips an element of the pool'); return
        if k in ('fence', 'sfence'): return s.post_fence(ex, st)
        if k == 'unlock': return
        F = s.check_inv(ex, st, 'on return'); S = g['snap']
        if k == 'alloc': return s.post_alloc(ex, st, ret, F, S)
        if k == 'free': return s.post_free(ex, st, F, S)
        if k == 'notify': return s.post_notify(ex, st, F, S)
        # waits
        if g['phase'] != 2: ex.fail(st, 'oom' if m.get('null') else 'block', 'wait returns without having given up the lock: other threads cannot make progress')
        else: ex.count('block')
        if m.get('null'): s.keep(ex, st, F, lambda w: FALSE, 'table', 'wait')
        else:
            w = s.wsp
            ex.require(st, F.wc(w) == g['wsacq'] - 1, 'notify', 'count of waiting threads not restored after waiting')
            ex.require(st, z3.And(F.ref(w) == S.ref(w), F.cond(w) == S.cond(w), F.idx(w) == S.idx(w)), 'table', 'wait changes the reference count, notification counter or index')
            s.keep(ex, st, F, lambda q: q == w, 'table', 'wait')
        if k == 'wait_until' and s.dl: ex.require(st, z3.Implies(bv2b(ret), g['lb_' + s.base()] >= s.D), 'deadline', 'timeout can be reported before the deadline')
        if k == 'wait_for' and s.dl: ex.require(st, z3.Implies(bv2b(ret), g['lb_mono'] >= g['start'] + sx(s.rel)), 'deadline', 'timeout can be reported before the duration has passed')
    def post_alloc(s, ex, st, ret, F, S):
        g = st.ghost; i = s.K1
        ok = ret != 0
        had = z3.And(S.H != 0, ult(i, S.size), S.P(i) == s.addr)
        ex.require(st, z3.Or(ok, g['oom']), 'oom', 'no wait state although memory is available')
        ex.require(st, z3.Implies(z3.And(z3.Not(ok), S.H != 0), z3.And(F.H != 0, F.size == S.size)), 'oom', 'failed allocation changes the table')
        ex.require(st, z3.Implies(z3.And(z3.Not(ok), S.H == 0), z3.Or(F.H == 0, F.size == 0)), 'oom', 'failed allocation changes the table')
        ex.require(st, z3.Implies(ok, z3.And(F.H != 0, F.live(ret) == 1, ult(F.idx(ret), F.size), F.W(F.idx(ret)) == ret, F.P(F.idx(ret)) == s.addr)), 'table', 'returned wait state is not the entry of the address')
        ex.require(st, z3.Implies(had, ret == S.W(i)), 'table', 'address has an entry but another one is returned')
        old = z3.And(S.H != 0, ult(S.idx(ret), S.size), S.W(S.idx(ret)) == ret)
        s.term(ex, st, S.idx(ret))
        ex.require(st, z3.Implies(ok, z3.If(old, z3.And(F.ref(ret) == S.ref(ret) + 1, F.size == S.size, F.wc(ret) == S.wc(ret), F.cond(ret) == S.cond(ret)),
                                           z3.And(F.ref(ret) == 1, F.size == z3.If(S.H != 0, S.size, bv(0, 64)) + 1, F.wc(ret) == 0))), 'table', 'reference count, waiter count or number of entries wrong after registration')
        s.keep(ex, st, F, lambda w: z3.And(ok, w == ret), 'table', 'registration')
        ex.require(st, F.FM == S.FM, 'exit', 'cleanup flag changed')
        for n in g['news']: ex.require(st, z3.Or(n == ret, F.live(n) == 0), 'table', 'new wait state is not the one returned')
    def post_free(s, ex, st, F, S):
        g = st.ghost; w = s.wsp
        ex.require(st, F.FM == S.FM, 'exit', 'cleanup flag changed')
        if s.m.get('null'): s.keep(ex, st, F, lambda q: FALSE, 'table', 'release'); return
        last = S.ref(w) == 1
        ex.require(st, z3.Implies(z3.Not(last), z3.And(F.H != 0, F.size == S.size, F.ref(w) == S.ref(w) - 1, F.live(w) == 1, ult(F.idx(w), F.size), F.W(F.idx(w)) == w, F.P(F.idx(w)) == S.P(S.idx(w)), F.wc(w) == S.wc(w), F.cond(w) == S.cond(w))), 'table', 'entry still used by other threads removed or changed')
        ex.require(st, z3.Implies(last, z3.If(F.H == 0, S.size == 1, F.size == S.size - 1)), 'table', 'entry not removed with its last user')
        i = s.K1; j = F.idx(S.W(i))
        ex.require(st, z3.Implies(z3.And(last, F.H != 0, ult(i, F.size)), F.P(i) != S.P(S.idx(w))), 'table', 'address still registered after its last user left')
        s.keep(ex, st, F, lambda q: q == w, 'table', 'release')
    def post_notify(s, ex, st, F, S):
        g = st.ghost; i = s.K1; w = S.W(i)
        had = z3.And(S.H != 0, ult(i, S.size), S.P(i) == s.addr)
        al = s.m['all']
        ex.require(st, z3.Implies(had, F.cond(w) != S.cond(w)), 'notify', 'notification does not advance the notification counter of the address')
        need = bv(1 << 22, 64) if al else bv(1, 64)
        ex.require(st, z3.Implies(z3.And(had, S.wc(w) != 0), z3.UGE(g['nwake'], need)), 'notify', 'notification does not wake %s' % ('all waiting threads' if al else 'a waiting thread'))
        ex.require(st, z3.Implies(g['requeued'], g['marked']), 'notify', 'threads moved to the mutex but the mutex is not marked contended: they are never woken')
        q = s.KW
        ex.require(st, z3.Implies(z3.Or(S.H == 0, z3.Not(z3.And(ult(S.idx(q), S.size), S.W(S.idx(q)) == q, S.P(S.idx(q)) == s.addr))), F.cond(q) == S.cond(q)), 'notify', 'notification changes the counter of another address')
        ex.require(st, z3.And(F.ref(q) == S.ref(q), F.idx(q) == S.idx(q), F.wc(q) == S.wc(q), F.live(q) == S.live(q)), 'table', 'notification changes the table')
        k = z3.BitVec('Kk', 64)
        if F.reg is not None: ex.require(st, z3.And(F.H == S.H, F.rd(k) == S.rd(k), F.FM == S.FM), 'table', 'notification changes the table')
    def post_fence(s, ex, st):
        hw = sw = 0
        for e in st.ev:
            if e.kind in ('fence', 'cbar'): hw |= e.hw; sw |= e.sw
        if s.m['kind'] == 'sfence': hw = 7
        if (hw & 7) == 7 and (sw & 3) == 3: ex.count('order')
        else: ex.fail(st, 'order', 'fence function is weaker than a sequentially consistent fence')

_u = [0]
def _uid(): _u[0] += 1; return _u[0]
def subterms(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x; st.extend(x.children())
