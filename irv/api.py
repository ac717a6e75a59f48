"""Contracts of the public operations of boost::atomic, atomic_ref, ipc_*.

The object is a *shared* region.  Outside a held lock every read gives an
arbitrary value (any number of other threads, any schedule); the ghost trace of
accesses is what the postcondition speaks about: exactly one transition u with
new(u) == F(old(u)) and result == R(old(u))."""
import z3
from .sym import *
from . import ll
from .x86asm import X86

LP = '_ZN5boost7atomics6detail9lock_pool'
LPF = {LP + '10short_lockEm': 'lock', LP + '9long_lockEm': 'lock', LP + '6unlockEPv': 'unlock',
       LP + '19allocate_wait_stateEPvPVKv': 'alloc_ws', LP + '15free_wait_stateEPvS3_': 'free_ws', LP + '4waitEPvS3_': 'wait',
       LP + '10wait_untilEPvS3_iRK8timespec': 'wait_until', LP + '10notify_oneEPvPVKv': 'notify_one', LP + '10notify_allEPvPVKv': 'notify_all',
       LP + '12thread_fenceEv': 'thread_fence', LP + '12signal_fenceEv': 'signal_fence'}
def lpfun(name):
    r = LPF.get(name)
    if r is None and name.startswith(LP + '8wait_for'): r = 'wait_for'
    if r is None and name.startswith(LP + '10wait_until'): r = 'wait_until'
    return r

ORDERS = {'relaxed': 0, 'consume': 1, 'acquire': 2, 'release': 4, 'acq_rel': 6, 'seq_cst': 14}
LOADO = (0, 1, 2, 14); STOREO = (0, 4, 14); ALLO = (0, 1, 2, 4, 6, 14)
def need(o, kind):
    """required (hardware, compiler) strength bits"""
    if o == 0: return 0, 0
    if o == 1: return A, 0
    if o == 2: return A, A
    if o == 4: return R, R
    if o == 6: return A | R, A | R
    if kind == 'load': return A | SC, A | SC
    if kind == 'store': return R | SC, R | SC
    return 7, 7
def fail_order(o):
    return {6: 2, 4: 0}.get(o, o)

def eff(evs, i, kind):
    """strength of event i including neighbouring fences"""
    e = evs[i]; hw, sw = e.hw, e.sw
    for f in evs[i + 1:]:
        if f.kind in ('fence', 'cbar') or f.kind in ('crit',):
            hw |= f.hw & A; sw |= f.sw & A
            if kind != 'load' and f.kind == 'fence': hw |= f.hw & SC; sw |= f.sw & SC
            if f.kind == 'cbar': sw |= f.sw & SC
    for f in evs[:i]:
        if f.kind in ('fence', 'cbar', 'crit'):
            hw |= f.hw & R; sw |= f.sw & R
            if kind == 'load' and f.kind == 'fence': hw |= f.hw & SC; sw |= f.sw & SC
            if f.kind == 'cbar' and kind == 'load': sw |= f.sw & SC
    return hw, sw

class AtomicSpec(Spec):
    def __init__(s, meta):
        s.m = meta
        s.size = meta['objsize']; s.vs = meta['valsize']; s.locked = not meta['lockfree']
        s.fd_vars = ()
    # ---------------- set up
    def setup(s, ex):
        m = s.m; st = State(); fn = ex.fn
        r = ex.add_region(Region('obj', 'shared', s.size, align=m['align']))
        s.obj = r
        st.pc.append((r.base & bv(m['align'] - 1, 64)) == 0)
        st.pc.append(r.base != 0)
        # no object wraps around the end of the address space (user half)
        st.pc.append(z3.ULT(r.base, bv(1 << 47, 64)))
        s.args = {}
        fdv = []
        for (nm, t, _at), kind in zip(fn.params, m['params']):
            k = kind[0]
            if k == 'obj': st.env[nm] = r.base
            elif k == 'lobj': r.kind = 'local'; st.env[nm] = r.base; st.mem['obj'] = Content()
            elif k == 'in':
                q = ex.add_region(Region('arg_' + kind[1], 'param', kind[2], writable=False))
                v = z3.BitVec(kind[1], 8 * kind[2]); s.args[kind[1]] = v
                st.mem[q.name] = Content({i: (v, i) for i in range(kind[2])})
                st.env[nm] = q.base
                for c in s.val_inv(v, kind[3] if len(kind) > 3 else None): st.pc.append(c)
            elif k == 'exp':
                q = ex.add_region(Region('arg_exp', 'param', kind[2])); v = z3.BitVec('exp', 8 * kind[2]); s.args['exp'] = v
                st.mem[q.name] = Content({i: (v, i) for i in range(kind[2])}); st.env[nm] = q.base
                for c in s.val_inv(v, 'T'): st.pc.append(c)
            elif k == 'out':
                q = ex.add_region(Region('arg_' + kind[1], 'local', kind[2])); st.env[nm] = q.base; st.mem[q.name] = Content()
            elif k == 'scalar':
                v = z3.BitVec(kind[1], ll.bits_of(t, ex.mod)); s.args[kind[1]] = v; st.env[nm] = v
                if kind[2] is not None: st.pc.append(kind[2](v))
            elif k == 'order':
                v = z3.BitVec(kind[1], 32); s.args[kind[1]] = v; st.env[nm] = v; fdv.append((v, kind[2]))
            else: raise Exception(k)
            if k in ('in', 'exp', 'out'):
                st.pc.append(z3.ULT(q.base, bv(1 << 47, 64))); st.pc.append(q.base != 0)
        s.fd_vars = tuple(v for v, _ in fdv)
        if fdv:
            lst = m.get('ordersets')
            if lst is None:
                import itertools
                lst = list(itertools.product(*[o for _, o in fdv]))
            ex.set_fd(st, [tuple(bv(x, 32) for x in a) for a in lst])
        st.ghost['held'] = False; st.ghost['padclr'] = 0; st.ghost['lastrd'] = bv(0, 8 * s.size); st.ghost['lr_ok'] = bv(0, 1)
        st.ghost['lr_hw'] = bv(0, 3); st.ghost['lr_sw'] = bv(0, 3)
        st.ghost['pre'] = bv(0, 8 * s.size)
        st.ghost['toread'] = bv(0, 1)
        st.ghost['lockptr'] = ZERO64; st.ghost['H'] = ZERO64
        s.setup_more(ex, st)
        return st
    def setup_more(s, ex, st): pass
    def val_inv(s, v, ty):
        """type invariant of a value: bool is 0 or 1"""
        if ty == 'T' and s.m.get('isbool'): return [z3.ULE(v, bv(1, v.size()))]
        return []
    # ---------------- object representation
    def proj(s, x):
        """value bits of a storage image"""
        return s.mask(extract(x, 0, 8 * s.vs))
    def mask(s, v):
        mk = s.m.get('mask')
        if mk is None: return v
        return v & bv(mk & ((1 << v.size()) - 1), v.size())
    def inv(s, x, st=None):
        """object invariant: hidden bytes and known padding are zero, bool is 0/1"""
        out = []
        if s.m.get('tailzero') and s.size > s.vs: out.append(extract(x, 8 * s.vs, 8 * (s.size - s.vs)) == 0)
        if s.m.get('isbool'): out.append(z3.ULE(extract(x, 0, 8 * s.vs), bv(1, 8 * s.vs)))
        if s.m.get('padzero') and s.m.get('mask') is not None and (st is None or not s.m.get('ref') or s.padcleared(st)):
            n = 8 * s.vs; inv = ((1 << n) - 1) & ~s.m['mask']
            if inv: out.append((extract(x, 0, n) & bv(inv, n)) == 0)
        return out
    def padcleared(s, st):
        need = [i for i in range(s.vs) if not (s.m['mask'] >> (8 * i)) & 0xff]
        return all((st.ghost['padclr'] >> i) & 1 for i in need)
    def newval(s, st, nm='mem'):
        v = fresh(nm, 8 * s.size)
        for c in s.inv(v, st): st.pc.append(c)
        return v
    def noteread(s, st, v, hw, sw):
        st.ghost['lastrd'] = v; st.ghost['lr_ok'] = bv(1, 1); st.ghost['lr_hw'] = bv(hw, 3); st.ghost['lr_sw'] = bv(sw, 3)
        st.ghost['toread'] = bv(1, 1)
    def on_event(s, ex, st, ev):
        if ev.kind in ('cbar', 'fence'):
            st.ghost['lr_hw'] = simp(st.ghost['lr_hw'] | bv(ev.hw & A, 3))
            st.ghost['lr_sw'] = simp(st.ghost['lr_sw'] | bv(ev.sw & (A | SC), 3))
    # ---------------- accesses
    def full(s, off, n):
        # atomic_flag keeps its state in byte 0, the other bytes are invariantly zero: a one-byte access covers the whole state
        return off == 0 and (n == s.size or (n == 1 and s.m.get('flag'))) and n in (1, 2, 4, 8, 16)
    def narrow(s, v, n): return extract(v, 0, 8 * n)
    def widen(s, v, old, n):
        if 8 * n == v.size() and n == s.size: return v
        hi = extract(old, 8 * n, 8 * (s.size - n)) if old is not None else bv(0, 8 * (s.size - n))
        return simp(z3.Concat(hi, v))
    def fail_atom(s, ex, st, msg, inst): ex.fail(st, 'atomicity', msg, inst)
    def shared_load(s, ex, st, reg, off, n, inst, atomic, volatile, hw, sw):
        if s.locked:
            if st.ghost['held']: ex.count('lock'); return ex.load_bytes(st, reg, off, n)
            if not volatile and not atomic: ex.fail(st, 'lock', 'object read without holding its lock', inst)
            return fresh('torn', 8 * n)
        if atomic and s.full(off, n):
            v = s.newval(st); 
            ex.emit(st, Ev('load', off, n, rd=v, hw=hw, sw=sw)); s.noteread(st, v, hw, sw)
            ex.count('atomicity')
            return s.narrow(v, n)
        if volatile and not atomic and s.full(off, n) and n <= 8:
            v = s.newval(st); ex.emit(st, Ev('load', off, n, rd=v, hw=A | SC, sw=SC)); s.noteread(st, v, A | SC, SC)
            ex.count('atomicity')
            return s.narrow(v, n)
        if volatile or atomic:
            # a partial or over-wide access: its value may be torn, so it can only be a hint
            return fresh('torn', 8 * n)
        ex.fail(st, 'atomicity', 'plain (non-atomic) read of a lock-free object: data race', inst)
        return fresh('race', 8 * n)
    def shared_store(s, ex, st, reg, off, n, val, inst, atomic, volatile, hw, sw):
        if s.m.get('padstore') and not atomic and z3.is_bv_value(simp(val)) and simp(val).as_long() == 0 and \
           (off >= s.vs or (s.m.get('mask') is not None and (s.m['mask'] >> (8 * off)) & ((1 << (8 * n)) - 1) == 0)):
            st.ghost['padclr'] |= ((1 << n) - 1) << off
            return           # reference constructor clears hidden padding bytes
        if s.locked:
            if st.ghost['held']: ex.count('lock'); ex.store_bytes(st, reg, off, val); return
            ex.fail(st, 'lock', 'object written without holding its lock', inst); return
        if atomic and s.full(off, n):
            ex.emit(st, Ev('store', off, n, wr=s.widen(val, None, n), hw=hw, sw=sw)); ex.count('atomicity'); return
        if volatile and s.full(off, n) and n <= 8:
            ex.emit(st, Ev('store', off, n, wr=s.widen(val, None, n), hw=R, sw=0)); ex.count('atomicity'); return
        ex.fail(st, 'atomicity', 'object written by something else than one whole atomic access (offset %d, %d bytes)' % (off, n), inst)
    def rmw_ptr(s, ex, st, p, n, inst):
        """resolve the target of an atomic instruction; True if it is the object"""
        root, off = ex.decompose(p)
        if root is s.obj:
            if s.locked:
                if st.ghost['held']: return 'lockedobj'
                ex.fail(st, 'lock', 'atomic instruction on a lock-protected object without its lock', inst); return 'bad'
            if not z3.is_bv_value(off) or not s.full(off.as_signed_long(), n):
                ex.fail(st, 'atomicity', 'atomic instruction covers only a part of the object', inst); return 'bad'
            ex.count('atomicity')
            return 'obj'
        if root is not None and root.kind in ('local', 'param'): return 'local'
        raise NotUnderContract('atomic instruction on %s' % (root.name if root else p))
    def rmw(s, ex, st, p, n, f, inst, hw):
        k = s.rmw_ptr(ex, st, p, n, inst)
        if k == 'obj':
            old = s.newval(st); new = s.widen(simp(f(s.narrow(old, n))), old, n)
            ex.emit(st, Ev('rmw', 0, n, rd=old, wr=new, hw=hw, sw=hw)); s.noteread(st, old, hw, hw)
            st.env[inst.dst] = s.narrow(old, n); return
        if k == 'bad': st.env[inst.dst] = fresh('bad', 8 * n); return
        v = ex.mem_load(st, p, 8 * n, inst); ex.mem_store(st, p, simp(f(v)), inst); st.env[inst.dst] = v
    def asm_rmw(s, ex, st, p, n, f, inst, lock, memclob):
        k = s.rmw_ptr(ex, st, p, n, inst)
        if k == 'obj':
            old = s.newval(st); new = s.widen(simp(f(s.narrow(old, n))), old, n)
            if not lock:
                ex.fail(st, 'atomicity', 'read-modify-write instruction without lock prefix', inst)
            ex.emit(st, Ev('rmw', 0, n, rd=old, wr=new, hw=7, sw=7 if memclob else SC)); s.noteread(st, old, 7, 7 if memclob else SC)
            return s.narrow(old, n)
        if k == 'bad': return fresh('bad', 8 * n)
        if lock: ex.emit(st, Ev('fence', hw=7, sw=7 if memclob else 0))
        v = ex.mem_load(st, p, 8 * n, inst); ex.mem_store(st, p, simp(f(v)), inst); return v
    def asm_cas(s, ex, st, p, n, e, d, inst, lock, memclob):
        k = s.rmw_ptr(ex, st, p, n, inst)
        if k == 'obj' and n != s.size: raise NotUnderContract('narrow compare-exchange')
        if k == 'bad': return [(True, e, st)]
        if k != 'obj': raise NotUnderContract('cmpxchg on local memory')
        if not lock: ex.fail(st, 'atomicity', 'cmpxchg without lock prefix', inst)
        sw = 7 if memclob else SC
        s2 = st.copy()
        ok = s._cas_ok(ex, st, e, d, 7, sw)
        out = []
        if ok: out.append((True, e, st))
        old = s._cas_fail(ex, s2, e, 7, sw, False)
        if old is not None: out.append((False, old, s2))
        if out and out[0][2] is s2:
            pass
        return out
    def _cas_ok(s, ex, st, e, d, hw, sw):
        c = [x for x in s.inv(e, st)]
        if check(st.pc + c)[0] == 'unsat': return False
        st.pc.extend(c)
        ex.emit(st, Ev('cas_ok', 0, s.size, rd=e, wr=d, hw=hw, sw=sw)); s.noteread(st, e, hw, sw)
        return True
    def _cas_fail(s, ex, st, e, hw, sw, weak):
        v = s.newval(st)
        if not weak:
            st.pc.append(v != e)
            if check(st.pc)[0] == 'unsat': return None
        ex.emit(st, Ev('cas_fail', 0, s.size, rd=v, hw=hw, sw=sw)); s.noteread(st, v, hw, sw)
        return v
    def cmpxchg(s, ex, st, p, c, n, inst, weak, hw, fhw):
        nb = c.size() // 8
        k = s.rmw_ptr(ex, st, p, nb, inst)
        if k == 'obj' and nb != s.size: raise NotUnderContract('narrow compare-exchange')
        if k == 'bad': st.env[inst.dst] = (fresh('bad', c.size()), fresh('bad', 1)); return
        if k != 'obj': raise NotUnderContract('cmpxchg on local memory')
        s2 = st.copy(); out = []
        if s._cas_ok(ex, st, c, n, hw, hw):
            st.env[inst.dst] = (c, bv(1, 1)); out.append(st)
        old = s._cas_fail(ex, s2, c, fhw, fhw, weak)
        if old is not None: s2.env[inst.dst] = (old, bv(0, 1)); out.append(s2)
        return out

    # ---------------- lock pool contracts (callee side proved in lockpool.py)
    def open_crit(s, ex, st):
        if s.locked:
            v = s.newval(st, 'held'); ex.store_bytes(st, s.obj, 0, v); st.ghost['pre'] = v
    def close_crit(s, ex, st, why):
        if s.locked:
            post = ex.load_bytes(st, s.obj, 0, s.size)
            pre = st.ghost['pre']
            if why == 'unlock':
                ex.emit(st, Ev('crit', 0, s.size, rd=pre, wr=post, hw=7, sw=7)); s.noteread(st, pre, 7, 7)
            else:
                ex.require(st, post == pre, 'atomicity', 'object changed before the lock is given up while waiting')
                st.ghost['toread'] = bv(0, 1)
            st.mem.pop('obj', None)
    def lp_ptr(s, ex, st, p, inst):
        if not st.ghost['held']: ex.fail(st, 'lock', 'lock-pool operation without holding the lock', inst)
        else: ex.require(st, p == st.ghost['lockptr'], 'lock', 'lock-pool operation on a different lock than the one held', inst)
    def call(s, ex, st, name, args, inst):
        k = lpfun(name)
        if k is not None: return s.lpcall(ex, st, k, args, inst)
        if name == '__assert_fail' or name.startswith('_ZN5boost16assertion_failed'):
            ex.fail(st, 'assertion', 'internal assertion can fail', inst); return []
        if name in ('memcmp', 'bcmp'):
            n = simp(args[2])
            if not z3.is_bv_value(n): raise NotUnderContract('memcmp with symbolic length')
            n = n.as_long()
            r = fresh('memcmp', 32)
            if n == 0: st.env[inst.dst] = bv(0, 32); return
            a = ex.mem_load(st, args[0], 8 * n, inst); b = ex.mem_load(st, args[1], 8 * n, inst)
            st.env[inst.dst] = simp(z3.If(a == b, bv(0, 32), r | bv(1, 32))); return
        return s.other_call(ex, st, name, args, inst)
    def other_call(s, ex, st, name, args, inst):
        raise NotUnderContract('call to %s' % name)
    def lpcall(s, ex, st, k, args, inst):
        g = st.ghost
        if k in ('thread_fence', 'signal_fence'):
            if k == 'thread_fence': ex.emit(st, Ev('fence', hw=7, sw=7, text=k))
            else: ex.emit(st, Ev('cbar', sw=7, text=k))
            return
        if s.m.get('ipc'):
            ex.fail(st, 'ipc', 'inter-process operation uses the process-local lock pool (%s)' % k, inst)
        if not s.locked and not s.m.get('waits'):
            ex.fail(st, 'lockfree', 'operation of a type reported lock-free calls lock pool function %s' % k, inst)
        if k == 'lock':
            if g['held']: ex.fail(st, 'lock', 'lock acquired while already holding one', inst)
            g['held'] = True; g['H'] = args[0]; p = fresh('lockstate', 64); st.pc.append(p != 0); g['lockptr'] = p
            s.check_hash(ex, st, args[0], inst)
            s.open_crit(ex, st)
            st.env[inst.dst] = p; return
        if k == 'unlock':
            s.lp_ptr(ex, st, args[0], inst)
            if g.get('ws') is not None: ex.fail(st, 'wait', 'lock released while a wait state is still allocated', inst)
            s.close_crit(ex, st, 'unlock'); g['held'] = False
            return
        return s.lpwait(ex, st, k, args, inst)
    def lpwait(s, ex, st, k, args, inst): raise NotUnderContract('lock pool ' + k)
    def check_hash(s, ex, st, h, inst):
        s.hashes = getattr(s, 'hashes', [])
        s.hashes.append((simp(h), st))
        ref = s.m.get('refhash')
        if ref is not None:
            # same lock as the reference operation of this object type
            want = z3.substitute(ref, (z3.BitVec('&obj', 64), s.obj.base))
            ex.require(st, h == want, 'samelock', 'lock is selected differently than by the other operations on the same object', inst)

    # ---------------- loops
    def loop_neutral(s, ex, head, back):
        out = []
        k = len(head.ev)
        for e in back.ev[k:]:
            if e.wr is not None:
                if e.rd is None: out.append((FALSE, 'atomicity', 'a loop iteration that repeats has already modified the object'))
                else: out.append((e.wr == e.rd, 'atomicity', 'a loop iteration that repeats has already modified the object'))
        if head.ghost['held'] != back.ghost['held']: out.append((FALSE, 'lock', 'lock state differs between loop iterations'))
        return out

    # ---------------- postcondition
    def reads(s, st, kind='load'):
        """legit reads: (value, hw, sw)"""
        out = []
        for i, e in enumerate(st.ev):
            if e.rd is not None:
                hw, sw = eff(st.ev, i, kind); out.append((e.rd, hw, sw, TRUE))
        if any(e.kind == 'loop' for e in st.ev):
            g = st.ghost
            out.append((g['lastrd'], g['lr_hw'], g['lr_sw'], g['lr_ok'] == 1))
        return out
    def ord_ok(s, o, kind, hw, sw):
        """formula: (hw, sw) meet the requested order o (z3 const or int)"""
        def sat(have, req):
            if req == 0: return TRUE
            if isinstance(have, int): return z3.BoolVal((have & req) == req)
            return (have & bv(req, 3)) == bv(req, 3)
        if isinstance(o, int):
            h, w = need(o, kind); return z3.And(sat(hw, h), sat(sw, w))
        return z3.And(*[z3.Implies(o == bv(k, 32), z3.And(sat(hw, need(k, kind)[0]), sat(sw, need(k, kind)[1]))) for k in ALLO])
    def order_arg(s, nm):
        v = s.args.get(nm)
        return v if v is not None else s.m['order_default']
    def updates(s, ex, st):
        """indices of events that may change the object"""
        us = [i for i, e in enumerate(st.ev) if e.wr is not None]
        out = []
        for i in us:
            e = st.ev[i]
            if e.rd is not None and len(us) > 1:
                ex.quiet += 1
                r = prove(st.pc, e.wr == e.rd)[0]
                ex.quiet -= 1
                if r == 'proved': continue
            out.append(i)
        return out
    def out_val(s, ex, st, nm='out'):
        reg = ex.byname.get('arg_' + nm)
        return ex.load_bytes(st, reg, 0, reg.size)

    def finish(s, ex, outcomes):
        n = 0
        for kind, v, st in outcomes:
            if kind == 'ret':
                n += 1
                if st.ghost['held']: ex.fail(st, 'lock', 'operation returns without releasing the lock')
                else: ex.count('lock')
                if st.ghost.get('ws') is not None: ex.fail(st, 'wait', 'operation returns without freeing the wait state')
                s.post(ex, st, v)
            elif kind == 'unreachable':
                ex.fail(st, 'no-undefined-behaviour', 'unreachable code can be reached')
            elif kind == 'stuck':
                ex.fail(st, 'no-undefined-behaviour', 'exception propagates (%s)' % v)
            else: raise NotUnderContract('irreducible control flow')
        STATS.paths += n; ex.npaths = n
        ex.vacuous = not any(k == 'ret' and check(st.pc)[0] == 'sat' for k, v, st in outcomes)

    def post(s, ex, st, ret):
        k = s.m['kind']
        getattr(s, 'post_' + k)(ex, st, ret)

    def wr_ok(s, ex, st, e):
        for c in s.inv(e.wr): ex.require(st, c, 'value', 'hidden padding / value invariant of the object not preserved by the write')

    def result_goal(s, ex, st, ret, old):
        """formula: the returned result is right given previous value old"""
        rk = s.m['ret']
        if rk == 'none': return TRUE
        a = s.args
        new = s.m['F'](old, a)
        if rk == 'old': return s.mask(s.out_val(ex, st)) == old
        if rk == 'new': return s.mask(s.out_val(ex, st)) == s.mask(new)
        if rk == 'test': return bv2b(ret) == (s.mask(new) != 0)
        if rk == 'bit': return bv2b(ret) == s.m['bit'](old, a)
        if rk == 'desired': return s.mask(s.out_val(ex, st)) == s.mask(a['v'])
        raise Exception(rk)

    def post_rmw(s, ex, st, ret):
        us = s.updates(ex, st)
        o = s.order_arg('order')
        if len(us) > 1:
            ex.fail(st, 'atomicity', 'operation changes the object more than once'); return
        if len(us) == 1:
            e = st.ev[us[0]]
            rd = s.proj(e.rd) if e.rd is not None else s.mask(fresh('anyold', 8 * s.vs))
            ex.require(st, s.proj(e.wr) == s.mask(s.m['F'](rd, s.args)), 'value', 'stored value is not the operation applied to the previous value', extra={'ev': e})
            s.wr_ok(ex, st, e)
            g = s.result_goal(ex, st, ret, rd)
            ex.require(st, g, 'result', 'returned result does not correspond to the transition', extra={'ev': e})
            kind = 'store' if (e.kind == 'store' or s.m.get('storekind')) else 'rmw'
            hw, sw = eff(st.ev, us[0], kind)
            ex.require(st, s.ord_ok(o, kind, hw, sw), 'order', 'the modifying access is weaker than the requested memory order (hardware %s, compiler %s)' % (ordn(hw), ordn(sw)))
            return
        # no modification: allowed only if the operation was an identity on a really read value
        alts = []
        for v, hw, sw, ok in s.reads(st, 'rmw'):
            r = s.proj(v)
            alts.append(z3.And(ok, s.mask(s.m['F'](r, s.args)) == r, s.result_goal(ex, st, ret, r), s.ord_ok(o, 'rmw', hw, sw)))
        ex.require(st, z3.Or(*alts) if alts else FALSE, 'value', 'operation returns without having modified the object')
    post_store = post_rmw

    def no_updates(s, ex, st, what):
        for i, e in enumerate(st.ev):
            if e.wr is None: continue
            if e.rd is None: ex.fail(st, 'readonly', '%s writes to the object' % what)
            else: ex.require(st, e.wr == e.rd, 'readonly', '%s modifies the object' % what)
            if not s.locked and s.size <= 8: ex.fail(st, 'readonly', '%s performs a write access to the object' % what)
        ex.count('readonly')
    def post_load(s, ex, st, ret):
        s.no_updates(ex, st, 'load')
        o = s.order_arg('order')
        rd = s.reads(st)
        if s.m['ret'] == 'boolval':
            b = bv2b(ret)
            ex.require(st, z3.Or(*[z3.And(ok, b == (s.proj(v) != 0)) for v, hw, sw, ok in rd] or [FALSE]), 'value', 'returned state is not one the object held at one instant')
            ex.require(st, z3.Or(*[z3.And(ok, b == (s.proj(v) != 0), s.ord_ok(o, 'load', hw, sw)) for v, hw, sw, ok in rd] or [FALSE]), 'order', 'test weaker than the requested memory order')
            return
        rv = s.mask(s.out_val(ex, st))
        ex.require(st, z3.Or(*[z3.And(ok, s.proj(v) == rv) for v, hw, sw, ok in rd] or [FALSE]), 'value', 'returned value is not one the object held at one instant')
        ex.require(st, z3.Or(*[z3.And(ok, s.proj(v) == rv, s.ord_ok(o, 'load', hw, sw)) for v, hw, sw, ok in rd] or [FALSE]), 'order', 'load weaker than the requested memory order')

    def post_cas(s, ex, st, ret):
        us = s.updates(ex, st)
        okr = bv2b(ret)
        exp = s.mask(s.args['exp']); des = s.mask(s.args['v'])
        ereg = ex.byname['arg_exp']
        full_out = ex.load_bytes(st, ereg, 0, ereg.size)
        eo = s.mask(full_out)
        so = s.order_arg('order')
        if 'forder' in s.args: fo = s.args['forder']; fok = lambda hw, sw: s.ord_ok(fo, 'load', hw, sw)
        elif isinstance(so, int): fok = lambda hw, sw: s.ord_ok(fail_order(so), 'load', hw, sw)
        else: fok = lambda hw, sw: z3.And(*[z3.Implies(so == bv(k, 32), s.ord_ok(fail_order(k), 'load', hw, sw)) for k in ALLO])
        weak = s.m.get('weak')
        if len(us) > 1: ex.fail(st, 'atomicity', 'compare-exchange changes the object more than once'); return
        if len(us) == 1:
            e = st.ev[us[0]]
            if e.rd is None: ex.fail(st, 'atomicity', 'compare-exchange stores unconditionally'); return
            rd = s.proj(e.rd)
            ex.require(st, z3.Implies(okr, z3.And(rd == exp, s.proj(e.wr) == des)), 'value', 'success reported but the object did not hold the expected value or does not hold the desired one', extra={'ev': e})
            ex.require(st, z3.Implies(okr, eo == exp), 'expected', 'expected argument altered on success', extra={'ev': e})
            ex.require(st, z3.Implies(z3.Not(okr), e.wr == e.rd), 'readonly', 'failed compare-exchange modifies the object', extra={'ev': e})
            ex.require(st, z3.Implies(z3.Not(okr), eo == rd), 'expected', 'expected argument does not receive the value the object held', extra={'ev': e})
            if not weak: ex.require(st, z3.Implies(z3.Not(okr), rd != exp), 'value', 'strong compare-exchange fails although the object held the expected value', extra={'ev': e})
            s.wr_ok(ex, st, e)
            hw, sw = eff(st.ev, us[0], 'rmw'); fhw, fsw = eff(st.ev, us[0], 'load')
            ex.require(st, z3.Implies(okr, s.ord_ok(so, 'rmw', hw, sw)), 'order', 'successful compare-exchange weaker than the success order')
            ex.require(st, z3.Implies(z3.Not(okr), fok(fhw, fsw)), 'order', 'failed compare-exchange weaker than the failure order')
            return
        rds = s.reads(st, 'load')
        ex.require(st, z3.Implies(okr, z3.And(exp == des, z3.Or(*[z3.And(ok, s.proj(v) == exp) for v, hw, sw, ok in rds] or [FALSE]))), 'value', 'success reported without storing the desired value')
        alt = [z3.And(ok, s.proj(v) == eo, TRUE if weak else s.proj(v) != exp) for v, hw, sw, ok in rds]
        ex.require(st, z3.Implies(z3.Not(okr), z3.Or(*alt or [FALSE])), 'expected', 'failure without reporting a value the object held that differs from the expected one')
        alt = [z3.And(ok, s.proj(v) == eo, TRUE if weak else s.proj(v) != exp, fok(hw, sw)) for v, hw, sw, ok in rds]
        ex.require(st, z3.Implies(z3.Not(okr), z3.Or(*alt or [FALSE])), 'order', 'failed compare-exchange weaker than the failure order')

    def post_ctor(s, ex, st, ret):
        v = ex.load_bytes(st, ex.byname['obj'], 0, s.size)
        ex.require(st, s.proj(v) == s.mask(s.args['v'] if 'v' in s.args else bv(0, 8 * s.vs)), 'value', 'constructed object does not hold the given value')
        for c in s.inv(v): ex.require(st, c, 'value', 'constructed object has non-zero hidden bytes')

    def post_fence(s, ex, st, ret):
        o = s.args['order']
        hw = sw = 0
        for e in st.ev:
            if e.kind in ('fence', 'cbar'): hw |= e.hw | (e.sw & (A | R)); sw |= e.sw      # TSO: plain accesses already acquire / release in hardware
            elif e.kind == 'rmw' and e.hw == 7: hw |= 7; sw |= e.sw
            if e.kind not in ('fence', 'cbar'): ex.fail(st, 'readonly', 'fence accesses memory')
        def sat(have, req): return z3.BoolVal((have & req) == req)
        for k, h, w in ((1, A, A), (2, A, A), (4, R, R), (6, A | R, A | R), (14, 7, 7)):
            if s.m.get('signal'): ex.require(st, z3.Implies(o == k, sat(sw, w & (A | R))), 'order', 'signal fence does not constrain the compiler as requested')
            else: ex.require(st, z3.Implies(o == k, z3.And(sat(hw, h), sat(sw, w & (A | R)))), 'order', 'thread fence weaker than the requested order (hardware %s, compiler %s)' % (ordn(hw), ordn(sw)))
        ex.count('readonly')

    def post_query(s, ex, st, ret):
        s.no_updates(ex, st, 'query')
        if 'expect' in s.m: ex.require(st, bv2b(ret) == z3.BoolVal(bool(s.m['expect'])), 'capability', 'run-time query disagrees with the compile-time answer')

def ordn(x):
    return ('%s%s%s' % ('acq ' if x & A else '', 'rel ' if x & R else '', 'sc' if x & SC else '')).strip() or 'relaxed'

def verify(mod, fname, spec, bounded=None, deadline=None, only=None, asm=None):
    """discharge all obligations of one function; returns Exec"""
    fn = mod.funcs[fname]
    ex = Exec(mod, fn, spec, asm=asm or X86(), bounded=bounded)
    ex.deadline = deadline; ex.only = only
    ex.nuc = None; ex.vacuous = False; ex.npaths = 0
    try:
        st = spec.setup(ex)
        outs = ex.run(st)
        spec.finish(ex, outs)
        if ex.irreducible: raise NotUnderContract('irreducible control flow')
    except NotUnderContract as e:
        ex.nuc = str(e)
        ex.nobl += 1
        ex.fails.append(Obl('not-under-contract', fname, str(e), None, None, 'unknown'))
    return ex
