"""Contracts of wait, wait_for, wait_until, notify_one, notify_all.

Time is a 128-bit ghost: lb[base] is a proved lower bound, in nanoseconds, of the
current reading of a clock base (mono, real, boot, cust).  The operating system
and the lock pool appear through contracts: a blocking call may return at any
moment for any reason; only a reported timeout certifies that time has passed."""
import z3
from .sym import *
from . import api
from .api import AtomicSpec

W = 128
def T(x): return bv(x, W)
def sx(e): return z3.SignExt(W - e.size(), e)
NS = 10 ** 9; MS = 10 ** 6; SLACK = MS
BASE = {'steady': 'mono', 'cm': 'mono', 'system': 'real', 'cr': 'real', 'cb': 'boot', 'c1': 'cust', 'c2': 'cust'}
CLOCKID = {'mono': 1, 'real': 0, 'boot': 7}
UNIT = {'c2': 1000}
NOW = {'_ZNSt6chrono3_V212steady_clock3nowEv': ('mono', 1), '_ZNSt6chrono3_V212system_clock3nowEv': ('real', 1), 'irv_now_cm': ('mono', 1), 'irv_now_cr': ('real', 1),
       'irv_now_cb': ('boot', 1), 'irv_now_c1': ('cust', 1), 'irv_now_c2': ('cust', 1000)}
LIM = 1 << 62
ETIMEDOUT = 110; ENOSYS = 38

class WaitSpec(AtomicSpec):
    def setup_more(s, ex, st):
        m = s.m; g = st.ghost
        s.timed = m['kind'] == 'wait_timed'
        s.dl = ex.only is None or bool({'deadline', 'no-undefined-behaviour'} & ex.only)     # otherwise time is left completely arbitrary
        g['woke'] = 0; g['ws'] = None; g['lpn'] = 0
        s.errno = ex.add_region(Region('errno', 'global', 4)); s.errno.init = lambda o: z3.BitVec('errno0[%d]' % o, 8)
        for b in ('mono', 'real', 'boot'):
            e = z3.BitVec('entry_' + b, W); g['lb_' + b] = e
            st.pc.append(e >= 0); st.pc.append(e < T(LIM))
        e = z3.BitVec('entry_cust', W); g['lb_cust'] = e; st.pc.append(e >= T(-(1 << 80))); st.pc.append(e < T(1 << 80))
        s.old = s.args.get('v')
        if s.timed:
            d = s.args['d']; d = z3.SignExt(W - d.size(), d) if m['repsigned'] else z3.ZeroExt(W - d.size(), d)
            s.dn = simp(d * T(m['scale'])); s.base = BASE[m['clock']]; s.unit = UNIT.get(m['clock'], 1)
            s.D = simp(g['lb_mono'] + s.dn) if m['form'] == 'for' else s.dn
            g['ln'] = T(0); g['hasln'] = bv(0, 1); g['first'] = T(0); g['hasfirst'] = bv(0, 1)
    # ------------------------------------------------------------ time
    def adv(s, st, base, atleast=()):
        """time passes; atleast: list of (condition, lower bound)"""
        if not s.dl: return
        g = st.ghost; k = 'lb_' + base
        n = fresh(k, W); st.pc.append(n >= g[k]); st.pc.append(n < T(LIM) if base != 'cust' else n < T(1 << 80))
        for c, b in atleast: st.pc.append(z3.Implies(c, n >= b))
        g[k] = n
    def reading(s, ex, st, base, unit):
        """an arbitrary reading of a clock, as 64-bit count"""
        g = st.ghost
        r = fresh('now_' + base, 64)
        if not s.dl: return r
        rn = simp(sx(r) * T(unit))
        if base == 'cust':
            st.pc.append(r != bv((1 << 63) - 1, 64)); st.pc.append(r != bv(1 << 63, 64))
        else: st.pc.append(rn < T(LIM)); st.pc.append(rn >= 0)
        k = 'lb_' + base; n = fresh(k, W)
        if base == 'mono': st.pc.append(rn >= g[k]); st.pc.append(n == rn)
        else: st.pc.append(n == z3.If(rn > g[k], rn, g[k]))
        g[k] = n
        if s.timed and base == s.base:
            g['first'] = simp(z3.If(g['hasfirst'] == 1, g['first'], rn)); g['hasfirst'] = bv(1, 1)
            g['ln'] = rn; g['hasln'] = bv(1, 1)
        return r
    def rel_ok(s, st, R):
        """formula: a relative wait of R nanoseconds does not overshoot"""
        g = st.ghost
        if s.m['form'] == 'for': return z3.If(g['hasfirst'] == 1, s.late(g['first'] + s.dn, R + g['ln']), s.late(s.dn, R))
        return z3.And(g['hasln'] == 1, s.late(s.D, R + g['ln']))
    def late(s, D, Tn):
        # deadlines more than 146 years ahead are never reached: any value that far is as good
        return z3.Or(Tn <= D + T(SLACK), D >= T(LIM))
    def abs_ok(s, st, Tn):
        g = st.ghost
        if s.m['form'] == 'for': return z3.And(g['hasfirst'] == 1, s.late(g['first'] + s.dn, Tn))
        return s.late(s.D, Tn)
    def timespec(s, ex, st, p, inst):
        sec = ex.mem_load(st, p, 64, inst); ns = ex.mem_load(st, p + bv(8, 64), 64, inst)
        if not s.dl: return T(0)
        ex.require(st, z3.And(sec >= 0, ns >= 0, ns < bv(NS, 64)), 'deadline', 'time given to the operating system is not well formed', inst)
        st.pc.append(z3.And(sec >= 0, ns >= 0, ns < bv(NS, 64)))
        return simp(sx(sec) * T(NS) + sx(ns))
    # ------------------------------------------------------------ operating system
    def other_call(s, ex, st, name, args, inst):
        g = st.ghost
        if name in NOW:
            b, u = NOW[name]; r = s.reading(ex, st, b, u); st.env[inst.dst] = r; return
        if name == '__errno_location': st.env[inst.dst] = s.errno.base; return
        if name == 'irv_ts':
            sec, ns = fresh('sec', 64), fresh('nsec', 64)
            st.pc.append(z3.And(ns >= 0, ns < bv(NS, 64), sx(sec) * T(NS) + sx(ns) == sx(args[0])))
            st.env[inst.dst] = (sec, ns); return
        if name == 'clock_gettime':
            cid = simp(args[0])
            if not z3.is_bv_value(cid): raise NotUnderContract('clock_gettime with variable clock')
            b = {v: k for k, v in CLOCKID.items()}.get(cid.as_long())
            if b is None: raise NotUnderContract('clock_gettime(%s)' % cid)
            bad = st.copy(); ex.store_bytes(bad, s.errno, 0, fresh('errno', 32)); bad.env[inst.dst] = bv(0xffffffff, 32)
            r = s.reading(ex, st, b, 1)
            sec, ns = fresh('sec', 64), fresh('nsec', 64)
            st.pc.append(z3.And(sec >= 0, ns >= 0, ns < bv(NS, 64), sx(sec) * T(NS) + sx(ns) == sx(r)))
            ex.mem_store(st, args[1], sec, inst); ex.mem_store(st, args[1] + bv(8, 64), ns, inst)
            st.env[inst.dst] = bv(0, 32)
            return [st, bad]
        if name == 'nanosleep':
            t = s.timespec(ex, st, args[0], inst)
            ex.require(st, t <= T(10 * MS), 'deadline', 'polling wait sleeps longer than 10 ms between checks', inst)
            if s.m['native'] or not s.m.get('ipc'): ex.fail(st, 'notify', 'wait polls although a notification mechanism exists', inst)
            s.adv(st, 'mono'); st.env[inst.dst] = fresh('ns_ret', 32); g['toread'] = bv(0, 1); return
        if name == 'syscall': return s.syscall(ex, st, args, inst)
        raise NotUnderContract('call to %s' % name)
    def syscall(s, ex, st, args, inst):
        m = s.m; g = st.ghost
        nr, op = simp(args[0]), simp(args[2])
        if not z3.is_bv_value(nr) or nr.as_long() != 202: raise NotUnderContract('system call %s' % nr)
        if not z3.is_bv_value(op): raise NotUnderContract('futex operation not constant')
        op = op.as_long(); priv = bool(op & 128); rt = bool(op & 256); base = op & 127
        ex.require(st, args[1] == s.obj.base, 'notify', 'futex system call on something else than the object', inst)
        if s.size != 4: ex.fail(st, 'notify', 'futex used on an object that is not 4 bytes', inst)
        if not m['native']: ex.fail(st, 'capability', 'futex used by a type reported as having no native waiting', inst)
        if m.get('ipc') and priv: ex.fail(st, 'ipc', 'inter-process operation uses a process-private futex', inst)
        else: ex.count('ipc')
        if not m.get('ipc') and not priv: pass            # a shared futex also works within one process
        if m.get('wantpriv') is not None and priv != m['wantpriv']: ex.fail(st, 'notify', 'waiting and notifying use different futex spaces (private and shared)', inst)
        if base == 1:
            if m['kind'] != 'notify': raise NotUnderContract('futex wake in a wait')
            v = args[3]
            g['woke'] |= 1
            if m['all']: ex.require(st, extract(v, 0, 32) > bv(1 << 22, 32), 'notify', 'notify_all wakes only a limited number of waiters', inst)
            else: ex.require(st, extract(v, 0, 32) >= 1, 'notify', 'notify_one does not wake any waiter', inst)
            st.env[inst.dst] = fresh('woken', 64); return
        if base not in (0, 9): raise NotUnderContract('futex operation %d' % base)
        if m['kind'] == 'notify': ex.fail(st, 'notify', 'notification blocks', inst); return []
        val = extract(args[3], 0, 32)
        ex.require(st, z3.And(s.proj(val) == s.mask(s.old), *s.inv(val)), 'block', 'blocks on another value than the old value: may sleep although the value has changed', inst)
        if base == 9 and len(args) > 6: ex.require(st, extract(args[6], 0, 32) == bv(0xffffffff, 32), 'notify', 'futex bit mask not matched by every notification', inst)
        ts = simp(args[4])
        ret, err = fresh('futex_ret', 1), fresh('errno', 32)
        st.pc.append(err != 0)
        tout = z3.And(ret == 1, err == ETIMEDOUT)
        isnull = z3.is_bv_value(ts) and ts.as_long() == 0
        if isnull or not s.timed:
            if not isnull: ex.fail(st, 'wait', 'untimed wait uses a timeout', inst)
            if s.timed: ex.fail(st, 'deadline', 'timed wait blocks without a timeout', inst)
            st.pc.append(err != ETIMEDOUT)
            s.adv(st, 'mono')
        else:
            t = s.timespec(ex, st, ts, inst)
            if base == 9:
                cb = 'real' if rt else 'mono'
                if cb != s.base: ex.fail(st, 'deadline', 'absolute deadline of one clock given to the operating system as another clock', inst)
                else: ex.require(st, s.abs_ok(st, t), 'deadline', 'deadline given to the operating system is too late', inst)
                s.adv(st, cb, [(tout, t)])
            else:
                if rt: raise NotUnderContract('FUTEX_WAIT with realtime clock')
                ex.require(st, s.rel_ok(st, t), 'deadline', 'duration given to the operating system is too long', inst)
                s.adv(st, 'mono', [(tout, simp(g['lb_mono'] + t))])
        old = ex.load_bytes(st, s.errno, 0, 4)
        ex.store_bytes(st, s.errno, 0, simp(z3.If(ret == 1, err, old)))
        if s.timed and base == 9 and s.dl:
            # the kernel does not know the operation: nothing was waited for, the caller starts over
            ns = z3.And(ret == 1, err == ENOSYS)
            g['hasfirst'] = simp(z3.If(ns, bv(0, 1), g['hasfirst']))
        g['toread'] = bv(0, 1)
        st.env[inst.dst] = simp(z3.If(ret == 1, bv(-1, 64), bv(0, 64)))
    # ------------------------------------------------------------ lock pool
    def lpcall(s, ex, st, k, args, inst):
        if k == 'lock' and s.m['native']: ex.fail(st, 'capability', 'operation of a natively waiting type uses the lock table', inst)
        r = AtomicSpec.lpcall(s, ex, st, k, args, inst)
        if k == 'lock': st.ghost['toread'] = bv(0, 1)
        return r
    def lpwait(s, ex, st, k, args, inst):
        m = s.m; g = st.ghost
        s.lp_ptr(ex, st, args[0], inst)
        if k == 'alloc_ws':
            if g['ws'] is not None: ex.fail(st, 'block', 'second wait state allocated', inst)
            ex.require(st, args[1] == s.obj.base, 'notify', 'wait state registered for another address', inst)
            p = fresh('ws', 64); g['ws'] = p; st.env[inst.dst] = p; return
        if k == 'free_ws':
            if g['ws'] is None: ex.fail(st, 'block', 'wait state freed twice', inst)
            else: ex.require(st, args[1] == g['ws'], 'block', 'wrong wait state freed', inst)
            g['ws'] = None; return
        if k in ('notify_one', 'notify_all'):
            if m['kind'] != 'notify': raise NotUnderContract('notification in a wait')
            ex.require(st, args[1] == s.obj.base, 'notify', 'notification for another address', inst)
            if m['all'] and k != 'notify_all': ex.fail(st, 'notify', 'notify_all wakes one waiter only', inst)
            else: ex.count('notify')
            g['lpn'] = 1; return
        if m['kind'] == 'notify': ex.fail(st, 'notify', 'notification blocks', inst); return []
        if g['ws'] is None: ex.fail(st, 'block', 'waits without a wait state', inst)
        else: ex.require(st, args[1] == g['ws'], 'block', 'waits with a wrong wait state', inst)
        if s.locked:
            if st.ghost['held']: ex.require(st, s.proj(ex.load_bytes(st, s.obj, 0, s.size)) == s.mask(s.old), 'block', 'blocks although the object may not hold the old value', inst)
        else:
            ex.require(st, z3.And(g['toread'] == 1, s.proj(g['lastrd']) == s.mask(s.old)), 'block', 'blocks without having seen the old value since the lock was taken: a notification can be lost', inst)
        s.close_crit(ex, st, 'wait')
        if k == 'wait':
            if s.timed: ex.fail(st, 'deadline', 'timed wait blocks without a timeout', inst)
            s.adv(st, 'mono')
        elif not s.timed: ex.fail(st, 'wait', 'untimed wait uses a timeout', inst)
        elif k == 'wait_for':
            R = args[2]
            ex.require(st, R > 0, 'deadline', 'non-positive duration given to the lock pool', inst)
            ex.require(st, s.rel_ok(st, sx(R)), 'deadline', 'duration given to the lock pool is too long', inst)
            r = fresh('timedout', 1)
            s.adv(st, 'mono', [(r == 1, simp(g['lb_mono'] + sx(R)))])
            if inst.dst: st.env[inst.dst] = r
        else:
            cid = simp(args[2])
            if not z3.is_bv_value(cid): raise NotUnderContract('variable clock id')
            b = {v: kk for kk, v in CLOCKID.items()}.get(cid.as_signed_long())
            t = s.timespec(ex, st, args[3], inst)
            if b != s.base: ex.fail(st, 'deadline', 'absolute deadline of one clock given to the lock pool as another clock', inst); b = 'boot'
            else: ex.require(st, s.abs_ok(st, t), 'deadline', 'deadline given to the lock pool is too late', inst)
            r = fresh('timedout', 1)
            s.adv(st, b, [(r == 1, t)])
            if inst.dst: st.env[inst.dst] = r
        s.open_crit(ex, st); g['toread'] = bv(0, 1)
    # ------------------------------------------------------------ loops
    def loop_candidates(s, ex, ent, hv, hvmap, L):
        out = []
        if not s.timed or not s.dl: return out
        lbs = [(l, hvmap[l]) for l in L if l[0] == 'ghost' and l[1].startswith('lb_')]
        for l, v in lbs: out.append(('%s does not go back' % l[1], v >= s.lv(ex, ent, l)))
        for l, v in lbs:
            b = l[1][3:]
            out.append(('%s in range' % l[1], v < T(LIM) if b != 'cust' else v < T(1 << 80)))
            if b != 'cust': out.append(('%s not negative' % l[1], v >= 0))
        for l in L:
            if l[0] == 'ghost': continue
            v = hvmap[l]
            if z3.is_bool(v) or v.size() in (1, 8, 32):
                # a variable that remembers how the loop got here (a flag, or the saved errno)
                w = v if z3.is_bool(v) else v != 0
                for l2, b in lbs:
                    if l2[1] != 'lb_' + s.base: continue
                    out.append(('%s means the deadline has passed' % (l,), z3.Implies(w, b >= s.D)))
                    out.append(('%s clear means the deadline has passed' % (l,), z3.Or(w, b >= s.D)))
                    if not z3.is_bool(v) and v.size() == 32: out.append(('%s as errno means the deadline has passed' % (l,), z3.Implies(v == 110, b >= s.D)))
            if z3.is_bool(v) or v.size() != 64: continue
            e = simp(sx(v) * T(s.unit))
            for l2, b in lbs:
                if l2[1] == 'lb_' + s.base: out.append(('%s is a past reading' % (l,), b >= e))
            out.append(('%s is the latest reading' % (l,), e == hvmap.get(('ghost', 'ln'), hv.ghost['ln'])))
            if s.base != 'cust': out.append(('%s in clock range' % (l,), z3.And(v >= 0, v < bv(LIM, 64))))
        return out
    def lv(s, ex, st, l): return ex.loc_val(st, l)
    # ------------------------------------------------------------ postconditions
    def seen(s, ex, st, rv):
        o = s.order_arg('order'); rd = s.reads(st)
        ex.require(st, z3.Or(*[z3.And(ok, s.proj(v) == rv) for v, hw, sw, ok in rd] or [FALSE]), 'value', 'returned value is not one the object held at one instant')
        ex.require(st, z3.Or(*[z3.And(ok, s.proj(v) == rv, s.ord_ok(o, 'load', hw, sw)) for v, hw, sw, ok in rd] or [FALSE]), 'order', 'wait reads the returned value with a weaker memory order than requested')
    def post_wait(s, ex, st, ret):
        s.no_updates(ex, st, 'wait')
        rv = s.mask(s.out_val(ex, st))
        s.seen(ex, st, rv)
        ex.require(st, rv != s.mask(s.old), 'wait', 'wait returns although the value it read equals the old value')
    def post_wait_timed(s, ex, st, ret):
        s.no_updates(ex, st, 'wait')
        rv = s.mask(s.out_val(ex, st)); to = bv2b(ret)
        s.seen(ex, st, rv)
        ex.require(st, z3.Or(to, rv != s.mask(s.old)), 'wait', 'timed wait returns without timeout although the value it read equals the old value')
        ex.require(st, z3.Or(z3.Not(to), rv == s.mask(s.old)), 'wait', 'timeout reported together with a changed value')
        ex.require(st, z3.Implies(to, st.ghost['lb_' + s.base] >= s.D), 'deadline', 'timeout can be reported before the deadline')
    def post_notify(s, ex, st, ret):
        s.no_updates(ex, st, 'notification')
        g = st.ghost; m = s.m
        if m['native']:
            if not g['woke']: ex.fail(st, 'notify', 'notification wakes nobody')
            else: ex.count('notify')
        elif not m.get('ipc'):
            if not g['lpn']: ex.fail(st, 'notify', 'notification does not reach the waiting-thread table')
            else: ex.count('notify')
        else: ex.count('notify')
