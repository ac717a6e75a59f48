"""Linear integer view of bit-vector obligations.

Used for obligations with divisions and multiplications by constants (time
arithmetic), which bit-blasting does not decide.  Every bit-vector term is
represented by the integer it denotes as a signed number; wrap-around is an
explicit integer quotient, so machine arithmetic is *not* treated as
mathematical.  Terms outside the fragment become unconstrained integers of the
right range, so `unsat` carries over to the bit-vector formula (only `unsat` is
ever used)."""
import z3

class LIA:
    def __init__(s):
        s.side = []; s.memo = {}; s.bmemo = {}; s.keep = []; s.n = 0; s.opaque = 0; s.consts = []; s.acc = [set(), set(), 0]; s.deps = {}
    def fresh(s, w=None):
        s.n += 1
        v = z3.Int('i!%d' % s.n)
        if w is not None: s.range(v, w)
        return v
    def range(s, v, w): s.side.append(v >= -(1 << (w - 1))); s.side.append(v < (1 << (w - 1)))
    def wrap(s, e, w, kmax):
        """signed w-bit value of integer expression e, |e| <= (kmax+1) * 2^(w-1)"""
        r = s.fresh(w); k = s.fresh()
        s.side.append(r == e - k * (1 << w)); s.side.append(k >= -kmax); s.side.append(k <= kmax)
        return r
    def uns(s, e, w):
        return z3.If(e < 0, e + (1 << w), e)
    def uns_of(s, t):
        w = t.size()
        if z3.is_bv_value(t): return z3.IntVal(t.as_long())
        if z3.is_app_of(t, z3.Z3_OP_ZERO_EXT): return s.uns_of(t.arg(0))
        return s.uns(s.int(t), w)
    def sig(s, u, w):
        """signed value of unsigned integer u in [0, 2^w)"""
        return z3.If(u >= (1 << (w - 1)), u - (1 << w), u)
    def rec(s, memo, t, f):
        k = t.get_id()
        r = memo.get(k)
        if r is None:
            outer = s.acc; s.acc = [set(), set(), 0]; n = len(s.side); c = len(s.consts); o = s.opaque
            r = memo[k] = f(t); s.keep.append(t)
            s.acc[0].update(range(n, len(s.side))); s.acc[1].update(range(c, len(s.consts)))
            if s.opaque > o: s.acc[2] = 1
            s.deps[k] = s.acc; mine = s.acc; s.acc = outer
        else: mine = s.deps[k]
        s.acc[0] |= mine[0]; s.acc[1] |= mine[1]; s.acc[2] |= mine[2]
        return r
    def int(s, t): return s.rec(s.memo, t, s._int)
    def opq(s, t):
        s.opaque += 1
        return s.fresh(t.size())
    def const_of(s, t):
        return t.as_signed_long() if z3.is_bv_value(t) else None
    def _int(s, t):
        w = t.size(); K = t.decl().kind()
        if z3.is_bv_value(t): return z3.IntVal(t.as_signed_long())
        ch = t.children()
        if K == z3.Z3_OP_UNINTERPRETED and not ch:
            v = s.fresh(w); s.consts.append((t, v)); return v
        if K == z3.Z3_OP_BADD:
            e = s.int(ch[0])
            for c in ch[1:]: e = e + s.int(c)
            return s.wrap(e, w, len(ch))
        if K == z3.Z3_OP_BSUB: return s.wrap(s.int(ch[0]) - s.int(ch[1]), w, 2)
        if K == z3.Z3_OP_BNEG: return s.wrap(-s.int(ch[0]), w, 1)
        if K == z3.Z3_OP_BMUL and len(ch) == 2:
            for a, b in ((0, 1), (1, 0)):
                c = s.const_of(ch[a])
                if c is not None: return s.wrap(s.int(ch[b]) * c, w, abs(c) + 1)
        if K == z3.Z3_OP_BSHL and s.const_of(ch[1]) is not None and 0 <= s.const_of(ch[1]) < 64:
            c = 1 << s.const_of(ch[1]); return s.wrap(s.int(ch[0]) * c, w, c + 1)
        if K in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I) and (s.const_of(ch[1]) or 0) > 0:
            c = s.const_of(ch[1]); a = s.int(ch[0])
            q, r = s.divmod(ch[0], a, c, 's')
            return q if K in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
        if K in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long() > 0:
            c = ch[1].as_long(); a = s.uns_of(ch[0])
            q, r = s.divmod(ch[0], a, c, 'u')
            v = q if K in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
            return s.sig(v, w)
        if K == z3.Z3_OP_SIGN_EXT: return s.int(ch[0])
        if K == z3.Z3_OP_ZERO_EXT: return s.uns_of(ch[0])
        if K == z3.Z3_OP_CONCAT:
            if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0 and len(ch) == 2: return s.uns_of(ch[1])
            # sign extension written as concat of sign copies
            x = ch[-1]; hb = x.size() - 1
            def signof(c): return z3.is_app_of(c, z3.Z3_OP_EXTRACT) and c.params() == [hb, hb] and c.arg(0).eq(x)
            if all(signof(c) for c in ch[:-1]): return s.int(x)
            # sum of parts, most significant part signed
            e = s.int(ch[0])
            for c in ch[1:]: e = e * (1 << c.size()) + s.uns_of(c)
            return e
        if K == z3.Z3_OP_EXTRACT:
            hi, lo = t.params(); a = ch[0]
            k = ('x', a.get_id(), hi, lo)
            e = s.int(a)
            if lo > 0:
                q = s.fresh(); r = s.fresh(); s.side += [e == q * (1 << lo) + r, r >= 0, r < (1 << lo)]; e = q
            if hi == a.size() - 1: return e
            q = s.fresh(); r = s.fresh(w); s.side.append(e == q * (1 << w) + r)
            return r
        if K == z3.Z3_OP_ITE: return z3.If(s.bool(ch[0]), s.int(ch[1]), s.int(ch[2]))
        if K == z3.Z3_OP_BNOT: return -s.int(ch[0]) - 1
        if K == z3.Z3_OP_BASHR and s.const_of(ch[1]) is not None and 0 <= s.const_of(ch[1]) < w:
            c = 1 << s.const_of(ch[1]); q = s.fresh(w); r = s.fresh(); s.side += [s.int(ch[0]) == q * c + r, r >= 0, r < c]
            return q
        if K == z3.Z3_OP_BLSHR and s.const_of(ch[1]) is not None and 0 < s.const_of(ch[1]) < w:
            c = 1 << s.const_of(ch[1]); q = s.fresh(w); r = s.fresh(); s.side += [s.uns_of(ch[0]) == q * c + r, r >= 0, r < c]
            return q
        if K in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and w == 1:
            bs = [s.int(c) == -1 for c in ch]
            f = z3.And(*bs) if K == z3.Z3_OP_BAND else z3.Or(*bs) if K == z3.Z3_OP_BOR else z3.Xor(bs[0], bs[1])
            if K != z3.Z3_OP_BXOR or len(bs) == 2: return z3.If(f, z3.IntVal(-1), z3.IntVal(0))
        return s.opq(t)
    def divmod(s, t, a, c, sg):
        k = (t.get_id(), c, sg)
        if k in s.memo:
            s.acc[0].update(s.deps[k][0]); return s.memo[k]
        n = len(s.side)
        q = s.fresh(); r = s.fresh()
        s.side.append(a == q * c + r)
        if sg == 's': s.side.append(z3.If(a >= 0, z3.And(r >= 0, r < c), z3.And(r <= 0, r > -c)))
        else: s.side += [r >= 0, r < c]
        s.memo[k] = (q, r); s.keep.append(t); s.deps[k] = [set(range(n, len(s.side))), set(), 0]
        return q, r
    def bool(s, f): return s.rec(s.bmemo, f, s._bool)
    def _bool(s, f):
        K = f.decl().kind(); ch = f.children()
        if z3.is_true(f) or z3.is_false(f): return f
        if K == z3.Z3_OP_AND: return z3.And(*[s.bool(c) for c in ch])
        if K == z3.Z3_OP_OR: return z3.Or(*[s.bool(c) for c in ch])
        if K == z3.Z3_OP_NOT: return z3.Not(s.bool(ch[0]))
        if K == z3.Z3_OP_IMPLIES: return z3.Implies(s.bool(ch[0]), s.bool(ch[1]))
        if K == z3.Z3_OP_XOR: return z3.Xor(s.bool(ch[0]), s.bool(ch[1]))
        if K == z3.Z3_OP_ITE: return z3.If(s.bool(ch[0]), s.bool(ch[1]), s.bool(ch[2]))
        if K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bool(ch[0]): e = s.bool(ch[0]) == s.bool(ch[1])
            elif z3.is_bv(ch[0]): e = s.int(ch[0]) == s.int(ch[1])
            else: return z3.Bool('o!%d' % f.get_id())
            return e if K == z3.Z3_OP_EQ else z3.Not(e)
        if K in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            a, b = s.int(ch[0]), s.int(ch[1])
            return {z3.Z3_OP_SLT: a < b, z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SGT: a > b, z3.Z3_OP_SGEQ: a >= b}[K]
        if K in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            a, b = s.uns_of(ch[0]), s.uns_of(ch[1])
            return {z3.Z3_OP_ULT: a < b, z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_UGT: a > b, z3.Z3_OP_UGEQ: a >= b}[K]
        if K == z3.Z3_OP_UNINTERPRETED and not ch: return f
        s.opaque += 1
        return z3.Bool('o!%d' % f.get_id())

ARITH = {z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BMUL}
_need = {}
def wants(e):
    """does the formula contain a division / multiplication of at least 32 bits?"""
    k = e.get_id()
    r = _need.get(k)
    if r is not None and r[0].eq(e): return r[1]
    seen = set(); st = [e]; res = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in ARITH and x.size() >= 32:
                res = True; break
            st.extend(x.children())
    _need[k] = (e, res)
    if len(_need) > 200000: _need.clear()
    return res

G = None
def solve(cs, timeout=20000):
    """unsat / sat / unknown; sat only if the translation lost nothing.  Also returns
    the values of the bit-vector constants in the integer model, as hints"""
    global G
    if G is None or len(G.keep) > 60000: G = LIA()
    L = G
    L.acc = [set(), set(), 0]
    fs = [L.bool(c) for c in cs]
    sides, consts, opq = L.acc
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(*[L.side[i] for i in sorted(sides)]); s.add(*fs)
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat and not opq:
        m = s.model(); h = []
        for i in consts:
            c, v = L.consts[i]
            x = m.eval(v, model_completion=True).as_long(); h.append((c, x & ((1 << c.size()) - 1)))
        return 'sat', h
    return 'unknown', None
