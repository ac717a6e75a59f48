"""Symbolic verification-condition generator over LLVM IR.

Executes one function under its contract.  Memory is divided into regions; the
*shared* region (the atomic object) is governed by rely/guarantee: a read gives
an arbitrary value unless the ghost lock of the object is held.  Loops are cut
at their header: everything the loop may change is havocked, subject to
invariants inferred Houdini-style and *proved* (initiation and consecution) by
the solver.  A bounded mode unrolls loops instead; it is used only to search
for concrete witnesses of an already failed obligation."""
import z3, re, time
from . import ll, lia

z3.set_param('model.completion', True)

BV = z3.BitVecVal
def bv(n, w): return z3.BitVecVal(n, w)
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
ZERO64 = bv(0, 64)

class NotUnderContract(Exception):
    """construct outside the verifier's reach (reported, never skipped)"""

A, R, SC = 1, 2, 4
IRORD = {None: 0, 'unordered': 0, 'monotonic': 0, 'acquire': A, 'release': R, 'acq_rel': A | R, 'seq_cst': 7}

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.trivial = 0; s.unknown = 0; s.paths = 0
STATS = Stats()

_simp_cache = {}
def simp(e):
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    v = z3.simplify(e)
    _simp_cache[k] = (e, v)
    if len(_simp_cache) > 200000: _simp_cache.clear()
    return v

def is_true(e): return z3.is_true(e)
def is_false(e): return z3.is_false(e)

_sat_cache = {}
def vars_of(c):
    """constants and uninterpreted functions of a formula, as ids"""
    k = c.get_id()
    r = _vo.get(k)
    if r is not None and r[0].eq(c): return r[1]
    seen = set(); out = set(); st = [c]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name() if x.num_args() == 0 else 'f:' + x.decl().name())
            st.extend(x.children())
    out = frozenset(out)
    if len(_vo) > 200000: _vo.clear()
    _vo[k] = (c, out)
    return out
_vo = {}
def flat1(c):
    """conjuncts of one condition, as (id, formula, variables); kept with the condition object"""
    try: return c._flat
    except AttributeError: pass
    cs = []; seen = set(); st = [c]
    while st:
        x = simp(st.pop())
        if z3.is_and(x): st.extend(x.children()[::-1]); continue
        if is_true(x): continue
        if is_false(x): cs = None; break
        i = x.get_id()
        if i not in seen: seen.add(i); cs.append((i, x, vars_of(x)))
    c._flat = cs
    return cs
def flat3(conds):
    out = []; seen = set()
    for c in conds:
        f = flat1(c)
        if f is None: return None
        for q in f:
            if q[0] not in seen: seen.add(q[0]); out.append(q)
    return out
def flat(conds):
    r = flat3(conds)
    return None if r is None else [q[1] for q in r]
def components(cs):
    """split a conjunction into variable-disjoint parts"""
    par = {}
    def find(x):
        p = par[x]
        while p != x: par[x] = par[p]; x = par[x]; p = par[x]
        return x
    for _, _, v in cs:
        rf = None
        for x in v:
            if x not in par: par[x] = x; r = x
            else: r = find(x)
            if rf is None: rf = r
            elif r != rf: par[r] = rf
    out = {}
    for q in cs:
        k = None
        for x in q[2]: k = find(x); break
        out.setdefault(k, []).append(q)
    return list(out.values())
def check(conds, timeout=20000):
    """sat / unsat / unknown of a conjunction (no model: see model_of)"""
    cs = flat3(conds)
    if cs is None: STATS.trivial += 1; return 'unsat', None
    if not cs: STATS.trivial += 1; return 'sat', None
    res = 'sat'
    parts = components(cs)
    # the part with the most recent condition first
    last = cs[-1][0]
    parts.sort(key=lambda p: not any(q[0] == last for q in p))
    for p in parts:
        r = check1([q[1] for q in p], timeout, tuple(sorted([q[0] for q in p])))
        if r == 'unsat': return 'unsat', None
        if r == 'unknown': res = 'unknown'
    return res, None
def check1(cs, timeout, key=None):
    if key is None: key = tuple(sorted(c.get_id() for c in cs))
    r = _sat_cache.get(key)
    if r is not None: return r[0]
    t = time.time(); res = None; mod = None
    STATS.queries += 1
    if any(lia.wants(c) for c in cs):
        r, mod = lia.solve(cs, timeout)
        if r != 'unknown': res = r
        else: timeout = min(timeout, 5000)
    if res is None:
        s = z3.SolverFor('QF_UFBV'); s.set('timeout', timeout); s.add(*cs)
        res = str(s.check()); mod = None
        if res == 'unknown': STATS.unknown += 1
        elif res == 'sat': mod = s.model()
    STATS.time += time.time() - t
    if len(_sat_cache) > 100000: _sat_cache.clear()
    _sat_cache[key] = (res, cs, mod)
    return res
def models_of(conds):
    """values of the constants in the models that made the last check of this conjunction satisfiable"""
    out = []
    cs = flat3(conds)
    if not cs: return out
    for p in components(cs):
        r = _sat_cache.get(tuple(sorted([q[0] for q in p])))
        if r is None or r[0] != 'sat' or r[2] is None: return []
        if isinstance(r[2], list): out += [(c, bv(x, c.size())) for c, x in r[2]]
        else: out += [(d(), r[2][d]) for d in r[2].decls() if d.arity() == 0]
    return out
def model_of(conds, timeout=60000):
    """a model of a satisfiable conjunction, or None"""
    cs = flat(conds)
    if cs is None: return None
    s = z3.Solver(); s.set('timeout', timeout); s.add(*cs)
    if any(lia.wants(c) for c in cs):
        r, h = lia.solve(cs, timeout)
        if r == 'sat': s.add(*[c == bv(x, c.size()) for c, x in h])
    return s.model() if s.check() == z3.sat else None

def has_quant(e):
    return False

def prove(pc, goal, timeout=20000):
    g = simp(goal)
    if is_true(g): STATS.trivial += 1; return 'proved', None
    r, _ = check(list(pc) + [z3.Not(g)], timeout)
    if r == 'unsat': return 'proved', None
    if r == 'sat': return 'refuted', None
    return 'unknown', None

_fresh = [0]
def fresh(name, w):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)
def freshb(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))

def concat_le(parts):
    """parts: list of BV, least significant first"""
    if len(parts) == 1: return parts[0]
    return z3.Concat(*reversed(parts))

def extract(e, lo, w):
    if w == e.size(): return e
    return z3.Extract(lo + w - 1, lo, e)

def b2bv(b): return z3.If(b, bv(1, 1), bv(0, 1))
def bv2b(e):
    e = simp(e)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, x, y = e.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            if x.as_long() == 1 and y.as_long() == 0: return c
            if x.as_long() == 0 and y.as_long() == 1: return z3.Not(c)
    return e == bv(1, 1)

# ---------------------------------------------------------------- memory
class Region:
    """kind: local | param | shared | const | array (symbolic word offsets) | func"""
    def __init__(s, name, kind, size=None, base=None, writable=True, align=1):
        s.name = name; s.kind = kind; s.size = size; s.writable = writable; s.align = align
        s.base = base if base is not None else z3.BitVec('&' + name, 64)
        s.init = None      # function off -> BV8 for initial content
        s.tag = None

class Content:
    """byte content with constant offsets: off -> (expr, byte index within expr)"""
    __slots__ = ('b',)
    def __init__(s, b=None): s.b = b if b is not None else {}
    def copy(s): return Content(dict(s.b))

class ArrContent:
    """content addressed by symbolic offsets, 8-byte words; a chain of updates"""
    __slots__ = ('rd',)
    def __init__(s, rd): s.rd = rd
    def copy(s): return ArrContent(s.rd)

class Ev:
    __slots__ = ('kind', 'off', 'size', 'rd', 'wr', 'hw', 'sw', 'fhw', 'text', 'x', 'legit', 'region')
    def __init__(s, kind, off=None, size=None, rd=None, wr=None, hw=0, sw=0, text='', legit=True, region=None, **x):
        s.kind = kind; s.off = off; s.size = size; s.rd = rd; s.wr = wr; s.hw = hw; s.sw = sw
        s.text = text; s.x = x; s.legit = legit; s.region = region
    def __repr__(s):
        return '%s[%s..+%s] rd=%s wr=%s hw=%d sw=%d %s' % (s.kind, s.off, s.size, s.rd, s.wr, s.hw, s.sw, s.x or '')

class State:
    def __init__(s):
        s.env = {}; s.poi = {}; s.mem = {}; s.pc = []; s.ev = []; s.fd = None; s.ghost = {}
        s.prev = None; s.heap = {}; s.trace = []; s.depth = {}
    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.poi = dict(s.poi); n.mem = {k: v.copy() for k, v in s.mem.items()}
        n.pc = list(s.pc); n.ev = list(s.ev); n.fd = s.fd; n.ghost = dict(s.ghost); n.prev = s.prev
        n.heap = dict(s.heap); n.trace = list(s.trace); n.depth = dict(s.depth)
        return n

class Obl:
    """a failed obligation"""
    def __init__(s, name, func, msg, model=None, state=None, status='refuted', extra=None, where=''):
        s.name = name; s.func = func; s.msg = msg; s.model = model; s.state = state; s.status = status; s.extra = extra or {}
        s.where = where
    def __repr__(s): return '%s in %s: %s [%s] %s' % (s.name, s.func, s.msg, s.status, s.where)

class Spec:
    """hooks a contract provides; defaults: nothing known about anything"""
    fd_vars = ()            # finite-domain variables (z3 consts)
    def call(s, ex, st, name, args, inst): raise NotUnderContract('call to %s' % name)
    def shared_load(s, ex, st, reg, off, size, inst, atomic, hw, sw): raise NotUnderContract('shared load')
    def shared_store(s, ex, st, reg, off, size, val, inst, atomic, hw, sw): raise NotUnderContract('shared store')
    def loop_neutral(s, ex, head, back): return []
    def on_ret(s, ex, st, val): pass
    def heap_load(s, ex, st, root, off, size, inst): raise NotUnderContract('load through unknown pointer %s+%s' % (root, off))
    def heap_store(s, ex, st, root, off, size, val, inst): raise NotUnderContract('store through unknown pointer %s+%s' % (root, off))
    def asm(s, ex, st, inst, args): return None
    def pre_loop(s, ex, st): pass
    def on_event(s, ex, st, ev): pass

MAXSTEPS = 200000

ALWAYS = {'loop-invariant', 'not-under-contract'}
class Exec:
    def __init__(s, mod, fn, spec, asm=None, bounded=None, ub=True):
        s.mod = mod; s.fn = fn; s.spec = spec; s.asmx = asm; s.bounded = bounded; s.ub = ub
        s.regions = []          # list of Region
        s.byname = {} ; s.phisub = {}
        s.fails = []            # Obl
        s.nobl = 0; s.ndis = 0
        s.bykind = {}
        s.only = None; s.nskip = 0   # obligation categories of interest (None: all), obligations left to other checks
        s.quiet = 0             # >0 during invariant inference: obligations not recorded
        s.loops = None
        s.steps = 0
        s.ufs = {}
        s.invs = []             # textual log of inferred invariants
        s.used_bounded = False
        s.deadline = None
        s.rank = {}
        ll.ensure_body(fn, mod)
        s.entry = fn.order[0]
        s.cfg()

    # ---- obligations
    def require(s, st, goal, name, msg, inst=None, extra=None):
        """prove goal under st.pc; record failure"""
        if s.quiet: return True
        if s.only is not None and name not in s.only and name not in ALWAYS: s.nskip += 1; return True
        r, m = prove(st.pc, goal)
        s.nobl += 1; s.bykind.setdefault(name, [0, 0])[0] += 1
        if r == 'proved': s.ndis += 1; s.bykind[name][1] += 1; return True
        if r == 'unknown' and not s.retry(list(st.pc) + [z3.Not(goal)]): s.ndis += 1; s.bykind[name][1] += 1; return True
        m = model_of(list(st.pc) + [z3.Not(goal)]) if len(s.fails) < 12 else None
        s.fails.append(Obl(name, s.fn.name, msg, m, st, r, extra, where=(inst.text if inst is not None else '')))
        return False
    def fail(s, st, name, msg, inst=None, extra=None):
        if s.quiet: return
        if s.only is not None and name not in s.only and name not in ALWAYS: s.nskip += 1; return
        r, m = check(st.pc)
        if r == 'unsat': return
        s.nobl += 1; s.bykind.setdefault(name, [0, 0])[0] += 1
        if r == 'sat' and len(s.fails) < 12: m = model_of(st.pc)
        s.fails.append(Obl(name, s.fn.name, msg, m, st, 'refuted' if r == 'sat' else 'unknown', extra, where=(inst.text if inst is not None else '')))
    def retry(s, conds):
        """an obligation the solvers did not decide in time: once more, all of it, with more time; False if proved"""
        cs = flat(conds)
        if cs is None: return False
        if any(lia.wants(c) for c in cs) and lia.solve(cs, 60000)[0] == 'unsat': return False
        sv = z3.Solver(); sv.set('timeout', 60000 if not any(lia.wants(c) for c in cs) else 10000); sv.add(*cs)
        return sv.check() != z3.unsat
    def count(s, name):
        if s.quiet: return
        if s.only is not None and name not in s.only and name not in ALWAYS: s.nskip += 1; return
        s.nobl += 1; s.ndis += 1
        k = s.bykind.setdefault(name, [0, 0]); k[0] += 1; k[1] += 1

    # ---- CFG / loops
    def succ(s, b):
        i = b.insts[-1]
        if i.op == 'br': return list(i.x['to'])
        if i.op == 'switch': return [i.x['default']] + [c[1] for c in i.x['cases']]
        if i.op == 'call' and False: return []
        if i.op == 'invoke' or (i.op == 'call' and 'to' in i.x): return list(i.x['to'])
        return []
    def cfg(s):
        f = s.fn; order = []; seen = set()
        # iterative DFS postorder
        st = [(s.entry, iter(s.succ(f.blocks[s.entry])))]; seen.add(s.entry)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); st.append((m, iter(s.succ(f.blocks[m])))); break
            else: order.append(n); st.pop()
        rpo = order[::-1]; idx = {n: i for i, n in enumerate(rpo)}
        s.rank = idx
        preds = {n: [] for n in rpo}
        for n in rpo:
            for m in s.succ(f.blocks[n]): preds[m].append(n)
        dom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in preds[n] if p in dom]
                d = ps[0]
                for p in ps[1:]:
                    a, b = p, d
                    while a != b:
                        while idx[a] > idx[b]: a = dom[a]
                        while idx[b] > idx[a]: b = dom[b]
                    d = a
                if dom.get(n) != d: dom[n] = d; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == rpo[0]: return False
                b = dom[b]
        s.loops = {}
        s.irreducible = False
        for n in rpo:
            for m in s.succ(f.blocks[n]):
                if idx[m] <= idx[n]:
                    if not dominates(m, n): s.irreducible = True; continue
                    body = s.loops.setdefault(m, {m})
                    stk = [n]
                    while stk:
                        k = stk.pop()
                        if k in body: continue
                        body.add(k); stk.extend(preds[k])
        # live-in names per block are not computed; env keeps all

    # ---- regions
    def add_region(s, r):
        s.regions.append(r); s.byname[r.name] = r; return r
    def reg_of_base(s, e):
        n = e.decl().name()
        if n.startswith('&'): return s.byname.get(n[1:])
        return None
    def decompose(s, p):
        """pointer expr -> (root, offset expr): root a Region or None, offset BV64"""
        p = simp(p)
        terms = []
        def walk(e):
            if z3.is_app_of(e, z3.Z3_OP_BADD):
                for c in e.children(): walk(c)
            else: terms.append(e)
        walk(p)
        root = None; rest = []
        for t in terms:
            if root is None and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = s.reg_of_base(t)
                if r is not None: root = r; continue
            rest.append(t)
        if not rest: off = ZERO64
        elif len(rest) == 1: off = rest[0]
        else:
            off = rest[0]
            for t in rest[1:]: off = off + t
            off = simp(off)
        return root, off
    def split_const(s, p):
        p = simp(p); c = 0; rest = []
        ch = p.children() if z3.is_app_of(p, z3.Z3_OP_BADD) else [p]
        for t in ch:
            if z3.is_bv_value(t): c += t.as_long()
            else: rest.append(t)
        if not rest: return None, c
        r = rest[0]
        for t in rest[1:]: r = r + t
        return r, c

    def alias(s, st, p):
        """resolve a symbolic pointer that is not syntactically based on a region: the spec may know"""
        return None

    # ---- local byte memory
    def content(s, st, reg):
        c = st.mem.get(reg.name)
        if c is None: c = st.mem[reg.name] = Content()
        return c
    def load_bytes(s, st, reg, off, n):
        c = s.content(st, reg)
        out = []
        i = 0
        while i < n:
            o = off + i
            e = c.b.get(o)
            if e is None:
                if reg.init is not None: v = reg.init(o)
                else: v = fresh('%s[%d]undef' % (reg.name, o), 8) if reg.kind == 'local' else z3.BitVec('%s[%d]' % (reg.name, o), 8)
                if reg.kind == 'local' and reg.init is None:
                    pass
                else: c.b[o] = (v, 0)
                out.append(v); i += 1
                continue
            x, k = e
            # gather run of the same expr
            j = 1
            while i + j < n and k + j < x.size() // 8:
                e2 = c.b.get(o + j)
                if e2 is None or e2[1] != k + j or not e2[0].eq(x): break
                j += 1
            out.append(extract(x, 8 * k, 8 * j)); i += j
        return simp(concat_le(out)) if len(out) > 1 else out[0]
    def store_bytes(s, st, reg, off, val):
        n = val.size() // 8
        c = s.content(st, reg)
        for k in range(n): c.b[off + k] = (val, k)

    def mem_load(s, st, p, nbits, inst, atomic=False, volatile=False, hw=0, sw=0, n=None):
        """load a value of nbits (memory size ceil) from pointer p"""
        nbytes = n or (nbits + 7) // 8
        root, off = s.decompose(p)
        if root is None:
            r2 = s.spec.resolve(s, st, p) if hasattr(s.spec, 'resolve') else None
            if r2 is None:
                v = s.spec.heap_load(s, st, p, nbytes, inst)
                return extract(v, 0, nbits) if v.size() != nbits else v
            root, off = r2
        if root.kind == 'array':
            v = s.spec.array_load(s, st, root, off, nbytes, inst)
            return extract(v, 0, nbits) if v.size() != nbits else v
        if not z3.is_bv_value(off):
            if hasattr(s.spec, 'symoff_load'):
                v = s.spec.symoff_load(s, st, root, off, nbytes, inst, atomic, volatile, hw, sw)
                return extract(v, 0, nbits) if v.size() != nbits else v
            raise NotUnderContract('symbolic offset %s into %s' % (off, root.name))
        o = off.as_signed_long()
        if root.size is not None and (o < 0 or o + nbytes > root.size):
            s.fail(st, 'memory-safety', 'read of %d bytes at offset %d outside %s (size %s)' % (nbytes, o, root.name, root.size), inst)
            return fresh('oob', nbits)
        if root.kind == 'shared':
            v = s.spec.shared_load(s, st, root, o, nbytes, inst, atomic, volatile, hw, sw)
        else:
            if root.size is not None: s.count('memory-safety')
            v = s.load_bytes(st, root, o, nbytes)
        return extract(v, 0, nbits) if v.size() != nbits else v

    def mem_store(s, st, p, val, inst, atomic=False, volatile=False, hw=0, sw=0, n=None):
        nbytes = n or (val.size() + 7) // 8
        if val.size() != nbytes * 8: val = z3.ZeroExt(nbytes * 8 - val.size(), val)
        root, off = s.decompose(p)
        if root is None:
            r2 = s.spec.resolve(s, st, p) if hasattr(s.spec, 'resolve') else None
            if r2 is None:
                s.spec.heap_store(s, st, p, nbytes, val, inst); return
            root, off = r2
        if root.kind == 'array':
            s.spec.array_store(s, st, root, off, nbytes, val, inst); return
        if not z3.is_bv_value(off):
            if hasattr(s.spec, 'symoff_store'):
                s.spec.symoff_store(s, st, root, off, nbytes, val, inst, atomic, volatile, hw, sw); return
            raise NotUnderContract('symbolic offset %s into %s' % (off, root.name))
        o = off.as_signed_long()
        if root.size is not None and (o < 0 or o + nbytes > root.size):
            s.fail(st, 'memory-safety', 'write of %d bytes at offset %d outside %s (size %s)' % (nbytes, o, root.name, root.size), inst)
            return
        if root.kind == 'shared':
            s.spec.shared_store(s, st, root, o, nbytes, val, inst, atomic, volatile, hw, sw)
        else:
            if root.size is not None: s.count('memory-safety')
            if not root.writable: s.fail(st, 'frame', 'write to read-only %s' % root.name, inst)
            s.store_bytes(st, root, o, val)

    # ---- globals
    def global_region(s, st, name):
        r = s.byname.get('@' + name)
        if r is not None: return r
        g = s.mod.globals.get(name)
        if g is None:
            r = Region('@' + name, 'func'); return s.add_region(r)
        try: size = ll.size_of(g['t'], s.mod)
        except Exception: size = None
        hook = s.spec.global_region(s, name, g, size) if hasattr(s.spec, 'global_region') else None
        if hook is not None: return s.add_region(hook)
        r = Region('@' + name, 'const' if g['const'] else 'global', size, writable=not g['const'])
        if g['const'] and g['init'] is not None:
            bs = s.flatten_const(g['init'])
            r.init = lambda o, bs=bs: bs[o]
        elif not g['const']:
            r.init = lambda o, nm=name: z3.BitVec('@%s[%d]' % (nm, o), 8)
        return s.add_region(r)
    def flatten_const(s, v):
        t = ll.resolve(v.t, s.mod)
        n = ll.size_of(t, s.mod)
        if v.k == 'zero' or v.k == 'null': return [bv(0, 8)] * n
        if v.k in ('undef', 'poison'): return [fresh('undef', 8) for _ in range(n)]
        if v.k == 'str':
            b = v.v[2:-1]
            out = []; i = 0
            while i < len(b):
                if b[i] == '\\':
                    if b[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(b[i+1:i+3], 16)); i += 3
                else: out.append(ord(b[i])); i += 1
            return [bv(x, 8) for x in out]
        if v.k == 'agg':
            out = [bv(0, 8)] * n
            for i, e in enumerate(v.v):
                o = ll.field_off(t, i, s.mod) if t[0] == 'st' else i * ll.size_of(t[2], s.mod)
                eb = s.flatten_const(e)
                out[o:o+len(eb)] = eb
            return out
        x = s.ev(State(), v)
        w = n * 8
        if x.size() < w: x = z3.ZeroExt(w - x.size(), x)
        return [extract(x, 8 * i, 8) for i in range(n)]

    # ---- operands
    def ev(s, st, v):
        k = v.k
        if k == 'local':
            return st.env[v.v]
        if k == 'int':
            t = v.t
            if t[0] == 'i': return bv(v.v, t[1])
            if t[0] == 'vec': raise NotUnderContract('int vec')
            return bv(v.v, 64)
        if k == 'null': return ZERO64
        if k == 'zero': return s.zero(v.t)
        if k in ('undef', 'poison'): return s.freshv('undef', v.t)
        if k == 'fp': return s.fpconst(v)
        if k == 'global': return s.global_region(st, v.v).base
        if k == 'agg':
            t = ll.resolve(v.t, s.mod)
            if t[0] == 'vec': return concat_le([s.ev(st, e) for e in v.v])
            return tuple(s.ev(st, e) for e in v.v)
        if k == 'cexpr':
            op, a, x = v.v
            if op == 'getelementptr':
                return s.gep(st, x['src'], a, None)[0]
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                return s.cast(op, s.ev(st, a[0]), x['to'])
            if op in ll.BIN: return s.binop(op, s.ev(st, a[0]), s.ev(st, a[1]))
            if op == 'icmp': return b2bv(s.icmp(x['flags'][0], s.ev(st, a[0]), s.ev(st, a[1])))
        raise NotUnderContract('operand %r' % (v,))
    def zero(s, t):
        t = ll.resolve(t, s.mod)
        if t[0] == 'st': return tuple(s.zero(e) for e in t[1])
        if t[0] == 'arr': return tuple(s.zero(t[2]) for _ in range(t[1]))
        return bv(0, ll.bits_of(t, s.mod))
    def freshv(s, nm, t):
        t = ll.resolve(t, s.mod)
        if t[0] == 'st': return tuple(s.freshv(nm, e) for e in t[1])
        if t[0] == 'arr': return tuple(s.freshv(nm, t[2]) for _ in range(t[1]))
        return fresh(nm, ll.bits_of(t, s.mod))
    def fpconst(s, v):
        import struct
        t = v.t; w = ll.bits_of(t, s.mod)
        if v.v.startswith('0xK'): return bv(int(v.v[3:], 16), 80)
        if v.v.startswith('0x'):
            d = int(v.v[2:], 16)
            if t[0] == 'double': return bv(d, 64)
            f = struct.unpack('<d', struct.pack('<Q', d))[0]
            return bv(struct.unpack('<I', struct.pack('<f', f))[0], 32)
        f = float(v.v)
        if t[0] == 'double': return bv(struct.unpack('<Q', struct.pack('<d', f))[0], 64)
        return bv(struct.unpack('<I', struct.pack('<f', f))[0], 32)
    def poison_of(s, st, v):
        if v.k == 'local': return st.poi.get(v.v)
        return None

    # ---- arithmetic
    def uf(s, name, *args):
        rng = args[-1]; a = args[:-1]
        return UF(name, [x.size() for x in a], rng)(*a)
    def fbin(s, op, a, b):
        return fp2(op, a, b)
    def binop(s, op, a, b):
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'sdiv': return a / b
        if op == 'urem': return z3.URem(a, b)
        if op == 'srem': return z3.SRem(a, b)
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return s.fbin(op, a, b)
        raise NotUnderContract(op)
    def icmp(s, p, a, b):
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]()
    def cast(s, op, a, t):
        t = ll.resolve(t, s.mod)
        w = ll.bits_of(t, s.mod)
        if op == 'trunc': return extract(a, 0, w)
        if op == 'zext': return z3.ZeroExt(w - a.size(), a) if w > a.size() else a
        if op == 'sext': return z3.SignExt(w - a.size(), a) if w > a.size() else a
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if a.size() == w: return a
            if a.size() > w: return extract(a, 0, w)
            return z3.ZeroExt(w - a.size(), a)
        return UF('%s_%d_%d' % (op, a.size(), w), [a.size()], w)(a)
    def gep(s, st, src, args, flags):
        p = s.ev(st, args[0]); t = src
        for i, a in enumerate(args[1:]):
            x = s.ev(st, a)
            if x.size() < 64: x = z3.SignExt(64 - x.size(), x)
            if i == 0: p = p + x * bv(ll.size_of(t, s.mod), 64)
            else:
                t = ll.resolve(t, s.mod)
                if t[0] == 'st':
                    k = simp(x).as_long(); p = p + bv(ll.field_off(t, k, s.mod), 64); t = t[1][k]
                else:
                    t = t[2]; p = p + x * bv(ll.size_of(t, s.mod), 64)
        return simp(p), t

    # ---- branching with finite-domain variables
    def fd_eval(s, st, cond):
        """if cond depends only on finite-domain vars: return list of (bool, fd subset), else None"""
        if not st.fd: return None
        vs = free_consts(cond)
        names = {v.get_id() for v in s.spec.fd_vars}
        if not vs or any(v.get_id() not in names for v in vs): return None
        yes = []; no = []
        for asg in st.fd:
            r = simp(z3.substitute(cond, *[(v, x) for v, x in zip(s.spec.fd_vars, asg)]))
            if is_true(r): yes.append(asg)
            elif is_false(r): no.append(asg)
            else: return None
        return yes, no
    def set_fd(s, st, lst):
        st.fd = lst
        st.ghost['#fd'] = z3.Or(*[z3.And(*[v == x for v, x in zip(s.spec.fd_vars, a)]) for a in lst]) if lst else FALSE
        st.pc = [c for c in st.pc if c.get_id() != st.ghost.get('#fdid')]
        c = simp(st.ghost['#fd']); st.ghost['#fdid'] = c.get_id(); st.pc.append(c)
        if len(lst) == 1:
            st.ghost['#one'] = [(v, x) for v, x in zip(s.spec.fd_vars, lst[0])]
    def fork(s, st, cond):
        """yield (taken, state) for feasible truth values of cond (z3 Bool)"""
        c = simp(cond)
        if is_true(c): return [(True, st)]
        if is_false(c): return [(False, st)]
        r = s.fd_eval(st, c)
        if r is not None:
            yes, no = r
            out = []
            if yes and no:
                s2 = st.copy(); s.set_fd(s2, no); s.set_fd(st, yes)
                return [(True, st), (False, s2)]
            return [(True, st)] if yes else [(False, st)]
        a, _ = check(st.pc + [c]); nc = simp(z3.Not(c)); b, _ = check(st.pc + [nc])
        out = []
        if a != 'unsat' and b != 'unsat':
            s2 = st.copy(); s2.pc.append(nc); st.pc.append(c)
            return [(True, st), (False, s2)]
        if a != 'unsat': st.pc.append(c); return [(True, st)]
        if b != 'unsat': st.pc.append(nc); return [(False, st)]
        return []

    # ---- main loop
    def run(s, st, block=None, stack=(), inside=None):
        """execute until return / back edge; yields outcomes
        inside: set of blocks; leaving it gives an 'exit' outcome (used while inferring)"""
        return s.run_from(st, block or s.entry, None, stack, inside)

    def do_block(s, st, bname, frm, skip_phi=False):
        b = s.fn.blocks[bname]
        if not skip_phi: s.do_phis(st, b, frm)
        st.trace.append(bname)
        states = [(st, 0)]
        outs = []
        while states:
            st, i = states.pop()
            insts = b.insts
            while i < len(insts):
                s.steps += 1
                if s.steps > MAXSTEPS: raise NotUnderContract('too many steps')
                if s.deadline and time.time() > s.deadline: raise NotUnderContract('time limit')
                I = insts[i]
                if I.op == 'phi': i += 1; continue
                if I.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    outs.extend(s.terminator(st, I)); break
                r = s.step(st, I)
                if r is None:
                    if 'to' in I.x and I.op in ('call', 'invoke'):
                        outs.append(('goto', I.x['to'][0], st)); break
                    i += 1; continue
                # list of successor states (forked) or [] if stuck
                if 'to' in I.x and I.op in ('call', 'invoke'):
                    for s2 in r: outs.append(('goto', I.x['to'][0], s2))
                    break
                if not r: break
                for s2 in r[1:]: states.append((s2, i + 1))
                st = r[0]; i += 1
            else: raise NotUnderContract('block without terminator')
        return outs

    def do_phis(s, st, b, frm):
        vals = []
        for I in b.insts:
            if I.op != 'phi': break
            for v, f in I.x['inc']:
                if f == frm:
                    vals.append((I.dst, s.ev(st, v), s.poison_of(st, v))); break
            else: raise NotUnderContract('phi without edge %s' % frm)
        for d, v, p in vals:
            st.env[d] = v
            if p is not None: st.poi[d] = p
            else: st.poi.pop(d, None)

    def need_nonpoison(s, st, v, what, inst):
        p = s.poison_of(st, v)
        if p is not None and not is_false(p):
            ok = s.require(st, z3.Not(p), 'no-undefined-behaviour', 'value computed with undefined behaviour is used: %s' % what, inst)
            st.pc.append(z3.Not(p)); st.poi.pop(v.v, None)

    def terminator(s, st, I):
        if I.op == 'br':
            if len(I.x['to']) == 1: return [('goto', I.x['to'][0], st)]
            s.need_nonpoison(st, I.args[0], 'branch condition', I)
            c = bv2b(s.ev(st, I.args[0]))
            return [('goto', I.x['to'][0 if t else 1], s2) for t, s2 in s.fork(st, c)]
        if I.op == 'switch':
            s.need_nonpoison(st, I.args[0], 'switch', I)
            v = s.ev(st, I.args[0])
            outs = []; cur = st
            for cv, lab in I.x['cases']:
                nxt = None
                for t, s2 in s.fork(cur, v == bv(cv, v.size())):
                    if t: outs.append(('goto', lab, s2))
                    else: nxt = s2
                cur = nxt
                if cur is None: break
            if cur is not None: outs.append(('goto', I.x['default'], cur))
            return outs
        if I.op == 'ret':
            v = None
            if I.args:
                if I.args[0].k == 'local' : s.need_nonpoison(st, I.args[0], 'return value', I)
                v = s.ev(st, I.args[0])
            return [('ret', v, st)]
        if I.op == 'unreachable':
            return [('unreachable', None, st)]
        return [('stuck', I.op, st)]

    # ---- loops
    def do_loop(s, st, H, frm, stack, inside):
        b = s.fn.blocks[H]; body = s.loops[H]
        if s.bounded is not None:
            n = st.depth.get(H, 0)
            return s.loop_unrolled(st, H, frm, stack, inside)
        # a loop whose trip count is decided by constants is executed exactly
        r = s.try_concrete(st, H, frm, stack, inside)
        if r is not None: return r
        return s.loop_cut(st, H, frm, stack, inside)

    def loop_unrolled(s, st, H, frm, stack, inside):
        out = []
        work = [(st, frm, 0)]
        body = s.loops[H]
        while work:
            st, frm, n = work.pop()
            if n > s.bounded: s.used_bounded = True; continue
            for o in s.run_loop_body(st, H, frm, stack, body):
                if o[0] == 'back' and o[1] == H: work.append((o[2], o[2].prev, n + 1))
                elif o[0] == 'exit':
                    out.extend(s.resume_at(o[2], o[1], stack, inside))
                else: out.append(o)
        return out

    def resume_at(s, st, blk, stack, inside):
        # continue outside the loop; the predecessor block is st.prev
        frm = st.prev
        if inside is not None and blk not in inside: return [('exit', blk, st)]
        if blk in stack: return [('back', blk, st)]
        if blk in s.loops: return s.do_loop(st, blk, frm, stack, inside)
        outs = []
        for o in s.do_block(st, blk, frm):
            if o[0] == 'goto':
                o[2].prev = blk
                outs.extend(s.run_from(o[2], o[1], blk, stack, inside))
            else: outs.append(o)
        return outs
    def run_from(s, st, blk, frm, stack, inside):
        out = []
        work = [(st, blk, frm)]
        while work:
            st, bname, frm = work.pop()
            if inside is not None and bname not in inside:
                st.prev = frm; out.append(('exit', bname, st)); continue
            if bname in stack:
                st.prev = frm; out.append(('back', bname, st)); continue
            if bname in s.loops:
                out.extend(s.do_loop(st, bname, frm, stack, inside)); continue
            for o in s.do_block(st, bname, frm):
                if o[0] == 'goto': work.append((o[2], o[1], bname))
                else: out.append(o)
        return out
    def run_loop_body(s, st, H, frm, stack, body, skip_phi=False):
        """execute one iteration from header; outcomes back(H) / exit / ret ..."""
        out = []
        stk = tuple(stack) + (H,)
        for o in s.do_block(st, H, frm, skip_phi):
            if o[0] == 'goto': out.extend(s.run_from(o[2], o[1], H, stk, body))
            else: out.append(o)
        return out

    def try_concrete(s, st, H, frm, stack, inside, limit=70):
        """execute the loop exactly while every exit decision is a constant"""
        body = s.loops[H]
        s0 = st.copy(); cur = [(s0, frm)]; n = 0
        base = len(st.pc)
        s.quiet += 1; snap = s.steps
        ok = True
        while cur:
            n += 1
            if n > limit: ok = False; break
            c, f = cur.pop()
            nev = len(c.ev); npc = len(c.pc)
            outs = s.run_loop_body(c, H, f, stack, body)
            if len(outs) != 1 or len(outs[0][2].pc) != npc or len(outs[0][2].ev) != nev or outs[0][0] not in ('back', 'exit'):
                ok = False; break
            o = outs[0]
            if o[0] == 'back' and o[1] == H: cur.append((o[2], o[2].prev))
            elif o[0] == 'back': ok = False; break
        s.quiet -= 1
        if not ok: return None
        # replay for real with obligations on
        cur = st; f = frm
        while True:
            o = s.run_loop_body(cur, H, f, stack, body)[0]
            if o[0] == 'back': cur = o[2]; f = o[2].prev; continue
            return s.resume_at(o[2], o[1], stack, inside)

    def loop_cut(s, st, H, frm, stack, inside):
        b = s.fn.blocks[H]; body = s.loops[H]
        ent = st.copy()
        s.do_phis(ent, b, frm)
        s.spec.pre_loop(s, ent)
        phis = [I.dst for I in b.insts if I.op == 'phi']
        # pseudo-phis over memory, heap and ghost state, grown until stable
        memlocs = {}     # (region name, off) -> size   chunks
        ghosts = set(); heaps = set(); arrs = set()
        s.loop_last = None
        for rnd in range(12):
            hv, hvmap = s.havoc(ent, phis, memlocs, ghosts, heaps, arrs, H)
            s.quiet += 1
            outs = s.run_loop_body(hv.copy(), H, frm, stack, body, skip_phi=True)
            s.quiet -= 1
            backs = [o[2] for o in outs if o[0] == 'back' and o[1] == H]
            s.loop_last = hv, phis, [s.at_back(bk, H) for bk in backs], ent
            grown = False
            for bk in backs:
                for rn, c in bk.mem.items():
                    hc = hv.mem.get(rn)
                    if isinstance(c, ArrContent):
                        if hc is None or hc.rd is not c.rd:
                            if rn not in arrs: arrs.add(rn); grown = True
                        continue
                    for off, (x, k) in c.b.items():
                        h = hc.b.get(off) if hc is not None else None
                        if h is None or not (h[1] == k and h[0].eq(x)):
                            reg = s.byname[rn]
                            if h is None and (reg.kind == 'local' and reg.init is None):
                                h0 = None
                            key = (rn, off - k, x.size() // 8)
                            if h is None and reg.init is not None and x.eq(reg.init(off)): continue
                            if h is None and reg.kind == 'param' and z3.is_const(x) and x.decl().name() == '%s[%d]' % (rn, off): continue
                            if (rn, off) in memlocs_bytes(memlocs): continue
                            add_chunk(memlocs, rn, off - k, x.size() // 8); grown = True
                for g, v in bk.ghost.items():
                    if g.startswith('#'): continue
                    h = hv.ghost.get(g)
                    if (v is None) != (h is None) or (z3.is_expr(v) and z3.is_expr(h) and not v.eq(h)) or (not z3.is_expr(v) and v != h):
                        if z3.is_expr(v):
                            if g not in ghosts: ghosts.add(g); grown = True
                        else:
                            raise NotUnderContract('ghost state %s changes in a loop' % g)
                for hk, v in bk.heap.items():
                    h = hv.heap.get(hk)
                    if h is None or not v.eq(h):
                        if hk not in heaps: heaps.add(hk); grown = True
            if not grown: break
        else: raise NotUnderContract('loop memory havoc does not stabilise')
        # candidate invariants
        bps = [s.at_back(bk, H) for bk in backs]
        cand = s.candidates(ent, hv, hvmap, phis, memlocs, ghosts, bps)
        evfacts = s.event_candidates(ent, hv, phis, memlocs, bps)
        cand = [c for c in cand if s.holds_at(ent, c, hvmap, phis, memlocs, ghosts)]
        # Houdini
        for rnd in range(30):
            hv2 = hv.copy()
            for c in cand: hv2.pc.append(c[1])
            for ef in evfacts: hv2.ev.append(ef.make(s.loc_val(hv2, ef.loc)))
            s.quiet += 1
            outs = s.run_loop_body(hv2.copy(), H, frm, stack, body, skip_phi=True)
            s.quiet -= 1
            backs = [o[2] for o in outs if o[0] == 'back' and o[1] == H]
            drop = []
            for bk in backs:
                bp = s.at_back(bk, H)
                for c in cand:
                    if any(c is q for q in drop) or s.holds_at(bp, c, hvmap, phis, memlocs, ghosts): continue
                    drop.append(c)
                    # the state that refutes this one usually refutes others
                    m = s.witness(bp, s.at_state(bp, c, hvmap))
                    if m is None: continue
                    for q in cand:
                        if not any(q is d for d in drop) and is_false(simp(z3.substitute(s.at_state(bp, q, hvmap), *m))): drop.append(q)
            dropf = []
            for ef in evfacts:
                ok = ef.holds(s, ent, s.loc_val(ent, ef.loc))
                if ok:
                    for bk in backs:
                        bp = s.at_back(bk, H)
                        if not ef.holds(s, bp, s.loc_val(bp, ef.loc)): ok = False; break
                if not ok: dropf.append(ef)
            if not drop and not dropf: break
            cand = [c for c in cand if not any(c is q for q in drop)]; evfacts = [e for e in evfacts if e not in dropf]
        else: raise NotUnderContract('invariant inference does not stabilise')
        # loop neutrality of the ghost trace etc, decided by the spec
        s.cur_tmpl = hv2.ghost.get('#tmpl')
        for bk in backs:
            bp = s.at_back(bk, H)
            for (goal, name, msg) in s.spec.loop_neutral(s, hv2, bp):
                s.require(bp, goal, name, msg)
        if not s.quiet:
            for c in cand: s.count('loop-invariant')
            for e in evfacts: s.count('loop-invariant')
            s.invs.append((H, [c[0] for c in cand] + [repr(e) for e in evfacts]))
        # final: execute from the cut state, recording obligations
        res = []
        for o in s.run_loop_body(hv2, H, frm, stack, body, skip_phi=True):
            if o[0] == 'back' and o[1] == H: continue
            if o[0] == 'exit': res.extend(s.resume_at(o[2], o[1], stack, inside))
            else: res.append(o)
        return res

    def at_back(s, bk, H):
        """state at the header after following the back edge (phis assigned)"""
        n = bk.copy(); s.do_phis(n, s.fn.blocks[H], bk.prev); return n

    def havoc(s, ent, phis, memlocs, ghosts, heaps, arrs, H):
        hv = ent.copy(); m = {}
        for p in phis:
            v = ent.env[p]
            if isinstance(v, tuple): raise NotUnderContract('aggregate phi')
            f = s.spec.havoc_phi(s, ent, hv, p) if hasattr(s.spec, 'havoc_phi') else None
            if f is None: f = fresh('%s' % p, v.size())
            elif isinstance(f, tuple): f, var, back = f; s.phisub[f.get_id()] = (f, var, back)
            hv.env[p] = f; m[('phi', p)] = f; hv.poi.pop(p, None)
        for (rn, off), n in memlocs.items():
            f = fresh('%s[%d]' % (rn, off), 8 * n); s.store_bytes(hv, s.byname[rn], off, f); m[('mem', rn, off, n)] = f
        for g in ghosts:
            v = ent.ghost[g]
            f = freshb(g) if z3.is_bool(v) else fresh(g, v.size()); hv.ghost[g] = f; m[('ghost', g)] = f
        for hk in heaps:
            v = hv.heap.get(hk)
            if v is None: raise NotUnderContract('heap field first touched in loop')
            _fresh[0] += 1
            hv.heap[hk] = z3.Const('heap%s!%d' % (hk, _fresh[0]), v.sort())
        if hasattr(s.spec, 'on_havoc'): s.spec.on_havoc(s, ent, hv, phis)
        for rn in arrs:
            if hasattr(s.spec, 'havoc_array'): s.spec.havoc_array(s, hv, rn)
            else: raise NotUnderContract('array modified in loop')
        hv.ev.append(Ev('loop', x_=H))
        # the loop may contain fences/barriers: drop nothing, they only strengthen
        return hv, m

    def loc_val(s, st, loc):
        if loc[0] == 'phi': return st.env[loc[1]]
        if loc[0] == 'mem': return s.load_bytes(st, s.byname[loc[1]], loc[2], loc[3])
        if loc[0] == 'ghost': return st.ghost[loc[1]]

    def locs(s, phis, memlocs, ghosts):
        return [('phi', p) for p in phis] + [('mem', rn, off, n) for (rn, off), n in memlocs.items()] + [('ghost', g) for g in sorted(ghosts)]

    def candidates(s, ent, hv, hvmap, phis, memlocs, ghosts, backs):
        """candidate invariants: (text, formula over the havoc variables)"""
        L = s.locs(phis, memlocs, ghosts)
        L = [l for l in L if l in hvmap]
        out = []; seen = set()
        def add(txt, f):
            f2 = simp(f)
            if is_true(f2) or is_false(f2) or f2.get_id() in seen: return
            seen.add(f2.get_id()); out.append((txt, f2))
        init = {l: simp(s.loc_val(ent, l)) for l in L}
        backv = []
        for bp in backs:
            backv.append((bp, {l: simp(s.loc_val(bp, l)) for l in L}))
        for l in L:
            v = hvmap[l]
            # unchanged / constant
            add('%s == its initial value' % (l,), v == init[l])
            if not z3.is_bool(v):
                for bp, bvv in backv:
                    # simple order facts against initial value
                    pass
                w = v.size()
                add('%s >= initial (unsigned)' % (l,), z3.UGE(v, init[l]))
        for l in L:
            for k in L:
                if l == k: continue
                a, c = hvmap[l], hvmap[k]
                if z3.is_bool(a) or z3.is_bool(c): continue
                if a.size() == c.size() and L.index(l) < L.index(k): add('%s == %s' % (l, k), a == c)
                # functional relation  a == F(c)
                cands = []
                for src in [(init[l], init[k])] + [(bvv[l], bvv[k]) for _, bvv in backv]:
                    x, y = src
                    if z3.is_bv_value(y): continue
                    hole = z3.BitVec('hole!', c.size())
                    cands.append(simp(z3.substitute(x, (y, hole))))
                ids = {}
                for t in cands:
                    if any(q.decl().name() == 'hole!' for q in free_consts(t)):
                        ids[t.get_id()] = t
                for t in ids.values():
                    add('%s == F(%s)' % (l, k), a == z3.substitute(t, (z3.BitVec('hole!', c.size()), c)))
        # predicates on the path to the back edge, rewritten over header variables
        for bp, bvv in backv:
            sub = [(bvv[l], hvmap[l]) for l in L if not z3.is_bool(hvmap[l]) and z3.is_const(bvv[l]) and not z3.is_bv_value(bvv[l])]
            if not sub: continue
            new = bp.pc[len(ent.pc):]
            for c in new:
                c2 = z3.substitute(c, *sub)
                if not c2.eq(c):
                    add('path fact', c2)
                    # conjunct/disjunct parts
                    if z3.is_and(c2):
                        for q in c2.children(): add('path fact', q)
        # facts known on entry over initial values
        for l in L:
            i0 = init[l]
            if z3.is_bv_value(i0) or not z3.is_const(i0): continue
            for c in ent.pc:
                if any(q.eq(i0) for q in free_consts(c)) and size_of_expr(c) < 200:
                    add('entry fact', z3.substitute(c, (i0, hvmap[l])))
        if hasattr(s.spec, 'loop_candidates'):
            for t, f in s.spec.loop_candidates(s, ent, hv, hvmap, L): add(t, f)
        return out
    def at_state(s, st, c, hvmap):
        sub = []
        for l, v in hvmap.items():
            q = s.phisub.get(v.get_id())
            if q is not None and q[0].eq(v): sub.append((q[1], q[2](s.loc_val(st, l))))
            else: sub.append((v, s.loc_val(st, l)))
        return z3.substitute(c[1], *sub)
    def witness(s, st, g):
        """assignment of a state satisfying the path condition but not g, if one was found"""
        cs = list(st.pc) + [z3.Not(simp(g))]
        m = models_of(cs)
        if not m: return None
        for c in cs:
            if not is_true(simp(z3.substitute(c, *m))): return None
        return m
    def holds_at(s, st, c, hvmap, phis, memlocs, ghosts):
        return prove(st.pc, s.at_state(st, c, hvmap), 10000)[0] == 'proved'
    def event_candidates(s, ent, hv, phis, memlocs, backs):
        return s.spec.event_candidates(s, ent, hv, phis, memlocs, backs) if hasattr(s.spec, 'event_candidates') else []

    # ---- single instruction; returns None (continue in place) or list of states
    def step(s, st, I):
        op = I.op
        E = st.env
        if op in ll.BIN:
            a, b = s.ev(st, I.args[0]), s.ev(st, I.args[1])
            if I.t[0] == 'vec':
                n = I.t[1]; w = ll.bits_of(I.t[2], s.mod)
                E[I.dst] = simp(concat_le([s.binop(op, extract(a, i*w, w), extract(b, i*w, w)) for i in range(n)])); return
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                if s.ub:
                    g = b != bv(0, b.size())
                    if op in ('sdiv', 'srem'):
                        g = z3.And(g, z3.Not(z3.And(a == bv(1 << (a.size()-1), a.size()), b == bv(-1, b.size()))))
                    s.require(st, g, 'no-undefined-behaviour', 'division by zero or overflow', I)
            p = s.merge_poison(st, I)
            if op in ('shl', 'lshr', 'ashr') and s.ub:
                p = por(p, z3.UGE(b, bv(b.size(), b.size())))
            fl = I.x['flags']
            if fl and s.ub:
                if 'nsw' in fl:
                    if op in ('add', 'sub'): p = por(p, s.binop(op, z3.SignExt(1, a), z3.SignExt(1, b)) != z3.SignExt(1, s.binop(op, a, b)))
                    if op == 'mul':
                        cb = simp(b)
                        if z3.is_bv_value(cb):
                            k = cb.as_signed_long(); n = abs(k).bit_length() + 1; W = a.size()
                            if k > 0: p = por(p, z3.Or(a > bv(((1 << (W - 1)) - 1) // k, W), a < bv(-((1 << (W - 1)) // k), W)))
                            elif k < 0: p = por(p, z3.SignExt(n, a) * bv(k, W + n) != z3.SignExt(n, a * b))
                        else: p = por(p, z3.Not(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))))
                    if op == 'shl': p = por(p, ((a << b) >> b) != a)
                if 'nuw' in fl:
                    if op == 'add': p = por(p, z3.Not(z3.BVAddNoOverflow(a, b, False)))
                    if op == 'sub': p = por(p, z3.Not(z3.BVSubNoUnderflow(a, b, False)))
                    if op == 'mul': p = por(p, z3.Not(z3.BVMulNoOverflow(a, b, False)))
                    if op == 'shl': p = por(p, z3.LShR(a << b, b) != a)
            s.setp(st, I, p)
            E[I.dst] = simp(s.binop(op, a, b)); return
        if op == 'icmp':
            a, b = s.ev(st, I.args[0]), s.ev(st, I.args[1])
            s.setp(st, I, s.merge_poison(st, I))
            if I.t[0] == 'vec':
                n = I.t[1]; w = a.size() // n
                E[I.dst] = simp(concat_le([b2bv(s.icmp(I.x['pred'], extract(a, i*w, w), extract(b, i*w, w))) for i in range(n)])); return
            E[I.dst] = simp(b2bv(s.icmp(I.x['pred'], a, b))); return
        if op == 'fcmp':
            a, b = s.ev(st, I.args[0]), s.ev(st, I.args[1])
            E[I.dst] = UF('fcmp_%s_%d' % (I.x['pred'], a.size()), [a.size()] * 2, 1)(a, b); return
        if op == 'fneg':
            a = s.ev(st, I.args[0]); E[I.dst] = simp(a ^ bv(1 << (a.size() - 1), a.size())); return
        if op == 'freeze':
            E[I.dst] = s.ev(st, I.args[0]); return
        if op in ll.CAST:
            a = s.ev(st, I.args[0]); s.setp(st, I, s.merge_poison(st, I))
            if I.t[0] == 'vec' and op in ('zext', 'sext', 'trunc') :
                n = I.t[1]; w = a.size() // n; w2 = ll.bits_of(I.t[2], s.mod)
                E[I.dst] = simp(concat_le([s.cast(op, extract(a, i*w, w), ('i', w2)) for i in range(n)])); return
            E[I.dst] = simp(s.cast(op, a, I.t)); return
        if op == 'select':
            c = s.ev(st, I.args[0]); a = s.ev(st, I.args[1]); b = s.ev(st, I.args[2])
            if I.args[0].t[0] == 'vec':
                n = I.args[0].t[1]; w = a.size() // n
                E[I.dst] = simp(concat_le([z3.If(extract(c, i, 1) == bv(1, 1), extract(a, i*w, w), extract(b, i*w, w)) for i in range(n)])); return
            cb = bv2b(c)
            pa, pb, pcn = s.poison_of(st, I.args[1]), s.poison_of(st, I.args[2]), s.poison_of(st, I.args[0])
            if pa is not None or pb is not None or pcn is not None:
                p = z3.If(cb, pa if pa is not None else FALSE, pb if pb is not None else FALSE)
                if pcn is not None: p = z3.Or(pcn, p)
                s.setp(st, I, p)
            else: st.poi.pop(I.dst, None)
            if isinstance(a, tuple):
                E[I.dst] = tuple(simp(z3.If(cb, x, y)) for x, y in zip(a, b)); return
            cb = simp(cb)
            r = s.fd_eval(st, cb)
            if r is not None and (not r[0] or not r[1]):
                E[I.dst] = a if r[0] else b; return
            E[I.dst] = simp(z3.If(cb, a, b)); return
        if op == 'alloca':
            t = I.x['ty']; n = 1
            if I.x['n'] is not None:
                nv = simp(s.ev(st, I.x['n']))
                if not z3.is_bv_value(nv): raise NotUnderContract('variable alloca')
                n = nv.as_long()
            nm = '%s' % I.dst
            r = s.byname.get('alloca.' + nm) or s.add_region(Region('alloca.' + nm, 'local', ll.size_of(t, s.mod) * n, align=I.x['align']))
            st.mem[r.name] = Content()
            E[I.dst] = r.base; return
        if op == 'getelementptr':
            E[I.dst] = s.gep(st, I.x['src'], I.args, I.x['flags'])[0]
            s.setp(st, I, s.merge_poison(st, I)); return
        if op == 'load':
            s.need_nonpoison(st, I.args[0], 'address', I)
            p = s.ev(st, I.args[0]); t = ll.resolve(I.t, s.mod)
            hw = IRORD[I.x['order']]; sw = hw
            if t[0] in ('st', 'arr'): raise NotUnderContract('aggregate load')
            E[I.dst] = s.mem_load(st, p, ll.bits_of(t, s.mod), I, I.x['atomic'], I.x['volatile'], hw, sw, n=ll.store_size(t, s.mod))
            st.poi.pop(I.dst, None)
            return
        if op == 'store':
            s.need_nonpoison(st, I.args[1], 'address', I)
            s.need_nonpoison(st, I.args[0], 'stored value', I)
            v = s.ev(st, I.args[0]); p = s.ev(st, I.args[1])
            hw = IRORD[I.x['order']]
            if isinstance(v, tuple): raise NotUnderContract('aggregate store')
            s.mem_store(st, p, v, I, I.x['atomic'], I.x['volatile'], hw, hw, n=ll.store_size(I.args[0].t, s.mod))
            return
        if op == 'fence':
            o = IRORD[I.x['order']]
            if I.x['sync'] == 'singlethread': s.emit(st, Ev('cbar', sw=o, text=I.text))
            else: s.emit(st, Ev('fence', hw=o, sw=o, text=I.text))
            return
        if op == 'cmpxchg':
            s.need_nonpoison(st, I.args[0], 'address', I); s.need_nonpoison(st, I.args[2], 'desired', I)
            p, c, n = [s.ev(st, a) for a in I.args]
            return s.spec.cmpxchg(s, st, p, c, n, I, weak=I.x['weak'], hw=IRORD[I.x['order']], fhw=IRORD[I.x['forder']])
        if op == 'atomicrmw':
            s.need_nonpoison(st, I.args[0], 'address', I); s.need_nonpoison(st, I.args[1], 'operand', I)
            p, v = [s.ev(st, a) for a in I.args]
            f = {'xchg': lambda o: v, 'add': lambda o: o + v, 'sub': lambda o: o - v, 'and': lambda o: o & v, 'or': lambda o: o | v,
                 'xor': lambda o: o ^ v, 'nand': lambda o: ~(o & v),
                 'umax': lambda o: z3.If(z3.UGT(o, v), o, v), 'umin': lambda o: z3.If(z3.ULT(o, v), o, v),
                 'max': lambda o: z3.If(o > v, o, v), 'min': lambda o: z3.If(o < v, o, v),
                 'fadd': lambda o: s.fbin('fadd', o, v), 'fsub': lambda o: s.fbin('fsub', o, v)}.get(I.x['rop'])
            if f is None: raise NotUnderContract('atomicrmw ' + I.x['rop'])
            return s.spec.rmw(s, st, p, v.size() // 8, f, I, hw=IRORD[I.x['order']])
        if op == 'extractvalue':
            v = s.ev(st, I.args[0])
            for i in I.x['idx']: v = v[i]
            E[I.dst] = v; return
        if op == 'insertvalue':
            def ins(a, idx, e):
                if not idx: return e
                l = list(a); l[idx[0]] = ins(l[idx[0]], idx[1:], e); return tuple(l)
            E[I.dst] = ins(s.ev(st, I.args[0]), I.x['idx'], s.ev(st, I.args[1])); return
        if op == 'extractelement':
            v = s.ev(st, I.args[0]); i = simp(s.ev(st, I.args[1])); w = ll.bits_of(I.t, s.mod)
            if not z3.is_bv_value(i): raise NotUnderContract('variable extractelement')
            E[I.dst] = simp(extract(v, i.as_long() * w, w)); return
        if op == 'insertelement':
            v = s.ev(st, I.args[0]); e = s.ev(st, I.args[1]); i = simp(s.ev(st, I.args[2])).as_long(); w = e.size(); n = v.size() // w
            E[I.dst] = simp(concat_le([e if k == i else extract(v, k * w, w) for k in range(n)])); return
        if op == 'shufflevector':
            a, b = s.ev(st, I.args[0]), s.ev(st, I.args[1]); n1 = I.args[0].t[1]; w = a.size() // n1
            m = I.args[2]
            idx = [0] * I.t[1] if m.k == 'zero' else ([None] * I.t[1] if m.k in ('undef', 'poison') else [None if e.k in ('undef', 'poison') else e.v for e in m.v])
            E[I.dst] = simp(concat_le([fresh('undef', w) if k is None else (extract(a, k*w, w) if k < n1 else extract(b, (k-n1)*w, w)) for k in idx])); return
        if op in ('call', 'invoke'):
            return s.do_call(st, I)
        if op == 'landingpad': raise NotUnderContract('exception path')
        raise NotUnderContract('instruction %s' % I.text[:100])

    def setp(s, st, I, p):
        if p is None: st.poi.pop(I.dst, None); return
        p = simp(p)
        if is_false(p): st.poi.pop(I.dst, None)
        else: st.poi[I.dst] = p
    def merge_poison(s, st, I):
        p = None
        for a in I.args:
            q = s.poison_of(st, a)
            if q is not None: p = por(p, q)
        return p

    IGN = ('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.invariant.', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.prefetch')
    def do_call(s, st, I):
        if 'asm' in I.x:
            args = [s.ev(st, a) for a in I.args]
            for a in I.args: s.need_nonpoison(st, a, 'asm operand', I)
            return s.asmx.execute(s, st, I, args)
        cal = I.x['callee']
        name = cal.v if cal.k == 'global' else None
        if name is None:
            return s.spec.indirect(s, st, s.ev(st, cal), [s.ev(st, a) for a in I.args], I)
        if name.startswith(s.IGN): 
            if I.dst is not None: st.env[I.dst] = s.freshv('ign', I.t)
            return None
        if name.startswith('llvm.'): return s.intrinsic(st, I, name)
        args = []
        for a in I.args:
            if a.k == 'meta': args.append(None); continue
            s.need_nonpoison(st, a, 'call argument', I)
            args.append(s.ev(st, a))
        return s.spec.call(s, st, name, args, I)

    def intrinsic(s, st, I, name):
        E = st.env
        if name.startswith('llvm.is.constant'):
            E[I.dst] = b2bv(freshb('isconst')); return
        a = [None if x.k == 'meta' else s.ev(st, x) for x in I.args]
        if name == 'llvm.assume':
            g = bv2b(a[0])
            st.pc.append(simp(g)); return
        if name.startswith('llvm.expect'): E[I.dst] = a[0]; return
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = simp(a[2])
            if not z3.is_bv_value(n): return s.spec.sym_memcpy(s, st, a[0], a[1], n, I)
            n = n.as_long()
            return s.memcpy(st, a[0], a[1], n, I)
        if name.startswith('llvm.memset'):
            n = simp(a[2])
            if not z3.is_bv_value(n): return s.spec.sym_memset(s, st, a[0], a[1], n, I)
            n = n.as_long()
            if n == 0: return
            s.mem_store(st, a[0], concat_le([a[1]] * n), I); return
        w = a[0].size() if a and a[0] is not None and not isinstance(a[0], tuple) else 0
        if name.startswith('llvm.umax'): E[I.dst] = simp(z3.If(z3.UGT(a[0], a[1]), a[0], a[1])); return
        if name.startswith('llvm.umin'): E[I.dst] = simp(z3.If(z3.ULT(a[0], a[1]), a[0], a[1])); return
        if name.startswith('llvm.smax'): E[I.dst] = simp(z3.If(a[0] > a[1], a[0], a[1])); return
        if name.startswith('llvm.smin'): E[I.dst] = simp(z3.If(a[0] < a[1], a[0], a[1])); return
        if name.startswith('llvm.abs'): E[I.dst] = simp(z3.If(a[0] < 0, -a[0], a[0])); return
        if name.startswith(('llvm.fshl', 'llvm.fshr')):
            sh = z3.URem(a[2], bv(w, w)); cc = z3.Concat(a[0], a[1])
            if 'fshl' in name: E[I.dst] = simp(extract(cc << z3.ZeroExt(w, sh), w, w))
            else: E[I.dst] = simp(extract(z3.LShR(cc, z3.ZeroExt(w, sh)), 0, w))
            return
        if name.startswith('llvm.bswap'):
            E[I.dst] = z3.Concat(*[extract(a[0], 8*i, 8) for i in range(w // 8)]); return
        if name.startswith(('llvm.cttz', 'llvm.ctlz')):
            r = bv(w, w)
            rng = range(w) if 'ctlz' in name else reversed(range(w))
            for i in rng: r = z3.If(extract(a[0], i, 1) == bv(1, 1), bv((w - 1 - i) if 'ctlz' in name else i, w), r)
            pz = bv2b(a[1])
            E[I.dst] = simp(r); s.setp(st, I, por(s.merge_poison(st, I), z3.And(pz, a[0] == 0))); return
        if name.startswith('llvm.ctpop'):
            r = bv(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, extract(a[0], i, 1)) if w > 1 else a[0]
            E[I.dst] = simp(r); return
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow', name)
        if m:
            sg = m.group(1) == 's'; o = m.group(2)
            v = s.binop(o, a[0], a[1])
            ext = (lambda x: z3.SignExt(w, x)) if sg else (lambda x: z3.ZeroExt(w, x))
            wide = s.binop(o, ext(a[0]), ext(a[1]))
            E[I.dst] = (simp(v), simp(b2bv(wide != ext(v)))); return
        m = re.match(r'llvm\.(s|u)(add|sub)\.sat', name)
        if m: raise NotUnderContract(name)
        if name.startswith('llvm.fabs'):
            E[I.dst] = simp(a[0] & bv((1 << (w-1)) - 1, w)); return
        if name.startswith('llvm.x86.sse2.pause'): return
        if name.startswith('llvm.trap'): return []
        if name.startswith('llvm.objectsize'):
            E[I.dst] = s.freshv('objsize', I.t); return
        r = s.spec.intrinsic(s, st, name, a, I) if hasattr(s.spec, 'intrinsic') else NotImplemented
        if r is NotImplemented: raise NotUnderContract('intrinsic %s' % name)
        return r

    def emit(s, st, ev):
        st.ev.append(ev); s.spec.on_event(s, st, ev)

    def memcpy(s, st, d, src, n, I):
        if n == 0: return
        # split so that local byte provenance is kept: copy as one value
        v = s.mem_load(st, src, 8 * n, I)
        s.mem_store(st, d, v, I)

def por(a, b):
    if a is None: return b
    if b is None: return a
    return z3.Or(a, b)

def fp2(op, a, b):
    f = UF('%s_%d' % (op, a.size()), [a.size(), a.size()], a.size())
    if op in ('fadd', 'fmul'): return z3.If(z3.ULE(a, b), f(a, b), f(b, a))     # commutative
    return f(a, b)

_uf = {}
def UF(name, ws, r):
    k = (name, tuple(ws), r)
    f = _uf.get(k)
    if f is None: f = _uf[k] = z3.Function(name, *([z3.BitVecSort(w) for w in ws] + [z3.BitVecSort(r)]))
    return f

_sz = {}
def size_of_expr(e, limit=400):
    k = e.get_id(); r = _sz.get(k)
    if r is not None and r[0].eq(e): return r[1]
    seen = set(); st = [e]
    while st and len(seen) < limit:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    _sz[k] = (e, len(seen))
    return len(seen)
_fc = {}
def free_consts(e):
    k = e.get_id()
    r = _fc.get(k)
    if r is not None and r[0].eq(e): return r[1]
    seen = set(); out = []
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: st.extend(x.children())
    _fc[k] = (e, out)
    if len(_fc) > 100000: _fc.clear()
    return out

def memlocs_bytes(ml):
    return {(rn, off + i) for (rn, off), n in ml.items() for i in range(n)}
def add_chunk(ml, rn, off, n):
    # avoid overlaps: if overlapping chunks exist, fall back to bytes
    new = set(range(off, off + n))
    for (r2, o2), n2 in list(ml.items()):
        if r2 == rn and new & set(range(o2, o2 + n2)):
            del ml[(r2, o2)]
            for i in range(o2, o2 + n2): ml[(rn, i)] = 1
            for i in new: ml.setdefault((rn, i), 1)
            return
    ml[(rn, off)] = n
