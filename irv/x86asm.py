"""Semantics of the x86-64 inline assembly blocks (AT&T syntax as clang prints them).

Each instruction used is given its effect on a 64-bit register file, flags and
memory; an unknown mnemonic, operand form or missing clobber is an error.
A block is interpreted per instruction; a backward 'jne' around a locked
compare-and-exchange is treated as a loop with havocked accumulator."""
import re, z3
from .sym import *

REG = {}
def _r(names):
    for n, w, sh in names[1]: REG[n] = (names[0], w, sh)
for b in ('a', 'b', 'c', 'd'):
    _r(('r%sx' % b, [('r%sx' % b, 64, 0), ('e%sx' % b, 32, 0), ('%sx' % b, 16, 0), ('%sl' % b, 8, 0), ('%sh' % b, 8, 8)]))
for b in ('si', 'di', 'bp', 'sp'):
    _r(('r' + b, [('r' + b, 64, 0), ('e' + b, 32, 0), (b, 16, 0), (b + 'l', 8, 0)]))
CONREG = {'a': 'rax', 'b': 'rbx', 'c': 'rcx', 'd': 'rdx', 'S': 'rsi', 'D': 'rdi'}

class AsmFail(Exception): pass

class Operand:
    def __init__(s): s.kind = None; s.reg = None; s.ptr = None; s.w = 0; s.out = False; s.early = False; s.val = None; s.imm = None; s.pair = None; s.name=None; s.indirect=False

class X86:
    def execute(s, ex, st, I, args):
        """entry point: returns None or a list of states"""
        tmpl = I.x['asm']; cons = I.x['cons']
        cl = split_cons(cons)
        memclob = '~{memory}' in cl
        body = [x for x in re.split(r'[\n;]', tmpl) if x.strip()]
        if not [x for x in body if not x.strip().startswith('.')]:
            # empty template: pure compiler barrier, or an identity with register operands
            return s.run(ex, st, I, args, cl, [], memclob)
        return s.run(ex, st, I, args, cl, [x.strip() for x in body], memclob)

    def run(s, ex, st, I, args, cl, lines, memclob):
        ops = []; outs = []; ai = 0; clob = set()
        et = [a.get('elementtype') for a in I.x['attrs']]
        from . import ll
        rts = []
        if I.t is not None and I.t[0] != 'void':
            rt = ll.resolve(I.t, ex.mod)
            rts = list(rt[1]) if rt[0] == 'st' else [rt]
        ri = 0
        for c in cl:
            if c.startswith('~'):
                clob.add(c[2:-1]); continue
            o = Operand()
            k = c
            if k.startswith('='):
                k = k[1:]; o.out = True
            if k.startswith('&'): k = k[1:]; o.early = True
            if k.startswith('*'):
                k = k[1:]; o.indirect = True
            if o.indirect and ('m' in k or 'o' in k):
                o.kind = 'mem'; o.ptr = args[ai]; o.w = ll.bits_of(et[ai], ex.mod) if et[ai][0] not in ('st','arr') else 8 * ll.size_of(et[ai], ex.mod); ai += 1
                o.region, o.off = ex.decompose(o.ptr)
            elif o.indirect:
                raise NotUnderContract('asm constraint %s' % c)
            elif o.out:
                t = rts[ri]; ri += 1
                o.w = ll.bits_of(t, ex.mod)
                if k.startswith('{@cc'): o.kind = 'flag'; o.cc = k[4:-1]
                else:
                    o.kind = 'reg'; o.reg = s.regname(k); 
                    if k == 'A': o.pair = ('rax', 'rdx')
                outs.append(o)
            else:
                v = args[ai]; o.w = v.size(); ai += 1
                o.val = v
                if k.isdigit(): o.kind = 'tied'; o.tied = int(k)
                else:
                    o.kind = 'reg'; o.reg = s.regname(k)
                    if k == 'A': o.pair = ('rax', 'rdx')
                    o.immok = any(ch in k for ch in 'inIJKLMNeZ') and not k.startswith('{')
            ops.append(o)
        # register file: symbolic slots
        m = Mach(s, ex, st, I, ops, outs, memclob, clob)
        return m.go(lines)

    def regname(s, k):
        m = re.match(r'^\{(\w+)\}$', k)
        if m:
            n = m.group(1)
            if n in REG: return REG[n][0]
            if n == 'ax' : return 'rax'
            return n
        if k in CONREG: return CONREG[k]
        return None

def split_cons(c):
    out = []; d = 0; cur = ''
    for ch in c:
        if ch == '{': d += 1
        if ch == '}': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur: out.append(cur)
    return out

class Mach:
    def __init__(m, s, ex, st, I, ops, outs, memclob, clob):
        m.ex = ex; m.st = st; m.I = I; m.ops = ops; m.outs = outs; m.memclob = memclob; m.clob = clob
        m.regs = {}; m.owner = {}; m.flags = None; m.written = set(); m.undef_flags = True
        slot = 0
        for i, o in enumerate(ops):
            if o.kind == 'reg':
                if o.reg is None:
                    o.slot = 'op%d' % i
                else: o.slot = o.reg
                if o.pair: o.slot = o.pair[0]
            elif o.kind == 'tied':
                t = ops[o.tied]
                o.slot = getattr(t, 'slot', None); o.pair = t.pair
                if t.kind == 'mem': raise NotUnderContract('operand tied to memory')
            elif o.kind == 'flag': o.slot = None
        # inputs
        m.inputs = {}
        for i, o in enumerate(ops):
            if o.kind in ('reg', 'tied') and not o.out:
                w = o.w
                if o.pair and w > 64:
                    m.regs[o.pair[0]] = extract(o.val, 0, 64); m.regs[o.pair[1]] = extract(o.val, 64, w - 64)
                    for r in o.pair: m.inputs[r] = o
                else:
                    if w > 128: raise NotUnderContract('asm operand width')
                    m.regs[o.slot] = o.val if w >= 64 else z3.Concat(fresh('garb', 64 - w), o.val)
                    m.inputs[o.slot] = o
        # output registers: which slots may be written
        m.outslots = {}
        for i, o in enumerate(ops):
            if o.kind == 'reg' and o.out:
                m.outslots[o.slot] = o
                if o.pair: m.outslots[o.pair[1]] = o
        m.tied_slots = {o.slot for o in ops if o.kind == 'tied'} | {p for o in ops if o.kind == 'tied' and o.pair for p in o.pair}
        m.noearly_written = None

    def bad(m, msg): raise NotUnderContract('asm: %s in %r' % (msg, m.I.x['asm']))

    def slot_get(m, slot):
        v = m.regs.get(slot)
        if v is None:
            v = fresh('reg_' + str(slot), 64); m.regs[slot] = v
        return v
    def check_input_read(m, slot):
        """reading an input register after a non-early-clobber output was written: the two may share a register"""
        if m.noearly_written and slot in m.inputs and slot not in m.outslots and slot not in m.tied_slots and m.inputs[slot].reg is None:
            m.ex.fail(m.st, 'asm-constraints', 'input operand read after an output without early-clobber was written: they may share a register', m.I)
            m.regs[slot] = fresh('clobbered', 64)
    def slot_write(m, slot):
        o = m.outslots.get(slot)
        if o is None:
            # explicit register must be clobbered
            names = [n for n, (full, w, sh) in REG.items() if full == slot]
            if slot in m.inputs or not any(n in m.clob for n in names + [slot]):
                if not (slot in ('rbx', 'rsi') and m.restored(slot)):
                    m.ex.fail(m.st, 'asm-constraints', 'register %s written but neither output nor clobber' % slot, m.I)
            return
        if not o.early and slot not in m.tied_slots and o.reg is None:
            m.noearly_written = slot
        elif not o.early and o.reg is not None and slot not in m.tied_slots:
            # a fixed output register without early clobber can be allocated to a free input operand
            m.noearly_written = slot
    def restored(m, slot): return False

    # operand reference -> ('reg', slot, width, shift) | ('mem', ptr expr, width, op) | ('imm', int)
    def parse_ref(m, txt, w=None):
        t = txt.strip()
        mm = re.match(r'^\$\{?(\d+)(?::(\w))?\}?$', t)
        if mm and not t.startswith('$$'):
            i = int(mm.group(1)); mod = mm.group(2); o = m.ops[i]
            if o.kind == 'mem': return ('mem', o.ptr, o.w, o)
            if o.kind == 'flag': m.bad('flag operand in template')
            wd = {'b': 8, 'w': 16, 'k': 32, 'q': 64}.get(mod, o.w if o.w <= 64 else 64)
            if mod is not None and mod not in 'bwkq': m.bad('modifier %s' % mod)
            return ('reg', o.slot, wd, 0, o)
        if t.startswith('$$'):
            return ('imm', int(t[2:], 0))
        if t.startswith('%'):
            r = REG.get(t[1:])
            if r is None:
                if re.match(r'^%xmm\d+$', t): return ('reg', t[1:], 128, 0, None)
                m.bad('register %s' % t)
            return ('reg', r[0], r[1], r[2], None)
        mm = re.match(r'^(-?\d*)\((.+)\)$', t)
        if mm:
            b = m.parse_ref(mm.group(2))
            disp = int(mm.group(1) or '0')
            p = m.rd(b, 64)
            return ('mem', simp(p + bv(disp, 64)), None, None)
        m.bad('operand %s' % t)
    def rd(m, ref, w):
        if ref[0] == 'imm': return bv(ref[1], w)
        if ref[0] == 'reg':
            m.check_input_read(ref[1])
            v = m.slot_get(ref[1])
            if v.size() < ref[3] + w: m.bad('register width')
            return extract(v, ref[3], w)
        m.bad('rd of memory')
    def wr(m, ref, v):
        slot = ref[1]; w = v.size()
        m.slot_write(slot)
        old = m.slot_get(slot)
        if w >= 64: m.regs[slot] = v
        elif w == 32: m.regs[slot] = z3.Concat(bv(0, 32), v)
        else:
            lo = ref[3]
            parts = []
            if lo + w < 64: parts.append(extract(old, lo + w, 64 - lo - w))
            parts.append(v)
            if lo: parts.append(extract(old, 0, lo))
            m.regs[slot] = simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]

    SFX = {'b': 8, 'w': 16, 'l': 32, 'q': 64}

    def go(m, lines):
        prog = []; labels = {}
        for l in lines:
            l = l.strip()
            if l.startswith('.align') or l.startswith('.p2align'): continue
            mm = re.match(r'^(\d+|\w+):\s*(.*)$', l)
            if mm:
                labels[mm.group(1)] = len(prog); l = mm.group(2).strip()
                if not l: continue
            prog.append(l)
        # join 'lock' prefix with next instruction
        p2 = []; idx = {}; lock = False
        for i, l in enumerate(prog):
            idx.setdefault(i, len(p2))
            if l == 'lock': lock = True; continue
            if l.startswith('lock '): lock = True; l = l[5:].strip()
            p2.append((l, lock)); lock = False
        labels = {k: idx.get(v, len(p2)) for k, v in labels.items()}
        m.prog = p2; m.labels = labels
        if m.memclob:
            m.ex.emit(m.st, Ev('cbar', sw=7, text='asm memory clobber'))
        states = m.exec_from(0, m.st)
        # produce results
        out = []
        for mach in states:
            mach.finish()
            out.append(mach.st)
        if len(out) == 1 and out[0] is m.st: return None
        return out

    def clone(m, st):
        n = Mach.__new__(Mach)
        n.__dict__.update(m.__dict__)
        n.st = st; n.regs = dict(m.regs); n.written = set(m.written)
        return n

    def exec_from(m, i, st, depth=0):
        cur = [(m, i)]
        done = []
        while cur:
            mc, i = cur.pop()
            while i < len(mc.prog):
                l, lock = mc.prog[i]
                mm = re.match(r'^j(\w+)\s+(\w+)$', l)
                if mm:
                    cc = mm.group(1); lab = mm.group(2)
                    tgt = mc.labels.get(lab[:-1] if lab[-1] in 'bf' else lab)
                    if tgt is None: mc.bad('label')
                    back = lab[-1] == 'b' or (tgt is not None and tgt <= i)
                    c = mc.cond(cc)
                    if back:
                        # loop: handled at its head (see head_loop); here only the exit is taken
                        if mc.__dict__.get('inloop') != tgt: mc.bad('backward jump into unknown loop')
                        mc.st.pc.append(simp(z3.Not(c)))
                        r, _ = check(mc.st.pc)
                        if r == 'unsat': i = None; break
                        mc.inloop = None
                        i += 1; continue
                    fs = mc.ex.fork(mc.st, c)
                    for t, s2 in fs[1:]:
                        m2 = mc.clone(s2); cur.append((m2, tgt if t else i + 1))
                    if not fs: i = None; break
                    t, s2 = fs[0]; mc.st = s2; i = tgt if t else i + 1
                    continue
                # loop head? any later backward jump to i
                if mc.__dict__.get('inloop') is None and mc.__dict__.get('loopdone') != i:
                    jb = [k for k in range(i, len(mc.prog)) if re.match(r'^j\w+\s+(\w+)b$', mc.prog[k][0]) and mc.labels.get(re.match(r'^j\w+\s+(\w+)b$', mc.prog[k][0]).group(1)) == i]
                    if jb:
                        mc.loop_head(i, jb[-1])
                fork = mc.insn(l, lock)
                if fork is not None:
                    for m2 in fork[1:]: cur.append((m2, i + 1))
                    if not fork: i = None; break
                    mc = fork[0]
                i += 1
            if i is not None: done.append(mc)
        return done

    def loop_head(m, i, j):
        """havoc what the loop body writes; accept only bodies whose single memory effect is one cmpxchg"""
        st0 = m.st.copy()
        probe = m.clone(st0); probe.inloop = i
        nev = len(st0.ev)
        m.ex.quiet += 1
        wr = set()
        try:
            work = [(probe, i)]
            outs = []
            before = dict(m.regs)
            while work:
                p, k = work.pop()
                while k < j:
                    f = p.insn(*p.prog[k])
                    if f is not None:
                        for q in f[1:]: work.append((q, k + 1))
                        if not f: p = None; break
                        p = f[0]
                    k += 1
                if p is not None: outs.append(p)
        finally: m.ex.quiet -= 1
        for p in outs:
            for r, v in p.regs.items():
                if r not in before or not before[r].eq(v): wr.add(r)
            c = p.cond(re.match(r'^j(\w+)\s', m.prog[j][0]).group(1))
            # on the path that loops back the object must be unmodified
            rr, _ = check(p.st.pc + [c])
            if rr != 'unsat':
                for e in p.st.ev[nev:]:
                    if e.wr is not None and e.kind not in ('cas_fail',):
                        m.ex.fail(p.st, 'atomicity', 'assembly loop repeats after modifying the object', m.I)
        for r in wr:
            m.regs[r] = fresh('loop_' + str(r), 64)
        m.flags = None
        m.inloop = i

    def cond(m, cc):
        if m.flags is None: m.bad('condition on undefined flags')
        z, c = m.flags.get('z'), m.flags.get('c')
        sf, of = m.flags.get('s'), m.flags.get('o')
        tab = {'e': lambda: z, 'z': lambda: z, 'ne': lambda: z3.Not(z), 'nz': lambda: z3.Not(z), 'c': lambda: c, 'b': lambda: c, 'nc': lambda: z3.Not(c), 'ae': lambda: z3.Not(c),
               's': lambda: sf, 'ns': lambda: z3.Not(sf), 'o': lambda: of, 'no': lambda: z3.Not(of),
               'a': lambda: z3.And(z3.Not(c), z3.Not(z)), 'be': lambda: z3.Or(c, z),
               'l': lambda: sf != of, 'ge': lambda: sf == of, 'g': lambda: z3.And(z3.Not(z), sf == of), 'le': lambda: z3.Or(z, sf != of)}
        try: r = tab[cc]()
        except (KeyError, TypeError, z3.Z3Exception): m.bad('condition %s' % cc)
        if r is None: m.bad('condition %s on undefined flag' % cc)
        return r

    def setflags(m, res, c=None, o=None):
        w = res.size()
        m.flags = {'z': res == 0, 's': extract(res, w - 1, 1) == 1, 'c': c if c is not None else freshb('cf'), 'o': o if o is not None else freshb('of')}

    def alu(m, op, a, b):
        """a op b -> (result, flag setter)"""
        w = a.size()
        if op == 'add':
            r = a + b; return r, z3.ULT(r, a), z3.Not(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
        if op == 'sub':
            r = a - b; return r, z3.ULT(a, b), z3.Not(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
        if op == 'and': return a & b, FALSE, FALSE
        if op == 'or': return a | b, FALSE, FALSE
        if op == 'xor': return a ^ b, FALSE, FALSE
        m.bad('alu ' + op)

    def is_shared(m, ptr):
        root, off = m.ex.decompose(ptr)
        return root is not None and root.kind == 'shared'

    def lockmem(m, ref, w, f, lock):
        """memory read-modify-write; f(old)->new; returns old"""
        ptr = ref[1]
        return m.ex.spec.asm_rmw(m.ex, m.st, ptr, w // 8, f, m.I, lock, m.memclob)

    def load(m, ref, w):
        return m.ex.mem_load(m.st, ref[1], w, m.I, atomic='asm', volatile=True, hw=A | SC, sw=7 if m.memclob else SC)
    def store(m, ref, v):
        m.ex.mem_store(m.st, ref[1], v, m.I, atomic='asm', volatile=True, hw=R, sw=7 if m.memclob else SC)

    def insn(m, l, lock):
        mm = re.match(r'^(\w+)\s*(.*)$', l)
        mn = mm.group(1); rest = mm.group(2).strip()
        opn = split_ops(rest)
        if mn in ('pause', 'nop', 'cld') : return
        if mn in ('mfence', 'lfence', 'sfence'):
            m.ex.emit(m.st, Ev('fence', hw=7 if mn == 'mfence' else 0, sw=7 if m.memclob else 0, text=l)); return
        if mn.startswith('set'):
            c = m.cond(mn[3:]); r = m.parse_ref(opn[0])
            v = z3.If(c, bv(1, 8), bv(0, 8))
            if r[0] == 'mem': m.store(r, v)
            else: m.wr(('reg', r[1], 8, r[3], None), v)
            return
        if mn in ('movzbl', 'movzwl', 'movzbq', 'movzwq', 'movsbl', 'movswl', 'movzbw'):
            sw = m.SFX[mn[4]]; dw = m.SFX[mn[5]]
            a = m.parse_ref(opn[0]); d = m.parse_ref(opn[1])
            v = m.load(a, sw) if a[0] == 'mem' else m.rd(a, sw)
            v = z3.ZeroExt(dw - sw, v) if mn[3] == 'z' else z3.SignExt(dw - sw, v)
            m.wr(('reg', d[1], dw, 0, None), v); return
        if mn in ('vmovdqa', 'movdqa', 'vmovaps', 'movaps', 'vmovdqu', 'movdqu', 'vmovq', 'movq') and m.is_xmm(opn):
            return m.xmm(mn, opn)
        base = None; w = None
        for b in ('cmpxchg16b', 'cmpxchg8b'):
            if mn == b: return m.dcas(16 if '16' in b else 8, opn, lock)
        m2 = re.match(r'^(mov|add|sub|and|or|xor|inc|dec|neg|not|xadd|xchg|cmpxchg|bts|btr|btc|bt|test|cmp|lea)([bwlq]?)$', mn)
        if not m2: m.bad('instruction %s' % mn)
        base = m2.group(1); sfx = m2.group(2)
        refs = [m.parse_ref(x) for x in opn]
        if sfx: w = m.SFX[sfx]
        else:
            ws = [r[2] for r in refs if r[0] == 'reg']
            if not ws: m.bad('operand size')
            w = ws[-1] if base != 'mov' else ws[-1]
        for r in refs:
            if r[0] == 'reg' and r[2] != w and not (r[2] > w and False):
                # the assembler rejects a mismatch between suffix and register size
                if r[4] is None or True:
                    if r[2] != w: m.bad('operand size mismatch (%s)' % l)
            if r[0] == 'mem' and r[3] is not None and r[3].w < w: 
                m.ex.fail(m.st, 'memory-safety', 'assembly accesses %d bits of a %d-bit operand' % (w, r[3].w), m.I)
        if lock and (not refs or refs[-1][0] != 'mem') : m.bad('lock prefix without memory destination')
        if base == 'mov':
            s_, d = refs
            if d[0] == 'mem':
                m.store(d, m.rd(s_, w)); return
            v = m.load(s_, w) if s_[0] == 'mem' else m.rd(s_, w)
            m.wr(('reg', d[1], w, d[3], None), v); return
        if base in ('inc', 'dec', 'neg', 'not'):
            d = refs[0]
            f = {'inc': lambda o: o + 1, 'dec': lambda o: o - 1, 'neg': lambda o: -o, 'not': lambda o: ~o}[base]
            if d[0] == 'mem':
                old = m.lockmem(d, w, f, lock)
            else:
                old = m.rd(d, w); m.wr(('reg', d[1], w, d[3], None), simp(f(old)))
            if base == 'not': return
            r = f(old)
            if base == 'neg': m.setflags(r, old != 0)
            else:
                keep = m.flags['c'] if m.flags else freshb('cf')
                m.setflags(r, keep, r == bv(1 << (w-1), w) if base == 'inc' else old == bv(1 << (w-1), w))
            return
        if base in ('add', 'sub', 'and', 'or', 'xor'):
            s_, d = refs
            if s_[0] == 'mem': b = m.load(s_, w)
            else: b = m.rd(s_, w)
            if d[0] == 'mem': old = m.lockmem(d, w, lambda o: m.alu(base, o, b)[0], lock)
            else:
                old = m.rd(d, w)
            r, c, o = m.alu(base, old, b)
            if d[0] != 'mem': m.wr(('reg', d[1], w, d[3], None), simp(r))
            m.setflags(r, c, o); return
        if base in ('cmp', 'test'):
            s_, d = refs
            b = m.load(s_, w) if s_[0] == 'mem' else m.rd(s_, w)
            a = m.load(d, w) if d[0] == 'mem' else m.rd(d, w)
            r, c, o = m.alu('sub' if base == 'cmp' else 'and', a, b)
            m.setflags(r, c, o); return
        if base == 'xadd':
            s_, d = refs
            if d[0] != 'mem': m.bad('xadd register')
            b = m.rd(s_, w)
            old = m.lockmem(d, w, lambda o: o + b, lock)
            m.wr(('reg', s_[1], w, s_[3], None), old); r, c, o = m.alu('add', old, b); m.setflags(r, c, o); return
        if base == 'xchg':
            s_, d = refs
            if s_[0] == 'mem': s_, d = d, s_
            if d[0] == 'mem':
                b = m.rd(s_, w)
                old = m.lockmem(d, w, lambda o: b, True)     # implicit lock
                m.wr(('reg', s_[1], w, s_[3], None), old); return
            x, y = m.rd(s_, w), m.rd(d, w)
            m.wr(('reg', s_[1], w, s_[3], None), y); m.wr(('reg', d[1], w, d[3], None), x); return
        if base in ('bts', 'btr', 'btc'):
            s_, d = refs
            if d[0] != 'mem': m.bad('bt register destination')
            n = m.rd(s_, w)
            # with a register bit number and a memory operand the bit string extends beyond the operand
            m.ex.require(m.st, z3.ULT(n, bv(w, w)), 'memory-safety', 'bit number reaches outside the operand', m.I)
            m.st.pc.append(z3.ULT(n, bv(w, w)))
            bit = bv(1, w) << n
            f = {'bts': lambda o: o | bit, 'btr': lambda o: o & ~bit, 'btc': lambda o: o ^ bit}[base]
            old = m.lockmem(d, w, f, lock)
            m.flags = {'c': (old & bit) != 0, 'z': None, 's': None, 'o': None}
            return
        if base == 'cmpxchg':
            s_, d = refs
            if d[0] != 'mem': m.bad('cmpxchg register')
            n = m.rd(s_, w)
            acc = ('reg', 'rax', w, 0, None)
            e = m.rd(acc, w)
            return m.cas(d[1], w, e, n, lock, lambda mc, ok, old: mc.cas_fin(acc, ok, old))
        m.bad('instruction %s' % mn)

    def cas_fin(m, acc, ok, old):
        if not ok: m.wr(acc, old)
        m.flags = {'z': z3.BoolVal(ok), 'c': None, 's': None, 'o': None}
    def cas(m, ptr, w, e, n, lock, fin):
        res = m.ex.spec.asm_cas(m.ex, m.st, ptr, w // 8, e, n, m.I, lock, m.memclob)
        out = []
        for k, (ok, old, s2) in enumerate(res):
            mc = m if (s2 is m.st) else m.clone(s2)
            if s2 is m.st: first = (mc, ok, old)
            out.append((mc, ok, old))
        ms = []
        # clones must be made before mutating m
        for mc, ok, old in out:
            fin(mc, ok, old); ms.append(mc)
        return ms

    def dcas(m, size, opn, lock):
        w = size * 8; h = w // 2
        hi, lo, bh, bl = ('rdx', 'rax', 'rcx', 'rbx')
        g = lambda r: m.rd(('reg', r, h, 0, None), h)
        e = z3.Concat(g(hi), g(lo)); n = z3.Concat(g(bh), g(bl))
        d = m.parse_ref(opn[0])
        if d[0] != 'mem': m.bad('cmpxchg16b operand')
        if size == 16:
            m.ex.require(m.st, (d[1] & bv(15, 64)) == 0, 'memory-safety', 'cmpxchg16b operand not 16-byte aligned', m.I)
        def fin(mc, ok, old):
            if not ok:
                mc.wr(('reg', hi, h, 0, None), extract(old, h, h)); mc.wr(('reg', lo, h, 0, None), extract(old, 0, h))
            mc.flags = {'z': z3.BoolVal(ok), 'c': None, 's': None, 'o': None}
        return m.cas(d[1], w, simp(e), simp(n), lock, fin)

    def is_xmm(m, opn):
        for x in opn:
            if re.match(r'^%xmm', x): return True
            mm = re.match(r'^\$\{?(\d+)', x)
            if mm and not x.startswith('$$'):
                o = m.ops[int(mm.group(1))]
                if o.kind in ('reg', 'tied') and o.w == 128: return True
        return False
    def xmm(m, mn, opn):
        w = 64 if mn in ('vmovq', 'movq') else 128
        refs = []
        for x in opn:
            mm = re.match(r'^\$\{?(\d+)', x)
            o = m.ops[int(mm.group(1))] if mm else None
            if o is not None and o.kind == 'mem': refs.append(('mem', o.ptr, o.w, o))
            elif o is not None: refs.append(('xmm', o.slot))
            else: refs.append(('xmm', x[1:]))
        s_, d = refs
        al = mn in ('vmovdqa', 'movdqa', 'vmovaps', 'movaps')
        for r in refs:
            if r[0] == 'mem' and w == 128:
                if al: m.ex.require(m.st, (r[1] & bv(15, 64)) == 0, 'memory-safety', 'aligned vector move of an unaligned operand', m.I)
                elif m.is_shared(r[1]): m.ex.require(m.st, (r[1] & bv(15, 64)) == 0, 'atomicity', 'unaligned vector move is not one access', m.I)
                if m.is_shared(r[1]) and not mn.startswith('v'):
                    m.ex.fail(m.st, 'atomicity', '16-byte move is guaranteed atomic only with AVX', m.I)
        if d[0] == 'mem':
            v = m.regs.get(s_[1])
            if v is None: m.bad('xmm input')
            m.store(d, extract(v, 0, w))
        else:
            v = m.load(s_, w) if s_[0] == 'mem' else extract(m.regs[s_[1]], 0, w)
            if w < 128: v = z3.ZeroExt(128 - w, v)
            m.slot_write(d[1]); m.regs[d[1]] = v

    def finish(m):
        from . import ll
        vals = []
        for o in m.outs:
            if o.kind == 'flag':
                c = m.cond(o.cc)
                v = z3.If(c, bv(1, o.w), bv(0, o.w))
            elif o.pair and o.w > 64:
                v = z3.Concat(extract(m.slot_get(o.pair[1]), 0, o.w - 64), m.slot_get(o.pair[0]))
            else:
                v = m.slot_get(o.slot)
                v = extract(v, 0, o.w) if o.w <= v.size() else z3.ZeroExt(o.w - v.size(), v)
            vals.append(simp(v))
        if m.I.dst is not None:
            rt = ll.resolve(m.I.t, m.ex.mod)
            m.st.env[m.I.dst] = tuple(vals) if rt[0] == 'st' else vals[0]
        if m.memclob:
            m.ex.emit(m.st, Ev('cbar', sw=7, text='asm memory clobber'))
            
def split_ops(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '({': d += 1
        if ch in ')}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
