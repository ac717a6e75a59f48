"""Parser for the textual LLVM IR (opaque pointers, LLVM 18) that clang emits.

Only parses; meaning is given in sym.py.  An instruction the parser does not
know is kept as opcode '?' and makes the function using it fail with
'not under contract' rather than being skipped."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<lname>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<gname>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<p>[][(){}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == ';':
            j = s.find('\n', i); i = n if j < 0 else j; continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('ll: cannot tokenize at %r' % s[i:i+60])
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
        i = m.end()
    return out

# ---- types: ('i',n) ('ptr',) ('float',) ('double',) ('x86_fp80',) ('void',)
#      ('arr',n,t) ('vec',n,t) ('st',[t..],packed) ('label',) ('meta',) ('fn',...)
I = lambda n: ('i', n)
PTR = ('ptr',)

class Val:
    """operand: kind in local,global,int,undef,poison,null,zero,agg,cexpr,fp,str,asm,meta"""
    __slots__ = ('k', 'v', 't')
    def __init__(s, k, v, t): s.k = k; s.v = v; s.t = t
    def __repr__(s): return '%s:%r' % (s.k, s.v)

class Inst:
    __slots__ = ('op', 'dst', 't', 'args', 'x', 'text')
    def __init__(s, op, dst=None, t=None, args=(), x=None, text=''):
        s.op = op; s.dst = dst; s.t = t; s.args = list(args); s.x = x or {}; s.text = text
    def __repr__(s): return s.text or s.op

class Block:
    __slots__ = ('name', 'insts')
    def __init__(s, name): s.name = name; s.insts = []

class Func:
    def __init__(s): s.name = ''; s.params = []; s.ret = None; s.blocks = {}; s.order = []; s.attrs=''; s.text=''

class Module:
    def __init__(s): s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.text = ''

PARAM_ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone returned
 nest immarg nofree noext swiftself swifterror swiftasync allocptr allocalign dead_on_unwind writable inalloca noinline'''.split())

class P:
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s, o=0): return s.t[s.i+o] if s.i+o < len(s.t) else ('eof', '')
    def pv(s, o=0): return s.peek(o)[1]
    def next(s):
        x = s.t[s.i] if s.i < len(s.t) else ('eof', ''); s.i += 1; return x
    def accept(s, v):
        if s.pv() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if not s.accept(v): raise SyntaxError('ll: expected %r got %r' % (v, s.t[max(0,s.i-3):s.i+5]))
    def done(s): return s.i >= len(s.t)

    def type(s):
        k, v = s.next()
        if k == 'word':
            if re.fullmatch(r'i[0-9]+', v): t = I(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if s.pv() == 'addrspace': s.next(); s.skip_parens()
            elif v in ('float', 'double', 'x86_fp80', 'fp128', 'half', 'bfloat', 'void', 'label', 'metadata', 'token', 'ppc_fp128'): t = (v,)
            else: raise SyntaxError('ll: type %r' % v)
        elif k == 'lname':
            t = ('named', v[1:].strip('"'))
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect(']'); t = ('arr', n, e)
        elif v == '<':
            if s.pv() == '{':
                s.next(); t = ('st', s.typelist('}'), True); s.expect('>')
            else:
                n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect('>'); t = ('vec', n, e)
        elif v == '{':
            t = ('st', s.typelist('}'), False)
        else: raise SyntaxError('ll: type %r %r' % (k, v))
        while s.pv() == '(' :
            # function type
            s.next(); a = []
            while not s.accept(')'):
                if s.accept('...'): a.append('...')
                else: a.append(s.type())
                s.accept(',')
            t = ('fn', t, a)
        return t
    def typelist(s, end):
        r = []
        while not s.accept(end):
            r.append(s.type()); s.accept(',')
        return r
    def skip_parens(s):
        s.expect('('); d = 1
        while d:
            v = s.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
            elif v == '': raise SyntaxError('paren')
    def attrs(s):
        """skip parameter/return attributes; return dict of interesting ones"""
        r = {}
        while True:
            k, v = s.peek()
            if k == 'word' and v in PARAM_ATTRS: s.next(); r[v] = True
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'allocsize', 'captures', 'memory', 'range', 'nofpclass', 'preallocated', 'byref', 'initializes'):
                s.next()
                if s.pv() == '(':
                    if v in ('elementtype', 'byval', 'sret'):
                        s.next(); r[v] = s.type(); s.expect(')')
                    else: s.skip_parens()
                elif v == 'align': s.next()
            elif k == 'attr': s.next()
            elif k == 'str':
                s.next()
                if s.accept('='): s.next()
            else: return r
    def val(s, t):
        k, v = s.next()
        if k == 'lname': return Val('local', v[1:].strip('"'), t)
        if k == 'gname': return Val('global', v[1:].strip('"'), t)
        if k == 'num':
            if t[0] in ('float', 'double', 'x86_fp80'): return Val('fp', v, t)
            return Val('int', int(v), t)
        if k == 'hex': return Val('fp', v, t)
        if k == 'str': return Val('str', v, t)
        if v == 'true': return Val('int', 1, t)
        if v == 'false': return Val('int', 0, t)
        if v == 'null': return Val('null', 0, t)
        if v in ('undef', 'poison'): return Val(v, None, t)
        if v in ('zeroinitializer', 'none'): return Val('zero', None, t)
        if v in ('{', '[', '<'):
            packed = False
            if v == '<' and s.pv() == '{': s.next(); packed = True; end = '}'
            else: end = {'{': '}', '[': ']', '<': '>'}[v]
            a = []
            while not s.accept(end):
                et = s.type(); a.append(s.val(et)); s.accept(',')
            if packed: s.expect('>')
            return Val('agg', a, t)
        if k == 'word' and v in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select', 'addrspacecast', 'udiv'):
            fl = []
            while s.peek()[0] == 'word' and s.pv() in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange', 'eq', 'ne', 'ult', 'ugt', 'ule', 'uge', 'slt', 'sgt', 'sle', 'sge', 'nusw'):
                fl.append(s.next()[1])
                if fl[-1] == 'inrange' and s.pv() == '(': s.skip_parens()
            s.expect('(')
            if v == 'getelementptr':
                st = s.type(); s.expect(','); a = []
                while not s.accept(')'):
                    s.accept('inrange'); et = s.type(); a.append(s.val(et)); s.accept(',')
                return Val('cexpr', ('getelementptr', a, {'src': st, 'flags': fl}), t)
            a = []
            to = None
            while not s.accept(')'):
                if s.accept('to'): to = s.type(); continue
                et = s.type(); a.append(s.val(et)); s.accept(',')
            return Val('cexpr', (v, a, {'to': to or t, 'flags': fl}), t)
        if v in ('dso_local_equivalent', 'no_cfi'):
            return s.val(t)
        if v == 'blockaddress':
            s.skip_parens(); return Val('undef', None, t)
        raise SyntaxError('ll: value %r %r' % (k, v))
    def tval(s):
        t = s.type(); a = s.attrs()
        if t == ('metadata',):
            s.skip_meta(); return Val('meta', None, t), a
        return s.val(t), a
    def skip_meta(s):
        # consume until , or ) at depth 0
        d = 0
        while True:
            v = s.pv()
            if v == '' : return
            if d == 0 and v in (',', ')'): return
            if v in '([{': d += 1
            elif v in ')]}': d -= 1
            s.next()

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext bitcast ptrtoint inttoptr fptrunc fpext fptoui fptosi uitofp sitofp addrspacecast'.split())
FASTMATH = set('fast nnan ninf nsz arcp contract afn reassoc'.split())
ORD = ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')

def parse_inst(line, mod):
    p = P(tokenize(line), mod)
    dst = None
    if p.peek()[0] == 'lname' and p.pv(1) == '=':
        dst = p.next()[1][1:].strip('"'); p.next()
    op = p.next()[1]
    x = {}
    def flags():
        f = []
        while p.peek()[0] == 'word' and (p.pv() in ('nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'nusw', 'samesign') or p.pv() in FASTMATH): f.append(p.next()[1])
        return f
    if op in BIN:
        x['flags'] = flags(); t = p.type(); a = p.val(t); p.expect(','); b = p.val(t)
        return Inst(op, dst, t, [a, b], x, line)
    if op == 'fneg':
        flags(); t = p.type(); return Inst(op, dst, t, [p.val(t)], x, line)
    if op == 'freeze':
        t = p.type(); return Inst(op, dst, t, [p.val(t)], x, line)
    if op in ('icmp', 'fcmp'):
        f = flags(); pr = p.next()[1]; t = p.type(); a = p.val(t); p.expect(','); b = p.val(t)
        x['pred'] = pr
        return Inst(op, dst, (('vec', t[1], I(1)) if t[0] == 'vec' else I(1)), [a, b], x, line)
    if op in CAST:
        x['flags'] = flags(); t = p.type(); a = p.val(t); p.expect('to'); t2 = p.type()
        return Inst(op, dst, t2, [a], x, line)
    if op == 'select':
        flags(); c, _ = p.tval(); p.expect(','); a, _ = p.tval(); p.expect(','); b, _ = p.tval()
        return Inst(op, dst, a.t, [c, a, b], x, line)
    if op == 'phi':
        flags(); t = p.type(); inc = []
        while True:
            p.expect('['); v = p.val(t); p.expect(','); b = p.next()[1][1:].strip('"'); p.expect(']'); inc.append((v, b))
            if not p.accept(','): break
            if p.peek()[0] == 'meta': break
        x['inc'] = inc
        return Inst(op, dst, t, [], x, line)
    if op == 'br':
        if p.accept('label'):
            x['to'] = [p.next()[1][1:].strip('"')]
            return Inst('br', None, None, [], x, line)
        t = p.type(); c = p.val(t); p.expect(','); p.expect('label'); a = p.next()[1][1:].strip('"'); p.expect(','); p.expect('label'); b = p.next()[1][1:].strip('"')
        x['to'] = [a, b]
        return Inst('br', None, None, [c], x, line)
    if op == 'switch':
        t = p.type(); c = p.val(t); p.expect(','); p.expect('label'); d = p.next()[1][1:].strip('"'); p.expect('[')
        cs = []
        while not p.accept(']'):
            ct = p.type(); v = p.val(ct); p.expect(','); p.expect('label'); cs.append((v.v, p.next()[1][1:].strip('"')))
        x['default'] = d; x['cases'] = cs
        return Inst(op, None, t, [c], x, line)
    if op == 'ret':
        t = p.type()
        return Inst(op, None, t, [] if t == ('void',) else [p.val(t)], x, line)
    if op == 'unreachable': return Inst(op, None, None, [], x, line)
    if op == 'resume': return Inst('resume', None, None, [], x, line)
    if op == 'alloca':
        p.accept('inalloca'); t = p.type(); n = None; al = 1
        while p.accept(','):
            if p.accept('align'): al = int(p.next()[1])
            elif p.peek()[0] == 'meta': break
            elif p.accept('addrspace'): p.skip_parens()
            else: n, _ = p.tval()
        x.update(ty=t, n=n, align=al)
        return Inst(op, dst, PTR, [], x, line)
    if op == 'load':
        x['atomic'] = p.accept('atomic'); x['volatile'] = p.accept('volatile')
        t = p.type(); p.expect(','); a, _ = p.tval()
        x['sync'] = None; x['align'] = 1; x['order'] = None
        if p.accept('syncscope'): x['sync'] = p.pv(1); p.skip_parens()
        if p.pv() in ORD: x['order'] = p.next()[1]
        if p.accept(','):
            if p.accept('align'): x['align'] = int(p.next()[1])
        return Inst(op, dst, t, [a], x, line)
    if op == 'store':
        x['atomic'] = p.accept('atomic'); x['volatile'] = p.accept('volatile')
        v, _ = p.tval(); p.expect(','); a, _ = p.tval()
        x['sync'] = None; x['align'] = 1; x['order'] = None
        if p.accept('syncscope'): x['sync'] = p.pv(1); p.skip_parens()
        if p.pv() in ORD: x['order'] = p.next()[1]
        if p.accept(','):
            if p.accept('align'): x['align'] = int(p.next()[1])
        return Inst(op, None, None, [v, a], x, line)
    if op == 'fence':
        x['sync'] = None
        if p.accept('syncscope'): x['sync'] = p.pv(1).strip('"'); p.skip_parens()
        x['order'] = p.next()[1]
        return Inst(op, None, None, [], x, line)
    if op == 'cmpxchg':
        x['weak'] = p.accept('weak'); x['volatile'] = p.accept('volatile')
        a, _ = p.tval(); p.expect(','); c, _ = p.tval(); p.expect(','); n, _ = p.tval()
        x['sync'] = None
        if p.accept('syncscope'): x['sync'] = p.pv(1); p.skip_parens()
        x['order'] = p.next()[1]; x['forder'] = p.next()[1]; x['align'] = 1
        if p.accept(','):
            if p.accept('align'): x['align'] = int(p.next()[1])
        return Inst(op, dst, ('st', [c.t, I(1)], False), [a, c, n], x, line)
    if op == 'atomicrmw':
        x['volatile'] = p.accept('volatile'); x['rop'] = p.next()[1]
        a, _ = p.tval(); p.expect(','); v, _ = p.tval()
        x['sync'] = None
        if p.accept('syncscope'): x['sync'] = p.pv(1); p.skip_parens()
        x['order'] = p.next()[1]; x['align'] = 1
        if p.accept(','):
            if p.accept('align'): x['align'] = int(p.next()[1])
        return Inst(op, dst, v.t, [a, v], x, line)
    if op == 'getelementptr':
        x['flags'] = flags(); st = p.type(); x['src'] = st; a = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            a.append(p.tval()[0])
        t = PTR
        for v in a:
            if v.t[0] == 'vec': t = ('vec', v.t[1], PTR)
        return Inst(op, dst, t, a, x, line)
    if op == 'extractvalue':
        v, _ = p.tval(); idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.next()[1]))
        x['idx'] = idx
        return Inst(op, dst, None, [v], x, line)
    if op == 'insertvalue':
        v, _ = p.tval(); p.expect(','); e, _ = p.tval(); idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.next()[1]))
        x['idx'] = idx
        return Inst(op, dst, v.t, [v, e], x, line)
    if op == 'extractelement':
        v, _ = p.tval(); p.expect(','); i, _ = p.tval()
        return Inst(op, dst, v.t[2], [v, i], x, line)
    if op == 'insertelement':
        v, _ = p.tval(); p.expect(','); e, _ = p.tval(); p.expect(','); i, _ = p.tval()
        return Inst(op, dst, v.t, [v, e, i], x, line)
    if op == 'shufflevector':
        a, _ = p.tval(); p.expect(','); b, _ = p.tval(); p.expect(','); m, _ = p.tval()
        return Inst(op, dst, ('vec', m.t[1], a.t[2]), [a, b, m], x, line)
    if op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
        if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        flags()
        while p.peek()[0] == 'word' and p.pv() in ('fastcc', 'ccc', 'coldcc', 'cc'): p.next()
        p.attrs(); 
        if p.accept('addrspace'): p.skip_parens()
        t = p.type()
        if t[0] == 'fn': t = t[1]
        if p.accept('asm'):
            x['sideeffect'] = p.accept('sideeffect')
            p.accept('alignstack'); p.accept('inteldialect'); p.accept('unwind')
            tmpl = p.next()[1]; p.expect(','); cons = p.next()[1]
            x['asm'] = unesc(tmpl); x['cons'] = unesc(cons)
            callee = None
        else:
            callee = p.val(PTR)
        p.expect('('); a = []; at = []
        while not p.accept(')'):
            v, ats = p.tval(); a.append(v); at.append(ats); p.accept(',')
        x['callee'] = callee; x['attrs'] = at
        if op == 'invoke':
            while p.pv() != 'to': p.next()
            p.next(); p.expect('label'); x['to'] = [p.next()[1][1:].strip('"')]; p.expect('unwind'); p.expect('label'); x['unwind'] = p.next()[1][1:].strip('"')
        return Inst(op, dst, t, a, x, line)
    if op == 'landingpad': return Inst('landingpad', dst, None, [], x, line)
    return Inst('?', dst, None, [], {'name': op}, line)

def unesc(s):
    s = s[1:-1] if s[0] == '"' else s[2:-1]
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s).replace('\\\\', '\\')

HEADER = re.compile(r'^(define|declare)\b')

def parse_global(line, mod):
    m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*', line)
    name = m.group(1).strip('"')
    toks = tokenize(line[m.end():])
    p = P(toks, mod)
    ext = False
    const = None
    while True:
        k, v = p.peek()
        if v in ('global', 'constant'):
            const = v == 'constant'; p.next(); break
        if v in ('alias', 'ifunc'): return
        if v in ('external', 'extern_weak'): ext = True
        if v in ('thread_local', 'addrspace') :
            p.next()
            if p.pv() == '(': p.skip_parens()
            continue
        if k == 'eof': return
        p.next()
        if p.pv() == '(' : p.skip_parens()
    t = p.type()
    init = None
    if not ext and not p.done() and p.pv() != ',':
        init = p.val(t)
    al = 1
    while not p.done():
        if p.accept('align'): al = int(p.next()[1])
        else: p.next()
    mod.globals[name] = {'t': t, 'init': init, 'const': const, 'ext': ext, 'align': al}

def parse_module(text, want=None):
    """want: predicate on function name whose body should be parsed"""
    mod = Module(); mod.text = text
    lines = text.split('\n'); i = 0; n = len(lines)
    pend = []
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, rhs = l.split(' = type ', 1)
            if rhs.strip() == 'opaque': mod.types[nm[1:].strip('"')] = ('opaque',)
            else: mod.types[nm[1:].strip('"')] = P(tokenize(rhs), mod).type()
        elif l.startswith('@'):
            parse_global(l, mod)
        elif l.startswith('define ') or l.startswith('declare '):
            f = parse_header(l, mod)
            if l.startswith('declare '):
                mod.decls[f.name] = f
            else:
                j = i + 1
                while lines[j] != '}': j += 1
                body = lines[i+1:j]
                f.text = '\n'.join(lines[i:j+1])
                if want is None or want(f.name): parse_body(f, body, mod)
                else: f.order = None; f._body = body
                mod.funcs[f.name] = f
                i = j
        i += 1
    return mod

def ensure_body(f, mod):
    if f.order is None:
        f.order = []; parse_body(f, f._body, mod)

def parse_header(l, mod):
    f = Func()
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
    f.name = m.group(1).strip('"')
    # return type: last type before name
    pre = l[:m.start()]
    toks = tokenize(pre)
    # find type start by trying suffixes
    f.ret = None
    for k in range(1, len(toks)):
        try:
            p = P(toks[k:], mod); t = p.type()
            if p.done(): f.ret = t; break
        except (SyntaxError, ValueError, KeyError): continue
    p = P(tokenize(l[m.end()-1:].rstrip('{ ')), mod)
    p.expect('(')
    idx = 0
    while not p.accept(')'):
        if p.accept('...'): continue
        t = p.type(); a = p.attrs(); nm = None
        if p.peek()[0] == 'lname': nm = p.next()[1][1:].strip('"')
        f.params.append((nm if nm is not None else str(idx), t, a)); idx += 1
        p.accept(',')
    return f

LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')

def parse_body(f, body, mod):
    cur = None; i = 0
    nparams = len(f.params)
    while i < len(body):
        l = body[i]
        if not l.strip() or l.startswith(';'): i += 1; continue
        m = LABEL.match(l)
        if m and not l.startswith(' '):
            cur = Block(m.group(1).strip('"')); f.blocks[cur.name] = cur; f.order.append(cur.name); i += 1; continue
        if cur is None:
            nm = None
            # implicit entry label is number after the last unnamed param
            un = [x for x in f.params if x[0].isdigit()]
            nm = str(len(un)) if un or True else 'entry'
            cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
        s = l.strip()
        if s.startswith('switch ') and '[' in s and ']' not in s:
            while ']' not in body[i]:
                i += 1; s += ' ' + body[i].strip()
        if s.startswith(('invoke ',)) or ' = invoke ' in s or s.startswith('%') and ' = landingpad' in s or s.startswith('landingpad'):
            while i + 1 < len(body) and body[i+1].startswith('          '):
                i += 1; s += ' ' + body[i].strip()
        try:
            ins = parse_inst(s, mod)
        except (SyntaxError, ValueError, IndexError, KeyError) as e:
            ins = Inst('?', None, None, [], {'name': 'parse error: %s' % e}, s)
        cur.insts.append(ins)
        i += 1

# ---- layout (x86-64 data layout)
def resolve(t, mod):
    while t[0] == 'named': t = mod.types[t[1]]
    return t
def align_of(t, mod):
    t = resolve(t, mod)
    if t[0] == 'i':
        n = (t[1] + 7) // 8; a = 1
        while a < n: a *= 2
        return min(a, 16)
    if t[0] == 'ptr': return 8
    if t[0] == 'float': return 4
    if t[0] == 'double': return 8
    if t[0] in ('x86_fp80', 'fp128'): return 16
    if t[0] == 'arr': return align_of(t[2], mod)
    if t[0] == 'vec':
        n = size_of(t, mod); a = 1
        while a < n: a *= 2
        return a
    if t[0] == 'st': return 1 if t[2] else max([align_of(e, mod) for e in t[1]] + [1])
    raise SyntaxError('align_of %r' % (t,))
def bits_of(t, mod):
    t = resolve(t, mod)
    if t[0] == 'i': return t[1]
    if t[0] == 'ptr': return 64
    if t[0] == 'float': return 32
    if t[0] == 'double': return 64
    if t[0] == 'x86_fp80': return 80
    if t[0] == 'vec': return t[1] * bits_of(t[2], mod)
    raise SyntaxError('bits_of %r' % (t,))
def store_size(t, mod):
    t = resolve(t, mod)
    if t[0] in ('arr', 'st'): return size_of(t, mod)
    return (bits_of(t, mod) + 7) // 8
def size_of(t, mod):
    t = resolve(t, mod)
    if t[0] == 'arr': return t[1] * size_of(t[2], mod)
    if t[0] == 'st':
        o = 0
        for e in t[1]:
            if not t[2]:
                a = align_of(e, mod); o = (o + a - 1) // a * a
            o += size_of(e, mod)
        if not t[2]:
            a = align_of(t, mod); o = (o + a - 1) // a * a
        return o
    if t[0] == 'vec': return (bits_of(t, mod) + 7) // 8
    n = store_size(t, mod); a = align_of(t, mod)
    return (n + a - 1) // a * a
def field_off(t, i, mod):
    t = resolve(t, mod); o = 0
    for k, e in enumerate(t[1]):
        if not t[2]:
            a = align_of(e, mod); o = (o + a - 1) // a * a
        if k == i: return o
        o += size_of(e, mod)
    raise SyntaxError('field')
