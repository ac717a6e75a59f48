"""Tasks that verify the public operations (one instantiation unit per task)."""
import os, time, tempfile, shutil
from . import ll, sym, api, harness, build

def sel_of(spec):
    """spec: dict(groups=[...], ops=[...], noops=[...])"""
    g = spec.get('groups'); o = spec.get('ops'); no = spec.get('noops', ())
    def sel(t, f, op):
        if op.name in no: return False
        if g is not None and op.group in g: return True
        if o is not None and op.name in o: return True
        return g is None and o is None and op.group not in ('ctor', 'query', 'wait', 'timed', 'fence')
    return sel

def unit(t):
    """t: cfg, types, fronts, sel, defaults"""
    cfgname = t['cfg']; c = build.cfg_of(cfgname)
    types = [harness.ALLT[n] for n in t['types']]
    if not c.get('clear_padding'): types = [x for x in types if not x.pads or x.name == 'f80']
    if not types: return []
    work = tempfile.mkdtemp(prefix='irv.')
    try:
        text, metas = harness.gen(types, t['fronts'], sel_of(t['sel']), defaults=t.get('defaults', True), clear_padding=c.get('clear_padding'))
        p = build.compile_ir(text, cfgname, work, 'h')
        mod = ll.parse_module(open(p).read())
    finally: shutil.rmtree(work, ignore_errors=True)
    out = []
    tails = {}
    refh = {}
    mk = t.get('spec', 'AtomicSpec')
    metas.sort(key=lambda m: m['op'] not in ('ctor', 'ctor0'))
    for m in metas:
        m = harness.complete(m, mod, c)
        t0 = time.time(); q0 = (sym.STATS.queries, sym.STATS.time)
        if m['tailzero'] and tails.get(m['pn']) is False: m['tailzero'] = False
        spec = make_spec(m)
        if m['kind'] not in ('ctor', 'query', 'fence') and not m.get('ipc') and (m['lockfree'] is False or (m['waits'] and not m['native'])):
            key = (m['t'], m['front'], m['lockfree'])
            if key not in refh: refh[key] = ref_hash(mod, metas, m, c)
            if refh[key] is not None: m['refhash'] = refh[key]
        ex = api.verify(mod, m['fn'], spec, deadline=time.time() + t.get('limit', 600), only=t.get('only'))
        if m['kind'] == 'ctor' and m['tailzero'] and any('hidden bytes' in f.msg for f in ex.fails) and m['objsize'] > m['valsize']:
            # this type's representation does not promise zero hidden bytes: no operation may rely on it then
            tails[m['pn']] = False; m['tailzero'] = False
            ex = api.verify(mod, m['fn'], make_spec(m), deadline=time.time() + t.get('limit', 600), only=t.get('only'))
        from .engine import res_of
        r = res_of(ex, m['fn'], cfgname, t0, dict(solver=sym.STATS.time - q0[1], queries=sym.STATS.queries - q0[0], vacuous=ex.vacuous))
        if r['fails']: r['meta'] = {k: v for k, v in m.items() if isinstance(v, (str, int, bool, type(None)))}; r['types'] = t['types']; r['fronts'] = t['fronts']; r['sel'] = t['sel']; r['defaults'] = t.get('defaults', True)
        out.append(r)
    return out

def make_spec(m):
    if m.get('kind', '').startswith('wait') or m.get('kind') == 'notify':
        from . import waitspec
        return waitspec.WaitSpec(m)
    return api.AtomicSpec(m)

def ref_hash(mod, metas, m, c):
    """address -> lock selector used by load() of the same object"""
    fn = 'h_%s_%s' % (m['pn'], 'load' if not m['lockfree'] else 'notify_one')
    if fn not in mod.funcs: fn = 'h_%s_notify_one' % m['pn']
    if fn not in mod.funcs: return None
    lm = next((x for x in metas if x['fn'] == fn), None)
    if lm is None: return None
    lm = harness.complete(lm, mod, c); sp = make_spec(lm)
    api.verify(mod, fn, sp)
    hs = getattr(sp, 'hashes', [])
    if not hs: return None
    import z3
    return z3.substitute(hs[0][0], (sp.obj.base, z3.BitVec('&obj', 64)))

def mk(cfg, types, fronts, sel, defaults=True, cost=1, split=True, **kw):
    """tasks, one per type (16-byte types are the expensive ones)"""
    out = []
    big = [t for t in types if harness.ALLT[t].size >= 16]
    small = [t for t in types if harness.ALLT[t].size < 16]
    groups = [[t] for t in big]
    n = kw.pop('chunk', 3)
    groups += [small[i:i + n] for i in range(0, len(small), n)]
    for g in groups:
        out.append(dict(mod='ops', fun='unit', name='%s/%s/%s' % (cfg, ','.join(g), ','.join(fronts)), cfg=cfg, types=g, fronts=list(fronts), sel=sel, defaults=defaults,
                        cost=sum(4 if harness.ALLT[t].size == 16 else 1 for t in g) * len(fronts) * cost, **kw))
    return out
