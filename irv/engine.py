"""Runs verification tasks in parallel, filters their failures by obligation
category, replays counterexamples, writes evidence and reports."""
import os, sys, time, json, traceback, hashlib, multiprocessing as mp, tempfile, shutil
from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')

def run_task(t):
    """executed in a worker: returns list of result dicts"""
    import importlib
    t0 = time.time()
    try:
        m = importlib.import_module('irv.' + t['mod'])
        rs = getattr(m, t['fun'])(t)
        return dict(task=t['name'], results=rs, time=time.time() - t0)
    except build.BuildError as e:
        return dict(task=t['name'], error='build', text=str(e), time=time.time() - t0, results=[])
    except Exception as e:
        return dict(task=t['name'], error='internal', text=traceback.format_exc(), time=time.time() - t0, results=[])

def res_of(ex, fn, cfg, t0, extra=None):
    """picklable summary of one verified function"""
    from . import sym
    fails = []
    for o in ex.fails:
        w = {}
        try:
            if o.model is not None:
                for d in o.model.decls():
                    if d.arity() == 0:
                        v = o.model[d]
                        w[d.name()] = str(v) if not hasattr(v, 'as_long') else hex(v.as_long())
        except Exception: pass
        evs = []
        try:
            if o.state is not None:
                for e in o.state.ev:
                    def val(x):
                        if x is None: return None
                        if o.model is None: return str(x)[:60]
                        v = o.model.eval(x, model_completion=True)
                        return hex(v.as_long()) if hasattr(v, 'as_long') else str(v)[:60]
                    evs.append(dict(kind=e.kind, rd=val(e.rd), wr=val(e.wr), hw=e.hw, sw=e.sw))
        except Exception: pass
        args = {}
        try:
            if o.model is not None:
                for k, v in getattr(ex.spec, 'args', {}).items():
                    args[k] = hex(o.model.eval(v, model_completion=True).as_long())
        except Exception: pass
        fails.append(dict(name=o.name, msg=o.msg, status=o.status, where=o.where[:300], model=w, events=evs, args=args, trace=list(o.state.trace)[-12:] if o.state is not None else []))
    r = dict(fn=fn, cfg=cfg, nobl=ex.nobl, nskip=ex.nskip, ndis=ex.ndis, bykind=ex.bykind, fails=fails, time=time.time() - t0,
             loops=len(ex.invs), paths=getattr(ex, 'npaths', 0))
    if extra: r.update(extra)
    return r

def run_tasks(tasks, jobs=8, limit=None, bad=None):
    """bad(result): a violation was found; once one is there, no more than a few minutes are spent on the rest"""
    tasks = sorted(tasks, key=lambda t: -t.get('cost', 1))
    if limit is None: limit = 760 if TIER == 'quick' else 36000
    out = []; nbad = False
    t0 = time.time()
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=1) as p:
        it = p.imap_unordered(run_task, tasks, chunksize=1)
        for i in range(len(tasks)):
            end = t0 + (min(limit, 420) if nbad else limit)
            try: r = it.next(timeout=max(0.1, end - time.time()))
            except mp.TimeoutError: p.terminate(); break
            out.append(r); nbad = nbad or bool(bad and bad(r))
    return out

TRUSTED = [
    'clang 18 front end and the LLVM passes always-inline/inline/sroa/simplifycfg/instsimplify/early-cse/adce translate the C++ source to IR faithfully',
    'irv/sym.py: verification-condition generation from LLVM IR (semantics of instructions, poison as undefined behaviour)',
    'irv/x86asm.py: semantics of the x86 instructions that occur in inline assembly, at instruction granularity',
    'z3 4.x decides the quantifier-free bit-vector / uninterpreted-function obligations correctly',
    'x86-64 hardware: aligned accesses up to 8 bytes, lock-prefixed instructions, cmpxchg16b and (with AVX) aligned 16-byte vector moves are single-copy atomic; TSO',
]

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out

def known_match(k, fn, cfg, f):
    import re
    m = k['match']
    return re.fullmatch(m.get('fn', '.*'), fn) and re.fullmatch(m.get('cfg', '.*'), cfg or '') and m.get('name', f['name']) == f['name'] and m.get('msg', '') in f['msg'] and m.get('where', '') in f['where']

def main(pid, title, tasks, cats, level, assumptions, trusted=(), fnrule='', post=None):
    t0 = time.time()
    tier = TIER
    evdir = os.environ.get('IRV_EVIDENCE') or os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, 'replay'); os.makedirs(rep, exist_ok=True)
    for t in tasks: t['only'] = cats
    inc = lambda f: cats is None or f['name'] in cats or f['name'] in ('not-under-contract',)
    results = run_tasks(tasks, bad=lambda r: any(inc(f) for x in r['results'] for f in x['fails']))
    errs = [r for r in results if r.get('error')]
    if errs:
        for r in errs: print('ERROR task %s: %s\n%s' % (r['task'], r['error'], r['text'][-3000:]))
        sys.stdout.flush()
        sys.exit(2)
    fs = [x for r in results for x in r['results']]
    if post: post(fs)
    known = load_known(pid); seen_known = {}
    viols = []; nobl = ndis = 0; bykind = {}
    for x in fs:
        for k, (a, b) in x['bykind'].items():
            if cats is not None and k not in cats: continue
            nobl += a; ndis += b
            c = bykind.setdefault(k, [0, 0]); c[0] += a; c[1] += b
        for f in x['fails']:
            if cats is not None and f['name'] not in cats and f['name'] != 'not-under-contract': continue
            if f['name'] == 'not-under-contract': nobl += 1; bykind.setdefault('not-under-contract', [0, 0])[0] += 1
            hit = next((k for k in known if known_match(k, x['fn'], x['cfg'], f)), None)
            if hit: seen_known[hit['id']] = hit; continue
            viols.append((x, f))
    vac = [x['fn'] for x in fs if x.get('nobl', 0) + x.get('nskip', 0) == 0 or x.get('vacuous')]
    if vac or nobl == 0:
        print('ERROR: vacuous verification of %s' % vac[:5]); sys.exit(2)
    if len(results) < len(tasks) and not viols:
        names = {r['task'] for r in results}
        print('ERROR: not finished in time: %s' % ', '.join(t['name'] for t in tasks if t['name'] not in names)[:1500]); sys.exit(2)
    for k in seen_known.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    stale = [k['id'] for k in known if k['id'] not in seen_known]
    solver = sum(x.get('solver', 0) for x in fs)
    cfgs = sorted(set(x['cfg'] for x in fs if x['cfg']))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, wall_s=0,
              violations=len(viols), assumptions=assumptions,
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt check.py %s (VC generator irv/ over LLVM IR of /repo, solver z3)' % pid,
                            trusted_base=TRUSTED + list(trusted), functions_under_contract=len(fs), configurations=cfgs,
                            obligations_by_kind={k: dict(generated=v[0], discharged=v[1]) for k, v in sorted(bykind.items())},
                            loops_cut_by_proved_invariants=sum(x['loops'] for x in fs), paths=sum(x['paths'] for x in fs),
                            solver_queries=sum(x.get('queries', 0) for x in fs), solver_s=round(solver, 1),
                            cpu_s=round(sum(x['time'] for x in fs), 1),
                            sample_functions=sorted(set('%s [%s]' % (x['fn'], x['cfg']) for x in fs))[::max(1, len(fs) // 12)][:14],
                            bounded_functions=sorted(set(x['fn'] for x in fs if x.get('bounded'))),
                            known_findings_seen=sorted(seen_known), known_findings_not_seen=stale))
    # replay a few counterexamples against the real code
    lines = []
    if viols:
        from . import replay
        grp = {}
        for x, f in viols: grp.setdefault((f['name'], f['msg']), []).append((x, f))
        confirmed = None
        order = sorted(grp.items(), key=lambda kv: (kv[0][0] == 'not-under-contract', -len(kv[1])))
        texts = []
        tries = 0
        for (nm, msg), l in order[:6]:
            for x, f in l[:3]:
                ok, txt = (False, '')
                if confirmed is None and tries < 8:
                    tries += 1
                    try: ok, txt = replay.replay(x, f)
                    except Exception as e: ok, txt = False, 'replay not possible: %r' % (e,)
                texts.append(replay.describe(x, f) + '\n--- replay against the real code: ' + ('REPRODUCED\n' if ok else 'not reproduced\n') + txt)
                if ok and confirmed is None: confirmed = (x, f)
        h = hashlib.sha1(('\n'.join('%s %s' % k for k in grp)).encode()).hexdigest()[:10]
        path = os.path.join(rep, '%s-%s.txt' % (pid, h))
        with open(path, 'w') as fo:
            fo.write('property %s: %s\n%d failed obligations in %d functions\n\n' % (pid, title, len(viols), len(set((x['fn'], x['cfg']) for x, f in viols))))
            fo.write('\n\n'.join(texts))
            fo.write('\n\nall failed obligations:\n')
            for x, f in viols[:400]: fo.write('%s [%s] %s: %s (%s) %s\n' % (x['fn'], x['cfg'], f['name'], f['msg'], f['status'], f['where'][:120]))
        for (nm, msg), l in order[:8]: print('failed obligation: %s: %s in %d function(s), e.g. %s [%s]' % (nm, msg, len(l), l[0][0]['fn'], l[0][0]['cfg']))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
    ev['wall_s'] = round(time.time() - t0, 1)
    with open(os.path.join(evdir, pid + '.json'), 'w') as fo: json.dump(ev, fo, indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged, %.1f s' % (pid, len(fs), ndis, nobl, time.time() - t0))
    sys.stdout.flush()
    sys.exit(1 if viols else 0)
