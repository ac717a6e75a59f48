"""Tasks that verify src/lock_pool.cpp against the contracts in lpspec.py.

The translation unit is the library's own source file, included as it is; the
few appended constants only report structure layout to the verifier."""
import os, re, time, tempfile, shutil
import z3
from . import ll, sym, api, build, lpspec

FLAGS = ['-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41', '-DBOOST_ATOMIC_SOURCE']
LAY = {'ls_mutex': ('offsetof(lock_state, m_mutex)', 0), 'ls_hdr': ('offsetof(lock_state, m_wait_states) + offsetof(wait_state_list, m_header)', 8),
       'ls_free': ('offsetof(lock_state, m_wait_states) + offsetof(wait_state_list, m_free_memory)', 16), 'ls_size': ('sizeof(lock_state)', 24),
       'stride': ('sizeof(padded_lock_state_t)', 64), 'pool': ('sizeof(g_lock_pool)', 16384),
       'ws_ref': ('offsetof(wait_state, m_ref_count)', 0), 'ws_idx': ('offsetof(wait_state, m_index)', 8), 'ws_cond': ('offsetof(wait_state, m_cond)', 16),
       'ws_wc': ('offsetof(wait_state, m_waiter_count)', 20), 'ws_size': ('sizeof(wait_state)', 24)}
PRE = '#include "%s/src/lock_pool.cpp"\n'
NSP = '_ZN5boost7atomics6detail9lock_pool'
F = {'short_lock': NSP + '10short_lockEm', 'long_lock': NSP + '9long_lockEm', 'unlock': NSP + '6unlockEPv', 'alloc': NSP + '19allocate_wait_stateEPvPVKv',
     'free': NSP + '15free_wait_stateEPvS3_', 'wait': NSP + '4waitEPvS3_', 'wait_until': NSP + '10wait_untilEPvS3_iRK8timespec',
     'wait_for': NSP + '8wait_forEPvS3_NSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEE', 'notify_one': NSP + '10notify_oneEPvPVKv', 'notify_all': NSP + '10notify_allEPvPVKv',
     'thread_fence': NSP + '12thread_fenceEv', 'signal_fence': NSP + '12signal_fenceEv'}

def tu(lay=True):
    t = PRE % build.REPO
    if lay:
        t += 'namespace boost { namespace atomics { namespace detail { namespace lock_pool {\n'
        for k, (e, d) in LAY.items(): t += 'extern "C" const unsigned long lpk_%s = %s;\n' % (k, e)
        t += '} } } }\n'
    return t

def load(cfg, extra=()):
    work = tempfile.mkdtemp(prefix='irv.')
    try:
        fl = ['-I%s/src' % build.REPO] + FLAGS + list(extra)
        try: p = build.compile_ir(tu(), cfg, work, 'lp', extra=fl)
        except build.BuildError:
            # fields or types renamed: the layout of the unchanged structures is assumed, and every access checked against it
            p = build.compile_ir(tu(False), cfg, work, 'lp', extra=fl)
        txt = open(p).read()
    finally: shutil.rmtree(work, ignore_errors=True)
    lay = {k: d for k, (e, d) in LAY.items()}
    for k, v in re.findall(r'^@lpk_(\w+) = .*constant i64 (\d+)', txt, re.M): lay[k] = int(v)
    # what the source registers for process exit
    c = re.findall(r'@atexit\(ptr [^@)]*@([\w.$]+)\)', txt)
    if not c: c = re.findall(r'^define internal void @(\w*cleanup\w*)\(\)', txt, re.M)
    return ll.parse_module(txt), lay, (c[0] if c else None)

WHICH = {
    'lock': [('short_lock', dict(kind='lock')), ('long_lock', dict(kind='lock'))],
    'unlock': [('unlock', dict(kind='unlock'))],
    'alloc': [('alloc', dict(kind='alloc'))],
    'free': [('free', dict(kind='free')), ('free', dict(kind='free', null=True))],
    'wait': [('wait', dict(kind='wait')), ('wait', dict(kind='wait', null=True))],
    'wait_for': [('wait_for', dict(kind='wait_for')), ('wait_for', dict(kind='wait_for', null=True))],
    'wait_until': [('wait_until', dict(kind='wait_until', clock=c, null=n)) for n in (False, True) for c in (0, 1, None)],
    'notify': [('notify_one', dict(kind='notify', all=False)), ('notify_all', dict(kind='notify', all=True))],
    'cleanup': [('cleanup', dict(kind='cleanup'))],
    'fence': [('thread_fence', dict(kind='fence')), ('signal_fence', dict(kind='sfence'))],
}

def unit(t):
    from .engine import res_of
    mod, lay, cleanup = load(t['cfg'], t.get('extra', ()))
    out = []; hs = []
    for nm, m in (WHICH[t['what']] if t.get('sub') is None else [WHICH[t['what']][i] for i in t['sub']]):
        m = dict(m, lay=lay, cleanup=cleanup)
        fn = cleanup if nm == 'cleanup' else F[nm]
        if fn is None or fn not in mod.funcs: raise build.BuildError('function %s not found in lock_pool.cpp' % (fn or nm))
        t0 = time.time(); q0 = (sym.STATS.queries, sym.STATS.time)
        spec = lpspec.LPSpec(m)
        ex = api.verify(mod, fn, spec, deadline=time.time() + t.get('limit', 600), only=t.get('only'))
        label = nm + ('(no wait state)' if m.get('null') else '') + ('' if 'clock' not in m else '/clock %s' % ('other' if m['clock'] is None else m['clock']))
        if m['kind'] == 'lock': hs.append((ex, spec, label))
        r = (ex, label, t0, q0, m)
        out.append(r)
    if hs:
        # lemma: every way to take the lock of a selector takes the same lock
        ref = None
        for ex, spec, label in hs:
            for st, e in spec.hashes:
                if ref is None: ref = (label, e)
                ex.require(st, e == ref[1], 'lockmap', '%s selects another lock than %s for the same object' % (label, ref[0]))
                if any(not c.eq(spec.h) for c in sym.free_consts(e)): ex.fail(st, 'lockmap', 'lock selection depends on something else than the selector')
    res = []
    for ex, label, t0, q0, m in out:
        r = res_of(ex, 'lock_pool::' + label, t['cfg'], t0, dict(solver=sym.STATS.time - q0[1], queries=sym.STATS.queries - q0[0], vacuous=ex.vacuous))
        if r['fails']: r['meta'] = dict({k: v for k, v in m.items() if isinstance(v, (str, int, bool, type(None)))}, mkind='lockpool', what=t['what'], label=label)
        res.append(r)
    return res
