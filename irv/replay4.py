"""Replays of failed obligations about waiting, notification, the internal locks and their
tables: the real sources are run under a simulated kernel (rt/sim.cpp) which chooses the
schedule at every memory access, the outcome of system calls and allocations, and the time;
wrong behaviour (blocked for ever, wrong or early result, oversleeping, race, bad memory
access, leak at exit) is reported with the history that led to it.  Only used to exhibit a
failing history once a proof obligation has failed; it decides nothing."""
import os, re, subprocess, tempfile, shutil, time, atexit
from concurrent.futures import ThreadPoolExecutor
from . import build
RT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rt')
REDIR = ('syscall clock_gettime nanosleep clock_nanosleep usleep sched_yield _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv atexit '
         'posix_memalign aligned_alloc malloc calloc free _Znwm _ZdlPvm _ZdlPv _ZdlPvRKSt9nothrow_t _ZnwmRKSt9nothrow_t memcpy memmove memset __assert_fail').split()

def sh(cmd, timeout=200, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace', **kw)

_built = {}
def binary(cfgname, ndebug):
    """the scenario program for a configuration (None and a text on failure)"""
    if (cfgname, ndebug) in _built: return _built[cfgname, ndebug]
    c = build.cfg_of(cfgname); d = tempfile.mkdtemp(prefix='irvrt.'); atexit.register(shutil.rmtree, d, True)
    cxx = 'g++' if c.get('gcc') else build.CLANG
    R = build.REPO; out = None, ''
    for std in dict.fromkeys((c['std'], 'c++17')):
        # the futex based lock pool needs 4-byte lock-free atomics, so the fallback configuration is replayed without that macro
        fl = ['-std=' + std, '-O1', '-g', '-w', '-I%s/include' % R, '-I%s/src' % R, '-I' + RT, '-DBOOST_ATOMIC_SOURCE', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=1'] + [q for q in c['flags'] if q.startswith('-m')]
        if ndebug: fl.append('-DNDEBUG')
        fl.append('-DBOOST_ATOMIC_USE_SSE41')
        objs = []; ok = True; txt = ''
        for src, path, more in (('sim', RT + '/sim.cpp', None), ('scen', RT + '/scen.cpp', ['-fsanitize=thread']), ('f2', R + '/src/find_address_sse2.cpp', ['-msse2']), ('f41', R + '/src/find_address_sse41.cpp', ['-msse4.1'])):
            o = '%s/%s.o' % (d, src)
            r = sh(['g++', '-std=c++17', '-O2', '-w', '-c', path, '-o', o] if more is None else [cxx] + fl + more + ['-c', path, '-o', o])
            if r.returncode: ok = False; txt += '%s: %s\n' % (src, r.stdout[-600:]); break
            if src == 'scen':
                r = sh(['objcopy'] + [a for s in REDIR for a in ('--redefine-sym', '%s=__wrap_%s' % (s, s))] + [o])
                if r.returncode: ok = False; txt += r.stdout[-300:]; break
            objs.append(o)
        if ok:
            r = sh(['g++'] + objs + ['-o', d + '/scen'])
            if r.returncode == 0: out = d + '/scen', txt; break
            txt += r.stdout[-600:]
        out = None, txt
    _built[cfgname, ndebug] = out
    return out

LOCKPOOL = 0b11100111; ALL = 0b11111111                     # kinds of objects, see scen.cpp
KINDS = {'lock': ['mutex', 'wait'], 'unlock': ['mutex', 'wait'], 'wait': ['wait', 'timed', 'oom', 'cleanup'], 'wait_until': ['timed', 'oom', 'cleanup'], 'wait_for': ['timed', 'oom', 'cleanup'],
         'notify': ['wait', 'timed', 'cleanup'], 'alloc': ['table', 'oom', 'wait', 'cleanup'], 'free': ['table', 'cleanup', 'oom', 'wait'], 'cleanup': ['cleanup', 'table']}
_ran = {}
def run(cfgname, ndebug, kinds, mask, secs):
    key = (cfgname, ndebug, tuple(kinds), mask)
    if key in _ran: return _ran[key]
    b, txt = binary(cfgname, ndebug)
    if b is None: _ran[key] = (False, 'simulation not built: ' + txt + '\n'); return _ran[key]
    per = max(1, 8 // len(kinds)); jobs = [(k, i) for i in range(per) for k in kinds]
    def one(j):
        k, i = j
        try: return k, sh([b, k, str(mask if k != 'oom' and k != 'cleanup' else mask & LOCKPOOL or LOCKPOOL), str(1 + i * 10 ** 9), str(10 ** 9), '10', str(secs)], timeout=secs + 90)
        except subprocess.TimeoutExpired: return k, None
    with ThreadPoolExecutor(len(jobs)) as ex: rs = list(ex.map(one, jobs))
    out = (False, 'simulated schedules (%s%s; %s; %d s each): nothing wrong seen\n' % (cfgname, ', assertions off' if ndebug else '', ', '.join(kinds), secs))
    for k, r in rs:
        if r is not None and r.returncode and 'BAD ' in r.stdout:
            out = (True, 'real code under the simulated kernel (%s%s, scenario %s):\n%s\n' % (cfgname, ', assertions off' if ndebug else '', k, r.stdout[-6000:])); break
    _ran[key] = out
    return out

def conc(x, f):
    m = x['meta']; txt = ''
    mask = ALL
    if m.get('mkind') == 'lockpool': kinds = KINDS.get(m['what'], None) or ['mutex', 'table', 'wait', 'timed', 'oom', 'cleanup']; mask = LOCKPOOL
    else:
        kinds = ['timed', 'wait'] if m['kind'] == 'wait_timed' else ['wait', 'timed']
        mask = 0b11011000 if m.get('ipc') or m.get('native') else ALL
    cfgs = list(dict.fromkeys([x['cfg'], 'gcc11']))
    for c in cfgs:
        for nd in (False, True):
            ok, t = run(c, nd, kinds, mask, 12); txt += t
            if ok: return True, txt
    return False, txt
