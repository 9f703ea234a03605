"""Scheduling of proof tasks, verdicts, evidence files."""
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
T0 = time.time()


class Ob:
    """outcome of one obligation"""

    def __init__(self, name, status, detail='', secs=0.0, replay=None, backend='', count=1, functions=(), vcs=0, bound='', key=None):
        self.name = name
        self.status = status      # proved | bounded | violated | unproved | unknown
        self.detail = detail
        self.secs = secs
        self.replay = replay
        self.backend = backend
        self.count = count
        self.functions = tuple(functions)
        self.vcs = vcs
        self.bound = bound
        self.key = key or name


def _child(w, fn, args, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, resource.getrlimit(resource.RLIMIT_AS)[1]))
        sys.setrecursionlimit(20000)
        t = time.time()
        r = fn(*args)
        if isinstance(r, Ob):
            r = [r]
        data = pickle.dumps(('ok', r, time.time() - t))
    except MemoryError:
        data = pickle.dumps(('mem', 'out of memory', 0))
    except BaseException:
        data = pickle.dumps(('err', traceback.format_exc()[-3000:], 0))
    with os.fdopen(w, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_tasks(tasks, workers=8, deadline=800, mem=6 << 30, verbose=True):
    """tasks: list of (name, fn, args, timeout).  Each runs in its own process."""
    pend = list(tasks)
    run = {}
    out = []
    while pend or run:
        while pend and len(run) < workers:
            name, fn, args, to = pend.pop(0)
            left = deadline - (time.time() - T0)
            if left < 5:
                out.append(Ob(name, 'unknown', 'not started: time budget used up'))
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                _child(w, fn, args, mem)
            os.close(w)
            run[r] = [pid, name, time.time(), min(to, left), b'']
        if not run:
            break
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                run[r][4] += d
                continue
            pid, name, t, to, data = run.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            if not data:
                out.append(Ob(name, 'unknown', 'worker died'))
                continue
            k, v, secs = pickle.loads(data)
            if k == 'ok':
                out.extend(v)
            else:
                out.append(Ob(name, 'unknown', v))
            if verbose:
                if os.environ.get('KV_VERBOSE'):
                    for o in out[-(len(v) if k == 'ok' else 1):]:
                        if o.status == 'bounded' and not o.name.startswith('_'):
                            sys.stderr.write('   bounded: %s: ...%s\n' % (o.name, str(o.detail)[-500:]))
                bad = [o for o in out[-(len(v) if k == 'ok' else 1):] if o.status not in ('proved', 'bounded')]
                if bad or os.environ.get('KV_VERBOSE'):
                    sys.stderr.write('[%6.1f] %-40s %s %.1fs\n' % (time.time() - T0, name, '; '.join('%s:%s' % (o.status, o.name) for o in bad) or 'ok', time.time() - t))
                    for o in bad:
                        sys.stderr.write('        %s\n' % str(o.detail)[-1500:])
        now = time.time()
        for r in list(run):
            pid, name, t, to, data = run[r]
            if now - t > to:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del run[r]
                out.append(Ob(name, 'unknown', 'time limit %ds' % to))
                sys.stderr.write('[%6.1f] %-40s TIMEOUT\n' % (now - T0, name))
    return out


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                out.append(dict(x.split('=', 1) for x in ln[8:].split('|') if '=' in x))
    return out


TRUSTED = [
    'clang -O0 + opt (sroa, simplifycfg, dce) lowering of the C sources to LLVM IR; the verified text is that IR, regenerated on every run',
    'kv/machine.py: semantics of the LLVM instructions, memory model and the x86 inline-assembly rotates/bswap',
    'kv/terms.py: term normalisation, sweeping and truth-table provers',
    'the executable specifications in kv/spec',
    'python3, z3 where named as back end',
]


def finish(prop, obs, level='proof', assumptions=(), extra=None, checker_cmd=None, trusted=()):
    """print verdict lines, write evidence, exit"""
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    known = [k for k in known_findings() if k.get('property') == prop]
    byst = {}
    for o in obs:
        byst.setdefault(o.status, []).append(o)
    viol = []
    seen = set()
    n = 0
    for f in os.listdir(os.path.join(ev, 'replay')):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(ev, 'replay', f))
    for o in byst.get('violated', []) + byst.get('unproved', []):
        k = next((k for k in known if k.get('key') == o.key), None)
        if k is not None:
            if o.key not in seen:
                seen.add(o.key)
                print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', o.key)))
            continue
        n += 1
        path = os.path.join(ev, 'replay', '%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'obligation': o.name, 'key': o.key, 'status': o.status, 'detail': str(o.detail), 'replay': o.replay}, f, indent=1, default=str)
        viol.append((o, path))
    shown = 0
    for o, path in viol:
        if shown < 20:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if o.status == 'violated' else ' no-failing-input-found'))
            sys.stderr.write('  failed obligation: %s: %s\n' % (o.name, str(o.detail)[:600]))
        shown += 1
    fns = set()
    for o in obs:
        fns.update(o.functions)
    backs = {}
    for o in byst.get('proved', []):
        backs[o.backend or 'terms'] = backs.get(o.backend or 'terms', 0) + o.count
    cov = {
        'obligations': sum(o.count for o in obs),
        'discharged': sum(o.count for o in byst.get('proved', [])),
        'checker_cmd': checker_cmd or './check %s %s' % (prop, TIER),
        'trusted_base': TRUSTED + list(trusted),
        'back_ends': backs,
        'solver_seconds': round(sum(o.secs for o in obs), 2),
        'memory_and_assert_obligations': sum(o.vcs for o in obs),
        'functions_under_contract': sorted('%s:%s' % f for f in fns),
        'bounded': [{'obligation': o.name, 'bound': o.bound, 'detail': str(o.detail)[:300]} for o in byst.get('bounded', [])][:400],
        'undecided': [{'obligation': o.name, 'reason': str(o.detail)[-300:]} for o in byst.get('unknown', [])][:200],
        'proved_names': [o.name for o in byst.get('proved', [])][:1500],
    }
    if extra:
        cov.update(extra)
    data = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
            'assumptions': list(assumptions), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    tmp = os.path.join(ev, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, os.path.join(ev, prop + '.json'))
    print('%s: %d obligations, %d discharged, %d bounded, %d undecided, %d violated, %.1fs' % (
        prop, cov['obligations'], cov['discharged'], len(byst.get('bounded', [])), len(byst.get('unknown', [])), len(viol), time.time() - T0))
    sys.stdout.flush()
    sys.exit(1 if viol else 0)
