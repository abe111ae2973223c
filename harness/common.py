"""Shared machinery: environment, case runner, evidence, findings.

A check module defines

    LEVEL    evidence level ('model_checking', 'exploration', 'fault_enumeration')
    RULE     how cases are made and what makes one non-trivial
    WARM     '' | 'c' | 'f' | 'cf': which kernels are compiled before forking
    cases(tier)         -> list of JSON-able cases (a finite, complete list)
    run_case(case, R)   -> evaluates one case on the real code, reporting to R
    finish(ctx)         -> optional, runs once at the end in the parent

The enumeration of `cases` is the bounded state space; every element of it is
executed, none is sampled or skipped.  Nothing depends on VERIF_SEED.
"""
import hashlib
import io
import contextlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))


# --------------------------------------------------------------------------
# Environment
# --------------------------------------------------------------------------
def source_hash():
    """Hash of all python sources of the package: identifies the tree."""
    h = hashlib.sha256()
    base = os.path.join(REPO, 'empymod')
    for root, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        if '__pycache__' in root:
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, base).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    h.update(REPO.encode())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def setup_env():
    """Numba cache outside of the repository, keyed by the source content."""
    # Numba stamps its cache with mtime and size of the source; we key the
    # directory with the complete content, so a stale cache is impossible.
    d = os.path.join(tempfile.gettempdir(), f'verif-nb-{source_hash()}')
    os.makedirs(d, exist_ok=True)
    os.environ['NUMBA_CACHE_DIR'] = d
    sys.path.insert(0, REPO)
    sys.path.insert(1, HERE)


def import_empymod():
    import empymod
    p = os.path.abspath(empymod.__file__)
    if not p.startswith(REPO + os.sep):
        print(f"harness: empymod imported from {p}, not {REPO}",
              file=sys.stderr)
        sys.exit(2)
    return empymod


_WARM = r'''
import sys, json
sys.path.insert(0, %r)
import empymod
f = %s
empymod.dipole([0, 0, 100], [1000, 0, 200], [0, 300], [1, 2, 3], f, verb=0)
empymod.dipole([0, 0, 100], [1000, 0, 200], [0, 300], [1, 2, 3], [f, 2*f],
               verb=0, ab=33, loop='freq')
'''


def warm(kinds):
    """Compile the kernels (complex: frequency; float: Laplace) in parallel."""
    procs = []
    for k in kinds:
        code = _WARM % (REPO, '1.0' if k == 'c' else '-1.0')
        procs.append(subprocess.Popen(
            [sys.executable, '-B', '-c', code], stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE, text=True))
    err = ''
    for p in procs:
        _, e = p.communicate()
        if p.returncode != 0:
            err += e
    return err


def warm_local(kinds):
    """Load the compiled kernels in this process (before forking)."""
    import empymod
    for k in kinds:
        f = 1.0 if k == 'c' else -1.0
        empymod.dipole([0, 0, 100], [1000, 0, 200], [0, 300], [1, 2, 3], f,
                       verb=0)


# --------------------------------------------------------------------------
# Reporting
# --------------------------------------------------------------------------
class R:
    """Collects what one case did."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.nontrivial = set()
        self.outcomes = set()
        self.viol = []
        self.notes = {}

    @staticmethod
    def _h(key):
        return int.from_bytes(hashlib.blake2b(
            repr(key).encode(), digest_size=8).digest(), 'big')

    def ev(self, n=1):
        self.evaluations += n

    def tr(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, key, nontrivial=True):
        h = self._h(key)
        self.states.add(h)
        if nontrivial:
            self.nontrivial.add(h)

    def outcome(self, key):
        self.outcomes.add(self._h(key))

    def note(self, key, val):
        """Keep the maximum of a diagnostic value."""
        self.notes[key] = max(self.notes.get(key, float('-inf')), float(val))

    def fail(self, key, msg):
        if len(self.viol) < 40:
            self.viol.append((str(key), str(msg)[:4000]))

    def pack(self):
        return self.__dict__


@contextlib.contextmanager
def captured():
    """Capture stdout of the code under test."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


_MOD = None


def _work(arg):
    i, case = arg
    r = R()
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            _MOD.run_case(case, r)
    except BaseException as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO + os.sep + 'empymod')
                     for f in tb)
        txt = traceback.format_exc()
        if inrepo and not isinstance(e, (KeyboardInterrupt, MemoryError)):
            r.fail(f'exception:{type(e).__name__}',
                   f'unexpected exception in the code under test\n{txt}')
        else:
            return i, None, txt
    return i, r.pack(), time.time() - t0


def run_all(mod, cases, nproc=None):
    global _MOD
    _MOD = mod
    nproc = nproc or getattr(mod, 'NPROC', None) or min(8, os.cpu_count() or 1)
    args = list(enumerate(cases))
    out = [None]*len(args)
    harness_err = None
    if nproc == 1 or len(args) == 1:
        it = map(_work, args)
        pool = None
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(nproc)
        it = pool.imap_unordered(
            _work, args, chunksize=getattr(mod, 'CHUNK', 1))
    for i, res, extra in it:
        if res is None:
            harness_err = (cases[i], extra)
            break
        out[i] = (res, extra)
    if pool:
        pool.terminate()
        pool.join()
    return out, harness_err


def load_findings(pid):
    """Listed (unrepaired) findings of a property: key -> text."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    parts = dict(x.split('=', 1) for x in line.split()
                                 if x.startswith(('property=', 'key=')))
                    if parts.get('property') == pid:
                        txt = line.split('key='+parts['key'], 1)[1].strip()
                        out[parts['key']] = txt
    return out


def main(pid, tier, replay=None):
    t0 = time.time()
    setup_env()
    import importlib
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    # Import error of the package is an error of the tree, not of a property.
    modname = pid.lower()
    warm_err = ''
    with open(os.path.join(HERE, 'checks', modname+'.py')) as f:
        if re.search(r'^JIT = False', f.read(), re.M):
            os.environ['NUMBA_DISABLE_JIT'] = '1'
    import_empymod()
    mod = importlib.import_module(modname)
    kinds = getattr(mod, 'WARM', '')
    if kinds:
        warm_err = warm(kinds)
        if not warm_err:
            warm_local(kinds)

    if replay:
        with open(replay) as f:
            rep = json.load(f)
        cases = [rep['case']]
    else:
        cases = list(mod.cases(tier))
    # JSON round trip: what is executed is exactly what a replay executes.
    cases = [json.loads(json.dumps(c)) for c in cases]

    results, herr = run_all(mod, cases)
    if herr is not None:
        print(f"harness error in case {json.dumps(herr[0])[:500]}\n{herr[1]}",
              file=sys.stderr)
        return 2

    if os.environ.get('VERIF_SLOW'):
        for t, cs in sorted(((dt, json.dumps(c)) for c, (r, dt) in
                             zip(cases, results)), reverse=True)[:12]:
            print(f'{t:8.2f} s  {cs[:150]}', file=sys.stderr)

    tot = R()
    samples, viols = [], []
    times = []
    for case, (r, dt) in zip(cases, results):
        tot.evaluations += r['evaluations']
        tot.transitions += r['transitions']
        tot.traces += r['traces']
        tot.states |= r['states']
        tot.nontrivial |= r['nontrivial']
        tot.outcomes |= r['outcomes']
        for k, v in r['notes'].items():
            tot.note(k, v)
        for k, m in r['viol']:
            viols.append((case, k, m))
        times.append(dt)
    if warm_err:
        viols.append((cases[0] if cases else {}, 'exception:kernel',
                      'basic modelling call fails\n'+warm_err[-3000:]))
    extra = {}
    if hasattr(mod, 'finish') and not replay:
        extra = mod.finish(tot, viols) or {}

    step = max(1, len(cases)//5)
    samples = cases[::step][:6]

    cov = {
        'evaluations': tot.evaluations,
        'distinct_nontrivial': len(tot.nontrivial),
        'rule': mod.RULE,
        'samples': samples,
        'cases': len(cases),
        'states': len(tot.states),
        'transitions': tot.transitions,
        'traces_validated_against_impl': tot.traces,
        'distinct_outcomes': len(tot.outcomes),
        'exhaustive': True,
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
        'largest_observed': {k: v for k, v in sorted(tot.notes.items())},
        **extra,
    }
    findings = load_findings(pid)
    new, seen = [], {}
    for case, k, m in viols:
        if k in findings:
            seen[k] = seen.get(k, 0)+1
        else:
            new.append((case, k, m))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': cov, 'wall_s': round(time.time()-t0, 2),
        'violations': len(new),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', pid+'.json')
        with open(p+'.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p+'.tmp', p)

    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {k}: {findings[k]}")
    if new:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        keys = set()
        n = 0
        for case, k, m in new:
            if k in keys:
                continue
            keys.add(k)
            n += 1
            if n > 12:
                break
            path = os.path.join(rd, f'{pid}-{n}.json')
            if replay:
                path = replay
            else:
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'tier': tier, 'case': case,
                               'key': k, 'message': m,
                               'replay': f'bash run.sh {pid} {tier} --replay '
                               f'replays/{pid}-{n}.json'}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path} :: {k}: "
                  f"{m.strip().splitlines()[-1][:300]}")
    print(f"{pid} {tier}: cases={len(cases)} evaluations={tot.evaluations} "
          f"states={len(tot.states)} transitions={tot.transitions} "
          f"traces={tot.traces} outcomes={len(tot.outcomes)} "
          f"violations={len(new)} known={len(seen)} "
          f"max_case_s={max(times or [0]):.2f} wall={time.time()-t0:.1f}s "
          f"{ {k: float('%.3g' % v) for k, v in sorted(tot.notes.items())} }")
    sys.stdout.flush()
    return 1 if new else 0
