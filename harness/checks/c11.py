"""C11: results do not depend on earlier calls; inputs stay untouched.

Explicit-state exploration of the package as a state machine: the alphabet are
complete calls of all public routines (valid, failing, in user hooks) and
explicit changes of the minimum values; the abstract state is the fingerprint
of everything the package keeps between calls (module globals, filter caches,
default arguments, function attributes).  Every state reached is expanded with
every operation in a process of its own (fork), and

 * the result (values, printed text, error) must equal the one of a fresh
   process in which only the explicit minimum values were set;
 * the arguments of all operations and all earlier results must be unchanged;
 * the minimum values must be those explicitly set.
"""
import hashlib
import inspect
import os
import re
import sys
import types
import numpy as np
import ops
from forkrun import forked

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration (breadth-first, every operation in '
             'every reached state, forked processes) of call histories of the '
             'real package with a fingerprint of its complete persistent '
             'state; fresh-process results as oracle')
NOTE = ('61 operations (all public routines, all transform methods, failing '
        'calls, failing user hooks, minimum values): all histories of length '
        '2, and all histories up to 3 (4) which reach a new state; argument '
        'and result immutability after every call.')
WARM = 'cf'
RULE = ('state = fingerprint of the persistent state of the package x '
        'operation; non-trivial if an operation preceded')
BOUNDS = {'quick': 'all histories of length 2; histories of depth 3 with '
          'minimum values',
          'thorough': 'all histories of length 3 over the cheap operations; '
          'new-state histories to 4'}
CH = sorted(ops.OPS)
MN = sorted(ops.MINS)


# -------------------------------------------------------------- fingerprint
def deep(obj, seen=None, depth=0):
    """Structural hash of data."""
    seen = seen if seen is not None else {}
    if id(obj) in seen or depth > 12:
        return 'cyc'
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes)):
        return repr(obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return 'o' + deep(obj.tolist(), seen, depth+1)
        h = hashlib.md5(np.ascontiguousarray(obj).tobytes()).hexdigest()
        return f'{obj.dtype}{obj.shape}{h}'
    if isinstance(obj, np.generic):
        return repr(obj)
    seen = {**seen, id(obj): 1}
    if isinstance(obj, dict):
        return '{' + ','.join(sorted(
            f'{k!r}:{deep(v, seen, depth+1)}' for k, v in obj.items())) + '}'
    if isinstance(obj, (list, tuple)):
        return type(obj).__name__ + '[' + ','.join(
            deep(x, seen, depth+1) for x in obj) + ']'
    if isinstance(obj, (set, frozenset)):
        return 'S' + ','.join(sorted(deep(x, seen, depth+1) for x in obj))
    if isinstance(obj, types.FunctionType):
        # user functions by name; state in defaults, attributes and cells
        cells = []
        for c in obj.__closure__ or ():
            try:
                cells.append(deep(c.cell_contents, seen, depth+1))
            except ValueError:
                pass
        return (f'f:{obj.__module__}.{obj.__qualname__}' +
                deep((obj.__defaults__, obj.__kwdefaults__), seen, depth+1) +
                deep(obj.__dict__, seen, depth+1) + ''.join(cells))
    if inspect.ismodule(obj):
        return 'm:'+obj.__name__
    if inspect.isclass(obj):
        if not obj.__module__.startswith(('empymod', 'libdlf')):
            return 'c:'+obj.__name__
        return 'c:' + ','.join(
            f'{k}:{deep(v, seen, depth+1)}'
            for k, v in sorted(vars(obj).items())
            if k not in ('__doc__', '__weakref__', '__dict__'))
    mod = type(obj).__module__
    if mod.startswith(('empymod', 'libdlf')) and hasattr(obj, '__dict__'):
        return f'{type(obj).__name__}' + deep(
            {k: v for k, v in object.__getattribute__(
                obj, '__dict__').items()}, seen, depth+1)
    return 't:'+type(obj).__name__


def fingerprint():
    out = []
    for name in sorted(sys.modules):
        if name.split('.')[0] not in ('empymod', 'libdlf'):
            continue
        m = sys.modules[name]
        for k in sorted(vars(m)):
            if k.startswith('__') and k != '__all__':
                continue
            out.append(f'{name}.{k}={deep(vars(m)[k])}')
    out.append(str(sorted(np.geterr().items())))
    out.append(str(sorted(np.get_printoptions().items())))
    out.append(os.getcwd())
    return hashlib.md5('\n'.join(out).encode()).hexdigest()


# -------------------------------------------------------------------- running
def norm(txt):
    """Printed text without run time."""
    return re.sub(r'runtime = [0-9:.]+', 'runtime', txt)


class World:
    """Arguments of all operations and all results of this process."""

    def __init__(self):
        self.args = {n: ops.OPS[n]['make']() for n in CH}
        self.hash = {n: deep(a) for n, a in self.args.items()}
        self.kept = []
        self.mins = dict(ops.DEFAULT_MIN)

    def do(self, name):
        """Perform an operation; returns result and list of problems."""
        bad = []
        if name in ops.MINS:
            a = ops.MINS[name]
            r = ops.utils.set_minimum(**a)
            self.mins.update(a)
            res = ('ok', [], '' if r is None else str(r))
        else:
            res = ops.run(name, self.args[name])
            res = (res[0], res[1], norm(res[2]))
        for n in CH:
            if deep(self.args[n]) != self.hash[n]:
                bad.append(('inputs', f'{name} changed the arguments of {n}'))
                self.hash[n] = deep(self.args[n])
        for n, arr, h in self.kept:
            if deep(arr) != h:
                bad.append(('results', f'{name} changed the result of the '
                            f'earlier {n}'))
        cur = ops.utils.get_minimum()
        if cur != self.mins:
            bad.append(('minimum', f'minimum values after {name}: {cur}, '
                        f'explicitly set {self.mins}'))
        for a in res[1]:
            self.kept.append((name, a, deep(a)))
        # shared memory between results and arguments
        return res, bad


_CANON = {}


def canonical(name, mins):
    key = (name, tuple(sorted(mins.items())))
    if key not in _CANON:
        def fn():
            args = ops.OPS[name]['make']()
            if mins != ops.DEFAULT_MIN:
                ops.utils.set_minimum(**mins)
            r = ops.run(name, args)
            return r[0], [np.asarray(x) for x in r[1]], norm(r[2])
        _CANON[key] = forked(fn)
    return _CANON[key]


def differs(a, b):
    if a[0] != b[0]:
        return f'status {a[0]} instead of {b[0]}'
    if a[2] != b[2]:
        return f'printed {a[2]!r} instead of {b[2]!r}'
    if len(a[1]) != len(b[1]):
        return 'number of results'
    for x, y in zip(a[1], b[1]):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype:
            return f'{x.dtype}{x.shape} instead of {y.dtype}{y.shape}'
        s = np.max(np.abs(y)) if y.size else 0
        ok = (np.abs(x-y) <= 1e-13*s) | (x == y) | ((x != x) & (y != y))
        if not np.all(ok):
            return f'{x.ravel()[:4]} instead of {y.ravel()[:4]}'
    return None


# ---------------------------------------------------------------- exploration
def cases(tier):
    q = tier == 'quick'
    out = [{'first': n, 'tier': tier} for n in CH+MN]
    out += [{'min': n, 'depth': 2 if q else 4} for n in MN]
    if not q:
        out += [{'new': n, 'depth': 3} for n in CH]
    return out


CHEAP = ['dip-f', 'dip-lap', 'dip-low', 'dip-splined', 'dip-lagged',
         'dip-filtobj', 'bip', 'bip-j', 'loop', 'ana-fs', 'gpr', 'dipk',
         'ipq', 'fem', 'tem', 'tmte', 'tools', 'filt', 'hook', 'io', 'cli',
         'bad-ab', 'bad-kw', 'bad-hook', 'bad-htarg', 'bad-res', 'wave',
         'set-freq', 'set-off', 'set-res', 'set-angle', 'set-default']
MINPROBE = ['dip-f', 'dip-low', 'bip', 'ana-fs', 'ft-sin0', 'bad-kw',
            'hook']


def expand(path, second, R):
    """In one child: replay path, fingerprint, then fork each operation."""
    def child():
        w = World()
        res = []
        for n in path:
            r, bad = w.do(n)
            res.append((n, r, bad, dict(w.mins)))
        fp = fingerprint()
        out = []
        for n in second:
            def grand(n=n):
                r, bad = w.do(n)
                return n, r, bad, dict(w.mins), fingerprint()
            out.append(forked(grand))
        return res, fp, out
    return forked(child)


def judge(path, n, r, bad, mins, R):
    R.ev()
    R.tr()
    for key, m in bad:
        R.fail(f'{key} {n}', f'history {path}: {m}')
    if n in ops.MINS:
        if r[2]:
            R.fail('set', f'{n} returned {r}')
        return
    can = canonical(n, mins)
    R.trace()
    d = differs(r, can)
    if d:
        R.fail(f'history {n}', f'{n} after {path} with minimum values {mins} '
               f'differs from the fresh result: {d}')
    R.outcome((n, str([float(np.sum(np.abs(x))) for x in r[1]])))


def run_case(c, R):
    if 'first' in c:
        path = [c['first']]
        res, fp, out = expand(path, CH+MN, R)
        for n, r, bad, mins in res:
            judge([], n, r, bad, mins, R)
        R.state((fp, 'init'))
        for n, r, bad, mins, fp2 in out:
            judge(path, n, r, bad, mins, R)
            R.state((fp, n))
            if n in ops.MINS or n == c['first']:
                continue
        if c['tier'] != 'quick' and c['first'] in CHEAP:
            for n in CHEAP:
                p2 = path+[n]
                _, fp2, out = expand(p2, CHEAP, R)
                for m, r, bad, mins, _ in out:
                    judge(p2, m, r, bad, mins, R)
                    R.state((fp2, m))
        return
    if 'min' in c:
        # histories of minimum-value changes interleaved with calls
        alpha = MN+['dip-f', 'bad-kw', 'bad-hook']
        front = [[c['min']]]
        seen = set()
        for d in range(c['depth']):
            nxt = []
            for path in front:
                res, fp, out = expand(path, MINPROBE, R)
                for i, (n, r, bad, mins) in enumerate(res):
                    judge(path[:i], n, r, bad, mins, R)
                R.state(fp)
                if fp in seen:
                    continue
                seen.add(fp)
                for n, r, bad, mins, _ in out:
                    judge(path, n, r, bad, mins, R)
                    R.state((fp, n))
                nxt += [path+[m] for m in alpha]
            front = nxt
        return
    front = [[c['new']]]
    seen = {forked(fingerprint)}
    for d in range(c['depth']):
        nxt = []
        for path in front:
            _, fp, out = expand(path, CHEAP, R)
            if fp in seen:
                continue
            seen.add(fp)
            for n, r, bad, mins, fp2 in out:
                judge(path, n, r, bad, mins, R)
                R.state((fp, n))
                if fp2 not in seen:
                    nxt.append(path+[n])
        front = nxt


def finish(tot, viols):
    return {'operations': len(CH)+len(MN)}
