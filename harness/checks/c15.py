"""C15: truncated files and failing writes never yield wrong data.

Fault enumeration on the real code: every byte prefix of every written file
(and the same with a tail of zeros) is loaded; every possible position of a
full disk (file size limit, a real fault of the operating system) is tried
while saving, over no file and over an existing one; every Python-level read
and open is made to fail in turn.
"""
import builtins
import io
import itertools
import os
import resource
import signal
import tempfile
import numpy as np
from empymod import io as eio
from forkrun import forked

LEVEL = 'fault_enumeration'
TECHNIQUE = ('exhaustive crash-point and fault enumeration on the real code: '
             'every prefix of every file, every position of a full disk, '
             'every failing read; oracle: error or the complete content')
NOTE = ('data files (text, JSON; real, complex; several shapes, options and '
        'special values) and input files, each at every byte.')
WARM = ''
JIT = False
RULE = 'one state per (file, cut position or failing operation)'
BOUNDS = {'quick': '28 files, every byte; full disk at every byte of 8 '
          'saves', 'thorough': '60 files, every byte; full disk at every byte '
          'of 24 saves'}


def datasets(tier):
    q = tier == 'quick'
    out = []
    shapes = [(1, 1, 1), (2, 2, 1), (1, 2, 3)] + ([] if q else [
        (3, 1, 2), (2, 3, 2), (1, 1, 5)])
    for i, s in enumerate(shapes):
        for kind in ('real', 'complex'):
            out.append(['txt', s, kind, {}, i])
            out.append(['json', s, kind, {}, i])
    out += [['txt', (2, 2, 2), 'real', {'fmt': '%.3f, %.3f'}, 0],
            ['txt', (1, 2, 1), 'real', {'fmt': '%d'}, 3],
            ['txt', (2, 1, 1), 'complex', {'fmt': '%.2f%+.2fj'}, 0],
            ['txt', (2, 1, 1), 'real', {'info': 'my (data) é: 1, 2'}, 1],
            ['json', (2, 1, 2), 'real', {'info': '}] "data": [[[1]]]'}, 1],
            ['json', (2, 1, 2), 'complex', {'indent': None}, 1],
            ['txt', (1, 1, 1), 'real', {}, 4],
            ['txt', (1, 1, 2), 'complex', {}, 4]]
    out += [['input', i, None, {}, 0] for i in range(4)]
    return out


VALS = [[1.25, -37.5, 1e-13, 12345.678, -2/3, 9.87e21],
        [np.inf, 1., -0.5, np.nan, 2e-5, 3.],
        [10., 200., 3000., 4e44, 5e-55, 66.],
        [123., 456., 789., 12., 34., 56.],
        [np.nan, np.nan, -np.inf, np.nan, np.inf, np.nan]]
INPUTS = [{'src': [0, 0, 10.5], 'rec': [[1, 2], 0, 300], 'res': 123.25,
           'verb': 0}, {'a': 12345}, {'a': [1, 2, 3.75e10], 'b': None},
          {'htarg': {'dlf': 'key_51_2012', 'pts_per_dec': 100},
           'text': 'x}\n "z": 3}'}]


def dataset(ds):
    ext, shape, kind, kw, i = ds
    if ext == 'input':
        return INPUTS[shape], '.json'
    n = int(np.prod(shape))
    v = np.array([VALS[i % 5][k % 6] for k in range(n)])
    if kind == 'complex':
        w = np.array([VALS[i % 5][(2*k+1) % 6] for k in range(n)])
        z = np.empty(n, complex)
        z.real, z.imag = v, w
        v = z
    return v.reshape(shape), '.'+ext


def save(ds, path):
    obj, _ = dataset(ds)
    if ds[0] == 'input':
        eio.save_input(path, obj)
    else:
        eio.save_data(path, obj, **ds[3])


def load(ds, path):
    if ds[0] == 'input':
        return eio.load_input(path)
    x = np.asarray(eio.load_data(path))
    return (x.shape, str(x.dtype), x.tolist())


def same(a, b):
    return repr(a) == repr(b)


def attempt(fn):
    try:
        return 'ok', fn()
    except Exception as e:
        return 'error', type(e).__name__


def cases(tier):
    ds = datasets(tier)
    out = [{'k': 'cut', 'ds': d} for d in ds]
    small = [d for d in ds if d[0] == 'input' or np.prod(d[1]) <= 2]
    nf = 8 if tier == 'quick' else 24
    sel = [small[i] for i in np.unique(np.linspace(
        0, len(small)-1, nf).astype(int))]
    for d in sel:
        for part in range(4):
            out.append({'k': 'full', 'ds': d, 'part': part})
    out += [{'k': 'fault', 'ds': d} for d in ds]
    out += [{'k': 'missing'}]
    return out


class Failing:
    """File which fails at its n-th operation (counting all of them)."""
    ops = 0
    at = None

    def __init__(self, f):
        self._f = f

    @classmethod
    def hit(cls):
        cls.ops += 1
        if cls.at is not None and cls.ops == cls.at:
            raise OSError(5, 'injected')

    def __getattr__(self, name):
        v = getattr(self._f, name)
        if name in ('read', 'readline', 'readlines', 'write', 'writelines',
                    'flush', 'readinto', 'seek', 'truncate'):
            def go(*a, **k):
                Failing.hit()
                return v(*a, **k)
            return go
        if name == 'close':
            def close():
                v()
                Failing.hit()
            return close
        return v

    def __iter__(self):
        return self

    def __next__(self):
        Failing.hit()
        return next(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()
        Failing.hit()
        return None


def run_case(c, R):
    with tempfile.TemporaryDirectory(prefix='verif-c15-') as d:
        _run(c, R, d)


def _run(c, R, d):
    if c['k'] == 'missing':
        for ext in ('json', 'txt'):
            for fn in (eio.load_data, eio.load_input):
                for p in ('no.'+ext, 'nodir/no.'+ext):
                    R.ev()
                    R.state((ext, p))
                    if attempt(lambda: fn(os.path.join(d, p)))[0] == 'ok':
                        R.fail('missing', f'{p} loaded')
            os.makedirs(os.path.join(d, 'dir.'+ext))
            if attempt(lambda: eio.save_data(os.path.join(d, 'dir.'+ext),
                                             np.ones((1, 1, 1))))[0] == 'ok':
                R.fail('dir', f'{ext} saved into a directory')
            if attempt(lambda: eio.save_data(os.path.join(d, 'nn/a.'+ext),
                                             np.ones((1, 1, 1))))[0] == 'ok':
                R.fail('dir', f'{ext} saved into a missing directory')
        return
    ds = c['ds']
    _, ext = dataset(ds)
    p = os.path.join(d, 'full'+ext)
    save(ds, p)
    with open(p, 'rb') as f:
        full = f.read()
    want = load(ds, p)
    tag = str(ds)

    def judge(what, path):
        st, got = attempt(lambda: load(ds, path))
        R.ev()
        R.trace()
        R.state((tag, what), True)
        R.outcome((st, str(got)[:200]))
        if st == 'ok' and not same(got, want):
            R.fail('wrong data', f'{tag}, {what}: loaded {str(got)[:300]} '
                   f'instead of {str(want)[:300]}')
        return st

    if c['k'] == 'cut':
        q = os.path.join(d, 'cut'+ext)
        n = len(full)
        for i in range(n):
            for tail in ('', 'zeros', 'block'):
                if tail == 'block' and i % 8:
                    continue
                b = full[:i]
                if tail == 'zeros':
                    b += b'\0'*(n-i)
                elif tail == 'block':        # a lost block in the middle
                    b += b'\0'*min(8, n-i) + full[i+8:]
                with open(q, 'wb') as f:
                    f.write(b)
                if tail == 'block' and b'\0' not in b[-n:]:
                    continue
                if tail == 'block' and not _block(ds, full, i):
                    continue
                judge(f'byte {i} {tail}', q)
                R.tr()
        return
    if c['k'] == 'full':
        n = len(full)
        for old in (False, True):
            for i in range(c['part'], n+1, 4):
                q = os.path.join(d, f'lim{i}{old}'+ext)
                if old:
                    # an older, longer file with other numbers
                    with open(q, 'wb') as f:
                        f.write(full.replace(b'1', b'7').replace(b'2', b'9')
                                + full)

                def child():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (i, i))
                    return attempt(lambda: save(ds, q))
                st, err = forked(child)
                R.ev()
                R.tr()
                R.state((tag, 'limit', i, old))
                with open(q, 'rb') as f:
                    size = len(f.read())
                # the date in the header may change the content, not its size
                if st == 'ok' and (size < n or i < n):
                    R.fail('silent', f'{tag}: limit {i} of {n}: saved '
                           'without an error')
                if st != 'ok' and i >= n:
                    R.fail('harness', f'{tag}: {err} with enough space')
                if not old or st == 'ok':
                    judge(f'limit {i} {old}', q)
                elif size < n or i < n:
                    # old content must not be taken for the new one; the
                    # untouched old file is fine
                    s2, got = attempt(lambda: load(ds, q))
                    if s2 == 'ok' and not same(got, want):
                        with open(q, 'rb') as f:
                            mixed = f.read()
                        if mixed != (full.replace(b'1', b'7').replace(
                                b'2', b'9') + full):
                            R.fail('mixed', f'{tag}: limit {i}: {got}')
                os.remove(q)
        return
    # failing operations at the Python level
    orig = builtins.open
    for what in ('load', 'save'):
        q = os.path.join(d, 'flt'+ext)
        for at in itertools.count(1):
            if what == 'load':
                with orig(q, 'wb') as f:
                    f.write(full)
            elif os.path.exists(q):
                os.remove(q)
            Failing.ops, Failing.at = 0, at

            def opener(file, *a, **k):
                fh = orig(file, *a, **k)
                if str(file).startswith(d):
                    try:
                        Failing.hit()
                    except OSError:
                        fh.close()
                        raise
                    return Failing(fh)
                return fh
            builtins.open = opener
            try:
                if what == 'load':
                    st, got = attempt(lambda: load(ds, q))
                else:
                    st, got = attempt(lambda: save(ds, q))
            finally:
                builtins.open = orig
            hit = Failing.ops >= at
            R.ev()
            R.tr()
            R.state((tag, what, at))
            if what == 'load' and st == 'ok' and not same(got, want):
                R.fail('wrong data', f'{tag}: failing operation {at}: {got}')
            if what == 'save' and hit and st == 'ok':
                R.fail('silent', f'{tag}: failing operation {at} of saving '
                       'passes without an error')
            if not hit:
                break
        R.note('operations', at-1)


def _block(ds, full, i):
    """Lost blocks are judged only within the numbers (not in comments)."""
    a = full.find(b'"data"') if ds[0] == 'json' else full.find(b'# data\n')
    return ds[0] == 'input' or i > a + 8
