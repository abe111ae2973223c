"""C14: saved data and inputs are restored exactly.

Exhaustive round trips of the real code through files: all small shapes,
types and memory layouts, all pairs of special values as real and imaginary
part, formats, info strings, writing options, file names, all sequences of two
saves to the same file; all input dictionaries over an alphabet of values.
"""
import itertools
import json
import os
import re
import tempfile
import numpy as np
import empymod
from empymod import filters, utils
from empymod import io as eio

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive execution of save/load histories of the real code '
             'over a finite alphabet of data, formats, options and names; '
             'the saved object is the oracle')
NOTE = ('all shapes up to 3x3x3 (4x4x4), all 169 pairs of 13 special values, '
        '19 info strings, writing options, names, overwriting sequences, '
        'input dictionaries with all pairs of 30 values.')
WARM = ''
JIT = False
RULE = 'one state per (data, format, options) written and read back'
BOUNDS = {'quick': 'shapes to 3, sequences of 2 saves',
          'thorough': 'shapes to 5, sequences of 3 saves'}
VAL = [0., -0., 1.5, -2/3, 1e-300, 5e-324, 1.7976931348623157e308,
       -2.2250738585072014e-308, np.nan, np.inf, -np.inf, 0.1, 123456789.125]
INFO = ['', 'x', 'two\nlines', 'my data: here', '# shape: (9, 9, 9)',
        'dtype: complex128', 'ü€\u2028z', 'a:b:c', ' lead', 'trail ', '{}',
        '%d %s', '"q" \\ \'', '\r', 'a\x0bb\x0cc', '(3)', 'nan', ',', '\t']
EXT = ['json', 'txt']


def same(a, b):
    """Bitwise, up to the payload of NaN."""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'c':
        return same(a.real, b.real) and same(a.imag, b.imag)
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (
        (a == b) & (np.signbit(a) == np.signbit(b)))))


def fill(shape, kind, off=0):
    n = int(np.prod(shape))
    a = np.array([VAL[(i*5+off) % len(VAL)] for i in range(n)])
    if kind == 'complex':
        b = np.array([VAL[(i*3+off+1) % len(VAL)] for i in range(n)])
        c = np.empty(n, complex)
        c.real, c.imag = a, b
        a = c
    return a.reshape(shape)


def trip(R, tag, data, ext, path=None, d=None, rtol=None, **kw):
    before = np.array(data)
    if path is None:
        path = os.path.join(d, 'f.'+ext)
    r = eio.save_data(path, data, **kw)
    R.tr()
    if r is not None:
        R.fail('return', f'{tag}: {r}')
    out = eio.load_data(path)
    R.tr()
    R.ev()
    R.trace()
    R.state(tag)
    want = before
    if ext == 'json':
        want = want.astype(complex if want.dtype.kind == 'c' else float)
    got = np.asarray(out)
    if not isinstance(out, utils.EMArray):
        R.fail('type', f'{tag}: {type(out)}')
    if rtol is None:
        ok = same(got, want)
    else:
        ok = (got.shape == want.shape and got.dtype == want.dtype and
              np.allclose(got, want, rtol=rtol, atol=0, equal_nan=True))
    if not ok:
        R.fail('data', f'{tag}: saved {want.ravel()[:6]} {want.dtype}'
               f'{want.shape}, loaded {got.ravel()[:6]} {got.dtype}'
               f'{got.shape}')
    if not same(np.array(data), before):
        R.fail('input', f'{tag}: saving changed the data')
    R.outcome((got.shape, str(got.dtype), got.tobytes()))
    return path


def meta_of(path):
    if path.endswith('json'):
        with open(path, encoding='utf-8') as f:
            return json.load(f)
    m = {}
    with open(path, encoding='utf-8') as f:
        for line in f:
            x = re.match(r'# (\w+):(.*)', line.rstrip('\n'))
            if x:
                m.setdefault(x.group(1), x.group(2))
    return m


# -------------------------------------------------------------------- inputs
class _F:
    pass


def ivals():
    h = filters.Hankel().key_51_2012
    return [None, True, False, 0, -3, 2.5, 1e-300, np.inf, -np.inf, np.nan,
            'text', 'ü "q" \\ \n{}', [], [1, 2.5], [-np.inf, 0, np.inf],
            (1, 2), np.float64(.1), np.float32(.5), np.int64(7),
            np.bool_(True), np.array(3.), np.array([1., 2/3]),
            np.array([1, 2]), np.array([True, False]),
            np.arange(4.).reshape(2, 2), [np.array([1., 2.]), 3, [4.5]],
            {'dlf': h, 'pts_per_dec': -1}, {'a': {'b': np.array([1.])}},
            {}, {'nodes': np.array([0., 1.]), 'amplitudes': [0, 1]}, h]


def plain(x):
    """What a reader gets: lists for arrays and tuples, names for filters."""
    if isinstance(x, filters.DigitalFilter):
        return x.name
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


KEYS = ['src', 'rec', 'res', 'htarg', 'x y', 'é"\\', '']


def cases(tier):
    q = tier == 'quick'
    m = 3 if q else 5
    out = [{'k': 'shape', 's': list(s)} for s in itertools.product(
        range(1, m+1), repeat=3)]
    out += [{'k': 'values', 'ext': e, 'axis': a} for e in EXT
            for a in range(3)]
    out += [{'k': 'info', 'ext': e} for e in EXT]
    out += [{'k': 'opts'}, {'k': 'names'}, {'k': 'ndim'}, {'k': 'ext'}]
    out += [{'k': 'seq', 'n': 2 if q else 3, 'ext': e} for e in EXT]
    out += [{'k': 'inp', 'i': i} for i in range(len(ivals()))]
    out += [{'k': 'inpcall'}]
    return out


def run_case(c, R):
    with tempfile.TemporaryDirectory(prefix='verif-c14-') as d:
        _run(c, R, d)


def _run(c, R, d):
    k = c['k']
    if k == 'shape':
        s = tuple(c['s'])
        for kind, ext, off in itertools.product(
                ('real', 'complex'), EXT, range(4)):
            a = fill(s, kind, off)
            forms = [('C', a), ('F', np.asfortranarray(a)),
                     ('T', np.ascontiguousarray(a.T).T),
                     ('strided', np.repeat(a, 2, axis=0)[::2]),
                     ('rev', a[::-1, :, ::-1].copy()[::-1, :, ::-1]),
                     ('EM', utils.EMArray(a))]
            for n, x in forms:
                trip(R, f'{s} {kind} {ext} {off} {n}', x, ext, d=d)
    elif k == 'values':
        n = len(VAL)
        re_, im_ = np.meshgrid(VAL, VAL, indexing='ij')
        z = np.empty(n*n, complex)
        z.real, z.imag = re_.ravel(), im_.ravel()
        sh = [1, 1, 1]
        sh[c['axis']] = n*n
        trip(R, f'all pairs {c}', z.reshape(sh), c['ext'], d=d)
        sh[c['axis']] = n
        sh[(c['axis']+1) % 3] = n
        trip(R, f'all pairs 2 {c}', z.reshape(sh), c['ext'], d=d)
        for i, v in enumerate(z):
            trip(R, f'single {c} {i}', np.array(v).reshape(1, 1, 1),
                 c['ext'], d=d)
        for i, v in enumerate(VAL):
            trip(R, f'real {c} {i}', np.array(v).reshape(1, 1, 1), c['ext'],
                 d=d)
        # neighbours of numbers which are hard to print
        x = np.array([1., 0.1, 1e22, 9007199254740993., 2**-1074., 1e23])
        x = np.r_[x, np.nextafter(x, np.inf), np.nextafter(x, -np.inf)]
        trip(R, f'hard {c}', x.reshape(2, 3, 3), c['ext'], d=d)
        trip(R, f'hard c {c}', (x+1j*x[::-1]).reshape(2, 3, 3), c['ext'],
             d=d)
    elif k == 'info':
        for i, info in enumerate(INFO):
            for kind in ('real', 'complex'):
                a = fill((2, 3, 2), kind, i)
                p = trip(R, f'info {info!r} {kind} {c}', a, c['ext'], d=d,
                         info=info)
                m = meta_of(p)
                want = info if c['ext'] == 'json' else ' '.join(
                    info.splitlines())
                got = m['info']
                if c['ext'] == 'txt':
                    got, want = got.strip(), want.strip()
                if got != want:
                    R.fail('info', f'{info!r} stored as {m["info"]!r}')
                if (m['shape'].strip() != str(a.shape) or
                        m['dtype'].strip() != str(a.dtype) or
                        m['version'].strip() !=
                        f'empymod v{utils.__version__}' or 'date' not in m):
                    R.fail('meta', f'{m}')
    elif k == 'opts':
        for kind in ('real', 'complex'):
            a = fill((2, 3, 4), kind, 3)
            for o in ({'indent': None}, {'indent': 0}, {'indent': 7},
                      {'separators': (',', ':')}, {'sort_keys': True},
                      {'ensure_ascii': False}):
                trip(R, f'json {kind} {o}', a, 'json', d=d, info='é', **o)
            fin = np.where(np.isfinite(a) & (np.abs(a) < 1e300) &
                           (np.abs(a) > 1e-290), a, 1.234567890123)
            for p in (3, 6, 12, 17, 20):
                one = f'%.{p}e' if kind == 'real' else f'%.{p}e%+.{p}ej'
                for n, f in (('all', ', '.join([one]*4)), ('one', one)):
                    if kind == 'complex' and n == 'one':
                        f = f'%.{p}e'
                    trip(R, f'txt {kind} {p} {n}', fin, 'txt', d=d, fmt=f,
                         rtol=1.1*10.**-p if p < 16 else 0)
            trip(R, f'footer {kind}', a, 'txt', d=d, footer='the end')
    elif k == 'names':
        cwd = os.getcwd()
        os.chdir(d)
        try:
            os.makedirs('sub.json/x y')
            for ext in EXT:
                for i, n in enumerate([
                        'a.', './b.', 'sub.json/c.', 'sub.json/x y/d.',
                        '../'+os.path.basename(d)+'/e.', d+'/f.', 'é ü.',
                        'two.json.txt.', 'x.json.', 'x.txt.', '.']):
                    trip(R, f'name {n}{ext}', fill((1, 2, 2), 'complex', i),
                         ext, path=n+ext)
                    if not os.path.isfile(os.path.join(d, n+ext)):
                        R.fail('name', f'{n+ext} not there')
                    if ext == 'json':
                        inp = {'a': i}
                        eio.save_input(n+ext, inp)
                        if eio.load_input(n+ext) != inp:
                            R.fail('name', f'{n+ext} input')
        finally:
            os.chdir(cwd)
    elif k == 'ndim':
        for nd in (0, 1, 2, 4):
            for ext in EXT:
                p = os.path.join(d, f'n{nd}.'+ext)
                R.ev()
                R.state(('ndim', nd, ext))
                try:
                    eio.save_data(p, np.ones((2,)*nd))
                    R.fail('ndim', f'{nd} dimensions saved')
                except ValueError:
                    if os.path.exists(p):
                        R.fail('ndim', f'{nd}: file written')
    elif k == 'ext':
        for n in ('a', 'a.npz', 'a.jsonx', 'a.TXTX', 'json', 'a.dat', 'a.'):
            p = os.path.join(d, n)
            for fn in (lambda: eio.save_data(p, np.ones((1, 1, 1))),
                       lambda: eio.load_data(p),
                       lambda: eio.save_input(p, {'a': 1}),
                       lambda: eio.load_input(p)):
                R.ev()
                R.state(('ext', n))
                try:
                    fn()
                    R.fail('ext', f'{n} accepted')
                except ValueError:
                    pass
        if os.listdir(d):
            R.fail('ext', f'files written {os.listdir(d)}')
    elif k == 'seq':
        alpha = [fill((1, 1, 1), 'real', 1), fill((3, 2, 3), 'complex', 2),
                 fill((2, 3, 1), 'real', 3), fill((1, 4, 2), 'complex', 4)]
        infos = ['', 'long info '*20]
        for s in itertools.product(range(8), repeat=c['n']):
            for i in s:
                trip(R, f'seq {s} {c["ext"]}', alpha[i % 4], c['ext'], d=d,
                     info=infos[i//4])
    elif k == 'inp':
        v = ivals()
        for j in range(len(v)):
            for ka, kb in ((0, 1), (5, 6), (3, 4)):
                inp = {KEYS[ka]: v[c['i']], KEYS[kb]: v[j], 'z': 1}
                p = os.path.join(d, 'i.json')
                eio.save_input(p, inp)
                got = eio.load_input(p)
                R.ev()
                R.trace()
                R.tr(2)
                R.state(('inp', c['i'], j, ka))
                if not eq(got, plain(inp)):
                    R.fail('input', f'{inp} loaded as {got}')
                R.outcome(repr(got))
        return
    elif k == 'inpcall':
        inp = dict(src=[0, 0, 10.], rec=[np.array([100., 200.]), [0., 0.],
                                         -5], depth=np.array([-np.inf, 0.,
                                                              np.inf]),
                   res=(2e14, np.float64(1/3)), freqtime=np.array([1., 0.1]),
                   htarg={'dlf': filters.Hankel().key_51_2012}, verb=0,
                   ab=np.int64(13))
        a = empymod.dipole(**inp)
        p = os.path.join(d, 'i.json')
        eio.save_input(p, inp)
        b = empymod.dipole(**eio.load_input(p))
        R.ev(2)
        R.trace()
        R.state('call')
        if not same(np.asarray(a), np.asarray(b)):
            R.fail('call', f'{a} {b}')
