"""C19: digital filter catalogue, access, saving and loading.

All filters of the catalogue, all pairs of accesses in a fresh process (cache
histories), and all histories of saving and loading of an alphabet of filters,
names and directory forms, against the raw data of the filter library and the
closed forms of known transform pairs.
"""
import itertools
import os
import pathlib
import shutil
import tempfile
import warnings
import numpy as np
import libdlf
import empymod
from empymod import filters
from forkrun import forked

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the filter catalogue, of all access '
             'pairs in fresh processes and of all save/load histories up to '
             'a depth on the real code, against the filter library files and '
             'closed-form transform pairs')
NOTE = ('25 filters; raw library data and one closed-form pair per '
        'coefficient set; all ordered pairs of filters x forms of access in '
        'fresh processes; save/load of all filters x directory forms; all '
        'histories of 3 (4) saves/loads over an alphabet; all pairs of 24 names '
        'in one directory; special values.')
WARM = ''
RULE = 'one state per (history of accesses or of saves and loads)'
BOUNDS = {'quick': 'histories of 3', 'thorough': 'histories of 4'}

HANKEL = ['anderson_801_1982', 'gupt_61_1997', 'gupt_120_1997',
          'gupt_47_1997', 'gupt_140_1997', 'kong_61_2007b', 'kong_121_2007',
          'kong_241_2007', 'key_101_2009', 'key_201_2009', 'key_401_2009',
          'key_51_2012', 'key_101_2012', 'key_201_2012', 'wer_201_2018',
          'wer_2001_2018']
FOURIER = ['key_81_2009', 'key_241_2009', 'key_601_2009', 'key_101_2012',
           'key_201_2012', 'grayver_50_2021']
OLD = {'kong_61_2007': ('hankel', 'kong_61_2007b')}
for _n in ('kong_241_2007', 'key_101_2009', 'key_201_2009', 'key_401_2009',
           'anderson_801_1982', 'key_51_2012', 'key_101_2012',
           'key_201_2012', 'wer_201_2018'):
    OLD[_n] = ('hankel', _n)
for _a, _b in ((81, 2009), (241, 2009), (601, 2009), (101, 2012),
               (201, 2012)):
    OLD[f'key_{_a}_CosSin_{_b}'] = ('fourier', f'key_{_a}_{_b}')

# Accuracy of the transform of a Gaussian, relative to the maximum.
ACC = {
    ('hankel', 'anderson_801_1982'): dict(j0=6.2e-8, j1=3.1e-7),
    ('hankel', 'gupt_61_1997'): dict(j0=2.9e-6),
    ('hankel', 'gupt_120_1997'): dict(j0=3.4e-7),
    ('hankel', 'gupt_47_1997'): dict(j1=2.9e-5),
    ('hankel', 'gupt_140_1997'): dict(j1=2e-6),
    ('hankel', 'kong_61_2007b'): dict(j0=2.2e-4, j1=1.5e-3),
    ('hankel', 'kong_121_2007'): dict(j0=6.1e-9, j1=7.4e-8),
    ('hankel', 'kong_241_2007'): dict(j0=3e-13, j1=2.5e-14),
    ('hankel', 'key_101_2009'): dict(j0=8.2e-8, j1=1e-9),
    ('hankel', 'key_201_2009'): dict(j0=8.9e-15, j1=1.2e-14),
    ('hankel', 'key_401_2009'): dict(j0=6.5e-15, j1=5.8e-15),
    ('hankel', 'key_51_2012'): dict(j0=8.7e-6, j1=4.1e-5),
    ('hankel', 'key_101_2012'): dict(j0=1.4e-6, j1=1.6e-7),
    ('hankel', 'key_201_2012'): dict(j0=1.9e-11, j1=8.5e-9),
    ('hankel', 'wer_201_2018'): dict(j0=3.9e-15, j1=2.1e-15),
    ('hankel', 'wer_2001_2018'): dict(j0=2.8e-5, j1=6.4e-6),
    ('fourier', 'key_81_2009'): dict(sin=2.2e-6, cos=2.7e-6),
    ('fourier', 'key_241_2009'): dict(sin=9.9e-10, cos=1.2e-10),
    ('fourier', 'key_601_2009'): dict(sin=6.7e-11, cos=3.7e-13),
    ('fourier', 'key_101_2012'): dict(sin=2.8e-6, cos=6.7e-8),
    ('fourier', 'key_201_2012'): dict(sin=7.2e-8, cos=4.2e-10),
    ('fourier', 'grayver_50_2021'): dict(sin=3.8e-4),
}
PAIRS = {
    'j0': (lambda x: x*np.exp(-x**2/4), lambda r: 2*np.exp(-r*r)),
    'j1': (lambda x: x**2*np.exp(-x**2/4), lambda r: 4*r*np.exp(-r*r)),
    'sin': (lambda x: x*np.exp(-x**2/4),
            lambda t: 2*np.sqrt(np.pi)*t*np.exp(-t*t)),
    'cos': (lambda x: np.exp(-x**2/4),
            lambda t: np.sqrt(np.pi)*np.exp(-t*t)),
}
VALS = ('j0', 'j1', 'sin', 'cos')
NAMES = [('hankel', n) for n in HANKEL] + [('fourier', n) for n in FOURIER]


def raw(t, n):
    """Data of a filter, directly from the library files."""
    root = os.path.join(os.path.dirname(libdlf.__file__), 'lib',
                        t.capitalize())
    hits = [f for f in os.listdir(root)
            if f.startswith(f'{t}_{n}_') and f.endswith('.npz')]
    assert len(hits) == 1, (t, n, hits)
    with np.load(os.path.join(root, hits[0])) as z:
        d = z['dlf']
    kinds = hits[0][len(f'{t}_{n}_'):-4]
    vals = [v for v in VALS if v in kinds]
    if t == 'fourier' and vals == ['sin', 'cos'] and (
            kinds.index('cos') < kinds.index('sin')):
        vals = ['cos', 'sin']
    return {'base': d[0], **{v: d[i+1] for i, v in enumerate(vals)}}


def get(t, n, form):
    """One of the forms to access a filter."""
    cls = filters.Hankel if t == 'hankel' else filters.Fourier
    if form == 0:
        return getattr(cls(), n)
    if form == 1:
        obj = cls()
        return [getattr(obj, m) for m in obj.available if m == n][0]
    old = [k for k, v in OLD.items() if v == (t, n)]
    if form == 2 and old:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return getattr(filters, old[0])()
    if form == 3:
        # as the modelling routines access it
        from empymod import utils
        if t == 'hankel':
            try:
                return utils.check_hankel('dlf', {'dlf': n}, 0)[1]['dlf']
            except AttributeError:
                return getattr(cls(), n)
        kind = 'sin'
        return utils.check_time(np.array([1.]), 0, 'dlf', {
            'dlf': n, 'kind': kind, 'pts_per_dec': 0}, 0, True)[3]['dlf']
    return getattr(empymod.filters, t.capitalize())().__getattribute__(n)


def values(f):
    return {k: np.array(getattr(f, k)) for k in ('base', 'factor') + VALS
            if hasattr(f, k)}


def differs(a, b, fac=True):
    """Difference between two sets of values (exact)."""
    ka = set(a) - (set() if fac else {'factor'})
    kb = set(b) - (set() if fac else {'factor'})
    if ka != kb:
        return f'attributes {sorted(ka)} instead of {sorted(kb)}'
    for k in ka:
        if k == 'factor':
            if not np.allclose(a[k], b[k], rtol=1e-14, atol=0):
                return f'factor {a[k]} instead of {b[k]}'
        elif a[k].shape != b[k].shape or not np.array_equal(
                a[k], b[k], equal_nan=True):
            return f'{k} differs'
    return ''


def truth(t, n):
    w = raw(t, n)
    w['factor'] = np.array([w['base'][1]/w['base'][0]])
    return w


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'filter', 't': t, 'n': n} for t, n in NAMES]
    out.append({'k': 'catalogue'})
    out += [{'k': 'pairs', 't': t, 'n': n} for t, n in NAMES]
    out += [{'k': 'saveall', 't': t, 'n': n} for t, n in NAMES]
    out += [{'k': 'hist', 'first': i, 'd': 3 if q else 4}
            for i in range(len(ACTS))]
    out += [{'k': 'names', 'i': i} for i in range(len(NAM))]
    out.append({'k': 'special'})
    out.append({'k': 'missing'})
    return out


def run_case(c, R):
    globals()['_'+c['k']](c, R)


def _catalogue(c, R):
    for cls, names in ((filters.Hankel, HANKEL), (filters.Fourier, FOURIER)):
        R.ev()
        R.tr()
        R.state(cls.__name__)
        o = cls()
        R.outcome(len(o.available))
        for n in names:
            if n not in o.available:
                R.fail('available', f'{n} not listed')
            if n not in dir(o):
                R.fail('available', f'{n} not in dir()')
        for n in o.available:
            if not isinstance(getattr(o, n), filters.DigitalFilter):
                R.fail('available', f'{n} is {getattr(o, n)}')
        for bad in ('nope', 'key_201', 'Key_201_2009'):
            try:
                getattr(o, bad)
                R.fail('unknown', f'{bad} is available')
            except AttributeError:
                pass
        other = [n for n in HANKEL+FOURIER if n not in names]
        for n in other:
            if n in o.available and n not in names and (
                    n not in getattr(libdlf, o._ftype).__all__):
                R.fail('available', f'{n} listed in {cls.__name__}')


def _filter(c, R):
    t, n = c['t'], c['n']
    w = truth(t, n)
    for form in range(4):
        f = get(t, n, form)
        R.ev()
        R.tr()
        R.trace()
        R.state((t, n, form))
        v = values(f)
        d = differs(v, w)
        R.outcome((t, n, d))
        if d:
            R.fail('data', f'{t} {n} form {form}: {d}')
            continue
        if f.name != n:
            R.fail('name', f'{t} {n}: {f.name}')
        if not (np.all(np.isfinite(f.base)) and np.all(f.base > 0) and
                np.all(np.diff(f.base) > 0)):
            R.fail('base', f'{t} {n}: abscissae not increasing')
        dev = np.max(np.abs(np.diff(np.log(f.base))/np.log(f.factor)-1))
        if dev > 1e-10:
            R.fail('factor', f'{t} {n}: factor {f.factor}, deviation {dev}')
        if np.shape(f.factor) != (1,):
            R.fail('factor', f'{t} {n}: shape {np.shape(f.factor)}')
        # Known transform pair.
        r = np.logspace(-1, 1.5, 26)
        for k, acc in ACC[t, n].items():
            kern, exact = PAIRS[k]
            if not hasattr(f, k) or getattr(f, k).shape != f.base.shape:
                R.fail('weights', f'{t} {n}: {k}')
                continue
            got = kern(f.base[None, :]/r[:, None]) @ getattr(f, k)/r
            want = exact(r)
            err = np.max(np.abs(got-want))/np.max(np.abs(want))
            R.ev()
            R.state((t, n, form, k))
            if not err < 2*acc+2e-14:
                R.fail('accuracy', f'{t} {n} {k}: error {err}, not {acc}')


def _pairs(c, R):
    """Access to a second filter after the first, in a fresh process."""
    t, n = c['t'], c['n']
    for i, (t2, n2) in enumerate(NAMES):
        fa, fb = i % 4, (i//4) % 4

        def go():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                a = get(t, n, fa)
                b = get(t2, n2, fb)
                a2 = get(t, n, fb)
                return values(a), values(b), values(a2), a.name, b.name
        a, b, a2, na, nb = forked(go)
        R.ev(3)
        R.tr(3)
        R.trace()
        R.state((t, n, t2, n2))
        for v, (x, y) in ((a, (t, n)), (b, (t2, n2)), (a2, (t, n))):
            d = differs(v, truth(x, y))
            R.outcome((x, y, d))
            if d:
                R.fail('history', f'{t} {n} then {t2} {n2}: {x} {y}: {d}')
        if (na, nb) != (n, n2):
            R.fail('history', f'{t} {n} then {t2} {n2}: names {na}, {nb}')


class Dir:
    """Scratch directory as current directory."""

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='c19_')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def _saveall(c, R):
    t, n = c['t'], c['n']
    f = get(t, n, 0)
    w = values(f)
    forms = [('default', None), ('relative', 'x'), ('nested', 'a/b/c'),
             ('slash', 'y/'), ('here', '.'), ('absolute', 'ABS'),
             ('Path', 'PATH'), ('up', 'z/../u'), ('space', 'with space')]
    for tag, p in forms:
        with Dir() as d:
            p2 = (os.path.join(d, 'abs', 'q') if p == 'ABS' else
                  pathlib.Path(d)/'pp' if p == 'PATH' else p)
            a = () if p is None else (p2,)
            f.tofile(*a)
            files = sorted(os.path.join(x, y)[len(d)+1:]
                           for x, _, ys in os.walk(d) for y in ys)
            g = filters.DigitalFilter(n)
            g.fromfile(*a)
            R.ev(2)
            R.tr(2)
            R.trace()
            R.state((t, n, tag))
            R.outcome(len(files))
            root = {'default': 'filters', 'absolute': 'abs/q', 'Path': 'pp',
                    'here': '', 'up': 'u', 'slash': 'y'}.get(tag, p)
            exp = sorted(os.path.join(root, f'{n}_{k}.txt')
                         for k in w if k != 'factor')
            if files != exp:
                R.fail('files', f'{n} {tag}: {files} instead of {exp}')
            dd = differs(values(g), w)
            if dd:
                R.fail('round trip', f'{t} {n} {tag}: {dd}')
            dd = differs(values(f), w)
            if dd:
                R.fail('saved changed', f'{t} {n} {tag}: {dd}')
            # Plain text, one number per line.
            for k in w:
                if k != 'factor' and files == exp:
                    x = np.loadtxt(os.path.join(root or '.',
                                                f'{n}_{k}.txt'))
                    if not np.array_equal(x, w[k]):
                        R.fail('text', f'{t} {n} {k}: file content differs')


def _make(i):
    """Filters of the alphabet."""
    f = filters.DigitalFilter(f'f{i}', [None, 'sname', 'f0', None][i],
                              [None, None, None, ['xx']][i])
    f.base = [np.array([1., 2., 4., 8.]), np.array([1e-300, 3e-300]),
              np.array([.1, .1*np.exp(.1)]), np.array([1., 1.5, 2.25])][i]
    f.factor = np.around([f.base[1]/f.base[0]], 15)
    m = f.base.size
    v = np.array([1/3, -np.pi*1e30, 5e-324, 0.])[:m]
    if i in (0, 1, 2):
        f.j0 = v
    if i in (0, 2):
        f.j1 = v[::-1].copy()
    if i in (1, 3):
        f.sin = v*3
    if i == 3:
        f.cos = v-1
        f.xx = v*7
    return f


SAVED = {0: 'f0', 1: 'sname', 2: 'f0', 3: 'f3'}
ACTS = [(op, i, p) for op in ('save', 'load') for i in range(4)
        for p in ('p', 'q')]


def _hist(c, R):
    """All histories: a load gives exactly what was last saved."""
    for h in itertools.product(ACTS, repeat=c['d']-1):
        hist = [ACTS[c['first']]] + list(h)
        with Dir():
            disk = {}
            for op, i, p in hist:
                R.tr()
                f = _make(i)
                key = (p, SAVED[i])
                if op == 'save':
                    f.tofile(p)
                    disk[key] = {**values(f)}
                    if i == 3:
                        disk[key]['xx'] = f.xx
                    continue
                g = filters.DigitalFilter(
                    f.name, f.savename, ['xx'] if i == 3 else None)
                try:
                    g.fromfile(p)
                    got = values(g)
                    if hasattr(g, 'xx'):
                        got['xx'] = g.xx
                except FileNotFoundError:
                    got = None
                want = disk.get(key)
                R.outcome((got is None, want is None))
                if got is None or want is None:
                    if (got is None) != (want is None):
                        R.fail('history', f'{hist}: load of {key}: {got}')
                    continue
                dd = differs({k: v for k, v in got.items() if k != 'xx'},
                             {k: v for k, v in want.items() if k != 'xx'})
                if not dd and ('xx' in got) != ('xx' in want):
                    dd = 'additional coefficients'
                if not dd and 'xx' in got and not np.array_equal(
                        got['xx'], want['xx']):
                    dd = 'xx differs'
                if dd:
                    R.fail('history', f'{hist}: load of {key}: {dd}')
        R.ev()
        R.trace()
        R.state(tuple(hist))


NAM = ['f', 'f1', 'f1.0', 'f1.5', 'f1.5.txt', '.f', 'f.', 'f_base', 'f_j0',
       'F1', 'a b', 'a-b+c', 'f1,0', '\u03bb', 'base', 'j0', 'f' * 100, '0',
       'f1.5_j0', 'key_201_2009', 'f%d', 'f{}', '~f', '#f']


def _names(c, R):
    """Filters of different names in one directory do not interfere."""
    a = NAM[c['i']]

    def make(name, sv, i):
        f = filters.DigitalFilter(name, sv)
        f.base = np.array([1., 2., 4.])*(i+1)
        f.factor = np.around([f.base[1]/f.base[0]], 15)
        f.j0 = np.array([.5, -1/3, 7.])+i
        if i:
            f.sin = f.j0*3
        return f
    for b in NAM:
        if a == b:
            continue
        for form, order in itertools.product(range(3), (0, 1)):
            # by name, by savename, mixed
            args = [(a, None), (b, None)]
            if form:
                args = [('same' if form == 1 else b, a), (
                    'same' if form == 1 else a, b)]
            fs = [make(*x, i) for i, x in enumerate(args)]
            with Dir() as d:
                for f in fs[::-1] if order else fs:
                    f.tofile('p')
                files = sorted(os.listdir(os.path.join(d, 'p')))
                exp = sorted([f'{a}_base.txt', f'{a}_j0.txt', f'{b}_base.txt',
                              f'{b}_j0.txt', f'{b}_sin.txt'])
                if files != exp:
                    R.fail('names', f'{a!r} {b!r}: files {files}')
                for f, x in zip(fs, args):
                    g = filters.DigitalFilter(*x)
                    g.fromfile('p')
                    dd = differs(values(g), values(f))
                    if dd:
                        R.fail('names', f'{a!r} and {b!r}: load of {x}: {dd}')
            R.ev(4)
            R.tr(4)
            R.trace()
            R.state((a, b, form, order))
            R.outcome(len(files))


def _special(c, R):
    """Values of all magnitudes survive bit by bit."""
    x = [0., -0., 1., -1., 1/3, np.pi, 1e-320, 5e-324, 2.**-1022,
         1.7976931348623157e308, -1e300, 1e16, 1e17+16, 123456789.123456789,
         .1, 2/3*1e-5, np.nextafter(1, 2), np.nextafter(1, 0)]
    for n in (2, 3, len(x)):
        for s in range(len(x)):
            v = np.roll(np.array(x), s)[:n]
            for lay in ('plain', 'strided', 'view', 'ro'):
                f = filters.DigitalFilter('s')
                f.base = np.logspace(-3, 3, n)
                f.factor = np.around([f.base[1]/f.base[0]], 15)
                w = v.copy()
                if lay == 'strided':
                    w = np.repeat(v, 2)[::2]
                elif lay == 'view':
                    w = np.stack([v, v+1])[0]
                elif lay == 'ro':
                    w.setflags(write=False)
                f.j0 = w
                f.cos = w[::-1]
                with Dir():
                    f.tofile('d')
                    g = filters.DigitalFilter('s')
                    g.fromfile('d')
                R.ev()
                R.tr()
                R.trace()
                R.state((n, s, lay))
                R.outcome(s)
                for k in ('base', 'j0', 'cos'):
                    if getattr(g, k).tobytes() != np.ascontiguousarray(
                            getattr(f, k)).tobytes():
                        R.fail('special', f'{k}: {getattr(g, k)} instead of '
                               f'{getattr(f, k)}')


def _missing(c, R):
    """A missing filter is reported; missing coefficients are absent."""
    with Dir() as d:
        g = filters.DigitalFilter('none')
        for p in ('filters', '.', 'x/y'):
            R.ev()
            R.tr()
            R.state(p)
            try:
                g.fromfile(p)
                R.fail('missing', f'{p}: loaded')
            except FileNotFoundError as e:
                R.outcome(type(e).__name__)
        if os.listdir(d):
            R.fail('missing', f'loading created {os.listdir(d)}')
        f = _make(0)
        f.tofile('.')
        for s in range(16):
            pres = [k for i, k in enumerate(VALS) if s >> i & 1]
            for k in VALS:
                fn = f'f0_{k}.txt'
                if os.path.isfile(fn):
                    os.remove(fn)
                if k in pres:
                    np.arange(4.).tofile(fn, sep='\n')
            g = filters.DigitalFilter('f0')
            g.fromfile('.')
            R.ev()
            R.state(s)
            have = [k for k in VALS if hasattr(g, k)]
            if have != pres:
                R.fail('coefficients', f'{have} instead of {pres}')
