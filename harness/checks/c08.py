"""C08: all Hankel transform methods, filters and settings agree.

State: (method, setting, model, positions, arrangement of receivers, component
pair, domain).  The oracle is the independent transmission-line solution: with
the same filter weights for the standard digital filter (exact), with a
high-accuracy filter and the accuracy of the method otherwise.
"""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, ABS, cmp

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of transform configurations, component '
             'pairs, layer pairs and receiver arrangements on the real code; '
             'independent solver as oracle')
NOTE = ('Every tabulated filter (standard, lagged, splined), QWE (direct and '
        'splined, loose and tight), QUAD; all 36 component pairs; single '
        'offset, receivers in one line, in different directions and several '
        'sources; loop options; that options are used is shown by the '
        'dependence of the result on each of them.')
WARM = 'cf'
RULE = ('state = (method, setting, model, positions, arrangement, component '
        'pair, domain); non-trivial if the field is not zero')
BOUNDS = {'quick': '2 models, 3 position pairs, 4 arrangements, 37 settings',
          'thorough': '4 models, 10 position pairs, 6 arrangements, 80 '
                      'settings'}
BEST = ref.load_filter('wer_201_2018')
POS = {(2, 0, 1): [(50., 200.), (50., 600.), (350., 60.), (-40., 160.),
                   (300., -50.), (600., 750.)],
       (1, 3): [(-30., 90.), (220., 90.), (-200., -40.), (220., 330.)],
       (5, 0, 5): [(50., 200.), (60., 500.)],
       (3,): [(50., 200.)]}
ARR = {'one': ([0.], [0.], [800.], [0.]),
       'dir': ([0.], [0.], [800., 300., -420.], [0., 500., -250.]),
       'line': ([0.], [0.], [400., 800., 1500., 2500.], [300., 600., 1125.,
                                                         1875.]),
       'src': ([0., 100., -50.], [0., -70., 30.], [700., -150.], [90., 650.]),
       'near': ([0.], [0.], [800., 801., 802.], [10., 10., 10.]),
       'same': ([5.], [5.], [305., 5., -295.], [5., 305., 5.])}
# accuracy of the standard filters (relative to the largest of the receivers)
ACC = {'anderson_801_1982': 1e-5, 'kong_61_2007b': .1, 'kong_121_2007': .5,
       'kong_241_2007': 1e-6, 'key_101_2009': 1e-6, 'key_201_2009': 1e-6,
       'key_401_2009': 1e-6, 'key_51_2012': .15, 'key_101_2012': 1e-5,
       'key_201_2012': 1e-6, 'wer_201_2018': 1e-6, 'wer_2001_2018': .15}


def available():
    h = empymod.filters.Hankel()
    out = []
    for n in h.available:
        f = getattr(h, n)
        if hasattr(f, 'j0') and hasattr(f, 'j1'):
            out.append(n)
    return out


def settings(q):
    out = []
    for n in available():
        out.append(('dlf', {'dlf': n}, ACC.get(n, .15)))
        out.append(('dlf', {'dlf': n, 'pts_per_dec': 100},
                    max(2*ACC.get(n, .15), 1e-4)))
    for n in ('key_201_2009', 'anderson_801_1982', 'key_401_2009'):
        out.append(('dlf', {'dlf': n, 'pts_per_dec': -1}, 5e-3))
        out.append(('dlf', {'dlf': n, 'pts_per_dec': 40}, 1e-3))
    out += [
        ('dlf', {}, 1e-6),
        ('qwe', {'rtol': 1e-8, 'nquad': 31, 'maxint': 60}, 1e-5),
        ('qwe', {'rtol': 1e-3}, .5),
        ('qwe', {'rtol': .03}, 1.), ('qwe', {'rtol': .1}, 1.),
        ('qwe', {'rtol': 1e-7, 'pts_per_dec': 80, 'maxint': 80}, 5e-3),
        ('qwe', {'rtol': 1e-6, 'pts_per_dec': 60, 'diff_quad': 1e-3,
                 'limit': 200}, 1e-1),
        ('quad', {'a': 1e-7, 'b': .3, 'pts_per_dec': 60, 'rtol': 1e-6,
                  'limit': 500}, 1e-3)]
    if not q:
        for n in available():
            for p in (-1, 20, 250):
                a = {-1: 2e-2, 20: 5e-2, 250: 1e-4}[p]
                out.append(('dlf', {'dlf': n, 'pts_per_dec': p},
                            max(a, 2*ACC.get(n, .15))))
        out += [('qwe', {}, 1e-5), ('qwe', {'rtol': 1e-5}, 1e-2),
                ('qwe', {'pts_per_dec': 120}, 1e-3),
                ('quad', {'a': 1e-7, 'b': .3, 'pts_per_dec': 120}, 1e-3),
                ('quad', {'a': 1e-7, 'b': .3, 'pts_per_dec': 120,
                          'rtol': 1e-4}, 1e-2)]
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for ht, arg, acc in settings(q):
        slow = ht != 'dlf'
        for m in [(2, 0, 1), (1, 3)] if q or slow else POS:
            # quadratures: positions whose kernels decay within the limits
            pos = POS[m][:2 if slow else 3 if q else None]
            for i in range(len(pos)):
                for dom in 'fs':
                    if q and slow and (dom == 's') != (i == 1):
                        continue
                    out.append({'ht': ht, 'arg': arg, 'acc': acc, 'm': m,
                                'p': pos[i], 'dom': dom,
                                'arr': ['one', 'dir', 'line', 'src'] if q
                                and not slow else ['dir', 'src'] if q
                                else ['one', 'dir', 'line', 'src'] if slow
                                else list(ARR)})
    for k in USED:
        out.append({'used': k})
    for n in available():
        out.append({'string': n})
    return out


# Changing an option has to change the result (if it is used).
USED = {
    'dlf:dlf': ('dlf', {'dlf': 'key_201_2009'}, {'dlf': 'kong_61_2007b'}),
    'dlf:pts': ('dlf', {'pts_per_dec': 20}, {'pts_per_dec': 21}),
    'dlf:lag': ('dlf', {'pts_per_dec': 0}, {'pts_per_dec': -1}),
    'qwe:rtol': ('qwe', {'rtol': 1e-3}, {'rtol': 1e-9}),
    'qwe:atol': ('qwe', {'rtol': 1e-12, 'atol': 1e-30},
                 {'rtol': 1e-12, 'atol': 1e-14}),
    'qwe:nquad': ('qwe', {'nquad': 11}, {'nquad': 21}),
    'qwe:maxint': ('qwe', {'rtol': 1e-16, 'maxint': 8},
                   {'rtol': 1e-16, 'maxint': 14}),
    'qwe:pts': ('qwe', {'pts_per_dec': 20}, {'pts_per_dec': 21}),
    'qwe:diff': ('qwe', {'pts_per_dec': 20, 'diff_quad': 1e-5},
                 {'pts_per_dec': 20, 'diff_quad': 1e9}),
    'qwe:a': ('qwe', {'pts_per_dec': 20, 'diff_quad': 1e-5, 'a': 1e-5},
              {'pts_per_dec': 20, 'diff_quad': 1e-5, 'a': 1e-3}),
    'qwe:b': ('qwe', {'pts_per_dec': 20, 'diff_quad': 1e-5, 'b': 1e-2},
              {'pts_per_dec': 20, 'diff_quad': 1e-5, 'b': 5e-3}),
    'qwe:limit': ('qwe', {'pts_per_dec': 20, 'diff_quad': 1e-5, 'limit': 2},
                  {'pts_per_dec': 20, 'diff_quad': 1e-5, 'limit': 200}),
    'quad:rtol': ('quad', {'rtol': 1e-1, 'atol': 1e-30},
                  {'rtol': 1e-10, 'atol': 1e-30}),
    'quad:atol': ('quad', {'rtol': 1e-8, 'atol': 1e-30},
                  {'rtol': 1e-8, 'atol': 1e-9}),
    'quad:limit': ('quad', {'limit': 2}, {'limit': 200}),
    'quad:a': ('quad', {'a': 1e-6}, {'a': 1e-3}),
    'quad:b': ('quad', {'b': 1e-1}, {'b': 1e-2}),
    'quad:pts': ('quad', {'pts_per_dec': 20}, {'pts_per_dec': 21}),
}


def run_case(c, R):
    if 'used' in c:
        return used(c, R)
    if 'string' in c:
        return string(c, R)
    M = Model(c['m'])
    ht, arg = c['ht'], c['arg']
    # two frequencies; not far below the skin depth
    freq = [.7, 2.] if c['dom'] == 'f' else [-.7, -2.]
    za, zb = c['p']
    std = ht == 'dlf' and arg.get('pts_per_dec', 0) == 0
    same = ref.load_filter(arg.get('dlf', 'key_201_2009')) if std else None
    for arr in c['arr']:
        sx, sy, rx, ry = ARR[arr]
        a, b = [sx, sy, za], [rx, ry, zb]
        ns, nr = len(sx), len(rx)
        tabs = {}
        for s, r in itertools.product(range(ns), range(nr)):
            src, rec = [sx[s], sy[s], za], [rx[r], ry[r], zb]
            tabs[s, r] = M.scale_table(src, rec, freq, BEST)
            if std:
                tabs['std', s, r] = M.scale_table(src, rec, freq, same)
        loops = (None, 'freq', 'off') if std and arr == 'dir' else (None,)
        for ab, lp in itertools.product(ABS, loops):
            v = empymod.dipole(a, b, freqtime=freq, ab=ab, verb=0, ht=ht,
                               htarg=dict(arg), squeeze=False, loop=lp,
                               **M.kw)
            msg = f'{ht} {arg} {c["m"]} {c["p"]} {arr} ab={ab} loop={lp}'
            key = f'{ht} {sorted(arg)} ab{ab}'
            want = np.zeros((2, nr, ns), dtype=np.asarray(v).dtype)
            xs = np.zeros((2, nr, ns), dtype=want.dtype)
            xc = np.zeros((2, nr, ns))
            for s, r in itertools.product(range(ns), range(nr)):
                want[:, r, s] = tabs[s, r][ab][0]
                if std:
                    xs[:, r, s], xc[:, r, s] = tabs['std', s, r][ab]
            if std:
                cmp(R, 'exact '+key, msg, v, xs, xc, name='exact')
            # symmetric zeros: relative to horizontal field of the pair
            sc = np.max(np.abs(want), axis=(1, 2), keepdims=True)
            dtab = _amp(c['m'], c['p'], freq, ab)
            cmp(R, 'agree '+key, msg, v, want,
                np.maximum(sc, dtab[:, None, None]), rtol=0, stol=c['acc'],
                name='agree '+ht)
            if np.any((v == 0) & (np.abs(want) > 1e-2*sc)):
                R.fail('zero '+key, msg+': zero instead of the field')
            R.ev()
            R.tr()
            R.trace()
            R.state((ht, str(arg), c['m'], c['p'], arr, ab, c['dom'], lp),
                    np.any(np.abs(want) > 0))
            R.outcome(complex(v[0, 0, 0]))


_A = {}


def _amp(m, p, freq, ab):
    """Largest field of the rotated pair at the middle offset (for zeros)."""
    k = (m if isinstance(m, tuple) else tuple(m), tuple(p), tuple(freq))
    if k not in _A:
        M = Model(m)
        t = [M.scale_table([0, 0, p[0]], [x, y, p[1]], freq, BEST)
             for x, y in ((800., 0.), (560., 560.))]
        _A[k] = {x: np.max([np.abs(u[x][0]) for u in t], axis=0)
                 for x in t[0]}
    return _A[k][ab]


def used(c, R):
    M = Model((2, 0, 1))
    ht, o1, o2 = USED[c['used']]
    a, b = [0, 0, 50.], [[800., 300.], [0., 500.], 200.]
    out = []
    for o in (o1, o2):
        out.append(empymod.dipole(a, b, freqtime=[.7, 2.], ab=11, verb=0,
                                  ht=ht, htarg=dict(o), **M.kw))
        R.ev()
        R.tr()
        R.state((ht, str(o)))
        R.outcome(complex(out[-1][0, 0]))
    if np.array_equal(out[0], out[1]):
        R.fail('used '+c['used'], f'{ht}: {o1} and {o2} give identical results')


def string(c, R):
    """Filter by name and as object, method in any case: identical."""
    M = Model((2, 0, 1))
    n = c['string']
    f = getattr(empymod.filters.Hankel(), n)
    a, b = [0, 0, 50.], [[800., 300.], [0., 500.], 200.]
    w = None
    for ht, d, p in itertools.product(('dlf', 'DLF', 'Dlf'), (n, f),
                                      (0, 0., -1, 30)):
        v = empymod.dipole(a, b, freqtime=[.7, 2.], ab=11, verb=0, ht=ht,
                           htarg={'dlf': d, 'pts_per_dec': p}, **M.kw)
        if w is None or p != w[0]:
            w = [p, empymod.dipole(a, b, freqtime=[.7, 2.], ab=11, verb=0,
                                   htarg={'dlf': n, 'pts_per_dec': p},
                                   **M.kw)]
        R.ev()
        R.tr()
        R.state((n, ht, isinstance(d, str), p))
        R.outcome(complex(v[0, 0]))
        if not np.array_equal(v, w[1]):
            R.fail('string '+n, f'{n} {ht} {type(d)} {p}: differs')
