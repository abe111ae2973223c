"""C26: EM arrays: amplitude and phase of the data.

All arrays of up to four elements over an alphabet of complex (and real,
integer, single-precision) values x all options, all small shapes and memory
layouts, all sequences of queries; an independent model of amplitude and
(un)wrapped phase as oracle; outputs of all modelling routines.
"""
import cmath
import copy
import itertools
import math
import pickle
import warnings
import numpy as np
import empymod
from empymod.utils import EMArray
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small arrays, layouts, options and '
             'sequences of queries on the real code; independent scalar model '
             'as oracle')
NOTE = ('All arrays of up to 4 elements over 9-14 values (incl. signed zeros, '
        'negative axis, extreme and non-finite values) x 8 options; all '
        'shapes to 3 dimensions x 6 layouts; all query sequences of length 3.')
WARM = 'c'
RULE = ('one state per (array, layout, options) or (array, history); '
        'non-trivial if the phase is not zero everywhere')
BOUNDS = {'quick': 'up to 4 elements, 9 values',
          'thorough': 'up to 5 elements, 9 values; up to 4 with 14 values'}
VAL = [1+0j, -1+0j, 1j, -1j, -1-1e-18j, -2.5-1.5j, 1e-3-4e-3j, 3-4j, 0j]
MORE = [-1+1e-18j, 1e-300+1e-300j, -1e300+1e299j, complex(-0., -0.),
        5e-324-5e-324j]
OPT = list(itertools.product((False, True), repeat=3))


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'val', 'n': 1, 'f': None, 'v': 'all'}]
    for n in (2, 3, 4):
        out += [{'k': 'val', 'n': n, 'f': i, 'v': 'std'}
                for i in range(len(VAL))]
        if n < 4 or not q:
            out += [{'k': 'val', 'n': n, 'f': i, 'v': 'all'}
                    for i in range(len(VAL+MORE))]
    if not q:
        out += [{'k': 'val', 'n': 5, 'f': i, 'v': 'std'}
                for i in range(len(VAL))]
    out += [{'k': 'shape', 'd': d} for d in ('c16', 'c8', 'f8', 'f4', 'i8',
                                             'i4')]
    out += [{'k': 'hist'}, {'k': 'array'}, {'k': 'nonfin'}]
    out += [{'k': 'model', 'm': m} for m in ((2, 0, 1), (0,))]
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def arg(z):
    return math.atan2(z.imag, z.real)


def judge(R, tag, x, E, single=False):
    """Amplitude and phase of E for the data x (plain complex array)."""
    eps = 1e-6 if single else 1e-13
    A = np.asarray(E.amp())
    if A.shape != x.shape or not np.all(np.abs(
            A-np.array([abs(complex(z)) for z in x.ravel()]).reshape(x.shape))
            <= eps*np.abs(A)+5e-324*4):
        R.fail('amplitude', f'{tag}: {A} of {x}')
    if np.iscomplexobj(A):
        R.fail('amplitude type', f'{tag}: {A.dtype}')
    for deg, unw, lag in OPT:
        P = E.pha(deg=deg, unwrap=unw, lag=lag)
        t = f'{tag} deg={deg} unwrap={unw} lag={lag}'
        if not isinstance(P, EMArray) and np.ndim(P):
            R.fail('phase class', f'{t}: {type(P)}')
        P = np.asarray(P, dtype=float)
        R.ev()
        R.tr()
        if P.shape != x.shape:
            R.fail('phase shape', f'{t}: {P.shape} instead of {x.shape}')
            continue
        p = P*(math.pi/180 if deg else 1)
        w = np.array([arg(complex(z)) for z in x.ravel()]).reshape(x.shape)
        w = w if lag else -w
        d = p-w
        tol = 40*eps*(1+np.abs(p))
        bad = np.abs(d-2*np.pi*np.round(d/(2*np.pi))) > tol
        if np.any(bad):
            R.fail('phase', f'{t}: {P} of {x}')
            continue
        pr = np.abs(p) <= np.pi*(1+eps*9)
        if not unw or x.size == 1:
            # On the negative real axis both signs are the same phase.
            if not np.all(pr):
                R.fail('wrapped range', f'{t}: {P} of {x}')
            # sign: not on the cut
            cut = np.abs(np.abs(w)-np.pi) < 1e-7
            if np.any((np.abs(d) > tol) & ~cut):
                R.fail('wrapped value', f'{t}: {P} of {x}')
        elif x.ndim:
            f, wf = p[..., :1], pr[..., :1]
            if not np.all(wf):
                R.fail('unwrap start', f'{t}: {P} of {x}')
            j = np.abs(np.diff(p, axis=-1))
            if j.size and np.max(j) > np.pi*(1+1e-6)+40*eps*np.max(np.abs(p)):
                R.fail('unwrap jump', f'{t}: {P} of {x}')
    # Defaults
    for kw in ({}, {'deg': True}, {'unwrap': False}, {'lag': False}):
        a = np.asarray(E.pha(**kw))
        b = np.asarray(E.pha(**{'deg': False, 'unwrap': True, 'lag': True,
                                **kw}))
        if not np.array_equal(a, b, equal_nan=True):
            R.fail('defaults', f'{tag} {kw}: {a} {b}')


def _val(c, R):
    V = VAL if c['v'] == 'std' else VAL+MORE
    first = V if c['f'] is None else [V[c['f']]]
    for t in itertools.product(first, *[V]*(c['n']-1)):
        x = np.array(t)
        y = x.copy()
        E = EMArray(x)
        judge(R, f'{t}', y, E)
        if c['n'] == 1:
            judge(R, f'scalar {t}', np.array(t[0]), EMArray(t[0]))
            judge(R, f'list {t}', y, EMArray(list(t)))
        if x.tobytes() != y.tobytes() or np.asarray(E).tobytes() != \
                y.tobytes():
            R.fail('changed', f'{t}: {x}')
        R.trace()
        R.state(str(t), bool(np.any(y.imag) or np.any(y.real < 0)))
        R.outcome(tuple(np.round(np.asarray(E.pha()), 6)))


LAY = {'C': lambda x: x, 'F': np.asfortranarray,
       'T': lambda x: np.ascontiguousarray(x.T).T,
       'stride': lambda x: np.repeat(x, 2, -1)[..., ::2],
       'neg': lambda x: np.ascontiguousarray(x[..., ::-1])[..., ::-1],
       'ro': lambda x: _ro(x.copy())}


def _ro(x):
    x.setflags(write=False)
    return x


def _shape(c, R):
    shapes = [(n,) for n in range(5)]
    shapes += list(itertools.product((1, 2, 3), repeat=2))
    shapes += list(itertools.product((1, 2, 3), repeat=3))
    for sh, (lay, f), k in itertools.product(shapes, LAY.items(), range(4)):
        n = int(np.prod(sh))
        ang = 2.3*np.arange(n)*(1+k)+k
        x = (1+np.arange(n) % 3)*np.exp(1j*ang)*7
        if c['d'][0] != 'c':
            x = x.real
        x = x.reshape(sh).astype(c['d'])
        y = x.copy()
        if n == 0 and lay in ('stride', 'neg'):
            continue
        z = f(x)
        E = EMArray(z)
        tag = f'{c["d"]} {sh} {lay} {k}'
        if E.shape != y.shape or E.dtype != y.dtype or not np.array_equal(
                np.asarray(E), y) or not isinstance(E, EMArray):
            R.fail('data', f'{tag}: {E!r}')
        if n:
            judge(R, tag, y, E, c['d'] in ('c8', 'f4'))
        if not np.array_equal(z, y) or not np.array_equal(np.asarray(E), y):
            R.fail('changed', f'{tag}')
        R.trace()
        R.state((c['d'], sh, lay, k), n > 1)


def _hist(c, R):
    """All sequences of queries: no query changes data or other results."""
    Q = {f'pha{o}': (lambda E, o=o: E.pha(*o)) for o in OPT}
    Q['amp'] = lambda E: E.amp()
    Q['mod'] = lambda E: np.multiply(E.pha(), 3)
    datas = [np.array([1+1j, 0+1j, -1-1j, -1+1e-9j]), np.array([-2., 3., 1.]),
             np.array([[-1-.1j, -1+.1j], [-1-.1j, 4j]]), np.array([-3-1j]),
             np.array(-1.5+1j)]
    for x in datas:
        ref = {n: np.array(f(EMArray(x.copy()))) for n, f in Q.items()}
        for seq in itertools.product(Q, repeat=3):
            E = EMArray(x.copy())
            kept = []
            for n in seq:
                g = Q[n](E)
                R.ev()
                kept.append((n, g))
                if not np.array_equal(np.asarray(E), x):
                    R.fail('changed', f'{seq}: {E} instead of {x}')
            for n, g in kept:
                if not np.array_equal(np.asarray(g), ref[n]):
                    R.fail('history', f'{seq}: {n} {g} instead of {ref[n]}')
            # Results belong to the caller: changing them has no effect.
            for n, g in kept:
                if np.ndim(g):
                    g[...] = 99
            if not np.array_equal(np.asarray(E), x):
                R.fail('shared', f'{seq}')
            R.tr(3)
            R.trace()
            R.state((x.shape, str(x.dtype), seq))


def _array(c, R):
    """As an ordinary array."""
    x = np.array([[1+1j, -2-1j, 3j], [-1+0j, 5-5j, 0j]])
    E = EMArray(x.copy())
    ops = {
        'add': lambda a: a+1, 'mul': lambda a: a*a, 'div': lambda a: a/(2+1j),
        'neg': lambda a: -a, 'pow': lambda a: a**2, 'row': lambda a: a[0],
        'col': lambda a: a[:, 1], 'el': lambda a: a[1, 2],
        'mask': lambda a: a[np.abs(a) > 1], 'fancy': lambda a: a[[1, 0, 1]],
        'T': lambda a: a.T, 'real': lambda a: a.real,
        'imag': lambda a: a.imag, 'conj': lambda a: a.conj(),
        'sum': lambda a: a.sum(), 'mean': lambda a: a.mean(0),
        'reshape': lambda a: a.reshape(3, 2), 'ravel': lambda a: a.ravel('F'),
        'abs': lambda a: abs(a), 'eq': lambda a: a == a,
        'stack': lambda a: np.stack([a, a]), 'copy': lambda a: a.copy(),
        'deep': copy.deepcopy, 'pickle': lambda a: pickle.loads(
            pickle.dumps(a)), 'astype': lambda a: a.astype('c8'),
        'sq': lambda a: np.squeeze(a[:1]), 'exp': np.exp, 'angle': np.angle,
        'max': lambda a: np.abs(a).max(), 'dot': lambda a: a @ a.T,
        'tolist': lambda a: np.array(a.tolist()),
        'iter': lambda a: np.array([r for r in a]), 'len': len,
        'isfin': np.isfinite, 'where': lambda a: np.where(a == 0, 1, a)}
    for (n, f), (m, g) in itertools.product(ops.items(), ops.items()):
        w, v = f(x), f(E)
        try:
            w2 = g(w)
        except Exception:
            w2 = None
        R.ev()
        R.tr()
        R.state((n, m))
        if np.shape(v) != np.shape(w) or not np.allclose(
                np.asarray(v), w, rtol=1e-13, atol=0):
            R.fail('array', f'{n}: {v} instead of {w}')
        if w2 is None:
            continue
        try:
            v2 = g(v)
        except Exception as e:
            R.fail('array error', f'{n} {m}: {e}')
            continue
        if np.shape(v2) != np.shape(w2) or not np.allclose(
                np.asarray(v2), w2, rtol=1e-13, atol=0, equal_nan=True):
            R.fail('array', f'{n} {m}: {v2} instead of {w2}')
        for u, z in ((v, w), (v2, w2)):
            if isinstance(u, EMArray) and u.dtype.kind == 'c' and u.size:
                judge(R, f'{n} {m}', np.array(z), u, u.dtype == 'c8')
    # Views: writing into the array writes into the data of the caller only
    # if the caller's data are shared; values stay equal in any case.
    for y in (x.copy(), x.tolist(), tuple(map(tuple, x)), EMArray(x.copy())):
        F = EMArray(y)
        R.ev()
        if not isinstance(F, EMArray) or not np.array_equal(np.asarray(F), x):
            R.fail('construct', f'{type(y)}')
    R.trace()


def _nonfin(c, R):
    """A non-finite element does not affect wrapped values of the others."""
    bad = [complex(np.nan, 0), complex(0, np.nan), complex(np.inf, 1),
           complex(-np.inf, np.inf), complex(1, -np.inf)]
    for n, b in itertools.product((1, 2, 3), bad):
        for pos in range(n):
            for rest in itertools.product(VAL, repeat=n-1):
                x = list(rest)
                x.insert(pos, b)
                E = EMArray(np.array(x))
                R.state(str(x))
                for deg, unw, lag in OPT:
                    if unw:
                        continue
                    P = np.asarray(E.pha(deg, False, lag))
                    R.ev()
                    R.tr()
                    for i, z in enumerate(x):
                        w = arg(z)*(1 if lag else -1)*(180/np.pi if deg
                                                       else 1)
                        g = P[i]
                        cut = abs(abs(arg(z))-np.pi) < 1e-7
                        if np.isnan(w) != np.isnan(g) or (
                                not np.isnan(w) and
                                abs(abs(g)-abs(w) if cut else g-w) > 1e-10):
                            R.fail('non-finite', f'{x} {deg} {lag}: {P}')
                A = np.asarray(E.amp())
                if not np.allclose(A, [abs(z) for z in x], rtol=1e-14,
                                   atol=0, equal_nan=True):
                    R.fail('non-finite amp', f'{x}: {A}')


def _model(c, R):
    """Outputs of the modelling routines."""
    M = hx.Model(c['m'])
    z = M.zpos
    o = [np.array([100., 300., 900.]), np.array([20., -10., 5.]), z[-1]]
    s = [np.array([0., 9.]), np.array([0., 2.]), z[0]]
    kw = dict(M.kw, verb=0)
    T = dict(signal=0, ft='dlf')
    outs = {}
    for f in (1., -1., [1., -2.][:1], [.5, 2., 70.]):
        for ab in hx.ABS:
            outs['dip', str(f), ab] = empymod.dipole(s, o, freqtime=f, ab=ab,
                                                     **kw)
            outs['dip1', str(f), ab] = empymod.dipole(
                [0, 0, z[0]], [50., 20., z[-1]], freqtime=f, ab=ab, **kw)
        for sq in (True, False):
            outs['bip', str(f), sq] = empymod.bipole(
                [*s, 10., 20.], [*o, 0., 90.], freqtime=f, squeeze=sq, **kw)
        for sol in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'):
            outs['ana', str(f), sol] = empymod.analytical(
                [*s[:2], 9.], [*o[:2], 14.], 3., f, sol, verb=0)
    for sig in (0, 1, -1):
        outs['time', sig] = empymod.dipole(s, o, freqtime=[.1, 1.],
                                           **{**kw, **T, 'signal': sig})
        outs['tbip', sig] = empymod.bipole(
            [*s, 10., 20.], [*o, 0., 90.], freqtime=.5,
            **{**kw, **T, 'signal': sig})
    outs['loop'] = empymod.loop([*s, 10., 20.], [*o, 0., 90.], freqtime=1.,
                                **kw)
    outs['gpr'] = empymod.gpr([0, 0, z[0]], [3., 1., z[0]],
                              freqtime=[2e-8, 4e-8], cf=2e8,
                              ftarg={'dfreq': 1e8, 'nfreq': 16}, **kw)
    for k, E in outs.items():
        R.state((c['m'], k))
        R.trace()
        if not isinstance(E, EMArray):
            # gpr is not documented to return an EMArray
            if k != 'gpr':
                R.fail('class', f'{k}: {type(E)}')
            continue
        x = np.array(E)
        judge(R, f'{k}', x, E)
        if not np.array_equal(np.asarray(E), x):
            R.fail('changed', f'{k}')
