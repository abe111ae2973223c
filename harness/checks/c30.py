"""C30: compiled and interpreted kernels agree.

The kernel module is loaded a second time with compilation switched off
(Numba's own switch), and every kernel routine of both is called with the
same input: outputs, shapes, types, exceptions and (unchanged) inputs agree.

(wn)   wavenumber and greenfct.
(rf)   reflections and fields with the same vertical wavenumbers.
(oth)  The remaining kernel routines.
(mod)  The modelling routines on the interpreted kernels.
(lay)  Memory layouts and scalar kinds other than the usual ones.
"""
import contextlib
import importlib.util
import io
import itertools
import os
import sys
import warnings
import numpy as np
import empymod
from empymod import kernel, utils
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('bounded-exhaustive differential execution: interpreted source '
             'of the kernels as reference for the compiled kernels')
NOTE = ('All ab x all pairs of source and receiver layers of all models x '
        'frequency/Laplace x shapes x special wavenumbers; modelling routines '
        'on both.')
WARM = 'cf'
RULE = 'one state per (routine, model, layers, ab, domain, shape)'
BOUNDS = {'quick': '9 models of up to 4 layers, 3 shapes',
          'thorough': '24 models of up to 5 layers, 6 shapes'}
ASSUMPTIONS = ['rounding: relative differences up to 1e-9 (optimised '
               'arithmetic of the compiled kernels)']

LAM = np.array([1e-6, 3e-4, .02, .9, 40., 3e3, 1e-9, 0.])
SHAPES = [(2, 1, 3), (1, 2, 2), (2, 3, 1), (3, 2, 4), (1, 1, 8), (1, 4, 2)]
JIT = ('wavenumber', 'greenfct', 'reflections', 'fields')
_PY = []


def py():
    """The kernel module, interpreted."""
    if not _PY:
        import numba
        old = numba.config.DISABLE_JIT
        numba.config.DISABLE_JIT = True
        try:
            spec = importlib.util.spec_from_file_location(
                'empymod.kernel_interpreted', kernel.__file__)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
        finally:
            numba.config.DISABLE_JIT = old
        _PY.append(mod)
    return _PY[0]


def cases(tier):
    q = tier == 'quick'
    ms = [(1,), (2, 1), (3, 0), (2, 0, 1), (1, 3, 4), (0, 2, 0),
          (4, 1, 3, 0), (1, 1), (2, 5, 5, 1)]
    if not q:
        ms += [(0,), (2,), (5,), (0, 2), (5, 1), (4, 3), (3, 3, 3), (2, 4, 2),
               (1, 0, 5), (0, 0, 2, 1), (3, 4, 0, 2), (2, 0, 1, 3, 4),
               (1, 3, 2, 2, 0), (4, 4, 1, 0, 5), (3, 1, 3, 1, 3)]
    out = []
    for m in ms:
        n = len(m)
        for ls, lr in itertools.product(range(n), range(n)):
            for dom in 'fs':
                out.append({'k': 'wn', 'm': m, 'l': (ls, lr), 'd': dom,
                            'q': q})
                out.append({'k': 'rf', 'm': m, 'l': (ls, lr), 'd': dom,
                            'q': q})
    for m in ms[:4] if q else ms:
        out += [{'k': 'mod', 'm': m, 'd': d} for d in 'fs']
    out += [{'k': 'oth', 'd': d} for d in 'fs']
    out += [{'k': 'lay', 'd': d} for d in ('f' if q else 'fs')]
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def etas(M, dom, n):
    """etaH, etaV, zetaH, zetaV as used by the modelling routines."""
    f = np.array([.5, 2e3, 1e6])[:n]*(1 if dom == 'f' else -1)
    k = M.kw
    return utils.check_frequency(f, k['res'], k['aniso'], k['epermH'],
                                 k['epermV'], k['mpermH'], k['mpermV'], 0)[1:]


def tup(x):
    return x if isinstance(x, (tuple, list)) else (x, )


def both(R, key, msg, name, args, rtol=1e-9, scale=None):
    """Both versions of a routine on the same input."""
    res = []
    for mod in (kernel, py()):
        a = tuple(x.copy('K') if isinstance(x, np.ndarray) else x
                  for x in args)
        try:
            out = getattr(mod, name)(*a)
        except Exception as e:
            out = type(e).__name__
        else:
            for i, (x, y) in enumerate(zip(a, args)):
                if isinstance(x, np.ndarray) and not np.array_equal(
                        x, y, equal_nan=True):
                    R.fail('input changed', f'{msg}: argument {i} of {name}')
        res.append(out)
    R.ev(2)
    R.tr()
    R.trace()
    g, w = res
    if isinstance(g, str) or isinstance(w, str):
        R.outcome((key, str(type(g))))
        if not (isinstance(g, str) and isinstance(w, str)):
            R.fail('exception', f'{msg} {name}: compiled {str(g)[:80]}, '
                   f'interpreted {str(w)[:80]}')
        return w
    g, w = tup(g), tup(w)
    R.outcome((key, tuple(x is None for x in w)))
    if len(g) != len(w):
        R.fail('number', f'{msg} {name}: {len(g)} {len(w)}')
        return w
    for i, (x, y) in enumerate(zip(g, w)):
        if (x is None) != (y is None):
            R.fail('none', f'{msg} {name} output {i}: {x} {y}')
            continue
        if x is None:
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype != y.dtype:
            R.fail('dtype', f'{msg} {name} output {i}: {x.dtype} {y.dtype}')
        if x.shape != y.shape:
            R.fail('shape', f'{msg} {name} output {i}: {x.shape} {y.shape}')
            continue
        fin = np.isfinite(y)
        if not np.array_equal(np.isfinite(x), fin):
            R.fail('finite', f'{msg} {name} output {i}: {x.ravel()[:4]} '
                   f'{y.ravel()[:4]}')
            continue
        if fin.any():
            # differences of large numbers: relative to the largest over the
            # routine's outputs, for the same element
            sc = np.abs(y[fin]) if scale is None else np.broadcast_to(
                scale[i] if isinstance(scale, list) else scale, y.shape)[fin]
            hx.cmp(R, f'{key} {name}', f'{msg} {name} output {i}', x[fin],
                   y[fin], scale=sc, rtol=rtol, stol=rtol, name=name)
        R.note('elements', x.size)
    return w


def positions(M, layer, dep):
    """Positions in a layer (dep with leading -inf): interior, its bottom."""
    a = dep[layer]
    b = dep[layer+1] if layer+1 < len(dep) else np.inf
    if not np.isfinite(a) and not np.isfinite(b):
        return [35.]
    if not np.isfinite(a):
        return [b-60., b]
    if not np.isfinite(b):
        return [a+40., a+1e-3]
    return [a+.37*(b-a), b]


def _wn(c, R):
    M = hx.Model(c['m'])
    dep = np.r_[-np.inf, M.depth]
    ls, lr = c['l']
    shapes = SHAPES[:3] if c['q'] else SHAPES
    ps = list(itertools.product(positions(M, ls, dep), positions(M, lr, dep)))
    if ls == lr:
        zs = positions(M, ls, dep)
        ps += [(zs[0], zs[0]+7.), (zs[0]+7., zs[0])]
    for (iz, (zs, zr)), (js, sh), ab, xd in itertools.product(
            enumerate(ps), enumerate(shapes), hx.ABS, (False, True)):
        if c['q'] and (iz+js+xd) % 2:
            continue
        abc, ms, mr = utils.check_ab(ab, 0)
        if abc == 36:
            continue
        eH, eV, zH, zV = etas(M, c['d'], sh[0])
        lam = np.resize(LAM, sh[1]*sh[2]).reshape(sh[1:])
        tag = f'{c} z=({zs}, {zr}) shape={sh} ab={ab} xdirect={xd}'
        zs0, zr0 = np.array(float(zs)), np.array(float(zr))
        ls0, lr0 = np.array(ls), np.array(lr)
        args = (zs0, zr0, ls0, lr0, dep, eH, eV, zH, zV, lam, abc, xd, ms, mr)
        R.state((c['m'], c['l'], c['d'], iz, sh, ab, xd))
        G = tup(py().greenfct(*args))
        both(R, 'wn', tag, 'greenfct', args, scale=_mx(G))
        w = both(R, 'wn', tag, 'wavenumber', args, scale=_wscale(G, lam, abc))
        if isinstance(w, str):
            R.fail('wn raises', f'{tag}: {w}')


def _mx(out):
    return np.sum([np.where(np.isfinite(x), np.abs(x), 0) for x in out
                   if np.ndim(x)], axis=0)


def _wscale(G, lam, ab):
    """Scale of the outputs: TM and TE may cancel."""
    k = 3 if ab == 33 else 2 if ab in (13, 23, 31, 32, 34, 35, 16, 26) else 1
    g = _mx(G)/(4*np.pi)
    return [g*lam**k, g*lam**(k if k > 1 else 0), g*lam**k]


def _rf(c, R):
    M = hx.Model(c['m'])
    if len(c['m']) == 1:
        return
    dep = np.r_[-np.inf, M.depth]
    ls, lr = c['l']
    for sh, swap in itertools.product(SHAPES[:3] if c['q'] else SHAPES,
                                      (False, True)):
        eH, eV, zH, zV = etas(M, c['d'], sh[0])
        if swap:
            eH, zH, eV, zV = zH, eH, zV, eV
        lam = np.resize(LAM, sh[1]*sh[2]).reshape(sh[1:])
        l2 = (lam*lam)[None, :, None, :]
        Gam = np.sqrt((eH/eV)[:, None, :, None]*l2 +
                      (eH*zH)[:, None, :, None])
        tag = f'{c} shape={sh} TM={not swap}'
        R.state(('rf', c['m'], c['l'], c['d'], sh, swap))
        out = both(R, 'rf', tag, 'reflections', (dep, eH, Gam, lr, ls))
        if isinstance(out, str):
            R.fail('rf raises', f'{tag}: {out}')
            continue
        Rp, Rm = out
        for zs, ab, TM in itertools.product(positions(M, ls, dep), (
                11, 12, 22, 24, 33, 31, 13, 16, 34), (True, False)):
            R.state(('fi', c['m'], c['l'], c['d'], sh, swap, zs, ab, TM))
            w = both(R, 'fi', f'{tag} zs={zs} ab={ab} TM={TM}', 'fields',
                     (dep, Rp, Rm, Gam, lr, ls, float(zs), ab, TM))
            if isinstance(w, str):
                R.fail('fi raises', f'{tag} {zs} {ab}: {w}')


def _oth(c, R):
    n = [k for k in kernel.__all__ if k not in JIT]
    for k in kernel.__all__:
        R.note('compiled routines', hasattr(getattr(kernel, k), 'py_func'))
        if hasattr(getattr(py(), k), 'py_func'):
            R.fail('harness', f'{k} is compiled in the interpreted module')
    M = hx.Model((1,))
    off = np.array([30., 500., 40.])
    ang = np.array([0., .7, -2.])
    for ab in hx.ABS:
        abc, ms, mr = utils.check_ab(ab, 0)
        if abc == 36:
            continue
        both(R, 'oth', f'{c} {ab}', 'angle_factor', (ang, abc, ms, mr))
        for nf in (1, 2):
            e = [x[:, 0] for x in etas(M, c['d'], nf)]
            for zs, zr in ((3., 3.), (3., 40.), (40., 3.)):
                both(R, 'oth', f'{c} {ab} {zs} {zr}', 'fullspace',
                     (off, ang, zs, zr, *e, abc, ms, mr))
                R.state(('fs', c['d'], ab, nf, zs, zr))
    for ab, sig, sol in itertools.product(
            (11, 12, 13, 21, 22, 23, 31, 32, 33), (None, 0, 1, -1),
            ('dfs', 'dhs', 'dsplit', 'dtetm')):
        e = [x[:1, 0] for x in etas(M, c['d'], 1)[:2]]
        ft = np.array([.3, 5.])
        ft = ft[:, None] if sig is not None else ft[:, None]*(
            2j*np.pi if c['d'] == 'f' else 1.)
        both(R, 'oth', f'{c} {ab} {sig} {sol}', 'halfspace',
             (off, ang, 3., 40., e[0].real[:, None], e[1].real[:, None], ft,
              ab, sig, sol))
        R.state(('hs', c['d'], ab, sig, sol))
    R.note('other routines', len(n))


@contextlib.contextmanager
def interpreted():
    """All compiled routines in the package replaced."""
    saved = []
    for k in dir(kernel):
        f = getattr(kernel, k)
        if not hasattr(f, 'py_func'):
            continue
        for mod in list(sys.modules.values()):
            name = getattr(mod, '__name__', '')
            if name.split('.')[0] == 'empymod' and \
                    name != 'empymod.kernel_interpreted':
                for x, v in list(vars(mod).items()):
                    if v is f:
                        saved.append((mod, x, v))
                        setattr(mod, x, getattr(py(), k))
    try:
        yield len(saved)
    finally:
        for mod, x, v in saved:
            setattr(mod, x, v)


FILT = empymod.filters.DigitalFilter('short', 'short')
FILT.base = np.logspace(-3, 1, 7)
FILT.factor = np.array([FILT.base[1]/FILT.base[0]])
FILT.j0 = np.array([.1, .3, .5, -.2, .3, -.1, .02])
FILT.j1 = np.array([.2, -.1, .3, .4, -.3, .2, -.05])


def _mod(c, R):
    M = hx.Model(c['m'])
    z = M.zpos
    f = np.array([.5, 70.])*(1 if c['d'] == 'f' else -1)
    calls = {}
    x, y = np.array([400., 330.]), np.array([30., -260.])
    for ab in hx.ABS:
        for lp, pts in ((None, 0), ('freq', 0), ('off', 0), (None, -1),
                        (None, 10)):
            if pts and ab % 3:
                continue
            for zr in (z[-1], z[0]+3.):
                calls['dipole', ab, lp, pts, zr] = \
                    lambda ab=ab, lp=lp, pts=pts, zr=zr: empymod.dipole(
                        [3., 2., z[0]], [x, y, zr], freqtime=f, ab=ab,
                        loop=lp, verb=0,
                        htarg={'dlf': FILT, 'pts_per_dec': pts}, **M.kw)
        calls['dipole_k', ab] = lambda ab=ab: np.array(empymod.dipole_k(
            [3., 2., z[-1]], [x, y, z[0]], freq=f, ab=ab,
            wavenumber=LAM[:4], verb=0, **M.kw))
    for ms, mr in itertools.product((False, True, 'b'), (False, True, 'j')):
        calls['bipole', ms, mr] = lambda ms=ms, mr=mr: empymod.bipole(
            [3., 30., 2., 5., z[0], z[0]+1.], [x, y, z[-1], 20., 40.],
            freqtime=f, msrc=ms, mrec=mr, srcpts=2, verb=0,
            htarg={'dlf': FILT}, **M.kw)
    if c['d'] == 'f':
        calls['qwe'] = lambda: empymod.dipole(
            [3., 2., z[0]], [x, y, z[-1]], freqtime=f, ab=12, verb=0, ht='qwe',
            htarg={'maxint': 5, 'nquad': 5, 'diff_quad': 1e100}, **M.kw)
        calls['quad'] = lambda: empymod.dipole(
            [3., 2., z[0]], [x, y, z[-1]], freqtime=f, ab=12, verb=0,
            ht='quad', htarg={'pts_per_dec': 5, 'limit': 20}, **M.kw)
        calls['time'] = lambda: empymod.dipole(
            [3., 2., z[0]], [x, y, z[-1]], freqtime=[.1, .2], signal=0, ab=12,
            verb=0, htarg={'dlf': FILT}, ft='fft',
            ftarg={'dfreq': 1., 'nfreq': 8}, **M.kw)
    want = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for k, fn in calls.items():
            want[k] = np.array(fn())
        with interpreted() as n:
            R.note('replaced', n)
            got = {k: np.array(fn()) for k, fn in calls.items()}
    if n < 1:
        R.note('nothing to replace', 1)
    for k in calls:
        R.ev(2)
        R.tr()
        R.trace()
        R.state((c['m'], c['d'], k))
        sc = np.max(np.abs(got[k]), initial=0)
        hx.cmp(R, 'mod', f'{c} {k}', want[k], got[k], scale=sc, rtol=1e-8,
               stol=1e-10 if k not in ('qwe', 'quad') else 1e-6, name='mod')


def _lay(c, R):
    """Other memory layouts and kinds of scalars."""
    M = hx.Model((2, 0, 1))
    dep = np.r_[-np.inf, M.depth]
    e = etas(M, c['d'], 2)
    lam = LAM[:6].reshape(2, 3)
    wide = [np.repeat(x, 2, 1)[:, ::2] for x in e]
    fort = [np.asfortranarray(x) for x in e]
    lwide = np.repeat(lam, 2, 1)[:, ::2]
    for ab in (11, 12, 33, 13, 24, 46, 62, 55):
        abc, ms, mr = utils.check_ab(ab, 0)
        for name in ('wavenumber', 'greenfct'):
            G = py_call('greenfct', (10., 200., 0, 2, dep, *e, lam, abc,
                                     False, ms, mr))
            for tag, ee, ll in (('wide', wide, lwide), ('fortran', fort,
                                                        np.asfortranarray(
                                                            lam))):
                w = both(R, 'lay', f'{c} {ab} {tag}', name,
                         (10., 200., 0, 2, dep, *ee, ll, abc, False, ms, mr),
                         scale=_mx(G) if name == 'greenfct' else _wscale(
                             G, lam, abc))
                R.state((c['d'], ab, name, tag))
                if isinstance(w, str):
                    R.fail('lay raises', f'{c} {ab} {name} {tag}: {w}')


def py_call(name, args):
    return tup(getattr(py(), name)(*args))


if __name__ == '__main__':
    print(os.path.basename(__file__), sys.version)
