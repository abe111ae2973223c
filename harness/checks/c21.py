"""C21: TM/TE decomposition (scripts.tmtemod).

Every layered model of an alphabet x every layer x every position pair in that
layer: each of the ten parts against an independent transmission-line
expression, their sum against the independent full response, and their
meaning under mirroring and vertical shifts.
"""
import itertools
import warnings
import numpy as np
from empymod.scripts import tmtemod
import ref
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of layer stacks x layers x position '
             'pairs; independent transmission-line model of each part and of '
             'the sum; mirror and shift symmetries')
NOTE = ('All 2- and 3-layer stacks over 4 (5) isotropic-permittivity '
        'materials, 4-layer stacks over 2 (3); all pairs of 3 positions per '
        'layer including the interface; 2 frequencies and 1 Laplace value; '
        '3 receivers and 2 sources; every rejected configuration.')
WARM = 'f'
RULE = 'one state per (model, layer, position pair, frequency)'
BOUNDS = {'quick': '2-3 layers over 4 materials, 4 over 2',
          'thorough': '2-3 layers over 5 materials, 4 over 3, 5 over 2'}
ASSUMPTIONS = ['parts are judged relative to the sum of absolute filter terms '
               '(2e-8); the part independent of the wavenumber is removed '
               'from the reflected parts, as the routine documents']
# res, aniso, eperm, mperm
MAT = [(0.3, 1., 1., 1.), (20., 1.8, 9., 1.3), (1e6, 1., 1., 1.),
       (1.5, .6, 4., 3.), (500., 1., 80., .8)]
FILT = None
NAMES = ['--', '-+', '+-', '++', 'direct']
FREQS = [0.7, 350., -20.]
XY = ([0., 40.], [0., -30.], [150., 60., 400.], [80., -90., 0.])


def cases(tier):
    q = tier == 'quick'
    ms = []
    for n in (2, 3):
        ms += list(itertools.product(range(4 if q else 5), repeat=n))
    ms += list(itertools.product(range(2 if q else 3), repeat=4))
    if not q:
        ms += list(itertools.product((0, 1), repeat=5))
    return [{'k': 'model', 'm': list(m)} for m in ms] + [
        {'k': 'symm', 'm': list(m)} for m in ms if len(m) < 4 or not q] + [
        {'k': 'reject'}, {'k': 'forms'}]


def run_case(c, R):
    global FILT
    if FILT is None:
        FILT = ref.load_filter('key_201_2012')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


DEP = [0., 130., 400., 790.]


def depths(m, f=1.):
    return np.array(DEP[:len(m)-1])*f


def pars(m):
    return np.array([MAT[i] for i in m]).T


def run(src, rec, depth, m, freq, **kw):
    r, a, e, u = pars(m)
    return tmtemod.dipole(src, rec, depth, r, freq, a, e, u, verb=0, **kw)


def positions(depth, i):
    """Two positions within layer i and the one on its lower interface."""
    if i == 0:
        return [depth[0]-70., depth[0]-12., depth[0]]
    if i == depth.size:
        return [depth[-1]+10., depth[-1]+95.]
    t, b = depth[i-1], depth[i]
    return [t+.2*(b-t), t+.65*(b-t), b]


def parts(src, rec, depth, m, freq):
    """The ten parts at one receiver; list of (value, scale)."""
    r_, a_, e_, u_ = pars(m)
    eh, ev, zh, zv = ref.params(freq, r_, a_, e_, e_, u_, u_)
    dx, dy = rec[0]-src[0], rec[1]-src[1]
    off = max(np.hypot(dx, dy), 1e-3)
    c2 = np.cos(2*np.arctan2(dy, dx))
    base, j0, j1 = FILT
    kap = np.r_[base/off, 0.]                     # last: zero wavenumber
    zs, zr = src[2], rec[2]
    i = ref.layer_of(zs, depth)
    top = depth[i-1] if i > 0 else None
    bot = depth[i] if i < depth.size else None
    out = {}
    for mode in ('TM', 'TE'):
        ln = [ref._line(mode, kap, eh[j], ev[j], zh[j], zv[j])
              for j in range(len(m))]
        g, z0 = ln[i]

        def refl(stack, thick):
            if not stack:
                return np.zeros_like(g)
            zin, _ = ref._half(stack, thick)
            return (zin-z0)/(zin+z0)
        th = [None] + list(np.diff(depth)) + [None]
        rp = refl(ln[i+1:], th[i+1:])
        rm = refl(ln[:i][::-1], th[:i][::-1])
        if top is not None and bot is not None:
            M = 1-rp*rm*np.exp(-2*g*(bot-top))
        else:
            M = 1.
        zero = np.zeros_like(g)
        h = bot-top if top is not None and bot is not None else 0.
        # Scales contain the rounding of the reflection coefficients.
        ap, am = np.abs(rp)+1e-8, np.abs(rm)+1e-8
        one = np.ones_like(g)
        uu, dd = (((rp*rm, ap*am), np.exp(-g*(2*h+d))/M) if h else
                  ((zero, 0), zero) for d in (zs-zr, zr-zs))
        ud = ((rp, ap), np.exp(-g*(2*bot-zs-zr))/M) if bot is not None else (
            (zero, 0), zero)
        du = ((rm, am), np.exp(-g*(zs+zr-2*top))/M) if top is not None else (
            (zero, 0), zero)
        df = (one, 1), np.exp(-g*abs(zs-zr))
        s = -1 if mode == 'TM' else 1
        res = []
        for n, ((x, ax), e) in enumerate((uu, ud, du, dd, df)):
            v, va = s*z0*x*e, np.abs(z0*e)*ax
            full = v[0, :-1]
            corr = v[0, -1] if n < 4 else 0.
            # x-x component: cos^2/sin^2 of the mode's horizontal direction.
            a = -c2*full*j1/off
            b = full*(base/off)*j0*(c2 - s)/2
            val = (a.sum() + b.sum() + c2*corr/off)/(4*np.pi*off)
            va, vc = va[0, :-1], va[0, -1] if n < 4 else 0.
            sc = (np.abs(va*j1/off).sum()+np.abs(va*base/off*j0).sum() +
                  vc/off)/(4*np.pi*off)
            res.append((val, sc))
        out[mode] = res
    return out


def _model(c, R):
    m = c['m']
    depth = depths(m)
    r_, a_, e_, u_ = pars(m)
    sx, sy, rx, ry = XY
    for i in range(len(m)):
        for zs, zr in itertools.product(positions(depth, i), repeat=2):
            for freq in FREQS:
                tag = f'{m} {zs} {zr} {freq}'
                got = run([sx, sy, zs], [rx, ry, zr], depth, m, freq)
                R.ev()
                R.tr(10)
                R.state(tag)
                tot = 0
                for part in got:
                    for x in part:
                        if np.shape(x) != (3, 2):
                            R.fail('shape', f'{tag}: {np.shape(x)}')
                            return
                        tot = tot+x
                for k, l in itertools.product(range(3), range(2)):
                    s, q = [sx[l], sy[l], zs], [rx[k], ry[k], zr]
                    want = parts(s, q, depth, m, freq)
                    R.trace()
                    for mode, g in zip(('TM', 'TE'), got):
                        for n in range(5):
                            w, sc = want[mode][n]
                            hx.cmp(R, f'{mode}{NAMES[n]}', f'{tag} {mode}'
                                   f'{NAMES[n]} {k},{l}', g[n][k, l], w,
                                   sc, name='part')
                    w, sc = ref.dipole(s, q, depth, freq, 11, FILT, r_, a_,
                                       e_, e_, u_, u_)
                    sc2 = sum(x[1] for y in want.values() for x in y)
                    hx.cmp(R, 'sum', f'{tag} sum {k},{l}', tot[k, l], w[0],
                           sc2, name='sum')
                    R.outcome(float('%.2g' % abs(w[0])))


def _symm(c, R):
    """Mirrored and shifted setups."""
    m = c['m']
    depth = depths(m)
    swap = [3, 2, 1, 0, 4]
    for i in range(len(m)):
        zz = positions(depth, i)
        if i < depth.size:
            zz = zz[:2]                  # interface belongs to upper layer
        for zs, zr in itertools.product(zz, repeat=2):
            for freq in FREQS[1:]:
                tag = f'{m} {zs} {zr} {freq}'
                a = run([0, 0, zs], [150, 80, zr], depth, m, freq)
                b = run([0, 0, -zs], [150, 80, -zr], -depth[::-1], m[::-1],
                        freq)
                d = run([30, -7, zs+5000.], [180, 73, zr+5000.], depth+5000.,
                        m, freq)
                e = depth.size > 1 and run(
                    [0, 0, zs], [150, 80, zr], depth[::-1], m[::-1], freq)
                f = run([0, 0, zs], [150, 80, zr], np.r_[-np.inf, depth,
                                                         np.inf], m, freq)
                R.ev(5)
                R.tr(5)
                R.state(('s', tag))
                sc = parts([0, 0, zs], [150, 80, zr], depth, m, freq)
                R.outcome(float('%.2g' % abs(a[0][4])))
                for mode, x, y, z, u, v in zip(
                        ('TM', 'TE'), a, b, d, e or a, f):
                    for n in range(5):
                        s = sc[mode][n][1]
                        hx.cmp(R, 'mirror', f'{tag} mirror {mode}{NAMES[n]}',
                               y[swap[n]], x[n], s)
                        hx.cmp(R, 'shift', f'{tag} shift {mode}{NAMES[n]}',
                               z[n], x[n], s, stol=1e-7)
                        if depth.size > 1:
                            hx.cmp(R, 'reversed', f'{tag} {mode}{NAMES[n]}',
                                   u[n], x[n], s)
                        hx.cmp(R, 'inf', f'{tag} {mode}{NAMES[n]}', v[n],
                               x[n], s)


def _reject(c, R):
    """Configurations which are not supported raise."""
    depth = np.array([0., 130., 400.])
    res = [1e6, 1., 20., .5]
    zz = [-50., 0., 60., 130., 250., 400., 500.]
    for zs, zr in itertools.product(zz, repeat=2):
        for nl in (1, 2, 3, 4):
            d, r = depth[:nl-1], res[:nl]
            for freq in (1., [1.], [1., 2.], [-1., -2.], []):
                ok = (ref.layer_of(zs, d) == ref.layer_of(zr, d) and nl > 1
                      and np.size(freq) == 1)
                if np.size(freq) == 0 and (nl == 1 or ref.layer_of(
                        zs, d) != ref.layer_of(zr, d)):
                    continue
                R.ev()
                R.tr()
                R.state((zs, zr, nl, str(freq)))
                try:
                    out = tmtemod.dipole([0, 0, zs], [100, 30, zr], d, r,
                                         freq, verb=0)
                    st = 'ok'
                except (ValueError, IndexError) as e:
                    st = type(e).__name__
                R.outcome(st)
                if np.size(freq) == 0:
                    continue
                if (st == 'ok') != ok:
                    R.fail('reject', f'{nl} layers, {zs}, {zr}, {freq}: '
                           f'{st}, expected {ok}')
                elif ok and (len(out) != 2 or any(
                        len(x) != 5 for x in out)):
                    R.fail('output', f'{len(out)}')


def _forms(c, R):
    """Sizes, defaults and input forms; inputs are not changed."""
    depth, m = np.array([0., 200.]), [2, 0, 1]
    r_, a_, e_, u_ = pars(m)
    for ns, nr in itertools.product((1, 2, 3), repeat=2):
        sx, sy = np.arange(ns)*10., np.arange(ns)*-7.
        rx, ry = np.arange(nr)*50.+100, np.arange(nr)*20.-5
        args = [[sx, sy, 50.], [rx, ry, 150.], depth, r_, 2.]
        keep = [[x.copy() if hasattr(x, 'copy') else x for x in y]
                for y in args[:2]] + [x.copy() for x in args[2:4]]
        got = tmtemod.dipole(*args, a_, e_, u_, 0)
        R.ev()
        R.tr()
        R.state((ns, nr))
        for x, y in zip(args[:2], keep[:2]):
            if any(not np.array_equal(p, q) for p, q in zip(x, y)):
                R.fail('input', 'coordinates changed')
        if not (np.array_equal(args[2], keep[2]) and
                np.array_equal(args[3], keep[3])):
            R.fail('input', 'model changed')
        shp = tuple(x for x in (nr, ns) if x > 1)
        for mode in (0, 1):
            for n in range(5):
                if np.shape(got[mode][n]) != shp:
                    R.fail('shape', f'{ns}, {nr}: {np.shape(got[mode][n])}')
                    return
                x = np.reshape(got[mode][n], (nr, ns))
                for k, l in itertools.product(range(nr), range(ns)):
                    one = tmtemod.dipole([sx[l], sy[l], 50.],
                                         [rx[k], ry[k], 150.], depth, r_,
                                         2., a_, e_, u_, 0)
                    R.ev()
                    R.outcome(float('%.2g' % abs(x[k, l])))
                    hx.cmp(R, 'single', f'{ns},{nr} {mode} {n}', x[k, l],
                           one[mode][n], abs(x[k, l]))
    # Defaults are ones.
    one = np.ones(3)
    b = tmtemod.dipole([0, 0, 50.], [100, 30, 150.], depth, r_, 2., verb=0)
    for kw in itertools.product((None, one, [1, 1, 1]), repeat=3):
        g = tmtemod.dipole([0, 0, 50.], [100, 30, 150.], depth, r_, 2., *kw,
                           verb=0)
        R.ev()
        R.state(('default', str(kw)))
        for mode in (0, 1):
            if not np.allclose(g[mode], b[mode], rtol=1e-12, atol=0):
                R.fail('default', f'{kw}')
