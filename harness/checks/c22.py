"""C22: wavenumber-domain routine.

Every model of an alphabet x positions x component pairs x domains: the
returned kernels against an independent transmission-line solution, wavenumber
by wavenumber; their digital-filter transform against the space-domain
routine; all sizes of the inputs, together and one by one.
"""
import itertools
import warnings
import numpy as np
import empymod
import ref
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of layer stacks x positions x component '
             'pairs x domains x sizes on the real code; independent '
             'transmission-line kernels, and conformance of the transformed '
             'kernels with the space-domain routine')
NOTE = ('All 1- to 3-layer stacks over 3 (5) materials, 4-layer stacks over '
        '2 (3), all position pairs incl. interfaces, 36 component pairs, 2 '
        'frequencies and 2 Laplace values, 7 wavenumbers, 3 azimuths; all '
        'sizes of frequencies, offsets and (1-D, 2-D) wavenumbers to 3.')
WARM = 'cf'
RULE = 'one state per (model, positions, component pair, domain, azimuth)'
BOUNDS = {'quick': '1-3 layers over 3 materials, 4 over 2',
          'thorough': '1-3 layers over 5 materials, 4 over 3'}
ASSUMPTIONS = ['kernels are judged relative to the sum of the magnitudes of '
               'the up- and downgoing terms (1e-9)']
WN = np.array([1e-6, 1e-4, 3e-3, .02, .11, .4, 1.])
ANG = [0., .6, 2.5]


def models(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        out += list(itertools.product(range(3 if q else 5), repeat=n))
    out += list(itertools.product(range(2 if q else 3), repeat=4))
    return out


def cases(tier):
    out = []
    for m in models(tier):
        out += [{'k': 'kern', 'm': list(m), 'dom': d} for d in 'fs']
    for ab in hx.ABS:
        out.append({'k': 'sizes', 'ab': ab})
        out.append({'k': 'transform', 'ab': ab})
    return out


def run_case(c, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def expected(co, kap, r, th):
    """J0 and J1 kernels from angular harmonics, with scales."""
    coef, mag = co
    a = [0, 0]
    s = [0, 0]
    for n, x in coef.items():
        f = kap/(2*np.pi)*1j**abs(n)*np.exp(1j*n*th)
        fm = kap/(2*np.pi)*mag[n]
        if abs(n) == 0:
            a[0], s[0] = a[0]+f*x, s[0]+fm
        elif abs(n) == 1:
            a[1], s[1] = a[1]+f*x, s[1]+fm
        else:                              # J2(x) = 2/x J1(x) - J0(x)
            a[0], s[0] = a[0]-f*x, s[0]+fm
            a[1], s[1] = a[1]+f*x*2/(kap*r), s[1]+fm*2/(kap*r)
    return a, s


def _kern(c, R):
    M = hx.Model(c['m'])
    freq = hx.FREQ[c['dom']]
    pars = ref.params(freq, *M.par)
    r = 220.
    n = len(M.zpos)
    for i, j in itertools.product(range(n), repeat=2):
        zs, zr = M.zpos[i], M.zpos[j]
        K = ref.kernels(WN, zs, zr, M.depth, *pars)
        for ab in hx.ABS:
            co = ref.dipole_coefs(ab, WN, zs, zr, M.depth, *pars, K=K)
            if zs == zr and M.m and abs((ab-11) % 10 - (ab//10-1)) < 99:
                pass
            # All azimuths in one call.
            x = [10+r*np.cos(t) for t in ANG]
            y = [-5+r*np.sin(t) for t in ANG]
            got = empymod.dipole_k([10., -5., zs], [x, y, zr], freq=freq,
                                   wavenumber=WN, ab=ab, verb=0, **M.kw)
            R.ev()
            R.tr(2*len(ANG))
            tag = f'{c["m"]} {c["dom"]} {zs} {zr} ab={ab}'
            for k, t in enumerate(ANG):
                R.state((tag, t))
                if co[0]:
                    a, s = expected(co, WN, r, t)
                else:
                    a = s = [0, 0]
                for b in (0, 1):
                    g = np.asarray(got[b])
                    shp = (len(freq), len(ANG), WN.size)
                    if g.shape != shp:
                        R.fail('shape', f'{tag}: {g.shape} instead of {shp}')
                        return
                    w = np.zeros((len(freq), WN.size))+a[b]
                    R.outcome((b, bool(np.any(w != 0))))
                    hx.cmp(R, f'J{b}', f'{tag} azimuth {t} J{b}', g[:, k],
                           w, np.zeros(w.shape)+s[b], stol=1e-9)
                    R.trace()


def _sizes(c, R):
    """Together as one by one; shapes; 1-D and 2-D wavenumbers."""
    ab = c['ab']
    M = hx.Model([2, 1, 3])
    zs, zr = M.zpos[2], M.zpos[4]
    F = [.5, 30., 2.]
    X, Y = np.array([300., -150., 40.]), np.array([20., 90., -400.])
    one = {}

    def single(f, i, k):
        if (f, i, k) not in one:
            o = empymod.dipole_k([0, 0, zs], [X[i], Y[i], zr], freq=f,
                                 wavenumber=np.array([k]), ab=ab, verb=0,
                                 **M.kw)
            R.ev()
            one[f, i, k] = [complex(np.squeeze(x)) for x in o]
        return one[f, i, k]
    W = [.003, .05, .4, .02, .009, .11]
    for nf, no, wsh in itertools.product(
            (1, 2, 3), (1, 2, 3), ((1,), (2,), (3,), (1, 1), (1, 3), (2, 1),
                                   (2, 2), (3, 2), (2, 3))):
        if no > 1 and len(wsh) == 2 and wsh[0] != 1:
            continue
        w = np.array(W[:int(np.prod(wsh))]).reshape(wsh)
        for dom in (1, -1):
            f = dom*np.array(F[:nf])
            got = empymod.dipole_k([0, 0, zs], [X[:no], Y[:no], zr], freq=f,
                                   wavenumber=w, ab=ab, verb=0, **M.kw)
            R.ev()
            R.tr()
            R.state((ab, nf, no, wsh, dom))
            w2 = np.atleast_2d(w)
            full = (nf, no, w.size) if no > 1 or w.ndim == 1 else (
                nf,)+w2.shape
            shp = tuple(x for x in full if x > 1)
            for b in (0, 1):
                tag = f'ab={ab} J{b} sizes {nf}, {no}, {wsh} {dom}'
                if np.shape(got[b]) != shp:
                    R.fail('shape', f'{tag}: {np.shape(got[b])} instead of '
                           f'{shp}')
                    continue
                g = np.reshape(got[b], full)
                R.outcome((b, bool(np.any(g != 0))))
                for i, j, k in np.ndindex(*full):
                    if no > 1 or w.ndim == 1:
                        s = single(f[i], j, w.ravel()[k])[b]
                    else:
                        s = single(f[i], 0, w2[j, k])[b]
                    hx.cmp(R, 'single', f'{tag} {i},{j},{k}', g[i, j, k], s,
                           0., rtol=1e-12)
                    R.trace()
    # Several sources: order as in the space-domain routine.
    got = empymod.dipole_k([X[:2], Y[:2], zs], [X[::-1], Y[::-1]+7, zr],
                           freq=2., wavenumber=np.array([.02, .1]), ab=ab,
                           verb=0, **M.kw)
    for s in range(2):
        for q in range(3):
            o = empymod.dipole_k([X[s], Y[s], zs], [X[2-q], Y[2-q]+7, zr],
                                 freq=2., wavenumber=np.array([.02, .1]),
                                 ab=ab, verb=0, **M.kw)
            R.ev()
            R.tr()
            for b in (0, 1):
                hx.cmp(R, 'sources', f'ab={ab} {s} {q} J{b}',
                       got[b][s*3+q], o[b], 0., rtol=1e-12)


def _transform(c, R):
    """Filter transform of the kernels is the space-domain response."""
    ab = c['ab']
    f = empymod.filters.Hankel().key_201_2009
    for m in ([0], [2, 1], [1, 0, 3], [3, 2, 1, 0]):
        M = hx.Model(m)
        n = len(M.zpos)
        for i, j in itertools.product(range(n), repeat=2):
            for freq in (2., -2.):
                zs, zr = M.zpos[i], M.zpos[j]
                src, rec = [10., 4., zs], [160., -75., zr]
                off = np.hypot(150, 79)
                lam = f.base/off
                k0, k1 = empymod.dipole_k(src, rec, freq=freq, wavenumber=lam,
                                          ab=ab, verb=0, **M.kw)
                got = np.dot(k0, f.j0)/off + np.dot(k1, f.j1)/off
                sc = (np.sum(np.abs(k0*f.j0)) +
                      np.sum(np.abs(k1*f.j1)))/off
                want = empymod.dipole(src, rec, freqtime=freq, ab=ab, verb=0,
                                      xdirect=False, **hx.DLF, **M.kw)
                R.ev(2)
                R.tr()
                R.trace()
                R.state((ab, tuple(m), i, j, freq))
                R.outcome(bool(abs(got) > 0))
                hx.cmp(R, 'transform', f'{m} ab={ab} {zs} {zr} {freq}', got,
                       complex(want), sc, stol=1e-9)
