"""C01: layered-earth response equals an independent solution.

Exhaustive over: every tuple of layer materials up to a number of layers, every
pair of source and receiver positions (inside each layer and on each interface)
of that model, both domains (frequency, Laplace), all 36 component pairs.
"""
import itertools
import numpy as np
import empymod
import ref

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of layer stacks x positions x component '
             'pairs; transmission-line reference model')
NOTE = ('Every stack/position/component pair of the bounded alphabet is run '
        'on the real code and compared with an independent solver; nothing '
        'is said about parameter values or depths outside of the alphabet.')
WARM = 'cf'
RULE = ('every model over the material alphabet up to the layer bound x every '
        '(source, receiver) position pair x every component pair x domain; '
        'non-trivial when the reference field is not identically zero')
BOUNDS = {
    'quick': 'all 1-3 layer stacks over 3 materials, all 4-layer stacks over '
             '2, alternating 5-layer stacks; 2 frequencies, 2 Laplace values, '
             '3 receivers per call',
    'thorough': 'all 1-3 layer stacks over 5 materials, all 4-layer stacks '
                'over 3, all 5-layer stacks over 2; both depth orders of '
                'length scale (geophysical, ground-penetrating radar)',
}
ASSUMPTIONS = [
    'agreement is judged relative to the sum of the absolute filter terms '
    '(2e-8), the numerical floor of a digital linear filter',
]
# res, aniso, epermH, epermV, mpermH, mpermV
MAT = [
    (0.3, 1.0, 1.0, 1.0, 1.0, 1.0),        # sea water
    (20., 1.8, 9.0, 5.0, 1.3, 2.1),        # everything anisotropic
    (1e6, 1.0, 1.0, 1.0, 1.0, 1.0),       # air
    (1.5, 0.6, 4.0, 8.0, 3.0, 1.0),        # magnetic, lambda < 1
    (500., 1.0, 80., 80., 1.0, 0.9),
]
ABS = [i*10+j for i in range(1, 7) for j in range(1, 7)]
FILT = ref.load_filter('key_201_2009')


def models(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        out += list(itertools.product(range(3 if q else 5), repeat=n))
    out += list(itertools.product(range(2 if q else 3), repeat=4))
    if q:
        out += [(2, 1, 0, 1, 3), (0, 1, 3, 1, 0)]
    else:
        out += list(itertools.product((1, 3), repeat=5))
    return out


def cases(tier):
    out = []
    for m in models(tier):
        for sc in ['geo', 'gpr'] if tier != 'quick' or len(m) < 3 else ['geo']:
            for dom in ('f', 's'):
                npos = 2*len(m)-1 if len(m) > 1 else 1
                if len(m) == 1 or len(m) > 3 or tier != 'quick':
                    # one case per source position: balance the work
                    for isrc in range(npos):
                        out.append({'m': m, 'sc': sc, 'dom': dom, 'is': isrc})
                else:
                    out.append({'m': m, 'sc': sc, 'dom': dom, 'is': -1})
    return out


def positions(n, f):
    inter = np.array([0, 150, 420, 800])[:n-1]*f
    if n == 1:
        return inter, [35*f]
    zs = [-60*f]
    for i in range(n-1):
        zs.append(float(inter[i]))
        nxt = inter[i+1] if i+1 < n-1 else inter[i]+220*f
        zs.append(float(inter[i]+0.37*(nxt-inter[i])))
    return inter, zs


def run_case(c, R):
    m = c['m']
    n = len(m)
    f = 1. if c['sc'] == 'geo' else 1e-2
    inter, zpos = positions(n, f)
    freq = np.array([0.7, 350.]) if c['sc'] == 'geo' else np.array([2e6, 9e7])
    if c['dom'] == 's':
        freq = -freq
    par = np.array([MAT[i] for i in m]).T
    res, an, eH, eV, mH, mV = par
    pars = ref.params(freq, *par)
    src0 = np.array([12., -31.])*f
    recx = np.array([310., -190., 12.])*f
    recy = np.array([95., -330., 250.])*f
    srcs = zpos if c['is'] < 0 else [zpos[c['is']]]
    # an additional second position in the source layer
    recs = zpos + [zpos[0]-33*f, zpos[-1]+47*f]
    for zs in srcs:
        for zr in recs:
            # reference
            refs = []
            for x, y in zip(recx, recy):
                dx, dy = x-src0[0], y-src0[1]
                r, th = np.hypot(dx, dy), np.arctan2(dy, dx)
                kap = FILT[0]/r
                K = ref.kernels(kap, zs, zr, inter, *pars)
                refs.append((r, th, kap, K))
            for ab in ABS:
                out = empymod.dipole(
                    [src0[0], src0[1], zs], [recx, recy, zr], inter, res,
                    freq, ab=ab, aniso=an, epermH=eH, epermV=eV, mpermH=mH,
                    mpermV=mV, ht='dlf', htarg={'dlf': 'key_201_2009'},
                    loop=None, xdirect=False, verb=0)
                out = np.asarray(out).reshape(2, 3)
                R.ev()
                for i, (r, th, kap, K) in enumerate(refs):
                    coef = ref.dipole_coefs(ab, kap, zs, zr, inter, *pars,
                                            K=K)
                    if coef[0]:
                        v, s = ref.hankel(coef, kap, *FILT, r, th)
                    else:
                        v = s = np.zeros(2)
                    err = np.abs(out[:, i]-v)
                    tol = 2e-8*s+1e-9*np.abs(v)+1e-200
                    R.note('err_over_scale', np.max(err/(s+1e-200)))
                    R.note('err_over_tol', np.max(err/tol))
                    if not np.all(err <= tol):
                        R.fail(f'ab{ab}', f'model {m} {c} zs={zs} zr={zr} '
                               f'ab={ab} rec={i}: code {out[:, i]} reference '
                               f'{v} scale {s}')
                R.tr()
                R.trace()
                R.state((m, c['sc'], c['dom'], zs, zr, ab), bool(coef[0]))
                R.outcome(('zero' if not coef[0] else 'nz',
                           complex(out[0, 0]).__repr__()))
