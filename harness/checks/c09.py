"""C09: Fourier transforms give the impulse and step responses.

Part A drives the Fourier stage (utils.check_time + model.tem) with spectra
whose inverse transforms are known in closed form, for every method x setting x
signal x form/order of the times.  Part B compares complete time-domain dipole
responses with a Talbot inversion of the independent reference solution.
"""
import itertools
import json
import os
import numpy as np
import empymod
import ref
from empymod import model, utils
from hx import Model, ABS, DLF, cmp
from scipy import special

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of Fourier method x setting x signal x '
             'spectrum x order of times on the real code; closed-form '
             'transform pairs and an independent Talbot inversion of the '
             'reference solution as oracle')
NOTE = ('All catalogued Fourier filters x point spacings x kind, QWE/QUAD, '
        'FFTLog and FFT settings x 3 signals x 4 spectra with known inverse; '
        'layered-earth responses of 36 component pairs x methods x signals '
        'against Talbot inversion; on + off = static; subsets and '
        'permutations of the times.')
WARM = 'cf'
RULE = ('state = (method, setting, signal, spectrum or model and component '
        'pair, times); non-trivial if the exact response is not zero')
BOUNDS = {'quick': '14 times, 4 spectra; 2 models', 'thorough':
          '14 times, 4 spectra; 5 models, more settings'}
FILT = ref.load_filter('key_201_2009')
T = np.logspace(-2, 1, 13)
A1, A2, TAU = 2.0, 0.25, 0.5


def p_exp(a):
    return (lambda s: 1/(s+a), lambda t, sig:
            {0: np.exp(-a*t), 1: (1-np.exp(-a*t))/a,
             -1: np.exp(-a*t)/a}[sig])


def p_erf(tau):
    return (lambda s: np.exp(-np.sqrt(s*tau)), lambda t, sig:
            {0: np.sqrt(tau)/(2*np.sqrt(np.pi)*t**1.5)*np.exp(-tau/4/t),
             1: special.erfc(np.sqrt(tau/4/t)),
             -1: special.erf(np.sqrt(tau/4/t))}[sig])


def p_mix():
    """Sign change: difference of two decays."""
    f1, e1 = p_exp(A1)
    f2, e2 = p_exp(5.)
    return (lambda s: 2*f1(s)-7*f2(s),
            lambda t, sig: 2*e1(t, sig)-7*e2(t, sig))


PAIRS = {'exp': p_exp(A1), 'slow': p_exp(A2), 'erf': p_erf(TAU),
         'mix': p_mix()}
STATIC = {k: float(np.real(v[0](0.))) for k, v in PAIRS.items()}

# Accuracy of every method and setting on these pairs, relative to the maximum
# of the exact response (tools/mk_c09.py).
with open(os.path.join(os.path.dirname(ref.__file__),
                       'c09_accuracy.json')) as _f:
    ACC = json.load(_f)


def akey(ft, arg, sig, pair):
    """Name of an entry of the accuracy table."""
    arg = dict(arg)
    if ft == 'dlf' and sig:
        arg['kind'] = 'sin' if sig > 0 else 'cos'
    return f'{ft} {json.dumps(arg, sort_keys=True)} {sig} {pair}'


def settings(tier):
    q = tier == 'quick'
    out = []

    def add(ft, arg, pairs=None, sigs=(0, 1, -1), split=False, times=None):
        pairs = pairs or sorted(PAIRS)
        for pp in ([[x] for x in pairs] if split else [pairs]):
            out.append({'ft': ft, 'arg': arg, 'pairs': pp, 'sigs': list(sigs),
                        'times': times or sorted(TIMES)})
    for f in sorted(empymod.filters.Fourier().available):
        fo = getattr(empymod.filters.Fourier(), f)
        for ppd in (0, -1, 20, 50) if q else (0, -1, 12, 20, 35, 50, 90):
            for kind in ('sin', 'cos'):
                if hasattr(fo, kind):
                    add('dlf', {'dlf': f, 'pts_per_dec': ppd, 'kind': kind},
                        None, (0, 1) if kind == 'sin' else (0, -1))
    # the kind is dictated by the signal for steps
    f = 'key_201_2012'
    add('dlf', {'dlf': f, 'pts_per_dec': 0, 'kind': 'sin'}, None, (-1,))
    add('dlf', {'dlf': f, 'pts_per_dec': 0, 'kind': 'cos'}, None, (1,))
    add('dlf', {})
    for arg in ({}, {'pts_per_dec': 60}, {'rtol': 1e-6}, {'nquad': 51},
                {'maxint': 100, 'atol': 1e-12}):
        add('qwe', arg, split=True, times=['perm', 'sorted'])
    add('qwe', {'diff_quad': 1, 'limit': 500, 'a': 1e-5, 'b': 5e3},
        split=True, times=['short'])
    add('qwe', {'diff_quad': 1, 'limit': 800}, split=True, times=['short'])
    w = {'pts_per_dec': 40, 'add_dec': [-5, 5]}
    add('fftlog', w)
    add('fftlog', {'pts_per_dec': 41, 'add_dec': [-5, 4.9]})
    for x in (-.5, -.2, .2, .5, 1., 2.):
        add('fftlog', {**w, 'q': x})
    add('fftlog', {})
    d = {'dfreq': .0005, 'nfreq': 2**16, 'ntot': 2**17, 'pts_per_dec': 40}
    add('fft', d, split=True)
    add('fft', {'dfreq': .002, 'nfreq': 2**16}, split=True)
    add('fft', {'dfreq': .002, 'nfreq': 50000, 'ntot': 2**17}, split=True)
    return out


def indices(ft, tn):
    ind = TIMES[tn]
    if ft == 'fftlog' and tn in ('sub', 'one', 'short'):
        return None             # range of the transform depends on the times
    if ft == 'fft':
        return [i for i in ind if T[i] >= 0.05]
    return ind


TIMES = {'sorted': list(range(13)), 'perm': [7, 2, 12, 0, 9, 4, 11, 1, 6, 3,
                                             10, 5, 8],
         'sub': [3, 4, 9], 'one': [6], 'short': [8, 2, 5]}


def cases(tier):
    out = [{'A': s} for s in settings(tier)]
    q = tier == 'quick'
    ms = [(0, 5), (5, 0, 5)] if q else [(5,), (0, 5), (5, 0), (5, 0, 5),
                                        (0, 5, 0)]
    for m in ms:
        n = len(m)
        for a, b in itertools.product(range(2*n-1), repeat=2):
            out.append({'B': m, 'za': a, 'zb': b, 'q': q})
    return out


def trans(pair, t, sig, ft, arg, cols=1):
    time, freq, ft, targ, s = utils.check_time(t, sig, ft, dict(arg), 0, True)
    f = PAIRS[pair][0](2j*np.pi*np.ravel(freq))
    fEM = f[:, None]*np.arange(1, cols+1)[None, :]
    off = np.arange(1., cols+1)
    out, conv = model.tem(fEM, off, freq, time, s, ft, targ)
    return out, conv


def run_case(c, R):
    if 'B' in c:
        return layered(c, R)
    c = c['A']
    ft, arg = c['ft'], c['arg']
    for pair, sig in itertools.product(c['pairs'], c['sigs']):
        k = akey(ft, arg, sig, pair)
        if k not in ACC:
            continue
        tol = ACC[k]
        ex = PAIRS[pair][1](T, sig)
        base = None
        for tn in sorted(c['times'], key=lambda x: x != 'sorted'):
            ind = indices(ft, tn)
            if ind is None:
                continue
            t = T[ind]
            e = ex[ind]
            out, conv = trans(pair, t, sig, ft, arg, 3)
            sc = np.max(np.abs(ex))
            for k in range(3):
                got, want = out[:, k]/(k+1), e
                key = f'{ft} {pair} sig{sig}'
                msg = f'{c} {pair} signal={sig} times {tn} column {k}'
                if ft == 'fft' and sig != 0:
                    # Known: zero-frequency part of the step missing.
                    st = STATIC[pair]
                    if np.all(np.abs(got-want) < tol*sc):
                        pass
                    elif cmp(R, key+' fft-other', msg, got, want-st/2, sc,
                             rtol=0, stol=tol, name='fftstep'):
                        R.fail('fft-step', f'{msg}: {got[:3]} expected '
                               f'{want[:3]}')
                    continue
                cmp(R, key, msg, got, want, sc, rtol=0, stol=tol,
                    name=f'{ft}{"" if sig else " imp"}')
            cmp(R, f'{ft} columns', f'{c} {pair} {sig} {tn}', out[:, 1:],
                out[:, :1]*np.array([2., 3.]), np.max(np.abs(out)),
                rtol=1e-9, stol=1e-10+(tol if ft == 'qwe' else 0.02*tol),
                name='columns')
            if tn == 'sorted':
                base = out
            elif base is None:
                pass
            elif ft == 'fft' or arg.get('pts_per_dec') == 0 or tn == 'perm':
                bb = base if ft != 'fft' else np.full((13, 3), np.nan)
                if ft == 'fft':
                    keep = [i for i in range(13) if T[i] >= 0.05]
                    bb[keep] = base
                cmp(R, f'{ft} times', f'{c} {pair} {sig} {tn}', out, bb[ind],
                    sc*3, rtol=1e-10, stol=1e-10+0.02*tol, name='times')
            R.ev()
            R.tr()
            R.trace()
            R.state((ft, arg, pair, sig, tn))
            R.outcome(float(out[0, 0]))
        if ft == 'qwe' and pair == 'exp':
            R.outcome(bool(conv))


# ------------------------------------------------------------------ part B
NT = 12


def talbot_nodes(t):
    """Modified Talbot contour (Trefethen, Weideman & Schmelzer 2006)."""
    N = 2*NT
    th = -np.pi+(np.arange(N)+.5)*2*np.pi/N
    th = th[th > 0]
    s = N/t*(-0.6122+0.5017*th/np.tan(0.6407*th)+0.2645j*th)
    d = N/t*(0.5017/np.tan(0.6407*th)-0.5017*0.6407*th/np.sin(0.6407*th)**2 +
             0.2645j)
    # (1/(2 pi i)) int e^{st} F ds; upper half of a symmetric contour
    return s, np.exp(s*t)*d/(1j*N)*2


def ref_params(s, par):
    """eta, zeta for complex Laplace parameters s."""
    res, an, eH, eV, mH, mV = par
    cond, condv = 1/res, 1/(res*an**2)
    eh = cond[:, None]+0*s[None, :]
    ev = condv[:, None]+0*s[None, :]
    zh = s[None, :]*mH[:, None]*ref.MU0
    zv = s[None, :]*mV[:, None]*ref.MU0
    return eh, ev, zh, zv


def layered(c, R):
    M = Model(c['B'])
    # Diffusive approximation: no permittivities.
    M.par[2] = 0
    M.par[3] = 0
    za, zb = M.zpos[c['za']], M.zpos[c['zb']]
    if za == zb:
        zb += 11.
    a, b = [12., -31., za], [222., 64., zb]
    t = np.array([0.01, 0.1, 1., 5e-4*20])[[2, 0, 1]]
    t = np.r_[t, 3e-3]
    nodes = [talbot_nodes(x) for x in t]
    s = np.concatenate([n[0] for n in nodes])
    s = np.r_[s, 1e-9]
    pars = ref_params(s, M.par)
    dx, dy = b[0]-a[0], b[1]-a[1]
    r, th = np.hypot(dx, dy), np.arctan2(dy, dx)
    kap = FILT[0]/r
    K = ref.kernels(kap, float(za), float(zb), M.depth, *pars)
    kw = M.kw
    if c['q']:
        runs = [('dlf', {}), ('dlf', {'pts_per_dec': 0}),
                ('qwe', {}), ('fftlog', {'pts_per_dec': 40,
                                         'add_dec': [-5, 5], 'q': -.5})]
    else:
        runs = [('dlf', {}), ('dlf', {'pts_per_dec': 0}),
                ('dlf', {'pts_per_dec': 30}),
                ('dlf', {'dlf': 'key_241_2009', 'kind': 'cos'}),
                ('dlf', {'dlf': 'key_81_2009'}),
                ('qwe', {}), ('qwe', {'pts_per_dec': 40}),
                ('fftlog', {'pts_per_dec': 40, 'add_dec': [-5, 5],
                            'q': -.5}),
                ('fftlog', {'pts_per_dec': 25, 'add_dec': [-5, 5]})]
    for ab in ABS:
        if c['q'] and ab % 3 == (c['za']+c['zb']) % 3:
            continue
        co = ref.dipole_coefs(ab, kap, za, zb, M.depth, *pars, K=K)
        if not co[0]:
            v = np.zeros(s.size)
        else:
            v, _ = ref.hankel(co, kap, *FILT, r, th)
        st = float(np.real(v[-1]))
        want = {}
        for sig in (0, 1):
            w = np.array([np.real(np.sum(n[1]*v[i*NT:(i+1)*NT] /
                                         (1 if sig == 0 else n[0])))
                          for i, n in enumerate(nodes)])
            want[sig] = w
        want[-1] = st-want[1]
        for (ft, arg), sig in itertools.product(runs, (0, 1, -1)):
            if ft != 'dlf' and c['q'] and (ab+c['za']+3*c['zb']) % 6:
                continue
            if ft == 'qwe' and not c['q'] and (ab+c['za']+3*c['zb']) % 3:
                continue
            if sig == -1 and ab//10 > 3 and ab % 10 > 3:
                continue    # no static limit for a magnetic source current
            if sig == 0 and ab//10 > 3 and ab % 10 > 3 and 'kind' in arg:
                continue    # dito
            if ft == 'fftlog' and sig == -1 and arg.get('q') == -.5:
                arg = {**arg, 'q': 0}
            got = empymod.dipole(a, b, freqtime=t, signal=sig, ab=ab,
                                 xdirect=False, verb=0, ft=ft, ftarg=arg,
                                 **kw, **DLF)
            sc = np.max(np.abs(want[sig]))
            if sig != 0:
                sc = max(sc, abs(st))
            tol = 5e-3 if ft != 'dlf' or 'dlf' in arg else 5e-4
            if (sig and ft == 'fftlog') or (ft == 'dlf' and
                                            arg.get('pts_per_dec') != 0):
                tol = 2e-2
            cmp(R, f'layered {ft} sig{sig} ab{ab}', f'{c} {ft} {arg} {ab}',
                got, want[sig], sc, rtol=0, stol=tol,
                name=f'lay-{ft}-{sig}')
            R.ev()
            R.tr()
            R.trace()
            R.state((c['B'], c['za'], c['zb'], ft, arg, sig, ab), sc > 0)
        R.outcome(float(want[0][0]))
