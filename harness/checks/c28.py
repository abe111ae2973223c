"""C28: radar traces are the filtered transform of the response.

(comp) gpr equals, for every receiver and source, the FFT of the individually
       computed dipole spectrum times the wavelet, times the gain.
(true) gpr equals the Fourier integral (direct summation over the spectrum of
       the reference implementation) to the accuracy of the FFT method.
(lin)  Invariances: times in any order and number, loops, verbosity.
"""
import contextlib
import io
import itertools
import warnings
import numpy as np
import empymod
from empymod import transform
import hx
import ref

LEVEL = 'model_checking'
TECHNIQUE = ('bounded-exhaustive enumeration of models, components, survey '
             'sizes, gains, centre frequencies, times and settings on the '
             'real code; oracles: explicit composition of individual spectra, '
             'and the Fourier integral of a reference implementation')
NOTE = ('All ab x models x (up to 3 receivers x 3 sources) x gains x centre '
        'frequencies x number and order of times x FFT and Hankel settings.')
WARM = 'cf'
RULE = 'one state per (model, ab, survey, gain, cf, times, settings)'
BOUNDS = {'quick': '3 models, 36 ab, 4 surveys, 6 gains, 3 cf',
          'thorough': '9 models, 36 ab, 9 surveys, 8 gains, 3 cf'}
ASSUMPTIONS = ['FFT method as documented (other methods are documented not '
               'to work for this routine)',
               'the FFT method itself: C09; the spectrum: C01']

GAINS = [None, 0, 1, 2, -1, .5, -2.5, 3.3]
SURV = [(1, 1), (3, 1), (1, 2), (2, 3), (2, 2), (1, 3), (3, 3), (2, 1),
        (3, 2)]
F = .005                        # model scale: metres


def cases(tier):
    q = tier == 'quick'
    ms = [(2, 1), (1, 3, 4), (4,)] if q else [
        (2, 1), (1, 3, 4), (4,), (1,), (0, 2), (2, 4, 1, 3), (5, 1), (3, 4),
        (4, 2, 4)]
    out = [{'k': 'comp', 'm': m, 's': s, 'n': 6 if q else 8}
           for m in ms for s in (SURV[:4] if q else SURV)]
    out += [{'k': 'true', 'm': m, 'z': z} for m in ms for z in (0, 1)]
    out += [{'k': 'lin', 'm': m} for m in ms]
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def survey(M, nrec, nsrc):
    z = M.zpos
    sx, sy = F*np.array([3., -40., 25.]), F*np.array([2., 17., -31.])
    rx, ry = F*np.array([400., 330., 250.]), F*np.array([30., -260., 0.])
    return ([sx[:nsrc], sy[:nsrc], z[-1]*.9],
            [rx[:nrec], ry[:nrec], z[1] if len(z) > 1 else z[0]*1.5])


def wave(f, cf):
    x = (np.concatenate(([0.], f[:-1]))/cf)**2
    return -x*np.exp(-x)


def fftarg(d):
    d = dict({'dfreq': .002, 'nfreq': 2048, 'pts_per_dec': None}, **d)
    d.setdefault('ntot', int(2**np.ceil(np.log2(d['nfreq']))))
    if d['pts_per_dec']:
        a, b = np.log10(d['dfreq']), np.log10(d['nfreq']*d['dfreq'])
        f = np.logspace(a, b, int((b-a)*d['pts_per_dec']+1))
    else:
        f = np.arange(1, d['nfreq']+1)*d['dfreq']
    return d, f


FT = [{'dfreq': 5e6, 'nfreq': 40}, {'dfreq': 4e6, 'nfreq': 50, 'ntot': 128},
      {'dfreq': 3e6, 'nfreq': 100, 'pts_per_dec': 12}]
TIMES = [[2.4e-8], [4e-8, .9e-8, 2.2e-8]]


def expect(M, src, rec, ab, t, cf, gain, ftarg, **kw):
    """Composition of individual spectra; and scale of the trace."""
    d, f = fftarg(ftarg)
    nr, ns = np.size(rec[0]), np.size(src[0])
    t = np.atleast_1d(t)
    out, sc = np.zeros((t.size, nr, ns)), np.zeros((t.size, nr, ns))
    dense = np.linspace(0, 5e-8, 101)
    for i, j in itertools.product(range(nr), range(ns)):
        s = [float(np.atleast_1d(src[0])[j]), float(np.atleast_1d(src[1])[j]),
             src[2]]
        r = [float(np.atleast_1d(rec[0])[i]), float(np.atleast_1d(rec[1])[i]),
             rec[2]]
        E = np.array(empymod.dipole(s, r, freqtime=f, ab=ab, verb=0, **kw,
                                    **M.kw)).ravel()*wave(f, cf)
        tt = np.r_[t, dense]
        y = transform.fourier_fft(E, tt, f, d)[0]*2/np.pi
        out[:, i, j] = y[:t.size]
        sc[:, i, j] = np.max(np.abs(y))
    if gain is not None:
        g = (1+np.abs(np.power(t*1e9, float(gain))))[:, None, None]
        out, sc = out*g, sc*g
    return out, sc


def _comp(c, R):
    M = hx.Model(c['m'], F)
    nr, ns = c['s']
    src, rec = survey(M, nr, ns)
    for iab, ab in enumerate(hx.ABS):
        for ift, ftarg in enumerate(FT):
            for ht, xd in (('dlf', False), ('dlf', True), ('dlf', None)):
                if (iab+ift) % 3 and xd is not False:
                    continue
                kw = dict(ht=ht, htarg={'dlf': 'key_101_2009'}, xdirect=xd)
                for ic, cf in enumerate((3e7, 1.2e8, 1e9)):
                    t = TIMES[(iab+ift+ic) % 2]
                    base = expect(M, src, rec, ab, t, cf, None, ftarg, **kw)
                    for gain in GAINS[:c['n']]:
                        if (ic or ift) and gain not in (None, 2, -1):
                            continue
                        got = empymod.gpr(src, rec, freqtime=t, cf=cf,
                                          gain=gain, ab=ab, ft='fft', verb=0,
                                          ftarg=dict(ftarg), **kw, **M.kw)
                        R.ev()
                        R.tr(nr*ns*len(t))
                        R.trace()
                        R.state((c['m'], c['s'], ab, ift, xd, cf, gain),
                                ab not in (36, 63))
                        g = 1. if gain is None else (1+np.abs(np.power(
                            np.array(t)*1e9, float(gain))))[:, None, None]
                        want = np.squeeze(base[0]*g)
                        R.outcome((want.shape, gain))
                        if type(got) is not np.ndarray or \
                                got.dtype != np.float64:
                            R.fail('type', f'{c} ab={ab}: {type(got)} '
                                   f'{getattr(got, "dtype", "")}')
                        hx.cmp(R, 'comp', f'{c} ab={ab} {ftarg} cf={cf} '
                               f'gain={gain} t={t} xdirect={xd}', got, want,
                               scale=np.squeeze(base[1]*g), rtol=1e-9,
                               stol=1e-7)
                        if ab in (36, 63) and np.any(got):
                            R.fail('zero', f'{c} {ab}')


def _true(c, R):
    M = hx.Model(c['m'], F)
    z = M.zpos
    filt = ref.load_filter('key_101_2009')
    d = {'dfreq': 1e5, 'nfreq': 3000}
    _, f = fftarg(d)
    t = np.array([.4, .9, 1.5, 2.2, 3., 4., 5.5])*1e-8
    s = [0., 0., z[0] if c['z'] else z[-1]*.9]
    r = [F*300, F*120, z[-1]]
    if s[2] == r[2]:
        r[2] += .3
    tab = {}
    for i in range(0, f.size, 500):
        x = M.scale_table(s, r, f[i:i+500], filt)
        for ab in x:
            tab.setdefault(ab, []).append(x[ab][0])
    for ab, cf in itertools.product(hx.ABS, (6e7,)):
        E = np.concatenate(tab[ab])
        x = (f/cf)**2
        W = -x*np.exp(-x)
        tt = np.r_[t, np.linspace(0, 4e-7, 401)]
        want = 2*np.array([np.sum((E*W*np.exp(2j*np.pi*f*y)).real)
                           for y in tt])*d['dfreq']
        sc = np.max(np.abs(want))
        tp = tt[np.argmax(np.abs(want))]
        for gain in (None, 1.2):
            got = empymod.gpr(s, r, freqtime=t, cf=cf, gain=gain, ab=ab,
                              ht='dlf', htarg={'dlf': 'key_101_2009'},
                              ftarg=d, verb=0, **M.kw)
            g = 1. if gain is None else 1+(t*1e9)**gain
            R.ev()
            R.tr(t.size)
            R.trace()
            R.state((c['m'], c['z'], ab, cf, gain))
            # FFT: bins shifted by up to two
            tol = .075+10*np.pi*d['dfreq']*np.maximum(t, tp)
            hx.cmp(R, 'true', f'{c} ab={ab} cf={cf} gain={gain}', got,
                   want[:t.size]*g, scale=sc*g*tol, rtol=0., stol=1.,
                   name='true')


def _lin(c, R):
    M = hx.Model(c['m'], F)
    t0 = np.array([1e-8, 2e-8, 3e-8])
    for ab, (nr, ns) in itertools.product((11, 24, 33, 46, 62, 55), SURV[:4]):
        src, rec = survey(M, nr, ns)
        for ht, ftarg in itertools.product(
                ({'ht': 'dlf'}, {'ht': 'dlf', 'htarg': {'pts_per_dec': -1}},
                 {'ht': 'qwe', 'htarg': {'maxint': 15, 'nquad': 11}},
                 {'ht': 'dlf', 'htarg': {'pts_per_dec': 30}}),
                ({'dfreq': 2e7, 'nfreq': 8}, )):
            kw = dict(cf=1e8, ab=ab, ftarg=ftarg, gain=1.5, **ht, **M.kw)
            if ht['ht'] == 'qwe' and (ab not in (11, 46) or nr*ns > 2):
                continue
            base = empymod.gpr(src, rec, freqtime=t0, verb=0, **kw)
            base = base.reshape(3, nr, ns)
            sc = np.max(np.abs(base))
            w, s = expect(M, src, rec, ab, t0, 1e8, 1.5, ftarg, xdirect=False,
                          **ht)
            exact = ht.get('htarg', {}).get('pts_per_dec', 0) == 0 \
                and ht['ht'] == 'dlf'
            if exact or ht['ht'] == 'qwe':
                hx.cmp(R, 'lin comp', f'{c} {ab} {nr} {ns} {ht}', base, w,
                       scale=s, rtol=1e-9,
                       stol=1e-7 if exact else 2e-2)
            for n in (1, 2, 3):
                for p in itertools.permutations(range(3), n):
                    got = empymod.gpr(src, rec, freqtime=t0[list(p)], verb=0,
                                      **kw)
                    R.ev()
                    R.tr(n)
                    R.trace()
                    R.state((c['m'], ab, nr, ns, str(ht), p))
                    hx.cmp(R, 'times', f'{c} {ab} {nr} {ns} {ht} {p}', got,
                           np.squeeze(base[list(p)]), scale=sc, rtol=1e-12,
                           stol=1e-14)
            for var in ({'verb': 1}, {'verb': 3}, {'verb': 4},
                        {'loop': 'freq'}, {'loop': 'off'}, {'ft': 'FFT'},
                        {'epermV': None}, {'aniso': None}, {'gain': None},
                        {'xdirect': False}):
                v = dict({'verb': 0}, **kw)
                v.update(var)
                want, stol = base, 1e-12
                if 'loop' in var and not exact:
                    continue
                if 'aniso' in var or 'epermV' in var or 'gain' in var:
                    x = dict(v)
                    if 'gain' in var:
                        want = base/(1+(t0*1e9)**1.5)[:, None, None]
                        stol = 1e-12
                    else:
                        if 'aniso' in var:
                            x['aniso'] = np.ones_like(M.kw['res'])
                        else:
                            x['epermV'] = M.kw['epermH']
                        want = empymod.gpr(src, rec, freqtime=t0, **x)
                got = empymod.gpr(src, rec, freqtime=t0, **v)
                R.ev()
                R.tr()
                R.state((c['m'], ab, nr, ns, str(ht), str(var)))
                hx.cmp(R, 'variation', f'{c} {ab} {nr} {ns} {ht} {var}', got,
                       np.squeeze(want), scale=sc, rtol=1e-11, stol=stol)
    # Default settings of the Hankel and Fourier transforms.
    z = M.zpos
    s, r = [0., 0., z[-1]*.9], [F*300, F*120, z[0]]
    for ab in (11, 32, 65):
        ftarg = {'dfreq': 2e7, 'nfreq': 6}
        kw = dict(freqtime=t0, cf=1e8, ab=ab, ftarg=ftarg, verb=0, **M.kw)
        got = empymod.gpr(s, r, **kw)
        w, sc = expect(M, s, r, ab, t0, 1e8, None, ftarg, ht='quad',
                       xdirect=False)
        R.ev()
        R.trace()
        R.state((c['m'], ab, 'default'))
        hx.cmp(R, 'default', f'{c} {ab}', got, np.squeeze(w),
               scale=np.squeeze(sc), stol=1e-10)
