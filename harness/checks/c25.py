"""C25: missing convergence is always reported, and only then.

(inj)  Every SciPy quadrature of a call, one by one and in pairs, is made to
       report a failure (fault injection, with the real routines around it).
(seq)  QWE: its own sequence of extrapolations (obtained with a tolerance
       which is never reached) decides whether a call converges.
(any)  A call over several elements warns if and only if one of its elements
       does, for all subsets and orders.
(none) Methods without quadrature, and silent mode, never warn.
"""
import contextlib
import io
import itertools
import warnings
import numpy as np
import scipy.integrate
import empymod
from empymod import transform
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive fault injection (every quadrature and pair of '
             'quadratures of a call reports a failure) and exhaustive '
             'enumeration of tolerances, interval numbers and groups of '
             'elements on the real code; explicit model of the extrapolation '
             'sequence as oracle')
NOTE = ('All positions of one or two failing quadratures in calls of up to 48 '
        'quadratures through every routine; QWE: all numbers of intervals to '
        '14 x tolerances; all ordered groups of up to 3 elements.')
WARM = 'cf'
RULE = ('one state per (call, set of failing quadratures), (element, '
        'tolerances, intervals) or (group); non-trivial if something fails')
BOUNDS = {'quick': 'one and two failing quadratures; 11 intervals; 2 models',
          'thorough': 'up to three failing quadratures; 20 intervals; 4 '
          'models'}
ASSUMPTIONS = ['QWE which converges only at its very last interval may warn',
               'decisions closer than 1e-6 (relative) to the tolerance are '
               'not judged']

QWES = {'pts_per_dec': 15, 'diff_quad': 1e-12, 'maxint': 9, 'nquad': 5}
QUAD = {'pts_per_dec': 10, 'a': 1e-4, 'b': 1.}


def cases(tier):
    q = tier == 'quick'
    ms = [(2, 0, 1), (1, 3)] if q else [(2, 0, 1), (1, 3), (0,),
                                        (0, 5, 3, 1)]
    out = []
    for m in ms:
        for call in CALLS:
            for ht in ('quad', 'qwe'):
                out.append({'k': 'inj', 'm': m, 'c': call, 'ht': ht,
                            'n': 2 if q else 3})
        for ab in ([11, 33, 46, 62] if q else hx.ABS):
            for dom in 'fs':
                out.append({'k': 'seq', 'm': m, 'ab': ab, 'dom': dom,
                            'n': 11 if q else 20})
        for c in ('ab', 'off', 'freq', 'src', 'types'):
            out.append({'k': 'any', 'm': m, 'c': c})
    for sig in (0, 1, -1):
        out.append({'k': 'fseq', 'sig': sig, 'n': 11 if q else 20})
        out.append({'k': 'finj', 'sig': sig})
    out += [{'k': 'fany', 'sig': s} for s in (0, 1, -1)]
    out += [{'k': 'none', 'm': m} for m in ms]
    out += [{'k': 'mix', 'm': m} for m in (*ms, None)]
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def warned(f):
    """Names of the transforms for which f warns; result of f."""
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        out = f()
    low = [x for x in s.getvalue().split('*') if 'converge' in x]
    return {n for n in ('Hankel', 'Fourier') if any(n in x for x in low)}, \
        out, s.getvalue()


class Inject:
    """SciPy's quad replaced by a stand-in, failing at the given calls."""

    def __init__(self, fail=(), move=None, func=None):
        self.fail, self.move, self.n, self.func = set(fail), move, 0, func

    def __call__(self, func, a, b, *args, **kw):
        i = self.n
        self.n += 1
        v = .3+.01*i+(7. if i == self.move else 0.)
        out = (v, 1e-3, {'neval': 21})
        full = kw.get('full_output', args[1] if len(args) > 1 else 0)
        if i in self.fail:
            return (*out, 'injected: no convergence') if full else out[:2]
        return out if full else out[:2]

    def __enter__(self):
        self.old = scipy.integrate.quad
        self.names = [k for k, v in vars(transform).items() if v is self.old]
        scipy.integrate.quad = self
        for k in self.names:
            setattr(transform, k, self)
        return self

    def __exit__(self, *a):
        scipy.integrate.quad = self.old
        for k in self.names:
            setattr(transform, k, self.old)


def _fn(name, M, ht, verb=1):
    """A call by name, as function without arguments."""
    z = M.zpos
    s, r = [3., 2., z[0]], [40., 30., z[-1]]
    kw = dict(M.kw, verb=verb, ht=ht, htarg=dict(QUAD if ht == 'quad' else
                                                 QWES))
    two = [np.array([40., 9.]), np.array([30., -4.]), z[-1]]
    if name == 'dip11':
        return lambda: empymod.dipole(s, r, freqtime=2., ab=11, **kw)
    if name == 'dip33':
        return lambda: empymod.dipole(s, r, freqtime=[2., 9.], ab=33, **kw)
    if name == 'dip46':
        return lambda: empymod.dipole(s, two, freqtime=[2., 9.], ab=46, **kw)
    if name == 'diplap':
        return lambda: empymod.dipole(s, two, freqtime=-2., ab=24, **kw)
    if name == 'bip':
        return lambda: empymod.bipole([*s, 20., 30.], [*r, 50., -10.],
                                      freqtime=2., **kw)
    if name == 'bipfin':
        return lambda: empymod.bipole(
            [3., 8., 2., 4., z[0], z[0]], [*two[:2], two[2], 0., 0.],
            freqtime=2., srcpts=3, **kw)
    if name == 'biploop':
        return lambda: empymod.bipole(
            [*s, 0., 0.], [*two[:2], [z[-1], z[-1]+2.], 90., 0.],
            freqtime=[2., 9.], mrec=True, **kw)
    if name == 'loop':
        return lambda: empymod.model.loop([*s, 0., 90.], [*r, 0., 90.],
                                          freqtime=2., mrec=True, **kw)
    if name == 'time':
        return lambda: empymod.dipole(
            s, r, freqtime=.1, signal=0, ab=12, ft='dlf',
            ftarg={'dlf': 'key_81_2009', 'kind': 'cos', 'pts_per_dec': 1},
            **kw)
    if name == 'gpr':
        return lambda: empymod.gpr(
            s, r, freqtime=[2e-8, 3e-8], cf=2e8, ab=11,
            ftarg={'dfreq': 1e8, 'nfreq': 4, 'ntot': 8}, **kw)
    if name == 'ipq':
        return lambda: empymod.model.ip_and_q(src=s, rec=r, freqtime=2.,
                                              ab=66, **kw)


CALLS = ['dip11', 'dip33', 'dip46', 'diplap', 'bip', 'bipfin', 'biploop',
         'loop', 'time', 'gpr', 'ipq']


def _inj(c, R):
    M = hx.Model(c['m'] if len(c['m']) > 1 or c['c'] != 'ipq' else (0, 1))
    real = c['c'] in ('dip11', 'dip33', 'dip46', 'bip', 'bipfin', 'biploop')
    f = _fn(c['c'], M, c['ht'])
    with Inject() as inj:
        w, base, txt = warned(f)
        N = inj.n
    R.ev()
    R.note('quadratures', N)
    if w:
        R.fail('spurious', f'{c}: warning without failure: {txt}')
    if N == 0:
        R.note('not injectable', 1)
        return
    base = np.array(base)
    # Which quadratures have an effect only on the imaginary part (for the
    # known finding), from the result itself.
    imag = set()
    if real or c['c'] == 'time':
        for i in range(N):
            with Inject(move=i):
                d = np.array(warned(f)[1])-base
            R.ev()
            if real:
                if np.all(np.abs(d.real) <= 1e-9*np.abs(d)):
                    imag.add(i)
            elif c['c'] == 'time' and not np.any(d):
                imag.add(i)
    if c['c'] in ('diplap', 'ipq', 'gpr', 'loop'):
        # Not visible in the output: real and imaginary parts alternate.
        imag = {i for i in range(N) if i % 2}
    size = [1] + [n for n in range(2, c['n']+1)
                  if N**n/(1, 1, 2, 6)[n] < (2e3 if c['n'] < 3 else 1.2e4)]
    for n in size:
        for fail in itertools.combinations(range(N), n):
            with Inject(fail):
                w, g, txt = warned(f)
            R.ev()
            R.tr(N)
            R.trace()
            R.state((c['m'], c['c'], c['ht'], fail))
            R.outcome(tuple(sorted(w)))
            if not np.array_equal(np.array(g), base, equal_nan=True):
                R.fail('result', f'{c} {fail}: result differs')
            if 'Hankel' not in w:
                k = 'imag-only' if set(fail) <= imag else 'missed'
                R.fail(k, f'{c}: no warning although quadratures {fail} of '
                       f'{N} failed (imaginary parts: {sorted(imag)[:5]}..)')
            if 'Fourier' in w:
                R.fail('wrong name', f'{c} {fail}: {txt}')
    for fail in ((), (0,), tuple(range(N))):
        for v in (0, 1, 2, 4):
            if c['c'] == 'gpr' and v > 2:
                continue
            with Inject(fail):
                w, g, txt = warned(_fn(c['c'], M, c['ht'], v))
            R.ev()
            if bool(w) != bool(fail and v > 0):
                R.fail('verb', f'{c} verb={v} fail={fail}: {txt!r}')


def _sequence(E, rtol, atol):
    """First number of intervals at which the sequence E converges.

    E[m] is the result with m intervals, never converging. Returns None if it
    does not converge; 'tie' if too close to decide.
    """
    ms = sorted(E)
    for m in ms:
        if m < 3:
            continue
        with np.errstate(all='ignore'):
            a = np.abs((E[m]-E[m-1])/E[m])
            b = rtol+atol/np.abs(E[m])
        if not np.isfinite(a) or not np.isfinite(b):
            return 'tie'
        if abs(a-b) < 1e-6*max(a, b) or (a < 1e-13 and b < 1e-13):
            return 'tie'
        if a < b:
            return m
    return None


TOL = [(1e-1, 0.), (1e-2, 1e-30), (1e-4, 0.), (1e-6, 1e-30), (1e-9, 1e-30),
       (1e-30, 1e-13), (1e-30, 1e-17)]


def _seq(c, R):
    M = hx.Model(c['m'])
    z = M.zpos
    fr = np.array([.3, 200.])*(1 if c['dom'] == 'f' else -1)
    for off, pts, zr in itertools.product((120., 900.), (0, 25),
                                          (z[0]+12., z[-1]-.5)):
        a, b = [1., 2., z[0]], [1+off*.8, 2+off*.6, zr]

        def call(f, rtol, atol, n):
            return warned(lambda: empymod.dipole(
                a, b, freqtime=f, ab=c['ab'], ht='qwe', verb=1,
                htarg={'rtol': rtol, 'atol': atol, 'maxint': n, 'nquad': 15,
                       'pts_per_dec': pts, 'diff_quad': 1e100}, **M.kw))
        if c['ab'] == 63 or c['ab'] == 36:
            continue
        for f in fr:
            if pts:
                # Splined: the nodes depend on the number of intervals.
                for (rtol, atol), n in itertools.product(TOL[:2], (4, 8)):
                    w = call(f, 1e-300, 0., n)[0]
                    R.ev()
                    R.tr()
                    # (far away, later intervals are exactly negligible)
                    if zr == z[0]+12. and w != {'Hankel'}:
                        R.fail('splined', f'{c} {off} {f} {n}')
                    w = call(f, 1e10, 0., n)[0]
                    if w:
                        R.fail('splined spurious', f'{c} {off} {f} {n}')
                continue
            E = {}
            for n in range(2, c['n']+1):
                w, E[n], txt = call(f, 1e-300, 0., n)
                R.ev()
            if not np.any([abs(x) > 0 for x in E.values()]):
                continue
            for (rtol, atol), n in itertools.product(TOL,
                                                     range(3, c['n']+1)):
                w, g, txt = call(f, rtol, atol, n)
                R.ev()
                R.tr(n)
                m = _sequence({k: v for k, v in E.items() if k <= n}, rtol,
                              atol)
                R.state((c['m'], c['ab'], c['dom'], off, zr, f, rtol, atol,
                         n), m is None)
                R.outcome((str(m), bool(w)))
                _judge(R, f'{c} off={off} f={f} rtol={rtol} atol={atol} '
                       f'maxint={n}', m, n, 'Hankel' in w, g, E)
                if 'Fourier' in w:
                    R.fail('wrong name', f'{c}: {txt}')


def _judge(R, tag, m, n, w, g, E):
    R.trace()
    if m == 'tie':
        R.note('ties', 1)
        return
    if m is None:
        if not w:
            R.fail('qwe missed', f'{tag}: not converged, no warning')
        want = E[n]
    else:
        if w and m < n:
            R.fail('qwe spurious', f'{tag}: converged after {m}, warning')
        want = E[m]
    if not np.abs(g-want) <= 1e-9*np.abs(want):
        R.fail('qwe value', f'{tag}: got {g}, expected {want} (n={m})')


# Spectra for the Fourier transform: F(s).
SPEC = [lambda s: 1/(s+2), lambda s: 1/(s+2)**2, lambda s: np.exp(-np.sqrt(s)),
        lambda s: 1/np.sqrt(s+1), lambda s: s/(s*s+.3*s+40),
        lambda s: np.exp(-.02*s)/(s+1)]


def _ftarg(kw, sig, n=11):
    d = {'rtol': 1e-300, 'atol': 0., 'maxint': n, 'nquad': 15,
         'diff_quad': 1e100, 'pts_per_dec': 30, 'a': None, 'b': None,
         'limit': None, 'sincos': np.cos if sig == -1 else np.sin}
    d.update(kw)
    return d


FREQ = np.logspace(-21, 7, 561)


def _tem(F, sig, t, **kw):
    F = np.atleast_2d(np.array(F).T).T
    return empymod.model.tem(F, np.ones(F.shape[1]), FREQ, np.atleast_1d(t),
                             sig, 'qwe', _ftarg(kw, sig, kw.get('maxint', 11)))


def _fseq(c, R):
    for i, t in itertools.product(range(len(SPEC)), (.05, .7, 4.)):
        F = SPEC[i](2j*np.pi*FREQ)
        E = {n: _tem(F, c['sig'], t, maxint=n)[0].item()
             for n in range(2, c['n']+1)}
        R.ev(len(E))
        for (rtol, atol), n in itertools.product(
                TOL[:5]+[(1e-30, 1e-3), (1e-30, 1e-6)], range(3, c['n']+1)):
            g, conv = _tem(F, c['sig'], t, maxint=n, rtol=rtol, atol=atol)
            # tem scales the result after the tolerance is applied
            m = _sequence({k: v*np.pi/2 for k, v in E.items() if k <= n},
                          rtol, atol)
            R.ev()
            R.tr(n)
            R.state((c['sig'], i, t, rtol, atol, n), m is None)
            R.outcome((str(m), bool(conv)))
            _judge(R, f'{c} F{i} t={t} rtol={rtol} atol={atol} maxint={n}', m,
                   n, not conv, g.item(), E)


def _finj(c, R):
    """Fourier QWE which uses QUAD for all times: every failing position."""
    sig = c['sig']
    for F, nt in itertools.product(
            [c_ for n in (1, 2, 3) for c_ in itertools.combinations(
                range(4), n)], (1, 2, 3)):
        F = np.stack([SPEC[i](2j*np.pi*FREQ) for i in F], 1)
        t = np.array([.05, .7, 4.])[:nt]
        with Inject() as inj:
            base, conv = _tem(F, sig, t, diff_quad=1e-300)
            N = inj.n
        if N == 0:
            R.note('not injectable', 1)
            continue
        if not conv:
            R.fail('f spurious', f'{c} {F.shape} {nt}')
        for n in range(1, N+1):
            for fail in itertools.combinations(range(N), n):
                with Inject(fail):
                    g, conv = _tem(F, sig, t, diff_quad=1e-300)
                R.ev()
                R.tr(N)
                R.trace()
                R.state((sig, F.shape, nt, fail, complex(F[0, 0])))
                if conv:
                    R.fail('f missed', f'{c} {F.shape} times={nt}: {fail} of '
                           f'{N} failed, reported as converged')
                if not np.array_equal(g, base):
                    R.fail('f result', f'{c} {fail}')
    # Through the modelling routines.
    M = hx.Model((2, 0))
    for n, nt in itertools.product((1, 2), (1, 2)):
        a = [0., 0., M.zpos[0]]
        b = [np.array([400., 700.])[:n], np.array([9., 5.])[:n], M.zpos[-1]]
        kw = dict(freqtime=np.array([.1, .4])[:nt], signal=sig, ft='qwe',
                  ftarg={'diff_quad': 1e-300, 'pts_per_dec': 3}, **M.kw)
        fs = {'dip': lambda v: empymod.dipole(a, b, verb=v, **kw),
              'bip': lambda v: empymod.bipole([*a, 10., 20.], [*b, 20., 60.],
                                              verb=v, **kw)}
        for name, f in fs.items():
            with Inject() as inj:
                w, base, txt = warned(lambda: f(1))
                N = inj.n
            if w:
                R.fail('f spurious', f'{c} {name} {txt}')
            for k in range(1, 3):
                for fail in itertools.combinations(range(N), k):
                    for v in (0, 1, 3):
                        with Inject(fail):
                            w, g, txt = warned(lambda: f(v))
                        R.ev()
                        R.trace()
                        R.state((sig, n, nt, name, fail, v))
                        if w != ({'Fourier'} if v else set()):
                            R.fail('f routine', f'{c} {name} {n} {nt} {fail} '
                                   f'of {N} verb={v}: {txt[-200:]!r}')


def _fany(c, R):
    """Groups of spectra: converged if all are."""
    sig = c['sig']
    for t, rtol, n in itertools.product(([.05], [.7], [.05, 4.]),
                                        (1e-2, 1e-5, 1e-8), (6, 9)):
        F = [f(2j*np.pi*FREQ) for f in SPEC]
        one = [bool(_tem(f, sig, t, rtol=rtol, maxint=n)[1]) for f in F]
        R.ev(len(F))
        for k in (1, 2, 3):
            for g in itertools.permutations(range(len(F)), k):
                conv = _tem(np.stack([F[i] for i in g], 1), sig, t, rtol=rtol,
                            maxint=n)[1]
                R.ev()
                R.tr(k)
                R.trace()
                want = all(one[i] for i in g)
                R.state((sig, str(t), rtol, n, g), not want)
                R.outcome(want)
                if bool(conv) != want:
                    R.fail('f group', f'{c} {t} {rtol} {n} {g}: {conv}, '
                           f'individually {[one[i] for i in g]}')


def _mix(c, R):
    """Some elements through QUAD and some through QWE, in every order."""
    if c['m'] is not None:
        M = hx.Model(c['m'])
        z = M.zpos
    for perm, dq in itertools.product(itertools.permutations(range(3)),
                                      np.logspace(.02, 6, 13)):
        if c['m'] is None:
            F = SPEC[perm[0]](2j*np.pi*FREQ)
            t = np.array([.02, .6, 15.])[list(perm)]

            def call(rtol):
                conv = _tem(F, 0, t, diff_quad=dq, rtol=rtol, maxint=6)[1]
                return not conv
        else:
            o = np.array([9., 70., 900.])[list(perm)]

            def call(rtol):
                w = warned(lambda: empymod.dipole(
                    [0., 0., z[0]], [.8*o, .6*o, z[0]+3.], freqtime=2.,
                    ab=12, ht='qwe', verb=1, htarg={
                        'diff_quad': dq, 'rtol': rtol, 'atol': 0.,
                        'pts_per_dec': 20, 'maxint': 6}, **M.kw))[0]
                return bool(w)
        with Inject() as inj:
            w = call(1e10)
            N = inj.n
        R.ev()
        R.note('quadratures mixed', N)
        if w:
            R.fail('mix spurious', f'{c} {perm} {dq}')
        for i in range(0, N, 1 if c['m'] is None else 2):
            with Inject([i]):
                w = call(1e10)
            R.ev()
            R.tr()
            R.state((c['m'], perm, dq, i))
            R.outcome((N, w))
            if not w:
                R.fail('mix missed', f'{c} {perm} diff_quad={dq}: {i} of {N} '
                       'quadratures failed, no warning')
        allq = 3 if c['m'] is None else 12
        if N < allq/2:
            with Inject():
                w = call(1e-300)
            R.ev()
            if not w:
                R.fail('mix qwe', f'{c} {perm} diff_quad={dq}: QWE cannot '
                       f'converge, no warning ({N} quadratures)')
        R.trace()


def _any(c, R):
    M = hx.Model(c['m'])
    z = M.zpos
    what = c['c']
    base = dict(M.kw, ht='qwe', verb=1)
    for rtol, n in itertools.product((1e-2, 1e-4, 1e-7), (5, 8, 12)):
        base['htarg'] = {'rtol': rtol, 'atol': 1e-30, 'maxint': n,
                         'nquad': 15}
        a, b = [1., 2., z[0]], [300., 41., z[-1]-.5]
        offs = [(300., 41.), (5., 60.), (2000., -30.), (-40., 11.)]
        frs = [.3, 90., 4e3]
        if what in ('off', 'src'):
            def call(ii, f=base):
                x = [np.array([offs[i][0] for i in ii]),
                     np.array([offs[i][1] for i in ii])]
                if what == 'src':
                    return empymod.dipole([*x, z[0]], [7., 9., z[-1]-.5],
                                          freqtime=2., ab=12, **f)
                return empymod.dipole(a, [*x, z[-1]-.5], freqtime=2., ab=11,
                                      **f)
            items = range(4)
        elif what == 'freq':
            def call(ii, f=base):
                return empymod.dipole(a, b, freqtime=[frs[i] for i in ii],
                                      ab=13, **f)
            items = range(3)
        elif what == 'ab':
            dirs = [(0., 0.), (90., 0.), (0., 90.)]

            def call(ii, f=base):
                if len(ii) == 1:
                    return empymod.dipole(a, b, freqtime=2.,
                                          ab=31+ii[0], **f)
                # source direction with the given components only
                v = np.zeros(3)
                v[list(ii)] = 1.
                az = np.rad2deg(np.arctan2(v[1], v[0]))
                dp = np.rad2deg(np.arctan2(v[2], np.hypot(v[0], v[1])))
                return empymod.bipole([*a, az, dp], [*b, *dirs[2]],
                                      freqtime=2., **f)
            items = range(3)
        else:
            tt = [(False, False), (False, True), (True, True), (True, False)]

            def call(ii, f=base):
                ab = np.array([[11, 41], [14, 44]])
                if len(ii) == 1:
                    ts, tr = tt[ii[0]]
                    return empymod.dipole(a, b, freqtime=2.,
                                          ab=ab[int(ts), int(tr)], **f)
                ts, tr = tt[ii[0]]
                return empymod.bipole([*a, 0., 0.], [*b, 0., 0.], msrc=ts,
                                      mrec=tr, freqtime=2., **f)
            items = range(4)
        one = [bool(warned(lambda: call([i]))[0]) for i in items]
        R.ev(len(one))
        groups = itertools.chain(itertools.permutations(items, 2),
                                 itertools.permutations(items, 3))
        for g in groups:
            if what == 'ab' and list(g) != sorted(g):
                continue
            for loop in (None, 'freq', 'off'):
                w, out, txt = warned(lambda: call(list(g),
                                                  dict(base, loop=loop)))
                R.ev()
                R.tr(len(g))
                R.trace()
                want = any(one[i] for i in (g if what != 'types' else g[:1]))
                R.state((c['m'], what, rtol, n, g, loop), want)
                R.outcome(want)
                if bool(w) != want:
                    R.fail(f'group {what}', f'{c} rtol={rtol} maxint={n} {g} '
                           f'loop={loop}: {w}, individually '
                           f'{[one[i] for i in g]}')


def _none(c, R):
    M = hx.Model(c['m'])
    a, b = [0., 0., M.zpos[0]], [300., 50., M.zpos[-1]]
    fr = [dict(ht='dlf', htarg={'pts_per_dec': p}) for p in (0, -1, 20)]
    fts = [dict(ft='dlf', ftarg={'pts_per_dec': -1}),
           dict(ft='fftlog', ftarg={'pts_per_dec': 3}),
           dict(ft='fft', ftarg={'dfreq': .1, 'nfreq': 32, 'ntot': 64})]
    for h, v in itertools.product(fr, (0, 1, 2, 3, 4)):
        for f in (lambda **k: empymod.dipole(a, b, freqtime=1., **k),
                  lambda **k: empymod.bipole([*a, 10, 20], [*b, 20, 5],
                                             freqtime=1., **k)):
            w, _, txt = warned(lambda: f(verb=v, **h, **M.kw))
            R.ev()
            R.tr()
            R.state((c['m'], str(h), v))
            if w or 'converge' in txt:
                R.fail('none', f'{c} {h} {v} {txt}')
        for t in fts:
            if 'pts_per_dec' not in t['ftarg'] or v < 4:
                w, _, txt = warned(lambda: empymod.dipole(
                    a, b, freqtime=[.1, .5], signal=0, verb=v, **h, **t,
                    **M.kw))
                R.ev()
                R.tr()
                R.state((c['m'], str(h), str(t), v))
                if w or 'converge' in txt:
                    R.fail('none', f'{c} {h} {t} {v} {txt}')
