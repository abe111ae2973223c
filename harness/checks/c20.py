"""C20: filter design.

Designs over complete small grids: every grid point's value is recomputed by
an independent evaluation of the criterion, the returned optimum must be the
best grid point, and the weights must be a least-squares solution of the
defining linear system.  Transform pairs are verified by quadrature.
"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import scipy as sp
import empymod
from empymod.scripts import fdesign as fd

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small design problems (filter '
             'lengths, grids, orders, pairs, criteria) on the real code, each '
             'grid point against an independent evaluation, optimum against '
             'the minimum over the complete grid; all save/load forms')
NOTE = ('3 (5) filter lengths; 11 sets of transform pairs; 6x5 grids of 1 to '
        '3 values, rising and falling; both criteria; 2 error levels; 3 '
        'inversion ranges; 2 evaluation ranges; refinement by minimisation; '
        'save/load with full output in all forms; 16 transform pairs and '
        'empymod pairs by quadrature.')
WARM = ''
RULE = 'one state per design problem'
BOUNDS = {'quick': '3 lengths', 'thorough': '5 lengths'}

FS = {
    'j0': (lambda: fd.j0_1(), None),
    'j1': (lambda: fd.j1_1(), None),
    'j0j1': (lambda: [fd.j0_1(5), fd.j1_1(5)], None),
    'j1j0': (lambda: (fd.j1_3(), fd.j0_3()), lambda: [fd.j1_1(), fd.j0_1()]),
    'sin': (lambda: fd.sin_1(), None),
    'cos': (lambda: [fd.cos_1()], lambda: fd.cos_2()),
    'sincos': (lambda: [fd.sin_1(), fd.cos_1()], None),
    'j0x': (lambda: [fd.j0_1()], lambda: [fd.j0_3()]),
    'cplx': (lambda: [fd.j0_4(z=.5)], None),
    'imag': (lambda: [fd.j0_4(f=1e5, z=.5)], None),
    'siny': (lambda: [fd.sin_2()], lambda: [fd.sin_2(2), fd.sin_1()]),
}
SPACE = [.3, (.2, .4, 2), (.2, .4, 3), (.4, .2, 3), [.25, .25, 3],
         (.1, .5, 2)]
SHIFT = [0., (-.5, .5, 2), (.5, -.5, 2), (-.4, .2, 3), -.3]
RDEF = [(1, 1, 2), (0, 1, 3), (1, 0, 2)]
ERRS = [.01, 1e-4]


def aslist(f):
    return [f] if hasattr(f, 'name') else list(f)


def system(n, s, h, f, r_def, reim):
    """The linear system which defines the weights."""
    base = np.array([np.exp(s*(i-n//2)+h) for i in range(n)])
    r = np.logspace(np.log10(1/base.max())-r_def[0],
                    np.log10(1/base.min())+r_def[1], int(r_def[2]*n))
    a = reim(f.lhs(base[None, :]/r[:, None]))
    b = reim(f.rhs(r)*r)
    return base, a, b


def value(n, s, h, fI, fC, r, r_def, error, reim, cvar):
    """Criterion of one grid point; None if it is numerically ambiguous."""
    res = []
    for solver in (0, 1):
        w = {}
        for f in fI:
            base, a, b = system(n, s, h, f, r_def, reim)
            if solver:
                w[f.name] = np.linalg.lstsq(a, b, rcond=1e-17)[0]
            else:
                q, t = sp.linalg.qr(a, mode='economic')
                if np.min(np.abs(np.diag(t))) == 0:
                    return None
                w[f.name] = sp.linalg.solve_triangular(t, q.T @ b)
        vals = []
        for f in fC:
            rhs = f.rhs(r)
            got = (f.lhs(base[None, :]/r[:, None]) @ w[f.name])/r
            if np.all(got == 0) or np.all(np.isnan(got)):
                return None
            with np.errstate(all='ignore'):
                rel = np.abs(got-rhs)/np.abs(rhs)
            bad = rel > error
            if np.any(np.abs(rel/error-1) < 1e-3) or np.isnan(rel).any():
                return None
            bad = np.where(bad)[0]
            # Up to four bad values can be jumped.
            if bad.size == 0:
                i = r.size-1
            elif bad.size > 4:
                i = max(0, bad[4]-5)
            else:
                i = max(0, bad[0]-1)
            vals.append((np.abs(got[i]) if cvar == 'amp' else 1/r[i], i))
        if any(i == 0 for _, i in vals):
            if not all(i == 0 for _, i in vals):
                return None
            res.append(np.inf)
        else:
            res.append(max(v for v, _ in vals))
    if res[0] != res[1] and not abs(res[0]-res[1]) <= 1e-6*abs(res[0]):
        return None
    return res[0]


def grid(x):
    if np.size(x) == 1:
        return np.array([float(x)])
    if x[0] == x[1] or x[2] < 2:
        return np.array([float(x[0])])
    return np.linspace(x[0], x[1], x[2])


def cases(tier):
    q = tier == 'quick'
    out = []
    for f in FS:
        for n in (5, 8, 11) if q else (5, 6, 8, 11, 15):
            out.append({'k': 'design', 'f': f, 'n': n})
    out += [{'k': 'finish', 'f': f} for f in FS]
    out += [{'k': 'save', 'f': f} for f in FS]
    out += [{'k': 'pair', 'p': p} for p in PAIRS]
    out += [{'k': 'modeller', 'f': f} for f in ('j0', 'j1', 'j2')]
    out.append({'k': 'invalid'})
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def run(n, spacing, shift, f, save=False, verb=0, **kw):
    fI, fC = FS[f]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = fd.design(n, spacing, shift, fI(), fC() if fC else False,
                        save=save, verb=verb, plot=0, **kw)
    return out, buf.getvalue()


def judge(R, tag, dlf, full, n, spacing, shift, f, r, r_def, error, reim,
          cvar, cache):
    fI = aslist(FS[f][0]())
    fC = aslist(FS[f][1]()) if FS[f][1] else fI
    sp_, sh_ = grid(spacing), grid(shift)
    # The searched grid.
    shp = (sp_.size, sh_.size)
    if np.shape(full[3]) != shp:
        R.fail('grid', f'{tag}: {np.shape(full[3])} instead of {shp}')
        return None
    g = np.array(np.meshgrid(sp_, sh_, indexing='ij'))
    if not np.allclose(full[2], g, rtol=1e-12, atol=1e-14):
        R.fail('grid', f'{tag}: {full[2].tolist()}')
    # Optimum of the grid.
    best = np.min(full[3])
    hit = [(i, j) for i in range(shp[0]) for j in range(shp[1])
           if abs(full[0][0]-sp_[i]) < 1e-12 and
           abs(full[0][1]-sh_[j]) < 1e-12]
    if not hit or not (full[3][hit[0]] == best):
        R.fail('optimum', f'{tag}: returned {full[0]}, grid '
               f'{full[3].tolist()}')
    if full[1] != best:
        R.fail('optimum', f'{tag}: value {full[1]} instead of {best}')
    if full[4] != (1 if cvar == 'r' else 0):
        R.fail('criterion', f'{tag}: {full[4]}')
    # Each grid point.
    for i, s in enumerate(sp_):
        for j, h in enumerate(sh_):
            key = (n, round(s, 12), round(h, 12), r.size, r_def, error, cvar)
            if key not in cache:
                cache[key] = value(n, s, h, fI, fC, r, r_def, error, reim,
                                   cvar)
            w = cache[key]
            R.tr()
            if w is None:
                continue
            R.trace()
            R.outcome(round(float(np.log10(w)), 2) if w < np.inf else 'inf')
            v = full[3][i, j]
            if v != w and not abs(v-w) <= 1e-5*abs(w):
                R.fail('value', f'{tag}: at {s}, {h}: {v} instead of {w}')
    weights(R, tag, dlf, n, full[0][0], full[0][1], fI, r_def, reim)
    return full


def weights(R, tag, dlf, n, s, h, fI, r_def, reim):
    """Weights are a least-squares solution of the defining system."""
    for f in fI:
        base, a, b = system(n, s, h, f, r_def, reim)
        if dlf.base.shape != base.shape or not np.allclose(
                dlf.base, base, rtol=1e-12, atol=0):
            R.fail('base', f'{tag}: {dlf.base} instead of {base}')
            return
        J = getattr(dlf, f.name)
        w = np.linalg.lstsq(a, b, rcond=1e-17)[0]
        opt = np.linalg.norm(a @ w - b)
        got = np.linalg.norm(a @ J - b)
        # Rounding of a backward stable solution.
        eps = 1e-14*np.linalg.norm(a)*np.linalg.norm(J)
        if not got <= opt*(1+1e-6) + 1e-9*np.linalg.norm(b) + eps:
            R.fail('weights', f'{tag}: residual {got} instead of {opt}')
    if not np.allclose(dlf.factor, np.exp(s), rtol=1e-12, atol=0):
        R.fail('factor', f'{tag}: {dlf.factor} instead of {np.exp(s)}')
    miss = {'j0', 'j1', 'sin', 'cos'}-{f.name for f in fI}
    if any(hasattr(dlf, m) for m in miss):
        R.fail('weights', f'{tag}: additional coefficients')


def _design(c, R):
    f, n = c['f'], c['n']
    reim = np.imag if f == 'imag' else np.real
    cache, bests = {}, {}
    rs = [np.logspace(-1, 1, 31), np.logspace(0, 5, 1000)]
    for ir, cvar, error, r_def in itertools.product(
            (0, 1), ('amp', 'r'), ERRS, RDEF):
        if ir == 1 and (error != .01 or r_def != RDEF[0]):
            continue
        for spacing, shift in itertools.product(SPACE, SHIFT):
            kw = dict(r_def=r_def, cvar=cvar, error=error)
            if ir == 0:
                kw['r'] = rs[0]
            if f == 'imag':
                kw['reim'] = np.imag
            tag = f'{f} n={n} {spacing} {shift} {cvar} {error} {r_def} {ir}'
            (dlf, full), txt = run(n, spacing, shift, f, full_output=True,
                                   **kw)
            R.ev()
            R.trace()
            R.state(tag)
            if txt:
                R.fail('silent', f'{tag}: {txt!r}')
            judge(R, tag, dlf, full, n, spacing, shift, f, rs[ir], r_def,
                  error, reim, cvar, cache)
            if dlf.name != f'dlf_{n}':
                R.fail('name', f'{tag}: {dlf.name}')
            # Order of the grid does not matter.
            key = (ir, cvar, error, r_def, tuple(np.sort(grid(spacing))),
                   tuple(np.sort(grid(shift))))
            if key in bests and bests[key] != full[1]:
                if not abs(bests[key]-full[1]) <= 1e-5*abs(full[1]):
                    R.fail('order', f'{tag}: {full[1]} instead of '
                           f'{bests[key]}')
            bests.setdefault(key, full[1])
            # Only filter.
            if ir == 0 and error == .01 and r_def == RDEF[0]:
                d2, _ = run(n, spacing, shift, f, **kw)
                for k in ['base'] + dlf.filter_coeff:
                    if not np.array_equal(getattr(d2, k), getattr(dlf, k)):
                        R.fail('output', f'{tag}: {k} differs')


def _finish(c, R):
    """Refinement never returns a worse value than the grid."""
    f = c['f']
    kw = dict(r=np.logspace(-1, 1, 31), full_output=True)
    if f == 'imag':
        kw['reim'] = np.imag
    reim = kw.get('reim', np.real)
    fI = aslist(FS[f][0]())
    for n, cvar in itertools.product((5, 8), ('amp', 'r')):
        for fin in (None, True, False, sp.optimize.fmin):
            (dlf, full), _ = run(n, (.2, .4, 3), (-.4, .2, 2), f, finish=fin,
                                 cvar=cvar, **kw)
            R.ev()
            R.tr()
            R.state((f, n, cvar, str(fin)[:20]))
            R.outcome((cvar, float(np.min(full[3]) < np.inf)))
            tag = f'{f} n={n} {cvar} finish={fin}'
            if fin in (None, False) and full[1] != np.min(full[3]):
                R.fail('finish', f'{tag}: {full[1]}')
            if not full[1] <= np.min(full[3]):
                R.fail('finish', f'{tag}: {full[1]} worse than grid '
                       f'{np.min(full[3])}')
            weights(R, tag, dlf, n, full[0][0], full[0][1], fI, (1, 1, 2),
                    reim)


def _save(c, R):
    """Saved designs load to the same result."""
    f = c['f']
    old = os.getcwd()
    names = [None, 'my', 'my.gz', 'a_b']
    for name, fo, path, (spacing, shift) in itertools.product(
            names, (False, True), ('filters', 'x/y', 'ABS', '.'),
            [(.3, 0.), ((.2, .4, 3), (-.4, .2, 2)), (.3, (-.4, .2, 3)),
             ((.2, .4, 2), .1)]):
        d = tempfile.mkdtemp(prefix='c20_')
        try:
            os.chdir(d)
            p = os.path.join(d, 'q') if path == 'ABS' else path
            kw = dict(r=np.logspace(-1, 1, 31), full_output=fo)
            if f == 'imag':
                kw['reim'] = np.imag
            if name is not None:
                kw['name'] = name
            if path != 'filters':
                kw['path'] = p
            out, _ = run(8, spacing, shift, f, save=True, **kw)
            dlf, full = out if fo else (out, None)
            tag = f'{f} {name} {fo} {path} {spacing} {shift}'
            nm = name or 'dlf_8'
            for lf in (False, True):
                a = {} if path == 'filters' else {'path': p}
                g = fd.load_filter(nm, lf, **a)
                R.ev()
                R.tr()
                R.trace()
                R.state((tag, lf))
                R.outcome((fo, lf, isinstance(g, tuple)))
                if lf and fo:
                    if not isinstance(g, tuple):
                        R.fail('load', f'{tag}: full output not loaded')
                        continue
                    g, lfull = g
                    ok = (np.array_equal(lfull[0], full[0]) and
                          lfull[1] == full[1] and
                          np.array_equal(lfull[2], full[2]) and
                          np.array_equal(lfull[3], full[3]) and
                          lfull[4] == full[4])
                    if not ok:
                        R.fail('load', f'{tag}: full output {lfull} instead '
                               f'of {full}')
                if isinstance(g, tuple):
                    R.fail('load', f'{tag}: full output without being saved')
                    continue
                for k in ['base'] + dlf.filter_coeff:
                    if not np.array_equal(getattr(g, k), getattr(dlf, k)):
                        R.fail('load', f'{tag}: {k} differs')
                if not np.allclose(g.factor, dlf.factor, rtol=1e-12):
                    R.fail('load', f'{tag}: factor {g.factor}')
            files = [x for _, _, fs in os.walk(d) for x in fs]
            if any(x.endswith('.gz') for x in files) != (
                    fo and name == 'my.gz'):
                R.fail('load', f'{tag}: files {files}')
            if any('full' in x for x in files) != fo:
                R.fail('load', f'{tag}: files {files}')
        finally:
            os.chdir(old)
            shutil.rmtree(d)
    # Not saved.
    d = tempfile.mkdtemp(prefix='c20_')
    try:
        os.chdir(d)
        run(8, .3, 0., f, save=False, full_output=True)
        if os.listdir(d):
            R.fail('save', f'save=False wrote {os.listdir(d)}')
    finally:
        os.chdir(old)
        shutil.rmtree(d)


# ---------------------------------------------------------- transform pairs
PAIRS = ([f'{t}_{i}' for t in ('j0', 'j1') for i in range(1, 6)] +
         [f'{t}_{i}' for t in ('sin', 'cos') for i in range(1, 4)])


def integral(f, b, kind, kmax):
    """Transform of f by adaptive quadrature over zeros of the kernel."""
    J = {'j0': sp.special.j0, 'j1': sp.special.j1}[kind]

    def part(fn):
        n = int(np.ceil(kmax*b/np.pi))+1
        xs = np.linspace(0, kmax, min(n, 400)+1)
        return sum(sp.integrate.quad(
            lambda x: fn(f(x)*J(x*b)), lo, hi, epsabs=1e-14, epsrel=1e-12)[0]
            for lo, hi in zip(xs[:-1], xs[1:]))
    return part(np.real) + 1j*part(np.imag)


def _pair(c, R):
    p = c['p']
    kind = p[:-2]
    fn = getattr(fd, p)
    if kind in ('j0', 'j1'):
        if p[-1] in '45':
            args = [(f, rho, z) for f in (1., 1e3) for rho in (.3, 10.)
                    for z in (50., -20., 5.)]
        else:
            args = [(a,) for a in (1, .5, 3., 10)] + [()]
        for a in args:
            f = fn(*a)
            dec = (abs(a[2]) if len(a) == 3 else
                   a[0] if a else 1.)
            kmax = (8/np.sqrt(dec) if p[-1] == '1' else 50/dec)
            for b in np.array([.1, .7, 1.3, 2.])*(
                    dec if p[-1] != '1' else np.sqrt(dec)):
                want = integral(lambda x: complex(f.lhs(np.float64(x))), b,
                                kind, kmax)
                got = f.rhs(np.float64(b))
                R.ev()
                R.tr()
                R.state((p, a, round(b, 6)))
                R.outcome((p, round(float(np.real(got)), 6)))
                if not abs(got-want) <= 1e-8*abs(want)+1e-12:
                    R.fail('pair', f'{p}{a} at {b}: {got} instead of {want}')
            if f.name != kind:
                R.fail('pair', f'{p}: {f.name}')
        return
    for a in [(), (1,), (.5,), (3.,)]:
        f, g = fn(*a), fn(*a, inverse=True)
        for b in (.1, .7, 1.3, 4.):
            if p[-1] == '1':
                y = sp.integrate.quad(f.lhs, 0, 12/(a[0] if a else 1),
                                      weight=kind, wvar=b, limit=500)[0]
            else:
                y = sp.integrate.quad(f.lhs, 0, np.inf, weight=kind, wvar=b,
                                      limit=500, limlst=500)[0]
            got = f.rhs(b)
            R.ev()
            R.tr()
            R.state((p, a, b))
            R.outcome((p, round(float(got), 6)))
            if not abs(got-y) <= 1e-6*abs(y)+1e-9:
                R.fail('pair', f'{p}{a} at {b}: {got} instead of {y}')
            if g.lhs(b) != f.rhs(b) or g.rhs(b) != f.lhs(b):
                R.fail('pair', f'{p}{a}: inverse')
        if f.name != kind or g.name != kind:
            R.fail('pair', f'{p}: {f.name}')


def _modeller(c, R):
    """Kernel and response of the modeller are a transform pair."""
    ft = c['f']
    models = [dict(res=[2.], depth=[]), dict(res=[2., .5, 10.],
              depth=[0., 40.]), dict(res=[1., 5.], depth=[20.],
                                     aniso=[1., 2.])]
    for m, freq, (zs, zr) in itertools.product(
            models, (1., 50.), ((10., 30.), (60., 15.))):
        f = fd.empy_hankel(ft, zs, zr, freqtime=freq, **m)
        flt = empymod.filters.Hankel().wer_201_2018
        r = np.array([20., 60., 150.])
        k = flt.base/r[:, None]
        lhs = f.lhs(k)
        if ft == 'j2':
            got = lhs[0] @ flt.j0/r + lhs[1] @ flt.j1/r**2
        else:
            got = lhs @ getattr(flt, ft)/r
        want = f.rhs(r)
        R.ev()
        R.tr()
        R.state((ft, str(m), freq, zs))
        R.outcome(ft)
        if not np.all(np.abs(got-want) <= 1e-4*np.max(np.abs(want))):
            R.fail('modeller', f'{ft} {m} {freq} {zs} {zr}: {want} instead '
                   f'of {got}')
        both = fd.empy_hankel(['j0', 'j1'], zs, zr, freqtime=freq, **m)
        if [x.name for x in both] != ['j0', 'j1']:
            R.fail('modeller', 'list of types')
        if ft != 'j2':
            i = ['j0', 'j1'].index(ft)
            if not np.allclose(both[i].rhs(r), want, rtol=1e-12, atol=0):
                R.fail('modeller', 'list of types differs')


def _invalid(c, R):
    """Malformed grids and pairs are rejected."""
    for a in ((.1, .2), [.1], (.1, .2, 3, 4), []):
        for i, kw in enumerate(({'spacing': a, 'shift': 0.},
                                {'spacing': .2, 'shift': a})):
            R.ev()
            R.tr()
            R.state((i, str(a)))
            try:
                fd.design(5, fI=fd.j0_1(), save=False, verb=0, plot=0, **kw)
                ok = True
            except ValueError:
                ok = False
            R.outcome(ok)
            if ok != (len(a) == 1):
                R.fail('invalid', f'{kw}: accepted {ok}')
    try:
        fd.design(5, .2, 0., [fd.empy_hankel('j2', 1, 2, [1.], 1.)],
                  save=False, verb=0, plot=0)
        R.fail('invalid', 'j2 accepted for the inversion')
    except ValueError:
        pass
