"""C27: user hooks for material parameters and band-pass filters.

mat   hooks which return the parameters of another material B: equal to the
      call with material B, for every routine, component pair, domain,
      transform method, loop option.
cc    frequency-dependent (Cole-Cole, Debye, lossy magnetic) hooks against
      the independent transmission-line solution.
args  what the hooks receive.
band  band-pass filters: frequency domain exactly, time domain by the
      transform of the filtered response; linear; per column.
"""
import itertools
import warnings
import numpy as np
import empymod
from empymod.utils import check_time
import ref
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of hook kinds x routines x component '
             'pairs x domains x transform methods x loops on the real code; '
             'substitution of materials and independent transmission-line '
             'solution as oracle')
NOTE = ('All 36 component pairs x 5 hook combinations x 4-6 base/target '
        'models x frequency/Laplace/3 time signals x 6 Hankel and 6 Fourier '
        'settings x loops; 4 filters per column.')
WARM = 'cf'
RULE = ('one state per (routine, models, hooks, setting, component pair); '
        'non-trivial if the hook changes the response')
BOUNDS = {'quick': '4 base/target model pairs; frequency-dependent hooks on 2 '
          'models', 'thorough': '7 base/target model pairs; frequency-'
          'dependent hooks on 5 models'}
ASSUMPTIONS = ['hooks for the diffusive analytical solutions return constant '
               'conductivities (they use one real value)']
FILT = ref.load_filter('key_201_2009')
EPS0, MU0 = ref.EPS0, ref.MU0
# base model, target model; same number of layers
PAIRS = [((0, 0, 0), (2, 0, 1)), ((2, 0, 1), (0, 3, 5)), ((1,), (3,)),
         ((3, 3), (1, 1)), ((2, 1), (2, 1)), ((0,), (4,)),
         ((0, 1, 3, 4), (4, 5, 1, 0))]
HT = {'std': ('dlf', {'dlf': 'key_201_2009'}),
      'lag': ('dlf', {'dlf': 'key_201_2009', 'pts_per_dec': -1}),
      'spl': ('dlf', {'dlf': 'key_201_2009', 'pts_per_dec': 20}),
      'qwe': ('qwe', {}), 'qws': ('qwe', {'pts_per_dec': 20}),
      'quad': ('quad', {'pts_per_dec': 12, 'limit': 60, 'a': 1e-5, 'b': .1})}
FT = {'dlf': ('dlf', {'pts_per_dec': -1}), 'dlf0': ('dlf', {'dlf': 'key_81_2009', 'pts_per_dec': 0}),
      'dlf9': ('dlf', {'pts_per_dec': 9}),
      'qwe': ('qwe', {'pts_per_dec': 10, 'maxint': 20}),
      'log': ('fftlog', {'pts_per_dec': 5}),
      'fft': ('fft', {'dfreq': .05, 'nfreq': 64, 'ntot': 128})}
HOOKS = [(True, False), (False, True), (True, True)]


def cases(tier):
    q = tier == 'quick'
    P = PAIRS[:4] if q else PAIRS
    out = []
    for p, h in itertools.product(P, HOOKS):
        for dom in 'fs':
            out.append({'k': 'mat', 'p': p, 'h': h, 'dom': dom})
        out.append({'k': 'set', 'p': p, 'h': h,
                    'q': q and (h != (True, True) or len(p[0]) == 2)})
        out.append({'k': 'time', 'p': p, 'h': h})
    for m in [(2, 0, 1), (3, 1), (1,), (0, 5, 3, 1), (2, 4)][:2 if q else 5]:
        for cc in CC:
            for dom in 'fs':
                out.append({'k': 'cc', 'm': m, 'cc': cc, 'dom': dom})
    out += [{'k': 'args', 'p': p} for p in P]
    for m in [(2, 0, 1), (1,)]:
        out += [{'k': 'band', 'm': m, 'ft': f, 'q': q} for f in (None, *FT)]
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def sval(p):
    """Laplace parameter, from what the hook receives."""
    f = np.ravel(p['freq'])
    return f if np.isrealobj(p['etaH']) else 2j*np.pi*f


def eta_hook(inp, p):
    s = sval(p)
    return (1/inp['rr'] + np.outer(s, inp['ee']*EPS0),
            1/(inp['rr']*inp['aa']**2) + np.outer(s, inp['ev']*EPS0))


def zeta_hook(inp, p):
    s = sval(p)
    return np.outer(s, inp['mm']*MU0), np.outer(s, inp['mv']*MU0)


def hooked(A, B, h, swap=False):
    """Keywords for base A with hooks to B; and of the expected model."""
    a, b = A.kw, B.kw
    want = dict(a)
    d = {'res': a['res']}
    if h[0]:
        d.update(func_eta=eta_hook, rr=b['res'], aa=b['aniso'],
                 ee=b['epermH'], ev=b['epermV'])
        want.update({k: b[k] for k in ('res', 'aniso', 'epermH', 'epermV')})
    if h[1]:
        d.update(func_zeta=zeta_hook, mm=b['mpermH'], mv=b['mpermV'])
        want.update({k: b[k] for k in ('mpermH', 'mpermV')})
    a['res'] = d
    if swap:
        a = {k: v[::-1] for k, v in a.items() if k != 'res'}
        a['res'] = {k: v[::-1] if isinstance(v, np.ndarray) else v
                    for k, v in d.items()}
        # A single interface has no order: provide the infinities.
        if len(A.m) == 2:
            a['depth'] = np.r_[np.inf, a['depth']]
    return a, want


def setup(c):
    A, B = hx.Model(c['p'][0]), hx.Model(c['p'][1])
    z = A.zpos
    return A, B, z


def _mat(c, R):
    A, B, z = setup(c)
    dom = c['dom']
    fr = np.array([.7, 3e5])*(1 if dom == 'f' else -1)
    for swap in (False, True):
        if swap and len(A.m) == 1:
            continue
        kw, wk = hooked(A, B, c['h'], swap)
        for za, zb in ((z[0], z[-1]), (z[-1], z[-1]+3.)):
            a = [5., 4., za]
            b = [5+30*np.array([.8, -.2]), 4+40*np.array([.3, .9]), zb]
            b0 = [[b[0][i], b[1][i], zb] for i in range(2)]
            E = hx.Model(c['p'][0])
            E.m = [*E.m, str(c)]
            uni = len(A.m) > 1 and np.all(np.array(
                [wk[k] == wk[k][0] for k in ('res', 'aniso', 'epermH',
                                             'epermV', 'mpermH', 'mpermV')]))
            E.par = np.array([wk[k] for k in ('res', 'aniso', 'epermH',
                                              'epermV', 'mpermH', 'mpermV')])
            sc = [E.scale_table(a, x, fr, FILT) for x in b0]
            for ab, xd in itertools.product(hx.ABS, (False, None, True)):
                if uni and xd is None:
                    # Secondary field across an interface which is none
                    continue
                g = empymod.dipole(a, b, freqtime=fr, ab=ab, xdirect=xd,
                                   verb=0, **kw, **hx.DLF)
                w = empymod.dipole(a, b, freqtime=fr, ab=ab, xdirect=xd,
                                   verb=0, **wk, **hx.DLF)
                s = np.stack([x[ab][1] for x in sc], 1)
                # xdirect=True: analytical instead of numerical (full space)
                hx.cmp(R, f'material {c["h"]}', f'{c} swap={swap} ab={ab} '
                       f'{za} {zb} xdirect={xd}', g, w, s,
                       **(dict(rtol=1e-9, stol=1e-9) if xd is not True else
                          dict(rtol=1e-6, stol=1e-6)), name='mat')
                R.ev(2)
                R.tr()
                R.trace()
                R.state((c, swap, za, ab, xd), bool(np.any(g)))
                R.outcome(complex(g[0, 0]))
            for ts, tr in itertools.product((False, True, 'b'),
                                            (False, True, 'b', 'j')):
                f = [empymod.bipole([*a, 20., 30.], [*b, 70., -12.],
                                    freqtime=fr, msrc=ts, mrec=tr, verb=0,
                                    **k, **hx.DLF) for k in (kw, wk)]
                s = np.stack([hx.bscale(E, a, x, fr, ts, tr, FILT)
                              for x in b0], 1)
                hx.cmp(R, f'bipole {c["h"]}', f'{c} swap={swap} {ts} {tr}',
                       f[0], f[1], s, rtol=1e-8, stol=2e-8, name='bip')
                R.ev(2)
                R.tr()
                R.state((c, swap, za, str(ts), tr))
        if len(A.m) == 1:
            for sol in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'):
                for ab in hx.ABS:
                    if sol != 'fs' and ab not in [11, 12, 13, 21, 22, 23, 31,
                                                  32, 33]:
                        continue
                    kk = [{x: v for x, v in k.items() if x != 'depth'}
                          for k in (kw, wk)]
                    if sol != 'fs' and c['h'][0]:
                        # constant conductivity
                        kk[0]['res'] = dict(kk[0]['res'])
                        kk[0]['res'].update(ee=[0.], ev=[0.])
                    g, w = (np.array(empymod.analytical(
                        [5., 4., 35.], [30., 20., 50.], freqtime=fr/1e3,
                        solution=sol, ab=ab, verb=0, **k)) for k in kk)
                    hx.cmp(R, f'analytical {c["h"]} {sol}', f'{c} {ab}', g, w,
                           np.abs(w), rtol=1e-9, stol=1e-12)
                    R.ev(2)
                    R.tr()
                    R.state((c, sol, ab))


def _set(c, R):
    """Transform methods and loops."""
    A, B, z = setup(c)
    fr = np.array([.7, 40.])
    kw, wk = hooked(A, B, c['h'])
    a = [np.array([5., -9.]), np.array([4., 1.]), z[0]]
    b = [np.array([60., 90., -70.]), np.array([40., 10., 55.]), z[-1]+2]
    for (n, (ht, arg)), lp, ab in itertools.product(
            HT.items(), (None, 'freq', 'off'), (11, 24, 33, 46)):
        if n in ('qwe', 'quad', 'qws') and (lp or ab == 33 or c['q']):
            continue
        tol = 1e-4 if n[0] == 'q' else 1e-6
        g, w = (np.array(empymod.dipole(
            a, b, freqtime=fr, ab=ab, ht=ht, htarg=arg, loop=lp, verb=0, **k))
            for k in (kw, wk))
        R.ev(2)
        R.tr()
        R.trace()
        R.state((c, n, lp, ab))
        hx.cmp(R, f'setting {n}', f'{c} {n} {lp} {ab}', g, w,
               np.max(np.abs(w), axis=(1, 2))[:, None, None], rtol=tol,
               stol=tol, name='set')
        if ab == 11:
            g, w = (np.array(empymod.bipole(
                [*a, 10., 0.], [*b, 80., 20.], freqtime=fr, ht=ht, htarg=arg,
                loop=lp, verb=0, mrec=True, **k)) for k in (kw, wk))
            hx.cmp(R, f'setting bipole {n}', f'{c} {n} {lp}', g, w,
                   np.max(np.abs(w), axis=(1, 2))[:, None, None], rtol=tol,
                   stol=tol, name='set')
    g, w = (np.array(empymod.loop([5., 4., z[0], 0., 90.], [50., 4., z[-1], 0.,
                                                            90.], freqtime=fr,
                                  verb=0, **k)) for k in (kw, wk))
    hx.cmp(R, 'loop', f'{c}', g, w, np.abs(w), rtol=1e-7, stol=1e-7)
    if len(A.m) == 1:
        for ab in (44, 55, 66):
            try:
                g, w = (np.array(empymod.ip_and_q(
                    src=[5., 4., z[0]], rec=[50., 4., z[-1]], freqtime=fr,
                    ab=ab, verb=0, **k)) for k in (kw, wk))
            except Exception as e:
                R.note('ip_and_q not applicable', 1)
                R.outcome(type(e).__name__)
                continue
            hx.cmp(R, 'ip_and_q', f'{c}', g, w, 1e-6*1e3, rtol=1e-4,
                   stol=1.)


def _time(c, R):
    A, B, z = setup(c)
    kw, wk = hooked(A, B, c['h'])
    a = [5., 4., z[0]]
    b = [np.array([300., 900.]), np.array([400., 10.]), z[-1]+2]
    for (n, (ft, arg)), sig, nt in itertools.product(FT.items(), (0, 1, -1),
                                                     (1, 3)):
        t = np.array([.3, .04, 2.])[:nt]
        for ab in (11, 53):
            g, w = (np.array(empymod.dipole(
                a, b, freqtime=t, signal=sig, ab=ab, ft=ft, ftarg=arg, verb=0,
                **k)) for k in (kw, wk))
            R.ev(2)
            R.tr()
            R.trace()
            R.state((c, n, sig, nt, ab))
            hx.cmp(R, f'time {n}', f'{c} {n} {sig} {nt} {ab}', g, w,
                   np.max(np.abs(w)), rtol=1e-5, stol=1e-5, name='time')
        g, w = (np.array(empymod.bipole(
            [*a, 10., 0.], [*b, 80., 20.], freqtime=t, signal=sig, ft=ft,
            ftarg=arg, verb=0, **k)) for k in (kw, wk))
        hx.cmp(R, f'time bipole {n}', f'{c} {n} {sig} {nt}', g, w,
               np.max(np.abs(w)), rtol=1e-5, stol=1e-5, name='time')
    g, w = (np.array(empymod.gpr(
        a, [9., 6., z[0]], freqtime=[2e-8, 5e-8], cf=2e8,
        ftarg={'dfreq': 2e7, 'nfreq': 32}, verb=0, **k)) for k in (kw, wk))
    hx.cmp(R, 'gpr', f'{c}', g, w, np.max(np.abs(w)), rtol=1e-6, stol=1e-6)


# Frequency-dependent materials: (eta or zeta)(s, base eta, parameters).
def _cole(inp, p):
    s = sval(p)
    x = np.outer(s, inp['tau'])**inp['cexp']
    r = inp['res']*(1-inp['m0']*(1-1/(1+x)))
    return (1/r+(p['etaH']-1/inp['res']),
            1/(r*p['aniso']**2)+(p['etaV']-1/(inp['res']*p['aniso']**2)))


def _debye(inp, p):
    s = sval(p)
    d = np.outer(s, inp['m0']*40*EPS0)/(1+np.outer(s, inp['tau']*1e-3))
    return p['etaH']+d, p['etaV']+3*d


def _vrm(inp, p):
    s = sval(p)
    m = 1+inp['m0']/(1+np.outer(s, inp['tau'])**inp['cexp'])
    return p['zetaH']*m, p['zetaV']*(2*m-1)


CC = {'cole': (_cole, None), 'debye': (_debye, None), 'vrm': (None, _vrm),
      'both': (_cole, _vrm)}


def _cc(c, R):
    M = hx.Model(c['m'])
    n = len(c['m'])
    x = dict(m0=np.array([.4, .1, .7, .3])[:n],
             tau=np.array([.1, 1e-3, 2e-4, 3.])[:n],
             cexp=np.array([.5, 1., .25, .8])[:n])
    fe, fz = CC[c['cc']]
    fr = np.array([.7, 900., 2e5])*(1 if c['dom'] == 'f' else -1)
    s = 2j*np.pi*fr if c['dom'] == 'f' else -fr
    par = ref.params(fr, *M.par)
    P = dict(freq=np.abs(fr), aniso=M.par[1], etaH=par[0].T, etaV=par[1].T,
             zetaH=par[2].T, zetaV=par[3].T)
    if np.isrealobj(s):
        P['etaH'], P['etaV'] = P['etaH'].real, P['etaV'].real
    inp = dict(x, res=M.par[0])
    new = list(par)
    if fe:
        new[:2] = [v.T for v in fe(inp, P)]
    if fz:
        new[2:] = [v.T for v in fz(inp, P)]
    kw = M.kw
    kw['res'] = dict(x, res=kw['res'], **{k: v for k, v in (
        ('func_eta', fe), ('func_zeta', fz)) if v})
    for za, zb in itertools.product(M.zpos[:4], M.zpos[:4]):
        for dx, dy in ((40., 30.), (-7., 9.)):
            a, b = [3., 2., za], [3+dx, 2+dy, zb+1.]
            for ab in hx.ABS:
                w, sc = ref.dipole_par(a, b, M.depth, ab, FILT, *new)
                g = empymod.dipole(a, b, freqtime=fr, ab=ab, verb=0, **kw,
                                   **hx.DLF)
                hx.cmp(R, f'dispersive {c["cc"]}', f'{c} {za} {zb} ab={ab}',
                       g, w, sc, rtol=1e-7, stol=3e-8, name='cc')
                R.ev()
                R.tr()
                R.trace()
                R.state((c, za, zb, dx, ab), bool(np.any(w)))
                R.outcome(complex(g[0]))
                if n == 1 and (za, dx) == (M.zpos[0], 40.):
                    g = empymod.analytical(
                        a, b, freqtime=fr, ab=ab, verb=0,
                        **{k: v for k, v in kw.items() if k != 'depth'})
                    hx.cmp(R, f'dispersive analytical {c["cc"]}', f'{c} {ab}',
                           g, w, sc, rtol=1e-5, stol=1e-5, name='ccana')


def _args(c, R):
    """The hooks receive the actual parameters."""
    A = hx.Model(c['p'][0])
    z = A.zpos
    n = len(A.m)
    rec = []

    def eta(inp, p):
        rec.append(('eta', inp, dict(p)))
        return p['etaH'], p['etaV']

    def zeta(inp, p):
        rec.append(('zeta', inp, dict(p)))
        return p['zetaH'], p['zetaV']

    def band(inp, p):
        rec.append(('band', inp, dict(p)))

    for swap, routine in itertools.product(
            (False, True), ('dipole', 'bipole', 'analytical', 'time',
                            'tbip', 'time0', 'tbip0')):
        if (swap or routine == 'analytical') and n == 1 and not (
                routine == 'analytical' and not swap):
            continue
        if routine == 'analytical' and n > 1:
            continue
        for fr in ([.7, 30.], [-2., -7.], [4.]):
            for extra in (np.arange(1., n+1), list(range(5, 5+n))):
                kw = A.kw
                kw['res'] = dict(res=kw['res'], func_eta=eta, func_zeta=zeta,
                                 foo=extra, bar=np.ones(n)*3)
                if swap:
                    kw = {k: v[::-1] if k != 'res' else {
                        x: (y[::-1] if np.ndim(y) else y)
                        for x, y in v.items()} for k, v in kw.items()}
                    if n == 2:
                        kw['depth'] = np.r_[np.inf, kw['depth']]
                rec.clear()
                a, b = [5., 4., z[0]], [[60., 90., 30.], [4., 7., 9.], z[-1]]
                f = np.array(fr)
                bp = {'func': band, 'xyz': 'anything', 'num': 7}
                if routine == 'dipole':
                    empymod.dipole(a, b, freqtime=fr, verb=0, bandpass=bp,
                                   **kw)
                elif routine == 'bipole':
                    empymod.bipole([*a, 0, 0], [*b, 0, 0], freqtime=fr,
                                   verb=0, bandpass=bp, **kw)
                elif routine == 'analytical':
                    kw.pop('depth')
                    empymod.analytical(a, b, freqtime=fr, verb=0, **kw)
                else:
                    f = None
                    t = np.abs(fr)
                    k2 = dict(freqtime=t, signal=0, verb=0, bandpass=bp)
                    fa = {'dlf': 'key_81_2009', 'pts_per_dec': 0} if \
                        routine[-1] == '0' else {}
                    k2['ftarg'] = fa
                    if routine[:4] == 'time':
                        empymod.dipole(a, b, **k2, **kw)
                    else:
                        empymod.bipole([*a, 0, 0], [*b, 0, 0], **k2, **kw)
                    f = np.ravel(check_time(t, 0, 'dlf', fa, 0, new=True)[1])
                R.ev()
                R.tr()
                R.trace()
                R.state((c, swap, routine, str(fr), str(extra)))
                kinds = [r[0] for r in rec]
                R.outcome(tuple(kinds))
                need = {'eta', 'zeta'} | ({'band'} if routine != 'analytical'
                                          else set())
                if set(kinds) != need:
                    R.fail('called', f'{c} {routine} {fr}: {kinds}')
                    continue
                par = ref.params(f if routine[0] == 't' else fr,
                                 *A.par)
                for kind, inp, p in rec:
                    tag = f'{c} {kind} {routine} swap={swap} {fr}'
                    if kind == 'band':
                        if inp.get('xyz') != 'anything' or \
                                inp.get('num') != 7:
                            R.fail('band input', f'{tag}: {inp}')
                        if np.shape(p['EM']) != (f.size, 3):
                            R.fail('band EM', f'{tag}: {np.shape(p["EM"])}')
                    else:
                        ok = (np.array_equal(inp['foo'], extra) and
                              np.array_equal(inp['bar'], np.ones(n)*3) and
                              np.allclose(inp['res'], A.par[0], rtol=1e-14))
                        if not ok:
                            R.fail('hook input', f'{tag}: {inp}')
                    if np.shape(p['freq']) != f.shape or not np.allclose(
                            p['freq'], np.abs(f), rtol=1e-12):
                        R.fail('hook freq', f'{tag}: {np.shape(p["freq"])} '
                               f'instead of {f.shape}')
                    for k, w in zip(('etaH', 'etaV', 'zetaH', 'zetaV'), par):
                        if np.shape(p[k]) != w.T.shape or not np.allclose(
                                p[k], w.T, rtol=1e-8, atol=0):
                            R.fail(f'hook {k}', f'{tag}')
                    for i, k in enumerate(('aniso', 'epermH', 'epermV',
                                           'mpermH', 'mpermV')):
                        if not np.allclose(p[k], A.par[i+1], rtol=1e-12):
                            R.fail(f'hook {k}', f'{tag} {p[k]}')


def _band(c, R):
    M = hx.Model(c['m'])
    z = M.zpos
    a = [np.array([5., -9.]), np.array([4., 1.]), z[0]]
    b = [np.array([300., 900.]), np.array([400., 10.]), z[-1]+2]
    sr = [([*a, 15., 20.], [*b, 30., 70.]),
          ([a[0], a[0]+4, a[1], a[1]+7, z[0], z[0]],
           [b[0], b[0]+5, b[1], b[1]-9, z[-1]+2, z[-1]+4])]

    def scale(inp, p):
        p['EM'] *= inp['c']

    def low(inp, p):
        h = 1/(1+1j*p['freq']/inp['cut'])
        p['EM'] *= h[:, None]

    def cut(inp, p):
        p['EM'][p['freq'] > inp['cut']] *= 0

    def col(inp, p):
        p['EM'] *= (1+np.arange(p['EM'].shape[1]))[None, :]

    def assign(inp, p):
        p['EM'][:, :] = p['EM'] + (p['freq']/(1+p['freq']))[:, None]*1e-9

    F = {
        'scale': (dict(func=scale, c=-2.5), lambda E, f: -2.5*E),
        'low': (dict(func=low, cut=3.), lambda E, f: E/(
            1+1j*f/3.)[:, None, None]),
        'cut': (dict(func=cut, cut=5.), lambda E, f: E*(
            f <= 5.)[:, None, None]),
        'col': (dict(func=col), lambda E, f: E*(1+np.arange(4)).reshape(
            2, 2, order='F')[None]),
        'assign': (dict(func=assign), lambda E, f: E+(
            f/(1+f))[:, None, None]*1e-9),
    }
    calls, mem = {}, {}
    K = dict(htarg={'dlf': 'key_101_2009'})
    for ab in (11, 62, 33, 36):
        calls['dip', ab] = lambda ab=ab, **k: empymod.dipole(
            a, b, ab=ab, verb=0, squeeze=False, **k, **K, **M.kw)
    for i, (s, r) in enumerate(sr):
        for mt in ((False, True), (False, 'j'), ('b', False)):
            calls['bip', i, mt] = lambda s=s, r=r, mt=mt, **k: \
                empymod.bipole(s, r, msrc=mt[0], mrec=mt[1], verb=0,
                               strength=3., squeeze=False, **k, **K, **M.kw)
    if c['ft'] is None:
        for (n, f), (name, (bp, H)), fr, lp in itertools.product(
                calls.items(), F.items(), ([.7, 9., 80.], [9.]),
                (None, 'freq', 'off')):
            fr = np.array(fr)
            g = np.array(f(freqtime=fr, bandpass=bp, loop=lp))
            w = H(np.array(f(freqtime=fr, loop=lp)), fr)
            hx.cmp(R, f'band {name}', f'{c} {n} {fr} {lp}', g, w,
                   np.max(np.abs(w)), rtol=1e-10, stol=1e-13, name='band')
            R.ev(2)
            R.tr()
            R.trace()
            R.state((c, n, name, fr.size, lp))
        return
    ft, arg = FT[c['ft']]
    if c['q']:
        for n in [('dip', 62), ('dip', 36), ('bip', 1, (False, True)),
                  ('bip', 1, ('b', False)), ('bip', 0, (False, True))]:
            calls.pop(n)
    for (n, f), (name, (bp, H)), sig, nt in itertools.product(
            calls.items(), F.items(), (0, 1, -1), (1, 2, 3)):
        if (sig == -1 or nt == 2 or (nt == 1 and name[0] == 's')) and n[:2] not in (('dip', 11), ('bip', 0)):
            continue
        t = np.array([.3, .04, 2.])[:nt]
        g = np.array(f(freqtime=t, signal=sig, ft=ft, ftarg=arg,
                       bandpass=bp))
        tm, fq, ft2, fa, sg = check_time(t, sig, ft, dict(arg), 0, new=True)
        fl = np.ravel(fq)
        if (n, fl.size, fl[0], fl[-1]) not in mem:
            mem[n, fl.size, fl[0], fl[-1]] = np.array(f(freqtime=fl))
        E = H(mem[n, fl.size, fl[0], fl[-1]].copy(), fl)
        E2 = E.reshape(fl.size, -1, order='F')
        w, _ = empymod.model.tem(E2, E2[0], fq, tm, sg, ft2, fa)
        w = w.reshape((-1, *E.shape[1:]), order='F')
        hx.cmp(R, f'band time {name}', f'{c} {n} {sig} {t}', g, w,
               np.max(np.abs(w)), rtol=1e-7, stol=1e-7, name='bandt')
        R.ev(2)
        R.tr()
        R.trace()
        R.state((c, n, name, sig, nt))
        R.outcome(float(g.flat[0]))
