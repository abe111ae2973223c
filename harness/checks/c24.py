"""C24: analytical full- and half-space solutions.

Every solution x electric component pair x domain and signal x resistivity,
anisotropy x source and receiver position of an alphabet, against an
independent numerical solution (transmission line; Talbot inversion in the
time domain), part by part; all sizes together as one by one; ignored
parameters; unsupported combinations.
"""
import itertools
import warnings
import numpy as np
import empymod
import ref
import hx
from c09 import talbot_nodes, NT

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of solution x component pair x domain/'
             'signal x model x positions x sizes on the real code; '
             'independent transmission-line solution, mode by mode, and its '
             'Talbot inversion as oracle')
NOTE = ('fs: 36 component pairs x 6 materials x 16 geometries x frequency and '
        'Laplace; dfs, dhs, dsplit, dtetm: 9 pairs x 3 models x 28 positions '
        'x frequency, Laplace, impulse, switch-on, switch-off; every part '
        'checked individually; all sizes to 3; lists mixing positive, zero and '
        'negative frequencies.')
WARM = 'cf'
RULE = ('one state per (solution, component pair, domain, model, positions); '
        'non-trivial if the response is not zero')
BOUNDS = {'quick': '2 (aniso)tropic models for the diffusive solutions, 4 '
          'materials for fs',
          'thorough': '5 models for the diffusive solutions, 6 materials'}
ASSUMPTIONS = ['source and receiver at or below the interface for the half-'
               'space (documented, not checked by the code)',
               'Laplace and frequency values up to 1e4; times of 0.02 to 1e6 '
               'diffusion times, relative to the largest part']
FILT = ref.load_filter('key_201_2009')
EE = [11, 12, 13, 21, 22, 23, 31, 32, 33]
DMOD = [(1., 1.), (20., 1.8), (.3, .7), (1e4, 1.), (500., 3.)]
DOM = ['f', 's', 0, 1, -1]
PARTS = {'dfs': ('dir',), 'dhs': ('all',), 'dsplit': ('dir', 'ref', 'air'),
         'dtetm': ('dirTE', 'dirTM', 'refTE', 'refTM', 'air')}


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in range(4 if q else 6):
        out += [{'k': 'fs', 'm': m, 'dom': d} for d in 'fs']
    for m in DMOD[:2] if q else DMOD:
        for i in range(len(POS)):
            out.append({'k': 'diff', 'm': m, 'i': i})
    out += [{'k': 'vert', 'm': m} for m in (DMOD[:2] if q else DMOD)]
    out += [{'k': 'sizes', 'sol': s, 'dom': d} for s in ('fs', *PARTS)
            for d in DOM if s != 'fs' or d in ('f', 's')]
    out += [{'k': 'ignored', 'sol': s} for s in PARTS]
    out += [{'k': 'mixed', 'sol': s} for s in ('fs', *PARTS)]
    out += [{'k': 'late'}, {'k': 'bad'}]
    return out


# (source depth, receiver depth, offset, azimuth)
POS = [(a, b, r, t) for a, b in ((0., 0.), (0., 180.), (40., 0.), (40., 40.),
                                 (40., 180.), (300., 40.), (300., 310.))
       for r, t in ((220., .6), (220., 2.5), (3000., 0.), (60., np.pi/2))]


def run_case(c, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def _fs(c, R):
    res, an, eH, eV, mH, mV = hx.MAT[c['m']]
    M = hx.Model((c['m'],))
    freq = hx.FREQ[c['dom']]
    for dz in (0., 80., -80., 3e3):
        for r, t in ((120., .6), (120., 2.5), (40., 0.), (90., -np.pi/2)):
            a = [3., 7., 55.]
            b = [3+r*np.cos(t), 7+r*np.sin(t), 55+dz]
            tab = M.scale_table(a, b, freq, FILT)
            for ab in hx.ABS:
                got = empymod.analytical(
                    a, b, res, freq, ab=ab, aniso=an, epermH=eH, epermV=eV,
                    mpermH=mH, mpermV=mV, verb=0)
                w, s = tab[ab]
                if dz > 1e3:
                    s = s+np.max([tab[x][1] for x in hx.ABS if (x > 39) ==
                                  (ab > 39) and (x % 10 > 3) ==
                                  (ab % 10 > 3)], axis=0)
                hx.cmp(R, f'fs ab{ab}', f'{c} dz {dz} r {r} {t} ab={ab}', got,
                       w, s, rtol=1e-6, stol=2e-6, name='fs')
                R.ev()
                R.trace()
                R.tr()
                R.state((c['m'], c['dom'], dz, r, t, ab), bool(np.any(w)))


def _params(s, res, an):
    """eta, zeta [layer, s] without displacement currents; air, ground."""
    cond = np.array([1e-13, 1/res])
    condv = np.array([1e-13, 1/(res*an**2)])
    one = np.ones_like(s)
    z = ref.MU0*np.array([one*s, one*s])
    return cond[:, None]*one, condv[:, None]*one, z, z.copy()


def parts(m, zs, zr, r, t, s, abs_=EE):
    """Parts of the response per component pair, for complex Laplace s."""
    res, an = m
    p = _params(s, res, an)
    kap = FILT[0]/r
    dep = [-1e-7]
    half = ref.kernels(kap, zs, zr, dep, *p)
    full = ref.kernels(kap, zs, zr, np.zeros(0), *(x[1:] for x in p))
    out = {}
    for ab in abs_:
        v = {}
        for mode in ('TM', 'TE'):
            for n, K, d, pp in (('h', half, dep, p),
                                ('f', full, np.zeros(0),
                                 [x[1:] for x in p])):
                K0 = {k: x if k[0] == mode else (0*x[0], 0*x[1])
                      for k, x in K[0].items()}
                co = ref.dipole_coefs(ab, kap, zs, zr, d, *pp,
                                      K=(K0, K[1], K[2]))
                if co[0]:
                    v[n+mode] = ref.hankel(co, kap, *FILT, r, t)
                else:
                    v[n+mode] = np.zeros(len(s)), np.zeros(len(s))
        sc = sum(x[1] for x in v.values())
        v = {k: x[0] for k, x in v.items()}
        # The modes individually contain a term which cancels in their sum and
        # which the solution does not have ([SlHM10]).
        x, y = r*np.cos(t), r*np.sin(t)
        g = np.sqrt(s*ref.MU0/res)
        xy = {11: 2*x*x-r*r, 22: 2*y*y-r*r, 12: 2*x*y, 21: 2*x*y}.get(ab, 0)
        n0 = g*res*xy/(4*np.pi*r**4)
        nd, nr = n0*np.exp(-g*abs(zs-zr)), n0*np.exp(-g*(zs+zr))
        sc = sc+np.abs(n0)*1e-3
        o = {'dirTM': v['fTM']-nd, 'dirTE': v['fTE']+nd,
             'refTM': v['hTM']-v['fTM']-nr, 'TEa': v['hTE']-v['fTE']+nr}
        o['dir'] = v['fTM']+v['fTE']
        o['all'] = v['hTM']+v['hTE']
        out[ab] = o, sc
    return out


def _diff(c, R):
    zs, zr, r, t = POS[c['i']]
    res, an = c['m']
    a = [5., -9., zs]
    b = [5+r*np.cos(t), -9+r*np.sin(t), zr]
    tau = ref.MU0*(r*r+(zs+zr)**2)/(4*res)
    times = tau*np.array([1., 20., .2, 1e3, 5.])
    nodes = [talbot_nodes(x) for x in times]
    fr, la = np.array([.5, 90., 1e4]), np.array([2., 300., 1e4])
    S = np.r_[2j*np.pi*fr, la, np.concatenate([n[0] for n in nodes]), 1e-14]
    P = parts(c['m'], zs, zr, r, t, S)
    exp = {}
    for ab, dom in [(x, d) for d in DOM for x in EE]:
        o, sc = P[ab]
        want = exp[ab, dom] = {}
        for k, v in o.items():
            if dom == 'f':
                want[k] = v[:3]
            elif dom == 's':
                want[k] = v[3:6].real
            else:
                x = v[6:-1].reshape(len(times), NT)
                sg = 0 if dom == 0 else 1
                w = np.array([np.real(np.sum(n[1]*y/(n[0] if sg else 1)))
                              for n, y in zip(nodes, x)])
                want[k] = v[-1].real-w if dom == -1 else w
    for ab, dom in exp:
        sc, want = P[ab][1], exp[ab, dom]
        if dom in ('f', 's'):
            scale = (sc[:3] if dom == 'f' else sc[3:6])
            rtol, stol = 1e-6, 3e-6
        else:
            # Components which vanish: relative to the largest one
            scale = np.max([np.sum([np.abs(exp[x, dom][k]) for k in
                                    ('dirTM', 'dirTE', 'refTM', 'TEa')],
                                   axis=0) for x in EE], axis=0)
            if dom in (1, -1):
                scale = scale+sc[-1]
            scale = scale+np.max(scale)*1e-3
            rtol, stol = 1e-4, 1e-4
        arg = {'f': fr, 's': -la}.get(dom, times)
        got = {}
        for sol, names in PARTS.items():
            g = empymod.analytical(a, b, res, arg, sol,
                                   dom if dom in (0, 1, -1) else None, ab,
                                   an, verb=0)
            R.ev()
            R.tr()
            g = [g] if len(names) == 1 else list(g)
            if len(g) != len(names):
                R.fail('parts', f'{sol} {len(g)}')
                return
            got[sol] = dict(zip(names, g))
            R.state((c['m'], c['i'], ab, dom, sol), bool(np.any(g)))
        tag = f'{c["m"]} {POS[c["i"]]} ab={ab} {dom}'
        G = got['dtetm']
        chk = [('dfs', got['dfs']['dir'], 'dir'),
               ('dhs', got['dhs']['all'], 'all'),
               ('dtetm dirTE', G['dirTE'], 'dirTE'),
               ('dtetm dirTM', G['dirTM'], 'dirTM'),
               ('dtetm refTM', G['refTM'], 'refTM'),
               ('dtetm refTE+air', G['refTE']+G['air'], 'TEa')]
        for n, g, k in chk:
            hx.cmp(R, f'{n} {dom}', f'{tag} {n}', g, want[k], scale,
                   rtol=rtol, stol=stol, name=f'{n} {dom}')
            R.trace()
        # Exact relations between the solutions.
        tot = np.sum(np.abs([G[x] for x in PARTS['dtetm']]), axis=0)
        if dom == -1:
            tot = tot+np.abs(sc[-1])
        D = got['dsplit']
        for n, g, w in [('dir', D['dir'], got['dfs']['dir']),
                        ('dir modes', G['dirTE']+G['dirTM'], D['dir']),
                        ('ref modes', G['refTE']+G['refTM'], D['ref']),
                        ('air', G['air'], D['air']),
                        ('sum', D['dir']+D['ref']+D['air'],
                         got['dhs']['all'])]:
            hx.cmp(R, f'split {n} {dom}', f'{tag} {n}', g, w, tot, rtol=1e-12,
                   stol=1e-12, name='split')
        R.outcome((dom, bool(np.any(want['all']))))


def _vert(c, R):
    """Receiver straight below or above the source; zero offset."""
    res, an = c['m']
    fr, la = np.array([.5, 90.]), np.array([2., 300.])
    for (zs, zr), mo in itertools.product(
            ((0., 180.), (40., 180.), (300., 40.)), (None, 0.)):
        # The reference is evaluated close by.
        P = parts(c['m'], zs, zr, 2., np.pi/4, np.r_[2j*np.pi*fr, la])
        for ab, dom in itertools.product(EE, 'fs'):
            o, sc = P[ab]
            i = slice(0, 2) if dom == 'f' else slice(2, 4)
            try:
                if mo is not None:
                    empymod.set_minimum(min_off=mo)
                g = empymod.analytical([1., 2., zs], [1., 2., zr], res,
                                       fr if dom == 'f' else -la, 'dhs', None,
                                       ab, an, verb=0)
            finally:
                empymod.set_minimum(min_off=1e-3)
            s = np.max([np.abs(P[x][0]['all'][i]) for x in (11, 33)], axis=0)
            w = o['all'][i]*(ab in (11, 22, 33))
            hx.cmp(R, f'vertical ab{ab}', f'{c} {zs} {zr} {ab} {dom} {mo}', g,
                   w, s, rtol=1e-3, stol=1e-4, name='vert')
            R.ev()
            R.tr()
            R.trace()
            R.state((c['m'], zs, zr, ab, dom, mo))


def _call(S, Q, f, c, ab, **kw):
    sig = c['dom'] if c['dom'] in (0, 1, -1) else None
    return empymod.analytical(S, Q, 20., f, c['sol'], sig, ab, 1.8, 3., 2.,
                              1.2, 1.1, verb=0, **kw)


def _sizes(c, R):
    """Together as one by one; shapes."""
    np_ = len(PARTS.get(c['sol'], (0,)))
    FT = {'f': [.3, 2e5, 700.], 's': [-1., -3e5, -60.]}.get(
        c['dom'], [1e-4, .3, 2e4])
    for ab in (hx.ABS if c['sol'] == 'fs' else EE):
        for ns, nr, nf, sq in itertools.product(
                (1, 2, 3), (1, 2, 3), (1, 2, 3), (None, True, False)):
            if sq and (ns, nr) != (1, 2):
                continue
            S = [np.array([0., 30., -70.])[:ns], np.array([0., 9., 2.])[:ns],
                 12.]
            Q = [np.array([50., 163., 20.])[:nr],
                 np.array([4., 81., -2.])[:nr], 33.]
            F = np.array(FT)[:nf]
            g = _call(S, Q, F, c, ab, **({} if sq is None else
                                         {'squeeze': sq}))
            R.ev()
            one = np.zeros((np_, nf, nr, ns), complex)
            for i, j, k in itertools.product(range(nf), range(nr),
                                             range(ns)):
                one[:, i, j, k] = _call([S[0][k], S[1][k], S[2]],
                                        [Q[0][j], Q[1][j], Q[2]], F[i], c,
                                        ab)
            if np_ == 1:
                g = [g]
            if len(g) != np_:
                R.fail('sizes parts', f'{c} {len(g)}')
                continue
            for i in range(np_):
                w = one[i] if sq is False else one[i].squeeze()
                hx.cmp(R, f'sizes {c["sol"]} {c["dom"]}',
                       f'{c} ab={ab} {ns} {nr} {nf} {sq} part {i}', g[i], w,
                       np.max(np.abs(one), axis=(0, 2, 3)).min(), rtol=1e-11,
                       stol=1e-14)
                if c['dom'] != 'f' and np.iscomplexobj(g[i]) and ab not in (
                        36, 63) and c['dom'] != 's':
                    R.fail('complex', f'{c} ab={ab}')
            R.tr(ns*nr*nf+1)
            R.trace()
            R.state((c['sol'], c['dom'], ab, ns, nr, nf, sq))


def _mixed(c, R):
    """Any positive value: frequencies; others are the minimum frequency."""
    mn = 1e-3
    sets = [(0., 1., 30.), (30., 0.), (1., -1.), (-2., -5., 40.), (5e-4, 7.),
            (0., 1e-9, 3e-3), (-3., -1., 1e-9), (1e-9, -4.), (-0., 2.),
            (-1., 0., -7.), (0., -3.), (-1e-9, -2.), (0.,), (-0., 0.)]
    for f, ab, ns in itertools.product(sets, hx.ABS if c['sol'] == 'fs'
                                       else EE, (1, 2)):
        F = np.array(f)
        if np.any(F > 0):
            eff = np.maximum(F, mn)
        else:
            eff = -np.maximum(-F, mn)
        S = [np.array([0., 30.])[:ns], np.array([0., 9.])[:ns], 12.]
        Q = [np.array([50., 163.]), np.array([4., 81.]), 33.]
        try:
            empymod.set_minimum(min_freq=mn)

            def call(x):
                return np.array(_call(S, Q, x, {**c, 'dom': 'f'}, ab,
                                      squeeze=False), complex)
            g = call(F)
            w = np.concatenate([call([x]) for x in eff], axis=-3)
        finally:
            empymod.set_minimum(min_freq=1e-20)
        R.ev(1+F.size)
        R.tr()
        R.trace()
        R.state((c['sol'], f, ab, ns))
        hx.cmp(R, f'mixed {c["sol"]}', f'{c} {f} ab={ab} {ns}', g, w,
               np.abs(w), rtol=1e-11, stol=0, name='mixed')


def _ignored(c, R):
    """Permittivities and permeabilities are ignored (diffusive)."""
    for dom, ab in itertools.product(DOM, EE):
        F = {'f': [2e6, .3], 's': [-1e6, -60.]}.get(dom, [3e-6, 2e4])
        sig = dom if dom in (0, 1, -1) else None

        def call(**kw):
            return np.array(empymod.analytical(
                [0, 0, 1.], [12., 7., 4.], 3e4, F, c['sol'], sig, ab, 1.4,
                verb=0, **kw))
        base = call(epermH=0., epermV=0.)
        for kw in ({}, dict(epermH=1.), dict(epermH=80.),
                   dict(epermH=4., epermV=9.), dict(epermV=7.),
                   dict(mpermH=2.), dict(mpermH=2., mpermV=5.),
                   dict(mpermV=3., epermH=[2.])):
            g = call(**kw)
            hx.cmp(R, f'ignored {c["sol"]} {dom}', f'{c} {dom} {ab} {kw}', g,
                   base, np.max(np.abs(base), axis=0).min()*0, rtol=1e-10,
                   name='ignored')
            R.ev()
            R.tr()
            R.trace()
            R.state((c['sol'], dom, ab, str(kw)))


def _late(c, R):
    """Switch-off: static field minus switch-on, at every time."""
    for (res, an), ab, sol in itertools.product(DMOD, EE, PARTS):
        for r, zs, zr in ((300., 20., 50.), (2e4, 100., 900.)):
            tau = ref.MU0*(r*r)/(4*res)
            t = tau*np.logspace(-1, 4, 11)
            t = t[np.argsort(np.sin(np.arange(11)))]
            a, b = [0., 0., zs], [r*.8, r*.6, zr]
            on, off = (np.array(empymod.analytical(
                a, b, res, t, sol, s, ab, an, verb=0)) for s in (1, -1))
            st = on+off
            # The sum is the static field: the same at all times.
            sc = np.max(np.abs(st))
            P = parts((res, an), zs, zr, r, np.arctan2(.6, .8),
                      np.array([1e-16+0j]), [ab])[ab]
            w = {k: v[0].real for k, v in P[0].items()}
            n = PARTS[sol]
            st = st.reshape(len(n), -1)
            R.ev(2)
            R.tr(2)
            R.trace()
            R.state((res, an, ab, sol, r))
            tag = f'{res} {an} ab={ab} {sol} r={r}'
            hx.cmp(R, f'static constant {sol}', tag, st,
                   st[:, :1]+0*st, np.max(np.abs(on)), rtol=1e-9, stol=1e-9)
            G = dict(zip(n, st[:, 0]))
            for k in n:
                g, x = G[k], w.get(k)
                if k in ('refTE', 'ref'):
                    continue
                if k == 'air':
                    kk = 'refTE' if sol == 'dtetm' else 'ref'
                    g = g+G[kk]
                    x = w['TEa']+(0 if sol == 'dtetm' else w['refTM'])
                hx.cmp(R, f'static {k} {sol}', f'{tag} {k}', g, x,
                       P[1][0], rtol=1e-5, stol=1e-5, name='static')


def _bad(c, R):
    base = dict(src=[0, 0, 1], rec=[8, 0, 3], res=2., freqtime=1., verb=0)
    bad = [dict(solution=s, ab=ab, signal=g) for s in PARTS for ab in hx.ABS
           if ab not in EE for g in (None, 0, 1, -1)]
    bad += [dict(solution='fs', ab=ab, signal=g) for ab in hx.ABS
            for g in (0, 1, -1)]
    bad += [dict(solution=s, ab=11) for s in
            ('', 'd', 'hs', 'dsplitt', 'FS', 'dxx', 'fss', None, 1)]
    bad += [dict(solution=s, signal=g) for s in ('fs', *PARTS)
            for g in (2, -2, 'on')]
    bad += [dict(res=[1., 2.]), dict(aniso=[1., 2.]), dict(ab=17),
            dict(ab=1), dict(src=[0, 0]), dict(unknown=1)]
    for kw in bad:
        R.ev()
        R.tr()
        R.state(str(kw))
        try:
            out = empymod.analytical(**{**base, **kw})
        except (ValueError, TypeError):
            R.outcome('raised')
            continue
        except Exception as e:
            R.fail('error type', f'{kw}: {type(e).__name__} {e}')
            continue
        R.fail('accepted', f'{kw}: {out}')
