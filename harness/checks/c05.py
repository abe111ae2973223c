"""C05: vectorised calls equal individual calls; output layout."""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, ABS, cmp

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sizes, input forms and loop options; '
             'individual calls on the real code as oracle')
NOTE = ('All combinations of 1-3 sources, receivers, frequencies/times, loop '
        'options, transform settings, shared/individual depths and angles; '
        'every element compared with its individual call; offsets and times '
        'over decades in every order and with repetitions. Sizes above 3 are '
        'not explored.')
WARM = 'cf'
RULE = ('(routine, sizes, form, options, component); non-trivial if more than '
        'one element is requested')
BOUNDS = {'quick': 'sizes 1-3 (quadrature methods and bipoles: 1-2 plus '
          'selected 3), 2 models', 'thorough': 'sizes 1-3 everywhere, 4 models'}
FILT = ref.load_filter('key_201_2009')

SX, SY = [12., -40., 77.], [-31., 55., 3.]
RX, RY = [322., -411., 90.], [64., -20., 350.]
FQ = [0.7, 40., 350.]
HT = {
    'std': ('dlf', {'dlf': 'key_201_2009'}),
    'lag': ('dlf', {'dlf': 'key_201_2009', 'pts_per_dec': -1}),
    'spl': ('dlf', {'dlf': 'key_201_2009', 'pts_per_dec': 30}),
    'qwe': ('qwe', {}),
    'qws': ('qwe', {'pts_per_dec': 40}),
    'quad': ('quad', {'pts_per_dec': 20, 'limit': 200}),
}


def cases(tier):
    q = tier == 'quick'
    out = []
    ms = [(2, 0, 1), (3, 1)] if q else [(2, 0, 1), (3, 1), (1,), (0, 3, 1, 0)]
    for m in ms:
        for ht in HT:
            slow = ht in ('qwe', 'qws', 'quad')
            if slow and m != ms[0]:
                continue
            sizes = itertools.product((1, 2, 3), repeat=3)
            if slow:
                sizes = [(2, 2, 1), (1, 2, 2)]
                if not q:
                    sizes += [(1, 3, 2), (3, 1, 2)]
            for nsrc, nrec, nf in sizes:
                out.append({'k': 'dip', 'm': m, 'ht': ht,
                            'n': (nsrc, nrec, nf)})
        if q and m != ms[0]:
            continue
        nn = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)]
        if not q:
            nn = list(itertools.product((1, 2, 3), repeat=2))
        for n in nn:
            for fs, fr in itertools.product(('p', 'f'), repeat=2):
                for zs, zr in itertools.product((0, 1), repeat=2):
                    out.append({'k': 'bip', 'm': m, 'n': n, 'f': (fs, fr),
                                'z': (zs, zr)})
        for ft in ('dlf', 'dlf0', 'dlf20', 'qwe', 'fftlog', 'fft'):
            for sig in (-1, 0, 1):
                out.append({'k': 'time', 'm': m, 'ft': ft, 'sig': sig})
    out.append({'k': 'forms', 'm': ms[0]})
    out += [{'k': 'close', 'w': w} for w in CLOSE]
    out += [{'k': 'wide', 'm': m, 'ht': ht} for m in ((0, 1), (3, 1, 0))
            for ht in HT if m == (0, 1) or ht in ('lag', 'spl', 'std')]
    out += [{'k': 'widet', 'm': (0, 1), 'ft': ft, 'sig': s} for ft in FT
            for s in (0, 1, -1) if ft != 'fft']
    for sol in ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'):
        out.append({'k': 'ana', 'm': (0,), 'sol': sol})
    order = {'time': 0, 'forms': 0, 'close': 0, 'wide': 0, 'widet': 0, 'dip': 1, 'ana': 2, 'bip': 3}
    return sorted(out, key=lambda c: (c.get('ht', 'z') in ('std', 'lag', 'spl'),
                                      order[c['k']]))


# Large, almost equal values: relative differences down to 1e-8.
CLOSE = ['x', 'y', 'z', 'az', 'dip', 'far']


def do_close(c, R, M):
    dep, res = [0, 3000.01, 3000.5], [1e12, .3, 50, .1]
    for d in (.02, .3, 5., -.6):
        two = [0., d]
        w = c['w']
        off = 6e6 if w == 'far' else 0.
        x = np.array([.4+off]*2)+(two if w in ('x', 'far') else 0)
        y = np.array([.3+off]*2)+(two if w in ('y', 'far') else 0)
        z = np.array([3000.]*2)+(two if w == 'z' else 0)
        az = np.array([720.]*2)+(two if w == 'az' else 0)
        dp = np.array([-720.]*2)+(two if w == 'dip' else 0)
        if w == 'z':
            forms = [(x, y, z, 0, 90), (x, y, z, az+30, dp+20)]
        else:
            forms = [(x, y, z, az, dp), (x, y, 3000., az+33, dp+20)]
        forms += [(x-.1, x+.2, y-.2, y+.1, z, z+.002), (x, x+.1, y, y, z, z)]
        o = [off-.1, off+.2, 2999.7, 20, 40]
        for f in forms:
            ind = [[np.ravel(v)[i] if np.size(v) > 1 else v for v in f]
                   for i in range(2)]
            for side in (0, 1):
                kw = dict(depth=dep, res=res, freqtime=[1., 9e3], verb=0,
                          ht='dlf', htarg={'dlf': 'key_201_2009'})

                def call(g):
                    s, r = (o, g) if side else (g, o)
                    R.ev()
                    return empymod.bipole(list(s), list(r), **kw)
                v = call(f)
                t = np.stack([call(g) for g in ind], 1)
                cmp(R, f'close {w}', f'{c} {d} {len(f)} side {side}', v, t,
                    np.max(np.abs(t)), rtol=1e-6, stol=1e-9, name='close')
                R.tr()
                R.state((c, d, str(f), side))
                R.outcome(complex(np.ravel(t)[1]))


def run_case(c, R):
    globals()['do_'+c['k']](c, R, Model(c['m']) if 'm' in c else None)


def do_dip(c, R, M):
    nsrc, nrec, nf = c['n']
    ht, htarg = HT[c['ht']]
    tight = c['ht'] in ('std', 'qwe', 'quad')
    abs_ = ABS if c['ht'] == 'std' else [11, 12, 33, 31, 14, 16, 24, 62, 45,
                                         66]
    if c['ht'] in ('qwe', 'quad', 'qws'):
        abs_ = [11, 24, 62]
    for ip, (za, zb) in enumerate([(-10., 60.), (60., 75.)]):
        if c['ht'] in ('qwe', 'qws', 'quad') and ip:
            continue
        src = [SX[:nsrc], SY[:nsrc], za]
        rec = [RX[:nrec], RY[:nrec], zb]
        fr = FQ[:nf]
        tab = {(i, j): M.scale_table([SX[i], SY[i], za], [RX[j], RY[j], zb],
                                     fr, FILT, abs_)
               for i in range(nsrc) for j in range(nrec)}
        for ab in abs_:
            kw = dict(ab=ab, verb=0, ht=ht, htarg=htarg, **M.kw)
            ind = np.zeros((nf, nrec, nsrc), dtype=complex)
            sc = np.zeros((nf, nrec, nsrc))
            for i, j, k in itertools.product(range(nsrc), range(nrec),
                                             range(nf)):
                ind[k, j, i] = empymod.dipole(
                    [SX[i], SY[i], za], [RX[j], RY[j], zb], freqtime=fr[k],
                    **kw)
                sc[k, j, i] = tab[i, j][ab][1][k]
                R.ev()
            for loop in (None, 'freq', 'off'):
                for sq in (True, False):
                    v = empymod.dipole(src, rec, freqtime=fr, loop=loop,
                                       squeeze=sq, **kw)
                    R.ev()
                    R.tr()
                    w = np.squeeze(ind) if sq else ind
                    s = np.squeeze(sc) if sq else sc
                    # interpolated methods: interpolation error
                    t = 1e-9 if tight else 2e-4
                    cmp(R, f'dipole {c["ht"]}',
                        f'{c} z={za, zb} ab={ab} loop={loop} sq={sq}', v, w,
                        s, rtol=t, stol=max(t, 2e-8), name=c['ht'])
                    R.state((c, za, ab, loop, sq), ind.size > 1)
            R.outcome(complex(ind.flat[-1]))


def do_bip(c, R, M):
    ns, nr = c['n']
    fr = FQ[:2]

    def args(n, form, zind, x, y, z, azarr):
        xx, yy = np.array(x[:n]), np.array(y[:n])
        zz = z+(np.arange(n)*37. if zind else 0*np.arange(n))
        if form == 'p':
            az = 20.+(np.arange(n)*61. if azarr else 0*np.arange(n))
            dp = -15.+(np.arange(n)*33. if azarr else 0*np.arange(n))
            full = [xx, yy, zz if zind else z, az if azarr else 20.,
                    dp if azarr else -15.]
            ind = [[xx[i], yy[i], zz[i], az[i], dp[i]] for i in range(n)]
        else:
            d = np.array([[3., 1., 2.], [-2., 4., 0.], [1., 1., -4.]])[:n]
            if not azarr:
                d = d*0+np.array([3., 1., 0])
            z0, z1 = zz-d[:, 2], zz+d[:, 2]
            full = [xx-d[:, 0], xx+d[:, 0], yy-d[:, 1], yy+d[:, 1],
                    z0 if zind or azarr else z0[0],
                    z1 if zind or azarr else z1[0]]
            ind = [[f[i] if np.ndim(f) else f for f in full]
                   for i in range(n)]
        return full, ind

    big = np.zeros(2)
    for azs, azr in itertools.product((0, 1), repeat=2):
        src, isrc = args(ns, c['f'][0], c['z'][0], SX, SY, -20., azs)
        rec, irec = args(nr, c['f'][1], c['z'][1], RX, RY, 60., azr)
        for ts, tr, st, npt in [(False, False, 0, 1), (True, 'j', 2., 3),
                                ('b', True, 0, 3), (False, 'b', 5., 2)]:
            kw = dict(msrc=ts, mrec=tr, strength=st, srcpts=npt, recpts=npt,
                      verb=0, ht='dlf', **M.kw)
            ind = np.zeros((2, nr, ns), dtype=complex)
            for i, j in itertools.product(range(ns), range(nr)):
                ind[:, j, i] = empymod.bipole(isrc[i], irec[j], freqtime=fr,
                                              **kw)
                R.ev()
            big = np.max(np.abs(ind), axis=(1, 2), keepdims=True)
            for loop in (None, 'freq', 'off'):
                v = empymod.bipole(src, rec, freqtime=fr, loop=loop,
                                   squeeze=False, **kw)
                R.ev()
                R.tr()
                cmp(R, f'bipole {c["f"]} {c["z"]}',
                    f'{c} az={azs, azr} {ts, tr} strength={st} pts={npt} '
                    f'loop={loop}', v, ind, big, rtol=1e-8, stol=1e-7)
                R.state((c, azs, azr, str(ts), loop), ind.size > 2)
            v2 = empymod.bipole(src, rec, freqtime=fr, **kw)
            cmp(R, 'bipole squeeze', f'{c} squeezed', v2, np.squeeze(v),
                0*np.squeeze(v).real, rtol=1e-8, stol=0)
            R.outcome(complex(ind.flat[-1]))


FT = {'dlf': ('dlf', {}), 'dlf0': ('dlf', {'pts_per_dec': 0}),
      'dlf20': ('dlf', {'pts_per_dec': 20}), 'qwe': ('qwe', {'pts_per_dec': 40}),
      'fftlog': ('fftlog', {'pts_per_dec': 40, 'add_dec': [-5, 5]}),
      'fft': ('fft', {'dfreq': 0.02, 'nfreq': 256, 'ntot': 512})}


def do_time(c, R, M):
    ft, ftarg = FT[c['ft']]
    times = [0.1, 0.3, 1.]
    sizes = itertools.product((1, 2), (1, 2), (1, 2, 3))
    if c['ft'] in ('fft', 'dlf0', 'qwe'):
        sizes = [(2, 2, 3), (1, 2, 2), (2, 1, 1)]
    for n in sizes:
        nsrc, nrec, nt = n
        sx = 4000.
        src = [[0., sx][:nsrc], 0., -20.]
        rec = [[2000., -2500.][:nrec], 100., 60.]
        for ab in (11, 63) if n == (2, 2, 3) else (11,):
            kw = dict(ab=ab, verb=0, signal=c['sig'], ft=ft, ftarg=ftarg,
                      **M.kw)
            v = empymod.dipole(src, rec, freqtime=times[:nt], squeeze=False,
                               **kw)
            ind = np.zeros((nt, nrec, nsrc))
            for i, j, k in itertools.product(range(nsrc), range(nrec),
                                             range(nt)):
                ind[k, j, i] = empymod.dipole(
                    [[0., sx][i], 0., -20.], [[2000., -2500.][j], 100., 60.],
                    freqtime=times[k], **kw)
                R.ev()
            t = {'dlf0': 1e-8, 'fft': 1e-8, 'qwe': 4e-2, 'fftlog': 1e-2}.get(
                c['ft'], 5e-3)
            cmp(R, f'time {c["ft"]}', f'{c} {n} {ab}', v, ind,
                np.max(np.abs(ind))+0*ind, rtol=t, stol=t, name=c['ft'])
            # order of times and repetition do not matter, within the same
            # set of times
            if nt == 3:
                for perm in itertools.permutations(range(3)):
                    w = empymod.dipole(src, rec, squeeze=False,
                                       freqtime=[times[p] for p in perm], **kw)
                    cmp(R, f'order {c["ft"]}', f'{c} {perm}', w,
                        np.asarray(v)[list(perm)], np.max(np.abs(ind)),
                        rtol=1e-8, stol=1e-8, name='perm')
                    R.ev()
            R.ev()
            R.tr()
            R.state((c, n, ab), ind.size > 1)
            R.outcome(float(ind.flat[-1]))


def do_wide(c, R, M):
    """Offsets over decades, in any order; same depth: slow decay."""
    ht, htarg = HT[c['ht']]
    slow = ht in ('qwe', 'quad')
    offs = [60., 900., 8000.]
    tol = {'spl': 2e-3, 'lag': 2e-3, 'qws': 2e-3, 'quad': 2e-3}.get(
        c['ht'], 1e-9)
    for z, ab in itertools.product([40.] if slow else [40., M.zpos[-1]],
                                   [11, 62] if slow else
                                   [11, 22, 33, 31, 24, 62, 14, 66]):
        kw = dict(ab=ab, verb=0, ht=ht, htarg=htarg, freqtime=[.7, 40.],
                  **M.kw)

        def call(x):
            x = np.array(x)
            R.ev()
            return empymod.dipole([0., 0., z], [.8*x, .6*x, z+.25],
                                  squeeze=False, **kw)[:, :, 0]
        ind = np.concatenate([call([x]) for x in offs], axis=1)
        one = call(offs)
        sc = np.stack([M.scale_table([0., 0., z], [.8*x, .6*x, z+.25],
                                     [.7, 40.], FILT, [ab])[ab][1]
                       for x in offs], axis=1)
        cmp(R, f'wide {c["ht"]}', f'{c} z={z} ab={ab}', one, ind,
            sc, rtol=tol, stol=tol, name='wide '+c['ht'])
        for p in [*itertools.permutations(range(3)), (2, 0), (1, 2, 2, 0),
                  (2, 0, 2), (0, 2)]:
            p = list(p)
            got = call([offs[i] for i in p])
            cmp(R, f'wide order {c["ht"]}', f'{c} z={z} ab={ab} {p}', got,
                one[:, p], sc[:, p], rtol=1e-9, stol=1e-9,
                name='wideperm '+c['ht'])
            R.tr()
            R.state((c, z, ab, tuple(p)))
        R.outcome(complex(one[0, 0]))


def do_widet(c, R, M):
    """Times over decades, in any order."""
    ft, ftarg = FT[c['ft']]
    ts = [1e-3, .3, 20.]
    kw = dict(src=[0., 0., -20.], rec=[900., 100., 60.], verb=0,
              signal=c['sig'], ft=ft, ftarg=ftarg, **M.kw)

    def call(x):
        R.ev()
        return np.ravel(empymod.dipole(freqtime=x, **kw))
    for ab in (11, 63, 33):
        kw['ab'] = ab
        one = call(ts)
        for p in [*itertools.permutations(range(3)), (1, 2, 2, 0),
                  (2, 0, 2), (0, 2)]:
            p = list(p)
            cmp(R, f'wide times {c["ft"]}', f'{c} ab={ab} {p}',
                call([ts[i] for i in p]), one[p], np.abs(one[p]), rtol=1e-9,
                stol=1e-9, name='widet')
            R.tr()
            R.state((c, ab, tuple(p)))
        if c['ft'] in ('dlf', 'dlf0', 'dlf20'):
            ind = np.concatenate([call([x]) for x in ts])
            cmp(R, f'wide times one {c["ft"]}', f'{c} ab={ab}', one, ind,
                np.max(np.abs(ind))+0*ind, rtol=2e-2, stol=1e-4,
                name='widet1')
        R.outcome(float(one[0]))


def do_forms(c, R, M):
    """Equivalent forms of the same input give identical results."""
    xyz = {
        'list': lambda x: list(x), 'tuple': lambda x: tuple(x),
        'array': lambda x: np.array(x), 'onearr': lambda x: np.array(x),
    }
    kw = M.kw
    want = empymod.dipole([0, 0, -20], [[300, 400], [100, 100], 60],
                          freqtime=[1., 2.], verb=0, ab=13, **kw)

    def chk(name, v, w=None):
        w = want if w is None else w
        R.ev()
        R.tr()
        R.state(name)
        R.outcome(complex(np.ravel(v)[0]))
        if np.shape(v) != np.shape(w) or not np.allclose(
                v, w, rtol=1e-12, atol=0):
            R.fail('forms', f'{name}: {v} instead of {w}')

    srcs = {'list': [0, 0, -20], 'tuple': (0, 0, -20),
            'array': np.array([0, 0, -20]), 'farray': np.array([0., 0, -20]),
            'lists': [[0], [0], [-20]], 'arr2': np.array([[0], [0], [-20]]),
            'arrays': [np.array([0.]), np.array([0.]), np.array([-20.])]}
    recs = {'yscalar': [[300, 400], 100, 60], 'ylist': [[300, 400], [100],
                                                        [60]],
            'tuple': ((300., 400.), (100., 100.), 60.),
            'arrays': [np.array([300, 400]), np.array([100, 100]),
                       np.array([60])]}
    freqs = {'list': [1., 2.], 'tuple': (1, 2), 'array': np.array([1, 2]),
             'farray': np.array([1., 2.])}
    pars = {'array': lambda v: np.array(v), 'list': lambda v: list(v),
            'tuple': lambda v: tuple(v)}
    for (a, s), (b, r), (d, f), (e, g) in itertools.product(
            srcs.items(), recs.items(), freqs.items(), pars.items()):
        chk((a, b, d, e), empymod.dipole(
            s, r, freqtime=f, verb=0, ab=13,
            **{k: g(v) for k, v in kw.items()}))
    # y-array with x-scalar
    w2 = empymod.dipole([0, 0, -20], [[300, 300], [100, 200], 60],
                        freqtime=1., verb=0, **kw)
    chk('xscalar', empymod.dipole([0, 0, -20], [300, [100, 200], 60],
                                  freqtime=1., verb=0, **kw), w2)
    w3 = empymod.dipole([[0, 1], [5, 5], -20], [300, 100, 60], freqtime=1.,
                        verb=0, **kw)
    chk('src yscalar', empymod.dipole([[0, 1], 5, -20], [300, 100, 60],
                                      freqtime=1., verb=0, **kw), w3)
    chk('src 1-array', empymod.dipole([np.array([0, 1]), [5], [-20]],
                                      [[300], [100], [60]], freqtime=[1],
                                      verb=0, **kw), w3)
    # scalar depth/res forms
    w4 = empymod.dipole([0, 0, -20], [300, 100, 60], [0], [1e6, 2], 1, verb=0)
    for dp in (0, 0., [0], np.array([0]), np.array(0), (0,), [-np.inf, 0],
               [0, np.inf], [-np.inf, 0, np.inf]):
        for rs in ([1e6, 2], (1e6, 2), np.array([1e6, 2])):
            chk(('depth', str(dp)), empymod.dipole(
                [0, 0, -20], [300, 100, 60], dp, rs, 1, verb=0), w4)
    # decreasing order
    for dp in ([np.inf, 0], [0, -np.inf], [np.inf, 0, -np.inf]):
        chk(('depth', str(dp)), empymod.dipole(
            [0, 0, -20], [300, 100, 60], dp, [2, 1e6], 1, verb=0), w4)
    w5 = empymod.dipole([0, 0, -20], [300, 100, 60], [], 2., 1, verb=0)
    for dp in ([], np.array([]), (), [-np.inf], [np.inf], [-np.inf, np.inf]):
        for rs in (2, 2., [2], np.array([2.]), (2,)):
            chk(('full', str(dp), str(rs)), empymod.dipole(
                [0, 0, -20], [300, 100, 60], dp, rs, 1, verb=0), w5)
    # bipole forms
    w6 = empymod.bipole([0, 0, -20, 30, 10], [[300, 400], [100, 100], 60, 20,
                                              5], freqtime=1, verb=0, **kw)
    for s in ((0, 0, -20, 30, 10), np.array([0, 0, -20, 30, 10]),
              [[0], [0], [-20], [30], [10]], [0., 0, [-20], 30, [10]]):
        for r in ([[300, 400], 100, 60, 20, 5],
                  [[300, 400], [100, 100], [60, 60], [20, 20], [5, 5]],
                  [np.array([300, 400]), [100], [60], [20], [5, 5]]):
            chk(('bip', str(s), str(r)), empymod.bipole(
                s, r, freqtime=1, verb=0, **kw), w6)
    w7 = empymod.bipole([0, 10, 0, 5, -20, -22],
                        [[300, 400], [310, 410], 100, 110, 60, 60],
                        freqtime=1, verb=0, recpts=3, **kw)
    for s in ((0, 10, 0, 5, -20, -22), np.array([0, 10, 0, 5, -20, -22.]),
              [[0], [10], [0], [5], [-20], [-22]]):
        for r in ([[300, 400], [310, 410], [100, 100], [110, 110], 60, [60]],
                  [[300, 400], [310, 410], [100], [110], [60, 60],
                   [60, 60]]):
            chk(('bipf', str(s), str(r)), empymod.bipole(
                s, r, freqtime=1, verb=0, recpts=3, **kw), w7)


def do_ana(c, R, M):
    sol = c['sol']
    fr, memo = FQ, {}
    sigs = [None] if sol == 'fs' else [None, -1, 0, 1]
    abs_ = ABS if sol == 'fs' else [11, 12, 13, 21, 22, 23, 31, 32, 33]
    for n in itertools.product((1, 2, 3), repeat=3):
        ns, nr, nf = n
        for ab in abs_:
            for sig in sigs:
                f = FQ[:nf] if sig is None else [0.1, 1., 3.][:nf]
                kw = dict(solution=sol, signal=sig, ab=ab, aniso=1.3, verb=0)
                v = empymod.analytical([SX[:ns], SY[:ns], 10.],
                                       [RX[:nr], RY[:nr], 40.], 2., f,
                                       squeeze=False, **kw)
                vs = empymod.analytical([SX[:ns], SY[:ns], 10.],
                                        [RX[:nr], RY[:nr], 40.], 2., f, **kw)
                R.ev(2)
                tup = sol in ('dsplit', 'dtetm')
                parts = v if tup else [v]
                for ip, p in enumerate(parts):
                    p = np.asarray(p)
                    if p.shape != (nf, nr, ns):
                        R.fail('ana shape', f'{c} {n} {ab} {sig}: {p.shape}')
                        return
                    for i, j, k in itertools.product(range(ns), range(nr),
                                                     range(nf)):
                        mk = (ab, sig, i, j, k)
                        if mk not in memo:
                            memo[mk] = empymod.analytical(
                                [SX[i], SY[i], 10.], [RX[j], RY[j], 40.], 2.,
                                f[k], **kw)
                            R.ev()
                        w = memo[mk]
                        w = np.asarray(w)[ip] if tup else np.asarray(w)
                        cmp(R, f'ana {sol}', f'{c} {n} {ab} {sig} part {ip} '
                            f'{i, j, k}', p[k, j, i], w,
                            np.max(np.abs(p)), rtol=1e-9, stol=1e-12)
                if not np.array_equal(np.squeeze(np.asarray(v)),
                                      np.asarray(vs), equal_nan=True):
                    R.fail('ana squeeze', f'{c} {n} {ab} {sig}')
                R.tr()
                R.state((c, n, ab, sig), ns*nr*nf > 1)
                R.outcome(complex(np.ravel(p)[0]))
