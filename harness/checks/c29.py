"""C29: equivalent entry points give equal results.

(dip)   dipole for every component and bipole of the same orientation.
(loop)  The deprecated loop routine and bipole.
(low)   fem and tem with the output of the check routines, and the modelling
        routines.
(name)  Methods and filters by name (any case), as object, through deprecated
        functions, by default.
(type)  Numbers, sequences and arrays; defaults given explicitly; positional
        and keyword arguments.
(sig)   Deprecated and current signatures of the check routines.
"""
import contextlib
import io
import itertools
import warnings
import numpy as np
import empymod
from empymod import filters, utils
from empymod.model import fem, tem
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('bounded-exhaustive enumeration of pairs of equivalent calls on '
             'the real code (each result is the oracle of the other)')
NOTE = ('All components x models x domains x methods, all filters, all forms '
        'of every input of an alphabet, one at a time and in pairs.')
WARM = 'cf'
RULE = 'one state per pair of equivalent calls'
BOUNDS = {'quick': '3 models', 'thorough': '8 models, all positions'}
ASSUMPTIONS = ['magnetic/electric types of bipole as documented']

FT = [('dlf', {}), ('dlf', {'dlf': 'key_81_2009', 'kind': 'cos',
                            'pts_per_dec': 10}),
      ('dlf', {'dlf': 'key_101_2012', 'pts_per_dec': 0}),
      ('qwe', {'pts_per_dec': 3, 'maxint': 12}), ('fftlog', {}),
      ('fft', {'dfreq': .1, 'nfreq': 16, 'ntot': 64}),
      ('fft', {'dfreq': .1, 'nfreq': 64, 'pts_per_dec': 6})]
TIME = np.array([.3, .8, 2.])


def cases(tier):
    q = tier == 'quick'
    ms = [(2, 0, 1), (1,), (1, 3)] if q else [
        (2, 0, 1), (1,), (1, 3), (4, 1, 3, 0), (5, 0), (0, 5, 2), (3,),
        (2, 4)]
    out = []
    for m in ms:
        n = len(hx.Model(m).zpos)
        zz = [(0, n-1)] if q else list(itertools.product(range(n), range(n)))
        out += [{'k': 'dip', 'm': m, 'z': z} for z in zz]
        out += [{'k': 'low', 'm': m, 'z': z} for z in zz]
        out += [{'k': 'loop', 'm': m, 'sig': s} for s in (None, 'l', 0, 1, -1)]
        out += [{'k': 'type', 'm': m, 'r': r} for r in ROUT
                if r != 'tmtemod' or len(m) > 1]
    out += [{'k': 'name', 'w': w} for w in ('hankel', 'fourier', 'case')]
    out += [{'k': 'sig'}]
    return out


def run_case(c, R):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            globals()['_'+c['k']](c, R)


DIRS = [(0., 0.), (90., 0.), (0., 90.)]


def ends(M, z, n=1):
    zs, zr = M.zpos[z[0]], M.zpos[z[1]]
    sx, sy = np.array([3., -200.]), np.array([2., 85.])
    rx, ry = np.array([400., 330., -250.]), np.array([30., -260., 100.])
    if n == 1:
        return [3., 2., zs], [400., 30., zr]
    return [sx, sy, zs], [rx, ry, zr]


def _dip(c, R):
    M = hx.Model(c['m'])
    doms = [dict(freqtime=[.5, 30.]), dict(freqtime=[-.5, -30.])]
    doms += [dict(freqtime=TIME, signal=s, ft=f, ftarg=a)
             for s, (f, a) in itertools.product((0, 1, -1), FT[:1]+FT[4:5])]
    hts = [dict(hx.DLF), dict(ht='dlf', htarg={'pts_per_dec': -1}),
           dict(ht='dlf', htarg={'pts_per_dec': 20}),
           dict(ht='qwe', htarg={'maxint': 12, 'nquad': 15})]
    for (i, dom), (j, ht), n in itertools.product(
            enumerate(doms), enumerate(hts), (1, 2)):
        if (i > 1 and j) or (j == 3 and n > 1):
            continue
        a, b = ends(M, c['z'], n)
        for xd in ((False, True, None) if j == 0 else (True,)):
            for loop in ((None, 'off', 'freq') if j < 2 else (None,)):
                if i > 1 and (not xd or loop or n > 1):
                    continue
                if loop and xd is None:
                    continue
                kw = dict(xdirect=xd, loop=loop, verb=0, **dom, **ht, **M.kw)
                D = {ab: np.array(empymod.dipole(a, b, ab=ab, **kw))
                     for ab in hx.ABS}
                for ab in hx.ABS:
                    p, q = ab % 10-1, ab//10-1
                    sc = np.max([np.abs(D[x]) for x in hx.ABS
                                 if (x % 10 > 3) == (p > 2) and
                                 (x//10 > 3) == (q > 2)])
                    g = empymod.bipole([*a, *DIRS[p % 3]],
                                       [*b, *DIRS[q % 3]], msrc=p > 2,
                                       mrec=q > 2, **kw)
                    R.ev(2)
                    R.tr()
                    R.trace()
                    R.state((c['m'], c['z'], i, j, n, xd, loop, ab),
                            ab not in (36, 63))
                    R.outcome(str(np.shape(g)))
                    hx.cmp(R, 'dipole/bipole', f'{c} ab={ab} {dom} {ht} n={n}'
                           f' xdirect={xd} loop={loop}', g, D[ab], scale=sc,
                           rtol=1e-10, stol=1e-10)
                    if type(g) is not type(empymod.dipole(
                            a, b, ab=36, **kw)):
                        R.fail('class', f'{c} {ab} {type(g)}')


def _loop(c, R):
    M = hx.Model(c['m'])
    z = M.zpos
    sig = c['sig']
    dom = dict(freqtime=[.5, 30.]) if sig is None else dict(
        freqtime=[-.5, -30.]) if sig == 'l' else dict(
        freqtime=TIME, signal=sig)
    srcs = [[3., 2., z[0], 30., 20.], [[3., -9.], [2., 40.], z[0], 0., 90.],
            [3., 30., 2., -4., z[0], z[0]+2.]]
    recs = [[400., 30., z[-1], -40., 10.],
            [[400., 300.], 30., [z[-1], z[0]+5.], 0., 90.],
            [400., 440., 30., 20., z[-1], z[-1]+1.]]
    for (i, s), (j, r) in itertools.product(enumerate(srcs), enumerate(recs)):
        for mrec in (None, False, True, 'b', 'loop', 'j'):
            for strength, recpts, over in itertools.product(
                    (0, 3.5), (1, 3), ({}, {'msrc': False, 'srcpts': 4},
                                       {'msrc': True})):
                if recpts > 1 and j < 2 and i:
                    continue
                if sig in (0, 1, -1) and ((i+j) % 3 or strength == 0 or
                                          (over and mrec)):
                    continue
                kw = dict(verb=0, strength=strength, recpts=recpts, **dom,
                          **hx.DLF, **M.kw)
                k = {} if mrec is None else {'mrec': mrec}
                got = empymod.model.loop(s, r, **k, **kw, **over)
                want = empymod.bipole(
                    s, r, msrc='b', mrec=True if mrec is None else mrec, **kw)
                R.ev(2)
                R.tr()
                R.trace()
                R.state((c['m'], sig, i, j, mrec, strength, recpts,
                         str(over)))
                hx.cmp(R, 'loop', f'{c} {i} {j} mrec={mrec} strength='
                       f'{strength} recpts={recpts} {over}', got, want,
                       rtol=1e-12)
                w2 = empymod.bipole(
                    s, r, msrc='loop', mrec='b' if mrec == 'loop' else
                    'loop' if mrec == 'b' else True if mrec is None else mrec,
                    **kw)
                hx.cmp(R, 'loop name', f'{c} {i} {j} mrec={mrec}', w2, want,
                       rtol=1e-12)
    # Warning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        empymod.model.loop(srcs[0], recs[0], verb=0, **dom, **M.kw)
    if not any(issubclass(x.category, DeprecationWarning) for x in w):
        R.fail('no deprecation', f'{c}')


def low(src, rec, depth, res, freqtime, ab, aniso, epermH, epermV, mpermH,
        mpermV, xdirect, ht, htarg, loop, signal=None, ft='dlf', ftarg={}):
    """dipole from its parts."""
    if signal is not None:
        time, freq, ft, ftarg, sig = utils.check_time(
            freqtime, signal, ft, ftarg, 0, True)
    else:
        freq = freqtime
    depth, res, aniso, epermH, epermV, mpermH, mpermV, full = \
        utils.check_model(depth, res, aniso, epermH, epermV, mpermH, mpermV,
                          xdirect, 0)
    freq, eH, eV, zH, zV = utils.check_frequency(
        freq, res, aniso, epermH, epermV, mpermH, mpermV, 0)
    ht, htarg = utils.check_hankel(ht, htarg, 0)
    lf, lo = utils.check_loop(loop, ht, htarg, 0)
    abc, ms, mr = utils.check_ab(ab, 0)
    src, ns = utils.check_dipole(src, 'src', 0)
    rec, nr = utils.check_dipole(rec, 'rec', 0)
    off, ang = utils.get_off_ang(src, rec, ns, nr, 0)
    ls, zs = utils.get_layer_nr(src, depth)
    lr, zr = utils.get_layer_nr(rec, depth)
    inp = (abc, off, ang, zs, zr, ls, lr, depth, freq, eH, eV, zH, zV,
           xdirect, full, ht, htarg, ms, mr, lf, lo)
    E, k, conv = fem(*inp)
    E2, k2, c2 = fem(*inp, conv=False)
    if c2 or not np.array_equal(E, E2, equal_nan=True) or k != k2:
        raise AssertionError(f'fem: conv=False gives {c2}, {k}, {k2}')
    if signal is not None:
        one = [tem(E[:, i:i+1], off[i:i+1], freq, time, sig, ft, ftarg)[0]
               for i in range(off.size)]
        E, conv = tem(E, off, freq, time, sig, ft, ftarg)
        if not np.array_equal(np.hstack(one), E, equal_nan=True):
            raise AssertionError('tem: columns depend on each other')
    return E.reshape((-1, nr, ns), order='F')


def _low(c, R):
    M = hx.Model(c['m'])
    doms = [dict(freqtime=[.5, 30.]), dict(freqtime=[-.5, -30.])]
    doms += [dict(freqtime=TIME, signal=s, ft=f, ftarg=a)
             for s, (f, a) in itertools.product((0, 1, -1), FT)]
    doms += [dict(freqtime=TIME, signal={'nodes': [-.5, -.2, 0.],
                                         'amplitudes': [0., 1., 0.]})]
    for (i, dom), ab, n in itertools.product(enumerate(doms), hx.ABS, (1, 2)):
        a, b = ends(M, c['z'], n)
        if i > 1 and (hx.ABS.index(ab)+i) % 12 > (5 if i == 2 else 0):
            continue
        for ht in (dict(ht='dlf', htarg={}),
                   dict(ht='dlf', htarg={'dlf': 'wer_201_2018',
                                         'pts_per_dec': 15}),
                   dict(ht='DLF', htarg={'pts_per_dec': -1}),
                   dict(ht='qwe', htarg={'maxint': 8, 'nquad': 9})):
            if ht['ht'] == 'qwe' and (i > 1 or n > 1):
                continue
            if i > 2 and (ht['ht'] != 'dlf' or ht['htarg']):
                continue
            for xd, loop in itertools.product((False, True, None),
                                              (None, 'freq', 'off')):
                if i > 1 and (xd, loop) != (True, None):
                    continue
                kw = dict(ab=ab, xdirect=xd, loop=loop, **dom, **ht, **M.kw)
                got = np.array(empymod.dipole(a, b, verb=0, squeeze=False,
                                              **kw))
                try:
                    want = low(a, b, **kw)
                except AssertionError as e:
                    R.fail('low parts', f'{c} {ab} {dom} {ht}: {e}')
                    continue
                R.ev(2)
                R.tr()
                R.trace()
                R.state((c['m'], c['z'], i, ab, n, str(ht), xd, loop))
                hx.cmp(R, 'low', f'{c} ab={ab} {dom} {ht} {xd} {loop} n={n}',
                       got, want, rtol=1e-12, scale=np.max(np.abs(want)),
                       stol=1e-14)


OLD = {'kong_61_2007': ('Hankel', 'kong_61_2007b'),
       'kong_241_2007': ('Hankel', 'kong_241_2007'),
       'key_101_2009': ('Hankel', 'key_101_2009'),
       'key_201_2009': ('Hankel', 'key_201_2009'),
       'key_401_2009': ('Hankel', 'key_401_2009'),
       'anderson_801_1982': ('Hankel', 'anderson_801_1982'),
       'key_51_2012': ('Hankel', 'key_51_2012'),
       'key_101_2012': ('Hankel', 'key_101_2012'),
       'key_201_2012': ('Hankel', 'key_201_2012'),
       'wer_201_2018': ('Hankel', 'wer_201_2018'),
       'key_81_CosSin_2009': ('Fourier', 'key_81_2009'),
       'key_241_CosSin_2009': ('Fourier', 'key_241_2009'),
       'key_601_CosSin_2009': ('Fourier', 'key_601_2009'),
       'key_101_CosSin_2012': ('Fourier', 'key_101_2012'),
       'key_201_CosSin_2012': ('Fourier', 'key_201_2012')}


def same(R, key, msg, got, want):
    R.ev(2)
    R.tr()
    R.trace()
    R.state((key, msg))
    R.outcome(str(np.shape(want)))
    want = np.array(want)
    hx.cmp(R, key, msg, np.array(got), want, rtol=1e-13,
           scale=np.max(np.abs(want), initial=0), stol=1e-15)


def _name(c, R):
    M = hx.Model((2, 0, 1))
    a, b = ends(M, (1, 2), 2)
    if c['w'] == 'case':
        for name in ('dlf', 'qwe', 'quad', 'fftlog', 'fft'):
            for v in {name, name.upper(), name.capitalize(),
                      name[:-1]+name[-1].upper()}:
                if name[:3] != 'fft':
                    kw = dict(htarg={'pts_per_dec': 8}, verb=0, **M.kw)
                    d = dict(freqtime=.5, ab=12)
                    e = ends(M, (1, 2), 1)
                    same(R, 'ht', v, empymod.dipole(*e, ht=v, **d, **kw),
                         empymod.dipole(*e, ht=name, **d, **kw))
                    f = [[*e[0], 10., 20.], [*e[1], 30., 5.]]
                    same(R, 'ht bip', v, empymod.bipole(
                        *f, ht=v, freqtime=.5, **kw), empymod.bipole(
                        *f, ht=name, freqtime=.5, **kw))
                if name != 'quad':
                    fa = {'dlf': {}, 'fftlog': {}, 'qwe': {'pts_per_dec': 3},
                          'fft': {'dfreq': .1, 'nfreq': 16}}[name]
                    kw = dict(freqtime=TIME, signal=0, ftarg=fa, verb=0,
                              **M.kw)
                    same(R, 'ft', v, empymod.dipole(a, b, ft=v, **kw),
                         empymod.dipole(a, b, ft=name, **kw))
        # defaults
        for s in (None, 0, 1, -1):
            kw = dict(freqtime=TIME, signal=s, verb=0, **M.kw)
            same(R, 'default', s, empymod.dipole(a, b, **kw),
                 empymod.dipole(a, b, ab=11, ht='dlf', htarg={
                     'dlf': 'key_201_2009', 'pts_per_dec': 0}, ft='dlf',
                     ftarg={'dlf': 'key_201_2012', 'pts_per_dec': -1,
                            'kind': 'cos' if s == -1 else 'sin'},
                     xdirect=False, loop=None, squeeze=True, **kw))
        return
    cls = getattr(filters, c['w'].capitalize())
    names = [n for n in dir(cls()) if n[0] != '_' and
             hasattr(getattr(cls(), n), 'base')]
    R.note('filters', len(names))
    if len(names) < 5:
        R.fail('filters', f'{names}')
    for n in names:
        obj = getattr(cls(), n)
        forms = [getattr(cls(), n)]
        forms += [getattr(filters, o)() for o, (k, v) in OLD.items()
                  if k == c['w'].capitalize() and v == n]
        own = filters.DigitalFilter('own', 'own')
        own.base, own.factor = obj.base.copy(), obj.factor
        for x in ('j0', 'j1', 'sin', 'cos'):
            if hasattr(obj, x):
                setattr(own, x, getattr(obj, x).copy())
        forms.append(own)
        if c['w'] == 'hankel' and not (hasattr(obj, 'j0') and
                                       hasattr(obj, 'j1')):
            for o in (n, *forms):
                R.ev()
                R.state((n, type(o)))
                try:
                    empymod.dipole(a, b, freqtime=1., htarg={'dlf': o},
                                   verb=0, **M.kw)
                    R.fail('incomplete filter', n)
                except AttributeError:
                    pass
            continue
        for pts in (0, -1, 15):
            for i, o in enumerate(forms):
                if c['w'] == 'hankel':
                    kw = dict(freqtime=[.5, 30.], verb=0, **M.kw)
                    for ab in (11, 32, 46):
                        same(R, 'hankel filter', f'{n} {i} {pts} {ab}',
                             empymod.dipole(a, b, ab=ab, htarg={
                                 'dlf': o, 'pts_per_dec': pts}, **kw),
                             empymod.dipole(a, b, ab=ab, htarg={
                                 'dlf': n, 'pts_per_dec': pts}, **kw))
                else:
                    e = ends(M, (1, 2), 1)
                    for s, k in ((0, 'sin'), (0, 'cos'), (1, 'sin'),
                                 (-1, 'cos')):
                        if not hasattr(obj, k):
                            continue
                        kw = dict(freqtime=TIME, signal=s, verb=0, ab=12,
                                  **M.kw)
                        same(R, 'fourier filter', f'{n} {i} {pts} {s} {k}',
                             empymod.dipole(*e, ftarg={
                                 'dlf': o, 'pts_per_dec': pts, 'kind': k},
                                 **kw),
                             empymod.dipole(*e, ftarg={
                                 'dlf': n, 'pts_per_dec': pts, 'kind': k},
                                 **kw))


ROUT = ['dipole', 'bipole', 'bipole2', 'analytical', 'gpr', 'dipole_k',
        'tmtemod']
ORDER = {
    'dipole': 'src rec depth res freqtime signal ab aniso epermH epermV '
              'mpermH mpermV',
    'bipole': 'src rec depth res freqtime signal aniso epermH epermV mpermH '
              'mpermV msrc srcpts mrec recpts strength',
    'analytical': 'src rec res freqtime solution signal ab aniso epermH '
                  'epermV mpermH mpermV',
    'gpr': 'src rec depth res freqtime cf gain ab aniso epermH epermV mpermH '
           'mpermV',
    'dipole_k': 'src rec depth res freq wavenumber ab aniso epermH epermV '
                'mpermH mpermV',
    'tmtemod': 'src rec depth res freqtime aniso eperm mperm'}
ORDER['bipole2'] = ORDER['bipole']


def call(r, a, kw):
    f = {'bipole2': empymod.bipole,
         'tmtemod': empymod.scripts.tmtemod.dipole}.get(
             r, getattr(empymod, r, None))
    out = f(*a, **kw)
    if r in ('dipole_k', 'tmtemod'):
        return [np.array(x) for o in out for x in
                (o if isinstance(o, tuple) else (o, ))]
    return [np.array(out)]


def forms(v):
    """Equivalent forms of an input."""
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return [v, float(v), np.float64(v), np.array(v), [v], np.array([v]),
                (v, )]
    x = np.array(v)
    out = [list(v), tuple(v), x, x[::-1][::-1], np.array([x, x]).T[:, 0],
           [np.float64(i) for i in v]]
    if np.all(x == np.round(x)):
        out += [x.astype(int), [int(i) for i in x]]
    if x.dtype == float and np.all(x.astype(np.float32) == x):
        out.append(x.astype(np.float32))
    ro = x.copy()
    ro.setflags(write=False)
    return out+[ro]


def _type(c, R):
    M = hx.Model(c['m'])
    z = [float(np.round(x)) for x in M.zpos]
    r = c['r']
    full = len(c['m']) == 1
    kw = {k: [float(x) for x in np.round(v*8)/8] for k, v in M.kw.items()}
    if r == 'analytical':
        kw = {k: v[0] for k, v in kw.items() if k != 'depth'}
        full = True
    base = dict(src=[[3., -40.], [2., 17.], z[0]],
                rec=[[400., 330.], [30., -260.], z[-1]], freqtime=[2., 60.],
                **kw)
    vary = ['freqtime', 'res', 'aniso', 'epermH', 'epermV', 'mpermH',
            'mpermV', 'depth']
    if r == 'bipole':
        base.update(msrc=True, mrec='j')
        base['src'] += [30., 10.]
        base['rec'] += [[0., 45.], [20., 70.]]
    elif r == 'bipole2':
        base.update(mrec=True, strength=2., srcpts=3)
        base['src'] = [[3., -40.], [30., 20.], [2., 17.], 5., z[0], z[0]+4.]
        base['rec'] += [0., 90.]
        vary += ['strength', 'srcpts']
    elif r == 'gpr':
        base.update(cf=2., gain=1., freqtime=[.1, .3], ht='dlf',
                    ftarg={'dfreq': .5, 'nfreq': 8})
        vary += ['cf', 'gain']
    elif r == 'dipole_k':
        base.update(wavenumber=np.array([.001, .5, 2.]), ab=43)
        base['freq'] = base.pop('freqtime')
        vary += ['wavenumber', 'freq']
    elif r == 'dipole':
        base.update(ab=31)
        vary += ['ab']
    elif r == 'tmtemod':
        base['freqtime'] = [2.]
        base['src'] = [3., 2., z[0]]
        base['rec'] = [[400., 330.], [30., -260.], z[0]+1.]
        base['eperm'], base['mperm'] = base['epermH'], base['mpermH']
        for k in ('epermH', 'epermV', 'mpermH', 'mpermV'):
            base.pop(k)
        vary += ['eperm', 'mperm']
    base['verb'] = 0
    vary = [v for v in vary if v in base]

    def check(tag, kw2):
        R.ev()
        R.tr()
        R.trace()
        R.state((c['m'], r, tag))
        try:
            got = call(r, (), kw2)
        except Exception as e:
            R.fail('type exception', f'{c} {tag}: {type(e).__name__} {e}')
            return
        R.outcome((len(got), str([g.shape for g in got])))
        for i, (g, w) in enumerate(zip(got, want)):
            hx.cmp(R, 'type', f'{c} {tag} output {i}', g, w, rtol=1e-12,
                   scale=np.max(np.abs(w), initial=0), stol=1e-15)
    want = call(r, (), base)
    for v in vary:
        if np.size(base[v]) == 0:
            fs = [[], np.array([]), (), None]
            if v == 'depth':
                fs = [[], np.array([]), ()]
        else:
            fs = forms(base[v])
        scal = v in ('ab', 'cf', 'gain', 'strength', 'srcpts')
        for i, f in enumerate(fs):
            if scal and i > 2 or v in ('ab', 'srcpts') and i > 0:
                continue
            if r == 'analytical' and i > 4:
                continue
            if v == 'wavenumber' and not isinstance(f, np.ndarray):
                continue
            check(f'{v} form {i}', dict(base, **{v: f}))
        # full-space: numbers
        if full and r != 'analytical' and v not in (
                'depth', 'freqtime', 'freq', 'wavenumber') and not scal:
            for i, f in enumerate(forms(base[v][0])):
                check(f'{v} number {i}', dict(base, **{v: f}))
    # src and rec
    for v in ('src', 'rec'):
        x = base[v]
        check(f'{v} tuple', dict(base, **{v: tuple(x)}))
        for j in range(len(x)):
            for i, f in enumerate(forms(x[j])):
                y = list(x)
                y[j] = f
                check(f'{v}[{j}] form {i}', dict(base, **{v: y}))
        n = max(np.size(y) for y in x)
        if r[:6] == 'bipole':
            y = [np.ones(n)*np.array(y) for y in x]
            check(f'{v} expanded', dict(base, **{v: y}))
            check(f'{v} matrix', dict(base, **{v: np.array(y)}))
    # infinite depths, direction of the model, resistivities in a dictionary
    if 'depth' in base:
        d = list(base['depth'])
        for i, e in enumerate((([-np.inf]+d), d+[np.inf],
                               [-np.inf]+d+[np.inf])):
            check(f'infinities {i}', dict(base, depth=e))
        if len(d) > 1:
            rev = {k: base[k][::-1] for k in (*kw, 'eperm', 'mperm')
                   if k in base}
            check('reversed', dict(base, **rev))
    if r in ('dipole', 'bipole', 'bipole2', 'analytical'):
        check('res dict', dict(base, res={'res': base['res']}))
    if r in ('dipole', 'bipole', 'bipole2'):
        for i, f in enumerate(((0, ), [0], 1, True)):
            w2 = dict(base, squeeze=f if i > 1 else True)
            check(f'squeeze {i}', w2)
    # positional
    names = [n for n in ORDER[r].split() if n in base or n in (
        'signal', 'solution')]
    dflt = {'signal': None, 'solution': 'fs'}
    full_ = {**{n: None for n in ORDER[r].split()}, 'ab': 11, **{
        'msrc': False, 'srcpts': 1, 'mrec': False, 'recpts': 1,
        'strength': 0}, **dflt, **base}
    order = ORDER[r].split()
    for n in range(len(order)+1):
        pos = [full_[k] for k in order[:n]]
        rest = {k: v for k, v in base.items() if k not in order[:n]}
        R.ev()
        R.tr()
        R.trace()
        R.state((c['m'], r, 'pos', n))
        try:
            got = call(r, pos, rest)
        except Exception as e:
            R.fail('positional', f'{c} {n}: {type(e).__name__} {e}')
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            hx.cmp(R, 'positional', f'{c} {n} positional, output {i}', g, w,
                   rtol=1e-13)
    # defaults of the material parameters
    ones = [1.]*len(base['res']) if r != 'analytical' else 1.
    for n in range(1, 6):
        if r == 'tmtemod':
            break
        for names in itertools.combinations(
                ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'), n):
            a, b = dict(base), dict(base)
            for k in names:
                a[k] = None
                b[k] = ones
            for h, v in (('epermH', 'epermV'), ('mpermH', 'mpermV')):
                if v in names and h not in names:
                    b[v] = base[h]
            want = call(r, (), b)
            # (vertical only: documented for neither)
            if any(h in names and v not in names for h, v in (
                    ('epermH', 'epermV'), ('mpermH', 'mpermV'))):
                R.note('vertical only', 1)
                continue
            check(f'default of {names}', a)
            for k in names:
                a.pop(k)
            check(f'omitted {names}', a)


def _sig(c, R):
    for (ft, fa), s, v in itertools.product(FT, (0, 1, -1), (0, 1)):
        for t in (.5, TIME, list(TIME), TIME[::-1]):
            new = utils.check_time(t, s, ft, dict(fa), v, True)
            for old in (utils.check_time(t, s, ft, dict(fa), v),
                        utils.check_time(t, s, ft, dict(fa), v, new=False)):
                R.ev()
                R.tr()
                R.trace()
                R.state(('time', ft, str(fa), s, v, str(t)))
                ok = len(old) == 4 and len(new) == 5 and \
                    np.array_equal(old[0], new[0]) and \
                    np.array_equal(old[1], new[1]) and old[2] == new[2] and \
                    old[3].keys() == new[3].keys() and all(
                        x is new[3][k] or np.array_equal(
                            getattr(x, 'base', x),
                            getattr(new[3][k], 'base', new[3][k]))
                        for k, x in old[3].items())
                if not ok:
                    R.fail('check_time', f'{ft} {fa} {s} {t}: {old} {new}')
            if new[4] != s:
                R.fail('check_time signal', f'{s}: {new[4]}')
            o, n = (utils.check_time_only(t, s, v),
                    utils.check_time_only(t, s, v, True))
            if not np.array_equal(o, n[0]) or n[1] != s or \
                    not np.array_equal(o, np.atleast_1d(t)):
                R.fail('check_time_only', f'{t} {s} {o} {n}')
    z = [1., [1., 2.], [3., 3.]]
    xs = [0., [0., 5.], [[1.], [2.]][0]]
    n = 0
    for a in itertools.product(xs, xs, z, (0., 30., [10., 20.]), (0., [7.,
                                                                    8.])):
        for name, mx, v in itertools.product(
                ('src', 'rec', 'other'), (False, True, 'b', 'loop', 'j'),
                (0, 3)):
            n += 1
            if name == 'src' and mx == 'j':
                continue
            try:
                new = utils.check_bipole(a, name, mx, v)
            except ValueError as e:
                try:
                    utils.check_bipole(a, name)
                    R.fail('check_bipole', f'{a} {name}: raises only with mx')
                except ValueError as f:
                    if str(e) != str(f):
                        R.fail('check_bipole', f'{a}: {e} / {f}')
                continue
            old = utils.check_bipole(a, name)
            R.ev()
            R.tr()
            R.trace()
            R.state(('bipole', n))
            ok = len(old) == 4 and len(new) == 6 and all(
                np.array_equal(p, q) for p, q in zip(old[0], new[0])) and \
                old[1:] == new[1:4]
            if name != 'other':
                want = {False: (False, None), True: (True, None),
                        'b': (True, 'b'), 'loop': (True, 'b'),
                        'j': (False, 'j')}[mx]
            else:
                want = (mx, None)
            if not ok or new[4:] != want:
                R.fail('check_bipole', f'{a} {name} {mx}: {old} {new}')
    # same objects from everywhere
    for n in ('bipole', 'dipole', 'analytical', 'gpr', 'dipole_k',
              'ip_and_q', 'EMArray', 'set_minimum', 'get_minimum'):
        if not (getattr(empymod, n, 0) is getattr(
                empymod.model, n, getattr(utils, n, 1))):
            R.fail('names', n)
        R.ev()
        R.tr()
        R.state(('name', n))
