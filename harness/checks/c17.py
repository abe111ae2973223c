"""C17: invalid input is rejected, borderline input is clamped.

Every single fault of an alphabet of malformed values is put into every
argument of every routine (all others valid): the real code must raise a
TypeError, ValueError or AttributeError.  The sizes of mutually dependent
arguments are enumerated completely and must be accepted exactly when they
match.  Borderline values must give exactly the result of the minimum value,
for the default and for explicitly set minimum values.
"""
import contextlib
import copy
import io
import itertools
import warnings
import numpy as np
import empymod
from empymod import filters, utils
from empymod.scripts import tmtemod

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive single-fault enumeration over all arguments of all '
             'routines and complete enumeration of mutually dependent sizes '
             'on the real code, against an explicit acceptance rule; '
             'borderline values against the call with the minimum value')
NOTE = ('9 routines; all integer component pairs -5 to 120; all coordinate '
        'sizes to 3 (4) per argument; all depth/parameter sizes to 4; unknown '
        'methods, signals, solutions, filters, malformed options; borderline '
        'frequencies, times, offsets, resistivities with 3 settings of the '
        'minimum values.')
WARM = 'cf'
RULE = 'one state per (routine, argument, malformed or borderline value)'
BOUNDS = {'quick': 'sizes to 3', 'thorough': 'sizes to 4'}
ERR = (TypeError, ValueError, AttributeError)
HT = {'dlf': 'kong_61_2007b'}
FT = {'dlf': 'key_81_2009'}
TM = dict(depth=[0., 100.], res=[1e8, 0.3, 2.])


def base(r):
    """A valid call of each routine."""
    S, Q = [0., 0., 50.], [300., 20., 130.]
    if r == 'dipole':
        return dict(src=S, rec=Q, freqtime=1., verb=0, htarg=dict(HT), **TM)
    if r == 'dipole-t':
        return dict(src=S, rec=Q, freqtime=1., signal=0, verb=0, ft='dlf',
                    htarg=dict(HT), ftarg=dict(FT), **TM)
    if r == 'bipole':
        return dict(src=S+[10., 20.], rec=Q+[30., 40.], freqtime=1., verb=0,
                    htarg=dict(HT), **TM)
    if r == 'bipole-6':
        return dict(src=[0., 10., 0., 20., 50., 60.],
                    rec=[300., 310., 5., 10., 120., 120.], freqtime=1.,
                    verb=0, htarg=dict(HT), **TM)
    if r == 'loop':
        return dict(src=S+[10., 20.], rec=Q+[30., 40.], freqtime=1., verb=0,
                    htarg=dict(HT), **TM)
    if r == 'analytical':
        return dict(src=S, rec=Q, res=2., freqtime=1., verb=0)
    if r == 'analytical-d':
        return dict(src=S, rec=Q, res=2., freqtime=1., verb=0,
                    solution='dhs')
    if r == 'analytical-t':
        return dict(src=S, rec=Q, res=2., freqtime=1., verb=0, signal=0,
                    solution='dhs')
    if r == 'gpr':
        return dict(src=S, rec=Q, freqtime=1e-8, cf=250e6, verb=0, ht='dlf',
                    htarg=dict(HT), ft='fft', ftarg={
                        'nfreq': 8, 'ntot': 16, 'dfreq': 1e7},
                    depth=[0., 100.], res=[1e8, 200., 20.])
    if r == 'dipole_k':
        return dict(src=S, rec=Q, freq=1., wavenumber=np.array([.01]), verb=0, **TM)
    if r == 'ip_and_q':
        return dict(src=[0., 0., -30.], rec=[8., 0., -30.], freqtime=400.,
                    ab=66, verb=0, htarg=dict(HT), **TM)
    if r == 'tmte':
        return dict(src=S, rec=[300., 20., 60.], freqtime=1., verb=0, **TM)
    raise KeyError(r)


FN = {'dipole': empymod.dipole, 'dipole-t': empymod.dipole,
      'bipole': empymod.bipole, 'bipole-6': empymod.bipole,
      'loop': empymod.loop, 'analytical': empymod.analytical,
      'analytical-t': empymod.analytical,
      'analytical-d': empymod.analytical, 'gpr': empymod.gpr,
      'dipole_k': empymod.dipole_k, 'ip_and_q': empymod.model.ip_and_q,
      'tmte': tmtemod.dipole}
LAYERED = [r for r in FN if not r.startswith('ana')]


def call(r, kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            out = FN[r](**kw)
    if not isinstance(out, (tuple, list)):
        out = [out]
    flat = []
    for x in out:
        flat += list(x) if isinstance(x, tuple) else [x]
    return [np.asarray(x) for x in flat]


def _filt(*names):
    f = filters.DigitalFilter('user')
    g = filters.Hankel().key_51_2012
    for n in names:
        setattr(f, n, getattr(g, n, g.j0))
    return f


def faults(r):
    """(argument, malformed values) for routine r."""
    bip = r in ('bipole', 'bipole-6', 'loop')
    b = base(r)
    out = []

    def add(k, *v):
        out.extend((k, x) for x in v)
    # geometry
    for k in ('src', 'rec'):
        v = list(b[k])
        n = len(v)
        add(k, 'abc', None, 3., [], v[:n-1 if n != 6 else 4], v[:1],
            v+[1.]*(1 if n != 5 else 2))
        if not bip:
            add(k, v+v)
        for i in range(n):
            for x in ('x', {'a': 1}):
                add(k, v[:i]+[x]+v[i+1:])
    if r == 'bipole-6':
        add('src', [0., 0., 5., 5., 50., 50.])
        add('rec', [[0., 1.], [0., 2.], 5., 5., 50., 50.])
    # model
    if r in LAYERED:
        add('depth', [100., 0., 50.], [0., 100., 50.], [[0., 100.]], 'x',
            [0., 'x'], [0.], [0., 50., 100.], [100., -np.inf, 0.])
        ok = [1., 1., 1.]
        bad = [ok+[1.], ok[:2], 1., [ok], 'x', ['a', 1., 1.], {'a': 1}]
    else:
        ok = 1.
        bad = [[1., 1.], [[1., 1.]], 'x', {'a': 1}]
    add('res', *bad)
    if r != 'tmte':
        for k in ('aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'):
            add(k, *bad)
        if r in ('dipole', 'bipole', 'analytical', 'dipole-t'):
            add('res', {'res': [1., 1., 1., 1.]}, {'res': ok, 'x': [1., 2.]},
                {'res': ok, 'x': 'q'}, {'x': ok})
    else:
        for k in ('aniso', 'eperm', 'mperm'):
            add(k, *bad)
    # frequencies, times
    k = 'freq' if r == 'dipole_k' else 'freqtime'
    add(k, 'x', {'a': 1}, [1., 'x'])
    # component pair
    if not bip and r != 'tmte':
        add('ab', *[i for i in range(-5, 121) if not (
            1 <= i//10 <= 6 and 1 <= i % 10 <= 6)],
            None, 'xx', '1x', [11, 12], {'a': 1})
    if r == 'ip_and_q':
        add('ab', 11, 14, 36, 63, 41)
        add('signal', 0, 1, -1)
    if bip:
        if r != 'loop':
            add('msrc', 'x', 'j')
        add('mrec', 'x', 'B')
        add('strength', 'x')
        
    # signal
    if r in ('dipole', 'dipole-t', 'bipole', 'loop', 'analytical-t'):
        add('signal', 2, -2, 3, 17, 'x', [1, 2])
    if r in ('dipole-t', 'bipole'):
        n = [-1., 0.]
        add('signal', {}, {'nodes': n}, {'amplitudes': n},
            {'nodes': n, 'amplitudes': n, 'foo': 1},
            {'nodes': n, 'amplitudes': n, 'signal': 2},
            {'nodes': n, 'amplitudes': n, 'nquad': 0},
            {'nodes': n, 'amplitudes': [0., 1., 2.]},
            {'nodes': [-2., -1., 0.], 'amplitudes': [0., 1.]},
            {'nodes': 'ab', 'amplitudes': n},
            {'nodes': n, 'amplitudes': 'ab'},
            {'nodes': [5., 6.], 'amplitudes': [0., 1.]})
    # methods and options
    if r in ('dipole', 'dipole-t', 'bipole', 'loop', 'gpr', 'ip_and_q'):
        add('ht', 'x', 'fht', '', None, 3)
        add('htarg', 'x', 3, ['a'], {'dlf': 'nope'}, {'dlf': None},
            {'dlf': 3}, {'dlf': _filt()}, {'dlf': _filt('base', 'j0', 'j1')},
            {'dlf': _filt('base', 'j0', 'factor')},
            {'dlf': _filt('base', 'j1', 'factor')},
            {'dlf': _filt('j0', 'j1', 'factor')},
            {'dlf': 'gupt_61_1997'}, {'pts_per_dec': 'x'},
            {'pts_per_dec': [1, 2]}, {'dlf': 'key_81_2009'})
        for k in ('rtol', 'atol', 'nquad', 'maxint', 'pts_per_dec',
                  'diff_quad', 'a', 'b', 'limit'):
            add('ht+qwe', {k: 'x'})
        for k in ('rtol', 'atol', 'limit', 'a', 'b', 'pts_per_dec'):
            add('ht+quad', {k: 'x'})
    if r in ('dipole-t', 'gpr'):
        add('ft', 'x', 'fqwes', '', None, 3)
        add('ft+dlf', 'x', {'dlf': 'nope'}, {'dlf': 3},
            {'dlf': 'key_201_2009'}, {'dlf': _filt('base', 'factor')},
            {'pts_per_dec': 'x'}, {'pts_per_dec': [1, 2]})
        if r == 'dipole-t':
            add('ft+dlf', {'kind': 'tan'}, {'kind': 3},
                {'dlf': 'grayver_50_2021', 'kind': 'cos'})
        for k in ('rtol', 'atol', 'nquad', 'maxint', 'pts_per_dec',
                  'diff_quad', 'a', 'b', 'limit'):
            add('ft+qwe', {k: 'x'})
        for k in ('pts_per_dec', 'q'):
            for x in ('x', [1, 2]):
                add('ft+fftlog', {k: x})
        add('ft+fftlog', {'add_dec': 3}, {'add_dec': [1, 2, 3]},
            {'add_dec': 'x'})
        for k in ('dfreq', 'nfreq', 'ntot', 'pts_per_dec'):
            for x in ('x', [1, 2]):
                add('ft+fft', {k: x})
    if r.startswith('ana'):
        add('solution', 'x', 'FS', 'd', 'split', None, 3)
    if r == 'analytical-t':
        add('solution', 'fs')
        add('ab', 14, 41, 36, 44, 66, 63, 25)
    if r == 'tmte':
        add('rec', [300., 20., 130.], [300., 20., -5.])
        add('freqtime', [1., 2.])
    if r == 'dipole_k':
        add('wavenumber', 'x', None)
    # keywords
    if r != 'tmte':
        add('nonsense', 1, None)
        add('Freqtime', 1)
    # missing
    for k in b:
        if k in ('src', 'rec', 'freqtime', 'res', 'depth', 'cf', 'freq',
                 'wavenumber'):
            out.append(('-'+k, None))
    return out


def mutate(r, k, v):
    kw = base(r)
    if k.startswith('-'):
        del kw[k[1:]]
    elif k.startswith('ht+'):
        kw['ht'], kw['htarg'] = k[3:], v
    elif k.startswith('ft+'):
        kw['ft'], kw['ftarg'] = k[3:], v
    else:
        kw[k] = v
        if k == 'ft':
            kw['ftarg'] = {}
        if k == 'ht':
            kw['htarg'] = {}
        if k == 'solution' and v == 'fs':
            pass
    return kw


# --------------------------------------------------------------- sizes
def fits(sizes):
    """Coordinates: all of one common size, or single values."""
    m = max(sizes)
    return all(s in (1, m) for s in sizes)


def arr(n, off):
    return [off + 10.*i for i in range(n)] if n != 1 else off


def cases(tier):
    q = tier == 'quick'
    out = []
    for r in FN:
        n = len(faults(r))
        out += [{'k': 'fault', 'r': r, 'part': [i, 4]} for i in range(4)]
        del n
    m = 3 if q else 4
    for r in ('dipole', 'analytical', 'dipole_k', 'gpr', 'bipole', 'loop'):
        out.append({'k': 'dsize', 'r': r, 'm': m, 'which': 'src'})
        out.append({'k': 'dsize', 'r': r, 'm': m, 'which': 'rec'})
    for w in ('src', 'rec'):
        for i in range(1, m+1):
            out.append({'k': 'bsize', 'm': m, 'first': i, 'which': w})
    for r in LAYERED:
        out += [{'k': 'lsize', 'r': r, 'm': 3 if q else 4, 'nd': i}
                for i in range(3 if q else 4)]
    for r in FN:
        for s in range(3):
            out.append({'k': 'clamp', 'r': r, 's': s})
    out.append({'k': 'getmin'})
    return out


SETS = [{}, dict(min_freq=.5, min_time=.25, min_off=25., min_res=5.),
        dict(min_freq=1e-3, min_time=1e-2, min_off=1e-6, min_res=1e-2)]
DEF = dict(min_freq=1e-20, min_time=1e-20, min_off=1e-3, min_res=1e-20,
           min_angle=1e-10)


def run_case(c, R):
    k = c['k']
    try:
        globals()['_'+k](c, R)
    finally:
        utils.set_minimum(**DEF)


def _fault(c, R):
    r = c['r']
    call(r, base(r))             # the valid call is accepted
    for i, (k, v) in enumerate(faults(r)):
        if i % c['part'][1] != c['part'][0]:
            continue
        kw = mutate(r, k, v)
        R.ev()
        R.tr()
        R.state((r, k, i))
        try:
            out = call(r, kw)
        except ERR as e:
            R.outcome((r, k, type(e).__name__))
            continue
        except KeyError as e:
            if isinstance(v, dict) and k == 'res':     # missing entry
                R.outcome((r, k, 'KeyError'))
                continue
            R.fail(f'error type {r} {k}', f'{r}: {k}={v!r}: {e!r}')
            continue
        except Exception as e:
            R.fail(f'error type {r} {k}', f'{r}: {k}={v!r} raises '
                   f'{type(e).__name__}: {e}')
            continue
        R.fail(f'accepted {r} {k}', f'{r}: {k}={v!r} returns '
               f'{str(out[0])[:100]}')


def accept(R, tag, r, kw, ok):
    R.ev()
    R.tr()
    R.state(tag)
    try:
        out = call(r, kw)
        st = 'ok'
    except ERR as e:
        st = f'{type(e).__name__}: {e}'
    R.outcome((tag, st[:5]))
    if ok and st != 'ok':
        R.fail('rejected', f'{tag}: valid, but raises {st}')
    if not ok and st == 'ok':
        R.fail('accepted', f'{tag}: invalid, but returns {out[0].shape}')
    return out if st == 'ok' and ok else None


def _dsize(c, R):
    r, m, w = c['r'], c['m'], c['which']
    bip = r in ('bipole', 'loop')
    rng = range(1, m+1)
    for s in itertools.product(rng, repeat=5 if bip else 3):
        kw = base(r)
        co = [arr(s[0], 20. if w == 'src' else 300.), arr(s[1], 5.),
              arr(s[2], 55.)]
        if bip:
            co += [arr(s[3], 1.), arr(s[4], 2.)]
            ok = fits(s)
            n = max(s)
        else:
            # x and y of the same size or single values, one depth
            ok = fits(s[:2]) and s[2] == 1
            n = max(s[:2])
        kw[w] = co
        out = accept(R, f'{r} {w} sizes {s}', r, kw, ok)
        if out is not None:
            sh = out[0].size
            if sh != n:
                R.fail('size', f'{r} {w} sizes {s}: {out[0].shape}')


def _bsize(c, R):
    m, w = c['m'], c['which']
    for s in itertools.product((1, 2, m), repeat=5):
        s = (c['first'],) + s
        kw = base('bipole-6')
        o = 0. if w == 'src' else 300.
        kw[w] = [arr(s[0], o), arr(s[1], o+3.), arr(s[2], 5.),
                 arr(s[3], 9.), arr(s[4], 50.), arr(s[5], 57.)]
        out = accept(R, f'bipole {w} sizes {s}', 'bipole-6', kw, fits(s))
        if out is not None and out[0].size != max(s):
            R.fail('size', f'bipole {w} sizes {s}: {out[0].shape}')


def _lsize(c, R):
    r = c['r']
    keys = ['res', 'aniso'] + (['eperm', 'mperm'] if r == 'tmte' else
                               ['epermH', 'epermV', 'mpermH', 'mpermV'])
    for nd in [c['nd']]:
        dep = [100.*i for i in range(nd)]
        forms = [('plain', dep)]
        forms += [('inf', [-np.inf]+dep), ('infs', [-np.inf]+dep+[np.inf])]
        if nd > 1:
            forms += [('dec', dep[::-1]), ('decinf', dep[::-1]+[-np.inf])]
        for form, d in forms:
            for k in keys:
                for n in range(1, c['m']+2):
                    kw = base(r)
                    kw['depth'] = d
                    kw['res'] = [3., 2., 4., 6., 5.][:nd+1]
                    kw[k] = [3., 2., 4., 6., 5.][:n]
                    if r == 'tmte':
                        kw['src'] = [0., 0., 1000.]
                        kw['rec'] = [300., 20., 1010.]
                        if nd == 0:
                            continue
                    accept(R, f'{r} depth {d} {k} of size {n}', r, kw,
                           n == nd+1)


def _clamp(c, R):
    """Values below the minimum give exactly the result of the minimum."""
    r = c['r']
    utils.set_minimum(**SETS[c['s']])
    mn = utils.get_minimum()
    want = {**DEF, **SETS[c['s']]}
    if mn != want:
        R.fail('minimum', f'{mn} instead of {want}')

    tol = 1e-7 if r in ('dipole-t', 'analytical-t', 'gpr') else 1e-9

    def eq(tag, a, b):
        R.ev(2)
        R.trace()
        R.tr()
        R.state((r, c['s'], tag))
        try:
            x = call(r, a)
        except ERR as e:
            R.fail('clamp', f'{r} {tag}: {e}')
            return
        y = call(r, b)
        R.outcome((tag, str(y[0].ravel()[:2])))
        for p, q in zip(x, y):
            s = np.max(np.abs(q)) if q.size else 0.
            if p.shape != q.shape or not np.all(
                    (np.abs(p-q) <= tol*np.abs(q)+1e-12*s) | (p == q) |
                    (np.isnan(p) & np.isnan(q))):
                R.fail(f'clamp {tag.split()[0]}', f'{r} {tag} (minimum '
                       f'{mn}): {p.ravel()[:4]} instead of '
                       f'{q.ravel()[:4]}')
    tk = 'freq' if r == 'dipole_k' else 'freqtime'
    time = r in ('dipole-t', 'analytical-t', 'gpr')
    m = mn['min_time'] if time else mn['min_freq']
    for v in (0., m/2, m*(1-1e-12), m*1e-5):
        one = [v], [m]
        two = [v, 3.], [m, 3.]
        three = [3., v, 7., v], [3., m, 7., m]
        sets = [one, two, three]
        if time:
            sets += [([-v-1., 3.], [m, 3.]), ([-1e-30, 2.], [m, 2.])]
            if r == 'gpr':
                sets = [([a*1e-8 if a > 2 else a for a in x],
                         [a*1e-8 if a > 2 else a for a in y])
                        for x, y in sets]
        elif v == 0.:
            # all zero or negative: Laplace domain
            sets[0] = ([-0.], [-m])
            sets += [([-v, -3.], [-m, -3.]), ([-m/3, -3.], [-m, -3.])]
            sets += [([3., -2.], [3., m])]          # any positive
        if r == 'tmte':
            sets = sets[:1] if v else []
        for x, y in sets:
            a, b = base(r), base(r)
            a[tk], b[tk] = x, y
            eq(f'time/freq {x}', a, b)
    # Offsets: same direction, same depths.
    m = mn['min_off']
    if r in ('analytical-t', 'analytical-d') and m < 1.:
        # The closed forms cancel heavily at such small offsets.
        return _clampres(r, mn, eq)
    for v, ang in itertools.product((0., m/2, m*.999), (0., 1., 2.5)):
        if v == 0. and ang:
            continue
        cs, sn = np.cos(ang), np.sin(ang)
        for multi in (False, True):
            if multi and r == 'tmte':
                continue
            a, b = base(r), base(r)
            for kw, off in ((a, v), (b, m*(1+1e-13))):
                z = kw['rec'][2]
                if r == 'bipole-6':
                    kw['rec'] = [kw['src'][0]+40, 9., 3., 4., 80., 90.]
                    kw['src'] = [40., 40., 3., 3., 20., 30.]
                    x0, y0 = kw['src'][0], kw['src'][2]
                    kw['rec'] = [x0+off*cs, x0+off*cs, y0+off*sn, y0+off*sn,
                                 80., 90.]
                    if SETS[c['s']].get('min_off', 1) != 25.:
                        # coordinates of finite bipoles are rounded to mm
                        continue
                    if v not in (0., m/2):
                        continue
                    if off > m:
                        kw['rec'][0:4] = [x0+m*cs, x0+m*cs, y0+m*sn,
                                          y0+m*sn]
                    continue
                if r == 'ip_and_q':
                    kw['rec'][2] = z = -25.
                t = list(kw['rec'])
                t[0] = kw['src'][0]+off*cs
                t[1] = kw['src'][1]+off*sn
                if multi:
                    t[0] = [300., t[0], 500.]
                    t[1] = [10., t[1], 20.]
                kw['rec'] = t
            if r == 'bipole-6':
                continue
            eq(f'offset {v} {ang} {multi}', a, b)
    _clampres(r, mn, eq)


def _clampres(r, mn, eq):
    """Resistivities."""
    m = mn['min_res']
    for v in (0., m/2, -1., m*(1-1e-12)):
        if r.startswith('ana'):
            sets = [(v, m)]
        else:
            sets = [([v, .3, 2.], [m, .3, 2.]), ([1., v, 2.], [1., m, 2.]),
                    ([1., 7., v], [1., 7., m]), ([v, 7., v], [m, 7., m])]
        for x, y in sets:
            a, b = base(r), base(r)
            a['res'], b['res'] = x, y
            eq(f'res {x}', a, b)
            if r not in ('tmte', 'gpr'):
                a['epermH'] = b['epermH'] = (2. if r.startswith('ana') else
                                             [1., 80., 4.])
                eq(f'res {x} eperm', a, b)


def _getmin(c, R):
    """set_minimum changes exactly the values asked for."""
    keys = list(DEF)
    vals = {k: [1e-3, .5, 0., 7] for k in keys}
    for n in range(0, 3):
        for ks in itertools.combinations(keys, n):
            for v in itertools.product(range(4), repeat=n):
                utils.set_minimum(**DEF)
                new = {k: vals[k][i] for k, i in zip(ks, v)}
                utils.set_minimum(**new)
                R.ev()
                R.tr()
                R.state((ks, v))
                if utils.get_minimum() != {**DEF, **new}:
                    R.fail('get', f'{new}: {utils.get_minimum()}')
    for bad in (dict(foo=1), dict(min_freqs=1)):
        try:
            utils.set_minimum(**bad)
            R.fail('set', f'{bad} accepted')
        except TypeError:
            pass
    copy.copy(0)
