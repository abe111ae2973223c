"""C13: verbosity never changes results; silent when asked.

Every configuration of a grid (all routines, transform methods, argument
forms, models, hooks, failing calls) is executed at every level of verbosity.
Values and success must be those of level 0, level 0 prints nothing, level 1
prints warnings only, and levels 1 to 4 print the same warnings.  All subsets
of the conditions which trigger a warning are enumerated: each warning must
be printed exactly when its condition holds.
"""
import contextlib
import io
import itertools
import re
import warnings
import numpy as np
import empymod
from empymod import filters
from empymod.scripts import fdesign, tmtemod
import ops
from ops import f, lay

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive execution of a configuration grid of the real code '
             'at every verbosity level, compared with level 0; all subsets of '
             'the warning conditions against an explicit list of expected '
             'warnings')
NOTE = ('all operations of the C11 alphabet; grids over Hankel and Fourier '
        'options, loops, models, hooks, bipole forms, solutions; all 2^9 '
        'subsets of warning conditions in dipole, and those of bipole, gpr, '
        'analytical; verbosity -1 to 5, and True/False.')
WARM = 'cf'
RULE = 'one state per (configuration, verbosity level) executed'
BOUNDS = {'quick': 'grids as listed, warning subsets up to size 3 and '
          'complements', 'thorough': 'all 2^9 warning subsets, at all levels; '
          'complete products of the option grids'}
LEVELS = [1, 2, 3, 4]
WARN = '* WARNING'


def call(fn):
    """(status, results, stdout)"""
    buf = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            try:
                r = fn()
                if not isinstance(r, (list, tuple)):
                    r = [r]
                out = ('ok', [np.array(x) for x in r])
            except Exception as e:
                out = (f'{type(e).__name__}: {e}', [])
    return out + (buf.getvalue(),)


def topics(txt):
    """Warnings printed (first line each, without leading star)."""
    return [ln[len(WARN):].strip(' :') for ln in txt.splitlines()
            if ln.startswith(WARN)]


def only_warnings(txt):
    """Whether nothing but warnings (with continuation lines) is printed."""
    for ln in txt.splitlines():
        if not (ln.startswith(WARN) or ln.startswith('  ') or not ln):
            return False
    return not txt.strip() or txt.startswith(WARN)


def same(a, b):
    return (a[0] == b[0] and len(a[1]) == len(b[1]) and all(
        x.shape == y.shape and x.dtype == y.dtype and
        np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc')
        for x, y in zip(a[1], b[1])))


def levels(R, tag, make, lv=LEVELS, warn_at=1, deflt=None):
    """make(verb) -> zero-argument call; compares all levels."""
    r0 = call(make(0))
    R.ev()
    R.trace()
    R.state((tag, 0), False)
    if r0[2]:
        R.fail('silent', f'{tag}: verb=0 prints {r0[2]!r}')
    w1 = None
    for v in lv:
        r = call(make(v))
        R.ev()
        R.tr()
        R.state((tag, v))
        if not same(r, r0):
            R.fail('values', f'{tag}: verb={v} gives {str(r[:2])[:300]}, '
                   f'verb=0 {str(r0[:2])[:300]}')
        if v < 0 or v is False:
            if r[2]:
                R.fail('silent', f'{tag}: verb={v} prints {r[2]!r}')
            continue
        w = topics(r[2])
        if v == 1:
            w1 = w
            if not only_warnings(r[2]):
                R.fail('level 1', f'{tag}: verb=1 prints {r[2]!r}')
        elif w1 is not None and w != w1:
            R.fail('warnings', f'{tag}: warnings at verb={v}: {w}, at 1: '
                   f'{w1}')
        if v > 2 and r[0] == 'ok' and warn_at == 1 and not r[2]:
            R.fail('output', f'{tag}: verb={v} prints nothing')
        R.outcome((tag, tuple(w), len(r[2])))
    return r0, w1


# ------------------------------------------------------------ option grids
SRC = [f(0.), f(0.), f(50.)]
REC = [f(300., 350., 20., 900.), f(0., 10., -30., 4.), f(120.)]
HTS = [None, {}, {'dlf': 'kong_61_2007b'}, {'dlf': 'kong_61_2007b',
       'pts_per_dec': -1}, {'dlf': 'kong_61_2007b', 'pts_per_dec': 10},
       {'dlf': 'kong_61_2007b', 'pts_per_dec': 7.}, {'dlf': 'OBJ'},
       {'dlf': 'OBJ', 'pts_per_dec': -1}]
QWE = [{'nquad': 9, 'maxint': 10}, {'nquad': 9, 'maxint': 10, 'rtol': 1e-3,
       'atol': 1e-20, 'pts_per_dec': 0}, {'nquad': 9, 'maxint': 10,
       'diff_quad': 1, 'a': 1e-6, 'b': 0.1, 'limit': 10}]
QUAD = [{'rtol': 1e-2, 'limit': 20}, {'a': 1e-5, 'b': .1, 'limit': 20,
        'pts_per_dec': 20, 'rtol': 1e-2}]
FTS = [('dlf', None), ('dlf', {'dlf': 'key_81_2009'}),
       ('dlf', {'dlf': 'key_81_2009', 'pts_per_dec': 5}),
       ('dlf', {'dlf': 'key_81_2009', 'pts_per_dec': 0}),
       ('dlf', {'dlf': 'key_81_2009', 'kind': 'cos', 'pts_per_dec': -1}),
       ('dlf', {'dlf': 'OBJ'}), ('sin', {}), ('cos', {}),
       ('qwe', {'nquad': 5, 'maxint': 10, 'pts_per_dec': 4}),
       ('qwe', {'nquad': 5, 'maxint': 10, 'pts_per_dec': 4, 'a': 1e-2,
                'b': 10., 'limit': 10, 'diff_quad': 1}),
       ('fftlog', {}), ('fftlog', {'pts_per_dec': 5, 'q': -.3,
                                   'add_dec': [-1, 1]}),
       ('fft', {'nfreq': 32, 'dfreq': .1}),
       ('fft', {'nfreq': 32, 'ntot': 128, 'dfreq': .1, 'pts_per_dec': 4})]
MODELS = ['lay', 'full', 'none', 'hook', 'hookb', 'perm', 'dec', 'scalar']


def model(m):
    if m == 'lay':
        return lay()
    if m == 'full':
        return dict(depth=[], res=f(2.), aniso=f(1.5))
    if m == 'none':
        return dict(depth=f(0.), res=f(2., 2.))
    if m == 'dec':
        return dict(depth=f(200., 100., 0.), res=f(1., 2., 3., 4.))
    if m == 'scalar':
        return dict(depth=0, res=[1e12, 1])
    if m == 'perm':
        return dict(epermH=f(1., 80., 2., 2.), epermV=f(1., 80., 3., 2.),
                    mpermH=f(1., 1., 2., 1.), mpermV=f(1., 1.5, 2., 1.),
                    **lay())
    if m == 'hook':
        return dict(depth=f(0., 120., 200., 300.), res={
            'res': f(1e8, .3, 2., 4., 5.), 'func_eta': ops._hook_eta,
            'a': f(1., 2., 3., 4., 5.), 'tau': f(1., 1., 1., 1., 1.)})
    return dict(depth=f(0., 100.), res={
        'res': f(1e8, .3, 2.), 'func_zeta': ops._hook_zeta, 'c': [1, 2, 3]})


def opts(o, ft=False):
    if o is None:
        return None
    o = dict(o)
    if o.get('dlf') == 'OBJ':
        o['dlf'] = (filters.Fourier().key_81_2009 if ft else
                    filters.Hankel().key_51_2012)
    return o


def grid_hankel(q):
    out = []
    hts = ([('dlf', h) for h in HTS] + [('qwe', h) for h in QWE] +
           [('quad', h) for h in QUAD])
    for (ht, ha), m, loop, xd in itertools.product(
            hts, MODELS if not q else ['lay', 'hook', 'full', 'perm'],
            (None, 'off', 'freq'), (True, False, None)):
        if ht == 'quad' and (m not in ('lay', 'full') or xd is None):
            continue
        if q and loop == 'freq' and xd is not True:
            continue
        out.append((ht, ha, m, loop, xd))
    return out


def grid_time(q):
    out = []
    for (ft, fa), s, m in itertools.product(
            FTS, (0, 1, -1, 'wave'), ('lay', 'hook') if q else MODELS):
        if s == 'wave' and m != 'lay':
            continue
        out.append((ft, fa, s, m))
    return out


def grid_bip(q):
    out = []
    for sp, rp, st, ms, mr, n in itertools.product(
            (1, 3), (1, 2), (0, 5), (False, True, 'b'),
            (False, True, 'b', 'j', 'loop'), (1, 2, 5)):
        if q and (sp == 3 and rp == 2 or n == 5 and st):
            continue
        out.append((sp, rp, st, ms, mr, n))
    return out


# -------------------------------------------------------- warning conditions
W_DIP = ['freq', 'off', 'res', 'aniso', 'epermH', 'htarg', 'ftarg', 'kw',
         'time']


def warn_dipole(on, v):
    """A call in which exactly the given conditions hold."""
    tm = 'ftarg' in on or 'time' in on
    k = dict(src=[f(0.), f(0.), f(50.)], rec=[f(300., 200.), f(0.), f(120.)],
             depth=f(0., 100.), res=f(1e8, .3, 2.), aniso=f(1., 1., 2.),
             mpermH=f(1., 2., 1.), freqtime=f(1., 2.), verb=v,
             htarg={'dlf': 'kong_61_2007b'})
    exp = []
    if tm:
        k.update(signal=0, ft='dlf', ftarg={'dlf': 'key_81_2009'})
    if 'time' in on:
        k['freqtime'] = f(1., 1e-21)
        exp.append('Times <')
    if 'freq' in on:
        if tm:
            # frequencies follow from times: too large a time
            k['freqtime'] = np.append(k['freqtime'], 1e30)
        else:
            k['freqtime'] = f(1., 1e-21)
        exp.append('Frequencies <')
    if 'off' in on:
        k['rec'][0] = f(300., 1e-4)
        exp.append('Offsets <')
    if 'res' in on:
        k['res'] = f(1e8, 1e-21, 2.)
        exp.append('Resistivities <')
    if 'aniso' in on:
        k['aniso'] = f(1., 0., 2.)
        exp.append('Parameter aniso <')
    if 'epermH' in on:
        k['epermH'] = f(1., -1., 2.)
        exp.append('Parameter epermH <')
    if 'htarg' in on:
        k['htarg']['foo'] = 1
        exp.append("Unknown htarg {'foo': 1} for method 'dlf'")
    if 'ftarg' in on:
        k['ftarg']['bar'] = 1
        exp.append("Unknown ftarg {'bar': 1} for method 'dlf'")
    if 'kw' in on:
        k['srcpts'] = 3
        exp.append("Unused **kwargs: {'srcpts': 3}")
    return (lambda: empymod.dipole(**k)), exp


W_BIP = ['kw', 'ecur', 'sflux', 'rflux', 'freq', 'off']


def warn_bipole(on, v):
    k = dict(src=[f(0.), f(0.), f(150.), f(10.), f(20.)],
             rec=[f(300., 200.), f(0., 5.), f(20.), f(30.), f(40.)],
             depth=f(0., 100.), res=f(1e8, .3, 2.), freqtime=f(1., 2.),
             aniso=f(1., 1., 1.), mpermH=f(1., 1., 1.), mrec=False,
             msrc=False, mpermV=f(1., 1., 1.), verb=v)
    exp = []
    if 'kw' in on:
        k['ab'] = 11
        exp.append("Unused **kwargs: {'ab': 11}")
    if 'ecur' in on and 'rflux' not in on:
        k['mrec'] = 'j'
        k['aniso'] = f(1., 2., 1.)
        exp.append('`etaH != etaV` at receiver level')
    if 'sflux' in on:
        k['msrc'] = 'b'
        k['mpermV'][2] = 3.
        exp.append('`zetaH != zetaV` at source level')
    if 'rflux' in on:
        k['mrec'] = 'b'
        k['mpermV'][1] = 3.
        exp.append('`zetaH != zetaV` at receiver level')
    if 'freq' in on:
        k['freqtime'] = f(1e-30, 1.)
        exp.append('Frequencies <')
    if 'off' in on:
        k['rec'][0] = f(300., 0.)
        k['rec'][1] = f(0., 0.)
        exp.append('Offsets <')
    return (lambda: empymod.bipole(**k)), exp


# the same anisotropy without the condition: other layer, other receiver type
NOWARN = [
    ('j iso', dict(mrec='j', aniso=f(1., 1., 2.))),
    ('e aniso', dict(mrec=False, aniso=f(1., 2., 2.))),
    ('h mperm', dict(mrec=True, mpermV=f(1., 2., 2.))),
    ('b other', dict(mrec='b', mpermV=f(1., 1., 2.))),
    ('msrc b other', dict(msrc='b', mpermV=f(1., 2., 1.))),
    ('msrc T', dict(msrc=True, mpermV=f(1., 2., 3.))),
    ('exact freq', dict(freqtime=f(1e-20))),
    ('exact off', dict(rec=[f(1e-3), f(0.), f(20.), f(30.), f(40.)])),
    ('exact res', dict(res=f(1e8, 1e-20, 2.))),
    ('perm0', dict(epermH=f(0., 0., 0.), epermV=f(0., 0., 0.))),
]


def nowarn(i, v):
    k = dict(src=[f(0.), f(0.), f(150.), f(10.), f(20.)],
             rec=[f(300., 200.), f(0., 5.), f(20.), f(30.), f(40.)],
             depth=f(0., 100.), res=f(1e8, .3, 2.), freqtime=f(1., 2.),
             verb=v)
    k.update(NOWARN[i][1])
    return lambda: empymod.bipole(**k)


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'op', 'n': n} for n in sorted(ops.OPS)]
    for name, g in (('hankel', grid_hankel(q)), ('time', grid_time(q)),
                    ('bip', grid_bip(q))):
        for i in range(0, len(g), 12):
            out.append({'k': name, 'g': g[i:i+12]})
    sub = [s for r in range(len(W_DIP)+1)
           for s in itertools.combinations(W_DIP, r)]
    if q:
        sub = [s for s in sub if len(s) <= 2 or len(s) >= len(W_DIP)-1]
    for i in range(0, len(sub), 8):
        out.append({'k': 'wdip', 'g': sub[i:i+8]})
    sub = [s for r in range(len(W_BIP)+1)
           for s in itertools.combinations(W_BIP, r)]
    for i in range(0, len(sub), 8):
        out.append({'k': 'wbip', 'g': sub[i:i+8]})
    out += [{'k': 'nowarn'}, {'k': 'special'}, {'k': 'fdesign'},
            {'k': 'tmte'}, {'k': 'analytical'}, {'k': 'dipk'}]
    return out


def expected(R, tag, w, exp):
    """Printed warnings must be exactly the expected ones."""
    if w is None:
        return
    ok = len(w) == len(exp) and all(any(e in x for x in w) for e in exp)
    if not ok:
        R.fail('condition', f'{tag}: conditions {exp}, printed {w}')


def run_case(c, R):
    k = c['k']
    if k == 'op':
        o = ops.OPS[c['n']]
        a = o['make']()
        if 'verb' not in a:
            r = call(lambda: o['call'](a))
            R.ev()
            R.state(c['n'])
            if r[2]:
                R.fail('silent', f"{c['n']} prints {r[2]!r}")
            return

        def make(v):
            a = o['make']()
            a['verb'] = v
            return lambda: o['call'](a)
        levels(R, c['n'], make, [1, 2, 3, 4, 5, -1, True, False])
    elif k == 'hankel':
        for ht, ha, m, loop, xd in c['g']:
            def make(v):
                kw = dict(src=[x.copy() for x in SRC],
                          rec=[x.copy() for x in REC], freqtime=f(1.),
                          ab=13, ht=ht, htarg=opts(ha), loop=loop,
                          xdirect=xd, verb=v, **model(m))
                return lambda: empymod.dipole(**kw)
            levels(R, f'{ht} {ha} {m} {loop} {xd}', make)
    elif k == 'time':
        for ft, fa, s, m in c['g']:
            sig = s if s != 'wave' else {'nodes': f(-.1, 0., .05, .2, .3),
                                         'amplitudes': f(0., 1., 2., 1., 0.)}

            def make(v):
                kw = dict(src=[x.copy() for x in SRC],
                          rec=[x[:1].copy() for x in REC],
                          freqtime=f(.4, 1., .5, .7), signal=sig, ft=ft,
                          ftarg=opts(fa, True), verb=v,
                          htarg={'dlf': 'kong_61_2007b'}, **model(m))
                return lambda: empymod.dipole(**kw)
            levels(R, f'{ft} {fa} {s} {m}', make)
    elif k == 'bip':
        for sp, rp, st, ms, mr, n in c['g']:
            def make(v):
                x = np.arange(float(n))*10
                src = [x, x+10, x*0, x*0+3, x+50, x+55]
                rec = [f(300.), f(310.), f(5.), f(10.), f(120.), f(130.)]
                if n == 2:
                    rec = [x+300, x, x*0+120., f(20.), f(-10.)]
                kw = dict(src=[y.copy() for y in src], rec=rec, srcpts=sp,
                          recpts=rp, strength=st, msrc=ms, mrec=mr, verb=v,
                          freqtime=f(1.), htarg={'dlf': 'kong_61_2007b'},
                          depth=f(0., 100.), res=f(1e8, .3, 2.),
                          aniso=f(1., 1., 2.), mpermV=f(1., 1.2, 1.))
                return lambda: empymod.bipole(**kw)
            levels(R, f'bip {sp} {rp} {st} {ms} {mr} {n}', make)
    elif k in ('wdip', 'wbip'):
        fn = warn_dipole if k == 'wdip' else warn_bipole
        for on in c['g']:
            def make(v):
                return fn(on, v)[0]
            r0, w = levels(R, f'{k} {on}', make)
            if r0[0] != 'ok':
                R.fail('status', f'{k} {on}: {r0[0]}')
            expected(R, f'{k} {on}', w, fn(on, 0)[1])
    elif k == 'nowarn':
        for i, (name, _) in enumerate(NOWARN):
            r0, w = levels(R, f'nowarn {name}', lambda v: nowarn(i, v))
            expected(R, name, w, [])
    elif k == 'special':
        special(R)
    elif k == 'fdesign':
        for save, full, cvar, reim in itertools.product(
                (False,), (True, False), ('amp', 'r'), ('real', 'imag')):
            for r in (np.logspace(0, 1, 20), np.logspace(-6, -5, 10)):
                def make(v):
                    def go():
                        x = fdesign.design(
                            n=15, spacing=(.2, .3, 2), shift=(-1., -.5, 2),
                            fI=[fdesign.j0_1(2), fdesign.j1_1(3)],
                            fC=fdesign.j0_3(4), r=r, r_def=(1, 1, 2),
                            reim=np.real if reim == 'real' else np.imag,
                            cvar=cvar, save=save, full_output=full,
                            verb=v, plot=0)
                        fl = x[0] if full else x
                        return [fl.base, fl.j0] + (
                            [np.asarray(x[1][2])] if full else [])
                    return go
                levels(R, f'fdesign {full} {cvar} {reim} {r[0]}', make,
                       [1, 2])
    elif k == 'tmte':
        for n, m in itertools.product((1, 4), ('lay', 'perm', 'below')):
            def make(v):
                kw = dict(src=[f(0.), f(0.), f(130.)],
                          rec=[np.arange(n)*50.+30., np.zeros(n), f(220.)],
                          freqtime=f(5.), verb=v, **lay())
                if m == 'perm':
                    kw['eperm'] = f(1., 80., 5., 2.)
                if m == 'below':
                    kw['res'] = f(1e8, .3, 1e-22, 1.)
                return lambda: [x for p in tmtemod.dipole(**kw) for x in p]
            r0, w = levels(R, f'tmte {n} {m}', make)
            if m == 'below':
                expected(R, 'tmte', w, ['Resistivities <'])
            else:
                expected(R, 'tmte', w, [])
    elif k == 'analytical':
        for sol, ab, sig, n in itertools.product(
                ('fs', 'dfs', 'dhs', 'dsplit', 'dtetm'), (11, 13, 33, 36, 66),
                (None, 0, 1, -1), (1, 2, 5)):
            def make(v):
                kw = dict(src=[f(0.), f(0.), f(10.)],
                          rec=[np.arange(n)*100.+100., np.zeros(n), f(30.)],
                          res=f(2.), freqtime=f(1., .1, .2, 3.), ab=ab,
                          solution=sol, signal=sig, aniso=f(1.3), verb=v)
                return lambda: empymod.analytical(**kw)
            r0, w = levels(R, f'ana {sol} {ab} {sig} {n}', make)
            expected(R, f'ana {sol}', w, [])
    elif k == 'dipk':
        for m, n, ab in itertools.product(
                MODELS, (1, 2, 5), (11, 15, 36, 66)):
            def make(v):
                kw = dict(src=[f(0.), f(0.), f(50.)],
                          rec=[np.arange(n)*100.+100., np.zeros(n), f(130.)],
                          freq=f(1., .1, .2, 3.), ab=ab, verb=v,
                          wavenumber=np.logspace(-3, 0, n), **model(m))
                return lambda: list(empymod.dipole_k(**kw))
            levels(R, f'dipk {m} {n} {ab}', make)


def special(R):
    """Further warnings: each with and without its condition."""
    def dip(v, **kw):
        k = dict(src=[f(0.), f(0.), f(50.)], rec=[f(300.), f(0.), f(120.)],
                 depth=f(0., 100.), res=f(1e8, .3, 2.), freqtime=f(1.),
                 verb=v)
        k.update({a: (dict(b) if isinstance(b, dict) else b)
                  for a, b in kw.items()})
        return lambda: empymod.dipole(**k)
    ppd = 'pts_per_dec <'
    tab = [
        ('qwe ok', dict(ht='qwe'), []),
        ('qwe not', dict(ht='qwe', htarg={'maxint': 3, 'nquad': 5,
                                          'rtol': 1e-14, 'diff_quad': 1e9}),
         ['Hankel-quadrature did not converge']),
        ('quad ok', dict(ht='quad', htarg={'rtol': 1e-2, 'limit': 500,
                                           'a': 1e-6, 'b': .1}), []),
        ('quad not', dict(ht='quad', htarg={'rtol': 1e-12, 'limit': 1}),
         ['Hankel-quadrature did not converge']),
        ('quad ppd', dict(ht='quad', htarg={'rtol': 1e-2, 'limit': 500,
                                            'pts_per_dec': 0, 'a': 1e-7,
                                            'b': .1}), [ppd]),
        ('fqwe not', dict(signal=0, ft='qwe', ftarg={
            'maxint': 3, 'nquad': 5, 'rtol': 1e-14, 'diff_quad': 1e9,
            'pts_per_dec': 5}), ['Fourier-quadrature did not converge']),
        ('fqwe ppd', dict(signal=0, ft='qwe', ftarg={
            'maxint': 3, 'nquad': 5, 'rtol': 1e-14, 'diff_quad': 1e9,
            'pts_per_dec': 0}, freqtime=f(1e-3, .01, .1, 1., 1e2, 1e3)),
         [ppd, 'Fourier-quadrature']),
        ('fftlog ppd', dict(signal=0, ft='fftlog', ftarg={
            'pts_per_dec': 0, 'add_dec': [-5, 5]}), [ppd]),
        ('fft ppd', dict(signal=0, ft='fft', ftarg={
            'pts_per_dec': 0}), [ppd]),
        ('fft ok', dict(signal=0, ft='fft', ftarg={
            'pts_per_dec': 2, 'nfreq': 64}), []),
        ('unused', dict(ft='dlf'), []),
        ('qwe arg', dict(ht='qwe', htarg={'dlf': 1}), ['Unknown htarg']),
        ('quad arg', dict(ht='quad', htarg={
            'rtol': 1e-2, 'limit': 500, 'a': 1e-6, 'b': .1, 'nquad': 2}),
         ['Unknown htarg']),
        ('fft arg', dict(signal=0, ft='fft', ftarg={'nfreq': 64, 'q': 1}),
         ['Unknown ftarg']),
        ('fftlog arg', dict(signal=0, ft='fftlog', ftarg={'dfreq': 1}),
         ['Unknown ftarg']),
        ('fqwe arg', dict(signal=0, ft='qwe', ftarg={
            'maxint': 3, 'nquad': 5, 'rtol': 1e-14, 'diff_quad': 1e9,
            'pts_per_dec': 5, 'ntot': 3}), ['Unknown ftarg', 'Fourier-quad']),
        ('epermV', dict(epermV=f(1., -1., 1.)), ['Parameter epermV <']),
        ('zero res', dict(res=f(1., 0., 1.)), ['Resistivities <']),
        ('laplace', dict(freqtime=f(-1., -1e-22)), ['Laplace']),
        ('wave', dict(signal={'nodes': f(0., 1.), 'amplitudes': f(0., 1.)},
                      ft='dlf', freqtime=f(2.)), []),
    ]
    for name, kw, exp in tab:
        r0, w = levels(R, f'special {name}', lambda v: dip(v, **kw))
        if r0[0] == 'ok' and exp is not None:
            expected(R, name, w, exp)
        elif exp is not None:
            R.fail('status', f'{name}: {r0[0]}')

    def ipq(v, dz=0., **kw):
        k = dict(src=[f(0.), f(0.), f(-30.)], rec=[f(8.), f(0.), f(-30.+dz)],
                 freqtime=f(400.), scale=1., ab=66, verb=v, **lay())
        k.update(kw)
        return lambda: list(empymod.model.ip_and_q(**k))
    r0, w = levels(R, 'ipq', lambda v: ipq(v))
    R.note('ipq warnings', len(w or []))
