"""C18: keyword options.

Unknown keywords raise, known but unused ones only print a warning, documented
defaults change nothing: enumerated over all routines, all options and all
small sets of options.  The accepted transform options are compared with an
explicit table of the documentation.
"""
import contextlib
import io
import itertools
import re
import warnings
import numpy as np
import empymod
from empymod import filters, utils
from empymod.scripts import tmtemod

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of keyword sets (unknown, unused, '
             'documented default, alternative spelling) for every routine on '
             'the real code; state machine of the transform options against '
             'the documented table')
NOTE = ('11 call forms; all unknown names at one edit of a known one; all '
        'unused keywords, single and in pairs; all sets of up to 2 (3) options '
        'at their documented default; positional calls; spellings; all sets '
        'of up to 2 (3) transform options with two values each.')
WARM = 'cf'
RULE = 'one state per (routine, set of keywords)'
BOUNDS = {'quick': 'sets of up to 2 options', 'thorough': 'up to 3 options'}
HT = {'dlf': 'kong_61_2007b'}
FT = {'dlf': 'key_81_2009'}
TM = dict(depth=[0., 100.], res=[1e8, 0.3, 2.])
ONES = [1., 1., 1.]
S, Q = [0., 0., 50.], [300., 20., 130.]

BASE = {
    'dipole': dict(src=S, rec=Q, freqtime=1., **TM),
    'dipole-t': dict(src=S, rec=Q, freqtime=1., signal=0, htarg=HT, ftarg=FT,
                     **TM),
    'bipole': dict(src=S+[10., 20.], rec=Q+[30., 40.], freqtime=[1., 2.],
                   **TM),
    'bipole-6': dict(src=[0., 10., 0., 20., 50., 60.],
                     rec=[300., 310., 5., 10., 120., 120.], freqtime=1.,
                     htarg=HT, **TM),
    'loop': dict(src=S+[10., 20.], rec=Q+[30., 40.], freqtime=1., htarg=HT,
                 **TM),
    'analytical': dict(src=S, rec=Q, res=2., freqtime=[1., 2.]),
    'analytical-t': dict(src=S, rec=Q, res=2., freqtime=1., signal=0,
                         solution='dhs'),
    'gpr': dict(src=S, rec=Q, freqtime=1e-8, cf=250e6, ht='dlf', htarg=HT,
                ftarg={'nfreq': 8, 'ntot': 16, 'dfreq': 1e7},
                depth=[0., 100.], res=[1e8, 200., 20.]),
    'dipole_k': dict(src=S, rec=Q, freq=1., wavenumber=np.array([.01, .1]),
                     **TM),
    'ip_and_q': dict(src=[0., 0., -30.], rec=[8., 0., -30.], freqtime=400.,
                     ab=66, htarg=HT, **TM),
    'tmte': dict(src=S, rec=[300., 20., 60.], freqtime=1., **TM),
}
FN = {'dipole': empymod.dipole, 'dipole-t': empymod.dipole,
      'bipole': empymod.bipole, 'bipole-6': empymod.bipole,
      'loop': empymod.loop, 'analytical': empymod.analytical,
      'analytical-t': empymod.analytical, 'gpr': empymod.gpr,
      'dipole_k': empymod.dipole_k, 'ip_and_q': empymod.model.ip_and_q,
      'tmte': tmtemod.dipole}

# Keywords of the documentation.
ALL = ['src', 'rec', 'res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV',
       'verb']
TRAFO = ['ht', 'htarg', 'ft', 'ftarg', 'xdirect', 'loop']
KEYS = {
    'dipole': ALL+TRAFO+['depth', 'freqtime', 'signal', 'ab', 'squeeze',
                         'bandpass'],
    'bipole': ALL+TRAFO+['depth', 'freqtime', 'signal', 'msrc', 'srcpts',
                         'mrec', 'recpts', 'strength', 'squeeze',
                         'bandpass'],
    'analytical': ALL+['freqtime', 'solution', 'signal', 'ab', 'squeeze'],
    'gpr': ALL+TRAFO+['depth', 'freqtime', 'cf', 'gain', 'ab'],
    'dipole_k': ALL+['depth', 'freq', 'wavenumber', 'ab'],
}
KEYS['dipole-t'] = KEYS['dipole']
KEYS['bipole-6'] = KEYS['loop'] = KEYS['bipole']
KEYS['analytical-t'] = KEYS['analytical']
KEYS['ip_and_q'] = KEYS['dipole']+['scale']
KNOWN = sorted(set(sum(KEYS.values(), [])) - {'scale'})
VAL = dict(depth=[1.], ht='dlf', htarg={}, ft='dlf', ftarg={}, xdirect=True,
           loop='freq', signal=0, ab=11, freqtime=1., freq=1.,
           wavenumber=1., solution='dhs', cf=1., gain=1., msrc=True,
           srcpts=5, mrec=True, recpts=5, strength=2., squeeze=False,
           bandpass={'func': 1})

# Order of the positional arguments.
POS = {
    'dipole': ['src', 'rec', 'depth', 'res', 'freqtime', 'signal', 'ab',
               'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'],
    'bipole': ['src', 'rec', 'depth', 'res', 'freqtime', 'signal', 'aniso',
               'epermH', 'epermV', 'mpermH', 'mpermV', 'msrc', 'srcpts',
               'mrec', 'recpts', 'strength'],
    'loop': ['src', 'rec', 'depth', 'res', 'freqtime', 'signal', 'aniso',
             'epermH', 'epermV', 'mpermH', 'mpermV', 'mrec', 'recpts',
             'strength'],
    'analytical': ['src', 'rec', 'res', 'freqtime', 'solution', 'signal',
                   'ab', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'],
    'gpr': ['src', 'rec', 'depth', 'res', 'freqtime', 'cf', 'gain', 'ab',
            'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'],
    'dipole_k': ['src', 'rec', 'depth', 'res', 'freq', 'wavenumber', 'ab',
                 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'],
    'tmte': ['src', 'rec', 'depth', 'res', 'freqtime', 'aniso', 'eperm',
             'mperm', 'verb'],
}
POS['dipole-t'] = POS['dipole']
POS['bipole-6'] = POS['bipole']
POS['analytical-t'] = POS['analytical']


def defaults(r):
    """Documented defaults: list of (name, value), several spellings."""
    d = [('verb', 2)]
    lay = not r.startswith('ana')
    one = [ONES, [1, 1, 1], np.ones(3)] if lay else [1., 1]
    names = (['aniso', 'eperm', 'mperm'] if r == 'tmte' else
             ['aniso', 'epermH', 'epermV', 'mpermH', 'mpermV'])
    for n in names:
        d += [(n, v) for v in [None]+one]
    if r == 'tmte':
        return d
    b = BASE[r]
    if r not in ('bipole', 'bipole-6', 'loop', 'ip_and_q'):
        d += [('ab', v) for v in (11, 11., '11', np.int64(11))]
    if 'signal' in KEYS[r] and 'signal' not in b:
        d += [('signal', None)]
    if 'squeeze' in KEYS[r]:
        d += [('squeeze', True)]
    if r.startswith('analytical') and 'solution' not in b:
        d += [('solution', 'fs')]
    if r in ('bipole', 'bipole-6'):
        d += [('msrc', False), ('mrec', False)]
        d += [('srcpts', v) for v in (1, 2)]
    if r == 'loop':
        d += [('mrec', True)]
    if r in ('bipole', 'bipole-6', 'loop'):
        d += [('recpts', v) for v in (1, 2)]
        d += [('strength', v) for v in (0, 0.)]
    if 'bandpass' in KEYS[r]:
        d += [('bandpass', None)]
    if 'xdirect' in KEYS[r]:
        if r != 'ip_and_q':
            d += [('xdirect', False)]
        d += [('loop', None)]
        h = {} if 'htarg' not in b else dict(b['htarg'])
        if r == 'gpr':
            d += [('ht', v) for v in ('DLF', 'Dlf')]
            d += [('ft', v) for v in ('fft', 'FFT', 'Fft')]
        else:
            d += [('ht', v) for v in ('dlf', 'DLF', 'Dlf')]
            d += [('ft', v) for v in ('dlf', 'DLF')]
        if 'htarg' not in b:
            d += [('htarg', {}), ('htarg', {'dlf': 'key_201_2009'}),
                  ('htarg', {'dlf': filters.Hankel().key_201_2009})]
        else:
            h = {'dlf': filters.Hankel().kong_61_2007b}
            d += [('htarg', h)]
        d += [('htarg', {**h, 'pts_per_dec': v}) for v in (0, 0., None)
              if v is not None]
        if r == 'dipole-t':
            f = {'dlf': filters.Fourier().key_81_2009}
            d += [('ftarg', f), ('ftarg', {**f, 'pts_per_dec': -1}),
                  ('ftarg', {**f, 'pts_per_dec': -2.}),
                  ('ftarg', {**f, 'kind': 'sin'})]
        elif r != 'gpr':
            d += [('ftarg', {})]
    return d


def call(r, kw, args=()):
    buf = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            out = FN[r](*args, **kw)
    if not isinstance(out, (tuple, list)):
        out = [out]
    flat = []
    for x in out:
        flat += list(x) if isinstance(x, tuple) else [x]
    txt = re.sub(r'runtime = [0-9:.]+', 'runtime', buf.getvalue())
    return [np.asarray(x) for x in flat], txt


def same(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and x.dtype == y.dtype and
        np.all((np.abs(x-y) <= 1e-12*np.abs(y)) | (x == y))
        for x, y in zip(a, b))


def edits(n):
    out = {n+'s', n+'_', '_'+n, n.upper(), n.capitalize(), n[:-1], n[1:],
           n+'2'}
    return sorted(x for x in out if x and x.isidentifier())


# ------------------------------------------------------- transform options
HTARG = {
    'dlf': {'dlf': ('key_201_2009', ['kong_61_2007b', 'wer_201_2018']),
            'pts_per_dec': (0., [10, -1, 3.5])},
    'qwe': {'rtol': (1e-12, [1e-5, 1]), 'atol': (1e-30, [1e-9, 0]),
            'nquad': (51, [11, 7.]), 'maxint': (100, [40, 5]),
            'pts_per_dec': (0, [20, -3]), 'diff_quad': (100., [3, 2.5]),
            'a': (None, [1e-3, 1]), 'b': (None, [2., 3]),
            'limit': (None, [50, 7.])},
    'quad': {'rtol': (1e-12, [1e-5, 1]), 'atol': (1e-20, [1e-9, 0]),
             'limit': (500, [50, 7.]), 'a': (1e-6, [1e-3, 1]),
             'b': (0.1, [2., 3]), 'pts_per_dec': (40, [20, 0])},
}
FTARG = {
    'dlf': {'dlf': ('key_201_2012', ['key_81_2009', 'grayver_50_2021']),
            'pts_per_dec': (-1., [10, 0]), 'kind': ('sin', ['cos', 'sin'])},
    'qwe': {'rtol': (1e-8, [1e-5, 1]), 'atol': (1e-20, [1e-9, 0]),
            'nquad': (21, [11, 7.]), 'maxint': (200, [40, 5]),
            'pts_per_dec': (20, [10, 0]), 'diff_quad': (100, [3, 2]),
            'a': (None, [1e-3, 1]), 'b': (None, [2., 3]),
            'limit': (None, [50, 7.])},
    'fftlog': {'pts_per_dec': (10, [5, 0]),
               'add_dec': ([-2, 1], [[-1, 2], [0., 1.]]),
               'q': (0, [-.5, 3])},
    'fft': {'dfreq': (.002, [.1, 1]), 'nfreq': (2048, [100, 64]),
            'ntot': (None, [4096, 50]), 'pts_per_dec': (None, [5, 0])},
}
MINP = {'qweh': 0, 'quadh': 1, 'qwef': 1, 'fftlogf': 1, 'fftf': 1}


def expected(w, m, opts):
    """Documented result of the options."""
    tab = (HTARG if w == 'h' else FTARG)[m]
    out = {}
    for k, (d, _) in tab.items():
        v = opts.get(k, d)
        if k == 'pts_per_dec' and m+w in MINP and v is not None:
            v = max(int(v), MINP[m+w])
        if k == 'q' and abs(v) > 1:
            v = np.sign(v)
        out[k] = v
    if m == 'fft':
        n2 = 2**int(np.ceil(np.log2(out['nfreq'])))
        if out['ntot'] is None or out['ntot'] < out['nfreq']:
            out['ntot'] = n2
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for r in FN:
        out.append({'k': 'unknown', 'r': r})
        if r != 'tmte':
            out.append({'k': 'unused', 'r': r})
        for p in range(4):
            out.append({'k': 'default', 'r': r, 'n': 2 if q else 3,
                        'part': [p, 4]})
    for w, tab in (('h', HTARG), ('f', FTARG)):
        for m in tab:
            out.append({'k': 'options', 'w': w, 'm': m, 'n': 2 if q else 3})
            out.append({'k': 'runs', 'w': w, 'm': m})
    return out


def run_case(c, R):
    globals()['_'+c['k']](c, R)


def _unknown(c, R):
    r = c['r']
    known = set(KNOWN) | {'scale'} if r != 'tmte' else set(POS['tmte'])
    names = sorted(set(sum((edits(n) for n in known), [])) - known)
    names += ['foo', 'kwargs', 'time', 'frequency', 'sig', 'mode', 'opt',
              'names', 'defaults', 'known_keys', 'scale'][
                  :None if r != 'ip_and_q' else -1]
    for n in names:
        for v, extra in ((1, {}), (None, {}), (None, {'verb': 0}),
                         (1, {'ht': 'dlf'}), (1, {'gain': 2.})):
            if r == 'tmte' and set(extra)-{'verb'}:
                continue
            if n == 'signal' or n in BASE[r]:
                continue
            R.ev()
            R.tr()
            R.state((r, n, v, str(extra)))
            try:
                call(r, {**BASE[r], n: v, **extra})
            except TypeError as e:
                R.outcome((r, type(e).__name__))
                continue
            except Exception as e:
                R.fail(f'unknown {r}', f'{r}({n}={v}, {extra}): {e!r}')
                continue
            R.fail(f'unknown {r}', f'{r}({n}={v}, {extra}) passes silently')


def _unused(c, R):
    r = c['r']
    b = {**BASE[r]}
    unused = [k for k in KNOWN if k not in KEYS[r]]
    if r == 'loop':
        unused = [k for k in unused if k not in ('msrc', 'srcpts')]
    want = {v: call(r, {**b, 'verb': v}) for v in (0, 1, 2)}
    wd = call(r, b)
    for n in (1, 2):
        for ks in itertools.combinations(unused, n):
            for v in (0, 1, 2, None):
                kw = {**b, **{k: VAL[k] for k in ks}}
                if v is not None:
                    kw['verb'] = v
                R.ev()
                R.tr()
                R.state((r, ks, v))
                try:
                    out, txt = call(r, kw)
                except Exception as e:
                    R.fail(f'unused {r}', f'{r} with unused {ks}: {e!r}')
                    continue
                w, wt = want[v] if v is not None else wd
                if not same(out, w):
                    R.fail(f'unused {r} value', f'{r} with unused {ks}: '
                           f'{out[0].ravel()[:3]}')
                warns = [x for x in txt.splitlines()
                         if 'WARNING' in x and 'nused' in x]
                R.outcome((r, ks, v, len(warns)))
                if v == 0 and txt:
                    R.fail(f'unused {r} silent', f'{ks} verb=0: {txt!r}')
                if v != 0 and (not warns or not all(
                        any(repr(k) in x for x in warns) for k in ks)):
                    R.fail(f'unused {r} warn', f'{r} with unused {ks}, '
                           f'verb={v}: no warning ({txt!r})')


def _default(c, R):
    r = c['r']
    b = BASE[r]
    w, wt = call(r, b)
    d = defaults(r)
    sets = []
    for n in range(1, c['n']+1):
        sets += list(itertools.combinations(range(len(d)), n))
    for i, s in enumerate(sets):
        if i % c['part'][1] != c['part'][0]:
            continue
        kw = dict(b)
        if len({d[j][0] for j in s}) < len(s):
            continue
        for j in s:
            kw[d[j][0]] = d[j][1]
        tag = {d[j][0]: d[j][1] for j in s}
        R.ev()
        R.tr()
        R.state((r, s))
        try:
            out, txt = call(r, kw)
        except Exception as e:
            R.fail(f'default {r}', f'{r} with default {tag}: {e!r}')
            continue
        R.outcome((r, 'ok'))
        if not same(out, w):
            R.fail(f'default {r}', f'{r} with default {tag}: '
                   f'{out[0].ravel()[:3]} instead of {w[0].ravel()[:3]}')
        if txt != wt:
            R.fail(f'default {r} print', f'{r} with default {tag}: prints '
                   f'{txt!r} instead of {wt!r}')
    if c['part'][0]:
        return
    # Positional, every split between positional and keyword arguments.
    if r in POS:
        first = {}
        for k, v in d:
            first.setdefault(k, v)
        full = {**first, **b}
        pos = [k for k in POS[r]]
        for n in range(len(pos)+1):
            args = [full.get(k) for k in pos[:n]]
            rest = {k: v for k, v in b.items() if k not in pos[:n]}
            R.ev()
            R.state((r, 'pos', n))
            try:
                out, txt = call(r, rest, args)
            except Exception as e:
                R.fail(f'positional {r}', f'{r}, {n} positional: {e!r}')
                continue
            if not same(out, w) or txt != wt:
                R.fail(f'positional {r}', f'{r}, {n} positional arguments: '
                       f'{out[0].ravel()[:3]}')
        # One argument too many.
        if r != 'tmte':
            try:
                call(r, {k: v for k, v in b.items() if k not in pos},
                     [full.get(k) for k in pos]+[1])
                R.fail(f'positional {r}', f'{r}: too many accepted')
            except TypeError:
                pass


def _get(w, m, opts, verb=0, sig=0):
    buf = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            if w == 'h':
                name, targ = utils.check_hankel(m, opts, verb)
            else:
                out = utils.check_time(np.array([1., 3.]), sig, m, opts,
                                       verb, new=True)
                name, targ = out[2], out[3]
    return name, targ, buf.getvalue()


def eqv(a, b):
    if hasattr(a, 'base') and hasattr(a, 'factor'):
        return a.name == b if isinstance(b, str) else a is b
    if a is None or b is None:
        return a is None and b is None
    return np.array_equal(np.asarray(a), np.asarray(b))


def _options(c, R):
    """The options a transform uses are the provided ones, else defaults."""
    w, m = c['w'], c['m']
    tab = (HTARG if w == 'h' else FTARG)[m]
    vals = []
    for k, (d, vs) in tab.items():
        vals += [(k, v) for v in vs]
        if d is not None:
            vals.append((k, d))
    vals += [('foo', 1), ('Rtol', 1e-3), ('pts_per_dec ', 3), ('points', 3)]
    for n in range(0, c['n']+1):
        for s in itertools.combinations(vals, n):
            if len({k for k, _ in s}) < n:
                continue
            opts = dict(s)
            known = {k: v for k, v in opts.items() if k in tab}
            unk = [k for k in opts if k not in tab]
            if m == 'dlf' and w == 'f' and opts.get('kind') == 'cos' and (
                    opts.get('dlf') == 'grayver_50_2021'):
                continue                       # has no cosine coefficients
            for verb in (0, 1):
                R.ev()
                R.tr()
                R.state((w, m, str(sorted(opts, key=str)), str(s), verb))
                try:
                    name, targ, txt = _get(w, m, opts, verb)
                except Exception as e:
                    R.fail(f'options {m}', f'{m} {opts}: {e!r}')
                    continue
                exp = expected(w, m, known)
                R.outcome((w, m, str(targ.get('rtol')), len(txt) > 0))
                for k, v in exp.items():
                    if k not in targ or not eqv(targ[k], v):
                        R.fail(f'options {m} {k}', f'{m} {opts}: {k} is '
                               f'{targ.get(k)} instead of {v}')
                for k in targ:
                    if k in unk:
                        R.fail(f'options {m}', f'{opts}: {k} is used')
                # 'kind' etc. are printed; unknown ones need a warning.
                warned = [k for k in unk if any(
                    'WARNING' in x and repr(k) in x
                    for x in txt.splitlines())]
                if verb == 0 and txt:
                    R.fail(f'options {m} silent', f'{opts}: {txt!r}')
                if verb > 0 and warned != unk:
                    R.fail(f'options {m} warn', f'{m} {opts}: no warning '
                           f'for {unk}: {txt!r}')
                if verb > 0 and not unk and 'nknown' in txt:
                    R.fail(f'options {m} warn', f'{m} {opts}: {txt!r}')


def _runs(c, R):
    """Responses: documented default and unknown options change nothing."""
    w, m = c['w'], c['m']
    tab = (HTARG if w == 'h' else FTARG)[m]
    b = dict(src=S, rec=[[300., 700.], [20., 0.], 130.], verb=1, **TM)
    if w == 'h':
        b.update(freqtime=1., ht=m)
        name = 'htarg'
    else:
        b.update(freqtime=[1., 3.], signal=0, ft=m, htarg=HT)
        name = 'ftarg'
    ref, rt = call('dipole', b)
    for k, (d, vs) in tab.items():
        if d is None:
            continue
        for v in ([d, float(d), np.float64(d)] if isinstance(
                d, (int, float)) else [d, np.asarray(d)] if isinstance(
                d, list) else [d]):
            R.ev()
            R.tr()
            R.state((w, m, k, str(type(v))))
            out, txt = call('dipole', {**b, name: {k: v}})
            if not same(out, ref) or txt != rt:
                R.fail(f'default {m} {k}', f'{name} {k}={v!r}: '
                       f'{out[0]} instead of {ref[0]}; {txt!r}')
    for k in ('foo', 'fhtfilt', 'xyz'):
        out, txt = call('dipole', {**b, name: {k: 1}})
        R.ev()
        R.state((w, m, k))
        if not same(out, ref):
            R.fail(f'unknown {m} {k}', f'{out[0]} instead of {ref[0]}')
        if 'WARNING' not in txt or k not in txt:
            R.fail(f'unknown {m} {k}', f'no warning: {txt!r}')
