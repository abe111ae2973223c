"""C16: the command line equals the Python interface.

All combinations of routine, input dictionary, kind of output and verbosity
are executed through empymod.__main__.main (and through a new process for a
part of them) and compared with the call of the routine itself.  All single
faults of the command line and of the input file must fail without writing an
output file.
"""
import contextlib
import io
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import empymod
from empymod import __main__ as cli
from common import REPO

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive execution of the real command-line interface over a '
             'grid of routines, inputs, outputs and faults; the Python '
             'routine with the same input is the oracle')
NOTE = ('4 routines x 49 input dictionaries x 3 kinds of output x 5 '
        'verbosities; faults of command line, file and input; new processes '
        'for exit code and streams.')
WARM = 'cf'
RULE = 'one state per (routine, input, output kind, verbosity) or fault'
BOUNDS = {'quick': 'verbosities 0, 1, 3, default; 16 new processes',
          'thorough': 'all verbosities; every input in a new process'}
MOD = dict(depth=[0, 120], res=[1e8, 0.3, 2], aniso=[1, 1.5, 1])


def dip(**kw):
    return {**dict(src=[0, 0, 50], rec=[[300, 350], [0, 10], 130],
                   freqtime=[1, 3], **MOD), **kw}


def bip(**kw):
    return {**dict(src=[0, 0, 50, 10, 20], rec=[[300, 350], [0, 10], 130, 30,
                                                0],
                   freqtime=[1, 3], **MOD), **kw}


def ana(**kw):
    return {**dict(src=[0, 0, 50], rec=[[300, 350], [0, 10], 130],
                   freqtime=[1, 3], res=2.), **kw}


INP = {
    'dipole': [dip(), dip(rec=[300, 0, 130]), dip(freqtime=1),
               dip(rec=[300, 0, 130], freqtime=2), dip(ab=35),
               dip(ab=63), dip(src=[[0, 10], 0, 50]),
               dip(freqtime=[-1, -3]), dip(freqtime=[-1]), dip(signal=0),
               dip(signal=1, ft='fftlog', ftarg={'pts_per_dec': 5}),
               dip(signal=-1, ft='dlf', ftarg={'dlf': 'key_81_2009',
                                               'kind': 'cos'}),
               dip(signal={'nodes': [-1, 0], 'amplitudes': [0, 1]}),
               dip(ht='dlf', htarg={'dlf': 'kong_61_2007b',
                                    'pts_per_dec': 20}),
               dip(ht='quad', htarg={'rtol': .01}), dip(ht='qwe'),
               dip(xdirect=True), dip(xdirect=None, epermH=[1, 80, 5]),
               dip(squeeze=True), dip(squeeze=False), dip(srcpts=3),
               dip(loop='off'), dip(depth=[], res=3, aniso=None),
               dip(mpermH=[1, 2, 1], freqtime=[1e-21, 1])],
    'bipole': [bip(), bip(src=[0, 10, 0, 20, 50, 60], srcpts=3),
               bip(mrec=True), bip(msrc='b', mrec='j'), bip(strength=10),
               bip(signal=1, mrec='b'), bip(rec=[[300, 310], [320, 330], 0,
                                                 [5, 6], 100, [120, 130]]),
               bip(src=[[0, 5], [10, 20], 0, 0, 50, 50], freqtime=.5),
               bip(freqtime=-1., squeeze=True), bip(recpts=2)],
    'loop': [bip(), bip(mrec=False), bip(mrec='loop'), bip(signal=0),
             bip(strength=5, freqtime=3)],
    'analytical': [ana(), ana(solution='dfs'), ana(solution='dhs', signal=1),
                   ana(ab=36), ana(ab=66, freqtime=-2.), ana(aniso=1.5),
                   ana(rec=[300, 0, 130], freqtime=1), ana(signal=-1,
                                                           solution='dhs'),
                   ana(solution='dfs', freqtime=[-1, -2]),
                   ana(squeeze=True)],
}
OUTS = ['json', 'txt', None]
# Inputs which fail (also when called from Python).
BAD = [
    ('dipole', dip(ab=77)), ('dipole', dip(nonsense=1)),
    ('dipole', dip(res=[1, 2])), ('dipole', dip(ht='foo')),
    ('dipole', dip(ht='dlf', htarg={'dlf': 'nope'})),
    ('dipole', dip(rec=[1, 2])), ('dipole', dip(depth=[3, 1, 2])),
    ('dipole', {'src': [0, 0, 1]}), ('dipole', {}),
    ('dipole', dip(signal=7)), ('dipole', dip(signal=1, ft='x')),
    ('dipole', dip(src='abc')), ('dipole', dip(verb='x')),
    ('bipole', bip(rec=[1, 2, 3])), ('bipole', bip(cf=3, foo=1)),
    ('bipole', bip(mrec='q')), ('loop', bip(mrec='q')),
    ('analytical', ana(solution='foo')),
    ('analytical', ana(solution='dhs', ab=14)),
    ('analytical', ana(solution='dsplit')),
    ('analytical', ana(signal=3)), ('analytical', ana(res=[1, 2])),
]


def py(routine, inp):
    """The Python interface; result with squeeze=False."""
    buf = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            out = getattr(empymod.model, routine)(
                **{**json.loads(json.dumps(inp)), 'squeeze': False})
    return out, norm(buf.getvalue())


def norm(txt):
    return re.sub(r'runtime = [0-9:.]+', 'runtime', txt)


def run(args):
    """main(args) -> (failed, stdout)"""
    buf, err = io.StringIO(), io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
            try:
                r = cli.main(args)
                bad = r is not None and r != 0
            except SystemExit as e:
                bad = e.code not in (None, 0)
            except Exception:
                bad = True
    return bad, norm(buf.getvalue())


def process(args, cwd):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'empymod'] +
                       args, cwd=cwd, capture_output=True, text=True,
                       env={**os.environ, 'PYTHONPATH': REPO})
    return p.returncode != 0, norm(p.stdout)


def cases(tier):
    q = tier == 'quick'
    out = []
    vb = [None, 0, 1, 3] if q else [None, 0, 1, 2, 3, 4]
    n = 0
    for r in INP:
        for i in range(len(INP[r])):
            n += 1
            out.append({'k': 'eq', 'r': r, 'i': i, 'verb': vb,
                        'proc': n % 3 == 0 if q else True})
    out += [{'k': 'bad', 'i': i} for i in range(len(BAD))]
    out += [{'k': 'args'}, {'k': 'files'}, {'k': 'info'}]
    return out


def same(a, b):
    return (a.shape == b.shape and a.dtype == b.dtype and
            np.array_equal(a, b, equal_nan=True))


def load(path):
    """Independent reader of the output files."""
    if path.endswith('json'):
        with open(path) as f:
            j = json.load(f)
        d = np.array(j['data'], dtype=float)
        if 'complex' in j['dtype']:
            d = d[0] + 1j*d[1]
        return d, j['info']
    with open(path) as f:
        ln = f.read().splitlines()
    h = dict(x[2:].split(':', 1) for x in ln if x.startswith('#') and
             ':' in x)
    shape = [int(x) for x in re.findall(r'\d+', h['shape'])]
    typ = complex if 'complex' in h['dtype'] else float
    d = np.array([[typ(v.strip().replace('+-', '-')) for v in x.split(',')]
                  for x in ln if x and not x.startswith('#')])
    return d.reshape(shape), h['info'].strip()


def run_case(c, R):
    with tempfile.TemporaryDirectory(prefix='verif-c16-') as d:
        _run(c, R, d)


def put(d, inp, name='in put.json'):
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(inp if isinstance(inp, str) else json.dumps(inp))
    return p


def _run(c, R, d):
    k = c['k']
    if k == 'eq':
        for v in c['verb']:
            inp = dict(INP[c['r']][c['i']])
            if v is not None:
                inp['verb'] = v
            want, txt = py(c['r'], inp)
            p = put(d, inp)
            for o, how in itertools.product(OUTS, (run, process)):
                if how is process and (not c['proc'] or v != 1):
                    continue
                args = [c['r'], p]
                if o:
                    out = os.path.join(d, f'out{v}.'+o)
                    if os.path.exists(out):
                        os.remove(out)
                    args.append(out)
                bad, got = (run(args) if how is run else process(args, d))
                tag = f"{c['r']} {inp} -> {o} ({how.__name__})"
                R.ev()
                R.tr()
                R.trace()
                R.state((c['r'], c['i'], o, v, how is run))
                if bad:
                    R.fail('failed', f'{tag}: failed; prints {got[-300:]}')
                    continue
                if o:
                    if not os.path.exists(out):
                        R.fail('missing', f'{tag}: no output file')
                        continue
                    data, _ = load(out)
                    if not same(data, np.asarray(want)):
                        R.fail('data', f'{tag}: file has {data.ravel()[:4]} '
                               f'{data.shape}, Python {want.ravel()[:4]} '
                               f'{want.shape}')
                    lib = np.asarray(empymod.io.load_data(out))
                    if not same(lib, np.asarray(want)):
                        R.fail('load', f'{tag}: load_data differs')
                    if got != txt:
                        R.fail('stdout', f'{tag}: prints {got!r}, Python '
                               f'{txt!r}')
                elif got != txt + str(want) + '\n':
                    R.fail('stdout', f'{tag}: prints {got[-400:]!r} instead '
                           f'of {(txt+str(want))[-400:]!r}')
                R.outcome((str(want), o))
            left = {f for f in os.listdir(d) if not f.startswith('out')}
            if left != {'in put.json'}:
                R.fail('files', f'{left}')
        return

    def fails(tag, args, how=(run, process)):
        for h in how:
            before = sorted(os.listdir(d))
            bad, got = run(args) if h is run else process(args, d)
            R.ev()
            R.tr()
            R.state((tag, h is run))
            R.outcome((tag, bad))
            if not bad:
                R.fail('accepted', f'{tag}: {args} ({h.__name__}) did not '
                       f'fail; prints {got[-300:]}')
            if sorted(os.listdir(d)) != before:
                R.fail('written', f'{tag}: {args} wrote '
                       f'{set(os.listdir(d))-set(before)}')
    if k == 'bad':
        r, inp = BAD[c['i']]
        p = put(d, inp)
        for o in OUTS:
            if o is None and inp.get('solution') == 'dsplit':
                continue            # prints the parts
            fails(f'{r} {inp}', [r, p] + (
                [os.path.join(d, 'out.'+o)] if o else []),
                (run, process) if o == 'json' else (run,))
    elif k == 'args':
        p = put(d, INP['dipole'][0])
        o = os.path.join(d, 'o.json')
        for a in ([['nope', p, o], ['Dipole', p, o], ['gpr', p, o],
                   ['dipole_k', p, o], ['fem', p], ['dipole', p, o, 'x'],
                   ['dipole', p, o, '--foo'], [p, 'dipole', o],
                   ['--verb', '1', 'dipole', p]]):
            fails(str(a[:1]), a)
        # information only
        for a, txt in ((['--version'], f'empymod v{empymod.__version__}'),
                       (['--report'], 'empymod'), ([], 'empymod'),
                       (['dipole'], 'empymod'), (['--help'], 'usage'),
                       (['--version', 'dipole', p, o], 'empymod v')):
            for h in (run, process):
                bad, got = run(a) if h is run else process(a, d)
                R.ev()
                R.state(('info', tuple(a), h is run))
                if bad or txt not in got or os.path.exists(o):
                    R.fail('info', f'{a}: {bad} {got[:300]}')
    elif k == 'files':
        o = os.path.join(d, 'o.json')
        good = json.dumps(INP['dipole'][0])
        fails('no file', ['dipole', os.path.join(d, 'no.json'), o])
        for i, t in enumerate(['', '{', good[:-1], good[1:], good+'}',
                               good.replace(':', ';', 1), '[1, 2]', '3',
                               'null', '"x"', good.replace('"src"', 'src')]):
            fails(f'content {i}', ['dipole', put(d, t, f'b{i}.json'), o],
                  (run,))
        p = put(d, good, 'inp.txt')
        fails('input ext', ['dipole', p, o])
        p = put(d, good)
        for e in ('o', 'o.npz', 'o.dat', 'o.jsn', 'nodir/o.json'):
            fails(f'output {e}', ['dipole', p, os.path.join(d, e)])
        # An existing output file is replaced by a successful run.
        for ext in ('json', 'txt'):
            oo = os.path.join(d, 'e.'+ext)
            with open(oo, 'w') as f:
                f.write('old'*1000)
            inp = {**INP['dipole'][0], 'verb': 0}
            bad, _ = run(['dipole', put(d, inp), oo])
            data, _ = load(oo)
            if bad or not same(data, np.asarray(py('dipole', inp)[0])):
                R.fail('replace', f'{ext}')
            R.ev()
            # and kept by one which fails.
            with open(oo, 'rb') as f:
                b0 = f.read()
            run(['dipole', put(d, dip(ab=77)), oo])
            with open(oo, 'rb') as f:
                if f.read() != b0:
                    R.fail('kept', f'{ext}: failing run changed the output')
            R.ev()
    elif k == 'info':
        # relative names, information line
        cwd = os.getcwd()
        os.chdir(d)
        try:
            for r in INP:
                inp = {**INP[r][0], 'verb': 0}
                put(d, inp, 'é.json')
                for ext in ('json', 'txt'):
                    bad, _ = run([r, 'é.json', 'o.'+ext])
                    data, info = load('o.'+ext)
                    R.ev()
                    R.state(('info', r, ext))
                    if bad or r not in info or 'é.json' not in info:
                        R.fail('info', f'{r} {ext}: {info}')
                    if not same(data, np.asarray(py(r, inp)[0])):
                        R.fail('data', f'{r} relative names')
        finally:
            os.chdir(cwd)
