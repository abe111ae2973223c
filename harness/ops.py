"""Alphabet of complete calls of the public routines (and failing ones).

Each entry has a function creating its arguments (float arrays of final
dimension wherever possible, so that a routine which forgets to copy would
change them; some values are below the minimum values) and one calling the
routine with them.
"""
import contextlib
import io as _io
import os
import tempfile
import warnings
import numpy as np
import empymod
from empymod import utils, filters
from empymod import io as eio
from empymod.scripts import fdesign, tmtemod

A = np.array


def f(*x):
    return np.array(x, dtype=float)


def lay(**kw):
    d = dict(depth=f(0., 120., 300.), res=f(1e8, 0.3, 20., 1.5),
             aniso=f(1., 1.2, 1.5, 1.))
    d.update(kw)
    return d


OPS = {}


def op(name, args, call=None, fail=False, fn=None, pure=True, tags=''):
    """Register; args is a zero-argument function returning kwargs."""
    if call is None:
        def call(a, fn=fn):
            return [fn(**a)]
    OPS[name] = dict(make=args, call=call, fail=fail, pure=pure,
                     tags=tags.split())


E = empymod
D = dict(verb=0)
op('dip-f', lambda: dict(src=[f(0., 0.), f(0., 10.), f(50.)],
                         rec=[f(0., 500., 300.), f(0., 40., -80.), f(120.)],
                         freqtime=f(1., 0., 30.), ab=11, verb=0, **lay()),
   fn=E.dipole)
op('dip-lap', lambda: dict(src=[f(0.), f(0.), f(50.)],
                           rec=[f(500.), f(40.), f(310.)],
                           freqtime=f(-1., -30.), ab=35, verb=0,
                           mpermH=f(1., 1., 2., 1.), **lay()), fn=E.dipole)
op('dip-dec', lambda: dict(src=[f(0.), f(0.), f(50.)],
                           rec=[f(500.), f(40.), f(310.)], freqtime=f(2.),
                           depth=f(300., 120., 0.), res=f(1.5, 20., .3, 1e8),
                           epermH=f(3., 2., 1., 1.), verb=0), fn=E.dipole)
op('dip-low', lambda: dict(src=[f(0.), f(0.), f(50.)],
                           rec=[f(0., 3e-4), f(0., 0.), f(90.)],
                           freqtime=f(1.), depth=f(0.), res=f(0., 1.),
                           verb=0), fn=E.dipole)
op('dip-t', lambda: dict(src=[f(0.), f(0.), f(50.)],
                         rec=[f(300., 350.), f(0., 10.), f(120.)],
                         freqtime=f(1., 0.01, 0.1), signal=1, ab=13, verb=0,
                         **lay()), fn=E.dipole)
op('dip-splined', lambda: dict(src=[f(0.), f(0.), f(50.)],
                               rec=[f(300., 350.), f(0., 10.), f(120.)],
                               freqtime=f(1.), ht='dlf',
                               htarg={'dlf': 'kong_61_2007b',
                                      'pts_per_dec': 20.}, verb=0, **lay()),
   fn=E.dipole)
op('dip-lagged', lambda: dict(src=[f(0.), f(0.), f(50.)],
                              rec=[f(300., 350.), f(0., 10.), f(120.)],
                              freqtime=f(1.), ht='dlf', loop='off',
                              htarg={'dlf': 'key_401_2009',
                                     'pts_per_dec': -1}, verb=0, **lay()),
   fn=E.dipole)
op('dip-filtobj', lambda: dict(src=[f(0.), f(0.), f(50.)],
                               rec=[f(300., 350.), f(0., 10.), f(120.)],
                               freqtime=f(1.), ht='dlf', xdirect=False,
                               htarg={'dlf': filters.Hankel().key_101_2009},
                               verb=0, **lay()), fn=E.dipole)
op('dip-qwe', lambda: dict(src=[f(0.), f(0.), f(50.)],
                           rec=[f(300., 350.), f(0., 10.), f(120.)],
                           freqtime=f(1.), ht='qwe', htarg={
                               'rtol': 1e-6, 'atol': 1e-30, 'nquad': 31,
                               'maxint': 40, 'pts_per_dec': 40,
                               'diff_quad': 10, 'a': None, 'b': None,
                               'limit': None}, verb=0, **lay()), fn=E.dipole)
op('dip-quad', lambda: dict(src=[f(0.), f(0.), f(50.)],
                            rec=[f(300.), f(0.), f(120.)],
                            freqtime=f(1.), ht='quad', htarg={
                                'rtol': 1e-4, 'a': 1e-6, 'b': 0.2,
                                'limit': 200, 'pts_per_dec': 40},
                            verb=0, **lay()), fn=E.dipole)
for _n, _ft, _fa in (
        ('sin', 'dlf', {'dlf': 'key_81_2009', 'pts_per_dec': 20}),
        ('cos', 'dlf', {'dlf': 'key_101_2012', 'kind': 'cos',
                        'pts_per_dec': 0}),
        ('qwe', 'qwe', {'pts_per_dec': 10, 'nquad': 15, 'maxint': 60}),
        ('fftlog', 'fftlog', {'pts_per_dec': 10, 'add_dec': f(-3., 3.),
                              'q': 0.2}),
        ('fft', 'fft', {'dfreq': 0.05, 'nfreq': 512, 'ntot': 1024,
                        'pts_per_dec': 10})):
    for _s in (0, -1):
        op(f'ft-{_n}{_s}',
           lambda _ft=_ft, _fa=_fa, _s=_s: dict(
               src=[f(0.), f(0.), f(50.)], rec=[f(300.), f(10.), f(120.)],
               freqtime=f(0.3, 0.1, 0.), signal=_s, ft=_ft,
               ftarg={k: (v.copy() if hasattr(v, 'copy') else v)
                      for k, v in _fa.items()}, verb=0, **lay()),
           fn=E.dipole)
op('wave', lambda: dict(src=[f(0.), f(0.), f(50.)],
                        rec=[f(300.), f(10.), f(120.)],
                        freqtime=f(0.3, 0.1), signal={
                            'nodes': f(-0.1, -0.05, 0., 0.01),
                            'amplitudes': f(0., 1., 1., 0.), 'signal': 1,
                            'nquad': 3}, ft='dlf',
                        ftarg={'dlf': 'key_81_2009'}, verb=0, **lay()),
   fn=E.dipole)
op('bip', lambda: dict(src=[f(-10., 20.), f(10., 30.), f(0., 0.0004),
                            f(5., 10.), f(50., 60.), f(55., 60.)],
                       rec=[f(300., 250.), f(10., 0.), f(120.), f(30.),
                            f(10.)],
                       freqtime=f(1., 5.), srcpts=3, strength=10., mrec=True,
                       verb=0, **lay()), fn=E.bipole)
op('bip-j', lambda: dict(src=[f(0.), f(10.), f(0.), f(30.), f(20.)],
                         rec=[f(300., 250.), f(10., 0.), f(120.), f(30., 0.),
                              f(10., 0.)],
                         freqtime=f(1., 5.), mrec='j', msrc='b', verb=0,
                         **lay()), fn=E.bipole)
op('loop', lambda: dict(src=[f(0.), f(0.), f(10.), f(0.), f(90.)],
                        rec=[f(30., 40.), f(0., 0.), f(10.), f(0.), f(90.)],
                        freqtime=f(100., 1000.), mrec='loop', verb=0,
                        **lay()),
   fn=lambda **k: E.loop(**k))
op('ana-fs', lambda: dict(src=[f(0.), f(0.), f(10.)],
                          rec=[f(300., 0.), f(40., 0.), f(30.)],
                          res=f(2.), freqtime=f(1., 0., 9.), solution='fs',
                          ab=13, aniso=f(1.4), verb=0), fn=E.analytical)
op('ana-dhs', lambda: dict(src=[f(0.), f(0.), f(10.)],
                           rec=[f(300.), f(40.), f(30.)],
                           res=f(2.), freqtime=f(1., 0.), solution='dsplit',
                           signal=-1, aniso=f(1.4), verb=0),
   call=lambda a: list(E.analytical(**a)))
op('gpr', lambda: dict(src=[f(0.), f(0.), f(1e-3)],
                       rec=[f(2., 3.), f(0., 0.), f(1e-3)],
                       depth=f(0., 1.), res=f(1e23, 200., 20.),
                       freqtime=f(1e-9, 0., 2e-8), cf=250e6, gain=1.5,
                       epermH=f(1., 9., 15.), ht='dlf',
                       htarg={'dlf': 'kong_61_2007b'}, ft='fft',
                       ftarg={'dfreq': 1e7, 'nfreq': 64, 'ntot': 64},
                       verb=0), fn=E.gpr)
op('dipk', lambda: dict(src=[f(0.), f(0.), f(50.)],
                        rec=[f(300., 20.), f(10., 3.), f(120.)],
                        freq=f(1., 0.), wavenumber=f(1e-3, 0.1), ab=12,
                        verb=0, **lay()),
   call=lambda a: list(E.dipole_k(**a)))
op('ipq', lambda: dict(src=[f(0.), f(0.), f(-30.)],
                       rec=[f(8., 16.), f(0., 0.), f(-30.)],
                       freqtime=f(400., 3000.), scale=1e3, ab=66, verb=0,
                       **lay()),
   call=lambda a: list(E.model.ip_and_q(**a)))


def _fem_args():
    fr, eH, eV, zH, zV = utils.check_frequency(
        f(1., 3.), f(1e8, .3, 2.), f(1., 1.2, 1.), f(1., 1., 1.),
        f(1., 1., 1.), f(1., 1., 1.), f(1., 1., 1.), 0)
    ht, ha = utils.check_hankel('dlf', {}, 0)
    dep = f(-np.inf, 0., 100.)
    ls, zs = utils.get_layer_nr([0., 0., f(10.)], dep)
    lr, zr = utils.get_layer_nr([0., 0., f(130.)], dep)
    return dict(ab=11, off=f(100., 200.), angle=f(0.1, 0.5), zsrc=zs,
                zrec=zr, lsrc=ls, lrec=lr, depth=dep,
                freq=fr, etaH=eH, etaV=eV, zetaH=zH, zetaV=zV, xdirect=False,
                isfullspace=False, ht=ht, htarg=ha, msrc=False, mrec=False,
                loop_freq=True, loop_off=False)


op('fem', _fem_args, call=lambda a: [E.model.fem(**a)[0]])


def _tem_args():
    t, fr, ft, fa, s = utils.check_time(f(.1, 1.), 1, 'dlf', {}, 0, True)
    return dict(fEM=(1/(2j*np.pi*fr+3.))[:, None]*np.ones(2), off=f(1., 2.),
                freq=fr, time=t, signal=s, ft=ft, ftarg=fa)


op('tem', _tem_args, call=lambda a: [E.model.tem(**a)[0]])
op('tmte', lambda: dict(src=[f(0.), f(0.), f(130.)],
                        rec=[f(300., 20.), f(10., 3.), f(220.)],
                        freqtime=f(5.), verb=0, eperm=f(1., 1., 3., 1.),
                        **lay()),
   call=lambda a: [x for p in tmtemod.dipole(**a) for x in p])
op('tools', lambda: dict(d=f(1., 2., 3., -4.), c=f(.5, 0., 1., 2.)),
   call=lambda a: [x for e in [utils.EMArray(a['d']+1j*a['c'])]
                   for x in (e.amp(), e.pha(), e.pha(True, True, False), e)])
op('filt', lambda: dict(n='wer_2001_2018'),
   call=lambda a: [getattr(filters.Hankel(), a['n']).base,
                   getattr(filters.Hankel(), a['n']).j1])
op('filtF', lambda: dict(n='wer_201_2018'),
   call=lambda a: [getattr(filters.Fourier(), a['n']).base,
                   getattr(filters.Fourier(), a['n']).cos])
op('kw-unused', lambda: dict(src=[f(0.), f(0.), f(50.)],
                             rec=[f(300.), f(10.), f(120.)],
                             freqtime=f(1.), verb=1, ft='dlf', **lay()),
   fn=E.dipole)
op('verb4', lambda: dict(src=[f(0.), f(0.), f(50.)],
                         rec=[f(300., 0.), f(10., 0.), f(120.)],
                         freqtime=f(1., 0.), verb=4, **lay()), fn=E.dipole)


def _hook_eta(inp, p):
    return p['etaH']*2, p['etaV']*3


def _hook_zeta(inp, p):
    return p['zetaH']*1.5, p['zetaV']


def _hook_band(inp, p):
    p['EM'] *= inp['fac']


op('hook', lambda: dict(src=[f(0.), f(0.), f(50.)],
                        rec=[f(300., 200.), f(10., 0.), f(120.)],
                        freqtime=f(1., 2.), depth=f(0., 100.),
                        res={'res': f(1e8, .3, 2.), 'func_eta': _hook_eta,
                             'func_zeta': _hook_zeta, 'x': f(1., 2., 3.)},
                        bandpass={'func': _hook_band, 'fac': f(2.)}, verb=0),
   fn=E.dipole)


def _tmp():
    return tempfile.TemporaryDirectory(prefix='verif-ops-')


def _io_call(a):
    out = []
    with _tmp() as d:
        for x in ('json', 'txt'):
            p = os.path.join(d, 'a.'+x)
            eio.save_data(p, a['data'], info='x')
            out.append(eio.load_data(p))
        eio.save_input(os.path.join(d, 'i.json'), a['inp'])
        r = eio.load_input(os.path.join(d, 'i.json'))
        out += [np.asarray(r['res']), np.asarray(r['src'][0])]
    return out


op('io', lambda: dict(data=np.arange(6.).reshape(1, 3, 2)*(1+2j),
                      inp=dict(src=[f(0., 1.), 2, 3], res=f(1., 2.))),
   call=_io_call)


def _cli_call(a):
    from empymod import __main__ as m
    with _tmp() as d:
        i, o = os.path.join(d, 'i.json'), os.path.join(d, 'o.json')
        eio.save_input(i, a['inp'])
        r = m.main(['dipole', i, o])
        assert r is None, r
        return [eio.load_data(o)]


op('cli', lambda: dict(inp=dict(src=[f(0.), f(0.), f(50.)],
                                rec=[f(300.), f(10.), f(120.)],
                                freqtime=f(1.), verb=0, **lay())),
   call=_cli_call)


def _fd_call(a):
    with _tmp() as d:
        a = {**a, 'path': d}
        flt, full = fdesign.design(**a)
        fdesign.save_filter(flt.name, flt, full, d)
        g, _ = fdesign.load_filter(flt.name, True, d)
        return [flt.base, flt.j0, np.asarray(full[2]), g.base]


op('fdesign', lambda: dict(n=21, spacing=f(0.2, 0.3, 2), shift=f(-1., -.5, 2),
                           fI=[fdesign.j0_1(2), fdesign.j0_2(3)],
                           fC=fdesign.j0_3(4), r=np.logspace(0, 1, 20),
                           r_def=(1, 1, 2), save=False, full_output=True,
                           verb=0, plot=0),
   call=lambda a: _fd_call({**a, 'spacing': (0.2, 0.3, 2),
                            'shift': (-1., -.5, 2)}))


# ------------------------------------------------------------- failing calls
def _bad(name, **kw):
    base = dict(src=[f(0.), f(0.), f(50.)], rec=[f(300.), f(10.), f(120.)],
                freqtime=f(1.), verb=0)
    op('bad-'+name, lambda: {**base, **lay(), **kw}, fn=E.dipole, fail=True)


_bad('ab', ab=77)
_bad('res', res=f(1., 2.))
_bad('kw', nonsense=3)
_bad('ht', ht='nope')
_bad('htarg', ht='dlf', htarg={'dlf': 'no_filter'})
_bad('ft', signal=1, ft='nope')
_bad('wave', signal={'nodes': f(2., 3.), 'amplitudes': f(0., 1.)})


def _raise(inp, p):
    p['etaH'] *= 7          # partially changed, then fails
    raise RuntimeError('user hook')


op('bad-hook', lambda: dict(src=[f(0.), f(0.), f(50.)],
                            rec=[f(300.), f(10.), f(120.)],
                            freqtime=f(1., 2.), depth=f(0., 100.),
                            res={'res': f(1e8, .3, 2.), 'func_eta': _raise},
                            verb=0), fn=E.dipole, fail=True)


def _raise_band(inp, p):
    p['EM'] *= 0
    raise RuntimeError('user hook')


op('bad-band', lambda: dict(src=[f(0.), f(0.), f(50.)],
                            rec=[f(300.), f(10.), f(120.)],
                            freqtime=f(.1, .2), signal=0, depth=f(0., 100.),
                            res=f(1e8, .3, 2.),
                            bandpass={'func': _raise_band}, verb=0),
   fn=E.dipole, fail=True)
op('bad-sol', lambda: dict(src=[f(0.), f(0.), f(10.)],
                           rec=[f(300.), f(0.), f(10.)], res=f(2.),
                           freqtime=f(1.), solution='xx', verb=0),
   fn=E.analytical, fail=True)
op('bad-filt', lambda: dict(n='nope'),
   call=lambda a: [getattr(filters.Hankel(), a['n'])], fail=True)

# ------------------------------------------------------ explicit minimum values
MINS = {
    'set-freq': dict(min_freq=0.5), 'set-time': dict(min_time=0.2),
    'set-off': dict(min_off=5.), 'set-res': dict(min_res=0.4),
    'set-angle': dict(min_angle=0.6),
    'set-default': dict(min_freq=1e-20, min_time=1e-20, min_off=1e-3,
                        min_res=1e-20, min_angle=1e-10),
    'set-none': {},
}
DEFAULT_MIN = dict(min_freq=1e-20, min_time=1e-20, min_off=1e-3,
                   min_res=1e-20, min_angle=1e-10)


def run(name, args, quiet=True):
    """Run one operation; returns (status, results, stdout)."""
    o = OPS[name]
    buf = _io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            try:
                res = [np.asarray(x) for x in o['call'](args)]
                st = 'ok'
            except Exception as e:
                res, st = [], f'{type(e).__name__}: {e}'
    return st, res, buf.getvalue()
