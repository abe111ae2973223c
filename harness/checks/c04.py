"""C04: coordinate-system invariances.

Breadth-first search: a state is a complete setup (model, source, receiver,
frequencies, the way depths are given) reached by a sequence of
transformations; its response is compared with the predicted factor times the
response of the untransformed setup.
"""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, DLF, cmp, bscale

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state search over transformation sequences of real '
             'setups; physical invariance as oracle')
NOTE = ('All sequences of up to 2 (3) of 10 transformations from every base '
        'setup (electric/magnetic types, orientations, domains); interface '
        'rule for every interface, source and receiver.')
WARM = 'cf'
RULE = ('state = transformed setup; non-trivial if it differs from the base '
        'setup and the response is not zero')
BOUNDS = {'quick': 'depth 2, 3 models, 2 orientation pairs',
          'thorough': 'depth 3, 7 models, 4 orientation pairs'}
FILT = ref.load_filter('key_201_2009')
ORI = [((33., -20.), (-71., 55.)), ((90., 0.), (0., 90.)),
       ((0., 0.), (0., 0.)), ((0., 90.), (210., 12.))]


def cases(tier):
    q = tier == 'quick'
    ms = [(1,), (1, 3), (2, 0, 1)]
    if not q:
        ms += [(0, 5), (3, 1, 0), (2, 0, 1, 3), (3, 3, 1)]
    out = []
    for m in ms:
        M = Model(m)
        zz = M.zpos[::2]
        for ia, ib in itertools.product(range(len(zz)), repeat=2):
            for o in range(2 if q else 4):
                for ts, tr in itertools.product((False, True), repeat=2):
                    for dom in 'fs':
                        if q and dom == 's' and o == 1:
                            continue
                        out.append({'m': m, 'i': (2*ia, 2*ib), 'o': o,
                                    't': (ts, tr), 'dom': dom,
                                    'd': 2 if q else 3})
        for iz in range(len(m)-1):
            for d in (1, -1):
                out.append({'m': m, 'iface': iz, 'dom': d})
    return out


class S:
    """Setup."""

    def __init__(s, **kw):
        s.__dict__.update(kw)

    def copy(s, **kw):
        d = dict(s.__dict__)
        d.update(kw)
        return S(**d)

    def key(s):
        return repr((np.round(s.dep, 6).tolist(), np.round(s.par, 9).tolist(),
                     np.round(s.src, 6).tolist(), np.round(s.rec, 6).tolist(),
                     np.round(s.freq, 9).tolist(), s.rev, s.ninf, s.pinf))

    def run(s, ts, tr):
        dep, par = list(s.dep), s.par
        if s.ninf:
            dep = [-np.inf]+dep
        if s.pinf:
            dep = dep+[np.inf]
        if s.rev:
            dep, par = dep[::-1], par[:, ::-1]
        res, an, eH, eV, mH, mV = par.copy()
        return empymod.bipole(list(s.src), list(s.rec), dep, res, s.freq, None,
                              an, eH, eV, mH, mV, msrc=ts, mrec=tr, verb=0,
                              **DLF)


def wrap(a):
    return (a+180) % 360-180


def tshift(s, ts, tr):
    v = np.array([1000.5, -333.25, 0, 0, 0])
    return s.copy(src=s.src+v, rec=s.rec+v)


def zshift(s, ts, tr):
    v = np.array([0, 0, 417.25, 0, 0])
    return s.copy(src=s.src+v, rec=s.rec+v, dep=s.dep+417.25)


def zshift2(s, ts, tr):
    v = np.array([0, 0, -1903., 0, 0])
    return s.copy(src=s.src+v, rec=s.rec+v, dep=s.dep-1903.)


def _rot(p, th):
    t = np.deg2rad(th)
    c, n = np.cos(t), np.sin(t)
    return np.array([c*p[0]-n*p[1], n*p[0]+c*p[1], p[2], wrap(p[3]+th), p[4]])


def rot90(s, ts, tr):
    return s.copy(src=_rot(s.src, 90), rec=_rot(s.rec, 90))


def rot33(s, ts, tr):
    return s.copy(src=_rot(s.src, 33), rec=_rot(s.rec, 33))


def mirx(s, ts, tr):
    def f(p):
        return np.array([-p[0], p[1], p[2], wrap(180-p[3]), p[4]])
    return s.copy(src=f(s.src), rec=f(s.rec),
                  fac=s.fac*(-1)**(int(ts)+int(tr)))


def mirz(s, ts, tr):
    def f(p):
        return np.array([p[0], p[1], -p[2], p[3], -p[4]])
    return s.copy(src=f(s.src), rec=f(s.rec), dep=-s.dep[::-1],
                  par=s.par[:, ::-1], fac=s.fac*(-1)**(int(ts)+int(tr)))


def rev(s, ts, tr):
    if len(s.dep) < 2 and not (s.ninf or s.pinf):
        return None
    return s.copy(rev=not s.rev)


def ninf(s, ts, tr):
    # decreasing order is only recognised from finite depths on
    return s.copy(ninf=not s.ninf)


def pinf(s, ts, tr):
    return s.copy(pinf=not s.pinf)


def scale(s, ts, tr):
    a, b = 10., 4.
    sc = np.array([a, a, a, 1, 1])
    par = s.par.copy()
    par[0] *= b
    par[2:4] *= a*a/b/b
    f = {(False, False): b/a**3, (True, True): 1/(a*b)}.get((ts, tr), 1/a**2)
    return s.copy(src=s.src*sc, rec=s.rec*sc, dep=s.dep*a, par=par,
                  freq=s.freq*b/a**2, fac=s.fac*f)


EVENTS = [tshift, zshift, zshift2, rot90, rot33, mirx, mirz, rev, ninf, pinf,
          scale]


def run_case(c, R):
    M = Model(c['m'])
    if 'iface' in c:
        return iface(c, R, M)
    ts, tr = c['t']
    freq = np.array([0.7, 350.])*(1 if c['dom'] == 'f' else -1)
    o1, o2 = ORI[c['o']]
    za, zb = (M.zpos[i] for i in c['i'])
    if za == zb:
        zb += 23.
    s0 = S(dep=M.depth, par=M.par, src=np.array([12., -31., za, *o1]),
           rec=np.array([322., 64., zb, *o2]), freq=freq, rev=False,
           ninf=False, pinf=False, fac=1.)
    base = np.asarray(s0.run(ts, tr))
    sc = bscale(M, s0.src, s0.rec, freq, ts, tr, FILT)
    seen = {s0.key()}
    front = [(s0, ())]
    for _ in range(c['d']):
        new = []
        for s, hist in front:
            for ev in EVENTS:
                t = ev(s, ts, tr)
                if t is None:
                    continue
                R.tr()
                k = t.key()
                if k in seen:
                    continue
                seen.add(k)
                h = hist+(ev.__name__,)
                v = t.run(ts, tr)
                cmp(R, 'invariance', f'{c} after {h}', v, t.fac*base,
                    abs(t.fac)*sc, rtol=1e-7, stol=1e-7)
                R.ev()
                R.state((c['m'], c['t'], c['dom'], k), np.any(base != 0))
                R.outcome(complex(v[0]))
                new.append((t, h))
        front = new


def iface(c, R, M):
    """On an interface: identical to just above, source and receiver."""
    for dom in (c['dom'],):
        freq = np.array([0.7, 35.])*dom
        for iz, zi in [(c['iface'], M.depth[c['iface']])]:
            for zo in M.zpos[::2]:
                for ab in [i*10+j for i in range(1, 7) for j in range(1, 7)]:
                    for which in (0, 1):
                        for rv in (0, 1):
                            kw = M.kw
                            if rv:
                                kw = {k: v[::-1] for k, v in kw.items()}

                            def f(z):
                                a, b = [12., -31., z], [322., 64., zo]
                                if which:
                                    a, b = b, a
                                return np.asarray(empymod.dipole(
                                    a, b, freqtime=freq, ab=ab, verb=0, **kw,
                                    **DLF))
                            v, w = f(zi), f(zi-1e-9)
                            a, b = [12., -31., zi], [322., 64., zo]
                            if which:
                                a, b = b, a
                            sc = M.scale_table(a, b, freq, FILT, [ab])[ab][1]
                            cmp(R, f'interface ab{ab}', f'{c} interface {zi} '
                                f'other {zo} ab {ab} src/rec {which} rev {rv}',
                                v, w, sc, rtol=1e-5, stol=1e-5, name='iface')
                            R.ev(2)
                            R.tr()
                            R.state((c['m'], iz, zo, ab, which, rv, dom),
                                    np.any(v != 0))
