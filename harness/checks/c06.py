"""C06: rotated and finite-length bipoles are superpositions of dipoles."""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, ABS, DLF, cmp

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of orientations, forms, types; explicit '
             'superposition of point dipoles as reference model')
NOTE = ('All azimuth/dip pairs of a 20-value angular grid for source and '
        'receiver, all types, integration points, strengths and placements of '
        'the alphabet, deviations of 1e-5 to 2e-2 degrees from the axes; angles, lengths in between are not explored.')
WARM = 'cf'
RULE = ('(model, positions, orientations/ends, types, points, strength); '
        'non-trivial if the response is not zero')
BOUNDS = {'quick': '2 models', 'thorough': '5 models, all orientation pairs '
          'of source and receiver'}
FILT = ref.load_filter('key_201_2009')
ANG = [0., 30., 45., 90., 100., 135., 180., 225., 270., 300., 315., 360., 450.,
       720., -30., -45., -90., -180., -270., -450.]
FEW = [(0., 0.), (90., 0.), (0., 90.), (33., -20.), (180., 45.), (-90., -90.)]
TYPES = [False, True]


def cases(tier):
    q = tier == 'quick'
    ms = [(2, 0, 1), (3, 1)] if q else [(2, 0, 1), (3, 1), (1,), (0, 5),
                                        (0, 1, 3, 4)]
    out = []
    for m in ms:
        M = Model(m)
        nz = len(M.zpos)
        for ts, tr in itertools.product(TYPES, TYPES):
            for dom in 'fs':
                for ip in range(2):
                    if q and (ip == 1) and dom == 's':
                        continue
                    for side in (0, 1):
                        if ip == 0:
                            out.append({'k': 'tiny', 'm': m, 't': (ts, tr),
                                        'dom': dom, 'side': side})
                        out.append({'k': 'ang', 'm': m, 't': (ts, tr),
                                    'dom': dom, 'ip': ip, 'side': side,
                                    'q': q})
                out.append({'k': 'multi', 'm': m, 't': (ts, tr), 'dom': dom})
        for ts in (False, True, 'b', 'loop'):
            for tr in (False, True, 'b', 'j', 'loop'):
                for dom in 'fs':
                    if q and dom == 's' and m != ms[0]:
                        continue
                    out.append({'k': 'fin', 'm': m, 't': (ts, tr), 'dom': dom,
                                'q': q})
    out += [{'k': 'typ', 'm': m, 'dom': d} for m in
            [(2, 0, 1), (3, 1), (0, 1, 3, 4)] for d in 'fs']
    return out


def freqs(dom):
    return np.array([0.7, 35.])*(1 if dom == 'f' else -1)


def unit(az, dp):
    az, dp = np.deg2rad(az), np.deg2rad(dp)
    return np.array([np.cos(az)*np.cos(dp), np.sin(az)*np.cos(dp), np.sin(dp)])


class Pts:
    """Point-dipole responses, memoised."""

    def __init__(self, M, freq, R):
        self.M, self.freq, self.R, self.mem = M, freq, R, {}

    def get(self, s, r, ts, tr):
        k = (tuple(np.round(s, 9)), tuple(np.round(r, 9)), ts, tr)
        if k not in self.mem:
            g = np.zeros((3, 3, len(self.freq)), dtype=complex)
            for i, j in itertools.product(range(3), range(3)):
                ab = (i+1+3*tr)*10+j+1+3*ts
                g[i, j] = empymod.dipole(list(s), list(r), freqtime=self.freq,
                                         ab=ab, verb=0, **self.M.kw, **DLF)
                self.R.ev()
            self.mem[k] = g
        return self.mem[k]


def do_ang(c, R, M):
    ts, tr = c['t']
    P = Pts(M, freqs(c['dom']), R)
    a, b = [((12., -31., M.zpos[0]), (322., 64., M.zpos[-1])),
            ((0., 0., M.zpos[-1]), (0., 400., M.zpos[-1]+25.))][c['ip']]
    g = P.get(a, b, ts, tr)
    sc = np.max(np.abs(g), axis=(0, 1))
    full = list(itertools.product(ANG, ANG))
    for o in full:
        for p in (FEW[3:5] if c['q'] else FEW):
            o1, o2 = (o, p) if c['side'] == 0 else (p, o)
            v = empymod.bipole([*a, *o1], [*b, *o2], freqtime=P.freq,
                               msrc=ts, mrec=tr, verb=0, **M.kw, **DLF)
            w = np.einsum('i,j,ijf->f', unit(*o2), unit(*o1), g)
            cmp(R, 'rotated', f'{c} src {o1} rec {o2}', v, w, sc, rtol=1e-8,
                stol=1e-8)
            R.ev()
            R.tr()
            R.state((c['m'], c['t'], c['dom'], c['ip'], o1, o2),
                    np.any(w != 0))
            R.outcome(complex(v[0]))
    # axis-aligned combinations on both sides: unused components are skipped
    ax = [0., 90., 180., 270., -90., 360.]
    for o1 in itertools.product(ax, ax):
        for o2 in itertools.product(ax, ax[:3]):
            v = empymod.bipole([*a, *o1], [*b, *o2], freqtime=P.freq,
                               msrc=ts, mrec=tr, verb=0, **M.kw, **DLF)
            w = np.einsum('i,j,ijf->f', unit(*o2), unit(*o1), g)
            cmp(R, 'aligned', f'{c} src {o1} rec {o2}', v, w, sc, rtol=1e-8,
                stol=1e-8)
            R.ev()
            R.tr()
            R.state((c['m'], c['t'], c['dom'], c['ip'], o1, o2),
                    np.any(w != 0))


TINY = [-2e-2, 1e-3, -3e-4, 1e-5]


def do_tiny(c, R, M):
    """Almost axis-parallel: relative to the individual contributions."""
    ts, tr = c['t']
    P = Pts(M, freqs(c['dom']), R)
    za, zb = M.zpos[0], M.zpos[-1]
    ax = [(0., 0.), (90., 0.), (0., 90.), (180., 0.), (-90., 0.), (0., -90.)]
    for xy in ((0., 800.), (800., 0.), (0., 1e-3), (300., 300.)):
        a, b = (0., 0., za), (*xy, zb)
        g = P.get(a, b, ts, tr)
        for o1, o2 in itertools.product(ax, ax):
            for d, w in itertools.product(TINY, ((1, 0), (0, 1), (1, 1))):
                t = (o1[0]+d*w[0], o1[1]+d*w[1])
                p = (t, o2) if c['side'] == 0 else (o2, t)
                v = empymod.bipole([*a, *p[0]], [*b, *p[1]], freqtime=P.freq,
                                   msrc=ts, mrec=tr, verb=0, **M.kw, **DLF)
                co = np.outer(unit(*p[1]), unit(*p[0]))
                # documented: smaller factors are set to zero
                co[np.abs(co) < 1e-10] = 0
                x = co[:, :, None]*g
                cmp(R, 'tiny angle', f'{c} {xy} src {p[0]} rec {p[1]}', v,
                    x.sum(axis=(0, 1)), np.abs(x).sum(axis=(0, 1)), rtol=0,
                    stol=1e-5, name='tiny')
                R.ev()
                R.tr()
                R.state((c, xy, p), np.any(v != 0))
                R.outcome(complex(v[0]))


def do_multi(c, R, M):
    """Several orientations in one call: no component may be dropped."""
    ts, tr = c['t']
    P = Pts(M, freqs(c['dom']), R)
    za, zb = M.zpos[0], M.zpos[-1]
    ax = [(0., 0.), (90., 0.), (0., 90.), (180., 0.), (45., 0.), (0., 180.),
          (270., -90.), (90., 180.)]
    sx, sy = [12., -40.], [-31., 55.]
    for pair in itertools.product(ax, ax):
        for other in ((0., 0.), (90., 0.), (0., 90.), (20., 70.)):
            for side in (0, 1):
                if side == 0:
                    src = [sx, sy, za, [p[0] for p in pair],
                           [p[1] for p in pair]]
                    rec = [322., 64., zb, *other]
                else:
                    src = [322., 64., zb, *other]
                    rec = [sx, sy, za, [p[0] for p in pair],
                           [p[1] for p in pair]]
                v = empymod.bipole(src, rec, freqtime=P.freq, msrc=ts,
                                   mrec=tr, verb=0, **M.kw, **DLF)
                w = np.zeros((len(P.freq), 2), dtype=complex)
                for i, p in enumerate(pair):
                    s, r = (sx[i], sy[i], za), (322., 64., zb)
                    o1, o2 = p, other
                    if side:
                        s, r, o1, o2 = r, s, o2, o1
                    g = P.get(s, r, ts, tr)
                    w[:, i] = np.einsum('i,j,ijf->f', unit(*o2), unit(*o1), g)
                sc = np.max(np.abs(g), axis=(0, 1))[:, None]
                cmp(R, 'several orientations', f'{c} {pair} {other} {side}',
                    v, w, sc, rtol=1e-8, stol=1e-8)
                R.ev()
                R.tr()
                R.state((c, pair, other, side), np.any(w != 0))
                R.outcome(complex(v[0, 0]))


def do_fin(c, R, M):
    t1, t2 = c['t']
    ts = bool(t1)
    tr = t2 in (True, 'b', 'loop')
    P = Pts(M, freqs(c['dom']), R)
    eh, ev, zh, zv = ref.params(P.freq, *M.par)
    ends = {
        'h': ([-20., 32.], [10., -9.], [M.zpos[0], M.zpos[0]]),
        'v': ([12., 12.], [5., 5.], [M.zpos[0]-40, M.zpos[0]+18]),
        # crossing the first interface
        'x': ([-20., 40.], [10., -9.], [M.depth[0]-22., M.depth[0]+31.]),
        'p': (12., -31., M.zpos[0], 40., -25.),
    }
    rends = {
        'h': ([290., 350.], [64., 100.], [M.zpos[-1], M.zpos[-1]]),
        'x': ([280., 320.], [100., 90.], [M.depth[-1]+25., M.depth[-1]-30.]),
        'p': (322., 64., M.zpos[-1], -70., 35.),
    }

    def expand(e, npt, strength, src):
        """Points, weights, direction, factor."""
        if len(e) == 5:
            return ([np.array(e[:3])], [1.], unit(*e[3:]),
                    strength if src and strength != 0 else 1., list(e))
        e = np.array(e, float)
        d = e[:, 1]-e[:, 0]
        ln = np.linalg.norm(d)
        if npt < 3:
            x, w = np.array([0.]), np.array([1.])
        else:
            x, w = np.polynomial.legendre.leggauss(npt)
            w = w/2
        pts = [e.mean(axis=1)+xx*d/2 for xx in x]
        f = 1.
        if strength != 0:
            f = ln*(strength if src else 1)
        return pts, w, d/ln, f, [e[0, 0], e[0, 1], e[1, 0], e[1, 1], e[2, 0],
                                 e[2, 1]]

    pts = [(1, 1), (3, 1), (2, 4), (5, 3)]
    if not c['q']:
        pts = [(1, 1), (2, 2), (3, 1), (1, 3), (4, 2), (5, 6), (8, 3), (10, 1)]
    for (ks, es), (kr, er) in itertools.product(ends.items(), rends.items()):
        for np1, np2 in pts:
            if (ks == 'p' and np1 > 3) or (kr == 'p' and np2 > 3):
                continue
            for st in (0, 1., -2.5, 400.):
                p1, w1, d1, f1, src = expand(es, np1, st, True)
                p2, w2, d2, f2, rec = expand(er, np2, st, False)
                want = np.zeros(len(P.freq), dtype=complex)
                sc = 0
                for a, wa in zip(p1, w1):
                    for b, wb in zip(p2, w2):
                        g = P.get(a, b, ts, tr)
                        la = ref.layer_of(a[2], M.depth)
                        lb = ref.layer_of(b[2], M.depth)
                        fac = wa*wb*f1*f2
                        if t1 in ('b', 'loop'):
                            fac = fac*zh[la]
                        if t2 in ('b', 'loop'):
                            fac = fac*zh[lb]
                        if t2 == 'j':
                            fac = fac*eh[lb]
                        want = want+fac*np.einsum('i,j,ijf->f', d2, d1, g)
                        sc = sc+np.abs(fac)*np.max(np.abs(g), axis=(0, 1))
                v = empymod.bipole(src, rec, freqtime=P.freq, msrc=t1,
                                   mrec=t2, srcpts=np1, recpts=np2,
                                   strength=st, verb=0, **M.kw, **DLF)
                # coordinates of points are rounded to mm
                cmp(R, f'finite {t1}-{t2}', f'{c} {ks} {kr} points '
                    f'{np1, np2} strength {st}', v, want, sc, rtol=1e-5,
                    stol=2e-5, name='finite')
                R.ev()
                R.tr()
                R.state((c, ks, kr, np1, np2, st), np.any(want != 0))
                R.outcome(complex(v[0]))


def do_typ(c, R, M):
    """Current density and flux, from very low to very high frequencies."""
    fr = np.array([1e-4, .7, 3e3, 2e6, 8e7, 1e9])*(1 if c['dom'] == 'f'
                                                  else -1)
    eh, ev, zh, zv = ref.params(fr, *M.par)
    zs = [M.depth[0]-1.5, *(np.array(M.depth)+1.5)]
    for za, zb in itertools.product(zs, zs):
        a, b = [1., 2., za], [2.5, 3.1, zb+.2]
        la, lb = (ref.layer_of(z, M.depth) for z in (za, zb))
        for o1, o2 in itertools.product(FEW[:4], FEW[:4]):
            for ts, tr in itertools.product((False, 'b'), (False, 'j', 'b')):
                if not ts and not tr:
                    continue
                kw = dict(verb=0, freqtime=fr, **M.kw, **DLF)
                v = empymod.bipole([*a, *o1], [*b, *o2], msrc=ts, mrec=tr,
                                   **kw)
                w = empymod.bipole([*a, *o1], [*b, *o2], msrc=bool(ts),
                                   mrec=tr == 'b', **kw)
                w = w*(zh[la] if ts == 'b' else 1)
                w = w*{'j': eh[lb], 'b': zh[lb]}.get(tr, 1)
                cmp(R, f'type {ts} {tr}', f'{c} {za} {zb} {o1} {o2}', v, w,
                    0*np.abs(w), rtol=1e-9, stol=0, name='types')
                R.ev(2)
                R.tr()
                R.state((c, za, zb, o1, o2, ts, tr), bool(np.any(w)))


def run_case(c, R):
    globals()['do_'+c['k']](c, R, Model(c['m']) if len(c['m']) > 1 or
                            c['k'] != 'fin' else Model((1, 1)))
