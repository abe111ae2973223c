"""C02: reciprocity."""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, ABS, FREQ, DLF, cmp, bscale

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of models x position pairs x component '
             'pairs/orientations; swapped call as oracle')
NOTE = ('All unordered pairs of positions of every stack, all 36 component '
        'pairs, both domains; all matrices of up to 3 sources and receivers '
        'against their transpose; bipoles over a grid of orientations, lengths '
        'and types; time domain over all signals. Bounded alphabets.')
WARM = 'cf'
RULE = ('(model, positions, component pair or orientations, domain); '
        'non-trivial if the response is not identically zero')
BOUNDS = {
    'quick': '1-3 layers over 3 materials (diagonal subset for 3), bipoles in '
             '2 models', 'thorough': '1-3 layers over 5 materials, 4 layers '
             'over 2; bipoles in 6 models'}
ASSUMPTIONS = ['compared within 2e-8 of the sum of absolute filter terms']
FILT = ref.load_filter('key_201_2009')
ORI = [(0., 0.), (37., -20.), (90., 90.), (200., 45.), (-61., 0.)]


def cases(tier):
    q = tier == 'quick'
    mods = []
    for n in (1, 2):
        mods += list(itertools.product(range(3 if q else 5), repeat=n))
    if q:
        mods += [(0, 1, 2), (1, 3, 1), (2, 3, 0), (1, 2, 4)]
    else:
        mods += list(itertools.product(range(5), repeat=3))
        mods += list(itertools.product((1, 3), repeat=4))
    out = [{'k': 'dip', 'm': m, 'dom': d} for m in mods for d in 'fs']
    bm = [(2, 0, 1), (1, 3)]
    if not q:
        bm += [(3, 1, 0, 3), (1,), (0, 4), (4, 2, 1)]
    for m in bm:
        for typ in itertools.product((False, True, 'b'), repeat=2):
            for form in ('pp', 'pf', 'ff'):
                out.append({'k': 'bip', 'm': m, 'typ': typ, 'form': form,
                            'q': q})
    for m in [(0, 3)] if q else [(2, 0, 1), (0, 3)]:
        for sig in (-1, 0, 1):
            for ft in ('dlf', 'qwe', 'fftlog'):
                for za, zb in ((0, 0), (0, 2), (2, 2)):
                    out.append({'k': 'time', 'm': m, 'sig': sig, 'ft': ft,
                                'z': (za, zb)})
    for m in [(2, 0, 1), (1, 3)] if q else [(2, 0, 1), (1, 3), (3,),
                                            (0, 4, 1, 3)]:
        for typ in itertools.product((False, True, 'b'), repeat=2):
            out.append({'k': 'mat', 'm': m, 'typ': typ})
        out.append({'k': 'matdip', 'm': m})
    return out


def run_case(c, R):
    M = Model(c['m'])
    if c['k'] == 'dip':
        dip(c, R, M)
    elif c['k'] == 'bip':
        bip(c, R, M)
    elif c['k'][:3] == 'mat':
        globals()[c['k']](c, R, M)
    else:
        tim(c, R, M)


def dip(c, R, M):
    freq = FREQ[c['dom']]
    zs = M.zpos + [M.zpos[0]-33, M.zpos[-1]+47]
    A, B = [12., -31.], [322., 64.]
    for i, za in enumerate(zs):
        for zb in zs[i:]:
            a, b = [*A, za], [*B, zb]
            tab = M.scale_table(a, b, freq, FILT)
            for ab in ABS:
                ba = ab % 10*10+ab//10
                sgn = 1 if (ab % 10 > 3) == (ab//10 > 3) else -1
                v1 = empymod.dipole(a, b, freqtime=freq, ab=ab, verb=0,
                                    **M.kw, **DLF)
                v2 = empymod.dipole(b, a, freqtime=freq, ab=ba, verb=0,
                                    **M.kw, **DLF)
                cmp(R, f'ab{ab}', f'{c} {za} {zb} ab={ab}', v1, sgn*v2,
                    tab[ab][1])
                R.ev(2)
                R.tr()
                R.state((c['m'], c['dom'], za, zb, ab), np.any(v1 != 0))
                R.outcome(complex(v1[0]))


def bip(c, R, M):
    ts, tr = c['typ']
    freq = [0.7, 350.]
    zs = M.zpos + [M.zpos[0]-33, M.zpos[-1]+47]
    pts = [([12., -31.], [322., 64.]), ([0., 0.], [0., 400.])]

    def arg(xy, z, ori, finite, ln):
        az, dp = np.deg2rad(ori)
        if not finite:
            return [xy[0], xy[1], z, ori[0], ori[1]]
        d = ln*np.array([np.cos(az)*np.cos(dp), np.sin(az)*np.cos(dp),
                         np.sin(dp)])
        d = np.round(d, 2)
        return [xy[0]-d[0], xy[0]+d[0], xy[1]-d[1], xy[1]+d[1],
                z-d[2], z+d[2]]

    sgn = 1 if bool(ts) == bool(tr) else -1
    for xy1, xy2 in pts[:1] if c['form'] != 'pp' else pts:
        for za, zb in itertools.product(zs, zs):
            # finite: keep clear of interfaces, so a point is never on one
            if c['form'] != 'pp' and (za in M.depth or zb in M.depth):
                continue
            prs = itertools.product(ORI, ORI[1:4])
            if c['q']:
                prs = zip(ORI[1:4], ORI[2:5])
            for o1, o2 in prs:
                a = arg(xy1, za, o1, c['form'] == 'ff', 5.)
                b = arg(xy2, zb, o2, c['form'] != 'pp', 8.)
                for st in (0, 3.) if c['form'] != 'pp' else (0,):
                    v1 = empymod.bipole(a, b, freqtime=freq, msrc=ts, mrec=tr,
                                        srcpts=3, recpts=4, strength=st,
                                        verb=0, **M.kw, **DLF)
                    v2 = empymod.bipole(b, a, freqtime=freq, msrc=tr, mrec=ts,
                                        srcpts=4, recpts=3, strength=st,
                                        verb=0, **M.kw, **DLF)
                    fin = (5. if c['form'] == 'ff' else 0)
                    # scale: largest component of that kind
                    sc = bscale(M, [*xy1, za], [*xy2, zb], freq, ts, tr, FILT)
                    f = 1 if st == 0 else st*20*20
                    cmp(R, f'bipole {ts}-{tr}', f'{c} {a} {b}', v1, sgn*v2,
                        sc*f*(3 if fin else 1), stol=1e-7)
                    R.ev(2)
                    R.tr()
                    R.state((c, za, zb, o1, o2, st, xy1), np.any(v1 != 0))
                    R.outcome(complex(v1[0]))


def tim(c, R, M):
    time = [0.01, 0.3, 2.]
    ftarg = {'fftlog': {'pts_per_dec': 20}}.get(c['ft'], {})
    za, zb = (M.zpos[i] for i in c['z'])
    for _ in (1,):
        a, b = [12., -31., za], [1322., 640., zb]
        for ab in [11, 31, 24, 61, 45, 66, 63]:
            ba = ab % 10*10+ab//10
            sgn = 1 if (ab % 10 > 3) == (ab//10 > 3) else -1
            kw = dict(freqtime=time, signal=c['sig'], ft=c['ft'], ftarg=ftarg,
                      verb=0, **M.kw, **DLF)
            v1 = empymod.dipole(a, b, ab=ab, **kw)
            v2 = empymod.dipole(b, a, ab=ba, **kw)
            sc = np.max(np.abs(v1))
            cmp(R, f'time{ab}', f'{c} {za} {zb} {ab}', v1, sgn*v2, sc,
                rtol=1e-5, stol=1e-5)
            R.ev(2)
            R.tr()
            R.state((c, za, zb, ab), np.any(v1 != 0))
            R.outcome(float(v1[0]))


# Several sources and receivers: the swapped call is the transpose.
MX = ([0., 100., -40.], [0., 30., 70.])
MY = ([800., 900., -700.], [-100., 20., 440.])
MD = ([[50., 3., 2.], [-20., 40., 0.], [10., 10., -14.]],
      [[10., 5., 1.], [30., -20., 8.], [2., 60., 3.]])
MO = ([(20., 0.), (0., 90.), (-70., 33.)], [(0., 0.), (90., 0.), (45., -80.)])


def mat(c, R, M):
    ts, tr = c['typ']
    freq = [0.7, 350.]
    sgn = 1 if bool(ts) == bool(tr) else -1

    def arg(i, n, finite, zind, z):
        x, y = np.array((MX, MY)[i])[:, :n]
        if not finite:
            o = np.array(MO[i], float)[:n].T
            return [x, y, z, *o]
        d = np.array(MD[i])[:n].T/2
        dz = d[2] if zind else 1.5
        zz = z+(7.*np.arange(n) if zind else 0.)
        return [x-d[0], x+d[0], y-d[1], y+d[1], zz-dz, zz+dz]

    for n1, n2 in itertools.product((1, 2, 3), repeat=2):
        for f1, f2 in itertools.product(((0, 0), (1, 0), (1, 1)), repeat=2):
            for st, pts in ((0, (3, 3)), (2., (3, 4))):
                a = arg(0, n1, *f1, M.zpos[0])
                b = arg(1, n2, *f2, M.zpos[-1])
                kw = dict(freqtime=freq, strength=st, verb=0, squeeze=False,
                          **M.kw, **DLF)
                if n1 == 1:
                    a = [x[0] if np.ndim(x) else x for x in a]
                v1 = empymod.bipole(a, b, msrc=ts, mrec=tr, srcpts=pts[0],
                                    recpts=pts[1], **kw)
                v2 = empymod.bipole(b, a, msrc=tr, mrec=ts, srcpts=pts[1],
                                    recpts=pts[0], **kw)
                v2 = np.swapaxes(v2, 1, 2)
                # strength and points: length of the source, not receiver
                sc = np.max(np.abs(v1), axis=(1, 2), keepdims=True)
                cmp(R, f'matrix {ts}-{tr}', f'{c} {n1} {n2} {f1} {f2} {st}',
                    v1, sgn*v2, sc, rtol=1e-7, stol=1e-7, name='mat')
                R.ev(2)
                R.tr()
                R.state((c, n1, n2, f1, f2, st), np.any(v1 != 0))
                R.outcome(complex(v1.ravel()[-1]))


def matdip(c, R, M):
    for n1, n2, dom in itertools.product((1, 2, 3), (1, 2, 3), 'fs'):
        for za, zb in itertools.combinations_with_replacement(M.zpos, 2):
            a = [np.array(MX[0][:n1]), np.array(MX[1][:n1]), za]
            b = [np.array(MY[0][:n2]), np.array(MY[1][:n2]), zb]
            kw = dict(freqtime=FREQ[dom], verb=0, squeeze=False, **M.kw,
                      **DLF)
            mx, val = {}, {}
            for ab in ABS:
                val[ab] = empymod.dipole(a, b, ab=ab, **kw)
                t = (ab > 39, ab % 10 > 3)
                s = np.max(np.abs(val[ab]), axis=(1, 2), keepdims=True)
                mx[t] = np.maximum(mx.get(t, 0.), s)
            for ab in ABS:
                ba = ab % 10*10+ab//10
                sgn = 1 if (ab % 10 > 3) == (ab//10 > 3) else -1
                v1 = val[ab]
                v2 = np.swapaxes(empymod.dipole(b, a, ab=ba, **kw), 1, 2)
                t = (ab > 39, ab % 10 > 3)
                cmp(R, f'matrix dipole ab{ab}', f'{c} {n1} {n2} {za} {zb} '
                    f'ab={ab} {dom}', v1, sgn*v2, mx[t], rtol=1e-7, stol=1e-7,
                    name='matdip')
                R.ev(2)
                R.tr()
                R.state((c, n1, n2, za, zb, ab, dom), np.any(v1 != 0))
