"""C07: the three treatments of the direct field.

State: (model, source position, receiver position, component pair, domain,
sequence of modes).  In every state the three modes are computed with the real
code and compared with an independent decomposition of the field.
"""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, ABS, FREQ, DLF, MAT, cmp

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of model, layer pair, component pair, '
             'domain and direct-field mode on the real code; independent '
             'transmission-line solution and full-space decomposition as '
             'oracle')
NOTE = ('All models over an alphabet of materials (incl. zero permittivity, '
        'stacks of identical layers) x all position pairs (in layers and on '
        'interfaces) x 36 component pairs x frequency and Laplace x modes; '
        'rotated bipoles and time domain for all layer pairs.')
WARM = 'cf'
RULE = ('state = (model, positions, component pair, domain, mode); '
        'non-trivial if the direct or the secondary field is not zero')
BOUNDS = {'quick': '13 models with up to 3 layers',
          'thorough': '43 models with up to 4 layers'}
FILT = ref.load_filter('key_201_2009')
MODES = (True, False, None)


def models(q):
    ms = [(i,) for i in range(6)]
    ms += [(0, 0), (1, 1, 1), (5, 5)]
    if q:
        return ms + [(0, 1), (5, 3), (2, 0, 1), (1, 3, 1)]
    ms += [m for m in itertools.product(range(6), repeat=2) if m[0] != m[1]]
    return ms + [(2, 0, 1), (1, 3, 1), (5, 0, 5), (3, 4, 3), (2, 0, 1, 3),
                 (3, 3, 1, 0)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in models(q):
        n = 2*len(m)-1
        for ia in range(n):
            for dom in 'fs':
                out.append({'m': m, 'ia': ia, 'dom': dom})
        for la, lb in itertools.product(range(len(m)), repeat=2):
            out.append({'m': m, 'bip': (la, lb)})
    return out


def run_case(c, R):
    if 'bip' in c:
        return bip(c, R)
    M = Model(c['m'])
    freq = FREQ[c['dom']]
    full = len(set(c['m'])) == 1
    za = M.zpos[c['ia']]
    for zb0, pos in itertools.product(M.zpos, (0, 1, 2)):
        # in general position, exactly at source depth, vertically above
        zb = zb0 + (17. if pos == 0 and zb0 == za else 0.)
        if pos == 1 and zb0 != za:
            continue
        a = [12., -31., za]
        b = [322., 64., zb] if pos < 2 else [12., -231., zb]
        ls, lr = ref.layer_of(za, M.depth), ref.layer_of(zb, M.depth)
        tab = M.scale_table(a, b, freq, FILT)
        H = Model((c['m'][ls],))
        hom = H.scale_table(a, b, freq, FILT)
        res, an, eH, eV, mH, mV = MAT[c['m'][ls]]
        for ab in ABS:
            v = {x: empymod.dipole(a, b, freqtime=freq, ab=ab, xdirect=x,
                                   verb=0, **M.kw, **DLF) for x in MODES}
            fs = empymod.analytical(a, b, res, freq, 'fs', None, ab, an, eH,
                                    eV, mH, mV, verb=0)
            sc = tab[ab][1]+hom[ab][1]
            key = f'ab{ab}'
            msg = f'{c} rec {b} ab={ab}'
            if full:
                cmp(R, 'full True '+key, msg, v[True], fs, sc, name='fullT')
                cmp(R, 'full None '+key, msg, v[None], 0*fs, 0, name='fullN')
                cmp(R, 'full False '+key, msg, v[False], tab[ab][0], sc,
                    name='fullF')
                cmp(R, 'analytic '+key, msg, fs, tab[ab][0], sc, rtol=1e-6,
                    stol=2e-6, name='closed')
            elif ls == lr:
                sec = tab[ab][0]-hom[ab][0]
                cmp(R, 'None '+key, msg, v[None], sec, sc, name='None')
                cmp(R, 'True '+key, msg, v[True], v[None]+fs, sc,
                    rtol=1e-9, stol=1e-10, name='True')
                cmp(R, 'False '+key, msg, v[False], tab[ab][0], sc,
                    name='False')
                cmp(R, 'analytic '+key, msg, fs, hom[ab][0], hom[ab][1],
                    rtol=1e-6, stol=2e-6, name='closed')
            else:
                for x in MODES:
                    cmp(R, f'diff {x} '+key, msg, v[x], tab[ab][0],
                        tab[ab][1], name='diff')
                cmp(R, 'diff '+key, msg, v[True], v[False], 0, rtol=1e-12)
                cmp(R, 'diff '+key, msg, v[None], v[False], 0, rtol=1e-12)
            R.ev(4)
            R.trace(3)
            R.tr(3)
            for x in MODES:
                R.state((c['m'], za, b, ab, c['dom'], str(x)),
                        np.any(np.abs(v[False]) > 0))
            R.outcome(complex(v[False][0]))


def bip(c, R):
    """Rotated and finite sources; loop options; time domain."""
    M = Model(c['m'])
    la, lb = c['bip']
    za = M.zpos[2*la]
    zb = M.zpos[2*lb]+(13. if la == lb else 0)
    full = len(set(c['m'])) == 1
    res, an, eH, eV, mH, mV = MAT[c['m'][la]]
    a = [12., -31., za, 33., 21.]
    b = [[322., 500.], [64., -20.], zb, -71., 40.]
    fin = [12., 32., -31., -21., za-1, za+2]
    for src, ms, mr, fr in itertools.product(
            (a, fin), (False, True), (False, True, 'j', 'b'), 'fst'):
        if fr == 't' and (src is fin or mr in ('j', 'b')):
            continue
        kw = dict(msrc=ms, mrec=mr, srcpts=3 if src is fin else 1, verb=0)
        if fr == 't':
            kw.update(freqtime=[0.01, 1.], signal=0)
        else:
            kw.update(freqtime=FREQ[fr])
        v = {x: empymod.bipole(src, b, xdirect=x, **M.kw, **kw, **DLF)
             for x in MODES}
        fs = empymod.bipole(src, b, [], res, aniso=an, epermH=eH, epermV=eV,
                            mpermH=mH, mpermV=mV, xdirect=True, **kw, **DLF)
        msg = f'{c} {src} {ms} {mr} {fr}'
        if fr == 't':
            # Fourier transform is linear; noise of the transform.
            nrm = np.max(np.abs(fs), axis=0)+np.max(np.abs(v[False]), axis=0)
        else:
            nrm = np.abs(fs)+np.abs(v[False])+np.abs(v[True])
            nrm = np.max(nrm, axis=-1, keepdims=True)
        tiny = 1e-5
        if la == lb or full:
            cmp(R, 'bip True', msg, v[True], v[None]+fs, nrm, rtol=1e-8,
                stol=1e-6 if fr == 't' else 1e-9, name='bipT')
            if full:
                cmp(R, 'bip None', msg, v[None], 0*fs, 0)
            if fr != 't':
                # cancellation of the filter sums: loose
                cmp(R, 'bip False', msg, v[False], v[True], nrm, rtol=1e-4,
                    stol=1e-4, name='bipF')
        else:
            cmp(R, 'bip diff', msg, v[True], v[False], nrm, rtol=1e-10,
                stol=tiny*1e-6)
            cmp(R, 'bip diff', msg, v[None], v[False], nrm, rtol=1e-10,
                stol=tiny*1e-6)
        R.ev(4)
        R.tr(3)
        for x in MODES:
            R.state((c, src is fin, ms, str(mr), fr, str(x)),
                    np.any(v[True] != 0))
