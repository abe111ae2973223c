"""C03: fictitious layers and equivalent models.

Breadth-first search over sets of split depths: an event splits the model at
one depth (the layer there is replaced by two identical layers); a state is the
set of splits made; in every state all component pairs are compared with the
unsplit model.
"""
import itertools
import numpy as np
import empymod
import ref
from hx import Model, MAT, ABS, FREQ, DLF, cmp

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state search over layer splits of the real model; '
             'unsplit model and analytical full-space as oracle')
NOTE = ('All sets of up to 3 (4) splits over a set of depths that includes '
        'source and receiver depths, thin layers and the half-spaces; all 36 '
        'component pairs in every state, both domains.')
WARM = 'cf'
RULE = ('state = (model, set of split depths, positions, component pair, '
        'domain); non-trivial if at least one split is made and the response '
        'is not identically zero')
BOUNDS = {'quick': 'up to 2 splits of 4 models (3 of the full-space)',
          'thorough': 'up to 3 splits of 12 models (4 of the full-space)'}
FILT = ref.load_filter('key_201_2009')


def cases(tier):
    q = tier == 'quick'
    ms = [(1,), (0, 1), (2, 0, 1), (1, 3, 1)]
    if not q:
        ms += [(0,), (3,), (3, 1), (1, 1), (2, 0, 1, 3), (0, 3, 1), (3, 1, 0),
               (4, 1, 3)]
    out = []
    for m in ms:
        M = Model(m)
        for ia, ib in itertools.product(range(len(M.zpos)), repeat=2):
            if q and (ia+2*ib) % 3 and len(m) > 2:
                continue
            for dom in 'fs':
                out.append({'m': m, 'ia': ia, 'ib': ib, 'dom': dom,
                            'd': (3 if q else 4) if len(m) == 1
                            else (2 if q else 3)})
    for m in range(6):
        for n in (2, 3, 4):
            for dom in 'fs':
                out.append({'m': (m,)*n, 'homog': True, 'dom': dom})
    return out


def split(M, s):
    """Depths and parameters after adding the interfaces s."""
    dep = np.sort(np.r_[M.depth, s])
    top = np.r_[-np.inf, dep]
    idx = [int(np.sum(M.depth <= t)) for t in top]
    par = M.par[:, idx]
    return dep, par


def run_case(c, R):
    if c.get('homog'):
        return homog(c, R)
    M = Model(c['m'])
    freq = FREQ[c['dom']]
    za = M.zpos[c['ia']]
    zb = M.zpos[c['ib']]+(21. if c['ia'] == c['ib'] else 0.)
    a, b = [12., -31., za], [322., 64., zb]
    tab = M.scale_table(a, b, freq, FILT)
    lo = (M.depth[0] if len(M.depth) else 0)
    hi = (M.depth[-1] if len(M.depth) else 0)
    cand = {za, zb, (za+zb)/2, lo-200., hi+1., hi+300., zb+0.01, lo+7.}
    cand = sorted(x for x in cand if x not in M.depth)
    base = {}
    for ab in ABS:
        base[ab] = empymod.dipole(a, b, freqtime=freq, ab=ab, verb=0, **M.kw,
                                  **DLF)
    frontier, seen = [()], {()}
    for depth in range(c['d']):
        new = []
        for s in frontier:
            for x in cand:
                t = tuple(sorted(set(s) | {x}))
                R.tr()
                if t in seen:
                    continue
                seen.add(t)
                new.append(t)
                dep, par = split(M, t)
                res, an, eH, eV, mH, mV = par
                for ab in ABS:
                    v = empymod.dipole(a, b, dep, res, freq, None, ab, an, eH,
                                       eV, mH, mV, verb=0, **DLF)
                    cmp(R, f'split ab{ab}', f'{c} split {t} ab={ab}', v,
                        base[ab], tab[ab][1])
                    R.ev()
                    R.state((c['m'], za, zb, c['dom'], t, ab),
                            np.any(base[ab] != 0))
                    R.outcome(complex(v[0]))
        frontier = new


def homog(c, R):
    """Stack of identical layers equals the full-space, for all modes."""
    n = len(c['m'])
    M1 = Model(c['m'][:1])
    M = Model(c['m'])
    freq = FREQ[c['dom']]
    zz = M.zpos
    for za, zb in itertools.product(zz, zz):
        zb += 11.
        a, b = [12., -31., za], [322., 64., zb]
        tab = M1.scale_table(a, b, freq, FILT)
        res, an, eH, eV, mH, mV = MAT[c['m'][0]]
        for ab in ABS:
            fs = empymod.analytical(a, b, res, freq, 'fs', None, ab, an, eH,
                                    eV, mH, mV, verb=0)
            for xd in (True, False):
                v = empymod.dipole(a, b, freqtime=freq, ab=ab, verb=0,
                                   xdirect=xd, **M.kw, **DLF)
                # within accuracy of the filter, for the wavenumber form
                cmp(R, f'homog ab{ab}', f'{c} {za} {zb} {ab} {xd}', v, fs,
                    tab[ab][1], rtol=1e-9 if xd else 1e-6,
                    stol=2e-8 if xd else 1e-6, name=f'homog{xd}')
                R.ev()
                R.tr()
                R.state((c, za, zb, ab, xd), n > 1 and np.any(fs != 0))
