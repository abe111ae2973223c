"""C23: in-phase and quadrature.

Every model of an alphabet x heights of source and receiver x orientation of
the coils x domain against the ratio of an independent secondary and primary
field; all sizes of sources, receivers and frequencies; every scale, input
form and Hankel setting.
"""
import copy
import itertools
import warnings
import numpy as np
import empymod
import ref
import hx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of layer stacks x source/receiver '
             'heights x coil orientations x domains x sizes x scales x input '
             'forms on the real code; independent transmission-line solution '
             'of secondary and primary field as oracle')
NOTE = ('All 1- to 3-layer stacks over 4 (6) materials incl. air, all height '
        'pairs in all layers and on interfaces, 9 orientations, frequency '
        'and Laplace domain; all sizes to 3.')
WARM = 'cf'
RULE = ('one state per (model, heights, orientation, domain); non-trivial if '
        'the secondary field is not zero')
BOUNDS = {'quick': '1-2 layers over 4 materials, 7 3-layer models',
          'thorough': '1-3 layers over 6 materials, 4 over 3'}
ASSUMPTIONS = ['depths are given in increasing order (the first value of the '
               'parameters, which defines the primary field, is the top '
               'layer)']
FILT = ref.load_filter('key_201_2009')
AB = [44, 45, 46, 54, 55, 56, 64, 65, 66]
PRIM = {4: 44, 5: 55, 6: 66}


def models(tier):
    q = tier == 'quick'
    out = []
    for n in ((1, 2) if q else (1, 2, 3)):
        out += list(itertools.product(range(4 if q else 6), repeat=n))
    if q:
        out += [(2, 0, 1), (2, 1, 3), (1, 3, 0), (2, 2, 0), (0, 2, 0),
                (3, 3, 3), (2, 3, 3)]
    else:
        out += list(itertools.product(range(3), repeat=4))
    return out


def cases(tier):
    out = [{'k': 'ratio', 'm': m} for m in models(tier)]
    out += [{'k': 'sizes', 'ab': ab} for ab in AB]
    out += [{'k': 'forms', 'ab': ab} for ab in AB]
    out += [{'k': 'bad'}]
    return out


def run_case(c, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['_'+c['k']](c, R)


def want(M, a, b, freq, ab, scale=1e3):
    """IP and Q of one pair, and their tolerance scale."""
    ls, lr = ref.layer_of(a[2], M.depth), ref.layer_of(b[2], M.depth)
    full = len(set(M.m)) == 1
    tot, s = M.scale_table(a, b, freq, FILT, [ab])[ab]
    if full:
        sec = np.zeros_like(tot)
        s = s*0
    elif ls == lr:
        h, hs = hx.Model((M.m[ls],)).scale_table(a, b, freq, FILT, [ab])[ab]
        sec, s = tot-h, s+hs
    else:
        sec = tot
    # Primary field: first layer; exact closed form
    p = fullspace(hx.MAT[M.m[0]], a, b, freq, PRIM[ab % 10])
    return scale*sec/p, scale*s/np.abs(p)


def fullspace(mat, a, b, freq, ab):
    """Magnetic dipole in a VTI full-space; from the electric case by duality.

    Closed form if isotropic, else by the transmission-line solution.
    """
    res, an, eH, eV, mH, mV = mat
    eh, ev, zh, zv = ref.params(freq, [res], [an], [eH], [eV], [mH], [mV])
    if an == 1 and eH == eV and mH == mV:
        k = np.sqrt(eh[0]*zh[0]+0j)
        d = np.array(b)-np.array(a)
        d[:2] = d[:2] if np.hypot(*d[:2]) > 1e-3 else [1e-3, 0]
        R = np.sqrt(d @ d)
        i = ab % 10 - 4
        u2 = (d[i]/R)**2
        e = np.exp(-k*R)/(4*np.pi*R)
        # H = (grad div - k^2) e^{-kR}/(4 pi R)/zeta for a magnetic current
        g = e*((3*u2-1)*(1/R**2+k/R)+(u2-1)*k**2)
        return g/zh[0]
    return ref.dipole_par(a, b, np.zeros(0), ab, FILT, eh, ev, zh, zv)[0]


def _ratio(c, R):
    M = hx.Model(c['m'])
    for dom, ia in itertools.product('fs', range(len(M.zpos))):
        freq = hx.FREQ[dom]
        za = M.zpos[ia]
        for zb0, r in itertools.product(M.zpos, (7.3, 130.)):
            for dz in (0., 3.):
                if zb0 != za and dz:
                    continue
                zb = zb0-dz
                a = [12., -31., za]
                b = [12.+r*np.cos(.4), -31.+r*np.sin(.4), zb]
                for ab in AB:
                    got = empymod.model.ip_and_q(
                        src=a, rec=b, freqtime=freq, ab=ab, verb=0, **M.kw)
                    w, s = want(M, a, b, freq, ab)
                    R.ev()
                    R.trace()
                    R.tr(2)
                    tag = f'{c["m"]} {dom} {a} {b} ab={ab}'
                    R.state(tag, bool(np.any(w != 0)))
                    R.outcome(('zero' if not np.any(w) else 'value'))
                    if not isinstance(got, tuple) or len(got) != 2:
                        R.fail('form', f'{tag}: {type(got)}')
                        continue
                    for n, g, x in zip(('IP', 'Q'), got, (w.real, w.imag)):
                        if np.iscomplexobj(g):
                            R.fail(f'complex {n}', tag)
                        hx.cmp(R, f'{n} ab{ab}', f'{tag} {n}', g, x, s,
                               rtol=1e-7, stol=1e-7)


def _sizes(c, R):
    """Together as one by one, shapes, scale."""
    ab = c['ab']
    M = hx.Model((2, 1, 3))
    for ns, nr, nf, sq, sc in itertools.product(
            (1, 2, 3), (1, 2, 3), (1, 2), (None, True, False),
            (None, 1., 1e6, -2)):
        if sc not in (None, 1e6) and (ns, nr) != (2, 3):
            continue
        S = [np.array([0., 3., -7.])[:ns], np.array([0., 1., 2.])[:ns], -9.]
        Q = [np.array([50., 63., 20.])[:nr], np.array([0., 81., -2.])[:nr],
             -12.]
        F = np.array([30., 4e3])[:nf]
        kw = dict(M.kw, verb=0, ab=ab)
        if sq is not None:
            kw['squeeze'] = sq
        if sc is not None:
            kw['scale'] = sc
        got = empymod.model.ip_and_q(src=S, rec=Q, freqtime=F, **kw)
        kw.pop('squeeze', None)
        one = np.zeros((nf, nr, ns), complex)
        for i, j, k in itertools.product(range(nf), range(nr), range(ns)):
            ip, q = empymod.model.ip_and_q(
                src=[S[0][k], S[1][k], S[2]], rec=[Q[0][j], Q[1][j], Q[2]],
                freqtime=F[i], **{x: v for x, v in kw.items()
                                  if x != 'scale'})
            one[i, j, k] = ip+1j*q
        one *= (1e3 if sc is None else sc)/1e3
        if sq is not False:
            one = one.squeeze()
        for n, g, w in zip(('IP', 'Q'), got, (one.real, one.imag)):
            hx.cmp(R, f'{n} sizes', f'{ab} {ns} {nr} {nf} {sq} {sc}', g, w,
                   np.max(np.abs(one)), rtol=1e-11, stol=1e-11)
        R.ev()
        R.trace()
        R.tr(1+ns*nr*nf)
        R.state((ab, ns, nr, nf, sq, sc))
        R.outcome(('shape', np.ndim(got[0])))


def _forms(c, R):
    """Parameters left away, as lists, as strings; Hankel settings."""
    ab = c['ab']
    M = hx.Model((2, 0, 4))
    src, rec = [0, 0, -1.], [8.3, 2., -1.]
    base = dict(M.kw)
    full = dict(src=src, rec=rec, freqtime=[300., 5e3], verb=0, **base)
    opt = ['aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']
    for n in range(3):
        for drop in itertools.combinations(opt, n):
            kw = {k: v for k, v in full.items() if k not in drop}
            # what is left away defaults to one, or the horizontal value
            fil = copy.deepcopy(full)
            for k in drop:
                fil[k] = np.ones(3)
            if 'epermV' in drop:
                fil['epermV'] = fil['epermH']
            if 'mpermV' in drop:
                fil['mpermV'] = fil['mpermH']
            w = empymod.model.ip_and_q(ab=ab, **fil)
            for form in ('array', 'list', 'tuple', 'none', 'str'):
                a = ab
                use = dict(kw)
                if form in ('list', 'tuple'):
                    f = list if form == 'list' else tuple
                    use = {k: f(v.tolist()) if isinstance(v, np.ndarray)
                           else v for k, v in use.items()}
                elif form == 'none':
                    use.update({k: None for k in drop})
                elif form == 'str':
                    a = str(ab)
                before = copy.deepcopy(use)
                try:
                    g = empymod.model.ip_and_q(ab=a, **use)
                except Exception as e:
                    R.fail(f'form {form}', f'{ab} {drop} {form}: '
                           f'{type(e).__name__} {e}')
                    continue
                for i in (0, 1):
                    hx.cmp(R, f'form {form}', f'{ab} {drop} {form}', g[i],
                           w[i], 0, rtol=1e-12)
                for k in use:
                    if not np.array_equal(np.asarray(use[k], object),
                                          np.asarray(before[k], object)):
                        R.fail('changed', f'{ab} {drop} {form}: {k}')
                R.ev()
                R.trace()
                R.tr(2)
                R.state((ab, drop, form))
    # Methods; xdirect is documented to be ignored
    w = empymod.model.ip_and_q(ab=ab, **full)
    mag = np.hypot(*w)
    for ht, tol in [(dict(ht='dlf', htarg={'dlf': 'wer_201_2018'}), 1e-5),
                    (dict(ht='dlf', htarg={'dlf': 'key_201_2009',
                                           'pts_per_dec': -1}), 1e-2),
                    (dict(ht='dlf', htarg={'pts_per_dec': 80}), 1e-4),
                    (dict(loop='freq'), 1e-12), (dict(loop='off'), 1e-12),
                    (dict(ht='qwe', htarg={'rtol': 1e-10}), 1e-5)]:
        for xd in (0, True, False, None):
            kw = dict(full, **ht)
            if xd != 0:
                kw['xdirect'] = xd
            g = empymod.model.ip_and_q(ab=ab, **kw)
            for i in (0, 1):
                hx.cmp(R, f'method {ht}', f'{ab} {ht} {xd}', g[i], w[i],
                       mag, rtol=0, stol=tol, name='method')
            R.ev()
            R.trace()
            R.tr()
            R.state((ab, str(ht), xd))


def _bad(c, R):
    base = dict(src=[0, 0, -1], rec=[8, 0, -1], depth=[0.], res=[1e8, 1.],
                freqtime=1e3, verb=0)
    calls = [dict(ab=ab) for ab in hx.ABS if ab not in AB] + [dict()]
    calls += [dict(ab=ab, signal=s) for ab in AB for s in (0, 1, -1)]
    calls += [dict(ab=x) for x in (0, 47, 67, 77, 404)]
    calls += [dict(ab=66, unknown=1), dict(ab=66, res=[1., 2., 3.]),
              dict(ab=66, freqtime='a')]
    for kw in calls:
        R.ev()
        R.tr()
        R.state(str(kw))
        try:
            out = empymod.model.ip_and_q(**{**base, **kw})
        except (ValueError, TypeError):
            R.outcome('raised')
            continue
        except Exception as e:
            R.fail('error type', f'{kw}: {type(e).__name__} {e}')
            continue
        R.fail('accepted', f'{kw}: {out}')
