"""C10: source waveforms are convolved with the response of the earth.

Part A enumerates all waveforms over an alphabet of node times and currents
and drives the waveform machinery with polynomial responses, for which the
convolution is known exactly.  Part B explores sequences of transformations
(shift, scale, split, reverse sign, superpose) of waveforms breadth-first and
compares the modelled response in every reached state with an independent fine
quadrature of the modelled step/impulse response.
"""
import itertools
import numpy as np
import empymod
from empymod import utils
from hx import DLF, cmp
from scipy.interpolate import InterpolatedUnivariateSpline as Spline

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of waveforms over an alphabet of nodes, '
             'currents and times on the real code, exact convolution with '
             'polynomials as oracle; breadth-first exploration of waveform '
             'transformation sequences with the real modelling routines '
             'against independent fine quadrature')
NOTE = ('All waveforms with up to 5 nodes from 6 node times, currents from '
        'an alphabet, quadrature orders and time sets (before, within, at, '
        'after nodes); modelled responses of dipole and bipole for all '
        'sequences of up to 2 (3) transformations, 3 signals, several Fourier '
        'methods; currents scaled by 1e-15 to 1e12, times by 1e-9 to 1e8.')
WARM = 'cf'
RULE = ('state = (waveform, signal, times, quadrature order); non-trivial if '
        'the response is not zero')
BOUNDS = {'quick': 'waveforms of up to 4 nodes; transformation depth 2',
          'thorough': 'waveforms of up to 5 nodes; transformation depth 3'}
NODES = [-1.0, -0.6, 0.0, 0.25, 0.8, 1.5]
AMPS = [0., 1., -0.5]
TIMES = {'after': [1.6, 2., 5.], 'mixed': [-0.9, 0.1, 0.25, 2., 0.8],
         'one': [0.4], 'early': [-0.7, -0.99], 'unsorted': [3., 0.3, 1.5, .9]}


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(2, 5 if q else 6):
        for nodes in itertools.combinations(NODES, n):
            out.append({'A': nodes})
    for base in range(len(BASES)):
        for sig in (0, 1, -1):
            out.append({'B': base, 'sig': sig, 'depth': 2 if q else 3})
    for k in range(len(FORMS)):
        out.append({'form': k})
    out += [{'S': s} for s in (1e-15, 1e-12, 1e-9, 1e-4, 1e4, 1e9, 1e12)]
    return out


def exact(nodes, amps, t, k):
    """- int I'(tau) (t-tau)^k dtau for tau < t (package's sign)."""
    out = 0.
    for a, b, x, y in zip(nodes[:-1], nodes[1:], amps[:-1], amps[1:]):
        if a < t and x != y:
            ta, tb = t-a, max(t-b, 0.)
            out -= (y-x)/(b-a)*(ta**(k+1)-tb**(k+1))/(k+1)
    return out


def run_case(c, R):
    if 'A' in c:
        return poly(c, R)
    if 'form' in c:
        return forms(c, R)
    if 'S' in c:
        return scales(c, R)
    return bfs(c, R)


def poly(c, R):
    nodes = c['A']
    old = utils._min_time
    for amps in itertools.product(AMPS, repeat=len(nodes)):
        active = [a for a, x, y in zip(nodes[:-1], amps[:-1], amps[1:])
                  if x != y]
        for (tn, times), nquad in itertools.product(TIMES.items(), (1, 3, 5)):
            t = np.array(times)
            msg = f'nodes {nodes} amplitudes {amps} times {times} nq {nquad}'
            R.tr()
            none = not active or min(active) >= max(times)
            try:
                ct, sig = utils.check_waveform(t, list(nodes), list(amps), 0,
                                               signal=1, nquad=nquad)
            except ValueError as e:
                if not none:
                    R.fail('raise', f'{msg}: ValueError {e}')
                R.outcome('raise')
                continue
            if none:
                if active:
                    R.fail('noraise', f'{msg}: no error although all times '
                           'are before the waveform')
                continue
            if sig['signal'] != 1:
                R.fail('signal', f'{msg}: signal {sig["signal"]}')
            ct = np.asarray(ct)
            if ct.ndim != 1 or np.any(ct < old) or ct.max() > max(
                    t.max()-min(nodes), 0)+1e-12:
                R.fail('times', f'{msg}: computation times {ct}')
            ks = range(2*nquad)
            resp = np.stack([ct**k for k in ks], axis=1)
            got = sig['apply_waveform'](resp)
            want = np.array([[exact(nodes, amps, x, k) for k in ks]
                             for x in times])
            sc = np.array([[sum(abs(exact(nodes[i:i+2], amps[i:i+2], x, k))
                                for i in range(len(nodes)-1))
                            for k in ks] for x in times])
            cmp(R, 'poly', msg, got, want, sc, rtol=1e-12, stol=1e-12,
                name='poly')
            R.ev()
            R.trace()
            R.state((nodes, amps, tn, nquad), np.any(want != 0))
            R.outcome(round(float(got[0, 0]), 12))


def scales(c, R):
    """Currents and time axes of all magnitudes; mixed slopes."""
    s = c['S']
    A = [0., 1., -.5]
    for n in (2, 3, 4):
        for nodes, ts in itertools.product(
                itertools.combinations(NODES, n), (1., 1e-9, 1e-6, 1e3, 1e8)):
            nodes = np.array(nodes)*ts
            for amps in itertools.product(A, repeat=n):
                # all scaled; only one scaled, others not
                for mask in ((1,)*n, (1,)+(0,)*(n-1), (0,)*(n-1)+(1,)):
                    a = np.array([x*(s if m else 1.)
                                  for x, m in zip(amps, mask)])
                    if not np.any(np.diff(a)):
                        continue
                    t = np.array([1.6, .1, 4.])*ts
                    try:
                        ct, sig = utils.check_waveform(
                            t, nodes, a, 0, signal=0, nquad=3)
                    except ValueError as e:
                        i = np.nonzero(np.diff(a))[0][0]
                        if nodes[i] < t.max():
                            R.fail('scale raise', f'{nodes} {a} {e}')
                        continue
                    ks = range(4)
                    got = sig['apply_waveform'](np.stack(
                        [(np.asarray(ct)/ts)**k for k in ks], axis=1))
                    nn, tt = nodes/ts, t/ts
                    one = np.array([[[exact(nn[i:i+2], a[i:i+2], x, k)
                                      for i in range(n-1)] for k in ks]
                                    for x in tt])
                    cmp(R, 'scale', f'nodes {nodes} amplitudes {a}', got,
                        one.sum(axis=2), np.abs(one).sum(axis=2), rtol=0,
                        stol=1e-10, name='scale')
                    R.ev()
                    R.tr()
                    R.trace()
                    R.state((s, ts, str(nodes), str(a)))
                R.outcome((n, s))


# ------------------------------------------------------------------- part B
BASES = [([-1e-2, -9e-3, -1e-3, 0.], [0., 1., 1., 0.]),      # trapezoid
         ([-2e-2, -1e-2], [0., 1.]),                         # ramp on
         ([-3e-3, -2e-3, -1e-3, 2e-3, 6e-3], [0., 2., -1., 3., 0.])]
T = np.array([4e-3, 1e-3, 0.03, 0.2, 0.01])
FT = dict(ft='dlf', ftarg={'dlf': 'key_201_2012', 'pts_per_dec': 50})
MODEL = dict(src=[0., 0., 10.], rec=[300., 60., 25.], depth=[0., 200.],
             res=[1e8, 1.5, 20.], epermH=[0., 0., 0.], ab=11, verb=0,
             xdirect=False, **DLF)


def transforms(nodes, amps):
    """All single transformations; name, new waveform."""
    n, a = [round(x, 9) for x in nodes], list(amps)
    out = [('shift', [round(x-7e-3, 9) for x in n], a),
           ('shift+', [round(x+5e-3, 9) for x in n], a),
           ('scale', n, [-2.5*x for x in a]),
           ('offset', n, [x+3. for x in a])]
    for i in (0, len(n)//2-1, len(n)-2):     # insert a node
        m = round(n[i]+0.3*(n[i+1]-n[i]), 9)
        v = float(np.interp(m, n, a))
        out.append((f'split{i}', n[:i+1]+[m]+n[i+1:], a[:i+1]+[v]+a[i+1:]))
    # constant parts before and after
    out.append(('pad', [n[0]-2e-3]+n+[n[-1]+1e-3], [a[0]]+a+[a[-1]]))
    # superposition with a triangle
    tri = ([-4e-3, -2.5e-3, 1e-3], [0., 1.5, 0.])
    g = sorted(set(n) | set(tri[0]))
    out.append(('add', g, [float(np.interp(x, n, a)+np.interp(x, *tri, 0, 0))
                           for x in g]))
    return out


def fine(nodes, amps, t, S):
    """Graded fine quadrature of - int I' S(t-tau) dtau."""
    gx, gw = np.polynomial.legendre.leggauss(12)
    seg = []
    for k, x in enumerate(t):
        for a, b, p, q in zip(nodes[:-1], nodes[1:], amps[:-1], amps[1:]):
            if p == q or a >= x:
                continue
            lo, hi = max(x-b, 0.), x-a
            # graded towards small arguments
            ed = [hi]
            while len(ed) < 40 and ed[-1] > max(lo, hi*1e-6):
                ed.append(max(lo, ed[-1]*0.5))
            if ed[-1] > lo:
                ed.append(lo)
            ed = np.array(ed[::-1])
            for u, v in zip(ed[:-1], ed[1:]):
                if v > u:
                    seg.append((k, (v-u)/2*gx+(u+v)/2,
                                -(v-u)/2*gw*(q-p)/(b-a)))
    out = np.zeros(len(t))
    sc = np.zeros(len(t))
    if seg:
        tt = np.concatenate([s[1] for s in seg])
        val = S(tt)
        for i, s in enumerate(seg):
            v = val[i*12:(i+1)*12]*s[2]
            out[s[0]] += v.sum()
            sc[s[0]] += np.abs(v).sum()
    return out, sc


def gauss(n, a, t, S, nq):
    """Gauss-Legendre of the given order for each segment."""
    gx, gw = np.polynomial.legendre.leggauss(nq)
    want = np.zeros(len(t))
    for x, y, p, q in zip(n[:-1], n[1:], a[:-1], a[1:]):
        for k in range(len(t)):
            if p == q or x >= t[k]:
                continue
            z = min(y, t[k])
            want[k] -= np.sum(gw*S(t[k]-(x+z)/2-(z-x)/2*gx)) * \
                (q-p)/(y-x)*(z-x)/2
    return want


_CACHE = {}


def resp(sig):
    """Modelled response as function of time (fine spline in log-time)."""
    if sig not in _CACHE:
        tt = np.logspace(-9, 1, 601)
        v = np.asarray(empymod.dipole(freqtime=tt, signal=sig, **MODEL, **FT))
        _CACHE[sig] = Spline(np.log(tt), v, k=5)
    return lambda x: _CACHE[sig](np.log(np.maximum(x, 1e-9)))


def bfs(c, R):
    nodes, amps = BASES[c['B']]
    seen = {}
    front = [(nodes, amps, ())]
    S = resp(c['sig'])
    for depth in range(c['depth']+1):
        nxt = []
        for n, a, path in front:
            key = (tuple(np.round(n, 12)), tuple(np.round(a, 12)))
            if key in seen:
                continue
            seen[key] = path
            R.tr()
            R.state((c['B'], c['sig'], key))
            msg = f'signal {c["sig"]} nodes {n} amplitudes {a} ({path})'
            w = {'nodes': n, 'amplitudes': a, 'signal': c['sig'],
                 'nquad': 12}
            want, sc = fine(n, a, T, S)
            started = np.array([any(x < t and p != q for x, p, q in
                                    zip(n[:-1], a[:-1], a[1:])) for t in T])
            if not started.any():
                continue
            got = empymod.dipole(freqtime=T, signal=w, **MODEL, **FT)
            # (an impulse response is peaked: accuracy of the quadrature)
            tol = 5e-2 if c['sig'] == 0 else 3e-4
            cmp(R, f'bfs sig{c["sig"]}', msg, got, want, sc, rtol=0,
                stol=tol, name=f'bfs{c["sig"]}')
            cmp(R, f'bfs sig{c["sig"]} same order', msg, got,
                gauss(n, a, T, S, 12), sc, rtol=0, stol=1e-5,
                name=f'gauss{c["sig"]}')
            if np.any(np.asarray(got)[~started] != 0):
                R.fail('before', f'{msg}: not zero before the waveform {got}')
            R.ev()
            R.trace()
            R.outcome(float('%.9e' % got[-1]))
            if depth < c['depth']:
                nxt += [(x, y, path+(name,))
                        for name, x, y in transforms(n, a)]
        front = nxt


# ------------------------------------------------------ forms and entry points
W = {'nodes': [-1e-2, -9e-3, -1e-3, 0.], 'amplitudes': [0., 1., 1., 0.],
     'signal': -1}
FORMS = ['array', 'tuple', 'scalar', 'unsorted', 'bipole', 'loops', 'methods',
         'default', 'short', 'nquad', 'mulrec']


def forms(c, R):
    f = FORMS[c['form']]
    S = resp(-1)
    t = np.array([1e-3, 0.01, 0.1])
    ref, sc = fine(W['nodes'], W['amplitudes'], t, S)
    pos = dict(MODEL)

    def go(sigd=W, tt=t, want=ref, tol=2e-4, fn=empymod.dipole, key=f,
           scale=sc, **kw):
        got = fn(freqtime=tt, signal=sigd, **{**pos, **FT, **kw})
        cmp(R, key, f'{f} {kw} {sigd}', got, want, scale, rtol=0, stol=tol,
            name=key)
        R.ev()
        R.tr()
        R.trace()
        R.state((f, str(kw), str(sigd), str(tt)))
        R.outcome(float(np.ravel(got)[0]))
        return got
    if f == 'array':
        go({k: np.array(v) for k, v in W.items() if k != 'signal'} |
           {'signal': -1})
    elif f == 'tuple':
        go({k: tuple(v) for k, v in W.items() if k != 'signal'} |
           {'signal': -1})
        go({'nodes': [-1, 0], 'amplitudes': [2, 0], 'signal': 1},
           t, fine([-1, 0], [2, 0], t, resp(1))[0], scale=3e-8, tol=2e-2,
           key='int')
    elif f == 'scalar':
        for i in range(3):
            go(tt=t[i], want=ref[i], scale=sc[i])
            go(tt=[t[i]], want=ref[i], scale=sc[i])
    elif f == 'unsorted':
        for p in itertools.permutations(range(3)):
            p = list(p)
            go(tt=t[p], want=ref[p], scale=sc[p])
            go(tt=list(t[p])+[t[p[0]]], want=ref[p+[p[0]]],
               scale=sc[p+[p[0]]])
    elif f == 'bipole':
        for a in ('ab',):
            pos.pop(a)
        pos['src'] = [0., 0., 10., 0., 0.]
        pos['rec'] = [300., 60., 25., 0., 0.]
        go(fn=empymod.bipole)
        s2 = dict(W)
        # finite bipole and strength: linear
        pos['src'] = [-1., 1., 0., 0., 10., 10.]
        go(s2, fn=empymod.bipole, tol=1e-3)
        go(s2, fn=empymod.bipole, tol=1e-3, srcpts=5, strength=3.,
           want=ref*6, scale=sc*6)
    elif f == 'loops':
        for lp in (None, 'freq', 'off'):
            go(loop=lp)
    elif f == 'methods':
        go(ftarg={'dlf': 'key_201_2012'}, tol=2e-3)
        go(ftarg={'dlf': 'key_201_2012', 'pts_per_dec': 30}, tol=2e-3)
        go(ftarg={'dlf': 'key_81_2009', 'pts_per_dec': 0}, tol=2e-2)
        go(ft='qwe', ftarg={}, tol=2e-2)
        go(ft='fftlog', ftarg={'pts_per_dec': 40, 'add_dec': [-4, 4],
                               'q': 0.2}, tol=2e-2)
    elif f == 'default':
        # signal defaults to 0 (impulse), nquad to 3
        w = {k: v for k, v in W.items() if k != 'signal'}
        v0 = fine(W['nodes'], W['amplitudes'], t, resp(0))
        go(w, want=v0[0], scale=v0[1], tol=2e-2)
        a = go({**w, 'signal': 0}, want=v0[0], scale=v0[1], tol=2e-2)
        b = go({**w, 'signal': 0, 'nquad': 3}, want=a, scale=np.abs(a),
               tol=1e-12)
        go(w, want=b, scale=np.abs(b), tol=1e-12)
    elif f == 'short':
        # short ramps: minus the step response
        for s, sgn in ((1, -1), (-1, 1)):
            st = resp(s)(t)
            am = [0., 1.] if s == 1 else [1., 0.]
            for d in (1e-6, 1e-8):
                go({'nodes': [-d/2, d/2], 'amplitudes': am, 'signal': s},
                   want=sgn*st, scale=np.abs(st), tol=1e-2*d/1e-6)
        i0 = resp(0)(t)
        go({'nodes': [-1e-6, 0.], 'amplitudes': [1., 0.]}, want=i0,
           scale=np.abs(i0), tol=1e-2)
    elif f == 'nquad':
        for nq in (1, 2, 3, 5, 8, 15):
            want = gauss(W['nodes'], W['amplitudes'], t, S, nq)
            go({**W, 'nquad': nq}, want=want, tol=1e-6)
    elif f == 'mulrec':
        pos['rec'] = [[300., 400., 500.], [60., 0., -50.], 25.]
        pos['src'] = [[0., 10.], [0., 20.], 10.]
        got = empymod.dipole(freqtime=t, signal=W, squeeze=False, **pos, **FT)
        if got.shape != (3, 3, 2):
            R.fail('mulrec shape', f'{got.shape}')
            return
        for i, j in itertools.product(range(3), range(2)):
            pos2 = {**pos, 'rec': [pos['rec'][0][i], pos['rec'][1][i], 25.],
                    'src': [pos['src'][0][j], pos['src'][1][j], 10.]}
            one = empymod.dipole(freqtime=t, signal=W, **pos2, **FT)
            cmp(R, 'mulrec', f'rec {i} src {j}', got[:, i, j], one,
                np.abs(one), rtol=1e-8, stol=1e-8)
            R.ev()
            R.tr()
            R.state(('mulrec', i, j))
