"""Setups shared by the checks of the modelling routines."""
import numpy as np
import ref

# res, aniso, epermH, epermV, mpermH, mpermV
MAT = [
    (0.3, 1.0, 1.0, 1.0, 1.0, 1.0),        # 0 sea water
    (20., 1.8, 9.0, 5.0, 1.3, 2.1),        # 1 everything anisotropic
    (1e6, 1.0, 1.0, 1.0, 1.0, 1.0),        # 2 air
    (1.5, 0.6, 4.0, 8.0, 3.0, 1.0),        # 3 magnetic, lambda < 1
    (500., 1.0, 80., 80., 1.0, 0.9),       # 4
    (2., 1.3, 0., 0., 1.0, 1.0),           # 5 diffusive
]
ABS = [i*10+j for i in range(1, 7) for j in range(1, 7)]
DLF = dict(ht='dlf', htarg={'dlf': 'key_201_2009'})
FREQ = {'f': [0.7, 350.], 's': [-0.7, -350.]}


class Model:
    def __init__(self, m, f=1.0, inter=None):
        self.m = list(m)
        n = len(m)
        if inter is None:
            inter = np.array([0, 150, 420, 800])[:n-1]*f
        self.depth = np.asarray(inter, float)
        self.par = np.array([MAT[i] for i in m], float).T
        self.zpos = [35*f] if n == 1 else [-60*f]
        for i in range(n-1):
            self.zpos.append(float(self.depth[i]))
            nxt = self.depth[i+1] if i+1 < n-1 else self.depth[i]+220*f
            self.zpos.append(float(self.depth[i]+0.37*(nxt-self.depth[i])))

    @property
    def kw(self):
        res, an, eH, eV, mH, mV = self.par
        return dict(depth=self.depth.copy(), res=res.copy(), aniso=an.copy(),
                    epermH=eH.copy(), epermV=eV.copy(), mpermH=mH.copy(),
                    mpermV=mV.copy())

    def ref(self, src, rec, freq, ab, filt):
        return ref.dipole_par(src, rec, self.depth, ab, filt,
                              *ref.params(freq, *self.par))

    def scale_table(self, src, rec, freq, filt, abs_=ABS):
        """Reference value and scale for many ab at one position pair."""
        dx, dy = rec[0]-src[0], rec[1]-src[1]
        r, th = max(np.hypot(dx, dy), 1e-3), np.arctan2(dy, dx)
        kap = filt[0]/r
        pars = ref.params(freq, *self.par)
        K = ref.kernels(kap, float(src[2]), float(rec[2]), self.depth, *pars)
        out = {}
        n = np.size(freq)
        for ab in abs_:
            co = ref.dipole_coefs(ab, kap, src[2], rec[2], self.depth, *pars,
                                  K=K)
            if co[0]:
                out[ab] = ref.hankel(co, kap, *filt, r, th)
            else:
                out[ab] = np.zeros(n), np.zeros(n)
        return out


_SC = {}


def bscale(M, a, b, freq, ts, tr, filt):
    """Scale of a rotated point source/receiver: largest component scale."""
    k = (tuple(M.m), tuple(M.depth), tuple(a[:3]), tuple(b[:3]), str(freq),
         str(ts), str(tr))
    if k not in _SC:
        abs_ = [x for x in ABS if (x % 10 > 3) == bool(ts)
                and (x//10 > 3) == (bool(tr) and tr != 'j')]
        tab = M.scale_table(a, b, freq, filt, abs_)
        s = np.max([tab[x][1] for x in abs_], axis=0)
        w = 2*np.pi*np.abs(freq)*4e-7*np.pi*3
        for t in (ts, tr):
            if t == 'b':
                s = s*w
            elif t == 'j':
                s = s/0.3
        _SC[k] = s
    return _SC[k]


def cmp(R, key, msg, got, want, scale=0., rtol=1e-9, stol=2e-8, name='err'):
    """Compare; returns True if equal within tolerance."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        R.fail(key, f'{msg}: shape {got.shape} instead of {want.shape}')
        return False
    err = np.abs(got-want)
    tol = stol*np.asarray(scale)+rtol*np.abs(want)+1e-250
    bad = ~(err <= tol)
    if got.size:
        with np.errstate(all='ignore'):
            R.note(name+'_over_tol', np.nanmax(err/tol) if not
                   np.all(np.isnan(err)) else np.inf)
    if bad.any():
        R.fail(key, f'{msg}: got {got.ravel()[:6]} expected '
               f'{want.ravel()[:6]} tol {tol.ravel()[:6]} ({bad.sum()} of '
               f'{bad.size} differ)')
        return False
    return True
