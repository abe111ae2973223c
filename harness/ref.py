"""Independent reference for the layered-earth electromagnetic response.

Component-wise Maxwell equations in the horizontal wavenumber domain, solved as
a two-mode (TM, TE) transmission line with impedance recursion; the transform
to the space domain is an explicit expansion in angular harmonics.  It shares
no formula and no code with the implementation (which uses the
reflection-coefficient recursion and the closed angular factors of Hunziker et
al. 2015), except for the digital filter weights, which are an input.

Conventions: z positive downwards, right-handed;
   curl H = eta E + J,     curl E = -zeta H - K.
"""
import numpy as np

MU0 = 4e-7*np.pi
EPS0 = 8.854187817e-12


def _line(mode, kap, eh, ev, zh, zv):
    """Propagation constant and characteristic impedance; [freq, kappa]."""
    k2 = kap[None, :]**2
    eh, ev, zh, zv = (x[:, None] for x in (eh, ev, zh, zv))
    if mode == 'TM':
        g = np.sqrt(eh*(k2/ev + zh) + 0j)
        return g, g/eh
    g = np.sqrt(zh*(eh + k2/zv) + 0j)
    return g, zh/g


def _half(lines, thick):
    """Input impedance of a stack; list of per-sublayer (g, Z, R, d)."""
    out = [None]*len(lines)
    zl = None
    for j in range(len(lines)-1, -1, -1):
        g, z0 = lines[j]
        d = thick[j]
        if zl is None:                       # half-space
            r, zin = np.zeros_like(g), z0
        else:
            r = (zl-z0)/(zl+z0)
            e = r*np.exp(-2*g*d)
            zin = z0*(1+e)/(1-e)
        out[j] = (g, z0, r, d)
        zl = zin
    return zl, out


def _walk(stack, v0, dist):
    """Voltage and outward current at `dist` from the beginning of stack."""
    v = v0
    for j, (g, z0, r, d) in enumerate(stack):
        last = j == len(stack)-1
        if last:
            den = 1.0
        else:
            den = 1+r*np.exp(-2*g*d)
        a = v/den
        if last or dist < d:
            f = a*np.exp(-g*dist)
            b = 0 if last else a*r*np.exp(-g*(2*d-dist))
            mag = np.abs(f)+np.abs(b)
            return f+b, (f-b)/z0, mag, mag/np.abs(z0)
        # go to the end of this layer
        v = a*np.exp(-g*d)*(1+r)
        dist -= d
    raise AssertionError


def layer_of(z, depth):
    """On an interface: upper layer."""
    return int(np.sum(np.asarray(depth) < z))


def kernels(kap, zs, zr, depth, eh, ev, zh, zv):
    """Green's functions per mode: dict of V, I for unit v- and i-jumps.

    depth: interfaces; eh, ...: arrays [nlayer, nfreq].
    """
    depth = np.asarray(depth, float)
    ls, lr = layer_of(zs, depth), layer_of(zr, depth)
    out = {}
    for mode in ('TM', 'TE'):
        ln = [_line(mode, kap, eh[i], ev[i], zh[i], zv[i])
              for i in range(len(eh))]
        top = np.r_[-np.inf, depth]
        bot = np.r_[depth, np.inf]
        # downwards: rest of source layer, then below
        dn_l = ln[ls:]
        dn_t = [bot[ls]-zs] + [bot[i]-top[i] for i in range(ls+1, len(eh))]
        up_l = ln[ls::-1]
        up_t = [zs-top[ls]] + [bot[i]-top[i] for i in range(ls-1, -1, -1)]
        zdn, sdn = _half(dn_l, dn_t)
        zup, sup = _half(up_l, up_t)
        y = 1/zdn+1/zup
        for jump in 'vi':
            if jump == 'v':
                vp, vm = (1/zup)/y, -(1/zdn)/y
            else:
                vp = vm = 1/y
            if zr > zs:
                V, cur, mv, mc = _walk(sdn, vp, zr-zs)
            elif zr < zs:
                V, cur, mv, mc = _walk(sup, vm, zs-zr)
                cur = -cur
            else:
                va, ca, mv, mc = _walk(sdn, vp, 0.0)
                vb, cb, mv2, mc2 = _walk(sup, vm, 0.0)
                V, cur = (va+vb)/2, (ca-cb)/2
                mv, mc = mv+mv2, mc+mc2
            out[mode, jump, 'V'] = V, mv
            out[mode, jump, 'I'] = cur, mc
    return out, ls, lr


# angular harmonics: cos(phi), sin(phi) as dict n -> coefficient
_COS = {1: .5, -1: .5}
_SIN = {1: -.5j, -1: .5j}
_ONE = {0: 1.}


def _mul(a, b):
    out = {}
    for i, x in a.items():
        for j, y in b.items():
            out[i+j] = out.get(i+j, 0)+x*y
    return out


def _neg(a):
    return {k: -v for k, v in a.items()}


# Cartesian component -> (u, v, z) weights
_UVZ = {1: {'u': _COS, 'v': _neg(_SIN)}, 2: {'u': _SIN, 'v': _COS},
        3: {'z': _ONE}}


def hankel(coefs, kap, base, j0, j1, r, theta):
    """Sum over harmonics; returns value and absolute scale, [freq]."""
    w = {0: j0, 1: j1, 2: 2*j1/base-j0}
    val, sc = 0, 0
    coef, mag = coefs
    for n, c in coef.items():
        a = abs(n)
        t = c*kap*w[a]/r*(2*np.pi*(1j)**a*np.exp(1j*n*theta))/(4*np.pi**2)
        val = val+t.sum(axis=-1)
        # scale for rounding: 2 j1/base and j0 individually
        ww = w[a] if a < 2 else np.abs(2*j1/base)+np.abs(j0)
        sc = sc+(mag[n]*np.abs(kap*ww/r/(2*np.pi))).sum(axis=-1)
    return val, sc


def params(freq, res, aniso, eH, eV, mH, mV):
    """eta/zeta [nlayer, nfreq]; freq>0: frequency, <=0: Laplace."""
    freq = np.atleast_1d(np.asarray(freq, float))
    s = 2j*np.pi*freq if np.any(freq > 0) else -freq
    res, aniso = np.asarray(res, float), np.asarray(aniso, float)
    cond = 1/res
    condv = 1/(res*aniso**2)
    eh = cond[:, None] + s[None, :]*np.asarray(eH)[:, None]*EPS0
    ev = condv[:, None] + s[None, :]*np.asarray(eV)[:, None]*EPS0
    zh = s[None, :]*np.asarray(mH)[:, None]*MU0
    zv = s[None, :]*np.asarray(mV)[:, None]*MU0
    return eh, ev, zh, zv


def dipole_coefs(ab, kap, zs, zr, depth, eh, ev, zh, zv, K=None):
    """Harmonic coefficients of one source/receiver component pair."""
    if K is None:
        K = kernels(kap, zs, zr, depth, eh, ev, zh, zv)
    K, ls, lr = K
    rec, src = divmod(ab, 10)
    ik = 1j*kap[None, :]
    smag, rmag = src > 3, rec > 3
    s, q = (src-1) % 3+1, (rec-1) % 3+1
    coef, mag = {}, {}

    def add(harm, fact, arr):
        for n, x in harm.items():
            coef[n] = coef.get(n, 0) + x*fact*arr[0]
            mag[n] = mag.get(n, 0) + abs(x)*np.abs(fact)*arr[1]

    for sc, sh in _UVZ[s].items():
        # jumps in (mode, v/i) caused by this source component
        if not smag:
            jumps = {'u': ('TM', 'i', -1.), 'v': ('TE', 'i', -1.),
                     'z': ('TM', 'v', -ik/ev[ls][:, None])}[sc]
        else:
            jumps = {'u': ('TE', 'v', 1.), 'v': ('TM', 'v', -1.),
                     'z': ('TE', 'i', ik/zv[ls][:, None])}[sc]
        mode, jmp, amp = jumps
        for rc, rh in _UVZ[q].items():
            if not rmag:
                m, x, f = {'u': ('TM', 'V', 1.), 'v': ('TE', 'V', 1.),
                           'z': ('TM', 'I', ik/ev[lr][:, None])}[rc]
            else:
                m, x, f = {'u': ('TE', 'I', -1.), 'v': ('TM', 'I', 1.),
                           'z': ('TE', 'V', -ik/zv[lr][:, None])}[rc]
            if m != mode:
                continue
            add(_mul(sh, rh), amp*f, K[mode, jmp, x])
    return coef, mag


def norm_depth(depth, *pars):
    """Depth as given by the user -> increasing interfaces; reordered pars."""
    depth = np.atleast_1d(np.asarray(depth, float)) if np.size(depth) else \
        np.zeros(0)
    depth = depth[np.isfinite(depth)]
    if depth.size > 1 and depth[0] > depth[-1]:
        depth = depth[::-1]
        pars = [np.asarray(p)[::-1] for p in pars]
    return depth, pars


def dipole(src, rec, depth, freq, ab, filt, res, aniso=None, eH=None, eV=None,
           mH=None, mV=None):
    """Response of one source-receiver pair; returns (value, scale) [freq]."""
    one = np.ones(np.size(res))
    aniso = one if aniso is None else aniso
    eH = one if eH is None else eH
    eV = eH if eV is None else eV
    mH = one if mH is None else mH
    mV = mH if mV is None else mV
    eh, ev, zh, zv = params(freq, np.atleast_1d(res), np.atleast_1d(aniso),
                            np.atleast_1d(eH), np.atleast_1d(eV),
                            np.atleast_1d(mH), np.atleast_1d(mV))
    return dipole_par(src, rec, depth, ab, filt, eh, ev, zh, zv)


def dipole_par(src, rec, depth, ab, filt, eh, ev, zh, zv):
    dx, dy = rec[0]-src[0], rec[1]-src[1]
    r = max(np.hypot(dx, dy), 1e-3)
    th = np.arctan2(dy, dx)
    base, j0, j1 = filt
    kap = base/r
    coef = dipole_coefs(ab, kap, float(src[2]), float(rec[2]), depth,
                        eh, ev, zh, zv)
    if not coef[0]:
        n = eh.shape[1]
        return np.zeros(n), np.zeros(n)
    return hankel(coef, kap, base, j0, j1, r, th)


def load_filter(name='key_201_2009'):
    import empymod
    f = getattr(empymod.filters.Hankel(), name)
    return f.base, f.j0, f.j1
