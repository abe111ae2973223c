"""Accuracy of the Fourier methods on the closed-form pairs of C09.

Writes the tolerance table of C09 (per method, setting, signal and pair):
several times the error of the method measured on the closed forms.  Entries
worse than 5 % are not usable for that signal and are dropped.
"""
import json
import os
import sys
from multiprocessing import Pool
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')
os.environ.setdefault('NUMBA_CACHE_DIR', '/tmp/w/nbcache')
sys.path[:0] = ['/repo', H, os.path.join(H, 'checks')]
import numpy as np  # noqa
import c09  # noqa


def work(c):
    tab = {}
    for p, sig, tn in [(p, s, t) for p in c['pairs'] for s in c['sigs']
                       for t in c['times']]:
        ind = c09.indices(c['ft'], tn)
        if ind is None:
            continue
        ex = c09.PAIRS[p][1](c09.T, sig)
        o, _ = c09.trans(p, c09.T[ind], sig, c['ft'], c['arg'])
        want = ex[ind]
        if c['ft'] == 'fft' and sig:
            want = want-c09.STATIC[p]/2
        e = np.max(abs(o[:, 0]-want))/np.max(abs(ex))
        k = c09.akey(c['ft'], c['arg'], sig, p)
        tab[k] = max(tab.get(k, 0), float(e)) if e == e else 1e99
    return tab


if __name__ == '__main__':
    tab = {}
    with Pool(8) as pool:
        for t in pool.map(work, c09.settings('thorough'), chunksize=1):
            for k, e in t.items():
                tab[k] = max(tab.get(k, 0), e)
    out = {}
    for k, e in tab.items():
        if e < 0.05:
            floor = 1e-11 if k.startswith('dlf') else 1e-7
            out[k] = float('%.0e' % (4*e+floor))
        else:
            print('dropped', k, '%.2g' % e)
    with open(os.path.join(H, 'c09_accuracy.json'), 'w') as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
    print(len(tab), len(out))
