"""independent description of the point-group operations on grid indices"""
import itertools
import numpy as np

INV = {'x-inv': 0, 'y-inv': 1, 'z-inv': 2}
NAMED = {'square': ['x-inv', 'y-inv', 'x-y-sym'], 'nematic': ['x-inv', 'y-inv'],
         'quasi2d': ['x-inv', 'y-inv', 'z-inv', 'x-y-sym'], 'quasi1d': ['x-inv', 'y-inv'], 'xyinv': ['x-y-inv'], 'none': []}


def act(sym, k, nk):
    k = list(k)
    if sym in INV:
        a = INV[sym]
        k[a] = (-k[a]) % nk[a]
    elif sym == 'x-y-sym':
        if nk[0] == nk[1]:
            k[0], k[1] = k[1], k[0]
    elif sym == 'x-y-inv':
        k[0], k[1] = (-k[0]) % nk[0], (-k[1]) % nk[1]
    return tuple(k)


def orbits(nk, syms):
    """array [kx,ky,kz] of orbit ids"""
    ids = -np.ones(nk, dtype=int)
    n = 0
    for k in itertools.product(*map(range, nk)):
        if ids[k] >= 0:
            continue
        stack, ids[k] = [k], n
        while stack:
            p = stack.pop()
            for s in syms:
                q = act(s, p, nk)
                if ids[q] < 0:
                    ids[q] = n
                    stack.append(q)
        n += 1
    return ids


def orbit_average(f, ids):
    out = np.zeros_like(f)
    for o in range(ids.max() + 1):
        sel = ids == o
        out[sel] = f[sel].mean(axis=0)
    return out
