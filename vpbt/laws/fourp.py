"""generated local four-point data, dense reference solution of the Bethe-Salpeter equation"""
import numpy as np
from vpbt.core import rng, cplx
from dga import local_four_point as lfp


def sign(ch):
    return 1.0 if ch == 'dens' else -1.0


def gchi0(seed, nw, niv, beta, salt=0):
    """beta G G like: magnitude decaying with v, never zero"""
    r = rng(seed, 3, salt)
    v = np.abs(2 * np.arange(-niv, niv) + 1) * np.pi / beta
    amp = beta / (0.3 + v ** 2)
    ph = np.exp(1j * r.uniform(-0.7, 0.7, (nw, 2 * niv)))
    return amp * ph * r.uniform(0.5, 1.5, (nw, 2 * niv))


def gamma(seed, x0, beta, u, ch, strength, salt=0, sym=False):
    """vertex (including 1/beta^2) around the bare one, such that the BSE is well conditioned"""
    r = rng(seed, 5, salt)
    nw, nv = x0.shape
    g = cplx(r, (nw, nv, nv)) * strength / nv
    if sym:
        g = 0.5 * (g + g.transpose(0, 2, 1))
    sc = 1 / np.sqrt(np.abs(x0))
    return g * sc[:, :, None] * sc[:, None, :] + sign(ch) * u / beta ** 2


def wlabels(c):
    return (np.arange(-c['niw'], c['niw'] + 1), True) if c['full'] else (np.array(c['wl']), False)


def four(ch, mat, beta, u, wn, full):
    if full:
        return lfp.LocalFourPoint(ch, mat, beta, u, is_full_w=True)
    return lfp.LocalFourPoint(ch, mat, beta, u, wn=wn)


def three(ch, mat, beta, u, wn, full):
    if full:
        return lfp.LocalThreePoint(ch, mat, beta, u, is_full_w=True)
    return lfp.LocalThreePoint(ch, mat, beta, u, wn=wn)


def dense_chi(x0, gam):
    return np.array([np.linalg.inv(np.diag(1 / a) + g) for a, g in zip(x0, gam)])


def dense_f(x0, gam):
    """F = Gamma - Gamma chi0 F, solved directly"""
    n = x0.shape[-1]
    return np.array([np.linalg.solve(np.eye(n) + g * a[None, :], g) for a, g in zip(x0, gam)])


def pad(gam, val, nshell):
    nw, n = gam.shape[:2]
    out = np.full((nw, n + 2 * nshell, n + 2 * nshell), val, dtype=complex)
    out[:, nshell:nshell + n, nshell:nshell + n] = gam
    return out


def cond(mats):
    return max(np.linalg.cond(m) for m in mats)
