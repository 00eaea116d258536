"""physical model data used by several properties"""
import numpy as np
from vpbt.core import rng
from dga import two_point as twop
from dga import brillouin_zone as bz
from dga import wannier


def vlist(beta, niv):
    """own fermionic grid, full range"""
    return np.pi / beta * (2 * np.arange(-niv, niv) + 1)


def wlist(beta, niw):
    return np.pi / beta * 2 * np.arange(-niw, niw + 1)


def pole_sigma(seed, v, nk=(1, 1, 1), npoles=2, smom0=None, strength=1.0, kdep=0.0, emin=0.0, emax=2.0, sym=False):
    """Sigma_k(iv) = s0 + sum_p V_kp^2/(iv - e_kp): causal, Sigma(-v) = conj Sigma(v)"""
    r = rng(seed, 31)
    s0 = float(r.uniform(-1, 2)) if smom0 is None else smom0
    out = np.zeros(tuple(nk) + (len(v),), complex) + s0
    for _ in range(npoles):
        e = r.choice([-1, 1]) * r.uniform(emin, emax)
        v2 = strength * r.uniform(0.05, 1.0)
        ek = e + kdep * r.uniform(-1, 1, tuple(nk))
        vk = v2 * (1 + kdep * r.uniform(-0.9, 0.9, tuple(nk)))
        if sym:  # invariant under k -> -k and all reflections: use constants
            ek, vk = np.full(tuple(nk), e), np.full(tuple(nk), v2)
        out += vk[..., None] / (1j * v[None, None, None, :] - ek[..., None])
    return out, s0


def hubbard_atom_sigma(u, mu, beta, v):
    """exact self-energy and half filling-like occupation of the Hubbard atom"""
    e = np.array([0.0, -mu, -mu, u - 2 * mu])
    w = np.exp(-beta * (e - e.min()))
    z = w.sum()
    n = (w[1] + w[2] + 2 * w[3]) / z  # both spins
    d = w[3] / z
    g = (1 - n / 2) / (1j * v + mu) + (n / 2) / (1j * v + mu - u)
    return 1j * v + mu - 1 / g, n, d, g


def hoppings(seed, t=1.0):
    """one band: vectors R (one of each pair +-R) and amplitudes h, H(k) = 2 sum_R h cos(k R); without symmetry but k -> -k for most seeds"""
    r = rng(seed, 57)
    tt, tp, tpp = t * r.uniform(0.2, 1.0), t * r.uniform(-0.3, 0.3), t * r.uniform(-0.2, 0.2)
    rv, h = [(1, 0, 0), (0, 1, 0), (1, 1, 0), (1, -1, 0), (2, 0, 0), (0, 2, 0)], [-tt, -tt, -tp, -tp, -tpp, -tpp]
    r = rng(seed, 58)
    if r.uniform() < 0.75:
        extra = [(1, 0, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 1, -1)]
        rv, h = rv + extra, h + list(0.3 * t * r.uniform(-1, 1, len(extra)))
    return np.array(rv), np.array(h)


def lattice(seed, nk, t=1.0):
    rv, h = hoppings(seed, t)
    rg = np.concatenate((rv, -rv))[:, None, None, :]
    hr = wannier.WannierHr(np.tile(h, 2)[:, None, None], rg, np.ones((2 * len(h), 1)), np.ones((2 * len(h), 1, 1, 2)))
    g = bz.KGrid(tuple(nk))
    return hr, g, hr.get_ek(g).real


def velocity(seed, nk, der, t=1.0):
    """own derivative of the dispersion"""
    rv, h = hoppings(seed, t)
    k = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in nk], indexing='ij')
    return sum(-2 * x * v[der] * np.sin(sum(a * b for a, b in zip(v, k))) for v, x in zip(rv, h))


def fermi(x, beta):
    return 0.5 * (1 - np.tanh(0.5 * beta * x))
