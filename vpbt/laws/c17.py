"""C17: the linearised Eliashberg equation"""
import numpy as np
from hypothesis import strategies as st
from vpbt.core import law, case, floats, seeds, rng, cplx
from vpbt.laws.runcfg import dga_config, FakeComm, no_plots
from vpbt.laws.models import lattice, pole_sigma, vlist
from dga import eliashberg_equation as eq
from dga import two_point as twop
from dga import brillouin_zone as bz

nk_st = st.sampled_from([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (2, 2, 2), (1, 3, 2), (4, 4, 1)])


def minus_q(a):
    """f(q) -> f(-q) on the grid"""
    return np.roll(np.flip(a, axis=(0, 1, 2)), 1, axis=(0, 1, 2))


def hermitian_vertex(r, nk, nv, decay=True):
    """inversion symmetric and hermitian, like the vertex of a time-reversal invariant system"""
    g = cplx(r, tuple(nk) + (nv, nv))
    g = g + minus_q(g)
    return 0.5 * (g + np.conj(g.swapaxes(-1, -2)))


def dense(gamma, gk, norm):
    nk, nv = gk.shape[:3], gk.shape[-1]
    ks = list(np.ndindex(*nk))
    m = np.empty((len(ks), nv, len(ks), nv), complex)
    for a, k in enumerate(ks):
        for b, kp in enumerate(ks):
            q = tuple((k[i] - kp[i]) % nk[i] for i in range(3))
            m[a, :, b, :] = gamma[q] * np.abs(gk[kp])[None, :] ** 2 / norm
    n = len(ks) * nv
    return m.reshape(n, n)


def spectrum(gamma, gk, norm):
    """eigenvalues of the similar hermitian matrix, ascending"""
    nk, nv = gk.shape[:3], gk.shape[-1]
    m = dense(gamma, gk, norm)
    g = np.abs(gk).reshape(-1)
    h = g[:, None] * m / g[None, :]
    return np.linalg.eigvalsh(0.5 * (h + np.conj(h.T))), m


def separated(vals, ratio=0.985):
    """power iteration distinguishes the eigenvalue of largest modulus from the rest"""
    a = np.sort(np.abs(vals))[::-1]
    return len(a) < 2 or a[1] < ratio * a[0]


def plan(ev, shift, n_eig=2):
    """(lam_s, order in which the eigenvalues are found, whether all steps are well separated)"""
    if len(ev) < n_eig + 1:
        return None
    s, ok = 0.0, True
    if shift:
        ok = separated(ev)
        lead = ev[np.argmax(np.abs(ev))]
        s = lead if lead < 0 else 0.0
    rest = list(ev)
    order = []
    for _ in range(n_eig):
        sh = np.array(rest) - s
        ok = ok and separated(sh)
        i = int(np.argmax(np.abs(sh)))
        order.append(rest.pop(i))
    return s, order, ok


def verify(t, c, p, gamma, gk, norm, n_eig, tol):
    ev, m = spectrum(gamma, gk, norm)
    pl = plan(ev, c['shift'], max(2, n_eig))
    if pl is None:
        t.nontrivial(False)
        return
    s, order, ok = pl
    if not ok:
        t.nontrivial(False)
        return
    t.nontrivial(n_eig >= 2 and s < 0)
    t.label('three eigenvalues', n_eig == 3)
    t.label('shifted', s < 0)
    sc = np.max(np.abs(ev))
    t.check(len(p.lam) == n_eig and len(p.gap) == n_eig, 'number of eigenvalues')
    if c['shift']:
        t.check(abs(p.lam_s - s) < tol * sc, f'shift {p.lam_s}, most negative dominant eigenvalue {s}')
        t.check(abs(p.lam[0] - ev[-1]) < tol * sc, f'leading eigenvalue {p.lam[0]}, largest eigenvalue {ev[-1]}')
    for i in range(n_eig):
        t.check(abs(p.lam[i] - order[i]) < tol * sc, f'eigenvalue {i}: {p.lam[i]} expected {order[i]}')
        v = np.asarray(p.gap[i])
        t.check(v.shape == gk.shape, 'shape of the gap function')
        v = v.reshape(-1)
        nv = np.linalg.norm(v)
        t.check(nv > 0, 'vanishing gap function')
        t.close(m @ v / nv, order[i] * v / nv, f'gap function {i} is no eigenfunction', rtol=0, atol=np.sqrt(tol) * 30 * sc)


@law('C17', case(nk=nk_st, niv=st.integers(1, 2), seed=seeds, norm=floats(0.5, 50), shift=st.booleans(), n_eig=st.sampled_from([1, 2, 2, 3]),
                 attract=floats(-2, 2), dec=floats(0, 2)), 250, 4000,
     'non-trivial: repulsive dominant eigenvalue (shift needed) and two eigenvalues requested, all separated')
def eigenvalues_and_gap_functions(c, t):
    r = rng(c['seed'])
    nk, nv = tuple(c['nk']), 2 * c['niv']
    gamma = hermitian_vertex(r, nk, nv)
    x = cplx(r, (nv,))
    gamma += c['attract'] * np.outer(x, x.conj())  # same at every q: couples to the local gap only
    gk = cplx(r, nk + (nv,)) + 0.2
    gk = gk / (1 + c['dec'] * np.abs(np.arange(nv) - nv / 2 + 0.5))
    gap0 = r.random(nk + (nv,))
    p = eq.EliashberPowerIteration(gamma=gamma, gk=gk, gap0=gap0, norm=c['norm'], eps=1e-13 / c['norm'], max_count=6000, shift_mat=c['shift'],
                                   n_eig=c['n_eig'])
    verify(t, c, p, gamma, gk, c['norm'], c['n_eig'], 1e-6)


@law('C17', case(nk=st.sampled_from([(2, 2, 1), (4, 4, 1), (3, 3, 1), (4, 2, 1), (1, 1, 1)]), npp=st.integers(1, 2), pad=st.integers(0, 4),
                 beta=floats(1, 10), seed=seeds, ch=st.sampled_from(['sing', 'trip']), sym=st.booleans(), other=st.booleans(), n_eig=st.sampled_from([1, 2, 2, 3]),
                 sg=st.sampled_from([-1, 1])), 40, 400, 'non-trivial: dominant repulsion and two eigenvalues, Green function larger than the box')
def eliashberg_step_of_a_run(c, t):
    """eigenvalues from the stored pairing vertex and the Green's function of the run: kernel -F sym(v') |G|^2 / (N_q beta)"""
    c = dict(c, shift=True)
    path = t.tmp()
    beta = float(c['beta'])
    nk, npp = tuple(c['nk']), c['npp']
    sym = 'two_dimensional_square' if nk[0] == nk[1] else 'none'
    cfg = dga_config(path, beta=beta, comm=FakeComm(), nk=nk, niw=2 * npp, niv=2 * npp + (c['seed'] % 2), symmetries=sym, verbosity=c['seed'] % 2,
                     pairing=dict(do_eliash=True, n_eig=c['n_eig'], eps=1e-12, max_count=6000,
                                  sym_sing=c['sym' if c['ch'] == 'sing' else 'other'],
                                  sym_trip=c['sym' if c['ch'] == 'trip' else 'other']))
    hr, _, ek = lattice(c['seed'], nk)
    niv = 3 * npp + c['pad'] + 2
    sig, _ = pole_sigma(c['seed'], vlist(beta, niv), nk=(1, 1, 1))
    g = twop.GreensFunction(twop.SelfEnergy(sig, beta), ek, mu=0.1, niv_asympt=niv + 5)
    nv = 2 * npp
    r = rng(c['seed'])
    f = hermitian_vertex(r, nk, nv)
    x = cplx(r, (nv,))
    f += 2 * c['sg'] * np.outer(x, x.conj())
    f = 0.5 * (f + f[..., ::-1, ::-1])
    cfg.eliash.save_data(f, f'F_{c["ch"]}_pp')
    with no_plots():
        p = eq.linear_eliashberg(cfg, g, c['ch'])
    gamma = -f
    if c['sym']:
        gamma = 0.5 * (gamma + (1 if c['ch'] == 'sing' else -1) * gamma[..., ::-1])
    v = np.pi / beta * (2 * np.arange(-npp, npp) + 1)
    n = sig.shape[-1] // 2
    gk = 1 / (1j * v + 0.1 - ek[..., None] - sig[..., n - npp:n + npp])
    verify(t, c, p, gamma, gk, np.prod(nk) * beta, c['n_eig'], 1e-6)


@law('C17', case(nk=st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 2)), niv=st.integers(1, 5),
                 k=st.sampled_from(['d-wave', 'p-wave-x', 'p-wave-y']), seed=seeds), 80, 800, 'non-trivial: several momenta')
def starting_gap_has_the_requested_symmetry(c, t):
    nk, niv = tuple(c['nk']), c['niv']
    t.nontrivial(np.prod(nk) > 1)
    grid = bz.KGrid(nk, ())
    for vt, s in (('even', 1), ('odd', -1)):
        g = eq.get_gap_start(shape=nk + (2 * niv,), k_type=c['k'], v_type=vt, k_grid=grid.grid)
        t.check(g.shape == nk + (2 * niv,), 'shape')
        kx, ky = 2 * np.pi * np.arange(nk[0]) / nk[0], 2 * np.pi * np.arange(nk[1]) / nk[1]
        form = {'d-wave': np.cos(ky)[None, :] - np.cos(kx)[:, None], 'p-wave-x': np.sin(kx)[:, None] + 0 * ky[None, :],
                'p-wave-y': np.sin(ky)[None, :] + 0 * kx[:, None]}[c['k']]
        t.close(g[..., niv:], np.broadcast_to(form[:, :, None, None], nk + (niv,)), 'form factor', rtol=1e-12, atol=1e-12)
        t.close(g, s * g[..., ::-1], 'frequency symmetry', rtol=1e-12, atol=1e-12)
        # inversion in momentum
        par = 1 if c['k'] == 'd-wave' else -1
        t.close(minus_q(g), par * g, 'parity', rtol=1e-12, atol=1e-12)


@law('C17', case(nk=nk_st, niv=st.integers(1, 4), seed=seeds), 60, 600, 'non-trivial: more than one frequency')
def symmetrised_vertices(c, t):
    """singlet even, triplet odd in v', both parts add up to the vertex, symmetrising twice changes nothing"""
    g = cplx(rng(c['seed']), tuple(c['nk']) + (2 * c['niv'],) * 2)
    t.nontrivial(c['niv'] > 1)
    a, b = eq.symmetrize_gamma(g, 'sing'), eq.symmetrize_gamma(g, 'trip')
    t.close(a, a[..., ::-1], 'singlet even', rtol=1e-14)
    t.close(b, -b[..., ::-1], 'triplet odd', rtol=1e-14)
    t.close(a + b, g, 'sum', rtol=1e-14)
    t.close(eq.symmetrize_gamma(a, 'sing'), a, 'idempotent', rtol=1e-14)
    t.raises(ValueError, lambda: eq.symmetrize_gamma(g, 'other'), 'unknown channel')
