"""C07  A self-energy returns its data in the core, its high-frequency expansion outside, with G(-v)=conj G(v)"""
import numpy as np
from vpbt.core import law, case, st, seeds, data, floats
from vpbt.laws import models as mo
from dga import two_point as twop

nk_st = st.tuples(st.integers(1, 3), st.integers(1, 3), st.sampled_from([1, 1, 2, 3])).map(list)
beta_st = floats(0.5, 60)


@law('C07', case(nk=nk_st, niv=st.integers(5, 60), beta=beta_st, core=st.one_of(st.just('estimate'), st.integers(1, 60)), seed=seeds,
                 ask=st.integers(1, 120), pos=st.booleans(), moms=st.booleans(), oned=st.booleans(), kdep=st.booleans()), 400, 8000,
     'non-trivial: the requested range extends beyond the core')
def core_data_and_asymptotic_tail(c, t):
    beta, niv = float(c['beta']), c['niv']
    nk = (1, 1, 1) if c['oned'] else tuple(c['nk'])
    v = mo.vlist(beta, niv)
    full, _ = mo.pole_sigma(c['seed'], v, nk, kdep=0.5 if c['kdep'] else 0.0)
    core = c['core'] if c['core'] == 'estimate' else min(c['core'], niv)
    kw = dict(smom0=0.37, smom1=-0.81) if c['moms'] else {}
    arg = full[..., niv:] if c['pos'] else full
    if c['oned']:
        arg = arg[0, 0, 0]
    s = twop.SelfEnergy(arg, beta, pos=c['pos'], niv_core=core, **kw)
    t.check(s.niv == niv and tuple(s.nk) == nk and s.beta == beta, 'sizes')
    nc = s.niv_core
    t.check(1 <= nc <= niv, f'core of {nc} frequencies out of {niv}')
    if core != 'estimate':
        t.check(nc == core, 'core size not the requested one')
    if c['moms']:
        t.check(s.smom0 == 0.37 and s.smom1 == -0.81, 'supplied moments not used')
    t.close(s.sigma_core, full[..., niv - nc:niv + nc], 'core', rtol=1e-13)
    t.close(s.k_mean(), full[..., niv:].mean(axis=(0, 1, 2)), 'k_mean', rtol=1e-12)

    def ref(n):
        vv = mo.vlist(beta, n)
        out = np.ones(nk)[..., None] * (s.smom0 - s.smom1 / (1j * vv))
        m = min(n, nc)
        out[..., n - m:n + m] = full[..., niv - m:niv + m]
        return out

    ask = c['ask']
    t.nontrivial(ask > nc)
    got = s.get_siw(ask)
    t.close(got, ref(ask), f'get_siw({ask}) with core {nc}', rtol=1e-12)
    t.close(got[..., ::-1].conj(), got, 'Sigma(-v) != conj Sigma(v)', rtol=1e-13)
    t.close(s.get_siw(), ref(niv), 'get_siw()', rtol=1e-12)
    sh = np.roll(got, (nk[0] // 2, nk[1] // 2), axis=(0, 1))
    t.equal(s.get_siw(ask, pi_shift=True), sh, 'pi_shift')
    # asymptotic part on its own
    na = max(1, ask)
    vv = np.pi / beta * (2 * np.arange(nc, nc + na) + 1)
    tail = np.ones(nk)[..., None] * (s.smom0 - s.smom1 / (1j * vv))
    t.close(s.get_asympt(na), tail, 'get_asympt', rtol=1e-12)
    t.close(s.get_asympt(na, pos=False), np.concatenate((tail[..., ::-1].conj(), tail), axis=-1), 'get_asympt full', rtol=1e-12)
    v0 = np.pi / beta * (2 * np.arange(0, na) + 1)
    t.close(s.get_asympt(na, n_min=0), np.ones(nk)[..., None] * (s.smom0 - s.smom1 / (1j * v0)), 'get_asympt n_min=0', rtol=1e-12)


@law('C07', case(nk=nk_st, niv=st.integers(5, 80), beta=beta_st, a=floats(-3, 3), b=floats(-4, 0), seed=seeds), 200, 4000,
     'non-trivial: non-zero 1/v coefficient')
def moments_of_an_exact_tail(c, t):
    """Sigma = a + b/(iv): the fit returns (a, -b-like) moments that reproduce Sigma at every frequency"""
    beta, niv = float(c['beta']), c['niv']
    v = mo.vlist(beta, niv)
    nk = tuple(c['nk'])
    sig = np.ones(nk)[..., None] * (c['a'] - c['b'] / (1j * v))
    t.nontrivial(c['b'] != 0)
    s = twop.SelfEnergy(sig, beta)
    t.close(s.smom0, c['a'], 'constant moment', rtol=1e-11, atol=1e-11)
    t.close(s.smom1, c['b'], '1/v moment', rtol=1e-10, atol=1e-10)
    want = np.ones(nk)[..., None] * (c['a'] - c['b'] / (1j * mo.vlist(beta, 2 * niv)))
    t.close(s.get_siw(2 * niv), want, 'extrapolation of an exact tail', rtol=1e-10, atol=1e-10)
    t.check(s.niv_core == min(s.niv_core_min, niv), f'exact tail: core {s.niv_core}')


@law('C07', case(niv=st.integers(200, 700), seed=seeds, beta=floats(1, 20), npoles=st.integers(1, 4)), 120, 1500,
     'non-trivial: always')
def moments_of_pole_models(c, t):
    """for Sigma = s0 + sum_p V_p^2/(iv-e_p) sampled far into its tail, moments are s0 and -sum V^2 up to 1/v^2 corrections"""
    beta, niv = float(c['beta']), c['niv']
    v = mo.vlist(beta, niv)
    sig, s0 = mo.pole_sigma(c['seed'], v, npoles=c['npoles'], emax=2.0)
    s = twop.SelfEnergy(sig, beta)
    tot = (-(sig[0, 0, 0, -1].imag) * v[-1])  # = sum V^2 + O(1/v^2)
    vmin = v[niv + int(0.8 * niv) - 1]
    corr = 4.0 / vmin ** 2
    t.close(s.smom0, s0, 'constant moment', rtol=0, atol=2.5 * tot * corr + 1e-9)
    t.close(s.smom1, -tot, '1/v moment', rtol=0, atol=2.5 * tot * corr + 1e-9)
    nc = s.niv_core
    t.check(min(20, niv) <= nc <= niv, f'core {nc}')
    # just behind the core the expansion reproduces the data within the requested accuracy
    asy = s.get_asympt(niv, n_min=0)[0, 0, 0]
    if nc > s.niv_core_min and nc < niv:
        d = np.abs(asy - sig[0, 0, 0, niv:])
        t.check(d[nc] < 1.5 * s.err, f'first asymptotic frequency {nc} deviates by {d[nc]} > err {s.err}')
    t.label('core>min', nc > s.niv_core_min)


@law('C07', case(niv=st.integers(5, 60), beta=beta_st, amp=floats(0.01, 2), seed=seeds), 100, 1000, 'non-trivial: always')
def data_that_never_reaches_the_tail_is_kept(c, t):
    beta, niv = float(c['beta']), c['niv']
    r = np.where(np.arange(niv) % 2 == 0, 1.0, -1.0) * c['amp']
    pos = (r + 1j * r * 0.5)[None, None, None, :]
    s = twop.SelfEnergy(pos, beta, pos=True)
    asy = s.get_asympt(niv, n_min=0)[0, 0, 0]
    never = np.all(np.abs((asy - pos[0, 0, 0]).real) >= s.err)
    t.nontrivial(never)
    if never:
        t.equal(s.get_siw(niv)[0, 0, 0, niv:], pos[0, 0, 0], 'data replaced although the tail is not reached')


@law('C07', case(nk=nk_st, ncore=st.integers(3, 20), nshell=st.integers(0, 20), extra=st.integers(0, 30), beta=beta_st, seed=seeds,
                 dcore=st.integers(1, 60)), 200, 4000, 'non-trivial: shell >= 1 and k-dependent core')
def nonlocal_core_with_local_tail(c, t):
    beta, nk = float(c['beta']), tuple(c['nk'])
    ncore, nshell = c['ncore'], c['nshell']
    nd = ncore + nshell + c['extra'] + 5
    dm, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, nd))
    dmft = twop.SelfEnergy(dm, beta, niv_core=min(c['dcore'], nd))
    core = data(c['seed'], nk + (2 * ncore,))
    core = core + np.conj(core[..., ::-1])
    s = twop.create_dga_siwk_with_dmft_as_asympt(core, dmft, nshell)
    nf = ncore + nshell
    want = np.ones(nk)[..., None] * dmft.get_siw(nf)[0, 0, 0]
    want[..., nshell:nshell + 2 * ncore] = core
    t.nontrivial(nshell > 0 and np.prod(nk) > 1)
    t.check(s.niv_core == nf and s.niv == nf, f'ranges {s.niv_core} {s.niv} != {nf}')
    t.close(s.get_siw(nf), want, 'core + DMFT shell', rtol=1e-13)
    t.check(s.smom0 == dmft.smom0 and s.smom1 == dmft.smom1 and s.beta == beta, 'moments of the DMFT self-energy')
    big = nf + 7
    vv = mo.vlist(beta, big)
    w2 = np.ones(nk)[..., None] * (dmft.smom0 - dmft.smom1 / (1j * vv))
    w2[..., 7:7 + 2 * nf] = want
    t.close(s.get_siw(big), w2, 'beyond the shell', rtol=1e-13)


@law('C07', case(u=floats(0, 10), n=floats(0, 2), beta=beta_st, delta=floats(0, 1), nk=nk_st, nv=st.integers(5, 30)), 100, 1000,
     'non-trivial: u and n non-zero')
def hartree_and_moment_formulas(c, t):
    u, n = c['u'], c['n']
    t.nontrivial(u * n != 0)
    t.close(twop.get_smom0(u, n), u * n / 2, 'Hartree term', rtol=1e-14, atol=1e-14)
    t.close(twop.get_smom1(u, n), -u ** 2 * (n / 2) * (1 - n / 2), 'first moment', rtol=1e-13, atol=1e-14)
    t.close(twop.get_sum_chiupup(n), n / 2 * (1 - n / 2), 'sum of chi_upup', rtol=1e-13, atol=1e-14)
    s = twop.sigma_const(float(c['beta']), c['delta'], tuple(c['nk']), np.arange(2 * c['nv']))
    t.close(s.sigma, np.full(tuple(c['nk']) + (c['nv'],), -1j * c['delta']), 'constant self-energy', atol=1e-15)
    t.raises(ValueError, lambda: twop.SelfEnergy(np.zeros((2, 20), complex), 1.0), '2-D self-energy accepted')
    # Hubbard atom: tail of the exact self-energy
    b = float(c['beta'])
    v = mo.vlist(b, 400)
    if 0.2 < u and b * u < 200:
        mu = u / 2 + (n - 1) * u / 4
        sig, nn, _, _ = mo.hubbard_atom_sigma(u, mu, b, v)
        if 0.01 < nn < 1.99:
            vm = v[-80]
            if vm > 8 * u:
                s = twop.SelfEnergy(sig, b)
                tol = 3 * (u / vm) ** 2
                t.close(s.smom0, twop.get_smom0(u, nn), 'Hartree from the tail of the atom', rtol=0, atol=u * tol + 1e-9)
                t.close(s.smom1, twop.get_smom1(u, nn), 'first moment from the tail of the atom', rtol=0, atol=u * u * tol + 1e-9)
                t.label('atom')
