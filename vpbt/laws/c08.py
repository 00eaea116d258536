"""C08  Green's functions obey Dyson's equation at every frequency, and filling and chemical potential belong together"""
import numpy as np
from vpbt.core import law, case, st, seeds, data, floats
from vpbt.laws import models as mo
from dga import two_point as twop
from dga import brillouin_zone as bz

nk_st = st.tuples(st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 1, 2, 3])).map(list)
beta_st = floats(1, 40)


def ref_sigma(s, sig, niv, beta, nfull, nk):
    """core data inside s.niv_core, expansion outside"""
    vv = mo.vlist(beta, nfull)
    out = np.ones(nk)[..., None] * (s.smom0 - s.smom1 / (1j * vv))
    m = min(nfull, s.niv_core)
    out[..., nfull - m:nfull + m] = (np.ones(nk)[..., None] * sig)[..., niv - m:niv + m]
    return out


@law('C08', case(nk=nk_st, niv=st.integers(5, 40), beta=beta_st, core=st.one_of(st.just('estimate'), st.integers(1, 40)), seed=seeds,
                 na=st.integers(0, 60), na2=st.integers(1, 40), loc=st.booleans(), mu=floats(-3, 3)), 300, 6000,
     'non-trivial: k-dependent band and an asymptotic range')
def dyson_equation_everywhere(c, t):
    beta, niv, nk = float(c['beta']), c['niv'], tuple(c['nk'])
    hr, g, ek = mo.lattice(c['seed'], nk)
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, niv), (1, 1, 1) if c['loc'] else nk, kdep=0.0 if c['loc'] else 0.6)
    core = c['core'] if c['core'] == 'estimate' else min(c['core'], niv)
    s = twop.SelfEnergy(sig, beta, niv_core=core)
    gf = twop.GreensFunction(s, ek, mu=c['mu'], niv_asympt=c['na'])
    nc = s.niv_core
    t.nontrivial(c['na'] > 0 and np.ptp(ek) > 0)

    def verify(na):
        nf = nc + na
        vv = mo.vlist(beta, nf)
        sg = ref_sigma(s, sig, niv, beta, nf, nk)
        want = 1.0 / (1j * vv + c['mu'] - ek[..., None] - sg)
        full = gf.g_full()
        t.close(full, want, f'G != 1/(iv+mu-ek-Sigma) (core {nc}, asympt {na})', rtol=1e-11)
        t.close(full, full[..., ::-1].conj(), 'G(-v) != conj G(v)', rtol=1e-12)
        t.check(gf.niv_full == nf and gf.niv_core == nc and gf.niv_asympt == na, 'frequency ranges')
        t.close(gf.v, vv, 'frequency list', rtol=1e-12)
        t.equal(gf.vn, np.arange(-nf, nf), 'frequency indices')
        t.close(gf.v_core, mo.vlist(beta, nc), 'core frequency list', rtol=1e-12)
        t.close(gf.core, want[..., na:na + 2 * nc], 'core', rtol=1e-11)
        gl = want.mean(axis=(0, 1, 2))
        t.close(gf.g_loc, gl, 'local Green\'s function', rtol=1e-11)
        t.close(gf.k_mean('full'), gl, 'k_mean(full)', rtol=1e-11)
        t.close(gf.k_mean('core'), gl[na:na + 2 * nc], 'k_mean(core)', rtol=1e-11)
        t.close(gf.fs(), -want[..., nf].imag / np.pi, 'Fermi surface = -Im G(first v>0)/pi', rtol=1e-11)
        roll = lambda x: np.roll(x, (nk[0] // 2, nk[1] // 2), axis=(0, 1))  # noqa
        t.close(gf.g_full(pi_shift=True), roll(want), 'pi_shift', rtol=1e-11)
        t.close(gf.fs(pi_shift=True), roll(-want[..., nf].imag / np.pi), 'pi-shifted Fermi surface', rtol=1e-11)
        if c['loc']:
            sg_full = gf.get_sigma_full(na)
            t.close(np.broadcast_to(sg_full, nk + (2 * nf,)), sg, 'get_sigma_full', rtol=1e-11)
        else:
            t.close(gf.get_sigma_full(na), sg, 'get_sigma_full', rtol=1e-11)

    verify(c['na'])
    gf.set_g_asympt(c['na2'])
    verify(c['na2'])
    t.check(gf.mu == c['mu'] and gf.beta == beta, 'mu/beta')
    iv = 1j * mo.vlist(beta, niv)
    w = 1.0 / (iv + 0.3 - ek[..., None] - sig)
    t.close(twop.build_g(iv, ek, 0.3, sig), w, 'build_g', rtol=1e-12)
    t.close(twop.get_gloc(iv, ek, sig, 0.3), w.mean(axis=(0, 1, 2)), 'get_gloc', rtol=1e-12)
    t.close(twop.get_g_model(0.3, iv, ek.mean(), 0.7), 1 / (iv + 0.3 - ek.mean() - 0.7), 'get_g_model', rtol=1e-12)


def own_fill(gloc, v, beta, e0):
    """n = 2 T sum_v [G - 1/(iv - e0)] + 2 f(e0)"""
    return 2 * (np.sum((gloc - 1 / (1j * v - e0)).real) / beta + mo.fermi(e0, beta))


@law('C08', case(nk=nk_st, niv=st.integers(20, 60), beta=beta_st, seed=seeds, n=floats(0.05, 1.95), u=floats(0, 4), shell=st.integers(0, 30),
                 cls=st.booleans(), sep=st.booleans()), 250, 4000, 'non-trivial: interacting and away from half filling')
def filling_and_chemical_potential(c, t):
    """n -> mu -> n and mu -> n -> mu, where n is the frequency sum with the model tail"""
    beta, niv, nk = float(c['beta']), c['niv'], tuple(c['nk'])
    hr, g, ek = mo.lattice(c['seed'], nk)
    n = c['n']
    v = mo.vlist(beta, niv)
    sig, _ = mo.pole_sigma(c['seed'], v, smom0=twop.get_smom0(c['u'], n), strength=0.2 * c['u'] ** 2 + 0.01)
    t.nontrivial(c['u'] > 0 and abs(n - 1) > 0.05)
    s = twop.SelfEnergy(sig, beta)
    gf = twop.GreensFunction(s, ek, n=n, niv_asympt=5, niv_shell_mu_find=c['shell'])
    nm = s.niv_core + c['shell']
    vv = mo.vlist(beta, nm)
    sg = ref_sigma(s, sig, niv, beta, nm, (1, 1, 1))

    def fill(mu):
        gl = (1 / (1j * vv + mu - ek[..., None] - sg)).mean(axis=(0, 1, 2))
        return own_fill(gl, vv, beta, ek.mean() + s.smom0 - mu)

    got = fill(gf.mu)
    t.close(got, n, f'filling at mu={gf.mu} is not the requested one', rtol=0, atol=2e-5 * (1 + beta / 4))
    t.check(np.isreal(gf.mu), 'mu not real')
    # fixed mu: n is the filling of that mu
    mu2 = gf.mu + 0.1
    g2 = twop.GreensFunction(s, ek, mu=mu2, niv_asympt=5, niv_shell_mu_find=c['shell'])
    t.close(g2.n, fill(mu2), 'filling at fixed mu', rtol=1e-9, atol=1e-10)
    t.check(g2.mu == mu2, 'mu changed')
    ne, rho = twop.get_fill(iv=1j * vv, hk=ek, siwk=sg, beta=beta, smom0=s.smom0, hloc=ek.mean(), mu=mu2)
    t.close([ne, rho], [fill(mu2), fill(mu2) / 2], 'get_fill', rtol=1e-9, atol=1e-10)
    mu3 = twop.update_mu(mu0=gf.mu - 0.2, target_filling=n, iv=1j * vv, hk=ek, siwk=sg, beta=beta, smom0=s.smom0)
    t.close(fill(mu3), n, 'update_mu from another start', rtol=0, atol=2e-5 * (1 + beta / 4))


@law('C08', case(nk=nk_st, beta=floats(1, 15), seed=seeds, mu=floats(-2, 2)), 80, 1000, 'non-trivial: more than one k-point')
def free_electrons_fill_the_fermi_function(c, t):
    beta, nk = float(c['beta']), tuple(c['nk'])
    hr, g, ek = mo.lattice(c['seed'], nk, t=0.5)
    niv = int(60 * beta) + 60
    s = twop.SelfEnergy(np.zeros((1, 1, 1, 2 * niv), complex), beta, niv_core=niv)
    gf = twop.GreensFunction(s, ek, mu=c['mu'], niv_asympt=10)
    want = 2 * mo.fermi(ek - c['mu'], beta).mean()
    t.nontrivial(np.prod(nk) > 1)
    # tail of the sum: T sum_{|v|>V} Var(ek) (ek-mu..)/v^4-like and Var(ek)/(iv)^3 (odd, cancels)
    emax = np.max(np.abs(ek - c['mu']))
    tol = 2 * 2 * emax ** 3 / (60 * 2 * np.pi) ** 3 + 1e-7
    t.close(gf.n, want, 'filling of free electrons', rtol=0, atol=tol)
    # kinetic energy per spin: sum_k ek f(ek-mu) up to the 1/v^2 tail (mean(ek)=0 is not required: the symmetric sum adds 1/2)
    ek_exact = (ek * (mo.fermi(ek - c['mu'], beta) - 0.5)).mean()
    nf = niv + 10
    t.close(gf.e_kin, ek_exact, 'kinetic energy of free electrons', rtol=0, atol=4 * emax ** 2 / np.pi / (2 * np.pi * nf / beta) + 1e-8)
    t.close(gf.e_pot, 0.0, 'potential energy of free electrons', atol=1e-10)


@law('C08', case(u=floats(0.3, 6), x=floats(-0.3, 0.3), beta=floats(1, 12)), 80, 1000, 'non-trivial: away from half filling')
def hubbard_atom(c, t):
    """flat band: filling and potential energy U<n_up n_dn> of the atom"""
    beta, u = float(c['beta']), c['u']
    mu = u / 2 + c['x'] * u
    niv = int(80 * beta * max(1, u)) // 4 + 200
    v = mo.vlist(beta, niv)
    sig, n, d, gat = mo.hubbard_atom_sigma(u, mu, beta, v)
    t.nontrivial(abs(c['x']) > 1e-3)
    s = twop.SelfEnergy(sig, beta, smom0=u * n / 2, smom1=-u * u * n / 2 * (1 - n / 2), niv_core=niv)
    ek = np.zeros((2, 2, 1))
    gf = twop.GreensFunction(s, ek, mu=mu, niv_asympt=200)
    vm = v[-1]
    t.close(gf.n, n, 'filling of the Hubbard atom', rtol=0, atol=2 * u ** 3 / vm ** 3 * beta + 4 * u * u / vm ** 2 + 1e-7)
    t.close(gf.k_mean('core'), gat, 'atomic Green\'s function', rtol=1e-9)
    vmx = np.pi / beta * 2 * (niv + 200)
    t.close(gf.e_pot, u * d, 'potential energy U<n_up n_dn>', rtol=0, atol=2 * u * u / 4 / np.pi / vmx + 1e-7)
    t.close(gf.e_kin, 0.0, 'kinetic energy of a flat band', atol=1e-12)
    g2 = twop.GreensFunction(s, ek, n=n, niv_asympt=10)
    t.close(g2.n, n, 'n', rtol=1e-12)
    nn = twop.get_fill(iv=1j * v, hk=ek, siwk=sig[None, None, None, :], beta=beta, smom0=s.smom0, hloc=0.0 * ek.mean(), mu=g2.mu)[0]
    t.close(nn, n, 'mu for the atomic filling', rtol=0, atol=1e-4)


@law('C08', case(nk=nk_st, niv=st.integers(20, 40), beta=beta_st, seed=seeds, mu=floats(-2, 2), na=st.integers(1, 60)), 150, 2000,
     'non-trivial: more than one k-point')
def energies_are_frequency_sums(c, t):
    beta, niv, nk = float(c['beta']), c['niv'], tuple(c['nk'])
    hr, g, ek = mo.lattice(c['seed'], nk)
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, niv), nk, kdep=0.5)
    s = twop.SelfEnergy(sig, beta)
    gf = twop.GreensFunction(s, ek, mu=c['mu'], niv_asympt=c['na'])
    nf = s.niv_core + c['na']
    vv = mo.vlist(beta, nf)
    sg = ref_sigma(s, sig, niv, beta, nf, nk)
    G = 1 / (1j * vv + c['mu'] - ek[..., None] - sg)
    t.nontrivial(np.prod(nk) > 1)
    t.close(gf.e_kin, (np.sum(ek[..., None] * G) / np.prod(nk) / beta).real, 'e_kin', rtol=1e-9, atol=1e-10)
    want = (np.sum((sg - s.smom0) * G) / np.prod(nk) / beta).real + s.smom0 * gf.n / 2
    t.close(gf.e_pot, want, 'e_pot', rtol=1e-9, atol=1e-10)


@law('C08', case(nk=nk_st, niv=st.integers(100, 200), beta=floats(1, 5), seed=seeds, n=floats(0.6, 1.4)), 60, 600,
     'non-trivial: n != 1')
def primitive_filling(c, t):
    """filling by plain frequency summation and the chemical potential found from it"""
    beta, niv, nk = float(c['beta']), c['niv'], tuple(c['nk'])
    hr, g, ek = mo.lattice(c['seed'], nk, t=0.5)
    v = mo.vlist(beta, niv)
    sig, _ = mo.pole_sigma(c['seed'], v, smom0=0.2, strength=0.3)
    fill = lambda mu: 2 * (np.sum((1 / (1j * v + mu - ek[..., None] - sig)).mean(axis=(0, 1, 2))).real / beta + 0.5)  # noqa
    t.nontrivial(abs(c['n'] - 1) > 0.01)
    gl = twop.get_gloc(1j * v, ek, sig, 0.1)
    t.close(np.real(twop.get_fill_primitive(gl, beta)), fill(0.1), 'get_fill_primitive', rtol=1e-10)
    mu = twop.update_mu_primitive(mu0=0.3, target_filling=c['n'], iv=1j * v, hk=ek, siwk=sig, beta=beta)
    if mu == 0.3:
        t.label('not converged')
        return
    t.close(fill(mu), c['n'], 'update_mu_primitive', rtol=0, atol=1e-4)
