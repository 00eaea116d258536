"""C11  vertex asymptotics: a core box plus the bare-interaction shell equals the large-box Bethe-Salpeter equation"""
import numpy as np
from vpbt.core import law, case, st, seeds, floats, rng, cplx
from vpbt.laws import fourp as f4
from vpbt.laws import models as mo
from dga import local_four_point as lfp
from dga import two_point as twop
from dga import bubble as bub

beta_st = floats(1, 30)
ch_st = st.sampled_from(['dens', 'magn'])
odd_wl = st.sampled_from([[0], [1], [-2], [0, 1, 3], [-1, 2, 5], [4, 0, -4]])
common = dict(ch=ch_st, beta=beta_st, u=st.one_of(floats(0.1, 5), floats(-4, -0.1)), niv=st.integers(1, 5), nsh=st.integers(0, 5), niw=st.integers(0, 3),
              wl=odd_wl, full=st.booleans(), seed=seeds, strength=floats(0.05, 0.9))


def make(c):
    wn, full = f4.wlabels(c)
    beta, u, n, s = float(c['beta']), c['u'], c['niv'], c['nsh']
    ur = f4.sign(c['ch']) * u
    x0 = f4.gchi0(c['seed'], len(wn), n + s, beta)
    x0c = x0[:, s:s + 2 * n]
    gam = f4.gamma(c['seed'], x0c, beta, u, c['ch'], c['strength'])
    gpad = f4.pad(gam, ur / beta ** 2, s)
    return wn, full, beta, u, ur, x0, x0c, gam, gpad


def condition(c, x0, gpad, gam, x0c, ur, beta):
    chi = f4.dense_chi(x0, gpad)
    s, n = c['nsh'], c['niv']
    core = chi[:, s:s + 2 * n, s:s + 2 * n]
    aux = f4.dense_chi(x0c, gam - ur / beta ** 2)
    chip = chi.sum((-1, -2)) / beta ** 2
    den = 1 - ur * chip
    k = max(f4.cond(chi), f4.cond(core), f4.cond(aux), f4.cond([np.diag(a) for a in x0])) ** 2
    bad = k > 1e7 or np.min(np.abs(den)) < 1e-2 or np.max(np.abs(den)) > 1e3
    return chi, core, aux, chip, den, k, bad


@law('C11', case(**common), 200, 4000, 'non-trivial: a shell beyond the core and a vertex that differs from the bare one')
def core_quantities_equal_the_large_box(c, t):
    wn, full, beta, u, ur, x0, x0c, gam, gpad = make(c)
    chi, core, aux, chip, den, k, bad = condition(c, x0, gpad, gam, x0c, ur, beta)
    t.nontrivial(not bad and c['nsh'] > 0)
    if bad:
        return
    n, s = c['niv'], c['nsh']
    rt = 1e-10 + 1e-12 * k / np.min(np.abs(den))
    g = f4.four(c['ch'], gam, beta, u, wn, full)
    x0s, x0cs = x0.sum(-1) / beta ** 2, x0c.sum(-1) / beta ** 2
    a = lfp.gchi_aux_core_from_gammar(g, x0c)
    got = lfp.chi_phys_urange(a.contract_legs(), x0cs, x0s, u, c['ch'])
    t.close(got, chip, 'susceptibility with a bare-interaction shell', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0s))))
    vrg = lfp.vrg_from_gchi_aux(a, x0c)
    want = ((chi.sum(-1) / x0) / den[:, None])
    t.close(vrg.mat, want[:, s:s + 2 * n], 'three-leg vertex in the core', rtol=rt)
    t.close(np.concatenate((want[:, :s], want[:, s + 2 * n:]), axis=1), np.ones((len(wn), 2 * s)), 'oracle: bare three-leg vertex in the shell', rtol=1e-4)
    # the inversion recovers the core vertex from the core of chi
    gx = lfp.gamob2_from_gchir_urange(f4.four(c['ch'], core, beta, u, wn, full), x0)
    t.close(gx.mat, gam, 'vertex from the core of chi', rtol=rt)
    t.equal(gx.wn, wn, 'labels')
    # full vertex including the shell
    f = f4.dense_f(x0, gpad)
    t.close(lfp.fob2_from_gamob2_urange(g, x0).mat, f, 'F in core and shell', rtol=rt)
    auxu = lfp.gchi_aux_core_from_gammar_urange(g, x0)
    t.close(auxu.mat, f4.dense_chi(x0, gpad - ur / beta ** 2), 'chi* in core and shell', rtol=rt)
    fv = lfp.fob2_from_vrg_and_chir(a, vrg, vrg if c['seed'] % 2 else f4.three(c['ch'], (chi.sum(-2) / x0 / den[:, None])[:, s:s + 2 * n], beta, u, wn, full), got, x0c)
    if c['seed'] % 2 == 0:
        t.close(fv.mat, f[:, s:s + 2 * n, s:s + 2 * n], 'F from chi*, three-leg vertex and chi', rtol=rt)


@law('C11', case(**common), 100, 2000, 'non-trivial: a shell beyond the core, well conditioned')
def shell_by_the_lambda_vertex(c, t):
    """the lambda formulation: core of chi plus the shell bubble gives chi and three-leg vertex of the large box"""
    wn, full, beta, u, ur, x0, x0c, gam, gpad = make(c)
    chi, core, aux, chip, den, k, bad = condition(c, x0, gpad, gam, x0c, ur, beta)
    n, s = c['niv'], c['nsh']
    xsh = (x0.sum(-1) - x0c.sum(-1)) / beta ** 2
    small = min(np.min(np.abs(1 - ur * xsh)), np.min(np.abs(1 + ur * xsh)))
    bad = bad or small < 1e-2
    t.nontrivial(not bad and s > 0)
    if bad:
        return
    rt = 1e-10 + 1e-12 * k / np.min(np.abs(den)) / small ** 2
    sg = f4.sign(c['ch'])
    lam = lfp.lam_from_chir(f4.four(c['ch'], core, beta, u, wn, full), x0c)
    t.close(lam.mat, -sg * (1 - core.sum(-1) / x0c), 'lambda of the core', rtol=rt, atol=rt)
    lt = lfp.get_lam_tilde(lam, xsh)
    want = -sg * (1 - (chi.sum(-1) / x0)[:, s:s + 2 * n])
    t.close(lt.mat, want, 'lambda of the large box', rtol=rt, atol=rt)
    x = lfp.get_chir_tilde(lt, core.sum((-1, -2)) / beta ** 2, xsh, x0c, u)
    sc = max(np.max(np.abs(chip)), np.max(np.abs(x0.sum(-1))) / beta ** 2)
    t.close(x, chip, 'susceptibility of the large box', rtol=rt, scale=sc)
    v = lfp.vrg_from_lam(lt, x)
    t.close(v.mat, (chi.sum(-1) / x0 / den[:, None])[:, s:s + 2 * n], 'three-leg vertex of the large box', rtol=rt * 10)
    for o in (lam, lt, v):
        t.equal(o.wn, wn, 'labels')
        t.check(o.channel == c['ch'] and o.beta == beta and o.u == u, 'meta data')


@law('C11', case(**common), 100, 2000, 'non-trivial: shell, symmetric vertex')
def symmetric_ladder_vertex(c, t):
    """F = beta^2/chi0 (1 - chi*/chi0) + u_r (1-u_r chi) vrg vrg for v,vp-symmetric vertices"""
    c = dict(c)
    wn, full, beta, u, ur, x0, x0c, gam, gpad = make(c)
    gam = 0.5 * (gam + gam.transpose(0, 2, 1))
    gpad = f4.pad(gam, ur / beta ** 2, c['nsh'])
    chi, core, aux, chip, den, k, bad = condition(c, x0, gpad, gam, x0c, ur, beta)
    t.nontrivial(not bad and c['nsh'] > 0)
    if bad:
        return
    n, s = c['niv'], c['nsh']
    rt = 1e-10 + 1e-12 * k / np.min(np.abs(den))
    f = f4.dense_f(x0, gpad)[:, s:s + 2 * n, s:s + 2 * n]
    a = f4.four(c['ch'], aux, beta, u, wn, full)
    vrg = lfp.vrg_from_gchi_aux(a, x0c)
    t.close(lfp.fob2_from_vrg_and_chir(a, vrg, vrg, chip, x0c).mat, f, 'F', rtol=rt)
    t.close(lfp.get_f_dc_asympt(vrg, a, chip, x0c, u).mat / beta ** 2, f, 'F for the double counting', rtol=rt)


@law('C11', case(ch=ch_st, beta=floats(1, 15), u=st.one_of(floats(0.1, 3), floats(-2, -0.1)), niv=st.integers(1, 5), nsh=st.integers(0, 6), niw=st.integers(0, 3),
                 seed=seeds, strength=floats(0.05, 0.8), fullw=st.booleans(), wl=odd_wl, nk=st.sampled_from([[2, 2, 1], [3, 2, 1], [4, 4, 1]])), 100, 1500,
     'non-trivial: shell beyond the core, well conditioned')
def routines_with_the_physical_bubble(c, t):
    beta, u, n, s = float(c['beta']), c['u'], c['niv'], c['nsh']
    wn = np.arange(-c['niw'], c['niw'] + 1) if c['fullw'] else np.array(c['wl'])
    hr, g, ek = mo.lattice(c['seed'], tuple(c['nk']))
    ek = ek - ek.mean()
    nv = 6
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, nv))
    gf = twop.GreensFunction(twop.SelfEnergy(sig, beta, niv_core=nv), ek, mu=0.2, niv_asympt=n + s + 12)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, is_full_wn=c['fullw'])
    x0 = gen.get_gchi0(n + s)
    x0c = x0[:, s:s + 2 * n]
    ur = f4.sign(c['ch']) * u
    gam = f4.gamma(c['seed'], x0c, beta, u, c['ch'], c['strength'])
    gpad = f4.pad(gam, ur / beta ** 2, s)
    chi, core, aux, chip, den, k, bad = condition(c, x0, gpad, gam, x0c, ur, beta)
    t.nontrivial(not bad and s > 0)
    if bad:
        return
    rt = 1e-9 + 1e-12 * k / np.min(np.abs(den))
    gm = f4.four(c['ch'], gam, beta, u, wn, c['fullw'])
    vrg, x = lfp.get_vrg_and_chir_tilde_from_gammar_urange(gm, gen, niv_shell=s)
    wv = (aux.sum(-1) / x0c)
    t.close(x, chip, 'susceptibility', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0.sum(-1))) / beta ** 2))
    t.close(vrg.mat, wv, 'three-leg vertex', rtol=rt)
    v2, _ = lfp.get_vrg_and_chir_tilde_from_gammar_urange(gm, gen, niv_shell=s, sum_axis=-2)
    t.close(v2.mat, aux.sum(-2) / x0c, 'three-leg vertex summed over v', rtol=rt)
    # beyond the shell: the bubble's analytic tail is added to chi
    cor = gen.get_exact_asymptotics() - gen.get_asympt_sum(n + s)
    chia = chip + cor
    if np.min(np.abs(1 - ur * chia)) < 1e-2:
        return
    rt = rt / np.min(np.abs(1 - ur * chia))
    vrg, x = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(gm, gen, niv_shell=s)
    t.close(x, chia, 'susceptibility with the analytic tail', rtol=rt, scale=max(np.max(np.abs(chia)), np.max(np.abs(x0.sum(-1))) / beta ** 2))
    t.close(vrg.mat, wv * (den / (1 - ur * chia))[:, None], 'three-leg vertex with the analytic tail', rtol=rt)
    v2, x2 = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(gm, gen, niv_shell=s, sum_axis=-2)
    t.close(x2, x, 'susceptibility does not depend on the leg', rtol=rt)
    t.close(v2.mat, aux.sum(-2) / x0c * (den / (1 - ur * chia))[:, None], 'three-leg vertex with the analytic tail, summed over v', rtol=rt)
    gx = f4.four(c['ch'], f4.dense_chi(x0c, gam), beta, u, wn, c['fullw'])
    v3, x3 = lfp.get_vrg_and_chir_tilde_from_chir_uasympt(gx, gen, u, niv_shell=s)
    t.close(x3, chia, 'susceptibility with the analytic tail, from chi', rtol=rt * 10, scale=max(np.max(np.abs(chia)), np.max(np.abs(x0.sum(-1))) / beta ** 2))
    t.close(v3.mat, vrg.mat, 'three-leg vertex with the analytic tail, from chi', rtol=rt * 10)


@law('C11', case(**dict(common, nbig=st.integers(1, 4))), 80, 1000, 'non-trivial: larger shell')
def enlarging_the_shell_of_a_bare_vertex_changes_nothing_else(c, t):
    """a vertex that is bare everywhere: chi = chi0/(1 + u_r chi0) for every core/shell split"""
    wn, full, beta, u, ur, x0, x0c, gam, gpad = make(c)
    x0s = x0.sum(-1) / beta ** 2
    rpa = x0s / (1 + ur * x0s)
    bad = np.min(np.abs(1 + ur * x0s)) < 1e-2
    t.nontrivial(not bad and c['nsh'] > 0)
    if bad:
        return
    g = f4.four(c['ch'], np.full_like(gam, ur / beta ** 2), beta, u, wn, full)
    a = lfp.gchi_aux_core_from_gammar(g, x0c)
    t.close(a.mat, np.array([np.diag(x) for x in x0c]), 'chi* of a bare vertex is the bubble', rtol=1e-9)
    t.close(lfp.vrg_from_gchi_aux(a, x0c).mat, np.ones(x0c.shape), 'three-leg vertex of a bare vertex', rtol=1e-9)
    t.close(lfp.chi_phys_urange(a.contract_legs(), x0c.sum(-1) / beta ** 2, x0s, u, c['ch']), rpa, 'RPA susceptibility', rtol=1e-9)
    t.close(lfp.chi_phys_asympt(rpa, x0s, x0s + 0.125), rpa + 0.125, 'analytic tail', rtol=1e-12)
