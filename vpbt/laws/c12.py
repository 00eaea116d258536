"""C12  local Schwinger-Dyson equation: naive sums, Hartree term, equivalence with the full vertex, DMFT round trip"""
import types
import numpy as np
from vpbt.core import law, case, st, seeds, floats, rng, cplx
from vpbt.laws import fourp as f4
from vpbt.laws import models as mo
from dga import local_four_point as lfp, four_point as fp
from dga import matsubara_frequencies as mf
from dga import two_point as twop
from dga import bubble as bub

beta_st = floats(1, 30)
ch_st = st.sampled_from(['dens', 'magn'])
common = dict(beta=beta_st, u=st.one_of(floats(0.1, 5), floats(-4, -0.1)), niv=st.integers(1, 6), nsh=st.integers(0, 6), niw=st.integers(0, 4), seed=seeds,
              extra=st.integers(0, 5), n=floats(0, 2))


def g_at(g, iv):
    return g[len(g) // 2 + iv]


@law('C12', case(**dict(common, wl=st.sampled_from([None, [0], [1, -3], [-2, 0, 3], [4, 1], [-4, -1]]))), 150, 3000,
     'non-trivial: w != 0 in the sum and a shell')
def equation_of_motion_by_labels(c, t):
    """Sigma(v) = U n/2 + sum_r u_r/(2 beta) sum_w [1 - (1 - u_r chi_r(w)) gamma_r(w,v)] G(v-w), gamma = 1 beyond the core"""
    r = rng(c['seed'], 1)
    beta, u, n, s = float(c['beta']), c['u'], c['niv'], c['nsh']
    wn = np.arange(-c['niw'], c['niw'] + 1) if c['wl'] is None else np.array(c['wl'])
    full = c['wl'] is None
    ng = n + s + int(np.max(np.abs(wn))) + c['extra']
    g = cplx(r, 2 * ng)
    v = {ch: cplx(r, (len(wn), 2 * n)) for ch in ('dens', 'magn')}
    x = {ch: cplx(r, len(wn)) for ch in ('dens', 'magn')}
    t.nontrivial(s > 0 and np.any(wn != 0))
    want = np.zeros(2 * (n + s), complex) + u * c['n'] / 2
    part = {}
    for ch in ('dens', 'magn'):
        ur = f4.sign(ch) * u
        p = np.zeros(2 * (n + s), complex)
        for j, iv in enumerate(range(-n - s, n + s)):
            for i, w in enumerate(wn):
                gam = v[ch][i, iv + n] if -n <= iv < n else 1.0
                p[j] += ur / (2 * beta) * (1 - (1 - ur * x[ch][i]) * gam) * g_at(g, iv - w)
        part[ch] = p
        want += p
    obj = {ch: f4.three(ch, v[ch], beta, u, wn, full) for ch in v}
    t.close(lfp.schwinger_dyson_full(obj['dens'], obj['magn'], x['dens'], x['magn'], g, c['n'], niv_shell=s), want, 'self-energy',
            rtol=1e-11)
    for ch in part:
        t.close(lfp.schwinger_dyson_core_urange(obj[ch], x[ch], g, s), part[ch], f'{ch} part, core and shell', rtol=1e-11)
        t.close(lfp.schwinger_dyson_vrg(obj[ch], x[ch], g), part[ch][s:s + 2 * n], f'{ch} part, core', rtol=1e-11)
        sh = lfp.schwinger_dyson_shell(x[ch], g, beta, u, s, n, wn) if s else None
        if s:
            t.close(sh, np.concatenate((part[ch][:s], part[ch][s + 2 * n:])), f'{ch} part, shell', rtol=1e-11)
            t.close(fp.schwinger_dyson_shell(x[ch], g, beta, u, s, n, wn), sh, f'{ch} part, shell', rtol=1e-11)


@law('C12', case(**dict(common, ch=ch_st, strength=floats(0.05, 0.9))), 120, 2500, 'non-trivial: well conditioned, w != 0')
def three_leg_form_equals_full_vertex_form(c, t):
    """u_r/2 [1-(1-u_r chi) gamma] = sign U/2 sum_vp F chi0: both forms give the same self-energy, with and without shell"""
    beta, u, n, s = float(c['beta']), c['u'], c['niv'], c['nsh']
    wn = np.arange(-c['niw'], c['niw'] + 1)
    ur = f4.sign(c['ch']) * u
    x0 = f4.gchi0(c['seed'], len(wn), n + s, beta)
    x0c = x0[:, s:s + 2 * n]
    gam = f4.gamma(c['seed'], x0c, beta, u, c['ch'], c['strength'])
    gpad = f4.pad(gam, ur / beta ** 2, s)
    chi = f4.dense_chi(x0, gpad)
    aux = f4.dense_chi(x0c, gam - ur / beta ** 2)
    chip = chi.sum((-1, -2)) / beta ** 2
    k = max(f4.cond(chi), f4.cond(aux), f4.cond([np.diag(a) for a in x0])) ** 2
    bad = k > 1e7 or np.min(np.abs(1 - ur * chip)) < 1e-2
    t.nontrivial(not bad and c['niw'] > 0)
    if bad:
        return
    rt = 1e-9 + 1e-12 * k / np.min(np.abs(1 - ur * chip))
    g = cplx(rng(c['seed'], 2), 2 * (n + s + c['niw'] + c['extra']))
    a = f4.four(c['ch'], aux, beta, u, wn, True)
    vrg = lfp.vrg_from_gchi_aux(a, x0c)
    got = lfp.schwinger_dyson_core_urange(vrg, chip, g, s)
    f = f4.four(c['ch'], f4.dense_f(x0, gpad), beta, u, wn, True)
    want = 0.5 * f4.sign(c['ch']) * lfp.schwinger_dyson_f(f, x0, g)
    sc = abs(u) / 2 / beta * np.sum(np.abs((f.mat * x0[:, None, :]).sum(-1))) * np.max(np.abs(g))
    t.close(got, want, 'three-leg form against sum over F', rtol=rt, scale=max(np.max(np.abs(want)), sc))
    # direct evaluation of the F form
    naive = np.zeros(2 * (n + s), complex)
    for j, iv in enumerate(range(-n - s, n + s)):
        for i, w in enumerate(wn):
            naive[j] += u / beta * np.sum(f.mat[i, j] * x0[i]) * g_at(g, iv - w)
    t.close(lfp.schwinger_dyson_f(f, x0, g), naive, 'Sigma = U/beta sum F chi0 G', rtol=1e-10, atol=1e-12 * sc)


@law('C12', case(beta=floats(2, 15), u=st.one_of(floats(0.1, 3), floats(-2, -0.1)), niv=st.integers(1, 5), nsh=st.integers(0, 6), niw=st.integers(0, 4), seed=seeds,
                 n=floats(0.2, 1.8), strength=floats(0.05, 0.6), nk=st.sampled_from([[2, 2, 1], [4, 4, 1], [3, 3, 1]])), 80, 1000,
     'non-trivial: well conditioned, shell beyond the core, w != 0')
def local_part_of_a_run(c, t):
    """from G2 to vertex, susceptibility, three-leg vertex and self-energy: what the run keeps is what the dense equations give"""
    from vpbt.laws import runcfg
    from dga import high_level_routines as hlr
    beta, u, n, s, niw = float(c['beta']), c['u'], c['niv'], c['nsh'], c['niw']
    wn = np.arange(-niw, niw + 1)
    hr, g, ek = mo.lattice(c['seed'], tuple(c['nk']))
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, 8))
    gf = twop.GreensFunction(twop.SelfEnergy(sig, beta, niv_core=8), ek, mu=0.2, niv_asympt=n + s + niw + 3)
    gl = gf.g_full().mean(axis=(0, 1, 2))
    x0 = np.array([[-beta * g_at(gl, iv) * g_at(gl, iv - w) for iv in range(-n - s, n + s)] for w in wn])
    x0c = x0[:, s:s + 2 * n]
    out, g2, den, k = {}, {}, 1e9, 1.0
    for i, ch in enumerate(('dens', 'magn')):
        ur = f4.sign(ch) * u
        gam = f4.gamma(c['seed'], x0c, beta, u, ch, c['strength'], salt=i, sym=True)
        chi = f4.dense_chi(x0, f4.pad(gam, ur / beta ** 2, s))
        core = chi[:, s:s + 2 * n, s:s + 2 * n]
        chip = chi.sum((-1, -2)) / beta ** 2
        aux = f4.dense_chi(x0c, gam - ur / beta ** 2)
        k = max(k, f4.cond(chi), f4.cond(core), f4.cond(aux), f4.cond([np.diag(a) for a in x0]))
        den = min(den, np.min(np.abs(1 - ur * chip)))
        m = core / beta
        if ch == 'dens':
            gc = np.array([g_at(gl, iv) for iv in range(-n, n)])
            m = m.copy()
            m[niw] += 2 * gc[:, None] * gc[None, :]
        g2[ch] = lfp.LocalFourPoint(ch, m, beta, u, is_full_w=True)
        out[ch] = (gam, chip, aux.sum(-1) / x0c, ur)
    bad = k > 1e3 or den < 5e-2
    t.nontrivial(not bad and s > 0 and niw > 0)
    if bad:
        return
    rt = 1e-8 + 1e-12 * k ** 2 / den
    cfg = runcfg.dga_config(t.tmp(), nk=c['nk'], niw=niw, niv=n, shell=s, n=c['n'], beta=beta, u=u, mu=0.2, siw=sig[0, 0, 0], giw=gl,
                            hr=[1.0, 0.0, 0.0], symmetries='none', verbosity=0)
    gd, gm, xd, xm, vd, vm, siw = hlr.local_sde_from_g2(g2['dens'], g2['magn'], gf, cfg)
    want = np.zeros(2 * (n + s), complex) + u * c['n'] / 2
    for ch, ga, x, v in (('dens', gd, xd, vd), ('magn', gm, xm, vm)):
        gam, chip, vrg, ur = out[ch]
        t.close(ga.mat, gam, f'{ch}: irreducible vertex', rtol=rt)
        t.close(x, chip, f'{ch}: susceptibility', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0.sum(-1))) / beta ** 2))
        t.close(v.mat, vrg, f'{ch}: three-leg vertex', rtol=rt)
        for j, iv in enumerate(range(-n - s, n + s)):
            for i, w in enumerate(wn):
                gv = vrg[i, iv + n] if -n <= iv < n else 1.0
                want[j] += ur / (2 * beta) * (1 - (1 - ur * chip[i]) * gv) * g_at(gl, iv - w)
    t.close(siw, want, 'self-energy', rtol=rt, atol=rt * abs(u))


@law('C12', case(nk=st.sampled_from([[1, 1, 1], [4, 4, 1], [6, 6, 1]]), beta=floats(1, 6), seed=seeds, u=floats(0.01, 1)), 25, 150,
     'non-trivial: always')
def second_order_perturbation_theory(c, t):
    """a bare vertex with chi = chi0: the equation of motion is the second-order diagram, computed in imaginary time"""
    beta, u = float(c['beta']), c['u']
    hr, g, ek = mo.lattice(c['seed'], tuple(c['nk']))
    e = ek.reshape(-1) - 0.1
    n, s, niw = 4, 36, 60
    vv = mo.vlist(beta, n + s + niw)
    gl = np.mean(1 / (1j * vv[None, :] - e[:, None]), axis=0)
    # chi0(tau) = -G(tau) G(-tau) ; Sigma2(tau) = -u^2 ... = u^2 G(tau) chi0(tau)
    nt = 4001
    tau = np.linspace(0, beta, nt)
    gt = -np.mean(np.exp(-np.outer(e, tau)) * (1 - mo.fermi(e, beta))[:, None], axis=0)  # G(tau>0)
    gmt = np.mean(np.exp(np.outer(e, tau)) * mo.fermi(e, beta)[:, None], axis=0)  # G(-tau)
    x0t = -gt * gmt
    from scipy.integrate import simpson
    wn = np.arange(-niw, niw + 1)
    chi0 = np.array([simpson(x0t * np.exp(2j * np.pi * w / beta * tau), x=tau) for w in wn])
    core = np.arange(-n, n)
    sig2 = np.array([simpson(u ** 2 * gt * x0t * np.exp(1j * np.pi / beta * (2 * iv + 1) * tau), x=tau) for iv in core])
    one = np.ones((len(wn), 2 * n), complex)
    t.nontrivial(True)
    got = lfp.schwinger_dyson_full(f4.three('dens', one, beta, u, wn, True), f4.three('magn', one, beta, u, wn, True), chi0, chi0, gl,
                                   0.0, niv_shell=s)
    # chi0 decays like 1/w^2: the neglected sum is odd-dominated, estimate from the cut
    tol = 4 * u ** 2 / beta * np.abs(chi0[0]) * np.abs(gl).max() / niw * niw ** 0.5 + 1e-3 * np.max(np.abs(sig2))
    t.close(got[s:s + 2 * n], sig2, 'second-order self-energy', rtol=2e-2, atol=tol)
