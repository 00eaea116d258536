"""C10  local two-particle objects: Bethe-Salpeter equation and its inversions"""
import numpy as np
from vpbt.core import law, case, st, seeds, floats, rng, cplx
from vpbt.laws import fourp as f4
from vpbt.laws import models as mo
from dga import local_four_point as lfp

beta_st = floats(1, 30)
ch_st = st.sampled_from(['dens', 'magn'])
odd_wl = st.sampled_from([[0], [1], [-2], [0, 1, 3], [-1, 2, 5], [4, 0, -4], [-3, -2, -1, 0, 1]])
common = dict(ch=ch_st, beta=beta_st, u=floats(-3, 5), niv=st.integers(1, 6), niw=st.integers(0, 3), wl=odd_wl, full=st.booleans(),
              seed=seeds, strength=floats(0.05, 0.9))


def make(c, sym=False):
    wn, full = f4.wlabels(c)
    beta, u = float(c['beta']), c['u']
    x0 = f4.gchi0(c['seed'], len(wn), c['niv'], beta)
    gam = f4.gamma(c['seed'], x0, beta, u, c['ch'], c['strength'], sym=sym)
    return wn, full, beta, u, x0, gam


@law('C10', case(**common), 150, 3000, 'non-trivial: at least two fermionic frequencies and u != 0')
def bethe_salpeter_and_back(c, t):
    wn, full, beta, u, x0, gam = make(c)
    t.nontrivial(c['u'] != 0)
    chi = f4.dense_chi(x0, gam)
    k = max(f4.cond(chi), f4.cond([np.diag(1 / a) for a in x0])) ** 2
    if k > 1e8:
        t.label('ill-conditioned')
        t.nontrivial(False)
        return
    rt = 1e-12 * k + 1e-11
    g = f4.four(c['ch'], gam, beta, u, wn, full)
    x = f4.four(c['ch'], chi, beta, u, wn, full)
    t.close(lfp.gchir_from_gamob2(g, x0).mat, chi, 'chi = (1/chi0 + Gamma)^-1', rtol=rt)
    t.close(lfp.gamob2_from_gchir(x, x0).mat, gam, 'Gamma = 1/chi - 1/chi0', rtol=rt)
    t.close(lfp.gamob2_from_gchir(lfp.gchir_from_gamob2(g, x0), x0).mat, gam, 'Gamma -> chi -> Gamma', rtol=rt)
    f = f4.dense_f(x0, gam)
    fo = lfp.fob2_from_gchir(x, x0)
    t.close(fo.mat, f, 'F = 1/chi0 - chi/(chi0 chi0)', rtol=rt)
    t.close(lfp.gchir_from_fob2(fo, x0).mat, chi, 'F -> chi', rtol=rt)
    t.close(lfp.gchir_from_fob2(f4.four(c['ch'], f, beta, u, wn, full), x0).mat, chi, 'chi = chi0 - chi0 F chi0', rtol=rt)
    t.close(lfp.fob2_from_gamob2_urange(g, x0).mat, f, 'F from Gamma without a shell', rtol=rt)
    t.close(lfp.gamob2_from_gchir_urange(x, x0).mat, gam, 'Gamma from chi without a shell', rtol=rt)
    for o in (fo, lfp.gchir_from_gamob2(g, x0), lfp.gamob2_from_gchir(x, x0)):
        t.check(o.channel == c['ch'] and o.beta == beta and o.u == u, 'metadata lost')
        t.equal(o.wn, wn, 'bosonic labels lost')
    t.close(x.contract_legs(), chi.sum((-1, -2)) / beta ** 2, 'contraction of the legs', rtol=1e-11)
    t.close(lfp.get_gchi0_full(x0), np.array([np.diag(a) for a in x0]), 'chi0 as a matrix', rtol=1e-13)


@law('C10', case(**common), 120, 2500, 'non-trivial: u != 0')
def auxiliary_susceptibility_and_vertices(c, t):
    """chi* without the bare vertex; gamma = chi*/chi0 legs; lambda vertex relation"""
    wn, full, beta, u, x0, gam = make(c)
    ch, ur = c['ch'], f4.sign(c['ch']) * c['u']
    t.nontrivial(u != 0)
    aux = f4.dense_chi(x0, gam - ur / beta ** 2)
    chi = f4.dense_chi(x0, gam)
    k = max(f4.cond(chi), f4.cond(aux), f4.cond([np.diag(1 / a) for a in x0])) ** 2
    chip = chi.sum((-1, -2)) / beta ** 2
    if k > 1e7 or np.min(np.abs(1 - ur * chip)) < 1e-2:
        t.nontrivial(False)
        return
    rt = 1e-11 * k / np.min(np.abs(1 - ur * chip)) + 1e-10
    g, x, a = (f4.four(ch, m, beta, u, wn, full) for m in (gam, chi, aux))
    t.close(lfp.gchi_aux_core_from_gammar(g, x0).mat, aux, 'chi* from Gamma', rtol=rt)
    t.close(lfp.local_gchi_aux_from_gammar(g, x0).mat, aux, 'chi* from Gamma (local)', rtol=rt)
    t.close(lfp.gchi_aux_core(x).mat, aux, 'chi* from chi', rtol=rt)
    t.close(lfp.gchi_aux_core_from_gammar_urange(g, x0).mat, aux, 'chi* from Gamma without a shell', rtol=rt)
    # sum over vp (default) or over v
    for ax in (-1, -2):
        t.close(lfp.vrg_from_gchi_aux(a, x0, sum_axis=ax).mat, aux.sum(axis=ax) / x0, f'three-leg vertex, sum over axis {ax}', rtol=rt)
    # exact relation of the full and the auxiliary ladder
    want = (chi.sum(-1) / x0) / (1 - ur * chip)[:, None]
    vrg = lfp.vrg_from_gchi_aux(a, x0)
    t.close(vrg.mat, want, 'three-leg vertex from chi* against chi', rtol=rt, scale=max(1, np.max(np.abs(aux.sum(-1) / x0))))
    t.equal(vrg.wn, wn, 'labels')
    lam = lfp.lam_from_chir(x, x0)
    t.close(lam.mat, -f4.sign(ch) * (1 - chi.sum(-1) / x0), 'lambda vertex', rtol=rt, atol=1e-10)
    t.close(lfp.vrg_from_lam(lam, chip).mat, want, 'three-leg vertex from lambda', rtol=rt)
    # physical susceptibility without a shell
    x0s = x0.sum(-1) / beta ** 2
    t.close(lfp.chi_phys_urange(aux.sum((-1, -2)) / beta ** 2, x0s, x0s, u, ch), chip, 'chi from chi*', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0s))))


@law('C10', case(**dict(common, extra=st.integers(0, 4))), 150, 3000, 'non-trivial: density channel with w = 0 in the list')
def connected_and_full_two_particle_function(c, t):
    wn, full, beta, u, x0, gam = make(c)
    r = rng(c['seed'], 9)
    n = c['niv']
    g2 = cplx(r, (len(wn), 2 * n, 2 * n))
    giw = cplx(r, 2 * (n + c['extra']))
    t.nontrivial(c['ch'] == 'dens' and 0 in wn)
    want = beta * g2
    if c['ch'] == 'dens':
        for i, w in enumerate(wn):
            if w == 0:
                for a in range(-n, n):
                    for b in range(-n, n):
                        want[i, a + n, b + n] -= 2 * beta * giw[a + n + c['extra']] * giw[b + n + c['extra']]
    keep = g2.copy()
    o = f4.four(c['ch'], g2, beta, u, wn, full)
    x = lfp.gchir_from_g2(o, giw)
    t.close(x.mat, want, 'chi = beta (G2 - 2 G G)', rtol=1e-12)
    t.equal(o.mat, keep, 'input changed')
    t.equal(x.wn, wn, 'labels')
    b = lfp.g2_from_chir(x, giw)
    t.close(b.mat, keep, 'G2 -> chi -> G2', rtol=1e-11)
    t.close(x.mat, want, 'chi changed by the inverse', rtol=1e-12)
    d = lfp.get_g2_from_dmft_input({f'g4iw_{c["ch"]}': keep, 'beta': beta, 'u': u}, c['ch'])
    t.check(d.channel == c['ch'] and d.beta == beta and d.u == u and d.is_full_w, 'object from the DMFT input')
    t.equal(d.mat, keep, 'object from the DMFT input')


@law('C10', case(ch=st.sampled_from(['dens', 'magn', 'updo', 'upup']), beta=beta_st, u=floats(-3, 5), niv=st.integers(1, 6),
                 niw=st.integers(0, 4), seed=seeds, cut=st.integers(0, 6), cutw=st.integers(0, 4), shell=st.integers(0, 3)), 100, 1500,
     'non-trivial: proper cuts')
def container_operations(c, t):
    r = rng(c['seed'], 4)
    n, niw, beta = c['niv'], c['niw'], float(c['beta'])
    m = cplx(r, (2 * niw + 1, 2 * n, 2 * n))
    new = lambda: lfp.LocalFourPoint(c['ch'], m.copy(), beta, c['u'], is_full_w=True)  # noqa
    o = new()
    cut, cutw = min(c['cut'], n), min(c['cutw'], niw)
    cut = max(cut, 1)
    t.nontrivial(cut < n or cutw < niw)
    t.equal(o.wn, np.arange(-niw, niw + 1), 'wn')
    t.equal(o.wn_lin, np.arange(2 * niw + 1), 'wn_lin')
    t.equal(o.vn, np.arange(-n, n), 'vn')
    t.check(o.niv == n and o.size == m.size, 'sizes')
    t.check(o.u_r == c['u'] * {'dens': 1, 'updo': 1, 'magn': -1, 'upup': -1}[c['ch']], 'channel sign of u')
    o.symmetrize_v_vp()
    t.close(o.mat, 0.5 * (m + m.transpose(0, 2, 1)), 'symmetrisation in v, vp', rtol=1e-13)
    o = new()
    o.cut_iv(cut)
    t.equal(o.mat, m[:, n - cut:n + cut, n - cut:n + cut], 'cut in v')
    o.cut_iw(cutw)
    t.equal(o.mat, m[niw - cutw:niw + cutw + 1, n - cut:n + cut, n - cut:n + cut], 'cut in w')
    t.equal(o.wn, np.arange(-cutw, cutw + 1), 'wn after the cut')
    o = new()
    o.append_shell(0.25 - 1j, c['shell'])
    t.equal(o.mat, f4.pad(m, 0.25 - 1j, c['shell']), 'appended shell')
    p = lfp.get_urange(new(), 0.5, c['shell'])
    t.equal(p.mat, f4.pad(m, 0.5, c['shell']), 'u-range')
    tri = lfp.LocalThreePoint(c['ch'], m[:, :, 0], beta, c['u'], is_full_w=True)
    t.close(tri.contract_legs(), m[:, :, 0].sum(-1) / beta, 'contraction of one leg', rtol=1e-12)
    t.raises(AssertionError, lambda: lfp.LocalFourPoint('nope', m, beta, 1.0, is_full_w=True), 'unknown channel')
    t.raises(AssertionError, lambda: lfp.LocalFourPoint('dens', m[:, :, 0], beta, 1.0, is_full_w=True), 'not a four-point function')
    t.raises(AssertionError, lambda: lfp.LocalFourPoint('dens', m, beta, 1.0), 'bosonic labels missing')


@law('C10', case(niw=st.integers(2, 9), seed=seeds), 40, 400, 'non-trivial: several fermionic frequencies')
def diagonal_part_by_crossing(c, t):
    """contribution of the susceptibilities that depend on v-v': upup from chi_upup, updo from the spin flip chi_magn; dens/magn are sum and difference"""
    r = rng(c['seed'])
    niw = c['niw']
    uu, ud = cplx(r, 2 * niw + 1), cplx(r, 2 * niw + 1)
    n = niw // 2
    t.nontrivial(n > 1)
    f = {}
    for k, x in (('uu', uu), ('ud', uu - ud)):
        f[k] = np.array([[x[niw + i - j] for j in range(2 * n)] for i in range(2 * n)])
    for ch, want in (('dens', f['uu'] + f['ud']), ('magn', f['uu'] - f['ud'])):
        t.close(lfp.get_f_diag(uu + ud, uu - ud, ch), want, ch, rtol=1e-12)
    t.raises(NotImplementedError, lambda: lfp.get_f_diag(uu, ud, 'updo'), 'unknown channel')
