"""C13  momentum-dependent ladder and non-local Schwinger-Dyson equation"""
import numpy as np
from vpbt.core import law, case, st, seeds, floats, rng, cplx
from vpbt.laws import fourp as f4
from vpbt.laws import models as mo
from dga import local_four_point as lfp
from dga import four_point as fp
from dga import matsubara_frequencies as mf
from dga import two_point as twop
from dga import bubble as bub

beta_st = floats(1, 20)
ch_st = st.sampled_from(['dens', 'magn'])
nk_st = st.tuples(st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 1, 2, 3])).map(list)
base = dict(ch=ch_st, beta=beta_st, u=st.one_of(floats(0.1, 4), floats(-3, -0.1)), niv=st.integers(1, 4), nsh=st.integers(0, 4), niw=st.integers(0, 3), seed=seeds,
            nq=st.integers(1, 4), strength=floats(0.05, 0.8))


def make(c):
    beta, u, n, s, nq, niw = float(c['beta']), c['u'], c['niv'], c['nsh'], c['nq'], c['niw']
    ur = f4.sign(c['ch']) * u
    nw = 2 * niw + 1
    x0 = np.array([f4.gchi0(c['seed'], nw, n + s, beta, salt=i) for i in range(nq)])
    x0c = x0[..., s:s + 2 * n]
    gam = f4.gamma(c['seed'], x0c[0], beta, u, c['ch'], c['strength'], sym=c['seed'] % 2 == 0)
    gpad = f4.pad(gam, ur / beta ** 2, s)
    chi = np.array([f4.dense_chi(x, gpad) for x in x0])
    aux = np.array([f4.dense_chi(x, gam - ur / beta ** 2) for x in x0c])
    chip = chi.sum((-1, -2)) / beta ** 2
    k = max(max(f4.cond(a), f4.cond(b)) for a, b in zip(chi, aux)) * max(f4.cond([np.diag(a) for a in x]) for x in x0)
    bad = k > 1e6 or np.min(np.abs(1 - ur * chip)) < 2e-2
    return beta, u, n, s, nq, niw, ur, x0, x0c, gam, gpad, chi, aux, chip, k, bad


@law('C13', case(**base), 150, 3000, 'non-trivial: well conditioned, several q, shell')
def ladder_equals_the_dense_equation_at_every_q(c, t):
    beta, u, n, s, nq, niw, ur, x0, x0c, gam, gpad, chi, aux, chip, k, bad = make(c)
    t.nontrivial(not bad and nq > 1 and s > 0)
    if bad:
        return
    rt = 1e-9 + 1e-12 * k / np.min(np.abs(1 - ur * chip))
    wn = np.arange(-niw, niw + 1)
    g = f4.four(c['ch'], gam, beta, u, wn, True)
    a = fp.get_gchir_aux_from_gammar_q(g, x0c)
    t.close(a, aux, 'chi*(q)', rtol=rt)
    t.close(fp.get_gchir_from_gamma_loc_q(g, x0c), np.array([f4.dense_chi(x, gam) for x in x0c]), 'chi(q) without a shell', rtol=rt)
    x0s, x0cs = x0.sum(-1) / beta ** 2, x0c.sum(-1) / beta ** 2
    xu = fp.chi_phys_from_chi_aux_q(a.sum((-1, -2)) / beta ** 2, x0s, x0cs, u, c['ch'])
    t.close(xu, chip, 'physical susceptibility chi(q,w)', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0s))))
    vrg = fp.vrg_from_gchi_aux(a, x0c)
    want = (chi.sum(-1) / x0 / (1 - ur * chip)[..., None])[..., s:s + 2 * n]
    t.close(vrg, want, 'three-leg vertex', rtol=rt, scale=max(1, np.max(np.abs(want))))
    xa = chip + 0.01
    t.close(fp.chi_phys_asympt_q(chip, x0s, x0s + 0.01), xa, 'analytic tail', rtol=1e-11)
    t.close(fp.vrg_from_gchi_aux_asympt(a, x0c, chip, xa, u, c['ch']), aux.sum(-1) / x0c * ((1 - ur * chip) / (1 - ur * xa))[..., None],
            'three-leg vertex with the analytic tail', rtol=rt / np.min(np.abs(1 - ur * xa)))
    t.close(fp.lam_from_chir_q(chi, x0, c['ch']), -f4.sign(c['ch']) * (1 - chi.sum(-1) / x0), 'lambda vertex', rtol=rt)
    t.close(fp.get_kernel(vrg, chip, u, c['ch']), ur / 2 * (1 - (1 - ur * chip)[..., None] * vrg), 'kernel', rtol=rt)
    if c['seed'] % 2 == 0:  # v-vp symmetric vertex: F(q) from its stored components
        for iq in range(nq):
            f = f4.dense_f(x0[iq], gpad)[:, s:s + 2 * n, s:s + 2 * n]
            for iw in range(2 * niw + 1):
                f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=a[iq, iw], vrg=vrg[iq, iw], gchi0=x0c[iq, iw], beta=beta, u_r=ur)
                t.close(f1 + (1 - ur * chip[iq, iw]) * f2, beta ** 2 * f[iw], 'F(q) from its components', rtol=rt * 10)


@law('C13', case(**base), 80, 1500, 'non-trivial: well conditioned, several q, shell')
def shell_by_the_lambda_vertex_at_every_q(c, t):
    beta, u, n, s, nq, niw, ur, x0, x0c, gam, gpad, chi, aux, chip, k, bad = make(c)
    xsh = (x0.sum(-1) - x0c.sum(-1)) / beta ** 2
    small = min(np.min(np.abs(1 - ur * xsh)), np.min(np.abs(1 + ur * xsh)))
    bad = bad or small < 1e-2
    t.nontrivial(not bad and nq > 1 and s > 0)
    if bad:
        return
    rt = 1e-9 + 1e-12 * k / np.min(np.abs(1 - ur * chip)) / small ** 2
    sg = f4.sign(c['ch'])
    core = chi[..., s:s + 2 * n, s:s + 2 * n]
    lam = fp.lam_from_chir_q(core, x0c, c['ch'])
    lt = fp.get_lam_tilde(lam, xsh, u, c['ch'])
    t.close(lt, -sg * (1 - (chi.sum(-1) / x0)[..., s:s + 2 * n]), 'lambda of the large box', rtol=rt, atol=rt)
    x = fp.chir_tilde(core.sum((-1, -2)) / beta ** 2, lt, xsh, x0c, beta, u, c['ch'])
    t.close(x, chip, 'susceptibility of the large box', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0.sum(-1))) / beta ** 2))
    v = fp.vrg_q_tilde(lt, x, u, c['ch'])
    t.close(v, (chi.sum(-1) / x0 / (1 - ur * chip)[..., None])[..., s:s + 2 * n], 'three-leg vertex of the large box', rtol=rt * 10)


class Bubbles:
    """stands for the bubble generator: the ladder is asked for the bubble in a box and for the rest of the sum"""

    def __init__(self, x0, beta, t, ql):
        self.x0, self.beta, self.t, self.ql = x0, beta, t, ql

    def get_gchi0_q_list(self, niv, q_list):
        self.t.equal(np.array(q_list), np.array(self.ql), 'momenta asked for')
        o = self.x0.shape[-1] // 2 - niv
        return self.x0[..., o:o + 2 * niv].copy()

    def get_asymptotic_correction_q(self, niv, q_list):
        self.t.equal(np.array(q_list), np.array(self.ql), 'momenta asked for')
        return (self.x0.sum(-1) - self.get_gchi0_q_list(niv, q_list).sum(-1)) / self.beta ** 2


@law('C13', case(**dict(base, out=st.integers(0, 4))), 80, 1500, 'non-trivial: well conditioned, several q, bubble beyond the shell')
def ladder_with_the_tail_of_the_bubble(c, t):
    """core and shell as the dense equation, the rest of the bubble added; the double counting kernel of core, shell
    and rest is the one of a box that holds all three"""
    o = c['out']
    r = make(dict(c, ch='dens', nsh=c['nsh'] + o))
    m = make(dict(c, ch='magn', nsh=c['nsh'] + o))
    beta, u, n, s, nq, niw = r[0], r[1], r[2], c['nsh'], r[4], r[5]
    x0 = r[7]
    x0u = x0[..., o:x0.shape[-1] - o]
    x0c = r[8]
    nf = n + s
    wn = np.arange(-niw, niw + 1)
    ql = [(i, 0, 0) for i in range(nq)]
    want, rts, bad = {}, [], False
    for ch, z in (('dens', r), ('magn', m)):
        ur, gam, aux = z[6], z[9], z[12]
        chi = np.array([f4.dense_chi(x, f4.pad(gam, ur / beta ** 2, s)) for x in x0u])
        xu = chi.sum((-1, -2)) / beta ** 2
        xa = xu + (x0.sum(-1) - x0u.sum(-1)) / beta ** 2
        d = min(np.min(np.abs(1 - ur * xu)), np.min(np.abs(1 - ur * xa)))
        bad = bad or z[-1] or d < 2e-2
        rts.append(1e-9 + 1e-12 * z[-2] / d ** 2)
        want[ch] = (xa, aux.sum(-1) / x0c * ((1 - ur * xu) / (1 - ur * xa))[..., None])
    t.nontrivial(not bad and nq > 1 and o > 0)
    if bad:
        return
    rt = max(rts)
    gd = f4.four('dens', r[9], beta, u, wn, True)
    gm = f4.four('magn', m[9], beta, u, wn, True)
    ur = -u
    big = m[10]
    f = f4.dense_f(x0[0], big)  # local box with everything
    chil = f4.dense_chi(x0[0], big)
    xl = chil.sum((-1, -2)) / beta ** 2
    vl = (chil.sum(-1) / x0[0] / (1 - ur * xl)[:, None])[:, s + o:s + o + 2 * n]
    fdc = f4.four('magn', f[:, o:o + 2 * nf, o:o + 2 * nf], beta, u, wn, True)
    got = fp.get_vrg_and_chir_lad_from_gammar_uasympt_q(gd, gm, fdc, f4.three('magn', vl, beta, u, wn, True), xl,
                                                        Bubbles(x0, beta, t, ql), u, ql, niv_shell=s)
    for i, ch in enumerate(('dens', 'magn')):
        t.close(got[2 + i], want[ch][0], f'{ch}: susceptibility', rtol=rt, scale=max(np.max(np.abs(want[ch][0])), np.max(np.abs(x0.sum(-1))) / beta ** 2))
        t.close(got[i], want[ch][1], f'{ch}: three-leg vertex', rtol=rt, scale=max(1, np.max(np.abs(want[ch][1]))))
    kd = np.einsum('wvp,qwp->qwv', ur * f, x0)[..., s + o:s + o + 2 * n]
    t.close(got[4], kd, 'double-counting kernel', rtol=rt * 10)


@law('C13', case(**base), 80, 1500, 'non-trivial: shell, several q')
def double_counting_kernel(c, t):
    beta, u, n, s, nq, niw, ur, x0, x0c, gam, gpad, chi, aux, chip, k, bad = make(dict(c, ch='magn'))
    t.nontrivial(not bad and s > 0)
    if bad:
        return
    f = f4.dense_f(x0[0], gpad)
    o = f4.four('magn', f, beta, u, np.arange(-niw, niw + 1), True)
    want = np.zeros(x0.shape, complex)
    for q in range(nq):
        for w in range(2 * niw + 1):
            want[q, w] = ur * f[w] @ x0[q, w]
    got = fp.get_kernel_dc(o, x0)
    t.close(got, want, 'double-counting kernel', rtol=1e-10)
    # with the local bubble it is twice the local magnetic kernel
    vr = (chi[0].sum(-1) / x0[0] / (1 - ur * chip[0])[:, None])
    t.close(got[0], 2 * ur / 2 * (1 - (1 - ur * chip[0])[:, None] * vr), 'local limit', rtol=1e-8 + 1e-12 * k)


sde = dict(nk=nk_st, beta=beta_st, u=st.one_of(floats(0.1, 4), floats(-3, -0.1)), niv=st.integers(1, 4), nsh=st.integers(0, 3), niw=st.integers(0, 3), seed=seeds,
           extra=st.integers(0, 3), wl=st.sampled_from([None, None, [0], [2, -1], [-3, -1]]))


def roll(gk, q):
    return np.roll(gk, [-a for a in q], axis=(0, 1, 2))


@law('C13', case(**sde), 100, 2000, 'non-trivial: several momenta, w != 0')
def non_local_equation_of_motion_by_labels(c, t):
    nk, beta, u, n, s, seed = tuple(c['nk']), float(c['beta']), c['u'], c['niv'], c['nsh'], c['seed']
    wn = np.arange(-c['niw'], c['niw'] + 1) if c['wl'] is None else np.array(c['wl'])
    r = rng(seed, 6)
    ng = n + s + int(np.max(np.abs(wn))) + c['extra']
    gk = cplx(r, nk + (2 * ng,))
    ql = [(x, y, z) for x in range(nk[0]) for y in range(nk[1]) for z in range(nk[2])]
    sel = [q for q in ql if r.random() < 0.7] or ql[:1]
    dup = r.integers(1, 17, len(sel))
    nq, nw = len(sel), len(wn)
    nqt = int(np.prod(nk))
    vd, vm = cplx(r, (nq, nw, 2 * n)), cplx(r, (nq, nw, 2 * n))
    xd, xm = cplx(r, (nq, nw)), cplx(r, (nq, nw))
    dc = cplx(r, (nq, nw, 2 * n))
    t.nontrivial(nqt > 1 and np.any(wn != 0))
    keep = vd.copy(), vm.copy(), xd.copy(), xm.copy(), dc.copy()

    def gs(q, iv):
        return roll(gk, q)[..., ng + iv]

    def kern(ch, x, v, i, j, iv):
        ur = f4.sign(ch) * u
        gam = v[i, j, iv + n] if -n <= iv < n else 1.0
        return ur / 2 * (1 - (1 - ur * x[i, j]) * gam)

    full = np.zeros(nk + (2 * (n + s),), complex)
    chan = {ch: np.zeros(nk + (2 * n,), complex) for ch in ('dens', 'magn')}
    dcs = np.zeros(nk + (2 * n,), complex)
    for i, q in enumerate(sel):
        for j, w in enumerate(wn):
            for jv, iv in enumerate(range(-n - s, n + s)):
                g = gs(q, iv - w)
                if -n <= iv < n:
                    full[..., jv] += (kern('dens', xd, vd, i, j, iv) + 3 * kern('magn', xm, vm, i, j, iv) - dc[i, j, iv + n]) * g
                    chan['dens'][..., iv + n] += kern('dens', xd, vd, i, j, iv) * g * dup[i]
                    chan['magn'][..., iv + n] += kern('magn', xm, vm, i, j, iv) * g * dup[i]
                    dcs[..., iv + n] += u / nqt * dc[i, j, iv + n] * g * dup[i]
                else:
                    full[..., jv] += (u ** 2 / 2 * xd[i, j] + u ** 2 / 2 * xm[i, j]) * g
    full /= nqt * beta
    args = (np.array(sel) if seed % 2 else sel)
    got = fp.schwinger_dyson_full_q(vd, vm, xd, xm, dc, gk, beta, u, args, wn, nqt, niv_shell=s)
    t.close(got, full, 'non-local self-energy', rtol=1e-10)
    core = fp.schwinger_dyson_full_q(vd, vm, xd, xm, dc, gk, beta, u, args, wn, nqt)
    t.close(core, full[..., s:s + 2 * n], 'non-local self-energy in the core', rtol=1e-10)
    for a, b in zip(keep, (vd, vm, xd, xm, dc)):
        t.equal(b, a, 'input changed')
    for ch, x, v in (('dens', xd, vd), ('magn', xm, vm)):
        t.close(fp.schwinger_dyson_vrg_q(v, x, gk, beta, u, ch, args, dup, wn, nqt), chan[ch] / nqt / beta, f'{ch} channel with weights', rtol=1e-10)
        t.close(fp.schwinger_dyson_channel_q(v, x, ch, gk, beta, u, args, dup, wn, nqt), chan[ch] / nqt / beta, f'{ch} channel', rtol=1e-10)
    t.close(fp.schwinger_dyson_dc(dc, gk, u, args, dup, wn, nqt), dcs, 'double counting part', rtol=1e-10)
    # additive in the momenta: any split of the list gives the same sum
    m = len(sel) // 2
    if m:
        p1 = fp.schwinger_dyson_full_q(vd[:m], vm[:m], xd[:m], xm[:m], dc[:m], gk, beta, u, args[:m], wn, nqt, niv_shell=s)
        p2 = fp.schwinger_dyson_full_q(vd[m:], vm[m:], xd[m:], xm[m:], dc[m:], gk, beta, u, args[m:], wn, nqt, niv_shell=s)
        t.close(p1 + p2, full, 'sum over two parts of the momenta', rtol=1e-10)


@law('C13', case(nk=st.sampled_from([[1, 1, 1], [2, 2, 1], [2, 3, 1], [2, 2, 2]]), beta=floats(1, 10), u=floats(0.1, 2), niv=st.integers(1, 4),
                 nsh=st.integers(0, 5), niw=st.integers(0, 3), seed=seeds, strength=floats(0.05, 0.6)), 60, 800,
     'non-trivial: well conditioned')
def a_flat_band_has_no_non_local_correction(c, t):
    """without dispersion every q is local: the non-local equation gives the local self-energy at every k"""
    nk, beta, u, n, s, niw = tuple(c['nk']), float(c['beta']), c['u'], c['niv'], c['nsh'], c['niw']
    wn = np.arange(-niw, niw + 1)
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, 6))
    gf = twop.GreensFunction(twop.SelfEnergy(sig, beta, niv_core=6), np.zeros(nk), mu=0.1, niv_asympt=n + s + niw + 3)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, is_full_wn=True)
    ql = [(x, y, z) for x in range(nk[0]) for y in range(nk[1]) for z in range(nk[2])]
    x0 = gen.get_gchi0_q_list(n + s, ql)
    x0c = mf.cut_v(x0, n, axes=-1)
    loc = gen.get_gchi0(n + s)
    t.close(x0, np.array([loc] * len(ql)), 'flat bubble', rtol=1e-10)
    r = {}
    k, den = 1.0, 1e9
    for i, ch in enumerate(('dens', 'magn')):
        ur = f4.sign(ch) * u
        gam = f4.gamma(c['seed'], loc[:, s:s + 2 * n], beta, u, ch, c['strength'], salt=i, sym=True)
        chi = f4.dense_chi(loc, f4.pad(gam, ur / beta ** 2, s))
        k = max(k, f4.cond(chi), f4.cond([np.diag(a) for a in loc]))
        den = min(den, np.min(np.abs(1 - ur * chi.sum((-1, -2)) / beta ** 2)))
        g = f4.four(ch, gam, beta, u, wn, True)
        vl, xl = lfp.get_vrg_and_chir_tilde_from_gammar_urange(g, gen, niv_shell=s)
        a = fp.get_gchir_aux_from_gammar_q(g, x0c)
        xq = fp.chi_phys_from_chi_aux_q(a.sum((-1, -2)) / beta ** 2, x0.sum(-1) / beta ** 2, x0c.sum(-1) / beta ** 2, u, ch)
        r[ch] = (g, vl, xl, fp.vrg_from_gchi_aux(a, x0c), xq)
    bad = k > 1e3 or den < 5e-2
    t.nontrivial(not bad)
    if bad:
        return
    rt = 1e-8 + 1e-12 * k ** 2 / den
    dc = mf.cut_v(fp.get_kernel_dc(lfp.fob2_from_gamob2_urange(r['magn'][0], loc), x0), n, axes=(-1,))
    siwk = fp.schwinger_dyson_full_q(r['dens'][3], r['magn'][3], r['dens'][4], r['magn'][4], dc, gf.g_full(), beta, u, ql, wn, len(ql))
    siw = lfp.schwinger_dyson_full(r['dens'][1], r['magn'][1], r['dens'][2], r['magn'][2], gf.g_loc, 0.0, niv_shell=s)
    t.close(siwk, np.ones(nk)[..., None] * siw[s:s + 2 * n], 'non-local against local self-energy', rtol=rt, atol=rt * u * (1 + u))


@law('C13', case(nk=st.sampled_from([[2, 2, 1], [3, 3, 1], [4, 4, 1], [4, 2, 1]]), beta=floats(1, 10), u=floats(0.1, 2), niv=st.integers(1, 3),
                 nsh=st.integers(0, 4), niw=st.integers(0, 3), seed=seeds, strength=floats(0.05, 0.5)), 40, 500,
     'non-trivial: well conditioned, w != 0')
def non_local_part_of_a_run(c, t):
    """the routines a run calls give, per q, what the dense equation with core and shell gives"""
    from vpbt.laws import runcfg
    from dga import high_level_routines as hlr
    from dga import mpi_aux
    nk, beta, u, n, s, niw = tuple(c['nk']), float(c['beta']), c['u'], c['niv'], c['nsh'], c['niw']
    wn = np.arange(-niw, niw + 1)
    hr, g, ek = mo.lattice(c['seed'], nk)
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, 6))
    gf = twop.GreensFunction(twop.SelfEnergy(sig, beta, niv_core=6), ek, mu=0.1, niv_asympt=n + s + niw + 3)
    path = t.tmp()
    cfg = runcfg.dga_config(path, nk=nk, niw=niw, niv=n, shell=s, n=1.0, beta=beta, u=u, mu=0.1, siw=sig[0, 0, 0], giw=gf.g_loc,
                            hr=[1.0, 0, 0], symmetries='none', verbosity=0)
    gen = bub.BubbleGenerator(wn=cfg.box.wn, giwk_obj=gf, is_full_wn=True)
    ql = [(x, y, z) for x in range(nk[0]) for y in range(nk[1]) for z in range(nk[2])]
    x0 = gen.get_gchi0_q_list(n + s, ql)
    x0c = mf.cut_v(x0, n, axes=-1)
    loc = x0.mean(axis=0)
    dist = mpi_aux.MpiDistributor(ntasks=len(ql), comm=cfg.comm, output_path=path, name='Q')
    for i, ch in enumerate(('magn', 'dens')):
        ur = f4.sign(ch) * u
        gam = f4.gamma(c['seed'], loc[:, s:s + 2 * n], beta, u, ch, c['strength'], salt=i)
        gpad = f4.pad(gam, ur / beta ** 2, s)
        chi = np.array([f4.dense_chi(x, gpad) for x in x0])
        aux = np.array([f4.dense_chi(x, gam - ur / beta ** 2) for x in x0c])
        chip = chi.sum((-1, -2)) / beta ** 2
        k = max(max(f4.cond(a), f4.cond(b)) for a, b in zip(chi, aux)) * max(f4.cond([np.diag(a) for a in x]) for x in x0)
        bad = k > 1e4 or np.min(np.abs(1 - ur * chip)) < 2e-2
        t.nontrivial(not bad and niw > 0)
        if bad:
            continue
        rt = 1e-8 + 1e-12 * k ** 2 / np.min(np.abs(1 - ur * chip))
        go = f4.four(ch, gam, beta, u, wn, True)
        if ch == 'magn':
            kd = hlr.construct_dc_kernel(go, gen, x0, cfg)
            f = f4.dense_f(loc, gpad)
            want = np.einsum('wvp,qwp->qwv', ur * f, x0)[..., s:s + 2 * n]
            t.close(kd, want, 'double-counting kernel', rtol=rt)
        vrg, x = hlr.construct_vrg_and_chi_q_urange(go, x0c, x0.sum(-1) / beta ** 2, x0c.sum(-1) / beta ** 2, cfg, dist)
        t.close(x, chip, f'{ch}: susceptibility', rtol=rt, scale=max(np.max(np.abs(chip)), np.max(np.abs(x0.sum(-1))) / beta ** 2))
        t.close(vrg, aux.sum(-1) / x0c, f'{ch}: three-leg vertex', rtol=rt)
