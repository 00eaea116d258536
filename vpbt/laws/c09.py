"""C09  the bubble is -beta G(k,v) G(k+q,v-w), its sums and its high-frequency continuation are consistent"""
import numpy as np
from vpbt.core import law, case, st, seeds, data, floats, rng, cplx
from vpbt.laws import models as mo
from dga import two_point as twop
from dga import bubble as bub

nk_st = st.tuples(st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 1, 2, 3])).map(list)
beta_st = floats(1, 30)
NOTES = ['minus', 'plus', 'center']
q_st = st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4), st.integers(-3, 3)).map(list), min_size=1, max_size=4)


def shifts(iw, note):
    """the two fermionic shifts by definition"""
    if note == 'minus':
        return 0, -iw
    if note == 'plus':
        return 0, iw
    half = iw // 2
    return half, half - iw  # difference is exactly w


def wlist(c):
    return np.arange(-c['niw'], c['niw'] + 1) if c['full'] else np.array(c['wl'])


def make(c, kdep=0.6, niv_extra=0):
    """a physical Green's function object with a core and an asymptotic range"""
    nk, beta = tuple(c['nk']), float(c['beta'])
    hr, g, ek = mo.lattice(c['seed'], nk)
    ek = ek - ek.mean() + c.get('e0', 0)
    niv = c['niv']
    sig, _ = mo.pole_sigma(c['seed'], mo.vlist(beta, niv), nk if kdep else (1, 1, 1), kdep=kdep)
    s = twop.SelfEnergy(sig, beta, niv_core=niv)
    gf = twop.GreensFunction(s, ek, mu=c['mu'], niv_asympt=c['na'])
    return gf, ek, beta, nk


def gval(gk, iv):
    """value at fermionic label iv (v = (2 iv + 1) pi/beta)"""
    return gk[..., gk.shape[-1] // 2 + iv]


common = dict(nk=nk_st, beta=beta_st, seed=seeds, mu=floats(-2, 2), niv=st.integers(5, 12), na=st.integers(6, 14),
              niw=st.integers(0, 5), wl=st.lists(st.integers(-5, 5), min_size=1, max_size=4, unique=True), full=st.booleans(),
              note=st.sampled_from(NOTES), nb=st.integers(1, 6), e0=st.one_of(st.just(0.0), floats(-1.5, 1.5)))


@law('C09', case(**common), 150, 3000, 'non-trivial: at least one w != 0 and more than one k-point')
def local_bubble_by_labels(c, t):
    gf, ek, beta, nk = make(c)
    wn, nb, note = wlist(c), c['nb'], c['note']
    t.nontrivial(np.any(wn != 0) and np.ptp(ek) > 0)
    gl = gf.g_full().mean(axis=(0, 1, 2))
    want = np.zeros((len(wn), 2 * nb), complex)
    for i, iw in enumerate(wn):
        s1, s2 = shifts(int(iw), note)
        for j, iv in enumerate(range(-nb, nb)):
            want[i, j] = -beta * gval(gl, iv + s1) * gval(gl, iv + s2)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=note, is_full_wn=c['full'])
    got = gen.get_gchi0(nb)
    t.close(got, want, f'gchi0 ({note})', rtol=1e-11)
    chi0 = gen.get_chi0(nb)
    t.close(chi0, want.sum(-1) / beta ** 2, f'chi0 ({note})', rtol=1e-11)
    t.close(gen.contract_legs(got), chi0, 'contract_legs', rtol=1e-11)
    other = NOTES[(NOTES.index(note) + 1) % 3]
    gen2 = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=other, is_full_wn=c['full'])
    t.close(gen2.get_gchi0(nb, freq_notation=note), want, 'gchi0 with an explicit notation', rtol=1e-11)
    t.close(gen2.get_chi0(nb, freq_notation=note), chi0, 'chi0 with an explicit notation', rtol=1e-11)
    d = gen.get_gchi0_vvp_full(got)
    t.close(d, np.array([np.diag(x) for x in want]), 'gchi0 as a matrix in (v,vp)', rtol=1e-11)


@law('C09', case(**dict(common, q=q_st)), 120, 2500, 'non-trivial: k-dependent band, q != 0 and w != 0')
def lattice_bubble_by_labels(c, t):
    gf, ek, beta, nk = make(c)
    wn, nb, note = wlist(c), c['nb'], c['note']
    qs = c['q']
    t.nontrivial(np.any(wn != 0) and np.ptp(ek) > 0 and any(any(x % n for x, n in zip(q, nk)) for q in qs))
    gk = gf.g_full()
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=note, is_full_wn=c['full'])
    want = np.zeros((len(qs), len(wn), 2 * nb), complex)
    ks = [(x, y, z) for x in range(nk[0]) for y in range(nk[1]) for z in range(nk[2])]
    for iq, q in enumerate(qs):
        kq = [tuple((a + b) % n for a, b, n in zip(k, q, nk)) for k in ks]
        g1 = np.array([gk[k] for k in ks])
        g2 = np.array([gk[k] for k in kq])
        for i, iw in enumerate(wn):
            s1, s2 = shifts(int(iw), note)
            for j, iv in enumerate(range(-nb, nb)):
                want[iq, i, j] = -beta * np.mean(gval(g1, iv + s1) * gval(g2, iv + s2))
    ql = np.array(qs) if c['seed'] % 2 else [list(q) for q in qs]
    got = gen.get_gchi0_q_list(nb, ql)
    t.close(got, want, f'gchi0_q ({note})', rtol=1e-11)
    t.close(gen.get_chi0_q_list(nb, ql), want.sum(-1) / beta ** 2, f'chi0_q ({note})', rtol=1e-11)
    other = NOTES[(NOTES.index(note) + 1) % 3]
    gen2 = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=other, is_full_wn=c['full'])
    t.close(gen2.get_gchi0_q_list(nb, ql, freq_notation=note), want, f'gchi0_q with an explicit notation ({note})', rtol=1e-11)
    t.close(gen2.get_chi0_q_list(nb, ql, freq_notation=note), want.sum(-1) / beta ** 2, f'chi0_q with an explicit notation ({note})', rtol=1e-11)
    if note != 'center':
        gen3 = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation='plus' if note == 'minus' else 'minus', is_full_wn=c['full'])
        a, b = (x.get_chi0q_shell(want.sum(-1) / beta ** 2, nb - 1, 1, ql, freq_notation=note) for x in (gen, gen3))
        t.close(a, gen.get_asymptotic_correction_q(nb, ql), f'shell beyond the box ({note})', rtol=1e-9, scale=max(1e-9, np.max(np.abs(want.sum(-1))) / beta ** 2))
        t.close(b, a, f'shell with an explicit notation ({note})', rtol=1e-9, scale=max(1e-9, np.max(np.abs(want.sum(-1))) / beta ** 2))


@law('C09', case(**common), 60, 800, 'non-trivial: more than one k-point, w != 0')
def momentum_average_is_the_local_bubble(c, t):
    gf, ek, beta, nk = make(c)
    wn, nb = wlist(c), c['nb']
    t.nontrivial(np.ptp(ek) > 0 and np.any(wn != 0))
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=c['note'], is_full_wn=c['full'])
    qs = [[x, y, z] for x in range(nk[0]) for y in range(nk[1]) for z in range(nk[2])]
    gq = gen.get_gchi0_q_list(nb, qs)
    t.close(gq.mean(axis=0), gen.get_gchi0(nb), 'mean over q of gchi0_q', rtol=1e-10)
    t.close(gen.get_chi0_q_list(nb, qs).mean(axis=0), gen.get_chi0(nb), 'mean over q of chi0_q', rtol=1e-10)
    t.close(gen.get_ek_ekpq(qs), [np.mean(ek * np.roll(ek, [-a for a in q], axis=(0, 1, 2))) for q in qs], 'mean of ek ek+q',
            rtol=1e-10, atol=1e-13)
    # symmetry of the physical bubble: complex conjugation maps (w,v) -> (-w,-v)
    if c['note'] != 'center':
        gm = bub.BubbleGenerator(wn=-wn, giwk_obj=gf, freq_notation=c['note']).get_gchi0_q_list(nb, qs)
        t.close(gm[..., ::-1].conj(), gq, 'conj chi0(q,-w,-v)', rtol=1e-10)


def tail_product(gf, ek, beta, wn, note, vfrom, vto, q=None):
    """direct 1/v expansion of the product, summed over labels vfrom <= |v| < vto"""
    a = gf.mu - gf.sigma.smom0
    s1 = gf.sigma.smom1
    lab = np.concatenate((np.arange(-vto, -vfrom), np.arange(vfrom, vto)))
    out = []
    ekq = ek if q is None else np.roll(ek, [-x for x in q], axis=(0, 1, 2))
    for iw in wn:
        x1, x2 = shifts(int(iw), note)
        i1, i2 = 1j * np.pi / beta * (2 * (lab + x1) + 1), 1j * np.pi / beta * (2 * (lab + x2) + 1)
        e1 = np.mean(ek)
        e2 = np.mean(ek ** 2)
        ee = e1 ** 2 if q is None else np.mean(ek * ekq)
        # G = c1/i + c2/i^2 + c3/i^3 ; averages over k
        val = 1 / (i1 * i2) - (a - e1) * (1 / (i1 ** 2 * i2) + 1 / (i1 * i2 ** 2))
        val += (a * a - 2 * a * e1 + e2 - s1) * (1 / (i1 ** 3 * i2) + 1 / (i1 * i2 ** 3))
        val += (a * a - 2 * a * e1 + ee) / (i1 ** 2 * i2 ** 2)
        out.append(-np.sum(val) / beta)
    return np.array(out)


@law('C09', case(**dict(common, q=q_st, n=st.integers(20, 60))), 60, 600, 'non-trivial: q != 0 and w != 0')
def asymptotic_sum_and_its_limit(c, t):
    """the correction is the part of the 1/v expansion beyond the summed box"""
    gf, ek, beta, nk = make(c, kdep=0.0)
    wn, n, note, qs = wlist(c), c['n'], c['note'], c['q']
    t.nontrivial(np.any(wn != 0) and any(any(x % m for x, m in zip(q, nk)) for q in qs) and np.ptp(ek) > 0)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=note, is_full_wn=c['full'])
    big = 4000
    loc = gen.get_asympt_sum(n)
    t.close(loc, tail_product(gf, ek, beta, wn, note, 0, n), 'asymptotic sum', rtol=1e-9)
    unit = beta / (2 * n)  # scale of the leading 1/v^2 tail beyond n
    rest = beta / (np.pi ** 2 * (big - 6)) / 2 * 1.5
    cor = gen.get_asymptotic_correction(n)
    t.close(cor, tail_product(gf, ek, beta, wn, note, n, big), 'asymptotic correction = expansion beyond the box', rtol=2e-2,
            atol=rest, scale=unit / np.pi ** 2)
    t.close(cor, gen.get_exact_asymptotics() - loc, 'correction = exact - sum', rtol=1e-10)
    other = NOTES[(NOTES.index(note) + 1) % 3]
    gen2 = bub.BubbleGenerator(wn=wn, giwk_obj=gf, freq_notation=other, is_full_wn=c['full'])
    t.close(gen2.get_asymptotic_correction(n, freq_notation=note), cor, 'correction with an explicit notation', rtol=1e-10, scale=unit / np.pi ** 2)
    t.close(gen2.get_asymptotic_correction_q(n, qs, freq_notation=note), gen.get_asymptotic_correction_q(n, qs), 'correction at q with an explicit notation', rtol=1e-10,
            scale=unit / np.pi ** 2)
    t.close(gen2.get_chi0(n if n <= gf.niv_full - 6 else 1, freq_notation=note, do_asympt=True),
            gen.get_chi0(n if n <= gf.niv_full - 6 else 1, do_asympt=True), 'bubble and its correction with an explicit notation', rtol=1e-10, scale=unit)
    # convergence to the analytic sum: the truncated sum plus the leading 1/v^2 remainder
    for iq, q in enumerate(qs):
        sq = gen.get_asympt_sum_q(n, [q])[0]
        t.close(sq, tail_product(gf, ek, beta, wn, note, 0, n, q), 'asymptotic sum at q', rtol=1e-9)
        cq = gen.get_asymptotic_correction_q(n, [q])[0]
        t.close(cq, gen.get_exact_asymptotics_q([q])[0] - sq, 'correction at q = exact - sum', rtol=1e-10)
        full = tail_product(gf, ek, beta, wn, note, 0, big, q)
        t.close(gen.get_exact_asymptotics_q([q])[0], full, 'analytic sum at q', rtol=1e-6, atol=rest * 1.01 + 1e-9 * np.max(np.abs(full)), scale=0)
    full = tail_product(gf, ek, beta, wn, note, 0, big)
    t.close(gen.get_exact_asymptotics(), full, 'analytic sum', rtol=1e-6, atol=rest * 1.01 + 1e-9 * np.max(np.abs(full)), scale=0)
    # all q at once is the same as one by one
    t.close(gen.get_asymptotic_correction_q(n, qs), np.array([gen.get_asymptotic_correction_q(n, [q])[0] for q in qs]),
            'several q at once', rtol=1e-11)


@law('C09', case(nk=nk_st, beta=floats(1, 10), seed=seeds, mu=floats(-1, 1), q=q_st, niw=st.integers(0, 3), n=st.integers(60, 120),
                 note=st.sampled_from(['minus', 'plus']), e0=st.one_of(st.just(0.0), floats(-1.5, 1.5))), 60, 600, 'non-trivial: q != 0, more than one k-point')
def free_electrons_give_the_lindhard_function(c, t):
    nk, beta, mu, qs, n = tuple(c['nk']), float(c['beta']), c['mu'], c['q'], c['n']
    hr, g, ek = mo.lattice(c['seed'], nk)
    ek = ek - ek.mean() + c.get('e0', 0)  # an on-site energy and the same chemical potential
    t.nontrivial(np.ptp(ek) > 0 and any(any(x % m for x, m in zip(q, nk)) for q in qs))
    s = twop.SelfEnergy(np.zeros((1, 1, 1, 20), complex), beta, niv_core=10, smom0=0.0, smom1=0.0)
    gf = twop.GreensFunction(s, ek, mu=mu, niv_asympt=n + 10)
    wn = np.arange(-c['niw'], c['niw'] + 1)
    gen = bub.BubbleGenerator(wn=wn, giwk_obj=gf, is_full_wn=True, freq_notation=c['note'])

    def lind(e1, e2, iw):
        """-T sum_v 1/(iv-e1) 1/(iv-iw-e2); w -> -w by symmetry of the sum"""
        x = 2j * np.pi * iw / beta
        d = e1 - e2 - x
        f1, f2 = mo.fermi(e1, beta), mo.fermi(e2, beta)
        reg = np.abs(d) > 1e-6
        dd = np.where(reg, d, 1.0)
        deg = beta * f1 * (1 - f1)
        return np.where(reg, -(f1 - f2) / dd, deg)

    scale = max(1.0, np.max(np.abs(ek)) + abs(mu)) ** 3
    tol = 3e-2 * scale * beta ** 3 / n ** 3 * max(1, c['niw'])
    core = gen.get_chi0_q_list(10, qs)
    sh = gen.get_chi0q_shell(core, 10, n - 10, qs)
    got = gen.get_chi0_q_list(n, qs) + gen.get_asymptotic_correction_q(n, qs)
    t.close(core + sh, got, 'core + shell', rtol=1e-9)
    sgn = 1 if c['note'] == 'minus' else -1
    for i, q in enumerate(qs):
        e2 = np.roll(ek, [-x for x in q], axis=(0, 1, 2))
        want = np.array([np.mean(lind(ek - mu, e2 - mu, sgn * iw)) for iw in wn])
        t.close(got[i], want, f'Lindhard function at q={q}', rtol=0, atol=tol + 1e-9)
    gl = np.array([np.mean(lind(ek.reshape(-1, 1) - mu, ek.reshape(1, -1) - mu, sgn * iw)) for iw in wn])
    t.close(gen.get_chi0(n, do_asympt=True), gl, 'local Lindhard function', rtol=0, atol=tol + 1e-9)


@law('C09', case(which=st.sampled_from(['wn', 'method', 'notation', 'pos']), n=st.integers(1, 5)), 12, 40, 'non-trivial: always')
def unsupported_requests_fail(c, t):
    s = twop.SelfEnergy(np.zeros((1, 1, 1, 20), complex), 5.0, niv_core=10, smom0=0.0, smom1=0.0)
    gf = twop.GreensFunction(s, np.zeros((1, 1, 1)), mu=0.1, niv_asympt=10)
    if c['which'] == 'wn':
        t.raises(AssertionError, lambda: bub.BubbleGenerator(np.arange(0, c['n'] + 1), gf, is_full_wn=True), 'asymmetric full range')
    elif c['which'] == 'method':
        t.raises(ValueError, lambda: bub.BubbleGenerator(np.arange(-1, 2), gf, chi0_method='x' * c['n']), 'unknown method')
    elif c['which'] == 'notation':
        t.raises(ValueError, lambda: bub.BubbleGenerator(np.arange(-1, 2), gf, freq_notation='x' * c['n']), 'unknown notation')
    else:
        w = np.arange(-c['n'], c['n'] + 1)
        t.raises(ValueError, lambda: bub.BubbleGenerator(w, gf).wn_pos, 'positive frequencies of a partial range')
        t.equal(bub.BubbleGenerator(w, gf, is_full_wn=True).wn_pos, np.arange(0, c['n'] + 1), 'wn_pos')
