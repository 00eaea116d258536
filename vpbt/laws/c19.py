"""C19: current-current correlation function and optical conductivity"""
import numpy as np
from hypothesis import strategies as st
from vpbt.core import law, case, floats, seeds, rng, cplx
from vpbt.laws.models import lattice, velocity, pole_sigma, vlist
from vpbt.laws.runcfg import dga_config, FakeComm
from dga import analytic_continuation as a_cont
from dga import optics
from dga import brillouin_zone as bz
from dga import wannier
from dga import two_point as twop

# grids on which the velocities do not vanish; the product of different velocities averages to zero when the functions have the symmetry of the band
nk_st = st.sampled_from([[3, 4, 1], [3, 3, 1], [5, 3, 1], [4, 4, 1], [3, 3, 2], [4, 3, 3], [3, 2, 4], [1, 1, 1], [3, 1, 1]])
pair_st = st.sampled_from([(0, 0), (1, 1), (0, 0), (1, 1), (0, 1), (1, 0), (2, 2), (0, 2), (2, 1)])


def green(c, niv, exact=False):
    """exact: niv frequencies and no more"""
    beta = float(c['beta'])
    nk = tuple(c['nk'])
    hr, grid, ek = lattice(c['seed'], nk)
    n0 = max(1, niv - 2) if exact else niv + 3
    sig, _ = pole_sigma(c['seed'], vlist(beta, n0), nk=nk, kdep=0.3)
    se = twop.SelfEnergy(sig, beta)
    g = twop.GreensFunction(se, ek, mu=c['mu'], niv_asympt=max(0, niv - se.niv_core) if exact else n0 + 2)
    full = g.g_full()
    h = full.shape[-1] // 2
    return hr, grid, g, lambda iv: full[..., iv + h], h


SHIFT = {'minus': lambda w: (0, -w), 'plus': lambda w: (0, w), 'center': lambda w: (w // 2, -(w - w // 2))}


@law('C19', case(nk=nk_st, beta=floats(1, 15), seed=seeds, mu=floats(-1, 1), niv=st.integers(1, 12), wl=st.lists(st.integers(-5, 5), min_size=1, max_size=5),
                 der=pair_st, note=st.sampled_from(['minus', 'plus', 'center', None]), extra=st.sampled_from([None, 0, 0, 1])), 120, 2500,
     'non-trivial: w != 0 and several momenta')
def bubble_by_labels(c, t):
    """chi_jj(w) = -2/beta sum_v <v_a(k) v_b(k) G(k,v) G(k,v-w)>_k"""
    beta = float(c['beta'])
    note = c['note'] or 'minus'
    need = c['niv'] + max(abs(x) for w in c['wl'] for x in SHIFT[note](w))
    hr, grid, g, gv, h = green(c, c['niv'] + 8) if c['extra'] is None else green(c, need + c['extra'], exact=True)
    t.label('box of the Green\'s function is used up', h == need)
    t.nontrivial(any(c['wl']) and np.prod(c['nk']) > 1)
    kw = {} if c['note'] is None else dict(freq_notation=note)
    got = optics.vec_get_chijj_bubble(g, hr, grid, c['wl'], c['niv'], der_a=c['der'][0], der_b=c['der'][1], **kw)
    vv = velocity(c['seed'], c['nk'], c['der'][0]) * velocity(c['seed'], c['nk'], c['der'][1])
    want = []
    for w in c['wl']:
        a, b = SHIFT[note](w)
        want.append(-2 / beta * np.mean(vv * sum(gv(iv + a) * gv(iv + b) for iv in range(-c['niv'], c['niv']))))
    t.close(got, np.array(want), 'bubble', rtol=1e-9, atol=1e-9 * np.max(np.abs(vv)) / beta + 1e-20)


@law('C19', case(nk=nk_st, beta=floats(1, 15), seed=seeds, mu=floats(-1, 1), niv=st.integers(1, 4), nwv=st.integers(0, 3), nwc=st.integers(0, 3),
                 der=pair_st, parts=st.integers(1, 3)), 60, 1000,
     'non-trivial: several momenta, both bosonic ranges beyond zero')
def vertex_correction_by_labels(c, t):
    """-2/(beta^2 N_q) sum over q, w', v of the k-average of v_a(k) v_b(k+q) GG(k) GG(k+q) F(q, w', w, v);
    the sum of the ab and ba components, which does not depend on which velocity sits on which side of the vertex"""
    nk = tuple(c['nk'])
    beta = float(c['beta'])
    niv, nwv, nwc = c['niv'], c['nwv'], c['nwc']
    hr, grid, g, gv, h = green(c, niv + nwv + nwc + 1)
    t.nontrivial(np.prod(nk) > 1 and nwv > 0 and nwc > 0)
    nq = int(np.prod(nk))
    f = cplx(rng(c['seed'], 9), nk + (2 * nwv + 1, nwc + 1, 2 * niv))
    f = f + np.roll(np.flip(f, axis=(0, 1, 2)), 1, axis=(0, 1, 2))  # F(q) = F(-q)
    flist = f.reshape((nq,) + f.shape[3:])
    qs = grid.get_q_list()
    wv, wc = np.arange(-nwv, nwv + 1), np.arange(0, nwc + 1)
    got = 0
    for part in np.array_split(np.arange(nq), min(c['parts'], nq)):  # shares of the processes add up
        for der_a, der_b in (c['der'], c['der'][::-1]):
            got = got + optics.vec_get_chijj_vert(flist[part], g, hr, grid, wn_vert=wv, wn_cond=wc, q_list=qs[part], der_a=der_a,
                                                  der_b=der_b)
    va, vb = [velocity(c['seed'], nk, d) for d in c['der']]
    want = np.zeros(nwc + 1, complex)
    idx = np.array(list(np.ndindex(*nk)))
    G = {iv: gv(iv) for iv in range(-niv - nwv - nwc, niv + nwv)}
    for q in idx:
        kq = (idx + q) % np.array(nk)
        ka, kb = tuple(idx.T), tuple(kq.T)
        for iw, w in enumerate(wc):
            for iwp, wp in enumerate(wv):
                for i, v in enumerate(range(-niv, niv)):
                    want[iw] += np.mean((va[ka] * vb[kb] + vb[ka] * va[kb]) * G[v - w][ka] * G[v][ka] * G[v - wp][kb] * G[v - wp - w][kb]) * \
                        f[tuple(q)][iwp, iw, i]
    want *= -2 / (beta ** 2 * nq)
    t.close(got, want, 'vertex correction', rtol=1e-8, atol=1e-10)


def real_axis(c):
    nk = tuple(c['nk'])
    hr, grid, ek = lattice(c['seed'], nk)
    w = np.linspace(-c['wmax'], c['wmax'], 2 * c['nw'] + 1)
    r = rng(c['seed'], 4)
    e0, v2 = r.uniform(-2, 2), r.uniform(0, 1)
    sw = v2 / (w - e0 + 1j * c['eta']) + r.uniform(-0.5, 0.5)
    return hr, grid, ek, w, sw[None, None, None, :]


rcommon = dict(nk=nk_st, seed=seeds, wmax=floats(8, 15), nw=st.integers(30, 80), eta=floats(0.2, 0.6), beta=floats(1, 15), mu=floats(-1, 1))


@law('C19', case(**dict(rcommon, frac=floats(0.1, 0.7), der=st.sampled_from([0, 1, 0, 1, 2]))), 80, 1200, 'non-trivial: several momenta')
def real_frequency_bubble(c, t):
    """chi_jj(w) = -2 <v v int dv n_F(v) A(v) [G_R(v+w) + G_A(v-w)]> on the grid points in (0, w_max); Im chi_jj is the Kubo formula"""
    hr, grid, ek, w, sw = real_axis(c)
    beta, n = float(c['beta']), c['nw']
    t.nontrivial(np.prod(c['nk']) > 1)
    g = twop.RealFrequencyGF(w, sw, ek, mu=c['mu'], deltino=c['eta'])
    wmb = c['frac'] * c['wmax']
    chi, wb = optics.vec_get_chijj_bubble_realf(g, hr, grid, beta, wmb, der_a=c['der'], der_b=c['der'])
    m = int(np.argmin(np.abs(w - wmb)))
    nb = m - n - 1
    t.check(len(chi) == len(wb) == nb, 'number of frequencies')
    t.close(wb, w[n + 1:m], 'frequencies', rtol=1e-12)
    gk = 1 / (w + c['mu'] - ek[..., None] - (sw - 1j * c['eta']))
    a = -gk.imag / np.pi
    vv = velocity(c['seed'], c['nk'], c['der']) ** 2
    win = 2 * n - m  # integration window: indices within +-win of w = 0
    dw = w[1] - w[0]
    iv = np.arange(n - win, n + win + 1)
    wt = np.full(len(iv), dw)
    wt[0] = wt[-1] = dw / 2
    if len(iv) == 1:
        wt[:] = 0
    nf = 1 / (1 + np.exp(np.clip(beta * w[iv], -700, 700)))
    want = [-2 * np.mean(vv * np.sum(wt * nf * a[..., iv] * (gk[..., iv + i] + np.conj(gk[..., iv - i])), axis=-1)) for i in range(1, nb + 1)]
    t.close(chi, np.array(want, dtype=complex), 'chi_jj', rtol=1e-9, atol=1e-12)
    # conductivity
    if nb >= 4:
        s, ws = optics.vec_get_sigma_bub_realf(g, hr, grid, beta, wmb, der_a=c['der'], der_b=c['der'])
        t.close(ws, np.concatenate(([0.0], wb)), 'frequencies of sigma', rtol=1e-12)
        t.close(s[1:], np.array(want).imag / wb, 'sigma', rtol=1e-8, atol=1e-10)


@law('C19', case(**dict(rcommon, eta=floats(0.4, 1.5), nw=st.integers(80, 200), even=st.booleans(), low=floats(-0.2, 0.2), mesh=st.sampled_from(['linear', 'tan', 'hyperbolic', 'lorentzian']), frac=floats(0.1, 0.6), der=st.sampled_from([0, 1, 0, 1, 2]))), 40, 600,
     'non-trivial: several momenta and not the symmetric linear mesh')
def real_frequency_bubble_on_any_mesh(c, t):
    """the same on the meshes of the continuation, where a step of the index is not a fixed step of the frequency"""
    nk, beta = tuple(c['nk']), float(c['beta'])
    hr, grid, ek = lattice(c['seed'], nk)
    w = a_cont.get_w_mesh(c['mesh'], -c['wmax'] * (1 + c['low']), c['wmax'], 2 * c['nw'] + (0 if c['even'] else 1), 0.1)
    t.label(c['mesh'])
    t.nontrivial(np.prod(nk) > 1 and c['mesh'] != 'linear')
    r = rng(c['seed'], 4)
    e0, v2, re = r.uniform(-2, 2), r.uniform(0, 1), r.uniform(-0.5, 0.5)
    g = twop.RealFrequencyGF(w, (v2 / (w - e0 + 1j * c['eta']) + re)[None, None, None, :], ek, mu=c['mu'], deltino=c['eta'])

    def exact(x):
        return 1 / (x + c['mu'] - ek[..., None] - (v2 / (x - e0 + 1j * c['eta']) + re - 1j * c['eta']))

    def linear(x):
        y, j = exact(w), np.clip(np.searchsorted(w, x) - 1, 0, len(w) - 2)
        f = (x - w[j]) / (w[j + 1] - w[j])
        return y[..., j] * (1 - f) + y[..., j + 1] * f
    chi, wb = optics.vec_get_chijj_bubble_realf(g, hr, grid, beta, c['frac'] * c['wmax'], der_a=c['der'], der_b=c['der'])
    n0, m = int(np.argmin(np.abs(w))), int(np.argmin(np.abs(w - c['frac'] * c['wmax'])))
    t.close(wb, w[n0 + 1:m], 'frequencies', rtol=1e-12)
    if not len(wb):
        return
    top = min(-w[0], w[-1]) - w[m]
    x = w[np.abs(w) <= top + 1e-10]
    if np.any(np.abs(np.abs(w) - top) < 1e-6) and c['mesh'] != 'linear':
        return  # the end of the window is not determined to rounding
    if len(x) < 2:
        return
    vv = velocity(c['seed'], c['nk'], c['der']) ** 2
    nf = 1 / (1 + np.exp(np.clip(beta * x, -700, 700)))
    a = -exact(x).imag / np.pi

    def sums(f):
        return np.array([-2 * np.mean(vv * np.trapz(nf * a * (f(x + y) + np.conj(f(x - y))), x, axis=-1)) for y in wb])
    want = sums(exact)
    err = np.max(np.abs(sums(linear) - want))
    t.close(chi, want, 'chi_jj', rtol=0, atol=1.5 * err + 1e-6 * np.max(np.abs(want)) + 1e-12)


@law('C19', case(n=st.integers(6, 40), wmax=floats(1, 10), a=st.lists(floats(-2, 2), min_size=1, max_size=2), re=seeds), 60, 600,
     'non-trivial: w-dependent conductivity')
def conductivity_is_im_chi_over_w(c, t):
    """exact for conductivities that the cubic interpolation represents: even polynomials up to second order"""
    w = np.linspace(0, c['wmax'], c['n'] + 1)[1:]
    t.nontrivial(len(c['a']) > 1)
    sig = lambda x: sum(a * x ** (2 * i) for i, a in enumerate(c['a']))  # noqa
    chi = rng(c['re']).standard_normal(c['n']) + 1j * w * sig(w)
    s, ws = optics.get_sigma_from_chijj_realf(chi, w)
    t.close(ws, np.concatenate(([0.0], w)), 'frequencies', rtol=1e-14)
    t.close(s, sig(ws), 'sigma', rtol=1e-8, atol=1e-9)


@law('C19', case(**dict(rcommon, nw=st.integers(80, 160), x=floats(0, 1))), 60, 800, 'non-trivial: several momenta')
def real_frequency_green_function(c, t):
    """G = 1/(w + mu - e_k - Sigma + i delta); the filling belongs to the adjusted chemical potential; local part, spectra, Fermi surface"""
    hr, grid, ek, w, sw = real_axis(c)
    t.nontrivial(np.prod(c['nk']) > 1)

    def fill(mu):
        a = np.mean(1 / (w + mu - ek[..., None] - (sw - 1j * c['eta'])), axis=(0, 1, 2)).imag[w <= 0]
        return -2 / np.pi * np.sum((a[1:] + a[:-1]) / 2 * np.diff(w[w <= 0]))

    g = twop.RealFrequencyGF(w, sw, ek, mu=c['mu'], deltino=c['eta'])
    want = 1 / (w + c['mu'] - ek[..., None] - (sw - 1j * c['eta']))
    t.close(g.gwk(), want, 'G(w,k)', rtol=1e-12)
    t.close(g.awk(), -want.imag / np.pi, 'A(w,k)', rtol=1e-12)
    t.close(g.gw, want.mean((0, 1, 2)), 'G(w)', rtol=1e-12)
    t.close(g.aw, -want.mean((0, 1, 2)).imag / np.pi, 'A(w)', rtol=1e-12)
    t.close(g.fs(), -want.imag[..., c['nw']] / np.pi, 'Fermi surface', rtol=1e-12)
    nk = c['nk']
    sh = [nk[0] // 2, nk[1] // 2, nk[2] // 2]
    if all(n % 2 == 0 or n == 1 for n in nk):
        t.close(g.gwk(pi_shift=True), np.roll(want, sh, axis=(0, 1, 2)), 'shifted by pi', rtol=1e-12)
    t.close(g.n, fill(c['mu']), 'filling', rtol=1e-10)
    lo, hi = fill(-1.5), fill(1.5)
    n = lo + (hi - lo) * c['x']
    g = twop.RealFrequencyGF(w, sw, ek, n=n, deltino=c['eta'])
    mu = float(np.squeeze(g.mu))
    t.check(abs(fill(mu) - n) < 3e-4, f'filling {fill(mu)} at the adjusted mu = {mu}, requested {n}')
    t.close(g.gwk(), 1 / (w + mu - ek[..., None] - (sw - 1j * c['eta'])), 'G with the adjusted mu', rtol=1e-10)
    tb = g.get_gwk_tb(deltino=c['eta'])
    mu = float(np.squeeze(tb.mu))
    free = lambda m: 1 / (w + m - ek[..., None] + 1j * c['eta'])  # noqa
    t.close(tb.gwk(), free(mu), 'non-interacting Green\'s function', rtol=1e-10)

    def fill0(m):
        a = np.mean(free(m), axis=(0, 1, 2)).imag[w <= 0]
        return -2 / np.pi * np.sum((a[1:] + a[:-1]) / 2 * np.diff(w[w <= 0]))
    if fill0(-1.5) < n < fill0(1.5):
        t.check(abs(fill0(mu) - n) < 3e-4, f'filling {fill0(mu)} of the non-interacting system at mu = {mu}, requested {n}')


@law('C19', case(niw=st.integers(0, 8), niv=st.integers(1, 8), shell=st.integers(0, 8), nwv=st.integers(-1, 8), nwc=st.integers(-1, 7),
                 nwb=st.integers(-1, 12), nvb=st.one_of(st.just(-1), st.integers(1, 60))), 200, 2000,
     'non-trivial: some ranges given, some inferred')
def frequency_ranges_fit_the_available_boxes(c, t):
    """given ranges are kept, missing ones inferred, and all sums stay inside the available Green's function and vertex"""
    t.nontrivial(-1 in (c['nwv'], c['nwc'], c['nwb'], c['nvb']) and max(c['nwv'], c['nwc'], c['nwb']) > 0)
    path = t.tmp()
    kw = dict(niw_vert=c['nwv'], niw_cond=c['nwc'], niw_bubble=c['nwb'], niv_bubble=c['nvb'])
    cfg = dga_config(path, comm=FakeComm(), nk=[2, 2, 1], niw=c['niw'], niv=c['niv'], shell=c['shell'], optics=kw)
    nasy = cfg.box.niv_asympt
    t.check(nasy == c['niv'] + c['shell'] + 2 * c['niw'], 'default asymptotic range')
    if c['nwv'] > c['niw'] or c['nwc'] >= c['niv']:
        t.raises(AssertionError, lambda: cfg.optics.set_frequency_ranges(cfg), 'ranges beyond the available ones')
        return
    cfg.optics.set_frequency_ranges(cfg)
    o = cfg.optics
    for name, given in (('niw_vert', c['nwv']), ('niw_cond', c['nwc']), ('niw_bubble', c['nwb']), ('niv_bubble', c['nvb'])):
        if given != -1:
            t.check(getattr(o, name) == given, f'{name} = {getattr(o, name)} differs from the requested {given}')
    t.check(0 <= o.niw_vert <= c['niw'] and o.niw_cond >= 0 and o.niw_bubble >= 0, 'bosonic ranges')
    t.check(o.niv_vert + o.niw_cond <= c['niv'], 'vertex range beyond the core box')
    t.check(o.niv_bubble + o.niw_bubble <= cfg.box.niv_asympt and cfg.box.niv_asympt >= nasy, 'bubble range beyond the Green function')
    t.equal(o.wn_cond(pos=True), np.arange(0, o.niw_cond + 1), 'external frequencies')
    t.equal(o.wn_vert(), np.arange(-o.niw_vert, o.niw_vert + 1), 'internal frequencies')
    t.equal(o.wn_bubble(pos=True), np.arange(0, o.niw_bubble + 1), 'bubble frequencies')


@law('C19', case(nk=nk_st, seed=seeds, u=st.one_of(floats(0, 4), floats(4, 12)), eta=floats(0.05, 0.4), n=floats(0.4, 1.6), nw=st.integers(150, 300), near=st.one_of(st.none(), floats(-3, 3))), 100, 1200,
     'non-trivial: a gap at the chemical potential of half filling')
def filling_of_a_mott_insulator(c, t):
    """the adjusted chemical potential reaches the filling also when the spectrum has gaps"""
    nk = tuple(c['nk'])
    hr, grid, ek = lattice(c['seed'], nk)
    w = np.linspace(-16, 16, 2 * c['nw'] + 1)
    u = c['u']
    t.nontrivial(u > 4)
    sw = (u / 2 + u * u / 4 / (w + 1j * c['eta']))[None, None, None, :]

    def fill(mu):
        a = np.mean(1 / (w + mu - ek[..., None] - (sw - 1j * c['eta'])), axis=(0, 1, 2)).imag[w <= 0]
        return -2 / np.pi * np.sum((a[1:] + a[:-1]) / 2 * np.diff(w[w <= 0]))

    lo, hi = fill(-4), fill(4 + u)
    if c.get('near') is not None:  # a filling that belongs to a chemical potential in or close to the gap
        c = dict(c, n=fill(u / 2 + c['near']))
    if not lo + 0.05 < c['n'] < hi - 0.05:
        t.nontrivial(False)
        return
    g = twop.RealFrequencyGF(w, sw, ek, n=c['n'], deltino=c['eta'])
    got = fill(float(np.squeeze(g.mu)))
    t.check(abs(got - c['n']) < 3e-4, f'filling {got} at the adjusted mu = {g.mu}, requested {c["n"]}')
