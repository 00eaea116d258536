"""C05  Tight-binding Hamiltonians are the Fourier sums of their hoppings; velocities are their derivatives"""
import numpy as np
from vpbt.core import law, case, st, seeds, data, floats, rng
from dga import wannier
from dga import brillouin_zone as bz

hop = floats(-2, 2)
nk_st = st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 3)).map(list)


def random_hr(seed, nb, nr, rmax=3, uniform_r=True):
    """hermitian real-space Hamiltonian: R set closed under -R, H(-R)=H(R)^dagger, equal weights of +-R"""
    r = rng(seed, 77)
    rs = [(0, 0, 0)]
    while len(rs) < nr:
        v = tuple(int(x) for x in r.integers(-rmax, rmax + 1, 3))
        if v not in rs:
            rs += [v, tuple(-x for x in v)]
    n = len(rs)
    hr = np.zeros((n, nb, nb), complex)
    w = np.ones((n, 1))
    a = data(seed, (nb, nb))
    hr[0] = a + a.conj().T
    for i in range(1, n, 2):
        hr[i] = data(seed, (nb, nb), 'complex', 10 + i)
        hr[i + 1] = hr[i].conj().T
        w[i] = w[i + 1] = float(r.integers(1, 5))
    grid = np.zeros((n, nb, nb, 3))
    for i, v in enumerate(rs):
        grid[i] = v
    orbs = np.zeros((n, nb, nb, 2))
    for i in range(nb):
        for j in range(nb):
            orbs[:, i, j] = (i + 1, j + 1)
    return hr, grid, w, orbs


def naive_hk(hr, grid, w, kl):
    nb = hr.shape[-1]
    out = np.zeros((kl.shape[1], nb, nb), complex)
    for ik in range(kl.shape[1]):
        for i in range(hr.shape[0]):
            for a in range(nb):
                for b in range(nb):
                    out[ik, a, b] += hr[i, a, b] * np.exp(1j * np.dot(grid[i, a, b], kl[:, ik])) / w[i, 0]
    return out


@law('C05', case(nb=st.integers(1, 4), nr=st.integers(1, 9), nk=nk_st, seed=seeds), 120, 2000,
     'non-trivial: more than one hopping vector and more than one k-point')
def fourier_sum_is_hermitian(c, t):
    hr, grid, w, orbs = random_hr(c['seed'], c['nb'], c['nr'])
    g = bz.KGrid(tuple(c['nk']))
    wh = wannier.WannierHr(hr, grid, w, orbs)
    t.nontrivial(len(hr) > 1 and g.nk_tot > 1)
    want = naive_hk(hr, grid, w, g.kmesh_list)
    got = wh.get_ek(g, one_band=False)
    nb = c['nb']
    t.close(got, want.reshape(tuple(c['nk']) + (nb, nb)), 'H(k) != sum_R exp(ikR) H(R)/w(R)', rtol=1e-12)
    t.close(got, np.conj(np.swapaxes(got, -1, -2)), 'H(k) not hermitian', rtol=1e-12)
    t.close(wh.get_ek(g), want[:, 0, 0].reshape(tuple(c['nk'])), 'one-band H(k)', rtol=1e-12, atol=1e-12)
    t.close(wannier.convham(hr, grid, w, g.kmesh_list), want, 'convham', rtol=1e-12)
    t.close(wannier.convham2(hr, grid, w, g.kmesh_list), want, 'convham2', rtol=1e-12)
    t.close(wannier.convham(hr, grid, w, g.kmesh_list + 2 * np.pi), want, 'H(k) not periodic', rtol=1e-11)


@law('C05', case(nb=st.integers(1, 3), nr=st.integers(1, 9), nk=nk_st, seed=seeds, der=st.integers(0, 2)), 120, 2000,
     'non-trivial: the derivative does not vanish identically')
def light_vertex_is_the_derivative(c, t):
    hr, grid, w, orbs = random_hr(c['seed'], c['nb'], c['nr'])
    g = bz.KGrid(tuple(c['nk']))
    wh = wannier.WannierHr(hr, grid, w, orbs)
    nb, d = c['nb'], c['der']
    lv = wh.get_light_vertex(g, der=d, one_band=False)
    want = naive_hk(hr * 1j * grid[..., d], grid, w, g.kmesh_list)
    t.nontrivial(np.max(np.abs(want)) > 0)
    t.close(lv, want.reshape(tuple(c['nk']) + (nb, nb)), 'light vertex', rtol=1e-12, atol=1e-12)
    t.close(wh.get_light_vertex(g, der=d), want[:, 0, 0].reshape(tuple(c['nk'])), 'one-band light vertex', rtol=1e-12, atol=1e-11)
    h = 1e-5
    e = np.zeros((3, 1))
    e[d] = h
    num = (naive_hk(hr, grid, w, g.kmesh_list + e) - naive_hk(hr, grid, w, g.kmesh_list - e)) / (2 * h)
    t.close(lv.reshape(-1, nb, nb), num, 'light vertex vs numerical derivative', rtol=1e-6, atol=1e-6)


@law('C05', case(t0=hop, tp=hop, tpp=hop, nk=nk_st), 200, 3000, 'non-trivial: t, tp and tpp all non-zero')
def square_lattice_closed_form(c, t):
    g = bz.KGrid(tuple(c['nk']))
    p = (c['t0'], c['tp'], c['tpp'])
    t.nontrivial(all(p))
    kx, ky = g.kmesh[0], g.kmesh[1]
    want = -2 * p[0] * (np.cos(kx) + np.cos(ky)) - 4 * p[1] * np.cos(kx) * np.cos(ky) - 2 * p[2] * (np.cos(2 * kx) + np.cos(2 * ky))
    dx = 2 * p[0] * np.sin(kx) + 4 * p[1] * np.sin(kx) * np.cos(ky) + 4 * p[2] * np.sin(2 * kx)
    dy = 2 * p[0] * np.sin(ky) + 4 * p[1] * np.sin(ky) * np.cos(kx) + 4 * p[2] * np.sin(2 * ky)
    wh = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*p))
    kw = dict(rtol=1e-11, atol=1e-12)
    t.close(wh.get_ek(g), want, 't-tp-tpp band', **kw)
    t.close(wannier.ek_square(kx, ky, *p), want, 'ek_square', **kw)
    t.close(wannier.del_ek_del_kx_square(kx, ky, *p), dx, 'del_ek_del_kx_square', **kw)
    t.close(wh.get_light_vertex(g, der=0), dx, 'light vertex x', **kw)
    t.close(wh.get_light_vertex(g, der=1), dy, 'light vertex y', **kw)
    t.close(wh.get_light_vertex(g, der=2), 0 * dx, 'light vertex z', **kw)
    t.close(wannier.ek_3d(g.grid, wannier.one_band_2d_t_tp_tpp(*p)), want, 'ek_3d', **kw)
    t.close(wannier.ek_3d_klist(g.kmesh_list.T, wannier.one_band_2d_t_tp_tpp(*p)), want.flatten(), 'ek_3d_klist', **kw)
    t.equal(wannier.standard_cuprates(p[0]), wannier.one_band_2d_t_tp_tpp(p[0], -0.2 * p[0], 0.1 * p[0]), 'standard cuprates')
    t.equal(wannier.motoharu_nickelates(p[0]), wannier.one_band_2d_t_tp_tpp(p[0], -0.25 * p[0], 0.12 * p[0]), 'nickelates')
    t.equal(wannier.unfrustrated_square(p[0]), wannier.one_band_2d_t_tp_tpp(p[0]), 'unfrustrated square')


@law('C05', case(h=st.lists(hop, min_size=5, max_size=5), nk=nk_st), 150, 2000, 'non-trivial: direction dependent hopping')
def nematic_lattice_closed_form(c, t):
    tx, ty, txx, tyy, txy = c['h']
    t.nontrivial(tx != ty and txx != tyy)
    g = bz.KGrid(tuple(c['nk']))
    kx, ky = g.kmesh[0], g.kmesh[1]
    want = (-2 * tx * np.cos(kx) - 2 * ty * np.cos(ky) - 4 * txy * np.cos(kx) * np.cos(ky)
            - 2 * txx * np.cos(2 * kx) - 2 * tyy * np.cos(2 * ky))
    kw = dict(rtol=1e-11, atol=1e-12)
    wh = wannier.WannierHr(*wannier.wannier_one_band_2d_nematic(tx, ty, txx, tyy, txy))
    t.close(wh.get_ek(g), want, 'nematic band', **kw)
    for mat in (wannier.one_band_2d_quasi1d(tx, ty, txx, tyy, txy), wannier.one_band_2d_nematic(tx, ty, txx, tyy, txy)):
        t.close(wannier.ek_3d(g.grid, mat), want, 'ek_3d of nematic parameters', **kw)
    tri = wannier.one_band_2d_triangular_t_tp_tpp(tx, txy, txx)
    want = (-2 * tx * (np.cos(kx) + np.cos(ky)) - 2 * txy * np.cos(kx + ky) - 2 * txx * (np.cos(2 * kx) + np.cos(2 * ky)))
    t.close(wannier.ek_3d(g.grid, tri), want, 'triangular lattice', **kw)


@law('C05', case(h=st.lists(hop, min_size=9, max_size=9), q=st.lists(floats(-6, 6), min_size=3, max_size=3), nk=nk_st), 150, 2000,
     'non-trivial: q != 0')
def shifted_dispersion(c, t):
    m = np.array(c['h']).reshape(3, 3)
    g = bz.KGrid(tuple(c['nk']))
    q = c['q']
    t.nontrivial(any(q))
    k = [g.kmesh[i] + q[i] for i in range(3)]
    want = (-2 * (m[0, 0] * np.cos(k[0]) + m[0, 1] * np.cos(k[1]) + (m[0, 2] + m[2, 2]) * np.cos(k[2]))
            - 2 * (m[1, 0] * np.cos(k[0] + k[1]) + m[1, 1] * np.cos(k[0] - k[1]))
            - 2 * (m[2, 0] * np.cos(2 * k[0]) + m[2, 1] * np.cos(2 * k[1])))
    t.close(wannier.ekpq_3d(*g.kmesh, *q, t_mat=m), want, 'ekpq_3d', rtol=1e-11, atol=1e-11)
    t.close(wannier.ek_3d(tuple(a + b for a, b in zip(g.grid, q)), m), want, 'ek_3d on the shifted grid', rtol=1e-11, atol=1e-11)


@law('C05', case(h=st.lists(hop, min_size=5, max_size=5), nk=nk_st), 150, 2000, 'non-trivial: all hoppings non-zero')
def emery_model_closed_form(c, t):
    ed, ep, tpd, tpp, tppp = c['h']
    t.nontrivial(all(c['h'][2:]))
    g = bz.KGrid(tuple(c['nk']))
    kx, ky = g.kmesh[0], g.kmesh[1]
    e = lambda x: np.exp(1j * x)  # noqa
    want = np.zeros(tuple(c['nk']) + (3, 3), complex)
    want[..., 0, 0] = ed
    want[..., 1, 1] = ep + 2 * tppp * np.cos(kx)
    want[..., 2, 2] = ep + 2 * tppp * np.cos(ky)
    want[..., 0, 1] = tpd * (1 - e(-kx))
    want[..., 0, 2] = tpd * (1 - e(-ky))
    want[..., 1, 2] = tpp * (1 - e(kx)) * (1 - e(-ky))
    for a, b in ((0, 1), (0, 2), (1, 2)):
        want[..., b, a] = want[..., a, b].conj()
    kw = dict(rtol=1e-11, atol=1e-12)
    t.close(wannier.emery_model_ek(g, ed, ep, tpd, tpp, tppp), want, 'emery_model_ek', **kw)
    wh = wannier.WannierHr(*wannier.wannier_emery_model(ed, ep, tpd, tpp, tppp))
    t.close(wh.get_ek(g, one_band=False), want, 'real-space Emery model', **kw)
    for i in range(3):
        for j in range(3):
            t.check(np.all(np.asarray(wh.orbs)[:, i, j] == (i + 1, j + 1)), f'orbital labels of element {i + 1},{j + 1}')
