"""C15: the singlet/triplet pairing vertex"""
import numpy as np
from hypothesis import strategies as st
from vpbt.core import law, case, floats, seeds, rng, cplx
from vpbt.laws.fourp import sign
from vpbt.laws.runcfg import dga_config, FakeComm, no_plots
from dga import pairing_vertex as pv
from dga import four_point as fp
from dga import mpi_aux


@law('C15', case(niv=st.integers(1, 5), pad=st.integers(0, 4), wlead=st.integers(0, 9), seed=seeds), 150, 3000,
     'non-trivial: the box is cut and w != 0')
def the_slice_has_v_minus_vp_equal_w(c, t):
    """entry (v, v') of the pairing vertex is taken from -F(w = v - v'; v, -v')"""
    niv, big = c['niv'], c['niv'] + c['pad']
    iv = np.arange(-niv, niv)
    om = np.asarray(pv.get_omega_condition(niv))
    t.check(om.shape == (2 * niv, 2 * niv), 'shape of the frequency difference')
    t.equal(om, iv[:, None] - iv[None, :], 'frequency difference')
    w = c['wlead'] - (2 * niv - 1) if c['wlead'] < 4 * niv - 1 else 0
    t.nontrivial(c['pad'] > 0 and w != 0)
    mat = cplx(rng(c['seed']), (2 * big, 2 * big))
    cond = om == w
    got = pv.get_pp_slice_4pt(mat=mat, condition=cond, niv_pp=niv)
    want = []
    for i, v in enumerate(iv):
        for j, vp in enumerate(iv):
            if v - vp == w:
                want.append(-mat[v + big, (-vp - 1) + big])  # index of -v' is -v'-1
    t.equal(got, np.array(want), 'slice')


@law('C15', case(niv=st.integers(1, 5), extra=st.integers(0, 4), nk=st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 2)),
                 seed=seeds), 100, 1500, 'non-trivial: unused bosonic frequencies, several momenta')
def susceptibility_is_taken_at_v_minus_vp(c, t):
    niv = c['niv']
    niw = 2 * niv - 1 + c['extra']
    t.nontrivial(c['extra'] > 0 and np.prod(c['nk']) > 1)
    chi = cplx(rng(c['seed']), tuple(c['nk']) + (2 * niw + 1,))
    got = pv.reshape_chi(chi, niv)
    want = np.empty(tuple(c['nk']) + (2 * niv, 2 * niv), complex)
    for i in range(2 * niv):
        for j in range(2 * niv):
            want[..., i, j] = chi[..., niw + i - j]
    t.equal(got, want, 'susceptibility in pairing notation')


@law('C15', case(nv=st.integers(1, 8), lead=st.integers(1, 4), beta=floats(1, 20), u=floats(-4, 4), ch=st.sampled_from(['dens', 'magn']),
                 seed=seeds), 120, 2000, 'non-trivial: at least two frequencies')
def components_give_the_ladder_vertex(c, t):
    """F = beta^2 [1/chi0 - 1/chi0 chi 1/chi0] of the full chi, written with the auxiliary one and the physical susceptibility"""
    r = rng(c['seed'])
    n, L, beta, u = c['nv'], c['lead'], float(c['beta']), c['u']
    ur = sign(c['ch']) * u
    x0 = cplx(r, (L, n)) + 2
    chi = np.empty((L, n, n), complex)
    aux = np.empty((L, n, n), complex)
    gam = 0.3 * cplx(r, (L, n, n)) / n
    for i in range(L):
        chi[i] = np.linalg.inv(np.diag(1 / x0[i]) + gam[i] + ur / beta ** 2)
        aux[i] = np.linalg.inv(np.diag(1 / x0[i]) + gam[i])
    cnd = max(np.linalg.cond(m) for m in list(chi) + list(aux))
    if cnd > 1e5:
        t.nontrivial(False)
        return
    t.nontrivial(n > 1)
    phys = chi.sum((-1, -2)) / beta ** 2
    # right- and left-handed three-leg vertices coincide only for symmetric gamma
    vr = np.einsum('lvw,lv->lv', aux, 1 / x0)
    vl = np.einsum('lwv,lv->lv', aux, 1 / x0)
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux, vrg=vr, gchi0=x0, beta=beta, u_r=ur)
    want = beta ** 2 * (np.einsum('lv,vw->lvw', 1 / x0, np.eye(n)) - chi / x0[:, :, None] / x0[:, None, :])
    t.close(f2, ur * vr[:, :, None] * vr[:, None, :], 'component linear in the susceptibility', rtol=1e-9)
    whole = pv.ladder_vertex_from_chi_aux(gchi_aux=aux, vrg=vr / beta, chir=phys, gchi0=x0, beta=beta, u_r=ur)
    t.close(whole, f1 + (1 - ur * phys)[:, None, None] * ur * vr[:, :, None] * vr[:, None, :], 'sum of the components', rtol=1e-9,
            scale=np.max(np.abs(whole)) + beta ** 2 / np.min(np.abs(x0)))
    lhs = f1 + (1 - ur * phys)[:, None, None] * ur * vr[:, :, None] * vl[:, None, :]
    t.close(lhs, want, 'ladder vertex', rtol=1e-9 * max(1, cnd), scale=np.max(np.abs(want)) + beta ** 2 / np.min(np.abs(x0)))


@law('C15', case(nk=st.sampled_from([[1, 1, 1], [2, 2, 1], [3, 3, 1], [4, 4, 1], [2, 3, 1], [3, 2, 2]]),
                 sym=st.sampled_from(['square', 'quasi1d', 'inversion', 'none']), niw=st.integers(2, 7), niv=st.integers(2, 7),
                 beta=floats(1, 10), u=floats(0.1, 3), ranks=st.integers(1, 4), seed=seeds, swap=st.booleans()), 30, 300,
     'non-trivial: several ranks and several momenta')
def stored_vertex_of_a_run(c, t):
    """write the components rank by rank, build singlet and triplet vertex, compare with their definition entry by entry"""
    stored_vertex(c, t)


@law('C15', case(nk=st.sampled_from([[32, 32, 1], [33, 31, 1], [10, 10, 11]]), sym=st.just('none'), niw=st.just(2), niv=st.just(2), beta=floats(1, 10), u=floats(0.1, 3),
                 ranks=st.integers(1, 6), seed=seeds, swap=st.booleans()), 1, 15, 'non-trivial: always')
def stored_vertex_at_more_than_a_thousand_momenta(c, t):
    stored_vertex(c, t)
    t.nontrivial(True)


def stored_vertex(c, t):
    if c['sym'] == 'square' and c['nk'][0] != c['nk'][1]:
        c = dict(c, sym='quasi1d')
    names = {'square': 'two_dimensional_square', 'quasi1d': 'quasi_one_dimensional_square', 'inversion': 'simultaneous_x_y_inversion',
             'none': 'none'}
    path = t.tmp()
    beta, u = float(c['beta']), c['u']
    size = c['ranks']
    root = FakeComm(0, 1)
    cfg = dga_config(path, beta=beta, u=u, comm=root, nk=c['nk'], niw=c['niw'], niv=c['niv'], symmetries=names[c['sym']])
    grid = cfg.lattice.q_grid
    nirr = grid.nk_irr
    size = min(size, nirr)
    t.nontrivial(size > 1 and nirr > 1)
    npp = cfg.box.niv_pp
    t.check(npp == min(c['niw'] // 2, c['niv'] // 2), 'pairing box')
    nw, nv = 2 * c['niw'] + 1, 2 * c['niv']
    r = rng(c['seed'])
    x0 = cplx(r, (nirr, nw, nv)) + 2
    aux = {ch: cplx(r, (nirr, nw, nv, nv)) for ch in ('dens', 'magn')}
    vrg = {ch: cplx(r, (nirr, nw, nv)) for ch in ('dens', 'magn')}
    chi = {ch: cplx(r, (nirr, nw)) for ch in ('dens', 'magn')}
    dists = [mpi_aux.MpiDistributor(ntasks=nirr, comm=FakeComm(i, size), output_path=path, name='Q') for i in range(size)]
    chans = ['magn', 'dens'] if c['swap'] else ['dens', 'magn']
    for ch in chans:
        for d in dists:
            s = d.my_slice
            pv.write_pairing_vertex_components(cfg, d, ch, aux[ch][s], vrg[ch][s], x0[s])
    full = {ch: grid.map_irrk2fbz(chi[ch], shape='mesh') for ch in chi}
    with no_plots():
        pv.build_pairing_vertex(cfg, FakeComm(0, size), full['magn'], full['dens'])
    got_s, got_t = np.load(path + 'F_sing_pp.npy'), np.load(path + 'F_trip_pp.npy')
    # definition
    iv = np.arange(-npp, npp)
    want = {}
    for ch in ('dens', 'magn'):
        ur = sign(ch) * u
        f1 = np.empty((nirr, 2 * npp, 2 * npp), complex)
        f2 = np.empty_like(f1)
        cc = np.empty_like(f1)
        for i, v in enumerate(iv):
            for j, vp in enumerate(iv):
                w = v - vp + c['niw']
                a, b = v + c['niv'], -vp - 1 + c['niv']
                dia = (a == b) * 1.0
                f1[:, i, j] = -beta ** 2 * (dia / x0[:, w, a] - aux[ch][:, w, a, b] / x0[:, w, a] / x0[:, w, b])
                f2[:, i, j] = -ur * vrg[ch][:, w, a] * vrg[ch][:, w, b]
                cc[:, i, j] = chi[ch][:, w]
        f1 = 0.5 * (f1 + np.conj(f1.transpose(0, 2, 1)))
        f2 = 0.5 * (f2 + np.conj(f2.transpose(0, 2, 1)))
        want[ch] = f1 + (1 - ur * cc) * f2
    lab = grid.map_irrk2fbz(np.arange(nirr), shape='mesh').astype(int)
    fd, fm = want['dens'][lab], want['magn'][lab]
    t.close(got_s, 1.5 * fm - 0.5 * fd, 'singlet vertex', rtol=1e-9)
    t.close(got_t, 0.5 * fm + 0.5 * fd, 'triplet vertex', rtol=1e-9)
    # loading again yields the same
    t.close(cfg.eliash.load_data('F_sing_pp'), got_s, 'reloaded singlet vertex', rtol=0)
