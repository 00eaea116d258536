"""C16: vertices stored rank by rank and rebuilt (full ladder vertex, optical-conductivity vertex)"""
import numpy as np
from hypothesis import strategies as st
from vpbt.core import law, case, floats, seeds, rng, cplx
from vpbt.laws.fourp import sign
from vpbt.laws.runcfg import dga_config, FakeComm, no_plots
from dga import four_point as fp
from dga import optics
from dga import mpi_aux

NAMES = {'square': 'two_dimensional_square', 'quasi1d': 'quasi_one_dimensional_square', 'inversion': 'simultaneous_x_y_inversion',
         'none': 'none'}
common = dict(nk=st.sampled_from([[1, 1, 1], [2, 2, 1], [3, 3, 1], [4, 4, 1], [2, 3, 1], [3, 2, 2]]),
              sym=st.sampled_from(['square', 'quasi1d', 'inversion', 'none']), niw=st.integers(0, 4), niv=st.integers(1, 5),
              beta=floats(1, 10), u=floats(0.1, 3), ranks=st.integers(1, 4), seed=seeds, order=st.booleans())


def make(c, path, optics_conf=None):
    if c['sym'] == 'square' and c['nk'][0] != c['nk'][1]:
        c = dict(c, sym='quasi1d')
    kw = {} if optics_conf is None else dict(optics=optics_conf)
    cfg = dga_config(path, beta=float(c['beta']), u=c['u'], comm=FakeComm(0, 1), nk=c['nk'], niw=c['niw'], niv=c['niv'],
                     symmetries=NAMES[c['sym']], **kw)
    cfg.optics.set_frequency_ranges(cfg)
    nirr = cfg.lattice.q_grid.nk_irr
    size = min(c['ranks'], nirr)
    nw, nv = 2 * c['niw'] + 1, 2 * c['niv']
    r = rng(c['seed'])
    d = dict(x0=cplx(r, (nirr, nw, nv)) + 2)
    for ch in ('dens', 'magn'):
        a = cplx(r, (nirr, nw, nv, nv))
        d[ch] = dict(aux=0.5 * (a + a.transpose(0, 1, 3, 2)), vrg=cplx(r, (nirr, nw, nv)), chi=cplx(r, (nirr, nw)))
    dists = [mpi_aux.MpiDistributor(ntasks=nirr, comm=FakeComm(i, size), output_path=path, name='Q') for i in range(size)]
    return cfg, nirr, size, d, dists


def vertex(cfg, d, ch):
    """F(q irr, w, v, v') by definition"""
    beta, ur, x0 = cfg.sys.beta, sign(ch) * cfg.sys.u, d['x0']
    n = x0.shape[-1]
    f1 = beta ** 2 * (np.eye(n) / x0[..., :, None] - d[ch]['aux'] / x0[..., :, None] / x0[..., None, :])
    f2 = ur * d[ch]['vrg'][..., :, None] * d[ch]['vrg'][..., None, :]
    return f1 + (1 - ur * d[ch]['chi'])[..., None, None] * f2


def write(c, cfg, dists, d, fun):
    for ch in (['magn', 'dens'] if c['order'] else ['dens', 'magn']):
        for m in dists:
            s = m.my_slice
            fun(cfg, m, ch, d[ch]['aux'][s], d[ch]['vrg'][s], d['x0'][s])


@law('C16', case(**common), 30, 300, 'non-trivial: several ranks, negative bosonic frequencies')
def full_ladder_vertex(c, t):
    full_vertex(c, t)


def full_vertex(c, t):
    path = t.tmp()
    cfg, nirr, size, d, dists = make(c, path)
    t.nontrivial(size > 1 and c['niw'] > 0)
    grid = cfg.lattice.q_grid
    write(c, cfg, dists, d, fp.write_vertex_components)
    full = {ch: grid.map_irrk2fbz(d[ch]['chi'], shape='mesh') for ch in ('dens', 'magn')}
    with no_plots():
        fp.build_vertex_fq(cfg, FakeComm(0, size), full['magn'], full['dens'])
    lab = grid.map_irrk2fbz(np.arange(nirr), shape='mesh').astype(int)
    for ch in ('dens', 'magn'):
        got = np.load(path + f'F_{ch}.npy')
        want = vertex(cfg, d, ch)[lab]
        for iw in range(-c['niw'], c['niw'] + 1):
            t.close(got[..., iw + c['niw'], :, :], want[..., iw + c['niw'], :, :], f'{ch} vertex at bosonic index {iw}', rtol=1e-9)


@law('C16', case(**dict(common, niw=st.integers(1, 4), niv=st.integers(2, 6), nwv=st.integers(-1, 4), nwc=st.integers(-1, 3))), 30, 300,
     'non-trivial: several ranks, negative bosonic frequencies, fewer stored than available')
def optical_conductivity_vertex(c, t):
    """F_cond = -F_dens/2 - 3 F_magn/2 at (v, v-w) for every transferred momentum and frequency and every external w >= 0"""
    optics_vertex(c, t)


def optics_vertex(c, t):
    path = t.tmp()
    nwv = min(c['nwv'], c['niw'])
    nwc = min(c['nwc'], c['niv'] - 1)
    if nwc < 0 and c['niw'] // 2 >= c['niv']:
        nwc = 0
    cfg, nirr, size, d, dists = make(c, path, dict(do_vertex=True, niw_vert=nwv, niw_cond=nwc))
    grid, o = cfg.lattice.q_grid, cfg.optics
    nwv_e = c['niw'] if nwv < 0 else nwv
    nwc_e = c['niw'] // 2 if nwc < 0 else nwc
    t.check((o.niw_vert, o.niw_cond, o.niv_vert) == (nwv_e, nwc_e, c['niv'] - nwc_e), 'frequency ranges')
    t.nontrivial(size > 1 and nwv_e > 0 and nwv_e < c['niw'])
    write(c, cfg, dists, d, optics.write_optics_vertex_components)
    full = {ch: grid.map_irrk2fbz(d[ch]['chi'], shape='mesh') for ch in ('dens', 'magn')}
    with no_plots():
        optics.build_vertex_for_optical_conductivity(cfg, FakeComm(0, size), full['magn'], full['dens'])
    got = np.load(path + 'F_cond.npy')
    lab = grid.map_irrk2fbz(np.arange(nirr), shape='mesh').astype(int)
    fc = -0.5 * vertex(cfg, d, 'dens') - 1.5 * vertex(cfg, d, 'magn')
    nvv = o.niv_vert
    want = np.empty((nirr, 2 * nwv_e + 1, nwc_e + 1, 2 * nvv), complex)
    for a, wp in enumerate(range(-nwv_e, nwv_e + 1)):
        for b in range(nwc_e + 1):
            for i, v in enumerate(range(-nvv, nvv)):
                want[:, a, b, i] = fc[:, wp + c['niw'], v + c['niv'], v - b + c['niv']]
    t.close(got, want[lab], 'conductivity vertex', rtol=1e-9)


LARGE = st.sampled_from([[32, 32, 1], [33, 31, 1], [10, 10, 11]])


@law('C16', case(**dict(common, nk=LARGE, sym=st.just('none'), niw=st.just(0), niv=st.integers(1, 2), ranks=st.integers(1, 6))), 2, 20, 'non-trivial: always')
def full_ladder_vertex_at_more_than_a_thousand_momenta(c, t):
    full_vertex(c, t)
    t.nontrivial(True)


@law('C16', case(**dict(common, nk=LARGE, sym=st.just('none'), niw=st.just(1), niv=st.integers(1, 2), nwv=st.just(0), nwc=st.just(0), ranks=st.integers(1, 6))), 2, 20,
     'non-trivial: always')
def optics_vertex_at_more_than_a_thousand_momenta(c, t):
    optics_vertex(c, t)
    t.nontrivial(True)


@law('C16', case(nw=st.integers(0, 4), nnew=st.integers(1, 4), extra=st.integers(0, 3), seed=seeds), 100, 1500,
     'non-trivial: cut box and w != 0')
def slice_v_vmw(c, t):
    big = c['nnew'] + c['nw'] + c['extra']
    t.nontrivial(c['nw'] > 0 and c['extra'] > 0)
    m = cplx(rng(c['seed']), (2 * big, 2 * big))
    got = optics.get_vmw_v_slice(m, np.arange(0, c['nw'] + 1), c['nnew'])
    want = np.array([[m[v + big, v - w + big] for v in range(-c['nnew'], c['nnew'])] for w in range(c['nw'] + 1)])
    t.equal(got, want, 'slice')
