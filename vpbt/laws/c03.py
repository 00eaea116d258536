"""C03  The irreducible Brillouin zone is a faithful, correctly weighted quotient of the full one"""
import itertools
import numpy as np
from vpbt.core import law, case, st, seeds, data
from vpbt.laws.bzref import orbits, orbit_average, NAMED
from dga import brillouin_zone as bz
from dga import wannier

ALL = ['x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv']
nk_st = st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 8)).map(list)
sq_st = st.tuples(st.integers(1, 10), st.integers(1, 8)).map(lambda a: [a[0], a[0], a[1]])


@st.composite
def grid_case(draw):
    nk = draw(st.one_of(nk_st, sq_st))
    if draw(st.booleans()):
        syms = list(NAMED[draw(st.sampled_from(sorted(NAMED)))])
    else:
        syms = draw(st.lists(st.sampled_from(ALL), max_size=4, unique=True))
    return dict(nk=nk, syms=syms, seed=draw(seeds), outer=draw(st.lists(st.integers(1, 3), max_size=2)))


def grid(c):
    return bz.KGrid(tuple(c['nk']), c['syms'])


@law('C03', grid_case(), 400, 8000, 'non-trivial: at least one symmetry merges at least two k-points')
def classes_are_symmetry_related(c, t):
    """two k-points share an irreducible point only if the chosen symmetries map one onto the other; counts partition the BZ"""
    g, nk = grid(c), tuple(c['nk'])
    ids = orbits(nk, c['syms']).flatten()
    inv = np.asarray(g.irrk_inv).flatten()
    t.check(inv.size == np.prod(nk), f'inverse map has {inv.size} entries')
    t.check(g.nk_tot == np.prod(nk) and g.nk_irr == len(np.unique(inv)), 'sizes')
    t.nontrivial(g.nk_irr < g.nk_tot)
    t.label('square', nk[0] == nk[1])
    t.label('has x-y', 'x-y-sym' in c['syms'])
    for r in range(g.nk_irr):
        members = np.where(inv == r)[0]
        t.check(len(set(ids[members])) == 1, f'irreducible point {r} contains inequivalent k-points {members} of {nk}')
        t.check(g.irrk_ind[r] in members, f'representative {g.irrk_ind[r]} not in its class {members}')
        t.check(g.irrk_count[r] == len(members), f'multiplicity {g.irrk_count[r]} of class with {len(members)} members')
    t.check(np.sum(g.irrk_count) == g.nk_tot, 'multiplicities do not sum to the number of k-points')
    # lists of irreducible points
    full = list(itertools.product(*map(range, nk)))
    t.equal(g.get_q_list(), np.array(full).reshape(-1, 3), 'get_q_list')
    t.equal(g.get_irrq_list(), np.array(full).reshape(-1, 3)[g.irrk_ind], 'get_irrq_list')
    t.equal(g.irrk_mesh_ind.T, g.get_irrq_list(), 'irrk_mesh_ind')
    want = 2 * np.pi * g.get_irrq_list() / np.array(nk)[None, :]
    t.close(g.irr_kmesh.T, want, 'irr_kmesh', rtol=1e-13)
    t.close(np.array(g.irr_kgrid).T, want, 'irr_kgrid', rtol=1e-13)
    t.equal(g.irrk_ind_lin, np.arange(g.nk_irr), 'irrk_ind_lin')


@law('C03', case(nk=st.one_of(nk_st, sq_st), name=st.sampled_from(['square', 'nematic', 'quasi2d', 'quasi1d', 'none'])), 250, 3000,
     'non-trivial: the named symmetry set merges k-points')
def named_sets_reduce_completely(c, t):
    """for the named lattice symmetries the irreducible points are exactly the orbits of the point group"""
    funs = dict(square=bz.two_dimensional_square_symmetries, nematic=bz.two_dimensional_nematic_symmetries,
                quasi2d=bz.quasi_two_dimensional_square_symmetries, quasi1d=bz.quasi_one_dimensional_square_symmetries,
                none=lambda: [])
    syms = funs[c['name']]()
    nk = tuple(c['nk'])
    g = bz.KGrid(nk, syms)
    ids = orbits(nk, NAMED[c['name']]).flatten()
    inv = np.asarray(g.irrk_inv).flatten()
    t.nontrivial(ids.max() + 1 < np.prod(nk))
    t.check(g.nk_irr == ids.max() + 1, f'{g.nk_irr} irreducible points, {ids.max() + 1} orbits for {c["name"]} on {nk}')
    for r in range(g.nk_irr):
        t.check(len(set(ids[inv == r])) == 1, 'class mixes orbits')


@law('C03', grid_case(), 400, 8000, 'non-trivial: fewer irreducible than full points, data depends on k')
def expand_reduce_and_average(c, t):
    g, nk = grid(c), tuple(c['nk'])
    outer = tuple(c['outer'])
    x = data(c['seed'], (g.nk_irr,) + outer)
    t.nontrivial(1 < g.nk_irr < g.nk_tot)
    mesh, lst = g.map_irrk2fbz(x), g.map_irrk2fbz(x, shape='list')
    t.check(mesh.shape == nk + outer and lst.shape == (g.nk_tot,) + outer, f'shapes {mesh.shape} {lst.shape}')
    t.equal(mesh.reshape((g.nk_tot,) + outer), lst, 'mesh and list expansion differ')
    inv = np.asarray(g.irrk_inv).flatten()
    for k in range(g.nk_tot):
        t.equal(lst[k], x[inv[k]], f'k-point {k} does not carry the value of its irreducible point')
    t.equal(g.map_fbz2irrk(mesh), x, 'reduce(expand(x)) != x (mesh)')
    t.equal(g.map_fbz2irrk(lst, shape='list'), x, 'reduce(expand(x)) != x (list)')
    mean = lst.mean(axis=0)
    t.close(g.k_mean(x, 'irrk'), mean, 'weighted mean over irreducible points != mean over the BZ', rtol=1e-12, atol=1e-12)
    t.close(g.k_mean(mesh, 'fbz-mesh'), mean, 'mesh mean', rtol=1e-12, atol=1e-12)
    t.close(g.k_mean(mesh, 'mesh'), mean, 'mesh mean', rtol=1e-12, atol=1e-12)
    t.close(g.k_mean(lst, 'fbz-list'), mean, 'list mean', rtol=1e-12, atol=1e-12)
    t.close(g.k_mean(lst, 'list'), mean, 'list mean', rtol=1e-12, atol=1e-12)
    # functions with the full lattice symmetry survive reduce -> expand
    f = orbit_average(data(c['seed'], nk + outer, 'complex', 5), orbits(nk, c['syms']))
    t.close(g.map_irrk2fbz(g.map_fbz2irrk(f)), f, 'symmetric function changed by reduce -> expand', rtol=1e-12)
    for bad in ('irr', 'fbz', ''):
        t.raises(ValueError, lambda: g.map_irrk2fbz(x, shape=bad), 'bad shape accepted')
        t.raises(ValueError, lambda: g.k_mean(x, shape=bad), 'bad shape accepted')


@law('C03', grid_case(), 250, 4000, 'non-trivial: merging symmetries and k-dependent data')
def symmetrising_averages_over_classes(c, t):
    g, nk = grid(c), tuple(c['nk'])
    f = data(c['seed'], nk + tuple(c['outer']))
    t.nontrivial(1 < g.nk_irr < g.nk_tot)
    got = g.symmetrize_irrk(f)
    ids = np.asarray(g.irrk_inv).reshape(nk)
    t.close(np.asarray(got).reshape(f.shape), orbit_average(f, ids), 'symmetrize_irrk is not the class average', rtol=1e-12)


@law('C03', case(n=st.integers(1, 10), nz=st.integers(1, 4), t1=st.integers(-9, 9), tp=st.integers(-9, 9), tpp=st.integers(-9, 9),
                 n2=st.integers(1, 10), quasi=st.booleans()), 200, 3000, 'non-trivial: more than one k-point, non-flat band')
def lattice_dispersion_has_the_symmetry(c, t):
    """the tight-binding band of the lattice takes one value per irreducible point (so reduction loses nothing)"""
    if c['quasi']:
        nk, syms = (c['n'], c['n2'], c['nz']), bz.quasi_one_dimensional_square_symmetries()
        hr = wannier.WannierHr(*wannier.wannier_one_band_2d_nematic(c['t1'] / 7, c['tp'] / 7, c['tpp'] / 7, c['t1'] / 9, c['tp'] / 5))
    else:
        nk, syms = (c['n'], c['n'], c['nz']), bz.quasi_two_dimensional_square_symmetries()
        hr = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(c['t1'] / 7, c['tp'] / 7, c['tpp'] / 7))
    g = bz.KGrid(nk, syms)
    ek = hr.get_ek(g)
    t.nontrivial(g.nk_tot > 1 and np.ptp(ek.real) > 0)
    t.close(g.map_irrk2fbz(g.map_fbz2irrk(ek)), ek, 'dispersion changed by reduce -> expand', rtol=1e-12, atol=1e-12)
    t.close(g.k_mean(g.map_fbz2irrk(ek)), ek.mean(), 'mean energy', rtol=1e-12, atol=1e-12)


@law('C03', case(shape=st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9)).map(list), sym=st.sampled_from(ALL),
                 seed=seeds, outer=st.lists(st.integers(1, 2), max_size=1)), 300, 4000, 'non-trivial: more than one grid point')
def single_symmetry_makes_matrix_invariant(c, t):
    """applying one inversion / mirror in place leaves a matrix that is invariant under it"""
    nk = tuple(c['shape'])
    mat = data(c['seed'], nk + tuple(c['outer']), 'real')
    src = mat.copy()
    t.nontrivial(np.prod(nk) > 1)
    bz.apply_symmetry(mat, c['sym'])
    ids = orbits(nk, [c['sym']])
    for o in range(ids.max() + 1):
        vals, old = mat[ids == o], src[ids == o]
        # every entry comes from the same orbit (for the mirror: the smaller of the pair)
        for v in vals:
            t.check(all(np.any(np.isclose(old.reshape(len(old), -1)[:, j], v.reshape(-1)[j])) for j in range(v.size)),
                    'value does not stem from an equivalent k-point')
        if c['sym'] != 'x-y-inv':
            t.check(np.all(vals == vals[0]), f'not invariant under {c["sym"]} on {nk}')
    again = mat.copy()
    bz.apply_symmetries(again, [c['sym']])
    t.equal(again, mat, 'applying the symmetry twice changes the result')
    t.raises(AssertionError, lambda: bz.apply_symmetry(mat, 'xy'), 'unknown symmetry accepted')
