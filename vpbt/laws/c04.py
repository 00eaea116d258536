"""C04  Grids, shifts, slices and paths in the Brillouin zone address the intended momenta"""
import itertools
import numpy as np
from vpbt.core import law, case, st, seeds, data
from dga import brillouin_zone as bz

nk_st = st.tuples(st.integers(1, 8), st.integers(1, 8), st.integers(1, 6)).map(list)
PTS = {'Gamma': (0, 0, 0), 'X': (.5, 0, 0), 'Y': (0, .5, 0), 'M': (.5, .5, 0), 'M2': (.25, .25, 0), 'Z': (0, 0, .5), 'R': (.5, 0, .5),
       'A': (.5, .5, .5)}


@law('C04', case(nk=nk_st, seed=seeds, outer=st.lists(st.integers(1, 3), max_size=2)), 250, 4000,
     'non-trivial: grid lengths differ between axes')
def mesh_and_list_layouts(c, t):
    nk = tuple(c['nk'])
    g = bz.KGrid(nk)
    t.nontrivial(len(set(nk)) > 1)
    ax = [2 * np.pi * np.arange(n) / n for n in nk]
    for got, want, nm in zip((g.kx, g.ky, g.kz), ax, 'xyz'):
        t.close(got, want, f'k{nm}', rtol=1e-14)
    for got, want in zip(g.grid, ax):
        t.close(got, want, 'grid', rtol=1e-14)
    # the axes of data shifted by pi (by the closest grid momentum on odd grids) are the momenta of these data, around zero
    for a, (got, k) in enumerate(zip((g.kx_shift, g.ky_shift, g.kz_shift), ax)):
        lab = np.arange(nk[a])
        mom = g.shift_mat_by_pi(np.broadcast_to(lab.reshape([-1 if b == a else 1 for b in range(3)]), nk), axes=(a,))
        mom = np.moveaxis(mom, a, 0).reshape(nk[a], -1)[:, 0]
        d = (got - k[mom]) / (2 * np.pi)
        t.close(d, np.round(d), 'shifted axis', rtol=0, atol=1e-12)
        t.check(np.all(np.abs(got) <= np.pi + 1e-9) and np.all(np.diff(got) > 0), 'shifted axis runs from -pi upwards')
    mesh = g.kmesh
    t.check(mesh.shape == (3,) + nk, f'kmesh shape {mesh.shape}')
    ind = g.kmesh_ind
    for n, (i, j, k) in enumerate(itertools.product(*map(range, nk))):
        t.close(mesh[:, i, j, k], [ax[0][i], ax[1][j], ax[2][k]], 'kmesh', rtol=1e-13, atol=1e-14)
        t.close(g.kmesh_list[:, n], [ax[0][i], ax[1][j], ax[2][k]], 'kmesh_list', rtol=1e-13, atol=1e-14)
        t.equal(ind[:, i, j, k], [i, j, k], 'kmesh_ind')
    t.equal(np.atleast_2d(g.ind).reshape(-1, 3)[:np.prod(nk)] if min(nk) > 0 else g.ind, np.array(list(itertools.product(*map(range, nk)))), 'index triples')
    t.equal(g.ind_lin, np.arange(np.prod(nk)), 'ind_lin')
    f = data(c['seed'], nk + tuple(c['outer']), 'index')
    lst = g.map_fbz_mesh2list(f)
    for n, k in enumerate(itertools.product(*map(range, nk))):
        t.equal(lst[n], f[k], 'mesh2list')
    t.equal(g.map_fbz_list2mesh(lst), f, 'list2mesh(mesh2list)')
    e, p = bz.get_extent(g), bz.get_extent_pi_shift(g)
    t.close(e, [g.kx[0], g.kx[-1], g.ky[0], g.ky[-1]], 'extent')
    t.close(p, [g.kx_shift[0], g.kx_shift[-1], g.ky_shift[0], g.ky_shift[-1]], 'extent pi-shift', rtol=1e-13, atol=1e-13)


@law('C04', case(nk=nk_st, seed=seeds, outer=st.lists(st.integers(1, 3), max_size=2),
                 q=st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-9, 9)).map(list)), 300, 5000,
     'non-trivial: a shift that moves points')
def shifting_is_translation(c, t):
    """the shifted function at k+q equals the original at k, on every axis, periodically"""
    nk, q = tuple(c['nk']), c['q']
    g = bz.KGrid(nk)
    f = data(c['seed'], nk + tuple(c['outer']))
    t.nontrivial(any(qi % n for qi, n in zip(q, nk)))

    def want(sh):
        out = np.empty_like(f)
        for k in itertools.product(*map(range, nk)):
            out[tuple((ki + s) % n for ki, s, n in zip(k, sh, nk))] = f[k]
        return out

    t.equal(g.shift_mat_by_ind(f, q), want(q), 'KGrid.shift_mat_by_ind')
    t.equal(bz.shift_mat_by_ind(f, q), want(q), 'shift_mat_by_ind')
    t.equal(bz.shift_mat_by_ind(f, [-x for x in q]), want([-x for x in q]), 'shift_mat_by_ind(-q)')
    qm = [x % n for x, n in zip(q, nk)]
    qv = [2 * np.pi * x / n for x, n in zip(qm, nk)]
    t.equal(g.find_q_ind(qv), qm, 'find_q_ind')
    t.equal(g.shift_mat_by_q(f, qv), want(qm), 'shift_mat_by_q')
    t.equal(g.shift_mat_by_pi(f), want([n // 2 for n in nk]), 'shift_mat_by_pi')
    t.equal(g.shift_mat_by_pi(f, axes=(0, 1)), want([nk[0] // 2, nk[1] // 2, 0]), 'shift_mat_by_pi in the plane')
    t.equal(bz.shift_mat_by_pi(f), want([nk[0] // 2, nk[1] // 2, 0]), 'module shift_mat_by_pi')
    for got, ax, qi in zip(g.add_q_to_kgrid(qv), g.grid, qv):
        t.close(got, ax - qi, 'add_q_to_kgrid (k - q)', rtol=1e-13, atol=1e-13)


@law('C04', case(nk=nk_st, seed=seeds, dim=st.integers(0, 2), i=st.integers(0, 7), off=st.integers(-45, 45)), 250, 4000,
     'non-trivial: more than one plane')
def slices_pick_the_nearest_plane(c, t):
    nk, d = tuple(c['nk']), c['dim']
    g = bz.KGrid(nk)
    f = data(c['seed'], nk + (2,))
    i = c['i'] % nk[d]
    val = 2 * np.pi / nk[d] * (i + c['off'] / 100.0)
    t.nontrivial(nk[d] > 1)
    t.equal(g.get_k_slice(f, k_slice_dim=d, k_slice_val=val), np.take(f, i, axis=d), 'get_k_slice')
    t.raises(AssertionError, lambda: g.get_k_slice(f, k_slice_dim=3), 'slice dimension 3 accepted')
    t.raises(AssertionError, lambda: g.get_k_slice(np.zeros((nk[0] + 1, nk[1], nk[2])), k_slice_dim=0), 'wrong mesh accepted')


pt_st = st.one_of(st.sampled_from(sorted(PTS)),
                  st.tuples(st.integers(0, 20), st.integers(0, 20), st.integers(0, 20)).map(lambda a: ' '.join(str(x / 20) for x in a)))


@law('C04', case(nk=st.tuples(st.integers(1, 12), st.integers(1, 12), st.integers(1, 6)).map(list),
                 path=st.lists(pt_st, min_size=2, max_size=5), seed=seeds), 300, 5000,
     'non-trivial: a path with points on a grid whose axes differ')
def k_paths_follow_their_corners(c, t):
    nk = tuple(c['nk'])
    kp = bz.KPath(nk, '-'.join(c['path']))
    corners = np.array([PTS[p] if p in PTS else [float(x) for x in p.split()] for p in c['path']], float)
    t.close(kp.ckp, corners, 'corner points', atol=1e-12)
    t.check(kp.ckps == c['path'], 'corner names')
    npts = [int(n) for n in kp.nkp]
    t.check(len(npts) == len(corners) - 1, 'number of segments')
    for n, a, b in zip(npts, corners[:-1], corners[1:]):
        ln = np.linalg.norm((b - a) * nk)
        t.check(abs(n - ln) <= 0.5 + 1e-9, f'{n} points on a segment of length {ln} grid steps')
    kpts = np.asarray(kp.kpts).reshape(-1, 3)
    t.check(len(kpts) == sum(npts) == kp.nk_tot == len(kp.k_axis), 'number of points on the path')
    t.nontrivial(len(kpts) > 1 and len(set(nk)) > 1)
    t.check(np.all(kpts < np.array(nk)) and np.all(kpts >= 0), 'index outside the grid')
    pos = 0
    for s, n in enumerate(npts):
        a, b = corners[s] * nk, corners[s + 1] * nk
        for j in range(n):
            want = a + (b - a) * j / n
            dev = kpts[pos + j] - want
            dev = np.abs(dev - np.round(dev / nk) * nk)
            t.check(np.all(dev <= 0.5 + 1e-9), f'path point {pos + j} = {kpts[pos + j]} is not next to {want}')
        pos += n
    t.equal(np.array([kp.ikx, kp.iky, kp.ikz]).T, kpts, 'ikx, iky, ikz')
    # momenta along the path
    want = 2 * np.pi * kpts / np.array(nk)[None, :]
    t.close(np.array(kp.k_val).T, want, 'k_val', rtol=1e-12, atol=1e-12)
    t.close(kp.k_points, want, 'k_points', rtol=1e-12, atol=1e-12)
    f = data(c['seed'], nk + (2,))
    got = kp.map_to_kpath(f)
    for i, k in enumerate(kpts):
        t.equal(got[i], f[tuple(k)], 'map_to_kpath')
    # the corners: the start of every segment; the last corner is the end of the path
    t.equal(kp.cind, np.minimum(np.concatenate(([0], np.cumsum(npts))), len(kpts) - 1), 'corner indices')
    t.equal(kp.nk_seg, np.diff(kp.cind), 'nk_seg')
    if len(kpts) > 1 and min(npts) > 0:
        t.close(kp.x_ticks, np.linspace(0, 1, len(kpts))[kp.cind], 'x_ticks', atol=1e-12)
    t.check(len(kp.labels) == len(c['path']), 'labels')
    for lab, p, i in zip(kp.labels, c['path'], range(99)):
        t.check(lab == (bz.LABELS[p] if p in PTS else f'K{i}'), f'label {lab} of {p}')


@law('C04', case(nk=st.tuples(st.integers(1, 12), st.integers(1, 12), st.integers(1, 6)).map(list),
                 path=st.lists(st.tuples(st.integers(-19, 29), st.integers(-19, 29), st.integers(-19, 29)).map(list), min_size=2, max_size=4),
                 seed=seeds), 150, 2000, 'non-trivial: a corner outside of the first zone')
def k_paths_leave_the_first_zone(c, t):
    """a corner at a negative coordinate or beyond one is the same momentum up to a reciprocal lattice vector"""
    nk = tuple(c['nk'])
    corners = np.array(c['path']) / 20
    kp = bz.KPath(nk, ','.join(' '.join(str(x) for x in p) for p in corners), path_deliminator=',')
    t.nontrivial(bool(np.any(corners < 0) or np.any(corners > 1)))
    t.close(kp.ckp, corners, 'corner points', atol=1e-12)
    if len(kp.kpts) == 0:
        return
    f = data(c['seed'], nk)
    got, vals = kp.map_to_kpath(f), kp.get_kpoints()
    pos = 0
    for n, a, b in zip([int(n) for n in kp.nkp], corners[:-1] * nk, corners[1:] * nk):
        for j in range(n):
            want = a + (b - a) * j / n
            k = np.asarray(kp.kpts)[pos + j]
            dev = k - want
            dev = np.abs(dev - np.round(dev / nk) * nk)
            t.check(np.all(dev <= 0.5 + 1e-9), f'path point {pos + j} = {k} is not next to {want}')
            t.equal(got[pos + j], f[tuple(np.mod(k, nk))], 'value at the path point')
            d = vals[pos + j] / (2 * np.pi) - k / np.array(nk)
            t.close(d, np.round(d), 'momentum of the path point', rtol=0, atol=1e-12)
        pos += n
    t.check(pos == len(kp.kpts), 'number of points on the path')


@law('C04', case(nk=st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 2)).map(list), nb=st.integers(1, 4), seed=seeds,
                 path=st.lists(st.sampled_from(sorted(PTS)), min_size=2, max_size=4)), 120, 1500, 'non-trivial: at least two bands')
def bands_on_a_path_are_eigenvalues(c, t):
    nk, nb = tuple(c['nk']), c['nb']
    h = data(c['seed'], nk + (nb, nb))
    h = h + np.conj(np.swapaxes(h, -1, -2))
    kp = bz.KPath(nk, '-'.join(c['path']))
    if len(kp.kpts) == 0:
        return
    t.nontrivial(nb > 1)
    want = np.array([np.linalg.eigvalsh(h[tuple(k)]) for k in kp.kpts])
    t.close(kp.get_bands(h), want, 'get_bands', rtol=1e-9, atol=1e-9)


@law('C04', case(nk=st.integers(1, 25)), 25, 60, 'non-trivial: always')
def quadrant_masks_cover_the_plane(c, t):
    m = bz.get_bz_masks(c['nk'])
    zero = sum((x == 0).astype(int) for x in m)
    t.check(len(m) == 4 and np.all(zero == 1), 'every k-point must be masked out by exactly one of the four quadrant masks')
    h = c['nk'] // 2
    t.check(np.all(m[0][h:, :h] == 0) and np.all(m[1][h:, h:] == 0) and np.all(m[2][:h, :h] == 0) and np.all(m[3][:h, h:] == 0),
            'quadrant assignment')
