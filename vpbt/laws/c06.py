"""C06  Hamiltonians survive the trip through hr / hk files"""
import numpy as np
from vpbt.core import law, case, st, seeds, data, floats
from vpbt.laws.c05 import random_hr
from dga import wannier
from dga import brillouin_zone as bz

nk_st = st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 3)).map(list)


@law('C06', case(nb=st.integers(1, 4), nr=st.integers(1, 40), rmax=st.sampled_from([3, 12, 99]), seed=seeds, intw=st.booleans(),
                 scale=st.sampled_from([1e-3, 1.0, 90.0])), 80, 1000,
     'non-trivial: several bands or more than one line of weights')
def hr_file_round_trip(c, t):
    hr, grid, w, orbs = random_hr(c['seed'], c['nb'], c['nr'], rmax=c['rmax'])
    hr = hr * c['scale']
    if c['intw']:
        w = w.astype(int)
    d = t.tmp()
    wh = wannier.WannierHr(hr, grid, w, orbs)
    before = [x.copy() for x in (hr, grid, w, orbs)]
    wh.save_hr(d)
    t.nontrivial(c['nb'] > 1 or len(hr) > 15)
    t.label('weights-fill-lines', len(hr) % 15 == 0)
    for a, b in zip((wh.hr, wh.r_grid, wh.r_weights, wh.orbs), before):
        t.equal(a, b, 'saving changed the Hamiltonian')
    back = wannier.create_wannier_hr_from_file(d + 'wannier_hr.dat')
    t.close(back.hr, hr, 'hr', rtol=0, atol=0.51e-6 * 1.5)
    t.equal(back.r_grid, grid, 'r_grid')
    t.equal(np.asarray(back.r_weights).reshape(-1), np.asarray(w).reshape(-1), 'weights')
    t.equal(back.orbs, orbs, 'orbs')
    g = bz.KGrid((3, 4, 2))
    t.close(back.get_ek(g, one_band=False), wh.get_ek(g, one_band=False), 'H(k) from the file', rtol=0, atol=1e-6 * len(hr))
    # writing what was read gives the same file
    back.save_hr(d, name='again.dat')
    with open(d + 'again.dat', encoding='utf-8') as f:
        a = wannier.read_hr_w2k(d + 'again.dat')
    t.equal(a[0], back.hr, 'second generation hr differs')


@law('C06', case(h=st.lists(floats(-2, 2), min_size=5, max_size=5), which=st.sampled_from(['emery', 'ttptpp', 'nematic'])), 60, 600,
     'non-trivial: always')
def model_hamiltonians_round_trip(c, t):
    d = t.tmp()
    if c['which'] == 'emery':
        wh = wannier.WannierHr(*wannier.wannier_emery_model(*c['h']))
    elif c['which'] == 'ttptpp':
        wh = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*c['h'][:3]))
    else:
        wh = wannier.WannierHr(*wannier.wannier_one_band_2d_nematic(*c['h']))
    wh.save_hr(d, name='m.dat')
    back = wannier.create_wannier_hr_from_file(d + 'm.dat')
    g = bz.KGrid((4, 3, 1))
    t.close(back.get_ek(g, one_band=False), wh.get_ek(g, one_band=False), 'H(k) from the file', rtol=0, atol=2e-5)
    nb = back.hr.shape[-1]
    want = [[(i + 1, j + 1) for j in range(nb)] for i in range(nb)]
    for ir in range(back.hr.shape[0]):
        t.equal(back.orbs[ir], want, f'orbital labels in the file, R-vector {ir}')


@law('C06', case(nb=st.integers(1, 4), nr=st.integers(1, 7), nk=nk_st, seed=seeds), 80, 1000,
     'non-trivial: several bands and k-points')
def hk_file_round_trip(c, t):
    wh = wannier.WannierHr(*random_hr(c['seed'], c['nb'], c['nr']))
    g = bz.KGrid(tuple(c['nk']))
    d = t.tmp()
    wh.save_hk(g, d)
    hk, kpts = wannier.read_hk_w2k(d + 'wannier.hk')
    nb = c['nb']
    want = wh.get_ek(g, one_band=False).reshape(-1, nb, nb)
    t.nontrivial(nb > 1 and g.nk_tot > 1)
    t.close(np.asarray(hk).reshape(want.shape), want, 'H(k) from file', rtol=0, atol=2e-12)
    t.close(kpts, g.kmesh_list, 'k-points from file', rtol=1e-12, atol=1e-12)
    wannier.write_hk_wannier90(want, d + 'b.hk', g.kmesh_list, g.nk)
    hk2, kp2 = wannier.read_hk_w2k(d + 'b.hk')
    t.equal(hk2, hk, 'write_hk_wannier90 vs save_hk')


@law('C06', case(natoms=st.integers(1, 3), nd=st.integers(1, 2), npb=st.integers(0, 1), nk=st.integers(1, 6), seed=seeds,
                 extra=st.integers(-1, 2), header=st.sampled_from(['std', 'comment', 'v1', 'version']), so=st.booleans()), 120, 1500,
     'non-trivial: obsolete or commented header, or a different number of points than announced')
def hk_reader_understands_headers(c, t):
    nb = c['natoms'] * (c['nd'] + c['npb'])
    nspin = 2 if c['so'] else 1
    nbf = nb * nspin
    nk, nfile = c['nk'], c['nk'] + c['extra']
    h = data(c['seed'], (nfile, nbf, nbf))
    h = h + np.conj(np.swapaxes(h, 1, 2))
    kp = data(c['seed'], (nfile, 3), 'real', 4)
    d = t.tmp()
    with open(d + 'x.hk', 'w', encoding='utf-8') as f:
        if c['header'] == 'std':
            f.write(f'{nk} {nbf} {nbf}\n')
        elif c['header'] == 'comment':
            f.write(f'{nk} {nbf} {nbf} # header\n')
        elif c['header'] == 'v1':
            f.write(f'{nk} {c["natoms"] * nspin} {c["nd"]} {c["npb"]}\n')
        else:
            f.write(f'VERSION 2\n{nk} {c["natoms"] * nspin}\n')
            for _ in range(c['natoms'] * nspin):
                f.write(f'{c["nd"]} {c["npb"]} 0 0\n')
        for i in range(nfile):
            f.write(' '.join(repr(float(x)) for x in kp[i]) + '\n')
            for a in range(nbf):
                f.write(' '.join(f'{x.real:.15e} {x.imag:.15e}' for x in h[i, a]) + '\n')
    t.label(c['header'])
    t.nontrivial(c['header'] != 'std' or c['extra'] != 0)
    read = lambda: wannier.read_hk_w2k(d + 'x.hk', spin_sym=not c['so'])  # noqa
    if nfile < nk:
        t.raises(ValueError, read, 'too few k-points')
        return
    hk, kpts = read()
    want = h[:nk].reshape(nk, nspin, nb, nspin, nb).transpose(0, 2, 1, 4, 3)
    t.close(np.asarray(hk).reshape(want.shape), want, 'H(k)', rtol=1e-13)
    t.close(kpts, kp[:nk].T, 'k-points', rtol=1e-13)
