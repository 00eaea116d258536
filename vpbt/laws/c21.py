"""C21: reading and symmetrising the output of the impurity solvers"""
import contextlib
import io
import os
import sys
import itertools
import h5py
import numpy as np
from mpi4py import MPI
from hypothesis import strategies as st
from vpbt.core import law, case, floats, seeds, rng, cplx
from dga import config
from dga import dga_io
from dga import local_four_point as lfp
from dga import matsubara_frequencies as mf
from dga import symmetrize as sym
from dga import w2dyn_aux_dga as w2
from cli import sym1b

SPINS = [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1)]
DENS = {(0, 0, 0, 0): .5, (0, 0, 1, 1): .5, (1, 1, 0, 0): .5, (1, 1, 1, 1): .5, (0, 1, 1, 0): 0, (1, 0, 0, 1): 0}
MAGN = {(0, 0, 0, 0): .25, (0, 0, 1, 1): -.25, (1, 1, 0, 0): -.25, (1, 1, 1, 1): .25, (0, 1, 1, 0): .25, (1, 0, 0, 1): .25}


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def kanamori(n):
    """band patterns of a Kanamori interaction"""
    s = {(i, i, i, i) for i in range(n)}
    for i, j in itertools.permutations(range(n), 2):
        s |= {(i, i, j, j), (i, j, i, j), (i, j, j, i)}
    return sorted(s)


def compound(n, bands, spins):
    """1-based compound index, first operator most significant, spin fastest"""
    g = 0
    for b, s in zip(bands, spins):
        g = g * 2 * n + 2 * b + s
    return g + 1


def band_index(n, bands):
    g = 0
    for b in bands:
        g = g * n + b
    return g + 1


def sym_lists(classes):
    """1-based list of equivalent bands of every band"""
    return [[j + 1 for j in range(len(classes)) if classes[j] == classes[i]] for i in range(len(classes))]


def orbit(n, classes, bands):
    """band patterns that the permutations of equivalent bands generate"""
    out = set()
    for p in itertools.permutations(range(n)):
        if all(classes[p[i]] == classes[i] for i in range(n)):
            out.add(tuple(p[b] for b in bands))
    return sorted(out)


classes_st = st.sampled_from([[0], [0, 0], [0, 1], [0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 2], [0, 1, 1]])
TARGETS = {'1freq_b': 'p2iw-worm', '2freq': 'p3iw-worm', '3freq': 'g4iw-worm'}


def write_worm(path, worm, target, atoms, niw, niv, r, nan=False):
    data = []
    with h5py.File(path, 'w') as f:
        f['.axes/iw'] = np.arange(3.0)
        f['.axes/tau'] = np.arange(5.0)
        for a, cl in enumerate(atoms):
            n = len(cl)
            d = {}
            for bands in kanamori(n):
                for s in SPINS:
                    shape = {'1freq_b': (2 * niw + 1,), '2freq': (2 * niv, 2 * niw + 1), '3freq': (2 * niv, 2 * niv, 2 * niw + 1)}[target]
                    x = cplx(r, shape)
                    if nan and target == '3freq':
                        x[r.uniform(size=shape) < 0.1] = np.nan
                    d[bands, s] = x
                    f[f'{worm}/ineq-{a + 1:03}/{TARGETS[target]}/{compound(n, bands, s):05}/value'] = x
            data.append(d)
    return data


@law('C21', case(target=st.sampled_from(['1freq_b', '2freq', '3freq', '3freq']), atoms=st.lists(classes_st, min_size=1, max_size=2), niw=st.integers(0, 3), niv=st.integers(1, 3),
                 worm=st.sampled_from(['worm-last', 'worm-001', 'worm-007']), nan=st.booleans(), seed=seeds), 90, 1500,
     'non-trivial: several bands or atoms')
def symmetrised_vertex_is_the_orbit_mean(c, t):
    """density and magnetic components are the spin combinations averaged over equivalent bands, transposed; every component is written, nothing else"""
    r = rng(c['seed'])
    p = t.tmp()
    t.nontrivial(len(c['atoms']) > 1 or len(c['atoms'][0]) > 1)
    t.label(c['target'])
    t.label('other worm group', c['worm'] != 'worm-last')
    for a in c['atoms']:
        t.label(f'classes {a}')
    data = write_worm(p + 'in.hdf5', c['worm'], c['target'], c['atoms'], c['niw'], c['niv'], r, c['nan'])
    conf = {'nineq': len(c['atoms']), 'target': c['target'], 'sym_type': 'o', 'outfile': p + 'out.hdf5', 'Nbands': [len(a) for a in c['atoms']],
            'infile': p + 'in.hdf5', 'sym': [sym_lists(a) for a in c['atoms']], 'worm_group': c['worm']}
    with silent():
        sym.main(conf)
    with h5py.File(p + 'out.hdf5', 'r') as f:
        for a, (cl, d) in enumerate(zip(c['atoms'], data)):
            n = len(cl)
            for ch, weight in (('dens', DENS), ('magn', MAGN)):
                for bands in kanamori(n):
                    eq = orbit(n, cl, bands)
                    want = sum(weight[s] * np.nan_to_num(d[b, s]) for b in eq for s in SPINS) / len(eq)
                    g = f'ineq-{a + 1:03}/{ch}'
                    bi = f'{band_index(n, bands):05}'
                    if c['target'] == '1freq_b':
                        got = f[f'{g}/{bi}'][()]
                    elif c['target'] == '2freq':
                        got = np.stack([f[f'{g}/{w:05}/{bi}'][()] for w in range(2 * c['niw'] + 1)], axis=-1)
                    else:
                        got = np.stack([f[f'{g}/{w:05}/{bi}/value'][()].T for w in range(2 * c['niw'] + 1)], axis=-1)
                    t.close(got, want, f'{ch} {bands}', rtol=1e-12)
                entries = list(f[g])
                t.check(len(entries) == (len(kanamori(n)) if c['target'] == '1freq_b' else 2 * c['niw'] + 1), 'entries')
                if c['target'] != '1freq_b':
                    t.check(all(len(f[f'{g}/{e}']) == len(kanamori(n)) for e in entries), 'band components')
        if c['target'] == '3freq':
            t.equal(f['.axes/tau'][()], np.arange(5.0), 'axes are kept')


@law('C21', case(atoms=st.lists(classes_st, min_size=1, max_size=2), niv=st.integers(1, 6), seed=seeds), 60, 800, 'non-trivial: several bands')
def symmetrised_greens_function_is_the_orbit_mean(c, t):
    """giw and siw become the mean over spins and equivalent bands; the original data stay available; the input file is untouched"""
    r = rng(c['seed'])
    p = t.tmp()
    t.nontrivial(any(len(a) > 1 for a in c['atoms']))
    data = []
    with h5py.File(p + 'in.hdf5', 'w') as f:
        f['.config'] = np.zeros(1)
        f['.config'].attrs['general.beta'] = 3.0
        for a, cl in enumerate(c['atoms']):
            d = {k: cplx(r, (len(cl), 2, 2 * c['niv'])) for k in ('giw', 'siw')}
            for k, v in d.items():
                f[f'dmft-last/ineq-{a + 1:03}/{k}/value'] = v
            data.append(d)
    raw = open(p + 'in.hdf5', 'rb').read()
    conf = {'nineq': len(c['atoms']), 'target': '1freq_f', 'outfile': p + 'out.hdf5', 'Nbands': [len(a) for a in c['atoms']], 'infile': p + 'in.hdf5',
            'sym': [sym_lists(a) for a in c['atoms']]}
    with silent():
        sym.main(conf)
    t.check(open(p + 'in.hdf5', 'rb').read() == raw, 'input file changed')
    out = w2.W2dynFile(p + 'out.hdf5')
    t.check(out.get_beta() == 3.0, 'other content')
    for a, (cl, d) in enumerate(zip(c['atoms'], data)):
        for k, got in (('giw', out.get_giw(atom=a + 1)), ('siw', out.get_siw(atom=a + 1))):
            for b in range(len(cl)):
                want = np.mean([d[k][j, s] for j in range(len(cl)) if cl[j] == cl[b] for s in (0, 1)], axis=0)
                t.close(got[b], np.stack([want, want]), f'{k} band {b}', rtol=1e-12)
            t.equal(out._file[f'dmft-last/ineq-{a + 1:03}/{k}_unsymmetrized/value'][()], d[k], 'original data')
    out.close()


@law('C21', case(kind=st.sampled_from(['classes', 'classes', 'exists']), n=st.integers(2, 3), same=st.booleans(), nineq=st.integers(1, 2), seed=seeds), 24, 200, 'non-trivial: always')
def bad_symmetrisation_requests_are_refused(c, t):
    """inconsistent orbital symmetries and an existing output file stop the script before anything is written"""
    p = t.tmp()
    t.label(c['kind'])
    r = rng(c['seed'])
    n = c['n']
    write_worm(p + 'in.hdf5', 'worm-last', '3freq', [[0] * n] * c['nineq'], 0, 1, r)
    conf = {'nineq': c['nineq'], 'target': '3freq', 'outfile': p + 'out.hdf5', 'Nbands': [n] * c['nineq'], 'infile': p + 'in.hdf5',
            'sym': [[list(range(1, n + 1))] * n for _ in range(c['nineq'])], 'worm_group': 'worm-last'}
    if c['kind'] == 'classes':
        own = [sorted({i + 1} | {int(j) + 1 for j in np.flatnonzero(r.integers(0, 2, n))}) for i in range(n)]
        if c['same'] and n == 3:
            own = [[1, 2], [2, 3], [1, 3]] if c['seed'] % 2 else [[1, 2], [2, 3], [2, 3]]
        if all(own[i] == own[j - 1] for i in range(n) for j in own[i]):  # a partition: make band 1 point at the last one only
            own = [[1, n]] + [[i + 1] for i in range(1, n)] if c['seed'] % 2 else [[i + 1, (i + 1) % n + 1] for i in range(n)] if n == 3 else [[1], [1, 2]]
        conf['sym'][r.integers(c['nineq'])] = own
        t.label('lists of the same length', len({len(x) for x in own}) == 1)
    else:
        with open(p + 'out.hdf5', 'w', encoding='utf-8') as f:
            f.write('precious')
    with silent():
        t.raises(SystemExit, lambda: sym.main(conf), 'bad request')
    if c['kind'] == 'exists':
        t.check(open(p + 'out.hdf5', encoding='utf-8').read() == 'precious', 'existing file overwritten')
    else:
        t.check(not os.path.exists(p + 'out.hdf5'), 'something was written')


@law('C21', case(n=st.integers(1, 5), nop=st.integers(1, 4), pick=st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=30)), 150, 2000, 'non-trivial: several bands')
def compound_indices_round_trip(c, t):
    t.nontrivial(c['n'] > 1)
    n, k = c['n'], c['nop']
    for x in c['pick']:
        g = x % (2 * n) ** k + 1
        bs, b, s = sym.index2component_general(n, k, g)
        t.check(list(bs) == [2 * i + j for i, j in zip(b, s)] and all(j in (0, 1) for j in s) and all(0 <= i < n for i in b), 'components')
        t.check(compound(n, b, s) == g, f'group {g}: {b} {s}')
        h = sym.component2index_band(n, k, list(b))
        t.check(h == band_index(n, b), 'band index')
        t.check(list(sym.index2component_band(n, k, h)) == list(b), 'band components')


# ------------------------------------------------------------------------------------------------ reading

def write_g4iw(path, g, ineq=1, spinband=1):
    with h5py.File(path, 'a') as f:
        for ch, m in g.items():
            for w in range(m.shape[0]):
                f[f'ineq-{ineq:03}/{ch}/{w:05}/{spinband:05}/value'] = m[w].T


@law('C21', case(niw=st.integers(0, 6), other=st.integers(0, 6), niv=st.integers(1, 5), ineq=st.integers(1, 2), band=st.integers(1, 3), iw=st.lists(st.integers(-6, 6), min_size=1, max_size=6), seed=seeds),
     120, 2000, 'non-trivial: several bosonic frequencies')
def vertex_file_reader(c, t):
    """every reader returns [w, v, v'] in the order of increasing w, for the requested atom, band component and channel"""
    r = rng(c['seed'])
    p = t.tmp() + 'g.hdf5'
    niw, niv = c['niw'], c['niv']
    t.nontrivial(niw > 0)
    store = {}
    for ineq in (1, 2):
        mw, mv = (niw, niv) if ineq == c['ineq'] else (c['other'], 1 + c['seed'] % 4)  # the atoms do not need to have the same box
        for band in (1, c['band']):
            if (ineq, band) not in store:
                store[ineq, band] = {ch: cplx(r, (2 * mw + 1, 2 * mv, 2 * mv)) for ch in ('dens', 'magn')}
                write_g4iw(p, store[ineq, band], ineq, band)
    f = w2.W2dynG4iwFile(p)
    iw = np.array([i for i in c['iw'] if abs(i) <= niw] or [0])
    for ch in ('dens', 'magn'):
        want = store[c['ineq'], c['band']][ch]
        kw = dict(ineq=c['ineq'], channel=ch, spinband=c['band'])
        t.check(f.get_niw(**kw) == niw, 'number of bosonic frequencies')
        t.equal(f.read_g2_full(**kw), want, 'all frequencies')
        t.equal(f.read_g2(niw=niw, niv=niv, **kw), want, 'given range')
        t.equal(f.read_g2_iw(iw=iw, **kw), want[iw + niw], 'given frequencies')
    f.close()
    # three-leg files: [spin-band component] of the requested atom, transposed to [w, v]
    legs = {(i, b): cplx(r, (2 * niv, 2 * niw + 1)) for i in (1, 2) for b in (1, 2)}
    with h5py.File(p + '3', 'w') as h:
        for (i, b), x in legs.items():
            h[f'worm-001/ineq-{i:03}/p3iw-worm/{b:05}/value'] = x
    f = w2.W2dynThreeLeg(p + '3')
    for (i, b), x in legs.items():
        t.equal(f.read_fermi_bose(ineq=i, spinband=b), x.T, 'three-leg component')
    f.close()


def write_1p(path, kind, d, r, totdens_zero=False, noise=0.3):
    """the same physical input as a file of each kind"""
    with h5py.File(path, 'w') as f:
        if kind == 'EDFermion':
            f['giw'], f['siw_hat'] = d['giw'], d['siw']
            f['config/totdens'], f['config/beta'], f['config/U'], f['dmft/mu'] = d['n'], d['beta'], d['u'], d['mu_dmft']
        else:
            f.create_group('.config')
            at = f['.config'].attrs
            at['general.beta'], at['general.totdens'], at['atoms.1.udd'], at['general.nat'], at['atoms.1.nd'] = d['beta'], 0.0 if totdens_zero else d['n'], d['u'], 1, 1
            at['qmc.niw'] = len(d['giw']) // 2
            f['dmft-last/mu/value'] = d['mu_dmft']
            for k in ('giw', 'siw'):  # spin up and down scatter around their mean
                x = noise * cplx(r, len(d[k]))
                f[f'dmft-last/ineq-001/{k}/value'] = np.stack([d[k] + x, d[k] - x])[None]
                f[f'dmft-001/ineq-001/{k}/value'] = np.zeros((1, 2, len(d[k])), complex)
            occ = np.zeros((1, 2, 1, 2))
            occ[0, 0, 0, 0], occ[0, 1, 0, 1] = d['n'] * 0.55, d['n'] * 0.45
            occ[0, 0, 0, 1] = occ[0, 1, 0, 0] = 0.2 * d['n'] ** 2
            f['dmft-last/ineq-001/occ/value'] = occ


phys = dict(niw=st.integers(0, 5), niv=st.integers(1, 5), niv1=st.integers(6, 20), beta=floats(1, 40), n=floats(0.2, 1.8), u=floats(0, 8), mu=floats(-3, 4), seed=seeds)


def physical(c):
    r = rng(c['seed'])
    d = {'giw': cplx(r, 2 * c['niv1']), 'siw': cplx(r, 2 * c['niv1']), 'n': c['n'], 'beta': c['beta'], 'u': c['u'], 'mu_dmft': c['mu']}
    for ch in ('dens', 'magn'):
        d['g4iw_' + ch] = cplx(r, (2 * c['niw'] + 1, 2 * c['niv'], 2 * c['niv']))
    return d, r


def compare_input(t, got, d, what, rtol=1e-13):
    for k in ('giw', 'siw', 'g4iw_dens', 'g4iw_magn'):
        if k in d:
            t.close(got[k], d[k], f'{what}: {k}', rtol=rtol)
    for k in ('n', 'beta', 'u', 'mu_dmft'):
        t.check(np.ndim(got[k]) == 0 and abs(float(got[k]) - d[k]) <= 1e-12 * max(1, abs(d[k])), f'{what}: {k} = {got[k]} instead of {d[k]}')


@law('C21', case(kind=st.sampled_from(['w2dyn', 'w2dyn', 'EDFermion', 'default', 'test']), zero=st.booleans(), two=st.booleans(), **phys), 150, 2500,
     'non-trivial: with two-particle data')
def all_formats_give_the_same_input(c, t):
    """the same physical data are read identically from every supported kind of file, and survive being stored as the input of a run"""
    d, r = physical(c)
    p = t.tmp()
    t.nontrivial(c['two'])
    t.label(c['kind'])
    t.label('density from the occupations', c['kind'] == 'w2dyn' and c['zero'])
    if c['kind'] in ('default', 'test'):
        np.save(p + '1p.npy', d, allow_pickle=True)
        got = dga_io.load_1p_data(c['kind'], p, '1p.npy', '2p.hdf5')
    else:
        write_1p(p + '1p.hdf5', c['kind'], d, r, c['zero'])
        if c['kind'] == 'w2dyn':
            write_g4iw(p + '2p.hdf5', {'dens': d['g4iw_dens'], 'magn': d['g4iw_magn']})
        else:
            with h5py.File(p + '2p.hdf5', 'w') as f:
                f['g4iw_dens'], f['g4iw_magn'] = d['g4iw_dens'], d['g4iw_magn']
        got = dga_io.load_1p_data(c['kind'], p, '1p.hdf5', '2p.hdf5' if c['two'] else None)
        if not c['two']:
            t.check('g4iw_dens' not in got and 'g4iw_magn' not in got, 'no two-particle data were requested')
            d = {k: v for k, v in d.items() if not k.startswith('g4iw')}
    compare_input(t, got, d, c['kind'])
    t.raises(NotImplementedError, lambda: dga_io.load_1p_data('abinit', p, '1p.hdf5'), 'unknown kind')
    if 'g4iw_dens' in d:
        o = config.OutputConfig()
        o.output_path = p
        o.save_data(dga_io.create_dmft_ddict(got, lfp.get_g2_from_dmft_input(got, 'dens'), lfp.get_g2_from_dmft_input(got, 'magn')), 'dmft_input')
        compare_input(t, dga_io.load_1p_data('default', p, 'dmft_input.npy'), d, 'stored and read again')


@law('C21', case(cut_w=st.integers(-1, 6), cut_v=st.integers(-1, 6), do_sym=st.booleans(), **phys), 150, 2500, 'non-trivial: cut and symmetrised')
def vertex_is_cut_around_zero_and_symmetrised(c, t):
    """the core of the vertex is the central block, symmetrised in its fermionic frequencies on request; the input is not modified"""
    d, _ = physical(c)
    keep = {k: np.array(v) for k, v in d.items()}
    cfg = config.DgaConfig({'lattice': {'type': 't_tp_tpp', 'hr_input': [1.0, 0.0, 0.0], 'nk': [2, 2, 1]},
                            'box_sizes': {'niw_core': c['cut_w'], 'niv_core': c['cut_v'] if c['cut_v'] != 0 else 1}, 'dmft_input': {'do_sym_v_vp': c['do_sym']}}, comm=MPI.COMM_SELF)
    niw = c['niw'] if c['cut_w'] == -1 else c['cut_w']
    niv = c['niv'] if c['cut_v'] == -1 else max(c['cut_v'], 1)
    if niw > c['niw'] or niv > c['niv']:
        t.label('too large')
        t.raises(ValueError, lambda: dga_io.build_g2_obj(cfg, d), 'larger than the data')
        return
    t.nontrivial(niv < c['niv'] and niw < c['niw'] and c['do_sym'])
    got = dga_io.build_g2_obj(cfg, d)
    t.check((cfg.box.niw_core, cfg.box.niv_core) == (niw, niv), 'box')
    for g, ch in zip(got, ('dens', 'magn')):
        w, v = slice(c['niw'] - niw, c['niw'] + niw + 1), slice(c['niv'] - niv, c['niv'] + niv)
        want = keep['g4iw_' + ch][w, v, v]
        if c['do_sym']:
            want = (want + want.transpose(0, 2, 1)) / 2
        t.close(g.mat, want, ch, rtol=1e-13)
        t.check(g.channel == ch and g.beta == c['beta'] and g.u == c['u'] and g.niv == niv, 'attributes')
        t.equal(g.wn, np.arange(-niw, niw + 1), 'frequencies')
    for k, v in keep.items():
        t.equal(d[k], v, f'{k} was modified')


@law('C21', case(via=st.sampled_from(['main', 'sym1b', 'sym1b-names']), niw=st.integers(0, 4), niv=st.integers(1, 4), beta=floats(1, 20), n=floats(0.3, 1.5), u=floats(1, 6), mu=floats(0, 3),
                 niv1=st.integers(6, 12), seed=seeds), 40, 600, 'non-trivial: several bosonic frequencies')
def raw_solver_output_to_vertex(c, t):
    """raw worm components -> symmetrisation script -> reader gives the spin combinations in [w, v, v'] order"""
    d, r = physical(c)
    p = t.tmp()
    t.nontrivial(c['niw'] > 0)
    t.label(c['via'])
    fin, fout = {'main': ('g4iw.hdf5', 'g4iw_sym.hdf5'), 'sym1b': ('Vertex.hdf5', 'g4iw_sym.hdf5'), 'sym1b-names': ('a.hdf5', 'b.hdf5')}[c['via']]
    raw = write_worm(p + fin, 'worm-last', '3freq', [[0]], c['niw'], c['niv'], r)[0]
    if c['via'] == 'main':
        with silent():
            sym.main({'nineq': 1, 'target': '3freq', 'sym_type': 'o', 'outfile': p + fout, 'Nbands': [1, 1], 'infile': p + fin, 'sym': [[[1]]], 'worm_group': 'worm-last'})
    else:
        argv = sys.argv
        try:
            sys.argv = ['sym1b', '-p', p] + (['-if', fin, '-of', fout] if c['via'] == 'sym1b-names' else [])
            with silent():
                sym1b.main()
        finally:
            sys.argv = argv
    write_1p(p + '1p.hdf5', 'w2dyn', d, r)
    got = dga_io.load_1p_data('w2dyn', p, '1p.hdf5', fout)
    for ch, weight in (('dens', DENS), ('magn', MAGN)):
        d['g4iw_' + ch] = np.moveaxis(sum(weight[s] * raw[(0, 0, 0, 0), s] for s in SPINS), -1, 0)
    compare_input(t, got, d, 'raw output', rtol=1e-12)
    # an SU(2) symmetric vertex: longitudinal and transverse magnetic components agree
    su2 = lfp.get_g2_from_dmft_input(got, 'dens')
    t.check(su2.niv == c['niv'] and su2.mat.shape[0] == 2 * c['niw'] + 1, 'vertex')


@law('C21', case(nat=st.integers(1, 3), niv=st.integers(1, 5), it=st.sampled_from(['dmft-last', 'dmft-003']), atom=st.integers(1, 3), seed=seeds, full=st.booleans()), 80, 1000,
     'non-trivial: several atoms')
def solver_file_getters(c, t):
    """every getter returns the quantity of the requested atom and iteration"""
    r = rng(c['seed'])
    p = t.tmp() + 'x.hdf5'
    atom = min(c['atom'], c['nat'])
    t.nontrivial(c['nat'] > 1)
    d = {}
    nd = [int(r.integers(1, 4)) for _ in range(c['nat'])]
    with h5py.File(p, 'w') as f:
        f.create_group('.config')
        at = f['.config'].attrs
        conf = {'general.beta': r.uniform(1, 9), 'general.totdens': r.uniform(0, 2), 'general.nat': c['nat'], 'qmc.niw': c['niv']}
        for k, v in conf.items():
            at[k] = v
        for a in range(1, c['nat'] + 1):
            at[f'atoms.{a}.nd'] = nd[a - 1]
            at[f'atoms.{a}.udd'] = float(a)
            for it in ('dmft-last', 'dmft-003'):
                n = nd[a - 1]
                for k in ('siw', 'giw', 'g0iw', 'dc'):
                    d[k, it, a] = f[f'{it}/ineq-{a:03}/{k}/value'] = cplx(r, (n, 2, 2 * c['niv']))
                for k in ('siw-full', 'giw-full', 'g0iw-full', 'smom-full', 'occ'):
                    if c['full'] or k == 'occ':
                        d[k, it, a] = f[f'{it}/ineq-{a:03}/{k}/value'] = cplx(r, (n, 2, n, 2, 2 * c['niv']))
        for it in ('dmft-last', 'dmft-003'):
            d['mu', it] = f[it + '/mu/value'] = r.uniform()
            d['dc-latt', it] = f[it + '/dc-latt/value'] = cplx(r, 3)
    f = w2.W2dynFile(p)
    one = f.load_dmft1p_w2dyn()
    for k, g in (('gloc', 'giw'), ('sloc', 'siw')):
        x = d[g + '-full', 'dmft-last', 1].sum((0, 1, 2, 3)) if c['full'] else d[g, 'dmft-last', 1].sum((0, 1))
        t.close(one[k], 0.5 * x, k, rtol=1e-12)
    t.check((one['beta'], one['u'], one['mu'], one['n'], one['niv']) == (conf['general.beta'], 1.0, d['mu', 'dmft-last'], conf['general.totdens'], c['niv']), 'one-particle summary')
    t.close(one['hartree'], conf['general.totdens'] / 2, 'Hartree term of the summary', rtol=1e-12)
    t.check((f.get_beta(), f.get_totdens(), f.get_natom(), f.get_niw()) == tuple(conf[k] for k in ('general.beta', 'general.totdens', 'general.nat', 'qmc.niw')), 'configuration')
    t.check(f.get_nd(atom=atom) == nd[atom - 1] and f.get_nd_tot() == sum(nd) and f.get_udd(atom=atom) == atom, 'atoms')
    t.check(f.get_mu(c['it']) == d['mu', c['it']], 'mu')
    t.equal(f.get_dc_latt(c['it']), d['dc-latt', c['it']], 'double counting of the lattice')
    for k, g in (('siw', f.get_siw), ('giw', f.get_giw), ('g0iw', f.get_g0iw), ('dc', f.get_dc), ('occ', f.get_occ), ('siw-full', f.get_siw_full), ('giw-full', f.get_giw_full),
                 ('g0iw-full', f.get_g0iw_full), ('smom-full', f.get_smom_full)):
        if (k, c['it'], atom) in d:
            t.equal(g(dmft_iter=c['it'], atom=atom), d[k, c['it'], atom], k)
            t.equal(g(), d[k, 'dmft-last', 1], k + ' default')
    f.close()
