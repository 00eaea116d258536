"""C23: whole runs - everything a run stores is what the equations give for its input, whatever the options, processes and symmetries"""
import ast
import contextlib
import functools
import inspect
import io
import json
import os
import shutil
import sys
import textwrap
import types
import warnings
import numpy as np
from ruamel.yaml import YAML
from vpbt.core import law, case, st, floats, seeds, rng, HERE
from vpbt.laws import runcfg
from vpbt.laws.refdga import Run, vn, hoppings, write_hoppings
from dga import bubble, config, two_point as twop
from dga import brillouin_zone as bz
from dga import wannier

DRIVER = os.path.join(HERE, 'vpbt', 'run_driver.py')


def physical(nks, **kw):
    """a model with its impurity data; the sizes are kept small, the reference is dense"""
    base = dict(nk=st.sampled_from(nks), hr=st.tuples(floats(0.3, 1.2), floats(-0.3, 0.3), floats(-0.2, 0.2)).map(list), beta=floats(1.0, 5.0), u=floats(0.3, 2.5),
                n=floats(0.7, 1.3), mu=floats(-0.3, 1.2), niw=st.integers(1, 3), niv=st.integers(1, 4), nsh=st.integers(0, 3), strength=floats(0, 0.4), seed=seeds)
    base.update(kw)
    return base


def benign(nks, **kw):
    """the same within the range in which nearly every model is well conditioned and has a simple lambda correction"""
    base = dict(beta=floats(1.0, 3.0), u=floats(0.3, 1.5), n=floats(0.85, 1.15), niw=st.integers(1, 3), niv=st.integers(3, 5), strength=floats(0, 0.4))
    base.update(kw)
    return physical(nks, **base)


SYM = {'none': lambda nk: True, 'two_dimensional_square': lambda nk: nk[0] == nk[1], 'quasi_one_dimensional_square': lambda nk: True,
       'simultaneous_x_y_inversion': lambda nk: True}


@functools.lru_cache(None)
def returns_nothing(f):
    """whether f is only called for what it draws"""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    except (OSError, TypeError, SyntaxError):
        return False
    return not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Return) and x.value is not None for x in ast.walk(tree))


@contextlib.contextmanager
def stubbed(plots):
    """pictures: only a few cases draw them really (without writing them), they dominate the run time"""
    from mpi4py import MPI
    from dga import plotting, high_level_plotting, local_four_point, dga_main, optics
    old = []

    def put(m, k, v):
        if hasattr(m, k):
            old.append((m, k, getattr(m, k)))
            setattr(m, k, v)

    def end():
        pass
    for m in list(vars(dga_main).items()):
        if isinstance(m[1], types.BuiltinFunctionType) and m[1] == MPI.Finalize:
            put(dga_main, m[0], end)
    put(MPI, 'Finalize', end)
    if not plots:
        for m in (plotting, high_level_plotting):
            for k, v in list(vars(m).items()):
                if isinstance(v, types.FunctionType) and returns_nothing(v):
                    put(m, k, lambda *a, **k: None)
        for m, k in ((local_four_point, 'plot_fourpoint_nu_nup'), (optics, 'plot_opt_cond_matsubara'), (optics, 'plot_opt_cond_realf')):
            if returns_nothing(getattr(m, k, None)):
                put(m, k, lambda *a, **k: None)
    argv = sys.argv
    try:
        with runcfg.no_plots(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.argv = argv
        for m, k, v in reversed(old):
            setattr(m, k, v)


def write(path, conf, dmft=None):
    if dmft is not None:
        np.save(path + 'dmft.npy', dmft, allow_pickle=True)
    with open(path + 'dga_config.yaml', 'w', encoding='utf-8') as f:
        YAML().dump(conf, f)


def run_here(path, plots=False):
    """one process, in this interpreter; returns the new output folder"""
    from dga import dga_main
    before = set(os.listdir(path))
    try:
        with stubbed(plots), contextlib.redirect_stdout(io.StringIO()):
            sys.argv = ['dga_main', '-p', path]
            dga_main.main()
    except (AttributeError, TypeError):  # perhaps for want of the pictures that are left out
        if plots:
            raise
        for x in set(os.listdir(path)) - before:
            shutil.rmtree(os.path.join(path, x))
        return run_here(path, True)
    new = sorted(set(os.listdir(path)) - before)
    assert len(new) == 1, new
    return path + new[0] + '/'


def load(folder, name):
    return np.load(folder + name, allow_pickle=True)


def txt(folder, name):
    return np.atleast_1d(np.loadtxt(folder + name))


def files(folder):
    """relative names of the results (not of the pictures, logs)"""
    out = []
    for d, _, fs in os.walk(folder):
        out += [os.path.relpath(os.path.join(d, f), folder) for f in fs if not f.endswith(('.png', '.pdf', '.log'))]
    return sorted(out)


def same(a, b, msg, t, rtol=1e-7, skip=(), ref=None):
    """two output folders hold the same results"""
    fa, fb = files(a), files(b)
    t.check(fa == fb, f'{msg}: files differ: {sorted(set(fa) ^ set(fb))}')
    for f in fa:
        if f in skip:
            continue
        if f.endswith('.npy'):
            x, y = load(a, f), load(b, f)
            if x.dtype == object:
                x, y = x.item(), y.item()
                t.check(sorted(x) == sorted(y), f'{msg}: keys of {f}')
                for k in x:
                    if k.startswith('delta'):  # iterative eigenvectors: C16
                        continue
                    if k.startswith('lambda'):
                        t.close(np.asarray(y[k]), np.asarray(x[k]), f'{msg}: {f}[{k}]', rtol=1e-3, atol=1e-4)
                        continue
                    t.close(np.asarray(y[k]), np.asarray(x[k]), f'{msg}: {f}[{k}]', rtol=rtol, atol=1e-9)
            else:
                t.close(y, x, f'{msg}: {f}', rtol=rtol, atol=1e-9)
        elif f.endswith('.txt') and 'eigenvalues' not in f and 'MaxEnt' not in f and f != 'oz_coeff.txt':
            t.close(txt(b, f), txt(a, f), f'{msg}: {f}', rtol=1e-6, atol=2.1e-6)


def coarse(nk, mode):
    """a q-grid whose points are also points of the k-grid; 1: every even axis halved, more: another divisor along every axis"""
    if not mode:
        return list(nk)
    if mode == 1:
        return [a // 2 if a % 2 == 0 else a for a in nk]
    out = []
    for i, a in enumerate(nk):
        div = [d for d in range(1, a + 1) if a % d == 0]
        out.append(a // div[(mode + i) % len(div)])
    return out


def conf_of(c, path, **kw):
    d = runcfg.conf_dict(nk=c['nk'], nq=c.get('nq'), niw=c['niw'], niv=c['niv'], shell=c['nsh'], hr=c['hr'], input_path=path, **kw)
    if c.get('band'):
        write_hoppings(path + 'band_hr.dat', hoppings(c['seed'], *c['band']), c['seed'])
        d['lattice'].update(type='from_wannier90', hr_input=path + 'band_hr.dat')
    if c.get('auto'):
        d['box_sizes']['niw_core'] = d['box_sizes']['niv_core'] = -1
    return d


def noisy(c, d):
    """disturb g2 antisymmetrically in v, v': the symmetrisation that the runs request has to remove it"""
    r = rng(c['seed'], 13)
    for ch in ('dens', 'magn'):
        z = r.standard_normal(d[f'g4iw_{ch}'].shape) * np.max(np.abs(d[f'g4iw_{ch}']))
        d[f'g4iw_{ch}'] = d[f'g4iw_{ch}'] + z - z.transpose(0, 2, 1)
    return d


NKS = [[4, 4, 1], [3, 3, 1], [5, 5, 1], [4, 2, 1], [3, 4, 1], [2, 2, 1], [1, 4, 1], [2, 2, 2], [6, 2, 1], [4, 4, 2], [5, 1, 1]]


def fill(run, mu, smom0):
    """electrons from the Green's function on the calculated frequencies plus the analytic tail"""
    v = vn(run.beta, -run.nf, run.nf)
    g = (1 / (1j * v + mu - run.ek[..., None] - run.sigma)).mean(axis=(0, 1, 2))
    eps = mu - run.ek.mean() - smom0
    tail = 1 / (1j * v + eps)
    x = run.beta * eps
    rho = 1 / (1 + np.exp(-x)) if abs(x) < 300 else float(x > 0)
    return 2 * (np.sum(g - tail).real / run.beta + rho)


whole = dict(lam=st.sampled_from(['spch', 'spch', 'sp', 'none']), sym=st.sampled_from(sorted(SYM)), extra=st.sampled_from([0, 0, 1, 2]), nq=st.just(0), noise=st.booleans(), auto=st.booleans(),
             asympt=st.sampled_from([-1, -1, 9]), save_vrg=st.just(False), save_fq=st.just(False), pair=st.just(False))


@law('C23', case(**physical(NKS, **whole)), 50, 1200, 'non-trivial: well conditioned, several momenta and frequencies')
def run_equals_the_dense_equations(c, t):
    """all stored arrays and numbers of a run against dense textbook equations at every momentum of the full zone"""
    whole_run(c, t)


@law('C23', case(**physical([[4, 4, 1], [4, 2, 1], [6, 2, 1], [4, 4, 2], [2, 2, 2], [5, 4, 1], [6, 6, 1], [3, 6, 1], [4, 6, 2]], **dict(whole, nq=st.sampled_from([1, 1, 2, 3, 4, 5]), save_vrg=st.booleans()))), 40, 800,
     'non-trivial: well conditioned, several momenta and frequencies')
def run_on_a_coarser_q_grid_equals_the_dense_equations(c, t):
    """nq < nk: the bosonic momenta are the common points of both grids"""
    whole_run(c, t)


@law('C23', case(**physical(NKS, niw=st.integers(2, 4), niv=st.integers(2, 4), **{k: v for k, v in dict(whole, save_vrg=st.booleans(), save_fq=st.booleans(), pair=st.sampled_from([True, True, False])).items()})),
     40, 800, 'non-trivial: well conditioned, several momenta and frequencies')
def stored_vertices_equal_the_dense_equations(c, t):
    """three-leg, ladder and pairing vertices"""
    whole_run(c, t)


@law('C23', case(**physical([[4, 4, 1], [3, 3, 1], [4, 3, 1], [5, 2, 1], [3, 2, 2], [2, 2, 3], [1, 3, 2]], **dict(whole, parity=st.booleans(), coarse=st.sampled_from([0, 0, 1, 2, 3]), save_vrg=st.booleans(), save_fq=st.booleans()))), 30, 600,
     'non-trivial: well conditioned, several momenta and frequencies')
def run_with_a_wannier_hamiltonian(c, t):
    """arbitrary hermitian hoppings from a file: on-site energy, anisotropy, interlayer hopping, bands without inversion symmetry"""
    nk = tuple(c['nk'])
    sym = c['sym'] if SYM[c['sym']](nk) else 'none'
    whole_run(dict(c, sym=sym, band=[sym, c['parity']], nq=int(c['coarse'])), t)


def whole_run(c, t):
    nk = tuple(c['nk'])
    c = dict(c, extra=0 if c['auto'] else c['extra'], nq=coarse(nk, c['nq']))
    if c['nq'] != list(nk) or min(c['niw'], c['niv']) < 2:  # the pairing vertex needs frequencies and equal grids
        c['pair'] = False
    sym = c['sym'] if SYM[c['sym']](nk) and SYM[c['sym']](c['nq']) else 'none'
    run = Run(c).solve(c['lam'])
    t.label(f"lambda {c['lam']}")
    t.label('well conditioned', run.good)
    t.label('coarser q-grid', c['nq'] != list(nk))
    t.label(f'symmetries {sym}')
    if not run.good:
        t.nontrivial(False)
        return
    t.nontrivial(np.prod(nk) > 1)
    p = t.tmp()
    d = run.dmft_dict(c['extra'])
    write(p, conf_of(c, p, lambda_corr=c['lam'], symmetries=sym, asympt=c['asympt'], output=dict(save_vrg=c['save_vrg'], save_fq=c['save_fq']),
                     pairing=dict(do_pairing_vertex=c['pair'])), noisy(c, d) if c['noise'] else d)
    o = run_here(p)
    tol = dict(rtol=1e-10 * run.k ** 2 + 1e-6)
    if c['lam'] != 'none':
        tol = dict(rtol=1e-10 * run.k ** 2 + 1e-5)
    for ch in ('dens', 'magn'):
        t.close(load(o, f'gamma_{ch}.npy'), run.gam[ch], f'irreducible vertex {ch}', rtol=1e-9 * run.k ** 2)
        t.close(load(o, f'chi_{ch}_loc.npy'), run.loc[ch][0], f'local susceptibility {ch}', rtol=1e-9 * run.k)
        t.close(load(o, f'chi_{ch}_lam.npy'), run.mesh(run.lam[ch]), f'lattice susceptibility {ch}', **tol)
    t.close(load(o, 'siw_sde_full.npy'), run.sde, 'local self-energy from the equation of motion', rtol=1e-9 * run.k)
    t.close(load(o, 'siwk_dga.npy'), run.sigma, 'self-energy', **tol)
    lam = txt(o, 'lambda.txt')
    sc = 1 + max(abs(x) for x in run.lambdas.values())
    t.close(lam, np.array([run.lambdas['dens'], run.lambdas['magn']]), 'lambda.txt', rtol=0, atol=1e-5 * sc)
    # Green's function: a chemical potential that gives the filling
    sig_d = twop.SelfEnergy(run.siw, run.beta)
    smom = sig_d.smom0, sig_d.smom1
    g = load(o, 'giwk_dga.npy')
    h = g.shape[-1] // 2
    niv_as = run.nf + 2 * run.niw if c['asympt'] == -1 else c['asympt']
    t.check(g.shape == nk + (2 * h,) and h >= run.nf + niv_as, f'shape of the Green\'s function {g.shape}')
    mu, mu_dmft = txt(o, 'mu.txt')
    want, sig = run.green(mu, h, smom)
    t.close(g, want, 'Green\'s function', rtol=tol['rtol'] + 1e-5)
    t.close(mu_dmft, run.mu, 'mu of DMFT in mu.txt', atol=1.1e-6)
    t.close(fill(run, mu, smom[0]), c['n'], 'filling of the DGA Green\'s function', rtol=0, atol=1e-4)
    # scalars
    ek = run.ek[..., None]
    kin = np.sum(np.mean(ek * g, axis=(0, 1, 2))).real / run.beta
    pot = np.sum(np.mean((sig - smom[0]) * g, axis=(0, 1, 2))).real / run.beta + smom[0] * c['n'] / 2
    e = txt(o, 'energies.txt')
    t.close(e[[0, 2]], np.array([kin, pot]), 'DGA energies', rtol=1e-4, atol=1e-4)
    chi_corr = bubble.BubbleGenerator(wn=run.wn, giwk_obj=twop.GreensFunction(sig_d, run.ek, mu=run.mu, niv_asympt=niv_as),
                                      is_full_wn=True).get_asymptotic_correction_q(run.nf, np.array([[0, 0, 0]]))[0, run.niw].real
    t.close(txt(o, 'UniformStaticSusceptibility.txt'), np.array([run.lam[ch][0, run.niw].real + chi_corr for ch in ('dens', 'magn')]),
            'uniform static susceptibility', rtol=1e-5, atol=1e-5)
    # stored input and settings
    s = load(o, 'dmft_input.npy').item()
    for ch in ('dens', 'magn'):
        t.close(s[f'g4iw_{ch}'], run.g2(ch), f'stored two-particle input {ch}', rtol=1e-9 * run.k)
    for k in ('giw', 'siw', 'n', 'beta', 'u', 'mu_dmft'):
        t.equal(s[k], d[k], f'stored input {k}')
    hr = wannier.create_wannier_hr_from_file(o + 'wannier_hr.dat')
    t.close(hr.get_ek(bz.KGrid(nk, ())), run.ek, 'dispersion of the stored Hamiltonian', rtol=1e-5, atol=1e-5)
    # optional output
    t.check(('F_dens.npy' in os.listdir(o)) == c['save_fq'] and ('vrg_q_dens.npy' in os.listdir(o)) == c['save_vrg'], 'optional output')
    grid = bz.KGrid(tuple(c['nq']), config.LatticeConfig(dict(symmetries=sym, type='t_tp_tpp', hr_input=c['hr'], nk=list(nk))).symmetries)
    for ch in ('dens', 'magn'):
        if c['save_vrg']:
            t.close(load(o, f'vrg_q_{ch}.npy'), run.vrg[ch][grid.irrk_ind], f'three-leg vertex {ch}', **tol)
        if c['save_fq']:
            t.close(load(o, f'F_{ch}.npy'), run.mesh(run.ladder_f(ch)), f'ladder vertex {ch}', rtol=tol['rtol'] * 10)
    if c['pair']:
        for n, f in zip(('sing', 'trip'), run.pairing()):
            t.close(load(o, f'Eliashberg/F_{n}_pp.npy'), run.mesh(f), f'{n} pairing vertex', rtol=tol['rtol'] * 10)


def found(ev, n_eig):
    """(shift, eigenvalues in the order in which a power iteration finds them, whether it can tell them apart); multiplets may be degenerate"""
    def lead(x):
        x = np.asarray(x)
        top = np.max(np.abs(x))
        near = x[np.abs(x) > 0.99 * top]
        return x[np.argmax(np.abs(x))], bool(np.all(np.abs(near - near[0]) <= 1e-9 * top))
    first, ok = lead(ev)
    s = min(first, 0.0)
    rest, order = list(ev), []
    for _ in range(n_eig):
        x, sep = lead(np.array(rest) - s)
        ok = ok and sep and len(rest) > n_eig
        order.append(x + s)
        rest.pop(int(np.argmin(np.abs(np.array(rest) - s - x))))
    return s, order, ok


def with_band(c, sym, t):
    """hoppings from a file instead of the nearest three neighbours"""
    if not c.get('wannier'):
        return c
    t.label('arbitrary hoppings')
    return dict(c, band=[sym, c['parity']])


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [4, 2, 1], [2, 2, 1], [2, 2, 2], [3, 2, 1], [5, 3, 1]], niw=st.integers(2, 4), niv=st.integers(2, 4), n_eig=st.sampled_from([1, 1, 1, 2, 3]), sym=st.sampled_from(sorted(SYM)), lam=st.sampled_from(['spch', 'sp', 'none']),
                            sing=st.sampled_from([True, True, False]), trip=st.sampled_from([True, True, False]), keep=st.booleans(), wannier=st.booleans(), parity=st.sampled_from([True, True, False]))), 45, 700, 'non-trivial: well conditioned, eigenvalues that the iteration can separate')
def eliashberg_of_a_run(c, t):
    """stored eigenvalues and gap functions of both channels solve the gap equation of the pairing vertex and the Green's function of the run"""
    from vpbt.laws import c17
    nk = tuple(c['nk'])
    sym = c['sym'] if SYM[c['sym']](nk) else 'none'
    c = with_band(c, sym, t)
    run = Run(c).solve(c['lam'])
    t.label('well conditioned', run.good)
    if not run.good:
        t.nontrivial(False)
        return
    p = t.tmp()
    write(p, conf_of(c, p, lambda_corr=c['lam'], symmetries=sym, output=dict(keep_pairing_vertex=c['keep']),
                     pairing=dict(do_pairing_vertex=True, do_eliash=True, n_eig=c['n_eig'], eps=1e-11, max_count=5000, sym_sing=c['sing'], sym_trip=c['trip'])), run.dmft_dict())
    np.random.seed(c['seed'] % 2 ** 32)
    o = run_here(p)
    t.check(all((f'F_{n}_pp.npy' in os.listdir(o + 'Eliashberg')) == c['keep'] for n in ('sing', 'trip')), 'pairing vertices are kept on request only')
    got = load(o, 'Eliashberg/eliashberg.npy').item()
    g = load(o, 'giwk_dga.npy')
    seen = 0
    for i, (n, f) in enumerate(zip(('sing', 'trip'), run.pairing())):
        f = run.mesh(f)
        h, m = g.shape[-1] // 2, f.shape[-1] // 2
        gk = g[..., h - m:h + m]
        gamma = -f
        if c[n]:
            gamma = 0.5 * (gamma + (1 if n == 'sing' else -1) * gamma[..., ::-1])
        lam, gap = np.asarray(got[f'lambda_{n}']), np.asarray(got[f'delta_{n}'])
        t.check(lam.shape == (c['n_eig'],) and gap.shape == (c['n_eig'],) + gk.shape, f'{n}: shapes {lam.shape} {gap.shape}')
        t.close(np.atleast_2d(np.loadtxt(o + 'Eliashberg/eigenvalues.txt', delimiter=',', ndmin=2))[i], lam.real, f'{n}: eigenvalues.txt', atol=1e-9)
        norm = np.prod(nk) * run.beta
        mat = c17.dense(gamma, gk, norm)
        a = np.abs(gk).reshape(-1)
        x = a[:, None] * mat / a[None, :]
        if np.max(np.abs(x - np.conj(x.T))) > 1e-6 * np.max(np.abs(x)):
            t.label('kernel without hermitian form')
            continue
        ev = np.linalg.eigvalsh(x)
        sc = np.max(np.abs(ev))
        s, order, ok = found(ev, c['n_eig'])
        t.label(f'{n}: hermitian')
        t.label(f'{n}: separated', ok)
        if not ok or sc < 1e-8:
            continue
        seen += 1
        t.label(f'{n}: repulsive', s < 0)
        t.close(np.loadtxt(o + 'Eliashberg/eigenvalues_s.txt', delimiter=',', ndmin=1).reshape(2, -1)[i, 0], s, f'{n}: shift', rtol=0, atol=2e-4 * sc + 1e-8)
        for j in range(c['n_eig']):
            t.close(lam[j], order[j], f'{n}: eigenvalue {j}', rtol=0, atol=2e-4 * sc)
            v = gap[j].reshape(-1) / np.linalg.norm(gap[j])
            t.close(mat @ v, order[j] * v, f'{n}: gap function {j}', rtol=0, atol=5e-3 * sc)
    t.nontrivial(seen > 0)


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [3, 4, 1], [5, 3, 1], [3, 2, 2]], niw=st.integers(2, 4), niv=st.integers(3, 5), nsh=st.integers(0, 3), der_a=st.sampled_from([0, 0, 0, 1]), der_b=st.sampled_from([0, 0, 0, 1]),
                            bub=st.sampled_from([True, True, False]), vert=st.sampled_from([True, True, False]), keep=st.booleans(), nc=st.sampled_from([-1, 0, 1, 2]), nw=st.sampled_from([-1, 1, 2]), nb=st.sampled_from([-1, 2, 5]),
                            nbub=st.sampled_from([-1, 1, 3]), nq=st.sampled_from([0, 0, 1, 1, 2, 3]), sym=st.sampled_from(sorted(SYM)), wannier=st.booleans(), parity=st.booleans())), 60, 1000, 'non-trivial: bubble or vertex, well conditioned')
def optics_equals_the_defining_sums(c, t):
    """the current-current correlation functions of a run are the explicit sums over its Green's function and its ladder vertex"""
    optics_sums(c, t)


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [4, 2, 1], [6, 2, 1], [4, 3, 1], [3, 2, 2], [5, 4, 1]], niw=st.integers(2, 4), niv=st.integers(3, 5), nsh=st.integers(0, 2), der_a=st.sampled_from([0, 0, 0, 1]), der_b=st.sampled_from([0, 0, 0, 1]), bub=st.booleans(), vert=st.just(True), keep=st.booleans(), nc=st.sampled_from([-1, 0, 1, 2]), nw=st.sampled_from([-1, 1, 2]),
                            nb=st.just(-1), nbub=st.just(-1), nq=st.sampled_from([0, 1, 1, 2, 3]), sym=st.sampled_from(sorted(SYM)), wannier=st.booleans(), parity=st.booleans())), 40, 800,
     'non-trivial: the vertex correction does not vanish by symmetry, well conditioned')
def vertex_correction_of_a_run(c, t):
    """the same for models whose vertex correction does not vanish"""
    t.nontrivial(optics_sums(c, t))


def optics_sums(c, t):
    nk = tuple(c['nk'])
    c = dict(c, nq=coarse(nk, c['nq']))
    sym = c['sym'] if SYM[c['sym']](nk) and SYM[c['sym']](c['nq']) and c['der_a'] == c['der_b'] else 'none'
    if sym == 'two_dimensional_square' and not (c['bub'] or c['vert']):
        sym = 'none'
    c = with_band(c, sym, t)
    run = Run(c).solve('spch')
    if not run.good or not (c['bub'] or c['vert']):
        t.nontrivial(False)
        return False
    p = t.tmp()
    opt = dict(do_bubble=c['bub'], do_vertex=c['vert'], der_a=c['der_a'], der_b=c['der_b'], niw_cond=c['nc'], niw_vert=min(c['nw'], c['niw']), niv_bubble=c['nb'], niw_bubble=c['nbub'])
    write(p, conf_of(c, p, symmetries=sym, optics=opt, output=dict(keep_fq_optics=c['keep'])), run.dmft_dict())
    o = run_here(p)
    t.nontrivial(np.prod(nk) > 1)
    nc = c['niw'] // 2 if c['nc'] == -1 else c['nc']
    nw = c['niw'] if c['nw'] == -1 else min(c['nw'], c['niw'])
    g = load(o, 'giwk_dga.npy')
    left = sorted(f for f in os.listdir(o + 'Optics') if f.endswith('.npy'))
    t.check(left == ['F_cond.npy'] * (c['vert'] and c['keep']) + ['chijj_bubble.npy'] * c['bub'] + ['chijj_vert.npy'] * c['vert'], f'files {left}')
    if c['bub']:
        nbub = nc if c['nbub'] == -1 else c['nbub']
        asym = run.nf + 2 * run.niw
        nb = asym - 2 * nc if c['nb'] == -1 else c['nb']
        want = run.chijj_bubble(g, range(nbub + 1), nb, c['der_a'], c['der_b'])
        got = load(o, 'Optics/chijj_bubble.npy')
        t.close(got, np.concatenate((np.conj(want[:0:-1]), want)), 'bubble', rtol=1e-9, atol=1e-12)
    if c['vert']:
        fc = run.optics_vertex(nc, nw)
        tol = 1e-10 * run.k ** 2 + 1e-4
        if c['keep']:
            t.close(load(o, 'Optics/F_cond.npy'), run.mesh(fc), 'vertex', rtol=tol)
        want = run.chijj_vert(g, fc, c['der_a'], c['der_b'])
        scale = np.max(np.abs(fc)) * np.max(np.abs(g)) ** 4 * np.max(np.abs(run.velocity(0))) ** 2 / run.beta ** 2
        t.close(load(o, 'Optics/chijj_vert.npy'), np.concatenate((np.conj(want[:0:-1]), want)), 'vertex correction', rtol=tol, scale=max(np.max(np.abs(want)), 1e-3 * scale))
        return bool(np.max(np.abs(want)) > 1e-3 * scale)
    return False


ALL = dict(wannier=st.booleans(), parity=st.booleans(), save_vrg=st.booleans(), save_fq=st.booleans(), pair=st.booleans(), eliash=st.booleans(), optics=st.booleans(), poly=st.booleans(), lam=st.sampled_from(['spch', 'sp', 'none']))


def all_options(c, path, **kw):
    pair = c['pair'] and min(c['niw'], c['niv']) > 1 and not c.get('nq')
    extra = {}
    if c['optics']:
        extra['optics'] = dict(do_bubble=True, do_vertex=True, niw_cond=1, niw_vert=1)
    if c['poly']:
        extra['poly_fitting'] = dict(n_fit=2, o_fit=1)
    if pair:
        extra['pairing'] = dict(do_pairing_vertex=True, do_eliash=c['eliash'], n_eig=1, k_sym='d-wave', max_count=200)
    out = dict(save_vrg=c['save_vrg'], save_fq=c['save_fq'], keep_fq_optics=True)
    return conf_of(c, path, lambda_corr=c['lam'], output=out, **extra, **kw)


def usable(c):
    """the reference tells whether the model is well conditioned (results comparable between two ways of summing)"""
    return Run(c).solve(c['lam']).good


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [4, 2, 1], [5, 5, 1], [4, 4, 2]], niw=st.integers(1, 4), niv=st.integers(2, 4), ranks=st.integers(2, 4), keep_rank=st.sampled_from([False, False, True]), nq=st.sampled_from([0, 0, 1]), **ALL)), 4, 100,
     'non-trivial: more than one process, well conditioned')
def result_does_not_depend_on_the_processes_1(c, t):
    """every stored result is the same for one and for several MPI processes"""
    processes(c, t)


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [4, 2, 1], [5, 5, 1], [4, 4, 2]], niw=st.integers(2, 4), niv=st.integers(2, 4), ranks=st.integers(2, 4), keep_rank=st.sampled_from([False, False, True]), nq=st.just(0), **dict(ALL, pair=st.just(True), save_vrg=st.just(True)))), 4,
     100, 'non-trivial: more than one process, well conditioned')
def result_does_not_depend_on_the_processes_2(c, t):
    """the same with the pairing vertex, which every process writes into its own file"""
    processes(c, t)


def processes(c, t):
    c = dict({'keep_rank': False}, **c)
    if c['nq']:
        c['nq'] = [a // 2 if a % 2 == 0 else a for a in c['nk']]
    else:
        c.pop('nq')
    nq = tuple(c.get('nq') or c['nk'])
    sym = 'two_dimensional_square' if c['nk'][0] == c['nk'][1] else 'quasi_one_dimensional_square'
    n_irr = bz.KGrid(nq, config.LatticeConfig(dict(symmetries=sym, type='t_tp_tpp', hr_input=c['hr'], nk=list(nq))).symmetries).nk_irr
    n = min(c['ranks'], n_irr)
    t.nontrivial(n > 1)
    c = with_band(c, sym, t)
    if n < 2 or not usable(c):
        t.nontrivial(False)
        return
    t.label(f'{n} processes')
    p = t.tmp()
    os.mkdir(p + 'one')
    os.mkdir(p + 'many')
    dmft = Run(c).dmft_dict()
    for d in ('one/', 'many/'):
        write(p + d, all_options(c, p + d, symmetries=sym, debug=dict(keep_rank_files=c['keep_rank'])), dmft)
    one = run_here(p + 'one/')
    runcfg.run_mpi(t, n, [DRIVER, 'run', p + 'many/', p + 'done'], p, need=p + 'done')
    new = [f for f in os.listdir(p + 'many') if f.startswith('LDGA')]
    t.check(len(new) == 1, f'output folders {new}')
    many = p + 'many/' + new[0] + '/'
    for d, m in ((one, 1), (many, n)):
        t.check(drop_rank_files(d) == (m if c['keep_rank'] else 0), f'{m} processes: the files of the processes are kept on request only')
    same(one, many, f'{n} processes', t, rtol=1e-6, skip=('dga_config.yaml',))


def drop_rank_files(folder):
    gone = [f for f in os.listdir(folder) if f.endswith('.hdf5')]
    for f in gone:
        os.remove(folder + f)
    return len(gone)


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [5, 5, 1], [4, 4, 2]], niw=st.integers(1, 4), niv=st.integers(2, 4), sym=st.sampled_from(['two_dimensional_square', 'quasi_one_dimensional_square', 'simultaneous_x_y_inversion']),
                            **ALL)), 25, 500, 'non-trivial: well conditioned')
def result_does_not_depend_on_the_symmetries(c, t):
    """using the symmetries of the lattice only saves work: all results equal those on the full zone (dependence on the representatives aside)"""
    c = with_band(c, c['sym'], t)
    if not usable(c):
        t.nontrivial(False)
        return
    p = t.tmp()
    dmft = Run(c).dmft_dict()
    out = []
    for s in ('none', c['sym']):
        os.mkdir(p + s)
        write(p + s + '/', all_options(c, p + s + '/', symmetries=s), dmft)
        out.append(run_here(p + s + '/'))
    t.nontrivial(True)
    for o in out:
        for ch in ('dens', 'magn'):
            if os.path.exists(o + f'vrg_q_{ch}.npy'):
                os.remove(o + f'vrg_q_{ch}.npy')  # holds the irreducible points only
    same(out[0], out[1], c['sym'], t, rtol=1e-6, skip=('dga_config.yaml',))


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [1, 1, 1], [5, 2, 1], [2, 2, 2]], strength=floats(0, 0.3), u=floats(0.5, 2), one=st.booleans(), lam=st.sampled_from(['spch', 'sp', 'none']))), 40, 600,
     'non-trivial: interacting')
def without_dispersion_dga_is_dmft(c, t):
    """no hopping (or a single momentum): the lattice is the impurity, the lambda correction vanishes and the self-energy is the one of DMFT"""
    c = dict(c)
    if c['one']:
        c['nk'] = [1, 1, 1]
    else:
        c['hr'] = [0.0, 0.0, 0.0]
    run = Run(c)
    k = max(np.linalg.cond(m) for m in np.concatenate([run.chi_full[ch] for ch in run.chi_full]))
    run.solve(c['lam'])
    t.nontrivial(c['u'] > 0.4 and k < 1e3)
    if not (k < 1e3 and run.good and all(abs(x) < 1e-6 for x in run.lambdas.values())):
        t.nontrivial(False)  # lambda = 0 is then not the first root
        return
    p = t.tmp()
    write(p, conf_of(c, p, lambda_corr=c['lam'], symmetries='none'), run.dmft_dict())
    o = run_here(p)
    t.close(txt(o, 'lambda.txt'), np.zeros(2), 'lambda.txt', atol=1e-5)
    for ch in ('dens', 'magn'):
        t.close(load(o, f'chi_{ch}_lam.npy'), np.ones(tuple(c['nk']) + (1,)) * run.loc[ch][0], f'susceptibility {ch}', rtol=1e-5)
    want = np.ones(tuple(c['nk']) + (1,)) * run.siw[run.NS - run.nf:run.NS + run.nf]
    t.close(load(o, 'siwk_dga.npy'), want, 'self-energy', rtol=1e-5 * max(1, k / 100))


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [4, 2, 1]], niw=st.integers(1, 3), niv=st.integers(2, 4), **ALL)), 15, 300, 'non-trivial: well conditioned')
def a_run_can_be_repeated_from_its_output(c, t):
    """the stored configuration and the stored input reproduce the run, in a new folder, without touching the first one"""
    sym = 'two_dimensional_square' if c['nk'][0] == c['nk'][1] else 'none'
    c = with_band(c, sym, t)
    if not usable(c):
        t.nontrivial(False)
        return
    t.nontrivial(True)
    p = t.tmp()
    write(p, all_options(c, p, symmetries=sym), noisy(c, Run(c).dmft_dict()))
    one = run_here(p)
    saved = {f: open(one + f, 'rb').read() for f in files(one)}
    with open(one + 'dga_config.yaml', encoding='utf-8') as f:
        conf = YAML().load(f)
    conf['dmft_input']['fname_1p'] = os.path.basename(one[:-1]) + '/dmft_input.npy'
    write(p, conf)
    two = run_here(p)
    t.check(two != one, 'the second run wrote into the folder of the first')
    t.check({f: open(one + f, 'rb').read() for f in files(one)} == saved, 'the second run changed the output of the first')
    same(one, two, 'repeated run', t, rtol=1e-9, skip=('dga_config.yaml',))


@law('C23', case(**benign([[4, 4, 1], [3, 3, 1], [4, 2, 1], [5, 5, 1], [2, 2, 1]], niw=st.integers(1, 4), niv=st.integers(2, 4), nq=st.booleans(), verbosity=st.integers(0, 2), cont=st.booleans(), **ALL)), 6, 60,
     'non-trivial: always')
def drawing_the_pictures_does_not_stop_a_run(c, t):
    """for every box and option the run completes with all its default plots, and the plots do not change the results"""
    c = dict({'keep_rank': False}, **c)
    if c['nq']:
        c['nq'] = [a // 2 if a % 2 == 0 else a for a in c['nk']]
    else:
        c.pop('nq')
    c = with_band(c, 'none', t)
    if not usable(c):
        t.nontrivial(False)
        return
    t.nontrivial(True)
    p = t.tmp()
    out = []
    for d in ('a/', 'b/'):
        os.mkdir(p + d)
        cf = all_options(c, p + d, symmetries='none')
        cf['output']['verbosity'] = c['verbosity']
        write(p + d, cf, Run(c).dmft_dict())
        out.append(run_here(p + d, plots=d == 'b/'))
    same(out[0], out[1], 'with plots', t, rtol=1e-9, skip=('dga_config.yaml',))
