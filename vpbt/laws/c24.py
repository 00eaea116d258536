"""C24: post-processing - continuations, fits and Fermi surfaces of a run describe what the run stored"""
import contextlib
import io
import os
import numpy as np
from vpbt.core import law, case, st, floats, seeds, rng
from vpbt.laws import runcfg, c23
from vpbt.laws.refdga import Run, vn
from dga import analytic_continuation as a_cont
from dga import brillouin_zone as bz
from dga import config, dga_io, high_level_plotting, optics, two_point as twop, wannier
from dga import ornstein_zernicke_function as ozf

SYMS = {'none': [], 'two_dimensional_square': ['x-inv', 'y-inv', 'x-y-sym'], 'quasi_one_dimensional_square': ['x-inv', 'y-inv'], 'simultaneous_x_y_inversion': ['x-y-inv']}

cont_case = dict(strength=st.just(0.0), u=floats(0.2, 1.2), beta=floats(2.0, 6.0), niw=st.integers(3, 4), niv=st.integers(3, 4), nsh=st.integers(0, 3), nq=st.booleans(), auto=st.booleans(),
                 loc=st.booleans(), s=st.sampled_from([None, True, True, False]), g=st.sampled_from([True, None, True, True, False]),
                 d=st.sampled_from([True, None, True, True, False]), m=st.sampled_from([True, True, None, False]), nwr=st.integers(25, 41), wmax=floats(6, 10), mesh=st.sampled_from(['tan', 'linear']),
                 err=st.sampled_from([1e-2, 1e-3]), n_fit=st.integers(4, 8), deep=st.booleans(), wannier=st.booleans(), parity=st.booleans())


def settings(c):
    base = dict(nwr=c['nwr'], wmax=c['wmax'], wmin=-c['wmax'], mesh_type=c['mesh'], err=c['err'], n_fit=c['n_fit'], bw=0.0)
    own = dict(n_fit=c['n_fit'] + 1, nwr=c['nwr'] - 4, err=5 * c['err']) if c['deep'] else {}
    out = dict(base)
    if c['loc']:
        out['loc'] = dict(do_cont=True)
        out['bw_range_loc'] = [0.05, 0.3]
    for k, key in (('s', 's_dga'), ('g', 'g_dga'), ('d', 'chi_d'), ('m', 'chi_m')):
        if c[k] is not None:
            out[key] = dict(own, do_cont=c[k])
    return base, own, out


def sym_of(c):
    return 'two_dimensional_square' if c['nk'][0] == c['nk'][1] and c['seed'] % 2 else 'quasi_one_dimensional_square'


def prepare(c, t, path):
    """a finished run whose configuration asks for continuations"""
    c['nq'] = [a // 2 if a % 2 == 0 else a for a in c['nk']] if c['nq'] else list(c['nk'])
    if c.get('wannier'):
        c['band'] = [sym_of(c), c['parity']]
        t.label('arbitrary hoppings')
    run = Run(c)
    t.nontrivial(any(c[k] for k in 'sgdm'))
    base, own, sec = settings(c)
    c23.write(path, c23.conf_of(c, path, lambda_corr='none', symmetries=sym_of(c)), run.dmft_dict())
    o = c23.run_here(path)
    # data of the size of the run that have a spectrum: small boxes alone do not give any
    r = rng(c['seed'], 3)
    grid = bz.KGrid(tuple(c['nk']), ())
    ek = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*c['hr'])).get_ek(grid)[..., None]
    a = np.load(o + 'siwk_dga.npy')
    v = vn(run.beta, -a.shape[-1] // 2, a.shape[-1] // 2)
    np.save(o + 'siwk_dga.npy', run.hartree + (0.3 + 0.1 * np.cos(ek)) / (1j * v - r.uniform(-2, 2) - 0.3 * ek) + 0.2 / (1j * v + r.uniform(-2, 2)))
    qgrid = bz.KGrid(tuple(c['nq']), ())
    eq = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*c['hr'])).get_ek(qgrid)[..., None]
    w = 2 * np.pi / run.beta * np.arange(-run.niw, run.niw + 1)
    for ch in ('dens', 'magn'):
        np.save(o + f'chi_{ch}_lam.npy', (0.7 + 0.3 * np.sin(eq + r.uniform(0, 6))) / (1 + w ** 2 / (r.uniform(0.5, 3) + 0.2 * np.cos(eq)) ** 2) + 0j)
    from ruamel.yaml import YAML
    with open(o + 'dga_config.yaml', encoding='utf-8') as f:
        conf = YAML().load(f)
    conf['max_ent'] = sec
    with open(o + 'dga_config.yaml', 'w', encoding='utf-8') as f:
        YAML().dump(conf, f)
    return run, o, base, own


def dirs(o):
    return sorted(x for x in os.listdir(o) if x.startswith('MaxEnt') and os.path.isdir(o + x))


@law('C24', case(**c23.physical([[4, 4, 1], [3, 3, 1], [4, 2, 1], [5, 3, 1], [2, 2, 2], [3, 4, 1]], **cont_case)), 32, 350, 'non-trivial: at least one quantity is continued')
def continuation_of_a_run(c, t):
    """every requested quantity is continued at every momentum with its own settings; self-energy and Green's function fit together"""
    c = dict(c)
    p = t.tmp()
    run, o, base, own = prepare(c, t, p)
    before = {f: open(o + f, 'rb').read() for f in c23.files(o)}
    from dga import dga_max_ent
    with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
        dga_max_ent.main(path=o)
    t.check({f: open(o + f, 'rb').read() for f in before} == before, 'the continuation changed the stored results')
    names = {'s': 'MaxEntSiwk', 'g': 'MaxEntGiwk', 'd': 'MaxEntChiDens', 'm': 'MaxEntChiMagn'}
    t.check(dirs(o) == sorted([v for k, v in names.items() if c[k] is not None] + ['MaxEnt'] * c['loc']), f'folders {dirs(o)}')
    for k, v in names.items():
        if c[k] is False:
            t.check(not [f for f in os.listdir(o + v) if f.endswith('.npy')], f'{v} was continued although do_cont is off')
    nk, nq = tuple(c['nk']), tuple(c['nq'])
    grids = {n: bz.KGrid(n, tuple(SYMS[sym_of(c)])) for n in (nk, nq)}
    sig = twop.SelfEnergy(np.load(o + 'siwk_dga.npy'), run.beta)
    hr = wannier.create_wannier_hr_from_file(o + 'wannier_hr.dat')
    ek = run.ek
    gf = twop.GreensFunction(sig, ek, n=run.n, niv_asympt=run.nf)
    ferm = a_cont.MaxEnt(run.beta, 'freq_fermionic', me_config=base, **own)
    bos = a_cont.MaxEnt(run.beta, 'freq_bosonic', me_config=base, **own)

    def each(me, data, grid):
        """continue one representative of every class"""
        flat = data.reshape(-1, data.shape[-1])
        with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
            rep = me.analytic_continuation([flat[i] for i in grid.irrk_ind])
        # where the search for the regularisation does not converge on these few data, the result is zero by design
        ok = np.any(rep != 0, axis=-1)
        if not np.any(ok):
            t.nontrivial(False)
        t.label('a momentum without a converged continuation', not np.all(ok))
        return rep[grid.irrk_inv].reshape(data.shape[:-1] + (-1,)), ok[grid.irrk_inv].reshape(data.shape[:-1])

    tol = dict(rtol=1e-4, atol=1e-6)
    real = None
    if c['s']:
        want, ok = each(ferm, sig.get_siw(ferm.n_fit) - sig.smom0, grids[nk])
        got = np.load(o + 'MaxEntSiwk/swk_dga_cont_fbz.npy')
        t.equal(np.load(o + 'MaxEntSiwk/w.npy'), ferm.w, 'mesh')
        t.close(got[ok], (want + sig.smom0)[ok], 'self-energy', **tol)
        real = twop.RealFrequencyGF(ferm.w, got, ek, n=run.n, deltino=0.04)
        g = np.load(o + 'MaxEntSiwk/gwk_dga_cont_fbz.npy')
        t.close(g, real.gwk(), 'Green\'s function from the self-energy', **tol)
        t.close(1 / g - ferm.w + ek[..., None] + got - 0.04j, np.full(g.shape, real.mu), 'Dyson equation on the real axis', rtol=1e-6, atol=1e-6)
        s, w = optics.vec_get_sigma_bub_realf(real, hr, grids[nk], run.beta, ferm.w[-1] / 3)
        t.close(np.load(o + 'MaxEntSiwk/w_bub.npy'), w, 'frequencies of the conductivity')
        t.close(np.load(o + 'MaxEntSiwk/sigma_bub.npy'), s, 'bubble conductivity', rtol=1e-3, atol=1e-6)
    if c['g']:
        want, ok = each(ferm, gf.g_full(), grids[nk])
        got = np.load(o + 'MaxEntGiwk/gwk_dga_cont_fbz.npy')
        t.equal(np.load(o + 'MaxEntGiwk/w.npy'), ferm.w, 'mesh')
        t.close(got[ok], want[ok], 'Green\'s function', **tol)
    for k, v, n in (('d', 'MaxEntChiDens', 'dens'), ('m', 'MaxEntChiMagn', 'magn')):
        if c[k]:
            chi = np.load(o + f'chi_{n}_lam.npy')
            want, ok = each(bos, chi, grids[nq])
            got = np.load(o + f'{v}/chi_{n}_cont_fbz.npy')
            t.equal(np.load(o + f'{v}/w.npy'), bos.w, 'mesh')
            t.close(got[ok], want[ok], f'susceptibility {n}', **tol)
    if c['loc']:
        me = config.MaxEntConfig(1, run.beta, dict(base, bw_range_loc=[0.05, 0.3]))
        sd = twop.SelfEnergy(run.dmft_dict()['siw'][None, None, None, :], run.beta)
        loc = {'dmft': twop.GreensFunction(sd, ek, mu=run.mu, niv_asympt=run.nf + 2 * run.niw).g_loc, 'dga': gf.g_loc}
        t.equal(np.load(o + 'MaxEnt/w.npy'), me.mesh, 'mesh')
        for n, gl in loc.items():
            for bw in (0.05, 0.3):
                with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
                    want, _ = a_cont.max_ent_loc(gl, me, bw)
                t.close(np.load(o + f'MaxEnt/{n}_cont_bw{bw}.npy'), want, f'local Green\'s function {n}', **tol)


@law('C24', case(**c23.physical([[4, 4, 1], [3, 3, 1], [4, 2, 1]], **dict(cont_case, niw=st.integers(1, 4), nwr=st.integers(25, 31), ranks=st.integers(2, 3), loc=st.just(False)))), 5, 60,
     'non-trivial: at least one quantity is continued')
def continuation_does_not_depend_on_the_processes(c, t):
    """several MPI processes store the same continued functions as one"""
    c = dict(c)
    p = t.tmp()
    o = prepare(c, t, p)[1]
    irr = min(len(bz.KGrid(tuple(n), tuple(SYMS[sym_of(c)])).irrk_ind) for n in (c['nk'], c['nq']))
    n = min(c['ranks'], irr)
    if n < 2:
        t.nontrivial(False)
        return
    import shutil
    shutil.copytree(o, p + 'copy')
    from dga import dga_max_ent
    with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
        dga_max_ent.main(path=o)
    runcfg.run_mpi(t, n, [c23.DRIVER, 'maxent', p + 'copy/', p + 'done'], p, need=p + 'done')
    t.check(dirs(o) == dirs(p + 'copy/'), f'folders {dirs(o)} {dirs(p + "copy/")}')
    for d in dirs(o):
        fs = [sorted(f for f in os.listdir(x + d) if f.endswith('.npy')) for x in (o, p + 'copy/')]
        t.check(fs[0] == fs[1], f'files {fs}')
        for f in fs[0]:
            t.close(np.load(f'{p}copy/{d}/{f}'), np.load(f'{o}{d}/{f}'), f'{n} processes: {d}/{f}', rtol=1e-4, atol=1e-6)


@law('C24', case(**c23.physical([[4, 4, 1], [3, 3, 1], [4, 2, 1], [2, 2, 2]], **dict(cont_case, niw=st.integers(4, 6), niv=st.integers(5, 7), u=floats(0.2, 1.0), strength=floats(0, 0.02), nwr=st.integers(25, 35),
                                 err=st.sampled_from([1e-2, 3e-3]), opt=st.sampled_from([0, 1, 1, 3]), late=st.booleans(), nvb=st.integers(30, 80), ncond=st.sampled_from([-1, 3, 4]),
                                 nbub=st.sampled_from([-1, 5, 12]), ofit=st.sampled_from([-1, 3, 20])))), 24, 250,
     'non-trivial: the optical conductivity or a function of the run is continued')
def continuations_inside_a_run(c, t):
    """sections max_ent and optics.max_ent: the run continues its own results exactly as a later continuation of the stored results would"""
    from dga import dga_max_ent
    c = dict(c, nq=0)
    run = Run(c)
    base, own, sec = settings(c)
    kw = dict(lambda_corr='none', symmetries=sym_of(c))
    t.label(f'optics {c["opt"]}')
    if c['opt']:
        kw['optics'] = dict(do_bubble=c['opt'] != 2, do_vertex=c['opt'] != 1, niv_bubble=c['nvb'])
        for k, v in (('niw_cond', c['ncond']), ('niw_bubble', c['nbub'])):
            if v > 0:
                kw['optics'][k] = v
    inside = not (c['opt'] and c['late'])
    t.nontrivial(bool(c['opt']) or any(c[k] for k in 'sgdm'))
    pb = t.tmp()
    c23.write(pb, c23.conf_of(c, pb, **kw), run.dmft_dict())
    b = c23.run_here(pb)
    t.check(dirs(b) == [] and not os.path.isfile(b + 'Optics/w.npy'), f'a continuation that was not requested: {dirs(b)}')
    want, osec = {}, {}
    if c['opt']:
        osec = dict(base, n_fit=c['ofit'])
        n_cond = c['ncond'] if c['ncond'] > 0 else c['niw'] // 2
        out = {n: np.load(f'{b}Optics/{n}.npy') for n in ('chijj_bubble', 'chijj_vert') if os.path.isfile(f'{b}Optics/{n}.npy')}
        t.check(sorted(out) == [n for n, k in (('chijj_bubble', 2), ('chijj_vert', 1)) if c['opt'] != k], f'stored {sorted(out)}')
        me = a_cont.MaxEnt(run.beta, 'freq_bosonic', me_config=dict(osec, n_fit=n_cond if c['ofit'] == -1 else c['ofit']))
        def continued(noise):
            with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
                x = {n: v * (1 + noise * rng(c['seed'], 5).uniform(-1, 1, len(v))) for n, v in out.items()}
                return dict(w=me.w, sigma_bubble_cont=me.cont_single_ind(x['chijj_bubble']), sigma_full_cont=me.cont_single_ind(sum_of(x)))
        try:
            want, other = continued(0), continued(1e-9)
            stable = all(np.all(np.isfinite(v)) and np.allclose(v, other[n], rtol=1e-5, atol=1e-7) for n, v in want.items())
        except RuntimeError:
            stable = False
        if not stable:  # no spectrum on so few frequencies
            t.label('no spectrum')
            t.nontrivial(False)
            return
        kw['optics']['max_ent'] = osec
    if inside:
        kw['max_ent'] = sec
    pa = t.tmp()
    c23.write(pa, c23.conf_of(c, pa, **kw), run.dmft_dict())
    a = c23.run_here(pa)
    fa, fb = ([f for f in c23.files(x) if not f.startswith('MaxEnt') and f not in ('dga_config.yaml', 'Optics/optics_config.yaml')] for x in (a, b))
    t.check(sorted(fa) == sorted(fb + [f'Optics/{n}.npy' for n in want]), f'files with and without a continuation {sorted(set(fa) ^ set(fb))}')
    for f in fb:
        if f.endswith('.npy') and f != 'dmft_input.npy':
            t.close(np.load(a + f), np.load(b + f), f'{f} with and without a continuation', rtol=1e-8, atol=1e-10)
    for n, v in want.items():
        t.close(np.load(f'{a}Optics/{n}.npy'), v, f'conductivity: {n}', rtol=1e-4, atol=1e-6)
    if not inside:
        t.check(dirs(a) == [], f'a continuation that was not requested: {dirs(a)}')
        return
    import shutil
    shutil.copy(a + 'dga_config.yaml', b + 'dga_config.yaml')
    disturbed = pb + 'disturbed/'
    shutil.copytree(b, disturbed)
    with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
        dga_max_ent.main(path=b)
    t.check(dirs(a) == dirs(b), f'folders of the run {dirs(a)}, afterwards {dirs(b)}')
    first = {(d, f): np.load(f'{b}{d}/{f}') for d in dirs(b) for f in os.listdir(b + d) if f.endswith('.npy')}
    for f in ('siwk_dga', 'chi_dens_lam', 'chi_magn_lam'):  # where the data do not have a spectrum the result depends on the last digits
        x = np.load(f'{disturbed}{f}.npy')
        np.save(f'{disturbed}{f}.npy', x * (1 + 1e-9 * rng(c['seed'], 6).uniform(-1, 1, x.shape)))
    with c23.stubbed(False), contextlib.redirect_stdout(io.StringIO()):
        dga_max_ent.main(path=disturbed)
    for d in dirs(b):
        t.check(sorted(f for f in os.listdir(a + d) if f.endswith('.npy')) == sorted(f for x, f in first if x == d), f'files of the run in {d}')
        for f in (f for x, f in first if x == d):
            x, y, z = np.load(f'{a}{d}/{f}'), first[d, f], np.load(f'{disturbed}{d}/{f}')
            t.check(x.shape == y.shape, f'{d}/{f}: shapes {x.shape} {y.shape}')
            ok = np.all(np.isfinite(y) & np.isfinite(z) & (np.abs(y - z) <= 1e-5 * np.abs(y) + 1e-7), axis=-1)
            t.label('continued data with a spectrum', bool(np.any(ok)))
            if np.any(ok) and (f != 'gwk_dga_cont_fbz.npy' or d != 'MaxEntSiwk' or np.all(ok)):
                t.close(x[ok], y[ok], f'in the run: {d}/{f}', rtol=1e-4, atol=1e-6)


def sum_of(parts):
    """sum of quantities on boxes of bosonic frequencies; one that is not known at a frequency does not contribute there"""
    h = max(len(x) // 2 for x in parts.values())
    res = np.zeros(2 * h + 1, dtype=complex)
    for x in parts.values():
        n = len(x) // 2
        res[h - n:h + n + 1] += x
    return res


# ------------------------------------------------------------------------------------------------ polynomial fits

def fit(v, y, order):
    """value of the interpolating / least-squares polynomial at zero"""
    a = np.vander(v, order + 1, increasing=True)
    return np.linalg.lstsq(a, y, rcond=None)[0][0]


def fitted(v, s, order):
    """gamma, shift, Z"""
    x = fit(v, s.imag / v, order)
    z = min(max(1 / (1 - x), 0), 1)
    return -fit(v, s.imag, order), fit(v, s.real, order), 1.0 if z == 0 else z


@law('C24', case(**c23.physical([[4, 4, 1], [3, 3, 1], [4, 2, 1], [5, 3, 1], [2, 2, 2], [5, 5, 1]], niw=st.integers(1, 3), niv=st.integers(2, 4), n_fit=st.integers(2, 4), o_fit=st.integers(1, 3),
                                sym=st.sampled_from(sorted(SYMS)), wannier=st.booleans(), parity=st.booleans())), 100, 1400, 'non-trivial: more points than coefficients')
def polynomial_fits_of_a_run(c, t):
    """the stored fits are the polynomial extrapolations to zero frequency of the stored functions, momentum by momentum"""
    c = dict(c)
    nk = tuple(c['nk'])
    sym = c['sym'] if c23.SYM[c['sym']](nk) else 'none'
    n_fit, order = min(c['n_fit'], c['niv'] + c['nsh']), c['o_fit']
    order = min(order, n_fit - 1)
    c = c23.with_band(c, sym, t)
    run = Run(c)
    t.nontrivial(n_fit > order + 1)
    p = t.tmp()
    c23.write(p, c23.conf_of(c, p, lambda_corr='none', symmetries=sym, poly_fitting=dict(n_fit=n_fit, o_fit=order)), run.dmft_dict())
    o = c23.run_here(p)
    d = o + 'PolyFits/'
    v = vn(run.beta, 0, 400)
    vals = {'Siwk_poly_cont_': np.load(o + 'siwk_dga.npy'), 'Giwk_dga_poly_cont_': np.load(o + 'giwk_dga.npy')}
    sd = twop.SelfEnergy(run.dmft_dict()['siw'][None, None, None, :], run.beta)
    vals['Giwk_dmft_poly_cont_'] = twop.GreensFunction(sd, run.ek, mu=run.mu, niv_asympt=run.nf + 2 * run.niw).g_full()
    t.check(sorted(os.listdir(d)) == sorted([f'{n}.npy' for n in vals] + ['Siw_DMFT_polyfit.txt']), f'files {sorted(os.listdir(d))}')
    for n, a in vals.items():
        got = np.load(f'{d}{n}.npy', allow_pickle=True).item()
        h = a.shape[-1] // 2
        m = min(n_fit, h)
        want = np.array([fitted(v[:m], x, order) for x in a.reshape(-1, 2 * h)[:, h:h + m]]).reshape(nk + (3,))
        if n != 'Giwk_dmft_poly_cont_':
            want = np.roll(want, [x // 2 for x in nk[:2]], axis=(0, 1))
        for i, k in enumerate(('im_fs', 're_fs', 'Z')):
            if k == 'Z' and np.any(np.abs(fit_den(a, v, m, order)) < 1e-3):
                continue
            t.close(np.asarray(got[k]), want[..., i], f'{n} {k}', rtol=1e-5, atol=1e-7, scale=max(1e-3, np.max(np.abs(want[..., i])), np.max(np.abs(a))))
    s = run.dmft_dict()['siw']
    g, b, z = fitted(v[:n_fit], s[len(s) // 2:][:n_fit], order)
    t.close(np.loadtxt(d + 'Siw_DMFT_polyfit.txt'), np.array([b, g, z]), 'fit of the DMFT self-energy', atol=2e-6)


def fit_den(a, v, m, order):
    h = a.shape[-1] // 2
    return np.array([1 - fit(v[:m], x.imag / v[:m], order) for x in a.reshape(-1, 2 * h)[:, h:h + m]])


# ------------------------------------------------------------------------------------------------ Ornstein-Zernike

@law('C24', case(nk=st.sampled_from([[4, 4, 1], [6, 6, 1], [5, 5, 1], [8, 4, 1], [4, 4, 2], [7, 3, 1], [10, 10, 1]]), a=floats(0.05, 3), xi=floats(0.4, 4), sym=st.booleans(), noise=floats(0, 0.2),
                 exact=st.booleans(), niw=st.integers(0, 3), seed=seeds), 100, 2000, 'non-trivial: exact data')
def ornstein_zernike_fit(c, t):
    """amplitude and correlation length of an Ornstein-Zernike susceptibility are found; otherwise the stored fit is a least-squares optimum"""
    nk = tuple(c['nk'])
    grid = bz.KGrid(nk, ('x-inv', 'y-inv') if c['sym'] else ())
    k = [np.arange(n) * 2 * np.pi / n for n in nk]
    d2 = (k[0][:, None, None] - np.pi) ** 2 + (k[1][None, :, None] - np.pi) ** 2 + k[2][None, None, :] ** 2

    def model(a, xi):
        return a / (xi ** -2 + d2)
    r = rng(c['seed'])
    chi0 = model(c['a'], c['xi'])
    t.close(ozf.oz_spin_w0(grid, c['a'], c['xi']), chi0.flatten(), 'function', rtol=1e-10)
    t.nontrivial(c['exact'])
    if not c['exact']:
        chi0 = chi0 * (1 + c['noise'] * r.standard_normal(nk))
    chi = r.standard_normal(nk + (2 * c['niw'] + 1,)) + 0j
    chi[..., c['niw']] = chi0
    p = t.tmp()
    np.save(p + 'chi_magn_lam.npy', chi)
    with c23.stubbed(False):
        dga_io.fit_and_plot_oz(p, grid)
    a, xi = np.loadtxt(p + 'oz_coeff.txt')
    if (a, xi) == (-1, -1):
        t.check(not c['exact'], 'the fit of an exact Ornstein-Zernike function failed')
        t.label('no fit')
        return
    xi = abs(xi)
    res = np.sum((model(a, xi) - chi0) ** 2)
    if c['exact']:
        t.close(np.array([a, xi]), np.array([c['a'], c['xi']]), 'amplitude and correlation length', rtol=1e-3, atol=1e-6)
        return
    # linear optimum in the amplitude, and no better correlation length nearby
    f = 1 / (xi ** -2 + d2)
    t.close(a, np.sum(f * chi0) / np.sum(f * f), 'amplitude', rtol=1e-3, atol=1e-3)
    for s in (0.97, 1.03):
        f = 1 / ((s * xi) ** -2 + d2)
        best = np.sum((np.sum(f * chi0) / np.sum(f * f) * f - chi0) ** 2)
        t.check(res <= best * (1 + 1e-4) + 1e-12, f'a better fit exists: xi {s * xi} with {best}, stored {xi} with {res}')


# ------------------------------------------------------------------------------------------------ Fermi surface

@law('C24', case(n1=st.integers(1, 12), n2=st.integers(1, 12), seed=seeds, kind=st.sampled_from(['random', 'band', 'sign'])), 150, 3000, 'non-trivial: zeros exist')
def zeros_are_the_closest_grid_points(c, t):
    """zero crossings are found between all neighbours of different sign and are assigned to the neighbour that is closest to the zero"""
    r = rng(c['seed'])
    n, m = c['n1'], c['n2']
    x = r.standard_normal((n, m))
    if c['kind'] == 'band':
        x = -2 * np.cos(2 * np.pi * np.arange(n) / n)[:, None] - 2 * r.uniform(0.3, 1) * np.cos(2 * np.pi * np.arange(m) / m + 0.1)[None, :] - r.uniform(-2, 2)
    elif c['kind'] == 'sign':
        x = np.abs(x) + 0.1
    if np.min(np.abs(x)) < 1e-6:
        t.nontrivial(False)
        return
    with c23.stubbed(False):
        got = bz.find_zeros(x + 1j * r.standard_normal((n, m)))
    t.check(got.shape == (len(got), 2) and np.issubdtype(got.dtype, np.integer), f'index pairs: {got.shape} {got.dtype}')
    want, tie = set(), False
    for i in range(n):
        for j in range(m):
            for a, b in ((1, 0), (0, 1)):
                if i + a < n and j + b < m and min(n, m) > 1 and x[i, j] * x[i + a, j + b] < 0:
                    tie = tie or abs(abs(x[i, j]) - abs(x[i + a, j + b])) < 1e-6
                    want.add((i, j) if abs(x[i, j]) < abs(x[i + a, j + b]) else (i + a, j + b))
    t.nontrivial(len(want) > 0)
    if not tie:
        t.check(set(map(tuple, got.tolist())) == want, f'zeros: got {sorted(set(map(tuple, got.tolist())))} expected {sorted(want)}')


@law('C24', case(nk=st.sampled_from([[4, 4, 1], [6, 6, 1], [8, 4, 1], [5, 7, 1], [4, 4, 2]]), nw=st.integers(5, 41), hr=st.tuples(floats(0.3, 1.2), floats(-0.3, 0.3), floats(-0.2, 0.2)).map(list), mu=floats(-1, 1),
                 w=floats(-3, 3), shift=st.booleans(), dim=st.integers(0, 2), val=floats(0, 6), eta=floats(0.02, 0.2), seed=seeds), 250, 4000, 'non-trivial: zeros exist')
def fermi_surface_on_the_real_axis(c, t):
    """intensity at the Fermi level and zeros of the real part at any energy and plane, in the requested zone"""
    nk = tuple(c['nk'])
    grid = bz.KGrid(nk, ())
    ek = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*c['hr'])).get_ek(grid)
    r = rng(c['seed'])
    w = np.linspace(-6, 6.5, c['nw'])
    s = r.standard_normal(nk + (1,)) * 0.2 - 1j * r.uniform(0.01, 0.2, nk + (c['nw'],))
    g = twop.RealFrequencyGF(w, s, ek, mu=c['mu'], deltino=c['eta'])
    want = 1 / (w + c['mu'] - ek[..., None] - s + 1j * c['eta'])

    def sh(x):
        return np.roll(x, [nk[0] // 2, nk[1] // 2], axis=(0, 1)) if c['shift'] else x
    i0 = np.argmin(np.abs(w))
    t.close(g.fs(pi_shift=c['shift']), sh(-want[..., i0].imag / np.pi), 'Fermi surface intensity')
    iw = np.argmin(np.abs(w - c['w']))
    k = (grid.kx, grid.ky, grid.kz)[c['dim']]
    sl = np.take(sh(want[..., iw].real), np.argmin(np.abs(k - c['val'])), axis=c['dim'])
    if min(sl.shape) < 2 or np.min(np.abs(sl)) < 1e-6:
        t.nontrivial(False)
        return
    edges, tie = set(), False
    for i in range(sl.shape[0]):
        for j in range(sl.shape[1]):
            for a, b in ((1, 0), (0, 1)):
                if i + a < sl.shape[0] and j + b < sl.shape[1] and sl[i, j] * sl[i + a, j + b] < 0:
                    tie = tie or abs(abs(sl[i, j]) - abs(sl[i + a, j + b])) < 1e-6
                    edges.add((i, j) if abs(sl[i, j]) < abs(sl[i + a, j + b]) else (i + a, j + b))
    t.nontrivial(len(edges) > 0)
    if not edges or tie:
        return
    with runcfg.no_plots():
        ix, iy = g.get_fs_surface_slice_indices(grid, k_slice_dim=c['dim'], k_slice_val=c['val'], w_val=c['w'], pi_shift=c['shift'])
    t.check(set(zip(iy.tolist(), ix.tolist())) == edges, f'zeros: got {sorted(set(zip(iy.tolist(), ix.tolist())))} expected {sorted(edges)}')
    tb = g.get_gwk_tb(deltino=0.05)
    t.close(1 / tb.gwk() - w + ek[..., None] - 0.05j - tb.mu, np.zeros(nk + (c['nw'],)), 'non-interacting Green\'s function', atol=1e-8)
