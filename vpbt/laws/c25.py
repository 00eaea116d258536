"""C25: figures show the stored data at the momenta and frequencies on their axes"""
import os
import re
import numpy as np
from vpbt.core import law, case, st, floats, seeds, rng, cplx
from vpbt.laws import c24, figs, runcfg, c23
from vpbt.laws.refdga import Run
from dga import analytic_continuation as a_cont
from dga import brillouin_zone as bz
from dga import dga_io, high_level_plotting as hlp, local_four_point as lfp, matsubara_frequencies as mf, optics, plotting, two_point as twop, wannier
from dga import ornstein_zernicke_function as ozf

NKS = st.tuples(st.integers(1, 7), st.integers(1, 7), st.integers(1, 3)).map(list)
TWO = 2 * np.pi


def fields(c, *shape):
    return cplx(rng(c['seed'], 11), tuple(shape))


def ind(x, n):
    """grid index of a momentum; it must lie on the grid"""
    y = x * n / TWO
    i = int(np.round(y))
    assert abs(y - i) < 1e-6, (x, n)
    return i % n


def panel(fig, word, n=None):
    """the axes whose title names the quantity"""
    a = [x for x in fig.axes if word in x.title]
    return a[0] if a else fig.axes[n]


def grid_map(t, ax, nk, data, msg, shifted, half=False):
    """data[kx, ky] over the whole zone, at the momenta modulo reciprocal lattice vectors; the axes must cover the grid"""
    def axis(n):
        k = TWO * np.arange(n) / n
        return k - TWO * (n // 2) / n if shifted else k
    xs, ys = axis(nk[0]), axis(nk[1])
    figs.shows(t, ax, xs, ys, lambda i, j: data[ind(xs[i], nk[0]), ind(ys[j], nk[1])], msg, need=nk[0] * nk[1])


def both(t, fig, nk, data, msg, shifted):
    t.check(len(fig.axes) == 2, f'{msg}: {len(fig.axes)} panels')
    grid_map(t, panel(fig, r'\Re', 0), nk, data.real, msg + ' (real part)', shifted)
    grid_map(t, panel(fig, r'\Im', 1), nk, data.imag, msg + ' (imaginary part)', shifted)
    for a in fig.axes:
        t.check('k_x' in a.xlabel and 'k_y' in a.ylabel, f'{msg}: labels {a.xlabel}, {a.ylabel}')


@law('C25', case(nk=NKS, sym=st.booleans(), shifted=st.booleans(), npts=st.integers(0, 4), seed=seeds), 60, 2000, 'non-trivial: grid with different numbers of points in x and y')
def momentum_maps(c, t):
    """matrices over the zone, with marked points; gap functions; on rectangular, odd and shifted grids"""
    nk = c['nk']
    t.nontrivial(nk[0] != nk[1])
    g = bz.KGrid(tuple(nk), ())
    f = fields(c, *nk, 2)
    pts = rng(c['seed'], 5).uniform(0, 3, (c['npts'], 2)) if c['npts'] else None
    show = g.shift_mat_by_pi(f, axes=(0, 1)) if c['shifted'] else f
    kx, ky = (g.kx_shift, g.ky_shift) if c['shifted'] else (g.kx, g.ky)
    keep = show.copy()
    with figs.record() as out:
        plotting.plot_kx_ky(show[:, :, 0, 0], kx, ky, pdir=t.tmp(), name='Map', scatter=pts)
        plotting.plot_gap_function_kx_ky(show[:, :, 0], kx, ky, pdir=t.tmp(), name='sing_0', scatter=pts)
    t.equal(show, keep, 'the figure changed its data')
    t.check([o.name for o in out] == ['Map.png', 'GapFunction_sing_0.png'], f'figures {[o.name for o in out]}')
    both(t, out[0], nk, f[:, :, 0, 0], 'plot_kx_ky', c['shifted'])
    # the two frequencies around zero: stored with the negative one first
    for word, i in (('n=0', 1), ('n=-1', 0)):
        a = [x for x in out[1].axes if word in x.title]
        t.check(len(a) == 1, f'gap function: no panel for {word}')
        grid_map(t, a[0], nk, f[:, :, 0, i].real, f'gap function {word}', c['shifted'])
    for o in out:
        for a in o.axes:
            for x, y, _ in a.lines:
                t.check(np.all((np.abs(np.cos(x) + np.cos(y)) < 1e-6) | (np.abs(np.sin(x)) < 1e-6) | (np.abs(np.sin(y)) < 1e-6)) and
                        (np.ptp(x) == 0 or np.ptp(y) == 0 or np.max(np.abs(np.cos(x) + np.cos(y))) < 1e-6), 'a line that is not the magnetic zone boundary or an axis of the zone')
    if pts is not None:
        for o in out:
            for a in o.axes:
                got = np.concatenate(a.points) if a.points else np.zeros((0, 2))
                t.close(got[np.lexsort(got.T)], pts[np.lexsort(pts.T)], 'marked points', rtol=1e-12)


@law('C25', case(nk=NKS, sym=st.booleans(), niv=st.integers(4, 8), n_fit=st.integers(3, 4), order=st.integers(1, 2), beta=floats(1, 10), shifted=st.booleans(), seed=seeds), 40, 1000,
     'non-trivial: grid with different numbers of points in x and y')
def polynomial_fit_maps(c, t):
    """the extrapolated values are drawn at their momenta, for stored arrays that start at momentum 0 and for those that are shifted"""
    nk = c['nk']
    t.nontrivial(nk[0] != nk[1])
    t.label('three dimensions', nk[2] > 1)
    g = bz.KGrid(tuple(nk), ('x-inv', 'y-inv') if c['sym'] else ())
    f = fields(c, *nk, 2 * c['niv'])
    if c['sym']:
        f = g.symmetrize_irrk(f)
    p = t.tmp()
    v = mf.vn(c['beta'], c['niv'], pos=True)
    re, im, z = [np.empty(nk[:2]) for _ in range(3)]  # of the plane k_z = 0
    for i in np.ndindex(*nk[:2]):
        a, b, s = a_cont.extract_coeff_on_ind(siwk=f[i + (0,)][None, c['niv']:], indizes=[0], v=v, n_fit=c['n_fit'], order=c['order'])
        re[i], im[i], z[i] = np.ravel(a)[0], np.ravel(b)[0], np.ravel(s)[0]
    with figs.record() as out:
        dga_io.poly_fit(f, c['beta'], g, c['n_fit'], c['order'], name='Fit', output_path=p, pi_shift=c['shifted'])
    t.check([o.name for o in out] == ['Fit.png'], f'figures {[o.name for o in out]}')
    for word, d in (('Re', re), ('Im', im), ('Z(k)', z)):
        a = [x for x in out[0].axes if word in x.title]
        t.check(len(a) == 1, f'no panel {word}')
        grid_map(t, a[0], nk, d, f'fit map {word}', True)


@law('C25', case(nk=NKS, nw=st.integers(5, 30), wmax=floats(0.3, 3), seed=seeds), 15, 500, 'non-trivial: grid with different numbers of points in x and y')
def continued_maps(c, t):
    """continued functions at fixed frequencies: fermionic ones over the shifted zone, bosonic ones over the zone from 0; each panel shows the frequency in its title"""
    nk = c['nk']
    t.nontrivial(nk[0] != nk[1])
    g = bz.KGrid(tuple(nk), ())
    w = np.sort(rng(c['seed'], 7).uniform(-c['wmax'], c['wmax'], c['nw']))
    f = fields(c, *nk, c['nw'])
    for fun, shifted in ((a_cont.save_and_plot_cont_fermionic, True), (a_cont.save_and_plot_cont_bosonic, False)):
        p = t.tmp()
        with figs.record() as out:
            fun(f, w, g, 'fkw', p)
        t.equal(np.load(p + 'fkw_cont_fbz.npy'), f, 'stored function')
        t.equal(np.load(p + 'w.npy'), w, 'stored frequencies')
        t.check(len(out) == 3, f'{len(out)} figures')
        for o, wp in zip(sorted(out, key=lambda x: x.name), (-0.1, 0.1, 0)):
            t.check(o.name == f'fkw_at_w{wp}.png', f'figure {o.name}')
            for a in o.axes:
                wt = float(re.search(r'omega *= *([-0-9.]+)', a.title).group(1))
                t.check(abs(wt - wp) < 1e-9, f'{o.name}: title {a.title}')
                near = f[:, :, 0, np.argmin(np.abs(w - wt))]
                d = np.real(1 / near) if 'QPD' in a.title else near.real if r'\Re' in a.title else -near.imag / np.pi
                grid_map(t, a, nk, d, f'{o.name}: {a.title}', shifted)


@law('C25', case(nk=NKS, nw=st.integers(6, 30), w_int=floats(-1.5, -0.2), seed=seeds), 20, 500, 'non-trivial: grid with different numbers of points in x and y')
def integrated_maps(c, t):
    """maps of a function integrated over a window below the Fermi level"""
    nk = c['nk']
    t.nontrivial(nk[0] != nk[1])
    g = bz.KGrid(tuple(nk), ())
    w = np.linspace(-2, 2, c['nw'])
    f = fields(c, *nk, c['nw'])
    m = (w < 0) & (w > c['w_int'])
    integ = np.zeros(tuple(nk[:2]), complex)
    idx = np.nonzero(m)[0]
    for a, b in zip(idx[:-1], idx[1:]):
        integ += 0.5 * (f[:, :, 0, a] + f[:, :, 0, b]) * (w[b] - w[a])
    integ /= abs(c['w_int'])
    for fun, shifted in ((plotting.plot_cont_fs, True), (plotting.plot_cont_fs_no_shift, False)):
        with figs.record() as out:
            fun(output_path=t.tmp(), name='f', mat=f, v_real=w, k_grid=g, w_int=c['w_int'], w_plot=0)
        o, = out
        grid_map(t, o.axes[0], nk, -integ.imag / np.pi, 'integrated spectrum', shifted)
        grid_map(t, o.axes[1], nk, integ.real, 'integrated real part', shifted)


@law('C25', case(nk=NKS, a=floats(0.2, 3), xi=floats(0.5, 5), seed=seeds), 40, 1000, 'non-trivial: grid with different numbers of points in x and y')
def ornstein_zernike_cuts(c, t):
    """data and fit along the cuts q_y = pi, q_x = pi and q_x = q_y, at their momenta"""
    nk = c['nk']
    t.nontrivial(nk[0] != nk[1])
    g = bz.KGrid(tuple(nk), ())
    chi = fields(c, *nk)
    with figs.record() as out:
        plotting.plot_oz_fit(chi_w0=chi, oz_coeff=[c['a'], c['xi']], qgrid=g, pdir=t.tmp(), name='oz_fit')
    o, = out
    t.check(len(o.axes) == 3, f'{len(o.axes)} panels')

    def oz(qx, qy):
        return c['a'] / (c['xi'] ** -2 + (qx - np.pi) ** 2 + (qy - np.pi) ** 2)
    q = [TWO * np.arange(n) / n for n in nk]
    near = [np.nonzero(np.isclose(np.abs(x - np.pi), np.min(np.abs(x - np.pi))))[0] for x in q]
    for cut in (0, 1):
        a = [x for x in o.axes if x.title == ('$q_y = \\pi$', '$q_x = \\pi$')[cut]][0]
        best = None
        for i in near[1 - cut]:
            try:
                figs.has_line(t, a, q[cut], chi[:, i, 0].real if cut == 0 else chi[i, :, 0].real, f'data along {a.title}')
                qq = q[1 - cut][i]
                figs.has_line(t, a, q[cut], oz(q[0], qq) if cut == 0 else oz(qq, q[1]), f'fit along {a.title}', rtol=1e-6)
                best = None
                break
            except AssertionError as e:
                best = best or e
        if best is not None:
            raise best
    a = [x for x in o.axes if 'q_y = q_x' in x.title][0]
    diag = [(i, j) for i in range(nk[0]) for j in range(nk[1]) if i * nk[1] == j * nk[0]]
    x = np.array([q[0][i] for i, _ in diag])
    figs.has_line(t, a, x, [chi[i, j, 0].real for i, j in diag], 'data along the diagonal')
    figs.has_line(t, a, x, [oz(q[0][i], q[1][j]) for i, j in diag], 'fit along the diagonal', rtol=1e-6)


@law('C25', case(nk=st.sampled_from([[4, 4, 1], [6, 4, 1], [8, 8, 1], [5, 3, 2], [4, 6, 4], [2, 2, 2]]), path=st.sampled_from(['Gamma-X-M-Gamma', 'Gamma-Y-M', 'X-M2-Gamma', 'M-X', 'Gamma-Z-A-R', '0.25 0.25 0-M-X', 'X-M-Gamma-M2']),
                 nw=st.integers(4, 12), beta=floats(1, 6), win=st.booleans(), seed=seeds), 40, 1000, 'non-trivial: path of more than two segments on a rectangular grid')
def paths_through_the_zone(c, t):
    """bands, spectra and susceptibilities along a path are those of the momenta of the path; the labels of the special points stand at these points"""
    nk = c['nk']
    kp = bz.KPath(tuple(nk), c['path'])
    corners = [p for p in c['path'].split('-')]
    if len(kp.kpts) < 2 or min(kp.nkp) < 2:
        t.nontrivial(False)
        return
    t.nontrivial(len(kp.nkp) > 1 and nk[0] != nk[1])
    names = {'Gamma': r'\Gamma', 'M2': 'M/2'}
    start = np.concatenate(([0], np.cumsum(kp.nkp)))

    def labels(a, what):
        if len(a.ticklabels) != len(corners):
            t.check(False, f'{what}: {len(a.ticklabels)} labels for {len(corners)} special points')
        for i, (x, l, cn) in enumerate(zip(a.ticks, a.ticklabels, corners)):
            t.check(names.get(cn, cn if ' ' not in cn else 'K') in l, f'{what}: label {l} for {cn}')
            at = kp.k_axis[min(start[i], len(kp.k_axis) - 1)]  # the last special point is the end of the axis
            t.check(abs(x - at) < 1e-9, f'{what}: label {l} at {x:.5g}, the special point lies at {at:.5g}')

    ek = fields(c, *nk).real
    along = np.array([ek[tuple(k)] for k in kp.kpts])
    p = t.tmp()
    with figs.record() as out:
        kp.plot_kpath(ek, pdir=p, name='bands')
        kp.plot_kpoints(fname=p + 'pts')
    figs.has_line(t, out[0].axes[0], kp.k_axis, along, 'bands')
    labels(out[0].axes[0], 'bands')
    for i, d in enumerate('xyz'):
        figs.has_line(t, out[1].axes[0], np.arange(len(kp.kpts)), kp.kpts[:, i], f'path index {d}', label=f'$k_{d}$')
    # real-frequency function along the path, with its local spectrum
    r = rng(c['seed'], 3)
    w = np.sort(r.uniform(-3, 3, c['nw']))
    s = fields(c, *nk, c['nw'])
    s = s.real - 1j * np.abs(s.imag) - 0.05j
    gf = twop.RealFrequencyGF(w, s, ek, mu=0.1, deltino=0.04)
    kw = dict(wmin=-2, wmax=2) if c['win'] else {}
    with figs.record() as out:
        hlp.plot_real_frequency_dispersion(gf, kp, pdir=p, name='disp', **kw)
    a0, a1 = out[0].axes[:2]
    awk = -np.array([gf.gwk()[tuple(k)] for k in kp.kpts]).imag / np.pi
    lim = dict(zip(('lo', 'hi'), (-2, 2) if c['win'] else (w[0], w[-1])))
    t.close(a0.ylim, [lim['lo'], lim['hi']], 'frequency window')
    t.close(a1.ylim, [lim['lo'], lim['hi']], 'frequency window of the local spectrum')
    figs.shows(t, a0, kp.k_axis, w, lambda i, j: awk[i, j], 'spectral function along the path', need=min(len(kp.k_axis) - 2, 1))
    labels(a0, 'spectral function')
    aw = -np.mean(gf.gwk(), axis=(0, 1, 2)).imag / np.pi
    figs.has_line(t, a1, aw, w, 'local spectrum')
    # susceptibility along the path: times the frequency, with its maxima
    w = np.concatenate((-np.sort(r.uniform(0.1, 3, c['nw']))[::-1], [0], np.sort(r.uniform(0.1, 3, c['nw']))))
    chi = np.abs(fields(c, *nk, len(w)).real) + 0.1
    with figs.record() as out:
        hlp.plot_chi_along_kpath(chi, w, kp, pdir=p, name='chi')
    a = out[0].axes[0]
    ck = np.array([chi[tuple(k)] for k in kp.kpts]) * w
    figs.shows(t, a, kp.k_axis, w, lambda i, j: ck[i, j], 'susceptibility along the path')
    labels(a, 'susceptibility')
    figs.has_line(t, a, kp.k_axis, w[np.argmax(ck, axis=1)], 'maxima')
    top = np.max(w[np.argmax(ck, axis=1)])
    t.check(a.ylim[1] >= top - 1e-9, 'the maxima are outside the window')


@law('C25', case(nk=st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 2)).map(list), niv=st.integers(2, 12), lo=st.integers(0, 3), hi=st.integers(3, 14), npts=st.integers(1, 7), step=st.integers(1, 3), ikz=st.integers(0, 1), default=st.booleans(),
                 seed=seeds), 40, 1000, 'non-trivial: several points')
def functions_along_marked_momenta(c, t):
    """one curve per (step-th) momentum, over the frequencies in the window"""
    nk, niv = c['nk'], c['niv']
    r = rng(c['seed'], 2)
    f = fields(c, *nk, 2 * niv)
    pts = np.array([[r.integers(0, nk[0]), r.integers(0, nk[1])] for _ in range(c['npts'])])
    ikz = min(c['ikz'], nk[2] - 1)
    v = np.arange(-niv, niv)
    lo, hi = min(c['lo'], niv - 1), c['hi']
    kw = {} if c['default'] else dict(niv_plot_min=lo, niv_plot=hi)
    m = (v >= 0) & (v <= niv) if c['default'] else (v >= lo) & (v <= hi)
    t.nontrivial(len(pts[::c['step']]) > 1)
    with figs.record() as out:
        plotting.plot_along_ind(f, pts, step_size=c['step'], pdir=t.tmp(), name='Sigma', ikz=ikz, **kw)
    o, = out
    t.check(o.name == 'Sigma_along_Fermi_surface.png', o.name)
    im = [a for a in o.axes if r'\Im' in a.ylabel]
    re_ = [a for a in o.axes if r'\Im' not in a.ylabel]
    t.check(len(im) == 1 and len(re_) == 1, 'one panel for the real and one for the imaginary part')
    for p in pts[::c['step']]:
        y = f[p[0], p[1], ikz, m]
        figs.has_line(t, re_[0], v[m], y.real, 'real part along the Fermi surface')
        figs.has_line(t, im[0], v[m], y.imag, 'imaginary part along the Fermi surface')
    t.check(len([1 for x in re_[0].lines if len(x[0]) == m.sum()]) == len(pts[::c['step']]), 'number of curves')


@law('C25', case(niw=st.integers(1, 6), niw2=st.integers(1, 6), niv=st.integers(2, 8), niv2=st.integers(2, 8), beta=floats(1, 10), ekin=floats(-2, -0.1), seed=seeds), 25, 500, 'non-trivial: boxes of different sizes')
def local_functions(c, t):
    """susceptibilities, self-energies and differences over their own frequencies, under their own labels"""
    t.nontrivial(c['niw'] != c['niw2'] and c['niv'] != c['niv2'])
    p = t.tmp()
    r = rng(c['seed'], 1)
    chi = {k: [np.abs(cplx(r, (2 * n + 1,)).real) + 0.1 + 0j for n in (c['niw'], c['niw2'])] for k in ('dens', 'magn')}

    class G:
        beta, e_kin = c['beta'], c['ekin']
    with figs.record() as out:
        plotting.chi_checks(chi['dens'], chi['magn'], ['loc', 'sum'], G, p, name='x')
    o, = out
    for a in o.axes:
        k = 'dens' if 'dens' in a.ylabel else 'magn'
        for d, l in zip(chi[k], ('loc', 'sum')):
            n = len(d) // 2
            figs.has_line(t, a, np.arange(-n, n + 1), d.real, f'{k} susceptibility', label=l)
        for lx, ly, ll in a.lines:
            if ll == 'Asympt':
                wn = TWO / c['beta'] * lx
                m = lx != 0
                t.close(ly[m], -2 * c['ekin'] / wn[m] ** 2, 'asymptotic curve', rtol=1e-3)
    t.check(sum('dens' in a.ylabel for a in o.axes) == 2 and sum('magn' in a.ylabel for a in o.axes) == 2, 'labels of the panels')
    siw = [cplx(r, (2 * n,)) for n in (c['niv'], c['niv2'])]
    with figs.record() as out:
        plotting.sigma_loc_checks(siw, ['SDE', 'Input'], c['beta'], p, name='x', xmax=None)
    o, = out
    for a in o.axes:
        for s, l in zip(siw, ('SDE', 'Input')):
            n = len(s) // 2
            y = s.real if r'\Re' in a.ylabel else np.abs(s.imag) if '|' in a.ylabel else s.imag
            figs.has_line(t, a, np.arange(-n, n), y, f'self-energy {a.ylabel}', label=l)
    t.check(sorted(a.ylabel for a in o.axes).count(r'$\Re \Sigma(i\nu_n)$') == 2 and len(o.axes) == 4, 'labels of the panels')
    n = c['niw']
    arrs = [[cplx(r, (2 * n + 1,)) for _ in range(2)] for _ in range(2)]
    with figs.record() as out:
        plotting.local_diff_checks(arrs, [['a', 'b'], ['c', 'd']], p, name='chi')
    o, = out
    w = np.arange(-n, n + 1)
    for a in o.axes:
        for (x, y), (lx, ly) in zip(arrs, (('a', 'b'), ('c', 'd'))):
            if 'diff' in a.ylabel:
                figs.has_line(t, a, w, np.abs(x.real - y.real), 'difference', label=f'diff-{lx}')
            else:
                figs.has_line(t, a, w, x.real, 'first', label=lx)
                figs.has_line(t, a, w, y.real, 'second', label=ly)


@law('C25', case(niw=st.integers(1, 5), sub=st.booleans(), niv=st.integers(1, 6), cut=st.integers(-1, 7), iwn=st.integers(-5, 5), beta=floats(1, 10), seed=seeds), 40, 1000, 'non-trivial: box cut or only some bosonic frequencies')
def vertices_in_their_frequencies(c, t):
    """local vertices at one bosonic frequency over (v, v'), three-leg vertices over (w, v)"""
    niw, niv = c['niw'], c['niv']
    wn = np.arange(-niw, niw + 1)
    if c['sub']:
        wn = wn[::2]
    iwn = int(wn[np.argmin(np.abs(wn - c['iwn']))])
    f = fields(c, len(wn), 2 * niv, 2 * niv)
    cut = -1 if c['cut'] < 1 else min(c['cut'], niv)
    n = niv if cut == -1 else cut
    t.nontrivial(n < niv or c['sub'])
    kw = dict(wn=wn) if c['sub'] else dict(is_full_w=True)
    obj = lfp.LocalFourPoint(channel='dens', mat=f.copy(), beta=c['beta'], u=1.0, **kw)
    p = t.tmp()
    with figs.record() as out:
        obj.plot(iwn, pdir=p, name='F', niv=cut)
    o, = out
    t.check(o.name == f'F_wn{iwn}_niv{cut}.png', o.name)
    t.equal(obj.mat, f, 'the figure changed its data')
    v = np.arange(-n, n)
    iw = list(wn).index(iwn)

    def want(part):
        def f_at(i, j, xl):  # i along x, j along y
            a, b = (v[j], v[i]) if "p" in xl else (v[i], v[j])
            return part(f[iw, a + niv, b + niv])
        return f_at
    for word, part in ((r'\Re', np.real), (r'\Im', np.imag)):
        a = panel(o, word, 0)
        t.check({a.xlabel, a.ylabel} == {r'$\nu_p$', r'$\nu$'}, f'labels {a.xlabel}, {a.ylabel}')
        fn = want(part)
        figs.shows(t, a, v, v, lambda i, j, fn=fn, a=a: fn(i, j, a.xlabel), f'vertex {word}', need=4 * n * n)
    g = fields(c, 2 * niw + 1, 2 * niv)
    tp = lfp.LocalThreePoint(channel='dens', mat=g.copy(), beta=c['beta'], u=1.0, is_full_w=True)
    with figs.record() as out:
        lfp.plot_three_point_w_v(g, pdir=p, name='vrg')
        tp.plot(0, pdir=p, name='vrg', niv=cut)
    for o, m in zip(out, (niv, n)):
        v = np.arange(-m, m)
        w = np.arange(-niw, niw + 1)
        for word, part in ((r'\Re', np.real), (r'\Im', np.imag)):
            a = panel(o, word, 0)
            t.check('omega' in a.xlabel and 'nu' in a.ylabel, f'labels {a.xlabel}, {a.ylabel}')
            figs.shows(t, a, w, v, lambda i, j, part=part, v=v: part(g[i, v[j] + niv]), f'three-leg vertex {word}', need=2 * m * (2 * niw + 1))


@law('C25', case(nb=st.integers(1, 8), nv=st.integers(1, 8), nw=st.integers(3, 20), seed=seeds), 40, 1000, 'non-trivial: bubble and vertex with different boxes')
def optical_conductivity_curves(c, t):
    """bubble, vertex and full response over their own frequencies; the full one is the sum at equal frequencies"""
    t.nontrivial(c['nb'] != c['nv'])
    r = rng(c['seed'], 4)
    b, v = cplx(r, (2 * c['nb'] + 1,)), cplx(r, (2 * c['nv'] + 1,))
    p = t.tmp()
    with figs.record() as out:
        optics.plot_opt_cond_matsubara(b, v, do_save=True, pdir=p)
    a = out[0].axes[0]
    for x, l in ((b, 'bubble'), (v, 'vertex')):
        n = len(x) // 2
        figs.has_line(t, a, np.arange(-n, n + 1), x.real, f'{l} response', label=l)
    n = max(c['nb'], c['nv'])
    tot = [sum(x[len(x) // 2 + i].real for x in (b, v) if abs(i) <= len(x) // 2) for i in range(-n, n + 1)]
    m = min(c['nb'], c['nv'])
    full = [x for x in a.lines if x[2] == 'full'][0]
    k = len(full[0]) // 2
    t.check(k in (n, m), f'{len(full[0])} frequencies of the full response')
    figs.has_line(t, a, np.arange(-k, k + 1), tot[n - k:n + k + 1], 'full response', label='full')
    w = np.sort(r.uniform(0, 4, c['nw']))
    sb, sf = cplx(r, (c['nw'],)), cplx(r, (c['nw'],))
    with figs.record() as out:
        optics.plot_opt_cond_realf(w, sb, sf, do_save=True, pdir=p)
        hlp.plot_opt_cond(sb, w, pdir=p, name='x')
        plotting.plot_aw_loc(v_real=w, gloc=sb, output_path=p, name='aw')
    o = out[0]
    a = [x for x in o.axes if 'full' in [y[2] for y in x.lines]][0]
    figs.has_line(t, a, w, sb.real, 'bubble conductivity', label='bubble')
    figs.has_line(t, a, w, sf.real, 'full conductivity', label='full')
    a = [x for x in o.axes if 'vertex' in [y[2] for y in x.lines]][0]
    figs.has_line(t, a, w, sf.real - sb.real, 'vertex conductivity', label='vertex')
    figs.has_line(t, out[1].axes[0], w, sb.real, 'conductivity')
    figs.has_line(t, out[2].axes[0], w, -sb.imag / np.pi, 'local spectrum')
    bw = np.sort(r.uniform(0.01, 2, 6))
    chi2, fit = r.uniform(0.1, 3, 6), r.uniform(0.1, 3, 6)
    with figs.record() as out:
        plotting.plot_bw_fit(bw_opt=float(bw[2]), bw=bw, chi2=chi2, fits=[fit], output_path=p, name='chi2')
    a = out[0].axes[0]
    figs.has_line(t, a, bw, chi2, 'chi2 of the blur width', label='$\\chi^2(bw)$')
    figs.has_line(t, a, bw, fit, 'fit', label='Fit-0')
    t.check(any(np.allclose(s[:, 0], bw[2]) for s in a.segments), 'optimal blur width')


ALL = dict(lam=st.sampled_from(['none', 'spch', 'sp']), coarse=st.booleans(), pair=st.booleans(), eliash=st.booleans(), optics=st.booleans(), poly=st.booleans(), save_fq=st.booleans(), save_vrg=st.just(False), wannier=st.booleans(), parity=st.booleans())


@law('C25', case(**c23.physical([[4, 4, 1], [3, 3, 1], [4, 2, 1], [6, 4, 1], [2, 4, 1], [5, 3, 1], [4, 1, 1], [1, 3, 1], [2, 2, 2], [3, 2, 2]], niw=st.integers(1, 3), niv=st.integers(2, 4), **ALL)), 8, 100, 'non-trivial: rectangular grid')
def figures_of_a_run_show_its_results(c, t):
    """the figures that a run writes show the arrays that the same run stores, each at its momenta and frequencies"""
    c = dict(c)
    c['nq'] = [a // 2 if a % 2 == 0 else a for a in c['nk']] if c['coarse'] else list(c['nk'])
    if not c['coarse']:
        del c['nq']
    p = t.tmp()
    c = c23.with_band(c, 'none', t)
    run = Run(dict(c, nq=c.get('nq', c['nk'])))
    conf = c23.all_options(c, p, symmetries='none')
    conf['output']['verbosity'] = 1
    c23.write(p, conf, run.dmft_dict())
    t.nontrivial(c['nk'][0] != c['nk'][1])
    with figs.record() as out:
        o = c23.run_here(p, plots=True)
    f = {}
    for x in out:
        f.setdefault(os.path.relpath(x.path, o)[:-4], []).append(x)
    nk, nq = c['nk'], c.get('nq', c['nk'])

    def fig(name):
        t.check(name in f, f'no figure {name}')
        return f[name][-1]

    def four(name, mat):
        n = len(mat) // 2
        v = np.arange(-n, n)
        for word, part in ((r'\Re', np.real), (r'\Im', np.imag)):
            a = panel(fig(name), word, 0)
            t.check('nu_p' in a.xlabel and 'nu' in a.ylabel and 'nu_p' not in a.ylabel, f'labels {a.xlabel}, {a.ylabel}')
            figs.shows(t, a, v, v, lambda i, j: part(mat[j, i]), name, need=4 * n * n)

    for ch in ('dens', 'magn'):
        chi = np.load(o + f'chi_{ch}_lam.npy')
        both(t, fig(f'Plots/Chi_{"ladder" if c["lam"] == "none" else "lam"}_{ch}_kz0'), nq, chi[:, :, 0, c['niw']], f'Chi_lam_{ch}', False)
        gam = np.load(o + f'gamma_{ch}.npy')
        n = min(c['niv'], 2 * int(c['beta']))
        cut = gam[:, gam.shape[1] // 2 - n:gam.shape[1] // 2 + n, gam.shape[2] // 2 - n:gam.shape[2] // 2 + n]
        four(f'Plots/Gamma_{ch}_wn0_niv{n}', cut[c['niw']])
        four(f'Plots/Gamma_{ch}_wn{c["niw"]}_niv{n}', cut[2 * c['niw']])
        loc = np.load(o + f'chi_{ch}_loc.npy')
        w = np.arange(-c['niw'], c['niw'] + 1)
        for a in fig('Plots/chi_dens_magn_loc').axes + fig('Plots/chi_dens_magn_lad_q_tilde').axes:
            if ch in a.ylabel:
                figs.has_line(t, a, w, loc.real, f'local susceptibility {ch}')
        for a in fig('Plots/chi_dens_magn_lad_q_tilde').axes:
            if ch in a.ylabel:
                figs.has_line(t, a, w, np.mean(chi, axis=(0, 1, 2)).real, f'momentum sum of the susceptibility {ch}', rtol=1e-7)
        if c['save_fq']:
            m = np.load(o + f'F_{ch}.npy')
            both(t, fig(f'F_{ch}_niw0'), nq, m[:, :, 0, m.shape[3] // 2, m.shape[4] // 2, m.shape[5] // 2], f'F_{ch}', False)
            t.label('vertex')
    s = np.load(o + 'siwk_dga.npy')
    both(t, fig('Plots/Siwk_dga_kz0'), nk, s[:, :, 0, s.shape[-1] // 2], 'self-energy', True)
    g = np.load(o + 'giwk_dga.npy')
    both(t, fig('Plots/Giwk_dga_kz0'), nk, g[:, :, 0, g.shape[-1] // 2], 'Green\'s function', True)
    # marked momenta: next to a change of sign of the real part of the Green's function, in the first quadrant
    marked = [tuple(ind(x, n) for x, n in zip(q, nk)) for a in fig('Plots/Giwk_dga_kz0').axes[:1] for pts in a.points for q in pts]
    quad = g[:nk[0] // 2, :nk[1] // 2, 0, g.shape[-1] // 2].real
    for i, j in marked:
        t.check(i < quad.shape[0] and j < quad.shape[1], f'marked momentum {(i, j)} is outside of the first quadrant')
        near = [quad[a, b] for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)) if 0 <= a < quad.shape[0] and 0 <= b < quad.shape[1]]
        t.check(min(near) * quad[i, j] < 0 or max(near) * quad[i, j] < 0 or np.min(np.abs(quad)) < 1e-9, f'marked momentum {(i, j)} is not on the Fermi surface')
    name = 'Plots/Sigma_{dga}_along_Fermi_surface'
    if marked and name in f:
        h = s.shape[-1] // 2
        t.label('self-energy along the Fermi surface')
        for i, j in marked:
            y = s[i, j, 0, h:h + 21]
            for a in fig(name).axes:
                figs.has_line(t, a, np.arange(len(y)), y.imag if r'\Im' in a.ylabel else y.real, f'self-energy at the marked momentum {(i, j)}')
    sl = np.mean(s, axis=(0, 1, 2))
    v = np.arange(-len(sl) // 2, len(sl) // 2)
    for n in ('dga_loc', 'dga_loc_core'):
        for a in fig(f'Plots/sde_{n}_check').axes:
            figs.has_line(t, a, v, sl.real if r'\Re' in a.ylabel else np.abs(sl.imag) if '|' in a.ylabel else sl.imag, f'{n}: local self-energy', label='DGA-loc', rtol=1e-7)
    sde = np.load(o + 'siw_sde_full.npy')
    v = np.arange(-len(sde) // 2, len(sde) // 2)
    for a in fig('Plots/sde__check').axes:
        figs.has_line(t, a, v, sde.real if r'\Re' in a.ylabel else np.abs(sde.imag) if '|' in a.ylabel else sde.imag, 'local equation of motion', label='SDE')
    if c['poly']:
        for n, back in (('Giwk_dmft_poly_cont_', False), ('Siwk_poly_cont_', True), ('Giwk_dga_poly_cont_', True)):
            d = np.load(o + f'PolyFits/{n}.npy', allow_pickle=True).item()
            for word, k in (('Re', 're_fs'), ('Im', 'im_fs'), ('Z(k)', 'Z')):
                m = np.roll(d[k], [-(x // 2) for x in nk[:2]], (0, 1)) if back else d[k]
                a, = [x for x in fig(f'PolyFits/{n}').axes if word in x.title]
                grid_map(t, a, nk, np.real(m[:, :, 0]), f'{n} {word}', True)
        t.label('poly')
    pair = c['pair'] and min(c['niw'], c['niv']) > 1 and not c['coarse']
    if pair:
        for x in ('sing', 'trip'):
            m = np.load(o + f'Eliashberg/F_{x}_pp.npy') if f'F_{x}_pp.npy' in os.listdir(o + 'Eliashberg') else None
            if m is not None:
                h = m.shape[-1] // 2
                both(t, fig(f'Eliashberg/F_{x}_pp'), nk, m[:, :, 0, h, h], f'pairing vertex {x}', False)
                four(f'Eliashberg/F_{x}_pp_loc', np.mean(m, axis=(0, 1, 2)))
                t.label('pairing')
            if c['eliash']:
                gap = np.load(o + 'Eliashberg/eliashberg.npy', allow_pickle=True).item()[f'delta_{x}'][0]
                h = gap.shape[-1] // 2
                for word, i in (('n=0', h), ('n=-1', h - 1)):
                    a, = [y for y in fig(f'Eliashberg/GapFunction_{x}_0').axes if word in y.title]
                    grid_map(t, a, nk, gap[:, :, 0, i].real, f'gap {x} {word}', True)
                t.label('gap')
    if c['optics']:
        b, vt = np.load(o + 'Optics/chijj_bubble.npy'), np.load(o + 'Optics/chijj_vert.npy')
        a = fig('Optics/optical_conductivity_matsubara').axes[0]
        for y, l in ((b, 'bubble'), (vt, 'vertex')):
            figs.has_line(t, a, np.arange(-(len(y) // 2), len(y) // 2 + 1), y.real, f'{l} response', label=l)
        m = np.load(o + 'Optics/F_cond.npy') if 'F_cond.npy' in os.listdir(o + 'Optics') else None
        if m is not None:
            both(t, fig('Optics/F_cond_niw0'), nq, m[:, :, 0, m.shape[3] // 2, 0, m.shape[5] // 2], 'optics vertex', False)
            t.label('optics')


@law('C25', case(**c23.physical([[4, 4, 1], [6, 4, 1], [4, 2, 1], [4, 1, 1], [2, 2, 2]], **dict(c24.cont_case, s=st.sampled_from([True, True, None]), g=st.sampled_from([None, None, True]), d=st.sampled_from([None, True]), m=st.sampled_from([True, None]),
                                                                                nwr=st.integers(25, 31), nq=st.sampled_from([True, True, False]), loc=st.booleans()))), 4, 60, 'non-trivial: coarse bosonic grid and something continued')
def figures_of_a_continuation_show_its_results(c, t):
    """the figures that a continuation writes show the arrays that it stores, each on its own momentum grid and mesh"""
    from dga import dga_max_ent
    import contextlib
    import io
    c = dict(c, nq=c['nq'] and c['nk'] != [2, 2, 2])  # no path through a single momentum
    p = t.tmp()
    run, o, base, own = c24.prepare(c, t, p)
    t._nontrivial = None
    with figs.record() as out, contextlib.redirect_stdout(io.StringIO()):
        dga_max_ent.main(path=o)
    f = {os.path.relpath(x.path, o)[:-4]: x for x in out}
    nk, nq = c['nk'], c['nq']
    t.nontrivial(nk != nq)
    paths = ['Gamma-X-M2-Gamma', 'Gamma-Y-M2-Gamma', 'Gamma-X-M-Gamma', 'Gamma-Y-M-Gamma', 'Gamma-X-M-Y-Gamma']

    def fig(name):
        t.check(name in f, f'no figure {name} among {sorted(f)}')
        return f[name]

    def maps(folder, name, n, shifted):
        d, w = np.load(o + f'{folder}/{name}_cont_fbz.npy'), np.load(o + f'{folder}/w.npy')
        t.check(d.shape == tuple(n) + (len(w),), f'{name}: shape {d.shape}')
        for wp in (0, 0.1, -0.1):
            near = d[:, :, 0, np.argmin(np.abs(w - wp))]
            for a in fig(f'{folder}/{name}_at_w{wp}').axes:
                v = np.real(1 / near) if 'QPD' in a.title else near.real if r'\Re' in a.title else -near.imag / np.pi
                grid_map(t, a, n, v, f'{name} at {wp}: {a.title}', shifted)
        return d, w

    if c['s']:
        d, w = maps('MaxEntSiwk', 'swk_dga', nk, True)
        g, w = maps('MaxEntSiwk', 'gwk_dga', nk, True)
        loc = -np.mean(g, axis=(0, 1, 2)).imag / np.pi
        for x in paths:
            kp = bz.KPath(tuple(nk), x)
            for name, (lo, hi) in ((f'gwk_dga_{kp.path}', (-2, 2)), (f'gwk_dga_wfull_{kp.path}', (w[0], w[-1]))):
                a0, a1 = fig('MaxEntSiwk/' + name).axes[:2]
                awk = -np.array([g[tuple(k)] for k in kp.kpts]).imag / np.pi
                t.close(a0.ylim, [lo, hi], f'{name}: frequency window')
                figs.shows(t, a0, kp.k_axis, w, lambda i, j: awk[i, j], f'{name}: spectrum along the path', atol=1e-6)
                figs.has_line(t, a1, loc, w, f'{name}: local spectrum', rtol=1e-6)
        figs.has_line(t, fig('MaxEntSiwk/sigma_bub').axes[0], np.load(o + 'MaxEntSiwk/w_bub.npy'), np.load(o + 'MaxEntSiwk/sigma_bub.npy').real, 'bubble conductivity')
        t.label('self-energy')
    if c['g']:
        maps('MaxEntGiwk', 'gwk_dga', nk, True)
        t.label('Green\'s function')
    for k, folder, n in (('d', 'MaxEntChiDens', 'dens'), ('m', 'MaxEntChiMagn', 'magn')):
        if c[k]:
            d, w = maps(folder, f'chi_{n}', nq, False)
            for x in paths:
                kp = bz.KPath(tuple(nq), x)
                ck = np.array([d[tuple(k)] for k in kp.kpts]).real * w
                got = [v for q, v in f.items() if q.startswith(folder + '/') and q.endswith('_' + kp.path)]
                t.check(len(got) == 1, f'{n}: figures along {kp.path}')
                figs.shows(t, got[0].axes[0], kp.k_axis, w, lambda i, j: ck[i, j], f'{n}: susceptibility along {kp.path}', atol=1e-7, need=0)
            t.label('susceptibility')
