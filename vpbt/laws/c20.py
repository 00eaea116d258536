"""C20: analytic continuation: meshes, kernels, Kramers-Kronig, MaxEnt round trips, Pade, polynomial extrapolation"""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from vpbt.core import law, case, floats, seeds, rng, cplx
from vpbt.laws.models import vlist, wlist
from vpbt.laws.runcfg import FakeComm, no_plots
from dga import analytic_continuation as ac
from dga import config
from dga import mpi_aux
from dga import pade_aux
from ana_cont import continuation as acc
from ana_cont import kernels, solvers
from mpi4py import MPI

MESHES = ['lorentzian', 'hyperbolic', 'linear', 'tan']
mesh_st = st.sampled_from(MESHES)


def weights(x):
    """trapezoidal weights"""
    d = np.diff(x)
    w = np.zeros(len(x))
    w[:-1] += d / 2
    w[1:] += d / 2
    return w


# ------------------------------------------------------------------------------------------------ meshes

@law('C20', case(mesh=mesh_st, wmin=floats(-20, 5), width=floats(0.5, 40), n=st.integers(3, 400), cut=floats(0.005, 0.3)), 250, 5000,
     'non-trivial: at least 5 points')
def mesh_covers_its_range(c, t):
    """n strictly increasing points from wmin to wmax, mirror symmetric, densest in the middle"""
    t.nontrivial(c['n'] >= 5)
    t.label(c['mesh'])
    lo, hi, n = c['wmin'], c['wmin'] + c['width'], c['n']
    w = ac.get_w_mesh(c['mesh'], lo, hi, n, c['cut'])
    sc = abs(lo) + c['width']
    t.check(np.shape(w) == (n,), f'number of points {np.shape(w)}')
    t.check(np.all(np.diff(w) > 0), 'not increasing')
    t.close([w[0], w[-1]], [lo, hi], 'range', atol=1e-12 * sc)
    t.close(w - lo, (hi - w)[::-1], 'mirror symmetry', atol=1e-10 * sc)
    d = np.diff(w)
    half = d[:(n - 1) // 2 + 1]
    t.check(np.all(half[:-1] >= half[1:] - 1e-10 * sc), 'spacing grows towards the centre')
    if c['mesh'] != 'linear' and n >= 7:
        t.check(d[0] > d[(n - 1) // 2] * 1.0001, 'not denser in the middle')
    t.raises(ValueError, lambda: ac.get_w_mesh(c['mesh'] + 'x', lo, hi, n, c['cut']), 'unknown mesh')


@law('C20', case(mode=st.sampled_from(['freq_fermionic', 'freq_bosonic']), beta=floats(1, 40), conf=st.lists(st.tuples(st.sampled_from(
    ['nwr', 'wmax', 'wmin', 'mesh_type', 'n_fit', 'err', 'bw', 'cut', 'force_preblur']), st.integers(0, 3)), max_size=6),
    kw=st.lists(st.tuples(st.sampled_from(['nwr', 'wmax', 'wmin', 'mesh_type', 'n_fit', 'err', 'bw', 'cut']), st.integers(0, 3)), max_size=4)), 200, 4000,
     'non-trivial: settings both in the config section and as keywords')
def settings_of_the_continuation(c, t):
    """defaults < configuration section < keywords; the meshes are those of the settings; bosonic data live on w >= 0 without preblur"""
    vals = {'nwr': [11, 64, 101, 200], 'wmax': [3, 5.5, 15, 20], 'wmin': [-15, -4.0, 0.0, 0.5], 'mesh_type': MESHES, 'n_fit': [4, 10, 33, 60],
            'err': [1e-4, 1e-3, 1e-2, 0.1], 'bw': [0.0, 0.01, 0.1, 0.5], 'cut': [0.01, 0.04, 0.1, 0.2], 'force_preblur': [False, True, False, True]}
    conf = {k: vals[k][i] for k, i in c['conf']}
    kw = {k: vals[k][i] for k, i in c['kw']}
    t.nontrivial(bool(conf) and bool(kw))
    want = {'nwr': 501, 'wmax': 15, 'wmin': -15, 'mesh_type': 'tan', 'n_fit': 20, 'err': 1e-3, 'bw': 0.01, 'cut': 0.04, 'force_preblur': False}
    want.update(conf)
    want.update(kw)
    m = ac.MaxEnt(c['beta'], c['mode'], comm=FakeComm(), me_config=dict(conf), **kw)
    if c['mode'] == 'freq_bosonic':
        want['wmin'] = max(want['wmin'], 0.0)
        if not want['force_preblur']:
            want['bw'] = 0.0
    for k, v in want.items():
        t.check(getattr(m, k) == v, f'{k} = {getattr(m, k)!r} instead of {v!r}')
    t.check(m.use_preblur == (want['bw'] != 0), 'preblur flag')
    t.close(m.w, ac.get_w_mesh(want['mesh_type'], want['wmin'], want['wmax'], want['nwr'], want['cut']), 'mesh', rtol=1e-13)
    niv = want['n_fit']
    v = m.get_im_freq()
    t.close(v, vlist(c['beta'], niv)[niv:] if c['mode'] == 'freq_fermionic' else wlist(c['beta'], niv)[niv:], 'fit frequencies', rtol=1e-12)
    # the section of the configuration file that describes local continuations
    mc = config.MaxEntConfig(1, c['beta'], dict(conf))
    lo = conf.get('wmin', None)
    hi = conf.get('wmax', 15)
    t.close(mc.mesh, ac.get_w_mesh(conf.get('mesh_type', 'tan'), -hi if lo is None else lo, hi, conf.get('nwr', 501), conf.get('cut', 0.04)),
            'mesh of the configuration', rtol=1e-13)
    t.check(mc.mesh_type == conf.get('mesh_type', 'tan'), 'mesh type of the configuration')
    t.check(mc.err == conf.get('err', 1e-3) and mc.n_fit == conf.get('n_fit', int(c['beta'] * 3 + 10)), 'settings of the configuration')


# ------------------------------------------------------------------------------------------------ kernels

@law('C20', case(kind=st.sampled_from(['freq_fermionic', 'freq_bosonic']), mesh=mesh_st, beta=floats(0.5, 40), n=st.integers(3, 80), niv=st.integers(1, 20),
                 seed=seeds, cplx=st.booleans(), zero=st.booleans()), 200, 4000, 'non-trivial: more than 10 real frequencies')
def transform_to_matsubara(c, t):
    """back transform = explicit trapezoidal sum of kernel times spectrum, including the w=0, iw=0 point"""
    r = rng(c['seed'])
    t.nontrivial(c['n'] > 10)
    lo = 0.0 if c['kind'] == 'freq_bosonic' and c['zero'] else -float(r.uniform(1, 10))
    w = ac.get_w_mesh(c['mesh'], lo, float(r.uniform(1, 10)), c['n'], 0.04)
    a = r.uniform(-1, 1, c['n'])
    ferm = c['kind'] == 'freq_fermionic'
    v = vlist(c['beta'], c['niv']) if ferm else wlist(c['beta'], c['niv'])
    K = np.zeros((len(v), len(w)), complex)
    for i, x in enumerate(v):
        for j, y in enumerate(w):
            if ferm:
                K[i, j] = 1 / (1j * x - y)
            else:
                K[i, j] = 1 if x == 0 else y * y / (y * y + x * x)
    t.label('iw=0,w=0', (not ferm) and np.any(w == 0))
    t.close(ac.get_backtransform_kernel(w, v, c['kind']), K, 'kernel', rtol=1e-12)
    kern = kernels.Kernel(kind=c['kind'], re_axis=w, im_axis=v)
    t.close(kern.matrix, K, 'kernel of ana_cont', rtol=1e-12)
    mat = (r.uniform(-1, 1, c['n']) - 1j * np.pi * a) if c['cplx'] else -np.pi * a
    got = ac.transform_from_real_to_imag(mat, w, v, c['kind'])
    t.close(got, K @ (weights(w) * a), 'transform', rtol=1e-11)
    t.check(np.iscomplexobj(got), 'complex result')
    t.raises(NotImplementedError, lambda: ac.get_backtransform_kernel(w, v, 'freq'), 'unknown kernel')


@law('C20', case(kind=st.sampled_from(['freq_fermionic', 'freq_bosonic']), beta=floats(2, 30), n=st.integers(2, 12), niv=st.integers(1, 6), b=floats(0.01, 0.4),
                 wmax=floats(1, 6)), 60, 1000, 'non-trivial: blur width above 0.05')
def preblur_is_a_gaussian_convolution(c, t):
    """the blurred kernel is the convolution of the kernel with a normal distribution"""
    t.nontrivial(c['b'] > 0.05)
    ferm = c['kind'] == 'freq_fermionic'
    w = np.linspace(-c['wmax'] if ferm else 0.0, c['wmax'], c['n'])
    v = (vlist if ferm else wlist)(c['beta'], c['niv'])
    if not ferm:
        v = v[c['niv']:]
    k = kernels.Kernel(kind=c['kind'], re_axis=w, im_axis=v)
    k.preblur(c['b'])
    x = np.linspace(-9, 9, 3601)  # the trapezoidal sum converges exponentially
    g = np.exp(-x ** 2 / 2) / np.sqrt(2 * np.pi) * (x[1] - x[0])
    want = np.zeros((len(v), len(w)), complex)
    for i, vi in enumerate(v):
        y = w[:, None] + c['b'] * x[None, :]
        f = 1 / (1j * vi - y) if ferm else (np.ones_like(y) if vi == 0 else y ** 2 / (y ** 2 + vi ** 2))
        want[i] = f @ g
    t.close(k.matrix, want, 'blurred kernel', rtol=2e-5)  # the code integrates over 5 sigma
    k.preblur(0.0)
    t.close(k.matrix, kernels.Kernel(kind=c['kind'], re_axis=w, im_axis=v).matrix, 'no blur', rtol=1e-13)


@law('C20', case(kind=st.sampled_from(['time_fermionic', 'time_bosonic']), beta=floats(1, 40), n=st.integers(2, 30), nt=st.integers(2, 20), wmax=floats(0.5, 10)), 80, 1500,
     'non-trivial: at least five real frequencies')
def imaginary_time_kernels(c, t):
    t.nontrivial(c['n'] >= 5)
    tau = np.linspace(0, 1, c['nt'])
    w = np.linspace(-c['wmax'] if c['kind'] == 'time_fermionic' else 0, c['wmax'], c['n']) * c['beta']
    got = kernels.Kernel(kind=c['kind'], re_axis=w, im_axis=tau).matrix
    if c['kind'] == 'time_fermionic':  # e^{-tau w}/(1+e^{-w})
        want = np.exp(-np.logaddexp(tau[:, None] * w, (tau[:, None] - 1) * w))
    else:  # w cosh(w(1/2-tau))/(2 sinh(w/2)) and 1 at w=0
        with np.errstate(all='ignore'):
            want = w / 2 * (np.exp(-tau[:, None] * w) + np.exp(-(1 - tau[:, None]) * w)) / -np.expm1(-w)
        want[:, 0] = 1
    t.close(got, want, 'kernel', rtol=1e-7)


# ------------------------------------------------------------------------------------------------ Kramers-Kronig

@law('C20', case(kind=st.sampled_from([('fermionic', 'general'), ('fermionic_phsym', 'symmetric'), ('bosonic', 'antisymmetric')]), mesh=mesh_st, n=st.integers(2, 120),
                 seed=seeds), 150, 3000, 'non-trivial: more than 10 frequencies')
def kramers_kronig_two_implementations(c, t):
    """imaginary part -pi A; the two implementations and the two names of each kind agree; linear in the spectrum; principal value sums"""
    r = rng(c['seed'])
    t.nontrivial(c['n'] > 10)
    lo = float(-r.uniform(1, 8)) if c['kind'][0] == 'fermionic' else float(r.choice([0.0, 0.3]))
    w = ac.get_w_mesh(c['mesh'], lo, float(r.uniform(1, 8)), c['n'], 0.05)
    a, b = r.uniform(-1, 1, (2, c['n']))
    g = ac.kkt(a, w, kind=c['kind'][0])
    t.close(g.imag, -np.pi * a, 'imaginary part', rtol=1e-13)
    dw = weights(w)
    want = np.zeros(c['n'])
    for j in range(c['n']):
        i = np.arange(c['n']) != j
        if c['kind'][0] == 'fermionic':
            want[j] = np.sum((dw * a)[i] / (w[j] - w[i]))
        elif c['kind'][0] == 'bosonic':
            want[j] = np.sum(2 * (dw * a)[i] * w[j] / (w[j] ** 2 - w[i] ** 2))
        else:
            want[j] = np.sum(2 * (dw * a * w)[i] / (w[j] ** 2 - w[i] ** 2))
    t.close(g.real, want, 'principal value', rtol=1e-9)
    t.close(ac.kkt(a, w, kind=c['kind'][1]), g, 'alias', rtol=1e-13)
    t.close(acc.GreensFunction(spectrum=a, wgrid=w, kind=c['kind'][0]).kkt(), g, 'ana_cont', rtol=1e-12)
    t.close(ac.kkt(2 * a - 3 * b, w, kind=c['kind'][0]), 2 * g - 3 * ac.kkt(b, w, kind=c['kind'][0]), 'linearity', rtol=1e-9, scale=np.max(np.abs(g)) + 1)
    t.raises(ValueError, lambda: ac.kkt(a, w, kind='other'), 'unknown kind')


@law('C20', case(x=floats(-2, 2), d=floats(0.3, 1.0), n=st.integers(800, 1600), mesh=st.sampled_from(['linear', 'tan']), wmax=floats(30, 60)), 30, 400,
     'non-trivial: peak away from zero')
def kramers_kronig_of_a_lorentzian(c, t):
    """A Lorentzian spectrum is the Green's function 1/(w - x + i d)"""
    t.nontrivial(abs(c['x']) > 0.1)
    w = ac.get_w_mesh(c['mesh'], -c['wmax'], c['wmax'], c['n'])
    a = ac.lorentzian_peak(c['x'], c['d'], w)
    t.close(a, c['d'] / np.pi / ((w - c['x']) ** 2 + c['d'] ** 2), 'peak', rtol=1e-12)
    g = ac.kkt(a, w, kind='general')
    sel = np.abs(w) < 8
    t.close(g[sel], 1 / (w[sel] - c['x'] + 1j * c['d']), 'G(w)', rtol=0.06 + 0.2 * np.max(np.diff(w)[:-1][sel[1:-1]]) / c['d'])
    v = vlist(3.0, 6)
    t.close(ac.transform_from_real_to_imag(g, w, v), 1 / (1j * v + 1j * c['d'] * np.sign(v) - c['x']), 'G(iv)', rtol=0.05)
    ga = ac.gauss_peak(c['x'], c['d'], 0.7, w)
    t.close(np.sum(weights(w) * ga * np.array([np.ones_like(w), w, (w - c['x']) ** 2]), axis=1), np.array([0.7, 0.7 * c['x'], 0.7 * c['d'] ** 2]),
            'moments of the Gaussian', rtol=0.01 + 0.1 * np.max(np.diff(w)[:-1][sel[1:-1]]) / c['d'])


# ------------------------------------------------------------------------------------------------ MaxEnt

def spectrum(seed, w, ferm):
    r = rng(seed, 91)
    wmax = w[-1]
    pk = [(r.uniform(-.4, .4) * wmax, r.uniform(.2, .6), r.uniform(.2, 1)) for _ in range(2)]
    g = lambda x, d, a: a * np.exp(-0.5 * ((w - x) / d) ** 2) / d / np.sqrt(2 * np.pi)
    if ferm:
        a = sum(g(*p) for p in pk)
        return a / np.sum(weights(w) * a)
    return sum(g(x, d, q) + g(-x, d, q) for x, d, q in pk)


def sample(w, a, beta, niv, ferm):
    v = (vlist if ferm else wlist)(beta, niv)
    if ferm:
        return (1 / (1j * v[:, None] - w)) @ (weights(w) * a), v
    with np.errstate(all='ignore'):
        k = w ** 2 / (w ** 2 + v[:, None] ** 2)
    k[v == 0] = 1.0
    return k @ (weights(w) * a), v


maxent_case = case(ferm=st.booleans(), seed=seeds, beta=floats(3, 30), n_fit=st.integers(8, 24), nwr=st.integers(70, 180), err=st.sampled_from([2e-4, 1e-3, 4e-3]),
                   wmax=floats(4, 7), mesh=mesh_st, bw=st.sampled_from([0.0, 0.05, 0.1]), extra=st.integers(0, 30))


class NoKink(Exception):
    pass


def cont(m, g):
    """one continuation; the search for the kink in chi^2(alpha) is a fit and may fail for a data set (documented: RuntimeError)"""
    try:
        return m.cont_single_ind(g.copy())
    except (RuntimeError, RuntimeWarning) as e:
        if 'Optimal parameters not found' in str(e) or 'Fermi fit' in str(e) or 'Failed to get' in str(e):
            raise NoKink from e
        raise


def controller(c, **kw):
    d = dict(wmin=-c['wmax'] if c['ferm'] else 0.0, wmax=c['wmax'], nwr=c['nwr'], n_fit=c['n_fit'], err=c['err'], mesh_type=c['mesh'],
             bw=c['bw'] if c['ferm'] else 0.0)
    d.update(kw)
    return ac.MaxEnt(c['beta'], 'freq_fermionic' if c['ferm'] else 'freq_bosonic', comm=FakeComm(), **d)


@law('C20', maxent_case, 40, 700, 'non-trivial: frequencies beyond the fitted ones are in the data')
def maxent_reproduces_the_data(c, t):
    """continuing exact data of a known spectrum: positive, right norm, close to it, and transformed back it is the data"""
    t.nontrivial(c['extra'] > 0)
    t.label('fermionic' if c['ferm'] else 'bosonic')
    m = controller(c)
    a = spectrum(c['seed'], m.w, c['ferm'])
    g, v = sample(m.w, a, c['beta'], c['n_fit'] + c['extra'], c['ferm'])
    try:
        got = cont(m, g)
    except NoKink:
        t.label('no kink found')
        t.nontrivial(False)
        return
    if c['ferm']:
        A = -got.imag / np.pi
        t.close(got, ac.kkt(A, m.w, kind='fermionic'), 'real part', rtol=1e-10)
    else:
        A = got * 2 / np.pi
    norm = np.sum(weights(m.w) * a)
    t.check(A.min() > -0.02 * A.max(), f'negative spectral weight {A.min()}')
    t.close(np.sum(weights(m.w) * A) / norm, 1.0, 'norm', rtol=0.25)
    dist = np.sum(weights(m.w) * np.abs(A - a)) / norm
    t.check(dist < 0.9, f'distance to the true spectrum {dist}')
    back, _ = sample(m.w, A, c['beta'], c['n_fit'] + c['extra'], c['ferm'])
    n0 = len(v) // 2
    sl = slice(n0, n0 + c['n_fit'])
    t.close(back[sl], g[sl], 'data', rtol=0, atol=15 * c['err'] + 3e-3 * np.max(np.abs(g)))


@law('C20', maxent_case, 30, 500, 'non-trivial: the second data set has other frequencies')
def maxent_depends_on_fitted_data_only(c, t):
    """only the n_fit lowest frequencies enter, neither other data nor earlier continuations; a box that is too small is used fully"""
    t.nontrivial(c['extra'] > 0)
    m = controller(c)
    a = spectrum(c['seed'], m.w, c['ferm'])
    big, _ = sample(m.w, a, c['beta'], c['n_fit'] + c['extra'], c['ferm'])
    cut = big[c['extra']:len(big) - c['extra']] if c['extra'] else big
    k = max(c['n_fit'] // 2, 5)
    small = cut[c['n_fit'] - k:len(cut) - (c['n_fit'] - k)]
    try:
        ref = cont(controller(c), cut)
        ref_small = cont(controller(c, n_fit=k), small)
    except NoKink:
        t.label('no kink found')
        t.nontrivial(False)
        return
    sc = dict(rtol=1e-6)
    t.close(cont(controller(c), big), ref, 'larger frequency box', **sc)
    t.close(cont(m, small), ref_small, 'smaller box', **sc)
    t.close(cont(m, big), ref, 'after a continuation with fewer frequencies', **sc)


@law('C20', case(ferm=st.booleans(), seed=seeds, beta=floats(3, 20), n_fit=st.integers(6, 12), nwr=st.integers(30, 60), err=st.just(1e-3), wmax=floats(4, 7),
                 mesh=mesh_st, bw=st.just(0.0), ntot=st.integers(1, 7), bad=st.integers(-1, 6)), 15, 250, 'non-trivial: at least two data sets')
def lists_are_continued_one_by_one(c, t):
    """a list (and the distributed list) is continued element by element; a failing element gives zeros and does not affect others"""
    t.nontrivial(c['ntot'] > 1)
    m = controller(c)
    data = [sample(m.w, spectrum(c['seed'] + 7919 * i, m.w, c['ferm']), c['beta'], c['n_fit'], c['ferm'])[0] for i in range(c['ntot'])]
    full = np.array(data)
    if 0 <= c['bad'] < c['ntot']:
        data[c['bad']] = None
        t.label('failing element')
    want = []
    for i in range(c['ntot']):
        try:
            want.append(np.zeros_like(m.w) if i == c['bad'] else cont(controller(c), data[i]))
        except NoKink:
            t.label('failing element')
            want.append(np.zeros_like(m.w))
    want = np.array(want)
    t.close(m.analytic_continuation(data), want, 'list', rtol=1e-7, scale=1.0)
    dist = mpi_aux.MpiDistributor(ntasks=c['ntot'], comm=MPI.COMM_SELF)
    got = ac.mpi_ana_cont(full.astype(complex), controller(c), dist, 'x')
    good = [i for i in range(c['ntot']) if i != c['bad']]
    if good:
        t.close(got[good], want[good], 'distributed', rtol=1e-4, scale=max(1.0, np.max(np.abs(want))))
    t.check(len(got) == c['ntot'], 'number of continuations')


@law('C20', case(ferm=st.booleans(), seed=seeds, beta=floats(3, 30), n_fit=st.integers(6, 20), nwr=st.integers(40, 90), err=st.sampled_from([3e-4, 1e-3, 4e-3]),
                 wmax=floats(4, 7), mesh=mesh_st, bw=st.sampled_from([0.0, 0.0, 0.08]), method=st.sampled_from(['historic', 'classic', 'chi2kink', 'chi2kink', None]),
                 start=st.sampled_from([1e9, 1e7, 1e5]), end=st.sampled_from([1e-3, 1e-1]), div=st.sampled_from([10., 5.]), pos=st.sampled_from([2.5, 2.0, 3.0]), scale=floats(0.2, 4)), 40, 800,
     'non-trivial: the search for the regularisation is configured')
def maxent_controller_passes_its_settings(c, t):
    """the controller solves the problem with a flat default model of the norm of the data, one error for all frequencies, and the configured search for the regularisation"""
    kw = dict(alpha_start=c['start'], alpha_end=c['end'], alpha_div=c['div'], fit_position=c['pos'], alpha_det_method=c['method'])
    own = kw if c['method'] else {}
    kw = own or dict(alpha_start=1e9, alpha_end=1e-3, alpha_div=10., fit_position=2.5, alpha_det_method='chi2kink')
    t.nontrivial(bool(own))
    t.label(f'{kw["alpha_det_method"]}, {"fermionic" if c["ferm"] else "bosonic"}')
    m = controller(c, **own)
    a = spectrum(c['seed'], m.w, c['ferm'])
    g, v = sample(m.w, a, c['beta'], c['n_fit'] + 2, c['ferm'])
    if not c['ferm']:
        g = g * c['scale']
    half = len(g) // 2
    im = g[half:half + c['n_fit'] + (not c['ferm'])]
    norm = 1.0 if c['ferm'] else g[half].real
    model = np.full(len(m.w), norm / (m.w[-1] - m.w[0]))
    problem = acc.AnalyticContinuationProblem(im_axis=v[half:half + len(im)], re_axis=m.w, im_data=im, kernel_mode='freq_fermionic' if c['ferm'] else 'freq_bosonic', beta=c['beta'])

    def quiet(f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return f()
        except Exception as e:  # the search for the regularisation is a fit and may fail for a data set
            return None
    opts = {k: v for k, v in kw.items() if k != 'alpha_det_method'}
    sol = quiet(lambda: problem.solve(method='maxent_svd', model=model, stdev=np.full(len(im), c['err']), alpha_determination=kw['alpha_det_method'], optimizer='newton',
                                      preblur=bool(c['ferm'] and c['bw']), blur_width=c['bw'] if c['ferm'] else 0.0, verbose=False, **opts)[0])
    got = quiet(lambda: m.cont_single_ind(g.copy()))
    t.check((sol is None) == (got is None), f'the continuation {"fails" if got is None else "works"}, the stated problem does not agree')
    if sol is None:
        t.label('no regularisation found')
        t.nontrivial(False)
        return
    A = -got.imag / np.pi if c['ferm'] else got * 2 / np.pi
    t.close(A, sol.A_opt, 'spectrum', rtol=1e-5, atol=1e-7)
    if c['ferm']:  # exchange of particles and holes
        other = quiet(lambda: m.cont_single_ind(-np.conj(g)))
        want = A[::-1]
    else:  # units of the susceptibility
        other = quiet(lambda: controller(c, err=c['err'] * 2, **own).cont_single_ind(2 * g))
        want = 2 * A
    if kw['alpha_det_method'] != 'chi2kink' and other is not None:
        got = -other.imag / np.pi if c['ferm'] else other * 2 / np.pi
        t.close(got, want, 'particle-hole mirror' if c['ferm'] else 'units', rtol=0.02, atol=0.02 * np.max(np.abs(A)))


@law('C20', case(seed=seeds, beta=floats(3, 20), n_fit=st.integers(6, 16), nwr=st.integers(40, 100), wmax=floats(4, 7), method=st.sampled_from(['historic', 'chi2kink']),
                 pre=st.booleans()), 25, 400, 'non-trivial: preblur')
def maxent_function_form(c, t):
    """the plain function and the local wrapper return the continuation of the same data, with its chi^2"""
    t.nontrivial(c['pre'])
    w = ac.get_w_mesh('tan', -c['wmax'], c['wmax'], c['nwr'])
    a = spectrum(c['seed'], w, True)
    g, v = sample(w, a, c['beta'], c['n_fit'] + 4, True)
    err = 1e-3
    conf = config.MaxEntConfig(1, c['beta'], dict(wmax=c['wmax'], nwr=c['nwr'], mesh_type='tan', n_fit=c['n_fit'], err=err, alpha_det_method=c['method'],
                                                  use_preblur=c['pre']))
    try:
        got, chi2 = ac.max_ent_loc(g, conf, 0.05)
    except (RuntimeError, RuntimeWarning) as e:
        t.check('Optimal parameters' in str(e) or 'Fermi fit' in str(e) or 'Failed to' in str(e), f'{e}')
        t.nontrivial(False)
        return
    A = -got.imag / np.pi
    t.close(np.sum(weights(w) * A), 1.0, 'norm', rtol=0.3 if c['method'] == 'historic' else 0.1)
    back, _ = sample(w, A, c['beta'], c['n_fit'] + 4, True)
    n0 = len(v) // 2
    sl = slice(n0, n0 + c['n_fit'])
    t.close(back[sl], g[sl], 'data', rtol=0, atol=15 * err + 5e-3)
    if not c['pre']:
        mine = np.sum(np.abs(back[sl] - g[sl]) ** 2) / err ** 2
        t.close(chi2, mine, 'chi2', rtol=1e-4, atol=1e-8)
    only = ac.max_ent(mat=g, v_real=w, beta=c['beta'], n_fit=c['n_fit'], alpha_det_method=c['method'], err=err, use_preblur=c['pre'], bw=0.05)
    t.close(only, got, 'function form', rtol=1e-8)


@law('C20', case(seed=seeds, beta=floats(3, 15), n_fit=st.integers(6, 10), nwr=st.integers(30, 50), nbw=st.integers(4, 6)), 4, 40, 'every case')
def local_continuation_scans_blur_widths(c, t):
    """one file per blur width with exactly this continuation, the mesh, and the optimal width inside the fitted range"""
    path = t.tmp()
    bws = np.geomspace(0.02, 1.0, c['nbw'])
    conf = config.MaxEntConfig(1, c['beta'], dict(wmax=6, nwr=c['nwr'], n_fit=c['n_fit'], bw_range_loc=bws, alpha_det_method='chi2kink'))
    a = spectrum(c['seed'], conf.mesh, True)
    g, _ = sample(conf.mesh, a, c['beta'], c['n_fit'], True)
    with no_plots():
        opt = ac.max_ent_loc_bw_range(g, conf, name='x', out_dir=path)
    t.close(np.load(path + 'w.npy'), conf.mesh, 'mesh', rtol=1e-13)
    for bw in bws:
        t.close(np.load(path + f'x_cont_bw{bw}.npy'), ac.max_ent_loc(g, conf, bw)[0], f'continuation at width {bw}', rtol=1e-8)
    t.check(np.isreal(opt) and opt >= 0, f'width {opt}')
    if opt > 0:  # the position of the width relative to the step of chi^2 is configured
        logs = []
        for pos in (2.0, 3.0, 20.0):
            with no_plots():
                logs.append(np.log(ac.max_ent_loc_bw_range(g, config.MaxEntConfig(1, c['beta'], dict(wmax=6, nwr=c['nwr'], n_fit=c['n_fit'], bw_range_loc=bws, alpha_det_method='chi2kink',
                                                                                                     bw_fit_position=pos)), name='x', out_dir=path)))
        if np.all(np.isfinite(logs)) and abs(logs[0]) < 200:
            t.label('configured position')
            t.close(logs[0] + 18 * (logs[1] - logs[0]), logs[2], 'log of the width is linear in the position', rtol=1e-5, atol=1e-6 * abs(logs[0] - logs[2]))
            t.close(logs[0] + 8 * (logs[1] - logs[0]), np.log(opt), 'position 10 by default', rtol=1e-5, atol=1e-6 * abs(logs[0] - logs[2]))
    g0 = ac.kkt(a, conf.mesh, kind='general')
    neg = conf.mesh < 0
    t.close(ac.check_filling(conf.mesh, g0), 2 * np.sum(weights(conf.mesh[neg]) * a[neg]), 'filling', rtol=1e-10)


@law('C20', case(seed=seeds, beta=floats(3, 20), n_fit=st.integers(5, 14), nwr=st.integers(20, 60), lalpha=floats(-1, 4), off=st.booleans(),
                 optim=st.sampled_from(['newton', 'scipy_lm'])), 50, 1000, 'non-trivial: alpha below 1000')
def maxent_functional_is_maximal(c, t):
    """at fixed alpha the solution maximises alpha*S - chi^2/2: no neighbouring spectrum in the singular space is better"""
    r = rng(c['seed'], 5)
    t.nontrivial(c['lalpha'] < 3)
    w = np.linspace(-5, 5, c['nwr'])
    a = spectrum(c['seed'], w, True)
    g, v = sample(w, a, c['beta'], c['n_fit'], True)
    g, v = g[c['n_fit']:], v[c['n_fit']:]
    g = g + 1e-2 * cplx(r, len(v))
    model = np.ones_like(w) / 10
    err = 0.02
    s = solvers.MaxentSolverSVD(v, w, g, kernel_mode='freq_fermionic', model=model, stdev=np.full(len(v), err), optimizer='newton', offdiag=c['off'],
                                verbose=False)
    alpha = 10 ** c['lalpha']
    try:
        sol = s.maxent_optimization(alpha=alpha, ustart=np.zeros(s.n_sv))
        if c['optim'] == 'scipy_lm':
            t.label('levenberg-marquardt')
            s.optimizer = 'scipy_lm'
            sol = s.maxent_optimization(alpha=alpha, ustart=sol.u_opt * (1 + 1e-3), iterfac=100)
    except RuntimeWarning:
        t.label('not converged')
        return
    dw = weights(w)
    K = 1 / (1j * v[:, None] - w)

    def q(u):
        x = s.V_svd @ u
        if not c['off']:
            A = model * np.exp(x)
            S = np.sum(dw * (A - model - A * x))
        else:
            A = model * (np.exp(x) - np.exp(-x))
            root = np.sqrt(A ** 2 + 4 * model ** 2)
            S = np.sum(dw * (root - 2 * model - A * np.log((root + A) / (2 * model))))
        chi2 = np.sum(np.abs(K @ (dw * A) - g) ** 2) / err ** 2
        return alpha * S - chi2 / 2, A, chi2, S

    best, A, chi2, S = q(sol.u_opt)
    t.close(sol.A_opt, A, 'spectrum', rtol=1e-9)
    t.close(sol.chi2, chi2, 'chi2', rtol=1e-9, atol=1e-12)
    t.close(sol.entropy, S, 'entropy', rtol=1e-9, atol=1e-9)
    t.close(sol.Q, best, 'Q', rtol=1e-9, atol=1e-9)
    t.close(sol.backtransform, K @ (dw * A), 'back transform', rtol=1e-10)
    t.close(sol.norm, np.sum(dw * A), 'norm', rtol=1e-10, atol=1e-12)
    for _ in range(6):
        u = sol.u_opt + r.normal(size=s.n_sv) * 10 ** r.uniform(-3, -1)
        t.check(q(u)[0] <= best + 1e-4 * (1 + abs(best)), f'a neighbouring spectrum is better: {q(u)[0]} > {best}')


# ------------------------------------------------------------------------------------------------ Pade and polynomials

@law('C20', case(npol=st.integers(1, 3), seed=seeds, beta=floats(1, 10), extra=st.integers(0, 1)), 120, 2500, 'non-trivial: at least two poles')
def pade_is_exact_for_rational_functions(c, t):
    """2 n nodes of a sum of n poles determine it: every Pade variant reproduces it away from the nodes and at the nodes"""
    r = rng(c['seed'], 8)
    t.nontrivial(c['npol'] > 1)
    n = c['npol']
    e = np.sort(r.uniform(-2, 2, n)) + np.arange(n) * 0.7
    a = r.uniform(0.2, 1, n)
    f = lambda z: np.sum(a / (np.asarray(z)[..., None] - e), axis=-1)
    v = vlist(c['beta'], 2 * n)[2 * n:]
    w = np.linspace(-4, 4, 9) + 0.2j
    tol = dict(rtol=1e-5)
    res = pade_aux.PadeSolver(v, w, f(1j * v)).solve()
    t.close(res.g_ret, f(w), 'Thiele (recursive)', **tol)
    t.close(res.A_opt, -f(w).imag / np.pi, 'spectrum', **tol)
    t.close(res.numerator_function(w) / res.denominator_function(w), f(w), 'numerator and denominator', **tol)
    t.close(pade_aux.PadeSolver(v, w, f(1j * v)).check(v * 1.3 + 0.1), f(1j * (v * 1.3 + 0.1)), 'check on the imaginary axis', **tol)
    t.close(pade_aux.padeThiele(1j * v, f(1j * v), w).astype(complex), f(w), 'Thiele', **tol)
    more = vlist(c['beta'], 2 * n + 3 * c['extra'])[2 * n + 3 * c['extra']:]
    x = pade_aux.padeMatrix(1j * more, f(1j * more), 2 * n)
    t.close(pade_aux.epade(w, x).astype(complex), f(w), 'matrix form', rtol=1e-3)
    both = np.stack((f(1j * v), 2 * f(1j * v)), axis=1)
    for s in (0, 1):
        t.close(pade_aux.acPade(1j * v, both, 2 * n, w, s).astype(complex), np.stack((f(w), 2 * f(w)), axis=1), f'column by column, solver {s}', rtol=1e-3)


@law('C20', case(nz=st.integers(4, 30), nmin=st.integers(-6, 4), m=st.integers(1, 20), ncol=st.integers(1, 3), seed=seeds), 100, 2000, 'non-trivial: mirrored nodes')
def pade_nodes_are_mirrored(c, t):
    """negative start indices add the complex conjugated nodes and values, in order"""
    r = rng(c['seed'])
    z = 1j * vlist(2.0, c['nz'])[c['nz']:]
    f = cplx(r, (c['nz'], c['ncol']))
    t.nontrivial(c['nmin'] < 0)
    m = min(c['m'] + max(-c['nmin'], 0), c['nz'] - max(c['nmin'], 0))
    if m <= max(-c['nmin'], 0) or -c['nmin'] > c['nz']:
        return
    zp, fp = pade_aux.pick_points(z, f, c['nmin'], m, list(range(c['ncol'])))
    idx = range(c['nmin'], c['nmin'] + m)
    t.equal(zp, np.array([z[i] if i >= 0 else np.conj(z[-i - 1]) for i in idx]), 'nodes')
    t.equal(fp, np.array([f[i] if i >= 0 else np.conj(f[-i - 1]) for i in idx]), 'values')


@law('C20', case(order=st.integers(1, 4), extra=st.integers(0, 4), more=st.integers(0, 6), beta=floats(3, 60), seed=seeds, nk=st.integers(1, 6)), 200, 4000,
     'non-trivial: more points than coefficients')
def polynomial_extrapolation(c, t):
    """data that are a polynomial of the fitted order on the fitted points are extrapolated exactly, whatever lies beyond"""
    r = rng(c['seed'], 3)
    n_fit = c['order'] + 1 + c['extra']
    t.nontrivial(c['extra'] > 0)
    n = n_fit + c['more']
    v = vlist(c['beta'], n)[n:]
    x = v / v[n_fit - 1]
    pr, pi = r.uniform(-1, 1, (2, c['nk'], c['order'] + 1))
    pi[:, 0] = 0.0 if c['order'] > 1 else pi[:, 0]
    if c['seed'] % 2:
        pi[:, 1] = -np.abs(pi[:, 1]) - 0.1
    y = np.array([np.polyval(a[::-1], x) + 1j * np.polyval(b[::-1], x) for a, b in zip(pr, pi)])
    # beyond the fitted range the data are arbitrary
    y[:, n_fit:] += 10 * cplx(r, (c['nk'], n - n_fit))
    for k in range(c['nk']):
        t.close(ac.poly_extrap_0(v, y[k].real, c['order'], n_fit), pr[k, 0], 'value', rtol=0, atol=1e-8)
        t.close(ac.poly_der_extrap_0(v, y[k].real, c['order'], n_fit) * v[n_fit - 1], pr[k, 1], 'derivative', rtol=0, atol=1e-7)
        gam, shift, z = ac.get_gamma_bandshift_z(v, y[k], c['order'], n_fit)
        t.close([gam, shift], [-pi[k, 0], pr[k, 0]], 'gamma and band shift', rtol=0, atol=1e-8)
        t.check(0 < z <= 1, f'Z = {z}')
        if c['order'] > 1:  # Im y / v is a polynomial of lower order
            zz = min(max(1 / (1 - pi[k, 1] / v[n_fit - 1]), 0), 1) or 1
            t.close(z, zz, 'Z', rtol=1e-6)
            t.label('0<Z<1', zz < 1)
        t.close(np.array(ac.extract_coefficient_imaxis(siwk=y[k], iw=v, n_fit=n_fit, order=c['order'])), np.array([shift, gam, z]), 'compatibility form', rtol=1e-12)
    idx = list(r.permutation(c['nk'])[:max(1, c['nk'] // 2)])
    re, im, zz = ac.extract_coeff_on_ind(siwk=y, indizes=idx, v=v, n_fit=n_fit, order=c['order'])
    want = np.array([ac.extract_coefficient_imaxis(siwk=y[i], iw=v, n_fit=n_fit, order=c['order']) for i in idx]).T
    t.close(np.array([re, im, zz]), want, 'selected momenta', rtol=1e-12)
