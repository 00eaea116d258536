"""C22: configuration, box inference, output folders and stored data"""
import io
import os
import sys
import numpy as np
from hypothesis import strategies as st
from ruamel.yaml import YAML
from vpbt.core import law, case, floats, seeds, rng, cplx, HERE
from vpbt.laws import runcfg
from vpbt.laws.runcfg import FakeComm, run_mpi
from dga import config
from dga import brillouin_zone as bz
from dga import dga_io
from dga import loggers
from dga import util
from dga import wannier
from mpi4py import MPI

opt = lambda s: st.one_of(st.none(), s)


class Lfp:
    def __init__(self, niv, niw):
        self.niv = niv
        self.wn = np.arange(-niw, niw + 1)


# ------------------------------------------------------------------------------------------------ boxes

@law('C22', case(niw=opt(st.integers(-1, 12)), niv=opt(st.sampled_from([-1, 1, 2, 5, 9, 12])), shell=opt(st.integers(0, 30)), asympt=opt(st.sampled_from([-1, 1, 40, 200])),
                 lniv=st.integers(1, 14), lniw=st.integers(0, 14)), 500, 8000, 'non-trivial: a core range is inferred or the asymptotic one is')
def box_sizes_are_inferred(c, t):
    """given sizes are kept, missing ones are those of the vertex, the asymptotic box holds the full range shifted by every w"""
    d = {}
    for key, name in (('niw', 'niw_core'), ('niv', 'niv_core'), ('shell', 'niv_shell'), ('asympt', 'niv_asympt')):
        if c[key] is not None:
            d[name] = c[key]
    niw, niv = d.get('niw_core', -1), d.get('niv_core', -1)
    shell, asympt = d.get('niv_shell', 0), d.get('niv_asympt', -1)
    t.nontrivial(-1 in (niw, niv, asympt))
    b = config.BoxSizes(d or None)
    lfp = Lfp(c['lniv'], c['lniw'])
    if niv > c['lniv'] or niw > c['lniw']:
        t.label('too large')
        t.raises(ValueError, lambda: b.set_from_lfp(lfp), 'requested box is larger than the vertex')
        return
    b.set_from_lfp(lfp)
    niv = c['lniv'] if niv == -1 else niv
    niw = c['lniw'] if niw == -1 else niw
    full = niv + shell
    t.check((b.niv_core, b.niw_core, b.niv_shell) == (niv, niw, shell), f'core and shell {(b.niv_core, b.niw_core, b.niv_shell)}')
    t.check(b.niv_full == full, 'full range')
    t.check(b.niv_asympt == (full + 2 * niw if asympt == -1 else asympt), f'asymptotic range {b.niv_asympt} for full {full}, niw {niw}')
    t.equal(b.wn, np.arange(-niw, niw + 1), 'bosonic grid')
    t.equal(b.vn_full, np.arange(-full, full), 'fermionic grid')
    t.check(b.niv_pp == min(niw // 2, niv // 2), 'particle-particle range')
    again = (b.niv_core, b.niw_core, b.niv_shell, b.niv_asympt)
    b.set_from_lfp(lfp)
    t.check(again == (b.niv_core, b.niw_core, b.niv_shell, b.niv_asympt), 'inferring twice changes nothing')


# ------------------------------------------------------------------------------------------------ lattice

NAMED = {'two_dimensional_square': ['x-inv', 'y-inv', 'x-y-sym'], 'quasi_one_dimensional_square': ['x-inv', 'y-inv'], 'simultaneous_x_y_inversion': ['x-y-inv'],
         'none': []}


@law('C22', case(sym=st.one_of(st.sampled_from(list(NAMED)), st.just(''), st.lists(st.sampled_from(['x-inv', 'y-inv', 'z-inv', 'x-y-inv']), unique=True, max_size=3),
                               st.just(['x-inv', 'y-inv', 'x-y-sym'])),
                 as_tuple=st.booleans(), n1=st.integers(1, 6), n2=st.integers(1, 6), n3=st.integers(1, 2), nq=opt(st.integers(1, 5)),
                 hr=st.lists(floats(-1, 1), min_size=3, max_size=3), from_file=st.booleans(), bad=st.sampled_from([None, None, None, 'string', 'entry', 'type', 'notype'])),
     120, 2000, 'non-trivial: symmetries on a grid with more than four points')
def lattice_section(c, t):
    """the grids have the requested sizes and the symmetry classes of the requested symmetries, the Hamiltonian is the requested one"""
    square = c['sym'] == 'two_dimensional_square' or (isinstance(c['sym'], list) and 'x-y-sym' in c['sym'])
    nk = (c['n1'], c['n1'] if square else c['n2'], c['n3'])
    nq = None if c['nq'] is None else (c['nq'], c['nq'] if square else max(1, c['nq'] - 1), 1)
    syms = list(c['sym']) if isinstance(c['sym'], list) else NAMED.get(c['sym'], [])
    t.nontrivial(len(syms) > 0 and np.prod(nk) > 4)
    path = t.tmp()
    ref = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*c['hr']))
    d = {'nk': list(nk), 'symmetries': (tuple(c['sym']) if c['as_tuple'] and isinstance(c['sym'], list) else c['sym']), 'type': 't_tp_tpp', 'hr_input': list(c['hr'])}
    if nq is not None:
        d['nq'] = list(nq)
    if c['from_file']:
        ref.save_hr(path, name='wan.dat') if 'name' in wannier.WannierHr.save_hr.__code__.co_varnames else ref.save_hr(path)
        f = [x for x in os.listdir(path)][0]
        d.update(type='from_wannier90', hr_input=path + f)
    if c['bad'] is not None:
        t.label('rejected: ' + c['bad'])
        if c['bad'] == 'string':
            d['symmetries'] = 'hexagonal'
        elif c['bad'] == 'entry':
            d['symmetries'] = ['x-inv', 'y-rot']
        elif c['bad'] == 'type':
            d['type'] = 'unknown'
        else:
            del d['type']
        t.raises((NotImplementedError, ValueError), lambda: config.LatticeConfig(d), c['bad'])
        return
    t.label('list of symmetries', isinstance(c['sym'], list) and bool(c['sym']))
    if not c['as_tuple']:  # as it comes from a file
        buf = io.StringIO()
        YAML().dump(d, buf)
        d = YAML().load(buf.getvalue())
    lat = config.LatticeConfig(d)
    nq = nk if nq is None else nq
    t.check(tuple(lat.nk) == nk and tuple(lat.nq) == nq, f'sizes {lat.nk} {lat.nq}')
    t.check(lat.nk_tot == np.prod(nk) and lat.nq_tot == np.prod(nq), 'number of momenta')
    for got, n in ((lat.k_grid, nk), (lat.q_grid, nq)):
        want = bz.KGrid(n, tuple(syms))
        t.check(got.nk == n and got.nk_tot == np.prod(n), 'grid')
        t.equal(got.fbz2irrk, want.fbz2irrk, 'symmetry classes')
        t.equal(got.irrk_count, want.irrk_count, 'multiplicities')
    t.close(lat.get_ek(), ref.get_ek(lat.k_grid), 'H(k)', rtol=1e-6, atol=1e-5)
    ind = np.array(list(np.ndindex(*nq)))
    if any(a % b for a, b in zip(nk, nq)):
        t.label('q grid is not contained in the k grid')
        t.raises(ValueError, lambda: lat.get_q_list_on_k_grid(ind), 'momenta of q that are not on the k grid')
    else:
        t.close(lat.get_q_list_on_k_grid(ind) / np.array(nk), ind / np.array(nq), 'q on the k grid', rtol=1e-12)


@law('C22', case(a=st.tuples(*[st.integers(-1, 5)] * 4).map(list), b=st.tuples(*[st.integers(-1, 5)] * 4).map(list), as_dict=st.booleans()), 60, 600, 'non-trivial: a value that is zero is set')
def values_are_taken_from_another_section(c, t):
    """a section is set from another section or from a dictionary with all its values"""
    names = ('niw_core', 'niv_core', 'niv_shell', 'niv_asympt')
    t.nontrivial(any(y == 0 != x for x, y in zip(c['a'], c['b'])))
    a, b = config.BoxSizes(), config.BoxSizes()
    for x, v in ((a, c['a']), (b, c['b'])):
        for n, y in zip(names, v):
            setattr(x, n, y)
    a.set(dict(zip(names, c['b'])) if c['as_dict'] else b)
    t.check([getattr(a, n) for n in names] == c['b'], f'set from {c["b"]}: {[getattr(a, n) for n in names]}')
    d = a.as_dict()
    t.check([d[n] for n in names] == c['b'], f'as a dictionary: {d}')


@law('C22', case(n1=st.integers(1, 6), n2=st.integers(1, 6), div=st.sampled_from([0, 1, 2]), sym=st.sampled_from(list(NAMED)), size=st.integers(1, 40), delta=st.sampled_from([None, -1, 0, 1])), 120, 2000,
     'non-trivial: different numbers of irreducible points of the two grids')
def number_of_processes_is_checked(c, t):
    """a run starts exactly if every process gets at least one irreducible point of each grid"""
    nk = [c['n1'], c['n1'] if c['sym'] == 'two_dimensional_square' else c['n2'], 1]
    nq = [max(1, a // c['div']) for a in nk] if c['div'] else list(nk)
    irr = [len(bz.KGrid(tuple(n), tuple(NAMED[c['sym']])).irrk_ind) for n in (nk, nq)]
    t.nontrivial(irr[0] != irr[1])
    size = c['size'] if c['delta'] is None else max(1, min(irr) + c['delta'])
    path = t.tmp()
    t.label('accepted', size <= min(irr))
    make = lambda: config.DgaConfig(runcfg.conf_dict(input_path=path, nk=nk, nq=nq, symmetries=c['sym']), comm=runcfg.FakeComm(0, size))
    if size <= min(irr):
        cfg = make()
        t.equal(cfg.comm.size, size, 'number of processes')
    else:
        t.raises(ValueError, make, f'{size} processes for {irr} points')


# ------------------------------------------------------------------------------------------------ whole configuration

SECTIONS = {
    'box_sizes': {'niw_core': st.integers(-1, 9), 'niv_core': st.integers(1, 9), 'niv_shell': st.integers(0, 30), 'niv_asympt': st.sampled_from([-1, 60])},
    'dga': {'lambda_corr': st.sampled_from(['spch', 'sp', 'none']), 'gui': st.just(False)},
    'dmft_input': {'type': st.sampled_from(['w2dyn', 'EDFermion', 'default']), 'input_path': st.sampled_from(['./', '/data/x/']), 'fname_1p': st.sampled_from(['a.hdf5', 'b']),
                   'fname_2p': st.sampled_from(['g2.hdf5', 'c']), 'do_sym_v_vp': st.booleans()},
    'poly_fitting': {'n_fit': st.integers(2, 9), 'o_fit': st.integers(1, 4)},
    'optics': {'do_bubble': st.booleans(), 'do_vertex': st.booleans(), 'der_a': st.integers(0, 2), 'der_b': st.integers(0, 2), 'niw_cond': st.integers(-1, 9),
               'niw_bubble': st.integers(-1, 9), 'niw_vert': st.integers(-1, 9), 'niv_bubble': st.integers(-1, 30)},
    'pairing': {'do_pairing_vertex': st.booleans(), 'do_eliash': st.booleans(), 'k_sym': st.sampled_from(['random', 'd-wave', 'p-wave-x', 'p-wave-y']), 'n_eig': st.integers(1, 4),
                'sym_sing': st.booleans(), 'sym_trip': st.booleans()},
    'debug': {'keep_rank_files': st.booleans()},
    'output': {'save_vrg': st.booleans(), 'save_fq': st.booleans(), 'keep_fq_optics': st.booleans(), 'keep_pairing_vertex': st.booleans(), 'verbosity': st.integers(0, 2)},
}
DEFAULTS = {
    'box_sizes': {'niw_core': -1, 'niv_core': -1, 'niv_shell': 0},
    'dga': {'lambda_corr': 'spch'},
    'dmft_input': {'type': 'w2dyn', 'input_path': './', 'fname_1p': '1p-data.hdf5', 'fname_2p': 'g4iw_sym.hdf5', 'do_sym_v_vp': True},
    'poly_fitting': {'n_fit': 4, 'o_fit': 3},
    'optics': {'do_bubble': False, 'do_vertex': False, 'der_a': 0, 'der_b': 0, 'niw_cond': -1, 'niw_bubble': -1, 'niw_vert': -1, 'niv_bubble': -1},
    'pairing': {'do_pairing_vertex': False, 'do_eliash': False, 'k_sym': 'random', 'sym_sing': True, 'sym_trip': True, 'n_eig': 2, 'eps': 1e-6, 'max_count': 10000},
    'debug': {'keep_rank_files': False},
    'output': {'save_vrg': False, 'save_fq': False, 'keep_fq_optics': False, 'keep_pairing_vertex': True, 'verbosity': 1},
}
HOLDER = {'box_sizes': 'box', 'optics': 'optics', 'pairing': 'eliash', 'debug': 'debug'}
GAP = {'d-wave': ('even', 'odd'), 'p-wave-x': ('odd', 'even'), 'p-wave-y': ('odd', 'even'), 'random': ('random', 'random')}
section_st = st.fixed_dictionaries({k: st.one_of(st.none(), st.fixed_dictionaries({}, optional=v)) for k, v in SECTIONS.items()})


def check_config(t, cfg, given):
    for name, default in DEFAULTS.items():
        obj = getattr(cfg, HOLDER[name]) if name in HOLDER else cfg
        want = dict(default)
        want.update(given.get(name) or {})
        for k, v in want.items():
            if k in ('gui', 'niv_asympt'):
                continue
            t.check(getattr(obj, k) == v, f'{name}.{k} = {getattr(obj, k)!r} instead of {v!r}')
    t.check(cfg.do_poly_fitting == (given.get('poly_fitting') is not None), 'polynomial fits are done if the section exists')
    k = (given.get('pairing') or {}).get('k_sym', 'random')
    t.check(cfg.eliash.gap0_sing == {'k': k, 'v': GAP[k][0]} and cfg.eliash.gap0_trip == {'k': k, 'v': GAP[k][1]}, 'starting gaps')


@law('C22', case(sections=section_st, nk=st.integers(1, 4), name=st.sampled_from(['dga_config.yaml', 'my.yaml']), ranks=st.integers(1, 20)), 150, 2500,
     'non-trivial: at least three sections')
def every_documented_key_takes_effect(c, t):
    """defaults are the documented ones, every key of a file replaces its default; saving the file and reading it again gives the same configuration"""
    given = {k: v for k, v in c['sections'].items() if v is not None}
    t.nontrivial(len(given) >= 3)
    path, out = t.tmp(), t.tmp()
    d = dict(given)
    d['lattice'] = {'symmetries': 'two_dimensional_square', 'type': 't_tp_tpp', 'hr_input': [1.0, -0.2, 0.1], 'nk': [c['nk'], c['nk'], 1]}
    with open(path + c['name'], 'w', encoding='utf-8') as f:
        YAML().dump(d, f)
    argv = sys.argv
    try:
        sys.argv = ['dga_main', '-c', c['name'], '-p', path]
        cfg, conf_file = config.parse_config_file(MPI.COMM_SELF)
    finally:
        sys.argv = argv
    check_config(t, cfg, given)
    config.save_config_file(conf_file, out)
    again = YAML().load(open(out + 'dga_config.yaml', encoding='utf-8'))
    t.check(again == conf_file, 'saved configuration file differs')
    cfg2 = config.DgaConfig(again, comm=MPI.COMM_SELF)
    check_config(t, cfg2, given)
    nirr = cfg.lattice.k_grid.nk_irr
    if c['ranks'] > nirr:
        t.label('too many processes')
        t.raises(ValueError, lambda: config.DgaConfig(conf_file, comm=FakeComm(0, c['ranks'])), f'{c["ranks"]} processes for {nirr} momenta')
    else:
        config.DgaConfig(conf_file, comm=FakeComm(0, c['ranks']))
    t.raises(ValueError, lambda: config.DgaConfig(dict(given), comm=MPI.COMM_SELF), 'no lattice')


def template_is_readable(c, t):
    """every section of the distributed template and of the default dictionary is a known one, and its values are taken over"""
    from vpbt.core import REPO
    tpl = YAML().load(open(os.path.join(REPO, 'config_templates', 'dga_config.yaml'), encoding='utf-8'))
    tpl['lattice'].update({'type': 't_tp_tpp', 'hr_input': [1.0, c['tp'], 0.1], 'nk': [c['nk'], c['nk'], 1]})
    tpl['box_sizes'].update({'niv_shell': c['shell'], 'niw_core': c['niw']})
    t.nontrivial(c['shell'] > 0)
    t.check(set(tpl) <= set(SECTIONS) | {'lattice', 'max_ent'}, f'sections {set(tpl)}')
    check_config(t, config.DgaConfig(tpl, comm=MPI.COMM_SELF), {k: v for k, v in tpl.items() if k in SECTIONS})
    d = config.get_default_config_dict()
    for name, values in d.items():  # it holds the defaults
        for k, v in values.items():
            want = DEFAULTS.get({'box_sizes': 'box_sizes'}.get(name, name), {}).get(k, v)
            t.check(v == want, f'default dictionary {name}.{k} = {v!r} instead of {want!r}')
    t.check(d['lattice'] == {'symmetries': 'two_dimensional_square', 'type': 't_tp_tpp', 'hr_input': [1.0, -0.2, 0.1], 'nk': [24, 24, 1]}, 'default lattice')
    for name in ('poly_fitting', 'dmft_input', 'optics'):
        for k in tpl[name]:
            if k in d[name] and name != 'optics':
                t.check(tpl[name][k] == d[name][k], f'template {name}.{k}')
    d['lattice']['nk'] = [c['nk'], c['nk'], 1]
    box = [k for k in d if k.startswith('box')][0]
    d[box].update({'niv_shell': c['shell'], 'niw_core': c['niw']})
    given = {k: v for k, v in d.items() if k in SECTIONS}
    given['box_sizes'] = d[box]
    check_config(t, config.DgaConfig(d, comm=MPI.COMM_SELF), given)


ME = {'nwr': st.integers(5, 200), 'wmax': st.integers(1, 30), 'wmin': st.integers(-30, -1), 'err': st.sampled_from([1e-2, 1e-4]), 'n_fit': st.integers(5, 90),
      'use_preblur': st.booleans(), 'alpha_det_method': st.sampled_from(['chi2kink', 'historic', 'bryan']), 'optimizer': st.sampled_from(['newton', 'scipy_lm']),
      'mesh_type': st.sampled_from(['tan', 'linear', 'hyperbolic', 'lorentzian']), 'cut': st.sampled_from([0.02, 0.1]), 'bw_fit_position': st.integers(1, 20),
      'bw_dga': st.lists(floats(0.01, 1), min_size=1, max_size=3), 'bw_range_loc': st.lists(floats(0.01, 1), min_size=1, max_size=5)}


@law('C22', case(given=st.fixed_dictionaries({}, optional=ME), beta=floats(0.5, 200), t=floats(0.2, 2)), 150, 2000, 'non-trivial: some settings given, some not')
def continuation_section(c, t):
    """settings of the analytic continuation: defaults, given ones replace them, the mesh is the one of the settings"""
    from dga import analytic_continuation as ac
    t.nontrivial(0 < len(c['given']) < len(ME))
    m = config.MaxEntConfig(c['t'], c['beta'], dict(c['given']))
    want = dict(nwr=501, wmax=15, wmin=None, err=1e-3, n_fit=int(c['beta'] * 3 + 10), use_preblur=True, alpha_det_method='chi2kink', optimizer='newton',
                mesh_type='tan', cut=0.04, bw_fit_position=10, bw_dga=[0.1], bw_range_loc=[0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1])
    want.update(c['given'])
    for k, v in want.items():
        got = getattr(m, k)
        if isinstance(v, list):
            t.equal(np.array(got), np.array(v), k)
        else:
            t.check(got == v and isinstance(got, str) == isinstance(v, str), f'{k} = {got!r} instead of {v!r}')
    t.check(float(m.n_fit).is_integer() and isinstance(m.n_fit, (int, np.integer)), f'n_fit = {m.n_fit!r} frequencies')
    t.check(m.beta == c['beta'] and m.t == c['t'], 'temperature and unit')
    lo = -want['wmax'] if want['wmin'] is None else want['wmin']
    t.close(m.mesh, ac.get_w_mesh(want['mesh_type'], lo, want['wmax'], want['nwr'], want['cut']), 'mesh', rtol=1e-12)
    t.check(len(m.mesh) == want['nwr'], 'points of the mesh')
    m.nwr = 33
    m.mesh_type = 'linear'
    t.close(m.mesh, np.linspace(lo, want['wmax'], 33), 'mesh after a change of its type', rtol=1e-12, atol=1e-12)
    path = t.tmp()
    m.dump_settings_to_txt(path + 's', nfit=7)
    txt = dict(a.strip().split('=') for a in open(path + 's.txt', encoding='utf-8'))
    t.check(txt['nfit'] == '7' and float(txt['err']) == want['err'] and float(txt['wmax']) == want['wmax'] and txt['nwr'] == '33', f'settings file {txt}')


@law('C22', case(keys=st.sets(st.sampled_from(['nk', 'nq', 'symmetries'])), n=st.integers(1, 5), sym=st.sampled_from(list(NAMED))), 40, 400, 'non-trivial: something left out')
def lattice_defaults(c, t):
    """what the lattice section leaves out: a 16x16x1 grid, no symmetries, the bosonic grid equals the fermionic one"""
    t.nontrivial(len(c['keys']) < 3)
    d = {'type': 't_tp_tpp', 'hr_input': [1.0, 0.1, 0.0]}
    d.update({k: v for k, v in (('nk', [2 * c['n']] * 2 + [1]), ('nq', [c['n']] * 2 + [1]), ('symmetries', c['sym'])) if k in c['keys']})
    lat = config.LatticeConfig(d)
    nk = tuple(d.get('nk', (16, 16, 1)))
    nq = tuple(d.get('nq', nk))
    syms = tuple(NAMED[c['sym']]) if 'symmetries' in c['keys'] else ()
    for g, n in ((lat.k_grid, nk), (lat.q_grid, nq)):
        t.check(tuple(g.nk) == n, f'grid {g.nk}')
        t.equal(g.fbz2irrk, bz.KGrid(n, syms).fbz2irrk, 'symmetry classes')


law('C22', case(shell=st.integers(0, 50), niw=st.integers(1, 20), tp=floats(-0.5, 0.5), nk=st.integers(1, 5)), 25, 200, 'non-trivial: a shell')(template_is_readable)


@law('C22', case(niw_core=st.integers(0, 12), niv_core=st.integers(2, 14), asympt=st.integers(10, 60), niw_vert=st.integers(-1, 14), niw_cond=st.integers(-1, 14),
                 niw_bubble=st.integers(-1, 14), niv_bubble=st.integers(-1, 80)), 300, 4000, 'non-trivial: a range is inferred')
def optics_ranges_fit_the_box(c, t):
    """all optics ranges are set, those given are kept, and the Green's function box holds the bubble"""
    o = config.OpticsConfig({k: c[k] for k in ('niw_vert', 'niw_cond', 'niw_bubble', 'niv_bubble')})
    t.nontrivial(-1 in (c['niw_vert'], c['niw_cond'], c['niw_bubble'], c['niv_bubble']))

    class D:
        box = config.BoxSizes(dict(niw_core=c['niw_core'], niv_core=c['niv_core'], niv_asympt=c['asympt']))
    if c['niw_vert'] > c['niw_core'] or c['niw_cond'] >= c['niv_core']:
        t.label('rejected')
        t.raises(AssertionError, lambda: o.set_frequency_ranges(D), 'more frequencies than available')
        return
    o.set_frequency_ranges(D)
    cond = c['niw_cond'] if c['niw_cond'] != -1 else c['niw_core'] // 2
    t.check(o.niw_cond == cond, 'niw_cond')
    t.check(o.niw_vert == (c['niw_vert'] if c['niw_vert'] != -1 else c['niw_core']), 'niw_vert')
    t.check(o.niw_bubble == (c['niw_bubble'] if c['niw_bubble'] != -1 else cond), 'niw_bubble')
    t.check(o.niv_bubble == (c['niv_bubble'] if c['niv_bubble'] != -1 else c['asympt'] - 2 * cond), 'niv_bubble')
    t.check(o.niv_vert == c['niv_core'] - cond, 'niv_vert')
    t.check(D.box.niv_asympt >= c['asympt'] and D.box.niv_asympt >= o.niv_bubble + o.niw_bubble, 'asymptotic box')
    for got, n in ((o.wn_cond, cond), (o.wn_vert, o.niw_vert), (o.wn_bubble, o.niw_bubble)):
        t.equal(got(), np.arange(-n, n + 1), 'grid')
        t.equal(got(pos=True), np.arange(0, n + 1), 'positive grid')


# ------------------------------------------------------------------------------------------------ folders and data

op_st = st.lists(st.tuples(st.sampled_from(['out', 'save', 'pdir', 'poly', 'io', 'clean', 'yaml']), st.integers(0, 3)), min_size=1, max_size=14)


@law('C22', case(ops=op_st, seed=seeds, lam=st.sampled_from(['spch', 'sp']), comm=st.booleans()), 120, 2000, 'non-trivial: at least two output folders')
def repeated_runs_never_share_a_folder(c, t):
    """model: set of folders with their files. Every new folder is fresh, nothing stored earlier changes, saved data come back"""
    path = t.tmp()
    r = rng(c['seed'])
    comm = MPI.COMM_SELF if c['comm'] else None
    conf = {'lattice': {'type': 't_tp_tpp', 'hr_input': [1.0, 0.0, 0.0], 'nk': [2, 2, 1]}, 'dmft_input': {'input_path': path}, 'dga': {'lambda_corr': c['lam']},
            'box_sizes': {'niv_core': 3, 'niw_core': 2, 'niv_shell': 1}, 'poly_fitting': {}}
    files = {}
    folders = set()

    def new(p, what):
        p = os.path.realpath(p)
        t.check(os.path.isdir(p), f'{what} was not created')
        t.check(p not in folders, f'{what} {p} existed before')
        t.check(not os.listdir(p), f'{what} is not empty')
        folders.add(p)

    cfg = None
    for op, i in [('out', 0)] + list(map(tuple, c['ops'])):
        if op == 'out':
            cfg = config.DgaConfig(conf, comm=comm)
            cfg.create_dga_ouput_folder()
            new(cfg.output_path, 'output folder')
            base = os.path.basename(os.path.realpath(cfg.output_path))
            t.check(base.startswith(f'LDGA_{c["lam"]}_Nk4_Nq4_wc2_vc3_vs1'), f'name {base}')
            t.check(os.path.dirname(os.path.realpath(cfg.output_path)) == os.path.realpath(path), 'place of the output folder')
        elif op == 'pdir':
            cfg.create_plotting_folder()
            new(cfg.pdir, 'plot folder')
            t.check(os.path.realpath(cfg.pdir).startswith(os.path.realpath(cfg.output_path)), 'plot folder inside the output folder')
        elif op == 'poly':
            cfg.create_poly_fit_folder()
            new(cfg.poly_fit_dir, 'fit folder')
        elif op == 'io':
            new(dga_io.set_output_path(path + f'MaxEnt{i}', comm=comm), 'folder')
        elif op == 'save':
            d = [np.arange(6).reshape(2, 3) * r.uniform(), {'a': cplx(r, 3), 'b': 1}, cplx(r, (1,)), np.float64(r.uniform())][i]
            cfg.save_data(d, f'x{i}')
            files[(os.path.realpath(cfg.output_path), f'x{i}')] = d
        elif op == 'clean':
            cfg.clean_data(f'x{i}')
            files.pop((os.path.realpath(cfg.output_path), f'x{i}'), None)
            t.check(not os.path.exists(cfg.output_path + f'/x{i}.npy'), 'file was not removed')
        elif op == 'yaml':
            box = config.OutputConfig()
            box.output_path = cfg.output_path
            box.x = i
            box.y = 'abc'
            box.to_yaml(f'c{i}')
            back = YAML().load(open(cfg.output_path + f'/c{i}.yaml', encoding='utf-8'))
            t.check(back['x'] == i and back['y'] == 'abc', 'yaml')
    t.nontrivial(len(folders) > 1)
    for (p, name), d in files.items():
        cfg.output_path = p
        same(t, cfg.load_data(name), d, 'stored data')
    t.check({os.path.join(p, f) for p in folders for f in os.listdir(p) if f.endswith('.npy')} == {os.path.join(p, n + '.npy') for p, n in files}, 'files')


def same(t, got, want, msg):
    if isinstance(want, dict):
        t.check(isinstance(got, dict) and set(got) == set(want), msg + ': keys')
        for k in want:
            same(t, got[k], want[k], msg)
        return
    t.check(np.asarray(got).dtype == np.asarray(want).dtype, f'{msg}: type {np.asarray(got).dtype}')
    t.equal(got, want, msg)


@law('C22', case(shape=st.lists(st.integers(0, 3), max_size=4), dtype=st.sampled_from(['f8', 'c16', 'i8', 'b1', 'c8']), seed=seeds, order=st.sampled_from('CF')), 200, 4000,
     'non-trivial: an array of one entry, or with an axis of length one')
def data_round_trip(c, t):
    """any array comes back with its shape, type and entries"""
    r = rng(c['seed'])
    a = np.array(cplx(r, tuple(c['shape'])) if 'c' in c['dtype'] else r.uniform(-9, 9, tuple(c['shape']))).astype(c['dtype'], order=c['order'])
    t.nontrivial(1 in c['shape'] or a.size == 1)
    t.label('single entry', a.size == 1 and a.ndim > 0)
    o = config.OutputConfig()
    o.output_path = t.tmp()
    o.save_data(a, 'x')
    if a.ndim == 0:  # comes back as a Python number
        t.check(o.load_data('x') == a.item(), 'scalar')
    else:
        same(t, o.load_data('x'), a, 'array')


@law('C22', case(names=st.lists(st.sampled_from(['a', 'a/', 'b.txt', 'c.d/e', 'a_1', 'b_1.txt']), min_size=1, max_size=12)), 150, 2000,
     'non-trivial: a name is requested repeatedly')
def unique_names(c, t):
    """a unique name never exists yet; creating it never hits an existing entry; a free name is used as it is"""
    path = t.tmp()
    os.mkdir(path + 'c.d')
    seen = set()
    t.nontrivial(len(set(c['names'])) < len(c['names']))
    for n in c['names']:
        free = not os.path.exists(path + n)
        p = util.uniquify(path + n)
        t.check(not os.path.exists(p), f'{p} exists')
        if free:
            t.check(os.path.normpath(p) == os.path.normpath(path + n), f'{p} for the free name {n}')
        t.check(p.endswith('/'), 'is a folder name')
        os.makedirs(p)
        t.check(os.path.normpath(p) not in seen, 'used twice')
        seen.add(os.path.normpath(p))


@law('C22', case(beta=floats(0.5, 30), n=floats(0.1, 1.9), u=floats(0, 5), mu=floats(-2, 2), seed=seeds, t=floats(0.1, 2), nmin=st.integers(1, 30), dn=st.integers(0, 100)), 100, 1000,
     'non-trivial: always')
def system_parameters(c, t):
    d = dict(n=c['n'], beta=c['beta'], u=c['u'], mu_dmft=c['mu'], giw=np.arange(4) * 1j, siw=np.arange(6) * 2j)
    cfg = config.DgaConfig({'lattice': {'type': 't_tp_tpp', 'hr_input': [1.0, 0.0, 0.0], 'nk': [1, 1, 1]}}, comm=MPI.COMM_SELF)
    cfg.set_system_parameter(d)
    for obj in (cfg.sys, config.get_dmft_input_config_from_dict(d)):
        t.check((obj.n, obj.beta, obj.u, obj.mu_dmft) == (c['n'], c['beta'], c['u'], c['mu']), 'values')
        t.equal(obj.giw, d['giw'], 'giw')
        t.equal(obj.siw, d['siw'], 'siw')
    m = config.MaxEntConfig(c['t'], c['beta'], {})
    t.check(m.get_n_fit_opt(c['nmin'], c['nmin'] + c['dn']) == min(max(c['nmin'], int(c['beta'] * 4 * c['t'])), c['nmin'] + c['dn']), 'number of fit frequencies')
    t.close(m.get_bw_opt(), np.pi / c['beta'] / c['t'], 'blur width')
    a, b = config.ConfigBase(), config.ConfigBase()
    a.x, a.y = 1, 'p'
    b.x, b.z = 5, 3
    a.set(b)
    t.check(a.x == 5 and a.y == 'p' and not hasattr(a, 'z'), 'known keys are taken from another configuration')
    a.set({'y': 'q', 'w': 2})
    t.check((a.x, a.y, a.w) == (5, 'q', 2), 'keys of a dictionary')
    a.sub = b
    t.check(a.as_dict() == {'x': 5, 'y': 'q', 'w': 2, 'sub': {'x': 5, 'z': 3}}, f'as dictionary: {a.as_dict()}')


@law('C22', case(msgs=st.lists(st.tuples(st.sampled_from(['event', 'message', 'cpu', 'mem']), st.text('abc xyz', min_size=1, max_size=10)), max_size=8), rank=st.integers(0, 2)), 60, 600,
     'non-trivial: at least two messages of the root process')
def log_file_has_every_message_of_the_root(c, t):
    path = t.tmp()
    lg = loggers.MpiLogger(logfile=path + 'x.log', comm=FakeComm(c['rank'], 3), output_path=path)
    t.nontrivial(c['rank'] == 0 and len(c['msgs']) > 1)
    for kind, m in c['msgs']:
        {'event': lg.log_event, 'message': lg.log_message, 'cpu': lg.log_cpu_time, 'mem': lambda x: lg.log_memory_usage(x, np.zeros(4), n_exists=2)}[kind](m)
    t.check(lg.is_root == (c['rank'] == 0), 'root')
    if c['rank'] != 0:
        t.check(not os.path.exists(path + 'x.log'), 'only the root process logs')
        return
    lines = open(path + 'x.log', encoding='utf-8').read().split('\n')[1:-1]
    t.check(len(lines) == len(c['msgs']), 'number of lines')
    for ln, (kind, m) in zip(lines, c['msgs']):
        t.check(m in ln, f'message {m!r} in {ln!r}')
        if kind == 'mem':
            t.check(f'{4 * 8 * 1e-9 * 2:.6f}' in ln, 'memory')


FOLDER_DRIVER = """
import sys, time, json
sys.path.insert(0, sys.argv[1])
from vpbt import core
from mpi4py import MPI
from dga import config
comm = MPI.COMM_WORLD
path, delays, poly = sys.argv[2], json.loads(sys.argv[3]), sys.argv[4] == '1'
conf = {'lattice': {'type': 't_tp_tpp', 'hr_input': [1.0, 0.0, 0.0], 'nk': [4, 4, 1]}, 'dmft_input': {'input_path': path},
        'box_sizes': {'niv_core': 3, 'niw_core': 2, 'niv_shell': 1}}
if poly: conf['poly_fitting'] = {}
out = []
for d in delays:
    cfg = config.DgaConfig(conf, comm=comm)
    time.sleep(d[comm.rank] * 0.02)
    cfg.create_folders()
    out.append([cfg.output_path, cfg.eliash.output_path, cfg.optics.output_path])
res = comm.gather(out)
if comm.rank == 0:
    open(path + 'done.json.tmp', 'w').write(json.dumps(res))
    import os
    os.rename(path + 'done.json.tmp', path + 'done.json')
"""


@law('C22', case(n=st.integers(2, 4), delays=st.lists(st.lists(st.integers(0, 4), min_size=4, max_size=4), min_size=1, max_size=3), poly=st.booleans()), 3, 40,
     'non-trivial: the processes arrive at different times')
def all_processes_agree_on_the_folders(c, t):
    """under mpirun every process uses the same, fresh output folders, whatever the arrival order"""
    import json
    path = t.tmp()
    t.nontrivial(any(len(set(d[:c['n']])) > 1 for d in c['delays']))
    with open(path + 'drv.py', 'w', encoding='utf-8') as f:
        f.write(FOLDER_DRIVER)
    os.mkdir(path + 'w')
    run_mpi(t, c['n'], [path + 'drv.py', HERE, path + 'w/', json.dumps(c['delays']), str(int(c['poly']))], path, need=path + 'w/done.json')
    res = json.load(open(path + 'w/done.json', encoding='utf-8'))
    t.check(len(res) == c['n'], 'processes')
    for r in res[1:]:
        t.check(r == res[0], f'different folders {r} {res[0]}')
    flat = [os.path.realpath(x) for o in res[0] for x in o]
    t.check(len(set(flat)) == len(flat), f'shared folders {flat}')
    for x in flat:
        t.check(os.path.isdir(x), f'{x} missing')


@law('C22', case(old=st.sampled_from([None, 'empty', 'text']), sub=st.sampled_from(['', 'run 1', 'a/b']), shell=st.integers(0, 50), nk=st.integers(1, 4)), 20, 100,
     'non-trivial: a folder of its own')
def generated_configuration_starts_a_run(c, t):
    """dga_dc puts the template into the working directory, and a run reads it there"""
    from cli import dga_config_generator
    from vpbt.core import REPO
    here = os.path.join(t.tmp(), c['sub'])
    os.makedirs(here, exist_ok=True)
    t.nontrivial(c['sub'] != '')
    if c['old'] is not None:
        with open(os.path.join(here, 'dga_config.yaml'), 'w', encoding='utf-8') as f:
            f.write('' if c['old'] == 'empty' else 'lattice: {nk: [1, 1, 1]}\n' * 400)
    back = os.getcwd()
    try:
        os.chdir(here)
        dga_config_generator.main()
        t.check(os.path.realpath(os.getcwd()) == os.path.realpath(here), 'the working directory changed')
    finally:
        os.chdir(back)
    t.check(os.listdir(here) == ['dga_config.yaml'], f'files {os.listdir(here)}')
    tpl, got = (YAML().load(open(os.path.join(d, 'dga_config.yaml'), encoding='utf-8')) for d in (os.path.join(REPO, 'config_templates'), here))
    t.check(tpl == got, 'the copy differs from the template')
    got['lattice'].update({'type': 't_tp_tpp', 'hr_input': [1.0, 0.1, 0.1], 'nk': [c['nk'], c['nk'], 1]})
    got['box_sizes']['niv_shell'] = c['shell']
    check_config(t, config.DgaConfig(got, comm=MPI.COMM_SELF), {k: v for k, v in got.items() if k in SECTIONS})
