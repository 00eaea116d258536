"""C01  Matsubara grids, cuts and paddings label every entry with the right frequency"""
import numpy as np
from vpbt.core import law, case, st, seeds, kinds, data, floats
from dga import matsubara_frequencies as mf

n_st = st.integers(0, 12)
shift_st = st.integers(-9, 9)
beta_st = floats(0.05, 120.0)


def fgrid(n, shift=0, pos=False):
    return [i + shift for i in (range(0, n) if pos else range(-n, n))]


def bgrid(n, shift=0, pos=False):
    return [i + shift for i in (range(0, n + 1) if pos else range(-n, n + 1))]


@law('C01', case(n=n_st, shift=shift_st, pos=st.booleans(), beta=beta_st, npint=st.booleans()), 250, 4000,
     'non-trivial: at least one frequency and a shift or pos=True')
def grids_from_count(c, t):
    n = np.int64(c['n']) if c['npint'] else c['n']
    beta, shift, pos = float(c['beta']), c['shift'], c['pos']
    t.nontrivial(c['n'] > 0 and (shift != 0 or pos))
    t.equal(mf.vn(n), np.array(fgrid(c['n']), dtype=int), 'vn(n)')
    t.equal(mf.wn(n), np.array(bgrid(c['n']), dtype=int), 'wn(n)')
    f, b = fgrid(c['n'], shift, pos), bgrid(c['n'], shift, pos)
    t.equal(mf.vn(n, shift=shift, pos=pos), np.array(f, dtype=int), 'vn(n, shift, pos)')
    t.equal(mf.wn(n, shift=shift, pos=pos), np.array(b, dtype=int), 'wn(n, shift, pos)')
    t.close(mf.vn(beta, n, shift=shift, pos=pos), np.array([(2 * i + 1) * np.pi / beta for i in f]), 'vn(beta, n, shift, pos)',
            rtol=1e-12)
    t.close(mf.wn(beta, n, shift=shift, pos=pos), np.array([2 * i * np.pi / beta for i in b]), 'wn(beta, n, shift, pos)',
            rtol=1e-12)
    t.close(mf.vn(beta, n), np.array([(2 * i + 1) * np.pi / beta for i in fgrid(c['n'])]), 'vn(beta, n)', rtol=1e-12)
    t.close(mf.wn(beta, n), np.array([2 * i * np.pi / beta for i in bgrid(c['n'])]), 'wn(beta, n)', rtol=1e-12)


@law('C01', case(shape=st.lists(st.integers(1, 9), min_size=1, max_size=4), ax=st.integers(0, 3), beta=beta_st, shift=shift_st,
                 pos=st.booleans(), neg_ax=st.booleans()), 250, 4000, 'non-trivial: array with more than one axis')
def grids_from_array(c, t):
    mat = np.zeros(c['shape'])
    ax = c['ax'] % mat.ndim
    axis = ax - mat.ndim if c['neg_ax'] else ax
    length, pos, beta, shift = mat.shape[ax], c['pos'], float(c['beta']), c['shift']
    t.nontrivial(mat.ndim > 1)
    nf = length if pos else length // 2
    nb = length - 1 if pos else length // 2
    t.check(mf.niv_from_mat(mat, axis=axis, pos=pos) == nf, 'niv_from_mat')
    t.check(mf.niw_from_mat(mat, axis=axis, pos=pos) == nb, 'niw_from_mat')
    f, b = fgrid(nf, shift, pos), bgrid(nb, shift, pos)
    t.equal(mf.vn(mat, axis=axis, shift=shift, pos=pos), np.array(f, dtype=int), 'vn(mat)')
    t.equal(mf.wn(mat, axis=axis, shift=shift, pos=pos), np.array(b, dtype=int), 'wn(mat)')
    t.close(mf.vn(beta, mat, axis=axis, shift=shift, pos=pos), np.array([(2 * i + 1) * np.pi / beta for i in f]), 'vn(beta,mat)',
            rtol=1e-12)
    t.close(mf.wn(beta, mat, axis=axis, shift=shift, pos=pos), np.array([2 * i * np.pi / beta for i in b]), 'wn(beta,mat)',
            rtol=1e-12)
    # default axes: last for fermionic, first for bosonic
    t.equal(mf.vn(mat), np.array(fgrid(mat.shape[-1] // 2), dtype=int), 'vn(mat) default axis')
    t.equal(mf.wn(mat), np.array(bgrid(mat.shape[0] // 2), dtype=int), 'wn(mat) default axis')


@st.composite
def cut_case(draw):
    nd = draw(st.integers(1, 4))
    fax = sorted(draw(st.sets(st.integers(0, nd - 1), min_size=1, max_size=nd)))
    nivs = [draw(st.integers(1, 6)) for _ in range(nd)]
    ncut = draw(st.integers(0, min(nivs[a] for a in fax)))
    return dict(nd=nd, axes=fax, niv=nivs, ncut=ncut, all_neg=draw(st.booleans()), order=draw(st.booleans()), seed=draw(seeds),
                kind=draw(kinds), full=draw(st.booleans()))


@law('C01', cut_case(), 400, 8000, 'non-trivial: a proper cut (0 < niv_cut < niv) on more than one axis or dimension')
def cut_v_keeps_the_centre(c, t):
    shape = tuple(2 * n if i in c['axes'] else n for i, n in enumerate(c['niv']))
    mat = data(c['seed'], shape, c['kind'])
    axes = [a - c['nd'] if c['all_neg'] else a for a in c['axes']]
    if c['order']:
        axes = axes[::-1]
    ncut = c['ncut']
    idx = [np.arange(s) for s in shape]
    for a in c['axes']:
        n = c['niv'][a]
        lab = np.array(fgrid(n))
        idx[a] = np.where((lab >= -ncut) & (lab < ncut))[0]
    if ncut == 0:
        return
    t.nontrivial(ncut < min(c['niv'][a] for a in c['axes']) and c['nd'] > 1)
    t.label('multi-axis', len(axes) > 1)
    t.equal(mf.cut_v(mat, ncut, tuple(axes)), mat[np.ix_(*idx)], 'cut_v')
    if len(axes) == 1:
        t.equal(mf.cut_v(mat, niv_cut=ncut, axes=axes[0]), mat[np.ix_(*idx)], 'cut_v integer axis')
    t.equal(mf.cut_v(mat, niv_cut=-1, axes=tuple(axes)), mat, 'cut_v(-1) keeps everything')


@law('C01', cut_case(), 300, 6000, 'non-trivial: a proper cut of a bosonic axis')
def cut_w_keeps_the_centre(c, t):
    shape = tuple(2 * n + 1 if i in c['axes'] else n for i, n in enumerate(c['niv']))
    mat = data(c['seed'], shape, c['kind'])
    axes = tuple(a - c['nd'] if c['all_neg'] else a for a in c['axes'])
    ncut = c['ncut']
    idx = [np.arange(s) for s in shape]
    for a in c['axes']:
        lab = np.array(bgrid(c['niv'][a]))
        idx[a] = np.where(np.abs(lab) <= ncut)[0]
    t.nontrivial(0 < ncut < min(c['niv'][a] for a in c['axes']))
    t.equal(mf.cut_w(mat, ncut, axes), mat[np.ix_(*idx)], 'cut_w')


@st.composite
def shell_case(draw):
    nd = draw(st.integers(1, 3))
    core, shell, rest = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(0, 3))
    return dict(outer=[draw(st.integers(1, 3)) for _ in range(nd - 1)], core=core, shell=shell, rest=rest, seed=draw(seeds),
                kind=draw(kinds))


@law('C01', shell_case(), 300, 6000, 'non-trivial: frequencies exist beyond the shell, or more than one axis')
def core_and_shell_partition_the_axis(c, t):
    niv = c['core'] + c['shell'] + c['rest']
    shape = tuple(c['outer']) + (2 * niv,)
    mat = data(c['seed'], shape, c['kind'])
    t.nontrivial(c['rest'] > 0 or len(shape) > 1)
    lab = np.array(fgrid(niv))
    dist = np.where(lab >= 0, lab, -lab - 1)
    want = mat[..., (dist >= c['core']) & (dist < c['core'] + c['shell'])]
    got = mf.inv_cut_v(mat, niv_core=c['core'], niv_shell=c['shell'], axes=-1)
    t.equal(got, want, 'inv_cut_v')
    core = mf.cut_v(mat, c['core'], axes=-1)
    t.equal(mf.concatenate_core_asmypt(core, got), mat[..., dist < c['core'] + c['shell']], 'core+shell concatenation')
    if mat.ndim > 1:
        m0 = np.moveaxis(mat, -1, 0)
        t.equal(mf.inv_cut_v(m0, niv_core=c['core'], niv_shell=c['shell'], axes=(0,)), np.moveaxis(want, -1, 0), 'inv_cut_v axis 0')
    t.equal(mf.clip_pos_mf_vn(mat), mat[..., lab >= 0], 'clip_pos_mf_vn')
    t.equal(mf.cut_v_1d(mat[(0,) * (mat.ndim - 1)], c['core']), core[(0,) * (mat.ndim - 1)], 'cut_v_1d')
    pos = mf.cut_v_1d_pos(mat[(0,) * (mat.ndim - 1)], niv_cut=c['shell'], niv_min=c['core'])
    t.equal(pos, mat[(0,) * (mat.ndim - 1)][(lab >= c['core']) & (lab < c['core'] + c['shell'])], 'cut_v_1d_pos')


@law('C01', case(outer=st.lists(st.integers(1, 3), min_size=0, max_size=3), core=st.integers(1, 5), shell=st.integers(0, 5),
                 seed=seeds, kind=st.sampled_from(['complex', 'real', 'index']), val=floats(-5, 5)), 200, 3000,
     'non-trivial: shell >= 1')
def append_shell_pads_outside_only(c, t):
    mat = data(c['seed'], tuple(c['outer']) + (2 * c['core'], 2 * c['core']), c['kind'])
    nfull = c['core'] + c['shell']
    val = c['val'] * (1 - 0.5j) if c['kind'] == 'complex' else c['val']
    got = mf.append_v_vp_shell(mat, val, niv_shell=c['shell'])
    lab = np.array(fgrid(nfull))
    inside = (lab >= -c['core']) & (lab < c['core'])
    want = np.full(mat.shape[:-2] + (2 * nfull, 2 * nfull), val, dtype=mat.dtype)
    ii = np.where(inside)[0]
    want[..., ii[:, None], ii[None, :]] = mat
    t.nontrivial(c['shell'] > 0)
    t.equal(got, want, 'append_v_vp_shell')
    t.equal(mf.cut_v(got, c['core'], axes=(-2, -1)), mat, 'cut_v undoes append_v_vp_shell')


@law('C01', case(outer=st.lists(st.integers(1, 3), min_size=1, max_size=3), n=st.integers(1, 6), ax=st.integers(0, 3), seed=seeds,
                 neg=st.booleans()), 300, 5000, 'non-trivial: more than one frequency, not on the only axis')
def positive_half_determines_full_range(c, t):
    """G(-v)=conj G(v): rebuilding from v>=0 restores the object on every frequency."""
    nd = len(c['outer']) + 1
    ax = c['ax'] % nd
    axis = ax - nd if c['neg'] else ax
    shape = list(c['outer'])
    shape.insert(ax, c['n'])
    half = data(c['seed'], shape, 'complex')
    t.nontrivial(c['n'] > 1 and nd > 1)
    got = mf.fermionic_full_nu_range(half, axis=axis)
    t.check(got.shape[ax] == 2 * c['n'], 'fermionic_full_nu_range length')
    for i, lab in enumerate(fgrid(c['n'])):
        want = np.take(half, lab, axis=ax) if lab >= 0 else np.conj(np.take(half, -lab - 1, axis=ax))
        t.equal(np.take(got, i, axis=ax), want, f'fermionic_full_nu_range at n={lab}')
    got = mf.bosonic_full_nu_range(half, axis=axis)
    t.check(got.shape[ax] == 2 * c['n'] - 1, 'bosonic_full_nu_range length')
    for i, lab in enumerate(bgrid(c['n'] - 1)):
        want = np.take(half, lab, axis=ax) if lab >= 0 else np.conj(np.take(half, -lab, axis=ax))
        t.equal(np.take(got, i, axis=ax), want, f'bosonic_full_nu_range at n={lab}')


@law('C01', case(pre=st.integers(1, 3), nw=st.integers(1, 5), nv=st.integers(1, 4), twov=st.booleans(), lead=st.booleans(),
                 seed=seeds), 200, 4000, 'non-trivial: more than one bosonic frequency')
def positive_half_two_frequencies(c, t):
    """X(-w,-v[,-v'])=conj X(w,v[,v']) : bosonic_full_nu_range with freq_axes flips all frequency arguments."""
    full = data(c['seed'], ((c['pre'],) if c['lead'] else ()) + (2 * c['nw'] - 1,) + (2 * c['nv'],) * (2 if c['twov'] else 1))
    wax = 1 if c['lead'] else 0
    fax = tuple(range(wax, full.ndim))
    full = full + np.conj(np.flip(full, fax))
    half = np.take(full, np.arange(c['nw'] - 1, 2 * c['nw'] - 1), axis=wax)
    t.nontrivial(c['nw'] > 1)
    t.equal(mf.bosonic_full_nu_range(half, axis=wax, freq_axes=fax), full, 'bosonic_full_nu_range with freq_axes')


@law('C01', case(n1=st.integers(0, 5), n2=st.integers(0, 5), outer=st.lists(st.integers(1, 6), min_size=0, max_size=2),
                 ax=st.integers(0, 2), seed=seeds), 300, 4000, 'non-trivial: different ranges')
def add_bosonic_aligns_frequencies(c, t):
    nd = len(c['outer']) + 1
    ax = c['ax'] % nd
    s1, s2 = list(c['outer']), list(c['outer'])
    s1.insert(ax, 2 * c['n1'] + 1)
    s2.insert(ax, 2 * c['n2'] + 1)
    m1, m2 = data(c['seed'], s1, 'complex', 1), data(c['seed'], s2, 'complex', 2)
    m1c, m2c = m1.copy(), m2.copy()
    t.nontrivial(c['n1'] != c['n2'])
    t.label('axis>0', ax > 0)
    got = mf.add_bosonic(m1, m2, axis=ax) if ax else mf.add_bosonic(m1, m2)
    n = max(c['n1'], c['n2'])
    t.check(got.shape[ax] == 2 * n + 1, f'add_bosonic range {got.shape} for {m1.shape}+{m2.shape} along {ax}')
    for i, lab in enumerate(bgrid(n)):
        want = 0
        if abs(lab) <= c['n1']: want = want + np.take(m1, c['n1'] + lab, axis=ax)
        if abs(lab) <= c['n2']: want = want + np.take(m2, c['n2'] + lab, axis=ax)
        t.close(np.take(got, i, axis=ax), want, f'add_bosonic at w={lab}', rtol=1e-13)
    t.equal(m1, m1c, 'add_bosonic modified its first argument')
    t.equal(m2, m2c, 'add_bosonic modified its second argument')


@law('C01', case(nw=st.integers(0, 6), outer=st.lists(st.integers(1, 4), min_size=0, max_size=2), ax=st.integers(0, 2), seed=seeds,
                 iw=st.integers(-6, 6), beta=beta_st, nsum=st.integers(-1, 6)), 250, 4000, 'non-trivial: nw >= 1')
def pick_and_sum_bosonic(c, t):
    nd = len(c['outer']) + 1
    ax = c['ax'] % nd
    s = list(c['outer'])
    s.insert(ax, 2 * c['nw'] + 1)
    mat = data(c['seed'], s)
    t.nontrivial(c['nw'] > 0)
    t.equal(mf.mat_at_w0(mat, axis=ax), np.take(mat, c['nw'], axis=ax), 'mat_at_w0')
    pos = np.take(mat, np.arange(c['nw'], 2 * c['nw'] + 1), axis=ax)
    t.equal(mf.mat_at_w0(pos, pos=True, axis=ax), np.take(mat, c['nw'], axis=ax), 'mat_at_w0 pos')
    iw = max(-c['nw'], min(c['nw'], c['iw']))
    t.equal(mf.get_mat_at_iwn(mat, iw, axis=ax), np.take(mat, c['nw'] + iw, axis=ax), 'get_mat_at_iwn')
    t.equal(mf.get_mat_at_iwn(pos, abs(iw), pos=True, axis=ax), np.take(mat, c['nw'] + abs(iw), axis=ax), 'get_mat_at_iwn pos')
    m0 = np.moveaxis(mat, ax, 0)
    ns = min(c['nsum'], c['nw'])
    lim = c['nw'] if ns == -1 else ns
    want = sum(m0[c['nw'] + k] for k in range(-lim, lim + 1)) / float(c['beta'])
    t.close(mf.wn_sum(m0, float(c['beta']), ns), want, 'wn_sum', rtol=1e-12, atol=1e-13)


@law('C01', case(nw=st.integers(0, 4), nsum=st.integers(1, 4), extra=st.integers(0, 3), lead=st.integers(1, 2), seed=seeds,
                 beta=beta_st, all=st.booleans()), 150, 3000, 'non-trivial: shifted windows (nw >= 2)')
def centred_sums(c, t):
    """vn_centered_sum sums v,v' in a window of 2*niv_sum frequencies centred at w//2."""
    niv = c['nsum'] + (c['nw'] + 1) // 2 + c['extra']
    w = list(range(-c['nw'], c['nw'] + 1))
    mat = data(c['seed'], (c['lead'], len(w), 2 * niv, 2 * niv))
    beta = float(c['beta'])
    t.nontrivial(c['nw'] >= 2 and not c['all'])
    lab = np.array(fgrid(niv))
    got = mf.vn_centered_sum(mat, w, beta) if c['all'] else mf.vn_centered_sum(mat, w, beta, niv_sum=c['nsum'])
    want = np.zeros((c['lead'], len(w)), complex)
    for i, iw in enumerate(w):
        sel = np.ones(2 * niv, bool) if c['all'] else (lab >= -c['nsum'] + iw // 2) & (lab < c['nsum'] + iw // 2)
        want[:, i] = mat[:, i][:, sel][:, :, sel].sum(axis=(-2, -1)) / beta ** 2
    t.close(got, want, 'vn_centered_sum', rtol=1e-12, atol=1e-13 * np.abs(mat).sum() / beta ** 2)
