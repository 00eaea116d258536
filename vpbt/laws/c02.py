"""C02  Frequency shifts and channel transformations are pure re-labellings"""
import numpy as np
from vpbt.core import law, case, st, seeds, data
from dga import matsubara_frequencies as mf


@law('C02', case(iw=st.integers(-40, 40), note=st.sampled_from(['plus', 'minus', 'center'])), 200, 400,
     'non-trivial: iw != 0')
def frequency_notation(c, t):
    iw = c['iw']
    a, b = mf.get_freq_shift(iw, c['note'])
    t.nontrivial(iw != 0)
    if c['note'] == 'plus':
        t.check((a, b) == (0, iw), f'plus notation {a, b}')
    elif c['note'] == 'minus':
        t.check((a, b) == (0, -iw), f'minus notation {a, b}')
    else:
        # G(v + w//2) G(v - ceil(w/2)): the two arguments differ by w and the split is as even as possible
        t.check(a - b == iw and 0 <= abs(a) - abs(b) + 1 <= 2 and a == iw // 2, f'center notation {a, b} for {iw}')
    t.raises(NotImplementedError, lambda: mf.get_freq_shift(iw, 'ph'), 'unknown notation accepted')


@st.composite
def slice_case(draw):
    ncut = draw(st.integers(1, 5))
    core = draw(st.integers(0, 4))
    wmax = draw(st.integers(0, 5))
    ws = draw(st.lists(st.integers(-wmax, wmax), min_size=1, max_size=5, unique=True))
    return dict(ncut=ncut, core=core, ws=ws, extra=draw(st.integers(0, 3)),
                outer=draw(st.lists(st.integers(1, 3), min_size=0, max_size=3)), seed=draw(seeds))


@law('C02', slice_case(), 400, 8000, 'non-trivial: at least one w != 0')
def slices_at_shifted_frequencies(c, t):
    """wn_slices_gen(mat,n,w)[iw,...,v] = mat(v-w);  wn_slices_shell: same on core<=|v|<core+shell."""
    wmax = max(abs(w) for w in c['ws'])
    n = c['ncut'] + c['core'] + wmax + c['extra']
    mat = data(c['seed'], tuple(c['outer']) + (2 * n,))
    t.nontrivial(any(w != 0 for w in c['ws']))
    G = lambda v: mat[..., n + v]  # noqa
    got = mf.wn_slices_gen(mat, n_cut=c['ncut'], w=c['ws'])
    want = np.array([np.stack([G(v - w) for v in range(-c['ncut'], c['ncut'])], axis=-1) for w in c['ws']])
    t.equal(got, want, 'wn_slices_gen')
    vs = list(range(-c['core'] - c['ncut'], -c['core'])) + list(range(c['core'], c['core'] + c['ncut']))
    want = np.array([np.stack([G(v - w) for v in vs], axis=-1) for w in c['ws']])
    t.equal(mf.wn_slices_shell(mat, c['ncut'], c['core'], w=c['ws']), want, 'wn_slices_shell')
    for w in c['ws']:
        want = np.stack([G(v - w) for v in range(-c['ncut'], c['ncut'])], axis=-1)
        t.equal(mf.cut_iv_with_iw_shift(mat, c['ncut'], w), want, 'cut_iv_with_iw_shift')
        m1 = mat[(0,) * (mat.ndim - 1)]
        t.equal(mf.cut_iv_with_iw_shift_1d(m1, c['ncut'], w), want[(0,) * (mat.ndim - 1)], 'cut_iv_with_iw_shift_1d')
        if mat.ndim > 1:
            m0 = np.moveaxis(mat, -1, 0)
            t.equal(mf.cut_iv_with_iw_shift(m0, c['ncut'], w, axes=(0,)), np.moveaxis(want, -1, 0), 'cut_iv_with_iw_shift axis 0')
    w = c['ws'][0]
    full = mf.cut_iv_with_iw_shift_1d(mat[(0,) * (mat.ndim - 1)], -1, w)
    nn = n - abs(w)
    t.equal(full, mat[(0,) * (mat.ndim - 1)][[n + v - w for v in range(-nn, nn)]], 'cut_iv_with_iw_shift_1d(-1)')


@law('C02', case(niw=st.integers(2, 12), outer=st.lists(st.integers(1, 3), min_size=0, max_size=2), seed=seeds), 150, 2000,
     'non-trivial: niw >= 4 (more than one fermionic frequency)')
def w_to_vmvp_places_v_minus_vp(c, t):
    niw = c['niw']
    mat = data(c['seed'], (2 * niw + 1,) + tuple(c['outer']))
    got = mf.w_to_vmvp(mat)
    niv = niw // 2
    t.nontrivial(niw >= 4)
    t.check(got.shape == (2 * niv, 2 * niv) + tuple(c['outer']), f'shape {got.shape}')
    for v in range(-niv, niv):
        for vp in range(-niv, niv):
            t.equal(got[niv + v, niv + vp], mat[niw + v - vp], f"w_to_vmvp at v={v} v'={vp}")


@law('C02', case(niw=st.integers(3, 12), niv=st.integers(3, 9), seed=seeds, lead=st.lists(st.integers(1, 2), min_size=0, max_size=1),
                 iwpp=st.integers(-2, 2)), 120, 1500, 'non-trivial: at least 2x2 particle-particle frequencies')
def particle_particle_transform(c, t):
    """X_pp[w_pp, v, v'] = X_ph[v+v'-w_pp, v, v'] on the box where all arguments exist."""
    niw, niv = c['niw'], c['niv']
    mat = data(c['seed'], tuple(c['lead']) + (2 * niw + 1, 2 * niv, 2 * niv))
    npp = min(niw // 3, niv // 3)
    nwpp = niw // 3
    t.nontrivial(npp >= 1)

    def ref(iwpp):
        out = np.zeros(tuple(c['lead']) + (2 * npp, 2 * npp), complex)
        for v in range(-npp, npp):
            for vp in range(-npp, npp):
                # fermionic nu+nu' = (2(v+v'+1)) pi/beta -> bosonic index v+v'+1
                out[..., npp + v, npp + vp] = mat[..., niw + v + vp + 1 - iwpp, niv + v, niv + vp]
        return out

    iw = max(-nwpp, min(nwpp, c['iwpp']))
    t.equal(mf.ph2pp_iwn(mat, iw), ref(iw), 'ph2pp_iwn')
    nw_list = (2 * niw + 1) // 6
    t.equal(mf.ph2pp(mat), np.array([ref(i) for i in range(-nw_list, nw_list + 1)]), 'ph2pp')


@law('C02', case(niw=st.integers(2, 10), niv=st.integers(2, 8), seed=seeds, iwpp=st.integers(-2, 2)), 120, 1500,
     "non-trivial: more than one w_pp")
def crossed_particle_particle_transform(c, t):
    """X_pp[w_pp, v, v'] = -X_ph[v-v', v, w_pp-v'] ; the singlet/triplet-like combinations follow linearly."""
    niw, niv = c['niw'], c['niv']
    npp = min(niw // 2, niv // 2)
    d, m = data(c['seed'], (2 * niw + 1, 2 * niv, 2 * niv), 'complex', 1), data(c['seed'], (2 * niw + 1, 2 * niv, 2 * niv), 'complex', 2)

    def ref(mat, iwpp):
        out = np.zeros((2 * npp, 2 * npp), complex)
        for v in range(-npp, npp):
            for vp in range(-npp, npp):
                out[npp + v, npp + vp] = -mat[niw + v - vp, niv + v, niv + iwpp - vp - 1]
        return out

    nwl = (2 * niw + 1) // 4
    # every argument must exist on the fermionic axis: -niv <= iwpp - v' - 1 < niv
    ok = all(0 <= niv + i - vp - 1 < 2 * niv for i in range(-nwl, nwl + 1) for vp in range(-npp, npp))
    t.label('all-arguments-exist', ok)
    t.nontrivial(ok and nwl >= 1)
    iw = max(-(niv - npp), min(niv - npp, c['iwpp']))
    t.equal(mf.ph2pp_iwn_wc(d, iw), ref(d, iw), 'ph2pp_iwn_wc')
    if not ok:
        return
    D, M = np.array([ref(d, i) for i in range(-nwl, nwl + 1)]), np.array([ref(m, i) for i in range(-nwl, nwl + 1)])
    t.equal(mf.ph2pp_wc(d), D, 'ph2pp_wc')
    a, b = mf.ph2pp_wc_md(d, m)
    t.close(a, 0.5 * D + 1.5 * M, 'ph2pp_wc_md first', rtol=1e-13)
    t.close(b, 0.5 * D - 0.5 * M, 'ph2pp_wc_md second', rtol=1e-13)


@law('C02', case(w=st.integers(-30, 30), niw=st.integers(0, 30), seed=seeds), 60, 200, 'non-trivial: |w| <= niw')
def index_of_frequency(c, t):
    niw = c['niw']
    w = max(-niw, min(niw, c['w']))
    t.nontrivial(niw > 0)
    t.check(mf.wn(niw)[mf.wn_cen2lin(w, niw)] == w, 'wn_cen2lin does not index wn(niw)')
    t.check(mf.cen2lin(w, -niw) == w + niw, 'cen2lin')
