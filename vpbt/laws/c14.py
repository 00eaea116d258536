"""C14  lambda correction: the sum rule holds, the physical branch is chosen, the form is 1/(1/chi + lambda)"""
import numpy as np
from scipy.optimize import brentq
from vpbt.core import law, case, st, seeds, floats, rng
from dga import lambda_correction as lc

nk_st = st.tuples(st.integers(1, 5), st.integers(1, 5), st.sampled_from([1, 1, 2, 3])).map(list)
common = dict(nk=nk_st, niw=st.integers(0, 5), beta=floats(1, 50), seed=seeds, lo=floats(-1, 2), width=floats(0.01, 4),
              lam=st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.3, 1.0, 3.0, 20.0, 100.0]), cdt=st.booleans())


def ladder(c, salt=0):
    """1/chi(q,w) = a_q + c w^2 with min a_q = lo: negative lo = beyond the instability"""
    r = rng(c['seed'], salt)
    nk = tuple(c['nk'])
    a = r.uniform(0, 1, nk)
    a = a - a.min()
    a = (c['lo'] + salt * 0.1) + c['width'] * a
    w = np.arange(-c['niw'], c['niw'] + 1) * 2 * np.pi / c['beta']
    inv = a[..., None] + (r.uniform(0.1, 2) * w ** 2 + r.uniform(0, 1) * np.abs(w))
    bad = np.abs(inv) < 1e-3
    inv = np.where(bad, 1e-3, inv)
    return (1 / inv).astype(complex if c['cdt'] else float), inv


def rule(inv, lam, beta):
    """sum over w, mean over q"""
    s = 0.0
    for x in inv.reshape(-1, inv.shape[-1]):
        s += np.sum(1 / (x + lam))
    return s / (inv.size // inv.shape[-1]) / beta


def pole(inv):
    return -inv[..., inv.shape[-1] // 2].min()


def loc_from(target_total, nw, seed):
    """a local susceptibility with a given sum"""
    x = rng(seed, 77).uniform(0.2, 1, nw)
    x = 0.5 * (x + x[::-1])
    return x / x.sum() * target_total


@law('C14', case(**common), 300, 6000, 'non-trivial: q-dependent chi, more than one frequency')
def sum_rule_on_the_physical_branch(c, t):
    chi, inv = ladder(c)
    beta = float(c['beta'])
    want = pole(inv) + c['lam']
    target = rule(inv, want, beta)
    t.nontrivial(chi.size > 3 * chi.shape[-1] and c['niw'] > 0)
    t.label('beyond the instability', c['lo'] < 0)
    start = lc.get_lambda_start(chi)
    t.close(start, pole(inv), 'start of the search is the last pole', rtol=1e-9, atol=1e-12)
    lam = lc.lambda_correction_single(beta, lambda_start=start, chir=chi, chi_loc_sum=target)
    got = rule(inv, lam, beta)
    t.close(got, target, f'sum rule (lambda={lam}, expected {want})', rtol=1e-6, atol=2e-7)
    t.check(lam > start, f'lambda {lam} left of the pole {start}')
    t.check(np.isreal(lam), 'lambda not real')
    x = lc.use_lambda(chi, lam)
    t.close(x, 1 / (inv + lam), 'chi_lambda = 1/(1/chi + lambda)', rtol=1e-9)
    t.check(np.all(x[..., c['niw']].real > 0), 'negative static susceptibility after the correction')


@law('C14', case(**dict(common, lam2=st.sampled_from([1e-3, 0.02, 0.2, 2.0, 10.0]))), 200, 4000,
     'non-trivial: different channels, q-dependent')
def both_channels(c, t):
    cd, di = ladder(c)
    cm, mi = ladder(c, salt=1)
    beta, nw = float(c['beta']), 2 * c['niw'] + 1
    t.nontrivial(cd.size > 3 * nw and c['niw'] > 0)
    ld, lm = pole(di) + c['lam'], pole(mi) + c['lam2']
    sd, sm = rule(di, ld, beta), rule(mi, lm, beta)
    locd, locm = loc_from(sd * beta, nw, c['seed']), loc_from(sm * beta, nw, c['seed'] + 1)
    kd, km = cd.copy(), cm.copy()
    xd, xm, gd, gm = lc.lambda_correction(cd, cm, beta, locd, locm, lambda_corr='spch')
    t.equal(cd, kd, 'input changed')
    t.equal(cm, km, 'input changed')
    for x, inv, s, lam in ((xd, di, sd, gd), (xm, mi, sm, gm)):
        t.close(x, 1 / (inv + lam), 'chi = 1/(1/chi_ladder + lambda)', rtol=1e-9)
        t.close(np.sum(np.mean(x, axis=(0, 1, 2))) / beta, s, 'sum rule', rtol=1e-6, atol=2e-7)
        t.check(np.all(x[..., c['niw']].real > 0), 'negative static susceptibility after the correction')
    # spin only: the density ladder is kept and the total sum rule is fulfilled by the magnetic one
    tot = np.sum(np.mean(cd.real, axis=(0, 1, 2))) / beta
    locd2 = loc_from(tot * beta + 0.3 * sd * beta, nw, c['seed'])
    locm2 = loc_from((sm - 0.3 * sd) * beta, nw, c['seed'] + 1)
    xd, xm, gd, gm = lc.lambda_correction(cd, cm, beta, locd2, locm2, lambda_corr='sp')
    t.equal(xd, kd, 'density channel must be kept')
    t.check(gd == 0, 'lambda of the density channel')
    t.close(xm, 1 / (mi + gm), 'chi = 1/(1/chi_ladder + lambda)', rtol=1e-9)
    t.close(np.sum(np.mean(xm, axis=(0, 1, 2))) / beta, sm, 'total sum rule', rtol=1e-6, atol=4e-7 + 1e-9 * abs(tot))
    t.close(gm, lm, 'lambda', rtol=1e-3, atol=3e-7 / abs(rule_slope(mi, lm, beta)))
    xd, xm, gd, gm = lc.lambda_correction(cd, cm, beta, locd, locm, lambda_corr='none')
    t.equal(xd, kd, 'no correction')
    t.equal(xm, km, 'no correction')
    t.check(gd == 0 and gm == 0, 'lambda without correction')
    t.raises(NotImplementedError, lambda: lc.lambda_correction(cd, cm, beta, locd, locm, lambda_corr='sx'), 'unknown correction')


def rule_slope(inv, lam, beta):
    return -np.mean(np.sum(1 / (inv + lam) ** 2, axis=-1)) / beta


@law('C14', case(**common), 100, 1500, 'non-trivial: q-dependent')
def no_correction_is_needed_when_the_rule_holds(c, t):
    """a ladder that fulfils the sum rule already is left alone (lambda = 0)"""
    c = dict(c, lo=abs(c['lo']) + 0.05)
    chi, inv = ladder(c)
    beta = float(c['beta'])
    t.nontrivial(chi.size > 3 * chi.shape[-1])
    loc = loc_from(rule(inv, 0.0, beta) * beta, chi.shape[-1], c['seed'])
    xd, xm, gd, gm = lc.lambda_correction(chi, chi, beta, loc, loc, lambda_corr='spch')
    tol = 3e-7 / abs(rule_slope(inv, 0.0, beta))
    t.close([gd, gm], [0, 0], 'lambda', rtol=0, atol=tol + 1e-9)


@law('C14', case(**dict(common, lam2=floats(-3, 3))), 150, 3000, 'non-trivial: complex chi at finite frequencies, more than one momentum')
def complex_susceptibilities(c, t):
    """chi(q, -w) = chi(q, w)*: the shift acts on the inverse of every element, shifts add up, and the rule holds for the (real) sum"""
    chi, inv = ladder(dict(c, cdt=True))
    beta, niw = float(c['beta']), c['niw']
    gap = inv - inv[..., [niw]]
    y = rng(c['seed'], 5).uniform(-0.5, 0.5, inv.shape[:-1] + (niw,)) * gap[..., niw + 1:]
    inv = inv + 1j * np.concatenate([-y[..., ::-1], np.zeros(inv.shape[:-1] + (1,)), y], axis=-1)
    chi = 1 / inv
    t.nontrivial(niw > 0 and chi.size > 3 * chi.shape[-1])
    keep = chi.copy()
    for lam in (0.0, 0, float(c['lam']), float(c['lam2'])):
        ok = np.abs(inv + lam) > 1e-6
        t.close(np.where(ok, lc.use_lambda(chi, lam), 0), np.where(ok, 1 / np.where(ok, inv + lam, 1), 0), f'1/(1/chi + {lam})', rtol=1e-7)
    t.close(lc.use_lambda(lc.use_lambda(chi, 1.5 + c['lam']), -1.5 - c['lam']), chi, 'a shift and its inverse', rtol=1e-6)
    t.equal(chi, keep, 'input changed')
    t.close(lc.get_lambda_start(chi), pole(inv.real), 'start of the search', rtol=1e-9, atol=1e-12)
    want = pole(inv.real) + c['lam']
    target = rule(inv, want, beta).real
    lam = lc.lambda_correction_single(beta, lambda_start=lc.get_lambda_start(chi), chir=chi, chi_loc_sum=target)
    t.close(np.real(rule(inv, lam, beta)), target, f'sum rule (lambda={lam}, expected {want})', rtol=1e-6, atol=2e-7)
    t.check(np.isreal(lam) and lam > pole(inv.real), f'lambda {lam} is not on the physical branch')
