"""reference model of a whole run: synthetic impurity data built from a chosen irreducible vertex, dense textbook equations at every q"""
import itertools
import numpy as np
from scipy.optimize import brentq
from vpbt.core import rng, cplx
from vpbt.laws import fourp as f4


def vn(beta, lo, hi):
    return (2 * np.arange(lo, hi) + 1) * np.pi / beta


def dispersion(nk, t, tp, tpp):
    k = [2 * np.pi * np.arange(n) / n for n in nk]
    kx, ky, _ = np.meshgrid(*k, indexing='ij')
    return -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky) - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky))


def hoppings(seed, sym, parity):
    """random hermitian hoppings {R: t} with an on-site energy, invariant under the lattice symmetries `sym`; real and even if parity"""
    r = rng(seed, 21)
    maps = {'none': [], 'quasi_one_dimensional_square': [lambda x: (-x[0], x[1], x[2]), lambda x: (x[0], -x[1], x[2])],
            'simultaneous_x_y_inversion': [lambda x: (-x[0], -x[1], x[2])],
            'two_dimensional_square': [lambda x: (-x[0], x[1], x[2]), lambda x: (x[0], -x[1], x[2]), lambda x: (x[1], x[0], x[2])]}[sym]
    out = {(0, 0, 0): round(float(r.uniform(-1, 1)), 6)}
    for x in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (2, 0, 0), (2, 1, 0), (1, 0, 1), (0, 1, -1)]:
        if r.uniform() < 0.4 and x[:2] != (1, 0):
            continue
        orbit, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y not in orbit:
                orbit.add(y)
                todo += [m(y) for m in maps]
        t = round(float(r.uniform(-0.5, 0.5)), 6)
        if parity or any(tuple(-a for a in y) in orbit for y in orbit):
            im = 0.0
        else:
            im = round(float(r.uniform(-0.5, 0.5)), 6)
        for y in orbit:
            out[y] = t + 1j * im
            out[tuple(-a for a in y)] = t - 1j * im
    return out


def write_hoppings(fname, hop, seed):
    """Wannier90 file of one band; degeneracies are included"""
    r = rng(seed, 22)
    rs = sorted(hop)
    w = r.integers(1, 4, len(rs))
    with open(fname, 'w', encoding='utf-8') as f:
        f.write(f' written for a test\n {1}\n {len(rs)}\n')
        for i in range(0, len(w), 15):
            f.write(' '.join(f'{x:5d}' for x in w[i:i + 15]) + '\n')
        for x, d in zip(rs, w):
            z = complex(hop[x]) * int(d)
            f.write('%5d%5d%5d%5d%5d%12.6f%12.6f\n' % (*x, 1, 1, z.real, z.imag))


class Run:
    """c: nk, nq, hr, beta, u, n, mu, niw, niv, nsh, strength, seed, lam, extra (frequencies beyond the core)"""
    NS = 20  # frequencies of the impurity self-energy (all of them are kept by SelfEnergy)

    def __init__(self, c):
        self.c = c
        self.nk = tuple(c['nk'])
        self.nq = tuple(c.get('nq') or c['nk'])
        self.beta, self.u, self.n = float(c['beta']), float(c['u']), float(c['n'])
        self.niw, self.niv, self.nsh = c['niw'], c['niv'], c['nsh']
        self.nf = self.niv + self.nsh
        assert self.nf + self.niw <= self.NS
        r = rng(c['seed'], 11)
        beta = self.beta
        # impurity self-energy: poles on the real axis plus Hartree term
        e, w = r.uniform(-3, 3, 3), r.dirichlet([1, 1, 1]) * self.u ** 2 * self.n / 2 * (1 - self.n / 2)
        v = vn(beta, -self.NS, self.NS)
        self.hartree = self.u * self.n / 2
        self.siw = self.hartree + np.sum(w / (1j * v[:, None] - e), axis=-1)
        self.hop = hoppings(c['seed'], c['band'][0], c['band'][1]) if c.get('band') else None
        self.ek = self.fourier(lambda x: 1).real if self.hop else dispersion(self.nk, *c['hr'])
        self.mu = float(c['mu'])
        self.gk = 1 / (1j * v + self.mu - self.ek[..., None] - self.siw)
        self.giw = self.gk.mean(axis=(0, 1, 2))
        self.wn = np.arange(-self.niw, self.niw + 1)
        self.scale = tuple(a // b for a, b in zip(self.nk, self.nq))
        self.ql = list(itertools.product(*map(range, self.nq)))
        self.x0 = np.array([self.bubble(q) for q in self.ql])
        self.x0l = np.array([-beta * self.gv(self.giw, 0) * self.gv(self.giw, w) for w in self.wn])
        self.core = slice(self.nsh, self.nsh + 2 * self.niv)
        self.gam, self.pad, self.ur = {}, {}, {}
        for i, ch in enumerate(('dens', 'magn')):
            self.ur[ch] = f4.sign(ch) * self.u
            g = f4.gamma(c['seed'], self.x0l[:, self.core], beta, self.u, ch, c['strength'], salt=i, sym=True)
            self.gam[ch] = (g + np.conj(g[::-1, ::-1, ::-1])) / 2  # real in imaginary time
            self.pad[ch] = f4.pad(self.gam[ch], self.ur[ch] / beta ** 2, self.nsh)
        self.chi_full = {ch: f4.dense_chi(self.x0l, self.pad[ch]) for ch in self.gam}

    def fourier(self, fac):
        k = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in self.nk], indexing='ij')
        return sum(t * fac(x) * np.exp(1j * (x[0] * k[0] + x[1] * k[1] + x[2] * k[2])) for x, t in self.hop.items())

    def gv(self, g, w):
        """g(v - w) on the full range"""
        return g[..., self.NS - self.nf - w:self.NS + self.nf - w]

    def shifted(self, q):
        return np.roll(self.gk, [-a * s for a, s in zip(q, self.scale)], axis=(0, 1, 2))

    def bubble(self, q):
        gq = self.shifted(q)
        return np.array([-self.beta * (self.gv(self.gk, 0) * self.gv(gq, w)).mean(axis=(0, 1, 2)) for w in self.wn])

    def g2(self, ch, extra=0):
        """two-particle Green's function in the core (an outer rim of `extra` frequencies carries noise that a run has to cut away)"""
        g = self.chi_full[ch][:, self.core, self.core] / self.beta
        if ch == 'dens':
            gl = self.giw[self.NS - self.niv:self.NS + self.niv]
            g = np.array(g)
            g[self.niw] += 2 * np.multiply.outer(gl, gl)
        if extra:
            r = rng(self.c['seed'], 12)
            big = cplx(r, (2 * self.niw + 1 + 2 * extra, 2 * (self.niv + extra), 2 * (self.niv + extra)))
            big[extra:-extra, extra:-extra, extra:-extra] = g
            g = big
        return g

    def dmft_dict(self, extra=0):
        return {'giw': self.giw, 'siw': self.siw, 'n': self.n, 'beta': self.beta, 'u': self.u, 'mu_dmft': self.mu,
                'g4iw_dens': self.g2('dens', extra), 'g4iw_magn': self.g2('magn', extra)}

    def legs(self, x0, ch):
        """susceptibility and three-leg vertex of one q from the dense equation with core and shell"""
        chi = f4.dense_chi(x0, self.pad[ch])
        x = chi.sum((-1, -2)) / self.beta ** 2
        return x, (chi.sum(-1) / x0 / (1 - self.ur[ch] * x)[:, None])[:, self.core], chi

    def kernel(self, x, vrg, ch):
        ur = self.ur[ch]
        return ur / 2 * (1 - (1 - ur * x)[..., None] * vrg)

    def solve(self, lam='spch'):
        beta = self.beta
        self.loc, self.lad, self.vrg = {}, {}, {}
        k, den = 1.0, 1e9
        for ch in self.gam:
            xl, vl, chi = self.legs(self.x0l, ch)
            self.loc[ch] = xl, vl
            k = max(k, f4.cond(chi), f4.cond([np.diag(a) for a in self.x0l]))
            den = min(den, np.min(np.abs(1 - self.ur[ch] * xl)))
            res = [self.legs(x, ch) for x in self.x0]
            self.lad[ch] = np.array([a[0] for a in res])
            self.vrg[ch] = np.array([a[1] for a in res])
            k = max([k] + [f4.cond(a[2]) for a in res] + [f4.cond([np.diag(b) for b in x]) for x in self.x0])
            aux = [np.linalg.cond(np.diag(1 / b[self.core]) + g - self.ur[ch] / beta ** 2) for x in self.x0 for b, g in zip(x, self.gam[ch])]
            k = max([k] + aux)
            den = min(den, np.min(np.abs(1 - self.ur[ch] * self.lad[ch])))
        self.k, self.den = k, den
        self.good = k < 1e3 and den > 5e-2
        self.lambdas = {'dens': 0.0, 'magn': 0.0}
        target = {ch: np.sum(self.loc[ch][0]).real / beta for ch in self.loc}
        if lam == 'sp':
            target['magn'] = target['magn'] + target['dens'] - np.sum(self.lad['dens']).real / beta / len(self.ql)
        self.lam = dict(self.lad)
        for ch in {'spch': ('dens', 'magn'), 'sp': ('magn',), 'none': ()}[lam]:
            x = self.lad[ch]
            w0 = x[:, self.niw].real
            if not np.all(w0 > 1e-3):
                self.good = False
                continue
            start = -np.min(1 / w0)

            def f(lb, x=x, ch=ch):
                return np.sum(1 / (1 / x + lb)).real / beta / len(self.ql) - target[ch]
            lo, hi = start + 1e-6, start + 1e-3
            while f(hi) > 0 and hi < start + 1e4:  # the first root to the right of the pole
                hi += 0.05 * (hi - start)
            if not f(lo) > 0 > f(hi):
                self.good = False
                continue
            self.lambdas[ch] = brentq(f, lo, hi, xtol=1e-14)
            grid = start + np.linspace(0.01 * (self.lambdas[ch] - start), max(1.05 * (self.lambdas[ch] - start), 0.11), 60)
            y = np.array([f(a) for a in grid])
            if self.lambdas[ch] - start < 0.02 or not (np.all(np.diff(y) < 0) and np.all(np.diff(y, 2) > 0)):
                self.good = False  # not a simple convex problem: the root is not unique
            h = 1e-4
            if abs(f(self.lambdas[ch] + h) - f(self.lambdas[ch] - h)) / (2 * h) < 1e-2:
                self.good = False  # almost flat (unphysical data): the root is not determined by the constraint
            self.lam[ch] = 1 / (1 / x + self.lambdas[ch])
        # equation of motion
        f = f4.dense_f(self.x0l, self.pad['magn'])
        dc = np.einsum('wvp,qwp->qwv', self.ur['magn'] * f, self.x0)[..., self.core]
        kern = self.kernel(self.lam['dens'], self.vrg['dens'], 'dens') + 3 * self.kernel(self.lam['magn'], self.vrg['magn'], 'magn') - dc
        self.nonloc = np.zeros(self.nk + (2 * self.niv,), complex)
        for q, kq in zip(self.ql, kern):
            gq = self.shifted(q)
            for w, kw in zip(self.wn, kq):
                self.nonloc += kw * gq[..., self.NS - self.niv - w:self.NS + self.niv - w]
        self.nonloc /= beta * len(self.ql)
        self.sde_core = np.zeros(2 * self.niv, complex)
        self.sde_shell = np.zeros(2 * self.nf, complex)
        for j, w in enumerate(self.wn):
            gl = self.gv(self.giw, w)
            self.sde_core += gl[self.core] * sum(self.kernel(self.loc[ch][0], self.loc[ch][1], ch)[j] for ch in self.loc)
            self.sde_shell += gl * self.u ** 2 / 2 * sum(self.loc[ch][0][j] for ch in self.loc)
        self.sde = self.sde_shell / beta
        self.sde[self.core] = self.sde_core / beta
        self.sde = self.sde + self.hartree
        core = self.siw[self.NS - self.niv:self.NS + self.niv]
        sig = self.nonloc + core - self.sde[self.core] + self.hartree
        self.sigma = np.ones(self.nk + (1,)) * self.siw[self.NS - self.nf:self.NS + self.nf]
        self.sigma[..., self.core] = sig
        pos = self.sigma[..., self.nf:]  # only positive frequencies are kept
        self.sigma = np.concatenate((np.conj(pos[..., ::-1]), pos), axis=-1)
        return self

    def ladder_f(self, ch):
        """ladder vertex F(q, w, v, v') with the lambda-corrected susceptibility"""
        ur, beta = self.ur[ch], self.beta
        nv = 2 * self.niv
        out = np.zeros((len(self.ql), len(self.wn), nv, nv), complex)
        for i in range(len(self.ql)):
            for j in range(len(self.wn)):
                x0 = self.x0[i, j, self.core]
                aux = np.linalg.inv(np.diag(1 / x0) + self.gam[ch][j] - ur / beta ** 2)
                f = beta ** 2 * (np.diag(1 / x0) - aux / np.multiply.outer(x0, x0))
                v = self.vrg[ch][i, j]
                out[i, j] = f + ur * (1 - ur * self.lam[ch][i, j]) * np.multiply.outer(v, v)
        return out

    def pairing(self):
        """singlet and triplet vertex F(k-k', v-v', v, -v') from the ladder in the particle-hole channels"""
        n = min(self.niw // 2, self.niv // 2)
        fd, fm = self.ladder_f('dens'), self.ladder_f('magn')
        out = []
        for f in (1.5 * fm - 0.5 * fd, 0.5 * fm + 0.5 * fd):
            g = np.zeros((len(self.ql), 2 * n, 2 * n), complex)
            for i in range(-n, n):
                for j in range(-n, n):
                    g[:, i + n, j + n] = -f[:, i - j + self.niw, i + self.niv, -j - 1 + self.niv]
            out.append((g + np.conj(g.transpose(0, 2, 1))) / 2)
        return out

    def optics_vertex(self, niw_cond, niw_vert):
        """F(q, w', v, v - w) for w >= 0"""
        f = -self.ladder_f('dens') / 2 - 1.5 * self.ladder_f('magn')
        nv = self.niv - niw_cond
        out = np.zeros((len(self.ql), 2 * niw_vert + 1, niw_cond + 1, 2 * nv), complex)
        for wp in range(-niw_vert, niw_vert + 1):
            for w in range(niw_cond + 1):
                for v in range(-nv, nv):
                    out[:, wp + niw_vert, w, v + nv] = f[:, wp + self.niw, v + self.niv, v - w + self.niv]
        return out

    def velocity(self, der):
        if self.hop:
            return self.fourier(lambda x: 1j * x[der]).real
        k = [2 * np.pi * np.arange(n) / n for n in self.nk]
        kx, ky, _ = np.meshgrid(*k, indexing='ij')
        t, tp, tpp = self.c['hr']
        a, b = (kx, ky) if der == 0 else (ky, kx)
        return 2 * t * np.sin(a) + 4 * tp * np.sin(a) * np.cos(b) + 4 * tpp * np.sin(2 * a)

    def green(self, mu, niv, smom):
        """DGA Green's function with the asymptotic self-energy smom0 - smom1/iv beyond the calculated range"""
        v = vn(self.beta, -niv, niv)
        s = np.ones(self.nk + (1,)) * (smom[0] - smom[1] / (1j * v))
        m = min(niv, self.nf)
        s[..., niv - m:niv + m] = self.sigma[..., self.nf - m:self.nf + m]
        return 1 / (1j * v + mu - self.ek[..., None] - s), s

    def chijj_bubble(self, g, ws, niv, da, db):
        h = g.shape[-1] // 2
        vv = (self.velocity(da) * self.velocity(db))[..., None]
        return np.array([-2 / self.beta * np.mean(np.sum(vv * g[..., h - niv:h + niv] * g[..., h - niv - w:h + niv - w], axis=-1)) for w in ws])

    def chijj_vert(self, g, fc, da, db):
        """both k-sums explicitly: v_a(k) v_b(k+q) G(v, k) G(v-w, k) F(q, w', v, v-w) G(v-w', k+q) G(v-w'-w, k+q)"""
        h = g.shape[-1] // 2
        nw, nc, nv = fc.shape[1] // 2, fc.shape[2] - 1, fc.shape[3] // 2
        va, vb = self.velocity(da), self.velocity(db)

        def gv(m, s):
            return m[..., h - nv - s:h + nv - s]
        out = np.zeros(nc + 1, complex)
        for q, f in zip(self.ql, fc):
            sh = [-a * s for a, s in zip(q, self.scale)]
            gq, vq = np.roll(g, sh, axis=(0, 1, 2)), np.roll(vb, sh, axis=(0, 1, 2))
            for w in range(nc + 1):
                for j, wp in enumerate(range(-nw, nw + 1)):
                    out[w] += np.sum(np.mean((va * vq)[..., None] * gv(g, 0) * gv(g, w) * gv(gq, wp) * gv(gq, wp + w), axis=(0, 1, 2)) * f[j, w])
        return -2 / (self.beta ** 2 * len(self.ql)) * out

    def mesh(self, x):
        return np.asarray(x).reshape(self.nq + x.shape[1:])
