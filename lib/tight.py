"""Uniform numbers close to the acceptance probability: the sharpest inputs for the decisions of the sampler.
Only chooses inputs; if the probability cannot be worked out, the number stays random."""
import numpy as np

from rec import REC


class Tight:
    def __init__(self, sc, opt, seed):
        self.sc, self.opt = sc, opt
        self.g = np.random.RandomState(seed)
        ps = sc['par']
        self.idx = [i for i, p in enumerate(ps) if p.get('sample', True)]
        f = lambda k, d: np.array([d if ps[i].get(k) is None else ps[i][k] for i in self.idx], dtype=float)
        self.lo, self.hi = f('min', -np.inf), f('max', np.inf)
        self.t0 = f('theta0', 1.)
        self.mu = f('mu', 0.)
        self.mu = np.where(np.isnan(self.mu), self.t0, self.mu)
        self.sig = f('sigma', np.inf)
        self.sig = np.where(self.sig <= 0, np.inf, self.sig)
        self.s2 = None
        self.R0 = None
        self.n = 0

    def prior(self, th):
        r = (th - self.mu) / self.sig
        k = self.sc.get('customprior')
        if k == 'l1':
            return float(np.sum(np.abs(r[np.isfinite(r)]))) + .25
        if k:
            return float(np.sum(r[np.isfinite(r)]**4))
        return float(np.sum(r**2))

    def lp(self, th, ss):
        v = -.5 * (np.sum(np.asarray(ss) / self.s2) + self.prior(th))
        return -np.inf if np.isnan(v) else v

    def factor(self, j, R):
        rdr = self.opt.get('rdr')
        if j == 0:
            return R
        if rdr is not None and np.array_equal(R, self.R0):
            return np.array(rdr[j], dtype=float)
        d = self.opt.get('drscale', [5., 4., 3.])
        for k in range(1, j + 1):
            R = R / d[min(k, len(d)) - 1]
        return R

    def alpha(self, P, iR):
        n = len(P) - 1
        if not P[n][2]:
            return 0.
        if P[n][1] == -np.inf:
            return 0.
        if n == 1:
            return min(1., float(np.exp(min(0., P[1][1] - P[0][1]))))
        r = P[::-1]
        q = lambda s, k: -.5 * float(np.sum(np.dot(s[k + 1][0] - s[0][0], iR[k])**2))
        a = b = 1.
        for k in range(n - 1):
            a *= 1 - self.alpha(P[:k + 2], iR)
            b *= 1 - self.alpha(r[:k + 2], iR)
        if b == 0 or a == 0:
            return 0.
        y = P[n][1] - P[0][1] + sum(q(r, k) - q(P, k) for k in range(n - 1))
        return min(1., float(np.exp(min(y, 600)) * b / a))

    def __call__(self):
        try:
            return self.pick()
        except Exception:
            return None

    def pick(self):
        if self.g.rand() < .15:
            return None
        npar = len(self.idx)
        if REC.steps:
            c = REC.steps[-1]['cs'][-1]
            x, ss, self.s2 = np.array(c['th']), c['ss'], np.array(c['s2'])
        else:
            e0 = [e for e in REC.e if e['at'] == 0][-1]
            x, ss = np.array(e0['q'])[self.idx], e0['ss']
            if self.s2 is None or not self.n:
                self.s2 = np.array(self.m.model_settings.sigma2, dtype=float) * np.ones(len(ss))
                self.n = 1
        R = np.atleast_2d(np.array(REC.R))
        if self.R0 is None:
            self.R0 = R
        z = [v[1] for v in REC.d if v[0] == 0]
        ev = [e for e in REC.e if e['at'] > 0]
        if not ev or ev[-1]['at'] != len(REC.d):        # not a decision about a candidate
            return None
        m = len(z) // npar
        P, k = [(x, self.lp(x, ss), True)], 0
        for j in range(m):
            th = x + np.dot(z[j * npar:(j + 1) * npar], self.factor(j, R))
            inside = bool(np.all(th >= self.lo) and np.all(th <= self.hi))
            if inside:
                P.append((th, self.lp(th, ev[k]['ss']), True))
                k += 1
            else:
                P.append((th, 0., False))
        if k != len(ev) or len(P) < 2:
            return None
        iR = [np.linalg.inv(self.factor(j, R)) for j in range(m)]
        a = self.alpha(P, iR)
        if not a < 1.:
            return .99999 if self.g.rand() < .5 else None
        if a < 1e-250:
            return 1e-9
        # reject earlier stages most of the time, to get to later ones
        up = self.g.rand() < (.75 if m < (self.opt.get('ntry') or 2) else .5)
        u = a * (1 + self.g.choice([.004, .04, .4]) * (1 if up else -1))
        return float(u) if 0 < u < 1 else None
