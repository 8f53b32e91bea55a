"""Recording of user-visible events of pymcmcstat runs (random draws, evaluations,
custom sampler calls, results), to be checked against the TLA+ specification."""
import json
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np

ORIG = {}


class Rec:
    def __init__(self):
        self.active = False
        self.nq = []      # scripted normal draws
        self.uq = []      # scripted uniform draws
        self.reset()

    def reset(self):
        self.d = []       # draws of the current step
        self.e = []       # evaluations of the current step
        self.p = []       # prior calls of the current step
        self.steps = []
        self.first = True
        self.getR = None
        self.R = None
        self.cs = []
        self.setup = []
        self.ufun = None

    def draw(self, kind, *vals):
        if not self.active:
            return
        if self.getR is not None and not self.d:
            self.R = self.getR()
        self.d.append([kind] + [float(v) for v in vals])


REC = Rec()


def _size(out):
    return np.asarray(out, dtype=float).ravel()


def _scripted(q, out):
    """replace the entries of out by scripted values while there are some"""
    if not REC.active or not q:
        return out
    a = np.array(out, dtype=float)
    flat = a.reshape(-1)
    for i in range(flat.size):
        if q:
            flat[i] = q.pop(0)
    return a if np.ndim(out) else float(a)


def install():
    if ORIG:
        return
    R = np.random
    for n in dir(R):
        f = getattr(R, n)
        if callable(f) and not n.startswith('_') and not isinstance(f, type):
            ORIG[n] = f

    def normal_like(name, norm):
        f = ORIG[name]

        def w(*a, **k):
            out = f(*a, **k)
            loc, scale = norm(a, k)
            if REC.active and REC.nq:
                out = _scripted(REC.nq, out) * scale + loc
            for v in _size(out):
                REC.draw(0, (v - loc) / scale if scale else 0.0)
            return out
        setattr(R, name, w)

    def uniform_like(name, norm):
        f = ORIG[name]

        def w(*a, **k):
            out = f(*a, **k)
            lo, hi = norm(a, k)
            lo_, hi_ = np.min(lo), np.max(hi)
            if REC.active and REC.uq and np.ndim(lo) == 0:
                out = _scripted(REC.uq, out) * (hi - lo) + lo
            if REC.active and REC.ufun is not None and np.size(out) == 1 and np.ndim(lo) == 0:
                v = REC.ufun()
                if v is not None:
                    out = np.full(np.shape(out), v) * (hi - lo) + lo if np.ndim(out) else v * (hi - lo) + lo
            if np.ndim(lo) or np.ndim(hi):
                vals = (np.asarray(out) - lo) / (np.asarray(hi) - lo)
            else:
                vals = (np.asarray(out) - lo_) / (hi_ - lo_)
            for v in _size(vals):
                REC.draw(1, v)
            return out
        setattr(R, name, w)

    for n in ('randn', 'standard_normal'):
        normal_like(n, lambda a, k: (0.0, 1.0))
    normal_like('normal', lambda a, k: (a[0] if len(a) > 0 else k.get('loc', 0.0),
                                        a[1] if len(a) > 1 else k.get('scale', 1.0)))
    for n in ('rand', 'random_sample', 'random', 'ranf', 'sample'):
        if n in ORIG:
            uniform_like(n, lambda a, k: (0.0, 1.0))
    uniform_like('uniform', lambda a, k: (a[0] if len(a) > 0 else k.get('low', 0.0),
                                          a[1] if len(a) > 1 else k.get('high', 1.0)))

    def gam(name, norm):
        f = ORIG[name]

        def w(*a, **k):
            out = f(*a, **k)
            sh, sc = norm(a, k)
            for v in _size(out):
                REC.draw(2, sh, sc, v)
            return out
        setattr(R, name, w)
    gam('gamma', lambda a, k: (a[0] if a else k['shape'], a[1] if len(a) > 1 else k.get('scale', 1.0)))
    gam('standard_gamma', lambda a, k: (a[0] if a else k['shape'], 1.0))
    for n in ('choice', 'permutation', 'shuffle', 'randint', 'random_integers', 'exponential', 'chisquare',
              'beta', 'multivariate_normal', 'laplace', 'poisson', 'binomial', 'standard_t'):
        if n in ORIG:
            def mk(n):
                f = ORIG[n]

                def w(*a, **k):
                    out = f(*a, **k)
                    REC.draw(3, 0.0)
                    return out
                return w
            setattr(R, n, mk(n))


def fl(x):
    """nested lists of floats"""
    if x is None:
        return None
    return np.asarray(x, dtype=float).tolist()


class Observer:
    """a passive custom sampler: records its calls, returns a unique output"""
    def __init__(self, no, ncs, save_chain=False, chains=None):
        self.no, self.ncs = no, ncs
        self.cnt = 0
        self.save_chain = save_chain
        if chains is not None:
            self.chains = chains
        self.out = None

    def setup(self):
        self.cnt = 0
        self.out = self.no * 100000
        REC.setup.append([self.no, self.out])
        return self.out

    def update(self, accept, isimu, current_set):
        self.cnt += 1
        self.out = self.no * 100000 + self.cnt
        cur = dict(no=self.no, acc=bool(np.all(accept)), th=fl(np.ravel(current_set.theta)),
                   ss=fl(np.ravel(current_set.ss)),
                   s2=fl(np.ravel(current_set.sigma2)), out=self.out)
        cur['is'] = int(isimu)
        REC.cs.append(cur)
        if hasattr(self, 'chains'):
            self.chains[0]['mtx'][int(isimu), :] = [float(isimu), float(bool(np.all(accept)))]
        if self.no == self.ncs:
            REC.steps.append(dict(d=REC.d, e=REC.e, p=REC.p, cs=REC.cs, R=REC.R))
            REC.d, REC.e, REC.p, REC.cs, REC.R = [], [], [], [], None
        return self.out


def dump(obj, path):
    with open(path, 'w') as f:
        json.dump(obj, f)
