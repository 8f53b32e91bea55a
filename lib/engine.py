"""Drive real pymcmcstat runs from scenario descriptions and turn them into traces for DramTrace.tla."""
import contextlib
import copy
import io
import os
import re
import shutil
import sys
import tempfile
import traceback
import warnings

import rec
import tight
from rec import REC, fl, Observer
import numpy as np

rec.install()
warnings.simplefilter('ignore')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from pymcmcstat.MCMC import MCMC   # noqa: E402

INTOPT = ('nsimu', 'adaptint', 'ntry', 'lastadapt', 'burnintime', 'savesize', 'printint')
OPTDEF = dict(nsimu=10000, adaptint=None, ntry=None, method='dram', printint=None, lastadapt=0, burnintime=0,
              qcov=None, updatesigma=False, drscale=[5., 4., 3.], adascale=None, savesize=0, rdr=None,
              qcov_adjust=1e-8, burnin_scale=10., initqcovn=None, save_to_json=False, save_to_bin=False,
              save_to_txt=False, save_lightly=False)


def f_or_none(x):
    return None if x is None else float(x)


def norm_qcov(q, npall):
    if q is None:
        return None
    a = np.asarray(q, dtype=float)
    if a.ndim == 2 and min(a.shape) > 1 or a.size == 1 and npall == 1:
        return dict(m=np.atleast_2d(a).tolist())
    return dict(v=a.ravel().tolist())


def norm_list(x):
    if x is None:
        return None
    return fl(np.atleast_1d(np.asarray(x, dtype=float)))


def target_ns(sc):
    t = sc['target']
    return t.get('ns', 1) if t['kind'] != 'model' else len(sc['data'])


def make_raw(sc, opt):
    o = dict(OPTDEF)
    o.update(opt)
    par = []
    for p in sc['par']:
        par.append(dict(name=p.get('name'), theta0=f_or_none(p.get('theta0')), min=float(p.get('min', -np.inf)),
                        max=float(p.get('max', np.inf)), mu=float(p.get('mu', 0.)),
                        sigma=float(p.get('sigma', np.inf)), sample=bool(p.get('sample', True)),
                        adapt=bool(p.get('adapt', True))))
    oo = {k: o[k] for k in OPTDEF}
    for k in INTOPT:
        oo[k] = None if oo[k] is None else int(oo[k])
    for k in ('adascale', 'qcov_adjust', 'burnin_scale', 'initqcovn'):
        oo[k] = f_or_none(oo[k])
    oo['drscale'] = [float(v) for v in oo['drscale']]
    oo['qcov'] = norm_qcov(oo['qcov'], len(par))
    oo['rdr'] = None if oo['rdr'] is None else [fl(m) for m in oo['rdr']]
    for k in ('updatesigma', 'save_to_json', 'save_to_bin', 'save_to_txt', 'save_lightly'):
        oo[k] = bool(oo[k])
    m = sc.get('model', {})
    model = {k: norm_list(m.get(k)) for k in ('sigma2', 'S20', 'N0', 'N')}
    dn = [float(d['n'] if d.get('n') is not None else len(d['x'])) for d in sc['data']]
    return dict(par=par, opt=oo, model=model, dn=dn, ns=target_ns(sc), exact=bool(sc.get('exact', False)),
                customprior=bool(sc.get('customprior', False)), verb=int(o.get('verbosity') or 0),
                mdata=None if sc['target']['kind'] != 'model' else
                [dict(x=fl(np.ravel(d['x'])), y=fl(np.ravel(d['y'])), w=float(1. if d.get('w') is None else d['w'])) for d in sc['data']])


def sos_value(t, q, count):
    """sum of squares of the synthetic targets; q is the full parameter vector"""
    ns = t.get('ns', 1)
    if t['kind'] == 'quad':
        c, w = np.asarray(t['c'], float), np.asarray(t['w'], float)
        ss = ((q[None, :] - c)**2 * w).sum(axis=1)
        for (i, a) in t.get('cross', []):
            ss = ss + a * (q[i] * q[(i + 1) % q.size])**2
        return ss
    if t['kind'] == 'const':
        return np.full(ns, float(t['v']))
    if t['kind'] == 'table':
        v = t['v'][min(count, len(t['v']) - 1)]
        return np.atleast_1d(np.asarray(v, float)) * np.ones(ns)
    if t['kind'] == 'hole':
        ss = ((q[None, :] - np.asarray(t['c'], float))**2 * np.asarray(t['w'], float)).sum(axis=1)
        if q[0] > t['at']:
            ss = ss * np.inf
            if t.get('nan'):
                ss[-1] = np.nan
        return ss
    raise ValueError(t['kind'])


class Target:
    def __init__(self, sc):
        self.t = sc['target']
        self.count = 0
        self.scalar = self.t.get('scalar', False)

    def note(self, q, ss, custom):
        # custom: the list passed in, 'none' if the function does not take it
        cu = None if custom == 'none' else [int(c) for c in (custom if custom is not None else [])]
        REC.e.append(dict(q=fl(q), ss=fl(ss), at=len(REC.d), cu=cu, pr=None, calls=None))

    def value(self, q):
        ss = sos_value(self.t, np.array(q, dtype=float), self.count)
        self.count += 1
        return ss

    def with_custom(self, q, data, custom=None):
        ss = self.value(q)
        self.note(q, ss, custom)
        return float(ss[0]) if self.scalar and ss.size == 1 else ss.copy()

    def without_custom(self, q, data):
        ss = self.value(q)
        self.note(q, ss, 'none')
        return float(ss[0]) if self.scalar and ss.size == 1 else ss.copy()


def decoy_model(x, q):
    raise RuntimeError('model function called although there is a sum-of-squares function')


class ModelTarget:
    """model function: polynomial in x with the parameters as coefficients"""
    def __init__(self, sc):
        self.data = sc['data']
        self.nb = len(self.data)
        self.calls = []
        self.nanat, self.flat = sc['target'].get('nanat'), sc['target'].get('flat')

    def __call__(self, x, q):
        xx = np.asarray(x, dtype=float)
        nc = self.data[len(self.calls) % self.nb].get('nc', 1)
        y = sum(q[j] * xx**j for j in range(len(q))) * (1. + np.arange(nc))
        if self.nanat is not None and q[0] > self.nanat:      # undefined beyond this value
            y = np.array(y, dtype=float)
            y[-1] = np.nan
        self.calls.append(dict(x=fl(xx.ravel()), q=fl(q), y=fl(np.ravel(y))))
        if len(self.calls) == self.nb:
            ss = []
            for b, c in enumerate(self.calls):
                w = float(self.data[b].get('w', 1.))
                ss.append(float(np.sum(w * (np.asarray(self.data[b]['y'], float).ravel() - np.asarray(c['y']))**2)))
            REC.e.append(dict(q=self.calls[0]['q'], ss=ss, at=len(REC.d), cu=None, pr=None, calls=self.calls))
            self.calls = []
        return np.ravel(y) if self.flat and nc == 1 else y


def make_prior(kind):
    def prior(theta, mu, sigma):
        r = (np.asarray(theta, float) - mu) / sigma
        if kind == 'l1':
            v = float(np.sum(np.abs(r[np.isfinite(r)]))) + 0.25
        else:
            v = float(np.sum(r[np.isfinite(r)]**4))
        REC.p.append(dict(th=fl(theta), mu=fl(mu), sig=fl(sigma), v=v, at=len(REC.d)))
        return v
    return prior


def py_opt(o, npint=False):
    """options in the form a user would give them"""
    o = dict(o)
    if npint:      # numbers computed with numpy
        o = {k: np.int64(v) if type(v) is int else v for k, v in o.items()}
    if o.get('rdr') is not None:
        o['RDR'] = [np.array(m, dtype=float) for m in o['rdr']]
    o.pop('rdr', None)
    if o.get('qcov') is not None:
        o['qcov'] = np.array(o['qcov'], dtype=float)
    if 'drscale' in o:
        o['drscale'] = np.array(o['drscale'], dtype=float)
    return o


def build(sc, opt):
    m = MCMC(rngseed=sc.get('seed'))
    for d in sc['data']:
        kw = {}
        if d.get('n') is not None:
            kw['n'] = d['n']
        if d.get('w') is not None:
            kw['weight'] = d['w']
        if d.get('aslist'):
            m.data.add_data_set(list(d['x']), [list(v) for v in np.reshape(d['y'], (len(d['x']), -1)).tolist()]
                                if d.get('nc', 1) > 1 else list(d['y']), **kw)
        else:
            y = np.array(d['y'], dtype=float)
            m.data.add_data_set(np.array(d['x'], dtype=float), y.reshape(len(d['x']), -1) if d.get('nc', 1) > 1 else y, **kw)
    o = dict(waitbar=False, verbosity=0)
    o.update(py_opt(opt, sc.get('npint')))
    m.simulation_options.define_simulation_options(**o)
    ms = {}
    for k, v in sc.get('model', {}).items():
        if v is not None:
            ms[k] = np.array(v, dtype=float) if isinstance(v, list) else v
    if sc['target']['kind'] == 'model':
        ms['model_function'] = ModelTarget(sc)
    else:
        t = Target(sc)
        m._verif_target = t
        ms['sos_function'] = t.with_custom if sc.get('customarg', True) else t.without_custom
        if sc.get('decoy'):       # a sum-of-squares function takes precedence over a model function
            ms['model_function'] = decoy_model
    if sc.get('customprior'):
        ms['prior_function'] = make_prior(sc['customprior'])
    m.model_settings.define_model_settings(**ms)
    for p in sc['par']:
        kw = {}
        for a, b in (('name', 'name'), ('theta0', 'theta0'), ('min', 'minimum'), ('max', 'maximum'), ('mu', 'prior_mu'),
                     ('sigma', 'prior_sigma'), ('sample', 'sample'), ('adapt', 'adapt')):
            if p.get(a) is not None:
                kw[b] = p[a]
        m.parameters.add_model_parameter(**kw)
    ncs = max(1, sc.get('ncs', 1))
    for i in range(ncs):
        m.custom_samplers.append(Observer(i + 1, ncs))
    return m


def attach_prior(evals, priors):
    """a prior call belongs to the evaluation made between the same draws"""
    pp = list(priors)
    for e in evals:
        hit = next((p for p in pp if p['at'] == e['at']), None)
        if hit is None:
            hit = next((p for p in pp if abs(p['at'] - e['at']) <= 1), None)
        if hit is not None:
            pp.remove(hit)
            e['pr'] = {k: hit[k] for k in ('th', 'mu', 'sig', 'v')}
    return pp


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def mat(x):
    return None if x is None else fl(np.atleast_2d(np.asarray(x, dtype=float)))


def fin_of(res, m, old):
    ch = np.asarray(res['chain'])
    f = dict(total_rejected=float(res['total_rejected']), rob=float(res['rejected_outside_bounds']),
             iacce=[int(v) for v in res['iacce']] if 'iacce' in res else None,
             theta=fl(res['theta']), names=list(res['names']), allnames=list(res['allnames']),
             lo=fl(res['limits'][0]), hi=fl(res['limits'][1]), mu=fl(res['prior']['mu']), sig=fl(res['prior']['sigma']),
             parind=[int(v) for v in res['parind']], nsimu=int(res['nsimu']), rows=int(ch.shape[0]),
             ssrows=int(np.asarray(res['sschain']).shape[0]),
             s2rows=0 if res['s2chain'] is None else int(np.asarray(res['s2chain']).shape[0]),
             R=mat(res['R']), qcov=mat(res['qcov']), scale=float(res['qcov_scale']), orig=mat(res['original_covariance']),
             qcovorig=mat(res['qcovorig']), cov=mat(res['cov']), mean=None if res['mean'] is None else fl(np.ravel(res['mean'])),
             rdr=None if res.get('RDR') is None else [mat(x) for x in res['RDR']])
    f['oldkept'] = True if old is None else bool(
        same(ch[:old['chain'].shape[0]], old['chain'])
        and same(np.asarray(res['sschain'])[:old['chain'].shape[0]], old['sschain'])
        and (res['s2chain'] is None or old['s2chain'] is None
             or same(np.asarray(res['s2chain'])[:old['chain'].shape[0]], old['s2chain'])))
    return f


class quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.buf = io.StringIO()
        sys.stdout = self.buf
        sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


def factor(m):
    """the factor of the proposal covariance in use"""
    c = getattr(m, '_covariance', None)
    for o in [c] + list(vars(m).values()):
        for a in ('_R', 'R'):
            if getattr(o, a, None) is not None and not callable(getattr(o, a)):
                return np.array(getattr(o, a))
    raise RuntimeError('no proposal covariance found')


def one_run(m, sc, opt, kind, cont, old):
    """run_simulation with recording; returns the run record of the trace"""
    raw = make_raw(sc, opt)
    ncs = len(m.custom_samplers)
    REC.reset()
    script = sc.get('script') or {}
    if kind != 'cont':
        REC.nq, REC.uq = list(script.get('n', [])), list(script.get('u', []))
    REC.getR = lambda: factor(m)
    if sc.get('tight') is not None:
        REC.ufun = tight.Tight(sc, opt, sc['tight'])
        REC.ufun.m = m
        if old is not None and old['s2chain'] is not None:
            REC.ufun.s2, REC.ufun.n = np.array(old['s2chain'][-1]), 1
    with quiet() as q:
        REC.active = True
        try:
            m.run_simulation(use_previous_results=cont)
        finally:
            REC.active = False
            REC.ufun = None
    res = m.simulation_results.results
    chain, ss = np.asarray(res['chain']), np.asarray(res['sschain'])
    s2 = None if res['s2chain'] is None else np.asarray(res['s2chain'])
    base = 0 if old is None else old['chain'].shape[0] - 1
    steps = REC.steps
    pre = None
    # the evaluation of the initial sample precedes every draw of the first step
    if steps:
        e0 = [e for e in steps[0]['e'] if e['at'] == 0]
        p0 = [p for p in steps[0]['p'] if p['at'] == 0]
        steps[0]['e'] = [e for e in steps[0]['e'] if e['at'] > 0]
        steps[0]['p'] = [p for p in steps[0]['p'] if p['at'] > 0]
    else:
        e0, p0 = REC.e, REC.p
    if not e0:
        raise RuntimeError('initial sample was not evaluated')
    pre = e0[-1]
    attach_prior([pre], p0)
    s2cur = np.asarray(m.model_settings.sigma2, dtype=float)   # constant unless updated
    R0 = steps[0]['R'] if steps and steps[0]['R'] is not None else np.array(res['R'])
    init = dict(q=pre['q'], ss=pre['ss'], pr=pre['pr'], calls=pre['calls'], row=fl(chain[base]), ssrow=fl(ss[base]),
                s2row=None if s2 is None else fl(s2[base]),
                s2=fl(s2[base] if s2 is not None else s2cur * np.ones(raw['ns'])), R=mat(R0))
    out = []
    lines = {}
    for ln in re.finditer(r'^i:(\d+) \(([^,()]+),([^,()]+),([^,()]+)\)', q.buf.getvalue(), re.M):
        lines.setdefault(int(ln.group(1)), []).append([float(v) for v in ln.groups()[1:]])
    cuin = [s[1] for s in REC.setup]
    Rcur = R0
    for k, s in enumerate(steps):
        attach_prior(s['e'], s['p'])
        i = base + k + 1
        Rnext = np.array(res['R']) if k + 1 >= len(steps) else steps[k + 1]['R']
        if Rnext is None:
            Rnext = Rcur
        rn = None if same(Rnext, Rcur) else mat(Rnext)
        last = s['cs'][-1]
        out.append(dict(d=s['d'], e=s['e'], row=fl(chain[i]) if i < len(chain) else [],
                        ssrow=fl(ss[i]) if i < len(ss) else [],
                        s2row=None if s2 is None else fl(s2[i]) if i < len(s2) else [], acc=last['acc'], cs=s['cs'],
                        cuin=cuin, Rn=rn, lines=lines.get(k + 1, [])))
        cuin = [c['out'] for c in s['cs']]
        Rcur = Rnext
    run = dict(raw=raw, kind=kind, init=init, old=[] if old is None else fl(old['chain'][:-1]), steps=out,
               fin=fin_of(res, m, old), ncs=ncs, setup=[s[0] for s in REC.setup])
    return run, res, q.buf.getvalue()


def numerically_singular(c):
    """a covariance which is positive definite by rounding errors only need not survive R'R"""
    c = np.atleast_2d(np.asarray(c, dtype=float))
    d = np.sqrt(np.abs(np.diag(c)))
    return not (d > 0).all() or np.linalg.eigvalsh(c / np.outer(d, d)).min() < 1e-9


def run_scenario(sc):
    """-> dict(runs=[...]) or dict(error=...)"""
    tr = dict(id=sc.get('id', ''), runs=[])
    work = tempfile.mkdtemp(prefix='verif_run_')
    cwd = os.getcwd()
    try:
        os.chdir(work)
        m, old = None, None
        for r, rn in enumerate(sc.get('runs', [dict(kind='fresh')])):
            if m is None or rn.get('opt') or rn['kind'] == 'restart':        # options stay as they are unless defined again
                opt = dict(sc['opt'])
                opt.update(rn.get('opt', {}))
            kind = rn['kind']
            if kind == 'restart':
                if numerically_singular(res['qcov']):
                    break
                sc = dict(sc)
                for k in ('par', 'target', 'model', 'seed'):
                    if k in rn:
                        sc[k] = rn[k]
                m = None
            if m is None:
                m = build(sc, opt)
            elif rn.get('opt'):
                o = dict(waitbar=False, verbosity=0)
                o.update(py_opt(opt, sc.get('npint')))
                m.simulation_options.define_simulation_options(**o)
            run, res, _ = one_run(m, sc, opt, kind, kind == 'cont', old if kind == 'cont' else None)
            run['kept'] = r > 0 and kind != 'restart' and not rn.get('opt')      # options of the run before
            run['was'] = 'restart' if any(x['kind'] == 'restart' for x in tr['runs']) else None
            tr['runs'].append(run)
            old = dict(chain=np.array(res['chain']), sschain=np.array(res['sschain']),
                       s2chain=None if res['s2chain'] is None else np.array(res['s2chain']))
    except (Exception, SystemExit) as ex:
        tr['error'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
        tr['where'] = traceback.format_exc()[-1500:]
    finally:
        REC.active = False
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)
    return tr
