"""Credible and prediction intervals: recorded evaluations, random numbers and outputs of the code."""
import os
import shutil
import tempfile
import warnings

import rec
from rec import REC, fl
from engine import quiet, MCMC
import frame
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                                # noqa: E402

from pymcmcstat import propagation as UP                       # noqa: E402
from pymcmcstat.chain import ChainProcessing as CP             # noqa: E402
from pymcmcstat.settings.DataStructure import DataStructure    # noqa: E402
from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals   # noqa: E402

rec.install()


class Model:
    """positive responses that identify parameters, points and columns; remembers its calls"""
    def __init__(self, sc, only=None):
        self.sc, self.calls, self.only = sc, [], only

    def value(self, th, d, i, c):
        s = sum((j + 1) * .3 * np.sin(th[j] + j) for j in range(len(th)))
        return np.exp(.2 * s + .1 * i) * (c + 1) + .5 * d + .01 * th[0] * i

    def eval(self, data, th):
        sc = self.sc
        x = np.asarray(data.xdata[0]).ravel()
        d = int(round(x[0])) // 100
        u = data.user_defined_object[0]
        ident = d + 1 if isinstance(u, dict) and u.get('set') == d and (self.only is None or self.only == d) else 0
        n, q = sc['nrow'][d], sc['ncol'][d]
        y = np.array([[self.value(th, d, i, c) for c in range(q)] for i in range(n)])
        self.calls.append(dict(th=fl(th), d=ident, set=d, y=y.tolist()))
        sh = sc['shape']
        if q == 1 and sh == 'vec':
            return y[:, 0]
        if q == 1 and sh == 'row':
            return y.T
        return y

    def __call__(self, data, th):
        return self.eval(data, th)

    def __deepcopy__(self, memo):
        return self


def build_data(sc):
    data = DataStructure()
    for d in range(sc['nb']):
        n, q = sc['nrow'][d], sc['ncol'][d]
        x = 100. * d + np.arange(n) * .5
        y = np.ones((n, q)) * (d + 1) + .5 * np.arange(q) + .1 * np.arange(n)[:, None]
        data.add_data_set(x if q > 1 or sc['shape'] != 'vec' else x, y if q > 1 else y[:, 0], user_defined_object=dict(set=d))
    return data


def synthetic(sc, g):
    npar = len(sc['theta'])
    parind = [j for j in range(npar) if j not in sc['fixed']]
    n = sc['n']
    chain = g.randn(n, len(parind))
    if sc['rep']:                                   # rejected steps repeat rows
        for i in range(1, n):
            if g.rand() < .3:
                chain[i] = chain[i - 1]
    s2 = np.abs(g.randn(n, sc['ns2'])) + .01 if sc['ns2'] else None
    res = dict(chain=chain, s2chain=s2, parind=np.array(parind), local=np.zeros(npar), theta=np.array(sc['theta']),
               model_settings=dict(nbatch=sc['nb'], nsos=sc['ns2']), nsimu=n)
    if sc.get('res_ty') is not None:
        res['sstype'] = sc['res_ty']
    return res


def real(sc, data, g):
    """results of a real run, possibly saved and loaded again"""
    m = MCMC(rngseed=sc['seed'] % 1000)
    m.data = data
    ns2 = sc['ns2']
    m.simulation_options.define_simulation_options(nsimu=sc['n'], updatesigma=ns2 > 0, waitbar=False, verbosity=0, method='dram',
                                                   adaptint=7, qcov=np.eye(len(sc['theta'])) * .3, save_to_json=sc['load'],
                                                   savedir='d', results_filename='r.json')
    ns = max(ns2, 1)
    m.model_settings.define_model_settings(sos_function=lambda q, d, custom=None: np.array([1. + k + .1 * np.sum(np.asarray(q)**2) for k in range(ns)]) if ns > 1
                                           else 1. + .1 * np.sum(np.asarray(q)**2), N0=np.array([2.] * ns), S20=np.array([.2] * ns), sigma2=np.array([.5] * ns))
    for j, th in enumerate(sc['theta']):
        m.parameters.add_model_parameter(name='p%d' % j, theta0=th, sample=j not in sc['fixed'])
    REC.active = False
    m.run_simulation()
    res = m.simulation_results.results
    if sc['load']:
        res = CP.load_serial_simulation_results('d')
    return m, res


def run_intervals(sc):
    g = np.random.RandomState(sc['seed'])
    work, cwd = tempfile.mkdtemp(prefix='verif_int_'), os.getcwd()
    try:
        os.chdir(work)
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return one(sc, g)
    finally:
        REC.active = False
        REC.nq, REC.uq = [], []
        plt.close('all')
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)


def rows_of(calls, full, k0=0):
    """match evaluations to rows; equal rows (repeated states) are matched in order of use"""
    out, nxt = [], {}
    for c in calls:
        key = tuple(c['th'])
        cand = full.get(key, [])
        if not cand:
            out.append(0)
        else:
            p = nxt.get(key, 0)
            out.append(cand[p % len(cand)] + 1)
            nxt[key] = p + 1
    return out


def one(sc, g):
    data = build_data(sc)
    m = None
    if sc['real']:
        m, res = real(sc, data, g)
    else:
        res = synthetic(sc, g)
    b = sc['burn']
    chain = np.asarray(res['chain'])
    s2all = None if res['s2chain'] is None else np.asarray(res['s2chain'])
    keep = frame.digest([dict(res), frame.public(data, frame.DATA)])
    theta, parind = np.array(res['theta']), [int(v) for v in np.ravel(res['parind'])]
    REC.reset()
    np.random.seed(sc['seed'] % 2**31)
    tr = dict(kind=sc['kind'], theta=fl(theta), parind=[p + 1 for p in parind], nsample=sc['nsample'], quant=[], plot=None, pplot=None, runs=[])
    if sc['script']:
        REC.uq = list(sc['script'])
    if sc['kind'] == 'pi':
        models = [Model(sc, d) for d in range(sc['nb'])] if sc['mlist'] else [Model(sc)]
        PI = m.PI if m is not None else PredictionIntervals()
        PI.setup_prediction_interval_calculation(results=res, data=data, modelfunction=models if sc['mlist'] else models[0], burnin=b)
        for k in models:
            k.calls = []
        for _ in range(sc['again']):                # a second calculation does not depend on the first
            PI.generate_prediction_intervals(nsample=2, calc_pred_int=True)
        for k in models:
            k.calls = []
        REC.reset()
        REC.active = True
        PI.generate_prediction_intervals(sstype=sc['ty'], nsample=sc['nsample'], calc_pred_int=sc['want'], waitbar=sc['wbar'])
        REC.active = False
        calls = [c for k in models for c in k.calls]
        used, s2u = chain[b:], None if s2all is None else s2all[b:]
        o = PI.intervals
        tr['out'] = dict(cred=[[fl(q) for q in d] for d in o['credible_intervals']],
                         pred=None if o['prediction_intervals'] is None else [[fl(q) for q in d] for d in o['prediction_intervals']])
        wants = sc['want'] not in (False, 'off', 'OFF')
        tr['wantpi'] = wants and s2u is not None
        tr['sstype'] = sc['ty'] if sc['ty'] is not None else sc.get('res_ty') or 0
        tr['asked'] = sc['ty'] is not None
        nset = sc['nb']
        tr['pplot'] = None
        if sc.get('pplot'):
            withdata = sc['shape'] != 'vec' and not sc['real']
            _, axs = PI.plot_prediction_intervals(plot_pred_int=sc['pplot'] == 'all', adddata=withdata)
            n = 0
            tr['pplot'] = dict(pred=sc['pplot'] == 'all' and o['prediction_intervals'] is not None, sets=[])
            for d in range(nset):
                row = []
                for c in range(sc['ncol'][d]):
                    y = np.asarray(data.ydata[d])
                    x = 100. * d + np.arange(sc['nrow'][d]) * .5
                    row.append(dict(obs=[dict(x=fl(x), y=fl(y.reshape(len(y), -1)[:, c]))] if withdata else [],
                                    lines=[dict(x=fl(np.ravel(l.get_xdata())), y=fl(np.ravel(l.get_ydata()))) for l in axs[n].lines[1:]],
                                    bands=bands_of(axs[n], 100. * d + np.arange(sc['nrow'][d]) * .5), median=fl(axs[n].lines[0].get_ydata())))
                    n += 1
                tr['pplot']['sets'].append(row)
        tr['s2'] = None if s2u is None else fl(s2u)
        if sc['nsample'] is None:
            tr['nsample'] = len(used)
    else:
        model = Model(sc)
        used = chain[b:]
        n = len(used)
        q = sc['ncol'][0]
        form = sc['s2form']
        if form is None:
            arg = s2 = None
        elif form == 'float':
            arg = .3
            s2 = np.full((n, 1), .3)
        elif form in ('perq', 'perq2'):
            arg = .1 * (1 + np.arange(q))
            s2 = np.ones((n, 1)) * arg
            if form == 'perq2':
                arg = arg.reshape(1, q)
        else:
            base = np.abs(g.randn(n, q if form == 'chainq' else 1)) + .01
            arg = base[:, 0] if form == 'flat' else base
            s2 = base
        argkeep = frame.digest(arg)
        REC.active = True
        iv = UP.calculate_intervals(used, res, data, lambda th, d: model(d, th), s2chain=arg, nsample=sc['nsample'], waitbar=sc['wbar'], sstype=sc['ty'] or 0)
        REC.active = False
        if frame.digest(arg) != argkeep:
            keep = None
        ivs = iv if isinstance(iv, list) else [iv]
        calls = model.calls
        tr['out'] = dict(cred=[fl(v['credible']) for v in ivs], pred=None if ivs[0]['prediction'] is None else [fl(v['prediction']) for v in ivs])
        tr['sstype'] = sc['ty'] or 0
        tr['s2'] = None if s2 is None else fl(s2)
        nset = 1
        for c, v in enumerate(ivs):
            for of, key in (('cred', 'credible'), ('pred', 'prediction')):
                if v[key] is not None:
                    p = np.array(sc['p'])
                    tr['quant'].append(dict(of=of, c=c + 1, p=fl(p), v=fl(UP.generate_quantiles(v[key], p))))
        if sc['plot']:
            tr['plot'] = plot(sc, ivs[-1], len(ivs), data)
    full = {}
    for k, row in enumerate(used):
        th = theta.copy()
        th[parind] = row
        full.setdefault(tuple(fl(th)), []).append(k)
    sets = []
    for d in range(nset):
        mine = [c for c in calls if c['set'] == d]
        rows = rows_of(mine, full)
        sets.append([dict(th=c['th'], d=c['d'], y=c['y'], row=r) for c, r in zip(mine, rows)])
    tr['chain'] = fl(used)
    tr['sets'] = sets
    tr['z'] = [v[1] for v in REC.d if v[0] == 0]
    tr['u'] = [v[1] for v in REC.d if v[0] == 1]
    tr['same'] = bool(frame.digest([dict(res), frame.public(data, frame.DATA)]) == keep)
    return tr


def plot(sc, iv, nq, data):
    n = iv['credible'].shape[1]
    t = np.arange(n) * 1.
    kw = {}
    P = sc['plot']
    want = []
    ci, pi = P.get('ci') or P['limits'], P.get('pi') or P['limits']
    if iv['prediction'] is not None and P['addp']:
        want += [dict(kind='PI', l=float(v)) for v in sorted(pi, reverse=True)]
    if P['addc']:
        want += [dict(kind='CI', l=float(v)) for v in sorted(ci, reverse=True)]
    if P.get('ci'):
        kw['ciset'] = dict(limits=list(P['ci']))
    if P.get('pi'):
        kw['piset'] = dict(limits=list(P['pi']))
    keep = [dict(v) for v in kw.values()]
    kw.update(addprediction=P['addp'] and iv['prediction'] is not None, addcredible=P['addc'], limits=list(P['limits']))
    if P.get('defp') and P['addp']:
        del kw['addprediction']         # there are none to be shown where no error variance was given
    if P.get('nomodel'):
        kw['addmodel'] = False
    three = P.get('three')
    time = np.column_stack([t, 2. * t - 1.]) if three else t
    obs = None
    if P.get('obs'):
        x = time
        if P['obs'] != 'same':
            m = dict(own=n, few=max(1, n - 2), many=n + 3)[P['obs']]
            x = np.resize(time, (m,) + time.shape[1:]) + .25
            kw['xdata'] = x
        y = np.cos(np.arange(len(x))) * 3.
        kw.update(ydata=y, adddata=P.get('flag', True))
        if kw['adddata'] is not False:          # None: shown where given
            obs = dict(x=fl(x[:, 0] if three else x), y=fl(y))
    fig, ax = (UP.plot_3d_intervals if three else UP.plot_intervals)(iv, time, **kw)
    lines = [l.get_data_3d() if three else l.get_data() for l in ax.lines]
    lines = [dict(x=fl(np.asarray(l[0])), y=fl(np.asarray(l[-1]))) for l in lines]
    med = None if P.get('nomodel') else lines.pop(0)
    return dict(c=nq, bands=bands3(ax, t) if three else bands_of(ax, t), want=want, median=None if med is None else med['y'], t=fl(t),
                mt=None if med is None else med['x'], obs=obs, lines=lines,
                same=keep == [v for k, v in kw.items() if k in ('ciset', 'piset')])


def bands3(ax, t):
    bands = []
    for c in ax.collections:
        l, kind = c.get_label().split('% ')
        v = np.asarray(c._vec).T
        lo, hi = [], []
        for x in t:
            y = v[np.abs(v[:, 0] - x) < 1e-9, 2]
            lo.append(float(y.min()))
            hi.append(float(y.max()))
        bands.append(dict(kind=kind, l=float(l), lo=lo, hi=hi))
    return bands


def bands_of(ax, t):
    bands = []
    for c in ax.collections:
        l, kind = c.get_label().split('% ')
        v = c.get_paths()[0].vertices
        lo, hi = [], []
        for x in t:
            y = v[np.abs(v[:, 0] - x) < 1e-9, 1]
            lo.append(float(y.min()))
            hi.append(float(y.max()))
        bands.append(dict(kind=kind, l=float(l), lo=lo, hi=hi))
    return bands
