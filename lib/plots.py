"""Diagnostic plots of chains and their utilities: what the figures hold."""
import warnings

import engine
from engine import quiet
from rec import fl
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                      # noqa: E402

from pymcmcstat.plotting import MCMCPlotting as MP   # noqa: E402
from pymcmcstat.plotting import utilities as U       # noqa: E402
import stats                                         # noqa: E402
assert engine


def panels(f):
    out = []
    for ax in f.axes:
        lines = [dict(x=fl(np.ravel(l.get_xdata()).astype(float)), y=fl(np.ravel(l.get_ydata()).astype(float))) for l in ax.lines]
        bars = [dict(left=float(p.get_x()), width=float(p.get_width()), height=float(p.get_height())) for p in ax.patches]
        bars.sort(key=lambda b: b['left'])
        if not lines and not bars:
            continue
        out.append(dict(place=int(ax.get_subplotspec().num1) + 1, xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(),
                        lines=lines, bars=bars))
    out.sort(key=lambda p: p['place'])
    return out


def run_plots(sc):
    g = np.random.RandomState(sc['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return one(sc, g)
        finally:
            plt.close('all')


def one(sc, g):
    c = stats.make_chain(g, sc['n'], sc['npar'], sc['ck'])
    keep = c.copy()
    names = None if sc['names'] is None else list(sc['names'])
    k = sc['kind']
    tr = dict(kind=k, rows=fl(c), names=names or [], skip=sc['skip'], maxpoints=sc['maxpoints'], histon=bool(sc['histon']), runs=[])
    P = MP.Plot()
    thin = {}
    if sc['skip'] != 1 or sc['passall']:
        thin['skip'] = sc['skip']
    if sc['maxpoints'] != 500 or sc['passall']:
        thin['maxpoints'] = sc['maxpoints']
    if k == 'util':
        return util(sc, g, c, keep, tr)
    with quiet():
        if k == 'chain':
            f = P.plot_chain_panel(c, names, **thin)
        elif k == 'pairs':
            f = P.plot_pairwise_correlation_panel(c, names, **thin)
        elif k == 'hist':
            f = P.plot_histogram_panel(c, names)
        elif k == 'density':
            f = P.plot_density_panel(c, names, hist_on=bool(sc['histon']))
        else:
            f = P.plot_chain_metrics(c[:, 0], name=None if names is None else (names + ['x'])[0])
    tr['panels'] = panels(f)
    tr['same'] = bool(np.array_equal(c, keep)) and (names is None or names == sc['names'])
    return tr


def util(sc, g, c, keep, tr):
    n, npar = c.shape
    tr['grids'] = []
    for m in sc['npts']:
        tr['grids'].append(dict(n=m, g=[fl(np.ravel(U.make_x_grid(c[:, [j]], npts=m))) for j in range(npar)]))
    row = sc['row']
    cols = [c[:, [j]] if not row else c[:, [j]].reshape(1, n) for j in range(npar)]
    tr['iqr'] = [float(np.ravel(U.iqrange(x))[0]) for x in cols]
    tr['band'] = [float(np.ravel(U.scale_bandwidth(c[:, [j]]))[0]) for j in range(npar)]
    tr['gauss'] = []
    for _ in range(3):
        x, mu, s2 = g.randn() * 3, g.randn(), abs(g.randn()) + .05
        tr['gauss'].append(dict(x=float(x), mu=float(mu), s2=float(s2), y=float(U.gaussian_density_function(x, mu, s2))))
    tr['ell'] = []
    same = True
    for kind in sc['ell']:
        L = np.tril(g.randn(2, 2))
        L[0, 0], L[1, 1] = abs(L[0, 0]) + .2, abs(L[1, 1]) + .2
        C = L.dot(L.T)
        sym = True
        if kind == 'indef':
            C[0, 1] = C[1, 0] = 2 * np.sqrt(C[0, 0] * C[1, 1])
        if kind == 'asym':
            C[0, 1] += .5
            sym = False
        mu = g.randn(2) * 5
        kk = (C.copy(), mu.copy())
        e = dict(mu=fl(mu), c=fl(C), sym=sym, n=sc['ndp'], refused=False, x=[], y=[])
        try:
            x, y = U.generate_ellipse(mu, C, ndp=sc['ndp'])
            e['x'], e['y'] = fl(np.ravel(x)), fl(np.ravel(y))
        except SystemExit:
            e['refused'] = True
        same = same and np.array_equal(C, kk[0]) and np.array_equal(mu, kk[1])
        tr['ell'].append(e)
    tr['same'] = bool(same and np.array_equal(c, keep))
    return tr
