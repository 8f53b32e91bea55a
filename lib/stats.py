"""Statistics of chains: what the code returns and prints."""
import re
import warnings

import engine
from engine import quiet
from rec import fl
import numpy as np

from pymcmcstat.chain import ChainStatistics as CS   # noqa: E402


def make_chain(g, n, npar, kind):
    """columns with different scales, offsets and correlation; rejected steps repeat the whole row"""
    rows = np.zeros((n, npar))
    x = g.randn(npar)
    rho = kind['rho']
    for i in range(n):
        if i == 0 or g.rand() < kind['acc']:
            x = rho * x + np.sqrt(max(1 - rho**2, .01)) * g.randn(npar)
        rows[i] = x
    if kind.get('stuck'):
        rows[n // 8 + 1:] = rows[n // 8]
    rows = rows + kind.get('drift', 0.) * np.linspace(0, 1, n)[:, None]
    return rows * np.array(kind['scale'][:npar]) + np.array(kind['off'][:npar])


NUM = r'\s*([-+0-9.einfa]+)'


def parse(txt, npar):
    lines = txt.split('\n')
    h = [k for k, l in enumerate(lines) if re.match(r'\s*name\s*:', l)]
    table = []
    for l in lines[h[0] + 1:]:
        if l.startswith('---'):
            break
        name, v = l.rsplit(':', 1)
        table.append(dict(name=name.strip(), v=[float(x) for x in v.split()]))
    stages = [float(x) for x in re.findall(r'Stage\s+\d+\s*:\s*([-+0-9.einfa]+)\s*%', txt)]
    net = re.findall(r'Net\s*:\s*([-+0-9.einfa]+)\s*%\s*->\s*(\d+)\s*/\s*(\d+)', txt)
    acc = dict(stages=stages, chain=[int(net[-1][1]), int(net[-1][2])], pct=float(net[-1][0]),
               res=[int(net[0][1]), int(net[0][2])] if len(net) > 1 else None)
    return table, acc


def run_stats(sc):
    g = np.random.RandomState(sc['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if sc['kind'] == 'gr':
            return run_gr(sc, g)
        c = make_chain(g, sc['n'], sc['npar'], sc['ck'])
        if sc.get('constcol') is not None:
            c[:, sc['constcol']] = 1.25
        if sc.get('recur'):                     # values that come back later
            k = len(c) // 3
            c[-k:] = c[:k]
        res = None
        if sc['res']:
            res = dict(names=list(sc['names']))
            if sc.get('iacce') is not None:
                res['iacce'] = np.array(sc['iacce'], dtype=int)
                if sc['nsimu'] is not None:
                    res['nsimu'] = sc['nsimu']
        keep = c.copy()
        with quiet() as q:
            if sc.get('sub'):
                view = np.column_stack([c, c])[:, :sc['npar']]      # not contiguous
            else:
                view = c
            st = CS.chainstats(view, res, returnstats=True)
        table, acc = parse(q.buf.getvalue(), sc['npar'])
        bm = [dict(b=b, s=fl(CS.batch_mean_standard_deviation(c, b=b))) for b in sc['bm']]
        gw = []
        for a, b in sc['gw']:
            z, p = CS.geweke(c, a=a, b=b)
            gw.append(dict(a=a, b=b, z=fl(z), p=fl(p)))
        return dict(kind='chain', rows=fl(keep), names=sc['names'] if sc['res'] else [], const=[bool(np.ptp(keep[:, j]) == 0) for j in range(sc['npar'])],
                    stats=dict(mean=fl(st['mean']), std=fl(st['std']), bmstd=fl(st['bmstd']), mcerr=fl(st['mcerr']),
                               z=fl(st['geweke']['z']), p=fl(st['geweke']['p']), tau=fl(st['iact']['tau']), m=fl(st['iact']['m'])),
                    table=table, acc=acc, iacce=None if res is None or 'iacce' not in res else sc['iacce'],
                    nsimu=sc['nsimu'] if sc.get('nsimu') is not None else sc['n'], bm=bm, gw=gw, runs=[])


def run_gr(sc, g):
    cs = []
    for k in range(sc['nch']):
        ck = dict(sc['ck'], off=[o + d for o, d in zip(sc['ck']['off'], sc['shift'][k])])
        cs.append(make_chain(g, sc['n'], sc['npar'], ck))
    keep = [c.copy() for c in cs]
    arg, used = cs, keep
    if sc['dicts']:            # results dictionaries: the default burn-in of half of each chain is removed
        arg = [dict(chain=c, nsimu=len(c)) for c in cs]
        used = [c[len(c) // 2:] for c in keep]
    res = dict(names=list(sc['names'])) if sc['res'] else None
    names = list(sc['given']) if sc.get('given') else None
    with quiet():
        o = CS.gelman_rubin(arg, names=names, results=res, display=sc['display'])
    if names is None:
        names = ([] if res is None else list(sc['names'])) + ['$p_{%d}$' % j for j in range(sc['npar'])][len(sc['names']) if res else 0:]
    out = [dict(name=k, **{a: float(v[a]) for a in ('R', 'B', 'W', 'V', 'neff')}) for k, v in o.items()]
    out.sort(key=lambda r: names.index(r['name']) if r['name'] in names else 99)
    return dict(kind='gr', chains=[fl(c) for c in used], gnames=names, out=out, runs=[])
