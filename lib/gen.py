"""Scenario generators for the sampler family (DramTrace.tla).  Only scenarios the specification
declares valid (not refused) are produced; every choice comes from the given random.Random."""
import math
import random

INF = float('inf')
NAN = float('nan')


def spd(rng, sd):
    """random symmetric positive definite matrix with the given standard deviations"""
    n = len(sd)
    L = [[rng.uniform(-.6, .6) if j < i else (rng.uniform(.7, 1.) if i == j else 0.) for j in range(n)] for i in range(n)]
    C = [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return [[C[i][j] * sd[i] * sd[j] for j in range(n)] for i in range(n)]


def upper(rng, sd):
    n = len(sd)
    return [[sd[j] * (rng.uniform(.6, 1.2) if i == j else rng.uniform(-.4, .4)) if j >= i else 0. for j in range(n)]
            for i in range(n)]


def submat(m, idx):
    return [[m[i][j] for j in idx] for i in idx]


def pars(rng, n, fixed=.25, noadapt=.2, tight=.5, priors=.5):
    while True:
        out = []
        for i in range(n):
            p = dict(theta0=rng.choice([0., 1., rng.uniform(-3, 3), rng.uniform(.1, 2.), rng.uniform(-50, 50)]))
            if rng.random() < .1 and p['theta0'] == 1.:
                p['theta0'] = None
            if rng.random() < .7:
                p['name'] = 'par%s%d' % (rng.choice('abc'), i)
            t0 = 1. if p['theta0'] is None else p['theta0']
            s = max(abs(t0) * .1, .2) * rng.choice([.3, 1., 1., 4.])
            if rng.random() < .12:        # badly scaled parameters
                p['theta0'] = t0 = rng.choice([1, -1]) * rng.uniform(1., 9.) * 10.**rng.choice([-9, -7, -5, 3, 5, 8])
                s = abs(t0) * rng.choice([.1, .1, .4])
            c = rng.random()
            if c < tight:
                k = rng.random()
                if k < .6:
                    p['min'], p['max'] = t0 - s * rng.uniform(.2, 2), t0 + s * rng.uniform(.2, 2)
                elif k < .75:
                    p['min'] = t0 - s * rng.uniform(0, 1.)
                elif k < .9:
                    p['max'] = t0 + s * rng.uniform(0, 1.)
                elif k < .95:
                    p['min'], p['max'] = t0, t0 + 3 * s
                else:
                    p['min'], p['max'] = t0 - 3 * s, t0
            elif c < tight + .2:
                p['min'], p['max'] = t0 - 40 * s, t0 + 40 * s
            if rng.random() < priors:
                p['mu'] = rng.choice([t0, NAN, t0 + s * rng.uniform(-1, 1), 0.])
                p['sigma'] = rng.choice([s * rng.uniform(.5, 2.), s * rng.uniform(.5, 2.), INF, 0., -1.])
            if rng.random() < fixed:
                p['sample'] = False
            elif rng.random() < noadapt:
                p['adapt'] = False
            p['_s'] = s
            out.append(p)
        if any(p.get('sample', True) for p in out):
            return out


def t0s(ps):
    return [1. if p['theta0'] is None else p['theta0'] for p in ps]


def target(rng, ps, ns, sharp=None):
    t0 = t0s(ps)
    c = [[t + p['_s'] * rng.uniform(-.7, .7) for t, p in zip(t0, ps)] for _ in range(ns)]
    k = sharp if sharp is not None else rng.choice([.1, 1., 1., 3., 20.])
    w = [[k * rng.uniform(.3, 2.) / p['_s']**2 for p in ps] for _ in range(ns)]
    t = dict(kind='quad', ns=ns, c=c, w=w)
    if rng.random() < .25:
        t['cross'] = [[0, rng.uniform(.1, 1.)]]
    if ns == 1 and rng.random() < .4:
        t['scalar'] = True
    return t


def datasets(rng, nb, minlen=2):
    d = []
    for _ in range(nb):
        n = 1 if rng.random() < .2 else rng.randint(minlen, 7)
        e = dict(x=[float(i) for i in range(n)], y=[rng.uniform(-1, 1) for _ in range(n)])
        if rng.random() < .15:
            e['n'] = rng.randint(1, 12)
        d.append(e)
    return d


def scl(rng, ns, f):
    """scalar, one-element list or one value per component"""
    k = rng.random()
    if k < .4:
        return f()
    if k < .5:
        return [f()]
    return [f() for _ in range(ns)]


def errmodel(rng, ns, big=1.):
    m = {}
    if rng.random() < .5:
        m['sigma2'] = scl(rng, ns, lambda: rng.uniform(.3, 4.) * big)
    if rng.random() < .3:
        m['N0'] = scl(rng, ns, lambda: rng.choice([1., .5, rng.uniform(.1, 6.)]))
    if rng.random() < .3:
        m['S20'] = scl(rng, ns, lambda: rng.uniform(.3, 4.) * big)
    return m


def engine(rng, focus=None, cont=None):
    """one random scenario; focus shifts the weights towards a property"""
    focus = focus or 'any'
    n = rng.choice([1, 2, 2, 3, 3, 4])
    if focus == 'C04':
        n = rng.choice([2, 3, 4, 5])
    if rng.random() < .03:
        n = rng.choice([6, 7, 11])
    ps = pars(rng, n, fixed=.45 if focus == 'C04' else .2, noadapt=.4 if focus == 'C05' else .15,
              tight=.75 if focus == 'C02' else .45, priors=.9 if focus == 'C20' else .45)
    if focus == 'C09' and rng.random() < .4:
        rng.choice([p for p in ps if p.get('sample', True)])['mu'] = NAN
    nb = rng.choice([1, 1, 1, 2, 3]) if rng.random() > .03 else rng.choice([4, 6])
    ns = rng.choice([1, 1, nb]) if nb > 1 else rng.choice([1, 1, 2, 3])
    data = datasets(rng, nb)
    method = rng.choice(['dram'] * 5 + ['am', 'am', 'dr', 'dr', 'mh'])
    if focus == 'C03':
        method = rng.choice(['dram', 'dr'])
    if focus == 'C05':
        method = rng.choice(['dram', 'am', 'am', 'dr', 'mh'])
    nsimu = rng.choice([1, 2, 3, 17, 40, 60, 80])
    if focus == 'C05':
        nsimu = rng.choice([40, 60, 80, 120])
    if rng.random() < .025:
        nsimu = rng.choice([130, 210, 260])
    opt = dict(nsimu=nsimu, method=method)
    if rng.random() < .8:
        opt['adaptint'] = rng.choice([1, 2, 5, 7, 10, 10, 20, 25])
    if rng.random() < (.8 if focus == 'C03' else .4):
        opt['ntry'] = rng.choice([1, 2, 3, 3, 4, 5])
    if rng.random() < .5:
        opt['drscale'] = [rng.choice([1.5, 2., 3., 5., .8]) for _ in range(rng.randint(1, 5))]
    s = [p['_s'] for p in ps]
    g = rng.choice([.3, 1., 1., 3.])
    k = rng.random()
    if k < .3 and n > 1:
        opt['qcov'] = spd(rng, [v * g for v in s])
    elif k < .75:
        opt['qcov'] = [(v * g)**2 for v in s]
    if n == 1 and opt.get('qcov') is not None and rng.random() < .5:
        opt['qcov'] = [opt['qcov']]
    if rng.random() < .25:
        opt['adascale'] = rng.choice([.5, 1.2, 2.4, 11., 0., -1.])
    if rng.random() < (.5 if focus == 'C05' else .3):
        opt['initqcovn'] = rng.choice([1., 1.5, 5., 20.])
    if rng.random() < .3:
        opt['burnintime'] = rng.choice([1, 5, 10, 11, 20, 40, 1000])
        if rng.random() < .6:
            opt['burnin_scale'] = rng.choice([2., 5., 1.5])
    if rng.random() < .25:
        opt['lastadapt'] = rng.choice([0, -3, 5, 10, 20, 30, 39])
    if rng.random() < .2:
        opt['qcov_adjust'] = rng.choice([0., 1e-5, .3, 1e-12])
    idx = [i for i in range(n) if ps[i].get('sample', True)]
    eff = opt.get('ntry') or (2 if method in ('dr', 'dram') else 1)
    if rng.random() < .15 and method in ('dr', 'dram'):
        base = upper(rng, [s[i] * g for i in idx])
        rdr = [base]
        for j in range(1, max(eff, 2)):
            rdr.append([[v / (1.7**j) for v in row] for row in base] if rng.random() < .6 else
                       upper(rng, [s[i] * g / (1.7**j) for i in idx]))
        opt['rdr'] = rdr
    if rng.random() < (.95 if focus == 'C07' else .45):
        opt['updatesigma'] = True
    model = errmodel(rng, ns)
    if rng.random() < .15:
        model['N'] = [float(d['n'] if d.get('n') else len(d['x'])) for d in data] if nb > 1 else \
            float(data[0].get('n') or len(data[0]['x']))
    sc = dict(seed=rng.randint(0, 10**8), par=ps, opt=opt, model=model, data=data, target=target(rng, ps, ns),
              ncs=rng.choice([1, 1, 2, 3]), customarg=rng.random() < .7)
    if rng.random() < (.4 if focus == 'C20' else .12):
        sc['customprior'] = rng.choice(['l1', 'q4'])
    if rng.random() < .1:
        sc['target'] = dict(kind='hole', ns=ns, c=sc['target']['c'], w=sc['target']['w'],
                            at=t0s(ps)[0] + ps[0]['_s'] * rng.uniform(.05, .6), nan=rng.random() < .4)
    if rng.random() < (.95 if focus == 'C22' else .1):
        model_target(rng, sc)
    elif rng.random() < .1:
        sc['decoy'] = True
    if rng.random() < .3:
        sc['opt'].update(verbosity=rng.choice([0, 1, 2]), waitbar=rng.random() < .3,
                         printint=rng.choice([None, 0, 1, 7, 1000]))
    c = rng.random()
    if cont is None:
        cont = 0 if c < .75 else 1
    sc['runs'] = [dict(kind='fresh')]
    for _ in range(cont):
        o = {}
        if rng.random() < .4:
            o['nsimu'] = rng.choice([1, 2, 15, 30])
        if rng.random() < .15:
            o['adaptint'] = rng.choice([3, 8])
        if rng.random() < .1 and 'rdr' not in opt:
            o['ntry'] = rng.choice([1, 2, 3])
        sc['runs'].append(dict(kind='cont', opt=o))
    sc['npint'] = rng.random() < .1
    return sc


def model_target(rng, sc):
    """sum of squares from a model function: polynomial with the parameters as coefficients"""
    nb = len(sc['data'])
    t0 = t0s(sc['par'])
    for d in sc['data']:
        k = len(d['x'])
        d['x'] = [round(rng.uniform(-1, 1), 3) for _ in range(k)]
        nc = d['nc'] = rng.choice([1, 1, 1, 2, 3])
        d['aslist'] = rng.random() < .2
        d['y'] = [sum(t * x**j for j, t in enumerate(t0)) * (1 + c) + rng.uniform(-1, 1) for x in d['x'] for c in range(nc)]
        if rng.random() < .5:
            d['w'] = rng.choice([2., .5, rng.uniform(.1, 3.), 0.])
    m = errmodel(rng, nb)
    for d in sc['data']:         # a vanishing sum of squares has no proper conjugate posterior with N0 = 0
        if d.get('w') == 0. and (sc['opt'].get('updatesigma') or 'N0' in m):
            d['w'] = 1.5
    sc['model'] = m
    sc['target'] = dict(kind='model', ns=nb, flat=rng.random() < .25)
    if rng.random() < .25:
        sc['target']['nanat'] = t0[0] + sc['par'][0]['_s'] * rng.uniform(.05, .8)
    sc['customarg'] = True
    return sc


# ---------------------------------------------------------------- scripted scenarios
def exact(rng, focus=None):
    """dyadic values and scripted draws: candidates hit the limits exactly, ties happen"""
    n = rng.choice([1, 1, 2, 3])
    ps = []
    for i in range(n):
        t0 = rng.choice([0., .5, 1., -2.])
        lo = rng.choice([-INF, t0 - .5, t0 - 1., t0, t0 - 2.])
        hi = rng.choice([INF, t0 + .5, t0 + 1., t0, t0 + 2.])
        if lo == hi:
            hi = t0 + 1.
        ps.append(dict(theta0=t0, min=lo, max=hi, _s=1.))
        if rng.random() < .2 and i:
            ps[-1]['sample'] = False
    ntry = rng.choice([1, 1, 2, 3, 4])
    nsimu = rng.choice([10, 20, 30])
    method = 'dr' if ntry > 1 else rng.choice(['mh', 'dr'])
    opt = dict(nsimu=nsimu, method=method, ntry=ntry, drscale=[rng.choice([1., 2., 4., .5]) for _ in range(rng.randint(1, 4))],
               qcov=[rng.choice([.25, 1., 4.]) for _ in range(n)])
    z = [0., .5, -.5, 1., -1., 2., -2., .25, -.25, 4., -4.]
    u = [2.**-40, .125, .5, .75, .9999, 2.**-3, 1 - 2.**-40]
    m = 4 * nsimu * ntry * n
    zz = [rng.choice(z) for _ in range(m)]
    uu = [rng.choice(u) for _ in range(m)]
    k = rng.random()
    if k < .4:
        t = dict(kind='const', ns=1, v=rng.choice([0., 3.]))
    elif k < .7:
        t = dict(kind='table', ns=1, v=[rng.choice([0., 1., 2., 5., 40., 2000., INF]) if j else 1.
                                        for j in range(nsimu * ntry + 1)])
    else:
        t = target(rng, ps, rng.choice([1, 2]), sharp=rng.choice([.05, .3, 2.]))
        t.pop('cross', None)
    sc = dict(seed=rng.randint(0, 10**8), par=ps, opt=opt, model={}, data=datasets(rng, 1), target=t, ncs=1,
              exact=True, script=dict(n=zz, u=uu), runs=[dict(kind='fresh')])
    return sc


def stuck(rng, focus=None):
    """a chain that never moves (or moves in one coordinate) with dyadic values: exactly singular covariances"""
    n = rng.choice([1, 2, 2, 3])
    t0 = [rng.choice([0., .5, 1., -2., 8.]) for _ in range(n)]
    ps = [dict(theta0=t, _s=1.) for t in t0]
    mode = rng.choice(['never', 'half'])
    if mode == 'never':
        for p in ps:
            p['min'], p['max'] = p['theta0'] - 2.**-20, p['theta0'] + 2.**-20
        t = dict(kind='const', ns=1, v=1.)
    else:
        # sums of squares explode after some steps
        t = dict(kind='table', ns=1, v=[1.] * rng.randint(1, 4) + [1e9] * 400)
    if rng.random() < .3 and n > 1:
        ps[rng.randrange(n)]['adapt'] = False
    opt = dict(nsimu=rng.choice([25, 40]), method=rng.choice(['am', 'dram']), adaptint=rng.choice([5, 8, 10]),
               qcov=[4. for _ in range(n)], qcov_adjust=rng.choice([0., 0., .25, 1e-8, 2.**-10]))
    if rng.random() < .3:
        opt['burnintime'] = rng.choice([6, 12, 20])
    m = opt['nsimu'] * 3 * n
    zz = [rng.choice([1., -1., 2., -2., .5]) for _ in range(m)]
    return dict(seed=rng.randint(0, 10**8), par=ps, opt=opt, model={}, data=datasets(rng, 1), target=t, ncs=1,
                exact=mode == 'never', script=dict(n=zz, u=[.5] * m), runs=[dict(kind='fresh')])


def scripted(rng, focus=None):
    """ordinary scenario, but draws from a menu with extreme values (forces rejections, later stages, ties)"""
    sc = engine(rng, focus, cont=0)
    n = 3000
    bias = rng.choice([.2, .5, .9])
    sc['script'] = dict(n=[rng.choice([.1, -.3, .7, -1.2, 2.5, -3.]) * rng.uniform(.8, 1.2) for _ in range(n)],
                        u=[rng.choice([.999, .97, .9]) if rng.random() < bias else rng.choice([1e-6, .01, .3, .6]) *
                           rng.uniform(.9, 1.1) for _ in range(n)])
    return sc


def restart(rng, focus=None):
    """a run saved to a results file and one or two runs restarted from it"""
    sc = engine(rng, 'C04' if rng.random() < .5 else None, cont=0)
    while sc['target']['kind'] not in ('quad',) or sc['opt']['nsimu'] < 3 or \
            max(p['_s'] for p in sc['par']) > 1e4 * min(p['_s'] for p in sc['par']):    # R'R must stay positive definite in floating point
        sc = engine(rng, 'C04' if rng.random() < .5 else None, cont=0)
    sc['opt'].pop('rdr', None)
    sc['target'].pop('cross', None)
    alike = rng.sample(ALIKE, len(sc['par'])) if rng.random() < .5 and len(sc['par']) <= len(ALIKE) else None
    for i, p in enumerate(sc['par']):          # the name decides; default names depend on the position
        p.setdefault('name', 'q%d' % i)
        if alike:
            p['name'] = alike[i]
        if rng.random() < .4:
            p['mu'] = NAN
            p['sigma'] = p['_s'] * rng.uniform(.5, 2.)
    log = dict(save_to_json=True, results_filename='res.json', savedir='sv0')
    if rng.random() < .4:
        log[rng.choice(['save_to_bin', 'save_to_txt'])] = True
    if rng.random() < .2:
        log['results_filename'] = 'first'
        log['results_filename'] += '.json'
    sc['npint'] = rng.random() < .15
    runs = [dict(kind='fresh', opt=log)]
    par, tgt = sc['par'], sc['target']
    q = sc['opt'].get('qcov')                  # blocks of different runs need not make a positive definite matrix
    matrix = q is not None and len(par) > 1 and isinstance(q[0], list)
    for r in range(rng.choice([1, 1, 2])):
        order = list(range(len(par)))
        if rng.random() < .7:
            rng.shuffle(order)
        np_ = []
        for i in order:
            p = dict(par[i])
            if rng.random() < .3 and p.get('sample', True):
                p['min'] = p.get('min', -INF) - 1.
            if rng.random() < .2:
                p['theta0'] = max(p.get('min', -INF), min(p.get('max', INF), (1. if p['theta0'] is None else p['theta0']) + .01))
            if rng.random() < .15:
                p['adapt'] = False
            if rng.random() < .12 and (p.get('sample', True) or r == 0 and not matrix):     # sampled in one run, fixed in the other
                p['sample'] = not p.get('sample', True)
            np_.append(p)
        tgt = dict(tgt, c=[[row[i] for i in order] for row in tgt['c']], w=[[row[i] for i in order] for row in tgt['w']])
        par = np_
        if not any(p.get('sample', True) for p in par):
            break
        o = dict(json_restart_file='sv%d/%s' % (r, log['results_filename']), save_to_json=True,
                 results_filename=log['results_filename'], savedir='sv%d' % (r + 1))
        if rng.random() < .3:
            o['nsimu'] = rng.choice([2, 10])
        if rng.random() < .3:
            o['method'] = 'mh'
        runs.append(dict(kind='restart', par=[{k: v for k, v in p.items() if k != '_s'} for p in par], target=tgt, opt=o,
                         seed=rng.randint(0, 10**8)))
    for r in range(rng.choice([0, 0, 1, 2]) if len(runs) > 1 else 0):         # further runs of the restarted object
        runs.append(rng.choice([dict(kind='cont'), dict(kind='cont', opt=dict(nsimu=4)), dict(kind='fresh', opt=dict(nsimu=3)),
                                dict(kind='fresh', opt=dict(nsimu=5, method='mh'))]))
    sc['runs'] = runs
    return sc


def strip(sc):
    for p in sc['par']:
        p.pop('_s', None)
    return sc


def engine_mix(rng, n, focus=None):
    out = []
    for i in range(n):
        k = i % 8
        if k == 5:
            s = exact(rng, focus)
        elif k == 6:
            s = stuck(rng, focus) if focus in ('C05', None, 'any') else scripted(rng, focus)
        elif k == 7:
            s = scripted(rng, focus)
        else:
            s = engine(rng, focus, cont=rng.choice([1, 1, 2]) if focus == 'C09' else None)
        s['id'] = 'engine-%d' % i
        if 'script' not in s and i % 3 != 0:
            s['tight'] = rng.randint(0, 10**6)
        out.append(strip(s))
    return out


def menu(rng, h):
    """a behaviour of MCDram: every draw is scripted"""
    c = h['cf']
    lim = lambda v, d: d if v == 9999 else v / 4.
    n = c['np']
    ps = [dict(theta0=0., min=lim(c['lo'], -INF), max=lim(c['hi'], INF)) for _ in range(n)]
    opt = dict(nsimu=c['n'], ntry=c['ntry'], drscale=[2., 2.], qcov=[1.] * n, burnintime=c['burn'], qcov_adjust=1e-8,
               method='dram' if c['ad'] else 'dr')
    if c['ad']:
        opt['adaptint'] = c['ad']
    t = dict(kind='quad', ns=1, c=[[.25] * n], w=[[float(c['w'])] * n])
    if c['hole'] != 9999:
        t.update(kind='hole', at=c['hole'] / 4., nan=True)
    return dict(seed=rng.randint(0, 10**8), par=ps, opt=opt, model={}, data=datasets(rng, 1), target=t, ncs=1, exact=c['ad'] == 0,
                script=dict(n=[v / 4. for v in h['z']], u=[v / 64. for v in h['u']]), runs=[dict(kind='fresh')])


def restart_mix(rng, n):
    out = []
    for i in range(n):
        s = restart(rng)
        s['id'] = 'restart-%d' % i
        out.append(strip(s))
    return out


# ---------------------------------------------------------------- log files
def log_base(rng, nsimu):
    n = rng.choice([1, 1, 2, 3])
    ps = pars(rng, n, fixed=.2, tight=.3, priors=.2)
    nb = rng.choice([1, 1, 2])
    ns = rng.choice([1, nb]) if nb > 1 else rng.choice([1, 2, 3])
    opt = dict(nsimu=nsimu, method=rng.choice(['dram', 'am', 'dr', 'mh']), savedir=rng.choice(['log', 'a/b', 'out dir']))
    if rng.random() < .6:
        opt['adaptint'] = rng.choice([2, 3, 5])
    if rng.random() < .7:
        opt['qcov'] = [p['_s']**2 for p in ps]
    if rng.random() < .6:
        opt['updatesigma'] = True
    k = rng.random()
    opt['save_to_bin'] = k < .7
    opt['save_to_txt'] = k > .4
    files = dict(chain='chainfile', ss='sschainfile', s2='s2chainfile', cov='covchainfile')
    if rng.random() < .3:
        files = {a: b + '_x' for a, b in files.items()}
        opt.update(chainfile=files['chain'], sschainfile=files['ss'], s2chainfile=files['s2'], covchainfile=files['cov'])
    t = target(rng, ps, ns)
    t.pop('scalar', None)
    return dict(seed=rng.randint(0, 10**8), par=ps, opt=opt, model=errmodel(rng, ns), data=datasets(rng, nb), target=t,
                customarg=True, files=files, runs=[{}], cust=rng.random() < .3)


def log_from_hist(rng, h):
    """scenario for a behaviour of MCLog: run lengths, savesizes and the position of the crash"""
    sc = log_base(rng, h['runs'][0][0])
    sc['opt']['savesize'] = h['runs'][0][1]
    sc['runs'] = [{}] + [dict(opt=dict(nsimu=n, savesize=z)) for n, z in h['runs'][1:]]
    if h['at']:
        w = h['at'][1]
        if w > 1:          # any write of the save, in the order the code makes them
            w = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        sc['crash'] = dict(run=len(h['runs']), step=h['at'][0], w=w, how=rng.choice(['kill', 'raise']))
    else:
        n = h['runs'][0][0]
        sc['snaps'] = sorted(set(rng.randrange(n) for _ in range(2)))
    return sc


def log_random(rng, deep=False):
    """longer runs: many segments, text and binary, continued, read back, saved results"""
    nsimu = rng.choice([1, 2, 11, 12, 25, 30, 41])
    sc = log_base(rng, nsimu)
    o = sc['opt']
    o['savesize'] = rng.choice([0, 1, 1, 2, 3, 10, 12, nsimu, nsimu - 1, nsimu + 5, -1])
    if rng.random() < .7:
        o['save_to_json'] = True
        o['results_filename'] = rng.choice([None, 'r.json', 'aaa.json'])
        o['label'] = 'run 1'
        if rng.random() < .25:
            o['save_to_bin'] = o['save_to_txt'] = False
            sc['cust'] = False
    if rng.random() < .2:
        o['save_lightly'] = True
    for r in range(rng.choice([0, 0, 1, 1, 2])):
        q = dict(nsimu=rng.choice([1, 2, 5, 14]), savesize=rng.choice([0, 1, 2, 4, 7]))
        if o.get('save_to_json'):
            q['label'] = 'run %d' % (r + 2)
            q['results_filename'] = rng.choice(['r.json', 'b%d.json' % r, 'zz.json'])
            if o['results_filename'] is None:
                o['results_filename'] = 'r.json'
        sc['runs'].append(dict(opt=q))
    sc['snaps'] = sorted(set(rng.randrange(max(1, nsimu)) for _ in range(2)))
    sc['missing'] = rng.choice([[], [], ['chain'], ['ss', 'cov'], ['s2'], ['chain', 'ss', 's2', 'cov']])
    sc['export'] = rng.random() < .3
    sc['npint'] = rng.random() < .2
    if rng.random() < .25:
        ps = sc['par']
        sc['target'] = dict(kind='quad', ns=1, c=[[1e8] * len(ps)], w=[[1e-3] * len(ps)])
        sc['model'] = {}
    return sc


# ---------------------------------------------------------------- frame conditions
def frame_ops(rng, hist):
    """two simulations built from the same inputs, and a history of operations printed by MCFrame"""
    npar = rng.choice([1, 2, 3])
    fixed = rng.choice([-1, -1, 0]) if npar > 1 else -1
    nb = rng.choice([1, 1, 2])
    nc = rng.choice([1, 1, 2]) if nb == 1 else 1
    ns = rng.choice([1, nb])
    modelfun = rng.random() < .4
    if modelfun:
        ns = nb
    sc = dict(gseed=rng.randint(0, 10**6), npar=npar, nb=nb, nc=nc, ns=ns, lens=[rng.randint(3, 8) for _ in range(nb)],
              xcol=rng.random() < .5, aslist=rng.random() < .3, giveN=rng.random() < .3, qmat=rng.random() < .5 or npar == 1,
              dr_arr=rng.random() < .6, rdr=rng.random() < .25, fixed=fixed, nsamp=npar - (fixed >= 0), xtra=rng.choice([0, 1]),
              modelfun=modelfun, updatesigma=rng.random() < .7, log=rng.random() < .4, ncs=rng.choice([0, 1]), ntry=rng.choice([None, 2, 3]),
              adaptint=rng.choice([5, 10]), nsimu=[rng.choice([40, 45, 60]) for _ in range(2)],
              method=[rng.choice(['dram', 'dram', 'am', 'dr', 'mh']) for _ in range(2)], hist=hist)
    for k in ('sigma2', 'S20', 'N0'):
        if rng.random() < .5:
            sc[k] = [rng.uniform(.3, 2.) for _ in range(ns)]
            sc[k + '_arr'] = rng.random() < .6
    return sc


def frame_pair(rng, i):
    while True:
        sc = strip(engine(rng, None, cont=rng.choice([0, 0, 1])))
        sc['opt'] = {k: v for k, v in sc['opt'].items() if k not in ('verbosity', 'waitbar', 'printint')}
        if sc['target']['kind'] == 'quad' and sc['opt']['nsimu'] > 2 and not sc.get('customprior'):
            break
    V = [dict(what='repeated')]
    V.append(dict(what='output options', opt=dict(verbosity=rng.choice([0, 1, 2, 3, 20, 150]), waitbar=rng.random() < .5,
                                                  printint=rng.choice([None, 0, 1, 3, 7, 500])), prelude=[rng.randint(0, 99)]))
    V.append(dict(what='log files', opt=dict(save_to_bin=rng.random() < .7, save_to_txt=rng.random() < .6, save_to_json=rng.random() < .6,
                                             save_lightly=rng.random() < .3, savesize=rng.choice([0, 1, 2, 7, 50]), savedir='d%d' % rng.randint(0, 9),
                                             chainfile='c_x', results_filename=rng.choice([None, 'q.json']), label='lab')))
    V.append(dict(what='custom samplers and display', ncs=rng.choice([1, 2, 3]), disp=True, opt=dict(verbosity=rng.choice([0, 2])), prelude=[1, 2]))
    if i % 12 == 0:
        V.append(dict(what='other process', hashseed=rng.randint(1, 1000)))
    sc['variants'] = V
    sc['id'] = 'pair-%d' % i
    return sc


# ---------------------------------------------------------------- statistics of chains
NAMES = ['alpha', 'b', 'gamma_long_name', '$x_1$', 'q 2', 'a:b']
ALIKE = ['k', 'K', 'k1', 'k10', 'k_1', 'kk', '1k', '$k$']      # parts and variants of each other


def stats(rng):
    npar = rng.choice([1, 1, 2, 3, 4])
    ck = dict(rho=rng.choice([0., .5, .9, -.5]), acc=rng.choice([1., .6, .3]), drift=rng.choice([0., 0., 2.]),
              scale=[rng.choice([1., 1e-3, .1, 20., 3e3, 2e-8, 6e7]) for _ in range(4)], off=[rng.choice([0., 0., 1., -3., 50.]) for _ in range(4)])
    for j in range(4):
        ck['off'][j] *= ck['scale'][j] * rng.choice([1., .1])
    names = rng.sample(NAMES if rng.random() < .7 or npar > len(ALIKE) else ALIKE, npar)
    if rng.random() < .25:
        names = names[:rng.randint(0, npar - 1)]
    sc = dict(seed=rng.randint(0, 10**8), npar=npar, ck=ck, names=names, res=rng.random() < .7)
    if rng.random() < .4:
        sc.update(kind='gr', n=rng.choice([2, 3, 10, 11, 50, 80]), nch=rng.choice([2, 2, 3, 5]), dicts=rng.random() < .3, display=rng.random() < .5)
        if sc['dicts']:
            sc['n'] = max(6, sc['n'])
        ck['acc'] = 1.
        sc['shift'] = [[rng.choice([0., 0., .5, 3.]) * ck['scale'][j] for j in range(4)] for _ in range(sc['nch'])]
        if rng.random() < .3:
            sc['given'] = rng.sample(NAMES, npar)
    else:
        n = rng.choice([40, 41, 57, 79, 100, 119, 199, 200, 201, 213, 240, 333, 400])
        if rng.random() < .08:
            n = rng.choice([700, 1003, 2000])
            ck['rho'] = rng.choice([.9, .999])
        sc.update(kind='chain', n=n, sub=rng.random() < .2, recur=rng.random() < .1)
        sc['constcol'] = rng.randrange(npar) if npar > 1 and rng.random() < .15 else None
        if sc['constcol'] == 0:
            sc['constcol'] = None
        sc['bm'] = [rng.choice([1, 2, 3, 7, n // 2, 19]) for _ in range(2)]
        sc['gw'] = [rng.choice([[.1, .5], [.2, .3], [.3, .6], [.15, .7], [.4, .55]])]
        if sc['res'] and rng.random() < .7:
            tot = n * rng.choice([1, 2])
            a = [rng.randint(0, tot // 2)] + [rng.randint(0, tot // 8) for _ in range(rng.choice([0, 1, 2]))]
            sc['iacce'], sc['nsimu'] = a, rng.choice([tot, None]) if tot == n else tot
    return sc


# ---------------------------------------------------------------- plots
def plots(rng):
    base = stats(rng)
    kind = rng.choice(['chain', 'chain', 'pairs', 'pairs', 'hist', 'density', 'metrics', 'util'])
    npar = rng.choice([1, 2, 3, 4, 5, 6, 7]) if kind != 'pairs' else rng.choice([2, 3, 4])
    if kind in ('density', 'util'):
        npar = min(npar, 3)
    if kind == 'metrics':
        npar = 1
    names = rng.sample(NAMES if rng.random() < .7 else ALIKE, min(npar, len(NAMES)))
    r = rng.random()
    if r < .2:
        names = None
    elif r < .4:
        names = names[:rng.randint(0, npar - 1)]
    ck = base['ck']
    for k in ('scale', 'off'):
        ck[k] = (ck[k] * 2)[:max(npar, 4)]
    n = rng.choice([7, 12, 40, 99, 100, 101, 200, 201, 250, 301])
    sc = dict(kind=kind, seed=base['seed'], n=n, npar=npar, names=names, ck=ck, skip=rng.choice([1, 1, 2, 3, 7]),
              maxpoints=rng.choice([500, 500, n, n - 1, n // 2, n // 3, 10, 50]), passall=rng.random() < .3,
              histon=rng.random() < .5, npts=[rng.choice([2, 10, 100, 33])], row=rng.random() < .3, ndp=rng.choice([100, 9, 40]),
              ell=[rng.choice(['ok', 'ok', 'indef', 'asym']) for _ in range(2)])
    sc['maxpoints'] = max(1, sc['maxpoints'])
    if kind == 'density':
        ck['acc'] = 1.
    if kind in ('density', 'util') and n > 20 and rng.random() < .25:        # rarely moving chain: no interquartile range
        ck['stuck'], ck['drift'] = True, 0.
    return sc


# ---------------------------------------------------------------- intervals
def intervals(rng):
    kind = rng.choice(['pi', 'prop'])
    nb = rng.choice([1, 1, 2, 3]) if kind == 'pi' else 1
    ncol = [rng.choice([1, 1, 1, 2, 3, 4]) for _ in range(nb)]
    sc = dict(kind=kind, seed=rng.randint(0, 10**8), nb=nb, ncol=ncol, nrow=[rng.randint(2, 4) for _ in range(nb)],
              shape=rng.choice(['vec', 'col', 'col']), script=[], again=rng.choice([0, 0, 1]), mlist=rng.random() < .3, wbar=rng.random() < .2,
              rep=False, load=False)
    npar = rng.randint(1, 4)
    sc['theta'] = [round(rng.uniform(-1, 2), 3) for _ in range(npar)]
    sc['fixed'] = sorted(rng.sample(range(npar), rng.randint(0, npar - 1)))
    sc['n'] = n = rng.choice([2, 3, 5, 8, 20, 45, 60])
    sc['burn'] = rng.choice([0, 0, 1, n // 2]) if n > 4 else 0
    left = n - sc['burn']
    sc['nsample'] = rng.choice([2, left - 1, left, left + 1, left + 500, max(2, left // 2), max(2, left - 1)])
    sc['nsample'] = max(2, sc['nsample'])
    if rng.random() < .3:
        sc['script'] = [rng.choice([1e-12, .999999999, .5000001, .25000001, rng.random()]) for _ in range(sc['nsample'])]
    tot = sum(ncol)
    sc['ty'] = rng.choice([0, 1, 2])
    sc['real'] = rng.random() < .25
    if kind == 'pi':
        if sc['shape'] == 'row':
            sc['shape'] = 'col'
        sc['ns2'] = rng.choice([0, 1, 1, tot, tot, nb])
        if sc['real'] and sc['ns2'] > 1 and nb > 1:
            sc['ns2'] = nb
        sc['pplot'] = rng.choice([None, None, 'all', 'cred'])
        sc['want'] = rng.choice([True, True, True, False, 'on', 'off'])
        sc['ty'] = rng.choice([None, None, None, 0, 0, 1, 2])
        if not sc['real'] and sc['ty'] is None:
            sc['res_ty'] = rng.choice([None, 0, 1, 2])
        if rng.random() < .15:
            sc['nsample'] = None
            sc['script'] = []
        sc['load'] = sc['real'] and rng.random() < .5
    else:
        sc['shape'] = rng.choice(['vec', 'col', 'row'])
        sc['ns2'] = 1
        q = ncol[0]
        sc['s2form'] = rng.choice([None, 'float', 'flat', 'chain1'] + (['perq', 'perq2', 'chainq', 'chainq'] if q > 1 and left != q else ['chainq']))
        sc['p'] = sorted(rng.sample([0., .025, .1, .25, .333, .5, .75, .9, .975, 1.], rng.randint(1, 4)))
        sc['load'] = sc['real'] and rng.random() < .5
        if rng.random() < .5:
            L = lambda: rng.sample([50, 90, 95, 99, 20, 75], rng.randint(1, 3))    # noqa: E731
            sc['plot'] = dict(limits=L(), addp=rng.random() < .8, addc=rng.random() < .8, three=rng.random() < .35,
                              nomodel=rng.random() < .2, obs=rng.choice([None, 'same', 'own', 'few', 'many']), flag=rng.choice([True, True, None, False]), defp=rng.random() < .5)
            if rng.random() < .4:
                sc['plot']['ci'] = L()
            if rng.random() < .4:
                sc['plot']['pi'] = L()
        else:
            sc['plot'] = None
    if not sc['real']:
        sc['rep'] = rng.random() < .3 and left <= (sc['nsample'] or left)
    if sc['real']:
        sc['n'] = max(sc['n'], 5)
        if sc['nsample'] is not None and sc['nsample'] < sc['n'] - sc['burn']:
            sc['nsample'] = sc['n'] + 3
    return sc


# ---------------------------------------------------------------- parallel simulations
def parallel_starts(rng):
    """set-up only: many drawn starting points, some limits infinite"""
    sc = parallel(rng)
    for p, c in zip(sc['par'], sc['center']):
        p.pop('min', None)
        p.pop('max', None)
        w = rng.choice([.1, 3., 500.])
        if rng.random() < .7:
            p['min'] = round(p['theta0'] - w * rng.choice([0., .5, 1.]), 4)
        if rng.random() < .7:
            p['max'] = round(p['theta0'] + w * rng.choice([.5, 1.]), 4)
    sc.update(given=None, nchain=80, setuponly=True, ok=True, restart=None, fail=None)
    return sc


def parallel(rng, hist=None):
    """hist: a schedule of the pool (number of chains, workers, order of finishing)"""
    npar = rng.choice([1, 2, 2, 3])
    nm = rng.sample(NAMES, npar)
    center = [round(rng.uniform(-2, 2), 3) for _ in range(npar)]
    par = []
    for j in range(npar):
        p = dict(name=nm[j], theta0=round(center[j] + rng.uniform(-.5, .5), 3))
        if rng.random() < .7 or hist is None:
            w = rng.choice([6., 20.]) if hist is not None else rng.choice([.8, 2., 20.])
            p.update(min=round(center[j] - w, 3), max=round(center[j] + w * rng.choice([1., .8]), 3))
        elif rng.random() < .5:
            p['min'] = round(center[j] - 10., 3)
        if 'max' not in p and rng.random() < .5:        # limits need not be near the declared value
            p['theta0'] = rng.choice([0., 1e-3, -1e-4])
        if rng.random() < .3:
            p.update(mu=rng.choice(['nan', round(center[j] + .3, 3)]), sigma=rng.choice([.5, 2.]))
        if j > 0 and rng.random() < .25:
            p['sample'] = False
        par.append(p)
    nsimu = rng.choice([12, 20, 33, 45])
    opt = dict(method=rng.choice(['mh', 'mh', 'am', 'dr', 'dram']), updatesigma=rng.random() < .4)
    if hist is not None and opt['method'] in ('dr', 'dram'):
        opt['method'] = rng.choice(['mh', 'am'])
    if rng.random() < .6:
        opt['qcov'] = [[(.3**2 if a == b else 0.) for b in range(npar)] for a in range(npar)]
    if rng.random() < .3:
        opt['adaptint'] = rng.choice([5, 10, 50])
    fm = rng.choice([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 0, 1), (0, 1, 1)])
    opt.update(save_to_bin=bool(fm[0]), save_to_txt=bool(fm[1]), save_to_json=bool(fm[2]))
    if (fm[0] or fm[1]) and fm[2] and rng.random() < .5:
        opt['save_lightly'] = True
    if rng.random() < .5:
        opt['savesize'] = rng.choice([4, 7, nsimu])
    if rng.random() < .25:
        opt['chainfile'] = 'mychain'
    only = hist is None and rng.random() < .3           # set up without running
    n = hist['n'] if hist else rng.choice([1, 2, 3, 4, 6] + only * [12])
    sc = dict(par=par, center=center, width=rng.choice([.3, 1.]), nsimu=nsimu, opt=opt, seed=rng.randint(0, 10**6), ok=True,
              savedir=rng.choice(['out', 'a/b', 'results']), predir=rng.random() < .3, timeout=60,
              x=[0., 1., 2., 3.], y=[1., 2., 1.5, .5], model=dict(N=4) if rng.random() < .5 else {},
              cores=hist['w'] if hist else rng.choice([1, 2, 3, 64]), cust=rng.random() < .3, udo=rng.random() < .4)
    sc['more'] = not sc['model'] and rng.random() < .4
    if rng.random() < .4:
        sc['model'].update(N0=rng.choice([1, 3]), S20=rng.choice([.5, 2.]), sigma2=rng.choice([.4, 1.5]))
    if hist:
        sc['fin'] = hist['fin']
        if hist.get('bad'):
            sc['fail'] = [hist['bad'], rng.choice([1, 2, 5, 12]), rng.choice(['exit', 'error'])]
            sc['timeout'] = 20

    def row():
        r = []
        for j, p in enumerate(par):
            lo, hi = max(p.get('min', -99.), center[j] - 2.), min(p.get('max', 99.), center[j] + 2.)
            v = round(lo + (hi - lo) * rng.random(), 4)
            if hist is None and rng.random() < .1 and 'min' in p:
                v = rng.choice([p['min'], p['max']])
            r.append(v)
        return r
    if hist is None and rng.random() < .4 or all(p.get('sample') is False for p in par):
        sc['given'], sc['nchain'] = None, n
        for p, c in zip(par, center):
            p.setdefault('min', c - 5.)
            p.setdefault('max', c + 5.)
    else:
        rows = []
        while len(rows) < n:
            r = row()
            if r not in rows:
                rows.append(r)
        sc['given'], sc['nchain'] = rows, n if rng.random() < .7 else rng.choice([1, n + 2])
        if rng.random() < .2:
            sc['given'] = [r + [9.] for r in rows]
        if hist is None and rng.random() < .45:
            k, j = rng.randrange(n), rng.randrange(npar)
            p = par[j]
            if 'min' in p and 'max' in p:
                sc['given'][k][j] = rng.choice([p['min'] - rng.choice([1e-6, .5]), p['max'] + rng.choice([1e-6, .5])])
                sc['ok'] = False
    if only:
        sc['setuponly'] = True
    if sc['ok'] and not sc.get('setuponly') and not sc.get('fail') and rng.random() < .12:
        sc['restart'] = True
        sc['opt'].pop('qcov', None)
    elif sc['ok'] and not sc.get('setuponly') and rng.random() < .1:
        sc['fail'] = [rng.randint(1, n), rng.choice([1, 2, 5]), rng.choice(['exit', 'error'])]
        sc['timeout'] = 20
    return sc


def pardirs(rng):
    nums = sorted(rng.sample(range(0, 13), rng.choice([0, 1, 2, 3, 5, 8, 12])))
    if rng.random() < .6:
        nums = list(range(rng.choice([1, 2, 3, 11, 12, 13])))
    if rng.random() < .1:
        nums = rng.sample([0, 1, 2, 9, 10, 11, 99, 100, 101, 1000], 5)
    style = rng.choice(['json', 'log', 'mixed'])
    es = []
    for k in nums:
        js = style == 'json' or style == 'mixed' and rng.random() < .5
        es.append(dict(kind='chain', num=k, dir=True, n=rng.choice([1, 2, 5, 9, 10, 17, 20]), json=js, log=not js or rng.random() < .5,
                       parts=rng.choice([1, 1, 2, 3, 12]), missing=rng.choice([[], [], ['s2chain'], ['covchain'], ['sschain', 's2chain']])))
    other = ['my_chain_backup', 'chain_old', 'old_chain_1', 'chain_1_copy', 'chain', 'notes', 'figures', 'chain_a1', '.cache', 'chain_0.bak', 'Chain_3']
    for nme in rng.sample(other, rng.choice([0, 1, 2, 3])):
        es.append(dict(kind='other', name=nme, dir=rng.random() < .7, full=rng.random() < .5, n=3, json=True, log=True, parts=1, missing=[]))
    if rng.random() < .3:
        k = rng.choice([x for x in range(14) if x not in nums] or [77])
        es.append(dict(kind='chain', num=k, dir=False))
    rng.shuffle(es)
    return dict(entries=es, npar=rng.choice([1, 2, 3]), ns=rng.choice([1, 1, 2]), ext=rng.choice(['h5', 'txt']), seed=rng.randint(0, 10**8),
                names=dict(chain='chainfile', sschain='sschainfile', s2chain='s2chainfile', covchain='covchainfile') if rng.random() < .6 else
                dict(chain='c', sschain='ss', s2chain='s2', covchain='cov'), pct=rng.sample([0, 1, 25, 50, 66, 67, 101, 120, 150, 199, 200], 3))


# ---------------------------------------------------------------- sessions
def session(rng, hist):
    """one object, many runs: parameters and options around a history of MCSession"""
    n = rng.choice([1, 2, 2, 3])
    fixed = [j for j in range(n) if rng.random() < .25]
    if len(fixed) == n:
        fixed = fixed[1:]
    par = []
    for j in range(n):
        p = dict(name='p%d' % j, theta0=rng.choice([.5, 1., 1.25, 0.]) + .25 * j, sample=j not in fixed)
        if rng.random() < .4:
            p['prior_mu'], p['prior_sigma'] = rng.choice([NAN, 0.]), rng.choice([1., 2.])
        par.append(p)
    opt = dict(method=rng.choice(['mh', 'am', 'dr', 'dram']))
    if opt['method'] in ('am', 'dram'):
        opt['adaptint'] = rng.choice([2, 3])
    return dict(hist=hist, par=par, idx=[j for j in range(n) if j not in fixed], opt=opt, kbd=rng.random() < .4, scalar=rng.random() < .5, flat=rng.random() < .3)
