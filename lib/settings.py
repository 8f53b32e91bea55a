"""Replay declarations enumerated by SettingsGen.tla into the real code."""
import json
import os
import shutil
import tempfile

import engine
from engine import fl, quiet, MCMC, REC, Observer
import numpy as np


def num(s):
    return None if s == '' else float(s)


def ints(s):
    return None if s == '' else int(s)


class Draws:
    """counts random draws until the first failure"""
    def __enter__(self):
        REC.reset()
        REC.getR = None
        REC.nq, REC.uq = [], []
        REC.active = True
        return self

    def __exit__(self, *a):
        REC.active = False
        self.n = len(REC.d) + sum(len(s['d']) for s in REC.steps)
        return False


def attempt(m):
    """run; -> (refused, text, number of draws)"""
    err = None
    with quiet(), Draws() as dr:
        try:
            m.run_simulation()
        except (Exception, SystemExit) as ex:
            err = '%s: %s' % (type(ex).__name__, str(ex)[:200])
    return err is not None, err, dr.n


def opt_decl(d):
    o = d
    kw = dict(method=o['method'], waitbar=False, verbosity=0, nsimu=int(o['nsimu']), savesize=int(o['savesize']),
              lastadapt=int(o['lastadapt']), updatesigma=o['updatesigma'], save_to_json=o['save_to_json'],
              save_to_bin=o['save_to_bin'], save_to_txt=o['save_to_txt'], save_lightly=o['save_lightly'],
              savedir='log', results_filename='res.json')
    for k in ('adaptint', 'ntry', 'printint'):
        if o[k] != '':
            kw[k] = int(o[k])
    if o['adascale'] != '':
        kw['adascale'] = float(o['adascale'])
    kept = dict(chainfile='cc', s2chainfile='ss2', sschainfile='sss', covchainfile='vv', burnintime=7, burnin_scale=3.,
                qcov_adjust=1e-3, label='lab') if o['extra'] else {}
    kw.update(kept)
    m = MCMC(rngseed=1)
    m.data.add_data_set(np.arange(4.), np.arange(4.))
    m.simulation_options.define_simulation_options(**kw)
    ms = dict(sos_function=lambda q, dd: np.array([np.sum(q**2) + 1.]))
    if o['N0'] != '':
        ms['N0'] = float(o['N0'])
    m.model_settings.define_model_settings(**ms)
    for i in range(2):
        m.parameters.add_model_parameter(name='p%d' % i, theta0=.5, maximum=1.)
    ref, err, nd = attempt(m)
    raw = dict(method=o['method'], adaptint=ints(o['adaptint']), ntry=ints(o['ntry']), adascale=num(o['adascale']),
               nsimu=int(o['nsimu']), savesize=int(o['savesize']), lastadapt=int(o['lastadapt']),
               printint=ints(o['printint']), updatesigma=o['updatesigma'], save_to_json=o['save_to_json'],
               save_to_bin=o['save_to_bin'], save_to_txt=o['save_to_txt'], save_lightly=o['save_lightly'])
    tr = dict(kind='opt', opt=raw, model=dict(N0=None if o['N0'] == '' else [float(o['N0'])]), np=2, refused=ref, err=err)
    if ref:
        return tr
    res = m.simulation_results.results
    so = res['simulation_options']
    obs = {k: int(so[k]) for k in ('adaptint', 'ntry', 'nsimu', 'savesize', 'lastadapt', 'printint')}
    obs['updatesigma'] = bool(so['updatesigma'])
    obs['s2'] = res['s2chain'] is not None
    obs['light'] = bool(so['save_lightly'])
    obs['method'] = so['method']
    obs['scale'] = float(res['qcov_scale'])
    obs['rows'] = int(np.asarray(res['chain']).shape[0])
    obs['json'] = None
    f = os.path.join('log', 'res.json')
    if os.path.exists(f):
        obs['json'] = 'chain' in json.load(open(f))
    obs['bin'] = os.path.exists('log/%s.h5' % so['chainfile'])
    obs['txt'] = os.path.exists('log/%s.txt' % so['chainfile'])
    obs['kept'] = [[k, repr(v), repr(so[k])] for k, v in kept.items()]
    tr['obs'] = obs
    return tr


def par_decl(d):
    m = MCMC(rngseed=1)
    m.data.add_data_set(np.arange(4.), np.arange(4.))
    m.simulation_options.define_simulation_options(nsimu=2, waitbar=False, verbosity=0, method='mh')
    evs = []

    def sos(q, dd):
        evs.append(fl(q))
        return np.array([np.sum(q**2) + 1.])
    m.model_settings.define_model_settings(sos_function=sos)
    raw = []
    for i, p in enumerate(d):
        kw = dict(sample=p['sample'])
        if p['named']:
            kw['name'] = 'nm%d' % i
        for a, b in (('theta0', 'theta0'), ('min', 'minimum'), ('max', 'maximum'), ('mu', 'prior_mu'), ('sigma', 'prior_sigma')):
            if p[a] != '':
                kw[b] = float(p[a])
        m.parameters.add_model_parameter(**kw)
        raw.append(dict(name=kw.get('name'), theta0=num(p['theta0']), min=float(p['min']), max=float(p['max']),
                        mu=float(p['mu']), sigma=float(p['sigma']), sample=p['sample'], adapt=True))
    ref, err, nd = attempt(m)
    tr = dict(kind='par', par=raw, refused=ref, err=err, draws=nd)
    if ref:
        return tr
    res = m.simulation_results.results
    tr['obs'] = dict(q0=evs[0], row=fl(np.asarray(res['chain'])[0]), names=list(res['names']), allnames=list(res['allnames']),
                     lo=fl(res['limits'][0]), hi=fl(res['limits'][1]), mu=fl(res['prior']['mu']), sig=fl(res['prior']['sigma']))
    return tr


def vec(s):
    return None if not s else np.array([float(v) for v in s]) if len(s) > 1 else float(s[0])


def model_decl(d):
    m = MCMC(rngseed=1)
    for n in d['dn']:
        k = int(float(n))
        m.data.add_data_set(np.arange(k) * 1., np.arange(k) * 1.)
    m.simulation_options.define_simulation_options(nsimu=2, waitbar=False, verbosity=0, method='mh', updatesigma=d['updatesigma'])
    ns = d['ns']
    ms = dict(sos_function=(lambda q, dd: float(np.sum(q**2)) + 1.) if d['scalar'] else
              (lambda q, dd: np.sum(q**2) + 1. + np.arange(ns)))
    raw = {}
    for k in ('sigma2', 'S20', 'N0', 'N'):
        raw[k] = [float(v) for v in d[k]] if d[k] else None
        if d[k]:
            ms[k] = vec(d[k])
    m.model_settings.define_model_settings(**ms)
    m.parameters.add_model_parameter(name='a', theta0=.5)
    ref, err, nd = attempt(m)
    tr = dict(kind='model', model=raw, dn=[float(v) for v in d['dn']], ns=ns, updatesigma=d['updatesigma'], refused=ref, err=err, draws=nd)
    if ref:
        return tr
    res = m.simulation_results.results
    mo = res['model_settings']
    tr['obs'] = {k: fl(np.ravel(mo[k])) for k in ('sigma2', 'S20', 'N0', 'N')}
    tr['obs']['nsos'] = int(mo['nsos'])
    tr['obs']['s2'] = None if res['s2chain'] is None else fl(np.asarray(res['s2chain'])[0])
    return tr


FN = dict(opt=opt_decl, par=par_decl, model=model_decl)


def run_decl(sc):
    work = tempfile.mkdtemp(prefix='verif_set_')
    cwd = os.getcwd()
    try:
        os.chdir(work)
        return FN[sc['kind']](sc['d'])
    finally:
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)
