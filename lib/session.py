"""Replay sessions enumerated by MCSession.tla: declarations, fresh, continued, refused and interrupted runs of one object."""
import os
import shutil
import tempfile

import engine
from engine import fl, quiet, MCMC
import numpy as np


class Stop(Exception):
    pass


class Fns:
    """the user's functions: count their calls, record the points, stop at a given evaluation"""
    def __init__(self, sc):
        self.sc = sc
        self.begin(0)

    def begin(self, stop):
        self.stop, self.nsos, self.nmod, self.pts, self.sets = stop, 0, 0, [], []

    def seen(self, q):
        self.pts.append(fl(np.array(q, dtype=float)[self.sc['idx']]))
        if self.stop and len(self.pts) == self.stop:
            raise (KeyboardInterrupt if self.sc['kbd'] else Stop)()

    def model(self, x, q):
        self.nmod += 1
        x = np.asarray(x, float)
        self.sets.append(int(round(x.ravel()[0])) + 1)        # x of data set k starts at k
        if self.sets[-1] == 1:
            self.seen(q)
        y = self.f(x, q)
        return y.ravel() if self.sc['flat'] else y

    def f(self, x, q):
        return sum(v * x**j for j, v in enumerate(q))

    def sos(self, q, data):
        self.nsos += 1
        self.seen(q)
        v = sum(np.sum((y - self.f(x, q))**2) for x, y in zip(data.xdata, data.ydata))
        return float(v) if self.sc['scalar'] else np.array([v])


def declare(m, f, fn, n0, sc):
    kw = {}
    if fn in ('sos', 'both', 'bad'):
        kw['sos_function'] = f.sos
    if fn in ('model', 'both'):
        kw['model_function'] = f.model
    kw['sigma2'] = np.array([.1, .1, .1]) if fn == 'bad' else .1
    if n0:
        kw['N0'] = 1
    m.model_settings.define_model_settings(**kw)


def results(m):
    r = getattr(m.simulation_results, 'results', None) if getattr(m, 'simulation_results', None) is not None else None
    if not r or 'chain' not in r:
        return None
    def rows(a):
        return [fl(v) for v in np.asarray(a)]
    return dict(chain=rows(r['chain']), ss=rows(r['sschain']), s2=None if r['s2chain'] is None else rows(r['s2chain']),
                N=[int(v) for v in np.atleast_1d(r['model_settings']['N'])])


def run_session(sc):
    work, cwd = tempfile.mkdtemp(prefix='verif_ses_'), os.getcwd()
    try:
        os.chdir(work)
        m = MCMC(rngseed=3)
        n, upd, nd = 4, False, 0

        def add(k):
            x = nd + np.linspace(0., .9, k)
            m.data.add_data_set(x, 1. + .5 * x)
            return nd + 1
        nd = add(6)

        def options():
            m.simulation_options.define_simulation_options(nsimu=n, updatesigma=upd, waitbar=False, verbosity=0, **sc['opt'])
        options()
        f = Fns(sc)
        declare(m, f, 'none', False, sc)
        for p in sc['par']:
            m.parameters.add_model_parameter(**p)
        ev = []
        for o in sc['hist']:
            e = dict(o=o)
            if o['op'] == 'def':
                declare(m, f, o['fn'], o['n0'], sc)
            elif o['op'] == 'opt':
                n, upd = o['n'], o['upd']
                options()
            elif o['op'] == 'data':
                nd = add(o['n'])
            else:
                e['seed'] = 10 + o['id'] if o['cont'] else 5
                np.random.seed(e['seed'])
                f.begin(o['stop'])
                e['out'] = 'ok'
                with quiet():
                    try:
                        m.run_simulation(use_previous_results=o['cont'])
                    except (Stop, KeyboardInterrupt):
                        e['out'] = 'stopped'
                    except SystemExit:
                        e['out'] = 'refused'
                    except Exception as ex:
                        e['out'] = 'error: ' + type(ex).__name__ + ' ' + str(ex)[:80]
                e.update(res=results(m), nsos=f.nsos, nmod=f.nmod, pts=f.pts, sets=f.sets)
            ev.append(e)
        return dict(ev=ev, theta0=[fl([sc['par'][j]['theta0']])[0] for j in sc['idx']], runs=[1])
    finally:
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)
