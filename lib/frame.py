"""Histories of operations (Frame.tla) replayed into the real code: what changes, and what the chains depend on."""
import glob
import hashlib
import inspect
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

import engine
from engine import quiet, MCMC, fl
from rec import Observer
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt   # noqa: E402

from pymcmcstat.chain import ChainProcessing as CP   # noqa: E402
from pymcmcstat.chain import ChainStatistics as CS   # noqa: E402
from pymcmcstat import propagation as UP             # noqa: E402
from pymcmcstat.ParallelMCMC import ParallelMCMC     # noqa: E402
from pymcmcstat.plotting import utilities as PU      # noqa: E402


# ---------------------------------------------------------------- digests
def feed(h, x, seen):
    if isinstance(x, np.ndarray):
        h.update(('A%s%s' % (x.dtype, x.shape)).encode())
        if x.dtype == object:
            for v in x.ravel():
                feed(h, v, seen)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (bool, int, str, bytes, type(None), np.generic)):
        h.update(('S%s%r' % (type(x).__name__, x)).encode())
    elif isinstance(x, float):
        h.update(('F' + x.hex()).encode())
    elif isinstance(x, (list, tuple)):
        h.update(('L%d' % len(x)).encode())
        for v in x:
            feed(h, v, seen)
    elif isinstance(x, dict):
        h.update(('D%d' % len(x)).encode())
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k], seen)
    elif callable(x):
        h.update(b'C')
    elif hasattr(x, '__dict__') and id(x) not in seen:
        h.update(('O' + type(x).__name__).encode())
        feed(h, {k: v for k, v in vars(x).items()}, seen | {id(x)})
    else:
        h.update(('?' + type(x).__name__).encode())


def digest(x):
    h = hashlib.sha1()
    feed(h, x, frozenset())
    return h.hexdigest()[:16]


DATA = ('xdata', 'ydata', 'weight', 'user_defined_object', 'n', 'shape')


def public(o, names):
    """the settings a user can see: attributes named like the arguments of the defining method"""
    if callable(names):
        names = list(inspect.signature(names).parameters)
    return {k: getattr(o, k, None) for k in names}


# ---------------------------------------------------------------- world
class World:
    """inputs of the user, two simulations built from them, all results so far"""
    def __init__(self, sc):
        self.sc = sc
        g = np.random.RandomState(sc['gseed'])
        nb, ns, npar = sc['nb'], sc['ns'], sc['npar']
        lens = sc['lens']
        u = {}
        for b in range(nb):
            u['x%d' % b] = np.linspace(0., 1., lens[b]).reshape(lens[b], 1) if sc['xcol'] else np.linspace(0., 1., lens[b])
            y = .5 + g.rand(lens[b], sc['nc']) + np.arange(lens[b])[:, None] * .1
            u['y%d' % b] = y if sc['nc'] > 1 or sc['xcol'] else y[:, 0]
        if sc['aslist']:
            u['x0'], u['y0'] = u['x0'].ravel().tolist(), u['y0'].tolist()
        u['udo'] = dict(a=np.arange(3.), b=[1, 2])
        for k in ('sigma2', 'S20', 'N0'):
            if sc.get(k):
                u[k] = np.array(sc[k]) if sc[k + '_arr'] else list(sc[k])
        if sc['giveN']:
            u['N'] = np.array([float(v) for v in lens])
        u['qcov'] = np.diag([.01 * (j + 1) for j in range(npar)]) if sc['qmat'] else np.array([.01 * (j + 1) for j in range(npar)])
        u['drscale'] = np.array([3., 2.]) if sc['dr_arr'] else [3., 2.]
        if sc['rdr']:
            u['RDR'] = [np.eye(sc['nsamp']) * .1, np.eye(sc['nsamp']) * .03, np.eye(sc['nsamp']) * .01]
        u['pnames'] = ['only']
        u['ivals'] = .5 + .4 * g.rand(3, npar + sc['xtra'])
        u['limits'] = [50, 95, 90]
        u['ciset'] = dict(limits=[30, 99], colors=['r', 'g'])
        u['piset'] = dict(limits=[60, 80])
        u['disp'] = dict(linewidth=3)
        u['fig'] = [4, 3]
        u['col'] = g.rand(30, 1)
        u['s2arr'] = np.array([.1] * (sc['nc'] if sc['nc'] > 1 else 1))
        u['lims'] = np.array([.1, .5, .9])
        u['theta0'] = np.array([.7 + .1 * j for j in range(npar)])
        u['mu'] = np.array([.6 + .1 * j for j in range(npar)])
        self.u = u
        self.before = [['user/' + k, digest(v)] for k, v in u.items()]
        self.m = {}
        self.res = {1: [], 2: []}
        for k in (1, 2):
            self.m[k] = self.build(k)

    def __deepcopy__(self, memo):
        return self

    def build(self, k):
        sc, u = self.sc, self.u
        m = MCMC(rngseed=k)
        for b in range(sc['nb']):
            m.data.add_data_set(u['x%d' % b], u['y%d' % b], user_defined_object=u['udo'])
        o = dict(nsimu=sc['nsimu'][k - 1], method=sc['method'][k - 1], adaptint=sc['adaptint'], qcov=u['qcov'],
                 drscale=u['drscale'], updatesigma=sc['updatesigma'], waitbar=False, verbosity=0, ntry=sc['ntry'],
                 savedir='dir%d' % k, save_to_bin=sc['log'], save_to_txt=sc['log'], savesize=10, results_filename='r%d.json' % k)
        if sc['rdr']:
            o['RDR'] = u['RDR']
        m.simulation_options.define_simulation_options(**o)
        ms = {a: u[a] for a in ('sigma2', 'S20', 'N0', 'N') if a in u}
        if sc['modelfun']:
            ms['model_function'] = self.modelfun
        else:
            ms['sos_function'] = self.sos
        m.model_settings.define_model_settings(**ms)
        for j in range(sc['npar']):
            m.parameters.add_model_parameter(name='p%d' % j, theta0=u['theta0'][j], minimum=-5., maximum=5.,
                                             prior_mu=u['mu'][j], prior_sigma=3., sample=j != sc['fixed'])
        if sc['ncs']:
            m.custom_samplers.append(Passive())
        return m

    def modelfun(self, x, q):
        x = np.asarray(x, float).ravel()
        y = sum(q[j] * x**j for j in range(len(q)))
        return np.column_stack([y * (c + 1) for c in range(self.sc['nc'])])

    def sos(self, q, data, custom=None):
        ss = []
        for b in range(self.sc['nb']):
            y = np.asarray(data.ydata[b]).reshape(len(data.xdata[b]), -1)
            ss.append(np.sum((y - self.modelfun(data.xdata[b], q))**2))
        ss = np.array(ss)
        return ss if self.sc['ns'] == self.sc['nb'] else np.array([ss.sum()])

    def cells(self):
        out = [['user/' + k, digest(v), 'user'] for k, v in self.u.items()]
        for k in (1, 2):
            m = self.m[k]
            out.append(['set/%d' % k, digest([public(m.data, DATA), public(m.simulation_options, m.simulation_options.define_simulation_options),
                                              public(m.model_settings, m.model_settings.define_model_settings),
                                              m.parameters.parameters]), 'set'])
            for n, r in enumerate(self.res[k]):
                out.append(['res/%d/%d' % (k, n + 1), digest({a: b for a, b in r.items()}), 'res'])
        return out

    # ------------------------------------------------------------ operations
    def run(self, k, seed, cont):
        np.random.seed(seed)
        if not cont:                       # a fresh run into a directory with old files is outside the specification
            shutil.rmtree('dir%d' % k, ignore_errors=True)
        self.m[k].run_simulation(use_previous_results=cont)
        self.res[k].append(self.m[k].simulation_results.results)

    def do(self, op, k, seed):
        m, u = self.m[k], self.u
        if op in ('run', 'cont'):
            return self.run(k, seed, op == 'cont')
        r = self.res[k][-1]
        chain = r['chain']
        getattr(self, 'op_' + op)(m, u, r, chain, k)

    def op_stats(self, m, u, r, chain, k):
        CS.chainstats(chain, r, returnstats=True, display_details=True)
        CS.chainstats(np.column_stack([chain, chain]), r)

    def op_gr(self, m, u, r, chain, k):
        cs = [chain, np.flipud(chain), chain]
        CS.gelman_rubin(cs, results=r)
        CS.gelman_rubin([r, r], results=r)
        CS.gelman_rubin([np.column_stack([chain, chain])] * 2, results=r, display=False)

    def op_plot(self, m, u, r, chain, k):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = m.mcmcplot
            g = np.random.get_state()
            for f in (p.plot_chain_panel, p.plot_density_panel, p.plot_histogram_panel, p.plot_pairwise_correlation_panel):
                try:
                    f(chain, names=u['pnames'], figsizeinches=u['fig'])
                except np.linalg.LinAlgError:        # a density estimate of a constant chain
                    pass
            p.plot_chain_metrics(chain[:, 0], name=u['pnames'])
            np.random.set_state(g)
        plt.close('all')

    def op_pi(self, m, u, r, chain, k):
        sc = self.sc
        fun = lambda d, th: self.modelfun(d.xdata[0], th)      # noqa: E731
        for ns in (10, 10**6):
            m.PI.setup_prediction_interval_calculation(results=r, data=m.data, modelfunction=fun, burnin=3)
            m.PI.generate_prediction_intervals(nsample=ns, calc_pred_int=sc['nb'] == 1 or sc['ns'] > 1, waitbar=False)
        m.PI.plot_prediction_intervals(adddata=True, model_display=u['disp'], data_display=u['disp'],
                                       interval_display=u['disp'], figsizeinches=u['fig'])
        plt.close('all')

    def op_prop(self, m, u, r, chain, k):
        fun = lambda q, d: self.modelfun(d.xdata[0], q)        # noqa: E731
        for s2 in (None, .1, u['s2arr']):
            iv = UP.calculate_intervals(chain, r, m.data, fun, s2chain=s2, nsample=12, waitbar=False)
        if isinstance(iv, dict):
            iv = [iv]
        t = np.asarray(m.data.xdata[0]).ravel()
        UP.plot_intervals(iv[0], t, ydata=np.asarray(m.data.ydata[0])[:, 0], limits=u['limits'], ciset=u['ciset'],
                          piset=u['piset'], data_display=u['disp'], model_display=u['disp'], interval_display=u['disp'])
        UP.plot_intervals(iv[0], t, limits=u['limits'])
        UP.generate_quantiles(iv[0]['credible'], u['lims'])
        plt.close('all')

    def op_comb(self, m, u, r, chain, k):
        CP.generate_combined_chain_with_index([r, r], burnin_percentage=25)
        CP.generate_chain_list([r, r, r], burnin_percentage=10)

    def op_par(self, m, u, r, chain, k):
        for n, iv in enumerate((u['ivals'], None)):
            for d in glob.glob('dir%d/chain_*' % k):
                shutil.rmtree(d)
            p = ParallelMCMC()
            p.setup_parallel_simulation(mcset=m, initial_values=iv, num_chain=2, num_cores=1)
            for c in p.parmc:
                c.simulation_options.nsimu = 4
                c.run_simulation()

    def op_export(self, m, u, r, chain, k):
        m.simulation_results.export_simulation_results_to_json_file(results=r)

    def op_light(self, m, u, r, chain, k):
        m.simulation_results.export_lightly(results=r)

    def op_disp(self, m, u, r, chain, k):
        m.display_current_mcmc_settings()
        m.model_settings.display_model_settings(print_these=['sigma2', 'N'])
        m.simulation_options.display_simulation_options()
        m.data.get_number_of_observations(), m.data.get_number_of_data_sets()

    def op_log(self, m, u, r, chain, k):
        if os.path.isdir('dir%d' % k):
            CP.print_log_files('dir%d' % k)
            for ext in ('h5', 'txt'):
                CP.read_in_savedir_files('dir%d' % k, extension=ext)
            CP.load_serial_simulation_results('dir%d' % k)

    def op_util(self, m, u, r, chain, k):
        PU.scale_bandwidth(u['col'])
        PU.iqrange(u['col'])
        PU.make_x_grid(u['col'])
        PU.empirical_quantiles(u['col'], u['lims'])
        PU.generate_names(4, u['pnames'])
        PU.check_settings(dict(a=1, linewidth=2), u['disp'])
        CS.get_parameter_names(chain.shape[1] + 2, r)
        CS.geweke(chain), CS.integrated_autocorrelation_time(chain)


class Passive:
    def setup(self):
        return 1

    def update(self, accept, isimu, current_set):
        return 2


def chains(r):
    return digest([np.asarray(r['chain']), np.asarray(r['sschain']), None if r['s2chain'] is None else np.asarray(r['s2chain'])])


class scratch:
    def __enter__(self):
        self.w, self.c = tempfile.mkdtemp(prefix='verif_frame_'), os.getcwd()
        os.chdir(self.w)

    def __exit__(self, *a):
        os.chdir(self.c)
        shutil.rmtree(self.w, ignore_errors=True)
        return False


def run_ops(sc):
    ev = []
    with scratch(), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = World(sc)
        ev.append(dict(op='build', k=0, had=0, cells=w.cells(), before=w.before))
        for e in sc['hist']:
            had = len(w.res[e['k']])
            w.do(e['op'], e['k'], e['seed'])
            ev.append(dict(op=e['op'], k=e['k'], had=had, cells=w.cells(), before=[]))
    iso = []
    for k in (1, 2):
        mine = [e for e in sc['hist'] if e['k'] == k and e['op'] in ('run', 'cont')]
        if not mine:
            continue
        with scratch(), quiet():
            w2 = World(sc)
            for n, e in enumerate(mine):
                w2.do(e['op'], k, e['seed'])
                iso.append(dict(k=k, n=n + 1, here=chains(w.res[k][n]), alone=chains(w2.res[k][n])))
    return dict(kind='ops', ev=ev, iso=iso, runs=[])


# ---------------------------------------------------------------- same seed, other outputs
def one_variant(sc, v):
    """-> list of runs with their chains"""
    out = []
    with scratch(), quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for s in v.get('prelude', []):               # what happened to the generator before does not matter
            np.random.seed(s)
            np.random.randn(3)
        opt = dict(sc['opt'])
        opt.update(v.get('opt', {}))
        s2 = dict(sc, ncs=1)
        m = engine.build(s2, opt)
        m.custom_samplers = [Passive() for _ in range(v.get('ncs', 0))]
        if v.get('disp'):
            m.simulation_options.display_simulation_options()
        for n, rn in enumerate(sc['runs']):
            if n and (rn.get('opt') or v.get('opt')):
                o = dict(waitbar=False, verbosity=0)
                o.update(engine.py_opt(dict(opt, **rn.get('opt', {}))))
                m.simulation_options.define_simulation_options(**o)
            m.run_simulation(use_previous_results=n > 0)
            r = m.simulation_results.results
            out.append(dict(chain=fl(r['chain']), sschain=fl(r['sschain']), s2chain=fl(r['s2chain']),
                            rej=[float(r['total_rejected']), float(r['rejected_outside_bounds'])]))
            if v.get('disp'):
                m.display_current_mcmc_settings()
                if len(r['chain']) >= 40:
                    m.chainstats(r['chain'], r)
                m.simulation_results.export_lightly(r)
    return out


def run_pair(sc):
    base = one_variant(sc, {})
    vs = []
    for v in sc['variants']:
        if v.get('hashseed') is not None:
            env = dict(os.environ, PYTHONHASHSEED=str(v['hashseed']))
            p = subprocess.run([sys.executable, '-c', 'import sys,json,frame; d=json.load(sys.stdin); '
                                'o=frame.one_variant(d[0], d[1]); print("OUT"+json.dumps(o))'],
                               input=json.dumps([sc, v]), capture_output=True, text=True, env=env)
            line = [l for l in p.stdout.split('\n') if l.startswith('OUT')]
            if not line:
                raise RuntimeError('process failed: ' + p.stderr[-500:])
            runs = json.loads(line[0][3:])
        else:
            runs = one_variant(sc, v)
        vs.append(dict(what=v['what'], runs=runs))
    return dict(kind='pair', base=base, vars=vs, runs=[])
