"""Parallel simulations with forced orders of finishing, and directories of parallel results."""
import json
import os
import re
import shutil
import tempfile
import time
import warnings

import engine
import logs
import rec
from engine import quiet
from rec import REC, fl
from drive import JobTimeout
import h5py
import numpy as np

from pymcmcstat.MCMC import MCMC                        # noqa: E402
from pymcmcstat import ParallelMCMC as PM               # noqa: E402
from pymcmcstat.chain import ChainProcessing as CP      # noqa: E402


class Sos:
    """sum of squares; every process that evaluates it writes a record of its own"""
    def __init__(self, sc, book):
        self.c, self.w, self.nsimu, self.order, self.book = sc['center'], sc['width'], sc['nsimu'], sc.get('fin'), book
        self.calls, self.first, self.path = [], None, None
        self.iv = None
        self.fail = sc.get('fail')
        self.cu, self.data = [], None

    def __call__(self, q, data, custom=None):
        q = np.array(q, dtype=float)
        if not self.calls:
            self.path = os.path.join(self.book, 'log_' + os.urandom(8).hex())
            REC.active = True
            REC.d = []
        self.calls.append(q.tolist())
        self.cu.append([] if not custom else list(custom))
        if self.data is None:
            self.data = json.dumps([canon(getattr(data, k)) for k in ('xdata', 'ydata', 'n', 'shape', 'weight', 'user_defined_object')])
        if self.fail and self.iv is not None and self.iv[self.fail[0] - 1] == self.calls[0] and len(self.calls) == self.fail[1]:
            open(os.path.join(self.book, 'done_%d' % self.fail[0]), 'w').close()
            open(os.path.join(self.book, 'fault'), 'w').close()
            if self.fail[2] == 'exit':
                raise SystemExit('refused')
            raise ValueError('failed')
        ss = float(np.sum(((q - self.c) / self.w)**2))
        if self.order and len(self.calls) == self.nsimu and self.iv is not None:
            me = [k + 1 for k, r in enumerate(self.iv) if r == self.calls[0]]
            if me:
                t0 = time.time()
                for k in self.order[:self.order.index(me[0])]:
                    while not os.path.exists(os.path.join(self.book, 'done_%d' % k)) and time.time() - t0 < 3:
                        time.sleep(.002)
                self.write()
                time.sleep(.03)
                open(os.path.join(self.book, 'done_%d' % me[0]), 'w').close()
                return ss
        self.write()
        return ss

    def write(self):
        with open(self.path, 'w') as f:
            json.dump(dict(th=self.calls, d=[d[1:] for d in REC.d if d[0] in (0, 1)], cu=self.cu, data=self.data), f)


class Count:
    """custom sampler: its output is the number of updates since it was set up"""
    def setup(self):
        self.n = 0
        return self.n

    def update(self, **kw):
        self.n += 1
        return self.n


SETKEYS = ['names', 'allnames', 'limits', 'parind', 'local', 'nsimu', 'updatesigma', 'N0', 'S20', 'prior', 'drscale']
OPTKEYS = ['nsimu', 'adaptint', 'ntry', 'method', 'updatesigma', 'burnintime', 'savesize', 'save_to_bin', 'save_to_txt',
           'save_to_json', 'save_lightly', 'chainfile', 's2chainfile', 'sschainfile', 'covchainfile']
MODKEYS = ['N', 'N0', 'S20', 'sigma2', 'nbatch']


def canon(x):
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, float)):
        return repr(float(x))
    return type(x).__name__


def settings_of(res, mh):
    out = []
    for k in SETKEYS + (['qcov', 'qcovorig'] if mh else []):
        if k in res:
            out.append([k, json.dumps(canon(res[k]))])
    for grp, keys in (('simulation_options', OPTKEYS), ('model_settings', MODKEYS)):
        for k in keys:
            if k in res.get(grp, {}):
                out.append([grp + '.' + k, json.dumps(canon(res[grp][k]))])
    return [list(x) for x in out]


def template(sc, savedir, book):
    m = MCMC(rngseed=sc['seed'])
    m.data.add_data_set(np.array(sc['x'], float), np.array(sc['y'], float), **(dict(weight=2., user_defined_object=dict(a=[1, 'b'])) if sc.get('udo') else {}))
    if sc.get('more'):
        m.data.add_data_set(np.arange(3.), np.array([2., 1., 4.]), n=4)
    if sc.get('cust'):
        m.custom_samplers.append(Count())
    o = dict(sc['opt'])
    if o.get('qcov') is not None:
        o['qcov'] = np.array(o['qcov'], float)
    m.simulation_options.define_simulation_options(nsimu=sc['nsimu'], savedir=savedir, waitbar=False, verbosity=0, **o)
    m.model_settings.define_model_settings(sos_function=Sos(sc, book), **sc.get('model', {}))
    for p in sc['par']:
        kw = dict(p)
        for a, b in (('min', 'minimum'), ('max', 'maximum'), ('mu', 'prior_mu'), ('sigma', 'prior_sigma')):
            if a in kw:
                v = kw.pop(a)
                kw[b] = float('nan') if v == 'nan' else v
        m.parameters.add_model_parameter(**kw)
    return m


def run_parallel(sc):
    d = tempfile.mkdtemp(prefix='verif_par_')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return par_in(sc, d)
    finally:
        REC.active = False
        REC.reset()
        shutil.rmtree(d, ignore_errors=True)


def books(book):
    out = []
    for f in sorted(os.listdir(book)):
        if f.startswith('log_'):
            try:
                out.append(json.load(open(os.path.join(book, f))))
            except ValueError:
                pass
    return out


def par_in(sc, d):
    rec.install()
    REC.reset()
    savedir, book = os.path.join(d, sc['savedir']), os.path.join(d, 'book')
    os.makedirs(book)
    n0 = len(sc['given']) if sc['given'] else sc['nchain']
    if sc.get('predir'):
        os.makedirs(savedir)
    m = template(sc, savedir, book)
    par = dict(npar=len(sc['par']), lo=[fl(p.get('min', -np.inf)) for p in sc['par']], hi=[fl(p.get('max', np.inf)) for p in sc['par']],
               sample=[p.get('sample', 1) not in (0, False) for p in sc['par']], theta0=[float(p['theta0']) for p in sc['par']])
    out = dict(kind='run', given=sc['given'] or [], nchain=sc['nchain'], par=par, ok=sc['ok'], nsimu=sc['nsimu'], refused=False, cores=sc['cores'], runs=[])
    saved = None
    if sc.get('restart'):
        saved = make_restart(sc, d, m, n0)
        m.simulation_options.json_restart_file = os.path.join(d, 'old')
    p = PM.ParallelMCMC()
    give = None if sc['given'] is None else np.array(sc['given'], float)
    if sc['given'] is None:
        np.random.seed(sc['seed'] + 1)
    with quiet() as q:
        try:
            p.setup_parallel_simulation(m, initial_values=give, num_cores=sc['cores'], num_chain=sc['nchain'])
        except SystemExit:
            out['refused'] = True
    if out['refused'] or sc.get('setuponly'):
        out['iv'] = [] if out['refused'] else fl(p.initial_values)
        out['n'] = 0 if out['refused'] else len(p.parmc)
        out['kind'] = 'setup'
        return out
    out['iv'] = fl(p.initial_values)
    out['n'] = len(p.parmc)
    for c in p.parmc:
        c.model_settings.sos_function.iv = out['iv'] if saved is None else [[s if p else v for s, p, v in zip(sv['theta'], par['sample'], iv)]
                                                                                for sv, iv in zip(saved, out['iv'])]
    out['dirs'] = [os.path.relpath(c.simulation_options.savedir, savedir) for c in p.parmc]
    with quiet() as q:
        try:
            p.run_parallel_simulation()
        except JobTimeout:
            raise
        except (Exception, SystemExit) as ex:
            if not sc.get('fail'):
                raise
            out['kind'], out['failed'] = 'fail', True
            return out
    if sc.get('fail'):              # candidates outside the limits are not evaluated: the chain may end before its fault
        out['kind'], out['failed'] = 'fail', not os.path.exists(os.path.join(book, 'fault'))
        return out
    REC.active = False
    out['logs'] = books(book)
    out['saved'] = None if saved is None else [s['theta'] for s in saved]
    names = dict(chain=sc['opt'].get('chainfile', 'chainfile'), ss=sc['opt'].get('sschainfile', 'sschainfile'),
                 s2=sc['opt'].get('s2chainfile', 's2chainfile'))
    mh = sc['opt'].get('method') == 'mh'
    # the template alone, with the starting point of each chain
    out['res'], out['disk'] = [], []
    o = sc['opt']
    logsaved = o.get('save_to_bin') or o.get('save_to_txt') or not o.get('save_to_json')
    for i, c in enumerate(p.parmc):
        r = c.simulation_results.results
        out['res'].append(dict(chain=fl(r['chain']), ss=fl(np.ravel(r['sschain'])), set=settings_of(r, mh and saved is None and o.get('qcov') is not None)))
        dd = os.path.join(savedir, 'chain_%d' % i)
        e = dict(dir=os.path.isdir(dd), bin=None, txt=None, json=None)
        h = logs.raw_h5(os.path.join(dd, names['chain'] + '.h5'))
        e['bin'] = None if h is None else [row for s in h for row in s]
        e['txt'] = logs.raw_txt(os.path.join(dd, names['chain'] + '.txt'))
        jf = os.path.join(dd, 'chain_%d.json' % i)
        if os.path.exists(jf):
            js = json.load(open(jf))
            e['json'] = dict(theta=[float(v) for v in js['theta']], chain=js.get('chain'))
        out['disk'].append(e)
        out['res'][-1]['theta'] = fl(r['theta'])
    out['want'] = dict(bin=bool(o.get('save_to_bin') or not (o.get('save_to_txt') or o.get('save_to_json'))),
                       txt=bool(o.get('save_to_txt')), json=bool(o.get('save_to_json')), light=bool(o.get('save_to_json') and (o.get('save_to_bin') or o.get('save_to_txt') )))
    # settings of the template when run alone
    alone = template(dict(sc, fin=None), os.path.join(d, 'alone'), os.path.join(d, 'book2'))
    os.makedirs(os.path.join(d, 'book2'))
    if saved is not None:
        alone.simulation_options.json_restart_file = m.simulation_options.json_restart_file + '/chain_0/chain_0.json'
    for k in ('save_to_bin',):
        alone.simulation_options.save_to_bin = out['want']['bin']
    with quiet():
        alone.run_simulation()
    REC.active = False
    out['data'] = alone.model_settings.sos_function.data
    out['cust'] = bool(sc.get('cust'))
    out['alone'] = settings_of(alone.simulation_results.results, mh and saved is None and o.get('qcov') is not None)
    with quiet() as q:
        if sc['nsimu'] >= 40:
            p.display_individual_chain_statistics()
    txt = q.buf.getvalue()
    out['disp'] = [[int(a), os.path.relpath(b.strip(), savedir)] for a, b in re.findall(r'chain\s+(\d+)\s*\nFiles:\s*(.*)', txt)]
    out['show'] = sc['nsimu'] >= 40
    # loading (C18)
    out['load'] = []
    if out['want']['json']:
        for fn in (CP, PM):
            if out['want']['light'] and not logsaved:
                continue
            ext = 'h5' if out['want']['bin'] else 'txt'
            with quiet():
                pr = fn.load_parallel_simulation_results(savedir, extension=ext, **{k: o[k] for k in ('chainfile', 'sschainfile', 's2chainfile') if k in o})
            out['load'].append([dict(chain=fl(r['chain']), ss=fl(np.ravel(r['sschain'])), nsimu=int(r['nsimu'])) for r in pr])
    return out


def make_restart(sc, d, m, n):
    """results files of earlier runs of the chains"""
    g = np.random.RandomState(sc['seed'])
    saved = []
    book = os.path.join(d, 'book3')
    os.makedirs(book)
    for i in range(n):
        o = dict(sc['opt'], save_to_json=True, results_filename='chain_%d.json' % i)
        a = template(dict(sc, fin=None, fail=None, opt=o, seed=sc['seed'] + 7 * i), os.path.join(d, 'old', 'chain_%d' % i), book)
        for j, p in enumerate(a.parameters.parameters):
            if p['sample']:
                p['theta0'] = float(sc['center'][j] + .5 * (g.rand() - .5))
        with quiet():
            a.run_simulation()
        saved.append(dict(theta=fl(a.simulation_results.results['theta'])))
    REC.active = False
    REC.reset()
    return saved


# ---------------------------------------------------------------- directories
def run_dirs(sc):
    d = tempfile.mkdtemp(prefix='verif_pd_')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return dirs_in(sc, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def arr(a):
    """rows of an array; [] for no data"""
    a = np.asarray(a, dtype=float)
    return [] if a.size == 0 else np.atleast_2d(a).tolist()


def dirs_in(sc, d):
    top = os.path.join(d, 'par')
    os.makedirs(top)
    g = np.random.RandomState(sc['seed'])
    exp = {}
    nm = sc['names']
    order = list(sc['entries'])
    for e in order:
        name = 'chain_%d' % e['num'] if e['kind'] == 'chain' else e['name']
        path = os.path.join(top, name)
        if not e['dir']:
            open(path, 'w').write('not a directory')
            continue
        os.makedirs(path)
        if e['kind'] != 'chain' and not e.get('full'):
            continue
        npar, n, ns = sc['npar'], e['n'], sc['ns']
        a = dict(chain=g.randn(n, npar), sschain=g.rand(n, ns), s2chain=g.rand(n, ns), covchain=g.randn(2 * npar, npar))
        js = dict(nsimu=n, names=['p%d' % j for j in range(npar)], tag=e.get('num', -1), theta=a['chain'][-1].tolist(), label='run')
        if e['json']:
            for k in ('chain', 'sschain', 's2chain'):
                js[k] = a[k].tolist()
        with open(os.path.join(path, name + '.json'), 'w') as f:
            json.dump(js, f)
        w = dict(json=bool(e['json']), n=n, tag=e.get('num', -1), theta=js['theta'])
        for k in ('chain', 'sschain', 's2chain', 'covchain'):
            v = a[k]
            lg = v + 1000. if e['json'] else v      # log files of a chain whose results file holds the chains: not read
            have = e['log'] and k not in e['missing']
            if have:
                parts = [lg] if e['parts'] == 1 else np.array_split(lg, min(e['parts'], len(lg)))
                st = 0
                if sc['ext'] == 'h5':
                    with h5py.File(os.path.join(path, nm[k] + '.h5'), 'w') as hf:
                        for p in parts:
                            hf.create_dataset('nsimu_%d_%d' % (st, st + len(p) - 1), data=p)
                            st += len(p)
                else:
                    with open(os.path.join(path, nm[k] + '.txt'), 'wb') as f:
                        for p in parts:
                            np.savetxt(f, p, fmt='%.17g')
            w[k] = v.tolist() if (e['json'] and k != 'covchain') or have else []
            w['log_' + k] = lg.tolist() if have else []
        if e['kind'] == 'chain':
            exp[e['num']] = w
    entries = [dict(kind=e['kind'], num=e.get('num', -1), dir=e['dir']) for e in sc['entries']]
    nums = sorted(exp)
    out = dict(kind='dirs', entries=entries, nums=nums, exp=[exp[k] for k in nums], loads=[], combs=[], runs=[])
    kw = dict(extension=sc['ext'], chainfile=nm['chain'], sschainfile=nm['sschain'], s2chainfile=nm['s2chain'], covchainfile=nm['covchain'])

    def keep(pr):
        return [dict(tag=int(r['tag']), nsimu=int(r['nsimu']), theta=fl(r['theta']), label=str(r['label']), **{k: arr(r.get(k, [])) for k in ('chain', 'sschain', 's2chain')})
                for r in pr]
    pres = None
    for mod in (CP, PM):
        with quiet():
            pr = mod.load_parallel_simulation_results(top, **kw)
        out['loads'].append(keep(pr))
        pres = pr
    with quiet():
        js = CP.read_in_parallel_json_results_files(top)
        out['json'] = [int(r['tag']) for r in js]
        lg = CP.read_in_parallel_savedir_files(top, **kw)
        out['logs'] = [{k: arr(v) for k, v in r.items()} for r in lg]
        out['parlogs'] = [[k for k in sorted(r)] for r in lg]
    use = [dict(r) for r in pres if len(np.shape(r['chain'])) == 2]
    out['use'] = [dict(chain=arr(r['chain']), nsimu=int(r['nsimu'])) for r in use]
    if use:
        for half in sc['pct']:
            b = half / 2 if half % 2 else half // 2
            with quiet():
                c, ix = CP.generate_combined_chain_with_index(use, burnin_percentage=b)
                l = CP.generate_chain_list(use, burnin_percentage=b)
            out['combs'].append(dict(half=half, rows=arr(c), index=[str(v) for v in ix], list=[arr(v) for v in l]))
        with quiet():
            c, ix = CP.generate_combined_chain_with_index(use)
            l = CP.generate_chain_list(use)
        out['combs'].append(dict(half=100, rows=arr(c), index=[str(v) for v in ix], list=[arr(v) for v in l]))
    out['same'] = all(np.array_equal(np.asarray(r['chain'], float), np.asarray(o['chain'], float)) for r, o in zip(use, out['use']))
    return out
