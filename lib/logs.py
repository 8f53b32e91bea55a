"""Log files, crash points, read back and saved results (LogTrace.tla).

A scenario is run in a forked child, so that the process can really end at the crash point.  The child writes
one line per event (initial sample, step, snapshot of the files) to a file as it goes; the parent then reads
the log directory as the user would find it."""
import builtins
import json
import math
import os
import shutil
import sys
import tempfile
import warnings

import engine
import rec
from engine import build, make_raw, py_opt, quiet
from rec import REC, fl
import h5py
import numpy as np

from pymcmcstat.chain import ChainProcessing as CP   # noqa: E402

REALOPEN, REALH5 = builtins.open, h5py.File


class Crash(BaseException):
    pass


def ints(name):
    out, cur = [], ''
    for c in name + ' ':
        if c.isdigit():
            cur += c
        elif cur:
            out.append(int(cur))
            cur = ''
    return out


def raw_h5(path):
    """segments of a binary log file, or None"""
    if not os.path.exists(path):
        return None
    with REALH5(path, 'r') as hf:
        names = sorted(hf.keys(), key=ints)
        return [np.atleast_2d(np.array(hf[n], dtype=float)).tolist() for n in names]


def raw_txt(path):
    if not os.path.exists(path):
        return None
    with REALOPEN(path) as f:
        return [[float(v) for v in line.split()] for line in f.read().split('\n') if line.strip()]


def raw_index(path):
    if not os.path.exists(path):
        return None
    out = []
    with REALOPEN(path) as f:
        for line in f.read().split('\n'):
            if line.strip():
                w = line.split()
                out.append([int(w[-2]), int(w[-1])])
    return out


def snapshot(sc, savedir):
    n = sc['files']
    o = dict(bin=None, txt=None)
    for ext, key, rd in (('h5', 'bin', raw_h5), ('txt', 'txt', raw_txt)):
        p = lambda k: os.path.join(savedir, n[k] + '.' + ext)
        o[key] = dict(index=raw_index(os.path.join(savedir, key + 'logfile.txt')), chain=rd(p('chain')), ss=rd(p('ss')),
                      s2=rd(p('s2')), cov=rd(p('cov')),
                      cust=rd(os.path.join(savedir, 'cust.' + ext)))
    return o


class State:
    pass


class LogObserver:
    """passive custom sampler: one line per step"""
    def __init__(self, S, chain):
        self.S = S
        if chain:
            self.save_chain = True
            self.chains = [dict(file='cust', mtx=np.zeros([1, 2]))]

    def setup(self):
        S = self.S
        if hasattr(self, 'chains'):
            self.chains[0]['mtx'] = np.full([S.nsimu + 3, 2], -7.)       # may have room for more
            self.chains[0]['mtx'][0, :] = [-1., .5]
        S.step, S.evals, S.opens = 0, 0, 0
        S.running = True
        return 0

    def update(self, accept, isimu, current_set):
        S = self.S
        S.step += 1
        S.evals = S.opens = 0
        if hasattr(self, 'chains'):
            self.chains[0]['mtx'][int(isimu), :] = [float(isimu), float(np.ravel(current_set.theta)[0])]
        S.emit(dict(ev='step', th=fl(np.ravel(current_set.theta)), ss=fl(np.ravel(current_set.ss)),
                    s2=fl(np.ravel(current_set.sigma2) * np.ones(S.ns)) if S.s2 else None,
                    R=fl(np.atleast_2d(engine.factor(S.m)))))
        return 0


def crash(S):
    S.emit(dict(ev='crashed'))
    if S.crash['how'] == 'kill':
        os._exit(9)
    raise Crash()


def hook_target(S, t):
    """the user's sum-of-squares function: records the first evaluation, takes snapshots, crashes"""
    def f(q, data, custom=None):
        if not S.running:
            S.evals = 0
        else:
            S.evals += 1
            if S.step in S.snaps and S.evals == 1:
                S.emit(dict(ev='snap', files=snapshot(S.sc, S.savedir)))
            c = S.crash
            if c and c['run'] == S.run and c['step'] == S.step and c['w'] == 0 and c.get('eval', 1) == S.evals:
                crash(S)
        ss = t.value(q)
        if not S.running:
            S.emit(dict(ev='init', q=fl(q), ss=fl(ss)))
        return ss.copy()
    return f


def hook_files(S):
    def note(path, mode):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return
        if S.running and p.startswith(os.path.abspath(S.savedir) + os.sep) and any(c in mode for c in 'aw+x'):
            S.opens += 1
            c = S.crash
            if c and c['run'] == S.run and c['step'] == S.step and c['w'] == S.opens:
                crash(S)

    def op(file, mode='r', *a, **k):
        note(file, mode)
        return REALOPEN(file, mode, *a, **k)

    def h5(name, mode='r', *a, **k):
        note(name, mode)
        return REALH5(name, mode, *a, **k)
    builtins.open = op
    h5py.File = h5


def plain(x):
    """canonical form of a results dictionary: numbers as floats, arrays as lists"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    return x


def arr(a):
    """an array returned by the package: number of dimensions and values"""
    if isinstance(a, list) and not a:
        return dict(nd=-1, v=[])
    b = np.asarray(a)
    if b.dtype.kind not in 'fiub':
        return dict(nd=-2, v=[])
    return dict(nd=int(b.ndim), v=fl(b))


def read_back(sc, savedir, res_files):
    """what the package's own readers return"""
    out = []
    n = sc['files']
    names = dict(chainfile=n['chain'], sschainfile=n['ss'], s2chainfile=n['s2'], covchainfile=n['cov'])

    def get(d, ext, missing):
        with quiet(), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            o = CP.read_in_savedir_files(d, extension=ext, **names)
        return dict(ext=ext, missing=missing, warned=len(w) > 0, chain=arr(o['chain']), ss=arr(o['sschain']), s2=arr(o['s2chain']),
                    cov=arr(o['covchain']))
    for ext in ('h5', 'txt'):
        if sc['opt'].get('save_to_bin' if ext == 'h5' else 'save_to_txt'):
            out.append(get(savedir, ext, []))
            if sc.get('missing'):
                d2 = tempfile.mkdtemp(dir='.')
                for f in os.listdir(savedir):
                    shutil.copy(os.path.join(savedir, f), d2)
                for k in sc['missing']:
                    p = os.path.join(d2, n[k] + '.' + ext)
                    if os.path.exists(p):
                        os.remove(p)
                out.append(get(d2, ext, sc['missing']))
    loads = []
    for name in res_files:
        ext = 'h5' if sc['opt'].get('save_to_bin') else 'txt'
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = CP.load_serial_simulation_results(savedir, json_file=name, extension=ext, **names)
        loads.append(dict(file=name, ext=ext, label=r['simulation_options']['label'],
                          chain=arr(r['chain']), ss=arr(r['sschain']), s2=None if r['s2chain'] is None else arr(r['s2chain']),
                          cov=arr(r['covchain']) if 'covchain' in r else None,
                          keys=sorted(r.keys()), theta=arr(r['theta']), names=[str(v) for v in r['names']]))
    return out, loads


def child(sc, path, fd):
    S = State()
    S.sc, S.crash, S.savedir = sc, sc.get('crash'), sc['opt']['savedir']
    S.snaps = set(sc.get('snaps', []))
    f = os.fdopen(fd, 'w')

    def emit(e):
        f.write(json.dumps(e) + '\n')
        f.flush()
    S.emit = emit
    opt = dict(sc['opt'])
    m = build(sc, opt)
    m.custom_samplers = [LogObserver(S, sc.get('cust', False))]
    S.m, S.running, S.ns = m, False, engine.target_ns(sc)
    t = m._verif_target
    m.model_settings.sos_function = hook_target(S, t)
    hook_files(S)
    for r, rn in enumerate(sc['runs']):
        S.run, S.running = r + 1, False
        if r:
            opt.update(rn.get('opt', {}))
            o = dict(waitbar=False, verbosity=0)
            o.update(py_opt(opt, sc.get('npint')))
            m.simulation_options.define_simulation_options(**o)
        S.nsimu = int(opt['nsimu'])
        raw = make_raw(sc, opt)
        S.s2 = raw['opt']['updatesigma'] or raw['model']['N0'] is not None
        emit(dict(ev='begin', kind='cont' if r else 'fresh', raw=raw))
        try:
            with quiet():
                m.run_simulation(use_previous_results=r > 0)
        except Crash:
            os._exit(8)
        S.running = False
        res = m.simulation_results.results
        e = dict(ev='end', chain=fl(res['chain']), ss=fl(res['sschain']), s2=fl(res['s2chain']), files=snapshot(sc, S.savedir))
        js = [x for x in (sorted(os.listdir(S.savedir)) if os.path.isdir(S.savedir) else []) if x.endswith('.json')]
        e['json'], e['mem'] = None, None
        e['jsons'] = js
        if raw['opt']['save_to_json']:
            e['mem'] = plain(res)
            want = opt.get('results_filename') or m.simulation_options.datestr + '_mcmc_simulation.json'
            e['want'] = want
            p = os.path.join(S.savedir, want)
            if os.path.exists(p):
                with REALOPEN(p) as g:
                    e['json'] = plain(json.load(g))
        e['label'] = m.simulation_options.label
        emit(e)
    builtins.open, h5py.File = REALOPEN, REALH5
    if sc.get('export'):                  # saving again must not alter the results in memory
        from pymcmcstat.structures.ResultsStructure import ResultsStructure
        res = m.simulation_results.results
        before = json.dumps(plain(res))
        ids = sorted((k, id(v)) for k, v in res.items())
        with quiet():
            m.simulation_results.export_lightly(res)
            m.simulation_results.export_simulation_results_to_json_file(res)
        emit(dict(ev='export', same=before == json.dumps(plain(res)) and ids == sorted((k, id(v)) for k, v in res.items())))
    f.close()
    os._exit(0)


def run_log(sc):
    work = tempfile.mkdtemp(prefix='verif_log_')
    cwd = os.getcwd()
    try:
        os.chdir(work)
        rec.REC.active = False
        ev = os.path.join(work, 'events.jsonl')
        fd = os.open(ev, os.O_CREAT | os.O_WRONLY)
        er = os.path.join(work, 'err.txt')
        pid = os.fork()
        if pid == 0:
            try:
                child(sc, work, fd)
            except BaseException as ex:
                import traceback
                with REALOPEN(er, 'w') as g:
                    g.write('%s: %s\n' % (type(ex).__name__, str(ex)[:300]) + traceback.format_exc()[-2500:])
            os._exit(1)
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        if os.path.exists(er):
            txt = REALOPEN(er).read()
            return dict(runs=[], error=txt.split('\n')[0], where=txt)
        events = [json.loads(l) for l in REALOPEN(ev)]
        crashed = events[-1]['ev'] == 'crashed'
        if not crashed and os.WEXITSTATUS(st) != 0:
            return dict(runs=[], error='process ended (%d)' % st)
        tail = dict(ev='crash' if crashed else 'read', w=0)
        if crashed:
            events.pop()
            tail['w'] = sc['crash']['w']
            tail['files'] = snapshot(sc, sc['opt']['savedir'])
        js = []
        if not crashed and sc['opt'].get('save_to_json'):
            js = [e['want'] for e in events if e['ev'] == 'end']
            seen = []
            for j in js:
                if j in seen:
                    seen.remove(j)
                seen.append(j)
            js = seen
        if os.path.isdir(sc['opt']['savedir']):
            tail['rb'], tail['loads'] = read_back(sc, sc['opt']['savedir'], js)
        else:
            tail['rb'], tail['loads'] = [], []
        tail['labels'] = {}
        for e in events:
            if e['ev'] == 'end' and e.get('want'):
                tail['labels'][e['want']] = e['label']
        for l in tail['loads']:
            l['wantlabel'] = tail['labels'][l['file']]
        tail['lastfile'] = js[-1] if js else None
        tail.pop('labels')
        events.append(tail)
        return dict(runs=[], ev=events, cust=bool(sc.get('cust')))
    finally:
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)
