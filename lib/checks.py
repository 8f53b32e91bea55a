"""Families of scenarios and the checks built from them."""
import json
import os
import random
import sys
import time

import gen
import vlib
from vlib import MachineryError

FAMILIES = {}
CHECKS = {}


def family(name, module, mod, fn):
    def deco(f):
        FAMILIES[name] = dict(name=name, module=module, mod=mod, fn=fn, gen=f)
        return f
    return deco


def run_family(name, scenarios):
    """-> (traces, verdicts or None per scenario, states, distinct)"""
    fam = FAMILIES[name]
    jobs = [dict(mod=fam['mod'], fn=fam['fn'], arg=s, timeout=s.get('timeout', 90)) for s in scenarios]
    traces = vlib.drive(jobs)
    for i in [i for i, t in enumerate(traces) if str(t.get('error')).startswith('JobTimeout')][:6]:
        t = vlib.drive([dict(jobs[i], timeout=2 * jobs[i]['timeout'])])[0]       # alone: was it only slow?
        if str(t.get('error')).startswith('JobTimeout'):
            break
        traces[i] = t
    good = [i for i, t in enumerate(traces) if not t.get('error') and not t.get('skipped')]
    verd = [None] * len(traces)
    states = distinct = 0
    if good:
        v, states, distinct = vlib.validate(fam['module'], [traces[i] for i in good])
        for i, x in zip(good, v):
            verd[i] = x
    for i, t in enumerate(traces):
        if t.get('error'):
            verd[i] = [(None, 'a valid run failed: ' + t['error'], 0, 0)]
        elif t.get('skipped'):
            verd[i] = []
    return traces, verd, states, distinct


def model_check(module, cfg, env=None, timeout=800):
    r = vlib.tlc(module, cfg=cfg, env=env, timeout=timeout)
    if not r['ok']:
        raise MachineryError('model checking of %s/%s failed:\n%s' % (module, cfg, vlib.tail(r['out'])))
    return r


class Check:
    def __init__(self, prop, families, mc=(), level='model_checking', quick=2., thorough=8.):
        """families: list of (family, count for the quick tier); mc: list of (module, cfg, thorough cfg)"""
        self.prop, self.families, self.mc, self.level = prop, families, mc, level
        self.mult = dict(quick=quick, thorough=thorough)
        CHECKS[prop] = self

    def run(self, tier, seed):
        t0 = time.time()
        vlib.build()
        states = trans = ntr = 0
        viol, samples, detail, seen = [], [], {}, set()
        for m in self.mc:
            module, cfg = m[0], m[1]
            if tier == 'thorough' and len(m) > 2:
                cfg = m[2]
            r = model_check(module, cfg)
            states += r['distinct']
            trans += r['states']
            detail['model ' + cfg] = dict(states=r['distinct'], transitions=r['states'])
        for name, n in self.families:
            rounds = 1 if n == 0 else max(1, int(self.mult[tier]))  # n = 0: enumerated completely
            for rd in range(rounds):
                rng = random.Random('%s/%s/%d/%d' % (self.prop, name, seed, rd))
                scs = FAMILIES[name]['gen'](rng, n, self.prop, tier)
                tr, verd, st, di = run_family(name, scs)
                states += di
                trans += st
                d = detail.setdefault(name, dict(scenarios=0, errors=0, states=0))
                d['scenarios'] += len(scs)
                d['states'] += di
                for sc, t, v in zip(scs, tr, verd):
                    ntr += 1
                    seen.add(json.dumps(sc, sort_keys=True, default=str)[:4000])
                    mine = [x for x in v if x[0] is None or self.prop in x[0]]
                    if mine:
                        d['errors'] += 1
                        viol.append((name, sc, mine, t.get('where')))
                    elif len(samples) < 3 and t.get('runs') is not None:
                        if len(json.dumps(sc, default=str)) < 4000:
                            samples.append(dict(family=name, scenario=finite(sc)))
                if split_known(self.prop, viol)[1]:
                    break
            if split_known(self.prop, viol)[1]:
                break
        for c, g in GENERATED.items():
            states += g['states']
            trans += g['transitions']
            detail['generator ' + c] = g
        known, fresh = split_known(self.prop, viol)
        ev = dict(property=self.prop, tier=tier, seed=seed, level=self.level, wall_s=round(time.time() - t0, 2),
                  violations=len(fresh),
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=ntr,
                                distinct_scenarios=len(seen), parts=detail, samples=samples or ['none']),
                  assumptions=['TLC and the Java evaluation of the arithmetic module F64 are correct',
                               'events outside numpy.random, the user functions, custom samplers, files and results '
                               'dictionaries are not observed'])
        os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(vlib.VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if fresh:
            name, sc, mine, where = fresh[0]
            path = os.path.join(vlib.VERIF, 'evidence', 'replay_%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, family=name, scenario=sc, clauses=mine, where=where), f, indent=1)
            print('%d of %d scenarios deviate from the specification; first:' % (len(fresh), ntr))
            for c in sorted(mine, key=lambda x: (x[2], x[3]))[:8]:
                print('  run %d step %d: %s [%s]' % (c[2], c[3], c[1], ' '.join(c[0] or [self.prop])))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s: held on %d traces, %d states (%.1f s)' % (self.prop, ntr, states, time.time() - t0))
        return 0


def finite(x):
    """strict JSON: non-finite numbers as strings"""
    if isinstance(x, dict):
        return {k: finite(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [finite(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float('inf'), -float('inf'))):
        return repr(x)
    return x


def split_known(prop, viol):
    """known findings are identified by family scenario id and clause in KNOWN_FINDINGS.txt"""
    keys = {}
    p = os.path.join(vlib.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % prop):
                head, what = line.strip().split(' :: ', 1)
                keys[head.split('key=', 1)[1]] = what
    known, fresh = [], []
    for v in viol:
        left = []
        for c in v[2]:
            k = next((k for k in keys if k == '%s/%s' % (v[0], c[1])), None)
            if k is None:
                left.append(c)
            elif keys[k] not in known:
                known.append(keys[k])
        if left:
            fresh.append((v[0], v[1], left, v[3]))
    return known, fresh


def replay(path):
    vlib.build()
    d = json.load(open(path))
    tr, verd, _, _ = run_family(d['family'], [d['scenario']])
    mine = [x for x in verd[0] if x[0] is None or d['property'] in x[0]]
    for c in mine:
        print(c)
    if tr[0].get('where'):
        print(tr[0]['where'])
    if mine:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1 if mine else 0


def tlc_scenarios(module, cfg, env=None, timeout=600, extra=()):
    """scenarios printed by a generating specification (model checked at the same time)"""
    r = vlib.tlc(module, cfg=cfg, env=env, timeout=timeout, extra=extra)
    if not r['ok']:
        raise MachineryError('generation by %s/%s failed:\n%s' % (module, cfg, vlib.tail(r['out'])))
    out = []
    for l in r['out'].split('\n'):
        if l.startswith('"GEN '):
            out.append(json.loads(json.loads(l)[4:]))
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    GENERATED[cfg] = dict(states=r['distinct'], transitions=r['states'])
    return out


GENERATED = {}


# ------------------------------------------------------------------ settings
def settings_family(kind):
    @family('settings_' + kind, 'SettingsTrace', 'settings', 'run_decl')
    def g(rng, n, prop, tier):
        return tlc_scenarios('SettingsGen', 'SettingsGen_' + kind)
    return g


for _k in ('opt', 'par', 'model'):
    settings_family(_k)


# ------------------------------------------------------------------ sampler
@family('engine', 'DramTrace', 'engine', 'run_scenario')
def engine_gen(rng, n, prop, tier):
    return gen.engine_mix(rng, n, prop)


@family('menu', 'DramTrace', 'engine', 'run_scenario')
def menu_gen(rng, n, prop, tier):
    """behaviours enumerated by MCDram: all sequences of draws from small menus"""
    h = tlc_scenarios('MCDram', 'MCDram' if tier == 'quick' else 'MCDram_deep')
    rng.shuffle(h)
    return [gen.menu(rng, x) for x in h[:n if tier == 'quick' else 4 * n]]


@family('restart', 'DramTrace', 'engine', 'run_scenario')
def restart_gen(rng, n, prop, tier):
    return gen.restart_mix(rng, n)


@family('session', 'SessionTrace', 'session', 'run_session')
def session_gen(rng, n, prop, tier):
    """histories of one object enumerated by MCSession"""
    h = tlc_scenarios('MCSession', 'MCSession' if tier == 'quick' else 'MCSession_deep')
    rng.shuffle(h)
    return [gen.session(rng, x) for x in h[:n if tier == 'quick' else 4 * n]]


for _p, _n in dict(C01=320, C02=320, C03=320, C04=280, C05=320, C06=320, C07=280, C08=320).items():
    Check(_p, ([('menu', 400)] if _p in ('C01', 'C02', 'C03', 'C05', 'C08') else []) + [('engine', _n)])
Check('C14', [('engine', 240), ('log', 80)])
Check('C09', [('session', 300), ('engine', 300), ('log', 40)])
Check('C10', [('restart', 240)])
Check('C19', [('settings_opt', 0), ('engine', 120), ('session', 240)])
Check('C20', [('settings_par', 0), ('engine', 240), ('session', 120)])
Check('C21', [('settings_model', 0), ('engine', 160), ('session', 160)])
Check('C22', [('session', 160), ('engine', 240)])


# ------------------------------------------------------------------ log files, saved results
@family('log_crash', 'LogTrace', 'logs', 'run_log')
def log_crash_gen(rng, n, prop, tier):
    """behaviours enumerated by MCLog: all run lengths up to 5 (8), savesizes and crash positions, one continuation"""
    h = tlc_scenarios('MCLog', 'LogGen' if tier == 'quick' else 'LogGen_deep')
    rng.shuffle(h)
    return [gen.log_from_hist(rng, x) for x in h[:n]]


@family('log', 'LogTrace', 'logs', 'run_log')
def log_gen(rng, n, prop, tier):
    return [gen.log_random(rng) for _ in range(n)]


MCLOG = ('MCLog', 'MCLog', 'MCLog_deep')
Check('C11', [('log_crash', 400), ('log', 120)], mc=[MCLOG])
Check('C12', [('log', 300), ('log_crash', 60)])
Check('C13', [('log', 300)])


# ------------------------------------------------------------------ frame conditions
@family('ops', 'FrameTrace', 'frame', 'run_ops')
def ops_gen(rng, n, prop, tier):
    """histories of operations enumerated by MCFrame"""
    h = tlc_scenarios('MCFrame', 'MCFrame' if tier == 'quick' else 'MCFrame_deep')
    rng.shuffle(h)
    return [gen.frame_ops(rng, x) for x in h[:n]]


@family('pair', 'FrameTrace', 'frame', 'run_pair')
def pair_gen(rng, n, prop, tier):
    return [gen.frame_pair(rng, i) for i in range(n)]


Check('C15', [('pair', 96), ('ops', 40)])
Check('C16', [('ops', 160), ('engine', 60), ('session', 160)])


# ------------------------------------------------------------------ statistics of chains
@family('stats', 'StatsTrace', 'stats', 'run_stats')
def stats_gen(rng, n, prop, tier):
    return [gen.stats(rng) for _ in range(n)]


Check('C24', [('stats', 320)])


# ------------------------------------------------------------------ plots of chains
@family('plots', 'PlotsTrace', 'plots', 'run_plots')
def plots_gen(rng, n, prop, tier):
    return [gen.plots(rng) for _ in range(n)]


Check('C25', [('plots', 240)])


# ------------------------------------------------------------------ intervals
@family('intervals', 'IntervalsTrace', 'intervals', 'run_intervals')
def intervals_gen(rng, n, prop, tier):
    return [gen.intervals(rng) for _ in range(n)]


Check('C23', [('intervals', 300)])


# ------------------------------------------------------------------ parallel simulations
@family('schedules', 'ParallelTrace', 'parallel', 'run_parallel')
def schedules_gen(rng, n, prop, tier):
    """orders of finishing enumerated by MCParallel"""
    h = tlc_scenarios('MCParallel', 'MCParallel' if tier == 'quick' else 'MCParallel_deep')
    h = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in h})]
    rng.shuffle(h)
    return [gen.parallel(rng, x) for x in h[:n]]


@family('parallel', 'ParallelTrace', 'parallel', 'run_parallel')
def parallel_gen(rng, n, prop, tier):
    return [gen.parallel(rng) for _ in range(n)]


@family('starts', 'ParallelTrace', 'parallel', 'run_parallel')
def starts_gen(rng, n, prop, tier):
    return [gen.parallel_starts(rng) for _ in range(n)]


@family('pardirs', 'ParallelTrace', 'parallel', 'run_dirs')
def pardirs_gen(rng, n, prop, tier):
    return [gen.pardirs(rng) for _ in range(n)]


Check('C17', [('schedules', 140), ('parallel', 200), ('starts', 24)])
Check('C18', [('pardirs', 320), ('parallel', 80)])
