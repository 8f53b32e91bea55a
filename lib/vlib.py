"""Shared machinery: run TLC, run drivers in parallel, collect verdicts, write evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
LIB = os.path.join(VERIF, 'lib')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCORE = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


def build():
    """compile the Java side of the modules F64 and J if necessary"""
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(SPEC, f) for f in sorted(os.listdir(SPEC)) if f.endswith('.java')]
    todo = [s for s in src if not os.path.exists(os.path.join(BUILD, os.path.basename(s)[:-5] + '.class'))
            or os.path.getmtime(os.path.join(BUILD, os.path.basename(s)[:-5] + '.class')) < os.path.getmtime(s)]
    if todo:
        p = subprocess.run(['javac', '-cp', JARS, '-d', BUILD] + src, capture_output=True, text=True)
        if p.returncode:
            raise MachineryError('javac failed: ' + p.stderr)


def scratch(prefix='verif_'):
    return tempfile.mkdtemp(prefix=prefix)


SUM = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc(module, cfg=None, env=None, workers=NCORE, extra=(), timeout=600, heap='6g'):
    """-> dict(out, states, distinct, ok)"""
    md = scratch('verif_tlc_')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m', '-cp', BUILD + ':' + JARS, '-DTLA-Library=' + SPEC,
           '-Djava.io.tmpdir=' + md, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', md, '-workers', str(workers),
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = p.stdout
    m = None
    for m in SUM.finditer(out):
        pass
    return dict(out=out, rc=p.returncode, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                ok='Model checking completed. No error has been found.' in out, err=p.stderr)


VERD = re.compile(r'^"?VERDICT (\d+) (.*?)"?$', re.M)
ITEM = re.compile(r'<<\\?"(.*?)\\?", \\?"(.*?)\\?", (-?\d+), (-?\d+)>>')


def verdicts(out):
    """trace number -> list of (properties, clause, run, step)"""
    r = {}
    for m in VERD.finditer(out):
        r[int(m.group(1))] = [(a.split(), b, int(c), int(d)) for a, b, c, d in ITEM.findall(m.group(2))]
    return r


def validate_once(module, traces, timeout=600, env=None, workers=NCORE):
    d = scratch('verif_tr_')
    try:
        path = os.path.join(d, 'trace.json')
        with open(path, 'w') as f:
            json.dump(traces, f)
        e = dict(TRACE=path)
        e.update(env or {})
        r = tlc(module, env=e, timeout=timeout, workers=workers, heap='6g' if workers > 1 else '1500m')
        v = verdicts(r['out'])
        if not r['ok'] or len(v) != len(traces):
            raise MachineryError('trace validation of %s failed (%d of %d verdicts):\n%s\n%s' % (
                module, len(v), len(traces), tail(r['out']), r['err'][-2000:]))
        return [v[i + 1] for i in range(len(traces))], r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, traces, timeout=600, env=None):
    """check recorded traces against a trace specification; -> (verdict per trace, states, distinct)
    A trace TLC cannot evaluate (a value of the wrong shape) is isolated and reported as such."""
    try:
        v, r = validate_once(module, traces, timeout, env)
        return v, r['states'], r['distinct']
    except MachineryError as ex:
        if len(traces) == 1:
            return [[(None, 'the recorded behaviour has no counterpart in the specification: ' + str(ex)[-600:], 0, 0)]], 0, 0
        from concurrent.futures import ThreadPoolExecutor
        size = max(1, len(traces) // 8)
        chunks = [traces[i:i + size] for i in range(0, len(traces), size)]
        bad = []

        def one(ch):
            try:
                v, r = validate_once(module, ch, timeout, env, workers=1)
                return v, r['states'], r['distinct']
            except MachineryError as e2:
                if len(ch) == 1:
                    bad.append(str(e2))
                    return [[(None, 'the recorded behaviour has no counterpart in the specification: ' + str(e2)[-600:], 0, 0)]], 0, 0
                if len(bad) > 12:
                    return [[] for _ in ch], 0, 0
                h = len(ch) // 2
                a, b = one(ch[:h]), one(ch[h:])
                return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        with ThreadPoolExecutor(NCORE) as ex:
            res = list(ex.map(one, chunks))
        return [x for r in res for x in r[0]], sum(r[1] for r in res), sum(r[2] for r in res)


def tail(out):
    i = out.find('Error:')
    return out[i:i + 3000] if i >= 0 else out[-3000:]


def child_env(extra=None):
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONPATH=LIB + ':' + REPO, VERIF_REPO=REPO)
    e.update(extra or {})
    return e


def drive(jobs, timeout=600, njobs=NCORE):
    """run driver jobs (list of dict(kind=.., ...)) in parallel child processes -> list of results"""
    if not jobs:
        return []
    d = scratch('verif_drv_')
    try:
        chunks = [list(range(i, len(jobs), njobs)) for i in range(min(njobs, len(jobs)))]
        procs = []
        mpl = os.path.join(d, 'mpl')
        os.makedirs(mpl)
        for n, ch in enumerate(chunks):
            a, b = os.path.join(d, 'in%d.json' % n), os.path.join(d, 'out%d.json' % n)
            with open(a, 'w') as f:
                json.dump([jobs[i] for i in ch], f)
            lf = open(os.path.join(d, 'log%d' % n), 'w')
            procs.append((ch, b, lf.name, subprocess.Popen([PY, os.path.join(LIB, 'drive.py'), a, b],
                          env=child_env(dict(MPLCONFIGDIR=mpl)), stdout=lf, stderr=lf, cwd=d)))
            lf.close()
        res = [None] * len(jobs)
        end = time.time() + timeout
        for ch, b, log, p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q in procs:
                    q[3].kill()
                raise MachineryError('driver timed out')
        for ch, b, log, p in procs:
            out = []
            if os.path.exists(b):
                with open(b) as f:
                    out = [json.loads(l) for l in f if l.endswith('\n')]
            if not out and len(ch) and p.returncode and 'Error' in open(log).read() and not os.path.exists(b):
                raise MachineryError('driver failed: ' + open(log).read()[-3000:])
            for n, i in enumerate(ch):
                res[i] = out[n] if n < len(out) else dict(
                    error='process ended (%s)' % p.returncode, where=open(log).read()[-2000:], runs=[]) \
                    if n == len(out) else dict(skipped=True, runs=[])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
