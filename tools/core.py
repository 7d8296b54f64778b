"""Building the driver, running it, and validating its traces with TLC."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
DRV = os.path.join(HERE, 'driver')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
FLAGS = ['-std=c++17', '-O0', '-w', '-I%s/multirotor_simulator' % REPO, '-I%s/pid_controller/include' % REPO,
         '-I/usr/include/eigen3']
UNITS = ['main', 'pid_d', 'pid_f', 'sens', 'veh_d4', 'veh_d6', 'veh_d8', 'veh_f4']


class Broken(Exception):
    """the check cannot give an answer (exit 2)"""


def log(*a):
    print(*a, flush=True)


def javac(work):
    cls = os.path.join(work, 'cls')
    os.makedirs(cls, exist_ok=True)
    src = [os.path.join(SPEC, 'java', f) for f in sorted(os.listdir(os.path.join(SPEC, 'java'))) if f.endswith('.java')]
    r = subprocess.run(['javac', '-cp', TLAJARS, '-d', cls] + src, capture_output=True, text=True)
    if r.returncode:
        raise Broken('javac: ' + r.stderr)
    return cls


def compile_unit(work, u, extra=()):
    o = os.path.join(work, u + '.o')
    r = subprocess.run(['g++'] + FLAGS + list(extra) + ['-c', os.path.join(DRV, u + '.cpp'), '-o', o], capture_output=True, text=True)
    return u, o, r


def build(work, units):
    """returns (driver path, {unit: compiler message} of units that do not compile)"""
    units = ['main'] + [u for u in units if u != 'main']
    # the largest first
    order = sorted(units, key=lambda u: not u.startswith('veh'))
    objs, failed = [], {}
    with ThreadPoolExecutor(8) as ex:
        for u, o, r in ex.map(lambda u: compile_unit(work, u), order):
            if r.returncode:
                failed[u] = r.stderr
            else:
                objs.append(o)
    if 'main' in failed:
        raise Broken('driver does not compile: ' + failed['main'][:2000])
    drv = os.path.join(work, 'drv')
    r = subprocess.run(['g++', '-o', drv] + objs, capture_output=True, text=True)
    if r.returncode:
        raise Broken('link: ' + r.stderr[:2000])
    return drv, failed


def units_of(traces):
    need = set()
    for t in traces:
        for line, head in t['ev']:
            m = re.match(r'\d+ new (\S+)', line)
            if m:
                b, p = m.group(1).split('.')
                if b.startswith('pid'):
                    need.add('pid_' + p)
                elif b in ('imu', 'odo'):
                    need.add('sens')
                else:
                    need.add('veh_' + p)
    return sorted(need)


def units_of_plan(entries):
    need = set()
    for fam, kw, _ in entries:
        p = kw.get('prec', 'd')
        if fam.startswith(('pid', 'walk_pid')) or (fam in ('twin', 'unset') and kw.get('what', 'pid') == 'pid'):
            need.add('pid_' + p)
        if fam.startswith(('imu', 'odo', 'csv', 'print')) or (fam in ('twin', 'unset') and kw.get('what', 'imu') in ('imu', 'odo')):
            need.add('sens')
        if not fam.startswith(('pid', 'imu', 'odo', 'walk_pid')) and not (fam in ('twin', 'unset') and kw.get('what') in ('pid', 'imu', 'odo')):
            need.add('veh_%s%d' % (p, kw.get('n', 4)))
    return sorted(need)


def write_scenario(traces, path):
    with open(path, 'w') as f:
        for t in traces:
            f.write('T\n')
            for line, _ in t['ev']:
                f.write(line + '\n')


def run_driver(drv, traces, work, name, timeout):
    """runs one batch; returns (list of event lists, None) or (.., (index of trace, index of event, how it died))"""
    sc, out = os.path.join(work, name + '.scn'), os.path.join(work, name + '.out')
    write_scenario(traces, sc)
    died = None
    try:
        r = subprocess.run([drv, sc, out], capture_output=True, text=True, timeout=timeout)
        if r.returncode in (64, 65, 66, 67):
            raise Broken('driver: ' + r.stderr[:500])
        if r.returncode:
            died = 'exit %d' % r.returncode if r.returncode > 0 else signal.Signals(-r.returncode).name
    except subprocess.TimeoutExpired:
        died = 'no end within %d s' % timeout
    res, ti, ei = [], -1, 0
    with open(out) as f:
        for ln in f:
            if not ln.endswith('\n'):
                break
            ln = ln[:-1]
            if ln == 'T':
                ti += 1
                ei = 0
                res.append([])
                continue
            head = traces[ti]['ev'][ei][1]
            res[-1].append(head if ln == 'R' else head[:-1] + ',' + ln)
            ei += 1
    if died:
        return res, (max(ti, 0), ei, died)
    if len(res) != len(traces) or any(len(a) != len(b['ev']) for a, b in zip(res, traces)):
        raise Broken('driver output incomplete')
    return res, None


def write_trace(evs, path):
    with open(path, 'w') as f:
        for t in evs:
            f.write('[' + ','.join(t) + ']\n')


CFG = """SPECIFICATION Spec
INVARIANT NoViolation
VIEW View
ALIAS Where
CHECK_DEADLOCK FALSE
"""


def java(cls, work, module, cfg, env, workers=1, mem='3g', extra=(), timeout=800, fast=True):
    meta = tempfile.mkdtemp(dir=work, prefix='meta')
    e = dict(os.environ)
    e.update(env)
    cmd = ['java', '-Xmx' + mem, '-XX:+UseSerialGC'] + (['-XX:TieredStopAtLevel=1'] if fast else []) + ['-Xss64m', '-cp', cls + ':' + TLAJARS, '-DTLA-Library=' + SPEC,
           '-Djava.io.tmpdir=' + meta,
           'tlc2.TLC', '-config', cfg, '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE'] + list(extra) + [module]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Broken('TLC took longer than %d s' % timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return {'rc': r.returncode, 'out': out, 'gen': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0,
            'secs': time.time() - t0, 'ok': 'No error has been found' in out}


def tlc_traces(cls, work, evs, prop, name, timeout=800, fast=True):
    """validates traces; returns dict with verdict: ok / violation (trace, event, clauses) / broken"""
    path = os.path.join(work, name + '.ndjson')
    write_trace(evs, path)
    cfg = os.path.join(work, name + '.cfg')
    with open(cfg, 'w') as f:
        f.write(CFG)
    r = java(cls, work, os.path.join(SPEC, 'Trace.tla'), cfg, {'TRACE': path, 'PROP': prop}, timeout=timeout, fast=fast)
    out = r['out']
    cov = set()
    flat = re.sub(r'\s+', ' ', out)
    r['known'] = sorted({k for m in re.finditer(r'<< ?"KNOWN", ?\{(.*?)\} ?>>', flat)
                         for k in re.findall(r'<< ?"(C\d\d)", "([^"]*)" ?>>', m.group(1))})
    for m in re.finditer(r'<<\s*"COV",\s*\{([^}]*)\}\s*>>', flat):
        cov.update(re.findall(r'"([^"]*)"', m.group(1)))
    r['cov'] = cov
    r['verdict'] = 'broken'
    if r['ok']:
        want = sum(len(t) + 1 for t in evs)
        if r['distinct'] == want:
            r['verdict'] = 'ok'
        else:
            r['out'] += '\ncovered %d of %d states' % (r['distinct'], want)
    elif 'Invariant NoViolation is violated' in out:
        st = re.findall(r'State \d+: .*?\n(.*?)(?=\n\n|\nState |\Z)', out, re.S)
        last = st[-1] if st else ''
        last = re.sub(r'\s+', ' ', last)
        m = re.search(r'trace = (\d+)', last)
        n = re.search(r'event = (\d+)', last)
        if m and n:
            r['verdict'] = 'violation'
            r['trace'], r['event'] = int(m.group(1)) - 1, int(n.group(1)) - 1
            r['clauses'] = sorted(set(re.findall(r'<<\s*"%s",\s*"([^"]*)"\s*>>' % prop, last)))
    return r
