#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]    decide one property on /repo's current tree
   check.py --replay DIR                                   validate a recorded violation again

Scenarios are drawn from the specification's operations, executed by the driver against the
real code, and the recorded traces are validated by TLC against spec/Trace.tla.
Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import argparse
import json
import os
import pickle
import random
import signal
import subprocess
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import gen
import plan
import walk

SHARDS = 8
EVID = os.path.join(core.HERE, 'evidence')


def jobs_of(prop, tier, seed, rnd, walks):
    """the traces of one round, as (family, args, seed) jobs spread over the shards"""
    jobs = []
    for k, (fam, kw, n) in enumerate(plan.PLAN[prop]):
        if fam.startswith('walk_'):
            # the walks in a seeded order, a further part of them in every round
            w = walks[fam[5:]]['walks']
            order = list(range(len(w)))
            random.Random('%d/%s' % (seed, fam)).shuffle(order)
            n = n if tier == 'quick' else 8 * n
            for i in range(n):
                jobs.append((fam, dict(kw, walk=order[(rnd * n + i) % len(order)]), '%d/%d/%s/%d/%d' % (seed, rnd, prop, k, i)))
            continue
        for i in range(n):
            jobs.append((fam, kw, '%d/%d/%s/%d/%d' % (seed, rnd, prop, k, i)))
    random.Random(seed).shuffle(jobs)
    return [jobs[i::SHARDS] for i in range(SHARDS)]


def make(jobs, work):
    out, walks = [], None
    for fam, kw, sd in jobs:
        g = gen.Gen(sd)
        if fam.startswith('walk_'):
            if walks is None:
                with open(os.path.join(work, 'walks'), 'rb') as f:
                    walks = pickle.load(f)
            w = walks[fam[5:]]
            kw = dict(kw, w=w, walk=w['walks'][kw['walk']])
            if fam == 'walk_model':
                kw['kind'] = g.pick('model', 'model', 'dyn', 'sim')
            else:
                kw['own'] = g.chance(0.5)
        g.flt = kw.get('prec') == 'f'
        getattr(g, 'fam_' + fam)(**kw)
        for t in g.traces:
            t['job'] = (fam, {k: v for k, v in kw.items() if k != 'w'}, sd)
            out.append(t)
    return out


def shard(a):
    """generate, execute and validate one shard; runs in its own process"""
    prop, work, drv, cls, jobs, name, fast, missing, budget = a
    try:
        traces = [t for t in make(jobs, work) if not set(core.units_of([t])) & missing]
        if not traces:
            return {'verdict': 'ok', 'events': 0, 'traces': 0, 'distinct': 0, 'gen': 0, 'known': [], 'cov': set(), 'fams': {}, 'sample': None}
        evs, died = core.run_driver(drv, traces, work, name, 240)
        if died:
            # confirm: the same trace alone, then the batch again
            one, d1 = core.run_driver(drv, [traces[died[0]]], work, name + '.again', 120)
            d2 = None if d1 else core.run_driver(drv, traces, work, name + '.again', 240)[1]
            if not d1 and not d2:
                raise core.Broken('driver died once (%s) and not again' % died[2])
            t = traces[died[0]]
            return {'verdict': 'died', 'job': t['job'], 'event': died[1], 'how': died[2], 'scn': t['ev'], 'lines': evs[died[0]] if died[0] < len(evs) else []}
        r = core.tlc_traces(cls, work, evs, prop, name, fast=fast, timeout=budget)
        if r['verdict'] == 'violation':
            t = traces[r['trace']]
            rec = evs[r['trace']][:r['event'] + 1]
            # the recorded execution again, and the execution again
            r1 = core.tlc_traces(cls, work, [rec], prop, name + '.re', fast=fast, timeout=budget)
            if r1['verdict'] != 'violation':
                raise core.Broken('rejection not repeated by TLC')
            again, d = core.run_driver(drv, [t], work, name + '.again', 120)
            r2 = core.tlc_traces(cls, work, again, prop, name + '.re2', fast=fast, timeout=budget) if not d else None
            return {'verdict': 'violation', 'job': t['job'], 'event': r['event'], 'clauses': r1['clauses'] or r['clauses'],
                    'scn': t['ev'], 'lines': rec, 'repeats': bool(d) or r2['verdict'] == 'violation', 'out': r1['out'][-3000:]}
        if r['verdict'] != 'ok':
            raise core.Broken('TLC: ' + r['out'][-3000:])
        fams = {}
        for t in traces:
            fams[t['fam']] = fams.get(t['fam'], 0) + 1
        return {'verdict': 'ok', 'events': sum(map(len, evs)), 'traces': len(evs), 'distinct': r['distinct'], 'gen': r['gen'], 'known': r['known'],
                'cov': r['cov'], 'fams': fams, 'sample': [json.loads(h) for _, h in traces[0]['ev'][1:4]], 'secs': r['secs']}
    except core.Broken as e:
        return {'verdict': 'broken', 'why': str(e)}
    except Exception as e:      # noqa: a failure of the machinery is never a verdict
        return {'verdict': 'broken', 'why': traceback.format_exc()}


def spread(args, work):
    """runs shards as separate processes and yields their results as they end; closing it stops the rest"""
    procs = []
    for i, a in enumerate(args):
        f = os.path.join(work, 'job%d' % i)
        with open(f, 'wb') as h:
            pickle.dump(a, h)
        procs.append((f, subprocess.Popen([sys.executable, os.path.abspath(__file__), '--shard', f], start_new_session=True)))
    try:
        left = list(procs)
        while left:
            for x in list(left):
                if x[1].poll() is not None:
                    left.remove(x)
                    try:
                        with open(x[0] + '.out', 'rb') as h:
                            r = pickle.load(h)
                    except (OSError, EOFError, pickle.PickleError):
                        r = {'verdict': 'broken', 'why': 'shard ended with %s' % x[1].returncode}
                    yield r
            time.sleep(0.02)
    finally:
        for _, q in procs:
            if q.poll() is None:
                try:
                    os.killpg(q.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                q.wait()


def save_replay(prop, r):
    d = os.path.join(EVID, 'replay-' + prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, 'scenario.txt'), 'w') as f:
        f.write('T\n' + ''.join(x[0] + '\n' for x in r['scn']))
    with open(os.path.join(d, 'heads.json'), 'w') as f:
        json.dump([x[1] for x in r['scn']], f)
    core.write_trace([r['lines']], os.path.join(d, 'trace.ndjson'))
    with open(os.path.join(d, 'info.json'), 'w') as f:
        json.dump({'property': prop, 'job': r['job'], 'event': r['event'], 'clauses': r.get('clauses'), 'died': r.get('how'),
                   'repeats': r.get('repeats'), 'line': r['scn'][min(r['event'], len(r['scn']) - 1)][0]}, f, indent=1)
    return d


def known_findings():
    out = []
    with open(os.path.join(core.HERE, 'known_findings.txt')) as f:
        for ln in f:
            ln = ln.strip()
            if ln.startswith('known: '):
                m = dict(x.split('=', 1) for x in ln[7:].split(' ')[:1])
                out.append((m['property'], ln[7:].split(' ', 1)[1]))
    return out


def run(prop, tier, seed, work):
    t0 = time.time()
    budget = 45 if tier == 'quick' else 600
    tot = {'events': 0, 'traces': 0, 'distinct': 0, 'gen': 0, 'fams': {}, 'cov': set(), 'known': set(), 'sample': None, 'rounds': 0}
    status, viol = 'ok', None
    units = core.units_of_plan(plan.PLAN[prop])
    which = sorted({f[5:] for f, _, _ in plan.PLAN[prop] if f.startswith('walk_')})

    def explore():
        cls = core.javac(work)
        return cls, {w: walk.explore(w, tier, cls, work) for w in which}
    with ThreadPoolExecutor(1) as ex:
        mc = ex.submit(explore)
        drv, failed = core.build(work, units)
        cls, walks = mc.result()
    with open(os.path.join(work, 'walks'), 'wb') as f:
        pickle.dump(walks, f)
    for u, msg in failed.items():
        core.log('driver unit %s does not compile against the tree:\n%s' % (u, msg[:1500]))
        if u in ('veh_d4', 'pid_d', 'sens'):
            raise core.Broken('the base configuration does not compile')
        if prop == 'C29':
            d = os.path.join(EVID, 'replay-' + prop)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'compile.txt'), 'w') as f:
                f.write(u + '\n' + msg)
            viol = d
    rnd, broken = 0, None
    while viol is None:
        args = [(prop, work, drv, cls, j, 's%d' % i, tier == 'quick', set(failed), 700) for i, j in enumerate(jobs_of(prop, tier, seed, rnd, walks))]
        results = spread(args, work)
        for r in results:
            if r['verdict'] == 'broken':      # a violation in another shard still counts
                broken = broken or r['why']
                continue
            if r['verdict'] in ('violation', 'died'):
                viol = save_replay(prop, r)
                core.log('%s: event %d of a %s trace: %s' % (prop, r['event'], r['job'][0], r.get('how') or '; '.join(r['clauses'])))
                core.log('   ' + r['scn'][min(r['event'], len(r['scn']) - 1)][0][:300])
                break
            for k in ('events', 'traces', 'distinct', 'gen'):
                tot[k] += r[k]
            for k, v in r['fams'].items():
                tot['fams'][k] = tot['fams'].get(k, 0) + v
            tot['cov'] |= r['cov']
            tot['known'] |= set(r['known'])
            tot['sample'] = tot['sample'] or r['sample']
        results.close()
        if broken and viol is None:
            raise core.Broken(broken)
        rnd += 1
        tot['rounds'] = rnd
        if rnd == 2 if tier == 'quick' else time.time() - t0 > budget:
            break
    if viol:
        core.log('VIOLATION property=%s replay=%s' % (prop, viol))
    listed = known_findings()
    for p, what in sorted(tot['known']):
        if p != prop:
            continue
        if (p, what) in listed:
            core.log('KNOWN-FINDING: property=%s %s' % (p, what))
        elif viol is None:
            viol = save_known(prop, what)
            core.log('VIOLATION property=%s replay=%s' % (prop, viol))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 1),
          'violations': 1 if viol else 0,
          'coverage': {'states': tot['distinct'] + sum(w['distinct'] for w in walks.values()),
                       'transitions': tot['events'] + sum(w['gen'] for w in walks.values()),
                       'model_checked': {w['module']: {'situations': w['distinct'], 'transitions': w['gen']} for w in walks.values()}, 'traces_validated_against_impl': tot['traces'],
                       'rounds': tot['rounds'], 'traces_by_family': tot['fams'], 'situations_met': sorted(tot['cov']),
                       'samples': tot['sample'] or [{'replay': viol}],
                       'driver_units_not_compiled': sorted(failed)},
          'assumptions': ['g++ -O0 build of the headers under test', 'the driver records arguments and getters faithfully',
                          'TLC and the Java implementation of the arithmetic operators (spec/java) are correct',
                          'only the sampled histories are decided']}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    core.log('%s %s: %d traces, %d events, %d rounds, %.0f s' % (prop, tier, tot['traces'], tot['events'], tot['rounds'], time.time() - t0))
    return 1 if viol else 0


def save_known(prop, what):
    d = os.path.join(EVID, 'replay-' + prop)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'info.json'), 'w') as f:
        json.dump({'property': prop, 'clauses': [what]}, f)
    return d


def replay(d, work):
    with open(os.path.join(d, 'info.json')) as f:
        info = json.load(f)
    with open(os.path.join(d, 'scenario.txt')) as f:
        lines = f.read().splitlines()[1:]
    with open(os.path.join(d, 'heads.json')) as f:
        heads = json.load(f)
    t = {'fam': 'replay', 'ev': list(zip(lines, heads))}
    cls = core.javac(work)
    drv, failed = core.build(work, core.units_of([t]))
    if failed:
        raise core.Broken(str(failed))
    evs, died = core.run_driver(drv, [t], work, 'replay', 300)
    if died:
        core.log('dies at event %d: %s\n   %s' % (died[1], died[2], lines[min(died[1], len(lines) - 1)]))
        return 1
    r = core.tlc_traces(cls, work, evs, info['property'], 'replay')
    core.log(r['verdict'], r.get('event'), r.get('clauses'))
    if r['verdict'] == 'violation':
        core.log(evs[0][r['event']])
    return {'ok': 0, 'violation': 1}.get(r['verdict'], 2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--shard')
    a = ap.parse_args()
    if a.shard:
        with open(a.shard, 'rb') as f:
            r = shard(pickle.load(f))
        with open(a.shard + '.tmp', 'wb') as f:
            pickle.dump(r, f)
        os.replace(a.shard + '.tmp', a.shard + '.out')
        return
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    work = tempfile.mkdtemp(prefix='qmverif-')
    try:
        rc = replay(a.replay, work) if a.replay else run(a.prop, tier, seed, work)
    except core.Broken as e:
        core.log('NO ANSWER: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
