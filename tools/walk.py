"""Walks: the transitions TLC finds in a model-checking module (spec/MC*.tla), as scenarios for the real code."""
import json
import os
import re
import struct

import core
import gen

MODULES = {
    # module, depth and fineness of the two tiers, what a walk starts from
    'sim':   ('MCSim', {'quick': ('20', '0'), 'thorough': ('20', '1')}),
    'pid':   ('MCPid', {'quick': ('4', '0'), 'thorough': ('6', '0')}),
    'model': ('MCModel', {'quick': ('2', '0'), 'thorough': ('2', '0')}),
}


def vehicles():
    out = []
    for k in range(2):
        g = gen.Gen('mc%d' % k)
        p = g.sim_par(4, style='real', noise=False, wild=False, sensors=False, uneven=bool(k))
        p['dyn']['st'] = g.state(4, p['dyn']['model'], q=g.level(), wmax=1.0, vmax=2)
        p['dyn']['st']['p'][2] = [0.9, 0.31][k]
        out.append(p)
    return out


def models():
    out = []
    for k in range(2):
        g = gen.Gen('mcm%d' % k)
        p = g.model_par(4, style=['real', 'unit'][k], noise=False, uneven=True)
        out.append(p)
    return out


def decode(v):
    """TLC's JSON back to numbers: a pair of integers is a double"""
    if isinstance(v, dict):
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            return struct.unpack('>d', struct.pack('>ii', *v))[0]
        return [decode(x) for x in v]
    return v


def explore(what, tier, cls, work):
    """model checks the module; returns its states, transitions and walks"""
    module, tiers = MODULES[what]
    depth, fine = tiers[tier]
    env = {'DEPTH': depth, 'FINE': fine, 'EMIT': '1', 'PAR': os.path.join(work, 'par-' + what)}
    base = {'sim': vehicles, 'model': models, 'pid': list}[what]()
    with open(env['PAR'], 'w') as f:
        f.write(''.join(json.dumps(gen.enc(p)) + '\n' for p in base))
    cfg = os.path.join(work, 'mc-%s.cfg' % what)
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n')
    r = core.java(cls, work, os.path.join(core.SPEC, module + '.tla'), cfg, env, fast=tier == 'quick')
    if not r['ok']:
        raise core.Broken('%s: %s' % (module, r['out'][-2500:]))
    m = re.search(r'<<"ALPHABET", "(.*)">>', r['out'])
    out = {'what': what, 'module': module, 'distinct': r['distinct'], 'gen': r['gen'], 'secs': r['secs'],
           'alphabet': decode(json.loads(m.group(1).replace('\\"', '"'))), 'base': base,
           'walks': [(int(a), [int(x) for x in b.split(',')]) for a, b in re.findall(r'<<"W", (\d+), <<([\d, ]+)>>>>', r['out'])]}
    m = re.search(r'<<"PARAMS", "(.*)">>', r['out'])
    if m:
        out['base'] = decode(json.loads(m.group(1).replace('\\"', '"')))
    if what == 'pid':
        out['walks'] = [w for w in out['walks'] if plain(out, w)]
    return out


def plain(m, w):
    """the restart flag with an axis that has no integral limit is left out: the documentation does not say what it means"""
    p = m['base'][w[0] - 1]
    ri, aw = p['ri'], p['aw']
    for k in w[1]:
        c = m['alphabet'][k - 1]
        if c['op'] == 'sri':
            ri = c['a']['b']
        elif c['op'] == 'saw':
            aw = c['a']['v']
        elif c['op'] == 'upd':
            ri, aw = c['a']['p']['ri'], c['a']['p']['aw']
        if ri and min(aw) <= 0:
            return False
    return True
