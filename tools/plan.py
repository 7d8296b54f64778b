"""Which families of scenarios decide which property: (family, arguments, traces in the quick tier)."""

REST = ('acro', 'accel', 'traj', 'vel', 'pos')


def n68(fam, k, **kw):
    return [(fam, dict(kw, n=6), k), (fam, dict(kw, n=8), k)]


PLAN = {
    'C01': [('sim', dict(steps=60, params=0.01), 160), ('sim_modes', dict(steps=25), 40), ('sim_floor', {}, 40)],
    'C02': [('sim_modes', {}, 100), ('sim', dict(steps=60), 60), ('sim_flight', dict(steps=120), 8)],
    'C03': [('sim', dict(steps=70, params=0.01), 140), ('sim_modes', dict(steps=30), 60)],
    'C04': [('sim', dict(steps=80, upd=0.25, params=0.0), 160), ('sim', dict(steps=80, upd=0.5, params=0.05), 60)],
    'C05': [('sim_modes', dict(rate=0.9), 90), ('sim', dict(steps=60), 60), ('ctl', dict(ops=['yawrate', 'yawrate', 'kacro']), 60)],
    'C06': [('sim_floor', {}, 240), ('sim_floor', dict(noise=False), 160), ('sim', dict(steps=60), 50), ('sim_flight', dict(steps=120), 8)],
    'C07': [('sim_floor', {}, 240), ('sim_floor', dict(noise=True), 120), ('sim_floor', dict(noise=False), 120), ('sim', dict(steps=60), 40),
            ('sim_flight', dict(steps=120), 8)],
    'C08': [('dyn', {}, 360), ('dyn', dict(noise=True), 160), ('model', {}, 120), ('sim_floor', {}, 60), ('sim', {}, 50)],
    'C09': [('dyn', {}, 360), ('dyn', dict(noise=True), 160), ('model', {}, 120), ('sim_floor', {}, 60), ('sim', {}, 50)],
    'C10': [('dyn_long', {}, 360), ('dyn', {}, 200), ('sim_floor', dict(noise=False), 100), ('sim', {}, 60)],
    'C11': [('dyn', {}, 600), ('dyn_long', {}, 150), ('sim', {}, 60), ('sim_flight', dict(steps=100), 4)],
    'C12': [('dyn', {}, 240), ('dyn_long', {}, 80), ('odo', {}, 100), ('odo_long', dict(steps=800), 12), ('sim_flight', dict(steps=300), 8),
            ('sim', {}, 60), ('ctl', {}, 120)],
    'C13': [('model', {}, 420), ('dyn', {}, 120), ('sim', dict(params=0.15), 30)] + n68('model', 130),
    'C14': [('model', {}, 420), ('dyn', {}, 240), ('sim', dict(params=0.2), 80)] + n68('model', 60),
    'C15': [('model_seq', {}, 60), ('model_stat', dict(steps=1500), 8), ('dyn_stat', dict(steps=800), 4), ('dyn', dict(noise=True), 200),
            ('sim_floor', dict(noise=True), 80), ('model', {}, 60), ('sim', dict(noise=True), 60), ('twin', dict(what='model'), 16)],
    'C16': [('pid', {}, 500), ('pid_long', {}, 16), ('pid_windup', {}, 120)],
    'C17': [('pid', dict(lim='prop'), 180), ('pid', dict(lim='asym'), 120), ('pid', dict(lim='bad'), 100), ('pid', dict(lim='onesided'), 60), ('pid', {}, 200)],
    'C18': [('pid_windup', {}, 400), ('pid', {}, 250), ('pid_long', dict(steps=800), 16)],
    'C19': [('pid_fresh', {}, 320), ('ctl_fresh', {}, 200), ('pid', dict(setters=0.25), 120)],
    'C20': [('pid_axes', {}, 320)],
    'C21': [('ctl', dict(ops=['accel', 'kacc', 'rates', 'thrust', 'kacc', 'accel']), 500), ('sim_modes', {}, 40)],
    'C22': [('ctl', dict(ops=['traj', 'vel', 'pos', 'ktraj', 'kvel', 'kpos', 'pos', 'traj']), 420), ('sim_modes', {}, 50), ('ctl', {}, 120), ('sim_flight', dict(steps=100), 4)],
    'C23': [('ctl', dict(ops=['acro', 'kacro', 'accel', 'pos']), 500), ('sim_modes', {}, 50), ('sim_flight', dict(steps=100), 4), ('model', {}, 60)],
    'C24': [('imu', {}, 400), ('imu_seq', {}, 60), ('imu_stat', {}, 8), ('sim', {}, 60), ('sim_track', {}, 8)],
    'C25': [('odo', {}, 400), ('odo_long', dict(steps=600), 12), ('sim', {}, 60), ('sim_flight', dict(steps=100), 8)],
    'C26': [('sim_track', {}, 48), ('sim_track', dict(steps=30), 60)],
    'C27': [('pid', dict(setters=0.45), 260), ('ctl_live', {}, 260), ('sim', dict(params=0.25), 90), ('dyn', {}, 80), ('imu', {}, 60)],
    'C28': [('twin', dict(what=w), 60) for w in ('pid', 'imu', 'odo', 'model', 'ctl')] + [('twin', dict(what='dyn'), 110), ('twin', dict(what='sim'), 110), ('dyn', {}, 60), ('pid', {}, 60), ('ctl', {}, 40)],
    'C29': [(f, dict(prec='f'), 30) for f in ('pid', 'pid_windup', 'pid_axes', 'pid_fresh', 'imu', 'imu_seq', 'odo', 'model', 'model_seq', 'dyn', 'dyn_long', 'ctl', 'ctl_fresh', 'ctl_live', 'sim', 'sim_floor')]
           + [('sim_modes', dict(prec='f'), 12), ('twin', dict(prec='f'), 16), ('csv', dict(prec='f'), 12)]
           + [x for f, k in (('model', 40), ('dyn', 50), ('dyn_long', 20), ('ctl', 30), ('ctl_live', 15), ('sim', 25), ('sim_floor', 20), ('sim_modes', 12), ('twin', 10), ('csv', 8)) for x in n68(f, k)],
    'C30': [('csv', {}, 260), ('odo', {}, 60), ('sim', {}, 30), ('dyn', {}, 60)],
}

PLAN['C31'] = [('sim_goal', {}, 64), ('sim_goal', dict(legs=2), 32)]

PLAN['C32'] = [('unset', dict(what=w), k) for w, k in (('pid', 120), ('imu', 60), ('odo', 40), ('model', 60), ('dyn', 90), ('ctl', 120), ('sim', 90))]

PLAN['C33'] = [('fun', {}, 300)] + n68('fun', 60)
PLAN['C29'] += [('fun', dict(prec='f'), 20), ('print', dict(prec='f'), 8)]
PLAN['C34'] = [('print', {}, 220), ('sim', {}, 24)] + n68('print', 30)

# long flights and long runs of steps of which only the outcome is observed
for c in ('C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C22', 'C23', 'C25', 'C27'):
    PLAN[c].append(('sim_warp', {}, 16))
PLAN['C05'].append(('sim_warp', dict(rate=0.9), 24))
PLAN['C24'].append(('sim_warp', dict(noise=False), 16))
for c in ('C08', 'C09', 'C10', 'C11', 'C12'):
    PLAN[c].append(('dyn_many', {}, 40))
PLAN['C10'].append(('dyn_vlong', {}, 30))

# thousands of calls, each observed
for c in ('C16', 'C18'):
    PLAN[c].append(('pid_long', dict(steps=6000), 3))
for c in ('C12', 'C25'):
    PLAN[c].append(('odo_long', dict(steps=6000), 3))
PLAN['C24'].append(('imu_hold', dict(steps=6000), 3))

# vehicles with more rotors
for c in ('C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C10', 'C11', 'C12', 'C27', 'C28'):
    PLAN[c].append(('sim', dict(n=6), 24))
for c in ('C08', 'C09', 'C10', 'C11', 'C12', 'C15'):
    PLAN[c] += n68('dyn', 20)
for c in ('C06', 'C07'):
    PLAN[c].append(('sim_floor', dict(n=8), 24))
PLAN['C28'].append(('twin', dict(n=6), 24))
PLAN['C23'] += n68('ctl', 24)
PLAN['C30'] += n68('csv', 30)
PLAN['C14'].append(('dyn', dict(n=8), 24))

# the same call over and over; a vehicle that waits
for c, k in (('C16', 16), ('C17', 8), ('C18', 10), ('C27', 6)):
    PLAN[c].append(('pid_hold', {}, k))
PLAN['C19'].append(('pid_fresh', dict(steps=500, after=60, rounds=2), 12))
PLAN['C20'].append(('pid_axes', dict(steps=4, hold=True), 16))
PLAN['C24'] += [('imu_hold', {}, 16), ('imu_new', {}, 6)]
for c, k in (('C25', 16), ('C12', 8)):
    PLAN[c].append(('odo_hold', {}, k))
for c in ('C21', 'C22', 'C23'):
    PLAN[c].append(('ctl_hold', {}, 24))
for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C10', 'C11', 'C12', 'C24', 'C25', 'C27'):
    PLAN[c].append(('sim_idle', {}, 24))
PLAN['C28'] += [('twin', dict(what=w, steps=150), 6) for w in ('pid', 'imu', 'odo', 'model', 'ctl', 'dyn', 'sim')]

for c in ('C02', 'C03', 'C04', 'C10', 'C14', 'C27'):
    PLAN[c].append(('sim_frame', dict(what=c), 40))

# transitions found by model checking the specification (spec/MC*.tla)
for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C10'):
    PLAN[c].append(('walk_sim', {}, 400))
for c in ('C12', 'C22', 'C28'):
    PLAN[c].append(('walk_sim', {}, 120))
for c in ('C16', 'C17', 'C18', 'C27'):
    PLAN[c].append(('walk_pid', {}, 500))
for c in ('C13', 'C14'):
    PLAN[c].append(('walk_model', {}, 400))

# longer histories before the settings change, and with process noise
for c in ('C04', 'C27'):
    PLAN[c].append(('sim', dict(steps=160, upd=0.7, params=0.06), 30))
PLAN['C15'] += [('sim', dict(steps=160, upd=0.7, noise=True), 24), ('sim_flight', dict(steps=120, noise=True), 6)]
PLAN['C27'] += [('pid', dict(steps=200, setters=0.05), 30), ('ctl_live', dict(steps=120), 12)]
