"""Scenario generator: random histories of public calls, one family per kind of situation.

A scenario is a list of traces; a trace is a list of events.  Each event carries the driver's
input line and the head of the trace event (object, operation, arguments) the specification
reads.  Everything is derived from the seed; nothing depends on the implementation.
"""
import json
import math
import random
import struct


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def halves(x):
    return list(struct.unpack('>ii', struct.pack('>d', x)))


def enc(v):
    if isinstance(v, bool) or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return halves(v)
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        # what is left unset is absent from the event; an empty record gets a marker
        return {k: enc(x) for k, x in v.items() if x is not None and x not in ('~', '^')} or {'_': True}
    raise TypeError(v)


def rnd(v):
    """round every number to single precision"""
    if v is None or isinstance(v, bool) or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return f32(v)
    if isinstance(v, (list, tuple)):
        return [rnd(x) for x in v]
    return {k: rnd(x) for k, x in v.items()}


def toks(v):
    if v is None:
        return ['_']
    if isinstance(v, bool):
        return ['1' if v else '0']
    if isinstance(v, int):
        return [str(v)]
    if isinstance(v, str):
        return [v]
    if isinstance(v, float):
        return [v.hex()]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in toks(x)]
    return [t for x in v.values() for t in toks(x)]


def unset(v):
    """does v leave anything unset?"""
    if isinstance(v, dict):
        return any(unset(x) for x in v.values())
    return v is None or v in ('~', '^') or isinstance(v, list) and any(unset(x) for x in v)


# ---------------------------------------------------------------- linear algebra
def cross(a, b):
    return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]


def matmul(A, B):
    return [[sum(A[i][k]*B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def transpose(A):
    return [list(r) for r in zip(*A)]


def inv(A):
    n = len(A)
    M = [list(map(float, A[i])) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x/d for x in M[c]]
        for r in range(n):
            if r != c:
                k = M[r][c]
                M[r] = [x-k*y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def qmul(p, q):
    return [p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
            p[0]*q[2]+p[2]*q[0]+p[3]*q[1]-p[1]*q[3], p[0]*q[3]+p[3]*q[0]+p[1]*q[2]-p[2]*q[1]]


def qmat(q):
    w, x, y, z = q
    return [[1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)],
            [2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)]]


def unit(q):
    n = math.sqrt(sum(x*x for x in q))
    return [x/n for x in q]


I3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
Z3 = [0.0, 0.0, 0.0]


def zero33():
    return [[0.0]*3 for _ in range(3)]


def ordered_model(p):
    """fields in the order the driver reads them"""
    mo = ('dir', 'kt', 'kq', 'pos', 'rot', 'mn', 'mx', 'tau', 'J')
    return dict({'motors': [{k: m[k] for k in mo} for m in p['motors']]}, **{k: p[k] for k in ('mass', 'J', 'cd', 'aero', 'g', 'sF', 'sM')})


class Gen:
    wide = 1.0
    odd = False
    flt = False

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.traces = []

    # ------------------------------------------------------------ emission
    def trace(self, fam):
        self.cur = []
        self.traces.append({'fam': fam, 'ev': self.cur})
        self.nobj = 0
        self.objs = {}
        self.wide = 1.0

    def _push(self, line, head):
        self.cur.append((line, json.dumps(head, separators=(',', ':'))))

    def new(self, kind, n, p, stat=False, form=''):
        """kind: base name of the driver's object; pid kinds carry the axis count themselves"""
        self.nobj += 1
        i = self.nobj
        f = kind.endswith('.f') or kind.endswith('.f4')
        k = 'pid' if kind.startswith('pid') else kind.split('.')[0]
        if i == 1 and not f and self.chance(0.15):      # a trace of large values
            self.wide = self.lg(3, 100)
        if kind.startswith('pids') and p != '~':     # the scalar class has no proportional limiting
            p = dict(p, prop=False)
        if f:
            p = rnd(p)
        nn = n if k in ('model', 'dyn', 'ctl', 'sim', 'pid') else 4
        # 'n' decides which objects count as another rotor count: not PIDs' axes
        self.objs[i] = {'f': f, 'k': k, 'n': n, 'full': True, 'kind': kind}
        if k in ('imu', 'odo') and not form and not unset(p) and self.chance(0.3):
            form = '+9'     # separate arguments instead of the parameter record
        head = {'o': i, 'op': 'new', 'k': k, 'n': nn, 'f': f, 'stat': stat, 'fu': True, 'again': False, 'a': enc({'p': p})}
        if unset(p):
            head['unset'] = True
        self._push('%d new %s %s%s' % (i, kind, form and form + ' ', ' '.join(toks(p))), head)
        return i

    def call(self, i, op, full=False, **a):
        o = self.objs[i]
        if o['kind'].startswith('pids'):
            if op == 'upd':
                a['p'] = dict(a['p'], prop=False)
            elif 'b' in a and op != 'sri':
                a['b'] = False
        if o['f']:
            a = rnd(a)
        head = {'o': i, 'op': op, 'fu': full, 'again': bool(full and o['full']), 'a': enc(a)}
        if unset(a):
            head['unset'] = True
        self._push('%d %s%s %s' % (i, '!' if full else '', op, ' '.join(toks(a))), head)
        o['full'] = full

    def sub(self, i, pre, op, full=False, **a):
        """operation on a part: ctl: imu: odo: of a simulator, or loop rp/pp/tp/vp of a controller"""
        o = self.objs[i]
        if o['f']:
            a = rnd(a)
        if pre in ('rp', 'pp', 'tp', 'vp'):
            line, head, args = pre + '.' + op, 'loop', {'loop': pre, 'op': op, 'a': enc(a)}
        elif pre.startswith('ctl:') and len(pre) > 4:
            lp = pre[4:]
            line, head = 'ctl:' + lp + '.' + op, 'ctl:'
            args = {'op': 'loop', 'a': {'loop': lp, 'op': op, 'a': enc(a)}}
        else:
            line, head, args = pre + op, pre, {'op': op, 'a': enc(a)}
        self._push('%d %s%s %s' % (i, '!' if full else '', line, ' '.join(toks(a))),
                   {'o': i, 'op': head, 'fu': full, 'again': bool(full and o['full']), 'a': args})
        o['full'] = full

    def copy(self, i):
        self.call(i, 'nop', full=True)
        self.nobj += 1
        j = self.nobj
        self.objs[j] = dict(self.objs[i])
        self._push('%d copy %d' % (j, i), {'o': j, 'op': 'copy', 'fu': True, 'again': False, 'a': {'src': i}})
        return j

    def assign(self, j, i):
        self.call(i, 'nop', full=True)
        self._push('%d assign %d' % (j, i), {'o': j, 'op': 'assign', 'fu': True, 'again': False, 'a': {'src': i}})
        self.objs[j]['full'] = True

    def rel(self, rel, **kw):
        self._push('R', dict(op='R', rel=rel, **kw))

    # ------------------------------------------------------------ values
    def u(self, a, b):
        return self.r.uniform(a, b)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, *xs):
        return self.r.choice(xs)

    def lg(self, lo, hi):
        return math.exp(self.u(math.log(lo), math.log(hi)))

    def slg(self, lo, hi):
        return self.lg(lo, hi) * self.pick(-1.0, 1.0)

    def vec(self, n, f):
        return [f() for _ in range(n)]

    def v3(self, s):
        k = self.r.random()
        if k < 0.1:
            return [0.0, 0.0, 0.0]
        if k < 0.25:
            v = [0.0, 0.0, 0.0]
            v[self.r.randrange(3)] = self.u(-s, s)
            return v
        if k < 0.31:
            t = s * self.lg(1e-8, 1e-2)
            return [self.u(-t, t) for _ in range(3)]
        if k < 0.34:
            return [self.u(-s, s)] * 3
        return [self.u(-s, s) for _ in range(3)]

    def w3(self, s, most=100.0):
        return self.v3(s * min(self.wide, most))

    def quat(self):
        k = self.r.random()
        if k < 0.1:
            q = [1.0, 0.0, 0.0, 0.0]
        elif k < 0.3:   # near level, any heading
            q = self.rpy(self.u(-0.3, 0.3), self.u(-0.3, 0.3), self.u(-3.14, 3.14))
        elif k < 0.4:   # heading near +-pi
            q = self.rpy(self.u(-0.2, 0.2), self.u(-0.2, 0.2), self.pick(-1, 1) * (math.pi - self.lg(1e-6, 0.1)))
        elif k < 0.5:   # upside down
            q = self.rpy(math.pi + self.u(-0.4, 0.4), self.u(-0.4, 0.4), self.u(-3, 3))
        elif k < 0.53:  # quarter and half turns
            h = math.sqrt(0.5)
            q = self.pick([h, h, 0.0, 0.0], [h, 0.0, 0.0, h], [h, 0.0, 0.0, -h], [0.0, 0.0, 0.0, 1.0], [0.0, 1.0, 0.0, 0.0], [0.5, 0.5, 0.5, 0.5])
        elif k < 0.55:  # almost the identity
            q = unit([1.0] + self.vec(3, lambda: self.slg(1e-9, 1e-3)))
        elif k < 0.6:  # close to vertical nose
            q = self.rpy(self.u(-3, 3), self.pick(-1, 1) * (math.pi/2 - self.lg(0.01, 0.2)), self.u(-3, 3))
        else:
            q = unit([self.r.gauss(0, 1) for _ in range(4)])
        if self.chance(0.2):
            q = [-x for x in q]
        return q

    @staticmethod
    def rpy(r, p, y):
        q = qmul(qmul([math.cos(y/2), 0, 0, math.sin(y/2)], [math.cos(p/2), 0, math.sin(p/2), 0]),
                 [math.cos(r/2), math.sin(r/2), 0, 0])
        return unit([float(x) for x in q])

    def level(self):
        return self.rpy(self.u(-0.3, 0.3), self.u(-0.3, 0.3), self.u(-3.1, 3.1))

    # ------------------------------------------------------------ PID
    def pid_limits(self, n, mode=None):
        """(prop, up, lo)"""
        m = mode or self.pick('none', 'sym', 'asym', 'asym', 'prop', 'prop', 'bad', 'onesided')
        if m == 'none':
            return self.chance(0.3), [0.0]*n, [0.0]*n
        if m == 'sym':
            u = self.vec(n, lambda: self.lg(0.05, 50))
            return False, u, [-x for x in u]
        if m == 'asym':
            if self.chance(0.25):       # limits of very different size, narrow and wide ranges
                lo = self.vec(n, lambda: self.pick(-1, 1, 0) * self.lg(1e-3, 1e3))
                # a range below the resolution of the type is no range at all
                return False, [x + self.lg(max(1e-5, 1e-5*abs(x)) if self.flt else 1e-9, 1e3) + 1e-9 for x in lo], lo
            return False, self.vec(n, lambda: self.lg(0.05, 50)), self.vec(n, lambda: -self.lg(0.05, 50))
        if m == 'prop':
            return True, self.vec(n, lambda: self.lg(0.05, 50)), self.vec(n, lambda: -self.lg(0.05, 50))
        if m == 'onesided':   # both limits on the same side of zero on some axes; per axis only
            if self.chance(0.35):       # zero itself as a limit
                u = self.vec(n, lambda: self.lg(0.05, 50))
                z = [0.0 if self.chance(0.5) else x for x in u] if self.chance(0.4) else [0.0] * n
                return (False, z, [-x for x in u]) if self.chance(0.5) else (False, u, [-x for x in z])
            lo = self.vec(n, lambda: self.u(-20, 10))
            return False, [x + self.lg(0.1, 20) for x in lo], lo
        # invalid on exactly one axis
        u = self.vec(n, lambda: self.lg(0.05, 50))
        lo = [-x for x in u]
        i = self.r.randrange(n)
        if self.chance(0.5):
            lo[i] = u[i] + self.lg(0.01, 5)
        else:
            u[i] = self.pick(u[i], u[i], 0.0, -u[i])
            lo[i] = u[i]
        return self.chance(0.5), u, lo

    def pid_par(self, n, lim=None, flt=False, gentle=False):
        def gain(z):
            k = self.r.random()
            return 0.0 if k < z else (self.lg(0.05, 5) if gentle else self.slg(0.02, 20) if k > 0.85 else self.lg(0.02, 20))
        kp = self.vec(n, lambda: gain(0.1))
        ki = self.vec(n, lambda: gain(0.15))
        kd = self.vec(n, lambda: gain(0.15) * (0.1 if gentle else 1.0))
        k = self.r.random()
        if k < 0.3:
            aw = [0.0]*n
        elif k < 0.45 and n > 1:
            aw = self.vec(n, lambda: self.pick(0.0, self.lg(0.01, 5)))
            if not any(aw):
                aw[0] = 1.0
        else:
            aw = self.vec(n, lambda: self.lg(0.01, 5))
        ri = self.chance(0.5) and all(x > 0 for x in aw)
        al = self.vec(n, lambda: self.pick(0.0, 1.0, self.u(0, 1), self.u(0, 1), self.lg(0.001, 0.1)))
        prop, up, lo = self.pid_limits(n, lim)
        return {'kp': kp, 'ki': ki, 'kd': kd, 'aw': aw, 'al': al, 'ri': ri, 'prop': prop, 'up': up, 'lo': lo}

    class Signal:
        """error signal with memory: constant stretches, reversals, walks, spikes"""
        def __init__(self, g, n, flt=False):
            self.g, self.n = g, n
            self.scale = g.pick(g.lg(0.05, 20), g.lg(0.05, 20), g.lg(0.05, 20), g.lg(1e-4, 0.05)) * (1.0 if flt else g.wide)
            self.v = g.vec(n, lambda: g.slg(0.1, 1) * self.scale)
            self.mode = 0

        def next(self):
            g = self.g
            if g.chance(0.08):
                self.mode = g.r.randrange(5)
            if self.mode == 0:      # hold
                pass
            elif self.mode == 1:    # walk
                self.v = [x + g.u(-0.2, 0.2) * self.scale for x in self.v]
            elif self.mode == 2:    # reversal of some axes
                self.v = [-x if g.chance(0.3) else x for x in self.v]
            elif self.mode == 3:    # fresh values
                self.v = g.vec(self.n, lambda: g.slg(0.01, 1) * self.scale)
            else:                   # one axis only
                i = g.r.randrange(self.n)
                self.v = list(self.v)
                self.v[i] = g.slg(0.01, 3) * self.scale
            self.v = [x if abs(x) > 1e-6 else 0.123 for x in self.v]
            return list(self.v)

    def dt(self, flt=False):
        k = self.r.random()
        if k < 0.5:
            return self.pick(0.001, 0.002, 0.005, 0.01) if not flt else self.pick(0.005, 0.01)
        if not flt and k < 0.56:
            return self.lg(1e-7, 5.0)
        return self.lg(0.005 if flt else 0.0005, 0.5)

    PIDK = {'pid1v': 1, 'pid2': 2, 'pid3': 3, 'pid4': 4, 'pid6': 6, 'pids': 1}

    def pid_setter(self, i, n, st, scalar):
        """a random live parameter change; st is the mirror of the parameters"""
        op = self.pick('upd', 'sg', 'skp', 'ski', 'skd', 'saw', 'sal', 'sri', 'slim', 'dlim', 'reset', 'slim', 'sprop')
        if op == 'sprop' and scalar:
            op = 'upd'
        p = self.pid_par(n)
        full = self.chance(0.6)
        self.pid_set_op(i, op, p, st, full)

    def pid_set_op(self, i, op, p, st, full=False, emit=None):
        emit = emit or (lambda op, **a: self.call(i, op, full=full, **a))
        if op == 'upd':
            emit('upd', p=p)
            st.update(p)
        elif op == 'sg':
            emit('sg', kp=p['kp'], ki=p['ki'], kd=p['kd'])
            st.update(kp=p['kp'], ki=p['ki'], kd=p['kd'])
        elif op in ('skp', 'ski', 'skd'):
            emit(op, v=p[op[1:]])
            st[op[1:]] = p[op[1:]]
        elif op == 'saw':
            v = p['aw'] if not st['ri'] else [x or 1.0 for x in p['aw']]
            emit('saw', v=v)
            st['aw'] = v
        elif op == 'sal':
            emit('sal', v=p['al'])
            st['al'] = p['al']
        elif op == 'sri':
            b = p['ri'] and all(x > 0 for x in st['aw'])
            emit('sri', b=b)
            st['ri'] = b
        elif op == 'slim':
            emit('slim', up=p['up'], lo=p['lo'], b=p['prop'])
            st.update(up=p['up'], lo=p['lo'])
        elif op == 'dlim':
            emit('dlim')
        elif op == 'sprop':
            # proportional limiting only means something around zero
            emit('sprop', b=p['prop'] and all(a < 0 < b for a, b in zip(st['lo'], st['up'])))
        elif op == 'reset':
            emit('reset')

    def pid_step(self, i, sig, flt, d3=0.15):
        e = sig.next()
        if self.chance(d3):
            self.call(i, 'c3', dt=self.dt(flt), e=e, de=self.vec(len(e), lambda: self.slg(0.01, 10)))
        else:
            self.call(i, 'c2', dt=self.dt(flt), e=e)

    def fam_pid(self, steps=60, prec='d', kinds=None, lim=None, setters=0.1):
        kind = self.pick(*(kinds or (['pid1v', 'pid2', 'pid3', 'pid3', 'pid4', 'pid6', 'pids'] if prec == 'd' else ['pid1v', 'pid3', 'pid4', 'pids'])))
        n = self.PIDK[kind]
        flt = prec == 'f'
        self.trace('pid')
        p = self.pid_par(n, lim)
        st = dict(p)
        i = self.new(kind + '.' + prec, n, p)
        sig = self.Signal(self, n)
        for _ in range(steps):
            k = self.r.random()
            if k < setters:
                self.pid_setter(i, n, st, kind == 'pids')
            elif k < setters + 0.02:
                self.call(i, 'err', s=self.vec(n, lambda: self.u(-5, 5)), r=self.vec(n, lambda: self.u(-5, 5)))
            elif k < setters + 0.03:
                self.call(i, 'err4', s=self.vec(n, lambda: self.u(-5, 5)), r=self.vec(n, lambda: self.u(-5, 5)),
                          sd=self.vec(n, lambda: self.u(-5, 5)), rd=self.vec(n, lambda: self.u(-5, 5)))
            elif k < setters + 0.06:
                pr, up, lo = self.pid_limits(n, self.pick('sym', 'asym', 'prop', 'onesided'))
                x = self.vec(n, lambda: self.slg(0.05, 80) if self.chance(0.9) else self.pick(0.0, self.slg(1e-6, 1e4)))
                if not pr and self.chance(0.3):     # a range of a single value
                    for j in range(n):
                        if self.chance(0.6):
                            up[j] = lo[j] = self.pick(0.0, up[j], lo[j])
                if not pr and self.chance(0.2):     # exactly at a limit
                    x = [self.pick(a, b, c) for a, b, c in zip(x, up, lo)]
                self.call(i, 'lim', x=x, up=up, lo=lo, b=pr and kind != 'pids')
            elif k < setters + 0.08:
                self.call(i, 'nop', full=True)
                self.call(i, 'nop', full=True)
            else:
                self.pid_step(i, sig, flt)

    def fam_pid_long(self, steps=1500, prec='d'):
        """long histories with windup, reversal and few parameter changes"""
        kind = self.pick('pid3', 'pids')
        n = self.PIDK[kind]
        self.trace('pid_long')
        p = self.pid_par(n, gentle=True)
        i = self.new(kind + '.' + prec, n, p)
        sig = self.Signal(self, n)
        dt = self.pick(0.005, 0.01)
        for k in range(steps):
            if self.chance(0.005):
                self.call(i, 'reset')
            self.call(i, 'c2', dt=dt, e=sig.next())

    def fam_pid_hold(self, steps=700, prec='d'):
        """the same call over and over: constant errors, errors of exactly zero"""
        kind = self.pick('pid3', 'pid3', 'pids')
        n = self.PIDK[kind]
        self.trace('pid_hold')
        p = self.pid_par(n, gentle=True)
        p['ri'] = p['ri'] and self.chance(0.3)
        if self.chance(0.5):
            p['al'] = self.vec(n, lambda: self.u(0.05, 1))
        i = self.new(kind + '.' + prec, n, p)
        dt = self.pick(0.001, 0.005, 0.01)
        left = steps
        while left > 0:
            k = min(left, self.pick(3, 12, 30, 60, 130, 260, 520))
            left -= k
            e = self.vec(n, lambda: self.slg(0.01, 2))
            if not p['ri'] and self.chance(0.5):
                e = [0.0] * n if self.chance(0.6) else [0.0 if self.chance(0.5) else x for x in e]
            three = self.chance(0.3)
            de = self.vec(n, lambda: self.u(-2, 2)) if self.chance(0.7) else [0.0] * n
            for _ in range(k):
                if three:
                    self.call(i, 'c3', dt=dt, e=list(e), de=list(de))
                else:
                    self.call(i, 'c2', dt=dt, e=list(e))
            if self.chance(0.1):
                self.call(i, 'reset')

    def fam_pid_windup(self, steps=60, prec='d'):
        """drive each axis into its integral bound and reverse, with and without the reset flag"""
        kind = self.pick('pid3', 'pids', 'pid2' if prec == 'd' else 'pid4')
        n = self.PIDK[kind]
        self.trace('pid_windup')
        p = self.pid_par(n)
        p['aw'] = self.vec(n, lambda: self.lg(0.05, 3))
        p['ki'] = self.vec(n, lambda: self.lg(0.1, 5))
        p['ri'] = self.chance(0.7)
        i = self.new(kind + '.' + prec, n, p)
        s = self.vec(n, lambda: self.pick(-1.0, 1.0))
        for k in range(steps):
            if self.chance(0.12):
                j = self.r.randrange(n)
                s[j] = -s[j]
            if self.chance(0.03):
                s = [-x for x in s]
            e = [x * self.lg(0.3, 3) for x in s]
            if self.chance(0.2):
                self.call(i, 'c3', dt=self.lg(0.02, 1), e=e, de=self.vec(n, lambda: self.u(-2, 2)))
            else:
                self.call(i, 'c2', dt=self.lg(0.02, 1), e=e)
            if self.chance(0.02):
                p['ri'] = not p['ri']
                self.call(i, 'sri', full=True, b=p['ri'])

    def axis(self, p, k):
        q = {x: [p[x][k]] for x in ('kp', 'ki', 'kd', 'aw', 'al')}
        q.update(ri=p['ri'], prop=False, up=[p['up'][k]], lo=[p['lo'][k]])
        return q

    def fam_pid_axes(self, steps=40, prec='d', hold=False):
        n, kind = self.pick((3, 'pid3'), (1, 'pid1v'), (3, 'pid3')) if prec == 'f' else self.pick((3, 'pid3'), (2, 'pid2'), (4, 'pid4'), (1, 'pid1v'))
        flt = prec == 'f'
        self.trace('pid_axes')

        def par():
            p = self.pid_par(n, self.pick('none', 'sym', 'asym', 'onesided'))
            p['prop'] = False
            if any(p['aw']) and not all(p['aw']):
                p['aw'] = [x or 0.7 for x in p['aw']]
            if self.chance(0.4):
                p['aw'] = self.vec(n, lambda: self.lg(0.02, 1))
                p['ri'] = self.chance(0.7)
            return p
        p = par()
        v = self.new(kind + '.' + prec, n, p)
        s = [self.new('pids.' + prec, 1, self.axis(p, k)) for k in range(n)]
        sig, last = self.Signal(self, n), None
        for _ in range(steps):
            k = self.r.random()
            if k < 0.04:
                self.call(v, 'reset')
                for x in s:
                    self.call(x, 'reset')
            elif k < 0.08:
                p = par()
                self.call(v, 'upd', p=p)
                for j, x in enumerate(s):
                    self.call(x, 'upd', p=self.axis(p, j))
            elif k < 0.12:
                pr, up, lo = self.pid_limits(n, self.pick('sym', 'asym', 'onesided'))
                last = up, lo
                self.call(v, 'slim', up=up, lo=lo, b=False)
                for j, x in enumerate(s):
                    self.call(x, 'slim', up=[up[j]], lo=[lo[j]], b=False)
            elif k < 0.15:
                self.call(v, 'dlim')
                for x in s:
                    self.call(x, 'dlim')
                if last and self.chance(0.6):       # the same limits again
                    up, lo = last
                    self.call(v, 'slim', up=up, lo=lo, b=False)
                    for j, x in enumerate(s):
                        self.call(x, 'slim', up=[up[j]], lo=[lo[j]], b=False)
            e, dt = sig.next(), self.dt(flt) if not any(p['aw']) else self.lg(0.01, 1)
            if hold:        # the same call over and over
                if not p['ri'] and self.chance(0.4):
                    e = [0.0] * n
                for _ in range(self.pick(12, 30, 60, 130)):
                    self.call(v, 'c2', dt=0.01, e=list(e))
                    for j, x in enumerate(s):
                        self.call(x, 'c2', dt=0.01, e=[e[j]])
                    self.rel('axes', x=v, ys=s)
            if self.chance(0.2):
                de = self.vec(n, lambda: self.slg(0.01, 10))
                self.call(v, 'c3', dt=dt, e=e, de=de)
                for j, x in enumerate(s):
                    self.call(x, 'c3', dt=dt, e=[e[j]], de=[de[j]])
            else:
                self.call(v, 'c2', dt=dt, e=e)
                for j, x in enumerate(s):
                    self.call(x, 'c2', dt=dt, e=[e[j]])
            self.rel('axes', x=v, ys=s)

    PIDF = [['e'], ['P'], ['I'], ['D'], ['out']]

    def fam_pid_fresh(self, steps=30, prec='d', after=8, rounds=3):
        kind = self.pick('pid1v', 'pid3', 'pid4', 'pids')
        n = self.PIDK[kind]
        flt = prec == 'f'
        self.trace('pid_fresh')
        p = self.pid_par(n)
        a = self.new(kind + '.' + prec, n, p)
        for _ in range(rounds):
            sig = self.Signal(self, n)
            for _ in range(self.r.randrange(0, steps)):
                self.pid_step(a, sig, flt, 0.3)
            if self.chance(0.5):
                p = self.pid_par(n)
                self.call(a, 'upd', p=p)
            self.call(a, 'reset', full=True)
            b = self.new(kind + '.' + prec, n, p)
            sig = self.Signal(self, n)
            for _ in range(after):
                e, dt, de = sig.next(), self.dt(flt), self.vec(n, lambda: self.slg(0.01, 10))
                three = self.chance(0.25)
                for x in (a, b):
                    if three:
                        self.call(x, 'c3', dt=dt, e=e, de=de)
                    else:
                        self.call(x, 'c2', dt=dt, e=e)
                self.rel('fresh', x=a, y=b, f=self.PIDF)

    # ------------------------------------------------------------ sensors
    def imu_par(self, noisy=None, mount=True):
        def v():
            return self.lg(1e-4, 4.0)
        if noisy is None:
            noisy = self.chance(0.6)
        z = [v() if noisy and self.chance(0.8) else 0.0 for _ in range(4)]
        return {'gv': z[0], 'av': z[1], 'gs': z[2], 'as': z[3],
                'q': self.quat() if mount and self.chance(0.7) else [1.0, 0.0, 0.0, 0.0], 'seed': self.r.randrange(2, 10**6)}

    def imu_op(self, i, pre=None):
        em = (lambda op, **a: self.call(i, op, **a)) if pre is None else (lambda op, **a: self.sub(i, pre, op, **a))
        op = self.pick('reset', 'seed', 'var', 'bauto', 'bias', 'mount')
        z = lambda: self.pick(0.0, self.lg(1e-4, 4))
        if op == 'reset':
            em('reset')
        elif op == 'seed':
            em('seed', s=self.r.randrange(2, 10**6))
        elif op == 'var':
            em('var', g=z(), a=z())
        elif op == 'bauto':
            em('bauto', g=z(), a=z())
        elif op == 'bias':
            em('bias', g=self.v3(2), a=self.v3(2), x=z(), y=z())
        else:
            em('mount', q=self.quat())

    def fam_imu(self, steps=40, prec='d'):
        self.trace('imu')
        i = self.new('imu.' + prec, 0, self.imu_par())
        for _ in range(steps):
            k = self.r.random()
            if k < 0.15:
                self.imu_op(i)
            elif k < 0.2:
                self.call(i, 'update', dt=self.pick(0.0, -0.01, -1.0), f=self.v3(20), w=self.v3(10))
            elif k < 0.25:
                self.call(i, 'nop')
            else:
                self.call(i, 'update', dt=self.lg(1e-3, 0.1) if self.chance(0.8) else self.lg(1e-7, 3.0), f=self.w3(20), w=self.w3(10))

    def fam_imu_seq(self, steps=12, prec='d'):
        """same seed, different scales and inputs: the same standardised samples"""
        self.trace('imu_seq')

        def par(seed):
            return {'gv': self.lg(1e-2, 4), 'av': self.lg(1e-2, 4), 'gs': self.lg(1e-2, 4), 'as': self.lg(1e-2, 4),
                    'q': self.quat(), 'seed': seed}
        s = self.r.randrange(2, 10**6)
        a, b = self.new('imu.' + prec, 0, par(s)), self.new('imu.' + prec, 0, par(s))
        c = self.new('imu.' + prec, 0, par(s + 1))
        for k in range(steps):
            if k == steps // 2:
                s2 = self.r.randrange(2, 10**6)
                for x in (a, b, c):
                    self.call(x, 'seed', s=s2 + (7 if x == c else 0))
            if self.chance(0.15):
                self.call(self.pick(a, b), 'reset')
            if self.chance(0.15):
                self.call(self.pick(a, b), 'update', dt=self.pick(0.0, -0.01, -1.0), f=self.v3(5), w=self.v3(5))
            for x in (a, b, c):
                self.call(x, 'update', dt=self.lg(1e-2, 0.5) if prec == 'f' or self.chance(0.5) else self.pick(0.01, self.lg(1e-5, 10.0)), f=self.v3(5), w=self.v3(5))
            self.rel('zseq', x=a, y=b, tag='C24')
            self.rel('zdiff', x=a, y=c, tag='C24')

    def fam_imu_stat(self, steps=1500, prec='d'):
        self.trace('imu_stat')
        p = {'gv': self.lg(0.05, 0.3), 'av': self.lg(3, 9), 'gs': self.lg(3, 9), 'as': self.lg(0.05, 0.3),
             'q': self.quat(), 'seed': self.r.randrange(2, 10**6)}
        i = self.new('imu.' + prec, 0, p, stat=True)
        for k in range(steps):
            if k % 200 == 199:     # keep the walk small for accuracy
                self.call(i, 'reset')
            self.call(i, 'update', dt=self.lg(1e-3, 0.1), f=self.v3(5), w=self.v3(5))
        self.rel('stat', x=i, tag='C24')

    def fam_imu_new(self, steps=500, n=4):
        """many newly built sensors: the biases they start from"""
        self.trace('imu_new')
        i = self.new('sim.d%d' % n, n, self.sim_par(n, style='unit'), stat=True)
        for _ in range(steps):
            self.call(i, 'pimu', p={'gv': self.lg(1e-3, 4), 'av': self.lg(1e-3, 4), 'gs': self.pick(0.0, self.lg(1e-2, 4)), 'as': self.pick(0.0, self.lg(1e-2, 4)),
                                    'q': self.quat(), 'seed': self.r.randrange(2, 10**9)})
        self.rel('stat', x=i, tag='C24')

    def odo_par(self):
        return {'al': self.pick(1.0, self.u(0.05, 1), self.u(0.05, 1), self.lg(0.01, 0.2)), 'q0': self.quat()}

    def fam_odo(self, steps=50, prec='d'):
        self.trace('odo')
        i = self.new('odo.' + prec, 0, self.odo_par())
        s = self.lg(0.5, 20)
        for _ in range(steps):
            k = self.r.random()
            if k < 0.04:
                self.call(i, 'reset')
            elif k < 0.08:
                self.call(i, 'orient', q=self.quat())
            elif k < 0.14:
                self.call(i, 'csv')
            elif k < 0.18:
                self.call(i, 'nop')
            else:
                self.call(i, 'update', g=self.w3(s, 5), a=self.w3(s), dt=self.lg(1e-3, 0.1) if self.chance(0.8) else self.lg(1e-7, 1.0))

    def fam_odo_long(self, steps=1500, prec='d'):
        self.trace('odo_long')
        i = self.new('odo.' + prec, 0, self.odo_par())
        s = self.pick(30.0, 30.0, 1.0, 1e-2, 1e-3, 1e-4)
        w = self.v3(s)
        dt = self.pick(0.001, 0.01, 0.05)
        for k in range(steps):
            if k % 50 == 0:
                w = self.v3(s)
            self.call(i, 'update', g=w, a=self.v3(3), dt=dt)

    def fam_imu_hold(self, steps=500, prec='d'):
        """the same measurement over and over"""
        self.trace('imu_hold')
        i = self.new('imu.' + prec, 0, self.imu_par())
        left = steps
        while left > 0:
            k = min(left, self.pick(12, 60, 130, 260))
            left -= k
            f, w, dt = self.pick([0.0]*3, [0.0, 0.0, 9.81], self.v3(20)), self.pick([0.0]*3, self.v3(10)), self.pick(0.001, 0.01)
            for _ in range(k):
                self.call(i, 'update', dt=dt, f=list(f), w=list(w))
            if self.chance(0.15):
                self.imu_op(i)

    def fam_odo_hold(self, steps=600, prec='d'):
        """the same input over and over: standing still, gliding, turning, accelerating"""
        self.trace('odo_hold')
        i = self.new('odo.' + prec, 0, self.odo_par())
        if self.chance(0.6):
            self.call(i, 'update', g=list(Z3), a=self.v3(9), dt=0.1)
        left = steps
        while left > 0:
            k = min(left, self.pick(12, 60, 130, 260))
            left -= k
            g, a, dt = self.pick([0.0]*3, [0.0]*3, self.v3(3)), self.pick([0.0]*3, [0.0]*3, [0.0, 0.0, 9.81], self.v3(9)), self.pick(0.001, 0.01)
            for _ in range(k):
                self.call(i, 'update', g=list(g), a=list(a), dt=dt)
            if self.chance(0.1):
                self.call(i, 'reset')

    # ------------------------------------------------------------ vehicles
    def spd(self, lo, hi, off=0.3):
        d = [self.lg(lo, hi) for _ in range(3)]
        M = [[d[i] if i == j else 0.0 for j in range(3)] for i in range(3)]
        if self.chance(0.6):
            for i in range(3):
                for j in range(i):
                    M[i][j] = M[j][i] = self.u(-off, off) * math.sqrt(d[i]*d[j])
        return M

    def rotmat(self, tilt):
        if not tilt:
            return [list(r) for r in I3]
        ax = unit([self.r.gauss(0, 1) for _ in range(3)])
        a = self.u(-0.5, 0.5)
        if self.odd and self.chance(0.3):       # sideways and upside down
            a = self.u(-math.pi, math.pi)
            if self.chance(0.4):
                return self.pick([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]], [[-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0]],
                                 [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]], [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]])
        return qmat([math.cos(a/2)] + [math.sin(a/2)*x for x in ax])

    def motors(self, n, style, tilt, uneven):
        ms = []
        real = style == 'real'
        kt0, kq0 = (self.lg(1e-6, 1e-5), self.lg(1e-7, 1e-6)) if real else (self.lg(0.1, 1), self.lg(0.05, 0.5))
        arm = self.lg(0.08, 0.3) if real else self.lg(0.3, 1)
        off = self.u(0, math.pi)
        for i in range(n):
            ang = off + 2*math.pi*i/n + (self.u(-0.2, 0.2) if uneven else 0)
            k = self.u(0.7, 1.4) if uneven else 1.0
            mx = (self.u(1500, 2500) if real else self.u(2, 6))
            mn = self.pick(0.0, 0.0, mx*self.u(0.02, 0.2), -mx*self.u(0.1, 1)) if uneven else 0.0
            if not uneven and ms:
                mn, mx = ms[0]['mn'], ms[0]['mx']
            elif self.odd and self.chance(0.06):
                mn = mx = mx * self.u(0.1, 0.8)         # one speed only
            ms.append({'dir': (1 if i % 2 == 0 else -1) if not uneven or self.chance(0.8) else self.pick(1, -1),
                       'kt': kt0*k, 'kq': kq0*(self.u(0.7, 1.4) if uneven else 1.0),
                       'pos': [arm*math.cos(ang), arm*math.sin(ang), self.u(-0.05, 0.05) if uneven else 0.0],
                       'rot': self.rotmat(tilt and self.chance(0.7)), 'mn': mn, 'mx': mx,
                       'tau': self.lg(0.01, 0.3) if uneven or not ms else ms[0]['tau'],
                       'J': (self.lg(1e-6, 1e-5) if real else self.lg(0.01, 0.1)) if uneven or not ms else ms[0]['J']})
        return ms

    def model_par(self, n, style=None, noise=None, tilt=None, uneven=None):
        style = style or self.pick('real', 'unit')
        real = style == 'real'
        uneven = self.chance(0.6) if uneven is None else uneven
        tilt = self.chance(0.4) if tilt is None else tilt
        noise = self.chance(0.3) if noise is None else noise
        mass = self.lg(0.3, 3)
        J = self.spd(0.004, 0.02) if real else self.spd(0.5, 3)
        # aerodynamic matrix: positive determinant, scaled to stay stable
        A = zero33() if self.chance(0.25) else self.spd(0.0005, 0.004) if real else self.spd(0.05, 0.3)
        return {'motors': self.motors(n, style, tilt, uneven), 'mass': mass, 'J': J,
                'cd': self.pick(0.0, self.lg(0.02, 0.3)), 'aero': A,
                'g': [0.0, 0.0, -9.81] if self.chance(0.7) else self.v3(10),
                'sF': self.lg(1e-3, 0.1) if noise and self.chance(0.85) else 0.0,
                'sM': self.lg(1e-5, 1e-3) if noise and self.chance(0.85) else 0.0}

    @staticmethod
    def styleof(mp):
        # the rotor speeds of one style would blow a vehicle of the other style up
        return 'real' if mp['motors'][0]['kt'] < 1e-3 else 'unit'

    def stiff(self, mp):
        """very fast and very slow motors"""
        if self.chance(0.3) and not self.odd:
            for m in mp['motors']:
                if self.chance(0.5):
                    m['tau'] = self.pick(self.lg(1e-5, 0.01), self.lg(0.3, 20))
        return mp

    def state(self, n, mp, q=None, wmax=6.0, vmax=8.0):
        def mot(m):
            k = self.r.random()
            if k < 0.1:
                return m['mn'] - self.u(0, 1) * (m['mx'] - m['mn'])   # outside the range
            if k < 0.15:
                return m['mx'] + self.u(0, 1) * (m['mx'] - m['mn'])
            if k < 0.25:
                return 0.0
            if k < 0.31:
                return m[self.pick('mx', 'mn')]                       # exactly at a limit
            return self.u(m['mn'], m['mx'])
        same = self.u(0.2, 1)
        if self.chance(0.12):                                             # all rotors alike
            def mot(m):
                return same * mp['motors'][0]['mx']
        return {'p': self.w3(10), 'q': q or self.quat(), 'v': self.w3(vmax, 4), 'w': self.w3(wmax, 5), 'a': self.v3(5), 'dw': self.v3(5),
                'F': self.v3(5), 'T': self.v3(2), 'mw': [mot(m) for m in mp['motors']],
                'ma': self.vec(n, lambda: self.u(-100, 100))}

    def rest(self, n, mp, p=None, q=None):
        return {'p': p or self.v3(5), 'q': q or self.quat(), 'v': list(Z3), 'w': list(Z3), 'a': list(Z3), 'dw': list(Z3),
                'F': list(Z3), 'T': list(Z3), 'mw': [min(max(0.0, m['mn']), m['mx']) for m in mp['motors']], 'ma': [0.0]*n}

    def cmd(self, mp):
        k = self.r.random()
        if k < 0.1:
            return [0.0]*len(mp['motors'])
        if k < 0.3:   # partly out of range
            return [self.u(2*m['mn'] - m['mx'], 2*m['mx'] - m['mn']) for m in mp['motors']]
        if k < 0.4:   # all rotors alike
            return [self.u(0, 1) * mp['motors'][0]['mx']] * len(mp['motors'])
        if k < 0.48:  # exactly at the limits
            return [self.pick(m['mx'], m['mx'], m['mn'], self.u(m['mn'], m['mx'])) for m in mp['motors']]
        return [self.u(m['mn'], m['mx']) for m in mp['motors']]

    def fam_model(self, steps=14, prec='d', n=4):
        self.trace('model')
        self.odd = self.chance(0.7)
        kind = 'model.%s%d' % (prec, n)
        mp = self.model_par(n)
        i = self.new(kind, n, {'model': mp, 'seed': self.r.randrange(10**6)})
        for _ in range(steps):
            k = self.r.random()
            if k < 0.12:
                mp2 = self.model_par(n) if self.chance(0.4) else self.tweak(mp)
                self.call(i, 'mupd', full=True, p=mp2)
                self.call(i, 'nop', full=True)
                mp = mp2
            elif k < 0.32:
                bad = self.invalid(self.model_par(n))
                self.call(i, 'check', p=bad)
                self.call(i, 'mupd', full=True, p=bad)
                self.call(i, 'nop', full=True)
            elif k < 0.36:
                self.call(i, 'check', p=self.border(self.model_par(n)))
            elif k < 0.44:
                self.call(i, 'mix', p=self.model_par(n))
            elif k < 0.54:
                kk = self.pick('x', 'plus') if n == 4 else 'hexa'
                nd = 1 if kk == 'hexa' else 2
                self.call(i, 'preset', kind=kk, v=[self.lg(1e-6, 1), self.lg(1e-7, 1)] + [self.lg(0.05, 2) for _ in range(nd)]
                          + [self.u(-10, 10), self.u(20, 2000), self.lg(0.01, 1), self.lg(1e-6, 0.1)])
            elif k < 0.62 and n == 4:
                ms = self.motors(4, self.pick('real', 'unit') if prec == 'd' else 'unit', False, True)
                for j, x in enumerate(ms):
                    x['dir'] = 1 if j % 2 == 0 else -1
                self.call(i, 'inv', m=self.m6(ms))
            else:
                op = self.pick('drag', 'aerom', 'thrust', 'force', 'torque', 'noise', 'nonoise')
                if op in ('drag', 'aerom'):
                    self.call(i, op, v=self.v3(10))
                elif op in ('thrust', 'force'):
                    self.call(i, op, w=self.spd_vec(mp))
                elif op == 'torque':
                    self.call(i, op, w=self.spd_vec(mp), a=self.vec(n, lambda: self.u(-50, 50)))
                elif op == 'noise':
                    self.call(i, op, dt=self.pick(self.lg(1e-3, 0.1), self.lg(1e-3, 0.1), 0.0, -0.1))
                else:
                    self.call(i, op)

    def fam_fun(self, steps=24, prec='d', n=4):
        """stand-alone helpers over all magnitudes"""
        self.trace('fun')
        i = self.new('model.%s%d' % (prec, n), n, {'model': self.model_par(n), 'seed': 1})

        def x(lo=1e-6, hi=1e5):
            k = self.r.random()
            if k < 0.12:
                return self.pick(0.0, 0.0, -0.0)
            if k < 0.3:
                return float(self.r.randrange(-9, 10))
            if k < 0.36:
                return self.pick(-1, 1) * self.pick(1.0, 0.5, 1 + 1e-7, 1 - 1e-7, 2200.0)
            return self.u(-20, 20) if k < 0.65 else self.slg(lo, hi)

        def xs(k):
            if self.chance(0.1):
                return [x()] * k
            if self.chance(0.15):
                c = self.lg(1e-6, 1e4)
                return [self.u(-c, c) for _ in range(k)]
            return [x() for _ in range(k)]

        def mat(r, c):
            if self.chance(0.2):
                v = [x() for _ in range(r)]
                return [[v[a] if a == b else 0.0 for b in range(c)] for a in range(r)]
            return [xs(c) for _ in range(r)]
        for _ in range(steps):
            op = self.pick('fsq', 'fclamp', 'fqd', 'fqi', 'fdrag', 'faero', 'fthr', 'fvec', 'ftor')
            if op == 'fsq':
                self.call(i, op, v=xs(n))
            elif op == 'fclamp':
                v = xs(n)
                lo, hi = sorted(rnd([x(), x()])) if self.chance(0.6) else sorted(rnd([self.u(-3, 3), self.u(-3, 3)]))
                if self.chance(0.1):
                    hi = lo
                if self.chance(0.2):
                    v[self.r.randrange(n)] = self.pick(lo, hi)
                self.call(i, op, v=v, lo=lo, hi=hi)
            elif op in ('fqd', 'fqi'):
                q = self.quat()
                if self.chance(0.4):
                    c = self.pick(self.lg(1e-3, 1e3), self.u(0.5, 2), self.u(0.98, 1.02))
                    q = [c * y for y in q]
                w = xs(3) if self.chance(0.5) else self.v3(9)
                if op == 'fqd':
                    self.call(i, op, q=q, w=w)
                else:
                    self.call(i, op, q=q, w=w, dt=self.pick(self.lg(1e-4, 0.1), self.lg(1e-6, 10), 0.01, 0.0))
            elif op == 'fdrag':
                self.call(i, op, c=self.pick(abs(x()), self.u(0, 1)), v=xs(3))
            elif op == 'faero':
                self.call(i, op, m=mat(3, 3), w=xs(3))
            elif op == 'fthr':
                self.call(i, op, m=xs(n), w=xs(n))
            elif op == 'fvec':
                self.call(i, op, m=mat(3, n), w=xs(n))
            else:
                self.call(i, op, m=mat(3, n), mi=mat(3, n), w=xs(n), a=xs(n))

    def spd_vec(self, mp):
        return [self.u(-1, 1) * m['mx'] for m in mp['motors']]

    def invalid(self, p):
        """a copy with exactly one field invalid"""
        p = json.loads(json.dumps(p))
        k = self.r.randrange(9)
        n = len(p['motors'])
        m = p['motors'][self.r.randrange(n)]
        x = self.pick(self.lg(1e-6, 2), self.lg(1e-12, 1e-6), self.lg(2, 1e6))
        if self.chance(0.4):      # fields at the border of validity around it
            for f in self.r.sample(['kt', 'kq', 'tau', 'J', 'mx', 'mass', 'cd', 'aero'], self.r.randrange(1, 7)):
                if f in ('kt', 'kq', 'tau', 'J'):
                    for mm in self.pick([m], p['motors']):
                        mm[f] = 0.0
                elif f == 'mx':
                    m['mn'] = m['mx'] = self.pick(0.0, m['mx'])
                elif f in ('mass', 'cd'):
                    p[f] = 0.0
                else:
                    p['aero'] = zero33()
        if k == 0:
            p['mass'] = -x
        elif k == 1:
            p['J'][0] = [-y for y in p['J'][0]]
        elif k == 2:
            p['cd'] = -x
        elif k == 3:
            p['aero'] = self.spd(0.1, 1)
            p['aero'][1] = [-y for y in p['aero'][1]]
        elif k == 4:
            m['mx'] = min(m['mn'] - x, math.nextafter(m['mn'], -math.inf))
        elif k == 5:
            m['tau'] = -x
        elif k == 6:
            m['J'] = -x
        elif k == 7:
            m['kt'] = -x
        else:
            m['kq'] = -x
        return p

    def tweak(self, p):
        """a valid change of one or two fields"""
        p = json.loads(json.dumps(p))
        for _ in range(self.r.randrange(1, 3)):
            m = p['motors'][self.r.randrange(len(p['motors']))]
            k = self.r.randrange(14)
            if k < 5:
                f = ('kt', 'kq', 'tau', 'J', 'mx')[k]
                m[f] = m[f] * self.u(0.5, 2) if f != 'mx' else m['mn'] + (m['mx'] - m['mn']) * self.u(0.5, 2)
            elif k == 5:
                m['mn'] = m['mn'] + (m['mx'] - m['mn']) * self.u(-0.5, 0.5)
            elif k == 6:
                m['pos'] = [x + self.u(-0.1, 0.1) for x in m['pos']]
            elif k == 7:
                m['rot'] = self.rotmat(True)
            elif k == 8:
                m['dir'] = -m['dir']
            elif k == 9:
                p['mass'] *= self.u(0.5, 2)
            elif k == 10:
                p['cd'] = self.lg(0.02, 0.3)
            elif k == 11:
                p['g'] = self.v3(10)
            elif k == 12:
                p['J'] = [[2 * x for x in r] for r in p['J']]
            else:
                p['aero'] = [[2 * x for x in r] for r in p['aero']]
        return p

    def border(self, p):
        """valid with fields on the border of validity"""
        k = self.r.randrange(8)
        m = p['motors'][self.r.randrange(len(p['motors']))]
        if k == 0:
            p['mass'] = 0.0
        elif k == 1:
            p['cd'] = 0.0
        elif k == 2:
            p['aero'] = zero33()
        elif k == 3:
            m['mx'] = m['mn']
        elif k == 4:
            m['tau'] = 0.0
        elif k == 5:
            m['J'] = 0.0
        elif k == 6:
            m['kt'] = 0.0
        else:
            m['kq'] = 0.0
        return p

    @staticmethod
    def m6(ms):
        cols = []
        for r in ms:
            f = [r['rot'][i][2]*r['kt'] for i in range(3)]
            c = cross(r['pos'], f)
            cols.append(f + [c[i] + r['rot'][i][2]*r['dir']*r['kq'] for i in range(3)])
        return transpose(cols)

    def minv(self, ms):
        M = self.m6(ms)[2:]
        G = matmul(M, transpose(M))
        try:
            X = matmul(transpose(M), inv(G))
        except ZeroDivisionError:
            X = [[1.0]*4 for _ in ms]
        return [[0.0, 0.0] + r for r in X]

    def fam_model_seq(self, steps=10, prec='d', n=4):
        """process noise: same seed, different scales and steps"""
        self.trace('model_seq')
        kind = 'model.%s%d' % (prec, n)

        def par():
            p = self.model_par(n, noise=True)
            p['sF'], p['sM'] = (self.lg(1e-2, 4) if prec == 'f' or self.chance(0.6) else self.lg(1e-8, 1e4) for _ in range(2))
            return p
        s = self.r.randrange(2, 10**6)
        a, b = (self.new(kind, n, {'model': par(), 'seed': s}) for _ in range(2))
        c = self.new(kind, n, {'model': par(), 'seed': s + 3})
        for k in range(steps):
            if k == steps // 2:
                self.call(a, 'mupd', full=True, p=par())
            if self.chance(0.2):
                self.call(self.pick(a, b), 'nonoise')
            for x in (a, b, c):
                self.call(x, 'noise', dt=self.lg(1e-3, 0.5) if prec == 'f' or self.chance(0.5) else self.pick(0.01, self.lg(1e-7, 10.0)))
            self.rel('zseq', x=a, y=b, tag='C15')
            self.rel('zdiff', x=a, y=c, tag='C15')

    def fam_model_stat(self, steps=1500, prec='d', n=4):
        self.trace('model_stat')
        p = self.model_par(n, noise=True)
        p['sF'], p['sM'] = self.lg(3, 9), self.lg(0.05, 0.3)
        i = self.new('model.%s%d' % (prec, n), n, {'model': p, 'seed': self.r.randrange(2, 10**6)}, stat=True)
        for _ in range(steps):
            self.call(i, 'noise', dt=self.lg(1e-3, 0.1))
        self.rel('stat', x=i, tag='C15')

    def fam_dyn(self, steps=24, prec='d', n=4, noise=None):
        self.trace('dyn')
        self.odd = self.chance(0.5)
        mp = self.stiff(self.model_par(n, noise=noise))
        i = self.new('dyn.%s%d' % (prec, n), n, {'model': mp, 'seed': self.r.randrange(10**6), 'st': self.state(n, mp)})
        dtm = self.pick(0.01, 0.005, 0.001)
        since = 0
        for _ in range(steps):
            k = self.r.random()
            if k < 0.1 or since > 8:
                self.call(i, self.pick('setst', 'setstp'), st=self.state(n, mp))
                since = 0
            elif k < 0.13:
                self.call(i, 'csv')
            elif k < 0.16:
                self.call(i, 'step', cmd=self.cmd(mp), dt=self.pick(0.0, -0.001, -1.0), ext=self.v3(5), noise=self.chance(0.5))
            elif k < 0.18:
                self.call(i, 'setnull')
            elif k < 0.22:
                mp = self.stiff(self.model_par(n, noise=noise, style=self.styleof(mp))) if self.chance(0.4) else self.tweak(mp)
                self.call(i, 'mupd', full=True, p=mp)
                if self.chance(0.5):
                    self.call(i, 'setst', st=self.state(n, mp))
                    since = 0
            elif k < 0.24:
                self.call(i, 'mupd', full=True, p=self.invalid(self.model_par(n)))
            elif k < 0.26:
                mp = self.model_par(n, noise=noise)
                self.call(i, self.pick('setmodel', 'setmodelp'), full=True, p=mp, seed=self.r.randrange(10**6))
                self.call(i, 'setst', st=self.state(n, mp))
                since = 0
            else:
                dt = dtm if self.chance(0.5) else self.lg(1e-4, 0.0099)
                if prec == 'f':
                    dt = max(dt, 1e-5) if dt != 0.01 else 0.0095
                elif self.chance(0.12):
                    dt = self.lg(1e-9, 1e-4)
                self.call(i, 'step', cmd=self.cmd(mp), dt=dt, ext=self.w3(5, 20), noise=self.chance(0.7))
                since += 1

    def fam_dyn_many(self, prec='d', n=4):
        """many equal steps of which only the outcome is observed, then single steps"""
        self.trace('dyn_many')
        mp = self.model_par(n, noise=self.chance(0.3), uneven=False, tilt=False)
        st = self.rest(n, mp)
        st['w'] = self.v3(1.0)
        st['mw'] = [self.u(m['mn'], m['mx']) for m in mp['motors'][:1]] * n
        i = self.new('dyn.%s%d' % (prec, n), n, {'model': mp, 'seed': self.r.randrange(10**6), 'st': st})
        dt = self.lg(1e-4, 1e-3)
        ext = self.v3(2)
        for _ in range(3):
            m = mp['motors'][0]
            c = [self.u(m['mn'], m['mx'])] * n
            self.call(i, 'steps', k=self.pick(130, 260, 600, 1100, 2500, 6000), cmd=c, dt=dt, ext=ext, noise=self.chance(0.5))
            for _ in range(4):
                self.call(i, 'step', cmd=self.pick(c, self.cmd(mp)), dt=self.lg(1e-4, 0.0099), ext=self.v3(5), noise=self.chance(0.7))
            st = self.rest(n, mp)
            st['w'] = self.v3(1.0)
            st['mw'] = c
            self.call(i, 'setst', st=st)

    def longdt(self):
        k = self.r.random()
        if k < 0.3:
            return self.r.randrange(2, 30) * 0.01 + self.pick(0.0, 0.0, 0.005, 0.001, 0.0033)
        if k < 0.5:
            return 0.01 * (1 + self.lg(1e-3, 0.9))
        return self.lg(0.0101, 0.5)

    def fam_dyn_long(self, steps=6, prec='d', n=4):
        """durations above the longest substep"""
        self.trace('dyn_long')
        mp = self.model_par(n, noise=False)
        # keep the open-loop rotation tame
        for m in mp['motors']:
            m['kq'] *= 0.2
            m['pos'] = [x*0.1 for x in m['pos']]
        i = self.new('dyn.%s%d' % (prec, n), n, {'model': mp, 'seed': 0, 'st': self.state(n, mp, wmax=1.0)})
        for _ in range(steps):
            dt = self.longdt()
            if prec == 'f':
                dt = min(dt, 0.1)
                dt = (math.floor(dt/0.01) + 0.5) * 0.01      # not at a multiple of the substep
            self.call(i, 'step', cmd=self.cmd(mp), dt=dt, ext=self.v3(3), noise=self.chance(0.5))
            self.call(i, 'setst', st=self.state(n, mp, wmax=1.0))

    def fam_dyn_vlong(self, steps=2, prec='d', n=4):
        """single steps of hundreds to thousands of substeps"""
        self.trace('dyn_vlong')
        mp = self.model_par(n, noise=False, uneven=False, tilt=False)
        i = self.new('dyn.%s%d' % (prec, n), n, {'model': mp, 'seed': 0, 'st': self.rest(n, mp)})
        for _ in range(steps):
            m = mp['motors'][0]
            st = self.rest(n, mp)
            st['w'] = self.v3(0.5)
            st['v'] = self.v3(3)
            st['mw'] = [self.u(m['mn'], m['mx'])] * n
            self.call(i, 'setst', st=st)
            self.call(i, 'step', cmd=[self.u(m['mn'], m['mx'])] * n, dt=self.pick(self.lg(0.5, 5), self.lg(5, 60), 10.0, 30.0, self.u(10, 11)), ext=self.v3(1), noise=self.chance(0.5))

    def fam_dyn_stat(self, steps=1200, n=4):
        """process noise as drawn by the dynamics, step by step"""
        self.trace('dyn_stat')
        mp = self.model_par(n, noise=True, style='real', uneven=False, tilt=False)
        mp['sF'], mp['sM'] = self.lg(0.05, 0.3), self.lg(1e-8, 1e-7)
        mp['cd'] = 0.0
        mp['aero'] = zero33()
        mp['J'] = [[0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]]
        mp['J'] = [[float(x) for x in r] for r in mp['J']]
        i = self.new('dyn.d%d' % n, n, {'model': mp, 'seed': self.r.randrange(2, 10**6), 'st': self.rest(n, mp)}, stat=True)
        for k in range(steps):
            if k % 20 == 19:
                self.call(i, 'setst', st=self.rest(n, mp))
            self.call(i, 'step', cmd=[0.0]*n, dt=self.lg(1e-3, 0.01), ext=list(Z3), noise=True)
        self.rel('stat', x=i, tag='C15')

    # ------------------------------------------------------------ controllers
    def ctl_par(self, n, mp, wild=None):
        wild = self.chance(0.5) if wild is None else wild
        d = lambda a: [[a[i] if i == j else 0.0 for j in range(3)] for i in range(3)]
        if not wild:
            g = self.u(0.7, 1.3)
            kp = d([20.0*g, 20.0*g, 8.0*g])
            P = lambda kp, ki, kd, al, aw, lim: {'kp': kp, 'ki': ki, 'kd': kd, 'aw': aw, 'al': al, 'ri': self.chance(0.3) and all(aw), 'prop': lim is not None and self.chance(0.5),
                                                 'up': lim or [0.0]*3, 'lo': [-x for x in (lim or [0.0]*3)]}
            return {'acro': {'m': mp['mass'], 'kp': kp, 'g': mp['g']},
                    'indi': {'J': mp['J'], 'minv': self.minv(mp['motors']), 'pid': P([9.0]*3, [3.0]*3, [0.3]*3, [0.6]*3, [1.0]*3, None)},
                    'pos': P([1.0]*3, [0.01]*3, [0.0]*3, [0.1]*3, [0.5]*3, [self.u(2, 10)]*3),
                    'tra': P([10.0]*3, [0.005]*3, [6.0]*3, [0.1]*3, [1.0]*3, None),
                    'vel': P([6.0, 6.0, 10.0], [1.0, 1.0, 2.0], [0.4, 0.4, 0.0], [0.05, 0.05, 0.0], [1.0]*3, [4.0]*3)}
        kp = d([self.u(0.5, 20) for _ in range(3)])
        if self.chance(0.4):
            kp = [[x + (self.u(-2, 2) if i != j else 0) for j, x in enumerate(r)] for i, r in enumerate(kp)]
        if self.chance(0.15):
            kp[2][2] = 0.0
        if self.chance(0.1):
            kp[2][2] = -self.u(0.5, 5)
        pg = lambda: self.pid_par(3, gentle=True)
        return {'acro': {'m': self.lg(0.3, 3), 'kp': kp, 'g': self.pick([0.0, 0.0, -9.81], self.v3(10))},
                'indi': {'J': self.spd(0.01, 2), 'minv': self.vec(n, lambda: self.vec(6, lambda: self.u(-1, 1))) if self.chance(0.5) else self.minv(mp['motors']), 'pid': pg()},
                'pos': pg(), 'tra': pg(), 'vel': pg()}

    def acc_cmd(self, c):
        """desired acceleration, sometimes degenerate: thrust zero, along the heading, against the body"""
        g = c['acro']['g']
        k = self.r.random()
        if k < 0.06:
            return list(g)
        if k < 0.12:
            return [g[0] + self.u(-3, 3), g[1], g[2]]
        if k < 0.2:
            return [x + y for x, y in zip(g, self.v3(1e-3))]
        if k < 0.4:
            return self.v3(25)
        return self.v3(5)

    def ctl_call(self, i, c, flt, op=None, dt=None):
        op = op or self.pick('acro', 'accel', 'traj', 'vel', 'pos', 'pos', 'vel', 'traj')
        dt = dt or self.dt(flt)
        w, q, y = self.w3(5, 8), self.quat(), self.pick(self.u(-3.2, 3.2), 0.0, self.u(-10, 10) * min(self.wide, 10), math.pi/2)
        if op == 'acro':
            self.call(i, op, w=w, th=self.pick(0.0, self.u(-5, 25), self.u(0, 25) * self.wide), rt=self.w3(5, 20), dt=dt)
        elif op == 'accel':
            self.call(i, op, q=q, w=w, a=self.acc_cmd(c), y=y, dt=dt)
        elif op == 'traj':
            self.call(i, op, p=self.w3(5), v=self.w3(3, 20), q=q, w=w, pd=self.w3(5), vd=self.w3(3, 20), ad=self.w3(3, 20), y=y, dt=dt)
        elif op == 'vel':
            self.call(i, op, v=self.w3(3, 20), q=q, w=w, vd=self.w3(3, 20), y=y, dt=dt)
        elif op == 'pos':
            self.call(i, op, p=self.w3(5), q=q, v=self.w3(3, 20), w=w, pd=self.w3(5), y=y, dt=dt)
        elif op == 'kacro':
            self.call(i, op, w=w, th=self.u(0, 25) * self.wide, rt=self.w3(5, 20), dt=dt)
        elif op == 'kacc':
            self.call(i, op, a=self.acc_cmd(c), q=q, y=y, dt=dt)
        elif op == 'ktraj':
            self.call(i, op, p=self.w3(5), v=self.w3(3, 20), pd=self.w3(5), vd=self.w3(3, 20), ad=self.w3(3, 20), dt=dt)
        elif op == 'kvel':
            self.call(i, op, v=self.w3(3, 20), vd=self.w3(3, 20), dt=dt)
        elif op == 'kpos':
            self.call(i, op, p=self.w3(5), pd=self.w3(5), dt=dt)
        elif op == 'yawrate':
            self.call(i, op, y=self.u(-4, 4), w=self.u(-3, 3) * min(self.wide, 20))
        elif op == 'thrust':
            self.call(i, op, a=self.acc_cmd(c))
        else:
            self.call(i, 'rates', q=q, y=y, th=self.v3(20))

    def ctl_solo(self, i, n, c, op=None, unset=False):
        """a sub-controller of its own, built from separate arguments and used once"""
        op = op or self.pick('sacro', 'sindi', 'spos', 'svel', 'stra')
        new = c
        dt = self.dt(self.objs[i]['f'])
        if op == 'sacro':
            x = new['acro']
            self.call(i, op, m=x['m'], kp=x['kp'], g=None if unset else x['g'], a=self.acc_cmd(new), q=self.quat(), y=self.u(-3.2, 3.2))
        elif op == 'sindi':
            x = new['indi']
            self.call(i, op, J=x['J'], minv=x['minv'], pid=x['pid'], w=self.w3(5, 8), th=self.u(0, 25), rt=self.w3(5, 20), dt=dt)
        elif op == 'stra':
            self.call(i, op, pid=new['tra'], x=self.w3(5), v=self.w3(3, 20), xd=self.w3(5), vd=self.w3(3, 20), ad=self.w3(3, 20), dt=dt)
        else:
            self.call(i, op, pid=new[op[1:]], x=self.w3(5), xd=self.w3(5), dt=dt)

    SOLO = {'acro': 'sindi', 'kacro': 'sindi', 'accel': 'sacro', 'kacc': 'sacro', 'rates': 'sacro', 'thrust': 'sacro', 'traj': 'stra', 'ktraj': 'stra',
            'vel': 'svel', 'kvel': 'svel', 'pos': 'spos', 'kpos': 'spos', 'yawrate': 'sacro'}
    CONV = ('kacro', 'kacc', 'ktraj', 'kvel', 'kpos', 'yawrate', 'thrust', 'rates')

    def fam_ctl(self, steps=24, prec='d', n=4, ops=None):
        self.trace('ctl')
        mp = self.model_par(n, uneven=False, style=None if prec == 'd' else 'unit')
        c = self.ctl_par(n, mp)
        i = self.new('ctl.%s%d' % (prec, n), n, c)
        flt = prec == 'f'
        for _ in range(steps):
            k = self.r.random()
            if k < 0.7:
                self.ctl_call(i, c, flt, op=self.pick(*ops) if ops else None)
            elif k < 0.9:
                self.ctl_call(i, c, flt, op=self.pick(*(ops or self.CONV)))
            elif k < 0.92:
                self.ctl_solo(i, n, self.ctl_par(n, mp), self.SOLO[self.pick(*(ops or self.CONV))])
            elif k < 0.94:
                self.call(i, 'creset', full=True)
            elif k < 0.955:
                self.call(i, 'nop', full=True)
            else:
                self.ctl_param(i, c, n, mp)

    def fam_ctl_hold(self, prec='d', n=4):
        """the same control call over and over"""
        self.trace('ctl_hold')
        mp = self.model_par(n, uneven=False)
        c = self.ctl_par(n, mp)
        for l in (c['pos'], c['tra'], c['vel'], c['indi']['pid']):
            l['ri'] = False
        i = self.new('ctl.%s%d' % (prec, n), n, c)
        for _ in range(2):
            self.ctl_call(i, c, prec == 'f', dt=self.pick(0.002, 0.005))
            line, head = self.cur[-1]
            for _ in range(self.pick(30, 60, 110)):
                self.cur.append((line, head))
            self.ctl_call(i, c, prec == 'f')

    def ctl_param(self, i, c, n, mp, pre=None):
        em = (lambda op, **a: self.call(i, op, full=True, **a)) if pre is None else (lambda op, **a: self.sub(i, pre, op, full=True, **a))
        new = self.ctl_par(n, mp)
        op = self.pick('uacro', 'uindi', 'upos', 'utra', 'uvel', 'uall', 'amass', 'agrav', 'akp', 'iJ', 'iminv', 'loop', 'loop', 'loop', 'loop')
        if op == 'uacro':
            em(op, p=new['acro'])
            c['acro'] = new['acro']
        elif op == 'uindi':
            em(op, p=new['indi'])
            c['indi'] = new['indi']
        elif op in ('upos', 'utra', 'uvel'):
            em(op, p=new[op[1:]])
            c[op[1:]] = new[op[1:]]
        elif op == 'uall':
            em(op, p=new)
            c.update(new)
        elif op == 'amass':
            em(op, v=new['acro']['m'])
            c['acro'] = dict(c['acro'], m=new['acro']['m'])
        elif op == 'agrav':
            em(op, v=self.v3(10))
        elif op == 'akp':
            em(op, v=new['acro']['kp'])
            c['acro'] = dict(c['acro'], kp=new['acro']['kp'])
        elif op == 'iJ':
            em(op, v=new['indi']['J'])
        elif op == 'iminv':
            em(op, v=new['indi']['minv'])
        else:
            lp = self.pick('rp', 'pp', 'tp', 'vp')
            key = {'rp': None, 'pp': 'pos', 'tp': 'tra', 'vp': 'vel'}[lp]
            par = c['indi']['pid'] if key is None else c[key]
            st = dict(par)
            p = self.pid_par(3, gentle=True)
            sop = self.pick('upd', 'sg', 'skp', 'ski', 'skd', 'saw', 'sal', 'sri', 'slim', 'dlim', 'reset', 'sprop')
            pr = lp if pre is None else 'ctl:' + lp
            self.pid_set_op(i, sop, p, st, emit=lambda o, **a: self.sub(i, pr, o, full=True, **a))
            if key is None:
                c['indi'] = dict(c['indi'], pid=st)
            else:
                c[key] = st

    CTLF = [[x, y] for x in ('rp', 'pp', 'tp', 'vp') for y in ('e', 'P', 'I', 'D', 'out')] + [['mot'], ['tq'], ['ar'], ['drat'], ['dthr']]

    def fam_ctl_fresh(self, steps=10, prec='d', n=4):
        """reset of the whole controller against a newly built one"""
        self.trace('ctl_fresh')
        mp = self.model_par(n, uneven=False)
        c = self.ctl_par(n, mp)
        kind = 'ctl.%s%d' % (prec, n)
        a = self.new(kind, n, c)
        flt = prec == 'f'
        for _ in range(2):
            for _ in range(self.r.randrange(1, steps)):
                self.ctl_call(a, c, flt)
            self.call(a, 'creset', full=True)
            b = self.new(kind, n, c)
            # run every loop once on both so that no stale report remains, then compare
            for op in ('traj', 'pos', 'traj', 'pos', 'vel', 'accel', 'acro', 'traj', 'pos'):
                st = self.r.getstate()
                self.ctl_call(a, c, flt, op=op)
                self.r.setstate(st)
                self.ctl_call(b, c, flt, op=op)
                fs = [x for x in self.CTLF if not (x[0] in ('pp', 'vp') and op == 'traj' and not seen)] if False else self.CTLF
                self.rel('fresh', x=a, y=b, f=[x for x in fs if self.ran(x[0], op)])

    @staticmethod
    def ran(f, op):
        if f in ('pp',):
            return op == 'pos'
        if f in ('vp',):
            return op in ('pos', 'vel')
        if f == 'tp':
            return op == 'traj'
        if f == 'ar':
            return op != 'acro'
        return True

    def fam_ctl_live(self, steps=30, prec='d', n=4):
        """live parameter changes between control calls"""
        self.trace('ctl_live')
        mp = self.model_par(n, uneven=False)
        c = self.ctl_par(n, mp)
        i = self.new('ctl.%s%d' % (prec, n), n, c)
        for _ in range(steps):
            if self.chance(0.4):
                self.ctl_param(i, c, n, mp)
            else:
                self.ctl_call(i, c, prec == 'f')

    # ------------------------------------------------------------ simulator
    def sim_par(self, n, style=None, noise=None, wild=None, sensors=True, uneven=None, st=None):
        mp = self.model_par(n, style=style, noise=noise, uneven=uneven)
        return {'dyn': {'model': mp, 'seed': self.r.randrange(2, 10**6), 'st': st or self.state(n, mp)},
                'ctl': self.ctl_par(n, mp, wild), 'imu': self.imu_par(noisy=None if sensors else False),
                'odo': self.odo_par()}

    def sim_cmd(self, i, mp, c, floor=True):
        """one command (no update)"""
        op = self.pick('arm', 'arm', 'disarm', 'mode', 'mode', 'mode', 'mode1', 'rmw', 'racro', 'rtraj', 'rvel', 'rpos', 'ryaw', 'ryr', 'floor', 'nofloor', 'floor0')
        if op in ('floor', 'nofloor', 'floor0') and not floor:
            op = 'rpos'
        if op == 'mode':
            self.call(i, 'mode', m=self.r.randrange(6), y=self.r.randrange(2))
        elif op == 'mode1':
            self.call(i, 'mode1', m=self.r.randrange(6))
        elif op == 'rmw':
            self.call(i, op, v=self.cmd(mp))
        elif op == 'racro':
            self.call(i, op, t=self.u(-2, 25) * self.wide, w=self.w3(4, 8))
        elif op == 'rtraj':
            self.call(i, op, p=self.w3(10), v=self.w3(3, 20), a=self.w3(3, 20))
        elif op == 'rvel':
            self.call(i, op, v=self.w3(4, 20))
        elif op == 'rpos':
            self.call(i, op, v=self.w3(10))
        elif op == 'ryaw':
            self.call(i, op, v=self.pick(self.u(-3.2, 3.2), self.u(-9, 9) * min(self.wide, 10)))
        elif op == 'ryr':
            self.call(i, op, v=self.u(-3, 3) * min(self.wide, 10))
        elif op == 'floor':
            self.call(i, op, h=self.pick(0.0, self.u(-10, 10) * self.wide, self.u(-3, 3)))
        else:
            self.call(i, op)

    def sim_dt(self, flt):
        dt = self.pick(0.001, 0.005, 0.002, self.lg(1e-3, 0.0099))
        if not flt and self.chance(0.06):
            return self.lg(1e-9, 1e-3)
        return max(dt, 0.002) if flt else dt

    def fam_sim(self, steps=50, prec='d', n=4, upd=0.5, params=0.03, noise=None, floor=True, cmds=None):
        """random histories of commands and updates"""
        self.trace('sim')
        flt = prec == 'f'
        p = self.sim_par(n, noise=noise, style='unit' if flt else None)
        if not flt:
            self.stiff(p["dyn"]["model"])
        mp, c = p['dyn']['model'], p['ctl']
        i = self.new('sim.%s%d' % (prec, n), n, p)
        since = 0
        if self.chance(0.7):
            self.call(i, 'arm')
        for _ in range(steps):
            k = self.r.random()
            if since > 8 or k < 0.03:
                self.call(i, 'setst', st=self.state(n, mp))
                since = 0
            elif k < 0.03 + params:
                since = 9
                mp = self.sim_params(i, n, mp, c, noise, flt)
            elif k < 0.03 + params + 0.03:
                self.call(i, self.pick('nop', 'csv', 'csvo', 'print', 'printo'))
            elif k < 0.06 + params + upd:
                op = self.r.random()
                if op < 0.42:
                    self.call(i, 'uc', dt=self.dt(flt))
                elif op < 0.78:
                    if self.chance(0.06):
                        self.call(i, 'ud', dt=self.pick(0.0, -0.01, -3.0))
                    else:
                        self.call(i, 'ud', dt=self.sim_dt(flt))
                        since += 1
                elif op < 0.9:
                    self.call(i, 'ui', dt=self.pick(self.sim_dt(flt), self.sim_dt(flt), self.sim_dt(flt), 0.0, -0.5))
                else:
                    self.call(i, 'uo', dt=self.sim_dt(flt))
            else:
                self.sim_cmd(i, mp, c, floor)

    def sim_params(self, i, n, mp, c, noise, flt):
        op = self.pick('pdyn', 'pctl', 'pimu', 'podo', 'mupd', 'bad', 'ctl', 'ctl', 'imu', 'odo')
        st = 'unit' if flt else None
        if op == 'pdyn':
            mp = self.model_par(n, noise=noise, style=st)
            self.call(i, 'pdyn', full=True, p={'model': mp, 'seed': self.r.randrange(2, 10**6), 'st': self.state(n, mp)})
        elif op == 'pctl':
            c.update(self.ctl_par(n, mp))
            self.call(i, 'pctl', full=True, p=c)
        elif op == 'pimu':
            self.call(i, 'pimu', full=True, p=self.imu_par())
        elif op == 'podo':
            self.call(i, 'podo', full=True, p=self.odo_par())
        elif op == 'mupd':
            mp = self.model_par(n, noise=noise, style=self.styleof(mp)) if self.chance(0.5) else self.tweak(mp)
            self.call(i, 'mupd', full=True, p=mp)
        elif op == 'bad':
            self.call(i, 'mupd', full=True, p=self.invalid(self.model_par(n, style=st)))
        elif op == 'ctl':
            self.ctl_param(i, c, n, mp, pre='ctl:')
        elif op == 'imu':
            self.imu_op(i, pre='imu:')
        else:
            if self.chance(0.5):
                self.sub(i, 'odo:', 'orient', q=self.quat())
            else:
                self.sub(i, 'odo:', 'reset')
        return mp

    def fam_sim_modes(self, steps=40, prec='d', n=4, rate=0.5, wild=None):
        """every pair of modes, references of all modes set, controller updates in random states"""
        self.trace('sim_modes')
        flt = prec == 'f'
        p = self.sim_par(n, style='unit' if flt else None, noise=False, wild=wild)
        mp, c = p['dyn']['model'], p['ctl']
        i = self.new('sim.%s%d' % (prec, n), n, p)
        for _ in range(steps):
            if self.chance(0.5):
                self.call(i, 'arm')
            self.call(i, 'setst', st=self.state(n, mp))
            if self.chance(0.7):
                self.call(i, 'mode', m=self.r.randrange(6), y=1 if self.chance(rate) else 0)
            for op in self.r.sample(['rmw', 'racro', 'rtraj', 'rvel', 'rpos', 'ryaw', 'ryr', 'none', 'none'], 4):
                if op == 'rmw':
                    self.call(i, op, v=self.cmd(mp))
                elif op == 'racro':
                    self.call(i, op, t=self.u(-2, 25), w=self.v3(4))
                elif op == 'rtraj':
                    self.call(i, op, p=self.v3(10), v=self.v3(3), a=self.v3(3))
                elif op in ('rvel', 'rpos'):
                    self.call(i, op, v=self.v3(5))
                elif op == 'ryaw':
                    self.call(i, op, v=self.u(-4, 4))
                elif op == 'ryr':
                    self.call(i, op, v=self.u(-3, 3))
            for _ in range(self.r.randrange(1, 4)):
                self.call(i, 'uc', dt=self.dt(flt))
                if self.chance(0.3):
                    self.call(i, 'ud', dt=self.sim_dt(flt))
            if self.chance(0.3):
                self.call(i, 'disarm')
                self.call(i, 'uc', dt=self.dt(flt))

    def fam_sim_floor(self, steps=40, prec='d', n=4, noise=None):
        """motion around the floor: falling, resting, taking off, floor moved, floor switched"""
        self.trace('sim_floor')
        flt = prec == 'f'
        p = self.sim_par(n, style='real' if not flt else 'unit', noise=noise, wild=False, uneven=False)
        p['dyn']['model']['g'] = [0.0, 0.0, -9.81] if self.chance(0.8) else [self.u(-1, 1), self.u(-1, 1), -self.u(5, 12)]
        p['ctl']['acro']['g'] = p['dyn']['model']['g']
        mp = p['dyn']['model']
        h = self.pick(0.0, self.u(-5, 5), self.u(-5, 5))
        st = self.state(n, mp, q=self.level(), wmax=1.5, vmax=3)
        st['p'][2] = h + self.pick(self.u(-0.5, 0.5), self.u(-0.02, 0.02), 0.0, self.u(0, 0.01))
        p['dyn']['st'] = st
        i = self.new('sim.%s%d' % (prec, n), n, p)
        self.call(i, 'floor', h=h)
        if self.chance(0.6):
            self.call(i, 'arm')
            self.call(i, 'mode', m=self.pick(1, 2, 4, 5), y=self.r.randrange(2))
        since = 0
        for _ in range(steps):
            k = self.r.random()
            if since > 10 or k < 0.04:
                st = self.state(n, mp, q=self.pick(self.level(), self.quat()), wmax=1.5, vmax=3)
                st['p'][2] = h + self.pick(self.u(-0.5, 0.5), self.u(-0.02, 0.02), 0.0, self.lg(1e-4, 1e-2))
                self.call(i, 'setst', st=st)
                since = 0
            elif k < 0.1:
                h = self.pick(h, 0.0, self.u(-5, 5), h + self.u(-0.2, 0.2))
                self.call(i, 'floor', h=h)
            elif k < 0.14:
                self.call(i, 'nofloor')
            elif k < 0.2:
                self.call(i, 'ui', dt=0.005)
                self.call(i, 'uo', dt=0.005)
            elif k < 0.4:
                self.call(i, 'uc', dt=0.005)
            elif k < 0.44:
                self.call(i, 'rmw', v=self.cmd(mp))
            elif k < 0.48:
                self.call(i, 'rpos', v=[self.u(-1, 1), self.u(-1, 1), h + self.u(-1, 2)])
            elif k < 0.5:
                self.call(i, self.pick('arm', 'disarm'))
            elif k < 0.53:
                self.call(i, 'ud', dt=self.pick(0.0, -0.02))
            else:
                if noise is False and self.chance(0.2) and not flt:
                    self.call(i, 'ud', dt=self.u(0.011, 0.06))
                elif noise is False and self.chance(0.04) and not flt:
                    # one long fall
                    st = self.rest(n, mp, q=self.level())
                    st['mw'] = [0.0] * n
                    st['v'] = self.v3(2)
                    st['p'][2] = h + self.pick(self.u(-1, 6), self.u(0, 60))
                    self.call(i, 'disarm')
                    self.call(i, 'setst', st=st)
                    self.call(i, 'ud', dt=self.lg(0.06, 4))
                    since = 0
                else:
                    self.call(i, 'ud', dt=self.pick(0.005, self.lg(1e-3, 0.0099)))
                since += 1

    def fam_sim_flight(self, steps=400, prec='d', n=4, dt=None, floor=True, noise=None, sensors=True):
        """closed-loop flight with realistic gains: takeoff, waypoints, mode changes, landing"""
        self.trace('sim_flight')
        flt = prec == 'f'
        p = self.sim_par(n, style='real', noise=noise, wild=False, uneven=False, sensors=sensors)
        mp = p['dyn']['model']
        mp['g'] = [0.0, 0.0, -9.81]
        k0 = p['dyn']['model']['motors'][0]
        for m in mp['motors']:    # enough thrust
            m['kt'] = max(k0['kt'], 2.5 * 9.81 * mp['mass'] / (n * k0['mx']**2))
            m['kq'] = m['kt'] * 0.1
            m['rot'] = [list(r) for r in I3]
            m['tau'] = min(m['tau'], 0.05)
        p['ctl'] = self.ctl_par(n, mp, wild=False)
        p['dyn']['st'] = self.rest(n, mp, p=[0.0, 0.0, self.u(0, 1)], q=self.rpy(0, 0, self.u(-3, 3)))
        p['odo']['q0'] = p['dyn']['st']['q']
        i = self.new('sim.%s%d' % (prec, n), n, p)
        dt = dt or self.pick(0.002, 0.005)
        if floor:
            self.call(i, 'floor', h=0.0)
        self.call(i, 'arm')
        self.call(i, 'mode', m=5, y=0)
        self.call(i, 'rpos', v=[0.0, 0.0, 2.0])
        for k in range(steps):
            if self.chance(0.01):
                m, y = self.pick(0, 3, 4, 5, 5), self.r.randrange(2)
                self.call(i, 'mode', m=m, y=y)
                self.call(i, 'ryr', v=self.u(-1, 1))
            if self.chance(0.02):
                self.call(i, 'rpos', v=[self.u(-2, 2), self.u(-2, 2), self.u(0.5, 3)])
            if self.chance(0.01):
                self.call(i, 'rvel', v=self.v3(1))
            self.call(i, 'uc', dt=dt)
            self.call(i, 'ud', dt=dt)
            self.call(i, 'ui', dt=dt)
            self.call(i, 'uo', dt=dt)

    def flyable(self, n, noise=None, sensors=True):
        """a well-configured vehicle with thrust reserves and the gains of the example configuration"""
        p = self.sim_par(n, style='real', noise=noise, wild=False, uneven=False, sensors=sensors)
        mp = p['dyn']['model']
        mp['g'] = [0.0, 0.0, -9.81]
        k0 = mp['motors'][0]
        for m in mp['motors']:
            m['kt'] = max(k0['kt'], 2.5 * 9.81 * mp['mass'] / (n * k0['mx']**2))
            m['kq'] = m['kt'] * 0.1
            m['rot'] = [list(r) for r in I3]
            m['tau'] = min(m['tau'], 0.03)
        mp['sF'], mp['sM'] = (mp['sF'] and self.lg(1e-5, 1e-3), mp['sM'] and self.lg(1e-9, 1e-7))
        p['ctl'] = self.ctl_par(n, mp, wild=False)
        p['odo']['al'] = 1.0
        return p

    def fam_sim_warp(self, prec='d', n=4, rate=0.4, noise=None):
        """long flights of which only the outcome is observed, then single calls"""
        self.trace('sim_warp')
        p = self.flyable(n, noise=noise)
        mp, c = p['dyn']['model'], p['ctl']
        p['dyn']['st'] = self.rest(n, mp, p=[self.u(-2, 2), self.u(-2, 2), self.u(0.5, 2)], q=self.rpy(self.u(-0.2, 0.2), self.u(-0.2, 0.2), self.u(-3, 3)))
        p['odo']['q0'] = p['dyn']['st']['q']
        i = self.new('sim.%s%d' % (prec, n), n, p)
        dt = self.pick(0.002, 0.004)
        if self.chance(0.5):
            self.call(i, 'floor', h=self.u(-1, 0.4))
        self.call(i, 'arm')
        for _ in range(2):
            self.call(i, 'mode', m=self.pick(0, 3, 4, 5), y=int(self.chance(rate)))
            self.call(i, 'rpos', v=[self.u(-2, 2), self.u(-2, 2), self.u(0.6, 3)])
            self.call(i, 'rvel', v=[self.u(-0.5, 0.5) for _ in range(3)])
            self.call(i, 'ryr', v=self.u(-1, 1))
            self.call(i, 'fly', k=self.pick(130, 260, 600, 1100, 2600, 6000), dt=dt)
            for _ in range(2):
                for op in ('uc', 'ud', 'ui', 'uo'):
                    self.call(i, op, dt=dt)
            for _ in range(8):
                k = self.r.random()
                if k < 0.4:
                    self.sim_cmd(i, mp, c)
                else:
                    self.call(i, self.pick('uc', 'ud', 'ui', 'uo'), dt=dt)
            self.call(i, 'floor', h=self.u(4, 8))
            for op in ('uc', 'ud', 'ui', 'uo', 'uc', 'ud', 'ui', 'uo'):
                self.call(i, op, dt=dt)
            self.call(i, 'nofloor')
            self.call(i, 'setst', st=self.rest(n, mp, p=[0.0, 0.0, 2.0], q=self.rpy(0, 0, self.u(-3, 3))))
            self.call(i, 'arm')

    def fam_sim_idle(self, prec='d', n=4):
        """waiting: on the floor or in free fall, armed or not, with an idle or a constant command"""
        self.trace('sim_idle')
        p = self.flyable(n, noise=self.chance(0.3))
        mp, c = p['dyn']['model'], p['ctl']
        p['dyn']['st'] = self.rest(n, mp, p=[self.u(-2, 2), self.u(-2, 2), self.u(0, 0.1)], q=self.rpy(0, 0, self.u(-3, 3)))
        p['odo']['q0'] = p['dyn']['st']['q']
        i = self.new('sim.%s%d' % (prec, n), n, p)
        dt = self.pick(0.002, 0.004)
        on = self.chance(0.8)
        if on:
            self.call(i, 'floor', h=self.pick(0.0, self.u(0, 0.5)))
        for _ in range(3):
            if self.chance(0.7):
                self.call(i, 'arm')
            else:
                self.call(i, 'disarm')
            m = self.pick(0, 1, 1, 2, 2, 3, 4, 5)
            self.call(i, 'mode', m=m, y=self.r.randrange(2))
            if m == 1:
                self.call(i, 'rmw', v=[self.pick(0.0, 0.0, 0.2) * k['mx'] for k in mp['motors'][:1]] * n)
            elif m == 2:
                self.call(i, 'racro', t=self.pick(0.0, 0.3 * 9.81 * mp['mass']), w=list(Z3))
            self.call(i, 'fly', k=self.pick(60, 130, 260, 600, 1100) if on else 130, dt=dt)
            for op in ('uc', 'ud', 'ui', 'uo', 'uc', 'ud', 'ui', 'uo'):
                self.call(i, op, dt=dt)
            for _ in range(6):
                if self.chance(0.5):
                    self.sim_cmd(i, mp, c, floor=False)
                else:
                    self.call(i, self.pick('uc', 'ud', 'ui', 'uo'), dt=dt)
            self.call(i, 'setst', st=self.rest(n, mp, p=[self.u(-2, 2), self.u(-2, 2), self.u(0, 0.3)], q=self.rpy(0, 0, self.u(-3, 3))))

    def like_example(self, noise=True):
        """the example configuration of the repository, and vehicles close to it"""
        k = lambda a=0.15: self.u(1 - a, 1 + a)
        arm, kt, kq, tau, mx, jm = 0.08 * k(), 1.91e-6 * k(0.1), 2.6e-7 * k(), 0.02 * k(0.25), 2200.0, 6.62e-6
        ms = [{'dir': d, 'kt': kt, 'kq': kq, 'pos': [x * arm, y * arm, 0.0], 'rot': [list(r) for r in I3], 'mn': 0.0, 'mx': mx, 'tau': tau, 'J': jm}
              for d, x, y in ((-1, 1, -1), (1, -1, -1), (-1, -1, 1), (1, 1, 1))]
        d3 = lambda a: [[a[i] if i == j else 0.0 for j in range(3)] for i in range(3)]
        mp = {'motors': ms, 'mass': 1.0 * k(), 'J': d3([0.0049 * k(), 0.0049 * k(), 0.0069 * k()]), 'cd': 0.1 * self.u(0, 1.5),
              'aero': d3([0.003 * k()] * 3), 'g': [0.0, 0.0, -9.81], 'sF': 0.0005 if noise else 0.0, 'sM': 1.25e-7 if noise else 0.0}
        c = self.ctl_par(4, mp, wild=False)
        c['acro']['kp'] = d3([20.0 * k(0.1), 20.0 * k(0.1), 8.0 * k(0.1)])
        c['pos']['up'], c['pos']['lo'] = [10.0] * 3, [-10.0] * 3
        for l in (c['pos'], c['tra'], c['vel'], c['indi']['pid']):
            l['ri'] = l['prop'] = False
        imu = {'seed': self.r.randrange(2, 10**6), 'gv': 0.003, 'av': 0.0005, 'gs': 0.0, 'as': 0.0, 'q': [1.0, 0.0, 0.0, 0.0]}
        return {'dyn': {'model': mp, 'seed': self.r.randrange(2, 10**6), 'st': self.rest(4, mp)}, 'ctl': c,
                'imu': self.imu_par(), 'odo': {'al': 0.9, 'q0': [1.0, 0.0, 0.0, 0.0]}}

    def goal(self, i, kind, p, y, tol):
        self.rel('goal', x=i, g=dict(kind=kind, p=enc(list(p)), y=enc(float(y)), tol=enc(float(tol))))

    # what a flight must have come to: (without process noise, with it); None is not judged
    TOL = {'at': (0.1, 0.3), 'still': (0.03, 1.0), 'head': (0.02, 0.7), 'vel': (0.15, 0.8), 'rate': (0.1, None), 'turn': (0.15, None)}

    def fam_sim_goal(self, legs=3, mode=None):
        """closed-loop flights to their references (C31)"""
        self.trace('sim_goal')
        noise = self.chance(0.3)
        p = self.like_example(noise)
        mp = p['dyn']['model']
        base = self.pick(0.0, self.u(-60, 60), self.u(-1000, 1000))
        at = [self.u(-5, 5), self.u(-5, 5), base + self.u(1, 8)]
        if self.chance(0.3):
            at[0], at[1] = at[0] + self.u(-500, 500), at[1] + self.u(-500, 500)
        p['dyn']['st'] = self.rest(4, mp, p=list(at), q=self.rpy(self.u(-0.2, 0.2), self.u(-0.2, 0.2), self.u(-3.14, 3.14)))
        p['odo']['q0'] = p['dyn']['st']['q']
        i = self.new('sim.d4', 4, p)
        dt = self.pick(0.002, 0.004, 0.004, self.u(0.0015, 0.004))
        floor = self.chance(0.5)
        if floor:
            self.call(i, 'floor', h=base + self.u(-1, 0.5))
        if self.chance(0.5):
            self.call(i, 'arm')
        else:
            at = None

        def judge(kind, p, y):
            t = self.TOL[kind][noise]
            if t is not None:
                self.goal(i, kind, p, y, t)
        cur = None
        for leg in range(legs):
            if at is None:
                at = list(p['dyn']['st']['p'])
                m, ym = self.pick(0, 3, 4, 5), int(self.chance(0.35))
                self.call(i, 'mode', m=m, y=ym)
                self.call(i, 'arm')
            else:
                m, ym = mode if mode is not None else self.pick(0, 2, 3, 4, 5, 5), int(self.chance(0.35))
                if m == 2 and noise:
                    m = 5
                blip = m != 2 and self.chance(0.2)
                if blip:                # motors off for a moment
                    self.call(i, 'disarm')
                    self.call(i, 'fly', k=int(0.1 / dt), dt=dt)
                    self.call(i, 'arm')
                if self.chance(0.2):    # parameters sent again
                    self.call(i, 'pctl', p=p['ctl'])
                self.call(i, 'mode', m=m, y=ym)
            r = 1.0 if m == 3 else 3.0
            tgt = [at[0] + self.u(-r, r), at[1] + self.u(-r, r), max(base + 1.5, at[2] + self.u(-r, r)) if at[2] > base + 1.5 else at[2] + self.u(0, r)]
            yaw = self.pick(self.u(-3.14, 3.14), self.u(-3.14, 3.14), self.pick(-1, 1) * (math.pi - self.lg(1e-3, 0.2)), self.u(-9, 9))
            yr = self.u(-1, 1)
            if m == 2:
                rat = [self.u(-0.3, 0.3) for _ in range(3)]
                self.call(i, 'racro', t=9.81 * mp['mass'], w=rat)
            else:
                if ym == 0:
                    self.call(i, 'ryaw', v=yaw)
                else:
                    self.call(i, 'ryr', v=yr)
                if m == 3:
                    self.call(i, 'rtraj', p=tgt, v=list(Z3), a=list(Z3))
                elif m == 4:
                    vel = [self.u(-1, 1), self.u(-1, 1), self.u(0, 1)]
                    self.call(i, 'rvel', v=vel)
                elif leg == 0 or blip or self.chance(0.85):
                    self.call(i, 'rpos', v=tgt)
                else:
                    tgt = None          # stays where it was when the mode was chosen
            T = {2: 1.0, 3: 8.0, 4: 10.0}.get(m, 12.0)
            if m == 4:
                self.call(i, 'fly', k=int(T / dt), dt=dt)
                judge('vel', vel, 0.0)
                at = [a + T * v for a, v in zip(at, vel)]
            elif m == 2:
                self.call(i, 'fly', k=int(T / dt), dt=dt)
                judge('rate', rat, 0.0)
            elif m == 3 and self.chance(0.6):
                # a moving reference, renewed every few cycles
                f = self.pick(1.0, 0.6, 0.3)
                vel = [self.u(-f, f), self.u(-f, f), self.u(0, f)]
                self.call(i, 'fly', k=int(4.0 / dt), dt=dt)
                n = int(4.0 / (10 * dt))
                for k in range(n):
                    pk = [x + v * 10 * dt * k for x, v in zip(tgt, vel)]
                    self.call(i, 'rtraj', p=pk, v=list(vel), a=list(Z3))
                    self.call(i, 'fly', k=10, dt=dt)
                at = [x + v * 10 * dt * n for x, v in zip(tgt, vel)]
                judge('at', at, 0.0)
                judge('vel', vel, 0.0)
            else:
                self.call(i, 'fly', k=int(T / dt), dt=dt)
                if tgt is not None:
                    judge('at', tgt, 0.0)
                    at = tgt
                judge('still', Z3, 0.0)
            if m != 2 and ym == 0:
                judge('head', Z3, yaw)
            elif m != 2:
                judge('turn', Z3, yr)
        if floor:
            self.call(i, 'disarm')
            self.call(i, 'fly', k=int(8.0 / dt), dt=dt)
            self.goal(i, 'land', Z3, 0.0, 9.82 * dt)

    def fam_sim_track(self, steps=80, n=4):
        """noise-free odometry against the truth (C26): from rest or in flight, slow or tumbling, any mass;
        now and then the odometry is restarted by a floor contact on the way"""
        self.trace('sim_track')
        p = self.sim_par(n, style=self.pick('real', 'unit'), noise=False, uneven=self.chance(0.5), wild=False, sensors=False)
        mp = p['dyn']['model']
        p['imu']['q'] = [1.0, 0.0, 0.0, 0.0]
        st = self.rest(n, mp)
        st['w'] = self.v3(self.pick(0.0, 3, 3, 25))
        if self.chance(0.5):
            st['v'] = self.v3(self.pick(3, 15))
        p['dyn']['st'] = st
        p['odo'] = {'al': 1.0, 'q0': st['q']}
        i = self.new('sim.d%d' % n, n, p)
        self.call(i, 'arm')
        closed = self.chance(0.5)
        self.call(i, 'mode', m=self.pick(3, 4, 5, 0) if closed else 1, y=0)
        dt = self.pick(0.001, 0.002, 0.004, self.lg(1e-4, 0.008))
        if self.chance(0.3):
            # flies, lands (odometry and sensor restart), takes off again
            for k in range(self.r.randrange(1, 6)):
                for op in ('uc', 'ud', 'ui', 'uo'):
                    self.call(i, op, dt=dt)
            self.call(i, 'floor', h=st['p'][2] + 100.0)
            self.call(i, 'ud', dt=dt)
            self.call(i, 'nofloor')
        self.rel('track', x=i)
        for k in range(steps):
            if not closed and k % 15 == 0:
                base = [0.5*(m['mn']+m['mx']) * self.u(0.8, 1.2) for m in mp['motors']]
                self.call(i, 'rmw', v=base)
            self.call(i, 'uc', dt=dt)
            self.call(i, 'ud', dt=dt)
            self.call(i, 'ui', dt=dt)
            self.call(i, 'uo', dt=dt)

    def fam_print(self, **kw):
        """labelled printouts of the same states"""
        self.fam_csv(row='print', **kw)

    def fam_csv(self, steps=40, prec='d', n=4, row='csv'):
        """logged rows of arbitrary states: vehicle, simulator, odometry"""
        self.trace(row)
        mp = self.model_par(n, style='unit' if prec == 'f' else None)
        what = self.pick('dyn', 'sim', 'odo')
        if what == 'odo':
            i = self.new('odo.' + prec, 0, self.odo_par())
        elif what == 'dyn':
            i = self.new('dyn.%s%d' % (prec, n), n, {'model': mp, 'seed': 5, 'st': self.state(n, mp)})
        else:
            i = self.new('sim.%s%d' % (prec, n), n, self.sim_par(n, style='unit' if prec == 'f' else None))
        for _ in range(steps):
            if what == 'odo':
                self.call(i, 'orient', q=self.quat())
                self.call(i, 'update', g=self.v3(9), a=self.v3(9), dt=self.lg(1e-3, 0.1))
                self.call(i, row)
                continue
            self.call(i, 'setst', st=self.state(n, mp))
            self.call(i, row)
            if what == 'sim':
                self.sub(i, 'odo:', 'orient', q=self.quat())
                self.call(i, 'ui', dt=0.01)
                self.call(i, 'uo', dt=self.lg(1e-3, 0.1))
                self.call(i, row + 'o')

    # ------------------------------------------------------------ determinism
    # ------------------------------------------------------------ what is left unset
    def neutral(self, what, n=4):
        z3, q1 = [0.0]*3, [1.0, 0.0, 0.0, 0.0]
        pid = lambda k: {'kp': [0.0]*k, 'ki': [0.0]*k, 'kd': [0.0]*k, 'aw': [0.0]*k, 'al': [1.0]*k, 'ri': False, 'prop': False,
                         'up': [0.0]*k, 'lo': [0.0]*k}
        t = {'pid': lambda: pid(n), 'imu': lambda: {'gv': 0.0, 'av': 0.0, 'gs': 0.0, 'as': 0.0, 'q': q1, 'seed': 0},
             'odo': lambda: {'al': 1.0, 'q0': q1},
             'mp': lambda: {'motors': [{'dir': 1, 'pos': z3, 'rot': [r[:] for r in I3]}]*n, 'cd': 0.0, 'aero': zero33(), 'g': [0.0, 0.0, -9.81], 'sF': 0.0, 'sM': 0.0},
             'st': lambda: {'p': z3, 'q': q1, 'v': z3, 'w': z3, 'a': z3, 'dw': z3, 'F': z3, 'T': z3, 'mw': [0.0]*n, 'ma': [0.0]*n},
             'model': lambda: {'model': self.neutral('mp', n), 'seed': 0},
             'dyn': lambda: {'model': self.neutral('mp', n), 'seed': 0, 'st': self.neutral('st', n)},
             'acro': lambda: {'m': 0.0, 'kp': zero33(), 'g': [0.0, 0.0, -9.81]},
             'indi': lambda: {'J': zero33(), 'minv': [[0.0]*6 for _ in range(n)], 'pid': pid(3)},
             'loop': lambda: pid(3),
             'ctl': lambda: {'acro': self.neutral('acro'), 'indi': self.neutral('indi', n), 'pos': pid(3), 'tra': pid(3), 'vel': pid(3)},
             'sim': lambda: {'dyn': self.neutral('dyn', n), 'ctl': self.neutral('ctl', n), 'imu': self.neutral('imu'), 'odo': self.neutral('odo')}}
        return t[what]()

    def leave(self, p, d, prob):
        """(p with some of the fields of d unset, p with their neutral values given)"""
        a, b = dict(p), dict(p)
        for k in d:
            if isinstance(d[k], dict):
                if k not in ('model', 'dyn') and self.chance(prob * 0.3):
                    a[k], b[k] = '^' if k == 'ctl' else '~', d[k]
                else:
                    a[k], b[k] = self.leave(p[k], d[k], prob)
            elif k == 'motors':
                prs = [self.leave(m, x, prob * 0.3) for m, x in zip(p[k], d[k])]
                a[k], b[k] = [x for x, _ in prs], [x for _, x in prs]
            elif self.chance(prob):
                a[k], b[k] = None, d[k]
        return a, b

    def fam_unset(self, what=None, steps=14, n=4):
        """one object leaves things unset, its twin is given the neutral values; same calls on both"""
        what = what or self.pick('pid', 'pid', 'imu', 'odo', 'model', 'dyn', 'dyn', 'ctl', 'ctl', 'sim', 'sim')
        self.trace('unset_' + what)
        ax = n
        style = self.pick('real', 'unit')
        mp = self.model_par(n, noise=self.chance(0.5), style=style)
        form = ''
        prob = self.pick(0.15, 0.4, 0.9)
        if what == 'pid':
            kind, ax = self.pick(('pid3.d', 3), ('pids.d', 1), ('pid4.d', 4), ('pid2.d', 2))
            p, d = self.pid_par(ax), self.neutral('pid', ax)
        elif what == 'imu':
            kind, p, d = 'imu.d', self.imu_par(True), self.neutral('imu')
        elif what == 'odo':
            kind, p, d = 'odo.d', self.odo_par(), self.neutral('odo')
        else:
            kind = what + '.d%d' % n
            seed = self.r.randrange(2, 999)
            p = {'model': lambda: {'model': mp, 'seed': seed}, 'dyn': lambda: {'model': mp, 'seed': seed, 'st': self.state(n, mp)},
                 'ctl': lambda: self.ctl_par(n, mp),
                 'sim': lambda: {'dyn': {'model': mp, 'seed': seed, 'st': self.state(n, mp)}, 'ctl': self.ctl_par(n, mp), 'imu': self.imu_par(), 'odo': self.odo_par()}}[what]()
            d = self.neutral(what, n)
        a, b = self.leave(p, d, prob)
        if what in ('imu', 'odo') and self.chance(0.5):      # positional form: the first k arguments
            k = self.r.randrange(len(d) + 1)
            form = '+%d' % k
            a = {x: p[x] if j < k else None for j, x in enumerate(p)}
            b = {x: p[x] if j < k else d[x] for j, x in enumerate(p)}
        elif what in ('pid', 'ctl') and self.chance(0.15):   # no argument at all
            a, b = '^' if what == 'ctl' else '~', d
        A, B = self.new(kind, ax, a, form=form), self.new(kind, ax, b, form=form and '+9')

        def both(op, full=False, **x):
            self.call(A, op, full=full, **x)
            self.call(B, op, full=full, **x)
            self.rel('same', x=A, y=B, tag='C32')

        def less(op, d, key='p', pre=None, **x):
            u, v = self.leave(x[key], d, prob)
            self.call(A, op, full=True, **dict(x, **{key: u}))
            self.call(B, op, full=True, **dict(x, **{key: v}))
            self.rel('same', x=A, y=B, tag='C32')

        def args(op, d, **x):
            self.call(A, op, **dict(x, **{k: None for k in d}))
            self.call(B, op, **dict(x, **d))
            self.rel('same', x=A, y=B, tag='C32')
        self.rel('same', x=A, y=B, tag='C32')
        sig = self.Signal(self, max(ax, 1))
        for s in range(steps):
            k = self.r.random()
            if what == 'pid':
                if k < 0.12:
                    less('upd', d, p=self.pid_par(ax))
                elif k < 0.2:
                    _, up, lo = self.pid_limits(ax, 'asym')
                    args('slim', {'b': False}, up=up, lo=lo)
                elif k < 0.26:
                    _, up, lo = self.pid_limits(ax, 'asym')
                    args('lim', {'b': False}, x=self.vec(ax, lambda: self.u(-40, 40)), up=up, lo=lo)
                elif k < 0.5:
                    both('c3', dt=self.dt(False), e=sig.next(), de=self.vec(ax, lambda: self.u(-3, 3)))
                else:
                    both('c2', dt=self.dt(False), e=sig.next())
            elif what == 'imu':
                both('update', dt=self.lg(1e-3, 0.1), f=self.v3(9), w=self.v3(9))
            elif what == 'odo':
                both('update', g=self.v3(9), a=self.v3(9), dt=self.lg(1e-3, 0.1))
            elif what == 'model':
                if k < 0.25:
                    mp = self.model_par(n, noise=True, style=style)
                    less('mupd', self.neutral('mp', n), p=mp)
                elif k < 0.6:
                    both('noise', dt=self.lg(1e-3, 0.1))
                elif k < 0.7:
                    both('drag', v=self.v3(9))
                elif k < 0.8:
                    both('aerom', v=self.v3(9))
                else:
                    both('torque', w=self.cmd(mp), a=self.vec(n, lambda: self.u(-50, 50)))
            elif what == 'dyn':
                if k < 0.12:
                    less('setst', self.neutral('st', n), key='st', st=self.state(n, mp))
                elif k < 0.2:
                    less('mupd', self.neutral('mp', n), p=self.model_par(n, noise=True, style=style))
                elif k < 0.55:
                    args('step', self.pick({'ext': [0.0]*3, 'noise': True}, {'noise': True}), **dict({'cmd': self.cmd(mp), 'dt': self.u(1e-3, 0.01), 'ext': self.v3(3), 'noise': True}))
                else:
                    both('step', cmd=self.cmd(mp), dt=self.u(1e-3, 0.01), ext=self.v3(3), noise=self.chance(0.8))
            elif what == 'ctl':
                if k < 0.08:
                    c = self.ctl_par(n, mp)
                    c['acro']['g'] = [0.0, 0.0, -9.81]
                    self.ctl_solo(A, n, c, 'sacro', unset=True)
                elif k < 0.4:
                    c = self.ctl_par(n, mp)
                    op, x = self.pick(('uacro', 'acro'), ('uindi', 'indi'), ('upos', 'pos'), ('utra', 'tra'), ('uvel', 'vel'), ('uall', None))
                    less(op, self.neutral('ctl', n)[x] if x else self.neutral('ctl', n), p=c[x] if x else c)
                else:
                    st = self.r.getstate()
                    for x in (A, B):
                        self.r.setstate(st)
                        self.ctl_call(x, p, False)
                    self.rel('same', x=A, y=B, tag='C32')
            else:
                if k < 0.06:
                    less('pdyn', self.neutral('dyn', n), p={'model': self.model_par(n, noise=True, style=style), 'seed': self.r.randrange(2, 999), 'st': self.state(n, mp)})
                elif k < 0.12:
                    less('pctl', self.neutral('ctl', n), p=self.ctl_par(n, mp))
                elif k < 0.18:
                    less('pimu', self.neutral('imu'), p=self.imu_par(True))
                elif k < 0.24:
                    less('podo', self.neutral('odo'), p=self.odo_par())
                elif k < 0.3:
                    less('setst', self.neutral('st', n), key='st', st=self.state(n, mp))
                elif k < 0.5:
                    st = self.r.getstate()
                    for x in (A, B):
                        self.r.setstate(st)
                        self.sim_cmd(x, mp, p['ctl'])
                    self.rel('same', x=A, y=B, tag='C32')
                elif k < 0.65:
                    both('uc', dt=self.dt(False))
                elif k < 0.8:
                    both('ud', dt=self.u(1e-3, 0.01))
                elif k < 0.9:
                    both('ui', dt=self.u(1e-3, 0.01))
                else:
                    both('uo', dt=self.u(1e-3, 0.01))
        both('nop', full=True)

    def alike(self, p, q):
        """parameters that agree with p in many respects, but not in all: fields from q, or permuted"""
        if isinstance(p, dict):
            return {k: json.loads(json.dumps(p[k])) if k in ('up', 'lo', 'prop', 'seed', 'minv', 'rot', 'q', 'mn', 'mx', 'mw') else self.alike(p[k], q[k]) for k in p}
        if self.chance(0.5):
            return json.loads(json.dumps(p))
        if isinstance(p, list) and p and isinstance(p[0], list):
            if len(p) == 3 and len(p[0]) == 3 and self.chance(0.7):
                o = self.pick((1, 2, 0), (2, 0, 1), (1, 0, 2), (2, 1, 0))
                return [[p[i][j] for j in o] for i in o]
        elif isinstance(p, list) and p and isinstance(p[0], float) and self.chance(0.6):
            k = self.r.randrange(len(p))
            return p[k:] + p[:k]
        elif isinstance(p, list) and p and isinstance(p[0], dict):
            return [json.loads(json.dumps(self.pick(x, y))) for x, y in zip(p, q)]
        return json.loads(json.dumps(q))

    def fam_twin(self, what=None, steps=24, prec='d', n=4):
        """two equal objects, equal calls; a bystander; a copy half way"""
        what = what or self.pick('pid', 'imu', 'odo', 'model', 'dyn', 'ctl', 'sim', 'sim')
        self.trace('twin_' + what)
        flt = prec == 'f'
        style = 'unit' if flt else self.pick('real', 'unit')
        mp, mp2 = self.model_par(n, noise=True, style=style), self.model_par(n, noise=True, style=style)
        if what == 'pid':
            kind, ax = self.pick(('pid3', 3), ('pids', 1), ('pid4', 4))
            kind += '.' + prec
            p, q = self.pid_par(ax), self.pid_par(ax)
        elif what == 'imu':
            kind, ax, p, q = 'imu.' + prec, 0, self.imu_par(True), self.imu_par(True)
        elif what == 'odo':
            kind, ax, p, q = 'odo.' + prec, 0, self.odo_par(), self.odo_par()
        else:
            kind, ax = '%s.%s%d' % (what, prec, n), n
            mk = {'model': lambda m: {'model': m, 'seed': self.r.randrange(2, 999)},
                  'dyn': lambda m: {'model': m, 'seed': self.r.randrange(2, 999), 'st': self.state(n, m)},
                  'ctl': lambda m: self.ctl_par(n, m),
                  'sim': lambda m: {'dyn': {'model': m, 'seed': self.r.randrange(2, 999), 'st': self.state(n, m)},
                                    'ctl': self.ctl_par(n, m), 'imu': self.imu_par(True), 'odo': self.odo_par()}}[what]
            p, q = mk(mp), mk(mp2)
        a, by, b = self.new(kind, ax, p), self.new(kind, ax, q), self.new(kind, ax, p)
        like = self.new(kind, ax, self.alike(p, q)) if self.chance(0.7) else None
        group = [a, b]
        sig = self.Signal(self, max(ax, 1))
        since = 0
        for s in range(steps):
            # the same call on every member; the bystander gets other calls in between
            if s == steps // 2:
                group.append(self.copy(a))
            if s == 2 * steps // 3:
                self.assign(by, b)
                group.append(by)
                by = None
            k, e, since = self.r.random(), sig.next(), since + 1

            def go(x, st):
                self.r.setstate(st)
                if what == 'pid':
                    if k < 0.1:
                        self.call(x, 'reset')
                    elif k < 0.15:
                        self.call(x, 'upd', p=self.pid_par(ax))
                    elif k < 0.3:
                        self.call(x, 'c3', dt=self.dt(flt), e=e, de=self.vec(ax, lambda: self.u(-3, 3)))
                    else:
                        self.call(x, 'c2', dt=self.dt(flt), e=e)
                elif what == 'imu':
                    if k < 0.2:
                        self.imu_op(x)
                    else:
                        self.call(x, 'update', dt=self.lg(1e-3, 0.1), f=self.v3(9), w=self.v3(9))
                elif what == 'odo':
                    self.call(x, 'update', g=self.v3(9), a=self.v3(9), dt=self.lg(1e-3, 0.1))
                elif what == 'model':
                    if k < 0.1:
                        self.call(x, 'nonoise')
                    else:
                        self.call(x, 'noise', dt=self.lg(1e-3, 0.1))
                elif what == 'dyn':
                    if since % 8 == 7:
                        self.call(x, 'setst', st=self.state(n, mp))
                    else:
                        self.call(x, 'step', cmd=self.cmd(mp), dt=self.sim_dt(flt), ext=self.v3(3), noise=k < 0.8)
                elif what == 'ctl':
                    self.ctl_call(x, p, flt)
                else:
                    if since % 8 == 7:
                        self.call(x, 'setst', st=self.state(n, mp))
                    elif k < 0.25:
                        self.sim_cmd(x, mp, p['ctl'])
                    elif k < 0.5:
                        self.call(x, 'uc', dt=self.dt(flt))
                    elif k < 0.75:
                        self.call(x, 'ud', dt=self.sim_dt(flt))
                    elif k < 0.9:
                        self.call(x, 'ui', dt=self.sim_dt(flt))
                    else:
                        self.call(x, 'uo', dt=self.sim_dt(flt))
            st0 = self.r.getstate()
            go(group[0], st0)
            end = self.r.getstate()
            for x in group[1:]:
                self.r.setstate(end)
                others = [y for y in (by, like) if y is not None]
                self.r.shuffle(others)
                for y in others:
                    if self.chance(0.4 if y == like else 0.0):
                        end = self.r.getstate()
                        go(y, st0)          # the very same call
                        self.r.setstate(end)
                    else:
                        go(y, self.r.getstate())
                end = self.r.getstate()
                go(x, st0)
            self.r.setstate(end)
            for y in (by, like):
                if y is not None and self.chance(0.3):
                    go(y, self.r.getstate())
            for x in group[1:]:
                self.rel('same', x=group[0], y=x)
            for x in group + ([by] if by is not None else []):
                if self.chance(0.3):
                    full = self.chance(0.5)
                    self.call(x, 'nop', full=full)
            if self.chance(0.3):
                self.call(a, 'nop', full=True)
                self.call(a, 'nop', full=True)

    REFS = ('rmw', 'racro', 'rtraj', 'rvel', 'rpos', 'ryaw', 'ryr')
    OWN = {0: ('rpos', 'rtraj', 'ryaw'), 1: ('rmw',), 2: ('racro',), 3: ('rtraj', 'rpos', 'rvel', 'ryaw'),
           4: ('rvel', 'rtraj', 'ryaw'), 5: ('rpos', 'rtraj', 'ryaw')}

    def ref(self, op, mp):
        return {'rmw': lambda: {'v': self.cmd(mp)}, 'racro': lambda: {'t': self.u(0, 25), 'w': self.v3(4)},
                'rtraj': lambda: {'p': self.v3(10), 'v': self.v3(3), 'a': self.v3(3)}, 'rvel': lambda: {'v': self.v3(4)},
                'rpos': lambda: {'v': self.v3(10)}, 'ryaw': lambda: {'v': self.u(-4, 4)}, 'ryr': lambda: {'v': self.u(-3, 3)}}[op]()

    def fam_sim_frame(self, what=None, rounds=4, prec='d', n=4):
        """two equal simulators, one of which gets commands that together change nothing; both must go on alike"""
        what = what or self.pick('C02', 'C03', 'C04', 'C10', 'C14', 'C27')
        self.trace('sim_frame')
        flt = prec == 'f'
        st = 'unit' if flt else None
        p = self.sim_par(n, style=st)
        mp, c = p['dyn']['model'], p['ctl']
        a = self.new('sim.%s%d' % (prec, n), n, p)
        b = self.copy(a)
        refs, cur, armed, floor = {}, (1, 0), False, None

        def both(op, **kw):
            for x in (a, b):
                self.call(x, op, **kw)
        for _ in range(rounds):
            # a common situation
            for op in self.REFS:
                if op not in refs or self.chance(0.4):
                    refs[op] = self.ref(op, mp)
                    if op == 'rtraj':
                        refs['rvel'], refs['rpos'] = {'v': refs[op]['v']}, {'v': refs[op]['p']}
            cur = (self.r.randrange(6), self.r.randrange(2))
            armed = self.chance(0.85)
            floor = self.u(-10, 0) if self.chance(0.5) else None
            both('arm' if armed else 'disarm')
            both(*(['nofloor'] if floor is None else ['floor']), **({} if floor is None else {'h': floor}))
            both('mode', m=cur[0], y=cur[1])
            for op in self.REFS:
                both(op, **refs[op])
            both('setst', st=self.state(n, mp))
            if self.chance(0.5):
                both('uc', dt=0.01)
                both('ud', dt=0.004)
                if armed and cur[1] == 1:
                    refs.pop('ryaw')          # re-aimed by the update
            # what changes nothing, on one of them
            foreign = []
            for _ in range(self.r.randrange(1, 4)):
                if what == 'C02':
                    foreign.append(self.pick(*[x for x in self.REFS if x not in self.OWN[cur[0]] and (x != 'ryr' or cur[1] == 0)]))
                    self.call(b, foreign[-1], **self.ref(foreign[-1], mp))
                elif what == 'C03':
                    if cur[1] == 0 and self.chance(0.5):
                        self.call(b, 'mode1', m=cur[0])
                    else:
                        self.call(b, 'mode', m=cur[0], y=cur[1])
                elif what == 'C04':
                    op = self.pick('floor', *[x for x in self.REFS if x in refs and x != 'rtraj'])
                    if op != 'floor':
                        if self.chance(0.7):
                            self.call(b, op, **self.ref(op, mp))
                        self.call(b, op, **refs[op])
                    elif floor is None:
                        self.call(b, 'nofloor')
                    else:
                        if self.chance(0.5):
                            self.call(b, 'floor', h=self.u(-3, 3))
                        self.call(b, 'floor', h=floor)
                elif what == 'C10':
                    self.call(b, 'ud', dt=self.pick(0.0, -0.01, -2.0))
                elif what == 'C14':
                    self.call(b, 'mupd', p=self.invalid(self.model_par(n, style=st) if self.chance(0.5) else mp))
                else:
                    lp = self.pick('rp', 'pp', 'tp', 'vp')
                    q = c['indi']['pid'] if lp == 'rp' else c[{'pp': 'pos', 'tp': 'tra', 'vp': 'vel'}[lp]]
                    op = self.pick('skp', 'ski', 'skd', 'sal', 'sg', 'upd', 'slim', 'acro', 'other')
                    if op == 'acro':
                        self.sub(b, 'ctl:', 'amass', v=c['acro']['m'])
                        self.sub(b, 'ctl:', 'akp', v=c['acro']['kp'])
                    elif op == 'other':
                        z = self.pid_par(3, gentle=True)
                        o = self.pick('skp', 'ski', 'skd')
                        self.sub(b, 'ctl:' + lp, o, v=z[o[1:]])
                        self.sub(b, 'ctl:' + lp, o, v=q[o[1:]])
                    else:
                        self.pid_set_op(b, op, q, dict(q), emit=lambda o, **k: self.sub(b, 'ctl:' + lp, o, **k))
            # both go on
            for _ in range(self.r.randrange(2, 5)):
                op = self.pick('uc', 'uc', 'ud', 'ui', 'uo')
                both(op, dt=self.dt(flt) if op == 'uc' else self.sim_dt(flt))
                if op == 'uc' and armed and cur[1] == 1:
                    refs.pop('ryaw', None)
            for op in foreign:
                both(op, **(refs[op] if op in refs else self.ref(op, mp)))
                if op == 'rtraj':
                    both('rvel', **refs['rvel'])
                    both('rpos', **refs['rpos'])
            self.rel('same', x=a, y=b, tag=what)

    # ------------------------------------------------------------ walks found by TLC
    ORDER = {'racro': 'tw', 'rtraj': 'pva', 'mode': 'my', 'c2': ('dt', 'e'), 'c3': ('dt', 'e', 'de'), 'slim': ('up', 'lo', 'b')}

    def walk_call(self, i, c, full=False):
        a = {k: v for k, v in c['a'].items() if k != 'x'}
        a = {k: a[k] for k in self.ORDER.get(c['op'], a)}
        if c['op'] == 'upd':
            a['p'] = {k: a['p'][k] for k in ('kp', 'ki', 'kd', 'aw', 'al', 'ri', 'prop', 'up', 'lo')}
        if c['op'] == 'mupd':
            a['p'] = ordered_model(a['p'])
        self.call(i, c['op'], full=full, **a)

    def fam_walk_sim(self, w, walk, own, prec='d', n=4):
        """a transition of MCSim, on its vehicle or on another one, then every kind of update"""
        self.trace('walk_sim')
        p = w['base'][walk[0] - 1] if own else self.sim_par(n, noise=False, style='unit' if prec == 'f' else None)
        i = self.new('sim.%s%d' % (prec, n), n, p)
        for k in walk[1]:
            c = w['alphabet'][k - 1]
            if c['op'] == 'rmw' and n != 4:
                c = {'op': 'rmw', 'a': {'v': c['a']['v'][:2] * (n // 2)}}
            if not own and c['a'].get('dt', 0) > 0.03:
                c = {'op': c['op'], 'a': {'dt': 0.025}}      # a quarter of a second can make another vehicle diverge
            self.walk_call(i, c)
        for op in self.r.sample(['uc', 'ud', 'ui', 'uo', 'uc'], 5):
            self.call(i, op, dt=0.01)
        self.call(i, 'nop', full=True)

    def fam_walk_pid(self, w, walk, own, prec='d'):
        """a transition of MCPid, then two calls"""
        self.trace('walk_pid')
        p = w['base'][walk[0] - 1] if own else self.pid_par(2)
        if not own:
            p['ri'] = p['ri'] and min(p['aw']) > 0
        p = {k: p[k] for k in ('kp', 'ki', 'kd', 'aw', 'al', 'ri', 'prop', 'up', 'lo')}
        i = self.new('pid2.' + prec, 2, p)
        for k in walk[1]:
            self.walk_call(i, w['alphabet'][k - 1], full=True)
        for k in range(3):
            self.walk_call(i, w['alphabet'][self.r.randrange(4)])

    def fam_walk_model(self, w, walk, kind, prec='d'):
        """parameter updates of MCModel on a model, on the dynamics or on a simulator"""
        self.trace('walk_model')
        mp = w['base'][walk[0] - 1]
        dyn = {'model': mp, 'seed': 7, 'st': self.state(4, mp)}
        p = {'model': {'model': mp, 'seed': 7}, 'dyn': dyn,
             'sim': {'dyn': dyn, 'ctl': self.ctl_par(4, mp), 'imu': self.imu_par(), 'odo': self.odo_par()}}[kind]
        i = self.new('%s.%s4' % (kind, prec), 4, p)
        for k in walk[1]:
            c = w['alphabet'][k - 1]
            if kind == 'model':
                self.call(i, 'check', p=ordered_model(c['a']['p']))
            self.walk_call(i, c, full=True)
            if kind == 'model':
                for op in self.r.sample(['drag', 'aerom', 'thrust', 'force', 'torque', 'noise'], 2):
                    self.call(i, op, **({'v': self.v3(5)} if op in ('drag', 'aerom') else {'dt': 0.01} if op == 'noise' else
                                        dict({'w': self.spd_vec(mp)}, **({'a': self.vec(4, lambda: self.u(-9, 9))} if op == 'torque' else {}))))
            elif kind == 'dyn':
                self.call(i, 'step', cmd=self.cmd(mp), dt=0.005, ext=self.v3(2), noise=True)
            else:
                self.call(i, 'ud', dt=0.005)
        self.call(i, 'nop', full=True)

    # ------------------------------------------------------------ output
    def write(self, path):
        with open(path, 'w') as f:
            for t in self.traces:
                f.write('T\n')
                for line, _ in t['ev']:
                    f.write(line + '\n')
