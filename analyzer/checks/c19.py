"""C19: commands of the mobile base are previewed over the whole horizon, in their order, and consumed exactly by the elapsed time."""
from .common import *
from .c14 import M, compare, seq
from .c16 import rows_of, fork
from .c18 import NS, MPC, HOR, IV, MODEL, MS, RBS, PMS, overloads

CMD = NS + 'MotionParameters::'
TS = 100


class Setup(object):
    def __init__(self, cx, N):
        self.cx, self.N = cx, N
        self.ev = ev = cx.eval()
        self.hkey, self.mkey = cx.cls(HOR), cx.cls(NS + 'Model')
        self.h, self.model, self.mp = LV(uid('horizon'), (), self.hkey), LV(uid('model'), (), self.mkey), LV(uid('par'), (), cx.cls(NS + 'MPCParameters'))
        self.T = sym('T', 'r')
        v = upd(upd(upd(mk('obj', self.mp.root), NS + 'MPCParameters::preview_horizon_length_', num(N)), NS + 'MPCParameters::sampling_time_ms_', num(TS)), NS + 'MPCParameters::sampling_time_', self.T)
        ev.store(self.mp, v)
        ts = cx.get(cx.cls(NS + 'MPCParameters'), self.mp, 'getSamplingTime', ev=ev, nparams=0)
        if ts is not self.T:
            self.T = ts
        u = cx.P.G.get(CMD + 'UNLIMITED_DURATION')
        self.unlimited = ev.rv(ev.ev(u['init']))

    def command(self, k, duration):
        """command with arbitrary velocities; the duration None is unlimited"""
        o = mk('obj', uid('command'))
        vel, pos, w = M('v%d' % k, 2, 1), M('p%d' % k, 2, 1), sym('w%d' % k, 'r')
        d = self.unlimited if duration is None else num(duration) if isinstance(duration, int) else duration
        for n, x in (('base_velocity_', emat(vel)), ('base_position_', emat(pos)), ('base_angular_velocity_', w), ('duration_ms_', d)):
            o = upd(o, CMD + n, x)
        return o, vel, pos, w


def forms(cx, deque):
    k = cx.cls(HOR)
    out = [g for g in cx.P.methods(k, 'form') if 'body' in g and len(g['params']) == 3 and ('MotionParameters' == (cx.ptype(g, 2).get('q') or '').split('::')[-1]) != deque]
    if not out:
        raise Missing(HOR + '::form')
    return out[0]


def intervals(cx, s, nm, W, commands, facts=[]):
    """every interval follows the given command"""
    ev = s.ev
    iv = fld(ev.load(s.h), HOR + '::intervals_')
    cx.eq(nm + ': number of intervals', vsize(iv), num(s.N), facts, W, 'length of the horizon')
    st = fld(mk('obj', s.model.root), MODEL + 'state_')
    theta = elem(fld(fld(st, MS + 'base_state_'), RBS + 'RotaryState::rpy_'), num(2), ZERO)
    z = lambda q: elem(fld(fld(st, MS + q), PMS + 'position_'), num(2), ZERO)
    rp = LV(s.model.root, s.model.path + (('f', MODEL + 'robot_parameters_'),), cx.cls(NS + 'RobotParameters'))
    e2 = cx.eval()
    bd = {q: rows_of(cx.get(cx.cls(NS + 'RobotParameters'), rp, n, ev=e2, nparams=0), 2, 2)
          for q, n in (('cop_bounds_', 'getCoPBounds'), ('nominal_base_velocity_bounds_', 'getNominalBaseVelocityBounds'), ('nominal_base_acceleration_bounds_', 'getNominalBaseAccelerationBounds'), ('body_bounds_', 'getBodyBounds'))}
    for i in range(s.N):
        o = vsel(iv, num(i))
        _, vel, pos, w = commands[i]
        theta = add(theta, mul(w, s.T))
        g = lambda n: fld(o, IV + n)
        for n, x in (('T_ms_', num(TS)), ('T_', s.T), ('theta_', theta), ('base_height_', z('base_state_')), ('body_height_', z('body_state_')), ('base_mass_', fld(st, MS + 'base_mass_')), ('body_mass_', fld(st, MS + 'body_mass_'))):
            cx.eq('%s: %s of interval %d' % (nm, n, i), g(n), x, facts, W, {'theta_': 'heading at the end of the interval under the angular velocity of its command'}.get(n, 'of the model'))
        c, sn = fn('cos', theta), fn('sin', theta)
        R = [[c, neg(sn)], [sn, c]]
        compare(cx, '%s: rotation of interval %d' % (nm, i), g('rotation_'), R, facts, W, 'rotation by the heading')
        compare(cx, '%s: reference velocity of interval %d' % (nm, i), g('base_vel_ref_'), [[add(mul(r[0], vel[0][0]), mul(r[1], vel[1][0]))] for r in R], facts, W, 'velocity of the command along the heading')
        compare(cx, '%s: reference position of interval %d' % (nm, i), g('base_pos_ref_'), pos, facts, W, 'position of the command')
        for q, b in bd.items():
            compare(cx, '%s: %s of interval %d' % (nm, q, i), g(q), b, facts, W, 'bounds of the robot')


def single(cx):
    f = forms(cx, False)
    W = cx.where(f)
    for N in (1, 3):
        s = Setup(cx, N)
        d = sym('duration', 'i')
        c = s.command(0, d)
        lv = LV(uid('motion'), (), cx.cls(NS + 'MotionParameters'))
        s.ev.store(lv, c[0])
        r = cx.run(f, s.h, [s.mp, s.model, lv], s.ev)
        cx.never('command, %d intervals: refused' % N, r.thrown(), [], W)
        unl = eq(d, s.unlimited)
        cx.eq('command, %d intervals: previewed exactly when it lasts for the whole horizon' % N, r.ret, bor(unl, le(num(N * TS), d)), [bor(unl, le(ZERO, d))], W)
        intervals(cx, s, 'command, %d intervals' % N, W, [c] * N, [r.ret])


QUEUES = ((), (None,), (300,), (299,), (50,), (100, None), (100, 200), (150, 150), (150, 149), (30, 30, 30, 210), (250, None), (20, 380), (0, 300), (100, 0, 200), (90, 20, 190, 500), (1000, None), (100, 100, 99, 1), (199, 2, 400))


def queue(cx, durations, N):
    f = forms(cx, True)
    W = cx.where(f)
    s = Setup(cx, N)
    cs = [s.command(i, d) for i, d in enumerate(durations)]
    nm = 'commands %s, %d intervals' % (','.join('...' if d is None else str(d) for d in durations) or '-', N)
    lv = LV(uid('queue'), (), None)
    s.ev.store(lv, seq([c[0] for c in cs]))
    r = cx.run(f, s.h, [s.mp, s.model, lv], s.ev)
    cx.never(nm + ': refused', r.thrown(), [], W)
    at = []
    for i in range(N):
        t, k = 0, None
        for j, d in enumerate(durations):
            t = None if d is None else t + d
            if t is None or t >= (i + 1) * TS:
                k = j
                break
        at.append(k)
    cx.eq(nm + ': previewed exactly when they last for the whole horizon', r.ret, TRUE if None not in at else FALSE, [], W)
    if None not in at:
        intervals(cx, s, nm, W, [cs[k] for k in at])


def shift_single(cx):
    for f in overloads(cx, 'shift', 2):
        if 'deque' in (cx.ptype(f, 0).get('q') or cx.ptype(f, 0).get('s') or ''):
            continue
        W = cx.where(f)
        s = Setup(cx, 2)
        for default in (True, False):
            ev = cx.eval()
            lv = LV(uid('mpc'), (), cx.cls(MPC))
            d, t = sym('duration', 'i'), sym('shift', 'i')
            ms = sym('Tms', 'u')
            ev.store(lv.sub(('f', MPC + '::mpc_parameters_')), upd(mk('obj', uid('par')), NS + 'MPCParameters::sampling_time_ms_', ms))
            c = s.command(0, d)
            m = LV(uid('motion'), (), cx.cls(NS + 'MotionParameters'))
            ev.store(m, c[0])
            a = ev.rv(ev.ev(cx.P.G[MPC + '::DEFAULT_PREVIEW_HORIZON_SHIFT']['init'])) if default else t
            by = ms if default else t
            r = cx.run(f, lv, [m, a], ev)
            F = [le(ZERO, by)] + ([] if default else [le(ZERO, t)])
            nm = 'shift of a command by ' + ('the sampling time' if default else 'a time')
            cx.never(nm + ': refused', r.thrown(), F, W)
            post = fld(ev.load(m), CMD + 'duration_ms_')
            cx.eq(nm + ': unlimited', post, s.unlimited, F + [eq(d, s.unlimited)], W, 'stays unlimited')
            cx.eq(nm + ': what remains', post, sub(d, by), F + [le(by, d)], W, 'duration less the elapsed time')
            cx.eq(nm + ': has elapsed', post, ZERO, F + [le(ZERO, d), lt(d, by)], W, 'nothing remains')


def shift_queue(cx, durations, t):
    for f in overloads(cx, 'shift', 2):
        if 'deque' not in (cx.ptype(f, 0).get('q') or cx.ptype(f, 0).get('s') or ''):
            continue
        W = cx.where(f)
        s = Setup(cx, 2)
        ev = cx.eval()
        ev.peel = 8
        lv = LV(uid('mpc'), (), cx.cls(MPC))
        ev.store(lv.sub(('f', MPC + '::mpc_parameters_')), upd(mk('obj', uid('par')), NS + 'MPCParameters::sampling_time_ms_', num(TS)))
        cs = [s.command(i, d) for i, d in enumerate(durations)]
        q = LV(uid('queue'), (), None)
        ev.store(q, seq([c[0] for c in cs]))
        a = num(t) if t is not None else ev.rv(ev.ev(cx.P.G[MPC + '::DEFAULT_PREVIEW_HORIZON_SHIFT']['init']))
        r = cx.run(f, lv, [q, a], ev)
        left, rest = TS if t is None else t, list(enumerate(durations))
        while rest and rest[0][1] is not None and rest[0][1] <= left:
            left -= rest.pop(0)[1]
        if rest and rest[0][1] is not None:
            rest[0] = (rest[0][0], rest[0][1] - left)
        nm = 'shift of commands %s by %s' % (','.join('...' if d is None else str(d) for d in durations) or '-', 'the sampling time' if t is None else t)
        cx.never(nm + ': refused', r.thrown(), [], W)
        post = ev.load(q)
        cx.eq(nm + ': remaining commands', vsize(post), num(len(rest)), [], W, 'commands which have not elapsed')
        for i, (k, d) in enumerate(rest):
            o = vsel(post, num(i))
            cx.eq('%s: duration of command %d' % (nm, i), fld(o, CMD + 'duration_ms_'), s.unlimited if d is None else num(d), [], W, 'duration less the elapsed time')
            cx.eq('%s: command %d' % (nm, i), fld(o, CMD + 'base_angular_velocity_'), cs[k][3], [], W, 'commands keep their order')
            compare(cx, '%s: velocity of command %d' % (nm, i), fld(o, CMD + 'base_velocity_'), cs[k][1], [], W, 'commands keep their order')


def update_shift(cx):
    """time elapses only when the controller has been updated"""
    for f in overloads(cx, 'updateAndShift', 3):
        W = cx.where(f)
        for ok in (TRUE, FALSE):
            ev = cx.eval()
            lv = LV(uid('mpc'), (), cx.cls(MPC))
            calls = []

            def hook(ev_, g, this, args, node):
                if g['q'] == HOR + '::form':
                    return ok
                if g['q'] == MPC + '::updateMatrices':
                    return mk('void')
                if g['q'] == MPC + '::shift':
                    calls.append((ev_.rv(args[1]), args[0]))
                    return mk('void')
                return NotImplemented
            ev.objhook = hook
            m, model, t = LV(uid('motion'), (), None), LV(uid('model'), (), cx.cls(NS + 'Model')), sym('shift', 'i')
            r = cx.run(f, lv, [m, model, t], ev)
            E = cx.P.enumval
            nm = 'update and shift%s, %s' % (' of commands' if 'deque' in str(f.get('id', '')) or 'deque' in str(cx.ptype(f, 0)) else '', 'previewed' if ok is TRUE else 'not previewed')
            cx.eq(nm + ': status', r.ret, num(E['humoto::ControlProblemStatus::' + ('OK' if ok is TRUE else 'STOPPED')]), [], W)
            cx.eq(nm + ': number of shifts', num(len(calls)), ONE if ok is TRUE else ZERO, [], W, 'shifted once after a successful update only')
            for c, a in calls:
                cx.eq(nm + ': time of the shift', c, t, [], W, 'as given')


def parameters(cx):
    """bounds and sampling times derived from the parameters"""
    k = cx.cls(NS + 'RobotParameters')
    Q = NS + 'RobotParameters::'
    f = cx.meth(k, 'finalize', 0)
    W = cx.where(f)
    ev = cx.eval()
    lv = LV(uid('robot'), (), k)
    pre = mk('obj', lv.root)
    cx.run(f, lv, [], ev)
    post = ev.load(lv)
    half = lambda n: div(mul(fld(pre, Q + n), fn('sqrt', num(2))), num(2))
    for n, src in (('cop_bounds_', 'base_radius_'), ('nominal_base_velocity_bounds_', 'max_nominal_base_velocity_'), ('nominal_base_acceleration_bounds_', 'max_nominal_base_acceleration_'),
                   ('base_velocity_bounds_', 'max_base_velocity_'), ('base_acceleration_bounds_', 'max_base_acceleration_')):
        v = fld(post, Q + n)
        for i in range(2):
            lo, up = elem(v, num(i), ZERO), elem(v, num(i), ONE)
            cx.eq('robot: %s: symmetric in axis %d' % (n, i), lo, neg(up), [], W)
            # the square is inside of the circle and touches it: 2 b^2 = r^2
            cx.eq('robot: %s: corner of axis %d on the circle' % (n, i), mul(num(2), mul(up, up)), mul(fld(pre, Q + src), fld(pre, Q + src)), [], W, 'largest square within the circle')
            cx.holds('robot: %s: not empty in axis %d' % (n, i), le(ZERO, up), [le(ZERO, fld(pre, Q + src))], W)
    k = cx.cls(NS + 'MPCParameters')
    Q = NS + 'MPCParameters::'
    for g in cx.P.methods(k, 'MPCParameters'):
        if not g.get('ctor') or len(g['params']) != 3 or 'body' not in g:
            continue
        ev = cx.eval()
        lv = LV(uid('par'), (), k)
        a = [sym('n', 'u'), sym('T', 'u'), sym('s', 'u')]
        r = cx.run(g, lv, a, ev)
        W = cx.where(g)
        v = ev.load(lv)
        for n, x in zip(('preview_horizon_length_', 'sampling_time_ms_', 'subsampling_time_ms_'), a):
            cx.eq('parameters: %s' % n, fld(v, Q + n), x, [], W, 'as given')
        for n, x in (('getSamplingTime', a[1]), ('getSubsamplingTime', a[2])):
            cx.eq('parameters: ' + n, cx.get(k, lv, n, ev=ev, nparams=0), div(x, num(1000)), [], W, 'in seconds')


def check(cx):
    cx.guard('command', single, cx)
    for q in QUEUES:
        for N in (3,) + ((1, 2, 4, 6) if cx.tier != 'quick' else ()):
            cx.guard('commands', queue, cx, q, N)
    cx.guard('shift', shift_single, cx)
    for q in QUEUES:
        for t in (None, 50, 100, 250) + ((0, 1, 30, 99, 300, 301, 1000) if cx.tier != 'quick' else ()):
            cx.guard('shift of commands', shift_queue, cx, q, t)
    cx.guard('update and shift', update_shift, cx)
    cx.guard('parameters', parameters, cx)
