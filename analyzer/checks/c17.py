"""C17: the preview of the walking pattern generator covers the horizon with the previewed stances; its states and feet follow the walk."""
from .common import *
from .c14 import M, compare, seq
from .c16 import NS, MPC, HOR, STANCE, rows_of, fork, Problem, SCENARIOS

W_ = 'humoto::walking::'
IV = NS + 'PreviewHorizonInterval::'
WS = NS + 'WalkState::'
TS, TDS = 100, 60


def walk(first, sub, before, left, durations):
    """stances following the first one, with their kinds, preceding stances and durations"""
    out = []
    ty, prev, side = first, before, {'LSS': 'LSS', 'RSS': 'RSS'}.get(first, {'LSS': 'LSS', 'RSS': 'RSS'}.get(before, 'RSS'))
    for i, d in enumerate(durations):
        out.append((ty, sub, prev, d))
        if ty == 'TDS':
            nxt = 'DS' if left == 0 else ('RSS' if side == 'LSS' else 'LSS')
            if nxt != 'DS':
                side = nxt
                left -= 1
            ty, sub = nxt, 'LAST' if nxt == 'DS' else 'INTERMEDIATE'
        else:
            prev = ty
            ty, sub = 'TDS', 'INTERMEDIATE'
    return out


WALKS = (   # first stance, its position in the walk, stance before, further single supports, durations, intervals
    ('DS', 'FIRST', 'UNDEFINED', 3, (250,), 3),
    ('DS', 'FIRST', 'UNDEFINED', 3, (300,), 3),
    ('DS', 'FIRST', 'UNDEFINED', 3, (120, 100, 280), 5),
    ('DS', 'FIRST', 'UNDEFINED', 3, (100, 100, 300, 100, 300), 8),
    ('LSS', 'FIRST', 'UNDEFINED', 2, (200, 100, 200), 5),
    ('RSS', 'FIRST', 'UNDEFINED', 2, (150, 100, 350), 6),
    ('LSS', 'INTERMEDIATE', 'DS', 2, (400,), 4),
    ('LSS', 'INTERMEDIATE', 'DS', 2, (50, 100, 300, 100, 300), 9),
    ('RSS', 'INTERMEDIATE', 'LSS', 1, (100, 100, 200, 100, 500), 8),
    ('RSS', 'INTERMEDIATE', 'LSS', 0, (250, 100, 450), 7),
    ('LSS', 'INTERMEDIATE', 'RSS', 0, (30, 100, 600), 8),
    ('TDS', 'INTERMEDIATE', 'DS', 2, (70, 300, 100, 100), 5),
    ('TDS', 'INTERMEDIATE', 'LSS', 2, (100, 200, 100, 200, 100, 200), 9),
    ('TDS', 'INTERMEDIATE', 'RSS', 1, (40, 400), 4),
    ('TDS', 'INTERMEDIATE', 'LSS', 0, (90, 500), 6),
    ('TDS', 'INTERMEDIATE', 'RSS', 0, (20, 800), 6),
    ('DS', 'LAST', 'LSS', 0, (450,), 4),
    ('DS', 'LAST', 'RSS', 0, (500,), 5),
    ('LSS', 'INTERMEDIATE', 'RSS', 1, (200, 100, 0), 3),
    ('LSS', 'INTERMEDIATE', 'RSS', 2, (50, 100, 300, 50, 0), 5),
    ('RSS', 'INTERMEDIATE', 'LSS', 1, (20, 100, 300, 80, 0), 5),
)
DEEP = (
    ('DS', 'FIRST', 'UNDEFINED', 4, (10,) + (100, 200) * 4, 12),
    ('RSS', 'INTERMEDIATE', 'LSS', 3, (110,) + (100, 300) * 3 + (100, 900), 22),
    ('TDS', 'INTERMEDIATE', 'RSS', 4, (80, 100) + (100, 100) * 4 + (100, 700), 16),
)


def intervals(stances, N):
    """(duration, stance of the interval, stance which gave the velocity), intervals starting a new support"""
    out, steps = [], []
    i = 0
    first = True
    while len(out) < N:
        ty, _, _, d = stances[i]
        if ty == 'TDS':
            if not first:
                steps.append(len(out))
            out.append((d if first else TDS, i + 1, i))
            n = stances[i + 1][3] // TS
            out += [(TS, i + 1, i)] * n
            i += 2
        else:
            out.append((d % TS or TS, i, i))
            out += [(TS, i, i)] * (d // TS - (1 if d % TS == 0 else 0))
            i += 1
        first = False
    return out[:N], steps


class Setup(object):
    def __init__(self, cx, w):
        self.cx = cx
        E = cx.P.enumval
        self.N = w[5]
        self.stances = walk(*w[:5])
        self.nm = '%s of %s after %s, %d left, %s' % (w[1], w[0], w[2], w[3], ','.join(str(d) for d in w[4]))
        self.ev = cx.eval()
        self.hkey, self.mkey = cx.cls(HOR), cx.cls(NS + 'Model')
        self.h, self.model = LV(uid('horizon'), (), self.hkey), LV(uid('model'), (), self.mkey)
        self.wp = LV(uid('walk'), (), cx.cls(NS + 'WalkParameters'))
        mp = mk('obj', uid('par'))
        for n, v in (('preview_horizon_length_', self.N), ('sampling_time_ms_', TS), ('tds_sampling_time_ms_', TDS)):
            mp = upd(mp, NS + 'MPCParameters::' + n, num(v))
        self.mp = LV(uid('mpcp'), (), cx.cls(NS + 'MPCParameters'))
        self.ev.store(self.mp, mp)
        vs = []
        for ty, sub_, prev, d in self.stances:
            o = mk('obj', uid('stance'))
            for n, v in (('type_', num(E[W_ + 'StanceType::' + ty])), ('subtype_', num(E[W_ + 'StanceSubType::' + sub_])),
                         ('previous_nontds_stance_type_', num(E[W_ + 'StanceType::' + prev])), ('duration_ms_', num(d)), ('total_duration_ms_', num(d))):
                o = upd(o, STANCE + '::' + n, v)
            vs.append(o)
        self.vs = seq(vs)
        self.asked = []

    def hook(self, ev, g, this, args, node):
        if g['q'] == W_ + 'StanceFiniteStateMachine::previewStances':
            self.asked.append(ev.rv(args[0]))
            return self.vs
        return NotImplemented

    def form(self):
        cx = self.cx
        f = cx.meth(self.hkey, 'form', 4)
        self.ev.objhook = self.hook
        r = cx.run(f, self.h, [self.mp, self.model, LV(uid('fsm'), (), cx.cls(W_ + 'StanceFiniteStateMachine')), self.wp], self.ev)
        self.W = cx.where(f)
        return r


def horizon(cx, w):
    s = Setup(cx, w)
    ev, nm = s.ev, s.nm
    r = s.form()
    W = s.W
    E = cx.P.enumval
    cx.never(nm + ': refused', r.thrown(), [], W)
    cx.eq(nm + ': formed', r.ret, TRUE, [], W)
    for a in s.asked:
        cx.eq(nm + ': stances are previewed for the duration of the horizon', a, num(s.N * TS), [], W)
    cx.holds(nm + ': stances are previewed', TRUE if s.asked else FALSE, [], W)
    post = ev.load(s.h)
    iv, ws, vs = (fld(post, HOR + '::' + n) for n in ('intervals_', 'walk_states_', 'variable_steps_indices_'))
    want, steps = intervals(s.stances, s.N)
    cx.eq(nm + ': number of intervals', vsize(iv), num(s.N), [], W, 'length of the horizon')
    cx.eq(nm + ': number of stances', vsize(ws), num(len(s.stances)), [], W, 'the previewed stances')
    cx.eq(nm + ': number of steps', vsize(vs), num(len(steps)), [], W, 'transitions within the horizon')
    for i, k in enumerate(steps):
        cx.eq('%s: step %d' % (nm, i), vsel(vs, num(i)), num(k), [], W, 'a step is made in the interval of its transition')
    # headings
    yaw = lambda side: elem(fld(cx.get(s.mkey, s.model, 'getFootState', [num(E['humoto::LeftOrRight::' + side])], nparams=1), 'humoto::rigidbody::RotaryState::rpy_'), num(E['humoto::AngleIndex::YAW']), ZERO)
    P_ = mk('obj', s.wp.root)
    inc = fld(P_, NS + 'WalkParameters::theta_increment_')
    vel = lambda n: fld(P_, NS + 'WalkParameters::' + n + 'com_velocity_')
    th = {'LSS': yaw('LEFT'), 'RSS': yaw('RIGHT')}
    th['DS'] = div(add(th['LSS'], th['RSS']), num(2))
    heads, vels = [], []
    for i, (ty, sub_, prev, d) in enumerate(s.stances):
        v = vel('')
        if ty == 'TDS':
            nxt = s.stances[i + 1][0]
            if nxt == 'DS':
                th['DS'] = th[prev]
                v = vel('last_stance_')
                a = th['DS']
            elif prev != 'DS':
                a = th[nxt] = add(th[prev], inc)
            else:
                a = th['DS']
        else:
            a = th[ty]
            if ty == 'DS':
                v = vel('first_stance_' if sub_ == 'FIRST' else 'last_stance_')
        heads.append(a)
        vels.append(v)
    cos, sin = (lambda a: mk('call', 'cos', a)), (lambda a: mk('call', 'sin', a))
    bd = {}

    def bounds(side, kind):
        key = (side, kind)
        if key not in bd:
            bd[key] = rows_of(cx.get(s.mkey, s.model, 'getFootBounds', [num(E['humoto::LeftOrRight::' + side]), num(E[W_ + 'FootBoundsType::' + kind])], nparams=2), 2, 2)
        return bd[key]
    rots = []
    for i, (ty, sub_, prev, d) in enumerate(s.stances):
        o = vsel(ws, num(i))
        cx.eq('%s: stance %d is of the previewed type' % (nm, i), fld(o, STANCE + '::type_'), num(E[W_ + 'StanceType::' + ty]), [], W)
        R = rows_of(fld(o, WS + 'rotation_'), 2, 2)
        rots.append(R)
        cx.eq('%s: orientation of stance %d' % (nm, i), fld(o, WS + 'theta_'), heads[i], [], W, 'heading of the support')
        e2 = cx.eval()
        c, n = rotation(heads[i])
        for a, b, x in ((0, 0, c), (0, 1, mul(num(-1), n)), (1, 0, n), (1, 1, c)):
            cx.eq('%s: rotation of stance %d (%d,%d)' % (nm, i, a, b), R[a][b], x, [], W, 'rotation by the heading')
        if ty == 'TDS':
            continue
        if sub_ == 'FIRST':
            fd = [[ZERO, ZERO], [ZERO, ZERO]]
        elif ty == 'DS':
            fd = bounds('RIGHT' if prev == 'LSS' else 'LEFT', 'ALIGNED_TO_SS')
        else:
            fd = bounds({'LSS': 'LEFT', 'RSS': 'RIGHT'}[ty], 'WITH_RESPECT_TO_ADS' if prev == 'DS' else 'WITH_RESPECT_TO_SS')
        compare(cx, '%s: bounds of the step to stance %d' % (nm, i), fld(o, WS + 'fd_bounds_'), fd, [], W, 'bounds of the foot which makes the step')
        cop = rows_of(cx.get(s.mkey, s.model, 'getADSCoPBounds' if ty == 'DS' else 'getSSCoPBounds'), 2, 2)
        compare(cx, '%s: CoP bounds of stance %d' % (nm, i), fld(o, WS + 'cop_bounds_'), cop, [], W, 'bounds of the support')
    hgt = cx.get(s.mkey, s.model, 'getCoMHeight')
    om = cx.get(s.mkey, s.model, 'getOmega', [hgt], nparams=1)
    for i, (ms, k, src) in enumerate(want):
        o = vsel(iv, num(i))
        g = lambda n: fld(o, IV + n)
        cx.eq('%s: duration of interval %d' % (nm, i), g('T_ms_'), num(ms), [], W, 'sampling time, or what remains of the current interval')
        cx.eq('%s: duration of interval %d in seconds' % (nm, i), g('T_'), div(num(ms), num(1000)), [], W)
        cx.eq('%s: stance of interval %d' % (nm, i), g('state_index_'), num(k), [], W, 'the support in this interval')
        cx.eq('%s: height in interval %d' % (nm, i), g('com_height_'), hgt, [], W)
        cx.eq('%s: frequency in interval %d' % (nm, i), g('omega_'), om, [], W)
        v = rows_of(vels[src], 2, 1)
        for a in range(2):
            cx.eq('%s: reference velocity %d in interval %d' % (nm, a, i), elem(g('cvel_ref_'), num(a), ZERO), add(*[mul(rots[src][a][b], v[b][0]) for b in range(2)]), [], W,
                  'configured velocity of the stance along the heading')
    # access by interval
    q = lambda n, i: cx.get(s.hkey, s.h, n, [num(i)], ev=ev, nparams=1)
    for i, (ms, k, src) in enumerate(want):
        o = vsel(ws, num(k))
        for n, c in (('getCoPBounds', 'cop_bounds_'), ('getRotationMatrix', 'rotation_')):
            compare(cx, '%s: %s(%d)' % (nm, n, i), q(n, i), rows_of(fld(o, WS + c), 2, 2), [], W, 'of the stance of the interval')
    for j, i in enumerate(steps):
        o = vsel(ws, num(want[i][1]))
        compare(cx, '%s: getFootPositionBounds(%d)' % (nm, j), q('getFootPositionBounds', j), rows_of(fld(o, WS + 'fd_bounds_'), 2, 2), [], W, 'of the stance reached by the step')


def rotation(a):
    return fn('cos', a), fn('sin', a)



MODEL, MS = NS + 'Model::', NS + 'ModelState::'
LRC = 'humoto::LeftRightContainer'
RBS = 'humoto::rigidbody::'


def pair(cx):
    for k in sorted(cx.P.C):
        if k.startswith(LRC + '<') and 'RigidBodyState' in k:
            return k
    raise Missing(LRC)


class State(object):
    """an arbitrary state of the model in a known stance"""

    def __init__(self, cx, ev, name, stance=None, nxt=None):
        self.cx, self.ev = cx, ev
        E = cx.P.enumval
        self.lv = LV(uid(name), (), cx.cls(NS + 'ModelState'))
        v = mk('obj', self.lv.root)
        for n, s in (('stance_type_', stance), ('next_stance_type_', nxt)):
            if s is not None:
                v = upd(v, MS + n, num(E[W_ + 'StanceType::' + s]))
        ev.store(self.lv, v)


def foot(cx, ev, mkey, model, side):
    return cx.get(mkey, model, 'getFootState', [num(cx.P.enumval['humoto::LeftOrRight::' + side])], ev=ev, nparams=1)


def same(cx, name, a, b, W, rule):
    """every part of the state of a body"""
    for c in ('PointMassState', 'RotaryState'):
        for n in ('position_', 'velocity_', 'acceleration_') if c[0] == 'P' else ('rpy_', 'angular_velocity_', 'angular_acceleration_'):
            x, y = fld(a, RBS + c + '::' + n), fld(b, RBS + c + '::' + n)
            for i in range(3):
                cx.eq('%s: %s%d' % (name, n, i), elem(x, num(i), ZERO), elem(y, num(i), ZERO), [], W, rule)


def xy(state):
    p = fld(state, RBS + 'PointMassState::position_')
    return [elem(p, num(i), ZERO) for i in range(2)]


def models(cx):
    """the model takes the parts of a new state which the walk determines, and stands on the feet of its stance"""
    mkey = cx.cls(NS + 'Model')
    f = cx.meth(mkey, 'updateState', 1)
    W = cx.where(f)
    E = cx.P.enumval
    kinds = [(s, 'UNDEFINED') for s in ('DS', 'LSS', 'RSS')] + [('TDS', s) for s in ('DS', 'LSS', 'RSS')]
    for prev in ('DS', 'LSS', 'RSS', 'TDS'):
        for stance, nxt in kinds:
            ev = cx.eval()
            model = LV(uid('model'), (), mkey)
            ev.store(model.sub(('f', MODEL + 'state_')), upd(mk('obj', uid('old')), MS + 'stance_type_', num(E[W_ + 'StanceType::' + prev])))
            new = State(cx, ev, 'new', stance, nxt)
            old = {s: foot(cx, ev, mkey, model, s) for s in ('LEFT', 'RIGHT')}
            given = {s: cx.get(pair(cx), new.lv.sub(('f', MS + 'feet_')), 'get' + s.capitalize(), ev=ev, nparams=0) for s in ('LEFT', 'RIGHT')}
            nm = '%s%s after %s' % (stance, '' if nxt == 'UNDEFINED' else ' before ' + nxt, prev)
            r = cx.run(f, model, [new.lv], ev)
            cx.never('update of the model: %s: refused' % nm, r.thrown(), [], W)
            moved = {'LSS': ('LEFT',), 'RSS': ('RIGHT',), 'DS': ('LEFT', 'RIGHT')}.get(stance, {'LSS': ('RIGHT',), 'RSS': ('LEFT',)}.get(prev, ()))
            now = {s: foot(cx, ev, mkey, model, s) for s in ('LEFT', 'RIGHT')}
            for s in ('LEFT', 'RIGHT'):
                same(cx, 'update of the model: %s: %s foot' % (nm, s.lower()), now[s], (given if s in moved else old)[s], W, 'taken from the new state' if s in moved else 'not changed')
            post = ev.load(model)
            st = fld(post, MODEL + 'state_')
            for n, v in (('stance_type_', stance), ('next_stance_type_', nxt)):
                cx.eq('update of the model: %s: %s' % (nm, n), fld(st, MS + n), num(E[W_ + 'StanceType::' + v]), [], W)
            com, want = fld(st, MS + 'com_state_'), fld(ev.load(new.lv), MS + 'com_state_')
            for n in ('position_', 'velocity_', 'acceleration_'):
                q = RBS + 'PointMassState::' + n
                for i in range(3):
                    cx.eq('update of the model: %s: CoM %s%d' % (nm, n, i), elem(fld(com, q), num(i), ZERO), elem(fld(want, q), num(i), ZERO), [], W)
            on = stance if stance != 'TDS' else nxt
            l, r_ = xy(now['LEFT']), xy(now['RIGHT'])
            p = {'LSS': l, 'RSS': r_, 'DS': [div(add(a, b), num(2)) for a, b in zip(l, r_)]}[on]
            cur = fld(post, MODEL + 'current_support_position_')
            for i in range(2):
                cx.eq('update of the model: %s: support %d' % (nm, i), elem(cur, num(i), ZERO), p[i], [], W, 'centre of the support')


def landing(cx, sc, before):
    """the state at the next sample: CoM by the model, feet where the walk puts them"""
    p = Problem(cx, sc)
    ev = p.ev
    E = cx.P.enumval
    stance = lambda t: num(E[W_ + 'StanceType::' + t])
    fp, C, X = M('fp', 2 * p.K, 1), M('C', 2 * p.N, 1), M('X', 6 * p.N, 1)
    st = lambda n, v: ev.store(p.lv.sub(('f', MPC + '::' + n)), v)
    if p.K:
        st('footpos_profile', emat(fp))
    st('cop_profile', emat(C))
    st('cstate_profile', emat(X))
    st('solution_is_parsed_', TRUE)
    ts = sym('Ts', 'r')
    ev.store(p.lv.sub(('f', MPC + '::mpc_parameters_')).sub(('f', NS + 'MPCParameters::subsampling_time_')), ts)
    ev.store(p.model.sub(('f', MODEL + 'state_')).sub(('f', MS + 'stance_type_')), stance(before))
    l, r = (foot(cx, ev, p.mkey, p.model, s) for s in ('LEFT', 'RIGHT'))
    now = {'LEFT': l, 'RIGHT': r}
    moves = {'LSS': 'RIGHT', 'RSS': 'LEFT'}.get(before)
    nm = '%s, in %s' % (p.nm, before)

    def lands(what, got, W):
        step = p.types[p.index[p.steps[0]]]
        k = p.index[p.steps[0]]
        pos = [fp[0][0], fp[1][0]]
        if step == 'DS':
            v = cx.get(p.mkey, p.model, 'getFootPositionFromADS', [num(E['humoto::LeftOrRight::' + moves]), emat(p.rot[k]), emat([[pos[0]], [pos[1]]])], ev=fork(cx, ev), nparams=3)
            pos = [elem(v, num(i), ZERO) for i in range(2)]
        z = elem(fld(now['RIGHT' if moves == 'LEFT' else 'LEFT'], RBS + 'PointMassState::position_'), num(2), ZERO)
        part = lambda c, n: fld(got, RBS + c + '::' + n)
        for i, x in enumerate(pos + [z]):
            cx.eq('%s: position %d' % (what, i), elem(part('PointMassState', 'position_'), num(i), ZERO), x, [], W, 'where the step ends')
        for i, x in enumerate((ZERO, ZERO, p.theta[k])):
            cx.eq('%s: orientation %d' % (what, i), elem(part('RotaryState', 'rpy_'), num(i), ZERO), x, [], W, 'heading of the stance reached by the step')
        for c, n in (('PointMassState', 'velocity_'), ('PointMassState', 'acceleration_'), ('RotaryState', 'angular_velocity_'), ('RotaryState', 'angular_acceleration_')):
            for i in range(3):
                cx.eq('%s: %s%d' % (what, n, i), elem(part(c, n), num(i), ZERO), ZERO, [], W, 'at rest after landing')
    # landing state in a single support
    for f in cx.P.methods(p.key, 'getFootLandingState'):
        if len(f['params']) == 1 and 'body' in f and not moves:
            cx.eq('%s: landing state refused' % nm, cx.run(f, p.lv, [p.model], fork(cx, ev)).thrown(), TRUE, [], cx.where(f), 'no foot is in the air')
    for f in cx.P.methods(p.key, 'getFootLandingState'):
        if len(f['params']) == 1 and 'body' in f and moves and p.steps:
            e = fork(cx, ev)
            res = cx.run(f, p.lv, [p.model], e)
            cx.never('%s: landing state refused' % nm, res.thrown(), [], cx.where(f))
            lands('%s: landing state' % nm, res.ret, cx.where(f))
    fsmk = cx.cls(W_ + 'StanceFiniteStateMachine')
    after = {'LSS': ('LSS', 'TDS'), 'RSS': ('RSS', 'TDS'), 'DS': ('DS', 'TDS'), 'TDS': ('DS', 'LSS', 'RSS', 'TDS')}[before]
    for cur in after:
        for started in (TRUE, FALSE):
            if started is TRUE and (cur != 'TDS' or before == 'TDS' or (moves and not p.steps)):
                continue
            if started is FALSE and cur == 'TDS' and before in ('LSS', 'RSS'):
                continue        # a transitional support which follows a single one has just started
            e = fork(cx, ev)
            fsm = LV(uid('fsm'), (), fsmk)
            F = W_ + 'StanceFiniteStateMachine::'
            fv = upd(mk('obj', fsm.root), F + 'is_tds_started_', started)
            fv = upd(fv, F + 'current_stance_', upd(mk('obj', uid('stance')), STANCE + '::type_', stance(cur)))
            e.store(fsm, fv)
            nx = sym('next', 'i')

            def hook(ev_, g, this, args, node):
                if g['q'] == F + 'getNextStance':
                    return upd(mk('obj', uid('stance')), STANCE + '::type_', nx)
                return NotImplemented
            e.objhook = hook
            for f in cx.P.methods(p.key, 'getNextModelState'):
                if len(f['params']) != 2 or 'body' not in f:
                    continue
                res = cx.run(f, p.lv, [fsm, p.model], e)
                W = cx.where(f)
                name = '%s: next state in %s' % (nm, cur)
                cx.never(name + ': refused', res.thrown(), [], W)
                cx.eq(name + ': stance', fld(res.ret, MS + 'stance_type_'), stance(cur), [], W)
                cx.eq(name + ': next stance', fld(res.ret, MS + 'next_stance_type_'), nx, [], W)
                g = cx.meth(p.mkey, 'evaluate', 5)
                want = cx.run(g, p.model, [ts, p.T[0], p.h[0], emat(p.x0), emat(C[:2])], fork(cx, ev)).ret
                com = fld(res.ret, MS + 'com_state_')
                for n in ('position_', 'velocity_', 'acceleration_'):
                    q = RBS + 'PointMassState::' + n
                    for i in range(3):
                        cx.eq('%s: CoM %s%d' % (name, n, i), elem(fld(com, q), num(i), ZERO), elem(fld(want, q), num(i), ZERO), [], W, 'evolution by one subsample under the first control')
                out = LV(uid('out'), (), cx.cls(NS + 'ModelState'))
                e3 = cx.eval()
                e3.store(out, res.ret)
                for s in ('LEFT', 'RIGHT'):
                    if (cur, s) in (('LSS', 'RIGHT'), ('RSS', 'LEFT')):
                        continue        # in the air
                    v = cx.get(pair(cx), out.sub(('f', MS + 'feet_')), 'get' + s.capitalize(), ev=e3, nparams=0)
                    if started is TRUE and s == moves:
                        lands('%s: %s foot' % (name, s.lower()), v, W)
                    else:
                        same(cx, '%s: %s foot' % (name, s.lower()), v, now[s], W, 'does not move')


def parameters(cx):
    """derived sampling times"""
    k = cx.cls(NS + 'MPCParameters')
    Q = NS + 'MPCParameters::'
    for g in cx.P.methods(k, 'MPCParameters'):
        if not g.get('ctor') or len(g['params']) != 4 or 'body' not in g:
            continue
        lv = LV(uid('par'), (), k)
        a = [sym('n', 'u'), sym('T', 'u'), sym('s', 'u'), sym('d', 'u')]
        ev = cx.eval()
        r = cx.run(g, lv, a, ev)
        W = cx.where(g)
        pos = [le(ONE, x) for x in a]
        v = ev.load(lv)
        good = pos + [neg_b(r.thrown())]
        for n, x in zip(('preview_horizon_length_', 'sampling_time_ms_', 'subsampling_time_ms_', 'tds_sampling_time_ms_'), a):
            cx.eq('parameters: %s' % n, fld(v, Q + n), x, good, W, 'as given')
        t = cx.get(k, lv, 'getSubsamplingTime', ev=ev, nparams=0)
        cx.eq('parameters: subsampling time', t, div(a[2], num(1000)), good, W, 'in seconds')
        for T_, s_, d_, ok in ((100, 100, 100, True), (100, 20, 60, True), (100, 30, 60, False), (90, 30, 100, False), (100, 50, 50, True), (50, 100, 100, False)):
            e2 = cx.eval()
            r2 = cx.run(g, LV(uid('par'), (), k), [num(16), num(T_), num(s_), num(d_)], e2)
            cx.eq('parameters: %d/%d/%d' % (T_, s_, d_), r2.thrown(), FALSE if ok else TRUE, [], W, 'sampling times are multiples of the subsampling time')


def initial(cx):
    """standing still on aligned feet at the origin, or in the given state"""
    k = cx.cls(NS + 'ModelState')
    E = cx.P.enumval
    stance = lambda t: num(E[W_ + 'StanceType::' + t])
    pk = cx.cls(W_ + 'RobotFootParameters')
    fs = [f for f in cx.P.methods(k, 'ModelState') + cx.P.methods(k, 'set') if len(f['params']) == 2 and 'body' in f]
    if not fs:
        raise Missing('initial states')
    for f in fs:
        ev = cx.eval()
        par, lv, h = LV(uid('par'), (), pk), LV(uid('state'), (), k), sym('h', 'r')
        r = cx.run(f, lv, [par, h], ev)
        W = cx.where(f)
        n = 'initial state (%s)' % ('constructor' if f.get('ctor') else f['n'])
        cx.never(n + ': refused', r.thrown(), [], W)
        v = ev.load(lv)
        for m, t in (('stance_type_', 'DS'), ('next_stance_type_', 'UNDEFINED')):
            cx.eq('%s: %s' % (n, m), fld(v, MS + m), stance(t), [], W)
        com = fld(v, MS + 'com_state_')
        for m, want in (('position_', (ZERO, ZERO, h)), ('velocity_', (ZERO,) * 3), ('acceleration_', (ZERO,) * 3)):
            for i in range(3):
                cx.eq('%s: CoM %s%d' % (n, m, i), elem(fld(com, RBS + 'PointMassState::' + m), num(i), ZERO), want[i], [], W, 'at rest at the given height above the origin')
        for s in ('LEFT', 'RIGHT'):
            g = cx.meth(pk, 'getFootPositionFromADS', 3)
            p = cx.run(g, par, [num(E['humoto::LeftOrRight::' + s]), emat([[ONE, ZERO], [ZERO, ONE]]), emat([[ZERO], [ZERO]])], fork(cx, ev)).ret
            x = cx.get(pair(cx), lv.sub(('f', MS + 'feet_')), 'get' + s.capitalize(), ev=fork(cx, ev), nparams=0)
            for m, want in (('PointMassState::position_', [elem(p, ZERO, ZERO), elem(p, ONE, ZERO), ZERO]), ('PointMassState::velocity_', (ZERO,) * 3),
                            ('PointMassState::acceleration_', (ZERO,) * 3), ('RotaryState::rpy_', (ZERO,) * 3)):
                for i in range(3):
                    cx.eq('%s: %s foot, %s %d' % (n, s.lower(), m.split('::')[1], i), elem(fld(x, RBS + m), num(i), ZERO), want[i], [], W, 'aligned double support at the origin')
    for f in cx.P.methods(k, 'set'):
        if len(f['params']) != 4 or 'body' not in f:
            continue
        W = cx.where(f)
        for t in ('LSS', 'RSS', 'DS', 'TDS', 'UNDEFINED'):
            ev = cx.eval()
            lv = LV(uid('state'), (), k)
            a = [LV(uid('com'), (), cx.cls(RBS + 'PointMassState'))] + [LV(uid(x), (), cx.cls(RBS + 'RigidBodyState')) for x in ('left', 'right')]
            r = cx.run(f, lv, [stance(t)] + a, ev)
            n = 'given state in %s' % t
            cx.eq(n + ': refused', r.thrown(), FALSE if t in ('LSS', 'RSS', 'DS') else TRUE, [], W)
            if t not in ('LSS', 'RSS', 'DS'):
                continue
            v = ev.load(lv)
            cx.eq(n + ': stance', fld(v, MS + 'stance_type_'), stance(t), [], W)
            cx.eq(n + ': next stance', fld(v, MS + 'next_stance_type_'), stance('UNDEFINED'), [], W)
            for m in ('position_', 'velocity_', 'acceleration_'):
                q = RBS + 'PointMassState::' + m
                for i in range(3):
                    cx.eq('%s: CoM %s%d' % (n, m, i), elem(fld(fld(v, MS + 'com_state_'), q), num(i), ZERO), elem(fld(ev.load(a[0]), q), num(i), ZERO), [], W)
            for s, x in (('Left', a[1]), ('Right', a[2])):
                same(cx, '%s: %s foot' % (n, s.lower()), cx.get(pair(cx), lv.sub(('f', MS + 'feet_')), 'get' + s, ev=fork(cx, ev), nparams=0), ev.load(x), W, 'as given')


def check(cx):
    cx.guard('initial states', initial, cx)
    for w in WALKS + (DEEP if cx.tier != 'quick' else ()):
        cx.guard('horizon', horizon, cx, w)
    cx.guard('model', models, cx)
    cx.guard('parameters', parameters, cx)
    for sc in SCENARIOS:
        first = sc[0][0]
        if first == 'TDS' or sc[2]:
            cx.guard('next state', landing, cx, sc, first)
    cx.guard('next state', landing, cx, (('LSS', 'TDS', 'DS'), (0, 2), (1,)), 'LSS')
    cx.guard('next state', landing, cx, (('RSS', 'TDS', 'DS'), (0, 2, 2), (1,)), 'RSS')
