"""C18: the predictions of the controller of the mobile base follow its model; tasks are built on them; commands are previewed and shifted consistently."""
from .common import *
from .c14 import M, zeros, lmul, put, compare, seq
from .c16 import madd_, rows_of, two, fork

NS = 'humoto::pepper_mpc::'
MPC = NS + 'MPCforMG'
HOR = NS + 'PreviewHorizon'
IV = NS + 'PreviewHorizonInterval::'
MODEL, MS = NS + 'Model::', NS + 'ModelState::'
RBS = 'humoto::rigidbody::'
PMS = RBS + 'PointMassState::'
PARTS = ('position_', 'velocity_', 'acceleration_')
BOUNDS2 = (('cop_bounds_', 'copb'), ('nominal_base_velocity_bounds_', 'velb'), ('nominal_base_acceleration_bounds_', 'accb'), ('body_bounds_', 'bodyb'))


def overloads(cx, name, n=None, first=None):
    out = [g for g in sorted(cx.P.F.values(), key=lambda g: g['id'] if 'id' in g else str(g.get('l'))) if g['q'] == MPC + '::' + name and 'body' in g and (n is None or len(g['params']) == n)]
    if first:
        out = [g for g in out if first(cx.ptype(g, 0))]
    if not out:
        raise Missing(MPC + '::' + name)
    return out


def msub(A, B):
    return [[sub(x, y) for x, y in zip(r, s)] for r, s in zip(A, B)]


class Problem(object):
    """a formed preview with arbitrary intervals"""

    def __init__(self, cx, N):
        self.cx, self.N, self.nm = cx, N, '%d intervals' % N
        self.ev = ev = cx.eval()
        self.key, self.mkey = cx.cls(MPC), cx.cls(NS + 'Model')
        self.lv, self.model = LV(uid('mpc'), (), self.key), LV(uid('model'), (), self.mkey)
        for k, lv, n in ((self.key, self.lv, 'MPCforMG'), (cx.cls(NS + 'TwoPointMassModel'), self.model, 'TwoPointMassModel')):
            for g in cx.P.methods(k, n):
                if g.get('ctor') and not g['params'] and 'body' in g:
                    cx.run(g, lv, [], ev)
        S = lambda n, t='r': [sym('%s%d' % (n, i), t) for i in range(N)]
        self.T, self.hb, self.hd, self.mb, self.md, self.theta, self.ms = S('T'), S('hs'), S('hd'), S('ms'), S('md'), S('theta'), S('Tms', 'u')
        self.rot = [M('R%d' % i, 2, 2) for i in range(N)]
        self.vref = [M('vref%d' % i, 2, 1) for i in range(N)]
        self.pref = [M('pref%d' % i, 2, 1) for i in range(N)]
        iv = []
        for q, n in BOUNDS2:
            setattr(self, n, [M('%s%d' % (n, i), 2, 2) for i in range(N)])
        for i in range(N):
            o = mk('obj', uid('interval'))
            for q, x in (('T_', self.T[i]), ('T_ms_', self.ms[i]), ('base_height_', self.hb[i]), ('body_height_', self.hd[i]), ('base_mass_', self.mb[i]), ('body_mass_', self.md[i]), ('theta_', self.theta[i]),
                         ('rotation_', emat(self.rot[i])), ('base_vel_ref_', emat(self.vref[i])), ('base_pos_ref_', emat(self.pref[i]))) + tuple((q, emat(getattr(self, n)[i])) for q, n in BOUNDS2):
                o = upd(o, IV + q, x)
            iv.append(o)
        ev.store(self.lv.sub(('f', MPC + '::preview_horizon_')).sub(('f', HOR + '::intervals_')), seq(iv))
        par = mk('obj', uid('par'))
        par = upd(par, NS + 'MPCParameters::preview_horizon_length_', num(N))
        ev.store(self.lv.sub(('f', MPC + '::mpc_parameters_')), par)
        st = fld(mk('obj', self.model.root), MODEL + 'state_')
        self.state = st
        vec = lambda o: [[elem(fld(o, PMS + n), num(a), ZERO)] for a in range(2) for n in PARTS]
        self.xs, self.xd = vec(fld(st, MS + 'base_state_')), vec(fld(st, MS + 'body_state_'))

    def hook(self, ev, g, this, args, node):
        if g['q'] == HOR + '::form':
            return TRUE
        return NotImplemented

    def mats(self, i):
        g = lambda n, r, c: (lambda v: rows_of(v, r, c) if is_mat(v) else [[v]])(self.cx.get(self.mkey, self.model, n, [self.T[i]], nparams=1))
        return g('getAs3', 3, 3), g('getBs3', 3, 1), g('getAd3', 3, 3), g('getBd3', 3, 1), g('getDjs3', 1, 3), g('getEjs3', 1, 1)

    def m(self, n):
        return self.ev.load(self.lv.sub(('f', MPC + '::' + n)))

    def update(self, f):
        cx = self.cx
        self.ev.objhook = self.hook
        r = cx.run(f, self.lv, [LV(uid('motion'), (), cx.cls(NS + 'MotionParameters')), self.model], self.ev)
        self.W = cx.where(f)
        return r

    def predict(self):
        """rows over [variables, 1]: states of the base and body, CoP with respect to the base, jerk of the base, displacement"""
        N = self.N
        nv = 4 * N
        var = lambda k: [[ONE if j == k + a else ZERO for j in range(nv + 1)] for a in range(2)]
        x = [[ZERO] * nv + r for r in self.xs]
        y = [[ZERO] * nv + r for r in self.xd]
        g = self.cx.P.G.get('humoto::g_gravitational_acceleration')
        grav = self.ev.rv(self.ev.ev(g['init']))
        self.X, self.Y, self.cop, self.jerk, self.disp, self.acc, self.pos = [], [], [], [], [], [], []
        for i in range(N):
            As, Bs, Ad, Bd, Dj, Ej = self.mats(i)
            u, w = var(2 * i), var(2 * N + 2 * i)
            self.jerk += madd_(lmul(two(Dj), x), lmul(two(Ej), u))
            x = madd_(lmul(two(As), x), lmul(two(Bs), u))
            y = madd_(lmul(two(Ad), y), lmul(two(Bd), w))
            self.X += x
            self.Y += y
            tot = add(self.mb[i], self.md[i])
            zmp = lambda s, a, h: [sub(p, mul(div(h, grav), q)) for p, q in zip(s[3 * a], s[3 * a + 2])]
            for a in range(2):
                zs, zd = zmp(x, a, self.hb[i]), zmp(y, a, self.hd[i])
                self.cop.append([sub(div(add(mul(self.mb[i], p), mul(self.md[i], q)), tot), r) for p, q, r in zip(zs, zd, x[3 * a])])
            self.pos += [x[0], x[3]]
            self.acc += [x[2], x[5]]
            d = [[sub(p, q) for p, q in zip(x[3 * a], y[3 * a])] for a in range(2)]
            Rt = [[self.rot[i][b][a] for b in range(2)] for a in range(2)]
            self.disp += lmul(Rt, d)
        self.nv = nv


def predictions(cx, N, f):
    p = Problem(cx, N)
    r = p.update(f)
    W = p.W
    nm = p.nm
    cx.never(nm + ': update fails', r.thrown(), [], W)
    cx.eq(nm + ': status', r.ret, num(cx.P.enumval['humoto::ControlProblemStatus::OK']), [], W)
    p.predict()
    nv = p.nv
    sp = [lt(ZERO, add(a, b)) for a, b in zip(p.mb, p.md)]
    half = lambda m: [row[:nv // 2] for row in m]
    for A, s, want, what, base in (('S_', 's_', p.X + p.Y, 'states', False), ('Ap_', 'sp_', p.cop, 'CoP with respect to the base', False), ('Apd_', 'spd_', p.disp, 'displacement of the body in the frame of the base', False),
                                   ('Aps_', 'sps_', p.pos, 'positions of the base', True), ('Aas_', 'sas_', p.acc, 'accelerations of the base', True), ('Ajs_', 'sjs_', p.jerk, 'jerks of the base', True)):
        resp = [row[:nv] for row in want]
        if base:
            for row in resp:
                assert all(x is ZERO for x in row[nv // 2:])
            resp = half(resp)
        cx.guard('%s: %s' % (nm, what), compare, cx, '%s: %s: response to the variables' % (nm, what), p.m(A), resp, sp, W, 'recursion of the dynamics')
        cx.guard('%s: %s' % (nm, what), compare, cx, '%s: %s: free response' % (nm, what), p.m(s), [row[nv:] for row in want], sp, W, 'recursion of the dynamics')
    p.sol = LV(p.lv.root, p.lv.sub(('f', 'humoto::ControlProblem::sol_structure_')).path, cx.cls('humoto::SolutionStructure'))
    for g in (solution, tasks):
        cx.guard('%s: %s' % (nm, g.__name__), g, cx, p, sp)


def make_solution(cx, ev, structure, x):
    sk = cx.cls('humoto::Solution')
    sol = LV(uid('sol'), (), sk)
    ini = [g for g in cx.P.methods(sk, 'initialize') if len(g['params']) == 2 and 'body' in g and 'SolutionStructure' in (cx.ptype(g, 0).get('q') or '')]
    cx.run(ini[0], sol, [structure, ZERO], ev)
    if x is not None:
        ev.store(sol.sub(('f', 'humoto::Solution::x_')), emat(x))
    return sol


def states(cx, name, got, xs, xd, heights, yaw, masses, facts, W):
    """state of the base and body: coordinates, heights, heading, masses"""
    for q, v, h in (('base_state_', xs, heights[0]), ('body_state_', xd, heights[1])):
        o = fld(got, MS + q)
        for j, n in enumerate(PARTS):
            for a, w in enumerate([v[j][0], v[3 + j][0], h if j == 0 else ZERO]):
                cx.eq('%s: %s%s%d' % (name, q, n, a), elem(fld(o, PMS + n), num(a), ZERO), w, facts, W, 'evolution of the model')
    o = fld(got, MS + 'base_state_')
    for a, w in enumerate((ZERO, ZERO, yaw)):
        cx.eq('%s: orientation %d' % (name, a), elem(fld(o, RBS + 'RotaryState::rpy_'), num(a), ZERO), w, facts, W, 'heading of the base')
    for q, w in zip(('base_mass_', 'body_mass_'), masses):
        cx.eq('%s: %s' % (name, q), fld(got, MS + q), w, facts, W, 'masses of the model')


def solution(cx, p, sp):
    """profiles and states which are obtained from a solution"""
    ev, N, nm = p.ev, p.N, p.nm
    x = M('x', 4 * N, 1)
    sol = make_solution(cx, ev, p.sol, x)
    f = cx.meth(p.key, 'parseSolution', 1)
    W = cx.where(f)
    n0 = len(ev.throws)
    cx.run(f, p.lv, [sol], ev)
    cx.never(nm + ': a solution of this problem is refused', bor(*[t[0] for t in ev.throws[n0:]]), [], W)
    vec = x + [[ONE]]
    for n, m in (('cstate_profile_', p.X + p.Y), ('cop_profile_', p.cop), ('base_jerk_profile_', p.jerk)):
        cx.guard('%s: %s' % (nm, n), compare, cx, '%s: %s' % (nm, n), p.m(n), lmul(m, vec), sp, W, 'recursion of the dynamics')
    for n, m in (('base_controls_', x[:2 * N]), ('body_controls_', x[2 * N:])):
        cx.guard('%s: %s' % (nm, n), compare, cx, '%s: %s' % (nm, n), p.m(n), m, [], W, 'parts of the solution')
    masses = (fld(p.state, MS + 'base_mass_'), fld(p.state, MS + 'body_mass_'))
    # at the next sample
    Xv, Yv = lmul(p.X, vec), lmul(p.Y, vec)
    for g in overloads(cx, 'getNextModelState', 1):
        r = cx.run(g, p.lv, [p.model], fork(cx, ev))
        cx.never(nm + ': next state refused', r.thrown(), [], cx.where(g))
        states(cx, nm + ': next state', r.ret, Xv[:6], Yv[:6], (p.hb[0], p.hd[0]), p.theta[0], masses, [], cx.where(g))
    # at any time within the horizon
    yaw0 = elem(fld(fld(p.state, MS + 'base_state_'), RBS + 'RotaryState::rpy_'), num(2), ZERO)
    for integer in (True, False):
        for g in overloads(cx, 'getModelState', 2):
            if (cx.ptype(g, 1)['k'] == 'int') != integer:
                continue
            for k in range(N):
                D = p.ms if integer else p.T
                r_ = sym('r', 'u' if integer else 'r')
                t = add(r_, *D[:k])
                facts = [lt(ZERO, d) for d in p.T + p.ms] + [lt(ZERO, r_), le(r_, D[k])] + [lt(D[i], sub(t, add(ZERO, *D[:i]))) for i in range(k)]
                res = cx.run(g, p.lv, [p.model, t], fork(cx, ev), known=facts)
                name = '%s: state at %s in interval %d' % (nm, 'a millisecond' if integer else 'a time', k)
                W2 = cx.where(g)
                cx.never(name + ' refused', res.thrown(), facts, W2)
                off = div(r_, num(1000)) if integer else r_
                As, Bs, Ad, Bd, Dj, Ej = p.mats(k)
                q = lambda n, r, c: rows_of(cx.get(p.mkey, p.model, n, [off], nparams=1), r, c)
                Ao, Bo = q('getAd3', 3, 3), q('getBd3', 3, 1)
                xs = Xv[6 * k - 6:6 * k] if k else p.xs
                xd = Yv[6 * k - 6:6 * k] if k else p.xd
                u, w = x[2 * k:2 * k + 2], x[2 * N + 2 * k:2 * N + 2 * k + 2]
                j = madd_(lmul(two(Dj), xs), lmul(two(Ej), u))
                prev = p.theta[k - 1] if k else yaw0
                yaw = add(prev, mul(sub(p.theta[k], prev), div(off, p.T[k])))
                end = eq(off, p.T[k])
                states(cx, name, res.ret, madd_(lmul(two(Ao), xs), lmul(two(Bo), j)), madd_(lmul(two(Ao), xd), lmul(two(Bo), w)), (p.hb[k], p.hd[k]), yaw, masses, facts + [neg_b(end)], W2)
                states(cx, name + ', at its end', res.ret, Xv[6 * k:6 * k + 6], Yv[6 * k:6 * k + 6], (p.hb[k], p.hd[k]), p.theta[k], masses, facts + [end], W2)


def formed(cx, p, name):
    key = cx.cls(NS + name)
    lv = LV(uid('task'), (), key)
    f = cx.meth(key, 'form', 3)
    ev = fork(cx, p.ev)
    n0 = len(ev.throws)
    cx.run(f, lv, [p.sol, p.model, p.lv], ev)
    cx.never('%s: %s cannot be formed' % (p.nm, name), bor(*[t[0] for t in ev.throws[n0:]]), [], cx.where(f))
    return key, lv, ev, cx.where(f)


def tasks(cx, p, sp):
    """errors and bounds of the tasks refer to the predicted quantities"""
    nv, N, nm = p.nv, p.N, p.nm
    flat = lambda v: [v[i][a][0] for i in range(N) for a in range(2)]
    zero = [ZERO] * (2 * N)

    def least(name, rows, refs, base):
        key, lv, ev, W = formed(cx, p, name)
        gain = cx.get(key, lv, 'getGain', ev=ev)
        A, b = cx.get(key, lv, 'getA', ev=ev), cx.get(key, lv, 'getB', ev=ev)
        off = offset(key, lv, ev)
        n = nv // 2 if base else nv
        compare(cx, '%s: %s: A' % (nm, name), A, [[mul(gain, x) for x in r[:n]] for r in rows], sp, W, 'predicted quantity')
        compare(cx, '%s: %s: b' % (nm, name), b, [[mul(gain, sub(y, r[nv]))] for r, y in zip(rows, refs)], sp, W, 'reference less the free response')
        if base:
            cx.eq('%s: %s: first variable' % (nm, name), off, ZERO, [], W, 'the controls of the base come first')

    def offset(key, lv, ev):
        try:
            return cx.get(key, lv, 'getOffset', ev=ev)
        except Missing:
            return ZERO

    def within_(name, rows, bd, base):
        key, lv, ev, W = formed(cx, p, name)
        A, lb, ub = (cx.get(key, lv, n, ev=ev) for n in ('getA', 'getLowerBounds', 'getUpperBounds'))
        n = nv // 2 if base else nv
        compare(cx, '%s: %s: A' % (nm, name), A, [r[:n] for r in rows], sp, W, 'predicted quantity')
        for v, c, what in ((lb, 0, 'lower'), (ub, 1, 'upper')):
            compare(cx, '%s: %s: %s bounds' % (nm, name, what), v, [[sub(bd[i // 2][i % 2][c], r[nv])] for i, r in enumerate(rows)], sp, W, 'bounds of the interval less the free response')
        if base:
            cx.eq('%s: %s: first variable' % (nm, name), offset(key, lv, ev), ZERO, [], W, 'the controls of the base come first')

    def velocity(name, kind):
        key, lv, ev, W = formed(cx, p, name)
        I = cx.get(key, lv, 'getIndices', ev=ev)
        compare(cx, '%s: %s: variables' % (nm, name), I, [[num(i)] for i in range(2 * N)], [], W, 'the controls of the base')
        if kind == 'ref':
            gain = cx.get(key, lv, 'getGain', ev=ev)
            compare(cx, '%s: %s: gains' % (nm, name), cx.get(key, lv, 'getIGains', ev=ev), [[gain] for i in range(2 * N)], [], W, 'the gain of the task')
            compare(cx, '%s: %s: b' % (nm, name), cx.get(key, lv, 'getB', ev=ev), [[mul(gain, y)] for y in flat(p.vref)], [], W, 'reference velocity of the interval')
        else:
            for n, c in (('getLowerBounds', 0), ('getUpperBounds', 1)):
                compare(cx, '%s: %s: %s' % (nm, name, n), cx.get(key, lv, n, ev=ev), [[p.velb[i // 2][i % 2][c]] for i in range(2 * N)], [], W, 'bounds of the interval')
    for name, rows, refs, base in (('TaskCoPCentering', p.cop, zero, False), ('TaskBodyPositionReference', p.disp, zero, False), ('TaskBasePositionReference', p.pos, flat(p.pref), True),
                                   ('TaskBaseJerkMinimization', p.jerk, zero, True)):
        cx.guard('%s: %s' % (nm, name), least, name, rows, refs, base)
    for name, rows, bd, base in (('TaskCoPPositionBounds', p.cop, p.copb, False),
                                 ('TaskBodyPositionBounds', p.disp, p.bodyb, False), ('TaskBaseAccelerationBounds', p.acc, p.accb, True)):
        cx.guard('%s: %s' % (nm, name), within_, name, rows, bd, base)
    cx.guard('%s: TaskBaseVelocityReference' % nm, velocity, 'TaskBaseVelocityReference', 'ref')
    cx.guard('%s: TaskBaseVelocityBounds' % nm, velocity, 'TaskBaseVelocityBounds', 'bounds')


def guess(cx):
    """the guess is the old solution moved by one interval"""
    f = cx.meth(cx.cls(MPC), 'guessSolution', 2)
    W = cx.where(f)
    N = 3
    p = Problem(cx, N)
    p.update(overloads(cx, 'update', 2)[0])
    ev = p.ev
    structure = LV(p.lv.root, p.lv.sub(('f', 'humoto::ControlProblem::sol_structure_')).path, cx.cls('humoto::SolutionStructure'))
    x = M('x', 4 * N, 1)
    old = make_solution(cx, ev, structure, x)
    out = LV(uid('guess'), (), cx.cls('humoto::Solution'))
    n0 = len(ev.throws)
    cx.run(f, p.lv, [out, old], ev)
    cx.never('guess: refused', bor(*[t[0] for t in ev.throws[n0:]]), [], W)
    z = [[ZERO], [ZERO]]
    compare(cx, 'guess', fld(ev.load(out), 'humoto::Solution::x_'), x[2:2 * N] + z + x[2 * N + 2:] + z, [], W, 'old solution one interval later')


def model(cx):
    """states of the model: construction, update, center of pressure"""
    sk, mk_ = cx.cls(NS + 'ModelState'), cx.cls(NS + 'Model')
    z = lambda o, q: elem(fld(fld(o, MS + q), PMS + 'position_'), num(2), ZERO)
    for g in cx.P.methods(sk, 'ModelState'):
        if not g.get('ctor') or 'body' not in g:
            continue
        W = cx.where(g)
        ev = cx.eval()
        lv = LV(uid('state'), (), sk)
        if len(g['params']) == 3:
            a = [sym('hs', 'r'), sym('hd', 'r'), sym('off', 'r')]
            cx.run(g, lv, a, ev)
            o = ev.load(lv)
            cx.eq('state by heights: base', z(o, 'base_state_'), a[0], [], W, 'the first argument')
            cx.eq('state by heights: body', z(o, 'body_state_'), a[1], [], W, 'the second argument')
            cx.eq('state by heights: offset', elem(fld(fld(o, MS + 'body_state_'), PMS + 'position_'), ZERO, ZERO), a[2], [], W, 'the third argument')
        if len(g['params']) == 4:
            a = [sym('ms', 'r'), sym('md', 'r'), emat(M('ps', 3, 1)), emat(M('pd', 3, 1))]
            cx.run(g, lv, a, ev)
            o = ev.load(lv)
            for q, v in (('base_mass_', a[0]), ('body_mass_', a[1])):
                cx.eq('state by positions: ' + q, fld(o, MS + q), v, [], W, 'as given')
            for q, v in (('base_state_', a[2]), ('body_state_', a[3])):
                for n in PARTS:
                    for i in range(3):
                        cx.eq('state by positions: %s%s%d' % (q, n, i), elem(fld(fld(o, MS + q), PMS + n), num(i), ZERO), elem(v, num(i), ZERO) if n == 'position_' else ZERO, [], W, 'at rest at the given position')
    ev = cx.eval()
    lv, new = LV(uid('model'), (), mk_), LV(uid('new'), (), sk)
    f = cx.meth(mk_, 'updateState', 1)
    W = cx.where(f)
    r = cx.run(f, lv, [new], ev)
    cx.never('update of the model: refused', r.thrown(), [], W)
    post, want = fld(ev.load(lv), MODEL + 'state_'), ev.load(new)
    for q in ('base_mass_', 'body_mass_'):
        cx.eq('update of the model: ' + q, fld(post, MS + q), fld(want, MS + q), [], W)
    for q in ('base_state_', 'body_state_'):
        for n in PARTS:
            for i in range(3):
                cx.eq('update of the model: %s%s%d' % (q, n, i), elem(fld(fld(post, MS + q), PMS + n), num(i), ZERO), elem(fld(fld(want, MS + q), PMS + n), num(i), ZERO), [], W, 'taken from the new state')
    yaw = lambda o: elem(fld(fld(o, MS + 'base_state_'), RBS + 'RotaryState::rpy_'), num(2), ZERO)
    cx.eq('update of the model: heading', yaw(post), yaw(want), [], W)
    for n, v in (('getTheta', yaw(want)), ('getBaseOrientation', yaw(want)), ('getBaseHeight', z(want, 'base_state_')), ('getBodyHeight', z(want, 'body_state_')),
                 ('getBaseMass', fld(want, MS + 'base_mass_')), ('getBodyMass', fld(want, MS + 'body_mass_'))):
        cx.eq('model: ' + n, cx.get(mk_, lv, n, ev=ev, nparams=0), v, [], W, 'of the current state')
    # center of pressure with respect to the base, as in the predictions
    p = Problem(cx, 1)
    g = cx.P.G.get('humoto::g_gravitational_acceleration')
    grav = p.ev.rv(p.ev.ev(g['init']))
    ms, md = (fld(p.state, MS + q) for q in ('base_mass_', 'body_mass_'))
    cop = cx.get(p.mkey, p.model, 'getCoP', ev=p.ev, nparams=0)
    hs, hd = z(p.state, 'base_state_'), z(p.state, 'body_state_')
    for a in range(2):
        zs, zd = (sub(v[3 * a][0], mul(div(h, grav), v[3 * a + 2][0])) for v, h in ((p.xs, hs), (p.xd, hd)))
        cx.eq('model: CoP %d' % a, elem(cop, num(a), ZERO), sub(div(add(mul(ms, zs), mul(md, zd)), add(ms, md)), p.xs[3 * a][0]), [lt(ZERO, add(ms, md))], W, 'centre of pressure of two point masses')


def check(cx):
    cx.guard('guess', guess, cx)
    cx.guard('model', model, cx)
    fs = overloads(cx, 'update', 2)
    for f in fs:
        cx.guard('predictions', predictions, cx, 2, f)
    for n in (3,) + ((1, 4) if cx.tier != 'quick' else ()):
        cx.guard('predictions', predictions, cx, n, fs[0])
