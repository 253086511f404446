"""C16: the predictions of the walking pattern generator follow from its model: recursion of the dynamics, positions of the feet, and the tasks built on them."""
from .common import *
from .c14 import M, zeros, lmul, put, compare, evolve, outputs, seq
from .c15 import kron

NS = 'humoto::wpg04::'
MPC = NS + 'MPCforWPG'
HOR = NS + 'PreviewHorizon'
STANCE = 'humoto::walking::Stance'


def madd_(A, B):
    return [[add(x, y) for x, y in zip(r, s)] for r, s in zip(A, B)]


def rows_of(v, r, c):
    return [[elem(v, num(i), num(j)) for j in range(c)] for i in range(r)]


SCENARIOS = (   # stances of the walk, stance of every interval, intervals in which a new support starts
    (('LSS',), (0, 0), ()),
    (('LSS', 'TDS', 'RSS'), (0, 2), (1,)),
    (('DS', 'TDS', 'LSS'), (0, 0, 2), (2,)),
    (('TDS', 'RSS', 'TDS', 'LSS'), (1, 1, 3), (2,)),
    (('LSS', 'TDS', 'RSS', 'TDS', 'DS'), (0, 2, 4), (1, 2)),
    (('RSS', 'TDS', 'LSS', 'TDS', 'RSS'), (0, 2, 2, 4), (1, 3)),
    (('LSS', 'TDS', 'RSS', 'TDS', 'LSS'), (0, 2, 2), (1,)),     # the preview ends with a step which is not reached
    (('TDS', 'RSS', 'TDS', 'DS'), (1, 1), ()),
)
DEEP = (
    (('TDS', 'LSS', 'TDS', 'RSS', 'TDS', 'DS'), (1, 3, 3, 5, 5), (1, 3)),
    (('LSS', 'TDS', 'RSS', 'TDS', 'LSS', 'TDS', 'RSS'), (0, 2, 4, 4, 6), (1, 2, 4)),
)


class Problem(object):
    """a formed preview with arbitrary durations, heights and orientations"""

    def __init__(self, cx, sc):
        self.cx = cx
        E = cx.P.enumval
        types, where, steps = sc
        self.types, self.index, self.steps = sc
        self.N, self.K = len(where), len(steps)
        self.nm = '%s, %s' % ('-'.join(types), ','.join(str(i) for i in where))
        self.ev = ev = cx.eval()
        self.key, self.mkey = cx.cls(MPC), cx.cls(NS + 'Model')
        self.lv, self.model = LV(uid('mpc'), (), self.key), LV(uid('model'), (), self.mkey)
        for g in cx.P.methods(self.key, 'MPCforWPG'):
            if g.get('ctor') and not g['params'] and 'body' in g:
                cx.run(g, self.lv, [], ev)
        hlv = self.lv.sub(('f', MPC + '::preview_horizon_'))
        h = cx.cls(HOR)
        self.T = [sym('T%d' % i, 'r') for i in range(self.N)]
        self.w = [sym('w%d' % i, 'r') for i in range(self.N)]
        self.v = [M('vref%d' % i, 2, 1) for i in range(self.N)]
        self.ms = [sym('Tms%d' % i, 'u') for i in range(self.N)]
        self.h = [sym('h%d' % i, 'r') for i in range(self.N)]
        self.rot = [M('R%d' % i, 2, 2) for i in range(len(types))]
        self.theta = [sym('theta%d' % i, 'r') for i in range(len(types))]
        self.copb = [M('cop%d' % i, 2, 2) for i in range(len(types))]
        self.fdb = [M('fd%d' % i, 2, 2) for i in range(len(types))]
        iv, ws = [], []
        for i in range(self.N):
            o = mk('obj', uid('interval'))
            for n, x in (('T_', self.T[i]), ('omega_', self.w[i]), ('state_index_', num(where[i])), ('cvel_ref_', emat(self.v[i])), ('T_ms_', self.ms[i]), ('com_height_', self.h[i])):
                o = upd(o, NS + 'PreviewHorizonInterval::' + n, x)
            iv.append(o)
        for i, t in enumerate(types):
            o = mk('obj', uid('walkstate'))
            o = upd(o, STANCE + '::type_', num(E['humoto::walking::StanceType::' + t]))
            for n, x in (('rotation_', emat(self.rot[i])), ('theta_', self.theta[i]), ('cop_bounds_', emat(self.copb[i])), ('fd_bounds_', emat(self.fdb[i]))):
                o = upd(o, NS + 'WalkState::' + n, x)
            ws.append(o)
        put_ = lambda n, v: ev.store(hlv.sub(('f', HOR + '::' + n)), v)
        put_('intervals_', seq(iv))
        put_('walk_states_', seq(ws))
        put_('variable_steps_indices_', seq(num(i) for i in steps))
        ev.store(self.lv.sub(('f', MPC + '::mpc_parameters_')), upd(mk('obj', uid('par')), NS + 'MPCParameters::preview_horizon_length_', num(self.N)))
        PM = 'humoto::walking::PointMassModel6z'
        base = [g for g in cx.P.methods(cx.cls(PM), 'PointMassModel6z') if g.get('ctor') and not g['params'] and 'body' in g]
        if base:
            cx.run(base[0], self.model, [], ev)
        s = cx.get(self.mkey, self.model, 'getCState', ev=ev)
        self.x0 = rows_of(s, 6, 1)
        p = fld(mk('obj', self.model.root), NS + 'Model::current_support_position_')
        self.p0 = rows_of(p, 2, 1)

    def hook(self, ev, g, this, args, node):
        if g['q'] == HOR + '::form':
            return TRUE
        return NotImplemented

    def dynamics(self):
        """what the model says about every interval"""
        cx = self.cx
        g = lambda n, a, r, c: (lambda v: rows_of(v, r, c) if is_mat(v) else [[v]])(cx.get(self.mkey, self.model, n, a, nparams=len(a)))
        A = [g('getA3', [T, w], 3, 3) for T, w in zip(self.T, self.w)]
        B = [g('getB3', [T, w], 3, 1) for T, w in zip(self.T, self.w)]
        D = [g('getD3', [T, w], 1, 3) for T, w in zip(self.T, self.w)]
        E = [g('getE3', [T], 1, 1) for T in self.T]
        return A, B, D, E

    def update(self):
        cx = self.cx
        f = cx.meth(self.key, 'update')
        self.ev.objhook = self.hook
        r = cx.run(f, self.lv, [self.model, LV(uid('fsm'), (), cx.cls('humoto::walking::StanceFiniteStateMachine')), LV(uid('wp'), (), cx.cls(NS + 'WalkParameters'))], self.ev)
        self.W = cx.where(f)
        return r

    def m(self, n):
        return self.ev.load(self.lv.sub(('f', MPC + '::' + n)))


def predictions(cx, sc):
    p = Problem(cx, sc)
    r = p.update()
    W = p.W
    cx.never(p.nm + ': update fails', r.thrown(), [], W)
    cx.eq(p.nm + ': status', r.ret, num(cx.P.enumval['humoto::ControlProblemStatus::OK']), [], W)
    N, K = p.N, p.K
    # positions of the supports: p_k = p_{k-1} + R_k f_k, the orientation being that of the support before
    Rk = [p.rot[i] for i, t in enumerate(p.types[:-1]) if t != 'TDS'][:K]
    nv = 2 * (N + K)
    var = lambda k: [[ONE if j == k + i else ZERO for j in range(nv)] for i in range(2)]
    feet = []
    pos, const = zeros(2, nv), p.p0
    feet_const = p.p0
    for k in range(K):
        pos = madd_(pos, lmul(Rk[k], var(2 * N + 2 * k)))
        feet.append(pos)
    # centers of pressure
    cop = []
    for i in range(N):
        k = len([s for s in p.steps if s <= i]) - 1
        c = lmul(p.rot[p.index[i]], var(2 * i))
        cop.append(madd_(c, feet[k]) if k >= 0 else c)
    A, B, D, E = p.dynamics()
    # every coordinate follows the same dynamics, driven by its center of pressure; last column: independent of the variables
    copc = []
    for i in range(N):
        k = len([s for s in p.steps if s <= i])
        copc.append([row + c for row, c in zip(cop[i], p.p0)])
    x = [[ZERO] * nv + row for row in p.x0]
    X, Z = [], []
    for i in range(N):
        y = madd_(lmul(two(D[i]), x), lmul(two(E[i]), copc[i]))
        x = madd_(lmul(two(A[i]), x), lmul(two(B[i]), copc[i]))
        X += x
        Z += y
    split = lambda m: ([r[:nv] for r in m], [r[nv:] for r in m])
    S, s = split(X)
    dS, ds = split(Z)
    for n, want, what in (('S_', S, 'states: response to the variables'), ('s_', s, 'states: free response'), ('Sdz_', dS, 'velocities of CoP: response to the variables'),
                          ('sdz_', ds, 'velocities of CoP: free response')):
        cx.guard(p.nm + ': ' + what, compare, cx, '%s: %s' % (p.nm, what), p.m(n), want, [], W, 'recursion of the dynamics')
    p.predicted = (X, Z, [r for c in copc for r in c], [row + c for f in feet for row, c in zip(f, p.p0)])
    sol = profiles(cx, p)
    for fn_ in (tasks, bounds):
        cx.guard('%s: %s' % (p.nm, fn_.__name__), fn_, cx, p)


def two(m):
    """the same for both coordinates"""
    out = zeros(2 * len(m), 2 * len(m[0]))
    put(out, 0, 0, m)
    put(out, len(m), len(m[0]), m)
    return out


def profiles(cx, p):
    """profiles obtained from a solution are the predictions for its variables"""
    ev = p.ev
    N, K = p.N, p.K
    f = cx.meth(p.key, 'parseSolution', 1)
    W = cx.where(f)
    SOL = 'humoto::Solution'
    sk = cx.cls(SOL)
    sol = LV(uid('sol'), (), sk)
    nv = 2 * (N + K)
    ini = [g for g in cx.P.methods(sk, 'initialize') if len(g['params']) == 2 and 'body' in g and 'SolutionStructure' in (cx.ptype(g, 0).get('q') or '')]
    p.sol = p.lv.sub(('f', 'humoto::ControlProblem::sol_structure_'))
    p.sol = LV(p.sol.root, p.sol.path, cx.cls('humoto::SolutionStructure'))
    cx.run(ini[0], sol, [p.sol, ZERO], ev)
    x = M('x', nv, 1)
    ev.store(sol.sub(('f', SOL + '::x_')), emat(x))
    n0 = len(ev.throws)
    cx.run(f, p.lv, [sol], ev)
    cx.never(p.nm + ': a solution of this problem is refused', bor(*[t[0] for t in ev.throws[n0:]]), [], W)
    vec = x + [[ONE]]
    for n, m, what in zip(('cstate_profile', 'dcop_profile', 'cop_profile', 'footpos_profile'), p.predicted, ('predicted states', 'predicted velocities of CoP', 'predicted CoP', 'predicted footsteps')):
        if m:
            cx.guard('%s: %s' % (p.nm, what), compare, cx, '%s: %s' % (p.nm, what), p.m(n), lmul(m, vec), [], W, 'recursion of the dynamics')


def formed(cx, p, name):
    """a task formed for this problem, with arbitrary gain"""
    key = cx.cls(NS + name)
    lv = LV(uid('task'), (), key)
    f = cx.meth(key, 'form', 3)
    ev = fork(cx, p.ev)
    n0 = len(ev.throws)
    cx.run(f, lv, [p.sol, p.model, p.lv], ev)
    cx.never('%s: %s cannot be formed' % (p.nm, name), bor(*[t[0] for t in ev.throws[n0:]]), [], cx.where(f))
    return key, lv, ev, cx.where(f)


def fork(cx, ev):
    e = cx.eval()
    e.st = ev.st.copy()
    e.ntmp, e.nframe = ev.ntmp + 1000, ev.nframe + 1000
    e.objhook = ev.objhook
    return e


def tasks(cx, p):
    """the error of every task is its gain times the predicted quantity less the reference"""
    X, Z, C, F = p.predicted
    nv = 2 * (p.N + p.K)
    vel = [X[6 * i + 3 * a + 1] for i in range(p.N) for a in range(2)]
    ref = [p.v[i][a][0] for i in range(p.N) for a in range(2)]
    g = cx.get(p.mkey, p.model, 'getDcpv6', [p.w[-1]], nparams=1)
    term = lmul(rows_of(g, 2, 6), X[-6:])
    for name, rows, refs in (('TaskCoMVelocity', vel, ref), ('TaskCoPVelocity', Z, [ZERO] * len(Z)), ('TaskTerminalConstraint', term, [ZERO, ZERO])):
        def one():
            key, lv, ev, W = formed(cx, p, name)
            gain = cx.get(key, lv, 'getGain', ev=ev)
            A, b = cx.get(key, lv, 'getA', ev=ev), cx.get(key, lv, 'getB', ev=ev)
            compare(cx, '%s: %s: A' % (p.nm, name), A, [[mul(gain, x) for x in r[:nv]] for r in rows], [], W, 'predicted quantity')
            compare(cx, '%s: %s: b' % (p.nm, name), b, [[mul(gain, sub(y, r[nv]))] for r, y in zip(rows, refs)], [], W, 'reference less the free response')
        cx.guard('%s: %s' % (p.nm, name), one)


def bounds(cx, p):
    E = cx.P.enumval
    K = p.K

    def table(name, off, n, lo, up, fixed):
        key, lv, ev, W = formed(cx, p, name)
        I, lb, ub = [cx.get(key, lv, m, ev=ev) for m in ('getIndices', 'getLowerBounds', 'getUpperBounds')]
        nm = '%s: %s' % (p.nm, name)
        cx.eq(nm + ': number of variables', dims(I)[0] if is_mat(I) else vsize(I), num(n), [], W)
        for v in (lb, ub):
            cx.eq(nm + ': number of bounds', dims(v)[0], num(n), [], W)
        fx = fld(mk('obj', lv.root), NS + name + '::fix_footsteps_') if fixed else FALSE
        free = [neg_b(fx)]
        for i in range(n):
            cx.eq('%s: variable %d' % (nm, i), elem(I, num(i), ZERO) if is_mat(I) else vsel(I, num(i)), num(off + i), [], W)
            cx.eq('%s: lower bound %d' % (nm, i), elem(lb, num(i), ZERO), lo[i], free, W, 'bound of the stance of the interval')
            cx.eq('%s: upper bound %d' % (nm, i), elem(ub, num(i), ZERO), up[i], free, W, 'bound of the stance of the interval')
            if fixed:
                want = up[i] if i % 2 == 0 or p.types[p.index[p.steps[i // 2]]] == 'RSS' else lo[i]
                cx.eq('%s: fixed lower bound %d' % (nm, i), elem(lb, num(i), ZERO), want, [fx], W, 'bounds coincide, feet are as close to each other as possible')
                cx.eq('%s: fixed upper bound %d' % (nm, i), elem(ub, num(i), ZERO), want, [fx], W, 'bounds coincide, feet are as close to each other as possible')
    at = lambda b, idx, c: [b[j][a][c] for j in idx for a in range(2)]
    idx = p.index
    cx.guard(p.nm + ': CoP', table, 'TaskCoPBounds', 0, 2 * p.N, at(p.copb, idx, 0), at(p.copb, idx, 1), False)
    if K:
        idx = [p.index[s] for s in p.steps]
        cx.guard(p.nm + ': footsteps', table, 'TaskFootstepBounds', 2 * p.N, 2 * K, at(p.fdb, idx, 0), at(p.fdb, idx, 1), True)


def structure(cx, ev, N, K):
    """structure of a solution of a problem with N intervals and K steps"""
    key = cx.cls('humoto::SolutionStructure')
    lv = LV(uid('structure'), (), key)
    cx.run(cx.meth(key, 'reset', 0), lv, [], ev)
    add_ = cx.meth(key, 'addSolutionPart', 2)
    for g, n in (('COP_VARIABLES_ID', N), ('FOOTPOS_VARIABLES_ID', K)):
        name = ev.rv(ev.ev(cx.P.G[NS + g]['init']))
        cx.run(add_, lv, [name, num(2 * n)], ev)
    return lv


def guess(cx):
    """the guess is the old solution shifted by one interval, and by one step when a step has been made"""
    f = cx.meth(cx.cls(MPC), 'guessSolution', 2)
    W = cx.where(f)
    sk = cx.cls('humoto::Solution')
    ini = [g for g in cx.P.methods(sk, 'initialize') if len(g['params']) == 2 and 'body' in g and 'SolutionStructure' in (cx.ptype(g, 0).get('q') or '')][0]
    N = 3
    for K0, K1 in ((0, 0), (1, 1), (2, 2), (2, 1), (1, 0), (0, 1), (1, 2)):
        ev = cx.eval()
        lv = LV(uid('mpc'), (), cx.cls(MPC))
        old, new = structure(cx, ev, N, K0), structure(cx, ev, N, K1)
        ev.store(lv.sub(('f', 'humoto::ControlProblem::sol_structure_')), ev.load(new))
        sol, out = LV(uid('old'), (), sk), LV(uid('guess'), (), sk)
        cx.run(ini, sol, [old, ZERO], ev)
        x = M('x', 2 * (N + K0), 1)
        ev.store(sol.sub(('f', 'humoto::Solution::x_')), emat(x))
        n0 = len(ev.throws)
        cx.run(f, lv, [out, sol], ev)
        nm = 'guess, %d steps after %d' % (K1, K0)
        cx.never(nm + ': refused', bor(*[t[0] for t in ev.throws[n0:]]), [], W)
        cop = x[2:2 * N] + [[ZERO], [ZERO]]
        st = x[2 * N:]
        if K1 < K0:
            st = st[2 * (K0 - K1):]
        st = st + [[ZERO]] * (2 * (K1 - len(st) // 2))
        compare(cx, nm, fld(ev.load(out), 'humoto::Solution::x_'), cop + st, [], W, 'old solution one interval later')


STATE = ('position_', 'velocity_', 'acceleration_')


def interpolation(cx, sc):
    """states between the sampling instants continue the predicted ones"""
    p = Problem(cx, sc)
    ev = p.ev
    f = cx.meth(p.key, 'getCoMState', 2)
    W = cx.where(f)
    N = p.N
    X, C = M('X', 6 * N, 1), M('C', 2 * N, 1)
    ev.store(p.lv.sub(('f', MPC + '::cstate_profile')), emat(X))
    ev.store(p.lv.sub(('f', MPC + '::cop_profile')), emat(C))
    ev.store(p.lv.sub(('f', MPC + '::solution_is_parsed_')), TRUE)
    g = cx.meth(p.mkey, 'evaluate', 5)
    pos = [le(ONE, m) for m in p.ms]
    for k in range(N):
        r = sym('r', 'u')
        e = fork(cx, ev)
        t = add(r, *p.ms[:k])
        facts = pos + [le(ONE, r), le(r, p.ms[k])] + [le(p.ms[i], sub(t, add(ZERO, *p.ms[:i]))) for i in range(k)] + [lt(p.ms[i], sub(t, add(ZERO, *p.ms[:i]))) for i in range(k)]
        res = cx.run(f, p.lv, [p.model, t], e, known=facts)
        nm = '%s: state within interval %d' % (p.nm, k)
        cx.never(nm + ' refused', res.thrown(), facts, W)
        e2 = fork(cx, ev)
        before = X[6 * (k - 1):6 * k] if k else p.x0
        sec = lambda ms: div(ms, num(1000))
        want = cx.run(g, p.model, [sec(r), sec(p.ms[k]), p.h[k], emat(before), emat(C[2 * k:2 * k + 2])], e2, known=facts).ret
        for n in STATE:
            q = 'humoto::rigidbody::PointMassState::' + n
            a, b = fld(res.ret, q), fld(want, q)
            for i in range(3):
                cx.eq('%s: %s%d' % (nm, n, i), elem(a, num(i), ZERO), elem(b, num(i), ZERO), facts, W, 'evolution of the predicted state')


def check(cx):
    for sc in SCENARIOS + (DEEP if cx.tier != 'quick' else ()):
        cx.guard('scenario', predictions, cx, sc)
    cx.guard('guess', guess, cx)
    for sc in SCENARIOS[1:4]:
        cx.guard('interpolation', interpolation, cx, sc)
