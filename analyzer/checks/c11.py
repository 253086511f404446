"""C11: rotations and rigid body states."""
from .common import *

RB = 'humoto::rigidbody::'


def mat3(name):
    return setdims(sym(name, 'm', (3, 3)), 3, 3)


def vec3(name):
    return setdims(sym(name, 'm', (3, 1)), 3, 1)


def el(m, n=3, c=3):
    return [[elem(m, num(i), num(j)) for j in range(c)] for i in range(n)]


def mm(a, b):
    return [[add(*[mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def rot(k, t):
    """rotation about a coordinate axis"""
    c, s = fn('cos', t), fn('sin', t)
    i, j = (k + 1) % 3, (k + 2) % 3
    R = [[ONE if a == b else ZERO for b in range(3)] for a in range(3)]
    R[i][i] = R[j][j] = c
    R[i][j], R[j][i] = neg(s), s
    return R


def skew(w):
    return [[ZERO, neg(w[2]), w[1]], [w[2], ZERO, neg(w[0])], [neg(w[1]), w[0], ZERO]]


def run(cx, f, args, this=None, heap=None):
    ev = cx.eval()
    out = []
    for a in args:
        if isinstance(a, T) and is_mat(a):
            l = LV(uid('arg'), (), None)
            ev.st.heap[l.root] = a
            a = l
        out.append(a)
    r = cx.run(f, this, out, ev)
    v = r.ret if isinstance(r.ret, T) or r.ret is None else ev.rv(r.ret)
    return v, r, ev


def same(cx, nm, v, want, facts, W, rule=''):
    cx.eq(nm + ': rows', dims(v)[0], num(len(want)), facts, W)
    cx.eq(nm + ': columns', dims(v)[1], num(len(want[0])), facts, W)
    for i in range(len(want)):
        for j in range(len(want[0])):
            cx.eq('%s(%d,%d)' % (nm, i, j), elem(v, num(i), num(j)), want[i][j], facts, W, rule)


def euler(cx):
    e, ty = vec3('euler'), sym('type', 'i')
    E = cx.P.enumval
    rpy, ypr = num(E[RB + 'EulerAngles::RPY']), num(E[RB + 'EulerAngles::YPR'])
    r, p, y = [rot(k, elem(e, num(k), ZERO)) for k in range(3)]
    f = cx.fn(RB + 'convertEulerAnglesToMatrix', 2)
    W = cx.where(f)
    v, res, _ = run(cx, f, [e, ty])
    cx.eq('matrix of Euler angles: refused exactly for unknown conventions', res.thrown(), neg_b(bor(eq(ty, rpy), eq(ty, ypr))), [], W)
    same(cx, 'matrix of roll-pitch-yaw angles', v, mm(mm(y, p), r), [eq(ty, rpy)], W, 'R = Rz(yaw) Ry(pitch) Rx(roll)')
    same(cx, 'matrix of yaw-pitch-roll angles', v, mm(mm(r, p), y), [eq(ty, ypr)], W, 'R = Rx(roll) Ry(pitch) Rz(yaw)')
    f = cx.fn(RB + 'getEulerRatesToAngularVelocityTransform', 2)
    W = cx.where(f)
    v, res, _ = run(cx, f, [e, ty])
    cx.eq('transform of Euler rates: refused exactly for unsupported conventions', res.thrown(), neg_b(eq(ty, rpy)), [], W)
    x, yy, z = [[[ONE if a == k else ZERO] for a in range(3)] for k in range(3)]
    cols = [mm(mm(y, p), x), mm(y, yy), z]
    same(cx, 'transform of Euler rates', v, [[cols[j][i][0] for j in range(3)] for i in range(3)], [eq(ty, rpy)], W,
         'angular velocity = sum of the rates about the successively rotated axes')
    f = cx.fn(RB + 'convertMatrixToEulerAngles', 2)
    v, res, _ = run(cx, f, [mat3('R'), ty])
    cx.eq('Euler angles of a matrix: refused exactly for unknown conventions', res.thrown(), neg_b(bor(eq(ty, rpy), eq(ty, ypr))), [], cx.where(f))
    M = mat3('R')
    v, res, _ = run(cx, f, [M, ty])
    ang = lambda X, ax: [[fn('euler%d' % k, X, *[num(a) for a in ax])] for k in range(3)]
    same(cx, 'yaw-pitch-roll angles of a matrix', v, ang(M, (0, 1, 2)), [eq(ty, ypr)], cx.where(f), 'angles about x, y, z in the order in which the matrix is composed')
    same(cx, 'roll-pitch-yaw angles of a matrix', v, ang(M, (2, 1, 0))[::-1], [eq(ty, rpy)], cx.where(f), 'angles about x, y, z in the order in which the matrix is composed')
    f2 = cx.fn(RB + 'convertEulerAngles', 3)
    to = sym('target', 'i')
    v, res, _ = run(cx, f2, [e, ty, to])
    u, _, _ = run(cx, cx.fn(RB + 'convertEulerAnglesToMatrix', 2), [e, ty])
    w, _, _ = run(cx, f, [u, to])
    for k in range(3):
        cx.eq('conversion between conventions(%d)' % k, elem(v, num(k), ZERO), elem(w, num(k), ZERO), [bor(eq(ty, rpy), eq(ty, ypr)), bor(eq(to, rpy), eq(to, ypr))], cx.where(f2), 'same orientation')


def errors(cx):
    c, r = mat3('current'), mat3('reference')
    E = mm(el(r), tr(el(c)))
    f = cx.fn(RB + 'getRotationError', 2)
    v, _, _ = run(cx, f, [c, r])
    same(cx, 'rotation error', v, E, [], cx.where(f), 'error * current = reference for rotation matrices')
    f = cx.fn(RB + 'getRotationErrorAngleAxis', 2)
    v, _, _ = run(cx, f, [c, r])
    half = num(Fraction(1, 2))
    w = [mul(half, sub(E[2][1], E[1][2])), mul(half, sub(E[0][2], E[2][0])), mul(half, sub(E[1][0], E[0][1]))]
    same(cx, 'rotation error as a vector', v, [[x] for x in w], [], cx.where(f), 'axis of the skew-symmetric part of the rotation error')


def integration(cx):
    R, w, dt, tol = mat3('orientation'), vec3('omega'), sym('dt', 'r'), sym('tol', 'r')
    we = [elem(w, num(k), ZERO) for k in range(3)]
    f = cx.fn(RB + 'integrateAngularVelocity', 3)
    v, _, _ = run(cx, f, [R, w, dt])
    Re = el(R)
    K = skew(we)
    RK = mm(Re, K)
    same(cx, 'first order integration of angular velocity', v, [[add(Re[i][j], mul(dt, RK[i][j])) for j in range(3)] for i in range(3)], [], cx.where(f), 'R + dt R [w]')
    f = cx.fn(RB + 'integrateAngularVelocityRodrigues', 4)
    W = cx.where(f)
    v, _, _ = run(cx, f, [R, w, dt, tol])
    n2 = add(*[mul(x, x) for x in we])
    n = fn('sqrt', n2)
    small = lt(n, tol)
    same(cx, 'integration of negligible angular velocity', v, Re, [small, lt(ZERO, tol)], W, 'orientation is kept')
    a = [div(x, n) for x in we]
    K = skew(a)
    K2 = mm(K, K)
    t = mul(n, dt)
    s, c1 = fn('sin', t), sub(ONE, fn('cos', t))
    X = [[add(ONE if i == j else ZERO, mul(s, K[i][j]), mul(c1, K2[i][j])) for j in range(3)] for i in range(3)]
    same(cx, 'exact integration of angular velocity', v, mm(Re, X), [neg_b(small), lt(ZERO, tol), lt(ZERO, n2)], W, 'R exp(dt [w])')


def cross(cx):
    a, b = vec3('a'), vec3('b')
    A, B = [[elem(x, num(k), ZERO) for k in range(3)] for x in (a, b)]
    key = cx.cls('etools::CrossProductMatrix')
    f = next(g for g in cx.P.methods(key, 'eval') if len(g['params']) == 1)
    v, _, _ = run(cx, f, [a])
    same(cx, 'cross product matrix', v, skew(A), [], cx.where(f), '[a] b = a x b')


def states(cx):
    names = {'PointMassState': ('position_', 'velocity_', 'acceleration_'), 'RotaryState': ('rpy_', 'angular_velocity_', 'angular_acceleration_')}
    order = {'PointMassState': [('PointMassState', n) for n in names['PointMassState']],
             'RotaryState': [('RotaryState', n) for n in names['RotaryState']],
             'RigidBodyState': [(c, n) for n1, n2 in zip(*[names[k] for k in ('PointMassState', 'RotaryState')]) for c, n in (('PointMassState', n1), ('RotaryState', n2))]}
    for q, parts in sorted(order.items()):
        key = cx.cls(RB + q)
        lv = LV(uid('state'), (), key)
        f = cx.meth(key, 'set', len(parts))
        vals = [vec3(uid(n)) for c, n in parts]
        ev = cx.eval()
        args = []
        for x in vals:
            l = LV(uid('arg'), (), None)
            ev.st.heap[l.root] = x
            args.append(x)
        cx.run(f, lv, args, ev)
        W = cx.where(f)
        post = ev.load(lv)
        for (c, n), x in zip(parts, vals):
            for k in range(3):
                cx.eq('%s: set stores %s(%d)' % (q, n, k), elem(fld(post, RB + c + '::' + n), num(k), ZERO), elem(x, num(k), ZERO), [], W)
        f = cx.meth(key, 'setDefaults', 0)
        ev = cx.eval()
        cx.run(f, lv, [], ev)
        post = ev.load(lv)
        for c, n in parts:
            for k in range(3):
                cx.eq('%s: default %s(%d)' % (q, n, k), elem(fld(post, RB + c + '::' + n), num(k), ZERO), ZERO, [], cx.where(f), 'a default state is at rest in the origin')
    key = cx.cls(RB + 'PointMassState')
    lv = LV(uid('state'), (), key)
    f = cx.meth(key, 'translate', 1)
    t = vec3('translation')
    ev = cx.eval()
    pre = mk('obj', lv.root)
    cx.run(f, lv, [t], ev)
    post = ev.load(lv)
    for n in names['PointMassState']:
        for k in range(3):
            old = elem(setdims(fld(pre, RB + 'PointMassState::' + n), 3, 1), num(k), ZERO)
            cx.eq('translation: %s(%d)' % (n, k), elem(fld(post, RB + 'PointMassState::' + n), num(k), ZERO),
                  add(old, elem(t, num(k), ZERO)) if n == 'position_' else old, [], cx.where(f), 'only the position is shifted')
    key = cx.cls(RB + 'RotaryState')
    lv = LV(uid('state'), (), key)
    f = cx.meth(key, 'getOrientationMatrix', 0)
    v, _, _ = run(cx, f, [], lv)
    e = setdims(fld(mk('obj', lv.root), RB + 'RotaryState::rpy_'), 3, 1)
    r, p, y = [rot(k, elem(e, num(k), ZERO)) for k in range(3)]
    same(cx, 'orientation of a state', v, mm(mm(y, p), r), [], cx.where(f), 'roll-pitch-yaw angles of the state')


def check(cx):
    cx.guard('Euler angles', euler, cx)
    cx.guard('rotation errors', errors, cx)
    cx.guard('integration', integration, cx)
    cx.guard('cross product', cross, cx)
    cx.guard('states', states, cx)
