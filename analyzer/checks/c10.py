"""C10: trajectories start, end and move as requested."""
from .common import *

CP = 'humoto::rigidbody::CubicPolynomial1D'
FT = 'humoto::walking::Simple3DFootTrajectory'
ET = 'humoto::rigidbody::TrajectoryEvaluationType::'


def ev_of(cx, lv, key, ev, name, args, nparams=None, pred=None):
    """value and failure condition of a const method"""
    f = cx.meth(key, name, nparams if nparams is not None else len(args), True, pred)
    e = cx.eval()
    e.st = ev.st.copy()
    e.ntmp, e.nframe = ev.ntmp + 100000, ev.nframe + 100000
    r = cx.run(f, lv, list(args), e)
    v = r.ret if isinstance(r.ret, T) or r.ret is None else e.rv(r.ret)
    return v, r.thrown(), f, e


def make(cx, key, q, nparams, args, pred=None):
    lv = LV(uid('traj'), (), key)
    ev = cx.eval()
    ev.st.heap[lv.root] = mk('default', q)
    cx.run(cx.fn(q + '::' + q.split('::')[-1], 0), lv, [], ev)
    r = None
    if nparams:
        f = cx.meth(key, 'initialize', nparams, None, pred)
        r = cx.run(f, lv, list(args), ev)
        return lv, ev, f, r
    return lv, ev, cx.fn(q + '::' + q.split('::')[-1], 0), r


def taylor(cx, nm, get, W):
    """position is a cubic whose derivatives are what is returned: p(t+h) = p(t) + v(t) h + a(t) h^2/2 + j h^3/6"""
    t, h = sym('t', 'r'), sym('h', 'r')
    u = add(t, h)
    inside = [le(ZERO, t), le(t, ONE), le(ZERO, u), le(u, ONE)]
    p, v, a, j = get
    j = j()
    cx.eq(nm + ': velocity, acceleration and jerk are the derivatives of position', p(u),
          add(p(t), mul(v(t), h), div(mul(a(t), h, h), num(2)), div(mul(j, h, h, h), num(6))), inside, W, 'Taylor expansion of a cubic is exact')
    cx.eq(nm + ': acceleration and jerk are the derivatives of velocity', v(u), add(v(t), mul(a(t), h), div(mul(j, h, h), num(2))), inside, W, 'Taylor expansion of a cubic is exact')
    cx.eq(nm + ': jerk is the derivative of acceleration', a(u), add(a(t), mul(j, h)), inside, W, 'Taylor expansion of a cubic is exact')


def cubic(cx):
    key = cx.cls(CP)
    a, b, ad, bd, t = [sym(x, 'r') for x in ('a', 'b', 'adot', 'bdot', 't')]
    inside = [le(ZERO, t), le(t, ONE)]
    for n, args in ((4, [a, ad, b, bd]), (2, [a, b]), (0, [])):
        lv, ev, f, _ = make(cx, key, CP, n, args)
        W = cx.where(f)
        g = lambda m, *x: ev_of(cx, lv, key, ev, m, x)
        nm = 'cubic polynomial with %d conditions' % n
        w = {4: (a, ad, b, bd), 2: (a, ZERO, b, ZERO), 0: (ZERO, ZERO, ZERO, ZERO)}[n]
        cx.eq(nm + ': initial position', g('getPosition', ZERO)[0], w[0], [], W, 'boundary condition')
        cx.eq(nm + ': final position', g('getPosition', ONE)[0], w[2], [], W, 'boundary condition')
        cx.eq(nm + ': initial velocity', g('getVelocity', ZERO)[0], w[1], [], W, 'boundary condition')
        cx.eq(nm + ': final velocity', g('getVelocity', ONE)[0], w[3], [], W, 'boundary condition')
        taylor(cx, nm, [lambda s, m=m: g(m, s)[0] for m in ('getPosition', 'getVelocity', 'getAcceleration')] + [lambda: g('getJerk')[0]], W)
    out = bor(lt(t, ZERO), lt(ONE, t))
    types = {}
    for m, k in (('getPosition', 'POSITION'), ('getVelocity', 'VELOCITY'), ('getAcceleration', 'ACCELERATION')):
        v, thr, f, _ = g(m, t)
        cx.eq('cubic polynomial: %s is refused exactly outside of the unit interval' % m, thr, out, [], cx.where(f), 'time is normalized')
        types[cx.P.enumval[ET + k]] = v
    y = sym('type', 'i')
    scalar = lambda f: cx.P.ty(f['params'][0]['t'])['k'] == 'float'
    lv, ev, f, _ = make(cx, key, CP, 4, [a, ad, b, bd])
    v, thr, f, _ = ev_of(cx, lv, key, ev, 'eval', [t, y], 2, scalar)
    W = cx.where(f)
    known = bor(*[eq(y, num(k)) for k in types])
    cx.eq('cubic polynomial: evaluation is refused exactly for unknown types and times', thr, bor(out, neg_b(known)), [], W)
    for m, k in (('getPosition', 'POSITION'), ('getVelocity', 'VELOCITY'), ('getAcceleration', 'ACCELERATION')):
        want = ev_of(cx, lv, key, ev, m, [t])[0]
        cx.eq('cubic polynomial: evaluation of %s' % k, v, want, inside + [eq(y, num(cx.P.enumval[ET + k]))], W)
    n, i = sym('n', 'u'), sym('i', 'u')
    pts = LV(uid('points'), (), None)
    pv = setdims(sym('points', 'm', (n, ONE)), n, ONE)
    ev.st.heap[pts.root] = pv
    v, thr, f, e = ev_of(cx, lv, key, ev, 'eval', [pts, y], 2, lambda f: not scalar(f))
    W = cx.where(f)
    ti = elem(pv, i, ZERO)
    one, _, _, _ = ev_of(cx, lv, key, ev, 'eval', [ti, y], 2, scalar)
    facts = [lt(i, n), known, le(ZERO, ti), le(ti, ONE)]
    cx.eq('evaluation of many points: one value per point', vsize(v), n, [], W)
    cx.eq('evaluation of many points: the value at each point', vsel(v, i), one, facts, W, 'element by element')


def scaling(cx):
    f = cx.fn(CP + '::scale', 1)
    W = cx.where(f)
    n, i = sym('n', 'u'), sym('i', 'u')
    pts = LV(uid('points'), (), None)
    pv = setdims(sym('points', 'm', (n, ONE)), n, ONE)
    ev = cx.eval()
    ev.st.heap[pts.root] = pv
    r = cx.run(f, None, [pts], ev)
    v = r.ret
    cx.eq('scaling: one value per point', dims(v)[0], n, [], W)
    # the affine map is determined by its action on differences: (s_i - s_j) (p_k - p_l) = (s_k - s_l) (p_i - p_j)
    q = [sym(x, 'u') for x in ('i0', 'i1', 'i2', 'i3')]
    s = [elem(v, x, ZERO) for x in q]
    p = [elem(pv, x, ZERO) for x in q]
    lim = [lt(x, n) for x in q]
    cx.eq('scaling is affine', mul(sub(s[0], s[1]), sub(p[2], p[3])), mul(sub(s[2], s[3]), sub(p[0], p[1])), lim, W, 'order and ratios are preserved')


class Foot(object):
    def __init__(self, cx, n, args, pred=None):
        self.cx, self.key = cx, cx.cls(FT)
        self.lv, self.ev, self.f, self.r = make(cx, self.key, FT, n, args, pred)

    def at(self, m, t, ty):
        return ev_of(self.cx, self.lv, self.key, self.ev, m, [t, num(self.cx.P.enumval[ET + ty])])[0]


def foot(cx):
    h = sym('h', 'r')
    vec = lambda n: setdims(sym(n, 'm', (3, 1)), 3, 1)
    rk = cx.cls('humoto::rigidbody::RigidBodyState')
    kinds = []
    va, vb, vad, vbd = vec('a'), vec('b'), vec('adot'), vec('bdot')
    zero = [ZERO] * 3
    el = lambda v: [elem(v, num(k), ZERO) for k in range(3)]
    heap = {}

    def obj(v):
        l = LV(uid('arg'), (), None)
        heap[l.root] = v
        return l
    A, B = LV(uid('a'), (), rk), LV(uid('b'), (), rk)

    def field(o, cls, n, k):
        return elem(setdims(fld(mk('obj', o.root), 'humoto::rigidbody::%s::%s' % (cls, n)), 3, 1), num(k), ZERO)
    st = lambda o, n: [field(o, 'PointMassState', n, k) for k in range(3)]
    yaw = cx.P.enumval['humoto::AngleIndex::YAW']
    is3 = lambda f: cx.P.strip(f['params'][0]['t']).get('key') != rk
    kinds = [('two points', 3, [obj(va), obj(vb), h], is3, el(va), zero, el(vb), zero, None),
             ('two points with velocities', 5, [obj(va), obj(vad), obj(vb), obj(vbd), h], None, el(va), el(vad), el(vb), el(vbd), None),
             ('two states', 3, [A, B, h], lambda f: not is3(f), st(A, 'position_'), st(A, 'velocity_'), st(B, 'position_'), st(B, 'velocity_'),
              [field(o, 'RotaryState', n, yaw) for o in (A, B) for n in ('rpy_', 'angular_velocity_')])]
    half = num(Fraction(1, 2))
    for nm, n, args, pred, a, ad, b, bd, yw in kinds:
        key = cx.cls(FT)
        lv = LV(uid('traj'), (), key)
        ev = cx.eval()
        ev.st.heap[lv.root] = mk('default', FT)
        cx.run(cx.fn(FT + '::Simple3DFootTrajectory', 0), lv, [], ev)
        ev.st.heap.update(heap)
        f = cx.meth(key, 'initialize', n, None, pred)
        r = cx.run(f, lv, args, ev)
        W = cx.where(f)
        nm = 'foot trajectory between ' + nm
        up = add(a[2], h)
        cx.eq(nm + ': refused exactly when the end is above the step height', r.thrown(), lt(up, b[2]), [], W)
        facts = [le(b[2], up)]

        def at(m, t, ty):
            return ev_of(cx, lv, key, ev, m, [t, num(cx.P.enumval[ET + ty])])[0]
        for k, m in enumerate(('evalx', 'evaly', 'evalz')):
            c = 'xyz'[k]
            cx.eq('%s: starts at the given %s' % (nm, c), at(m, ZERO, 'POSITION'), a[k], facts, W, 'boundary condition')
            cx.eq('%s: ends at the given %s' % (nm, c), at(m, ONE, 'POSITION'), b[k], facts, W, 'boundary condition')
            cx.eq('%s: starts with the given velocity along %s' % (nm, c), at(m, ZERO, 'VELOCITY'), ad[k], facts, W, 'boundary condition')
            cx.eq('%s: ends with the given velocity along %s' % (nm, c), at(m, ONE, 'VELOCITY'), bd[k], facts, W, 'boundary condition')
        cx.eq(nm + ': reaches the step height in the middle', at('evalz', half, 'POSITION'), up, facts, W, 'both halves meet at the top')
        cx.eq(nm + ': is at rest vertically in the middle', at('evalz', half, 'VELOCITY'), ZERO, facts, W)
        # the second half starts where the first one ends: limit of the second branch
        e = sym('e', 'r')
        late = facts + [lt(ZERO, e), le(e, half)]
        z2 = at('evalz', add(half, e), 'POSITION')
        d = mul(num(2), e)
        rest = sub(z2, up)
        for i in range(3):
            t = [div(num(j), num(3)) for j in (1, 2, 3)]
        # rest is a cubic in e without constant and linear terms, and it ends at b
        q2, q3 = at('evalz', add(half, div(e, num(2))), 'POSITION'), None
        s = lambda x: sub(at('evalz', add(half, x), 'POSITION'), up)
        l1, l2 = s(e), s(div(e, num(2)))
        l4 = s(div(e, num(4)))
        # A e^2 + B e^3: s(e) - 12 s(e/2) + 32 s(e/4) = 0 holds for such functions only (with no constant and linear term among cubics)
        cx.eq(nm + ': the second half leaves the top smoothly', add(l1, mul(num(-12), l2), mul(num(32), l4)), ZERO, late, W, 'position and velocity are continuous at the top')
        t = sym('t', 'r')
        inside = facts + [le(ZERO, t), le(t, ONE)]
        f3 = cx.meth(key, 'eval', 2, True, lambda f: cx.P.ty(f['params'][0]['t'])['k'] == 'float')
        for ty in ('POSITION', 'VELOCITY', 'ACCELERATION'):
            e3 = cx.eval()
            e3.st = ev.st.copy()
            e3.ntmp, e3.nframe = ev.ntmp + 100000, ev.nframe + 100000
            v = cx.run(f3, lv, [t, num(cx.P.enumval[ET + ty])], e3).ret
            for k, m in enumerate(('evalx', 'evaly', 'evalz')):
                cx.eq('%s: %s along %s in the vector' % (nm, ty, 'xyz'[k]), elem(v, num(k), ZERO), at(m, t, ty), inside, cx.where(f3))
        if yw:
            for m, tt, w, x in (('starts', ZERO, yw[0], 'POSITION'), ('ends', ONE, yw[2], 'POSITION'), ('starts', ZERO, yw[1], 'VELOCITY'), ('ends', ONE, yw[3], 'VELOCITY')):
                cx.eq('%s: %s with the given yaw %s' % (nm, m, x.lower()), at('evalTheta', tt, x), w, facts, W, 'boundary condition')
        fs = cx.meth(key, 'eval', 2, True, lambda f: cx.P.strip(f['params'][0]['t']).get('key') == rk)
        e3 = cx.eval()
        e3.st = ev.st.copy()
        e3.ntmp, e3.nframe = ev.ntmp + 200000, ev.nframe + 200000
        o = LV(uid('state'), (), rk)
        cx.run(fs, o and lv, [o, t], e3)
        post = e3.load(o)
        W = cx.where(fs)
        for n1, n2, ty in (('position_', 'rpy_', 'POSITION'), ('velocity_', 'angular_velocity_', 'VELOCITY'), ('acceleration_', 'angular_acceleration_', 'ACCELERATION')):
            v = fld(post, 'humoto::rigidbody::PointMassState::' + n1)
            for k, m in enumerate(('evalx', 'evaly', 'evalz')):
                cx.eq('%s: %s along %s in the state' % (nm, ty, 'xyz'[k]), elem(v, num(k), ZERO), at(m, t, ty), inside, W)
            v = fld(post, 'humoto::rigidbody::RotaryState::' + n2)
            cx.eq('%s: yaw %s in the state' % (nm, ty), elem(v, num(yaw), ZERO), at('evalTheta', t, ty), inside, W)
            for k in range(3):
                if k != yaw:
                    old = setdims(fld(mk('obj', o.root), 'humoto::rigidbody::RotaryState::' + n2), 3, 1)
                    cx.eq('%s: %s of the other angles is kept (%d)' % (nm, ty, k), elem(v, num(k), ZERO), elem(old, num(k), ZERO), inside, W)


def check(cx):
    cx.guard('cubic polynomial', cubic, cx)
    cx.guard('scaling', scaling, cx)
    cx.guard('foot trajectory', foot, cx)
