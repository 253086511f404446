"""C09: discrete-time models are the exact solutions of the continuous dynamics, for every control parametrization and sampling."""
from .common import *

TI = 'humoto::rigidbody::TripleIntegrator::'
PM = 'humoto::walking::PointMassModel6z::'


def poly(T_, n):
    """T^n / n!"""
    r = ONE
    for i in range(n):
        r = mul(r, T_)
    f = 1
    for i in range(2, n + 1):
        f *= i
    return mul(r, num(Fraction(1, f)))


def matrix(cx, f, args, heap=None):
    ev = cx.eval()
    r = cx.run(f, None, args, ev)
    v = r.ret
    return v, r


def flow(t):
    """triple integrator with constant jerk over a time t"""
    A = [[poly(t, j - i) if j >= i else ZERO for j in range(3)] for i in range(3)]
    B = [poly(t, 3 - i) for i in range(3)]
    return A, B


def controls(T_):
    """jerk that brings position / velocity / acceleration to a given value after T: jerk = D state + E value"""
    out = {}
    for n, (name) in enumerate(('Pos', 'Vel', 'Acc')):
        A, B = flow(T_)
        e = inv(B[n])
        out[name] = ([neg(mul(e, A[n][j])) for j in range(3)], e)
    return out


def integrator(cx, N):
    T_, Ts = sym('T', 'r'), sym('Ts', 'r')
    facts = [lt(ZERO, T_), le(ZERO, Ts), le(Ts, T_)]

    def get(name, *args):
        f = cx.fn(TI + name, pred=lambda f: f.get('targs') == [N] and 'body' in f)
        return (f,) + matrix(cx, f, list(args))

    def cmp(name, args, want, what):
        """block diagonal matrix of N copies of want"""
        f, v, r = get(name, *args)
        W = cx.where(f)
        n, m = len(want), len(want[0])
        nm = '%s<%d>' % (name, N)
        cx.eq('%s: rows' % nm, dims(v)[0], num(n * N), [], W)
        cx.eq('%s: columns' % nm, dims(v)[1], num(m * N), [], W)
        for i in range(n * N):
            for j in range(m * N):
                w = want[i % n][j % m] if i // n == j // m else ZERO
                cx.eq('%s(%d,%d): %s' % (nm, i, j, what), elem(v, num(i), num(j)), w, facts, W, 'exact solution of the triple integrator')
    A, B = flow(T_)
    cmp('getAJerk', [T_], A, 'free motion under constant jerk')
    cmp('getBJerk', [T_], [[b] for b in B], 'response to constant jerk')
    S, R = flow(Ts)
    for name, (D, E) in controls(T_).items():
        cmp('getD' + name, [T_], [D], 'jerk that keeps the controlled value')
        cmp('getE' + name, [T_], [[E]], 'jerk per unit of the controlled value')
        cmp('getA' + name, [T_], [[add(A[i][j], mul(B[i], D[j])) for j in range(3)] for i in range(3)], 'state after the whole interval')
        cmp('getB' + name, [T_], [[mul(B[i], E)] for i in range(3)], 'control after the whole interval')
        cmp('getAs' + name, [T_, Ts], [[add(S[i][j], mul(R[i], D[j])) for j in range(3)] for i in range(3)], 'state inside the interval')
        cmp('getBs' + name, [T_, Ts], [[mul(R[i], E)] for i in range(3)], 'control inside the interval')


def lipm(cx):
    t, T_, w, h = sym('t', 'r'), sym('T', 'r'), sym('omega', 'r'), sym('h', 'r')
    g = None
    pos = [lt(ZERO, t), lt(ZERO, T_), lt(ZERO, w), lt(ZERO, h)]
    tw = mul(t, w)
    ch, sh = fn('cosh', tw), fn('sinh', tw)
    w2 = mul(w, w)
    Ad = [[ONE, div(sh, w), div(sub(ch, ONE), w2)], [ZERO, ch, div(sh, w)], [ZERO, mul(w, sh), ch]]
    # response to a constant rate of the centre of pressure
    Bd = [sub(t, div(sh, w)), sub(ONE, ch), neg(mul(w, sh))]
    z = [ONE, ZERO, neg(inv(w2))]      # centre of pressure
    A = [[sub(Ad[i][j], div(mul(Bd[i], z[j]), T_)) for j in range(3)] for i in range(3)]
    B = [div(Bd[i], T_) for i in range(3)]
    same = {T_: t}

    def two(M, zero=ZERO):
        n, m = len(M), len(M[0])
        return [[M[i % n][j % m] if i // n == j // m else zero for j in range(2 * m)] for i in range(2 * n)]

    def cmp(q, nparams, args, want, what, facts=pos):
        f = cx.fn(PM + q, nparams)
        v, r = matrix(cx, f, args)
        W = cx.where(f)
        if not is_mat(v):
            cx.eq('%s/%d: %s' % (q, nparams, what), v, want[0][0], facts, W)
            return
        cx.eq('%s/%d: rows' % (q, nparams), dims(v)[0], num(len(want)), [], W)
        cx.eq('%s/%d: columns' % (q, nparams), dims(v)[1], num(len(want[0])), [], W)
        for i in range(len(want)):
            for j in range(len(want[0])):
                cx.eq('%s/%d(%d,%d): %s' % (q, nparams, i, j, what), elem(v, num(i), num(j)), want[i][j], facts, W, 'exact solution of the linear inverted pendulum')
    sub_ = lambda M: [[subst(x, same) for x in r] for r in M]
    col = lambda v: [[x] for x in v]
    cmp('getA3', 3, [t, w, T_], A, 'state inside the interval')
    cmp('getB3', 3, [t, w, T_], col(B), 'control inside the interval')
    cmp('getA3', 2, [t, w], sub_(A), 'state after the interval')
    cmp('getB3', 2, [t, w], sub_(col(B)), 'control after the interval')
    cmp('getA6', 3, [t, w, T_], two(A), 'state inside the interval')
    cmp('getB6', 3, [t, w, T_], two(col(B)), 'control inside the interval')
    cmp('getA6', 2, [t, w], two(sub_(A)), 'state after the interval')
    cmp('getB6', 2, [t, w], two(sub_(col(B))), 'control after the interval')
    D = [neg(div(x, T_)) for x in z]
    cmp('getD3', 2, [T_, w], [D], 'rate of the centre of pressure')
    cmp('getE3', 1, [T_], [[inv(T_)]], 'rate of the centre of pressure per unit of control')
    cmp('getD6', 2, [T_, w], two([D]), 'rate of the centre of pressure')
    cmp('getE6', 2, [T_, w], two([[inv(T_)]]), 'rate of the centre of pressure per unit of control')
    cmp('getDcpv6', 1, [w], two([[ZERO, ONE, inv(w)]]), 'velocity of the capture point')
    f = cx.fn(PM + 'getOmega', 1)
    om, r = matrix(cx, f, [h])
    v, r = matrix(cx, cx.fn(PM + 'getDdz6', 1), [h])
    cx.eq('natural frequency: centre of pressure and frequency agree', mul(mul(om, om), neg(elem(v, ZERO, num(2)))), ONE, pos, cx.where(f), 'omega^2 = g / height')
    hg = neg(elem(v, ZERO, num(2)))
    cmp('getDdz6', 1, [h], two([[ONE, ZERO, neg(hg)]]), 'centre of pressure')
    cx.holds('natural frequency is positive', lt(ZERO, om), pos, cx.where(f))


def states(cx):
    """conversion between point mass states and 6-dimensional states"""
    pk = cx.cls('humoto::rigidbody::PointMassState')
    q = cx.P.C[pk]['q'] + '::'
    h = sym('h', 'r')
    c = setdims(sym('cstate', 'm', (6, 1)), 6, 1)
    cl = LV(uid('cstate'), (), None)
    f = cx.fn(PM + 'convertCoMState', 2)
    ev = cx.eval()
    ev.st.heap[cl.root] = c
    r = cx.run(f, None, [cl, h], ev)
    W = cx.where(f)
    order = [('position_', 0), ('velocity_', 1), ('acceleration_', 2)]

    def part(o, name, k):
        return elem(fld(o, q + name), num(k), ZERO)
    out = r.ret if isinstance(r.ret, T) else ev.rv(r.ret)
    for n, k in order:
        cx.eq('state from vector: x of ' + n, part(out, n, 0), elem(c, num(k), ZERO), [], W)
        cx.eq('state from vector: y of ' + n, part(out, n, 1), elem(c, num(k + 3), ZERO), [], W)
        cx.eq('state from vector: z of ' + n, part(out, n, 2), h if k == 0 else ZERO, [], W)
    f = cx.fn(PM + 'convertCoMState', 1)
    W = cx.where(f)
    o = LV(uid('state'), (), pk)
    r = cx.run(f, None, [o])
    for n, k in order:
        for a in (0, 1):
            x = mk('obj', o.root)
            v = fld(x, q + n)
            setdims(v, 3, 1)
            cx.eq('vector from state: %s %s' % ('xy'[a], n), elem(r.ret, num(k + 3 * a), ZERO), elem(v, num(a), ZERO), [], W)
    f = cx.fn(PM + 'evaluate', 5)
    W = cx.where(f)
    Ts, T_ = sym('Ts', 'r'), sym('T', 'r')
    u = setdims(sym('control', 'm', (2, 1)), 2, 1)
    ul = LV(uid('control'), (), None)
    ev = cx.eval()
    ev.st.heap[cl.root] = c
    ev.st.heap[ul.root] = u
    r = cx.run(f, None, [Ts, T_, h, cl, ul], ev)
    om, _ = matrix(cx, cx.fn(PM + 'getOmega', 1), [h])
    A, _ = matrix(cx, cx.fn(PM + 'getA3', 3), [Ts, om, T_])
    B, _ = matrix(cx, cx.fn(PM + 'getB3', 3), [Ts, om, T_])
    out = r.ret if isinstance(r.ret, T) else ev.rv(r.ret)
    facts = [lt(ZERO, Ts), lt(ZERO, T_), lt(ZERO, h)]
    for n, k in order:
        for a in (0, 1):
            w = mul(elem(B, num(k), ZERO), elem(u, num(a), ZERO))
            for j in range(3):
                w = add(w, mul(elem(A, num(k), num(j)), elem(c, num(3 * a + j), ZERO)))
            cx.eq('evaluation inside the interval: %s %s' % ('xy'[a], n), part(out, n, a), w, facts, W, 'the same dynamics at the requested time and height')
        cx.eq('evaluation inside the interval: z ' + n, part(out, n, 2), h if k == 0 else ZERO, facts, W)


def check(cx):
    for N in (1, 2) if cx.tier == 'quick' else (1, 2, 3):
        cx.guard('triple integrator<%d>' % N, integrator, cx, N)
    cx.guard('point mass model', lipm, cx)
    cx.guard('point mass states', states, cx)
