"""C03: the quadratic objective handed to a solver is the sum of squared residuals of the objective-level tasks."""
from .common import *
from . import c02


def one(cx, body, bound):
    t = Task(cx, body, bound)
    nm = t.name
    p, q = sym(uid('p'), 'u'), sym(uid('q'), 'u')
    for m in ('getATAandATb', 'addATAandATb'):
        f = cx.meth(t.key, m, 2)
        w = cx.where(f)
        ev = cx.eval()
        H, g = LV(uid('H')), LV(uid('g'))
        h0 = ev.load(H)
        g0 = ev.load(g)
        if m == 'getATAandATb':
            setdims(h0, sym(uid('hr'), 'u'), sym(uid('hc'), 'u'))
            setdims(g0, sym(uid('gr'), 'u'), 1)
        else:
            setdims(h0, t.nv, t.nv)
            setdims(g0, t.nv, 1)
        res = cx.run(f, t.lv, [H, g], ev)
        if bound not in ('B', 'B0'):
            cx.holds('%s: %s refused' % (nm, m), res.thrown(), t.facts, w, 'inequalities cannot be minimised as residuals')
            continue
        cx.never('%s: %s does not throw' % (nm, m), res.thrown(), t.facts, w)
        facts = t.facts + [lt(p, t.nv), le(q, p), le(ONE, t.nv)]
        h1, g1 = ev.load(H), ev.load(g)
        k = fresh('k')
        hs = sumk(k, t.n, mul(t.rowel(k, p), t.rowel(k, q)))
        k = fresh('k')
        gs = sumk(k, t.n, mul(t.rowel(k, p), t.lower(k))) if bound == 'B' else ZERO
        if m == 'addATAandATb':
            hs = add(hs, elem(h0, p, q))
            gs = add(gs, elem(g0, p, ZERO))
        d = dims(h1)
        cx.eq('%s: %s Hessian size' % (nm, m), d[0], t.nv, facts, w)
        cx.eq('%s: %s Hessian size' % (nm, m), d[1], t.nv, facts, w)
        cx.eq('%s: %s gradient size' % (nm, m), dims(g1)[0], t.nv, facts, w)
        cx.eq('%s: %s lower triangle of A\'A' % (nm, m), elem(h1, p, q), hs, facts, w, "H(p,q) = sum over rows of a_p a_q")
        cx.eq('%s: %s A\'b' % (nm, m), elem(g1, p, ZERO), gs, facts, w, "g(p) = sum over rows of a_p b")


def small(cx, body, bound, I):
    """2 rows over 3 variables, entry by entry"""
    t = Task(cx, body, bound)
    nm = '%s with %s' % (t.name, 'variables %s' % list(I) if body in ('I', 'GI') else '2 rows')
    nv, n = 3, 2
    M = lambda tag, r, c: [[sym('%s.%s%d%d' % (t.lv.root, tag, i, j), 'r') for j in range(c)] for i in range(r)]
    ev = cx.eval()

    def put(getter, v):
        f = cx.meth(t.key, getter, 0)
        x = ev.call_body(f, t.lv, [], {'k': 'call'})
        if isinstance(x, LV):
            ev.store(x, v)
        else:
            w = ev.rv(x)
            if w.op != 'fld' or w.args[0] is not mk('obj', t.lv.root):
                raise Missing(getter)
            ev.store(t.lv.sub(('f', w.args[1])), v)
    put('getNumberOfVariables', num(nv))
    rows = [[ZERO] * nv for _ in range(n)]
    if body == 'A':
        rows = M('A', n, nv)
        put('getA', emat(rows))
    elif body == 'AS':
        x = M('A', n, nv - 1)
        put('getA', emat(x))
        put('getOffset', ONE)
        rows = [[ZERO] + r for r in x]
    else:
        put('getIndices', emat([[num(i)] for i in I]))
        g = M('g', n, 1) if body == 'GI' else [[ONE]] * n
        if body == 'GI':
            put('getIGains', emat(g))
        rows = [[g[r][0] if c == I[r] else ZERO for c in range(nv)] for r in range(n)]
    b = [[ZERO]] * n
    if bound == 'B':
        b = M('b', n, 1)
        put('getB', emat(b))
    for m in ('getATAandATb', 'addATAandATb'):
        f = cx.meth(t.key, m, 2)
        w = cx.where(f)
        e = cx.eval()
        e.st = ev.st.copy()
        H, g = LV(uid('H')), LV(uid('g'))
        h0, g0 = M('h', nv, nv), M('g0', nv, 1)
        e.store(H, emat(h0))
        e.store(g, emat(g0))
        res = cx.run(f, t.lv, [H, g], e)
        cx.never('%s: %s does not throw' % (nm, m), res.thrown(), [], w)
        add_ = m == 'addATAandATb'
        h1, g1 = e.load(H), e.load(g)
        for p in range(nv):
            for q in range(p + 1):
                s = h0[p][q] if add_ else ZERO
                for r in range(n):
                    s = add(s, mul(rows[r][p], rows[r][q]))
                cx.eq("%s: %s entry (%d,%d) of A'A" % (nm, m, p, q), elem(h1, num(p), num(q)), s, [], w, 'lower triangle')
            s = g0[p][0] if add_ else ZERO
            for r in range(n):
                s = add(s, mul(rows[r][p], b[r][0]))
            cx.eq("%s: %s entry %d of A'b" % (nm, m, p), elem(g1, num(p), ZERO), s, [], w)


def objective(cx, nt, simple):
    """initializeObjective on a level of abstract tasks"""
    nm = 'QP objective of %d %s task(s)' % (nt, 'simple' if simple else 'general')
    tasks = [c02.GTask(i, simple) for i in range(nt)]
    sv, nv = c02.structure(cx, None)
    w = c02.World(cx, tasks, nv)
    key, lv, ev = c02.new_level(cx, w)
    cx.run(cx.meth(key, 'form', 4), lv, [sv, LV(uid('m')), LV(uid('c')), FALSE], ev)
    qk = cx.cls('humoto::QPObjective')
    qp = LV(uid('qp'), (), qk)
    f = cx.meth(qk, 'initializeObjective', 2)
    W = cx.where(f)
    alleq = band(*[t.e for t in tasks])
    i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
    lim = [lt(i, nv), lt(j, nv)]
    types = {k.split('::')[-1]: v for k, v in cx.P.enumval.items() if k.startswith('humoto::QPObjective::')}
    for up in (TRUE, FALSE):
        e = c02.fork(cx, ev, w)
        k0 = len(e.throws)
        cx.run(f, qp, [lv, up], e)
        thr = bor(*[x[0] for x in e.throws])
        s = nm + (', full Hessian' if up is TRUE else ', lower triangle')
        cx.holds(s + ': inequality objective refused', thr, w.facts + [neg_b(alleq)], W, 'an objective with inequalities is refused')
        cx.never(s + ': accepted', thr, w.facts + [alleq], W, 'a nonempty equality objective is accepted')
        H = cx.get(qk, qp, 'getHessian', ev=e)
        g = cx.get(qk, qp, 'getGradient', ev=e)
        M = madd(*[t.mats(nv)[0] for t in tasks])
        v = madd(*[t.mats(nv)[1] for t in tasks])
        fa = w.facts + lim + [alleq]
        cx.eq(s + ': gradient is minus A\'b', elem(g, i, ZERO), neg(elem(v, i, ZERO)), fa, W, 'g = -sum A\'b')
        cx.eq(s + ': Hessian lower triangle', elem(H, i, j), elem(M, i, j), fa + [le(j, i)], W, 'H = sum A\'A')
        ht = cx.get(qk, qp, 'getHessianType', ev=e)
        if up is TRUE:
            cx.eq(s + ': Hessian upper triangle', elem(H, i, j), elem(M, j, i), fa + [lt(i, j)], W, 'a full Hessian is symmetric')
        allowed = ['HESSIAN_GENERIC'] + (['HESSIAN_DIAGONAL'] if simple else []) + (['HESSIAN_LOWER_TRIANGULAR'] if up is FALSE else [])
        if up is FALSE and not simple:
            allowed.remove('HESSIAN_GENERIC')
        cx.holds(s + ': declared Hessian type is truthful', bor(*[eq(ht, num(types[a])) for a in allowed]), fa, W,
                 'diagonal only when every task is simple, generic only when both triangles are filled')


def regularize(cx):
    qk = cx.cls('humoto::QPObjective')
    qp = LV(uid('qp'), (), qk)
    f = cx.meth(qk, 'regularize', 1)
    ev = cx.eval()
    n = sym(uid('n'), 'u')
    H0 = setdims(cx.get(qk, qp, 'getHessian'), n, n)
    g0 = setdims(cx.get(qk, qp, 'getGradient'), n, 1)
    r = sym(uid('rho'), 'r')
    cx.run(f, qp, [r], ev)
    H1, g1 = cx.get(qk, qp, 'getHessian', ev=ev), cx.get(qk, qp, 'getGradient', ev=ev)
    i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
    fa = [lt(i, n), lt(j, n)]
    cx.eq('regularization adds to the diagonal', elem(H1, i, j), add(elem(H0, i, j), ite(eq(i, j), r, ZERO)), fa, cx.where(f), 'H + rho I')
    cx.eq('regularization keeps the gradient', elem(g1, i, ZERO), elem(g0, i, ZERO), fa, cx.where(f))


def check(cx):
    for body in BODIES:
        for bound in BOUNDS:
            cx.guard(body + bound, one, cx, body, bound)
    for body in BODIES:
        for bound in ('B', 'B0'):
            for I in ((2, 0), (1, 1), (1, 2)) if body in ('I', 'GI') else ((),):
                cx.guard('small %s%s' % (body, bound), small, cx, body, bound, I)
    for nt in (1, 2, 3):
        for s in (False, True):
            cx.guard('objective %d %s' % (nt, s), objective, cx, nt, s)
    cx.guard('regularize', regularize, cx)
