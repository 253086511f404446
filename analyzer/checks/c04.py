"""C04: the active set and the violations computed from a solution describe how each constraint row relates to it."""
from .common import *

ASC = 'humoto::ActiveSetConstraints'
VIO = 'humoto::ViolationsConstraints'
ACT = 'humoto::ConstraintActivationType::'


def act(cx, name):
    v = cx.P.enumval.get(ACT + name)
    if v is None:
        raise Missing(ACT + name)
    return num(v)


class Seq(object):
    """observer of an indexable container (operator[] and size)"""

    def __init__(self, cx, q, prefix='as'):
        self.cx, self.key = cx, cx.cls(q)
        self.lv = LV(uid(prefix), (), self.key)
        self.n = cx.get(self.key, self.lv, 'size')
        TYPE.setdefault(self.n, 'u')

    def at(self, i, ev=None, m='operator[]'):
        v = self.cx.get(self.key, self.lv, m, args=[i], ev=ev)
        return v

    def size(self, ev=None):
        v = self.cx.get(self.key, self.lv, 'size', ev=ev)
        return v


def location(cx, off, ln):
    key = cx.cls('humoto::Location')
    f = cx.fn('humoto::Location::Location', 2)
    ev = cx.eval()
    lv = LV(uid('loc'), (), key)
    ev.st.heap[lv.root] = mk('default', 'humoto::Location')
    cx.run(f, lv, [off, ln], ev)
    return ev.load(lv)


def solution(cx, nv):
    key = cx.cls('humoto::Solution')
    lv = LV(uid('sol'), (), key)
    x = setdims(cx.get(key, lv, 'get_x', nparams=0), nv, 1)
    return lv, x


def one(cx, body, bound):
    t = Task(cx, body, bound)
    nm = t.name
    off = sym(uid('off'), 'u')
    i, r = sym(uid('i'), 'u'), sym(uid('r'), 'u')
    sol, x = solution(cx, t.nv)
    p = t.prod(x, i)
    lo, up = t.lower(i), t.upper(i)
    inside = add(off, i)
    U, INA, L, UP, E = [act(cx, s) for s in ('UNDEFINED', 'INACTIVE', 'LOWER_BOUND', 'UPPER_BOUND', 'EQUALITY')]
    if bound == 'LU':
        want = ite(lt(up, lo), U, ite(eq(lo, up), E, ite(le(p, lo), L, ite(le(up, p), UP, INA))))
        dl, du = sub(p, lo), sub(p, up)
    elif bound == 'L':
        want = ite(le(p, lo), L, INA)
        dl, du = sub(p, lo), ZERO
    elif bound == 'U':
        want = ite(le(up, p), UP, INA)
        dl, du = ZERO, sub(p, up)
    else:
        want = E
        dl = du = sub(p, lo)
    # active set
    f = cx.meth(t.key, 'determineActiveSet', 3)
    w = cx.where(f)
    a = Seq(cx, ASC)
    ev = cx.eval()
    loc = ev.tmp(location(cx, off, t.n), cx.cls('humoto::Location'))
    res = cx.run(f, t.lv, [a.lv, loc, sol], ev)
    base = t.facts + t.idx_facts(i) + [le(add(off, t.n), a.n), lt(i, t.n)]
    cx.never(nm + ': active set is determined', res.thrown(), t.facts + [le(add(off, t.n), a.n), le(ONE, t.n)], w, 'no refusal on a matching location')
    cx.eq(nm + ': activation of a row', a.at(inside, ev), want, base, w, 'row i gets the activation given by its product and bounds')
    cx.eq(nm + ': activation of other rows', a.at(r, ev), a.at(r), t.facts + [le(add(off, t.n), a.n), lt(r, a.n), neg_b(within(r, off, t.n))], w, 'rows of other tasks are untouched')
    cx.eq(nm + ': active set size kept', a.size(ev), a.n, base, w)
    # violations
    f = cx.meth(t.key, 'computeViolations', 3)
    w = cx.where(f)
    v = Seq(cx, VIO, 'vio')
    ev = cx.eval()
    loc = ev.tmp(location(cx, off, t.n), cx.cls('humoto::Location'))
    eqs = []
    for fd in cx.P.C[v.key]['fields']:
        ft = cx.P.strip(fd['t'])
        if 'rows' in ft:
            m = ev.load(v.lv.sub(('f', VIO + '::' + fd['n'])), fd['t'])
            setdims(m, v.n, 1)
    res = cx.run(f, t.lv, [v.lv, loc, sol], ev)
    base = t.facts + t.idx_facts(i) + [le(add(off, t.n), v.n), lt(i, t.n)]
    cx.never(nm + ': violations are computed', res.thrown(), t.facts + [le(add(off, t.n), v.n), le(ONE, t.n)], w)
    tot = ite(lt(dl, ZERO), dl, ite(lt(ZERO, du), du, ZERO))
    cx.eq(nm + ': violation of a row', v.at(inside, ev), tot, base, w, 'signed distance to the violated bound, zero when satisfied')
    cx.eq(nm + ': lower difference', v.at(inside, ev, 'getLower'), dl, base, w, 'product minus lower bound, zero when there is none')
    cx.eq(nm + ': upper difference', v.at(inside, ev, 'getUpper'), du, base, w, 'product minus upper bound, zero when there is none')
    far = t.facts + [le(add(off, t.n), v.n), lt(r, v.n), neg_b(within(r, off, t.n))]
    for m in ('operator[]', 'getLower', 'getUpper'):
        cx.eq(nm + ': %s of other rows' % m, v.at(r, ev, m), v.at(r, None, m), far, w, 'rows of other tasks are untouched')


def bounds(cx):
    """simple bounds merged into bounds on the variables"""
    key = cx.cls(CONT + 'ILU')
    f = cx.meth(key, 'initializeSolutionBounds', 2)
    w = cx.where(f)
    nv = sym(uid('nv'), 'u')
    for n in range(0, 4 if cx.tier == 'quick' else 6):
        nm = 'bounds from %d rows' % n
        co = Cont(cx, 'ILU', nv)
        lb, ub = LV(uid('lb')), LV(uid('ub'))
        ev = cx.eval()
        for l in (lb, ub):
            setdims(ev.load(l), sym(uid('r'), 'u'), 1)
        # a container with exactly n rows
        vals = {}
        facts = list(co.facts)
        for k, t in co.pre.items():
            if n:
                vals[k] = [elem(t, num(i), ZERO) for i in range(n)]
        facts.append(eq(co.R, num(n)))
        for k in co.pre:
            setdims(co.pre[k], num(n), 1)
        res = cx.run(f, co.lv, [lb, ub], ev)
        thr = res.thrown()
        L, U = ev.load(lb), ev.load(ub)
        if n == 0:
            cx.eq(nm + ': empty', dims(L)[0], ZERO, facts, w)
            cx.eq(nm + ': empty', dims(U)[0], ZERO, facts, w)
            continue
        v = sym(uid('v'), 'u')
        facts += [lt(v, nv)] + [lt(x, nv) for x in vals['I']] + [le(ZERO, x) for x in vals['I']]
        lo, up = neg(INF), INF
        bad = FALSE
        for i in range(n):
            m = eq(vals['I'][i], v)
            lo = ite(band(m, lt(lo, vals['lb'][i])), vals['lb'][i], lo)
            up = ite(band(m, lt(vals['ub'][i], up)), vals['ub'][i], up)
        clash = []
        for i in range(n):
            for j in range(n):
                clash.append(band(eq(vals['I'][i], vals['I'][j]), lt(vals['ub'][j], vals['lb'][i])))
        fin = [lt(neg(INF), x) for x in vals['lb']] + [lt(x, INF) for x in vals['ub']]
        cx.eq(nm + ': contradictory bounds refused, others accepted', thr, bor(*clash), facts + fin, w, 'throws exactly when some variable gets lb > ub')
        ok = facts + fin + [neg_b(thr)]
        cx.eq(nm + ': size', dims(L)[0], nv, ok, w)
        cx.eq(nm + ': size', dims(U)[0], nv, ok, w)
        cx.eq(nm + ': lower', elem(L, v, ZERO), lo, ok, w, 'largest lower bound of the rows on the variable, -infinity without rows')
        cx.eq(nm + ': upper', elem(U, v, ZERO), up, ok, w, 'smallest upper bound of the rows on the variable, +infinity without rows')


def check(cx):
    for body in BODIES:
        for bound in BOUNDS:
            cx.guard(body + bound, one, cx, body, bound)
    cx.guard('bounds', bounds, cx)
