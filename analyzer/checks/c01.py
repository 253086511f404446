"""C01: copying constraints into a solver container keeps their meaning."""
from .common import *


def spec(t, kind, pre, off, r, c):
    """required contents of row r after the copy: dict name -> term; plus number of rows written"""
    n = t.n
    i = sub(r, off)
    mine = within(r, off, n)
    if kind == 'ALU':
        return {'A': ite(mine, t.rowel(i, c), elem(pre['A'], r, c)),
                'lb': ite(mine, t.lower(i), elem(pre['lb'], r, ZERO)),
                'ub': ite(mine, t.upper(i), elem(pre['ub'], r, ZERO))}, n
    if kind == 'AB':
        return {'A': ite(mine, t.rowel(i, c), elem(pre['A'], r, c)),
                'b': ite(mine, t.lower(i), elem(pre['b'], r, ZERO))}, n
    if kind == 'ILU':
        return {'I': ite(mine, elem(t.I, i, ZERO), elem(pre['I'], r, ZERO)),
                'lb': ite(mine, t.lower(i), elem(pre['lb'], r, ZERO)),
                'ub': ite(mine, t.upper(i), elem(pre['ub'], r, ZERO))}, n
    # AL: a'x >= lb only
    a, l = elem(pre['A'], r, c), elem(pre['lb'], r, ZERO)
    rows = n
    if t.bound == 'L':
        a, l = ite(mine, t.rowel(i, c), a), ite(mine, t.lower(i), l)
    elif t.bound == 'U':
        a, l = ite(mine, neg(t.rowel(i, c)), a), ite(mine, neg(t.upper(i)), l)
    else:
        j = sub(r, add(off, n))
        second = within(r, add(off, n), n)
        rows = scale(n, 2)
        a = ite(mine, t.rowel(i, c), ite(second, neg(t.rowel(j, c)), a))
        l = ite(mine, t.lower(i), ite(second, neg(t.upper(j)), l))
    return {'A': a, 'lb': l}, rows


def supported(body, bound, kind):
    if kind == 'ALU':
        return True
    if kind == 'AB':
        return bound in ('B', 'B0')
    if kind == 'AL':
        return bound in ('L', 'U', 'LU')
    return body == 'I'


def meaningful(body, bound, kind):
    """is there a representation at all"""
    if kind == 'ILU':
        return body == 'I'
    if kind == 'AB':
        return bound in ('B', 'B0')
    if kind == 'AL':
        return bound in ('L', 'U', 'LU')
    return True


def one(cx, body, bound, kind):
    t = Task(cx, body, bound)
    co = Cont(cx, kind, t.nv)
    f = cx.meth(t.key, 'copyTo', 2, pred=lambda f: cx.ptype(f, 0).get('q') == CONT + kind)
    w = cx.where(f)
    off = sym(uid('off'), 'u')
    r, c = sym(uid('r'), 'u'), sym(uid('c'), 'u')
    res = cx.run(f, t.lv, [co.lv, off])
    thr = res.thrown()
    nm = '%s -> %s' % (t.name, kind)
    if not meaningful(body, bound, kind):
        cx.holds(nm + ': refused loudly', thr, t.facts, w, 'unsupported conversion must throw')
        return
    want, rows = spec(t, kind, co.pre, off, r, c)
    base = t.facts + co.facts + [le(add(off, rows), co.R)]
    if not supported(body, bound, kind):
        base.append(neg_b(thr))
    else:
        cx.never(nm + ': accepted', thr, base, w, 'a supported conversion of consistent data does not throw')
    if isinstance(res.ret, T):
        cx.eq(nm + ': returned offset', res.ret, add(off, rows), base, w, 'the next free row is returned')
    base = base + [lt(r, co.R), lt(c, co.nv)]
    post = co.state(res.ev)
    for k in sorted(want):
        got = elem(post[k], r, c if k == 'A' else ZERO)
        cx.eq('%s: %s' % (nm, {'A': 'matrix', 'lb': 'lower bounds', 'ub': 'upper bounds', 'b': 'right-hand side', 'I': 'indices'}[k]),
              got, want[k], base, w, 'every entry of the container equals the constraint row it stands for; other rows are untouched')
    # what is not written elsewhere
    for k in post:
        if k not in want:
            cx.eq('%s: %s unchanged' % (nm, k), post[k], co.pre[k], base, w)


def check(cx):
    for kind in ('ALU', 'AL', 'AB', 'ILU'):
        for body in BODIES:
            for bound in BOUNDS:
                cx.guard('%s%s -> %s' % (body, bound, kind), one, cx, body, bound, kind)
