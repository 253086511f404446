"""C13: left and right are mirror images of each other, for every set of foot parameters."""
from .common import *

W_ = 'humoto::walking::'
RF = W_ + 'RobotFootParameters'
LR = 'humoto::LeftOrRight::'
FB = W_ + 'FootBoundsType::'
PARAMS = ('max_step_len_', 'min_feet_dist_', 'max_feet_dist_', 'feet_dist_default_', 'foot_length_', 'foot_width_')


def invert(cx):
    E = cx.P.enumval
    L, R = num(E[LR + 'LEFT']), num(E[LR + 'RIGHT'])
    f = cx.fn('humoto::LeftOrRight::invert', 1)
    W = cx.where(f)
    t = sym('side', 'i')
    r = cx.run(f, None, [t])
    cx.eq('the other side of left is right', r.ret, R, [eq(t, L)], W, 'mirroring')
    cx.eq('the other side of right is left', r.ret, L, [eq(t, R)], W, 'mirroring')
    cx.eq('only sides can be mirrored', r.thrown(), neg_b(bor(eq(t, L), eq(t, R))), [], W)


def container(cx):
    E = cx.P.enumval
    side = {'Left': num(E[LR + 'LEFT']), 'Right': num(E[LR + 'RIGHT'])}
    n = 0
    for k in sorted(cx.P.C):
        if not cx.P.C[k]['q'].startswith('humoto::LeftRightContainer'):
            continue
        try:
            at = cx.meth(k, 'operator[]', 1, False)
            atc = cx.meth(k, 'operator[]', 1, True)
        except Missing:
            continue
        n += 1
        lv = LV(uid('both'), (), k)
        nm = k.split('LeftRightContainer')[-1][:60]
        got = {}
        for s, v in side.items():
            for w, f in (('', at), (' const', atc)):
                ev = cx.eval()
                r = ev.call_body(f, lv, [v], {'k': 'call'})
                cx.analysed |= ev.analysed
                got[s + w] = r.key() if isinstance(r, LV) else None
        W = cx.where(at)
        if None in got.values():
            cx.und('container%s: elements' % nm, W)
            continue
        cx.require('container%s: constant and mutable access agree' % nm, all(got[s] == got[s + ' const'] for s in side), W, str(got))
        cx.require('container%s: left and right are distinct' % nm, got['Left'] != got['Right'], W, str(got))
        t = sym('side', 'i')
        r = cx.run(at, lv, [t])
        cx.eq('container%s: other indices are refused' % nm, r.thrown(), neg_b(bor(*[eq(t, v) for v in side.values()])), [], W)
        for s in side:
            for const in (False, True):
                try:
                    f = cx.meth(k, 'get' + s, 0, const)
                except Missing:
                    continue
                ev = cx.eval()
                r = ev.call_body(f, lv, [], {'k': 'call'})
                cx.analysed |= ev.analysed
                cx.require('container%s: get%s%s' % (nm, s, ' const' if const else ''), isinstance(r, LV) and r.key() == got[s], cx.where(f), 'refers to %r' % (r,), 'the element of that side')
            o = 'Right' if s == 'Left' else 'Left'
            for m in ('set' + s, 'copy' + s):
                try:
                    f = cx.meth(k, m, 1)
                except Missing:
                    continue
                a = LV(uid('arg'), (), k if m[0] == 'c' else None)
                ev = cx.eval()
                pre = {x: ev.load(LV(got[x][0], got[x][1])) for x in side}
                r = cx.run(f, lv, [a], ev)
                want = ev.load(LV(a.root, got[s][1])) if m[0] == 'c' else ev.load(a)
                cx.require_same('container%s: %s stores the element' % (nm, m), ev.load(LV(got[s][0], got[s][1])), want, [], cx.where(f))
                cx.require_same('container%s: %s keeps the other side' % (nm, m), ev.load(LV(got[o][0], got[o][1])), pre[o], [], cx.where(f))
    if not n:
        raise Missing('LeftRightContainer')


def feet(cx):
    E = cx.P.enumval
    key = cx.cls(RF)
    f = cx.meth(key, 'finalize', 0)
    W = cx.where(f)
    lv = LV(uid('feet'), (), key)
    ev = cx.eval()
    pre = mk('obj', lv.root)
    p = {n: fld(pre, RF + '::' + n) for n in PARAMS}
    r = cx.run(f, lv, [], ev)
    cx.never('derived parameters: accepted', r.thrown(), [], W)
    post = ev.load(lv)
    for n in PARAMS:
        cx.eq('derived parameters: %s is kept' % n, fld(post, RF + '::' + n), p[n], [], W)
    L, R = num(E[LR + 'LEFT']), num(E[LR + 'RIGHT'])
    kinds = {n: num(E[FB + n]) for n in ('WITH_RESPECT_TO_ADS', 'WITH_RESPECT_TO_SS', 'ALIGNED_TO_SS')}
    half = lambda x: div(x, num(2))
    sane = [le(p['min_feet_dist_'], p['max_feet_dist_'])] + [le(ZERO, p[n]) for n in PARAMS]

    def entries(v, n, m):
        return [[elem(v, num(i), num(j)) for j in range(m)] for i in range(n)]

    def bounds(side, kind):
        g = cx.meth(key, 'getFootBounds', 2)
        e = cx.eval()
        e.st = ev.st.copy()
        e.ntmp = ev.ntmp + 1000
        x = cx.run(g, lv, [side, kind], e)
        return x, entries(x.ret, 2, 2), cx.where(g)
    for n, v in sorted(kinds.items()):
        x, b, Wb = bounds(L, v)
        y, c, _ = bounds(R, v)
        nm = 'bounds of a foot ' + n.lower().replace('_', ' ')
        for i in range(2):
            for j in range(2):
                want = b[0][j] if i == 0 else neg(b[1][1 - j])
                cx.eq('%s: mirrored (%d,%d)' % (nm, i, j), c[i][j], want, [], Wb, 'the lateral axis changes sign and the bounds change places')
        for i in range(2):
            cx.holds('%s: lower bound below the upper (%d)' % (nm, i), le(b[i][0], b[i][1]), sane, Wb, 'for sane parameters')
            cx.holds('%s: lower bound below the upper on the right (%d)' % (nm, i), le(c[i][0], c[i][1]), sane, Wb, 'for sane parameters')
        if n == 'WITH_RESPECT_TO_SS':
            want = [[neg(p['max_step_len_']), p['max_step_len_']], [p['min_feet_dist_'], p['max_feet_dist_']]]
        else:
            want = [[ZERO, ZERO], [half(p['feet_dist_default_'])] * 2]
        for i in range(2):
            for j in range(2):
                cx.eq('%s: value (%d,%d)' % (nm, i, j), b[i][j], want[i][j], [], Wb, 'the configured distances')
    t = sym('kind', 'i')
    x, b, Wb = bounds(L, t)
    cx.eq('bounds of unknown kinds are refused', x.thrown(), neg_b(bor(*[eq(t, v) for v in kinds.values()])), [], Wb)
    for m, wide in (('getSSCoPBounds', half(p['foot_width_'])), ('getADSCoPBounds', half(add(p['foot_width_'], p['feet_dist_default_'])))):
        v = cx.get(key, lv, m, [], ev)
        g = cx.meth(key, m, 0)
        b = entries(v, 2, 2)
        for j, s in ((0, num(-1)), (1, ONE)):
            cx.eq('%s: along the foot (%d)' % (m, j), b[0][j], mul(s, half(p['foot_length_'])), [], cx.where(g), 'the support polygon')
            cx.eq('%s: across the foot (%d)' % (m, j), b[1][j], mul(s, wide), [], cx.where(g), 'the support polygon')
    # positions of feet and double supports
    M = setdims(sym(uid('R'), 'm'), 2, 2)
    q = setdims(sym(uid('p'), 'm'), 2, 1)
    Re, qe = entries(M, 2, 2), entries(q, 2, 1)
    pos = {}
    for nm, s in (('left', L), ('right', R)):
        g = cx.meth(key, 'getFootPositionFromADS', 3)
        h = cx.meth(key, 'getADSPositionFromFoot', 3)
        a = cx.get(key, lv, 'getFootPositionFromADS', [s, M, q], ev, 3)
        b = cx.get(key, lv, 'getADSPositionFromFoot', [s, M, q], ev, 3)
        back = cx.get(key, lv, 'getADSPositionFromFoot', [s, M, a], ev, 3)
        sign = ONE if nm == 'left' else num(-1)
        off = mul(sign, half(p['feet_dist_default_']))
        for i in range(2):
            cx.eq('%s foot of a double support (%d)' % (nm, i), elem(a, num(i), ZERO), add(qe[i][0], mul(Re[i][1], off)), [], cx.where(g), 'half of the feet distance to its side')
            cx.eq('double support of the %s foot (%d)' % (nm, i), elem(b, num(i), ZERO), sub(qe[i][0], mul(Re[i][1], off)), [], cx.where(h), 'half of the feet distance to the other side')
            cx.eq('double support of the %s foot of a double support (%d)' % (nm, i), elem(back, num(i), ZERO), qe[i][0], [], cx.where(h), 'the same double support')
    # defaults are consistent with the derived values
    f = cx.meth(key, 'setDefaults', 0)
    e1 = cx.eval()
    cx.run(f, lv, [], e1)
    d1 = e1.load(lv)
    e2 = cx.eval()
    e2.st = e1.st.copy()
    cx.run(cx.meth(key, 'finalize', 0), lv, [], e2)
    for side in (L, R):
        for n, v in sorted(kinds.items()):
            a, b = [cx.get(key, lv, 'getFootBounds', [side, v], e) for e in (e1, e2)]
            for i in range(2):
                for j in range(2):
                    cx.eq('defaults: derived bounds %s of side %s are up to date (%d,%d)' % (n, side, i, j), elem(a, num(i), num(j)), elem(b, num(i), num(j)), [], cx.where(f))
    for m in ('getSSCoPBounds', 'getADSCoPBounds'):
        a, b = [cx.get(key, lv, m, [], e) for e in (e1, e2)]
        for i in range(2):
            for j in range(2):
                cx.eq('defaults: %s are up to date (%d,%d)' % (m, i, j), elem(a, num(i), num(j)), elem(b, num(i), num(j)), [], cx.where(f))
    dd = {n: fld(d1, RF + '::' + n) for n in PARAMS}
    cx.holds('defaults: distances are sane', band(le(dd['min_feet_dist_'], dd['max_feet_dist_']), *[le(ZERO, x) for x in dd.values()]), [], cx.where(f))


def check(cx):
    cx.guard('sides', invert, cx)
    cx.guard('container', container, cx)
    cx.guard('feet', feet, cx)
