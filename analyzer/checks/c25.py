"""C25: every form of a task has its kind, its shapes after a reset, and is refused exactly when its parts do not fit together."""
from .common import *
from .c05 import act

ASC = 'humoto::ActiveSetConstraints'
FORMS = [(a, b) for a in BODIES for b in BOUNDS]


def rows(v):
    return dims(v)[0] if is_mat(v) or v in DIMS else vsize(v)


def parts(body, bound):
    r = [('getA', None)] if body in ('A', 'AS') else [('getIndices', 'I')] + ([('getIGains', 'g')] if body == 'GI' else [])
    return r, [('getLowerBounds', 'l')] * (bound in ('LU', 'L')) + [('getUpperBounds', 'u')] * (bound in ('LU', 'U')) + [('getB', 'b')] * (bound == 'B')


def kinds(cx, body, bound):
    key = task_key(cx.P, body, bound)
    lv = LV(uid('task'), (), key)
    nm = body + bound
    for m, want in (('isEquality', bound in ('B', 'B0')), ('isSimple', body in ('I', 'GI')), ('isTwoSidedInequality', bound == 'LU')):
        f = cx.meth(key, m, 0)
        r = cx.run(f, lv, [])
        cx.eq('%s: %s' % (nm, m), r.ret, TRUE if want else FALSE, [], cx.where(f), 'follows from the bounds and the body of the form')
        cx.never('%s: %s refused' % (nm, m), r.thrown(), [], cx.where(f))


def counted(cx, body, bound):
    """number of constraints is the number of rows, whatever the rows are"""
    t = Task(cx, body, bound)
    f = cx.meth(t.key, 'getNumberOfConstraints', 0)
    cx.eq('%s: number of constraints' % t.name, cx.run(f, t.lv, []).ret, t.n, t.facts, cx.where(f), 'one constraint per row')


def resets(cx, key, nm, body, bound):
    f = cx.meth(key, 'reset', 3)
    W = cx.where(f)
    n, nv = sym(uid('n'), 'u'), sym(uid('nv'), 'u')
    i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
    for init in (TRUE, FALSE):
        lv = LV(uid('task'), (), key)
        ev = cx.eval()
        r = cx.run(f, lv, [n, nv, init], ev)
        what = '%s: reset%s' % (nm, ' with initialization' if init is TRUE else '')
        cx.never(what + ': refused', r.thrown(), [], W)
        g = lambda m: cx.get(key, lv, m, ev=ev)
        cx.eq(what + ': number of variables', g('getNumberOfVariables'), nv, [], W)
        inb = [lt(i, n), lt(j, nv)]
        if body in ('A', 'AS'):
            A = g('getA')
            cx.eq(what + ': rows of A', dims(A)[0], n, [], W)
            cx.eq(what + ': columns of A', dims(A)[1], nv, [], W)
            if init is TRUE:
                cx.eq(what + ': A', elem(A, i, j), ZERO, inb, W, 'initialized with zeros')
        else:
            cx.eq(what + ': number of indices', rows(g('getIndices')), n, [], W)
            if body == 'GI':
                cx.eq(what + ': number of gains', dims(g('getIGains'))[0], n, [], W)
                cx.eq(what + ': gains', elem(g('getIGains'), i, ZERO), ONE, inb, W, 'neutral gains, whatever they were before')
        if body == 'AS':
            cx.eq(what + ': offset', g('getOffset'), ZERO, [], W, 'a new matrix covers all variables')
        for m, k in parts(body, bound)[1]:
            v = g(m)
            cx.eq('%s: %s: size' % (what, m), dims(v)[0], n, [], W)
            if init is TRUE:
                cx.eq('%s: %s' % (what, m), elem(v, i, ZERO), {'l': neg(INF), 'u': INF, 'b': ZERO}[k], inb, W, 'initialized bounds do not restrict anything')


def refused(cx, nm, thr, ok, facts, W, rule):
    """refused exactly when one of the conditions does not hold"""
    cx.never(nm + ': in vain', thr, facts + ok, W, rule)
    for j, c in enumerate(ok):
        cx.holds('%s: condition %d' % (nm, j + 1), thr, facts + ok[:j] + ok[j + 1:] + [neg_b(c)], W, rule)


def consistent(cx, body, bound):
    """sizes of all parts are arbitrary and independent of each other"""
    key = task_key(cx.P, body, bound)
    lv = LV(uid('task'), (), key)
    nm = body + bound
    n = sym(uid('n'), 'u')
    nv = cx.get(key, lv, 'getNumberOfVariables')
    TYPE[nv] = 'u'
    ok, facts = [], []
    if body in ('A', 'AS'):
        k = sym(uid('cols'), 'u')
        setdims(cx.get(key, lv, 'getA'), n, k)
        ok.append(lt(ZERO, k))
        if body == 'A':
            ok.append(eq(k, nv))
        else:
            off = cx.get(key, lv, 'getOffset')
            facts.append(le(ZERO, off))
            ok.append(le(add(k, off), nv))
    else:
        setdims(cx.get(key, lv, 'getIndices'), n, 1)
        if body == 'GI':
            g = sym(uid('gains'), 'u')
            setdims(cx.get(key, lv, 'getIGains'), g, 1)
            ok.append(eq(g, n))
    for m, x in parts(body, bound)[1]:
        s = sym(uid('rows_' + x), 'u')
        setdims(cx.get(key, lv, m), s, 1)
        ok.append(eq(s, n))
    f = cx.meth(key, 'checkConsistency', 0)
    r = cx.run(f, lv, [])
    refused(cx, '%s: refused when sizes do not match' % nm, r.thrown(), ok, facts, cx.where(f), 'bounds, gains and columns fit the rows and the variables')
    # the task refuses in the same cases, and when its guess has another number of entries
    base = cx.cls('humoto::TaskBase')
    post = cx.meth(key, 'postForm', 0)
    gs = cx.meth(base, 'getActiveSetGuess', 0)
    ask = cx.cls(ASC)
    ini = cx.meth(ask, 'initialize', 2, pred=lambda g: cx.ptype(g, 0).get('k') != 'rec')
    m = sym(uid('entries'), 'u')
    ev = cx.eval()
    x = ev.call_body(gs, LV(lv.root, lv.path, base), [], {'k': 'call'})
    ev.call_body(ini, LV(x.root, x.path, ask), [m, act(cx, 'INACTIVE')], {'k': 'call'})
    n0 = len(ev.throws)
    cx.run(post, lv, [], ev)
    thr = bor(*[t[0] for t in ev.throws[n0:]])
    refused(cx, '%s: task refused after it has been formed' % nm, thr, ok + [bor(eq(m, ZERO), eq(m, n))], facts, cx.where(post), 'malformed tasks and guesses of a wrong size never reach a solver')


def check(cx):
    for a, b in FORMS:
        cx.guard('%s%s: kind' % (a, b), kinds, cx, a, b)
        cx.guard('%s%s: number of constraints' % (a, b), counted, cx, a, b)
        cx.guard('%s%s: reset' % (a, b), resets, cx, task_key(cx.P, a, b), a + b, a, b)
        cx.guard('%s%s: consistency' % (a, b), consistent, cx, a, b)
    for k, a, b in (('ALU', 'A', 'LU'), ('AL', 'A', 'L'), ('AB', 'A', 'B'), ('ILU', 'I', 'LU')):
        cx.guard('container %s: reset' % k, resets, cx, cx.cls(CONT + k), 'container ' + k, a, b)
