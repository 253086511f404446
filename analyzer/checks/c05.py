"""C05: active sets (and violations) move between solver, levels and tasks unchanged; guesses are reused only when valid."""
from .common import *
from .c04 import Seq, ASC, VIO, act, location
from . import c02


def loc(cx, ev, off, ln):
    return ev.tmp(location(cx, off, ln), cx.cls('humoto::Location'))


def is_loc(cx, i):
    return lambda f: cx.ptype(f, i).get('q') == 'humoto::Location'


def vmats(cx, v):
    for fd in cx.P.C[v.key]['fields']:
        if 'rows' in cx.P.strip(fd['t']):
            ev = cx.eval()
            setdims(ev.load(v.lv.sub(('f', VIO + '::' + fd['n'])), fd['t']), v.n, 1)


def same(cx, nm, q, obs, f, mk_args, mapping, facts, size=None, refuse=None):
    """run f on fresh containers and compare each observable element"""


def containers(cx, q, observers):
    short_ = q.split('::')[-1]
    off, ln = sym(uid('off'), 'u'), sym(uid('len'), 'u')
    r = sym(uid('r'), 'u')
    key = cx.cls(q)
    is_vio = q == VIO

    def new():
        s = Seq(cx, q)
        if is_vio:
            vmats(cx, s)
        return s

    def grp_copyTo():
        f = cx.meth(key, 'copyTo', 2, pred=is_loc(cx, 0))
        a, b = new(), new()
        ev = cx.eval()
        res = cx.run(f, a.lv, [loc(cx, ev, off, ln), b.lv], ev)
        w = cx.where(f)
        fa = [le(add(off, ln), a.n), eq(ln, b.n), le(ONE, ln)]
        cx.never('%s: copy into a range accepted' % short_, res.thrown(), fa, w)
        cx.holds('%s: copy outside the range refused' % short_, res.thrown(), [lt(a.n, add(off, ln)), eq(ln, b.n), le(ONE, ln)], w, 'rows outside the set are never written')
        for m in observers:
            cx.eq('%s: copy into a range, %s' % (short_, m), a.at(r, ev, m), ite(within(r, off, ln), b.at(sub(r, off), None, m), a.at(r, None, m)),
                  fa + [lt(r, a.n)], w, 'row r of the target is row r-offset of the source, others are untouched')
        cx.eq('%s: copy into a range keeps the size' % short_, a.size(ev), a.n, fa, w)

    def grp_copyFrom():
        for name in ('copyFrom', 'initialize'):
            f = cx.meth(key, name, 2, pred=is_loc(cx, 1))
            a, b = new(), new()
            ev = cx.eval()
            res = cx.run(f, a.lv, [b.lv, loc(cx, ev, off, ln)], ev)
            w = cx.where(f)
            fa = [le(add(off, ln), b.n), le(ONE, ln)] + ([eq(ln, a.n)] if name == 'copyFrom' else [])
            cx.never('%s: %s a range accepted' % (short_, name), res.thrown(), fa, w)
            cx.holds('%s: %s outside the source refused' % (short_, name), res.thrown(), [lt(b.n, add(off, ln)), le(ONE, ln)], w, 'rows outside the source are never read')
            if name == 'copyFrom':
                cx.holds('%s: %s with a different length refused' % (short_, name), res.thrown(), [neg_b(eq(a.n, ln))], w)
            for m in observers:
                cx.eq('%s: %s a range, %s' % (short_, name, m), a.at(r, ev, m), b.at(add(off, r), None, m), fa + [lt(r, ln)], w, 'row r is row offset+r of the source')
            cx.eq('%s: %s gives the length of the range' % (short_, name), a.size(ev), ln, fa, w)

    def grp_index():
        for m in observers:
            a = new()
            f = cx.meth(key, m, 1)
            ev = cx.eval()
            res = cx.run(f, a.lv, [r], ev)
            cx.eq('%s: %s out of range refused' % (short_, m), res.thrown(), neg_b(lt(r, a.n)), [], cx.where(f), 'exactly the indices below the size are accepted')

    cx.guard(short_ + ' copyTo', grp_copyTo)
    cx.guard(short_ + ' copyFrom', grp_copyFrom)
    cx.guard(short_ + ' index', grp_index)


def fills(cx):
    off, ln, r = sym(uid('off'), 'u'), sym(uid('len'), 'u'), sym(uid('r'), 'u')
    ty = sym(uid('type'), 'e')
    ENUM[ty] = 'humoto::ConstraintActivationType::Type'
    key = cx.cls(ASC)
    a = Seq(cx, ASC)
    f = cx.meth(key, 'set', 1)
    ev = cx.eval()
    res = cx.run(f, a.lv, [ty], ev)
    cx.never('set all accepted', res.thrown(), [le(ONE, a.n)], cx.where(f))
    cx.eq('set all', a.at(r, ev), ty, [lt(r, a.n)], cx.where(f), 'every row gets the type')
    cx.eq('set all keeps the size', a.size(ev), a.n, [], cx.where(f))
    f = cx.meth(key, 'set', 2)
    ev = cx.eval()
    res = cx.run(f, a.lv, [loc(cx, ev, off, ln), ty], ev)
    fa = [le(add(off, ln), a.n), le(ONE, ln)]
    cx.never('set range accepted', res.thrown(), fa, cx.where(f))
    cx.holds('set outside refused', res.thrown(), [lt(a.n, add(off, ln)), le(ONE, ln)], cx.where(f))
    cx.eq('set range', a.at(r, ev), ite(within(r, off, ln), ty, a.at(r)), fa + [lt(r, a.n)], cx.where(f), 'exactly the rows of the range get the type')
    f = cx.meth(key, 'initialize', 2, pred=lambda f: cx.ptype(f, 0)['k'] == 'int')
    ev = cx.eval()
    cx.run(f, a.lv, [ln, ty], ev)
    cx.eq('initialize with a type: size', a.size(ev), ln, [], cx.where(f))
    cx.eq('initialize with a type', a.at(r, ev), ty, [lt(r, ln)], cx.where(f), 'no row keeps an old value')
    f = cx.meth(key, 'initialize', 1)
    ev = cx.eval()
    cx.run(f, a.lv, [ln], ev)
    cx.eq('initialize: size', a.size(ev), ln, [], cx.where(f))
    cx.eq('initialize', a.at(r, ev), act(cx, 'UNDEFINED'), [lt(r, ln)], cx.where(f), 'rows start undefined, no stale activation')
    f = cx.meth(key, 'shift', 2)
    ev = cx.eval()
    k = sym(uid('k'), 'u')
    res = cx.run(f, a.lv, [k, ty], ev)
    cx.eq('shift refused iff it exceeds the size', res.thrown(), lt(a.n, k), [], cx.where(f))
    cx.eq('shift', a.at(r, ev), ite(lt(add(r, k), a.n), a.at(add(r, k)), ty), [le(k, a.n), lt(r, a.n)], cx.where(f), 'row r takes row r+k, the tail the given type')
    cx.eq('shift keeps the size', a.size(ev), a.n, [le(k, a.n)], cx.where(f))
    f = cx.meth(key, 'reset', 0)
    ev = cx.eval()
    cx.run(f, a.lv, [], ev)
    cx.eq('reset empties', a.size(ev), ZERO, [], cx.where(f))
    f = cx.meth(key, 'countActiveInequalities', 0)
    ev = cx.eval()
    res = cx.run(f, a.lv, [], ev)
    j = fresh('j', 'i')
    e = a.at(j)
    L, U = act(cx, 'LOWER_BOUND'), act(cx, 'UPPER_BOUND')
    cx.eq('active inequalities counted', res.ret, sumk(j, a.n, ite(bor(eq(e, L), eq(e, U)), ONE, ZERO)), [], cx.where(f), 'rows at a lower or an upper bound, each once')


def zeros(cx):
    key = cx.cls(VIO)
    off, ln, r = sym(uid('off'), 'u'), sym(uid('len'), 'u'), sym(uid('r'), 'u')
    for np in (0, 1):
        f = cx.meth(key, 'setZero', np)
        v = Seq(cx, VIO)
        vmats(cx, v)
        ev = cx.eval()
        cx.run(f, v.lv, [loc(cx, ev, off, ln)] if np else [], ev)
        fa = [lt(r, v.n)] + ([le(add(off, ln), v.n), le(ONE, ln)] if np else [])
        for m in ('operator[]', 'getLower', 'getUpper'):
            cx.eq('violations %s zeroed, %s' % ('of a range' if np else '', m), v.at(r, ev, m), ite(within(r, off, ln), ZERO, v.at(r, None, m)) if np else ZERO, fa, cx.where(f))


def hierarchy_sets(cx):
    for q in ('humoto::ActiveSet', 'humoto::Violations'):
        key = cx.cls(q)
        f = cx.meth(key, 'initialize', 2)
        ev = cx.eval()
        lv = LV(uid('hs'), (), key)
        cnt = LV(uid('counts'))
        c = ev.load(cnt)
        TYPE[c] = 'v'
        L, i = sym(uid('levels'), 'u'), sym(uid('i'), 'u')
        cx.run(f, lv, [L, cnt], ev)
        w = cx.where(f)
        cx.eq('%s: number of levels' % q, cx.get(key, lv, 'size', ev=ev), L, [], w)
        inner = LV(uid('lev'))
        lev = cx.get(key, lv, 'operator[]', args=[i], ev=ev)
        ik = cx.cls(ASC if q.endswith('ActiveSet') else VIO)
        e2 = cx.eval()
        e2.st.heap[inner.root] = lev
        n = cx.get(ik, LV(inner.root, (), ik), 'size', ev=e2)
        want = vsel(c, i)
        TYPE[want] = 'u'
        cx.eq('%s: rows of a level' % q, n, want, [lt(i, L)], w, 'level i gets counts[i] rows')
        f = cx.meth(key, 'operator[]', 1)
        lv = LV(uid('hs'), (), key)
        n = cx.get(key, lv, 'size')
        TYPE.setdefault(n, 'u')
        res = cx.run(f, lv, [i])
        cx.eq('%s: wrong level refused' % q, res.thrown(), neg_b(lt(i, n)), [], cx.where(f))


def guess(cx):
    """TaskBase: default guess, reuse of the previous active set"""
    key = cx.cls('humoto::TaskBase')
    tb = None
    lv = LV(uid('task'), (), key)
    n = sym(uid('n'), 'u')
    e = sym(uid('equality'), 'b')
    f = cx.meth(key, 'guessActiveSet', 3)
    w = cx.where(f)

    def hook(ev, g, this, args, node):
        if g['n'] == 'getNumberOfConstraints' and this.root == lv.root and not this.path:
            return n
        if g['n'] == 'isEquality' and this.root == lv.root and not this.path:
            return e
        return NotImplemented

    fld_ = {}
    for fd in cx.P.C[key]['fields']:
        fld_[fd['n']] = lv.sub(('f', 'humoto::TaskBase::' + fd['n']))
    ask = cx.cls(ASC)
    actual = cx.meth(key, 'getActualActiveSet', 0)
    gs = cx.meth(key, 'getActiveSetGuess', 0)
    unm = cx.meth(key, 'markAsUnmodified', 0)
    pre = cx.meth(key, 'preForm', 1)
    r = sym(uid('r'), 'u')

    def seqof(ev, g):
        e2 = cx.eval()
        e2.st = ev.st.copy()
        e2.ntmp, e2.nframe = ev.ntmp + 5000, ev.nframe + 5000
        x = e2.call_body(g, lv, [], {'k': 'call'})
        v = e2.rv(x)
        t = LV(uid('view'), (), ask)
        e3 = cx.eval()
        e3.st.heap[t.root] = v
        sz = cx.get(ask, t, 'size', ev=e3)
        el = cx.get(ask, t, 'operator[]', args=[r], ev=e3)
        return sz, el

    for modified in (True, False):
        ev = cx.eval()
        ev.objhook = hook
        a_n, a_r = seqof(ev, actual)
        TYPE.setdefault(a_n, 'u')
        cx.run(pre, lv, [sym(uid('nv'), 'u')], ev)
        if not modified:
            cx.run(unm, lv, [], ev)
        k0 = len(ev.throws)
        cx.run(f, lv, [LV(uid('s')), LV(uid('m')), LV(uid('c'))], ev)
        thr = bor(*[t[0] for t in ev.throws[k0:]])
        g_n, g_r = seqof(ev, gs)
        dflt = ite(e, act(cx, 'EQUALITY'), act(cx, 'INACTIVE'))
        if modified:
            cx.never('guess of a modified task: accepted', thr, [], w)
            cx.eq('guess of a modified task: size', g_n, n, [], w, 'one entry per constraint')
            cx.eq('guess of a modified task', g_r, dflt, [lt(r, n)], w, 'a modified task never reuses an old active set')
        else:
            cx.eq('guess of an unmodified task: size change refused', thr, band(neg_b(eq(a_n, ZERO)), neg_b(eq(a_n, n))), [], w)
            ok = [neg_b(thr), lt(r, n)]
            cx.eq('guess of an unmodified task: size', g_n, n, ok, w)
            cx.eq('guess of an unmodified task', g_r, ite(eq(a_n, ZERO), dflt, a_r), ok, w, 'the previous active set is reused verbatim')
    # actual set stored, guess exported
    s = Seq(cx, ASC)
    off, ln = sym(uid('off'), 'u'), sym(uid('len'), 'u')
    f = cx.meth(key, 'copyActualActiveSetFrom', 2)
    ev = cx.eval()
    res = cx.run(f, lv, [s.lv, loc(cx, ev, off, ln)], ev)
    fa = [le(add(off, ln), s.n), le(ONE, ln)]
    a_n, a_r = seqof(ev, actual)
    cx.eq('actual active set: size', a_n, ln, fa, cx.where(f))
    cx.eq('actual active set', a_r, s.at(add(off, r)), fa + [lt(r, ln)], cx.where(f), 'a task receives its own rows')
    f = cx.meth(key, 'copyActiveSetGuessTo', 2)
    ev = cx.eval()
    g_n, g_r = seqof(ev, gs)
    TYPE.setdefault(g_n, 'u')
    res = cx.run(f, lv, [s.lv, loc(cx, ev, off, ln)], ev)
    fa = [le(add(off, ln), s.n), le(ONE, ln), eq(g_n, ln)]
    i2 = sym(uid('i'), 'u')
    cx.eq('guess exported', s.at(add(off, r), ev), g_r, fa + [lt(r, ln)], cx.where(f), 'the guess of a task lands in its own rows')
    cx.eq('guess exported: other rows', s.at(i2, ev), s.at(i2), fa + [lt(i2, s.n), neg_b(within(i2, off, ln))], cx.where(f))
    # postForm accepts only matching guesses
    f = cx.meth(key, 'postForm', 0)
    ev = cx.eval()

    def hook2(ev_, g, this, args, node):
        if g['n'] == 'checkConsistency':
            return mk('void')
        return hook(ev_, g, this, args, node)
    ev.objhook = hook2
    g_n, g_r = seqof(ev, gs)
    res = cx.run(f, lv, [], ev)
    cx.eq('guess of a wrong size refused', res.thrown(), band(neg_b(eq(g_n, ZERO)), neg_b(eq(g_n, n))), [], cx.where(f), 'a formed task has no guess or one entry per constraint')


def problem(cx, L):
    """routing between the levels of a problem and the per-level sets"""
    q = 'humoto::OptimizationProblem'
    key = cx.cls(q)
    lv = LV(uid('problem'), (), key)
    ev = cx.eval()
    ev.st.heap[lv.root] = mk('default', q)
    cx.run(cx.fn(q + '::OptimizationProblem', 0), lv, [], ev)
    cx.run(cx.meth(key, 'reset', 1), lv, [num(L)], ev)
    tasks = [c02.GTask(i, False) for i in range(L)]
    w = c02.World(cx, tasks, sym(uid('nv'), 'u'))
    calls = []
    lvl = c02.HL
    counts = [t.n for t in tasks]

    def hook(ev_, g, this, args, node):
        if g.get('clsq') == lvl and isinstance(this, LV) and this.path and this.path[-1][0] == 'i' and this.root == lv.root:
            i = this.path[-1][1]
            nm = g['n']
            if nm == 'getNumberOfConstraints':
                for k in range(L):
                    if i is num(k):
                        return counts[k]
                return mk('opaque', 'symbolic level')
            if nm in ('form', 'guessActiveSet', 'processActiveSet', 'determineActiveSet', 'computeViolations'):
                dst = args[0].path[-1][1] if isinstance(args[0], LV) and args[0].path and args[0].path[-1][0] == 'i' else None
                size = None
                if isinstance(args[0], LV) and args[0].cls in (cx.P.C and (cx.cls(ASC), cx.cls(VIO))):
                    size = cx.get(args[0].cls, args[0], 'size', ev=ev_)
                calls.append((nm, i, dst, band(*ev_.gate), [x if isinstance(x, LV) else ev_.rv(x) for x in args], size, [ev_.rv(x) for x in args]))
                return mk('void')
            if nm == 'pushTask':
                calls.append((nm, i, None, band(*ev_.gate), [ev_.rv(x) for x in args], None))
                return mk('void')
        if g['n'] in ('initSolutionStructure', 'guessSolution'):
            calls.append((g['n'], None, None, band(*ev_.gate), [x if isinstance(x, LV) else ev_.rv(x) for x in args], None))
            return mk('void')
        return NotImplemented

    def fork():
        e = cx.eval()
        e.st = ev.st.copy()
        e.ntmp, e.nframe = ev.ntmp + 1000, ev.nframe + 1000
        e.objhook = hook
        calls[:] = []
        return e
    nm = 'hierarchy of %d levels' % L
    # pushTask
    f = cx.meth(key, 'pushTask', 2)
    i = sym(uid('level'), 'u')
    e = fork()
    p = sym(uid('ptr'), 'p')
    res = cx.run(f, lv, [p, i], e)
    cx.eq(nm + ': pushing to a wrong level refused', res.thrown(), neg_b(lt(i, num(L))), [], cx.where(f), 'only existing levels accept tasks')
    for k in range(L):
        e = fork()
        cx.run(f, lv, [p, num(k)], e)
        ok = [c for c in calls if c[0] == 'pushTask']
        cx.require(nm + ': task pushed to level %d' % k, len(ok) == 1 and ok[0][1] is num(k) and ok[0][4][0] is p, cx.where(f), repr([(c[1],) for c in ok]), 'a task lands on the requested level')
    if L == 0:
        f = cx.meth(key, 'formHierarchy', 4)
        e = fork()
        res = cx.run(f, lv, [LV(uid('s')), LV(uid('m')), LV(uid('c')), FALSE], e)
        cx.holds(nm + ': forming an empty hierarchy refused', res.thrown(), [], cx.where(f))
        return
    f = cx.meth(key, 'formHierarchy', 4)
    W = cx.where(f)
    g = sym(uid('guess'), 'b')
    e = fork()
    sol, mod, cp = LV(uid('s')), LV(uid('m')), LV(uid('c'))
    res = cx.run(f, lv, [sol, mod, cp, g], e)
    order = [c for c in calls if c[0] in ('initSolutionStructure', 'form')]
    cx.require(nm + ': the solution structure is set up before any level is formed', order and order[0][0] == 'initSolutionStructure' and sum(c[0] == 'initSolutionStructure' for c in order) == 1, W,
               ' '.join(c[0] for c in order), 'levels see the structure of the current problem')
    fs = [c for c in calls if c[0] == 'form']
    cx.require(nm + ': every level is formed once', sorted(str(c[1]) for c in fs) == sorted(str(num(k)) for k in range(L)), W, repr(len(fs)), 'each level is formed exactly once')
    for c in fs:
        cx.holds(nm + ': a level is formed unconditionally', c[3], [], W)
    for c in fs:
        cx.eq(nm + ': guessing flag reaches the level', c[6][3], g, [], W)
    formed = e
    for m, q2 in (('guessActiveSet', 'humoto::ActiveSet'), ('determineActiveSet', 'humoto::ActiveSet'), ('computeViolations', 'humoto::Violations'), ('initializeActiveSet', 'humoto::ActiveSet')):
        k2 = cx.cls(q2)
        f = cx.meth(key, m, 1 if m in ('guessActiveSet', 'initializeActiveSet') else 2)
        e = fork()
        e.st = formed.st.copy()
        e.ntmp, e.nframe = formed.ntmp + 1000, formed.nframe + 1000
        s = LV(uid('set'), (), k2)
        cx.run(f, lv, [s] + ([LV(uid('x'))] if len(f['params']) == 2 else []), e)
        w_ = cx.where(f)
        cx.eq('%s: %s has all levels' % (nm, m), cx.get(k2, s, 'size', ev=e), num(L), [], w_)
        if m != 'initializeActiveSet':
            got = [c for c in calls if c[0] == m]
            cx.require('%s: %s visits each level once' % (nm, m), sorted(str(c[1]) for c in got) == sorted(str(num(k)) for k in range(L)), w_, '%d visits' % len(got))
            for c in got:
                if c[2] is not None:
                    cx.eq('%s: %s pairs level with its own rows' % (nm, m), c[2], c[1], [], w_, 'level i writes to set i')
        ik = cx.cls(ASC if q2.endswith('ActiveSet') else VIO)
        for k in range(L):
            lev = cx.get(k2, s, 'operator[]', args=[num(k)], ev=e)
            t = LV(uid('lev'), (), ik)
            e3 = cx.eval()
            e3.st.heap[t.root] = lev
            cx.eq('%s: %s level %d has one row per constraint' % (nm, m, k), cx.get(ik, t, 'size', ev=e3), counts[k], [], w_)
    f = cx.meth(key, 'processActiveSet', 1)
    e = fork()
    k2 = cx.cls('humoto::ActiveSet')
    s = LV(uid('set'), (), k2)
    n = cx.get(k2, s, 'size')
    TYPE.setdefault(n, 'u')
    res = cx.run(f, lv, [s], e)
    cx.holds(nm + ': active set with a wrong number of levels refused', res.thrown(), [neg_b(eq(n, num(L)))], cx.where(f))
    cx.never(nm + ': matching active set accepted', res.thrown(), [eq(n, num(L))], cx.where(f))
    got = [c for c in calls if c[0] == 'processActiveSet']
    cx.require('%s: processActiveSet visits each level once' % nm, sorted(str(c[1]) for c in got) == sorted(str(num(k)) for k in range(L)), cx.where(f), '%d visits' % len(got))
    for c in got:
        if c[2] is not None:
            cx.eq('%s: processActiveSet pairs level with its own rows' % nm, c[2], c[1], [], cx.where(f))
    # the public form overloads
    for f in cx.P.methods(key, 'form'):
        if 'body' not in f:
            continue
        e = fork()
        pq = [cx.ptype(f, i).get('q') for i in range(len(f['params']))]
        args = []
        for j, q2 in enumerate(pq):
            args.append(LV(uid('a'), (), cx.ptype(f, j).get('key')))
        cx.run(f, lv, args, e)
        fs = [c for c in calls if c[0] == 'form']
        hasg = 'humoto::ActiveSet' in pq
        sig = ', '.join(x.split('::')[-1] for x in pq)
        for c in fs:
            cx.eq('%s: form(%s) guesses active sets iff one is returned' % (nm, sig), c[6][3], TRUE if hasg else FALSE, [], cx.where(f))
        ga = [c for c in calls if c[0] == 'guessActiveSet']
        cx.require('%s: form(%s) fills the guess' % (nm, sig), len(ga) == (L if hasg else 0), cx.where(f), '%d levels guessed' % len(ga))
        gsol = [c for c in calls if c[0] == 'guessSolution']
        want = pq.count('humoto::Solution') == 3
        if cx.require('%s: form(%s) guesses the solution iff one is returned' % (nm, sig), len(gsol) == (1 if want else 0), cx.where(f), '%d guesses' % len(gsol)) == 'proved' and want:
            sols = [a for a, q2 in zip(args, pq) if q2 == 'humoto::Solution']
            a = gsol[0][4]
            cx.require('%s: form(%s) passes guess and old solution' % (nm, sig), isinstance(a[0], LV) and isinstance(a[1], LV) and a[0].root == sols[1].root and a[1].root == sols[2].root,
                       cx.where(f), '', 'the old solution is the source, the guess the target')
            isol = [c for c in calls if c[0] == 'initSolutionStructure']
            cx.require('%s: form(%s) initializes the solution' % (nm, sig), len(isol) == 1 and isinstance(isol[0][4][0], LV) and isol[0][4][0].root == sols[0].root, cx.where(f))


def check(cx):
    containers(cx, ASC, ('operator[]',))
    containers(cx, VIO, ('operator[]', 'getLower', 'getUpper'))
    cx.guard('fills', fills, cx)
    cx.guard('zeros', zeros, cx)
    cx.guard('hierarchy sets', hierarchy_sets, cx)
    cx.guard('guess', guess, cx)
    for L in (0, 1, 2, 3) if cx.tier == 'quick' else range(0, 6):
        cx.guard('problem %d' % L, problem, cx, L)
