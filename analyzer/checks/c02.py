"""C02: on every hierarchy level the rows of the tasks form a partition that all users of the level agree on."""
import itertools
from .common import *

HL = 'humoto::HierarchyLevel'


class GTask(object):
    """an abstract task: nothing is known but its constraint count and kind"""

    def __init__(self, i, simple):
        u = uid('t')
        self.i = i
        self.p = sym(u + '.ptr', 'p')
        self.simple = simple
        self.n = sym(u + '.n', 'u')
        self.e = sym(u + '.equality', 'b')
        self.two = sym(u + '.twosided', 'b')
        self.name = 'task%d(%s)' % (i, 'simple' if simple else 'general')
        self.M = self.v = None

    def mats(self, nv):
        if self.M is None:
            self.M = sym(uid('M'), 'm', (nv, nv))
            self.v = sym(uid('v'), 'm', (nv, ONE))
        return self.M, self.v


class World(object):
    """interpretation of calls on abstract tasks"""

    def __init__(self, cx, tasks, nv):
        self.cx, self.tasks, self.nv = cx, tasks, nv
        self.known0 = set()
        self.log = []           # (task, method name, condition, args)
        self.by = {('deref', t.p): t for t in tasks}
        self.facts = []
        for t in tasks:
            self.facts.append(neg_b(band(t.e, t.two)))
            self.facts.append(le(ONE, t.n))
        for a, b in itertools.combinations(tasks, 2):
            self.facts.append(neg_b(eq(a.p, b.p)))

    def hook(self, ev, f, this, args, n):
        if not isinstance(this, LV) or this.path or this.root not in self.by:
            return NotImplemented
        t = self.by[this.root]
        nm = f['n']
        if nm == 'isSimple':
            return TRUE if t.simple else FALSE
        if nm == 'isEquality':
            return t.e
        if nm == 'isTwoSidedInequality':
            return t.two
        if nm == 'getNumberOfConstraints':
            return t.n
        vals = [a if isinstance(a, LV) else ev.rv(a) for a in args]
        cond = band(*ev.gate)
        known = {k for k, v in ev.st.known.items() if v is TRUE} - self.known0
        self.log.append((t, nm, cond, [ev.rv(a) for a in args], known))
        if nm == 'copyTo':
            co, off = args[0], ev.rv(args[1])
            q = self.cx.P.strip(f['params'][0]['t']).get('q', '')
            rows = t.n
            if q == CONT + 'AL':
                rows = ite(t.two, scale(t.n, 2), t.n)
            own = co.sub(('f', '$own'))
            setdims(ev.load(own), sym('$R', 'u'), 1)
            ev.store(own, mstore(ev.load(own), off, ZERO, rows, ONE, mk('mconst', num(t.i + 1), rows, ONE)))
            src = co.sub(('f', '$src'))
            setdims(ev.load(src), sym('$R', 'u'), 1)
            ev.store(src, mstore(ev.load(src), off, ZERO, rows, ONE, mk('mconst', off, rows, ONE)))
            return add(off, rows)
        if nm in ('getATAandATb', 'addATAandATb'):
            M, v = t.mats(self.nv)
            for a, x in zip(args, (M, v)):
                old = ev.load(a)
                if nm == 'addATAandATb':
                    x = madd(old, x) if is_mat(old) else mk('opaque', 'add to unset objective')
                ev.store(a, x)
            return mk('void')
        if nm in ('preForm', 'form', 'postForm', 'guessActiveSet', 'copyActiveSetGuessTo', 'copyActualActiveSetFrom',
                  'determineActiveSet', 'computeViolations'):
            return mk('void')
        return NotImplemented


def new_level(cx, world):
    key = cx.cls(HL)
    ev = cx.eval()
    ev.objhook = world.hook
    lv = LV(uid('level'), (), key)
    ctor = cx.fn(HL + '::HierarchyLevel', 0)
    ev.st.heap[lv.root] = mk('default', HL)
    cx.run(ctor, lv, [], ev)
    push = cx.meth(key, 'pushTask', 1)
    for t in world.tasks:
        cx.run(push, lv, [t.p], ev)
    return key, lv, ev


def structure(cx, ev):
    key = cx.cls('humoto::SolutionStructure')
    lv = LV(uid('structure'), (), key)
    nv = cx.get(key, lv, 'getNumberOfVariables')
    TYPE[nv] = 'u'
    return lv, nv


def before(ts, t):
    """rows of the tasks that must precede t: general ones first, then simple ones"""
    return None


def fork(cx, ev, world):
    e = cx.eval()
    e.st = ev.st.copy()
    e.ntmp, e.nframe = ev.ntmp + 1000, ev.nframe + 1000
    e.objhook = world.hook
    return e


def locfield(cx, rec, name):
    key = cx.cls('humoto::Location')
    for f in cx.P.C[key]['fields']:
        if f['n'].startswith(name):
            v = fld(rec, 'humoto::Location::' + f['n'])
            if isinstance(v, T) and v.op not in ('num', 'poly'):
                TYPE.setdefault(v, 'u')
            return v
    raise Missing('Location::' + name)


def total(ts, cond=lambda t: TRUE, rows=lambda t: t.n):
    return add(ZERO, *[ite(cond(t), rows(t), ZERO) for t in ts])


def scenario(cx, flags, nm, again=False):
    tasks = [GTask(i, s) for i, s in enumerate(flags)]
    key = cx.cls(HL)
    sv, nv = structure(cx, None)
    w = World(cx, tasks, nv)
    key, lv, ev = new_level(cx, w)
    if ev.throws:
        cx.never(nm + ': tasks can be pushed', bor(*[t[0] for t in ev.throws]), w.facts, HL + '::pushTask')
    form = cx.meth(key, 'form', 4)
    W = cx.where(form)
    guess = sym(uid('guess'), 'b')
    if again:
        # an earlier iteration with other row counts must leave no trace
        now = [t.n for t in tasks]
        old = []
        for t in tasks:
            t.n = sym(uid('t') + '.n_before', 'u')
            old.append(le(ONE, t.n))
        cx.run(form, lv, [sv, LV(uid('model')), LV(uid('cp')), sym(uid('guess'), 'b')], ev)
        for t, n in zip(tasks, now):
            t.n = n
        w.facts += old
        w.known0 = {k for k, v in ev.st.known.items() if v is TRUE}
    w.log = []
    n0 = len(ev.throws)
    res = cx.run(form, lv, [sv, LV(uid('model')), LV(uid('cp')), guess], ev)
    thr = bor(*[t[0] for t in ev.throws[n0:]])
    if not tasks:
        cx.holds(nm + ': an empty level is refused', thr, [], W)
        return
    cx.never(nm + ': forming succeeds', thr, w.facts, W, 'forming a non-empty level does not throw')
    cx.guard(nm + ' phases', phases, cx, nm, w, guess, nv, W)

    # counters
    for m, want in (('getNumberOfConstraints', total(tasks)),
                    ('getNumberOfSimpleConstraints', total(tasks, lambda t: TRUE if t.simple else FALSE)),
                    ('getNumberOfGeneralConstraints', total(tasks, lambda t: FALSE if t.simple else TRUE)),
                    ('getNumberOfEqualityConstraints', total(tasks, lambda t: t.e)),
                    ('getNumberOfInequalityConstraints', total(tasks, lambda t: neg_b(t.e))),
                    ('getNumberOfInequalityConstraintsOneSided', total(tasks, lambda t: neg_b(t.e), lambda t: ite(t.two, scale(t.n, 2), t.n)))):
        cx.eq('%s: %s' % (nm, m), cx.get(key, lv, m, ev=ev), want, w.facts, W, 'row counters equal the sums over the tasks')
    cx.eq(nm + ': isEquality', cx.get(key, lv, 'isEquality', ev=ev), band(*[t.e for t in tasks]), w.facts, W, 'a level is an equality level iff every row is')
    cx.eq(nm + ': isSimple', cx.get(key, lv, 'isSimple', ev=ev), TRUE if all(flags) else FALSE, w.facts, W, 'a level is simple iff every row is')

    # locations handed to the tasks
    for m in ('copyActiveSetGuessTo', 'copyActualActiveSetFrom', 'determineActiveSet', 'computeViolations'):
        cx.meth(cx.cls('humoto::TaskBase'), m, body=False)
    locs = {}
    for m, args in (('guessActiveSet', 1), ('processActiveSet', 1), ('determineActiveSet', 2), ('computeViolations', 2)):
        f = cx.meth(key, m, args)
        e2 = fork(cx, ev, w)
        w.log = []
        cx.run(f, lv, [LV(uid('as'))] + [LV(uid('sol'))] * (args - 1), e2)
        for t in tasks:
            calls = [c for c in w.log if c[0] is t]
            if not cx.require('%s: %s visits %s once' % (nm, m, t.name), len(calls) == 1, cx.where(f),
                              '%d calls' % len(calls), 'every task is visited exactly once') == 'proved':
                continue
            cx.holds('%s: %s visits %s unconditionally' % (nm, m, t.name), calls[0][2], w.facts, cx.where(f))
            loc = calls[0][3][1]
            locs.setdefault(t, []).append((m, f, loc))
    for t in tasks:
        for m, f, loc in locs.get(t, []):
            off, ln = locfield(cx, loc, 'offset'), locfield(cx, loc, 'length')
            cx.eq('%s: %s length of %s' % (nm, m, t.name), ln, t.n, w.facts, cx.where(f), 'the location of a task spans its rows')
            other = [o for o in tasks if o is not t]
            for o in other:
                if o not in locs:
                    continue
                o_off = locfield(cx, locs[o][0][2], 'offset')
                cx.holds('%s: %s rows of %s and %s disjoint' % (nm, m, t.name, o.name),
                         bor(le(add(off, t.n), o_off), le(add(o_off, o.n), off)), w.facts, cx.where(f), 'rows of different tasks do not overlap')
                if t.simple and not o.simple:
                    cx.holds('%s: %s simple rows of %s follow %s' % (nm, m, t.name, o.name), le(add(o_off, o.n), off), w.facts, cx.where(f),
                             'simple rows follow all general rows')
            cx.holds('%s: %s rows of %s inside the level' % (nm, m, t.name), le(add(off, t.n), total(tasks)), w.facts, cx.where(f), 'rows stay inside the level')

    # containers
    r = sym(uid('r'), 'u')
    for m, kind, cond, rows in (('getAllConstraints', 'ALU', lambda t: TRUE, lambda t: t.n),
                                ('getGeneralConstraints', 'ALU', lambda t: FALSE if t.simple else TRUE, lambda t: t.n),
                                ('getSimpleConstraints', 'ILU', lambda t: TRUE if t.simple else FALSE, lambda t: t.n),
                                ('getEqualityConstraints', 'AB', lambda t: t.e, lambda t: t.n),
                                ('getInequalityConstraints', 'AL', lambda t: neg_b(t.e), lambda t: ite(t.two, scale(t.n, 2), t.n))):
        f = cx.meth(key, m, 2)
        F = cx.where(f)
        e2 = fork(cx, ev, w)
        ck = cx.cls(CONT + kind)
        co = LV(uid('cont'), (), ck)
        w.log = []
        k0 = len(e2.throws)
        cx.run(f, lv, [co, sv], e2)
        R = total(tasks, cond, rows)
        cx.eq('%s: %s number of rows' % (nm, m), cx.get(ck, co, 'getNumberOfConstraints', ev=e2), R, w.facts, F, 'the container has exactly the selected rows')
        own = e2.load(co.sub(('f', '$own')))
        src = e2.load(co.sub(('f', '$src')))
        setdims(mk('fld', mk('obj', co.root), '$own'), sym('$R', 'u'), 1)
        cnt = []
        for t in tasks:
            # every selected task owns exactly its rows
            j = sym(uid('j'), 'u')
            calls = [c for c in w.log if c[0] is t and c[1] == 'copyTo']
            if not calls:
                cx.require('%s: %s copies %s' % (nm, m, t.name), cond(t) is FALSE, F, 'never copied', 'every selected task is copied')
                continue
            cx.require('%s: %s copies %s once' % (nm, m, t.name), len(calls) == 1, F, '%d copies' % len(calls), 'no task is copied twice')
            off = calls[0][3][1]
            gate = band(calls[0][2], *[k for k in calls[0][4]])
            sel = cond(t)
            cx.eq('%s: %s selects %s' % (nm, m, t.name), band(gate, *w.facts), band(sel, *w.facts), [], F, 'exactly the selected tasks are copied')
            cx.holds('%s: %s rows of %s fit' % (nm, m, t.name), le(add(off, rows(t)), R), w.facts + [sel], F, 'rows stay inside the container')
            cx.eq('%s: %s rows of %s survive' % (nm, m, t.name), elem(own, add(off, j), ZERO), num(t.i + 1), w.facts + [sel, lt(j, rows(t))], F,
                  'the rows of a task are not overwritten by another task')
            if m == 'getAllConstraints' and t in locs:
                cx.eq('%s: %s location of %s' % (nm, m, t.name), off, locfield(cx, locs[t][0][2], 'offset'), w.facts, F,
                      'the location of a task equals its rows in the stacked constraints')
    # objective
    f = cx.meth(key, 'getObjective', 2)
    e2 = fork(cx, ev, w)
    H, g = LV(uid('H')), LV(uid('g'))
    setdims(e2.load(H), sym('$a', 'u'), sym('$b', 'u'))
    setdims(e2.load(g), sym('$a', 'u'), 1)
    cx.run(f, lv, [H, g], e2)
    i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
    lim = [lt(i, nv), lt(j, nv)]
    cx.eq(nm + ': objective Hessian is the sum over tasks', elem(e2.load(H), i, j), elem(madd(*[t.mats(nv)[0] for t in tasks]), i, j),
          w.facts + lim, cx.where(f), 'each task contributes exactly once')
    cx.eq(nm + ': objective gradient is the sum over tasks', elem(e2.load(g), i, ZERO), elem(madd(*[t.mats(nv)[1] for t in tasks]), i, ZERO),
          w.facts + lim, cx.where(f), 'each task contributes exactly once')


def phases(cx, nm, w, guess, nv, W):
    for m in ('preForm', 'form', 'guessActiveSet', 'postForm'):
        cx.meth(cx.cls('humoto::TaskBase'), m, body=False)
    for t in w.tasks:
        seq = [(c[1], c) for c in w.log if c[0] is t]
        names = [s[0] for s in seq]
        okk = [x for x in names if x in ('preForm', 'form', 'guessActiveSet', 'postForm')]
        cx.require('%s: forming protocol of %s' % (nm, t.name), okk == ['preForm', 'form', 'guessActiveSet', 'postForm'], W, ' -> '.join(okk),
                   'each task is prepared, formed, guessed and checked exactly once, in that order')
        for s, c in seq:
            gate = band(c[2], *c[4])
            if s == 'guessActiveSet':
                cx.eq('%s: guess of %s only when enabled' % (nm, t.name), gate, guess, [], W, 'active sets are guessed iff requested')
            elif s in ('preForm', 'form', 'postForm'):
                cx.holds('%s: %s of %s unconditional' % (nm, s, t.name), gate, w.facts, W)
            if s == 'preForm':
                cx.eq('%s: %s told the number of variables' % (nm, t.name), c[3][0], nv, [], W)


def check(cx):
    K = 3 if cx.tier == 'quick' else 4
    for k in range(0, K + 1):
        for flags in itertools.product((False, True), repeat=k):
            nm = 'level[' + ','.join('simple' if s else 'general' for s in flags) + ']'
            cx.guard(nm, scenario, cx, flags, nm)
            if 0 < k < K:
                cx.guard(nm + ' again', scenario, cx, flags, nm + ' formed again', True)
