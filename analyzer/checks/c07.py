"""C07: every way of calling a solver runs the same pipeline, with the given data, and reports failures as configured."""
from .common import *

STEPS = ('checkInputs', 'initialize', 'setSolutionGuess', 'setActiveSet', 'solveHierarchy', 'getActiveSet', 'reset')
SOL, AS, OP = 'humoto::Solution', 'humoto::ActiveSet', 'humoto::OptimizationProblem'
TRACE = LV('trace', (), None)


def root(x):
    return mk('at', x.root, *[str(p) for p in x.path]) if isinstance(x, LV) else (x if isinstance(x, T) else mk('opaque', repr(x)))


def solver_class(cx):
    """a solver with all the mixins"""
    for k in sorted(cx.P.C):
        if k.startswith('humoto::QPSolverMixin<') and 'GuessSolutionActiveSet' in k:
            return k
    raise Missing('instantiated solver')


def pfield(cx, key, name):
    """qualified name of a field of key or of its bases"""
    todo = [key]
    while todo:
        k = todo.pop(0)
        if k not in cx.P.C:
            continue
        for f in cx.P.C[k]['fields']:
            if f['n'] == name:
                return cx.P.C[k]['q'] + '::' + name, f
        todo += [b['key'] for b in cx.P.C[k]['bases']]
    raise Missing(name)


class Run(object):
    """f evaluated with the solver-specific steps replaced by recorders"""

    def __init__(self, cx, key, f, args, hooked=STEPS):
        self.lv = lv = LV(uid('solver'), (), key)
        pq, pf = pfield(cx, key, 'parameters_')
        self.pk = cx.P.strip(pf['t']).get('key')
        crash = pfield(cx, self.pk, 'crash_on_any_failure_')[0]
        rs = pfield(cx, cx.cls(SOL), 'return_status_')[0]
        self.old = mk('obj', uid('stored'))
        self.status = status = sym(uid('status'), 'i')
        ev = cx.eval()
        ev.st.heap[TRACE.root] = mk('trace')
        self.params = LV(lv.root, (('f', pq),), self.pk)
        ev.store(self.params, self.old)

        def hook(e, g, this, a, node):
            if g['n'] not in hooked or not (isinstance(this, LV) and this.root == lv.root):
                return NotImplemented
            e.store(TRACE, mk('trace', e.load(TRACE), g['n'], e.load(self.params), *[root(x) for x in a]))
            if g['n'] == 'solveHierarchy':
                e.store(LV(a[0].root, a[0].path + (('f', rs),), None), status)
            return mk('void')
        ev.objhook = hook
        self.res = cx.run(f, lv, args, ev)
        self.ev = ev
        self.trace = ev.load(TRACE)
        self.crash = lambda p: fld(p, crash)
        self.rs = rs


def overloads(cx, key):
    seen = []
    for f in cx.P.methods(key, 'solve'):
        if 'body' in f and f['id'] not in [g['id'] for g in seen]:
            seen.append(f)
    if not seen:
        raise Missing('solve')
    return seen


def pipeline(cx, key, f):
    roles, args, names = {}, [], []
    for i, p in enumerate(f['params']):
        t = cx.P.strip(p['t'])
        k = t.get('key')
        q = cx.P.C[k]['q'] if k in cx.P.C else None
        const = cx.P.ty(p['t'])['s'].startswith('const ')
        lv = LV(uid('arg'), (), k)
        role = {SOL: 'solution', AS: 'active set', OP: 'problem'}.get(q, 'parameters')
        if role in ('solution', 'active set') and const:
            role += ' guess'
        roles[role] = lv
        args.append(lv)
        names.append(role)
    nm = 'solve(%s)' % ', '.join(names)
    W = cx.where(f)
    if 'solution' not in roles or 'problem' not in roles:
        raise Missing(nm)
    r = Run(cx, key, f, args)
    par = mk('obj', roles['parameters'].root) if 'parameters' in roles else r.old
    t = mk('trace')
    sol, prob = root(roles['solution']), root(roles['problem'])

    def step(n, *a):
        return mk('trace', t, n, par, *a)
    t = step('checkInputs', prob)
    t = step('initialize', prob, sol)
    ts = []
    g = [('setSolutionGuess', (root(roles['solution guess']),))] if 'solution guess' in roles else []
    h = [('setActiveSet', (root(roles['active set guess']), prob))] if 'active set guess' in roles else []
    base = t
    for order in ([g + h, h + g] if g and h else [g + h]):
        t = base
        for n, a in order:
            t = step(n, *a)
        t = step('solveHierarchy', sol, prob)
        if 'active set' in roles:
            t = step('getActiveSet', root(roles['active set']), prob)
        ts.append(t)
    fail = band(r.crash(par), neg_b(eq(r.status, num(cx.P.enumval['humoto::SolverStatus::OK']))))
    cx.eq(nm + ': throws exactly on a failure when failures are to be reported by exceptions', r.res.thrown(), fail, [], W,
          'thrown <=> crash_on_any_failure and status != OK')
    same = [x for x in ts if x is r.trace]
    cx.require_same(nm + ': validates, initializes, guesses, solves and extracts in this order with the given data', r.trace, same[0] if same else ts[0],
                    [neg_b(fail)], W, 'protocol of the solver interface')
    cx.eq(nm + ': the status of the attempt is reported in the solution', fld(r.ev.load(roles['solution']), r.rs), r.status, [neg_b(fail)], W)


def set_parameters(cx, key):
    f = cx.meth(key, 'setParameters', 1)
    p = LV(uid('params'), (), cx.ptype(f, 0).get('key'))
    r = Run(cx, key, f, [p])
    want = mk('trace', mk('trace'), 'reset', mk('obj', p.root))
    cx.require_same('setParameters: the solver is reset with the new parameters', r.trace, want, [], cx.where(f))
    cx.require_same('setParameters: the parameters are stored', r.ev.load(r.params), mk('obj', p.root), [], cx.where(f))


def inputs(cx, key):
    """which problems a QP solver accepts"""
    f = cx.meth(key, 'checkInputs', 1)
    W = cx.where(f)
    ok = cx.cls(OP)
    hl = cx.cls('humoto::HierarchyLevel')
    for L in (0, 1, 2, 3):
        lv = LV(uid('problem'), (), ok)
        e = [sym(uid('e'), 'b') for _ in range(L)]
        n = [sym(uid('n'), 'u') for _ in range(L)]
        ev = cx.eval()
        ev.st.heap[lv.root] = mk('default', OP)
        cx.run(cx.fn(OP + '::OptimizationProblem', 0), lv, [], ev)
        cx.run(cx.meth(ok, 'reset', 1), lv, [num(L)], ev)

        def hook(e_, g, this, a, node):
            if not (g.get('clsq') == 'humoto::HierarchyLevel' and isinstance(this, LV) and this.root == lv.root and this.path and this.path[-1][0] == 'i'):
                return NotImplemented
            k = next((x for x in range(L) if num(x) is this.path[-1][1]), None)
            if k is None:
                return mk('opaque', 'level')
            return {'isEquality': e[k], 'getNumberOfConstraints': n[k]}.get(g['n'], NotImplemented)
        sv = LV(uid('solver'), (), key)
        pq, pf = pfield(cx, key, 'parameters_')
        par = mk('obj', uid('stored'))
        e2 = cx.eval()
        e2.st = ev.st.copy()
        e2.ntmp, e2.nframe = ev.ntmp + 1000, ev.nframe + 1000
        e2.store(LV(sv.root, (('f', pq),), None), par)
        e2.objhook = hook
        r = cx.run(f, sv, [lv], e2)
        on = fld(par, pfield(cx, cx.P.strip(pf['t']).get('key'), 'solve_two_levels_as_qp_')[0])
        want = neg_b(band(on, e[L - 1], neg_b(eq(n[L - 1], ZERO)))) if L in (1, 2) else TRUE
        cx.eq('a QP solver refuses exactly what is not a QP: %d level(s)' % L, r.thrown(), want, [], W,
              'accepted <=> enabled, one or two levels, equality objective that is not empty')


def check(cx):
    key = solver_class(cx)
    for f in overloads(cx, key):
        cx.guard('solve/%d %s' % (len(f['params']), f['clsq']), pipeline, cx, key, f)
    cx.guard('setParameters', set_parameters, cx, key)
    cx.guard('inputs', inputs, cx, key)
    kk = cx.cls('humoto::kktsolver::Solver')
    for f in overloads(cx, kk):
        cx.guard('kkt solve/%d' % len(f['params']), pipeline, cx, kk, f)
