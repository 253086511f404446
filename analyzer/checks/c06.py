"""C06: the quadratic program handed to a solver is the hierarchy it was given, and the built-in solver solves exactly that program."""
from .common import *

OP = 'humoto::OptimizationProblem'
HL = 'humoto::HierarchyLevel'


class Level(object):
    def __init__(self, k, nv):
        u = uid('L')
        self.e = sym(u + '.equality', 'b')
        self.s = sym(u + '.simple', 'b')
        self.n = sym(u + '.n', 'u')
        self.H = setdims(sym(u + '.H', 'm', (nv, nv)), nv, nv)
        self.g = setdims(sym(u + '.g', 'm', (nv, ONE)), nv, ONE)
        self.tag = num(k + 1)


def rows_of(kind, tag, root):
    """rows of a level collected in a container"""
    return mk('obj', ('rows', kind, tag, root))


def merged(side, src):
    t = mk('obj', ('merged', side, src))
    TYPE[t] = 'm'
    return t


def level_hook(cx, lv, levels, log):
    pairs = {'getGeneralConstraints': 'ALU', 'getSimpleConstraints': 'ILU', 'getEqualityConstraints': 'AB', 'getInequalityConstraints': 'AL',
             'getAllConstraints': 'ALU'}

    def hook(ev, g, this, args, node):
        if not (g.get('clsq') == HL and isinstance(this, LV) and this.root == lv.root and this.path and this.path[-1][0] == 'i'):
            return NotImplemented
        i = this.path[-1][1]
        k = next((x for x in range(len(levels)) if num(x) is i), None)
        nm = g['n']
        if k is None:
            return mk('opaque', 'symbolic level')
        l = levels[k]
        if nm == 'isEquality':
            return l.e
        if nm == 'isSimple':
            return l.s
        if nm == 'getNumberOfConstraints':
            return l.n
        if nm == 'getObjective':
            ev.store(args[0], l.H)
            ev.store(args[1], l.g)
            return mk('void')
        if nm in pairs:
            ev.store(args[0], rows_of(pairs[nm], l.tag, args[1].root if isinstance(args[1], LV) else str(args[1])))
            log.append((nm, k))
            return mk('void')
        return NotImplemented
    return hook


def new_problem(cx, L, nv):
    key = cx.cls(OP)
    lv = LV(uid('problem'), (), key)
    ev = cx.eval()
    ev.st.heap[lv.root] = mk('default', OP)
    cx.run(cx.fn(OP + '::OptimizationProblem', 0), lv, [], ev)
    cx.run(cx.meth(key, 'reset', 1), lv, [num(L)], ev)
    return key, lv, ev


def structure(cx):
    key = cx.cls('humoto::SolutionStructure')
    lv = LV(uid('structure'), (), key)
    nv = cx.get(key, lv, 'getNumberOfVariables')
    TYPE[nv] = 'u'
    return lv, nv


OBS = {'QPConstraints_AB': [('getEqualities', 'AB')],
       'QPConstraints_AB_AL': [('getEqualities', 'AB'), ('getInequalities', 'AL')],
       'QPConstraints_ILU_ALU': [('getGeneralConstraints', 'ALU'), ('getSimpleBounds', 'ILU')]}


def assemble(cx, cname, L, up):
    ck = cx.cls('humoto::' + cname)
    okey = cx.cls(OP)
    f = qk = None
    for g in cx.P.fn(OP + '::getQPProblem'):
        if 'body' in g and len(g['params']) == 3:
            k = cx.ptype(g, 0).get('key')
            if k in cx.P.C and any(b['key'] == ck for b in cx.P.C[k]['bases']):
                f, qk = g, k
    if f is None:
        raise Missing('getQPProblem for ' + cname)
    W = cx.where(f)
    sv, nv = structure(cx)
    levels = [Level(k, nv) for k in range(L)]
    okey, lv, ev = new_problem(cx, L, nv)
    log = []
    e = cx.eval()
    e.st = ev.st.copy()
    e.ntmp, e.nframe = ev.ntmp + 1000, ev.nframe + 1000
    base = level_hook(cx, lv, levels, log)

    def hook(ev_, g, this, args, node):
        if g['n'] == 'initializeSolutionBounds' and isinstance(this, LV):
            src = ev_.load(this)
            if isinstance(src, T) and src.op == 'obj' and src.args[0][:1] == ('rows',):
                ev_.store(args[0], merged('lb', src))
                ev_.store(args[1], merged('ub', src))
                return mk('void')
            return NotImplemented
        return base(ev_, g, this, args, node)
    e.objhook = hook
    qp = LV(uid('qp'), (), qk)
    nm = '%s from %d level(s)%s' % (cname, L, '' if up is TRUE else ', lower triangle')
    res = cx.run(f, lv, [qp, sv, up], e)
    thr = res.thrown()
    if L not in (1, 2):
        cx.holds(nm + ': refused', thr, [], W, 'only one or two levels can be a quadratic program')
        return
    o = levels[L - 1]
    bad = [neg_b(o.e), eq(o.n, ZERO)]
    if L == 2 and cname == 'QPConstraints_AB':
        bad.append(neg_b(levels[0].e))
    cx.eq(nm + ': refused exactly when it is not such a program', thr, bor(*bad), [], W,
          'inequality or empty objectives (and inequality constraints where unsupported) are refused, everything else accepted')
    facts = [neg_b(b) for b in bad] + [le(ONE, nv)]
    if FALSE in facts or thr is TRUE:
        return
    i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
    lim = [lt(i, nv), lt(j, nv)]
    H, g = cx.get(qk, qp, 'getHessian', ev=e), cx.get(qk, qp, 'getGradient', ev=e)
    cx.eq(nm + ': objective gradient comes from the last level', elem(g, i, ZERO), neg(elem(o.g, i, ZERO)), facts + lim, W, 'the last level is the objective')
    cx.eq(nm + ': objective Hessian comes from the last level', elem(H, i, j), elem(o.H, i, j), facts + lim + [le(j, i)], W, 'the last level is the objective')
    if up is TRUE:
        cx.eq(nm + ': Hessian is symmetric', elem(H, i, j), elem(o.H, j, i), facts + lim + [lt(i, j)], W, 'both triangles are filled on request')
    for m, kind in OBS[cname]:
        v = cx.get(qk, qp, m, ev=e)
        if L == 2:
            want = rows_of(kind, levels[0].tag, sv.root)
            cx.require_same('%s: %s are those of the first level' % (nm, m), v, want, facts, W, 'the first level is the constraints')
        else:
            kk = cx.cls(CONT + kind)
            n = cx.get(kk, v, 'getNumberOfConstraints')
            TYPE.setdefault(n, 'u')
            cx.eq('%s: %s are empty' % (nm, m), n, ZERO, facts, W, 'a single level has no constraints, whatever the previous problem was')
            c = cx.get(kk, v, 'getNumberOfVariables')
            TYPE.setdefault(c, 'u')
            cx.eq('%s: %s have the variables of the problem' % (nm, m), c, nv, facts, W, 'constraints and objective range over the same variables')
            if kind != 'ILU':
                A = cx.get(kk, v, 'getA')
                cx.eq('%s: %s matrix width' % (nm, m), dims(A)[1], nv, facts, W, 'constraints and objective range over the same variables')
    if cname == 'QPConstraints_ILU_ALU':
        for m, s in (('getSolutionLowerBounds', 'lb'), ('getSolutionUpperBounds', 'ub')):
            v = cx.get(qk, qp, m, ev=e)
            if L == 2:
                want = merged(s, rows_of('ILU', levels[0].tag, sv.root))
                cx.require_same('%s: %s are the merged simple bounds' % (nm, m), v, want, facts, W)
            else:
                cx.eq('%s: %s are empty' % (nm, m), dims(v)[0], ZERO, facts, W, 'a single level has no bounds')


def field(cx, key, part):
    for f in cx.P.C[key]['fields']:
        if f['n'] == part:
            return cx.P.C[key]['q'] + '::' + f['n']
    raise Missing(part)


def kkt(cx):
    sk = cx.cls('humoto::kktsolver::Solver')
    pk = cx.cls('humoto::kktsolver::SolverParameters')
    M = {k.split('::')[-1]: v for k, v in cx.P.enumval.items() if k.startswith('humoto::kktsolver::SolverParameters::')}
    lv = LV(uid('solver'), (), sk)
    cap = []
    prob = LV(uid('problem'), (), cx.cls(OP))
    sv = sol = LV(uid('sol'), (), cx.cls('humoto::Solution'))
    nv = sn = cx.get(sol.cls, sol, 'getNumberOfVariables')
    TYPE[nv] = 'u'
    full = []

    def hook(ev, g, this, args, node):
        if g['n'] == 'getQPProblem':
            cap.append(args[0])
            full.append((this, args[1], ev.rv(args[2]) if len(args) > 2 else TRUE))
            return mk('void')
        return NotImplemented
    f = cx.meth(sk, 'initialize', 2)
    ev = cx.eval()
    ev.objhook = hook
    cx.run(f, lv, [prob, sv], ev)
    W = cx.where(f)
    if not cx.require('the solver reads the problem once', len(cap) == 1 and isinstance(cap[0], LV), W, '%d reads' % len(cap)) == 'proved':
        return
    cx.require('the solver reads the given problem', isinstance(full[0][0], LV) and full[0][0].root == prob.root and isinstance(full[0][1], LV) and full[0][1].root == sv.root, W, repr(full[0][:2]))
    cx.holds('the solver asks for both triangles of the Hessian', full[0][2], [], W, 'the full Hessian is used below')
    qp = cap[0]
    qk = qp.cls
    nc = sym(uid('m'), 'u')
    H = setdims(cx.get(qk, qp, 'getHessian'), nv, nv)
    g = setdims(cx.get(qk, qp, 'getGradient'), nv, 1)
    ht = cx.get(qk, qp, 'getHessianType')
    ek = cx.cls(CONT + 'AB')
    eqs = LV(uid('eqs'), (), ek)
    q = cx.meth(qk, 'getEqualities', 0)
    e0 = cx.eval()
    r = e0.call_body(q, qp, [], {'k': 'call'})
    if not isinstance(r, LV):
        raise Missing('equalities of the program')
    A = setdims(cx.get(ek, r, 'getA', ev=e0), nc, nv)
    b = setdims(cx.get(ek, r, 'getB', ev=e0), nc, 1)
    f = cx.meth(sk, 'solveHierarchy', 2)
    W = cx.where(f)
    params = LV(uid('params'), (), pk)
    e = cx.eval()
    cx.run(cx.meth(sk, 'setParameters', 1), lv, [params], e)
    x0 = setdims(cx.get(sol.cls, sol, 'get_x', nparams=0), sn, 1)
    res = cx.run(f, lv, [sol, prob], e)
    meth = fld(mk('obj', params.root), field(cx, pk, 'solution_method_'))
    rho = fld(mk('obj', params.root), field(cx, pk, 'elimination_regularization_factor_'))
    TYPE[rho] = 'r'
    is_ = lambda n: eq(meth, num(M[n]))
    diag = cx.P.enumval.get('humoto::QPObjective::HESSIAN_DIAGONAL')
    if diag is None or any(n not in M for n in ('LU', 'QR', 'CONSTRAINT_ELIMINATION_LLT')):
        raise Missing('solution methods')
    known = bor(is_('LU'), is_('QR'), is_('CONSTRAINT_ELIMINATION_LLT'))
    cx.eq('the solver refuses exactly unknown methods and elimination without a diagonal Hessian', res.thrown(),
          bor(neg_b(known), band(is_('CONSTRAINT_ELIMINATION_LLT'), neg_b(eq(ht, num(diag))))), [], W, 'every other case is solved')
    x = cx.get(sol.cls, sol, 'get_x', ev=e, nparams=0)
    i = sym(uid('i'), 'u')
    n = add(nv, nc)

    def system(h):
        return mlam(n, n, lambda r, c: ite(lt(r, nv), ite(lt(c, nv), h(r, c), elem(A, sub(c, nv), r)), ite(lt(c, nv), elem(A, sub(r, nv), c), ZERO)))
    K = system(lambda r, c: elem(H, r, c))
    v = mlam(n, ONE, lambda r, c: ite(lt(r, nv), neg(elem(g, r, ZERO)), elem(b, sub(r, nv), ZERO)))
    want = mk('msolve', K, v)
    TYPE[want] = 'm'
    facts = [lt(i, nv), le(ONE, nv)]
    for name in ('LU', 'QR'):
        cx.eq('%s: the solution is the primal part of the KKT system' % name, elem(x, i, ZERO), elem(want, i, ZERO), facts + [is_(name)], W,
              "x solves [H A'; A 0] (x, l) = (-g, b)")
    K2 = system(lambda r, c: ite(eq(r, c), add(elem(H, r, c), rho), ZERO))
    want2 = mk('msolve', K2, v)
    TYPE[want2] = 'm'
    cx.eq('elimination: the solution is the primal part of the regularized KKT system', elem(x, i, ZERO), elem(want2, i, ZERO),
          facts + [is_('CONSTRAINT_ELIMINATION_LLT'), eq(ht, num(diag))], W, "x solves [H + rho I, A'; A 0] (x, l) = (-g, b) for diagonal H")
    cx.eq('the solution has one entry per variable', dims(x)[0], nv, [neg_b(res.thrown())], W)
    ok = cx.P.enumval.get('humoto::SolverStatus::OK')
    rs = field(cx, sol.cls, 'return_status_')
    cx.eq('a solved problem reports success', fld(e.load(sol), rs), num(ok), [neg_b(res.thrown())], W, 'status is set on every successful path')


def check(cx):
    for c in sorted(OBS):
        for L in (0, 1, 2, 3):
            for up in (TRUE, FALSE):
                cx.guard('%s %d %s' % (c, L, up), assemble, cx, c, L, up)
    cx.guard('kkt', kkt, cx)
