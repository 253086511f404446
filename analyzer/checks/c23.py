"""C23: interfaces to third party solvers of quadratic programs: what a library is given is the program, what it returns is reported.

The libraries themselves are not analysed: their calls are modelled by the documented meaning of their arguments (drivers/stubs)."""
from .common import *
from sa.evalr import NULLPTR
from sa.lib import concrete
from .c14 import M

OP, SOL, AS = 'humoto::OptimizationProblem', 'humoto::Solution', 'humoto::ActiveSet'
LIBS = ('qpoases', 'qpmad', 'quadprogpp')
N, P_ROWS = 3, 2
#: (general constraints, variables of simple bounds); a variable may be bounded several times
SHAPES = ((2, (2, 0, 2)), (2, ()), (0, (1,)), (0, ()), (1, (0, 1, 2)))


def V(tag, n):
    return emat(M(tag, n, 1))


def entries(v):
    """entries of a matrix of known size in column-major order"""
    r, c = (concrete(x) for x in dims(v))
    return None if r is None or c is None else [elem(v, num(i), num(j)) for j in range(c) for i in range(r)]


class Given(object):
    """a program with arbitrary contents"""

    def __init__(self, cx, tag, shape, kind):
        m, idx = shape
        k = len(idx)
        self.m, self.idx, self.k, self.kind = m, idx, k, kind
        h = {}
        for i in range(N):
            for j in range(i + 1):
                h[i, j] = h[j, i] = sym('%s.H%d%d' % (tag, i, j), 'r')
        self.H = emat([[h[i, j] for j in range(N)] for i in range(N)])
        self.lower = emat([[h[i, j] if j <= i else sym('%s.junk%d%d' % (tag, i, j), 'r') for j in range(N)] for i in range(N)])
        self.g = V(tag + '.g', N)
        if kind == 'AB_AL':
            self.k = k = 0
            self.parts = {('getEqualities', 'getA'): emat(M(tag + '.E', m, N)) if m else mk('mundef', ZERO, num(N)),
                          ('getEqualities', 'getB'): V(tag + '.e', m) if m else mk('mundef', ZERO, ONE),
                          ('getInequalities', 'getA'): emat(M(tag + '.A', len(idx), N)) if idx else mk('mundef', ZERO, num(N)),
                          ('getInequalities', 'getLowerBounds'): V(tag + '.l', len(idx)) if idx else mk('mundef', ZERO, ONE)}
        else:
            self.parts = {('getGeneralConstraints', 'getA'): emat(M(tag + '.A', m, N)) if m else mk('mundef', ZERO, num(N)),
                          ('getGeneralConstraints', 'getLowerBounds'): V(tag + '.lA', m) if m else mk('mundef', ZERO, ONE),
                          ('getGeneralConstraints', 'getUpperBounds'): V(tag + '.uA', m) if m else mk('mundef', ZERO, ONE),
                          ('getSimpleBounds', 'getIndices'): emat([[num(i)] for i in idx]) if k else mk('mundef', ZERO, ONE),
                          ('getSimpleBounds', 'getLowerBounds'): V(tag + '.li', k) if k else mk('mundef', ZERO, ONE),
                          ('getSimpleBounds', 'getUpperBounds'): V(tag + '.ui', k) if k else mk('mundef', ZERO, ONE),
                          ('getSolutionLowerBounds',): V(tag + '.lb', N) if k else mk('mundef', ZERO, ONE),
                          ('getSolutionUpperBounds',): V(tag + '.ub', N) if k else mk('mundef', ZERO, ONE)}

    def __getitem__(self, n):
        return self.parts[n]

    def store(self, cx, ev, qp, lower):
        key = qp.cls

        def ref(k, lv, *names):
            for x in names:
                f = cx.meth(k, x, 0)
                lv = ev.call_body(f, lv, [], {'k': 'call'})
                if not isinstance(lv, LV):
                    raise Missing(x)
                k = lv.cls or cx.P.strip(f['ret']).get('key')
                lv = LV(lv.root, lv.path, k)
            return lv
        for n, r in (('getGeneralConstraints', self.m), ('getSimpleBounds', self.k), ('getEqualities', self.m), ('getInequalities', len(self.idx))):
            if any(n == x[0] for x in self.parts):
                lv = ref(key, qp, n)
                ev.call_body(cx.meth(lv.cls, 'reset', 3), lv, [num(r), num(N), FALSE], {'k': 'call'})
        ev.store(ref(key, qp, 'getHessian'), self.lower if lower else self.H)
        ev.store(ref(key, qp, 'getGradient'), self.g)
        for names, v in self.parts.items():
            ev.store(ref(key, qp, *names), v)


def size_of(v):
    """numbers of variables and constraints of a constructed problem of qpOASES"""
    if v.op == 'call' and v.args and isinstance(v.args[0], tuple):
        return tuple(v.args[0][1:3])
    return tuple(v.args[1:3]) if v.op == 'call' else ()


class Library(object):
    """calls of a library: records the program it is given, returns arbitrary results"""

    def __init__(self, cx, tag):
        self.cx, self.tag = cx, tag
        self.calls, self.problems, self.deleted, self.alive = [], [], [], {}
        self.status = []

    # pointers
    def vector(self, ev, p):
        """what a pointer to numbers points at now: [(condition, None | list of values)]"""
        if isinstance(p, (LV, CLV)):
            p = ev.rv(p)
        if p.op == 'ite':
            return [(band(c, d), v) for c, a in ((p.args[0], p.args[1]), (neg_b(p.args[0]), p.args[2])) for d, v in self.vector(ev, a)]
        if p.op == 'none':
            return [(TRUE, None)]
        if p.op == 'mdata':
            v, off, order, addr = p.args
            if addr.op == 'addr':
                v = ev.load(ev.deref(addr))
            if off is not ZERO:
                raise Missing('pointer to the beginning')
            if order == 'row':
                r, c = (concrete(x) for x in dims(v))
                return [(TRUE, [elem(v, num(i), num(j)) for i in range(r) for j in range(c)])]
            e = entries(v)
            if e is not None:
                return [(TRUE, e)]
        if p.op == 'addr':
            return [(TRUE, [ev.load(ev.deref(p))])]
        raise Missing('known pointer: %r' % p)

    def hook(self, ev, n, q, base, op, args):
        if q.startswith('qpOASES::'):
            return getattr(self, 'oases_' + q.split('::', 1)[1].replace('::', '_'), self.unknown)(ev, n, q, args)
        if q in ('qpmad::Solver::solve', 'QuadProgpp::Solver::solve'):
            return getattr(self, q.split(':', 1)[0])(ev, n, args)
        return NotImplemented

    def unknown(self, ev, n, q, args):
        return NotImplemented

    def ret(self, n, t):
        s = sym('%s.%s%d' % (self.tag, n, len(self.calls)), t)
        return s

    # qpOASES
    def oases_Bounds_init(self, ev, n, q, a):
        k = concrete(ev.rv(ev.ev(a[0])))
        if k is None:
            raise Missing('known number of bounds')
        ev.store(ev.ev(n['obj']), mk('vlist', tuple([num(4)] * k)))
        return num(0)
    oases_Constraints_init = oases_Bounds_init

    def set_all(self, ev, n, v):
        lv = ev.ev(n['obj'])
        k = concrete(vsize(ev.load(lv)))
        if k is None:
            raise Missing('known number of bounds')
        ev.store(lv, mk('vlist', tuple([v] * k)))
        return num(0)

    def oases_Bounds_setupAllFree(self, ev, n, q, a):
        return self.set_all(ev, n, num(0))
    oases_Constraints_setupAllInactive = oases_Bounds_setupAllFree

    def oases_Bounds_setupAllLower(self, ev, n, q, a):
        return self.set_all(ev, n, num(-1))

    def oases_Bounds_setupAllUpper(self, ev, n, q, a):
        return self.set_all(ev, n, num(1))

    def oases_Bounds_setupBound(self, ev, n, q, a):
        lv = ev.ev(n['obj'])
        i, s = (ev.rv(ev.ev(x)) for x in a[:2])
        k, m = concrete(i), concrete(vsize(ev.load(lv)))
        if k is None or m is None:
            raise Missing('known index of a bound: %r' % i)
        if k >= m:
            ev.throw(TRUE, '', 'index of a bound')
            return num(0)
        ev.store(lv.sub(('i', num(k))), s)
        return num(0)
    oases_Constraints_setupConstraint = oases_Bounds_setupBound

    def problem(self, ev, n):
        o = n['obj']
        p = ev.ev(o)
        if isinstance(p, (LV, CLV)) and o.get('k') != 'un':
            v = ev.rv(p) if n.get('arrow') else p
            p = v
        if isinstance(p, T):
            p = ev.deref(p)
        if not isinstance(p, LV):
            raise Missing('problem of the library')
        return p

    def oases_QProblem_setOptions(self, ev, n, q, a):
        lv = self.problem(ev, n)
        self.alive[lv.root] = ev.rv(ev.ev(a[0]))
        return num(0)

    def oases_QProblem_init(self, ev, n, q, a):
        lv = self.problem(ev, n)
        pos = [ev.ev(x) for x in a]
        vec = [None if x is None else self.vector(ev, x) for x in pos[:7]]
        w = ev.rv(pos[7])
        c = dict(problem=lv, made=ev.load(lv), options=self.alive.get(lv.root), vectors=vec, iterations=w,
                 time=self.vector(ev, pos[8]) if len(pos) > 8 else [(TRUE, None)], guess=self.vector(ev, pos[9]) if len(pos) > 9 else [(TRUE, None)],
                 dual=self.vector(ev, pos[10]) if len(pos) > 10 else [(TRUE, None)],
                 bounds=self.guess(ev, pos[11] if len(pos) > 11 else NONE), constraints=self.guess(ev, pos[12] if len(pos) > 12 else NONE))
        self.calls.append(c)
        self.status.append(self.ret('status', 'i'))
        c['used'] = self.ret('used', 'i')
        if isinstance(pos[7], LV):
            ev.store(pos[7], c['used'])
        return self.status[-1]

    def guess(self, ev, p):
        p = ev.rv(p) if isinstance(p, (LV, CLV)) else p
        if p.op == 'ite':
            return [(band(c, d), v) for c, x in ((p.args[0], p.args[1]), (neg_b(p.args[0]), p.args[2])) for d, v in self.guess(ev, x)]
        if p.op == 'none':
            return [(TRUE, None)]
        if p.op == 'addr':
            return [(TRUE, ev.load(ev.deref(p)))]
        raise Missing('known guess')

    def out(self, ev, p, n, tag, t='r'):
        """n numbers are written to the memory at p"""
        p = ev.rv(p) if isinstance(p, (LV, CLV)) else p
        if p.op != 'mdata' or p.args[3].op != 'addr' or p.args[1] is not ZERO:
            raise Missing('known destination')
        lv = ev.deref(p.args[3])
        d = [concrete(x) for x in dims(ev.load(lv))]
        L = [self.ret('%s%d_' % (tag, i), t) for i in range(n)]
        if None in d:
            raise Missing('destination of a known size')
        if d[0] * d[1] < n:
            ev.throw(TRUE, '', 'destination is too short')
        ev.store(lv, emat([[x] for x in L]))
        return L

    def made(self, lv, ev):
        v = ev.load(lv)
        k = [concrete(x) for x in size_of(v)]
        if len(k) != 2 or None in k:
            raise Missing('known size of the problem: %r' % (v,))
        return k

    def oases_QProblem_getPrimalSolution(self, ev, n, q, a):
        lv = self.problem(ev, n)
        self.calls[-1]['primal'] = self.out(ev, ev.ev(a[0]), self.made(lv, ev)[0], 'x')
        self.calls[-1]['asked'] = lv
        return num(0)

    def oases_QProblem_getWorkingSetBounds(self, ev, n, q, a):
        lv = self.problem(ev, n)
        self.calls[-1]['wbounds'] = self.out(ev, ev.ev(a[0]), self.made(lv, ev)[0], 'wb')
        return num(0)

    def oases_QProblem_getWorkingSetConstraints(self, ev, n, q, a):
        lv = self.problem(ev, n)
        self.calls[-1]['wconstraints'] = self.out(ev, ev.ev(a[0]), self.made(lv, ev)[1], 'wc')
        return num(0)

    # Eigen interfaces
    def values(self, ev, a):
        L = [ev.ev(x) for x in a]
        return L, [ev.rv(x) for x in L]

    def qpmad(self, ev, n, a):
        L, v = self.values(ev, a)
        x = [self.ret('x%d_' % i, 'r') for i in range(N)]
        c = dict(H=v[1], g=v[2], lb=v[3], ub=v[4], A=v[5], lA=v[6], uA=v[7], options=v[8] if len(v) > 8 else None, primal=x)
        self.calls.append(c)
        ev.store(L[0], emat([[y] for y in x]))
        if isinstance(L[1], LV):
            ev.store(L[1], emat(M(self.tag + '.factor', N, N)))
        self.status.append(self.ret('status', 'i'))
        return self.status[-1]

    def QuadProgpp(self, ev, n, a):
        L, v = self.values(ev, a)
        x = [self.ret('x%d_' % i, 'r') for i in range(N)]
        c = dict(H=v[0], g=v[1], CE=v[2], ce=v[3], CI=v[4], ci=v[5], primal=x)
        self.calls.append(c)
        ev.store(L[6], emat([[y] for y in x]))
        if isinstance(L[0], LV):
            ev.store(L[0], emat(M(self.tag + '.factor', N, N)))
        self.status.append(self.ret('status', 'r'))
        return self.status[-1]


OPTIONS = {'qpoases': {'OK': 0, 'MAX_ITER': 64}, 'qpmad': {'OK': 0, 'MAX_ITER': 3}, 'quadprogpp': {'OK': 0}}


def field_q(cx, key, name):
    todo = [key]
    while todo:
        k = todo.pop(0)
        if k not in cx.P.C:
            continue
        for f in cx.P.C[k]['fields']:
            if f['n'] == name:
                return cx.P.C[k]['q'] + '::' + name, f
        todo += [b['key'] for b in cx.P.C[k]['bases']]
    raise Missing(name)


class Session(object):
    """a solver used several times"""

    def __init__(self, cx, lib):
        self.cx, self.libname = cx, lib
        self.key = cx.cls('humoto::%s::Solver' % lib)
        self.lib = Library(cx, uid(lib))
        self.ev = ev = cx.eval()
        ev.libhook = self.lib.hook
        ev.objhook = self.hook
        ev.peel = 8
        ev.events = True
        self.lv = LV(uid('solver'), (), self.key)
        self.given = None
        self.levels = None
        self.asked = []
        c = cx.meth(self.key, self.key.split('::')[-1], 0)
        self.ctor = cx.where(c)
        cx.run(c, self.lv, [], ev)
        pq, pf = field_q(cx, self.key, 'parameters_')
        self.pk = cx.P.strip(pf['t']).get('key')
        self.params = mk('obj', uid('params'))
        ev.store(self.lv.sub(('f', pq), self.pk), self.params)
        self.facts = [neg_b(fld(self.params, field_q(cx, self.pk, 'crash_on_any_failure_')[0]))]
        TYPE[self.facts[0].args[0]] = 'b' if self.facts[0].args else None

    def param(self, name, t):
        v = fld(self.params, field_q(self.cx, self.pk, name)[0])
        TYPE[v] = t
        return v

    def hook(self, ev, g, this, args, node):
        if g['n'] == 'getQPProblem':
            up = ev.rv(args[2]) if len(args) > 2 else TRUE
            if not isinstance(args[0], LV) or up not in (TRUE, FALSE):
                raise Missing('program of the solver')
            self.asked.append((this, args[1], up))
            qp = args[0]
            if qp.cls is None:
                qp = LV(qp.root, qp.path, self.cx.P.strip(g['params'][0]['t']).get('key'))
            kind = 'AB_AL' if any(b['key'].endswith('QPConstraints_AB_AL') for b in self.cx.P.C[self.base(qp.cls)]['bases']) else 'ILU_ALU'
            self.given = Given(self.cx, uid('qp'), self.shape, kind)
            self.given.store(self.cx, ev, LV(qp.root, qp.path, self.base(qp.cls)), up is FALSE)
            return mk('void')
        if g['n'] == 'initializeActiveSet':
            k = self.cx.cls(AS)
            f = self.cx.meth(k, 'initialize', 2, pred=lambda f: 'vector' in (self.cx.P.strip(f['params'][1]['t']).get('q') or ''))
            ev.call_body(f, args[0], [num(len(self.levels)), mk('vlist', tuple(num(x) for x in self.levels))], {'k': 'call'})
            return mk('void')
        if g['n'] == 'getNumberOfLevels':
            return num(len(self.levels))
        if g['n'] == 'checkInputs':
            return mk('void')
        return NotImplemented

    def base(self, key):
        """class which has the constraints as a base"""
        while key in self.cx.P.C:
            b = [x['key'] for x in self.cx.P.C[key]['bases']]
            if any('QPConstraints' in x and 'QPProblemBase' not in x for x in b):
                return key
            key = b[0] if b else None
        raise Missing('program')

    def solve(self, shape, levels=None, guess=None, active=None):
        """one call; returns (result of the evaluation, solution, active set)"""
        cx, ev = self.cx, self.ev
        self.shape = shape
        rows = shape[0] + len(shape[1])
        self.levels = levels if levels is not None else ([rows, P_ROWS] if rows else [P_ROWS])
        kinds = [SOL] + ([AS] if active else []) + [OP] + ([SOL] if guess else []) + ([AS] if active else [])
        fs = []
        for f in cx.P.methods(self.key, 'solve'):
            q = [cx.P.C[cx.P.strip(p['t']).get('key')]['q'] if cx.P.strip(p['t']).get('key') in cx.P.C else None for p in f['params']]
            if sorted(map(str, q)) == sorted(kinds) and 'body' in f:
                fs.append((f, q))
        if not fs:
            raise Missing('solve() with %s' % kinds)
        f, q = fs[0]
        self.sol = LV(uid('sol'), (), cx.cls('humoto::%s::Solution' % self.libname))
        ev.st.heap[self.sol.root] = mk('obj', self.sol.root)
        self.xq = field_q(cx, self.sol.cls, 'x_')[0]
        ev.store(self.sol.sub(('f', self.xq)), V(uid('old'), N))
        ev.store(self.sol.sub(('f', field_q(cx, self.sol.cls, 'number_of_variables_')[0])), num(N))
        self.aset = LV(uid('as'), (), cx.cls(AS))
        ev.st.heap[self.aset.root] = mk('obj', self.aset.root)
        args = []
        for p, k in zip(f['params'], q):
            const = cx.P.ty(p['t'])['s'].startswith('const ')
            args.append(guess if k == SOL and const else active if k == AS and const else self.sol if k == SOL else self.aset if k == AS else LV(uid('problem'), (), cx.cls(OP)))
        self.prob = args[q.index(OP)]
        n0 = len(ev.throws)
        r = cx.run(f, self.lv, args, ev)
        r.throws = ev.throws[n0:]
        return r

    def thrown(self, r):
        return bor(*([c for c, _, _ in r.throws] or [FALSE]))

    def x(self):
        return self.ev.load(self.sol.sub(('f', self.xq)))

    def sfield(self, name):
        return self.ev.load(self.sol.sub(('f', field_q(self.cx, self.sol.cls, name)[0])))


def shape_name(shape, lib):
    if lib == 'quadprogpp':
        return '%d equalities, %d inequalities' % (shape[0], len(shape[1]))
    return '%d general constraints, bounds on variables %s' % (shape[0], list(shape[1]) or 'none')


def same_list(cx, nm, got, want, facts, W, rule):
    """conditional list of values == want"""
    for c, v in got:
        if c is FALSE:
            continue
        if v is None or want is None:
            if (v is None) != (want is None):
                cx.never(nm + (': not given' if v is None else ': given'), c, facts, W, rule)
            continue
        if len(v) != len(want):
            cx.require(nm, False, W, '%d values instead of %d' % (len(v), len(want)))
            continue
        cx.eq(nm, mk('vlist', tuple(v)), mk('vlist', tuple(want)), list(facts) + [c], W, rule)


def common(cx, s, nm, r, facts, W):
    nl = bor(*([c for c, _, t in r.throws if t in (NULLPTR, 'index of a bound', 'destination is too short')] or [FALSE]))
    cx.never(nm + ': library is called with valid indices, pointers and buffers', nl, facts, W, 'documented preconditions of the library')
    cx.require(nm + ': the program of the given problem is solved', bool(s.asked) and all(isinstance(x, LV) for x in s.asked[-1][:2]) and s.asked[-1][0].root == s.prob.root and s.asked[-1][1].root == s.sol.root, W, '')
    if not s.lib.calls:
        cx.require(nm + ': library is called', False, W, 'no call')
        return None
    c = s.lib.calls[-1]
    E = {k.split('::')[-1]: num(v) for k, v in cx.P.enumval.items() if k.startswith('humoto::SolverStatus::')}
    st = s.lib.status[-1]
    o = OPTIONS[s.libname]
    want = E['OTHER']
    if 'MAX_ITER' in o:
        want = ite(eq(st, num(o['MAX_ITER'])), E['MAX_ITER'], want)
    want = ite(eq(st, num(o['OK'])), E['OK'], want)
    cx.eq(nm + ': status', s.sfield('return_status_'), want, facts, W, 'OK and only OK of the library is a success')
    rf = [f['n'] for f in cx.P.C[s.sol.cls]['fields'] if f['n'].endswith('return_value_')]
    if rf:
        cx.eq(nm + ': value returned by the library is available', s.sfield(rf[0]), st, facts, W, '')
    cx.eq(nm + ': solution is the one returned by the library', s.x(), emat([[y] for y in c['primal']]), facts, W, '')
    return c


def lst(v):
    e = entries(v)
    if e is None:
        raise Missing('matrix of a known size')
    return e


def qpmad(cx):
    for shape in SHAPES:
        s = Session(cx, 'qpmad')
        W = cx.where(cx.meth(s.key, 'solveHierarchy', 2))
        rho = s.param('regularization_factor_', 'r')
        for t in range(2):
            if t:
                shape = (shape[0], ()) if shape[1] else (1, (0,))
            nm = 'qpmad%s: %s' % (', again' if t else '', shape_name(shape, 'qpmad'))
            r = s.solve(shape)
            if not t:
                cx.eq(nm + ': negative regularization is refused', s.thrown(r), lt(rho, ZERO), s.facts, W, 'thrown <=> factor < 0')
            F = s.facts + [le(ZERO, rho)]
            c = common(cx, s, nm, r, F, W)
            if c is None:
                continue
            g = s.given
            for i in range(N):
                for j in range(i + 1):
                    cx.eq('%s: H(%d,%d)' % (nm, i, j), elem(c['H'], num(i), num(j)), add(elem(g.H, num(i), num(j)), rho if i == j else ZERO), F, W, 'lower triangle, regularized')
            for n, want in (('g', g.g), ('lb', g['getSolutionLowerBounds',]), ('ub', g['getSolutionUpperBounds',]), ('A', g['getGeneralConstraints', 'getA']),
                            ('lA', g['getGeneralConstraints', 'getLowerBounds']), ('uA', g['getGeneralConstraints', 'getUpperBounds'])):
                same_list(cx, '%s: %s' % (nm, n), [(TRUE, lst(c[n]))], lst(want), F, W, 'lb <= x <= ub, lA <= A x <= uA')
    if s.lib.calls:
        opt = s.lib.calls[-1]['options']
        # one obligation: the library has an overload of solve() without parameters
        cx.require('qpmad: options of the parameters are given to the library', opt is not None and opt is fld(s.params, field_q(cx, s.pk, 'options_')[0]), W, 'the last argument of solve()')


def quadprogpp(cx):
    for shape in SHAPES:
        s = Session(cx, 'quadprogpp')
        W = cx.where(cx.meth(s.key, 'solveHierarchy', 2))
        rho = s.param('regularization_factor_', 'r')
        for t in range(2):
            if t:
                shape = (shape[0], ()) if shape[1] else (1, (0,))
            nm = 'quadprogpp%s: %s' % (', again' if t else '', shape_name(shape, 'quadprogpp'))
            r = s.solve(shape)
            if not t:
                cx.eq(nm + ': negative regularization is refused', s.thrown(r), lt(rho, ZERO), s.facts, W, 'thrown <=> factor < 0')
            F = s.facts + [le(ZERO, rho)]
            c = common(cx, s, nm, r, F, W)
            if c is None:
                continue
            g = s.given
            for i in range(N):
                for j in range(N):
                    cx.eq('%s: H(%d,%d)' % (nm, i, j), elem(c['H'], num(i), num(j)), add(elem(g.H, num(i), num(j)), rho if i == j else ZERO), F, W, 'whole Hessian, regularized')
            same_list(cx, nm + ': g', [(TRUE, lst(c['g']))], lst(g.g), F, W, 'minimize 1/2 x\'Hx + g\'x')
            for n, m, what, A, b, rows in (('CE', 'ce', 'equalities', 'getEqualities', 'getB', shape[0]), ('CI', 'ci', 'inequalities', 'getInequalities', 'getLowerBounds', len(shape[1]))):
                d = [concrete(x) for x in dims(c[n])]
                if not cx.require('%s: size of %s' % (nm, n), d[1] == rows and (d[0] == N or not rows), W, '%s' % d) == 'proved':
                    continue
                # C' x + c0 == A x - b
                C = [[elem(c[n], num(i), num(j)) for i in range(N)] + [elem(c[m], num(j), ZERO)] for j in range(rows)]
                B = [[elem(g[A, 'getA'], num(j), num(i)) for i in range(N)] + [neg(elem(g[A, b], num(j), ZERO))] for j in range(rows)]
                same_list(cx, '%s: %s' % (nm, what), [(TRUE, [x for y in C for x in y])], [x for y in B for x in y], F, W, "C' x + c0 = A x - b")


ACT = ('UNDEFINED', 'INACTIVE', 'LOWER_BOUND', 'UPPER_BOUND', 'EQUALITY')


def guess_set(cx, ev, rows, types):
    """active set guess of the given types, level 0 has all the constraints"""
    lv = LV(uid('guess'), (), cx.cls(AS))
    ev.st.heap[lv.root] = mk('obj', lv.root)
    k = lv.cls
    f = cx.meth(k, 'initialize', 2, pred=lambda f: 'vector' in (cx.P.strip(f['params'][1]['t']).get('q') or ''))
    ev.call_body(f, lv, [num(2), mk('vlist', (num(rows), num(P_ROWS)))], {'k': 'call'})
    at = [g for g in cx.P.methods(k, 'operator[]') if not g.get('const')][0]
    lvl = ev.call_body(at, lv, [ZERO], {'k': 'call'})
    ck = cx.cls('humoto::ActiveSetConstraints')
    at2 = [g for g in cx.P.methods(ck, 'operator[]') if not g.get('const')][0]
    for i, t in enumerate(types):
        ev.store(ev.call_body(at2, LV(lvl.root, lvl.path, ck), [num(i)], {'k': 'call'}), t)
    return lv


def levels_of(cx, ev, lv, sizes):
    k, ck = lv.cls, cx.cls('humoto::ActiveSetConstraints')
    at = [g for g in cx.P.methods(k, 'operator[]') if not g.get('const')][0]
    at2 = [g for g in cx.P.methods(ck, 'operator[]') if not g.get('const')][0]
    out = []
    for i, n in enumerate(sizes):
        lvl = ev.call_body(at, lv, [num(i)], {'k': 'call'})
        out.append([ev.rv(ev.call_body(at2, LV(lvl.root, lvl.path, ck), [num(j)], {'k': 'call'})) for j in range(n)])
    return out


def oases_program(cx, s, nm, c, facts, W):
    g = s.given
    m, k = g.m, g.k
    v = c['vectors']
    cx.require(nm + ': sizes of the program', size_of(c['made']) == (num(N), num(m)), W, repr(c['made'])[:200])
    same_list(cx, nm + ': H', v[0], [elem(g.H, num(i), num(j)) for i in range(N) for j in range(N)], facts, W, 'whole symmetric Hessian')
    same_list(cx, nm + ': g', v[1], lst(g.g), facts, W, '')
    A = g['getGeneralConstraints', 'getA']
    rows = [elem(A, num(i), num(j)) for i in range(m) for j in range(N)] if m else None
    for n, x, want in (('A', v[2], rows), ('lbA', v[5], lst(g['getGeneralConstraints', 'getLowerBounds'])), ('ubA', v[6], lst(g['getGeneralConstraints', 'getUpperBounds']))):
        if m:
            same_list(cx, '%s: %s' % (nm, n), x, want, facts, W, 'rows of the matrix one after another, bounds of the same rows')
    for n, x, want in (('lb', v[3], lst(g['getSolutionLowerBounds',])), ('ub', v[4], lst(g['getSolutionUpperBounds',]))):
        same_list(cx, '%s: %s' % (nm, n), x, want if k else None, facts, W, 'bounds on all variables, none if there are no simple bounds')
    it = s.param('max_number_of_iterations_', 'i')
    cx.eq(nm + ': limit on iterations', c['iterations'], it, facts, W, '')
    t = s.param('max_cpu_time_', 'r')
    for cnd, x in c['time']:
        if x is None:
            cx.never(nm + ': limit on time is used', band(cnd, neg_b(eq(t, ZERO))), facts, W, 'nonzero limit is given to the library')
        else:
            cx.never(nm + ': zero time means no limit', band(cnd, eq(t, ZERO)), facts, W, '')
            cx.eq(nm + ': limit on time', x[0], t, facts + [cnd], W, '')
    cx.require_same(nm + ': options', c['options'] if c['options'] is not None else mk('none'), fld(s.params, field_q(cx, s.pk, 'options_')[0]), facts, W, 'options of the parameters are set before the program is solved')
    cx.eq(nm + ': number of iterations is reported', s.sfield('number_of_iterations_'), c['used'], facts, W, '')
    cx.require(nm + ': solution of the program which has been solved', c.get('asked') is not None and c['asked'].root == c['problem'].root, W, '')
    for cnd, x in c['dual']:
        if x is not None:
            cx.never(nm + ': no guess of the dual solution', cnd, facts, W, '')


def oases_guesses(cx, s, nm, c, facts, W, x=None, types=None):
    same_list(cx, nm + ': guess of the solution', c['guess'], x, facts, W, 'given to the library if and only if given to this call')
    g = s.given
    E = {n: num(cx.P.enumval['humoto::ConstraintActivationType::' + n]) for n in ACT}

    def code(t):
        return ite(eq(t, E['INACTIVE']), num(0), ite(eq(t, E['UPPER_BOUND']), num(1), num(-1)))
    want = {'constraints': None, 'bounds': None}
    if types is not None:
        want['constraints'] = [code(t) for t in types[:g.m]]
        b = [num(0)] * N
        for i, v in enumerate(g.idx):
            t = types[g.m + i]
            b[v] = ite(eq(t, E['INACTIVE']), b[v], code(t))
        want['bounds'] = b
    for n in ('constraints', 'bounds'):
        got = [(cnd, None if v is None else [vsel(v, num(i)) for i in range(concrete(vsize(v)) or 0)]) for cnd, v in c[n]]
        same_list(cx, '%s: guess of the active %s' % (nm, n), got, want[n], facts, W, 'lower (or equality) -1, inactive 0, upper 1; last active bound on a variable')


def deleted(ev):
    """roots of the deleted objects"""
    e = ev.st.heap.get('$ev', mk('vempty'))
    out = []
    while e.op == 'vpush':
        n, a = e.args[1].args[:2]
        if n == 'delete':
            if a[0].op == 'none':
                pass
            elif a[0].op != 'addr':
                return None
            else:
                out.append(a[0].args[0])
        e = e.args[0]
    return out if e.op == 'vempty' else None


def qpoases(cx):
    E = {n: num(cx.P.enumval['humoto::ConstraintActivationType::' + n]) for n in ACT}
    for shape in SHAPES:
        rows = shape[0] + len(shape[1])
        for levels in ([[rows, P_ROWS]] if rows else [[P_ROWS], [0, P_ROWS]]):
            s = Session(cx, 'qpoases')
            W = cx.where(cx.meth(s.key, 'solveHierarchy', 2))
            WA = cx.where(cx.meth(s.key, 'getActiveSet', 2))
            WS = cx.where(cx.meth(s.key, 'setActiveSet', 2))
            base = 'qpoases: %s, %d level(s)' % (shape_name(shape, 'qpoases'), len(levels))
            # everything is guessed, then nothing
            x = V(uid('xg'), N)
            sg = LV(uid('solguess'), (), cx.cls(SOL))
            s.ev.st.heap[sg.root] = mk('obj', sg.root)
            s.ev.store(sg.sub(('f', field_q(cx, sg.cls, 'x_')[0])), x)
            types = [sym('%s.type%d' % (sg.root, i), 'i') for i in range(rows)]
            ag = guess_set(cx, s.ev, rows, types)
            good = [bor(*[eq(t, E[n]) for n in ACT[1:]]) for t in types]
            r = s.solve(shape, levels, guess=sg, active=ag)
            c0 = c = common(cx, s, base, r, s.facts + good, W)
            if c is None:
                continue
            wc, wb = c.get('wconstraints') or [], c.get('wbounds') or []
            F = s.facts + good + [bor(*[eq(w, num(v)) for v in (-1, 0, 1)]) for w in wc + [wb[i] for i in sorted(set(shape[1]))] if wb or w in wc]
            bad = [c for c, _, t in r.throws]
            for b in bad:
                cx.never(base + ': consistent guesses and results are accepted', b, F, W, 'no exception')
            for i, t in enumerate(types):
                cx.holds(base + ': uninitialized guess %d is refused' % i, s.thrown(r), s.facts + [eq(t, E['UNDEFINED'])], WS, 'exception')
            oases_program(cx, s, base, c, F, W)
            oases_guesses(cx, s, base, c, F, WS, lst(x), types)
            got = levels_of(cx, s.ev, s.aset, levels)
            g = s.given
            for j in range(levels[-1]):
                cx.eq('%s: row %d of the objective' % (base, j), got[-1][j], E['EQUALITY'], F, WA, 'rows of the objective are equalities')
            for i in range(shape[0]):
                w = wc[i] if i < len(wc) else mk('none')
                want = ite(eq(w, num(-1)), E['LOWER_BOUND'], ite(eq(w, ONE), E['UPPER_BOUND'], E['INACTIVE']))
                cx.eq('%s: general constraint %d' % (base, i), got[0][i], want, F, WA, '-1 lower, 0 inactive, 1 upper')
            li, ui = g['getSimpleBounds', 'getLowerBounds'], g['getSimpleBounds', 'getUpperBounds']
            for i, v in enumerate(shape[1]):
                w = wb[v] if wb else mk('none')
                lo = lt(elem(li, num(i), ZERO), elem(g['getSolutionLowerBounds',], num(v), ZERO))
                up = lt(elem(g['getSolutionUpperBounds',], num(v), ZERO), elem(ui, num(i), ZERO))
                want = ite(eq(w, num(-1)), ite(lo, E['INACTIVE'], E['LOWER_BOUND']), ite(eq(w, ONE), ite(up, E['INACTIVE'], E['UPPER_BOUND']), E['INACTIVE']))
                cx.eq('%s: bound %d' % (base, i), got[0][shape[0] + i], want, F, WA, 'active bound of a variable: only those bounds which coincide with it')
            # nothing is guessed
            for shape2 in (shape, (shape[1] and 1 or 2, () if shape[1] else (1,))):
                nm = '%s, then: %s' % (base, shape_name(shape2, 'qpoases'))
                n0 = len(s.lib.calls)
                r = s.solve(shape2)
                if len(s.lib.calls) == n0:
                    cx.require(nm + ': library is called', False, W, '')
                    continue
                c = common(cx, s, nm, r, F, W)
                oases_program(cx, s, nm, c, F, W)
                oases_guesses(cx, s, nm, c, F, W)
                cx.require(nm + ': every attempt is made by a new object of the library', c['problem'].root != c0['problem'].root, W, '')
                c0 = c
                dead = deleted(s.ev)
                roots = [x['problem'].root for x in s.lib.calls]
                cx.require(nm + ': objects of the library are released once, never before they are used', dead is not None and sorted(dead, key=str) == sorted(roots[:-1], key=str), cx.where(cx.meth(s.key, 'reset', 0)), 'released %s of %s' % (dead, roots))


def infinity(cx):
    g = cx.P.G.get('humoto::g_infinity')
    if not g or not g.get('init'):
        raise Missing('humoto::g_infinity')
    ev = cx.eval()
    v = ev.rv(ev.ev(g['init']))
    W = '%s:%s' % (g.get('file', 'humoto::g_infinity'), g.get('l', 0))
    if not is_num(v):
        cx.und('infinity', W, 'not a constant: %s' % str(v)[:80])
    elif v.args[0] >= 10**20:
        cx.ok('infinity', W, 'bounds which do not restrict anything are not below the infinity of solvers (1e20)')
    else:
        cx.bad('infinity', W, 'solvers treat bounds from 1e20 on as absent, %s is enforced' % float(v.args[0]))


def check(cx):
    cx.guard('infinity', infinity, cx)
    for n in LIBS:
        cx.guard(n, globals()[n], cx)
