"""C24: warm starts of the controllers: guesses of active sets and solutions follow the shift of the preview."""
from .common import *
from . import c16, c18
from .c16 import fork, structure, SCENARIOS
from .c14 import M, compare, seq
from .c05 import act

ASC = 'humoto::ActiveSetConstraints'
PEPPER = ('TaskBaseVelocityBounds', 'TaskBaseAccelerationBounds', 'TaskBodyPositionBounds', 'TaskCoPPositionBounds')
PEPPER_NS, WPG = 'humoto::pepper_mpc::', 'humoto::wpg04::'
TYPES = ('UPPER_BOUND', 'LOWER_BOUND', 'INACTIVE', 'EQUALITY', 'UNDEFINED')


class Task(object):
    def __init__(self, cx, key, lv, ev):
        self.cx, self.key, self.lv, self.ev = cx, key, lv, ev
        self.base = cx.cls('humoto::TaskBase')
        self.ask = cx.cls(ASC)

    def view(self, getter):
        f = self.cx.meth(self.base, getter, 0)
        x = self.ev.call_body(f, LV(self.lv.root, self.lv.path, self.base), [], {'k': 'call'})
        return LV(x.root, x.path, self.ask)

    def put(self, types):
        """the active set of the previous solution"""
        cx, ev = self.cx, self.ev
        lv = self.view('getActualActiveSet')
        f = cx.meth(self.ask, 'initialize', 2, pred=lambda g: cx.ptype(g, 0).get('k') != 'rec')
        ev.call_body(f, lv, [num(len(types)), act(cx, 'UNDEFINED')], {'k': 'call'})
        at = [g for g in cx.P.methods(self.ask, 'operator[]') if not g.get('const')][0]
        for i, t in enumerate(types):
            ev.store(ev.call_body(at, lv, [num(i)], {'k': 'call'}), t)

    def guess(self, owner, sol, model, problem):
        """number of entries, entries, condition of a refusal"""
        cx = self.cx
        f = cx.meth(owner, 'guessActiveSet', 3)
        self.W = cx.where(f)
        n0 = len(self.ev.throws)
        cx.run(f, LV(self.lv.root, self.lv.path, owner), [sol, model, problem], self.ev)
        thr = bor(*[t[0] for t in self.ev.throws[n0:]])
        lv = self.view('getActiveSetGuess')
        return lv, thr

    def size(self, lv):
        return self.cx.get(self.ask, lv, 'size', ev=self.ev)

    def at(self, lv, i):
        return self.cx.get(self.ask, lv, 'operator[]', args=[num(i)], ev=self.ev)


def given(n):
    return [sym(uid('active%d' % i), 'i') for i in range(n)]


def expect(cx, nm, t, lv, thr, want, facts, rule):
    cx.never(nm + ': refused', thr, facts, t.W)
    ok = facts + [neg_b(thr)]
    cx.eq(nm + ': number of entries', t.size(lv), num(len(want)), ok, t.W, 'one entry per constraint of the task')
    for i, x in enumerate(want):
        cx.eq('%s: entry %d' % (nm, i), t.at(lv, i), x, ok, t.W, rule)


def shifts(cx, p, name, make, n, facts, other=None):
    """one task whose constraints are ordered by intervals, two for each one"""
    off = act(cx, 'INACTIVE')
    nm = '%s: %s' % (p.nm, name)
    t = make()
    t.put([])
    lv, thr = t.guess(t.key, *p.args)
    expect(cx, nm + ': first guess', t, lv, thr, [off] * n, facts, 'nothing is known')
    old = given(n)
    t = make()
    t.put(old)
    lv, thr = t.guess(t.key, *p.args)
    expect(cx, nm + ': next guess', t, lv, thr, old[2:] + [off, off], facts, 'active set of the previous solution one interval later')
    for k in (n - 2, n + 2, n + 1):
        if k > 0:
            t = make()
            t.put(given(k))
            lv, thr = t.guess(t.key, *p.args)
            cx.holds('%s: active set of %d instead of %d constraints is refused' % (nm, k, n), thr, facts, t.W)
    if other is not None:
        for k in (0, n):
            old = given(k)
            a, b = make(), make()
            b.lv = a.lv
            b.ev = fork(cx, a.ev)
            for x in (a, b):
                x.put(old)
            la, ta = a.guess(a.key, *p.args)
            lb, tb = b.guess(b.base, *p.args)
            what = '%s: several samples in an interval, %d old entries' % (nm, k)
            cx.eq(what + ': refusal', ta, tb, other, a.W, 'as tasks which do not move with the time')
            ok = other + [neg_b(ta), neg_b(tb)]
            cx.eq(what + ': number of entries', a.size(la), b.size(lb), ok, a.W, 'as tasks which do not move with the time')
            for i in range(n):
                cx.eq('%s: entry %d' % (what, i), a.at(la, i), b.at(lb, i), ok + [eq(b.size(lb), num(n))], a.W, 'as tasks which do not move with the time')


def pepper(cx, N):
    p = c18.Problem(cx, N)
    p.update(c18.overloads(cx, 'update', 2)[0])
    p.sol = LV(p.lv.root, p.lv.sub(('f', 'humoto::ControlProblem::sol_structure_')).path, cx.cls('humoto::SolutionStructure'))
    p.args = [p.sol, p.model, p.lv]
    par = p.ev.load(p.lv.sub(('f', c18.MPC + '::mpc_parameters_')))
    T, Ts = [fld(par, PEPPER_NS + 'MPCParameters::' + n) for n in ('sampling_time_ms_', 'subsampling_time_ms_')]
    for name in PEPPER:
        def one():
            key, lv, ev, W = c18.formed(cx, p, name)

            def make():
                return Task(cx, key, lv, fork(cx, ev))
            t = make()
            n = cx.get(key, lv, 'getNumberOfConstraints', ev=t.ev)
            cx.eq('%s: %s: number of constraints' % (p.nm, name), n, num(2 * N), [], W, 'two for each interval')
            shifts(cx, p, name, make, 2 * N, [neg_b(lt(Ts, T))], [lt(Ts, T)])
        cx.guard('%s: %s' % (p.nm, name), one)


def wpg(cx, sc):
    p = c16.Problem(cx, sc)
    p.update()
    p.sol = LV(p.lv.root, p.lv.sub(('f', 'humoto::ControlProblem::sol_structure_')).path, cx.cls('humoto::SolutionStructure'))
    p.args = [p.sol, p.model, p.lv]
    off, fixed = act(cx, 'INACTIVE'), act(cx, 'EQUALITY')

    def cop():
        key, lv, ev, W = c16.formed(cx, p, 'TaskCoPBounds')
        shifts(cx, p, 'TaskCoPBounds', lambda: Task(cx, key, lv, fork(cx, ev)), 2 * p.N, [])

    def feet():
        name = 'TaskFootstepBounds'
        key, lv, ev, W = c16.formed(cx, p, name)
        fix = fld(mk('obj', lv.root), WPG + name + '::fix_footsteps_')
        n = 2 * p.K
        nm = '%s: %s' % (p.nm, name)
        for k in (0, n - 2, n, n + 2):
            if k < 0:
                continue
            old = given(k)
            if k == 0:
                want, rule = [off] * n, 'nothing is known'
            elif k <= n:
                want, rule = old + [off] * (n - k), 'the steps known before, then new ones'
            else:
                want, rule = old[2:], 'the first step has been made'
            t = Task(cx, key, lv, fork(cx, ev))
            t.put(old)
            g, thr = t.guess(key, *p.args)
            expect(cx, '%s: %d steps after %d' % (nm, p.K, k // 2), t, g, thr, want, [neg_b(fix)], rule)
            cx.never('%s: fixed steps refused' % nm, thr, [fix], t.W)
            cx.eq('%s: %d fixed steps after %d: number of entries' % (nm, p.K, k // 2), t.size(g), num(n), [fix], t.W, 'one entry per constraint')
            for i in range(n):
                cx.eq('%s: %d fixed steps after %d: entry %d' % (nm, p.K, k // 2, i), t.at(g, i), fixed, [fix], t.W, 'fixed steps are equalities')
    cx.guard(p.nm + ': CoP', cop)
    if p.K:
        cx.guard(p.nm + ': footsteps', feet)


def solutions(cx):
    """without a previous solution the guess is a vector of zeros of the right size"""
    sk = cx.cls('humoto::Solution')
    for ns, cls, parts in ((PEPPER_NS, c18.MPC, ('BASE_VEL_VARIABLES_ID', 'BODY_JERK_VARIABLES_ID')), (WPG, c16.MPC, ('COP_VARIABLES_ID', 'FOOTPOS_VARIABLES_ID'))):
        def one():
            f = cx.meth(cx.cls(cls), 'guessSolution', 2)
            W = cx.where(f)
            ev = cx.eval()
            lv = LV(uid('mpc'), (), cx.cls(cls))
            key = cx.cls('humoto::SolutionStructure')
            st = LV(uid('structure'), (), key)
            cx.run(cx.meth(key, 'reset', 0), st, [], ev)
            n = (6, 4)
            for g, k in zip(parts, n):
                cx.run(cx.meth(key, 'addSolutionPart', 2), st, [ev.rv(ev.ev(cx.P.G[ns + g]['init'])), num(k)], ev)
            ev.store(lv.sub(('f', 'humoto::ControlProblem::sol_structure_')), ev.load(st))
            old, out = LV(uid('old'), (), sk), LV(uid('guess'), (), sk)
            for c in cx.P.methods(sk, 'Solution'):
                if c.get('ctor') and not c['params'] and 'body' in c:
                    cx.run(c, old, [], ev)
            n0 = len(ev.throws)
            cx.run(f, lv, [out, old], ev)
            nm = '%s: guess without a previous solution' % cls.split('::')[-1]
            cx.never(nm + ': refused', bor(*[t[0] for t in ev.throws[n0:]]), [], W)
            compare(cx, nm, fld(ev.load(out), 'humoto::Solution::x_'), [[ZERO]] * sum(n), [], W, 'nothing is known')
        cx.guard('guess of %s' % cls, one)


def check(cx):
    cx.guard('solutions', solutions, cx)
    for n in (2, 3, 1) + ((4,) if cx.tier != 'quick' else ()):
        cx.guard('mobile base', pepper, cx, n)
    for sc in (SCENARIOS if cx.tier != 'quick' else SCENARIOS[:2] + SCENARIOS[4:6]):
        cx.guard('walking', wpg, cx, sc)
