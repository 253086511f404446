"""C26: objects start determinate, use exactly the parameters they were given, and controllers follow their protocol."""
from fractions import Fraction as F
from .common import *
from sa.terms import _flat
from . import c16, c18
from .c16 import fork, rows_of
from .c14 import M, compare

PNS, WNS = 'humoto::pepper_mpc::', 'humoto::wpg04::'
SCALARS = ('int', 'float', 'enum', 'bool', 'ptr')
SETTERS = ('setParameters', 'setFootParameters')


# ------------------------------------------------------------------ leaves
def leaves(cx, key, pre=()):
    """scalar and fixed size matrix parts of a class: (path of fields, type)"""
    c = cx.P.C.get(key)
    if not c:
        return
    for b in c['bases']:
        for x in leaves(cx, b.get('key'), pre):
            yield x
    for f in c['fields']:
        t = cx.P.strip(f['t'])
        path = pre + (c['q'] + '::' + f['n'],)
        if t.get('k') in SCALARS:
            yield path, t, f
        elif (t.get('q') or '').startswith('Eigen::Matrix'):
            if (t.get('rows') or -1) > 0 and (t.get('cols') or -1) > 0:
                yield path, t, f
        elif t.get('k') == 'rec' and t.get('key') in cx.P.C:
            for x in leaves(cx, t['key'], path):
                yield x


def part(o, path):
    for q in path:
        o = fld(o, q)
    return o


def cells(v, t):
    if t.get('k') in SCALARS:
        return [v]
    return [elem(v, num(i), num(j)) for i in range(t['rows']) for j in range(t['cols'])]


def short(path):
    return '.'.join(q.split('::')[-1] for q in path)


def subterms(t, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack += _flat(x.args)


def raw(v, root):
    """the value depends on the contents of the memory in which the object was constructed"""
    return any(x.op == 'obj' and x.args[0] == root for x in subterms(v, set()))


def skipped(key):
    return not key.startswith('humoto::') or 'Log' in key.split('<')[0] or 'Timer' in key


def user_ctors(cx, key):
    return [cx.P.F[i] for i in cx.P.C[key]['methods'] if cx.P.F[i].get('ctor') and 'body' in cx.P.F[i] and not cx.P.F[i].get('implicit') and not cx.P.F[i].get('defaulted')]


def arguments(cx, f):
    out = []
    for i in range(len(f['params'])):
        t = cx.ptype(f, i)
        out.append(sym(uid('arg'), 'u' if t['k'] == 'int' else 'b' if t['k'] == 'bool' else 'r') if t['k'] in SCALARS else LV(uid('arg'), (), t.get('key')))
    return out


def determinate(cx, key):
    c = cx.P.C[key]
    n = 0
    for g in user_ctors(cx, key):
        ev = cx.eval()
        lv = LV(uid('fresh'), (), key)
        args = arguments(cx, g)
        res = cx.run(g, lv, args, ev)
        o = ev.load(lv)
        n = 1
        kept = set()
        seen = set()
        for t in [o, res.thrown()]:
            kept |= {x for x in subterms(t, seen)}
        for p, a in zip(g['params'], args):
            if not p.get('n') or not isinstance(a, T):
                continue
            nm = '%s(%s): %s matters' % (key, ', '.join(cx.P.strip(p['t']).get('s', '?') for p in g['params']), p['n'])
            if a in kept:
                cx.ok(nm, cx.where(g), 'the object depends on every argument of its constructor')
            else:
                cx.bad(nm, cx.where(g), 'the object does not depend on the argument')
        for path, t, f in leaves(cx, key):
            bad = [x for x in cells(part(o, path), t) if raw(x, lv.root)]
            nm = '%s(%s): %s is determinate' % (key, ', '.join(cx.P.strip(p['t']).get('s', '?') for p in g['params']), short(path))
            if bad:
                cx.bad(nm, cx.where(g), 'keeps the contents of the memory: %s' % str(bad[0])[:120])
            else:
                cx.ok(nm, cx.where(g), 'no constructor leaves a member without a value')
    if not n and not c.get('lambda'):
        own = [f for f in c['fields'] if cx.P.strip(f['t']).get('k') in SCALARS and f.get('access') not in (0, 'public')]
        for f in own:
            nm = '%s: %s is determinate' % (key, f['n'])
            if f.get('init'):
                cx.ok(nm, key, 'initializer of the member')
            else:
                cx.bad(nm, key, 'no constructor, no initializer, not accessible: the first read is of indeterminate memory')


def default_ctor(cx, key):
    g = [g for g in user_ctors(cx, key) if all('def' in p for p in g['params'])]
    if len(g) != 1 or g[0]['params']:
        return None
    return g[0]


def same_leaves(cx, nm, key, a, b, W, rule, pre_a=(), pre_b=()):
    for path, t, f in leaves(cx, key):
        for i, (x, y) in enumerate(zip(cells(part(a, pre_a + path), t), cells(part(b, pre_b + path), t))):
            cx.eq('%s: %s[%d]' % (nm, short(path), i), x, y, [], W, rule)


def bases_of(cx, key):
    out = []
    for b in cx.P.C.get(key, {}).get('bases', []):
        if b.get('key') in cx.P.C:
            out += [b['key']] + bases_of(cx, b['key'])
    return out


def holders(cx, key, q):
    """where an object of class q is kept: paths of fields, () for a base class"""
    out = []
    if q in bases_of(cx, key):
        out.append(())
    for k in [key] + bases_of(cx, key):
        for f in cx.P.C[k]['fields']:
            if cx.P.strip(f['t']).get('key') == q:
                out.append((cx.P.C[k]['q'] + '::' + f['n'],))
    return out


def setters(cx, key):
    for k in [key] + bases_of(cx, key):
        for i in cx.P.C[k]['methods']:
            f = cx.P.F[i]
            if f['n'] in SETTERS and 'body' in f and len(f['params']) == 1 and cx.ptype(f, 0).get('key') in cx.P.C:
                yield f, cx.ptype(f, 0)['key']


def parameters(cx, key):
    done = set()
    for f, q in setters(cx, key):
        if q in done:
            continue
        done.add(q)
        W = cx.where(f)
        ev = cx.eval()
        lv, given = LV(uid('object'), (), key), LV(uid('given'), (), q)
        r = cx.run(f, lv, [given], ev)
        at = holders(cx, key, q)
        nm = '%s::%s' % (key, f['n'])
        if len(at) != 1:
            cx.und(nm, W, '%d places for the parameters' % len(at))
            continue
        asis = r.thrown() is FALSE      # otherwise parameters are validated and completed: C12
        if asis:
            same_leaves(cx, nm, q, ev.load(lv), ev.load(given), W, 'all parameters are kept as given', at[0])
        g = [c for c in user_ctors(cx, key) if len(c['params']) == 1 and cx.ptype(c, 0).get('key') == q and not cx.P.C[key]['q'] == cx.P.C[q]['q']]
        d = default_ctor(cx, key)
        if g:
            e1 = cx.eval()
            a = LV(uid('object'), (), key)
            cx.run(g[0], a, [given], e1)
            if asis:
                same_leaves(cx, nm + ', constructor', q, e1.load(a), e1.load(given), cx.where(g[0]), 'all parameters are kept as given', at[0])
            if d:
                e2 = cx.eval()
                b = LV(uid('object'), (), key)
                cx.run(d, b, [], e2)
                cx.run(f, b, [given], e2)
                same_leaves(cx, nm + ', constructed or set', key, e1.load(a), e2.load(b), cx.where(g[0]), 'a constructor with parameters is a constructor and a setter')


# ---------------------------------------------------------------- protocol
def protocol(cx, key, p, upd, methods, by_solution, upd_args, state_key):
    hold = p.hook
    nm = key

    def stopped(ev, g, this, args, node):
        return FALSE if g['n'] == 'form' and 'PreviewHorizon' in g['q'] else hold(ev, g, this, args, node)
    upd_ = [f for f in upd if 'body' in f and len(f['params']) == len(upd_args)][:1]
    if not upd_:
        raise Missing(key + '::update')
    parse = cx.meth(p.key, 'parseSolution', 1)
    sol = LV(uid('solution'), (), cx.cls('humoto::Solution'))
    E = cx.P.enumval

    def call(f, ev, first=None):
        n0 = len(ev.throws)
        args = []
        for i in range(len(f['params'])):
            t = cx.ptype(f, i)
            k = t.get('key') or ''
            if k == p.mkey:
                args.append(p.model)
            elif k == 'humoto::Solution':
                args.append(sol)
            elif t['k'] in SCALARS:
                args.append(sym('protocol.arg%d' % i, 'u' if t['k'] == 'int' else 'r'))
            else:
                args.append(LV('protocol.' + k, (), k))
        r = cx.run(f, p.lv, args, ev)
        return r.ret, bor(*[t[0] for t in ev.throws[n0:]])

    def refuse(ev, when):
        for f in methods:
            ret, thr = call(f, fork(cx, ev))
            cx.holds('%s: %s is refused %s' % (nm, f['n'], when), thr, [], cx.where(f))

    W = cx.where(upd_[0])
    # a fresh controller
    ev = cx.eval()
    d = default_ctor(cx, p.key)
    if d:
        keep = p.lv
        fresh = LV(uid('fresh'), (), p.key)
        p.lv = fresh
        cx.run(d, fresh, [], ev)
        refuse(ev, 'before any solution')
        p.lv = keep
    # updated: the status and the solution structure
    e1 = fork(cx, p.ev)
    e1.objhook = hold
    r = cx.run(upd_[0], p.lv, upd_args, e1)
    cx.eq('%s: status of an update with a preview' % nm, r.ret, num(E['humoto::ControlProblemStatus::OK']), [], W)
    refuse(e1, 'until the solution is given')
    # with a solution
    e2 = fork(cx, e1)
    _, thr0 = call(parse, e2)
    results = {}
    for f in methods:
        ret, thr = call(f, fork(cx, e2))
        results[f['n'], len(f['params'])] = (ret, thr)
    for f in by_solution:
        ret, thr = call(f, fork(cx, e1))
        got = results.get((f['n'], len(f['params']) - 1))
        if got:
            cx.eq('%s: %s from the solution is refused' % (nm, f['n']), thr, bor(thr0, got[1]), [], cx.where(f), 'exactly when the solution or the state is')
            same_leaves(cx, '%s: %s from the solution' % (nm, f['n']), state_key, ret, got[0], cx.where(f), 'as after parsing the solution')
        ret, thr = call(f, fork(cx, e2))
        cx.holds('%s: %s does not parse a second solution' % (nm, f['n']), thr, [], cx.where(f))
    # nothing to preview any more
    e3 = fork(cx, e2)
    e3.objhook = stopped
    before = e3.load(p.lv)
    r = cx.run(upd_[0], p.lv, upd_args, e3)
    cx.eq('%s: status of an update without a preview' % nm, r.ret, num(E['humoto::ControlProblemStatus::STOPPED']), [], W, 'the caller stops')
    refuse(e3, 'after the preview has ended')
    # updated again
    e4 = fork(cx, e2)
    e4.objhook = hold
    cx.run(upd_[0], p.lv, upd_args, e4)
    refuse(e4, 'for an old solution')


def mobile(cx):
    p = c18.Problem(cx, 2)
    ms = [f for n, k in (('getNextModelState', 1), ('getModelState', 2)) for f in c18.overloads(cx, n, k)]
    by = c18.overloads(cx, 'getNextModelState', 2)
    protocol(cx, 'MPCforMG', p, list(c18.overloads(cx, 'update', 2)), ms, by, [LV(uid('motion'), (), cx.cls(PNS + 'MotionParameters')), p.model], cx.cls(PNS + 'ModelState'))


def walking(cx):
    p = c16.Problem(cx, c16.SCENARIOS[1])
    W = lambda n, k: [f for f in cx.P.methods(p.key, n) if 'body' in f and len(f['params']) == k]
    ms = W('getNextModelState', 2) + W('getFootLandingState', 1) + W('getCoMState', 2)
    args = [p.model, LV(uid('fsm'), (), cx.cls('humoto::walking::StanceFiniteStateMachine')), LV(uid('wp'), (), cx.cls(WNS + 'WalkParameters'))]
    protocol(cx, 'MPCforWPG', p, cx.P.methods(p.key, 'update'), ms, W('getNextModelState', 3), args, cx.cls(WNS + 'ModelState'))


# ------------------------------------------------------------------- timer
def timer(cx):
    """durations are differences of consecutive readings of the clock"""
    key = cx.cls('humoto::Timer')
    reads = []

    def clock(ev, n, q, base, op, args):
        if q != 'gettimeofday':
            return NotImplemented
        t = sym(uid('sec'), 'i'), sym(uid('usec'), 'i')
        reads.append(add(t[0], mul(num(F(1, 1000000)), t[1])))
        ev.store(ev.deref(ev.val(args[0])), upd(upd(mk('default', 'timeval'), 'timeval::tv_sec', t[0]), 'timeval::tv_usec', t[1]))
        return ZERO
    start, stop, get = (cx.meth(key, n, 0) for n in ('start', 'stop', 'get'))
    W = cx.where(stop)
    ev = cx.eval(skip=())
    ev.libhook = clock
    lv = LV(uid('timer'), (), key)
    cx.run(default_ctor(cx, key), lv, [], ev)
    if len(reads) != 1:
        cx.und('timer', W, 'clock of another kind')
        return
    cx.eq('timer: nothing has been measured', cx.run(get, lv, [], ev).ret, ZERO, [], cx.where(get))
    a = cx.run(stop, lv, [], ev).ret
    cx.eq('timer: since the construction', a, sub(reads[1], reads[0]), [], W, 'seconds between readings')
    cx.eq('timer: the last duration', cx.run(get, lv, [], ev).ret, a, [], cx.where(get), 'as measured last')
    cx.run(start, lv, [], ev)
    b = cx.run(stop, lv, [], ev).ret
    cx.eq('timer: since the last start', b, sub(reads[3], reads[2]), [], W, 'seconds between readings')
    c = cx.run(stop, lv, [], ev).ret
    cx.eq('timer: stopped again', c, sub(reads[4], reads[2]), [], W, 'seconds between readings')
    cx.eq('timer: the last duration again', cx.run(get, lv, [], ev).ret, c, [], cx.where(get), 'as measured last')


# ---------------------------------------------------------- derived values
def derived(cx):
    sec = lambda t: div(t, num(1000))
    for ns, names in ((PNS, ('preview_horizon_length_', 'sampling_time_ms_', 'subsampling_time_ms_')), (WNS, ('preview_horizon_length_', 'sampling_time_ms_', 'subsampling_time_ms_', 'tds_sampling_time_ms_'))):
        key = cx.cls(ns + 'MPCParameters')
        g = [c for c in user_ctors(cx, key) if len(c['params']) == len(names)]
        if not g:
            raise Missing(key)
        W = cx.where(g[0])
        args = [sym(uid('given'), 'u') for _ in names]
        ev = cx.eval()
        lv = LV(uid('par'), (), key)
        ok = [lt(ZERO, args[2])]
        r = cx.run(g[0], lv, args, ev)
        o = ev.load(lv)
        for n, a in zip(names, args):
            cx.eq('%s: %s' % (key, n), fld(o, ns + 'MPCParameters::' + n), a, ok, W, 'as given')
        fit = []
        if ns == WNS:
            k = [mk('imod', args[i], args[2]) for i in (1, 3)]
            fit = [neg_b(r.thrown())]
            for q in (2, 3):
                for a, b, good in ((200, 100, True), (250, 100, False), (100, 200, False), (100, 100, True), (30, 10, True), (99, 100, False)):
                    v = [num(16), num(b * 3), num(b), num(b * 5)]
                    v[1 if q == 2 else 3] = num(a)
                    r2 = cx.run(g[0], LV(uid('par'), (), key), v, cx.eval())
                    nm = '%s: %s %d, subsampling %d' % (key, names[1 if q == 2 else 3], a, b)
                    if good:
                        cx.never(nm + ' is refused', r2.thrown(), [], W)
                    else:
                        cx.holds(nm + ' is refused', r2.thrown(), [], W)
        else:
            cx.never('%s: refused' % key, r.thrown(), ok, W)
        for m, i in (('getSamplingTime', 1), ('getSubsamplingTime', 2)):
            try:
                x = cx.get(key, lv, m, ev=ev)
            except Missing:
                continue
            cx.eq('%s: %s' % (key, m), x, sec(args[i]), ok + fit, W, 'in seconds')
    x, y, tol = sym('x', 'r'), sym('y', 'r'), sym('tol', 'r')
    pi = cx.P.G.get('humoto::g_pi')
    ev = cx.eval()

    def one(n, args, want, facts=()):
        f = cx.fn('humoto::' + n)
        cx.eq(n, cx.run(f, None, args).ret, want, list(facts), cx.where(f), 'conversion of units')
        return f
    for n, args, want in (('convertMillisecondToSecond', [sym('ms', 'u')], div(sym('ms', 'u'), num(1000))), ('isApproximatelyEqual', [x, y, tol], band(lt(sub(x, y), tol), lt(sub(y, x), tol)))):
        cx.guard(n, one, n, args, want)

    def angles():
        d, r = cx.fn('humoto::convertDegreesToRadians'), cx.fn('humoto::convertRadiansToDegrees')
        g = cx.eval()
        p = g.rv(g.ev(pi['init']))
        cx.eq('degrees to radians', cx.run(d, None, [x]).ret, div(mul(x, p), num(180)), [], cx.where(d), 'half a turn is pi')
        cx.eq('radians to degrees and back', cx.run(d, None, [cx.run(r, None, [x]).ret]).ret, x, [], cx.where(r), 'inverse')
    cx.guard('angles', angles)
    cx.guard('timer', timer, cx)

    def times():
        for n, halves in (('convertSecondToMillisecond', ((0, 0), (1, 1000), (F(1, 1000), 1), (F(25, 10), 2500), (F(16, 10000), 2), (F(14, 10000), 1), (F(123456, 1000000), 123))),
                          ('truncateSecondToMillisecond', ((0, 0), (1, 1000), (F(16, 10000), 1), (F(25, 10), 2500), (F(19999, 10000000), 1), (F(123956, 1000000), 123)))):
            f = cx.fn('humoto::' + n)
            for a, b in halves:
                cx.eq('%s(%s)' % (n, a), cx.run(f, None, [num(a)]).ret, num(b), [], cx.where(f), 'nearest or completed milliseconds')
    cx.guard('times', times)


def states(cx):
    """states and accessors of the models of the mobile base"""
    MSQ, RB = PNS + 'ModelState', 'humoto::rigidbody::'
    key, mkey = cx.cls(MSQ), cx.cls(PNS + 'Model')
    by = {len(f['params']): f for f in cx.P.methods(key, 'set') if 'body' in f}
    f = by.get(2)
    if f:
        ev = cx.eval()
        lv, a, b = LV(uid('state'), (), key), LV(uid('base'), (), cx.cls(RB + 'RigidBodyState')), LV(uid('body'), (), cx.cls(RB + 'PointMassState'))
        cx.run(f, lv, [a, b], ev)
        o = ev.load(lv)
        same_leaves(cx, 'state set by states: base', a.cls, o, ev.load(a), cx.where(f), 'as given', (MSQ + '::base_state_',))
        same_leaves(cx, 'state set by states: body', b.cls, o, ev.load(b), cx.where(f), 'as given', (MSQ + '::body_state_',))
    for m, q, k in (('getBodyState', 'body_state_', 'PointMassState'), ('getBaseState', 'base_state_', 'RigidBodyState')):
        lv = LV(uid('model'), (), mkey)
        ev = cx.eval()
        r = cx.get(mkey, lv, m, ev=ev)
        same_leaves(cx, 'model: ' + m, cx.cls(RB + k), r, ev.load(lv), cx.where(cx.meth(mkey, m, 0)), 'state of the model', (), (PNS + 'Model::state_', MSQ + '::' + q))
    # matrices of both axes are those of one axis
    lv = LV(uid('model'), (), mkey)
    T_ = sym(uid('T'), 'r')
    for six, three, r, c in (('getDj6', 'getDjs3', 1, 3), ('getEjs6', 'getEjs3', 1, 1)):
        def one():
            f = cx.meth(mkey, six, 1)
            ev = cx.eval()
            res = cx.run(f, lv, [T_], ev)
            cx.never('model: %s fails' % six, res.thrown(), [], cx.where(f))
            v = cx.get(mkey, lv, three, [T_], ev=ev, nparams=1)
            m = rows_of(v, r, c) if is_mat(v) else [[v]]
            want = [[m[i % r][j % c] if i // r == j // c else ZERO for j in range(2 * c)] for i in range(2 * r)]
            compare(cx, 'model: %s' % six, res.ret, want, [], cx.where(f), 'the same for both axes')
        cx.guard(six, one)


def check(cx):
    for key in sorted(cx.P.C):
        if skipped(key):
            continue
        cx.guard('%s: construction' % key, determinate, cx, key)
        cx.guard('%s: parameters' % key, parameters, cx, key)
    cx.guard('mobile base', mobile, cx)
    cx.guard('walking', walking, cx)
    cx.guard('derived values', derived, cx)
    cx.guard('states', states, cx)
