"""C12: the walking state machine alternates stances as configured; shifting time and previewing follow its transitions."""
from .common import *

W_ = 'humoto::walking::'
FSM = W_ + 'StanceFiniteStateMachine'
PAR = W_ + 'StanceFSMParameters'
STAGES = 4


class Machine(object):
    def __init__(self, cx):
        self.cx = cx
        self.key = cx.cls(FSM)
        self.pkey = cx.cls(PAR)
        self.skey = cx.cls(W_ + 'Stance')
        E = cx.P.enumval
        self.T = {n: num(E[W_ + 'StanceType::' + n]) for n in ('UNDEFINED', 'DS', 'LSS', 'RSS', 'TDS')}
        self.S = {n: num(E[W_ + 'StanceSubType::' + n]) for n in ('UNDEFINED', 'FIRST', 'INTERMEDIATE', 'LAST')}

    def new(self, name='fsm'):
        ev = self.cx.eval()
        ev.peel = 0
        return ev, LV(uid(name), (), self.key)

    def f(self, v, n):
        return fld(v, FSM + '::' + n)

    def s(self, v, n):
        """field of the current stance"""
        return fld(self.f(v, 'current_stance_'), W_ + 'Stance::' + n)

    def st(self, v, n):
        return fld(v, W_ + 'Stance::' + n)

    def p(self, v, n):
        return fld(v, PAR + '::' + n)

    def par(self, v, n):
        return self.p(self.f(v, 'sfsm_params_'), n)


STATE = ('type_', 'subtype_', 'duration_ms_', 'previous_nonds_stance_type_', 'previous_nontds_stance_type_')
PARAMS = ('first_stance_', 'first_ss_type_', 'last_stance_', 'ss_duration_ms_', 'tds_duration_ms_', 'first_stance_duration_ms_', 'last_stance_duration_ms_', 'num_steps_')


def isin(x, *vals):
    return bor(*[eq(x, v) for v in vals])


def helpers(cx):
    m = Machine(cx)
    T = m.T
    E = cx.P.enumval
    f = cx.fn(W_ + 'determineSupportFoot', 1)
    t = sym('type', 'i')
    r = cx.run(f, None, [t])
    W = cx.where(f)
    for n, v in (('LSS', 'LEFT'), ('RSS', 'RIGHT')):
        cx.eq('support foot of ' + n, r.ret, num(E['humoto::LeftOrRight::' + v]), [eq(t, T[n])], W, 'the foot named by the stance')
    cx.eq('support foot is refused exactly for stances that are not single supports', r.thrown(), neg_b(isin(t, T['LSS'], T['RSS'])), [], W)
    f = cx.meth(m.pkey, 'getDurationMs', 1)
    lv = LV(uid('params'), (), m.pkey)
    r = cx.run(f, lv, [t])
    W = cx.where(f)
    pv = mk('obj', lv.root)
    for n, q in (('LSS', 'ss'), ('RSS', 'ss'), ('TDS', 'tds'), ('DS', 'last_stance')):
        cx.eq('duration of ' + n, r.ret, m.p(pv, q + '_duration_ms_'), [eq(t, T[n])], W, 'the configured duration')
    cx.eq('duration is refused exactly for unknown stances', r.thrown(), neg_b(isin(t, *[T[n] for n in ('LSS', 'RSS', 'TDS', 'DS')])), [], W)


def start(cx):
    m = Machine(cx)
    T, S = m.T, m.S
    ways = [('reconfigured', cx.meth(m.key, 'setParameters', 1))]
    for g in cx.P.C[m.key]['methods']:
        g = cx.P.F[g]
        if g.get('ctor') and not g.get('implicit') and len(g['params']) == 1 and 'body' in g and cx.ptype(g, 0).get('q') == PAR:
            ways.append(('constructed', g))
    for nm, f in ways:
        ev, lv = m.new()
        plv = LV(uid('params'), (), m.pkey)
        pv = mk('obj', plv.root)
        r = cx.run(f, lv, [plv], ev)
        post = ev.load(lv)
        W = cx.where(f)
        first, ss, n = m.p(pv, 'first_stance_'), m.p(pv, 'first_ss_type_'), m.p(pv, 'num_steps_')
        single = isin(first, T['LSS'], T['RSS'])
        good = band(neg_b(eq(n, ONE)), bor(single, band(eq(first, T['DS']), isin(ss, T['LSS'], T['RSS'], T['UNDEFINED']))))
        nn = [le(ZERO, n)]
        cx.eq(nm + ': malformed parameters are refused, others accepted', r.thrown(), neg_b(good), nn, W)
        F = [good] + nn
        cx.eq(nm + ': starts with the configured stance', m.s(post, 'type_'), first, F, W)
        cx.eq(nm + ': starts with the configured duration', m.s(post, 'duration_ms_'), m.p(pv, 'first_stance_duration_ms_'), F, W)
        cx.eq(nm + ': starts at time zero', m.f(post, 'current_time_ms_'), ZERO, F, W)
        cx.eq(nm + ': the first stance is marked', m.s(post, 'subtype_'), S['FIRST'], F, W)
        cx.eq(nm + ': no transitional support has been started', m.f(post, 'is_tds_started_'), FALSE, F, W)
        cx.eq(nm + ': no stance before the first one', m.s(post, 'previous_nontds_stance_type_'), T['UNDEFINED'], F, W)
        walk_ = [bor(single, isin(ss, T['LSS'], T['RSS']))]
        cx.eq(nm + ': as many single supports as configured', m.f(post, 'ss_states_to_termination_'), n, F + walk_, W)
        prev = m.s(post, 'previous_nonds_stance_type_')
        for a, b in (('LSS', 'RSS'), ('RSS', 'LSS')):
            cx.eq('%s: a walk starting in %s' % (nm, a), prev, T[a], F + [eq(first, T[a])], W, 'the next single support is on the other side')
            cx.eq('%s: a walk starting in DS towards %s' % (nm, a), prev, T[b], F + [eq(first, T['DS']), eq(ss, T[a])], W, 'the next single support is the configured one')
        cx.eq(nm + ': without a first single support there are no steps', m.f(post, 'ss_states_to_termination_'), ZERO, F + [eq(first, T['DS']), eq(ss, T['UNDEFINED'])], W,
              'standing still')
        for q in PARAMS:
            if q == 'num_steps_':
                cx.eq('%s: parameter %s is kept' % (nm, q), m.par(post, q), m.p(pv, q), F + walk_, W)
            else:
                cx.eq('%s: parameter %s is kept' % (nm, q), m.par(post, q), m.p(pv, q), F, W)


def shift(cx):
    m = Machine(cx)
    T, S = m.T, m.S
    f = cx.meth(m.key, 'shiftStance', 0)
    W = cx.where(f)
    ev, lv = m.new()
    pre = mk('obj', lv.root)
    r = cx.run(f, lv, [], ev)
    post = ev.load(lv)
    ty, pn, n = m.s(pre, 'type_'), m.s(pre, 'previous_nonds_stance_type_'), m.f(pre, 'ss_states_to_termination_')
    nn = [le(ZERO, n)]
    known = isin(ty, *[T[k] for k in ('DS', 'TDS', 'LSS', 'RSS')])
    stuck = band(eq(ty, T['TDS']), lt(ZERO, n), neg_b(isin(pn, T['LSS'], T['RSS'])))
    cx.eq('transition: refused exactly for unknown stances and unknown sides', r.thrown(), bor(neg_b(known), stuck), nn, W)
    F = nn + [known, neg_b(stuck)]
    D = lambda q: m.par(pre, q + '_duration_ms_')

    def case(name, facts, type_, dur, nonds, nontds, left, tds, sub=None):
        facts = F + facts
        g = lambda what, a, b: cx.eq('transition from %s: %s' % (name, what), a, b, facts, W)
        g('next stance', m.s(post, 'type_'), T[type_])
        g('duration', m.s(post, 'duration_ms_'), D(dur))
        g('last single support', m.s(post, 'previous_nonds_stance_type_'), nonds)
        g('last stance that is not transitional', m.s(post, 'previous_nontds_stance_type_'), nontds)
        g('remaining single supports', m.f(post, 'ss_states_to_termination_'), left)
        g('time restarts', m.f(post, 'current_time_ms_'), ZERO)
        g('position in the walk', m.s(post, 'subtype_'), S[sub or 'INTERMEDIATE'])
        if tds is not None:
            g('start of a transitional support is signalled', m.f(post, 'is_tds_started_'), tds)
        for q in PARAMS:
            g('parameter %s is kept' % q, m.par(post, q), m.par(pre, q))
    pt = m.s(pre, 'previous_nontds_stance_type_')
    for a in ('LSS', 'RSS'):
        case(a, [eq(ty, T[a])], 'TDS', 'tds', T[a], T[a], n, TRUE)
    for a, b in (('LSS', 'RSS'), ('RSS', 'LSS')):
        case('TDS after ' + a, [eq(ty, T['TDS']), lt(ZERO, n), eq(pn, T[a])], b, 'ss', pn, pt, sub(n, ONE), FALSE)
    case('the last TDS', [eq(ty, T['TDS']), eq(n, ZERO)], 'DS', 'last_stance', pn, pt, ZERO, FALSE, 'LAST')
    case('DS', [eq(ty, T['DS']), lt(ZERO, n)], 'TDS', 'tds', pn, T['DS'], n, TRUE)
    case('the last DS', [eq(ty, T['DS']), eq(n, ZERO)], 'DS', 'last_stance', pn, T['DS'], ZERO, None)


def scenarios(cx, m):
    """machines in front of each kind of stance, with few or many single supports left"""
    T = m.T
    for a in ('LSS', 'RSS', 'TDS', 'DS'):
        for b in ('LSS', 'RSS'):
            if a in ('LSS', 'RSS') and a != b:
                continue
            for k in ((0, 1, 2, None) if cx.tier != 'quick' else (0, 1, None)):
                yield '%s after %s, %s single supports left' % (a, b, 'many' if k is None else k), T[a], T[b], k


class Case(object):
    """a machine in a given stance, its future stances and the facts about its times"""

    def __init__(self, cx, m, ty, side, left, depth):
        self.cx, self.m = cx, m
        self.ev, self.lv = m.new()
        n = num(left) if left is not None else sym(uid('steps'), 'i')
        st = self.lv.sub(('f', FSM + '::current_stance_'))
        for q, v in (('type_', ty), ('previous_nonds_stance_type_', side)):
            self.ev.store(st.sub(('f', W_ + 'Stance::' + q)), v)
        self.ev.store(self.lv.sub(('f', FSM + '::ss_states_to_termination_')), n)
        self.known = []
        if left is None:
            self.known = [lt(ZERO, sub(n, num(j))) for j in range(depth + 3)] + [neg_b(eq(sub(n, num(j)), ZERO)) for j in range(depth + 3)]
        self.pre = self.ev.load(self.lv)
        f = cx.meth(m.key, 'shiftStance', 0)
        e = self.fork()
        self.seq = [self.pre]
        for i in range(depth):
            e.call_body(f, self.lv, [], {'k': 'call'})
            self.seq.append(e.load(self.lv))
        cx.analysed |= e.analysed
        self.t = m.f(self.pre, 'current_time_ms_')
        self.d = [m.s(v, 'duration_ms_') for v in self.seq]
        self.left = sub(self.d[0], self.t)
        self.facts = [le(ZERO, self.t), lt(self.t, self.d[0])] + [lt(ZERO, x) for x in self.d] + self.known
        self.throws = bor(*[t[0] for t in e.throws])

    def fork(self, peel=0):
        e = self.cx.eval()
        e.st = self.ev.st.copy()
        e.ntmp, e.nframe = self.ev.ntmp + 1000, self.ev.nframe + 1000
        for c in self.known:
            e.learn(e.st, c)
        e.peel = peel
        return e

    def spans(self, k, r):
        """length that ends r after the start of the k-th future stance, and what is known about it"""
        parts = [self.left] + self.d[1:k]
        total = add(*(parts[:k] + [r])) if k else r
        known = []
        for i in range(k + 1):
            rest = add(*(parts[i:k] + [r])) if i < k else r
            if rest is not ZERO:
                known += [lt(ZERO, rest), le(ZERO, rest), neg_b(eq(rest, ZERO))]
        for i in range(k):
            known += [lt(ZERO, parts[i]), le(ZERO, parts[i])]
        return total, known

    def length(self, k):
        return self.left if k == 0 else self.d[k]


def timing(cx):
    m = Machine(cx)
    K = 3 if cx.tier == 'quick' else 6
    f = cx.meth(m.key, 'shiftTime', 1)
    W = cx.where(f)
    keep = [(lambda n: (lambda v: m.s(v, n)))(n) for n in STATE] + [lambda v: m.f(v, 'ss_states_to_termination_')] + [(lambda n: (lambda v: m.par(v, n)))(n) for n in PARAMS]
    names = list(STATE) + ['ss_states_to_termination_'] + list(PARAMS)
    for nm, ty, side, left in scenarios(cx, m):
        c = Case(cx, m, ty, side, left, K)
        for k in range(K + 1):
            for r in (ZERO, sym('r', 'i')):
                s, known = c.spans(k, r)
                if r is not ZERO:
                    known = known + [lt(r, c.length(k))]
                e = c.fork(K + 2)
                R = cx.run(f, c.lv, [s], e, known=c.facts + known)
                post = e.load(c.lv)
                F = c.facts + known
                g = '%s, shift to %s of stance %d' % (nm, 'the start' if r is ZERO else 'a time', k)
                cx.never(g + ': accepted', R.thrown(), F, W, 'the shift terminates without failure')
                for n, q in zip(names, keep):
                    cx.eq('%s: %s' % (g, n), q(post), q(c.seq[k]), F, W, 'as many transitions as stances are completed')
                cx.eq(g + ': time inside the stance', m.f(post, 'current_time_ms_'), add(c.t, r) if k == 0 else r, F, W, 'exactly the given time elapses')
                if r is not ZERO:
                    cx.eq(g + ': no start of a transitional support is signalled', m.f(post, 'is_tds_started_'), FALSE, F, W, 'the start has passed')
                elif k == 0 or left is not None or True:
                    cx.eq(g + ': start of a transitional support', m.f(post, 'is_tds_started_'), m.f(c.seq[k], 'is_tds_started_'), F, W, 'as signalled by the transition')


def preview(cx):
    m = Machine(cx)
    T = m.T
    K = 3 if cx.tier == 'quick' else 6
    f = cx.meth(m.key, 'previewStances', 1)
    W = cx.where(f)
    pf = ('type_', 'subtype_', 'previous_nonds_stance_type_', 'previous_nontds_stance_type_')
    for nm, ty, side, left in scenarios(cx, m):
        c = Case(cx, m, ty, side, left, K + 1)
        for k in range(K + 1):
            if k and m.f(c.seq[k - 1], 'ss_states_to_termination_') is ZERO and m.s(c.seq[k - 1], 'type_') is T['DS']:
                break       # nothing is known beyond the final double support
            for r in (sym('r', 'i'), c.length(k)):
                s, known = c.spans(k, r)
                if r is not c.length(k):
                    known = known + [lt(r, c.length(k)), le(r, c.length(k))]
                e = c.fork(K + 2)
                R = cx.run(f, c.lv, [s], e, known=c.facts + known)
                F = c.facts + known
                g = '%s, preview to %s of stance %d' % (nm, 'the end' if r is c.length(k) else 'a time', k)
                cx.require_same(g + ': the state machine is not changed', e.load(c.lv), c.pre, F, W)
                tds = eq(m.s(c.seq[k], 'type_'), T['TDS'])
                cx.never(g + ': accepted', R.thrown(), F, W, 'the preview terminates without failure')
                cx.eq(g + ': number of stances', vsize(R.ret), add(num(k + 1), ite(tds, ONE, ZERO)), F, W, 'every previewed stance once, and one after a transitional support')
                for i in range(k + 1):
                    x = vsel(R.ret, num(i))
                    for q in pf:
                        cx.eq('%s: %s of stance %d' % (g, q, i), m.st(x, q), m.s(c.seq[i], q), F, W, 'the sequence of transitions')
                    cx.eq('%s: duration of stance %d' % (g, i), m.st(x, 'duration_ms_'), c.length(i) if i < k else r, F, W, 'durations add up to the preview')
                    cx.eq('%s: total duration of stance %d' % (g, i), m.st(x, 'total_duration_ms_'), c.d[i], F, W)
                if tds is FALSE:
                    continue
                x = vsel(R.ret, num(k + 1))
                for q in pf:
                    cx.eq('%s: %s of the stance after a transitional support' % (g, q), m.st(x, q), m.s(c.seq[k + 1], q), F + [tds], W, 'the sequence of transitions')
                for q in ('duration_ms_', 'total_duration_ms_'):
                    cx.eq('%s: %s of the stance after a transitional support' % (g, q), m.st(x, q), ZERO, F + [tds], W)
        f2 = cx.meth(m.key, 'getNextStance', 0)
        e = c.fork()
        R = cx.run(f2, c.lv, [], e)
        W2 = cx.where(f2)
        cx.never(nm + ', next stance: accepted', R.thrown(), c.facts, W2)
        for q in STATE:
            cx.eq('%s, next stance: %s' % (nm, q), m.st(R.ret, q), m.s(c.seq[1], q), c.facts, W2, 'what a transition would lead to')
        cx.require_same(nm + ', next stance: the state machine is not changed', e.load(c.lv), c.pre, c.facts, W2)


def check(cx):
    cx.guard('helpers', helpers, cx)
    cx.guard('start', start, cx)
    cx.guard('transitions', shift, cx)
    cx.guard('time', timing, cx)
    cx.guard('preview', preview, cx)
