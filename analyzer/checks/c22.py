"""C22: hierarchies of tasks read from configuration files; generic tasks."""
from .common import *
from sa.evalr import NULLPTR
from sa.lib import concrete
from .c21 import lib, written, read, flat, NODE, all_bases, Malformed, SEQ, without, after_reading
from .c14 import M, seq

COP = 'humoto::ConfigurableOptimizationProblem'


def problems(cx):
    base = cx.cls(COP)
    return [base] + sorted(k for k in cx.P.C if base in all_bases(cx, k) and not cx.P.C[k].get('abstract'))


def construct(cx, key, ev):
    lv = LV(uid('problem'), (), key)
    ev.peel = 12
    ev.libhook = lib
    for k in [key] + all_bases(cx, key):
        # implicit constructors call those of the bases
        c = [f for f in (cx.P.F.get(m) for m in cx.P.C[k]['methods']) if f and f.get('ctor') and not f['params'] and 'body' in f and not f.get('implicit')]
        if c:
            cx.run(c[0], lv, [], ev)
            return lv
    raise Missing('constructor of ' + key)


def short(q):
    return q.rsplit('::', 1)[-1]


def task_classes(cx, key):
    """classes of tasks of the module of the problem and generic ones: name -> class"""
    ns = cx.P.C[key]['q'].rsplit('::', 1)[0]
    base = cx.cls('humoto::TaskBase')
    out = {}
    for k, c in cx.P.C.items():
        if c.get('abstract') or base not in all_bases(cx, k):
            continue
        if c['q'].rsplit('::', 1)[0] in (ns, 'humoto'):
            out[short(c['q'])] = k
    return out


def null(r):
    return bor(*([c for c, _, t in r.throws if t == NULLPTR] or [FALSE]))


def make(cx, ev, key, pb, name, idname):
    """a task with arbitrary contents and the given name"""
    r = cx.run(cx.meth(key, 'getTask', 1), pb, [mk('str', name)], ev)
    if r.ret is None or r.ret.op != 'addr':
        return r, None
    lv = ev.deref(r.ret)
    k = lv.cls
    ev.store(lv, mk('obj', uid('task')))
    for b in [k] + all_bases(cx, k):
        for m in cx.P.C.get(b, {}).get('fields', []):
            t = cx.P.strip(m['t'])
            if (t.get('q') or '').startswith('Eigen::Matrix') and -1 in (t.get('rows') or -1, t.get('cols') or -1):
                rr, cc = t.get('rows') or -1, t.get('cols') or -1
                ev.store(lv.sub(('f', cx.P.C[b]['q'] + '::' + m['n'])), emat(M('e', rr if rr > 0 else 2, cc if cc > 0 else 3)))
            elif 'basic_string' in (t.get('q') or ''):
                ev.store(lv.sub(('f', cx.P.C[b]['q'] + '::' + m['n'])), mk('str', 'text of ' + idname))
    cx.run(cx.meth(k, 'setDescription', 1), lv, [mk('str', idname)], ev)
    return r, lv


def fill(cx, key, ev, pb, levels, tag='task'):
    """push tasks of the given names; returns their identifiers"""
    cx.run(cx.meth(key, 'reset', 1), pb, [num(len(levels))], ev)
    ids = []
    thrown = []
    for i, names in enumerate(levels):
        ids.append([])
        for j, n in enumerate(names):
            ident = '%s %d %d' % (tag, i, j)
            r, lv = make(cx, ev, key, pb, n, ident)
            if lv is None:
                raise Undecided('task %s' % n)
            f = cx.meth(key, 'pushTask', 3)
            r = cx.run(f, pb, [lv.addr(), num(i), mk('str', n)], ev)
            thrown.append(r.thrown())
            ids[-1].append(ident)
    return ids, bor(*(thrown or [FALSE]))


def nest(t):
    """list of lists of strings of a written node"""
    def val(v):
        if v.op in SEQ:
            n = concrete(vsize(v))
            if n is None:
                raise Undecided('length of a list')
            return [val(vsel(v, num(i))) for i in range(n)]
        if v.op == 'str':
            return v.args[0]
        raise Undecided('element of a list: %s' % v.op)

    def tr(x):
        return [tr(y) for y in x[1]] if x[0] == 'array' else val(x[1])
    return tr(t)


def typed_member(cx, q, want):
    """name of the member of a class by its type"""
    key = cx.cls(q)
    for m in cx.P.C[key]['fields']:
        s = cx.P.strip(m['t'])
        if want(s):
            return q + '::' + m['n']
    raise Missing('member of ' + q)


def contents(cx, ev, pb):
    """tasks of all levels: their classes"""
    h = typed_member(cx, 'humoto::OptimizationProblem', lambda s: s.get('q') == 'std::vector' and 'HierarchyLevel' in s['s'])
    t = typed_member(cx, 'humoto::HierarchyLevel', lambda s: 'TaskInfo' in s['s'] and (s.get('q') or '').startswith('std::'))
    p = typed_member(cx, 'humoto::HierarchyLevel::TaskInfo', lambda s: 'shared_ptr' in (s.get('q') or ''))
    v = ev.load(pb.sub(('f', h)))
    n = concrete(vsize(v))
    if n is None:
        raise Undecided('number of levels')
    out = []
    for i in range(n):
        x = fld(vsel(v, num(i)), t)
        c = concrete(vsize(x))
        if c is None:
            raise Undecided('number of tasks')
        row = []
        for j in range(c):
            a = fld(vsel(x, num(j)), p)
            lv = ev.deref(a) if a.op == 'addr' else None
            row.append(short(lv.cls) if lv is not None and lv.cls else '?')
        out.append(row)
    return out


def describe(t):
    """named entries and the two lists"""
    if len(t) != 1 or t[0][0] != 'map' or [k for k, _ in t[0][1]] != [NODE] or t[0][1][0][1][0] != 'map':
        return None
    d = t[0][1][0][1][1]
    lists = [k for k, x in d if x[0] != 'map']
    return lists, d


def hierarchies(names):
    yield [[n] for n in names]
    yield [names]
    k = max(1, len(names) // 2)
    yield [names[k:], names[:k]]
    yield [names[:1] + names[:1] + names[-1:]]
    yield [[], names[:2], []]


def same_tree(cx, nm, a, b, W, rule):
    from .c21 import same_entries
    same_entries(cx, nm, flat(a), flat(b), W, rule)


def copies(cx, key):
    P = cx.P
    nm = P.C[key]['q'].replace('humoto::', '')
    T = task_classes(cx, key)
    ev = cx.eval()
    pb = construct(cx, key, ev)
    g = cx.meth(key, 'getTask', 1)
    W = cx.where(g)
    good = []
    for n in sorted(T):
        r = cx.run(g, pb, [mk('str', n)], ev)
        ok = r.ret is not None and r.ret.op == 'addr' and ev.deref(r.ret).cls == T[n]
        cx.eq('%s: task %s' % (nm, n), TRUE if ok else FALSE, TRUE, [], W, 'every task of the module is created by the name of its class')
        if ok:
            good.append(n)
    if not good:
        return
    for hi, levels in enumerate(hierarchies(good)):
        for kind in ('', ', used before'):
            ev = cx.eval()
            a = construct(cx, key, ev)
            if kind:
                fill(cx, key, ev, a, [good[:1], good[:1], good[:1], good[:1]], 'old')
            ids, th = fill(cx, key, ev, a, levels)
            n0 = '%s (%d%s)' % (nm, hi, kind)
            try:
                t, r, f = written(cx, key, a, ev)
            except Malformed as e:
                cx.bad(n0 + ': written', W, str(e))
                continue
            WW = cx.where(f)
            cx.never(n0 + ': refused', bor(th, r.thrown()), [], WW)
            d = describe(t)
            cx.eq(n0 + ': one node of the given name', TRUE if d else FALSE, TRUE, [], WW, 'the announced number of entries is the number of entries')
            if not d:
                continue
            lists, entries = d
            L = dict(entries)
            want = {'task_class_names': levels, 'task_ids': ids}
            for k in want:
                x = L.get(k)
                cx.eq('%s: %s' % (n0, k), TRUE if x is not None and nest(x) == want[k] else FALSE, TRUE, [], WW, 'lists of tasks in their levels and order')
            nodes = [k for k, _ in entries if k not in want]
            cx.eq(n0 + ': nodes of tasks', TRUE if sorted(nodes) == sorted(sum(ids, [])) else FALSE, TRUE, [], WW, 'every task has its node')
            if kind:
                continue
            readings(cx, key, n0, t, levels, ids, good, contents(cx, ev, a))


def fitting(cx, nm, W, original, levels):
    cx.eq(nm + ': tasks', TRUE if [sorted(x) for x in original] == [sorted(x) for x in levels] else FALSE, TRUE, [], W, 'every task is pushed to its level')


def readings(cx, key, n0, t, levels, ids, good, original):
    fitting(cx, n0, cx.where(cx.meth(key, 'pushTask', 3)), original, levels)
    for strict in (True, False):
        for kind in ('', ' into a used one'):
            ev = cx.eval()
            b = construct(cx, key, ev)
            if kind:
                fill(cx, key, ev, b, [good[:1], good[-1:], good[:1], good[:1], good], 'old')
            n = '%s: %s reading%s' % (n0, 'strict' if strict else 'relaxed', kind)
            r, rd, f = read(cx, key, b, ev, t, TRUE if strict else FALSE)
            W = cx.where(f)
            cx.never(n + ': refused', r.thrown(), [], W)
            c = contents(cx, ev, b)
            cx.eq(n + ': tasks', TRUE if c == original else FALSE, TRUE, [], W, 'the tasks of the file in their levels and order: %s' % c)
            t2 = written(cx, key, b, ev)[0]
            cx.eq(n + ': written again', TRUE if describe(t2) else FALSE, TRUE, [], W)
            if describe(t2):
                same_tree(cx, n, t2[0], t[0], W, 'tasks are configured by their nodes')
            # the problem can be extended
            k = len(levels) - 1
            x, lv = make(cx, ev, key, b, good[0], 'new')
            r = cx.run(cx.meth(key, 'pushTask', 3), b, [lv.addr(), num(k), mk('str', good[0])], ev)
            cx.never(n + ': extension refused', r.thrown(), [], W)
            d = describe(written(cx, key, b, ev)[0])
            ok = d is not None
            if ok:
                L = dict(d[1])
                ok = nest(L['task_class_names']) == levels[:k] + [levels[k] + [good[0]]] and nest(L['task_ids']) == ids[:k] + [ids[k] + ['new']]
            cx.eq(n + ': extended', TRUE if ok else FALSE, TRUE, [], W, 'the lists follow the hierarchy')
        wrong(cx, key, n0, t, levels, ids, strict)


def edit(t, name, f):
    """replace an entry"""
    def value(x):
        return ['array', [value(y) for y in x]] if isinstance(x, list) else ['value', mk('str', x)]
    out = []
    for k, x in t[0][1][0][1][1]:
        out.append((k, value(f(nest(x))) if k == name else x))
    return [['map', [(NODE, ['map', out])]]]


def wrong(cx, key, n0, t, levels, ids, strict):
    """files which do not describe a hierarchy are refused"""
    def at(l, new):
        for i in range(len(l) - 1, -1, -1):
            if l[i]:
                return l[:i] + [l[i][:-1] + new] + l[i + 1:]
        return l
    cases = [('an unknown class', 'task_class_names', lambda l: at(l, ['Nonsense'])),
             ('fewer classes', 'task_class_names', lambda l: at(l, [])),
             ('more identifiers', 'task_ids', lambda l: at(l, ['x', 'y'])),
             ('fewer levels of identifiers', 'task_ids', lambda l: l[:-1]),
             ('more levels of identifiers', 'task_ids', lambda l: l + [[]]),
             ('no levels', 'task_class_names', lambda l: [])]
    for what, name, f in cases:
        ev = cx.eval()
        b = construct(cx, key, ev)
        r, rd, m = read(cx, key, b, ev, edit(t, name, f), TRUE if strict else FALSE)
        W = cx.where(m)
        n = '%s: %s reading with %s' % (n0, 'strict' if strict else 'relaxed', what)
        cx.eq(n, r.thrown(), TRUE, [], W, 'refused')
        cx.never(n + ': a task which does not exist', null(r), [], W)


# ------------------------------------------------------------ generic tasks
def structure(cx, ev, parts):
    key = cx.cls('humoto::SolutionStructure')
    s = LV(uid('structure'), (), key)
    cx.run(cx.fn('humoto::SolutionStructure::SolutionStructure', 0), s, [], ev)
    f = cx.meth(key, 'addSolutionPart', 2)
    for n, k in parts:
        cx.run(f, s, [mk('str', n), num(k)], ev)
    return s


STRUCTURES = {'1': [('x', 2), ('y', 3)], '2': [('y', 2), ('z', 1), ('x', 3)], '3': [('x', 3), ('y', 2)]}


def located(parts, name):
    o = 0
    for n, k in parts:
        if n == name:
            return list(range(o, o + k))
        o += k
    return list(range(o)) if not name else None


def state(cx, ev, k, t):
    """names and coefficients of the selected variables"""
    I = cx.get(k, t, 'getIndices', ev=ev)
    g = cx.get(k, t, 'getIGains', ev=ev)
    return I, g


def form(cx, ev, k, t, s, parts):
    n = sum(x for _, x in parts)
    pre = cx.meth(k, 'preForm', 1)
    r0 = cx.run(pre, t, [num(n)], ev)
    f = cx.meth(k, 'form', 3)
    m = LV(uid('model'), (), cx.cls('humoto::Model'))
    c = LV(uid('control'), (), cx.cls('humoto::ControlProblem'))
    r = cx.run(f, t, [s, m, c], ev)
    return r, cx.where(f)


def selects(cx, nm, ev, k, t, want, gain, W):
    I, g = state(cx, ev, k, t)
    for what, v in (('indices', I), ('gains', g)):
        cx.eq('%s: number of %s' % (nm, what), dims(v)[0], num(len(want)), [], W, 'one constraint for every variable')
    if concrete(dims(I)[0]) != len(want) or concrete(dims(g)[0]) != len(want):
        return
    for i, x in enumerate(want):
        cx.eq('%s: index %d' % (nm, i), elem(I, num(i), ZERO), num(x), [], W, 'the variables in their current place')
        cx.eq('%s: gain %d' % (nm, i), elem(g, num(i), ZERO), gain, [], W, 'the current gain')


def zero_variables(cx):
    k = cx.cls('humoto::TaskZeroVariables')
    ctor = cx.fn('humoto::TaskZeroVariables::TaskZeroVariables', 3)
    for first in ('', 'x', 'y'):
        for hist in ('1', '11', '1g1', '12', '121', '13', '1g2', 'g1g1', '1v1', '1v2g2', '1r1', '2r1', '1vg1', '1rv1', '3v3'):
            ev = cx.eval()
            ev.peel = 12
            ev.libhook = lib
            t = LV(uid('task'), (), k)
            gain = sym(uid('gain'))
            name = first
            cx.run(ctor, t, [gain, mk('str', 'task'), mk('str', name)], ev)
            ss = dict((n, structure(cx, ev, p)) for n, p in STRUCTURES.items())
            done = ''
            for o in hist:
                done += o
                if o == 'g':
                    gain = sym(uid('gain'))
                    cx.run(cx.meth(k, 'setGain', 1), t, [gain], ev)
                elif o == 'v':
                    name = {'': 'y', 'x': 'y', 'y': 'x'}[name]
                    cx.run(cx.meth(k, 'setVariablesID', 1), t, [mk('str', name)], ev)
                elif o == 'r':
                    gain = sym(uid('gain'))
                    tree_ = [['map', [(NODE, ['map', [('gain', ['value', gain]), ('variables_id', ['value', mk('str', name)])]])]]]
                    r, rd, f = read(cx, k, t, ev, tree_, TRUE)
                    cx.never('zero variables %r %s: configuration refused' % (first, done), r.thrown(), [], cx.where(f))
                else:
                    n = 'zero variables %r %s' % (first, done)
                    r, W = form(cx, ev, k, t, ss[o], STRUCTURES[o])
                    cx.never(n + ': refused', r.thrown(), [], W)
                    selects(cx, n, ev, k, t, located(STRUCTURES[o], name), gain, W)


def selected_variables(cx):
    k = cx.cls('humoto::TaskZeroSelectedVariables')
    ctor = cx.fn('humoto::TaskZeroSelectedVariables::TaskZeroSelectedVariables', 3)
    for idx in ([], [3], [4, 0], [1, 2, 0]):
        for hist in ('1', '1g1', '12', 'g2'):
            ev = cx.eval()
            t = LV(uid('task'), (), k)
            gain = sym(uid('gain'))
            I = LV(uid('indices'), (), None)
            ev.store(I, emat([[num(i)] for i in idx]) if idx else mk('mzero', ZERO, ONE))
            cx.run(ctor, t, [I, gain, mk('str', 'task')], ev)
            ss = dict((n, structure(cx, ev, p)) for n, p in STRUCTURES.items())
            done = ''
            for o in hist:
                done += o
                if o == 'g':
                    gain = sym(uid('gain'))
                    cx.run(cx.meth(k, 'setGain', 1), t, [gain], ev)
                else:
                    n = 'selected variables %s %s' % (idx, done)
                    r, W = form(cx, ev, k, t, ss[o], STRUCTURES[o])
                    cx.never(n + ': refused', r.thrown(), [], W)
                    selects(cx, n, ev, k, t, idx, gain, W)


def infeasible(cx):
    k = cx.cls('humoto::TaskInfeasibleInequality')
    ctor = cx.fn('humoto::TaskInfeasibleInequality::TaskInfeasibleInequality', 2)
    for hist in ('1', '11', '12', '121', '13', 'g1', '1g2'):
        ev = cx.eval()
        t = LV(uid('task'), (), k)
        cx.run(ctor, t, [sym(uid('gain')), mk('str', 'task')], ev)
        ss = dict((n, structure(cx, ev, p)) for n, p in STRUCTURES.items())
        done = ''
        for o in hist:
            done += o
            if o == 'g':
                cx.run(cx.meth(k, 'setGain', 1), t, [sym(uid('gain'))], ev)
                continue
            n = 'infeasible inequality %s' % done
            r, W = form(cx, ev, k, t, ss[o], STRUCTURES[o])
            cx.never(n + ': refused', r.thrown(), [], W)
            A, lb, ub = [cx.get(k, t, g, ev=ev) for g in ('getA', 'getLowerBounds', 'getUpperBounds')]
            nv = sum(x for _, x in STRUCTURES[o])
            m = concrete(dims(A)[0])
            cx.eq(n + ': number of variables', dims(A)[1], num(nv), [], W, 'all variables')
            cx.holds(n + ': has constraints', le(ONE, dims(A)[0]), [], W)
            cx.eq(n + ': lower bounds', dims(lb)[0], dims(A)[0], [], W)
            cx.eq(n + ': upper bounds', dims(ub)[0], dims(A)[0], [], W)
            if m:
                cx.holds(n + ': infeasible', bor(*[lt(elem(ub, num(i), ZERO), elem(lb, num(i), ZERO)) for i in range(m)]), [], W,
                         'a lower bound exceeds the upper bound')


def emptied(cx, key):
    """relaxed reading of a file without the node; missing lists"""
    nm = cx.P.C[key]['q'].replace('humoto::', '')
    good = sorted(n for n in task_classes(cx, key))[:2]
    ev = cx.eval()
    a = construct(cx, key, ev)
    ids, th = fill(cx, key, ev, a, [good, good[:1]])
    t = written(cx, key, a, ev)[0]
    other = [['map', [('other', ['map', []])]]]
    for used in (False, True):
        u = ' into a used one' if used else ''
        ev = cx.eval()
        b = construct(cx, key, ev)
        if used:
            fill(cx, key, ev, b, [good, good[:1]], 'old')
        r, rd, f = read(cx, key, b, ev, other, TRUE)
        cx.eq('%s: strict reading without the node%s' % (nm, u), r.thrown(), TRUE, [], cx.where(f), 'a missing node is refused')
        ev = cx.eval()
        b = construct(cx, key, ev)
        if used:
            fill(cx, key, ev, b, [good, good[:1]], 'old')
        r, rd, f = read(cx, key, b, ev, other, FALSE)
        n = '%s: relaxed reading without the node%s' % (nm, u)
        W = cx.where(cx.meth(key, 'setDefaults', 0))
        cx.never(n + ': refused', r.thrown(), [], W)
        c = contents(cx, ev, b)
        cx.eq(n + ': tasks', TRUE if c == [] else FALSE, TRUE, [], W, 'defaults do not depend on the past')
        x, lv = make(cx, ev, key, b, good[0], 'new')
        r = cx.run(cx.meth(key, 'pushTask', 3), b, [lv.addr(), ZERO, mk('str', good[0])], ev)
        cx.eq(n + ': a task of a level which does not exist', r.thrown(), TRUE, [], W, 'refused')
        for lost in ('task_class_names', 'task_ids'):
            for strict in (TRUE, FALSE):
                ev = cx.eval()
                b = construct(cx, key, ev)
                if used:
                    fill(cx, key, ev, b, [good, good[:1]], 'old')
                r, rd, f = read(cx, key, b, ev, [without(t[0], (NODE, lost))], strict)
                cx.eq('%s: %s reading without %s%s' % (nm, 'strict' if strict is TRUE else 'relaxed', lost, u), r.thrown(), TRUE, [], cx.where(f),
                      'a hierarchy which is not described is refused')
        # node of a task
        lost = ids[0][0]
        ev = cx.eval()
        b = construct(cx, key, ev)
        if used:
            fill(cx, key, ev, b, [good, good[:1]], 'task')
        r, rd, f = read(cx, key, b, ev, [without(t[0], (NODE, lost))], TRUE)
        cx.eq('%s: strict reading without a task%s' % (nm, u), r.thrown(), TRUE, [], cx.where(f), 'a missing node is refused')
        ev = cx.eval()
        b = construct(cx, key, ev)
        if used:
            fill(cx, key, ev, b, [good, good[:1]], 'task')
        r, rd, f = read(cx, key, b, ev, [without(t[0], (NODE, lost))], FALSE)
        n = '%s: relaxed reading without a task%s' % (nm, u)
        cx.never(n + ': refused', r.thrown(), [], cx.where(f))
        g = written(cx, key, b, ev)[0]
        d, e = describe(g), describe(t)
        cx.eq(n + ': node', TRUE if d else FALSE, TRUE, [], cx.where(f))
        if not d:
            continue
        G, E = dict(d[1]), dict(e[1])
        for k in sorted(set(G) | set(E)):
            if k == lost:
                continue
            cx.eq('%s: %s' % (n, k), TRUE if k in G and k in E and flat_same(G[k], E[k]) else FALSE, TRUE, [], cx.where(f), 'all others are restored')


def flat_same(a, b):
    x, y = flat(a), flat(b)
    return set(x) == set(y) and all(x[k] is y[k] for k in x)


def check(cx):
    for key in problems(cx):
        cx.guard('hierarchies of ' + key, copies, cx, key)
        cx.guard('missing entries of ' + key, emptied, cx, key)
    cx.guard('task setting variables to zero', zero_variables, cx)
    cx.guard('task setting selected variables to zero', selected_variables, cx)
    cx.guard('infeasible task', infeasible, cx)
