"""C08: named parts tile the solution vector, and reading, guessing and slicing all use the same location."""
from .common import *

SS, SOL = 'humoto::SolutionStructure', 'humoto::Solution'


def lit(s):
    t = mk('str', s)
    TYPE[t] = 's'
    return t


def loc(cx, key, lv, name, ev=None):
    v = cx.get(key, lv, 'getSolutionPartLocation', [name], ev=ev)
    k = cx.cls('humoto::Location')
    if not isinstance(v, T):
        v = ev.load(v)
    f = [cx.P.C[k]['q'] + '::' + n for n in ('offset_', 'length_')]
    r = [fld(v, x) for x in f]
    for x in r:
        TYPE.setdefault(x, 'u')
    return r


def nvars(cx, key, lv, ev=None):
    v = cx.get(key, lv, 'getNumberOfVariables', ev=ev)
    TYPE.setdefault(v, 'u')
    return v


def name(p):
    t = sym(uid(p), 's')
    return t


def same_structure(cx, nm, key1, lv1, ev1, key2, lv2, ev2, W, facts=()):
    x = name('id')
    a, b = loc(cx, key1, lv1, x, ev1), loc(cx, key2, lv2, x, ev2)
    cx.eq(nm + ': part offsets', a[0], b[0], facts, W, 'any part name')
    cx.eq(nm + ': part lengths', a[1], b[1], facts, W, 'any part name')
    cx.eq(nm + ': number of variables', nvars(cx, key1, lv1, ev1), nvars(cx, key2, lv2, ev2), facts, W)


def structure(cx, q):
    key = cx.cls(q)
    lv = LV(uid('s'), (), key)
    f = cx.meth(key, 'addSolutionPart', 2)
    W = cx.where(f)
    x, y = name('id'), name('other')
    n = sym(uid('len'), 'u')
    old, nv = loc(cx, key, lv, y), nvars(cx, key, lv)
    had = loc(cx, key, lv, x)
    # 'x' is new: unknown parts have an empty location
    ev = cx.eval()
    r = cx.run(f, lv, [x, n], ev)
    cx.holds(q + ': adding a part never fails', neg_b(r.thrown()), [neg_b(known(cx, key, lv, x))], W)
    new = [neg_b(known(cx, key, lv, x))]
    a = loc(cx, key, lv, x, ev)
    cx.eq(q + ': a new part starts where the previous ones end', a[0], nv, new, W, 'parts are contiguous')
    cx.eq(q + ': a new part has the requested length', a[1], n, new, W)
    cx.eq(q + ': the vector grows by the length of the part', nvars(cx, key, lv, ev), add(nv, n), new, W, 'no gaps at the end')
    b = loc(cx, key, lv, y, ev)
    for k, w in enumerate(('offset', 'length')):
        cx.eq(q + ': adding a part does not change the %s of another' % w, b[k], old[k], new + [neg_b(eq(x, y))], W, 'parts never overlap')
    cx.holds(q + ': a structure with a part is not empty', cx.get(key, lv, 'isNonEmpty', ev=ev), new, W)
    f = cx.meth(key, 'reset', 0)
    for nm, run in (('reset', f), ('constructor', None)):
        ev = cx.eval()
        l2 = LV(uid('s'), (), key)
        if run is None:
            ev.st.heap[l2.root] = mk('default', q)
            cx.run(cx.fn(q + '::' + q.split('::')[-1], 0), l2, [], ev)
        else:
            cx.run(run, l2, [], ev)
        a = loc(cx, key, l2, y, ev)
        for k, w in enumerate(('offset', 'length')):
            cx.eq('%s: unknown parts have zero %s after %s' % (q, w, nm), a[k], ZERO, [], W)
        cx.eq('%s: no variables after %s' % (q, nm), nvars(cx, key, l2, ev), ZERO, [], W)
        cx.eq('%s: empty after %s' % (q, nm), cx.get(key, l2, 'isNonEmpty', ev=ev), FALSE, [], W)


def known(cx, key, lv, x):
    """the structure has a part named x (taken from the guard of the lookup)"""
    o = loc(cx, key, lv, x)[1]
    while o.op != 'ite':
        raise Missing('lookup of parts')
    c = o.args[0]
    return c if o.args[2] is ZERO else neg_b(c)


def slices(cx):
    key = cx.cls(SS)
    lv = LV(uid('s'), (), key)
    x = name('id')
    o, n = loc(cx, key, lv, x)
    for f in cx.P.methods(key, 'getMatrixPart'):
        if 'body' not in f:
            continue
        W = cx.where(f)
        r, c = sym(uid('r'), 'u'), sym(uid('c'), 'u')
        M = LV(uid('M'), (), None)
        ev = cx.eval()
        m0 = setdims(sym(uid('m'), 'm', (r, c)), r, c)
        ev.st.heap[M.root] = m0
        res = cx.run(f, x_this(lv), [x, M], ev)
        v = ev.rv(res.ret) if not isinstance(res.ret, T) else res.ret
        i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
        const = cx.P.ty(f['params'][1]['t'])['s'].startswith('const ')
        t = 'slice of a %smatrix' % ('const ' if const else '')
        facts = [le(add(o, n), c)]
        cx.eq(t + ': rows', dims(v)[0], r, facts, W)
        cx.eq(t + ': columns', dims(v)[1], n, facts, W)
        cx.eq(t + ': contents are the columns of the part', elem(v, i, j), elem(m0, i, add(o, j)), facts + [lt(i, r), lt(j, n)], W,
              'the same location as in the solution vector')


def x_this(lv):
    return lv


def reading(cx):
    key = cx.cls(SOL)
    lv = LV(uid('sol'), (), key)
    nm = name('id')
    x = cx.get(key, lv, 'get_x', nparams=0)
    n = dims(x)[0]
    i, j = sym(uid('i'), 'u'), sym(uid('j'), 'u')
    lk = cx.cls('humoto::Location')
    L = LV(uid('loc'), (), lk)
    fo, fl = [cx.P.C[lk]['q'] + '::' + q for q in ('offset_', 'length_')]
    base = mk('obj', L.root)
    direct = (fld(base, fo), fld(base, fl))
    for q in direct:
        TYPE[q] = 'u'
    for m, arg, (o, l) in (('getSolutionPart', nm, loc(cx, key, lv, nm)), ('getData', L, direct)):
        for f in cx.P.methods(key, m):
            if 'body' not in f:
                continue
            W = cx.where(f)
            ev = cx.eval()
            res = cx.run(f, lv, [arg], ev)
            t = '%s%s' % (m, ' const' if f.get('const') else '')
            cx.eq(t + ': fails exactly when the part is outside of the vector', res.thrown(), lt(n, add(o, l)), [], W,
                  'no access outside of the vector')
            v = res.ret if isinstance(res.ret, T) else ev.rv(res.ret)
            inside = [le(add(o, l), n)]
            cx.eq(t + ': length', dims(v)[0], l, inside, W)
            cx.eq(t + ': contents', elem(v, i, ZERO), elem(x, add(o, i), ZERO), inside + [lt(i, l)], W, 'the entries at the location of the part')


def initialization(cx):
    key, sk = cx.cls(SOL), cx.cls(SS)
    for f in cx.P.methods(key, 'initialize'):
        if 'body' not in f:
            continue
        W = cx.where(f)
        n = len(f['params'])
        second = cx.P.strip(f['params'][1]['t']) if n > 1 else None
        i = sym(uid('i'), 'u')
        if n == 1 or (n == 2 and second['k'] == 'float'):
            ss, lv = LV(uid('ss'), (), sk), LV(uid('sol'), (), key)
            nv = nvars(cx, sk, ss)
            val = sym(uid('v'), 'r')
            ev = cx.eval()
            cx.run(f, lv, [ss, val][:n], ev)
            t = 'initialize(structure%s)' % (', value' if n == 2 else '')
            same_structure(cx, t, key, lv, ev, sk, ss, None, W)
            x = cx.get(key, lv, 'get_x', ev=ev, nparams=0)
            cx.eq(t + ': one entry per variable', dims(x)[0], nv, [], W)
            if n == 2:
                cx.eq(t + ': every entry has the value', elem(x, i, ZERO), val, [lt(i, nv)], W)
        elif n == 2:
            for k in range(0, 4 if cx.tier == 'quick' else 6):
                guess(cx, f, k)


def guess(cx, f, k):
    """initialization from an old solution"""
    key, sk = cx.cls(SOL), cx.cls(SS)
    W = cx.where(f)
    ss, lv, old = LV(uid('ss'), (), sk), LV(uid('sol'), (), key), LV(uid('old'), (), key)
    ev = cx.eval()
    ev.st.heap[ss.root] = mk('default', SS)
    cx.run(cx.fn(SS + '::SolutionStructure', 0), ss, [], ev)
    parts = [(lit('part%d' % ((j * 5 + 2) % 7)), sym(uid('len'), 'u')) for j in range(k)]
    add_ = cx.meth(sk, 'addSolutionPart', 2)
    for p in parts:
        cx.run(add_, ss, list(p), ev)
    ox = cx.get(key, old, 'get_x', nparams=0)
    facts, want = [], []
    off = ZERO
    for p, n in parts:
        o, l = loc(cx, key, old, p)
        facts.append(le(add(o, l), dims(ox)[0]))
        want.append((off, n, o, l))
        off = add(off, n)
    res = cx.run(f, lv, [ss, old], ev)
    t = 'guess with %d part(s)' % k
    cx.holds(t + ': never fails for a consistent old solution', neg_b(res.thrown()), facts, W)
    same_structure(cx, t, key, lv, ev, sk, ss, ev, W, facts)
    x = cx.get(key, lv, 'get_x', ev=ev, nparams=0)
    cx.eq(t + ': one entry per variable', dims(x)[0], off, facts, W)
    i = sym(uid('i'), 'u')
    for q, (s, n, o, l) in enumerate(want):
        cx.eq('%s: part %d is taken from the old solution exactly when its length is unchanged, zero otherwise' % (t, q), elem(x, add(s, i), ZERO),
              ite(eq(n, l), elem(ox, add(o, i), ZERO), ZERO), facts + [lt(i, n)], W, 'guesses are matched by part name')


def check(cx):
    cx.guard('structure', structure, cx, SS)
    cx.guard('slices', slices, cx)
    cx.guard('reading', reading, cx)
    cx.guard('initialization', initialization, cx)
