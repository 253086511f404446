"""Matrix and sequence terms: dimensions, elements, algebra."""
from .terms import *
from . import terms as tm

MATOPS = ('mlin', 'mmul', 'mT', 'mblk', 'mstore', 'mzero', 'mid', 'mconst', 'emat', 'mdiag', 'mdiagof', 'mfun', 'mundef', 'mresize',
          'mloop', 'mcwise', 'minv', 'mrep', 'mlam', 'mfix')


def is_mat(t):
    return t.op in MATOPS or TYPE.get(t) == 'm' or (t.op == 'ite' and (is_mat(t.args[1]) or is_mat(t.args[2])))


def dims(t):
    if t in DIMS:
        return DIMS[t]
    op, a = t.op, t.args
    if op == 'mlin':
        ds = [dims(x) for x, c in a[0]]
        return tuple(_pick([d[i] for d in ds]) for i in (0, 1))
    if op == 'mmul':
        return dims(a[0][0])[0], dims(a[0][-1])[1]
    if op == 'mT':
        d = dims(a[0])
        return d[1], d[0]
    if op == 'mblk':
        return a[3], a[4]
    if op in ('mstore',):
        return dims(a[0])
    if op in ('mzero', 'mid', 'mundef'):
        return a[0], a[1]
    if op == 'mconst':
        return a[1], a[2]
    if op == 'mfix':
        return a[1], a[2]
    if op == 'emat':
        return num(a[0]), num(a[1])
    if op == 'mdiag':
        n = dims(a[0])[0]
        return n, n
    if op == 'mdiagof':
        return dims(a[0])[0], ONE
    if op == 'mresize':
        return a[1], a[2]
    if op == 'mloop':
        return dims(a[3])
    if op == 'mcwise':
        return dims(a[1][0])
    if op == 'minv':
        return dims(a[0])
    if op == 'msolve':
        return dims(a[1])
    if op == 'mrep':
        d = dims(a[0])
        return mul(d[0], a[1]), mul(d[1], a[2])
    if op == 'mlam':
        return a[1], a[2]
    if op == 'ite':
        d1, d2 = dims(a[1]), dims(a[2])
        return ite(a[0], d1[0], d2[0]), ite(a[0], d1[1], d2[1])
    if op == 'opaque':
        return mk('opaque', 'dim'), mk('opaque', 'dim')
    return mk('rows', t), mk('cols', t)


BUILDERS['rows'] = lambda t: dims(t)[0] if not (t.op in ('sym', 'fld', 'out', 'call') and t not in DIMS) else mk('rows', t)
BUILDERS['cols'] = lambda t: dims(t)[1] if not (t.op in ('sym', 'fld', 'out', 'call') and t not in DIMS) else mk('cols', t)


def _pick(xs):
    for x in xs:
        if is_num(x):
            return x
    return min(xs, key=lambda x: (x.op in ('rows', 'cols'), x.id))


# ---------------------------------------------------------------- algebra
def _lin(t):
    if t.op == 'mlin':
        return dict(t.args[0])
    if t.op == 'mzero':
        return {}
    return {t: ONE}


def madd(*ts):
    d = {}
    for t in ts:
        for x, c in _lin(t).items():
            d[x] = add(d.get(x, ZERO), c)
    d = {x: c for x, c in d.items() if c is not ZERO}
    if not d:
        r = [dims(t) for t in ts]
        return mk('mzero', _pick([x[0] for x in r]), _pick([x[1] for x in r]))
    if len(d) == 1:
        (x, c), = d.items()
        if c is ONE:
            return x
    return mk('mlin', tuple(sorted(d.items(), key=lambda z: z[0].id)))


def mscale(c, t):
    if c is ZERO:
        r, q = dims(t)
        return mk('mzero', r, q)
    if c is ONE:
        return t
    if t.op == 'mzero':
        return t
    if t.op == 'mconst':
        return mk('mconst', mul(c, t.args[0]), t.args[1], t.args[2])
    return _mlin({x: mul(c, k) for x, k in _lin(t).items()})


def _mlin(d):
    if len(d) == 1:
        (x, c), = d.items()
        if c is ONE:
            return x
    return mk('mlin', tuple(sorted(d.items(), key=lambda z: z[0].id)))


def mneg(t):
    return mscale(num(-1), t)


def msub(a, b):
    return madd(a, mneg(b))


def scalar_of(t):
    """1x1 matrix as scalar"""
    return elem(t, ZERO, ZERO)


def mmul(*ts):
    acc = None
    for t in ts:
        if acc is None:
            acc = t
            continue
        acc = _mm2(acc, t)
    return acc


def _mm2(a, b):
    ra, ca = dims(a)
    rb, cb = dims(b)
    if a.op == 'mzero' or b.op == 'mzero':
        return mk('mzero', ra, cb)
    if a.op == 'ite' or b.op == 'ite':
        t = a if a.op == 'ite' else b
        c = t.args[0]
        return ite(c, _mm2(assume_top(a, c, True), assume_top(b, c, True)), _mm2(assume_top(a, c, False), assume_top(b, c, False)))
    if ra is ONE and ca is ONE and a.op != 'emat' or (a.op == 'emat' and ra is ONE and ca is ONE):
        if not (is_num(rb) and rb.args[0] == 1 and is_num(cb) and cb.args[0] == 1) and not is_num(rb):
            pass
    d = {}
    for x, c in _lin(a).items():
        for y, e in _lin(b).items():
            p = _atom_mul(x, y)
            k = mul(c, e)
            for z, f in _lin(p).items():
                d[z] = add(d.get(z, ZERO), mul(k, f))
    d = {x: c for x, c in d.items() if c is not ZERO}
    if not d:
        return mk('mzero', ra, cb)
    return _mlin(d)


def assume_top(t, c, v):
    if t.op == 'ite' and t.args[0] is c:
        return t.args[1] if v else t.args[2]
    return t


def _atom_mul(x, y):
    if x.op == 'mid':
        return y
    if y.op == 'mid':
        return x
    xs = x.args[0] if x.op == 'mmul' else (x,)
    ys = y.args[0] if y.op == 'mmul' else (y,)
    # inverse cancellation
    a, b = xs[-1], ys[0]
    if (a.op == 'minv' and a.args[0] is b) or (b.op == 'minv' and b.args[0] is a):
        rest = xs[:-1] + ys[1:]
        if not rest:
            return mk('mid', dims(x)[0], dims(y)[1])
        return mk('mmul', rest) if len(rest) > 1 else rest[0]
    if a.op == 'emat' and b.op == 'emat':
        p = _emul(a, b)
        rest1, rest2 = xs[:-1], ys[1:]
        r = p
        if rest1:
            r = mmul(mk('mmul', rest1) if len(rest1) > 1 else rest1[0], r)
        if rest2:
            r = mmul(r, mk('mmul', rest2) if len(rest2) > 1 else rest2[0])
        return r
    return mk('mmul', xs + ys)


def _emul(a, b):
    r, k, c = a.args[0], a.args[1], b.args[1]
    out = []
    for i in range(r):
        for j in range(c):
            out.append(add(ZERO, *[mul(a.args[2][i * k + l], b.args[2][l * c + j]) for l in range(k)]))
    return mk('emat', r, c, tuple(out))


def mT(t):
    op, a = t.op, t.args
    if op == 'mT':
        return a[0]
    if op == 'mlin':
        return madd(*[mscale(c, mT(x)) for x, c in a[0]])
    if op == 'mmul':
        return mk('mmul', tuple(mT(x) for x in reversed(a[0])))
    if op == 'mzero':
        return mk('mzero', a[1], a[0])
    if op == 'mconst':
        return mk('mconst', a[0], a[2], a[1])
    if op in ('mid', 'mdiag'):
        return t
    if op == 'emat':
        return mk('emat', a[1], a[0], tuple(a[2][i * a[1] + j] for j in range(a[1]) for i in range(a[0])))
    if op == 'ite':
        return ite(a[0], mT(a[1]), mT(a[2]))
    r, c = dims(t)
    if r is ONE and c is ONE:
        return t
    return mk('mT', t)


def mblk(t, r0, c0, nr, nc):
    r, c = dims(t)
    if r0 is ZERO and c0 is ZERO and r is nr and c is nc:
        return t
    op, a = t.op, t.args
    if op == 'mblk':
        return mblk(a[0], add(a[1], r0), add(a[2], c0), nr, nc)
    if op == 'mzero':
        return mk('mzero', nr, nc)
    if op == 'mconst':
        return mk('mconst', a[0], nr, nc)
    if op == 'mlin':
        return madd(*[mscale(k, mblk(x, r0, c0, nr, nc)) for x, k in a[0]])
    if op == 'mT':
        return mT(mblk(a[0], c0, r0, nc, nr))
    if op == 'mmul':
        # rows of the first factor, columns of the last
        f, l = a[0][0], a[0][-1]
        fr, fc = dims(f)
        lr, lc = dims(l)
        f2 = mblk(f, r0, ZERO, nr, fc)
        l2 = mblk(l, ZERO, c0, lr, nc)
        return mmul(f2, *(a[0][1:-1] + (l2,)))
    if op == 'ite':
        return ite(a[0], mblk(a[1], r0, c0, nr, nc), mblk(a[2], r0, c0, nr, nc))
    if op == 'mstore':
        base, s0, d0, sr, sc, v = a
        if (r0, c0, nr, nc) == (s0, d0, sr, sc):
            return v
        # disjoint with constants
        if _disj(r0, nr, s0, sr) or _disj(c0, nc, d0, sc):
            return mblk(base, r0, c0, nr, nc)
        # contained with the same origin provably
        if _inside(r0, nr, s0, sr) and _inside(c0, nc, d0, sc):
            return mblk(v, sub(r0, s0), sub(c0, d0), nr, nc)
    if op == 'emat' and all(is_num(x) for x in (r0, c0, nr, nc)):
        R, C = a[0], a[1]
        i0, j0, n, m = [int(x.args[0]) for x in (r0, c0, nr, nc)]
        if i0 + n <= R and j0 + m <= C:
            return mk('emat', n, m, tuple(a[2][(i0 + i) * C + j0 + j] for i in range(n) for j in range(m)))
    if op == 'opaque':
        return t
    x = mk('mblk', t, r0, c0, nr, nc)
    _eltype(x, t)
    return x


def _eltype(x, t):
    if ('el', t) in TYPE:
        TYPE[('el', x)] = TYPE[('el', t)]


def _disj(a, n, b, m):
    return le(add(a, n), b) is TRUE or le(add(b, m), a) is TRUE


def _inside(a, n, b, m):
    return le(b, a) is TRUE and le(add(a, n), add(b, m)) is TRUE


def mstore(t, r0, c0, nr, nc, v):
    r, c = dims(t)
    if r0 is ZERO and c0 is ZERO and r is nr and c is nc:
        return v
    if nr is ZERO or nc is ZERO:
        return t
    if t.op == 'opaque' or v.op == 'opaque':
        return mk('opaque', 'matrix store')
    # explicit small matrices
    if t.op in ('emat', 'mzero', 'mundef', 'mid', 'mconst') and all(is_num(x) for x in (r, c, r0, c0, nr, nc)):
        R, C = int(r.args[0]), int(c.args[0])
        if R * C <= 900:
            e = explicit(t)
            i0, j0, n, m = [int(x.args[0]) for x in (r0, c0, nr, nc)]
            if i0 >= 0 and j0 >= 0 and i0 + n <= R and j0 + m <= C:
                L = list(e.args[2])
                for i in range(n):
                    for j in range(m):
                        L[(i0 + i) * C + j0 + j] = elem(v, num(i), num(j))
                return mk('emat', R, C, tuple(L))
    if t.op == 'mstore' and t.args[1:5] == (r0, c0, nr, nc):
        t = t.args[0]
    x = mk('mstore', t, r0, c0, nr, nc, v)
    _eltype(x, t)
    return x


def explicit(t):
    r, c = dims(t)
    R, C = int(r.args[0]), int(c.args[0])
    if t.op == 'emat':
        return t
    return mk('emat', R, C, tuple(elem(t, num(i), num(j)) for i in range(R) for j in range(C)))


def emat(rows):
    return mk('emat', len(rows), len(rows[0]), tuple(x for r in rows for x in r))


def mdiag(v):
    return mk('mdiag', v)


_elem_memo = {}


def elem(t, i, j):
    k = (t, i, j)
    r = _elem_memo.get(k)
    if r is None:
        r = _elem(t, i, j)
        _elem_memo[k] = r
    return r


UNDEF = mk('undef')
TYPE[UNDEF] = 'r'


def _elem(t, i, j):
    op, a = t.op, t.args
    if op == 'mlin':
        return add(ZERO, *[mul(c, elem(x, i, j)) for x, c in a[0]])
    if op == 'mmul':
        f = a[0][0]
        rest = mk('mmul', a[0][1:]) if len(a[0]) > 2 else a[0][1]
        n1, n2 = dims(f)[1], dims(rest)[0]
        n = _pick([n1, n2])
        k = fresh()
        if n is ZERO:
            return ZERO
        return sumk(k, n, mul(elem(f, i, k), elem(rest, k, j)))
    if op == 'mT':
        return elem(a[0], j, i)
    if op == 'mblk':
        return elem(a[0], add(a[1], i), add(a[2], j))
    if op == 'mzero':
        return ZERO
    if op == 'mconst':
        return a[0]
    if op == 'mid':
        return ite(eq(i, j), ONE, ZERO)
    if op == 'mundef':
        return UNDEF
    if op == 'mfix':
        return elem(a[0], i, j)
    if op == 'emat':
        R, C = a[0], a[1]
        if is_num(i) and is_num(j):
            ii, jj = int(i.args[0]), int(j.args[0])
            if 0 <= ii < R and 0 <= jj < C:
                return a[2][ii * C + jj]
            return mk('opaque', 'index out of range')
        r = None
        for x in range(R - 1, -1, -1):
            for y in range(C - 1, -1, -1):
                v = a[2][x * C + y]
                c = band(eq(i, num(x)), eq(j, num(y)))
                r = v if r is None else ite(c, v, r)
        return r
    if op == 'mstore':
        base, r0, c0, nr, nc, v = a
        R, C = dims(t)
        cs = []
        cs.append(le(r0, i))
        cs.append(lt(i, add(r0, nr)))
        cs.append(le(c0, j))
        cs.append(lt(j, add(c0, nc)))
        # a column (row) vector has a single column (row)
        if C is ONE and c0 is ZERO and nc is ONE:
            cs = cs[:2]
        if R is ONE and r0 is ZERO and nr is ONE:
            cs = cs[-2:]
        if nc is C and c0 is ZERO:
            cs = cs[:2] if len(cs) == 4 else cs
        if nr is R and r0 is ZERO and len(cs) == 4:
            cs = cs[2:]
        c = band(*cs)
        if c is TRUE:
            return elem(v, sub(i, r0), sub(j, c0))
        if c is FALSE:
            return elem(base, i, j)
        return ite(c, elem(v, sub(i, r0), sub(j, c0)), elem(base, i, j))
    if op == 'mdiag':
        return ite(eq(i, j), elem(a[0], i, ZERO), ZERO)
    if op == 'mdiagof':
        return elem(a[0], i, i)
    if op == 'mresize':
        b = a[0]
        r, c = dims(b)
        return ite(band(lt(i, r), lt(j, c)), elem(b, i, j), UNDEF)
    if op == 'mcwise':
        xs = [elem(x, i, j) for x in a[1]]
        if a[0] == 'mul':
            return mul(*xs)
        if a[0] == 'div':
            return div(xs[0], xs[1])
        return fn(a[0], *xs)
    if op == 'mrep':
        d = dims(a[0])
        return elem(a[0], imod(i, d[0]) if d[0] is not ONE else ZERO, imod(j, d[1]) if d[1] is not ONE else ZERO)
    if op == 'mlam':
        (vi, vj) = a[0]
        return inst(vi, inst(vj, a[3], j), i)
    if op == 'minv':
        r, c = dims(a[0])
        if is_num(r) and r.args[0] == 1:
            return inv(elem(a[0], ZERO, ZERO))
    if op == 'mloop':
        return mloop_elem(t, i, j)
    if op == 'ite':
        return ite(a[0], elem(a[1], i, j), elem(a[2], i, j))
    if op == 'opaque':
        return t
    x = mk('elem', t, i, j)
    ty = TYPE.get(('el', t), 'r')
    TYPE.setdefault(x, ty)
    return x


def mlam(nr, nc, f):
    """matrix with entries f(i, j)"""
    i, j = fresh('i', 'i'), fresh('j', 'i')
    vj, (body,) = bind(j, f(i, j))
    vi, (body, _) = bind(i, body, vj)
    t = mk('mlam', (vi, vj), nr, nc, body)
    TYPE[t] = 'm'
    return t


BUILDERS.update({
    'mlin': lambda s: madd(*[mscale(c, x) for x, c in s]),
    'mmul': lambda s: mmul(*s), 'mT': mT, 'mblk': mblk, 'mstore': mstore, 'elem': elem,
})


# ------------------------------------------------------------ matrix loops
def mloop(k, phi, n, init, nxt):
    """matrix recurrence M_0=init, M_{k+1}=nxt(k, M_k); value M_n."""
    if not depends(nxt, phi):
        # last value wins
        return ite(lt(ZERO, n), subst(nxt, {k: sub(n, ONE)}), init)
    if nxt.op == 'mlin':
        d = dict(nxt.args[0])
        if d.get(phi) is ONE and all(not depends(x, phi) and not depends(c, phi) for x, c in d.items() if x is not phi):
            if not any(depends(x, k) or depends(c, k) for x, c in d.items() if x is not phi):
                del d[phi]
                return madd(init, mscale(n, _mlin(d)))
    pv, (b,) = bind(phi, nxt)
    kv, (b,) = bind(k, b)
    t = mk('mloop', kv, pv, n, init, b)
    TYPE[t] = 'm'
    _eltype(t, init)
    if ('el', init) in TYPE:
        TYPE[('el', phi)] = TYPE[('el', init)]
    return t


def _mloop_b(kv, pv, n, init, b):
    k = fresh()
    phi = fresh('M', 'm')
    DIMS[phi] = dims(init)
    b = inst(kv, b, k)
    b = inst(pv, b, phi)
    return mloop(k, phi, n, init, b)


BUILDERS['mloop'] = _mloop_b


def find_elems(t, phi, acc, memo):
    if t in memo:
        return
    memo.add(t)
    if not depends(t, phi):
        return
    if t.op == 'elem' and t.args[0] is phi:
        acc.add(t)
        for x in t.args[1:]:
            find_elems(x, phi, acc, memo)
        return
    if t is phi:
        acc.add(t)
        return
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                find_elems(a, phi, acc, memo)
        return
    for a in tm._flat(t.args):
        find_elems(a, phi, acc, memo)


def mloop_elem(t, i, j):
    kv, pv, n, init, b = t.args
    k = fresh()
    phi = fresh('M', 'm')
    DIMS[phi] = dims(init)
    if ('el', t) in TYPE:
        TYPE[('el', phi)] = TYPE[('el', t)]
    b2 = inst(pv, inst(kv, b, k), phi)
    F = elem(b2, i, j)
    E = elem(phi, i, j)
    acc = set()
    find_elems(F, phi, acc, set())
    if acc <= {E}:
        r = recur(k, n, E, F, elem(init, i, j))
        if r is not None:
            return r
    x = mk('elem', t, i, j)
    TYPE.setdefault(x, TYPE.get(('el', t), 'r'))
    return x


def recur(k, n, E, F, init):
    """closed form of E_{k+1} = F(k, E_k), E_0 = init, after n steps (or None)"""
    if not contains(F, E):
        return ite(lt(ZERO, n), subst(F, {k: sub(n, ONE)}), init)
    g = sub(F, E)
    if not contains(g, E):
        return add(init, sumk(k, n, g))
    # ite tree with leaves E, E+g or values
    leaves = []

    def walk(t, conds):
        if t.op == 'ite' and contains(t, E):
            if contains(t.args[0], E):
                raise ValueError
            walk(t.args[1], conds + [t.args[0]])
            walk(t.args[2], conds + [neg_b(t.args[0])])
        else:
            leaves.append((conds, t))
    try:
        walk(F, [])
    except ValueError:
        return None
    incs = []
    sets = []
    for conds, t in leaves:
        if t is E:
            continue
        c = band(*conds)
        if c is FALSE:
            continue
        if not contains(t, E):
            sets.append((c, t))
        elif not contains(sub(t, E), E):
            incs.append((c, sub(t, E)))
        else:
            return None
    if incs and not sets:
        tot = ZERO
        for c, g in incs:
            tot = add(tot, sumk(k, n, ite(c, g, ZERO)))
        return add(init, tot)
    # self-referential updates at a unique iteration: E -> f(E)
    out = init
    if sets and not incs:
        # overwrite: need a unique k per element for each guarded set
        res = []
        for c, v in sets:
            e = unique_k(c, k)
            if e is None:
                return None
            cc = band(subst(c, {k: e}), le(ZERO, e), lt(e, n))
            res.append((cc, subst(v, {k: e}), e))
        # several sets: later iterations win; decide by order of e if identical
        if len(res) == 1:
            return ite(res[0][0], res[0][1], init)
        es = {r[2] for r in res}
        if len(es) == 1:
            for cc, v, e in reversed(res):
                out = ite(cc, v, out)
            return out
        return None
    if incs and sets:
        es = set()
        res = []
        for c, v in sets + incs:
            e = unique_k(c, k)
            if e is None:
                return None
            es.add(e)
        if len(es) != 1:
            return None
        e = es.pop()
        for c, v in sets:
            out = ite(band(subst(c, {k: e}), le(ZERO, e), lt(e, n)), subst(v, {k: e}), out)
        for c, g in incs:
            out = ite(band(subst(c, {k: e}), le(ZERO, e), lt(e, n)), add(init, subst(g, {k: e})), out)
        return out
    return None


def unique_k(c, k):
    """the only k that can satisfy c (a term), or None"""
    cs = list(c.args[0]) if c.op == 'and' else [c]
    for x in cs:
        if x.op == 'eq0':
            e = solve_lin(x.args[0], k)
            if e is not None:
                return e
    # s*k + a <= i  and  i <= s*k + a + s - 1   ->  k = (i-a) div s
    los, his = [], []
    for x in cs:
        if x.op == 'le0':
            p = x.args[0]
            co, rest = {}, {}
            ok = True
            for m, cf in pd(p).items():
                dm = dict(m)
                if dm.get(k) == 1:
                    del dm[k]
                    co[tuple(sorted(dm.items(), key=lambda z: z[0].id))] = cf
                elif any(depends(a, k) for a, e in m):
                    ok = False
                else:
                    rest[m] = cf
            if ok and co:
                los.append((pt(co), pt(rest)))
    for s1, r1 in los:
        for s2, r2 in los:
            if add(s1, s2) is ZERO and any(cf > 0 for cf in pd(s1).values()):
                # s1*k + r1 <= 0 ;  -s1*k + r2 <= 0 ; width: -r1 - r2 <= s1-1
                if sub(add(neg(r1), neg(r2)), sub(s1, ONE)) is ZERO:
                    return idiv(neg(r1), s1)
    return None


# ---------------------------------------------------------------- sequences
def vsize(v):
    op, a = v.op, v.args
    if op == 'vempty':
        return ZERO
    if op in ('vpush', 'vpushf'):
        return add(vsize(a[0]), ONE)
    if op == 'vsto':
        return vsize(a[0])
    if op == 'vresize':
        return a[1]
    if op == 'vmap':
        return add(vsize(a[0]), a[2])
    if op == 'vloop':
        return vsize(a[3])
    if op == 'ite':
        return ite(a[0], vsize(a[1]), vsize(a[2]))
    if op == 'vlist':
        return num(len(a[0]))
    if op in ('vpop', 'vpopf'):
        return sub(vsize(a[0]), ONE)
    if op == 'opaque':
        return v
    return mk('size', v)


def vsel(v, i):
    op, a = v.op, v.args
    if op == 'str' and i.op == 'num' and isinstance(a[0], str) and 0 <= i.args[0] <= len(a[0]):
        # characters of a literal, which ends with zero
        return num(ord(a[0][int(i.args[0])])) if i.args[0] < len(a[0]) else num(0)
    if op == 'vpush':
        n = vsize(a[0])
        c = eq(i, n)
        if c is TRUE:
            return a[1]
        if c is FALSE:
            return vsel(a[0], i)
        if lt(i, n) is TRUE:
            return vsel(a[0], i)
        return ite(c, a[1], vsel(a[0], i))
    if op == 'vpushf':
        c = eq(i, ZERO)
        return ite(c, a[1], vsel(a[0], sub(i, ONE)))
    if op == 'vsto':
        return ite(eq(i, a[1]), a[2], vsel(a[0], i))
    if op == 'vresize':
        return ite(lt(i, vsize(a[0])), vsel(a[0], i), a[2])
    if op == 'vmap':
        n0 = vsize(a[0])
        return ite(lt(i, n0), vsel(a[0], i), inst(a[1], a[3], sub(i, n0)))
    if op == 'vpop':
        return vsel(a[0], i)
    if op == 'vpopf':
        return vsel(a[0], add(i, ONE))
    if op == 'ite':
        return ite(a[0], vsel(a[1], i), vsel(a[2], i))
    if op == 'vlist':
        if is_num(i) and 0 <= i.args[0] < len(a[0]):
            return a[0][int(i.args[0])]
    if op == 'vloop':
        r = _vloop_sel(v, i)
        if r is not None:
            return r
    if op == 'vempty':
        return mk('opaque', 'element of empty sequence')
    if op == 'opaque':
        return v
    return mk('sel', v, i)


def vloop(k, phi, n, init, nxt):
    if not depends(nxt, phi):
        return ite(lt(ZERO, n), subst(nxt, {k: sub(n, ONE)}), init)
    if nxt.op == 'vpush' and nxt.args[0] is phi and not depends(nxt.args[1], phi):
        v, (b,) = bind(k, nxt.args[1])
        t = mk('vmap', init, v, n, b)
        TYPE[t] = 'v'
        return t
    if nxt.op == 'vpush' and nxt.args[0] is phi:
        # f(k) may use size(phi) = size(init)+k
        b = subst_general(nxt.args[1], {mk('size', phi): add(vsize(init), k)})
        if not depends(b, phi):
            v, (b,) = bind(k, b)
            t = mk('vmap', init, v, n, b)
            TYPE[t] = 'v'
            return t
    def shape(s):
        while s is not phi:
            if s.op == 'vsto':
                s = s.args[0]
            elif s.op == 'ite':
                return shape(s.args[1]) and shape(s.args[2])
            else:
                return False
        return True
    if shape(nxt):
        sz = mk('size', phi)
        nxt = subst_general(nxt, {sz: vsize(init)})
        pv, (b,) = bind(phi, nxt)
        kv, (b,) = bind(k, b)
        t = mk('vloop', kv, pv, n, init, b)
        TYPE[t] = 'v'
        return t
    return None


def _vloop_sel(t, i):
    kv, pv, n, init, b = t.args
    k = fresh()
    phi = fresh('V', 'v')
    b2 = inst(pv, inst(kv, b, k), phi)
    F = vsel(b2, i)
    E = mk('sel', phi, i)
    acc = set()
    _find_sel(F, phi, acc, set())
    if acc <= {E}:
        return recur(k, n, E, F, vsel(init, i))
    return None


def _find_sel(t, phi, acc, memo):
    if t in memo or not depends(t, phi):
        return
    memo.add(t)
    if t.op == 'sel' and t.args[0] is phi:
        acc.add(t)
        return
    if t is phi:
        acc.add(t)
        return
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                _find_sel(a, phi, acc, memo)
        return
    for a in tm._flat(t.args):
        _find_sel(a, phi, acc, memo)


BUILDERS.update({'size': vsize, 'sel': vsel, 'vmap': lambda b, v, n, body: mk('vmap', b, v, n, body)})


def tri_in(mode, i, j):
    """is (i,j) inside the triangle selected by an Eigen mode"""
    m = mode & ~4 if mode & 4 else mode
    strict = bool(mode & 8)
    if m & 1:
        return lt(j, i) if strict else le(j, i)
    if m & 2:
        return lt(i, j) if strict else le(i, j)
    return TRUE


def _elem_ext(t, i, j):
    op, a = t.op, t.args
    if op == 'msetdiag':
        return ite(eq(i, j), elem(a[1], i, ZERO), elem(a[0], i, j))
    if op == 'mtri':
        if a[1] & 4:
            return ite(eq(i, j), ONE, ite(tri_in(a[1], i, j), elem(a[0], i, j), ZERO))
        return ite(tri_in(a[1], i, j), elem(a[0], i, j), ZERO)
    if op == 'mtrist':
        return ite(tri_in(a[1], i, j), elem(a[2], i, j), elem(a[0], i, j))
    if op == 'msym':
        return ite(tri_in(a[1], i, j), elem(a[0], i, j), elem(a[0], j, i))
    return None


_old_elem = _elem


def _elem(t, i, j):
    if t.op in ('msetdiag', 'mtri', 'mtrist', 'msym'):
        r = _elem_ext(t, i, j)
        if r is not None:
            return r
    return _old_elem(t, i, j)


_old_dims = dims
MATOPS = MATOPS + ('msetdiag', 'mtri', 'mtrist', 'msym')


def dims(t):
    if t.op in ('msetdiag', 'mtri', 'mtrist', 'msym') and t not in DIMS:
        return dims(t.args[0])
    return _old_dims(t)
