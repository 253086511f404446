"""C20: the matrix utilities compute exactly the products, arrangements and selections they are documented to compute."""
from .common import *
from .c14 import M, compare, seq, zeros

ET = 'etools::'


def overload(cx, q, n, pred=None):
    """instances of a function"""
    fs = [f for f in cx.P.F.values() if f['q'] == ET + q and 'body' in f and len(f['params']) == n and (pred is None or pred(f))]
    if not fs:
        raise Missing(ET + q)
    return sorted(fs, key=lambda f: str(f['l']))


def mat(cx, ev, rows, cols=None):
    """a variable with the given entries"""
    lv = LV(uid('m'), (), None)
    ev.store(lv, emat(rows) if rows and rows[0] else mk('mzero', num(len(rows)), num(0 if cols is None else cols)))
    return lv


def dot(xs, ys):
    r = ZERO
    for x, y in zip(xs, ys):
        r = add(r, mul(x, y))
    return r


def col(A, j):
    return [r[j] for r in A]


def grams(cx, r, c):
    A = M('a', r, c)
    G = [[dot(col(A, i), col(A, j)) for j in range(c)] for i in range(c)]
    for q, n in (('getATA', 2), ('getATA', 4), ('addATA', 2), ('addATA', 3)):
        for f in overload(cx, q, n):
            W = cx.where(f)
            for off, total in ((0, c),) if n == 2 else ((0, c), (0, c + 1), (1, c + 1), (1, c + 2), (2, c + 2)):
                ev = cx.eval()
                size = total if q == 'addATA' else 2
                X = M('x', size, size)
                x, a = mat(cx, ev, X), mat(cx, ev, A)
                args = [x, a] + ([] if n == 2 else [num(off)]) + ([num(total)] if n == 4 else [])
                res = cx.run(f, None, args, ev)
                nm = '%s of %dx%d%s' % (q, r, c, '' if n == 2 else ' at %d of %d' % (off, total))
                cx.never(nm + ': refused', res.thrown(), [], W)
                y = ev.load(x)
                cx.eq(nm + ': rows', dims(y)[0], num(total), [], W)
                cx.eq(nm + ': columns', dims(y)[1], num(total), [], W)
                for i in range(total):
                    for j in range(i + 1):
                        inside = off <= i < off + c and off <= j < off + c
                        w = G[i - off][j - off] if inside else ZERO
                        if q == 'addATA':
                            w = add(X[i][j], w)
                        cx.eq('%s: entry %d,%d' % (nm, i, j), elem(y, num(i), num(j)), w, [], W, 'lower triangle of the product of the transposed matrix with itself')


def symmetric(cx, n):
    for f in overload(cx, 'convertLLTtoSymmetric', 1):
        ev = cx.eval()
        X = M('x', n, n)
        x = mat(cx, ev, X)
        r = cx.run(f, None, [x], ev)
        nm = 'symmetric matrix of %d' % n
        cx.never(nm + ': refused', r.thrown(), [], cx.where(f))
        compare(cx, nm, ev.load(x), [[X[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)], [], cx.where(f), 'upper triangle mirrors the lower one')


def transforms(cx):
    for f in overload(cx, 'transform', 3):
        t = cx.ptype(f, 0)
        ret = cx.P.strip(f['ret'])
        n, m = ret.get('rows'), ret.get('cols')
        if n not in (2, 3) or not m or m < 1:
            continue
        ev = cx.eval()
        A, R, t = M('a', n, m), M('r', n, n), M('t', n, 1)
        r = cx.run(f, None, [mat(cx, ev, A), mat(cx, ev, R), mat(cx, ev, t)], ev)
        compare(cx, 'transform of %dx%d' % (n, m), r.ret, [[add(dot(R[i], col(A, j)), t[i][0]) for j in range(m)] for i in range(n)], [], cx.where(f), 'rotated and translated columns')


def diagonal_of(Bs):
    C = sum(len(b[0]) for b in Bs)
    out, c = [], 0
    for b in Bs:
        for row in b:
            out.append([ZERO] * c + row + [ZERO] * (C - c - len(row)))
        c += len(b[0])
    return out


def diagonals(cx, shapes):
    for f in overload(cx, 'makeBlockDiagonal', 1):
        a = (cx.ptype(f, 0).get('args') or [{}])[0]
        e = cx.P.strip(a['t']) if 't' in a else {}
        if (e.get('rows') or -1) > 0 and any(s != (e['rows'], e['cols']) for s in shapes):
            continue
        Bs = [M('b%d' % k, r, c) for k, (r, c) in enumerate(shapes)]
        ev = cx.eval()
        lv = LV(uid('list'), (), None)
        ev.store(lv, seq([emat(b) for b in Bs]) if Bs else mk('vempty'))
        r = cx.run(f, None, [lv], ev)
        nm = 'block diagonal of %s' % (','.join('%dx%d' % s for s in shapes) or 'nothing')
        cx.never(nm + ': refused', r.thrown(), [], cx.where(f))
        if not Bs:
            cx.eq(nm + ': empty', mul(dims(r.ret)[0], dims(r.ret)[1]), ZERO, [], cx.where(f))
        else:
            compare(cx, nm, r.ret, diagonal_of(Bs), [], cx.where(f), 'matrices on the diagonal, zeros elsewhere')


def copies(cx, r, c, n):
    for f in overload(cx, 'makeBlockDiagonal', 2):
        B = M('b', r, c)
        ev = cx.eval()
        res = cx.run(f, None, [mat(cx, ev, B), num(n)], ev)
        nm = 'block diagonal of %d copies of %dx%d' % (n, r, c)
        cx.never(nm + ': refused', res.thrown(), [], cx.where(f))
        if n == 0:
            cx.eq(nm + ': empty', mul(dims(res.ret)[0], dims(res.ret)[1]), ZERO, [], cx.where(f))
        else:
            compare(cx, nm, res.ret, diagonal_of([B] * n), [], cx.where(f), 'copies on the diagonal, zeros elsewhere')


def vertical(cx, rows, c, width=0):
    """rows None: an empty matrix"""
    for f in overload(cx, 'concatenateMatricesVertically', 2):
        Bs = [M('b%d' % k, r, c) if r else None for k, r in enumerate(rows)]
        ev = cx.eval()
        lv = LV(uid('list'), (), None)
        ev.store(lv, seq([emat(b) if b else mk('mzero', ZERO, num(width)) for b in Bs]) if Bs else mk('vempty'))
        x = mat(cx, ev, M('x', 2, 2))
        r = cx.run(f, None, [x, lv], ev)
        nm = 'matrices with %s rows below each other' % (','.join(str(k) for k in rows) or 'no')
        cx.never(nm + ': refused', r.thrown(), [], cx.where(f))
        want = [row for b in Bs if b for row in b]
        y = ev.load(x)
        if not want:
            cx.eq(nm + ': empty', mul(dims(y)[0], dims(y)[1]), ZERO, [], cx.where(f))
        else:
            compare(cx, nm, y, want, [], cx.where(f), 'rows of all matrices in their order')


def horizontal(cx, cols, r, width=0):
    """cols 0: an empty matrix"""
    for f in overload(cx, 'concatenateMatricesHorizontally', len(cols) + 1):
        Bs = [M('b%d' % k, r, c) if c else None for k, c in enumerate(cols)]
        ev = cx.eval()
        x = mat(cx, ev, M('x', 2, 2))
        args = [x]
        for b in Bs:
            if b:
                args.append(mat(cx, ev, b))
            else:
                lv = LV(uid('m'), (), None)
                ev.store(lv, mk('mzero', ZERO, num(width)))
                args.append(lv)
        res = cx.run(f, None, args, ev)
        nm = 'matrices with %s columns next to each other' % ','.join(str(k) for k in cols)
        cx.never(nm + ': refused', res.thrown(), [], cx.where(f))
        y = ev.load(x)
        if not any(cols):
            cx.eq(nm + ': empty', mul(dims(y)[0], dims(y)[1]), ZERO, [], cx.where(f))
        else:
            compare(cx, nm, y, [sum([b[i] for b in Bs if b], []) for i in range(r)], [], cx.where(f), 'columns of all matrices in their order')


def removal(cx, r, c):
    X = M('x', r, c)
    for q, n in (('removeRow', r), ('removeColumn', c)):
        for f in overload(cx, q, 2):
            for k in range(n):
                ev = cx.eval()
                x = mat(cx, ev, X)
                res = cx.run(f, None, [x, num(k)], ev)
                nm = '%s %d of %dx%d' % (q, k, r, c)
                cx.never(nm + ': refused', res.thrown(), [], cx.where(f), 'an existing row or column can be removed')
                y = ev.load(x)
                if q == 'removeRow':
                    want = [row for i, row in enumerate(X) if i != k]
                else:
                    want = [[v for j, v in enumerate(row) if j != k] for row in X]
                if want and want[0]:
                    compare(cx, nm, y, want, [], cx.where(f), 'all other rows or columns in their order')
                else:
                    cx.eq(nm + ': rows', dims(y)[0], num(r - (q == 'removeRow')), [], cx.where(f))
                    cx.eq(nm + ': columns', dims(y)[1], num(c - (q != 'removeRow')), [], cx.where(f))


def kron(cx, nv, nh, br, bc, n):
    for f in overload(cx, 'multiplyBlockKroneckerIdentity', 4):
        X = M('x', nv * br, nh * bc)
        ev = cx.eval()
        r = cx.run(f, None, [mat(cx, ev, X), num(br), num(bc), num(n)], ev)
        nm = '%dx%d blocks of %dx%d times identity of %d' % (nv, nh, br, bc, n)
        cx.never(nm + ': refused', r.thrown(), [], cx.where(f))
        want = [[ZERO] * (nh * bc * n) for _ in range(nv * br * n)]
        for i in range(nv):
            for j in range(nh):
                for k in range(n):
                    for a in range(br):
                        for b in range(bc):
                            want[i * br * n + k * br + a][j * bc * n + k * bc + b] = X[i * br + a][j * bc + b]
        compare(cx, nm, r.ret, want, [], cx.where(f), 'every block repeated on the diagonal')


def selection(cx, r, c, step, first):
    X = M('x', r, c)
    want = [X[i] for i in range(first, r, step)]
    for f in overload(cx, 'selectRows', 3):
        ev = cx.eval()
        res = cx.run(f, None, [mat(cx, ev, X), num(step), num(first)], ev)
        compare(cx, 'every %d. row from %d of %dx%d' % (step, first, r, c), ev.rv(res.ret), want, [], cx.where(f), 'rows first, first + step, ...')
    k = cx.cls(ET + 'SelectionMatrix')
    ctor = [g for g in cx.P.methods(k, 'SelectionMatrix') if 'body' in g and len(g['params']) == 2]
    for f in overload(cx, 'operator*', 2, lambda f: 'SelectionMatrix' in (cx.ptype(f, 0).get('q') or '')):
        if not ctor:
            raise Missing(ET + 'SelectionMatrix')
        ev = cx.eval()
        s = LV(uid('sel'), (), k)
        cx.run(ctor[0], s, [num(step), num(first)], ev)
        res = cx.run(f, None, [s, mat(cx, ev, X)], ev)
        compare(cx, 'selection matrix %d,%d of %dx%d' % (step, first, r, c), ev.rv(res.ret), want, [], cx.where(f), 'rows first, first + step, ...')


def cross(cx):
    k = cx.cls(ET + 'CrossProductMatrix')
    v, b = M('v', 3, 1), M('b', 3, 1)
    x, y, z = [e[0] for e in v]
    S = [[ZERO, neg(z), y], [z, ZERO, neg(x)], [neg(y), x, ZERO]]
    for f in cx.P.methods(k, 'eval'):
        if 'body' in f and len(f['params']) == 1:
            ev = cx.eval()
            r = cx.run(f, None, [mat(cx, ev, v)], ev)
            compare(cx, 'cross product matrix', r.ret, S, [], cx.where(f), 'skew symmetric matrix of the vector')
    ctor = [g for g in cx.P.methods(k, 'CrossProductMatrix') if 'body' in g and len(g['params']) == 1 and cx.ptype(g, 0).get('q') != ET + 'CrossProductMatrix']
    if not ctor:
        raise Missing(ET + 'CrossProductMatrix')
    for f in overload(cx, 'operator*', 2, lambda f: any('CrossProductMatrix' in (cx.ptype(f, i).get('q') or '') for i in (0, 1))):
        ev = cx.eval()
        s = LV(uid('cross'), (), k)
        cx.run(ctor[0], s, [mat(cx, ev, v)], ev)
        if 'CrossProductMatrix' in (cx.ptype(f, 0).get('q') or ''):
            r = cx.run(f, None, [s, mat(cx, ev, b)], ev)
            compare(cx, 'cross product', r.ret, [[dot(S[i], col(b, 0))] for i in range(3)], [], cx.where(f), 'product of the skew symmetric matrix and the operand')
        else:
            for n in (3,) if (cx.P.strip(f['ret']).get('rows') or -1) == 3 else (1, 2, 3):
                B = M('b', n, 3)
                r = cx.run(f, None, [mat(cx, ev, B), s], ev)
                compare(cx, 'matrix of %d rows times cross product' % n, r.ret, [[dot(B[i], col(S, j)) for j in range(3)] for i in range(n)], [], cx.where(f), 'product of the operand and the skew symmetric matrix')


def shapes(cx):
    """names of matrix types state their shapes"""
    import re
    n = 0
    for q in sorted(cx.P.T):
        m = re.match(r'^etools::(?:Vector(\d+)|Matrix(\d+)|Matrix(\d+)x(\d+))$', q)
        if not m:
            continue
        t = cx.P.strip(cx.P.T[q]['t'])
        if 'rows' not in t:
            # never used: the arguments of the template
            a = t.get('args') or []
            if t.get('q') != 'Eigen::Matrix' or len(a) < 3 or 'v' not in a[1] or 'v' not in a[2]:
                continue
            t = {'rows': a[1]['v'], 'cols': a[2]['v']}
        v, s, r, c = [int(x) if x else None for x in m.groups()]
        want = (v, 1) if v else (s, s) if s else (r, c)
        cx.eq('shape of %s: rows' % q, num(t.get('rows') or 0), num(want[0]), [], q, 'the name states the size')
        cx.eq('shape of %s: columns' % q, num(t.get('cols') or 0), num(want[1]), [], q, 'the name states the size')
        n += 1
    if not n:
        raise Missing('etools types')


def check(cx):
    cx.guard('shapes', shapes, cx)
    top = 4 if cx.tier == 'thorough' else 3
    R = range(1, top + 1)
    for r in R:
        for c in R:
            cx.guard('squares of %dx%d' % (r, c), grams, cx, r, c)
            cx.guard('removal from %dx%d' % (r, c), removal, cx, r, c)
    for r, c in ((2, 5), (5, 2), (1, 6), (6, 1)):
        cx.guard('removal from %dx%d' % (r, c), removal, cx, r, c)
    for n in range(1, top + 2):
        cx.guard('symmetric', symmetric, cx, n)
    cx.guard('transform', transforms, cx)
    for s in ((), ((2, 2),), ((2, 2), (2, 2)), ((1, 2), (3, 1), (2, 2)), ((2, 1), (1, 1), (1, 3), (2, 2)), ((2, 2), (2, 2), (2, 2))):
        cx.guard('block diagonal', diagonals, cx, s)
    for r, c in ((1, 1), (2, 1), (1, 3), (2, 3)):
        for n in range(0, top + 1):
            cx.guard('copies', copies, cx, r, c, n)
    for rows in ((), (2,), (0,), (1, 2), (0, 2), (2, 0), (0, 0), (0, 0, 2), (2, 0, 0), (1, 0, 0, 2), (0, 1, 0, 2, 0), (3, 1, 2), (0, 0, 0), (0, 0, 0, 1)):
        for w in (0, 2):
            cx.guard('vertical', vertical, cx, rows, 2, w)
    for cols in ((2, 3), (0, 2), (2, 0), (0, 0), (1, 2, 3), (0, 1, 2), (1, 0, 2), (1, 2, 0), (0, 0, 2), (0, 2, 0), (2, 0, 0), (0, 0, 0)):
        for w in (0, 3):
            cx.guard('horizontal', horizontal, cx, cols, 2, w)
    for a in ((1, 1, 1, 1, 1), (2, 1, 1, 2, 2), (1, 2, 2, 1, 3), (2, 2, 1, 1, 2), (2, 2, 2, 3, 2), (1, 1, 2, 2, 3)):
        cx.guard('repeated blocks', kron, cx, *a)
    for r in (1, 2, 3, 4, 5, 6):
        for step in (1, 2, 3):
            for first in range(0, min(step, r)):
                cx.guard('selection', selection, cx, r, 2, step, first)
    cx.guard('cross product', cross, cx)
