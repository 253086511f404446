"""C15: block matrices, block products and Kronecker products behave as the dense matrices they denote, for all entries and every combination of block sizes and sparsity the library is used with."""
import re
from .common import *
from .c14 import M, zeros, lmul, put, compare, block_sizes, value

NONE, DIAG, LLT = 1, 2, 3
KIND = {'NONE': NONE, 'DIAGONAL': DIAG, 'LEFT_LOWER_TRIANGULAR': LLT}


def bare(key):
    """class key without outer qualifiers"""
    return key[6:] if key.startswith('const ') else key


def params(key):
    """(rows of a block, columns of a block, sparsity) from the class name; -1: run time"""
    m = re.search(r'(-?\d+), (-?\d+)(?:, etools::MatrixSparsityType::(\w+))?>$', bare(key))
    if not m:
        raise Missing('template arguments of ' + key)
    s = KIND.get(m.group(3))
    if s is None:
        s = DIAG if 'Diagonal' in key else LLT if 'LowerTriangular' in key else NONE
    return int(m.group(1)), int(m.group(2)), s


def sparse(name, nv, nh, R, C, s):
    """arbitrary block matrix with the given pattern of zero blocks"""
    m = M(name, nv * R, nh * C)
    for i in range(nv * R):
        for j in range(nh * C):
            if (s == DIAG and i // R != j // C) or (s == LLT and j // C > i // R):
                m[i][j] = ZERO
    return m


def kron(m, R, C, n):
    """every block replaced by n copies of it on the diagonal"""
    nv, nh = len(m) // R, len(m[0]) // C
    out = zeros(nv * R * n, nh * C * n)
    for i in range(nv):
        for j in range(nh):
            b = [row[j * C:(j + 1) * C] for row in m[i * R:(i + 1) * R]]
            for k in range(n):
                put(out, (i * n + k) * R, (j * n + k) * C, b)
    return out


def build(cx, ev, key, m, R, C, n=None):
    """an object of a block matrix (or Kronecker product) class holding m"""
    key = bare(key)
    r0, c0, s = params(key)
    lv = LV(uid('bm'), (), key)
    name = cx.P.C[key]['q'].split('::')[-1]
    want = 3 if n is None else 4
    for f in cx.P.methods(key, name):
        if f.get('ctor') and len(f['params']) == want and 'body' in f and cx.ptype(f, 0)['k'] != 'int':
            break
    else:
        for k in sorted(cx.P.C):
            if k != key and key in [bare(b['key']) for b in cx.P.C[k]['bases']] and '::BlockMatrix<' in k:
                return build(cx, ev, k, m, R, C, n)
        raise Missing('constructor of ' + key)
    args = [emat(m)] + ([num(n)] if n is not None else []) + [num(R if r0 < 0 else 0), num(C if c0 < 0 else 0)]
    cx.run(f, lv, args, ev)
    return lv


def shapes(s, tier):
    if s == NONE:
        return ((1, 2), (2, 1), (2, 2)) + (((3, 2), (2, 3)) if tier != 'quick' else ())
    return ((1, 1), (2, 2), (3, 3)) + (((4, 4),) if tier != 'quick' else ())


def fam(f):
    return cx_short(f['cls'])


def cx_short(key):
    k = re.sub(r'const |etools::|MatrixSparsityType::|Eigen::Matrix<double, -1, -1>( &)?, |DefaultDynamicMatrix, ', '', bare(key))
    return k


def access(cx, key, R0, C0, s, nv, nh):
    R, C = (2 if R0 < 0 else R0), (3 if C0 < 0 else C0)
    m = sparse('m', nv, nh, R, C, s)
    nm = '%s %dx%d' % (cx_short(key), nv, nh)
    ev = cx.eval()
    lv = build(cx, ev, key, m, R, C)
    cx.never(nm + ': constructor refuses a valid matrix', bor(*[t[0] for t in ev.throws]), [], key)
    g = lambda name, args=(), np=None, const=True: cx.get(key, lv, name, [num(a) for a in args], ev=ev, nparams=np if np is not None else len(args), const=const)

    def W(name):
        try:
            return cx.where(cx.meth(key, name))
        except Missing:
            return key
    for name, v in (('getNumberOfBlocksVertical', nv), ('getNumberOfBlocksHorizontal', nh), ('getNumberOfRows', nv * R), ('getNumberOfColumns', nh * C),
                    ('getBlockRowsNum', R), ('getBlockColsNum', C)):
        cx.guard(nm + ': ' + name, lambda: cx.eq(nm + ': ' + name, g(name), num(v), [], W(name)))
    cx.guard(nm + ': raw', lambda: compare(cx, nm + ': raw matrix', g('getRaw'), m, [], W('getRaw'), 'same entries'))

    def sub_(r0, r, c0, c):
        return [row[c0:c0 + c] for row in m[r0:r0 + r]]

    def view(what, name, args, want, const):
        def do():
            v = g(name, args, const=const)
            if is_mat(v):
                compare(cx, '%s: %s' % (nm, what), v, want, [], W(name), 'block of the dense matrix')
            else:
                cx.eq('%s: %s' % (nm, what), v, want[0][0], [], W(name), 'block of the dense matrix')
        cx.guard('%s: %s' % (nm, what), do)
    for const in (True, False):
        q = 'const ' if const else ''
        for i in range(nv):
            for j in range(nh):
                view('%sblock (%d,%d)' % (q, i, j), 'operator()', (i, j), sub_(i * R, R, j * C, C), const)
            if i < nh:
                view('%sdiagonal block %d' % (q, i), 'operator()', (i,), sub_(i * R, R, i * C, C), const)
            view('%srow %d' % (q, i), 'row', (i, 0), sub_(i * R, R, 0, nh * C), const)
            view('%srow %d from %d' % (q, i, nh - 1), 'row', (i, nh - 1), sub_(i * R, R, (nh - 1) * C, C), const)
            view('%srow %d part' % (q, i), 'row', (i, nh - 1, 1), sub_(i * R, R, (nh - 1) * C, C), const)
        for j in range(nh):
            view('%scolumn %d' % (q, j), 'column', (j, 0), sub_(0, nv * R, j * C, C), const)
            view('%scolumn %d from %d' % (q, j, nv - 1), 'column', (j, nv - 1), sub_((nv - 1) * R, R, j * C, C), const)
            view('%scolumn %d part' % (q, j), 'column', (j, nv - 1, 1), sub_((nv - 1) * R, R, j * C, C), const)
    for k in range(R):
        want = [m[i * R + k] for i in range(nv)]
        view('row %d of every block' % k, 'selectRowInBlocksAsMatrix', (k,), want, False)

        def sel():
            f = cx.meth(key, 'selectRowInBlocks', 1)
            e2 = cx.eval()
            e2.st = ev.st.copy()
            e2.ntmp, e2.nframe = ev.ntmp + 1000, ev.nframe + 1000
            r = cx.run(f, lv, [num(k)], e2)
            o = r.ret if isinstance(r.ret, LV) else e2.tmp(r.ret, bare(cx.P.ty(f['ret'])['key']))
            o = LV(o.root, o.path, bare(cx.P.ty(f['ret'])['key']))
            compare(cx, '%s: selected row %d' % (nm, k), cx.get(o.cls, o, 'getRaw', ev=e2), want, [], cx.where(f), 'rows of the dense matrix')
            for name, v in (('getNumberOfBlocksVertical', nv), ('getNumberOfBlocksHorizontal', nh), ('getBlockRowsNum', 1), ('getBlockColsNum', C)):
                cx.eq('%s: selected row %d: %s' % (nm, k, name), cx.get(o.cls, o, name, ev=e2), num(v), [], cx.where(f))
        cx.guard('%s: selected row %d' % (nm, k), sel)

    def sized(name, args, r, c, zero):
        f = cx.meth(key, name, len(args))
        e2 = cx.eval()
        e2.st = ev.st.copy()
        e2.ntmp, e2.nframe = ev.ntmp + 1000, ev.nframe + 1000
        r_ = cx.run(f, lv, [num(a) for a in args], e2)
        n2 = '%s: %s(%s)' % (nm, name, ','.join(map(str, args)))
        cx.never(n2 + ' refused', r_.thrown(), [], cx.where(f))
        for a, v in (('getNumberOfBlocksVertical', r), ('getNumberOfBlocksHorizontal', c), ('getNumberOfRows', r * R), ('getNumberOfColumns', c * C)):
            cx.eq('%s: %s' % (n2, a), cx.get(key, lv, a, ev=e2), num(v), [], cx.where(f))
        v = cx.get(key, lv, 'getRaw', ev=e2)
        if zero:
            compare(cx, n2, v, zeros(r * R, c * C), [], cx.where(f), 'zero matrix')
        else:
            cx.eq(n2 + ': rows', dims(v)[0], num(r * R), [], cx.where(f))
            cx.eq(n2 + ': columns', dims(v)[1], num(c * C), [], cx.where(f))
    if (nv, nh) in ((1, 1), (2, 1), (2, 2)):
        for name in ('resize', 'setZero'):
            cx.guard(nm + ': ' + name, sized, name, (3, 2), 3, 2, name == 'setZero')
            cx.guard(nm + ': ' + name, sized, name, (2,), 2, 2, name == 'setZero')


def kronecker(cx, key, R0, C0, s, nv, nh, n):
    """conversion to a dense matrix"""
    R, C = (2 if R0 < 0 else R0), (3 if C0 < 0 else C0)
    m = sparse('m', nv, nh, R, C, s)
    nm = '%s %dx%d, %d copies' % (cx_short(key), nv, nh, n)
    want = kron(m, R, C, n)
    for f in cx.P.methods(key, 'evaluate'):
        if 'body' not in f:
            continue
        ev = cx.eval()
        lv = build(cx, ev, key, m, R, C, n)
        if not f['params']:
            r = cx.run(f, lv, [], ev)
            v = r.ret
            what = 'result'
        else:
            out = LV(uid('out'), (), None)
            t = cx.ptype(f, 0)
            if 'Block' in t.get('s', '') or t.get('q', '').endswith('Block'):
                ev.store(out, emat(M('old', len(want), len(want[0]))))
                what = 'part of a matrix'
            else:
                what = 'argument'
            r = cx.run(f, lv, [out], ev)
            v = r.post(out)
        cx.never('%s: evaluation into %s refused' % (nm, what), r.thrown(), [], cx.where(f))
        compare(cx, '%s: %s' % (nm, what), v, want, [], cx.where(f), 'Kronecker product')


def from_matrix(cx, key, R0, C0, s, nv, nh, n):
    """the product of a block matrix refers to the same blocks as the matrix"""
    R, C = (2 if R0 < 0 else R0), (3 if C0 < 0 else C0)
    m = sparse('m', nv, nh, R, C, s)
    f = cx.meth(key, 'getBlockKroneckerProduct', 1)
    ev = cx.eval()
    lv = build(cx, ev, key, m, R, C)
    r = cx.run(f, lv, [num(n)], ev)
    k = bare(cx.P.strip(f['ret'])['key'])
    o = ev.tmp(r.ret, k) if not isinstance(r.ret, LV) else LV(r.ret.root, r.ret.path, k)
    g = [x for x in cx.P.methods(k, 'evaluate') if not x['params'] and 'body' in x]
    if not g:
        raise Missing('evaluate of ' + k)
    r2 = cx.run(g[0], o, [], ev)
    compare(cx, '%s %dx%d: product with %d copies' % (cx_short(key), nv, nh, n), r2.ret, kron(m, R, C, n), [], cx.where(f), 'Kronecker product')


def operand(cx, t, name, rows=None, n=2):
    """shapes an operand of a product can take: list of (build, dense)"""
    out = []
    key = bare(t.get('key', '') or '')
    if t.get('rows') is None and ('BlockMatrix' in key or 'BlockKronecker' in key):
        R0, C0, s = params(key)
        R, C = (2 if R0 < 0 else R0), (3 if C0 < 0 else C0)
        isk = 'BlockKronecker' in key
        for nv, nh in shapes(s, cx.tier):
            m = sparse(name, nv, nh, R, C, s)
            dense = kron(m, R, C, n) if isk else m
            out.append(((lambda ev, m=m: build(cx, ev, key, m, R, C, n if isk else None)), dense, '%s %dx%d' % (cx_short(key), nv, nh)))
    else:
        r, c = t.get('rows'), t.get('cols')
        if t.get('k') != 'rec' and r is None:
            raise Missing('operand')
        m = re.search(r'Eigen::Matrix<double, (-?\d+), (-?\d+)', t.get('s', ''))
        if (r is None or c is None) and m:
            r, c = int(m.group(1)), int(m.group(2))
        cols = c if c and c > 0 else 2
        if rows is not None and (r is None or r < 0 or r == rows):
            mm = M(name, rows, cols)
            out.append(((lambda ev, mm=mm: emat(mm)), mm, 'dense'))
    return out


def product(cx, f):
    tl, tr = cx.ptype(f, 0), cx.ptype(f, 1)
    for lb, ld, ln in operand(cx, tl, 'l'):
        for rb, rd, rn in operand(cx, tr, 'r', rows=len(ld[0])):
            if len(rd) != len(ld[0]):
                continue
            ev = cx.eval()
            a, b = lb(ev), rb(ev)
            n0 = len(ev.throws)
            r = cx.run(f, None, [a, b], ev)
            nm = '%s * %s' % (ln, rn)
            cx.never(nm + ' refused', bor(*[t[0] for t in ev.throws[n0:]]), [], cx.where(f))
            compare(cx, nm, r.ret, lmul(ld, rd), [], cx.where(f), 'dense product')


def check(cx):
    P = cx.P
    n = [0, 0, 0]
    for key in sorted(P.C):
        m = re.match(r'etools::(Generic|Diagonal|LeftLowerTriangular)BlockMatrix<', key)
        if m:
            R, C, s = params(key)
            n[0] += 1
            for nv, nh in shapes(s, cx.tier):
                cx.guard(key, access, cx, key, R, C, s, nv, nh)
                cx.guard(key + ' Kronecker', from_matrix, cx, key, R, C, s, nv, nh, 2)
        elif re.match(r'etools::BlockKroneckerProductBase<(const )?Eigen::Matrix<', key) and any('body' in f for f in P.methods(key, 'evaluate')):
            R, C, s = params(key)
            n[1] += 1
            for nv, nh in shapes(s, cx.tier):
                for k in ((2, 3) if cx.tier == 'quick' else (2, 3, 4)):
                    cx.guard(key, kronecker, cx, key, R, C, s, nv, nh, k)
    for f in P.fn('etools::operator*'):
        if 'body' in f and any('Block' in (cx.ptype(f, i).get('key') or '') for i in (0, 1)):
            n[2] += 1
            cx.guard(cx.where(f), product, cx, f)
    for k, what in zip(n, ('block matrices', 'Kronecker products', 'products')):
        if not k:
            cx.und('anchor: ' + what, '', 'no instance in this tree')
