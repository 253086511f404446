"""C14: condensed prediction matrices reproduce the step by step evolution of the discrete-time system for every horizon up to a bound, with arbitrary system matrices."""
from .common import *

MPC = 'humoto::MPC::'


def M(name, r, c):
    return [[sym('%s_%d_%d' % (name, i, j), 'r') for j in range(c)] for i in range(r)]


def zeros(r, c):
    return [[ZERO] * c for _ in range(r)]


def lmul(A, B):
    return [[add(*[mul(A[i][k], B[k][j]) for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def blockrow(x, i, n):
    return x[i * n:(i + 1) * n]


def put(dst, r, c, src):
    for i, row in enumerate(src):
        for j, v in enumerate(row):
            dst[r + i][c + j] = v


def value(m, scalar=False):
    return m[0][0] if scalar else emat(m)


def seq(xs):
    t = mk('vlist', tuple(xs))
    TYPE[t] = 'v'
    return t


def compare(cx, name, got, want, facts, W, rule):
    """one obligation per entry"""
    r, c = dims(got)
    cx.eq('%s: rows' % name, r, num(len(want)), facts, W)
    cx.eq('%s: columns' % name, c, num(len(want[0])), facts, W)
    for i, row in enumerate(want):
        for j, v in enumerate(row):
            cx.eq('%s(%d,%d)' % (name, i, j), elem(got, num(i), num(j)), v, facts, W, rule)


def block_sizes(t):
    a = [x.get('v') for x in t['args'][:2]]
    return a[0], a[1]


def evolve(A, B):
    """free and forced response, by the recurrence x' = A x + B u"""
    nx, nu, N = len(A[0]), len(B[0][0]), len(A)
    S, U = [], []
    x = [[ONE if i == j else ZERO for j in range(nx)] for i in range(nx)]
    f = zeros(nx, nu * N)
    for k in range(N):
        x = lmul(A[k], x)
        f = lmul(A[k], f)
        put(f, 0, k * nu, [[add(f[i][k * nu + j], B[k][i][j]) for j in range(nu)] for i in range(nx)])
        S += x
        U += f
    return S, U


def outputs(D, E, S, U):
    nx, N = len(D[0][0]), len(D)
    ny, nu = len(E[0]), len(E[0][0])
    O, P = [], []
    for k in range(N):
        o = D[k] if k == 0 else lmul(D[k], blockrow(S, k - 1, nx))
        p = zeros(ny, nu * N) if k == 0 else lmul(D[k], blockrow(U, k - 1, nx))
        put(p, 0, k * nu, [[add(p[i][k * nu + j], E[k][i][j]) for j in range(nu)] for i in range(ny)])
        O += o
        P += p
    return O, P


def ctor_from_matrix(cx, key):
    for f in cx.P.methods(key, cx.P.C[key]['q'].split('::')[-1]):
        if f.get('ctor') and len(f['params']) == 3 and 'body' in f and cx.ptype(f, 0).get('rows') is not None:
            return f
    raise Missing('constructor of %s from a matrix' % key)


def block_matrix(cx, ev, key, rows, sizes=(0, 0)):
    """a block matrix object holding the given entries"""
    if key.startswith('const '):
        key = key[6:]
    lv = LV(uid('bm'), (), key)
    f = ctor_from_matrix(cx, key)
    cx.run(f, lv, [emat(rows), num(sizes[0]), num(sizes[1])], ev)
    return lv


def raw(cx, ev, lv):
    return cx.get(lv.cls, lv, 'getRaw', ev=ev)


def condense_block(cx, f, N):
    tS, tU = cx.ptype(f, 0), cx.ptype(f, 1)
    nx, nu = block_sizes(tU)
    ev = cx.eval()
    S, U = LV(uid('S'), (), tS['key']), LV(uid('U'), (), tU['key'])
    A = [M('A%d' % k, nx, nx) for k in range(N)]
    B = [M('B%d' % k, nx, nu) for k in range(N)]
    r = cx.run(f, None, [S, U, seq(value(a) for a in A), seq(value(b, nx == nu == 1) for b in B)], ev)
    W = cx.where(f)
    nm = 'condense<%d,%d> N=%d' % (nx, nu, N)
    s, u = evolve(A, B)
    cx.never(nm + ': rejects valid matrices', r.thrown(), [], W)
    compare(cx, nm + ': state response', raw(cx, ev, S), s, [], W, 'free response equals the recurrence')
    compare(cx, nm + ': control response', raw(cx, ev, U), u, [], W, 'forced response equals the recurrence')


def condense_dense(cx, f, N, nx, nu):
    ev = cx.eval()
    S, U = LV(uid('S'), (), None), LV(uid('U'), (), None)
    A = [M('A%d' % k, nx, nx) for k in range(N)]
    B = [M('B%d' % k, nx, nu) for k in range(N)]
    r = cx.run(f, None, [S, U, seq(value(a) for a in A), seq(value(b) for b in B)], ev)
    W = cx.where(f)
    nm = 'condense (dense) %dx%d N=%d' % (nx, nu, N)
    s, u = evolve(A, B)
    cx.never(nm + ': rejects valid matrices', r.thrown(), [], W)
    compare(cx, nm + ': state response', r.post(S), s, [], W, 'free response equals the recurrence')
    compare(cx, nm + ': control response', r.post(U), u, [], W, 'forced response equals the recurrence')


def time_invariant(cx, f, N, nx, nu):
    ev = cx.eval()
    S, U = LV(uid('S'), (), None), LV(uid('U'), (), None)
    A, B = M('A', nx, nx), M('B', nx, nu)
    r = cx.run(f, None, [S, U, num(N), value(A), value(B)], ev)
    W = cx.where(f)
    nm = 'condenseTimeInvariant %dx%d N=%d' % (nx, nu, N)
    s, u = evolve([A] * N, [B] * N)
    cx.never(nm + ': rejects valid matrices', r.thrown(), [], W)
    compare(cx, nm + ': state response', r.post(S), s, [], W, 'free response equals the recurrence')
    compare(cx, nm + ': control response', r.post(U), u, [], W, 'forced response equals the recurrence')


def lower(name, N, r, c):
    """arbitrary block lower triangular matrix"""
    m = M(name, N * r, N * c)
    for i in range(N * r):
        for j in range(N * c):
            if j // c > i // r:
                m[i][j] = ZERO
    return m


def output_block(cx, f, N):
    t = [cx.ptype(f, i) for i in range(6)]
    ny, nu = block_sizes(t[1])
    nx = block_sizes(t[4])[0]
    ev = cx.eval()
    S, U = M('S', N * nx, nx), lower('U', N, nx, nu)
    D = [M('D%d' % k, ny, nx) for k in range(N)]
    E = [M('E%d' % k, ny, nu) for k in range(N)]
    Ux, Uu = block_matrix(cx, ev, t[4]['key'], S), block_matrix(cx, ev, t[5]['key'], U)
    Ox, Ou = LV(uid('O'), (), t[0]['key']), LV(uid('O'), (), t[1]['key'])
    n0 = len(ev.throws)
    r = cx.run(f, None, [Ox, Ou, seq(value(d) for d in D), seq(value(e, ny == nu == 1) for e in E), Ux, Uu], ev)
    W = cx.where(f)
    nm = 'condenseOutput<%d,%d,%d> N=%d' % (nx, nu, ny, N)
    o, p = outputs(D, E, S, U)
    cx.never(nm + ': rejects valid matrices', bor(*[x[0] for x in ev.throws[n0:]]), [], W)
    compare(cx, nm + ': state response', raw(cx, ev, Ox), o, [], W, 'output equals D x + E u')
    compare(cx, nm + ': control response', raw(cx, ev, Ou), p, [], W, 'output equals D x + E u')


def output_dense(cx, f, N, nx, nu, ny):
    ev = cx.eval()
    S, U = M('S', N * nx, nx), lower('U', N, nx, nu)
    D, E = M('D', ny, nx), M('E', ny, nu)
    Ox, Ou = LV(uid('O'), (), None), LV(uid('O'), (), None)
    r = cx.run(f, None, [Ox, Ou, emat(D), emat(E), emat(S), emat(U)], ev)
    W = cx.where(f)
    nm = 'condenseOutput (dense) %dx%dx%d N=%d' % (nx, nu, ny, N)
    o, p = outputs([D] * N, [E] * N, S, U)
    cx.never(nm + ': rejects valid matrices', r.thrown(), [], W)
    compare(cx, nm + ': state response', r.post(Ox), o, [], W, 'output equals D x + E u')
    compare(cx, nm + ': control response', r.post(Ou), p, [], W, 'output equals D x + E u')


def output_many(cx, f, N, widths):
    """several groups of controls of different sizes, one response matrix each"""
    t = [cx.ptype(f, i) for i in range(6)]
    ny, nx = block_sizes(t[0])
    ev = cx.eval()
    S = M('S', N * nx, nx)
    U = [lower('U%d' % j, N, nx, w) for j, w in enumerate(widths)]
    D = [M('D%d' % k, ny, nx) for k in range(N)]
    E = [M('E%d' % k, ny, sum(widths)) for k in range(N)]
    Ux = block_matrix(cx, ev, t[4]['key'], S)
    eU, eO = [cx.P.strip(t[i]['args'][0]['t'])['key'] for i in (5, 1)]
    Uu = seq([ev.load(block_matrix(cx, ev, eU, u, (0, w))) for u, w in zip(U, widths)])
    Ox, Ou = LV(uid('O'), (), t[0]['key']), LV(uid('O'), (), None)
    ev.store(Ou, mk('vempty'))
    n0 = len(ev.throws)
    r = cx.run(f, None, [Ox, Ou, seq(value(d) for d in D), seq(value(e) for e in E), Ux, Uu], ev)
    W = cx.where(f)
    nm = 'condenseOutput (groups %s) N=%d' % ('+'.join(map(str, widths)), N)
    cx.never(nm + ': rejects valid matrices', bor(*[x[0] for x in ev.throws[n0:]]), [], W)
    o = None
    off = 0
    cx.eq(nm + ': number of groups', vsize(r.post(Ou)), num(len(widths)), [], W)
    for j, w in enumerate(widths):
        Ej = [[row[off:off + w] for row in e] for e in E]
        o, p = outputs(D, Ej, S, U[j])
        lv = LV(Ou.root, (('i', num(j)),), eO)
        compare(cx, '%s: response to group %d' % (nm, j), raw(cx, ev, lv), p, [], W, 'output equals D x + E u')
        off += w
    compare(cx, nm + ': state response', raw(cx, ev, Ox), o, [], W, 'output equals D x + E u')


def check(cx):
    P = cx.P
    top = 4 if cx.tier == 'quick' else 8
    n = {'condense': 0, 'condenseOutput': 0, 'condenseTimeInvariant': 0}
    for name in n:
        for f in P.fn(MPC + name):
            if 'body' not in f:
                continue
            n[name] += 1
            k0 = cx.ptype(f, 0)['k'] == 'rec' and cx.ptype(f, 0).get('rows') is None
            for N in range(1, top + 1):
                if name == 'condense':
                    if k0:
                        cx.guard(cx.where(f), condense_block, cx, f, N)
                    else:
                        for nx, nu in ((2, 1), (1, 2)):
                            cx.guard(cx.where(f), condense_dense, cx, f, N, nx, nu)
                elif name == 'condenseTimeInvariant':
                    for nx, nu in ((2, 1), (2, 2)):
                        cx.guard(cx.where(f), time_invariant, cx, f, N, nx, nu)
                elif not k0:
                    for nx, nu, ny in ((2, 1, 1), (2, 2, 1), (1, 1, 2)):
                        cx.guard(cx.where(f), output_dense, cx, f, N, nx, nu, ny)
                elif cx.ptype(f, 1).get('q', '').startswith('std::'):
                    for widths in ((1,), (2, 1), (1, 2)):
                        cx.guard(cx.where(f), output_many, cx, f, N, widths)
                else:
                    cx.guard(cx.where(f), output_block, cx, f, N)
    for name, k in n.items():
        if not k:
            cx.und('anchor: ' + name, '', 'no instance in this tree')
