"""Random interpretation of value-graph terms.

A mismatch between two value graphs is reported only after the two terms have
been evaluated to different values under some interpretation of their
uninterpreted leaves (program inputs, field values, external functions) that
satisfies the stated facts.  Only terms are evaluated; the analysed program is
never run."""
import math
import random
from fractions import Fraction
import time
from .terms import *
from . import terms as tm
from .mat import *


class Skip(Exception):
    """the sample leaves the domain (index out of range, division by zero, ...)"""


class Outside(Skip):
    """an access outside of a matrix or sequence, or operands of different sizes"""
    pass


class M(object):
    __slots__ = ('r', 'c', 'd', '_k')

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ('M', self.r, self.c, tuple(vkey(x) for x in self.d))
        return self._k

    def at(self, i, j):
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise Outside('index (%s,%s) of %sx%s' % (i, j, self.r, self.c))
        return self.d[i * self.c + j]


class A(object):
    """abstract object identified by a key, with overridden fields"""
    __slots__ = ('base', 'ov', '_k')

    def __init__(self, base, ov=None):
        self.base = base
        self.ov = ov or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ('A', self.base, tuple(sorted((str(k), vkey(v)) for k, v in self.ov.items())))
        return self._k


class V(object):
    """sequence"""
    __slots__ = ('xs', '_k')

    def __init__(self, xs):
        self.xs = xs
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ('V', tuple(vkey(x) for x in self.xs))
        return self._k


class LazyEl(object):
    """element of an input sequence, typed when it is used"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def key(self):
        return self.k


def vkey(x):
    if isinstance(x, (M, A, V, LazyEl)):
        return x.key()
    if isinstance(x, float):
        return ('f', round(x, 9))
    if isinstance(x, Fraction):
        return ('f', x) if x.denominator != 1 else int(x)
    if isinstance(x, tuple):
        return tuple(vkey(y) for y in x)
    return x


class Env(object):
    def __init__(self, seed, enums=None, maxint=4):
        self.rng = random.Random(seed)
        self.val = {}
        self.enums = enums or {}
        self.maxint = maxint
        self.memo = {}
        self.steps = 0
        self.mode = seed % 3
        self.keyof = {}

    # ------------------------------------------------------------ repair
    def repair(self, f):
        """change one scalar leaf so that the linear literal f becomes true; False if impossible"""
        if f.op == 'and':
            for x in f.args[0]:
                if not self.bool(x, ({}, self.memo)):
                    return self.repair(x)
            return False
        if f.op == 'or':
            xs = list(f.args[0])
            self.rng.shuffle(xs)
            for x in xs:
                if self.repair(x):
                    return True
            return False
        neg = False
        if f.op == 'not':
            f = f.args[0]
            neg = True
        if f in self.keyof:
            k = self.keyof[f]
            if isinstance(self.val.get(k), bool):
                self.val[k] = not neg
                self.forget()
                return True
            return False
        if f.op not in ('le0', 'lt0', 'eq0'):
            return False
        p = f.args[0]
        v = self.n(p, ({}, self.memo))
        if isinstance(v, float):
            return False
        cand = []
        for m, c in pd(p).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.keyof:
                cand.append((m[0][0], c))
        self.rng.shuffle(cand)
        for x, c in cand:
            k = self.keyof[x]
            old = self.val.get(k)
            if not isinstance(old, Fraction):
                continue
            ty = TYPE.get(x, 'r')
            if neg and f.op == 'eq0':
                new = old + self.rng.choice([1, 2])
            else:
                d = -v / c
                new = old + d
                slack = 0
                if f.op != 'eq0' and not neg:
                    slack = -(1 if f.op == 'lt0' else 0) - (self.rng.randint(0, 2) if self.rng.random() < 0.4 else 0)
                elif neg:
                    slack = (1 if f.op == 'le0' else 0) + (self.rng.randint(0, 2) if self.rng.random() < 0.4 else 0)
                new += slack / c if c else 0
                if ty in ('i', 'u', 'e') and new.denominator != 1:
                    up = (c < 0) != neg
                    new = Fraction(math.ceil(new) if up else math.floor(new))
            if ty == 'u' and new < 0:
                continue
            if ty == 'e' and self.enums.get(ENUM.get(x)) and new not in self.enums[ENUM[x]]:
                continue
            if ty in ('i', 'u') and abs(new) > 12:
                continue
            self.val[k] = new
            self.forget()
            return True
        return False

    def forget(self):
        """drop everything computed, keep scalar leaves"""
        self.memo.clear()
        self.val = {k: v for k, v in self.val.items() if k[1] in ('n', 'b')}

    # ------------------------------------------------------------ generation
    def real(self):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return Fraction(r.choice([0, 1, -1, 2]))
        if k < 0.5:
            return Fraction(r.randint(-6, 6))
        return Fraction(r.randint(-40, 40), r.choice([2, 3, 4, 5, 7]))

    def gen(self, key, ty, t):
        k = (key, 'n' if ty in ('i', 'u', 'r', 'e') else ty)
        if k in self.val:
            return self.val[k]
        v = self._gen(key, ty, t)
        self.val[k] = v
        return v

    def _gen(self, key, ty, t):
        r = self.rng
        if ty == 'u':
            return Fraction(r.randint(0, self.maxint))
        if ty == 'i':
            return Fraction(r.randint(0, self.maxint) if r.random() < 0.8 else r.randint(-3, 2 * self.maxint))
        if ty == 'e':
            vs = self.enums.get(ENUM.get(t))
            return Fraction(r.choice(vs)) if vs else Fraction(r.randint(0, 3))
        if ty == 'r':
            return self.real()
        if ty == 'b':
            return r.random() < 0.5
        if ty == 'm':
            d = DIMS.get(t)
            if d is not None:
                R, C = [self.ev_dim(x, key, i) for i, x in enumerate(d)]
            else:
                R, C = self.dim(key, 0), self.dim(key, 1)
            if R < 0 or C < 0 or R * C > 400:
                raise Skip('dims')
            ety = TYPE.get(('el', t), 'r')
            return M(R, C, [Fraction(r.randint(0, self.maxint - 1)) if ety in ('i', 'u') else self.real() for _ in range(R * C)])
        if ty == 'v':
            n = int(self.gen(('size', key), 'u', None))
            return V([LazyEl((key, i)) for i in range(n)])
        if ty == 'p':
            return A(('ptr', key)) if r.random() < 0.7 else None
        return A(key)

    def dim(self, key, i):
        return int(self.gen((('rows', 'cols')[i], key), 'u', None))

    def ev_dim(self, x, key, i):
        if x.op in ('rows', 'cols') and x.args[0].op in ('sym', 'fld', 'out', 'call', 'obj', 'sel', 'fresh', 'mapget'):
            return self.dim(key, i)
        return self.int(x, ({}, self.memo))

    # ------------------------------------------------------------ evaluation
    def ev(self, t, b=None):
        if b is None:
            b = ({}, self.memo)
        memo = self.memo if t.bvh == 0 and not t.syms else b[1]
        r = memo.get(t, memo)
        if r is not memo:
            return r
        self.steps += 1
        if self.steps > 200000:
            raise Skip('steps')
        r = self._ev(t, b)
        memo[t] = r
        return r

    def bindb(self, b, d):
        n = dict(b[0])
        n.update(d)
        return (n, {})

    def n(self, t, b):
        v = self.ev(t, b)
        if isinstance(v, LazyEl):
            v = self.gen(v.k, TYPE.get(t, 'r'), t)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, M):
            if v.r == 1 and v.c == 1:
                return v.d[0]
            raise Skip('matrix as number')
        if not isinstance(v, (Fraction, float, int)):
            # a typeless atom used as a number
            return self.gen(('num', vkey(v)), TYPE.get(t, 'r') if TYPE.get(t) in ('i', 'u', 'r', 'e') else 'r', t)
        return v

    def int(self, t, b):
        v = self.n(t, b)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Skip('non-integer')
            return int(round(v))
        if v.denominator != 1:
            raise Skip('non-integer')
        return int(v)

    def bool(self, t, b):
        v = self.ev(t, b)
        if isinstance(v, LazyEl):
            v = self.gen(v.k, 'b', t)
        if isinstance(v, bool):
            return v
        if isinstance(v, (Fraction, float, int)):
            return v != 0
        if v is None:
            return False
        return self.gen(('bool', vkey(v)), 'b', t)

    def mat(self, t, b):
        v = self.ev(t, b)
        if isinstance(v, LazyEl):
            v = self.gen(v.k, 'm', t)
        if isinstance(v, M):
            return v
        if isinstance(v, (Fraction, float)):
            return M(1, 1, [v])
        if isinstance(v, A):
            return self.gen(('mat', v.key()), 'm', t)
        raise Skip('not a matrix')

    def seq(self, t, b):
        v = self.ev(t, b)
        if isinstance(v, LazyEl):
            v = self.gen(v.k, 'v', t)
        if isinstance(v, V):
            return v
        if isinstance(v, A):
            return self.gen(('seq', v.key()), 'v', t)
        raise Skip('not a sequence')

    def atom(self, t, key):
        ty = TYPE.get(t, 'o')
        if ty == 'o' and t in DIMS:
            ty = 'm'
        v = self.gen(key, ty, t)
        if ty in ('i', 'u', 'r', 'e'):
            self.keyof[t] = (key, 'n')
        elif ty == 'b':
            self.keyof[t] = (key, 'b')
        return v

    def _ev(self, t, b):
        op, a = t.op, t.args
        if op == 'num':
            return a[0]
        if op == 'poly':
            s = Fraction(0)
            for m, c in a[0]:
                p = c
                for x, e in m:
                    v = self.n(x, b)
                    if e < 0 and v == 0:
                        raise Skip('div0')
                    if isinstance(v, float):
                        try:
                            p = p * v ** e
                        except OverflowError:
                            raise Skip('overflow')
                    else:
                        p = p * Fraction(v) ** e
                s = s + p
            return s
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'none':
            return None
        if op == 'str':
            return ('s', a[0])
        if op in ('bv', 'bvo'):
            if t not in b[0]:
                raise Skip('unbound')
            return b[0][t]
        if op == 'ite':
            return self.ev(a[1] if self.bool(a[0], b) else a[2], b)
        if op == 'and':
            return all(self.bool(x, b) for x in a[0])
        if op == 'or':
            return any(self.bool(x, b) for x in a[0])
        if op == 'not':
            return not self.bool(a[0], b)
        if op in ('le0', 'lt0', 'eq0'):
            v = self.n(a[0], b)
            if isinstance(v, float):
                if abs(v) < 1e-9:
                    if op == 'eq0' or op == 'le0':
                        return True
                    return False
            return v <= 0 if op == 'le0' else v < 0 if op == 'lt0' else v == 0
        if op == 'eq':
            x, y = self.ev(a[0], b), self.ev(a[1], b)
            return self.same(self.force(x, a[0]), self.force(y, a[1]))
        if op in ('sym', 'fresh', 'obj'):
            return self.atom(t, (op,) + a)
        if op in ('undef', 'uninit', 'default', 'skip', 'func', 'void', 'typeid', 'thrown', 'refto', 'tried'):
            if op in ('undef', 'uninit'):
                # a value nobody defined: arbitrary, distinct from anything else
                return self.gen((op, t.id), TYPE.get(t, 'r') if TYPE.get(t) not in (None, 'o') else 'o', t)
            return self.atom(t, (op,) + tuple(str(x) for x in a))
        if op == 'inf':
            return Fraction(10 ** 15)
        if op == 'addr':
            return A(('addr', str(a[0]), self.path(a[1], b)))
        if op == 'upd':
            base = self.ev(a[0], b)
            if isinstance(base, LazyEl):
                base = A(base.k)
            if not isinstance(base, A):
                raise Skip('record base')
            ov = dict(base.ov)
            for k, v in a[1]:
                ov[k] = self.ev(v, b)
            return A(base.base, ov)
        if op == 'fld':
            o = self.ev(a[0], b)
            if isinstance(o, LazyEl):
                o = A(o.k)
            if isinstance(o, M) or o is None or isinstance(o, (bool, Fraction, float)):
                raise Skip('field of non-record')
            if isinstance(o, tuple):
                return self.atom(t, ('fld', o, str(a[1])))
            if isinstance(o, V):
                return self.atom(t, ('fld', o.key(), str(a[1])))
            if a[1] in o.ov:
                return o.ov[a[1]]
            return self.atom(t, ('fld', o.base, str(a[1])))
        if op == 'sel':
            v = self.seq(a[0], b)
            i = self.int(a[1], b)
            if not 0 <= i < len(v.xs):
                raise Outside('sequence index')
            return self.force(v.xs[i], t)
        if op == 'size':
            return Fraction(len(self.seq(a[0], b).xs))
        if op in ('rows', 'cols'):
            x = self.mat(a[0], b)
            return Fraction(x.r if op == 'rows' else x.c)
        if op in ('call', 'out', 'ev', 'mapget', 'maphas', 'cat', 'fn', 'it', 'mit', 'mend', 'dyncast', 'mrev', 'vwise', 'mfun', 'mapset', 'mapempty', 'refto'):
            if op == 'fn' and not a[0].startswith('euler'):
                r = self.fnval(a[0], [self.n(x, b) for x in a[1]])
                if r is not None:
                    return r
            return self.atom(t, (op, self.args(a, b)))
        if op == 'sqrt':
            v = self.n(a[0], b)
            if v < 0:
                raise Skip('sqrt')
            return math.sqrt(v)
        if op == 'trig':
            v = float(self.n(a[1], b))
            return math.sin(v) if a[0] == 'sin' else math.cos(v)
        if op == 'pinv':
            v = self.n(a[0], b)
            if v == 0 or isinstance(v, float) and abs(v) < 1e-12:
                raise Skip('div0')
            return 1 / v
        if op == 'pow':
            v, e = self.n(a[0], b), self.n(a[1], b)
            try:
                return v ** int(e) if e == int(e) else float(v) ** float(e)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Skip('pow')
        if op == 'idiv':
            x, y = self.n(a[0], b), self.n(a[1], b)
            if y == 0:
                raise Skip('div0')
            q = abs(x) // abs(y)
            return Fraction(q if (x < 0) == (y < 0) else -q)
        if op == 'imod':
            x, y = self.n(a[0], b), self.n(a[1], b)
            if y == 0:
                raise Skip('div0')
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return x - y * q
        if op == 'trunc':
            return Fraction(int(self.n(a[0], b)))
        if op == 'abs':
            return abs(self.n(a[0], b))
        if op == 'ceilcount':
            x, y = self.n(a[0], b), self.n(a[1], b)
            if y == 0:
                raise Skip('div0')
            return Fraction(max(0, math.ceil(x / y)))
        if op == 'opaque':
            raise Skip('opaque')
        # ---------------- binders
        if op == 'msum':
            s = Fraction(0)
            ns = [self.int(x, b) for x in a[1]]

            def go(i, bb):
                if i == len(ns):
                    return self.n(a[2], bb)
                tot = Fraction(0)
                for k in range(max(0, ns[i])):
                    tot = tot + go(i + 1, self.bindb(bb, {a[0][i]: Fraction(k)}))
                return tot
            return go(0, b)
        if op in ('exists', 'existsx', 'first'):
            if op == 'existsx':
                v, body, n = a[0], a[1], None
            else:
                v, n, body = a
            lim = self.int(n, b) if n is not None and n is not NONE else None
            k = 0
            while lim is None or k < lim:
                if self.bool(body, self.bindb(b, {v: Fraction(k)})):
                    return True if op != 'first' else Fraction(k)
                k += 1
                if k > 60:
                    raise Skip('unbounded search')
            if op == 'first':
                return Fraction(max(lim, 0))
            return False
        if op == 'foldx':
            kv, n, vs, ins, nx, ex = a
            cur = [self.ev(x, b) for x in ins]
            lim = self.int(n, b)
            for k in range(max(0, lim)):
                d = dict(zip(vs, cur))
                if kv is not NONE:
                    d[kv] = Fraction(k)
                bb = self.bindb(b, d)
                cur = [self.ev(x, bb) for x in nx]
            return cur[0]
        if op == 'mloop':
            kv, pv, n, init, body = a
            cur = self.mat(init, b)
            for k in range(max(0, self.int(n, b))):
                cur = self.mat(body, self.bindb(b, {kv: Fraction(k), pv: cur}))
            return cur
        if op == 'vloop':
            kv, pv, n, init, body = a
            cur = self.seq(init, b)
            for k in range(max(0, self.int(n, b))):
                cur = self.seq(body, self.bindb(b, {kv: Fraction(k), pv: cur}))
            return cur
        if op == 'vmap':
            init, v, n, body = a
            xs = list(self.seq(init, b).xs)
            for k in range(max(0, self.int(n, b))):
                xs.append(self.ev(body, self.bindb(b, {v: Fraction(k)})))
            return V(xs)
        # ---------------- sequences
        if op == 'vempty':
            return V([])
        if op == 'vlist':
            return V([self.ev(x, b) for x in a[0]])
        if op == 'vpush':
            return V(self.seq(a[0], b).xs + [self.ev(a[1], b)])
        if op == 'vpushf':
            return V([self.ev(a[1], b)] + self.seq(a[0], b).xs)
        if op == 'vpop':
            xs = self.seq(a[0], b).xs
            if not xs:
                raise Outside('pop of empty')
            return V(xs[:-1])
        if op == 'vsto':
            xs = list(self.seq(a[0], b).xs)
            i = self.int(a[1], b)
            if not 0 <= i < len(xs):
                raise Outside('sequence index')
            xs[i] = self.ev(a[2], b)
            return V(xs)
        if op == 'vresize':
            xs = list(self.seq(a[0], b).xs)
            n = self.int(a[1], b)
            if n < 0 or n > 60:
                raise Skip('size')
            d = self.ev(a[2], b) if n > len(xs) else None
            return V(xs[:n] + [d] * (n - len(xs)))
        # ---------------- matrices
        if op == 'elem':
            x = self.mat(a[0], b)
            return x.at(self.int(a[1], b), self.int(a[2], b))
        if op == 'mlin':
            acc = None
            for x, c in a[0]:
                m, k = self.mat(x, b), self.n(c, b)
                if acc is None:
                    acc = M(m.r, m.c, [k * y for y in m.d])
                else:
                    if (acc.r, acc.c) != (m.r, m.c):
                        raise Outside('dims')
                    acc = M(m.r, m.c, [z + k * y for z, y in zip(acc.d, m.d)])
            return acc
        if op == 'mmul':
            acc = self.mat(a[0][0], b)
            for x in a[0][1:]:
                acc = matmul(acc, self.mat(x, b))
            return acc
        if op == 'mT':
            m = self.mat(a[0], b)
            return M(m.c, m.r, [m.d[i * m.c + j] for j in range(m.c) for i in range(m.r)])
        if op == 'mblk':
            m = self.mat(a[0], b)
            r0, c0, nr, nc = [self.int(x, b) for x in a[1:]]
            if nr < 0 or nc < 0 or r0 < 0 or c0 < 0 or r0 + nr > m.r or c0 + nc > m.c:
                raise Outside('block')
            return M(nr, nc, [m.d[(r0 + i) * m.c + c0 + j] for i in range(nr) for j in range(nc)])
        if op == 'mstore':
            m = self.mat(a[0], b)
            r0, c0, nr, nc = [self.int(x, b) for x in a[1:5]]
            v = self.mat(a[5], b)
            if nr < 0 or nc < 0 or r0 < 0 or c0 < 0 or r0 + nr > m.r or c0 + nc > m.c:
                raise Outside('block')
            if (v.r, v.c) != (nr, nc):
                if (v.c, v.r) == (nr, nc) and (nr == 1 or nc == 1):
                    pass
                else:
                    raise Outside('dims')
            d = list(m.d)
            for i in range(nr):
                for j in range(nc):
                    d[(r0 + i) * m.c + c0 + j] = v.d[i * nc + j]
            return M(m.r, m.c, d)
        if op in ('mzero', 'mid', 'mconst', 'mundef'):
            if op == 'mconst':
                k = self.n(a[0], b)
                r, c = self.int(a[1], b), self.int(a[2], b)
            else:
                r, c = self.int(a[0], b), self.int(a[1], b)
            if r < 0 or c < 0 or r * c > 900:
                raise Outside('dims')
            if op == 'mconst':
                return M(r, c, [k] * (r * c))
            if op == 'mzero':
                return M(r, c, [Fraction(0)] * (r * c))
            if op == 'mundef':
                return M(r, c, [Fraction(self.rng.randint(10 ** 6, 10 ** 7), 13) for _ in range(r * c)])
            return M(r, c, [Fraction(int(i == j)) for i in range(r) for j in range(c)])
        if op == 'emat':
            return M(a[0], a[1], [self.n(x, b) for x in a[2]])
        if op == 'mdiag':
            m = self.mat(a[0], b)
            k = m.r * m.c
            return M(k, k, [m.d[i] if i == j else Fraction(0) for i in range(k) for j in range(k)])
        if op == 'mdiagof':
            m = self.mat(a[0], b)
            k = min(m.r, m.c)
            return M(k, 1, [m.at(i, i) for i in range(k)])
        if op in ('mtri', 'msym', 'mtrist'):
            m = self.mat(a[0], b)
            x = self.mat(a[2], b) if op == 'mtrist' else None
            if x is not None and (x.r, x.c) != (m.r, m.c):
                raise Outside('dims')
            md = a[1]
            d = []
            for i in range(m.r):
                for j in range(m.c):
                    strict = md & 8
                    ins = (j < i or (j == i and not strict)) if md & 1 else (i < j or (j == i and not strict)) if md & 2 else True
                    if op == 'mtri':
                        d.append(Fraction(1) if md & 4 and i == j else m.at(i, j) if ins else Fraction(0))
                    elif op == 'msym':
                        d.append(m.at(i, j) if ins else m.at(j, i))
                    else:
                        d.append(x.at(i, j) if ins else m.at(i, j))
            return M(m.r, m.c, d)
        if op == 'msetdiag':
            m, v = self.mat(a[0], b), self.mat(a[1], b)
            d = list(m.d)
            if v.r * v.c != min(m.r, m.c):
                raise Outside('dims')
            for i in range(min(m.r, m.c)):
                d[i * m.c + i] = v.d[i]
            return M(m.r, m.c, d)
        if op == 'mresize':
            m = self.mat(a[0], b)
            r, c = self.int(a[1], b), self.int(a[2], b)
            if r < 0 or c < 0 or r * c > 900:
                raise Outside('dims')
            return M(r, c, [m.at(i, j) if i < m.r and j < m.c else Fraction(self.rng.randint(10 ** 6, 10 ** 7), 13) for i in range(r) for j in range(c)])
        if op == 'mfix':
            return self.mat(a[0], b)
        if op == 'mcwise':
            xs = [self.mat(x, b) for x in a[1]]
            if any((x.r, x.c) != (xs[0].r, xs[0].c) for x in xs):
                raise Outside('dims')
            out = []
            for vals in zip(*[x.d for x in xs]):
                if a[0] == 'mul':
                    p = Fraction(1)
                    for v in vals:
                        p = p * v
                    out.append(p)
                elif a[0] == 'div':
                    if vals[1] == 0:
                        raise Skip('div0')
                    out.append(vals[0] / vals[1])
                elif a[0] in ('min', 'max'):
                    out.append((min if a[0] == 'min' else max)(*vals))
                else:
                    r = self.fnval(a[0], list(vals))
                    out.append(r if r is not None else self.gen(('fn', a[0], tuple(vkey(v) for v in vals)), 'r', None))
            return M(xs[0].r, xs[0].c, out)
        if op == 'mrep':
            m = self.mat(a[0], b)
            p, q = self.int(a[1], b), self.int(a[2], b)
            if p < 0 or q < 0:
                raise Outside('dims')
            return M(m.r * p, m.c * q, [m.at(i % m.r, j % m.c) for i in range(m.r * p) for j in range(m.c * q)])
        if op == 'minv':
            return matinv(self.mat(a[0], b))
        if op == 'msolve':
            k, v = matinv(self.mat(a[0], b)), self.mat(a[1], b)
            if k.c != v.r:
                raise Outside('dims')
            return M(k.r, v.c, [sum((k.at(i, l) * v.at(l, j) for l in range(k.c)), Fraction(0)) for i in range(k.r) for j in range(v.c)])
        if op == 'mlam':
            (vi, vj) = a[0]
            r, c = self.int(a[1], b), self.int(a[2], b)
            return M(r, c, [self.n(a[3], self.bindb(b, {vi: Fraction(i), vj: Fraction(j)})) for i in range(r) for j in range(c)])
        return self.atom(t, (op, self.args(a, b)))

    def path(self, p, b):
        return tuple(tuple(vkey(self.ev(x, b)) if isinstance(x, T) else x for x in acc) for acc in p)

    def args(self, a, b):
        out = []
        for x in a:
            if isinstance(x, T):
                out.append(vkey(self.force(self.ev(x, b), x)))
            elif isinstance(x, tuple):
                out.append(self.args(x, b))
            else:
                out.append(str(x) if not isinstance(x, (int, Fraction)) else x)
        return tuple(out)

    def force(self, v, t):
        if isinstance(v, LazyEl):
            ty = TYPE.get(t, 'o')
            if ty == 'o':
                return A(v.k)
            return self.gen(v.k, ty, t)
        return v

    def fnval(self, name, xs):
        try:
            if name == 'floor':
                return Fraction(math.floor(xs[0]))
            if name == 'ceil':
                return Fraction(math.ceil(xs[0]))
            if name == 'round':
                v = xs[0]
                return Fraction(math.floor(abs(v) + Fraction(1, 2))) * (1 if v >= 0 else -1)
            f = {'exp': math.exp, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh, 'acos': math.acos, 'asin': math.asin,
                 'log': math.log, 'atan2': math.atan2, 'fmod': math.fmod, 'pow': math.pow}.get(name)
            if f:
                return f(*[float(x) for x in xs])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip(name)
        return None

    def same(self, x, y):
        if isinstance(x, LazyEl) or isinstance(y, LazyEl):
            return vkey(x) == vkey(y)
        if isinstance(x, bool) or isinstance(y, bool):
            if isinstance(x, (bool, int, Fraction)) and isinstance(y, (bool, int, Fraction)):
                return bool(x) == bool(y)
            return False
        if isinstance(x, (Fraction, float, int)) and isinstance(y, (Fraction, float, int)):
            if isinstance(x, float) or isinstance(y, float):
                return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))
            return x == y
        if isinstance(x, M) and isinstance(y, M):
            return (x.r, x.c) == (y.r, y.c) and all(self.same(p, q) for p, q in zip(x.d, y.d))
        if isinstance(x, V) and isinstance(y, V):
            return len(x.xs) == len(y.xs) and all(self.same(p, q) for p, q in zip(x.xs, y.xs))
        if isinstance(x, A) and isinstance(y, A):
            if x.base != y.base:
                return False
            for k in set(x.ov) | set(y.ov):
                p = x.ov.get(k, self)
                q = y.ov.get(k, self)
                if p is self or q is self:
                    g = self.val.get((('fld', x.base, str(k)), 'n'))
                    o = q if p is self else p
                    if isinstance(o, A) and o.base == ('fld', x.base, str(k)) and not o.ov:
                        continue
                    found = False
                    for cls in ('n', 'b', 'm', 'v', 'p', 'o'):
                        g = self.val.get((('fld', x.base, str(k)), cls))
                        if g is not None and self.same(g, o):
                            found = True
                    if not found:
                        return False
                elif not self.same(p, q):
                    return False
            return True
        return vkey(x) == vkey(y)


def matmul(x, y):
    if x.c != y.r:
        raise Outside('dims')
    return M(x.r, y.c, [sum((x.d[i * x.c + k] * y.d[k * y.c + j] for k in range(x.c)), Fraction(0)) for i in range(x.r) for j in range(y.c)])


def matinv(m):
    if m.r != m.c:
        raise Skip('inverse')
    n = m.r
    a = [[m.d[i * n + j] for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if a[p][i] == 0 or (isinstance(a[p][i], float) and abs(a[p][i]) < 1e-12):
            raise Skip('singular')
        a[i], a[p] = a[p], a[i]
        d = a[i][i]
        a[i] = [x / d for x in a[i]]
        for r in range(n):
            if r != i and a[r][i] != 0:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return M(n, n, [a[i][n + j] for i in range(n) for j in range(n)])


def refute(a, b, facts=(), enums=None, samples=40, tries=3000, seed=1, bools=None, limit=15, accesses=False):
    """look for an interpretation satisfying facts in which a and b differ.
    returns (witness dict or None, number of accepted samples)"""
    acc = 0
    outside, why = 0, None
    t1 = time.time() + limit
    for s in range(tries):
        if time.time() > t1:
            break
        env = Env(seed * 1000003 + s, enums, maxint=2 + (s % 5))
        try:
            bad = None
            for it in range(25):
                bad = None
                for f in facts:
                    if not env.bool(f, ({}, env.memo)):
                        bad = f
                        break
                if bad is None or not env.repair(bad):
                    break
            if bad is not None:
                continue
            try:
                x = env.force(env.ev(a), a)
            except Outside as e:
                env.force(env.ev(b), b)
                outside, why = outside + 1, str(e)
                continue
            y = env.force(env.ev(b), b)
        except Skip:
            continue
        except (RecursionError, OverflowError, ZeroDivisionError):
            continue
        acc += 1
        if not env.same(x, y):
            return {'seed': s, 'lhs': render(x), 'rhs': render(y), 'values': {show_key(k[0]): render(v) for k, v in list(env.val.items())[:60]}}, acc
        if acc >= samples:
            break
    if accesses and not acc and outside >= 20:
        # in every interpretation
        return {'seed': -1, 'lhs': 'an access outside of a matrix or sequence (%s)' % why, 'rhs': 'a value', 'values': {}}, 0
    return None, acc


def show_key(k):
    s = str(k)
    return s if len(s) < 160 else s[:157] + '...'


def render(v):
    if isinstance(v, M):
        return [[render(v.d[i * v.c + j]) for j in range(v.c)] for i in range(v.r)]
    if isinstance(v, V):
        return [render(x) for x in v.xs]
    if isinstance(v, A):
        return {'object': show_key(v.base), **{str(k).split('::')[-1]: render(x) for k, x in list(v.ov.items())[:20]}}
    if isinstance(v, LazyEl):
        return 'element ' + show_key(v.k)
    if isinstance(v, Fraction):
        return str(v)
    return str(v)
