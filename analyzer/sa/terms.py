"""Hash-consed term domain used by the value-numbering analysis.

Scalars are kept as Laurent polynomials over atoms, booleans as and/or trees
over normalised comparisons, matrices as (mostly) free terms whose meaning is
given element-wise by `elem`.  Loops are summarised by binders (sum / fold /
mloop).  Nothing here depends on the analysed program.
"""
import sys
import time
from fractions import Fraction
sys.setrecursionlimit(20000)

_tab = {}
TYPE = {}          # atom -> 'i' 'u' 'r' 'b' 'm' 'o' 'e' 'p' ...
DIMS = {}          # matrix atom -> (rows, cols) terms
ENUM = {}          # atom -> enum qualified name


class T(object):
    __slots__ = ('op', 'args', 'id', '_h', 'bvh', 'syms', 'opq')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class TimeUp(Exception):
    pass


CLOCK = [0, None]


def tick():
    CLOCK[0] += 1
    if CLOCK[0] % 512 == 0 and CLOCK[1] is not None and time.time() > CLOCK[1]:
        raise TimeUp()


def until(sec):
    """limit the time of what follows; returns the previous limit"""
    old = CLOCK[1]
    new = time.time() + sec
    CLOCK[1] = new if old is None else min(old, new)
    return old


def restore(old):
    CLOCK[1] = old


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        tick()
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab) + 1
        bvh = 0
        syms = frozenset()
        opq = op == 'opaque'
        for a in _flat(args):
            if a.bvh > bvh:
                bvh = a.bvh
            if a.syms:
                syms = syms | a.syms if syms else a.syms
            opq = opq or a.opq
        if op in ('bv', 'bvo'):
            bvh = max(bvh, args[0])
        if op in ('fresh',):
            syms = syms | frozenset((t,))
        if op in ('sum', 'exists', 'first', 'foldx', 'mloop', 'vmap', 'lam', 'prodk'):
            pass
        t.bvh = bvh
        t.syms = syms
        t.opq = opq
        _tab[k] = t
    return t


def _flat(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in _flat(a):
                yield b


TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')


def num(x):
    if isinstance(x, float):
        x = Fraction(x)
    return mk('num', Fraction(x))


ZERO = num(0)
ONE = num(1)
_fresh = [0]


def sym(name, ty='r', dims=None, enum=None):
    t = mk('sym', name)
    TYPE.setdefault(t, ty)
    if dims is not None:
        DIMS[t] = tuple(num(d) if isinstance(d, int) else d for d in dims)
    if enum:
        ENUM[t] = enum
    return t


def fresh(name='k', ty='i'):
    _fresh[0] += 1
    t = mk('fresh', name, _fresh[0])
    TYPE[t] = ty
    return t


def settype(t, ty, dims=None, enum=None):
    if t.op in ('num', 'poly', 'true', 'false'):
        return t
    if t not in TYPE or TYPE[t] == 'o':
        TYPE[t] = ty
    if dims is not None and t not in DIMS:
        DIMS[t] = dims
    if enum and t not in ENUM:
        ENUM[t] = enum
    return t


# --------------------------------------------------------------------------
# polynomials
def pd(t):
    """term -> {monomial: coef}"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def pt(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))))


def is_num(t):
    return t.op == 'num'


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
    return pt(d)


def scale(t, c):
    return pt({m: k * c for m, k in pd(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m, n):
    d = {}
    for a, e in m:
        d[a] = d.get(a, 0) + e
    for a, e in n:
        d[a] = d.get(a, 0) + e
    # sqrt(x)^2 = x is handled by simp_mono
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def simp_mono(m, c):
    """rewrite special powers; returns a polynomial dict"""
    out = None
    for i, (a, e) in enumerate(m):
        if a.op == 'sqrt' and abs(e) >= 2:
            rest = m[:i] + m[i + 1:]
            k = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * k
            base = powi(a.args[0], k)
            if r:
                rest = mono_mul(rest, ((a, r),))
            t = mul(pt({rest: c}), base)
            return pd(t)
        if a.op == 'trig' and a.args[0] == 'sin' and e >= 2:
            # sin^2 = 1 - cos^2
            rest = mono_mul(m[:i] + m[i + 1:], ((a, e - 2),) if e > 2 else ())
            cs = mk('trig', 'cos', a.args[1])
            t = mul(pt({rest: c}), sub(ONE, pt({((cs, 2),): Fraction(1)})))
            return pd(t)
    return {m: c}


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        d = pd(t)
        n = {}
        for m, c in acc.items():
            for m2, c2 in d.items():
                mm = mono_mul(m, m2)
                special = any((a.op == 'sqrt' and abs(e) >= 2) or (a.op == 'trig' and e >= 2 and a.args[0] == 'sin') for a, e in mm)
                if special:
                    for m3, c3 in simp_mono(mm, c * c2).items():
                        n[m3] = n.get(m3, 0) + c3
                else:
                    n[mm] = n.get(mm, 0) + c * c2
        acc = n
        if len(acc) > 4000:
            return mk('opaque', 'poly too large')
    return pt(acc)


def powi(t, k):
    if k == 0:
        return ONE
    if k < 0:
        return inv(powi(t, -k))
    r = ONE
    for _ in range(k):
        r = mul(r, t)
    return r


def inv(t):
    d = pd(t)
    if not d:
        return mk('opaque', 'div0')
    if len(d) == 1:
        (m, c), = d.items()
        # invert ite atoms inside
        return pt({tuple((a, -e) for a, e in m): 1 / c})
    # factor a common monomial and normalise the leading coefficient
    lead = sorted(d.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))[0]
    c0 = lead[1]
    common = None
    for m in d:
        mm = dict(m)
        if common is None:
            common = dict(mm)
        else:
            for a in list(common):
                if a not in mm:
                    del common[a]
                else:
                    common[a] = min(common[a], mm[a])
    cm = tuple(sorted(((a, -e) for a, e in common.items() if e), key=lambda x: x[0].id))
    base = mul(scale(t, 1 / c0), pt({cm: Fraction(1)})) if cm else scale(t, 1 / c0)
    if len(pd(base)) == 1:
        bi = inv(base)
    else:
        bi = pt({((mk('pinv', base), 1),): Fraction(1)})
    return mul(num(1 / c0), pt({cm: Fraction(1)}) if cm else ONE, bi)


def div(a, b):
    if a is b:
        return ONE
    return mul(a, inv(b))


def rat_zero(t):
    """t with pinv atoms: multiply them out; True iff identically zero"""
    for _ in range(12):
        d = pd(t)
        if not d:
            return True
        p = None
        for m in d:
            for a, e in m:
                if a.op == 'pinv':
                    p = a
                    break
            if p:
                break
        if p is None:
            return False
        # multiply by max power
        k = max([dict(m).get(p, 0) for m in d])
        n = ZERO
        for m, c in d.items():
            dm = dict(m)
            e = dm.pop(p, 0)
            rest = pt({tuple(sorted(dm.items(), key=lambda x: x[0].id)): c})
            n = add(n, mul(rest, powi(p.args[0], k - e)) if e >= 0 else rest)
        t = n
    return False


def is_int(t):
    for m, c in pd(t).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not atom_int(a):
                return False
    return True


def atom_int(a):
    if a.op == 'ite':
        return is_int(a.args[1]) and is_int(a.args[2])
    if a.op in ('bv', 'size', 'rows', 'cols', 'idiv', 'imod', 'trunc', 'first', 'count'):
        return True
    if a.op == 'sum':
        return is_int(a.args[2])
    if a.op == 'elem':
        ty = TYPE.get(a) or TYPE.get(('el', a.args[0]))
        return ty in ('i', 'u')
    return TYPE.get(a) in ('i', 'u', 'e')


def atom_nonneg(a):
    if a.op in ('size', 'rows', 'cols', 'bv', 'sqrt', 'first', 'abs', 'imod', 'count'):
        return True
    if a.op == 'fresh':
        return TYPE.get(a) in ('i', 'u')
    return TYPE.get(a) == 'u'


def itevars(t):
    for m in pd(t):
        for a, e in m:
            if a.op == 'ite':
                return a
    return None


# --------------------------------------------------------------------------
# booleans
def neg_b(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le0':
        p = neg(c.args[0])
        if is_int(p):
            return cle0(add(p, ONE))
        return clt0(p)
    if c.op == 'lt0':
        return cle0(neg(c.args[0]))
    if c.op == 'and':
        return bor(*[neg_b(x) for x in c.args[0]])
    if c.op == 'or':
        return band(*[neg_b(x) for x in c.args[0]])
    if c.op == 'ite':
        return ite(c.args[0], neg_b(c.args[1]), neg_b(c.args[2]))
    return mk('not', c)


def _norm_scale(p, sign=False):
    d = pd(p)
    items = sorted(d.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))
    lead = None
    for m, c in items:
        if m:
            lead = c
            break
    if lead is None:
        return p
    k = abs(lead)
    if sign:
        k = lead
    return scale(p, 1 / k)


_LEAVES = {}


def leaves(t):
    if t.op == 'poly':
        n = 1
        for m, c in t.args[0]:
            for a, e in m:
                if a.op == 'ite':
                    n *= leaves(a)
                    if n > 10000:
                        return n
        return n
    if t.op != 'ite':
        return 1
    r = _LEAVES.get(t)
    if r is None:
        r = min(100000, leaves(t.args[1]) + leaves(t.args[2]))
        _LEAVES[t] = r
    return r


_LIFT = {}


def lift1(p, f):
    a = itevars(p)
    if a is None:
        return None
    key = (p, f)
    r = _LIFT.get(key)
    if r is not None:
        return r
    if leaves(p) > 48:
        return None
    r = _lift1(p, a, f)
    _LIFT[key] = r
    return r


def _lift1(p, a, f):
    c, x, y = a.args
    return ite(c, f(replace_atom(p, a, x)), f(replace_atom(p, a, y)))


def replace_atom(p, a, x):
    r = ZERO
    for m, c in pd(p).items():
        dm = dict(m)
        e = dm.pop(a, 0)
        rest = pt({tuple(sorted(dm.items(), key=lambda z: z[0].id)): c})
        r = add(r, mul(rest, powi(x, e)) if e else rest)
    return r


def cle0(p):
    if is_num(p):
        return TRUE if p.args[0] <= 0 else FALSE
    l = lift1(p, cle0)
    if l is not None:
        return l
    d = pd(p)
    # trivially signed: sums of non-negative atoms with same sign
    if all(c <= 0 for c in d.values()) and all(all(atom_nonneg(a) for a, e in m) for m in d):
        return TRUE
    if all(c >= 0 for c in d.values()) and d.get((), 0) > 0 and all(all(atom_nonneg(a) for a, e in m) for m in d):
        return FALSE
    if is_int(p):
        # divide by gcd of the non-constant coefficients, round the constant
        from math import gcd
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, int(c))
        if g > 1:
            k = d.get((), Fraction(0))
            dd = {m: c / g for m, c in d.items() if m}
            import math
            dd[()] = Fraction(math.ceil(k / g))
            p = pt(dd)
        return mk('le0', p)
    return mk('le0', _norm_scale(p))


def clt0(p):
    if is_num(p):
        return TRUE if p.args[0] < 0 else FALSE
    l = lift1(p, clt0)
    if l is not None:
        return l
    if is_int(p):
        return cle0(add(p, ONE))
    d = pd(p)
    if all(c >= 0 for c in d.values()) and all(all(atom_nonneg(a) for a, e in m) for m in d):
        return FALSE
    return mk('lt0', _norm_scale(p))


def ceq0(p):
    if is_num(p):
        return TRUE if p.args[0] == 0 else FALSE
    l = lift1(p, ceq0)
    if l is not None:
        return l
    d = pd(p)
    if d.get((), 0) != 0 and (all(c >= 0 for c in d.values()) or all(c <= 0 for c in d.values())) and all(all(atom_nonneg(a) for a, e in m) for m in d):
        return FALSE
    return mk('eq0', _norm_scale(p, True))


def lt(a, b):
    return clt0(sub(a, b))


def le(a, b):
    return cle0(sub(a, b))


NUMOPS = ('num', 'poly')


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' and not numericish(a):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and not numericish(b):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if numericish(a) and numericish(b):
        return ceq0(sub(a, b))
    if a.op in ('str', 'none') and b.op in ('str', 'none'):
        return FALSE
    if a.op in ('addr', 'mdata') and b.op == 'none' or b.op in ('addr', 'mdata') and a.op == 'none':
        return FALSE
    if isbool(a) and isbool(b):
        return ite(a, b, neg_b(b))
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk('eq', x, y)


def isbool(t):
    return t.op in ('true', 'false', 'not', 'and', 'or', 'le0', 'lt0', 'eq0', 'eq', 'exists') or TYPE.get(t) == 'b' or (t.op == 'ite' and isbool(t.args[1]))


def numericish(t):
    if t.op in NUMOPS:
        return True
    if t.op == 'ite':
        return numericish(t.args[1]) and numericish(t.args[2])
    ty = TYPE.get(t)
    if ty in ('i', 'u', 'r', 'e'):
        return True
    return t.op in ('bv', 'size', 'rows', 'cols', 'elem', 'sum', 'idiv', 'imod', 'trunc', 'trig', 'sqrt', 'pinv', 'first', 'abs', 'fn', 'inf', 'fresh', 'pow')


def _bset(op, neutral, absorb, cs):
    s = []
    seen = set()
    for c in cs:
        if c is absorb:
            return absorb
        if c is neutral:
            continue
        for x in (c.args[0] if c.op == op else (c,)):
            if x not in seen:
                seen.add(x)
                s.append(x)
    return s


def band(*cs):
    s = _bset('and', TRUE, FALSE, cs)
    if isinstance(s, T):
        return s
    S = set(s)
    for x in list(s):
        n = neg_b(x)
        if n in S or n is FALSE:
            return FALSE
        if n.op == 'or' and False:
            return FALSE
    # tighten integer comparisons
    s2 = []
    for x in s:
        if x.op == 'le0' and x in S:
            p = x.args[0]
            o = mk('le0', neg(p)) if not is_num(p) else None
            if o is not None and o in S:
                S.discard(x)
                S.discard(o)
                e = ceq0(p)
                if e is FALSE:
                    return FALSE
                if e is not TRUE:
                    S.add(e)
                    s2.append(e)
                continue
        if x in S:
            s2.append(x)
    # same linear part, different constants: keep the tighter
    best = {}
    for x in s2:
        if x.op == 'le0':
            d = pd(x.args[0])
            k = d.pop((), Fraction(0))
            key = pt(d)
            if key in best:
                if k > best[key][0]:
                    best[key] = (k, x)
            else:
                best[key] = (k, x)
    out = []
    for x in s2:
        if x.op == 'le0':
            d = pd(x.args[0])
            d.pop((), None)
            if best[pt(d)][1] is not x:
                continue
        if x not in out:
            out.append(x)
    for key, (k, x) in best.items():
        nk = neg(key)
        if nk in best:
            k2 = best[nk][0]
            # key + k <= 0, -key + k2 <= 0  ->  k2 <= key <= -k
            if k2 > -k:
                return FALSE
            if k2 == -k:
                e = ceq0(add(key, num(k)))
                y = best[nk][1]
                out = [z for z in out if z is not x and z is not y]
                if e is FALSE:
                    return FALSE
                if e is not TRUE and e not in out:
                    out.append(e)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # absorption: a & (a|b) = a
    os = set(out)
    out2 = []
    for x in out:
        if x.op == 'or' and any(y in os for y in x.args[0]):
            continue
        if x.op == 'or':
            rem = [y for y in x.args[0] if neg_b(y) not in os]
            if len(rem) < len(x.args[0]):
                r = bor(*rem)
                return band(r, *[z for z in out if z is not x])
        out2.append(x)
    out = out2
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)))


def bor(*cs):
    s = _bset('or', FALSE, TRUE, cs)
    if isinstance(s, T):
        return s
    S = set(s)
    for x in s:
        if neg_b(x) in S:
            return TRUE
    # merge of complementary le0: p<=0 or p>=1 handled above by neg_b
    out = []
    for x in s:
        if x.op == 'and' and any(y in S for y in x.args[0]):
            continue
        out.append(x)
    S = set(out)
    for x in out:
        if x.op == 'and':
            rem = [y for y in x.args[0] if neg_b(y) not in S]
            if len(rem) < len(x.args[0]):
                r = band(*rem)
                return bor(r, *[z for z in out if z is not x])
    # factor: (a&b)|(a&!b) = a
    ands = [x for x in out if x.op == 'and']
    for i in range(len(ands)):
        for j in range(i + 1, len(ands)):
            A, B = set(ands[i].args[0]), set(ands[j].args[0])
            da, db = A - B, B - A
            if len(da) == 1 and len(db) == 1 and neg_b(list(da)[0]) is list(db)[0]:
                return bor(band(*(A & B)), *[z for z in out if z is not ands[i] and z is not ands[j]])
    # le0(p+c) weaker absorbs stronger
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(sorted(out, key=lambda t: t.id)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if isbool(a) and isbool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return neg_b(c)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(neg_b(c), b)
        if b is FALSE:
            return band(c, a)
        if b is TRUE:
            return bor(neg_b(c), a)
    if c.op == 'ite':
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if c.op == 'lt0' or (c.op == 'le0' and False):
        pass
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # records: push inside (keeps field projections cheap)
    if a.op == 'upd' or b.op == 'upd':
        r = _ite_rec(c, a, b)
        if r is not None:
            return r
    if a.op == 'it' and b.op == 'it' and a.args[0] is b.args[0]:
        return mk('it', a.args[0], ite(c, a.args[1], b.args[1]))
    # canonical orientation of complementary conditions
    n = neg_b(c)
    if n.op not in ('not',) and n.id < c.id and n.op not in ('and', 'or'):
        c, a, b = n, b, a
    return mk('ite', c, a, b)


def _ite_rec(c, a, b):
    def parts(t):
        if t.op == 'upd':
            return t.args[0], dict(t.args[1])
        return t, {}
    ba, fa = parts(a)
    bb, fb = parts(b)
    if ba is not bb and not (ba.op == 'default' or bb.op == 'default' or True):
        return None
    base = ba if ba is bb else mk('ite', c, ba, bb)
    d = {}
    for k in set(fa) | set(fb):
        x = fa[k] if k in fa else fld(ba, k)
        y = fb[k] if k in fb else fld(bb, k)
        d[k] = ite(c, x, y)
    return rec(base, d)


# --------------------------------------------------------------------------
# records
def rec(base, d):
    if base.op == 'upd':
        dd = dict(base.args[1])
        dd.update(d)
        base = base.args[0]
        d = dd
    d = {k: v for k, v in d.items() if not (base.op in ('sym', 'fld', 'obj', 'sel') and v is mk('fld', base, k))}
    if not d:
        return base
    return mk('upd', base, tuple(sorted(d.items(), key=lambda x: str(x[0]))))


def fld(v, f):
    if v.op == 'upd':
        for k, x in v.args[1]:
            if k == f:
                return x
        return fld(v.args[0], f)
    if v.op == 'ite':
        return ite(v.args[0], fld(v.args[1], f), fld(v.args[2], f))
    if v.op == 'opaque':
        return v
    return mk('fld', v, f)


def upd(v, f, x):
    return rec(v, {f: x})


# --------------------------------------------------------------------------
# substitution
def subst(t, m, memo=None):
    """m: {term: term}; rebuilds with normalisation"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = set(m)
    needs_sym = all(k.op == 'fresh' for k in keys)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            memo[t] = m[t]
            return m[t]
        if needs_sym and not (t.syms & keys):
            memo[t] = t
            return t
        r = rebuild(t, go)
        if r is not t:
            copytype(t, r)
        memo[t] = r
        return r
    return go(t)


def copytype(t, r):
    if t in TYPE and r not in TYPE and r.op not in ('num', 'poly', 'ite', 'true', 'false'):
        TYPE[r] = TYPE[t]
        if t in ENUM:
            ENUM[r] = ENUM[t]
    k = ('el', t)
    if k in TYPE and ('el', r) not in TYPE:
        TYPE[('el', r)] = TYPE[k]
    if t in DIMS and r not in DIMS and r.op not in ('num', 'poly', 'true', 'false'):
        DIMS[r] = DIMS[t]


def map_args(args, go):
    out = []
    ch = False
    for a in args:
        if isinstance(a, T):
            b = go(a)
        elif isinstance(a, tuple):
            b = map_args(a, go)
        else:
            b = a
        if b is not a:
            ch = True
        out.append(b)
    return tuple(out) if ch else args


def rebuild(t, go):
    op = t.op
    a = t.args
    if op in ('sym', 'num', 'fresh', 'bv', 'bvo', 'str', 'true', 'false', 'none'):
        return t
    if op == 'poly':
        r = {}
        ch = False
        terms = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                y = go(x)
                if y is not x:
                    ch = True
                fs.append((y, e))
            terms.append((fs, c))
        if not ch:
            return t
        acc = ZERO
        for fs, c in terms:
            p = num(c)
            for y, e in fs:
                p = mul(p, powi(y, e))
            acc = add(acc, p)
        return acc
    na = map_args(a, go)
    if na is a:
        return t
    return build(op, na, t)


BUILDERS = {}


def build(op, na, old=None):
    f = BUILDERS.get(op)
    if f:
        return f(*na)
    r = mk(op, *na)
    if old is not None:
        copytype(old, r)
        if old in DIMS and r not in DIMS:
            DIMS[r] = DIMS[old]
    return r


def _pinv(b):
    return inv(b)


BUILDERS.update({
    'not': neg_b, 'and': lambda s: band(*s), 'or': lambda s: bor(*s), 'le0': cle0, 'lt0': clt0, 'eq0': ceq0,
    'eq': eq, 'ite': ite, 'pinv': _pinv, 'fld': fld, 'upd': lambda b, fs: rec(b, dict(fs)),
})


# --------------------------------------------------------------------------
# functions of scalars
def fn(name, *args):
    if name in ('sin', 'cos', 'tan'):
        x = args[0]
        if is_num(x) and x.args[0] == 0:
            return ONE if name == 'cos' else ZERO
        if name == 'tan':
            return div(fn('sin', x), fn('cos', x))
        d = pd(x)
        lead = sorted(d.items(), key=lambda z: tuple((a.id, e) for a, e in z[0]))[0][1]
        if lead < 0:
            r = fn(name, neg(x))
            return r if name == 'cos' else neg(r)
        return settype(mk('trig', name, x), 'r')
    if name == 'round' and is_num(args[0]):
        import math
        x = args[0].args[0]
        return num(math.floor(abs(x) + Fraction(1, 2)) * (-1 if x < 0 else 1))
    if name in ('floor', 'ceil', 'abs') and is_num(args[0]):
        import math
        x = args[0].args[0]
        return num(math.floor(x) if name == 'floor' else math.ceil(x) if name == 'ceil' else abs(x))
    if name == 'sqrt':
        x = args[0]
        if is_num(x):
            n, d = x.args[0].numerator, x.args[0].denominator
            if n >= 0:
                from math import isqrt
                if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                    return num(Fraction(isqrt(n), isqrt(d)))
        return settype(mk('sqrt', x), 'r')
    if name == 'pow' and is_num(args[1]) and args[1].args[0].denominator == 1:
        return powi(args[0], int(args[1].args[0]))
    if name == 'pow' and is_num(args[1]) and args[1].args[0] == Fraction(1, 2):
        return fn('sqrt', args[0])
    if name == 'min':
        return ite(lt(args[1], args[0]), args[1], args[0])
    if name == 'max':
        return ite(lt(args[0], args[1]), args[1], args[0])
    if name == 'abs':
        return ite(lt(args[0], ZERO), neg(args[0]), args[0])
    return settype(mk('fn', name, args), 'r')


BUILDERS['trig'] = lambda n, x: fn(n, x)
BUILDERS['sqrt'] = lambda x: fn('sqrt', x)
BUILDERS['fn'] = lambda n, a: fn(n, *a)


def idiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0 and a.args[0].denominator == 1:
        q = abs(a.args[0]) // abs(b.args[0])
        return num(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if is_num(b) and b.args[0] == 1:
        return a
    # exact division of every monomial
    r = div(a, b)
    if is_int(r):
        return r
    return mk('idiv', a, b)


def imod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return sub(a, mul(b, idiv(a, b)))
    r = div(a, b)
    if is_int(r):
        return ZERO
    return mk('imod', a, b)


def trunc(a):
    if is_int(a):
        return a
    if is_num(a):
        v = a.args[0]
        return num(int(v))
    if a.op == 'ite':
        return ite(a.args[0], trunc(a.args[1]), trunc(a.args[2]))
    return mk('trunc', a)


BUILDERS['idiv'] = idiv
BUILDERS['imod'] = imod
BUILDERS['trunc'] = trunc


# --------------------------------------------------------------------------
# binders
def bind(k, *bodies):
    """replace the fresh symbol k by the next bound variable; returns bodies"""
    h = 0
    for b in _flat(bodies):
        h = max(h, b.bvh)
    ty = TYPE.get(k, 'o')
    if ty in ('i', 'u'):
        v = mk('bv', h + 1)
        TYPE[v] = 'i'
    else:
        v = mk('bvo', h + 1, ty)
        TYPE[v] = ty
    memo = {}

    def go(x):
        if isinstance(x, T):
            return subst(x, {k: v}, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return v, [go(b) for b in bodies]


def inst(v, t, x):
    """instantiate bound variable v in t"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t is v:
            return x
        if t.bvh < v.args[0]:
            return t
        r = rebuild(t, go)
        if r is not t:
            copytype(t, r)
        memo[t] = r
        return r
    return go(t)


def depends(t, k):
    return k in t.syms


def sumk(k, n, body):
    """sum_{k=0}^{n-1} body, k a fresh symbol"""
    if not depends(body, k):
        return mul(n, body)
    if is_num(n) and n.args[0].denominator == 1 and 0 <= n.args[0] <= 12:
        return add(ZERO, *[subst(body, {k: num(i)}) for i in range(int(n.args[0]))])
    out = ZERO
    for m, c in pd(body).items():
        dep = [(a, e) for a, e in m if depends(a, k)]
        ind = tuple((a, e) for a, e in m if not depends(a, k))
        f = pt({ind: c})
        if not dep:
            out = add(out, mul(f, n))
            continue
        out = add(out, mul(f, _sum_mono(k, n, dep)))
    return out


def _sum_mono(k, n, dep):
    # powers of k alone: closed forms
    if len(dep) == 1 and dep[0][0] is k:
        e = dep[0][1]
        if e == 1:
            return div(mul(n, sub(n, ONE)), num(2))
        if e == 2:
            return div(mul(n, sub(n, ONE), sub(mul(num(2), n), ONE)), num(6))
    # ite factor
    for i, (a, e) in enumerate(dep):
        if a.op == 'ite' and e == 1 and depends(a.args[0], k):
            c, x, y = a.args
            rest = pt({tuple(d for j, d in enumerate(dep) if j != i): Fraction(1)})
            if y is ZERO or x is ZERO:
                cc = c if y is ZERO else neg_b(c)
                val = x if y is ZERO else y
                r = _sum_guard(k, n, cc, mul(rest, val))
                if r is not None:
                    return r
        elif a.op == 'ite' and e == 1:
            # condition independent of k: pull out
            c, x, y = a.args
            rest = pt({tuple(d for j, d in enumerate(dep) if j != i): Fraction(1)})
            return ite(c, sumk(k, n, mul(rest, x)), sumk(k, n, mul(rest, y)))
    # nested sums: prenex into a multi-binder
    for i, (a, e) in enumerate(dep):
        if a.op == 'msum' and e == 1:
            vs, ns, b = a.args
            if any(depends(x, k) for x in ns):
                continue
            ks = [fresh() for _ in vs]
            bb = b
            for v, kk in sorted(zip(vs, ks), key=lambda z: -z[0].args[0]):
                bb = inst(v, bb, kk)
            rest = pt({tuple(d for j, d in enumerate(dep) if j != i): Fraction(1)})
            return _msum([k] + ks, [n] + list(ns), mul(rest, bb))
    return _msum([k], [n], pt({tuple(dep): Fraction(1)}))


def _msum(ks, ns, body):
    import itertools
    best = None
    for perm in itertools.permutations(range(len(ks))):
        b = body
        vs = []
        for i in perm:
            v, (b,) = bind(ks[i], b)
            if v.args[0] <= len(vs):
                pass
            vs.append(v)
        t = mk('msum', tuple(vs), tuple(ns[i] for i in perm), b)
        TYPE.setdefault(t, 'i' if is_int(body) else 'r')
        if best is None or t.id < best.id:
            best = t
    return best


def _sum_guard(k, n, c, val):
    """sum over k of [c(k)] val(k)"""
    cs = list(c.args[0]) if c.op == 'and' else [c]
    ind = [x for x in cs if not depends(x, k)]
    dep = [x for x in cs if depends(x, k)]
    for x in dep:
        if x.op == 'eq0':
            e = solve_lin(x.args[0], k)
            if e is not None:
                rest = [y for y in cs if y is not x]
                cond = band(*[subst(y, {k: e}) for y in rest])
                cond = band(cond, le(ZERO, e), lt(e, n))
                return ite(cond, subst(val, {k: e}), ZERO)
    lo, hi = ZERO, n
    rest = []
    for x in dep:
        done = False
        if x.op == 'le0':
            d = lin_coef(x.args[0], k)
            if d is not None:
                a, b = d
                if a == 1 and hi is n:      # k + b <= 0 -> k < 1-b
                    hi = sub(ONE, b)
                    done = True
                elif a == -1 and lo is ZERO:   # b - k <= 0 -> k >= b
                    lo = b
                    done = True
        if not done:
            rest.append(x)
    if (lo is not ZERO or hi is not n) and not rest:
        # caller guarantees ranges lie inside [0, n) only when provable; keep min/max explicit
        if hi is not n:
            hi = ite(le(hi, n), hi, n)
        if lo is not ZERO:
            lo = ite(le(ZERO, lo), lo, ZERO)
        cnt = sub(hi, lo)
        cnt = ite(lt(cnt, ZERO), ZERO, cnt)
        k2 = fresh()
        body = subst(val, {k: add(k2, lo)})
        if cnt.op == 'ite' or itevars(cnt) is not None:
            a = itevars(cnt)
            cc, x, y = a.args
            return ite(band(*ind), ite(cc, sumk(k2, replace_atom(cnt, a, x), body), sumk(k2, replace_atom(cnt, a, y), body)), ZERO) if False else \
                ite(band(*ind), _sum_cnt(k2, cnt, body), ZERO)
        return ite(band(*ind), sumk(k2, cnt, body), ZERO)
    if ind:
        return ite(band(*ind), _sum_guard(k, n, band(*dep), val) or ZERO, ZERO)
    return None


def _sum_cnt(k, cnt, body):
    a = itevars(cnt)
    if a is None:
        return sumk(k, cnt, body)
    c, x, y = a.args
    # the lower bound inside body may contain the same ite: split consistently
    return ite(c, _sum_cnt(k, replace_atom(cnt, a, x), assume(body, c, True)), _sum_cnt(k, replace_atom(cnt, a, y), assume(body, c, False)))


def _msum_b(vs, ns, b):
    ks = [fresh() for _ in vs]
    for v, kk in sorted(zip(vs, ks), key=lambda z: -z[0].args[0]):
        b = inst(v, b, kk)
    r = b
    for kk, n in reversed(list(zip(ks, ns))):
        r = sumk(kk, n, r)
    return r


BUILDERS['msum'] = _msum_b


def lin_coef(p, k):
    """p = a*k + b with rational a, b free of k"""
    a = Fraction(0)
    rest = {}
    for m, c in pd(p).items():
        e = dict(m).get(k, 0)
        if e == 0:
            for x, _ in m:
                if depends(x, k):
                    return None
            rest[m] = c
        elif e == 1 and len(m) == 1:
            a += c
        else:
            return None
    return a, pt(rest)


def solve_lin(p, k):
    """solve p == 0 for k when the coefficient is +-1"""
    d = lin_coef(p, k)
    if d is None or d[0] == 0:
        return None
    a, b = d
    if abs(a) != 1:
        return None
    return scale(b, -1 / a)


def existsk(k, n, c):
    if c is FALSE:
        return FALSE
    if not depends(c, k):
        return band(lt(ZERO, n), c)
    if c.op == 'or':
        return bor(*[existsk(k, n, x) for x in c.args[0]])
    if is_num(n) and 0 <= n.args[0] <= 8:
        return bor(*[subst(c, {k: num(i)}) for i in range(int(n.args[0]))])
    if c.op == 'and':
        ind = [x for x in c.args[0] if not depends(x, k)]
        if ind:
            return band(*(ind + [existsk(k, n, band(*[x for x in c.args[0] if depends(x, k)]))]))
        for x in c.args[0]:
            if x.op == 'eq0':
                e = solve_lin(x.args[0], k)
                if e is not None:
                    return band(*([subst(y, {k: e}) for y in c.args[0] if y is not x] + [le(ZERO, e), lt(e, n)]))
    if c.op == 'eq0':
        e = solve_lin(c.args[0], k)
        if e is not None:
            return band(le(ZERO, e), lt(e, n))
    v, (b,) = bind(k, c)
    t = mk('exists', v, n, b)
    TYPE[t] = 'b'
    return t


def _exists_b(v, n, b):
    k = fresh()
    return existsk(k, n, inst(v, b, k))


BUILDERS['exists'] = _exists_b


def firstk(k, n, c):
    v, (b,) = bind(k, c)
    t = mk('first', v, n, b)
    TYPE[t] = 'i'
    return t


def foldx(k, n, phis, inits, nexts, exitc, which):
    """general recurrence: canonical by discovery order from `which`.
    phis: list of fresh symbols; value of phis[which] after the loop"""
    order = [which]
    seen = {which}
    pos = {p: i for i, p in enumerate(phis)}

    def visit(t, acc, memo):
        if t in memo:
            return
        memo.add(t)
        if t in pos:
            acc.append(pos[t])
            return
        if not (t.syms & set(phis)):
            return
        if t.op == 'poly':
            for m, c in t.args[0]:
                for a, e in m:
                    visit(a, acc, memo)
            return
        for a in _flat(t.args):
            visit(a, acc, memo)
    i = 0
    memo = set()
    if exitc is not None:
        acc = []
        visit(exitc, acc, memo)
        for p in acc:
            if p not in seen:
                seen.add(p)
                order.append(p)
    while i < len(order):
        acc = []
        visit(nexts[order[i]], acc, set())
        for p in acc:
            if p not in seen:
                seen.add(p)
                order.append(p)
        i += 1
    ins = tuple(inits[p] for p in order)
    nx = tuple(nexts[p] for p in order)
    bodies = [nx, exitc if exitc is not None else FALSE]
    # bind phis then k
    vs = []
    for p in reversed(order):
        v, bodies = bind(phis[p], *bodies)
        vs.append(v)
    vs.reverse()
    if k is not None:
        kv, bodies = bind(k, *bodies)
    else:
        kv = NONE
    t = mk('foldx', kv, n if n is not None else NONE, tuple(vs), ins, bodies[0], bodies[1])
    p0 = phis[which]
    TYPE[t] = TYPE.get(p0, 'o')
    if p0 in DIMS:
        d = DIMS[p0]
        if not any(x.syms for x in d):
            DIMS[t] = d
    if p0 in ENUM:
        ENUM[t] = ENUM[p0]
    return t


def _uses(bodies, v):
    for b in _flat(bodies):
        if contains(b, v):
            return True
    return False


def contains(t, x):
    seen = set()

    def go(t):
        if t is x:
            return True
        if t in seen:
            return False
        seen.add(t)
        if t.op == 'poly':
            return any(go(a) for m, c in t.args[0] for a, e in m)
        return any(go(a) for a in _flat(t.args))
    return go(t)


# --------------------------------------------------------------------------
# assumptions
def assume(t, c, val):
    """simplify t knowing condition c has truth value val"""
    m = {}
    if not val:
        c = neg_b(c)
    facts = list(c.args[0]) if c.op == 'and' else [c]
    # expand a nested structure
    for f in facts:
        m[f] = TRUE
        m[neg_b(f)] = FALSE
        if f.op == 'eq0':
            p = f.args[0]
            s = _solve_any(p)
            if s:
                m[s[0]] = s[1]
        if f.op == 'not' and f.args[0].op == 'eq':
            pass
        if f.op == 'eq':
            a, b = f.args
            if a.op in ('str', 'none'):
                m[b] = a
            elif b.op in ('str', 'none'):
                m[a] = b
    return subst_general(t, m)


def _solve_any(p):
    """pick an atom with +-1 coefficient occurring linearly and nowhere else"""
    d = pd(p)
    cands = []
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if not any(dict(m2).get(a, 0) for m2 in d if m2 is not m) and a.op not in ('bv',):
                rest = pt({m2: -c2 / c for m2, c2 in d.items() if m2 is not m})
                if not contains(rest, a):
                    cands.append((a, rest))
    if not cands:
        return None
    # prefer derived sizes, then enums
    def rank(x):
        a, rest = x
        return (0 if a.op in ('rows', 'cols', 'size') else 1 if is_num(rest) else 2 if a.op != 'fresh' else 3, a.id)
    cands.sort(key=rank)
    return cands[0]


def subst_general(t, m):
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            memo[t] = m[t]
            return m[t]
        r = rebuild(t, go)
        if r is not t:
            copytype(t, r)
            if r in m:
                r = m[r]
        memo[t] = r
        return r
    return go(t)


# --------------------------------------------------------------------------
def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth == 0:
        return '..'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'sym':
        return a[0]
    if op == 'fresh':
        return '%s#%d' % (a[0], a[1])
    if op == 'bv':
        return 'k%d' % a[0]
    if op == 'bvo':
        return 'K%d' % a[0]
    if op == 'str':
        return repr(a[0])
    if op == 'poly':
        s = []
        for m, c in a[0]:
            f = [show(x, d) + ('^%d' % e if e != 1 else '') for x, e in m]
            if c == -1 and f:
                s.append('-' + '*'.join(f))
            elif c != 1 or not f:
                s.append('*'.join([str(c)] + f))
            else:
                s.append('*'.join(f))
        return '(' + ' + '.join(s) + ')'
    if op == 'fld':
        return show(a[0], d) + '.' + str(a[1]).split('::')[-1]
    if op == 'le0':
        return '[' + show(a[0], d) + '<=0]'
    if op == 'lt0':
        return '[' + show(a[0], d) + '<0]'
    if op == 'eq0':
        return '[' + show(a[0], d) + '==0]'
    if op == 'ite':
        return '(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(x, d) for x in a[0]) + ')'
    if op == 'upd':
        return '{%s with %s}' % (show(a[0], d), ', '.join(str(k).split('::')[-1] + '=' + show(v, d) for k, v in a[1]))
    if op == 'elem':
        return '%s(%s,%s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    return op + '(' + ', '.join(show(x, d) for x in a) + ')'
