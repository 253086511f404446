"""Equality of terms: case split over the comparison literals that occur,
linear-inequality domain for feasibility, congruence at the leaves."""
import time
from .terms import *
from . import terms as tm
from .mat import *

BINDERS = ('msum', 'exists', 'first', 'foldx', 'mloop', 'vmap', 'vloop', 'mlam')


class Budget(Exception):
    pass


# ---------------------------------------------------------------- linear domain
def lin_of(p):
    d = {}
    for m, c in pd(p).items():
        d[m] = c
    return d


def feasible(cons, limit=300):
    """cons: list of (dict monomial->coef incl. (), strict, isint).  rational relaxation"""
    cons = [(dict(d), s) for d, s in cons]
    while True:
        vars_ = {}
        for d, s in cons:
            if all(m == () for m in d):
                c = d.get((), 0)
                if c > 0 or (s and c == 0):
                    return False
        cons = [(d, s) for d, s in cons if any(m != () for m in d)]
        if not cons:
            return True
        for d, s in cons:
            for m, c in d.items():
                if m != ():
                    v = vars_.setdefault(m, [0, 0])
                    v[0 if c > 0 else 1] += 1
        m = min(vars_, key=lambda v: vars_[v][0] * vars_[v][1] - vars_[v][0] - vars_[v][1])
        pos = [(d, s) for d, s in cons if d.get(m, 0) > 0]
        ng = [(d, s) for d, s in cons if d.get(m, 0) < 0]
        rest = [(d, s) for d, s in cons if d.get(m, 0) == 0]
        if len(pos) * len(ng) > limit:
            return True
        seen = set()
        out = []
        for d, s in rest:
            k = (frozenset(d.items()), s)
            if k not in seen:
                seen.add(k)
                out.append((d, s))
        for d, s in pos:
            for e, u in ng:
                a, b = d[m], -e[m]
                n = {}
                for x, c in d.items():
                    n[x] = n.get(x, 0) + c * b
                for x, c in e.items():
                    n[x] = n.get(x, 0) + c * a
                n = {x: c for x, c in n.items() if c != 0}
                # scale
                mx = None
                for x in n:
                    if x != ():
                        mx = abs(n[x])
                        break
                if mx:
                    n = {x: c / mx for x, c in n.items()}
                k = (frozenset(n.items()), s or u)
                if k not in seen:
                    seen.add(k)
                    out.append((n, s or u))
        cons = out
        if len(cons) > limit * 3:
            return True


def cons_of(f):
    """literal -> list of (dict, strict)"""
    if f.op == 'le0':
        return [(lin_of(f.args[0]), False)]
    if f.op == 'lt0':
        return [(lin_of(f.args[0]), True)]
    if f.op == 'eq0':
        p = f.args[0]
        return [(lin_of(p), False), (lin_of(neg(p)), False)]
    if f.op == 'and':
        r = []
        for x in f.args[0]:
            r += cons_of(x)
        return r
    return []


def nonneg_cons(cons):
    out = []
    seen = set()
    pos = set()
    for d, s in cons:
        # -k*a + c <= 0 with k > 0, c >= 0: a is not negative
        if len(d) <= 2:
            ms = [m for m in d if m]
            if len(ms) == 1 and d[ms[0]] < 0 and len(ms[0]) == 1 and ms[0][0][1] == 1 and d.get((), 0) >= 0:
                pos.add(ms[0][0][0])
    for d, s in cons:
        for m in d:
            if m and m not in seen:
                seen.add(m)
                if all((e % 2 == 0) or atom_nonneg(a) or a in pos for a, e in m):
                    out.append(({m: Fraction(-1)}, False))
    return out


class Facts(object):
    def __init__(self, lits=()):
        self.lits = []
        self.cons = []
        self.neqs = []
        self.clauses = []
        self.known = set()
        self.bot = False
        for l in lits:
            self._add(l)
        self.propagate()

    def _add(self, l):
        if l.op == 'and':
            for x in l.args[0]:
                self._add(x)
            return
        if l in self.known:
            return
        self.known.add(l)
        self.lits.append(l)
        if l is FALSE or neg_b(l) in self.known:
            self.bot = True
        if l.op == 'or':
            self.clauses.append(l)
        elif l.op == 'not' and l.args[0].op == 'and':
            self.clauses.append(bor(*[neg_b(x) for x in l.args[0].args[0]]))
        self.cons += cons_of(l)
        if l.op == 'not' and l.args[0].op == 'eq0':
            self.neqs.append(l.args[0].args[0])

    def plus(self, l):
        f = Facts()
        f.lits = list(self.lits)
        f.cons = list(self.cons)
        f.neqs = list(self.neqs)
        f.clauses = list(self.clauses)
        f.known = set(self.known)
        f.bot = self.bot
        f._add(l)
        if f.clauses:
            f.propagate()
        return f

    def propagate(self):
        again = True
        while again and not self.bot:
            again = False
            for c in list(self.clauses):
                left = []
                for x in (c.args[0] if c.op == 'or' else (c,)):
                    if x in self.known:
                        left = None
                        break
                    if neg_b(x) in self.known:
                        continue
                    left.append(x)
                if left is None:
                    self.clauses.remove(c)
                    continue
                if not left:
                    self.bot = True
                    return
                if len(left) == 1:
                    self.clauses.remove(c)
                    self._add(left[0])
                    again = True

    def sat(self, extra=()):
        if self.bot:
            return False
        c = self.cons + list(extra)
        c = c + nonneg_cons(c)
        if not feasible(c):
            return False
        for p in self.neqs:
            # p != 0 contradicts entailed p == 0
            a = lin_of(p)
            b = lin_of(neg(p))
            if not feasible(c + [(a, True)]) and not feasible(c + [(b, True)]):
                return False
        return True

    def entails_zero(self, p):
        c = self.cons
        a = [(lin_of(p), True)]
        b = [(lin_of(neg(p)), True)]
        return (not feasible(c + a + nonneg_cons(c + a))) and (not feasible(c + b + nonneg_cons(c + b)))


# ---------------------------------------------------------------- literals
def find_literal(t, boolean=False):
    memo = set()
    hit = []

    def lit(c):
        if c.op in ('and', 'or'):
            for x in c.args[0]:
                r = lit(x)
                if r is not None:
                    return r
            return None
        if c.op == 'not':
            return lit(c.args[0])
        if c.op == 'ite':
            return lit(c.args[0]) or lit(c.args[1]) or lit(c.args[2])
        if c in (TRUE, FALSE):
            return None
        # conditions nested inside the literal's own operands first
        r = go_args(c)
        return r if r is not None else c

    def go_args(t):
        if t.op == 'poly':
            for m, c in t.args[0]:
                for a, e in m:
                    r = go(a)
                    if r is not None:
                        return r
            return None
        if t.op in BINDERS:
            if t.op == 'msum':
                for x in t.args[1]:
                    r = go(x)
                    if r is not None:
                        return r
            elif t.op in ('exists', 'first'):
                return go(t.args[1])
            return None
        for a in tm._flat(t.args):
            r = go(a)
            if r is not None:
                return r
        return None

    def go(t):
        if t in memo:
            return None
        memo.add(t)
        if t.op == 'ite':
            r = lit(t.args[0])
            if r is not None:
                return r
        if t.op in ('and', 'or', 'not'):
            r = lit(t)
            if r is not None:
                return r
        return go_args(t)
    if boolean:
        r = lit(t)
        if r is not None:
            return r
    return go(t)


class Prover(object):
    def __init__(self, budget=3000, enums=None, limit=20):
        self.limit = limit
        self.budget = budget
        self.n = 0
        self.enums = enums or {}
        self.wit = None

    def equal(self, a, b, facts=()):
        """True / False(with self.wit) / None (undecided)"""
        if a is b:
            return True
        self.n = 0
        self.t1 = time.time() + self.limit
        self.wit = None
        F = facts if isinstance(facts, Facts) else Facts(facts)
        # apply equality facts up front
        for l in F.lits:
            if l.op in ('eq0', 'eq') or not (l.op in ('le0', 'lt0', 'or') or (l.op == 'not' and l.args[0].op in ('le0', 'lt0', 'or', 'and'))):
                a = assume(a, l, True)
                b = assume(b, l, True)
        try:
            r = self.pe(a, b, F, 0)
        except Budget:
            return None
        except RecursionError:
            return None
        if r:
            return True
        if a.opq or b.opq:
            return None
        return False

    def valid(self, c, facts=()):
        return self.equal(c, TRUE, facts)

    def fail(self, a, b, F):
        if self.wit is None:
            self.wit = (a, b, list(F.lits))
        return False

    def pe(self, a, b, F, depth):
        if a is b:
            return True
        self.n += 1
        if time.time() > self.t1:
            raise Budget()
        if self.n > self.budget or depth > 60:
            raise Budget()
        bo = isbool(a) or isbool(b)
        l = None
        if bo:
            l = find_literal(a, True) or find_literal(b, True)
        else:
            l = find_literal(a) or find_literal(b)
        if l is not None and not (bo and a.op == l.op == b.op and False):
            # split
            if bo and ((a is l and b is l)):
                return True
            ok = True
            for v in (True, False):
                f = l if v else neg_b(l)
                F2 = F.plus(f)
                if v and l.op == 'exists':
                    sk = fresh()
                    F2 = F2.plus(lt(sk, l.args[1])).plus(inst(l.args[0], l.args[2], sk))
                if not F2.sat():
                    continue
                a2, b2 = assume(a, l, v), assume(b, l, v)
                # enum exhaustion
                if not v:
                    fx = self.enum_exhaust(F2)
                    if fx is False:
                        continue
                    if fx is not None:
                        a2, b2 = assume(a2, fx, True), assume(b2, fx, True)
                if bo and a2 is a and b2 is b:
                    # literal did not simplify (already decided): congruence
                    return self.leaf(a, b, F)
                if not self.pe(a2, b2, F2, depth + 1):
                    return False
            return ok
        return self.leaf(a, b, F)

    def enum_exhaust(self, F):
        """x != all but one enumerator -> equality literal; all excluded -> False"""
        by = {}
        for p in F.neqs:
            d = pd(p)
            at = [m[0][0] for m in d if m and len(m) == 1 and m[0][1] == 1]
            if len(at) == 1 and len([m for m in d if m]) == 1 and at[0] in ENUM:
                a = at[0]
                c = d[((a, 1),)]
                by.setdefault(a, set()).add(-d.get((), Fraction(0)) / c)
        for a, vs in by.items():
            allv = self.enums.get(ENUM[a])
            if not allv:
                continue
            left = [v for v in allv if Fraction(v) not in vs]
            if not left:
                return False
            if len(left) == 1:
                return ceq0(sub(a, num(left[0])))
        return None

    def leaf(self, a, b, F):
        if a is b:
            return True
        if is_mat(a) or is_mat(b):
            return self.mat(a, b, F)
        if numericish(a) and numericish(b):
            return self.numeric(a, b, F)
        if a.op == 'upd' or b.op == 'upd':
            return self.record(a, b, F)
        if a.op in ('vpush', 'vpushf', 'vsto', 'vmap', 'vloop', 'vresize', 'vlist', 'vempty') or b.op in ('vpush', 'vpushf', 'vsto', 'vmap', 'vloop', 'vresize', 'vlist', 'vempty'):
            if not self.sub(vsize(a), vsize(b), F):
                return self.fail(a, b, F)
            i = fresh('i')
            F2 = F.plus(lt(i, vsize(a)))
            if not F2.sat():
                return True
            return self.sub(vsel(a, i), vsel(b, i), F2)
        return self.cong(a, b, F)

    def sub(self, a, b, F):
        return self.pe(a, b, F, 0)

    def cong(self, a, b, F):
        if a.op != b.op or len(a.args) != len(b.args):
            return self.fail(a, b, F)

        def rec_(x, y):
            if isinstance(x, T) and isinstance(y, T):
                return self.sub(x, y, F)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(rec_(p, q) for p, q in zip(x, y))
            return x == y
        if a.op in ('sym', 'fresh', 'bv', 'bvo', 'num', 'str'):
            return self.fail(a, b, F)
        if all(rec_(x, y) for x, y in zip(a.args, b.args)):
            return True
        return self.fail(a, b, F)

    def record(self, a, b, F):
        ka = dict(a.args[1]) if a.op == 'upd' else {}
        kb = dict(b.args[1]) if b.op == 'upd' else {}
        ba = a.args[0] if a.op == 'upd' else a
        bb = b.args[0] if b.op == 'upd' else b
        if ba is not bb and ba.op != 'default' and bb.op != 'default':
            if not self.sub(ba, bb, F):
                return False
        for k in sorted(set(ka) | set(kb), key=str):
            if not self.sub(ka.get(k) if k in ka else fld(a, k), kb[k] if k in kb else fld(b, k), F):
                return False
        return True

    def mat(self, a, b, F):
        da, db = dims(a), dims(b)
        for x, y in zip(da, db):
            if not self.sub(x, y, F):
                return False
        if all(is_num(x) for x in da) and da[0].args[0] * da[1].args[0] <= 144:
            for i in range(int(da[0].args[0])):
                for j in range(int(da[1].args[0])):
                    if not self.sub(elem(a, num(i), num(j)), elem(b, num(i), num(j)), F):
                        return False
            return True
        i = ZERO if da[0] is ONE else fresh('i')
        j = ZERO if da[1] is ONE else fresh('j')
        F2 = F
        if i is not ZERO:
            F2 = F2.plus(lt(i, da[0]))
        if j is not ZERO:
            F2 = F2.plus(lt(j, da[1]))
        if not F2.sat():
            return True
        ea, eb = elem(a, i, j), elem(b, i, j)
        if ea.op == 'elem' and eb.op == 'elem' and ea.args[0] is a and eb.args[0] is b:
            return self.cong(a, b, F)
        return self.sub(ea, eb, F2)

    def numeric(self, a, b, F):
        p = sub(a, b)
        if p is ZERO or rat_zero(p):
            return True
        if F.entails_zero(p):
            return True
        # unify provably equal atoms
        for _ in range(20):
            atoms = []
            for m in pd(p):
                for x, e in m:
                    if x not in atoms:
                        atoms.append(x)
            done = False
            for i in range(len(atoms)):
                for j in range(i + 1, len(atoms)):
                    x, y = atoms[i], atoms[j]
                    if x.op == y.op and x.op not in ('sym', 'fresh', 'bv', 'bvo') and len(x.args) == len(y.args):
                        w = self.wit
                        if self.atom_eq(x, y, F):
                            p = replace_atom(p, y, x)
                            done = True
                            break
                        self.wit = w
                if done:
                    break
            if p is ZERO or rat_zero(p) or F.entails_zero(p):
                return True
            if not done:
                break
        return self.fail(a, b, F)

    def atom_eq(self, x, y, F):
        if x.op == 'elem' and is_mat(x.args[0]) and x.args[0] is not y.args[0]:
            # element of unresolved loops: compare matrices structurally
            return all(self.sub(p, q, F) for p, q in zip(x.args[1:], y.args[1:])) and self.cong(x.args[0], y.args[0], F)
        if x.op == 'msum':
            if len(x.args[0]) != len(y.args[0]):
                return False
            if not all(self.sub(p, q, F) for p, q in zip(x.args[1], y.args[1])):
                return False
            # bind to common fresh symbols
            ks = [fresh() for _ in x.args[0]]
            bx, by = x.args[2], y.args[2]
            for v, k in sorted(zip(x.args[0], ks), key=lambda z: -z[0].args[0]):
                bx = inst(v, bx, k)
            for v, k in sorted(zip(y.args[0], ks), key=lambda z: -z[0].args[0]):
                by = inst(v, by, k)
            F2 = F
            for k, n in zip(ks, x.args[1]):
                F2 = F2.plus(lt(k, n))
            if not F2.sat():
                return True
            return self.sub(bx, by, F2)
        if x.op in ('first', 'exists'):
            k = fresh()
            if not self.sub(x.args[1], y.args[1], F):
                return False
            F2 = F.plus(lt(k, x.args[1]))
            return self.sub(inst(x.args[0], x.args[2], k), inst(y.args[0], y.args[2], k), F2)
        return self.cong(x, y, F)
