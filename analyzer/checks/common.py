"""Shared vocabulary of the constraint checks."""
from sa.harness import *

INF = mk('inf')
TYPE[INF] = 'r'
BODIES = ('A', 'AS', 'GI', 'I')
BOUNDS = ('LU', 'L', 'U', 'B', 'B0')
CONT = 'humoto::constraints::Container'
_n = [0]


def uid(p='o'):
    _n[0] += 1
    return '%s%d' % (p, _n[0])


def task_key(P, body, bound):
    want = '<humoto::constraints::Constraints%s%s<humoto::TaskBase>>' % (body, bound)
    for k in sorted(P.C):
        if k.startswith('humoto::') and k.endswith('TaskBaseMixin' + want):
            return k
    raise Missing('task class over Constraints%s%s' % (body, bound))


class Task(object):
    """a task of one constraint type in an arbitrary consistent state"""

    def __init__(self, cx, body, bound):
        self.cx, self.body, self.bound = cx, body, bound
        self.key = task_key(cx.P, body, bound)
        self.lv = LV(uid('task'), (), self.key)
        g = lambda m: cx.get(self.key, self.lv, m)
        u = self.lv.root
        self.n = sym(u + '.n', 'u')
        self.nv = g('getNumberOfVariables')
        TYPE[self.nv] = 'u'
        self.facts = []
        self.A = self.off = self.k = self.I = self.g = None
        self.lb = self.ub = self.b = None
        if body == 'A':
            self.A = setdims(g('getA'), self.n, self.nv)
        elif body == 'AS':
            self.k = sym(u + '.k', 'u')
            self.A = setdims(g('getA'), self.n, self.k)
            self.off = g('getOffset')
            self.facts += [le(ZERO, self.off), le(add(self.off, self.k), self.nv)]
        else:
            self.I = setdims(g('getIndices'), self.n, 1)
            if body == 'GI':
                self.g = setdims(g('getIGains'), self.n, 1)
        if bound in ('LU', 'L'):
            self.lb = setdims(g('getLowerBounds'), self.n, 1)
        if bound in ('LU', 'U'):
            self.ub = setdims(g('getUpperBounds'), self.n, 1)
        if bound == 'B':
            self.b = setdims(g('getB'), self.n, 1)

    @property
    def name(self):
        return self.body + self.bound

    def rowel(self, i, c):
        """coefficient of variable c in constraint i"""
        if self.body == 'A':
            return elem(self.A, i, c)
        if self.body == 'AS':
            return ite(within(c, self.off, self.k), elem(self.A, i, sub(c, self.off)), ZERO)
        one = ONE if self.body == 'I' else elem(self.g, i, ZERO)
        return ite(eq(elem(self.I, i, ZERO), c), one, ZERO)

    def prod(self, x, i):
        if self.body == 'A':
            j = fresh('j', 'i')
            return sumk(j, self.nv, mul(elem(self.A, i, j), elem(x, j, ZERO)))
        if self.body == 'AS':
            j = fresh('j', 'i')
            return sumk(j, self.k, mul(elem(self.A, i, j), elem(x, add(self.off, j), ZERO)))
        p = elem(x, elem(self.I, i, ZERO), ZERO)
        return p if self.body == 'I' else mul(elem(self.g, i, ZERO), p)

    def lower(self, i):
        if self.lb is not None:
            return elem(self.lb, i, ZERO)
        if self.b is not None:
            return elem(self.b, i, ZERO)
        return ZERO if self.bound == 'B0' else neg(INF)

    def upper(self, i):
        if self.ub is not None:
            return elem(self.ub, i, ZERO)
        if self.b is not None:
            return elem(self.b, i, ZERO)
        return ZERO if self.bound == 'B0' else INF

    def idx_facts(self, *is_):
        """index entries used lie inside the variable range"""
        if self.I is None:
            return []
        r = []
        for i in is_:
            r += [lt(elem(self.I, i, ZERO), self.nv), le(ZERO, elem(self.I, i, ZERO))]
        return r


class Cont(object):
    """a container in an arbitrary consistent state"""

    def __init__(self, cx, kind, nv):
        self.cx, self.kind, self.nv = cx, kind, nv
        self.key = cx.cls(CONT + kind)
        self.lv = LV(uid('cont'), (), self.key)
        self.R = sym(self.lv.root + '.rows', 'u')
        self.facts = []
        s = self.state()
        for k, t in s.items():
            setdims(t, self.R, nv if k == 'A' else 1)
        self.pre = s
        v = cx.get(self.key, self.lv, 'getNumberOfVariables')
        TYPE[v] = 'u'
        self.facts.append(eq(v, nv))

    def state(self, ev=None):
        g = lambda m: self.cx.get(self.key, self.lv, m, ev=ev)
        if self.kind == 'ALU':
            return {'A': g('getA'), 'lb': g('getLowerBounds'), 'ub': g('getUpperBounds')}
        if self.kind == 'AL':
            return {'A': g('getA'), 'lb': g('getLowerBounds')}
        if self.kind == 'AB':
            return {'A': g('getA'), 'b': g('getB')}
        return {'I': g('getIndices'), 'lb': g('getLowerBounds'), 'ub': g('getUpperBounds')}
