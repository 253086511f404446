"""Obligations: what is compared, how it is decided, what is reported."""
import sys
import time
import traceback
from .terms import *
from . import terms as tm
from .mat import *
from .evalr import Eval, LV, CLV, St, Frame, Lam, CLS, Unsupported, mapget, maphas
from .decide import Prover, Facts
from .interp import refute
from .model import walk

sys.setrecursionlimit(40000)
SKIP = ('humoto::Logger', 'humoto::LogEntryName', 'humoto::LoggerBase', 'humoto::Timer')


class Missing(Exception):
    """an anchor of the check does not exist in this tree"""


class Undecided(Exception):
    pass


class Ob(object):
    def __init__(self, name, status, where='', detail='', rule=''):
        self.name, self.status, self.where, self.detail, self.rule = name, status, where, detail, rule


class Res(object):
    """value graph of one function"""

    def __init__(self, ev, ret, pre):
        self.ev, self.ret, self.pre = ev, ret, pre
        self.throws = ev.throws
        self.heap = ev.st.heap if ev.st else {}
        self.facts = list(ev.facts)

    def post(self, lv):
        """value of an lvalue after the call"""
        return self.ev.load(lv)

    def thrown(self):
        return bor(*[t[0] for t in self.throws])


class Ctx(object):
    def __init__(self, pid, P, tier='quick', seed=1):
        self.pid, self.P, self.tier, self.seed = pid, P, tier, seed
        self.obs = []
        self.analysed = set()
        self.n = 0
        self.samples = 40 if tier == 'quick' else 300
        self.tries = 4000 if tier == 'quick' else 20000
        self.budget = 4000 if tier == 'quick' else 30000
        self.group_limit = 90 if tier == 'quick' else 600
        self.pl, self.rl = (15, 10) if tier == 'quick' else (120, 60)
        until(420 if tier == 'quick' else 3000)
        self.names = {}
        self.nbad = 0
        self.cexes = []

    # ------------------------------------------------------------ bookkeeping
    def add(self, name, status, where='', detail='', rule=''):
        self.obs.append(Ob(name, status, where, detail, rule))
        if status == 'violated':
            self.nbad += 1
        return status

    def ok(self, name, where='', rule=''):
        return self.add(name, 'proved', where, '', rule)

    def bad(self, name, where='', detail='', rule=''):
        return self.add(name, 'violated', where, detail, rule)

    def und(self, name, where='', detail='', rule=''):
        return self.add(name, 'undecided', where, detail, rule)

    def require(self, name, cond, where='', detail='', rule=''):
        return self.ok(name, where, rule) if cond else self.bad(name, where, detail, rule)

    def guard(self, name, f, *a, **k):
        """run a group of obligations; an analysis failure is 'undecided', never an alarm"""
        old = until(self.group_limit)
        try:
            return f(*a, **k)
        except TimeUp:
            self.und(name, '', 'analysis gave up: time limit')
        except Missing as e:
            self.und(name, '', 'anchor missing: %s' % e)
        except (Unsupported, RecursionError, MemoryError) as e:
            self.und(name, '', 'analysis gave up: %s %s' % (type(e).__name__, str(e)[:200]))
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.und(name, '', 'analysis failed: %s %s (%s:%s)' % (type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno))
        finally:
            restore(old)
        return None

    def guard_all(self, f):
        try:
            f(self)
        except BaseException as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.und('the rest', '', 'analysis failed: %s %s (%s:%s)' % (type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno))

    # ------------------------------------------------------------ program access
    def cls(self, q, pred=None):
        for c in self.P.cls(q):
            if pred is None or pred(c):
                return c['key']
        raise Missing(q)

    def meth(self, key, name, nparams=None, const=None, pred=None, body=True):
        for f in self.P.methods(key, name):
            if nparams is not None and len(f['params']) != nparams:
                continue
            if const is not None and bool(f.get('const')) != const:
                continue
            if pred and not pred(f):
                continue
            if f.get('virt'):
                g = self.P.resolve(key, f['id'])
                if g is not None:
                    f = g
            if body and 'body' not in f:
                continue
            return f
        raise Missing('%s::%s' % (self.P.C[key]['q'] if key in self.P.C else key, name))

    def fn(self, q, nparams=None, pred=None):
        for f in self.P.fn(q):
            if nparams is not None and len(f['params']) != nparams:
                continue
            if pred is None or pred(f):
                return f
        raise Missing(q)

    def ptype(self, f, i):
        return self.P.strip(f['params'][i]['t'])

    def where(self, f):
        return '%s (%s)' % (f['q'], self.P.loc(f))

    # ------------------------------------------------------------ evaluation
    def eval(self, **k):
        k.setdefault('skip', SKIP)
        ev = Eval(self.P, **k)
        ev.st = St()
        ev.fr = None
        return ev

    def run(self, f, this=None, args=(), ev=None, heap=None, known=None, **k):
        """value graph of f applied to symbolic arguments"""
        if ev is None:
            ev = self.eval(**k)
        if heap:
            ev.st.heap.update(heap)
        for c in known or ():
            ev.learn(ev.st, c)
        pre = dict(ev.st.heap)
        n0 = len(ev.throws)
        r = ev.call_body(f, this, list(args), {'k': 'call', 'l': f.get('l')}, ctor=bool(f.get('ctor')))
        if isinstance(r, (LV, CLV)) and self.P.ty(f['ret'])['k'] not in ('ref', 'rref'):
            r = ev.rv(r)
        self.analysed |= ev.analysed
        return Res(ev, r, pre)

    def get(self, key, obj, name, args=(), ev=None, nparams=None, const=True, facts=()):
        """observer: value returned by a (const) method of obj in the state of ev (or the initial state)"""
        f = None
        try:
            f = self.meth(key, name, nparams, const)
        except Missing:
            f = self.meth(key, name, nparams, None)
        e2 = self.eval()
        if ev is not None:
            e2.st = ev.st.copy()
            e2.ntmp = ev.ntmp + 100000
            e2.nframe = ev.nframe + 100000
        this = obj if isinstance(obj, (LV, CLV)) else e2.tmp(obj, key)
        if isinstance(this, LV) and this.cls is None:
            this = LV(this.root, this.path, key)
        r = e2.call_body(f, this, list(args), {'k': 'call'})
        v = e2.rv(r, f['ret'])
        self.analysed |= e2.analysed
        return v

    # ------------------------------------------------------------ deciding
    def eq(self, name, a, b, facts=(), where='', rule='value-graph equality', scope=None):
        """a == b under facts, for every interpretation of the leaves"""
        facts = [f for f in facts if f is not TRUE]
        if FALSE in facts:
            return self.und(name, where, 'facts contradictory', rule)
        if self.nbad >= 60:
            return self.und(name, where, 'not examined: many violations have been found already', rule)
        try:
            pr = Prover(self.budget, self.P.enums, self.pl)
            r = pr.equal(a, b, list(facts))
        except (RecursionError, Unsupported) as e:
            r = None
        if r is True:
            return self.add(name, 'proved', where, '', rule)
        w, acc = None, 0
        try:
            w, acc = refute(a, b, facts, self.P.enums, self.samples, self.tries, self.seed, limit=self.rl, accesses=True)
            if w is None and acc >= 5:
                # the boundary of each comparison
                for p in comparisons(a, b)[:12 if self.tier == 'quick' else 60]:
                    w, n = refute(a, b, list(facts) + [eq(p, ZERO)], self.P.enums, 10, 200, self.seed, limit=1)
                    if w is not None:
                        break
        except RecursionError:
            pass
        if w is not None and unmodelled(a, b, *facts):
            return self.add(name, 'undecided', where, 'depends on library calls without a model: %s' % ', '.join(sorted(unmodelled(a, b, *facts)))[:200], rule)
        if w is not None:
            self.cexes.append({'obligation': name, 'where': where, 'witness': w})
            return self.add(name, 'violated', where, 'got %s, required %s' % (short(w['lhs']), short(w['rhs'])), rule)
        if acc >= 5:
            return self.add(name, 'agreed', where, 'no counterexample in %d random interpretations' % acc, rule)
        return self.add(name, 'undecided', where, 'no admissible interpretation found' if not acc else 'only %d' % acc, rule)

    def holds(self, name, c, facts=(), where='', rule='entailment'):
        """the boolean term c is true under facts"""
        return self.eq(name, c, TRUE, facts, where, rule)

    def never(self, name, c, facts=(), where='', rule='infeasible condition'):
        return self.eq(name, c, FALSE, facts, where, rule)

    def require_same(self, name, got, want, facts=(), where='', rule='the same object'):
        """got is want; objects are compared as terms"""
        if got is want:
            return self.ok(name, where, rule)
        if isinstance(got, T) and got.op == 'ite':
            return self.eq(name, got, want, facts, where, rule)
        if isinstance(got, T) and got.op == 'opaque':
            return self.und(name, where, str(got)[:200], rule)
        if isinstance(got, T) and isinstance(want, T) and unmodelled(got, want):
            return self.und(name, where, 'depends on library calls without a model', rule)
        return self.bad(name, where, 'got %s, required %s' % (short(got), short(want)), rule)

    def counts(self):
        d = {}
        for o in self.obs:
            d[o.status] = d.get(o.status, 0) + 1
        return d


LIBRARY = ('std::', 'Eigen::', 'boost::', '__gnu', 'ctor std::', 'ctor Eigen::', 'ctor boost::')


def libcalls(*ts):
    """unmodelled library functions the terms depend on"""
    out, seen = set(), set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
            continue
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == 'call' and t.args and isinstance(t.args[0], tuple) and isinstance(t.args[0][0], str) and t.args[0][0].startswith(LIBRARY):
            out.add(t.args[0][0])
        if t.op == 'out' and isinstance(t.args[1], tuple) and isinstance(t.args[1][0], str) and t.args[1][0].startswith(LIBRARY):
            out.add(t.args[1][0])
        if t.op == 'opaque':
            out.add('?' + str(t.args[0]))
        todo.extend(t.args)
    return out


def unmodelled(a, b, *facts):
    """library calls on one side of a comparison only: their meaning would have to be known to tell the sides apart"""
    return (libcalls(a) ^ libcalls(b)) | (libcalls(*facts) - libcalls(a, b))


def comparisons(*ts):
    """polynomials compared with zero anywhere in the terms (outside binders)"""
    out, seen = [], set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op in ('le0', 'lt0') and not t.bvh and t.args[0] not in out:
            out.append(t.args[0])
        todo.extend(tm._flat(t.args))
    return out


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


def setdims(t, r, c):
    if isinstance(r, int):
        r = num(r)
    if isinstance(c, int):
        c = num(c)
    TYPE[t] = 'm'
    DIMS[t] = (r, c)
    return t


def within(i, lo, n):
    """lo <= i < lo+n"""
    return band(le(lo, i), lt(i, add(lo, n)))
