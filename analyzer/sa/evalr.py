"""Gated value-numbering evaluator over the exported program.

Every expression is mapped to a term of the input state; branches are joined
with ite, loops are summarised (induction variables, sums, element-wise
stores, general recurrences).  Helper functions are inlined; calls that cannot
be resolved become uninterpreted functions of the values they receive."""
from .terms import *
from . import terms as tm
from .mat import *
from .model import Program, walk
from fractions import Fraction


class LV(object):
    __slots__ = ('root', 'path', 'cls')

    def __init__(self, root, path=(), cls=None):
        self.root = root
        self.path = path
        self.cls = cls

    def sub(self, acc, cls=None):
        return LV(self.root, self.path + (acc,), cls)

    def key(self):
        return (self.root, self.path)

    def addr(self):
        t = mk('addr', self.root, self.path)
        TYPE[t] = 'p'
        if self.cls:
            CLS.setdefault(t, self.cls)
        return t

    def __repr__(self):
        return 'LV(%r,%r)' % (self.root, self.path)


CONSTANT = ('num', 'str', 'true', 'false', 'vlist', 'vempty', 'vpush', 'emat', 'bool', 'cat', 'ioformat', 'setprecision')


def constant(v):
    """no atoms"""
    if isinstance(v, T):
        return v.op in CONSTANT and all(constant(a) for a in v.args)
    if isinstance(v, tuple):
        return all(constant(a) for a in v)
    return True


class CLV(object):
    """conditional reference"""
    __slots__ = ('c', 'a', 'b', 'cls')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.cls = None

    def sub(self, acc, cls=None):
        return CLV(self.c, self.a.sub(acc, cls), self.b.sub(acc, cls))

    def addr(self):
        return ite(self.c, self.a.addr(), self.b.addr())


class Comma(object):
    def __init__(self, lv):
        self.lv = lv
        self.r = ZERO
        self.c = ZERO
        self.h = None


class Lam(object):
    def __init__(self, f, frame):
        self.f = f
        self.frame = frame


class Frame(object):
    __slots__ = ('id', 'vars', 'this', 'fn', 'parent')

    def __init__(self, id, fn, this=None, parent=None):
        self.id = id
        self.vars = {}
        self.this = this
        self.fn = fn
        self.parent = parent

    def find(self, d):
        f = self
        while f is not None:
            if d in f.vars:
                return f.vars[d]
            f = f.parent
        return None


class St(object):
    __slots__ = ('heap', 'known')

    def __init__(self, heap=None, known=None):
        self.heap = heap if heap is not None else {}
        self.known = known if known is not None else {}

    def copy(self):
        return St(dict(self.heap), dict(self.known))


class Out(object):
    __slots__ = ('norm', 'ret', 'thr', 'brk', 'cont')

    def __init__(self, norm=None, ret=None, thr=FALSE, brk=None, cont=None):
        self.norm = norm
        self.ret = ret          # (cond, heap, val)
        self.thr = thr
        self.brk = brk          # (cond, heap)
        self.cont = cont

    def exits(self):
        return bor(self.thr, *[x[0] for x in (self.ret, self.brk, self.cont) if x])


CLS = {}        # pointer/object term -> dynamic class key
VIEWQ = ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Transpose', 'Eigen::Diagonal', 'Eigen::Map', 'Eigen::Ref', 'Eigen::NoAlias',
         'Eigen::ArrayWrapper', 'Eigen::MatrixWrapper', 'Eigen::Reverse', 'Eigen::VectorwiseOp')
SEQQ = ('std::vector', 'std::list', 'std::deque', 'std::queue', 'std::stack', 'std::array', 'std::initializer_list')
NULLPTR = 'dereference of a null pointer'
PTRQ = ('boost::shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'boost::scoped_ptr', 'std::auto_ptr')


class Unsupported(Exception):
    pass


class Eval(object):
    def __init__(self, prog, skip=(), opaque_fns=(), maxdepth=40, track=False):
        self.P = prog
        self.skip = skip              # qualified-name prefixes treated as no-ops
        self.opaque_fns = set(opaque_fns)   # qualified names kept uninterpreted
        self.fr = None
        self.st = None
        self.nframe = 0
        self.ntmp = 0
        self.depth = 0
        self.maxdepth = maxdepth
        self.pend = [FALSE]           # pending throw condition of the current statement
        self.gate = [TRUE]
        self.throws = []              # (cond, where, text)
        self.facts = []               # unconditional dimension equalities
        self.events = track           # record calls in root '$ev'
        self.objhook = None           # callable(ev, f, this, args, n) tried first for member calls
        self.hooks = {}               # qualified name -> python callable(ev, node, objlv, args)
        self.analysed = set()
        self.cond_depth = 0
        self.loops = []
        self.peel = 0                 # nest up to this many iterations of loops without a decided trip count
        self.notes = []
        self.unresolved = set()

    # ------------------------------------------------------------ types
    def tt(self, tid):
        return self.P.ty(tid)

    def typed(self, v, tid):
        """attach type information to an atom"""
        if not isinstance(v, T):
            return v
        t = self.P.strip(tid) if tid is not None else None
        if t is None:
            return v
        return self._typed(v, t, 0)

    def _typed(self, v, t, d):
        if v.op in ('num', 'poly', 'true', 'false', 'opaque', 'str'):
            return v
        if v.op == 'ite' and d < 4:
            self._typed(v.args[1], t, d + 1)
            self._typed(v.args[2], t, d + 1)
            return v
        if v in TYPE and TYPE[v] != 'o':
            return v
        k = t['k']
        if k == 'int':
            TYPE[v] = 'u' if t.get('u') else 'i'
        elif k == 'float':
            TYPE[v] = 'r'
        elif k == 'bool':
            TYPE[v] = 'b'
        elif k == 'enum':
            TYPE[v] = 'e'
            ENUM[v] = t['q']
        elif k == 'ptr':
            TYPE[v] = 'p'
        elif k == 'rec':
            if 'rows' in t:
                TYPE[v] = 'm'
                r, c = t['rows'], t['cols']
                if v not in DIMS and v.op not in MATOPS and (r >= 0 or c >= 0):
                    DIMS[v] = (num(r) if r >= 0 else mk('rows', v), num(c) if c >= 0 else mk('cols', v))
                if 'scalar' in t:
                    s = self.tt(t['scalar'])
                    if s['k'] == 'int':
                        TYPE[('el', v)] = 'u' if s.get('u') else 'i'
            elif t['q'] in SEQQ:
                TYPE[v] = 'v'
            elif t['q'] in PTRQ:
                TYPE[v] = 'p'
            else:
                TYPE[v] = 'o'
        else:
            TYPE.setdefault(v, 'o')
        return v

    def eig(self, tid):
        t = self.P.strip(tid)
        return t if t.get('k') == 'rec' and 'rows' in t else None

    def opq(self, why, n=None):
        loc = ''
        if n is not None and self.fr and self.fr.fn:
            loc = '@%s:%s' % (self.P.rel(self.fr.fn), n.get('l'))
        self.notes.append(why + loc)
        return mk('opaque', why + loc)

    # ------------------------------------------------------------ heap
    def root_init(self, root):
        t = mk('obj', root)
        TYPE.setdefault(t, 'o')
        return t

    def load(self, lv, tid=None):
        if isinstance(lv, CLV):
            return ite(lv.c, self.load(lv.a, tid), self.load(lv.b, tid))
        v = self.st.heap.get(lv.root)
        if v is None:
            v = self.root_init(lv.root)
        for acc in lv.path:
            v = self.proj(v, acc)
        if tid is not None:
            v = self.typed(v, tid)
        return v

    def proj(self, v, acc):
        k = acc[0]
        if isinstance(v, Lam) or isinstance(v, LV):
            return v
        if v.op == 'opaque':
            return v
        if k == 'f':
            return fld(v, acc[1])
        if k == 'i':
            return vsel(v, acc[1])
        if k == 'e':
            return elem(v, acc[1], acc[2])
        if k == 'blk':
            return mblk(v, *acc[1:])
        if k == 'T':
            return mT(v)
        if k == 'dg':
            return mk('mdiagof', v)
        if k == 'mk':
            return mapget(v, acc[1])
        if k == 'tri':
            return mk('mtri', v, acc[1])
        if k == 'sym':
            return mk('msym', v, acc[1])
        if k == 'rev':
            return mk('mrev', v)
        raise Unsupported(k)

    def store(self, lv, x):
        if isinstance(lv, CLV):
            a0 = self.load(lv.a)
            b0 = self.load(lv.b)
            self.store(lv.a, ite(lv.c, x, a0))
            self.store(lv.b, ite(lv.c, self.load(lv.b), x))
            return
        if isinstance(x, (LV, CLV)):
            x = self.load(x)
        if not lv.path:
            self.st.heap[lv.root] = x
            return
        v = self.st.heap.get(lv.root)
        if v is None:
            v = self.root_init(lv.root)
        self.st.heap[lv.root] = self.put(v, lv.path, x)

    def put(self, v, path, x):
        if not path:
            return x
        acc = path[0]
        k = acc[0]
        rest = path[1:]
        if v.op == 'opaque':
            return v
        if v.op == 'ite' and k in ('i', 'mk') :
            return ite(v.args[0], self.put(v.args[1], path, x), self.put(v.args[2], path, x))
        inner = self.put(self.proj(v, acc), rest, x) if rest else x
        if k == 'f':
            return upd(v, acc[1], inner)
        if k == 'i':
            return vsto(v, acc[1], inner)
        if k == 'e':
            return mstore(v, acc[1], acc[2], ONE, ONE, mk('emat', 1, 1, (inner,)))
        if k == 'blk':
            self.dimfact(inner, acc[3], acc[4])
            return mstore(v, acc[1], acc[2], acc[3], acc[4], inner)
        if k == 'T':
            return mT(inner)
        if k == 'dg':
            t = mk('msetdiag', v, inner)
            TYPE[t] = 'm'
            DIMS[t] = dims(v)
            return t
        if k == 'mk':
            return mapset(v, acc[1], inner)
        if k in ('tri', 'sym'):
            t = mk('mtrist', v, acc[1], inner)
            TYPE[t] = 'm'
            return t
        raise Unsupported('store ' + k)

    def dimfact(self, v, r, c):
        if self.cond_depth == 0 and isinstance(v, T) and is_mat(v):
            d = dims(v)
            for x, y in zip(d, (r, c)):
                e = eq(x, y)
                if e is not TRUE and e is not FALSE and e.op == 'eq0' and not e.syms:
                    self.facts.append(e)

    def rv(self, x, tid=None):
        if isinstance(x, (LV, CLV)):
            return self.load(x, tid)
        if isinstance(x, Comma):
            return self.rv(x.lv)
        return x

    def tmp(self, v, cls=None):
        self.ntmp += 1
        root = ('tmp', self.ntmp)
        self.st.heap[root] = v
        return LV(root, (), cls)

    def cls_of_type(self, tid):
        t = self.P.strip(tid)
        if t.get('k') == 'rec' and t.get('key') in self.P.C:
            return t['key']
        return None

    def deref(self, p, tid=None, g=None):
        """pointer value -> LV; tid is the pointee type"""
        cls = None
        if p.op == 'none':
            # undefined behaviour: treated as the end of the execution
            self.throw(TRUE if g is None else g, '', NULLPTR)
        if p.op == 'addr':
            return LV(p.args[0], p.args[1], CLS.get(p))
        if p.op == 'ite':
            c = p.args[0]
            g = TRUE if g is None else g
            return CLV(c, self.deref(p.args[1], tid, band(g, c)), self.deref(p.args[2], tid, band(g, neg_b(c))))
        if p.op == 'it':
            a = p.args[0]
            if a.op == 'addr':
                return LV(a.args[0], a.args[1] + (('i', p.args[1]),))
        if p.op == 'mit':
            a = p.args[0]
            return LV(a.args[0], a.args[1] + (('mk', p.args[1]),))
        return LV(('deref', p), (), CLS.get(p))

    # ------------------------------------------------------------ conditions
    def simp(self, c):
        """simplify a condition by what is known on this path"""
        if c in (TRUE, FALSE):
            return c
        k = self.st.known
        if not k:
            return c
        if c in k:
            return k[c]
        r = subst_general(c, k)
        return r

    def learn(self, st, c, v=True):
        if not v:
            c = neg_b(c)
        if c.op == 'and':
            for x in c.args[0]:
                self.learn(st, x)
            return
        if c in (TRUE, FALSE):
            return
        st.known[c] = TRUE
        st.known[neg_b(c)] = FALSE

    def to_bool(self, v):
        if isbool(v):
            return v
        if v.op == 'opaque':
            TYPE.setdefault(v, 'b')
            return v
        if TYPE.get(v) == 'p' or v.op in ('none', 'addr', 'mdata'):
            return neg_b(eq(v, NONE))
        if numericish(v):
            return neg_b(ceq0(v))
        TYPE.setdefault(v, 'b')
        return v

    def to_num(self, v):
        if isbool(v):
            return ite(v, ONE, ZERO)
        return v

    # ------------------------------------------------------------ merging
    def mheap(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        h = {}
        for r in set(a) | set(b):
            x, y = a.get(r), b.get(r)
            if x is y:
                h[r] = x
                continue
            if isinstance(r, tuple) and r[0] in ('var', 'tmp') and (x is None or y is None):
                h[r] = x if x is not None else y
                continue
            if x is None:
                x = self.root_init(r)
            if y is None:
                y = self.root_init(r)
            h[r] = self.mval(c, x, y)
        return h

    def mval(self, c, x, y):
        if x is y:
            return x
        if x is None:
            return y
        if y is None:
            return x
        if isinstance(x, (LV, CLV)) and isinstance(y, (LV, CLV)):
            if isinstance(x, LV) and isinstance(y, LV) and x.key() == y.key():
                return x
            return CLV(c, x, y)
        if isinstance(x, (LV, CLV)):
            x = self.load(x)
        if isinstance(y, (LV, CLV)):
            y = self.load(y)
        if not isinstance(x, T) or not isinstance(y, T):
            return mk('opaque', 'merge')
        if is_mat(x) or is_mat(y):
            return ite(c, x, y)
        if numericish(x) and isbool(y):
            y = self.to_num(y)
        if numericish(y) and isbool(x):
            x = self.to_num(x)
        return ite(c, x, y)

    # ------------------------------------------------------------ throws
    def throw(self, cond, where, text):
        c = band(*(self.gate + [cond]))
        if c is FALSE:
            return
        self.throws.append((c, where, text))
        self.pend[-1] = bor(self.pend[-1], c)

    # ------------------------------------------------------------ statements
    def exec_stmt(self, s, st):
        """returns Out"""
        self.st = st
        self.pend.append(FALSE)
        g = self.gate
        self.gate = [TRUE]
        try:
            o = self._stmt(s)
        finally:
            p = self.pend.pop()
            self.gate = g
        if p is not FALSE:
            # outcomes of this statement happen only if no throw happened first
            o.thr = bor(p, band(neg_b(p), o.thr))
            if o.norm is not None:
                if p is TRUE:
                    o.norm = None
                else:
                    self.learn(o.norm, p, False)
            np = neg_b(p)
            if o.ret:
                o.ret = (band(np, o.ret[0]),) + o.ret[1:]
            if o.brk:
                o.brk = (band(np, o.brk[0]), o.brk[1])
            if o.cont:
                o.cont = (band(np, o.cont[0]), o.cont[1])
        return o

    def seq(self, acc, o):
        """acc happened first (with partial exits), then o"""
        ex = acc.exits()
        alive = neg_b(ex)
        r = Out(o.norm)

        def comb(a, b, val):
            if b is None:
                return a
            bc = band(alive, b[0])
            if bc is FALSE:
                return a
            if a is None:
                return (bc,) + b[1:]
            h = self.mheap(a[0], a[1], b[1])
            if val:
                return (bor(a[0], bc), h, self.mval(a[0], a[2], b[2]))
            return (bor(a[0], bc), h)
        r.ret = comb(acc.ret, o.ret, True)
        r.brk = comb(acc.brk, o.brk, False)
        r.cont = comb(acc.cont, o.cont, False)
        r.thr = bor(acc.thr, band(alive, o.thr))
        return r

    def block(self, stmts, st):
        acc = Out(st)
        for s in stmts:
            if acc.norm is None:
                break
            if s is None:
                continue
            m = len(self.throws)
            o = self.exec_stmt(s, acc.norm)
            self.reached(acc, m)
            acc = self.seq(acc, o)
        return acc

    def reached(self, acc, m):
        """throws recorded from m on happen only if acc has not been left before"""
        if len(self.throws) == m:
            return
        left = [x[0] for x in (acc.ret, acc.brk, acc.cont) if x]
        if left:
            alive = neg_b(bor(*left))
            self.throws[m:] = [t for t in [(band(alive, t[0]),) + t[1:] for t in self.throws[m:]] if t[0] is not FALSE]

    def branch(self, c, fa, fb):
        """run two alternatives from the current state; returns Out"""
        st = self.st
        c = self.simp(c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        self.cond_depth += 1
        sa, sb = st.copy(), st.copy()
        self.learn(sa, c, True)
        self.learn(sb, c, False)
        a = fa(sa)
        b = fb(sb)
        self.cond_depth -= 1
        r = Out()
        if a.norm is not None and b.norm is not None:
            h = self.mheap(c, a.norm.heap, b.norm.heap)
            known = dict(st.known)
            if a.exits() is not FALSE or b.exits() is not FALSE:
                nk = ite(c, neg_b(a.exits()), neg_b(b.exits()))
                r.norm = St(h, known)
                self.learn(r.norm, nk)
            else:
                r.norm = St(h, known)
        elif a.norm is not None:
            r.norm = St(a.norm.heap, a.norm.known)
        elif b.norm is not None:
            r.norm = St(b.norm.heap, b.norm.known)

        def comb(x, y, val):
            if x is None and y is None:
                return None
            if y is None:
                return (band(c, x[0]),) + x[1:]
            if x is None:
                return (band(neg_b(c), y[0]),) + y[1:]
            h = self.mheap(c, x[1], y[1])
            if val:
                return (ite(c, x[0], y[0]), h, self.mval(c, x[2], y[2]))
            return (ite(c, x[0], y[0]), h)
        r.ret = comb(a.ret, b.ret, True)
        r.brk = comb(a.brk, b.brk, False)
        r.cont = comb(a.cont, b.cont, False)
        r.thr = ite(c, a.thr, b.thr)
        return r

    def _stmt(self, s):
        k = s['k']
        st = self.st
        if k == 'block':
            return self.block(s['s'], st)
        if k == 'decl':
            self.decl(s)
            return Out(self.st)
        if k == 'null_s':
            return Out(st)
        if k == 'if':
            pre = []
            if s.get('init'):
                pre.append(s['init'])
            if s.get('cv'):
                pre.append(s['cv'])
            if pre:
                o = self.block(pre, st)
                self.st = o.norm
            c = self.to_bool(self.rv(self.ev(s['c'])))
            n0 = len(self.throws)
            cs = self.simp(c)

            def run(x, cond):
                def f(stt):
                    m = len(self.throws)
                    if x is None:
                        return Out(stt)
                    o = self.exec_stmt(x, stt)
                    self.throws[m:] = [(band(cond, t[0]),) + t[1:] for t in self.throws[m:]]
                    return o
                return f
            return self.branch(cs, run(s['a'], cs), run(s.get('b'), neg_b(cs)))
        if k == 'return':
            v = None
            if s.get('e') is not None:
                v = self.ev(s['e'])
                rt = self.tt(self.fr.fn['ret'])
                if rt['k'] not in ('ref', 'rref') and isinstance(v, (LV, CLV)):
                    q = rt.get('q')
                    if q not in VIEWQ:
                        v = self.rv(v, self.fr.fn['ret'])
                        v = self.fixdims(v, rt)
                elif rt['k'] == 'bool' and isinstance(v, T):
                    v = self.to_bool(v)
                elif rt['k'] == 'rec' and isinstance(v, T):
                    v = self.fixdims(v, rt)
                if isinstance(v, Comma):
                    v = self.rv(v)
            return Out(None, ret=(TRUE, self.st.heap, v))
        if k == 'break':
            return Out(None, brk=(TRUE, st.heap))
        if k == 'continue':
            return Out(None, cont=(TRUE, st.heap))
        if k in ('for', 'while', 'do', 'forrange'):
            return self.loop(s)
        if k == 'switch':
            return self.switch(s)
        if k == 'try':
            return self.try_(s)
        if k == 'opaque':
            self.opq('stmt ' + str(s.get('c')), s)
            return Out(st)
        # expression statement
        self.ev(s)
        return Out(self.st)

    def fixdims(self, v, rt):
        return v

    def try_(self, s):
        m = len(self.throws)
        st0 = self.st.copy()
        o = self.exec_stmt(s['body'], self.st)
        thrown = self.throws[m:]
        if o.thr is FALSE:
            return o
        c = o.thr
        del self.throws[m:]
        h = s['h'][0] if s['h'] else None
        if h is None:
            return o
        if 'd' in h:
            root = ('var', self.fr.id, h['d'])
            st0.heap[root] = mk('obj', 'exception')
            self.fr.vars[h['d']] = LV(root)
        # state at the throw point is approximated by the state before the try
        self.learn(st0, c)
        mark = mk('tried', mk('str', 'try'))
        oh = self.exec_stmt(h['body'], st0)
        rethrow = oh.thr is TRUE and oh.norm is None and oh.ret is None
        if rethrow:
            self.throws[m:] = thrown
            return o
        r = Out()
        oh_thr = oh.thr
        # merge: c -> handler, else -> o
        if o.norm is not None and oh.norm is not None:
            r.norm = St(self.mheap(c, oh.norm.heap, o.norm.heap), {})
        else:
            r.norm = o.norm or oh.norm
        r.thr = band(c, oh_thr)
        r.ret = o.ret
        if oh.ret:
            if o.ret:
                r.ret = (bor(band(c, oh.ret[0]), o.ret[0]), self.mheap(c, oh.ret[1], o.ret[1]), self.mval(c, oh.ret[2], o.ret[2]))
            else:
                r.ret = (band(c, oh.ret[0]),) + oh.ret[1:]
        r.brk = o.brk
        r.cont = o.cont
        return r

    def switch(self, s):
        if s.get('init'):
            o = self.block([s['init']], self.st)
            self.st = o.norm
        v = self.rv(self.ev(s['c']))
        v = self.to_num(v)
        body = s['body']
        items = body['s'] if body['k'] == 'block' else [body]
        # flatten into [(labels, stmts)]
        flat = []

        def addst(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    labels.append(self.rv(self.ev(x['e'])))
                else:
                    labels.append(None)
                x = x['s']
            if labels:
                flat.append((labels, []))
            if x is not None:
                if not flat:
                    flat.append(([], []))
                flat[-1][1].append(x)
        for it in items:
            addst(it)
        allc = [l for ls, _ in flat for l in ls if l is not None]
        none = band(*[neg_b(eq(v, l)) for l in allc])

        def cond(ls):
            return bor(*[none if l is None else eq(v, l) for l in ls])

        def run_from(i):
            def f(st):
                stm = []
                for ls, ss in flat[i:]:
                    stm += ss
                o = self.block(stm, st)
                # break leaves the switch
                if o.brk:
                    if o.norm is None:
                        o.norm = St(o.brk[1], dict(st.known))
                    else:
                        o.norm = St(self.mheap(o.brk[0], o.brk[1], o.norm.heap), dict(st.known))
                    o.brk = None
                return o
            return f

        def chain(i):
            def f(st):
                if i >= len(flat):
                    return Out(st)
                self.st = st
                c = self.simp(cond(flat[i][0])) if flat[i][0] else FALSE
                m = len(self.throws)

                def A(stt):
                    o = run_from(i)(stt)
                    self.throws[m:] = [(band(c, t[0]),) + t[1:] for t in self.throws[m:]]
                    return o

                def B(stt):
                    m2 = len(self.throws)
                    o = chain(i + 1)(stt)
                    self.throws[m2:] = [(band(neg_b(c), t[0]),) + t[1:] for t in self.throws[m2:]]
                    return o
                return self.branch(c, A, B)
            return f
        return chain(0)(self.st)

    # ------------------------------------------------------------ declarations
    def decl(self, s):
        fr = self.fr
        t = self.tt(s['t'])
        root = ('var', fr.id, s['d'])
        if s.get('static'):
            # initialised by the first call ever made: only a constant is known here
            root = ('glob', 'static:%s:%s' % (fr.fn['id'], s['n']))
            fr.vars[s['d']] = LV(root, (), self.cls_of_type(s['t']))
            if root not in self.st.heap:
                v = self.rv(self.ev(s['init'])) if s.get('init') is not None and t.get('const') else None
                if not isinstance(v, T) or not constant(v):
                    v = self.typed(mk('obj', root), s['t'])
                self.st.heap[root] = v
            return
        if t['k'] in ('ref', 'rref'):
            x = self.ev(s['init'])
            if isinstance(x, Comma):
                x = x.lv
            if not isinstance(x, (LV, CLV)):
                x = self.tmp(x if x is not None else self.opq('void ref', s), self.cls_of_type(s['t']))
            fr.vars[s['d']] = x
            return
        if s.get('init') is None:
            v = mk('uninit', s['n'])
            self.typed(v, s['t'])
            if t.get('rows') is not None:
                v = self.eig_default(t)
            self.st.heap[root] = v
            fr.vars[s['d']] = LV(root, (), self.cls_of_type(s['t']))
            return
        x = self.ev(s['init'])
        if isinstance(x, Comma):
            x = self.rv(x)
        if isinstance(x, (LV, CLV)) and t.get('q') in VIEWQ:
            fr.vars[s['d']] = x
            return
        if isinstance(x, Lam):
            fr.vars[s['d']] = x
            return
        v = self.rv(x, s['t'])
        if t['k'] == 'bool':
            v = self.to_bool(v)
        elif t['k'] in ('int', 'float') and isbool(v):
            v = self.to_num(v)
        self.st.heap[root] = self.coerce(v, s['t'])
        fr.vars[s['d']] = LV(root, (), self.cls_of_type(s['t']))

    def coerce(self, v, tid):
        return self.typed(v, tid)

    def eig_default(self, t):
        r = max(t['rows'], 0) if t['rows'] != -1 else 0
        c = max(t['cols'], 0) if t['cols'] != -1 else 0
        return mk('mundef', num(r), num(c))

    # ------------------------------------------------------------ loops
    def loop(self, s):
        from .loops import run_loop
        return run_loop(self, s)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.opq('expr ' + k, n)
        return m(n)

    def val(self, n):
        return self.rv(self.ev(n), n.get('t'))

    def e_int(self, n):
        return num(int(n['v']))

    def e_float(self, n):
        s = n.get('src', '').rstrip('fFlL')
        try:
            return num(Fraction(s if not s.endswith('.') else s + '0'))
        except Exception:
            try:
                return num(Fraction(n['v']))
            except Exception:
                return self.opq('float literal', n)

    def e_bool(self, n):
        return TRUE if n['v'] else FALSE

    def e_str(self, n):
        return mk('str', n['v'])

    def e_null(self, n):
        return NONE

    def e_zero(self, n):
        t = self.tt(n['t'])
        if t['k'] in ('int', 'float', 'enum'):
            return ZERO
        if t['k'] == 'bool':
            return FALSE
        if t['k'] == 'ptr':
            return NONE
        return mk('default', t.get('s', '?'))

    def e_this(self, n):
        f = self.fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            return self.opq('this', n)
        return f.this.addr()

    def thislv(self):
        f = self.fr
        while f is not None and f.this is None:
            f = f.parent
        return f.this if f else None

    def e_enumc(self, n):
        return num(n['v'])

    def e_func(self, n):
        return mk('func', n.get('f') or n.get('q'))

    def e_var(self, n):
        x = self.fr.find(n['d'])
        if x is not None:
            return x
        g = n.get('g')
        if g:
            return self.globalvar(g, n)
        # captured or unknown
        root = ('var', 0, n['d'])
        return LV(root, (), self.cls_of_type(n['t']))

    def globalvar(self, g, n):
        if g == 'humoto::g_infinity':
            t = mk('inf')
            TYPE[t] = 'r'
            return t
        info = self.P.G.get(g)
        if info and info.get('init') is not None and (info.get('const') or (info['init'].get('k') == 'str' and g not in self.P.written_globals())):
            fr = self.fr
            self.fr = Frame(0, None)
            try:
                v = self.rv(self.ev(info['init']))
            finally:
                self.fr = fr
            return v
        if info and info.get('cv') is not None:
            return num(int(info['cv']))
        return LV(('glob', g), (), self.cls_of_type(n['t']))

    def e_mem(self, n):
        b = n['b']
        f = n['q']
        fcls = self.cls_of_type(n['t'])
        t = self.tt(n['t'])
        if b['k'] == 'this':
            lv = self.thislv()
            if lv is None:
                return self.opq('this', n)
        else:
            x = self.ev(b)
            if n.get('arrow'):
                p = self.rv(x, b.get('t'))
                if p.op == 'opaque':
                    return p
                lv = self.deref(p)
            else:
                if not isinstance(x, (LV, CLV)):
                    if isinstance(x, Comma):
                        x = x.lv
                    else:
                        return self.typed(fld(x, f), n['t'])
                lv = x
        # fields of std::pair inside iterators
        if f in ('std::pair::second', 'std::pair::first') and isinstance(lv, LV) and lv.path and lv.path[-1][0] == 'mk':
            if f.endswith('second'):
                return lv
            return lv.path[-1][1]
        r = lv.sub(('f', f), fcls)
        # reference members: follow
        ft = self.tt(n['t'])
        v = self.load(r)
        if isinstance(v, T) and v.op == 'refto':
            return LV(v.args[0], v.args[1])
        self.typed(v, n['t'])
        return r

    def e_cast(self, n):
        ck = n['ck']
        e = n['e']
        x = self.ev(e)
        t = self.tt(n['t'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'BitCast', 'LValueBitCast'):
            return x
        if ck == 'Dynamic':
            if isinstance(x, LV) and x.cls and t['k'] == 'rec':
                to = self.cls_of_type(n['t'])
                if to and (to == x.cls or to in self.P.ancestors(x.cls)):
                    return x
            p = self.rv(x, e.get('t'))
            r = mk('dyncast', p, t.get('s', '?'))
            TYPE[r] = 'p'
            return r
        if ck == 'ToVoid':
            return mk('void')
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NONE
        v = self.rv(x, e.get('t'))
        if not isinstance(v, T):
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            if ck == 'PointerToBoolean':
                return neg_b(eq(v, NONE))
            return self.to_bool(v)
        if ck == 'FloatingToIntegral':
            return trunc(v) if v.op != 'opaque' else v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast'):
            return self.to_num(v) if v.op != 'opaque' else v
        if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion':
            return v
        return v

    def e_un(self, n):
        op = n['op']
        e = n['e']
        if op in ('++', '--'):
            lv = self.ev(e)
            old = self.rv(lv, e.get('t'))
            d = ONE if op == '++' else num(-1)
            if not isinstance(lv, (LV, CLV)) or old.op == 'opaque':
                return self.opq('incdec', n)
            if old.op == 'it':
                new = mk('it', old.args[0], add(old.args[1], d))
            else:
                new = add(self.to_num(old), d)
            self.store(lv, new)
            return old if n.get('post') else lv
        if op == '*':
            p = self.val(e)
            if p.op == 'opaque':
                return p
            return self.deref(p)
        if op == '&':
            x = self.ev(e)
            if isinstance(x, (LV, CLV)):
                return x.addr()
            if isinstance(x, T) and x.op == 'func':
                return x
            return self.opq('addrof', n)
        v = self.val(e)
        if v.op == 'opaque':
            return v
        if op == '-':
            return neg(self.to_num(v))
        if op == '+':
            return v
        if op == '!':
            return neg_b(self.to_bool(v))
        return self.opq('unary ' + op, n)

    ASG = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '&=': '&', '|=': '|', '^=': '^', '<<=': '<<', '>>=': '>>'}

    def e_bin(self, n):
        op = n['op']
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op in ('&&', '||'):
            a = self.simp(self.to_bool(self.val(n['a'])))
            if op == '&&' and a is FALSE:
                return FALSE
            if op == '||' and a is TRUE:
                return TRUE
            if a in (TRUE, FALSE):
                return self.to_bool(self.val(n['b']))
            g = a if op == '&&' else neg_b(a)
            b = self.under(g, lambda: self.to_bool(self.val(n['b'])))
            return band(a, b) if op == '&&' else bor(a, b)
        if op == '=':
            v = self.ev(n['b'])
            lv = self.ev(n['a'])
            v = self.rv(v, n['b'].get('t'))
            v = self.conv(v, n['a'].get('t'))
            if not isinstance(lv, (LV, CLV)):
                return self.opq('assign', n)
            self.store(lv, v)
            return lv
        if op in self.ASG:
            lv = self.ev(n['a'])
            a = self.rv(lv, n['a'].get('t'))
            b = self.val(n['b'])
            v = self.arith(self.ASG[op], a, b, n['a'].get('t'), n['b'].get('t'), n)
            if self.tt(n['a'].get('t'))['k'] == 'int' and v.op != 'opaque' and self.tt(n['b'].get('t'))['k'] == 'float':
                v = trunc(v)
            if not isinstance(lv, (LV, CLV)):
                return self.opq('assign', n)
            self.store(lv, v)
            return lv
        a = self.val(n['a'])
        b = self.val(n['b'])
        return self.arith(op, a, b, n['a'].get('t'), n['b'].get('t'), n)

    def conv(self, v, tid):
        t = self.P.strip(tid)
        if not isinstance(v, T):
            return v
        if t['k'] == 'bool':
            return self.to_bool(v)
        if t['k'] in ('int', 'float') and isbool(v):
            return self.to_num(v)
        return v

    def under(self, g, f):
        """evaluate f when g holds; heap effects are gated"""
        st = self.st
        h0 = dict(st.heap)
        k0 = dict(st.known)
        self.learn(st, g)
        self.gate.append(g)
        self.cond_depth += 1
        try:
            v = f()
        finally:
            self.gate.pop()
            self.cond_depth -= 1
        st = self.st
        if any(st.heap.get(r) is not x for r, x in h0.items()) or len(st.heap) != len(h0):
            st.heap = self.mheap(g, st.heap, h0)
        st.known = k0
        self.st = st
        return v

    def arith(self, op, a, b, ta, tb, n):
        if not isinstance(a, T) or not isinstance(b, T):
            return self.opq('arith', n)
        if a.op == 'mdata' and op in ('+', '-') and numericish(b):
            return mk('mdata', a.args[0], add(a.args[1], b) if op == '+' else sub(a.args[1], b), *a.args[2:])
        if op in ('==', '!='):
            if a.op == 'opaque' or b.op == 'opaque':
                return self.opq('cmp', n)
            if a.op == 'it' and b.op == 'it':
                r = eq(a.args[1], b.args[1]) if a.args[0] is b.args[0] else mk('eq', a, b)
            elif isbool(a) != isbool(b) and (numericish(a) or numericish(b)):
                r = eq(self.to_num(a), self.to_num(b))
            else:
                r = eq(a, b)
            return r if op == '==' else neg_b(r)
        if a.op == 'opaque' or b.op == 'opaque':
            return self.opq('arith', n)
        if a.op == 'it' or b.op == 'it':
            if op in ('+', '-') and a.op == 'it' and b.op != 'it':
                return mk('it', a.args[0], add(a.args[1], b if op == '+' else neg(b)))
            if op == '-' and a.op == 'it' and b.op == 'it':
                return sub(a.args[1], b.args[1])
            if op in ('<', '>', '<=', '>=') and a.op == 'it' and b.op == 'it':
                a, b = a.args[1], b.args[1]
            else:
                return self.opq('iter arith', n)
        a, b = self.to_num(a), self.to_num(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            x, y = self.P.strip(ta), self.P.strip(tb)
            if x['k'] in ('int', 'bool', 'enum') and y['k'] in ('int', 'bool', 'enum'):
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            return imod(a, b)
        if op == '<':
            return lt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>':
            return lt(b, a)
        if op == '>=':
            return le(b, a)
        if is_num(a) and is_num(b) and op in ('&', '|', '^', '<<', '>>'):
            x, y = int(a.args[0]), int(b.args[0])
            return num({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
        t = mk('fn', 'op' + op, (a, b))
        TYPE[t] = 'i'
        return t

    def e_cond(self, n):
        c = self.simp(self.to_bool(self.val(n['c'])))
        if c is TRUE:
            return self.ev(n['a'])
        if c is FALSE:
            return self.ev(n['b'])

        def side(x):
            v = self.ev(x)
            return v
        a = self.under(c, lambda: side(n['a']))
        b = self.under(neg_b(c), lambda: side(n['b']))
        if not (isinstance(a, (LV, CLV)) and isinstance(b, (LV, CLV))):
            a, b = self.rv(a, n['a'].get('t')), self.rv(b, n['b'].get('t'))
        return self.mval(c, a, b)

    def e_idx(self, n):
        b = self.ev(n['b'])
        i = self.val(n['i'])
        if isinstance(b, LV):
            v = self.load(b)
            if v.op == 'mdata' and v.args[3].op == 'addr' and (v.args[0].op != 'emat' or 1 in v.args[0].args[:2]):
                return self.deref(v.args[3]).sub(('i', add(v.args[1], i)))
            if v.op == 'addr' or TYPE.get(v) == 'p':
                lv = self.deref(v)
                return lv.sub(('i', i))
            return b.sub(('i', i), self.cls_of_type(n['t']))
        if isinstance(b, T):
            if b.op == 'addr':
                return self.deref(b).sub(('i', i))
            return vsel(b, i)
        return self.opq('index', n)

    def e_ilist(self, n):
        t = self.tt(n['t'])
        vals = [self.val(x) for x in n['e']]
        if t['k'] == 'rec' and t.get('key') in self.P.C:
            c = self.P.C[t['key']]
            d = {}
            for f, v in zip(c['fields'], vals):
                d[c['q'] + '::' + f['n']] = v
            return rec(mk('default', c['q']), d)
        if t['k'] in ('int', 'float', 'enum', 'ptr', 'bool') and len(vals) == 1:
            return vals[0]
        r = mk('vlist', tuple(vals))
        TYPE[r] = 'v'
        return r

    def e_new(self, n):
        et = self.tt(n['et'])
        cls = self.cls_of_type(n['et'])
        self.ntmp += 1
        root = ('heap', self.ntmp, et['s'])
        if n.get('n') is not None:
            v = mk('vresize', mk('vempty'), self.val(n['n']), mk('undef'))
        elif n.get('init') is not None:
            v = self.rv(self.ev(n['init']))
        else:
            v = mk('default', et.get('s', '?'))
        self.st.heap[root] = v
        lv = LV(root, (), cls)
        return lv.addr()

    def e_delete(self, n):
        p = self.val(n['e'])
        self.event('delete', (p,))
        return mk('void')

    def e_throw(self, n):
        text = ''
        m = len(self.throws)
        if n.get('e') is not None:
            for x in walk(n['e']):
                if x.get('k') == 'str' and len(x['v']) > len(text):
                    text = x['v']
        self.throw(TRUE, '%s:%s' % (self.P.rel(self.fr.fn) if self.fr.fn else '?', n.get('l')), text)
        return mk('void')

    def e_lambda(self, n):
        return Lam(n['f'], self.fr)

    def e_typeid(self, n):
        return mk('typeid')

    def e_opaque(self, n):
        return self.opq('expr ' + str(n.get('c')), n)

    # ------------------------------------------------------------ events
    def event(self, name, args):
        if not self.events:
            return
        e = self.st.heap.get('$ev', mk('vempty'))
        self.st.heap['$ev'] = mk('vpush', e, mk('ev', name, tuple(a if isinstance(a, T) else mk('str', str(a)) for a in args)))

    # ------------------------------------------------------------ calls
    def e_ctor(self, n):
        t = self.tt(n['t'])
        q = n.get('q', '')
        args = n.get('args', [])
        if n.get('copy') and len(args) == 1:
            f = self.P.F.get(n.get('f', ''))
            if not (f and 'body' in f and not f.get('defaulted') and not f.get('implicit')):
                x = self.ev(args[0])
                if t.get('q') in VIEWQ:
                    return x
                v = self.rv(x, args[0].get('t'))
                return v
        if n.get('repo'):
            if self.skipped(q):
                return mk('default', t.get('q', '?'))
            f = self.P.F.get(n.get('f'))
            lv = self.tmp(mk('default', t.get('q', '?')), t.get('key'))
            self.construct(lv, f, n, args)
            v = self.load(lv)
            self.st.heap.pop(lv.root, None)
            return v
        from . import lib
        return lib.ctor(self, n, t, q, args)

    def construct(self, lv, f, n, args, argvals=None):
        """run a repository constructor on the object lv"""
        if f is None:
            return
        if argvals is None:
            argvals = [self.bindarg(a, None) for a in args]
        if f.get('defaulted') and len(f['params']) == 1 and f.get('n') and argvals:
            self.store(lv, self.rv(argvals[0]))
            return
        self.call_body(f, lv, argvals, n, ctor=True)

    def skipped(self, q):
        for s in self.skip:
            if q.startswith(s):
                return True
        return False

    def bindarg(self, a, ptid):
        """argument expression -> LV or value, by parameter type"""
        x = self.ev(a)
        if isinstance(x, Comma):
            x = x.lv
        if isinstance(x, T):
            x = self.typed(x, a.get('t'))
        elif isinstance(x, LV):
            self.load(x, a.get('t'))
        return x

    def call_body(self, f, this, argvals, n, ctor=False):
        """inline a function; returns its value (T / LV / None)"""
        if self.depth >= self.maxdepth:
            return self.opq('inline depth ' + f['q'], n)
        self.analysed.add(f['id'])
        self.nframe += 1
        fr = Frame(self.nframe, f, this)
        saved = self.fr
        for p, a in zip(f['params'], argvals):
            pt_ = self.tt(p['t'])
            if pt_['k'] in ('ref', 'rref'):
                if not isinstance(a, (LV, CLV)):
                    if isinstance(a, Lam):
                        fr.vars[p['d']] = a
                        continue
                    a = self.tmp(a, self.cls_of_type(p['t']))
                fr.vars[p['d']] = a
                self.load(a, p['t'])
            else:
                if isinstance(a, Lam):
                    fr.vars[p['d']] = a
                    continue
                if isinstance(a, (LV, CLV)) and pt_.get('q') in VIEWQ:
                    fr.vars[p['d']] = a
                    continue
                v = self.rv(a, p['t'])
                v = self.conv(v, p['t'])
                root = ('var', fr.id, p['d'])
                self.st.heap[root] = v
                fr.vars[p['d']] = LV(root, (), self.cls_of_type(p['t']))
        # lambdas see their defining frame
        if isinstance(this, Lam):
            fr.this = None
            fr.parent = this.frame
        self.fr = fr
        self.depth += 1
        gate = self.gate
        m = len(self.throws)
        gcond = band(*gate)
        try:
            if ctor:
                self.run_inits(f, this)
            body = f.get('body')
            if body is None:
                return None
            st = self.st
            o = self.exec_stmt(body, st)
            thr = o.thr
            if thr is not FALSE:
                self.throws[m:] = [(band(gcond, t[0]),) + t[1:] for t in self.throws[m:]]
                self.pend[-1] = bor(self.pend[-1], band(gcond, thr))
            if o.ret is None:
                if o.norm is None:
                    # always throws
                    self.st = st
                    return self.opq_throw(f, n)
                self.st = o.norm
                val = None
            elif o.norm is None:
                self.st = St(o.ret[1], dict(st.known))
                val = o.ret[2]
            else:
                self.st = St(self.mheap(o.ret[0], o.ret[1], o.norm.heap), dict(st.known))
                val = o.ret[2]
            if thr is not FALSE and thr is not TRUE:
                self.learn(self.st, thr, False)
            # drop dead locals
            h = self.st.heap
            for r in [r for r in h if isinstance(r, tuple) and r[0] == 'var' and r[1] == fr.id]:
                if not (isinstance(val, LV) and val.root == r):
                    if not (isinstance(val, T) and val.op in ('addr', 'it')):
                        del h[r]
            if isinstance(val, T):
                val = self.typed(val, f['ret'])
            return val
        finally:
            self.fr = saved
            self.depth -= 1

    def opq_throw(self, f, n):
        t = mk('thrown')
        return t

    def run_inits(self, f, this):
        for i in f.get('inits', ()):
            e = i['e']
            if 'field' in i:
                c = self.P.C.get(f['cls'])
                fq = (c['q'] if c else f['clsq']) + '::' + i['field']
                ft = None
                if c:
                    for fd in c['fields']:
                        if fd['n'] == i['field']:
                            ft = fd['t']
                x = self.ev(e)
                lv = this.sub(('f', fq))
                if ft is not None and self.tt(ft)['k'] in ('ref', 'rref'):
                    if isinstance(x, LV):
                        self.store(lv, mk('refto', x.root, x.path))
                    continue
                v = self.rv(x, e.get('t'))
                if ft is not None:
                    v = self.conv(v, ft)
                self.store(lv, v)
            else:
                # base or delegating constructor: same object
                if e['k'] == 'ctor':
                    if e.get('repo'):
                        g = self.P.F.get(e.get('f'))
                        if g is not None:
                            if self.skipped(e.get('q', '')):
                                continue
                            self.construct(this, g, e, e.get('args', []))
                    # external bases: ignored
                else:
                    self.ev(e)

    def e_call(self, n):
        q = n.get('q')
        if q is None:
            # call through an expression
            fn_ = n.get('fn')
            x = self.ev(fn_) if fn_ else None
            if isinstance(x, Lam):
                f = self.P.F.get(x.f)
                return self.call_body(f, x, [self.bindarg(a, None) for a in n['args']], n)
            return self.opq('indirect call', n)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, n)
            if r is not NotImplemented:
                return r
        if n.get('repo'):
            return self.repo_call(n, q)
        from . import lib
        return lib.call(self, n, q)

    def objlv(self, n):
        """the object of a member call as LV (or value)"""
        o = n['obj']
        if o['k'] == 'this':
            return self.thislv()
        x = self.ev(o)
        if isinstance(x, Comma):
            x = x.lv
        if n.get('arrow') and not n.get('op'):
            p = self.rv(x, o.get('t'))
            if p.op == 'opaque':
                return p
            return self.deref(p)
        return x

    def repo_call(self, n, q):
        f = self.P.F.get(n['f'])
        this = None
        if self.skipped(q):
            for a in n['args']:
                pass
            rt = self.tt(n['t'])
            if 'obj' in n and n['obj']['k'] != 'this' and self.cls_matches(rt, n):
                return self.ev(n['obj'])
            return self.typed(mk('skip', q), n.get('t'))
        if 'obj' in n:
            this = self.objlv(n)
            if isinstance(this, Lam):
                g = self.P.F.get(this.f)
                return self.call_body(g, this, [self.bindarg(a, None) for a in n['args']], n)
            if isinstance(this, T):
                if this.op == 'opaque':
                    for a in n['args']:
                        self.ev(a)
                    return self.opq('call on opaque ' + q, n)
                this = self.tmp(self.typed(this, n['obj'].get('t')), self.cls_of_type(n['obj'].get('t')))
        args = [self.bindarg(a, None) for a in n['args']]
        if f is None:
            return self.opq('no decl ' + q, n)
        return self.invoke(f, this, args, n)

    def cls_matches(self, rt, n):
        return rt['k'] in ('ref',)

    def invoke(self, f, this, args, n):
        q = f['q']
        if self.objhook is not None and this is not None and not isinstance(this, Lam):
            r = self.objhook(self, f, this, args, n)
            if r is not NotImplemented:
                return r
        if f.get('virt') and not n.get('qual') and this is not None and not isinstance(this, Lam):
            cls = this.cls if isinstance(this, LV) else None
            if cls is None and isinstance(this, LV) and not this.path:
                cls = CLS.get(this.root)
            g = None
            if cls is not None:
                g = self.P.resolve(cls, f['id'])
            if g is not None:
                f = g
                q = f['q']
            else:
                # no class below overrides it -> static target is exact
                self.unresolved.add(q)
                return self.uninterp(n, f['n'], this, args, f)
        if q in self.opaque_fns or f['n'] in self.opaque_fns:
            return self.uninterp(n, f['n'], this, args, f)
        if 'body' not in f:
            if f.get('defaulted') and f['n'] == 'operator=':
                self.store(this, self.rv(args[0], n['args'][0].get('t') if n.get('args') else None))
                return this
            return self.uninterp(n, f['n'], this, args, f)
        if f.get('defaulted') or f.get('implicit'):
            if f['n'] == 'operator=' and args:
                self.store(this, self.rv(args[0]))
                return this
        return self.call_body(f, this, args, n)

    def uninterp(self, n, name, this, args, f=None, mut=None):
        """uninterpreted call: result and mutated arguments are functions of the inputs"""
        vals = []
        for a, an in zip(args, n.get('args', []) if n else [None] * len(args)):
            v = self.rv(a, an.get('t') if an else None)
            if isinstance(v, Lam):
                v = mk('func', v.f)
            if v is None:
                v = NONE
            vals.append(v)
        vals = tuple(vals)
        tv = ()
        if this is not None and not isinstance(this, Lam):
            tv = (self.rv(this),)
        call = (name,) + tv + vals
        self.event(name, tuple(v for v in tv + vals))
        if mut is None:
            if f is not None:
                mut = []
                for p in f['params']:
                    t = self.tt(p['t'])
                    mut.append(1 if t['k'] in ('ref', 'ptr') and not self.tt(t['to']).get('const') else 0)
            else:
                mut = n.get('pm', []) if n else []
        for i, (a, m) in enumerate(zip(args, mut)):
            if not m:
                continue
            lv = a
            if isinstance(a, T) and a.op == 'addr':
                lv = self.deref(a)
            if isinstance(lv, LV):
                o = mk('out', i, call)
                old = self.load(lv)
                if isinstance(old, T):
                    copytype_(old, o)
                self.store(lv, o)
            elif isinstance(a, LV) is False and isinstance(a, T) and TYPE.get(a) == 'p':
                pass
        cm = f.get('const') if f is not None else (n or {}).get('cm')
        static = f.get('static') if f is not None else (n or {}).get('static')
        if this is not None and not cm and not static and isinstance(this, LV):
            o = mk('out', 'this', call)
            copytype_(tv[0], o)
            self.store(this, o)
        r = mk('call', call)
        tid = n.get('t') if n else (f['ret'] if f else None)
        rt = self.tt(f['ret']) if f is not None else self.tt(tid)
        if f is not None:
            tid = f['ret']
        if rt['k'] in ('ref',):
            root = ('deref', r)
            # reference result: an object identified by the call
            return LV(root, (), None)
        if rt['k'] == 'void':
            return mk('void')
        return self.typed(r, tid)


def copytype_(old, o):
    if old in TYPE:
        TYPE.setdefault(o, TYPE[old])
        if TYPE[old] == 'm' and o not in DIMS:
            d = DIMS.get(old)
            if d:
                DIMS[o] = tuple(x if is_num(x) else mk('rows' if i == 0 else 'cols', o) for i, x in enumerate(d))
        if ('el', old) in TYPE:
            TYPE[('el', o)] = TYPE[('el', old)]
    elif is_mat(old):
        TYPE.setdefault(o, 'm')


def vsto(v, i, x):
    if v.op == 'opaque':
        return v
    if v.op == 'vsto' and v.args[1] is i:
        v = v.args[0]
    if v.op == 'vlist' and is_num(i):
        L = list(v.args[0])
        k = int(i.args[0])
        if 0 <= k < len(L):
            L[k] = x
            t = mk('vlist', tuple(L))
            TYPE[t] = 'v'
            return t
    if v.op == 'vpush':
        n = vsize(v.args[0])
        c = eq(i, n)
        if c is TRUE:
            return mk('vpush', v.args[0], x)
    t = mk('vsto', v, i, x)
    TYPE[t] = 'v'
    return t


def mapget(m, k):
    if m.op == 'mapset':
        c = eq(k, m.args[1])
        return ite(c, m.args[2], mapget(m.args[0], k))
    if m.op == 'ite':
        return ite(m.args[0], mapget(m.args[1], k), mapget(m.args[2], k))
    return mk('mapget', m, k)


def maphas(m, k):
    if m.op == 'mapset':
        return bor(eq(k, m.args[1]), maphas(m.args[0], k))
    if m.op == 'mapempty':
        return FALSE
    if m.op == 'ite':
        return ite(m.args[0], maphas(m.args[1], k), maphas(m.args[2], k))
    t = mk('maphas', m, k)
    TYPE[t] = 'b'
    return t


def mapset(m, k, v):
    if m.op == 'mapset' and m.args[1] is k:
        m = m.args[0]
    return mk('mapset', m, k, v)


BUILDERS.update({'mapget': mapget, 'maphas': maphas, 'vsto': vsto})
