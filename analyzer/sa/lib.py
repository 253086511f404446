"""Meaning of the standard-library, boost and Eigen operations used."""
from .terms import *
from . import terms as tm
from .mat import *
from .evalr import LV, CLV, Comma, Lam, VIEWQ, SEQQ, PTRQ, CLS, mapget, maphas, mapset, vsto, copytype_

STREAMISH = ('std::basic_ostream', 'std::basic_ios', 'std::basic_stringstream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::ostream')


def isq(q, *pre):
    return any(q.startswith(p) for p in pre)


# --------------------------------------------------------------- constructors
def ctor(ev, n, t, q, args):
    h = getattr(ev, 'ctorhook', None)
    if h is not None:
        r = h(ev, n, t, q, args)
        if r is not NotImplemented:
            return r
    if t.get('rows') is not None and isq(q, 'Eigen::Matrix', 'Eigen::Array', 'Eigen::PlainObjectBase'):
        return eig_ctor(ev, n, t, args)
    if isq(q, 'Eigen::'):
        vals = [ev.ev(a) for a in args]
        if isq(q, 'Eigen::AngleAxis') and len(vals) == 2:
            return rotation(ev.rv(vals[0]), ev.rv(vals[1]))
        if isq(q, 'Eigen::Rotation2D') and len(vals) == 1:
            a = ev.rv(vals[0])
            if is_mat(a):
                return a
            c, s = fn('cos', a), fn('sin', a)
            return mk('emat', 2, 2, (c, neg(s), s, c))
        if isq(q, 'Eigen::AngleAxis', 'Eigen::Quaternion') and len(vals) == 1 and is_mat(ev.rv(vals[0])) and dims(ev.rv(vals[0]))[1] is num(3):
            return ev.rv(vals[0])
        if t.get('q') in VIEWQ and len(vals) == 1:
            return vals[0]
        if t.get('q') == 'Eigen::Map':
            a = [ev.rv(x) for x, y in zip(vals, args) if not y.get('dflt')]
            r = map_view(ev, n, a) if len(a) in (3, 4) and a[0].op == 'mdata' else None
            if r is not None:
                return r
        if t.get('q') in ('Eigen::Block', 'Eigen::VectorBlock') and len(vals) >= 3 and isinstance(vals[0], (LV, CLV)):
            a = [ev.rv(x) for x in vals[1:]]
            acc = None
            if len(a) == 4:
                acc = ('blk',) + tuple(a)
            elif len(a) == 2 and t.get('q') == 'Eigen::VectorBlock':
                acc = ('blk', a[0], ZERO, a[1], ONE)
            elif len(a) == 2 and t['rows'] > 0 and t['cols'] > 0:
                acc = ('blk', a[0], a[1], num(t['rows']), num(t['cols']))
            if acc:
                inside(ev, ev.load(vals[0]), acc)
                return vals[0].sub(acc)
        if t.get('q') == 'Eigen::Stride' and len(vals) == 2:
            return mk('stride', ev.rv(vals[0]), ev.rv(vals[1]))
        if t.get('q') == 'Eigen::PermutationWrapper' and len(vals) == 1:
            r = permutation(ev.rv(vals[0]), ev)
            if r is not None:
                return r
        r = mk('call', (q,) + tuple(ev.rv(v) for v in vals))
        return ev.typed(r, n['t'])
    k = t.get('q', '')
    if isq(q, 'std::vector', 'std::list', 'std::deque', 'std::stack', 'std::queue'):
        vals = [ev.val(a) for a in args if not a.get('dflt')]
        if not vals:
            return mk('vempty')
        if len(vals) == 1 and numericish(vals[0]):
            return mk('vresize', mk('vempty'), vals[0], default_of(ev, t))
        if len(vals) == 1:
            return vals[0]
        if len(vals) == 2 and numericish(vals[0]) and vals[0].op != 'it':
            return mk('vresize', mk('vempty'), vals[0], vals[1])
        if len(vals) == 2 and vals[0].op == 'it' and vals[1].op == 'it' and vals[0].args[0] is vals[1].args[0]:
            src = ev.load(ev.deref(vals[0].args[0]))
            if vals[0].args[1] is ZERO and vals[1].args[1] is vsize(src):
                return src
        return ev.opq('ctor ' + q, n)
    if isq(q, 'std::map', 'std::set'):
        return mk('mapempty')
    if k in PTRQ:
        if not args:
            return NONE
        v = ev.val(args[0])
        return v
    if isq(q, 'std::basic_string::'):
        vals = [ev.val(a) for a in args if not a.get('dflt')]
        if not vals:
            return mk('str', '')
        return vals[0]
    if isq(q, '__gnu_cxx::__normal_iterator', 'std::_List_', 'std::_Deque_iterator', 'std::_Rb_tree'):
        if len(args) == 1:
            return ev.val(args[0])
        return NONE
    if isq(q, 'std::pair'):
        vals = [ev.val(a) for a in args]
        if len(vals) == 2:
            return rec(mk('default', 'std::pair'), {'std::pair::first': vals[0], 'std::pair::second': vals[1]})
        if len(vals) == 1:
            return vals[0]
    if isq(q, 'std::runtime_error', 'std::logic_error', 'std::exception', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::allocator'):
        return mk('default', k)
    vals = tuple(v if isinstance(v, T) else mk('func', 'lambda') for v in [ev.val(a) for a in args])
    ev.event('ctor ' + q, vals)
    r = mk('call', ('ctor ' + q,) + vals)
    return ev.typed(r, n['t'])


def default_of(ev, t):
    a = t.get('args') or []
    if a and a[0] and 't' in a[0]:
        et = ev.tt(a[0]['t'])
        if et['k'] in ('int', 'float', 'enum'):
            return ZERO
        if et['k'] == 'bool':
            return FALSE
        if et.get('q') in SEQQ:
            return mk('vempty')
        if 'rows' in et:
            return ev.eig_default(et)
        if et.get('key') in ev.P.C:
            c = ev.P.C[et['key']]
            for m in c['methods']:
                f = ev.P.F.get(m)
                if f and f.get('ctor') and all('def' in p for p in f['params']) and 'body' in f:
                    lv = ev.tmp(mk('default', c['q']), et['key'])
                    ev.construct(lv, f, {'l': 0}, [], [ev.bindarg(p['def'], None) for p in f['params']])
                    v = ev.load(lv)
                    ev.st.heap.pop(lv.root, None)
                    return v
            return mk('default', c['q'])
    return mk('undef')


ROTQ = ('Eigen::AngleAxis', 'Eigen::Quaternion', 'Eigen::Rotation2D')


def rotation(angle, axis):
    """an axis-angle object is represented by its rotation matrix (Rodrigues' formula; the axis is a unit vector)"""
    a = [elem(axis, num(i), ZERO) for i in range(3)]
    c, s = fn('cos', angle), fn('sin', angle)
    k = sub(ONE, c)
    K = [[ZERO, neg(a[2]), a[1]], [a[2], ZERO, neg(a[0])], [neg(a[1]), a[0], ZERO]]
    return mk('emat', 3, 3, tuple(add(mul(k, a[i], a[j]), mul(s, K[i][j]), c if i == j else ZERO) for i in range(3) for j in range(3)))


def concrete(t):
    return int(t.args[0]) if t.op == 'num' and t.args[0] == int(t.args[0]) else None


def permutation(ix, ev=None):
    """dense form of a permutation given by a vector of known indices: row ix[i] of P*M is row i of M"""
    n = concrete(dims(ix)[0])
    if n is None or dims(ix)[1] is not ONE or n > 100:
        return None
    v = [concrete(elem(ix, num(i), ZERO)) for i in range(n)]
    if sorted(x if x is not None else -1 for x in v) != list(range(n)):
        if ev is not None and None not in v:
            ev.throw(TRUE, '?', 'not a permutation')
        return None
    L = [ZERO] * (n * n)
    for i in range(n):
        L[v[i] * n + i] = ONE
    return mk('emat', n, n, tuple(L))


def rowmajor(ev, t):
    """storage order of the matrices given by a map"""
    if ev.P.strip(t).get('q') == 'Eigen::Matrix':
        o = (ev.P.strip(t).get('args') or [])[3:4]
        return bool(o and o[0] and o[0].get('v', 0) & 1)
    for x in ev.tt(t).get('args', [])[:1]:
        m = ev.tt(x['t']) if x and 't' in x else {}
        o = (m.get('args') or [])[3:4]
        return bool(o and o[0] and o[0].get('v', 0) & 1)
    return False


def map_view(ev, n, a):
    row = rowmajor(ev, n['t'])
    st = a[3] if len(a) == 4 else mk('stride', a[2] if row else a[1], ONE)
    return mapped(a[0].args[0], a[0].args[1], a[1], a[2], *st.args, row=row, src=a[0].args[2]) if st.op == 'stride' else None


def mapped(v, off, r, c, outer, inner, row=False, src='col'):
    """matrix over the storage of another one"""
    R, C = dims(v)
    k = [concrete(x) for x in (R, C, off, r, c, outer, inner)]
    if None in k:
        return None
    R, C, off, r, c, outer, inner = k
    L = []
    for i in range(r):
        for j in range(c):
            f = off + (i * outer + j * inner if row else i * inner + j * outer)
            if f < 0 or f >= R * C:
                return None
            L.append(elem(v, num(f % R), num(f // R)) if src == 'col' else elem(v, num(f // C), num(f % C)))
    return mk('emat', r, c, tuple(L))


def eig_ctor(ev, n, t, args):
    R, C = t['rows'], t['cols']
    args = [a for a in args if not a.get('dflt')]
    if not args:
        return ev.eig_default(t)
    vals = [ev.val(a) for a in args]
    if len(vals) == 1:
        v = vals[0]
        if is_mat(v):
            return v
        if v.op == 'opaque':
            return v
        if numericish(v):
            if R == 1 and C == 1:
                return mk('emat', 1, 1, (v,))
            if C == 1 and R == -1:
                return mk('mundef', v, ONE)
            if R == 1 and C == -1:
                return mk('mundef', ONE, v)
        if TYPE.get(v) == 'm':
            return v
        r = mk('call', ('Eigen::Matrix', v))
        return ev.typed(r, n['t'])
    if R > 0 and C > 0 and R * C == len(vals):
        return mk('emat', R, C, tuple(vals))
    if len(vals) == 2 and R > 0 and C > 0 and vals[0] is num(R) and vals[1] is num(C):
        return ev.eig_default(t)
    if len(vals) == 2 and (R == -1 or C == -1):
        return mk('mundef', vals[0], vals[1])
    return ev.opq('eigen ctor', n)


# --------------------------------------------------------------- calls
MATHFN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqrt': 'sqrt', 'pow': 'pow', 'fabs': 'abs', 'abs': 'abs', 'cosh': 'cosh', 'sinh': 'sinh',
          'exp': 'exp', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'min': 'min', 'max': 'max', 'fmin': 'min', 'fmax': 'max', 'atan2': 'atan2', 'tanh': 'tanh', 'acos': 'acos', 'asin': 'asin', 'log': 'log', 'fmod': 'fmod'}


def call(ev, n, q):
    op = n.get('op')
    args = n.get('args', [])
    base = q.split('::')[-1]
    h = getattr(ev, 'libhook', None)
    if h is not None:
        r = h(ev, n, q, base, op, args)
        if r is not NotImplemented:
            return r
    # streams: formatting has no modelled effect
    if op in ('<<', '>>') and not isq(q, 'Eigen::DenseBase'):
        rt = ev.P.strip(n['t'])
        first = n['obj'] if 'obj' in n else args[0]
        if isq(ev.P.strip(first['t']).get('q', ''), 'std::basic_', 'std::ios'):
            if op == '<<':
                return ev.ev(first)
    if q in MATHFN or (isq(q, 'std::') and q.count('::') == 1 and base in MATHFN):
        vals = [ev.val(a) for a in args]
        if any(v.op == 'opaque' for v in vals):
            return ev.opq(q, n)
        if all(numericish(ev.to_num(v)) for v in vals) and len(vals) <= 2:
            name = MATHFN[base]
            if name in ('floor', 'ceil', 'round') and is_int(vals[0]):
                return vals[0]
            return fn(name, *[ev.to_num(v) for v in vals])
    if isq(q, 'Eigen::'):
        return eigen(ev, n, q, base, op, args)
    if isq(q, 'std::numeric_limits'):
        t = mk('fn', 'limits_' + base + ':' + ev.P.strip(n['t']).get('s', ''), ())
        if base == 'infinity':
            t = mk('inf')
            TYPE[t] = 'r'
            return t
        lim = {'unsigned int': (0, 2 ** 32 - 1), 'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned long': (0, 2 ** 64 - 1), 'long': (-2 ** 63, 2 ** 63 - 1)}.get(ev.P.strip(n['t']).get('s', ''))
        if lim and base in ('min', 'max', 'lowest'):
            return num(lim[base == 'max'])
        ev.typed(t, n['t'])
        return t
    if isq(q, 'std::move', 'std::forward') and len(args) == 1:
        return ev.ev(args[0])
    if q == 'std::make_pair' and len(args) == 2:
        a, b = ev.val(args[0]), ev.val(args[1])
        return rec(mk('default', 'std::pair'), {'std::pair::first': a, 'std::pair::second': b})
    if isq(q, 'std::swap') and len(args) == 2:
        a, b = ev.ev(args[0]), ev.ev(args[1])
        if isinstance(a, LV) and isinstance(b, LV):
            x, y = ev.load(a), ev.load(b)
            ev.store(a, y)
            ev.store(b, x)
            return mk('void')
    if isq(q, 'std::vector::', 'std::list::', 'std::deque::', 'std::queue::', 'std::stack::', 'std::array::'):
        r = seq(ev, n, q, base, op, args)
        if r is not None:
            return r
    if isq(q, 'std::map::'):
        r = map_(ev, n, q, base, op, args)
        if r is not None:
            return r
    if isq(q, 'boost::shared_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'boost::scoped_ptr'):
        return sptr(ev, n, q, base, op, args)
    if isq(q, 'std::make_shared', 'boost::make_shared'):
        rt = ev.P.strip(n['t'])
        a = rt.get('args') or []
        if a and 't' in a[0]:
            cls = ev.cls_of_type(a[0]['t'])
            if cls:
                vals = [ev.bindarg(x, None) for x in args]
                for m in ev.P.C[cls]['methods']:
                    f = ev.P.F.get(m)
                    if f and f.get('ctor') and len(f['params']) >= len(vals) and 'body' in f and not f.get('implicit') or (f and f.get('ctor') and len(f['params']) == len(vals)):
                        ev.ntmp += 1
                        root = ('heap', ev.ntmp, cls)
                        ev.st.heap[root] = mk('default', ev.P.C[cls]['q'])
                        lv = LV(root, (), cls)
                        ev.construct(lv, f, n, [], vals)
                        return lv.addr()
    # iterators
    if op == '=' and 'obj' in n and isq(q, 'std::_Rb_tree', '__gnu_cxx::__normal_iterator', 'std::_List', 'std::_Deque'):
        x, v = ev.ev(n['obj']), ev.val(args[0])
        if isinstance(x, (LV, CLV)) and isinstance(v, T):
            ev.store(x, v)
            return x
    if op in ('++', '--', '*', '->', '!=', '==', '+', '-', '+=', '<', '>', '<=', '>='):
        r = iterop(ev, n, q, op, args)
        if r is not None:
            return r
    if isq(q, 'std::basic_string::', 'std::operator+', 'std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>'):
        return string(ev, n, q, base, op, args)
    if base == 'operator conv' and 'obj' in n:
        x = ev.ev(n['obj'])
        v = ev.rv(x)
        if TYPE.get(v) == 'p' or v.op in ('addr', 'none'):
            return v
        if isinstance(v, T):
            return ev.typed(mk('call', (q, v)), n['t'])
    if isq(q, 'std::advance') or isq(q, 'std::next'):
        pass
    if isq(q, 'std::copy') and len(args) == 3:
        a = [ev.val(x) for x in args]
        if all(x.op == 'it' for x in a) and a[0].args[0] is a[1].args[0]:
            src = ev.load(ev.deref(a[0].args[0]))
            dst = ev.deref(a[2].args[0])
            k = fresh()
            cnt = sub(a[1].args[1], a[0].args[1])
            phi = fresh('V', 'v')
            body = vsto(phi, add(a[2].args[1], k), vsel(src, add(a[0].args[1], k)))
            ev.store(dst, vloop(k, phi, cnt, ev.load(dst), body))
            return mk('it', a[2].args[0], add(a[2].args[1], cnt))
    if isq(q, 'std::fill') and len(args) == 3:
        a = [ev.val(x) for x in args]
        if a[0].op == 'it' and a[1].op == 'it':
            dst = ev.deref(a[0].args[0])
            cnt = sub(a[1].args[1], a[0].args[1])
            old = ev.load(dst)
            if a[0].args[1] is ZERO and a[1].args[1] is vsize(old):
                ev.store(dst, mk('vresize', mk('vempty'), cnt, a[2]))
                return mk('void')
            k = fresh()
            phi = fresh('V', 'v')
            ev.store(dst, vloop(k, phi, cnt, old, vsto(phi, add(a[0].args[1], k), a[2])))
            return mk('void')
    if isq(q, 'std::fill_n') and len(args) == 3:
        a = [ev.val(x) for x in args]
        if a[0].op == 'it':
            dst = ev.deref(a[0].args[0])
            k = fresh()
            phi = fresh('V', 'v')
            ev.store(dst, vloop(k, phi, a[1], ev.load(dst), vsto(phi, add(a[0].args[1], k), a[2])))
            return mk('it', a[0].args[0], add(a[0].args[1], a[1]))
    if isq(q, 'std::rotate') and len(args) == 3:
        a = [ev.val(x) for x in args]
        if all(x.op == 'it' for x in a) and a[0].args[0] is a[1].args[0] and a[1].args[0] is a[2].args[0]:
            dst = ev.deref(a[0].args[0])
            old = ev.load(dst)
            lo, mid, hi = [x.args[1] for x in a]
            k = fresh()
            phi = fresh('V', 'v')
            src = ite(lt(add(mid, k), hi), vsel(old, add(mid, k)), vsel(old, add(mid, k, neg(hi), lo)))
            ev.store(dst, vloop(k, phi, sub(hi, lo), old, vsto(phi, add(lo, k), src)))
            return mk('it', a[0].args[0], add(lo, sub(hi, mid)))
    # everything else is uninterpreted
    this = None
    if 'obj' in n:
        this = ev.objlv(n)
        if isinstance(this, T):
            this = ev.tmp(this)
        if isinstance(this, Lam):
            f = ev.P.F.get(this.f)
            return ev.call_body(f, this, [ev.bindarg(a, None) for a in args], n)
    vals = [ev.bindarg(a, None) for a in args]
    return ev.uninterp(n, q, this, vals, None)


# --------------------------------------------------------------- smart pointers
def sptr(ev, n, q, base, op, args):
    if 'obj' not in n:
        a = [ev.val(x) for x in args]
        if op in ('==', '!='):
            r = eq(a[0], a[1])
            return r if op == '==' else neg_b(r)
        return ev.uninterp(n, q, None, a)
    x = ev.ev(n['obj'])
    if op == '->' or base == 'get':
        return ev.rv(x, n['obj']['t'])
    if op == '*':
        return ev.deref(ev.rv(x, n['obj']['t']))
    if base == 'operator conv':
        return neg_b(eq(ev.rv(x, n['obj']['t']), NONE))
    if base == 'reset':
        if isinstance(x, (LV, CLV)):
            v = ev.val(args[0]) if args else NONE
            ev.store(x, v)
            return mk('void')
    if op == '=':
        v = ev.val(args[0])
        ev.store(x, v)
        return x
    if op == '!':
        return eq(ev.rv(x, n['obj']['t']), NONE)
    return ev.uninterp(n, q, x if isinstance(x, LV) else ev.tmp(x), [ev.bindarg(a, None) for a in args])


# --------------------------------------------------------------- sequences
def seq(ev, n, q, base, op, args):
    x = ev.objlv(n)
    if not isinstance(x, (LV, CLV)):
        x = ev.tmp(x)
    v = ev.load(x, n['obj']['t'])
    if v.op == 'opaque' and base not in ('clear',):
        return v if ev.tt(n['t'])['k'] not in ('void',) else mk('void')
    ot = ev.P.strip(n['obj']['t'])
    if ot['k'] == 'ptr':
        ot = ev.P.strip(ot['to'])
    ea = (ot.get('args') or [None])[0]
    ecls = ev.cls_of_type(ea['t']) if ea and 't' in ea else None
    if base == 'size':
        return vsize(v)
    if base == 'empty':
        return eq(vsize(v), ZERO)
    if base in ('operator[]', 'at'):
        i = ev.val(args[0])
        present(ev, v, i)
        return x.sub(('i', i), ecls)
    if base in ('front', 'back', 'top'):
        present(ev, v, ZERO)
    if base in ('front',):
        return x.sub(('i', ZERO), ecls)
    if base in ('back', 'top'):
        return x.sub(('i', sub(vsize(v), ONE)), ecls)
    if base in ('push_back', 'push', 'emplace_back'):
        if len(args) != 1:
            return None
        a = ev.val(args[0])
        t = mk('vpush', v, a)
        TYPE[t] = 'v'
        ev.store(x, t)
        return mk('void')
    if base == 'push_front':
        t = mk('vpushf', v, ev.val(args[0]))
        TYPE[t] = 'v'
        ev.store(x, t)
        return mk('void')
    if base == 'clear':
        ev.store(x, mk('vempty'))
        return mk('void')
    if base == 'resize':
        a = [ev.val(y) for y in args if not y.get('dflt')]
        d = a[1] if len(a) > 1 else default_of(ev, ot)
        nn = a[0]
        if v.op == 'vresize' and v.args[0].op == 'vempty' and v.args[2] is d:
            v = mk('vempty')
        t = mk('vresize', v, nn, d)
        if nn is ZERO:
            t = mk('vempty')
        TYPE[t] = 'v'
        ev.store(x, t)
        return mk('void')
    if base == 'assign' and len(args) == 2:
        a = [ev.val(y) for y in args]
        if numericish(a[0]):
            ev.store(x, mk('vresize', mk('vempty'), a[0], a[1]))
            return mk('void')
    if base in ('begin', 'cbegin'):
        return mk('it', x.addr(), ZERO) if isinstance(x, LV) else None
    if base in ('end', 'cend'):
        return mk('it', x.addr(), vsize(v)) if isinstance(x, LV) else None
    if base == 'operator=':
        ev.store(x, ev.val(args[0]))
        return x
    if base == 'swap' and len(args) == 1:
        y = ev.ev(args[0])
        if not isinstance(x, LV) or not isinstance(y, LV):
            return None
        w = ev.load(y)
        ev.store(x, w)
        ev.store(y, v)
        return mk('void')
    if base == 'pop_front' or (base == 'pop' and isq(q, 'std::queue')):
        if v.op == 'vlist':
            t = mk('vlist', v.args[0][1:]) if len(v.args[0]) > 1 else mk('vempty')
        else:
            t = mk('vpopf', v)
        TYPE[t] = 'v'
        ev.store(x, t)
        return mk('void')
    if base in ('pop_back',) or (base == 'pop' and isq(q, 'std::stack')):
        if v.op == 'vlist' and v.args[0]:
            t = mk('vlist', v.args[0][:-1]) if len(v.args[0]) > 1 else mk('vempty')
            TYPE[t] = 'v'
        elif v.op == 'vpush':
            t = v.args[0]
        else:
            t = mk('vpop', v)
            TYPE[t] = 'v'
        ev.store(x, t)
        return mk('void')
    if base == 'reserve':
        return mk('void')
    if base == 'erase' and len(args) == 1 and v.op == 'vlist' and isinstance(x, LV):
        it = ev.val(args[0])
        if it.op == 'it' and it.args[0] is x.addr() and is_num(it.args[1]):
            k = int(it.args[1].args[0])
            if 0 <= k < len(v.args[0]):
                L = v.args[0][:k] + v.args[0][k + 1:]
                t = mk('vlist', L) if L else mk('vempty')
                TYPE[t] = 'v'
                ev.store(x, t)
                return it
    return None


def iterop(ev, n, q, op, args):
    if 'obj' in n:
        a = ev.ev(n['obj'])
        bs = args
        ta = n['obj']['t']
    else:
        a = ev.ev(args[0])
        bs = args[1:]
        ta = args[0]['t']
    v = ev.rv(a, ta)
    if not isinstance(v, T):
        return None
    if v.op == 'mit' or v.op == 'mend':
        if op == '->':
            return v
        if op == '*':
            return ev.deref(v)
        if op == '++' and v.op == 'mit':
            m = ev.load(ev.deref(v.args[0]))
            new = mapnext(v.args[0], m, v.args[1])
            if new is None:
                return None
            if isinstance(a, (LV, CLV)):
                ev.store(a, new)
            return v if len(bs) == 1 else (a if isinstance(a, (LV, CLV)) else new)
        if op in ('==', '!='):
            w = ev.val(bs[0])
            if w.op == 'mend' and v.op == 'mend':
                return TRUE if op == '==' else FALSE
            if w.op == 'mend' and v.op == 'mit':
                m = ev.load(ev.deref(v.args[0]))
                r = maphas(m, v.args[1])
                return r if op == '!=' else neg_b(r)
            if w.op == 'mit' and v.op == 'mend':
                m = ev.load(ev.deref(w.args[0]))
                r = maphas(m, w.args[1])
                return r if op == '!=' else neg_b(r)
        return None
    if v.op != 'it':
        return None
    if op in ('++', '--'):
        d = ONE if op == '++' else num(-1)
        new = mk('it', v.args[0], add(v.args[1], d))
        if isinstance(a, (LV, CLV)):
            ev.store(a, new)
        post = len(bs) == 1
        return v if post else (a if isinstance(a, (LV, CLV)) else new)
    if op == '->':
        return v
    if op == '*':
        lv = ev.deref(v)
        return lv
    w = ev.val(bs[0])
    if op == '+=' and isinstance(a, LV):
        ev.store(a, mk('it', v.args[0], add(v.args[1], w)))
        return a
    return ev.arith(op, v, w, ta, bs[0]['t'], n)


def mapkeys(m):
    """sorted keys of a map built from literal keys, or None"""
    ks = set()
    while m.op == 'mapset':
        if m.args[1].op not in ('str', 'num'):
            return None
        ks.add(m.args[1])
        m = m.args[0]
    if m.op != 'mapempty' or len({x.op for x in ks}) > 1:
        return None
    return sorted(ks, key=lambda x: x.args[0])


def mapsize(m):
    if m.op == 'mapempty':
        return ZERO
    if m.op == 'mapset':
        return add(mapsize(m.args[0]), ite(maphas(m.args[0], m.args[1]), ZERO, ONE))
    if m.op == 'ite':
        return ite(m.args[0], mapsize(m.args[1]), mapsize(m.args[2]))
    return mk('size', m)


def mapnext(x, m, k):
    """iterator to the first key after k (k=None: the first one)"""
    ks = mapkeys(m)
    if ks is None:
        return None
    i = 0 if k is None else ks.index(k) + 1 if k in ks else None
    if i is None:
        return None
    return mk('mit', x, ks[i]) if i < len(ks) else mk('mend', x)


def map_(ev, n, q, base, op, args):
    x = ev.objlv(n)
    if not isinstance(x, LV):
        return None
    v = ev.load(x)
    if base == 'find':
        return mk('mit', x.addr(), ev.val(args[0]))
    if base in ('end', 'cend'):
        return mk('mend', x.addr())
    if base == 'clear':
        ev.store(x, mk('mapempty'))
        return mk('void')
    if base == 'operator=':
        ev.store(x, ev.val(args[0]))
        return x
    if base == 'operator[]':
        k = ev.val(args[0])
        return x.sub(('mk', k))
    if base == 'at':
        return x.sub(('mk', ev.val(args[0])))
    if base == 'count':
        return ite(maphas(v, ev.val(args[0])), ONE, ZERO)
    if base == 'insert' and len(args) == 1:
        p = ev.val(args[0])
        k, y = fld(p, 'std::pair::first'), fld(p, 'std::pair::second')
        has = maphas(v, k)
        ev.store(x, ite(has, v, mapset(v, k, y)))
        return rec(mk('default', 'std::pair'), {'std::pair::first': mk('mit', x.addr(), k), 'std::pair::second': neg_b(has)})
    if base in ('begin', 'cbegin'):
        return mapnext(x.addr(), v, None)
    if base == 'size':
        return mapsize(v)
    if base == 'empty':
        return eq(mapsize(v), ZERO)
    if base == 'emplace' and len(args) == 2:
        k, y = ev.val(args[0]), ev.val(args[1])
        has = maphas(v, k)
        ev.store(x, ite(has, v, mapset(v, k, y)))
        return rec(mk('default', 'std::pair'), {'std::pair::first': mk('mit', x.addr(), k), 'std::pair::second': neg_b(has)})
    return None


def string(ev, n, q, base, op, args):
    if 'obj' in n:
        x = ev.ev(n['obj'])
        if base in ('operator+=', 'operator='):
            v = ev.val(args[0])
            if isinstance(x, LV):
                ev.store(x, v if base == 'operator=' else mk('cat', ev.load(x), v))
            return x
        if base in ('c_str', 'data'):
            return ev.rv(x)
        vals = [ev.rv(x)] + [ev.val(a) for a in args if not a.get('dflt')]
    else:
        vals = [ev.val(a) for a in args]
    vals = [v if isinstance(v, T) else mk('undef') for v in vals]
    if base in ('size', 'length', 'empty') and len(vals) == 1 and vals[0].op == 'str':
        k = len(vals[0].args[0])
        return (FALSE if k else TRUE) if base == 'empty' else num(k)
    if base == 'compare' and len(vals) == 2 and all(v.op == 'str' for v in vals):
        a, b = vals[0].args[0], vals[1].args[0]
        return num((a > b) - (a < b))
    if op == '+':
        return cat(vals[0], vals[1])
    if op in ('==', '!='):
        r = eq(vals[0], vals[1])
        return r if op == '==' else neg_b(r)
    return ev.typed(mk('call', (q,) + tuple(vals)), n['t'])


def cat(a, b):
    if a.op == 'str' and b.op == 'str':
        return mk('str', a.args[0] + b.args[0])
    if a.op == 'str' and a.args[0] == '':
        return b
    if b.op == 'str' and b.args[0] == '':
        return a
    return mk('cat', a, b)


# --------------------------------------------------------------- Eigen
def isvec(ev, x, tid, v):
    """'c' column vector, 'r' row vector, None matrix"""
    t = ev.eig(tid)
    if t:
        if t['cols'] == 1:
            return 'c'
        if t['rows'] == 1:
            return 'r'
    r, c = dims(v)
    if c is ONE:
        return 'c'
    if r is ONE:
        return 'r'
    return None


def mones(r, c):
    return mk('mconst', ONE, r, c)


def present(ev, v, i):
    """access to an element which certainly does not exist"""
    i, n = concrete(i), concrete(vsize(v))
    if i is not None and n is not None and not 0 <= i < n:
        ev.throw(TRUE, '?', 'index out of the sequence')


def inside(ev, v, acc):
    """an index which is certainly out of the matrix stops the program (assertion of the matrix library) or corrupts memory"""
    if acc[0] not in ('blk', 'e') or not is_mat(v):
        return
    R, C = dims(v)
    if acc[0] == 'e':
        spans = ((acc[1], ONE, R), (acc[2], ONE, C))
    else:
        spans = ((acc[1], acc[3], R), (acc[2], acc[4], C))
    for o, n, lim in spans:
        o, n, lim = [concrete(t) if isinstance(t, T) else None for t in (o, n, lim)]
        if None not in (o, n, lim) and (o < 0 or n < 0 or o + n > lim):
            ev.throw(TRUE, '?', 'index out of the matrix')


def view(x, v, acc, ev=None):
    if ev is not None:
        inside(ev, v, acc)
    if isinstance(x, (LV, CLV)):
        return x.sub(acc)
    if acc[0] == 'blk':
        return mblk(v, *acc[1:])
    if acc[0] == 'T':
        return mT(v)
    if acc[0] == 'e':
        return elem(v, acc[1], acc[2])
    if acc[0] == 'dg':
        return mk('mdiagof', v)
    raise Exception(acc)


def asmat(ev, v, tid):
    """coerce a value used as a matrix operand"""
    if is_mat(v) or v.op == 'opaque':
        return v
    t = ev.eig(tid)
    if t:
        ev.typed(v, tid)
        if v.op not in ('num', 'poly'):
            TYPE[v] = 'm'
            if v not in DIMS and (t['rows'] >= 0 or t['cols'] >= 0):
                DIMS[v] = (num(t['rows']) if t['rows'] >= 0 else mk('rows', v), num(t['cols']) if t['cols'] >= 0 else mk('cols', v))
    return v


def eigen(ev, n, q, base, op, args):
    if 'obj' not in n and not op:
        return eig_static(ev, n, q, base, args)
    if op and op not in ('()', '[]'):
        return eig_op(ev, n, q, base, op, args)
    if n.get('static'):
        return eig_static(ev, n, q, base, args)
    x = ev.objlv(n)
    if isinstance(x, Comma):
        x = x.lv
    tid = n['obj']['t']
    ot = ev.tt(tid)
    if ot['k'] == 'ptr':
        tid = ot['to']
    v = ev.rv(x, tid)
    if v.op == 'vwise' and base == 'sum':
        m_, w = v.args
        R, C = dims(m_)
        return mmul(m_, mones(C, ONE)) if w == 'rowwise' else mmul(mones(ONE, R), m_)
    if v.op == 'opaque' and base not in ('setZero', 'setConstant', 'setIdentity', 'resize', 'setOnes'):
        for a in args:
            ev.ev(a)
        return v if ev.tt(n['t'])['k'] != 'void' else mk('void')
    if ev.P.strip(tid).get('q') in ROTQ or isq(q, 'Eigen::RotationBase'):
        if base in ('matrix', 'toRotationMatrix', 'derived') and is_mat(v):
            return v
        if base == 'inverse' and is_mat(v):
            return mT(v)
        if op is None or op == '':
            return ev.typed(mk('call', (q, v) + tuple(ev.val(a) for a in args)), n['t'])
    v = asmat(ev, v, tid)
    targs = [a for a in n.get('targs', []) if isinstance(a, int)]
    if base == 'operator conv':
        return elem(v, ZERO, ZERO)
    if base in ('noalias', 'derived', 'eval', 'matrix', 'array', 'finished', 'const_cast_derived', 'nestedExpression') and isq(q, 'Eigen::'):
        if base == 'matrix' and v.op == 'call':
            return ev.typed(mk('call', ('rot.matrix', v)), n['t'])
        return x
    if base == 'eulerAngles' and len(args) == 3:
        # angles about three successive axes whose rotations multiply to the matrix
        ax = [ev.val(a) for a in args]
        return mk('emat', 3, 1, tuple(fn('euler%d' % k, v, *ax) for k in range(3)))
    if base in ('rows', 'cols', 'size'):
        r, c = dims(v)
        return r if base == 'rows' else c if base == 'cols' else mul(r, c)
    if base in ('innerSize', 'outerSize'):
        return ev.opq(q, n)
    a = [ev.val(y) for y in args if not y.get('dflt')]
    if any(y.op == 'opaque' for y in a if isinstance(y, T)):
        return ev.opq(q, n)
    R, C = dims(v)
    vec = isvec(ev, x, tid, v)
    if base in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        if len(a) == 2:
            acc = ('e', a[0], a[1])
        elif vec == 'r':
            acc = ('e', ZERO, a[0])
        else:
            acc = ('e', a[0], ZERO)
        inside(ev, v, acc)
        if isinstance(x, (LV, CLV)):
            r = x.sub(acc)
            ev.load(r, n['t'])
            return r
        return elem(v, acc[1], acc[2])
    if base in ('x', 'y', 'z', 'w'):
        i = num('xyzw'.index(base))
        acc = ('e', ZERO, i) if vec == 'r' else ('e', i, ZERO)
        return view(x, v, acc, ev)
    if base == 'transpose':
        if R is ONE and C is ONE:
            return x
        return view(x, v, ('T',), ev)
    if base == 'reverse' and not a:
        if is_num(R) and is_num(C):
            r_, c_ = int(R.args[0]), int(C.args[0])
            if r_ * c_ <= 64:
                return mk('emat', r_, c_, tuple(elem(v, num(r_ - 1 - i), num(c_ - 1 - j)) for i in range(r_) for j in range(c_)))
        return mlam(R, C, lambda i, j: elem(v, sub(sub(R, ONE), i), sub(sub(C, ONE), j)))
    if base == 'block':
        if len(a) == 2 and len(targs) >= 2:
            return view(x, v, ('blk', a[0], a[1], num(targs[0]), num(targs[1])), ev)
        if len(a) == 4:
            return view(x, v, ('blk', a[0], a[1], a[2], a[3]), ev)
    if base in ('row', 'col'):
        return view(x, v, ('blk', a[0], ZERO, ONE, C) if base == 'row' else ('blk', ZERO, a[0], R, ONE), ev)
    if base in ('segment', 'head', 'tail'):
        cnt = None
        if base == 'segment':
            off = a[0]
            cnt = a[1] if len(a) > 1 else (num(targs[0]) if targs else None)
        else:
            cnt = a[0] if a else (num(targs[0]) if targs else None)
            tot = C if vec == 'r' else R
            off = ZERO if base == 'head' else (sub(tot, cnt) if cnt is not None else None)
        if cnt is not None:
            return view(x, v, ('blk', ZERO, off, ONE, cnt) if vec == 'r' else ('blk', off, ZERO, cnt, ONE), ev)
    if base in ('topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols'):
        cnt = None
        off = ZERO
        if base.startswith('middle'):
            off = a[0]
            cnt = a[1] if len(a) > 1 else num(targs[0]) if targs else None
        else:
            cnt = a[0] if a else num(targs[0]) if targs else None
        if cnt is not None:
            if base == 'bottomRows':
                off = sub(R, cnt)
            if base == 'rightCols':
                off = sub(C, cnt)
            return view(x, v, ('blk', off, ZERO, cnt, C) if base.endswith('Rows') else ('blk', ZERO, off, R, cnt), ev)
    if base.endswith('Corner'):
        if len(a) == 2:
            nr, nc = a
        elif len(targs) >= 2:
            nr, nc = num(targs[0]), num(targs[1])
        else:
            return ev.opq(q, n)
        r0 = ZERO if base.startswith('top') else sub(R, nr)
        c0 = ZERO if 'Left' in base else sub(C, nc)
        return view(x, v, ('blk', r0, c0, nr, nc), ev)
    if base == 'diagonal' and not a:
        return view(x, v, ('dg',), ev)
    # modifications
    if base in ('setZero', 'setConstant', 'setOnes', 'setIdentity', 'fill'):
        lv = x
        if not isinstance(lv, (LV, CLV)):
            return ev.opq(q, n)
        val = ZERO
        if base in ('setConstant', 'fill'):
            val = a[-1]
            a = a[:-1]
        if base == 'setOnes':
            val = ONE
        if len(a) == 1:
            R, C = (ONE, a[0]) if vec == 'r' else (a[0], ONE)
        elif len(a) == 2:
            R, C = a
        if base == 'setIdentity':
            nv = mk('mid', R, C)
        else:
            nv = mk('mzero', R, C) if val is ZERO else mk('mconst', val, R, C)
        ev.store(lv, nv)
        return lv
    if base == 'resize':
        if len(a) == 1:
            R2, C2 = (ONE, a[0]) if vec == 'r' else (a[0], ONE)
        else:
            R2, C2 = a
        if R2 is R and C2 is C:
            return mk('void')
        ev.store(x, mk('mundef', R2, C2))
        return mk('void')
    if base == 'conservativeResize' and isinstance(x, LV):
        if len(a) == 1:
            R2, C2 = (ONE, a[0]) if vec == 'r' else (a[0], ONE)
        else:
            R2, C2 = a
        t = mk('mresize', v, R2, C2)
        TYPE[t] = 'm'
        ev.store(x, t)
        return mk('void')
    # pure functions
    if base == 'data' and not a:
        return mk('mdata', v, ZERO, 'row' if rowmajor(ev, n['obj']['t']) else 'col', x.addr() if isinstance(x, LV) else NONE)
    if base == 'asDiagonal':
        return mk('mdiag', v)
    if base == 'cross':
        b = asmat(ev, a[0], args[0]['t'])
        A = [elem(v, num(i), ZERO) for i in range(3)]
        B = [elem(b, num(i), ZERO) for i in range(3)]
        e = [sub(mul(A[1], B[2]), mul(A[2], B[1])), sub(mul(A[2], B[0]), mul(A[0], B[2])), sub(mul(A[0], B[1]), mul(A[1], B[0]))]
        return mk('emat', 3, 1, tuple(e))
    if base == 'dot':
        b = asmat(ev, a[0], args[0]['t'])
        return elem(mmul(mT(v) if vec == 'c' else v, b if isvec(ev, b, args[0]['t'], b) == 'c' else mT(b)), ZERO, ZERO)
    if base in ('squaredNorm', 'norm', 'sum', 'trace'):
        k, l = fresh(), fresh()
        if base == 'trace':
            return sumk(k, R, elem(v, k, k))
        e = elem(v, k if R is not ONE else ZERO, l if C is not ONE else ZERO)
        if base != 'sum':
            e = mul(e, e)
        s = e
        if C is not ONE:
            s = sumk(l, C, s)
        if R is not ONE:
            s = sumk(k, R, s)
        return fn('sqrt', s) if base == 'norm' else s
    if base in ('cwiseProduct', 'cwiseQuotient', 'cwiseMin', 'cwiseMax'):
        b = asmat(ev, a[0], args[0]['t'])
        t = mk('mcwise', {'cwiseProduct': 'mul', 'cwiseQuotient': 'div', 'cwiseMin': 'min', 'cwiseMax': 'max'}[base], (v, b))
        TYPE[t] = 'm'
        return t
    if base == 'inverse':
        t = mk('minv', v)
        TYPE[t] = 'm'
        return t
    if base == 'replicate':
        if len(a) == 2:
            f = a
        elif len(targs) >= 2:
            f = [num(targs[0]), num(targs[1])]
        else:
            f = None
        if f:
            t = mk('mrep', v, f[0], f[1])
            TYPE[t] = 'm'
            return t
    if base in ('triangularView', 'selfadjointView'):
        kind = 'tri' if base == 'triangularView' else 'sym'
        if not targs:
            return ev.opq(q, n)
        if isinstance(x, LV):
            return x.sub((kind, targs[0]))
        t = mk('m' + kind, v, targs[0])
        TYPE[t] = 'm'
        return t
    if base == 'rankUpdate' and isinstance(x, LV) and x.path and x.path[-1][0] == 'sym' and len(a) <= 2:
        u = asmat(ev, a[0], args[0]['t'])
        al = a[1] if len(a) > 1 else ONE
        ev.store(x, madd(v, mscale(al, mmul(u, mT(u)))))
        return x
    if base == 'cast':
        return x
    if base == 'solve':
        b = asmat(ev, a[0], args[0]['t'])
        t = mk('msolve', v, b)
        TYPE[t] = 'm'
        DIMS[t] = (dims(b)[0], dims(b)[1])
        return t
    if base in ('lu', 'llt', 'ldlt', 'colPivHouseholderQr', 'householderQr', 'fullPivLu', 'partialPivLu', 'fullPivHouseholderQr'):
        return v
    if base == 'rowwise' or base == 'colwise':
        t = mk('vwise', v, base)
        TYPE[t] = 'o'
        return t
    if base == 'reverse' and False:
        pass
    return ev.typed(mk('call', (q, v) + tuple(y if isinstance(y, T) else NONE for y in a) + tuple(num(z) for z in targs)), n['t'])


def eig_static(ev, n, q, base, args):
    t = ev.eig(n['t'])
    a = [ev.val(y) for y in args if not y.get('dflt')]
    if base in ('Zero', 'Constant', 'Identity', 'Ones') and t:
        val = {'Zero': ZERO, 'Ones': ONE}.get(base)
        if base == 'Constant':
            val = a[-1]
            a = a[:-1]
        if len(a) == 0:
            R, C = num(t['rows']), num(t['cols'])
        elif len(a) == 1:
            R, C = (a[0], ONE) if t['cols'] == 1 else (ONE, a[0])
        else:
            R, C = a
        if base == 'Identity':
            return mk('mid', R, C)
        return mk('mzero', R, C) if val is ZERO else mk('mconst', val, R, C)
    if base == 'LinSpaced' and len(a) == 3 and t and t['cols'] == 1:
        k = [concrete(x) for x in a]
        if None not in k and k[0] >= 1 and (k[0] == 1 or (k[2] - k[1]) % (k[0] - 1) == 0):
            return mk('emat', k[0], 1, tuple(num(k[2] if k[0] == 1 else k[1] + i * ((k[2] - k[1]) // (k[0] - 1))) for i in range(k[0])))
    if base == 'Map' and a and a[0].op == 'mdata' and len(a) in (3, 4):
        r = map_view(ev, n, a)
        if r is not None:
            return r
    if base in ('UnitX', 'UnitY', 'UnitZ') and t:
        L = [ZERO] * (t['rows'] * t['cols'])
        L['XYZ'.index(base[-1])] = ONE
        return mk('emat', t['rows'], t['cols'], tuple(L))
    return ev.typed(mk('call', (q,) + tuple(a)), n['t'])


def fits(ev, X, tx, v):
    """sizes of both sides of an assignment, when they are known"""
    if not is_mat(v) or not isinstance(X, LV):
        return
    if X.path and X.path[-1][0] == 'blk':
        want = X.path[-1][3:5]
    else:
        t = ev.eig(tx)
        if not t or t['rows'] < 0 or t['cols'] < 0 or t.get('q') not in ('Eigen::Matrix',):
            return
        want = num(t['rows']), num(t['cols'])
    k = [concrete(x) for x in tuple(want) + tuple(dims(v))]
    if None not in k and k[0] * k[1] != k[2] * k[3]:
        ev.throw(TRUE, '?', 'sizes of the sides of an assignment differ')


def eig_op(ev, n, q, base, op, args):
    if 'obj' in n:
        X = ev.ev(n['obj'])
        tx = n['obj']['t']
        rest = args
    else:
        X = ev.ev(args[0])
        tx = args[0]['t']
        rest = args[1:]
    if op == '<<':
        if isinstance(X, LV):
            cm = Comma(X)
            comma(ev, cm, ev.val(rest[0]), rest[0]['t'])
            return cm
        if isinstance(X, T) and is_mat(X):
            cm = Comma(ev.tmp(X))
            comma(ev, cm, ev.val(rest[0]), rest[0]['t'])
            return cm
        return ev.opq('<<', n)
    if op == ',':
        if isinstance(X, Comma):
            comma(ev, X, ev.val(rest[0]), rest[0]['t'])
            return X
        return ev.opq(',', n)
    if isinstance(X, Comma):
        X = X.lv
    if op == '=':
        y = ev.ev(rest[0])
        v = ev.rv(y, rest[0]['t'])
        if not isinstance(X, (LV, CLV)):
            return ev.opq('eigen =', n)
        v = asmat(ev, v, rest[0]['t'])
        fits(ev, X, tx, v)
        ev.store(X, v)
        return X
    x = ev.rv(X, tx)
    if x.op == 'vwise' and op in ('+', '-') and len(rest) == 1:
        y = asmat(ev, ev.val(rest[0]), rest[0]['t'])
        m_, w = x.args
        if y.op == 'opaque':
            return y
        R, C = dims(m_)
        if w == 'colwise':
            y = y if C is ONE else mmul(y, mones(ONE, C))
        else:
            y = y if R is ONE else mmul(mones(R, ONE), y)
        return madd(m_, y) if op == '+' else msub(m_, y)
    x = asmat(ev, x, tx)
    if not rest:
        if x.op == 'opaque':
            return x
        if op == '-':
            return mneg(x)
        return x
    y = ev.val(rest[0])
    ty = rest[0]['t']
    ey = ev.eig(ty)
    ex = ev.eig(tx)
    if ey:
        y = asmat(ev, y, ty)
    if x.op == 'opaque' or y.op == 'opaque':
        if op in ('+=', '-=', '*=', '/=') and isinstance(X, (LV, CLV)):
            ev.store(X, ev.opq('eigen ' + op, n))
            return X
        return ev.opq('eigen ' + op, n)
    cw = 'ArrayBase' in q or 'Array' in ev.P.strip(tx).get('q', '')
    if op in ('+=', '-=', '*=', '/='):
        if op == '+=':
            r = madd(x, y) if ey else None
        elif op == '-=':
            r = msub(x, y) if ey else None
        elif op == '*=':
            r = mmul(x, y) if ey else mscale(y, x)
        else:
            r = mscale(inv(y), x)
        if r is None or not isinstance(X, (LV, CLV)):
            return ev.opq('eigen ' + op, n)
        if op in ('+=', '-=') and ey:
            facts_add(ev, x, y)
        ev.store(X, r)
        return X
    PERMQ = ('Eigen::PermutationWrapper', 'Eigen::PermutationMatrix', 'Eigen::InverseImpl', 'Eigen::Inverse')
    rotq = ('Eigen::AngleAxis', 'Eigen::Quaternion', 'Eigen::Rotation2D')
    if op == '*':
        if is_mat(x) and is_mat(y) and (isq(q, *rotq) or isq(q, 'Eigen::RotationBase', 'Eigen::PermutationBase') or ev.P.strip(tx).get('q') in PERMQ or ev.P.strip(ty).get('q') in PERMQ or ev.P.strip(tx).get('q') in rotq or ev.P.strip(ty).get('q') in rotq):
            return mmul(x, y)
        if (not ex and not ey) or isq(q, *rotq) or ev.P.strip(tx).get('q') in rotq or ev.P.strip(ty).get('q') in rotq:
            return ev.typed(mk('call', (q, x, y)), n['t'])
        if ex and ey:
            if cw:
                t = mk('mcwise', 'mul', (x, y))
                TYPE[t] = 'm'
                return t
            c, r = dims(x)[1], dims(y)[0]
            e = eq(c, r)
            if e.op == 'eq0' and ev.cond_depth == 0 and not e.syms:
                ev.facts.append(e)
            return mmul(x, y)
        if ex:
            return mscale(y, x)
        return mscale(x, y)
    if op == '/':
        if ey and cw:
            t = mk('mcwise', 'div', (x, y))
            TYPE[t] = 'm'
            return t
        return mscale(inv(y), x)
    if op in ('+', '-'):
        if ex and ey:
            facts_add(ev, x, y)
            return madd(x, y) if op == '+' else msub(x, y)
    if op in ('==', '!='):
        t = mk('eq', x, y)
        return t if op == '==' else neg_b(t)
    return ev.typed(mk('call', (q, x, y)), n['t'])


def facts_add(ev, x, y):
    if ev.cond_depth:
        return
    for a, b in zip(dims(x), dims(y)):
        e = eq(a, b)
        if e.op == 'eq0' and not e.syms:
            ev.facts.append(e)


def comma(ev, cm, v, tid):
    R, C = dims(ev.load(cm.lv))
    if ev.eig(tid):
        v = asmat(ev, v, tid)
    if v.op == 'opaque':
        ev.store(cm.lv, v)
        return
    if not is_mat(v):
        v = mk('emat', 1, 1, (ev.to_num(v),))
    r, c = dims(v)
    if cm.h is not None and (cm.c is C or eq(cm.c, C) is TRUE):
        cm.r = add(cm.r, cm.h)
        cm.c = ZERO
        cm.h = None
    elif cm.h is not None and C is not ONE and cm.c is not ZERO and not is_num(C) and eq(cm.c, C) is not FALSE:
        # undecided whether the row is complete: full-width operands stack vertically
        if eq(c, C) is TRUE or c is C:
            cm.r = add(cm.r, cm.h)
            cm.c = ZERO
    ev.store(cm.lv.sub(('blk', cm.r, cm.c, r, c)), v)
    cm.h = r
    cm.c = add(cm.c, c)
