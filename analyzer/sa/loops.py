"""Loop summarisation."""
from .terms import *
from . import terms as tm
from .mat import *
from .evalr import LV, CLV, Out, St, Comma
from .lib import mapkeys, mapsize


def is_rec(v):
    return v.op == 'upd' or TYPE.get(v) == 'o' or v.op in ('obj', 'default')


def diff(a, b, path, out):
    if a is b:
        return
    if not isinstance(a, T) or not isinstance(b, T):
        out.append(path)
        return
    if a.op == 'it' and b.op == 'it' and a.args[0] is b.args[0]:
        out.append(path + (('itx',),))
        return
    if is_mat(a) or is_mat(b):
        out.append(path)
        return
    if a.op == 'upd' or b.op == 'upd':
        ba = a.args[0] if a.op == 'upd' else a
        bb = b.args[0] if b.op == 'upd' else b
        fa = dict(a.args[1]) if a.op == 'upd' else {}
        fb = dict(b.args[1]) if b.op == 'upd' else {}
        if ba is bb:
            for k in sorted(set(fa) | set(fb), key=str):
                x = fa[k] if k in fa else fld(a, k)
                y = fb[k] if k in fb else fld(b, k)
                diff(x, y, path + (('f', k),), out)
            return
    out.append(path)


def getp(ev, heap, key):
    root, path = key
    v = heap.get(root)
    if v is None:
        v = ev.root_init(root)
    for acc in path:
        if acc[0] == 'itx':
            if v.op != 'it':
                return None
            v = v.args[1]
        else:
            v = ev.proj(v, acc)
    return v


def putp(ev, heap, key, x):
    root, path = key
    v = heap.get(root)
    if v is None:
        v = ev.root_init(root)
    heap[root] = _put(ev, v, path, x)


def _put(ev, v, path, x):
    if not path:
        return x
    if path[0][0] == 'itx':
        return mk('it', v.args[0], x)
    if len(path) == 1:
        return ev.put(v, path, x)
    return ev.put(v, path[:1], _put(ev, ev.proj(v, path[0]), path[1:], x))


def mkphi(v):
    if v.op == 'uninit':
        ty = TYPE.get(v, 'o')
    elif is_mat(v):
        ty = 'm'
    elif isbool(v):
        ty = 'b'
    elif v.op in ('vpush', 'vempty', 'vsto', 'vmap', 'vloop', 'vresize', 'vlist', 'vpushf', 'vpopf') or TYPE.get(v) == 'v':
        ty = 'v'
    elif numericish(v):
        ty = TYPE.get(v) if v.op not in ('num', 'poly', 'ite') else None
        if ty not in ('i', 'u', 'e'):
            ty = 'i' if is_int(v) else 'r'
        if ty == 'u':
            ty = 'i'
    elif v.op in ('addr', 'none'):
        ty = 'p'
    else:
        ty = TYPE.get(v, 'o')
    p = fresh('phi', ty)
    if ty == 'm' and v.op != 'uninit':
        DIMS[p] = dims(v)
        if ('el', v) in TYPE:
            TYPE[('el', p)] = TYPE[('el', v)]
    if v in ENUM:
        ENUM[p] = ENUM[v]
    return p


class Snap(object):
    def __init__(self, ev):
        self.ev = ev
        self.t = list(ev.throws)
        self.n = len(ev.notes)
        self.f = len(ev.facts)

    def restore(self):
        self.ev.throws[:] = self.t
        del self.ev.notes[self.n:]
        del self.ev.facts[self.f:]


def iteration(ev, s, st, kind, rangelv=None, k=None):
    """one iteration from st: returns (cond, Out of body+inc, cond_after)
    the Out is relative to cond being true"""
    ev.st = st
    c = TRUE
    if kind in ('for', 'while') and s.get('c') is not None:
        if s.get('cv'):
            ev.decl(s['cv'])
        c = ev.simp(ev.to_bool(ev.rv(ev.ev(s['c']), s['c'].get('t'))))
        if c is FALSE:
            return FALSE, None, None
        st = ev.st
        if c is not TRUE:
            ev.learn(st, c)
    if kind == 'forrange':
        v = s['var']
        ks = mapkeys(ev.load(rangelv)) if isinstance(rangelv, LV) and isinstance(ev.load(rangelv), T) and ev.load(rangelv).op in ('mapset', 'mapempty') else None
        if ks is not None and is_num(k):
            el = rangelv.sub(('mk', ks[int(k.args[0])]))
        else:
            el = rangelv.sub(('i', k)) if isinstance(rangelv, (LV, CLV)) else vsel(rangelv, k)
        t = ev.tt(v['t'])
        el2 = el
        if isinstance(el, LV):
            vt = ev.load(el, v['t'])
            el = LV(el.root, el.path, ev.cls_of_type(v['t']) if ev.tt(ev_strip(ev, v['t']))['k'] == 'rec' else None)
        if t['k'] in ('ref', 'rref'):
            if isinstance(el, T):
                el = ev.tmp(ev.typed(el, v['t']))
            ev.fr.vars[v['d']] = el
        else:
            root = ('var', ev.fr.id, v['d'])
            ev.st.heap[root] = ev.rv(el, v['t'])
            ev.fr.vars[v['d']] = LV(root, (), ev.cls_of_type(v['t']))
    st = ev.st
    known0 = dict(st.known)
    o = ev.exec_stmt(s['body'], st) if s.get('body') is not None else Out(st)
    # continue joins the normal end of the body
    if o.cont:
        if o.norm is None:
            o.norm = St(o.cont[1], dict(known0))
        else:
            o.norm = St(ev.mheap(o.cont[0], o.cont[1], o.norm.heap), dict(known0))
        o.cont = None
    ca = None
    if o.norm is not None:
        if kind == 'for' and s.get('inc') is not None:
            o2 = ev.exec_stmt(s['inc'], o.norm)
            o = ev.seq(o, o2)
        if kind == 'do':
            ev.st = o.norm
            ca = ev.simp(ev.to_bool(ev.rv(ev.ev(s['c']), s['c'].get('t'))))
            o.norm = ev.st
    return c, o, ca


def ev_strip(ev, tid):
    t = ev.tt(tid)
    while t['k'] in ('ref', 'rref'):
        tid = t['to']
        t = ev.tt(tid)
    return tid


def run_loop(ev, s):
    kind = s['k']
    rangelv = None
    pre = Out(ev.st)
    if kind == 'for' and s.get('init') is not None:
        o = ev.exec_stmt(s['init'], ev.st)
        if o.norm is None:
            return o
        ev.st = o.norm
    if kind == 'forrange':
        rangelv = ev.ev(s['range'])
        rv = ev.rv(rangelv, s['range'].get('t'))
        n_range = mapsize(rv) if rv.op in ('mapset', 'mapempty') else vsize(rv)
    st0 = ev.st
    for r in [r for r in st0.heap if isinstance(r, tuple) and r[0] == 'tmp' and False]:
        pass

    # ---- try to unroll with decided conditions
    u = unroll(ev, s, st0.copy(), kind, rangelv, n_range if kind == 'forrange' else None)
    if u is not None:
        return u
    ev.st = st0
    if ev.peel and kind in ('for', 'while', 'do'):
        return peel(ev, s, st0, kind, ev.peel)

    # ---- find the loop-carried locations
    phis = {}
    k = fresh('k', 'i')
    roots0 = set(st0.heap)
    for attempt in range(8):
        snap = Snap(ev)
        st1 = St(dict(st0.heap), {})
        for key, p in phis.items():
            putp(ev, st1.heap, key, p)
        base = dict(st1.heap)
        c, o, ca = iteration(ev, s, st1, kind, rangelv, k)
        new = []
        heaps = []
        if o is not None:
            if o.norm is not None:
                heaps.append(o.norm.heap)
            if o.brk:
                heaps.append(o.brk[1])
            if o.ret:
                heaps.append(o.ret[1])
        for h in heaps:
            for r in h:
                if r in base:
                    x = []
                    if base[r] is not h[r]:
                        diff(base[r], h[r], (), x)
                    new += [(r, p) for p in x]
                elif not (isinstance(r, tuple) and r[0] in ('var', 'tmp')):
                    x = []
                    diff(ev.root_init(r) if r != '$ev' else mk('vempty'), h[r], (), x)
                    if r == '$ev':
                        st0.heap['$ev'] = mk('vempty')
                    new += [(r, p) for p in x]
        new = [x for x in new if x not in phis]
        # a whole-object change swallows its parts
        done = True
        for key in new:
            if any(key2[0] == key[0] and key[1][:len(key2[1])] == key2[1] for key2 in phis):
                continue
            v0 = getp(ev, st0.heap, key)
            if v0 is None:
                ev.opq('loop location', s)
                continue
            for key2 in [x for x in phis if x[0] == key[0] and x[1][:len(key[1])] == key[1]]:
                del phis[key2]
            phis[key] = mkphi(v0)
            done = False
        if done:
            break
        snap.restore()
    else:
        ev.opq('loop fixpoint', s)
    ev.loops.append((ev.P.loc(ev.fr.fn) if ev.fr.fn else '?', s.get('l')))
    throws_new = ev.throws[len(snap.t):]
    del ev.throws[len(snap.t):]

    if c is FALSE or o is None:
        ev.st = st0
        return Out(st0)

    keys = list(phis)
    P = [phis[x] for x in keys]
    inits = [getp(ev, st0.heap, x) for x in keys]
    nh = o.norm.heap if o.norm is not None else None
    nexts = [getp(ev, nh, x) if nh is not None else None for x in keys]
    if nh is None:
        nexts = list(P)
    allphi = set(P)

    # ---- induction variables
    sub_ = {}
    ind = {}
    for key, p, i0, nx in zip(keys, P, inits, nexts):
        if numericish(p) and nx is not None and numericish(nx):
            d = tm.sub(nx, p)
            if not (d.syms & allphi) and k not in d.syms:
                ind[p] = (i0, d)
                sub_[p] = add(i0, mul(d, k))
    N = None
    extra = FALSE
    if kind == 'forrange':
        N = n_range
    else:
        cc = c if kind != 'do' else ca
        lits = list(cc.args[0]) if cc.op == 'and' else [cc]
        rest = []
        for l in lits:
            if N is None:
                if kind == 'do':
                    l2 = subst(l, sub_)
                else:
                    l2 = subst(l, sub_)
                n_ = trip(l2, k, allphi)
                if n_ is not None:
                    N = n_ if kind != 'do' else add(n_, ONE)
                    continue
            rest.append(l)
        if rest and not (len(rest) == 1 and rest[0] is TRUE):
            if kind == 'do':
                extra = FALSE
                do_exit = neg_b(band(*rest))
            else:
                extra = neg_b(band(*rest))
    if kind == 'do' and N is None:
        extra = FALSE
    if kind == 'do':
        lits = list(ca.args[0]) if ca is not None and ca.op == 'and' else [ca]
        do_exit = neg_b(ca) if N is None else FALSE
        if N is not None and len(lits) > 1:
            do_exit = neg_b(ca)
    else:
        do_exit = FALSE

    # ---- closed forms at iteration k
    at = {}
    for p, t in sub_.items():
        at[p] = t
    unresolved = [i for i, p in enumerate(P) if p not in sub_]
    nx_ = {i: subst(nexts[i], sub_) for i in unresolved}
    l = fresh('l', 'i')
    progress = True
    while progress and unresolved:
        progress = False
        for i in list(unresolved):
            p = P[i]
            m = {q: t for q, t in at.items() if q in nx_[i].syms}
            f = subst(nx_[i], m) if m else nx_[i]
            others = (f.syms & allphi) - {p}
            if others:
                nx_[i] = f
                continue
            t = closed(k, l, p, inits[i], f)
            if t is not None:
                at[p] = t
                unresolved.remove(i)
                progress = True
            nx_[i] = f
    if unresolved:
        # general recurrences: canonical fold over everything they need
        U = unresolved
        Ps = [P[i] for i in U]
        ins = [inits[i] for i in U]
        nxs = [nx_[i] for i in U]
        k2 = fresh('k', 'i')
        nxs2 = [subst(x, {k: k2}) for x in nxs]
        for j, i in enumerate(U):
            at[P[i]] = foldx(k2, k, Ps, ins, nxs2, None, j)

    def fin(t, kk):
        """instantiate a per-iteration term at iteration kk"""
        m = {p: at[p] for p in allphi if p in t.syms}
        t = subst(t, m) if m else t
        return subst(t, {k: kk})

    # ---- exits
    ebrk = o.brk[0] if o.brk else FALSE
    eret = o.ret[0] if o.ret else FALSE
    E = bor(extra, band(neg_b(extra), bor(ebrk, eret, do_exit)))
    res = Out()
    if o.norm is None and E is FALSE and o.thr is not TRUE:
        pass
    endheap = dict(st0.heap)
    if E is FALSE and N is not None:
        for key, p in zip(keys, P):
            putp(ev, endheap, key, fin(p, N))
        res.norm = St(endheap, dict(st0.known))
        nn = N
    else:
        Ek = fin(E, k)
        if N is not None:
            found = existsk(k, N, Ek)
            ks = firstk(k, N, Ek) if found is not FALSE else ZERO
        else:
            found = TRUE
            ks = firstk(k, NONE, Ek)
        heads = dict(st0.heap)
        ex_ = fin(extra, ks)
        # value of every location on exit
        for key, p in zip(keys, P):
            v = fin(p, ks)                       # head exit
            vb = v
            if o.brk:
                b = getp(ev, o.brk[1], key)
                vb = fin(b, ks)
            if do_exit is not FALSE:
                d = fin(nexts[keys.index(key)], ks)
                vb = d if not o.brk else ite(fin(ebrk, ks), vb, d)
            vv = ite(ex_, v, vb) if (o.brk or do_exit is not FALSE) else v
            if N is not None:
                endv = fin(p, N)
                if eret is not FALSE and ebrk is FALSE and extra is FALSE and do_exit is FALSE:
                    vv = endv           # the loop can only be left normally or by return
                else:
                    vv = ite(found, vv, endv)
            putp(ev, heads, key, vv)
        only_ret = eret is not FALSE and ebrk is FALSE and extra is FALSE and do_exit is FALSE
        if not (only_ret and N is None):
            res.norm = St(heads, dict(st0.known))
        if eret is not FALSE:
            rh = dict(st0.heap)
            for key, p in zip(keys, P):
                b = getp(ev, o.ret[1], key)
                putp(ev, rh, key, fin(b, ks))
            rc = band(found, fin(band(neg_b(extra), eret), ks)) if not only_ret else found
            rvv = o.ret[2]
            if isinstance(rvv, LV):
                rvv = LV(rvv.root, tuple(tuple(fin(a, ks) if isinstance(a, T) else a for a in acc) for acc in rvv.path), rvv.cls)
            elif isinstance(rvv, T):
                rvv = fin(rvv, ks)
            res.ret = (rc, rh, rvv)
            if res.norm is not None:
                ev.learn(res.norm, rc, False)
        nn = N
    # ---- throws
    if o.thr is not FALSE:
        tk = fin(band(o.thr, c if False else TRUE), k)
        res.thr = existsk(k, nn, tk) if nn is not None else mkb('existsx', tk, k)
        for (tc, w, tx) in throws_new:
            tc2 = fin(tc, k)
            ev.throws.append((existsk(k, nn, tc2) if nn is not None else mkb('existsx', tc2, k), w, tx))
        if res.norm is not None:
            ev.learn(res.norm, res.thr, False)
        if res.thr is TRUE:
            res.norm = None
    ev.st = res.norm if res.norm is not None else St(st0.heap, {})
    return res


def mkb(name, c, k):
    v, (b,) = bind(k, c)
    t = mk(name, v, b)
    TYPE[t] = 'b'
    return t


def closed(k, l, p, init, f):
    """value at the start of iteration k of p_{k+1} = f(k, p_k)"""
    fl = subst(f, {k: l})
    if is_mat(p) or TYPE.get(p) == 'm':
        if not is_mat(f):
            return None
        if not depends(f, p):
            return ite(eq(k, ZERO), init, subst(f, {k: tm.sub(k, ONE)}))
        p2 = fresh('M', 'm')
        DIMS[p2] = DIMS.get(p, dims(init))
        if ('el', p) in TYPE:
            TYPE[('el', p2)] = TYPE[('el', p)]
        # dimensions must be invariant
        d1, d2 = dims(f), dims(p)
        if d1 != d2 and not all(tm.eq(x, y) is TRUE or x is y for x, y in zip(d1, d2)):
            return None
        return mloop(l, p2, k, init, subst(fl, {p: p2}))
    if not depends(f, p):
        prev = subst(f, {k: tm.sub(k, ONE)})
        return ite(eq(k, ZERO), init, prev)
    if TYPE.get(p) == 'v':
        p2 = fresh('V', 'v')
        return vloop(l, p2, k, init, subst(fl, {p: p2}))
    if isbool(p):
        # conjunctive / disjunctive accumulation
        if fl.op == 'and' and p in fl.args[0]:
            rest = band(*[x for x in fl.args[0] if x is not p])
            if not depends(rest, p):
                return band(init, neg_b(existsk(l, k, neg_b(rest))))
        if fl.op == 'or' and p in fl.args[0]:
            rest = bor(*[x for x in fl.args[0] if x is not p])
            if not depends(rest, p):
                return bor(init, existsk(l, k, rest))
        return None
    if numericish(p) and numericish(f):
        g = tm.sub(fl, p)
        if not depends(g, p):
            return add(init, sumk(l, k, g))
        # geometric: p' = p * q with invariant q
        q = tm.div(fl, p)
        if not depends(q, p) and not depends(q, l):
            t = mk('pow', q, k)
            TYPE[t] = 'r'
            return mul(init, t)
        try:
            r = recur(l, k, p, fl, init)
        except Exception:
            r = None
        if r is not None and not depends(r, p):
            return r
    return None


def trip(l, k, phis):
    """number of iterations while literal l(k) holds, or None"""
    if l.syms & phis or not depends(l, k):
        return None
    if l.op == 'le0':
        d = lin_coef(l.args[0], k)
        if d is None:
            return trip_sym(l.args[0], k)
        a, b = d
        if a <= 0:
            return None
        if a == 1:
            return tm.sub(ONE, b)
        return add(idiv(neg(b), num(a)), ONE)
    if l.op == 'lt0':
        d = lin_coef(l.args[0], k)
        if d is None or d[0] <= 0:
            return None
        # real-valued counter: a*k + b < 0
        t = mk('ceilcount', neg(d[1]), num(d[0]))
        TYPE[t] = 'i'
        return t
    if l.op == 'not' and l.args[0].op == 'eq0':
        d = lin_coef(l.args[0].args[0], k)
        if d is None:
            return None
        a, b = d
        if abs(a) == 1:
            return scale(b, -1 / a)
    return None


def trip_sym(p, k):
    """p = s*k + b <= 0 with a symbolic positive stride s"""
    co, rest = {}, {}
    for m, c in pd(p).items():
        dm = dict(m)
        if dm.get(k) == 1:
            del dm[k]
            co[tuple(sorted(dm.items(), key=lambda z: z[0].id))] = c
        elif any(depends(a, k) for a, e in m):
            return None
        else:
            rest[m] = c
    if not co or any(c < 0 for c in co.values()) or not all(all(atom_nonneg(a) for a, e in m) for m in co):
        return None
    return add(idiv(neg(pt(rest)), pt(co)), ONE)


def unroll(ev, s, st, kind, rangelv, nr):
    """execute iterations while the condition is decided; None if it is not"""
    snap = Snap(ev)
    acc = Out(st)
    for it in range(17):
        if acc.norm is None:
            acc_ = acc
            break
        if kind == 'forrange':
            cnd = lt(num(it), nr)
            if cnd is FALSE:
                break
            if cnd is not TRUE:
                snap.restore()
                return None
        else:
            # is the condition decided here?
            if kind in ('for', 'while'):
                probe = acc.norm.copy()
                ev.st = probe
                pn = list(ev.throws)
                ev.pend.append(FALSE)
                cnd = ev.simp(ev.to_bool(ev.rv(ev.ev(s['c']), s['c'].get('t')))) if s.get('c') is not None else TRUE
                ev.pend.pop()
                ev.throws[:] = pn
                if cnd is FALSE:
                    ev.st = acc.norm
                    c, o, ca = iteration(ev, s, acc.norm, kind, rangelv, num(it))   # side effects of the condition
                    break
                if cnd is not TRUE:
                    snap.restore()
                    return None
            else:
                if it == 0:
                    pass
        mt = len(ev.throws)
        c, o, ca = iteration(ev, s, acc.norm, kind, rangelv, num(it))
        ev.reached(acc, mt)
        if o is None:
            break
        if o.brk:
            # conditional break: only handle a certain one
            if o.brk[0] is TRUE:
                acc = ev.seq(acc, Out(St(o.brk[1], {}), thr=o.thr))
                break
            snap.restore()
            return None
        acc = ev.seq(acc, o)
        if kind == 'do':
            if ca is FALSE or acc.norm is None:
                break
            if ca is not TRUE:
                snap.restore()
                return None
    else:
        snap.restore()
        return None
    if acc.norm is not None:
        ev.st = acc.norm
    return acc


def peel(ev, s, st, kind, n):
    """nest the first n iterations as conditionals; needing more of them is recorded as an exit (text 'loop bound')"""
    where = '%s:%s' % (ev.P.rel(ev.fr.fn) if ev.fr.fn else '?', s.get('l'))

    def under(cond, f):
        def g(stt):
            m = len(ev.throws)
            o = f(stt)
            ev.throws[m:] = [(band(cond, t[0]),) + t[1:] for t in ev.throws[m:]]
            return o
        return g

    def cond():
        if s.get('c') is None:
            return TRUE
        if s.get('cv'):
            ev.decl(s['cv'])
        return ev.simp(ev.to_bool(ev.rv(ev.ev(s['c']), s['c'].get('t'))))

    def head(stt, left):
        ev.st = stt
        c = cond()
        return ev.branch(c, under(c, lambda x: body(x, left)), lambda x: Out(x))

    def body(stt, left):
        if left == 0:
            ev.throws.append((TRUE, where, 'loop bound'))
            return Out(None, thr=TRUE)
        known0 = dict(stt.known)
        o = ev.exec_stmt(s['body'], stt) if s.get('body') is not None else Out(stt)
        if o.cont:
            if o.norm is None:
                o.norm = St(o.cont[1], dict(known0))
            else:
                o.norm = St(ev.mheap(o.cont[0], o.cont[1], o.norm.heap), dict(known0))
            o.cont = None
        if o.norm is None:
            return o
        if kind == 'for' and s.get('inc') is not None:
            o = ev.seq(o, ev.exec_stmt(s['inc'], o.norm))
        alive = neg_b(o.exits())
        m = len(ev.throws)
        r = head(o.norm, left - 1)
        ev.throws[m:] = [(band(alive, t[0]),) + t[1:] for t in ev.throws[m:]]
        return ev.seq(o, r)

    ev.st = st
    r = body(st, n) if kind == 'do' else head(st, n)
    if r.brk:
        r.norm = St(r.brk[1], dict(st.known)) if r.norm is None else St(ev.mheap(r.brk[0], r.brk[1], r.norm.heap), dict(st.known))
        r.brk = None
    ev.st = r.norm if r.norm is not None else St(st.heap, {})
    return r
