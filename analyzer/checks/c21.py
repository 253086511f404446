"""C21: a configuration which has been written restores the object; missing entries are refused or get their defaults."""
from .common import *
from sa.lib import concrete
from .c14 import M, compare, seq

NS = 'humoto::config::msgpack::'
RD, WR = NS + 'Reader', NS + 'Writer'
MP = 'msgpack::v1::'
PAY = '$payload'
TOK = '$tokens'
NODE = 'node'
SEQ = ('vlist', 'vempty', 'vpush', 'vsto', 'vresize')


class Malformed(Exception):
    pass


# ------------------------------------------------------- model of the format
def tokens(v):
    out = []
    while v.op == 'vpush':
        out.append(v.args[1])
        v = v.args[0]
    if v.op != 'vempty':
        raise Undecided('sequence of writes: %s' % v.op)
    return out[::-1]


def tree(toks):
    """written tokens as a list of values: ('map', [(name, value)]), ('array', [value]), ('value', term)"""
    pos = [0]

    def value():
        if pos[0] >= len(toks):
            raise Malformed('fewer values than announced')
        t = toks[pos[0]]
        pos[0] += 1
        k = t.args[0]
        if k in ('map', 'array'):
            n = concrete(t.args[1][0])
            if n is None:
                raise Undecided('size of a %s' % k)
            if k == 'array':
                return ['array', [value() for _ in range(n)]]
            out = []
            for _ in range(n):
                key = value()
                if key[0] != 'value' or key[1].op != 'str':
                    raise Malformed('name of an entry: %s' % key[1])
                out.append((key[1].args[0], value()))
            return ['map', out]
        return plain(t.args[1][0])
    out = []
    while pos[0] < len(toks):
        out.append(value())
    return out


def plain(v):
    if v.op == 'vlist':
        return ['array', [plain(x) for x in v.args[0]]]
    if v.op == 'vempty':
        return ['array', []]
    if v.op in SEQ:
        n = concrete(vsize(v))
        if n is not None:
            return ['array', [plain(vsel(v, num(i))) for i in range(n)]]
    return ['value', v]


def node(ev, t):
    """object of the library"""
    o = mk('obj', uid('node'))
    if t[0] == 'value':
        return upd(upd(o, MP + 'object::type', num(99)), PAY, t[1])
    arr = LV(uid('arr'), (), None)
    via = mk('obj', uid('via'))
    if t[0] == 'array':
        ev.store(arr, seq([node(ev, x) for x in t[1]]) if t[1] else mk('vempty'))
        s = upd(upd(mk('obj', uid('s')), MP + 'object_array::size', num(len(t[1]))), MP + 'object_array::ptr', arr.addr())
        return upd(upd(o, MP + 'object::type', num(7)), MP + 'object::via', upd(via, MP + 'object::union_type::array', s))
    kvs = []
    for k, x in t[1]:
        kv = mk('obj', uid('kv'))
        kvs.append(upd(upd(kv, MP + 'object_kv::key', node(ev, ['value', mk('str', k)])), MP + 'object_kv::val', node(ev, x)))
    ev.store(arr, seq(kvs) if kvs else mk('vempty'))
    s = upd(upd(mk('obj', uid('s')), MP + 'object_map::size', num(len(kvs))), MP + 'object_map::ptr', arr.addr())
    return upd(upd(o, MP + 'object::type', num(8)), MP + 'object::via', upd(via, MP + 'object::union_type::map', s))


def payload(ev, o):
    t = fld(o, MP + 'object::type')
    if t is num(7):
        s = fld(fld(o, MP + 'object::via'), MP + 'object::union_type::array')
        v = ev.load(ev.deref(fld(s, MP + 'object_array::ptr')))
        n = concrete(vsize(v))
        return seq([payload(ev, vsel(v, num(i))) for i in range(n)]) if n else mk('vempty')
    return fld(o, PAY)


def lib(ev, n, q, base, op, args):
    if q.startswith(MP + 'packer::'):
        k = {'pack_map': 'map', 'pack_array': 'array'}.get(base, 'value')
        v = ev.val(args[0])
        lv = LV(TOK, (), None)
        ev.store(lv, mk('vpush', ev.load(lv), mk('ev', k, (v,))))
        return mk('void')
    if q == 'qpOASES::Options::setToMPC':
        # sets all options
        x = ev.objlv(n)
        if isinstance(x, LV):
            ev.store(x, mk('obj', 'options for MPC'))
            return num(0)
    if q == MP + 'object::as':
        return payload(ev, ev.rv(ev.objlv(n)))
    if q == MP + 'object_handle::get':
        x = ev.objlv(n)
        return x.sub(('f', '$object')) if isinstance(x, LV) else NotImplemented
    if op == '>>' and q.startswith(MP):
        o = ev.val(args[0])
        x = ev.ev(args[1])
        if isinstance(x, (LV, CLV)):
            v = payload(ev, o)
            ev.store(x, v)
            return mk('void')
    return NotImplemented


# ------------------------------------------------------- reading and writing
def instances(cx, q, n, first):
    """instances of a template method whose first parameter is of the given class"""
    return [f for f in cx.P.F.values() if f['q'] == q and 'body' in f and len(f['params']) == n and (cx.ptype(f, 0).get('q') == first)]


def base_method(cx, key, name, n, first, second=None):
    """the template method of the configurable base of the class"""
    for b in [key] + all_bases(cx, key):
        for f in cx.P.F.values():
            if f.get('cls') == b and f['n'] == name and 'body' in f and len(f['params']) == n and cx.ptype(f, 0).get('q') == first:
                if second is None or 'basic_string' in (cx.ptype(f, 1).get('q') or ''):
                    return f
    raise Missing('%s of %s' % (name, key))


def all_bases(cx, key):
    out, todo = [], [key]
    while todo:
        for b in cx.P.C.get(todo.pop(0), {}).get('bases', []):
            if b.get('key') and b['key'] not in out:
                out.append(b['key'])
                todo.append(b['key'])
    return out


def writer(cx, ev):
    ev.libhook = lib
    ev.peel = 60
    ev.store(LV(TOK, (), None), mk('vempty'))
    w = LV(uid('writer'), (), cx.cls(WR))
    return w


def written(cx, key, obj, ev0):
    """tree written for an object"""
    ev = cx.eval()
    ev.libhook = lib
    ev.st = ev0.st.copy()
    w = writer(cx, ev)
    f = base_method(cx, key, 'writeConfig', 2, WR, True)
    r = cx.run(f, obj, [w, mk('str', NODE)], ev)
    return tree(tokens(ev.load(LV(TOK, (), None)))), r, f


def reader(cx, ev, roots):
    ev.libhook = lib
    ev.peel = 60
    r = LV(uid('reader'), (), cx.cls(RD))
    hs = []
    for t in roots:
        h = LV(uid('handle'), (), None)
        ev.store(h.sub(('f', '$object')), node(ev, t))
        hs.append(h.addr())
    ev.store(r.sub(('f', RD + '::handles_')), seq(hs) if hs else mk('vempty'))
    ev.store(r.sub(('f', RD + '::node_stack_')), mk('vempty'))
    return r


def read(cx, key, obj, ev, roots, strict, name=NODE):
    r = reader(cx, ev, roots)
    f = base_method(cx, key, 'readConfig', 3, RD, True)
    return cx.run(f, obj, [r, mk('str', name), strict], ev), r, f


def flat(t, path=()):
    """entries by their names"""
    if t[0] == 'map':
        out = {}
        for k, x in t[1]:
            out.update(flat(x, path + (k,)))
        return out
    if t[0] == 'array':
        out = {path + ('#',): num(len(t[1]))}
        for i, x in enumerate(t[1]):
            out.update(flat(x, path + (str(i),)))
        return out
    return {path: t[1]}


def fresh(cx, key, ev):
    """object with arbitrary contents; sizes of matrices are fixed"""
    lv = LV(uid('config'), (), key)
    for k in [key] + all_bases(cx, key):
        for m in cx.P.C.get(k, {}).get('fields', []):
            t = cx.P.strip(m['t'])
            if (t.get('q') or '').startswith('Eigen::Matrix'):
                r, c = t.get('rows') or -1, t.get('cols') or -1
                if r < 0 or c < 0:
                    ev.store(lv.sub(('f', cx.P.C[k]['q'] + '::' + m['n'])), emat(M('e', r if r > 0 else 2, c if c > 0 else 3)))
    return lv


def classes(cx):
    have = set()
    for f in cx.P.F.values():
        if f['n'] == 'writeConfigEntriesTemplate' and 'body' in f and f.get('cls') and cx.ptype(f, 0).get('q') == WR and f['cls'] in cx.P.C:
            have.add(f['cls'])
    out = []
    for k, c in cx.P.C.items():
        bases = all_bases(cx, k)
        if c.get('abstract') or not have & set([k] + bases):
            continue
        if any(cx.P.C.get(b, {}).get('q') == 'humoto::OptimizationProblem' for b in bases):
            continue
        out.append(k)
    if not out:
        raise Missing('configurable classes')
    return sorted(out)


def without(t, path):
    """tree without an entry"""
    if len(path) == 1 and path == (NODE,):
        return ['map', [('other', x) for k, x in t[1]]]
    return ['map', [(k, without(x, path[1:]) if len(path) > 1 and k == path[0] else x) for k, x in t[1] if path != (k,)]]


def entries(t, path=()):
    """paths of all entries, nested ones included"""
    out = []
    for k, x in t[1]:
        out.append(path + (k,))
        if x[0] == 'map' and not is_matrix(x):
            out += entries(x, path + (k,))
    return out


def defaults(cx, key, ev):
    lv = fresh(cx, key, ev)
    f = cx.meth(key, 'setDefaults', 0)
    cx.run(f, lv, [], ev)
    return lv


def same_entries(cx, nm, got, want, W, rule, facts=()):
    for k in sorted(set(got) | set(want)):
        n = '%s: %s' % (nm, '.'.join(k[1:]) or '-')
        if k not in got or k not in want:
            cx.eq(n + (': missing' if k in want else ': surplus'), FALSE, TRUE, facts, W, rule)
        elif got[k].op == 'str' or want[k].op == 'str':
            cx.eq(n, TRUE if got[k] is want[k] else FALSE, TRUE, facts, W, rule)
        else:
            cx.eq(n, got[k], want[k], facts, W, rule)


def nested(t, path):
    """shortest prefix of the path which is a member object, None for plain entries"""
    for i in range(2, len(path) + 1):
        x = ['map', [(path[0], dict(t[1])[path[0]])]]
        for k in path[:i]:
            x = dict(x[1]).get(k) if x[0] == 'map' else None
            if x is None:
                return None
        if x[0] == 'map' and not is_matrix(x):
            return path[:i]
    return None


def is_matrix(x):
    return x[0] == 'map' and set(n for n, _ in x[1]) == {'rows', 'cols', 'data'}


def emptied(t, path):
    """tree with an empty node"""
    if not path:
        return ['map', []]
    return ['map', [(k, emptied(x, path[1:]) if k == path[0] else x) for k, x in t[1]]]


def after_reading(cx, key, roots, strict):
    ev = cx.eval()
    ev.libhook = lib
    b = fresh(cx, key, ev)
    before = flat(written(cx, key, b, ev)[0][0])
    r, rd, f = read(cx, key, b, ev, roots, TRUE if strict else FALSE)
    return r, vsize(fld(ev.load(rd), RD + '::node_stack_')), flat(written(cx, key, b, ev)[0][0]), before


def restores(cx, key):
    nm = cx.P.C[key]['q'].replace('humoto::', '')
    ev = cx.eval()
    ev.libhook = lib
    a = fresh(cx, key, ev)
    try:
        roots, r, f = written(cx, key, a, ev)
    except Malformed as e:
        return cx.bad(nm + ': written', cx.where(base_method(cx, key, 'writeConfig', 2, WR, True)), str(e))
    W = cx.where(f)
    cx.never(nm + ': writing refused', r.thrown(), [], W)
    cx.eq(nm + ': one node is written', num(len(roots)), ONE, [], W, 'announced numbers of entries are the numbers of written entries')
    names = [k for k, _ in roots[0][1]] if roots[0][0] == 'map' else []
    cx.eq(nm + ': the node has the given name', TRUE if names == [NODE] else FALSE, TRUE, [], W)
    if names != [NODE] or len(roots) != 1:
        return
    es = entries(roots[0])
    cx.eq(nm + ': names of entries differ', num(len(set(es))), num(len(es)), [], W, 'every entry can be found')
    if len(set(es)) != len(es):
        return
    A = flat(roots[0])
    ev = cx.eval()
    ev.libhook = lib
    d = defaults(cx, key, ev)
    DT = written(cx, key, d, ev)[0]
    D = flat(DT[0])
    ev = cx.eval()
    ev.libhook = lib
    d = fresh(cx, key, ev)
    before = flat(written(cx, key, d, ev)[0][0])
    cx.run(cx.meth(key, 'setDefaults', 0), d, [], ev)
    D2 = flat(written(cx, key, d, ev)[0][0])
    WD = cx.where(cx.meth(key, 'setDefaults', 0))
    # identifiers given to constructors are kept
    kept = set(k for k in D2 if k in before and D2[k] is before[k] and text(cx, key, D2[k]))
    same_entries(cx, nm + ': defaults do not depend on the past', dict((k, v) for k, v in D2.items() if k not in kept),
                 dict((k, v) for k, v in D.items() if k not in kept), WD, 'setDefaults() sets every entry')
    W = cx.where(base_method(cx, key, 'readConfig', 3, RD, True))
    for strict in (True, False):
        r, depth, B, _ = after_reading(cx, key, roots, strict)
        n = '%s: %s reading' % (nm, 'strict' if strict else 'relaxed')
        ok = [neg_b(r.thrown())]
        cx.eq(n + ': nesting', depth, ZERO, ok, W, 'the reader returns to the node it started from')
        same_entries(cx, n, B, A, W, 'what has been written is read', ok)
        more = [['map', []], ['map', [('other', ['map', []])]], ['map', [(NODE, ['value', ONE])]], ['value', ONE]]
        for k, rs in enumerate((more + roots, roots + more)):
            r2, depth, B, _ = after_reading(cx, key, rs, strict)
            cx.eq('%s of a file with other nodes (%d): refused' % (n, k), r2.thrown(), r.thrown(), [], W, 'other nodes are not looked at')
            same_entries(cx, '%s of a file with other nodes (%d)' % (n, k), B, A, W, 'other nodes are not looked at', ok)
        rd, depth, B, _ = after_reading(cx, key, DT, strict)
        cx.never(n + ': the defaults refused', rd.thrown(), [], W)
        same_entries(cx, n + ' of defaults', B, D, W, 'what has been written is read')
        inner = [e for e in es if len(e) > 2]
        # members with many entries are examined on their own
        skip = set(inner[1:-1]) if len(inner) > 20 else ()
        for e in es:
            if e in skip:
                continue
            n = '%s: %s reading without %s' % (nm, 'strict' if strict else 'relaxed', '.'.join(e[1:]) or 'the node')
            r2, depth, B, before = after_reading(cx, key, [without(roots[0], e)], strict)
            if strict:
                cx.eq(n, r2.thrown(), TRUE, [], W, 'a missing entry is refused')
                continue
            ok = [neg_b(r2.thrown())]
            r3 = after_reading(cx, key, [without(DT[0], e)], strict)[0]
            cx.never(n + ': refused', r3.thrown(), [], W)
            cx.eq(n + ': nesting', depth, ZERO, ok, W, 'the reader returns to the node it started from')
            m = nested(roots[0], e)
            E = D
            if m:
                # members have the defaults of their own class
                E = after_reading(cx, key, [emptied(roots[0], m)], strict)[2]
                E2 = after_reading(cx, key, [emptied(roots[0], m)], strict)[2]
                same_entries(cx, n + ': the same defaults', E2, E, W, 'defaults do not depend on the past', ok)
            want = {}
            for k in set(A) | set(E):
                v = (E if k[:len(e)] == e else A).get(k)
                if k in kept and k[:len(e)] == e:
                    v = before.get(k)
                if v is not None:
                    want[k] = v
            same_entries(cx, n, B, want, W, 'a missing entry has its default', ok)


def text(cx, key, v):
    """is it the value of a member which is a string"""
    if v.op != 'fld':
        return v.op in ('str',)
    q = v.args[1]
    for k in [key] + all_bases(cx, key):
        c = cx.P.C.get(k, {})
        for m in c.get('fields', []):
            if c['q'] + '::' + m['n'] == q:
                return 'basic_string' in (cx.P.strip(m['t']).get('q') or '')
    return False


def samples(cx, f, ev):
    """values of several sizes for the first parameter of a method"""
    t = cx.ptype(f, 0)
    q = t.get('q') or ''
    if t.get('rows') is not None:
        R, C = t['rows'], t['cols']
        for r in ([R] if R > 0 else [0, 1, 3]):
            for c in ([C] if C > 0 else [1, 2]):
                yield emat(M('v', r, c)) if r * c else mk('mzero', num(r), num(c))
    elif q == 'std::vector':
        x = cx.P.ty(t['args'][0]['t'])
        if x.get('q') == 'std::vector':
            yield seq([seq([mk('str', 'a'), mk('str', 'b')]), seq([mk('str', 'c')])])
            yield mk('vempty')
        else:
            yield seq([sym(uid('v')) for _ in range(3)])
            yield mk('vempty')
    elif 'basic_string' in q:
        yield mk('str', 'text')
    elif t['k'] == 'bool':
        yield sym(uid('flag'), 'b')
    else:
        yield sym(uid('v'))


def flat_value(v):
    """size and elements"""
    if is_mat(v):
        r, c = [concrete(x) for x in dims(v)]
        return [num(r), num(c)] + [elem(v, num(i), num(j)) for i in range(r) for j in range(c)]
    if v.op in SEQ:
        n = concrete(vsize(v))
        if n is None:
            return [v]
        out = [num(n)]
        for i in range(n):
            x = vsel(v, num(i))
            out += flat_value(x) if x.op in SEQ else [x]
        return out
    return [v]


def kinds(cx):
    """methods writing and reading values of the same type"""
    out = []
    for w in cx.P.F.values():
        if w.get('clsq', w['q'].rsplit('::', 1)[0]) != WR or 'body' not in w or len(w['params']) != 2 or not w['n'].startswith('write'):
            continue
        n = 'read' + w['n'][5:]
        s = cx.ptype(w, 0)['s'].replace('const ', '')
        r = [f for f in cx.P.F.values() if f['q'] == RD + '::' + n and 'body' in f and cx.ptype(f, 0)['s'].replace('const ', '') == s]
        if len(r) == 1:
            out.append((w, r[0], s))
    if not out:
        raise Missing('methods of the writer')
    return sorted(out, key=lambda x: (x[0]['n'], x[2]))


def values(cx, w, f, s):
    nm = '%s of %s' % (w['n'], s)
    W, R = cx.where(w), cx.where(f)
    for i, v in enumerate(samples(cx, w, cx.eval())):
        ev = cx.eval()
        wr = writer(cx, ev)
        x = LV(uid('value'), (), None)
        ev.store(x, v)
        y = LV(uid('other'), (), None)
        ev.store(y, sym(uid('y')))
        cx.run(w, wr, [x, mk('str', 'entry')], ev)
        cx.eq('%s (%d): left as it was' % (nm, i), TRUE if same(ev.load(x), v) else FALSE, TRUE, [], W)
        try:
            t = tree(tokens(ev.load(LV(TOK, (), None))))
        except Malformed as e:
            cx.bad('%s (%d): written' % (nm, i), W, str(e))
            continue
        ok = len(t) == 2 and t[0][0] == 'value' and t[0][1].op == 'str' and t[0][1].args[0] == 'entry'
        cx.eq('%s (%d): a name and a value' % (nm, i), TRUE if ok else FALSE, TRUE, [], W, 'announced sizes are the numbers of written values')
        if not ok:
            continue
        other = ['value', sym(uid('z'))]
        for place in range(3):
            kv = [('first', other), ('last', other)]
            kv.insert(place, ('entry', t[1]))
            for strict in (TRUE, FALSE):
                back(cx, '%s (%d), place %d, %s' % (nm, i, place, 'strict' if strict is TRUE else 'relaxed'), f, R, [['map', [(NODE, ['map', kv])]]], v, strict, False)
        if t[1][0] == 'array' and cx.ptype(f, 0).get('rows', -1) > 0:
            for bad in (t[1][1][:-1], t[1][1] + [other]):
                back(cx, '%s: wrong size (%d)' % (nm, len(bad)), f, R, [['map', [(NODE, ['map', [('entry', ['array', bad])]])]]], v, FALSE, True)
        if is_matrix(t[1]):
            d = dict(t[1][1])
            for k, z in (('rows', ['value', add(d['rows'][1], ONE)]), ('cols', ['value', add(d['cols'][1], ONE)]), ('data', ['array', d['data'][1] + [other]])):
                if k != 'data' and concrete(d['rows' if k == 'cols' else 'cols'][1]) == 0:
                    continue
                e = dict(d)
                e[k] = z
                back(cx, '%s (%d): inconsistent %s' % (nm, i, k), f, R, [['map', [(NODE, ['map', [('entry', ['map', sorted(e.items())])]])]]], v, FALSE, True)
        if t[1][0] in ('array', 'map'):
            back(cx, '%s (%d): a scalar instead' % (nm, i), f, R, [['map', [(NODE, ['map', [('entry', other)]])]]], v, FALSE, True)


def same(a, b):
    return a is b or (len(flat_value(a)) == len(flat_value(b)) and all(x is y for x, y in zip(flat_value(a), flat_value(b))))


def back(cx, nm, f, R, roots, v, strict, refused):
    ev = cx.eval()
    ev.libhook = lib
    rd = reader(cx, ev, roots)
    d = cx.meth(RD, 'descend', 1)
    cx.run(d, rd, [mk('str', NODE)], ev)
    x = LV(uid('read'), (), None)
    t = cx.ptype(f, 0)
    if t.get('rows') is not None:
        ev.store(x, emat(M('old', t['rows'] if t['rows'] > 0 else 4, t['cols'] if t['cols'] > 0 else 2)))
    elif t.get('q') == 'std::vector':
        ev.store(x, seq([sym(uid('old'))]))
    r = cx.run(f, rd, [x, mk('str', 'entry'), strict], ev)
    if refused:
        cx.eq(nm + ': refused', r.thrown(), TRUE, [], R, 'values of a wrong shape are refused')
        return
    cx.never(nm + ': refused', r.thrown(), [], R)
    cx.eq(nm + ': nesting', vsize(fld(ev.load(rd), RD + '::node_stack_')), ONE, [], R, 'the reader returns to the node it started from')
    got, want = flat_value(ev.load(x)), flat_value(v)
    cx.eq(nm + ': size', num(len(got)), num(len(want)), [], R)
    for i, (a, b) in enumerate(zip(got, want)):
        if a.op == 'str' or b.op == 'str':
            a, b = (TRUE if a is b else FALSE), TRUE
        cx.eq('%s: value %d' % (nm, i), a, b, [], R, 'what has been written is read')


def check(cx):
    for w, f, s in cx.guard('methods of the writer and the reader', kinds, cx) or []:
        cx.guard('%s of %s' % (w['n'], s), values, cx, w, f, s)
    for k in classes(cx):
        cx.guard('class ' + k, restores, cx, k)
