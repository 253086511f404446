"""C27: the logger writes each entry once, in order, under its name, with its thread and without data races."""
from .common import *
from sa.evalr import CLV, Lam, Out, St
from sa.lib import isq
from .c26 import subterms

NS = 'humoto::'
LG = NS + 'Logger'
S = '$log'
MUTEX = ('boost::mutex', 'std::mutex', 'boost::recursive_mutex', 'std::recursive_mutex', 'boost::timed_mutex', 'std::timed_mutex')
GUARD = ('boost::lock_guard', 'std::lock_guard', 'boost::unique_lock', 'std::unique_lock', 'std::scoped_lock', 'boost::strict_lock')
THREAD = ('boost::thread', 'std::thread')
ATOMIC = ('std::atomic', 'boost::atomic', 'boost::atomics::atomic')
SYNCHRONISED = MUTEX + THREAD + ATOMIC + ('boost::condition_variable', 'std::condition_variable')


class Blocked(Exception):
    """an action waits for the thread"""


class World(object):
    """library calls of the logger: streams record what they are given, mutexes their owner, the queue its content

    The state lives in the heap of the evaluator, so that it follows the control flow:
    fields of S: out (written so far, per stream), own (locks and their owners), n (synchronisation points of the thread),
    next (actions of the program done), bad (broken rules), up (the thread runs), guards.
    """

    def __init__(self, cx, ev, lv):
        self.cx, self.ev, self.lv = cx, ev, lv
        self.who = 'm'
        self.actions = []
        self.at = []
        self.acc = set()
        self.body = None
        self.sleeps = []
        self.refuse = False
        self.threads = 0
        self.depth = 0
        self.limit = None
        ev.libhook, ev.ctorhook = self.call, self.ctor
        self._load, self._store, self._block = ev.load, ev.store, ev.block
        ev.load, ev.store, ev.block = self.load, self.store, self.block
        ev.event = self.event
        ev.peel = 40
        ev.st.heap[S] = mk('world', (('out', ()), ('own', ()), ('n', 0), ('next', 0), ('bad', ()), ('up', False), ('guards', ()), ('file', 0), ('deleted', ())))

    # ---- state
    def get(self, f, heap=None):
        t = (heap or self.ev.st.heap)[S]
        if t.op != 'world':
            raise Undecided('effect of a library call')
        return dict(t.args[0])[f]

    def put(self, f, v, heap=None):
        h = self.ev.st.heap if heap is None else heap
        d = dict(h[S].args[0])
        d[f] = v
        h[S] = mk('world', tuple(sorted(d.items())))

    def bad(self, text):
        b = self.get('bad')
        if text not in b:
            self.put('bad', b + (text,))

    # ---- accesses to the members
    def field(self, lv):
        if not isinstance(lv, LV) or lv.root != self.lv.root or not lv.path or lv.path[0][0] != 'f':
            return None
        f = lv.path[0][1]
        return None if isq(self.types().get(f, ''), *SYNCHRONISED) else f

    def types(self):
        if not hasattr(self, '_t'):
            P = self.cx.P
            self._t, self.scalar = {}, set()
            for k in [self.lv.cls] + [b['key'] for b in P.C[self.lv.cls]['bases']]:
                for f in P.C[k]['fields']:
                    t = P.strip(f['t'])
                    self._t[P.C[k]['q'] + '::' + f['n']] = t.get('q') or ''
                    if t['k'] in ('bool', 'int', 'enum'):
                        self.scalar.add(P.C[k]['q'] + '::' + f['n'])
        return self._t

    def access(self, lv, kind):
        f = self.field(lv)
        if f and self.get('up'):
            self.acc.add((f, self.who, kind, frozenset(k for k, w in self.get('own') if w == self.who)))
            return True
        return False

    def load(self, lv, tid=None):
        if self.access(lv, 'r') and self.field(lv) in self.scalar:
            self.sync()
        return self._load(lv, tid)

    def store(self, lv, x):
        self.access(lv, 'w')
        return self._store(lv, x)

    def event(self, name, args):
        if name == 'delete':
            p = args[0]
            d = self.get('deleted')
            if p in d:
                self.bad('a message is deleted twice')
            self.put('deleted', d + (p,))

    # ---- scheduling: the program acts at synchronisation points of the thread
    def sync(self):
        if self.who != 't':
            return
        self.put('n', self.get('n') + 1)
        if self.limit is not None and self.get('next') == len(self.actions) and self.get('n') > self.limit + max(self.at or [0]):
            self.bad('the thread does not end')
            raise Endless
        while self.get('next') < len(self.actions) and not self.get('own') and self.at[self.get('next')] <= self.get('n'):
            self.act()

    def act(self):
        i = self.get('next')
        self.put('next', i + 1)
        self.who = 'm'
        try:
            self.actions[i]()
            if self.get('own'):
                self.bad('a lock is not released')
        except Blocked:
            pass
        finally:
            self.who = 't'

    # ---- locks
    def lock(self, k):
        o = dict(self.get('own'))
        if k in o:
            self.bad('a lock is taken twice' if o[k] == self.who else 'deadlock')
            raise Endless
        o[k] = self.who
        self.put('own', tuple(sorted(o.items())))

    def unlock(self, k, heap=None):
        o = dict(self.get('own', heap))
        if o.pop(k, None) is None:
            self.bad('a lock is released which is not held')
        self.put('own', tuple(sorted(o.items())), heap)

    def mutex(self, x):
        if isinstance(x, T) and x.op == 'addr':
            x = self.ev.deref(x)
        if isinstance(x, LV):
            return str(('this',) + x.path if x.root == self.lv.root else x.addr())
        raise Undecided('mutex')

    def block(self, stmts, st):
        g0 = self.get('guards', st.heap)
        o = self._block(stmts, st)
        if stmts and all(x is not None and x['k'] == 'decl' for x in stmts):
            return o        # declarations, not a scope
        heaps = []
        if o.norm is not None:
            heaps.append(o.norm.heap)
        heaps += [x[1] for x in (o.ret, o.brk, o.cont) if x]
        done = set()
        for h in heaps:
            if id(h) in done or S not in h:
                continue
            done.add(id(h))
            g = self.get('guards', h)
            for name, k, held in g:
                if (name, k) not in [x[:2] for x in g0] and held:
                    self.unlock(k, h)
            self.put('guards', tuple(x for x in g if x[:2] in [y[:2] for y in g0]), h)
        return o

    def ctor(self, ev, n, t, q, args):
        tq = t.get('q', '')
        if tq == 'Eigen::IOFormat' and not n.get('copy') and not (len(args) == 1 and ev.P.strip(args[0]['t']).get('q') == tq):
            return mk('ioformat', tuple(self.value(a) for a in args))
        if isq(tq, *GUARD) and args:
            k = self.mutex(ev.ev(args[0]))
            deferred = [a for a in args[1:] if 'defer' in str(ev.tt(a['t']).get('q', ''))]
            if len(args) > 1 and not deferred:
                raise Undecided('kind of a lock')
            name = uid('guard')
            if not deferred:
                self.sync()
                self.lock(k)
            self.put('guards', self.get('guards') + ((name, k, not deferred),))
            return mk('guard', name, k)
        if isq(tq, *THREAD) and args:
            if n.get('copy') or len(args) == 1 and isq(ev.P.strip(args[0]['t']).get('q', ''), *THREAD):
                return NotImplemented
            xs = [ev.ev(a) for a in args]
            return self.spawn(xs)
        return NotImplemented

    def spawn(self, xs):
        body = None
        for x in xs:
            if isinstance(x, Lam):
                body = x
            elif isinstance(x, T):
                for y in subterms(x, set()):
                    if y.op == 'func':
                        body = self.cx.P.F.get(y.args[0])
                    if y.op == 'lam':
                        body = y
        if body is None:
            raise Undecided('body of the thread')
        if self.get('up'):
            self.bad('a second thread is started')
        self.body = body
        self.threads += 1
        self.put('up', True)
        return mk('thread', num(self.threads))

    def run_thread(self):
        w, self.who = self.who, 't'
        try:
            if isinstance(self.body, Lam):
                # the object which created the thread is captured
                self.ev.call_body(self.cx.P.F[self.body.f], self.body, [], {'k': 'call'})
            else:
                self.ev.call_body(self.body, self.lv, [], {'k': 'call'})
            if self.get('own'):
                self.bad('the thread ends with a lock held')
        finally:
            self.who = w

    # ---- the library
    def call(self, ev, n, q, base, op, args):
        if isq(q, *[m + '::' for m in MUTEX]) and base in ('lock', 'unlock', 'try_lock'):
            k = self.mutex(ev.ev(n['obj']))
            if base == 'try_lock':
                raise Undecided('try_lock')
            if base == 'lock':
                self.sync()
                self.lock(k)
            else:
                self.unlock(k)
                self.sync()
            return mk('void')
        if isq(q, *[m + '::' for m in GUARD]):
            x = ev.val(n['obj'])
            if x.op != 'guard' or base not in ('lock', 'unlock', 'owns_lock'):
                raise Undecided('lock: ' + base)
            g = self.get('guards')
            held = [y[2] for y in g if y[:2] == tuple(x.args)]
            if base == 'owns_lock':
                return TRUE if held == [True] else FALSE
            if base == 'lock':
                self.sync()
                self.lock(x.args[1])
            else:
                self.unlock(x.args[1])
            self.put('guards', tuple((y[0], y[1], base == 'lock') if y[:2] == tuple(x.args) else y for y in g))
            return mk('void')
        if isq(q, *[m + '::' for m in ATOMIC]):
            lv = ev.ev(n['obj'])
            self.sync()
            if base == 'load' or base.startswith('operator ') and not args:
                v = self._load(lv)
                return v
            if base in ('store', 'operator=', 'exchange'):
                old = self._load(lv)
                self._store(lv, ev.val(args[0]))
                return old if base == 'exchange' else ev.load(lv)
            raise Undecided('atomic: ' + base)
        if base in ('sleep_for', 'sleep', 'yield', 'sleep_until'):
            if any(w == self.who for k, w in self.get('own')):
                self.bad('sleeps with a lock held')
            if self.who == 't':
                v = [ev.rv(ev.ev(a)) for a in args]
                self.sleeps.append(v[0] if v and isinstance(v[0], T) else mk('void'))
            self.sync()
            return mk('void')
        if isq(q, *[m + '::' for m in THREAD]):
            if base == 'join':
                return self.join()
            if base == 'joinable':
                return TRUE if self.get('up') else FALSE
            if base in ('operator=', 'swap') and args:
                ev.store(ev.ev(n['obj']), ev.rv(ev.ev(args[0])))
                return ev.ev(n['obj'])
            if base in ('get_id', 'native_handle'):
                return NotImplemented
            raise Undecided('thread: ' + base)
        if 'obj' in n and base in ('flush', 'write', 'put', 'open', 'close', 'is_open', 'fail', 'good', 'bad', 'clear', 'eof', 'operator!', 'rdbuf', 'precision') and isq(ev.P.strip(n['obj']['t']).get('q', '') or q, 'std::basic_', 'std::ios'):
            return self.stream(n, base, args)
        if op == '<<' or base == 'operator<<':
            first = n['obj'] if 'obj' in n else args[0]
            rest = args if 'obj' in n else args[1:]
            if isq(ev.P.strip(first['t']).get('q', ''), 'std::basic_', 'std::ios') and len(rest) == 1:
                s = ev.ev(first)
                self.item(s, self.value(rest[0]))
                return s
            return NotImplemented
        if base == 'endl' or base == 'flush':
            s = ev.ev(args[0])
            self.item(s, mk('str', '\n') if base == 'endl' else mk('flush'))
            if base == 'endl':
                self.item(s, mk('flush'))
            return s
        if base == 'format' and isq(q, 'Eigen::DenseBase'):
            f = ev.ev(args[0])
            return mk('formatted', ev.val(n['obj']), ev.load(f) if isinstance(f, LV) else f)
        if base == 'bind' and isq(q, 'boost::', 'std::'):
            return mk('bound', tuple(y for y in (ev.rv(ev.ev(a)) for a in args) if isinstance(y, T)))
        if isq(q, 'boost::lexical_cast', 'std::to_string', 'boost::to_string'):
            return mk('text', ev.val(args[0]))
        if isq(q, 'std::basic_string', 'std::operator+'):
            return self.string(ev, n, q, base, args)
        return NotImplemented

    def value(self, a):
        ev = self.ev
        t = ev.P.strip(a['t'])
        x = ev.ev(a)
        if isinstance(x, LV):
            x = ev.load(x)
        if x is None or isinstance(x, (CLV, Lam)):
            raise Undecided('written value')
        if t['s'] in ('char', 'const char') and x.op == 'num':
            return mk('str', chr(int(x.args[0])))
        return x

    def stream_id(self, s):
        if isinstance(s, T) and s.op == 'addr':
            s = self.ev.deref(s)
        if not isinstance(s, LV):
            raise Undecided('stream')
        return str(s.addr())

    def item(self, s, v):
        if v.op == 'func':
            v = mk('flush') if v.args[0].find('flush') >= 0 else mk('str', '\n') if v.args[0].find('endl') >= 0 else v
        self.put('out', self.get('out') + ((self.stream_id(s), v),))
        self.sync()

    def stream(self, n, base, args):
        ev = self.ev
        s = ev.ev(n['obj'])
        if ev.P.strip(n['obj']['t'])['k'] == 'ptr':
            s = ev.rv(s)
        if isinstance(s, T):
            s = ev.deref(s)
        if base == 'flush':
            self.item(s, mk('flush'))
            return s
        opened = self.get('file')
        if base == 'open':
            # an open file is not opened again: the operation fails
            self.put('file', 2 if opened or self.refuse else 1)
            if not opened and not self.refuse:
                self.put('out', self.get('out') + ((self.stream_id(s), mk('open', self.text(ev.val(args[0])))),))
            return mk('void')
        if base == 'close':
            if opened:
                self.put('out', self.get('out') + ((self.stream_id(s), mk('close')),))
            self.put('file', 0)
            return mk('void')
        if base == 'is_open':
            return TRUE if opened else FALSE
        if base in ('fail', 'bad', 'operator!'):
            return TRUE if opened == 2 else FALSE
        if base == 'good':
            return FALSE if opened == 2 else TRUE
        if base == 'clear':
            return mk('void')
        if base == 'precision' and args:
            self.item(s, mk('precision', ev.val(args[0])))
            return mk('void')
        raise Undecided('stream: ' + base)

    # ---- strings: sequences of pieces
    def pieces(self, v):
        if v.op == 'cat':
            return list(v.args[0])
        if v.op == 'str':
            return [v] if v.args[0] else []
        if v.op in ('vempty', 'default') or v.op == 'call' and len(v.args[0]) == 1:
            return []
        return [v]

    def cat(self, *vs):
        out = []
        for v in vs:
            for p in self.pieces(v):
                if out and out[-1].op == 'str' and p.op == 'str':
                    out[-1] = mk('str', out[-1].args[0] + p.args[0])
                else:
                    out.append(p)
        if not out:
            return mk('str', '')
        r = out[0] if len(out) == 1 else mk('cat', tuple(out))
        TYPE[r] = 's'
        return r

    def text(self, v):
        return self.cat(v)

    def string(self, ev, n, q, base, args):
        obj = n.get('obj')
        xs = [self.value(a) for a in args if not a.get('dflt')]
        if base == 'operator+':
            return self.cat(*([ev.val(obj)] if obj else []) + xs)
        if obj is None:
            if base in ('operator==', 'operator!=') and len(xs) == 2:
                a, b = self.cat(xs[0]), self.cat(xs[1])
                if a.op == b.op == 'str':
                    r = a.args[0] == b.args[0]
                    return TRUE if r == (base == 'operator==') else FALSE
            return NotImplemented
        lv = ev.ev(obj)
        v = ev.load(lv) if isinstance(lv, LV) else lv
        if base in ('operator+=', 'append') and len(xs) == 1:
            ev.store(lv, self.cat(v, xs[0]))
            return lv
        if base == 'push_back' and len(xs) == 1:
            ev.store(lv, self.cat(v, xs[0]))
            return mk('void')
        if base in ('operator=', 'assign') and len(xs) == 1:
            ev.store(lv, self.cat(xs[0]))
            return lv
        p = self.pieces(v)
        if base in ('size', 'length') and not xs:
            # pieces which are not known are not empty
            k = sum(len(x.args[0]) if x.op == 'str' else 1 for x in p)
            return num(k)
        if base == 'empty':
            return FALSE if p else TRUE
        if base in ('c_str', 'data'):
            return self.cat(v)
        if base in ('clear',):
            ev.store(lv, mk('str', ''))
            return mk('void')
        return NotImplemented

    def join(self):
        if any(w == self.who for k, w in self.get('own')):
            self.bad('joins with a lock held')
            raise Endless
        if not self.get('up'):
            return mk('void')
        if self.actions:
            self.put('up', self.get('up'))
            raise Blocked()
        self.run_thread()
        self.put('up', False)
        return mk('void')


class Endless(Exception):
    pass


# ------------------------------------------------------------------- helpers
def entries(cx):
    """logger constructor over a stream, over a file; functions of the interface"""
    key = cx.cls(LG)
    P = cx.P
    cs = [f for f in P.F.values() if f.get('cls') == key and f.get('ctor') and 'body' in f and f['params'] and not f.get('implicit')]
    ini = [P.F[m] for m in P.C[key]['methods'] if P.F[m]['n'] == 'initialize']
    kind = lambda f: 'stream' if 'ostream' in str(cx.ptype(f, 0).get('q')) else 'file' if 'basic_string' in str(cx.ptype(f, 0).get('q')) else 'none'
    d = P.methods(key, '~Logger')
    if not d:
        raise Missing('destructor of the logger')
    return key, {kind(f): f for f in cs}, {kind(f): f for f in ini}, d[0]


def logs(cx, key):
    """(function, named, type of the data)"""
    out = []
    for f in cx.P.F.values():
        if f['q'] == LG + '::log' and 'body' in f:
            named = 'LogEntryName' in cx.ptype(f, 0)['s']
            i = 1 if named else 0
            if i < len(f['params']):
                out.append((f, named, cx.ptype(f, i)))
    return out


class Program(object):
    """a logger and what is done with it"""

    def __init__(self, cx):
        self.cx = cx
        self.key, self.ctors, self.inits, self.dtor = entries(cx)
        self.ev = cx.eval(skip=())
        self.ev.analysed = cx.analysed
        self.lv = LV(uid('logger'), (), self.key)
        self.w = World(cx, self.ev, self.lv)
        self.text = [f for f, named, t in logs(cx, self.key) if t['s'].replace('const ', '').startswith('char *')]
        q = [cx.P.strip(f['t']) for f in cx.P.C[self.key]['fields'] if str(cx.P.strip(f['t']).get('q')).startswith(('std::queue', 'std::list', 'std::deque', 'std::vector'))]
        self.raw = any((x.get('args') or [{}])[0].get('t') is not None and cx.P.strip(x['args'][0]['t'])['k'] == 'ptr' for x in q)
        self.name_key = cx.cls(NS + 'LogEntryName')

    def sid(self, lv):
        return str(lv.addr())

    def args(self, f, xs):
        """remaining parameters take their defaults or symbols"""
        r = list(xs)
        for i in range(len(xs), len(f['params'])):
            t = self.cx.P.strip(f['params'][i]['t'])
            r.append(sym(f['params'][i]['n'] or 'p%d' % i, 'u') if t['k'] == 'int' else mk('null'))
        return r

    def do(self, f, *xs):
        n = len(self.ev.throws)
        r = self.ev.call_body(f, self.lv, self.args(f, xs), {'k': 'call'}, ctor=bool(f.get('ctor')))
        for t in self.ev.throws[n:]:
            if t[0] is not FALSE:
                self.w.bad('exception: %s' % t[2])
        return r

    def name(self, text):
        lv = LV(uid('name'), (), self.name_key)
        c = [f for f in self.cx.P.F.values() if f.get('cls') == self.name_key and f.get('ctor') and 'body' in f and len(f['params']) == 1 and 'basic_string' in str(self.cx.ptype(f, 0).get('q'))]
        if not c:
            raise Missing('constructor of the name')
        self.ev.call_body(c[0], lv, [text], {'k': 'call'}, ctor=True)
        return lv

    def log(self, i):
        """the message number i: alternately with a name and without"""
        f = [f for f in self.text if ('LogEntryName' in self.cx.ptype(f, 0)['s']) == (i % 2 == 0)]
        if not f:
            raise Missing('log() of a text')
        if i % 2 == 0:
            self.do(f[0], self.name(sym('name%d' % i, 's')), sym('text%d' % i, 's'))
        else:
            self.do(f[0], sym('text%d' % i, 's'))

    def written(self, s=None):
        """what the streams have got, without settings and flushes"""
        return norm(self.w, [v for k, v in self.w.get('out') if s is None or k == s])


def norm(w, items):
    return w.cat(*[v for v in items if v.op not in ('flush', 'open', 'close', 'precision') and not setting(v)])


def setting(v):
    return v.op in ('call', 'func') and 'std::setprecision' in str(v)


def message(i):
    n, t = sym('name%d' % i, 's'), sym('text%d' % i, 's')
    c = lambda s: mk('str', s)
    return [n, c(" = '"), t, c("';\n")] if i % 2 == 0 else [t, c('\n')]


def expected(w, *ids):
    return w.cat(*[x for i in ids for x in message(i)])


# --------------------------------------------------------------- the queue
POINTS = 14


def schedule(cx, at, k):
    """one interleaving: the program's actions happen at the given points of the thread"""
    p = Program(cx)
    w = p.w
    s = LV(uid('stream'), ())
    p.do(p.ctors['stream'], s)
    if not w.get('up'):
        raise Undecided('no thread is started')
    w.actions = [lambda i=i: p.log(i) for i in range(k)] + [lambda: p.do(p.dtor)]
    w.at = list(at)
    w.limit = 60
    try:
        w.run_thread()
    except Endless:
        pass
    bad = list(w.get('bad'))
    if w.get('next') < len(w.actions) and not bad:
        bad.append('the thread ends before it is stopped')
    if not bad:
        x, e = p.written(p.sid(s)), expected(w, *range(k))
        if x is not e:
            bad.append('written: %s' % x)
        items = [v for kk, v in w.get('out') if kk == p.sid(s)]
        last = max([i for i, v in enumerate(items) if v.op != 'flush' and not setting(v)] or [-1])
        if last >= 0 and not any(v.op == 'flush' for v in items[last:]):
            bad.append('not flushed')
        raw = [x for x in w.get('deleted')]
        if p.raw and len(raw) != k:
            bad.append('%d of %d messages deleted' % (len(raw), k))
    lost = [t[2] for t in p.ev.throws if t[0] is not FALSE]
    if lost and not bad:
        raise Undecided('exit of the thread: %s' % lost[0])
    return bad, p


def positions(k, n):
    if k == 0:
        yield ()
        return
    for r in positions(k - 1, n):
        for x in range(r[-1] if r else 0, n):
            yield r + (x,)


def queue(cx, tier):
    key, ctors, inits, dtor = entries(cx)
    W = cx.where(ctors['stream'])
    seen = {}
    n = 0
    acc = set()
    body = None
    for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
        for at in positions(k + 1, POINTS):
            b, p = schedule(cx, at, k)
            n += 1
            acc |= p.w.acc
            body = p.w.body
            for x in b:
                seen.setdefault(x, at)
        R = 'every interleaving of %d messages and the end with the first %d points of the thread' % (k, POINTS)
        where = cx.where(body) if isinstance(body, dict) else W
        if seen:
            for x, at in sorted(seen.items())[:3]:
                cx.bad('queue: %d messages' % k, where, 'actions at the points %s: %s' % (list(at), x))
            break
        cx.ok('queue: %d messages are written once, in order' % k, where, R)
        cx.ok('queue: messages are written and flushed before the end: %d' % k, where, R)
    # accesses to the members from both sides
    fields = sorted(set(a[0] for a in acc))
    for f in fields:
        xs = [a for a in acc if a[0] == f]
        race = [(a, b) for a in xs for b in xs if a[1] == 't' and b[1] == 'm' and 'w' in (a[2], b[2]) and not a[3] & b[3]]
        name = 'data race: ' + f.rsplit('::', 1)[-1]
        where = cx.where(body) if isinstance(body, dict) else W
        if race:
            a, b = sorted(race, key=str)[0]
            cx.bad(name, where, 'the thread %s it, the program %s it without a common lock' % (VERB[a[2]], VERB[b[2]]))
        else:
            cx.ok(name, where, 'accesses of both sides hold a common lock or only read')


VERB = {'r': 'reads', 'w': 'writes'}


# --------------------------------------------------------------- lifecycle
def sequential(cx, name, steps, want, note):
    """a program whose thread is late: it does everything when it is waited for"""
    p = Program(cx)
    w = p.w
    try:
        streams = steps(p)
    except Endless:
        streams = {}
    where = cx.where(p.inits.get('stream') or p.dtor)
    bad = list(w.get('bad'))
    if not bad and w.get('up'):
        bad.append('the thread still runs')
    if not bad:
        for k, ids in want.items():
            x, e = p.written(streams[k]), expected(w, *ids)
            if x is not e:
                bad.append('%s: got %s' % (k, x))
    if not bad:
        open_ = None
        for k, v in w.get('out'):
            if v.op in ('open', 'close'):
                open_ = v.args[0] if v.op == 'open' else None
    for a in sorted(w.acc, key=str):
        if a[1] == 'm' and a[2] == 'w' and a[0].endswith('::output_stream_'):
            bad.append('the stream is changed while the thread runs')
    if bad:
        cx.bad(name, where, '; '.join(sorted(set(bad)))[:400], note)
    else:
        cx.ok(name, where, note)


def files(p):
    """names of the opened files with what has been written to each"""
    out, cur = [], None
    for k, v in p.w.get('out'):
        if v.op == 'open':
            cur = [v.args[0], []]
            out.append(cur)
        elif v.op == 'close':
            cur = None
        elif cur is not None and k.endswith('output_file_stream_)))'):
            cur[1].append(v)
    return [(n, norm(p.w, xs)) for n, xs in out]


def lifecycle(cx):
    st = lambda: LV(uid('stream'), ())

    def one(p):
        s = st()
        p.do(p.ctors['stream'], s)
        p.log(0), p.log(1)
        p.do(p.dtor)
        return {'a': p.sid(s)}

    def two(p):
        a, b = st(), st()
        p.do(p.ctors['stream'], a)
        p.log(0)
        p.do(p.inits['stream'], b)
        p.log(1)
        p.do(p.dtor)
        return {'a': p.sid(a), 'b': p.sid(b)}

    def late(p):
        a = st()
        p.do(p.ctors['none'])
        p.log(0)
        p.do(p.inits['stream'], a)
        p.log(1)
        p.do(p.dtor)
        return {'a': p.sid(a)}

    def none(p):
        p.do(p.ctors['none'])
        p.do(p.dtor)
        return {}

    sequential(cx, 'lifecycle: a logger over a stream', one, {'a': (0, 1)}, 'written before the destruction ends')
    sequential(cx, 'lifecycle: another stream', two, {'a': (0,), 'b': (1,)}, 'what precedes the change goes to the first stream')
    sequential(cx, 'lifecycle: initialization after the construction', late, {'a': (0, 1)}, 'nothing is lost')
    sequential(cx, 'lifecycle: a logger which is not used', none, {}, 'ends')

    # files
    def opened(name, steps, want):
        p = Program(cx)
        where = cx.where(p.inits['file'])
        try:
            steps(p)
        except Endless:
            pass
        bad = list(p.w.get('bad')) + (['the thread still runs'] if p.w.get('up') else [])
        got = files(p)
        if not bad and [x[0] for x in got] != [x[0] for x in want] or any(a[1] is not b[1] for a, b in zip(got, [(n, expected(p.w, *i)) for n, i in want])):
            bad.append('files: %s' % (got,))
        if bad:
            cx.bad(name, where, '; '.join(bad)[:400], 'each file gets what is logged while it is open')
        else:
            cx.ok(name, where, 'each file gets what is logged while it is open')

    f1, f2 = sym('file1', 's'), sym('file2', 's')

    def ctor(p):
        p.do(p.ctors['file'], f1)
        p.log(0)
        p.do(p.dtor)

    def init(p):
        p.do(p.ctors['none'])
        p.do(p.inits['file'], f1)
        p.log(0)
        p.do(p.dtor)

    def again(p):
        p.do(p.ctors['file'], f1)
        p.log(0)
        p.do(p.inits['file'], f2)
        p.log(1)
        p.do(p.dtor)

    def between(p):
        p.do(p.ctors['file'], f1)
        p.log(0)
        p.do(p.inits['stream'], st())
        p.log(1)
        p.do(p.inits['file'], f2)
        p.log(2)
        p.do(p.dtor)

    opened('lifecycle: a logger over a file', ctor, [(f1, (0,))])
    opened('lifecycle: a file after the construction', init, [(f1, (0,))])
    opened('lifecycle: another file', again, [(f1, (0,)), (f2, (1,))])
    opened('lifecycle: a file, a stream, another file', between, [(f1, (0,)), (f2, (2,))])


# ------------------------------------------------------------ names, formats
def names(cx):
    key = cx.cls(NS + 'LogEntryName')
    P = cx.P
    ctors = {}
    for f in P.F.values():
        if f.get('cls') == key and f.get('ctor') and 'body' in f and not f.get('implicit'):
            t = cx.ptype(f, 0) if f['params'] else None
            ctors['none' if t is None else 'copy' if 'LogEntryName' in t['s'] else 'string' if 'basic_string' in t['s'] else 'text'] = f
    adds = {}
    for m in P.C[key]['methods']:
        f = P.F[m]
        if f['n'] == 'add' and len(f['params']) == 1:
            t = cx.ptype(f, 0)
            adds['string' if 'basic_string' in t['s'] else 'text' if t['k'] == 'ptr' else 'index'] = f
    get = cx.meth(key, 'getAsString', 0)
    a, b = sym('a', 's'), sym('b', 's')
    c = lambda x: mk('str', x)
    i = sym('i', 'u')
    index = mk('text', add(i, ONE))
    want = [
        ('nothing', 'none', None, [], []),
        ('a name', 'string', a, [], [a]),
        ('a literal', 'text', c('xy'), [], [c('xy')]),
        ('parts of one character', 'text', c('x'), [('text', c('y')), ('string', c('z'))], [c('x.y.z')]),
        ('parts', 'string', a, [('string', b), ('text', c('xy'))], [a, c('.'), b, c('.xy')]),
        ('a part without a name before', 'none', None, [('text', c('xy')), ('string', a)], [c('xy.'), a]),
        ('another part without a name before', 'none', None, [('string', a)], [a]),
        ('empty parts', 'string', a, [('text', c('')), ('string', c(''))], [a]),
        ('an index', 'string', a, [('index', i), ('text', c('xy'))], [a, c('{'), index, c('}.xy')]),
        ('indices', 'text', c('xy'), [('string', b), ('index', i), ('index', i)], [c('xy.'), b, c('{'), index, c('}{'), index, c('}')]),
    ]
    for name, ctor, x, parts, w in want:
        if ctor not in ctors or any(k not in adds for k, v in parts):
            cx.und('name: ' + name, cx.where(get), 'constructor or add()')
            continue
        p = Program(cx)
        lv = LV(uid('name'), (), key)
        call = lambda f, *xs: p.ev.call_body(f, lv, list(xs), {'k': 'call'}, ctor=bool(f.get('ctor')))
        call(ctors[ctor], *([x] if x is not None else []))
        for k, v in parts:
            r = call(adds[k], v)
            if not (isinstance(r, LV) and r.key() == lv.key()):
                cx.bad('name: add() of %s' % k, cx.where(adds[k]), 'does not return the name itself')
        got = p.ev.rv(call(get))
        e = p.w.cat(*w)
        if p.w.cat(got) is e or str(p.w.cat(got)) == str(e):
            cx.ok('name: ' + name, cx.where(get), 'parts separated by points, indices from one in braces')
        elif got.op in ('call', 'opaque', 'out'):
            cx.und('name: ' + name, cx.where(get), str(got)[:200])
        else:
            cx.bad('name: ' + name, cx.where(adds[parts[-1][0]]) if parts else cx.where(get), 'got %s, required %s' % (got, e))
        if 'copy' in ctors and parts:
            lv2 = LV(uid('name'), (), key)
            p.ev.call_body(ctors['copy'], lv2, [lv], {'k': 'call'}, ctor=True)
            p.ev.call_body(adds[parts[0][0]], lv2, [parts[0][1]], {'k': 'call'})
            again = p.ev.rv(call(get))
            cx.require('name: copies are independent: ' + name, again is got or str(again) == str(got), cx.where(ctors['copy']), 'got %s' % again)


MATRIX = [', ', ';\n', '', '', '[', '];']


def formats(cx):
    key = cx.cls(LG)
    done = set()
    for f, named, t in sorted(logs(cx, key), key=lambda x: x[0]['id']):
        where = cx.where(f)
        label = ('named ' if named else 'raw ') + t['s'].replace('const ', '')[:60]
        if label in done or 'Eigen::DenseBase' in t['s'] and label + f['id'] in done:
            continue
        done.add(label)
        sizes = (0, 1, 3) if t.get('q') == 'std::vector' else (None,)
        for k in sizes:
            cx.guard('format: ' + label, entry, cx, f, named, t, where, label, k)


def entry(cx, f, named, t, where, label, k):
    p = Program(cx)
    ev, w = p.ev, p.w
    s = LV(uid('stream'), ())
    p.do(p.ctors['stream'], s)
    pos = 1 if named else 0
    c = lambda x: mk('str', x)
    xs = [sym('x%d' % i, 'r') for i in range(k or 0)]
    text = t['k'] == 'ptr' or str(t.get('q')).startswith('std::basic_string')
    if k is not None:
        x = mk('vlist', tuple(xs)) if xs else mk('vempty')
        TYPE[x] = 'v'
    elif text:
        x = sym('text', 's')
    else:
        x = ev.typed(mk('obj', uid('data')), f['params'][pos]['t'])
    n = sym('name', 's')
    p.do(f, *([p.name(n)] if named else []) + [x])
    p.do(p.dtor)
    bad = w.get('bad')
    items = [v for kk, v in w.get('out') if kk == p.sid(s) and v.op != 'flush' and not setting(v)]
    name = 'format: %s%s' % (label, '' if k is None else ' of %d' % k)
    if bad:
        cx.bad(name, where, '; '.join(bad))
        return
    matrix = [v for v in items if v.op == 'formatted']
    got = w.cat(*items)
    if k is not None and named:
        want = [n, c(' = [')]
        for i, y in enumerate(xs):
            want += [y] + ([c(';')] if i + 1 < k else [])
        want.append(c('];\n'))
    elif text:
        want = [n, c(" = '"), x, c("';\n")] if named else [x, c('\n')]
    elif matrix:
        m = matrix[0]
        if not cx.eq(name + ': the value', m.args[0], x, [], where, 'the value at the time of the call'):
            return
        fmt = m.args[1]
        if fmt.op != 'ioformat' or len(fmt.args[0]) < 8:
            cx.und(name, where, 'format: %s' % fmt)
            return
        strs = [y.args[0] if y.op == 'str' else None for y in fmt.args[0][2:8]]
        cx.require(name + ': rows and columns', strs == MATRIX, where, 'separators %s' % strs)
        cx.require(name + ': precision', fmt.args[0][0] is num(-2), where, 'precision %s' % fmt.args[0][0])
        want = [n, c(' = ...\n'), m, c('\n')]
    elif named:
        want = [n, c(' = '), x, c(';\n')]
    else:
        want = [x, c('\n')]
    e = w.cat(*want)
    if got is e or str(got) == str(e):
        cx.ok(name, where, 'name = value;')
    elif any(v.op in ('opaque', 'out') or v.op == 'call' for v in items):
        cx.und(name, where, 'written: %s' % got)
    else:
        cx.bad(name, where, 'written %s, required %s' % (got, e))


def precision(cx):
    key = cx.cls(LG)
    p0 = Program(cx)
    for kind in ('stream', 'file'):
        for how, table in (('construction', p0.ctors), ('initialization', p0.inits)):
            if kind not in table:
                continue
            p = Program(cx)
            if how == 'initialization':
                p.do(p.ctors['none'])
            p.do((p.ctors if how == 'construction' else p.inits)[kind], LV(uid('stream'), ()) if kind == 'stream' else sym('file', 's'))
            p.log(0)
            p.do(p.dtor)
            where = cx.where(table[kind])
            name = 'precision: %s over a %s' % (how, kind)
            items = [v for k, v in p.w.get('out') if v.op not in ('open', 'close', 'flush')]
            first = [i for i, v in enumerate(items) if not setting(v) and v.op != 'precision']
            sets = [v for v in items[:first[0] if first else 0]]
            digits = [x.args[0] for v in sets for x in subterms(v, set()) if x.op == 'num']
            if p.w.get('bad'):
                cx.bad(name, where, '; '.join(p.w.get('bad')))
            elif not sets:
                cx.bad(name, where, 'the precision of scalars is not set before the first entry')
            elif not digits:
                cx.und(name, where, 'precision %s' % sets[0])
            else:
                cx.require(name, digits[-1] >= 15, where, '%s digits' % digits[-1])


def idle(cx):
    """a thread without work sleeps for the given time; a file which cannot be opened is refused"""
    key, ctors, inits, dtor = entries(cx)
    for kind, table, how in (('stream', ctors, 'construction'), ('stream', inits, 'initialization'), ('file', ctors, 'construction'), ('file', inits, 'initialization')):
        if kind not in table:
            continue
        f = table[kind]
        where = cx.where(f)
        p = Program(cx)
        w = p.w
        if how == 'initialization':
            p.do(ctors['none'])
        p.do(f, LV(uid('stream'), ()) if kind == 'stream' else sym('file', 's'))
        if not w.get('up'):
            raise Undecided('no thread is started')
        w.actions, w.at, w.limit = [lambda: p.do(p.dtor)], [8], 60
        try:
            w.run_thread()
        except Endless:
            pass
        name = 'idle thread: %s over a %s' % (how, kind)
        ms = [x for x in w.sleeps if any(y.op == 'sym' and 'sleep' in str(y) for y in subterms(x, set()))]
        if not f['params'][-1]['n'] or len(f['params']) < 2:
            continue
        if not w.sleeps:
            cx.bad(name, where, 'the thread does not sleep while there is nothing to write')
        elif len(ms) == len(w.sleeps):
            cx.ok(name, where, 'sleeps for the given time')
        else:
            x = [y for y in w.sleeps if y not in ms][0]
            if x.op == 'void':
                cx.und(name, where, 'duration of sleeping')
            else:
                cx.bad(name, where, 'sleeps for %s, not for the given time' % x)
    for table, how in ((ctors, 'construction'), (inits, 'initialization')):
        if 'file' not in table:
            continue
        p = Program(cx)
        p.w.refuse = True
        if how == 'initialization':
            p.do(ctors['none'])
        p.do(table['file'], sym('file', 's'))
        cx.require('file which cannot be opened: ' + how, any('exception' in b for b in p.w.get('bad')), cx.where(table['file']), 'is not refused')


def printed(cx):
    fs = [f for f in cx.P.F.values() if f['n'] == 'operator<<' and 'body' in f and len(f['params']) == 2 and 'LogEntryName' in cx.ptype(f, 1)['s']]
    for f in fs:
        p = Program(cx)
        s = LV(uid('stream'), ())
        p.ev.call_body(f, None, [s, p.name(sym('name', 's'))], {'k': 'call'})
        got = p.written(p.sid(s))
        cx.require('name in a stream', got is sym('name', 's'), cx.where(f), 'written %s' % got)


def check(cx):
    cx.guard('idle', idle, cx)
    cx.guard('printed', printed, cx)
    cx.guard('precision', precision, cx)
    cx.guard('queue', queue, cx, cx.tier)
    cx.guard('lifecycle', lifecycle, cx)
    cx.guard('names', names, cx)
    cx.guard('formats', formats, cx)
