"""The exported program: lookup helpers."""
import json


class Program(object):
    def __init__(self, path, root='/repo/'):
        d = json.load(open(path))
        self.F = d['functions']
        self.C = d['classes']
        self.E = d['enums']
        self.G = d['globals']
        self.T = d.get('typedefs', {})
        self.types = d['types']
        self.root = root
        self.byq = {}
        for i, f in self.F.items():
            f['id'] = i
            self.byq.setdefault(f['q'], []).append(f)
        self.cbyq = {}
        for k, c in self.C.items():
            c['key'] = k
            self.cbyq.setdefault(c['q'], []).append(c)
        self.enums = {q: sorted({c['v'] for c in e['c']}) for q, e in self.E.items()}
        self.enumval = {c['q']: c['v'] for e in self.E.values() for c in e['c']}
        for t in self.types:
            k = t.get('key', '')
            for cv in ('const ', 'volatile '):
                if k not in self.C and k.startswith(cv):
                    k = k[len(cv):]
            if k in self.C:
                t['key'] = k
        self._ov = {}
        self._anc = {}

    # ---------------------------------------------------------------- lookup
    def rel(self, f):
        p = f.get('file', '')
        return p[len(self.root):] if p.startswith(self.root) else p

    def loc(self, f):
        return '%s:%s' % (self.rel(f), f.get('l'))

    def fn(self, q, body=True, pred=None):
        """all functions with that qualified name (template-free)"""
        return [f for f in self.byq.get(q, []) if (not body or 'body' in f) and (pred is None or pred(f))]

    def cls(self, q):
        return self.cbyq.get(q, [])

    def ty(self, tid):
        return self.types[tid] if tid is not None and tid >= 0 else {'k': 'other', 's': '?'}

    def strip(self, tid):
        t = self.ty(tid)
        while t['k'] in ('ref', 'rref'):
            tid = t['to']
            t = self.ty(tid)
        return t

    def methods(self, key, name=None):
        """methods visible in class `key`, most derived first"""
        out = []
        c = self.C.get(key)
        if not c:
            return out
        for m in c['methods']:
            f = self.F.get(m)
            if f and (name is None or f['n'] == name):
                out.append(f)
        for b in c['bases']:
            out += self.methods(b['key'], name)
        return out

    def method(self, key, name, nparams=None, const=None, pred=None):
        for f in self.methods(key, name):
            if nparams is not None and len(f['params']) != nparams:
                continue
            if const is not None and bool(f.get('const')) != const:
                continue
            if pred and not pred(f):
                continue
            return f
        return None

    def ancestors(self, key):
        r = self._anc.get(key)
        if r is None:
            r = [key]
            c = self.C.get(key)
            if c:
                for b in c['bases']:
                    for a in self.ancestors(b.get('key', '')):
                        if a not in r:
                            r.append(a)
            self._anc[key] = r
        return r

    def ancestor_qs(self, key):
        return [self.C[a]['q'] for a in self.ancestors(key) if a in self.C]

    def overrides(self, f, target):
        """does method f (transitively) override target id"""
        if f['id'] == target:
            return True
        for o in f.get('ov', ()):
            if o == target:
                return True
            g = self.F.get(o)
            if g and self.overrides(g, target):
                return True
        return False

    def written_globals(self):
        """global variables assigned (or whose address is taken) by some function"""
        if getattr(self, '_wg', None) is None:
            w = set()
            for f in self.F.values():
                for n in walk(f.get('body') or []):
                    if n.get('k') == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['a'].get('g'):
                        w.add(n['a']['g'])
                    if n.get('k') == 'un' and n['op'] in ('++', '--', '&') and n['e'].get('g'):
                        w.add(n['e']['g'])
            self._wg = w
        return self._wg

    def resolve(self, key, target):
        """final overrider of method id `target` in class key"""
        k = (key, target)
        if k in self._ov:
            return self._ov[k]
        r = None
        for a in self.linear(key):
            c = self.C.get(a)
            if not c:
                continue
            for m in c['methods']:
                f = self.F.get(m)
                if f and self.overrides(f, target):
                    r = f
                    break
            if r:
                break
        self._ov[k] = r
        return r

    def linear(self, key):
        """derived-to-base breadth-first order"""
        out = [key]
        i = 0
        while i < len(out):
            c = self.C.get(out[i])
            if c:
                for b in c['bases']:
                    if b.get('key') not in out:
                        out.append(b.get('key'))
            i += 1
        return out

    def derived(self, q):
        """class keys having an ancestor with qualified name q"""
        return [k for k in self.C if q in self.ancestor_qs(k) and self.C[k]['q'] != q]

    def all_fields(self, key):
        out = []
        for a in self.ancestors(key):
            c = self.C.get(a)
            if c:
                for f in c['fields']:
                    out.append((c['q'] + '::' + f['n'], f, c))
        return out


def walk(n):
    """all dict nodes of an exported tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x or 'c' in x:
                yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    st.append(v)
