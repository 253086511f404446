"""C28: the headers can be used from any number of translation units of a program."""
import os
import re
from .common import *
from sa.evalr import walk

WRITES = ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=')


def parts(f):
    if f.get('body') is not None:
        yield f['body']
    for x in f.get('inits', ()):
        yield x['e']


def rel(cx, path):
    i = path.find('/include/')
    r = os.path.relpath(path, build_root())
    return path if r.startswith('..') else r


def build_root():
    from sa import build
    return build.REPO


def where(cx, x):
    return '%s (%s:%s)' % (x.get('q', ''), rel(cx, x['file']), x['l'])


def header(path):
    return os.path.splitext(path)[1] in ('.h', '.hpp', '.hh', '.hxx', '.inl', '')


def functions(cx):
    """an external function which is defined by a header is inline"""
    n = {}
    for f in cx.P.F.values():
        if 'body' not in f or f.get('implicit') or not header(f['file']):
            continue
        d = rel(cx, f['file'])
        n.setdefault(d, 0)
        if f.get('inline') or f.get('tinst') or f.get('linkage') != 'ext':
            n[d] += 1
        else:
            cx.bad('function: %s' % f['q'], where(cx, f), 'defined by a header and not inline: a second translation unit which includes it defines it again')
    for d in sorted(n):
        cx.ok('functions of %s' % d, d, '%d definitions are inline, templates or internal' % n[d])
    if not n:
        raise Missing('functions of headers')


def variables(cx):
    """an external variable is not defined by a header; an internal one is not changed"""
    written = {}
    for f in cx.P.F.values():
        for p in parts(f):
            for n in walk(p):
                if n.get('k') == 'bin' and n.get('op') in WRITES and (n.get('a') or {}).get('g'):
                    written.setdefault(n['a']['g'], (f, n))
                if n.get('k') == 'un' and n.get('op') in ('++', '--') and (n.get('e') or {}).get('g'):
                    written.setdefault(n['e']['g'], (f, n))
    for q, g in sorted(cx.P.G.items()):
        if not g.get('repo') or g.get('local'):
            continue
        g = dict(g, q=q)
        w = where(cx, g)
        if g.get('defrepo') and g['ext'] and not g['inline'] and not g['tinst'] and g.get('def') and header(g.get('deffile', '')):
            cx.bad('variable: ' + q, w, 'defined by a header: a second translation unit which includes it defines it again')
        elif not g['ext'] and q in written:
            cx.bad('variable: ' + q, w, 'each translation unit has a variable of its own and %s changes it' % written[q][0]['q'])
        else:
            cx.ok('variable: ' + q, w, 'declared, constant or inline')


def defined(cx):
    """what is used is defined"""
    undef, consts = {}, {}
    uses = 0
    for f in cx.P.F.values():
        for p in parts(f):
            for n in walk(p):
                g = n.get('g')
                if n.get('odr') and g in cx.P.G:
                    uses += 1
                    G = cx.P.G[g]
                    if G.get('repo') and not G['def']:
                        consts.setdefault(g, (f, n))
                c = cx.P.F.get(n.get('f')) if n.get('k') in ('call', 'ctor', 'func') and isinstance(n.get('f'), str) else None
                if c is not None:
                    uses += 1
                    if 'body' not in c and not c.get('implicit') and not c.get('defaulted') and not c.get('pure') and not c.get('deleted'):
                        undef.setdefault(c['id'], (f, c))
    for g, (f, n) in sorted(consts.items()):
        cx.bad('definition: ' + g, where(cx, f), 'the constant has no definition and a reference to it is formed: it cannot be linked')
    for i, (f, c) in sorted(undef.items()):
        cx.bad('definition: ' + c['q'], where(cx, f), 'called and never defined')
    if not consts and not undef:
        cx.ok('definitions of what is used', 'all headers', '%d references' % uses)


COMMENT = re.compile(r'/\*.*?\*/|//[^\n]*', re.S)


def guards(cx):
    """a header which defines classes or functions of namespaces takes effect once"""
    files = {}
    for c in cx.P.C.values():
        if c.get('file') and not c.get('tinst'):
            files.setdefault(c['file'], c['q'])
    for f in cx.P.F.values():
        if 'body' in f and not f.get('cls') and not f.get('implicit'):
            files.setdefault(f['file'], f['q'])
    for q, g in cx.P.G.items():
        if g.get('repo') and not g.get('local') and not g.get('member') and g.get('def'):
            files.setdefault(g['file'], q)
    n = 0
    root = build_root() + os.sep
    for p, q in sorted(files.items()):
        if not p.startswith(root) or not header(p):
            continue
        try:
            text = COMMENT.sub('', open(p, errors='replace').read()).strip()
        except (IOError, OSError):
            continue
        n += 1
        m = re.match(r'#\s*(?:ifndef\s+(\w+)|if\s+!\s*defined\s*\(?\s*(\w+)\s*\)?)\s*\n\s*#\s*define\s+(\w+)', text)
        if m and not re.search(r'#\s*endif\s*$', text):
            m = None
        depth = 0
        for d in re.findall(r'^\s*#\s*(if|ifdef|ifndef|endif)\b', text, re.M)[:-1] if m else ():
            depth += -1 if d == 'endif' else 1
            if not depth:
                m = None        # the guard ends before the file
                break
        once = re.search(r'^\s*#\s*pragma\s+once\b', text, re.M) or m and (m.group(1) or m.group(2)) == m.group(3)
        cx.require('included once: ' + rel(cx, p), bool(once), '%s (%s:1)' % (q, rel(cx, p)), 'no guard: a second inclusion defines %s again' % q)
    if not n:
        cx.und('included once', 'headers', 'no files')


def check(cx):
    cx.guard('functions', functions, cx)
    cx.guard('variables', variables, cx)
    cx.guard('definitions', defined, cx)
    cx.guard('guards', guards, cx)
