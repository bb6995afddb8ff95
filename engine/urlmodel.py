"""urllib.parse: splitting and joining URLs built from constants and unknown
pieces.  What cannot be located exactly becomes a typed part of the URL."""
import ast
import urllib.parse as _u

from .values import Obj, ClassV, Term, Tup, ListData, HostFunc, is_scalar
from .interp import Unsupported, PyRaise
from . import strdom
from . import strops

FIELDS = {'SplitResult': ('scheme', 'netloc', 'path', 'query', 'fragment'),
          'ParseResult': ('scheme', 'netloc', 'path', 'params', 'query',
                          'fragment')}
_CLS = {}

# characters that cannot occur in a part, whatever the URL
PART_LACKS = {
    'url.scheme': None, 'url.netloc': '/?#\t\r\n', 'url.path': '?#\t\r\n',
    'url.query': '#\t\r\n', 'url.fragment': '\t\r\n',
    'url.params': '?#\t\r\n', 'url.hostname': '/?#@\t\r\n',
    'url.username': '/?#:\t\r\n', 'url.password': '/?#\t\r\n',
}


def part_lacks(op, ch):
    if op not in PART_LACKS:
        return False
    if op == 'url.scheme':
        return ch not in _u.scheme_chars
    return ch in PART_LACKS[op]


def cls(it, name):
    prog = it.prog
    c = _CLS.get((id(prog), name))
    if c is None:
        ns = {}
        for a in ('hostname', 'port', 'username', 'password'):
            ns[a] = _prop(prog, (lambda a: lambda it, o: netloc_attr(
                it, o.data.items[1], a))(a))
        for i, f in enumerate(FIELDS[name]):
            ns[f] = _prop(prog, (lambda i: lambda it, o: o.data.items[i])(i))
        ns['geturl'] = HostFunc('geturl', lambda it, a, k: (
            unsplit(it, a[0]) if name == 'SplitResult' else
            unparse(it, a[0])), True)
        ns['_replace'] = HostFunc('_replace', lambda it, a, k: make(
            it, name, [k.get(f, v) for f, v in zip(
                FIELDS[name], a[0].data.items)]), True)
        ns['_fields'] = Tup(FIELDS[name])
        c = ClassV(name, [prog.builtins['tuple']], ns,
                   module='urllib.parse', kind='ext')
        c.base = True
        _CLS[(id(prog), name)] = c
    return c


def _prop(prog, f):
    return Obj(prog.builtins['property'], {
        'fget': HostFunc('fget', lambda it, a, k: f(it, a[0])),
        'fset': None, 'fdel': None})


def make(it, name, items):
    o = Obj(cls(it, name))
    o.data = ListData(items)
    o.base = it.loading
    return o


def find(it, parts, chars, start=(0, 0)):
    """(part, offset) of the first of chars, 'none', or None if unknown"""
    for i in range(start[0], len(parts)):
        p = parts[i]
        if isinstance(p, str):
            off = start[1] if i == start[0] else 0
            for j in range(off, len(p)):
                if p[j] in chars:
                    return (i, j)
        elif not all(strdom.lacks(p, c, it.facts) for c in chars):
            return None
    return 'none'


def cut(it, parts, a, b):
    """text of parts from a to b (positions; b None: the end)"""
    from .builtins_ import cat
    out = []
    for i, p in enumerate(parts):
        lo = hi = None
        if i < a[0]:
            continue
        if b is not None and i > b[0]:
            break
        if isinstance(p, str):
            lo = a[1] if i == a[0] else 0
            hi = b[1] if b is not None and i == b[0] else len(p)
            out.append(p[lo:hi])
        elif b is not None and i == b[0]:
            break
        else:
            out.append(p)
    return cat(it, out, 'str') if out else ''


def first_const(parts):
    return parts[0] if parts and isinstance(parts[0], str) else None


def locate(it, url, scheme=''):
    """(scheme, netloc, path, query, fragment) or None"""
    parts = [it.facts.norm(p) for p in strops.parts_of(url)]
    parts = [p for p in parts if p != '']
    if not parts:
        return (scheme, '', '', '', '')
    for p in parts:
        if isinstance(p, str):
            if any(c in p for c in '\t\r\n'):
                return None
        elif not isinstance(p, Term) or not all(
                strdom.lacks(p, c, it.facts) for c in '\t\r\n'):
            return None
    f = first_const(parts)
    if f is None:
        if not all(strdom.lacks(parts[0], chr(c), it.facts)
                   for c in range(33)):
            return None
    elif f[:1] <= ' ':
        return None
    pos = (0, 0)
    # scheme
    c = find(it, parts, ':')
    if c is None or isinstance(c, tuple) and c[0] > 0:
        # an unknown part in front of or hiding the first colon: settled if
        # something that cannot be part of a scheme comes first
        if f is None:
            p = parts[0]
            if isinstance(p, Term) and p.op == 'url.scheme' and \
                    isinstance(c, tuple) and c[0] == 1 and c[1] == 0 and \
                    it.truth(p):
                scheme, pos = p, (1, 1)
            else:
                return None
        elif f[0].isascii() and f[0].isalpha() and \
                all(x in _u.scheme_chars for x in f.split(':')[0]):
            return None
    elif c != 'none':
        head = f[:c[1]]
        if head and head[0].isascii() and head[0].isalpha() and \
                all(x in _u.scheme_chars for x in head):
            scheme, pos = head.lower(), (0, c[1] + 1)
    # network location
    netloc = ''
    i, j = pos
    if i < len(parts) and isinstance(parts[i], str) and j == len(parts[i]):
        i, j = i + 1, 0
    p = parts[i] if i < len(parts) else ''
    if isinstance(p, str):
        rest = p[j:]
        if rest[:2] == '//':
            a = (i, j + 2)
            e = find(it, parts, '/?#', a)
            if e is None:
                return None
            e = None if e == 'none' else e
            netloc = cut(it, parts, a, e)
            pos = e if e is not None else (len(parts), 0)
        elif rest == '/' and i + 1 < len(parts):
            q = parts[i + 1]
            if not strdom.lacks(q, '/', it.facts) and \
                    it.truth(it.call(it.getattr(q, 'startswith'), ['/'])):
                return None
            if not it.truth(q) and i + 2 < len(parts):
                return None
    else:
        if not strdom.lacks(p, '/', it.facts):
            return None
        if i + 1 < len(parts) and isinstance(parts[i + 1], str) and \
                parts[i + 1][:2] == '//' and not it.truth(p):
            return None
    if isinstance(netloc, str):
        if ('[' in netloc) != (']' in netloc):
            it.raise_('ValueError', 'Invalid IPv6 URL')
        if '[' in netloc:
            try:
                _u._check_bracketed_netloc(netloc)
            except ValueError:
                it.raise_('ValueError', 'Invalid IPv6 URL')
            except AttributeError:
                pass
        try:
            _u._checknetloc(netloc)
        except ValueError:
            it.raise_('ValueError', 'netloc')
    else:
        ok = strdom.lacks(netloc, '[', it.facts) and \
            strdom.lacks(netloc, ']', it.facts)
        if not ok or not plain_ascii(it, netloc):
            it.maybe_raise('ValueError', 'urlsplit', key=('netloc', netloc))
    # query and fragment
    h = find(it, parts, '#', pos)
    if h is None:
        return None
    hend = None if h == 'none' else h
    fragment = '' if hend is None else cut(
        it, parts, (hend[0], hend[1] + 1), None)
    body = [x for x in parts]
    q = find(it, body, '?', pos)
    if q is None:
        return None
    if q != 'none' and hend is not None and q > hend:
        q = 'none'
    if q == 'none':
        query = ''
        path = cut(it, parts, pos, hend)
    else:
        query = cut(it, parts, (q[0], q[1] + 1), hend)
        path = cut(it, parts, pos, q)
    return (scheme, netloc, path, query, fragment)


def plain_ascii(it, v):
    """no character the NFKC check could object to"""
    for p in strops.parts_of(v):
        p = it.facts.norm(p)
        if isinstance(p, str):
            if not p.isascii():
                return False
        elif not (isinstance(p, Term) and (
                p.op == 'quote' or
                p.op == 'm:decode' and len(p.args) > 1 and
                p.args[1] == 'ascii' or p.ty == 'int' or
                p.op == 'str' and p.args[0] is not None and
                it.ty(p.args[0]) == 'int' or
                it.facts.truth.get(Term('m:isdigit', (p,), 'bool')))):
            return False
    return True


def unknown(it, url, name):
    it.maybe_raise('ValueError', 'urlsplit', key=('url', url))
    return [Term('url.' + f, (url,), 'str') for f in FIELDS[name]]


def arg(it, a, k, i, n, d):
    return it.facts.norm(a[i] if len(a) > i else k.get(n, d))


def m_split(name):
    def f(it, a, k):
        url = it.facts.norm_deep(arg(it, a, k, 0, 'url', ''))
        scheme = arg(it, a, k, 1, 'scheme', '')
        frag = arg(it, a, k, 2, 'allow_fragments', True)
        ty = it.ty(url)
        if isinstance(url, (str, bytes)) and isinstance(scheme, (str, bytes)):
            fn = _u.urlsplit if name == 'SplitResult' else _u.urlparse
            try:
                r = fn(url, scheme, bool(frag))
            except ValueError as e:
                it.raise_('ValueError', str(e))
            return make(it, name, list(r))
        if url is None and scheme == '':
            r = [b''] * len(FIELDS[name])
            return make(it, name, r)
        if not isinstance(url, Term):
            it.raise_('AttributeError', 'decode')
        if ty == 'bytes' or ty is not None and ty != 'str' or \
                frag is not True or not isinstance(scheme, str):
            it.note_imprecise('urlsplit of something else')
            return make(it, name, unknown(it, url, name))
        r = locate(it, url, scheme)
        if r is None:
            return make(it, name, unknown(it, url, name))
        if name == 'ParseResult':
            s, n, p, q, f = r
            params = ''
            if isinstance(p, str):
                if s in _u.uses_params and ';' in p:
                    p, params = _u._splitparams(p)
            elif not strdom.lacks(p, ';', it.facts) and (
                    not isinstance(s, str) or s in _u.uses_params):
                if it.contains(p, ';'):
                    params = Term('url.params', (url,), 'str')
                    p = Term('url.path', (url,), 'str')
            r = (s, n, p, params, q, f)
        return make(it, name, list(r))
    return f


def netloc_attr(it, netloc, what):
    netloc = it.facts.norm_deep(netloc)
    if isinstance(netloc, (str, bytes)):
        s = netloc.decode('ascii') if isinstance(netloc, bytes) else netloc
        try:
            v = getattr(_u.SplitResult('', s, '', '', ''), what)
        except ValueError as e:
            it.raise_('ValueError', str(e))
        if isinstance(netloc, bytes) and isinstance(v, str):
            v = v.encode('ascii')
        return v
    if not isinstance(netloc, Term):
        it.raise_('AttributeError', 'rpartition')
    parts = [it.facts.norm(p) for p in strops.parts_of(netloc)]
    at = find(it, parts, '@')
    info, host = None, parts
    exact = True
    if isinstance(at, tuple):
        # the last one counts
        more = find(it, parts, '@', (at[0], at[1] + 1))
        while isinstance(more, tuple):
            at = more
            more = find(it, parts, '@', (at[0], at[1] + 1))
        if more is None:
            exact = False
        else:
            info = cut(it, parts, (0, 0), at)
            h = cut(it, parts, (at[0], at[1] + 1), None)
            host = [it.facts.norm(p) for p in strops.parts_of(h)]
    elif at is None:
        exact = False
    if what in ('username', 'password'):
        if exact and info is None:
            return None
        if exact:
            p = it.call(it.getattr(info, 'partition'), [':'])
            if what == 'username':
                return it.getitem(p, 0)
            return it.getitem(p, 2) if it.truth(it.getitem(p, 1)) else None
        if not it.truth_term(Term('has.' + what, (netloc,), 'bool')):
            return None
        return Term('url.' + what, (netloc,), 'str')
    br = find(it, host, '[') if exact else None
    if br == 'none':
        h = cut(it, host, (0, 0), None)
        p = it.call(it.getattr(h, 'partition'), [':'])
        if what == 'hostname':
            n = it.getitem(p, 0)
            if not it.truth(n):
                return None
            return it.call(it.getattr(n, 'lower'), [])
        n = it.getitem(p, 2)
        if not it.truth(n):
            return None
        if isinstance(it.facts.norm(n), Term):
            return port_of(it, n)
        n = it.facts.norm(n)
        if not (n.isdigit() and n.isascii()) or int(n) > 65535:
            it.raise_('ValueError', 'port')
        return int(n)
    if what == 'hostname':
        if not it.truth_term(Term('has.hostname', (netloc,), 'bool')):
            return None
        return Term('url.hostname', (netloc,), 'str')
    if not it.truth_term(Term('has.port', (netloc,), 'bool')):
        return None
    return port_of(it, Term('url.porttext', (netloc,), 'str'))


def port_of(it, text):
    it.maybe_raise('ValueError', 'port', key=('port', text))
    p = Term('int', (text,), 'int')
    L = it.facts.lin_of(p)
    it.facts.add_lin(L)
    it.facts.add_lin(it.facts.lin_of(65535) - L)
    return p


def _items(it, v, n):
    xs = [it.facts.norm(x) for x in it.iterate(v)]
    if len(xs) != n:
        it.raise_('ValueError', 'wrong number of URL components')
    return xs


def plus(it, *vs):
    out = vs[0]
    for v in vs[1:]:
        out = it.binop(ast.Add(), out, v)
    return out


def unsplit(it, v):
    scheme, netloc, url, query, fragment = _items(it, v, 5)
    return build(it, scheme, netloc, url, query, fragment)


def unparse(it, v):
    scheme, netloc, url, params, query, fragment = _items(it, v, 6)
    if it.truth(params):
        url = plus(it, url, ';', params)
    return build(it, scheme, netloc, url, query, fragment)


def build(it, scheme, netloc, url, query, fragment):
    def starts(x, y):
        return it.truth(it.call(it.getattr(x, 'startswith'), [y]))
    kinds = {it.ty(x) for x in (scheme, netloc, url, query, fragment)
             if x is not None and x != ''}
    if 'str' in kinds and 'bytes' in kinds:
        it.raise_('TypeError', 'Cannot mix str and non-str arguments')
    if 'bytes' in kinds:
        it.note_imprecise('urlunsplit of bytes')
        return Term('ext', ('urllib.parse.urlunsplit', Tup((
            scheme, netloc, url, query, fragment))), 'bytes')
    have = it.truth(netloc)
    if not have and it.truth(scheme):
        s = it.facts.norm(scheme)
        if isinstance(s, str):
            have = s in _u.uses_netloc
        else:
            have = it.truth_term(Term('uses_netloc', (s,), 'bool'))
        have = have and not starts(url, '//')
    if have:
        if it.truth(url) and not starts(url, '/'):
            url = plus(it, '/', url)
        url = plus(it, '//', netloc if it.truth(netloc) else '', url)
    if it.truth(scheme):
        url = plus(it, scheme, ':', url)
    if it.truth(query):
        url = plus(it, url, '?', query)
    if it.truth(fragment):
        url = plus(it, url, '#', fragment)
    return url


def new_result(name):
    def f(it, a, k):
        fs = FIELDS[name]
        vals = dict(zip(fs, a))
        for n, v in k.items():
            if n not in fs or n in vals:
                it.raise_('TypeError', 'argument ' + str(n))
            vals[n] = v
        if set(vals) != set(fs) or len(a) > len(fs):
            it.raise_('TypeError', 'missing arguments')
        return make(it, name, [vals[n] for n in fs])
    return f


def install(MODELS, NEW_EXT):
    MODELS['urllib.parse.urlsplit'] = m_split('SplitResult')
    MODELS['urllib.parse.urlparse'] = m_split('ParseResult')
    MODELS['urllib.parse.urlunsplit'] = lambda it, a, k: unsplit(
        it, a[0] if a else k['components'])
    MODELS['urllib.parse.urlunparse'] = lambda it, a, k: unparse(
        it, a[0] if a else k['components'])
    for n in FIELDS:
        NEW_EXT['urllib.parse.' + n] = new_result(n)
