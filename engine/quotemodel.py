"""urllib.parse: quoting, query encoding and joining; posixpath.join."""
import urllib.parse as _u
import posixpath as _pp

from .values import Obj, Term, Tup, ListData, DictData, is_scalar
from .interp import Unsupported
from . import strdom, strops, urlmodel

ENC = {'utf-8': 'utf-8', 'utf8': 'utf-8', 'latin-1': 'latin-1',
       'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'ascii': 'ascii',
       'us-ascii': 'ascii'}


def enc_name(e):
    if isinstance(e, str):
        return ENC.get(e.lower(), e.lower())
    return e


def quote(it, v, safe, enc, err, plus):
    from .builtins_ import cat, host_raise
    v, safe = it.facts.norm_deep(v), it.facts.norm(safe)
    enc, err = it.facts.norm(enc), it.facts.norm(err)
    ty = it.ty(v)
    name = 'quote_plus' if plus else 'quote'
    if all(is_scalar(x) for x in (v, safe, enc, err)):
        try:
            return getattr(_u, name)(v, safe, enc, err)
        except Exception as e:
            host_raise(it, e)
    if ty == 'bytes':
        if enc is not None:
            it.raise_('TypeError', "quote() doesn't support 'encoding' for "
                      "bytes")
        if err is not None:
            it.raise_('TypeError', "quote() doesn't support 'errors' for "
                      "bytes")
        enc = err = None
    elif ty == 'str':
        enc = 'utf-8' if enc is None else enc_name(enc)
        err = 'strict' if err is None else err
    elif v is None or ty in ('int', 'float', 'bool', 'none', 'tuple',
                             'list', 'dict'):
        it.raise_('TypeError', 'quote_from_bytes() expected bytes')
    else:
        it.note_imprecise('quote of a value of unknown type')
        enc = enc_name(enc)
    if isinstance(safe, bytes):
        safe = safe.decode('ascii', 'ignore')
    if isinstance(safe, str):
        safe = ''.join(sorted(c for c in set(safe)
                              if c not in strdom.ALWAYS_SAFE and c.isascii()))
    parts = strops.parts_of(v)
    if enc in ('utf-8', 'latin-1', 'ascii', None) and isinstance(safe, str) \
            and err in ('strict', None):
        out = []
        for p in parts:
            p = it.facts.norm(p)
            if isinstance(p, (str, bytes)):
                try:
                    out.append(getattr(_u, name)(
                        p, safe, enc, err) if isinstance(p, str) else
                        getattr(_u, name)(p, safe))
                except Exception as e:
                    host_raise(it, e)
            else:
                # an ASCII digit text is not changed
                if unreserved(it, p, safe, plus):
                    out.append(p if it.ty(p) == 'str' else it.call(
                        it.getattr(p, 'decode'), ['ascii']))
                    continue
                out.append(Term('quote', (p, safe, enc, err, plus), 'str'))
        return cat(it, out, 'str')
    return Term('quote', (v, safe, enc, err, plus), 'str')


def unreserved(it, p, safe='', plus=False):
    """quoting leaves the text alone"""
    from . import rexmatch
    if not isinstance(p, Term) or it.ty(p) not in ('str', 'bytes'):
        return False
    if p.op == 'str' and isinstance(p.args[0], Term) and \
            p.args[0].ty == 'int':
        return True
    ok = sum(1 << ord(c) for c in strdom.ALWAYS_SAFE | set(safe)
             if ord(c) < 128 and not (plus and c == ' '))
    return not rexmatch.Atom(it, p).mask & ~ok


def m_quote(plus):
    def f(it, a, k):
        a = list(a)
        g = lambda i, n, d: a[i] if len(a) > i else k.get(n, d)  # noqa: E731
        return quote(it, g(0, 'string', None), g(1, 'safe', '' if plus
                                                 else '/'),
                     g(2, 'encoding', None), g(3, 'errors', None), plus)
    return f


def unquote(it, a, k):
    """text in which no escape can lie in an unknown part"""
    from . import rexmatch
    from .builtins_ import cat, host_raise
    from .interp import MISSING
    g = lambda i, n, d: it.facts.norm(  # noqa: E731
        a[i] if len(a) > i else k.get(n, d))
    v, enc, err = it.facts.norm_deep(g(0, 'string', None)), g(
        1, 'encoding', 'utf-8'), g(2, 'errors', 'replace')
    if it.ty(v) != 'str' or not (enc is None or isinstance(enc, str)) or \
            not (err is None or isinstance(err, str)):
        return MISSING
    if isinstance(v, str):
        try:
            return _u.unquote(v, enc, err)
        except Exception as e:
            host_raise(it, e)
    out, tail = [], ''
    for p in strops.parts_of(v):
        p = it.facts.norm(p)
        if isinstance(p, str):
            try:
                out.append(_u.unquote(p, enc, err))
            except Exception as e:
                host_raise(it, e)
            tail = p
            continue
        if not isinstance(p, Term) or it.ty(p) != 'str' or \
                '%' in tail[-2:] or rexmatch.Atom(it, p).mask & (1 << 37):
            return MISSING
        out.append(p)
        tail = ''
    return cat(it, out, 'str')


def urlencode(it, a, k):
    from .builtins_ import cat, to_str
    g = lambda i, n, d: it.facts.norm(  # noqa: E731
        a[i] if len(a) > i else k.get(n, d))
    q, doseq, safe = g(0, 'query', None), g(1, 'doseq', False), \
        g(2, 'safe', '')
    enc, err, via = g(3, 'encoding', None), g(4, 'errors', None), \
        g(5, 'quote_via', None)
    plus = True
    if via is not None:
        plus = getattr(via, 'name', '') != 'urllib.parse.quote'
    if isinstance(q, (str, bytes)) and q or it.ty(q) in ('str', 'bytes'):
        it.raise_('TypeError', 'not a valid non-string sequence or mapping '
                  'object')
    if isinstance(q, Obj) and it.find_cls_attr(q.cls, 'items') is not None:
        pairs = list(it.iterate(it.call(it.getattr(q, 'items'), [])))
    elif isinstance(q, Term):
        it.note_imprecise('urlencode of an unknown value')
        return Term('ext', ('urllib.parse.urlencode', q), 'str')
    else:
        if not isinstance(q, (Obj, Tup)) and q is not None and is_scalar(q):
            if not q and isinstance(q, (str, bytes)):
                return ''
            it.raise_('TypeError', 'not a valid non-string sequence')
        pairs = list(it.iterate(q))
    out = []

    def one(v):
        v = it.facts.norm(v)
        if it.ty(v) == 'bytes':
            return quote(it, v, safe, None, None, plus)
        return quote(it, v if it.ty(v) == 'str' else to_str(it, v), safe,
                     enc, err, plus)
    for p in pairs:
        kv = list(it.iterate(p))
        if len(kv) != 2:
            it.raise_('ValueError', 'values to unpack')
        ks = one(kv[0])
        v = it.facts.norm(kv[1])
        vs = [v]
        if it.truth(doseq) and it.ty(v) not in ('str', 'bytes'):
            if isinstance(v, Tup) or isinstance(v, Obj) and v.data is not None:
                vs = list(it.iterate(v))
            elif isinstance(v, Term) and it.ty(v) not in (
                    'int', 'float', 'bool', 'none'):
                it.note_imprecise('urlencode of an unknown value')
        for x in vs:
            out.append((ks, one(x)))
    res = ''
    first = True
    for ks, vs in out:
        if not first:
            res = urlmodel.plus(it, res, '&')
        first = False
        res = urlmodel.plus(it, res, ks, '=', vs)
    return res


def segments(it, path):
    """the pieces of a path between slashes, or None"""
    parts = [it.facts.norm(p) for p in strops.parts_of(path)]
    cuts = strops.find_cuts(it, parts, '/', -1, False)
    if cuts is None:
        return None
    return strops.pieces(it, parts, cuts, 'str')


def is_dots(it, seg):
    """'' / '.' / '..' or 'no'"""
    seg = it.facts.norm(seg)
    if isinstance(seg, str):
        return seg if seg in ('.', '..') else 'no'
    ps = [it.facts.norm(p) for p in strops.parts_of(seg)]
    if any(isinstance(p, str) and set(p) - {'.'} for p in ps):
        return 'no'
    if any(isinstance(p, Term) and strdom.lacks(p, '.', it.facts) and
           it.truth(p) for p in ps):
        return 'no'
    if it.eq(seg, '..'):
        return '..'
    if it.eq(seg, '.'):
        return '.'
    return 'no'


def urljoin(it, a, k):
    g = lambda i, n, d: it.facts.norm_deep(  # noqa: E731
        a[i] if len(a) > i else k.get(n, d))
    base, url, frag = g(0, 'base', ''), g(1, 'url', ''), \
        g(2, 'allow_fragments', True)
    if all(is_scalar(x) for x in (base, url, frag)):
        from .builtins_ import host_raise
        try:
            return _u.urljoin(base, url, frag)
        except Exception as e:
            host_raise(it, e)
    if not it.truth(base):
        return url
    if not it.truth(url):
        return base
    kinds = {it.ty(base), it.ty(url)}
    if kinds != {'str'} or frag is not True:
        if 'str' in kinds and 'bytes' in kinds:
            it.raise_('TypeError', 'Cannot mix str and non-str arguments')
        it.note_imprecise('urljoin of something else')
        return Term('ext', ('urllib.parse.urljoin', base, url), 'str')
    b = urlmodel.locate(it, base)
    u = urlmodel.locate(it, url, b[0] if b else '')

    def vague():
        it.maybe_raise('ValueError', 'urljoin', key=('urljoin', base, url))
        return Term('ext', ('urllib.parse.urljoin', base, url), 'str')
    if b is None or u is None:
        return vague()
    bs, bn, bp, bq, bf = b
    s, n, p, q, f = u
    if not it.eq(s, bs):
        return url
    if isinstance(s, str) and s not in _u.uses_relative:
        return url
    if isinstance(s, Term):
        if not it.truth_term(Term('uses_netloc', (s,), 'bool')):
            return url
    if isinstance(s, Term) or s in _u.uses_netloc:
        if it.truth(n):
            return urlmodel.build(it, s, n, p, q, f)
        n = bn
    if not it.truth(p):
        return urlmodel.build(it, s, n, bp, q if it.truth(q) else bq, f)
    bseg, seg = segments(it, bp), segments(it, p)
    if bseg is None or seg is None:
        return vague()
    if any(isinstance(x, str) and ';' in x for x in bseg + seg):
        return vague()
    bseg = list(bseg)
    if it.truth(bseg[-1]):
        del bseg[-1]
    if it.truth(p) and not it.truth(seg[0]):
        segs = seg                      # starts with a slash
    else:
        if len(bseg) and not it.truth(bseg[-1]) and len(bseg) > 1:
            pass
        segs = bseg + seg
        segs[1:-1] = [x for x in segs[1:-1] if it.truth(x)]
    res = []
    last = None
    for x in segs:
        d = last = is_dots(it, x)
        if d == '..':
            if res:
                res.pop()
        elif d == '.':
            continue
        else:
            res.append(x)
    if last in ('.', '..'):
        res.append('')
    path = ''
    for i, x in enumerate(res):
        path = urlmodel.plus(it, path, '/', x) if i else x
    if not it.truth(path):
        path = '/'
    return urlmodel.build(it, s, n, path, q, f)


def pp_join(it, a, k):
    from .builtins_ import host_raise
    a = [it.facts.norm_deep(x) for x in a]
    if all(isinstance(x, (str, bytes)) for x in a):
        try:
            return _pp.join(*a)
        except Exception as e:
            host_raise(it, e)
    for x in a:
        t = it.ty(x)
        if x is None or t in ('int', 'float', 'bool', 'none', 'list',
                              'tuple', 'dict'):
            it.raise_('TypeError', 'expected str, bytes or os.PathLike '
                      'object')
        if t != 'str':
            it.note_imprecise('join of something else')
            return Term('ext', ['posixpath.join'] + a, 'str')

    def t(x, n):
        return it.truth(it.call(it.getattr(x, n), ['/']))
    path = a[0]
    for b in a[1:]:
        if t(b, 'startswith'):
            path = b
        elif not it.truth(path) or t(path, 'endswith'):
            path = urlmodel.plus(it, path, b)
        else:
            path = urlmodel.plus(it, path, '/', b)
    return path


def install(MODELS):
    MODELS['urllib.parse.quote'] = m_quote(False)
    MODELS['urllib.parse.quote_plus'] = m_quote(True)
    MODELS['urllib.parse.unquote'] = unquote
    MODELS['urllib.parse.urlencode'] = urlencode
    MODELS['urllib.parse.urljoin'] = urljoin
    MODELS['posixpath.join'] = pp_join
