"""C37: converting between IRIs and URIs does not change what they name."""
import urllib.parse as up

from .lib import *
from .c17 import want
from engine.builtins_ import encodable

RULE = ('iri_to_uri, uri_to_iri and url_fix are followed on URLs whose host, '
        'user, password, port, path, query or fragment is unknown text, and '
        'on every single ASCII character and escape in every component.  '
        'The URI is ASCII, has the same components, keeps delimiters and '
        'escapes, escapes the rest as UTF-8, and converting again changes '
        'nothing.  An IRI names the same resource as the URI it was made '
        'from.')
MIN_SCENARIOS = 44
U = 'verktyg.urls.'
UNRES = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
            '0123456789-._~')
BAD = set(' "<>\\^`{|}') | {chr(c) for c in range(32)} | {chr(127)}
COMP = {
    # name: prefix, suffix, characters that end the component, characters
    # with a meaning of their own
    'path': ('http://h.example/p/', '?q=1#f', '?#', '/:%'),
    'relpath': ('/p/', '', '?#', '/:%'),
    'query': ('http://h.example/p?', '#f', '#', '&=;/?:+%'),
    'fragment': ('http://h.example/p?q=1#', '', '', '=&/?%'),
    'user': ('http://', ':pw@h.example/p', '/?#:@[]', '%'),
    'password': ('http://us:', '@h.example/p', '/?#@[]', '%'),
}


def fx(it, name, v, *a):
    return it.facts.norm_deep(want(it, lambda: it.call(
        it.prog.get(U + name), [v] + list(a), {}), '%s(%r)' % (name, v)))


def meaning(url, form=False):
    """components with delimiters split and escapes undone"""
    s = up.urlsplit(url)

    def un(x):
        return up.unquote_to_bytes(x)
    q = [tuple(un(y.replace('+', ' ')) for y in x.split('=', 1))
         for x in s.query.split('&')]
    return (s.scheme, s.hostname, s.port,
            un(s.username or ''), un(s.password or ''),
            tuple(un(x) for x in s.path.split('/')), tuple(q),
            un(s.fragment))


def scenarios(prog):
    out = []

    def add_(name, fn, subject):
        out.append(Scen(name, fn, subject))

    # -- unknown text -------------------------------------------------------
    for comp, (pre, suf, ends, keep) in COMP.items():
        esc = ''.join('\\' + c for c in ends)
        for kind, cls in (('any', r'[^\x00-\x20\x7f%s]' % esc),
                          ('plain', r'[A-Za-z0-9._~%-]'),
                          ('uni', '[\x80-\U0010ffff]')):
            if kind == 'uni':
                cls = '[\xe0-\u024f]'

            def f_sym(it, pre=pre, suf=suf, cls=cls, comp=comp, kind=kind):
                a = word(it, 'a', cls)
                r = fx(it, 'iri_to_uri', cat(it, pre, a, suf))
                oblige(it, 4)
                if not encodable(it, r, 'ascii'):
                    fail(it, 'the URI may contain non-ASCII characters: %r'
                         % (r,))
                ps = list(r.args) if isinstance(r, Term) and \
                    r.op == 'cat' else [r]
                mid = [p for p in ps if not isinstance(p, str)]
                if len(mid) != 1 or ''.join(
                        p if isinstance(p, str) else '\0' for p in ps) != \
                        pre + '\0' + suf:
                    fail(it, 'other parts of the URL change: %r' % (r,))
                m = mid[0]
                if kind == 'plain':
                    if m is not it.facts.norm_deep(a):
                        fail(it, 'plain text is changed: %r' % (m,))
                elif not (m.op == 'quote' and
                          m.args[0] is it.facts.norm_deep(a) and
                          m.args[2] == 'utf-8' and not m.args[4]):
                    fail(it, 'the text is replaced by %r' % (m,))
                r2 = fx(it, 'iri_to_uri', r)
                if not it.eq(r2, r):
                    fail(it, 'converting again gives %r' % (r2,))
            add_('iri.%s.%s' % (comp, kind), f_sym, 'iri_to_uri')

        # -- every character ------------------------------------------------
        def f_chars(it, pre=pre, suf=suf, ends=ends, keep=keep, comp=comp):
            for c in [chr(i) for i in range(32, 127)] + ['\xe9', '\u2603']:
                if c in ends:
                    continue
                u = '%sx%sy%s' % (pre, c, suf)
                r = fx(it, 'iri_to_uri', u)
                oblige(it, 3)
                q = up.quote(c, safe='')
                same = pre + 'x' + c + 'y' + suf
                enc = pre + 'x' + q + 'y' + suf
                if c in UNRES or c in keep:
                    ok = r == same
                elif c in BAD or ord(c) > 127:
                    ok = r == enc
                else:
                    ok = r in (same, enc)
                if not ok:
                    fail(it, 'iri_to_uri(%r) is %r' % (u, r))
                if fx(it, 'iri_to_uri', r) != r:
                    fail(it, 'converting %r again gives %r' % (
                        r, fx(it, 'iri_to_uri', r)))
        add_('iri.%s.chars' % comp, f_chars, 'iri_to_uri')

        def f_escapes(it, pre=pre, suf=suf, ends=ends, comp=comp):
            for i in range(256):
                if i >= 128 and comp in ('user', 'password'):
                    continue
                for t in ('%%%02X', '%%%02x'):
                    u = pre + 'x' + t % i + 'y' + suf
                    r = fx(it, 'uri_to_iri', u)
                    oblige(it, 2)
                    if i < 128:
                        b = fx(it, 'iri_to_uri', r)
                        try:
                            ok = meaning(b) == meaning(u)
                        except ValueError:
                            ok = False
                        if not ok:
                            fail(it, 'uri_to_iri(%r) is %r, which names %r'
                                 % (u, r, b))
                        if chr(i) in UNRES and r != pre + 'x' + chr(
                                i) + 'y' + suf:
                            fail(it, 'uri_to_iri(%r) is %r' % (u, r))
                    elif r != pre + 'x\ufffdy' + suf:
                        fail(it, 'uri_to_iri(%r) is %r' % (u, r))
            for u, e in (('%C3%A9', '\xe9'), ('%e2%98%83', '\u2603'),
                         ('%C3%A9%2F%25', '\xe9%2F%25'), ('%', '%'),
                         ('%4', '%4'), ('%zz', '%zz'), ('%%41', '%A'),
                         ('%u00e9', '%u00e9'), ('a%', 'a%')):
                r = fx(it, 'uri_to_iri', pre + u + suf)
                oblige(it)
                if r != pre + e + suf:
                    fail(it, 'uri_to_iri(%r) is %r' % (pre + u + suf, r))
        add_('uri.%s.escapes' % comp, f_escapes, 'uri_to_iri')

        def f_usym(it, pre=pre, suf=suf):
            a = word(it, 'a', '[A-Za-z0-9._~-]')
            u = cat(it, pre, a, suf)
            r = fx(it, 'uri_to_iri', u)
            oblige(it)
            if not it.eq(r, u):
                fail(it, 'uri_to_iri changes plain text: %r' % (r,))
        add_('uri.%s.plain' % comp, f_usym, 'uri_to_iri')

    # -- hosts, ports and shapes --------------------------------------------
    HOSTS = {'\u2603.net': 'xn--n3h.net', 'm\xfcnchen.de': 'xn--mnchen-3ya.de',
             'a.\u2603.b': 'a.xn--n3h.b', 'plain.example': 'plain.example',
             '127.0.0.1': '127.0.0.1', '[::1]': '[::1]'}

    def f_hosts(it):
        for h, e in HOSTS.items():
            for auth in ('', 'u@', 'u:p@', ':p@', '\xe9:\xe9@'):
                for port in ('', ':80', ':65535'):
                    for rest in ('', '/', '/x?y#z'):
                        i = 'http://%s%s%s%s' % (auth, h, port, rest)
                        x = 'http://%s%s%s%s' % (
                            auth.replace('\xe9', '%C3%A9'), e, port, rest)
                        oblige(it, 2)
                        r = fx(it, 'iri_to_uri', i)
                        if r != x:
                            fail(it, 'iri_to_uri(%r) is %r' % (i, r))
                        r = fx(it, 'uri_to_iri', x)
                        if r != i:
                            fail(it, 'uri_to_iri(%r) is %r' % (x, r))
                        r = fx(it, 'url_fix', i)
                        if r != x:
                            fail(it, 'url_fix(%r) is %r' % (i, r))
    add_('hosts', f_hosts, '_encode_netloc')

    def f_drives(it):
        for i, x in (('file://c:/x y', 'file:///c%3A/x%20y'),
                     ('file://c:\\x\\y', 'file:///c%3A/x/y'),
                     ('file://Z|/a', 'file:///Z%7C/a'),
                     ('file://1:/a', 'file://1/a'),
                     ('file://ab:/a', 'file://ab/a'),
                     ('http://c:/a', 'http://c/a'),
                     ('file:///c/a', 'file:///c/a')):
            oblige(it)
            r = fx(it, 'url_fix', i)
            if r != x:
                fail(it, 'url_fix(%r) is %r' % (i, r))
    add_('drives', f_drives, 'url_fix')

    def f_host(it):
        h = word(it, 'h', '[a-z0-9]')
        p = word(it, 'p', '[a-z0-9]')
        u = cat(it, 'http://', h, '.example/', p)
        oblige(it, 3)
        for f in ('iri_to_uri', 'uri_to_iri', 'url_fix'):
            r = fx(it, f, u)
            if not it.eq(r, u):
                fail(it, '%s changes a plain URL: %r' % (f, r))
    add_('host.plain', f_host, '_encode_netloc')

    def f_ports(it):
        for f in ('iri_to_uri', 'uri_to_iri', 'url_fix'):
            for p in ('65536', '99999', '-1', 'x'):
                k, v, _ = attempt(it, lambda: it.call(it.prog.get(
                    U + f), ['http://h.example:%s/' % p], {}))
                oblige(it)
                if k != 'raise' or not is_exc(it, v, 'ValueError'):
                    fail(it, '%s accepts port %s: %r' % (f, p, v))
    add_('ports', f_ports, '_encode_netloc')

    def f_shapes(it):
        for u in ('', '/', 'a', 'a/b', '/a', '?a=b', '#x', '/a?b#c', 'a?b',
                  '//h.example/a', 'mailto:a@b.example', 'http://h.example',
                  'http://h.example?x', 'ftp://h.example/a',
                  'https://h.example:8443/', './a', '../a', '/a;b=c'):
            oblige(it, 2)
            for f in ('iri_to_uri', 'uri_to_iri'):
                r = fx(it, f, u)
                if r != u and r.replace('%3B', ';').replace(
                        '%3D', '=').replace('%40', '@') != u:
                    fail(it, '%s(%r) is %r' % (f, u, r))
    add_('shapes', f_shapes, 'iri_to_uri')

    def f_errors(it):
        for comp in ('path', 'query', 'fragment'):
            pre, suf, _, _ = COMP[comp]
            u = pre + 'a%FFb' + suf
            oblige(it, 2)
            r = fx(it, 'uri_to_iri', u, 'ignore')
            if r != pre + 'ab' + suf:
                fail(it, 'errors=ignore is not used for the %s: %r' % (
                    comp, r))
            k, v, _ = attempt(it, lambda: it.call(prog.get(
                U + 'uri_to_iri'), [u, 'strict'], {}))
            if k != 'raise' or not is_exc(it, v, 'UnicodeDecodeError'):
                fail(it, 'errors=strict is not used for the %s: %r' % (
                    comp, v))
        for h in ('xn--9', 'xn--zzzzzzzzzzzz', 'xn--a.example'):
            u = 'http://%s/' % h
            oblige(it)
            if fx(it, 'uri_to_iri', u) != u:
                fail(it, 'uri_to_iri(%r) is %r' % (
                    u, fx(it, 'uri_to_iri', u)))
    add_('errors', f_errors, 'uri_to_iri')

    # -- url_fix ------------------------------------------------------------
    for comp in ('path', 'query', 'fragment'):
        pre, suf, ends, keep = COMP[comp]
        keep = {'path': '/%', 'query': '&=%:+', 'fragment': '&=%:'}[comp]

        def f_fix(it, pre=pre, suf=suf, ends=ends, keep=keep, comp=comp):
            a = word(it, 'a', r'[^\x00-\x20\x7f\\%s]' % ''.join(
                '\\' + c for c in ends))
            r = fx(it, 'url_fix', cat(it, pre, a, suf))
            oblige(it)
            if not encodable(it, r, 'ascii'):
                fail(it, 'the fixed URL may contain non-ASCII characters: '
                     '%r' % (r,))
            for c in [chr(i) for i in range(32, 127)] + ['\xe9', '\u2603']:
                if c in ends:
                    continue
                u = '%sx%sy%s' % (pre, c, suf)
                r = fx(it, 'url_fix', u)
                oblige(it)
                q = up.quote(c, safe='')
                same = pre + 'x' + c + 'y' + suf
                enc = pre + 'x' + q + 'y' + suf
                if c == '\\':
                    ok = r.replace('%2F', '/') == pre + 'x/y' + suf
                elif c == ' ' and comp != 'path':
                    ok = r in (pre + 'x+y' + suf, enc)
                elif c in UNRES or c in keep:
                    ok = r == same
                elif c in BAD or ord(c) > 127:
                    ok = r == enc
                else:
                    ok = r in (same, enc)
                if not ok:
                    fail(it, 'url_fix(%r) is %r' % (u, r))
                if fx(it, 'url_fix', r) != r:
                    fail(it, 'fixing %r again gives %r' % (
                        r, fx(it, 'url_fix', r)))
        add_('fix.%s' % comp, f_fix, 'url_fix')

    def f_files(it):
        for u, e in (('file://C:/a b', 'file:///C:/a%20b'),
                     ('file://c|/x', 'file:///c|/x'),
                     ('file:///C:/x', 'file:///C:/x'),
                     ('file:\\\\C:\\x y', 'file:///C:/x%20y'),
                     ('file://host/x', 'file://host/x'),
                     ('http:\\\\h.example\\a', 'http://h.example/a')):
            r = fx(it, 'url_fix', u)
            oblige(it)
            if r.replace('%3A', ':').replace('%7C', '|') != e:
                fail(it, 'url_fix(%r) is %r' % (u, r))
        r = fx(it, 'url_fix', 'http://h.example/\xe9?\xe9#\xe9', 'latin-1')
        oblige(it)
        if r != 'http://h.example/%E9?%E9#%E9':
            fail(it, 'url_fix in latin-1: %r' % (r,))
    add_('fix.files', f_files, 'url_fix')
    return out
