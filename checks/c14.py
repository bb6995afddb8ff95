"""C14: redirects lead where they say and cannot inject markup."""
import html
import re

from .lib import *
from .c17 import want
from .c30 import send, values, env, R
from engine import strdom
from engine.builtins_ import encodable

RULE = ('redirect() and append_slash_redirect() are followed for unknown '
        'locations, paths and query strings: the status, the Location '
        'header and the two places of the page that show the location are '
        'compared with what the arguments name; no unescaped markup '
        'character can reach the page.')
MIN_SCENARIOS = 20
U = 'verktyg.utils.'
IRI = 'verktyg.urls.iri_to_uri'


def text_of(it, v):
    return it.facts.norm_deep(v)


def page(it, r):
    """the page as a string value"""
    b = it.facts.norm_deep(want(it, lambda: meth(
        it, r, 'get_data', True), 'the page'))
    return list(b.args) if isinstance(b, Term) and b.op == 'cat' else [b]


def scenarios(prog):
    out = []

    def add_(name, fn, subject):
        out.append(Scen(name, fn, subject))
    g = prog.get

    def judge(it, r, loc, code, cls):
        oblige(it, 6)
        if r.cls is not cls:
            fail(it, 'the response has another class')
        if not it.eq(it.getattr(r, 'status_code'), code):
            fail(it, 'status %r, expected %r' % (
                it.getattr(r, 'status_code'), code))
        if it.getattr(r, 'mimetype') != 'text/html':
            fail(it, 'the page is %r' % (it.getattr(r, 'mimetype'),))
        exp = it.call(g(IRI), [loc], {})
        got = values([(it.getitem(e, 0), it.getitem(e, 1))
                      for e in it.iterate(it.getattr(r, 'headers'))],
                     'location')
        if len(got) != 1 or not it.eq(got[0], exp):
            fail(it, 'Location %r, expected %r' % (got, exp))
        if not encodable(it, text_of(it, got[0]), 'ascii'):
            fail(it, 'Location may contain non-ASCII text: %r' % (got[0],))
        ps = page(it, r)
        # a skeleton of the page with the unknown pieces marked
        sk = ''.join(p if isinstance(p, str) else '\0' for p in ps)
        for p in ps:
            if isinstance(p, str):
                continue
            for c in '<>"\'':
                if not strdom.lacks(p, c, it.facts):
                    fail(it, 'the page may contain an unescaped %r of the '
                         'location' % c)
        m = re.search(r'<a href="([^"]*)"[^>]*>([^<]*)</a>', sk)
        if not m:
            fail(it, 'the page has no link')
        known = re.sub(r'<a href="[^"]*"[^>]*>[^<]*</a>', '', sk)
        if '\0' in known:
            fail(it, 'the location is shown outside the link')
        return ps, m

    for code in (None, 301, 303, 307, 'any'):
        for cls in (None, 'mine'):
            def f_loc(it, code=code, cls=cls):
                w = word(it, 'w', r'[^\x00-\x20\x7f?#:/\\]')
                loc = cat(it, 'http://h.example/', w)
                c = g(R + 'Response')
                a = [loc]
                kw = {}
                n = 302
                if code == 'any':
                    n = sym('code', 'int')
                    a.append(n)
                elif code:
                    n = code
                    a.append(n)
                if cls:
                    c = ClassV('Mine', [c], {}, kind='repo')
                    kw['Response'] = c
                r = want(it, lambda: it.call(g(U + 'redirect'), a, kw),
                         'redirect')
                judge(it, r, loc, n, c)
            add_('redirect.%s.%s' % (code, cls), f_loc, 'redirect')

    LOCS = ['http://h.example/a?b="><script>alert(1)</script>&c=\'x\'',
            '/\xe9?\u2603=<b>', "javascript:alert('x')&\"", 'relative/x&y',
            '/a&amp;b', 'itms-services://?action=download&x=<y>',
            'http://\u2603.net/<p>', 'http://h.example/a#"onclick=x', '']
    for i, loc in enumerate(LOCS):
        def f_conc(it, loc=loc):
            r = want(it, lambda: it.call(g(U + 'redirect'), [loc], {}),
                     'redirect(%r)' % loc)
            ps, m = judge(it, r, loc, 302, g(R + 'Response'))
            oblige(it, 2)
            href = it.call(g(IRI), [loc], {})
            if html.unescape(m.group(1)) != href:
                fail(it, 'the link leads to %r instead of %r' % (
                    m.group(1), href))
            if html.unescape(m.group(2)) != loc:
                fail(it, 'the link shows %r for %r' % (m.group(2), loc))
            for x in (m.group(1), m.group(2)):
                if any(c in x for c in '<>"') or re.search(
                        '&(?!amp;|lt;|gt;|quot;|#)', x):
                    fail(it, 'the link is not escaped: %r' % (x,))
        add_('redirect.text.%d' % i, f_conc, 'redirect')

    # -- append_slash_redirect ----------------------------------------------
    for q in (None, '', 'word', 'text', 'flag', 'marks', 'slashes'):
        for code in (None, 308):
            def f_slash(it, q=q, code=code):
                w = word(it, 'w', '[A-Za-z0-9_~-]')
                x = word(it, 'x', '[A-Za-z0-9_~-]')
                qs = {None: None, '': '', 'word': cat(
                    it, word(it, 'k', '[a-z0-9]'), '=', word(
                        it, 'v', '[A-Za-z0-9%+&=]')),
                      'flag': word(it, 'k', '[a-z0-9]'),
                      'marks': '??', 'slashes': '//x.example/',
                      'text': 'a=%26&b=c+d%20e&f=/?'}[q]
                d = {'PATH_INFO': cat(it, '/', w, '/', x)}
                e = env(it, **d)
                if qs is None:
                    meth(it, e, 'pop', 'QUERY_STRING')
                else:
                    it.setitem(e, 'QUERY_STRING', qs)
                r = want(it, lambda: it.call(
                    g(U + 'append_slash_redirect'),
                    [e] + ([code] if code else []), {}),
                    'append_slash_redirect')
                oblige(it, 2)
                if it.getattr(r, 'status_code') != (code or 301):
                    fail(it, 'status %r' % (it.getattr(r, 'status_code'),))
                _, hs, _, _ = send(it, r, e)
                exp = cat(it, 'http://srv.example/root/', w, '/', x, '/')
                if qs:
                    exp = cat(it, exp, '?', qs)
                got = values(hs, 'location')
                if len(got) != 1 or not it.eq(got[0], exp):
                    fail(it, 'Location %r, expected %r' % (got, exp))
            add_('slash.%s.%s' % (q, code), f_slash,
                 'append_slash_redirect')

    PATHS = {'/foo/bar': 'foo/bar/', '/\xc3\xa9': '%C3%A9/',
             '/a b': 'a%20b/', '/a?b': 'a%3Fb/', '/a#b': 'a%23b/',
             '/a%b': 'a%25b/', '/http://evil.example': None,
             '//evil.example': None, '/x:y': 'x:y/', '': ''}

    def f_paths(it):
        import urllib.parse as up
        for p, e in PATHS.items():
            en = env(it, PATH_INFO=p, QUERY_STRING='')
            r = want(it, lambda: it.call(
                g(U + 'append_slash_redirect'), [en], {}),
                'append_slash_redirect')
            _, hs, _, _ = send(it, r, en)
            got = values(hs, 'location')
            oblige(it)
            base = 'http://srv.example/root/'
            if len(got) != 1 or not got[0].startswith(base):
                fail(it, 'the slash redirect for path %r leads to %r' % (
                    p, got))
            if e is not None and up.unquote(got[0]) != base + up.unquote(e) or \
                    e is not None and '%3A' not in got[0] and got[0] != base + e:
                fail(it, 'the slash redirect for path %r leads to %r' % (
                    p, got))
    add_('slash.paths', f_paths, 'append_slash_redirect')
    return out
