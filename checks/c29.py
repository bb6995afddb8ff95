"""C29: routing redirects lead to the canonical URL on the same site."""
import ast
from .lib import *
from engine import strops, strdom
from .c25 import parts_of, re_facts, path_langs, conv_spec, esc
from engine import relang
import re

RULE = ('MapAdapter.match is followed for arbitrary paths, query strings and '
        'values over route sets with strict slashes, defaults, aliases and '
        'redirect targets; the address of every redirect raised is compared '
        'with the canonical URL put together from scheme, host, script name, '
        'template, quoted values and query. The adapter made from a WSGI '
        'environment is compared with the one bound by hand.')
MIN_SCENARIOS = 60


def scenarios(prog):
    out = []
    g = lambda n: prog.get('verktyg.routing.' + n)      # noqa: E731
    URLMap, Route, Redirect = g('URLMap'), g('Route'), g('RequestRedirect')
    NotFound = prog.get('verktyg.exceptions.NotFound')
    quote = Ext('urllib.parse.quote')

    def cat(it, *vs):
        r = vs[0]
        for v in vs[1:]:
            r = it.binop(ast.Add(), r, v)
        return r

    def R(t, e='e', **k):
        return (t, e, k)

    def url_map(it, routes, opts):
        rs = []
        for t, e, k in routes:
            k = dict(k)
            if 'defaults' in k:
                k['defaults'] = it.mk_dict(dict(k['defaults']))
            rs.append(call(it, Route, t, endpoint=e, **k))
        return call(it, URLMap, it.mk_list(rs), **opts), rs

    BIND = [('http', 'example.org', None), ('https', 'example.org:81',
                                            '/app'), ('http', 'h', '/a/b/')]
    PATHCHARS = set("!$&'()*+,;=:@|/-._~")

    def pieces(it, v):
        r = []
        for p in strops.parts_of(it.facts.norm_deep(v)):
            p = it.facts.norm_deep(p)
            if isinstance(p, str) and r and isinstance(r[-1], str):
                r[-1] += p
            elif p != '':
                r.append(p)
        return r

    def canon(p):
        """quoting does not depend on which harmless characters are kept"""
        if isinstance(p, Term) and p.op == 'quote' and len(p.args) >= 4 and \
                isinstance(p.args[1], str) and set(p.args[1]) <= PATHCHARS:
            return ('quote', p.args[0], '/' in p.args[1]) + tuple(p.args[2:])
        return p

    def same(it, got, want):
        a, b = pieces(it, got), pieces(it, want)
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            pass
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            cx, cy = canon(x), canon(y)
            if cx is not cy and cx != cy:
                if not (isinstance(x, Term) and it.eq(x, y)):
                    return False
        return True

    def check_url(it, r, want, what, alts=()):
        oblige(it)
        if r[0] == 'ok':
            fail(it, '%s does not redirect' % what)
        if not is_exc(it, r[1], Redirect):
            fail(it, '%s raises %s' % (what, exc_name(r[1])), r[2])
        u = it.facts.norm_deep(it.getattr(r[1], 'new_url'))
        if it.ty(u) != 'str':
            fail(it, '%s redirects to %s' % (what, show(u)))
        for w in (want,) + tuple(alts):
            if same(it, u, w):
                break
        else:
            fail(it, '%s redirects to %s instead of %s' % (
                what, show(u), show(it.facts.norm_deep(want))))
        oblige(it)
        if not it.eq(it.getattr(r[1], 'code'), 301):
            fail(it, 'the redirect is not a permanent one')

    def root(b):
        sc = b[2] or '/'
        return b[0] + '://', b[1], sc if sc.endswith('/') else sc + '/'

    def query(it, n='q'):
        """(argument, text in the address) of a query"""
        k = it.choose(5, 'query')
        if k == 0:
            return None, ''
        if k == 1:
            q = sym(n, 'str')
            if not it.truth(q):
                return q, ''
            return q, cat(it, '?', q)
        a, b = sym('qa', 'str'), sym('qb', 'str')
        enc = lambda v: call(it, Ext('urllib.parse.quote_plus'), v,
                             encoding=query.charset)    # noqa: E731
        if k == 2:
            return it.mk_dict({'x': a}), cat(it, '?x=', enc(a))
        if k == 3:
            return it.mk_dict({'x': it.mk_list([a, b])}), cat(
                it, '?x=', enc(a), '&x=', enc(b))
        return it.mk_list([Tup(('x', a)), Tup(('y', b))]), cat(
            it, '?x=', enc(a), '&y=', enc(b))

    def segment(it, name, ty='str'):
        it.no_tok = True
        v = sym(name, ty)
        for ch in ('/', '\n'):
            it.facts.truth[Term('in', (ch, v), 'bool')] = False
        it.facts.truth[v] = True
        return v

    def enc(it, v, charset='utf-8'):
        return call(it, quote, v, safe='/:', encoding=charset)

    # -- strict slashes ----------------------------------------------------------
    def slash(tmpl, mk, opts, where):
        def fn(it):
            b = BIND[it.choose(len(BIND), 'bind')]
            cs = query.charset = opts.get('charset', 'utf-8')
            m, rs = url_map(it, [R(tmpl)], opts)
            path, canonical = mk(it, cs)
            q, qt = query(it)
            kw = {}
            if where == 'bound':
                kw = dict(path_info=path, query_args=q)
            if 'host' not in where and opts.get('sub'):
                pass
            ad = meth(it, m, 'bind', b[1], script_name=b[2],
                      url_scheme=b[0], **kw)
            if where == 'bound':
                r = attempt(it, meth, it, ad, 'match')
            elif where == 'over':
                m2 = meth(it, m, 'bind', b[1], script_name=b[2], url_scheme=b[
                    0], path_info='/other', query_args='other=1')
                if q is None:
                    qt = '?other=1'
                elif qt == '':
                    qt = ''
                r = attempt(it, meth, it, m2, 'match', path, query_args=q)
            else:
                r = attempt(it, meth, it, ad, 'match', path, query_args=q)
            if r[0] == 'ok' or is_exc(it, r[1], NotFound):
                # (which paths are redirected is C25)
                return
            s, h, sc = root(b)
            check_url(it, r, cat(it, s, h, sc, canonical, qt),
                      'a path without its slash')
        return fn

    def m_static(it, cs):
        return '/foo/bar', 'foo/bar/'

    def m_extra(it, cs):
        return '//foo/bar', 'foo/bar/'

    def m_none(it, cs):
        return 'foo/bar', 'foo/bar/'

    def m_odd(it, cs):
        return '/a b/\xe9?#%2f"', call(it, quote, 'a b/\xe9?#%2f"',
                                       encoding=cs) + '/'

    def m_var(it, cs):
        x = segment(it, 'x')
        return cat(it, '/u/', x), cat(it, 'u/', enc(it, x, cs), '/')

    def m_host(it, cs):
        x = segment(it, 'x')
        return cat(it, '//', x), cat(it, enc(it, x, cs), '/')

    def m_path(it, cs):
        x = sym('x', 'str')
        it.facts.truth[x] = True
        return cat(it, '/p/', x), cat(it, 'p/', enc(it, x, cs), '/')
    L1 = {'charset': 'latin-1'}
    for n, t, mk, o in (
            ('static', '/foo/bar/', m_static, {}),
            ('two slashes', '/foo/bar/', m_extra, {}),
            ('no slash', '/foo/bar/', m_none, {}),
            ('odd text', '/a b/\xe9?#%2f"/', m_odd, {}),
            ('odd text latin-1', '/a b/\xe9?#%2f"/', m_odd, L1),
            ('variable', '/u/<x>/', m_var, {}),
            ('variable latin-1', '/u/<x>/', m_var, L1),
            ('host in path', '/<x>/', m_host, {}),
            ('path', '/p/<path:x>/', m_path, {})):
        for w in ('given', 'bound', 'over'):
            out.append(Scen('slash: %s, %s' % (n, w), slash(t, mk, o, w),
                            'verktyg.routing.MapAdapter'))

    # -- canonical URLs of defaults and aliases --------------------------------------
    def subst(it, tmpl, vals, cs='utf-8'):
        r = ''
        for p in parts_of(tmpl):
            r = cat(it, r, p if isinstance(p, str) else (
                vals[p[0]] if isinstance(vals[p[0]], str) else enc(
                    it, vals[p[0]], cs)))
        return r

    def canonical(routes, opts, path, target, domain='', bound=None,
                  expect='e', env_host=None):
        """path, target: templates; target None: no redirect"""
        def fn(it):
            b = BIND[it.choose(len(BIND), 'bind')]
            cs = query.charset = opts.get('charset', 'utf-8')
            m, rs = url_map(it, routes, opts)
            vals = {}
            for p in parts_of(path):
                if not isinstance(p, str):
                    vals[p[0]] = segment(it, p[0])
            q, qt = query(it)
            kw = {} if bound is None else {'subdomain': bound}
            server = env_host or b[1]
            ad = meth(it, m, 'bind', server, script_name=b[2],
                      url_scheme=b[0], **kw)
            pth = ''
            for p in parts_of(path):
                pth = cat(it, pth, p if isinstance(p, str) else vals[p[0]])
            r = attempt(it, meth, it, ad, 'match', pth, query_args=q)
            groups = matched(it, path, r)
            if groups is None:
                return
            if any(k.op == 'raises' and v for k, v in
                   it.facts.truth.items()):
                # a number of thousands of digits
                if r[0] == 'raise' and is_exc(it, r[1], NotFound):
                    return
            if callable(target):
                t = target(it, groups)
            else:
                t = target
            if t is None:
                oblige(it)
                if r[0] == 'raise':
                    fail(it, 'a canonical URL raises %s' % exc_name(r[1]),
                         r[2])
                e = list(it.iterate(r[1]))[0]
                if e != expect:
                    fail(it, 'a canonical URL leads to %s' % show(e))
                return
            s, h, sc = root((b[0], server, b[2]))
            d = subst(it, domain, vals, cs) if domain is not None else ''
            if opts.get('host_matching'):
                h = d
            elif d != '':
                h = cat(it, d, '.', h)
            vals.update(groups)
            check_url(it, r, cat(it, s, h, sc, subst(it, t[1:], vals, cs),
                                 qt), 'a URL that is not the canonical one')
        return fn

    def one(t):
        return lambda it, gs: t if it.eq(it.call(prog.builtins['int'], [
            gs['page']], {}), 1) else None

    def matched(it, path, r):
        """the captures of the pattern that matched, by variable; None when
        no path of that form takes this way"""
        spec = ''.join(esc(p) if isinstance(p, str) else conv_spec(
            p[1], p[2]).replace('[^/]', r'[^/\n]') for p in parts_of(path))
        names = {p[0] for p in parts_of(path) if not isinstance(p, str)}
        res, subject = {}, None
        for key, how, pat, fl, sub, pos, v in re_facts(it):
            if subject is not None and subject is not sub:
                raise Unsupported('several subjects')
            subject = sub
            if v and isinstance(pat, str):
                gi = dict(re.compile(pat).groupindex)
                gi.pop('__suffix__', None)
                if set(gi) == names:
                    res = {n: Term('group', (Term('rem', key.args, 'Match'),
                                             i), 'str')
                           for n, i in gi.items()}
        if subject is None:
            return {}
        inside, outside = path_langs(it, subject)
        pre = pieces(it, subject)[0]
        inside.append(relang.Lang(esc(pre[:pre.index('|') + 1]) + spec))
        try:
            if relang.witness(inside, outside) is None:
                return None
        except relang.Unable as e:
            raise Unsupported('regular expression: %s' % e)
        if set(res) != names:
            raise Unsupported('captures not recognised')
        return res
    DF = [R('/all/', defaults={'page': 1}), R('/all/page/<int:page>')]
    DX = [R('/<x>/', defaults={'page': 1}), R('/<x>/page/<int:page>')]
    DD = [R('/v/', defaults={'page': 1}, subdomain='api'),
          R('/v/<int:page>', subdomain='www')]
    DH = [R('/v/', defaults={'page': 1}, host='a.example'),
          R('/v/<int:page>', host='b.example')]
    D3 = [R('/a/', defaults={'page': 1, 'x': 'k'}),
          R('/a/<x>/', defaults={'page': 1}), R('/a/<x>/<int:page>')]
    DB = [R('/all/', defaults={'page': 1}, build_only=True),
          R('/all/page/<int:page>')]
    AL = [R('/old/<x>', alias=True), R('/new/<x>')]
    AD = [R('/old', alias=True, defaults={'x': 'k'}), R('/new/<x>')]
    AS = [R('/old/<x>', alias=True, subdomain='a'),
          R('/new/<x>', subdomain='b')]
    OFF = {'redirect_defaults': False}
    for i, rev in enumerate((False, True)):
        o = lambda x: x[::-1] if rev else x             # noqa: E731
        for n, args, kw in (
                ('defaults', (o(DF), {}, '/all/page/<int:page>',
                              one('/all/')), {}),
                ('defaults off', (o(DF), OFF, '/all/page/<int:page>', None),
                 {}),
                ('defaults canonical', (o(DF), {}, '/all/', None), {}),
                ('defaults build only', (o(DB), {}, '/all/page/<int:page>',
                                         None), {}),
                ('defaults and value', (o(DX), {}, '/<x>/page/<int:page>',
                                        one('/<x>/')), {}),
                ('defaults latin-1', (o(DX), L1, '/<x>/page/<int:page>',
                                      one('/<x>/')), {}),
                ('defaults subdomain', (o(DD), {}, '/v/<int:page>',
                                        one('/v/'), 'api', 'www'), {}),
                ('defaults host', (o(DH), {'host_matching': True},
                                   '/v/<int:page>', one('/v/'), 'a.example'),
                 dict(env_host='b.example')),
                ('alias', (o(AL), {}, '/old/<x>', '/new/<x>'), {}),
                ('alias latin-1', (o(AL), L1, '/old/<x>', '/new/<x>'), {}),
                ('alias off', (o(AL), OFF, '/old/<x>', None), {}),
                ('alias canonical', (o(AL), {}, '/new/<x>', None), {}),
                ('alias defaults', (o(AD), {}, '/old', '/new/k'), {}),
                ('alias subdomain', (o(AS), {}, '/old/<x>', '/new/<x>', 'b',
                                     'a'), {})):
            out.append(Scen('%s %d' % (n, i), canonical(*args, **kw),
                            'verktyg.routing.MapAdapter'))

    def cascade(it):
        m, rs = url_map(it, D3, {})
        ad = meth(it, m, 'bind', 'h')
        for p, want in (('/a/k/1', 'http://h/a/'), ('/a/k/', 'http://h/a/'),
                        ('/a/j/1', 'http://h/a/j/'), ('/a/j/2', None),
                        ('/a/', None), ('/a/k/2', None), ('/a/j/', None)):
            r = attempt(it, meth, it, ad, 'match', p)
            oblige(it)
            if want is None:
                if r[0] == 'raise':
                    fail(it, '%s is redirected or raises' % p)
            else:
                check_url(it, r, want, p)
    out.append(Scen('defaults cascade', cascade, 'verktyg.routing.MapAdapter'))

    def unbuildable(it):
        V = g('ValidationError')

        def f(i, a, k):
            def tu(i2, a2, k2):
                if i2.choose(2, 'refuses'):
                    bad.append(1)
                    i2.raise_(V)
                return 'ok'
            return stub(i, 'Conv', regex='[a-z]+', weight=1,
                        to_url=HostFunc('to_url', tu),
                        to_python=HostFunc('to_python', lambda i3, a3, k3:
                                           a3[0]))
        bad = []
        rs = [call(it, Route, '/<c:x>/', endpoint='e', defaults=it.mk_dict(
            {'page': 1})), call(it, Route, '/<c:x>/<int:page>',
                                endpoint='e')]
        m = call(it, URLMap, it.mk_list(rs), converters=it.mk_dict(
            {'c': HostFunc('f', f)}))
        ad = meth(it, m, 'bind', 'h')
        r = attempt(it, meth, it, ad, 'match', '/abc/1')
        oblige(it)
        if not bad:
            check_url(it, r, 'http://h/ok/', 'the page')
        elif r[0] == 'raise':
            fail(it, 'a canonical URL that cannot be built raises ' +
                 exc_name(r[1]), r[2])
        else:
            v = list(it.iterate(r[1]))[1]
            if {k: it.getitem(v, k) for k in it.iterate(v)} != {
                    'x': 'abc', 'page': 1}:
                fail(it, 'the values are changed by a refused redirect')
    out.append(Scen('refused canonical URL', unbuildable,
                    'verktyg.routing.MapAdapter'))

    # -- redirect targets ------------------------------------------------------------
    def target(tmpl, kind):
        def fn(it):
            b = BIND[it.choose(len(BIND), 'bind')]
            sub = ('', 'www')[it.choose(2, 'subdomain')]
            x = segment(it, 'x')
            for ch in '.;':
                it.facts.truth[Term('in', (ch, x), 'bool')] = False
            seen = []

            def cb(i, a, k):
                seen.append((a, k))
                return cat(i, 'foo/', call(i, quote, k['x'], safe=''))
            m, rs = url_map(it, [R('/old/<x>', subdomain=sub,
                                   redirect_to=HostFunc('cb', cb)
                                   if kind == 'call' else tmpl)], {})
            ad = meth(it, m, 'bind', b[1], script_name=b[2], url_scheme=b[0],
                      subdomain=sub)
            r = attempt(it, meth, it, ad, 'match', cat(it, '/old/', x))
            if r[0] == 'raise' and is_exc(it, r[1], NotFound):
                return
            gs = matched(it, '/old/<x>', r)
            if gs is None:
                return
            x = gs['x']
            for ch in '.;':
                it.facts.truth[Term('in', (ch, x), 'bool')] = False
            s, h, sc = root(b)
            h = sub + '.' + h if sub else h
            if kind == 'call':
                oblige(it)
                if len(seen) != 1 or len(seen[0][0]) != 1 or \
                        seen[0][0][0] is not ad or set(seen[0][1]) != {'x'}:
                    fail(it, 'the target function is called with %s' % (
                        [show(y) for y in seen],))
                t = cat(it, 'foo/', call(it, quote, x, safe=''))
            else:
                t = ''
                for p in parts_of(tmpl):
                    t = cat(it, t, p if isinstance(p, str) else enc(it, x))
            if isinstance(t, str) and t.startswith('http:'):
                want = t
            elif tmpl and tmpl.startswith('http:'):
                want = t
            elif tmpl and tmpl.startswith('/'):
                want = cat(it, s, h, t)
            else:
                want = cat(it, s, h, sc, t)
            check_url(it, r, want, 'a route with a target')
        return fn
    # -- a variable in the subdomain ---------------------------------------------------
    def varsub(rs, path, want, host=False):
        def fn(it):
            m, _ = url_map(it, rs, {'host_matching': True} if host else {})
            for sub in ('www', 'de'):
                if host:
                    ad = meth(it, m, 'bind', sub + '.h')
                else:
                    ad = meth(it, m, 'bind', 'h', subdomain=sub)
                r = attempt(it, meth, it, ad, 'match', path)
                check_url(it, r, 'http://%s.h%s' % (sub, want),
                          'a route whose subdomain is a variable')
        return fn
    for n, rs, path, want in (
            ('target', [dict(redirect_to='foo/<x>', p='/old/<x>')],
             '/old/abc', '/foo/abc'),
            ('absolute target', [dict(redirect_to='/foo', p='/old/<x>')],
             '/old/abc', '/foo'),
            ('slash', [dict(p='/a/')], '/a', '/a/'),
            ('alias', [dict(p='/old/<x>', alias=True),
                       dict(p='/new/<x>')], '/old/abc',
             '/new/abc'),
            ('default', [dict(p='/all/', defaults={'n': 1}),
                         dict(p='/all/<int:n>')], '/all/1',
             '/all/')):
        def mk(rs, **kw):
            out = []
            for r in rs:
                r = dict(r)
                out.append(R(r.pop('p'), **dict(r, **kw)))
            return out
        out.append(Scen('variable subdomain: ' + n, varsub(
            mk(rs, subdomain='<s>'), path, want),
            'verktyg.routing.MapAdapter'))
        if 'target' not in n:
            out.append(Scen('variable host: ' + n, varsub(
                mk(rs, host='<s>.h'), path, want, True),
                'verktyg.routing.MapAdapter'))
    for t in ('foo/<x>', '/foo/<x>', 'foo/<x>/edit', '<x>', 'static',
              'http://other.example/u/<x>', 'foo?x=<x>', '/abs'):
        out.append(Scen('target %s' % t, target(t, 'text'),
                        'verktyg.routing.MapAdapter'))
    out.append(Scen('target function', target(None, 'call'),
                    'verktyg.routing.MapAdapter'))

    def contained(tmpl, opts):
        """no value leads to another host"""
        def fn(it):
            x = sym('x', 'str')
            m, rs = url_map(it, [R('/old/<path:x>', redirect_to=tmpl)], opts)
            ad = meth(it, m, 'bind', 'h', script_name='/app')
            r = attempt(it, meth, it, ad, 'match', cat(it, '/old/', x))
            if r[0] == 'raise' and is_exc(it, r[1], NotFound):
                return
            oblige(it)
            if r[0] == 'ok' or not is_exc(it, r[1], Redirect):
                if r[0] == 'raise' and is_exc(it, r[1], prog.builtins[
                        'ValueError']):
                    fail(it, 'a value makes matching raise', r[2])
                fail(it, 'a route with a target does not redirect')
            u = it.facts.norm_deep(it.getattr(r[1], 'new_url'))
            ps = pieces(it, u)
            if ps and isinstance(ps[0], str) and ps[0].startswith(
                    'http://h/'):
                return
            if isinstance(u, Term) and u.op == 'ext' and u.args[0] == \
                    'urllib.parse.urljoin':
                base, url = u.args[1], u.args[2]
                b = pieces(it, base)
                if not (b and isinstance(b[0], str) and b[0].startswith(
                        'http://h/')):
                    fail(it, 'the target is resolved against %s' % show(base))
                ps = pieces(it, url)
                if ps and isinstance(ps[0], str) and not ps[0].startswith(
                        '//'):
                    i, j = ps[0].find('/'), ps[0].find(':')
                    if i >= 0 and not 0 <= j < i:
                        if ps[0] != '/' or len(ps) == 1:
                            return
                        # '/' + value: the value must not start with '/'
                        f = ps[1]
                        if strdom.lacks(f, '/', it.facts):
                            return
                fail(it, 'a value of the URL can choose the host of the '
                     'target (%s)' % show(url))
            fail(it, 'a value of the URL leads to %s' % show(u))
        return fn
    for t in ('<x>', 'foo/<x>', './<x>', '<x>/foo', '<x>?y=1'):
        out.append(Scen('host of target %s' % t, contained(t, {}),
                        'verktyg.routing.MapAdapter'))

    # -- adapters made from an environment -----------------------------------------
    def environ(it, **kw):
        d = {'wsgi.url_scheme': 'http', 'SERVER_NAME': 'srv',
             'SERVER_PORT': '80', 'SCRIPT_NAME': '', 'PATH_INFO': '/',
             'QUERY_STRING': '', 'REQUEST_METHOD': 'GET'}
        d.update(kw)
        return it.mk_dict({k: v for k, v in d.items() if v is not None})
    SUBS = [R('/x', sub, subdomain=sub) for sub in ('', 'www', 'a.b', 'dft')]

    def env(name, kw, args, host, sub, opts=None, scheme='http'):
        """sub: the subdomain, None: no route matches"""
        opts = opts or {}

        def fn(it):
            routes = [R('/x', h, host=h) for h in (
                'www.example.org', 'srv', 'example.org')] if opts.get(
                    'host_matching') else SUBS
            m, rs = url_map(it, routes, opts)
            script = ('', '/', '/app', None)[it.choose(4, 'script')]
            e = environ(it, PATH_INFO='/x', SCRIPT_NAME=script, **kw)
            if it.choose(2, 'request object'):
                e = stub(it, 'Req', environ=e)
            r = attempt(it, meth, it, m, 'bind_to_environ', e, **args)
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'binding raises %s' % exc_name(r[1]), r[2])
            ad = r[1]
            r = attempt(it, meth, it, ad, 'match')
            oblige(it)
            if sub is None:
                if r[0] == 'ok' or not is_exc(it, r[1], NotFound):
                    fail(it, 'a request for another host is routed')
                return
            if r[0] == 'raise':
                fail(it, 'matching raises %s' % exc_name(r[1]), r[2])
            got = list(it.iterate(r[1]))[0]
            if got != sub:
                fail(it, 'the request is routed to %r instead of %r' % (
                    got, sub))
            if not it.eq(meth(it, ad, 'test'), True):
                fail(it, 'test() denies a path that matches')
            if not it.eq(meth(it, ad, 'test', '/nowhere'), False):
                fail(it, 'test() accepts a path that does not match')
            u = attempt(it, meth, it, ad, 'build', sub, force_external=True)
            sc = (script or '').rstrip('/') + '/'
            d = '' if opts.get('host_matching') or not sub else sub + '.'
            want = '%s://%s%s%sx' % (scheme, d, host, sc)
            oblige(it)
            if u[0] == 'raise' or not it.eq(u[1], want):
                fail(it, 'the URL is %s instead of %s' % (
                    show(u[1]), want))
            h = meth(it, ad, 'get_host', None)
            if not it.eq(h, d + host):
                fail(it, 'the host is %s instead of %s' % (show(h), d + host))
        out.append(Scen('environment: ' + name, fn,
                        'verktyg.routing.URLMap'))
    S4 = {'wsgi.url_scheme': 'https'}
    env('server name', {}, {}, 'srv', '')
    env('port 443', {'SERVER_PORT': '443'}, {}, 'srv:443', '')
    env('port 8080', {'SERVER_PORT': '8080'}, {}, 'srv:8080', '')
    env('https', dict(S4, SERVER_PORT='443'), {}, 'srv', '', scheme='https')
    env('https 80', dict(S4, SERVER_PORT='80'), {}, 'srv:80', '',
        scheme='https')
    env('host', {'HTTP_HOST': 'example.org'}, {}, 'example.org', '')
    env('host, case', {'HTTP_HOST': 'Www.Example.ORG:81'}, {},
        'www.example.org:81', '')
    env('host and port', {'HTTP_HOST': 'h', 'SERVER_PORT': '8080'}, {}, 'h',
        '')
    EX = {'server_name': 'Example.org'}
    env('www', {'HTTP_HOST': 'WWW.example.org'}, EX, 'example.org', 'www')
    env('a.b', {'HTTP_HOST': 'a.B.example.org'}, EX, 'example.org', 'a.b')
    env('no subdomain', {'HTTP_HOST': 'example.ORG'}, EX, 'example.org', '')
    env('other host', {'HTTP_HOST': 'www.other.org'}, EX, 'example.org',
        None)
    env('host with the same end', {'HTTP_HOST': 'notexample.org'}, EX,
        'example.org', None)
    env('shorter host', {'HTTP_HOST': 'org'}, EX, 'example.org', None)
    env('host behind', {'HTTP_HOST': 'example.org.evil'}, EX, 'example.org',
        None)
    env('server name with subdomain', {'SERVER_NAME': 'www.example.org'}, EX,
        'example.org', 'www')
    env('server name and port', {'SERVER_NAME': 'www.example.org',
                                 'SERVER_PORT': '81'},
        {'server_name': 'example.org:81'}, 'example.org:81', 'www')
    env('another port', {'SERVER_NAME': 'www.example.org',
                         'SERVER_PORT': '82'},
        {'server_name': 'example.org:81'}, 'example.org:81', None)
    env('given subdomain', {'HTTP_HOST': 'other'},
        dict(EX, subdomain='WWW'), 'example.org', 'www')
    env('only a subdomain', {'HTTP_HOST': 'h'}, dict(subdomain='www'), 'h',
        'www')
    env('default subdomain', {'HTTP_HOST': 'h'}, {}, 'h', 'dft',
        {'default_subdomain': 'dft'})
    env('default subdomain, computed', {'HTTP_HOST': 'example.org'}, EX,
        'example.org', '', {'default_subdomain': 'dft'})
    HM = {'host_matching': True}
    env('host matching', {'HTTP_HOST': 'WWW.example.org'}, {},
        'www.example.org', 'www.example.org', HM)
    env('host matching, server', {}, {}, 'srv', 'srv', HM)
    env('host matching, name', {'HTTP_HOST': 'srv'}, EX, 'example.org',
        'example.org', HM)
    env('host matching, unknown', {'HTTP_HOST': 'else'}, {}, 'else', None,
        HM)

    def decoded(errors, cs):
        def fn(it):
            m, rs = url_map(it, [R('/p/<path:x>/')], dict(
                encoding_errors=errors, charset=cs))
            x, sn, q = sym('x', 'str'), sym('script', 'str'), sym('q', 'str')
            for v in (sn,):
                for ch in '/?#;':
                    it.facts.truth[Term('in', (ch, v), 'bool')] = False
                it.facts.truth[v] = True
            query.charset = cs

            def dance(v):
                b = it.call(it.getattr(v, 'encode'), ['latin1'], {})
                return it.call(it.getattr(b, 'decode'), [cs, errors], {})
            e = environ(it, PATH_INFO=cat(it, '/p/', x), QUERY_STRING=q,
                        SCRIPT_NAME=cat(it, '/', sn))
            r0 = attempt(it, lambda i: [dance(cat(it, '/p/', x)), dance(q),
                                        dance(cat(it, '/', sn))], it)
            r = attempt(it, meth, it, m, 'bind_to_environ', e)
            oblige(it)
            if r0[0] == 'raise':
                return
            if r[0] == 'raise':
                fail(it, 'binding raises %s' % exc_name(r[1]), r[2])
            for n, w in zip(('path_info', 'query_args', 'script_name'),
                            r0[1]):
                v = it.facts.norm_deep(it.getattr(r[1], n))
                if n == 'script_name' and not it.truth(it.call(
                        it.getattr(w, 'endswith'), ['/'], {})):
                    w = cat(it, w, '/')
                if not same(it, v, w):
                    fail(it, '%s is %s' % (n, show(v)))
        return fn
    for er in ('replace', 'strict', 'ignore'):
        for cs in ('utf-8', 'latin-1'):
            out.append(Scen('decoding %s %s' % (er, cs), decoded(er, cs),
                            'verktyg.routing.URLMap'))

    # -- binding by hand ---------------------------------------------------------------
    def bind(it):
        case = it.choose(9, 'case')
        args, kw, opts, want = [
            (('Example.ORG',), {}, {}, 'http://example.org/x'),
            (('b\xfccher.example',), {}, {}, 'http://xn--bcher-kva.example/x'),
            (('h',), {'script_name': '/a'}, {}, 'http://h/a/x'),
            (('h',), {'script_name': '/a/'}, {}, 'http://h/a/x'),
            (('h',), {'url_scheme': 'https', 'subdomain': 'WWW'}, {},
             'https://h/x'),
            (('h', '/a', 'www', 'https'), {}, {}, 'https://h/a/x'),
            (('h',), {'subdomain': 'b\xfccher'}, {}, 'http://h/x'),
            (('H',), {}, {'default_subdomain': 'api'}, 'http://api.h/x'),
            (('h',), {'subdomain': ''}, {'default_subdomain': 'api'},
             'http://api.h/x')][case]
        m, rs = url_map(it, [R('/x')], opts)
        ad = meth(it, m, 'bind', *args, **kw)
        oblige(it)
        u = meth(it, ad, 'build', 'e', force_external=True)
        if not it.eq(u, want):
            fail(it, 'the URL is %s instead of %s' % (show(u), want))
    out.append(Scen('binding by hand', bind, 'verktyg.routing.URLMap'))

    def refused(it):
        case = it.choose(2, 'case')
        m, rs = url_map(it, [R('/x')], {'host_matching': True} if case
                        else {})
        r = attempt(it, meth, it, m, 'bind', 'h' if case else None,
                    subdomain='www')
        oblige(it)
        if r[0] == 'ok':
            fail(it, 'a binding that makes no sense is accepted')
        if not is_exc(it, r[1], prog.builtins['RuntimeError' if case else
                                              'TypeError']):
            fail(it, 'binding raises ' + exc_name(r[1]))
    out.append(Scen('binding refused', refused, 'verktyg.routing.URLMap'))

    def defaults(it):
        m, rs = url_map(it, [R('/', 'root'), R('/x/', 'x'), R('/y', 'y')],
                        {})
        case = it.choose(4, 'case')
        if case == 0:
            ad, a, want = meth(it, m, 'bind', 'h'), (), 'root'
        elif case == 1:
            ad, a, want = meth(it, m, 'bind', 'h', path_info='/y'), (), 'y'
        elif case == 2:
            ad, a, want = meth(it, m, 'bind', 'h', path_info='/y'), (
                '/x/',), 'x'
        else:
            ad, a, want = meth(it, m, 'bind', 'h'), ('y',), 'y'
        r = attempt(it, meth, it, ad, 'match', *a)
        oblige(it)
        if r[0] == 'raise':
            fail(it, 'matching raises ' + exc_name(r[1]), r[2])
        if list(it.iterate(r[1]))[0] != want:
            fail(it, 'the wrong path is matched')
        for p, w in (('/x', True), ('/x/', True), ('/z', False)):
            if not it.eq(meth(it, ad, 'test', p), w):
                fail(it, 'test(%r) is not %s' % (p, w))
        for d, w in (('www', 'www.h'), ('', 'h'), (None, 'h')):
            if not it.eq(meth(it, ad, 'get_host', d), w):
                fail(it, 'get_host(%r) is not %s' % (d, w))
    out.append(Scen('default path', defaults, 'verktyg.routing.MapAdapter'))

    # -- applications --------------------------------------------------------------------
    def application(it):
        AB = prog.get('verktyg.application.ApplicationBuilder')
        b = call(it, AB)
        meth(it, b, 'add_routes', call(it, Route, '/u/<x>/', endpoint='e'))
        a = call(it, b, 'https://example.org/app')
        x, want = [('abc', 'abc'), ('a b', 'a%20b'),
                   ('\xc3\xa9', '%C3%A9')][it.choose(3, 'path')]
        q = ('', 'x=1&y=a%20b', 'x')[it.choose(3, 'query')]
        e = environ(it, PATH_INFO='/u/' + x, QUERY_STRING=q,
                    SCRIPT_NAME='/app')
        want = 'https://example.org/app/u/' + want + '/' + ('?' + q if q
                                                            else '')
        seen = []

        def start(i, args, k):
            seen.append(args)
            return None
        r = attempt(it, lambda i: list(i.iterate(i.call(a, [e, HostFunc(
            'start_response', start)], {}))), it)
        oblige(it)
        if r[0] == 'raise':
            fail(it, 'the application raises ' + exc_name(r[1]), r[2])
        if len(seen) != 1 or not str(seen[0][0]).startswith('301 '):
            fail(it, 'the answer is %s' % (show(seen[0][0]) if seen else
                                           'missing'))
        hs = [list(it.iterate(h)) for h in it.iterate(seen[0][1])]
        loc = [h[1] for h in hs if it.eq(h[0], 'Location')]
        if len(loc) != 1:
            fail(it, 'there are %d Location headers' % len(loc))
        if not it.eq(loc[0], want):
            fail(it, 'the client is sent to %s instead of %s' % (
                show(loc[0]), want))
    out.append(Scen('application', application, 'verktyg.application'))
    return out
