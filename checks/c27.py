"""C27: built URLs are the filled-in template, properly encoded."""
import ast
from .lib import *
from .c25 import parts_of

RULE = ('MapAdapter.build is followed for arbitrary values; the text it '
        'returns is compared piece by piece with script name, the template '
        'of the documented route with every variable quoted, and the unused '
        'values url-encoded as query; for values with slashes and dots the '
        'string domain excludes every character with a meaning in URLs.')
MIN_SCENARIOS = 40
FORBIDDEN = ' "<>\\^`{}|#[]\n\r\t\x00\x7f\xe9\u2603'


def scenarios(prog):
    out = []
    g = lambda n: prog.get('verktyg.routing.' + n)      # noqa: E731
    URLMap, Route, BuildError = g('URLMap'), g('Route'), g('BuildError')
    Validation = g('ValidationError')
    MD = prog.get('verktyg.datastructures.MultiDict')
    quote = Ext('urllib.parse.quote')
    qplus = Ext('urllib.parse.quote_plus')

    def cat(it, *vs):
        r = vs[0]
        for v in vs[1:]:
            r = it.binop(ast.Add(), r, v)
        return r

    def R(t, e='e', **k):
        return (t, e, k)

    def plain(it, name, ty='str'):
        """a text without slash and dot, not empty"""
        v = sym(name, ty)
        if ty in ('str', 'bytes'):
            for ch in ('/', '.') if ty == 'str' else (b'/', b'.'):
                it.facts.truth[Term('in', (ch, v), 'bool')] = False
            it.facts.truth[v] = True
        return v

    def enc(it, v, charset):
        if it.ty(v) == 'bytes':
            return call(it, quote, v, safe='/:')
        if it.ty(v) != 'str':
            v = it.call(prog.builtins['str'], [v], {})
        return call(it, quote, v, safe='/:', encoding=charset)

    def qenc(it, v, charset):
        if it.ty(v) == 'bytes':
            return call(it, qplus, v)
        if it.ty(v) != 'str':
            v = it.call(prog.builtins['str'], [v], {})
        return call(it, qplus, v, encoding=charset)

    def fill(it, t, vals, charset):
        r = ''
        for p in parts_of(t):
            if isinstance(p, str):
                r = cat(it, r, call(it, quote, p, safe='/:|+',
                                    encoding=charset))
            else:
                r = cat(it, r, enc(it, vals[p[0]], charset))
        return r

    def setup(it, routes, opts, script, server, subdomain, scheme):
        rs = []
        for t, e, k in routes:
            k = dict(k)
            if 'defaults' in k:
                k['defaults'] = it.mk_dict(dict(k['defaults']))
            rs.append(call(it, Route, t, endpoint=e, **k))
        m = call(it, URLMap, it.mk_list(rs), **opts)
        kw = {} if subdomain is None else {'subdomain': subdomain}
        return meth(it, m, 'bind', server, script_name=script,
                    url_scheme=scheme, **kw)

    def same(it, v, e):
        v, e = it.facts.norm_deep(v), it.facts.norm_deep(e)
        return v is e or is_scalar(v) and is_scalar(e) and v == e

    def check(it, r, want, pairs, charset, opts):
        """want: texts before the query; pairs: expected query"""
        oblige(it)
        if r[0] == 'raise':
            fail(it, 'building raises %s' % exc_name(r[1]))
        u = r[1]
        if not pairs:
            if not same(it, u, want):
                fail(it, 'the URL is %s instead of %s' % (
                    show(it.facts.norm_deep(u)), show(want)))
            return
        import itertools
        ok = []
        perms = list(itertools.permutations(pairs))
        if opts.get('sort_parameters'):
            perms = [sorted(pairs, key=lambda p: p[0])]
        for perm in perms:
            e = cat(it, want, '?')
            for i, (k, v) in enumerate(perm):
                e = cat(it, e, *(['&'] if i else []) + [
                    qenc(it, k, charset), '=', qenc(it, v, charset)])
            if same(it, u, e):
                return
        fail(it, 'the URL is %s instead of %s with the query %s' % (
            show(it.facts.norm_deep(u)), show(want), [
                (k, show(v)) for k, v in pairs]))

    ROOT = [(None, 'example.org', '/', 'http'), (None, 'example.org', '/app',
                                                 'https'),
            (None, 'example.org:81', '/app/', 'http')]

    def build(name, routes, values, pick, opts=None, unused=(), types=None,
              target=None):
        """values: variable -> type or constant; pick: template expected"""
        opts = opts or {}

        def fn(it):
            sub, server, script, scheme = ROOT[it.choose(len(ROOT), 'bind')]
            if target:
                sub = target.get('bound')
            if opts.get('host_matching'):
                server = target['server']
            charset = opts.get('charset', 'utf-8')
            ad = setup(it, routes, opts, script, server, sub, scheme)
            vals = {}
            for k, t in values.items():
                vals[k] = plain(it, k, t[1:]) if isinstance(t, str) and \
                    t.startswith(':') else t
            vs = it.mk_dict(dict(vals))
            ext = bool(it.choose(2, 'external'))
            app = not it.choose(2, 'append_unknown')
            r = attempt(it, meth, it, ad, 'build', 'e', vs,
                        force_external=ext, append_unknown=app)
            p = pick(it, vals) if callable(pick) else pick
            if p is None:
                oblige(it)
                if r[0] == 'ok':
                    fail(it, 'a URL is built although no route fits')
                if not is_exc(it, r[1], BuildError):
                    fail(it, 'building raises ' + exc_name(r[1]))
                if not it.eq(it.getattr(r[1], 'endpoint'), 'e'):
                    fail(it, 'BuildError names another endpoint')
                return
            path = fill(it, p, vals, charset)
            sc = script if script.endswith('/') else script + '/'
            rel = cat(it, sc, it.call(it.getattr(path, 'lstrip'), ['/'], {}))
            dom = ''
            host = server
            diff = False
            if target:
                dom = target.get('domain', '')
                if dom is None:
                    dom = opts.get('default_subdomain', '')
                d = fill(it, dom, vals, charset)
                if opts.get('host_matching'):
                    host = d
                    diff = not it.eq(d, server)
                else:
                    bound = sub if sub is not None else opts.get(
                        'default_subdomain', '')
                    host = cat(it, d, '.' + server) if it.truth(d) else \
                        server
                    diff = not it.eq(d, bound)
            want = rel
            if ext or diff:
                want = cat(it, scheme + '://', host, rel)
            # the arguments handed in are not changed
            now = {k: it.getitem(vs, k) for k in it.iterate(vs)}
            if set(now) != set(vals):
                fail(it, 'the values of the caller are changed')
            pairs = []
            if app:
                for k in unused:
                    v = vals[k]
                    for x in (list(it.iterate(v)) if isinstance(v, Obj)
                              else [v]):
                        pairs.append((k, x))
            check(it, r, want, pairs, charset, opts)
        out.append(Scen('build: ' + name, fn, 'verktyg.routing.MapAdapter'))

    S = ':str'
    build('static', [R('/foo')], {}, '/foo')
    build('root', [R('/')], {}, '/')
    build('branch', [R('/foo/bar/')], {}, '/foo/bar/')
    build('escaped static', [R('/a b/\u2603?#+:')], {}, '/a b/\u2603?#+:')
    build('variable', [R('/<x>')], {'x': S}, '/<x>')
    build('variable branch', [R('/u/<x>/')], {'x': S}, '/u/<x>/')
    build('two variables', [R('/<x>-<y>/edit')], {'x': S, 'y': S},
          '/<x>-<y>/edit')
    build('path', [R('/p/<path:x>')], {'x': S}, '/p/<path:x>')
    build('int', [R('/<int:x>/')], {'x': ':int'}, '/<int:x>/')
    build('bytes', [R('/u/<x>')], {'x': ':bytes'}, '/u/<x>')
    build('latin-1', [R('/\xe9/<x>')], {'x': S}, '/\xe9/<x>',
          {'charset': 'latin-1'})
    build('unused', [R('/foo')], {'q': S}, '/foo', unused=('q',))
    build('unused int', [R('/foo')], {'q': ':int'}, '/foo', unused=('q',))
    build('unused two', [R('/<x>')], {'x': S, 'b': S, 'a': S}, '/<x>',
          unused=('b', 'a'))
    build('unused sorted', [R('/<x>')], {'x': S, 'b': S, 'a': S}, '/<x>',
          {'sort_parameters': True}, unused=('b', 'a'))
    build('unused latin-1', [R('/<x>')], {'x': S, 'q': S}, '/<x>',
          {'charset': 'latin-1'}, unused=('q',))
    build('None unused', [R('/<x>')], {'x': S, 'q': None}, '/<x>')
    build('None needed', [R('/<x>')], {'x': None}, None)
    build('missing', [R('/<x>/<y>')], {'x': S}, None)
    build('no endpoint', [R('/foo', 'other')], {}, None)
    build('no routes', [], {}, None)
    build('build only', [R('/foo/<x>', build_only=True)], {'x': S},
          '/foo/<x>')
    more = [R('/x'), R('/x/<a>'), R('/x/<a>/<b>')]
    for i, o in enumerate((more, more[::-1], [more[1], more[2], more[0]])):
        build('most arguments %d, none' % i, o, {}, '/x')
        build('most arguments %d, one' % i, o, {'a': S}, '/x/<a>')
        build('most arguments %d, two' % i, o, {'a': S, 'b': S},
              '/x/<a>/<b>')
        build('most arguments %d, other' % i, o, {'b': S}, '/x',
              unused=('b',))
    dft = [R('/all/', defaults={'page': 1}), R('/all/page/<int:page>')]

    def pick(it, vals):
        return '/all/' if it.eq(vals['page'], 1) else '/all/page/<int:page>'
    for i, o in enumerate((dft, dft[::-1])):
        build('defaults %d' % i, o, {'page': ':int'}, pick)
        build('defaults %d, 1' % i, o, {'page': 1}, '/all/')
        build('defaults %d, 7' % i, o, {'page': 7}, '/all/page/<int:page>')
        build('defaults %d, none' % i, o, {}, '/all/')
        build('defaults %d, unused' % i, o, {'q': S}, '/all/', unused=('q',))
    al = [R('/old/<x>', alias=True), R('/new/<x>')]
    for i, o in enumerate((al, al[::-1])):
        build('alias %d' % i, o, {'x': S}, '/new/<x>')
    sd = {'routes': [R('/foo/<x>', subdomain='api')]}
    for bound in ('', 'api', 'www'):
        build('subdomain api from %r' % bound, sd['routes'], {'x': S},
              '/foo/<x>', target={'bound': bound, 'domain': 'api'})
        build('default subdomain from %r' % bound, [R('/foo')], {}, '/foo',
              {'default_subdomain': 'www'}, target={'bound': bound,
                                                    'domain': 'www'})
        build('variable subdomain from %r' % bound,
              [R('/foo', subdomain='<s>')], {'s': S}, '/foo',
              target={'bound': bound, 'domain': '<s>'})
    for server in ('a.example', 'b.example'):
        build('host from %s' % server, [R('/foo/<x>', host='a.example')],
              {'x': S}, '/foo/<x>', {'host_matching': True},
              target={'server': server, 'domain': 'a.example'})

    # -- arbitrary values ------------------------------------------------------
    def arbitrary(t, opts, charset='utf-8'):
        def fn(it):
            ad = setup(it, [R(t)], dict(opts, charset=charset), '/app',
                       'example.org', None, 'http')
            x, q = sym('x', 'str'), sym('q', 'str')
            vs = it.mk_dict({'x': x})
            ext = bool(it.choose(2, 'external'))
            query = it.choose(2, 'query')
            if query:
                it.setitem(vs, 'q', q)
            r = attempt(it, meth, it, ad, 'build', 'e', vs,
                        force_external=ext)
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'building raises ' + exc_name(r[1]))
            u = it.facts.norm_deep(r[1])
            for ch in FORBIDDEN + ('' if query else '?'):
                if not strdom.lacks(u, ch, it.facts):
                    fail(it, 'the URL may contain %r' % ch)
        return fn
    for t in ('/<x>', '/u/<x>/', '/u/<path:x>', '/u/<any(a,b):x>/z',
              '/<uuid:x>'):
        for cs in ('utf-8', 'latin-1'):
            out.append(Scen('any value: %s %s' % (t, cs), arbitrary(
                t, {}, cs), 'verktyg.routing.MapAdapter'))

    # -- multi dicts and lists ---------------------------------------------------
    def multi(it):
        ad = setup(it, [R('/u/<x>')], {}, '/', 'h', None, 'http')
        x = plain(it, 'x')
        a, b = sym('a', 'str'), sym('b', 'str')
        kind = it.choose(2, 'kind')
        if kind:
            vs = call(it, MD, it.mk_list([Tup(('x', x)), Tup(('q', a))]))
            pairs = [('q', a)]
        else:
            vs = it.mk_dict({'x': x, 'q': it.mk_list([a, b])})
            pairs = [('q', a), ('q', b)]
        r = attempt(it, meth, it, ad, 'build', 'e', vs)
        check(it, r, cat(it, '/u/', enc(it, x, 'utf-8')), pairs, 'utf-8', {})
    out.append(Scen('multi-value arguments', multi,
                    'verktyg.routing.MapAdapter'))

    # -- converters that refuse ---------------------------------------------------
    def refuse(it):
        def f(i, a, k):
            def tu(i2, a2, k2):
                if i2.choose(2, 'refuses'):
                    bad.append(1)
                    i2.raise_(Validation)
                return 'ok'
            return stub(i, 'Conv', regex='[a-z]+', weight=1,
                        to_url=HostFunc('to_url', tu))
        bad = []
        two = it.choose(2, 'second route')
        rs = [call(it, Route, '/a/<c:x>/<c:y>', endpoint='e')]
        if two:
            rs.append(call(it, Route, '/b/<x>', endpoint='e'))
        m = call(it, URLMap, it.mk_list(rs), converters=it.mk_dict(
            {'c': HostFunc('f', f)}))
        ad = meth(it, m, 'bind', 'h')
        r = attempt(it, meth, it, ad, 'build', 'e', it.mk_dict(
            {'x': 'v', 'y': 'w'}))
        oblige(it)
        if not bad:
            want = '/a/ok/ok'
        elif two:
            want = '/b/v?y=w'
        else:
            if r[0] == 'ok' or not is_exc(it, r[1], BuildError):
                fail(it, 'a refused value does not give a BuildError')
            return
        if r[0] == 'raise':
            fail(it, 'building raises ' + exc_name(r[1]))
        if not it.eq(r[1], want):
            fail(it, 'the URL is %s instead of %s' % (show(r[1]), want))
    out.append(Scen('refused values', refuse, 'verktyg.routing.MapAdapter'))

    # -- from an application -----------------------------------------------------
    def url_for(it):
        AB = prog.get('verktyg.application.ApplicationBuilder')
        b = call(it, AB)
        meth(it, b, 'add_routes', call(it, Route, '/u/<x>', endpoint='e'))
        root, want = [('http://h/', '/u/'), ('https://h/app', '/app/u/'),
                      ('http://h/app/', '/app/u/')][it.choose(3, 'root')]
        a = call(it, b, root)
        x, q = plain(it, 'x'), sym('q', 'str')
        r = attempt(it, meth, it, a, 'url_for', 'e', x=x, q=q)
        check(it, r, cat(it, want, enc(it, x, 'utf-8')), [('q', q)],
              'utf-8', {})
    out.append(Scen('url_for', url_for, 'verktyg.application'))
    EXPECT = [
        (('/', 'e', {}), ('/<a>/<int:b>', 'e', {}), ('/<c>', 'f', {})),
        (('/<a>', 'e', {}), ('/x/<b>/<path:c>', 'e', {'build_only': True})),
        (('/', 'e', {'defaults': {'a': 1}}), ('/<int:a>', 'e', {})),
        (('/<b>', 'f', {}), ('/p/<a>', 'e', {'subdomain': '<b>'})),
    ]
    ARGS = [(), ('a',), ('b',), ('c',), ('a', 'b'), ('b', 'c'), ('a', 'c'),
            ('a', 'b', 'c'), ('a', 'a'), ('z',), ('a', 'z')]

    def takes(t, k):
        import re
        out = set(re.findall(r'([a-z])>', t + k.get('subdomain', '')))
        return out | set(k.get('defaults', ()))

    for n, routes in enumerate(EXPECT):
        def expecting(it, routes=routes):
            rs = []
            for t, e, k in routes:
                k = dict(k)
                if 'defaults' in k:
                    k['defaults'] = it.mk_dict(dict(k['defaults']))
                rs.append(call(it, Route, t, endpoint=e, **k))
            m = call(it, URLMap, it.mk_list(rs))
            for e in sorted({r[1] for r in routes}):
                for a in ARGS:
                    got = meth(it, m, 'is_endpoint_expecting', e, *a)
                    want = any(r[1] == e and set(a) <= takes(r[0], r[2])
                               for r in routes)
                    oblige(it)
                    if it.truth(got) != want:
                        fail(it, 'is_endpoint_expecting(%r, %s) is %s' % (
                            e, ', '.join(map(repr, a)), show(got)))
        out.append(Scen('expecting %d' % n, expecting, URLMap.qual))
    return out
