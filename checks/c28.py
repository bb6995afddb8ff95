"""C28: routes made by factories keep every option of the wrapped route."""
import ast
import itertools
from .lib import *

RULE = ('Every route factory, alone and nested, is followed for routes whose '
        'options are arbitrary objects; each route it yields is compared '
        'option by option with the one written out by hand, and again after '
        'both are bound to a map.')
MIN_SCENARIOS = 30
OPTS = ('defaults', 'subdomain', 'build_only', 'endpoint', 'strict_slashes',
        'redirect_to', 'alias', 'host')


def scenarios(prog):
    out = []
    g = lambda n: prog.get('verktyg.routing.' + n)      # noqa: E731
    Route, URLMap = g('Route'), g('URLMap')
    FACT = {n: g(n) for n in ('Subdomain', 'Submount', 'EndpointPrefix')}
    Template = g('RouteTemplate')

    def cat(it, a, b):
        return it.binop(ast.Add(), a, b)

    def options(it, which, tmpl):
        """name -> value of the wrapped route"""
        kind = which
        o = dict(endpoint='ep', defaults=None, subdomain=None,
                 build_only=False, strict_slashes=None, redirect_to=None,
                 alias=False, host=None)
        obj = stub(it, 'Thing')
        if kind == 'objects':
            o.update(endpoint=sym('ep', 'str'), subdomain=sym('sub', 'str'),
                     build_only=stub(it, 'Flag'), strict_slashes=stub(
                         it, 'Flag'), redirect_to=stub(it, 'Target'),
                     alias=stub(it, 'Flag'), host=sym('host', 'str'),
                     defaults={'d': obj, 'e': 1})
        if kind == 'template':
            o.update(endpoint='{n}.x', subdomain='s-{n}', build_only=stub(
                it, 'Flag'), strict_slashes=stub(it, 'Flag'),
                redirect_to='to/{n}', alias=stub(it, 'Flag'),
                host='{n}.example', defaults={'d': 'v{n}', 'e': obj})
        if kind == 'template objects':
            o.update(endpoint=stub(it, 'Endpoint'), redirect_to=stub(
                it, 'Target'), defaults={'d': obj})
        return o

    def make(it, text, o):
        k = dict(o)
        if k['defaults'] is not None:
            k['defaults'] = it.mk_dict(dict(k['defaults']))
        return call(it, Route, text, **k)

    def same(it, a, b):
        a, b = it.facts.norm_deep(a), it.facts.norm_deep(b)
        return a is b or type(a) is type(b) and is_scalar(a) and a == b

    def compare(it, r, text, o, what):
        oblige(it)
        if not (isinstance(r, Obj) and r.cls.is_sub(Route)):
            fail(it, '%s yields %s' % (what, show(r)))
        if not same(it, it.getattr(r, 'route'), text):
            fail(it, '%s: the path is %s instead of %s' % (
                what, show(it.getattr(r, 'route')), show(text)))
        for n in OPTS:
            oblige(it)
            v = it.getattr(r, n)
            if n == 'defaults':
                if not o[n]:
                    if it.truth(v):
                        fail(it, '%s adds defaults' % what)
                    continue
                if not it.truth(v):
                    fail(it, '%s loses the defaults' % what)
                ks = [k for k in it.iterate(v)]
                if set(ks) != set(o[n]):
                    fail(it, '%s changes the defaults' % what)
                for k in ks:
                    if not same(it, it.getitem(v, k), o[n][k]):
                        fail(it, '%s: default %s is %s' % (
                            what, k, show(it.getitem(v, k))))
            elif not same(it, v, o[n]):
                fail(it, '%s: option %s is %s instead of %s' % (
                    what, n, show(v), show(o[n])))
        args = set(it.iterate(it.getattr(r, 'arguments')))
        if args != set(o['defaults'] or ()):
            fail(it, '%s: the arguments are %s' % (what, args))
        if it.getattr(r, 'router') is not None:
            fail(it, '%s yields a bound route' % what)
        tail = text if isinstance(text, str) else text.args[-1]
        if isinstance(tail, str) and it.truth(it.getattr(r, 'is_leaf')) is \
                tail.endswith('/'):
            fail(it, '%s: leaf and branch are confused' % what)

    TEXTS = ('/', '/foo', '/foo/<x>/')

    def wrap(it, names, leaf):
        """nested factories, outermost first, and the changes they make"""
        f = leaf
        ch = []
        for n in reversed(names):
            if n == 'Subdomain':
                v = sym('domain%d' % len(ch), 'str')
            elif n == 'Submount':
                v = ('/blog', '/blog/', '', '/', cat(it, cat(
                    it, '/', sym('p%d' % len(ch), 'str')), '.d'))[it.choose(5, 'path')]
            else:
                v = sym('prefix%d' % len(ch), 'str')
            f = it.mk_list([call(it, FACT[n], v, f)])
            ch.append((n, v))
        return list(it.iterate(f))[0], ch

    def expect(it, ch, text, o):
        o = dict(o)
        for n, v in ch:
            if n == 'Subdomain':
                o['subdomain'] = v
            elif n == 'Submount':
                v = it.call(it.getattr(v, 'rstrip'), ['/'], {})
                text = cat(it, v, text)
            else:
                o['endpoint'] = cat(it, v, o['endpoint'])
        return text, o

    def factory(names, kind, deep):
        def fn(it):
            o = options(it, kind, False)
            ro = [make(it, t, o) for t in TEXTS]
            leaf = it.mk_list(ro)
            f, ch = wrap(it, names, leaf)
            m = call(it, URLMap)
            what = '/'.join(names)
            twice = it.choose(2, 'again')
            got = list(it.iterate(meth(it, f, 'get_routes', m)))
            if twice:
                got = list(it.iterate(meth(it, f, 'get_routes', m)))
            oblige(it)
            if len(got) != len(TEXTS):
                fail(it, '%s yields %d of %d routes' % (what, len(got),
                                                        len(TEXTS)))
            for t, r, a in zip(TEXTS, got, ro):
                text, e = expect(it, ch, t, o)
                compare(it, r, text, e, what)
                if r in ro:
                    fail(it, '%s hands out the wrapped route itself' % what)
                d = it.getattr(r, 'defaults')
                if d is not None and d is it.getattr(a, 'defaults'):
                    fail(it, '%s shares the defaults' % what)
                compare(it, a, t, o, what + ' (wrapped route)')
        return fn
    for n in FACT:
        for kind in ('plain', 'objects'):
            out.append(Scen('%s, %s' % (n, kind), factory([n], kind, 1), n))
    for p in itertools.product(FACT, repeat=2):
        out.append(Scen('%s in %s' % (p[1], p[0]), factory(
            list(p), 'objects', 2), p[0]))
    for p in itertools.permutations(FACT):
        out.append(Scen('all: %s' % '/'.join(p), factory(
            list(p), 'objects', 3), p[0]))

    # -- templates ---------------------------------------------------------
    def fmt(o, n):
        o = dict(o)
        for k, v in o.items():
            if isinstance(v, str):
                o[k] = v.replace('{n}', n)
        if o['defaults']:
            o['defaults'] = {k: v.replace('{n}', n) if isinstance(v, str)
                             else v for k, v in o['defaults'].items()}
        return o

    def template(kind, texts, inner):
        def fn(it):
            o = options(it, kind, True)
            ro = [make(it, t, o) for t in texts]
            leaf = it.mk_list(ro)
            ch = []
            if inner:
                f, ch = wrap(it, [inner], leaf)
                leaf = it.mk_list([f])
            if it.choose(2, 'iterator'):
                leaf = it.call(prog.builtins['iter'], [leaf], {})
            t = call(it, Template, leaf)
            m = call(it, URLMap)
            for n in ('user', 'page'):
                f = call(it, t, n=n) if it.choose(2, 'context') else call(
                    it, t, it.mk_dict({'n': n}))
                got = list(it.iterate(meth(it, f, 'get_routes', m)))
                oblige(it)
                if len(got) != len(texts):
                    fail(it, 'the template yields %d of %d routes' % (
                        len(got), len(texts)))
                for a, r, s in zip(texts, got, ro):
                    text, e = expect(it, ch, a, o)
                    e = fmt(e, n)
                    compare(it, r, text.replace('{n}', n), e, 'the template')
                    compare(it, s, a, o, 'the template (wrapped route)')
        return fn
    TT = ('/', '/{n}', '/{n}/<x>/', '/a/{n}-{n}/')
    for kind in ('plain', 'template', 'template objects'):
        out.append(Scen('template, %s' % kind, template(kind, TT, None),
                        'RouteTemplate'))

    # -- empty() of a bound route ---------------------------------------------
    def empty(kind):
        def fn(it):
            o = options(it, kind, False)
            a = make(it, '/foo/<x>', o)
            r = meth(it, a, 'empty')
            compare(it, r, '/foo/<x>', o, 'empty()')
            if r is a or o['defaults'] and it.getattr(
                    r, 'defaults') is it.getattr(a, 'defaults'):
                fail(it, 'empty() shares state with the route')
        return fn
    for kind in ('plain', 'objects'):
        out.append(Scen('empty, ' + kind, empty(kind), 'Route.empty'))

    def both_maps(it):
        """a bound route can be put into another map by way of empty()"""
        o = options(it, 'plain', False)
        o['defaults'] = {'d': 1}
        a = make(it, '/foo/<x>/', o)
        m1 = call(it, URLMap, it.mk_list([a]))
        b = meth(it, a, 'empty')
        m2 = call(it, URLMap, it.mk_list([b]))
        oblige(it, 2)
        if it.getattr(a, 'router') is not m1 or it.getattr(
                b, 'router') is not m2:
            fail(it, 'the routes are not bound to their maps')
        if set(it.iterate(it.getattr(b, 'arguments'))) != {'d', 'x'}:
            fail(it, 'the copy has other arguments')
        if set(it.iterate(it.getattr(a, 'arguments'))) != {'d', 'x'}:
            fail(it, 'the route has other arguments')
    out.append(Scen('empty, bound to another map', both_maps, 'Route.empty'))

    # -- the compiled routes ---------------------------------------------------
    WRITTEN = [
        ('Subdomain', ('api',), dict(endpoint='e', subdomain='api')),
        ('Subdomain', ('<s>',), dict(endpoint='e', subdomain='<s>')),
        ('Submount', ('/blog',), dict(endpoint='e')),
        ('Submount', ('/b/<y>/',), dict(endpoint='e')),
        ('EndpointPrefix', ('p/',), dict(endpoint='p/e')),
    ]

    def compiled(name, args, opts, order):
        def fn(it):
            lax = bool(it.choose(2, 'lax'))
            mk = lambda: [call(it, Route, t, endpoint='e')   # noqa: E731
                          for t in TEXTS]
            f = call(it, FACT[name], *args, it.mk_list(mk()))
            m1 = call(it, URLMap, it.mk_list([f]), strict_slashes=not lax)
            pre = args[0].rstrip('/') if name == 'Submount' else ''
            m2 = call(it, URLMap, it.mk_list([
                call(it, Route, pre + t, **opts) for t in TEXTS]),
                strict_slashes=not lax)
            for w in ((None,), (opts['endpoint'],)):
                a = list(it.iterate(meth(it, m1, 'iter_routes', *w)))
                b = list(it.iterate(meth(it, m2, 'iter_routes', *w)))
                oblige(it)
                if len(a) != len(b):
                    fail(it, 'the map has %d instead of %d routes' % (
                        len(a), len(b)))
                for x, y in zip(a, b):
                    for n in ('route', 'is_leaf', 'subdomain', 'endpoint',
                              'strict_slashes', 'build_only'):
                        oblige(it)
                        if not same(it, it.getattr(x, n), it.getattr(y, n)):
                            fail(it, 'bound routes differ in %s: %s, %s' % (
                                n, show(it.getattr(x, n)),
                                show(it.getattr(y, n))))
                    if set(it.iterate(it.getattr(x, 'arguments'))) != set(
                            it.iterate(it.getattr(y, 'arguments'))):
                        fail(it, 'bound routes differ in their arguments')
                    p = sym('path', 'str')
                    ra = attempt(it, meth, it, x, 'match', p)
                    rb = attempt(it, meth, it, y, 'match', p)
                    if ra[0] != rb[0] or (ra[1] is None) != (rb[1] is None):
                        fail(it, 'routes of the factory match differently')
        return fn
    for i, (n, a, o) in enumerate(WRITTEN):
        out.append(Scen('compiled %s%s' % (n, a), compiled(n, a, o, i), n))
    return out
