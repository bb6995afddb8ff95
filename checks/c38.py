"""C38: malformed routes are refused when the map is made."""
from .lib import *

RULE = ('Route and URLMap are followed for templates that are malformed in '
        'every documented way; the obligation is the documented error at the '
        'construction of the route or its addition to a map, and a map that '
        'answers afterwards as if the route had never been added.')
MIN_SCENARIOS = 30


def scenarios(prog):
    out = []
    g = lambda n: prog.get('verktyg.routing.' + n)      # noqa: E731
    URLMap, Route = g('URLMap'), g('Route')
    NotFound = prog.get('verktyg.exceptions.NotFound')

    def slash(it):
        s = sym('template', 'str')
        for ch in '<>':
            it.facts.truth[Term('in', (ch, s), 'bool')] = False
        r = attempt(it, call, it, Route, s, endpoint='e')
        ok = it.truth(it.call(it.getattr(s, 'startswith'), ['/'], {}))
        oblige(it)
        if r[0] == 'raise':
            if ok:
                fail(it, 'a template with a leading slash is refused with ' +
                     exc_name(r[1]), r[2])
            if not is_exc(it, r[1], prog.builtins['ValueError']):
                fail(it, 'a template without slash raises ' + exc_name(r[1]),
                     r[2])
        elif not ok:
            fail(it, 'a template without leading slash is accepted')
    out.append(Scen('leading slash', slash, 'verktyg.routing.Route'))

    def bad(name, exc, make, opts=None):
        """the map refuses the route and works on"""
        def fn(it):
            how = it.choose(3, 'way')
            kw = dict(opts or {})
            good = call(it, Route, '/good', endpoint='good',
                        **({'host': 'h'} if kw else {}))
            if how == 0:
                r = attempt(it, lambda i: call(i, URLMap, i.mk_list(
                    [good, make(i)]), **kw), it)
                m = None
            else:
                m = call(it, URLMap, it.mk_list([good]), **kw)
                if how == 1:
                    r = attempt(it, lambda i: meth(i, m, 'add_routes',
                                                   make(i)), it)
                else:
                    r = attempt(it, lambda i: meth(i, m, 'add_routes', call(
                        i, g('Submount'), '/sub', i.mk_list([make(i)]))), it)
            oblige(it)
            if r[0] == 'ok':
                fail(it, 'a route with %s is accepted' % name)
            if not is_exc(it, r[1], prog.builtins[exc]):
                fail(it, 'a route with %s raises %s' % (
                    name, exc_name(r[1])), r[2])
            if m is None:
                return
            oblige(it)
            srv = 'h'
            ad = meth(it, m, 'bind', srv)
            r = attempt(it, meth, it, ad, 'match', '/good')
            if r[0] == 'raise' or not it.eq(list(it.iterate(r[1]))[0],
                                            'good'):
                fail(it, 'the map is broken by the refused route')
            for p in ('/bad/a', '/sub/bad/a', '/bad/1/1'):
                r = attempt(it, meth, it, ad, 'match', p)
                if r[0] == 'ok' or not is_exc(it, r[1], NotFound):
                    fail(it, 'the refused route takes part in matching')
            n = len(list(it.iterate(meth(it, m, 'iter_routes'))))
            if n != 1:
                fail(it, 'the refused route is listed')
        out.append(Scen('refused: ' + name, fn, 'verktyg.routing.URLMap'))

    def R(t, **k):
        return lambda it: call(it, Route, t, endpoint='bad', **k)
    for n, t in (('an open variable', '/bad/<x'), ('a closing bracket',
                                                   '/bad/x>'),
                 ('an empty variable', '/bad/<>'),
                 ('a number as variable', '/bad/<1x>'),
                 ('a dash in a variable', '/bad/<a-b>'),
                 ('a converter without variable', '/bad/<int:>'),
                 ('a space in a variable', '/bad/<a b>'),
                 ('a second open variable', '/bad/<x>/<y'),
                 ('nested variables', '/bad/<<x>>'),
                 ('an open argument list', '/bad/<string(length=2:x>')):
        bad(n, 'ValueError', R(t))
    bad('a variable used twice', 'ValueError', R('/bad/<x>/<x>'))
    bad('a variable used twice with converters', 'ValueError',
        R('/bad/<int:x>/<x>'))
    bad('a variable used twice apart', 'ValueError',
        R('/bad/<x>/<y>/<int:x>/'))
    bad('a malformed subdomain', 'ValueError', R('/bad/x', subdomain='<x'))
    bad('a malformed host', 'ValueError', R('/bad/x', host='<x'),
        {'host_matching': True})
    bad('a variable used twice in the subdomain', 'ValueError',
        R('/bad/x', subdomain='<x>.<x>'))
    bad('an unknown converter', 'LookupError', R('/bad/<nope:x>'))
    bad('an unknown converter in the subdomain', 'LookupError',
        R('/bad/x', subdomain='<nope:x>'))
    bad('an unknown converter on a route that is only built', 'LookupError',
        R('/bad/<nope:x>', build_only=True))

    def used(it):
        r = call(it, Route, '/bad/x', endpoint='bad')
        call(it, URLMap, it.mk_list([r]))
        return r
    bad_used = used

    def twice(it):
        how = it.choose(3, 'way')
        r = bad_used(it)
        rs = {0: lambda: r, 1: lambda: call(it, g('Submount'), '', it.mk_list(
            [r])), 2: lambda: meth(it, r, 'empty')}[how]()
        m = call(it, URLMap)
        a = attempt(it, meth, it, m, 'add_routes', rs)
        oblige(it)
        if how == 0:
            if a[0] == 'ok':
                fail(it, 'a route is bound to two maps')
            if not is_exc(it, a[1], prog.builtins['RuntimeError']):
                fail(it, 'binding a route twice raises ' + exc_name(a[1]))
            if len(list(it.iterate(meth(it, m, 'iter_routes')))):
                fail(it, 'a refused route is listed')
        elif a[0] == 'raise':
            fail(it, 'a copy of a bound route is refused with ' + exc_name(
                a[1]), a[2])
    out.append(Scen('bound twice', twice, 'verktyg.routing.Route'))

    # routes taken in the same call before the refused one
    def partial(it):
        first = ('/<x>', '/a')[it.choose(2, 'order')]
        then = '/a' if first == '/<x>' else '/<x>'
        used = it.choose(2, 'map used before')
        mk = lambda t, e: call(it, Route, t, endpoint=e)   # noqa: E731
        m = call(it, URLMap, it.mk_list([mk(first, first)]))
        ad = meth(it, m, 'bind', 'h')
        if used:
            attempt(it, meth, it, ad, 'match', '/a')
        late = it.choose(3, 'way')
        bad = (lambda: mk('/<nope:y>', 'bad'),
               lambda: mk('/<y>/<y>', 'bad'),
               lambda: bad_used(it))[late]

        def offer(i):
            meth(it, m, 'add_routes', mk(then, then), bad())
        r = attempt(it, offer, it)
        oblige(it, 3)
        if r[0] == 'ok':
            fail(it, 'the wrong route is accepted')
        got = [it.facts.norm(it.getattr(x, 'endpoint'))
               for x in it.iterate(meth(it, m, 'iter_routes'))]
        if 'bad' in got or first not in got:
            fail(it, 'the map lists %s' % got)
        r = attempt(it, meth, it, ad, 'match', '/a')
        want = '/a' if '/a' in got else '/<x>'
        if r[0] == 'raise' or not it.eq(list(it.iterate(r[1]))[0], want):
            fail(it, 'a less specific route is tried before %s after a '
                 'route was refused' % want)
        if '/<x>' in got:
            r = attempt(it, meth, it, ad, 'match', '/b')
            if r[0] == 'raise' or not it.eq(list(it.iterate(r[1]))[0],
                                            '/<x>'):
                fail(it, 'the map is broken by the refused route')
    out.append(Scen('refused after others', partial,
                    'verktyg.routing.URLMap.add_routes'))

    def fine(t, opts, **k):
        def fn(it):
            r = attempt(it, lambda i: call(i, URLMap, i.mk_list([call(
                i, Route, t, endpoint='e', **k)]), **opts), it)
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'the route %s is refused with %s' % (
                    t, exc_name(r[1])), r[2])
            n = len(list(it.iterate(meth(it, r[1], 'iter_routes', 'e'))))
            if n != 1:
                fail(it, 'the route is not in the map')
        out.append(Scen('accepted: %s %s' % (t, k), fn,
                        'verktyg.routing.URLMap'))
    for t in ('/', '/<x>', '/<x>/<y>', '/<int:x>/<int:y>/', '/a.b/(c)',
              '/<path:x>/<_y>', '/<string(length=2):x>',
              '/<any(a, "b c"):x>', '/<X1>', '/<x><y>'):
        fine(t, {})
    fine('/<x>', {}, subdomain='<y>')
    fine('/<x>', {'host_matching': True}, host='<y>.example')
    return out
