"""C42: applications."""
from .lib import *
from .resplib import Start, headers_of
from .c23 import env
from .c17 import want, check_same

RULE = ('Builders filled through every public method, in different orders and '
        'before and after applications are built from them, are followed to '
        'the applications they build; requests for every endpoint must reach '
        'what had been added by then and nothing else, errors must reach the '
        'handler registered for their class with the error itself, or come '
        'out unchanged.')
MIN_SCENARIOS = 25


def scenarios(prog):
    out = []
    g = prog.get
    AB = g('verktyg.application.ApplicationBuilder')
    Route = g('verktyg.routing.Route')
    Resp = g('verktyg.responses.Response')
    Binding = g('verktyg.dispatch.Binding')
    Handler = g('verktyg.exception_dispatch.ExceptionHandler')
    exc = lambda n: g('verktyg.exceptions.' + n)

    def add(name, fn, subject='ApplicationBuilder', **kw):
        out.append(Scen(name, fn, subject, **kw))

    def action(it, log, tag, err=None):
        def f(i, a, k):
            log.append((tag, list(a), dict(k)))
            if err is not None:
                raise PyRaise(err, None)
            return call(i, Resp, 'from ' + tag)
        h = HostFunc(tag, f)
        h.attrs = {'__name__': tag}
        return h

    def ask(it, app, path, log, method='GET', **extra):
        """('ok', tag of the action called, body, Start) or
        ('raise', exception)"""
        del log[:]
        st = Start()
        e = env(it, method, path, **extra)
        try:
            body = [x for x in it.iterate(call(it, app, e, st.func()))]
        except PyRaise as x:
            return ('raise', x.val, e, st)
        return ('ok', body, e, st)

    def reaches(it, app, path, log, tag, what, **kw):
        r = ask(it, app, path, log, **kw)
        oblige(it)
        if r[0] == 'raise':
            fail(it, '%s: %s raises %s' % (what, path, exc_name(r[1])))
        if [x[0] for x in log] != [tag] or r[1] != [b'from ' + tag.encode()]:
            fail(it, '%s: %s reaches %s and sends %r' % (
                what, path, [x[0] for x in log], r[1]))
        return r

    def refuses(it, app, path, log, name, what, **kw):
        r = ask(it, app, path, log, **kw)
        oblige(it)
        if r[0] != 'raise' or exc_name(r[1]) != name or log:
            fail(it, '%s: %s gives %s instead of raising %s' % (
                what, path, exc_name(r[1]) if r[0] == 'raise' else
                [x[0] for x in log], name))
        return r

    # what is added before and after building
    def grow(it, when):
        log = []
        b = call(it, AB)
        parts = {
            'route': lambda n: meth(it, b, 'add_routes', call(
                it, Route, '/' + n, endpoint=n)),
            'binding': lambda n: meth(it, b, 'add_bindings', call(
                it, Binding, n, action(it, log, n)))}
        for n in ('one', 'two'):
            parts['route'](n)
            parts['binding'](n)
        if when == 'half':
            parts['route']('three')
        a1 = None if when == 'before' else call(it, b, 'http://localhost/')
        if when != 'half':
            parts['route']('three')
        parts['binding']('three')
        meth(it, b, 'add_exception_handler', exc('NotFound'),
             action(it, log, 'handler'))
        meth(it, b, 'add_middleware', HostFunc('mw', lambda i, a, k: HostFunc(
            'inner', lambda i2, a2, k2: (log.append('mw'), i2.call(
                a[0], list(a2), {}))[1])))
        it.setitem(it.getattr(b, 'config'), 'late', 1)
        a2 = call(it, b, 'http://localhost/') if when == 'before' else None
        oblige(it, 2)
        if a1 is not None:
            for n in ('one', 'two'):
                reaches(it, a1, '/' + n, log, n, 'first application')
            if when == 'half':
                refuses(it, a1, '/three', log, 'NotImplemented',
                        'an application whose endpoint had no binding')
            else:
                refuses(it, a1, '/three', log, 'NotFound',
                        'an application built before the route was added')
            refuses(it, a1, '/four', log, 'NotFound',
                    'an application built before the handler was added')
            if it.contains(it.getattr(a1, 'config'), 'late'):
                fail(it, 'a later change of the configuration reaches an '
                     'application already built')
            return
        if not it.contains(it.getattr(a2, 'config'), 'late'):
            fail(it, 'the configuration does not reach the application')
        for n in ('one', 'two', 'three'):
            r = ask(it, a2, '/' + n, log)
            if r[0] == 'raise' or [x if x == 'mw' else x[0]
                                   for x in log] != ['mw', n]:
                fail(it, 'second application: %s gives %r' % (n, log))
        r = ask(it, a2, '/four', log)
        if r[0] == 'raise' or [x if x == 'mw' else x[0]
                               for x in log] != ['mw', 'handler']:
            fail(it, 'second application: the handler is not called')
    for when in ('before', 'half', 'after'):
        add('grow.' + when, lambda it, w=when: grow(it, w))

    def many(it):
        """several at once, several times"""
        log = []
        b = call(it, AB)
        rs = [call(it, Route, '/' + n, endpoint=n) for n in
              ('one', 'two', 'three')]
        bs = [call(it, Binding, n, action(it, log, n)) for n in
              ('one', 'two', 'three')]
        meth(it, b, 'add_bindings', bs[2])
        meth(it, b, 'add_routes', rs[0], rs[1])
        meth(it, b, 'add_bindings', bs[0], bs[1])
        meth(it, b, 'add_routes')
        meth(it, b, 'add_routes', rs[2])
        a = call(it, b)
        for n in ('one', 'two', 'three'):
            reaches(it, a, '/' + n, log, n, 'additions in parts')
    add('many', many)

    def apart(it):
        """two builders have nothing in common"""
        log = []
        b1, b2 = call(it, AB), call(it, AB)
        for b, n in ((b1, 'one'), (b2, 'two')):
            meth(it, b, 'add_routes', call(it, Route, '/' + n, endpoint=n))
            meth(it, b, 'add_bindings', call(it, Binding, n,
                                             action(it, log, n)))
            it.setitem(it.getattr(b, 'config'), n, 1)
        meth(it, b1, 'add_exception_handler', exc('NotFound'),
             action(it, log, 'handler'))
        mixin = ClassV('Mixin', [prog.builtins['object']],
                       {'mark': 'mixed'}, kind='repo')
        meth(it, b1, 'add_application_mixins', mixin)
        meth(it, b1, 'add_request_mixins', mixin)
        a2 = call(it, b2)
        reaches(it, a2, '/two', log, 'two', 'second builder')
        refuses(it, a2, '/one', log, 'NotFound', 'second builder')
        oblige(it)
        if it.contains(it.getattr(a2, 'config'), 'one'):
            fail(it, 'two builders share their configuration')
        r = attempt(it, it.getattr, a2, 'mark')
        if r[0] == 'ok':
            fail(it, 'two builders share their mixins')
        reaches(it, call(it, b1), '/one', log, 'one', 'first builder')
    add('apart', apart)

    # expose
    def f_expose(it, name, route, method):
        log = []
        b = call(it, AB)
        kw = {}
        if route:
            kw['route'] = '/there'
        if method:
            kw['methods'] = it.mk_list([method])
        dec = meth(it, b, 'expose', *([name] if name else []), _kw=kw)
        act = action(it, log, 'shown')
        oblige(it)
        if call(it, dec, act) is not act:
            fail(it, 'expose replaces the function')
        if not route:
            meth(it, b, 'add_routes', call(it, Route, '/there',
                                           endpoint=name or 'shown'))
        a = call(it, b, 'http://localhost/')
        reaches(it, a, '/there', log, 'shown', 'an exposed function',
                method=method or 'GET')
        refuses(it, a, '/there', log, 'MethodNotAllowed',
                'an exposed function', method='PUT')
        oblige(it)
        u = want(it, lambda: meth(it, a, 'url_for', name or 'shown'),
                 'url_for')
        if u != '/there':
            fail(it, 'the URL of an exposed function is %r' % (u,))
    for name in (None, 'named'):
        for route in (True, False):
            for method in (None, 'POST'):
                add('expose.%s.%d.%s' % (name, route, method),
                    lambda it, a=(name, route, method): f_expose(it, *a),
                    'ApplicationBuilder.expose')

    # converters
    def f_conv(it):
        log = []
        b = call(it, AB)
        base = g('verktyg.routing.BaseConverter')
        conv = ClassV('Conv', [base], {
            'regex': 'x[0-9]', 'to_python': HostFunc(
                'to_python', lambda i, a, k: 'py ' + i.facts.norm(a[1]),
                binds=True)}, kind='repo')
        other = ClassV('Other', [base], {'regex': 'y'}, kind='repo')
        meth(it, b, 'add_converters', mine=conv)
        meth(it, b, 'add_converters', other=other)
        meth(it, b, 'add_routes',
             call(it, Route, '/a/<mine:v>', endpoint='one'),
             call(it, Route, '/b/<other:v>', endpoint='one'),
             call(it, Route, '/c/<int:v>', endpoint='one'))
        meth(it, b, 'add_bindings', call(it, Binding, 'one',
                                         action(it, log, 'one')))
        a = call(it, b)
        for path, v in (('/a/x1', 'py x1'), ('/b/y', 'y'), ('/c/12', 12)):
            reaches(it, a, path, log, 'one', 'a converter')
            if log[0][2] != {'v': v}:
                fail(it, 'the converted value is %r, not %r' % (log[0][2], v))
        for path in ('/a/y', '/b/x1', '/c/x1'):
            refuses(it, a, path, log, 'NotFound', 'a converter')
        b2 = call(it, AB)
        meth(it, b2, 'add_routes', call(it, Route, '/a/<mine:v>',
                                        endpoint='one'))
        oblige(it)
        r = attempt(it, lambda: ask(it, call(it, b2), '/a/x1', log))
        if r[0] == 'ok' and r[1][0] == 'ok':
            fail(it, 'converters of one builder are known to another')
    add('converters', f_conv, 'ApplicationBuilder.add_converters')

    # mixins
    def f_mix(it):
        log = []
        b = call(it, AB)
        m = [ClassV('M%d' % i, [prog.builtins['object']],
                    {'mark%d' % i: 'mixed%d' % i, 'shared': i}, kind='repo')
             for i in range(4)]
        meth(it, b, 'add_application_mixins', m[0], m[1])
        meth(it, b, 'add_application_mixins', m[0])
        meth(it, b, 'add_request_mixins', m[2])
        meth(it, b, 'add_request_mixins', m[3], m[2])
        meth(it, b, 'add_routes', call(it, Route, '/one', endpoint='one'))
        meth(it, b, 'add_bindings', call(it, Binding, 'one',
                                         action(it, log, 'one')))
        a = want(it, lambda: call(it, b), 'building with mixins')
        reaches(it, a, '/one', log, 'one', 'mixins')
        req = log[0][1][1]
        for o, names, others in ((a, (0, 1), (2, 3)), (req, (2, 3), (0, 1))):
            oblige(it, 4)
            for i in names:
                r = attempt(it, it.getattr, o, 'mark%d' % i)
                if r[0] != 'ok' or r[1] != 'mixed%d' % i:
                    fail(it, 'mixin %d is missing' % i)
            for i in others:
                if attempt(it, it.getattr, o, 'mark%d' % i)[0] == 'ok':
                    fail(it, 'mixin %d is in the wrong class' % i)
            if it.getattr(o, 'shared') != names[0]:
                fail(it, 'the mixin added first does not come first')
        if log[0][1][0] is not a:
            fail(it, 'the action gets another application')
    add('mixins', f_mix)

    def f_defaults(it, default):
        log = []
        b = call(it, AB, **({} if default else {
            'default_request_mixins': False,
            'default_redirect_handler': False}))
        meth(it, b, 'add_routes', call(it, Route, '/one/', endpoint='one'))
        meth(it, b, 'add_bindings', call(it, Binding, 'one',
                                         action(it, log, 'one')))
        a = call(it, b, 'http://localhost/')
        reaches(it, a, '/one/', log, 'one', 'defaults')
        req = log[0][1][1]
        oblige(it)
        for n in ('cache_control', 'authorization', 'content_type'):
            r = attempt(it, it.getattr, req, n)
            if (r[0] == 'ok') != default:
                fail(it, 'requests %s the attribute %s' % (
                    'lack' if default else 'have', n))
        if not it.isinstance_(req, g('verktyg.requests.BaseRequest')):
            fail(it, 'the request is no request')
        if not default:
            r = refuses(it, a, '/one', log, 'RequestRedirect', 'a redirect')
            return
        r = ask(it, a, '/one', log, QUERY_STRING='x=%20y')
        oblige(it)
        if r[0] != 'ok' or log or len(r[3].calls) != 1:
            fail(it, 'a redirect is not answered')
        st, hs = r[3].calls[0][:2]
        loc = [v for k, v in headers_of(it, hs) if k.lower() == 'location']
        if not it.facts.norm(st).startswith('301') or \
                loc != ['http://localhost/one/?x=%20y']:
            fail(it, 'a redirect is answered with %r and %r' % (st, loc))
    for d in (True, False):
        add('defaults.%d' % d, lambda it, d=d: f_defaults(it, d))

    # errors
    def f_err(it, how, cls, reg, hit):
        log = []
        b = call(it, AB)
        C = prog.builtins.get(cls) or exc(cls)
        err = call(it, C)
        meth(it, b, 'add_routes', call(it, Route, '/one', endpoint='one'))
        meth(it, b, 'add_bindings', call(it, Binding, 'one',
                                         action(it, log, 'one', err)))
        for n in reg:
            R_ = prog.builtins.get(n) or exc(n)
            h = action(it, log, n)
            if how == 'decorator':
                oblige(it)
                if call(it, meth(it, b, 'exception_handler', R_), h) is not h:
                    fail(it, 'exception_handler replaces the function')
            elif how == 'method':
                meth(it, b, 'add_exception_handler', R_, h)
            else:
                meth(it, b, 'add_exception_handlers', call(
                    it, Handler, R_, h))
        a = call(it, b)
        r = ask(it, a, '/one', log)
        oblige(it, 2)
        if hit is None:
            if r[0] != 'raise' or r[1] is not err or \
                    [x[0] for x in log] != ['one']:
                fail(it, 'an error nobody handles gives %r' % (r,))
            return
        if r[0] == 'raise' or [x[0] for x in log] != ['one', hit]:
            fail(it, '%s is handled by %s, not by the handler of %s' % (
                cls, [x[0] for x in log[1:]] or r[0], hit))
        args = log[1][1]
        if len(args) != 5 or args[0] is not a or args[2] is not C or \
                args[3] is not err or args[1] is not log[0][1][1]:
            fail(it, 'the handler is called with %r' % (args,))
        if r[1] != [b'from ' + hit.encode()]:
            fail(it, 'the answer of the handler is not sent')
    for i, (cls, reg, hit) in enumerate((
            ('KeyError', ('KeyError',), 'KeyError'),
            ('KeyError', ('LookupError', 'ValueError'), 'LookupError'),
            ('KeyError', ('Exception', 'LookupError'), 'LookupError'),
            ('KeyError', ('LookupError', 'Exception'), 'LookupError'),
            ('KeyError', ('ValueError', 'IndexError'), None),
            ('KeyError', (), None),
            ('NotFound', ('HTTPException',), 'HTTPException'),
            ('NotFound', ('HTTPException', 'NotFound'), 'NotFound'),
            ('Gone', ('NotFound',), None))):
        for how in ('decorator', 'method', 'object'):
            add('error.%d.%s' % (i, how), lambda it, a=(how, cls, reg, hit):
                f_err(it, *a), 'BaseApplication')

    def f_nego(it, hdr, vals, kws):
        """handlers are negotiated with the headers of the request"""
        log = []
        b = call(it, AB)
        for v, kw in zip(vals, kws):
            meth(it, b, 'add_exception_handler', exc('NotFound'),
                 action(it, log, v), _kw=kw)
        a = call(it, b)
        for v in vals:
            r = ask(it, a, '/nowhere', log, **{hdr: v})
            oblige(it)
            if r[0] != 'ok' or [l[0] for l in log] != [v]:
                fail(it, '%s: %s is answered by the handler for %s' % (
                    hdr, v, [l[0] for l in log]))
    for hdr, key, vals in (
            ('HTTP_ACCEPT', 'content_type', ('text/html',
                                             'application/json')),
            ('HTTP_ACCEPT_LANGUAGE', 'language', ('de', 'fr')),
            ('HTTP_ACCEPT_CHARSET', 'charset', ('utf-8', 'iso-8859-1'))):
        for turn in (1, -1):
            add('negotiate.%s.%d' % (key, turn),
                lambda it, a=(hdr, vals[::turn], [
                    {key: v} for v in vals[::turn]]): f_nego(it, *a),
                'BaseApplication')

    def f_fresh(it):
        """one error leaves nothing behind for the next request"""
        log = []
        b = call(it, AB)
        meth(it, b, 'add_routes', call(it, Route, '/one', endpoint='one'),
             call(it, Route, '/two/<v>', endpoint='two'))
        meth(it, b, 'add_bindings',
             call(it, Binding, 'one', action(it, log, 'one', call(
                 it, prog.builtins['ValueError'], 'x'))),
             call(it, Binding, 'two', action(it, log, 'two')))
        a = call(it, b)
        oblige(it)
        r = ask(it, a, '/one', log)
        if r[0] != 'raise':
            fail(it, 'an error disappears')
        v = word(it, 'v', r'[a-z]')
        w = word(it, 'w', r'[a-z]')
        for x in (v, w, v):
            r = ask(it, a, cat(it, '/two/', x), log)
            if r[0] != 'ok' or [l[0] for l in log] != ['two'] or \
                    list(log[0][2]) != ['v'] or \
                    not it.eq(log[0][2]['v'], x):
                fail(it, 'a later request for %r gives %r' % (x, log))
    add('fresh', f_fresh, 'BaseApplication')

    for root, script in (('', ''), ('http://h.example', ''),
                         ('http://h.example/', ''),
                         ('https://h.example:8443/app', '/app'),
                         ('//h.example/app/', '/app')):
        def f_url(it, root=root, script=script):
            log = []
            b = call(it, AB)
            meth(it, b, 'add_routes',
                 call(it, Route, '/one', endpoint='one'),
                 call(it, Route, '/two/<v>', endpoint='two'))
            a = call(it, b, root)
            v = word(it, 'v', r'[a-z]')
            check_same(it, want(it, lambda: meth(
                it, a, 'url_for', 'one'), 'url_for'), script + '/one',
                'url_for below %r' % root)
            check_same(it, want(it, lambda: meth(
                it, a, 'url_for', 'two', v=v), 'url_for'),
                cat(it, script + '/two/', v), 'url_for below %r' % root)
            q = want(it, lambda: meth(it, a, 'url_for', 'one', q=v),
                     'url_for')
            check_same(it, q, cat(it, script + '/one?q=', v),
                       'url_for with more values')
            oblige(it)
            r = attempt(it, meth, it, a, 'url_for', 'three')
            if r[0] == 'ok':
                fail(it, 'there is a URL for an unknown endpoint')
        add('url_for.%s' % root, f_url, 'BaseApplication.url_for')
    return out
