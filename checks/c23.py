"""C23: requests are dispatched by endpoint, method and representation."""
import itertools

from .lib import *
from .resplib import Start, headers_of

RULE = ('Dispatch tables built from arbitrary (unknown) endpoint names and '
        'methods through every kind of binding factory, flat, nested or '
        'extended later, are compared with the list of registrations: the '
        'registered bindings of exactly that name and method are the '
        'candidates (GET ones for HEAD when there is none), 501 for unknown '
        'names, 405 for unknown methods.  In an application the chosen action '
        'is called once with application, request and route variables and '
        'the accept headers each reach their own dimension.')
MIN_SCENARIOS = 40


def env(it, method='GET', path='/', **extra):
    d = {'REQUEST_METHOD': method, 'PATH_INFO': path, 'SCRIPT_NAME': '',
         'QUERY_STRING': '', 'wsgi.url_scheme': 'http',
         'SERVER_NAME': 'localhost', 'SERVER_PORT': '80'}
    d.update(extra)
    return it.mk_dict(d)


def scenarios(prog):
    out = []
    Disp = prog.get('verktyg.dispatch.Dispatcher')
    Binding = prog.get('verktyg.dispatch.Binding')
    View = prog.get('verktyg.views.View')
    JsonView = prog.get('verktyg.views.JsonView')
    ClassView = prog.get('verktyg.views.ClassView')
    expose = prog.get('verktyg.views.expose')
    expose_json = prog.get('verktyg.views.expose_json')
    NI = prog.get('verktyg.exceptions.NotImplemented')
    MNA = prog.get('verktyg.exceptions.MethodNotAllowed')
    NA = prog.get('verktyg.exceptions.NotAcceptable')
    AB = prog.get('verktyg.application.ApplicationBuilder')
    Route = prog.get('verktyg.routing.Route')
    Resp = prog.get('verktyg.responses.Response')
    BaseResp = prog.get('verktyg.responses.BaseResponse')

    def action(log, tag):
        def f(*a, **k):
            log.append((tag, a, k))
            return ('result', tag)
        return HostFunc('action%s' % tag, lambda it, a, k: (
            log.append((tag, tuple(a), dict(k))), sym('r_%s' % tag))[1])

    def expected(it, table, name, method):
        """(exception class, None) or (None, tag)"""
        same = [t for t in table if it.eq(t[0], name)]
        if not same:
            return NI, None
        c = [t for t in same if it.eq(t[1], method)]
        if not c and it.eq(method, 'HEAD'):
            c = [t for t in same if it.eq(t[1], 'GET')]
        if not c:
            return MNA, None
        return None, c[-1][2]

    def check(it, d, table, name, method, log, **kw):
        if method is None:
            r = attempt(it, meth, it, d, 'lookup', name)
            method = 'GET'
        else:
            r = attempt(it, meth, it, d, 'lookup', name, _kw=dict(
                kw, method=method))
        exc, tag = expected(it, table, name, method)
        oblige(it)
        if exc is not None:
            if r[0] == 'ok':
                fail(it, 'lookup finds a binding instead of raising %s' %
                     exc.name)
            if not is_exc(it, r[1], exc):
                fail(it, 'lookup raises %s instead of %s' % (
                    exc_name(r[1]), exc.name))
            return
        if r[0] == 'raise':
            fail(it, 'lookup raises %s instead of finding binding %s' % (
                exc_name(r[1]), tag))
        del log[:]
        app, req, x, y = (sym(n) for n in ('app', 'req', 'x', 'y'))
        res = call(it, r[1], app, req, x, k=y)
        if [l[0] for l in log] != [tag]:
            fail(it, 'lookup finds action %s instead of %s' % (
                [l[0] for l in log], tag))
        if log[0][1] != (app, req, x) or log[0][2] != {'k': y}:
            fail(it, 'the arguments of the action are not passed on')
        if res is not sym('r_%s' % tag):
            fail(it, 'the result of the action is not passed on')

    # -- flat tables with unknown names and methods --------------------------
    def flat(n, unknown_method, ctor, default_method):
        def fn(it):
            log, table, bs = [], [], []
            for i in range(n):
                nm = sym('name%d' % i)
                if unknown_method:
                    m = sym('method%d' % i, 'str')
                else:
                    m = ('GET', 'POST', 'HEAD')[it.choose(3, 'method')]
                kw = {} if m == 'GET' and it.choose(2, 'default') else \
                    {'method': m}
                bs.append(call(it, Binding, nm, action(log, i), **kw))
                table.append((nm, m, i))
            if ctor:
                d = call(it, Disp, it.mk_list(bs))
            else:
                d = call(it, Disp)
                meth(it, d, 'add_bindings', *bs)
            got = list(it.iterate(meth(it, d, 'get_bindings')))
            require(it, len(got) == n and all(a is b for a, b in
                                              zip(got, bs)),
                    'get_bindings does not give the bindings in order')
            if default_method:
                m = None
            elif unknown_method:
                m = sym('method', 'str')
            else:
                m = ('GET', 'POST', 'HEAD', 'PUT')[it.choose(4, 'asked')]
            check(it, d, table, sym('name'), m, log)
        return fn
    for n in (0, 1, 2) + ((3,) if thorough() else ()):
        for u in (False, True):
            for c in (False, True):
                out.append(Scen('%d bindings%s%s' % (
                    n, ', unknown methods' if u else '',
                    ', constructor' if c else ''), flat(n, u, c, False),
                    Disp.qual))
        out.append(Scen('%d bindings, default method' % n,
                        flat(n, False, False, True), Disp.qual))

    # -- factories -----------------------------------------------------------
    def factories(it, log, i):
        """a factory and the table entries it stands for"""
        k = it.choose(7, 'kind of factory')
        nm = ('a', 'b')[it.choose(2, 'name')]
        act = action(log, i)
        if k == 0:
            return call(it, Binding, nm, act), [(nm, 'GET', i)]
        if k == 1:
            return call(it, View, nm, act), [(nm, 'GET', i)]
        if k == 2:
            return call(it, View, nm, act, methods='POST'), [(nm, 'POST', i)]
        if k == 3:
            ms = it.mk_list(['GET', 'POST'])
            v = call(it, View, nm, act, methods=ms)
            meth(it, ms, 'append', 'PUT')
            return v, [(nm, 'GET', i), (nm, 'POST', i)]
        if k == 4:
            c = ClassV('Foo', [ClassView], {
                'name': nm, 'GET': HostFunc('GET', lambda it, a, kw: it.call(
                    act, list(a[1:]), kw), True),
                'HEAD': HostFunc('HEAD', lambda it, a, kw: it.call(
                    act, list(a[1:]), kw), True)}, kind='repo')
            return call(it, c), [(nm, 'GET', i), (nm, 'HEAD', i)]
        if k == 5:
            d = call(it, Disp, it.mk_list([call(it, Binding, nm, act)]))
            return d, [(nm, 'GET', i)]
        d = call(it, Disp)
        e = call(it, Disp, it.mk_list([d]))
        # bindings of the inner dispatcher at the time of nesting
        meth(it, d, 'add_bindings', call(it, Binding, nm, act))
        f = call(it, Disp, it.mk_list([d, e]))
        return f, [(nm, 'GET', i)]

    def made(n, m):
        def fn(it):
            log, table, fs = [], [], []
            for i in range(n):
                f, t = factories(it, log, i)
                fs.append(f)
                table += t
            d = call(it, Disp)
            o = call(it, Disp)
            if it.choose(2, 'one call'):
                meth(it, d, 'add_bindings', *fs)
            else:
                for f in fs:
                    meth(it, d, 'add_bindings', f)
            check(it, d, table, 'a', m, log)
            check(it, o, [], 'a', m, log)
        return fn
    for m in ('GET', 'POST', 'HEAD', 'PUT', None):
        for n in (1, 2):
            out.append(Scen('%d factories, %s' % (n, m), made(n, m),
                            Disp.qual, max_time=120))

    def deco(which):
        def fn(it):
            log = []
            d = call(it, Disp)
            f = action(log, 0)
            g = call(it, call(it, which, d, 'a', methods='POST'), f)
            require(it, g is f, 'the decorator replaces the function')
            r = attempt(it, meth, it, d, 'lookup', 'a', method='POST')
            require(it, r[0] == 'ok', 'the exposed function is not found')
            r = attempt(it, meth, it, d, 'lookup', 'a')
            require(it, r[0] == 'raise' and is_exc(it, r[1], MNA),
                    'the exposed function is bound to other methods')
        return fn
    out.append(Scen('decorator expose', deco(expose), expose.qual))
    out.append(Scen('decorator expose_json', deco(expose_json),
                    expose_json.qual))

    # -- negotiation -----------------------------------------------------------
    def negotiated(kind):
        def fn(it):
            log = []
            if kind == 'view':
                mk = View
            else:
                mk = Binding
            bs = [call(it, mk, 'a', action(log, 0), content_type='text/html',
                       language='en', charset='utf-8'),
                  call(it, mk, 'a', action(log, 1),
                       content_type='application/json', language='en',
                       charset='utf-8'),
                  call(it, mk, 'a', action(log, 2), content_type='text/html',
                       language='fr', charset='utf-8'),
                  call(it, mk, 'a', action(log, 3), content_type='text/html',
                       language='en', charset='latin-1'),
                  call(it, mk, 'a', action(log, 4), content_type='text/html',
                       language='en', charset='utf-8', qs=0.5)]
            d = call(it, Disp, it.mk_list(bs))
            for acc, want in (
                    (('text/html', 'en', 'utf-8'), 0),
                    (('application/json', 'en', 'utf-8'), 1),
                    (('text/html', 'fr', 'utf-8'), 2),
                    (('text/html', 'en', 'latin-1'), 3),
                    (('application/json', None, None), 1),
                    (('application/json', 'fr', None), None),
                    ((None, 'fr', None), 2), ((None, None, 'latin-1'), 3),
                    (('image/png', 'en', 'utf-8'), None)):
                r = attempt(it, meth, it, d, 'lookup', 'a', accept=acc[0],
                            accept_language=acc[1], accept_charset=acc[2])
                oblige(it)
                if want is None:
                    if r[0] == 'ok' or not is_exc(it, r[1], NA):
                        fail(it, 'headers %s: expected a 406' % (acc,))
                    continue
                if r[0] != 'ok':
                    fail(it, 'headers %s: %s' % (acc, exc_name(r[1])))
                del log[:]
                call(it, r[1], None, None)
                if log[0][0] != want:
                    fail(it, 'headers %s select binding %s instead of %s' % (
                        acc, log[0][0], want))
        return fn
    for k in ('binding', 'view'):
        out.append(Scen('negotiated ' + k, negotiated(k), Disp.qual))

    # -- applications -----------------------------------------------------------
    def response(it, tag):
        return call(it, Resp, 'body%s' % tag)

    def body_of(it, r):
        return [x for x in it.iterate(r)]

    def app(method, path, headers, want, routes=None):
        """want: tag of the action, or an exception name"""
        def fn(it):
            log = []
            b = call(it, AB)

            def act(tag):
                def f(i, a, k):
                    log.append((tag, tuple(a), dict(k)))
                    return response(i, tag)
                return HostFunc('action%s' % tag, f)
            meth(it, b, 'add_routes', call(it, Route, '/', endpoint='e'),
                 call(it, Route, '/x/<v>', endpoint='e'),
                 call(it, Route, '/nothing', endpoint='missing'))
            for tag, kw in enumerate((
                    {}, {'method': 'POST'}, {'method': 'PUT'},
                    {'content_type': 'text/html', 'language': 'fr'},
                    {'content_type': 'text/html', 'charset': 'latin-1'},
                    {'content_type': 'application/json',
                     'language': 'en'})):
                meth(it, b, 'add_bindings', call(it, Binding, 'e', act(tag),
                                                 **kw))
            a = call(it, b, 'http://localhost/')
            st = Start()
            e = env(it, method, path, **headers)
            try:
                r = call(it, a, e, st.func())
                data = body_of(it, r)
            except PyRaise as x:
                oblige(it)
                if exc_name(x.val) != want:
                    fail(it, 'the application raises %s instead of %s' % (
                        exc_name(x.val), want))
                return
            oblige(it)
            if isinstance(want, str):
                fail(it, 'the application answers instead of raising %s' %
                     want)
            if len(log) != 1 or log[0][0] != want:
                fail(it, 'action %s is called instead of %s' % (
                    [l[0] for l in log], want))
            args, kw = log[0][1:]
            if args[0] is not a or len(args) != 2:
                fail(it, 'the action is not called with the application')
            if it.getattr(args[1], 'environ') is not e:
                fail(it, 'the request is not made from the environment')
            if kw != ({'v': 'val'} if path != '/' else {}):
                fail(it, 'route variables arrive as %s' % kw)
            if method != 'HEAD' and data != [('body%d' % want).encode()]:
                fail(it, 'the body of the response is not sent')
            bd = it.getattr(args[1], 'binding')
            if it.getattr(bd, 'name') != 'e':
                fail(it, 'request.binding is not the binding')
            if it.getitem(e, 'verktyg.application') is not a:
                fail(it, 'the environment does not name the application')
        return fn
    J = 'application/json'
    for m, p, h, w in (
            ('GET', '/', {}, 5), ('HEAD', '/', {}, 5), ('POST', '/', {}, 1),
            ('PUT', '/x/val', {}, 2), ('DELETE', '/', {}, 'MethodNotAllowed'),
            ('GET', '/x/val', {'HTTP_ACCEPT': J}, 5),
            ('GET', '/x/val', {'HTTP_ACCEPT': 'image/png'}, 0),
            ('GET', '/', {'HTTP_ACCEPT_LANGUAGE': 'fr'}, 3),
            ('GET', '/', {'HTTP_ACCEPT_CHARSET': 'latin-1',
                          'HTTP_ACCEPT_LANGUAGE': 'de'}, 4),
            ('GET', '/', {'HTTP_ACCEPT': 'text/html',
                          'HTTP_ACCEPT_LANGUAGE': 'de',
                          'HTTP_ACCEPT_CHARSET': 'latin-1'}, 4),
            ('GET', '/', {'HTTP_ACCEPT': 'text/html',
                          'HTTP_ACCEPT_CHARSET': 'utf-8'}, 3),
            ('HEAD', '/', {'HTTP_ACCEPT': 'text/html',
                           'HTTP_ACCEPT_LANGUAGE': 'de'}, 4),
            ('GET', '/nothing', {}, 'NotImplemented'),
            ('POST', '/absent', {}, 'NotFound')):
        out.append(Scen('application: %s %s %s' % (m, p, ' '.join(
            h.values())), app(m, p, h, w), 'application'))

    def negotiated(hdr, vals, kws):
        def fn(it):
            log = []
            b = call(it, AB)
            meth(it, b, 'add_routes', call(it, Route, '/', endpoint='e'))

            def act(tag):
                return HostFunc('action_' + tag, lambda i, a, k: (
                    log.append(tag), response(i, tag))[1])
            for v, kw in zip(vals, kws):
                meth(it, b, 'add_bindings', call(it, Binding, 'e', act(v),
                                                 **kw))
            a = call(it, b)
            for v in vals:
                del log[:]
                r = attempt(it, lambda: body_of(it, call(
                    it, a, env(it, **{hdr: v}), Start().func())))
                require(it, r[0] == 'ok' and log == [v],
                        '%s: %s reaches the action for %s' % (
                            hdr, v, log or exc_name(r[1])))
        return fn
    for hdr, key, vals in (
            ('HTTP_ACCEPT', 'content_type', ('text/html', J)),
            ('HTTP_ACCEPT_LANGUAGE', 'language', ('de', 'fr')),
            ('HTTP_ACCEPT_CHARSET', 'charset', ('utf-8', 'iso-8859-1'))):
        for turn in (1, -1):
            out.append(Scen('application: %s %d' % (key, turn), negotiated(
                hdr, vals[::turn], [{key: v} for v in vals[::turn]]),
                'application'))

    def builder(it):
        """decorators, middleware order, several applications"""
        log = []
        b = call(it, AB)
        act = HostFunc('index', lambda i, a, k: (
            log.append('action'), response(i, 0))[1])
        act.attrs = {'__name__': 'index'}
        dec = meth(it, b, 'expose', 'index', route='/')
        require(it, call(it, dec, act) is act,
                'expose replaces the function')

        def mw(tag):
            def wrap(i, a, k):
                inner = a[0]
                if list(a[1:]) != [tag] or k != {'o': tag}:
                    fail(it, 'middleware arguments are not passed on')

                def run(i2, a2, k2):
                    log.append(tag)
                    return i2.call(inner, list(a2), {})
                return HostFunc('app' + tag, run)
            return HostFunc('mw' + tag, wrap)
        meth(it, b, 'add_middleware', mw('A'), 'A', o='A')
        meth(it, b, 'add_middleware', mw('B'), 'B', o='B')
        a = call(it, b, 'http://localhost/')
        for i in range(2):
            del log[:]
            st = Start()
            data = body_of(it, call(it, a, env(it), st.func()))
            require(it, log == ['B', 'A', 'action'],
                    'middleware and action run in the order %s' % log)
            require(it, data == [b'body0'] and len(st.calls) == 1,
                    'the response is not sent')
        require(it, it.getattr(a, 'config') is not it.getattr(b, 'config'),
                'the application shares the configuration of the builder')
        r = attempt(it, it.setitem, it.getattr(a, 'config'), 'x', 1)
        require(it, r[0] == 'raise', 'the configuration can be changed')
    out.append(Scen('builder', builder, AB.qual))

    # -- JSON views -----------------------------------------------------------
    def json(kind, debug):
        def fn(it):
            if kind == 'none':
                res = None
            elif kind == 'response':
                res = response(it, 0)
            else:
                res = it.mk_dict({'a': 1})
            v = call(it, JsonView, 'a', host('action', lambda *a: res))
            d = call(it, Disp, it.mk_list([v]))
            bnd = meth(it, d, 'lookup', 'a')
            app = stub(it, 'app') if debug is None else \
                stub(it, 'app', debug=debug)
            r = attempt(it, call, it, bnd, app, sym('req'))
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'the JSON view raises %s' % exc_name(r[1]))
            r = r[1]
            if kind == 'response':
                if r is not res:
                    fail(it, 'a response is not passed on')
                return
            if not it.isinstance_(r, BaseResp):
                fail(it, 'the JSON view does not return a response')
            code = it.getattr(r, 'status_code')
            if kind == 'none':
                if code != 204:
                    fail(it, 'no content gives status %s' % code)
                return
            if code != 200:
                fail(it, 'status %s' % code)
            if it.getattr(r, 'mimetype') != 'application/json':
                fail(it, 'the response is not declared as JSON')
        return fn
    for k in ('none', 'response', 'data'):
        for dbg in (None, False, True):
            out.append(Scen('json: %s, debug %s' % (k, dbg), json(k, dbg),
                            JsonView.qual))

    def json_accept(it):
        v = call(it, JsonView, 'a', host('action', lambda *a: None))
        d = call(it, Disp, it.mk_list([v]))
        require(it, attempt(it, meth, it, d, 'lookup', 'a',
                            accept='application/json')[0] == 'ok',
                'a JSON view refuses a client that accepts JSON')
        r = attempt(it, meth, it, d, 'lookup', 'a', accept='text/html')
        require(it, r[0] == 'raise' and is_exc(it, r[1], NA),
                'a JSON view serves a client that does not accept JSON')
    out.append(Scen('json: accept', json_accept, JsonView.qual))
    return out
