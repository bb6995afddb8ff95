"""C30: what is set on a response is what is sent."""
from .lib import *
from .c17 import want, check_same
from .resplib import Start, headers_of

RULE = ('For arbitrary status codes, reason texts, header values and bodies '
        'set on a response through every public way, the status line, the '
        'header list and the body handed to the server are exactly these; '
        'sending changes nothing on the response; header attributes return '
        'what was set and delete what was deleted.')
MIN_SCENARIOS = 70
R = 'verktyg.responses.'
TXT = r'[A-Za-z0-9/:.;=_-]'


def env(it, method='GET', **kw):
    d = {'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http',
         'SERVER_NAME': 'srv.example', 'SERVER_PORT': '80',
         'HTTP_HOST': 'srv.example', 'SCRIPT_NAME': '/root',
         'PATH_INFO': '/dir/page', 'QUERY_STRING': 'q=1'}
    d.update(kw)
    return it.mk_dict(d)


def send(it, resp, environ=None):
    """(status, [(name, value)], [body pieces], iterator)"""
    st = Start()
    app = want(it, lambda: call(it, resp, environ or env(it), st.func()),
               'sending a response')
    oblige(it)
    if len(st.calls) != 1:
        fail(it, 'start_response is called %d times' % len(st.calls))
    return (it.facts.norm(st.calls[0][0]), headers_of(it, st.calls[0][1]),
            list(it.iterate(app)), app)


def one(it, hs, name):
    v = values(hs, name)
    oblige(it)
    if len(v) != 1:
        fail(it, 'the response has %d %s headers' % (len(v), name))
    return v[0]


def values(hs, name):
    return [v for k, v in hs if isinstance(k, str) and k.lower() == name]


def stored(it, resp):
    return headers_of(it, it.getattr(resp, 'headers'))


def same_headers(it, got, exp, what):
    oblige(it, len(exp) + 1)
    if len(got) != len(exp):
        fail(it, '%s: headers %r, expected %r' % (what, got, exp))
    for (a, b), (c, d) in zip(got, exp):
        if not it.eq(a, c) or not it.eq(b, d):
            fail(it, '%s: header %r: %r, expected %r: %r' % (what, a, b, c,
                                                             d))


def same_body(it, got, exp, what):
    oblige(it)
    got = [x for x in got]
    if len(got) != len(exp) or not all(it.eq(a, b)
                                       for a, b in zip(got, exp)):
        fail(it, '%s: body %r, expected %r' % (what, got, exp))


def scenarios(prog):
    out = []
    g = prog.get

    def add_(name, fn, subject='', **kw):
        out.append(Scen(name, fn, subject, **kw))

    CLASSES = ['Response', 'BaseResponse']

    # -- status -----------------------------------------------------------
    for cls in CLASSES:
        for how in ('ctor', 'status_code', 'status_int'):
            def f_int(it, cls=cls, how=how):
                n = sym('code', 'int')
                it.facts.add_lin(it.facts.lin_of(sub(it, n, 100)))
                it.facts.add_lin(it.facts.lin_of(sub(it, 999, n)))
                if how == 'status_code':
                    r = call(it, g(R + cls), status='404 Nope')
                    it.setattr(r, 'status_code', n)
                else:
                    r = call(it, g(R + cls), None, n)
                oblige(it, 2)
                c = it.getattr(r, 'status_code')
                check_same(it, c, n, 'status code')
                s = it.getattr(r, 'status')
                pre = cat(it, it.call(it.prog.builtins['str'], [n]), ' ')
                if not it.truth(meth(it, s, 'startswith', pre)):
                    fail(it, 'status %r for the code %r' % (s, n))
                status, _, _, _ = send(it, r)
                check_same(it, status, s, 'status line sent')
            add_('status.%s.%s' % (cls, how), f_int, 'BaseResponse.status')

        for code in (100, 200, 201, 204, 301, 302, 304, 307, 400, 404, 405,
                     418, 429, 500, 503, 599):
            def f_code(it, cls=cls, code=code):
                table = g('verktyg.http.HTTP_STATUS_CODES')
                r = call(it, g(R + cls), '', code)
                s = send(it, r)[0]
                k = it.find_key(table, code)
                exp = '%d UNKNOWN' % code if k is None else cat(
                    it, '%d ' % code, meth(it, it.getitem(table, code),
                                           'upper'))
                check_same(it, s, exp, 'status line of %d' % code)
                # whatever the status was before
                for old in ('404 Nope', '%d Something' % code, 'odd'):
                    it.setattr(r, 'status', old)
                    it.setattr(r, 'status_code', code)
                    check_same(it, send(it, r)[0], exp, 'status line of %d '
                               'after %r' % (code, old))
                if code != 599 and k is None:
                    fail(it, 'the status code %d is not known' % code)
            add_('status.%s.%d' % (cls, code), f_code, 'status_code')

        def f_text(it, cls=cls):
            n = sym('code', 'int')
            it.facts.add_lin(it.facts.lin_of(sub(it, n, 100)))
            it.facts.add_lin(it.facts.lin_of(sub(it, 999, n)))
            reason = word(it, 'reason', r"[A-Za-z0-9']")
            text = cat(it, it.call(it.prog.builtins['str'], [n]), ' ',
                       reason)
            for how in (0, 1):
                if how:
                    r = call(it, g(R + cls))
                    it.setattr(r, 'status', text)
                else:
                    r = call(it, g(R + cls), status=text)
                check_same(it, it.getattr(r, 'status'), text, 'status')
                check_same(it, it.getattr(r, 'status_code'), n,
                           'status code')
                check_same(it, send(it, r)[0], text, 'status line sent')
        add_('status.%s.text' % cls, f_text, 'BaseResponse.status')

        for t in ('Nope', 'x 200', '', ' ', 'OK fine'):
            def f_odd(it, cls=cls, t=t):
                r = want(it, lambda: call(it, g(R + cls), status=t),
                         'a status without a number')
                oblige(it)
                if it.getattr(r, 'status_code') != 0:
                    fail(it, 'status code of %r' % t)
                s = it.getattr(r, 'status')
                if s != '0 ' + t:
                    fail(it, 'status of %r is %r' % (t, s))
            add_('status.%s.odd.%s' % (cls, t.strip() or len(t)), f_odd,
                 'BaseResponse.status')

    def f_default(it):
        c = ClassV('Mine', [g(R + 'Response')], {
            'default_status': 404, 'default_mimetype': 'application/x'},
            kind='repo')
        r = call(it, c)
        s, hs, _, _ = send(it, r)
        oblige(it, 2)
        if s != '404 NOT FOUND' or values(hs, 'content-type') != [
                'application/x']:
            fail(it, 'defaults of a subclass are ignored: %r %r' % (s, hs))
    add_('defaults', f_default, 'BaseResponse.__init__')

    # -- content type -----------------------------------------------------
    CT = [({}, 'text/plain; charset=utf-8'),
          ({'mimetype': 'text/html'}, 'text/html; charset=utf-8'),
          ({'mimetype': 'application/json'}, 'application/json'),
          ({'mimetype': 'application/xml'},
           'application/xml; charset=utf-8'),
          ({'mimetype': 'application/atom+xml'},
           'application/atom+xml; charset=utf-8'),
          ({'mimetype': 'image/svg+xml'}, 'image/svg+xml'),
          ({'mimetype': 'image/png'}, 'image/png'),
          ({'content_type': 'x/y'}, 'x/y'),
          ({'content_type': 'text/html'}, 'text/html'),
          ({'content_type': 'x/y', 'mimetype': 'text/css'}, 'x/y'),
          ({'headers': [('Content-Type', 'a/b')]}, 'a/b'),
          ({'headers': [('content-type', 'a/b')]}, 'a/b'),
          ({'headers': [('Content-Type', 'a/b')],
            'mimetype': 'text/html'}, 'text/html; charset=utf-8'),
          ({'headers': [('Content-Type', 'a/b')],
            'content_type': 'c/d'}, 'c/d')]
    for i, (kw, exp) in enumerate(CT):
        def f_ct(it, kw=kw, exp=exp):
            kw = dict(kw)
            if 'headers' in kw:
                kw['headers'] = it.mk_list([Tup(x) for x in kw['headers']])
            r = call(it, g(R + 'Response'), **kw)
            oblige(it)
            got = values(send(it, r)[1], 'content-type')
            if got != [exp]:
                fail(it, 'Content-Type %r, expected %r' % (got, exp))
            if it.getattr(r, 'mimetype') != exp.split(';')[0]:
                fail(it, 'mimetype %r of %r' % (it.getattr(r, 'mimetype'),
                                                exp))
        add_('type.%d' % i, f_ct, 'get_content_type')

    def f_charset(it):
        for m in ('text/html', 'application/foo+xml'):
            c = ClassV('Mine', [g(R + 'Response')], {'charset': 'latin-1'},
                       kind='repo')
            r = call(it, c, '\xe9', mimetype=m)
            _, hs, body, _ = send(it, r)
            oblige(it, 2)
            if values(hs, 'content-type') != [m + '; charset=latin-1'] or \
                    values(hs, 'content-length') != ['1']:
                fail(it, 'charset of a subclass is ignored: %r' % (hs,))
            same_body(it, body, [b'\xe9'], 'latin-1')
            it.setattr(r, 'mimetype', 'text/css')
            check_same(it, it.getattr(r, 'content_type'),
                       'text/css; charset=latin-1', 'mimetype')
            check_same(it, meth(it, r, 'get_data', True), '\xe9',
                       'get_data as text')
    add_('charset', f_charset, 'BaseResponse.charset')

    def f_params(it):
        r = call(it, g(R + 'Response'), mimetype='text/html')
        d = it.getattr(r, 'mimetype_params')
        oblige(it, 3)
        check_same(it, it.getitem(d, 'charset'), 'utf-8', 'charset')
        it.setitem(d, 'x', 'y z')
        ct = it.getattr(r, 'content_type')
        if ct not in ('text/html; charset=utf-8; x="y z"',):
            fail(it, 'mimetype_params are written as %r' % (ct,))
        check_same(it, it.getattr(r, 'mimetype'), 'text/html', 'mimetype')
    add_('mimetype_params', f_params, 'mimetype_params')

    # -- headers ----------------------------------------------------------
    def f_hd(it):
        a, b, c = (word(it, n, TXT) for n in 'abc')
        lst = it.mk_list([Tup(('X-A', a)), Tup(('X-B', b)), Tup(('X-A', c))])
        r = call(it, g(R + 'Response'), 'data', headers=lst)
        _, hs, _, _ = send(it, r)
        same_headers(it, [h for h in hs if h[0][:2] == 'X-'],
                     [('X-A', a), ('X-B', b), ('X-A', c)], 'headers')
        if len(list(it.iterate(lst))) != 3:
            fail(it, 'the list given as headers is changed')
    add_('headers.list', f_hd, 'BaseResponse.__init__')

    def f_share(it):
        h = call(it, g('verktyg.http.Headers'))
        r = call(it, g(R + 'Response'), headers=h)
        it.setitem(h, 'X-A', 'late')
        oblige(it)
        if values(send(it, r)[1], 'x-a') != ['late']:
            fail(it, 'a Headers object given is not used')
    add_('headers.object', f_share, 'BaseResponse.__init__')

    for loc in (None, 'rel', 'http://other.example/x', '/abs'):
        for body in ('list', 'gen'):
            for status in (200, 204, 304, 302, 101):
                def f_pure(it, loc=loc, body=body, status=status):
                    a = sym('body', 'bytes')
                    it.facts.truth[a] = True
                    src = it.mk_list([a, b'x']) if body == 'list' else \
                        call(it, it.prog.builtins['iter'], it.mk_list(
                            [a, b'x'])) if 'iter' in it.prog.builtins else \
                        it.mk_list([a])
                    r = call(it, g(R + 'Response'), src, status,
                             headers=it.mk_list([Tup(('X-A', 'v'))]))
                    if loc is not None:
                        it.setitem(it.getattr(r, 'headers'), 'Location', loc)
                    before = stored(it, r)
                    h1 = headers_of(it, meth(
                        it, r, 'get_wsgi_headers', env(it)))
                    h2 = headers_of(it, meth(
                        it, r, 'get_wsgi_headers', env(it)))
                    same_headers(it, h2, h1, 'sent a second time')
                    same_headers(it, stored(it, r), before,
                                 'the response after sending')
                    oblige(it)
                    if loc is not None:
                        exp = {'rel': 'http://srv.example/root/rel',
                               '/abs': 'http://srv.example/abs'}.get(loc,
                                                                     loc)
                        if values(h1, 'location') != [exp]:
                            fail(it, 'Location %r for %r' % (
                                values(h1, 'location'), loc))
                    if values(h1, 'x-a') != ['v']:
                        fail(it, 'a header is not sent: %r' % (h1,))
                    cl = values(h1, 'content-length')
                    if body == 'gen' and status in (200, 302) and cl:
                        fail(it, 'a length is sent for a stream')
                add_('send.%s.%s.%d' % ((loc or 'none').replace('/', '_'),
                                        body, status), f_pure,
                     'BaseResponse.get_wsgi_headers')

    def f_noauto(it):
        c = ClassV('Mine', [g(R + 'Response')], {
            'autocorrect_location_header': False,
            'automatically_set_content_length': False}, kind='repo')
        r = call(it, c, 'data')
        it.setattr(r, 'location', '/x y\xe9')
        _, hs, _, _ = send(it, r)
        oblige(it, 2)
        if values(hs, 'location') != ['/x%20y%C3%A9']:
            fail(it, 'Location %r' % (values(hs, 'location'),))
        if values(hs, 'content-length'):
            fail(it, 'a length is sent although switched off')
    add_('noauto', f_noauto, 'BaseResponse.get_wsgi_headers')

    def f_iri(it):
        r = call(it, g(R + 'Response'), 'data')
        it.setattr(r, 'content_location', 'http://x.example/\xe9 a')
        it.setattr(r, 'location', 'http://x.example/\xe9?a=\xe9')
        _, hs, _, _ = send(it, r)
        oblige(it, 2)
        if values(hs, 'content-location') != ['http://x.example/%C3%A9%20a']:
            fail(it, 'Content-Location %r' % (values(
                hs, 'content-location'),))
        if values(hs, 'location') != ['http://x.example/%C3%A9?a=%C3%A9']:
            fail(it, 'Location %r' % (values(hs, 'location'),))
    add_('iri', f_iri, 'BaseResponse.get_wsgi_headers')

    # -- body -------------------------------------------------------------
    def pieces(it):
        a, b = sym('a', 'bytes'), sym('b', 'str')
        it.facts.truth[a] = it.facts.truth[b] = True
        return [a, b], [a, meth(it, b, 'encode', 'utf-8')]

    for kind in ('list', 'tuple', 'iter'):
        for then in ('send', 'get_data', 'make_sequence', 'freeze',
                     'calculate'):
            def f_body(it, kind=kind, then=then):
                src, exp = pieces(it)
                closed = []
                if kind == 'iter':
                    st = stub(it, 'Source')
                    st.attrs['close'] = host('close',
                                             lambda: closed.append(1))
                    left = list(src)
                    ns = {'__iter__': HostFunc('__iter__', lambda i, a, k:
                                               a[0], binds=True),
                          '__next__': HostFunc(
                              '__next__', lambda i, a, k: left.pop(0)
                              if left else i.raise_('StopIteration', ''),
                              binds=True)}
                    v = Obj(ClassV('Source', [it.prog.builtins['object']],
                                   ns, kind='repo'), dict(st.attrs))
                elif kind == 'tuple':
                    v = Tup(src)
                else:
                    v = it.mk_list(src)
                r = call(it, g(R + 'Response'), v)
                if then == 'get_data':
                    check_same(it, meth(it, r, 'get_data'), cat(it, *exp),
                               'get_data')
                elif then == 'calculate':
                    n = meth(it, r, 'calculate_content_length')
                    ln = it.prog.builtins['len']
                    oblige(it)
                    if not it.eq(n, addv(it, call(it, ln, exp[0]),
                                         call(it, ln, exp[1]))):
                        fail(it, 'calculated length %r' % (n,))
                elif then != 'send':
                    meth(it, r, then)
                if then == 'freeze':
                    cl = meth(it, it.getattr(r, 'headers'), 'get',
                              'Content-Length')
                    ln = it.prog.builtins['len']
                    n = addv(it, call(it, ln, exp[0]), call(it, ln, exp[1]))
                    check_same(it, cl, it.call(it.prog.builtins['str'],
                                               [n]), 'frozen length')
                _, _, body, app = send(it, r)
                same_body(it, body, exp, kind + ' body')
                meth(it, app, 'close')
                oblige(it)
                # freezing keeps the data only, see C12
                if kind == 'iter' and then != 'freeze' and closed != [1]:
                    fail(it, 'the source is closed %d times' % len(closed))
            add_('body.%s.%s' % (kind, then), f_body, 'BaseResponse')

    def f_set(it):
        s = sym('s', 'str')
        for v in (s, sym('b', 'bytes')):
            r = call(it, g(R + 'Response'), 'old')
            meth(it, r, 'set_data', v)
            e = meth(it, s, 'encode', 'utf-8') if v is s else v
            check_same(it, meth(it, r, 'get_data'), e, 'get_data')
            _, hs, body, _ = send(it, r)
            same_body(it, body, [e], 'set_data')
            check_same(it, values(hs, 'content-length')[0], it.call(
                it.prog.builtins['str'], [call(
                    it, it.prog.builtins['len'], e)]), 'length')
    add_('body.set_data', f_set, 'BaseResponse.set_data')

    def f_data(it):
        r = call(it, g(R + 'Response'), bytearray_of(it, b'ab'))
        same_body(it, send(it, r)[2], [b'ab'], 'bytearray')
        r = call(it, g(R + 'Response'))
        same_body(it, send(it, r)[2], [], 'no body')
    add_('body.misc', f_data, 'BaseResponse.__init__')

    def f_stream(it):
        for start in ('list', 'tuple', 'str', 'none'):
            x, y = sym('x', 'bytes'), sym('y', 'bytes')
            it.facts.truth[x] = it.facts.truth[y] = True
            init = {'list': it.mk_list([b'a']), 'tuple': Tup((b'a',)),
                    'str': 'a', 'none': None}[start]
            r = call(it, g(R + 'Response'), init)
            st = it.getattr(r, 'stream')
            meth(it, st, 'write', x)
            meth(it, st, 'writelines', it.mk_list([y, b'z']))
            oblige(it, 4)
            if it.contains(it.getattr(r, 'headers'), 'Content-Length'):
                fail(it, 'a stale length after writing to the stream')
            if it.truth(meth(it, st, 'isatty')):
                fail(it, 'the stream is a terminal')
            meth(it, st, 'flush')
            check_same(it, it.getattr(st, 'encoding'), 'utf-8', 'encoding')
            if it.getattr(r, 'stream') is not st:
                fail(it, 'the stream is not the same object')
            meth(it, st, 'close')
            for m, a in (('write', (x,)), ('flush', ()), ('isatty', ())):
                k, v, _ = attempt(it, meth, it, st, m, *a)
                if k != 'raise' or not is_exc(it, v, 'ValueError'):
                    fail(it, '%s on a closed stream' % m)
            exp = ([] if start == 'none' else [b'a']) + [x, y, b'z']
            same_body(it, send(it, r)[2], exp, 'stream')
    add_('body.stream', f_stream, 'ResponseStream')

    def f_pass(it):
        marker = it.mk_list([b'a'])
        r = call(it, g(R + 'Response'), marker, direct_passthrough=True)
        _, _, _, app = send(it, r)
        oblige(it, 2)
        if app is not marker:
            fail(it, 'the body is not passed through')
        src = call(it, g('verktyg.wsgi.FileWrapper'), stub(it, 'F'))
        r = call(it, g(R + 'Response'), src, direct_passthrough=True)
        k, v, _ = attempt(it, meth, it, r, 'get_data')
        if k != 'raise' or not is_exc(it, v, 'RuntimeError'):
            fail(it, 'a passed through body is consumed')
        if meth(it, r, 'calculate_content_length') is not None:
            fail(it, 'a length of a passed through body')
    add_('body.passthrough', f_pass, 'BaseResponse.get_app_iter')

    def f_noconv(it):
        c = ClassV('Mine', [g(R + 'Response')], {
            'implicit_sequence_conversion': False}, kind='repo')
        src = call(it, g('verktyg.wsgi.FileWrapper'), stub(it, 'F'))
        r = call(it, c, src)
        k, v, _ = attempt(it, meth, it, r, 'get_data')
        oblige(it)
        if k != 'raise' or not is_exc(it, v, 'RuntimeError'):
            fail(it, 'a body is consumed although this is switched off')
    add_('body.noconv', f_noconv, 'BaseResponse._ensure_sequence')

    for kind, exp in (('list', (True, False)), ('iter', (False, True)),
                      ('tuple', (True, False))):
        def f_is(it, kind=kind, exp=exp):
            v = {'list': it.mk_list([b'a']), 'tuple': Tup((b'a',))}.get(
                kind) or call(it, g('verktyg.wsgi.FileWrapper'),
                              stub(it, 'F'))
            r = call(it, g(R + 'Response'), v)
            oblige(it, 2)
            got = (it.getattr(r, 'is_sequence'), it.getattr(r,
                                                            'is_streamed'))
            if got != exp:
                fail(it, 'is_sequence, is_streamed of a %s: %r' % (kind,
                                                                   got))
        add_('is.%s' % kind, f_is, 'BaseResponse.is_streamed')

    # -- other applications -------------------------------------------------
    for how in ('from_app', 'buffered', 'force_type', 'write'):
        def f_app(it, how=how):
            x = sym('x', 'bytes')
            it.facts.truth[x] = True
            v = word(it, 'v', TXT)
            e = env(it)
            seen = []

            def app(i, a, k):
                seen.append(a[0])
                w = i.call(a[1], ['201 MADE', i.mk_list(
                    [Tup(('X-A', v)), Tup(('Content-Type', 'x/y'))])])
                if how == 'write':
                    i.call(w, [b'first'])
                return i.mk_list([x, b'end'])
            app = HostFunc('app', app)
            c = g(R + 'Response')
            if how == 'force_type':
                r = meth(it, c, 'force_type', app, e)
            else:
                r = meth(it, c, 'from_app', app, e, how != 'from_app')
            oblige(it, 4)
            if seen != [e]:
                fail(it, 'the application is called %d times' % len(seen))
            if not r.cls is c:
                fail(it, 'the response has another type')
            s, hs, body, _ = send(it, r)
            if s != '201 MADE':
                fail(it, 'status %r' % (s,))
            same_headers(it, [h for h in hs if h[0] != 'Content-Length'],
                         [('X-A', v), ('Content-Type', 'x/y')], how)
            same_body(it, [cat(it, b'', *body)], [cat(
                it, b'first' if how == 'write' else b'', x, b'end')], how)
        add_('app.%s' % how, f_app, 'BaseResponse.%s' % (
            how if how == 'force_type' else 'from_app'))

    def f_force(it):
        c = ClassV('Mine', [g(R + 'Response')], {'extra': 1}, kind='repo')
        r = call(it, g(R + 'BaseResponse'), 'x', 404)
        r2 = meth(it, c, 'force_type', r)
        oblige(it, 3)
        if r2 is not r or it.getattr(r2, 'extra') != 1 or \
                it.getattr(r2, 'status_code') != 404:
            fail(it, 'force_type on a response')
        k, v, _ = attempt(it, meth, it, c, 'force_type', HostFunc(
            'app', lambda i, a, k: None))
        if k != 'raise' or not is_exc(it, v, 'TypeError'):
            fail(it, 'an application is accepted without an environ')
    add_('force_type', f_force, 'BaseResponse.force_type')

    # -- descriptors ----------------------------------------------------------
    TEXT = [('location', 'Location'), ('content_type', 'Content-Type'),
            ('content_location', 'Content-Location'),
            ('content_encoding', 'Content-Encoding'),
            ('content_md5', 'Content-MD5')]
    for attr, name in TEXT:
        def f_desc(it, attr=attr, name=name):
            r = call(it, g(R + 'Response'), content_type='a/b')
            v = word(it, 'v', TXT)
            oblige(it, 3)
            if attr != 'content_type' and it.getattr(r, attr) is not None:
                fail(it, '%s of a new response' % attr)
            it.setattr(r, attr, v)
            check_same(it, it.getattr(r, attr), v, attr)
            hs = stored(it, r)
            if len(values(hs, name.lower())) != 1:
                fail(it, '%s is stored as %r' % (attr, hs))
            check_same(it, values(hs, name.lower())[0], v, name)
            it.setattr(r, attr, 'other')
            if values(stored(it, r), name.lower()) != ['other']:
                fail(it, '%s cannot be replaced' % attr)
            it.delattr(r, attr)
            if it.getattr(r, attr) is not None or values(
                    stored(it, r), name.lower()):
                fail(it, '%s cannot be deleted' % attr)
            want(it, lambda: it.delattr(r, attr), 'deleting twice')
        add_('desc.%s' % attr, f_desc, attr)

    def f_cl(it):
        r = call(it, g(R + 'Response'))
        n = sym('n', 'int')
        it.facts.add_lin(it.facts.lin_of(n))
        it.setattr(r, 'content_length', n)
        check_same(it, it.getattr(r, 'content_length'), n, 'content_length')
        check_same(it, one(it, stored(it, r), 'content-length'), it.call(
            it.prog.builtins['str'], [n]), 'Content-Length')
        it.setitem(it.getattr(r, 'headers'), 'Content-Length', 'x')
        oblige(it)
        if it.getattr(r, 'content_length') is not None:
            fail(it, 'a malformed length')
    add_('desc.content_length', f_cl, 'content_length')

    for attr, name in (('date', 'Date'), ('expires', 'Expires'),
                       ('last_modified', 'Last-Modified')):
        def f_date(it, attr=attr, name=name):
            from .c13 import Fs, moment
            it.hooks['ext'] = Fs(it).hook
            r = call(it, g(R + 'Response'))
            d = moment(it, sym('t', 'float'))
            it.setattr(r, attr, d)
            check_same(it, one(it, stored(it, r), name.lower()), call(
                it, g('verktyg.http.http_date'), d), name)
            oblige(it)
            it.setitem(it.getattr(r, 'headers'), name, 'nonsense')
            if it.getattr(r, attr) is not None:
                fail(it, 'a malformed %s' % name)
        add_('desc.%s' % attr, f_date, attr)

    def f_retry(it):
        r = call(it, g(R + 'Response'))
        n = sym('n', 'int')
        oblige(it, 3)
        if it.getattr(r, 'retry_after') is not None:
            fail(it, 'retry_after of a new response')
        it.setattr(r, 'retry_after', n)
        check_same(it, one(it, stored(it, r), 'retry-after'), it.call(
            it.prog.builtins['str'], [n]), 'Retry-After')
        it.setattr(r, 'retry_after', None)
        if values(stored(it, r), 'retry-after'):
            fail(it, 'retry_after cannot be removed')
        want(it, lambda: it.setattr(r, 'retry_after', None), 'twice')
        from .c13 import Fs, moment
        it.hooks['ext'] = Fs(it).hook
        d = moment(it, sym('t', 'float'))
        it.setattr(r, 'retry_after', d)
        check_same(it, one(it, stored(it, r), 'retry-after'), call(
            it, g('verktyg.http.http_date'), d), 'Retry-After')
    add_('desc.retry_after', f_retry, 'retry_after')

    for attr, name in (('vary', 'Vary'), ('allow', 'Allow'),
                       ('content_language', 'Content-Language')):
        def f_set_(it, attr=attr, name=name):
            low = name.lower()
            r = call(it, g(R + 'Response'))
            a = word(it, 'a', r'[A-Za-z0-9]')
            b = word(it, 'b', r'[A-Za-z0-9]')
            oblige(it, 5)
            it.setattr(r, attr, it.mk_list([a, b]))
            check_same(it, one(it, stored(it, r), low), cat(
                it, a, ', ', b), name)
            it.setattr(r, attr, a)
            check_same(it, one(it, stored(it, r), low), a, name)
            s = it.getattr(r, attr)
            if not it.contains(s, a):
                fail(it, '%s does not contain what was set' % attr)
            meth(it, s, 'add', 'new1')
            v = values(stored(it, r), low)
            if len(v) != 1 or not it.eq(v[0], cat(it, a, ', new1')) and \
                    not it.eq(meth(it, a, 'lower'), 'new1'):
                fail(it, 'adding to %s: %r' % (attr, v))
            meth(it, s, 'clear')
            if values(stored(it, r), low):
                fail(it, 'an empty %s is kept' % attr)
            it.setattr(r, attr, 'x')
            it.setattr(r, attr, None)
            if values(stored(it, r), low):
                fail(it, '%s cannot be removed' % attr)
        add_('desc.%s' % attr, f_set_, attr)
    return out


def bytearray_of(it, b):
    return Obj(it.prog.builtins['bytearray'], {'val': b})


def addv(it, a, b):
    import ast
    return it.binop(ast.Add(), a, b)
