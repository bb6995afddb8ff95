"""C34: the test client sends what it is given."""
from .lib import *
from .c17 import want
from .resplib import headers_of

RULE = ('EnvironBuilder, create_environ, run_wsgi_app and Client are followed '
        'with unknown paths, query strings, headers, form values, files and '
        'applications; the environment the application is called with, the '
        'encoded body and the result given back are compared with the '
        'arguments, redirects and cookies with the protocol.')
MIN_SCENARIOS = 85
T = 'verktyg.test.'
W = '[A-Za-z0-9]'
TYPES = {'.txt': 'text/plain', '.png': 'image/png'}
BOUND = 'BoUnDaRy'


def scenarios(prog):
    out = []

    def add_(name, fn, subject):
        out.append(Scen(name, fn, subject))

    def g(n):
        return prog.get(n if '.' in n else T + n)

    def fixed(it):
        """what does not matter here is made constant"""
        def ext(i, name, a, k):
            if name in ('time.time', 'random.random'):
                return (7,)
            if name == 'mimetypes.guess_type' and a and isinstance(
                    a[0], str):
                return (Tup((TYPES.get(a[0][-4:]), None)),)
            if name == 'tempfile.TemporaryFile':
                return (file_of(i, b''),)
            return None
        it.hooks['ext'] = ext

    def builder(it, *a, **k):
        fixed(it)
        return want(it, lambda: it.call(g('EnvironBuilder'), list(a), k),
                    'EnvironBuilder')

    def environ(it, b):
        e = want(it, lambda: meth(it, b, 'get_environ'), 'get_environ')
        return {it.getitem(x, 0): it.facts.norm(it.getitem(x, 1))
                for x in it.iterate(meth(it, e, 'items'))}

    def check(it, e, **exp):
        for k, v in exp.items():
            k = k.replace('wsgi_', 'wsgi.') if k.startswith('wsgi_') else k
            oblige(it)
            if k not in e:
                fail(it, '%s is missing' % k)
            if not it.is_(e[k], v) and not it.eq(e[k], v):
                fail(it, '%s is %r, expected %r' % (k, e[k], v))

    def body(it, e):
        return it.facts.norm_deep(meth(it, e['wsgi.input'], 'read'))

    def same_body(it, e, exp):
        oblige(it, 2)
        b = body(it, e)
        if not it.eq(b, exp):
            fail(it, 'the body is %r, expected %r' % (b, exp))
        n = it.call(prog.builtins['str'], [it.call(
            prog.builtins['len'], [exp], {})], {})
        if not it.eq(e['CONTENT_LENGTH'], n):
            fail(it, 'CONTENT_LENGTH is %r, expected %r' % (
                e['CONTENT_LENGTH'], n))

    # -- the environment ----------------------------------------------------
    def f_defaults(it):
        e = environ(it, builder(it))
        check(it, e, REQUEST_METHOD='GET', SCRIPT_NAME='', PATH_INFO='/',
              QUERY_STRING='', SERVER_NAME='localhost', SERVER_PORT='80',
              HTTP_HOST='localhost', SERVER_PROTOCOL='HTTP/1.1',
              CONTENT_TYPE='', CONTENT_LENGTH='0', wsgi_url_scheme='http',
              wsgi_multithread=False, wsgi_multiprocess=False,
              wsgi_run_once=False)
        v = e['wsgi.version']
        if not isinstance(v, Tup) or tuple(v.items) != (1, 0):
            fail(it, 'wsgi.version is %r' % (v,))
        same_body(it, e, b'')
        if 'wsgi.errors' not in e:
            fail(it, 'wsgi.errors is missing')
    add_('env.defaults', f_defaults, 'EnvironBuilder.get_environ')

    BASES = {
        None: ('http', 'localhost', '', 'localhost', '80'),
        'http://h.example/': ('http', 'h.example', '', 'h.example', '80'),
        'https://h.example/root/': ('https', 'h.example', '/root',
                                    'h.example', '443'),
        'http://h.example:8080/a/b': ('http', 'h.example:8080', '/a/b',
                                      'h.example', '8080'),
        'https://h.example:8443/\xe9/': ('https', 'h.example:8443',
                                         '/\xc3\xa9', 'h.example', '8443'),
    }
    for i, (base, exp) in enumerate(BASES.items()):
        def f_base(it, base=base, exp=exp):
            w, x = word(it, 'w', W), word(it, 'x', W)
            m = word(it, 'm', '[A-Z]')
            k, v = word(it, 'k', W), word(it, 'v', W)
            path = cat(it, '/', w, '/', x)
            err = stub(it, 'Errors')
            b = builder(it, cat(it, path, '?', k, '=', v), base, method=m,
                        errors_stream=err, multithread=True, run_once=True,
                        multiprocess=True)
            for n in range(2):
                e = environ(it, b)
                check(it, e, REQUEST_METHOD=m, PATH_INFO=path,
                      QUERY_STRING=cat(it, k, '=', v), SCRIPT_NAME=exp[2],
                      wsgi_url_scheme=exp[0], HTTP_HOST=exp[1],
                      SERVER_NAME=exp[3], SERVER_PORT=exp[4],
                      wsgi_errors=err, wsgi_multithread=True,
                      wsgi_run_once=True, wsgi_multiprocess=True)
            oblige(it, 2)
            if base and it.getattr(b, 'base_url') not in (
                    base.rstrip('/') + '/',
                    base.replace('\xe9', '%C3%A9').rstrip('/') + '/'):
                fail(it, 'base_url is %r' % (it.getattr(b, 'base_url'),))
            if it.getattr(b, 'server_port') != int(exp[4]):
                fail(it, 'server_port')
        add_('env.base.%d' % i, f_base, 'EnvironBuilder.get_environ')

    def f_baseerr(it):
        for u in ('http://h.example/?x=1', 'http://h.example/#f'):
            k, v, _ = attempt(it, lambda: it.call(g('EnvironBuilder'),
                                                  ['/', u], {}))
            oblige(it)
            if k != 'raise' or not is_exc(it, v, 'ValueError'):
                fail(it, 'base url %r is accepted' % u)
        b = builder(it, '/')
        it.setattr(b, 'base_url', 'https://x.example:1/y/')
        check(it, environ(it, b), SCRIPT_NAME='/y', SERVER_PORT='1',
              HTTP_HOST='x.example:1', wsgi_url_scheme='https')
        it.setattr(b, 'host', 'z.example')
        check(it, environ(it, b), HTTP_HOST='z.example',
              SERVER_NAME='z.example', SERVER_PORT='443')
    add_('env.base.invalid', f_baseerr, 'EnvironBuilder.base_url')

    PATHS = {'/\xe9': '/\xc3\xa9', '/%C3%A9': '/\xc3\xa9', '/a%20b': '/a b',
             '/a b': '/a b', '/a%2Fb': '/a/b', '/a+b': '/a+b',
             '/\u2603': '/\xe2\x98\x83', '/a%3Fb': '/a?b', '/a%25b': '/a%b',
             '/~x': '/~x', '/': '/', '/a;b': '/a;b'}

    def f_paths(it):
        for p, e in PATHS.items():
            check(it, environ(it, builder(it, p)), PATH_INFO=e,
                  QUERY_STRING='')
    add_('env.paths', f_paths, 'EnvironBuilder.get_environ')

    for how in ('text', 'bytes', 'path', 'both', 'none'):
        def f_qs(it, how=how):
            q = cat(it, word(it, 'k', W), '=', word(it, 'v', '[a-z0-9%&=+]'))
            if how == 'path':
                b = builder(it, cat(it, '/p?', q))
            elif how == 'none':
                q = ''
                b = builder(it, '/p')
            elif how == 'both':
                b = builder(it, '/p', None, q)
            else:
                b = builder(it, '/p', query_string=q)
            check(it, environ(it, b), QUERY_STRING=q, PATH_INFO='/p')
            if how != 'none':
                oblige(it, 2)
                k, v, _ = attempt(it, lambda: it.getattr(b, 'args'))
                if k != 'raise' or not is_exc(it, v, 'AttributeError'):
                    fail(it, 'args beside a query string: %r' % (v,))
                it.setattr(b, 'query_string', 'new=1')
                check(it, environ(it, b), QUERY_STRING='new=1')
            else:
                it.setitem(it.getattr(b, 'args'), 'x', 'y')
                check(it, environ(it, b), QUERY_STRING='x=y')
        add_('env.query.%s' % how, f_qs, 'EnvironBuilder.query_string')

    def pairs(it, kind, k, v, v2, k2, v3):
        if kind == 'dict':
            return it.mk_dict({'a': v, 'b': it.mk_list([v2, v3])})
        if kind == 'multi':
            return it.call(prog.get('verktyg.datastructures.MultiDict'), [
                it.mk_list([Tup(('a', v)), Tup(('b', v2)),
                            Tup(('b', v3))])], {})
        return it.mk_list([Tup(('a', v)), Tup(('b', v2)), Tup(('b', v3))])

    for kind in ('dict', 'multi', 'list'):
        for loc in ('args', 'form'):
            if kind == 'list' and loc == 'form':
                continue

            def f_multi(it, kind=kind, loc=loc):
                v, v2, v3 = (word(it, n, W) for n in ('v', 'v2', 'v3'))
                d = pairs(it, kind, 'a', v, v2, 'b', v3)
                exp = cat(it, 'a=', v, '&b=', v2, '&b=', v3)
                if loc == 'args':
                    e = environ(it, builder(it, '/', query_string=d))
                    check(it, e, QUERY_STRING=exp)
                    return
                e = environ(it, builder(it, '/', method='POST', data=d))
                check(it, e, CONTENT_TYPE='application/x-www-form-'
                      'urlencoded', QUERY_STRING='')
                same_body(it, e, meth(it, exp, 'encode', 'ascii'))
            add_('values.%s.%s' % (loc, kind), f_multi,
                 'EnvironBuilder.get_environ')

    def f_chars(it):
        b = builder(it, '/', query_string=it.mk_dict(
            {'\xe9 &': 'a=b&c+d %\u2603', 'e': ''}))
        check(it, environ(it, b), QUERY_STRING='%C3%A9+%26=a%3Db%26c%2Bd+%25'
              '%E2%98%83&e=')
        b = builder(it, '/', data=it.mk_dict(
            {'\xe9 &': 'a=b&c+d %\u2603', 'e': ''}))
        e = environ(it, b)
        same_body(it, e, b'%C3%A9+%26=a%3Db%26c%2Bd+%25%E2%98%83&e=')
        b = builder(it, '/', data=it.mk_dict({'a': '\xe9'}),
                    query_string=it.mk_dict({'a': '\xe9'}),
                    charset='latin-1')
        e = environ(it, b)
        check(it, e, QUERY_STRING='a=%E9')
        same_body(it, e, b'a=%E9')
    add_('values.chars', f_chars, 'EnvironBuilder.get_environ')

    # -- headers ------------------------------------------------------------
    for kind in ('list', 'headers', 'dict'):
        def f_hd(it, kind=kind):
            v = word(it, 'v', '[ -~]')
            hs = it.mk_dict({'X-Some-Thing': v, 'Accept': 'text/html'}) \
                if kind == 'dict' else it.mk_list([
                    Tup(('X-Some-Thing', v)), Tup(('Accept', 'text/html'))])
            if kind == 'headers':
                hs = it.call(prog.get('verktyg.http.Headers'), [hs], {})
            e = environ(it, builder(it, '/', headers=hs))
            check(it, e, HTTP_X_SOME_THING=v, HTTP_ACCEPT='text/html',
                  CONTENT_TYPE='')
        add_('headers.%s' % kind, f_hd, 'EnvironBuilder.get_environ')

    def f_base_over(it):
        v, w = sym('v', 'str'), stub(it, 'Thing')
        e = environ(it, builder(it, '/p', environ_base=it.mk_dict(
            {'PATH_INFO': 'base', 'REMOTE_ADDR': v, 'k.x': w}),
            environ_overrides=it.mk_dict(
                {'SERVER_PORT': '99', 'k.y': w, 'k.x': 'o'})))
        check(it, e, PATH_INFO='/p', REMOTE_ADDR=v, SERVER_PORT='99')
        oblige(it)
        if e.get('k.y') is not w or e.get('k.x') != 'o':
            fail(it, 'environ_overrides do not win')
    add_('env.base_overrides', f_base_over, 'EnvironBuilder.get_environ')

    # -- bodies -------------------------------------------------------------
    for kind in ('bytes', 'text', 'stream', 'read stream'):
        def f_data(it, kind=kind):
            ct = word(it, 'ct', '[a-z/]')
            x = sym('x', 'bytes')
            it.facts.truth[x] = True
            exp = x
            kw = {}
            if kind == 'bytes':
                kw['data'] = x
            elif kind == 'text':
                t = word(it, 't', '[ -~]')
                kw['data'] = t
                exp = meth(it, t, 'encode', 'utf-8')
            else:
                s = file_of(it, cat(it, b'ab', x))
                exp = cat(it, b'ab', x)
                if kind == 'read stream':
                    meth(it, s, 'read', 2)
                    exp = x
                kw['input_stream'] = s
            b = builder(it, '/', content_type=ct, method='PUT', **kw)
            e = environ(it, b)
            check(it, e, CONTENT_TYPE=ct, REQUEST_METHOD='PUT')
            same_body(it, e, exp)
            oblige(it)
            k, v, _ = attempt(it, lambda: it.getattr(b, 'form'))
            if k != 'raise' or not is_exc(it, v, 'AttributeError'):
                fail(it, 'form beside an input stream: %r' % (v,))
        add_('body.%s' % kind.replace(' ', '_'), f_data,
             'EnvironBuilder.get_environ')

    def f_both(it):
        fixed(it)
        s = file_of(it, b'x')
        k, v, _ = attempt(it, lambda: it.call(g('EnvironBuilder'), [], {
            'input_stream': s, 'data': b'y'}))
        oblige(it)
        if k != 'raise' or not is_exc(it, v, 'TypeError'):
            fail(it, 'a stream and data are accepted together')
    add_('body.both', f_both, 'EnvironBuilder.__init__')

    def f_len(it):
        b = builder(it, '/', content_length=5)
        check(it, environ(it, b), CONTENT_LENGTH='5')
        if it.getattr(b, 'content_length') != 5:
            fail(it, 'content_length')
        it.setattr(b, 'content_length', None)
        check(it, environ(it, b), CONTENT_LENGTH='0')
        it.setattr(b, 'content_type', 'x/y')
        check(it, environ(it, b), CONTENT_TYPE='x/y')
        it.setattr(b, 'content_type', None)
        check(it, environ(it, b), CONTENT_TYPE='')
    add_('body.attributes', f_len, 'EnvironBuilder.content_length')

    def part(it, name, value, filename=None, ctype=None):
        head = '--%s\r\nContent-Disposition: form-data; name="%s"' % (
            BOUND, name)
        if filename is not None:
            head += '; filename="%s"' % filename
        head += '\r\n'
        if ctype:
            head += 'Content-Type: %s\r\n' % ctype
        return [(head + '\r\n').encode(), value, b'\r\n']

    END = ('--%s--\r\n' % BOUND).encode()

    def file_of(it, data):
        return it.call(prog.ext_obj('io.BytesIO'), [data], {})

    for tmp in (False, True):
        def f_mp(it, tmp=tmp):
            fixed(it)
            v, w = word(it, 'v', '[ -~]'), word(it, 'w', '[ -~]')
            x = bytes(range(256)) * 160     # three reads
            f = it.call(prog.get('verktyg.http.FileStorage'), [
                file_of(it, x), 'n.txt', 'f', 'text/x'], {})
            vals = it.call(prog.get('verktyg.datastructures.MultiDict'), [
                it.mk_list([Tup(('a', v)), Tup(('a', w)), Tup(('f', f)),
                            Tup(('g', file_of(it, b'plain')))])], {})
            s, ln, bd = it.iterate(want(it, lambda: it.call(
                g('stream_encode_multipart'), [vals, tmp],
                {'boundary': BOUND}), 'stream_encode_multipart'))
            exp = cat(it, *(
                part(it, 'a', meth(it, v, 'encode', 'utf-8')) +
                part(it, 'a', meth(it, w, 'encode', 'utf-8')) +
                part(it, 'f', x, 'n.txt', 'text/x') +
                part(it, 'g', b'plain', None, 'application/octet-stream') +
                [END]))
            got = it.facts.norm_deep(meth(it, s, 'read'))
            oblige(it, 3)
            if not it.eq(got, exp):
                fail(it, 'the multipart body is %r, expected %r' % (got, exp))
            if not it.eq(ln, it.call(prog.builtins['len'], [exp], {})):
                fail(it, 'the length is %r' % (ln,))
            if bd != BOUND:
                fail(it, 'the boundary is %r' % (bd,))
        add_('multipart.%s' % ('file' if tmp else 'memory'), f_mp,
             'stream_encode_multipart')

    def f_mpenv(it):
        v = word(it, 'v', '[A-Za-z0-9]')
        b = builder(it, '/', method='POST', data=it.mk_dict({
            'a': v, 'f': Tup((file_of(it, b'data'), 'n.txt'))}))
        e = environ(it, b)
        ct = e['CONTENT_TYPE']
        oblige(it, 4)
        import re
        m = re.fullmatch('multipart/form-data; boundary="([^"]+)"', ct) \
            if isinstance(ct, str) else None
        if not m:
            fail(it, 'CONTENT_TYPE is %r' % (ct,))
        bd = m.group(1).encode()
        exp = cat(it, *[
            p.replace(BOUND.encode(), bd) if isinstance(p, bytes) else p
            for p in part(it, 'a', meth(it, v, 'encode', 'utf-8')) +
            part(it, 'f', b'data', 'n.txt', 'text/plain') + [END]])
        same_body(it, e, exp)
        if len(bd) < 8:
            fail(it, 'the boundary is too short')
        r = it.call(g('encode_multipart'), [it.mk_dict({'a': v}), BOUND], {})
        if it.getitem(r, 0) != BOUND or not it.eq(it.getitem(r, 1), cat(
                it, *(part(it, 'a', meth(it, v, 'encode', 'utf-8')) +
                      [END]))):
            fail(it, 'encode_multipart: %r' % (r,))
    add_('multipart.environ', f_mpenv, 'EnvironBuilder.get_environ')

    # -- files --------------------------------------------------------------
    def f_files(it):
        fixed(it)
        fs = prog.get('verktyg.http.FileStorage')
        given = it.call(fs, [file_of(it, b'1')], {})
        closed = []

        def fake(tag, bad=False):
            c = ClassV('Fake', [prog.builtins['object']], {}, kind='repo')
            o = Obj(c, {'name': tag})

            def close(i, a, k):
                closed.append(tag)
                if bad:
                    i.raise_('OSError', 'no')
            o.attrs['close'] = HostFunc('close', close)
            o.attrs['read'] = HostFunc('read', lambda i, a, k: b'')
            return o
        f1, f2 = fake('one', True), fake('two')
        b = builder(it, '/', data=it.mk_dict({
            'f': it.mk_list([given, f1]),
            'g': Tup((f2, 'n.png')), 'h': Tup((f2, 'x', 'a/b'))}))
        files = it.getattr(b, 'files')
        got = [(k, list(it.iterate(meth(it, files, 'getlist', k))))
               for k in ('f', 'g', 'h')]
        oblige(it, 8)
        f = got[0][1]
        if len(f) != 2 or f[0] is not given:
            fail(it, 'the files are %r' % (got,))
        for o, fn, ct, st in ((f[1], None, 'application/octet-stream', f1),
                              (got[1][1][0], 'n.png', 'image/png', f2),
                              (got[2][1][0], 'x', 'a/b', f2)):
            if it.getattr(o, 'content_type') != ct:
                fail(it, 'content type %r' % (it.getattr(o,
                                                         'content_type'),))
            if fn and it.getattr(o, 'filename') != fn:
                fail(it, 'file name %r' % (it.getattr(o, 'filename'),))
            if it.getattr(o, 'stream') is not st:
                fail(it, 'the stream is another one')
        want(it, lambda: meth(it, b, 'close'), 'close')
        if sorted(closed) != ['one', 'two', 'two'] and sorted(closed) != [
                'one', 'two']:
            fail(it, 'closed: %r' % (closed,))
        del closed[:]
        meth(it, b, 'close')
        if closed:
            fail(it, 'close runs twice')
    add_('files', f_files, 'FileMultiDict.add_file')

    # -- requests, create_environ -------------------------------------------
    def f_request(it):
        fixed(it)
        w = word(it, 'w', W)
        b = builder(it, cat(it, '/', w))
        r = meth(it, b, 'get_request')
        oblige(it, 4)
        if r.cls is not prog.get('verktyg.requests.BaseRequest'):
            fail(it, 'get_request: %r' % (r,))
        if not it.eq(it.getattr(r, 'path'), cat(it, '/', w)):
            fail(it, 'the path of the request')
        c = ClassV('Mine', [r.cls], {}, kind='repo')
        if meth(it, b, 'get_request', c).cls is not c:
            fail(it, 'the class given is not used')
        e = it.call(g('create_environ'), [cat(it, '/', w), 'http://x.y/z'],
                    {'method': 'PUT'})
        d = {it.getitem(x, 0): it.getitem(x, 1)
             for x in it.iterate(meth(it, e, 'items'))}
        check(it, d, REQUEST_METHOD='PUT', PATH_INFO=cat(it, '/', w),
              SCRIPT_NAME='/z', HTTP_HOST='x.y')
    add_('request', f_request, 'create_environ')

    def f_plain(it):
        """nothing to close, or nothing to keep"""
        x = sym('x', 'bytes')
        for buffered in (False, True):
            lst = it.mk_list([x])

            def app(i, a, k):
                i.call(a[1], ['200 OK', i.mk_list([])])
                return lst
            r = want(it, lambda: it.call(g('run_wsgi_app'), [
                HostFunc('app', app), it.mk_dict({}), buffered], {}), 'run')
            oblige(it)
            if list(it.iterate(it.getitem(r, 0))) != [x]:
                fail(it, 'the body of a list')
    add_('run.list', f_plain, 'run_wsgi_app')

    def f_redir_args(it):
        """what open is asked for reaches every request"""
        closed, log = [], []
        answers = [('302 X', [('Location', 'http://localhost:81/a?b=c')]),
                   ('302 X', [('Location', 'http://localhost/d')]),
                   ('200 OK', [])]

        def app(i, a, k):
            log.append((i.getitem(a[0], 'HTTP_HOST'), i.getitem(
                a[0], 'PATH_INFO'), i.getitem(a[0], 'QUERY_STRING')))
            st, hs = answers[len(log) - 1]
            i.call(a[1], [st, i.mk_list([Tup(h) for h in hs])])
            c = ClassV('Body', [prog.builtins['object']], {}, kind='repo')
            n = len(log)
            c.ns['__iter__'] = HostFunc('__iter__', lambda i, a, k: i.call(
                i.b('iter'), [i.mk_list([b'%d' % n])]), True)
            c.ns['close'] = HostFunc(
                'close', lambda i, a, k: closed.append(n), True)
            return Obj(c, {})
        c = client(it, HostFunc('app', app))
        buffered = it.truth(sym('buffered', 'bool'))
        kw = {'buffered': True} if buffered else {}
        r = want(it, lambda: meth(it, c, 'open', '/p', follow_redirects=True,
                                  **kw), 'open')
        b, s, h = result(it, r)
        oblige(it, 3)
        if log != [('localhost', '/p', ''), ('localhost:81', '/a', 'b=c'),
                   ('localhost', '/d', '')]:
            fail(it, 'the requests are %r' % (log,))
        if b != [b'3'] or s != '200 OK':
            fail(it, 'the result is %r' % ((b, s),))
        if closed != ([1, 2, 3] if buffered else []):
            fail(it, 'closed: %r' % (closed,))
    add_('redirect.arguments', f_redir_args, 'Client.resolve_redirect')

    def f_default_client(it):
        fixed(it)
        log = []
        c = want(it, lambda: it.call(g('Client'), [app_of(it, log, [
            ('302 X', [('Location', 'http://localhost/a')], b'x')])], {}),
            'Client')
        oblige(it, 3)
        j = it.getattr(c, 'cookie_jar')
        if not isinstance(j, Obj) or j.cls is not g('_TestCookieJar'):
            fail(it, 'the cookie jar is %r' % (j,))
        if it.getattr(c, 'allow_subdomain_redirects') is not False or \
                it.getattr(c, 'response_wrapper') is not None:
            fail(it, 'the defaults of Client')
        it.setattr(c, 'cookie_jar', None)
        b, s, h = result(it, meth(it, c, 'open'))
        if len(log) != 1 or b != [b'x'] or s != '302 X':
            fail(it, 'redirects are followed unasked')
    add_('client.defaults', f_default_client, 'Client.__init__')

    def f_spill(it):
        """larger than the threshold: through a temporary file"""
        fixed(it)
        old, made = it.hooks['ext'], []

        def ext(i, name, a, k):
            if name == 'tempfile.TemporaryFile':
                made.append(a)
            return old(i, name, a, k)
        it.hooks['ext'] = ext
        data = bytes(range(256)) * 200
        limit = it.facts.norm(it.getitem(Tup((1, 60, 1000, 60000)), 0))
        for limit in (1, 60, 1000, 60000):
            del made[:]
            vals = it.mk_dict({'a': 'b', 'f': file_of(it, data),
                               'g': it.mk_list(['c', b'\xff'])})
            s, ln, bd = it.iterate(want(it, lambda: it.call(
                g('stream_encode_multipart'), [vals],
                {'boundary': BOUND, 'threshold': limit}), 'encode'))
            exp = b''.join(
                part(it, 'a', b'b') +
                part(it, 'f', data, None, 'application/octet-stream') +
                part(it, 'g', b'c') + part(it, 'g', b'\xff') + [END])
            oblige(it, 3)
            got = it.facts.norm_deep(meth(it, s, 'read'))
            if got != exp or ln != len(exp) or bd != BOUND:
                fail(it, 'beyond a threshold of %d: %r' % (limit, got))
            if len(made) != (limit < len(exp)):
                fail(it, '%d temporary files' % len(made))
            if made and (not made[0] or not isinstance(made[0][0], str) or
                         'b' not in made[0][0] or '+' not in made[0][0] or
                         made[0][0][0] not in 'wr'):
                fail(it, 'mode of the temporary file %r' % (made,))
    add_('multipart.spill', f_spill, 'stream_encode_multipart')

    def f_names(it):
        """where name and type of a file come from"""
        fixed(it)
        cases = [({'name': 'a.txt'}, 'a.txt', 'text/plain'),
                 ({'name': 'a.q'}, 'a.q', 'application/octet-stream'),
                 ({'name': 'a.txt', 'filename': 'b.png'}, 'b.png',
                  'image/png'),
                 ({'name': 'a.txt', 'content_type': 'x/y'}, 'a.txt', 'x/y'),
                 ({'filename': None}, None, 'application/octet-stream')]
        for attrs, fn, ct in cases:
            f = stub(it, 'File', **attrs)
            n = []

            def read(i, a, k, n=n):
                n.append(1)
                return b'data' if len(n) == 1 else b''
            f.attrs['read'] = HostFunc('read', read)
            r = want(it, lambda: it.call(g('encode_multipart'), [
                it.mk_dict({'f': f}), BOUND], {}), 'encode_multipart')
            exp = b''.join(part(it, 'f', b'data', fn, ct) + [END])
            oblige(it)
            if it.getitem(r, 1) != exp:
                fail(it, 'a file with %r: %r' % (attrs, it.getitem(r, 1)))
        f = stub(it, 'File', read=HostFunc('read', lambda i, a, k: b''))
        opened = []
        old = it.hooks['ext']

        def ext(i, name, a, k):
            if name in ('open', 'io.open', 'builtins.open'):
                opened.append(a)
                return (f,)
            return old(i, name, a, k)
        it.hooks['ext'] = ext
        for mode in ('given', 'own'):
            b = want(it, lambda: it.call(g('EnvironBuilder'), [], {}), 'new')
            meth(it, it.getattr(b, 'files'), 'add_file', 'f', '/x/a.txt',
                 *(['n.png'] if mode == 'given' else []))
            o = it.getitem(it.getattr(b, 'files'), 'f')
            oblige(it, 3)
            if it.getattr(o, 'stream') is not f or len(opened) != 1 or \
                    tuple(opened[0]) != ('/x/a.txt', 'rb'):
                fail(it, 'the file is opened with %r' % (opened,))
            del opened[:]
            e = ('n.png', 'image/png') if mode == 'given' else \
                ('/x/a.txt', 'text/plain')
            if (it.getattr(o, 'filename'), it.getattr(
                    o, 'content_type')) != e:
                fail(it, 'the file is called %r' % (
                    it.getattr(o, 'filename'),))
    add_('files.names', f_names, 'FileMultiDict.add_file')

    def f_ports(it):
        for host, sch, port in (('h', 'http', 80), ('h', 'https', 443),
                                ('h:81', 'https', 81), ('h:x', 'http', 80),
                                ('h:x', 'https', 443)):
            b = builder(it, '/')
            it.setattr(b, 'host', host)
            it.setattr(b, 'url_scheme', sch)
            oblige(it, 2)
            if it.getattr(b, 'server_port') != port or it.getattr(
                    b, 'server_name') != 'h':
                fail(it, 'the port of %s %s is %r' % (sch, host, it.getattr(
                    b, 'server_port')))
            if it.getattr(b, 'base_url') != '%s://%s/' % (sch, host):
                fail(it, 'base_url: %r' % (it.getattr(b, 'base_url'),))
        b = builder(it, '/', 'http://h.example/a b/\xe9')
        check(it, environ(it, b), SCRIPT_NAME='/a b/\xc3\xa9')
        b = builder(it, '/')
        oblige(it, 2)
        if it.getattr(b, 'errors_stream') is None or it.getattr(
                b, 'closed') is not False:
            fail(it, 'a new builder')
        it.setitem(it.getattr(b, 'args'), 'a', 'b')
        it.setattr(b, 'query_string', 'c=d')
        it.setattr(b, 'query_string', None)
        if it.getattr(b, 'query_string') != '':
            fail(it, 'old args survive a query string')
        it.setitem(it.getattr(b, 'form'), 'a', 'b')
        if it.getattr(b, 'content_type') != \
                'application/x-www-form-urlencoded':
            fail(it, 'the content type of a form')
        it.setattr(b, 'input_stream', file_of(it, b'xyz'))
        e = environ(it, b)
        check(it, e, CONTENT_TYPE='', CONTENT_LENGTH='3')
        it.setattr(b, 'input_stream', None)
        it.setitem(it.getattr(b, 'form'), 'c', 'd')
        e = environ(it, b)
        check(it, e, CONTENT_TYPE='application/x-www-form-urlencoded')
        same_body(it, e, b'c=d')
    add_('env.attributes', f_ports, 'EnvironBuilder.server_port')

    # -- the client ---------------------------------------------------------
    def app_of(it, log, answers):
        """an application that gives the answers in turn"""
        def app(i, a, k):
            e = a[0]
            log.append({i.getitem(x, 0): i.getitem(x, 1)
                        for x in i.iterate(meth(i, e, 'items'))})
            st, hs, data = answers[min(len(log), len(answers)) - 1]
            i.call(a[1], [st, i.mk_list([Tup(h) for h in hs])])
            return i.mk_list([data])
        return HostFunc('app', app)

    def client(it, app, *a, **k):
        fixed(it)
        k.setdefault('use_cookies', False)
        return want(it, lambda: it.call(g('Client'), [app] + list(a), k),
                    'Client')

    def result(it, r):
        """(body, status, headers) of a plain result"""
        a, s, h = it.iterate(r)
        return list(it.iterate(a)), s, headers_of(it, h)

    for m in ('get', 'patch', 'post', 'head', 'put', 'delete', 'options',
              'trace', 'open'):
        def f_method(it, m=m):
            w, v = word(it, 'w', W), word(it, 'v', W)
            x = sym('x', 'bytes')
            log = []
            c = client(it, app_of(it, log, [('200 OK', [('X-A', v)], x)]))
            kw = {'method': 'WRONG'} if m != 'open' else {'method': 'OPEN'}
            r = want(it, lambda: meth(it, c, m, cat(it, '/', w),
                                      query_string='q=1', _kw=kw), m)
            b, s, h = result(it, r)
            oblige(it, 4)
            if len(log) != 1:
                fail(it, 'the application is called %d times' % len(log))
            check(it, log[0], REQUEST_METHOD=m.upper(),
                  PATH_INFO=cat(it, '/', w), QUERY_STRING='q=1')
            if len(b) != 1 or b[0] is not x or s != '200 OK' or \
                    len(h) != 1 or not it.eq(h[0][1], v):
                fail(it, 'the result is %r' % ((b, s, h),))
        add_('client.%s' % m, f_method, 'Client.%s' % m)

    for how in ('builder', 'environ', 'tuple', 'wrapper', 'tuple wrapper'):
        def f_open(it, how=how):
            log = []
            x = sym('x', 'bytes')
            app = app_of(it, log, [('201 MADE', [('X-A', 'b')], x)])
            seen = []

            def wrap(i, a, k):
                seen.append((list(i.iterate(a[0])), a[1],
                             headers_of(i, a[2])))
                return 'wrapped'
            wf = HostFunc('wrap', wrap) if 'wrapper' in how else None
            c = client(it, app, wf)
            kw = {'as_tuple': True} if 'tuple' in how else {}
            if how == 'builder':
                r = meth(it, c, 'open', builder(it, '/p', method='PUT'))
            elif how == 'environ':
                e = meth(it, builder(it, '/p', method='PUT'), 'get_environ')
                r = meth(it, c, 'open', e)
            else:
                r = meth(it, c, 'open', '/p', method='PUT', **kw)
            oblige(it, 4)
            if len(log) != 1:
                fail(it, 'the application is called %d times' % len(log))
            check(it, log[0], REQUEST_METHOD='PUT', PATH_INFO='/p')
            if 'tuple' in how:
                e, r = it.iterate(r)
                if it.getitem(e, 'PATH_INFO') != '/p':
                    fail(it, 'the environ of as_tuple')
            if wf:
                if r != 'wrapped' or len(seen) != 1:
                    fail(it, 'the wrapper gives %r' % (r,))
                b, s, h = seen[0]
            else:
                b, s, h = result(it, r)
            if len(b) != 1 or b[0] is not x or s != '201 MADE' or \
                    h != [('X-A', 'b')]:
                fail(it, 'the result is %r' % ((b, s, h),))
        add_('client.open.%s' % how.replace(' ', '_'), f_open, 'Client.open')

    for code in (301, 302, 303, 305, 307, 300, 304):
        for follow in (True, False):
            def f_redir(it, code=code, follow=follow):
                w, v = word(it, 'w', W), word(it, 'v', W)
                log = []
                loc = cat(it, 'http://localhost/', w, '?a=', v)
                c = client(it, app_of(it, log, [
                    ('%d X' % code, [('Location', loc)], b''),
                    ('200 OK', [], b'end')]))
                r = want(it, lambda: meth(
                    it, c, 'open', '/p', method='POST',
                    data=it.mk_dict({'a': 'b'}), follow_redirects=follow),
                    'open')
                b, s, h = result(it, r)
                oblige(it, 4)
                if not follow or code in (300, 304):
                    if len(log) != 1 or s != '%d X' % code:
                        fail(it, 'a %d is followed' % code)
                    return
                if len(log) != 2 or s != '200 OK' or b != [b'end']:
                    fail(it, 'a %d is not followed: %r' % (code, s))
                check(it, log[1], PATH_INFO=cat(it, '/', w), HTTP_HOST=
                      'localhost', QUERY_STRING=cat(it, 'a=', v),
                      REQUEST_METHOD='POST' if code == 307 else 'GET',
                      SCRIPT_NAME='')
            add_('redirect.%d.%s' % (code, follow), f_redir,
                 'Client.resolve_redirect')

    HOSTS = [('http://localhost/x', False, True),
             ('https://localhost/x', False, True),
             ('http://localhost:81/x', False, True),
             ('http://evil.example/x', False, False),
             ('http://sub.localhost/x', False, False),
             ('http://sub.localhost/x', True, True),
             ('http://a.sub.localhost/x', True, True),
             ('http://localhost/x', True, True),
             ('http://evil.example/x', True, False),
             ('http://xlocalhost/x', True, False),
             ('http://localhost.evil.example/x', True, False)]
    for i, (loc, sub, ok) in enumerate(HOSTS):
        def f_host(it, loc=loc, sub=sub, ok=ok):
            log = []
            c = client(it, app_of(it, log, [
                ('302 X', [('Location', loc)], b''), ('200 OK', [], b'end')]),
                HostFunc('wrap', lambda i, a, k: 'wrapped'),
                allow_subdomain_redirects=sub)
            k, v, _ = attempt(it, lambda: meth(
                it, c, 'open', '/p', follow_redirects=True))
            oblige(it, 3)
            if ok and (k != 'ok' or len(log) != 2 or v != 'wrapped'):
                fail(it, 'the redirect to %s: %r' % (loc, v))
            if not ok and (k != 'raise' or len(log) != 1 or not is_exc(
                    it, v, 'RuntimeError')):
                fail(it, 'the redirect to %s is followed: %r' % (loc, v))
            if ok:
                import urllib.parse as up
                u = up.urlsplit(loc)
                check(it, log[1], HTTP_HOST=u.netloc,
                      wsgi_url_scheme=u.scheme)
            if not isinstance(it.getattr(c, 'response_wrapper'), HostFunc):
                fail(it, 'the response wrapper is lost')
        add_('redirect.host.%d' % i, f_host, 'Client.resolve_redirect')

    def f_chain(it):
        log = []
        L = 'http://localhost/'
        wraps = []
        c = client(it, app_of(it, log, [
            ('302 X', [('Location', L + 'a')], b''),
            ('301 X', [('Location', L + 'b')], b''),
            ('302 X', [('Location', L + 'c')], b''), ('200 OK', [], b'e')]),
            HostFunc('wrap', lambda i, a, k: (wraps.append(a[1]), 'w')[1]))
        r = meth(it, c, 'open', '/p', follow_redirects=True, as_tuple=True)
        oblige(it, 3)
        if [e['PATH_INFO'] for e in log] != ['/p', '/a', '/b', '/c']:
            fail(it, 'a chain leads to %r' % ([e['PATH_INFO']
                                               for e in log],))
        if wraps != ['200 OK'] or it.getitem(r, 1) != 'w' or it.getitem(
                it.getitem(r, 0), 'PATH_INFO') != '/c':
            fail(it, 'the result of a chain: %r %r' % (wraps, r))
        del log[:]
        c = client(it, app_of(it, log, [
            ('302 X', [('Location', L + 'a')], b''),
            ('302 X', [('Location', L + 'b')], b''),
            ('302 X', [('Location', L + 'a')], b'')]))
        k, v, _ = attempt(it, lambda: meth(it, c, 'open', '/p',
                                           follow_redirects=True))
        if k != 'raise' or not is_exc(it, v, g('ClientRedirectError')) or \
                len(log) != 3:
            fail(it, 'a loop: %r after %d requests' % (v, len(log)))
    add_('redirect.chain', f_chain, 'Client.open')

    # -- cookies ------------------------------------------------------------
    def f_cookies(it):
        fixed(it)
        urls = []
        n, v = word(it, 'n', W), word(it, 'v', W)
        log, jar = [], []
        J = g('_TestCookieJar')
        order = []

        def extract(i, a, k):
            hs = i.getattr(a[1], 'info')
            info = i.call(hs, [], {})
            order.append('extract')
            jar.append((list(i.iterate(i.call(i.getattr(
                info, 'get_all'), ['Set-Cookie'], {}))), a[2]))
            urls.append(a[2].attrs['$args'].items[0])
        cookies = [stub(it, 'Cookie', name=n, value=v),
                   stub(it, 'Cookie', name='x', value='1')]
        for have in (True, False):
            C = ClassV('Jar', [J], {
                '__init__': HostFunc('__init__', lambda i, a, k: None, True),
                '__iter__': HostFunc('__iter__', lambda i, a, k: i.call(
                    prog.builtins['iter'] if 'iter' in prog.builtins else
                    i.b('iter'), [i.mk_list(cookies if have else [])]),
                    True),
                'extract_cookies': HostFunc('extract_cookies', extract,
                                            True)}, kind='repo')
            del log[:], jar[:], order[:], urls[:]

            def app(i, a, k):
                order.append('app')
                log.append(meth(i, a[0], 'get', 'HTTP_COOKIE'))
                i.call(a[1], ['200 OK', i.mk_list([
                    Tup(('set-cookie', 'a=b')), Tup(('X-A', 'c')),
                    Tup(('Set-Cookie', v))])])
                return i.mk_list([b''])
            c = client(it, HostFunc('app', app))
            it.setattr(c, 'cookie_jar', Obj(C, {}))
            meth(it, c, 'open', '/p')
            oblige(it, 3)
            exp = cat(it, n, '=', v, '; x=1') if have else None
            if len(log) != 1 or not (it.eq(log[0], exp) if have else
                                     log[0] is None):
                fail(it, 'the cookies sent are %r' % (log,))
            if order != ['app', 'extract'] or len(jar) != 1 or len(
                    jar[0][0]) != 2 or jar[0][0][0] != 'a=b' or not it.eq(
                        jar[0][0][1], v):
                fail(it, 'the cookies received are %r' % (jar,))
            if urls != ['http://localhost/p']:
                fail(it, 'the cookies are set for %r' % (urls,))
            del jar[:], urls[:]
            meth(it, c, 'set_cookie', 'h.example', 'k', 'val', 60, path='/z',
                 secure=True)
            got = jar[0][0] if jar else None
            if not got or not all(s in str(got[0]) for s in (
                    'k=val', 'Max-Age=60', 'Path=/z', 'Secure')):
                fail(it, 'set_cookie: %r' % (jar,))
            if urls != ['http://h.example/z']:
                fail(it, 'set_cookie is for %r' % (urls,))
            del jar[:]
            meth(it, c, 'delete_cookie', 'h.example', 'k', path='/z')
            got = jar[0][0] if jar else None
            if not got or not all(s in str(got[0]) for s in (
                    'k=', 'Max-Age=0', 'Path=/z', 'Expires=')):
                fail(it, 'delete_cookie: %r' % (jar,))
            del jar[:], urls[:]
            meth(it, c, 'set_cookie', 'h.example', 'k', 'val')
            if [x[0] for x in jar] != [['k=val; Path=/']] or urls != [
                    'http://h.example/']:
                fail(it, 'set_cookie: %r %r' % (jar, urls))
    add_('cookies', f_cookies, 'Client.run_wsgi_app')

    # -- run_wsgi_app -------------------------------------------------------
    for buffered in (False, True):
        def f_run(it, buffered=buffered):
            x, y = sym('x', 'bytes'), sym('y', 'bytes')
            closed = []
            state = {'n': 0}
            c = ClassV('Body', [prog.builtins['object']], {}, kind='repo')
            body_ = Obj(c, {})

            def app(i, a, k):
                state['sr'] = a[1]
                return body_

            def nxt(i, a, k):
                state['n'] += 1
                if state['n'] == 2:
                    i.call(state['sr'], ['200 OK', i.mk_list(
                        [Tup(('X-A', 'b'))])])
                if state['n'] > 3:
                    i.raise_('StopIteration')
                return {1: b'', 2: x, 3: y}[state['n']]
            c.ns['__iter__'] = HostFunc('__iter__', lambda i, a, k: a[0],
                                        True)
            c.ns['__next__'] = HostFunc('__next__', nxt, True)
            c.ns['close'] = HostFunc(
                'close', lambda i, a, k: closed.append(state['n']), True)
            if it.truth(sym('iterable', 'bool')):
                c2 = ClassV('Iterable', [prog.builtins['object']], {
                    '__iter__': HostFunc('__iter__', lambda i, a, k: body_,
                                         True),
                    'close': c.ns['close']}, kind='repo')
                inner, body_ = body_, Obj(c2, {})
                c2.ns['__iter__'] = HostFunc(
                    '__iter__', lambda i, a, k: inner, True)
            r = want(it, lambda: it.call(g('run_wsgi_app'), [
                HostFunc('app', app), it.mk_dict({}), buffered], {}),
                'run_wsgi_app')
            a, s, h = it.iterate(r)
            oblige(it, 5)
            if buffered:
                if len(closed) != 1 or state['n'] != 4:
                    fail(it, 'buffering does not close the application')
            elif closed or state['n'] != 2:
                fail(it, 'the application is read to item %d' % state['n'])
            if s != '200 OK' or headers_of(it, h) != [('X-A', 'b')]:
                fail(it, 'status and headers: %r' % ((s, h),))
            got = list(it.iterate(a))
            if len(got) != 3 or got[0] != b'' or got[1] is not x or \
                    got[2] is not y:
                fail(it, 'the body is %r' % (got,))
            if not buffered:
                want(it, lambda: meth(it, a, 'close'), 'close')
            if len(closed) != 1:
                fail(it, 'the application is closed %d times' % len(closed))
        add_('run.late.%s' % buffered, f_run, 'run_wsgi_app')

        def f_exc(it, buffered=buffered):
            E = prog.builtins['RuntimeError']
            tb = stub(it, 'Traceback')
            same = it.truth(sym('same', 'bool'))

            def app(i, a, k):
                e = i.call(E, ['boom'], {})
                e.attrs['__traceback__'] = None if same else tb
                i.call(a[1], ['500 X', i.mk_list([]), Tup(
                    (E, e, None if same else tb))])
                return i.mk_list([])
            k, v, _ = attempt(it, lambda: it.call(g('run_wsgi_app'), [
                HostFunc('app', app), it.mk_dict({}), buffered], {}))
            oblige(it)
            if k != 'raise' or not is_exc(it, v, 'RuntimeError'):
                fail(it, 'exc_info is not raised: %r' % (v,))
        add_('run.exc_info.%s' % buffered, f_exc, 'run_wsgi_app')
    return out
