"""C03: request attributes are faithful, stable views of the environment."""
from .lib import *
from .mdlib import same_val
from .c17 import want

RULE = ('Every attribute of a request object is followed from an environment '
        'whose relevant variables are absent or arbitrary text, and the '
        'abstract value is compared with the value the variable denotes '
        '(value numbering); a second access gives the same value, no access '
        'changes the environment, and the collections handed out reject '
        'changes.')
MIN_SCENARIOS = 60

ABSENT = object()


def s(it, name):
    return sym(name.replace('.', '_').lower(), 'str')


def dance(it, v):
    return meth(it, meth(it, v, 'encode', 'latin-1'), 'decode', 'utf-8',
                'replace')


def cat(it, *ps):
    v = ps[0]
    for p in ps[1:]:
        v = add(it, v, p)
    return v


def p_path(it, v):
    return cat(it, '/', meth(it, dance(it, v), 'lstrip', '/'))


def p_script(it, v):
    return meth(it, dance(it, v), 'rstrip', '/')


def d(v, default):
    return default if v is ABSENT else v


def p_int(it, v):
    if v is ABSENT:
        return None
    it.raise_ops = True
    r = attempt(it, call, it, it.prog.builtins['int'], v)
    it.raise_ops = False
    return None if r[0] == 'raise' else r[1]


def p_len(it, v):
    n = p_int(it, v)
    if n is None:
        return None
    return 0 if it.less(n, 0) else n


# attribute -> (variables, expected value, always present)
SPEC = {
    'method': (['REQUEST_METHOD'],
               lambda it, v: meth(it, d(v, 'GET'), 'upper')),
    'path': (['PATH_INFO'], lambda it, v: p_path(it, d(v, ''))),
    'script_root': (['SCRIPT_NAME'], lambda it, v: p_script(it, d(v, ''))),
    'query_string': (['QUERY_STRING'], lambda it, v: dance(it, d(v, ''))),
    'full_path': (['PATH_INFO', 'QUERY_STRING'],
                  lambda it, p, q: cat(it, p_path(it, d(p, '')), '?',
                                       dance(it, d(q, '')))),
    'remote_addr': (['REMOTE_ADDR'], lambda it, v: d(v, None)),
    'remote_user': (['REMOTE_USER'], lambda it, v: d(v, None)),
    'scheme': (['wsgi.url_scheme'], lambda it, v: d(v, None)),
    'is_multithread': (['wsgi.multithread'], lambda it, v: d(v, None)),
    'is_multiprocess': (['wsgi.multiprocess'], lambda it, v: d(v, None)),
    'is_run_once': (['wsgi.run_once'], lambda it, v: d(v, None)),
    'input_stream': (['wsgi.input'], lambda it, v: d(v, None)),
    'app': (['verktyg.application'], lambda it, v: d(v, None)),
    'content_type': (['CONTENT_TYPE'], lambda it, v: d(v, None)),
    'content_length': (['CONTENT_LENGTH'], p_len),
    'content_encoding': (['HTTP_CONTENT_ENCODING'],
                         lambda it, v: d(v, None)),
    'content_md5': (['HTTP_CONTENT_MD5'], lambda it, v: d(v, None)),
    'referrer': (['HTTP_REFERER'], lambda it, v: d(v, None)),
    'max_forwards': (['HTTP_MAX_FORWARDS'], p_int),
}

# attribute -> (variable, parser, value for the absent variable)
PARSED = {
    'date': ('HTTP_DATE', 'parse_date', [None]),
    'if_modified_since': ('HTTP_IF_MODIFIED_SINCE', 'parse_date', [None]),
    'if_unmodified_since': ('HTTP_IF_UNMODIFIED_SINCE', 'parse_date',
                            [None]),
    'if_match': ('HTTP_IF_MATCH', 'parse_etags', [None, '']),
    'if_none_match': ('HTTP_IF_NONE_MATCH', 'parse_etags', [None, '']),
    'if_range': ('HTTP_IF_RANGE', 'parse_if_range_header', [None, '']),
    'range': ('HTTP_RANGE', 'parse_range_header', [None, '']),
    'cache_control': ('HTTP_CACHE_CONTROL', 'parse_cache_control_header',
                      [None, '']),
    'pragma': ('HTTP_PRAGMA', 'parse_set_header', [None, '']),
    'authorization': ('HTTP_AUTHORIZATION', 'parse_authorization_header',
                      [None, '']),
}


def snapshot(it, e):
    return [(k, v) for k, v in e.data.items.items()]


def scenarios(prog):
    out = []
    Request = prog.get('verktyg.requests.Request')
    Plain = prog.get('verktyg.requests.PlainRequest')
    classes = (Request, Plain)
    iri = prog.get('verktyg.urls.uri_to_iri')

    def unchanged(it, e, before, what):
        now = snapshot(it, e)
        if [k for k, v in now] != [k for k, v in before] or not all(
                it.facts.norm(a[1]) is it.facts.norm(b[1]) or
                a[1] == b[1] for a, b in zip(now, before)):
            fail(it, '%s changes the environment' % what)

    def value(cls, attr):
        keys, want = SPEC[attr]

        def fn(it):
            e = it.mk_dict({'HTTP_X_OTHER': sym('other', 'str')})
            vals = []
            for k in keys:
                if it.choose(2, k + ' present'):
                    v = s(it, k)
                    if k.startswith(('wsgi.multi', 'wsgi.run', 'verktyg')) \
                            or k == 'wsgi.input':
                        v = stub(it, 'value')
                    it.setitem(e, k, v)
                    vals.append(v)
                else:
                    vals.append(ABSENT)
            r = call(it, cls, e, populate_request=False)
            before = snapshot(it, e)
            for n in ('', ' (second access)'):
                res = attempt(it, it.getattr, r, attr)
                oblige(it)
                if res[0] == 'raise':
                    fail(it, '%s%s raises %s' % (attr, n, exc_name(res[1])),
                         res[2])
                exp = want(it, *[v if v is ABSENT else it.facts.norm(v)
                                 for v in vals])
                if not same_val(it, res[1], exp):
                    fail(it, '%s%s is %s, the environment says %s' % (
                        attr, n, show(res[1]), show(exp)))
            unchanged(it, e, before, attr)
        return fn
    for cls in classes:
        for a in SPEC:
            out.append(Scen('%s.%s' % (cls.name, a), value(cls, a),
                            cls.qual))

    def parsed(cls, attr):
        key, parser, empty = PARSED[attr]

        def fn(it):
            e = it.mk_dict({'HTTP_X_OTHER': sym('other', 'str')})
            have = it.choose(2, key + ' present') == 1
            if have:
                it.setitem(e, key, s(it, key))
            calls = []

            def rec(*a, **k):
                o = stub(it, 'parsed')
                calls.append((o, a))
                return o
            n = prog.modules['verktyg.http'].scope.vars.get(parser) \
                if False else prog.get('verktyg.http.' + parser)
            it.overrides[n] = host(parser, rec)
            r = call(it, cls, e, populate_request=False)
            res = attempt(it, it.getattr, r, attr)
            oblige(it, 2)
            if res[0] == 'raise':
                fail(it, '%s raises %s' % (attr, exc_name(res[1])), res[2])
            mine = [a for o, a in calls if o is res[1]]
            if not mine:
                if not have and it.facts.norm(res[1]) is None:
                    return
                it.note_imprecise('%s is not the parser\'s result' % attr)
                fail(it, '%s is not the parsed header' % attr)
            arg = it.facts.norm(mine[0][0]) if mine[0] else ABSENT
            if have:
                if not same_val(it, arg, s(it, key)):
                    fail(it, '%s parses %s instead of the %s header' % (
                        attr, show(arg), key))
            elif arg not in empty:
                fail(it, '%s parses %s although the header is absent' % (
                    attr, show(arg)))
        return fn
    for cls in classes:
        for a in PARSED:
            out.append(Scen('%s.%s' % (cls.name, a), parsed(cls, a),
                            cls.qual))

    def secure(cls):
        def fn(it):
            v = sym('scheme', 'str')
            r = call(it, cls, it.mk_dict({'wsgi.url_scheme': v}),
                     populate_request=False)
            res = attempt(it, it.getattr, r, 'is_secure')
            oblige(it)
            if res[0] == 'raise':
                fail(it, 'is_secure raises', res[2])
            t = it.truth(res[1])
            if t != it.eq(v, 'https'):
                fail(it, 'is_secure is %s for the scheme %s' % (t, show(v)))
        return fn

    def xhr(cls):
        def fn(it):
            e = it.mk_dict({})
            have = it.choose(2, 'header') == 1
            v = sym('requested_with', 'str')
            if have:
                it.setitem(e, 'HTTP_X_REQUESTED_WITH', v)
            r = call(it, cls, e, populate_request=False)
            res = attempt(it, it.getattr, r, 'is_xhr')
            oblige(it)
            if res[0] == 'raise':
                fail(it, 'is_xhr raises', res[2])
            t = it.truth(res[1])
            w = have and it.eq(meth(it, v, 'lower'), 'xmlhttprequest')
            if t != w:
                fail(it, 'is_xhr is %s' % t)
        return fn

    def route(cls):
        def fn(it):
            e = it.mk_dict({})
            fwd = it.choose(3, 'forwarded')
            rem = it.choose(2, 'remote') == 1
            a, b = sym('a', 'str'), sym('b', 'str')
            for x in (a, b):
                it.facts.truth[Term('in', (',', x), 'bool')] = False
            if rem:
                it.setitem(e, 'REMOTE_ADDR', sym('remote', 'str'))
            if fwd == 1:
                it.setitem(e, 'HTTP_X_FORWARDED_FOR', a)
            elif fwd == 2:
                it.setitem(e, 'HTTP_X_FORWARDED_FOR', cat(it, a, ',', b))
            want = [meth(it, x, 'strip') for x in (a, b)[:fwd]]
            if not fwd and rem:
                want = [sym('remote', 'str')]
            r = call(it, cls, e, populate_request=False)
            res = attempt(it, it.getattr, r, 'access_route')
            oblige(it)
            if res[0] == 'raise':
                fail(it, 'access_route raises', res[2])
            got = [it.facts.norm(x) for x in it.iterate(res[1])]
            if len(got) != len(want) or not all(
                    same_val(it, x, y) for x, y in zip(got, want)):
                fail(it, 'access_route is %s, expected %s' % (
                    [show(x) for x in got], [show(x) for x in want]))
        return fn

    def headers(cls):
        def fn(it):
            ty, x, ln = sym('ctype', 'str'), sym('xfoo', 'str'), \
                sym('clen', 'str')
            e = it.mk_dict({'CONTENT_TYPE': ty, 'HTTP_X_FOO': x,
                            'CONTENT_LENGTH': ln, 'SERVER_NAME': 'n',
                            'HTTP_CONTENT_TYPE': 'evil',
                            'wsgi.url_scheme': 'http'})
            r = call(it, cls, e, populate_request=False)
            h = it.getattr(r, 'headers')
            oblige(it, 8)
            for k, w in (('Content-Type', ty), ('content-type', ty),
                         ('X-Foo', x), ('x-foo', x), ('X_FOO', x),
                         ('Content-Length', ln)):
                res = attempt(it, it.getitem, h, k)
                if res[0] == 'raise' or not same_val(it, res[1], w):
                    fail(it, 'headers[%r] is not the value sent' % k,
                         res[2])
            res = attempt(it, it.getitem, h, 'Server-Name')
            if res[0] != 'raise' or not is_exc(it, res[1], 'KeyError'):
                fail(it, 'a variable that is no header shows up in headers')
            got = {}
            for p in it.iterate(h):
                k, v = it.getitem(p, 0), it.getitem(p, 1)
                if k in got:
                    fail(it, 'header %s listed twice' % k)
                got[k] = v
            want = {'Content-Type': ty, 'X-Foo': x, 'Content-Length': ln}
            if set(got) != set(want) or not all(
                    same_val(it, got[k], want[k]) for k in want):
                fail(it, 'iterating the headers gives %s' % sorted(got))
        return fn

    def args(cls):
        def fn(it):
            e = it.mk_dict({})
            have = it.choose(2, 'query') == 1
            q = sym('query', 'str')
            if have:
                it.setitem(e, 'QUERY_STRING', q)
            seen = []

            def hook(i, name, a, k):
                if name == 'urllib.parse.parse_qsl':
                    seen.append((a, k))
                    return (it.mk_list([Tup((sym('k', 'str'),
                                             sym('v', 'str')))]),)
            it.hooks['ext'] = hook
            r = call(it, cls, e, populate_request=False)
            res = attempt(it, it.getattr, r, 'args')
            oblige(it, 3)
            if res[0] == 'raise':
                fail(it, 'args raises %s' % exc_name(res[1]), res[2])
            if len(seen) != 1:
                it.note_imprecise('query parser')
                fail(it, 'query string is not parsed once')
            if not same_val(it, seen[0][0][0], dance(it, q) if have else ''):
                fail(it, 'args parses %s instead of the query string' %
                     show(seen[0][0][0]))
            got = it.getitem(res[1], sym('k', 'str'))
            if not same_val(it, got, sym('v', 'str')):
                fail(it, 'args does not hold the parsed pairs')
        return fn

    # a request class of the application with another handling of broken text
    def strict(cls, attr):
        def fn(it):
            sub = ClassV('Strict', [cls], {
                'encoding_errors': 'surrogateescape',
                '__module__': 'application'}, kind='repo')
            t = sym('text', 'str')
            if not it.truth(t):
                return
            e = it.mk_dict({'PATH_INFO': t, 'SCRIPT_NAME': t,
                            'QUERY_STRING': t, 'REQUEST_METHOD': 'GET',
                            'HTTP_COOKIE': t})
            seen = []

            def hook(i, name, a, k):
                if name == 'urllib.parse.parse_qsl':
                    seen.append((a, k))
                    return (it.mk_list([]),)
            it.hooks['ext'] = hook

            def jar(i, a, k):
                seen.append((a, k))
                return i.mk_dict({})
            it.overrides[prog.get('verktyg.http.cookies.parse_cookie')] = \
                HostFunc('parse_cookie', jar)
            r = call(it, sub, e, populate_request=False)
            v = want(it, lambda: it.getattr(r, attr), attr)
            oblige(it)
            d = meth(it, meth(it, t, 'encode', 'latin-1'), 'decode', 'utf-8',
                     'surrogateescape')
            if attr in ('args', 'cookies'):
                names = (('qs', 'keep_blank_values', 'strict_parsing',
                          'encoding', 'errors') if attr == 'args' else
                         ('header', 'charset', 'errors', 'cls'))
                a, k = seen[0]
                b = dict(zip(names, a), **k)
                if b.get('errors') != 'surrogateescape':
                    fail(it, '%s does not handle broken text as the request '
                         'class says' % attr)
                if attr == 'args' and not same_val(it, b['qs'], d):
                    fail(it, 'args parses %s' % show(b['qs']))
                return
            w = {'path': lambda: cat(it, '/', meth(it, d, 'lstrip', '/')),
                 'script_root': lambda: meth(it, d, 'rstrip', '/'),
                 'query_string': lambda: d}[attr]()
            if not same_val(it, v, w):
                fail(it, '%s of a request class with its own error handling '
                     'is %s, not %s' % (attr, show(v), show(w)))
        return fn
    for a in ('args', 'cookies', 'path', 'script_root', 'query_string'):
        out.append(Scen('error handling of a subclass: ' + a, strict(
            prog.get('verktyg.requests.Request'), a),
            'verktyg.requests.Request'))

    MUT = {
        'args': [lambda it, c: it.setitem(c, 'k', 'v'),
                 lambda it, c: meth(it, c, 'add', 'k', 'v'),
                 lambda it, c: meth(it, c, 'clear')],
        'cookies': [lambda it, c: it.setitem(c, 'k', 'v'),
                    lambda it, c: meth(it, c, 'update', it.mk_dict({})),
                    lambda it, c: meth(it, c, 'clear')],
        'access_route': [lambda it, c: meth(it, c, 'append', 'x'),
                         lambda it, c: it.setitem(c, 0, 'x')],
        'headers': [lambda it, c: it.setitem(c, 'k', 'v'),
                    lambda it, c: meth(it, c, 'add', 'k', 'v'),
                    lambda it, c: meth(it, c, 'clear')],
    }

    def frozen(cls, attr, i):
        def fn(it):
            e = it.mk_dict({'REMOTE_ADDR': 'a', 'HTTP_X_FOO': 'b',
                            'QUERY_STRING': '', 'HTTP_COOKIE': ''})
            r = call(it, cls, e, populate_request=False)
            c = it.getattr(r, attr)
            res = attempt(it, MUT[attr][i], it, c)
            require(it, res[0] == 'raise' and is_exc(it, res[1], 'TypeError'),
                    'request.%s accepts a change' % attr)
        return fn

    def cookies(cls):
        def fn(it):
            e = it.mk_dict({'HTTP_COOKIE': sym('cookie', 'str')})
            seen = []

            def rec(header, *a, **k):
                o = stub(it, 'jar')
                seen.append((o, header, k))
                return o
            it.overrides[prog.get('verktyg.http.parse_cookie')] = host(
                'parse_cookie', rec)
            r = call(it, cls, e, populate_request=False)
            res = attempt(it, it.getattr, r, 'cookies')
            oblige(it)
            if res[0] == 'raise':
                fail(it, 'cookies raises %s' % exc_name(res[1]), res[2])
            if not seen or res[1] is not seen[0][0]:
                it.note_imprecise('cookie parser')
                fail(it, 'cookies is not the parsed header')
            hd = seen[0][1]
            if isinstance(hd, Obj):
                if hd is not e:
                    fail(it, 'cookies parses another environment')
            elif not same_val(it, hd, sym('cookie', 'str')):
                fail(it, 'cookies parses %s instead of the cookie header' %
                     show(hd))
        return fn

    def mime(cls):
        def fn(it):
            e = it.mk_dict({})
            have = it.choose(2, 'type') == 1
            ct = sym('ctype', 'str')
            if have:
                it.setitem(e, 'CONTENT_TYPE', ct)
            t, o = sym('type', 'str'), stub(it, 'params')
            seen = []

            def rec(v, *a):
                seen.append(v)
                return Tup((t, o))
            it.overrides[prog.get('verktyg.http.parse_options_header')] = \
                host('parse_options_header', rec)
            r = call(it, cls, e, populate_request=False)
            order = it.choose(2, 'order')
            names = ['mimetype', 'mimetype_params']
            oblige(it, 3)
            for n in (names if order else names[::-1]):
                res = attempt(it, it.getattr, r, n)
                if res[0] == 'raise':
                    fail(it, '%s raises %s' % (n, exc_name(res[1])), res[2])
                w = meth(it, t, 'lower') if n == 'mimetype' else o
                if res[1] is not w and not same_val(it, res[1], w):
                    fail(it, '%s is %s' % (n, show(res[1])))
            if not seen or not same_val(it, seen[0], ct if have else ''):
                fail(it, 'the mimetype is not taken from the content type')
        return fn

    # URL accessors
    def url(cls, attr):
        def fn(it):
            it.overrides[iri] = host(
                'uri_to_iri', lambda u, *a, **k: Term('iri', (u,), 'str'))
            sc, h = sym('scheme', 'str'), sym('host', 'str')
            sn, pi, qs = sym('script', 'str'), sym('path', 'str'), \
                sym('query', 'str')
            e = it.mk_dict({'wsgi.url_scheme': sc, 'HTTP_HOST': h,
                            'SCRIPT_NAME': sn, 'PATH_INFO': pi,
                            'QUERY_STRING': qs})
            quote = Ext('urllib.parse.quote')
            lat = lambda v: meth(it, v, 'encode', 'latin-1')  # noqa: E731
            base = cat(it, sc, '://', h)
            root = cat(it, base, meth(it, call(it, quote, lat(sn)),
                                      'rstrip', '/'), '/')
            full = cat(it, root, call(it, quote, meth(it, lat(pi), 'lstrip',
                                                      b'/')))
            qq = call(it, quote, lat(qs), safe=':&%=+$!*\'(),')
            exp = {'host_url': [cat(it, base, '/')], 'url_root': [root],
                   'base_url': [full],
                   'url': [cat(it, full, '?', qq) if it.truth(qq)
                           else full], 'host': [h]}[attr]
            r = call(it, cls, e, populate_request=False)
            res = attempt(it, it.getattr, r, attr)
            oblige(it)
            if res[0] == 'raise':
                fail(it, '%s raises %s' % (attr, exc_name(res[1])), res[2])
            v = it.facts.norm(res[1])
            if attr == 'host':
                if not same_val(it, v, h):
                    fail(it, 'host is %s' % show(v))
                return
            if not (isinstance(v, Term) and v.op == 'iri'):
                it.note_imprecise('url text')
                fail(it, '%s is %s' % (attr, show(v)))
            if not any(same_val(it, v.args[0], x) for x in exp):
                fail(it, '%s is the IRI of %s, expected %s' % (
                    attr, show(v.args[0]), [show(x) for x in exp]))
        return fn

    def populate(cls):
        def fn(it):
            e = it.mk_dict({})
            pop = it.choose(2, 'populate') == 1
            sh = it.choose(2, 'shallow') == 1
            r = call(it, cls, e, populate_request=pop, shallow=sh)
            oblige(it, 2)
            have = it.find_key(e, 'verktyg.request') is not None
            if have != (pop and not sh):
                fail(it, 'the request is %sstored in the environment' % (
                    '' if have else 'not '))
            if have and it.getitem(e, 'verktyg.request') is not r:
                fail(it, 'another object is stored as the request')
            if it.getattr(r, 'environ') is not e:
                fail(it, 'the request keeps a different environment')
        return fn

    for cls in classes:
        n = cls.name
        for nm, f in (('is_secure', secure), ('is_xhr', xhr),
                      ('access_route', route), ('headers', headers),
                      ('args', args), ('cookies', cookies),
                      ('mimetype', mime), ('construction', populate)):
            out.append(Scen('%s.%s' % (n, nm), f(cls), cls.qual))
        for a in ('url', 'base_url', 'url_root', 'host_url', 'host'):
            out.append(Scen('%s.%s' % (n, a), url(cls, a), cls.qual))
        for a in MUT:
            for i in range(len(MUT[a])):
                out.append(Scen('%s.%s frozen %d' % (n, a, i),
                                frozen(cls, a, i), cls.qual))
    for fname, var in (('get_path_info', 'PATH_INFO'),
                       ('get_script_name', 'SCRIPT_NAME')):
        f = prog.get('verktyg.wsgi.' + fname)

        def decoded(it, f=f, var=var):
            there = it.choose(2, 'present')
            v = sym('v', 'str')
            e = it.mk_dict({var: v, 'QUERY_STRING': 'x'} if there else {})
            if not there:
                v = ''
            raw = meth(it, v, 'encode', 'latin-1')
            oblige(it, 2)
            how = it.choose(5, 'arguments')
            a, want = [((), meth(it, raw, 'decode', 'utf-8', 'replace')),
                       (('latin-1',), meth(it, raw, 'decode', 'latin-1',
                                           'replace')),
                       (('utf-8', 'ignore'), meth(it, raw, 'decode', 'utf-8',
                                                  'ignore')),
                       (('utf-8', 'strict'), meth(it, raw, 'decode', 'utf-8',
                                                  'strict')),
                       ((None,), raw)][how]
            r = attempt(it, call, it, f, e, *a)
            if r[0] == 'raise':
                fail(it, '%s raises %s' % (var, exc_name(r[1])), r[2])
            if not same_val(it, r[1], want):
                fail(it, '%s of the environment is read as %s' % (
                    var, show(r[1])))
        out.append(Scen(fname, decoded, 'verktyg.wsgi.' + fname))
    return out
