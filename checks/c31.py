"""C31: HTTP exceptions carry their status and abort() raises them."""
from .lib import *
from .c17 import want

RULE = ('The class hierarchy, the status table and the table of default '
        'exceptions are computed from the module source; every class is '
        'constructed with unknown arguments and aborted to with unknown '
        'codes, and its status, name, description, response and text are '
        'compared with what the documentation promises for the code.')
MIN_SCENARIOS = 90
E = 'verktyg.exceptions.'

CODES = {
    'BadRequest': 400, 'ClientDisconnected': 400, 'SecurityError': 400,
    'Unauthorized': 401, 'Forbidden': 403, 'NotFound': 404,
    'MethodNotAllowed': 405, 'NotAcceptable': 406, 'RequestTimeout': 408,
    'Conflict': 409, 'Gone': 410, 'LengthRequired': 411,
    'PreconditionFailed': 412, 'RequestEntityTooLarge': 413,
    'RequestURITooLarge': 414, 'UnsupportedMediaType': 415,
    'RequestedRangeNotSatisfiable': 416, 'ExpectationFailed': 417,
    'ImATeapot': 418, 'UnprocessableEntity': 422,
    'PreconditionRequired': 428, 'TooManyRequests': 429,
    'RequestHeaderFieldsTooLarge': 431, 'InternalServerError': 500,
    'NotImplemented': 501, 'BadGateway': 502, 'ServiceUnavailable': 503,
    'GatewayTimeout': 504, 'HTTPVersionNotSupported': 505,
    'BadRequestKeyError': 400,
}
REASONS = {
    100: 'continue', 101: 'switching protocols', 102: 'processing',
    200: 'ok', 201: 'created', 202: 'accepted',
    203: 'non authoritative information', 204: 'no content',
    205: 'reset content', 206: 'partial content', 207: 'multi status',
    226: 'im used', 300: 'multiple choices', 301: 'moved permanently',
    302: 'found', 303: 'see other', 304: 'not modified', 305: 'use proxy',
    307: 'temporary redirect', 308: 'permanent redirect',
    400: 'bad request', 401: 'unauthorized',
    402: 'payment required', 403: 'forbidden', 404: 'not found',
    405: 'method not allowed', 406: 'not acceptable',
    407: 'proxy authentication required', 408: 'request timeout',
    409: 'conflict', 410: 'gone', 411: 'length required',
    412: 'precondition failed',
    413: ('request entity too large', 'payload too large',
          'content too large'),
    414: ('request uri too long', 'uri too long'),
    415: 'unsupported media type',
    416: ('requested range not satisfiable', 'range not satisfiable'),
    417: 'expectation failed', 418: 'im a teapot',
    422: ('unprocessable entity', 'unprocessable content'), 423: 'locked',
    424: 'failed dependency', 426: 'upgrade required',
    428: 'precondition required', 429: 'too many requests',
    431: 'request header fields too large', 449: 'retry with',
    500: 'internal server error', 501: 'not implemented',
    502: 'bad gateway', 503: 'service unavailable', 504: 'gateway timeout',
    505: 'http version not supported', 507: 'insufficient storage',
    510: 'not extended',
}


def plain(s):
    s = s.lower().replace('-', ' ')
    return ' '.join(''.join(c for c in s if c.isalnum() or c == ' ').split())


def items(it, d):
    return [(it.getitem(e, 0), it.getitem(e, 1))
            for e in it.iterate(meth(it, d, 'items'))]


def scenarios(prog):
    out = []

    def add_(name, fn, subject):
        out.append(Scen(name, fn, subject))

    def g(n):
        return prog.get(E + n)

    HTTP = g('HTTPException')
    classes = {}
    for name in CODES:
        classes[name] = g(name)

    def top(code):
        cs = [c for n, c in classes.items() if CODES[n] == code]
        return [c for c in cs if all(x.is_sub(c) for x in cs)][0]

    # -- the table of reasons -----------------------------------------------
    def f_table(it):
        t = dict(items(it, it.prog.get(E + 'HTTP_STATUS_CODES')))
        oblige(it, len(REASONS))
        for c, r in REASONS.items():
            if c not in t:
                if c == 308:
                    continue
                fail(it, 'no reason is known for status %d' % c)
            if plain(t[c]) not in (r if isinstance(r, tuple) else (r,)):
                fail(it, 'the reason of status %d is %r' % (c, t[c]))
    add_('table', f_table, 'HTTP_STATUS_CODES')

    # -- the classes --------------------------------------------------------
    for name, c in sorted(classes.items()):
        code = CODES[name]

        def build(it, c, name, d, how, r):
            kw = {}
            pos = []
            if name == 'MethodNotAllowed':
                pos.append(r)
                if how == 'kw':
                    kw['description'] = d
                elif how == 'pos':
                    pos.append(d)
            elif name == 'BadRequestKeyError':
                pos.append('key')
                if how == 'pos':
                    pos += [d, r]
                elif how == 'kw':
                    kw.update(description=d, response=r)
            elif how == 'pos':
                pos += [d, r]
            elif how == 'kw':
                kw.update(description=d, response=r)
            return pos, kw

        def judge(it, o, c, name, code, d, r, how):
            oblige(it, 7)
            if not (isinstance(o, Obj) and o.cls is c):
                fail(it, '%r raised, expected %s' % (o, name))
            if it.getattr(o, 'code') != code:
                fail(it, '%s.code is %r' % (name, it.getattr(o, 'code')))
            nm = it.getattr(o, 'name')
            exp = REASONS[code]
            if plain(nm) not in (exp if isinstance(exp, tuple) else (exp,)):
                fail(it, '%s.name is %r' % (name, nm))
            got = it.getattr(o, 'description')
            if how == 'none':
                if not isinstance(got, str) or not got:
                    fail(it, '%s has no description' % name)
            elif not it.eq(got, d):
                fail(it, 'the description of %s: %r, expected %r' % (
                    name, got, d))
            resp = it.getattr(o, 'response')
            meth_ = name == 'MethodNotAllowed'
            if meth_ and it.getattr(o, 'valid_methods') is not r:
                fail(it, 'valid_methods is %r' % (
                    it.getattr(o, 'valid_methods'),))
            if resp is not (None if meth_ or how == 'none' else r):
                fail(it, '%s.response is %r' % (name, resp))
            s = want(it, lambda: it.call(it.prog.builtins['str'], [o], {}),
                     'str(%s)' % name)
            if s != '%d: %s' % (code, nm):
                fail(it, 'str(%s) is %r' % (name, s))
            s = want(it, lambda: it.call(it.prog.builtins['repr'], [o], {}),
                     'repr(%s)' % name)
            if s != "<%s '%d: %s'>" % (name, code, nm):
                fail(it, 'repr(%s) is %r' % (name, s))
            if name == 'BadRequestKeyError':
                a = it.getattr(o, 'args')
                if not (isinstance(a, Tup) and a.items == ('key',)):
                    fail(it, 'the arguments of %s: %r' % (name, a))

        for how in ('none', 'pos', 'kw'):
            def f_make(it, c=c, name=name, code=code, how=how):
                d = word(it, 'd', '[ -~]')
                r = Obj(ClassV('Thing', [it.prog.builtins['object']], {},
                               kind='repo'), {})
                pos, kw = build(it, c, name, d, how, r)
                o = want(it, lambda: it.call(c, pos, kw), name)
                judge(it, o, c, name, code, d, r, how)
                if not c.is_sub(HTTP):
                    fail(it, '%s is no HTTPException' % name)
            add_('class.%s.%s' % (name, how), f_make, '%s.__init__' % name)

            if top(code) is not c:
                continue

            def f_abort(it, c=c, name=name, code=code, how=how):
                d = word(it, 'd', '[ -~]')
                r = Obj(ClassV('Thing', [it.prog.builtins['object']], {},
                               kind='repo'), {})
                pos, kw = build(it, c, name, d, how, r)
                k, o, _ = attempt(it, lambda: it.call(
                    g('abort'), [code] + pos, kw))
                if k != 'raise':
                    fail(it, 'abort(%d) returns' % code)
                judge(it, o, c, name, code, d, r, how)
            add_('abort.%s.%s' % (name, how), f_abort, 'Aborter.__call__')

    # -- relations ----------------------------------------------------------
    def f_tree(it):
        oblige(it, 6)
        BR = classes['BadRequest']
        for n in ('ClientDisconnected', 'SecurityError',
                  'BadRequestKeyError'):
            if not classes[n].is_sub(BR):
                fail(it, '%s is not a BadRequest' % n)
        if not classes['BadRequestKeyError'].is_sub(
                it.prog.builtins['KeyError']):
            fail(it, 'BadRequestKeyError is not a KeyError')
        if not HTTP.is_sub(it.prog.builtins['Exception']):
            fail(it, 'HTTPException is not an Exception')
        if it.getattr(HTTP, 'code') is not None:
            fail(it, 'HTTPException has a code')
    add_('tree', f_tree, 'exceptions')

    def f_default(it):
        t = dict(items(it, g('default_exceptions')))
        oblige(it, len(t) + len(classes))
        for n, c in classes.items():
            if t.get(CODES[n]) is not top(CODES[n]):
                fail(it, 'the default exception of %d is %r' % (
                    CODES[n], t.get(CODES[n])))
        for code, c in t.items():
            if it.getattr(c, 'code') != code:
                fail(it, '%s is registered for %r' % (c.name, code))
        al = list(it.iterate(g('__all__')))
        for n in classes:
            if n != 'BadRequestKeyError' and n not in al:
                fail(it, '%s is not exported' % n)
    add_('default', f_default, '_find_exceptions')

    def f_redirect(it):
        u = word(it, 'u', '[!-~]')
        o = want(it, lambda: it.call(it.prog.get(
            'verktyg.routing.RequestRedirect'), [u], {}), 'RequestRedirect')
        oblige(it, 5)
        if it.getattr(o, 'code') != 301 or \
                it.getattr(o, 'name') != 'Moved Permanently':
            fail(it, 'status of RequestRedirect')
        if not it.eq(it.getattr(o, 'new_url'), u):
            fail(it, 'new_url')
        for n in ('response', 'description'):
            if want(it, lambda: it.getattr(o, n),
                    'RequestRedirect.%s' % n) is not None:
                fail(it, 'RequestRedirect.%s' % n)
        if not o.cls.is_sub(HTTP):
            fail(it, 'RequestRedirect is not an HTTPException')
        if want(it, lambda: it.call(it.prog.builtins['str'], [o], {}),
                'str') != '301: Moved Permanently':
            fail(it, 'str(RequestRedirect)')
    add_('redirect', f_redirect, 'RequestRedirect.__init__')

    # -- abort --------------------------------------------------------------
    known = sorted({c for n, c in CODES.items()})

    def f_unknown(it):
        code = sym('code', 'int')
        k, o, _ = attempt(it, lambda: it.call(g('abort'), [code], {}))
        oblige(it, 2)
        if k != 'raise':
            fail(it, 'abort(code) returns')
        c = it.facts.norm(code)
        if isinstance(c, int):
            if c in known:
                if o.cls is not top(c):
                    fail(it, 'abort(%d) raises %s' % (c, exc_name(o)))
                return
        if not is_exc(it, o, 'LookupError') or o.cls.is_sub(HTTP):
            fail(it, 'abort(%r) raises %s' % (c, exc_name(o)))
    add_('abort.any', f_unknown, 'Aborter.__call__')

    def f_resp(it):
        r = Obj(ClassV('Thing', [it.prog.builtins['object']], {},
                       kind='repo'), {})
        k, o, _ = attempt(it, lambda: it.call(g('abort'), [r], {}))
        oblige(it, 4)
        if k != 'raise' or o.cls is not HTTP or \
                it.getattr(o, 'response') is not r:
            fail(it, 'abort(application): %r' % (o,))
        if it.getattr(o, 'name') != 'Unknown Error':
            fail(it, 'the name of an exception without a code is %r' % (
                it.getattr(o, 'name'),))
        for f in ('str', 'repr'):
            s = want(it, lambda: it.call(it.prog.builtins[f], [o], {}),
                     '%s of an exception without a code' % f)
            if not isinstance(s, str):
                fail(it, '%s: %r' % (f, s))
        k, o, _ = attempt(it, lambda: it.call(g('abort'), [r, 'x'], {}))
        if k != 'raise' or not is_exc(it, o, 'LookupError'):
            fail(it, 'abort(application, args): %r' % (o,))
        k, o, _ = attempt(it, lambda: it.call(g('abort'), [r],
                                              {'description': 'x'}))
        if k != 'raise' or not is_exc(it, o, 'LookupError'):
            fail(it, 'abort(application, description=): %r' % (o,))
        o = it.call(classes['MethodNotAllowed'], [], {})
        if it.getattr(o, 'valid_methods') is not None or \
                not it.truth(it.getattr(o, 'description')):
            fail(it, 'MethodNotAllowed()')
        o = it.call(classes['NotFound'], [''], {})
        if it.getattr(o, 'description') != '':
            fail(it, 'an empty description is replaced')
    add_('abort.response', f_resp, 'Aborter.__call__')

    for extra in (False, True):
        def f_map(it, extra=extra):
            NF, GO = classes['NotFound'], classes['Gone']
            m = it.mk_dict({1: NF, 404: GO})
            before = dict(items(it, g('default_exceptions')))
            a = it.call(g('Aborter'), [] if extra else [m],
                        {'extra': m} if extra else {})
            oblige(it, 5)

            def raised(code):
                k, o, _ = attempt(it, lambda: it.call(a, [code], {}))
                return o.cls if k == 'raise' else None
            if raised(1) is not NF or raised(404) is not GO:
                fail(it, 'a custom mapping is not used')
            got = raised(403)
            if extra and got is not classes['Forbidden']:
                fail(it, 'extra hides the defaults')
            if not extra and (got is None or not got.is_sub(
                    it.prog.builtins['LookupError'])):
                fail(it, 'a custom mapping lacks 403: %r' % (got,))
            if dict(items(it, g('default_exceptions'))) != before:
                fail(it, 'extra changes the defaults of everyone')
            it.setitem(m, 1, GO)
            if raised(1) is not NF:
                fail(it, 'the mapping is shared with the caller')
        add_('aborter.%s' % ('extra' if extra else 'mapping'), f_map,
             'Aborter.__init__')

    # -- wrap ---------------------------------------------------------------
    for base in ('BadRequest', 'NotFound', 'InternalServerError'):
        for exc in ('KeyError', 'ValueError', 'LookupError'):
            for named in (None, 'MyError'):
                def f_wrap(it, base=base, exc=exc, named=named):
                    b = classes[base]
                    x = it.prog.builtins[exc]
                    n = meth(it, b, 'wrap', x, *([named] if named else []))
                    oblige(it, 6)
                    if not n.is_sub(b) or not n.is_sub(x):
                        fail(it, 'wrap: the result is not both')
                    nm = it.getattr(n, '__name__')
                    if nm != (named or base + exc):
                        fail(it, 'wrap: the class is called %r' % (nm,))
                    d = word(it, 'd', '[ -~]')
                    v = sym('v', 'str')
                    r = Obj(ClassV('Thing', [it.prog.builtins['object']],
                                   {}, kind='repo'), {})
                    o = want(it, lambda: it.call(n, [v, d, r], {}), 'wrap')
                    if it.getattr(o, 'code') != CODES[base]:
                        fail(it, 'wrap: code %r' % (it.getattr(o, 'code'),))
                    if not it.eq(it.getattr(o, 'description'), d) or \
                            it.getattr(o, 'response') is not r:
                        fail(it, 'wrap: arguments')
                    a = it.getattr(o, 'args')
                    if not isinstance(a, Tup) or len(a.items) != 1 or \
                            not it.eq(a.items[0], v):
                        fail(it, 'wrap: args %r' % (a,))
                    o = want(it, lambda: it.call(n, [], {}), 'wrap()')
                    if it.getattr(o, 'description') != it.getattr(
                            b, 'description'):
                        fail(it, 'wrap: default description')
                add_('wrap.%s.%s.%s' % (base, exc, named), f_wrap,
                     'HTTPException.wrap')
    return out
