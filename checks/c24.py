"""C24: exceptions reach the most specific acceptable handler."""
import itertools

from .lib import *
from .resplib import Start, headers_of
from .c23 import env

RULE = ('Handler tables over a class hierarchy (with multiple inheritance), '
        'flat, nested or extended later, are compared with the list of '
        'registrations: walking the method resolution order of the raised '
        'class, the first class with an acceptable handler decides, the last '
        'registered of the best representations wins.  In an application an '
        'exception of the action or of routing and dispatch reaches exactly '
        'that handler, whose response is sent; without one it propagates '
        'unchanged.')
MIN_SCENARIOS = 40


def scenarios(prog):
    out = []
    ED = prog.get('verktyg.exception_dispatch.ExceptionDispatcher')
    EH = prog.get('verktyg.exception_dispatch.ExceptionHandler')
    AB = prog.get('verktyg.application.ApplicationBuilder')
    Route = prog.get('verktyg.routing.Route')
    Binding = prog.get('verktyg.dispatch.Binding')
    Resp = prog.get('verktyg.responses.Response')
    HTTPException = prog.get('verktyg.exceptions.HTTPException')
    NotFound = prog.get('verktyg.exceptions.NotFound')
    B = prog.builtins
    KE = prog.get('verktyg.exceptions.BadRequestKeyError')
    CLS = {'BaseException': B['BaseException'], 'Exception': B['Exception'],
           'LookupError': B['LookupError'], 'KeyError': B['KeyError'],
           'HTTPException': HTTPException, 'NotFound': NotFound,
           'BadRequest': prog.get('verktyg.exceptions.BadRequest'),
           'BadRequestKeyError': KE, 'OSError': B['OSError']}

    def handler(log, tag):
        return HostFunc('h%s' % tag, lambda i, a, k: (
            log.append((tag, tuple(a))), sym('res%s' % tag))[1])

    def mro(c):
        return [x for x in c.mro]

    REPS = [{}, {'content_type': 'text/html'},
            {'content_type': 'application/json'}, {'language': 'fr'},
            {'charset': 'latin-1'}]

    def ok(rep, acc):
        """(acceptable, rank) under the fixed headers of these scenarios:
        one concrete value per header, None for anything"""
        rank = []
        for d, a in zip(('content_type', 'language', 'charset'), acc):
            v = rep.get(d)
            if v is None:
                rank.append(0)
            elif a is None:
                rank.append(1)
            elif a == v:
                rank.append(2)
            else:
                return None
        return rank

    def expected(table, cls, acc):
        for c in mro(cls):
            best = None
            for hc, rep, tag in table:
                if hc is c:
                    r = ok(rep, acc)
                    if r is not None and (best is None or r >= best[0]):
                        best = (r, tag)
            if best:
                return best[1]
        return None

    ACCS = [(None, None, None), ('text/html', None, None),
            ('application/json', None, None), ('image/png', 'fr', None),
            (None, 'de', 'latin-1'), ('text/html', 'fr', 'ascii')]

    def lookup(it, d, table, raised, acc, log):
        if acc is None:
            r = attempt(it, meth, it, d, 'lookup', CLS[raised])
            acc = (None,) * 3
        else:
            r = attempt(it, meth, it, d, 'lookup', CLS[raised],
                        accept=acc[0], accept_language=acc[1],
                        accept_charset=acc[2])
        oblige(it)
        want = expected(table, CLS[raised], acc)
        if r[0] == 'raise':
            fail(it, 'looking up a handler for %s raises %s' % (
                raised, exc_name(r[1])))
        if r[1] is None:
            if want is not None:
                fail(it, 'no handler is found for %s; handler %s fits' % (
                    raised, want))
            return
        del log[:]
        args = [sym(n) for n in ('app', 'req', 'type', 'value', 'tb')]
        res = call(it, r[1], *args)
        got = log[0][0] if log else None
        if got != want:
            fail(it, '%s reaches handler %s instead of %s' % (
                raised, got, want))
        if log[0][1] != tuple(args) or res is not sym('res%s' % got):
            fail(it, 'arguments or result of the handler are not passed on')

    # -- hierarchy ---------------------------------------------------------
    def hier(raised, names):
        def fn(it):
            log, table, hs = [], [], []
            for i, n in enumerate(names):
                hs.append(call(it, EH, CLS[n], handler(log, i)))
                table.append((CLS[n], {}, i))
            if it.choose(2, 'constructor'):
                d = call(it, ED, it.mk_list(hs))
            else:
                d = call(it, ED)
                meth(it, d, 'add_exception_handlers', *hs)
            o = call(it, ED)
            lookup(it, d, table, raised, None, log)
            lookup(it, o, [], raised, None, log)
        return fn
    names = sorted(CLS)
    for raised in ('KeyError', 'BadRequestKeyError', 'NotFound', 'Exception'):
        for sel in itertools.permutations(names, 2):
            out.append(Scen('%s: %s' % (raised, ', '.join(sel)),
                            hier(raised, sel), ED.qual))
        for n in names:
            out.append(Scen('%s: %s twice' % (raised, n),
                            hier(raised, (n, n)), ED.qual))
        out.append(Scen('%s: none' % raised, hier(raised, ()), ED.qual))

    # -- representations ----------------------------------------------------
    def reps(pairs, acc):
        def fn(it):
            log, table = [], []
            d = call(it, ED)
            for i, (n, r) in enumerate(pairs):
                meth(it, d, 'add_exception_handlers',
                     call(it, EH, CLS[n], handler(log, i), **REPS[r]))
                table.append((CLS[n], REPS[r], i))
            lookup(it, d, table, 'NotFound', acc, log)
        return fn
    for acc in ACCS:
        for a, b in itertools.product(range(len(REPS)), repeat=2):
            for n1, n2 in (('NotFound', 'NotFound'),
                           ('HTTPException', 'NotFound'),
                           ('NotFound', 'Exception')):
                p = ((n1, a), (n2, b))
                out.append(Scen('%s %s, %s' % (p[0], p[1], acc),
                                reps(p, acc), ED.qual))

    # -- nesting -------------------------------------------------------------
    def nested(it):
        log, table, hs = [], [], []
        specs = [('NotFound', 0), ('HTTPException', 0), ('NotFound', 1),
                 ('Exception', 0)]
        for i, (n, r) in enumerate(specs):
            hs.append(call(it, EH, CLS[n], handler(log, i), **REPS[r]))
        k = it.choose(4, 'shape')
        if k == 0:
            d = call(it, ED, it.mk_list([call(it, ED, it.mk_list(hs))]))
            want = range(4)
        elif k == 1:
            inner = call(it, ED, it.mk_list(hs[:2]))
            mid = call(it, ED, it.mk_list([inner, hs[2]]))
            meth(it, inner, 'add_exception_handlers', hs[3])
            d = call(it, ED)
            meth(it, d, 'add_exception_handlers', mid)
            want = range(3)
        elif k == 2:
            d = call(it, ED, it.mk_list([call(it, ED), hs[3]]))
            want = (3,)
        else:
            d = call(it, ED)
            meth(it, d, 'add_exception_handlers', hs[0],
                 call(it, ED, it.mk_list(hs[1:])))
            want = range(4)
        table = [(CLS[specs[i][0]], REPS[specs[i][1]], i) for i in want]
        raised = names[it.choose(len(names), 'raised')]
        acc = ACCS[it.choose(len(ACCS), 'headers')]
        lookup(it, d, table, raised, acc, log)
    out.append(Scen('nested', nested, ED.qual))

    # -- applications ----------------------------------------------------------
    def app(raised, hnames, where, acc):
        def fn(it):
            log = []
            b = call(it, AB, default_redirect_handler=False)
            meth(it, b, 'add_routes', call(it, Route, '/', endpoint='e'))
            x = None
            if raised in ('OSError', 'KeyError', 'KeyboardInterrupt'):
                x = it.instantiate(it.b(raised), ['x'], {})
            elif raised == 'NotFound' and where == 'action':
                x = call(it, NotFound)
            seen = []

            def act(i, a, k):
                raise PyRaise(x)
            meth(it, b, 'add_bindings', call(it, Binding, 'e', HostFunc(
                'action', act)))
            table = []
            for i, (n, r) in enumerate(hnames):
                def mk(i):
                    def f(it2, a, k):
                        log.append((i, tuple(a)))
                        return call(it2, Resp, 'handled%d' % i, status=418)
                    return HostFunc('handler%d' % i, f)
                kind = it.choose(3, 'way to add')
                f = mk(i)
                c = CLS.get(n) or it.b(n)
                if kind == 0:
                    meth(it, b, 'add_exception_handlers', call(
                        it, EH, c, f, **REPS[r]))
                elif kind == 1:
                    meth(it, b, 'add_exception_handler', c, f,
                         **REPS[r])
                else:
                    dec = meth(it, b, 'exception_handler', c,
                               **REPS[r])
                    if call(it, dec, f) is not f:
                        fail(it, 'the decorator replaces the handler')
                table.append((c, REPS[r], i))
            a = call(it, b, 'http://localhost/')
            st = Start()
            extra = {}
            for h, v in zip(('HTTP_ACCEPT', 'HTTP_ACCEPT_LANGUAGE',
                             'HTTP_ACCEPT_CHARSET'), acc):
                if v is not None:
                    extra[h] = v
            path = '/' if where == 'action' else '/absent'
            e = env(it, 'PUT' if where == 'method' else 'GET',
                    '/' if where == 'method' else path, **extra)
            cls = CLS.get(raised) or prog.builtins.get(raised) or prog.get(
                'verktyg.exceptions.' + raised)
            want = expected(table, cls, acc)
            if raised == 'KeyboardInterrupt':
                want = None
            try:
                r = call(it, a, e, st.func())
                data = [y for y in it.iterate(r)]
            except PyRaise as p:
                oblige(it)
                if want is not None:
                    fail(it, '%s escapes the application although handler '
                         '%s fits' % (exc_name(p.val), want))
                if not is_exc(it, p.val, cls) or x is not None and \
                        p.val is not x:
                    fail(it, '%s arrives at the server instead of %s' % (
                        exc_name(p.val), raised))
                return
            oblige(it)
            if want is None:
                fail(it, 'the exception is swallowed')
            if [l[0] for l in log] != [want]:
                fail(it, '%s is given to handlers %s instead of %s' % (
                    raised, [l[0] for l in log], want))
            args = log[0][1]
            if len(args) != 5 or args[0] is not a or \
                    it.getattr(args[1], 'environ') is not e:
                fail(it, 'handler is not given application and request')
            if args[2] is not cls or x is not None and args[3] is not x or \
                    not is_exc(it, args[3], cls):
                fail(it, 'handler is not given the exception')
            if data != [('handled%d' % want).encode()]:
                fail(it, 'the response of the handler is not sent')
            if len(st.calls) != 1 or not str(st.calls[0][0]).startswith(
                    '418'):
                fail(it, 'the status of the handler is not sent')
        return fn
    for raised, where in (('OSError', 'action'), ('KeyError', 'action'),
                          ('NotFound', 'action'), ('NotFound', 'routing'),
                          ('MethodNotAllowed', 'method'),
                          ('KeyboardInterrupt', 'action')):
        for hs in ((), (('Exception', 0),), (('BaseException', 0),),
                   (('Exception', 0), ('HTTPException', 0)),
                   (('LookupError', 0), ('KeyError', 0)),
                   (('NotFound', 1), ('HTTPException', 2), ('Exception', 0)),
                   (('HTTPException', 3), ('HTTPException', 4))):
            for acc in (ACCS[0], ACCS[2], ACCS[3], ACCS[4]):
                if acc is not ACCS[0] and not any(r for _, r in hs):
                    continue
                out.append(Scen('application: %s (%s), %s, %s' % (
                    raised, where, hs, acc), app(raised, hs, where, acc),
                    'application'))

    def redirect(path, default):
        def fn(it):
            b = call(it, AB, **({} if default is None else {
                'default_redirect_handler': default}))
            meth(it, b, 'add_routes', call(it, Route, '/x/', endpoint='e'))
            meth(it, b, 'add_bindings', call(it, Binding, 'e', host(
                'action', lambda *a: call(it, Resp, 'ok'))))
            a = call(it, b, 'http://localhost/')
            st = Start()
            try:
                r = call(it, a, env(it, 'GET', path), st.func())
                list(it.iterate(r))
            except PyRaise as p:
                oblige(it)
                if default is False and exc_name(p.val) == 'RequestRedirect':
                    return
                fail(it, 'the application raises %s' % exc_name(p.val))
            oblige(it)
            if default is False:
                fail(it, 'the redirect is handled although the default '
                     'handler is switched off')
            code = st.calls[0][0]
            if not (isinstance(code, str) and code[:3] in (
                    '301', '302', '303', '307', '308')):
                fail(it, 'a redirect is sent with status %s' % (code,))
            if not any(it.eq(k, 'Location') for k, v in headers_of(
                    it, st.calls[0][1])):
                fail(it, 'a redirect is sent without Location')
        return fn
    for d in (None, True, False):
        out.append(Scen('redirect, default handler %s' % d,
                        redirect('/x', d), AB.qual))
    return out
