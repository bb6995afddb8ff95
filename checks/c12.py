"""C12: cleanup runs exactly once on every way out."""
from .lib import *
from .resplib import environ

RULE = ('From the construction of a response or application call to the '
        'closing of the body iterator, along every normal and exceptional '
        'exit (exhaustion, early close, failing body, failing handler, '
        'failing start of the response), each cleanup callback of request '
        'and response and the close method of the body runs exactly once, '
        'callbacks in the order they were registered (typestate).')
MIN_SCENARIOS = 40


class Log:
    def __init__(self):
        self.ran = []

    def cb(self, name):
        def f(*a, **k):
            self.ran.append(name)
        return host(name, f)


def body_obj(it, log, kind, items, fault):
    """body iterable of the given kind; fault: raises after n items"""
    if kind == 'list':
        return it.mk_list(list(items))
    if kind == 'tuple':
        return Tup(tuple(items))
    state = {'i': 0}

    def nxt(*a):
        i = state['i']
        if fault is not None and i == fault:
            it.raise_('OSError', 'body')
        if i >= len(items):
            it.raise_('StopIteration')
        state['i'] = i + 1
        return items[i]
    c = ClassV('Body', [it.prog.builtins['object']], {
        '__iter__': HostFunc('iter', lambda i, a, k: a[0], True),
        '__next__': HostFunc('next', lambda i, a, k: nxt(), True),
        'close': HostFunc('close', lambda i, a, k: log.ran.append('body'),
                          True),
    }, kind='repo')
    if kind == 'iterator':
        del c.ns['close']
    return Obj(c, {})


def drive(it, r, mode):
    """what a server does with the iterator; returns the exception if any"""
    n = 0
    err = None
    if mode != 'close at once':
        try:
            for x in it.iterate(r):
                n += 1
                if mode == 'early close' and n == 1:
                    break
        except PyRaise as e:
            err = e.val
    if mode != 'no close':
        it.call(it.getattr(r, 'close'), [])
    return err


def expect(it, log, want, what):
    oblige(it)
    for w in set(want) | set(log.ran):
        a, b = log.ran.count(w), want.count(w)
        if a != b:
            fail(it, '%s: cleanup "%s" ran %d times instead of %d' % (
                what, w, a, b))
    order = [x for x in log.ran if x.startswith('cb')]
    if order != sorted(order):
        fail(it, '%s: callbacks ran in the order %s' % (what, order))


def scenarios(prog):
    out = []
    Resp = prog.get('verktyg.responses.Response')
    Base = prog.get('verktyg.responses.BaseResponse')
    CI = prog.get('verktyg.wsgi.ClosingIterator')
    Request = prog.get('verktyg.requests.Request')
    MODES = ('exhaust', 'early close', 'close at once')
    KINDS = ('list', 'tuple', 'iterator', 'closable')

    def items(it, n=2):
        return [sym('d%d' % i, 'bytes') for i in range(n)]

    def direct(cls, kind, mode, method, fault):
        def fn(it):
            log = Log()
            n = 2 if fault is not None else it.choose(3, 'pieces')
            r = call(it, cls, body_obj(it, log, kind, items(it, n), fault))
            for i in (1, 2):
                meth(it, r, 'call_on_close', log.cb('cb%d' % i))
            if kind in ('iterator', 'closable') and fault is None:
                how = it.choose(4, 'made a sequence first')
                if how:
                    meth(it, r, ('', 'make_sequence', 'get_data',
                                 'calculate_content_length')[how])
            e = environ(it, method)
            ai = call(it, r, e, host('start_response', lambda *a: None))
            if log.ran:
                fail(it, 'cleanup runs before the body is sent')
            drive(it, ai, mode)
            expect(it, log, ['cb1', 'cb2'] + (
                ['body'] if kind == 'closable' else []),
                '%s body, %s, %s' % (kind, method, mode))
        return fn
    for kind in KINDS:
        for mode in MODES:
            for m in ('GET', 'HEAD'):
                out.append(Scen('response: %s %s %s' % (m, kind, mode),
                                direct(Resp, kind, mode, m, None),
                                Resp.qual))
            if kind in ('iterator', 'closable'):
                out.append(Scen('response: failing %s %s' % (kind, mode),
                                direct(Resp, kind, mode, 'GET', 1),
                                Resp.qual))
    out.append(Scen('base response', direct(Base, 'closable', 'exhaust',
                                            'GET', None), Base.qual))

    def ctx(what, raises):
        def fn(it):
            log = Log()
            if what == 'response':
                o = call(it, Resp, body_obj(it, log, 'closable', items(it),
                                            None))
                want = ['cb1', 'cb2', 'body']
            else:
                o = call(it, Request, environ(it, 'GET'))
                want = ['cb1', 'cb2']
            for i in (1, 2):
                meth(it, o, 'call_on_close', log.cb('cb%d' % i))
            r = meth(it, o, '__enter__')
            if r is not o:
                fail(it, 'entering a %s gives another object' % what)
            if raises:
                x = it.instantiate(it.b('OSError'), ['x'], {})
                s = meth(it, o, '__exit__', x.cls, x, None)
                if it.truth(s):
                    fail(it, 'leaving a %s swallows the exception' % what)
            else:
                meth(it, o, '__exit__', None, None, None)
            expect(it, log, want, 'with %s' % what)
        return fn
    for what in ('response', 'request'):
        for r in (False, True):
            out.append(Scen('with %s%s' % (what, ', exception' if r else ''),
                            ctx(what, r), what))

    def reg(cls):
        def fn(it):
            o = call(it, cls, environ(it, 'GET')) if cls is Request else \
                call(it, cls)
            log = Log()
            f = log.cb('cb1')
            require(it, meth(it, o, 'call_on_close', f) is f,
                    'call_on_close does not return the function, so it '
                    'cannot be used as a decorator')
        return fn
    for cls in (Resp, Request):
        out.append(Scen('decorator %s' % cls.name, reg(cls), cls.qual))

    def closing(kind, cbs, mode):
        def fn(it):
            log = Log()
            its = items(it)
            b = body_obj(it, log, kind, its, None)
            if cbs == 'none':
                c = call(it, CI, b)
                want = []
            elif cbs == 'one':
                c = call(it, CI, b, log.cb('cb1'))
                want = ['cb1']
            else:
                l = it.mk_list([log.cb('cb1'), log.cb('cb2')])
                c = call(it, CI, b, l)
                want = ['cb1', 'cb2']
            if cbs == 'list' and it.choose(2, 'caller changes its list'):
                meth(it, l, 'clear')
            if mode == 'exhaust':
                got = [x for x in it.iterate(c)]
                if len(got) != 2 or any(a is not b for a, b in
                                        zip(got, its)):
                    fail(it, 'items are not passed on in order')
            meth(it, c, 'close')
            expect(it, log, want + (['body'] if kind == 'closable' else []),
                   'closing iterator over %s' % kind)
            if kind == 'closable' and log.ran[0] != 'body':
                fail(it, 'callbacks run before the iterable is closed')
        return fn
    for kind in KINDS:
        for cbs in ('none', 'one', 'list'):
            for mode in ('exhaust', 'close at once'):
                out.append(Scen('ClosingIterator: %s %s %s' % (
                    kind, cbs, mode), closing(kind, cbs, mode), CI.qual))

    # the whole application
    AB = prog.get('verktyg.application.ApplicationBuilder')
    Route = prog.get('verktyg.routing.Route')
    Binding = prog.get('verktyg.dispatch.Binding')
    EH = prog.get('verktyg.exception_dispatch.ExceptionHandler')

    def app(kind, mode, fault, where):
        def fn(it):
            log = Log()
            b = call(it, AB)
            meth(it, b, 'add_routes', call(it, Route, '/', endpoint='e'))

            def respond(req, tag='cb'):
                r = call(it, Resp, body_obj(it, log, kind, items(it),
                                            fault))
                for i in (1, 2):
                    meth(it, r, 'call_on_close', log.cb('%s%d' % (tag, i)))
                return r

            def action(a, req, *r, **k):
                for i in (3, 4):
                    meth(it, req, 'call_on_close', log.cb('cb%d' % i))
                if where.startswith('handler raises'):
                    it.raise_('OSError', 'handler')
                return respond(req)

            def handler(a, req, *r, **k):
                return respond(req)
            meth(it, b, 'add_bindings',
                 call(it, Binding, 'e', host('action', action)))
            if where == 'handler raises, handled':
                meth(it, b, 'add_exception_handlers', call(
                    it, EH, it.b('OSError'), host('handler', handler)))
            a = call(it, b, 'http://localhost/')
            e = it.mk_dict({
                'REQUEST_METHOD': 'GET', 'PATH_INFO': '/',
                'SCRIPT_NAME': '', 'QUERY_STRING': '',
                'wsgi.url_scheme': 'http', 'SERVER_NAME': 'localhost',
                'SERVER_PORT': '80'})

            def start(*x):
                if where == 'start fails':
                    it.raise_('OSError', 'start')
            try:
                r = call(it, a, e, host('start_response', start))
                err = drive(it, r, mode)
            except PyRaise as x:
                err = x.val
            want = ['cb3', 'cb4']
            if where != 'handler raises':
                want += ['cb1', 'cb2'] + (['body'] if kind == 'closable'
                                          else [])
            for w in set(want) | set(log.ran):
                oblige(it)
                x, y = log.ran.count(w), want.count(w)
                if x != y:
                    fail(it, 'application, %s body, %s%s, %s: cleanup "%s" '
                         'ran %d times instead of %d' % (
                             kind, mode, '' if fault is None else
                             ', body fails', where, w, x, y))
            if (err is not None) != (where in ('handler raises',
                                               'start fails') or
                                     fault is not None and
                                     mode != 'early close'):
                if err is None:
                    fail(it, 'an exception is swallowed')
                fail(it, 'the application raises %s' % exc_name(err))
        return fn
    for kind in KINDS:
        for mode in ('exhaust', 'early close', 'no close'):
            for fault in (None, 1):
                if fault is not None and kind in ('list', 'tuple'):
                    continue
                for where in ('ok', 'handler raises', 'start fails',
                              'handler raises, handled'):
                    if fault is not None and where != 'ok':
                        continue
                    out.append(Scen('application: %s, %s%s, %s' % (
                        kind, mode, ', failing body' if fault else '',
                        where), app(kind, mode, fault, where), 'application'))
    return out
