"""C09: the request body is read only within the announced length."""
from .lib import *
from .mdlib import same_val
from .c08 import Under

RULE = ('For an arbitrary Content-Length text (absent, malformed, negative, '
        'any integer) every read of the server\'s input stream made through '
        'a request object or the stream helper asks for at most the '
        'remaining announced bytes; without a usable length the stream is '
        'not touched; data read with caching is read once and handed out '
        'unchanged afterwards; a shallow request never reads.')
MIN_SCENARIOS = 12

READS = {
    'stream.read()': lambda it, r: meth(it, it.getattr(r, 'stream'), 'read'),
    'stream.read(n)': lambda it, r: meth(
        it, it.getattr(r, 'stream'), 'read', sym('n', 'int')),
    'stream.readline()': lambda it, r: meth(
        it, it.getattr(r, 'stream'), 'readline'),
    'get_data()': lambda it, r: meth(it, r, 'get_data'),
    'get_data(cache=False)': lambda it, r: meth(it, r, 'get_data',
                                                cache=False),
    'get_data(as_text)': lambda it, r: meth(it, r, 'get_data', as_text=True),
}


def scenarios(prog):
    out = []
    Request = prog.get('verktyg.requests.Request')
    Plain = prog.get('verktyg.requests.PlainRequest')
    gis = prog.get('verktyg.wsgi.get_input_stream')
    gcl = prog.get('verktyg.wsgi.get_content_length')
    CD = prog.get('verktyg.exceptions.ClientDisconnected')

    def env(it, u, length, terminated):
        d = {'REQUEST_METHOD': sym('method', 'str'), 'wsgi.input': u.obj()}
        if length == 'text':
            d['CONTENT_LENGTH'] = sym('content_length', 'str')
        if terminated is not None:
            d['wsgi.input_terminated'] = terminated
        return it.mk_dict(d)

    def limit_of(it, length):
        """the announced number of bytes, or None"""
        if length == 'absent':
            return None
        it.raise_ops = True
        r = attempt(it, call, it, it.prog.builtins['int'],
                    sym('content_length', 'str'))
        it.raise_ops = False
        if r[0] == 'raise':
            return None
        return 0 if it.less(r[1], 0) else r[1]

    def body(cls, length, names):
        def fn(it):
            lim = limit_of(it, length)
            u = Under(it, 0 if lim is None else lim, faults=False)
            if lim is None:
                def no(*a):
                    fail(it, 'the input stream is read although the request '
                         'announces no usable length')
                st = stub(it, 'stream', read=host('read', no),
                          readline=host('readline', no))
                u.obj = lambda: st
            e = env(it, u, length, None)
            r = call(it, cls, e)
            cached = None
            for nm in names:
                k = len(u.data)
                done = lim is None or not it.less(0, sub(it, lim,
                                                         u.consumed))
                res = attempt(it, READS[nm], it, r)
                oblige(it, 2)
                if u.short and not done:
                    if res[0] != 'raise' or not is_exc(it, res[1], CD):
                        fail(it, '%s: a premature end of the body does not '
                             'surface as a client disconnect' % nm, res[2])
                    return
                if res[0] == 'raise':
                    if nm == 'get_data(as_text)' and \
                            is_exc(it, res[1], 'UnicodeError'):
                        fail(it, '%s raises %s for undecodable data' % (
                            nm, exc_name(res[1])), res[2])
                    fail(it, '%s raises %s' % (nm, exc_name(res[1])), res[2])
                v = it.facts.norm(res[1])
                got = u.data[k:]
                if lim is None:
                    if not same_val(it, v, '' if 'text' in nm else b''):
                        fail(it, '%s returns %s for a request without a '
                             'usable length' % (nm, show(v)))
                    continue
                if nm.startswith('get_data'):
                    if cached is not None:
                        if got:
                            fail(it, '%s reads the stream again although '
                                 'the data was cached' % nm)
                        want = cached
                    else:
                        if len(got) != 1:
                            fail(it, '%s made %d reads' % (nm, len(got)))
                        if not it.eq(u.consumed, lim):
                            fail(it, '%s does not read the whole announced '
                                 'body' % nm)
                        want = got[0]
                        if 'False' not in nm:
                            cached = want
                    if 'text' in nm:
                        want = meth(it, want, 'decode', 'utf-8', 'replace')
                else:
                    if len(got) != 1:
                        fail(it, '%s made %d reads' % (nm, len(got)))
                    want = got[0]
                if not same_val(it, v, want):
                    fail(it, '%s returns %s, the stream delivered %s' % (
                        nm, show(v), show(want)))
        return fn

    for length in ('text', 'absent'):
        for a in READS:
            out.append(Scen('length %s: %s' % (length, a),
                            body(Request, length, [a]), Request.qual))
            for b in READS:
                out.append(Scen('length %s: %s; %s' % (length, a, b),
                                body(Request, length, [a, b]), Request.qual))
    for a in READS:
        out.append(Scen('stream-only request: %s' % a,
                        body(Plain, 'text', [a]), Plain.qual))

    def never(it, what):
        def no(*a):
            fail(it, what)
        return stub(it, 'stream', read=host('read', no),
                    readline=host('readline', no))

    def shallow(nm):
        def fn(it):
            st = never(it, 'a shallow request reads its input stream')
            e = it.mk_dict({'REQUEST_METHOD': 'POST', 'wsgi.input': st,
                            'CONTENT_LENGTH': sym('content_length', 'str')})
            r = call(it, Request, e, populate_request=it.choose(2, 'pop') == 1,
                     shallow=True)
            res = attempt(it, READS[nm], it, r)
            require(it, res[0] == 'raise' and is_exc(it, res[1],
                                                     'RuntimeError'),
                    '%s on a shallow request does not raise RuntimeError'
                    % nm, res[2])
            items = it.call(it.getattr(e, 'keys'), [], {})
            for k in it.iterate(items):
                if k == 'verktyg.request':
                    fail(it, 'a shallow request stores itself in the '
                         'environment')
        return fn
    for a in READS:
        out.append(Scen('shallow: ' + a, shallow(a), Request.qual))

    def terminated(via):
        def fn(it):
            st = never(it, 'getting the stream reads it')
            t = it.choose(2, 'terminated')
            d = {'REQUEST_METHOD': 'POST', 'wsgi.input': st,
                 'wsgi.input_terminated': bool(t)}
            have = it.choose(2, 'content-length') == 1
            if have:
                d['CONTENT_LENGTH'] = sym('content_length', 'str')
            e = it.mk_dict(d)
            safe = True
            if via == 'helper':
                safe = it.choose(2, 'safe_fallback') == 1
                res = attempt(it, call, it, gis, e, safe)
            else:
                r = call(it, Request, e)
                res = attempt(it, it.getattr, r, 'stream')
            oblige(it)
            if res[0] == 'raise':
                fail(it, 'getting the stream raises %s' % exc_name(res[1]),
                     res[2])
            s = res[1]
            usable = limit_of(it, 'text') is not None if have else False
            if t:
                if s is not st:
                    fail(it, 'an input stream the server marks as terminated '
                         'is not handed out as it is')
                return
            if usable or safe:
                if s is st:
                    fail(it, 'the raw input stream is handed out unbounded')
                if not usable:
                    if not same_val(it, meth(it, s, 'read'), b''):
                        fail(it, 'without a usable length the stream is not '
                             'empty')
            elif s is not st:
                fail(it, 'safe_fallback=False does not hand out the raw '
                     'stream')
        return fn
    out.append(Scen('terminated: helper', terminated('helper'), gis.qual))
    out.append(Scen('terminated: request', terminated('request'), gis.qual))

    def length(via):
        def fn(it):
            have = it.choose(2, 'content-length') == 1
            d = {}
            if have:
                d['CONTENT_LENGTH'] = sym('content_length', 'str')
            e = it.mk_dict(d)
            if via == 'helper':
                res = attempt(it, call, it, gcl, e)
            else:
                res = attempt(it, it.getattr, call(it, Request, e),
                              'content_length')
            oblige(it)
            if res[0] == 'raise':
                fail(it, 'content length raises %s' % exc_name(res[1]),
                     res[2])
            want = limit_of(it, 'text') if have else None
            if not same_val(it, res[1], want):
                fail(it, 'content length is %s, announced %s' % (
                    show(res[1]), show(want)))
        return fn
    out.append(Scen('content length: helper', length('helper'), gcl.qual))
    out.append(Scen('content length: request', length('request'),
                    Request.qual))
    return out
