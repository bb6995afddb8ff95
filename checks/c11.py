"""C11: bodyless responses carry no body and matching headers."""
from .resplib import *

RULE = ('For every status code and request method, along every path of '
        'serving a response: HEAD requests and 1xx/204/304 statuses yield no '
        'body item, all others yield exactly the encoded items in order; '
        '1xx/204 announce a zero length; 304 drops exactly the entity '
        'headers other than Expires and Content-Location; start_response is '
        'called exactly once, with the status line of the response.')
MIN_SCENARIOS = 8

ENTITY = ['Allow', 'Content-Encoding', 'Content-Language', 'Content-Length',
          'Content-MD5', 'Content-Range', 'Content-Type', 'Last-Modified']
KEEP = ['Expires', 'Content-Location', 'ETag', 'Set-Cookie', 'Cache-Control',
        'Vary', 'Date', 'X-Custom']


def classify(it, status, method):
    head = it.eq(method, 'HEAD')
    info = in_range(it, status, 100, 200)
    nc = it.eq(status, 204)
    nm = it.eq(status, 304)
    return head, info, nc, nm


def scenarios(prog):
    out = []
    R = prog.get('verktyg.responses.Response')
    BR = prog.get('verktyg.responses.BaseResponse')

    def serve(it, cls, kind, pre=(), passthrough=False):
        m = sym('method', 'str')
        st = sym('status', 'int')
        env = environ(it, m)
        t0, b1 = sym('text0', 'str'), sym('bytes1', 'bytes')
        items = [t0, b1]
        if kind == 'list':
            body = it.mk_list(items)
        elif kind == 'tuple':
            body = Tup(items)
        else:
            body = IterV(iter(items), 'iterator')
        r = call(it, cls, body, st, direct_passthrough=passthrough)
        hs = it.getattr(r, 'headers')
        for k in pre:
            meth(it, hs, 'set', k, 'val')
        s = Start()
        res = call(it, r, env, s.func())
        got = [it.facts.norm(x) for x in it.iterate(res)]
        cat = classify(it, st, m)
        return r, st, m, s, got, items, cat

    def body(kind, cls, passthrough=False):
        def fn(it):
            r, st, m, s, got, items, cat = serve(it, cls, kind,
                                                 passthrough=passthrough)
            oblige(it, 2)
            if len(s.calls) != 1:
                fail(it, 'start_response called %d times' % len(s.calls))
            if any(cat):
                if got:
                    fail(it, 'a body item is sent for %s' % (
                        'a HEAD request' if cat[0] else
                        'an informational status' if cat[1] else
                        '204' if cat[2] else '304'))
            else:
                want = [x if passthrough or it.ty(x) == 'bytes' else
                        call(it, it.getattr(x, 'encode'), 'utf-8')
                        for x in items]
                if len(got) != len(want) or not all(
                        same_val(it, a, b) for a, b in zip(got, want)):
                    fail(it, 'body sent is %s, expected %s' % (
                        [show(x) for x in got], [show(x) for x in want]))
            line = it.facts.norm(s.calls[0][0])
            if not same_val(it, line, it.getattr(r, 'status')):
                fail(it, 'status line passed on is %s' % show(line))
            hdrs = headers_of(it, s.calls[0][1])
            cl = [v for k, v in hdrs if isinstance(k, str)
                  and k.lower() == 'content-length']
            if cat[1] or cat[2]:
                if len(cl) != 1 or cl[0] != '0':
                    fail(it, 'bodyless status announces Content-Length %s'
                         % [show(x) for x in cl])
            if cat[3] and cl:
                fail(it, '304 response announces a Content-Length')
        return fn

    for cls in (BR, R):
        for kind in ('list', 'tuple', 'iterator'):
            out.append(Scen('%s body: %s' % (cls.name, kind),
                            body(kind, cls), cls.qual))
        out.append(Scen('%s body: passthrough' % cls.name,
                        body('iterator', cls, True), cls.qual))

    def hdr304(it):
        keep = [k for k in KEEP if k != 'Content-Location']
        r, st, m, s, got, items, cat = serve(it, R, 'list', ENTITY + keep)
        names = [k.lower() for k, v in headers_of(it, s.calls[0][1])
                 if isinstance(k, str)]
        oblige(it)
        if cat[3]:
            for e in ENTITY:
                if e.lower() in names:
                    fail(it, '304 response still carries %s' % e)
            for e in keep:
                if e.lower() not in names:
                    fail(it, '304 response lost %s' % e)
        else:
            for e in ENTITY + keep:
                if e.lower() not in names:
                    fail(it, 'response lost header %s' % e)
    out.append(Scen('304 entity headers', hdr304, R.qual))

    def hdrcase(it):
        m, st = sym('method', 'str'), sym('status', 'int')
        r = call(it, R, it.mk_list([]), st)
        k = sym('anykey', 'str')
        low = call(it, it.getattr(k, 'lower'))
        names = [e.lower() for e in ENTITY + KEEP if e != 'Content-Location']
        name = names[it.choose(len(names), 'header class')]
        it.facts.assume_eq(low, name, True)
        hs = it.getattr(r, 'headers')
        meth(it, hs, 'set', k, 'val')
        s = Start()
        call(it, r, environ(it, m), s.func())
        got = headers_of(it, s.calls[0][1])
        oblige(it)
        there = any(x is k for x, _ in got)
        nm = it.eq(st, 304)
        ent = name in [e.lower() for e in ENTITY]
        if nm and ent and there:
            fail(it, '304 response keeps an entity header (%s) written in '
                 'unusual case' % name)
        if not (nm and ent) and not there and name != 'content-length':
            fail(it, 'header %s lost' % name)
    out.append(Scen('304 header case', hdrcase, R.qual))

    # the two header filters exposed as API
    def filt(fname, drop_names, keep_names):
        f = prog.get('verktyg.http.basic.' + fname)

        def fn(it):
            names = [e.lower() for e in drop_names + keep_names]
            name = names[it.choose(len(names), 'header class')]
            k = sym('anykey', 'str')
            it.facts.assume_eq(call(it, it.getattr(k, 'lower')), name, True)
            lst = it.mk_list([Tup(('X-A', '1')), Tup((k, 'v')),
                              Tup(('X-B', '2'))])
            call(it, f, lst)
            keys = [x for x, _ in headers_of(it, lst)]
            oblige(it)
            if keys[:1] != ['X-A'] or keys[-1:] != ['X-B']:
                fail(it, '%s removes unrelated headers' % fname)
            drop = name in [e.lower() for e in drop_names]
            if drop == any(x is k for x in keys):
                fail(it, '%s %s %s' % (fname, 'keeps' if drop else 'drops',
                                       name))
        return fn
    out.append(Scen('remove_entity_headers', filt(
        'remove_entity_headers', ENTITY, KEEP), 'remove_entity_headers'))
    out.append(Scen('remove_hop_by_hop_headers', filt(
        'remove_hop_by_hop_headers',
        ['Connection', 'Keep-Alive', 'Proxy-Authenticate',
         'Proxy-Authorization', 'TE', 'Trailer', 'Transfer-Encoding',
         'Upgrade'], ENTITY + KEEP), 'remove_hop_by_hop_headers'))
    return out
