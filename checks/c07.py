"""C07: structured response header views write through to their header."""
from .lib import *
from .mdlib import same_val

RULE = ('For every structured view a response offers of one of its headers, '
        'for every mutation of the view, on every normal path the response '
        'then carries exactly the serialisation of the view under that '
        'header name - and no such header if the view became empty - while '
        'no other header changes.')
MIN_SCENARIOS = 30

NK, NV, H = sym('nk', 'str'), sym('nv', 'str'), sym('hdr', 'str')

VIEWS = {
    'cache_control': ('Cache-Control', [
        ('setitem', lambda it, v: it.setitem(v, NK, NV)),
        ('max_age=', lambda it, v: it.setattr(v, 'max_age', sym('n', 'int'))),
        ('no_store=True', lambda it, v: it.setattr(v, 'no_store', True)),
        ('no_store=False', lambda it, v: it.setattr(v, 'no_store', False)),
        ('public=True', lambda it, v: it.setattr(v, 'public', True)),
        ('clear', lambda it, v: meth(it, v, 'clear')),
        ('update', lambda it, v: meth(it, v, 'update',
                                      it.mk_dict({NK: NV}))),
        ('pop', lambda it, v: meth(it, v, 'pop', NK, None)),
    ]),
    'vary': ('Vary', [
        ('add', lambda it, v: meth(it, v, 'add', NV)),
        ('discard', lambda it, v: meth(it, v, 'discard', NV)),
        ('clear', lambda it, v: meth(it, v, 'clear')),
        ('update', lambda it, v: meth(it, v, 'update', it.mk_list([NV]))),
    ]),
    'content_language': ('Content-Language', [
        ('add', lambda it, v: meth(it, v, 'add', NV)),
        ('clear', lambda it, v: meth(it, v, 'clear')),
    ]),
    'allow': ('Allow', [
        ('add', lambda it, v: meth(it, v, 'add', NV)),
        ('discard', lambda it, v: meth(it, v, 'discard', NV)),
        ('clear', lambda it, v: meth(it, v, 'clear')),
    ]),
    'www_authenticate': ('WWW-Authenticate', [
        ('set_basic', lambda it, v: meth(it, v, 'set_basic', NV)),
        ('set_digest', lambda it, v: meth(it, v, 'set_digest', NV,
                                          sym('nonce', 'str'))),
        ('realm=', lambda it, v: it.setattr(v, 'realm', NV)),
        ('clear', lambda it, v: meth(it, v, 'clear')),
        ('pop', lambda it, v: meth(it, v, 'pop', NK, None)),
    ]),
    'content_range': ('Content-Range', [
        ('set', lambda it, v: meth(it, v, 'set', sym('a', 'int'),
                                   sym('b', 'int'), sym('c', 'int'))),
        ('unset', lambda it, v: meth(it, v, 'unset')),
        ('units=', lambda it, v: it.setattr(v, 'units', NV)),
    ]),
}


def snap(it, h):
    out = []
    for e in it.iterate(h):
        out.append((it.facts.norm(it.getitem(e, 0)),
                    it.facts.norm(it.getitem(e, 1))))
    return out


def valid(it, v):
    """assume the text is a legal header value"""
    for ch in '\r\n':
        if it.contains(v, ch):
            raise Pruned('newline in value')


def others(it, entries, name):
    return [(k, v) for k, v in entries
            if not (isinstance(k, str) and k.lower() == name.lower())]


def check(it, resp, view, header, what, before):
    hs = it.getattr(resp, 'headers')
    after = snap(it, hs)
    oblige(it, 2)
    mine = [v for k, v in after if isinstance(k, str)
            and k.lower() == header.lower()]
    ob, oa = others(it, before, header), others(it, after, header)
    if len(ob) != len(oa) or any(
            not (same_val(it, a[0], b[0]) and same_val(it, a[1], b[1]))
            for a, b in zip(ob, oa)):
        fail(it, '%s changes a header other than %s' % (what, header))
    if not it.truth(view):
        if mine:
            fail(it, '%s: the view is empty but the response still has a %s '
                 'header' % (what, header))
        return
    want = it.facts.norm(meth(it, view, 'to_header'))
    if len(mine) != 1:
        fail(it, '%s: response has %d %s headers after the change' % (
            what, len(mine), header))
    if not same_val(it, mine[0], want):
        fail(it, '%s: %s header is %s, view serialises to %s' % (
            what, header, show(mine[0]), show(want)))


def response(it, prog, preset=None):
    R = prog.get('verktyg.responses.Response')
    r = call(it, R)
    hs = it.getattr(r, 'headers')
    meth(it, hs, 'add', 'X-Other', 'keep')
    if preset is not None:
        meth(it, hs, 'add', preset[0], preset[1])
    return r


def scenarios(prog):
    out = []
    for attr, (header, ops) in VIEWS.items():
        for n, op in ops:
            for preset in (False, True):
                def fn(it, attr=attr, header=header, n=n, op=op,
                       preset=preset):
                    valid(it, NV)
                    valid(it, NK)
                    valid(it, H)
                    it.LOOP_K = 1
                    if preset and not it.truth(H):
                        raise Pruned('empty header')
                    r = response(it, prog, (header, H) if preset else None)
                    before = snap(it, it.getattr(r, 'headers'))
                    v = it.getattr(r, attr)
                    ev = []

                    def watch(it2, func, args, kw):
                        return None
                    a0 = state(it, v)
                    res = attempt(it, op, it, v)
                    if res[0] == 'raise':
                        # refused (invalid range, newline): nothing to show
                        return
                    if same_state(it, a0, state(it, v)) and not preset:
                        pass
                    elif same_state(it, a0, state(it, v)):
                        return      # unchanged view need not rewrite
                    check(it, r, v, header, 'response.%s.%s' % (attr, n),
                          before)
                out.append(Scen('%s.%s%s' % (attr, n,
                                             ' (preset)' if preset else ''),
                                fn, 'verktyg.responses.Response.' + attr,
                                max_paths=1500))
    # direct assignment of whole values
    for attr, header in (('vary', 'Vary'), ('allow', 'Allow'),
                         ('content_language', 'Content-Language'),
                         ('content_range', 'Content-Range')):
        def fn(it, attr=attr, header=header):
            valid(it, NV)
            r = response(it, prog, (header, 'old'))
            before = snap(it, it.getattr(r, 'headers'))
            mode = it.choose(3, 'value kind')
            val = [NV, None, it.mk_list([NV])][mode]
            if attr == 'content_range' and mode == 2:
                return
            it.setattr(r, attr, val)
            hs = it.getattr(r, 'headers')
            after = snap(it, hs)
            mine = [v for k, v in after if isinstance(k, str)
                    and k.lower() == header.lower()]
            oblige(it)
            empty = mode == 1 or (mode == 0 and not it.truth(NV))
            if empty and mine:
                fail(it, 'clearing response.%s leaves the header' % attr)
            if not empty and len(mine) != 1:
                fail(it, 'assigning response.%s yields %d headers' % (
                    attr, len(mine)))
            if not empty and mode == 0 and not same_val(it, mine[0], NV):
                fail(it, 'assigning response.%s stores %s' % (
                    attr, show(mine[0])))
            if len(others(it, before, header)) != len(
                    others(it, after, header)):
                fail(it, 'assigning response.%s changes other headers' % attr)
        out.append(Scen('%s=' % attr, fn, 'verktyg.responses.Response'))

    def mp(it):
        valid(it, NV)
        valid(it, NK)
        r = response(it, prog)
        v = it.getattr(r, 'mimetype_params')
        res = attempt(it, it.setitem, v, NK, NV)
        if res[0] == 'raise':
            return
        ct = it.facts.norm(meth(it, it.getattr(r, 'headers'), 'get',
                                'content-type'))
        want = call(it, prog.get('verktyg.http.basic.dump_options_header'),
                    'text/plain', v)
        oblige(it)
        if not same_val(it, ct, want):
            fail(it, 'mimetype_params change gives Content-Type %s, expected '
                 '%s' % (show(ct), show(want)))
    out.append(Scen('mimetype_params', mp, 'verktyg.responses.Response',
                    max_paths=1500))

    def tag(it):
        r = response(it, prog)
        t = sym('tag', 'str')
        for ch in '"\r\n':
            it.facts.truth[Term('in', (ch, t), 'bool')] = False
        weak = it.choose(2, 'weak') == 1
        res = attempt(it, meth, it, r, 'set_etag', t, weak)
        if res[0] == 'raise':
            return
        oblige(it, 2)
        v = [it.facts.norm(x) for x in it.iterate(meth(it, r, 'get_etag'))]
        if len(v) != 2 or v[1] is not weak or not it.eq(v[0], t):
            fail(it, 'the entity tag (%s, weak=%s) is read back as %s' % (
                show(t), weak, [show(x) for x in v]))
    out.append(Scen('entity tag', tag, 'verktyg.responses.Response'))
    return out


def state(it, v):
    if isinstance(v.data, DictData):
        return [(it.facts.norm(k), it.facts.norm(x))
                for k, x in v.data.items.items()]
    if it.user_method(v, '__iter__') is not None:
        return [it.facts.norm(x) for x in it.iterate(v)]
    return [it.facts.norm(it.getattr(v, a))
            for a in ('units', 'start', 'stop', 'length')]


def same_state(it, a, b):
    if len(a) != len(b):
        return False
    return all(same_val(it, x, y) if not isinstance(x, tuple) else
               (x[0] is y[0] and same_val(it, x[1], y[1]))
               for x, y in zip(a, b))
