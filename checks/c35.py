"""C35: automatically computed Content-Length equals the bytes sent."""
from .resplib import *

RULE = ('Wherever a Content-Length is computed rather than supplied, the '
        'value term equals the sum of the lengths of the very byte strings '
        'the body iterator yields (text items counted after encoding), on '
        'every path; a supplied length is left alone.')
MIN_SCENARIOS = 6


def blen(it, items):
    out = 0
    for x in items:
        if it.ty(x) == 'str':
            x = call(it, it.getattr(x, 'encode'), 'utf-8')
        n = call(it, it.b('len'), x)
        out = it.binop(ast.Add(), out, n)
    return out


import ast      # noqa: E402


def scenarios(prog):
    out = []
    R = prog.get('verktyg.responses.Response')
    BR = prog.get('verktyg.responses.BaseResponse')

    def same_num(it, a, b):
        a, b = it.facts.norm(a), it.facts.norm(b)
        if isinstance(a, Term) and a.op == 'str':
            a = it.facts.norm(a.args[0])
        elif isinstance(a, str):
            try:
                a = int(a)
            except ValueError:
                return False
        return it.facts.decide_eq(a, b) is True

    def length_of(it, hdrs):
        return [v for k, v in hdrs if isinstance(k, str)
                and k.lower() == 'content-length']

    def wsgi(cls, mk, how):
        def fn(it):
            items = mk(it)
            env = environ(it, 'GET')
            body = it.mk_list(items) if how != 'tuple' else Tup(items)
            r = call(it, cls, body)
            s = Start()
            res = call(it, r, env, s.func())
            got = [it.facts.norm(x) for x in it.iterate(res)]
            cl = length_of(it, headers_of(it, s.calls[0][1]))
            oblige(it)
            want = blen(it, got)
            if len(cl) > 1:
                fail(it, 'several Content-Length headers')
            if cl and not same_num(it, cl[0], want):
                fail(it, 'Content-Length %s is not the number of bytes sent '
                     '(%s)' % (show(cl[0]), show(want)))
        return fn

    def mk_text(it):
        return [sym('t0', 'str'), sym('t1', 'str')]

    def mk_mixed(it):
        return [sym('b0', 'bytes'), sym('t1', 'str')]

    def mk_bytes(it):
        return [sym('b0', 'bytes'), sym('b1', 'bytes')]

    for cls in (BR, R):
        for n, mk in (('text', mk_text), ('mixed', mk_mixed),
                      ('bytes', mk_bytes)):
            for how in ('list', 'tuple'):
                out.append(Scen('%s served from %s of %s' % (
                    cls.name, how, n), wsgi(cls, mk, how), cls.qual))

    def data(ty):
        def fn(it):
            v = sym('data', ty)
            how = it.choose(5, 'constructor or set_data')
            if how == 0:
                r = call(it, R, v)
            elif how == 1:
                r = call(it, R)
                meth(it, r, 'set_data', v)
            else:
                r = call(it, R, sym('old', ('str', 'bytes')[it.choose(
                    2, 'old')]))
                if how == 2:
                    meth(it, r, 'set_data', v)
                elif how == 3:
                    it.setattr(r, 'data', v)
                else:
                    meth(it, r, 'freeze')
                    meth(it, r, 'set_data', v)
            s = Start()
            res = call(it, r, environ(it, 'GET'), s.func())
            got = [it.facts.norm(x) for x in it.iterate(res)]
            cl = length_of(it, headers_of(it, s.calls[0][1]))
            oblige(it)
            if len(cl) != 1 or not same_num(it, cl[0], blen(it, got)):
                fail(it, 'Content-Length after set_data(%s) is %s, bytes '
                     'sent %s' % (ty, [show(x) for x in cl],
                                  show(blen(it, got))))
        return fn
    for ty in ('str', 'bytes'):
        out.append(Scen('set_data(%s)' % ty, data(ty), R.qual))

    def calc(mk):
        def fn(it):
            items = mk(it)
            r = call(it, R, it.mk_list(items))
            n = meth(it, r, 'calculate_content_length')
            want = blen(it, items)
            oblige(it)
            if not same_num(it, n, want):
                fail(it, 'calculate_content_length() gives %s for a body of '
                     '%s bytes' % (show(n), show(want)))
        return fn
    out.append(Scen('calculate_content_length text', calc(mk_text), R.qual))
    out.append(Scen('calculate_content_length mixed', calc(mk_mixed), R.qual))

    def freeze(it):
        items = mk_mixed(it)
        r = call(it, BR, it.mk_list(items))
        meth(it, r, 'freeze')
        cl = meth(it, it.getattr(r, 'headers'), 'get', 'content-length')
        oblige(it)
        if not same_num(it, cl, blen(it, items)):
            fail(it, 'freeze() announces %s' % show(cl))
    out.append(Scen('freeze', freeze, BR.qual))

    def stream(how):
        def fn(it):
            items = mk_mixed(it)
            c = ClassV('Mine', [R], {
                'implicit_sequence_conversion': False,
                'automatically_set_content_length': it.choose(
                    2, 'automatic length') == 1}, kind='repo')
            r = call(it, c, call(it, it.b('iter'), it.mk_list(items)))
            meth(it, r, how)
            s = Start()
            res = call(it, r, environ(it, 'GET'), s.func())
            got = [it.facts.norm(x) for x in it.iterate(res)]
            cl = length_of(it, headers_of(it, s.calls[0][1]))
            oblige(it, 2)
            if not same_num(it, blen(it, got), blen(it, items)):
                fail(it, '%s() loses a part of the body' % how)
            if how == 'freeze' and len(cl) != 1 or cl and not same_num(
                    it, cl[0], blen(it, got)):
                fail(it, '%s() of a stream announces %s, %s bytes are sent'
                     % (how, [show(x) for x in cl], show(blen(it, got))))
        return fn
    for how in ('freeze', 'make_sequence'):
        out.append(Scen('%s of a stream' % how, stream(how), R.qual))

    def cond(it):
        items = mk_mixed(it)
        r = call(it, R, it.mk_list(items))
        env = it.mk_dict({'REQUEST_METHOD': sym('method', 'str')})
        meth(it, r, 'make_conditional', env)
        cl = meth(it, it.getattr(r, 'headers'), 'get', 'content-length')
        oblige(it)
        if cl is not None and not same_num(it, cl, blen(it, items)):
            fail(it, 'make_conditional() announces %s' % show(cl))
    out.append(Scen('make_conditional', cond, R.qual))

    def given(it):
        v = sym('given', 'str')
        for ch in '\r\n':
            if it.contains(v, ch):
                raise Pruned('newline')
        r = call(it, R, it.mk_list(mk_mixed(it)))
        meth(it, it.getattr(r, 'headers'), 'set', 'Content-Length', v)
        s = Start()
        call(it, r, environ(it, 'GET'), s.func())
        cl = length_of(it, headers_of(it, s.calls[0][1]))
        oblige(it)
        if len(cl) != 1 or not same_val(it, cl[0], v):
            fail(it, 'an explicit Content-Length is replaced')
    out.append(Scen('explicit length kept', given, R.qual))

    def stream_write(it):
        r = call(it, R, sym('data', 'bytes'))
        st = it.getattr(r, 'stream')
        meth(it, st, 'write', sym('more', 'bytes'))
        s = Start()
        res = call(it, r, environ(it, 'GET'), s.func())
        got = [it.facts.norm(x) for x in it.iterate(res)]
        cl = length_of(it, headers_of(it, s.calls[0][1]))
        oblige(it)
        if cl and not same_num(it, cl[0], blen(it, got)):
            fail(it, 'after writing to response.stream Content-Length is %s '
                 'but %s bytes are sent' % (show(cl[0]),
                                            show(blen(it, got))))
    out.append(Scen('response.stream', stream_write, R.qual))
    return out
