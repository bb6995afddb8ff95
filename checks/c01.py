"""C01: stored response/request header values never contain CR or LF."""
from .lib import *

RULE = ('For every public write operation of the header container, from an '
        'arbitrary already-valid container, every exit path (normal or '
        'exceptional) leaves only values whose text provably contains neither '
        'CR nor LF (string domain over the guards passed on that path).')
MIN_SCENARIOS = 20


def prefilled(it, prog, n=1):
    H = prog.get('verktyg.http.basic.Headers')
    h = call(it, H)
    for i in range(n):
        r = attempt(it, meth, it, h, 'add', sym('oldkey%d' % i, 'str'),
                    sym('oldval%d' % i, 'str'))
        if r[0] == 'raise':
            raise Pruned('invalid initial value')
    return h


def check_state(it, h, what):
    for entry in it.iterate(h):
        entry = it.facts.norm(entry)
        v = it.getitem(entry, 1)
        v = it.facts.norm(v)
        oblige(it)
        v = text_form(it, v)
        for ch, nm in (('\n', 'LF'), ('\r', 'CR')):
            st = strdom.status(v, ch, it.facts)
            if st == 'unknown':
                raise Unsupported('unrecognised guard on header value')
            if st == 'may':
                fail(it, '%s can store a value containing %s: no path guard '
                     'excludes it from %s' % (what, nm, show(v)))


def text_form(it, v):
    ty = it.ty(v)
    if ty == 'str':
        return v
    if ty is None and isinstance(v, Term):
        # constructor keeps foreign objects: their text form counts
        ty = 'bytes' if it.isinstance_(v, it.b('bytes')) else (
            'str' if it.isinstance_(v, it.b('str')) else 'any')
        if ty == 'str':
            return v
    if ty == 'bytes':
        if isinstance(v, bytes):
            return v.decode('latin1')
        return call(it, it.getattr(v, 'decode'), 'latin-1')
    return it.facts.norm(call(it, it.b('str'), v))


def vals(it):
    return {'str': sym('newval', 'str'), 'bytes': sym('newval', 'bytes'),
            'int': sym('newval', 'int'), 'any': sym('newval')}


CONST = ('a\nb', 'a\rb', 'a\r\nb', 'a\n b', 'a\n\tb', 'a\r\n b', 'a\r b', '\n',
         '\r', 'a\n', 'a\r', '\na', '\ra', 'a\r\n', 'a\n\nb', 'a: b\nc: d',
         '"a\nb"', 'a\x0b\nb', 'a;\n b=c', '\xff\n', b'a\nb', b'a\n b', b'\r')


def scenarios(prog):
    out = []

    def add(name, op, n=1):
        def fn(it):
            h = prefilled(it, prog, n)
            r = attempt(it, op, it, h)
            check_state(it, h, name)
            if r[0] == 'ok' and isinstance(r[1], Obj) and r[1] is not h and \
                    r[1].cls.is_sub(prog.get('verktyg.http.basic.Headers')):
                check_state(it, r[1], name + ' result')
        out.append(Scen(name, fn, 'verktyg.http.basic.Headers'))

    H = prog.get('verktyg.http.basic.Headers')
    k = sym('newkey', 'str')
    for vt in ('str', 'bytes', 'int', 'any'):
        v = sym('newval', None if vt == 'any' else vt)
        add('add(%s)' % vt, lambda it, h, v=v: meth(it, h, 'add', k, v))
        add('set(%s)' % vt, lambda it, h, v=v: meth(it, h, 'set', k, v), 2)
        add('setitem-key(%s)' % vt,
            lambda it, h, v=v: it.setitem(h, k, v))
        add('setitem-index(%s)' % vt,
            lambda it, h, v=v: it.setitem(h, 0, Tup((k, v))))
        add('setitem-slice(%s)' % vt,
            lambda it, h, v=v: it.setitem(
                h, SliceV(None, None, None),
                it.mk_list([Tup((k, v)), Tup((sym('k2', 'str'),
                                              sym('v2', 'str')))])))
        add('setdefault(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'setdefault', k, v))
        add('extend-list(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'extend',
                                    it.mk_list([Tup((k, v))])))
        add('extend-dict(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'extend', it.mk_dict({k: v})))
        add('extend-dict-list(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'extend', it.mk_dict(
                {k: it.mk_list([v, sym('v2', 'str')])})))
        add('construct-list(%s)' % vt,
            lambda it, h, v=v: call(it, H, it.mk_list([Tup((k, v))])))
        add('construct-dict(%s)' % vt,
            lambda it, h, v=v: call(it, H, it.mk_dict({k: v})))
        add('construct-tuple(%s)' % vt,
            lambda it, h, v=v: call(it, H, Tup((Tup((k, v)),))))
        add('add-options(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'add', k, sym('main', 'str'),
                                    opt=v))
        add('set-options(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'set', k, sym('main', 'str'),
                                    opt=v))
        add('add_header(%s)' % vt,
            lambda it, h, v=v: meth(it, h, 'add_header', k, v))
    add('construct-Headers', lambda it, h: call(it, H, h), 2)
    add('copy', lambda it, h: meth(it, h, 'copy'), 2)
    add('slice', lambda it, h: it.getitem(h, SliceV(0, 1, None)), 2)
    add('delete', lambda it, h: it.delitem(h, k), 2)
    add('pop', lambda it, h: meth(it, h, 'pop', k), 2)

    # constants: decided also where a guard is not recognised as one
    ops = {
        'add': lambda it, h, v: meth(it, h, 'add', 'X', v),
        'set': lambda it, h, v: meth(it, h, 'set', 'X', v),
        'index': lambda it, h, v: it.setitem(h, 0, Tup(('X', v))),
        'construct': lambda it, h, v: call(it, H, it.mk_list(
            [Tup(('X', v))])),
        'options': lambda it, h, v: meth(it, h, 'add', 'X', 'm', opt=v),
    }
    for n, op in ops.items():
        def const(it, n=n, op=op):
            v = CONST[it.choose(len(CONST), 'value')]
            h = call(it, H)
            meth(it, h, 'add', 'Old', 'x')
            r = attempt(it, op, it, h, v)
            objs = [h] + ([r[1]] if r[0] == 'ok' and isinstance(r[1], Obj)
                          else [])
            for o in objs:
                for item in it.iterate(o):
                    w = it.facts.norm(it.getitem(item, 1))
                    oblige(it)
                    if isinstance(w, str) and ('\n' in w or '\r' in w):
                        fail(it, '%s stores %r' % (n, w))
        out.append(Scen('constants: ' + n, const, H.qual))
    return out
