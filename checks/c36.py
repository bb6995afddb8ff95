"""C36: header collections are ordered, case-insensitive multi-maps."""
import ast
import itertools
from .mdlib import *

RULE = ('From every abstract content of up to three headers (all patterns of '
        'names being equal apart from case), every operation and every '
        'sequence of two operations of the header collection leaves all '
        'read views in agreement with the association list the documentation '
        'describes; the environment view shows exactly the header variables '
        'of the environment.')
MIN_SCENARIOS = 100
H = 'verktyg.http.basic.Headers'
NK, NV, NV2 = sym('nk', 'str'), sym('nv', 'str'), sym('nv2', 'str')
DEF = sym('dflt', 'str')
LF = ('\n', '\r')


def low(it, k):
    return it.facts.norm(it.call(it.getattr(k, 'lower'), [], {}))


def keq(it, a, b):
    a, b = it.facts.norm(a), it.facts.norm(b)
    if a is b:
        return True
    return it.eq(low(it, a), low(it, b))


def h_list(it, m, k):
    return [v for x, v in m if keq(it, k, x)]


def h_del(it, m, k):
    return [(x, v) for x, v in m if not keq(it, k, x)]


def h_set(it, m, k, v):
    out, done = [], False
    for x, w in m:
        if keq(it, x, k):
            if not done:
                out.append((k, v))
                done = True
        else:
            out.append((x, w))
    return out if done else out + [(k, v)]


def clean(it, *vs):
    for v in vs:
        if isinstance(v, Term):
            for c in LF:
                it.facts.truth[Term('in', (c, v), 'bool')] = False


def want(it, r, what):
    oblige(it)
    if r[0] != 'ok':
        fail(it, '%s raises %s' % (what, exc_name(r[1])), r[2])


def missing(it, r, what, cls='KeyError'):
    oblige(it)
    if r[0] != 'raise' or not is_exc(it, r[1], cls):
        fail(it, '%s does not raise %s' % (what, cls), r[2])


def op_add(it, h, m):
    meth(it, h, 'add', NK, NV)
    return m + [(NK, NV)]


def op_add_header(it, h, m):
    meth(it, h, 'add_header', NK, NV)
    return m + [(NK, NV)]


def op_set(it, h, m):
    meth(it, h, 'set', NK, NV)
    return h_set(it, m, NK, NV)


def op_setitem(it, h, m):
    it.setitem(h, NK, NV)
    return h_set(it, m, NK, NV)


def op_setdefault(it, h, m):
    r = meth(it, h, 'setdefault', NK, NV)
    vs = h_list(it, m, NK)
    oblige(it)
    if not same_val(it, r, vs[0] if vs else NV):
        fail(it, 'setdefault() returns %s' % show(r))
    return m if vs else m + [(NK, NV)]


def op_extend_list(it, h, m):
    meth(it, h, 'extend', it.mk_list([Tup((NK, NV)), Tup((NK, NV2))]))
    return m + [(NK, NV), (NK, NV2)]


def op_extend_dict(it, h, m):
    meth(it, h, 'extend', it.mk_dict({NK: NV}))
    return m + [(NK, NV)]


def op_extend_dict_list(it, h, m):
    src = it.mk_list([NV, NV2]) if it.choose(2, 'list') else Tup((NV, NV2))
    meth(it, h, 'extend', it.mk_dict({NK: src}))
    return m + [(NK, NV), (NK, NV2)]


def op_extend_headers(it, h, m):
    o = make(it, it.prog, [(NK, NV), (sym('k0', 'str'), NV2)])
    meth(it, h, 'extend', o)
    return m + [(NK, NV), (sym('k0', 'str'), NV2)]


def op_del(it, h, m):
    if it.choose(2, 'how'):
        it.delitem(h, NK)
    else:
        meth(it, h, 'remove', NK)
    return h_del(it, m, NK)


def op_pop(it, h, m):
    vs = h_list(it, m, NK)
    d = it.choose(2, 'default')
    r = attempt(it, meth, it, h, 'pop', NK, *([DEF] if d else []))
    if not vs and not d:
        missing(it, r, 'pop of an absent header')
        return m
    want(it, r, 'pop')
    if not same_val(it, r[1], vs[0] if vs else DEF):
        fail(it, 'pop() returns %s' % show(r[1]))
    return h_del(it, m, NK)


def op_popitem(it, h, m):
    name, args = (('popitem', []), ('pop', []), ('pop', [0]), ('pop', [-1])
                  )[it.choose(4, 'how')]
    r = attempt(it, meth, it, h, name, *args)
    if not m:
        missing(it, r, 'pop from no headers', 'LookupError')
        return m
    want(it, r, name)
    i = 0 if args == [0] else len(m) - 1
    k, v = pair(it, r[1])
    if not same_val(it, k, m[i][0]) or not same_val(it, v, m[i][1]):
        fail(it, '%s() returns (%s, %s)' % (name, show(k), show(v)))
    return m[:i] + m[i + 1:]


def op_clear(it, h, m):
    meth(it, h, 'clear')
    return []


def op_set_index(it, h, m):
    if not m:
        return m
    it.setitem(h, 0, Tup((NK, NV)))
    return [(NK, NV)] + m[1:]


def op_set_slice(it, h, m):
    it.setitem(h, SliceV(0, 1, None), it.mk_list([Tup((NK, NV)), Tup(
        ('x', NV2))]))
    return [(NK, NV), ('x', NV2)] + m[1:]


def op_del_index(it, h, m):
    if it.choose(2, 'slice'):
        it.delitem(h, SliceV(0, 2, None))
        return m[2:]
    if not m:
        return m
    it.delitem(h, 0)
    return m[1:]


def op_copy(it, h, m):
    c = meth(it, h, ('copy', '__copy__')[it.choose(2, 'how')])
    verify(it, c, m, 'a copy')
    meth(it, c, 'add', NK, NV)
    return m


def op_slice(it, h, m):
    c = it.getitem(h, SliceV(0, 1, None))
    verify(it, c, m[:1], 'a slice')
    return m


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith('op_')}


def make(it, prog, pairs, how=0):
    cls = prog.get(H)
    ps = it.mk_list([Tup(p) for p in pairs])
    if how == 1:
        ps = it.call(prog.builtins['iter'], [ps], {})
    if how == 2:
        ps = call(it, cls, ps)
    return call(it, cls, ps)


def verify(it, h, m, what, other=NK):
    def bad(view, got, want):
        fail(it, '%s: %s gives %s, the headers are %s' % (
            what, view, show_any(got), show_any(want)))

    def pairs(v):
        return [pair(it, x) for x in it.iterate(v)]

    def same(got, want):
        return len(got) == len(want) and all(
            same_val(it, a[0], b[0]) and same_val(it, a[1], b[1])
            for a, b in zip(got, want))
    lm = [(low(it, k), v) for k, v in m]
    oblige(it, 6)
    for view, got, w in (
            ('iteration', pairs(h), m),
            ('items()', pairs(meth(it, h, 'items')), m),
            ('items(lower=True)', pairs(meth(it, h, 'items', lower=True)),
             lm),
            ('to_wsgi_list()', pairs(meth(it, h, 'to_wsgi_list')), m)):
        if not same(got, w):
            bad(view, got, w)
    got = seq(it, meth(it, h, 'keys'))
    if not same_seq(it, got, [k for k, _ in m]):
        bad('keys()', got, m)
    got = seq(it, meth(it, h, 'keys', lower=True))
    if not same_seq(it, got, [k for k, _ in lm]):
        bad('keys(lower=True)', got, m)
    got = seq(it, meth(it, h, 'values'))
    if not same_seq(it, got, [v for _, v in m]):
        bad('values()', got, m)
    n = it.facts.norm(call(it, it.b('len'), h))
    if n != len(m):
        bad('len()', n, m)
    for i, (k, v) in enumerate(m):
        oblige(it)
        g = pair(it, it.getitem(h, i))
        if not same([g], [(k, v)]):
            bad('[%d]' % i, g, m)
    for k in [k for k, _ in m] + [low(it, k) for k, _ in m] + [other]:
        vs = h_list(it, m, k)
        oblige(it, 5)
        if it.contains(h, k) != bool(vs):
            bad('membership of %s' % show(k), not vs, m)
        for n in ('getlist', 'get_all'):
            got = seq(it, meth(it, h, n, k))
            if not same_seq(it, got, vs):
                bad('%s(%s)' % (n, show(k)), got, m)
        r = attempt(it, it.getitem, h, k)
        if not vs:
            missing(it, r, 'subscript with an absent name')
            if not is_exc(it, r[1], it.prog.get(
                    'verktyg.exceptions.BadRequest')):
                fail(it, '%s: the key error of an absent header is not a '
                     'bad request' % what)
        elif r[0] == 'raise' or not same_val(it, r[1], vs[0]):
            bad('[%s]' % show(k), r[1], m)
        g = meth(it, h, 'get', k)
        if not same_val(it, g, vs[0] if vs else None):
            bad('get(%s)' % show(k), g, m)
        g = meth(it, h, 'get', k, DEF)
        if not same_val(it, g, vs[0] if vs else DEF):
            bad('get(%s, default)' % show(k), g, m)


def scenarios(prog):
    import os
    out = []

    def start(it, n):
        p = [(sym('k%d' % i, 'str'), sym('v%d' % i, 'str'))
             for i in range(n)]
        clean(it, NV, NV2, DEF, *[v for _, v in p])
        return p

    def one(n, f):
        def fn(it):
            p = start(it, it.choose(4, 'size'))
            h = make(it, prog, p)
            m = f(it, h, list(p))
            verify(it, h, m, 'after ' + n)
        return fn

    def two(n, f, n2, f2, size):
        def fn(it):
            p = start(it, size - it.choose(size + 1, 'size'))
            h = make(it, prog, p)
            m = f(it, h, list(p))
            m = f2(it, h, m)
            verify(it, h, m, 'after %s, %s' % (n, n2))
        return fn

    def made(it):
        p = start(it, it.choose(4, 'size'))
        h = make(it, prog, p, it.choose(3, 'how'))
        verify(it, h, p, 'a new collection')
    out.append(Scen('made', made, H))
    size = 2 if os.environ.get('VERIF_TIER') == 'thorough' else 1
    for n, f in OPS.items():
        out.append(Scen(n, one(n, f), H))
        for n2, f2 in OPS.items():
            out.append(Scen('%s;%s' % (n, n2), two(n, f, n2, f2, size), H))

    # -- a collection does not share its list ------------------------------
    def apart(it):
        p = start(it, 2)
        src = it.mk_list([Tup(x) for x in p])
        how = it.choose(2, 'source')
        if how:
            src = make(it, prog, p)
        h = call(it, prog.get(H), src)
        if how:
            meth(it, src, 'add', NK, NV)
        else:
            meth(it, src, 'append', Tup((NK, NV)))
        verify(it, h, p, 'changing the source of the collection')
        l = meth(it, h, 'to_wsgi_list')
        meth(it, l, 'append', Tup((NK, NV)))
        verify(it, h, p, 'changing the exported list')
    out.append(Scen('no sharing', apart, H))

    # -- values become text -------------------------------------------------
    def text(op):
        def fn(it):
            kind = ('bytes', 'int', 'str')[it.choose(3, 'kind')]
            v = sym('value', kind)
            if kind == 'bytes':
                t = it.call(it.getattr(v, 'decode'), ['latin-1'], {})
            else:
                t = it.call(prog.builtins['str'], [v], {})
            clean(it, t)
            h = make(it, prog, [('k', 'v')])
            if op == 'new dict':
                h = call(it, prog.get(H), it.mk_dict({'k': v}))
            elif op == 'add':
                meth(it, h, 'add', 'k', v)
            elif op == 'set':
                meth(it, h, 'set', 'k', v)
            elif op == 'index':
                it.setitem(h, 0, Tup(('k', v)))
            elif op == 'slice':
                it.setitem(h, SliceV(0, 1, None), it.mk_list(
                    [Tup(('k', v))]))
            elif op == 'item':
                it.setitem(h, 'k', v)
            elif op == 'setdefault':
                meth(it, h, 'setdefault', 'j', v)
            elif op == 'extend':
                meth(it, h, 'extend', it.mk_dict({'k': it.mk_list([v])}))
            oblige(it)
            g = it.facts.norm(pair(it, seq(it, h)[-1])[1])
            t = it.facts.norm(t)
            if g is not t:
                fail(it, 'a value of type %s is stored as %s' % (
                    kind, show(g)))
        return fn
    # (a list given to the constructor keeps its values: test_popping)
    for op in ('new dict', 'add', 'set', 'index', 'slice', 'item',
               'setdefault', 'extend'):
        out.append(Scen('text by ' + op, text(op), H))

    # -- conversion ------------------------------------------------------------
    def conv(it):
        p = start(it, it.choose(3, 'size'))
        h = make(it, prog, p)
        ref = {}

        def refused(i, v):
            v = i.facts.norm(v)
            if v not in ref:
                ref[v] = bool(i.choose(2, 'refuses'))
            return ref[v]

        def c(i, a, k):
            v = i.facts.norm(a[0])
            if refused(i, v):
                i.raise_('ValueError', 'refused')
            return Term('converted', (v,))
        f = HostFunc('conv', c)
        by = bool(it.choose(2, 'bytes'))
        kw = {'as_bytes': True} if by else {}

        def form(v):
            if by:
                v = it.call(it.getattr(v, 'encode'), ['latin1'], {})
            return it.facts.norm(v)
        vs = [form(v) for v in h_list(it, p, NK)]
        oblige(it, 3)
        g = seq(it, meth(it, h, 'getlist', NK, **kw))
        if not same_seq(it, g, vs):
            fail(it, 'getlist(as_bytes=%s) gives %s' % (by, show_any(g)))
        g = it.facts.norm(meth(it, h, 'get', NK, DEF, f, **kw))
        w = DEF if not vs or refused(it, vs[0]) else Term('converted', (vs[0],))
        if g is not w:
            fail(it, 'get() with a type gives %s, not %s' % (
                show(g), show(w)))
        g = seq(it, meth(it, h, 'getlist', NK, f, **kw))
        w = [Term('converted', (v,)) for v in vs
             if not refused(it, v)]
        if len(g) != len(w) or any(a is not b for a, b in zip(g, w)):
            fail(it, 'getlist() with a type gives %s' % show_any(g))
    out.append(Scen('conversion', conv, H))

    # -- comparison ---------------------------------------------------------------
    def comp(it):
        p = start(it, it.choose(3, 'size'))
        q = [(sym('q%d' % i, 'str'), sym('w%d' % i, 'str'))
             for i in range(it.choose(3, 'other size'))]
        clean(it, *[v for _, v in q])
        a, b = make(it, prog, p), make(it, prog, q)

        def sub(x, y):
            return all([any([it.eq(i[0], j[0]) and it.eq(i[1], j[1])
                             for j in y]) for i in x])
        e, n = it.truth(it.compare(ast.Eq(), a, b)), it.truth(
            it.compare(ast.NotEq(), a, b))
        w = sub(p, q) and sub(q, p)
        oblige(it, 2)
        if e != w:
            fail(it, '%s == %s gives %s' % (show_any(p), show_any(q), e))
        if n == e:
            fail(it, '!= agrees with ==')
        o = (None, it.mk_list([]), 'x')[it.choose(3, 'foreign')]
        if it.truth(it.compare(ast.Eq(), a, o)) or not it.truth(
                it.compare(ast.NotEq(), a, o)):
            fail(it, 'headers equal %s' % show(o))
    out.append(Scen('comparison', comp, H))

    # -- text form ------------------------------------------------------------
    def text_form(it):
        p = start(it, it.choose(3, 'size'))
        h = make(it, prog, p)
        s = it.facts.norm(it.call(prog.builtins['str'], [h], {}))
        w = ''
        for k, v in p:
            for x in (k, ': ', v, '\r\n'):
                w = it.binop(ast.Add(), w, x)
        w = it.facts.norm(it.binop(ast.Add(), w, '\r\n'))
        oblige(it)
        if s is not w and s != w:
            fail(it, 'the headers are formatted as %s' % show(s))
    out.append(Scen('formatted', text_form, H))

    # -- options of a header -----------------------------------------------------
    # -- the environment ------------------------------------------------------------
    VARS = {'HTTP_HOST': 'Host', 'HTTP_X_FOO_BAR': 'X-Foo-Bar',
            'CONTENT_TYPE': 'Content-Type',
            'CONTENT_LENGTH': 'Content-Length', 'PATH_INFO': None,
            'HTTP_CONTENT_TYPE': None, 'HTTP_CONTENT_LENGTH': None,
            'wsgi.input': None, 'HTTPS': None}
    EH = 'verktyg.wsgi.EnvironHeaders'

    def environ(it):
        env = {}
        for k in VARS:
            if k in ('PATH_INFO', 'wsgi.input', 'HTTPS') or it.choose(2, k):
                env[k] = sym(k.lower(), 'str')
        h = call(it, prog.get(EH), it.mk_dict(dict(env)))
        m = {VARS[k]: v for k, v in env.items() if VARS[k]}
        got = [pair(it, x) for x in it.iterate(h)]
        oblige(it, 3)
        if {k: v for k, v in got} != m or len(got) != len(m):
            fail(it, 'the environment shows the headers %s' % show_any(got))
        if it.facts.norm(call(it, it.b('len'), h)) != len(m):
            fail(it, 'len() of the environment headers')
        got = seq(it, meth(it, h, 'keys'))
        if sorted(got) != sorted(m):
            fail(it, 'keys() of the environment headers')
        for k in [v for v in VARS.values() if v] + ['Path-Info', 'Foo']:
            for form in (k, k.lower(), k.upper(), k.replace('-', '_')):
                oblige(it, 4)
                if it.contains(h, form) != (k in m):
                    fail(it, 'membership of %r' % form)
                if it.facts.norm(meth(it, h, 'get', form)) is not m.get(k):
                    fail(it, 'get(%r) gives %s' % (form, show(
                        meth(it, h, 'get', form))))
                r = attempt(it, it.getitem, h, form)
                if k not in m:
                    missing(it, r, '%r in the environment' % form)
                elif r[0] == 'raise' or it.facts.norm(r[1]) is not m[k]:
                    fail(it, '[%r] gives %s' % (form, show(r[1])))
                if '_' not in form:
                    got = seq(it, meth(it, h, 'getlist', form))
                    if not same_seq(it, got, [m[k]] if k in m else []):
                        fail(it, 'getlist(%r)' % form)
    out.append(Scen('environment', environ, EH))
    return out
