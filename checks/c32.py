"""C32: lazy attributes are computed once, header attributes fail soft."""
from .lib import *
from .c17 import want

RULE = ('cached_property and header_property are followed on classes made '
        'for the purpose, with unknown values, names, loaders and dumpers, '
        'through every order of reading, assigning and deleting; calls of '
        'the wrapped functions are counted and the stored headers compared.')
MIN_SCENARIOS = 31
U = 'verktyg.utils.'


def scenarios(prog):
    out = []

    def add_(name, fn, subject):
        out.append(Scen(name, fn, subject))
    OBJ = prog.builtins['object']

    def cls(it, ns, bases=None, name='Thing'):
        return ClassV(name, bases or [OBJ], ns, kind='repo')

    def lazy(it, log, value, **kw):
        """cached_property around a function that logs its calls"""
        def f(i, a, k):
            log.append(a[0])
            return value(len(log)) if callable(value) else value
        fn = HostFunc('foo', f)
        fn.attrs = {'__name__': 'foo', '__module__': 'mod', '__doc__': 'doc'}
        return want(it, lambda: it.call(prog.get(U + 'cached_property'),
                                        [fn], kw), 'cached_property')

    VALUES = {'none': None, 'zero': 0, 'false': False, 'empty': '',
              'unknown': lambda it: sym('v', 'str'),
              'list': lambda it: it.mk_list([]),
              'object': lambda it: stub(it, 'Some')}
    for vn, v in VALUES.items():
        def f_once(it, v=v):
            val = v(it) if callable(v) else v
            log = []
            c = cls(it, {'foo': lazy(it, log, val)})
            o, o2 = Obj(c, {}), Obj(c, {})
            for n in range(3):
                g = want(it, lambda: it.getattr(o, 'foo'), 'foo')
                oblige(it, 2)
                if not it.is_(g, val) and not it.eq(g, val):
                    fail(it, 'the attribute is %r instead of %r' % (g, val))
                if len(log) != 1 or log[0] is not o:
                    fail(it, 'the function is called %d times' % len(log))
            it.getattr(o2, 'foo')
            oblige(it)
            if len(log) != 2 or log[1] is not o2:
                fail(it, 'another object shares the value')
            it.getattr(o2, 'foo')
            it.getattr(o, 'foo')
            if len(log) != 2:
                fail(it, 'the function is called again')
        add_('cached.%s' % vn, f_once, 'cached_property.__get__')

        def f_set(it, v=v):
            val = v(it) if callable(v) else v
            for first in (False, True):
                log = []
                c = cls(it, {'foo': lazy(it, log, 'computed')})
                o, o2 = Obj(c, {}), Obj(c, {})
                if first:
                    it.getattr(o, 'foo')
                want(it, lambda: it.setattr(o, 'foo', val), 'assignment')
                oblige(it, 3)
                for n in range(2):
                    g = it.getattr(o, 'foo')
                    if not it.is_(g, val) and not it.eq(g, val):
                        fail(it, 'an assigned value is lost: %r' % (g,))
                if len(log) != int(first):
                    fail(it, 'the function is called although a value was '
                         'assigned')
                if it.getattr(o2, 'foo') != 'computed':
                    fail(it, 'an assignment changes another object')
        add_('assigned.%s' % vn, f_set, 'cached_property.__set__')

    def f_misc(it):
        log = []
        p = lazy(it, log, lambda n: n)
        c = cls(it, {'foo': p})
        oblige(it, 7)
        if it.getattr(c, 'foo') is not p:
            fail(it, 'reading through the class gives %r' % (
                it.getattr(c, 'foo'),))
        if log:
            fail(it, 'reading through the class calls the function')
        if it.getattr(p, '__doc__') != 'doc' or it.getattr(
                p, '__name__') != 'foo' or it.getattr(
                p, '__module__') != 'mod':
            fail(it, 'name, module or documentation of the property')
        if it.getattr(lazy(it, log, 1, doc='other'), '__doc__') != 'other':
            fail(it, 'the documentation given is ignored')
        s = cls(it, {}, [c], 'Sub')
        o = Obj(s, {})
        if it.getattr(o, 'foo') != 1 or it.getattr(o, 'foo') != 1:
            fail(it, 'a subclass computes the value again')
        log2 = []
        q = lazy(it, log2, lambda n: n, name='bar')
        c2 = cls(it, {'bar': q, 'foo': p})
        o = Obj(c2, {})
        a = (it.getattr(o, 'bar'), it.getattr(o, 'foo'), it.getattr(o, 'bar'))
        if a != (1, 2, 1):
            fail(it, 'a property with a name of its own: %r' % (a,))
        # two properties of one object do not share their value
        it.setattr(o, 'foo', 'x')
        if it.getattr(o, 'bar') != 1:
            fail(it, 'two properties share their value')
    add_('cached.misc', f_misc, 'cached_property.__init__')

    def f_raise(it):
        log = []

        def f(i, a, k):
            log.append(1)
            if len(log) < 3:
                i.raise_('ValueError', 'no')
            return 'fine'
        fn = HostFunc('foo', f)
        fn.attrs = {'__name__': 'foo', '__module__': 'mod', '__doc__': 'doc'}
        c = cls(it, {'foo': it.call(prog.get(U + 'cached_property'), [fn],
                                    {})})
        o = Obj(c, {})
        got = [attempt(it, lambda: it.getattr(o, 'foo'))[:2]
               for n in range(4)]
        oblige(it, 2)
        if [g[0] for g in got] != ['raise', 'raise', 'ok', 'ok'] or \
                got[3][1] != 'fine' or len(log) != 3:
            fail(it, 'a function that fails first: %r' % (got,))
        if not is_exc(it, got[0][1], 'ValueError'):
            fail(it, 'another exception: %r' % (got[0],))
    add_('cached.raise', f_raise, 'cached_property.__get__')

    # -- header_property ----------------------------------------------------
    H = prog.get('verktyg.http.Headers')

    def prop(it, *a, **k):
        return want(it, lambda: it.call(prog.get(U + 'header_property'),
                                        list(a), k), 'header_property')

    def thing(it, p, *headers):
        h = it.call(H, [it.mk_list([Tup(x) for x in headers])], {})
        return Obj(cls(it, {'prop': p}), {'headers': h}), h

    def pairs(it, h):
        return [(it.getitem(e, 0), it.facts.norm(it.getitem(e, 1)))
                for e in it.iterate(h)]

    TXT = '[A-Za-z0-9 ,;=/_-]'
    for name in ('X-Foo', 'x-foo', 'X-FOO'):
        def f_read(it, name=name):
            v = word(it, 'v', TXT)
            w = word(it, 'w', TXT)
            d = stub(it, 'Default')
            o, h = thing(it, prop(it, 'X-Foo', d), (name, v), ('Other', w))
            oblige(it, 3)
            g = want(it, lambda: it.getattr(o, 'prop'), 'reading')
            if not it.eq(g, v):
                fail(it, 'the header is read as %r' % (g,))
            o, h = thing(it, prop(it, 'X-Foo', d), ('Other', w))
            g = want(it, lambda: it.getattr(o, 'prop'), 'reading')
            if g is not d:
                fail(it, 'a missing header is read as %r' % (g,))
            o, h = thing(it, prop(it, 'X-Foo'), ('Other', w))
            if it.getattr(o, 'prop') is not None:
                fail(it, 'the default is not None')
            for val in ('', '0', 'None', ' '):
                o, h = thing(it, prop(it, 'X-Foo', d), (name, val))
                g = want(it, lambda: it.getattr(o, 'prop'), 'reading')
                if g != val:
                    fail(it, 'the header %r is read as %r' % (val, g))
        add_('header.read.%s' % name, f_read, 'header_property.__get__')

        def f_set(it, name=name):
            v, w, x = (word(it, n, TXT) for n in 'vwx')
            p = prop(it, 'X-Foo')
            for hs in ([('Other', w)], [(name, x), ('Other', w)],
                       [(name, x), ('Other', w), (name, 'y')]):
                o, h = thing(it, p, *hs)
                want(it, lambda: it.setattr(o, 'prop', v), 'setting')
                oblige(it, 4)
                got = [(k.lower(), y) for k, y in pairs(it, h)]
                mine = [y for k, y in got if k == 'x-foo']
                rest = [y for k, y in got if k != 'x-foo']
                if len(mine) != 1 or not it.eq(mine[0], v):
                    fail(it, 'after setting: %r' % (got,))
                if len(rest) != 1 or not it.eq(rest[0], w):
                    fail(it, 'setting changes other headers: %r' % (got,))
                if not it.eq(it.getattr(o, 'prop'), v):
                    fail(it, 'what was set is not read')
                want(it, lambda: it.delattr(o, 'prop'), 'deleting')
                got = pairs(it, h)
                if len(got) != 1 or got[0][0] != 'Other':
                    fail(it, 'after deleting: %r' % (got,))
                want(it, lambda: it.delattr(o, 'prop'), 'deleting again')
                if it.getattr(o, 'prop') is not None:
                    fail(it, 'a deleted header is read')
        add_('header.set.%s' % name, f_set, 'header_property.__set__')

    def f_funcs(it):
        v = word(it, 'v', TXT)
        seen = []

        def load(i, a, k):
            seen.append(('load', a[0]))
            return Tup(('loaded', a[0]))

        def dump(i, a, k):
            seen.append(('dump', a[0]))
            return cat(i, 'd:', a[0])
        p = prop(it, 'X-Foo', 'default', HostFunc('load', load),
                 HostFunc('dump', dump))
        o, h = thing(it, p)
        oblige(it, 5)
        if it.getattr(o, 'prop') != 'default' or seen:
            fail(it, 'a missing header is loaded')
        it.setattr(o, 'prop', v)
        got = pairs(it, h)
        if len(got) != 1 or not it.eq(got[0][1], cat(it, 'd:', v)):
            fail(it, 'the value is stored as %r' % (got,))
        g = it.getattr(o, 'prop')
        if not isinstance(g, Tup) or g.items[0] != 'loaded' or \
                not it.eq(g.items[1], cat(it, 'd:', v)):
            fail(it, 'the header is loaded as %r' % (g,))
        if [s[0] for s in seen] != ['dump', 'load']:
            fail(it, 'loaders and dumpers run: %r' % (seen,))
    add_('header.funcs', f_funcs, 'header_property.__get__')

    for exc, soft in (('ValueError', True), ('TypeError', True),
                      ('UnicodeDecodeError', True), ('KeyError', False),
                      ('AttributeError', False), ('RuntimeError', False)):
        def f_exc(it, exc=exc, soft=soft):
            def load(i, a, k):
                i.raise_(exc, 'no')
            d = stub(it, 'Default')
            p = prop(it, 'X-Foo', d, load_func=HostFunc('load', load))
            o, h = thing(it, p, ('X-Foo', word(it, 'v', TXT)))
            k, v, _ = attempt(it, lambda: it.getattr(o, 'prop'))
            oblige(it)
            if soft and (k != 'ok' or v is not d):
                fail(it, 'an invalid header (%s) is read as %r' % (exc, v))
            if not soft and (k != 'raise' or not is_exc(it, v, exc)):
                fail(it, '%s of a loader is hidden: %r' % (exc, v))
        add_('header.invalid.%s' % exc, f_exc, 'header_property.__get__')

    def f_ro(it):
        v = word(it, 'v', TXT)
        p = prop(it, 'X-Foo', read_only=True)
        o, h = thing(it, p, ('X-Foo', v))
        oblige(it, 4)
        for what, fn in (('set', lambda: it.setattr(o, 'prop', 'x')),
                         ('deleted', lambda: it.delattr(o, 'prop'))):
            k, e, _ = attempt(it, fn)
            if k != 'raise' or not is_exc(it, e, 'AttributeError'):
                fail(it, 'a read only header can be %s' % what)
            got = pairs(it, h)
            if len(got) != 1 or not it.eq(got[0][1], v):
                fail(it, 'a read only header changes: %r' % (got,))
        if not it.eq(it.getattr(o, 'prop'), v):
            fail(it, 'a read only header is not read')
        c = o.cls
        if it.getattr(c, 'prop') is not p:
            fail(it, 'reading through the class: %r' % (
                it.getattr(c, 'prop'),))
    add_('header.readonly', f_ro, 'header_property.__set__')

    def f_doc(it):
        oblige(it, 2)
        if it.getattr(prop(it, 'X-Foo', doc='text'), '__doc__') != 'text':
            fail(it, 'the documentation is lost')
        r = it.call(prog.builtins['repr'], [prop(it, 'X-Foo')], {})
        if r != '<header_property X-Foo>':
            fail(it, 'repr: %r' % (r,))
    add_('header.doc', f_doc, 'header_property.__init__')
    return out
