"""C26: URL converters accept exactly their values and never break matching."""
import itertools
from .lib import *
from engine import relang
from .c25 import conv_spec, parts_of

RULE = ('Every built-in converter is followed for an arbitrary text of its '
        'pattern (whose language is derived from the source): the value is '
        'the one the text denotes and satisfies the converter\'s limits, '
        'otherwise ValidationError and nothing else is raised; the same for '
        'arbitrary limits.  URL texts are quoted in the charset of the map.  '
        'A converter that rejects a value makes the next route match.')
MIN_SCENARIOS = 30

# texts on which the conversion functions are total
TOTAL = {'float': r'\d+\.\d+',
         'uuid': '-'.join('[A-Fa-f0-9]{%d}' % n for n in (8, 4, 4, 4, 12))}
FORBIDDEN = ' "<>\\^`{}|?#[]\n\r\t\x00\x7f\xe9\u2603'


def scenarios(prog):
    out = []
    g = lambda n: prog.get('verktyg.routing.' + n)      # noqa: E731
    URLMap, Route = g('URLMap'), g('Route')
    Validation = g('ValidationError')
    BAD = prog.builtins['ValueError']

    def conv(it, m, name, *a, **k):
        c = it.getitem(it.getattr(m, 'converters'), name)
        return call(it, c, m, *a, **k)

    def lang(it, c):
        r = it.facts.norm(it.getattr(c, 'regex'))
        if not isinstance(r, str):
            raise Unsupported('pattern of the converter is not constant')
        return relang.Lang(r)

    # -- patterns --------------------------------------------------------
    def pattern(name, args, kw, spec):
        def fn(it):
            m = call(it, URLMap)
            r = attempt(it, conv, it, m, name, *args, **kw)
            if r[0] == 'raise':
                fail(it, 'making the converter raises %s' % exc_name(r[1]))
            c = r[1]
            try:
                a, b = lang(it, c), relang.Lang(spec)
                dc = [relang.Lang('[^\n]*')] if name == 'path' else []
                for x, y, what in ((a, b, 'accepts'), (b, a, 'refuses')):
                    oblige(it)
                    w = relang.witness([x] + dc, [y])
                    if w is not None:
                        fail(it, 'the converter %s %r' % (what, w))
                if name in TOTAL:
                    w = relang.witness([a], [relang.Lang(TOTAL[name])])
                    if w is not None:
                        fail(it, 'the pattern accepts %r, which cannot be '
                             'converted' % w)
            except relang.Unable as e:
                raise Unsupported('regular expression: %s' % e)
        return fn
    U = [('default', (), {}), ('string', (), {}), ('string', (), {
        'minlength': 2}), ('string', (), {'maxlength': 4}),
        ('string', (), {'minlength': 2, 'maxlength': 3}),
        ('string', (), {'length': 2}), ('string', (0,), {}),
        ('string', (2, 3), {}), ('string', (), {'length': 2,
                                                'minlength': 5})]
    for n, a, k in U:
        kk = dict(zip(('minlength', 'maxlength', 'length'), a), **k)
        if 'length' in kk:
            sp = '[^/]{%d}' % kk['length']
        else:
            sp = '[^/]{%s,%s}' % (kk.get('minlength', 1),
                                  kk.get('maxlength', ''))
        out.append(Scen('pattern of %s%s' % (n, kk or ''),
                        pattern(n, a, k, sp), 'converters'))
    for n in ('int', 'float', 'path', 'uuid'):
        out.append(Scen('pattern of ' + n, pattern(
            n, (), {}, conv_spec(n, '')), 'converters'))
    for items in (('a',), ('ab', 'abc'), ('a.b', 'c|d', '[x]', 'e+')):
        out.append(Scen('pattern of any%s' % (items,), pattern(
            'any', items, {}, '|'.join(
                ''.join('\\' + c if not c.isalnum() else c for c in x)
                for x in items)), 'converters'))
    for n in ('int', 'float'):
        out.append(Scen('pattern of %s with limits' % n, pattern(
            n, (), {'min': 1, 'max': 9}, conv_spec(n, '')), 'converters'))

    # -- values ------------------------------------------------------------
    def same(it, v, e):
        v, e = it.facts.norm_deep(v), it.facts.norm_deep(e)
        return v is e or isinstance(v, Term) and isinstance(e, Term) and (
            v.op, v.args) == (e.op, e.args) or bool(it.eq(v, e))

    def value(name, how):
        def fn(it):
            m = call(it, URLMap)
            v = sym('text', 'str')
            kw, lims = {}, []
            mn, mx, fd = sym('min', 'int' if name == 'int' else 'float'), \
                sym('max', 'int' if name == 'int' else 'float'), None
            if how in ('min', 'both', 'all'):
                kw['min'] = mn
            if how in ('max', 'both', 'all'):
                kw['max'] = mx
            if how in ('digits', 'all'):
                fd = kw['fixed_digits'] = sym('digits', 'int')
            c = conv(it, m, name, **kw)
            it.raise_ops = name == 'int'
            r = attempt(it, meth, it, c, 'to_python', v)
            it.raise_ops = False
            oblige(it)
            if r[0] == 'raise':
                if not is_exc(it, r[1], Validation):
                    fail(it, 'to_python raises %s for a text its pattern '
                         'matches' % exc_name(r[1]))
                # a reason must exist
                if any(k.op == 'raises' and x is True for k, x in
                       it.facts.truth.items()):
                    return
            n = it.call(prog.builtins.get(name) or Ext('uuid.UUID'), [v],
                        {}) if name in ('int', 'float', 'uuid') else v
            bad = False
            if fd is not None and it.truth(fd) and not it.eq(
                    Term('len', (v,), 'int'), fd):
                bad = True
            if 'min' in kw and it.less(n, mn):
                bad = True
            if 'max' in kw and it.less(mx, n):
                bad = True
            if r[0] == 'raise':
                if not bad:
                    fail(it, 'a value within the limits is refused')
                return
            if bad:
                fail(it, 'a value outside the limits is accepted')
            if not same(it, r[1], n):
                fail(it, 'the value is %s' % show(r[1]))
        return fn

    for n in ('default', 'path', 'any', 'uuid'):
        out.append(Scen('value of ' + n, value(n, ''), 'converters'))
    for n in ('int', 'float'):
        for h in ('', 'min', 'max', 'both') + (('digits', 'all')
                                               if n == 'int' else ()):
            out.append(Scen('value of %s %s' % (n, h), value(n, h),
                            'converters'))

    # -- URL texts -----------------------------------------------------------
    def to_url(name, kind, charset):
        def fn(it):
            m = call(it, URLMap, charset=charset)
            c = conv(it, m, name, *(('x', 'y') if name == 'any' else ()))
            if kind == 'str':
                v = t = sym('v', 'str')
            elif kind == 'bytes':
                v = t = sym('v', 'bytes')
            elif kind == 'int':
                v = sym('v', 'int')
                t = it.call(prog.builtins['str'], [v], {})
            else:
                v = stub(it, 'SomeObject')
                t = Term('str', (Term('obj', (v,)),), 'str')
                v.cls.ns['__str__'] = HostFunc(
                    '__str__', lambda i, a, k: t, True)
            r = attempt(it, meth, it, c, 'to_url', v)
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'to_url raises %s for a value of type %s' % (
                    exc_name(r[1]), kind))
            u = it.facts.norm_deep(r[1])
            for ch in FORBIDDEN:
                if not strdom.lacks(u, ch, it.facts):
                    fail(it, 'the URL text may contain %r' % ch)
            if isinstance(u, Term) and u.op == 'quote':
                if u.args[0] is not it.facts.norm_deep(t):
                    fail(it, 'the URL text denotes another value')
                if kind != 'bytes' and u.args[2] != charset:
                    fail(it, 'the URL text is in %s instead of %s' % (
                        u.args[2], charset))
                if u.args[3] not in ('strict', None) or u.args[4] or \
                        '%' in u.args[1]:
                    fail(it, 'the URL text does not denote the value')
            elif u is not it.facts.norm_deep(t):
                fail(it, 'the URL text denotes another value')
        return fn
    for n in ('default', 'string', 'path', 'any', 'uuid'):
        for kind in ('str', 'bytes', 'int', 'object'):
            if n == 'uuid' and kind == 'bytes':
                continue
            for cs in ('utf-8', 'latin-1'):
                out.append(Scen('URL text of %s (%s, %s)' % (n, kind, cs),
                                to_url(n, kind, cs), 'converters'))

    def num_url(name, digits):
        def fn(it):
            m = call(it, URLMap)
            kw = {'fixed_digits': digits} if digits else {}
            c = conv(it, m, name, **kw)
            v = sym('v', name)
            r = attempt(it, meth, it, c, 'to_url', v)
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'to_url raises ' + exc_name(r[1]))
            u = it.facts.norm_deep(r[1])
            if digits:
                e = it.binop(__import__('ast').Mod(), '%%0%dd' % digits, v)
            else:
                e = it.call(prog.builtins['str'], [v], {})
            if not same(it, u, e):
                fail(it, 'the URL text is %s' % show(u))
        return fn
    for n, d in (('int', 0), ('int', 4), ('float', 0)):
        out.append(Scen('URL text of %s %s' % (n, d or ''), num_url(n, d),
                        'converters'))

    # -- rejecting converters ------------------------------------------------
    def reject(order, two):
        def fn(it):
            made = []

            def factory(tag):
                def f(i, a, k):
                    def py(i2, a2, k2):
                        if i2.choose(2, 'converter %s rejects' % tag):
                            rejected.append(tag)
                            i2.raise_(Validation)
                        return Term('conv', (tag, a2[0]), None)
                    made.append((tag, list(a), dict(k)))
                    return stub(i, 'Conv', regex='[a-z]+', weight=weights[
                        tag], to_python=HostFunc('to_python', py),
                        to_url=HostFunc('to_url', lambda i2, a2, k2: a2[0]))
                return HostFunc('factory', f)
            rejected = []
            weights = {'c': 10, 'd': 20}
            convs = it.mk_dict({'c': factory('c'), 'd': factory('d')})
            rs = [call(it, Route, '/x/<c:v>', endpoint='first'),
                  call(it, Route, '/x/<d:v>', endpoint='second'),
                  call(it, Route, '/x/<path:v>', endpoint='last')]
            if two:
                rs[0] = call(it, Route, '/<d:u>/<c:v>', endpoint='first')
                weights['d'] = 5
                rs[1] = call(it, Route, '/<c:u>/<path:v>', endpoint='second')
                rs[2] = call(it, Route, '/<path:v>', endpoint='last')
            rs = [rs[i] for i in order]
            m = call(it, URLMap, it.mk_list(rs), converters=convs)
            ad = meth(it, m, 'bind', 'h')
            p = sym('path', 'str')
            r = attempt(it, meth, it, ad, 'match', p)
            oblige(it)
            if r[0] == 'raise':
                if is_exc(it, r[1], prog.get('verktyg.exceptions.NotFound')):
                    from .c25 import re_facts
                    if any(f[6] for f in re_facts(it)) and not rejected:
                        fail(it, 'NotFound although a route matches')
                    return
                fail(it, 'a rejecting converter makes matching raise %s' %
                     exc_name(r[1]))
            e, vals = list(it.iterate(r[1]))
            if not two and (e == 'first') == ('c' in rejected) and \
                    e == 'first':
                fail(it, 'a route matches although its converter rejects')
            for k in list(it.iterate(vals)):
                v = it.facts.norm(it.getitem(vals, k))
                want = {'first': {'u': 'd', 'v': 'c'},
                        'second': {'v': 'd'}, 'last': {}}[e]
                if two and e == 'second':
                    want = {'u': 'c'}
                t = want.get(k)
                if t is None:
                    if not (isinstance(v, Term) and v.op == 'group'):
                        fail(it, 'value of %s is %s' % (k, show(v)))
                elif not (isinstance(v, Term) and v.op == 'conv' and
                          v.args[0] == t and v.args[1].op == 'group'):
                    fail(it, 'value of %s is %s' % (k, show(v)))
            for tag, a, k in made:
                if a != [m] or k:
                    fail(it, 'converter is not given the map')
        return fn
    for o in itertools.permutations(range(3)):
        for two in (False, True):
            out.append(Scen('rejecting converter %s %s' % (o, two),
                            reject(o, two), 'verktyg.routing.Route.match'))

    # -- arguments -----------------------------------------------------------
    ARGS = [('', [], {}), ('()', [], {}), ('(1)', [1], {}),
            ('(1,2)', [1, 2], {}), ('(-1)', None, None),
            ('(x=1)', [], {'x': 1}), ('(1.5)', [1.5], {}),
            ('(a, b)', ['a', 'b'], {}), ('("a,b", \'c d\')', ['a,b', 'c d'],
                                         {}),
            ('(True, x=False)', [True], {'x': False}),
            ('(None)', [None], {}), ('(12, a, y = "z", k=3.25)', [12, 'a'],
                                     {'y': 'z', 'k': 3.25}),
            ('("<")', None, None), ('(x="1")', [], {'x': '1'}),
            ('("True")', ['True'], {})]

    def args(text, a, k):
        def fn(it):
            seen = []

            def f(i, aa, kk):
                seen.append((list(aa), dict(kk)))
                return stub(i, 'Conv', regex='[a-z]+', weight=1)
            rt = call(it, Route, '/<c%s:v>/x' % text, endpoint='e')
            r = attempt(it, call, it, URLMap, it.mk_list([rt]),
                        converters=it.mk_dict({'c': HostFunc('f', f)}))
            oblige(it)
            if r[0] == 'raise':
                fail(it, 'the route is refused with ' + exc_name(r[1]))
            if len(seen) != 1:
                fail(it, 'converter made %d times' % len(seen))
            ga, gk = seen[0]
            ga = [it.facts.norm(x) for x in ga[1:]]
            gk = {n: it.facts.norm(x) for n, x in gk.items()}
            if [(type(x), x) for x in ga] != [(type(x), x) for x in a] or \
                    {n: (type(x), x) for n, x in gk.items()} != {
                        n: (type(x), x) for n, x in k.items()}:
                fail(it, 'the arguments arrive as %r, %r' % (ga, gk))
        return fn
    for t, a, k in ARGS:
        if a is not None:
            out.append(Scen('arguments ' + t, args(t, a, k),
                            'verktyg.routing.parse_converter_args'))
    return out
