"""C02: immutable containers reject every mutation."""
import ast

from .lib import *

RULE = ('For every immutable container class and every mutating operation of '
        'its mutable bases (built-in list/dict protocol, multi-value and '
        'header operations), every path raises TypeError and leaves the '
        'observable contents as they were; every other public method the '
        'class inherits leaves the contents unchanged.')
MIN_SCENARIOS = 60

D = 'verktyg.datastructures.'
LIST_MUT = ['append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort',
            'clear', '__setitem__', '__delitem__', '__iadd__', '__imul__']
DICT_MUT = ['setdefault', 'update', 'pop', 'popitem', '__setitem__',
            '__delitem__', 'clear', '__ior__']
MULTI_MUT = ['add', 'setlist', 'setlistdefault', 'poplist', 'popitemlist']
HDR_MUT = ['add', 'add_header', 'set', 'setdefault', 'extend', 'remove',
           'pop', 'popitem', 'clear', '__setitem__', '__delitem__']


def elems():
    return sym('old0', 'str'), sym('old1', 'str')


def make(it, prog, kind):
    a, b = elems()
    k0, k1 = sym('k0', 'str'), sym('k1', 'str')
    if kind == 'ImmutableList':
        return call(it, prog.get(D + kind), it.mk_list([a, b]))
    if kind in ('ImmutableDict', 'ImmutableTypeConversionDict'):
        d = it.mk_dict()
        it.dict_set(d, k0, a)
        it.dict_set(d, k1, b)
        return call(it, prog.get(D + kind), d)
    if kind in ('ImmutableMultiDict', 'ImmutableOrderedMultiDict'):
        return call(it, prog.get(D + kind),
                    it.mk_list([Tup((k0, a)), Tup((k1, b))]))
    if kind == 'CombinedMultiDict':
        M = prog.get(D + 'MultiDict')
        inner = [call(it, M, it.mk_list([Tup((k0, a))])),
                 call(it, M, it.mk_list([Tup((k1, b))]))]
        return call(it, prog.get(D + kind), it.mk_list(inner))
    if kind == 'EnvironHeaders':
        env = it.mk_dict({'HTTP_X_FOO': a, 'CONTENT_TYPE': b})
        return call(it, prog.get('verktyg.wsgi.EnvironHeaders'), env)
    raise KeyError(kind)


def snapshot(it, o, kind):
    if kind == 'ImmutableList' or kind == 'EnvironHeaders':
        return [it.facts.norm(x) for x in it.iterate(o)]
    if kind in ('ImmutableDict', 'ImmutableTypeConversionDict'):
        return [(it.facts.norm(k), it.facts.norm(it.getitem(o, k)))
                for k in list(it.iterate(o))]
    out = []
    for k in list(it.iterate(o)):
        vs = meth(it, o, 'getlist', k)
        out.append((it.facts.norm(k), tuple(
            it.facts.norm(x) for x in it.iterate(vs))))
    return out


def same(it, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple):
            if not same(it, x, y):
                return False
        elif it.facts.decide_eq(x, y) is not True:
            return False
    return True


def argsets(it, kind, m):
    k, v = sym('newk', 'str'), sym('newv')
    lst = it.mk_list([v])
    if kind == 'ImmutableList':
        return {'append': [[v]], 'extend': [[lst]], 'insert': [[0, v]],
                'pop': [[], [0]], 'remove': [[elems()[0]]], 'reverse': [[]],
                'sort': [[]], 'clear': [[]],
                '__setitem__': [[0, v], [SliceV(0, 1, None), lst]],
                '__delitem__': [[0], [SliceV(0, 1, None)]],
                '__iadd__': [[lst]], '__imul__': [[2], [0]]}[m]
    old = sym('k0', 'str')
    pairs = it.mk_list([Tup((k, v))])
    d = it.mk_dict({k: v})
    return {'setdefault': [[k, v], [old, v]],
            'update': [[d], [pairs]],
            'pop': [[old], [old, v], [k, v]], 'popitem': [[]],
            '__setitem__': [[k, v], [old, v]],
            '__delitem__': [[old], [k]], 'clear': [[]],
            '__ior__': [[d]], 'add': [[k, v], [old, v]],
            'setlist': [[k, lst], [old, lst]],
            'setlistdefault': [[k], [k, lst], [old]],
            'poplist': [[old], [k]], 'popitemlist': [[]],
            'add_header': [[k, v]], 'set': [[k, v]], 'extend': [[pairs]],
            'remove': [[old]]}[m]


def scenarios(prog):
    out = []
    kinds = {
        'ImmutableList': LIST_MUT,
        'ImmutableDict': DICT_MUT,
        'ImmutableTypeConversionDict': DICT_MUT,
        'ImmutableMultiDict': DICT_MUT + MULTI_MUT,
        'ImmutableOrderedMultiDict': DICT_MUT + MULTI_MUT,
        'CombinedMultiDict': DICT_MUT + MULTI_MUT,
        'EnvironHeaders': HDR_MUT,
    }
    for kind, muts in kinds.items():
        cls = prog.get('verktyg.wsgi.EnvironHeaders'
                       if kind == 'EnvironHeaders' else D + kind)

        for m in muts:
            def fn(it, kind=kind, m=m):
                o = make(it, prog, kind)
                before = snapshot(it, o, kind)
                sets = argsets(it, kind, m)
                args = sets[it.choose(len(sets), 'argument shape of ' + m)]
                if m == '__ior__':
                    r = attempt(it, it.inplace, ast.BitOr(), o, args[0])
                elif m == '__iadd__':
                    r = attempt(it, it.inplace, ast.Add(), o, args[0])
                elif m == '__imul__':
                    r = attempt(it, it.inplace, ast.Mult(), o, args[0])
                else:
                    r = attempt(it, lambda: call(it, it.getattr(o, m), *args))
                oblige(it)
                if not same(it, before, snapshot(it, o, kind)):
                    fail(it, '%s.%s changes the contents of an immutable '
                         'container' % (kind, m), r[2])
                if r[0] == 'ok':
                    if m in ('__ior__',) and r[1] is not o and isinstance(
                            r[1], Obj):
                        return
                    fail(it, '%s.%s(%s) returns instead of raising TypeError'
                         % (kind, m, ', '.join(show(a) for a in args)))
                if not is_exc(it, r[1], 'TypeError'):
                    fail(it, '%s.%s raises %s instead of TypeError'
                         % (kind, m, exc_name(r[1])), r[2])
            out.append(Scen('%s.%s' % (kind, m), fn, cls.qual))

        def keeps(it, kind=kind, cls=cls):
            o = make(it, prog, kind)
            before = snapshot(it, o, kind)
            how = ('__reduce_ex__', 'copy', '__copy__')[it.choose(3, 'how')]
            f = next((c.ns[how] for c in cls.mro if how in c.ns), None)
            if not isinstance(f, Func) or kind == 'EnvironHeaders':
                return
            args = [2] if how == '__reduce_ex__' else []
            r = attempt(it, lambda: call(it, it.getattr(o, how), *args))
            oblige(it)
            if r[0] == 'raise':
                fail(it, '%s.%s raises %s' % (kind, how, exc_name(r[1])))
            n = it.facts.norm(r[1])
            if how == '__reduce_ex__':
                if not isinstance(n, Tup) or len(n.items) < 2:
                    fail(it, '%s cannot be pickled' % kind)
                n = attempt(it, lambda: it.call(n.items[0], list(it.iterate(
                    n.items[1])), {}))
                if n[0] == 'raise':
                    fail(it, 'unpickling %s raises %s' % (
                        kind, exc_name(n[1])))
                n = n[1]
                if not isinstance(n, Obj) or n.cls is not cls:
                    fail(it, 'unpickling %s gives %s' % (kind, show(n)))
            if not isinstance(n, Obj) or not same(it, before, snapshot(
                    it, n, kind)):
                fail(it, '%s.%s does not keep the contents' % (kind, how))
        out.append(Scen('%s copied' % kind, keeps, cls.qual))

        known = set(muts) | {'__init__', '__new__', '__setstate__',
                             '__init_subclass__', '__class_getitem__',
                             '__repr__', '__str__'}
        others = {}
        for c in cls.mro:
            if c.kind == 'repo':
                for n, f in c.ns.items():
                    if isinstance(f, Func) and n not in known and \
                            n not in others and not (
                                n.startswith('_') and not n.endswith('__')):
                        others[n] = f
        for n, f in sorted(others.items()):
            a = f.node.args
            req = len(a.args) - 1 - len(a.defaults)
            if req < 0 or a.vararg and n.startswith('__'):
                continue

            def fn(it, kind=kind, n=n, req=req):
                o = make(it, prog, kind)
                before = snapshot(it, o, kind)
                args = [sym('arg%d' % i, 'str') for i in range(req)]
                r = attempt(it, lambda: call(it, it.getattr(o, n), *args))
                if r[0] == 'ok' and isinstance(r[1], IterV):
                    attempt(it, lambda: list(it.iterate(r[1])))
                oblige(it)
                if not same(it, before, snapshot(it, o, kind)):
                    fail(it, '%s.%s() changes the contents of an immutable '
                         'container' % (kind, n))
            out.append(Scen('%s.%s reads only' % (kind, n), fn, cls.qual))
    return out
