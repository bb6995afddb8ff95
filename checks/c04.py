"""C04: multi-value mappings do not share their value lists with callers."""
from .mdlib import *

RULE = ('For every way a multi-value mapping takes lists in (constructor, '
        'setlist, update, copy) or hands lists out (getlist, lists, '
        'listvalues, to_dict, copy, poplist, popitemlist), appending to and '
        'clearing the caller\'s list afterwards leaves every read view of '
        'the mapping unchanged: escape/alias analysis on the abstract heap.')
MIN_SCENARIOS = 30
X = sym('intruder', 'str')


def smash(it, o, depth=0):
    """mutate every list reachable from a handed-out value"""
    o = it.facts.norm(o)
    n = 0
    if isinstance(o, IterV) or (isinstance(o, Obj) and not isinstance(
            o.data, (ListData, DictData))):
        if isinstance(o, Obj) and o.data is None:
            return 0
        for x in list(it.iterate(o)):
            n += smash(it, x, depth + 1)
        return n
    if isinstance(o, Tup):
        for x in o.items:
            n += smash(it, x, depth + 1)
        return n
    if isinstance(o, Obj) and isinstance(o.data, ListData):
        for x in list(o.data.items):
            n += smash(it, x, depth + 1)
        call(it, BMethod('list', 'append'), o, X)
        return n + 1
    if isinstance(o, Obj) and isinstance(o.data, DictData):
        for x in list(o.data.items.values()):
            n += smash(it, x, depth + 1)
        if o.cls.kind == 'builtin':
            call(it, BMethod('dict', 'clear'), o)
        return n
    return 0


GET = {
    'getlist': lambda it, d: meth(it, d, 'getlist', sym('k0', 'str')),
    'lists': lambda it, d: meth(it, d, 'lists'),
    'listvalues': lambda it, d: meth(it, d, 'listvalues'),
    'to_dict(flat=False)': lambda it, d: meth(it, d, 'to_dict', flat=False),
    'to_dict': lambda it, d: meth(it, d, 'to_dict'),
    'items(multi)': lambda it, d: meth(it, d, 'items', multi=True),
    'values': lambda it, d: meth(it, d, 'values'),
    '__getstate__': lambda it, d: meth(it, d, '__getstate__'),
}


def scenarios(prog):
    out = []
    classes = ['MultiDict', 'OrderedMultiDict', 'ImmutableMultiDict',
               'ImmutableOrderedMultiDict']
    for cname in classes:
        cls = prog.get(D + cname)
        ordered = 'Ordered' in cname

        def add(name, body, cls=cls):
            out.append(Scen('%s: %s' % (cls.name, name), body, cls.qual))

        for g, f in GET.items():
            def fn(it, f=f, g=g, cname=cname, ordered=ordered):
                pairs = fresh_pairs(3)
                d = build(it, prog, cname, pairs)
                smash(it, f(it, d))
                verify(it, d, pairs, 'mutating the result of %s.%s()' % (
                    cname, g), ordered)
            add('result of ' + g, fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(2)
            l0, l1 = it.mk_list([pairs[0][1]]), it.mk_list([pairs[1][1]])
            if it.eq(pairs[0][0], pairs[1][0]):
                return
            src = it.mk_dict()
            it.dict_set(src, pairs[0][0], l0)
            it.dict_set(src, pairs[1][0], l1)
            d = call(it, prog.get(D + cname), src)
            smash(it, src)
            verify(it, d, pairs, 'mutating the dict %s was built from'
                   % cname, ordered)
        add('constructor from dict of lists', fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(3)
            src = build(it, prog, cname.replace('Immutable', ''), pairs)
            d = call(it, prog.get(D + cname), src)
            meth(it, src, 'add', pairs[0][0], X)
            verify(it, d, pairs, 'changing the mapping %s was built from'
                   % cname, ordered)
        add('constructor from another mapping', fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(3)
            d = build(it, prog, cname, pairs)
            c = meth(it, d, 'copy')
            meth(it, c, 'add', pairs[0][0], X)
            meth(it, c, 'poplist', pairs[1][0])
            verify(it, d, pairs, 'changing a copy of %s' % cname, ordered)
        add('copy', fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(2)
            d = build(it, prog, cname, pairs)
            c = meth(it, d, 'deepcopy')
            verify(it, c, pairs, 'deepcopy of %s' % cname, ordered)
            smash(it, meth(it, c, 'lists'))
            verify(it, d, pairs, 'changing a deep copy of %s' % cname,
                   ordered)
        if 'Immutable' not in cname and not ordered:
            add('deepcopy', fn)

        def fn(it, cname=cname):
            k, v = sym('k0', 'str'), sym('v0', 'str')
            inner = it.mk_list([v])
            d = build(it, prog, cname, [(k, inner)])
            c = meth(it, d, 'deepcopy')
            call(it, it.getattr(inner, 'append'), X)
            oblige(it)
            got = [it.facts.norm(x) for x in
                   it.iterate(it.getitem(c, k))]
            if len(got) != 1 or not it.eq(got[0], v):
                fail(it, 'a deep copy of %s shares a mutable value with '
                     'the original' % cname)
        add('deepcopy of a mutable value', fn)
        if 'Immutable' in cname:
            continue

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(2)
            d = build(it, prog, cname, pairs)
            k, v = sym('nk', 'str'), sym('nv', 'str')
            if it.eq(k, pairs[0][0]) or it.eq(k, pairs[1][0]):
                return
            l = it.mk_list([v])
            meth(it, d, 'setlist', k, l)
            smash(it, l)
            verify(it, d, pairs + [(k, v)],
                   'mutating the list passed to setlist()', ordered)
        add('setlist argument', fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(2)
            d = build(it, prog, cname, pairs)
            k, v = sym('nk', 'str'), sym('nv', 'str')
            l = it.mk_list([v])
            meth(it, d, 'update', it.mk_dict({k: l}))
            smash(it, l)
            verify(it, d, pairs + [(k, v)],
                   'mutating a list passed to update()', ordered)
        add('update argument', fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(3)
            d = build(it, prog, cname, pairs)
            k = pairs[0][0]
            smash(it, meth(it, d, 'poplist', k))
            meth(it, d, 'add', k, sym('again', 'str'))
            verify(it, d, m_del(it, pairs, k) + [(k, sym('again', 'str'))],
                   'mutating the result of poplist()', ordered)
        add('poplist result', fn)

        def fn(it, cname=cname, ordered=ordered):
            pairs = fresh_pairs(3)
            d = build(it, prog, cname, pairs)
            k, l = pair(it, meth(it, d, 'popitemlist'))
            smash(it, l)
            meth(it, d, 'add', k, sym('again', 'str'))
            verify(it, d, m_del(it, pairs, k) + [(k, sym('again', 'str'))],
                   'mutating the result of popitemlist()', ordered)
        add('popitemlist result', fn)

        if not ordered:
            def fn(it, cname=cname, ordered=ordered):
                pairs = fresh_pairs(2)
                d = build(it, prog, cname, pairs)
                k, v = sym('nk', 'str'), sym('nv', 'str')
                if it.eq(k, pairs[0][0]) or it.eq(k, pairs[1][0]):
                    return
                l = it.mk_list([v])
                meth(it, d, 'setlistdefault', k, l)
                smash(it, l)
                verify(it, d, pairs + [(k, v)],
                       'mutating the default passed to setlistdefault()',
                       ordered)
            add('setlistdefault argument', fn)
    # merged view: its handed-out lists do not reach into the parts
    for g in ('getlist', 'lists', 'listvalues', 'to_dict(flat=False)'):
        def fn(it, g=g):
            p = fresh_pairs(3)
            a = build(it, prog, 'MultiDict', p[:2])
            b = build(it, prog, 'OrderedMultiDict', p[2:])
            c = call(it, prog.get(D + 'CombinedMultiDict'),
                     it.mk_list([a, b]))
            smash(it, GET[g](it, c))
            verify(it, a, p[:2], 'mutating CombinedMultiDict.%s()' % g,
                   False)
            verify(it, b, p[2:], 'mutating CombinedMultiDict.%s()' % g, True)
        out.append(Scen('CombinedMultiDict: result of ' + g, fn,
                        D + 'CombinedMultiDict'))

    def fn(it):
        """copying the merged view does not share its list of parts"""
        p = fresh_pairs(2)
        a = build(it, prog, 'MultiDict', p[:1])
        c = call(it, prog.get(D + 'CombinedMultiDict'), it.mk_list([a]))
        c2 = meth(it, c, 'copy')
        l = it.getattr(c2, 'dicts')
        call(it, it.getattr(l, 'append'), build(it, prog, 'MultiDict',
                                                [(sym('zz', 'str'), X)]))
        oblige(it)
        if not it.eq(p[0][0], sym('zz', 'str')) and \
                it.contains(c, sym('zz', 'str')):
            fail(it, 'a copied combined view shares its part list')
    out.append(Scen('CombinedMultiDict: copy', fn, D + 'CombinedMultiDict'))
    return out
