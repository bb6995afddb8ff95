"""C05: multi-value mappings behave as association lists."""
import itertools
import ast
from .mdlib import *

RULE = ('From every abstract content of up to three key/value pairs (all '
        'equality patterns of the keys), every operation and every '
        'sequence of two operations of the plain and ordered multi-value mapping '
        'leaves all read views - items, lists, keys, values, getlist, '
        'subscript, len, membership - in agreement with the association list '
        'the documentation describes; insertion order is kept exactly by the '
        'ordered one.')
MIN_SCENARIOS = 30

NK, NV, NV2 = sym('nk', 'str'), sym('nv', 'str'), sym('nv2', 'str')
DEF = sym('dflt', 'str')


def op_add(it, d, m):
    meth(it, d, 'add', NK, NV)
    return m + [(NK, NV)]


def op_setitem(it, d, m):
    it.setitem(d, NK, NV)
    return setitem_model(it, d, m, [(NK, NV)])


def setitem_model(it, d, m, new):
    if 'Ordered' in d.cls.name:
        return m_del(it, m, NK) + new
    # a plain one keeps the position of an existing key
    out, done = [], False
    for k, v in m:
        if eq(it, k, NK):
            if not done:
                out += new
                done = True
        else:
            out.append((k, v))
    return out if done else out + new


def op_delitem(it, d, m):
    r = attempt(it, it.delitem, d, NK)
    if m_has(it, m, NK):
        want(it, r, 'del of a present key')
        return m_del(it, m, NK)
    missing(it, r, 'del of an absent key')
    return m


def want(it, r, what):
    oblige(it)
    if r[0] != 'ok':
        fail(it, '%s raises %s' % (what, exc_name(r[1])), r[2])


def missing(it, r, what):
    oblige(it)
    if r[0] != 'raise' or not is_exc(it, r[1], 'KeyError'):
        fail(it, '%s does not raise a key error' % what, r[2])


def op_setlist(it, d, m):
    meth(it, d, 'setlist', NK, it.mk_list([NV, NV2]))
    return setitem_model(it, d, m, [(NK, NV), (NK, NV2)])


def op_update_list(it, d, m):
    meth(it, d, 'update', it.mk_list([Tup((NK, NV)), Tup((NK, NV2))]))
    return m + [(NK, NV), (NK, NV2)]


def op_update_dict(it, d, m):
    meth(it, d, 'update', it.mk_dict({NK: it.mk_list([NV, NV2])}))
    return m + [(NK, NV), (NK, NV2)]


def op_update_md(it, d, m):
    o = build(it, it.prog, 'MultiDict', [(NK, NV), (NK, NV2)])
    meth(it, d, 'update', o)
    return m + [(NK, NV), (NK, NV2)]


def op_ior(it, d, m):
    r = it.inplace(ast.BitOr(), d, it.mk_dict({NK: NV}))
    oblige(it)
    if r is not d:
        fail(it, '|= does not return the container')
    return m + [(NK, NV)]


def op_pop(it, d, m):
    r = attempt(it, meth, it, d, 'pop', NK)
    if m_has(it, m, NK):
        want(it, r, 'pop of a present key')
        if not same_val(it, r[1], m_list(it, m, NK)[0]):
            fail(it, 'pop() returns %s' % show(r[1]))
        return m_del(it, m, NK)
    missing(it, r, 'pop of an absent key')
    return m


def op_pop_default(it, d, m):
    r = attempt(it, meth, it, d, 'pop', NK, DEF)
    want(it, r, 'pop with default')
    w = m_list(it, m, NK)[0] if m_has(it, m, NK) else DEF
    if not same_val(it, r[1], w):
        fail(it, 'pop(key, default) returns %s, not %s' % (
            show(r[1]), show(w)))
    return m_del(it, m, NK)


def op_poplist(it, d, m):
    r = meth(it, d, 'poplist', NK)
    oblige(it)
    if not same_seq(it, seq(it, r), m_list(it, m, NK)):
        fail(it, 'poplist() returns %s' % show_any(seq(it, r)))
    return m_del(it, m, NK)


def op_popitem(it, d, m):
    r = attempt(it, meth, it, d, 'popitem')
    if not m:
        missing(it, r, 'popitem on empty')
        return m
    want(it, r, 'popitem')
    k, v = pair(it, r[1])
    vs = m_list(it, m, k)
    oblige(it)
    if not vs or not same_val(it, vs[0], v):
        fail(it, 'popitem() returns (%s, %s)' % (show(k), show(v)))
    return m_del(it, m, k)


def op_popitemlist(it, d, m):
    r = attempt(it, meth, it, d, 'popitemlist')
    if not m:
        missing(it, r, 'popitemlist on empty')
        return m
    want(it, r, 'popitemlist')
    k, v = pair(it, r[1])
    oblige(it)
    if not same_seq(it, seq(it, v), m_list(it, m, k)) or not seq(it, v):
        fail(it, 'popitemlist() returns %s' % show_any(seq(it, v)))
    return m_del(it, m, k)


def op_clear(it, d, m):
    meth(it, d, 'clear')
    return []


def op_setdefault(it, d, m):
    r = meth(it, d, 'setdefault', NK, NV)
    had = m_has(it, m, NK)
    w = m_list(it, m, NK)[0] if had else NV
    oblige(it)
    if not same_val(it, r, w):
        fail(it, 'setdefault() returns %s, not %s' % (show(r), show(w)))
    return m if had else m + [(NK, NV)]


def op_copy(it, d, m):
    c = meth(it, d, 'copy')
    verify(it, c, m, 'copy()', 'Ordered' in d.cls.name)
    return m


def op_state(it, d, m):
    """pickle-style state transfer into an already used container"""
    src = build(it, it.prog, d.cls.name, [(NK, NV), (NK, NV2)])
    st = meth(it, src, '__getstate__')
    meth(it, d, '__setstate__', st)
    return [(NK, NV), (NK, NV2)]


def op_deepcopy(it, d, m):
    c = meth(it, d, 'deepcopy')
    dc = Ext('copy.deepcopy')
    verify(it, c, [(k, call(it, dc, v)) for k, v in m], 'deepcopy()',
           'Ordered' in d.cls.name)
    return m


def op_setdefault_none(it, d, m):
    r = meth(it, d, 'setdefault', NK)
    had = m_has(it, m, NK)
    w = m_list(it, m, NK)[0] if had else None
    oblige(it)
    if not same_val(it, r, w):
        fail(it, 'setdefault() returns %s, not %s' % (show(r), show(w)))
    return m if had else m + [(NK, None)]


def op_setlistdefault(it, d, m):
    if 'Ordered' in d.cls.name:
        r = attempt(it, meth, it, d, 'setlistdefault', NK)
        oblige(it)
        if r[0] != 'raise' or not is_exc(it, r[1], 'TypeError'):
            fail(it, 'setlistdefault() of an ordered one does not refuse')
        return m
    r = meth(it, d, 'setlistdefault', NK, it.mk_list([NV]))
    had = m_has(it, m, NK)
    w = m_list(it, m, NK) if had else [NV]
    oblige(it)
    if not same_seq(it, seq(it, r), w):
        fail(it, 'setlistdefault() returns %s' % show_any(seq(it, r)))
    # the documented live list
    meth(it, r, 'append', NV2)
    if had:
        out, n = [], len(w)
        for k, v in m:
            out.append((k, v))
            if eq(it, k, NK):
                n -= 1
                if not n:
                    out.append((k, NV2))
        return out
    return m + [(NK, NV), (NK, NV2)]


def op_update_omd(it, d, m):
    o = build(it, it.prog, 'OrderedMultiDict', [
        (NK, NV), (sym('k0', 'str'), DEF), (NK, NV2)])
    meth(it, d, 'update', o)
    return m + [(NK, NV), (sym('k0', 'str'), DEF), (NK, NV2)]


def op_update_tuple(it, d, m):
    meth(it, d, 'update', it.mk_dict({NK: Tup((NV, NV2))}))
    return m + [(NK, NV), (NK, NV2)]


def op_update_value(it, d, m):
    meth(it, d, 'update', it.mk_dict({NK: NV}))
    return m + [(NK, NV)]


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith('op_')}


def scenarios(prog):
    import os
    out = []
    for cname in ('MultiDict', 'OrderedMultiDict'):
        cls = prog.get(D + cname)
        ordered = cname == 'OrderedMultiDict'
        for n, f in OPS.items():
            def fn(it, f=f, n=n, cname=cname, ordered=ordered):
                pairs = fresh_pairs(3, None)[:(3, 2, 1, 0)[it.choose(
                    4, 'initial size')]]
                d = build(it, prog, cname, pairs)
                m = f(it, d, list(pairs))
                verify(it, d, m, '%s after %s' % (cname, n), ordered, NK)
            out.append(Scen('%s.%s' % (cname, n), fn, cls.qual))
        if True:
            size = 3 if os.environ.get('VERIF_TIER') == 'thorough' else 2
            for n, f in OPS.items():
                for n2, f2 in OPS.items():
                    def fn(it, f=f, f2=f2, n=n, n2=n2, cname=cname,
                           ordered=ordered, size=size):
                        pairs = fresh_pairs(size, None)
                        if size == 2:
                            pairs = pairs[:2 - it.choose(3, 'initial size')]
                        d = build(it, prog, cname, pairs)
                        m = f(it, d, list(pairs))
                        m = f2(it, d, m)
                        verify(it, d, m, '%s after %s, %s' % (cname, n, n2),
                               ordered, NK)
                    out.append(Scen('%s.%s;%s' % (cname, n, n2), fn,
                                    cls.qual))
        core = [n for n in ('add', 'setitem', 'setlist', 'pop', 'poplist',
                            'popitem', 'clear') if n in OPS]
        for ns in itertools.product(core, repeat=3):
            def fn(it, ns=ns, cname=cname, ordered=ordered):
                pairs = fresh_pairs(1)
                d = build(it, prog, cname, pairs)
                m = list(pairs)
                for n in ns:
                    m = OPS[n](it, d, m)
                verify(it, d, m, '%s after %s' % (cname, ', '.join(ns)),
                       ordered, NK)
            out.append(Scen('%s.%s' % (cname, ';'.join(ns)), fn, cls.qual))
    # conversion while reading
    def reads(cname):
        def fn(it):
            p = [(sym('k%d' % i, 'str'), sym('v%d' % i, 'str'))
                 for i in range(it.choose(4, 'size'))]
            d = build(it, prog, cname, p)
            typed(it, d, p, NK, cname)
        return fn
    for cname in ('MultiDict', 'OrderedMultiDict'):
        out.append(Scen(cname + ' typed reads', reads(cname),
                        prog.get(D + cname).qual))

    # construction
    def makes(cname):
        ordered = 'Ordered' in cname

        def fn(it):
            p = fresh_pairs(3, None)[:it.choose(4, 'size')]
            how = it.choose(7, 'source')
            m = list(p)
            if how == 0:
                src = it.mk_list([Tup(x) for x in p])
            elif how == 1:
                src = it.call(prog.builtins['iter'], [it.mk_list(
                    [Tup(x) for x in p])], {})
            elif how == 2:
                src = build(it, prog, 'MultiDict', p)
                m = [(k, v) for k in m_keys(it, p) for v in m_list(it, p, k)]
            elif how == 3:
                src = build(it, prog, 'OrderedMultiDict', p)
            elif how == 4:
                src = it.mk_dict({NK: NV, 'x' : NV2})
                m = [(NK, NV), ('x', NV2)]
            elif how == 5:
                src = it.mk_dict({NK: it.mk_list([NV, NV2]),
                                  'x': Tup((NV, DEF))})
                m = [(NK, NV), (NK, NV2), ('x', NV), ('x', DEF)]
            else:
                src, m = None, []
            if how in (4, 5) and it.eq(NK, 'x'):
                return
            d = call(it, prog.get(D + cname), src)
            verify(it, d, m, 'new ' + cname, ordered, None)
        return fn
    for cname in ('MultiDict', 'OrderedMultiDict', 'ImmutableMultiDict',
                  'ImmutableOrderedMultiDict'):
        out.append(Scen(cname + ' made', makes(cname), prog.get(D + cname).qual))

    # comparison
    def eqs(cname, other):
        ordered = 'Ordered' in cname and 'Ordered' in other

        def fn(it):
            p = fresh_pairs(it.choose(3, 'size'))
            q = [(sym('q%d' % i, 'str'), sym('w%d' % i, 'str'))
                 for i in range(it.choose(3, 'other size'))]
            a, b = build(it, prog, cname, p), build(it, prog, other, q)
            got = it.eq(a, b)
            if ordered:
                want = len(p) == len(q) and all([
                    it.eq(x[0], y[0]) and it.eq(x[1], y[1])
                    for x, y in zip(p, q)])
            else:
                ka, kb = m_keys(it, p), m_keys(it, q)
                want = len(ka) == len(kb) and all(
                    m_has(it, q, k) for k in ka)
                for k in ka:
                    if not want:
                        break
                    va, vb = m_list(it, p, k), m_list(it, q, k)
                    want = len(va) == len(vb) and all(
                        it.eq(x, y) for x, y in zip(va, vb))
            oblige(it, 2)
            if got != want:
                fail(it, '%s comparison of %s and %s gives %s' % (
                    cname, show_any(p), show_any(q), got))
            ne = it.truth(it.compare(ast.NotEq(), a, b))
            if ne == want:
                fail(it, '%s: != gives %s where == gives %s' % (
                    cname, ne, got))
        return fn
    for cname, other in (
            ('MultiDict', 'MultiDict'), ('OrderedMultiDict',) * 2,
            ('OrderedMultiDict', 'MultiDict'),
            ('ImmutableMultiDict', 'MultiDict'),
            ('ImmutableOrderedMultiDict', 'OrderedMultiDict'),
            ('ImmutableOrderedMultiDict', 'ImmutableMultiDict')):
        out.append(Scen('%s == %s' % (cname, other), eqs(cname, other),
                        prog.get(D + cname).qual))

    def foreign(it):
        cname = ('MultiDict', 'OrderedMultiDict', 'ImmutableMultiDict')[
            it.choose(3, 'class')]
        d = build(it, prog, cname, fresh_pairs(it.choose(2, 'size')))
        o = (None, 5, 'text', it.mk_list([]))[it.choose(4, 'other')]
        oblige(it, 2)
        if it.truth(it.compare(ast.Eq(), d, o)):
            fail(it, '%s equals %s' % (cname, show(o)))
        if not it.truth(it.compare(ast.NotEq(), d, o)):
            fail(it, '%s is not unequal to %s' % (cname, show(o)))
    out.append(Scen('comparison with other objects', foreign,
                    D + 'MultiDict'))

    # the merged read-only view
    def comb(it):
        p = fresh_pairs(3)
        a = build(it, prog, 'MultiDict', p[:2])
        b = build(it, prog, 'MultiDict', p[2:])
        c = call(it, prog.get(D + 'CombinedMultiDict'), it.mk_list([a, b]))
        model = list(p)
        for k in m_keys(it, model):
            vs = m_list(it, model, k)
            oblige(it, 4)
            if not it.contains(c, k):
                fail(it, 'combined view lacks a key of one of its parts')
            if not same_seq(it, seq(it, meth(it, c, 'getlist', k)), vs):
                fail(it, 'combined getlist() is not the concatenation')
            first = m_list(it, p[:2], k) or m_list(it, p[2:], k)
            if not same_val(it, it.getitem(c, k), first[0]):
                fail(it, 'combined subscript is not the first part\'s value')
            if not same_val(it, meth(it, c, 'get', k), first[0]):
                fail(it, 'combined get() is not the first part\'s value')
        n = it.facts.norm(call(it, it.b('len'), c))
        oblige(it, 2)
        if n != len(m_keys(it, model)):
            fail(it, 'combined len() is %s' % show(n))
        multi = [pair(it, x) for x in it.iterate(
            meth(it, c, 'items', multi=True))]
        if len(multi) != 3:
            fail(it, 'combined items(multi=True) yields %d of 3 pairs'
                 % len(multi))
        for k in m_keys(it, model):
            oblige(it)
            if not same_seq(it, [v for x, v in multi if it.eq(x, k)],
                            m_list(it, model, k)):
                fail(it, 'combined items(multi=True) disagrees with '
                     'getlist()')
        keys = m_keys(it, model)
        for what in ('keys', 'iter', 'items', 'values', 'lists',
                     'listvalues'):
            oblige(it)
            v = seq(it, c) if what == 'iter' else [
                it.facts.norm(x) for x in it.iterate(meth(it, c, what))]
            if len(v) != len(keys):
                fail(it, 'combined %s() yields %d entries for %d keys' % (
                    what, len(v), len(keys)))
            if what in ('keys', 'iter') and not all(
                    any([it.eq(x, k) for x in v]) for k in keys):
                fail(it, 'combined %s() lacks a key' % what)
            if what == 'items':
                for x in v:
                    k, w = pair(it, x)
                    if not same_val(it, w, it.getitem(c, k)):
                        fail(it, 'combined items() disagrees with subscript')
            if what == 'values':
                firsts = [it.getitem(c, k) for k in it.iterate(c)]
                firsts = [pair(it, x)[1] for x in it.iterate(
                    meth(it, c, 'items'))]
                if not same_seq(it, v, firsts):
                    fail(it, 'combined values() disagrees with items()')
        for flat in (True, False):
            td = meth(it, c, 'to_dict', flat=flat)
            for k in m_keys(it, model):
                oblige(it)
                vs = m_list(it, model, k)
                g = it.getitem(td, k)
                if not flat and not same_seq(it, seq(it, g), vs):
                    fail(it, 'combined to_dict(flat=False) gives %s, the '
                         'parts hold %s' % (show_any(seq(it, g)),
                                            show_any(vs)))
                if flat and not same_val(it, g, vs[0]):
                    fail(it, 'combined to_dict() is not the first part\'s '
                         'value')
        for k, l in [pair(it, x) for x in it.iterate(meth(it, c, 'lists'))]:
            oblige(it)
            if not same_seq(it, seq(it, l), m_list(it, model, k)):
                fail(it, 'combined lists() disagrees with getlist()')
        if not m_has(it, model, NK):
            oblige(it)
            if it.contains(c, NK):
                fail(it, 'combined view has an absent key')
            if it.facts.norm(meth(it, c, 'get', NK)) is not None:
                fail(it, 'combined get() of an absent key')
            if it.facts.norm(meth(it, c, 'get', NK, DEF)) is not DEF:
                fail(it, 'combined get() ignores the default')
            r = attempt(it, it.getitem, c, NK)
            missing(it, r, 'combined subscript with an absent key')
            if seq(it, meth(it, c, 'getlist', NK)):
                fail(it, 'combined getlist() of an absent key')
        # conversion: the first part whose value can be converted
        ref = {}

        def refused(i, v):
            v = i.facts.norm(v)
            if v not in ref:
                ref[v] = bool(i.choose(2, 'refuses'))
            return ref[v]

        def conv(i, a, k):
            if refused(i, a[0]):
                i.raise_('ValueError', 'refused')
            return Term('converted', (i.facts.norm(a[0]),))
        f = HostFunc('conv', conv)
        if it.choose(2, 'conversion'):
            k = p[0][0]
            wv = DEF
            for part in (p[:2], p[2:]):
                vs = m_list(it, part, k)
                if vs and not refused(it, vs[0]):
                    wv = Term('converted', (it.facts.norm(vs[0]),))
                    break
            oblige(it, 2)
            g = it.facts.norm(meth(it, c, 'get', k, DEF, f))
            if g is not wv:
                fail(it, 'combined get() with a type gives %s, not %s' % (
                    show(g), show(wv)))
            wl = [Term('converted', (it.facts.norm(v),))
                  for v in m_list(it, model, k) if not refused(it, v)]
            g = seq(it, meth(it, c, 'getlist', k, f))
            if len(g) != len(wl) or any(x is not y for x, y in zip(g, wl)):
                fail(it, 'combined getlist() with a type gives %s'
                     % show_any(g))
            return
        d = meth(it, c, ('copy', 'deepcopy')[it.choose(2, 'copy')])
        got = [pair(it, x) for x in it.iterate(
            meth(it, d, 'items', multi=True))]
        oblige(it)
        if len(got) != 3 or any(not same_val(it, x[i], y[i]) for x, y in zip(
                got, multi) for i in (0, 1)):
            fail(it, 'a copy of the combined view has other contents')
    out.append(Scen('CombinedMultiDict.views', comb, D + 'CombinedMultiDict'))
    return out
