"""Association-list reference model for the multi-value mappings."""
from .lib import *

D = 'verktyg.datastructures.'


def fresh_pairs(n=3, ty='str'):
    return [(sym('k%d' % i, 'str'), sym('v%d' % i, ty)) for i in range(n)]


def build(it, prog, cname, pairs):
    cls = prog.get(D + cname)
    return call(it, cls, it.mk_list([Tup(p) for p in pairs]))


def eq(it, a, b):
    return it.eq(a, b)


def m_has(it, m, k):
    return any([eq(it, k, x) for x, _ in m])


def m_list(it, m, k):
    return [v for x, v in m if eq(it, k, x)]


def m_del(it, m, k):
    return [(x, v) for x, v in m if not eq(it, k, x)]


def m_keys(it, m):
    out = []
    for x, _ in m:
        if not any(eq(it, x, y) for y in out):
            out.append(x)
    return out


def seq(it, v):
    return [it.facts.norm(x) for x in it.iterate(v)]


def pair(it, x):
    x = it.facts.norm(x)
    return (it.facts.norm(it.getitem(x, 0)), it.facts.norm(it.getitem(x, 1)))


def same_val(it, a, b):
    a, b = it.facts.norm(a), it.facts.norm(b)
    if a is b:
        return True
    return it.facts.decide_eq(a, b) is True


def same_seq(it, xs, ys):
    return len(xs) == len(ys) and all(same_val(it, a, b)
                                      for a, b in zip(xs, ys))


def verify(it, d, model, what, ordered, other=None):
    """all read views of d agree with the association list `model`"""
    def bad(view, got, want):
        fail(it, '%s: %s gives %s, contents are %s' % (
            what, view, show_any(got), show_any(want)))

    keys = m_keys(it, model)
    multi = [pair(it, x) for x in it.iterate(meth(it, d, 'items',
                                                  multi=True))]
    want = list(model) if ordered else [
        (k, v) for k in keys for v in m_list(it, model, k)]
    oblige(it)
    if len(multi) != len(want) or not all(
            same_val(it, a[0], b[0]) and same_val(it, a[1], b[1])
            for a, b in zip(multi, want)):
        bad('items(multi=True)', multi, want)
    for k in keys:
        vs = m_list(it, model, k)
        oblige(it, 3)
        if not it.contains(d, k):
            bad('key membership', False, True)
        got = seq(it, meth(it, d, 'getlist', k))
        if not same_seq(it, got, vs):
            bad('getlist()', got, vs)
        g = it.getitem(d, k)
        if not same_val(it, g, vs[0]):
            bad('subscript', g, vs[0])
        g = meth(it, d, 'get', k)
        if not same_val(it, g, vs[0]):
            bad('get()', g, vs[0])
    n = call(it, it.b('len'), d)
    oblige(it)
    if it.facts.norm(n) != len(keys):
        bad('len()', n, len(keys))
    got = seq(it, meth(it, d, 'keys'))
    if not same_seq(it, got, keys):
        bad('keys()', got, keys)
    got = seq(it, d)
    if not same_seq(it, got, keys):
        bad('iteration', got, keys)
    firsts = [m_list(it, model, k)[0] for k in keys]
    got = seq(it, meth(it, d, 'values'))
    if not same_seq(it, got, firsts):
        bad('values()', got, firsts)
    got = [pair(it, x) for x in it.iterate(meth(it, d, 'items'))]
    if not same_seq(it, [a for a, _ in got], keys) or not same_seq(
            it, [b for _, b in got], firsts):
        bad('items()', got, list(zip(keys, firsts)))
    got = [pair(it, x) for x in it.iterate(meth(it, d, 'lists'))]
    if not same_seq(it, [a for a, _ in got], keys):
        bad('lists()', got, keys)
    for (k, l) in got:
        if not same_seq(it, seq(it, l), m_list(it, model, k)):
            bad('lists()', seq(it, l), m_list(it, model, k))
    got = [seq(it, l) for l in it.iterate(meth(it, d, 'listvalues'))]
    if len(got) != len(keys):
        bad('listvalues()', got, keys)
    for k, l in zip(keys, got):
        if not same_seq(it, l, m_list(it, model, k)):
            bad('listvalues()', l, m_list(it, model, k))
    oblige(it, 8)
    for flat in (True, False):
        td = meth(it, d, 'to_dict', flat=flat)
        got = [it.facts.norm(x) for x in it.iterate(td)]
        if len(got) != len(keys):
            bad('to_dict(flat=%s)' % flat, got, keys)
        for k in keys:
            vs = m_list(it, model, k)
            g = call(it, BMethod('dict', '__getitem__'), td, k)
            if flat and not same_val(it, g, vs[0]):
                bad('to_dict()', g, vs[0])
            if not flat and not same_seq(it, seq(it, g), vs):
                bad('to_dict(flat=False)', seq(it, g), vs)
    if other is not None and not m_has(it, model, other):
        oblige(it)
        if it.contains(d, other):
            bad('membership of a removed/absent key', True, False)
        got = seq(it, meth(it, d, 'getlist', other))
        if got:
            bad('getlist() of an absent key', got, [])

        if it.facts.norm(meth(it, d, 'get', other)) is not None:
            bad('get() of an absent key', meth(it, d, 'get', other), None)
        dv = sym('given default')
        if it.facts.norm(meth(it, d, 'get', other, dv)) is not dv:
            bad('get() with default of an absent key', meth(
                it, d, 'get', other, dv), dv)
        r = attempt(it, it.getitem, d, other)
        if r[0] != 'raise' or not is_exc(it, r[1], 'KeyError'):
            fail(it, '%s: subscript with an absent key does not raise a key '
                 'error' % what)


def typed(it, d, model, key, what):
    """get() and getlist() with a conversion that refuses some values"""
    refused = {}

    def conv(i, a, k):
        v = i.facts.norm(a[0])
        if v not in refused:
            refused[v] = bool(i.choose(2, 'conversion refuses'))
        if refused[v]:
            i.raise_('ValueError', 'refused')
        return Term('converted', (v,))
    f = HostFunc('conv', conv)
    vs = m_list(it, model, key)
    dv = sym('given default')
    got = attempt(it, meth, it, d, 'get', key, dv, f)
    oblige(it, 2)
    if got[0] == 'raise':
        fail(it, '%s: get() with a type raises %s' % (what, exc_name(got[1])))
    firsts = vs[:1]
    if firsts and not refused.get(it.facts.norm(firsts[0])):
        w = Term('converted', (it.facts.norm(firsts[0]),))
    else:
        w = dv
    if it.facts.norm(got[1]) is not w:
        fail(it, '%s: get() with a type gives %s instead of %s' % (
            what, show(got[1]), show(w)))
    got = attempt(it, meth, it, d, 'getlist', key, f)
    if got[0] == 'raise':
        fail(it, '%s: getlist() with a type raises %s' % (
            what, exc_name(got[1])))
    w = [Term('converted', (it.facts.norm(v),)) for v in vs
         if not refused.get(it.facts.norm(v))]
    g = seq(it, got[1])
    if len(g) != len(w) or any(a is not b for a, b in zip(g, w)):
        fail(it, '%s: getlist() with a type gives %s instead of %s' % (
            what, show_any(g), show_any(w)))


def show_any(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(show_any(x) for x in v) + ']'
    return show(v)
