"""C06: change notification of observable header structures."""
import ast
from .mdlib import *

RULE = ('For every mutating operation of every structure that takes an '
        'update callback, on every normal exit the callback has been called '
        'with the structure itself at a moment when its contents already '
        'were the final contents, or the contents did not change; when a '
        'callback-free structure is used the same operations work; a header '
        'set\'s order and membership views agree after each operation.')
MIN_SCENARIOS = 40

K0, K1, NK = sym('k0', 'str'), sym('k1', 'str'), sym('nk', 'str')
V0, V1, NV = sym('v0'), sym('v1', 'str'), sym('nv', 'str')


def dict_snap(it, o):
    return [(it.facts.norm(k), it.facts.norm(call(
        it, BMethod('dict', '__getitem__'), o, k)))
        for k in list(it.iterate(call(it, BMethod('dict', 'keys'), o)))]


def set_snap(it, o):
    return [it.facts.norm(x) for x in it.iterate(o)]


def rng_snap(it, o):
    return [it.facts.norm(it.getattr(o, a))
            for a in ('units', 'start', 'stop', 'length')]


def equal(it, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple):
            if not equal(it, x, y):
                return False
        elif not same_val(it, x, y):
            return False
    return True


DICT_OPS = {
    'setitem': lambda it, o: it.setitem(o, NK, NV),
    'delitem': lambda it, o: it.delitem(o, NK),
    'clear': lambda it, o: meth(it, o, 'clear'),
    'popitem': lambda it, o: meth(it, o, 'popitem'),
    'update': lambda it, o: meth(it, o, 'update', it.mk_dict({NK: NV})),
    'update-pairs': lambda it, o: meth(it, o, 'update', it.mk_list(
        [Tup((NK, NV))])),
    'update-kw': lambda it, o: meth(it, o, 'update', _kw={'name': NV}),
    'pop': lambda it, o: meth(it, o, 'pop', NK),
    'pop-default': lambda it, o: meth(it, o, 'pop', NK, NV),
    'pop-default-none': lambda it, o: meth(it, o, 'pop', NK, None),
    'setdefault': lambda it, o: meth(it, o, 'setdefault', NK, NV),
    'setdefault-none': lambda it, o: meth(it, o, 'setdefault', NK),
    'ior': lambda it, o: it.inplace(ast.BitOr(), o, it.mk_dict({NK: NV})),
}


def scenarios(prog):
    out = []
    CB = prog.get('verktyg.datastructures.CallbackDict')
    WA = prog.get('verktyg.http.auth.WWWAuthenticate')
    CC = prog.get('verktyg.http.cache_control.ResponseCacheControl')
    HS = prog.get('verktyg.http.basic.HeaderSet')
    CR = prog.get('verktyg.http.cache_control.ContentRange')

    def add(cls, name, make, snap, op, extra=None, may_raise=()):
        def fn(it):
            log = []

            def cb(it2, args, kw):
                log.append((args[0] if args else None, snap(it, args[0])
                            if args else None))
                return None
            mode = it.choose(2, 'callback present')
            hf = HostFunc('on_update', cb)
            o = make(it, hf if not mode else None)
            del log[:]
            before = snap(it, o)
            r = attempt(it, op, it, o)
            after = snap(it, o)
            oblige(it)
            if mode:
                if log:
                    fail(it, '%s.%s calls a callback that was not set'
                         % (cls.name, name))
            elif not equal(it, before, after):
                if not log:
                    fail(it, '%s.%s changes the contents without calling '
                         'the update callback' % (cls.name, name), r[2])
                if not equal(it, log[-1][1], after):
                    fail(it, '%s.%s changes the contents after the last '
                         'callback' % (cls.name, name), r[2])
                if log[-1][0] is not o:
                    fail(it, '%s.%s calls back with a different object'
                         % (cls.name, name))
            if r[0] == 'raise' and not any(is_exc(it, r[1], e)
                                           for e in may_raise):
                fail(it, '%s.%s raises %s' % (cls.name, name,
                                              exc_name(r[1])), r[2])
            if extra is not None:
                extra(it, o, before, after, r)
        out.append(Scen('%s.%s' % (cls.name, name), fn, cls.qual))

    def mk(cls):
        def make(it, cb):
            d = it.mk_dict()
            it.dict_set(d, K0, V0)
            it.dict_set(d, K1, V1)
            if cls is WA:
                o = call(it, cls, None, d, on_update=cb)
            elif cls is CC:
                o = call(it, cls, d, on_update=cb)
            else:
                o = call(it, cls, d, cb)
            return o
        return make

    def semantics(n):
        def extra(it, o, before, after, r):
            oblige(it)
            had = [i for i, (k, v) in enumerate(before) if it.eq(k, NK)]
            if n == 'setitem':
                if r[0] == 'ok' and not any(
                        same_val(it, k, NK) and same_val(it, v, NV)
                        for k, v in after):
                    fail(it, 'assignment does not store the value')
            if n.startswith('pop') and n != 'popitem' and r[0] == 'ok':
                w = before[had[0]][1] if had else (
                    NV if n == 'pop-default' else None)
                if not same_val(it, r[1], w):
                    fail(it, '%s returns %s, not %s' % (n, show(r[1]),
                                                        show(w)))
            if n == 'pop' and (r[0] == 'raise') != (not had):
                fail(it, 'pop of a present key raises or of an absent key '
                     'does not')
            if n == 'pop-default' and r[0] == 'raise' or \
                    n == 'pop-default-none' and r[0] == 'raise':
                fail(it, 'pop with a default raises')
            if n == 'setdefault' and r[0] == 'ok':
                w = before[had[0]][1] if had else NV
                if not same_val(it, r[1], w):
                    fail(it, 'setdefault returns %s, not %s' % (
                        show(r[1]), show(w)))
        return extra

    for cls in (CB, WA, CC):
        for n, op in DICT_OPS.items():
            add(cls, n, mk(cls), dict_snap, op, semantics(n), ('KeyError',))

    # attribute style access of the two structured dicts
    for cls in (WA, CC):
        names = sorted(n for c in cls.mro if c.kind == 'repo'
                       for n, v in c.ns.items()
                       if isinstance(v, Obj) and v.cls.name == 'property')
        for n in sorted(set(names)):
            p = next(c.ns[n] for c in cls.mro if n in c.ns)
            if p.attrs.get('fset') is not None:
                for vn, v in (('value', NV), ('None', None), ('True', True),
                              ('False', False)):
                    add(cls, '%s=%s' % (n, vn), mk(cls), dict_snap,
                        lambda it, o, n=n, v=v: it.setattr(o, n, v))
            if p.attrs.get('fdel') is not None:
                add(cls, 'del ' + n, mk(cls), dict_snap,
                    lambda it, o, n=n: it.delattr(o, n))
    add(WA, 'set_basic', mk(WA), dict_snap,
        lambda it, o: meth(it, o, 'set_basic', NV))
    add(WA, 'set_digest', mk(WA), dict_snap,
        lambda it, o: meth(it, o, 'set_digest', NV, sym('nonce', 'str')))
    for n in ('domain', 'qop'):
        add(WA, n + '.add',
            lambda it, cb: call(it, WA, None, None, on_update=cb), dict_snap,
            lambda it, o, n=n: meth(it, it.getattr(o, n), 'add', NV))

    # header sets
    def mks(it, cb):
        a, b = sym('h0', 'str'), sym('h1', 'str')
        if it.eq(call(it, it.getattr(a, 'lower')),
                 call(it, it.getattr(b, 'lower'))):
            raise Pruned('duplicate initial entries')
        return call(it, HS, it.mk_list([a, b]), cb)

    def low(it, x):
        return it.facts.norm(call(it, it.getattr(x, 'lower')))

    def sets_agree(it, o, before, after, r):
        oblige(it, 4)
        n = it.facts.norm(call(it, it.b('len'), o))
        lows = [low(it, x) for x in after]
        if n != len(after):
            fail(it, 'header set reports length %s but iterates %d entries'
                 % (show(n), len(after)))
        for i, x in enumerate(after):
            if not it.contains(o, x):
                fail(it, 'header set iterates %s but denies containing it'
                     % show(x))
            if it.facts.norm(meth(it, o, 'find', x)) != i:
                fail(it, 'find() of entry %d does not return it' % i)
            if it.facts.norm(meth(it, o, 'index', x)) != i:
                fail(it, 'index() of entry %d does not return it' % i)
            if not it.eq(it.getitem(o, i), x):
                fail(it, 'item %d is not the entry iterated there' % i)
        for x in before:
            if not any(it.eq(low(it, x), y) for y in lows):
                q = attempt(it, meth, it, o, 'index', x)
                if q[0] != 'raise' or not is_exc(it, q[1], 'IndexError'):
                    fail(it, 'index() of a missing entry does not raise '
                         'IndexError')
                if it.facts.norm(meth(it, o, 'find', x)) != -1:
                    fail(it, 'find() of a missing entry is not -1')
        for kw, want in (({}, lows), ({'preserve_casing': True}, after)):
            st = meth(it, o, 'as_set', **kw)
            got = list(it.iterate(st))
            if len(got) != len(want) or not all(
                    it.contains(st, y) for y in want):
                fail(it, 'as_set() does not hold the entries')
            if it.contains(st, 'a new entry'):
                raise Pruned('entry of that name')
            meth(it, st, 'add', 'a new entry')
            if it.contains(o, 'a new entry') or it.facts.norm(
                    call(it, it.b('len'), o)) != len(after):
                fail(it, 'the set given by as_set() is that of the header')
        if not it.eq(call(it, it.b('str'), o), meth(it, o, 'to_header')):
            fail(it, 'str() is not the header')
        if it.truth(o) != bool(after):
            fail(it, 'truth value disagrees with the contents')
        for x in before:
            if not any(it.eq(low(it, x), y) for y in lows) and \
                    it.contains(o, x):
                fail(it, 'removed entry %s is still reported as contained'
                     % show(x))

    H, H2 = sym('nh', 'str'), sym('nh2', 'str')

    def not_dup(op):
        def f(it, o):
            for i, x in enumerate(list(it.iterate(o))):
                if i != 1 and it.eq(low(it, x), low(it, H)):
                    raise Pruned('value present elsewhere')
            return op(it, o)
        return f

    ops = {
        'add': lambda it, o: meth(it, o, 'add', H),
        'remove': lambda it, o: meth(it, o, 'remove', H),
        'discard': lambda it, o: meth(it, o, 'discard', H),
        'update': lambda it, o: meth(it, o, 'update', it.mk_list([H, H2])),
        'clear': lambda it, o: meth(it, o, 'clear'),
        'delitem': lambda it, o: it.delitem(o, 0),
        'delitem-last': lambda it, o: it.delitem(o, -1),
        'setitem': not_dup(lambda it, o: it.setitem(o, 1, H)),
    }

    def set_extra(n):
        def extra(it, o, before, after, r):
            sets_agree(it, o, before, after, r)
            had = any([it.eq(low(it, x), low(it, H)) for x in before])
            oblige(it)
            if n in ('remove', 'discard') and r[0] == 'ok' and any(
                    it.eq(low(it, x), low(it, H)) for x in after):
                fail(it, '%s() leaves the entry in the set' % n)
            if n == 'remove' and (r[0] == 'raise') == had:
                fail(it, 'remove() raises for a present or not for an '
                     'absent entry')
            if n in ('remove', 'discard') and had and \
                    len(after) != len(before) - 1:
                fail(it, '%s() of a present entry leaves %d of %d entries'
                     % (n, len(after), len(before)))
            if n == 'add' and not it.contains(o, H):
                fail(it, 'add() does not add')
        return extra
    for n, op in ops.items():
        add(HS, n, mks, set_snap, op, set_extra(n),
            ('KeyError',) if n == 'remove' else ())

    def dup(it):
        a, b = sym('h0', 'str'), sym('h1', 'str')
        o = call(it, HS, it.mk_list([a, b]))
        snap = set_snap(it, o)
        sets_agree(it, o, snap, snap, ('ok', None, None))
    out.append(Scen('HeaderSet.construct', dup, HS.qual))

    # content range
    def mkr(it, cb):
        s, e, l = (sym(x, 'int') for x in ('start', 'stop', 'length'))
        r = attempt(it, lambda: call(it, CR, 'bytes', s, e, l, on_update=cb))
        if r[0] == 'raise':
            raise Pruned('invalid initial range')
        return r[1]
    s2, e2, l2 = (sym(x, 'int') for x in ('nstart', 'nstop', 'nlength'))
    for n in ('units', 'start', 'stop', 'length'):
        add(CR, n + '=', mkr, rng_snap,
            lambda it, o, n=n: it.setattr(
                o, n, NV if n == 'units' else s2))
    add(CR, 'set', mkr, rng_snap,
        lambda it, o: meth(it, o, 'set', s2, e2, l2), None, ('ValueError',))
    add(CR, 'set-nolength', mkr, rng_snap,
        lambda it, o: meth(it, o, 'set', s2, e2), None, ('ValueError',))
    add(CR, 'unset', mkr, rng_snap, lambda it, o: meth(it, o, 'unset'))
    return out
