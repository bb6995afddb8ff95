"""C44: equal immutable containers have equal hashes."""
import itertools
from .mdlib import *

RULE = ('Two containers are made from arbitrary values in every order; on '
        'each way on which they compare equal, what their __hash__ passes to '
        'the builtin hash() compares equal as well, a second call gives the '
        'same number, and hashing leaves the container as it was.  The '
        'mutable relatives refuse to be hashed.')
MIN_SCENARIOS = 15

DICTS = ('ImmutableDict', 'ImmutableTypeConversionDict')
MULTI = ('ImmutableMultiDict', 'ImmutableOrderedMultiDict')


def scenarios(prog):
    out = []
    hf = prog.builtins['hash']

    def hasher(it):
        seen = []

        def hook(i, v):
            for n, x in enumerate(seen):
                if x is v:
                    return 1000 + n
            seen.append(v)
            return 1000 + len(seen) - 1
        it.hooks['hash'] = hook
        return seen

    def hash_of(it, seen, o):
        n = len(seen)
        r = attempt(it, call, it, hf, o)
        if r[0] == 'raise':
            fail(it, 'hashing a %s of text raises %s' % (
                o.cls.name, exc_name(r[1])), r[2])
        if len(seen) != n + 1 or r[1] != 1000 + n:
            raise Unsupported('the hash is not that of one value')
        return r[1], seen[n]

    def judge(it, a, b):
        seen = hasher(it)
        oblige(it, 3)
        if not it.eq(a, b):
            return
        na, va = hash_of(it, seen, a)
        nb, vb = hash_of(it, seen, b)
        if not it.eq(va, vb):
            fail(it, 'equal %s have different hashes: those of %s and %s' % (
                a.cls.name, show(va), show(vb)))
        for o, n in ((a, na), (b, nb)):
            m = it.facts.norm(call(it, hf, o))
            again = m if m < 1000 else seen[m - 1000]
            first = seen[n - 1000]
            if m != n and not it.eq(again, first):
                fail(it, 'the hash of a %s changes' % o.cls.name)
        if not it.eq(a, b):
            fail(it, 'hashing changes what the %s equals' % a.cls.name)

    def lists(n):
        def fn(it):
            cls = prog.get(D + 'ImmutableList')
            x = [sym('x%d' % i, 'str') for i in range(n)]
            y = [sym('y%d' % i, 'str') for i in range(n)]
            judge(it, call(it, cls, it.mk_list(x)),
                  call(it, cls, it.mk_list(y)))
        return fn
    for n in range(3):
        out.append(Scen('ImmutableList of %d' % n, lists(n),
                        D + 'ImmutableList'))

    def dicts(cname, perm):
        def fn(it):
            cls = prog.get(D + cname)
            p = fresh_pairs(len(perm))
            q = [(sym('q%d' % i, 'str'), sym('w%d' % i, 'str'))
                 for i in perm]
            mk = lambda ps: call(it, cls, it.mk_list(   # noqa: E731
                [Tup(x) for x in ps]))
            judge(it, mk(p), mk(q))
        return fn

    def perms(cname, perm):
        def fn(it):
            cls = prog.get(D + cname)
            p = fresh_pairs(len(perm))
            mk = lambda ps: call(it, cls, it.mk_list(   # noqa: E731
                [Tup(x) for x in ps]))
            judge(it, mk(p), mk([p[i] for i in perm]))
        return fn
    for c in DICTS + MULTI:
        for n in range(3):
            out.append(Scen('%s of %d' % (c, n), dicts(c, range(n)), D + c))
        for perm in itertools.permutations(range(3)):
            out.append(Scen('%s in order %s' % (c, ''.join(map(str, perm))),
                            perms(c, perm), D + c))

    # equal values of different types
    def mixed(c):
        def fn(it):
            cls = prog.get(D + c)
            if c == 'ImmutableList':
                a, b = [1, 0, 'x'], [1.0, False, 'x']
            else:
                a = [Tup((1, 0)), Tup(('x', True))]
                b = [Tup((True, 0.0)), Tup(('x', 1))]
            a, b = (call(it, cls, it.mk_list(x)) for x in (a, b))
            if not it.eq(a, b):
                fail(it, 'a %s of equal values is not equal' % c)
            judge(it, a, b)
        return fn
    for c in ('ImmutableList',) + DICTS + MULTI:
        out.append(Scen('%s of numbers' % c, mixed(c), D + c))

    # the relatives that can change
    for c, arg in (('MultiDict', 'pairs'), ('OrderedMultiDict', 'pairs'),
                   ('TypeConversionDict', 'pairs')):
        def mutable(it, c=c):
            hasher(it)
            o = call(it, prog.get(D + c), it.mk_list(
                [Tup(x) for x in fresh_pairs(1)]))
            r = attempt(it, call, it, hf, o)
            oblige(it)
            if r[0] != 'raise' or not is_exc(it, r[1], 'TypeError'):
                fail(it, 'a %s, which can change, can be hashed' % c)
        out.append(Scen('%s unhashable' % c, mutable, D + c))
    return out
