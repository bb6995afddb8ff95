"""C21: the quality of a value is that of the most specific matching range."""
import itertools

from .lib import *

RULE = ('For every selection and order of ranges (exact, wildcard, prefix, '
        'near miss) with arbitrary numeric qualities, given as objects or as '
        'header text, the acceptability of a content type, language or '
        'charset is that of the most specific range matching it (the highest '
        'quality among equally specific ones), is refused when nothing '
        'matches or that quality is zero, and orders by specificity, then '
        'quality.')
MIN_SCENARIOS = 60

# kind: (value, {range: rank or None}, attributes(rank))
KINDS = {
    'type': ('text/html', {
        'text/html': 3, 'text/*': 2, '*/*': 1, 'text/htm': None,
        'text/html5': None, 'tex/html': None, 'html/text': None,
        'text/plain': None, 'application/*': None}),
    'language': ('en-gb', {
        'en-gb': 3, 'en': 2, '*': 1, 'e': None, 'en-g': None, 'gb': None,
        'en-us': None, 'fr': None, 'en-gb-x': None}),
    'long language': ('a-b-c', {
        'a-b-c': 4, 'a-b': 3, 'a': 2, '*': 1, 'a-c': None, 'b-c': None}),
    'short language': ('en', {
        'en': 2, '*': 1, 'en-gb': None, 'e': None, 'english': None}),
    'charset': ('utf-8', {
        'utf-8': 2, '*': 1, 'utf': None, 'utf-81': None, 'ascii': None}),
}
ATTRS = {
    'type': {3: dict(type_matches=True, subtype_matches=True,
                     exact_match=True),
             2: dict(type_matches=True, subtype_matches=False,
                     exact_match=False),
             1: dict(type_matches=False, subtype_matches=False,
                     exact_match=False)},
    'language': {3: dict(specificity=2, tail=0, exact_match=True),
                 2: dict(specificity=1, tail=1, exact_match=False),
                 1: dict(specificity=0, tail=2, exact_match=False)},
    'long language': {4: dict(specificity=3, tail=0, exact_match=True),
                      3: dict(specificity=2, tail=1, exact_match=False),
                      2: dict(specificity=1, tail=2, exact_match=False),
                      1: dict(specificity=0, tail=3, exact_match=False)},
    'short language': {2: dict(specificity=1, tail=0, exact_match=True),
                       1: dict(specificity=0, tail=1, exact_match=False)},
    'charset': {2: dict(exact_match=True), 1: dict(exact_match=False)},
}


def unit(it, name):
    """arbitrary quality between zero and one"""
    q = sym(name, 'float')
    if it.less(q, 0.0) or it.less(1.0, q):
        raise Pruned('quality outside of the range')
    return q


def sels(kind, n):
    v, rs = KINDS[kind]
    good = [r for r in rs if rs[r]]
    bad = [r for r in rs if not rs[r]]
    out = [()]
    for k in range(1, n + 1):
        out += itertools.product(good, repeat=k)
    for b in bad:
        out.append((b,))
        for g in good:
            out += [(b, g), (g, b)]
    return out


def scenarios(prog):
    out = []
    mods = {'type': ('verktyg.accept.content_type.', 'ContentType',
                     'ContentTypeAccept', 'parse_accept_header',
                     'parse_content_type_header'),
            'language': ('verktyg.accept.language.', 'Language',
                         'LanguageAccept', 'parse_accept_language_header',
                         'parse_language_header'),
            'charset': ('verktyg.accept.charset.', 'Charset',
                        'CharsetAccept', 'parse_accept_charset_header',
                        'parse_charset_header')}
    NA = prog.get('verktyg.exceptions.NotAcceptable')

    def value(it, kind, qs):
        m = mods[kind.split()[-1]]
        v = KINDS[kind][0]
        if qs is None and it.choose(2, 'parsed value'):
            return call(it, prog.get(m[0] + m[4]), v)
        return call(it, prog.get(m[0] + m[1]), v,
                    **({} if qs is None else {'qs': qs}))

    def header(it, kind, sel, qs, text):
        m = mods[kind.split()[-1]]
        if not text:
            return call(it, prog.get(m[0] + m[2]), it.mk_list(
                [Tup((r, q)) for r, q in zip(sel, qs)]))
        parts = []
        for r, q in zip(sel, qs):
            if parts:
                parts.append(', ')
            parts += [r, ';q=', q]
        s = parts[0]
        for p in parts[1:]:
            s = add(it, s, p)
        return call(it, prog.get(m[0] + m[3]), s)

    def expected(it, kind, sel, qs):
        rank, q = 0, None
        for r, x in zip(sel, qs):
            k = KINDS[kind][1][r]
            if k is None or k < rank:
                continue
            if k > rank:
                rank, q = k, x
            elif it.less(q, x):
                q = x
        return rank, q

    def qual(kind, sel, text, with_qs):
        def fn(it):
            if text:
                qs = []
                for i in range(len(sel)):
                    p = sym('q%d' % i, 'str')
                    for c in ',;=':
                        it.facts.truth[Term('in', (c, p), 'bool')] = False
                    it.facts.truth[Term('nospace', (p,), 'bool')] = True
                    qs.append(p)
                fs = []
                for p in qs:
                    if not it.truth(p):
                        raise Pruned('not a number')
                    it.raise_ops = True
                    f = attempt(it, call, it, it.b('float'), p)
                    it.raise_ops = False
                    if f[0] == 'raise':
                        raise Pruned('not a number')
                    f = f[1]
                    if it.less(f, 0.0) or it.less(1.0, f):
                        raise Pruned('quality outside of the range')
                    fs.append(f)
            else:
                qs = fs = [unit(it, 'q%d' % i) for i in range(len(sel))]
            sq = unit(it, 'qs') if with_qs else None
            v = value(it, kind, sq)
            acc = header(it, kind, sel, qs, text)
            rank, q = expected(it, kind, sel, fs)
            r = attempt(it, meth, it, v, 'acceptability', acc)
            what = '%s against %s' % (KINDS[kind][0], ', '.join(sel) or
                                      'an empty header')
            if not rank or it.eq(q, 0.0):
                require(it, r[0] == 'raise' and is_exc(it, r[1], NA),
                        '%s: must not be acceptable%s' % (
                            what, ' (quality zero)' if rank else ''))
                require(it, not it.contains(acc, v),
                        '%s: the header claims to contain it' % what)
                return
            if r[0] == 'raise':
                fail(it, '%s: refused (%s)' % (what, exc_name(r[1])))
            m = r[1]
            got = it.getattr(m, 'quality')
            wanted = q if sq is None else it.binop(ast.Mult(), q, sq)
            require(it, it.eq(got, wanted),
                    '%s: quality is not that of the most specific range' %
                    what)
            for a, x in ATTRS[kind][rank].items():
                require(it, it.eq(it.getattr(m, a), x),
                        '%s: %s of the match is not %s' % (what, a, x))
            require(it, it.getattr(m, {'type': 'content_type', 'language':
                                       'language', 'charset': 'charset'}[
                                           kind.split()[-1]]) is v,
                    '%s: the match belongs to another value' % what)
            require(it, it.contains(acc, v),
                    '%s: the header claims not to contain it' % what)
        return fn
    for kind in KINDS:
        for sel in sels(kind, 2):
            n = '%s: %s' % (kind, ', '.join(sel))
            out.append(Scen(n, qual(kind, sel, False, len(sel) == 1), kind))
            if sel:
                out.append(Scen(n + ' (text)', qual(kind, sel, True, False),
                                kind))

    # comparison of two matches
    def order(kind, r1, r2):
        def fn(it):
            q1, q2 = unit(it, 'q1'), unit(it, 'q2')
            for q in (q1, q2):
                if it.eq(q, 0.0):
                    raise Pruned('zero')
            a = meth(it, value(it, kind, None), 'acceptability',
                     header(it, kind, (r1,), (q1,), False))
            b = meth(it, value(it, kind, None), 'acceptability',
                     header(it, kind, (r2,), (q2,), False))
            k1, k2 = KINDS[kind][1][r1], KINDS[kind][1][r2]
            lt = k1 < k2 or k1 == k2 and it.less(q1, q2)
            eq = k1 == k2 and it.eq(q1, q2)
            what = 'match on %s against match on %s' % (r1, r2)
            for op, got, want in (
                    ('<', it.less(a, b), lt),
                    ('<=', it.less(a, b, False), lt or eq),
                    ('>', it.less(b, a), not lt and not eq),
                    ('>=', it.less(b, a, False), not lt),
                    ('==', it.eq(a, b), eq)):
                require(it, bool(got) == want, '%s: %s gives %s' % (
                    what, op, bool(got)))
        return fn
    for kind in KINDS:
        good = [r for r, k in KINDS[kind][1].items() if k]
        for r1 in good:
            for r2 in good:
                out.append(Scen('order: %s: %s, %s' % (kind, r1, r2),
                                order(kind, r1, r2), kind))

    # qualities are forced into [0, 1]
    def clamp(kind):
        def fn(it):
            q = sym('q', 'float')
            m = mods[kind]
            acc = call(it, prog.get(m[0] + m[2]), it.mk_list(
                [Tup((KINDS[kind][0], q))]))
            for r in it.iterate(acc):
                g = it.getattr(r, 'q')
                w = 0.0 if it.less(q, 0.0) else \
                    1.0 if it.less(1.0, q) else q
                require(it, it.eq(g, w),
                        'quality of a range is not limited to [0, 1]')
        return fn
    for kind in mods:
        out.append(Scen('limits: ' + kind, clamp(kind), kind))

    def default(kind, text):
        def fn(it):
            m = mods[kind]
            v = KINDS[kind][0]
            acc = call(it, prog.get(m[0] + m[3]), v) if text else \
                call(it, prog.get(m[0] + m[2]), it.mk_list([v]))
            a = meth(it, value(it, kind, None), 'acceptability', acc)
            require(it, it.eq(it.getattr(a, 'quality'), 1.0),
                    'a range without quality does not count as 1')
        return fn
    for kind in mods:
        for t in (False, True):
            out.append(Scen('no quality: %s%s' % (kind, ' (text)' if t else
                                                  ''), default(kind, t), kind))
    return out


import ast      # noqa: E402
