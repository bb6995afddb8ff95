"""C22: the best acceptable representation is selected."""
import itertools

from .lib import *
from .c21 import unit

RULE = ('For every ordered pair (thorough: triple) of representations that '
        'differ in content type, language, charset and server quality, and '
        'headers with arbitrary qualities, the selected one is acceptable in '
        'every dimension it declares and no other acceptable one is better, '
        'comparing content type, language, charset (specificity, then '
        'quality; undeclared is worst) and server quality in this order; the '
        'last registered wins a tie; NotAcceptable is raised exactly when '
        'none is acceptable.  Absent and malformed headers accept anything.')
MIN_SCENARIOS = 60

TYPES = (('text/html', 'q0'), ('text/*', 'q1'), ('*/*', 'q2'))
LANGS = (('en', 'q3'), ('*', 'q4'))
CHARS = (('utf-8', 'q5'), ('*', 'q6'))
NOPNG = (('text/html', 'q0'), ('text/*', 'q1'))
NOFR = (('en', 'q3'),)
NOLATIN = (('utf-8', 'q5'),)

# dimension values: (rank, name of the quality)
RANK = {'text/html': (3, 'q0'), 'text/plain': (2, 'q1'),
        'image/png': (1, 'q2'), 'en': (2, 'q3'), 'en-gb': (1.5, 'q3'),
        'fr': (1, 'q4'), 'utf-8': (2, 'q5'), 'latin-1': (1, 'q6')}
REPS = [
    {}, {'content_type': 'text/html'}, {'content_type': 'text/plain'},
    {'content_type': 'image/png'},
    {'language': 'en'}, {'language': 'fr'}, {'language': 'en-gb'},
    {'charset': 'utf-8'}, {'charset': 'latin-1'},
    {'content_type': 'text/html', 'language': 'fr'},
    {'content_type': 'text/plain', 'language': 'en'},
    {'content_type': 'text/html', 'language': 'en', 'charset': 'latin-1'},
    {'content_type': 'text/html', 'charset': 'utf-8'},
    {'language': 'fr', 'charset': 'utf-8'},
]
DIMS = ('content_type', 'language', 'charset')


def scenarios(prog):
    out = []
    Rep = prog.get('verktyg.accept.Representation')
    select = prog.get('verktyg.accept.select_representation')
    NA = prog.get('verktyg.exceptions.NotAcceptable')
    ACC = [prog.get('verktyg.accept.content_type.ContentTypeAccept'),
           prog.get('verktyg.accept.language.LanguageAccept'),
           prog.get('verktyg.accept.charset.CharsetAccept')]

    def rep(it, spec, i, objs):
        kw = dict(spec)
        if objs:
            for n, c in (('content_type', 'content_type.ContentType'),
                         ('language', 'language.Language'),
                         ('charset', 'charset.Charset')):
                if n in kw:
                    kw[n] = call(it, prog.get('verktyg.accept.' + c), kw[n])
        qs = None
        if not objs:
            qs = unit(it, 'qs%d' % i)
            kw['qs'] = qs
        return call(it, Rep, **kw), (1.0 if qs is None else qs)

    def key(it, spec, qs, hdr, q):
        """None: not acceptable"""
        k = []
        for d, ranges in zip(DIMS, hdr):
            v = spec.get(d)
            if v is None:
                k.append((0, None))
                continue
            rank, n = RANK[v]
            if n not in [x for _, x in ranges]:
                return None
            if it.eq(q[n], 0.0):
                return None
            k.append((rank, q[n]))
        k.append((1, qs))
        return k

    def better(it, a, b):
        for (ra, qa), (rb, qb) in zip(a, b):
            if ra != rb:
                return ra > rb
            if qa is not None:
                if it.less(qb, qa):
                    return True
                if it.less(qa, qb):
                    return False
        return False

    def sel(specs, hdr, objs):
        names = set(n for r in hdr for _, n in r)

        def fn(it):
            q = {}

            class Q(dict):
                def __missing__(self, n):
                    self[n] = unit(it, n)
                    return self[n]
            q = Q()
            for n in sorted(names):
                q[n]
            reps = [rep(it, s, i, objs) for i, s in enumerate(specs)]
            accs = [call(it, c, it.mk_list([Tup((v, q[n])) for v, n in r]))
                    for c, r in zip(ACC, hdr)]
            r = attempt(it, call, it, select,
                        it.mk_list([x for x, _ in reps]), accept=accs[0],
                        accept_language=accs[1], accept_charset=accs[2])
            keys = [key(it, s, x[1], hdr, q) for s, x in zip(specs, reps)]
            best = None
            for i, k in enumerate(keys):
                if k is not None and (best is None or
                                      not better(it, keys[best], k)):
                    best = i
            oblige(it)
            if r[0] == 'raise':
                if not is_exc(it, r[1], NA):
                    fail(it, 'selection raises %s' % exc_name(r[1]))
                if best is not None:
                    fail(it, 'nothing is selected although %s is acceptable'
                         % (specs[best] or 'the default'))
                return
            got = [i for i, x in enumerate(reps) if x[0] is r[1]]
            if not got:
                fail(it, 'selection returns something else')
            if keys[got[0]] is None:
                fail(it, '%s is selected although it is not acceptable' %
                     specs[got[0]])
            if got[0] != best:
                fail(it, 'representation %d (%s) is selected instead of '
                     'representation %d (%s)' % (
                         got[0], specs[got[0]], best, specs[best]))
        return fn
    FULL = (TYPES, LANGS, CHARS)
    PART = (NOPNG, NOFR, NOLATIN)

    def desc(s):
        return ' '.join(s.values()) or 'default'
    for a in REPS:
        for h, n in ((FULL, ''), (PART, ', partial headers')):
            out.append(Scen('one: %s%s' % (desc(a), n), sel((a,), h, False),
                            Rep.qual))
        for b in REPS:
            out.append(Scen('%s | %s' % (desc(a), desc(b)),
                            sel((a, b), FULL, False), Rep.qual))
    for a, b in ((1, 3), (3, 1), (4, 5), (5, 4), (7, 8), (8, 7), (9, 10),
                 (11, 12), (12, 13), (0, 5)):
        a, b = REPS[a], REPS[b]
        out.append(Scen('%s | %s, partial headers' % (desc(a), desc(b)),
                        sel((a, b), PART, False), Rep.qual))
        out.append(Scen('%s | %s, value objects' % (desc(a), desc(b)),
                        sel((a, b), FULL, True), Rep.qual))
    trip = list(itertools.permutations((1, 2, 3))) + \
        list(itertools.permutations((0, 9, 10))) + \
        list(itertools.permutations((11, 12, 4)))
    if thorough():
        trip = list(itertools.product(range(10), repeat=3))
    for t in trip:
        s = tuple(REPS[i] for i in t)
        out.append(Scen(' | '.join(map(desc, s)), sel(s, FULL, False),
                        Rep.qual))
    out.append(Scen('none', sel((), FULL, False), Rep.qual))

    # headers as text, absent or malformed
    BAD = ['', ' ', 'x y', ';', ',', ';q=1', 'a/b;q', 'a/b;q=', 'a/b;q=x',
           'a/b;', 'a/b,', 'a', '/', 'a/', '/b', '*', '*/', 'a/b/c;x',
           '=', 'q=1', 'a/b;q=1;q', '"', '\\', '\x00']
    GARBAGE = ['', ';', ',', ';q=1', 'a;q', 'a;q=', 'a;q=x', 'a;b=c', 'a,',
               '=', '"', '-', '_', '\x00', 'a;q=0.5;x=1']

    def text(values, which, default):
        def fn(it):
            h = values[it.choose(len(values), 'header text')] if values \
                else None
            spec = [{'content_type': 'text/html'}, {'language': 'en'},
                    {'charset': 'utf-8'}][which]
            x = call(it, Rep, **spec)
            kw = {['accept', 'accept_language', 'accept_charset'][which]: h}
            if default == 'omitted':
                kw = {}
            r = attempt(it, call, it, select, it.mk_list([x]), **kw)
            oblige(it)
            if r[0] == 'raise':
                fail(it, '%s header %r raises %s' % (
                    DIMS[which], h, exc_name(r[1])))
            if r[1] is not x:
                fail(it, 'wrong representation')
        return fn
    for w, d in enumerate(DIMS):
        out.append(Scen('absent: ' + d, text(None, w, 'none'), select.qual))
        out.append(Scen('omitted: ' + d, text(None, w, 'omitted'),
                        select.qual))
        out.append(Scen('malformed: ' + d, text(GARBAGE if w else BAD, w,
                                                'bad'), select.qual))

    def unknown(which):
        """unknown header text: a result or NotAcceptable, nothing else"""
        def fn(it):
            it.raise_ops = True
            h = sym('header', 'str')
            spec = [{'content_type': 'text/html'}, {'language': 'en'},
                    {'charset': 'utf-8'}][which]
            x = call(it, Rep, **spec)
            kw = {['accept', 'accept_language', 'accept_charset'][which]: h}
            r = attempt(it, call, it, select, it.mk_list([x]), **kw)
            oblige(it)
            if r[0] == 'raise' and not is_exc(it, r[1], NA):
                fail(it, 'a %s header makes selection raise %s' % (
                    DIMS[which], exc_name(r[1])))
            if r[0] == 'ok' and r[1] is not x:
                fail(it, 'wrong representation')
        return fn
    for w, d in enumerate(DIMS):
        out.append(Scen('any text: ' + d, unknown(w), select.qual))

    def strings(which, h, val, ok):
        def fn(it):
            spec = {DIMS[which]: val}
            x = call(it, Rep, **spec)
            kw = {['accept', 'accept_language', 'accept_charset'][which]: h}
            r = attempt(it, call, it, select, it.mk_list([x]), **kw)
            oblige(it)
            if (r[0] == 'ok') != ok:
                fail(it, '%s %r is %s for the header %r' % (
                    DIMS[which], val, 'accepted' if not ok else 'refused', h))
        return fn
    for w, h, v, ok in (
            (0, 'text/html', 'text/html', True),
            (0, 'text/html', 'text/plain', False),
            (0, 'text/html;level=1;q=0.5, image/*', 'image/png', True),
            (0, 'text/html;level=1;q=0.5, image/*', 'text/plain', False),
            (0, 'application/vnd.ms-excel', 'application/vnd.ms-excel', True),
            (0, 'image/svg+xml', 'image/svg+xml', True),
            (0, 'a/b/c', 'text/html', False),
            (0, '*/*;q=0', 'text/html', False),
            (0, 'text/html;q=0, */*', 'text/html', False),
            (0, '*/*, text/html;q=0.0', 'text/html', False),
            (1, 'en', 'en-gb', True), (1, 'en-gb', 'en', False),
            (1, 'en;q=0, *', 'en', False), (1, 'fr, en;q=0.1', 'en', True),
            (2, 'utf-8', 'utf-8', True), (2, 'ascii', 'utf-8', False),
            (2, 'ascii, *;q=0.1', 'utf-8', True),
            (2, 'utf-8;q=0', 'utf-8', False)):
        out.append(Scen('text: %r %s' % (h, v), strings(w, h, v, ok),
                        select.qual))
    return out
