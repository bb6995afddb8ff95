"""C18: conditional requests and entity tags."""
import itertools
from .lib import *
from .c17 import want, check_same

RULE = ('For every entity tag header of up to three items (weak, strong, '
        'unquoted, star) with arbitrary tags, the parsed set contains '
        'exactly the listed tags; a GET or HEAD is answered as not modified '
        'exactly when the tag of the resource is in If-None-Match, or, '
        'without that header, when it has not changed since '
        'If-Modified-Since; response tags read back as they were set.')
MIN_SCENARIOS = 60
CC = 'verktyg.http.cache_control.'
B = 'verktyg.http.basic.'
QUOTED = r'[^"\r\n]'
RAW = r'[^"\s,*/wW]'


def member(it, x, tags):
    return any(it.eq(x, t) for t in tags)


def same_set(it, got, exp, what):
    oblige(it)
    got = list(it.iterate(got))
    for x in got:
        if not member(it, x, exp):
            fail(it, '%s: %r is not one of the tags' % (what, x))
    for x in exp:
        if not member(it, x, got):
            fail(it, '%s: the tag %r is missing' % (what, x))


# -- instants of time -------------------------------------------------------
_DT = []


def _cmp(it, a, b):
    s, t = a.attrs['sec'], b.attrs['sec']
    if it.less(s, t):
        return -1
    if it.less(t, s):
        return 1
    return a.attrs['us'] - b.attrs['us']


def dt_class(it):
    if not _DT:
        ns = {}
        for n, f in (('__le__', lambda c: c <= 0), ('__lt__', lambda c: c < 0),
                     ('__ge__', lambda c: c >= 0), ('__gt__', lambda c: c > 0),
                     ('__eq__', lambda c: c == 0),
                     ('__ne__', lambda c: c != 0)):
            ns[n] = HostFunc(n, lambda i, a, k, f=f: (
                f(_cmp(i, a[0], a[1])) if isinstance(a[1], Obj) else False),
                binds=True)
        _DT.append(ClassV('datetime', [it.prog.builtins['object']], ns,
                          kind='repo'))
    return _DT[0]


def instant(it, name, us=0):
    o = Obj(dt_class(it), {'sec': sym(name, 'int'), 'us': us,
                           'microsecond': us})

    def rep(i, a, k):
        return instant(it, name, k.get('microsecond', us))
    o.attrs['replace'] = HostFunc('replace', rep)
    return o


def with_dates(it, prog, table):
    """parse_date knows the texts of the table and nothing else"""
    def f(v=None):
        v = it.facts.norm(v)
        for t, d in table:
            if t is v:
                return d
        return None
    h = host('parse_date', f)
    it.overrides[prog.get(B + 'parse_date')] = h


def item(it, kind, i):
    """text pieces, tag, weak"""
    if kind == 'e':
        return ['""'], '', False
    t = word(it, 't%d' % i, RAW if kind == 'r' else QUOTED)
    return {'s': ['"', t, '"'], 'r': [t], 'w': ['w/"', t, '"'],
            'W': ['W/"', t, '"']}[kind], t, kind in 'wW'


def tags_header(it, kinds, sep=', '):
    parts, strong, weak = [], [], []
    for i, k in enumerate(kinds):
        if i:
            parts.append(sep)
        p, t, w = item(it, k, i)
        parts += p
        (weak if w else strong).append(t)
    return cat(it, *parts), strong, weak


def scenarios(prog):
    out = []
    g = prog.get

    def add(name, fn, subject=''):
        out.append(Scen(name, fn, subject))

    KINDS = ['s', 'w', 'W', 'r', 'e'] + [a + b for a in 'swr' for b in 'sWr']
    KINDS += ['sss', 'wsr', 'sws', 'Wws', 'es', 'se']
    if thorough():
        KINDS += [''.join(p) for p in itertools.product('swr', repeat=3)]

    for kinds in KINDS:
        for sep in (', ', ',', ' , '):
            if len(kinds) == 1 and sep != ', ':
                continue

            def f(it, kinds=kinds, sep=sep):
                hd, strong, weak = tags_header(it, kinds, sep)
                e = want(it, lambda: call(it, g(CC + 'parse_etags'), hd),
                         'parsing entity tags')
                same_set(it, meth(it, e, 'as_set'), strong, 'as_set')
                same_set(it, meth(it, e, 'as_set', True), strong + weak,
                         'as_set with weak tags')
                same_set(it, e, strong, 'iteration')
                oblige(it)
                if not it.truth(e):
                    fail(it, 'a set of entity tags counts as empty')
                x = sym('x', 'str')
                ins, inw = member(it, x, strong), member(it, x, weak)
                for what, got, exp in (
                        ('contains', meth(it, e, 'contains', x), ins),
                        ('in', it.contains(e, x), ins),
                        ('contains_weak', meth(it, e, 'contains_weak', x),
                         ins or inw),
                        ('is_weak', meth(it, e, 'is_weak', x), inw),
                        ('call', call(it, e, x), ins),
                        ('call with weak', call(it, e, x, include_weak=True),
                         ins or inw)):
                    oblige(it)
                    if bool(it.truth(got)) != bool(exp):
                        fail(it, '%s: a tag that is %s the set is reported '
                             'as %s' % (what, 'in' if exp else 'not in',
                                        'not in it' if exp else 'in it'))
            add('etags.%s.%d' % (kinds, len(sep)), f, 'parse_etags')

            def f_raw(it, kinds=kinds, sep=sep):
                hd, strong, weak = tags_header(it, kinds, sep)
                e = want(it, lambda: call(it, g(CC + 'parse_etags'), hd),
                         'parsing entity tags')
                x = word(it, 'x', r'[^"\s/]')
                ins, inw = member(it, x, strong), member(it, x, weak)
                for what, arg, exp in (
                        ('strong tag', cat(it, '"', x, '"'), ins),
                        ('weak tag', cat(it, 'w/"', x, '"'), ins or inw),
                        ('weak tag', cat(it, 'W/"', x, '"'), ins or inw),
                        ('unquoted tag', x, ins)):
                    r = want(it, lambda: meth(it, e, 'contains_raw', arg),
                             'contains_raw')
                    oblige(it)
                    if bool(it.truth(r)) != bool(exp):
                        fail(it, 'contains_raw: a %s that is %s the set is '
                             'reported as %s' % (
                                 what, 'in' if exp else 'not in',
                                 'not in it' if exp else 'in it'))
            if sep == ', ' and len(kinds) < 3:
                add('raw.%s' % kinds, f_raw, 'ETags.contains_raw')

            def f_rt(it, kinds=kinds):
                hd, strong, weak = tags_header(it, kinds)
                e = call(it, g(CC + 'ETags'), it.mk_list(strong),
                         it.mk_list(weak))
                h2 = want(it, lambda: meth(it, e, 'to_header'), 'to_header')
                e2 = want(it, lambda: call(it, g(CC + 'parse_etags'), h2),
                          'parsing entity tags')
                same_set(it, meth(it, e2, 'as_set'), strong, 'strong tags')
                same_set(it, meth(it, e2, 'as_set', True), strong + weak,
                         'all tags')
            if sep == ', ' and 'r' not in kinds:
                add('roundtrip.%s' % kinds, f_rt, 'ETags.to_header')

    for hd in ('*', '"a", *', '*, "a"'):
        def f_star(it, hd=hd):
            e = want(it, lambda: call(it, g(CC + 'parse_etags'), hd),
                     'parsing entity tags')
            x = sym('x', 'str')
            oblige(it)
            if not it.truth(it.getattr(e, 'star_tag')) or not it.truth(e) or \
                    not it.truth(meth(it, e, 'contains', x)) or \
                    not it.truth(meth(it, e, 'contains_weak', x)) or \
                    not it.truth(it.contains(e, x)) or \
                    meth(it, e, 'to_header') != '*':
                fail(it, 'a star does not stand for every tag')
        add('star.%d' % len(hd) + hd[0], f_star, 'parse_etags')

    def f_empty(it):
        for v in (None, ''):
            e = want(it, lambda: call(it, g(CC + 'parse_etags'), v),
                     'parsing entity tags')
            oblige(it)
            if it.truth(e) or it.truth(meth(it, e, 'contains_weak',
                                            sym('x', 'str'))):
                fail(it, 'tags come from an empty header')
    add('empty', f_empty, 'parse_etags')

    # -- quoting ------------------------------------------------------------
    for weak in (False, True):
        def f_q(it, weak=weak):
            for t in (word(it, 't', QUOTED), ''):
                q = want(it, lambda: call(it, g(CC + 'quote_etag'), t, weak),
                         'quote_etag')
                r = want(it, lambda: call(it, g(CC + 'unquote_etag'), q),
                         'unquote_etag')
                t2, w2 = list(it.iterate(r))
                check_same(it, t2, t, 'entity tag')
                oblige(it)
                if w2 is not weak:
                    fail(it, 'the weakness of a tag is lost')
        add('quote.%s' % weak, f_q, 'quote_etag')

        def f_bad(it, weak=weak):
            t = cat(it, word(it, 'a', QUOTED), '"', word(it, 'b', QUOTED))
            for x in (t, '"', cat(it, '"', word(it, 'a', QUOTED)),
                      cat(it, word(it, 'a', QUOTED), '"')):
                r = attempt(it, call, it, g(CC + 'quote_etag'), x, weak)
                oblige(it)
                if r[0] == 'ok' or not is_exc(it, r[1], 'ValueError'):
                    fail(it, 'a tag with a quotation mark is not refused',
                         r[2])
        add('quote-bad.%s' % weak, f_bad, 'quote_etag')

    # -- is_resource_modified -------------------------------------------------
    INM = [None, 's', 'w', 'sw', 'ss', '*']
    for inm in INM:
        for etag in ('none', 'strong', 'weak', 'data'):
            for since in (False, True):
                for lm in ('none', 'text', 'date', 'date-us', 'bad'):
                    for method in ('GET', 'HEAD'):
                        if method == 'HEAD' and (
                                inm not in (None, 's') or lm == 'bad'):
                            continue

                        def f(it, inm=inm, etag=etag, since=since, lm=lm,
                              method=method):
                            modified(it, inm, etag, since, lm, method)
                        add('modified.%s.%s.%s.%s.%s' % (
                            inm, etag, since, lm, method), f,
                            'is_resource_modified')

    def setup(it, inm, etag, since, lm, method):
        env = it.mk_dict({'REQUEST_METHOD': method})
        strong, weak = [], []
        if inm == '*':
            it.setitem(env, 'HTTP_IF_NONE_MATCH', '*')
        elif inm:
            hd, strong, weak = tags_header(it, inm)
            it.setitem(env, 'HTTP_IF_NONE_MATCH', hd)
        dates = []
        ims = instant(it, 'since')
        if since:
            tx = word(it, 'ims', '[A-Za-z]')
            it.setitem(env, 'HTTP_IF_MODIFIED_SINCE', tx)
            dates.append((tx, ims))
        last = None
        mod = instant(it, 'mod', 1 if lm == 'date-us' else 0)
        if lm in ('text', 'bad'):
            last = word(it, 'lm', '[A-Za-z]')
            if lm == 'text':
                dates.append((last, mod))
        elif lm != 'none':
            last = mod
        with_dates(it, prog, dates)
        t = word(it, 'etag', r'[^"\s/]')
        return env, strong, weak, ims, mod, last, t

    def unmodified(it, inm, etag, since, lm, strong, weak, ims, mod, t):
        if etag != 'none' and inm:
            if inm == '*':
                return True
            if member(it, t, strong):
                return True
            return etag == 'weak' and member(it, t, weak)
        if since and lm not in ('none', 'bad'):
            return not it.less(ims.attrs['sec'], mod.attrs['sec'])
        return False

    def modified(it, inm, etag, since, lm, method):
        env, strong, weak, ims, mod, last, t = setup(
            it, inm, etag, since, lm, method)
        kw = {'last_modified': last}
        if etag == 'strong':
            kw['etag'] = cat(it, '"', t, '"')
        elif etag == 'weak':
            kw['etag'] = cat(it, 'w/"', t, '"')
        elif etag == 'data':
            kw['data'] = sym('data', 'bytes')
            it.overrides[g(CC + 'generate_etag')] = host(
                'generate_etag', lambda d: t)
        exp = unmodified(it, inm, etag, since, lm, strong, weak, ims, mod, t)
        r = want(it, lambda: call(it, g(CC + 'is_resource_modified'), env,
                                  **kw), 'is_resource_modified')
        oblige(it)
        if bool(it.truth(r)) == exp:
            fail(it, 'a resource that is %s counts as %s' % (
                ('unchanged', 'modified') if exp else
                ('changed or unknown', 'not modified')))

    # -- make_conditional ------------------------------------------------------
    R = 'verktyg.responses.Response'

    def response(it, **kw):
        return call(it, g(R), 'body', **kw)

    for method in ('GET', 'HEAD', 'POST', 'PUT', 'PATCH', 'DELETE',
                   'OPTIONS'):
        for inm in (None, 's', 'w', '*'):
            for etag in ('none', 'strong', 'weak'):
                for since in (False, True):
                    for lm in ('none', 'text'):
                        for req in ('environ', 'request'):
                            if req == 'request' and (since or lm == 'text'):
                                continue
                            if method not in ('GET', 'POST') and (
                                    etag == 'weak' or inm == 'w'):
                                continue

                            def f(it, method=method, inm=inm, etag=etag,
                                  since=since, lm=lm, req=req):
                                conditional(it, method, inm, etag, since, lm,
                                            req)
                            add('conditional.%s.%s.%s.%s.%s.%s' % (
                                method, inm, etag, since, lm, req), f,
                                'make_conditional')

    def conditional(it, method, inm, etag, since, lm, req):
        env, strong, weak, ims, mod, last, t = setup(
            it, inm, etag, since, lm, method)
        it.overrides[g(B + 'http_date')] = host('http_date',
                                                lambda *a: 'now')
        r = response(it)
        if etag != 'none':
            want(it, lambda: meth(it, r, 'set_etag', t, etag == 'weak'),
                 'set_etag')
        h = it.getattr(r, 'headers')
        if last is not None:
            it.setitem(h, 'Last-Modified', last)
        had_date = it.choose(3, 'date given')
        if had_date:
            it.setitem(h, ('Date', 'DATE')[had_date - 1], 'then')
        exp = method in ('GET', 'HEAD') and unmodified(
            it, inm, etag, since, lm, strong, weak, ims, mod, t)
        arg = env if req == 'environ' else stub(it, 'Req', environ=env)
        res = want(it, lambda: meth(it, r, 'make_conditional', arg),
                   'make_conditional')
        oblige(it, 4)
        if res is not r:
            fail(it, 'make_conditional does not return the response')
        code = it.getattr(r, 'status_code')
        if code != (304 if exp else 200):
            fail(it, 'a request for a resource that is %s gets status %r' % (
                'unchanged' if exp else 'changed or unknown', code))
        d = meth(it, h, 'getlist', 'date')
        d = list(it.iterate(d))
        if method in ('GET', 'HEAD'):
            if len(d) != 1 or d[0] != ('then' if had_date else 'now'):
                fail(it, 'the Date header is %r' % (d,))
        elif len(d) != int(had_date > 0):
            fail(it, 'another method gets a Date header')
        if not it.eq(meth(it, r, 'get_data'), b'body'):
            fail(it, 'the body of the response object is lost')

    # -- tags of responses -------------------------------------------------------
    for weak in (False, True):
        def f_set(it, weak=weak):
            r = response(it)
            t = word(it, 't', QUOTED)
            want(it, lambda: meth(it, r, 'set_etag', 'old'), 'set_etag')
            want(it, lambda: meth(it, r, 'set_etag', t, weak), 'set_etag')
            v = list(it.iterate(meth(it, r, 'get_etag')))
            check_same(it, v[0], t, 'entity tag of the response')
            oblige(it, 2)
            if v[1] is not weak:
                fail(it, 'the weakness of the tag is lost')
            n = list(it.iterate(meth(it, it.getattr(r, 'headers'), 'getlist',
                                     'etag')))
            if len(n) != 1:
                fail(it, 'the response has %d entity tags' % len(n))
        add('response.set.%s' % weak, f_set, 'set_etag')

        for over in (False, True):
            for have in (False, True):
                def f_add(it, weak=weak, over=over, have=have):
                    t = word(it, 't', QUOTED)
                    seen = []

                    def gen(d):
                        seen.append(d)
                        return t
                    it.overrides[g(CC + 'generate_etag')] = host('gen', gen)
                    r = response(it)
                    if have:
                        meth(it, r, 'set_etag', 'old')
                    want(it, lambda: meth(it, r, 'add_etag', over, weak),
                         'add_etag')
                    v = list(it.iterate(meth(it, r, 'get_etag')))
                    new = over or not have
                    check_same(it, v[0], t if new else 'old', 'entity tag')
                    oblige(it, 2)
                    if v[1] is not (weak if new else False):
                        fail(it, 'the weakness of the tag is lost')
                    if new and not (len(seen) == 1 and
                                    it.eq(seen[0], b'body')):
                        fail(it, 'the tag is not made from the body')
                add('response.add.%s%s%s' % (weak, over, have), f_add,
                    'add_etag')

    def f_none(it):
        r = response(it)
        v = list(it.iterate(meth(it, r, 'get_etag')))
        oblige(it)
        if v != [None, None]:
            fail(it, 'a response without tag reports one')
    add('response.none', f_none, 'get_etag')

    # -- If-Range -------------------------------------------------------------------
    for kind in ('date', 'etag', 'weak', 'none'):
        def f_ir(it, kind=kind):
            d = instant(it, 'd')
            t = word(it, 't', r'[^"\s/]')
            hd = {'date': t, 'etag': cat(it, '"', t, '"'),
                  'weak': cat(it, 'W/"', t, '"'), 'none': ''}[kind]
            with_dates(it, prog, [(t, d)] if kind == 'date' else [])
            it.overrides[g(B + 'http_date')] = host(
                'http_date', lambda x: 'written' if x is d else 'other')
            r = want(it, lambda: call(
                it, g(CC + 'parse_if_range_header'), hd), 'parsing If-Range')
            oblige(it, 2)
            gd, ge = it.getattr(r, 'date'), it.getattr(r, 'etag')
            if (gd is d) != (kind == 'date') or \
                    (ge is not None) != (kind in ('etag', 'weak')):
                fail(it, 'If-Range is read as date %r, tag %r' % (gd, ge))
            if ge is not None:
                check_same(it, ge, t, 'If-Range tag')
            h2 = want(it, lambda: meth(it, r, 'to_header'), 'to_header')
            check_same(it, h2, {'date': 'written', 'none': ''}.get(
                kind, cat(it, '"', t, '"')), 'If-Range header')
        add('if-range.' + kind, f_ir, 'parse_if_range_header')
    return out
