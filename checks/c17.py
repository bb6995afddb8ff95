"""C17: what is written into a structured header is what is parsed out."""
import itertools
from .lib import *

RULE = ('For every value made of up to N alternations between double quotes, '
        'backslashes and arbitrary other text (every other character except '
        'line breaks), parsing the dumped header yields the value back: '
        'quote/unquote, option headers, list, set and dict headers, cache '
        'control, authentication headers, header keyword arguments.')
MIN_SCENARIOS = 100
H = 'verktyg.http.basic.'
A = 'verktyg.http.auth.'
CC = 'verktyg.http.cache_control.'

OTHER = r'[^"\\\r\n]'           # everything needing no escape
TOKEN = r"[!#$%&'*+\-.0-9A-Z\^_`a-z|~]"
TOKENS = ("!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
          'abcdefghijklmnopqrstuvwxyz')
LATIN = r'[^"\\\r\n\u0100-\U0010ffff]'
KEY = r"[!#$%&'+\-.0-9A-Z\^_`a-z|~]"


def shapes(n):
    """sequences over quote / backslash / other text without two adjacent
    runs of other text: every string with at most n pieces"""
    for k in range(n + 1):
        for p in itertools.product('QBW', repeat=k):
            if 'WW' not in ''.join(p):
                yield ''.join(p)


def value(it, shape, tag='v', cls=OTHER):
    if not shape:
        return ''
    parts = []
    for i, c in enumerate(shape):
        parts.append({'Q': '"', 'B': '\\'}.get(c) or
                     word(it, '%s%d' % (tag, i), cls))
    return cat(it, *parts)


def want(it, f, what):
    """the value of the call; raising is a violation"""
    r = attempt(it, f)
    if r[0] != 'ok':
        fail(it, '%s raises %s' % (what, exc_name(r[1])), r[2])
    return r[1]


def same(it, got, exp):
    return got is exp or it.eq(got, exp)


def check_same(it, got, exp, what):
    oblige(it)
    if got is None or not same(it, got, exp):
        fail(it, '%s: %r comes back as %r' % (what, exp, got))


def check_list(it, got, exp, what):
    oblige(it)
    got = list(it.iterate(got))
    if len(got) != len(exp):
        fail(it, '%s: %d items come back as %d' % (what, len(exp), len(got)))
    for g, e in zip(got, exp):
        check_same(it, g, e, what)


def check_map(it, got, exp, what, drop=()):
    """exp: python list of (key, value or None), in order"""
    oblige(it)
    items = [list(it.iterate(p)) for p in
             it.iterate(meth(it, got, 'items'))]
    items = [(k, v) for k, v in items if k not in drop]
    if len(items) != len(exp):
        fail(it, '%s: %d entries come back as %d'
             % (what, len(exp), len(items)))
    for (gk, gv), (ek, ev) in zip(items, exp):
        check_same(it, gk, ek, what + ' (key)')
        if ev is None:
            oblige(it)
            if gv is not None:
                fail(it, '%s: an entry without a value comes back with '
                     'one' % what)
        else:
            check_same(it, gv, ev, what)


def mkdict(it, pairs):
    d = it.mk_dict({})
    for k, v in pairs:
        it.setitem(d, k, v)
    return d


def scenarios(prog):
    n = 6 if thorough() else 5
    n2 = 4 if thorough() else 3
    out = []

    def g(name):
        return prog.get(name)

    def add(name, fn, subject=''):
        out.append(Scen(name, fn, subject))

    for s in shapes(n):
        def f_q(it, s=s):
            v = value(it, s)
            for kw in ({}, {'allow_token': False}):
                q = want(it, lambda: call(it, g(H + 'quote_header_value'), v,
                                          **kw), 'quoting')
                r = want(it, lambda: call(
                    it, g(H + 'unquote_header_value'), q), 'unquoting')
                check_same(it, r, v, 'quoted value')
        add('quote.%s' % (s or 'empty'), f_q, 'quote_header_value')

        def f_o(it, s=s):
            v = value(it, s)
            k = word(it, 'k', KEY)
            w = word(it, 'w', r'[^\s;="\\,]')
            d = mkdict(it, [(k, v)])
            hd = want(it, lambda: call(it, g(H + 'dump_options_header'), w,
                                       d), 'dumping options')
            if it.eq(k, 'filename') and s[:1] == 'B':
                return      # documented: UNC file names are left alone
            r = want(it, lambda: call(it, g(H + 'parse_options_header'), hd),
                     'parsing options')
            w2, d2 = list(it.iterate(r))
            check_same(it, w2, w, 'option header value')
            check_map(it, d2, [(k, v)], 'option')
        add('options.%s' % (s or 'empty'), f_o, 'dump_options_header')

        def f_d(it, s=s):
            v = value(it, s)
            k = word(it, 'k', TOKEN)
            for kw in ({}, {'allow_token': False}):
                d = mkdict(it, [(k, v)])
                hd = want(it, lambda: call(it, g(H + 'dump_header'), d, **kw),
                          'dumping a dict')
                r = want(it, lambda: call(it, g(H + 'parse_dict_header'), hd),
                         'parsing a dict header')
                check_map(it, r, [(k, v)], 'dict header value')
        add('dict.%s' % (s or 'empty'), f_d, 'dump_header')

        def f_l(it, s=s):
            v = value(it, s)
            for kw in ({}, {'allow_token': False}):
                hd = want(it, lambda: call(it, g(H + 'dump_header'),
                                           it.mk_list([v]), **kw),
                          'dumping a list')
                r = want(it, lambda: call(it, g(H + 'parse_list_header'), hd),
                         'parsing a list header')
                check_list(it, r, [v], 'list header item')
        add('list.%s' % (s or 'empty'), f_l, 'dump_header')

    # -- anything that is not a token is quoted ---------------------------
    def f_tok(it):
        from engine import rexmatch
        v = word(it, 'v', OTHER)
        q = want(it, lambda: call(it, g(H + 'quote_header_value'), v),
                 'quoting')
        oblige(it)
        if it.eq(q, v):
            ok = sum(1 << ord(c) for c in TOKENS)
            if rexmatch.Atom(it, v).within(ok) is not True:
                fail(it, 'a value with characters that are not token '
                     'characters is written without quotes')
        else:
            check_same(it, q, cat(it, '"', v, '"'), 'quoted form')
    add('token', f_tok, 'quote_header_value')

    def f_notok(it):
        v = word(it, 'v', OTHER)
        q = want(it, lambda: call(it, g(H + 'quote_header_value'), v,
                                  allow_token=False), 'quoting')
        check_same(it, q, cat(it, '"', v, '"'), 'quoted form')
    add('no-token', f_notok, 'quote_header_value')

    def f_int(it):
        v = sym('n', 'int')
        q = want(it, lambda: call(it, g(H + 'quote_header_value'), v),
                 'quoting')
        r = want(it, lambda: call(
            it, g(H + 'unquote_header_value'), q), 'unquoting')
        check_same(it, r, it.call(it.prog.builtins['str'], [v], {}), 'number')
    add('int', f_int, 'quote_header_value')

    # -- several entries ---------------------------------------------------
    for s1 in shapes(n2):
        for s2 in shapes(2):
            nm = '%s.%s' % (s1 or 'empty', s2 or 'empty')

            def f_ll(it, s1=s1, s2=s2):
                vs = [value(it, s1, 'a'), word(it, 't', TOKEN),
                      value(it, s2, 'b')]
                hd = want(it, lambda: call(it, g(H + 'dump_header'),
                                           it.mk_list(vs)), 'dumping a list')
                r = want(it, lambda: call(it, g(H + 'parse_list_header'), hd),
                         'parsing a list header')
                check_list(it, r, vs, 'list header item')
            add('list3.' + nm, f_ll, 'dump_header')

            def f_dd(it, s1=s1, s2=s2):
                ps = [('ka', value(it, s1, 'a')), ('kb', None),
                      ('kc', value(it, s2, 'b'))]
                hd = want(it, lambda: call(it, g(H + 'dump_header'),
                                           mkdict(it, ps)), 'dumping a dict')
                r = want(it, lambda: call(it, g(H + 'parse_dict_header'), hd),
                         'parsing a dict header')
                check_map(it, r, ps, 'dict header value')
            add('dict3.' + nm, f_dd, 'dump_header')

            def f_oo(it, s1=s1, s2=s2):
                ps = [('ka', value(it, s1, 'a')), ('kb', None),
                      ('kc', value(it, s2, 'b'))]
                hd = want(it, lambda: call(it, g(H + 'dump_options_header'),
                                           'form-data', mkdict(it, ps)),
                          'dumping options')
                r = want(it, lambda: call(it, g(H + 'parse_options_header'),
                                          hd), 'parsing options')
                w2, d2 = list(it.iterate(r))
                check_same(it, w2, 'form-data', 'option header value')
                check_map(it, d2, ps, 'option')
            add('options3.' + nm, f_oo, 'dump_options_header')

            def f_wa(it, s1=s1, s2=s2):
                ps = [('realm', value(it, s1, 'a')),
                      ('x-other', value(it, s2, 'b'))]
                w = call(it, g(A + 'WWWAuthenticate'), 'digest',
                         mkdict(it, ps))
                hd = want(it, lambda: meth(it, w, 'to_header'),
                          'dumping the challenge')
                r = want(it, lambda: call(
                    it, g(A + 'parse_www_authenticate_header'), hd),
                    'parsing the challenge')
                check_same(it, it.getattr(r, 'type'), 'digest',
                           'challenge type')
                check_map(it, r, ps, 'challenge', ('__auth_type__',))
            add('www.' + nm, f_wa, 'WWWAuthenticate.to_header')

            def f_az(it, s1=s1, s2=s2):
                ps = [('username', value(it, s1, 'a', LATIN)),
                      ('realm', value(it, s2, 'b', LATIN)), ('nonce', 'n'),
                      ('uri', '/'), ('response', 'abc')]
                hd = want(it, lambda: call(it, g(H + 'dump_header'),
                                           mkdict(it, ps)), 'dumping a dict')
                r = want(it, lambda: call(
                    it, g(A + 'parse_authorization_header'),
                    cat(it, 'Digest ', hd)), 'parsing credentials')
                oblige(it)
                if r is None:
                    fail(it, 'complete digest credentials are dropped')
                check_same(it, it.getattr(r, 'type'), 'digest', 'auth type')
                check_map(it, r, ps, 'credentials')
                for k, v in ps:
                    check_same(it, it.getattr(r, k), v, 'credentials ' + k)
            add('auth.' + nm, f_az, 'parse_authorization_header')

    # -- the other holders of header values ---------------------------------
    for s in shapes(n2):
        def f_hk(it, s=s):
            v = value(it, s)
            for how in ('add', 'add_header', 'set'):
                h = call(it, g(H + 'Headers'))
                want(it, lambda: meth(it, h, how, 'X-H', 'attachment',
                                      _kw={'file_name': v, 'plain': None}),
                     'Headers.' + how)
                if how == 'set':
                    want(it, lambda: meth(it, h, how, 'x-h', 'inline',
                                          _kw={'file_name': v,
                                               'plain': None}),
                         'Headers.set')
                hd = want(it, lambda: it.getitem(h, 'X-H'), 'lookup')
                r = want(it, lambda: call(it, g(H + 'parse_options_header'),
                                          hd), 'parsing options')
                w2, d2 = list(it.iterate(r))
                check_same(it, w2, 'inline' if how == 'set' else 'attachment',
                           'header value')
                check_map(it, d2, [('file-name', v), ('plain', None)],
                          'header parameter')
        add('headers-kw.%s' % (s or 'empty'), f_hk, 'Headers.add')

        def f_hs(it, s=s):
            v = value(it, s)
            if it.eq(meth(it, v, 'lower'), 'tok'):
                return
            hs = call(it, g(H + 'HeaderSet'), it.mk_list(['tok', v]))
            hd = want(it, lambda: meth(it, hs, 'to_header'), 'to_header')
            r = want(it, lambda: call(it, g(H + 'parse_set_header'), hd),
                     'parsing a set header')
            check_list(it, r, ['tok', v], 'set item')
        add('set.%s' % (s or 'empty'), f_hs, 'HeaderSet.to_header')

        def f_by(it, s=s):
            v = value(it, s, cls=LATIN)
            b = meth(it, v, 'encode', 'latin-1')
            q = want(it, lambda: call(it, g(H + 'quote_header_value'), b),
                     'quoting')
            r = want(it, lambda: call(
                it, g(H + 'unquote_header_value'), q), 'unquoting')
            check_same(it, r, v, 'bytes value')
        add('bytes.%s' % (s or 'empty'), f_by, 'quote_header_value')

        def f_cc(it, s=s):
            v = value(it, s)
            for cls in ('RequestCacheControl', 'ResponseCacheControl'):
                ps = [('no-store', None), ('private', v),
                      ('max-age', '5')]
                c = call(it, g(CC + cls), mkdict(it, ps))
                hd = want(it, lambda: meth(it, c, 'to_header'), 'to_header')
                r = want(it, lambda: call(
                    it, g(CC + 'parse_cache_control_header'), hd, None,
                    g(CC + cls)), 'parsing cache control')
                check_map(it, r, ps, 'cache control')
        add('cache.%s' % (s or 'empty'), f_cc, '_CacheControl.to_header')

    # -- accessors ----------------------------------------------------------
    def reparse(it, w):
        hd = want(it, lambda: meth(it, w, 'to_header'), 'to_header')
        return want(it, lambda: call(
            it, g(A + 'parse_www_authenticate_header'), hd), 'parsing')

    for s in shapes(n2):
        def f_basic(it, s=s):
            v = value(it, s)
            w = call(it, g(A + 'WWWAuthenticate'), 'digest',
                     mkdict(it, [('nonce', 'n')]))
            want(it, lambda: meth(it, w, 'set_basic', v), 'set_basic')
            r = reparse(it, w)
            check_same(it, it.getattr(r, 'type'), 'basic', 'type')
            check_same(it, it.getattr(r, 'realm'), v, 'realm')
            check_map(it, r, [('realm', v)], 'basic challenge',
                      ('__auth_type__',))
        add('set_basic.%s' % (s or 'empty'), f_basic, 'set_basic')

        def f_digest(it, s=s):
            v = value(it, s)
            w = call(it, g(A + 'WWWAuthenticate'), 'basic',
                     mkdict(it, [('realm', 'old'), ('x', 'y')]))
            o = word(it, 'o', OTHER)
            want(it, lambda: meth(it, w, 'set_digest', v, o,
                                  it.mk_list(['auth', 'auth-int']),
                                  opaque=v, algorithm=o, stale=True),
                 'set_digest')
            r = reparse(it, w)
            for k, e in (('type', 'digest'), ('realm', v), ('nonce', o),
                         ('opaque', v), ('algorithm', o)):
                check_same(it, it.getattr(r, k), e, 'digest ' + k)
            oblige(it)
            if it.getattr(r, 'stale') is not True:
                fail(it, 'the stale flag is lost')
            check_list(it, it.getattr(r, 'qop'), ['auth', 'auth-int'], 'qop')
            oblige(it)
            if it.truth(it.contains(r, 'x')):
                fail(it, 'set_digest keeps entries of the old challenge')
        add('set_digest.%s' % (s or 'empty'), f_digest, 'set_digest')

        def f_props(it, s=s):
            for k in ('realm', 'nonce', 'opaque', 'algorithm'):
                v = value(it, s)
                w = call(it, g(A + 'WWWAuthenticate'), 'digest',
                         mkdict(it, [('realm', 'old')]))
                want(it, lambda: it.setattr(w, k, v), k)
                check_same(it, it.getattr(w, k), v, k)
                r = reparse(it, w)
                check_same(it, it.getattr(r, k), v, k)
                want(it, lambda: it.setattr(w, k, None), k)
                oblige(it)
                if it.getattr(w, k) is not None or it.truth(
                        it.contains(w, k)):
                    fail(it, 'setting %s to None does not remove it' % k)
        add('www-props.%s' % (s or 'empty'), f_props, 'auth_property')

    def f_default(it):
        w = call(it, g(A + 'WWWAuthenticate'))
        want(it, lambda: meth(it, w, 'set_digest', 'r', 'n'), 'set_digest')
        r = reparse(it, w)
        oblige(it)
        if it.getattr(r, 'stale') is not None or \
                it.getattr(r, 'opaque') is not None or \
                it.getattr(r, 'algorithm') is not None:
            fail(it, 'set_digest adds entries nobody asked for')
        check_list(it, it.getattr(r, 'qop'), ['auth'], 'qop')
        for val, exp in ((True, True), (False, False), (None, None)):
            want(it, lambda: it.setattr(w, 'stale', val), 'stale')
            oblige(it)
            if it.getattr(w, 'stale') is not exp or it.getattr(
                    reparse(it, w), 'stale') is not exp:
                fail(it, 'stale set to %r is read as something else' % val)
    add('www-default', f_default, 'WWWAuthenticate.stale')

    def f_wsets(it):
        for k in ('domain', 'qop'):
            t = word(it, 't' + k, TOKEN)
            w = call(it, g(A + 'WWWAuthenticate'), 'digest',
                     mkdict(it, [('realm', 'r')]))
            hs = it.getattr(w, k)
            want(it, lambda: meth(it, hs, 'add', t), k)
            check_list(it, it.getattr(w, k), [t], k)
            check_list(it, it.getattr(reparse(it, w), k), [t], k)
            want(it, lambda: meth(it, hs, 'clear'), k)
            oblige(it)
            if it.truth(it.contains(w, k)):
                fail(it, 'emptying %s does not remove it' % k)
    add('www-sets', f_wsets, 'WWWAuthenticate.domain')

    def f_notype(it):
        v = word(it, 'v', OTHER)
        w = call(it, g(A + 'WWWAuthenticate'))
        want(it, lambda: it.setattr(w, 'realm', v), 'realm')
        r = reparse(it, w)
        check_same(it, it.getattr(r, 'type'), 'basic', 'default type')
        check_same(it, it.getattr(r, 'realm'), v, 'realm')
        for k in ('domain', 'qop'):
            hs = it.getattr(w, k)
            want(it, lambda: meth(it, hs, 'update', it.mk_list([])), k)
            want(it, lambda: meth(it, hs, 'add', 'x'), k)
            it.delitem(w, k)
            want(it, lambda: meth(it, hs, 'clear'), k)
    add('www-notype', f_notype, 'WWWAuthenticate.to_header')

    # credentials
    def f_bauth(it):
        u = word(it, 'u', '[^:]', 'bytes')
        for empty in (False, True):
            p = b'' if empty else word(it, 'p', r'[\x00-\xff]', 'bytes')
            plain = cat(it, u, b':', p) if not empty else cat(it, u, b':')
            info = word(it, 'info', r'[A-Za-z0-9+/=]')

            it.hooks['ext'] = lambda i, name, a, k: (
                (plain,) if 'b64decode' in name or 'a2b_base64' in name
                else None)
            for t in ('Basic ', 'basic ', 'BASIC '):
                r = want(it, lambda: call(
                    it, g(A + 'parse_authorization_header'),
                    cat(it, t, info)), 'parsing credentials')
                oblige(it)
                if r is None:
                    fail(it, 'basic credentials are dropped')
                check_same(it, it.getattr(r, 'type'), 'basic', 'type')
                check_same(it, it.getattr(r, 'username'),
                           meth(it, u, 'decode', 'latin-1'), 'user name')
                check_same(it, it.getattr(r, 'password'), '' if empty else
                           meth(it, p, 'decode', 'latin-1'), 'password')
    add('basic-auth', f_bauth, 'parse_authorization_header')

    for missing in ('username', 'realm', 'nonce', 'uri', 'response', 'nc',
                    'cnonce', None):
        def f_dmiss(it, missing=missing):
            ks = [k for k in ('username', 'realm', 'nonce', 'uri', 'response',
                              'qop', 'nc', 'cnonce') if k != missing]
            ps = [(k, word(it, 'v' + k, r'[A-Za-z0-9]')) for k in ks]
            hd = call(it, g(H + 'dump_header'), mkdict(it, ps))
            r = want(it, lambda: call(
                it, g(A + 'parse_authorization_header'),
                cat(it, 'Digest ', hd)), 'parsing credentials')
            oblige(it)
            if (r is None) != (missing is not None):
                fail(it, 'digest credentials without %s are %s' % (
                    missing, 'dropped' if r is None else 'accepted'))
            if r is not None:
                check_map(it, r, ps, 'credentials')
                for k, v in ps:
                    if k != 'qop':
                        check_same(it, it.getattr(r, k), v, k)
                check_list(it, it.getattr(r, 'qop'), [dict(ps)['qop']], 'qop')
        add('digest.%s' % missing, f_dmiss, 'parse_authorization_header')

    # cache control directives
    FLAGS = {'RequestCacheControl': ['no_store', 'only_if_cached'],
             'ResponseCacheControl': ['no_store', 'public', 'must_revalidate',
                                      'proxy_revalidate']}
    NUMS = {'RequestCacheControl': ['max_age', 'max_stale', 'min_fresh'],
            'ResponseCacheControl': ['max_age']}
    TEXTS = {'RequestCacheControl': [],
             'ResponseCacheControl': ['no_cache', 'private', 's_maxage']}
    for cls in FLAGS:
        def rep(it, c, cls=cls):
            hd = want(it, lambda: meth(it, c, 'to_header'), 'to_header')
            return want(it, lambda: call(
                it, g(CC + 'parse_cache_control_header'), hd, None,
                g(CC + cls)), 'parsing cache control')

        for fl in FLAGS[cls]:
            def f_flag(it, cls=cls, fl=fl, rep=rep):
                name = fl.replace('_', '-')
                r = want(it, lambda: call(
                    it, g(CC + 'parse_cache_control_header'), name, None,
                    g(CC + cls)), 'parsing cache control')
                e = want(it, lambda: call(
                    it, g(CC + 'parse_cache_control_header'), 'x-y', None,
                    g(CC + cls)), 'parsing cache control')
                oblige(it, 2)
                if it.getattr(r, fl) is not True:
                    fail(it, 'directive %s is not seen' % name)
                if it.getattr(e, fl) is not False:
                    fail(it, 'directive %s is seen where it is not' % name)
                if cls[:3] == 'Res':
                    want(it, lambda: it.setattr(e, fl, True), fl)
                    oblige(it, 2)
                    if it.getattr(e, fl) is not True or it.getattr(
                            rep(it, e), fl) is not True:
                        fail(it, 'directive %s is not written' % name)
                    want(it, lambda: it.setattr(e, fl, False), fl)
                    if it.getattr(e, fl) is not False or it.truth(
                            it.contains(e, name)):
                        fail(it, 'directive %s is not removed' % name)
            add('cc.%s.%s' % (cls, fl), f_flag, cls)
        for fl in NUMS[cls]:
            def f_num(it, cls=cls, fl=fl, rep=rep):
                name = fl.replace('_', '-')
                n_ = sym('n', 'int')
                if it.less(n_, 0):
                    return
                sn = it.call(it.prog.builtins['str'], [n_], {})
                r = want(it, lambda: call(
                    it, g(CC + 'parse_cache_control_header'),
                    cat(it, name, '=', sn), None, g(CC + cls)),
                    'parsing cache control')
                check_same(it, it.getattr(r, fl), n_, name)
                if cls[:3] == 'Res':
                    want(it, lambda: it.setattr(r, fl, n_), fl)
                    check_same(it, it.getattr(r, fl), n_, name)
                    check_same(it, it.getattr(rep(it, r), fl), n_, name)
                    want(it, lambda: it.setattr(r, fl, None), fl)
                    oblige(it)
                    if it.getattr(r, fl) is not None or it.truth(
                            it.contains(r, name)):
                        fail(it, 'directive %s is not removed' % name)
            add('cc.%s.%s' % (cls, fl), f_num, cls)
        for fl in TEXTS[cls]:
            for s in shapes(2):
                def f_txt(it, cls=cls, fl=fl, rep=rep, s=s):
                    name = fl.replace('_', '-')
                    v = value(it, s)
                    r = call(it, g(CC + cls))
                    want(it, lambda: it.setattr(r, fl, v), fl)
                    check_same(it, it.getattr(r, fl), v, name)
                    check_same(it, it.getattr(rep(it, r), fl), v, name)
                    want(it, lambda: it.setattr(r, fl, True), fl)
                    oblige(it)
                    q = rep(it, r)
                    if not it.truth(it.contains(q, name)) or it.getitem(
                            q, name) is not None:
                        fail(it, '%s without a value is not written' % name)
                    want(it, lambda: it.delattr(r, fl), fl)
                    oblige(it)
                    if it.getattr(r, fl) is not None or it.truth(
                            it.contains(r, name)):
                        fail(it, 'directive %s is not removed' % name)
                add('cc.%s.%s.%s' % (cls, fl, s or 'empty'), f_txt, cls)
    return out
