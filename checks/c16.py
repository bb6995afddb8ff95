"""C16: cookies."""
from .lib import *
from .c17 import want, check_same

RULE = ('Every byte, and every pair of bytes from a set of awkward ones with '
        'every byte, written as a cookie value is parsed back unchanged and '
        'its text has no separator outside quotes; headers of up to three '
        'cookies with arbitrary names and values are parsed into exactly '
        'these; every combination of attributes appears exactly as asked.')
MIN_SCENARIOS = 60
C = 'verktyg.http.'
# no "a", "e" or "o": cannot spell the name of an attribute
NAME = r'[!#$%&*+.^_`|~0-9B-DF-NP-Zb-df-np-z-]'
VAL = r"[!#$%&'()*+./0-9:<=>?@A-Z^_`a-z|~\[\]{}-]"
AWKWARD = ['\\', '"', ';', ',', '0', '1', '3', '7', '8', 'x', ' ', '=',
           '\t', '\xe9', '\x00', '\n', '\\1', '\\12', '\\\\', '"a', '"\\']


def dumped(it, prog, key, val, **kw):
    r = want(it, lambda: call(it, prog.get(C + 'dump_cookie'), key, val,
                              **kw), 'dump_cookie')
    return it.facts.norm(r)


def parsed(it, prog, text, **kw):
    d = want(it, lambda: call(it, prog.get(C + 'parse_cookie'), text, **kw),
             'parse_cookie')
    return [(k.items[0], k.items[1]) for k in it.iterate(meth(it, d,
                                                              'items'))]


def plain(pair):
    """the pair as other software splits it: quotes protect nothing"""
    for ch in pair:
        if ch in ';,' or ord(ch) < 32 or ord(ch) > 126:
            return repr(ch)
    body = pair.partition('=')[2]
    if body[:1] == '"':
        if len(body) < 2 or body[-1] != '"':
            return 'an unbalanced quote'
        i, body = 0, body[1:-1]
        while i < len(body):
            if body[i] == '"':
                return 'a bare quote'
            i += 2 if body[i] == '\\' else 1
        if i > len(body):
            return 'an escaped closing quote'
    elif any(c in body for c in ' "\\'):
        return 'an unquoted special character'
    return None


def scenarios(prog):
    out = []
    g = prog.get

    def add(name, fn, subject='', **kw):
        out.append(Scen(name, fn, subject, **kw))

    def trip(it, vals, charset='latin-1', short=0):
        for v in vals:
            oblige(it, 2)
            t = dumped(it, prog, 'k', v, charset=charset, path=None)
            if not isinstance(t, str):
                fail(it, 'cookie %r is written as %r' % (v, t))
            bad = plain(t)
            if bad:
                fail(it, 'cookie value %r is written with %s: %r' % (v, bad,
                                                                     t))
            for text in (t, 'a=b; ' + t + '; z="q"')[short:] if short else (
                    t, 'a=b; ' + t, t + '; z="q"', t + ';z=1'):
                got = parsed(it, prog, text, charset=charset)
                mine = [b for a, b in got if a == 'k']
                rest = [(a, b) for a, b in got if a != 'k']
                if mine != [v]:
                    fail(it, 'cookie value %r comes back as %r' % (v, mine))
                exp = {'a=b; ' + t + '; z="q"': [('a', 'b'), ('z', 'q')],
                       t: [], 'a=b; ' + t: [('a', 'b')],
                       t + '; z="q"': [('z', 'q')],
                       t + ';z=1': [('z', '1')]}[text]
                if rest != exp:
                    fail(it, 'cookie value %r turns %r into %r' % (v, exp,
                                                                   rest))

    for lo in range(0, 256, 16):
        def f_byte(it, lo=lo):
            trip(it, [chr(b) for b in range(lo, lo + 16)])
        add('byte.%02x' % lo, f_byte, 'dump_cookie, parse_cookie',
            max_time=120)
        for i, a in enumerate(AWKWARD):
            if not thorough() and i % 4 != (lo // 16) % 4 and \
                    lo not in (32, 48, 80):
                continue

            def f_pair(it, lo=lo, a=a):
                bs = [chr(b) for b in range(lo, lo + 16)]
                trip(it, [a + b for b in bs] + [b + a for b in bs], short=1)
            add('pair.%02x.%d' % (lo, i), f_pair,
                'dump_cookie, parse_cookie', max_time=120)
    for i, v in enumerate(['', 'plain', 'a b', 'caf\xe9', '\u20ac', 'a=b',
                           '\U0001f600;', 'x"y"z', '\\"', '\\073', '"',
                           '"quoted"', "it's", 'a/b?c', 'Expires=1',
                           '\\\\073', '\\08', '=', '%22', '\x7f']):
        def f_utf(it, v=v):
            trip(it, [v], 'utf-8')
        add('text.%d' % i, f_utf, 'dump_cookie, parse_cookie')

    # arbitrary names and values
    SEPS = ['; ', ';', ' ; ']
    for n in (1, 2, 3):
        for si, sep in enumerate(SEPS):
            def f_hd(it, n=n, sep=sep):
                parts, exp = [], []
                for i in range(n):
                    k, v = word(it, 'k%d' % i, NAME), word(it, 'v%d' % i, VAL)
                    if i:
                        parts.append(sep)
                    parts += [k, '=', v]
                    exp.append((k, v))
                for i in range(n):
                    for j in range(i):
                        if it.eq(exp[i][0], exp[j][0]):
                            return
                got = parsed(it, prog, cat(it, *parts))
                oblige(it, n)
                if len(got) != n:
                    fail(it, '%d cookies are read as %r' % (n, got))
                for (a, b), (k, v) in zip(got, exp):
                    check_same(it, a, k, 'cookie name')
                    check_same(it, b, v, 'cookie value')
            add('header.%d.%d' % (n, si), f_hd, 'parse_cookie')
    for i, (text, exp) in enumerate([
            ('a="x;y"; b=1', [('a', 'x;y'), ('b', '1')]),
            ('a=; b=2', [('a', ''), ('b', '2')]),
            ('a=b=c', [('a', 'b=c')]), (None, []), ('', []),
            ('a="x\\"y"; b=2', [('a', 'x"y'), ('b', '2')]),
            ('a="\\054\\073"', [('a', ',;')]),
            ('a=""', [('a', '')]), ('a="x"; b=""; c="y"',
                                    [('a', 'x'), ('b', ''), ('c', 'y')]),
            ('a="\\""', [('a', '"')]), ('a=" "', [('a', ' ')]),
            ('a="x', [('a', '"x')]), ('a="', [('a', '"')]),
            ('$Version=1; a=b', [('$Version', '1'), ('a', 'b')])]):
        def f_fix(it, text=text, exp=exp):
            oblige(it)
            got = parsed(it, prog, text)
            if got != exp:
                fail(it, '%r is read as %r' % (text, got))
        add('fixed.%d' % i, f_fix, 'parse_cookie')

    def f_env(it):
        oblige(it, 2)
        if parsed(it, prog, it.mk_dict({'HTTP_COOKIE': 'a=b'})) != [
                ('a', 'b')]:
            fail(it, 'cookies of an environ are not read')
        if parsed(it, prog, it.mk_dict({})) != []:
            fail(it, 'cookies without a header')
        env = it.mk_dict({'REQUEST_METHOD': 'GET', 'HTTP_COOKIE': 'a=b; c=d',
                          'wsgi.url_scheme': 'http', 'SERVER_NAME': 'x',
                          'SERVER_PORT': '80'})
        r = call(it, g('verktyg.requests.Request'), env)
        d = it.getattr(r, 'cookies')
        check_same(it, it.getitem(d, 'c'), 'd', 'Request.cookies')
    add('environ', f_env, 'parse_cookie')

    # attributes
    for mask in range(64):
        def f_attr(it, mask=mask):
            kw, exp = {}, []
            name = word(it, 'name', NAME)
            path = 'none'
            if mask & 1:
                kw['domain'] = '.example.com'
                exp.append('Domain=.example.com')
            if mask & 2:
                kw['expires'] = word(it, 'expires', r'[A-Za-z0-9:-]')
                exp.append(['Expires=', kw['expires']])
            if mask & 4:
                kw['max_age'] = sym('age', 'int')
                if not mask & 2:
                    kw['sync_expires'] = False
                exp.append(['Max-Age=', it.call(it.prog.builtins['str'],
                                                [kw['max_age']])])
            if mask & 8:
                kw['secure'] = True
                exp.append('Secure')
            if mask & 16:
                kw['httponly'] = True
                exp.append('HttpOnly')
            if mask & 32:
                kw['path'] = None
            else:
                exp.append('Path=/')
            t = dumped(it, prog, name, 'v', **kw)
            oblige(it)
            got = strip_parts(it, t)
            first = cat(it, name, '=v')
            want_ = [first] + [cat(it, *x) if isinstance(x, list) else x
                               for x in exp]
            if len(got) != len(want_) or not it.eq(got[0], first):
                fail(it, 'a cookie is written as %r, not %r' % (got, exp))
            for w in want_:
                if sum(1 for x in got if it.eq(x, w)) != 1:
                    fail(it, '%r is missing or doubled in %r' % (w, t))
        add('attr.%d' % mask, f_attr, 'dump_cookie')

    def f_falsy(it):
        t = dumped(it, prog, 'k', 'v', max_age=0, expires='E', secure=False,
                   httponly=False, path='/a')
        got = strip_parts(it, t)
        oblige(it)
        if sorted(got) != sorted(['k=v', 'Max-Age=0', 'Expires=E',
                                  'Path=/a']):
            fail(it, 'a cookie is written as %r' % (t,))
    add('attr.falsy', f_falsy, 'dump_cookie')

    def f_delta(it):
        d, s = sym('days', 'int'), sym('seconds', 'int')
        cls = prog.ext_class('datetime.timedelta')
        import ast
        total = addv(it, it.binop(ast.Mult(), d, 86400), s)
        for x in (d, s):
            if it.less(x, 0):
                raise Pruned('negative age')
        if it.less(86399, s):
            raise Pruned('not normalised')
        o = Obj(cls, {'days': d, 'seconds': s, 'microseconds': 0,
                      'total_seconds': HostFunc('total_seconds',
                                                lambda i, a, k: total)})
        t = dumped(it, prog, 'k', 'v', max_age=o, expires='E')
        w = cat(it, 'Max-Age=', it.call(it.prog.builtins['str'], [total]))
        oblige(it)
        if sum(1 for x in strip_parts(it, t) if it.eq(x, w)) != 1:
            fail(it, 'an age of %r is written as %r' % (total, t))
    add('attr.timedelta', f_delta, 'dump_cookie')

    for i, dom in enumerate(['localhost', 'localhost:80', 'x']):
        def f_dom(it, dom=dom):
            k, v, _ = attempt(it, call, it, g(C + 'dump_cookie'), 'k', 'v',
                              domain=dom)
            oblige(it)
            if k != 'raise' or not is_exc(it, v, 'ValueError'):
                fail(it, 'a cookie for the domain %r is written' % dom)
        add('domain.%d' % i, f_dom, 'dump_cookie')

    def f_port(it):
        t = dumped(it, prog, 'k', 'v', domain='a.example:8080', path=None)
        oblige(it)
        if t != 'k=v; Domain=a.example':
            fail(it, 'a domain with a port is written as %r' % (t,))
    add('domain.port', f_port, 'dump_cookie')

    # on responses
    def f_resp(it):
        r = call(it, g('verktyg.responses.Response'))
        meth(it, r, 'set_cookie', 'a', 'x;y', httponly=True, path='/p')
        meth(it, r, 'set_cookie', 'b', '2', secure=True, domain='.ex.com')
        meth(it, r, 'set_cookie', 'a', '3')
        hs = list(it.iterate(meth(it, it.getattr(r, 'headers'), 'getlist',
                                  'Set-Cookie')))
        exp = [{'a="x\\073y"', 'HttpOnly', 'Path=/p'},
               {'b=2', 'Secure', 'Domain=.ex.com', 'Path=/'},
               {'a=3', 'Path=/'}]
        oblige(it)
        if [set(strip_parts(it, h)) for h in hs] != exp:
            fail(it, 'cookies set on a response are sent as %r' % (hs,))
    add('response.set', f_resp, 'BaseResponse.set_cookie')

    def f_del(it):
        def hook(i, name, a, k):
            if name == 'time.gmtime' and a and it.facts.norm(a[0]) == 0:
                import time
                t = time.gmtime(0)
                return (stub(it, 'struct_time', **{
                    n: getattr(t, n) for n in (
                        'tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min',
                        'tm_sec', 'tm_wday')}),)
        it.hooks['ext'] = hook
        r = call(it, g('verktyg.responses.Response'))
        meth(it, r, 'delete_cookie', 'a', path='/p', domain='.ex.com')
        hs = list(it.iterate(meth(it, it.getattr(r, 'headers'), 'getlist',
                                  'Set-Cookie')))
        oblige(it)
        got = strip_parts(it, hs[0]) if len(hs) == 1 else []
        if 'Max-Age=0' not in got or got[:1] != ['a='] or \
                'Expires=Thu, 01-Jan-1970 00:00:00 GMT' not in got or \
                'Path=/p' not in got or 'Domain=.ex.com' not in got:
            fail(it, 'a cookie is deleted with %r' % (hs,))
    add('response.delete', f_del, 'BaseResponse.delete_cookie')

    def f_sync(it):
        from .c13 import Fs
        it.hooks['ext'] = Fs(it).hook
        n = sym('age', 'int')
        t = dumped(it, prog, 'k', 'v', max_age=n, path=None)
        e = call(it, g(C + 'cookie_date'), addv(it, sym('now', 'float'), n))
        oblige(it)
        got = strip_parts(it, t)
        w = cat(it, 'Expires=', e)
        if sum(1 for x in got if it.eq(x, w)) != 1:
            fail(it, 'no expiry follows from max_age: %r' % (t,))
    add('sync_expires', f_sync, 'dump_cookie')
    return out


def addv(it, a, b):
    import ast
    return it.binop(ast.Add(), a, b)


def strip_parts(it, t):
    """the pair and the attributes"""
    return [it.facts.norm(meth(it, x, 'strip')) for x in it.iterate(
        meth(it, t, 'split', ';'))]
