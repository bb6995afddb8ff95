"""C10: with a trusted-host list, only trusted hosts come out."""
from .lib import *
from .mdlib import same_val

RULE = ('Host names built from arbitrary unknown labels around a listed name '
        '(equal, subdomain, same suffix without a dot, listed name as a '
        'prefix, with a port, with something after the colon that is no '
        'port) are followed through the trust decision and through every '
        'host and URL accessor; the accessor returns exactly for the trusted '
        'shapes and raises the security error for all others, whichever '
        'header supplies the host.')
MIN_SCENARIOS = 60


def lab(it, name, lacks=':', nonempty=True):
    p = sym(name, 'str')
    for c in lacks + '/?#@\\':
        if it.contains(p, c):
            raise Pruned('label contains ' + c)
    if nonempty and not it.truth(p):
        raise Pruned('empty label')
    if name == 'P':
        it.contains(p, '.')
    return p


def cat(it, *ps):
    v = ps[0]
    for p in ps[1:]:
        v = add(it, v, p)
    return v


def port(it):
    p = sym('port', 'str')
    if not it.truth(meth(it, p, 'isdigit')):
        raise Pruned('port')
    if it.contains(p, ':'):
        raise Pruned('port')
    return p


def noport(it):
    p = lab(it, 'tail', ':.')
    if it.truth(meth(it, p, 'isdigit')):
        raise Pruned('a port')
    return p


# shape -> (host, trusted for plain entry, trusted for dotted entry)
N = 'example.com'
SHAPES = {
    'name': (lambda it: N, True, True),
    'name:port': (lambda it: cat(it, N + ':', port(it)), True, True),
    'P.name': (lambda it: cat(it, lab(it, 'P'), '.' + N), False, True),
    'P.name:port': (lambda it: cat(it, lab(it, 'P'), '.' + N + ':',
                                   port(it)), False, True),
    'P+x+name': (lambda it: cat(it, lab(it, 'P'), 'x' + N), False, False),
    'x+name': (lambda it: 'x' + N, False, False),
    'name.P': (lambda it: cat(it, N + '.', lab(it, 'P', ':.')), False, False),
    'name+P': (lambda it: cat(it, N + 'x', lab(it, 'P', ':.', nonempty=False)),
               False, False),
    'name.P:port': (lambda it: cat(it, N + '.', lab(it, 'P', ':.'), ':',
                                   port(it)), False, False),
    'P (no dot)': (lambda it: lab(it, 'P', ':.'), False, False),
    'suffix of name': (lambda it: 'com', False, False),
    'name:tail': (lambda it: cat(it, N + ':', noport(it)), False, False),
    'P/.name': (lambda it: cat(it, lab(it, 'P'), '/.' + N), False, False),
    'P?.name': (lambda it: cat(it, lab(it, 'P'), '?.' + N), False, False),
    'P#.name': (lambda it: cat(it, lab(it, 'P'), '#.' + N), False, False),
    'name@P': (lambda it: cat(it, N + '@', lab(it, 'P')), False, False),
    'name:tail@P': (lambda it: cat(it, N + ':', noport(it), '@',
                                   lab(it, 'P')), False, False),
    'P@name': (lambda it: cat(it, lab(it, 'P'), '@' + N), False, False),
    'empty': (lambda it: '', False, False),
}
LISTS = {
    'plain': (lambda it: it.mk_list([N]), 1),
    'dotted': (lambda it: it.mk_list(['.' + N]), 2),
    'plain with port': (lambda it: it.mk_list([N + ':8080']), 1),
    'other first, plain': (lambda it: it.mk_list(['other.test', N]), 1),
    'other first, dotted': (lambda it: it.mk_list(['.other.test', '.' + N]),
                            2),
    'dotted first, plain': (lambda it: it.mk_list([
        '.other.test', N]), 1),
    'dotted, other last': (lambda it: it.mk_list([
        '.' + N, 'other.test']), 2),
    'text': (lambda it: N, 1),
    'dotted text': (lambda it: '.' + N, 2),
    'tuple': (lambda it: Tup((N,)), 1),
    'none listed': (lambda it: it.mk_list([]), 3),
}


def non_ascii(it):
    return any(v and t.op == 'raises' and 'Unicode' in str(t.args[0])
               for t, v in it.facts.truth.items())


def skip_non_ascii(it):
    """outside ASCII: hosts with one unknown label, no crash required"""
    if non_ascii(it) and it.contains(sym('P', 'str'), '.'):
        raise Pruned('non-ASCII host with several unknown labels')


def plain(it, h):
    """precondition: no comma or white space in the host"""
    for p in (h.args if isinstance(h, Term) and h.op == 'cat' else [h]):
        if isinstance(p, Term):
            it.facts.truth[Term('in', (',', p), 'bool')] = False
            it.facts.truth[Term('nospace', (p,), 'bool')] = True


def want(shape, kind):
    s = SHAPES[shape]
    return False if kind == 3 else s[kind]


def scenarios(prog):
    out = []
    trusted = prog.get('verktyg.wsgi.host_is_trusted')
    get_host = prog.get('verktyg.wsgi.get_host')
    url = prog.get('verktyg.wsgi.get_current_url')
    Request = prog.get('verktyg.requests.Request')
    Plain = prog.get('verktyg.requests.PlainRequest')
    SE = prog.get('verktyg.exceptions.SecurityError')
    HE = prog.get('verktyg.exceptions.HTTPException')

    def direct(shape, lst):
        mk, kind = LISTS[lst]

        def fn(it):
            h = SHAPES[shape][0](it)
            if shape == 'P (no dot)' and it.eq(h, 'com'):
                raise Pruned('other shape')
            r = attempt(it, call, it, trusted, h, mk(it))
            oblige(it)
            skip_non_ascii(it)
            if r[0] == 'raise':
                fail(it, 'the trust decision for a %s host raises %s' % (
                    shape, exc_name(r[1])), r[2])
            t = it.truth(r[1])
            if non_ascii(it):
                return
            if t != want(shape, kind):
                fail(it, 'a host of shape "%s" is %s with the list "%s"' % (
                    shape, 'trusted' if t else 'not trusted', lst))
        return fn
    for s in SHAPES:
        for l in LISTS:
            if s == 'empty' or l or True:
                out.append(Scen('decision: %s / %s' % (s, l), direct(s, l),
                                trusted.qual))

    # arbitrary name against an arbitrary single entry
    def generic(it):
        h = lab(it, 'host')
        e = lab(it, 'entry')
        if it.truth(meth(it, e, 'startswith', '.')):
            raise Pruned('dotted entry')
        r = attempt(it, call, it, trusted, h, it.mk_list([e]))
        oblige(it)
        if r[0] == 'raise':
            if non_ascii(it):
                return
            fail(it, 'the trust decision raises %s' % exc_name(r[1]), r[2])
        if non_ascii(it):
            return
        t = it.truth(r[1])
        if t != it.eq(h, e):
            fail(it, 'host %s, entry %s: trusted is %s' % (
                show(h), show(e), t))
    out.append(Scen('decision: arbitrary host / arbitrary plain entry',
                    generic, trusted.qual))

    SRC = ('forwarded', 'forwarded, more', 'host', 'server')

    def env(it, h, src):
        d = {'wsgi.url_scheme': sym('scheme', 'str'),
             'SERVER_NAME': 'internal.test', 'SERVER_PORT': '80',
             'REQUEST_METHOD': 'GET',
             'SCRIPT_NAME': sym('script_name', 'str'),
             'PATH_INFO': sym('path_info', 'str'),
             'QUERY_STRING': sym('query_string', 'str')}
        if src.startswith('forwarded'):
            d['HTTP_HOST'] = 'proxy.test'
            d['HTTP_X_FORWARDED_HOST'] = h if src == 'forwarded' else \
                cat(it, h, ', ', sym('others', 'str'))
        elif src == 'host':
            d['HTTP_HOST'] = h
        else:
            d['SERVER_NAME'] = h
            d['SERVER_PORT'] = sym('server_port', 'str')
            if not it.truth(meth(it, d['SERVER_PORT'], 'isdigit')):
                raise Pruned('port')
        return it.mk_dict(d)

    def hostval(it, h, src, e):
        if src != 'server':
            return h
        g = lambda k: it.getitem(e, k)          # noqa: E731
        s, p = g('wsgi.url_scheme'), g('SERVER_PORT')
        if it.eq(s, 'https') and it.eq(p, '443') or \
                it.eq(s, 'http') and it.eq(p, '80'):
            return h
        return cat(it, h, ':', p)

    ACC = {
        'get_host': lambda it, e, t: call(it, get_host, e, t),
        'get_host(kw)': lambda it, e, t: call(it, get_host, e,
                                              trusted_hosts=t),
        'url()': lambda it, e, t: call(it, url, e, trusted_hosts=t),
        'url(root)': lambda it, e, t: call(it, url, e, True,
                                           trusted_hosts=t),
        'url(strip)': lambda it, e, t: call(
            it, url, e, strip_querystring=True, trusted_hosts=t),
        'url(host)': lambda it, e, t: call(it, url, e, host_only=True,
                                           trusted_hosts=t),
    }
    for cls in (Request, Plain):
        for a in ('url', 'base_url', 'url_root', 'host_url', 'host'):
            def req(it, e, t, a=a, cls=cls):
                r = call(it, cls, e)
                it.setattr(r, 'trusted_hosts', t)
                return it.getattr(r, a)
            ACC['%s.%s' % (cls.name, a)] = req

    def access(acc, shape, lst, src):
        mk, kind = LISTS[lst]

        def fn(it):
            # the shape of the URL text is another property's business
            it.overrides[it.prog.get('verktyg.urls.uri_to_iri')] = host(
                'uri_to_iri', lambda u, *a, **k: Term('iri', (u,), 'str'))
            h = SHAPES[shape][0](it)
            plain(it, h)
            e = env(it, h, src)
            hv = hostval(it, h, src, e)
            r = attempt(it, ACC[acc], it, e, mk(it))
            oblige(it)
            skip_non_ascii(it)
            if non_ascii(it):
                if r[0] == 'raise' and not is_exc(it, r[1], SE):
                    fail(it, '%s raises %s for a malformed host' % (
                        acc, exc_name(r[1])), r[2])
                return
            if want(shape, kind):
                if r[0] == 'raise':
                    fail(it, '%s raises %s for a trusted %s host' % (
                        acc, exc_name(r[1]), shape), r[2])
                if acc.startswith('get_host') or acc.endswith('.host'):
                    if not same_val(it, r[1], hv):
                        fail(it, '%s returns %s instead of the host %s' % (
                            acc, show(r[1]), show(hv)))
            else:
                if r[0] != 'raise':
                    fail(it, '%s returns %s for an untrusted host (%s from '
                         '%s, list %s)' % (acc, show(r[1]), shape, src, lst))
                if not is_exc(it, r[1], SE) or not is_exc(it, r[1], HE):
                    fail(it, '%s raises %s rather than the security error '
                         'for an untrusted host' % (acc, exc_name(r[1])),
                         r[2])
        return fn
    for acc in ACC:
        for src in SRC:
            for shape in ('name', 'P.name', 'P+x+name', 'name.P',
                          'name:tail', 'name:tail@P', 'P/.name'):
                if src == 'server' and shape.startswith('name:tail'):
                    continue
                for lst in ('plain', 'dotted', 'none listed'):
                    out.append(Scen('%s: %s from %s / %s' % (
                        acc, shape, src, lst), access(acc, shape, lst, src),
                        get_host.qual))

    # without a list the host is whatever the request says
    def anyhost(acc, src):
        def fn(it):
            h = lab(it, 'host')
            it.overrides[it.prog.get('verktyg.urls.uri_to_iri')] = host(
                'uri_to_iri', lambda u, *a, **k: Term('iri', (u,), 'str'))
            plain(it, h)
            e = env(it, h, src)
            hv = hostval(it, h, src, e)
            r = attempt(it, ACC[acc], it, e, None)
            oblige(it)
            if r[0] == 'raise':
                fail(it, '%s raises %s without a trusted list' % (
                    acc, exc_name(r[1])), r[2])
            if acc.startswith('get_host') or acc.endswith('.host'):
                if not same_val(it, r[1], hv):
                    fail(it, '%s returns %s instead of the host %s' % (
                        acc, show(r[1]), show(hv)))
        return fn
    for acc in ACC:
        for src in SRC:
            out.append(Scen('%s: no list, host from %s' % (acc, src),
                            anyhost(acc, src), get_host.qual))
    return out
