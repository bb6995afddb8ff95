"""C25: URL routing matches whole paths, best route first."""
from .lib import *
from engine import relang

RULE = ('The pattern each route compiles to is derived from the source and '
        'compared, as a regular language, with the language its template '
        'denotes.  MapAdapter.match is followed for an arbitrary path; on '
        'each way through it the texts satisfying the pattern tests made on '
        'that way must all belong to the outcome (endpoint, values, slash '
        'redirect, NotFound).')
MIN_SCENARIOS = 30

CONV = {'default': '[^/]+', 'string': '[^/]+', 'path': '[^/](?:[^\n]*)',
        'int': r'\d+', 'float': r'\d+\.\d+',
        'uuid': '-'.join('[A-Fa-f0-9]{%d}' % n for n in (8, 4, 4, 4, 12))}


def conv_spec(name, args):
    if name in ('default', 'string') and args:
        kw = dict(a.split('=') for a in args.replace(' ', '').split(','))
        if 'length' in kw:
            return '[^/]{%s}' % kw['length']
        return '[^/]{%s,%s}' % (kw.get('minlength', '1'),
                                kw.get('maxlength', ''))
    if name == 'any':
        return '(?:%s)' % '|'.join(esc(a.strip(' "')) for a in args.split(','))
    return CONV[name]


def esc(s):
    return ''.join(c if c.isalnum() else '\\' + c for c in s)


def parts_of(t):
    """independent reading of a template: [(text) | (name, conv, args)]"""
    out, i = [], 0
    while i < len(t):
        j = t.find('<', i)
        if j < 0:
            out.append(t[i:])
            break
        if j > i:
            out.append(t[i:j])
        k = t.index('>', j)
        body = t[j + 1:k]
        conv, args = 'default', ''
        if ':' in body:
            conv, body = body.rsplit(':', 1)
            if '(' in conv:
                conv, args = conv[:-1].split('(', 1)
        out.append((body, conv, args))
        i = k + 1
    return out


def spec_body(t):
    return ''.join(esc(p) if isinstance(p, str) else '(?P<%s>%s)' % (
        p[0], conv_spec(p[1], p[2])) for p in parts_of(t))


def spec(route):
    """(exact language, language answered by a slash redirect or None)"""
    t, strict, dom = route['t'], route['strict'], route.get('dom', '')
    pre = spec_body(dom) + r'\|'
    leaf = not t.endswith('/')
    body = pre + spec_body(t if leaf else t.rstrip('/'))
    if leaf:
        # an optional slash never follows another one
        return (body if strict else body + '(?:(?<!/)/?)'), None
    if strict:
        return body + '(?<!/)/', body + '(?<!/)'
    return body + '(?<!/)/?', None


DONTCARE = relang.Lang('[^\n]*')       # path converters: line breaks ignored


def re_facts(it):
    """[(key, how, pattern, flags, subject, pos, value)] decided so far"""
    out = []
    for t, v in it.facts.truth.items():
        if t.op == 're':
            how, pk, s, pos = t.args
            out.append((t, how, pk.items[0], pk.items[1], s, pos, v))
    return out


def group_cons(it, key, pattern):
    """what is known about captures of that match: name -> empty/nonempty"""
    import re
    cons = {}
    try:
        gi = re.compile(pattern).groupindex
    except (re.error, TypeError):
        raise Unsupported('unknown pattern')
    for n, i in gi.items():
        for ref in (i, n):
            g = Term('group', (Term('rem', key.args, 'Match'), ref), 'str')
            v = it.facts.truth.get(g)
            if v is None:
                e = it.facts.decide_eq(g, '')
                v = None if e is None else not e
            if v is not None:
                cons[n] = 'nonempty' if v else 'empty'
    return cons


def path_langs(it, subject):
    """languages of the pattern tests on this way: (held, failed)"""
    inside, outside = [], []
    for key, how, pat, fl, s, pos, v in re_facts(it):
        if s is not subject:
            continue
        if not isinstance(pat, str) or not isinstance(fl, int) or pos != 0:
            raise Unsupported('pattern of a route is not constant')
        if how == 'search' and pat.startswith('^'):
            how = 'match'
        if not v:
            outside.append(relang.Lang(pat, fl, how))
            continue
        cons = group_cons(it, key, pat)
        for g, c in cons.items():
            a = relang.Lang(pat, fl, how, {g: 'empty'})
            b = relang.Lang(pat, fl, how, {g: 'nonempty'})
            if relang.witness([a, b]) is not None:
                raise Unsupported('ambiguous capture')
        inside.append(relang.Lang(pat, fl, how, cons))
    return inside, outside


def within(it, inside, outside, want, what, dontcare=()):
    """every text of this way is in one of want"""
    oblige(it)
    try:
        w = relang.witness(inside + list(dontcare), outside + want)
    except relang.Unable as e:
        raise Unsupported('regular expression: %s' % e)
    if w is not None:
        fail(it, 'the text %r %s' % (w, what))


# (name, map options, routes in registration order; prio: best first)
SETS = []


def S(name, *routes, **opts):
    SETS.append((name, opts, routes))


def R(t, e=None, **k):
    return dict(t=t, e=e or t, k=k)


S('static', R('/foo'))
S('static branch', R('/foo/'))
S('root', R('/'))
S('static, lax', R('/foo'), strict_slashes=False)
S('branch, lax', R('/foo/'), strict_slashes=False)
S('route option strict', R('/foo', strict_slashes=True),
  R('/bar/', strict_slashes=True), strict_slashes=False)
S('route option lax', R('/foo', strict_slashes=False),
  R('/bar/', strict_slashes=False))
S('metacharacters', R('/a.b/c+d'), R('/(x)|[y]*$'))
for c in ('x', 'string:x', 'string(length=2):x', 'string(minlength=2):x',
          'string(minlength=2, maxlength=3):x', 'string(maxlength=3):x',
          'int:x', 'float:x', 'path:x', 'uuid:x', 'any(ab, "c.d"):x'):
    S('<%s>' % c, R('/u/<%s>' % c))
S('variable branch', R('/u/<x>/'))
S('variable branch, lax', R('/u/<x>/'), strict_slashes=False)
S('variable, lax', R('/u/<x>'), strict_slashes=False)
S('path branch', R('/u/<path:x>/'))
S('path, lax', R('/u/<path:x>'), strict_slashes=False)
S('path middle', R('/<path:x>/edit'))
S('two variables', R('/<x>/<int:y>.<z>'))
S('static before variable', R('/u/<x>'), R('/u/me'))
S('variable after static', R('/u/me'), R('/u/<x>'))
S('int before string', R('/u/<x>'), R('/u/<int:x>'))
S('string before path', R('/u/<path:x>'), R('/u/<x>'))
S('int, string, path', R('/u/<path:x>'), R('/u/<int:x>'), R('/u/<x>'))
S('longer first', R('/<x>'), R('/<x>/<y>'), R('/<x>/edit'))
S('build only', R('/foo', build_only=True), R('/<x>'))
S('defaults', R('/foo', defaults={'x': 1}), R('/foo/<x>'))
S('page', R('/page/<int:x>'), R('/<path:x>'))
S('branch and leaf', R('/foo/'), R('/<x>'), redirect_defaults=False)
S('subdomains', R('/foo', subdomain='api'), R('/foo', 'www'),
  R('/bar', subdomain='<s>'))
S('default subdomain', R('/foo'), R('/bar', subdomain='api'),
  default_subdomain='www')
S('hosts', R('/foo', host='a.example'), R('/foo', 'b', host='<h>.example'),
  host_matching=True)


def has_path(t):
    return 'path' in t


def prio(r):
    """documented order of matching: routes without variables first, longer
    before shorter, then by kind of part"""
    ws = []
    for tmpl in (r.get('dom', ''), r['t'].rstrip('/') if r['t'].endswith('/')
                 else r['t']):
        for p in parts_of(tmpl):
            if isinstance(p, str):
                ws += [(0, -len(x)) for x in p.split('/') if x]
            else:
                ws.append((1, {'path': 200, 'int': 50, 'float': 50}.get(
                    p[1], 100)))
    args = any(not isinstance(p, str) for p in parts_of(
        r.get('dom', '') + '|' + r['t'])) or bool(r['k'].get('defaults'))
    return (args, -len(ws), ws)


def scenarios(prog):
    out = []
    URLMap = prog.get('verktyg.routing.URLMap')
    Route = prog.get('verktyg.routing.Route')
    MapAdapter = prog.get('verktyg.routing.MapAdapter')
    Redirect = prog.get('verktyg.routing.RequestRedirect')
    NotFound = prog.get('verktyg.exceptions.NotFound')

    def build(it, opts, routes):
        rs = []
        for r in routes:
            k = dict(r['k'])
            if 'defaults' in k:
                k['defaults'] = it.mk_dict(dict(k['defaults']))
            rs.append(call(it, Route, r['t'], endpoint=r['e'], **k))
        return call(it, URLMap, it.mk_list(rs), **opts), rs

    def normal(opts, routes):
        res = []
        for r in routes:
            r = dict(r)
            k = r['k']
            r['strict'] = k.get('strict_slashes')
            if r['strict'] is None:
                r['strict'] = opts.get('strict_slashes', True)
            if opts.get('host_matching'):
                r['dom'] = k.get('host') or ''
            else:
                r['dom'] = k.get('subdomain')
                if r['dom'] is None:
                    r['dom'] = opts.get('default_subdomain', '')
            res.append(r)
        return res

    def match_fn(opts, routes, sub, return_route):
        def fn(it):
            m, rs = build(it, opts, routes)
            norm = normal(opts, routes)
            order = sorted((r for r in norm if not r['k'].get('build_only')),
                           key=prio)
            kw = {}
            if opts.get('host_matching'):
                server = sub
                pre = sub
            else:
                server = 'example.org'
                pre = sub
                kw['subdomain'] = sub
            ad = meth(it, m, 'bind', server, script_name='/app', **kw)
            p = sym('path', 'str')
            r = attempt(it, meth, it, ad, 'match', p,
                        return_route=return_route)
            subject = None
            for f in re_facts(it):
                if subject is not None and f[4] is not subject:
                    raise Unsupported('several subjects')
                subject = f[4]
            if subject is None:
                fail(it, 'the path is never tested')
            want_s = it.binop(
                __import__('ast').Add(), pre + '|/', it.call(
                    it.getattr(p, 'lstrip'), ['/'], {}))
            oblige(it)
            if it.facts.norm_deep(subject) is not it.facts.norm_deep(want_s):
                raise Unsupported('the tested text is not recognised')
            inside, outside = path_langs(it, subject)
            # every subject starts with the constant part
            inside.append(relang.Lang(esc(pre) + r'\|/(?:[^/][^$]*|)'.replace(
                '[^$]', r'[\s\S]')))
            dc = [DONTCARE] if any(has_path(x['t']) for x in routes) else []
            exact = [relang.Lang(spec(x)[0]) for x in order]
            slash = [relang.Lang(spec(x)[1]) if spec(x)[1] else None
                     for x in order]
            before = lambda i: [l for j in range(i) for l in (
                exact[j], slash[j]) if l is not None]
            if r[0] == 'raise' and is_exc(it, r[1], Redirect):
                # whichever is first
                for i in range(len(order)):
                    if slash[i] is None:
                        continue
                    # earlier routes do not take these texts
                want = [l for l in slash if l is not None]
                within(it, inside, outside, want,
                       'is answered with a slash redirect', dc)
                # and no better route matches it exactly
                for i, l in enumerate(exact):
                    later = [slash[j] for j in range(i) if slash[j]]
                    within(it, inside + [l], outside, later,
                           'is redirected although a route matches it', dc)
                return
            if r[0] == 'raise' and is_exc(it, r[1], NotFound):
                nf = [relang.Lang(r'[\s\S]*')]
                oblige(it)
                for i, (a, b) in enumerate(zip(exact, slash)):
                    ins = inside + [a]
                    if rejects(it, order[i]):
                        continue
                    within(it, ins, outside, [],
                           'is not found although %s matches' %
                           order[i]['t'], dc)
                    if b is not None:
                        within(it, inside + [b], outside, [], 'is not found '
                               'although %s with a slash matches' %
                               order[i]['t'], dc)
                return
            if r[0] == 'raise':
                fail(it, 'matching raises %s' % exc_name(r[1]))
            got = list(it.iterate(r[1]))
            if len(got) != 2:
                fail(it, 'match does not return a pair')
            if return_route:
                if got[0] not in rs:
                    fail(it, 'match does not return one of the routes')
                e = routes[rs.index(got[0])]['e']
            else:
                e = got[0]
            hit = [i for i, x in enumerate(order) if x['e'] == e]
            if not hit:
                fail(it, 'an unknown endpoint %s is returned' % (e,))
            hit = hit[0]
            within(it, inside, outside, [exact[hit]],
                   'is routed to %s' % order[hit]['t'], dc)
            for j in range(hit):
                if rejects(it, order[j]):
                    continue
                within(it, inside + [exact[j]], outside, [],
                       'is routed to %s although %s comes first' % (
                           order[hit]['t'], order[j]['t']), dc)
                if slash[j] is not None:
                    within(it, inside + [slash[j]], outside, [],
                           'is routed to %s although %s comes first' % (
                               order[hit]['t'], order[j]['t']), dc)
            check_values(it, order[hit], got[1], inside, outside)
        return fn

    def rejects(it, route):
        """was a value of this route refused by its conversion?"""
        def groups(t):
            if isinstance(t, Term):
                if t.op == 'group':
                    yield t
                for x in t.args:
                    yield from groups(x)
        for t, v in it.facts.truth.items():
            if t.op != 'raises' or not v:
                continue
            for g in groups(t):
                how, pk, s, pos = g.args[0].args
                try:
                    a = relang.Lang(pk.items[0], pk.items[1], how)
                    b = relang.Lang(spec(route)[0])
                    if relang.witness([a, b]) is not None and \
                            relang.witness([b], [a]) is None:
                        return True
                except relang.Unable:
                    return True
        return False

    def check_values(it, route, values, inside, outside):
        import re
        key = None
        vs = [p for p in parts_of(route.get('dom', '') + '|' + route['t'])
              if not isinstance(p, str)]
        names = {p[0] for p in vs}
        for k, how, pat, fl, s, pos, v in re_facts(it):
            if v and set(re.compile(pat, fl).groupindex) - {
                    '__suffix__'} == names:
                key, kpat = k, pat
        if key is None:
            raise Unsupported('no match recorded')
        want = {}
        gi = re.compile(kpat).groupindex
        for name, conv, args in vs:
            g = Term('group', (Term('rem', key.args, 'Match'), gi[name]),
                     'str')
            want[name] = (g, conv)
        d = {k: v for k, v in (route['k'].get('defaults') or {}).items()}
        keys = [k for k in it.iterate(values)]
        oblige(it)
        if set(keys) != set(want) | set(d):
            fail(it, 'the values are %s instead of %s' % (
                sorted(map(str, keys)), sorted(set(want) | set(d))))
        for k in keys:
            v = it.getitem(values, k)
            if k in d:
                ok = it.eq(v, d[k])
            else:
                g, conv = want[k]
                if conv in ('int', 'float'):
                    e = it.call(it.prog.builtins[conv], [g], {})
                elif conv == 'uuid':
                    e = it.call(Ext('uuid.UUID'), [g], {})
                else:
                    e = g
                v, e = it.facts.norm_deep(v), it.facts.norm_deep(e)
                ok = v is e or isinstance(v, Term) and isinstance(
                    e, Term) and (v.op, v.args) == (e.op, e.args) or \
                    it.eq(v, e)
            if not ok:
                fail(it, 'variable %s has the value %s' % (k, show(v)))
        # the captures lie where the template has its variables
        lm = relang.Lang(kpat, 0, 'search', marks=True)
        sp = spec_body(route.get('dom', '')) + r'\|' + spec_body(
            route['t'].rstrip('/') if route['t'].endswith('/') else
            route['t'])
        ls = relang.Lang(sp + r'(?P<__suffix__>/?)', marks=True)
        if '__suffix__' not in gi:
            ls = relang.Lang(sp, marks=True)
        dc = []
        if has_path(route['t']):
            dc = [relang.Lang('[^\n]*(?P<x>[^\n]*)[^\n]*', marks=True)]
            return
        try:
            w = relang.witness([lm], [ls])
        except relang.Unable as e:
            raise Unsupported(str(e))
        oblige(it)
        if w is not None:
            fail(it, 'variables are captured at the wrong place: %r' % w)

    import itertools
    for name, opts, routes in [
            (n + (i and ', order %d' % i or ''), o, r) for n, o, rs in SETS
            for i, r in enumerate(itertools.permutations(rs))]:
        subs = ['']
        if any('subdomain' in r['k'] for r in routes) or \
                'default_subdomain' in opts:
            subs = ['', 'api', 'www', 'other']
        if opts.get('host_matching'):
            subs = ['a.example', 'b.example', 'other.org']
        for s in subs:
            for rr in (False, True):
                out.append(Scen('%s%s%s' % (
                    name, s and ', ' + s, rr and ', returning the route' or
                    ''), match_fn(opts, routes, s, rr), MapAdapter.qual))
    return out
