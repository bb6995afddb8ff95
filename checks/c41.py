"""C41: accept headers written back."""
import itertools

from .lib import *
from .c17 import want, check_same

RULE = ('Accept objects made of up to three ranges with arbitrary names, all '
        'kinds of quality and arbitrary parameters are written as text and '
        'parsed again; ranges, order, qualities and parameters must be the '
        'same.  Membership and indexing are compared with the '
        'acceptability of the value on every path.')
MIN_SCENARIOS = 60
A = 'verktyg.accept.'
KINDS = {
    'type': ('content_type.ContentTypeAccept', 'parse_accept_header',
             'content_type.ContentType', 'content_type'),
    'language': ('language.LanguageAccept', 'parse_accept_language_header',
                 'language.Language', 'language'),
    'charset': ('charset.CharsetAccept', 'parse_accept_charset_header',
                'charset.Charset', 'charset'),
}


def scenarios(prog):
    out = []
    g = prog.get
    NotAcceptable = g('verktyg.exceptions.NotAcceptable')

    def add(name, fn, subject='', **kw):
        out.append(Scen(name, fn, subject, **kw))

    def rng(it, kind, i, wild=False):
        if wild:
            return '*/*' if kind == 'type' else '*'
        w = word(it, 'r%d' % i, r'[a-z0-9]')
        if kind == 'type':
            return cat(it, w, '/', word(it, 's%d' % i, r'[a-z0-9]'))
        return w

    def options(it, a):
        r = []
        for o in it.iterate(a):
            ps = {}
            m = it.getattr(o, 'params')
            for k in it.iterate(m):
                ps[k] = it.facts.norm(it.getitem(m, k))
            r.append((it.facts.norm(it.getattr(o, 'value')),
                      it.facts.norm(it.getattr(o, 'q')), ps))
        return r

    def compare(it, got, exp, what):
        oblige(it)
        if len(got) != len(exp):
            fail(it, '%s: %d ranges instead of %d' % (what, len(got),
                                                      len(exp)))
        for (v, q, p), (v2, q2, p2) in zip(got, exp):
            check_same(it, v, v2, what)
            oblige(it, 2)
            if not it.eq(q, q2):
                fail(it, '%s: quality %r is %r' % (what, q2, q))
            if set(p) != set(p2) or not all(it.eq(p[k], p2[k]) for k in p):
                fail(it, '%s: parameters %r are %r' % (what, p2, p))

    QS = [None, 1, 1.0, 0.5, 0, 0.001, 0.25]

    def f_trip(it, kind, shape, how):
        cls, parse = KINDS[kind][:2]
        exp, opts, text = [], [], []
        for i, (q, params) in enumerate(shape):
            v = rng(it, kind, i, wild=i == 2)
            ps = {k: word(it, '%s%d' % (k, i), r'[a-z0-9.]')
                  for k in params}
            exp.append((v, 1.0 if q is None else float(q), ps))
            t = v
            for k in ps:
                t = cat(it, t, (' ; %s = ' if how == ' , ' else ';%s=') % k,
                        ps[k])
            if q is not None:
                t = cat(it, t, (' ; q = %s' if how == ' , ' else ';q=%s') %
                        q)
            text.append(t)
            if q is None and not ps and i % 2:
                opts.append(v)
            elif ps:
                opts.append(Tup((v, 1.0 if q is None else q,
                                 it.mk_dict(dict(ps)))))
            elif q is not None:
                opts.append(Tup((v, q)))
            else:
                opts.append(Tup((v,)))
        if how == 'object':
            a = want(it, lambda: call(it, g(A + cls), it.mk_list(opts)), cls)
        else:
            t = text[0]
            for x in text[1:]:
                t = cat(it, t, how, x)
            a = want(it, lambda: call(it, g(A + KINDS[kind][3] + '.' + parse),
                                      t), parse)
        compare(it, options(it, a), exp, 'an accept header')
        for w in ('method', 'str'):
            s = want(it, lambda: meth(it, a, 'to_header') if w == 'method'
                     else it.call(prog.builtins['str'], [a]), 'to_header')
            b = want(it, lambda: call(
                it, g(A + KINDS[kind][3] + '.' + parse), s), parse)
            compare(it, options(it, b), exp, 'an accept header read back')
    for kind in KINDS:
        shapes = [((q, ()),) for q in QS]
        shapes += [((a, ()), (b, ())) for a in (None, 0.5, 0)
                   for b in (None, 0.25)]
        shapes += [((None, ()), (0.5, ()), (0.001, ()))]
        if kind == 'type':
            shapes += [((q, p),) for q in (None, 0.5)
                       for p in (('level',), ('level', 'a'))]
            shapes += [((0.5, ('level',)), (None, ('b',)))]
        for n, sh in enumerate(shapes):
            for how in ('object', ',', ', ', ' , '):
                if how == ', ' and len(sh) == 1:
                    continue
                add('trip.%s.%d.%s' % (kind, n, how), lambda it, a=(
                    kind, sh, how): f_trip(it, *a), 'Accept.to_header')

    def f_clamp(it, kind, q, exp, how):
        cls, parse = KINDS[kind][:2]
        v = rng(it, kind, 0)
        if how == 'text':
            a = want(it, lambda: call(
                it, g(A + KINDS[kind][3] + '.' + parse),
                cat(it, v, '; q = %s' % q)), parse)
        else:
            a = want(it, lambda: call(it, g(A + cls), it.mk_list(
                [Tup((v, q))])), cls)
        compare(it, options(it, a), [(v, exp, {})], 'quality %r' % q)
    for kind in KINDS:
        for q, e in ((2, 1.0), ('1.5', 1.0), (-1, 0.0), ('-0.5', 0.0),
                     ('0.3', 0.3), (0, 0.0), ('0', 0.0), ('1', 1.0)):
            for how in ('text', 'object'):
                add('quality.%s.%r.%s' % (kind, q, how), lambda it, a=(
                    kind, q, e, how): f_clamp(it, *a), 'Range')

    def f_params(it, kind):
        """languages and charsets take no parameters"""
        cls, parse = KINDS[kind][:2]
        v = rng(it, kind, 0)
        p = word(it, 'p', r'[a-z]')
        for r in (attempt(it, call, it, g(A + cls), it.mk_list([Tup((
                v, 1.0, it.mk_dict({'level': p})))])),
                attempt(it, call, it, g(A + KINDS[kind][3] + '.' + parse),
                        cat(it, v, ';level=', p))):
            oblige(it)
            if r[0] == 'ok' or not is_exc(it, r[1], 'ValueError'):
                fail(it, 'a parameter of a %s is accepted' % kind)
    for kind in ('language', 'charset'):
        add('params.' + kind, lambda it, k=kind: f_params(it, k), 'Range')

    def f_in(it, kind, n, vals):
        """membership, indexing and acceptability agree"""
        cls, _, val = KINDS[kind][:3]
        opts = []
        for i in range(n):
            q = sym('q%d' % i, 'float')
            if it.less(q, 0.0) or it.less(1.0, q):
                raise Pruned('quality')
            opts.append(Tup((vals[i], q)))
        a = call(it, g(A + cls), it.mk_list(opts))
        v = call(it, g(A + val), vals[-1])
        acc = attempt(it, meth, it, v, 'acceptability', a)
        if acc[0] != 'ok' and not is_exc(it, acc[1], NotAcceptable):
            fail(it, 'acceptability raises %s' % exc_name(acc[1]))
        oblige(it, 3)
        c = want(it, lambda: it.contains(a, v), 'in')
        c = it.truth(c) if not isinstance(c, bool) else c
        if c != (acc[0] == 'ok'):
            fail(it, 'a value that is %s is %s the header' % (
                'acceptable' if acc[0] == 'ok' else 'refused',
                'in' if c else 'not in'))
        r = attempt(it, it.getitem, a, v)
        if acc[0] != 'ok':
            if r[0] == 'ok' or not is_exc(it, r[1], 'KeyError'):
                fail(it, 'indexing with a refused value')
            return
        if r[0] != 'ok':
            fail(it, 'indexing with an acceptable value raises %s' %
                 exc_name(r[1]))
        for n_ in ('quality', 'exact_match'):
            x, y = it.getattr(r[1], n_), it.getattr(acc[1], n_)
            if not it.eq(x, y):
                fail(it, 'indexing gives %s %r, not %r' % (n_, x, y))
    WORDS = {'type': ['text/html', 'text/*', '*/*', 'a/b'],
             'language': ['en-gb', 'en', '*', 'fr'],
             'charset': ['utf-8', '*', 'ascii']}
    for kind in KINDS:
        ws = WORDS[kind]
        for n in (0, 1, 2):
            for c in itertools.product(ws, repeat=n):
                add('in.%s.%s' % (kind, ' '.join(c)), lambda it, a=(
                    kind, n, c + (ws[0],)): f_in(it, *a), 'Accept')

    def f_val(it, kind):
        val = KINDS[kind][2]
        v = rng(it, kind, 0)
        o = call(it, g(A + val), v)
        check_same(it, meth(it, o, 'to_header'), v, 'a value')
        check_same(it, it.call(prog.builtins['str'], [o]), v, 'a value')
        check_same(it, it.getattr(o, 'value'), v, 'a value')
        if kind == 'type':
            t, s = word(it, 't', '[a-z]'), word(it, 's', '[a-z]')
            o = call(it, g(A + val), cat(it, t, '/', s))
            check_same(it, it.getattr(o, 'type'), t, 'type')
            check_same(it, it.getattr(o, 'subtype'), s, 'subtype')
    for kind in KINDS:
        add('value.' + kind, lambda it, k=kind: f_val(it, k), 'Value')
    return out
