"""C33: mounted applications see their own part of the path."""
import itertools
from .lib import *
from .c17 import want, check_same

RULE = ('For every path of up to four arbitrary segments (empty ones '
        'included) and every set of mounts of a catalogue: the application '
        'of the longest mount that is the path up to a segment boundary is '
        'called, once, with the environ it would have had mounted on its '
        'own; script name and path together are unchanged.')
MIN_SCENARIOS = 30
W = 'verktyg.wsgi.'
SEG = r'[^/]'
MOUNTS = [{}, {'/a': 'A'}, {'/a': 'A', '/a/b': 'B'}, {'/a/b': 'B'},
          {'/a': 'A', '/b': 'B'}, {'': 'R'}, {'/': 'S'},
          {'/': 'S', '/a': 'A'}, {'/a/': 'A'}, {'/a/b/c': 'C', '/a': 'A'},
          {'/a': 'A', '': 'R'}]
# w: arbitrary segment, e: empty, or a literal
PATHS = [(), ('w',), ('e',), ('w', 'w'), ('w', 'e'), ('e', 'w'),
         ('w', 'w', 'w'), ('w', 'w', 'e'), ('w', 'e', 'w'), ('/a',),
         ('/a', 'w'), ('/a', '/b', 'w'), ('/a', '/b', 'w', 'w'),
         ('/a', 'e', '/b'), ('/a', '/b'), ('/a', '/b', '/c', 'e'),
         ('w', 'w', 'w', 'w')]


def scenarios(prog):
    out = []
    g = prog.get

    def build(it, kinds):
        segs = []
        for i, k in enumerate(kinds):
            segs.append('' if k == 'e' else k[1:] if k[0] == '/' else
                        word(it, 's%d' % i, SEG))
        return segs

    for mi, mounts in enumerate(MOUNTS):
        for kinds in PATHS:
            def f(it, mounts=mounts, kinds=kinds):
                segs = build(it, kinds)
                path = cat(it, '', *[x for s in segs for x in ('/', s)])
                prefix = sym('script', 'str')
                calls = []

                def app(name):
                    def h(i, a, k):
                        calls.append((name, list(a), dict(
                            a[0].items) if hasattr(a[0], 'items') else None))
                        return sym('result-' + name)
                    return HostFunc('app-' + name, h)
                table = it.mk_dict({k: app(v) for k, v in mounts.items()})
                m = call(it, g(W + 'DispatcherMiddleware'), app('root'),
                         table)
                other = sym('other')
                start = sym('start_response')
                env = it.mk_dict({'SCRIPT_NAME': prefix, 'PATH_INFO': path,
                                  'x.other': other})
                r = want(it, lambda: call(it, m, env, start),
                         'dispatching a request')
                oblige(it, 5)
                if len(calls) != 1:
                    fail(it, '%d applications were called' % len(calls))
                # the longest mount at a segment boundary; a mount of '' is
                # the application for everything else
                exp, n = 'root', 0
                for j in range(len(segs), -1, -1):
                    hit = None
                    head = cat(it, '', *[x for s in segs[:j]
                                         for x in ('/', s)])
                    for k, v in mounts.items():
                        if it.eq(head, k):
                            hit = v
                    if hit:
                        exp, n = hit, j
                        break
                name, a, _ = calls[0]
                if name != exp:
                    fail(it, 'application %s was called, not %s' % (name,
                                                                    exp))
                if len(a) != 2 or a[1] is not start:
                    fail(it, 'start_response was not passed on')
                if not (isinstance(r, Term) and r is sym('result-' + exp)):
                    fail(it, 'the answer of the application was not returned')
                e = a[0]
                sn = it.getitem(e, 'SCRIPT_NAME')
                pi = it.getitem(e, 'PATH_INFO')
                check_same(it, pi, cat(it, '', *[x for s in segs[n:]
                                                 for x in ('/', s)]),
                           'PATH_INFO of a mounted application')
                check_same(it, sn, cat(it, prefix, *[x for s in segs[:n]
                                                     for x in ('/', s)]),
                           'SCRIPT_NAME of a mounted application')
                check_same(it, it.getitem(e, 'x.other'), other,
                           'the rest of the environ')
            out.append(Scen('mount%d.%s' % (mi, '.'.join(
                k.strip('/') for k in kinds) or 'none'), f,
                'DispatcherMiddleware.__call__'))

    # a path that does not begin with a slash
    for ks in (('w',), ('=x',), ('=x', 'w'), ('=x', 'e'), ('w', 'w')):
        def f_bare(it, ks=ks):
            segs = ['' if k == 'e' else 'x' if k == '=x' else
                    word(it, 's%d' % i, SEG) for i, k in enumerate(ks)]
            if segs[0] != 'x' and it.eq(segs[0], ''):
                raise Pruned('begins with a slash')
            mounts = {'x': 'X', '/x': 'SX', '/': 'S'}
            calls = []
            m = call(it, g(W + 'DispatcherMiddleware'), HostFunc(
                'root', lambda i, a, k: calls.append(('root', a[0]))),
                it.mk_dict({k: HostFunc(v, lambda i, a, k, v=v: calls.append(
                    (v, a[0]))) for k, v in mounts.items()}))
            path = cat(it, segs[0], *[x for s in segs[1:] for x in ('/', s)])
            env = it.mk_dict({'PATH_INFO': path, 'SCRIPT_NAME': '/r'})
            want(it, lambda: call(it, m, env, sym('sr')), 'dispatching')
            oblige(it, 3)
            x = it.eq(segs[0], 'x')
            if len(calls) != 1 or calls[0][0] != ('X' if x else 'root'):
                fail(it, 'for the path %s application %s was called' % (
                    show(path), [c[0] for c in calls]))
            e = calls[0][1]
            check_same(it, cat(it, it.getitem(e, 'SCRIPT_NAME'),
                               it.getitem(e, 'PATH_INFO')),
                       cat(it, '/r', path), 'the whole path')
            if x:
                check_same(it, it.getitem(e, 'PATH_INFO'), cat(
                    it, '', *[y for s in segs[1:] for y in ('/', s)]),
                    'PATH_INFO')
        out.append(Scen('bare.%s' % '.'.join(ks), f_bare,
                        'DispatcherMiddleware.__call__'))

    # no SCRIPT_NAME, no mounts at all
    def f_none(it):
        got = []
        app = HostFunc('app', lambda i, a, k: got.append(a) or sym('res'))
        m = call(it, g(W + 'DispatcherMiddleware'), app)
        s = word(it, 's', SEG)
        env = it.mk_dict({'PATH_INFO': cat(it, '/', s)})
        want(it, lambda: call(it, m, env, sym('sr')), 'dispatching')
        oblige(it, 2)
        if len(got) != 1:
            fail(it, 'the application was not called')
        check_same(it, it.getitem(got[0][0], 'PATH_INFO'), cat(it, '/', s),
                   'PATH_INFO')
        check_same(it, it.getitem(got[0][0], 'SCRIPT_NAME'), '',
                   'SCRIPT_NAME')
    out.append(Scen('no-mounts', f_none, 'DispatcherMiddleware'))
    return out
