"""C13: the static file middleware serves the exported files only."""
from .lib import *
from .c17 import want, check_same

RULE = ('For every request path of up to four segments (arbitrary text, '
        'empty, "." and ".."), every kind of export and every answer of the '
        'file system: only paths made of the exported directory and the '
        'segments after the export are looked up or opened, none of them '
        '".."; the answer is the file opened, with its size and type; '
        'everything else is passed to the application untouched.')
MIN_SCENARIOS = 60
W = 'verktyg.wsgi.'
SEG = r'[^/]'
FILES = ('posixpath.isfile', 'posixpath.getsize', 'posixpath.getmtime',
         'posixpath.exists', 'posixpath.isdir', 'builtins.open', 'io.open',
         'os.stat', 'os.open', 'posixpath.realpath')
PATHS = [('w',), ('w', 'w'), ('/s',), ('/s', 'w'), ('/s', 'w', 'w'),
         ('/s', '..', 'w'), ('/s', 'w', '..'), ('/s', '..', '..', 'w'),
         ('..', '/s', 'w'), ('/s', 'e', 'w'), ('e', 'w'), ('/s', 'w', 'e'),
         ('/s', '.', 'w'), ('/sx', 'w'), ('..',), ('/s', '..'), ('e',), (),
         ('/s', 'e', 'e', 'w'), ('w', '..', 'w'), ('/s', '/t', 'w')]


_DT = []


def timetuple(it, x):
    return stub(it, 'struct_time', tm_wday=0, tm_mon=1, tm_year=2000, stamp=x, **{
        n: Term(n, (x,), 'int') for n in ('tm_mday', 'tm_hour', 'tm_min',
                                          'tm_sec')})


def moment(it, x):
    """the datetime of a time stamp"""
    if not _DT or _DT[0] is not it.prog:
        _DT[:] = [it.prog, ClassV(
            'datetime', [it.prog.ext_class('datetime.datetime')], {},
            kind='repo')]
    o = Obj(_DT[1], {'stamp': x, 'microsecond': 0})
    o.attrs['timetuple'] = host('timetuple', lambda: timetuple(it, x))
    o.attrs['utctimetuple'] = host('utctimetuple', lambda: timetuple(it, x))
    o.attrs['replace'] = HostFunc('replace', lambda i, a, k: o)
    return o


class Fs:
    """answers of the file system, by path"""
    def __init__(self, it, files=None):
        self.files = files      # None: unknown, else exact list
        self.looked = []
        self.opened = []
        self.closed = []

    def hook(self, it, name, a, k):
        if name == 'fnmatch.fnmatch' or name == 'fnmatch.fnmatchcase':
            if not isinstance(it.facts.norm(a[1]), str):
                it.raise_('TypeError', 'fnmatch pattern')
            return (Term('fnmatch', (a[0], a[1]), 'bool'),)
        if name == 'mimetypes.guess_type':
            t = Term('mimetype', (it.facts.norm(a[0]),), 'str')
            if it.choose(2, 'type is known'):
                it.facts.truth[t] = True
                return (Tup((t, None)),)
            return (Tup((None, None)),)
        if name == 'datetime.datetime.utcfromtimestamp':
            return (moment(it, a[0]),)
        if name == 'time.mktime':
            t = Term('epoch', (a[0].attrs['stamp'],), 'int')
            it.facts.add_lin(it.facts.lin_of(t))
            return (t,)
        if name == 'time.gmtime':
            return (timetuple(it, a[0] if a else 'now'),)
        if name == 'time.time':
            return (sym('now', 'float'),)
        if name not in FILES:
            return None
        p = it.facts.norm(a[0])
        self.looked.append(p)
        if name == 'posixpath.isfile':
            if self.files is not None:
                return (any(it.eq(p, x) for x in self.files),)
            if isinstance(p, str) and p.endswith('/'):
                return (False,)     # a directory, whatever there is
            return (Term('isfile', (p,), 'bool'),)
        if name == 'posixpath.getsize':
            return (Term('size', (p,), 'int'),)
        if name == 'posixpath.getmtime':
            return (Term('mtime', (p,), 'float'),)
        if name in ('builtins.open', 'io.open'):
            f = stub(it, 'OpenFile', path=p, mode=a[1] if len(a) > 1 else
                     k.get('mode', 'r'))
            f.attrs['close'] = host('close', lambda: self.closed.append(f))
            self.opened.append(f)
            return (f,)
        return None


def request(it, path, **extra):
    d = {'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http',
         'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
         'SCRIPT_NAME': '', 'PATH_INFO': path}
    d.update(extra)
    return it.mk_dict(d)


def segments(it, kinds):
    segs = []
    for i, k in enumerate(kinds):
        if k == 'e':
            segs.append('')
        elif k == 'w':
            w = word(it, 's%d' % i, SEG)
            # text arriving in the environ is latin-1 tunneled utf-8; stay
            # with what survives it unchanged
            it.facts.truth[Term('re', ('fullmatch', Tup(
                (r'[\x20-\x2e\x30-\x7e]+', 0)), w, 0), 'bool')] = True
            segs.append(w)
        else:
            segs.append(k.lstrip('/'))
    return segs


def joined(it, segs):
    return cat(it, '', *[x for s in segs for x in ('/', s)])


class Rig:
    def __init__(self, it, prog, exports, fs=None, **kw):
        self.it = it
        self.fs = fs or Fs(it)
        it.hooks['ext'] = self.fs.hook
        self.passed = []
        self.started = []
        app = HostFunc('app', self.app)
        self.mw = call(it, prog.get(W + 'SharedDataMiddleware'), app,
                       it.mk_dict(exports), **kw)
        self.fs.looked.clear()

    def app(self, i, a, k):
        self.passed.append(a)
        return sym('from-app')

    def start(self, i, a, k):
        self.started.append(a)

    def get(self, env):
        self.sr = HostFunc('start_response', self.start)
        return want(self.it, lambda: call(self.it, self.mw, env, self.sr),
                    'serving a static file')

    def headers(self):
        return [(x.items[0], x.items[1]) for x in
                self.it.iterate(self.started[0][1])]

    def header(self, name):
        r = [v for n, v in self.headers() if n.lower() == name]
        oblige(self.it)
        if len(r) > 1:
            fail(self.it, 'the header %s is sent %d times' % (name, len(r)))
        return r[0] if r else None


def expected(it, segs, exports):
    """[(file path)] that may be looked up, in order of the exports"""
    kept = []
    for s in segs:
        if not it.eq(s, '') and not it.eq(s, '..'):
            kept.append(s)
    return kept


def check_contained(it, rig, kept, exports):
    """every path touched is export + the segments after it"""
    ok, bare = [], []
    for key, root in exports.items():
        ks = [x for x in key.split('/') if x]
        if len(ks) > len(kept):
            continue
        if not all(it.eq(a, b) for a, b in zip(kept, ks)):
            continue
        rest = kept[len(ks):]
        if rest:
            ok.append(cat(it, root.rstrip('/'), joined(it, rest)))
        else:
            ok.append(root)
            bare.append(root.rstrip('/') + '/')
    oblige(it, len(rig.fs.looked) + 1)
    for p in rig.fs.looked:
        if not any(it.eq(p, q) for q in ok + bare):
            fail(it, 'a path outside the export is touched: %r' % (p,))
    return ok


def mentions(t, op):
    if isinstance(t, Term):
        return t.op == op or any(mentions(x, op) for x in t.args)
    return isinstance(t, Tup) and any(mentions(x, op) for x in t.items)


def scenarios(prog):
    out = []
    g = prog.get
    EXPORTS = [{'/s': '/srv/data'}, {'/s/': '/srv/data'},
               {'/': '/srv/data'}, {'/s/t': '/srv/t', '/s': '/srv/data'},
               {'/s': '/srv/data/'}]

    for ei, ex in enumerate(EXPORTS):
        for kinds in PATHS:
            def f(it, ex=ex, kinds=kinds):
                segs = segments(it, kinds)
                for root in ex.values():
                    it.facts.truth[Term('isfile', (root,), 'bool')] = False
                rig = Rig(it, prog, ex, cache=False)
                path = joined(it, segs)
                env = request(it, path)
                r = rig.get(env)
                kept = expected(it, segs, ex)
                ok = check_contained(it, rig, kept, ex)
                hit = [p for p in ok if it.truth(
                    Term('isfile', (p,), 'bool'))]
                oblige(it, 4)
                if rig.passed:
                    if rig.started or rig.fs.opened:
                        fail(it, 'the application is called after a file '
                             'was opened')
                    if hit:
                        fail(it, 'an exported file is not served')
                    if rig.passed[0][0] is not env or \
                            rig.passed[0][1] is not rig.sr:
                        fail(it, 'the application gets another environ')
                    check_same(it, it.getitem(env, 'PATH_INFO'), path,
                               'PATH_INFO passed on')
                    if r is not sym('from-app'):
                        fail(it, 'the answer of the application is lost')
                    return
                if not hit:
                    fail(it, 'a file that does not exist is served')
                fs = rig.fs.opened
                if len(fs) != 1 or not it.eq(fs[0].attrs['path'], hit[0]):
                    fail(it, 'another file than the first match is opened')
                if fs[0].attrs['mode'] != 'rb':
                    fail(it, 'the file is opened in mode %r' %
                         (fs[0].attrs['mode'],))
                if it.eq(rig.started[0][0], '200 OK') is not True:
                    fail(it, 'status %r' % (rig.started[0][0],))
                check_same(it, rig.header('content-length'), it.call(
                    it.prog.builtins['str'],
                    [Term('size', (hit[0],), 'int')]), 'Content-Length')
                base = kept[-1] if len(kept) else None
                got = rig.header('content-type')
                if base is not None and not it.eq(hit[0], '/srv/data'):
                    t = Term('mimetype', (it.facts.norm(base),), 'str')
                    exp = t if it.facts.truth.get(t) else 'text/plain'
                    check_same(it, got, exp, 'Content-Type')
                check_same(it, rig.header('last-modified'), call(
                    it, prog.get('verktyg.http.http_date'), moment(
                        it, Term('mtime', (hit[0],), 'float'))),
                    'Last-Modified')
                check_same(it, rig.header('date'), call(
                    it, prog.get('verktyg.http.http_date')), 'Date')
                for h in ('etag', 'expires'):
                    if rig.header(h) is not None:
                        fail(it, '%s is sent although caching is off' % h)
                if it.getattr(r, 'file') is not fs[0]:
                    fail(it, 'the body is not the opened file')
                if rig.fs.closed:
                    fail(it, 'the file is closed before it is sent')
            out.append(Scen('dir%d.%s' % (ei, '.'.join(
                k.strip('/') for k in kinds).replace('...', '.up.') or
                'none'), f, 'SharedDataMiddleware.__call__'))

    def setup(it, known=True, **kw):
        rig = Rig(it, prog, {'/s': '/srv/data'},
                  Fs(it, ['/srv/data/f.txt']), **kw)
        return rig

    # a single exported file
    for kinds in [('/s',), ('w',), ('/s', 'w'), ('/sx',), ('..', '/s')]:
        def f_file(it, kinds=kinds):
            segs = segments(it, kinds)
            rig = Rig(it, prog, {'/s': '/srv/data.txt'},
                      Fs(it, ['/srv/data.txt']), cache=False)
            rig.get(request(it, joined(it, segs)))
            kept = expected(it, segs, None)
            oblige(it, 2)
            for p in rig.fs.looked:
                if not it.eq(p, '/srv/data.txt'):
                    fail(it, 'another file than the exported one is used')
            at = len(kept) > 0 and it.eq(kept[0], 's')
            if not at and not rig.passed:
                fail(it, 'the exported file is served for another path')
            if at and len(kept) == 1 and (rig.passed or not rig.fs.opened):
                fail(it, 'the exported file is not served')
        out.append(Scen('file.' + '.'.join(k.strip('/') for k in kinds),
                        f_file, 'SharedDataMiddleware.get_file_loader'))

    # an export that has no such file does not hide the next one
    for order in (0, 1):
        for have in ('/srv/a/x/f', '/srv/b/f', None, 'both'):
            def f_next(it, order=order, have=have):
                ex = [('/s', '/srv/a'), ('/s/x', '/srv/b')]
                if order:
                    ex.reverse()
                files = {'both': ['/srv/a/x/f', '/srv/b/f'],
                         None: []}.get(have, [have])
                rig = Rig(it, prog, dict(ex), Fs(it, files), cache=False)
                rig.get(request(it, '/s/x/f'))
                oblige(it)
                got = [f.attrs['path'] for f in rig.fs.opened]
                exp = [p for p in (['/srv/b/f', '/srv/a/x/f'] if order else
                                   ['/srv/a/x/f', '/srv/b/f'])
                       if p in files][:1]
                if got != exp or bool(rig.passed) == bool(exp):
                    fail(it, 'files opened: %r, expected %r' % (got, exp))
            out.append(Scen('exports.%d.%s' % (order, have), f_next,
                            'SharedDataMiddleware.__call__'))

    # forbidden files
    RULES = [['*.py'], ['*.py', '*.txt'], [], ('a*', 'b*', 'c*')]
    for i, rules in enumerate(RULES):
        def f_dis(it, rules=rules):
            it.facts.truth[Term('isfile', ('/srv/data',), 'bool')] = False
            rig = Rig(it, prog, {'/s': '/srv/data'}, cache=False,
                      disallow=it.mk_list(list(rules)))
            w = segments(it, ('w',))[0]
            if it.eq(w, '..'):
                return
            rig.get(request(it, cat(it, '/s/d/', w)))
            oblige(it, 2)
            p = cat(it, '/srv/data/d/', w)
            forbidden = any(it.truth(Term('fnmatch', (w, r), 'bool'))
                            for r in rules)
            if forbidden and (rig.fs.opened or not rig.passed):
                fail(it, 'a file that matches the disallow rules is served')
            if not forbidden and it.truth(Term('isfile', (p,), 'bool')) and \
                    rig.passed:
                fail(it, 'an allowed file is not served')
        out.append(Scen('disallow.%d' % i, f_dis,
                        'SharedDataMiddleware.__init__'))

    def f_sub(it):
        c = g(W + 'SharedDataMiddleware')
        asked = []

        def allowed(i, a, k):
            asked.append(a[-1])
            return False
        sub = ClassV('Sub', [c], {'is_allowed': HostFunc(
            'is_allowed', allowed, binds=True)}, kind='repo')
        fs = Fs(it, ['/srv/data/f.txt'])
        it.hooks['ext'] = fs.hook
        passed = []
        mw = call(it, sub, HostFunc('app', lambda i, a, k: passed.append(a)),
                  it.mk_dict({'/s': '/srv/data'}))
        call(it, mw, request(it, '/s/f.txt'), HostFunc(
            'sr', lambda i, a, k: fail(it, 'a forbidden file is served')))
        oblige(it, 2)
        if not passed or fs.opened:
            fail(it, 'is_allowed of a subclass is ignored')
        if asked != ['f.txt']:
            fail(it, 'is_allowed is asked about %r' % (asked,))
    out.append(Scen('is_allowed', f_sub, 'SharedDataMiddleware.is_allowed'))

    # caching headers and revalidation
    for what in ('plain', 'match', 'star', 'other', 'head', 'many'):
        def f_cache(it, what=what):
            t = sym('timeout', 'int')
            rig = setup(it, cache_timeout=t)
            rig.get(request(it, '/s/f.txt'))
            oblige(it, 3)
            etag = rig.header('etag')
            if etag is None or rig.header('expires') is None:
                fail(it, 'no caching headers are sent')
            check_same(it, rig.header('cache-control'), cat(
                it, 'max-age=', it.call(it.prog.builtins['str'], [t]),
                ', public'), 'Cache-Control')
            check_same(it, rig.header('expires'), call(
                it, g('verktyg.http.http_date'),
                add(it, sym('now', 'float'), t)), 'Expires')
            check_same(it, rig.header('date'), call(
                it, g('verktyg.http.http_date')), 'Date')
            check_same(it, rig.header('content-type'), 'text/plain'
                       if not it.facts.truth.get(
                           Term('mimetype', ('f.txt',), 'str')) else
                       Term('mimetype', ('f.txt',), 'str'), 'Content-Type')
            if what == 'plain':
                for x in ('size', 'mtime'):
                    if not mentions(etag, x):
                        fail(it, 'the entity tag does not depend on the %s '
                             'of the file' % x)
                return
            second = setup(it, cache_timeout=t)
            hd = {'match': etag, 'head': etag, 'star': '*',
                  'other': '"other"',
                  'many': cat(it, '"a", ', etag, ', "b"')}[what]
            env = request(it, '/s/f.txt', HTTP_IF_NONE_MATCH=hd)
            if what == 'head':
                it.setitem(env, 'REQUEST_METHOD', 'HEAD')
            r = second.get(env)
            status = second.started[0][0]
            if what == 'other':
                if status != '200 OK':
                    fail(it, 'status %r for another tag' % (status,))
                return
            if not isinstance(status, str) or status[:3] != '304':
                fail(it, 'status %r for the current tag' % (status,))
            if len(second.fs.opened) != len(second.fs.closed):
                fail(it, 'the file stays open after a 304')
            if list(it.iterate(r)):
                fail(it, 'a 304 with a body')
            if second.header('content-length') is not None:
                fail(it, 'a 304 with a length')
            check_same(it, second.header('etag'), etag, 'tag of the 304')
        out.append(Scen('cache.' + what, f_cache,
                        'SharedDataMiddleware.__call__', max_time=30))

    # the server's own file wrapper is used
    def f_wrap(it):
        rig = setup(it, cache=False)
        got = []
        env = request(it, '/s/f.txt')
        it.setitem(env, 'wsgi.file_wrapper', HostFunc(
            'wrapper', lambda i, a, k: got.append(a) or sym('wrapped')))
        r = rig.get(env)
        oblige(it)
        if r is not sym('wrapped') or got[0][0] is not rig.fs.opened[0]:
            fail(it, 'the file wrapper of the server is not used')
    out.append(Scen('file_wrapper', f_wrap, 'wrap_file'))

    # the generic wrapper sends every byte and closes the file
    def f_fw(it):
        a, b = sym('a', 'bytes'), sym('b', 'bytes')
        it.facts.truth[a] = it.facts.truth[b] = True
        data, sizes, closed = [a, b, b'', b''], [], []
        f = stub(it, 'F', read=host('read', lambda n=None: (
            sizes.append(n), data.pop(0))[1]),
            close=host('close', lambda: closed.append(1)))
        n = sym('n', 'int')
        w = call(it, g(W + 'FileWrapper'), f, n)
        got = list(it.iterate(w))
        oblige(it, 3)
        if len(got) != 2 or got[0] is not a or got[1] is not b:
            fail(it, 'the file wrapper changes the data: %r' % (got,))
        if any(x is not n for x in sizes):
            fail(it, 'the file wrapper reads other amounts')
        meth(it, w, 'close')
        if closed != [1]:
            fail(it, 'the file wrapper does not close its file')
        call(it, g(W + 'FileWrapper'), stub(it, 'NoClose'), n)
        want(it, lambda: meth(it, call(it, g(W + 'FileWrapper'), stub(
            it, 'NoClose'), n), 'close'), 'closing a wrapper')
    out.append(Scen('wrapper', f_fw, 'FileWrapper'))

    # files of a package
    for kinds in [('/s', 'w'), ('/s', '..', 'w'), ('/s', 'w', '..', 'w'),
                  ('w', 'w'), ('/s',), ('/sx', 'w')]:
        def f_pkg(it, kinds=kinds):
            segs = segments(it, kinds)
            asked = []

            def has(p):
                asked.append(p)
                return Term('has', (it.facts.norm(p),), 'bool')
            prov = Obj(it.prog.ext_class('pkg_resources.DefaultProvider'), {
                'has_resource': host('has_resource', has),
                'get_resource_filename': host(
                    'get_resource_filename', lambda m, p: Term(
                        'pkgfile', (it.facts.norm(p),), 'str'))})
            fs = Fs(it)
            base = fs.hook

            def hook(i, name, a, k):
                if name == 'pkg_resources.get_provider':
                    return (prov,)
                return base(i, name, a, k)
            fs.hook = hook
            rig = Rig(it, prog, {'/s': Tup(('pkg', 'static'))}, fs,
                      cache=False)
            rig.get(request(it, joined(it, segs)))
            kept = expected(it, segs, None)
            oblige(it, 2)
            exp = None
            if len(kept) > 1 and it.eq(kept[0], 's'):
                exp = cat(it, 'static', joined(it, kept[1:]))
            for p in asked:
                if exp is None or not it.eq(p, exp):
                    fail(it, 'a resource outside the export is used: %r' % (
                        p,))
            hit = exp is not None and it.truth(
                Term('has', (it.facts.norm(exp),), 'bool'))
            if hit == bool(rig.passed):
                fail(it, 'a resource is %s' % (
                    'not served' if hit else 'served that does not exist'))
        out.append(Scen('package.' + '.'.join(k.strip('/') for k in kinds),
                        f_pkg, 'SharedDataMiddleware.get_package_loader'))

    def f_bad(it):
        k, v, _ = attempt(it, call, it, g(W + 'SharedDataMiddleware'),
                          sym('app'), it.mk_dict({'/s': 5}))
        oblige(it)
        if k != 'raise' or not is_exc(it, v, 'TypeError'):
            fail(it, 'an export that is not a path is accepted')
    out.append(Scen('bad-export', f_bad, 'SharedDataMiddleware.__init__'))
    return out
