"""C40: uploaded files."""
from .lib import *
from .c17 import want, check_same

RULE = ('FileStorage is followed for streams with every kind of name '
        '(text, bytes, a descriptor, "<...>", none), arbitrary headers and '
        'arbitrary contents read in arbitrary pieces: the names, types and '
        'lengths must be those given or of the stream, saving must write '
        'all pieces in order and close exactly what it opened, whatever '
        'fails on the way.')
MIN_SCENARIOS = 40


def scenarios(prog):
    out = []
    FS = prog.get('verktyg.http.FileStorage')
    Headers = prog.get('verktyg.http.Headers')

    def add(name, fn, subject='FileStorage', **kw):
        out.append(Scen(name, fn, subject, **kw))

    class Src:
        """a stream answering the reads with pieces of unknown text"""
        def __init__(self, it, n=2, fails=None, **attrs):
            self.log, self.sizes = [], []
            self.it = it
            self.all = [word(it, 'piece%d' % i, r'[\x00-\xff]', 'bytes')
                        for i in range(n)]
            self.left = list(self.all)
            self.fails = fails

            def read(i, a, k):
                if self.fails == 'read':
                    i.raise_('OSError', 'read')
                size = i.facts.norm((a or [k.get('size', -1)])[0])
                if size is None or isinstance(size, int) and size < 0:
                    r = cat(i, *self.left) if self.left else b''
                    del self.left[:]
                    return r
                self.sizes.append(size)
                return self.left.pop(0) if self.left else b''

            def close(i, a, k):
                self.log.append('close')
                if self.fails == 'close':
                    i.raise_('OSError', 'close')

            def nxt(i, a, k):
                if not self.left:
                    i.raise_('StopIteration', '')
                return self.left.pop(0)
            cls = ClassV('Stream', [prog.builtins['object']], {
                '__iter__': HostFunc('__iter__', lambda i, a, k: a[0],
                                     binds=True),
                '__next__': HostFunc('__next__', nxt, binds=True)},
                kind='repo')
            self.obj = Obj(cls, dict(attrs, read=HostFunc('read', read),
                                     close=HostFunc('close', close),
                                     readline=HostFunc(
                                         'readline', lambda i, a, k:
                                         self.left.pop(0) if self.left
                                         else b'')))

    class Dst:
        def __init__(self, it, fails=False):
            self.got, self.closed, self.opened = [], 0, []

            def write(i, a, k):
                if fails:
                    i.raise_('OSError', 'disk full')
                self.got.append(a[0])

            def close(i, a, k):
                self.closed += 1

            def enter(i, a, k):
                return self.obj
            cls = ClassV('OpenFile', [prog.builtins['object']], {
                '__enter__': HostFunc('__enter__', enter, binds=True),
                '__exit__': HostFunc('__exit__', close, binds=True)},
                kind='repo')
            self.obj = Obj(cls, {'write': HostFunc('write', write),
                                 'close': HostFunc('close', close)})

    def hooks(it, dst=None, denied=False):
        def hook(i, name, a, k):
            if name in ('builtins.open', 'io.open'):
                if denied:
                    i.raise_('OSError', 'permission denied')
                dst.opened.append((i.facts.norm(a[0]), i.facts.norm(
                    a[1] if len(a) > 1 else k.get('mode', 'r'))))
                return (dst.obj,)
            if name == 'shutil.copyfileobj':
                src, d = a[0], a[1]
                size = a[2] if len(a) > 2 else k.get('length', 65536)
                while True:
                    b = meth(i, src, 'read', size)
                    if b == b'':
                        return (None,)
                    meth(i, d, 'write', b)
            if name == 'sys.getfilesystemencoding':
                return ('utf-8',)
            return None
        it.hooks['ext'] = hook

    # names
    def f_name(it, kind, given):
        hooks(it)
        s = word(it, 'n', r'[a-z]')
        nm = {'text': s, 'fd': sym('fd', 'int'), 'none': None,
              'angle': cat(it, '<', s, '>'), 'left': cat(it, '<', s),
              'right': cat(it, s, '>'), 'empty': '', 'bytes': b'up.txt',
              'high': b'caf\xc3\xa9', 'bad': b'x\xff',
              'bytes-angle': b'<fdopen>', 'bytes-empty': b''}.get(kind)
        src = Src(it, **({} if kind == 'missing' else {'name': nm}))
        exp = {'text': s, 'left': nm, 'right': nm, 'bytes': 'up.txt',
               'high': 'caf\xe9', 'bad': 'x\ufffd'}.get(kind)
        kw = {}
        if given:
            exp = kw['filename'] = word(it, 'f', r'[ -~]')
        f = want(it, lambda: call(it, FS, src.obj, name='field', **kw),
                 'FileStorage of a stream named %r' % (nm,))
        got = it.facts.norm(it.getattr(f, 'filename'))
        oblige(it, 3)
        if kind in ('empty', 'bytes-empty') and not given and got == '':
            got = None
        if (got is None) != (exp is None) or exp is not None and not same_(
                it, got, exp):
            fail(it, 'a stream named %r gives the file name %r, not %r' % (
                nm, got, exp))
        if it.truth(f) is not (exp is not None):
            fail(it, 'a file named %r is %s' % (exp, it.truth(f)))
        if it.getattr(f, 'name') != 'field' or \
                it.getattr(f, 'stream') is not src.obj:
            fail(it, 'the field name or stream are not kept')
    for kind in ('text', 'fd', 'none', 'missing', 'angle', 'left', 'right',
                 'empty', 'bytes', 'high', 'bad', 'bytes-angle',
                 'bytes-empty'):
        for given in (0, 1):
            add('name.%s.%d' % (kind, given),
                lambda it, a=(kind, given): f_name(it, *a))

    def same_(it, a, b):
        return a is b or it.eq(a, b)

    def f_nothing(it):
        f = want(it, lambda: call(it, FS), 'FileStorage()')
        oblige(it, 6)
        for n, e in (('filename', None), ('name', None),
                     ('content_type', None), ('content_length', 0),
                     ('mimetype', '')):
            v = want(it, lambda: it.getattr(f, n), n)
            if it.facts.norm(v) != e:
                fail(it, '%s of an empty file is %r' % (n, v))
        if list(it.iterate(it.getattr(f, 'mimetype_params'))):
            fail(it, 'parameters of an empty file')
        if meth(it, f, 'read') != b'':
            fail(it, 'an empty file has contents')
        if it.truth(f):
            fail(it, 'an empty file is true')
    add('nothing', f_nothing)

    # headers
    def f_type(it, how):
        t = word(it, 't', r'[A-Za-z]')
        u = word(it, 'u', r'[A-Za-z]')
        p = word(it, 'p', r'[0-9]')
        ct = cat(it, t, '/', u, '; k=', p)
        n = sym('n', 'int')
        if it.less(n, 0):
            raise Pruned('negative')
        hs = call(it, Headers, it.mk_list([Tup(('X-Other', 'kept'))]))
        if how == 'headers':
            meth(it, hs, 'add', 'Content-Type', ct)
            meth(it, hs, 'add', 'Content-Length',
                 it.call(prog.builtins['str'], [n]))
            f = call(it, FS, Src(it).obj, headers=hs)
        elif how == 'both':
            meth(it, hs, 'add', 'Content-Type', 'old/type')
            meth(it, hs, 'add', 'Content-Length', '7')
            f = call(it, FS, Src(it).obj, headers=hs, content_type=ct,
                     content_length=n)
        elif how == 'later':
            f = call(it, FS, Src(it).obj, headers=hs,
                     content_type='old/type; k=old', content_length=7)
            it.getattr(f, 'mimetype')
            it.getattr(f, 'mimetype_params')
            it.setitem(it.getattr(f, 'headers'), 'Content-Type', ct)
            it.setitem(it.getattr(f, 'headers'), 'Content-Length',
                       it.call(prog.builtins['str'], [n]))
        else:
            f = call(it, FS, Src(it).obj, content_type=ct, content_length=n)
        check_same(it, it.getattr(f, 'content_type'), ct, 'content_type')
        check_same(it, it.getattr(f, 'content_length'), n, 'content_length')
        check_same(it, it.getattr(f, 'mimetype'), cat(
            it, meth(it, t, 'lower'), '/', meth(it, u, 'lower')), 'mimetype')
        m = it.getattr(f, 'mimetype_params')
        ks = list(it.iterate(m))
        oblige(it, 3)
        if ks != ['k']:
            fail(it, 'the parameters are %r' % (ks,))
        check_same(it, it.getitem(m, 'k'), p, 'mimetype_params')
        h = it.getattr(f, 'headers')
        for name in ('Content-Type', 'Content-Length'):
            v = list(it.iterate(meth(it, h, 'getlist', name)))
            if len(v) != 1:
                fail(it, '%d %s headers' % (len(v), name))
        if how != 'args' and (h is not hs or meth(
                it, h, 'get', 'x-other') != 'kept'):
            fail(it, 'the headers given are not kept')
    for how in ('headers', 'both', 'later', 'args'):
        add('type.' + how, lambda it, h=how: f_type(it, h))

    def f_zero(it):
        """a length of nothing is a length"""
        f = call(it, FS, Src(it).obj, content_length=0, content_type='')
        oblige(it)
        h = it.getattr(f, 'headers')
        if meth(it, h, 'get', 'content-length') != '0':
            fail(it, 'a length of 0 is lost')
    add('length.zero', f_zero)

    for i, s in enumerate(('', 'x', '1x', '-', '1.5', '\u00b2')):
        def f_bad(it, s=s):
            h = call(it, Headers, it.mk_list([Tup(('Content-Length', s))]))
            f = call(it, FS, Src(it).obj, headers=h)
            oblige(it)
            v = want(it, lambda: it.getattr(f, 'content_length'),
                     'a content length of %r' % s)
            if it.facts.norm(v) != 0:
                fail(it, 'the length %r is read as %r' % (s, v))
        add('length.bad.%d' % i, f_bad)

    def f_apart(it):
        """two files have nothing in common"""
        a = call(it, FS, Src(it).obj, filename='a', content_type='a/a')
        b = call(it, FS, Src(it).obj, filename='b')
        c = call(it, FS, a, content_type='c/c; q=1')
        it.getattr(a, 'mimetype')
        it.getattr(a, 'mimetype_params')
        oblige(it, 3)
        if it.getattr(b, 'content_type') is not None:
            fail(it, 'files share their headers')
        if it.getattr(c, 'mimetype') != 'c/c' or it.facts.norm(it.getitem(
                it.getattr(c, 'mimetype_params'), 'q')) != '1':
            fail(it, 'the mimetype is that of another file')
        if it.getattr(a, 'mimetype') != 'a/a':
            fail(it, 'the mimetype changes')
    add('apart', f_apart)

    # saving
    def f_save(it, n, to, buf, fails):
        src = Src(it, n, fails if fails == 'read' else None, name='x')
        dst = Dst(it, fails == 'write')
        hooks(it, dst, fails == 'open')
        f = call(it, FS, src.obj)
        path = word(it, 'path', r'[a-z/]')
        target = path if to == 'path' else dst.obj
        args = [] if buf is None else [buf]
        r = attempt(it, meth, it, f, 'save', target, *args)
        oblige(it, 5)
        if fails and (n or fails != 'write'):
            if r[0] == 'ok':
                fail(it, 'a failing %s goes unnoticed' % fails)
        elif r[0] != 'ok':
            fail(it, 'saving raises %s' % exc_name(r[1]), r[2])
        else:
            exp = cat(it, *src.all) if src.all else b''
            got = cat(it, *dst.got) if dst.got else b''
            if not same_(it, got, exp):
                fail(it, 'the contents %r are saved as %r' % (src.all,
                                                              dst.got))
        if to == 'path' and fails != 'open':
            if len(dst.opened) != 1 or dst.opened[0][1] not in (
                    'wb', 'bw', 'w+b', 'wb+') or not same_(
                        it, dst.opened[0][0], path):
                fail(it, 'opened: %r' % (dst.opened,))
            if dst.closed != 1:
                fail(it, 'the file that was opened is %s' % (
                    'closed %d times' % dst.closed if dst.closed else
                    'left open'))
        elif dst.opened or dst.closed:
            fail(it, 'a file of the caller is closed or another one opened')
        if src.log:
            fail(it, 'the uploaded file is closed')
        for s in src.sizes:
            if buf is not None and not same_(it, s, buf):
                fail(it, 'the buffer size %r is used as %r' % (buf, s))
    for n in (0, 1, 2, 3):
        for to in ('path', 'file'):
            for fails in (None, 'read', 'write') + (
                    ('open',) if to == 'path' else ()):
                if fails and n in (1, 3):
                    continue
                for buf in ((None, 7) if not fails else (None,)):
                    add('save.%d.%s.%s.%s' % (n, to, buf, fails),
                        lambda it, a=(n, to, buf, fails): f_save(it, *a),
                        'FileStorage.save')

    # the stream
    for fails in (None, 'close'):
        def f_close(it, fails=fails):
            src = Src(it, fails=fails)
            f = call(it, FS, src.obj)
            want(it, lambda: meth(it, f, 'close'), 'close')
            oblige(it)
            if src.log != ['close']:
                fail(it, 'the stream is closed %d times' % len(src.log))
        add('close.%s' % fails, f_close)

    for n in (0, 1, 2):
        def f_iter(it, n=n):
            src = Src(it, n)
            f = call(it, FS, src.obj)
            i = it.call(prog.builtins['iter'], [f])
            for x in src.all:
                check_same(it, want(it, lambda: it.call(
                    prog.builtins['next'], [i]), 'iterating'), x, 'a line')
            oblige(it)
            r = attempt(it, it.call, prog.builtins['next'], [i])
            if r[0] == 'ok' or not is_exc(it, r[1], 'StopIteration'):
                fail(it, 'iterating goes on after the last line')
        add('iterate.%d' % n, f_iter, 'FileStorage.__iter__')

    def f_fwd(it):
        src = Src(it, 2, extra='there')
        f = call(it, FS, src.obj)
        oblige(it, 3)
        if it.getattr(f, 'extra') != 'there':
            fail(it, 'attributes of the stream are not those of the file')
        r = attempt(it, it.getattr, f, 'not_there')
        if r[0] == 'ok' or not is_exc(it, r[1], 'AttributeError'):
            fail(it, 'an attribute nobody has')
        check_same(it, meth(it, f, 'read'), cat(it, *src.all), 'read')
    add('forward', f_fwd)
    return out
