"""C39: dates."""
import ast

from .lib import *
from .c17 import want, check_same

RULE = ('http_date and cookie_date are followed for arbitrary time stamps, '
        'date objects and broken down times, for each day of the week and '
        'each month: the text must be made of exactly the UTC fields of that '
        'moment in the fixed HTTP format.  parse_date is followed for an '
        'arbitrary result of the mail date parser: the moment must be the '
        'fields less the offset, or None.  Every date attribute reads back '
        'the moment it was set to.')
MIN_SCENARIOS = 70
H = 'verktyg.http.'
DAYS = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec')
FIELDS = ('tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_year')


class Clock:
    """what the time functions answer, for one day of the week and month"""
    def __init__(self, it, wday=2, mon=5):
        self.it, self.wday, self.mon = it, wday, mon
        self.now = sym('now', 'float')
        self.made = []
        self.read = []          # (text, datetime) the parser understands
        prog = it.prog
        self.delta = ClassV('timedelta', [prog.ext_class(
            'datetime.timedelta')], {}, kind='repo')
        self.dt = ClassV('datetime', [prog.ext_class('datetime.datetime')], {
            '__sub__': HostFunc('__sub__', lambda i, a, k: self.shift(
                a[0], a[1], -1), binds=True),
            '__add__': HostFunc('__add__', lambda i, a, k: self.shift(
                a[0], a[1], 1), binds=True),
            '__radd__': HostFunc('__radd__', lambda i, a, k: self.shift(
                a[0], a[1], 1), binds=True)}, kind='repo')
        it.hooks['ext'] = it.hooks['new'] = self.hook

    def fields(self, key, local=False):
        """broken down time of a moment; local time differs from UTC"""
        it = self.it
        if local:
            return stub(it, 'struct_time', tm_wday=(self.wday + 1) % 7,
                        tm_mon=self.mon % 12 + 1, key=('local', key), **{
                            n: Term('local.' + n, (key,), 'int')
                            for n in FIELDS})
        return stub(it, 'struct_time', tm_wday=self.wday, tm_mon=self.mon,
                    key=key, **{n: self.bounded(n, key) for n in FIELDS})

    def bounded(self, n, key):
        it = self.it
        t = Term(n, (key,), 'int')
        lo, hi = {'tm_mday': (1, 31), 'tm_hour': (0, 23), 'tm_min': (0, 59),
                  'tm_sec': (0, 59), 'tm_year': (1000, 9999)}[n]
        if it.less(t, lo) or it.less(hi, t):
            raise Pruned('field out of range')
        return t

    def moment(self, key, off=0):
        """the datetime with the UTC fields of the key"""
        o = Obj(self.dt, {'key': key, 'off': off, 'microsecond': 0,
                          'tzinfo': None})
        o.attrs['utctimetuple'] = host('utctimetuple',
                                       lambda: self.fields(key))
        o.attrs['timetuple'] = host('timetuple',
                                    lambda: self.fields(key, True))
        return o

    def shift(self, d, delta, sign):
        it = self.it
        if not (isinstance(d, Obj) and d.cls is self.dt):
            d, delta = delta, d
        if not (isinstance(delta, Obj) and delta.cls is self.delta):
            raise Unsupported('date arithmetic')
        if it.choose(2, 'date arithmetic overflows'):
            it.raise_('OverflowError', 'date value out of range')
        s = delta.attrs['secs']
        return self.moment(d.attrs['key'], add(it, d.attrs['off'], s)
                           if sign > 0 else sub(it, d.attrs['off'], s))

    def hook(self, it, name, a, k):
        if name == 'time.gmtime':
            return (self.fields(it.facts.norm(a[0]) if a and a[0] is not None
                                else self.now),)
        if name == 'time.localtime':
            return (self.fields(it.facts.norm(a[0]) if a and a[0] is not None
                                else self.now, True),)
        if name == 'time.time':
            return (self.now,)
        if name in ('datetime.datetime.utcnow', 'datetime.datetime.now'):
            if a or k:
                raise Unsupported(name)
            return (self.moment(self.now if name.endswith('utcnow')
                                else ('local', self.now)),)
        if name in ('datetime.datetime', 'datetime.timedelta'):
            a = [it.facts.norm(x) for x in a]
        if name == 'datetime.datetime':
            if k or not 6 <= len(a) <= 7:
                raise Unsupported('datetime of other arguments')
            if len(a) == 7 and it.facts.norm(a[6]) != 0:
                raise Unsupported('microseconds')
            if it.choose(2, 'no such day or time'):
                it.raise_('ValueError', 'day is out of range for month')
            args = tuple(it.facts.norm(x) for x in a[:6])
            for key, want_ in self.made:
                if len(want_) == 6 and all(it.eq(x, y) for x, y in
                                           zip(args, want_)):
                    return (self.moment(key),)
            return (self.moment(('made',) + args),)
        if name == 'datetime.timedelta':
            parts = dict(zip(('days', 'seconds', 'microseconds',
                              'milliseconds', 'minutes', 'hours', 'weeks'),
                             a), **k)
            if parts.pop('microseconds', 0) or parts.pop('milliseconds', 0):
                raise Unsupported('fractions of a second')
            secs = 0
            for n, x in parts.items():
                secs = add(it, secs, it.binop(ast.Mult(), x, {
                    'days': 86400, 'seconds': 1, 'minutes': 60,
                    'hours': 3600, 'weeks': 604800}[n]))
            if it.choose(2, 'timedelta overflows'):
                it.raise_('OverflowError', 'days too large')
            return (Obj(self.delta, {'secs': secs}),)
        if name == 'email.utils.parsedate_tz':
            s = it.facts.norm_deep(a[0])
            for text, tup in self.read:
                if it.eq(s, text):
                    return (tup,)
            return None
        return None


def fmt(it, f, *a):
    return it.binop(ast.Mod(), f, Tup(a))


def text_of(it, c, key, delim=' '):
    f = c.fields(key).attrs
    return cat(it, DAYS[c.wday] + ', ', fmt(it, '%02d', f['tm_mday']),
               delim + MONTHS[c.mon - 1] + delim,
               it.call(it.prog.builtins['str'], [f['tm_year']]), ' ',
               fmt(it, '%02d', f['tm_hour']), ':',
               fmt(it, '%02d', f['tm_min']), ':',
               fmt(it, '%02d', f['tm_sec']), ' GMT')


def scenarios(prog):
    out = []
    g = prog.get

    def add_(name, fn, subject='', **kw):
        out.append(Scen(name, fn, subject, **kw))

    cases = [(w, 5) for w in range(7)] + [(2, m) for m in range(1, 13)]
    for fn, delim in (('http_date', ' '), ('cookie_date', '-')):
        for w, m in cases:
            def f_fields(it, fn=fn, delim=delim, w=w, m=m):
                c = Clock(it, w, m)
                key = sym('when', 'float')
                r = want(it, lambda: call(it, g(H + fn), c.fields(key)), fn)
                check_same(it, r, text_of(it, c, key, delim), fn)
            add_('%s.fields.%d.%d' % (fn, w, m), f_fields, fn)

        for ty in ('int', 'float'):
            def f_stamp(it, fn=fn, delim=delim, ty=ty):
                c = Clock(it)
                key = sym('stamp', ty)
                r = want(it, lambda: call(it, g(H + fn), key), fn)
                check_same(it, r, text_of(it, c, key, delim),
                           '%s of a time stamp' % fn)
            add_('%s.%s' % (fn, ty), f_stamp, fn)

        for z in (0, 0.0):
            def f_zero(it, fn=fn, delim=delim, z=z):
                c = Clock(it)
                r = want(it, lambda: call(it, g(H + fn), z), fn)
                check_same(it, r, text_of(it, c, z, delim),
                           '%s of the time stamp %r' % (fn, z))
            add_('%s.zero.%s' % (fn, type(z).__name__), f_zero, fn)

        def f_dt(it, fn=fn, delim=delim):
            c = Clock(it)
            key = sym('moment', 'float')
            r = want(it, lambda: call(it, g(H + fn), c.moment(key)), fn)
            check_same(it, r, text_of(it, c, key, delim),
                       '%s of a datetime' % fn)
        add_('%s.datetime' % fn, f_dt, fn)

        for none in (0, 1):
            def f_now(it, fn=fn, delim=delim, none=none):
                c = Clock(it)
                r = want(it, lambda: call(it, g(H + fn), *[None][:none]), fn)
                check_same(it, r, text_of(it, c, c.now, delim),
                           '%s of now' % fn)
            add_('%s.now.%d' % (fn, none), f_now, fn)

    # reading
    def f_read(it):
        c = Clock(it)
        s = word(it, 's', r'[!-~]')
        items = [sym(n, 'int') for n in ('y', 'mo', 'd', 'h', 'mi', 's_',
                                         'off')]
        # offsets are given in minutes
        items[6] = it.binop(ast.Mult(), items[6], 60)
        if not it.less(99, items[0]):
            raise Pruned('the mail parser completes two digit years')
        c.read.append((s, Tup(items[:6] + [0, 1, -1, items[6]])))
        failed = []
        real = it.choose

        def choose(n, what='', *a, **k):
            r = real(n, what, *a, **k)
            if r and what in ('no such day or time', 'timedelta overflows',
                              'date arithmetic overflows'):
                failed.append(what)
            return r
        it.choose = choose
        r = want(it, lambda: call(it, g(H + 'parse_date'), s), 'parse_date')
        oblige(it, 2)
        if failed:
            if r is not None:
                fail(it, 'a date that does not exist is read as %r' % (r,))
            return
        if not isinstance(r, Obj) or r.cls is not c.dt:
            fail(it, 'a date is read as %r' % (r,))
        key = r.attrs['key']
        if not isinstance(key, tuple) or not all(
                it.eq(x, y) for x, y in zip(key[1:], items)):
            fail(it, 'the date %r is read as %r' % (items, key))
        neg = sub(it, 0, items[6])
        if not it.eq(r.attrs['off'], neg):
            fail(it, 'a date with offset %r is moved by %r' % (
                items[6], r.attrs['off']))
    add_('parse_date.fields', f_read, 'parse_date')

    def f_none(it):
        c = Clock(it)
        s = word(it, 's', r'[!-~]')
        c.read.append((s, None))
        oblige(it)
        r = want(it, lambda: call(it, g(H + 'parse_date'), s), 'parse_date')
        if r is not None:
            fail(it, 'nonsense is read as the date %r' % (r,))
    add_('parse_date.nonsense', f_none, 'parse_date')

    for n, s in enumerate(['', None, ' ', 'never', '0', '-1', ',', ':',
                           'Mon,', '99 99 99 99']):
        def f_bad(it, s=s):
            Clock(it)
            oblige(it)
            r = want(it, lambda: call(it, g(H + 'parse_date'), s),
                     'parse_date of %r' % (s,))
            if r is not None:
                fail(it, '%r is read as the date %r' % (s, r))
        add_('parse_date.bad.%d' % n, f_bad, 'parse_date')

    def spaces(it):
        c = Clock(it)
        s = word(it, 's', r'[!-~]')
        key = sym('m', 'float')
        tup = tuple(Term('f%d' % i, (key,), 'int') for i in range(6))
        if not it.less(99, tup[0]):
            raise Pruned('year')
        c.read.append((s, Tup(tup + (0, 1, -1, 0))))
        c.made.append((key, tup))
        r = want(it, lambda: call(it, g(H + 'parse_date'), cat(
            it, ' ', s, ' ')), 'parse_date')
        oblige(it)
        if r is not None and r.attrs['key'] != key:
            fail(it, 'a date between spaces is read as %r' % (r,))
    add_('parse_date.spaces', spaces, 'parse_date')

    # there and back
    def understand(it, c, key, delim=' '):
        """the mail parser reads the proper text of the moment"""
        f = c.fields(key).attrs
        tup = (f['tm_year'], c.mon) + tuple(
            f[n] for n in ('tm_mday', 'tm_hour', 'tm_min', 'tm_sec'))
        c.read.append((text_of(it, c, key, delim),
                       Tup(tup + (0, 1, -1, 0))))
        c.made.append((key, tup))
        real = it.choose

        def choose(n, what='', *a, **k):
            if what in ('no such day or time', 'timedelta overflows',
                        'date arithmetic overflows'):
                return 0        # the moment exists
            return real(n, what, *a, **k)
        it.choose = choose

    def back(it, c, key, r, what):
        oblige(it)
        if not isinstance(r, Obj) or r.cls is not c.dt or \
                it.facts.norm(r.attrs['key']) != key or \
                not it.eq(r.attrs['off'], 0):
            fail(it, '%s: the moment %r comes back as %r' % (
                what, key, r if not isinstance(r, Obj) else
                (r.cls.name, dict(r.attrs))))

    for w, m in cases:
        def f_trip(it, w=w, m=m):
            c = Clock(it, w, m)
            key = sym('moment', 'float')
            understand(it, c, key)
            t = want(it, lambda: call(it, g(H + 'http_date'),
                                      c.moment(key)), 'http_date')
            back(it, c, key, want(it, lambda: call(
                it, g(H + 'parse_date'), t), 'parse_date'), 'http_date')
        add_('trip.%d.%d' % (w, m), f_trip, 'http_date, parse_date')

    for attr in ('date', 'expires', 'last_modified', 'retry_after'):
        for kind in ('datetime', 'stamp'):
            if attr == 'retry_after' and kind == 'stamp':
                continue

            def f_attr(it, attr=attr, kind=kind):
                c = Clock(it)
                key = sym('moment', 'float')
                understand(it, c, key)
                r = call(it, g('verktyg.responses.Response'))
                if it.getattr(r, attr) is not None:
                    fail(it, '%s of a new response' % attr)
                it.setattr(r, attr, c.moment(key) if kind == 'datetime'
                           else key)
                back(it, c, key, want(it, lambda: it.getattr(r, attr), attr),
                     'Response.' + attr)
            add_('response.%s.%s' % (attr, kind), f_attr, 'Response.' + attr)

    def f_after(it):
        """seconds are counted from now"""
        c = Clock(it)
        understand(it, c, c.now)
        n = sym('n', 'int')
        if it.less(n, 0):
            raise Pruned('negative')
        r = call(it, g('verktyg.responses.Response'))
        it.setattr(r, 'retry_after', n)
        d = want(it, lambda: it.getattr(r, 'retry_after'), 'retry_after')
        oblige(it)
        if not isinstance(d, Obj) or d.cls is not c.dt or \
                d.attrs['key'] != c.now or not it.eq(d.attrs['off'], n):
            fail(it, 'Retry-After of %r seconds is read as %r' % (
                n, d if not isinstance(d, Obj) else d.attrs))
    add_('response.retry_after.seconds', f_after, 'Response.retry_after')

    for attr, name in (('date', 'HTTP_DATE'),
                       ('if_modified_since', 'HTTP_IF_MODIFIED_SINCE'),
                       ('if_unmodified_since', 'HTTP_IF_UNMODIFIED_SINCE')):
        def f_req(it, attr=attr, name=name):
            from .resplib import environ
            c = Clock(it)
            key = sym('moment', 'float')
            understand(it, c, key)
            t = want(it, lambda: call(it, g(H + 'http_date'),
                                      c.moment(key)), 'http_date')
            r = call(it, g('verktyg.requests.Request'),
                     environ(it, 'GET', **{name: t}))
            back(it, c, key, want(it, lambda: it.getattr(r, attr), attr),
                 'Request.' + attr)
        add_('request.' + attr, f_req, 'Request.' + attr)

    def f_cookie(it):
        c = Clock(it)
        key = sym('moment', 'float')
        t = want(it, lambda: call(it, g(H + 'dump_cookie'), 'k', 'v',
                                  expires=c.moment(key), path=None),
                 'dump_cookie')
        check_same(it, t, cat(it, 'k=v; Expires=',
                              text_of(it, c, key, '-')), 'a cookie')
    add_('cookie.expires', f_cookie, 'dump_cookie')
    return out
