"""C08: a limited stream never consumes more than its limit."""
from .lib import *
from .mdlib import same_val

RULE = ('Every call a limited stream makes to the stream it wraps, for '
        'sequences of up to two (thorough: three) read operations with arbitrary '
        'sizes, asks for a number of bytes n with 0 <= n <= limit - '
        'consumed (linear inequality domain); the reported position equals '
        'the bytes consumed; data is passed on unchanged; an error or a '
        'short answer of the wrapped stream surfaces as the client '
        'disconnect error.')
MIN_SCENARIOS = 20

OPS = {
    'read': lambda it, s, n: meth(it, s, 'read'),
    'read(n)': lambda it, s, n: meth(it, s, 'read', n),
    'read(-1)': lambda it, s, n: meth(it, s, 'read', -1),
    'read(None)': lambda it, s, n: meth(it, s, 'read', None),
    'readline': lambda it, s, n: meth(it, s, 'readline'),
    'readline(n)': lambda it, s, n: meth(it, s, 'readline', n),
    'readline(-1)': lambda it, s, n: meth(it, s, 'readline', -1),
    'next': lambda it, s, n: meth(it, s, '__next__'),
}


class Under:
    def __init__(self, it, limit, faults=True):
        self.it, self.limit, self.consumed = it, limit, 0
        self.n = 0
        self.short = False
        self.fault = False
        self.data = []
        self.faults = faults

    def ask(self, kind):
        def f(*a):
            it = self.it
            oblige(it)
            n = it.facts.norm(a[0]) if a else None
            if n is None:
                fail(it, 'the wrapped stream is asked to %s without a bound'
                     % kind)
            if it.less(n, 0):
                fail(it, 'the wrapped stream is asked for a negative number '
                     'of bytes, which means "everything"')
            if it.less(sub(it, self.limit, self.consumed), n):
                fail(it, 'the wrapped stream is asked for %s bytes, more '
                     'than the %s that remain' % (
                         show(n), show(sub(it, self.limit, self.consumed))))
            if self.faults and it.less(0, n) and it.choose(2, 'I/O error'):
                self.fault = True
                it.raise_('OSError', 'connection reset')
            self.n += 1
            d = sym('data%d' % self.n, 'bytes')
            L = Term('len', (d,), 'int')
            f = it.facts
            f.add_lin(f.lin_of(n) - f.lin_of(L))
            if not f.lin_consistent():
                raise Pruned('no data of that size')
            self.consumed = add(it, self.consumed, L)
            if kind == 'read':
                if it.less(L, n):
                    self.short = True
            elif it.less(0, n) and it.eq(L, 0):
                self.short = True
            self.data.append(d)
            return d
        return host(kind, f)

    def obj(self):
        return stub(self.it, 'stream', read=self.ask('read'),
                    readline=self.ask('readline'))


def scenarios(prog):
    import os
    out = []
    LS = prog.get('verktyg.wsgi.LimitedStream')
    CD = prog.get('verktyg.exceptions.ClientDisconnected')

    def go(names):
        def fn(it):
            limit = sym('limit', 'int')
            if it.less(limit, 0):
                raise Pruned('negative limit')
            u = Under(it, limit)
            s = call(it, LS, u.obj(), limit)
            for i, nm in enumerate(names):
                n = sym('size%d' % i, 'int')
                left = sub(it, limit, u.consumed)
                done = not it.less(0, left)
                k = len(u.data)
                before = u.consumed
                r = attempt(it, OPS[nm], it, s, n)
                oblige(it, 2)
                if u.fault or (u.short and not done):
                    if r[0] != 'raise' or not is_exc(it, r[1], CD):
                        fail(it, '%s: %s of the wrapped stream does not '
                             'surface as a client disconnect' % (
                                 nm, 'an I/O error' if u.fault else
                                 'a premature end'), r[2])
                    return
                if r[0] == 'raise':
                    if nm == 'next' and is_exc(it, r[1], 'StopIteration') \
                            and not (not done and u.data[k:] and it.less(
                                0, Term('len', (u.data[-1],), 'int'))):
                        continue
                    fail(it, '%s raises %s although the wrapped stream '
                         'delivered' % (nm, exc_name(r[1])), r[2])
                got = u.data[k:]
                if len(got) != 1 or not same_val(it, r[1], got[0]):
                    fail(it, '%s returns %s, the wrapped stream delivered %s'
                         % (nm, show(r[1]), [show(x) for x in got]))
                t = meth(it, s, 'tell')
                if it.facts.decide_eq(t, u.consumed) is not True and \
                        not (it.eq(t, u.consumed)):
                    fail(it, 'after %s the position is %s but %s bytes were '
                         'consumed' % (nm, show(t), show(u.consumed)))
                ex = it.truth(it.getattr(s, 'is_exhausted'))
                if ex != (not it.less(u.consumed, limit)):
                    fail(it, 'after %s is_exhausted is %s' % (nm, ex))
                if nm.endswith('(n)') and not it.less(n, 0):
                    took = sub(it, u.consumed, before)
                    oblige(it)
                    if it.less(n, took):
                        fail(it, '%s takes %s bytes' % (nm, show(took)))
                    if nm == 'read(n)' and not done and not it.eq(
                            took, n) and not it.eq(u.consumed, limit):
                        fail(it, 'a sized read gives %s bytes' % show(took))
                # amount: an unbounded read delivers everything that is left
                if nm in ('read', 'read(-1)', 'read(None)') and not done:
                    if not it.eq(u.consumed, limit):
                        fail(it, 'an unbounded read leaves data behind')
        return fn
    for a in OPS:
        out.append(Scen(a, go([a]), LS.qual))
        for b in OPS:
            out.append(Scen('%s; %s' % (a, b), go([a, b]), LS.qual))
            if os.environ.get('VERIF_TIER') == 'thorough':
                for c in OPS:
                    out.append(Scen('%s; %s; %s' % (a, b, c),
                                    go([a, b, c]), LS.qual))

    def multi(nm):
        def fn(it):
            limit = sym('limit', 'int')
            if it.less(limit, 0):
                raise Pruned('negative limit')
            if it.less(2, limit):
                raise Pruned('bound of this instance: limit <= 2')
            u = Under(it, limit, faults=False)
            s = call(it, LS, u.obj(), limit)
            if nm == 'exhaust':
                r = attempt(it, meth, it, s, 'exhaust')
            elif nm == 'exhaust(n)':
                n = sym('chunk', 'int')
                if not it.less(0, n):
                    raise Pruned('chunk size')
                r = attempt(it, meth, it, s, 'exhaust', n)
            elif nm == 'readlines':
                r = attempt(it, meth, it, s, 'readlines')
            else:
                n = sym('size', 'int')
                if not it.less(0, n):
                    raise Pruned('size')
                r = attempt(it, meth, it, s, 'readlines', n)
            oblige(it, 2)
            if u.short:
                if r[0] != 'raise' or not is_exc(it, r[1], CD):
                    fail(it, '%s: a premature end does not surface as a '
                         'client disconnect' % nm)
                return
            if r[0] == 'raise':
                fail(it, '%s raises %s' % (nm, exc_name(r[1])), r[2])
            if nm != 'readlines(n)' and not it.eq(u.consumed, limit):
                fail(it, '%s stops before the limit' % nm)
            if nm.startswith('readlines'):
                got = [it.facts.norm(x) for x in it.iterate(r[1])]
                if len(got) != len(u.data) or not all(
                        same_val(it, x, y) for x, y in zip(got, u.data)):
                    fail(it, '%s does not return the lines delivered' % nm)
        return fn
    for nm in ('exhaust', 'exhaust(n)', 'readlines', 'readlines(n)'):
        out.append(Scen(nm, multi(nm), LS.qual))
    return out
