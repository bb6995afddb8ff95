"""C19: byte ranges select exactly the bytes they name."""
import ast
from .lib import *
from .c17 import want, check_same

RULE = ('For all integers in range headers of one to three ranges, for all '
        'resource lengths, the parsed range, the range for the length, the '
        'content range and the headers written from them name the same '
        'bytes; contradictory, descending or malformed headers give no '
        'range; a content range object never holds an impossible range.')
MIN_SCENARIOS = 40
CC = 'verktyg.http.cache_control.'
B = 'verktyg.http.basic.'


def num(it, name, pos=False):
    n = sym(name, 'int')
    if it.less(n, 1 if pos else 0):
        raise Pruned('negative')
    return n


def st(it, n):
    return it.call(it.prog.builtins['str'], [n], {})


def ispec(it, n):
    """an item of a range header: kind, begin, end (exclusive)"""


def is_none(v):
    return v is None


def eqn(it, a, b):
    if a is None or b is None:
        return a is b
    return it.eq(a, b)


def check_ranges(it, rng, exp, what):
    oblige(it)
    if rng is None:
        fail(it, '%s is dropped' % what)
    got = list(it.iterate(it.getattr(rng, 'ranges')))
    if len(got) != len(exp):
        fail(it, '%s: %d ranges instead of %d' % (what, len(got), len(exp)))
    for g, (b, e) in zip(got, exp):
        gb, ge = list(it.iterate(g))
        oblige(it)
        if not eqn(it, gb, b) or not eqn(it, ge, e):
            fail(it, '%s: range (%r, %r) is read as (%r, %r)'
                 % (what, b, e, gb, ge))


def items(it, kinds):
    """header pieces and the meaning (None when contradictory)"""
    text, mean, last, ok = [], [], 0, True
    for i, k in enumerate(kinds):
        a = num(it, 'a%d' % i, pos=k == 's')
        if k == 's':
            text.append(['-', st(it, a)])
            if last is None:
                ok = False
            mean.append((it.binop(ast.Sub(), 0, a), None))
            last = None
            continue
        if last is None or it.less(a, last):
            ok = False
        if k == 'o':
            text.append([st(it, a), '-'])
            mean.append((a, None))
            last = None
        else:
            b = num(it, 'b%d' % i)
            text.append([st(it, a), '-', st(it, b)])
            e = it.binop(ast.Add(), b, 1)
            if not it.less(a, e):
                ok = False
            mean.append((a, e))
            last = e
    return text, (mean if ok else None)


def header(it, unit, text, sep):
    parts = [unit, '=']
    for i, t in enumerate(text):
        if i:
            parts.append(sep)
        parts += t
    return cat(it, *parts)


def scenarios(prog):
    out = []
    g = prog.get

    def add(name, fn, subject=''):
        out.append(Scen(name, fn, subject))

    KINDS = ['c', 'o', 's'] + [a + b for a in 'cos' for b in 'cos'] + \
        ['ccc', 'cco', 'ccs', 'coc', 'csc']
    for kinds in KINDS:
        for sep in (',', ', '):
            if len(kinds) == 1 and sep != ',':
                continue
            for unit in ('bytes', 'Bytes ', 'items'):
                if unit != 'bytes' and (len(kinds) > 1 or kinds == 's' and
                                        unit != 'items'):
                    continue

                def f(it, kinds=kinds, sep=sep, unit=unit):
                    text, mean = items(it, kinds)
                    hd = header(it, unit, text, sep)
                    r = want(it, lambda: call(
                        it, g(CC + 'parse_range_header'), hd), 'parsing')
                    if mean is None:
                        oblige(it)
                        if r is not None:
                            fail(it, 'a range header with contradictory or '
                                 'unordered ranges is accepted')
                        return
                    check_ranges(it, r, mean, 'range header')
                    u = unit.strip().lower()
                    check_same(it, it.getattr(r, 'units'), u, 'unit')
                    h2 = want(it, lambda: meth(it, r, 'to_header'),
                              'to_header')
                    check_same(it, h2, header(it, u, text, ','),
                               'range header')
                    r2 = want(it, lambda: call(
                        it, g(CC + 'parse_range_header'), h2), 'parsing')
                    check_ranges(it, r2, mean, 'written range header')
                    # for a length
                    oblige(it)
                    if want(it, lambda: meth(it, r, 'range_for_length',
                                             None),
                            'range_for_length') is not None:
                        fail(it, 'a range is selected from a resource of '
                             'unknown length')
                    L = num(it, 'L')
                    sel = want(it, lambda: meth(it, r, 'range_for_length',
                                                L), 'range_for_length')
                    cr = want(it, lambda: meth(it, r, 'make_content_range',
                                               L), 'make_content_range')
                    oblige(it)
                    if len(kinds) != 1 or u != 'bytes':
                        if sel is not None or cr is not None:
                            fail(it, 'several ranges or another unit select '
                                 'bytes')
                        return
                    b, e = mean[0]
                    if kinds == 's':
                        b = it.binop(ast.Add(), L, b)
                        if it.less(b, 0):
                            return      # longer than the resource: open
                        e = L
                        exists = it.less(b, L)
                    else:
                        exists = it.less(b, L)
                        if e is None or it.less(L, e):
                            e = L
                    if not exists:
                        if sel is not None or cr is not None:
                            fail(it, 'a range outside the resource is '
                                 'selected')
                        return
                    if sel is None or cr is None:
                        fail(it, 'a range inside the resource is not '
                             'selected')
                    s0, s1 = list(it.iterate(sel))
                    oblige(it)
                    if not it.eq(s0, b) or not it.eq(s1, e):
                        fail(it, 'bytes %r-%r of the resource are selected '
                             'as %r-%r' % (b, e, s0, s1))
                    for k, v in (('start', b), ('stop', e), ('length', L),
                                 ('units', 'bytes')):
                        oblige(it)
                        if not it.eq(it.getattr(cr, k), v):
                            fail(it, 'content range has %s %r instead of %r'
                                 % (k, it.getattr(cr, k), v))
                    hd = want(it, lambda: meth(it, cr, 'to_header'),
                              'to_header')
                    check_same(it, hd, cat(
                        it, 'bytes ', st(it, b), '-',
                        st(it, it.binop(ast.Sub(), e, 1)), '/', st(it, L)),
                        'content range header')
                add('range.%s.%s.%s' % (kinds, sep.strip() + '_' * len(sep),
                                        unit.strip()), f,
                    'parse_range_header')

    # -- content range headers ---------------------------------------------
    for shape in ('full', 'nolength', 'nostart', 'neither'):
        def f_cr(it, shape=shape):
            a, b, L = num(it, 'a'), num(it, 'b'), num(it, 'L')
            seen = []
            upd = host('on_update', lambda c: seen.append(c))
            rng = ['*'] if shape in ('nostart', 'neither') else \
                [st(it, a), '-', st(it, b)]
            ln = '*' if shape in ('nolength', 'neither') else st(it, L)
            hd = cat(it, 'bytes ', *(rng + ['/', ln]))
            r = want(it, lambda: call(
                it, g(CC + 'parse_content_range_header'), hd, upd),
                'parsing a content range')
            e = it.binop(ast.Add(), b, 1)
            bad = False
            if shape in ('full', 'nolength'):
                bad = not it.less(a, e)
                if shape == 'full' and not bad:
                    bad = not it.less(a, L)
            oblige(it)
            if bad:
                if r is not None:
                    fail(it, 'an impossible content range is accepted')
                return
            if r is None:
                fail(it, 'a possible content range is dropped')
            exp = dict(units='bytes',
                       start=None if rng == ['*'] else a,
                       stop=None if rng == ['*'] else e,
                       length=None if ln == '*' else L)
            for k, v in exp.items():
                oblige(it)
                x = it.getattr(r, k)
                if not eqn(it, x, v):
                    fail(it, 'content range %s is %r instead of %r'
                         % (k, x, v))
            oblige(it)
            if not it.truth(r):
                fail(it, 'a content range that is set counts as false')
            h2 = want(it, lambda: meth(it, r, 'to_header'), 'to_header')
            check_same(it, h2, hd, 'content range header')
            check_same(it, call(it, it.prog.builtins['str'], r), hd,
                       'content range header')
            # callbacks
            for k in ('start', 'stop', 'length'):
                del seen[:]
                want(it, lambda: it.setattr(r, k, it.getattr(r, k)), k)
                oblige(it)
                if len(seen) != 1 or seen[0] is not r:
                    fail(it, 'setting %s is not reported' % k)
            del seen[:]
            want(it, lambda: meth(it, r, 'unset'), 'unset')
            oblige(it, 2)
            if len(seen) != 1 or it.truth(r) or \
                    meth(it, r, 'to_header') != '':
                fail(it, 'unset leaves a content range behind')
        add('content-range.' + shape, f_cr, 'parse_content_range_header')

    # -- an impossible range is refused --------------------------------------
    for op in ('init', 'set'):
        for a_none in (False, True):
            for b_none in (False, True):
                for l_none in (False, True):
                    def f_bad(it, op=op, a_none=a_none, b_none=b_none,
                              l_none=l_none):
                        a = None if a_none else sym('a', 'int')
                        b = None if b_none else sym('b', 'int')
                        L = None if l_none else sym('L', 'int')
                        if a_none != b_none:
                            ok = False
                        elif a_none:
                            ok = l_none or not it.less(L, 0)
                        else:
                            ok = not it.less(a, 0) and it.less(a, b) and (
                                l_none or it.less(a, L))
                        v = want(it, lambda: call(
                            it, g(B + 'is_byte_range_valid'), a, b, L),
                            'is_byte_range_valid')
                        oblige(it)
                        if bool(it.truth(v)) != ok:
                            fail(it, 'byte range (%r, %r) of %r counts as '
                                 '%s' % (a, b, L, 'invalid' if ok else
                                         'valid'))
                        if op == 'init':
                            r = attempt(it, call, it,
                                        g(CC + 'ContentRange'), 'bytes',
                                        a, b, L)
                            if r[0] == 'ok':
                                cr = r[1]
                        else:
                            cr = call(it, g(CC + 'ContentRange'), 'bytes',
                                      1, 2, 3)
                            r = attempt(it, meth, it, cr, 'set', a, b, L)
                        oblige(it)
                        if (r[0] == 'ok') != ok:
                            fail(it, 'content range (%r, %r) of %r is %s' % (
                                a, b, L, 'refused' if ok else 'accepted'),
                                r[2])
                        if r[0] != 'ok':
                            if not is_exc(it, r[1], 'ValueError'):
                                fail(it, 'an impossible content range raises '
                                     + exc_name(r[1]), r[2])
                            if op == 'init':
                                return
                            a, b, L = 1, 2, 3
                        for k, v in (('start', a), ('stop', b),
                                     ('length', L), ('units', 'bytes')):
                            oblige(it)
                            x = it.getattr(cr, k)
                            if not eqn(it, x, v):
                                fail(it, 'content range %s is %r instead of '
                                     '%r' % (k, x, v))
                    add('valid.%s.%d%d%d' % (op, a_none, b_none, l_none),
                        f_bad, 'ContentRange.' + op)

    # -- malformed headers ----------------------------------------------------
    JUNK = [r'[^=]', r'[^0-9]', r'[A-Za-z \-]']

    def f_none(it):
        for v in (None, ''):
            oblige(it)
            if want(it, lambda: call(it, g(CC + 'parse_range_header'), v),
                    'parsing') is not None:
                fail(it, 'a range comes from an empty header')
            if want(it, lambda: call(
                    it, g(CC + 'parse_content_range_header'), v),
                    'parsing') is not None:
                fail(it, 'a content range comes from an empty header')
    add('empty', f_none, 'parse_range_header')

    def f_junk1(it):
        v = sym('v', 'str')
        it.raise_ops = True
        want(it, lambda: call(it, g(CC + 'parse_range_header'), v),
             'parsing a malformed range header')
        oblige(it)
    add('junk.range', f_junk1, 'parse_range_header')

    def f_junk2(it):
        v = sym('v', 'str')
        it.raise_ops = True
        want(it, lambda: call(it, g(CC + 'parse_content_range_header'), v),
             'parsing a malformed content range header')
        oblige(it)
    add('junk.content-range', f_junk2, 'parse_content_range_header')

    def f_letters(it):
        w = word(it, 'w', '[A-Za-z]')
        n = st(it, num(it, 'n'))
        for parts in ([w], [w, '-'], [w, '-', n], [n, '-', w], ['-', w],
                      [n], ['-'], ['--', n], ['-', n, '-', n],
                      [n, '-', n, '-', n], [n, '-', n, ',', w],
                      [n, '-', n, ',']):
            hd = cat(it, 'bytes=', *parts)
            r = want(it, lambda: call(it, g(CC + 'parse_range_header'), hd),
                     'parsing a malformed range header')
            oblige(it)
            if r is not None:
                fail(it, 'malformed range header %r is accepted' % (hd,))
        for parts in ([w], ['bytes ', n], ['bytes ', n, '-', n],
                      ['bytes ', w, '-', n, '/', n],
                      ['bytes ', n, '-', w, '/', n],
                      ['bytes ', n, '-', n, '/', w], ['bytes ', n, '/', n],
                      ['bytes ', w, '/', n], ['bytes */', w],
                      ['bytes ', n, '-/', n], ['bytes -', n, '/', n],
                      ['bytes ', n, '-', n, '/'], [n, '-', n, '/', n]):
            hd = cat(it, *parts)
            r = want(it, lambda: call(
                it, g(CC + 'parse_content_range_header'), hd),
                'parsing a malformed content range header')
            oblige(it)
            if r is not None:
                fail(it, 'malformed content range header %r is accepted'
                     % (hd,))
    add('malformed', f_letters, 'parse_range_header')
    return out
