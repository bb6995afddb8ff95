"""C45: the pieces of a stream do not depend on how it arrives."""
import itertools
import re

from .lib import *
from .mdlib import same_val

RULE = ('make_line_iter and make_chunk_iter are followed on every content '
        'of up to four (thorough: five) parts, each part an unknown word, '
        'a line end or a (piece of a) separator, in text and bytes, cut '
        'into buffers at every subset of the places between parts, '
        'delivered by an iterable or by a stream.  The pieces are those of '
        'the whole content: lines with their ends, or what stands between '
        'separators.')
MIN_SCENARIOS = 200
W = 'verktyg.wsgi.'


def pieces_ref(parts, sep):
    """parts: list of ('w', i) or one-character strings -> list of lists"""
    flat = ''.join('\0' if isinstance(p, tuple) else p for p in parts)
    if sep is None:
        got = re.findall(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', flat)
        n = 0
        out = []
        for g in got:
            out.append(list(parts[n:n + len(g)]))
            n += len(g)
        return out
    out, n = [], 0
    if not flat:
        return []
    for g in flat.split(sep):
        out.append(list(parts[n:n + len(g)]))
        n += len(g) + len(sep)
    return out


def letter(it, name, kind):
    """one unknown letter or digit"""
    v = word(it, name, '[a-z0-9]', kind)
    f = it.facts
    n, one = f.lin_of(Term('len', (v,), 'int')), f.lin_of(1)
    f.add_lin(n - one)
    f.add_lin(one - n)
    return v


def scenarios(prog):
    import os
    out = []
    deep = os.environ.get('VERIF_TIER_EFF', os.environ.get(
        'VERIF_TIER')) == 'thorough'
    LEN = 5 if deep else 4

    def conv(kind, s):
        return s if kind == 'str' else s.encode('latin-1')

    def value(it, kind, parts):
        e = conv(kind, '')
        vs = [e]
        for p in parts:
            vs.append(it.cw[p] if isinstance(p, tuple) else conv(kind, p))
        return it.facts.norm_deep(cat(it, *vs))

    def name(parts):
        return ' '.join(str(p[0]) + str(p[1]) if isinstance(p, tuple) else repr(p)
                        for p in parts)

    def go(kind, n, syms, sep, src, first):
        def fn(it):
            parts = []
            it.cw = {}
            for i in range(n):
                if i == 0:
                    c = first
                else:
                    c = it.choose(len(syms), 'part %d' % i)
                c = syms[c]
                if c == 'w':
                    c = ('w', i)
                    it.cw[c] = letter(it, 'w%d' % i, kind) \
                        if sep and len(sep) > 1 else \
                        word(it, 'w%d' % i, '[a-z0-9]', kind)
                parts.append(c)
            cuts = [j for j in range(1, n)
                    if it.choose(2, 'cut before part %d' % j)]
            if isinstance(sep, str) and len(sep) > 2 and len(cuts) > 3:
                raise Pruned('cuts')
            bufs = []
            for a, b in zip([0] + cuts, cuts + [n]):
                bufs.append(value(it, kind, parts[a:b]))
            what = 'the content %s in the buffers [%s]' % (
                name(parts), ' | '.join(
                    name(parts[a:b])
                    for a, b in zip([0] + cuts, cuts + [n])))
            if src == 'iterable' and n < 4 and it.choose(
                    2, 'an empty buffer'):
                k = it.choose(len(bufs) + 1, 'place of the empty buffer')
                bufs.insert(k, conv(kind, ''))
                what += ' with an empty one before number %d' % (k + 1)
            if src == 'stream':
                left = list(bufs)
                s = stub(it, 'stream', read=host(
                    'read', lambda *a: left.pop(0) if left
                    else conv(kind, '')))
            else:
                s = it.mk_list(bufs)
            f = it.prog.get(W + ('make_line_iter' if sep is None else
                                 'make_chunk_iter'))
            args = [s] + ([] if sep is None else [conv(kind, sep)])
            r = attempt(it, lambda: list(it.iterate(it.call(f, args, {}))))
            oblige(it)
            if r[0] == 'raise':
                fail(it, '%s fails for %s: %s' % (
                    f.name, what, exc_name(r[1])), r[2])
            want = [value(it, kind, p) for p in pieces_ref(parts, sep)]
            got = [it.facts.norm_deep(x) for x in r[1]]
            oblige(it, len(want))
            ok = len(got) == len(want)
            for g, w in zip(got, want):
                ok = ok and it.ty(g) == kind and same_val(it, g, w)
            if not ok:
                fail(it, '%s gives [%s] for %s, which is [%s]' % (
                    f.name, ', '.join(show(x) for x in got), what,
                    ', '.join(show(x) for x in want)))
        return fn
    for kind in ('str', 'bytes'):
        for src in ('iterable', 'stream'):
            for sep, syms in ((None, ['w', '\r', '\n']),
                              (';', ['w', ';']),
                              ('+', ['w', '+']),
                              ('\r\n', ['w', '\r', '\n']),
                              ('||', ['w', '|']),
                              ('-.-', ['w', '-', '.'])):
                for n in range(1, LEN + 1):
                    for first in range(len(syms)):
                        out.append(Scen(
                            '%s %s, %s of %d parts from %r' % (
                                kind, 'lines' if sep is None else
                                'chunks by %r' % sep, src, n, syms[first]),
                            go(kind, n, syms, sep, src, first),
                            'make_line_iter' if sep is None
                            else 'make_chunk_iter', max_paths=20000))

    def limited(sep, wrapped):
        def fn(it):
            content = b'ab\r\ncd\r;ef\n\ngh;'
            n = it.choose(len(content) + 1, 'limit')
            size = it.choose(5, 'buffer size') + 1
            s = it.call(prog.ext_obj('io.BytesIO'), [content], {})
            kw = {'limit': n}
            if wrapped:
                s = it.call(prog.get(W + 'LimitedStream'), [s, n], {})
                kw = {}
            f = prog.get(W + ('make_line_iter' if sep is None else
                              'make_chunk_iter'))
            args = [s] + ([] if sep is None else [sep])
            kw['buffer_size'] = size
            r = attempt(it, lambda: list(it.iterate(it.call(f, args, kw))))
            oblige(it)
            part = [chr(c) for c in content[:n]]
            want = [''.join(p).encode() for p in pieces_ref(
                part, sep and sep.decode())]
            if r[0] == 'raise':
                fail(it, '%s fails with %d bytes at a time: %s' % (
                    f.name, size, exc_name(r[1])), r[2])
            got = [it.facts.norm(x) for x in r[1]]
            if got != want:
                fail(it, '%s gives %r for the first %d bytes of %r, read %d '
                     'at a time, which are %r' % (
                         f.name, got, n, content, size, want))
        return fn
    for sep in (None, b';', b'\r\n', b'\n\n'):
        for wrapped in (False, True):
            out.append(Scen('bytes %s of a %s stream' % (
                'lines' if sep is None else 'chunks by %r' % sep,
                'limited' if wrapped else 'cut'), limited(sep, wrapped),
                'make_line_iter' if sep is None else 'make_chunk_iter',
                max_paths=20000))
    return out
