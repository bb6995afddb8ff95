"""Regular expressions on concatenations of constants and unknown atoms.

The parsed pattern is followed with the backtracking rules of `re` over a
sequence of tokens: the characters of the constants and, for every unknown
atom, `k` copies of 'some character of its alphabet'.  A test of a token
against a character class must come out the same for the whole alphabet.  The
outcome is used only if it does not depend on k (1, 2 or 4 characters) and all
boundaries fall between atoms; otherwise the question is left open."""
import re as _re
try:
    from re import _parser as _sre
except ImportError:                     # pragma: no cover
    import sre_parse as _sre
from .values import Term, FSet
from . import strdom, strops

MAXU = 0x110000
FULL = (1 << MAXU) - 1
BFULL = (1 << 256) - 1
_all = None
_masks = {}


class Unable(Exception):
    pass


def _mask_of(src, flags, isbytes):
    """bit mask of the characters matching the one-character pattern"""
    key = (src, flags, isbytes)
    if key in _masks:
        return _masks[key]
    global _all
    if isbytes:
        rx = _re.compile(src.encode('latin-1'), flags)
        m = 0
        for c in range(256):
            if rx.fullmatch(bytes([c])):
                m |= 1 << c
    else:
        if _all is None:
            _all = ''.join(map(chr, range(MAXU)))
        ba = bytearray(MAXU // 8)
        for x in _re.compile('(?:%s)+' % src, flags).finditer(_all):
            a, b = x.span()
            while a < b and a & 7:
                ba[a >> 3] |= 1 << (a & 7)
                a += 1
            while b > a and b & 7:
                b -= 1
                ba[b >> 3] |= 1 << (b & 7)
            if a < b:
                ba[a >> 3:b >> 3] = b'\xff' * ((b - a) >> 3)
        m = int.from_bytes(ba, 'little')
    _masks[key] = m
    return m


def _lit(c):
    return '\\U%08x' % c


def _class_src(op, av, isbytes):
    lit = (lambda c: '\\x%02x' % c) if isbytes else _lit
    n = str(op)
    if n == 'LITERAL':
        return lit(av)
    if n == 'NOT_LITERAL':
        return '[^%s]' % lit(av)
    if n == 'ANY':
        return '.'
    if n == 'IN':
        s = ''
        for o, a in av:
            k = str(o)
            if k == 'NEGATE':
                s = '^' + s
            elif k == 'LITERAL':
                s += lit(a)
            elif k == 'RANGE':
                s += lit(a[0]) + '-' + lit(a[1])
            elif k == 'CATEGORY':
                s += {'CATEGORY_DIGIT': '\\d', 'CATEGORY_NOT_DIGIT': '\\D',
                      'CATEGORY_SPACE': '\\s', 'CATEGORY_NOT_SPACE': '\\S',
                      'CATEGORY_WORD': '\\w',
                      'CATEGORY_NOT_WORD': '\\W'}[str(a)]
            else:
                return None
        return '[%s]' % s
    return None


CLASS_FLAGS = _re.IGNORECASE | _re.DOTALL | _re.ASCII


def class_mask(op, av, flags, isbytes):
    src = _class_src(op, av, isbytes)
    if src is None:
        return None
    f = flags & CLASS_FLAGS
    if isbytes:
        f &= ~_re.ASCII
    n = str(op)
    if n == 'LITERAL' and not f & _re.IGNORECASE:
        return 1 << av
    if n == 'NOT_LITERAL' and not f & _re.IGNORECASE:
        return (BFULL if isbytes else FULL) & ~(1 << av)
    if n == 'ANY':
        return (BFULL if isbytes else FULL) & (
            -1 if f & _re.DOTALL else ~(1 << 10))
    return _mask_of(src, f, isbytes)


def pattern_class(pat, flags):
    """the class if the pattern is any number of a character class"""
    try:
        tree = _sre.parse(pat, flags)
    except Exception:
        return None
    if len(tree) != 1:
        return None
    op, av = tree[0]
    n = str(op)
    if n in ('MAX_REPEAT', 'MIN_REPEAT') and len(av[2]) == 1:
        op, av = av[2][0]
    return class_mask(op, av, tree.state.flags, isinstance(pat, bytes))


def single(pat, flags):
    """matches exactly one character"""
    try:
        return _sre.parse(pat, flags).getwidth() == (1, 1)
    except Exception:
        return False


def starred(pat, flags):
    """a repetition with a bound (leaving characters behind) or none?"""
    try:
        op, av = _sre.parse(pat, flags)[0]
    except Exception:
        return True
    return str(op) in ('MAX_REPEAT', 'MIN_REPEAT') and (
        av[0] > 1 or str(av[1]) != 'MAXREPEAT' or str(op)[:3] == 'MIN')


class Atom:
    """alphabet of an unknown string, refined on demand"""

    def __init__(self, it, t):
        self.it, self.t = it, t
        self.bytes = t.ty == 'bytes'
        m = BFULL if self.bytes else FULL
        f = it.facts
        if t.op == 'str' and isinstance(t.args[0], Term) and \
                t.args[0].ty == 'int':
            m = _mask_of('[0-9-]', 0, False)
            lo = f.lin_of(t.args[0])
            if lo is not None and f.lin_entails(lo):
                m = _mask_of('[0-9]', 0, False)
        if t.op == 'fmt' and isinstance(t.args[0], str) and _re.fullmatch(
                '%[0-9]*d', t.args[0]):
            m = _mask_of('[0-9 -]', 0, False)
        if f.truth.get(Term('nospace', (t,), 'bool')) is True and \
                not self.bytes:
            m &= ~_mask_of('\\s', 0, False)
        for k, v in f.truth.items():
            if k.op == 're' and v is True and k.args[2] is t and \
                    k.args[0] == 'fullmatch':
                pat, fl = k.args[1].items
                if isinstance(pat, (str, bytes)) and isinstance(fl, int):
                    c = pattern_class(pat, fl)
                    if c is not None:
                        m &= c
            if k.op == 'subset' and v is True and isinstance(
                    k.args[1], FSet) and isinstance(k.args[0], Term) and \
                    k.args[0].op == 'chars' and k.args[0].args[0] is t:
                m &= sum(1 << ord(c) for c in k.args[1].items
                         if isinstance(c, str) and len(c) == 1)
        if t.op in ('m:encode', 'm:decode') and t.args[1:2] in (
                ('latin-1',), ('ascii',), ('utf-8',)) \
                and t.args[2:3] == ('strict',) and \
                isinstance(t.args[0], Term):
            inner = Atom(it, t.args[0]).mask
            if t.args[1] == 'latin-1' or not inner >> 128:
                m &= inner & BFULL
            elif t.args[1] == 'ascii':
                m &= inner & (1 << 128) - 1
        if t.op == 'ext' and t.args[0] == 're.sub' and not self.bytes and \
                isinstance(t.args[3], Term):
            pat, fl = t.args[1].items
            rep = t.args[2]
            if isinstance(pat, str) and isinstance(fl, int) and \
                    isinstance(rep, str) and '\\' not in rep:
                m &= Atom(it, t.args[3]).mask | sum(
                    1 << ord(c) for c in set(rep))
                c = pattern_class(pat, fl)
                if c is not None and not starred(pat, fl):
                    m &= ~c | sum(1 << ord(x) for x in set(rep))
        if t.op in ('m:strip', 'm:lstrip', 'm:rstrip') and isinstance(
                t.args[0], Term):
            m &= Atom(it, t.args[0]).mask
        if t.op == 'cat':
            a = 0
            for x in t.args:
                a |= Atom(it, x).mask if isinstance(x, Term) else sum(
                    1 << (c if isinstance(c, int) else ord(c))
                    for c in set(x))
            m &= a
        if t.op == 'quote':
            s = t.args[1] if isinstance(t.args[1], str) else None
            if s is not None:
                m &= sum(1 << ord(c) for c in strdom.PCT | set(s) | (
                    {'+'} if t.args[4] else set()))
        if t.op in ('m:lower', 'm:upper') and isinstance(t.args[0], Term):
            inner = Atom(it, t.args[0]).mask
            if not inner >> 128:
                m &= sum(1 << ord(getattr(chr(c), t.op[2:])())
                         for c in range(128) if inner >> c & 1)
        self.mask = m

    def refine(self, rest):
        """remove characters of `rest` that the facts exclude"""
        n = bin(rest).count('1')
        if n > 300:
            return
        while rest:
            b = rest & -rest
            rest ^= b
            c = b.bit_length() - 1
            ch = bytes([c]) if self.bytes else chr(c)
            if strdom.lacks(self.t, ch, self.it.facts):
                self.mask &= ~b

    def within(self, cls):
        rest = self.mask & ~cls
        if rest:
            self.refine(rest)
            rest = self.mask & ~cls
        if not rest:
            return True
        both = self.mask & cls
        if both:
            self.refine(both)
        if not self.mask & cls:
            return False
        raise Unable('class and atom overlap')


class Tok:
    __slots__ = ('mask', 'atom')

    def __init__(self, mask, atom=None):
        self.mask, self.atom = mask, atom

    def is_in(self, cls):
        if self.atom is not None:
            return self.atom.within(cls)
        return bool(self.mask & cls)


class Matcher:
    def __init__(self, pat, flags, toks, isbytes):
        tree = _sre.parse(pat, flags)
        self.tree = tree
        self.flags = tree.state.flags
        self.toks, self.n = toks, len(toks)
        self.bytes = isbytes
        self.steps = 0

    def cls(self, op, av):
        return class_mask(op, av, self.flags, self.bytes)

    def run(self, start, full=False, advance=False):
        """spans of all groups or None"""
        end = self.n

        def done(i, g):
            if full and i != end or advance and i == start:
                return None
            return i, g
        r = self.seq(list(self.tree), 0, start, {}, done)
        if r is None:
            return None
        i, g = r
        g = dict(g)
        g[0] = (start, i)
        return g

    def seq(self, nodes, k, i, g, cont):
        self.steps += 1
        if self.steps > 50000:
            raise Unable('too many steps')
        if k == len(nodes):
            return cont(i, g)
        op, av = nodes[k]
        n = str(op)
        nxt = lambda j, h: self.seq(nodes, k + 1, j, h, cont)   # noqa: E731
        if n in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN'):
            c = self.cls(op, av)
            if c is None:
                raise Unable(n)
            if i < self.n and self.toks[i].is_in(c):
                return nxt(i + 1, g)
            return None
        if n == 'SUBPATTERN':
            gi, add, rem, body = av
            if add or rem:
                raise Unable('inline flags')

            def after(j, h):
                if gi is not None:
                    h = dict(h)
                    h[gi] = (i, j)
                return nxt(j, h)
            return self.seq(list(body), 0, i, g, after)
        if n == 'BRANCH':
            for b in av[1]:
                r = self.seq(list(b), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, body = av
            hi = min(int(hi), 1 << 30)
            body = list(body)
            if len(body) == 1 and str(body[0][0]) in (
                    'LITERAL', 'NOT_LITERAL', 'ANY', 'IN'):
                return self.single(n, lo, hi, body[0], i, g, nxt)
            if n == 'POSSESSIVE_REPEAT':
                raise Unable(n)
            return self.repeat(n == 'MAX_REPEAT', lo, hi, body, i, g, nxt, 0,
                               -1)
        if n == 'AT':
            return nxt(i, g) if self.at(str(av), i) else None
        if n in ('ASSERT', 'ASSERT_NOT'):
            d, body = av
            if d != 1:
                raise Unable('lookbehind')
            r = self.seq(list(body), 0, i, g, lambda j, h: (j, h))
            if n == 'ASSERT':
                return None if r is None else nxt(i, r[1])
            return nxt(i, g) if r is None else None
        if n == 'ATOMIC_GROUP':
            r = self.seq(list(av), 0, i, g, lambda j, h: (j, h))
            return None if r is None else nxt(*r)
        raise Unable(n)

    def single(self, n, lo, hi, node, i, g, nxt):
        c = self.cls(*node)
        if c is None:
            raise Unable('class')
        if n == 'MIN_REPEAT':
            j, cnt = i, 0
            while cnt < lo:
                if j >= self.n or not self.toks[j].is_in(c):
                    return None
                j, cnt = j + 1, cnt + 1
            while True:
                r = nxt(j, g)
                if r is not None:
                    return r
                if cnt >= hi or j >= self.n or not self.toks[j].is_in(c):
                    return None
                j, cnt = j + 1, cnt + 1
        j, cnt = i, 0
        while cnt < hi and j < self.n and self.toks[j].is_in(c):
            j, cnt = j + 1, cnt + 1
        if n == 'POSSESSIVE_REPEAT':
            return nxt(j, g) if cnt >= lo else None
        while cnt >= lo:
            r = nxt(j, g)
            if r is not None:
                return r
            j, cnt = j - 1, cnt - 1
        return None

    def repeat(self, greedy, lo, hi, body, i, g, nxt, cnt, last):
        def more():
            if cnt >= hi or i == last and cnt >= lo:
                return None
            return self.seq(body, 0, i, g, lambda j, h: self.repeat(
                greedy, lo, hi, body, j, h, nxt, cnt + 1, i))
        if cnt < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else nxt(i, g)
        r = nxt(i, g)
        return r if r is not None else more()

    def at(self, kind, i):
        nl = 1 << 10
        ml = self.flags & _re.MULTILINE
        if kind in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            if i == 0:
                return True
            if kind == 'AT_BEGINNING' and ml:
                return self.toks[i - 1].is_in(nl)
            return False
        if kind in ('AT_END', 'AT_END_STRING'):
            if i == self.n:
                return True
            if kind == 'AT_END_STRING':
                return False
            if ml or i == self.n - 1:
                return self.toks[i].is_in(nl)
            return False
        if kind in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            w = _mask_of('\\w', self.flags & _re.ASCII if not self.bytes
                         else 0, self.bytes)
            a = i > 0 and self.toks[i - 1].is_in(w)
            b = i < self.n and self.toks[i].is_in(w)
            return (a != b) == (kind == 'AT_BOUNDARY')
        raise Unable(kind)


class Layout:
    """one expansion of the parts into tokens"""

    def __init__(self, parts, atoms, k, isbytes):
        self.toks, self.starts = [], []
        self.back = {}
        for pi, p in enumerate(parts):
            if strops._const(p):
                for off, c in enumerate(p):
                    self.back[len(self.toks)] = (pi, off)
                    self.toks.append(Tok(1 << (c if isbytes else ord(c))))
            else:
                self.back[len(self.toks)] = (pi, 0)
                for _ in range(k):
                    self.toks.append(Tok(0, atoms[pi]))
        self.back[len(self.toks)] = (len(parts), 0)

    def pos(self, i):
        if i not in self.back:
            raise Unable('boundary inside an atom')
        return self.back[i]

    def index(self, pos):
        for i, p in self.back.items():
            if p == pos:
                return i
        raise Unable('position')


KS = (1, 2, 4)


def prepare(it, s):
    """parts and atoms of the string; decides emptiness of atoms"""
    f = it.facts
    while True:
        s = f.norm_deep(s)
        ps = strops.parts_of(s)
        again = False
        for p in ps:
            if not strops._const(p) and not strops.nonempty(it, p) and \
                    f.truth.get(p) is not True:
                if f.truth.get(p) is None:
                    return None
                again = True
        if not again:
            break
        ps = [p for p in ps if strops._const(p) or f.truth.get(p) is not
              False]
        break
    return ps


def find(it, pat, flags, s, how, pos=0, count=None):
    """list of matches (each {group: (pos, pos)} in part positions) or None
    when open.  how: match, search, fullmatch, finditer"""
    f = it.facts
    parts = prepare(it, s)
    if parts is None:
        return None
    isbytes = it.ty(s) == 'bytes'
    atoms = {}
    try:
        for i, p in enumerate(parts):
            if not strops._const(p):
                if not isinstance(p, Term):
                    return None
                atoms[i] = Atom(it, p)
        results = []
        for k in KS:
            lay = Layout(parts, atoms, k, isbytes)
            start = 0
            if pos != 0:
                cut = strops.cut_at(it, s, pos)
                if cut is None:
                    return None
                start = sum(len(p) if strops._const(p) else k
                            for p in cut[0])
            m = Matcher(pat, flags, lay.toks, isbytes)
            got = []
            if how in ('match', 'fullmatch'):
                r = m.run(start, how == 'fullmatch')
                if r is not None:
                    got.append(r)
            else:
                i, adv = start, False
                while i <= m.n:
                    r = m.run(i, False, adv)
                    adv = False
                    if r is None:
                        i += 1
                        continue
                    got.append(r)
                    if how == 'search' or count and len(got) >= count:
                        break
                    i = r[0][1]
                    adv = r[0][0] == i
            results.append([{n: (lay.pos(a), lay.pos(b))
                             for n, (a, b) in r.items()} for r in got])
            if not atoms:
                break
        if any(r != results[0] for r in results):
            return None
    except (Unable, RecursionError):
        return None
    return parts, results[0]


def text(it, parts, a, b, kind):
    """the string between two part positions"""
    from .builtins_ import cat
    out = []
    (pa, oa), (pb, ob) = a, b
    for i in range(pa, min(pb + 1, len(parts))):
        p = parts[i]
        lo = oa if i == pa else 0
        if i == pb:
            if ob:
                out.append(p[lo:ob])
        else:
            out.append(p[lo:] if strops._const(p) else p)
    return cat(it, out, kind)
