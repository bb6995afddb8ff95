"""Exact string operations on concatenations of constants and unknown atoms.

Each function returns None when it cannot give an exact answer."""
from fractions import Fraction
from .values import Term, Tup
from . import strdom


def parts_of(v):
    if isinstance(v, Term) and v.op == 'cat':
        return list(v.args)
    return [v]


def _const(p):
    return isinstance(p, (str, bytes))


def find_cuts(it, parts, sep, maxsplit, right):
    """positions (part index, offset) of the separators that split at, or
    None"""
    n = len(sep)
    if n != 1:
        return None
    cuts = []
    rng = range(len(parts) - 1, -1, -1) if right else range(len(parts))
    for i in rng:
        p = parts[i]
        if maxsplit >= 0 and len(cuts) >= maxsplit:
            break
        if _const(p):
            offs = [j for j in range(len(p)) if p[j:j + 1] == sep]
            if right:
                offs.reverse()
            for j in offs:
                if maxsplit >= 0 and len(cuts) >= maxsplit:
                    break
                cuts.append((i, j))
        elif not strdom.lacks(p, sep, it.facts):
            return None
    if right:
        cuts.reverse()
    return cuts


def pieces(it, parts, cuts, kind):
    from .builtins_ import cat
    out, cur, ci = [], [], 0
    for i, p in enumerate(parts):
        start = 0
        while ci < len(cuts) and cuts[ci][0] == i:
            j = cuts[ci][1]
            cur.append(p[start:j])
            out.append(cat(it, cur, kind))
            cur, start, ci = [], j + 1, ci + 1
        cur.append(p[start:] if _const(p) else p)
    out.append(cat(it, cur, kind))
    return out


def split_ws1(it, kind, self):
    """split(None, 1) of a string whose first blanks are known"""
    from .builtins_ import cat
    from . import rexmatch
    ps = list(parts_of(self))
    if ps and _const(ps[0]):
        ps[0] = ps[0].lstrip()
        if not ps[0]:
            return None

    def noblank(p):
        if _const(p):
            return bool(p) and not any(p[i:i + 1].isspace()
                                       for i in range(len(p)))
        try:
            return nonempty(it, p) and rexmatch.Atom(it, p).within(
                rexmatch._mask_of('\\s', 0, kind == 'bytes')) is False
        except rexmatch.Unable:
            return False
    for i, p in enumerate(ps):
        if noblank(p):
            continue
        if not _const(p):
            return None
        head = list(ps[:i])
        q = p
        k = next((j for j in range(len(q)) if q[j:j + 1].isspace()), None)
        if k is None:
            continue
        tail = q[k:].lstrip()
        if tail:
            rest = [tail] + list(ps[i + 1:])
        elif i + 1 < len(ps) and noblank(ps[i + 1]):
            rest = list(ps[i + 1:])
        elif i + 1 == len(ps):
            return it.mk_list([cat(it, head + [q[:k]], kind)])
        else:
            return None
        return it.mk_list([cat(it, head + [q[:k]], kind),
                           cat(it, rest, kind)])
    return it.mk_list([cat(it, ps, kind)])


def split_ws(it, kind, self):
    """split() at white space that only the known parts contain"""
    from .builtins_ import cat
    words, cur = [], []

    def flush():
        if cur:
            words.append(cat(it, list(cur), kind))
            cur.clear()
    for p in parts_of(self):
        if _const(p):
            ws = p.split()
            if not ws:
                flush()
                continue
            if p[:1].isspace():
                flush()
            for i, w in enumerate(ws):
                if i:
                    flush()
                cur.append(w)
            if p[-1:].isspace():
                flush()
        elif not atom_ok(it, p, None):
            return None
        elif it.truth(p):
            cur.append(p)
    flush()
    return it.mk_list(words)


def splitlines(it, kind, self, keep):
    """str.splitlines of a concatenation, or None"""
    from .builtins_ import cat
    one = 'a' if kind == 'str' else b'a'
    ps = []
    for p in parts_of(self):
        if _const(p):
            if p:
                ps.append(p)
            continue
        if not all(strdom.lacks(p, c, it.facts)
                   for c in ('\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029'
                             if kind == 'str' else
                             [bytes([c]) for c in b'\n\r'])):
            return None
        if it.truth(p):
            ps.append(p)
    # one character stands for each unknown part
    flat, where = one[:0], []
    for p in ps:
        if _const(p):
            for i in range(len(p)):
                where.append(p[i:i + 1])
            flat += p
        else:
            where.append(p)
            flat += one
    out, at = [], 0
    for full, bare in zip(flat.splitlines(True), flat.splitlines()):
        n = len(full if keep else bare)
        out.append(it.facts.norm(cat(it, where[at:at + n], kind)))
        at += len(full)
    return it.mk_list(out)


def split(it, kind, name, self, rest):
    """split/rsplit/partition/rpartition -> list of pieces or None"""
    if name == 'split' and len(rest) == 2 and rest[0] is None and \
            rest[1] == 1:
        return split_ws1(it, kind, self)
    if name == 'split' and (not rest or rest[0] is None) and len(rest) < 2:
        return split_ws(it, kind, self)
    if not rest or not _const(rest[0]) or not rest[0]:
        return None
    sep = rest[0]
    right = name in ('rsplit', 'rpartition')
    part = name.endswith('partition')
    mx = 1 if part else (rest[1] if len(rest) > 1 else -1)
    if not isinstance(mx, int) or isinstance(mx, bool):
        return None
    ps = parts_of(self)
    cuts = find_cuts(it, ps, sep, mx, right)
    if cuts is not None:
        got = pieces(it, ps, cuts, kind)
    elif mx == 1:
        # case split on the presence of the separator; the two halves are
        # named after partition, however the code spells it
        if not it.contains(self, sep):
            got = [self]
        else:
            p = Term('m:' + ('r' if right else '') + 'partition',
                     (self, sep), 'tuple')
            got = [Term('item', (p, 0), kind), Term('item', (p, 2), kind)]
    else:
        return None
    if part:
        e = '' if kind == 'str' else b''
        if len(got) == 1:
            got = [e, e, got[0]] if right else [got[0], e, e]
        else:
            got = [got[0], sep, got[1]]
        return Tup(got)
    return it.mk_list(got)


def atom_settled(it, p, chars):
    """no character of `chars` occurs in the atom"""
    return all(strdom.lacks(p, c, it.facts) for c in chars)


def strip(it, kind, name, self, rest):
    from .builtins_ import cat
    chars = rest[0] if rest else None
    if chars is not None and not _const(chars):
        return None
    ps = parts_of(self)
    if len(ps) == 1 and not atom_ok(it, ps[0], chars):
        return None
    orig = list(ps)

    def trim(ps, left):
        """returns settled?"""
        while ps:
            i = 0 if left else -1
            p = ps[i]
            if _const(p):
                q = p.lstrip(chars) if left else p.rstrip(chars)
                if q:
                    ps[i] = q
                    return True
                ps.pop(i)
                continue
            if not atom_ok(it, p, chars):
                return False
            if it.truth(p):
                return True
            ps.pop(i)
        return True
    l = trim(ps, True) if name in ('strip', 'lstrip') else True
    r = trim(ps, False) if name in ('strip', 'rstrip') else True
    new = cat(it, ps, kind)
    if l and r:
        return new
    op = 'm:strip' if not l and not r else 'm:lstrip' if not l else \
        'm:rstrip'
    if ps == orig and op == 'm:' + name:
        return None
    return Term(op, [new] + ([chars] if chars is not None else []), kind)


WS = [chr(c) for c in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)]


def atom_ok(it, p, chars):
    if _const(p):
        return True
    if chars is None:
        if p.op == 'str' and isinstance(p.args[0], Term) and \
                p.args[0].ty == 'int' or \
                it.facts.truth.get(Term('nospace', (p,), 'bool')) is True:
            return True
        from . import rexmatch
        m = rexmatch.Atom(it, p).mask
        full = rexmatch.BFULL if p.ty == 'bytes' else rexmatch.FULL
        if m == full:
            return False
        return not m & rexmatch._mask_of('\\s', 0, p.ty == 'bytes')
    cs = [chars[i:i + 1] for i in range(len(chars))]
    return atom_settled(it, p, cs)


def nonempty(it, x):
    while isinstance(x, Term):
        if it.facts.truth.get(x) is True:
            return True
        if x.op == 'cat':
            return any(_const(p) or nonempty(it, p) for p in x.args)
        if x.op != 'quote' and not (
                x.op in ('m:encode', 'm:decode') and
                x.args[1] in ('latin-1', 'utf-8') and
                x.args[2:3] == ('strict',)):
            return x.op == 'str' and isinstance(x.args[0], Term) and \
                x.args[0].ty in ('int', 'float')
        x = x.args[0]
    return bool(x)


def affix(it, name, self, pre):
    """startswith/endswith: bool, reduced (self, pre) pair or None"""
    if isinstance(self, Term) and len(self.args) == 2 and _const(pre) and \
            pre and self.op in (
                'm:strip', 'm:lstrip' if name == 'startswith' else
                'm:rstrip') and _const(self.args[1]) and (
                pre[:1] if name == 'startswith' else pre[-1:]) in \
            self.args[1]:
        return False
    a, b = parts_of(self), parts_of(pre)
    end = name == 'endswith'
    if end:
        a, b = a[::-1], b[::-1]
    changed = False
    while b:
        if not a:
            # '' starts with pre iff pre is empty
            if any(_const(x) and x for x in b):
                return False
            break
        x, y = a[0], b[0]
        if x is y or _const(x) and _const(y) and x == y:
            a.pop(0)
            b.pop(0)
            changed = True
            continue
        if _const(x) and _const(y):
            if type(x) is not type(y):
                return None
            n = min(len(x), len(y))
            if end:
                if x[len(x) - n:] != y[len(y) - n:]:
                    return False
                x2, y2 = x[:len(x) - n], y[:len(y) - n]
            else:
                if x[:n] != y[:n]:
                    return False
                x2, y2 = x[n:], y[n:]
            a[:1] = [x2] if x2 else []
            b[:1] = [y2] if y2 else []
            changed = True
            continue
        break
    if not b:
        return True
    x, y = (a[0] if a else None), b[0]
    if isinstance(x, Term) and _const(y):
        ch = y[-1:] if end else y[:1]
        if strdom.lacks(x, ch, it.facts):
            if nonempty(it, x):
                return False
            if len(a) == 1:
                return False
        if len(a) == 1 and any(strdom.lacks(x, y[i:i + 1], it.facts)
                               for i in range(len(y))):
            return False
        # the atom excludes some character of the affix: only finitely many
        # ways for the affix to straddle the atom and the constant behind it
        for q in range(1, len(y)):
            c = y[-1 - q:len(y) - q] if end else y[q:q + 1]
            if len(b) > 1 or not strdom.lacks(x, c, it.facts):
                continue
            seg = y[len(y) - q:] if end else y[:q]
            if len(a) < 2 or not _const(a[1]) or len(a[1]) < len(y):
                break
            poss = False
            for i in range(q + 1):
                rest = y[:len(y) - i] if end else y[i:]
                if a[1].endswith(rest) if end else a[1].startswith(rest):
                    poss = True
            if not poss:
                return False
            break
    if not changed:
        return None
    from .builtins_ import cat
    if end:
        a, b = a[::-1], b[::-1]
    kind = 'bytes' if any(isinstance(z, bytes) or isinstance(z, Term) and
                          z.ty == 'bytes' for z in a + b) else 'str'
    return (cat(it, a, kind), cat(it, b, kind))


def unit_slice(it, self, sl):
    """slice of a concatenation of constants and single unknown characters"""
    f = it.facts
    flat = []
    for p in parts_of(self):
        if _const(p):
            flat += [p[i:i + 1] for i in range(len(p))]
            continue
        if not f.lin:
            return None
        n = f.lin_of(Term('len', (p,), 'int'))
        one = f.lin_of(1)
        if n is None or not f.lin_entails(n - one) or \
                not f.lin_entails(one - n):
            return None
        flat.append(p)
    return flat[sl]


def cut_at(it, self, pos):
    """split the parts at linear position `pos`: (left, right) or None"""
    f = it.facts
    want = f.lin_of(pos)
    if want is None:
        return None
    ps = parts_of(self)
    acc = f.lin_of(0)
    for i, p in enumerate(ps):
        d = want - acc
        if not d.c and d.k == 0:
            return ps[:i], ps[i:]
        n = f.lin_of(len(p)) if _const(p) else f.lin_of(
            Term('len', (p,), 'int'))
        if _const(p) and not d.c and 0 <= d.k <= len(p) and \
                d.k.denominator == 1:
            k = int(d.k)
            return ps[:i] + [p[:k]], [p[k:]] + ps[i + 1:]
        if n is None:
            return None
        acc = acc + n
    d = want - acc
    if not d.c and d.k == 0:
        return ps, []
    return None


def codec(it, name, parts, enc, err):
    """distribute an ASCII compatible codec over a concatenation"""
    if enc not in ('ascii', 'utf-8', 'latin-1'):
        return None
    out = []
    prev_atom = False
    for p in parts:
        if _const(p):
            if name == 'decode' and any(b >= 128 for b in p) and \
                    enc != 'latin-1':
                return None
            try:
                out.append(getattr(p, name)(enc, err if isinstance(err, str)
                                            else 'strict'))
            except (UnicodeError, LookupError):
                return None
            prev_atom = False
        else:
            if name == 'decode' and enc == 'utf-8' and prev_atom:
                return None
            prev_atom = True
            out.append(p)
    return out
