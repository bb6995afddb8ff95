"""Languages of regular expressions found in the analysed sources.

A pattern is parsed (never matched against anything), turned into an automaton
over a finite partition of the characters, and compared with other languages by
exploring the product of the determinised automata.  Questions answered: is
there a text in all of these languages and in none of those?"""
import re as _re
try:
    from re import _parser as _sre
except ImportError:                     # pragma: no cover
    import sre_parse as _sre


class Unable(Exception):
    pass


CATS = {
    'CATEGORY_DIGIT': lambda c, a: c.isdigit() and (
        c in '0123456789' if a else c.isdecimal()),
    'CATEGORY_SPACE': lambda c, a: c in ' \t\n\r\f\v' if a else c.isspace(),
    'CATEGORY_WORD': lambda c, a: (c.isascii() if a else True) and (
        c.isalnum() or c == '_'),
}


class Nfa:
    """nodes are integers; edges: ('c', pred, to), ('e', to), ('g', kind, to),
    ('m', symbol, to)"""
    def __init__(self):
        self.edges = []

    def node(self):
        self.edges.append([])
        return len(self.edges) - 1

    def add(self, a, *e):
        self.edges[a].append(e)


class Lang:
    """texts accepted; how: fullmatch, match (a prefix matches) or search.
    groups: name -> 'empty' | 'nonempty' restricts the capture; marks: emit
    marker symbols around named groups"""
    def __init__(self, pattern, flags=0, how='fullmatch', groups=None,
                 marks=False):
        if isinstance(pattern, bytes):
            pattern = pattern.decode('latin-1')
            flags |= _re.ASCII
            self.bytes = True
        else:
            self.bytes = False
        self.pattern, self.how = pattern, how
        try:
            tree = _sre.parse(pattern, flags & ~_re.UNICODE
                              if flags & _re.ASCII else flags)
        except _re.error as e:
            raise Unable('bad pattern: %s' % e)
        self.flags = tree.state.flags | flags
        self.tree = tree
        self.ascii = bool(self.flags & _re.ASCII)
        self.names = {v: k for k, v in tree.state.groupdict.items()}
        self.gcons = {}
        for g, c in (groups or {}).items():
            self.gcons[tree.state.groupdict.get(g, g)] = c
        self.marks = marks
        self.interesting = set()
        self.nfa = Nfa()
        n = self.nfa
        start = n.node()
        if how == 'search':
            n.add(start, 'c', lambda c: True, start)
        # 'c'-loops before the match count as outside of it
        a, b = self.seq(tree, 0)
        n.add(start, 'e', a)
        end = n.node()
        n.add(b, 'e', end)
        self.start, self.end = start, end
        if how != 'fullmatch':
            n.add(end, 'c', lambda c: True, end)

    # -- construction ----------------------------------------------------
    def frag(self):
        return self.nfa.node(), self.nfa.node()

    def char(self, pred):
        a, b = self.frag()
        if self.flags & _re.IGNORECASE:
            p = pred

            def pred(c):
                return p(c) or p(c.swapcase()) if len(c.swapcase()) == 1 \
                    else p(c)
        self.nfa.add(a, 'c', pred, b)
        return a, b

    def inset(self, items):
        neg = False
        preds = []
        for op, av in items:
            n = str(op)
            if n == 'NEGATE':
                neg = True
            elif n == 'LITERAL':
                self.interesting.add(av)
                preds.append(lambda c, v=chr(av): c == v)
            elif n == 'RANGE':
                lo, hi = av
                self.interesting.update((lo, hi))
                preds.append(lambda c, lo=lo, hi=hi: lo <= ord(c) <= hi)
            elif n == 'CATEGORY':
                preds.append(self.cat(str(av)))
            else:
                raise Unable(n)
        return lambda c: any(p(c) for p in preds) is not neg

    def cat(self, name):
        neg = 'NOT_' in name
        f = CATS.get(name.replace('NOT_', ''))
        if f is None:
            raise Unable(name)
        return lambda c: bool(f(c, self.ascii)) is not neg

    def seq(self, items, depth):
        a = self.nfa.node()
        cur = a
        for op, av in items:
            x, y = self.item(str(op), av, depth)
            self.nfa.add(cur, 'e', x)
            cur = y
        return a, cur

    def item(self, op, av, depth):
        n = self.nfa
        if op == 'LITERAL':
            self.interesting.add(av)
            return self.char(lambda c, v=chr(av): c == v)
        if op == 'NOT_LITERAL':
            self.interesting.add(av)
            return self.char(lambda c, v=chr(av): c != v)
        if op == 'ANY':
            if self.flags & _re.DOTALL:
                return self.char(lambda c: True)
            return self.char(lambda c: c != '\n')
        if op == 'IN':
            return self.char(self.inset(av))
        if op == 'BRANCH':
            a, b = self.frag()
            for alt in av[1]:
                x, y = self.seq(alt, depth)
                n.add(a, 'e', x)
                n.add(y, 'e', b)
            return a, b
        if op == 'SUBPATTERN':
            gid, inner = av[0], av[-1]
            if len(av) == 4 and (av[1] or av[2]):
                raise Unable('inline flags')
            con = self.gcons.get(gid)
            if con == 'empty':
                x, y = self.only_empty(inner)
            elif con == 'nonempty':
                x, y = self.nonempty(inner, depth)
            else:
                x, y = self.seq(inner, depth)
            if self.marks and gid in self.names:
                a, b = self.frag()
                n.add(a, 'm', '<' + self.names[gid], x)
                n.add(y, 'm', '>' + self.names[gid], b)
                return a, b
            return x, y
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, inner = av
            inf = str(hi) == 'MAXREPEAT' or hi > 60
            if lo > 60:
                raise Unable('large repetition')
            a = n.node()
            cur = a
            for _ in range(lo):
                x, y = self.seq(inner, depth + 1)
                n.add(cur, 'e', x)
                cur = y
            b = n.node()
            if inf:
                x, y = self.seq(inner, depth + 1)
                # in the order in which a matcher tries them
                for node in (cur, y):
                    for to in ((x, b) if op == 'MAX_REPEAT' else (b, x)):
                        n.add(node, 'e', to)
            else:
                for _ in range(hi - lo):
                    x, y = self.seq(inner, depth + 1)
                    for to in ((x, b) if op == 'MAX_REPEAT' else (b, x)):
                        n.add(cur, 'e', to)
                    cur = y
                n.add(cur, 'e', b)
            return a, b
        if op == 'AT':
            a, b = self.frag()
            k = str(av)
            if k in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                if self.flags & _re.MULTILINE and k == 'AT_BEGINNING':
                    n.add(a, 'g', ('prev', lambda p: p is None or p == '\n'),
                          b)
                else:
                    n.add(a, 'g', ('prev', lambda p: p is None), b)
            elif k == 'AT_END_STRING':
                n.add(a, 'g', ('end', 1), b)
            elif k == 'AT_END' and not self.flags & _re.MULTILINE:
                n.add(a, 'g', ('end', 2), b)
            else:
                raise Unable(k)
            return a, b
        if op in ('ASSERT', 'ASSERT_NOT') and av[0] == -1:
            inner = list(av[1])
            if len(inner) != 1:
                raise Unable('long lookbehind')
            iop, iav = str(inner[0][0]), inner[0][1]
            if iop == 'LITERAL':
                self.interesting.add(iav)
                pr = (lambda c, v=chr(iav): c == v)
            elif iop == 'NOT_LITERAL':
                self.interesting.add(iav)
                pr = (lambda c, v=chr(iav): c != v)
            elif iop == 'IN':
                pr = self.inset(iav)
            elif iop == 'ANY':
                pr = (lambda c: c != '\n')
            else:
                raise Unable('lookbehind')
            a, b = self.frag()
            if op == 'ASSERT':
                n.add(a, 'g', ('prev', lambda p: p is not None and pr(p)), b)
            else:
                n.add(a, 'g', ('prev', lambda p: p is None or not pr(p)), b)
            return a, b
        if op in ('ASSERT', 'ASSERT_NOT') and not list(av[1]):
            a, b = self.frag()
            if op == 'ASSERT':
                n.add(a, 'e', b)
            return a, b
        raise Unable(op)

    def only_empty(self, inner):
        a, b = self.frag()
        if min_width(inner) == 0:
            if has_guard(inner):
                raise Unable('guard in optional group')
            self.nfa.add(a, 'e', b)
        return a, b

    def nonempty(self, inner, depth):
        n = self.nfa
        base = len(n.edges)
        x, y = self.seq(inner, depth)
        top = len(n.edges)
        # second copy of the new nodes: something has been consumed
        for i in range(base, top):
            n.node()
        off = top - base
        for i in range(base, top):
            es = []
            for e in n.edges[i]:
                to = e[-1]
                n.edges[i + off].append(e[:-1] + (to + off,))
                es.append(e[:-1] + (to + off,) if e[0] == 'c' else e)
            n.edges[i] = es
        return x, y + off

    # -- simulation --------------------------------------------------------
    def closure(self, states, prev):
        """states: set of (node, ended)"""
        out = set(states)
        work = list(states)
        while work:
            node, ended = work.pop()
            for e in self.nfa.edges[node]:
                if e[0] == 'e':
                    nx = (e[1], ended)
                elif e[0] == 'g':
                    kind, v = e[1]
                    if kind == 'prev':
                        if not v(prev):
                            continue
                        nx = (e[2], ended)
                    else:
                        nx = (e[2], v if not ended else min(ended, v))
                elif e[0] == 'm' and not self.marks:
                    nx = (e[2], ended)
                else:
                    continue
                if nx not in out:
                    out.add(nx)
                    work.append(nx)
        return frozenset(out)

    def first(self):
        return self.closure({(self.start, 0)}, None), None

    def step(self, st, c):
        states, prev = st
        nxt = set()
        if len(c) > 1 or c in MARKERS:
            for node, ended in states:
                for e in self.nfa.edges[node]:
                    if e[0] == 'm' and e[1] == c:
                        nxt.add((e[2], ended))
            return self.closure(nxt, prev), prev
        for node, ended in states:
            if ended == 1 or ended == 2 and c != '\n':
                continue
            for e in self.nfa.edges[node]:
                if e[0] == 'c' and e[1](c):
                    nxt.add((e[2], 1 if ended else 0))
        # the previous character only matters through the guards
        return self.closure(nxt, c), c

    def accepts(self, st):
        return any(node == self.end for node, _ in st[0])

    def live(self, st):
        return bool(st[0])


MARKERS = set()


class Key:
    """identity of a simulation state in the product"""


def min_width(inner):
    return inner.getwidth()[0]


def has_guard(inner):
    for op, av in inner:
        n = str(op)
        if n in ('AT', 'ASSERT', 'ASSERT_NOT'):
            return True
        if n == 'SUBPATTERN' and has_guard(av[-1]):
            return True
        if n in ('MAX_REPEAT', 'MIN_REPEAT') and has_guard(av[2]):
            return True
        if n == 'BRANCH' and any(has_guard(x) for x in av[1]):
            return True
    return False


EXTRA = ['\xe9', '\xb2', '\u0663', '\xa0', '\u2603', '\u0130', '\u2028',
         '\ud800', '\U0010ffff', '\x85', '\xff', '\u01c5']


def alphabet(langs):
    pts = set()
    for l in langs:
        pts |= l.interesting
    byt = any(l.bytes for l in langs)
    cand = {chr(i) for i in range(256 if byt else 128)}
    for p in pts:
        for q in (p - 1, p, p + 1):
            if 0 <= q < (256 if byt else 0x110000):
                cand.add(chr(q))
    if not byt:
        cand.update(EXTRA)
    # merge characters no predicate distinguishes
    preds = []
    for l in langs:
        for es in l.nfa.edges:
            for e in es:
                if e[0] == 'c':
                    preds.append(e[1])
                elif e[0] == 'g' and e[1][0] == 'prev':
                    preds.append(e[1][1])
    classes = {}
    nice = 'abcxyz0123456789/ABC'
    for c in sorted(cand, key=lambda c: (nice.find(c) < 0, nice.find(c), c)):
        sig = tuple(bool(p(c)) for p in preds) + (c == '\n',)
        classes.setdefault(sig, c)
    marks = set()
    for l in langs:
        if l.marks:
            marks |= {e[1] for es in l.nfa.edges for e in es if e[0] == 'm'}
    return sorted(classes.values()), sorted(marks)


def witness(inside, outside=(), limit=60000):
    """a shortest text in all of inside and none of outside, or None"""
    langs = list(inside) + list(outside)
    chars, marks = alphabet(langs)
    k = len(inside)
    start = tuple(l.first() for l in langs)

    def key(st):
        return tuple(s for s in st)
    seen = {key(start)}
    queue = [(start, ())]
    i = 0
    memo = {}
    while i < len(queue):
        st, text = queue[i]
        i += 1
        if all(l.accepts(s) for l, s in zip(langs[:k], st)) and not any(
                l.accepts(s) for l, s in zip(langs[k:], st[k:])):
            return ''.join(text)
        for c in chars + marks:
            nx = []
            for j, (l, s) in enumerate(zip(langs, st)):
                mk = (j, s, c)
                r = memo.get(mk)
                if r is None:
                    r = l.step(s, c) if c in marks or len(c) == 1 else None
                    memo[mk] = r
                if j < k and not r[0]:
                    nx = None
                    break
                nx.append(r)
            if nx is None:
                continue
            nx = tuple(nx)
            kk = key(nx)
            if kk not in seen:
                seen.add(kk)
                queue.append((nx, text + (c,)))
                if len(seen) > limit:
                    raise Unable('too many states')
    return None


def subset(a, b):
    """None if L(a) is within L(b), else a text of a outside b"""
    return witness([a], [b])
