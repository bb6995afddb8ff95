"""Per-path fact domain: congruence (representatives), disequalities, boolean
atoms, type facts and a linear-inequality (polyhedra) domain."""
from fractions import Fraction
from .values import Term, Tup, is_scalar


class Lin:
    """sum(coef*term) + const"""
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c = {t: v for t, v in c.items() if v}
        self.k = k

    def __sub__(self, o):
        c = dict(self.c)
        for t, v in o.c.items():
            c[t] = c.get(t, 0) - v
        return Lin(c, self.k - o.k)

    def __add__(self, o):
        c = dict(self.c)
        for t, v in o.c.items():
            c[t] = c.get(t, 0) + v
        return Lin(c, self.k + o.k)

    def neg(self):
        return Lin({t: -v for t, v in self.c.items()}, -self.k)

    def scale(self, f):
        return Lin({t: v * f for t, v in self.c.items()}, self.k * f)

    def key(self):
        return (frozenset(self.c.items()), self.k)


def infeasible(cons, depth=0):
    """cons: list of (Lin, strict): Lin >= 0 (or > 0).  Fourier-Motzkin."""
    work = []
    seen = set()
    for L, s in cons:
        if not L.c:
            if L.k < 0 or (s and L.k == 0):
                return True
            continue
        key = (L.key(), s)
        if key not in seen:
            seen.add(key)
            work.append((L, s))
    if not work:
        return False
    if len(work) > 120 or depth > 12:
        return False
    count = {}
    for L, s in work:
        for t, v in L.c.items():
            p = count.setdefault(t, [0, 0])
            p[0 if v > 0 else 1] += 1
    t = min(count, key=lambda x: (count[x][0] * count[x][1], id(x)))
    pos = [(L, s) for L, s in work if L.c.get(t, 0) > 0]
    neg = [(L, s) for L, s in work if L.c.get(t, 0) < 0]
    rest = [(L, s) for L, s in work if not L.c.get(t, 0)]
    for P, ps in pos:
        for N, ns in neg:
            a, b = P.c[t], -N.c[t]
            rest.append((P.scale(b) + N.scale(a), ps or ns))
    return infeasible(rest, depth + 1)


class Facts:
    def __init__(self):
        self.rep = {}
        self.ne = set()
        self.truth = {}
        self.types = {}
        self.nottypes = {}
        self.lin = []
        self.nelin = []
        self.dom = {}
        self.iters = {}

    # -- congruence ------------------------------------------------------
    def norm(self, v):
        if isinstance(v, Term):
            seen = 0
            while v in self.rep:
                v = self.rep[v]
                seen += 1
                if not isinstance(v, Term) or seen > 50:
                    break
        return v

    def norm_deep(self, v):
        if not self.rep or not isinstance(v, (Term, Tup)):
            return v
        if isinstance(v, Tup):
            return Tup([self.norm_deep(i) for i in v.items])
        n = self.norm(v)
        if n is not v:
            return self.norm_deep(n) if isinstance(n, Term) else n
        if v.args:
            new = [self.norm_deep(a) if isinstance(a, (Term, Tup)) else a
                   for a in v.args]
            if any(a is not b for a, b in zip(new, v.args)):
                if v.op in FOLD and all(
                        isinstance(a, (str, bytes)) for a in new):
                    try:
                        return FOLD[v.op](*new)
                    except TypeError:
                        pass
                t = Term(v.op, new, v.ty)
                n = self.norm(t)
                return n
        return v

    # -- linear ----------------------------------------------------------
    def lin_of(self, v):
        v = self.norm(v)
        if isinstance(v, bool):
            return Lin({}, Fraction(int(v)))
        if isinstance(v, (int, float)):
            try:
                return Lin({}, Fraction(v))
            except (ValueError, OverflowError):
                return None
        if not isinstance(v, Term):
            return None
        if v.op == 'add':
            a, b = self.lin_of(v.args[0]), self.lin_of(v.args[1])
            return a + b if a and b else None
        if v.op == 'sub':
            a, b = self.lin_of(v.args[0]), self.lin_of(v.args[1])
            return a - b if a and b else None
        if v.op == 'neg':
            a = self.lin_of(v.args[0])
            return a.neg() if a else None
        if v.op == 'mul':
            a, b = self.lin_of(v.args[0]), self.lin_of(v.args[1])
            if a and b:
                if not a.c:
                    return b.scale(a.k)
                if not b.c:
                    return a.scale(b.k)
        if v.op == 'len':
            x = self.norm(v.args[0])
            if isinstance(x, (str, bytes)):
                return Lin({}, Fraction(len(x)))
            if x is not v.args[0]:
                v = Term('len', (x,), 'int')
            if isinstance(x, Term) and x.op == 'cat':
                out = Lin({}, Fraction(0))
                for p in x.args:
                    if isinstance(p, (str, bytes)):
                        out = out + Lin({}, Fraction(len(p)))
                    else:
                        q = self.lin_of(Term('len', (p,), 'int'))
                        out = out + q
                return out
        if v.ty in ('str', 'bytes', 'list', 'tuple', 'dict'):
            return None
        return Lin({v: Fraction(1)}, Fraction(0))

    def _implicit(self, L):
        out = []
        for t in L.c:
            if t.op in ('len', 'abs') or t.op == 'nat':
                k = -1 if t.op == 'len' and self.truth.get(
                    t.args[0]) is True else 0
                out.append((Lin({t: Fraction(1)}, Fraction(k)), False))
        return out

    def _tight(self, L, strict):
        if strict and all(t.ty == 'int' for t in L.c) and \
                all(v.denominator == 1 for v in L.c.values()) and \
                L.k.denominator == 1:
            return Lin(L.c, L.k - 1), False
        return L, strict

    def lin_entails(self, L, strict=False):
        """is L >= 0 (or > 0) implied?"""
        neg, s = self._tight(L.neg(), not strict)
        if not neg.c:
            return neg.k < 0 or (s and neg.k == 0)
        cons = list(self.lin) + [(neg, s)]
        imp = []
        for C, _ in cons:
            imp += self._implicit(C)
        if infeasible(cons + imp):
            return True
        if strict:
            # L >= 0 and L != 0
            for N in self.nelin:
                if N.key() == L.key() or N.neg().key() == L.key():
                    return self.lin_entails(L, False)
        return False

    def add_lin(self, L, strict=False):
        L, strict = self._tight(L, strict)
        self.lin.append((L, strict))

    def len_truth(self, t):
        """truth of a sized value as far as its length is constrained"""
        n = Term('len', (t,), 'int')
        if not any(n in C.c for C, _ in self.lin) and not any(
                n in N.c for N in self.nelin):
            return None
        L = Lin({n: Fraction(1)}, Fraction(0))
        if self.lin_entails(L, True):
            return True
        if self.lin_entails(L.neg()):
            return False
        return None

    def lin_consistent(self):
        cons = list(self.lin)
        imp = []
        for C, _ in cons:
            imp += self._implicit(C)
        return not infeasible(cons + imp)

    # -- equality --------------------------------------------------------
    def _lacks_any(self, t, s):
        from . import strdom
        if not self.truth:
            return False
        return any(strdom.lacks(t, s[i:i + 1], self) for i in range(len(s)))

    def _starts_otherwise(self, x, y):
        """the first character of x is never that of y"""
        from . import strdom
        while x.op == 'slice' and x.args[1] in (0, None) and isinstance(
                x.args[0], Term):
            x = x.args[0]
        if x.op == 'cat':
            x = x.args[0]
            if isinstance(x, (str, bytes)):
                return bool(x) and x[:1] != y[:1]
        return isinstance(x, Term) and self.truth.get(x) is True and \
            strdom.lacks(x, y[:1], self)

    def decide_eq(self, a, b):
        a, b = self.norm_deep(a), self.norm_deep(b)
        if a is b:
            return True
        sa, sb = is_scalar(a), is_scalar(b)
        if sa and sb:
            return a == b
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            res = True
            for x, y in zip(a.items, b.items):
                r = self.decide_eq(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if isinstance(a, Tup) and sb or isinstance(b, Tup) and sa:
            return False
        if not isinstance(a, Term) and not isinstance(b, Term):
            return None
        if (a, b) in self.ne or (b, a) in self.ne:
            return False
        ka, kb = _kind(self, a), _kind(self, b)
        if ka and kb and ka != kb and not (ka in NUM and kb in NUM):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == 'chars':
                return False
            if isinstance(x, Term) and x.op == 'cat' and any(
                    p is y for p in x.args) and any(
                    isinstance(p, (str, bytes)) and p for p in x.args):
                return False
            if isinstance(x, Term) and is_scalar(y):
                d = self.dom.get(x)
                if d is not None and y not in d:
                    return False
                if self.truth.get(x) is True and not y and \
                        not isinstance(y, float):
                    return False
                if self.truth.get(x) is False and y:
                    return False
                if isinstance(y, (str, bytes)) and (
                        str_never_eq(x, y) or y and len(y) <= 16 and
                        x.op in ('sym', 'item', 'slice', 'cat', 'm:strip',
                                 'm:lstrip', 'm:rstrip', 'm:upper',
                                 'm:lower') and
                        self._lacks_any(x, y) or
                        y and x.op in ('slice', 'cat') and
                        self._starts_otherwise(x, y)):
                    return False
        if ka in NUM or kb in NUM:
            L1, L2 = self.lin_of(a), self.lin_of(b)
            if L1 and L2:
                D = L1 - L2
                if not D.c:
                    return D.k == 0
                if self.lin:
                    ge = self.lin_entails(D)
                    le = self.lin_entails(D.neg())
                    if ge and le:
                        return True
                    if self.lin_entails(D, True) or \
                            self.lin_entails(D.neg(), True):
                        return False
        # the same function of both is known to differ
        for x, y in self.ne:
            if isinstance(x, Term) and isinstance(y, Term) and \
                    x.op == y.op and len(x.args) == len(y.args) and all(
                        p is q or p is a and q is b or p is b and q is a
                        for p, q in zip(x.args, y.args)):
                return False
        return None

    def renorm(self):
        nd = self.norm_deep
        self.ne = {(nd(x), nd(y)) for x, y in self.ne}
        for k in list(self.truth):
            n = nd(k)
            if n is not k and isinstance(n, Term):
                self.truth.setdefault(n, self.truth[k])
        for k in list(self.types):
            n = nd(k)
            if n is not k and isinstance(n, Term):
                self.types.setdefault(n, self.types[k])
        for k in list(self.nottypes):
            n = nd(k)
            if n is not k and isinstance(n, Term):
                self.nottypes.setdefault(n, []).extend(
                    self.nottypes[k])
        for k in list(self.dom):
            n = nd(k)
            if n is not k and isinstance(n, Term):
                self.dom.setdefault(n, self.dom[k])

    def assume_eq(self, a, b, val):
        a, b = self.norm_deep(a), self.norm_deep(b)
        if val:
            if isinstance(a, Tup) and isinstance(b, Tup):
                for x, y in zip(a.items, b.items):
                    self.assume_eq(x, y, True)
                return
            if not isinstance(a, Term):
                a, b = b, a
            if not isinstance(a, Term):
                return
            if isinstance(b, Term) and b.op == 'sym' and a.op != 'sym':
                a, b = b, a
            L1, L2 = self.lin_of(a), self.lin_of(b)
            if (_kind(self, a) in NUM or _kind(self, b) in NUM) and L1 and L2:
                D = L1 - L2
                if D.c:
                    self.lin.append((D, False))
                    self.lin.append((D.neg(), False))
            if not (isinstance(b, Term) and a in set(b.walk())):
                self.rep[a] = b
                self.renorm()
        else:
            self.ne.add((a, b))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and x in self.dom and is_scalar(y):
                    d = tuple(z for z in self.dom[x] if z != y
                              or type(z) is not type(y))
                    self.dom[x] = d
                    if len(d) == 1:
                        self.rep[x] = d[0]
            if _kind(self, a) in NUM or _kind(self, b) in NUM:
                L1, L2 = self.lin_of(a), self.lin_of(b)
                if L1 and L2:
                    self.nelin.append(L1 - L2)


NUM = ('int', 'float', 'bool')


def _folded(name):
    return lambda x, *a: getattr(x, name)(*a)


FOLD = {'m:' + n: _folded(n) for n in (
    'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize')}


def _kind(f, v):
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, Term):
        if isinstance(v.ty, str):
            return v.ty
        c = f.types.get(v)
        if c is not None and c.kind == 'builtin' and c.name in (
                'str', 'bytes', 'int', 'float', 'bool', 'tuple', 'list',
                'dict', 'set'):
            return c.name
    return None


def str_never_eq(t, s):
    """cheap refutation of  t == s  for a string term and a constant"""
    if t.op == 'cat':
        parts = t.args
        if len(s) < sum(len(p) for p in parts if isinstance(p, (str, bytes))):
            return True
        if isinstance(parts[0], type(s)) and not s.startswith(parts[0]):
            return True
        if isinstance(parts[-1], type(s)) and not s.endswith(parts[-1]):
            return True
        for p in parts:
            if isinstance(p, type(s)) and p not in s:
                return True
    if t.op == 'm:lower' and isinstance(s, str) and s != s.lower():
        return True
    if t.op == 'm:upper' and isinstance(s, str) and s != s.upper():
        return True
    return False
