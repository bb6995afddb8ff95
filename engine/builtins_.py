"""Models of the builtin types and functions over abstract values."""
import ast
import re as _re

from . import strops
from .values import *
from .facts import NUM, _kind
from .interp import (PyRaise, Unsupported, Pruned, KNONE, MISSING, _Stop,
                     KwName)


class ViewData:
    __slots__ = ('src', 'kind')

    def __init__(self, src, kind):
        self.src, self.kind = src, kind

    def copy(self):
        return self


def unk(k):
    return None if k is KNONE else k


def knk(k):
    return KNONE if k is None else k


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------
def cat(it, parts, ty='str'):
    out = []
    for p in parts:
        p = it.facts.norm(p)
        if isinstance(p, Term) and p.op == 'cat':
            sub = list(p.args)
        else:
            sub = [p]
        for q in sub:
            if isinstance(q, (str, bytes)):
                if not q:
                    continue
                if out and type(out[-1]) is type(q):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return '' if ty == 'str' else b''
    if len(out) == 1:
        return out[0]
    return Term('cat', out, ty)


def canon_int(it, v):
    """one representative for linear expressions that are the same"""
    if v.op not in ('add', 'sub'):
        return v
    L = it.facts.lin_of(v)
    if L is None or L.k.denominator != 1 or any(
            c not in (1, -1) for c in L.c.values()):
        return v
    if not L.c:
        return int(L.k)
    ts = sorted(L.c.items(), key=lambda x: (-x[1], repr(x[0])))
    r = None
    for t, c in ts:
        if r is None:
            r = t if c > 0 else Term('sub', (0, t), 'int')
        else:
            r = Term('add' if c > 0 else 'sub', (r, t), 'int')
    k = int(L.k)
    if k:
        r = Term('add' if k > 0 else 'sub', (r, abs(k)), 'int')
    return it.facts.norm(r)


def to_str(it, v):
    v = it.facts.norm(v)
    if isinstance(v, str):
        return v
    if is_scalar(v):
        return str(v)
    k = it.ty(v)
    if k == 'str' and not (isinstance(v, Obj)):
        return v
    if isinstance(v, Obj):
        m = it.user_method(v, '__str__')
        if m is not None:
            return it.call(it.bind(m, v), [])
        m = it.user_method(v, '__repr__')
        if m is not None:
            return it.call(it.bind(m, v), [])
        if v.cls.is_sub(it.b('BaseException')):
            a = v.attrs.get('args')
            if isinstance(a, Tup):
                if not a.items:
                    return ''
                if len(a.items) == 1:
                    if v.cls.is_sub(it.b('KeyError')):
                        return to_repr(it, a.items[0])
                    return to_str(it, a.items[0])
        return Term('str', (v,), 'str')
    if isinstance(v, Term):
        if v.ty == 'int':
            v = canon_int(it, v)
            if is_scalar(v):
                return str(v)
            if v.op == 'sub' and v.args[0] == 0:
                L = it.facts.lin_of(v)
                if L is not None and it.facts.lin_entails(L.neg(), True):
                    return cat(it, ['-', Term('str', (v.args[1],), 'str')],
                               'str')
            return Term('str', (v,), 'str')
        if v.ty == 'float':
            return Term('str', (v,), 'str')
        c = it.type_of(v)
        if c is not None and c.kind == 'builtin' and c.name == 'str':
            return v
        return Term('str', (v,), 'str')
    return Term('str', (v,), 'str') if isinstance(v, (Tup, FSet)) else \
        Term('str', (Term('obj', (v,)),), 'str')


def to_repr(it, v):
    v = it.facts.norm(v)
    if is_scalar(v):
        return repr(v)
    if isinstance(v, Obj):
        m = it.user_method(v, '__repr__')
        if m is not None:
            return it.call(it.bind(m, v), [])
    return Term('repr', (v if isinstance(v, (Term, Obj)) else
                         Term('obj', (v,)),), 'str')


def format_value(it, x, spec):
    x = it.facts.norm(x)
    if spec == '':
        return to_str(it, x)
    if is_scalar(x) and isinstance(spec, str):
        try:
            return format(x, spec)
        except (ValueError, TypeError) as e:
            it.raise_(type(e).__name__, str(e))
    if isinstance(spec, str) and spec in ('d', 's') and (
            spec == 'd' or it.ty(x) == 'str'):
        return to_str(it, x)
    return Term('fmt', (spec, x), 'str')


_pct = _re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)'
                   r'(?P<w>\d+|\*)?(?:\.(?P<p>\d+|\*))?(?P<c>[a-zA-Z%])')


def percent(it, fmt, arg):
    isb = isinstance(fmt, bytes)
    f = fmt.decode('latin1') if isb else fmt
    arg = it.facts.norm(arg)
    if isinstance(arg, Tup):
        vals = list(arg.items)
    else:
        vals = [arg]
    mapping = arg
    out, pos, n = [], 0, 0
    for m in _pct.finditer(f):
        lit = f[pos:m.start()]
        pos = m.end()
        out.append(lit.encode('latin1') if isb else lit)
        c = m.group('c')
        if c == '%':
            out.append(b'%' if isb else '%')
            continue
        if m.group('key') is not None:
            v = it.getitem(mapping, m.group('key'))
        else:
            if n >= len(vals):
                it.raise_('TypeError', 'not enough arguments for format '
                          'string')
            v = it.facts.norm(vals[n])
            n += 1
        spec = m.group(0)
        if m.group('key') is not None:
            spec = '%' + spec[spec.index(')') + 1:]
        if c == 's' and not m.group('w') and not m.group('p'):
            if isb:
                out.append(v)
            else:
                out.append(to_str(it, v))
        elif c == 'r' and not m.group('w'):
            out.append(to_repr(it, v))
        elif is_scalar(v):
            try:
                r = spec % v
            except (TypeError, ValueError) as e:
                it.raise_(type(e).__name__, str(e))
            out.append(r.encode('latin1') if isb else r)
        else:
            t = it.ty(v)
            if c in 'dixXof' and t in ('str', 'bytes', 'list', 'dict',
                                       'tuple', 'NoneType'):
                it.raise_('TypeError', '%%%s format: a number is required'
                          % c)
            if c in 'di' and not m.group('w') and not m.group('p') and \
                    t == 'int':
                out.append(to_str(it, v))
            else:
                out.append(Term('fmt', (spec, v), 'bytes' if isb else 'str'))
    if m_left(vals, n, arg):
        it.raise_('TypeError', 'not all arguments converted during string '
                  'formatting')
    lit = f[pos:]
    out.append(lit.encode('latin1') if isb else lit)
    return cat(it, out, 'bytes' if isb else 'str')


def m_left(vals, n, arg):
    if isinstance(arg, Tup):
        return n < len(vals)
    if isinstance(arg, Obj) or isinstance(arg, Term) and n == 0:
        return False
    return n < 1


def str_format(it, fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = _string_split(field)
        if first == '':
            v = args[auto] if auto < len(args) else it.raise_('IndexError')
            auto += 1
        elif isinstance(first, int):
            v = args[first]
        else:
            if first not in kwargs:
                it.raise_('KeyError', first)
            v = kwargs[first]
        for is_attr, name in rest:
            v = it.getattr(v, name) if is_attr else it.getitem(v, name)
        if spec and '{' in spec:
            spec = str_format(it, spec, args[auto:], kwargs)
        if conv == 'r':
            v = to_repr(it, v)
        elif conv == 's':
            v = to_str(it, v)
        out.append(format_value(it, v, spec or ''))
    return cat(it, out)


def _string_split(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return first, list(rest)


STR_TY = {
    'lower': 'str', 'upper': 'str', 'strip': 'str', 'lstrip': 'str',
    'rstrip': 'str', 'replace': 'str', 'title': 'str', 'capitalize': 'str',
    'split': 'list', 'rsplit': 'list', 'splitlines': 'list',
    'encode': 'bytes', 'decode': 'str', 'startswith': 'bool',
    'endswith': 'bool', 'find': 'int', 'rfind': 'int', 'index': 'int',
    'rindex': 'int', 'count': 'int', 'isdigit': 'bool', 'isalpha': 'bool',
    'isalnum': 'bool', 'isspace': 'bool', 'isupper': 'bool',
    'islower': 'bool', 'isdecimal': 'bool', 'isnumeric': 'bool',
    'partition': 'tuple', 'rpartition': 'tuple', 'zfill': 'str',
    'ljust': 'str', 'rjust': 'str', 'center': 'str', 'swapcase': 'str',
    'casefold': 'str', 'translate': 'str', 'expandtabs': 'str',
    'join': 'str', 'format': 'str', 'removeprefix': 'str',
    'removesuffix': 'str', 'isascii': 'bool', 'isidentifier': 'bool',
    'isprintable': 'bool', 'format_map': 'str', 'hex': 'str',
    'maketrans': 'dict', 'istitle': 'bool',
}
STR_DUNDER = {'__len__', '__getitem__', '__contains__', '__iter__', '__eq__',
              '__ne__', '__add__', '__mod__', '__mul__', '__hash__',
              '__str__', '__repr__', '__lt__', '__le__', '__gt__', '__ge__',
              '__format__', '__new__', '__init__', '__rmul__'}


def call_str(it, kind, name, args, kwargs):
    self = it.facts.norm(args[0])
    rest = [it.facts.norm(a) for a in args[1:]]
    kw = {k: it.facts.norm(v) for k, v in kwargs.items()}
    if name in STR_DUNDER:
        return str_dunder(it, kind, name, self, rest)
    if name == 'join':
        return join(it, self, rest[0], kind)
    if name == 'format' and isinstance(self, str):
        return str_format(it, self, rest, kw)
    hostable = isinstance(self, (str, bytes)) and all(
        is_scalar(a) or isinstance(a, Tup) and all(is_scalar(i) for i in
                                                   a.items)
        for a in list(rest) + list(kw.values()))
    if hostable:
        ra = [a.items if isinstance(a, Tup) else a for a in rest]
        try:
            r = getattr(self, name)(*ra, **kw)
        except PyRaise:
            raise
        except Exception as e:
            host_raise(it, e)
        return from_host(it, r)
    if name in ('encode', 'decode'):
        return codec(it, name, self, rest, kw)
    if not isinstance(self, (str, bytes, Term)):
        it.raise_('TypeError', 'descriptor requires %s' % kind)
    ty = STR_TY.get(name)
    # same-kind result for bytes receivers
    if kind == 'bytes' and ty == 'str':
        ty = 'bytes'
    if kw:
        # normalise keywords of split & co
        order = {'split': ['sep', 'maxsplit'], 'rsplit': ['sep', 'maxsplit'],
                 'splitlines': ['keepends']}.get(name, [])
        defaults = {'sep': None, 'maxsplit': -1, 'keepends': False}
        for i, n in enumerate(order):
            if i >= len(rest):
                rest.append(kw.get(n, defaults[n]))
    # type errors between str and bytes
    for a in rest:
        ta = it.ty(a)
        if ta in ('str', 'bytes') and ta != kind and name not in (
                'encode', 'decode'):
            it.raise_('TypeError', '%s.%s() argument must be %s, not %s'
                      % (kind, name, kind, ta))
        if name in ('strip', 'lstrip', 'rstrip', 'startswith', 'endswith',
                    'replace') and ta in ('int', 'list', 'dict'):
            it.raise_('TypeError', 'bad argument for %s' % name)
    if name in ('startswith', 'endswith'):
        return affix(it, name, self, rest)
    if name in ('lower', 'upper', 'casefold') and isinstance(self, Term):
        op = 'm:' + ('lower' if name == 'casefold' else name)
        if self.op == op:
            return self
        if self.op in ('m:lower', 'm:upper'):
            return Term(op, (self.args[0],), self.ty)
        if self.op == 'cat':
            return cat(it, [getattr(p, name)() if isinstance(p, (str, bytes))
                            else call_str(it, kind, name, [p], {})
                            for p in self.args], kind)
        from . import rexmatch
        am = rexmatch.Atom(it, self).mask
        if not am >> 128 and not am & CASED[op]:
            return self
        t = Term(op, (self,), kind)
        if it.facts.truth.get(self) is not None:
            it.facts.truth[t] = it.facts.truth[self]
        return t
    if name == 'replace' and isinstance(self, Term) and len(rest) == 2 and \
            isinstance(rest[0], (str, bytes)) and len(rest[0]) == 1:
        if self.op == 'cat':
            return cat(it, [call_str(it, kind, 'replace', [p] + rest, {})
                            for p in self.args], kind)
        from . import strdom
        if strdom.lacks(self, rest[0], it.facts):
            return self
        if rest[0] == rest[1]:
            return self
    if name == 'replace' and isinstance(self, Term) and len(rest) == 2 and \
            isinstance(rest[0], (str, bytes)) and len(rest[0]) > 1 and \
            isinstance(rest[1], (str, bytes)):
        # no occurrence can touch an atom that lacks all its characters
        from . import strdom
        if all(isinstance(p, (str, bytes)) or all(
                strdom.lacks(p, rest[0][i:i + 1], it.facts)
                for i in range(len(rest[0])))
                for p in strops.parts_of(self)):
            return cat(it, [p.replace(*rest) if isinstance(p, (str, bytes))
                            else p for p in strops.parts_of(self)], kind)
    if name in ('strip', 'lstrip', 'rstrip') and isinstance(self, Term):
        if self.op == 'm:' + name and list(self.args[1:]) == rest:
            return self
        if self.op == 'm:strip' and list(self.args[1:]) == rest:
            return self
        r = strops.strip(it, kind, name, self, rest)
        if r is not None:
            return r
    if name in CHARPRED and kind == 'str' and isinstance(self, Term):
        r = char_pred(it, name, self)
        if r is not None:
            return r
    if name in ('split', 'rsplit', 'partition', 'rpartition') and \
            isinstance(self, Term):
        r = strops.split(it, kind, name, self, rest)
        if r is not None:
            return r
    if name == 'splitlines' and isinstance(self, Term):
        r = strops.splitlines(it, kind, self, bool(rest) and it.truth(
            rest[0]))
        if r is not None:
            return r
    if name in ('removeprefix', 'removesuffix') and rest:
        op = 'startswith' if name == 'removeprefix' else 'endswith'
        if not it.truth(affix(it, op, self, rest)):
            return self
        n = length(it, rest[0])
        if op == 'startswith':
            return getitem(it, it.facts.norm(self), SliceV(n, None, None))
        n = it.facts.norm(binop(it, ast.Sub(), length(it, self), n))
        return getitem(it, it.facts.norm(self), SliceV(None, n, None))
    if name in ('index', 'rindex'):
        it.maybe_raise('ValueError', 'str.index')
    if name in ('split', 'rsplit') and rest and rest[0] == '':
        it.raise_('ValueError', 'empty separator')
    if name == 'translate' and rest and isinstance(rest[0], Obj):
        tab = tuple((unk(k), v) for k, v in rest[0].data.items.items())
        return Term('m:translate', (self, Tup([Tup(p) for p in tab])), kind)
    while rest and rest[-1] is None and name in ('strip', 'lstrip', 'rstrip',
                                                 'split', 'rsplit'):
        rest.pop()
    return Term('m:' + name, [self] + rest, ty)


CHARPRED = ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum',
            'isspace')
_PREDMASK = {}


def char_pred(it, name, v):
    """predicate on all characters of a concatenation; None: open"""
    from . import rexmatch
    m = _PREDMASK.get(name)
    if m is None:
        bits = bytearray(0x110000 // 8)
        for c in range(0x110000):
            if getattr(chr(c), name)():
                bits[c >> 3] |= 1 << (c & 7)
        m = _PREDMASK[name] = int.from_bytes(bits, 'little')
    some, sure = False, True
    for p in (v.args if v.op == 'cat' else [v]):
        if isinstance(p, str):
            if p and not getattr(p, name)():
                return False
            some = some or bool(p)
            continue
        ne = strops.nonempty(it, p)
        try:
            a = rexmatch.Atom(it, p)
            if not a.mask & m:
                r = False
            else:
                r = True if not a.mask & ~m else None
        except rexmatch.Unable:
            r = None
        if r is False and ne:
            return False
        if r is not True:
            sure = False
        some = some or ne
    return True if sure and some else None


def affix(it, name, self, rest):
    pre = rest[0]
    if isinstance(self, Term) and self.op == 'cat':
        self = cat(it, self.args, self.ty)
        if not isinstance(self, Term) and isinstance(pre, (str, bytes)):
            return getattr(self, name)(*rest)
    if isinstance(pre, Tup):
        return any(it.truth(affix(it, name, self, [p] + rest[1:]))
                   for p in pre.items)
    if pre in ('', b''):
        return True
    if len(rest) == 1:
        if self is pre:
            return True
        if self in ('', b'') and isinstance(pre, Term) and \
                pre.ty in ('str', 'bytes'):
            return it.eq(pre, self)
        if isinstance(self, Term) and isinstance(pre, (str, bytes)) and \
                self.op in ('m:strip', 'm:lstrip' if name == 'startswith'
                            else 'm:rstrip') and len(self.args) == 2 and \
                isinstance(self.args[1], (str, bytes)) and (
                    pre[:1] if name == 'startswith' else pre[-1:]) in \
                self.args[1]:
            return False
        r = strops.affix(it, name, self, pre)
        if isinstance(r, bool):
            return r
        if r is not None:
            q = affix_split(it, name, *r)
            return Term('m:' + name, list(r), 'bool') if q is None else q
        q = affix_split(it, name, self, pre)
        if q is not None:
            return q
    return Term('m:' + name, [self] + rest, 'bool')


def affix_split(it, name, v, pre):
    """an unknown part followed by a separator it cannot contain"""
    from . import strdom
    if not (isinstance(v, Term) and v.op == 'cat' and
            isinstance(pre, (str, bytes)) and pre):
        return None
    a = list(v.args)
    left = name == 'startswith'
    x, c = (a[0], a[1]) if left else (a[-1], a[-2])
    if isinstance(x, (str, bytes)) or not isinstance(c, (str, bytes)):
        return None
    ch = c[:1] if left else c[-1:]
    if type(ch) is not type(pre) or not strdom.lacks(x, ch, it.facts):
        return None
    if ch not in pre:
        return affix(it, name, x, [pre])
    kind = 'str' if isinstance(pre, str) else 'bytes'
    if left:
        i = pre.index(ch)
        if not it.eq(x, pre[:i]):
            return False
        return affix(it, name, cat(it, a[1:], kind), [pre[i:]])
    i = pre.rindex(ch) + 1
    if not it.eq(x, pre[i:]):
        return False
    return affix(it, name, cat(it, a[:-1], kind), [pre[:i]])


CASED = {'m:lower': sum(1 << c for c in range(65, 91)),
         'm:upper': sum(1 << c for c in range(97, 123))}


def encodable(it, v, enc):
    """every character of the string is in the (single byte) charset"""
    from . import rexmatch
    top = {'latin-1': 256, 'ascii': 128}.get(enc)
    if top is None:
        return False
    for p in (v.args if isinstance(v, Term) and v.op == 'cat' else [v]):
        if isinstance(p, str):
            if any(ord(c) >= top for c in p):
                return False
        elif not isinstance(p, Term) or rexmatch.Atom(it, p).mask >> top:
            return False
    return True


ASCII_LIKE = ('latin-1', 'utf-8', 'ascii')


def ascii_pair(it, p, name, enc):
    """undoing a codec with another one, on plain ASCII text"""
    from . import rexmatch
    return isinstance(p, Term) and p.op in ('m:encode', 'm:decode') and \
        p.op != 'm:' + name and p.args[1] in ASCII_LIKE and \
        enc in ASCII_LIKE and isinstance(p.args[0], Term) and \
        p.args[0].ty in ('str', 'bytes') and \
        not rexmatch.Atom(it, p.args[0]).mask >> 128


def codec(it, name, self, rest, kw):
    enc = rest[0] if rest else kw.get('encoding', 'utf-8')
    err = rest[1] if len(rest) > 1 else kw.get('errors', 'strict')
    if isinstance(enc, str):
        enc = enc.lower().replace('_', '-')
        enc = {'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'utf8': 'utf-8',
               'l1': 'latin-1'}.get(enc, enc)
    if isinstance(self, Term) and self.op in ('m:encode', 'm:decode') and \
            self.op != 'm:' + name and self.args[1] == enc and \
            (enc == 'latin-1' or name == 'decode' and
             self.args[2] == 'strict'):
        return self.args[0]
    if ascii_pair(it, self, name, enc):
        return self.args[0]
    if enc == 'idna' and name == 'decode' and isinstance(self, Term):
        # a label without the prefix 'xn--' is plain text
        from . import rexmatch
        m = rexmatch.Atom(it, self).mask
        if not m >> 128 and not m >> 45 & 1 and not m >> 46 & 1:
            enc = 'ascii'
            if ascii_pair(it, self, name, enc):
                return self.args[0]
    if name == 'encode' and err in ('replace', 'ignore') and enc in (
            'latin-1', 'ascii') and isinstance(self, Term) and \
            encodable(it, self, enc):
        err = 'strict'
    if err == 'strict' or isinstance(err, Term):
        if not (enc == 'latin-1' and name == 'decode') and not (
                enc == 'utf-8' and name == 'encode') and not (
                    name == 'encode' and encodable(it, self, enc)):
            it.maybe_raise('UnicodeEncodeError' if name == 'encode' else
                           'UnicodeDecodeError', '%s(%s)' % (name, enc),
                           key=(name, self, enc))
    if isinstance(self, Term) and self.op == 'cat':
        ps = strops.codec(it, name, self.args, enc, err)
        if ps is not None:
            out = []
            for p in ps:
                if isinstance(p, Term):
                    if p.op in ('m:encode', 'm:decode') and p.op != \
                            'm:' + name and p.args[1] == enc and (
                                enc == 'latin-1' or name == 'decode' and
                                p.args[2] == 'strict'):
                        p = p.args[0]
                    elif ascii_pair(it, p, name, enc):
                        p = p.args[0]
                    else:
                        p = Term('m:' + name, (p, enc, err), 'bytes' if
                                 name == 'encode' else 'str')
                out.append(p)
            return cat(it, out, 'bytes' if name == 'encode' else 'str')
    t = Term('m:' + name, (self, enc, err), 'bytes' if name == 'encode'
             else 'str')
    if isinstance(self, Term) and self in it.facts.truth and enc in (
            'latin-1', 'utf-8'):
        it.facts.truth[t] = it.facts.truth[self]
    return t


def str_dunder(it, kind, name, self, rest):
    if name == '__len__':
        return length(it, self)
    if name == '__getitem__':
        return getitem(it, self, rest[0])
    if name == '__contains__':
        return it.contains(self, rest[0])
    if name == '__iter__':
        return it.iter_(self)
    if name == '__eq__':
        return it.eq(self, rest[0])
    if name == '__ne__':
        return not it.eq(self, rest[0])
    if name == '__add__':
        return binop(it, ast.Add(), self, rest[0])
    if name == '__mod__':
        return binop(it, ast.Mod(), self, rest[0])
    if name == '__hash__':
        return Term('hash', (self,), 'int')
    if name == '__str__':
        return self
    if name == '__repr__':
        return to_repr(it, self)
    if name == '__lt__':
        return it.less(self, rest[0])
    raise Unsupported('str.%s' % name)


def join(it, sep, seq, kind):
    seq = it.facts.norm(seq)
    if isinstance(seq, Term) and it.ty(seq) not in ('str', 'tuple'):
        if sep == '' or True:
            if it.facts.iters.get(seq, [0, None])[1] is None:
                return Term('join', (sep, seq), kind)
    if isinstance(seq, IterV) and isinstance(seq.src, Term) and False:
        pass
    items = list(it.iterate(seq))
    out = []
    for i, x in enumerate(items):
        x = it.facts.norm(x)
        tx = it.ty(x)
        if tx is not None and tx != kind and not (kind == 'bytes' and
                                                  tx == 'bytearray'):
            it.raise_('TypeError', 'sequence item %d: expected %s instance, '
                      '%s found' % (i, kind, tx))
        if i:
            out.append(sep)
        out.append(x)
    return cat(it, out, kind)


def host_raise(it, e):
    n = type(e).__name__
    if n in it.prog.builtins:
        if n in ('UnicodeDecodeError', 'UnicodeEncodeError'):
            it.raise_(n, *[a for a in e.args if is_scalar(a)])
        it.raise_(n, *[a for a in e.args if is_scalar(a)])
    raise Unsupported('host raised %r' % (e,))


def from_host(it, v):
    if is_scalar(v):
        return v
    if isinstance(v, tuple):
        return Tup([from_host(it, i) for i in v])
    if isinstance(v, list):
        return it.mk_list([from_host(it, i) for i in v])
    if isinstance(v, dict):
        return it.mk_dict({knk(from_host(it, k)): from_host(it, x)
                           for k, x in v.items()})
    if isinstance(v, frozenset):
        return FSet(v)
    if isinstance(v, set):
        return it.mk_set([from_host(it, i) for i in v])
    raise Unsupported('host value %r' % (v,))


# --------------------------------------------------------------------------
# arithmetic
# --------------------------------------------------------------------------
_HOST = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
         ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
         ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
         ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b,
         ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
         ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}
_OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div',
        ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
        ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
        ast.LShift: 'lshift', ast.RShift: 'rshift'}
_DUN = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
        ast.Div: '__truediv__', ast.Mod: '__mod__', ast.BitAnd: '__and__',
        ast.BitOr: '__or__', ast.BitXor: '__xor__',
        ast.FloorDiv: '__floordiv__'}


def binop(it, op, a, b):
    k = type(op)
    if is_scalar(a) and is_scalar(b) and not (
            k is ast.Mod and isinstance(a, (str, bytes))):
        try:
            return _HOST[k](a, b)
        except Exception as e:
            host_raise(it, e)
    if k is ast.Mod and isinstance(a, (str, bytes)):
        return percent(it, a, b)
    ta, tb = it.ty(a), it.ty(b)
    if isinstance(a, Obj):
        m = it.user_method(a, _DUN.get(k, '?'))
        if m is not None:
            r = it.call(it.bind(m, a), [b])
            if r is not NOTIMPL:
                return r
    if isinstance(b, Obj):
        m = it.user_method(b, _DUN.get(k, '__?').replace('__', '__r', 1))
        if m is not None:
            r = it.call(it.bind(m, b), [a])
            if r is not NOTIMPL:
                return r
    if k in (ast.Add, ast.Mult) and 'bytearray' in (ta, tb):
        # known contents: the value of the result is what matters
        def val(x):
            if isinstance(x, Obj) and x.cls.name == 'bytearray':
                return x.attrs.get('val', x)
            return x
        va, vb = val(a), val(b)
        if it.ty(va) != 'bytearray' and it.ty(vb) != 'bytearray':
            r = binop(it, op, va, vb)
            if ta == 'bytearray' or tb == 'bytearray' and ta != 'bytes':
                r = Obj(it.b('bytearray'), {'val': r})
            return r
    if k is ast.Add:
        if ta in ('str', 'bytes') or tb in ('str', 'bytes'):
            if ta and tb and ta != tb:
                it.raise_('TypeError', 'can only concatenate %s to %s'
                          % (ta, tb))
            for x, t in ((a, ta), (b, tb)):
                if t is None and isinstance(x, Term):
                    it.facts.types.setdefault(x, it.b(ta or tb))
            return cat(it, [a, b], ta or tb)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Obj) and isinstance(a.data, ListData):
            if isinstance(b, Obj) and isinstance(b.data, ListData):
                return it.mk_list(a.data.items + b.data.items)
            if isinstance(b, Term) and tb in (None, 'list'):
                return it.mk_list(a.data.items + list(it.iterate(b)))
            it.raise_('TypeError', 'can only concatenate list')
        if isinstance(b, Obj) and isinstance(b.data, ListData) and \
                isinstance(a, Term):
            return it.mk_list(list(it.iterate(a)) + b.data.items)
        if ta == 'tuple' or tb == 'tuple':
            if isinstance(a, Tup) and isinstance(b, Term) or \
                    isinstance(b, Tup) and isinstance(a, Term):
                return Term('tupcat', (a, b), 'tuple')
            if ta and tb and ta != tb:
                it.raise_('TypeError', 'can only concatenate tuple')
    if k is ast.Mult and (ta in ('str', 'bytes', 'list') or
                          tb in ('str', 'bytes', 'list')):
        for x, n in ((a, b), (b, a)):
            if isinstance(n, int) and isinstance(x, Obj) and \
                    isinstance(x.data, ListData):
                return it.mk_list(x.data.items * n)
            if isinstance(n, int) and isinstance(x, Tup):
                return Tup(x.items * n)
            if isinstance(n, int) and isinstance(x, Term):
                return cat(it, [x] * n, it.ty(x))
        return Term('mul', (a, b), ta if ta in ('str', 'bytes') else tb)
    if k in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor) and (
            is_set(a) or is_set(b)):
        return set_op(it, k, a, b)
    if k is ast.BitOr and isinstance(a, Obj) and isinstance(
            a.data, DictData) and isinstance(b, Obj) and isinstance(
            b.data, DictData):
        o = it.mk_dict()
        dict_update(it, o, a)
        dict_update(it, o, b)
        return o
    if k is ast.BitOr and isinstance(a, ClassV) and isinstance(b, ClassV):
        return Term('union', (a, b))
    for x, t in ((a, ta), (b, tb)):
        if t in ('NoneType', 'dict', 'function', 'type') and not isinstance(
                x, Term):
            it.raise_('TypeError', 'unsupported operand %s for %s'
                      % (t, _OPN.get(k)))
    if ta and tb and {ta, tb} <= {'str', 'bytes', 'int', 'float', 'list',
                                  'tuple', 'bool'}:
        if (ta in NUM) != (tb in NUM) and k is not ast.Mod:
            it.raise_('TypeError', 'unsupported operand types %s %s'
                      % (ta, tb))
        if ta not in NUM and tb not in NUM and k is not ast.Add:
            it.raise_('TypeError', 'unsupported operand types %s %s'
                      % (ta, tb))
    if k in (ast.Div, ast.FloorDiv, ast.Mod):
        if it.eq(b, 0):
            it.raise_('ZeroDivisionError', 'division by zero')
    if k is ast.Add:
        if b == 0 and is_scalar(b):
            return a
        if a == 0 and is_scalar(a):
            return b
    if k is ast.Sub and is_scalar(b) and b == 0:
        return a
    if k is ast.Mult:
        if is_scalar(b) and b == 1 and not isinstance(b, bool):
            return a
        if is_scalar(a) and a == 1 and not isinstance(a, bool):
            return b
    ty = None
    if ta in NUM and tb in NUM:
        ty = 'float' if 'float' in (ta, tb) or k is ast.Div else 'int'
    elif ta in NUM or tb in NUM:
        ty = None
    if k is ast.Mod and ta == 'str':
        return Term('pct', (a, b), 'str')
    if any(isinstance(x, (IterV, SliceV)) for x in (a, b)):
        it.raise_('TypeError', 'unsupported operand')
    return Term(_OPN[k], (a, b), ty)


def is_set(v):
    return isinstance(v, FSet) or isinstance(v, Obj) and \
        isinstance(v.data, (SetData, ViewData))


def set_items(it, v):
    return list(it.iterate(v))


def set_op(it, k, a, b):
    if isinstance(a, FSet) and isinstance(b, FSet):
        return FSet(_HOST[k](a.items, b.items))
    if not (is_set(a) or isinstance(a, Term)) or not (
            is_set(b) or isinstance(b, Term)):
        it.raise_('TypeError', 'unsupported operand for set')
    return set_combine(it, k, a, b)


def set_combine(it, k, a, b):
    """union/intersection/difference with symbolic members allowed"""
    if isinstance(b, Term) or isinstance(a, Term):
        return Term('setop:' + _OPN[k], (as_setterm(it, a),
                                         as_setterm(it, b)), 'set')
    bad = [v for v in (a, b) if isinstance(v, Obj) and isinstance(
        v.data, SetData) and any(isinstance(i, Term) and i.op == 'chars'
                                 for i in v.data.items)]
    if bad:
        return Term('setop:' + _OPN[k], (as_setterm(it, a),
                                         as_setterm(it, b)), 'set')
    xs, ys = set_items(it, a), set_items(it, b)
    res = it.mk_set()
    if k is ast.BitOr:
        for x in xs + ys:
            it.set_add(res, x)
    else:
        ysd = it.mk_set(ys)
        for x in xs:
            inn = it.set_has(ysd.data, x)
            if k is ast.BitAnd and inn or k is not ast.BitAnd and not inn:
                it.set_add(res, x)
        if k is ast.BitXor:
            xsd = it.mk_set(xs)
            for y in ys:
                if not it.set_has(xsd.data, y):
                    it.set_add(res, y)
    if isinstance(a, FSet) and all(is_scalar(i) for i in res.data.items):
        return FSet(res.data.items)
    return res


def as_setterm(it, v):
    if isinstance(v, Term):
        return v
    if isinstance(v, FSet):
        return v
    items = set_items(it, v)
    if all(is_scalar(i) for i in items):
        return FSet(items)
    return Term('setof', items, 'set')


# --------------------------------------------------------------------------
# items
# --------------------------------------------------------------------------
def length(it, v):
    v = it.facts.norm(v)
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, (Tup, FSet)):
        return len(v.items)
    if isinstance(v, Obj):
        m = it.user_method(v, '__len__')
        if m is not None:
            return it.call(it.bind(m, v), [])
        d = v.data
        if isinstance(d, DictData) and d.open:
            return Term('len', (Term('obj', (v,)),), 'int')
        if isinstance(d, (ListData, DictData, SetData)):
            return len(d.items)
        if isinstance(d, ViewData):
            return length(it, d.src)
        for c in v.cls.mro:
            if c.kind == 'ext':
                return Term('len', (Term('obj', (v,)),), 'int')
        if v.open:
            return Term('len', (Term('obj', (v,)),), 'int')
        it.raise_('TypeError', 'object of type %s has no len()' % v.cls.name)
    if isinstance(v, Term):
        k = _kind(it.facts, v)
        if k in ('int', 'float', 'bool', 'none'):
            it.raise_('TypeError', 'object of type %s has no len()' % k)
        rec = it.facts.iters.get(v)
        if rec is not None and rec[1] is not None:
            return rec[1]
        if k is None and not isinstance(v.ty, str):
            if it.would_catch(it.exc_class('TypeError')):
                if not it.truth_term(Term('sized', (v,), 'bool')):
                    it.raise_('TypeError', 'object has no len()')
        if v.op == 'cat':
            n = 0
            out = None
            for p in v.args:
                if isinstance(p, (str, bytes)):
                    n += len(p)
                else:
                    q = Term('len', (p,), 'int')
                    out = q if out is None else Term('add', (out, q), 'int')
            return Term('add', (out, n), 'int') if n else out
        return Term('len', (v,), 'int')
    if v is None or is_scalar(v) or isinstance(v, (IterV, Func, Bound,
                                                   ClassV, HostFunc)):
        it.raise_('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


def idx(it, n, k, what='list'):
    """resolve a constant index into a sequence of known length"""
    if isinstance(k, bool):
        k = int(k)
    if not isinstance(k, int):
        it.raise_('TypeError', '%s indices must be integers' % what)
    if k < -n or k >= n:
        it.raise_('IndexError', '%s index out of range' % what)
    return k


def sym_index(it, n, k, what='list'):
    """symbolic integer index: case split over the positions"""
    k = it.facts.norm(k)
    if isinstance(k, int):
        return idx(it, n, k, what)
    if isinstance(k, Term) and _kind(it.facts, k) in ('int', None):
        for i in range(-n, n):
            if it.eq(k, i):
                return i
        it.raise_('IndexError', '%s index out of range' % what)
    it.raise_('TypeError', 'indices must be integers')


def host_slice(it, n, s):
    vals = []
    for i, x in enumerate((s.a, s.b, s.c)):
        x = it.facts.norm(x)
        if x is None or isinstance(x, int):
            vals.append(x)
        elif isinstance(x, Term):
            # case split on clamped positions
            lo, hi = -n - 1, n + 1
            for j in range(0, n + 1):
                if it.eq(x, j):
                    vals.append(j)
                    break
            else:
                if it.less(x, 0):
                    for j in range(1, n + 1):
                        if it.eq(x, -j):
                            vals.append(-j)
                            break
                    else:
                        vals.append(-n - 1)
                else:
                    vals.append(n + 1)
        else:
            it.raise_('TypeError', 'slice indices must be integers')
    return slice(*vals)


def getitem(it, o, k):
    if isinstance(k, SliceV) and isinstance(o, (str, bytes)) and not o:
        return o
    if isinstance(o, Obj):
        m = it.user_method(o, '__getitem__')
        if m is not None:
            return it.call(it.bind(m, o), [k])
        d = o.data
        if isinstance(d, ListData):
            if isinstance(k, SliceV):
                return it.mk_list(d.items[host_slice(it, len(d.items), k)])
            return d.items[sym_index(it, len(d.items), k)]
        if isinstance(d, DictData):
            kk = it.find_key(o, k)
            if kk is None:
                mm = it.user_method(o, '__missing__')
                if mm is not None:
                    return it.call(it.bind(mm, o), [k])
                if 'default_factory' in o.attrs and o.cls.name == \
                        'defaultdict':
                    v = it.call(o.attrs['default_factory'], [])
                    it.dict_set(o, k, v)
                    return v
                it.raise_('KeyError', k)
            return d.items[kk]
        for c in o.cls.mro:
            if c.kind == 'ext':
                return Term('item', (Term('obj', (o,)), k if not isinstance(
                    k, SliceV) else 'slice'))
        if o.open:
            return Term('item', (Term('obj', (o,)), k))
        it.raise_('TypeError', '%s object is not subscriptable' % o.cls.name)
    if isinstance(o, Tup):
        if isinstance(k, SliceV):
            return Tup(o.items[host_slice(it, len(o.items), k)])
        if isinstance(k, Term) and len(o.items) > 4 and all(
                isinstance(x, str) for x in o.items):
            L = it.facts.lin_of(k)
            n = it.facts.lin_of(len(o.items) - 1)
            if L is not None and it.facts.lin_entails(L) and \
                    it.facts.lin_entails(n - L):
                return Term('select', (o, k), 'str')
        return o.items[sym_index(it, len(o.items), k, 'tuple')]
    if isinstance(o, (str, bytes)):
        if isinstance(k, SliceV):
            if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                return o[slice(k.a, k.b, k.c)]
            return Term('slice', (o, k.a, k.b), it.ty(o))
        if isinstance(k, int):
            return o[idx(it, len(o), k, 'string')]
        if isinstance(k, Term):
            it.maybe_raise('IndexError', 'string index')
            return Term('item', (o, k), 'str' if isinstance(o, str)
                        else 'int')
        it.raise_('TypeError', 'string indices must be integers')
    if isinstance(o, Term):
        return getitem_term(it, o, k)
    if isinstance(o, ClassV):
        return o        # generic alias
    if o is None or is_scalar(o) or isinstance(o, (IterV, Func, Bound)):
        it.raise_('TypeError', 'object is not subscriptable')
    if isinstance(o, Ext):
        return Term('item', (Term('ext', (o.name,)), k))
    raise Unsupported('getitem %r' % (o,))


def getitem_term(it, o, k):
    kind = _kind(it.facts, o)
    if kind in ('int', 'float', 'bool', 'none'):
        it.raise_('TypeError', '%s object is not subscriptable' % kind)
    if isinstance(k, SliceV):
        a, b, c = it.facts.norm(k.a), it.facts.norm(k.b), it.facts.norm(k.c)
        if a is None and b is None and c is None:
            return o
        if o.op == 'cat':
            o = cat(it, o.args, o.ty)
            if not isinstance(o, Term):
                return getitem(it, o, SliceV(a, b, c))
        if o.op == 'cat' and b is None and c is None and \
                isinstance(a, int) and a >= 0 and isinstance(
                    o.args[0], (str, bytes)) and len(o.args[0]) >= a:
            return cat(it, [o.args[0][a:]] + list(o.args[1:]), o.ty)
        if o.op == 'cat' and a in (None, 0) and c is None and \
                isinstance(b, int) and b >= 0 and isinstance(
                    o.args[0], (str, bytes)) and len(o.args[0]) >= b:
            return o.args[0][:b]
        if o.op == 'cat' and a in (None, 0) and c is None and \
                isinstance(b, int) and b < 0 and isinstance(
                    o.args[-1], (str, bytes)) and len(o.args[-1]) >= -b:
            return cat(it, list(o.args[:-1]) + [o.args[-1][:b]], o.ty)
        if o.op == 'cat' and a is None and b is None and c == 1:
            return o
        if o.op == 'cat' and c in (None, 1) and isinstance(a, int) and \
                isinstance(b, int) and a >= 0 and b < 0 and len(
                    o.args) > 1 and all(isinstance(o.args[i], (str, bytes))
                                        for i in (0, -1)) and \
                len(o.args[0]) >= a and len(o.args[-1]) >= -b:
            return cat(it, [o.args[0][a:]] + list(o.args[1:-1]) +
                       [o.args[-1][:b]], o.ty)
        if o.op == 'cat' and c in (None, 1) and b is None and isinstance(
                a, int) and a < 0 and isinstance(
                    o.args[-1], (str, bytes)) and len(o.args[-1]) >= -a:
            return o.args[-1][a:]
        if b is None and c is None and isinstance(a, Term):
            # s[len(p):] of a concatenation that starts with p
            if o.op == 'cat' and a.op == 'len' and o.args[0] is a.args[0]:
                return cat(it, list(o.args[1:]), o.ty)
        if c in (None, 1) and kind in ('str', 'bytes') and not (
                isinstance(a, int) and a < 0 or isinstance(b, int) and b < 0):
            r = None
            left = None
            if b is not None:
                r = strops.cut_at(it, o, b)
                left = r[0] if r else None
            if b is None or left is not None:
                if a in (None, 0):
                    if left is not None:
                        return cat(it, left, kind)
                else:
                    src = o if left is None else cat(it, left, kind)
                    r = strops.cut_at(it, src, a)
                    if r is not None:
                        return cat(it, r[1], kind)
        if kind in ('str', 'bytes') and all(
                x is None or type(x) is int for x in (a, b, c)):
            r = strops.unit_slice(it, o, slice(a, b, c))
            if r is not None:
                return it.facts.norm(cat(it, r, kind))
        if c not in (None, 1):
            return Term('slice', (o, a, b, c), kind)
        if a is None:
            a = 0 if kind in ('str', 'bytes') else None
        return Term('slice', (o, a, b), kind)
    if kind in ('str', 'bytes'):
        if o.op == 'cat' and isinstance(k, int):
            if k >= 0 and isinstance(o.args[0], (str, bytes)) and \
                    len(o.args[0]) > k:
                return o.args[0][k]
            if k < 0 and isinstance(o.args[-1], (str, bytes)) and \
                    len(o.args[-1]) >= -k:
                return o.args[-1][k]
        if it.facts.truth.get(o) is not True or k not in (0, -1):
            it.maybe_raise('IndexError', 'string index')
        t = Term('item', (o, k), 'str' if kind == 'str' else 'int')
        if kind == 'str':
            it.facts.truth[t] = True
        return t
    if o.op in ('m:split', 'm:rsplit', 'm:splitlines') and isinstance(k, int):
        rec = it.facts.iters.setdefault(o, [0, None])
        need = k + 1 if k >= 0 else -k
        have = rec[0]
        if o.op != 'm:splitlines' and len(o.args) > 1 and \
                o.args[1] is not None:
            have = max(have, 1)
        if have < need:
            if rec[1] is not None and rec[1] < need:
                it.raise_('IndexError', 'list index out of range')
            it.maybe_raise('IndexError', 'list index')
            have = need
        rec[0] = max(rec[0], have)
        ety = _kind(it.facts, o.args[0]) or 'str'
        if k < 0:
            if rec[1] is not None:
                return it.elem(o, rec[1] + k)
            return Term('item', (o, k), ety)
        return it.elem(o, k)
    if o.op in ('m:partition', 'm:rpartition') and isinstance(k, int):
        return Term('item', (o, k if k >= 0 else k + 3),
                    _kind(it.facts, o.args[0]))
    c = it.type_of(o)
    if c is not None and c.kind == 'repo':
        m = it.find_cls_attr(c, '__getitem__')
        if m is not None and not isinstance(m, BMethod):
            return it.call(it.bind(m, o), [k])
    if kind == 'dict' or kind is None:
        it.maybe_raise('KeyError', 'item of %s' % show(o))
    if kind in ('list', 'tuple') or kind is None:
        it.maybe_raise('IndexError', 'item of %s' % show(o))
    return it.item(o, k)


def setitem(it, o, k, v):
    d = o.data
    it.touch(o)
    d = o.data
    if isinstance(d, ListData):
        if isinstance(k, SliceV):
            vals = list(it.iterate(v))
            d.items[host_slice(it, len(d.items), k)] = vals
            it.event('list.setslice', o, k, v)
            return
        i = sym_index(it, len(d.items), k)
        d.items[i] = v
        it.event('list.set', o, k, v)
        return
    if isinstance(d, DictData):
        it.dict_set(o, k, v)
        return
    it.raise_('TypeError', 'no item assignment')


def delitem(it, o, k):
    it.touch(o)
    d = o.data
    if isinstance(d, ListData):
        if isinstance(k, SliceV):
            del d.items[host_slice(it, len(d.items), k)]
        else:
            del d.items[sym_index(it, len(d.items), k)]
        it.event('list.del', o, k)
        return
    if isinstance(d, DictData):
        kk = it.find_key(o, k)
        if kk is None:
            it.raise_('KeyError', k)
        it.dict_del(o, kk)
        return
    it.raise_('TypeError', 'no item deletion')


# --------------------------------------------------------------------------
# dict
# --------------------------------------------------------------------------
def dict_update(it, o, src):
    src = it.facts.norm(src)
    if isinstance(src, Obj) and isinstance(src.data, DictData):
        plain = it.user_method(src, '__iter__') is None
        if plain:
            if src.data.open:
                if not o.data.items and not o.data.open:
                    it.touch(o)
                    o.data = src.data.copy()
                    it.event('dict.update', o, src)
                    return
                raise Unsupported('update from open dict')
            for k, v in list(src.data.items.items()):
                it.dict_set(o, unk(k), v)
            return
    if isinstance(src, Obj) and it.getattr(src, 'keys', None, True) \
            is not None:
        keys = it.call(it.getattr(src, 'keys'), [])
        for k in list(it.iterate(keys)):
            it.dict_set(o, k, it.getitem(src, k))
        return
    if isinstance(src, Term):
        if it.ty(src) == 'dict':
            it.touch(o)
            if not o.data.items and not o.data.open:
                o.data.open = src
                o.data.valty = None
                it.event('dict.update', o, src)
                return
            raise Unsupported('update from symbolic dict')
        if it.ty(src) in (None, 'list', 'tuple') and src.op not in ('sym',):
            pass
    if src is None or isinstance(src, (bool, int, float)):
        it.raise_('TypeError', 'object is not iterable')
    for pair in it.iterate(src):
        pair = it.facts.norm(pair)
        k, v = it.unpack_values(pair, 2, True)
        it.dict_set(o, k, v)


def call_dict(it, name, args, kwargs):
    o = it.facts.norm(args[0])
    rest = args[1:]
    if name == 'fromkeys':
        r = it.instantiate(o, [], {})
        for k in it.iterate(rest[0]):
            it.setitem(r, k, rest[1] if len(rest) > 1 else None)
        return r
    if isinstance(o, Term):
        return dict_term(it, o, name, rest, kwargs)
    if not isinstance(o, Obj) or not isinstance(o.data, DictData):
        it.raise_('TypeError', 'descriptor requires dict')
    d = o.data
    if name == '__init__':
        if len(rest) > 1:
            it.raise_('TypeError', 'dict expected at most 1 argument')
        if rest:
            dict_update(it, o, rest[0])
        for k, v in kwargs.items():
            it.dict_set(o, k, v)
        return None
    if name == 'update':
        if rest:
            dict_update(it, o, rest[0])
        for k, v in kwargs.items():
            it.dict_set(o, getattr(k, 'term', str(k)), v)
        return None
    if name == '__ior__':
        dict_update(it, o, rest[0])
        return o
    if name == '__or__':
        r = it.mk_dict()
        dict_update(it, r, o)
        dict_update(it, r, rest[0])
        return r
    if name == '__getitem__':
        kk = it.find_key(o, rest[0])
        if kk is None:
            it.raise_('KeyError', rest[0])
        return d.items[kk]
    if name == '__setitem__':
        it.dict_set(o, rest[0], rest[1])
        return None
    if name == '__delitem__':
        kk = it.find_key(o, rest[0])
        if kk is None:
            it.raise_('KeyError', rest[0])
        it.dict_del(o, kk)
        return None
    if name in ('__contains__', 'has_key'):
        return it.find_key(o, rest[0]) is not None
    if name == 'get':
        kk = it.find_key(o, rest[0])
        if kk is None:
            return rest[1] if len(rest) > 1 else kwargs.get('default')
        return o.data.items[kk]
    if name == 'setdefault':
        kk = it.find_key(o, rest[0])
        if kk is None:
            v = rest[1] if len(rest) > 1 else None
            it.dict_set(o, rest[0], v)
            return v
        return o.data.items[kk]
    if name == 'pop':
        kk = it.find_key(o, rest[0])
        if kk is None:
            if len(rest) > 1:
                return rest[1]
            it.raise_('KeyError', rest[0])
        v = o.data.items[kk]
        it.dict_del(o, kk)
        return v
    if name == 'popitem':
        if d.open:
            if it.truth_term(Term('nonempty', (d.open,), 'bool')):
                for _ in it.open_keys(o):
                    pass
        if not d.items:
            it.raise_('KeyError', 'popitem(): dictionary is empty')
        kk = list(d.items)[-1]
        v = d.items[kk]
        it.dict_del(o, kk)
        return Tup((unk(kk), v))
    if name == 'clear':
        it.touch(o)
        o.data.items.clear()
        o.data.open = None
        it.event('dict.clear', o)
        return None
    if name == 'copy':
        r = it.mk_dict()
        r.data = d.copy()
        return r
    if name in ('keys', 'values', 'items'):
        return Obj(it.b('dict_' + name), None, ViewData(o, name))
    if name == '__iter__':
        return IterV(iter_view(it, o, 'keys'), 'iterator', o)
    if name == '__reversed__':
        return IterV(iter([unk(k) for k in reversed(list(d.items))]))
    if name == '__len__':
        if d.open:
            return Term('len', (Term('obj', (o,)),), 'int')
        return len(d.items)
    if name in ('__eq__', '__ne__'):
        r = Obj(it.b('dict'), None, d)
        x = rest[0]
        if isinstance(x, Obj) and isinstance(x.data, DictData):
            x = Obj(it.b('dict'), None, x.data)
            e = it.eq(r, x)
        else:
            return NOTIMPL
        return e if name == '__eq__' else not e
    if name in ('__repr__', '__str__'):
        return Term('repr', (o,), 'str')
    if name == '__hash__':
        it.raise_('TypeError', 'unhashable')
    raise Unsupported('dict.%s' % name)


def iter_view(it, o, kind):
    for k in list(o.data.items):
        if k not in o.data.items:
            continue
        if kind == 'keys':
            yield unk(k)
        elif kind == 'values':
            yield o.data.items[k]
        else:
            yield Tup((unk(k), o.data.items[k]))
    if o.data.open:
        for k in it.open_keys(o):
            if kind == 'keys':
                yield k
            elif kind == 'values':
                yield o.data.items[k]
            else:
                yield Tup((k, o.data.items[k]))


def dict_term(it, o, name, rest, kwargs):
    if name in ('get', '__getitem__', 'pop'):
        k = rest[0]
        has = it.truth_term(Term('in', (k, o), 'bool'))
        if not has:
            if name == '__getitem__' or name == 'pop' and len(rest) < 2:
                it.raise_('KeyError', k)
            return rest[1] if len(rest) > 1 else None
        return it.item(o, k)
    if name == '__contains__':
        return it.truth_term(Term('in', (rest[0], o), 'bool'))
    if name in ('items', 'keys', 'values'):
        return Term('m:' + name, (o,), 'list')
    if name == 'copy':
        return Term('m:copy', (o,), 'dict')
    it.event('call', Term('attr', (o, name)), tuple(rest), dict(kwargs))
    return it.fresh('dict.' + name)


# --------------------------------------------------------------------------
# list
# --------------------------------------------------------------------------
def sort_items(it, items, key, reverse):
    dec = [((it.call(key, [x]) if key is not None else x), x) for x in items]
    out = []
    rev = it.truth(reverse)
    for kx, x in dec:
        i = len(out)
        while i > 0:
            if rev:
                before = it.less(out[i - 1][0], kx)
            else:
                before = it.less(kx, out[i - 1][0])
            if before:
                i -= 1
            else:
                break
        out.insert(i, (kx, x))
    return [x for _, x in out]


def call_list(it, name, args, kwargs):
    o = it.facts.norm(args[0])
    rest = args[1:]
    if isinstance(o, Term):
        return list_term(it, o, name, rest, kwargs)
    if not isinstance(o, Obj) or not isinstance(o.data, ListData):
        it.raise_('TypeError', 'descriptor requires list')
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse',
                'sort', 'clear', '__init__', '__setitem__', '__delitem__',
                '__iadd__', '__imul__'):
        it.touch(o)
    L = o.data.items
    if name == '__init__':
        if rest:
            vals = list(it.iterate(rest[0]))
            o.data.items[:] = vals
        return None
    if name == 'append':
        L.append(rest[0])
        it.event('list.append', o, rest[0])
        return None
    if name in ('extend', '__iadd__'):
        src = it.facts.norm(rest[0])
        if isinstance(src, Obj) and src is o:
            L.extend(list(L))
        else:
            for x in it.iterate(src):
                L.append(x)
                it.event('list.append', o, x)
        it.event('list.extend', o, src)
        return o if name == '__iadd__' else None
    if name == '__imul__':
        L[:] = L * rest[0]
        it.event('list.imul', o)
        return o
    if name == 'insert':
        i = it.facts.norm(rest[0])
        if isinstance(i, int):
            L.insert(i, rest[1])
        else:
            n = len(L)
            pos = n
            for j in range(n):
                if it.eq(i, j):
                    pos = j
                    break
            L.insert(pos, rest[1])
        it.event('list.insert', o, rest[0], rest[1])
        return None
    if name == 'pop':
        i = rest[0] if rest else -1
        if not L:
            it.raise_('IndexError', 'pop from empty list')
        v = L.pop(sym_index(it, len(L), i, 'pop'))
        it.event('list.pop', o, v)
        return v
    if name == 'remove':
        for j, x in enumerate(L):
            if it.eq(x, rest[0]):
                del L[j]
                it.event('list.remove', o, x)
                return None
        it.raise_('ValueError', 'list.remove(x): x not in list')
    if name == 'index':
        for j, x in enumerate(L):
            if it.eq(x, rest[0]):
                return j
        it.raise_('ValueError', 'not in list')
    if name == 'count':
        return sum(1 for x in L if it.eq(x, rest[0]))
    if name == 'reverse':
        L.reverse()
        it.event('list.reverse', o)
        return None
    if name == 'sort':
        L[:] = sort_items(it, list(L), kwargs.get('key'),
                          kwargs.get('reverse', False))
        it.event('list.sort', o)
        return None
    if name == 'clear':
        L.clear()
        it.event('list.clear', o)
        return None
    if name == 'copy':
        return it.mk_list(L)
    if name == '__len__':
        return len(L)
    if name == '__iter__':
        return IterV(it.iterate(Obj(it.b('list'), None, o.data)), 'iterator',
                     o)
    if name == '__reversed__':
        return IterV(iter(list(reversed(L))))
    if name == '__contains__':
        return any(it.eq(x, rest[0]) for x in list(L))
    if name == '__getitem__':
        k = rest[0]
        if isinstance(k, SliceV):
            return it.mk_list(L[host_slice(it, len(L), k)])
        return L[sym_index(it, len(L), k)]
    if name == '__setitem__':
        setitem(it, o, rest[0], rest[1])
        return None
    if name == '__delitem__':
        delitem(it, o, rest[0])
        return None
    if name in ('__eq__', '__ne__'):
        x = rest[0]
        if isinstance(x, Obj) and isinstance(x.data, ListData):
            e = it.eq(Obj(it.b('list'), None, o.data),
                      Obj(it.b('list'), None, x.data))
            return e if name == '__eq__' else not e
        return NOTIMPL
    if name == '__add__':
        return it.mk_list(L + list(it.iterate(rest[0])))
    if name == '__mul__':
        return it.mk_list(L * rest[0])
    if name in ('__repr__', '__str__'):
        return Term('repr', (o,), 'str')
    if name in ('__lt__', '__gt__', '__le__', '__ge__'):
        return NOTIMPL
    if name == '__hash__':
        it.raise_('TypeError', 'unhashable')
    raise Unsupported('list.%s' % name)


def list_term(it, o, name, rest, kwargs):
    if name in ('copy',):
        return o
    if name == '__len__':
        return length(it, o)
    if name == '__getitem__':
        return getitem_term(it, o, rest[0])
    if name == '__contains__':
        return it.contains(o, rest[0])
    if name == '__iter__':
        return it.iter_(o)
    if name in ('index',):
        it.maybe_raise('ValueError', 'list.index')
        return Term('m:index', [o] + rest, 'int')
    if name == 'count':
        return Term('m:count', [o] + rest, 'int')
    if name == 'pop':
        it.maybe_raise('IndexError', 'list.pop')
    it.event('call', Term('attr', (o, name)), tuple(rest), dict(kwargs))
    return it.fresh('list.' + name)


def call_tuple(it, name, args, kwargs):
    o = it.facts.norm(args[0])
    rest = args[1:]
    if isinstance(o, Term):
        return list_term(it, o, name, rest, kwargs)
    if name == '__len__':
        return len(o.items)
    if name == '__iter__':
        return it.iter_(o)
    if name == '__getitem__':
        return getitem(it, o, rest[0])
    if name == '__contains__':
        return it.contains(o, rest[0])
    if name == 'index':
        for j, x in enumerate(o.items):
            if it.eq(x, rest[0]):
                return j
        it.raise_('ValueError', 'not in tuple')
    if name == 'count':
        return sum(1 for x in o.items if it.eq(x, rest[0]))
    if name == '__add__':
        return binop(it, ast.Add(), o, rest[0])
    if name == '__eq__':
        return it.eq(o, rest[0])
    if name == '__hash__':
        return Term('hash', (o,), 'int')
    raise Unsupported('tuple.%s' % name)


# --------------------------------------------------------------------------
# set
# --------------------------------------------------------------------------
def charset_members(it, v):
    """set(<string term>) is represented by a single 'chars' member"""
    return Term('chars', (v,), None)


def iter_for_set(it, src):
    src = it.facts.norm(src)
    if isinstance(src, Term) and _kind(it.facts, src) == 'str':
        if src.op == 'cat':
            out = []
            for p in src.args:
                for x in (p if isinstance(p, str) else
                          [charset_members(it, p)]):
                    if x not in out:
                        out.append(x)
            return out
        return [charset_members(it, src)]
    if isinstance(src, Obj) and isinstance(src.data, SetData):
        return [unk(k) for k in src.data.items]
    return list(it.iterate(src))


def charset_within(it, v, bs):
    """are all characters of the string in the constant set? None: open"""
    if not isinstance(bs, FSet) or not all(
            isinstance(c, str) and len(c) == 1 for c in bs.items) or \
            not isinstance(v, Term):
        return None
    from . import rexmatch
    try:
        r = rexmatch.Atom(it, v).within(sum(1 << ord(c) for c in bs.items))
    except rexmatch.Unable:
        return None
    if r is False and not strops.nonempty(it, v):
        return None
    return r


def set_subset(it, a, b):
    """a <= b"""
    if isinstance(a, Term) or isinstance(b, Term):
        if a is b:
            return True
        return it.truth_term(Term('subset', (a, b), 'bool'))
    xs = iter_for_set(it, a)
    for x in xs:
        if isinstance(x, Term) and x.op == 'chars':
            bs = as_setterm(it, b)
            d = charset_within(it, x.args[0], bs)
            if d is False:
                return False
            if d is True:
                continue
            if not it.truth_term(Term('subset', (x, bs), 'bool')):
                return False
        elif not it.contains(b, x):
            return False
    return True


def call_set(it, name, args, kwargs):
    o = it.facts.norm(args[0])
    rest = args[1:]
    if isinstance(o, Term):
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            x = as_setterm(it, it.facts.norm(rest[0])) if not isinstance(
                rest[0], Term) else rest[0]
            if name == 'issubset':
                return it.truth_term(Term('subset', (o, x), 'bool'))
            if name == 'issuperset':
                return it.truth_term(Term('subset', (x, o), 'bool'))
        if name in ('union', 'difference', 'intersection', 'copy'):
            return Term('m:' + name, [o] + rest, 'set')
        if name == '__contains__':
            return it.contains(o, rest[0])
        it.event('call', Term('attr', (o, name)), tuple(rest), {})
        return it.fresh('set.' + name)
    if name == '__init__':
        it.touch(o)
        if rest:
            for x in iter_for_set(it, rest[0]):
                it.set_add(o, x)
        return None
    if name == 'add':
        it.set_add(o, rest[0])
        it.event('set.add', o, rest[0])
        return None
    if name in ('update', '__ior__'):
        for r in rest:
            for x in iter_for_set(it, r):
                it.set_add(o, x)
        it.event('set.update', o)
        return o if name == '__ior__' else None
    if name in ('remove', 'discard'):
        it.touch(o)
        e = it.set_find(o.data, rest[0])
        if e is MISSING:
            if name == 'remove':
                it.raise_('KeyError', rest[0])
            return None
        del o.data.items[e]
        it.event('set.remove', o, rest[0])
        return None
    if name == 'clear':
        it.touch(o)
        o.data.items.clear()
        it.event('set.clear', o)
        return None
    if name == 'pop':
        it.touch(o)
        if not o.data.items:
            it.raise_('KeyError', 'pop from an empty set')
        k = next(iter(o.data.items))
        del o.data.items[k]
        it.event('set.pop', o)
        return unk(k)
    if name == 'copy':
        if isinstance(o, FSet):
            return o
        r = it.mk_set()
        r.data = o.data.copy()
        return r
    if name in ('union', '__or__', 'intersection', '__and__', 'difference',
                '__sub__', 'symmetric_difference', '__xor__'):
        k = {'union': ast.BitOr, '__or__': ast.BitOr,
             'intersection': ast.BitAnd, '__and__': ast.BitAnd,
             'difference': ast.Sub, '__sub__': ast.Sub}.get(name, ast.BitXor)
        res = o
        if not rest:
            return call_set(it, 'copy', [o], {})
        for r in rest:
            r = it.facts.norm(r)
            if not is_set(r):
                if isinstance(r, Term) and _kind(it.facts, r) != 'str':
                    res = set_combine(it, k, res, r)
                    continue
                r = it.mk_set(iter_for_set(it, r))
            if isinstance(res, FSet) and isinstance(r, FSet):
                res = FSet(_HOST[k](res.items, r.items))
            else:
                res = set_combine(it, k, res, r)
        return res
    if name in ('difference_update', '__isub__', 'intersection_update',
                '__iand__'):
        it.touch(o)
        k = ast.Sub if 'sub' in name or 'diff' in name else ast.BitAnd
        r = it.facts.norm(rest[0])
        if not is_set(r):
            r = it.mk_set(iter_for_set(it, r))
        res = set_combine(it, k, o, r)
        o.data = SetData(res.data.items if isinstance(res, Obj)
                         else res.items)
        it.event('set.update', o)
        return o if name.startswith('__') else None
    if name in ('issubset', '__le__'):
        return set_subset(it, o, it.facts.norm(rest[0]))
    if name in ('issuperset', '__ge__'):
        return set_subset(it, it.facts.norm(rest[0]), o)
    if name == '__lt__':
        return set_subset(it, o, it.facts.norm(rest[0])) and \
            not it.eq(o, rest[0])
    if name == '__gt__':
        return set_subset(it, it.facts.norm(rest[0]), o) and \
            not it.eq(o, rest[0])
    if name == 'isdisjoint':
        return not any(it.contains(o, x) for x in it.iterate(rest[0]))
    if name == '__contains__':
        return it.contains(o, rest[0])
    if name == '__len__':
        return len(o.items if isinstance(o, FSet) else o.data.items)
    if name == '__iter__':
        return it.iter_(o)
    if name in ('__eq__', '__ne__'):
        e = it.eq(o, rest[0])
        return e if name == '__eq__' else not e
    if name in ('__repr__', '__str__'):
        return Term('repr', (o,), 'str')
    raise Unsupported('set.%s' % name)
