"""Abstract values.

Scalars (None, bool, int, float, str, bytes, Ellipsis) stand for themselves.
Everything else is one of the classes below.  `Term` is a value-numbered
(hash-consed) description of a value the analysis does not know; two equal
terms denote the same run time value on one path.
"""

SCALARS = (type(None), bool, int, float, str, bytes, type(Ellipsis), complex)


class _NI:
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = _NI()


class V:
    __slots__ = ()


class Term(V):
    __slots__ = ('op', 'args', 'ty', '_h', '__weakref__')
    _table = {}

    def __new__(cls, op, args=(), ty=None):
        args = tuple(args)
        key = (op, tuple(_k(a) for a in args), ty)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.ty = op, args, ty
            t._h = hash(key)
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)

    def walk(self):
        yield self
        for a in self.args:
            if isinstance(a, Term):
                yield from a.walk()
            elif isinstance(a, Tup):
                for b in a.items:
                    if isinstance(b, Term):
                        yield from b.walk()


def _k(a):
    if isinstance(a, (bool, int, float, str, bytes)) or a is None:
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return a


def show(v, depth=0):
    if isinstance(v, Term):
        if v.op == 'sym':
            return '<%s>' % (v.args[0],)
        if v.op == 'env':
            return 'environ[%r]' % (v.args[1],)
        if depth > 5:
            return '...'
        if v.op == 'cat':
            return ' ++ '.join(show(a, depth + 1) for a in v.args)
        return '%s(%s)' % (v.op, ', '.join(show(a, depth + 1) for a in v.args))
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(a, depth + 1) for a in v.items)
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(a, depth + 1) for a in v)
    return repr(v)


class Tup(V):
    __slots__ = ('items', '_h')

    def __init__(self, items):
        self.items = tuple(items)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(('Tup',) + tuple(_k(i) for i in self.items))
        return self._h

    def __eq__(self, other):
        return isinstance(other, Tup) and \
            tuple(_k(i) for i in self.items) == \
            tuple(_k(i) for i in other.items)

    def __repr__(self):
        return show(self)


class FSet(V):
    """constant frozenset of scalars"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = frozenset(items)

    def __hash__(self):
        return hash(self.items)

    def __eq__(self, o):
        return isinstance(o, FSet) and o.items == self.items

    def __repr__(self):
        return 'frozenset(%r)' % (sorted(map(repr, self.items)),)


class ClassV(V):
    """A class.  kind: 'repo' (AST), 'builtin', 'ext' (opaque external)."""

    def __init__(self, name, bases, ns=None, module=None, kind='repo',
                 node=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns if ns is not None else {}
        self.module = module
        self.kind = kind
        self.node = node
        self.base = False      # belongs to the module-level heap
        self.mro = _c3(self)

    def is_sub(self, other):
        return other in self.mro

    @property
    def qual(self):
        return (self.module + '.' if self.module else '') + self.name

    def __repr__(self):
        return '<class %s>' % self.qual


def _c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise MroError('inconsistent MRO for %s' % cls.name)
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class MroError(Exception):
    pass


class Obj(V):
    """Heap object.  data: None or ListData/DictData/SetData/other payload"""
    _n = 0

    def __init__(self, cls, attrs=None, data=None, label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.data = data
        self.label = label
        self.base = False
        self.open = False     # attributes not listed may exist (opaque)

    def __repr__(self):
        if self.label:
            return '<%s %s>' % (self.cls.name, self.label)
        if self.data is not None:
            return '<%s %r>' % (self.cls.name, self.data)
        return '<%s>' % self.cls.name


class ListData:
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)

    def copy(self):
        return ListData(self.items)

    def __repr__(self):
        return 'list%r' % (self.items,)


class DictData:
    """items: insertion ordered {key: value}.  `open` (a name) means keys not
    recorded in `items` or `absent` may or may not be there."""
    __slots__ = ('items', 'open', 'absent', 'valty')

    def __init__(self, items=None, open=None, absent=(), valty='str'):
        self.items = dict(items or {})
        self.open = open
        self.absent = set(absent)
        self.valty = valty

    def copy(self):
        return DictData(self.items, self.open, self.absent, self.valty)

    def __repr__(self):
        return 'dict%r%s' % (self.items, '+%s' % self.open if self.open else '')


class SetData:
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = dict.fromkeys(items)

    def copy(self):
        return SetData(self.items)

    def __repr__(self):
        return 'set{%s}' % ', '.join(map(repr, self.items))


class Func(V):
    def __init__(self, name, node, module, closure, defaults, kwdefaults,
                 cls=None, is_gen=False, qual=None):
        self.name = name
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = is_gen
        self.qual = qual or name
        self.attrs = {}

    def __repr__(self):
        return '<function %s.%s>' % (self.module.name, self.qual)


class HostFunc(V):
    """Function implemented by the analysis; fn(interp, args, kwargs)."""

    def __init__(self, name, fn, binds=False):
        self.name = name
        self.fn = fn
        self.binds = binds

    def __repr__(self):
        return '<host %s>' % self.name


class Bound(V):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and \
            o.self is self.self

    def __hash__(self):
        return hash((id(self.func), id(self.self)))

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class BMethod(V):
    """builtin method descriptor: cls name + method name"""
    __slots__ = ('cls', 'name')

    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BMethod) and (o.cls, o.name) == \
            (self.cls, self.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return '<method %s.%s>' % (self.cls, self.name)


class Ext(V):
    """external (not analysed) function or object, by dotted name"""
    __slots__ = ('name',)
    _t = {}

    def __new__(cls, name):
        e = cls._t.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._t[name] = e
        return e

    def __repr__(self):
        return '<ext %s>' % self.name


class ModuleV(V):
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.ns = {}
        self.base = True

    def __repr__(self):
        return '<module %s>' % self.name


class SuperV(V):
    def __init__(self, cls, obj, objcls):
        self.cls, self.obj, self.objcls = cls, obj, objcls


class IterV(V):
    """iterator over a host-level generator of abstract values"""

    def __init__(self, gen, kind='iterator', src=None):
        self.gen = gen
        self.kind = kind
        self.src = src
        self.done = False
        self.started = False
        self.close_cb = None

    def __repr__(self):
        return '<%s>' % self.kind


class SliceV(V):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


def is_scalar(v):
    return isinstance(v, SCALARS)


def sym(name, ty=None):
    return Term('sym', (name,), ty)
