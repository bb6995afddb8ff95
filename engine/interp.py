"""Path-sensitive abstract interpreter for the Python subset /repo uses.

Nothing of /repo is imported or run: the syntax trees are interpreted over the
abstract values of values.py.  Branches whose condition the fact domain does
not decide are partitioned (both sides analysed); loops over unknown
collections are analysed for 0..K abstract elements.
"""
import ast
import os
import re as _re

from .values import *
from .values import _k
from .facts import Facts, NUM, _kind
from . import strdom


class PyRaise(Exception):
    """an exception of the analysed program"""

    def __init__(self, val, loc=None):
        self.val = val
        self.loc = loc


class Unsupported(Exception):
    pass


class Pruned(Exception):
    """path abandoned (infeasible or beyond a recorded bound)"""

    def __init__(self, why, bounded=False):
        Exception.__init__(self, why)
        self.bounded = bounded


class Violation(Exception):
    def __init__(self, msg, loc=None):
        Exception.__init__(self, msg)
        self.loc = loc


class AnchorMissing(Exception):
    pass


MISSING = object()
BREAK, CONTINUE = ('break',), ('continue',)


class Scope:
    __slots__ = ('vars', 'parent', 'locals', 'func', 'globs', 'nonloc',
                 'module', 'cls')

    def __init__(self, module, parent=None, locs=None, func=None):
        self.vars = {}
        self.parent = parent
        self.locals = locs
        self.func = func
        self.module = module
        self.globs = ()
        self.nonloc = ()
        self.cls = None


_fn_info = {}


def fn_info(node):
    """(locals, globals, nonlocals, is_generator) of a function node"""
    r = _fn_info.get(node)
    if r is not None:
        return r
    locs, globs, nonl = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        locs.add(x.arg)
    if a.vararg:
        locs.add(a.vararg.arg)
    if a.kwarg:
        locs.add(a.kwarg.arg)

    def tgt(t):
        if isinstance(t, ast.Name):
            locs.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            locs.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            walk(n.generators[0].iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    tgt(m.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            tgt(n.target)
        if isinstance(n, ast.NamedExpr):
            tgt(n.target)
        if isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        if isinstance(n, ast.ExceptHandler) and n.name:
            locs.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                locs.add(al.asname or al.name.split('.')[0])
        if isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    r = (locs - globs - nonl, globs, nonl, gen[0])
    _fn_info[node] = r
    return r


def _sty(c):
    return 'str' if isinstance(c, str) else 'bytes'


def _pieces(parts, ch):
    out = [[]]
    for x in parts:
        if isinstance(x, (str, bytes)):
            ps = x.split(ch)
            if ps[0]:
                out[-1].append(ps[0])
            for q in ps[1:]:
                out.append([q] if q else [])
        else:
            out[-1].append(x)
    return out


class Interp:
    LOOP_K = 2
    WHILE_MAX = 8

    def __init__(self, prog):
        self.prog = prog
        self.reset([])
        self.loading = False

    # ------------------------------------------------------------------
    # path state
    # ------------------------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # [(choice, n, label)]
        self.facts = Facts()
        self.events = []
        self.handlers = []
        self.excs = []
        self.stack = []
        self.counter = 0
        self.journal = {}
        self.imprecise = []
        self.bounded = set()
        self.raise_all = False
        self.raise_ops = False
        self.no_tok = False     # leave matches on concatenations open
        self.line = 0
        self.mod = None
        self.steps = 0
        self.hooks = {}
        self.overrides = {}
        self.facts_log = []
        self.last_loc = None

    def undo(self):
        for kind, obj, saved in self.journal.values():
            if kind == 'obj':
                obj.attrs.clear()
                obj.attrs.update(saved[0])
                obj.data = saved[1]
                obj.cls = saved[2]
            elif kind == 'ns':
                obj.ns.clear()
                obj.ns.update(saved)
            elif kind == 'func':
                obj.attrs.clear()
                obj.attrs.update(saved)
            elif kind == 'scope':
                obj.vars.clear()
                obj.vars.update(saved)
        self.journal = {}

    def touch(self, obj):
        if self.loading:
            return
        if isinstance(obj, Obj):
            if obj.base and id(obj) not in self.journal:
                data = obj.data
                if data is not None and hasattr(data, 'copy'):
                    data = data.copy()
                self.journal[id(obj)] = ('obj', obj,
                                         (dict(obj.attrs), data, obj.cls))
        elif isinstance(obj, (ClassV, ModuleV)):
            if obj.base and id(obj) not in self.journal:
                self.journal[id(obj)] = ('ns', obj, dict(obj.ns))
        elif isinstance(obj, Func):
            if id(obj) not in self.journal:
                self.journal[id(obj)] = ('func', obj, dict(obj.attrs))
        elif isinstance(obj, Scope):
            if id(obj) not in self.journal:
                self.journal[id(obj)] = ('scope', obj, dict(obj.vars))

    def choose(self, n, label):
        if n == 1:
            return 0
        if self.loading:
            raise Unsupported('undecided branch at module level: %s at %s'
                              % (label, self.loc()))
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trace.append((c, n, label, self.loc()))
        if len(self.trace) > 400:
            raise Pruned('decision depth', True)
        return c

    def fresh(self, name, ty=None):
        self.counter += 1
        return Term('sym', ('%s~%d' % (name, self.counter),), ty)

    def loc(self):
        f = self.stack[-1] if self.stack else None
        mod = self.mod
        path = mod.path if mod is not None else '?'
        return '%s:%d%s' % (self.prog.rel(path), self.line,
                            ' (%s)' % f.qual if f is not None else '')

    def event(self, kind, *payload):
        self.events.append((kind, payload, self.loc()))

    def note_imprecise(self, why):
        self.imprecise.append('%s at %s' % (why, self.loc()))

    # ------------------------------------------------------------------
    # raising
    # ------------------------------------------------------------------
    def exc_class(self, name):
        return self.prog.builtins[name]

    def raise_(self, cls, *args):
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        val = self.instantiate(cls, list(args), {})
        raise PyRaise(val, self.loc())

    def would_catch(self, cls):
        for fr in reversed(self.handlers):
            for h, scope in fr:
                if h.type is None:
                    return True
                try:
                    t = self.eval(h.type, scope)
                except (PyRaise, Unsupported):
                    continue
                ts = t.items if isinstance(t, Tup) else [t]
                for x in ts:
                    if isinstance(x, ClassV) and cls.is_sub(x):
                        return True
        return False

    def maybe_raise(self, cls, label, *args, key=None):
        """key: value the failure is a function of, so that the outcome is
        the same each time within a partition"""
        if self.loading:
            return
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        if key is not None:
            t = self.facts.norm_deep(Term('raises', (cls.name,) + tuple(key),
                                     'bool'))
            known = self.facts.truth.get(t)
            if known is None and (self.raise_all or self.raise_ops or
                                  self.would_catch(cls)):
                known = bool(self.choose(2, 'no %s from %s' % (
                    cls.name, label)))
            self.facts.truth[t] = bool(known)
            if known:
                self.raise_(cls, *args)
            return
        if self.raise_all or self.raise_ops or self.would_catch(cls):
            if self.choose(2, 'no %s from %s' % (cls.name, label)):
                self.raise_(cls, *args)

    # ------------------------------------------------------------------
    # types
    # ------------------------------------------------------------------
    def b(self, name):
        return self.prog.builtins[name]

    def type_of(self, v):
        """ClassV of a value or None if unknown"""
        v = self.facts.norm(v)
        b = self.prog.builtins
        if v is None:
            return b['NoneType']
        if isinstance(v, bool):
            return b['bool']
        if isinstance(v, int):
            return b['int']
        if isinstance(v, float):
            return b['float']
        if isinstance(v, str):
            return b['str']
        if isinstance(v, bytes):
            return b['bytes']
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Tup):
            return b['tuple']
        if isinstance(v, FSet):
            return b['frozenset']
        if isinstance(v, ClassV):
            return b['type']
        if isinstance(v, Term):
            t = self.facts.types.get(v)
            if t is not None:
                return t
            if isinstance(v.ty, ClassV):
                return v.ty
            if isinstance(v.ty, str):
                return b.get(v.ty)
            return None
        if isinstance(v, (Func, HostFunc)):
            return b['function']
        if isinstance(v, Bound):
            return b['method']
        if isinstance(v, (BMethod, Ext)):
            return b['builtin_function']
        if isinstance(v, IterV):
            return b['generator'] if v.kind == 'generator' else b['iterator']
        if isinstance(v, SliceV):
            return b['slice']
        if isinstance(v, ModuleV):
            return b['module']
        if v is NOTIMPL or v is Ellipsis:
            return b['object']
        return None

    def ty(self, v):
        """builtin type name or None"""
        c = self.type_of(v)
        if c is None:
            return None
        for k in c.mro:
            if k.kind == 'builtin':
                return k.name
        return None

    _disjoint = {'str', 'bytes', 'int', 'float', 'list', 'dict', 'tuple',
                 'set', 'frozenset', 'NoneType', 'bytearray', 'slice',
                 'function'}

    def isinstance_(self, v, cls):
        v = self.facts.norm(v)
        if isinstance(cls, Tup):
            for c in cls.items:
                if self.isinstance_(v, c):
                    return True
            return False
        if isinstance(cls, Ext) and cls.name.rpartition('.')[2][:1].isupper():
            cls = self.prog.ext_class(cls.name)
        if not isinstance(cls, ClassV):
            if isinstance(cls, Term) and cls.op == 'union':
                return any(self.isinstance_(v, c) for c in cls.args)
            raise Unsupported('isinstance against %r' % (cls,))
        c = self.type_of(v)
        if c is not None:
            if c.is_sub(cls):
                return True
            if cls.kind == 'ext' and cls.name in ABCS:
                return ABCS[cls.name](self, v, c)
            if not (isinstance(v, Term) and c.kind in ('ext', 'repo')
                    and isinstance(v.ty, ClassV)):
                return False
        if not isinstance(v, Term):
            return False
        neg = self.facts.nottypes.setdefault(v, [])
        if any(cls.is_sub(n) for n in neg):
            return False
        if cls.name == 'object' and cls.kind == 'builtin':
            return True
        if v.op == 'opaque-private':
            return False
        if self.choose(2, 'isinstance(%s, %s)' % (show(v), cls.name)) == 0:
            neg.append(cls)
            return False
        self.facts.types[v] = cls
        return True

    # ------------------------------------------------------------------
    # truth and comparison
    # ------------------------------------------------------------------
    def truth(self, v):
        v = self.facts.norm(v)
        if is_scalar(v):
            return bool(v) if v is not Ellipsis else True
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, FSet):
            return bool(v.items)
        if isinstance(v, Obj):
            m = self.find_cls_attr(v.cls, '__bool__')
            if m is None:
                m = self.find_cls_attr(v.cls, '__len__')
                if m is None or isinstance(m, BMethod):
                    return self.data_truth(v)
            named = m
            r = self.facts.norm(self.call(self.bind(m, v), []))
            if named is self.find_cls_attr(v.cls, '__bool__') and (
                    is_scalar(r) and not isinstance(r, bool) or
                    isinstance(r, Term) and self.ty(r) in (
                        'str', 'bytes', 'int', 'float')):
                self.raise_('TypeError', '__bool__ should return bool')
            return self.truth(r)
        if isinstance(v, Term):
            return self.truth_term(v)
        return True

    def data_truth(self, v):
        d = v.data
        if isinstance(d, (ListData, SetData)):
            return bool(d.items)
        if isinstance(d, DictData):
            if d.items:
                return True
            if d.open:
                return self.truth_term(Term('nonempty', (d.open,), 'bool'))
            return False
        return True

    def truth_term(self, t):
        f = self.facts
        t = f.norm_deep(t)
        if not isinstance(t, Term):
            return self.truth(t)
        if t in f.truth:
            return f.truth[t]
        if t.op == 'not':
            return not self.truth_term(t.args[0])
        if t.op == 'cat':
            if any(isinstance(p, (str, bytes)) and p for p in t.args):
                return True
            for p in t.args:
                if self.truth(p):
                    f.truth[t] = True
                    return True
            f.truth[t] = False
            return False
        if t.op == 'quote':
            return self.truth(t.args[0])
        if t.op == 'str' and isinstance(t.args[0], Term) and \
                t.args[0].ty in ('int', 'float'):
            return True
        if t.op in ('m:encode', 'm:decode') and t.args[1:2] in (
                ('latin-1',), ('utf-8',)) and t.args[2] in (
                    'strict', 'replace'):
            return self.truth(t.args[0])
        r = self.truth_special(t)
        if r is not None:
            return r
        k = _kind(f, t)
        if k == 'none':
            return False
        if k in NUM and k != 'bool':
            return not self.eq(t, 0)
        for z in (None, 0, '', b'', False):
            if f.decide_eq(t, z) is True:
                return False
        if k in ('str', 'bytes'):
            r = f.len_truth(t)
            if r is not None:
                self.assume_truth(t, r)
                return r
        c = self.choose(2, 'truth of %s' % show(t))
        val = not c
        self.assume_truth(t, val)
        return val

    def truth_special(self, t):
        return None

    def assume_truth(self, t, val):
        f = self.facts
        f.truth[t] = val
        k = _kind(f, t)
        if k in ('str', 'bytes') and (f.lin or f.nelin):
            L = f.lin_of(Term('len', (t,), 'int'))
            if L is not None and L.c:
                f.add_lin(L if val else L.neg(), val)
        if not val and k == 'str':
            f.rep[t] = ''
            f.renorm()
        elif not val and k == 'bytes':
            f.rep[t] = b''
            f.renorm()
        elif k == 'bool':
            f.rep[t] = val

    def is_(self, a, b):
        f = self.facts
        a, b = f.norm(a), f.norm(b)
        if a is b:
            return True
        if is_scalar(a) and is_scalar(b):
            return type(a) is type(b) and a == b
        if isinstance(a, Bound) or isinstance(b, Bound):
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a is b
        if not isinstance(a, Term):
            a, b = b, a
        if not isinstance(a, Term):
            return False
        if isinstance(b, bool) and _kind(f, a) in ('int', 'float'):
            return False
        if b is None or isinstance(b, bool):
            return self.eq_term(a, b)
        if isinstance(b, (Obj, ClassV, Func, HostFunc, ModuleV, IterV)):
            if isinstance(b, Obj) and b.cls.name == 'object' and \
                    b.cls.kind == 'builtin':
                return False        # private sentinel
            if a.op in ('sym', 'env', 'elem', 'item', 'call'):
                if isinstance(b, Obj) and b.base:
                    return False
            at = Term('is', (a, b), 'bool')
            return self.truth_term(at)
        if isinstance(b, Term):
            ka, kb = _kind(f, a), _kind(f, b)
            if ka and kb and ka != kb:
                return False
            return self.truth_term(Term('is', (a, b), 'bool'))
        return self.eq_term(a, b)

    def eq_term(self, a, b):
        """equality where at least one side is a Term (or Tup with Terms)"""
        f = self.facts
        r = f.decide_eq(a, b)
        if r is not None:
            return r
        a, b = f.norm_deep(a), f.norm_deep(b)
        for x, y in ((a, b), (b, a)):
            if y is None and isinstance(x, Term):
                if f.truth.get(x):
                    return False
                if f.types.get(x) is not None or isinstance(x.ty, ClassV):
                    return False
        # the decimal texts of integers
        if all(isinstance(x, Term) and x.op == 'str' and len(x.args) == 1 and
               self.ty(x.args[0]) == 'int' for x in (a, b)):
            return self.eq(a.args[0], b.args[0])
        # structural cancellation of concatenations
        for x, y in ((a, b), (b, a)):
            if y in ('', b'') and isinstance(y, (str, bytes)) and \
                    isinstance(x, Term) and x.op == 'cat' and any(
                        isinstance(p, (str, bytes)) and p or f.truth.get(p)
                        for p in x.args):
                return False
        r = cat_eq(a, b)
        if r is not None:
            if isinstance(r, bool):
                return r
            return self.eq(r[0], r[1])
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                if not self.eq(x, y):
                    return False
            return True
        c = self.choose(2, '%s == %s' % (show(a), show(b)))
        if c == 0:
            f.assume_eq(a, b, False)
            return False
        f.assume_eq(a, b, True)
        if not f.lin_consistent():
            raise Pruned('inconsistent')
        return True

    def eq_split(self, a, b):
        """compare piecewise at a separator no unknown part can contain"""
        from . import builtins_ as B
        if not (isinstance(a, Term) and a.op == 'cat'):
            a, b = b, a
        if not (isinstance(a, Term) and a.op == 'cat'):
            return None
        if isinstance(b, Term) and b.op == 'cat':
            pb = b.args
        elif isinstance(b, (str, bytes)):
            pb = (b,)
        else:
            return None
        f = self.facts
        a2 = B.cat(self, a.args, a.ty)
        if not (isinstance(a2, Term) and a2.op == 'cat'):
            return self.eq(a2, b)
        pa = a2.args
        consts = [x for x in pa if isinstance(x, (str, bytes))]
        seen = set()
        for c in consts:
            for i in range(len(c)):
                ch = c[i:i + 1]
                if ch in seen:
                    continue
                seen.add(ch)
                if all(isinstance(x, (str, bytes)) or strdom.lacks(x, ch, f)
                       for p in (pa, pb) for x in p):
                    sa, sb = _pieces(pa, ch), _pieces(pb, ch)
                    if len(sa) != len(sb):
                        return False
                    return all(self.eq(B.cat(self, x, _sty(ch)),
                                       B.cat(self, y, _sty(ch)))
                               for x, y in zip(sa, sb))
        return None

    def eq(self, a, b):
        f = self.facts
        a, b = f.norm(a), f.norm(b)
        if a is b and not isinstance(a, float):
            if not isinstance(a, Obj) or \
                    self.user_method(a, '__eq__') is None:
                return True
        if is_scalar(a) and is_scalar(b):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and isinstance(y, (str, bytes)) and y:
                if any(strdom.lacks(x, y[i:i + 1], f)
                       for i in range(len(y))):
                    return False
            if isinstance(x, Term) and x.op in ('m:encode', 'm:decode') and \
                    len(x.args) == 3 and x.args[2] == 'strict' and \
                    x.args[1] in ('ascii', 'utf-8', 'latin-1'):
                # strict encoding is injective
                if isinstance(y, Term) and y.op == x.op and \
                        y.args[1:] == x.args[1:]:
                    return self.eq(x.args[0], y.args[0])
                if isinstance(y, bytes if x.op == 'm:encode' else str):
                    try:
                        z = y.decode(x.args[1]) if x.op == 'm:encode' else \
                            y.encode(x.args[1])
                    except UnicodeError:
                        return False
                    return self.eq(x.args[0], z)
        r = self.eq_split(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = self.user_method(x, '__eq__')
                if m is not None:
                    r = self.call(self.bind(m, x), [y])
                    if r is not NOTIMPL:
                        return self.truth(r)
                    continue
        if isinstance(a, Obj) and isinstance(b, Obj):
            da, db = a.data, b.data
            if type(da) is type(db) and isinstance(da, ListData):
                if len(da.items) != len(db.items):
                    return False
                return all(self.eq(x, y) for x, y in zip(da.items, db.items))
            if type(da) is type(db) and isinstance(da, DictData) and \
                    not da.open and not db.open:
                if len(da.items) != len(db.items):
                    return False
                for k_, v_ in list(da.items.items()):
                    kk = self.find_key(b, k_)
                    if kk is None:
                        return False
                    if not self.eq(v_, db.items[kk]):
                        return False
                return True
            if type(da) is type(db) and isinstance(da, SetData):
                if len(da.items) != len(db.items):
                    return False
                return all(self.set_has(db, x) for x in list(da.items))
            return False
        if isinstance(a, Obj) and isinstance(b, (Tup, FSet)) or \
                isinstance(b, Obj) and isinstance(a, (Tup, FSet)):
            o, s = (a, b) if isinstance(a, Obj) else (b, a)
            if isinstance(s, FSet) and isinstance(o.data, SetData):
                if len(o.data.items) != len(s.items):
                    return False
                return all(x in s.items for x in o.data.items)
            return False
        if isinstance(a, Term) or isinstance(b, Term):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    if not (isinstance(y, Term) and y.ty is None):
                        cx, cy = self.ty(x), self.ty(y)
                        if cx != cy:
                            return False
                    return self.truth_term(Term('eqobj', (y, x), 'bool'))
                if isinstance(x, (ClassV, Func, Bound, HostFunc, Ext)):
                    return self.truth_term(Term('eqobj', (y, x), 'bool'))
            return self.eq_term(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a == b
        if isinstance(a, (FSet, BMethod)):
            return a == b
        return False

    def less(self, a, b, strict=True):
        """a < b (or a <= b)"""
        f = self.facts
        a, b = f.norm(a), f.norm(b)
        if is_scalar(a) and is_scalar(b):
            try:
                return a < b if strict else a <= b
            except TypeError:
                self.raise_('TypeError', 'unorderable')
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                m = self.user_method(a, '__lt__' if strict else '__le__')
                if m is not None:
                    r = self.call(self.bind(m, a), [b])
                    if r is not NOTIMPL:
                        return self.truth(r)
            if isinstance(b, Obj):
                m = self.user_method(b, '__gt__' if strict else '__ge__')
                if m is not None:
                    r = self.call(self.bind(m, b), [a])
                    if r is not NOTIMPL:
                        return self.truth(r)
            if isinstance(a, Obj) and isinstance(b, Obj) and \
                    isinstance(a.data, SetData) and isinstance(b.data, SetData):
                sub = all(self.set_has(b.data, x) for x in list(a.data.items))
                if strict:
                    return sub and len(a.data.items) < len(b.data.items)
                return sub
            if isinstance(a, Obj) and isinstance(b, Obj) and \
                    isinstance(a.data, ListData) and \
                    isinstance(b.data, ListData):
                return self.seq_less(a.data.items, b.data.items, strict)
            if not (isinstance(a, Term) or isinstance(b, Term)):
                self.raise_('TypeError', 'unorderable')
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_less(a.items, b.items, strict)
        if a is None or b is None or isinstance(a, Tup) or isinstance(b, Tup):
            self.raise_('TypeError', 'unorderable')
        for x in (a, b):
            if not isinstance(x, Term) and not is_scalar(x):
                self.raise_('TypeError', 'unorderable')
        ka, kb = _kind(f, a), _kind(f, b)
        if ka and kb and ka != kb and not (ka in NUM and kb in NUM):
            self.raise_('TypeError', 'unorderable types %s %s' % (ka, kb))
        L1, L2 = f.lin_of(a), f.lin_of(b)
        if L1 is not None and L2 is not None:
            D = L2 - L1                      # a<b  <=>  D>0
            if f.lin_entails(D, strict):
                return True
            if f.lin_entails(D.neg(), not strict):
                return False
            c = self.choose(2, '%s %s %s' % (show(a), '<' if strict else '<=',
                                             show(b)))
            if c == 0:
                f.add_lin(D.neg(), not strict)
                return False
            f.add_lin(D, strict)
            return True
        if a is b:
            return not strict
        at = Term('lt' if strict else 'le', (a, b), 'bool')
        return self.truth_term(at)

    def seq_less(self, xs, ys, strict):
        for x, y in zip(xs, ys):
            if not self.eq(x, y):
                return self.less(x, y, True)
        return len(xs) < len(ys) if strict else len(xs) <= len(ys)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            a2 = self.facts.norm(a)
            if isinstance(a2, Obj):
                m = self.user_method(a2, '__ne__')
                if m is not None:
                    r = self.call(self.bind(m, a2), [b])
                    if r is not NOTIMPL:
                        return self.truth(r)
            return not self.eq(a, b)
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.LtE):
            return self.less(a, b, False)
        if isinstance(op, (ast.Gt, ast.GtE)):
            strict = isinstance(op, ast.Gt)
            a2 = self.facts.norm(a)
            if isinstance(a2, Obj):
                m = self.user_method(a2, '__gt__' if strict else '__ge__')
                if m is not None:
                    r = self.call(self.bind(m, a2), [b])
                    if r is not NOTIMPL:
                        return self.truth(r)
            return self.less(b, a, strict)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        raise Unsupported('compare %r' % op)

    def contains(self, cont, x):
        f = self.facts
        cont = f.norm(cont)
        x = f.norm(x)
        if isinstance(cont, (str, bytes)) and is_scalar(x):
            try:
                return x in cont
            except TypeError as e:
                self.raise_('TypeError', str(e))
        if isinstance(cont, Tup):
            return any(self.eq(x, i) for i in cont.items)
        if isinstance(cont, FSet):
            if is_scalar(x):
                return x in cont.items
            if len(cont.items) <= 3:
                return any(self.eq(x, i) for i in sorted(
                    cont.items, key=repr))
            if isinstance(x, Term) and all(
                    isinstance(i, (str, bytes)) and any(
                        strdom.lacks(x, i[j:j + 1], f)
                        for j in range(len(i))) for i in cont.items):
                return False
            return self.truth_term(Term('inset', (x, cont), 'bool'))
        if isinstance(cont, Obj):
            m = self.user_method(cont, '__contains__')
            if m is not None:
                return self.truth(self.call(self.bind(m, cont), [x]))
            d = cont.data
            if isinstance(d, ListData):
                return any(self.is_(x, i) or self.eq(x, i)
                           for i in list(d.items))
            if isinstance(d, DictData):
                return self.find_key(cont, x) is not None
            if isinstance(d, SetData):
                return self.set_has(d, x)
            if self.user_method(cont, '__iter__') is not None or \
                    self.user_method(cont, '__getitem__') is not None:
                for i in self.iterate(cont):
                    if self.eq(x, i):
                        return True
                return False
            if cont.cls.kind == 'repo' and not cont.open:
                self.raise_('TypeError', 'not a container')
            return self.truth_term(Term('in', (x, cont), 'bool'))
        if isinstance(cont, IterV):
            for i in self.iterate(cont):
                if self.eq(x, i):
                    return True
            return False
        if isinstance(cont, (str, bytes)) or isinstance(cont, Term):
            tc, tx = self.ty(cont), self.ty(x)
            if tc in ('str', 'bytes') and tx and tx != tc and not (
                    tc == 'bytes' and tx == 'int'):
                self.raise_('TypeError', 'in requires %s' % tc)
            if isinstance(cont, Term) and cont.op == 'cat' and \
                    isinstance(x, (str, bytes)):
                if any(isinstance(p, type(x)) and x in p for p in cont.args):
                    return True
                if len(x) == 1:
                    return any(self.contains(p, x) for p in cont.args
                               if not isinstance(p, (str, bytes)))
            if isinstance(cont, Term) and cont.op == 'm:lower' and \
                    isinstance(x, str) and x and not x.isalpha() and \
                    len(x) == 1:
                return self.contains(cont.args[0], x)
            r = self.str_in_special(cont, x)
            if r is not None:
                return r
            return self.truth_term(Term('in', (x, cont), 'bool'))
        if cont is None or isinstance(cont, (int, float)):
            self.raise_('TypeError', 'not a container')
        raise Unsupported('in %r' % (cont,))

    def str_in_special(self, cont, x):
        pass
        if isinstance(x, (str, bytes)) and len(x) == 1 and \
                isinstance(cont, Term):
            if strdom.lacks(cont, x, self.facts):
                return False
            if strdom.has(cont, x, self.facts):
                return True
        return None

    # ------------------------------------------------------------------
    # dict / set helpers
    # ------------------------------------------------------------------
    def key(self, k):
        k = self.facts.norm_deep(k)
        if isinstance(k, Obj):
            if isinstance(k.data, (ListData, DictData, SetData)) and \
                    self.user_method(k, '__hash__') is None:
                self.raise_('TypeError', 'unhashable type')
        return k

    def find_key(self, obj, k):
        """the stored key equal to k, or None; forks when undecided.
        For open dicts materialises the entry."""
        d = obj.data
        k = self.key(k)
        if k is None:
            k = KNONE
        if _hash_safe(k) and k in d.items and _same_kind(k, d.items):
            return k
        kk = None if k is KNONE else k
        for e in list(d.items):
            ee = None if e is KNONE else e
            if is_scalar(kk) and is_scalar(ee):
                if kk == ee:
                    return e
                continue
            if self.eq(kk, ee):
                return e
        if d.open:
            if k in d.absent:
                return None
            if is_scalar(kk):
                at = Term('has', (d.open, kk), 'bool')
            else:
                at = Term('has', (d.open, kk), 'bool')
            if self.truth_term(at):
                if obj.base:
                    self.touch(obj)
                d.items[k] = self.open_value(d, kk)
                return k
            d.absent.add(k)
            return None
        return None

    def open_value(self, d, k):
        ty = d.valty
        if callable(ty):
            ty = ty(k)
        if isinstance(ty, V):
            return ty
        return Term('env', (d.open, k), ty)

    def dict_set(self, obj, k, v):
        self.touch(obj)
        kk = self.find_key(obj, k) if not obj.data.open else \
            self._find_closed(obj, k)
        if kk is None:
            kk = self.key(k)
            if kk is None:
                kk = KNONE
            obj.data.absent.discard(kk)
        obj.data.items[kk] = v
        self.event('dict.set', obj, k, v)

    def _find_closed(self, obj, k):
        d = obj.data
        o, d.open = d.open, None
        try:
            return self.find_key(obj, k)
        finally:
            d.open = o

    def dict_del(self, obj, kk):
        self.touch(obj)
        del obj.data.items[kk]
        if obj.data.open:
            obj.data.absent.add(kk)
        self.event('dict.del', obj, kk)

    def set_has(self, d, x):
        x = self.key(x)
        kx = KNONE if x is None else x
        if _hash_safe(kx) and kx in d.items:
            return True
        for e in list(d.items):
            ee = None if e is KNONE else e
            if is_scalar(x) and is_scalar(ee):
                continue
            if self.eq(x, ee):
                return True
        return False

    def set_find(self, d, x):
        x = self.key(x)
        kx = KNONE if x is None else x
        if kx in d.items:
            return kx
        for e in list(d.items):
            ee = None if e is KNONE else e
            if is_scalar(x) and is_scalar(ee):
                continue
            if self.eq(x, ee):
                return e
        return MISSING

    def set_add(self, obj, x):
        self.touch(obj)
        if not self.set_has(obj.data, x):
            x = self.key(x)
            obj.data.items[KNONE if x is None else x] = None

    # constructors
    def mk_list(self, items=(), cls=None):
        o = Obj(cls or self.b('list'), None, ListData(items))
        o.base = self.loading
        return o

    def mk_dict(self, items=None, cls=None, open=None, valty='str'):
        o = Obj(cls or self.b('dict'), None, DictData(items, open,
                                                      valty=valty))
        o.base = self.loading
        return o

    def mk_set(self, items=(), cls=None):
        o = Obj(cls or self.b('set'), None, SetData())
        o.base = self.loading
        for i in items:
            self.set_add(o, i)
        return o

    # ------------------------------------------------------------------
    # attributes
    # ------------------------------------------------------------------
    def find_cls_attr(self, cls, name, after=None, missing=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.ns:
                return c.ns[name]
            if c.kind == 'builtin':
                m = self.prog.builtin_attr(c, name)
                if m is not None:
                    return m
        return missing

    def user_method(self, obj, name):
        """method `name` if the class (or a repo base) defines it in source"""
        if not isinstance(obj, Obj):
            return None
        for c in obj.cls.mro:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, BMethod):
                    return None
                return v
            if c.kind == 'builtin' and self.prog.builtin_attr(c, name) \
                    is not None:
                return None
        return None

    def bind(self, m, obj, cls=None):
        if isinstance(m, Func) or isinstance(m, BMethod):
            return Bound(m, obj)
        if isinstance(m, HostFunc) and m.binds:
            return Bound(m, obj)
        if isinstance(m, Obj):
            kind = m.cls.name if m.cls.kind == 'builtin' else None
            if kind == 'staticmethod':
                return m.attrs['func']
            if kind == 'classmethod':
                return Bound(m.attrs['func'], cls or obj.cls)
            if kind == 'property':
                return self.prop_get(m, obj)
            g = self.find_cls_attr(m.cls, '__get__')
            if g is not None:
                if isinstance(g, BMethod):
                    return self.prop_get(m, obj)
                return self.call(self.bind(g, m),
                                 [obj, cls or self.type_of(obj)])
        return m

    def prop_get(self, m, obj):
        if obj is None:
            return m
        fget = m.attrs.get('fget')
        if fget is None:
            self.raise_('AttributeError', 'unreadable attribute')
        return self.call(fget, [obj])

    def is_data_descr(self, m):
        if isinstance(m, Obj):
            return self.find_cls_attr(m.cls, '__set__') is not None or \
                (m.cls.kind == 'builtin' and m.cls.name == 'property')
        return False

    def getattr(self, obj, name, default=None, has_default=False):
        try:
            return self.getattr_(obj, name, has_default)
        except PyRaise as e:
            if has_default and self.exc_is(e.val, 'AttributeError'):
                return default
            raise

    def exc_is(self, val, name):
        return isinstance(val, Obj) and val.cls.is_sub(self.exc_class(name))

    def getattr_(self, obj, name, soft=False):
        obj = self.facts.norm(obj)
        if isinstance(obj, Obj):
            return self.getattr_obj(obj, name, soft)
        if isinstance(obj, ClassV):
            return self.getattr_cls(obj, name)
        if isinstance(obj, ModuleV):
            if name in obj.ns:
                return obj.ns[name]
            m = self.prog.import_module(obj.name + '.' + name, self,
                                        missing_ok=True)
            if m is not None:
                return m
            if name == '__name__':
                return obj.name
            if name == '__dict__':
                return self.alias_dict(obj.ns)
            self.raise_('AttributeError', 'module %s has no attribute %s'
                        % (obj.name, name))
        if isinstance(obj, Ext):
            return self.prog.ext_attr(self, obj, name)
        if isinstance(obj, SuperV):
            m = self.find_cls_attr(obj.objcls, name, after=obj.cls,
                                   missing=MISSING)
            if m is MISSING:
                for c in obj.objcls.mro[obj.objcls.mro.index(obj.cls) + 1:]:
                    if c.kind == 'ext':
                        return Bound(Ext(c.qual + '.' + name), obj.obj)
                self.raise_('AttributeError', 'super has no %s' % name)
            if isinstance(obj.obj, ClassV) and not (
                    isinstance(m, Obj) and m.cls.name == 'classmethod'):
                return m if not isinstance(m, Obj) else self.bind(
                    m, None, obj.obj)
            return self.bind(m, obj.obj, obj.objcls)
        if isinstance(obj, Func):
            if name in obj.attrs:
                return obj.attrs[name]
            if name == '__name__':
                return obj.name
            if name == '__qualname__':
                return obj.qual
            if name == '__module__':
                return obj.module.name
            if name == '__doc__':
                return ast.get_docstring(obj.node) if not isinstance(
                    obj.node, ast.Lambda) else None
            if name == '__dict__':
                return self.alias_dict(obj.attrs)
            if name == '__get__':
                return HostFunc('func.__get__', lambda it, a, k:
                                it.bind(obj, a[0]) if a[0] is not None
                                else obj)
            if name == '__call__':
                return obj
            if name == '__wrapped__':
                self.raise_('AttributeError', name)
            if name in ('__defaults__', '__code__', '__globals__',
                        '__annotations__', '__kwdefaults__', '__closure__'):
                return Term('attr', (obj, name))
            self.raise_('AttributeError', 'function has no %s' % name)
        if isinstance(obj, Bound):
            if name == '__self__':
                return obj.self
            if name == '__func__':
                return obj.func
            if name == '__call__':
                return obj
            if isinstance(obj.func, BMethod):
                if name == '__name__':
                    return obj.func.name
                if name == '__doc__':
                    return Term('attr', (obj.func, name), 'str')
                self.raise_('AttributeError', name)
            return self.getattr_(obj.func, name)
        if isinstance(obj, (HostFunc, BMethod)):
            if name in (getattr(obj, 'attrs', None) or ()):
                return obj.attrs[name]
            if name in ('__name__', '__qualname__'):
                return obj.name
            if name in ('__doc__', '__module__'):
                return None
            if name == '__get__':
                return HostFunc('__get__', lambda it, a, k: it.bind(obj, a[0]))
            if name == '__call__':
                return obj
            self.raise_('AttributeError', 'no attribute %s' % name)
        if isinstance(obj, IterV):
            if name == '__class__':
                return self.type_of(obj)
            if name in ('__iter__', '__next__') or (
                    obj.kind == 'generator' and
                    name in ('close', 'send', 'throw')):
                return Bound(BMethod('iterator', name), obj)
            self.raise_('AttributeError', 'iterator has no %s' % name)
        if isinstance(obj, SliceV):
            if name in ('start', 'stop', 'step'):
                return {'start': obj.a, 'stop': obj.b, 'step': obj.c}[name]
            if name == 'indices':
                return Bound(BMethod('slice', name), obj)
        # scalars / tuples / terms
        if name == '__class__':
            c = self.type_of(obj)
            if c is not None:
                return c
            return Term('attr', (obj, '__class__'))
        c = self.type_of(obj)
        if c is not None and not isinstance(obj, Term):
            m = self.find_cls_attr(c, name)
            if m is None:
                self.raise_('AttributeError', '%s has no attribute %s'
                            % (c.name, name))
            return self.bind(m, obj)
        if isinstance(obj, Term):
            if c is not None and c.kind == 'builtin' and c.name != 'object':
                m = self.find_cls_attr(c, name)
                if m is None:
                    self.raise_('AttributeError', '%s has no attribute %s'
                                % (c.name, name))
                return self.bind(m, obj)
            if c is not None and c.kind == 'repo':
                m = self.find_cls_attr(c, name)
                if m is not None and not isinstance(m, BMethod):
                    return self.bind(m, obj)
            return self.opaque_attr(obj, name, soft)
        raise Unsupported('getattr %r.%s' % (obj, name))

    def opaque_attr(self, obj, name, soft=False):
        h = self.hooks.get('opaque_attr')
        if h is not None:
            r = h(self, obj, name)
            if r is not None:
                return r[0]
        f = self.facts
        over = f.truth.get(Term('hasattr', (obj, name), 'bool'))
        if over is False:
            self.raise_('AttributeError', name)
        if soft and over is None:
            if not self.truth_term(Term('hasattr', (obj, name), 'bool')):
                self.raise_('AttributeError', name)
        t = Term('attr', (obj, name), ATTR_TY.get(name))
        if name in RANGES:
            lo, hi = RANGES[name]
            L = f.lin_of(t)
            if L is not None and not f.lin_entails(L - f.lin_of(lo)):
                f.add_lin(L - f.lin_of(lo))
                f.add_lin(f.lin_of(hi) - L)
        return t

    def alias_dict(self, host):
        o = Obj(self.b('dict'), None, DictData())
        o.data.items = host
        return o

    def getattr_obj(self, obj, name, soft=False):
        cls = obj.cls
        m = self.find_cls_attr(cls, name, missing=MISSING) if name not in (
            '__class__', '__dict__') else MISSING
        if m is not MISSING and self.is_data_descr(m):
            return self.bind(m, obj)
        if name in obj.attrs:
            return obj.attrs[name]
        if name == '__class__':
            return cls
        if name == '__dict__':
            self.touch(obj)
            return self.alias_dict(obj.attrs)
        if m is not MISSING:
            return self.bind(m, obj)
        if cls.kind == 'builtin' and cls.name == 'property' and \
                name in ('fget', 'fset', 'fdel', '__doc__'):
            return obj.attrs.get(name)
        if name == '__doc__':
            return None
        if name == '__module__':
            return cls.module
        g = self.find_cls_attr(cls, '__getattr__')
        if g is not None and not isinstance(g, BMethod):
            return self.call(self.bind(g, obj), [name])
        h = self.hooks.get('obj_attr')
        if h is not None:
            r = h(self, obj, name)
            if r is not None:
                return r[0]
        for c in cls.mro:
            if c.kind == 'ext':
                r = self.prog.ext_obj_attr(self, obj, c, name, soft)
                if r is not None:
                    return r
        if obj.open:
            return self.opaque_attr(Term('obj', (obj,)), name, soft)
        self.raise_('AttributeError', "%r object has no attribute %r"
                    % (cls.name, name))

    def getattr_cls(self, cls, name):
        if name == '__name__':
            return cls.name
        if name == '__qualname__':
            return cls.name
        if name == '__mro__':
            return Tup(cls.mro)
        if name == '__bases__':
            return Tup(cls.bases)
        if name == '__class__':
            return self.b('type')
        if name == 'mro':
            return HostFunc('mro', lambda it, a, k: it.mk_list(cls.mro))
        if name == '__dict__':
            return self.alias_dict(dict(cls.ns))
        if name == '__module__':
            return cls.module
        if name == '__doc__':
            return cls.ns.get('__doc__')
        m = self.find_cls_attr(cls, name, missing=MISSING)
        if m is MISSING:
            if name == '__subclasses__':
                return HostFunc('subs', lambda it, a, k: it.mk_list(
                    it.prog.subclasses(cls)))
            for c in cls.mro:
                if c.kind == 'ext':
                    return self.prog.ext_attr(self, Ext(c.qual), name)
            if name in ('__init__', '__new__'):
                return BMethod('object', name)
            self.raise_('AttributeError', 'class %s has no attribute %s'
                        % (cls.name, name))
        if isinstance(m, Obj):
            kind = m.cls.name if m.cls.kind == 'builtin' else None
            if kind == 'staticmethod':
                return m.attrs['func']
            if kind == 'classmethod':
                return Bound(m.attrs['func'], cls)
            if kind == 'property':
                return m
            g = self.find_cls_attr(m.cls, '__get__')
            if g is not None and not isinstance(g, BMethod):
                return self.call(self.bind(g, m), [None, cls])
            return m
        if isinstance(m, BMethod) and (m.cls, m.name) in CLASSMETHODS:
            return Bound(m, cls)
        return m

    def setattr(self, obj, name, v):
        obj = self.facts.norm(obj)
        if isinstance(obj, Obj):
            m = self.find_cls_attr(obj.cls, name)
            if isinstance(m, Obj):
                s = self.find_cls_attr(m.cls, '__set__')
                if s is not None and not isinstance(s, BMethod):
                    self.call(self.bind(s, m), [obj, v])
                    return
                if m.cls.is_sub(self.b('property')):
                    fset = m.attrs.get('fset')
                    if fset is None:
                        self.raise_('AttributeError', "can't set attribute "
                                    + name)
                    self.call(fset, [obj, v])
                    return
            s = self.user_method(obj, '__setattr__')
            if s is not None:
                self.call(self.bind(s, obj), [name, v])
                return
            if name == '__class__':
                self.touch(obj)
                obj.cls = v
                return
            self.touch(obj)
            obj.attrs[name] = v
            self.event('setattr', obj, name, v)
            return
        if isinstance(obj, ClassV):
            self.touch(obj)
            if name == '__name__' and isinstance(v, str):
                obj.name = v
                return
            obj.ns[name] = v
            return
        if isinstance(obj, ModuleV):
            self.touch(obj)
            obj.ns[name] = v
            return
        if isinstance(obj, Func):
            self.touch(obj)
            if name == '__name__':
                obj.name = v
            obj.attrs[name] = v
            return
        if isinstance(obj, (Term, Ext)):
            self.event('setattr', obj, name, v)
            return
        if isinstance(obj, IterV):
            self.raise_('AttributeError', name)
        self.raise_('AttributeError', 'cannot set %s' % name)

    def delattr(self, obj, name):
        obj = self.facts.norm(obj)
        if isinstance(obj, Obj):
            m = self.find_cls_attr(obj.cls, name)
            if isinstance(m, Obj):
                s = self.find_cls_attr(m.cls, '__delete__')
                if s is not None and not isinstance(s, BMethod):
                    self.call(self.bind(s, m), [obj])
                    return
                if m.cls.is_sub(self.b('property')):
                    fdel = m.attrs.get('fdel')
                    if fdel is None:
                        self.raise_('AttributeError', 'cannot delete')
                    self.call(fdel, [obj])
                    return
            if name in obj.attrs:
                self.touch(obj)
                del obj.attrs[name]
                self.event('delattr', obj, name)
                return
            self.raise_('AttributeError', name)
        if isinstance(obj, (ClassV, ModuleV)):
            self.touch(obj)
            if name not in obj.ns:
                self.raise_('AttributeError', name)
            del obj.ns[name]
            return
        self.event('delattr', obj, name)

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.facts.norm(f)
        self.steps += 1
        if self.steps > 400000:
            raise Pruned('step bound', True)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, HostFunc):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BMethod):
            return self.prog.call_bmethod(self, f, list(args), kwargs)
        if isinstance(f, Ext):
            return self.prog.call_ext(self, f, list(args), kwargs)
        if isinstance(f, Obj):
            m = self.find_cls_attr(f.cls, '__call__')
            if m is not None and not isinstance(m, BMethod):
                return self.call(self.bind(m, f), args, kwargs)
            if f.cls.is_sub(self.b('partial')):
                kw = dict(f.attrs['kw'])
                kw.update(kwargs)
                return self.call(f.attrs['func'],
                                 list(f.attrs['args']) + list(args), kw)
            if f.cls.kind == 'builtin' and f.cls.name in (
                    'staticmethod', 'classmethod'):
                return self.call(f.attrs['func'], args, kwargs)
            if not f.open:
                self.raise_('TypeError', '%s object is not callable'
                            % f.cls.name)
            f = Term('obj', (f,))
        if isinstance(f, Term):
            return self.call_opaque(f, list(args), kwargs)
        if is_scalar(f) or isinstance(f, (Tup, ModuleV)):
            self.raise_('TypeError', '%s is not callable' % (show(f),))
        raise Unsupported('call %r' % (f,))

    def call_opaque(self, f, args, kwargs):
        h = self.hooks.get('opaque_call')
        self.counter += 1
        n = self.counter
        self.event('call', f, tuple(args), dict(kwargs))
        if self.raise_all:
            if self.choose(2, 'call %s returns/raises' % show(f)):
                self.raise_(self.prog.opaque_error)
        else:
            oe = self.prog.opaque_error
            if self.would_catch_opaque():
                if self.choose(2, 'call %s returns/raises' % show(f)):
                    self.raise_(oe)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not None:
                return r[0]
        ty = None
        if f.op == 'attr':
            ty = CALL_TY.get(f.args[1])
        return Term('call', (f, Tup([a for a in args if not isinstance(
            a, (IterV, SliceV))]), n), ty)

    def would_catch_opaque(self):
        return bool(self.hooks.get('opaque_raises'))

    def bind_args(self, func, args, kwargs):
        node = func.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                self.raise_('TypeError', '%s() takes %d positional arguments '
                            'but %d were given' % (func.name, len(names),
                                                   len(args)))
            out[a.vararg.arg] = Tup(args[len(names):])
        elif a.vararg:
            out[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in names and k not in posonly or k in kwnames:
                if k in out:
                    self.raise_('TypeError', '%s() got multiple values for '
                                'argument %r' % (func.name, k))
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_('TypeError', '%s() got an unexpected keyword '
                            'argument %r' % (func.name, k))
        if a.kwarg:
            out[a.kwarg.arg] = self.mk_dict(extra)
        nd = len(func.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0:
                    out[n] = func.defaults[j]
                else:
                    self.raise_('TypeError', '%s() missing required argument '
                                '%r' % (func.name, n))
        for n in kwnames:
            if n not in out:
                if n in func.kwdefaults:
                    out[n] = func.kwdefaults[n]
                else:
                    self.raise_('TypeError', '%s() missing keyword-only '
                                'argument %r' % (func.name, n))
        return out

    def call_func(self, func, args, kwargs):
        if self.overrides and func in self.overrides:
            return self.overrides[func].fn(self, list(args), kwargs)
        h = self.hooks.get('enter')
        if h is not None:
            r = h(self, func, args, kwargs)
            if r is not None:
                return r[0]
        if len(self.stack) > 80:
            raise Unsupported('call depth at %s' % func.qual)
        vars_ = self.bind_args(func, args, kwargs)
        locs, globs, nonl, gen = fn_info(func.node)
        sc = Scope(func.module, func.closure, locs, func)
        sc.globs, sc.nonloc = globs, nonl
        sc.vars = vars_
        sc.cls = func.cls
        self.prog.analysed.add((func.module.name, func.qual))
        if gen:
            g = IterV(self.gen_driver(func, sc), 'generator', func)
            return g
        saved = (self.mod, self.line)
        self.mod = func.module
        self.stack.append(func)
        try:
            if isinstance(func.node, ast.Lambda):
                return self.eval(func.node.body, sc)
            sig = self.run_block(func.node.body, sc)
            if sig is not None and sig[0] == 'return':
                return sig[1]
            return None
        finally:
            if len(self.stack) == 1:
                self.last_loc = self.loc()
            self.stack.pop()
            self.mod, self.line = saved

    def run_block(self, stmts, sc):
        g = self.exec_block(stmts, sc)
        try:
            next(g)
        except StopIteration as e:
            return e.value
        raise Unsupported('yield outside generator')

    def gen_driver(self, func, sc):
        it = self.exec_block(func.node.body, sc)
        saved_h, saved_e = [], []
        send, throw = None, None
        while True:
            hb, eb = len(self.handlers), len(self.excs)
            self.handlers.extend(saved_h)
            self.excs.extend(saved_e)
            sv = (self.mod, self.line)
            self.mod = func.module
            self.stack.append(func)
            done = False
            try:
                try:
                    if throw is not None:
                        t, throw = throw, None
                        v = it.throw(t)
                    else:
                        v = it.send(send)
                except StopIteration as e:
                    done = True
                    sig = e.value
                except PyRaise as e:
                    if self.exc_is(e.val, 'StopIteration'):
                        self.raise_('RuntimeError',
                                    'generator raised StopIteration')
                    raise
            finally:
                self.stack.pop()
                self.mod, self.line = sv
                saved_h = self.handlers[hb:]
                saved_e = self.excs[eb:]
                del self.handlers[hb:]
                del self.excs[eb:]
            if done:
                return sig[1] if sig is not None and sig[0] == 'return' \
                    else None
            try:
                send = yield v
            except PyRaise as e:
                throw = e

    def instantiate(self, cls, args, kwargs):
        if cls.kind == 'ext':
            return self.prog.new_ext(self, cls, args, kwargs)
        new = self.find_cls_attr(cls, '__new__')
        if new is not None and not isinstance(new, BMethod):
            f = new.attrs['func'] if isinstance(new, Obj) else new
            obj = self.call(f, [cls] + list(args), kwargs)
            if not (isinstance(obj, Obj) and obj.cls.is_sub(cls)):
                return obj
        else:
            r = self.prog.builtin_new(self, cls, args, kwargs)
            if not isinstance(r, Obj):
                return r
            obj = r
        if cls.kind == 'repo':
            self.event('new', obj, cls, tuple(args), dict(kwargs))
        init = self.find_cls_attr(cls, '__init__')
        if init is None:
            for c in cls.mro:
                if c.kind == 'ext':
                    return obj
            return obj
        if isinstance(init, BMethod):
            self.prog.call_bmethod(self, init, [obj] + list(args), kwargs)
        else:
            self.call(self.bind(init, obj), args, kwargs)
        return obj

    # ------------------------------------------------------------------
    # iteration
    # ------------------------------------------------------------------
    def iterate(self, v):
        """host generator over the abstract elements of v"""
        v = self.facts.norm(v)
        if isinstance(v, Tup):
            yield from v.items
            return
        if isinstance(v, str):
            for ch in v:
                yield ch
            return
        if isinstance(v, bytes):
            for ch in v:
                yield ch
            return
        if isinstance(v, FSet):
            yield from sorted(v.items, key=repr)
            return
        if isinstance(v, IterV):
            while True:
                try:
                    x = self.next_(v)
                except _Stop:
                    return
                yield x
        if isinstance(v, Obj):
            m = self.find_cls_attr(v.cls, '__iter__')
            if m is not None and not isinstance(m, BMethod):
                r = self.call(self.bind(m, v), [])
                if r is v:
                    yield from self.iter_next(v)
                else:
                    yield from self.iterate(r)
                return
            d = v.data
            if isinstance(d, ListData):
                i = 0
                while i < len(v.data.items):
                    yield v.data.items[i]
                    i += 1
                return
            if isinstance(d, DictData):
                for k in list(d.items):
                    yield None if k is KNONE else k
                if d.open:
                    yield from self.open_keys(v)
                return
            if isinstance(d, SetData):
                for k in list(d.items):
                    yield None if k is KNONE else k
                return
            if v.cls.name == 'bytearray' and 'val' in v.attrs:
                yield from self.iterate(v.attrs['val'])
                return
            if self.user_method(v, '__next__') is not None:
                yield from self.iter_next(v)
                return
            gi = self.user_method(v, '__getitem__')
            if gi is not None:
                i = 0
                while True:
                    try:
                        x = self.call(self.bind(gi, v), [i])
                    except PyRaise as e:
                        if self.exc_is(e.val, 'IndexError'):
                            return
                        raise
                    yield x
                    i += 1
                    if i > 50:
                        raise Pruned('getitem iteration', True)
            for c in v.cls.mro:
                if c.kind == 'ext':
                    yield from self.iterate_term(Term('obj', (v,)))
                    return
            if v.open:
                yield from self.iterate_term(Term('obj', (v,)))
                return
            self.raise_('TypeError', '%s object is not iterable' % v.cls.name)
        if isinstance(v, Term):
            k = _kind(self.facts, v)
            if k in ('int', 'float', 'bool', 'none'):
                self.raise_('TypeError', '%s object is not iterable' % k)
            yield from self.iterate_term(v)
            return
        if v is None or is_scalar(v):
            self.raise_('TypeError', '%r object is not iterable'
                        % type(v).__name__)
        if isinstance(v, (Func, Bound, ClassV, HostFunc)):
            self.raise_('TypeError', 'object is not iterable')
        if isinstance(v, Ext):
            yield from self.iterate_term(Term('ext', (v.name,)))
            return
        raise Unsupported('iterate %r' % (v,))

    def open_keys(self, v):
        d = v.data
        i = 0
        while True:
            more = Term('more', (d.open, i), 'bool')
            if i >= self.LOOP_K:
                if self.facts.truth.get(more) is None:
                    self.bounded.add('open dict %s' % d.open)
                return
            if not self.truth_term(more):
                return
            k = Term('key', (d.open, i), 'str')
            for e in list(d.items) + list(d.absent):
                self.facts.ne.add((k, e))
            d.items[k] = Term('val', (d.open, i), d.valty if isinstance(
                d.valty, str) else None)
            yield k
            i += 1

    def iter_next(self, v):
        m = self.find_cls_attr(v.cls, '__next__')
        n = 0
        while True:
            c0 = len(self.trace)
            try:
                x = self.call(self.bind(m, v), [])
            except PyRaise as e:
                if self.exc_is(e.val, 'StopIteration'):
                    return
                raise
            yield x
            n += 1
            if n > self.WHILE_MAX and len(self.trace) > c0 or n > 2000:
                self.bounded.add('iterator loop')
                raise Pruned('iterator loop bound', True)

    def elem_ty(self, t):
        if t.op in ('m:split', 'm:rsplit', 'm:splitlines', 'm:partition'):
            return t.ty_hint if hasattr(t, 'ty_hint') else _kind(
                self.facts, t.args[0])
        k = _kind(self.facts, t)
        if k == 'str':
            return 'str'
        if k == 'bytes':
            return 'int'
        if t.op == 'ext':
            return ELEM_TY.get(t.args[0])
        return None

    def elem(self, t, i):
        h = self.hooks.get('elem')
        if h is not None:
            r = h(self, t, i)
            if r is not None:
                return r[0]
        x = Term('elem', (t, i), self.elem_ty(t))
        if _kind(self.facts, t) == 'str':
            self.facts.truth[x] = True
        return x

    def iterate_term(self, t):
        i = 0
        rec = self.facts.iters.setdefault(t, [0, None])
        if t.op in ('m:split', 'm:rsplit'):
            if rec[0] == 0 and not (len(t.args) == 1 or t.args[1] is None):
                rec[0] = 1
        maxn = None
        if t.op in ('m:split', 'm:rsplit') and len(t.args) > 2 and \
                isinstance(t.args[2], int) and t.args[2] >= 0:
            maxn = t.args[2] + 1
        while True:
            if rec[1] is not None and i >= rec[1]:
                return
            if i >= rec[0]:
                if maxn is not None and i >= maxn:
                    rec[1] = i
                    return
                if i >= self.LOOP_K and not (maxn and maxn <= 4):
                    self.bounded.add('iteration of %s' % show(t)[:60])
                    rec[1] = i
                    return
                if i == 1 and t.op in ('m:split', 'm:rsplit') and \
                        len(t.args) > 1 and \
                        isinstance(t.args[1], (str, bytes)) and maxn != 1:
                    # a second piece exists iff the separator occurs
                    if not self.contains(t.args[0], t.args[1]):
                        rec[1] = i
                        return
                    rec[0] = i + 1
                    yield self.elem(t, i)
                    i += 1
                    continue
                if self.choose(2, 'iteration %d of %s' % (i, show(t))) == 0:
                    rec[1] = i
                    if i == 0:
                        self.facts.truth.setdefault(t, False) if _kind(
                            self.facts, t) not in ('str', 'bytes') else None
                    return
                rec[0] = i + 1
            if self.raise_all and t.op not in ('m:split', 'm:rsplit'):
                if self.choose(2, 'iterating %s raises' % show(t)):
                    self.raise_(self.prog.opaque_error)
            yield self.elem(t, i)
            i += 1

    def iter_(self, v):
        v = self.facts.norm(v)
        if isinstance(v, IterV):
            return v
        if isinstance(v, Obj):
            m = self.find_cls_attr(v.cls, '__iter__')
            if m is not None and not isinstance(m, BMethod):
                return self.call(self.bind(m, v), [])
            if v.data is None and self.find_cls_attr(v.cls, '__next__') \
                    is not None:
                return v
            if v.data is None and not v.open and \
                    self.user_method(v, '__getitem__') is None and \
                    not any(c.kind == 'ext' for c in v.cls.mro):
                self.raise_('TypeError', 'not iterable')
        if v is None or isinstance(v, (bool, int, float)):
            self.raise_('TypeError', '%r object is not iterable'
                        % type(v).__name__)
        if isinstance(v, Term) and _kind(self.facts, v) is None and \
                self.hooks.get('opaque_iter'):
            r = self.hooks['opaque_iter'](self, v)
            if r is not None:
                return r
        return IterV(self.iterate(v), 'iterator', v)

    def next_(self, itv):
        """advance; raises _Stop (host) at the end"""
        if isinstance(itv, IterV):
            if itv.done:
                raise _Stop()
            itv.started = True
            try:
                return next(itv.gen)
            except StopIteration as e:
                itv.done = True
                raise _Stop(e.value)
            except PyRaise:
                itv.done = True
                raise
            except ValueError as e:
                if 'already executing' in str(e):
                    self.raise_('ValueError', 'generator already executing')
                raise
        if isinstance(itv, Obj):
            m = self.find_cls_attr(itv.cls, '__next__')
            if m is not None:
                try:
                    return self.call(self.bind(m, itv), [])
                except PyRaise as e:
                    if self.exc_is(e.val, 'StopIteration'):
                        raise _Stop()
                    raise
            if not itv.open:
                self.raise_('TypeError', 'not an iterator')
        if isinstance(itv, Term):
            n = self.facts.iters.setdefault(('next', itv), [0, None])
            if n[1] is not None:
                raise _Stop()
            if n[0] >= self.LOOP_K:
                self.bounded.add('next(%s)' % show(itv)[:60])
                n[1] = True
                raise _Stop()
            if self.raise_all and self.choose(2, 'next raises'):
                self.raise_(self.prog.opaque_error)
            if self.choose(2, 'next %d of %s' % (n[0], show(itv))) == 0:
                n[1] = True
                raise _Stop()
            n[0] += 1
            return self.elem(itv, n[0] - 1)
        self.raise_('TypeError', 'not an iterator')

    def close_iter(self, itv):
        if itv.kind != 'generator':
            return
        if not itv.started or itv.done:
            itv.done = True
            return
        itv.done = True
        try:
            itv.gen.throw(PyRaise(self.instantiate(
                self.exc_class('GeneratorExit'), [], {}), self.loc()))
        except StopIteration:
            return
        except PyRaise as e:
            if self.exc_is(e.val, 'GeneratorExit') or \
                    self.exc_is(e.val, 'StopIteration'):
                return
            raise
        self.raise_('RuntimeError', 'generator ignored GeneratorExit')

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, stmts, sc):
        for s in stmts:
            sig = yield from self.exec_stmt(s, sc)
            if sig is not None:
                return sig
        return None

    def exec_stmt(self, s, sc):
        self.line = getattr(s, 'lineno', self.line)
        self.steps += 1
        k = type(s)
        if k is ast.Expr:
            v = s.value
            if isinstance(v, ast.Yield):
                yield (self.eval(v.value, sc) if v.value is not None else None)
                self.mod = sc.module
                return None
            if isinstance(v, ast.YieldFrom):
                yield from self.yield_from(self.eval(v.value, sc))
                return None
            if not isinstance(v, ast.Constant):
                self.eval(v, sc)
            return None
        if k is ast.Assign:
            v = s.value
            if isinstance(v, ast.Yield):
                val = yield (self.eval(v.value, sc)
                             if v.value is not None else None)
            elif isinstance(v, ast.YieldFrom):
                val = yield from self.yield_from(self.eval(v.value, sc))
            else:
                val = self.eval(v, sc)
            for t in s.targets:
                self.assign(t, val, sc)
            return None
        if k is ast.Return:
            if s.value is None:
                return ('return', None)
            if isinstance(s.value, ast.YieldFrom):
                r = yield from self.yield_from(self.eval(s.value.value, sc))
                return ('return', r)
            return ('return', self.eval(s.value, sc))
        if k is ast.If:
            if self.truth(self.eval(s.test, sc)):
                return (yield from self.exec_block(s.body, sc))
            return (yield from self.exec_block(s.orelse, sc))
        if k is ast.For:
            return (yield from self.exec_for(s, sc))
        if k is ast.While:
            n = 0
            c0 = len(self.trace)
            while True:
                self.line = s.lineno
                if not self.truth(self.eval(s.test, sc)):
                    sig = yield from self.exec_block(s.orelse, sc)
                    return sig
                sig = yield from self.exec_block(s.body, sc)
                if sig is not None:
                    if sig is BREAK:
                        break
                    if sig is not CONTINUE:
                        return sig
                n += 1
                if n > self.WHILE_MAX and len(self.trace) > c0:
                    self.bounded.add('while loop at %s' % self.loc())
                    raise Pruned('while bound', True)
                if n > 3000:
                    raise Pruned('no progress in loop at %s' % self.loc(),
                                 True)
            return None
        if k is ast.Raise:
            self.exec_raise(s, sc)
        if k is ast.Try or k.__name__ == 'TryStar':
            return (yield from self.exec_try(s, sc))
        if k is ast.With:
            return (yield from self.exec_with(s, list(s.items), sc))
        if k is ast.FunctionDef:
            f = self.make_func(s, sc)
            for d in reversed(s.decorator_list):
                f = self.call(self.eval(d, sc), [f])
            self.store(s.name, f, sc)
            return None
        if k is ast.ClassDef:
            self.store(s.name, self.make_class(s, sc), sc)
            return None
        if k is ast.AugAssign:
            self.aug_assign(s, sc)
            return None
        if k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, sc), sc)
            return None
        if k is ast.Pass:
            return None
        if k is ast.Break:
            return BREAK
        if k is ast.Continue:
            return CONTINUE
        if k is ast.Delete:
            for t in s.targets:
                self.delete(t, sc)
            return None
        if k is ast.Assert:
            if not self.truth(self.eval(s.test, sc)):
                self.raise_('AssertionError', *(
                    [self.eval(s.msg, sc)] if s.msg is not None else []))
            return None
        if k is ast.Import:
            for al in s.names:
                m = self.prog.import_name(al.name, self)
                if al.asname:
                    self.store(al.asname, m, sc)
                else:
                    top = al.name.split('.')[0]
                    self.store(top, self.prog.import_top(top, self), sc)
            return None
        if k is ast.ImportFrom:
            self.import_from(s, sc)
            return None
        if k is ast.Global or k is ast.Nonlocal:
            return None
        raise Unsupported('statement %s at %s' % (k.__name__, self.loc()))

    def import_from(self, s, sc):
        name = s.module or ''
        if s.level:
            base = sc.module.name.split('.')
            if not sc.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        for al in s.names:
            if al.name == '*':
                m = self.prog.import_name(name, self)
                if not isinstance(m, ModuleV):
                    raise Unsupported('import * from %s' % name)
                names = m.ns.get('__all__')
                if names is not None:
                    names = [x for x in self.iterate(names)]
                else:
                    names = [n for n in m.ns if not n.startswith('_')]
                for n in names:
                    self.store(n, m.ns[n], sc)
                continue
            v = self.prog.import_attr(name, al.name, self)
            self.store(al.asname or al.name, v, sc)

    def yield_from(self, v):
        h = self.hooks.get('yield_from')
        it = self.iter_(v)
        while True:
            try:
                x = self.next_(it)
            except _Stop as e:
                return e.value
            try:
                yield x
            except PyRaise as e:
                if self.exc_is(e.val, 'GeneratorExit'):
                    if isinstance(it, IterV):
                        self.close_iter(it)
                    else:
                        c = self.getattr(it, 'close', None, True)
                        if c is not None:
                            self.call(c, [])
                    raise
                if isinstance(it, IterV) and it.kind == 'generator':
                    try:
                        x = it.gen.throw(e)
                    except StopIteration as st:
                        return st.value
                    yield x
                    continue
                raise

    def exec_for(self, s, sc):
        itv = self.iter_(self.eval(s.iter, sc))
        n = 0
        c0 = len(self.trace)
        while True:
            self.line = s.lineno
            try:
                x = self.next_(itv)
            except _Stop:
                return (yield from self.exec_block(s.orelse, sc))
            self.assign(s.target, x, sc)
            sig = yield from self.exec_block(s.body, sc)
            if sig is not None:
                if sig is BREAK:
                    return None
                if sig is not CONTINUE:
                    return sig
            n += 1
            if n > 3000 or n > 40 and len(self.trace) > c0 + 60:
                raise Pruned('for loop bound at %s' % self.loc(), True)

    def exec_raise(self, s, sc):
        if s.exc is None:
            if not self.excs:
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise self.excs[-1]
        v = self.facts.norm(self.eval(s.exc, sc))
        if isinstance(v, ClassV):
            v = self.call(v, [])
        if s.cause is not None:
            self.eval(s.cause, sc)
        if isinstance(v, Term):
            raise PyRaise(v, self.loc())
        if not (isinstance(v, Obj) and
                v.cls.is_sub(self.exc_class('BaseException'))):
            self.raise_('TypeError', 'exceptions must derive from '
                        'BaseException')
        raise PyRaise(v, self.loc())

    def exc_match(self, val, typ):
        ts = typ.items if isinstance(typ, Tup) else [typ]
        for t in ts:
            if not isinstance(t, ClassV):
                raise Unsupported('except clause type %r' % (t,))
            if isinstance(val, Obj):
                if val.cls.is_sub(t):
                    return True
                if val.cls is self.prog.opaque_error and t.is_sub(
                        self.exc_class('Exception')):
                    at = Term('isexc', (val, t), 'bool')
                    if self.truth_term(at):
                        return True
            elif isinstance(val, Term):
                if t.name in ('Exception', 'BaseException'):
                    return True
                if self.truth_term(Term('isexc', (val, t), 'bool')):
                    return True
        return False

    def exec_try(self, s, sc):
        fin = s.finalbody
        try:
            sig = yield from self.exec_try_inner(s, sc)
        except (PyRaise, GeneratorExit) as e:
            if fin and isinstance(e, PyRaise):
                self.excs.append(e)
                try:
                    fsig = yield from self.exec_block(fin, sc)
                finally:
                    self.excs.pop()
                if fsig is not None:
                    return fsig
            raise
        if fin:
            fsig = yield from self.exec_block(fin, sc)
            if fsig is not None:
                return fsig
        return sig

    def exec_try_inner(self, s, sc):
        if not s.handlers:
            sig = yield from self.exec_block(s.body, sc)
            if sig is None and s.orelse:
                sig = yield from self.exec_block(s.orelse, sc)
            return sig
        frame = [(h, sc) for h in s.handlers]
        self.handlers.append(frame)
        popped = False
        try:
            try:
                sig = yield from self.exec_block(s.body, sc)
            finally:
                self.pop_handler(frame)
                popped = True
        except PyRaise as e:
            for h in s.handlers:
                self.line = h.lineno
                if h.type is not None:
                    t = self.eval(h.type, sc)
                    if not self.exc_match(e.val, t):
                        continue
                self.excs.append(e)
                if h.name:
                    self.store(h.name, e.val, sc)
                try:
                    sig = yield from self.exec_block(h.body, sc)
                finally:
                    if self.excs and self.excs[-1] is e:
                        self.excs.pop()
                    elif e in self.excs:
                        self.excs.remove(e)
                if h.name:
                    sc.vars.pop(h.name, None)
                return sig
            raise
        if sig is None and s.orelse:
            sig = yield from self.exec_block(s.orelse, sc)
        return sig

    def pop_handler(self, frame):
        for i in range(len(self.handlers) - 1, -1, -1):
            if self.handlers[i] is frame:
                del self.handlers[i]
                return

    def exec_with(self, s, items, sc):
        if not items:
            return (yield from self.exec_block(s.body, sc))
        it0 = items[0]
        mgr = self.eval(it0.context_expr, sc)
        exit_ = self.getattr(self.special(mgr), '__exit__') \
            if not isinstance(mgr, Obj) else self.bind(
                self.need(mgr, '__exit__'), mgr)
        enter = self.getattr(self.special(mgr), '__enter__') \
            if not isinstance(mgr, Obj) else self.bind(
                self.need(mgr, '__enter__'), mgr)
        v = self.call(enter, [])
        if it0.optional_vars is not None:
            self.assign(it0.optional_vars, v, sc)
        try:
            sig = yield from self.exec_with(s, items[1:], sc)
        except PyRaise as e:
            cls = e.val.cls if isinstance(e.val, Obj) else Term(
                'attr', (e.val, '__class__'))
            self.excs.append(e)
            try:
                r = self.call(exit_, [cls, e.val, Term('tb', (self.loc(),))])
            finally:
                if e in self.excs:
                    self.excs.remove(e)
            if self.truth(r):
                return None
            raise
        self.call(exit_, [None, None, None])
        return sig

    def special(self, v):
        return v

    def need(self, obj, name):
        m = self.find_cls_attr(obj.cls, name)
        if m is None:
            for c in obj.cls.mro:
                if c.kind == 'ext':
                    return Ext(c.qual + '.' + name)
            if obj.open:
                return HostFunc(name, lambda it, a, k: it.call_opaque(
                    Term('attr', (Term('obj', (obj,)), name)), a[1:], k),
                    True)
            self.raise_('TypeError', '%s has no %s' % (obj.cls.name, name))
        return m

    # names ---------------------------------------------------------------
    def store(self, name, v, sc):
        if sc.cls is not None and sc.func is None:
            sc.vars[name] = v
            return
        if name in sc.globs or sc.func is None and sc.parent is None and \
                sc.locals is None:
            m = sc.module
            if not self.loading:
                self.touch(m)
            m.ns[name] = v
            return
        if name in sc.nonloc:
            p = sc.parent
            while p is not None:
                if p.locals is not None and name in p.locals:
                    self.touch(p) if p in self.prog.base_scopes else None
                    p.vars[name] = v
                    return
                p = p.parent
        sc.vars[name] = v

    def lookup(self, name, sc):
        s = sc
        if name in s.globs:
            s = None
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            if s.locals is not None and name in s.locals and s is sc:
                if s.func is not None:
                    self.raise_('UnboundLocalError', name)
            s = s.parent
        ns = sc.module.ns
        if name in ns:
            return ns[name]
        if name in self.prog.builtins:
            return self.prog.builtins[name]
        if name == '__name__':
            return sc.module.name
        if name == '__debug__':
            return True
        if name == '__file__':
            return sc.module.path
        if name == 'NotImplemented':
            return NOTIMPL
        if name == 'Ellipsis':
            return Ellipsis
        self.raise_('NameError', name)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc), self.eval(t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, sc)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Unsupported('assign %r' % t)

    def unpack(self, elts, v, sc):
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                vals = self.unpack_values(v, len(elts) - 1, False)
                post = len(elts) - i - 1
                mid = vals[i:len(vals) - post]
                for ee, x in zip(elts[:i], vals[:i]):
                    self.assign(ee, x, sc)
                self.assign(e.value, self.mk_list(mid), sc)
                for ee, x in zip(elts[i + 1:], vals[len(vals) - post:]):
                    self.assign(ee, x, sc)
                return
        vals = self.unpack_values(v, len(elts), True)
        for e, x in zip(elts, vals):
            self.assign(e, x, sc)

    def unpack_values(self, v, n, exact):
        v = self.facts.norm(v)
        if isinstance(v, Term) and exact:
            k = _kind(self.facts, v)
            if k in ('int', 'float', 'bool', 'none'):
                self.raise_('TypeError', 'cannot unpack')
            if v.op in ('m:split', 'm:rsplit', 'm:partition',
                        'm:rpartition') or k == 'str' or \
                    (v.op == 'ext' and UNPACK_LEN.get(v.args[0]) is None
                     and False):
                if v.op in ('m:partition', 'm:rpartition'):
                    return [Term('item', (v, i), _kind(
                        self.facts, v.args[0])) for i in range(n)]
                vals = list(self.iterate(v))
                if len(vals) != n:
                    self.raise_('ValueError', 'unpack')
                return vals
            self.unpack_check(v, n)
            return [self.item(v, i) for i in range(n)]
        vals = list(self.iterate(v))
        if exact and len(vals) != n or len(vals) < n:
            self.raise_('ValueError', 'wrong number of values to unpack '
                        '(expected %d, got %d)' % (n, len(vals)))
        return vals

    def unpack_check(self, v, n):
        h = self.hooks.get('unpack')
        if h is not None:
            h(self, v, n)

    def item(self, v, i):
        h = self.hooks.get('item')
        if h is not None:
            r = h(self, v, i)
            if r is not None:
                return r[0]
        ty = None
        if v.op == 'ext':
            ty = ITEM_TY.get(v.args[0])
            if isinstance(ty, tuple):
                ty = ty[i] if isinstance(i, int) and -len(ty) <= i < len(ty) \
                    else None
        return Term('item', (v, i), ty)

    def delete(self, t, sc):
        if isinstance(t, ast.Name):
            if sc.func is None and sc.cls is None and sc.parent is None:
                sc.module.ns.pop(t.id, None)
            elif t.id in sc.vars:
                del sc.vars[t.id]
            else:
                self.raise_('NameError', t.id)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, sc), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, sc), self.eval(t.slice, sc))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, sc)

    def aug_assign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, sc)
            self.store(t.id, self.inplace(s.op, old, self.eval(s.value, sc)),
                       sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr,
                         self.inplace(s.op, old, self.eval(s.value, sc)))
        else:
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, old,
                                            self.eval(s.value, sc)))

    def inplace(self, op, a, b):
        a = self.facts.norm(a)
        if isinstance(a, Obj):
            nm = INPLACE.get(type(op))
            if nm:
                m = self.find_cls_attr(a.cls, nm)
                if m is not None:
                    r = self.call(self.bind(m, a), [b])
                    if r is not NOTIMPL:
                        return r
        return self.binop(op, a, b)

    # functions and classes ------------------------------------------------
    def make_func(self, node, sc):
        a = node.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = {x.arg: self.eval(d, sc)
               for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        closure = sc
        cls = None
        qual = name
        if sc.cls is not None and sc.func is None:
            qual = sc.cls.name + '.' + name
            closure = sc.parent
            cls = sc.cls
        elif sc.func is not None:
            qual = sc.func.qual + '.' + name
            cls = sc.func.cls
            s = sc
            while s is not None and s.func is None:
                s = s.parent
        while closure is not None and closure.func is None and \
                closure.locals is None:
            closure = closure.parent
        f = Func(name, node, sc.module, closure, defaults, kwd, cls, False,
                 qual)
        if self.loading and closure is not None:
            self.prog.base_scopes.add(closure)
        return f

    def make_class(self, node, sc):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.eval(b.value, sc)))
            else:
                bases.append(self.eval(b, sc))
        for k in node.keywords:
            self.eval(k.value, sc)
        bs = []
        for b in bases:
            if isinstance(b, Ext):
                b = self.prog.ext_class(b.name)
            if not isinstance(b, ClassV):
                raise Unsupported('base class %r at %s' % (b, self.loc()))
            bs.append(b)
        if not bs:
            bs = [self.b('object')]
        cls = ClassV.__new__(ClassV)
        try:
            cls.__init__(node.name, bs, {}, sc.module.name, 'repo', node)
        except MroError as e:
            self.raise_('TypeError', str(e))
        cls.base = self.loading
        body = Scope(sc.module, sc, None, None)
        body.cls = cls
        body.vars = {}
        sig = self.run_block(node.body, body)
        cls.ns.update(body.vars)
        doc = ast.get_docstring(node)
        if doc is not None:
            cls.ns.setdefault('__doc__', doc)
        if self.loading:
            self.prog.classes.append(cls)
        # __eq__ without __hash__ is unhashable; only matters for keys
        for nme, v in list(cls.ns.items()):
            if isinstance(v, Obj):
                sn = self.find_cls_attr(v.cls, '__set_name__')
                if sn is not None and not isinstance(sn, BMethod):
                    self.call(self.bind(sn, v), [cls, nme])
        isub = None
        for c in cls.mro[1:]:
            if '__init_subclass__' in c.ns:
                isub = c.ns['__init_subclass__']
                break
        if isub is not None:
            self.call(isub.attrs['func'] if isinstance(isub, Obj) else isub,
                      [cls])
        v = cls
        for d in reversed(node.decorator_list):
            v = self.call(self.eval(d, sc), [v])
        return v

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def eval(self, e, sc):
        k = type(e)
        if k is ast.Constant:
            return e.value
        if k is ast.Name:
            return self.lookup(e.id, sc)
        ln = getattr(e, 'lineno', None)
        if ln:
            self.line = ln
        m = getattr(self, 'eval_' + k.__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (k.__name__, self.loc()))
        return m(e, sc)

    def eval_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), self.mangle(e.attr, sc))

    def mangle(self, name, sc):
        return name

    def eval_Subscript(self, e, sc):
        return self.getitem(self.eval(e.value, sc), self.eval(e.slice, sc))

    def eval_Slice(self, e, sc):
        return SliceV(*[self.eval(x, sc) if x is not None else None
                        for x in (e.lower, e.upper, e.step)])

    def eval_Tuple(self, e, sc):
        return Tup(self.eval_elts(e.elts, sc))

    def eval_elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def eval_List(self, e, sc):
        return self.mk_list(self.eval_elts(e.elts, sc))

    def eval_Set(self, e, sc):
        return self.mk_set(self.eval_elts(e.elts, sc))

    def eval_Dict(self, e, sc):
        o = self.mk_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, sc)
                self.prog.call_bmethod(self, BMethod('dict', 'update'),
                                       [o, src], {})
            else:
                kk = self.eval(k, sc)
                self.dict_set(o, kk, self.eval(v, sc))
        return o

    def eval_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, sc)
            if self.truth(v) != isand:
                return v
        return self.eval(e.values[-1], sc)

    def eval_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        v = self.facts.norm(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Term):
                return Term('neg', (v,), v.ty)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported('unary at %s' % self.loc())

    def eval_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        self.line = e.lineno
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        from . import builtins_ as B
        return B.binop(self, op, self.facts.norm(a), self.facts.norm(b))

    def eval_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, sc)
            v = self.compare(op, left, right)
            if i == n - 1:
                return v
            if not self.truth(v):
                return v
            left = right

    def eval_IfExp(self, e, sc):
        if self.truth(self.eval(e.test, sc)):
            return self.eval(e.body, sc)
        return self.eval(e.orelse, sc)

    def eval_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s.func is not None and getattr(s, 'locals', None) is not None \
                and e.target.id not in s.locals and s.parent is not None:
            s = s.parent
        while s.func is None and s.locals is not None and \
                s.parent is not None:
            s = s.parent
        self.store(e.target.id, v, s)
        return v

    def eval_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def eval_JoinedStr(self, e, sc):
        from . import builtins_ as B
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.eval_FormattedValue(v, sc))
        return B.cat(self, parts, 'str')

    def eval_FormattedValue(self, v, sc):
        from . import builtins_ as B
        x = self.eval(v.value, sc)
        spec = ''
        if v.format_spec is not None:
            spec = self.eval(v.format_spec, sc)
        if v.conversion == 114:
            x = B.to_repr(self, x)
        elif v.conversion == 115:
            x = B.to_str(self, x)
        return B.format_value(self, x, spec)

    def eval_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            c = sc
            while c is not None and c.func is None:
                c = c.parent
            cls = c.func.cls
            first = c.func.node.args.args[0].arg
            o = c.vars[first]
            if isinstance(o, ClassV):
                return SuperV(cls, o, o)
            return SuperV(cls, o, self.type_of(o))
        if isinstance(e.func, ast.Name) and e.func.id in (
                'globals', 'locals', 'vars') and not e.args:
            if e.func.id == 'globals':
                if not self.loading:
                    self.touch(sc.module)
                return self.alias_dict(sc.module.ns)
            if sc.cls is not None and sc.func is None:
                return self.alias_dict(sc.vars)
            return self.mk_dict(dict(sc.vars))
        f = self.eval(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, sc)))
            else:
                args.append(self.eval(a, sc))
        kwargs = {}
        for kw in e.keywords:
            if kw.arg is None:
                d = self.facts.norm(self.eval(kw.value, sc))
                if isinstance(d, Obj) and isinstance(d.data, DictData):
                    if d.data.open:
                        for _ in self.open_keys(d):
                            pass
                    for k, v in d.data.items.items():
                        if isinstance(k, Term):
                            k = KwName(k)
                        kwargs[k] = v
                elif isinstance(d, Term):
                    kwargs[KwName(d)] = d
                else:
                    for k in self.iterate(d):
                        kwargs[k] = self.getitem(d, k)
            else:
                kwargs[kw.arg] = self.eval(kw.value, sc)
        self.line = e.lineno
        return self.call(f, args, kwargs)

    def eval_Starred(self, e, sc):
        return self.eval(e.value, sc)

    def comp_scope(self, sc):
        s = Scope(sc.module, sc, set(), None)
        s.func = sc.func
        s.cls = sc.cls if sc.func is not None else None
        s.locals = set()
        return s

    def comp_gen(self, gens, sc, out):
        """host generator running the nested loops, yielding out(scope)"""
        s = self.comp_scope(sc)
        first = self.iter_(self.eval(gens[0].iter, sc))

        def rec(i, itv):
            g = gens[i]
            while True:
                try:
                    x = self.next_(itv)
                except _Stop:
                    return
                self.assign_comp(g.target, x, s)
                if all(self.truth(self.eval(c, s)) for c in g.ifs):
                    if i + 1 < len(gens):
                        yield from rec(i + 1, self.iter_(
                            self.eval(gens[i + 1].iter, s)))
                    else:
                        yield out(s)
        return rec(0, first)

    def assign_comp(self, t, v, s):
        if isinstance(t, ast.Name):
            s.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack_values(v, len(t.elts), True)
            for e, x in zip(t.elts, vals):
                self.assign_comp(e, x, s)
        else:
            self.assign(t, v, s)

    def eval_ListComp(self, e, sc):
        return self.mk_list(self.comp_gen(e.generators, sc,
                                          lambda s: self.eval(e.elt, s)))

    def eval_SetComp(self, e, sc):
        return self.mk_set(self.comp_gen(e.generators, sc,
                                         lambda s: self.eval(e.elt, s)))

    def eval_DictComp(self, e, sc):
        o = self.mk_dict()
        for k, v in self.comp_gen(e.generators, sc, lambda s: (
                self.eval(e.key, s), self.eval(e.value, s))):
            self.dict_set(o, k, v)
        return o

    def eval_GeneratorExp(self, e, sc):
        g = self.comp_gen(e.generators, sc, lambda s: self.eval(e.elt, s))
        mod, func = sc.module, self.stack[-1] if self.stack else None

        def run():
            while True:
                sv = (self.mod, self.line)
                self.mod = mod
                try:
                    try:
                        v = next(g)
                    except StopIteration:
                        return
                finally:
                    self.mod, self.line = sv
                yield v
        return IterV(run(), 'generator', e)

    def eval_Yield(self, e, sc):
        raise Unsupported('yield inside expression at %s' % self.loc())

    # items ---------------------------------------------------------------
    def getitem(self, o, k):
        from . import builtins_ as B
        return B.getitem(self, self.facts.norm(o), self.facts.norm(k)
                         if not isinstance(k, SliceV) else k)

    def setitem(self, o, k, v):
        from . import builtins_ as B
        o = self.facts.norm(o)
        if isinstance(o, Obj):
            m = self.find_cls_attr(o.cls, '__setitem__')
            if m is not None and not isinstance(m, BMethod):
                self.call(self.bind(m, o), [k, v])
                return
            if m is None:
                for c in o.cls.mro:
                    if c.kind == 'ext':
                        self.event('setitem', o, k, v)
                        return
                if o.open:
                    self.event('setitem', o, k, v)
                    return
                self.raise_('TypeError', 'no item assignment')
            B.setitem(self, o, k, v)
            return
        if isinstance(o, Term) and self.ty(o) not in ('str', 'bytes', 'int',
                                                      'tuple'):
            if o.op.startswith('m:'):
                self.note_imprecise('assignment into an unknown list')
            self.event('setitem', o, k, v)
            return
        self.raise_('TypeError', 'object does not support item assignment')

    def delitem(self, o, k):
        from . import builtins_ as B
        o = self.facts.norm(o)
        if isinstance(o, Obj):
            m = self.find_cls_attr(o.cls, '__delitem__')
            if m is not None and not isinstance(m, BMethod):
                self.call(self.bind(m, o), [k])
                return
            if m is None:
                self.raise_('TypeError', 'no item deletion')
            B.delitem(self, o, k)
            return
        if isinstance(o, Term):
            if o.op.startswith('m:'):
                self.note_imprecise('deletion from an unknown list')
            self.event('delitem', o, k)
            return
        self.raise_('TypeError', 'object does not support item deletion')


class KwName(str):
    """keyword name that is not known statically"""
    def __new__(cls, term):
        s = str.__new__(cls, '**' + show(term))
        s.term = term
        return s


class _Stop(Exception):
    def __init__(self, value=None):
        self.value = value


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class _KNone:
    def __repr__(self):
        return 'None'


KNONE = _KNone()


def _hash_safe(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def _same_kind(k, items):
    return True


def cat_eq(a, b):
    """cancel common prefix/suffix of concatenations; returns bool, pair or
    None when nothing can be cancelled"""
    def parts(v):
        if isinstance(v, Term) and v.op == 'cat':
            return list(v.args)
        return [v]
    if not (isinstance(a, Term) and a.op == 'cat' or
            isinstance(b, Term) and b.op == 'cat'):
        return None
    if not all(isinstance(x, (Term, str, bytes)) for x in (a, b)):
        return None
    pa, pb = parts(a), parts(b)
    changed = False
    while pa and pb:
        x, y = pa[0], pb[0]
        if x is y or isinstance(x, (str, bytes)) and x == y:
            pa.pop(0), pb.pop(0)
            changed = True
        elif isinstance(x, (str, bytes)) and type(x) is type(y):
            if x.startswith(y):
                pa[0] = x[len(y):]
                pb.pop(0)
            elif y.startswith(x):
                pb[0] = y[len(x):]
                pa.pop(0)
            else:
                return False
            changed = True
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x is y or isinstance(x, (str, bytes)) and x == y:
            pa.pop(), pb.pop()
            changed = True
        elif isinstance(x, (str, bytes)) and type(x) is type(y):
            if x.endswith(y):
                pa[-1] = x[:len(x) - len(y)]
                pb.pop()
            elif y.endswith(x):
                pb[-1] = y[:len(y) - len(x)]
                pa.pop()
            else:
                return False
            changed = True
        else:
            break
    if not changed:
        return None
    pa = [p for p in pa if not (isinstance(p, (str, bytes)) and not p)]
    pb = [p for p in pb if not (isinstance(p, (str, bytes)) and not p)]
    if not pa and not pb:
        return True
    if not pa and any(isinstance(p, (str, bytes)) for p in pb) or \
            not pb and any(isinstance(p, (str, bytes)) for p in pa):
        return False
    empty = b'' if any(isinstance(p, bytes) or isinstance(p, Term) and
                       p.ty == 'bytes' for p in pa + pb) else ''

    def join(ps):
        if not ps:
            return empty
        if len(ps) == 1:
            return ps[0]
        return Term('cat', ps, 'str' if empty == '' else 'bytes')
    return (join(pa), join(pb))


INPLACE = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__',
           ast.BitOr: '__ior__', ast.BitAnd: '__iand__',
           ast.BitXor: '__ixor__'}
CLASSMETHODS = {('dict', 'fromkeys'), ('object', '__init_subclass__')}
# struct_time fields
RANGES = {'tm_mon': (1, 12), 'tm_mday': (1, 31), 'tm_hour': (0, 23),
          'tm_min': (0, 59), 'tm_sec': (0, 61), 'tm_wday': (0, 6),
          'tm_yday': (1, 366)}
ATTR_TY = dict({k: 'int' for k in RANGES}, filename=None, tm_year='int')
CALL_TY = {}
ELEM_TY = {'urllib.request.parse_http_list': 'str'}
ITEM_TY = {}
UNPACK_LEN = {}
ABCS = {}
