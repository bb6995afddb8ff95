"""Helpers shared by the property checks."""
from engine.interp import (PyRaise, Unsupported, Pruned, Violation,
                           AnchorMissing, Interp)
from engine.values import *
from engine.values import sym
from engine import strdom


class Scen:
    def __init__(self, name, fn, subject='', max_paths=None, max_time=None,
                 loop_k=None):
        self.name = name
        self.fn = fn
        self.subject = subject
        self.max_paths = max_paths
        self.max_time = max_time
        self.loop_k = loop_k


def oblige(it, n=1):
    it.res.obligations += n


def fail(it, msg, loc=None):
    raise Violation(msg, loc)


def require(it, cond, msg, loc=None):
    it.res.obligations += 1
    if not cond:
        raise Violation(msg, loc)


def attempt(it, fn, *a, **k):
    """('ok', value) or ('raise', exception object, location)"""
    try:
        return ('ok', fn(*a, **k), None)
    except PyRaise as e:
        return ('raise', e.val, e.loc)


def call(it, f, *args, **kw):
    return it.call(f, list(args), kw)


def meth(it, obj, name, *args, _kw=None, **kw):
    return it.call(it.getattr(obj, name), list(args), dict(kw, **(_kw or {})))


def exc_name(v):
    return v.cls.name if isinstance(v, Obj) else repr(v)


def is_exc(it, v, name):
    c = it.prog.builtins.get(name) if isinstance(name, str) else name
    return isinstance(v, Obj) and v.cls.is_sub(c)


_STUBS = {}


def stub(it, cname, **attrs):
    """opaque object with the given attributes only"""
    c = _STUBS.get(cname)
    if c is None:
        c = _STUBS[cname] = ClassV(cname, [it.prog.builtins['object']], {},
                                   kind='repo')
    return Obj(c, dict(attrs))


def host(name, fn):
    """HostFunc from a plain python function of the positional args"""
    return HostFunc(name, lambda it, a, k: fn(*a, **k))


def lin_le(it, a, b):
    """a <= b, splitting the partition when undecided"""
    return not it.less(b, a)


def add(it, a, b):
    import ast
    return it.binop(ast.Add(), a, b)


def sub(it, a, b):
    import ast
    return it.binop(ast.Sub(), a, b)


def thorough():
    import os
    return os.environ.get('VERIF_TIER') == 'thorough'


def word(it, name, cls, ty='str'):
    """an arbitrary non-empty string of characters of the class"""
    v = sym(name, ty)
    pat = cls + '+'
    if ty == 'bytes':
        pat = pat.encode('latin-1')
    it.facts.truth[v] = True
    it.facts.truth[Term('re', ('fullmatch', Tup((pat, 0)), v, 0),
                        'bool')] = True
    return v


def cat(it, *vs):
    import ast
    r = vs[0]
    for v in vs[1:]:
        r = it.binop(ast.Add(), r, v)
    return r
