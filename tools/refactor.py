#!/usr/bin/python3
"""refactor.py [--only T,T] [--prop C,C] [--file SUBSTR] [--jobs J]

Development aid: applies behaviour-preserving rewrites to every function of
the library (one kind of rewrite at a time), makes sure the tests still pass
and reports every check that raises an alarm, fails or loses precision.
Works on scratch copies under /tmp only.
"""
import argparse
import ast
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC')
FN = (ast.FunctionDef,)
N = [0]


def fresh(p='t'):
    N[0] += 1
    return '_%s%d' % (p, N[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def own_nodes(fn):
    """nodes of fn, not of nested functions or classes"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in
               own_nodes(fn))


class T(ast.NodeTransformer):
    """visits statements in functions only"""
    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        n = self.generic_visit(n)
        n.body = self.block(n.body, n)
        self.depth -= 1
        return self.function(n)

    def function(self, n):
        return n

    def block(self, body, owner):
        out = []
        for i, s in enumerate(body):
            r = self.stmt(s) if self.depth else s
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, n):
        n = super().generic_visit(n)
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b:
                    setattr(n, f, self.block(b, n))
        return n

    def stmt(self, s):
        return s


class Noop(T):
    def function(self, n):
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant) else 0
        n.body.insert(i, assign(fresh('unused'), ast.Constant(None)))
        return n


class ReturnTemp(T):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None:
            t = fresh('rv')
            return [assign(t, s.value), ast.Return(name(t))]
        return s


class InvertIf(T):
    def stmt(self, s):
        if isinstance(s, ast.If):
            return ast.If(ast.UnaryOp(ast.Not(), s.test),
                          s.orelse or [ast.Pass()], s.body)
        return s


class ForWhile(T):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            t = fresh('it')
            return [
                assign(t, ast.Call(name('iter'), [s.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Try([ast.Assign([s.target], ast.Call(
                        name('next'), [name(t)], []))],
                        [ast.ExceptHandler(name('StopIteration'), None,
                                           [ast.Break()])], [], [])
                ] + s.body, [])]
        return s


class CompLoop(T):
    """x = [e for ..] / return [e for ..] as loops"""

    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Return)):
            return s
        v = s.value
        if not isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
            return s
        names = {x.id for g in v.generators for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)}
        ren = {x: fresh('c') for x in names}
        v = copy.deepcopy(v)
        first = v.generators[0].iter
        v.generators[0].iter = ast.Constant(0)
        for x in ast.walk(v):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        v.generators[0].iter = first
        t = fresh('acc')
        if isinstance(v, ast.ListComp):
            init = ast.List([], ast.Load())
            inner = ast.Expr(ast.Call(ast.Attribute(
                name(t), 'append', ast.Load()), [v.elt], []))
        elif isinstance(v, ast.SetComp):
            init = ast.Call(name('set'), [], [])
            inner = ast.Expr(ast.Call(ast.Attribute(
                name(t), 'add', ast.Load()), [v.elt], []))
        else:
            init = ast.Dict([], [])
            inner = ast.Assign([ast.Subscript(name(t), v.key, ast.Store())],
                               v.value)
        for g in reversed(v.generators):
            for c in reversed(g.ifs):
                inner = ast.If(c, [inner], [])
            inner = ast.For(g.target, g.iter, [inner], [])
        s.value = name(t)
        return [assign(t, init), inner, s]


class Extract(ast.NodeTransformer):
    """bodies move into helpers"""

    def __init__(self):
        self.cls = None

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n
        body = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                body += self.fn(s, n.name)
            elif isinstance(s, ast.ClassDef):
                body.append(self.visit(s))
            else:
                body.append(s)
        n.body = body
        self.cls = old
        return n

    def visit_Module(self, n):
        body = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                body += self.fn(s, None)
            elif isinstance(s, ast.ClassDef):
                body.append(self.visit(s))
            else:
                body.append(s)
        n.body = body
        return n

    def fn(self, f, cls):
        a = f.args
        decs = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
        if a.posonlyargs or len(f.body) < 2 and isinstance(
                f.body[0], ast.Expr):
            return [f]
        if f.name == '__new__' or 'staticmethod' in decs:
            return [f]
        h = copy.deepcopy(f)
        h.name = '_%s_impl%d' % (f.name.strip('_'), N[0]) if cls is None else \
            '_%s_%s_impl%d' % (cls, f.name.strip('_'), N[0])
        N[0] += 1
        h.decorator_list = [d for d in f.decorator_list if isinstance(
            d, ast.Name) and d.id == 'classmethod'] if cls else []
        h.args.defaults = []
        h.args.kw_defaults = [None for _ in a.kwonlyargs]
        names = [x.arg for x in a.args]
        call = [name(x) for x in names]
        if cls:
            if not names or names[0] not in ('self', 'cls'):
                return [f]
            func = ast.Attribute(name(names[0]), h.name, ast.Load())
            call = call[1:]
        else:
            func = name(h.name)
        if a.vararg:
            call.append(ast.Starred(name(a.vararg.arg), ast.Load()))
        kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kws.append(ast.keyword(None, name(a.kwarg.arg)))
        c = ast.Call(func, call, kws)
        f.body = [ast.Expr(ast.YieldFrom(c)) if is_gen(f) else ast.Return(c)]
        return [h, f]


class IfExp(T):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                s.value, ast.IfExp):
            e = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = e.body, e.orelse
            return ast.If(e.test, [a], [b])
        return s


class NestIf(T):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(
                s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            r = s.body
            for v in reversed(s.test.values):
                r = [ast.If(v, r, [])]
            return r[0]
        return s


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        for n in own_nodes(f):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                              ast.Global, ast.Nonlocal)):
                return self.generic_visit(f)
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + [
            y for y in (a.vararg, a.kwarg) if y]}
        loc = {n.id for n in own_nodes(f) if isinstance(n, ast.Name) and
               isinstance(n.ctx, ast.Store)} - params
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_renamed'
            if isinstance(n, ast.ExceptHandler) and n.name:
                pass
        return f


class FString(T):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not (isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str) and
                isinstance(n.right, ast.Tuple)):
            return n
        parts = n.left.value.split('%s')
        if len(parts) != len(n.right.elts) + 1 or any(
                '%' in p for p in parts):
            return n
        vals = []
        for i, p in enumerate(parts):
            if p:
                vals.append(ast.Constant(p))
            if i < len(n.right.elts):
                vals.append(ast.FormattedValue(n.right.elts[i], 115, None))
        return ast.JoinedStr(vals)


class Format(T):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not (isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str) and
                isinstance(n.right, ast.Tuple)):
            return n
        parts = n.left.value.split('%s')
        if len(parts) != len(n.right.elts) + 1 or any(
                '%' in p or '{' in p or '}' in p for p in parts):
            return n
        return ast.Call(ast.Attribute(ast.Constant('{!s}'.join(parts)),
                                      'format', ast.Load()),
                        n.right.elts, [])


class IsInst(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and \
                isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [
                ast.Call(name('isinstance'), [copy.deepcopy(n.args[0]), c],
                         []) for c in n.args[1].elts])
        return n


class NotCmp(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            m = {ast.NotIn: ast.In, ast.IsNot: ast.Is}
            o = m.get(type(n.ops[0]))
            if o:
                return ast.UnaryOp(ast.Not(), ast.Compare(
                    n.left, [o()], n.comparators))
        return n


class Flip(T):
    """a == 'x'  ->  'x' == a;  a < b -> b > a"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Eq: ast.Eq, ast.Lt: ast.Gt, ast.Gt: ast.Lt,
             ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m and isinstance(
                n.left, (ast.Name, ast.Attribute, ast.Constant)) or \
                len(n.ops) == 1 and type(n.ops[0]) in m and isinstance(
                    n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()],
                               [n.left])
        return n


class ElseReturn(T):
    def block(self, body, owner):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise)) and \
                    i + 1 < len(body) and self.depth:
                s.orelse = self.block(body[i + 1:], owner)
                return body[:i + 1]
        return body


class ContinueIf(T):
    def block(self, body, owner):
        if not isinstance(owner, (ast.For, ast.While)):
            return body
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and \
                    isinstance(s.body[-1], ast.Continue) and \
                    i + 1 < len(body):
                s.body = s.body[:-1] or [ast.Pass()]
                s.orelse = self.block(body[i + 1:], owner)
                return body[:i + 1]
        return body


class ArgTemps(T):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if not isinstance(s, (ast.Expr, ast.Return, ast.Assign)) or \
                not isinstance(v, ast.Call):
            return s
        f = v.func
        if isinstance(f, ast.Attribute):
            f = f.value
        if not isinstance(f, ast.Name) or f.id == 'super':
            return s
        if any(isinstance(a, ast.Starred) for a in v.args) or any(
                k.arg is None for k in v.keywords):
            return s
        out = []
        for h, at in [(v.args, i) for i in range(len(v.args))] + [
                (k, None) for k in v.keywords]:
            e = h[at] if at is not None else h.value
            if isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
                continue
            t = fresh('arg')
            out.append(assign(t, e))
            if at is not None:
                h[at] = name(t)
            else:
                h.value = name(t)
        return out + [s]


class CondTemp(T):
    """if cond: -> c = cond; if c:"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            t = fresh('cond')
            r = [assign(t, s.test)]
            s.test = name(t)
            return r + [s]
        return s


class ElifFix(ast.NodeTransformer):
    pass


class Chain(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], ast.Name):
            return ast.BoolOp(ast.And(), [
                ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]],
                            [n.comparators[1]])])
        return n


class LambdaDef(T):
    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Return, ast.Assign)) or \
                not isinstance(s.value, ast.Call):
            return s
        out = []
        v = s.value

        def sub(e):
            if isinstance(e, ast.Lambda):
                t = fresh('fn')
                out.append(ast.FunctionDef(t, e.args, [ast.Return(e.body)],
                                           [], None, None, []))
                return name(t)
            return e
        v.args = [sub(a) for a in v.args]
        for k in v.keywords:
            k.value = sub(k.value)
        return out + [s]


class Hoist(ast.NodeTransformer):
    """string constants move to module level"""

    def visit_Module(self, n):
        self.consts = {}
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.walk(s)
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], (
                ast.Import, ast.ImportFrom)) or isinstance(
                    n.body[i], ast.Expr)):
            i += 1
        n.body[i:i] = [assign(v, ast.Constant(k[1])) for k, v in
                       self.consts.items()]
        return n

    def walk(self, n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                d = c.body[0].value if isinstance(
                    c.body[0], ast.Expr) else None
                for s in c.body:
                    H(self.consts, d).visit(s)
            elif isinstance(c, ast.ClassDef):
                self.walk(c)
        if isinstance(n, ast.FunctionDef):
            d = n.body[0].value if isinstance(n.body[0], ast.Expr) else None
            for s in n.body:
                H(self.consts, d).visit(s)


class H(ast.NodeTransformer):
    def __init__(self, consts, doc):
        self.consts, self.doc = consts, doc

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if n is self.doc or not isinstance(n.value, (str, bytes)) or \
                len(n.value) < 2:
            return n
        return name(self.consts.setdefault(
            (type(n.value), n.value), '_CONST_%d' % len(self.consts)))


class WhileTrue(T):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(
                s.test, ast.Constant):
            s.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), s.test),
                                    [ast.Break()], []))
            s.test = ast.Constant(True)
        return s


class Unpack(T):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            t = fresh('item')
            s.body.insert(0, ast.Assign([s.target], name(t)))
            s.target = name(t, True)
        elif isinstance(s, ast.Assign) and isinstance(
                s.targets[0], ast.Tuple) and len(s.targets) == 1 and \
                not isinstance(s.value, ast.Tuple) and not any(
                    isinstance(e, (ast.Starred, ast.Tuple))
                    for e in s.targets[0].elts):
            t = fresh('seq')
            return [ast.Assign([ast.List(list(s.targets[0].elts),
                                         ast.Store())], s.value)]
        return s


class OrDefault(T):
    """x = a or b"""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                s.value, ast.BoolOp) and len(s.value.values) == 2:
            t = fresh('v')
            a, b = s.value.values
            test = name(t)
            if isinstance(s.value.op, ast.Or):
                test = ast.UnaryOp(ast.Not(), test)
            s.value = name(t)
            return [assign(t, a), ast.If(test, [assign(t, b)], []), s]
        return s


class DeMorgan(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp):
            o = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [
                ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s


class GenFunc(T):
    """f(x for ..) -> def g(): yield..; f(g())"""

    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Return, ast.Assign)) or \
                not isinstance(s.value, ast.Call):
            return s
        out = []
        c = s.value
        for i, e in enumerate(c.args):
            if isinstance(e, ast.GeneratorExp):
                t = fresh('gen')
                inner = ast.Expr(ast.Yield(e.elt))
                for g in reversed(e.generators):
                    for x in reversed(g.ifs):
                        inner = ast.If(x, [inner], [])
                    inner = ast.For(g.target, g.iter, [inner], [])
                out.append(ast.FunctionDef(t, ast.arguments(
                    [], [], None, [], [], None, []), [inner], [], None, None,
                    []))
                c.args[i] = ast.Call(name(t), [], [])
        return out + [s]


class SingleExit(T):
    """if c: return a; return b  ->  r = ...; return r"""

    def function(self, n):
        if is_gen(n):
            return n
        b = n.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(
                b[-2], ast.If) and not b[-2].orelse and isinstance(
                    b[-2].body[-1], ast.Return):
            t = fresh('result')
            i = b[-2]
            none = ast.Constant(None)
            i.body[-1] = assign(t, i.body[-1].value or none)
            i.orelse = [assign(t, b[-1].value or none)]
            b[-1] = ast.Return(name(t))
        return n


class ExtractTail(ast.NodeTransformer):
    """the second half of a method moves into a helper taking the locals"""

    def visit_ClassDef(self, n):
        body = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                body += self.fn(s)
            else:
                body.append(s)
        n.body = body
        return n

    def fn(self, f):
        if is_gen(f) or len(f.body) < 3 or f.name == '__new__' or \
                not f.args.args or f.args.args[0].arg != 'self':
            return [f]
        for n in own_nodes(f):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                              ast.Nonlocal, ast.Delete, ast.ImportFrom)):
                return [f]
        cut = len(f.body) // 2
        if cut == 1 and isinstance(f.body[0], ast.Expr):
            cut = 2
        head, tail = f.body[:cut], f.body[cut:]
        if not tail:
            return [f]

        def stores(st):
            return {n.id for s in st for n in ast.walk(s) if isinstance(
                n, ast.Name) and isinstance(n.ctx, ast.Store)}
        a = f.args
        params = [x.arg for x in a.args + a.kwonlyargs + [
            y for y in (a.vararg, a.kwarg) if y]]
        # every local of the head must be assigned on all paths: only plain
        # top level assignments
        sure = set()
        for s in head:
            if isinstance(s, ast.Assign):
                sure |= {n.id for t in s.targets for n in ast.walk(t)
                         if isinstance(n, ast.Name) and isinstance(
                             n.ctx, ast.Store)}
        used = {n.id for s in tail for n in ast.walk(s) if isinstance(
            n, ast.Name)}
        comp = {n.id for s in head for c in ast.walk(s) if isinstance(
            c, ast.comprehension) for n in ast.walk(c.target)
            if isinstance(n, ast.Name)}
        if (stores(head) - sure - set(params) - comp) & used:
            return [f]
        names = [p for p in params if p != 'self' and p in used] + sorted(
            (sure & used) - set(params))
        h = '_%s_rest%d' % (f.name.strip('_'), N[0])
        N[0] += 1
        helper = ast.FunctionDef(h, ast.arguments(
            [], [ast.arg('self')] + [ast.arg(x) for x in names], None, [],
            [], None, []), tail, [], None, None, [])
        f.body = head + [ast.Return(ast.Call(ast.Attribute(
            name('self'), h, ast.Load()), [name(x) for x in names], []))]
        return [helper, f]


class SelfAlias(T):
    """super().x(..) unaffected; self -> this"""

    def function(self, f):
        if self.depth or not f.args.args or f.args.args[0].arg != 'self':
            return f
        if f.decorator_list:        # verktyg.dispatch looks at the names
            return f
        if any(isinstance(n, ast.Name) and n.id == 'self' and not isinstance(
                n.ctx, ast.Load) for n in ast.walk(f)) or f.name == '__new__':
            return f
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id == 'self':
                n.id = 'this'
        f.args.args[0].arg = 'this'
        return f


class TryElse(T):
    """try: return X except: ...  ->  try: t = X except: ... else: return t"""

    def stmt(self, s):
        if isinstance(s, ast.Try) and len(s.body) == 1 and isinstance(
                s.body[0], ast.Return) and not s.orelse and s.handlers and \
                s.body[0].value:
            t = fresh('tried')
            s.orelse = [ast.Return(name(t))]
            s.body = [assign(t, s.body[0].value)]
        return s


class DictCall(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and \
                not n.args and all(k.arg for k in n.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords],
                            [k.value for k in n.keywords])
        return n


class TestBool(T):
    """if x: -> if bool(x):"""

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(
                s.test, (ast.Name, ast.Attribute)):
            s.test = ast.Call(name('bool'), [s.test], [])
        return s


class Aug(T):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(
                s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
            v = s.value
            if isinstance(v, ast.List):
                return s
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(t, s.op, v))
        return s


KINDS = {c.__name__: c for c in (
    Noop, ReturnTemp, InvertIf, ForWhile, CompLoop, Extract, IfExp, NestIf,
    Rename, FString, Format, IsInst, NotCmp, Flip, ElseReturn, ContinueIf,
    ArgTemps, CondTemp, Chain, LambdaDef, Hoist, WhileTrue, Unpack,
    OrDefault, DeMorgan, GenFunc, SingleExit, ExtractTail, SelfAlias,
    TryElse, DictCall, TestBool, Aug)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only', default='')
    ap.add_argument('--prop', default='')
    ap.add_argument('--file', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    props = a.prop.split(',') if a.prop else [c['property'] for c in json.load(
        open(HERE + '/MANIFEST.json'))['checks']]
    base = tempfile.mkdtemp(prefix='refac.', dir='/tmp')
    jobs = []
    for k, cls in KINDS.items():
        if a.only and k not in a.only.split(','):
            continue
        d = os.path.join(base, k)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns(
            '.git', '__pycache__'))
        changed = 0
        for p in sorted(glob.glob(d + '/verktyg/**/*.py', recursive=True)):
            if 'testsuite' in p or a.file not in p or k == 'SelfAlias' and \
                    '/accept' in p:
                continue
            src = open(p).read()
            import warnings
            warnings.simplefilter("ignore")
            t = cls().visit(ast.parse(src))
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            if new != ast.unparse(ast.parse(src)):
                changed += 1
                open(p, 'w').write(new + '\n')
        r = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
             'no:cacheprovider', '--timeout=60', 'verktyg/testsuite'], cwd=d,
            env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
        print(k, 'files', changed, 'tests', r.stdout.strip().splitlines()[-1],
              flush=True)
        if r.returncode:
            print('\n'.join(x for x in r.stdout.splitlines()
                            if x.startswith('FAILED'))[:600])
        for p in props:
            jobs.append((k, d, p))

    def one(j):
        k, d, p = j
        ev = tempfile.mkdtemp(dir=base)
        try:
            r = subprocess.run(
                ['/usr/bin/python3', HERE + '/check.py', p],
                capture_output=True, text=True, timeout=900,
                env=dict(ENV, VERIF_REPO=d, EVID=ev, VERIF_JOBS='1'))
            out = r.stdout.strip().splitlines()
            if r.returncode or 'undecided=0 ' not in r.stdout:
                print('##', k, p, 'rc', r.returncode, len(out), 'lines')
                for x in out[:3] + out[-1:]:
                    print('     ', x[:300])
                if r.returncode not in (0, 1):
                    print(r.stderr[-500:])
                sys.stdout.flush()
        except subprocess.TimeoutExpired:
            print('##', k, p, 'TIMEOUT', flush=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, jobs))
    if a.keep:
        print(base)
    else:
        shutil.rmtree(base)


main()
