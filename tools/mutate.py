#!/usr/bin/python3
"""mutate.py OUT [--file SUBSTR] [--func SUBSTR] [--n N] [--seed S] [--jobs J]

Development aid: makes small changes to the functions the checks analyse,
keeps those that survive the test suite and lists the ones no check reports.
Works on scratch copies under /tmp only.
"""
import argparse
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC')

CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
SYM = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
       ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in',
       ast.Is: 'is', ast.IsNot: 'is not'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    bsrc = src.encode()
    mod = path.split('/repo/')[-1][:-3].replace('/', '.').replace(
        '.__init__', '')
    out = []

    def seg(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = seg(n)
        return bsrc[a:b].decode()

    def add(n, new, what, fn):
        a, b = seg(n)
        s = (bsrc[:a] + new.encode() + bsrc[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((fn, n.lineno, what, text(n)[:70].replace('\n', ' '),
                    new[:70].replace('\n', ' '), s))

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = fn + [c.name]
            visit(c, '.'.join(f))
            walk(c, f)

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                docs.add(n.body[0].value)
                docs.add(n.body[0])

    def visit(n, fn):
        if n in docs:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            add(n, '%s %s %s' % (text(n.left), CMP[o],
                                 text(n.comparators[0])), 'cmp', fn)
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, op.join('(%s)' % text(v) for v in n.values), 'bool', fn)
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join('(%s)' % text(v) for v in vs) + ')',
                    'drop operand', fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'not', fn)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'True', 'cond', fn)
            add(n.test, 'False', 'cond', fn)
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const', fn)
            elif isinstance(v, int):
                add(n, str(v + 1), 'const', fn)
                add(n, str(v - 1), 'const', fn)
            elif isinstance(v, str) and v:
                if len(v) > 1:
                    add(n, repr(v[:-1]), 'const', fn)
                    add(n, repr(v[1:]), 'const', fn)
                if v.lower() != v:
                    add(n, repr(v.lower()), 'const', fn)
                add(n, repr(v + 'x'), 'const', fn)
                if not v.isidentifier():
                    i = random.randrange(len(v))
                    add(n, repr(v[:i] + v[i + 1:]), 'const', fn)
            elif isinstance(v, bytes) and v:
                add(n, repr(v + b'x'), 'const', fn)
            elif v is None:
                add(n, "''", 'const', fn)
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                a = [text(x) for x in n.args] + [text(x) for j, x in enumerate(
                    n.keywords) if j != i]
                add(n, '%s(%s)' % (text(n.func), ', '.join(a)), 'drop kw', fn)
            if n.args and len(n.args) > 1 and not n.keywords:
                add(n, '%s(%s)' % (text(n.func), ', '.join(
                    text(x) for x in n.args[:-1])), 'drop arg', fn)
                if len(n.args) == 2:
                    add(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]),
                                           text(n.args[0])), 'swap', fn)
            if len(n.args) == 1 and not n.keywords and isinstance(
                    n.func, ast.Name):
                add(n, '(%s)' % text(n.args[0]), 'unwrap', fn)
            if isinstance(n.func, ast.Attribute) and not n.keywords and \
                    len(n.args) <= 1:
                add(n, '(%s)' % text(n.func.value), 'unwrap', fn)
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add):
                add(n, '(%s)' % text(n.left), 'drop right', fn)
                add(n, '(%s)' % text(n.right), 'drop left', fn)
                add(n, '%s - %s' % (text(n.left), text(n.right)), 'arith', fn)
            elif isinstance(n.op, ast.Sub):
                add(n, '%s + %s' % (text(n.left), text(n.right)), 'arith', fn)
        elif isinstance(n, ast.Slice):
            if n.lower:
                add(n, ':' + (text(n.upper) if n.upper else ''), 'slice', fn)
            if n.upper:
                add(n, (text(n.lower) if n.lower else '') + ':', 'slice', fn)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                            ast.Delete)):
            add(n, 'pass', 'delete', fn)
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return', 'delete', fn)
        elif isinstance(n, ast.Continue):
            add(n, 'break', 'loop', fn)
        elif isinstance(n, ast.Break):
            add(n, 'pass', 'loop', fn)
        elif isinstance(n, ast.ExceptHandler) and isinstance(
                n.type, ast.Tuple):
            for i, t in enumerate(n.type.elts):
                add(n.type, '(%s,)' % ', '.join(
                    text(x) for j, x in enumerate(n.type.elts) if j != i),
                    'except', fn)
        elif isinstance(n, ast.FunctionDef) and n.decorator_list and False:
            pass
    walk(tree, [])
    return mod, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--file', default='')
    ap.add_argument('--func', default='')
    ap.add_argument('--prop', default='')
    ap.add_argument('--n', type=int, default=400)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    random.seed(a.seed)
    owners = {}
    costs = {}
    for p in glob.glob(HERE + '/evidence/C??.json'):
        e = json.load(open(p))
        costs[e['property']] = e['wall_s']
        for f in e['coverage']['functions']:
            owners.setdefault(f.replace(':', '.'), set()).add(e['property'])
    claimed = {c['property'] for c in json.load(open(
        HERE + '/MANIFEST.json'))['checks']}
    todo = []
    for p in sorted(glob.glob('/repo/verktyg/**/*.py', recursive=True)):
        if 'testsuite' in p or a.file not in p:
            continue
        mod, ms = mutants(p)
        for m in ms:
            full = mod + '.' + m[0]
            ow = owners.get(full, set()) & claimed
            if a.func not in full or (not ow and not a.all):
                continue
            if a.prop and a.prop not in ow:
                continue
            todo.append((p, full, ow, m))
    random.shuffle(todo)
    total = len(todo)
    todo = todo[:a.n]
    base = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    q = queue.Queue()
    for i in range(a.jobs):
        d = os.path.join(base, str(i))
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns(
            '.git', '__pycache__'))
        q.put(d)
    stats = dict(killed=0, caught=0, missed=0)
    f = open(a.out, 'w')

    def one(t):
        p, full, ow, m = t
        d = q.get()
        try:
            tgt = p.replace('/repo', d, 1)
            orig = open(p).read()
            open(tgt, 'w').write(m[5])
            r = None
            try:
                r = subprocess.run(
                    ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                     'no:cacheprovider', '--timeout=30',
                     'verktyg/testsuite'], cwd=d, env=dict(
                         ENV, PYTHONPATH=d), capture_output=True, text=True,
                    timeout=120)
            except subprocess.TimeoutExpired:
                pass
            if r is None or r.returncode != 0:
                stats['killed'] += 1
                return
            hit = None
            und = []
            order = sorted(ow, key=lambda c: costs.get(c, 1))
            for c in order:
                ev = tempfile.mkdtemp(dir=base)
                try:
                    r = subprocess.run(
                        ['/usr/bin/python3', HERE + '/check.py', c],
                        capture_output=True, text=True, timeout=900,
                        env=dict(ENV, VERIF_REPO=d, EVID=ev, VERIF_JOBS='1'))
                except subprocess.TimeoutExpired:
                    und.append(c + ' TIMEOUT')
                    continue
                if 'VIOLATION' in r.stdout:
                    hit = c
                    break
                if r.returncode or 'undecided=0 ' not in r.stdout:
                    und.append(c + ': ' + r.stdout[-200:].strip())
            stats['caught' if hit else 'missed'] += 1
            rec = dict(file=p, func=full, line=m[1], kind=m[2], old=m[3],
                       new=m[4], caught=hit, by=sorted(ow), und=und)
            f.write(json.dumps(rec) + '\n')
            f.flush()
        finally:
            open(tgt, 'w').write(orig)
            q.put(d)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    print(total, 'candidates', len(todo), 'tried', stats)
    shutil.rmtree(base)


main()
