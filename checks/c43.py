"""C43: no pattern takes exponential time."""
import ast
from .lib import *
from engine import relang, redos
from .c25 import SETS

RULE = ('Every pattern of the package is collected: compiled at module or '
        'class level (found by loading the modules), written as a constant '
        'in a call of the re module anywhere in the sources, and compiled '
        'while routes of every converter are built.  On the automaton of '
        'each, no position may be reached from itself by two different walks '
        'over one text unless the rest of the pattern is satisfied already.')
MIN_SCENARIOS = 40

FUNCS = ('compile', 'match', 'search', 'sub', 'subn', 'split', 'findall',
         'finditer', 'fullmatch')


def judge(it, pattern, flags, how, what):
    if not isinstance(pattern, (str, bytes)) or not isinstance(flags, int):
        raise Unsupported('pattern is not constant')
    oblige(it)
    try:
        r = redos.check(pattern, flags, how)
    except relang.Unable as e:
        raise Unsupported('regular expression: %s' % e)
    if r is not None:
        fail(it, '%s takes exponential time: after %r, every repetition of '
             '%r can be read in two ways (pattern %r)' % (
                 what, r[0], r[1], pattern))


def patterns_of(ns, seen, depth=0):
    for n, v in sorted(ns.items(), key=lambda x: str(x[0])):
        if isinstance(v, Obj) and v.cls.name == 'Pattern':
            yield str(n), v
        elif isinstance(v, ClassV) and id(v) not in seen and depth < 3:
            seen.add(id(v))
            for m, o in patterns_of(v.ns, seen, depth + 1):
                yield '%s.%s' % (n, m), o


def anchored(tree, name):
    """is the pattern only used with fullmatch?"""
    last = name.split('.')[-1]
    return any(isinstance(n, ast.Attribute) and n.attr == 'fullmatch'
               and isinstance(n.value, (ast.Name, ast.Attribute))
               and (n.value.id if isinstance(n.value, ast.Name)
                    else n.value.attr) == last for n in ast.walk(tree))


def const_calls(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in FUNCS and isinstance(
                n.func.value, ast.Name) and n.func.value.id == 're' and \
                n.args and isinstance(n.args[0], ast.Constant) and isinstance(
                n.args[0].value, (str, bytes)):
            fl = 0
            rest = list(n.args[1:]) + [k.value for k in n.keywords
                                       if k.arg == 'flags']
            import re
            for x in rest:
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(
                            getattr(re, y.attr, None), re.RegexFlag):
                        fl |= int(getattr(re, y.attr))
            yield n.lineno, n.func.attr, n.args[0].value, fl


def scenarios(prog):
    out = []
    seen_cls = set()
    done = set()
    trees = [m.tree for n, m in sorted(prog.modules.items())
             if getattr(m, 'tree', None) is not None
             and n.startswith('verktyg')]
    for name in sorted(prog.modules):
        m = prog.modules[name]
        tree = getattr(m, 'tree', None)
        if tree is None or not name.startswith('verktyg'):
            continue
        for var, o in patterns_of(m.ns, seen_cls):
            if id(o) in done:
                continue
            done.add(id(o))
            p, fl = o.attrs['pattern'], o.attrs['flags']
            how = 'fullmatch' if any(anchored(t, var) for t in trees) \
                else 'match'

            def fn(it, p=p, fl=fl, how=how, var=var):
                judge(it, p, fl, how, var)
            out.append(Scen('%s.%s' % (name, var), fn,
                            '%s.%s' % (name, var)))
        calls = sorted(const_calls(tree))
        if calls:
            def fn2(it, calls=calls, name=name):
                for line, f, p, fl in calls:
                    judge(it, p, fl, 'fullmatch' if f == 'fullmatch'
                          else 'match', '%s line %d' % (name, line))
            out.append(Scen('constants of %s' % name, fn2, name))

    URLMap = prog.get('verktyg.routing.URLMap')
    Route = prog.get('verktyg.routing.Route')

    for sname, opts, routes in SETS:
        def fn3(it, opts=opts, routes=routes):
            it.seen_patterns = got = []
            for r in routes:
                k = dict(r['k'])
                if 'defaults' in k:
                    k['defaults'] = it.mk_dict(dict(k['defaults']))
                o = call(it, Route, r['t'], endpoint=r['e'], **k)
                call(it, URLMap, it.mk_list([o]), **opts)
            if not got and not all(r['k'].get('build_only') for r in routes):
                raise Unsupported('no pattern is compiled')
            for p, fl in got:
                judge(it, p, fl, 'match', 'the pattern of %s' % routes[0]['t'])
        out.append(Scen('routes: ' + sname, fn3,
                        'verktyg.routing.Route.compile'))
    return out
