from .lib import *
from .mdlib import same_val


def environ(it, method=None, **extra):
    items = {'wsgi.url_scheme': sym('scheme', 'str'),
             'SERVER_NAME': sym('server_name', 'str'),
             'SERVER_PORT': sym('server_port', 'str'),
             'SCRIPT_NAME': sym('script_name', 'str'),
             'PATH_INFO': sym('path_info', 'str'),
             'QUERY_STRING': sym('query_string', 'str')}
    if method is not None:
        items['REQUEST_METHOD'] = method
    for k, v in extra.items():
        items[k.replace('__', '.')] = v
    return it.mk_dict(items, open='environ')


class Start:
    """recording start_response"""

    def __init__(self):
        self.calls = []

    def func(self):
        def f(it, args, kw):
            self.calls.append(list(args))
            return HostFunc('write', lambda i, a, k: None)
        return HostFunc('start_response', f)


def headers_of(it, lst):
    out = []
    for e in it.iterate(lst):
        out.append((it.facts.norm(it.getitem(e, 0)),
                    it.facts.norm(it.getitem(e, 1))))
    return out


def in_range(it, v, lo, hi):
    """decide lo <= v < hi (forking if needed)"""
    return it.less(lo, v, False) and it.less(v, hi, True)


def key_is(it, k, name):
    k = it.facts.norm(k)
    if isinstance(k, str):
        return k.lower() == name
    low = call(it, it.getattr(k, 'lower'))
    return it.eq(low, name)
