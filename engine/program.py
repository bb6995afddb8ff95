"""Loads /repo's source, models builtins and externals."""
import ast
import importlib
import os
import re as _re
try:
    import re._parser as _sre
except ImportError:
    import sre_parse as _sre

from .values import *
from .facts import _kind
from .interp import (Interp, PyRaise, Unsupported, Pruned, Violation,
                     AnchorMissing, KNONE, MISSING, _Stop, KwName, Scope,
                     ABCS)
from . import builtins_ as B
from . import strdom, rexmatch
from .builtins_ import (call_dict, call_list, call_set, call_str, call_tuple,
                        ViewData, iter_view, unk, knk)

EXC_TREE = """
BaseException
 SystemExit
 KeyboardInterrupt
 GeneratorExit
 Exception
  StopIteration
  StopAsyncIteration
  ArithmeticError
   OverflowError
   ZeroDivisionError
   FloatingPointError
  AssertionError
  AttributeError
  BufferError
  EOFError
  ImportError
   ModuleNotFoundError
  LookupError
   IndexError
   KeyError
  MemoryError
  NameError
   UnboundLocalError
  OSError
   BlockingIOError
   ConnectionError
    BrokenPipeError
    ConnectionResetError
   FileExistsError
   FileNotFoundError
   InterruptedError
   IsADirectoryError
   NotADirectoryError
   PermissionError
   TimeoutError
  ReferenceError
  RuntimeError
   NotImplementedError
   RecursionError
  SyntaxError
  SystemError
  TypeError
  ValueError
   UnicodeError
    UnicodeDecodeError
    UnicodeEncodeError
    UnicodeTranslateError
  Warning
   DeprecationWarning
   UserWarning
   RuntimeWarning
   FutureWarning
   PendingDeprecationWarning
"""

METHODS = {
    'object': set('__init__ __new__ __eq__ __ne__ __hash__ __repr__ __str__ '
                  '__setattr__ __getattribute__ __reduce_ex__ __reduce__ '
                  '__delattr__ __init_subclass__ __format__ '
                  '__sizeof__ __dir__'.split()),
    'list': set('append extend insert pop remove reverse sort clear index '
                'count copy __init__ __getitem__ __setitem__ __delitem__ '
                '__iter__ __len__ __contains__ __iadd__ __add__ __imul__ '
                '__mul__ __eq__ __ne__ __repr__ __lt__ __gt__ __le__ __ge__ '
                '__reversed__'.split()),
    'dict': set('get setdefault pop popitem update clear copy keys values '
                'items fromkeys __init__ __getitem__ __setitem__ __delitem__ '
                '__contains__ __iter__ __len__ __eq__ __ne__ __ior__ __or__ '
                '__repr__ __reversed__'.split()),
    'set': set('add remove discard update clear pop copy union intersection '
               'difference symmetric_difference issubset issuperset '
               'isdisjoint __init__ __contains__ __iter__ __len__ __eq__ '
               '__ne__ __or__ __and__ __sub__ __xor__ __ior__ __iand__ '
               '__isub__ __le__ __ge__ __lt__ __gt__ __repr__ '
               'difference_update intersection_update '
               'symmetric_difference_update'.split()),
    'frozenset': set('copy union intersection difference '
                     'symmetric_difference issubset issuperset isdisjoint '
                     '__contains__ __iter__ __len__ __eq__ __ne__ __or__ '
                     '__and__ __sub__ __xor__ __le__ __ge__ __lt__ __gt__ '
                     '__repr__'.split()),
    'tuple': set('index count __len__ __iter__ __getitem__ __contains__ '
                 '__add__ __eq__ __hash__'.split()),
    'str': (set(B.STR_TY) | B.STR_DUNDER) - {'decode', 'hex'},
    'bytes': (set(B.STR_TY) | B.STR_DUNDER) - {
        'encode', 'format', 'casefold', 'isdecimal', 'isnumeric',
        'isidentifier', 'isprintable', 'format_map', '__format__'},
    'bytearray': set('append extend __len__ __getitem__ __iter__ decode '
                     'find __iadd__'.split()),
    'int': set('bit_length to_bytes conjugate __add__ __eq__ __hash__ '
               '__lt__ __int__ __index__ real imag numerator'.split()),
    'float': set('is_integer hex __float__'.split()),
    'BaseException': set('__init__ __str__ __repr__ with_traceback '
                         '__new__ add_note'.split()),
    'property': set('__init__ __get__ __set__ __delete__ getter setter '
                    'deleter'.split()),
    'iterator': set('__iter__ __next__ close send throw'.split()),
    'generator': set('__iter__ __next__ close send throw'.split()),
    'dict_keys': set('__iter__ __len__ __contains__ isdisjoint __and__ '
                     '__or__ __sub__'.split()),
    'dict_values': set('__iter__ __len__ __contains__'.split()),
    'dict_items': set('__iter__ __len__ __contains__ __and__ __or__ '
                      '__sub__'.split()),
    'slice': {'indices'},
    'partial': {'__call__'},
    'type': {'mro'},
    'Pattern': set('match search fullmatch sub subn split findall finditer '
                   'groups flags'.split()),
    'Match': set('group groups groupdict start end span __getitem__ '
                 'expand'.split()),
}

# external functions that may have effects or whose result is not a function
# of the arguments
IMPURE = {
    'time.time', 'random.random', 'os.urandom', 'datetime.datetime.utcnow',
    'datetime.datetime.now', 'uuid.uuid4', 'time.monotonic', 'builtins.open',
    'builtins.id',
}
EXT_TY = {
    'urllib.parse.quote': 'str', 'urllib.parse.quote_plus': 'str',
    'urllib.parse.unquote': 'str', 'urllib.parse.urlunsplit': 'str',
    'urllib.parse.urlunparse': 'str', 'urllib.parse.urljoin': 'str',
    'urllib.parse.urlencode': 'str', 'urllib.parse.parse_qsl': 'list',
    'urllib.request.parse_http_list': 'list', 'html.escape': 'str',
    'unicodedata.normalize': 'str', 'posixpath.join': 'str',
    'posixpath.basename': 'str', 'posixpath.normpath': 'str',
    'posixpath.abspath': 'str', 'posixpath.dirname': 'str',
    'posixpath.isfile': 'bool', 'posixpath.isdir': 'bool',
    'posixpath.exists': 'bool', 'posixpath.getmtime': 'float',
    'posixpath.getsize': 'int', 'zlib.adler32': 'int',
    'time.time': 'float', 'time.mktime': 'float', 'fnmatch.fnmatch': 'bool',
    'json.dumps': 'str', 'base64.b64decode': 'bytes',
    'base64.b64encode': 'bytes', 'sys.getfilesystemencoding': 'str',
    'pprint.pformat': 'str', 're.escape': 'str', 'builtins.ord': 'int',
    'builtins.chr': 'str', 'random.random': 'float', 'os.fspath': 'str',
    'posixpath.realpath': 'str', 'posixpath.commonpath': 'str',
    'posixpath.commonprefix': 'str', 'os.stat': None,
    'urllib.parse.unquote_plus': 'str', 'urllib.parse.unquote_to_bytes':
    'bytes', 'base64.standard_b64decode': 'bytes',
    'binascii.a2b_base64': 'bytes', 're.sub': 'str', 'os.getcwd': 'str',
}
# pure, total functions evaluated on constant arguments
FOLD = {
    'urllib.parse.quote', 'urllib.parse.quote_plus', 'urllib.parse.unquote',
    'html.escape', 're.escape', 'posixpath.join', 'posixpath.basename',
    'unicodedata.normalize', 'urllib.parse.urljoin', 'zlib.adler32',
    'builtins.ord', 'builtins.chr', 'posixpath.normpath',
    'urllib.parse.urlunsplit', 'sys.getfilesystemencoding',
    'textwrap.dedent', 'functools.cmp_to_key',
}
HOST_CONST_MODULES = {'os', 'string', 'sys', 'posixpath', 're', 'io', 'stat',
                      'errno'}
MUTABLE_EXT = {'io.BytesIO', 'io.StringIO', 'http.cookiejar.CookieJar',
               'urllib.request.Request', 'io.TextIOWrapper',
               'collections.deque', 'threading.Lock', 'threading.RLock',
               'threading.local', 'io.BufferedReader'}


class Program:
    def __init__(self, repo, package='verktyg', exclude=('testsuite',)):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.classes = []
        self.analysed = set()
        self.base_scopes = set()
        self.load_errors = []
        self.ext_classes = {}
        self._builtin_table()
        self.files = []
        root = os.path.join(repo, package)
        names = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in exclude and
                           x != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel = rel[:-1]
                    names.append('.'.join(rel))
        it = Interp(self)
        it.loading = True
        self._loading = it
        self.src = {}
        for n in names:
            self.import_module(n, it)
        it.loading = False
        self.base_terms = True

    def rel(self, path):
        if path and path.startswith(self.repo):
            return os.path.relpath(path, self.repo)
        return path or '?'

    # -- loading -----------------------------------------------------------
    def path_of(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p,
                                                            '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def import_module(self, name, it, missing_ok=False):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if parent not in self.modules:
                self.import_module(parent, it, missing_ok)
                if name in self.modules:
                    return self.modules[name]
        path = self.path_of(name)
        if path is None:
            if missing_ok:
                return None
            it.raise_('ImportError', 'no module %s' % name)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        m = ModuleV(name, path)
        m.tree = tree
        self.modules[name] = m
        self.files.append(path)
        sc = Scope(m)
        sc.vars = m.ns
        m.ns['__name__'] = name
        saved = (it.mod, it.line)
        it.mod = m
        was = it.loading
        it.loading = True
        for s in tree.body:
            try:
                it.run_block([s], sc)
            except Unsupported as e:
                self.load_errors.append('%s: %s' % (name, e))
            except PyRaise as e:
                self.load_errors.append('%s: raises %r at %s'
                                        % (name, e.val, e.loc))
        it.loading = was
        it.mod, it.line = saved
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            self.modules[parent].ns[last] = m
        return m

    def import_name(self, name, it):
        if name == self.package or name.startswith(self.package + '.'):
            return self.import_module(name, it)
        return self.ext_obj(name)

    def import_top(self, name, it):
        return self.import_name(name, it)

    def import_attr(self, mod, name, it):
        if mod == self.package or mod.startswith(self.package + '.'):
            m = self.import_module(mod, it)
            if name in m.ns:
                return m.ns[name]
            sub = self.import_module(mod + '.' + name, it, missing_ok=True)
            if sub is not None:
                return sub
            it.raise_('ImportError', 'cannot import %s from %s' % (name, mod))
        return self.ext_obj(mod + '.' + name)

    ALIASES = (('os.path.', 'posixpath.'), ('genericpath.', 'posixpath.'),
               ('cgi.escape', 'html.escape'), ('_io.', 'io.'))

    def canon(self, name):
        if name == 'os.path':
            return 'posixpath'
        for a, b in self.ALIASES:
            if name.startswith(a):
                name = b + name[len(a):]
        return name

    def host_obj(self, name):
        """the stdlib object behind a dotted name (introspection only)"""
        parts = name.split('.')
        for i in range(len(parts), 0, -1):
            modname = '.'.join(parts[:i])
            if parts[0] not in STDLIB:
                return MISSING
            try:
                o = importlib.import_module(modname)
            except ImportError:
                continue
            for p in parts[i:]:
                if not hasattr(o, p):
                    return MISSING
                o = getattr(o, p)
            return o
        return MISSING

    def ext_obj(self, name):
        name = self.canon(name)
        if name in EXT_CONST:
            return EXT_CONST[name]
        if name in EXT_OVERRIDE:
            return EXT_OVERRIDE[name](self)
        h = self.host_obj(name)
        if h is not MISSING:
            if isinstance(h, (str, bytes, int, float, type(None))) and \
                    not isinstance(h, type):
                return h
            if isinstance(h, type):
                if h.__name__ in self.builtins and issubclass(
                        h, BaseException) and h.__module__ == 'builtins':
                    return self.builtins[h.__name__]
                return self.ext_class(name)
        return Ext(name)

    def ext_class(self, name):
        name = self.canon(name)
        c = self.ext_classes.get(name)
        if c is None:
            mod, _, n = name.rpartition('.')
            bases = [self.builtins['object']]
            h = self.host_obj(name)
            if isinstance(h, type) and issubclass(h, BaseException):
                bases = []
                for b in h.__bases__:
                    if b.__name__ in self.builtins:
                        bases.append(self.builtins[b.__name__])
                    else:
                        bases.append(self.ext_class(
                            b.__module__ + '.' + b.__name__))
                c = ClassV(n, bases, {}, mod, 'builtin')
                c.extexc = True
            else:
                c = ClassV(n, bases, {}, mod, 'ext')
            self.ext_classes[name] = c
        return c

    def ext_attr(self, it, e, name):
        return self.ext_obj(e.name + '.' + name)

    def ext_obj_attr(self, it, obj, c, name, soft):
        h = self.host_obj(c.qual)
        if h is not MISSING and not hasattr(h, name):
            return None
        if c.kind == 'ext':
            if h is not MISSING and not callable(getattr(h, name, None)):
                return Term('attr', (Term('obj', (obj,)), name))
            return Bound(Ext(c.qual + '.' + name), obj)

    def subclasses(self, cls):
        return [c for c in self.classes if cls in c.bases]

    # -- public anchors -----------------------------------------------------
    def get(self, dotted):
        """resolve 'verktyg.http.Headers' or 'verktyg.http.Headers.add'"""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is not None:
                v = m
                for p in parts[i:]:
                    if isinstance(v, (ModuleV, ClassV)) and p in v.ns:
                        v = v.ns[p]
                    elif isinstance(v, ClassV):
                        for c in v.mro:
                            if p in c.ns:
                                v = c.ns[p]
                                break
                        else:
                            raise AnchorMissing(dotted)
                    else:
                        raise AnchorMissing(dotted)
                return v
        raise AnchorMissing(dotted)

    # -- builtins ------------------------------------------------------------
    def _builtin_table(self):
        b = self.builtins = {}
        obj = ClassV.__new__(ClassV)
        obj.name, obj.bases, obj.ns, obj.module = 'object', [], {}, None
        obj.kind, obj.node, obj.base, obj.mro = 'builtin', None, True, [obj]
        b['object'] = obj
        for n in ('type', 'int', 'float', 'str', 'bytes', 'bytearray', 'list',
                  'dict', 'set', 'frozenset', 'tuple', 'property',
                  'classmethod', 'staticmethod', 'slice', 'function',
                  'method', 'builtin_function', 'NoneType', 'generator',
                  'iterator', 'module', 'partial', 'dict_keys',
                  'dict_values', 'dict_items', 'Pattern', 'Match',
                  'complex', 'memoryview'):
            b[n] = ClassV(n, [obj], {}, None, 'builtin')
        b['bool'] = ClassV('bool', [b['int']], {}, None, 'builtin')
        stack = []
        for line in EXC_TREE.strip().splitlines():
            d = len(line) - len(line.lstrip(' '))
            n = line.strip()
            stack = stack[:d]
            base = stack[-1] if stack else obj
            c = ClassV(n, [base], {}, None, 'builtin')
            b[n] = c
            stack.append(c)
        b['IOError'] = b['EnvironmentError'] = b['OSError']
        self.opaque_error = ClassV('OpaqueError', [b['Exception']], {}, None,
                                   'builtin')
        for k in list(b.values()):
            k.base = True
        for n, fn in FUNCS.items():
            b[n] = HostFunc(n, fn)
        b['NotImplemented'] = NOTIMPL
        b['Ellipsis'] = Ellipsis
        for n in ('ord', 'chr', 'id', 'open', 'bin', 'hex', 'oct', 'input',
                  'compile', 'eval', 'exec', 'format', 'ascii', 'delattr',
                  'dir', 'divmod', 'pow', 'round', '__import__'):
            b.setdefault(n, Ext('builtins.' + n))

    def builtin_attr(self, c, name):
        ms = METHODS.get(c.name)
        if ms is not None and name in ms:
            return BMethod(c.name, name)
        if c.name == 'object' and name == '__doc__':
            return None
        return None

    def call_bmethod(self, it, f, args, kwargs):
        c, n = f.cls, f.name
        if c == 'dict':
            return call_dict(it, n, args, kwargs)
        if c == 'list':
            return call_list(it, n, args, kwargs)
        if c in ('set', 'frozenset'):
            return call_set(it, n, args, kwargs)
        if c in ('str', 'bytes'):
            return call_str(it, c, n, args, kwargs)
        if c == 'tuple':
            return call_tuple(it, n, args, kwargs)
        if c == 'object':
            return self.call_object(it, n, args, kwargs)
        if c == 'BaseException':
            o = args[0]
            if n == '__init__':
                it.touch(o)
                o.attrs['args'] = Tup(args[1:])
                return None
            if n == '__new__':
                return self.builtin_new(it, args[0], args[1:], kwargs)
            if n == 'with_traceback':
                if len(args) < 2:
                    it.raise_('TypeError', 'with_traceback() takes exactly '
                              'one argument (0 given)')
                return o
            if n == '__str__':
                return B.to_str(it, Obj(it.b('Exception'), o.attrs)) \
                    if it.user_method(o, '__str__') else B.to_str(it, o)
            if n == '__repr__':
                return Term('repr', (o,), 'str')
            return None
        if c == 'property':
            return self.call_property(it, n, args, kwargs)
        if c in ('iterator', 'generator'):
            return self.call_iterator(it, n, args, kwargs)
        if c in ('dict_keys', 'dict_values', 'dict_items'):
            v = args[0]
            if n == '__iter__':
                return IterV(it.iterate(v), 'iterator', v)
            if n == '__len__':
                return B.length(it, v.data.src)
            if n == '__contains__':
                return any(it.eq(x, args[1]) for x in it.iterate(v))
            return B.set_combine(it, {'__and__': ast.BitAnd,
                                      '__or__': ast.BitOr}.get(n, ast.Sub),
                                 it.mk_set(list(it.iterate(v))), args[1])
        if c == 'Pattern':
            return re_method(it, args[0], n, args[1:], kwargs)
        if c == 'Match':
            return match_method(it, args[0], n, args[1:], kwargs)
        if c == 'bytearray':
            o = args[0]
            v = o.attrs.get('val')
            if v is None:
                it.event('call', Term('attr', (Term('obj', (o,)), n)),
                         tuple(args[1:]), {})
                return it.fresh('bytearray.' + n)
            if n == 'append':
                x = it.facts.norm(args[1])
                if isinstance(x, int):
                    if not 0 <= x < 256:
                        it.raise_('ValueError',
                                  'byte must be in range(0, 256)')
                    x = bytes((x,))
                else:
                    x = Term('byte', (x,), 'bytes')
                o.attrs['val'] = B.cat(it, [v, x], 'bytes')
                return None
            if n in ('extend', '__iadd__'):
                x = it.facts.norm(args[1])
                if isinstance(x, Obj) and 'val' in x.attrs:
                    x = x.attrs['val']
                if it.ty(x) != 'bytes':
                    x = b''.join(bytes((b,)) for b in it.iterate(x))
                o.attrs['val'] = B.cat(it, [v, x], 'bytes')
                return o if n == '__iadd__' else None
            if n == '__len__':
                return B.length(it, v)
            if n == '__iter__':
                return IterV(it.iterate(v), 'iterator', o)
            if n == '__getitem__':
                return it.getitem(v, args[1])
            return it.call(it.getattr(v, n), list(args[1:]), kwargs)
        if c == 'int' or c == 'float':
            return Term('m:' + n, args, 'int')
        if c == 'type' and n == 'mro':
            return it.mk_list(args[0].mro)
        raise Unsupported('method %s.%s' % (c, n))

    def call_object(self, it, n, args, kwargs):
        o = args[0] if args else None
        if n == '__init__':
            if len(args) > 1 or kwargs:
                if isinstance(o, Obj) and it.user_method(o, '__new__') is None:
                    it.raise_('TypeError', 'object.__init__() takes exactly '
                              'one argument')
            return None
        if n == '__new__':
            return self.builtin_new(it, args[0], args[1:], kwargs)
        if n == '__eq__':
            return True if it.is_(o, args[1]) else NOTIMPL
        if n == '__ne__':
            m = it.user_method(o, '__eq__')
            if m is not None:
                r = it.call(it.bind(m, o), [args[1]])
                return NOTIMPL if r is NOTIMPL else not it.truth(r)
            return NOTIMPL
        if n == '__hash__':
            return Term('hash', (o,), 'int')
        if n in ('__repr__', '__str__'):
            return Term('repr', (o,), 'str')
        if n == '__setattr__':
            it.touch(o)
            m = it.find_cls_attr(o.cls, args[1])
            if isinstance(m, Obj) and it.is_data_descr(m):
                s = it.find_cls_attr(m.cls, '__set__')
                it.call(it.bind(s, m), [o, args[2]])
                return None
            o.attrs[args[1]] = args[2]
            it.event('setattr', o, args[1], args[2])
            return None
        if n == '__getattribute__':
            return it.getattr(o, args[1])
        if n == '__delattr__':
            it.delattr(o, args[1])
            return None
        if n == '__reduce_ex__' or n == '__reduce__':
            return it.fresh('reduce')
        if n in ('__init_subclass__',):
            return None
        raise Unsupported('object.%s' % n)

    def call_property(self, it, n, args, kwargs):
        p = args[0]
        if n == '__init__':
            names = ['fget', 'fset', 'fdel', 'doc']
            for i, a in enumerate(args[1:]):
                p.attrs[names[i] if names[i] != 'doc' else '__doc__'] = a
            for k, v in kwargs.items():
                p.attrs[k if k != 'doc' else '__doc__'] = v
            return None
        if n == '__get__':
            return it.prop_get(p, args[1])
        if n == '__set__':
            f = p.attrs.get('fset')
            if f is None:
                it.raise_('AttributeError', "can't set attribute")
            return it.call(f, [args[1], args[2]])
        if n == '__delete__':
            f = p.attrs.get('fdel')
            if f is None:
                it.raise_('AttributeError', "can't delete attribute")
            return it.call(f, [args[1]])
        new = Obj(p.cls, dict(p.attrs))
        new.base = it.loading
        new.attrs[{'getter': 'fget', 'setter': 'fset',
                   'deleter': 'fdel'}[n]] = args[1]
        return new

    def call_iterator(self, it, n, args, kwargs):
        g = args[0]
        if n == '__iter__':
            return g
        if n == '__next__':
            try:
                return it.next_(g)
            except _Stop:
                it.raise_('StopIteration')
        if n == 'close':
            it.close_iter(g)
            return None
        if n == 'send':
            if g.done:
                it.raise_('StopIteration')
            g.started = True
            try:
                return g.gen.send(args[1])
            except StopIteration as e:
                g.done = True
                it.raise_('StopIteration')
        if n == 'throw':
            v = args[1]
            if isinstance(v, ClassV):
                v = it.instantiate(v, list(args[2:3]) if len(args) > 2 and
                                   args[2] is not None else [], {})
            try:
                return g.gen.throw(PyRaise(v, it.loc()))
            except StopIteration:
                g.done = True
                it.raise_('StopIteration')
        raise Unsupported('iterator.%s' % n)

    def builtin_new(self, it, cls, args, kwargs):
        """create an instance for a class without a repo __new__"""
        base = None
        for c in cls.mro:
            if c.kind == 'builtin' and c.name != 'object':
                base = c.name
                break
        exact = cls.kind == 'builtin'
        if exact and base in CTORS:
            return CTORS[base](it, list(args), kwargs)
        o = Obj(cls)
        o.base = it.loading
        if base in ('list',):
            o.data = ListData()
        elif base == 'dict':
            o.data = DictData()
        elif base == 'set':
            o.data = SetData()
        elif base in ('frozenset', 'tuple', 'str', 'int', 'bytes', 'float'):
            if base == 'tuple':
                o.data = ListData(list(it.iterate(args[0])) if args else ())
            else:
                raise Unsupported('subclass of %s' % base)
        elif base is not None and cls.is_sub(self.builtins['BaseException']):
            o.attrs['args'] = Tup(args)
        elif base == 'type':
            raise Unsupported('metaclass')
        return o

    def new_ext(self, it, cls, args, kwargs):
        name = cls.qual
        hk = it.hooks.get('new')
        if hk is not None:
            r = hk(it, name, args, kwargs)
            if r is not None:
                return r[0]
        if name in NEW_EXT:
            return NEW_EXT[name](it, list(args), kwargs)
        it.event('extnew', name, tuple(args), dict(kwargs))
        if name in MUTABLE_EXT or self.host_obj(name) is MISSING or \
                name.startswith(('io.', 'tempfile.')):
            o = Obj(cls, {'$args': Tup([a for a in args])})
            o.base = it.loading
            return o
        if it.raise_all and name in ('datetime.datetime',
                                     'datetime.timedelta', 'uuid.UUID'):
            pass
        for exc in EXT_RAISES.get(name, ()):
            it.maybe_raise(exc, name)
        return ext_term(it, name, args, kwargs, cls)

    def call_ext(self, it, f, args, kwargs):
        name = f.name
        hk = it.hooks.get('ext')
        if hk is not None:
            r = hk(it, name, args, kwargs)
            if r is not None:
                return r[0]
        m = MODELS.get(name)
        if m is not None:
            r = m(it, args, kwargs)
            if r is not MISSING:
                return r
        it.event('ext', name, tuple(args), dict(kwargs))
        if name in FOLD and all(is_scalar(it.facts.norm(a)) or isinstance(
                a, Tup) and all(is_scalar(x) for x in a.items)
                for a in list(args) + list(kwargs.values())):
            h = self.host_obj(name)
            ra = [it.facts.norm(a).items if isinstance(a, Tup) else
                  it.facts.norm(a) for a in args]
            try:
                return B.from_host(it, h(*ra, **{k: it.facts.norm(v)
                                                for k, v in kwargs.items()}))
            except PyRaise:
                raise
            except Unsupported:
                raise
            except Exception as e:
                B.host_raise(it, e)
        for exc in EXT_RAISES.get(name, ()):
            it.maybe_raise(exc, name)
        if it.raise_all and name not in EXT_TOTAL:
            if it.choose(2, '%s raises' % name):
                it.raise_(self.opaque_error)
        # a method of an external class instance held on the heap
        if args and isinstance(args[0], Obj) and args[0].cls.kind == 'ext' \
                and name.startswith(args[0].cls.qual + '.'):
            it.counter += 1
            return Term('call', (Term('attr', (Term('obj', (args[0],)),
                                               name.rsplit('.', 1)[1])),
                                 it.counter), None)
        ty = EXT_TY.get(name)
        if name in IMPURE:
            it.counter += 1
            return Term('ext', (name, it.counter), ty)
        return ext_term(it, name, args, kwargs, ty)


def ext_term(it, name, args, kwargs, ty):
    out = [name]
    for a in args:
        out.append(freeze(it, a))
    for k in sorted(kwargs):
        out.append(Tup(('kw:' + str(k), freeze(it, kwargs[k]))))
    return Term('ext', out, ty)


def freeze(it, a):
    a = it.facts.norm(a)
    if isinstance(a, IterV):
        return Tup([freeze(it, x) for x in it.iterate(a)])
    if isinstance(a, Obj) and isinstance(a.data, ListData) and \
            a.cls.kind == 'builtin':
        return Tup([freeze(it, x) for x in a.data.items])
    if isinstance(a, SliceV):
        return Tup((a.a, a.b, a.c))
    if isinstance(a, Obj) and isinstance(a.data, ViewData):
        return Tup([freeze(it, x) for x in it.iterate(a)])
    return a


# --------------------------------------------------------------------------
# builtin functions
# --------------------------------------------------------------------------
def f_isinstance(it, a, k):
    return it.isinstance_(a[0], it.facts.norm(a[1]))


def f_issubclass(it, a, k):
    c, d = it.facts.norm(a[0]), it.facts.norm(a[1])
    if isinstance(d, Tup):
        return any(f_issubclass(it, [c, x], k) for x in d.items)
    if isinstance(c, ClassV) and isinstance(d, ClassV):
        return c.is_sub(d)
    if isinstance(c, Term):
        return it.truth_term(Term('issubclass', (c, d), 'bool'))
    it.raise_('TypeError', 'issubclass() arg 1 must be a class')


def f_len(it, a, k):
    return B.length(it, a[0])


def f_getattr(it, a, k):
    name = it.facts.norm(a[1])
    if not isinstance(name, str):
        if isinstance(name, Term):
            return getattr_sym(it, a, name)
        raise Unsupported('getattr with symbolic name')
    if len(a) > 2:
        return it.getattr(a[0], name, a[2], True)
    return it.getattr(a[0], name)


def getattr_sym(it, a, name):
    raise Unsupported('getattr with symbolic name')


def f_hasattr(it, a, k):
    o = it.facts.norm(a[0])
    name = it.facts.norm(a[1])
    if isinstance(o, Term):
        c = it.type_of(o)
        if c is None or c.kind == 'ext':
            return it.truth_term(Term('hasattr', (o, name), 'bool'))
    try:
        it.getattr_(o, name, True)
        return True
    except PyRaise as e:
        if it.exc_is(e.val, 'AttributeError'):
            return False
        raise


def f_setattr(it, a, k):
    n = it.facts.norm(a[1])
    if not isinstance(n, str):
        raise Unsupported('setattr with symbolic name')
    it.setattr(a[0], n, a[2])


def f_delattr(it, a, k):
    it.delattr(a[0], it.facts.norm(a[1]))


def f_iter(it, a, k):
    if len(a) == 2:
        def run():
            n = 0
            c0 = len(it.trace)
            while True:
                v = it.call(a[0], [])
                if it.eq(v, a[1]):
                    return
                yield v
                n += 1
                if n > it.WHILE_MAX and len(it.trace) > c0 or n > 500:
                    it.bounded.add('iter(callable, sentinel)')
                    raise Pruned('iter bound', True)
        return IterV(run(), 'iterator', a[0])
    return it.iter_(a[0])


def f_next(it, a, k):
    v = it.facts.norm(a[0])
    try:
        return it.next_(v)
    except _Stop:
        if len(a) > 1:
            return a[1]
        it.raise_('StopIteration')


def f_type(it, a, k):
    if len(a) == 3:
        ns = {}
        for kk, v in a[2].data.items.items():
            ns[kk] = v
        c = ClassV(a[0], list(it.iterate(a[1])), ns,
                   it.mod.name if it.mod else None, 'repo')
        c.base = it.loading
        if it.loading:
            it.prog.classes.append(c)
        return c
    c = it.type_of(a[0])
    if c is None:
        return Term('attr', (it.facts.norm(a[0]), '__class__'))
    return c


def f_super(it, a, k):
    if len(a) == 1:
        raise Unsupported('unbound super')
    o = it.facts.norm(a[1])
    if isinstance(o, ClassV):
        if not o.is_sub(a[0]):
            it.raise_('TypeError', 'super(): bad arguments')
        return SuperV(a[0], o, o)
    c = it.type_of(o)
    if not c.is_sub(a[0]):
        it.raise_('TypeError', 'super(type, obj): obj must be an instance')
    return SuperV(a[0], o, c)


def f_callable(it, a, k):
    v = it.facts.norm(a[0])
    if isinstance(v, (Func, Bound, HostFunc, ClassV, BMethod, Ext)):
        return True
    if isinstance(v, Obj):
        if it.find_cls_attr(v.cls, '__call__') is not None or \
                v.cls.name == 'partial':
            return True
        if v.open:
            return it.truth_term(Term('callable', (Term('obj', (v,)),),
                                      'bool'))
        return False
    if isinstance(v, Term):
        if _kind(it.facts, v) is not None:
            return False
        return it.truth_term(Term('callable', (v,), 'bool'))
    return False


def f_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    src = it.iter_(a[0])

    def run():
        i = start
        while True:
            try:
                x = it.next_(src)
            except _Stop:
                return
            yield Tup((i, x))
            i = B.binop(it, ast.Add(), i, 1)
    return IterV(run(), 'iterator', a[0])


def f_zip(it, a, k):
    its = [it.iter_(x) for x in a]

    def run():
        while its:
            row = []
            for x in its:
                try:
                    row.append(it.next_(x))
                except _Stop:
                    return
            yield Tup(row)
    return IterV(run(), 'iterator')


def f_map(it, a, k):
    its = [it.iter_(x) for x in a[1:]]

    def run():
        while True:
            row = []
            for x in its:
                try:
                    row.append(it.next_(x))
                except _Stop:
                    return
            yield it.call(a[0], row)
    return IterV(run(), 'iterator', a[1])


def f_filter(it, a, k):
    src = it.iter_(a[1])

    def run():
        while True:
            try:
                x = it.next_(src)
            except _Stop:
                return
            if it.truth(x if a[0] is None else it.call(a[0], [x])):
                yield x
    return IterV(run(), 'iterator', a[1])


def f_reversed(it, a, k):
    v = it.facts.norm(a[0])
    if isinstance(v, Term):
        xs = list(it.iterate(v))
    elif isinstance(v, Obj) and it.user_method(v, '__reversed__'):
        return it.call(it.bind(it.user_method(v, '__reversed__'), v), [])
    else:
        xs = list(it.iterate(v))
    return IterV(iter(list(reversed(xs))), 'iterator', v)


def f_range(it, a, k):
    a = [it.facts.norm(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return Tup(range(*a)) if len(range(*a)) < 5000 else \
            IterV(iter(range(*a)))
    lo = a[0] if len(a) > 1 else 0
    hi = a[1] if len(a) > 1 else a[0]
    step = a[2] if len(a) > 2 else 1

    def run():
        i, n = lo, 0
        while True:
            if isinstance(step, int) and step < 0:
                go = it.less(hi, i)
            else:
                go = it.less(i, hi)
            if not go:
                return
            yield i
            i = B.binop(it, ast.Add(), i, step)
            n += 1
            if n > it.WHILE_MAX:
                it.bounded.add('range')
                raise Pruned('range bound', True)
    return IterV(run(), 'iterator')


def f_sum(it, a, k):
    tot = a[1] if len(a) > 1 else k.get('start', 0)
    src = it.facts.norm(a[0])
    for x in it.iterate(src):
        tot = B.binop(it, ast.Add(), it.facts.norm(tot), it.facts.norm(x))
    return tot


def _minmax(it, a, k, sign):
    key = k.get('key')
    if len(a) == 1:
        xs = list(it.iterate(a[0]))
    else:
        xs = list(a)
    if not xs:
        if 'default' in k:
            return k['default']
        it.raise_('ValueError', 'arg is an empty sequence')
    best = xs[0]
    kb = it.call(key, [best]) if key is not None else best
    for x in xs[1:]:
        kx = it.call(key, [x]) if key is not None else x
        if sign < 0:
            better = it.less(kx, kb)
        else:
            better = it.compare(ast.Gt(), kx, kb)
        if better:
            best, kb = x, kx
    return best


def f_min(it, a, k):
    return _minmax(it, a, k, -1)


def f_max(it, a, k):
    return _minmax(it, a, k, 1)


def f_any(it, a, k):
    for x in it.iterate(a[0]):
        if it.truth(x):
            return True
    return False


def f_all(it, a, k):
    for x in it.iterate(a[0]):
        if not it.truth(x):
            return False
    return True


def f_sorted(it, a, k):
    return it.mk_list(B.sort_items(it, list(it.iterate(a[0])), k.get('key'),
                                   k.get('reverse', False)))


def f_hash(it, a, k):
    v = it.facts.norm(a[0])
    if isinstance(v, Obj):
        m = it.user_method(v, '__hash__')
        if m is not None:
            return it.call(it.bind(m, v), [])
        if isinstance(v.data, (ListData, DictData, SetData)) and \
                v.cls.name != 'frozenset':
            it.raise_('TypeError', 'unhashable type')
    h = it.hooks.get('hash')
    if h is not None:
        return h(it, v)
    return Term('hash', (freeze(it, v),), 'int')


def f_repr(it, a, k):
    return B.to_repr(it, a[0])


def f_abs(it, a, k):
    v = it.facts.norm(a[0])
    if is_scalar(v):
        return abs(v)
    if it.less(v, 0):
        return Term('neg', (v,), v.ty)
    return v


def f_print(it, a, k):
    it.event('print', tuple(a))


def f_vars(it, a, k):
    return it.getattr(a[0], '__dict__')


def f_format(it, a, k):
    return B.format_value(it, a[0], a[1] if len(a) > 1 else '')


def f_id(it, a, k):
    return Term('id', (a[0] if isinstance(a[0], V) else Tup((a[0],)),), 'int')


FUNCS = {
    'isinstance': f_isinstance, 'issubclass': f_issubclass, 'len': f_len,
    'getattr': f_getattr, 'hasattr': f_hasattr, 'setattr': f_setattr,
    'delattr': f_delattr, 'iter': f_iter, 'next': f_next, 'super': f_super,
    'callable': f_callable, 'enumerate': f_enumerate, 'zip': f_zip,
    'map': f_map, 'filter': f_filter, 'reversed': f_reversed,
    'range': f_range, 'sum': f_sum, 'min': f_min, 'max': f_max,
    'any': f_any, 'all': f_all, 'sorted': f_sorted, 'hash': f_hash,
    'repr': f_repr, 'abs': f_abs, 'print': f_print, 'vars': f_vars,
    'format': f_format, 'id': f_id,
}


def int_shape(it, v):
    """int() of a concatenation of decimal renderings and constants"""
    from . import rexmatch, strops
    ps = list(v.args) if v.op == 'cat' else [v]
    ok = rexmatch._mask_of('[\\d\\s+_-]', 0, False)
    seen = False
    for p in ps:
        if isinstance(p, str):
            for c in p:
                if not ok >> ord(c) & 1 or c in '+-' and seen:
                    it.raise_('ValueError', 'invalid literal for int()')
                seen = seen or not c.isspace()
        else:
            if not strops.nonempty(it, p):
                continue
            try:
                if rexmatch.Atom(it, p).within(ok) is False:
                    it.raise_('ValueError', 'invalid literal for int()')
            except rexmatch.Unable:
                pass
            seen = True
    if len(ps) == 2 and ps[0] == '-' and ps[1].op == 'str' and \
            isinstance(ps[1].args[0], Term) and ps[1].args[0].ty == 'int':
        n = ps[1].args[0]
        L = it.facts.lin_of(n)
        if L is not None and it.facts.lin_entails(L):
            return it.binop(ast.Sub(), 0, n)
    return None


# constructors of builtin types (exact class)
def match_part(it, v):
    """Per character alternatives of a slice of a fixed width match, or None
    """
    def pos(t, c=0):
        t = it.facts.norm(t)
        if isinstance(t, Term) and t.op == 'add' and \
                isinstance(t.args[1], int):
            return pos(t.args[0], c + t.args[1])
        if isinstance(t, Term) and t.op in ('m.start', 'm.end') and (
                len(t.args) == 1 or t.args[1] == 0):
            return t.args[0], t.op == 'm.end', c
        return None

    if not (isinstance(v, Term) and v.op == 'slice' and len(v.args) == 3):
        return None
    x, lo, hi = v.args
    if isinstance(x, Term) and x.op == 'group' and x.args[1] == 0:
        key = x.args[0]
        lo, hi = (key, False, lo or 0), (key, hi is None, hi or 0)
        if not isinstance(lo[2], int) or not isinstance(hi[2], int):
            return None
    else:
        lo, hi = pos(lo), pos(hi)
        if lo is None or hi is None or lo[0] is not hi[0] and lo[0] != hi[0]:
            return None
        key = lo[0]
        if not isinstance(key, Term) or key.args[2] != x:
            return None
    pat, flags = key.args[1].items
    if not isinstance(pat, (str, bytes)) or not isinstance(flags, int):
        return None
    import re._parser as rp
    tree = rp.parse(pat, flags)
    items = list(tree)
    if any(str(o) not in ('LITERAL', 'IN') for o, _ in items):
        return None
    n = len(items)
    lo, hi = lo[2] + n * lo[1], hi[2] + n * hi[1]
    if not 0 <= lo < hi <= n:
        return None
    out = []
    for o, av in items[lo:hi]:
        if str(o) == 'LITERAL':
            out.append({av})
            continue
        cs = set()
        for o2, a2 in av:
            if str(o2) == 'LITERAL':
                cs.add(a2)
            elif str(o2) == 'RANGE':
                cs.update(range(a2[0], a2[1] + 1))
            else:
                return None
        out.append(cs)
    return out


def c_int(it, a, k):
    if not a:
        return 0
    v = it.facts.norm(a[0])
    if is_scalar(v):
        try:
            return int(v, *[it.facts.norm(x) for x in a[1:]])
        except Exception as e:
            B.host_raise(it, e)
    if isinstance(v, Term):
        t = _kind(it.facts, v)
        if t == 'int' and len(a) == 1:
            return v
        if t == 'bool':
            return 1 if it.truth(v) else 0
        if t == 'none':
            it.raise_('TypeError', 'int() argument must not be NoneType')
        if v.op == 'str' and isinstance(v.args[0], Term) and \
                v.args[0].ty == 'int':
            return v.args[0]
        if t == 'str' and len(a) == 1:
            r = int_shape(it, v)
            if r is not None:
                return r
        base = it.facts.norm(a[1]) if len(a) > 1 else 10
        cs = match_part(it, v)
        sure = cs is not None and isinstance(base, int) and all(
            chr(c) in '0123456789'[:base] for x in cs for c in x)
        if t in ('str', 'bytes', None) and not sure:
            it.maybe_raise('ValueError', 'int(%s)' % show(v),
                           key=('int', v) + tuple(a[1:]))
        if t is None:
            it.maybe_raise('TypeError', 'int(%s)' % show(v))
        r = Term('int', [v] + list(a[1:]), 'int')
        for p_ in ('isdigit', 'isdecimal'):
            if it.facts.truth.get(Term('m:' + p_, (v,), 'bool')) is True:
                L = it.facts.lin_of(r)
                if L is not None:
                    it.facts.add_lin(L)
        return r
    if isinstance(v, Obj):
        m = it.user_method(v, '__int__')
        if m is not None:
            return it.call(it.bind(m, v), [])
    it.raise_('TypeError', 'int() argument')


def c_float(it, a, k):
    if not a:
        return 0.0
    v = it.facts.norm(a[0])
    if is_scalar(v):
        try:
            return float(v)
        except Exception as e:
            B.host_raise(it, e)
    if isinstance(v, Term):
        t = _kind(it.facts, v)
        if t == 'float':
            return v
        if t in ('str', 'bytes', None):
            it.maybe_raise('ValueError', 'float(%s)' % show(v),
                           key=('float', v))
        return Term('float', (v,), 'float')
    it.raise_('TypeError', 'float() argument')


def c_str(it, a, k):
    if not a:
        return ''
    if len(a) > 1 or k:
        return B.codec(it, 'decode', it.facts.norm(a[0]), a[1:], k) \
            if not isinstance(it.facts.norm(a[0]), bytes) else \
            call_str(it, 'bytes', 'decode', a, k)
    return B.to_str(it, a[0])


def c_bytes(it, a, k):
    if not a:
        return b''
    v = it.facts.norm(a[0])
    if isinstance(v, bytes):
        return v
    if it.ty(v) == 'str':
        if len(a) == 1 and not k:
            it.raise_('TypeError', 'string argument without an encoding')
        return call_str(it, 'str', 'encode', a, k)
    if it.ty(v) == 'bytes':
        return v
    if isinstance(v, Obj) and v.cls.name == 'bytearray' and 'val' in v.attrs:
        return v.attrs['val']
    if v is None:
        it.raise_('TypeError', 'cannot convert NoneType to bytes')
    if isinstance(v, int):
        return bytes(v)
    return Term('bytes', (freeze(it, v),), 'bytes')


def c_bool(it, a, k):
    return it.truth(a[0]) if a else False


def c_list(it, a, k):
    return it.mk_list(it.iterate(a[0]) if a else ())


def c_tuple(it, a, k):
    if not a:
        return Tup(())
    return Tup(list(it.iterate(a[0])))


def c_set(it, a, k):
    if not a:
        return it.mk_set()
    return it.mk_set(B.iter_for_set(it, a[0]))


def c_frozenset(it, a, k):
    if not a:
        return FSet(())
    xs = B.iter_for_set(it, a[0])
    if all(is_scalar(x) for x in xs):
        return FSet(xs)
    return it.mk_set(xs, it.b('frozenset'))


def c_dict(it, a, k):
    o = it.mk_dict()
    call_dict(it, '__init__', [o] + a, k)
    return o


def c_object(it, a, k):
    o = Obj(it.b('object'))
    o.base = it.loading
    return o


def c_wrap(name):
    def f(it, a, k):
        o = Obj(it.b(name), {'func': a[0]})
        o.base = it.loading
        return o
    return f


def c_slice(it, a, k):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def c_bytearray(it, a, k):
    o = Obj(it.b('bytearray'))
    v = it.facts.norm(a[0]) if a else b''
    if isinstance(v, int) and not isinstance(v, bool):
        v = bytes(v)
    elif isinstance(v, Obj) and v.cls.name == 'bytearray':
        v = v.attrs.get('val')
    elif it.ty(v) == 'str':
        v = call_str(it, 'str', 'encode', a, k)
    elif it.ty(v) != 'bytes' and not isinstance(v, Term):
        v = bytes(x for x in it.iterate(v))
    if it.ty(v) == 'bytes':
        o.attrs['val'] = v
    return o


CTORS = {'int': c_int, 'float': c_float, 'str': c_str, 'bytes': c_bytes,
         'bool': c_bool, 'list': c_list, 'tuple': c_tuple, 'set': c_set,
         'frozenset': c_frozenset, 'dict': c_dict,
         'staticmethod': c_wrap('staticmethod'),
         'classmethod': c_wrap('classmethod'), 'slice': c_slice,
         'type': f_type, 'bytearray': c_bytearray}

_orig_new = Program.builtin_new


def _bn(self, it, cls, args, kwargs):
    if cls.kind == 'builtin' and cls.name == 'object':
        return c_object(it, args, kwargs)
    if cls.kind == 'builtin' and cls.name in CTORS:
        return CTORS[cls.name](it, list(args), kwargs)
    return _orig_new(self, it, cls, args, kwargs)


Program.builtin_new = _bn

_orig_inst = Interp.instantiate


def _inst(self, cls, args, kwargs):
    if cls.kind == 'builtin' and cls.name in CTORS:
        return CTORS[cls.name](self, list(args), kwargs or {})
    if cls.kind == 'builtin' and cls.name == 'object':
        return c_object(self, args, kwargs)
    return _orig_inst(self, cls, args, kwargs)


Interp.instantiate = _inst


# view iteration
_orig_iterate = Interp.iterate


def _iterate(self, v):
    v = self.facts.norm(v)
    if isinstance(v, Obj) and isinstance(v.data, ViewData):
        return iter_view(self, v.data.src, v.data.kind)
    return _orig_iterate(self, v)


Interp.iterate = _iterate
_orig_contains = Interp.contains


def _contains(self, cont, x):
    c = self.facts.norm(cont)
    if isinstance(c, Obj) and isinstance(c.data, ViewData):
        if c.data.kind == 'keys':
            return self.find_key(c.data.src, x) is not None
        return any(self.eq(x, y) for y in iter_view(self, c.data.src,
                                                    c.data.kind))
    return _orig_contains(self, cont, x)


Interp.contains = _contains
_orig_dt = Interp.data_truth


def _dt(self, v):
    if isinstance(v.data, ViewData):
        return self.data_truth(v.data.src)
    return _orig_dt(self, v)


Interp.data_truth = _dt


# --------------------------------------------------------------------------
# external models
# --------------------------------------------------------------------------
def m_partial(it, a, k):
    o = Obj(it.b('partial'), {'func': a[0], 'args': list(a[1:]),
                              'kw': dict(k)})
    o.base = it.loading
    return o


def m_total_ordering(it, a, k):
    cls = a[0]
    have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__')
            if any(n in c.ns for c in cls.mro if c.kind == 'repo')]
    if not have:
        it.raise_('ValueError', 'must define at least one ordering operation')
    root = None
    for n in ('__lt__', '__le__', '__gt__', '__ge__'):
        if n in have:
            root = max(have, key=lambda x: ['__ge__', '__gt__', '__le__',
                                            '__lt__'].index(x))
            break

    def call_root(i, s, o):
        m = i.find_cls_attr(i.type_of(s), root)
        return i.call(i.bind(m, s), [o])

    def ne_(i, s, o):
        return not i.eq(s, o)

    def eq_(i, s, o):
        return i.eq(s, o)

    def neg(r, i):
        return not i.truth(r)

    table = {
        '__lt__': {
            '__gt__': lambda i, s, o, r: not r and ne_(i, s, o),
            '__le__': lambda i, s, o, r: r or eq_(i, s, o),
            '__ge__': lambda i, s, o, r: not r},
        '__le__': {
            '__ge__': lambda i, s, o, r: not r or eq_(i, s, o),
            '__lt__': lambda i, s, o, r: r and ne_(i, s, o),
            '__gt__': lambda i, s, o, r: not r},
        '__gt__': {
            '__lt__': lambda i, s, o, r: not r and ne_(i, s, o),
            '__ge__': lambda i, s, o, r: r or eq_(i, s, o),
            '__le__': lambda i, s, o, r: not r},
        '__ge__': {
            '__le__': lambda i, s, o, r: not r or eq_(i, s, o),
            '__gt__': lambda i, s, o, r: r and ne_(i, s, o),
            '__lt__': lambda i, s, o, r: not r},
    }
    for n, fn in table[root].items():
        if n in have:
            continue

        def make(fn):
            def impl(i, args, kw):
                r = call_root(i, args[0], args[1])
                if r is NOTIMPL:
                    return NOTIMPL
                return fn(i, args[0], args[1], i.truth(r))
            return impl
        cls.ns[n] = HostFunc(n, make(fn), True)
    return cls


def m_chain(it, a, k):
    def run():
        for x in a:
            yield from it.iterate(x)
    return IterV(run(), 'iterator', Tup([x for x in a if isinstance(
        x, (Term, Tup))]))


def m_chain_from(it, a, k):
    def run():
        for x in it.iterate(a[0]):
            yield from it.iterate(x)
    return IterV(run(), 'iterator')


def m_repeat(it, a, k):
    def run():
        n = 0
        while len(a) < 2 or n < a[1]:
            yield a[0]
            n += 1
            if n > 1000:
                raise Pruned('repeat bound', True)
    return IterV(run(), 'iterator')


def m_islice(it, a, k):
    src = it.iter_(a[0])
    lo, hi = (0, a[1]) if len(a) == 2 else (a[1] or 0, a[2])

    def run():
        i = 0
        while hi is None or i < hi:
            try:
                x = it.next_(src)
            except _Stop:
                return
            if i >= lo:
                yield x
            i += 1
    return IterV(run(), 'iterator')


def m_deepcopy(it, a, k):
    memo = {}

    def dc(v):
        v = it.facts.norm(v)
        if isinstance(v, Obj):
            if id(v) in memo:
                return memo[id(v)]
            m = it.user_method(v, '__deepcopy__')
            if m is not None:
                return it.call(it.bind(m, v), [it.mk_dict()])
            if v.cls.kind == 'builtin' and v.cls.name == 'object':
                return v
            o = Obj(v.cls)
            memo[id(v)] = o
            o.attrs = {n: dc(x) for n, x in v.attrs.items()}
            if isinstance(v.data, ListData):
                o.data = ListData([dc(x) for x in v.data.items])
            elif isinstance(v.data, DictData):
                o.data = DictData({kk: dc(x) for kk, x in
                                   v.data.items.items()}, v.data.open,
                                  v.data.absent, v.data.valty)
            elif isinstance(v.data, SetData):
                o.data = v.data.copy()
            else:
                o.data = v.data
            return o
        if isinstance(v, Tup):
            return Tup([dc(x) for x in v.items])
        if isinstance(v, Term) and _kind(it.facts, v) is None:
            return Term('deepcopy', (v,))
        return v
    return dc(a[0])


def m_copy(it, a, k):
    v = it.facts.norm(a[0])
    if isinstance(v, Obj):
        m = it.user_method(v, '__copy__')
        if m is not None:
            return it.call(it.bind(m, v), [])
        o = Obj(v.cls, dict(v.attrs),
                v.data.copy() if v.data is not None else None)
        return o
    return v


def m_exc_info(it, a, k):
    if not it.excs:
        return Tup((None, None, None))
    e = it.excs[-1]
    c = e.val.cls if isinstance(e.val, Obj) else Term('attr', (e.val,
                                                               '__class__'))
    return Tup((c, e.val, Term('tb', (e.loc or '?',))))


def m_none(it, a, k):
    return None


def m_wraps(it, a, k):
    src = a[0]

    def deco(i, b, kk):
        f = b[0]
        if isinstance(f, Func):
            i.touch(f) if not i.loading else None
            f.attrs['__wrapped__'] = src
            nm = i.getattr(src, '__name__', None, True)
            if nm is not None:
                f.attrs['__name__'] = nm
        return f
    return HostFunc('wraps', deco)


def m_identity_deco(it, a, k):
    return a[0]


def m_reduce(it, a, k):
    xs = list(it.iterate(a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            it.raise_('TypeError', 'reduce() of empty sequence')
        acc = xs.pop(0)
    for x in xs:
        acc = it.call(a[0], [acc, x])
    return acc


def m_itemgetter(it, a, k):
    def g(i, b, kk):
        if len(a) == 1:
            return i.getitem(b[0], a[0])
        return Tup([i.getitem(b[0], x) for x in a])
    return HostFunc('itemgetter', g)


def m_attrgetter(it, a, k):
    def g(i, b, kk):
        def one(n):
            v = b[0]
            for p in n.split('.'):
                v = i.getattr(v, p)
            return v
        if len(a) == 1:
            return one(a[0])
        return Tup([one(x) for x in a])
    return HostFunc('attrgetter', g)


def m_methodcaller(it, a, k):
    def g(i, b, kk):
        return i.call(i.getattr(b[0], a[0]), list(a[1:]), k)
    return HostFunc('methodcaller', g)


def m_open(it, a, k):
    it.event('open', tuple(a), dict(k))
    if it.raise_all and it.choose(2, 'open raises'):
        it.raise_('OSError', 'open')
    else:
        pass
    o = Obj(it.prog.ext_class('io.BufferedReader'), {'$args': Tup(a)})
    o.label = 'file'
    return o


def smeth(it, v, name, *a):
    return it.call(it.getattr(v, name), list(a), {})


def m_path_join(it, a, k):
    """posixpath.join of str"""
    vs = [it.facts.norm(x) for x in a]
    if k or not vs or any(_kind(it.facts, x) != 'str' for x in vs):
        return MISSING
    r = vs[0]
    for x in vs[1:]:
        if it.truth(smeth(it, x, 'startswith', '/')):
            r = x
        elif not it.truth(r) or it.truth(
                smeth(it, r, 'endswith', '/')):
            r = B.binop(it, ast.Add(), r, x)
        else:
            r = B.binop(it, ast.Add(), B.binop(it, ast.Add(), r, '/'), x)
    return r


def m_basename(it, a, k):
    v = it.facts.norm(a[0])
    if _kind(it.facts, v) != 'str':
        return MISSING
    return list(it.iterate(smeth(it, v, 'rpartition', '/')))[2]


def m_warn(it, a, k):
    it.event('warn', tuple(a))
    return None


def op2(node):
    return lambda it, a, k: B.binop(it, node, it.facts.norm(a[0]),
                                    it.facts.norm(a[1]))


def cmp2(node):
    return lambda it, a, k: it.compare(node, a[0], a[1])


def m_suppress(it, a, k):
    cls = it.prog.helper_class('suppress')
    return Obj(cls, {'types': Tup(a)})


def m_parsedate_tz(it, a, k):
    """nothing or ten integers"""
    s = it.facts.norm(a[0])
    if is_scalar(s):
        from email.utils import parsedate_tz
        try:
            r = parsedate_tz(s)
        except Exception as e:
            B.host_raise(it, e)
        return r if r is None else Tup(r)
    t = Term('ext', ('email.utils.parsedate_tz', s), None)
    if not it.truth_term(Term('isdate', (s,), 'bool')):
        return None
    return Tup([Term('item', (t, i), 'int') for i in range(6)] +
               [0, 1, -1, Term('item', (t, 9), 'int')])


def m_parse_http_list(it, a, k):
    """urllib.request.parse_http_list on constants and unknown atoms"""
    s = it.facts.norm_deep(a[0])
    if it.ty(s) == 'bytes':
        # iterating bytes yields integers: nothing is special
        it.raise_('TypeError', 'can only concatenate str (not "int") to str')
    if isinstance(s, str):
        from urllib.request import parse_http_list
        return it.mk_list(parse_http_list(s))
    from . import strops
    res, part, escape, quote = [], [], False, False
    for p in strops.parts_of(s):
        if not isinstance(p, str):
            if not isinstance(p, Term):
                return MISSING
            bad = '"\\' if quote else '",'
            if not all(strdom.lacks(p, c, it.facts) for c in bad):
                return MISSING
            if escape and not strops.nonempty(it, p):
                return MISSING
            part.append(p)
            escape = False
            continue
        for c in p:
            if escape:
                part.append(c)
                escape = False
            elif quote:
                if c == '\\':
                    escape = True
                    continue
                if c == '"':
                    quote = False
                part.append(c)
            elif c == ',':
                res.append(part)
                part = []
            else:
                if c == '"':
                    quote = True
                part.append(c)
    if part:
        res.append(part)
    return it.mk_list([B.call_str(it, 'str', 'strip', [
        B.cat(it, x, 'str') if x else ''], {}) for x in res])


# -- regular expressions -----------------------------------------------------
def m_re_compile(it, a, k):
    p = it.facts.norm(a[0])
    if isinstance(p, Obj) and p.cls.name == 'Pattern':
        return p
    flags = it.facts.norm(a[1]) if len(a) > 1 else k.get('flags', 0)
    if isinstance(p, (str, bytes)) and isinstance(flags, int):
        try:
            _re.compile(p, flags)
        except (_re.error, ValueError, OverflowError):
            # re.error is a subclass of Exception
            it.raise_('Exception', 'invalid regular expression %r' % (p,))
    o = Obj(it.b('Pattern'), {'pattern': p, 'flags': flags})
    o.base = it.loading
    seen = getattr(it, 'seen_patterns', None)
    if seen is not None:
        seen.append((p, flags))
    return o


def pat_host(o):
    p, f = o.attrs['pattern'], o.attrs['flags']
    if isinstance(p, (str, bytes)) and isinstance(f, int):
        try:
            return _re.compile(p, f)
        except _re.error:
            return None
    return None


def m_normalize(it, a, k):
    v = it.facts.norm_deep(a[1]) if len(a) == 2 and not k else None
    if isinstance(v, Term) and B.encodable(it, v, 'ascii'):
        return v
    return MISSING


def pat_key(o):
    return Tup((o.attrs['pattern'], o.attrs['flags']))


def m_re_func(n):
    def f(it, a, k):
        flags = k.pop('flags', 0) if k else 0
        maxpos = {'match': 2, 'search': 2, 'fullmatch': 2, 'sub': 4,
                  'split': 3, 'findall': 2, 'finditer': 2}[n]
        if len(a) > maxpos:
            flags = a[maxpos]
            a = a[:maxpos]
        p = m_re_compile(it, [a[0], flags], {})
        return re_method(it, p, n, a[1:], k)
    return f


def sub_class(it, p, rep, s):
    """re.sub of a single character, part by part"""
    from . import rexmatch, strops
    import re as _re
    pat, fl = p.attrs['pattern'], p.attrs['flags']
    if not isinstance(pat, str) or not isinstance(fl, int):
        return None
    c = rexmatch.pattern_class(pat, fl)
    if c is None or not rexmatch.single(pat, fl):
        return None
    out = []
    for x in strops.parts_of(s):
        x = it.facts.norm(x)
        if isinstance(x, str):
            out.append(_re.sub(pat, rep, x, flags=fl))
        elif not rexmatch.Atom(it, x).mask & c:
            out.append(x)
        elif rep == '' and not rexmatch.Atom(it, x).mask & ~c:
            pass
        else:
            out.append(Term('ext', ('re.sub', pat_key(p), rep, x), 'str'))
    return B.cat(it, out, 'str')


def re_method(it, p, n, args, kwargs):
    s = it.facts.norm(args[-1] if n in ('sub', 'subn') and len(args) == 2
                      else (args[1] if n in ('sub', 'subn') else args[0]))
    h = pat_host(p)
    if n == 'groups':
        return h.groups if h else it.fresh('groups', 'int')
    ts, tp = it.ty(s), it.ty(p.attrs['pattern'])
    if ts in ('str', 'bytes') and tp in ('str', 'bytes') and ts != tp:
        it.raise_('TypeError', 'cannot use a %s pattern on a %s-like object'
                  % (tp, ts))
    if s is None or isinstance(s, (int, float)) or isinstance(s, Obj) and \
            s.data is not None:
        it.raise_('TypeError', 'expected string or bytes-like object')
    if n in ('match', 'search', 'fullmatch'):
        pos = it.facts.norm(args[1]) if len(args) > 1 else 0
        if h is not None and isinstance(s, (str, bytes)) and \
                isinstance(pos, int):
            m = getattr(h, n)(s, pos)
            if m is None:
                return None
            return Obj(it.b('Match'), {'$host': m, '$pat': p, 'string': s})
        r = tok_find(it, h, p, s, n, pos)
        if r is not None:
            return r[0] if r else None
        key = Term('re', (n, pat_key(p), s, pos), 'bool')
        if key not in it.facts.truth:
            for t, v in list(it.facts.truth.items()):
                if v is False and t.op == 'in' and t.args[1] is s and \
                        isinstance(t.args[0], (str, bytes)) and \
                        len(t.args[0]) == 1 and \
                        strdom.re_needs(key, t.args[0]):
                    it.facts.truth[key] = False
                    break
        if not it.truth_term(key):
            return None
        key = Term('rem', key.args, 'Match')
        return Obj(it.b('Match'), {'$key': key, '$pat': p, 'string': s,
                                   'lastgroup': Term('lastgroup', (key,),
                                                     'str')})
    if n in ('sub', 'subn'):
        rep = it.facts.norm(args[0])
        if h is not None and isinstance(s, (str, bytes)) and isinstance(
                rep, (str, bytes)):
            cnt = it.facts.norm(args[2]) if len(args) > 2 else it.facts.norm(
                kwargs.get('count', 0))
            if isinstance(cnt, int):
                return B.from_host(it, getattr(h, n)(rep, s, cnt))
        if h is not None and isinstance(s, (str, bytes)) and not isinstance(
                rep, (str, bytes, Term)) and n == 'sub' and len(args) == 2 \
                and not kwargs:
            ps, at = [], 0
            for m in h.finditer(s):
                ps.append(s[at:m.start()])
                v = it.call(rep, [Obj(it.b('Match'), {
                    '$host': m, '$pat': p, 'string': s})], {})
                v = it.facts.norm(v)
                if it.ty(v) != it.ty(s):
                    it.raise_('TypeError', 'expected str instance')
                ps.append(v)
                at = m.end()
            ps.append(s[at:])
            return B.cat(it, [x for x in ps if x != s[:0]], it.ty(s))
        if n == 'sub' and len(args) == 2 and not kwargs:
            ms = tok_find(it, h, p, s, 'finditer')
            if ms is not None and (not isinstance(rep, Term)):
                if isinstance(rep, (str, bytes)) and (
                        '\\' if isinstance(rep, str) else b'\\') in rep:
                    ms = None
            else:
                ms = None
            if ms is not None:
                ps, at = [], (0, 0)
                for m in ms:
                    a, b = m.attrs['$tok'][1][0]
                    ps.append(tok_text(it, m, at, a))
                    v = rep if isinstance(rep, (str, bytes)) else \
                        it.facts.norm(it.call(rep, [m], {}))
                    if it.ty(v) != it.ty(s):
                        it.raise_('TypeError', 'expected str instance')
                    ps.append(v)
                    at = b
                if not ms:
                    return s
                m = ms[0]
                ps.append(tok_text(it, m, at, (len(m.attrs['$tok'][0]), 0)))
                return B.cat(it, ps, it.ty(s))
        if n == 'sub' and len(args) == 2 and not kwargs and isinstance(
                rep, str) and '\\' not in rep:
            r = sub_class(it, p, rep, s)
            if r is not None:
                return r
        if not isinstance(rep, (str, bytes, Term)):
            # a replacement function: analysed for one symbolic match
            key = Term('re', ('sub', pat_key(p), s, 0), 'bool')
            return Term('ext', ('re.sub', pat_key(p),
                                Term('obj', (rep,)), s), it.ty(s))
        return Term('ext', ('re.sub', pat_key(p), rep, s), it.ty(s))
    if n == 'split':
        if h is not None and isinstance(s, (str, bytes)):
            return B.from_host(it, h.split(s))
        ms = tok_find(it, h, p, s, 'finditer') if len(args) == 1 and \
            not kwargs else None
        if ms is not None:
            if not ms:
                return it.mk_list([s])
            out, at = [], (0, 0)
            for m in ms:
                a, b = m.attrs['$tok'][1][0]
                out.append(tok_text(it, m, at, a))
                out += [match_group(it, m, i + 1) for i in range(h.groups)]
                at = b
            m = ms[0]
            out.append(tok_text(it, m, at, (len(m.attrs['$tok'][0]), 0)))
            return it.mk_list(out)
        return Term('ext', ('re.split', pat_key(p), s), 'list')
    if n == 'findall':
        if h is not None and isinstance(s, (str, bytes)):
            return B.from_host(it, h.findall(s))
        ms = tok_find(it, h, p, s, 'finditer') if len(args) == 1 and \
            not kwargs else None
        if ms is not None:
            def one(m):
                gs = [match_group(it, m, i + 1) for i in range(h.groups)]
                e = '' if it.ty(s) == 'str' else b''
                gs = [e if g is None else g for g in gs]
                return match_group(it, m, 0) if not gs else gs[0] if len(
                    gs) == 1 else Tup(gs)
            return it.mk_list([one(m) for m in ms])
        return Term('ext', ('re.findall', pat_key(p), s), 'list')
    if n == 'finditer':
        if h is not None and isinstance(s, (str, bytes)):
            return IterV(iter([Obj(it.b('Match'), {'$host': m, '$pat': p,
                                                   'string': s})
                               for m in h.finditer(s)]))
        ms = tok_find(it, h, p, s, 'finditer') if len(args) == 1 else None
        if ms is not None:
            return IterV(iter(ms))

        def run():
            i = 0
            while True:
                if i >= it.LOOP_K:
                    it.bounded.add('finditer')
                    return
                key = Term('re', ('finditer', pat_key(p), s, i), 'bool')
                if not it.truth_term(key):
                    return
                yield Obj(it.b('Match'), {
                    '$key': Term('rem', key.args, 'Match'), '$pat': p,
                    'string': s})
                i += 1
        return IterV(run(), 'iterator')
    raise Unsupported('Pattern.%s' % n)


def group_optional(pat, gi):
    """can group gi be unset in a successful match? (syntactic)"""
    try:
        tree = _sre.parse(pat)
    except Exception:
        return True
    mand = set()

    def walk(seq):
        for op, av in seq:
            n = str(op)
            if n == 'SUBPATTERN':
                if av[0] is not None:
                    mand.add(av[0])
                walk(av[-1])
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                if av[0] > 0:
                    walk(av[2])
            elif n == 'ATOMIC_GROUP':
                walk(av)
            elif n == 'ASSERT':
                walk(av[1])
    walk(tree)
    return gi not in mand


def tok_find(it, h, p, s, how, pos=0, count=None):
    """matches of a pattern on a concatenation with unknown atoms"""
    if h is None or not isinstance(s, Term) or it.no_tok or \
            s.ty not in ('str', 'bytes'):
        return None
    r = rexmatch.find(it, h.pattern, h.flags & ~_re.UNICODE, s, how, pos,
                      count)
    if r is None:
        return None
    return [Obj(it.b('Match'), {'$tok': (r[0], m), '$pat': p, 'string': s})
            for m in r[1]]


def tok_text(it, m, a, b):
    return rexmatch.text(it, m.attrs['$tok'][0], a, b,
                         it.ty(m.attrs['string']))


def match_group(it, m, i):
    if '$tok' in m.attrs:
        h = pat_host(m.attrs['$pat'])
        i = it.facts.norm(i)
        if isinstance(i, str):
            i = h.groupindex.get(i, -1)
        if not isinstance(i, int):
            raise Unsupported('group number')
        if not 0 <= i <= h.groups:
            it.raise_('IndexError', 'no such group')
        sp = m.attrs['$tok'][1].get(i)
        return None if sp is None else tok_text(it, m, *sp)
    if '$host' in m.attrs:
        try:
            return m.attrs['$host'].group(i)
        except IndexError:
            it.raise_('IndexError', 'no such group')
    h = pat_host(m.attrs['$pat'])
    i = it.facts.norm(i)
    if h is not None:
        if isinstance(i, str):
            if i not in h.groupindex:
                it.raise_('IndexError', 'no such group')
            i = h.groupindex[i]
        if isinstance(i, int) and i > h.groups:
            it.raise_('IndexError', 'no such group')
    key = m.attrs['$key']
    ty = it.ty(m.attrs['string']) or 'str'
    if isinstance(i, int) and i > 0 and h is not None and group_optional(
            h.pattern, i):
        if not it.truth_term(Term('groupset', (key, i), 'bool')):
            return None
    t = Term('group', (key, i), ty)
    if isinstance(i, int) and h is not None and i > 0:
        from . import strdom
        g = strdom.group_tree(h.pattern, h.flags, i)
        if g is not None and g.getwidth()[0] > 0:
            it.facts.truth.setdefault(t, True)
    return t


def match_method(it, m, n, args, kwargs):
    if n in ('group', '__getitem__'):
        if not args:
            return match_group(it, m, 0)
        if len(args) == 1:
            return match_group(it, m, args[0])
        return Tup([match_group(it, m, x) for x in args])
    h = pat_host(m.attrs['$pat'])
    if n == 'groups':
        if h is None:
            return it.fresh('groups', 'tuple')
        return Tup([match_group(it, m, i + 1) for i in range(h.groups)])
    if n == 'groupdict':
        if h is None:
            return Term('groupdict', (m.attrs.get('$key', 0),), 'dict')
        return it.mk_dict({g: match_group(it, m, i)
                           for g, i in h.groupindex.items()})
    if n in ('start', 'end', 'span'):
        if '$host' in m.attrs:
            return B.from_host(it, getattr(m.attrs['$host'], n)(*args))
        if '$tok' in m.attrs:
            gi = it.facts.norm(args[0]) if args else 0
            if isinstance(gi, str):
                gi = h.groupindex.get(gi, -1)
            sp = m.attrs['$tok'][1].get(gi)
            if sp is None:
                return Tup((-1, -1)) if n == 'span' else -1
            at = [B.length(it, tok_text(it, m, (0, 0), x)) for x in sp]
            return Tup(at) if n == 'span' else at[n == 'end']
        key = m.attrs['$key']
        if n == 'span':
            return Tup((Term('m.start', (key,), 'int'),
                        Term('m.end', (key,), 'int')))
        t = Term('m.' + n, [key] + args, 'int')
        zero = it.facts.lin_of(t)
        it.facts.add_lin(zero)
        return t
    raise Unsupported('Match.%s' % n)


EXT_RAISES = {
    'base64.b64decode': ('ValueError',),
    'uuid.UUID': ('ValueError',),
    'posixpath.getmtime': ('OSError',), 'posixpath.getsize': ('OSError',),
    'os.stat': ('OSError',), 'json.loads': ('ValueError',),
    'datetime.datetime': ('ValueError', 'OverflowError'),
    'datetime.timedelta': ('OverflowError',),
    'urllib.parse.urlparse': ('ValueError',),
    'urllib.parse.urlsplit': ('ValueError',),
    'urllib.parse.urljoin': ('ValueError',),
}
# external functions that never raise on the values the code passes
EXT_TOTAL = {
    'posixpath.join', 'posixpath.isfile', 'posixpath.basename',
    'time.time', 'warnings.warn', 'mimetypes.guess_type', 'os.fspath',
    'urllib.parse.quote', 'html.escape', 'sys.getfilesystemencoding',
}

# constants of another platform, set by a scenario while it runs
EXT_CONST = {}
EXT_OVERRIDE = {
    'functools.partial': lambda p: Ext('functools.partial'),
    'itertools.chain': lambda p: Ext('itertools.chain'),
    'itertools.repeat': lambda p: Ext('itertools.repeat'),
    'itertools.islice': lambda p: Ext('itertools.islice'),
    'collections.OrderedDict': lambda p: p.builtins['dict'],
    'operator.itemgetter': lambda p: Ext('operator.itemgetter'),
    'operator.attrgetter': lambda p: Ext('operator.attrgetter'),
    'operator.methodcaller': lambda p: Ext('operator.methodcaller'),
    're.Pattern': lambda p: p.builtins['Pattern'],
    're.Match': lambda p: p.builtins['Match'],
    'builtins.property': lambda p: p.builtins['property'],
}
for _n in ('I', 'IGNORECASE', 'U', 'UNICODE', 'X', 'VERBOSE', 'M',
           'MULTILINE', 'S', 'DOTALL', 'A', 'ASCII'):
    EXT_OVERRIDE['re.' + _n] = (lambda v: lambda p: v)(
        int(getattr(_re, _n)))

MODELS = {
    'functools.partial': m_partial,
    'functools.total_ordering': m_total_ordering,
    'functools.wraps': m_wraps,
    'functools.update_wrapper': m_identity_deco,
    'functools.reduce': m_reduce,
    'itertools.chain': m_chain,
    'itertools.chain.from_iterable': m_chain_from,
    'itertools.repeat': m_repeat,
    'itertools.islice': m_islice,
    'copy.deepcopy': m_deepcopy, 'copy.copy': m_copy,
    'sys.exc_info': m_exc_info,
    'warnings.warn': m_warn,
    'operator.itemgetter': m_itemgetter,
    'operator.attrgetter': m_attrgetter,
    'operator.methodcaller': m_methodcaller,
    'operator.add': op2(ast.Add()), 'operator.sub': op2(ast.Sub()),
    'operator.eq': cmp2(ast.Eq()), 'operator.ne': cmp2(ast.NotEq()),
    'operator.lt': cmp2(ast.Lt()), 'operator.gt': cmp2(ast.Gt()),
    'operator.le': cmp2(ast.LtE()), 'operator.ge': cmp2(ast.GtE()),
    'operator.contains': lambda it, a, k: it.contains(a[0], a[1]),
    'operator.not_': lambda it, a, k: not it.truth(a[0]),
    'operator.is_': cmp2(ast.Is()),
    'posixpath.join': m_path_join, 'posixpath.basename': m_basename,
    'builtins.open': m_open, 'io.open': m_open,
    'unicodedata.normalize': m_normalize,
    're.compile': m_re_compile,
    'urllib.request.parse_http_list': m_parse_http_list,
    'email.utils.parsedate_tz': m_parsedate_tz,
    'abc.abstractmethod': m_identity_deco,
}
for _n in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall',
           'finditer'):
    MODELS['re.' + _n] = m_re_func(_n)

NEW_EXT = {}


def _defaultdict(it, a, k):
    o = it.mk_dict()
    o.cls = it.prog.helper_class('defaultdict')
    o.attrs['default_factory'] = a[0] if a else None
    if len(a) > 1:
        B.dict_update(it, o, a[1])
    return o


NEW_EXT['collections.defaultdict'] = _defaultdict

_HELPERS = {}


def helper_class(self, name):
    c = self.ext_classes.get('$' + name)
    if c is None:
        if name == 'defaultdict':
            c = ClassV('defaultdict', [self.builtins['dict']], {},
                       'collections', 'builtin')
        elif name == 'suppress':
            def ent(it, a, k):
                return None

            def ext(it, a, k):
                if a[1] is None:
                    return False
                return it.exc_match(a[2], a[0].attrs['types'])
            c = ClassV('suppress', [self.builtins['object']],
                       {'__enter__': HostFunc('enter', ent, True),
                        '__exit__': HostFunc('exit', ext, True)},
                       'contextlib', 'repo')
        elif name == 'closing':
            def ent(it, a, k):
                return a[0].attrs['thing']

            def ext(it, a, k):
                it.call(it.getattr(a[0].attrs['thing'], 'close'), [])
                return False
            c = ClassV('closing', [self.builtins['object']],
                       {'__enter__': HostFunc('enter', ent, True),
                        '__exit__': HostFunc('exit', ext, True)},
                       'contextlib', 'repo')
        elif name == 'ctxmgr':
            def ent(it, a, k):
                try:
                    return it.next_(a[0].attrs['gen'])
                except _Stop:
                    it.raise_('RuntimeError', "generator didn't yield")

            def ext(it, a, k):
                g = a[0].attrs['gen']
                if a[1] is None:
                    try:
                        it.next_(g)
                    except _Stop:
                        return False
                    it.raise_('RuntimeError', "generator didn't stop")
                try:
                    g.gen.throw(PyRaise(a[2], it.loc()))
                except StopIteration:
                    return True
                except PyRaise as e:
                    if e.val is a[2]:
                        return False
                    raise
                it.raise_('RuntimeError', "generator didn't stop")
            c = ClassV('ctxmgr', [self.builtins['object']],
                       {'__enter__': HostFunc('enter', ent, True),
                        '__exit__': HostFunc('exit', ext, True)},
                       'contextlib', 'repo')
        self.ext_classes['$' + name] = c
    return c


Program.helper_class = helper_class


def _ctxmgr(it, a, k):
    f = a[0]

    def mk(i, b, kk):
        return Obj(i.prog.helper_class('ctxmgr'), {'gen': i.call(f, b, kk)})
    return HostFunc('contextmanager', mk, True)


NEW_EXT['contextlib.suppress'] = m_suppress
NEW_EXT['contextlib.closing'] = lambda it, a, k: Obj(
    it.prog.helper_class('closing'), {'thing': a[0]})
MODELS['contextlib.contextmanager'] = _ctxmgr

STDLIB = {'os', 'posixpath', 'sys', 're', 'io', 'time', 'datetime', 'json',
          'urllib', 'string', 'uuid', 'html', 'email', 'mimetypes',
          'functools', 'itertools', 'copy', 'base64', 'zlib', 'random',
          'hashlib', 'http', 'tempfile', 'warnings', 'unicodedata', 'shutil',
          'pprint', 'fnmatch', 'collections', 'operator', 'contextlib',
          'abc', 'types', 'binascii', 'threading', 'errno', 'stat', 'math',
          'codecs', 'numbers', 'enum', 'weakref', 'inspect', 'builtins',
          'textwrap', 'ntpath'}


def _abc_mapping(it, v, c):
    return c.is_sub(it.b('dict'))


def _abc_seq(it, v, c):
    return any(c.is_sub(it.b(n)) for n in ('list', 'tuple', 'str', 'bytes'))


def _abc_iterable(it, v, c):
    return it.find_cls_attr(c, '__iter__') is not None


def _abc_callable(it, v, c):
    return c.name in ('function', 'method', 'builtin_function', 'type') or \
        it.find_cls_attr(c, '__call__') is not None


ABCS.update({'Mapping': _abc_mapping, 'MutableMapping': _abc_mapping,
             'Sequence': _abc_seq, 'Iterable': _abc_iterable,
             'Callable': _abc_callable, 'Hashable': lambda i, v, c: True})

from . import memio                               # noqa: E402
memio.install(MODELS, NEW_EXT)
from . import urlmodel                            # noqa: E402
urlmodel.install(MODELS, NEW_EXT)

from . import quotemodel     # noqa: E402
quotemodel.install(MODELS)
