"""in-memory streams (io.BytesIO, io.StringIO) as remaining-data values"""
import ast

from .values import Obj, SliceV
from .interp import Unsupported


def install(MODELS, NEW_EXT):
    for name, empty in (('io.BytesIO', b''), ('io.StringIO', '')):
        _one(MODELS, NEW_EXT, name, empty)


def _one(MODELS, NEW_EXT, name, empty):
    nl = b'\n' if empty == b'' else '\n'

    def new(it, a, k):
        buf = a[0] if a else k.get('initial_bytes',
                                   k.get('initial_value', empty))
        if buf is None:
            buf = empty
        o = Obj(it.prog.ext_class(name), {'$buf': buf, '$rest': buf,
                                          'closed': False})
        o.base = it.loading
        return o

    def cut(it, o, n):
        rest = o.attrs['$rest']
        o.attrs['$rest'] = it.getitem(rest, SliceV(n, None, None))
        return it.getitem(rest, SliceV(None, n, None))

    def size(it, a):
        n = it.facts.norm(a[1]) if len(a) > 1 else None
        if n is not None and it.less(n, 0):
            n = None
        return n

    def read(it, a, k):
        o = a[0]
        n = size(it, a)
        if n is None:
            r, o.attrs['$rest'] = o.attrs['$rest'], empty
            return r
        return cut(it, o, n)

    def readline(it, a, k):
        o = a[0]
        if size(it, a) is not None:
            raise Unsupported('sized readline of an in-memory stream')
        p = it.call(it.getattr(o.attrs['$rest'], 'partition'), [nl])
        x, y, z = [it.getitem(p, i) for i in range(3)]
        o.attrs['$rest'] = z
        return it.binop(ast.Add(), x, y)

    def write(it, a, k):
        o = a[0]
        if it.truth(o.attrs['$rest']):
            raise Unsupported('overwriting an in-memory stream')
        o.attrs['$buf'] = it.binop(ast.Add(), o.attrs['$buf'], a[1])
        return it.call(it.b('len'), [a[1]])

    def seek(it, a, k):
        o = a[0]
        off = it.facts.norm(a[1])
        wh = it.facts.norm(a[2]) if len(a) > 2 else 0
        if off == 0 and wh == 0:
            o.attrs['$rest'] = o.attrs['$buf']
            return 0
        if off == 0 and wh == 2:
            o.attrs['$rest'] = empty
            return it.call(it.b('len'), [o.attrs['$buf']])
        if wh == 0:
            for v, rest in o.attrs.get('$marks', ()):
                if v is off or it.eq(v, off):
                    o.attrs['$rest'] = rest
                    return off
            if not it.less(off, 0):
                o.attrs['$rest'] = it.getitem(o.attrs['$buf'],
                                              SliceV(off, None, None))
                return off
        raise Unsupported('seek of an in-memory stream')

    def tell(it, a, k):
        ln = it.b('len')
        r = it.facts.norm(it.binop(
            ast.Sub(), it.call(ln, [a[0].attrs['$buf']]),
            it.call(ln, [a[0].attrs['$rest']])))
        a[0].attrs['$marks'] = ((r, a[0].attrs['$rest']),)
        return r

    def close(it, a, k):
        a[0].attrs['closed'] = True

    def getvalue(it, a, k):
        return a[0].attrs['$buf']
    NEW_EXT[name] = new
    for f in (read, readline, write, seek, tell, close, getvalue):
        MODELS['%s.%s' % (name, f.__name__)] = f
