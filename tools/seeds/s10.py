"""Planted bugs, tenth batch: iteration by lines and separators."""
SEEDS = []


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': demo, 'needs': needs, 'breaks': breaks})


W = 'verktyg/wsgi.py'
B('h45a', 'C45', W, '''        _split = re.compile(b'(' + re.escape(separator) + b')').split
''', '''        _split = re.compile(b'([' + re.escape(separator) + b'])').split
''', '''
from verktyg.wsgi import make_chunk_iter
got = list(make_chunk_iter([b'a\\rb\\r\\nc'], b'\\r\\n'))
assert got == [b'a\\rb', b'c'], got
''', 'a separator of several bytes', 'it is no longer found')
B('h45b', 'C45', W, '''            for item in chain(buffer, new_data.splitlines(True)):
                new_buf.append(item)
''', '''            for item in chain(buffer, new_data.splitlines(True)):
                if len(new_buf) > 1:
                    new_buf = [''.join(new_buf)] if isinstance(
                        item, str) else new_buf[1:]
                new_buf.append(item)
''', '''
from verktyg.wsgi import make_line_iter
got = list(make_line_iter([b'a', b'b', b'c\\n']))
assert got == [b'abc\\n'], got
''', 'a line of bytes that spans three buffers', 'its beginning is lost')
B('h45c', 'C45', W, '''    if not isinstance(stream, LimitedStream) and limit is not None:
        stream = LimitedStream(stream, limit)
    _read = stream.read
''', '''    if not isinstance(stream, LimitedStream) and limit:
        stream = LimitedStream(stream, limit)
    _read = stream.read
''', '''
from io import StringIO
from verktyg.wsgi import make_line_iter
got = list(make_line_iter(StringIO('GET / HTTP/1.1\\n'), limit=0))
assert got == [], got
''', 'a limit of zero', 'the next request is read')
B('h45d', 'C45', W, '''        item = _read(buffer_size)
        if not item:
            break
        yield item
''', '''        item = _read(buffer_size)
        if not item:
            break
        yield item
        if len(item) < buffer_size:
            break
''', '''
from verktyg.wsgi import make_line_iter
class S:
    parts = ['a\\n', 'b\\n']
    def read(self, n):
        return self.parts.pop(0) if self.parts else ''
got = list(make_line_iter(S()))
assert got == ['a\\n', 'b\\n'], got
''', 'a stream that gives less than it is asked for', 'the rest is lost')
