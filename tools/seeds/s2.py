"""Planted bugs, second batch: WSGI layer and responses."""
SEEDS = []
TRY = '''
def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': TRY + demo, 'needs': needs, 'breaks': breaks})


W = 'verktyg/wsgi.py'
R = 'verktyg/responses.py'

B('c08c', 'C08', W,
  '''        if self._pos >= self.limit:
            return self.on_exhausted()
        if size is None or size < 0:  # for consistence with file
            size = self.limit - self._pos
''', '''        if self._pos >= self.limit:
            return self.on_exhausted()
        if not size or size < 0:  # for consistence with file
            size = self.limit - self._pos
''', '''
from io import BytesIO
from verktyg.wsgi import LimitedStream
s = LimitedStream(BytesIO(b'abc\\ndef'), 7)
assert s.readline(0) == b''
assert s.tell() == 0
''', 'readline(0)', 'a zero sized readline consumes a whole line')

B('c09b', 'C09', W,
  '''    if environ.get('wsgi.input_terminated'):
        return stream
''', '''    if 'wsgi.input_terminated' in environ:
        return stream
''', '''
from io import BytesIO
from verktyg.wsgi import get_input_stream
s = get_input_stream({'wsgi.input': BytesIO(b'abcdef'), 'CONTENT_LENGTH': '3',
                      'wsgi.input_terminated': False})
assert s.read() == b'abc'
''', 'a server that says the input is not terminated',
  'reading runs past the announced body')

B('c10a', 'C10', W,
  '''    for ref in trusted_list:
        if ref.startswith('.'):
            ref = ref[1:]
            suffix_match = True
        else:
            suffix_match = False
''', '''    suffix_match = False
    for ref in trusted_list:
        if ref.startswith('.'):
            ref = ref[1:]
            suffix_match = True
''', '''
from verktyg.wsgi import host_is_trusted
assert not host_is_trusted('a.b.org', ['.example.org', 'b.org'])
assert host_is_trusted('a.example.org', ['.example.org'])
''', 'a list with a plain name after one with a dot',
  'subdomains of a plain name are trusted')

B('c11a', 'C11', R,
  '''        elif status == 304:
            remove_entity_headers(headers)
''', '''        elif status == 304 and content_length is not None:
            remove_entity_headers(headers)
''', '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response(status=304, headers=[('Content-Type', 'text/html')])
h = r.get_wsgi_headers(create_environ())
assert 'Content-Type' not in h, h
''', 'a 304 response without a length header',
  'entity headers are sent with a 304 answer')

B('c12a', 'C12', W,
  '''            callbacks.insert(0, iterable_close)
''', '''            callbacks.append(iterable_close)
''', '''
from verktyg.wsgi import ClosingIterator
seen = []
class It(object):
    def __iter__(self):
        return self
    def __next__(self):
        raise StopIteration()
    def close(self):
        seen.append('iterable')
ClosingIterator(It(), [lambda: seen.append('callback')]).close()
assert seen == ['iterable', 'callback'], seen
''', 'an iterable with a close method and callbacks',
  'the callbacks run before the iterable is closed')

B('c12b', 'C12', R,
  '''            self.response = list(self.iter_encoded())
            if close is not None:
                self.call_on_close(close)
''', '''            self.response = list(self.iter_encoded())
            if close is not None and not self.response:
                self.call_on_close(close)
''', '''
from verktyg.responses import Response
seen = []
class It(object):
    def __init__(self):
        self.i = iter([b'a', b'b'])
    def __iter__(self):
        return self.i
    def close(self):
        seen.append(1)
r = Response(It())
assert r.get_data() == b'ab'
r.close()
assert seen == [1], seen
''', 'get_data of a response whose body has a close method',
  'the body is never closed')

B('c13a', 'C13', W,
  '''            if x and x != '..'
        )
''', '''            if x and not x.startswith('..')
        ).replace('/./', '/')
''', '''
import os, tempfile, shutil
from verktyg.wsgi import SharedDataMiddleware
from verktyg.test import create_environ, run_wsgi_app
def nf(e, s):
    s('404 X', [])
    return []
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, '..x'), 'w').write('dots')
    app = SharedDataMiddleware(nf, {'/s': d})
    it, status, h = run_wsgi_app(app, create_environ('/s/..x'))
    assert status == '200 OK', status
    assert b''.join(it) == b'dots'
    it.close()
finally:
    shutil.rmtree(d)
''', 'a file whose name begins with two dots',
  'an exported file is not served')

B('c13c', 'C13', W,
  '''                f.close()
                start_response('304 Not Modified', headers)
                return []
            headers.append(('Expires', http_date(time() + timeout)))
''', '''                start_response('304 Not Modified', headers)
                return []
            headers.append(('Expires', http_date(time() + timeout)))
''', '''
import os, tempfile, shutil
from verktyg.wsgi import SharedDataMiddleware
from verktyg.test import create_environ, run_wsgi_app
def nf(e, s):
    s('404 X', [])
    return []
d = tempfile.mkdtemp()
opened = []
class M(SharedDataMiddleware):
    def _opener(self, fn):
        f = SharedDataMiddleware._opener(self, fn)
        def g():
            r = f()
            opened.append(r[0])
            return r
        return g
try:
    open(os.path.join(d, 'x.txt'), 'w').write('x')
    app = M(nf, {'/s': d})
    it, status, h = run_wsgi_app(app, create_environ('/s/x.txt'))
    it.close()
    e = create_environ('/s/x.txt')
    e['HTTP_IF_NONE_MATCH'] = h['Etag']
    it, status, h = run_wsgi_app(app, e)
    assert status.startswith('304'), status
    assert opened[-1].closed
finally:
    shutil.rmtree(d)
''', 'a conditional request that is answered with 304',
  'the file stays open')

B('c33a', 'C33', W,
  '''            app = self.mounts.get(script, self.app)
''', '''            app = self.mounts.get('', self.app)
''', '''
from verktyg.wsgi import DispatcherMiddleware
d = DispatcherMiddleware(lambda e, s: 'default', {'x': lambda e, s: 'x'})
assert d({'PATH_INFO': 'x'}, None) == 'x'
assert d({'PATH_INFO': '/x'}, None) == 'default'
''', 'a path without any slash', 'the mounted application is not found')

B('c33b', 'C33', W,
  '''        script = environ.get('PATH_INFO', '')
        path_info = ''
        while '/' in script:
''', '''        script = environ.get('PATH_INFO', '').rstrip('/')
        path_info = environ.get('PATH_INFO', '')[len(script):][:1]
        while '/' in script:
''', '''
from verktyg.wsgi import DispatcherMiddleware
d = DispatcherMiddleware(lambda e, s: 'default', {'/x': lambda e, s: dict(e)})
e = d({'PATH_INFO': '/x//', 'SCRIPT_NAME': '/r'}, None)
assert e['SCRIPT_NAME'] + e['PATH_INFO'] == '/r/x//', e
''', 'a path that ends in several slashes',
  'the mounted application sees a shortened path')

B('c30b', 'C30', R,
  '''            if self.autocorrect_location_header:
                current_url = get_current_url(environ, root_only=True)
''', '''            if self.autocorrect_location_header:
                current_url = get_current_url(environ, strip_querystring=True)
''', '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response(status=302, headers=[('Location', 'x')])
e = create_environ('/a/b', 'http://h.org/root')
assert r.get_wsgi_headers(e)['Location'] == 'http://h.org/root/x'
''', 'a relative location and a request below the root',
  'the location is resolved against the page instead of the root')

B('c35a', 'C35', R,
  '''        self.response = list(self.iter_encoded())
        self.headers['Content-Length'] = str(sum(map(len, self.response)))
''', '''        self.headers['Content-Length'] = str(
            self.calculate_content_length() or 0)
        self.response = list(self.iter_encoded())
''', '''
from verktyg.responses import Response
class R(Response):
    implicit_sequence_conversion = False
r = R(iter([b'abc', b'd']))
r.freeze()
assert r.headers['Content-Length'] == '4', r.headers
''', 'freezing a streamed response that must not be converted implicitly',
  'a length of zero is announced')

B('c08a', 'C08', W,
  """            line = self._readline(size)
        except (ValueError, IOError):
""", """            line = self._readline(size)
        except ValueError:
""", """
from io import BytesIO
from verktyg.wsgi import LimitedStream
from verktyg.exceptions import ClientDisconnected
class S(BytesIO):
    def readline(self, *a):
        raise OSError('connection reset')
s = LimitedStream(S(b'abc'), 3)
assert raises(ClientDisconnected, s.readline)
""", 'an I/O error of the connection while reading lines',
  'the error is not reported as a client disconnect')

B('c08b', 'C08', W,
  """        if size is None or size < 0:  # for consistence with file
            size = self.limit
""", """        if not size or size < 0:  # for consistence with file
            size = self.limit
""", """
from io import BytesIO
from verktyg.wsgi import LimitedStream
s = LimitedStream(BytesIO(b'abcdef'), 6)
assert s.read(0) == b''
assert s.tell() == 0
""", 'read(0)', 'a zero sized read takes the whole body')

B('c09a', 'C09', W,
  """    if content_length is None:
        return safe_fallback and BytesIO() or stream
""", """    if not content_length:
        return safe_fallback and BytesIO() or stream
""", """
from io import BytesIO
from verktyg.wsgi import get_input_stream
s = get_input_stream({'wsgi.input': BytesIO(b'next request'),
                      'CONTENT_LENGTH': '0'}, safe_fallback=False)
assert s.read() == b''
""", 'an empty body read without the safe fallback',
  'the bytes of the next request are read')

B('c10b', 'C10', W,
  """    for ref in trusted_list:
        if ref.startswith('.'):
            ref = ref[1:]
            suffix_match = True
        else:
            suffix_match = False
        ref = _normalize(ref)
""", """    suffix_match = False
    for ref in trusted_list:
        if ref.startswith('.'):
            ref = ref[1:]
            suffix_match = True
        ref = _normalize(ref)
""", """
from verktyg.wsgi import host_is_trusted
assert not host_is_trusted('a.b.org', ['.c.org', 'b.org'])
""", 'an exact entry after an entry with a leading dot',
  'subdomains of an exact entry become trusted')

B('c13b', 'C13', W,
  """            if not search_path.endswith('/'):
                search_path += '/'
            if path.startswith(search_path):
                real_filename, file_loader = loader(path[len(search_path):])
""", """            if path.startswith(search_path):
                real_filename, file_loader = loader(
                    path[len(search_path):].lstrip('/'))
""", """
import os, tempfile, shutil
from verktyg.wsgi import SharedDataMiddleware
from verktyg.test import create_environ, run_wsgi_app
def app(e, s):
    s('404 Not Found', [])
    return []
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, 'x.txt'), 'w').write('x')
    app = SharedDataMiddleware(app, {'/s': d})
    it, status, h = run_wsgi_app(app, create_environ('/s/x.txt'))
    assert status == '200 OK', status
    it.close()
    it, status, h = run_wsgi_app(app, create_environ('/sx.txt'))
    assert status.startswith('404'), status
finally:
    shutil.rmtree(d)
""", 'a path that continues the name of an export without a slash',
  'files are served under paths outside the export')

B('c30a', 'C30', R,
  """        self._status_code = code
        try:
            self._status = '%d %s' % (code, HTTP_STATUS_CODES[code].upper())
""", """        self._status_code = code
        if getattr(self, '_status', '').startswith('%d ' % code):
            return
        try:
            self._status = '%d %s' % (code, HTTP_STATUS_CODES[code].upper())
""", """
from verktyg.responses import Response
r = Response(status='200 FINE')
r.status_code = 200
assert r.status == '200 OK', r.status
""", 'a code equal to that of a custom status line',
  'the old reason phrase is sent')
