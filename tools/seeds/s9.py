"""Planted bugs, ninth batch: various."""
SEEDS = []


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': demo, 'needs': needs, 'breaks': breaks})


X = 'verktyg/exception_dispatch.py'
W = 'verktyg/wsgi.py'
R = 'verktyg/routing.py'
P = 'verktyg/responses.py'
C = 'verktyg/http/cache_control.py'
H = 'verktyg/http/basic.py'
A = 'verktyg/http/auth.py'
B('h12a', 'C12', W, "            callbacks.insert(0, iterable_close)\n",
  "            callbacks.append(iterable_close)\n", '''
from verktyg.wsgi import ClosingIterator
log = []
def gen():
    try:
        yield 1
    finally:
        log.append('body')
it = ClosingIterator(gen(), lambda: log.append('callback'))
next(it)
it.close()
assert log == ['body', 'callback'], log
''', 'callbacks that rely on the body being closed', 'wrong order')
B('h12b', 'C12', P, """            self.response = list(self.iter_encoded())
            if close is not None:
                self.call_on_close(close)
""", """            self.response = list(self.iter_encoded())
            if close is not None and self.response:
                self.call_on_close(close)
""", '''
from verktyg.responses import Response
class It:
    closed = 0
    def __iter__(self): return iter(())
    def close(self): self.closed += 1
b = It()
r = Response(b)
r.make_sequence()
r.close()
assert b.closed == 1
''', 'an empty body made into a sequence', 'the body is never closed')
B('h33a', 'C33', W, """            script, last_item = script.rsplit('/', 1)
            path_info = '/%s%s' % (last_item, path_info)
""", """            script, last_item = script.rsplit('/', 1)
            if last_item or not path_info:
                path_info = '/%s%s' % (last_item, path_info)
""", '''
from verktyg.wsgi import DispatcherMiddleware
d = DispatcherMiddleware(None, {'/m': lambda e, s: e['PATH_INFO']})
assert d({'PATH_INFO': '/m//a'}, None) == '//a'
assert d({'PATH_INFO': '/m/a/'}, None) == '/a/'
''', 'a path with an empty segment', 'the path is altered')
B('h18a', 'C18', C, """        if if_none_match:
            unmodified = if_none_match.contains_raw(etag)
""", """        if if_none_match and not unmodified:
            unmodified = if_none_match.contains_raw(etag)
""", '''
from datetime import datetime
from verktyg.http import is_resource_modified
assert is_resource_modified({
    'REQUEST_METHOD': 'GET', 'HTTP_IF_NONE_MATCH': '"a"',
    'HTTP_IF_MODIFIED_SINCE': 'Wed, 01 Jan 2020 00:00:00 GMT'},
    etag='b', last_modified=datetime(2020, 1, 1))
''', 'a matching date together with another entity tag', 'stale 304')
B('h20a', 'C20', A, """            username, password = base64.b64decode(auth_info).split(b':', 1)
        except Exception:
            return
""", """            auth_info = base64.b64decode(auth_info)
        except Exception:
            return
        username, password = auth_info.split(b':', 1)
""", '''
import base64
from verktyg.http import parse_authorization_header
x = base64.b64encode(b'nocolon').decode()
assert parse_authorization_header('Basic ' + x) is None
''', 'credentials without a colon', 'ValueError for a request header')
B('h20b', 'C20', A, """            if not auth_map.get('nc') or not auth_map.get('cnonce'):
                return
""", """            if not (auth_map['nc'] and auth_map['cnonce']):
                return
""", '''
from verktyg.http import parse_authorization_header
assert parse_authorization_header(
    'Digest username="a", realm="b", nonce="c", uri="d", response="e", '
    'qop=auth') is None
''', 'a digest with qop and without nc', 'KeyError for a request header')
B('h25a', 'C25', R, """                    try:
                        value = self._converters[name].to_python(value)
                    except ValidationError:
                        return
                    result[str(name)] = value
""", """                    try:
                        result[str(name)] = self._converters[
                            name].to_python(value)
                    except ValidationError:
                        if len(groups) == 1:
                            return
""", '''
from verktyg.routing import URLMap, Route
from verktyg.exceptions import NotFound
m = URLMap([Route('/<a>/<int(max=3):b>', endpoint='e')]).bind('h')
try:
    m.match('/x/9')
except NotFound:
    pass
else:
    raise AssertionError
''', 'a second variable whose value is out of range',
  'the route matches without the value')

U = 'verktyg/utils.py'
B('h24c', 'C24', X, "                self._handlers[handler.exception_class].append(handler)\n",
  "                self._handlers[handler.exception_class].insert(0, handler)\n", '''
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
class A(Exception): pass
d = ExceptionDispatcher([ExceptionHandler(A, 'a'), ExceptionHandler(A, 'b')])
assert d.lookup(A) == 'b', d.lookup(A)
''', 'two handlers that are equally acceptable', 'the older one is chosen')
B('h35b', 'C35', P, '''        self.response = [value]
        if self.automatically_set_content_length:
''', '''        self.response = [value]
        if self.automatically_set_content_length and value:
''', '''
from verktyg.responses import Response
r = Response('abc')
r.set_data('abc')
r.set_data('')
assert r.headers['Content-Length'] == '0'
''', 'data replaced by nothing', 'the length of the old data is sent')
B('h14a', 'C14', U, '''        (escape(location), display_location),
''', '''        (location, display_location),
''', '''
from verktyg.utils import redirect
from urllib.parse import quote
r = redirect('http://a/?x=1&lt;=2')
assert b'"http://a/?x=1&amp;lt;=2"' in r.get_data(), r.get_data()
''', 'a target with an ampersand', 'the link leads elsewhere')
