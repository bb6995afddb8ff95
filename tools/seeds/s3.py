"""Planted bugs, third batch: exceptions, utils and HTTP values."""
SEEDS = []
TRY = '''
def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': TRY + demo, 'needs': needs, 'breaks': breaks})


X = 'verktyg/exceptions.py'
U = 'verktyg/utils.py'
CK = 'verktyg/http/cookies.py'
CC = 'verktyg/http/cache_control.py'
AU = 'verktyg/http/auth.py'

B('c31a', 'C31', X,
  '''        if old_obj is not None and issubclass(obj, old_obj):
            continue
''', '''        if old_obj is not None and issubclass(old_obj, obj):
            continue
''', '''
from verktyg.exceptions import abort, BadRequest
try:
    abort(400)
except BadRequest as e:
    assert type(e) is BadRequest, type(e)
''', 'abort with a code for which specialised classes exist',
  'a specialised class is raised instead of the general one')

B('c31b', 'C31', X,
  '''        self.mapping = dict(mapping)
        if extra is not None:
''', '''        self.mapping = mapping
        if extra is not None:
''', '''
from verktyg.exceptions import Aborter, NotFound, default_exceptions, abort
class Mine(NotFound):
    pass
Aborter(extra={404: Mine})
try:
    abort(404)
except NotFound as e:
    assert type(e) is NotFound, type(e)
''', 'an aborter with extra classes somewhere in the process',
  'the classes of one aborter are used by all')

B('c31c', 'C31', X,
  '''        if not args and not kwargs and not isinstance(code, int):
            raise HTTPException(response=code)
''', '''        if not isinstance(code, int):
            raise HTTPException(response=code)
''', '''
from verktyg.exceptions import abort
assert raises(LookupError, abort, '404', 'gone')
''', 'a code that is no integer with further arguments',
  'a text is treated as an application')

B('c32a', 'C32', U,
  '''        value = obj.__dict__.get(self.__name__, _missing)
        if value is _missing:
''', '''        value = obj.__dict__.get(self.__name__)
        if value is None:
''', '''
from verktyg.utils import cached_property
class A(object):
    n = 0
    @cached_property
    def x(self):
        self.n += 1
a = A()
a.x, a.x
assert a.n == 1, a.n
''', 'a function that returns None', 'the function is called on every read')

B('c32b', 'C32', U,
  '''        if self.name not in obj.headers:
            return self.default
        rv = obj.headers[self.name]
''', '''        rv = obj.headers.get(self.name)
        if not rv:
            return self.default
''', '''
from verktyg.utils import header_property
from verktyg.http import Headers
class A(object):
    x = header_property('X-A', default='none', load_func=lambda v: [v])
a = A()
a.headers = Headers([('X-A', '')])
assert a.x == [''], a.x
''', 'a header with an empty value', 'an empty header counts as missing')

B('c14b', 'C14', U,
  '''    query_string = environ.get('QUERY_STRING')
    if query_string:
        new_path += '?' + query_string
''', '''    query_string = environ.get('QUERY_STRING')
    if query_string and '=' in query_string:
        new_path += '?' + query_string
''', '''
from verktyg.utils import append_slash_redirect
r = append_slash_redirect({'PATH_INFO': '/a', 'QUERY_STRING': 'x'})
assert r.headers['Location'].endswith('/?x'), r.headers
''', 'a query string without an equals sign', 'the query string is lost')

B('c15b', 'C15', U,
  '''        filename.split('.')[0].upper() in _windows_device_files
''', '''        filename.upper() in _windows_device_files
''', '''
import os
from verktyg import utils
class fake(object):
    path = os.path
    name = 'nt'
utils.os = fake
assert utils.secure_filename('con.txt') == '_con.txt'
assert utils.secure_filename('con') == '_con'
''', 'a device name with an extension, on Windows',
  'a device name comes through')

B('c16b', 'C16', CK,
  '''            _push(b[i:k])
            _push(b[k + 1:k + 2])
            i = k + 2
''', '''            _push(b[i:k])
            i = k + 1
            if b[i:i + 1] == b'"':
                _push(b[i:i + 1])
                i += 1
''', '''
from verktyg.http import dump_cookie, parse_cookie
for v in ('a\\\\b', 'a\\\\054', 'a"b', '\\\\', 'x\\\\"y', '\\\\\\\\'):
    r = parse_cookie(dump_cookie('k', v))['k']
    assert r == v, (v, r)
''', 'a value with a backslash', 'backslashes come back changed')

B('c16d', 'C16', CK,
  '''    if isinstance(max_age, timedelta):
        max_age = (max_age.days * 60 * 60 * 24) + max_age.seconds
''', '''    if isinstance(max_age, timedelta):
        max_age = max_age.seconds
''', '''
from datetime import timedelta
from verktyg.http import dump_cookie
assert 'Max-Age=86400' in dump_cookie('k', 'v', max_age=timedelta(days=1))
''', 'an age of a day or more given as timedelta', 'the cookie expires early')

B('c18a', 'C18', CC,
  '''        if if_none_match:
            unmodified = if_none_match.contains_raw(etag)
''', '''        if if_none_match and not unmodified:
            unmodified = if_none_match.contains_raw(etag)
''', '''
from datetime import datetime
from verktyg.http import is_resource_modified, http_date
d = datetime(2020, 1, 1)
assert is_resource_modified({
    'REQUEST_METHOD': 'GET', 'HTTP_IF_NONE_MATCH': '"old"',
    'HTTP_IF_MODIFIED_SINCE': http_date(d)}, '"new"', last_modified=d)
''', 'a new tag with an unchanged date', 'stale contents are kept')

B('c18b', 'C18', CC,
  '''    if last_modified is not None:
        last_modified = last_modified.replace(microsecond=0)
''', '''    if last_modified is not None and last_modified.second:
        last_modified = last_modified.replace(microsecond=0)
''', '''
from datetime import datetime
from verktyg.http import is_resource_modified, http_date
d = datetime(2020, 1, 1, 1, 1, 0, 5)
assert not is_resource_modified({
    'REQUEST_METHOD': 'GET', 'HTTP_IF_MODIFIED_SINCE': http_date(d)},
    last_modified=d)
''', 'a modification in the first second of a minute',
  'an unchanged resource is sent again')

B('c18d', 'C18', CC,
  '''        if raw == '*':
            return ETags(star_tag=True)
        elif quoted is not None:
            raw = quoted
''', '''        if quoted is not None:
            raw = quoted
        if raw == '*':
            return ETags(star_tag=True)
''', '''
from verktyg.http import parse_etags
assert 'x' not in parse_etags('"*"')
''', 'a quoted star', 'every tag matches')

B('c19a', 'C19', CC,
  '''            if end is None:
                # nothing can follow an open ended range
                last_end = -1
            else:
''', '''            if end is None:
                last_end = begin
            else:
''', '''
from verktyg.http import parse_range_header
assert parse_range_header('bytes=5-,10-20') is None
''', 'a range behind an open one', 'contradictory ranges are accepted')

B('c19b', 'C19', CC,
  '''            if begin < last_end or last_end < 0:
                return None
''', '''            if begin < last_end:
                return None
''', '''
from verktyg.http import parse_range_header
assert parse_range_header('bytes=-5,10-20') is None
''', 'a range behind a suffix range', 'contradictory ranges are accepted')

B('c19c', 'C19', CC,
  '''        if is_byte_range_valid(start, end, length):
            return start, min(end, length)
''', '''        if is_byte_range_valid(start, min(end, length), length):
            return start, end
''', '''
from verktyg.http import Range
assert Range('bytes', [(0, 100)]).range_for_length(10) == (0, 10)
''', 'a range that ends behind the resource', 'bytes that do not exist')

B('c17b', 'C17', CC,
  '''            if value is None:
                self.pop(key, None)
            elif value is True:
                self[key] = None
''', '''            if value is None or value is False:
                self.pop(key, None)
            elif value == True:    # noqa: E712
                self[key] = None
''', '''
from verktyg.http import ResponseCacheControl
c = ResponseCacheControl()
c.max_age = 1
assert c.to_header() == 'max-age=1', c.to_header()
''', 'an age of one second', 'the age is lost')

B('c20c', 'C20', AU,
  '''        if 'qop' in auth_map:
            if not auth_map.get('nc') or not auth_map.get('cnonce'):
                return
        return Authorization('digest', auth_map)
''', '''        if 'qop' in auth_map:
            if not auth_map['nc'] or not auth_map['cnonce']:
                return
        return Authorization('digest', auth_map)
''', '''
from verktyg.http import parse_authorization_header
assert parse_authorization_header(
    'Digest username="a", realm="b", nonce="c", uri="/", response="d", '
    'qop=auth') is None
''', 'a digest header with qop but no nonce count', 'KeyError escapes')

B('c15a', 'C15', U,
  """        filename = normalize('NFKD', filename).encode('ascii', 'ignore')
        filename = filename.decode('ascii')
    for sep in os.path.sep, os.path.altsep:
        if sep:
            filename = filename.replace(sep, ' ')
""", """        filename = normalize('NFKD', filename)
    for sep in os.path.sep, os.path.altsep:
        if sep:
            filename = filename.replace(sep, ' ')
""", """
from verktyg.utils import secure_filename
assert secure_filename('a\u2028b') == 'ab', secure_filename('a\u2028b')
""", 'white space outside of ASCII', 'other characters become underscores')

B('c16a', 'C16', CK,
  """    if len(b) < 2:
        return b
    if b[:1] != b'"' or b[-1:] != b'"':
        return b
""", """    if len(b) < 3:
        return b
    if b[:1] != b'"' or b[-1:] != b'"':
        return b
""", """
from verktyg.http import parse_cookie
assert parse_cookie('a=""')['a'] == ''
""", 'an empty quoted value', 'the quotes become part of the value')

B('c19d', 'C19', CC,
  """        if start < 0:
                start += length
""".replace('        if', '            if', 1), """            if start < 0:
                start = max(0, start + length)
""".replace('max(0, start + length)', 'length + start - 1 + 1 or start'), """
from verktyg.http import Range
assert Range('bytes', [(-10, None)]).range_for_length(10) == (0, 10)
""", 'a suffix range of exactly the length', 'the range is refused')

B('c17a', 'C17', AU,
  """        if value is None:
            self.pop(name, None)
        else:
            self[name] = str(value)
""", """        if not value:
            self.pop(name, None)
        else:
            self[name] = str(value)
""", """
from verktyg.http import WWWAuthenticate
a = WWWAuthenticate('digest')
a.realm = ''
assert 'realm=""' in a.to_header(), a.to_header()
""", 'an empty realm', 'the realm is not sent')
