"""Planted bugs, seventh batch: dates, uploads, accept headers, applications."""
SEEDS = []
TRY = '''
def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': TRY + demo, 'needs': needs, 'breaks': breaks})


H = 'verktyg/http/basic.py'
P = 'verktyg/responses.py'
A = 'verktyg/accept/_base.py'
W = 'verktyg/application.py'
D = '''
from datetime import datetime, timedelta, timezone
from verktyg.http import http_date, parse_date, cookie_date
'''
B('g39a', 'C39', H, "        d = d.utctimetuple()\n", "        d = d.timetuple()\n", D + '''
t = datetime(2020, 1, 1, 1, tzinfo=timezone(timedelta(hours=2)))
assert http_date(t) == 'Tue, 31 Dec 2019 23:00:00 GMT'
''', 'a date object in another time zone', 'local fields called GMT')
B('g39b', 'C39', H, "timedelta(seconds=t[-1] or 0)",
  "timedelta(hours=(t[-1] or 0) // 3600)", D + '''
assert parse_date('Wed, 01 Jan 2020 12:00:00 +0530') == datetime(
    2020, 1, 1, 6, 30)
''', 'an offset of half an hour', 'minutes of the offset lost')
B('g39c', 'C39', H, "'Aug', 'Sep',", "'Aug', 'Sept',", D + '''
assert http_date(datetime(2020, 9, 2)) == 'Wed, 02 Sep 2020 00:00:00 GMT'
''', 'a date in September', 'another name of the month')
B('g39d', 'C39', H, "            except (ValueError, OverflowError):\n                return None\n",
  "            except ValueError:\n                return None\n", D + '''
assert parse_date('Fri, 31 Dec 9999 23:00:00 -0800') is None
''', 'a date at the end of the calendar with an offset',
  'OverflowError for a request header')
B('g39e', 'C39', P, "            return datetime.utcnow() + timedelta(seconds=int(value))\n",
  "            return datetime.now() + timedelta(seconds=int(value))\n", '''
import os, time
os.environ['TZ'] = 'JST-9'
time.tzset()
from datetime import datetime, timedelta
from verktyg.responses import Response
r = Response()
r.retry_after = 60
d = r.retry_after - datetime.utcnow()
assert timedelta(0) < d < timedelta(seconds=61), d
''', 'a machine in another time zone', 'hours off')
F = '''
import io, os, tempfile
from verktyg.http import FileStorage
'''
B('g40a', 'C40', H, '''            if filename and filename[0] == '<' and filename[-1] == '>':
''', '''            if filename and (filename[0] == '<' or filename[-1] == '>'):
''', F + '''
s = io.BytesIO(b'x')
s.name = 'a>'
assert FileStorage(s).filename == 'a>'
''', 'a file whose name ends in a bracket', 'name dropped')
B('g40b', 'C40', H, '''        try:
            copyfileobj(self.stream, dst, buffer_size)
        finally:
            if close_dst:
                dst.close()
''', '''        copyfileobj(self.stream, dst, buffer_size)
        if close_dst:
            dst.close()
''', F + '''
import builtins
class Bad(io.BytesIO):
    def read(self, *a):
        raise OSError('gone')
opened = []
real = builtins.open
def rec(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f
with tempfile.TemporaryDirectory() as d:
    builtins.open = rec
    try:
        assert raises(OSError, FileStorage(Bad(b'x')).save,
                      os.path.join(d, 'f'))
    finally:
        builtins.open = real
    assert opened and all(f.closed for f in opened)
''', 'an upload that breaks while it is saved', 'file left open')
B('g40c', 'C40', H, '''                    sys.getfilesystemencoding(), 'replace'
''', '''                    sys.getfilesystemencoding()
''', F + '''
s = io.BytesIO(b'x')
s.name = b'a\\xff'
FileStorage(s)
''', 'a file name that is not text', 'UnicodeDecodeError')
B('g40d', 'C40', H, '''        if content_length is not None:
            headers['Content-Length']''', '''        if content_length:
            headers['Content-Length']''', F + '''
assert FileStorage(io.BytesIO(), content_length=0).headers.get(
    'content-length') == '0'
from verktyg.http import Headers
h = Headers([('Content-Length', '7')])
assert FileStorage(io.BytesIO(), content_length=0,
                   headers=h).content_length == 0
''', 'an empty file', 'length lost')
C = '''
from verktyg.accept.content_type import *
from verktyg.accept import content_type, language, charset
'''
B('g41a', 'C41', A, "            header += ';q=%s' % self.q\n",
  "            header += ';q=%.1f' % self.q\n", C + '''
a = content_type.parse_accept_header('text/html;q=0.25')
b = content_type.parse_accept_header(a.to_header())
assert [o.q for o in b] == [0.25]
''', 'a quality of two digits', 'rounded')
B('g41b', 'C41', A, '''        except NotAcceptable as e:
            raise KeyError() from e
''', '''        except NotAcceptable:
            return None
''', C + '''
a = content_type.parse_accept_header('text/html;q=0')
assert raises(KeyError, lambda: a[content_type.ContentType('text/html')])
''', 'indexing with a refused value', 'None instead of KeyError')
B('g41c', 'C41', A, "        return ','.join(option.to_header() for option in self)\n",
  "        return ','.join(\n            option.to_header() for option in self if option.q\n        )\n", C + '''
a = content_type.parse_accept_header('text/html;q=0,*/*')
assert len(list(content_type.parse_accept_header(str(a)))) == 2
''', 'a refused range', 'refusal lost when writing')
B('g41d', 'C41', A, "        self.q = max(min(float(q), 1.0), 0.0)\n",
  "        self.q = min(float(q), 1.0)\n", C + '''
a = content_type.parse_accept_header('text/html;q=-1')
assert [o.q for o in a] == [0]
''', 'a negative quality', 'accepted as it is')
Z = '''
from verktyg.application import ApplicationBuilder
from verktyg.routing import Route
from verktyg.responses import Response
from verktyg.test import Client
def build(b):
    return Client(b(), Response)
'''
B('g42a', 'C42', W, "            if mixin not in self._application_bases:\n                self._application_bases.append(mixin)\n",
  "            self._application_bases.append(mixin)\n", Z + '''
class M: mark = 1
b = ApplicationBuilder()
b.add_application_mixins(M)
b.add_application_mixins(M)
b()
''', 'the same mixin added twice', 'TypeError on building')
B('g42b', 'C42', W, "        self.config = ImmutableDict(config)\n",
  "        self.config = config\n", Z + '''
b = ApplicationBuilder()
a = b()
b.config['debug'] = True
assert 'debug' not in a.config
''', 'the configuration changed after building', 'shared configuration')
B('g42c', 'C42', W, '''            self.add_exception_handler(exception_class, handler, **kwargs)
            return handler
''', '''            return self.add_exception_handler(
                exception_class, handler, **kwargs
            )
''', Z + '''
b = ApplicationBuilder()
@b.exception_handler(KeyError)
def f(*a): pass
assert f is not None
''', 'using the decorated function', 'decorator returns None')
B('g42d', 'C42', W, '''            if handler is None:
                raise
''', '''            if handler is None:
                raise exc_type(*exc_value.args)
''', Z + '''
class E(Exception):
    extra = None
b = ApplicationBuilder()
err = E('x')
err.extra = 1
@b.expose('i', route='/')
def i(app, req): raise err
try:
    build(b).get('/')
except E as e:
    assert e is err
else:
    assert 0
''', 'an unhandled error with more state than its arguments',
  'a copy is raised')
B('g42e', 'C42', W, "            script_name=root_components.path,\n",
  "            script_name='/',\n", Z + '''
b = ApplicationBuilder()
b.add_routes(Route('/a', endpoint='a'))
assert b('http://h.example/app').url_for('a') == '/app/a'
''', 'an application below a path', 'URLs outside of the application')
