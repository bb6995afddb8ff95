"""Planted bugs, fifth batch: routing, urls, negotiation, dispatch, client."""
SEEDS = []
TRY = '''
def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': TRY + demo, 'needs': needs, 'breaks': breaks})


R = 'verktyg/routing.py'
U = 'verktyg/urls.py'
A = 'verktyg/accept/__init__.py'
AB = 'verktyg/accept/_base.py'
AL = 'verktyg/accept/language.py'
AC = 'verktyg/accept/content_type.py'
DI = 'verktyg/dispatch.py'
T = 'verktyg/test.py'
MAP = '''
from verktyg.routing import *
from verktyg.routing import RequestRedirect, BuildError
from verktyg.exceptions import NotFound
def where(f, *a, **k):
    try:
        f(*a, **k)
    except RequestRedirect as e:
        return e.new_url
'''

B('e25b', 'C25', R, '''                    try:
                        value = self._converters[name].to_python(value)
                    except ValidationError:
                        return
''', '''                    try:
                        value = self._converters[name].to_python(value)
                    except ValidationError:
                        continue
''', MAP + '''
m = URLMap([Route('/<int(max=5):a>', endpoint='x')])
assert raises(NotFound, m.bind('h').match, '/7')
''', 'a value refused by its converter', 'matches without the variable')
B('e26a', 'C26', R, '''        if (self.fixed_digits and len(value) != self.fixed_digits):
''', '''        if (self.fixed_digits and len(value) < self.fixed_digits):
''', MAP + '''
m = URLMap([Route('/<int(fixed_digits=2):a>', endpoint='x')])
assert raises(NotFound, m.bind('h').match, '/123')
''', 'a longer number', 'accepted')
B('e26b', 'C26', R, '''            (self.min is not None and value < self.min) or
''', '''            (self.min and value < self.min) or
''', MAP + '''
from verktyg.routing import NumberConverter, IntegerConverter
class Neg(IntegerConverter):
    regex = r'-?\\d+'
m = URLMap([Route('/<neg(min=0):a>', endpoint='x')], converters={'neg': Neg})
assert raises(NotFound, m.bind('h').match, '/-1')
''', 'a minimum of zero and a converter with signs', 'negative accepted')
B('e26c', 'C26', R, "'|'.join([re.escape(x) for x in items])",
  "'|'.join([re.escape(x) if ' ' in x else x for x in items])", MAP + '''
m = URLMap([Route('/<any("a.b"):a>', endpoint='x')])
assert raises(NotFound, m.bind('h').match, '/axb')
assert m.bind('h').match('/a.b') == ('x', {'a': 'a.b'})
''', 'a choice with a special character', 'other texts accepted')
B('e26d', 'C26', R, '''            value = ('%%0%sd' % self.fixed_digits) % value
''', '''            value = str(value).rjust(self.fixed_digits)
''', MAP + '''
m = URLMap([Route('/<int(fixed_digits=3):a>', endpoint='x')])
assert m.bind('h').build('x', {'a': 7}) == '/007'
''', 'a fixed width', 'padded with blanks')
B('e27a', 'C27', R, '''            values = dict((k, v) for k, v in valueiter if v is not None)
''', '''            values = dict((k, v) for k, v in valueiter if v)
''', MAP + '''
m = URLMap([Route('/<int:a>', endpoint='x')])
assert m.bind('h').build('x', {'a': 0}) == '/0'
''', 'a falsy value', 'BuildError')
B('e27b', 'C27', R, '''                if key in values and value != values[key]:
                    return False
''', '''                if values.get(key) and value != values[key]:
                    return False
''', MAP + '''
m = URLMap([Route('/a', endpoint='x', defaults={'p': 1}),
            Route('/a/<int:p>', endpoint='x')], redirect_defaults=False)
assert m.bind('h').build('x', {'p': 0}) == '/a/0'
''', 'a falsy value that differs from the default', 'wrong URL')
B('e28a', 'C28', R, '''            self.build_only, self.endpoint, self.strict_slashes,
            self.redirect_to, self.alias, self.host,
        )
''', '''            self.build_only, self.endpoint, self.strict_slashes,
            self.redirect_to, self.alias and not self.defaults, self.host,
        )
''', MAP + '''
m = URLMap([Submount('/s', [
    Route('/a', endpoint='x', defaults={'p': 1}, alias=True),
    Route('/b/<int:p>', endpoint='x')])])
assert m.bind('h').build('x', {'p': 1}) == '/s/b/1', m.bind('h').build('x', {'p': 1})
''', 'an alias with defaults in a submount', 'no longer an alias')
B('e28b', 'C28', R, '''                    new_defaults = {}
                    for key, value in route.defaults.items():
                        if isinstance(value, str):
                            value = value.format(**self.context)
                        new_defaults[key] = value
''', '''                    new_defaults = route.defaults
                    for key, value in route.defaults.items():
                        if isinstance(value, str):
                            new_defaults[key] = value.format(**self.context)
''', MAP + '''
t = RouteTemplate([Route('/${n}'.replace('$', ''), endpoint='x', defaults={'d': '{n}'})])
m = URLMap([t(n='a'), t(n='b')])
assert m.bind('h').match('/b') == ('x', {'d': 'b'}), m.bind('h').match('/b')
''', 'a template used twice', 'the first context stays')
B('e29b', 'C29', R, '''            url += '?' + self.encode_query_args(query_args)
        assert''', '''            url += '?' + urlquote(
                self.encode_query_args(query_args), safe='=&')
        assert''', MAP + '''
m = URLMap([Route('/a/<x>', endpoint='x'), Route('/b/<x>', endpoint='x', alias=True)])
u = where(m.bind('h').match, '/b/1', query_args='q=%20')
assert u == 'http://h/a/1?q=%20', u
''', 'an alias with an escaped query', 'the query is escaped twice')
B('e29c', 'C29', R, '''        if not isinstance(query_args, str):
            query_args = urlencode(
''', '''        if isinstance(query_args, str):
            query_args = query_args.lstrip('?')
        else:
            query_args = urlencode(
''', MAP + '''
m = URLMap([Route('/a/', endpoint='x')])
u = where(m.bind('h').match, '/a', query_args='?q')
assert u == 'http://h/a/??q', u
''', 'a query that begins with a question mark', 'it is dropped')
B('e29d', 'C29', R, '''                raise RequestRedirect(str(urljoin('%s://%s%s%s' % (
                    self.url_scheme,
                    self.subdomain and self.subdomain + '.' or '',
''', '''                raise RequestRedirect(str(urljoin('%s://%s%s%s' % (
                    self.url_scheme,
                    route.subdomain and route.subdomain + '.' or '',
''', MAP + '''
m = URLMap([Route('/a', subdomain='<s>', redirect_to='b')])
u = where(m.bind('h', subdomain='x').match, '/a')
assert u == 'http://x.h/b', u
''', 'a redirect target on a route with a variable subdomain', 'wrong host')
B('e38b', 'C38', R, '''        if '>' in remaining or '<' in remaining:
''', '''        if '<' in remaining:
''', MAP + '''
assert raises(ValueError, URLMap, [Route('/a>', endpoint='x')])
''', 'a stray closing bracket', 'accepted')
B('e38c', 'C38', R, '''        used_names.add(variable)
''', '''        if converter != 'default':
            used_names.add(variable)
''', MAP + '''
assert raises(ValueError, URLMap, [Route('/<a>/<a>', endpoint='x')])
try:
    URLMap([Route('/<a>/<a>', endpoint='x')])
except ValueError as e:
    assert 'used twice' in str(e), e
m = URLMap()
try:
    m.add_routes(Route('/<a>/<a>', endpoint='x', build_only=True))
except ValueError:
    pass
else:
    assert 0
''', 'one variable twice without a converter', 'not refused')
B('e37b', 'C37', U, '''    if components.port:
        if not 0 <= int(components.port) <= 65535:
            raise ValueError('Invalid port')
        netloc = '%s:%s' % (netloc, components.port)
''', '''    if components.port and components.port not in (80, 443):
        netloc = '%s:%s' % (netloc, components.port)
''', '''
from verktyg.urls import iri_to_uri
assert iri_to_uri('https://h:80/') == 'https://h:80/'
''', 'a port that is not the default of the scheme', 'port lost')
B('e37c', 'C37', U, '''        iri.query, safe='%&[]:;$*()+,!?*/='
''', '''        iri.query, safe='%&[]:;$*(),!?*/='
''', '''
from verktyg.urls import iri_to_uri
assert iri_to_uri('http://h/?a=b+c') == 'http://h/?a=b+c'
''', 'a plus sign in a query', 'a blank becomes a plus')
B('e37d', 'C37', U, '''    if components.username or components.password:
        if components.username:
            username = urlquote(
                components.username, safe='/:%'
            )
''', '''    if components.username or components.password:
        if components.username:
            username = urlquote(
                components.username, safe='/:'
            )
''', '''
from verktyg.urls import iri_to_uri
assert iri_to_uri('http://a%40b:c@h/') == 'http://a%40b:c@h/'
''', 'an escape in a user name', 'escaped twice')
B('e21a', 'C21', AB, '''        if best_match is None or best_match._q == 0:
            raise NotAcceptable()
''', '''        if best_match is None or best_match.quality == 0:
            raise NotAcceptable()
''', '''
from verktyg.accept.content_type import *
v = parse_content_type_header('text/html', qs=0)
assert 'x' and v.acceptability(parse_accept_header('*/*')).quality == 0
''', 'a value of source quality zero', 'refused')
B('e21c', 'C21', AB, '''        self.q = max(min(float(q), 1.0), 0.0)
''', '''        self.q = abs(min(float(q), 1.0))
''', '''
from verktyg.accept.charset import *
v = parse_charset_header('utf-8')
a = parse_accept_charset_header('utf-8;q=-0.5')
from verktyg.exceptions import NotAcceptable
assert raises(NotAcceptable, v.acceptability, a)
''', 'a negative quality', 'becomes positive')
B('e22a', 'C22', A, '''        if _gt(
                other._language_acceptability,
                self._language_acceptability):
            return False
''', '', '''
from verktyg.accept import Representation, select_representation
a = Representation(language='en', charset='utf-8')
b = Representation(language='fr', charset='latin-1')
r = select_representation([a, b], accept_language='en, fr;q=0.5',
                          accept_charset='utf-8;q=0.5, latin-1')
assert r is a
''', 'language and charset that prefer different representations',
  'the charset overrules the language')
B('e22c', 'C22', A, '''                accept_charset=accept_charset
            )
        except NotAcceptable:
            continue
''', '''                accept_charset=accept_charset
            )
        except NotAcceptable:
            if best_representation is None:
                continue
            break
''', '''
from verktyg.accept import Representation, select_representation
a = Representation(content_type='text/plain')
b = Representation(content_type='text/html')
c = Representation(content_type='text/css')
assert select_representation([a, b, c], accept='text/plain;q=.1, text/css') is c
''', 'an unacceptable representation between two others', 'the last is ignored')
B('e23a', 'C23', DI, '''            if method == 'HEAD' and 'GET' in with_name:
                with_method = with_name['GET']
''', '''            if method == 'HEAD' and len(with_name) == 1:
                with_method, = with_name.values()
''', '''
from verktyg.dispatch import Dispatcher, Binding
from verktyg.exceptions import MethodNotAllowed
d = Dispatcher([Binding('a', None), Binding('a', None, method='POST')])
assert d.lookup('a', 'HEAD').method == 'GET'
d = Dispatcher([Binding('a', None, method='POST')])
assert raises(MethodNotAllowed, d.lookup, 'a', 'HEAD')
''', 'several methods, or one that is not GET', 'HEAD reaches POST')
B('e23b', 'C23', DI, '''                with_method.append(view)

                self._views.append(view)
''', '''                with_method.append(view)
                if view.name not in [v.name for v in self._views]:
                    self._views.append(view)
''', '''
from verktyg.dispatch import Dispatcher, Binding
d = Dispatcher([Binding('a', None), Binding('a', None, method='POST')])
e = Dispatcher([d])
assert e.lookup('a', 'POST').method == 'POST'
''', 'a nested dispatcher with two methods', 'the second binding is lost')
B('e34a', 'C34', T, '''                    new_stream.write(stream.getvalue())
                    new_stream.write(string)
''', '''                    new_stream.write(string)
''', '''
from io import BytesIO
from verktyg.test import EnvironBuilder
b = EnvironBuilder(method='POST', data={'a': (BytesIO(b'x' * 600000), 'f')})
e = b.get_environ()
assert len(e['wsgi.input'].read()) == int(e['CONTENT_LENGTH']) > 600000
''', 'a body over the threshold', 'the head of the body is lost')
B('e34b', 'C34', T, '''            input_stream.seek(start_pos)
            content_length = end_pos - start_pos
''', '''            input_stream.seek(start_pos)
            content_length = end_pos
''', '''
from io import BytesIO
from verktyg.test import EnvironBuilder
s = BytesIO(b'abcdef')
s.read(2)
e = EnvironBuilder(input_stream=s).get_environ()
assert e['CONTENT_LENGTH'] == '4'
''', 'a stream that was partly read', 'content length too large')
B('e34c', 'C34', T, '''        if status_code == 307:
            method = environ['REQUEST_METHOD']
        else:
            method = 'GET'
''', '''        if status_code in (305, 307):
            method = environ['REQUEST_METHOD']
        elif environ['REQUEST_METHOD'] == 'POST' and status_code == 301:
            method = 'POST'
        else:
            method = 'GET'
''', '''
from verktyg.test import Client
seen = []
def app(environ, start):
    seen.append(environ['REQUEST_METHOD'])
    if environ['PATH_INFO'] == '/a':
        start('301 X', [('Location', 'http://localhost/b')])
    else:
        start('200 OK', [])
    return [b'']
Client(app).post('/a', follow_redirects=True)
assert seen == ['POST', 'GET'], seen
''', 'a POST answered with 301', 'repeated as POST')
B('e34d', 'C34', T, '''            if new_redirect_entry in redirect_chain:
''', '''            if redirect_chain and new_redirect_entry == redirect_chain[-1]:
''', '''
from verktyg.test import Client, ClientRedirectError
n = []
def app(environ, start):
    n.append(1)
    if len(n) > 50:
        raise SystemError('endless')
    to = '/b' if environ['PATH_INFO'] == '/a' else '/a'
    start('302 X', [('Location', 'http://localhost' + to)])
    return [b'']
assert raises(ClientRedirectError, Client(app).get, '/a', follow_redirects=True)
''', 'a loop over two addresses', 'not reported')

