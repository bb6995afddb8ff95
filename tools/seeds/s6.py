"""Planted bugs, sixth batch: requests and responses."""
SEEDS = []
TRY = '''
def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': TRY + demo, 'needs': needs, 'breaks': breaks})


Q = 'verktyg/requests.py'
P = 'verktyg/responses.py'
U = 'verktyg/utils.py'
R = 'verktyg/routing.py'
ENV = '''
from verktyg.requests import Request
from verktyg.responses import Response
from verktyg.test import create_environ
def req(cls=Request, **kw):
    e = create_environ()
    e.update(kw)
    return cls(e)
'''

B('f03a', 'C03', Q, '''        return self.parameter_storage_class(parse_qsl(
            qs, errors=self.encoding_errors,
        ))
''', '''        return self.parameter_storage_class(parse_qsl(qs))
''', ENV + '''
class Strict(Request):
    encoding_errors = 'strict'
assert raises(UnicodeDecodeError, lambda: req(Strict, QUERY_STRING='a=%ff').args)
''', 'a request class with strict decoding and invalid escapes',
  'silently replaced')
B('f03b', 'C03', Q, '''        return '/' + raw_path.lstrip('/')
''', '''        return raw_path if raw_path[:1] == '/' else '/' + raw_path
''', ENV + '''
assert req(PATH_INFO='//a').path == '/a'
''', 'a path with several leading slashes', 'network path')
B('f03c', 'C03', Q, '''        requested_with = self.environ.get('HTTP_X_REQUESTED_WITH', '').lower()
        return requested_with.lower() == 'xmlhttprequest'
''', '''        requested_with = self.environ.get('HTTP_X_REQUESTED_WITH', '')
        return requested_with in ('XMLHttpRequest', 'xmlhttprequest')
''', ENV + '''
assert req(HTTP_X_REQUESTED_WITH='XmlHttpRequest').is_xhr
''', 'another capitalisation', 'flag not set')
B('f03d', 'C03', Q, '''        if 'HTTP_X_FORWARDED_FOR' in self.environ:
            addr = self.environ['HTTP_X_FORWARDED_FOR'].split(',')
            return self.list_storage_class([x.strip() for x in addr])
''', '''        if 'HTTP_X_FORWARDED_FOR' in self.environ:
            addr = self.environ['HTTP_X_FORWARDED_FOR'].split(', ')
            return self.list_storage_class(addr)
''', ENV + '''
assert req(HTTP_X_FORWARDED_FOR='1.1.1.1,2.2.2.2').access_route == ['1.1.1.1', '2.2.2.2']
''', 'no blank after the comma', 'addresses not separated')
B('f03e', 'C03', Q, '''        return self._parsed_content_type[0].lower()
''', '''        return self._parsed_content_type[0]
''', ENV + '''
assert req(CONTENT_TYPE='Text/HTML; charset=x').mimetype == 'text/html'
''', 'upper case in the content type', 'not normalised')
B('f03f', 'C03', Q, '''        return self.environ.get('REQUEST_METHOD', 'GET').upper()
''', '''        self.environ['REQUEST_METHOD'] = self.environ.get(
            'REQUEST_METHOD', 'GET').upper()
        return self.environ['REQUEST_METHOD']
''', ENV + '''
r = req(REQUEST_METHOD='get')
r.method
assert r.environ['REQUEST_METHOD'] == 'get'
''', 'a method in lower case', 'reading changes the environment')
B('f03g', 'C03', Q, '''        return self.environ.get('HTTP_REFERER')
''', '''        return self.environ.get('HTTP_REFERER') or \\
            self.environ.get('HTTP_REFERRER')
''', ENV + '''
assert req(HTTP_REFERRER='x').referrer is None
''', 'a header of the other spelling', 'wrong variable')
B('f12a', 'C12', Q, '''        files = self.__dict__.get('files')
        for key, value in iter_multi_items(files or ()):
            value.close()
        for func in self._on_close:
            func()
''', '''        files = self.__dict__.get('files')
        for key, value in iter_multi_items(files or ()):
            value.close()
        else:
            return
        for func in self._on_close:
            func()
''', 'pass', '', '')
SEEDS.pop()
B('f07a', 'C07', P, '''                if not header_set and name in self.headers:
                    del self.headers[name]
                elif header_set:
                    self.headers[name] = header_set.to_header()
''', '''                if header_set:
                    self.headers[name] = header_set.to_header()
''', ENV + '''
r = Response()
r.vary.add('x')
r.vary.clear()
assert 'vary' not in r.headers
''', 'emptying a view', 'the header stays')
B('f07b', 'C07', P, '''            if not cache_control and 'cache-control' in self.headers:
                del self.headers['cache-control']
            elif cache_control:
''', '''            if not cache_control:
                self.headers.clear()
            elif cache_control:
''', 'pass', '', '')
SEEDS.pop()
B('f07c', 'C07', P, '''            self.headers['Content-Type'] = dump_options_header(
                self.mimetype, d
            )
''', '''            self.headers['Content-Type'] = dump_options_header(
                mimetype, d
            )
''', 'pass', '', '')
SEEDS.pop()
B('f07d', 'C07', P, '''            else:
                self.headers['Content-Range'] = rng.to_header()
''', '''            elif rng.length is not None:
                self.headers['Content-Range'] = rng.to_header()
''', ENV + '''
r = Response()
r.content_range.set(0, 5, None)
assert r.headers.get('content-range') == 'bytes 0-4/*', r.headers
''', 'a range of unknown length', 'the header is not written')
B('f07e', 'C07', P, '''            elif isinstance(value, str):
                self.headers[name] = value
            else:
                self.headers[name] = dump_header(value)
''', '''            else:
                self.headers[name] = dump_header(
                    value.split(', ') if isinstance(value, str) else value)
''', ENV + '''
r = Response()
r.allow = 'GET,POST'
assert r.headers['allow'] == 'GET,POST', r.headers['allow']
''', 'a text that is not a single token', 'the text is quoted')
B('f07f', 'C07', P, '''        return unquote_etag(self.headers.get('ETag'))
''', '''        return unquote_etag(self.headers.get('ETag', '').lstrip('wW/'))
''', ENV + '''
r = Response()
r.set_etag('x', weak=True)
assert r.get_etag() == ('x', True)
''', 'a weak tag', 'read back as strong')
B('f07g', 'C30', P, '''        if value is None:
            if 'retry-after' in self.headers:
                del self.headers['retry-after']
            return
        elif''', '''        if not value:
            if 'retry-after' in self.headers:
                del self.headers['retry-after']
            return
        elif''', ENV + '''
r = Response()
r.retry_after = 0
assert r.headers.get('retry-after') == '0'
''', 'a delay of zero', 'the header is removed')
B('f13a', 'C18', P, '''            if 'date' not in self.headers:
                self.headers['Date'] = http_date()
''', '''            if 'Date' not in self.headers.keys():
                self.headers['Date'] = http_date()
''', ENV + '''
r = Response(headers=[('DATE', 'x')])
r.make_conditional(create_environ())
assert r.headers.getlist('date') == ['x'], r.headers
''', 'a date header in other capitals', 'replaced by the current date')
B('f13b', 'C18', P, '''        if environ['REQUEST_METHOD'] in ('GET', 'HEAD'):
''', '''        if environ['REQUEST_METHOD'] not in ('POST', 'PUT', 'DELETE'):
''', ENV + '''
e = create_environ(method='PATCH', headers={'If-None-Match': '"x"'})
r = Response('a')
r.set_etag('x')
r.make_conditional(e)
assert r.status_code == 200
assert 'date' not in r.headers
''', 'PATCH', 'conditional handling for an unsafe method')
B('f10a', 'C08', P, '''            environ['REQUEST_METHOD'] == 'HEAD' or
            100 <= status < 200 or status in (204, 304)
''', '''            environ['REQUEST_METHOD'] == 'HEAD' or
            100 <= status <= 204 or status == 304
''', 'pass', '', '')
SEEDS.pop()
B('f27a', 'C27', R, '''        else:
            values = {}
        rv = None
''', '''        elif values is None:
            values = {}
        rv = None
''', 'pass', '', '')
SEEDS.pop()
