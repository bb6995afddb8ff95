"""Planted bugs, eighth batch: exponential patterns and others."""
SEEDS = []
LIMIT = '''
import multiprocessing as mp, time
def within(f, *a, seconds=20):
    p = mp.Process(target=f, args=a)
    p.start()
    p.join(seconds)
    alive = p.is_alive()
    if alive:
        p.kill()
        p.join()
    assert not alive, 'takes too long'
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': LIMIT + demo, 'needs': needs, 'breaks': breaks})


H = 'verktyg/http/basic.py'
K = 'verktyg/http/cookies.py'
A = 'verktyg/accept/_base.py'
T = 'verktyg/accept/content_type.py'
R = 'verktyg/routing.py'
B('g43a', 'C43', H, r'''_quoted_string_re = r'"[^"\\]*(?:\\.[^"\\]*)*"'
''', r'''_quoted_string_re = r'"(?:[^"\\]+|\\.)*"'
''', '''
from verktyg.http import parse_options_header
within(parse_options_header, 'text/html; a="' + 'x' * 60)
''', 'a long quoted parameter that is never closed', 'exponential time')
B('g43b', 'C43', K, r'''        "(?:[^\\\\"]|\\\\.)*" |
''', r'''        "(?:[^\\\\"]+|\\\\.)*" |
''', '''
from verktyg.http import parse_cookie
within(lambda: list(parse_cookie('a="' + 'x' * 60).items()))
''', 'a cookie value that is never closed', 'exponential time')
B('g43c', 'C43', T, '''        [a-zA-Z0-9]+
        (?:
            - [a-zA-Z0-9]+
        )*
''', '''        [a-zA-Z0-9]+
        (?:
            -? [a-zA-Z0-9]+
        )*
''', '''
from verktyg.accept.content_type import ContentTypeAccept
def f():
    try:
        ContentTypeAccept(['x' * 60])
    except Exception:
        pass
within(f)
''', 'a long content type without a slash', 'exponential time')
B('g43d', 'C43', R, r'''    regex = r'\d+\.\d+'
''', r'''    regex = r'(?:\d+)+\.\d+'
''', '''
from verktyg.routing import URLMap, Route
m = URLMap([Route('/<float:x>', endpoint='a')]).bind('example.org')
def f():
    try:
        m.match('/' + '1' * 60)
    except Exception:
        pass
within(f)
''', 'a path of many digits that does not fit', 'exponential time')
B('g43e', 'C43', R, r'''        r'[A-Fa-f0-9]{8}-[A-Fa-f0-9]{4}-'
        r'[A-Fa-f0-9]{4}-[A-Fa-f0-9]{4}-[A-Fa-f0-9]{12}'
''', r'''        r'(?:[A-Fa-f0-9]+-?)+[A-Fa-f0-9]'
''', '''
from verktyg.routing import URLMap, Route
m = URLMap([Route('/<uuid:x>/edit', endpoint='a')]).bind('example.org')
def f():
    try:
        m.match('/' + 'a' * 36 + '/x')
    except Exception:
        pass
within(f)
''', 'a path of 36 hex digits which fails later', 'exponential time')

D = 'verktyg/datastructures.py'
B('g44a', 'C44', D, "        rv = self._hash_cache = hash(frozenset(self._iter_hashitems()))\n",
  "        rv = self._hash_cache = hash(tuple(self._iter_hashitems()))\n", """
from verktyg.datastructures import ImmutableDict
a, b = ImmutableDict([('a', 1), ('b', 2)]), ImmutableDict([('b', 2), ('a', 1)])
assert a == b and hash(a) == hash(b)
""", 'equal dictionaries filled in another order', 'different hashes')
B('g44b', 'C44', D, """    def _iter_hashitems(self):
        return self.items(multi=True)
""", """    def _iter_hashitems(self):
        return enumerate(self.items(multi=True))
""", """
from verktyg.datastructures import ImmutableMultiDict
a = ImmutableMultiDict([('a', 1), ('b', 2)])
b = ImmutableMultiDict([('b', 2), ('a', 1)])
assert a == b and hash(a) == hash(b)
""", 'equal dictionaries filled in another order', 'different hashes')
B('g44d', 'C44', D, """    def _iter_hashitems(self):
        return self.items()
""", """    def _iter_hashitems(self):
        return map(id, self.values())
""", """
from verktyg.datastructures import ImmutableDict
x = ''.join(['a', 'bc', '!'])
y = ''.join(['ab', 'c', '!'])
assert hash(ImmutableDict(k=x)) == hash(ImmutableDict(k=y))
""", 'equal values that are different objects', 'different hashes')
R = 'verktyg/routing.py'
B('g27x', 'C27', R, """            if arguments.issubset(route.arguments):
                return True
        return False
""", """            return arguments.issubset(route.arguments)
        return False
""", """
from verktyg.routing import URLMap, Route
m = URLMap([Route('/<a>', endpoint='e'), Route('/x/<b>', endpoint='e')])
assert m.is_endpoint_expecting('e', 'a')
assert m.is_endpoint_expecting('e', 'b')
""", 'an endpoint whose second route takes the argument', 'wrong answer')
H = 'verktyg/http/basic.py'
B('g06y', 'C06', H, """        if preserve_casing:
            return set(self._headers)
        return set(self._set)
""", """        if preserve_casing:
            return set(self._headers)
        return self._set
""", """
from verktyg.http import HeaderSet
h = HeaderSet(['Foo'])
h.as_set().add('bar')
assert 'bar' not in h
""", 'the plain set being changed', 'the header set changes with it')
W = 'verktyg/wsgi.py'
B('g03x', 'C03', W, """    path = wsgi_get_bytes(environ.get('SCRIPT_NAME', ''))
    if charset is None:
        return path
""", """    path = wsgi_get_bytes(environ.get('SCRIPT_NAME', ''))
    if not charset or errors == 'strict':
        return path
""", """
from verktyg.wsgi import get_script_name
assert get_script_name({'SCRIPT_NAME': '/a'}, errors='strict') == '/a'
""", 'strict decoding asked for', 'bytes instead of text')
