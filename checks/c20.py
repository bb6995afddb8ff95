"""C20: nothing a client sends makes header parsing fail."""
from .lib import *
from .c17 import want

RULE = ('With arbitrary text in a header, every header parser and every '
        'attribute of the request reading it returns a value on every path: '
        'no operation on the text may raise, and the loops of the parsers '
        'end on a catalogue of awkward texts.')
MIN_SCENARIOS = 40
H = 'verktyg.http.'
PARSERS = ['parse_cookie', 'parse_authorization_header',
           'parse_www_authenticate_header', 'parse_options_header',
           'parse_list_header', 'parse_dict_header', 'parse_set_header',
           'parse_cache_control_header', 'parse_etags', 'parse_date',
           'parse_range_header', 'parse_if_range_header',
           'parse_content_range_header', 'unquote_header_value',
           'unquote_etag']
ATTRS = {
    'HTTP_COOKIE': ['cookies'],
    'HTTP_CACHE_CONTROL': ['cache_control'],
    'HTTP_IF_MATCH': ['if_match'],
    'HTTP_IF_NONE_MATCH': ['if_none_match'],
    'HTTP_IF_MODIFIED_SINCE': ['if_modified_since'],
    'HTTP_IF_UNMODIFIED_SINCE': ['if_unmodified_since'],
    'HTTP_IF_RANGE': ['if_range'],
    'HTTP_RANGE': ['range'],
    'HTTP_AUTHORIZATION': ['authorization'],
    'CONTENT_TYPE': ['content_type', 'mimetype', 'mimetype_params'],
    'CONTENT_LENGTH': ['content_length'],
    'HTTP_CONTENT_ENCODING': ['content_encoding'],
    'HTTP_CONTENT_MD5': ['content_md5'],
    'HTTP_REFERER': ['referrer'],
    'HTTP_DATE': ['date'],
    'HTTP_MAX_FORWARDS': ['max_forwards'],
    'HTTP_PRAGMA': ['pragma'],
    'HTTP_X_FORWARDED_FOR': ['access_route'],
    'HTTP_X_REQUESTED_WITH': ['is_xhr'],
    'QUERY_STRING': ['args', 'query_string', 'full_path'],
    'PATH_INFO': ['path', 'full_path'],
    'SCRIPT_NAME': ['script_root'],
}
ODD = ['', ' ', '\t', '=', ';', ',', '"', '""', '"\\', '\\', '"a', 'a"',
       ';;', '==', ',,', 'a\n', '\n', '"\n"', 'a=b=c', 'a="b', 'a="b\\"',
       '-', '--', '*', 'w/', 'W/"', 'bytes=', 'bytes=-', 'bytes=1-2-3',
       'Basic', 'Basic ', 'Basic x', 'Digest', 'Digest a', '\xe9', '\xff\xfe',
       'a=\xe9', '\x85', '\xa0', ';\xa0=', '= ;', 'a;=', 'a; b; c=',
       'a="\\400"', 'a="\\777"', 'a="\\08', 'a="\\089"', 'a="\\',
       'a ; "', '0', '1' * 5000, '\xb2']


def text(it):
    v = sym('text', 'str')
    # what a server hands over is latin-1 text
    it.facts.truth[Term('re', ('fullmatch', Tup((r'[\x00-\xff]*', 0)), v, 0),
                        'bool')] = True
    return v


def environ(it, key, v):
    return it.mk_dict({'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http',
                       'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
                       'SCRIPT_NAME': '', 'PATH_INFO': '/',
                       'QUERY_STRING': '', 'REMOTE_ADDR': 'x', key: v})


def scenarios(prog):
    out = []
    g = prog.get

    for n in PARSERS:
        def f(it, n=n):
            it.raise_ops = True
            it.WHILE_MAX = 1 if 'cookie' in n else 2
            want(it, lambda: call(it, g(H + n), text(it)), n)
            oblige(it)
        out.append(Scen('parser.' + n, f, n, loop_k=1,
                        max_time=20 if 'cookie' in n else 60))

        for i, o in enumerate(ODD):
            def f_o(it, n=n, o=o):
                oblige(it)
                try:
                    r = want(it, lambda: call(it, g(H + n), o),
                             '%s(%r)' % (n, o))
                    if n in ('parse_cookie', 'parse_etags'):
                        list(it.iterate(r))
                except Pruned as e:
                    if 'no progress' in str(e):
                        fail(it, '%s(%r) never ends' % (n, o))
                    raise
            out.append(Scen('odd.%s.%d' % (n, i), f_o, n))

    # a digest with every subset of its parts, in any order of importance
    import itertools
    parts = ['username', 'realm', 'nonce', 'uri', 'response', 'qop', 'nc',
             'cnonce', 'opaque']
    lacking = [()] + [(p,) for p in parts] + [
        c for c in itertools.combinations(parts, 2)] + [
            ('qop', 'nc', 'cnonce'), tuple(parts[1:]), tuple(parts[:5])]
    for miss in lacking:
        def f_digest(it, miss=miss):
            it.raise_ops = True
            vals = {p: word(it, p, '[A-Za-z0-9]') for p in parts
                    if p not in miss}
            for style in ('="%s"', '=%s', '=', ''):
                t = 'Digest '
                for p, v in vals.items():
                    pre, _, post = style.partition('%s')
                    t = cat(it, t, '' if t == 'Digest ' else ', ', p, pre,
                            v if '%s' in style else '', post)
                oblige(it)
                want(it, lambda: call(it, g(H + 'parse_authorization_header'),
                                      t), 'parse_authorization_header')
        out.append(Scen('digest.%s' % ('-'.join(miss) or 'full'), f_digest,
                        'parse_authorization_header', max_time=60))

    for key, attrs in ATTRS.items():
        for a in attrs:
            for cls in ('verktyg.requests.Request',):
                def f(it, key=key, a=a, cls=cls):
                    it.raise_ops = True
                    it.WHILE_MAX = 1 if 'cookie' in a else 2
                    r = call(it, g(cls), environ(it, key, text(it)),
                             populate_request=False)
                    want(it, lambda: it.getattr(r, a), 'Request.' + a)
                    oblige(it)
                out.append(Scen('request.%s.%s' % (a, key), f, a,
                                loop_k=1,
                                max_time=20 if 'cookie' in a else 60))
    return out
