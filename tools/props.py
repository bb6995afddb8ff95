"""Property catalogue: source of properties.jsonl and MANIFEST.json.

P(id, title, statement, over, quantifier text, why tests cannot, files,
  mechanism [(name, where)], technique, note)
"""
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note,
      **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, **kw))


def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over,
                   text=text, why=why, files=files, mech=mech,
                   reason=reason))


AI = ('abstract interpretation of the syntax tree (trace partitioning, '
      'value numbering, linear inequalities)')

P('C01', 'Header values never contain line breaks',
  'Whatever text or mix of operations an application uses to fill a header '
  'collection, no value stored in it contains a carriage return or a line '
  'feed. An attempt to store such a value fails with ValueError and leaves '
  'none behind.',
  ['inputs', 'histories'],
  'for all key/value strings and all write operations of the header '
  'collection, from any valid contents',
  'The tests try a few literal values on a few operations; the header '
  'collection has more than fifteen entry points and any one of them that '
  'forgets the check allows response splitting.',
  ['verktyg/http/basic.py'],
  [('Headers and every method writing its list', 'Headers.*'),
   ('value validation', 'Headers._validate_value')],
  AI + ' + string domain of excluded characters over the header list',
  'All public write operations, arbitrary strings, at most two prior '
  'entries; loops over caller-supplied collections up to 2 elements.')

P('C02', 'Immutable containers cannot be changed',
  'No public operation on an immutable list, dictionary, multi-value '
  'dictionary, type-conversion dictionary, ordered multi-value dictionary, '
  'combined dictionary or environment header view changes its '
  'contents. Every mutating operation raises TypeError instead, and '
  'pickling or copying keeps the contents.',
  ['inputs', 'histories'],
  'for all immutable classes, all public methods and operators, all contents '
  'and arguments',
  'The tests call a hand-picked list of methods; a mutator inherited from '
  'the built-in base class and not overridden goes unnoticed.',
  ['verktyg/datastructures.py', 'verktyg/http/basic.py',
   'verktyg/wsgi.py'],
  [('immutability mixins', 'ImmutableListMixin, ImmutableDictMixin, '
    'ImmutableMultiDictMixin, ImmutableHeadersMixin'),
   ('combined dictionary', 'CombinedMultiDict')],
  AI + ' + effect analysis over every inherited mutator',
  'Every method visible on each class incl. the ones inherited from list '
  'and dict.')

P('C04', 'Multi-value dictionaries never share value lists with callers',
  'Changing a list that was passed into a multi-value dictionary, or that '
  'was obtained from it, never changes what the dictionary itself holds, '
  'and the reverse; a copy and its original are independent. This holds '
  'for every way of putting lists in or getting them out, except for the '
  'documented live list handed out when installing a default list.',
  ['inputs', 'histories'],
  'for all contents, all entry and exit operations, all later mutations of '
  'the shared-looking lists',
  'Tests compare values right after the call, they do not mutate the list '
  'afterwards for each entry point.',
  ['verktyg/datastructures.py'],
  [('list entry and exit points', 'MultiDict.__init__, setlist, update, '
    'getlist, lists, listvalues, to_dict, copy, poplist, popitemlist')],
  AI + ' + escape/alias analysis on the abstract heap',
  'Plain, ordered and immutable variants.')

P('C05', 'All views of a multi-value dictionary describe the same contents',
  'After any sequence of operations on a plain or ordered multi-value '
  'dictionary every read view (items, lists, keys, values, first value, '
  'value list, length, membership) describes one and the same association '
  'list, namely the documented result of the operations. The ordered '
  'variant keeps the exact insertion order of all pairs; combined '
  'dictionaries answer from their parts in order.',
  ['inputs', 'histories'],
  'for all keys (every pattern of equal and distinct keys), values and '
  'sequences of up to two operations from any contents of up to three pairs',
  'The tests follow a few fixed scripts with distinct keys; the ordered '
  'variant maintains a linked bucket chain next to the dictionary and can '
  'diverge on repeated keys or on partial removal.',
  ['verktyg/datastructures.py'],
  [('plain multi-value dictionary', 'MultiDict'),
   ('ordered variant with bucket chain', 'OrderedMultiDict, _omd_bucket'),
   ('combined', 'CombinedMultiDict')],
  AI + ' against an association-list abstraction, all key-equality patterns',
  'Up to three pairs and two operations; arbitrary keys and values.')

P('C06', 'Observable header structures report every change',
  'When a cache-control set, a header set, a content range, an '
  'authentication challenge or any other structure with an update callback '
  'changes, the callback is called with the structure after its contents '
  'have reached their final state. A header set finds exactly the entries '
  'it lists, ignoring case, at the places where it lists them, and refuses '
  'duplicates.',
  ['inputs', 'histories'],
  'for all mutating operations, contents and arguments',
  'The tests exercise the callback for a few operations; an operation '
  'inherited from the built-in dictionary that bypasses it leaves the '
  'response header stale.',
  ['verktyg/datastructures.py', 'verktyg/http/basic.py',
   'verktyg/http/cache_control.py', 'verktyg/http/auth.py'],
  [('callback dictionary', 'UpdateDictMixin, CallbackDict'),
   ('header set with two stores', 'HeaderSet'),
   ('ranges', 'ContentRange, ETags')],
  AI + ' + typestate (changed => notified before return)',
  'Every mutating method incl. inherited ones.')

P('C07', 'Structured response header views write through to the header',
  'Each structured view a response offers on one of its headers (cache '
  'control, vary, allow, content language, content range, authentication '
  'challenge, entity tag, mimetype parameters and the typed single-value '
  'properties) stays in step with the raw header: after a change through '
  'the view the response carries exactly the serialised view under that '
  'name, or no such header when the view is empty. No other header is '
  'touched.',
  ['inputs', 'histories'],
  'for all views, all mutations of a view and all values',
  'The tests check some views for some values; each view has its own '
  'write-back closure.',
  ['verktyg/responses.py', 'verktyg/http/basic.py', 'verktyg/utils.py'],
  [('view properties and their on_update closures', 'ETagResponseMixin, '
    'CommonResponseDescriptorsMixin, WWWAuthenticateMixin'),
   ('typed header descriptors', 'header_property')],
  AI + ' of each view mutation followed to the header list',
  'Arbitrary prior header text for the opaque parse step.')

P('C11', 'Responses that must not have a body are sent without one',
  'A response to a HEAD request, or with an informational, 204 or 304 '
  'status, sends no body bytes; every other response sends exactly its '
  'encoded body items in order. 1xx and 204 responses announce zero length '
  'and a 304 response drops exactly the entity headers other than Expires '
  'and Content-Location. The response is started exactly once with its '
  'status line.',
  ['inputs'],
  'for all status codes, request methods, body kinds (list, tuple, '
  'iterator, pass-through) and preset headers',
  'Tests sample a handful of codes and one method; the rule is a decision '
  'table over status x method x body kind.',
  ['verktyg/responses.py', 'verktyg/http/basic.py'],
  [('body selection', 'BaseResponse.get_app_iter'),
   ('header adjustment', 'BaseResponse.get_wsgi_headers, '
    'remove_entity_headers'),
   ('start', 'BaseResponse.__call__')],
  AI + ' with the status code and method left symbolic',
  'Status is an unconstrained integer, method an unconstrained string.')

P('C35', 'A computed Content-Length is the number of bytes sent',
  'Whenever the length of a response is announced by the library rather '
  'than by the application, it equals the number of bytes the body '
  'iterator then yields, also for text items outside ASCII and for every '
  'way of setting or freezing the body. A length given by the application '
  'is left alone.',
  ['inputs'],
  'for all text/byte bodies held in lists and tuples, all ways the length '
  'is computed',
  'Tests use ASCII text, where characters and bytes coincide.',
  ['verktyg/responses.py'],
  [('length computation', 'BaseResponse.set_data, '
    'calculate_content_length, freeze, get_wsgi_headers'),
   ('conditional', 'ETagResponseMixin.make_conditional')],
  AI + ' comparing the length term with the sum of the yielded items',
  'Two body items; arbitrary text/bytes.')

P('C08', 'A limited stream never takes more than its limit',
  'Whatever sequence of read operations with whatever sizes (negative, '
  'None, huge) is made on a limited stream, the wrapped stream is only ever '
  'asked for a bounded, non-negative number of bytes and never more than '
  'limit minus what was consumed. The position reported equals the bytes '
  'consumed, data is handed on unchanged, and an I/O error or premature '
  'end of the wrapped stream surfaces as the client-disconnect error.',
  ['inputs', 'histories', 'crash_points'],
  'for all limits, read sizes and operation sequences up to the bound, all '
  'wrapped-stream behaviours including short reads and I/O errors',
  'Reading past the body on a keep-alive connection blocks or swallows the '
  'next request; tests use in-memory streams, where overreading is '
  'harmless.',
  ['verktyg/wsgi.py'],
  [('bounded reader', 'LimitedStream.read, readline, readlines, exhaust, '
    '__next__'),
   ('fault reporting', 'LimitedStream.on_disconnect, on_exhausted')],
  AI + ' of every call on the wrapped stream against remaining = limit - '
  'consumed',
  'Sequences of 2 (thorough 3) operations; arbitrary integers.')

P('C09', 'A request never reads past its announced body',
  'Reading the body of a request takes at most the announced number of bytes '
  'from the server, and nothing at all when no usable length is announced or '
  'the request is shallow; only a stream the server declares terminated is '
  'handed out unbounded. The data arrives unchanged, cached data is read once '
  'and handed out again, and a body that ends early surfaces as the '
  'client-disconnect error.',
  ['inputs', 'histories'],
  'for all Content-Length texts, body contents and sequences of two read '
  'operations',
  'Tests use in-memory streams of exactly the announced size, where reading '
  'too far has no effect.',
  ['verktyg/requests.py', 'verktyg/wsgi.py'],
  [('stream selection', 'get_input_stream, get_content_length'),
   ('body access', 'BaseRequest.stream, BaseRequest.get_data')],
  AI + ' of every call on the server stream against the announced length',
  'Arbitrary length text; two operations.')

P('C10', 'Only trusted hosts come out when a trusted list is set',
  'With a trusted-host list in force the host and URL accessors return only '
  'when the host of the request, without its port, equals a listed name or, '
  'for an entry with a leading dot, is that name or a subdomain of it; for '
  'any other host they raise the security error, a 400 response. The host is '
  'the first forwarded host, else the Host header, else the server name with '
  'any non-default port.',
  ['inputs', 'configurations'],
  'for all hosts built from arbitrary labels around a listed name, all list '
  'forms, all three sources of the host and every accessor',
  'Tests try two hosts on two accessors; each accessor has to pass the list '
  'on by itself, and suffix matching without the dot accepts '
  '"evilexample.com".',
  ['verktyg/wsgi.py', 'verktyg/requests.py'],
  [('trust decision', 'host_is_trusted'),
   ('accessors', 'get_host, get_current_url, BaseRequest.url, base_url, '
    'url_root, host_url, host')],
  AI + ' + string domain over host shapes with unknown labels',
  'Hosts outside ASCII are only required not to crash.')

P('C03', 'Request attributes are faithful, stable views of the environment',
  'Every attribute of a request yields exactly what the corresponding '
  'variable of the server environment denotes (method, paths, query, URLs, '
  'parsed headers, addresses, flags), with its documented default when the '
  'variable is absent. Asking again gives the same value, asking never '
  'changes the environment, and the collections handed out reject changes.',
  ['inputs'],
  'for all attributes of both request classes and all texts of the '
  'variables, present or absent',
  'Tests read some attributes of a few hand-made environments; an attribute '
  'wired to a neighbouring variable, or one that returns nothing, is not '
  'noticed unless it is among them.',
  ['verktyg/requests.py', 'verktyg/wsgi.py', 'verktyg/utils.py'],
  [('attributes', 'BaseRequest, ETagRequestMixin, AuthorizationMixin, '
    'CommonRequestDescriptorsMixin'),
   ('header view', 'EnvironHeaders'), ('caching', 'cached_property')],
  AI + ' comparing each attribute with the value of its variable',
  'The header parsers themselves are replaced by opaque functions.')

P('C12', 'Cleanup runs exactly once on every way out',
  'Once the body iterator of a response or application call has been '
  'exhausted or closed, every callback registered with call_on_close on the '
  'request or response, and the close method of the body, has run exactly '
  'once and in order of registration. This holds for bodies read to the end, '
  'closed early or failing, for failing handlers and a failing '
  'start_response, for HEAD requests and for both objects as context '
  'managers; a ClosingIterator closes its iterable and then runs its '
  'callbacks.',
  ['histories', 'faults'],
  'for all kinds of body iterable, all points at which the server stops and '
  'all faults named above, over the code paths of the whole application call',
  'Tests register one callback on a list response; double and missing closes '
  'need an early close or a fault at a particular point.',
  ['verktyg/application.py', 'verktyg/responses.py', 'verktyg/requests.py',
   'verktyg/wsgi.py'],
  [('application', 'Application.__call__'),
   ('responses', 'BaseResponse.close, get_app_iter, call_on_close'),
   ('ClosingIterator', 'verktyg.wsgi.ClosingIterator')],
  AI + ' with a typestate counter per cleanup on every exit',
  'Callbacks and close methods that themselves fail are not covered; bodies '
  'of at most two items.')


P('C21', 'Quality negotiation follows the most specific matching range',
  'Matching a value against a parsed accept header gives the quality of the '
  'most specific range that matches it, where an exact entry beats a partial '
  'or group match and that beats a wildcard, whatever order the client wrote '
  'them in. A range the client gave a quality of zero makes the values it '
  'decides unacceptable (NotAcceptable). Acceptabilities compare by '
  'specificity and then quality; qualities outside 0..1 are clamped.',
  ['inputs'],
  'for all accept headers of up to three ranges in every order, with '
  'arbitrary qualities, for content types, languages and charsets, given as '
  'text or as parsed objects',
  'Tests use a few literal headers with distinct qualities; overlapping '
  'ranges in an unusual order or with quality zero decide differently.',
  ['verktyg/accept/__init__.py', 'verktyg/accept/content_type.py',
   'verktyg/accept/language.py', 'verktyg/accept/charset.py'],
  [('accept headers', 'ContentTypeAccept, LanguageAccept, CharsetAccept'),
   ('match results', 'ContentTypeAcceptability, LanguageAcceptability, '
    'CharsetAcceptability')],
  AI + ' with every quality an arbitrary number, against the ordering of '
  'matches by specificity',
  'Range names come from a closed vocabulary; qualities are unconstrained '
  'numbers (not-a-number excluded).')

P('C22', 'Negotiation selects the best acceptable representation',
  'Among the representations registered for a resource the one selected is '
  'acceptable to the client in content type, language and charset, each '
  'judged by its own accept header, and no other acceptable one ranks '
  'higher; of equals the last registered wins. When none is acceptable '
  'NotAcceptable is raised. An absent, empty or malformed accept header '
  'accepts anything and never causes another error.',
  ['inputs', 'configurations'],
  'for all sets of up to three representations over the vocabulary with '
  'arbitrary server qualities, and all combinations of accept headers',
  'The tests vary one dimension at a time; a header consulted for the wrong '
  'dimension only shows when two of them differ.',
  ['verktyg/accept/representation.py', 'verktyg/accept/__init__.py',
   'verktyg/dispatch.py'],
  [('selection', 'select_representation'),
   ('ranking', 'Representation.acceptability')],
  AI + ' against an exhaustive ranking of the representations on each path',
  'Up to three representations.')

P('C23', 'Requests reach exactly the binding registered for them',
  'A dispatcher finds for an endpoint, method and accept headers the binding '
  'that was registered under that name and method and is the best acceptable '
  'one, including the fallback from HEAD to GET and bindings in nested or '
  'later extended dispatchers. An unknown endpoint is NotImplemented, a '
  'known one without the method is MethodNotAllowed listing exactly the '
  'methods that exist. In a built application the request, its own accept '
  'headers and the URL parameters arrive at that action, through the '
  'middleware in the order given.',
  ['inputs', 'configurations'],
  'for all tables of up to three bindings over names, methods, '
  'representations and nestings, every request method',
  'Tests register a few bindings one at a time; conflicts between name, '
  'method and representation need particular combinations.',
  ['verktyg/dispatch.py', 'verktyg/application.py', 'verktyg/views.py',
   'verktyg/accept/representation.py'],
  [('dispatch table', 'Dispatcher.lookup, add_bindings'),
   ('registration', 'ApplicationBuilder.*, expose, ClassView, JsonView'),
   ('request handling', 'BaseApplication._get_response')],
  AI + ' comparing the selected binding with the registration table',
  'Up to three bindings; closed vocabulary of names and methods; a small set '
  'of environments.')

P('C24', 'Exceptions reach the most specific acceptable handler',
  'For an exception the handler chosen is one registered for the first class '
  'in its method resolution order that has an acceptable handler, the best '
  'and then the last registered among those, also when handlers come from '
  'nested dispatchers. In an application any exception of routing, '
  'dispatch or the action is given to that handler with application, '
  'request and exception, and its response is sent. Without a handler the '
  'exception reaches the server unchanged; routing redirects are answered '
  'by default.',
  ['inputs', 'configurations', 'faults'],
  'for all tables of up to four handlers over a class hierarchy with '
  'multiple inheritance, all raised classes and accept headers',
  'Tests raise one class with one handler; precedence between base classes, '
  'registration order and negotiation needs combinations.',
  ['verktyg/exception_dispatch.py', 'verktyg/application.py'],
  [('handler table', 'ExceptionDispatcher.lookup, add_exception_handlers'),
   ('exception path', 'BaseApplication._get_response')],
  AI + ' comparing the selected handler with the registration table',
  'Two handlers per table (four when nested).')

P('C25', 'Routing matches whole paths, most specific route first',
  'A path is routed to the most specific route whose template it fills '
  'completely, with the variables of the template (and its defaults) as '
  'values. A branch URL without its final slash is redirected when slashes '
  'are strict, and NotFound is raised exactly when no route fits. The order '
  'of registration does not matter between routes of different specificity; '
  'subdomain and host belong to the match.',
  ['inputs', 'configurations'],
  'for all request paths (without restriction of length or alphabet) over a '
  'catalogue of route sets in every order of registration',
  'Tests request a handful of paths; a missing anchor or escape in a pattern '
  'only shows for paths nobody thought of.',
  ['verktyg/routing.py'],
  [('pattern compilation', 'Route.compile'), ('matching',
   'MapAdapter.match, Route.match'), ('ordering', 'Route.match_compare_key')],
  AI + ' + inclusion of regular languages (derived pattern against template)',
  'Paths with line breaks under path converters are excluded; which of '
  'several ways to split a path between two path variables is not judged.')

P('C26', 'URL converters take exactly their values and never break matching',
  'A converter accepts exactly the texts of its documented form and turns '
  'them into the value they denote, within its limits; any other text is '
  'refused so that the next route is tried, and matching never raises '
  'another error. Building with a converter yields the quoted text of the '
  'value in the charset of the map. Converter arguments in a template arrive '
  'as the literals they are written as.',
  ['inputs', 'configurations'],
  'for all texts and limits of every built-in converter, both outcomes of '
  'arbitrary custom converters',
  'Limits, huge numbers, byte values and charsets are sampled by one or two '
  'tests each, if at all.',
  ['verktyg/routing.py'],
  [('converters', '*Converter.to_python, to_url'),
   ('argument parsing', 'parse_converter_args'), ('fallback',
                                                   'Route.match')],
  AI + ' + inclusion of regular languages and the string domain',
  'Argument syntax is covered by a list of argument texts.')

P('C27', 'Built URLs are the filled-in template, correctly encoded',
  'Building a URL for an endpoint uses the route that takes most of the given '
  'values (never an alias, and the route with defaults only when the values '
  'agree), fills each variable in with its encoded value, puts the rest into '
  'the query and prefixes script name, and scheme and host when these differ '
  'or an external URL is asked for. No value can add a delimiter, space, '
  'quote or non-ASCII character to the path. BuildError is raised exactly '
  'when no route fits; the caller\'s values stay unchanged. A map says that an '
  'endpoint expects arguments exactly when one of its routes takes them all.',
  ['inputs', 'configurations'],
  'for all values, over a catalogue of route sets, bindings and options',
  'Values with reserved characters, other charsets or several values per '
  'name are combined in endless ways with route and binding options.',
  ['verktyg/routing.py', 'verktyg/urls.py', 'verktyg/application.py'],
  [('building', 'MapAdapter.build, _partial_build, Route.build'),
   ('suitability', 'Route.suitable_for, build_compare_key'),
   ('from a request', 'BaseApplication.url_for')],
  AI + ' comparing the URL with the filled-in template; string domain for '
  'arbitrary values',
  'Values with dot segments are only covered by the character property.')

P('C28', 'Route factories and templates keep every option of the route',
  'A route that comes out of a submount, a subdomain or endpoint-prefix '
  'factory, a route template or any nesting of these matches, builds, '
  'redirects and aliases like the same route written out by hand: only the '
  'part that the factory exists to change is changed. One template can be '
  'used any number of times.',
  ['inputs', 'configurations'],
  'for arbitrary options of the wrapped route and every nesting of two '
  'factories',
  'Tests wrap routes that carry hardly any options; an option that gets '
  'lost shows only in the application that combines it with a factory.',
  ['verktyg/routing.py'],
  [('factories', 'Subdomain, Submount, EndpointPrefix'),
   ('templates', 'RouteTemplate, RouteTemplateFactory'),
   ('copies', 'Route.empty')],
  AI + ' comparing every option of the resulting routes',
  'Nesting of two factories.')

P('C36', 'Header collections are ordered case-insensitive multi-maps',
  'Every operation on a header collection has the effect of the same '
  'operation on a list of name/value pairs whose names are compared without '
  'regard to case: order and the spelling of names are kept, all views of '
  'the collection agree, and values that are set or added are stored as '
  'text. The headers of a request show exactly the header variables of its '
  'environment and cannot be changed.',
  ['inputs', 'histories'],
  'for all names and values, every operation and every sequence of two '
  'operations from any contents of up to three headers',
  'More than twenty operations with case folding, repeated names, slices and '
  'negative indices interact; tests cover a few literal sequences.',
  ['verktyg/http/basic.py', 'verktyg/wsgi.py'],
  [('header collection', 'Headers.*'), ('environment view',
                                        'EnvironHeaders.*')],
  AI + ' against an association-list specification',
  'Contents of up to three headers, sequences of two operations.')

P('C29', 'Routing redirects lead to the canonical URL on the same site',
  'A request for a missing trailing slash, for a value that is a default of '
  'another route, for an alias, or for a route with a redirect target is '
  'answered with a permanent redirect to exactly the canonical address: same '
  'scheme, host and script name, the canonical path with the values of the '
  'request quoted, and the query unchanged. No value taken from the URL can '
  'make the redirect leave the host. A request to a canonical address is not '
  'redirected.',
  ['inputs', 'configurations'],
  'for all paths, values and query strings over a catalogue of route sets, '
  'bindings and map options',
  'Values with reserved characters, script names, charsets and query types '
  'are combined endlessly with the kinds of redirect; an open redirect shows '
  'only for one unusual path.',
  ['verktyg/routing.py'],
  [('redirects', 'MapAdapter.match, get_default_redirect, '
    'make_redirect_url, make_alias_redirect_url'),
   ('binding', 'URLMap.bind, URLMap.bind_to_environ')],
  AI + ' comparing the address with one put together from the route',
  'Host names that cannot be encoded are not covered.')

P('C38', 'Configuration mistakes in routes are refused where they are made',
  'A template without leading slash, a malformed template, subdomain or host '
  'and a variable used twice raise ValueError, an unknown converter raises '
  'LookupError, and binding a route to a second map raises RuntimeError, '
  'all when the route is made or added. The map works on as if the route had '
  'never been offered; routes that it took before it in the same call are '
  'tried in their proper order.',
  ['inputs', 'configurations', 'faults'],
  'for all kinds of mistakes in every way of adding a route to a map',
  'A mistake that gets through turns up as a wrong match or as an error in '
  'some later request; tests try one literal for each.',
  ['verktyg/routing.py'],
  [('template parsing', 'parse_rule, Route.compile'),
   ('registration', 'URLMap.add_routes, Route.bind, get_converter')],
  AI, 'A catalogue of malformed templates; arbitrary text for the leading '
  'slash.')

P('C17', 'Values written into structured headers are parsed back unchanged',
  'Any text without line breaks put into an option header, a list, set or '
  'dictionary header, a cache control or authentication header, or given as '
  'a keyword argument of a header, is parsed back from the resulting header '
  'as the same text, the empty text included; an entry without a value comes '
  'back without one. Whatever is not a token is written in quotes, and the '
  'accessors of these objects read what was set.',
  ['inputs'],
  'for all values made of up to five alternations between quotes, '
  'backslashes and other text, and all tokens as keys',
  'Escaping bugs show only for particular combinations of quotes, '
  'backslashes, separators and empty strings; tests try a handful.',
  ['verktyg/http/basic.py', 'verktyg/http/auth.py',
   'verktyg/http/cache_control.py'],
  [('quoting', 'quote_header_value, unquote_header_value'),
   ('dumping and parsing', 'dump_header, dump_options_header, '
    'parse_list_header, parse_dict_header, parse_options_header, '
    'parse_set_header'),
   ('holders', 'WWWAuthenticate, parse_authorization_header, _CacheControl, '
    'Headers.add')],
  AI + ' + regular expression matching over concatenations of unknown text '
  'with known alphabets',
  'Five pieces (six in the thorough tier), up to three entries; file names '
  'starting with a backslash are left alone on purpose and excluded.')

P('C19', 'Byte ranges select exactly the bytes they name',
  'A range header is understood as exactly the ranges it lists, and a header '
  'with contradictory, descending or malformed ranges as none at all, '
  'without an error. The range taken from a resource of known length is the '
  'part of the named bytes that exists, and the content range and range '
  'headers written from these objects name the same bytes. A content range '
  'object refuses ranges that cannot exist and keeps its old range.',
  ['inputs'],
  'for all integers in range headers of one to three ranges and all resource '
  'lengths; for all texts as far as raising is concerned',
  'Inclusive and exclusive ends, suffixes, open ends and lengths meet in '
  'off-by-one corners; tests try a few literal headers.',
  ['verktyg/http/cache_control.py', 'verktyg/http/basic.py'],
  [('range header', 'parse_range_header, Range.range_for_length, '
    'Range.make_content_range, Range.to_header'),
   ('content range', 'ContentRange, parse_content_range_header'),
   ('validity', 'is_byte_range_valid')],
  AI + ' over symbolic integers',
  'Up to three ranges. Suffixes longer than the resource or of length zero '
  'and unusual spellings of integers are not judged.')

P('C18', 'Conditional requests are answered by entity tag, then by date',
  'An If-None-Match or If-Match header is understood as exactly the tags it '
  'lists, with their weakness, and a star as every tag. A GET or HEAD '
  'request is answered as not modified exactly when the tag of the resource '
  'is listed or, if there is no tag to compare, when it has not changed since '
  'the second named in If-Modified-Since; other methods are left alone. The '
  'tag of a response reads back as it was set.',
  ['inputs'],
  'for all tags in headers of up to three items, all instants, all '
  'combinations of the headers',
  'Weak and strong comparison, precedence of the two headers, microseconds '
  'and quoting multiply; tests try a few literal headers.',
  ['verktyg/http/cache_control.py', 'verktyg/responses.py'],
  [('entity tags', 'parse_etags, ETags, quote_etag, unquote_etag'),
   ('decision', 'is_resource_modified, ETagResponseMixin.make_conditional'),
   ('response tags', 'ETagResponseMixin.set_etag, get_etag, add_etag'),
   ('If-Range', 'parse_if_range_header, IfRange')],
  AI + ' + regular expression matching over unknown text',
  'Three tags. Dates are abstract instants: parse_date is taken as given.')

P('C20', 'Malformed client headers never make parsing fail',
  'Whatever text a client sends, parsing a cookie, authorization, '
  'www-authenticate, options, list, dict, set, cache-control, etag, date, '
  'range, if-range or content-range header returns a value: it neither '
  'raises nor loops forever. The same holds for the attributes of a request '
  'that read these headers, its path and its query string.',
  ['inputs'],
  'for all latin-1 texts of a header, one header at a time',
  'A crash needs one particular malformed text; tests parse well formed '
  'headers and a few known bad ones.',
  ['verktyg/http', 'verktyg/requests.py'],
  [('parsers', ', '.join([
      'parse_cookie', 'parse_authorization_header', 'parse_options_header',
      'parse_list_header', 'parse_dict_header', 'parse_etags', 'parse_date',
      'parse_range_header', 'parse_if_range_header',
      'parse_content_range_header'])),
   ('attributes', 'Request.cookies, args, authorization, range, if_range, '
    'date, content_length, mimetype, max_forwards, access_route')],
  AI + ' with every library operation able to raise',
  'Loops over the text are unrolled twice (once for cookies); termination is '
  'decided on a catalogue of 50 awkward texts per parser. Accept headers '
  'raise ValueError by design and malformed Host headers are not judged.')

P('C13', 'The static file middleware serves exported files and nothing else',
  'Whatever the path of a request, the middleware touches no file outside '
  'the exported directories, packages and files: ".." never takes effect and '
  'exports match whole path segments. It serves the first export that has '
  'the file, with its length, type, date and caching headers, answers a '
  'matching If-None-Match with 304 and closes the file, never serves what '
  'is_allowed or the disallow rules refuse, and hands every other request '
  'to the application unchanged.',
  ['inputs'],
  'for all paths of up to four segments with arbitrary text, all answers of '
  'the file system, a catalogue of exports',
  'Containment must hold for every path a client can send; tests request '
  'three known files.',
  ['verktyg/wsgi.py'],
  [('middleware', 'SharedDataMiddleware.__call__ and its loaders'),
   ('body', 'wrap_file, FileWrapper')],
  AI + ' with the file system replaced by unknown predicates',
  'Segments are printable ASCII; symbolic links are the business of the '
  'administrator. Resources of zipped packages (sent with length 0) and '
  'weak tags are not judged.')

P('C30', 'What is set on a response is what is sent',
  'Whatever status, content type, headers and body are set on a response, '
  'through the constructor, attributes or another application '
  '(force_type, from_app), the status line, header list and body given to '
  'the server are exactly these. Locations become absolute and ASCII, 1xx '
  'and 204 answers lose their length and 304 its entity headers. Sending '
  'changes nothing on the response; HEAD, 1xx, 204 and 304 have no body; '
  'header attributes return what was set and delete what was deleted.',
  ['inputs'],
  'for arbitrary status codes, reason texts, header values and body pieces '
  'over all kinds of body and the public ways of setting them',
  'The guarantee is about every status, header and body kind in every '
  'combination; tests send a handful.',
  ['verktyg/responses.py', 'verktyg/test.py'],
  [('response', 'BaseResponse and its mixins'),
   ('from_app', 'BaseResponse.from_app, run_wsgi_app')],
  AI, 'Bodies of up to three pieces; header values without line breaks '
  '(see C35).')

P('C31', 'HTTP exceptions carry their status and abort() raises them',
  'Every HTTP exception class has the registered status code, name and a '
  'description of its own, keeps the description, response and methods it '
  'is given, and can be shown as text. abort(code, ...) raises the most '
  'general class declared for the code with the remaining arguments, '
  'abort(application) an HTTPException holding it, and an unknown code '
  'always LookupError; custom and extra mappings never leak into the '
  'defaults. wrap() makes a class that is both exceptions.',
  ['inputs'],
  'for all exception classes, codes and arguments',
  'A table of about thirty classes and sixty reasons plus arbitrary codes '
  'and arguments; tests try sixteen codes without arguments.',
  ['verktyg/exceptions.py', 'verktyg/routing.py'],
  [('abort', 'Aborter.__call__'), ('default_exceptions', '_find_exceptions'),
   ('wrap', 'HTTPException.wrap')],
  AI, 'The texts of the descriptions are not judged.')

P('C33', 'Mounted applications see their own part of the path',
  'The dispatcher calls exactly one application: that of the longest mount '
  'point that equals the path up to a segment boundary, or the default one. '
  'Script name and path info together stay what they were; the mount point '
  'moves from the one to the other; the rest of the environ, start_response '
  'and the answer pass through untouched.',
  ['inputs'],
  'for all paths of up to four arbitrary segments and a catalogue of mounts',
  'Prefixes must only match at segment boundaries, for every path; one test '
  'requests three paths.',
  ['verktyg/wsgi.py'],
  [('dispatcher', 'DispatcherMiddleware.__call__')],
  AI, 'Four segments, eleven sets of mounts.')

P('C16', 'Cookies come back as they were set',
  'A value written by dump_cookie is read back unchanged by parse_cookie, '
  'alone and between other cookies, and its text contains no separator, '
  'control or non-ASCII character outside the quoting that other software '
  'understands. A cookie header is read as exactly the cookies it lists. '
  'The written cookie has exactly the attributes asked for; a domain without '
  'a dot is refused; deleting a cookie expires it for the same path and '
  'domain.',
  ['inputs'],
  'for all bytes and pairs of bytes with awkward ones as value, for headers '
  'of up to three cookies with arbitrary names and values, for all '
  'combinations of attributes',
  'Quoting interacts with octal escapes, backslashes and separators; tests '
  'try a few literal cookies.',
  ['verktyg/http/cookies.py', 'verktyg/responses.py'],
  [('cookie text', 'dump_cookie, parse_cookie'),
   ('responses', 'BaseResponse.set_cookie, delete_cookie'),
   ('requests', 'Request.cookies')],
  AI + ' (values byte by byte) + regular expression matching over unknown '
  'text', 'Names are unquoted tokens; path and expiry texts are not '
  'quoted by the library.')

P('C37', 'Converting between IRIs and URIs keeps what they name',
  'For every URL and every text in its components, iri_to_uri gives an '
  'ASCII URI with the same components: delimiters and existing escapes '
  'stay, everything else is escaped as UTF-8, internationalised hosts become '
  'IDNA, and converting again changes nothing. uri_to_iri undoes only '
  'escapes that are neither delimiters nor invalid, so that the IRI names '
  'the same resource. url_fix also turns backslashes into slashes and spaces '
  'into valid escapes. Invalid ports raise ValueError.',
  ['inputs'],
  'for arbitrary text in each component, every ASCII character and every '
  'escape in each component',
  'Conversions must preserve every URL; tests convert a few.',
  ['verktyg/urls.py'],
  [('iri_to_uri', 'iri_to_uri, _encode_netloc'), ('uri_to_iri', 'uri_to_iri'),
   ('url_fix', 'url_fix')],
  AI, 'Escapes above %7F that are not UTF-8 become U+FFFD, as documented. '
  'Unknown international host names and relative URLs whose first segment '
  'contains an escaped colon are not judged.')

P('C14', 'Redirects lead where they say and cannot inject markup',
  'redirect(location, code, Response) answers with that status and class, '
  'Location is the URI of the location, and the HTML page links to it and '
  'shows it fully escaped. append_slash_redirect sends the client to the '
  'requested path and query string of the same application with exactly one '
  'slash appended: escapes, non-ASCII text and paths that look like URLs '
  'never lead elsewhere.',
  ['inputs'],
  'for arbitrary locations, statuses, paths and query strings',
  'Injection and open redirects hide in unusual text; tests try one script '
  'tag.',
  ['verktyg/utils.py', 'verktyg/responses.py'],
  [('redirect', 'redirect'), ('append_slash_redirect',
                              'append_slash_redirect')],
  AI, 'Locations are single URLs with unknown text in the path plus a '
  'catalogue of hostile ones; unquoted non-ASCII query strings are not '
  'judged.')

P('C15', 'A secured file name is harmless',
  'For every text, secure_filename returns only ASCII letters, digits, '
  'underscores, dots and hyphens, neither starts nor ends with a dot or '
  'underscore and, on Windows, is no device name. White space and path '
  'separators become single underscores, accents are dropped, other '
  'characters vanish, and names that are already harmless stay as they are.',
  ['inputs'],
  'for an arbitrary text, ten shapes of arbitrary words and every character '
  'up to U+00FF, on POSIX and Windows',
  'Path traversal hides in unusual characters; tests try six names.',
  ['verktyg/utils.py'],
  [('secure_filename', 'secure_filename')],
  AI, 'Windows is modelled by its separators and os.name.')

P('C32', 'Lazy attributes are computed once, header attributes fail soft',
  'A cached_property calls its function once per object, on the first read, '
  'keeps any value including None and false ones, caches nothing when the '
  'function fails, and an assigned value wins. A header_property reads the '
  'header whatever its case, gives the default for a missing header or one '
  'its loader rejects with ValueError or TypeError, replaces all values '
  'when set, removes them when deleted, and refuses both if read only.',
  ['inputs', 'histories'],
  'for arbitrary values and every order of reading, assigning and deleting '
  'of up to four steps',
  'Caching depends on the history of an object and on falsy values; tests '
  'read one property twice.',
  ['verktyg/utils.py'],
  [('cached_property', 'cached_property'), ('header_property',
                                           'header_property')],
  AI, 'Threads computing a value at the same time are not covered.')

P('C34', 'The test client sends what it is given',
  'The environ built by EnvironBuilder, create_environ and Client carries the '
  'method, path, base URL, query string, headers and flags given, every value '
  'of every key of args, form and files, encoded once, and a content length '
  'that is the length of the body. The application is called exactly once per '
  'request and its status, headers and body come back in order. Redirects are '
  'followed only for redirect codes and only to the same host (or its '
  'subdomains when allowed), with the method the code asks for; loops are '
  'reported. Cookies that are set are sent back.',
  ['inputs', 'histories'],
  'for all paths, query strings, header and form values, bodies and redirect '
  'targets over the alphabets of the scenarios, all seven methods, seven '
  'redirect codes',
  'What is sent depends on the combination of arguments and on every value; '
  'tests use a handful of literal requests.',
  ['verktyg/test.py'],
  [('environ', 'EnvironBuilder.get_environ'),
   ('bodies', 'stream_encode_multipart, EnvironBuilder.files, close'),
   ('running', 'run_wsgi_app, Client.open, Client.resolve_redirect'),
   ('cookies', '_TestCookieJar')],
  AI, 'Values ASCII where escapes matter, the quoting of other characters for '
  'fixed texts; files of fixed contents; the policy of the cookie jar itself '
  '(domains, expiry) is the library\'s and is not judged.')

P('C39', 'Dates are written in UTC and read back as the same moment',
  'Dates put into headers and cookies name the moment given (a time stamp, '
  'a date object in any time zone, or a broken down time, or now) by its UTC '
  'fields in the fixed form "Wed, 05 May 2010 03:04:05 GMT" (with dashes in '
  'cookies). Parsing a date gives that moment in UTC, honouring the '
  'offset in the text; text that is not a date, or names a day or time that '
  'does not exist, gives None and never an error. Date attributes of '
  'requests and responses read back the moment that was set.',
  ['inputs'],
  'for all moments with four-digit years, every weekday and month, all '
  'offsets, all results of the mail date parser',
  'The tests format two dates and parse three; a wrong month name, local '
  'instead of universal time, a missing zero or a sign of the offset shows '
  'only for other dates or on machines in another time zone.',
  ['verktyg/http/basic.py', 'verktyg/http/cookies.py',
   'verktyg/responses.py', 'verktyg/requests.py'],
  [('writing', 'http_date, cookie_date, _dump_date'),
   ('reading', 'parse_date'),
   ('date attributes', 'CommonResponseDescriptorsMixin, '
    'CommonRequestDescriptorsMixin, ETagRequestMixin')],
  AI + ' over broken down times with unknown fields, compared with the text '
  'and moment they denote',
  'The calendar itself (gmtime, datetime arithmetic, parsedate_tz) is '
  'modelled by uninterpreted functions; years of four digits.')

P('C42', 'Applications consist of exactly what was added to their builder',
  'An application built from a builder serves the routes, bindings, '
  'converters, middleware, exception handlers, mixins and configuration added '
  'to that builder up to then, in that order, together with the documented '
  'defaults unless they were switched off; later additions and other builders '
  'do not reach it. Decorators return the function they register. An error '
  'raised by an action is given, with its class, value and traceback, to the '
  'handler of the nearest class it is an instance of, or comes out as it is; '
  'it leaves nothing behind for later requests. url_for gives the URL of an '
  'endpoint below the root the application was built for.',
  ['configurations', 'histories'],
  'for all ways of adding parts to a builder (in one or several calls, '
  'before or after building), all classes of error and sets of handlers of '
  'the scenarios, arbitrary route values',
  'The tests build four applications, each once and from an otherwise empty '
  'builder; parts that leak between builders or get lost in a combination are '
  'not seen.',
  ['verktyg/application.py', 'verktyg/exception_dispatch.py',
   'verktyg/views.py'],
  [('builder', 'ApplicationBuilder'),
   ('application', 'BaseApplication')],
  AI + ' of whole applications from builder to response',
  'Building two applications with the same route objects is refused by the '
  'routes and not judged.')

P('C40', 'Uploaded files keep their name, type, length and contents',
  'A file storage has the file name given or else the text name of its '
  'stream (never a name in angle brackets or a descriptor number), and is '
  'true exactly when it has one. Its content type, mimetype, parameters and '
  'length are those of its own headers at the time of asking, absent or '
  'malformed lengths counting as 0. Saving writes the whole rest of the '
  'stream to the target, closes a target it opened itself also when '
  'something fails, and never closes a file of the caller or the stream. '
  'Iterating yields the lines of the stream and ends with it; closing '
  'closes the stream and ignores its errors; other attributes are those of '
  'the stream.',
  ['inputs', 'fault points'],
  'for all kinds of stream name, all header texts, all contents in up to '
  'three pieces, failures at opening, reading, writing and closing',
  'One test reads one mimetype; odd stream names, failures while saving and '
  'iteration are never tried.',
  ['verktyg/http/basic.py'],
  [('FileStorage', 'FileStorage.*')],
  AI + ' with recording streams and failures at every operation',
  'Streams that are themselves false are replaced by an empty one, which is '
  'not judged.')

P('C41', 'Accept headers are written back as they were read',
  'The text form of a content type, language or charset preference is a '
  'header which parses into the same ranges, in the same order, with the same '
  'qualities (held between 0 and 1, 1 when not given) and parameters. A value '
  'is contained in an accept header exactly when it is acceptable to it, and '
  'indexing with the value gives that acceptability or KeyError. Languages '
  'and charsets take no parameters.',
  ['inputs'],
  'for all headers of up to three ranges with arbitrary names and '
  'parameters, given as text or objects; membership with arbitrary qualities',
  'No test writes an accept header, and membership is tried for a few '
  'literal headers.',
  ['verktyg/accept/__init__.py', 'verktyg/accept/_base.py',
   'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
   'verktyg/accept/charset.py'],
  [('writing', 'Range.to_header, Accept.to_header, Value.to_header'),
   ('reading', 'split_accept_string, Range'),
   ('membership', 'Accept.__contains__, Accept.__getitem__')],
  AI, 'Qualities of the text forms are those of a list; names of letters and '
  'digits, parameters without separators.')

P('C43', 'No text makes a pattern take exponential time',
  'The time any regular expression of the package needs grows at most '
  'polynomially with the text it is given: no repetition of it can go around '
  'the same text in two ways with a failure still possible afterwards. Holds '
  'for header, cookie, accept and filename patterns and for the patterns that '
  'routes compile to, with every builtin converter.',
  ['inputs'],
  'for all texts, hostile ones included',
  'A test only measures texts it was given; the blowup needs a long text '
  'that fails at the end.',
  ['verktyg/http/basic.py', 'verktyg/http/cookies.py',
   'verktyg/http/cache_control.py', 'verktyg/accept/_base.py',
   'verktyg/accept/content_type.py', 'verktyg/routing.py',
   'verktyg/utils.py', 'verktyg/datastructures.py', 'verktyg/wsgi.py'],
  [('patterns', '_option_header_piece_re, _cookie_re, _etag_re, '
    '_content_type_value_re, _route_re, _converter_args_re'),
   ('route patterns', 'Route.compile, converters')],
  'Patterns are parsed into automata; a walk over pairs of positions looks '
  'for a position reached from itself by two walks over one text',
  'Polynomial growth is allowed. Patterns given by the application (custom '
  'converters, separators) are not judged.')

P('C44', 'Equal immutable containers have equal hashes',
  'Two immutable lists, dictionaries, type-conversion dictionaries, '
  'multi-value dictionaries or ordered multi-value dictionaries of the same '
  'class that compare equal have the same hash, whatever the order in which '
  'they were filled; the hash of one object never changes. Their mutable '
  'relatives cannot be hashed.',
  ['inputs', 'histories'],
  'for all contents of up to three entries and all orders of filling',
  'A test that looks up one container in a set uses a container filled in '
  'the same order.',
  ['verktyg/datastructures.py'],
  [('hashing', 'ImmutableListMixin.__hash__, ImmutableDictMixin.__hash__, '
    '_iter_hashitems')],
  AI, 'Values are texts and numbers.')

P('C45', 'Iteration by lines or separators gives the same pieces however '
  'the data arrives',
  'For every content, text or bytes, make_line_iter gives its lines with '
  'their ends (LF, CR or CR LF) and make_chunk_iter what stands between '
  'its separators, the same for every way the content is cut into buffers, '
  'from an iterable or from a stream, and never anything beyond the limit.',
  ['inputs', 'histories'],
  'for all contents and cuts',
  'Tests use a few literal contents and cuts.',
  ['verktyg/wsgi.py'],
  [('iteration', 'make_line_iter, make_chunk_iter, _make_chunk_iter')],
  AI, 'Contents of up to five words, line ends or pieces of separators, cut '
  'anywhere between these.')

N('C51', 'Built URLs match back to the endpoint and values they were built from',
  'For every map, building a URL for an endpoint with some values and '
  'matching the result gives the same endpoint and equal values, or the build '
  'is refused.',
  ['inputs'],
  'for all maps of routes and all values',
  'Tests build and match a few literal maps.',
  ['verktyg/routing.py'],
  [('building', 'Route.build, MapAdapter.build'),
   ('matching', 'Route.match, MapAdapter.match')],
  'Quantifies over arbitrary sets of overlapping routes and over numbers '
  'formatted and read back at run time; C25-C27 decide matching and building '
  'separately on enumerated maps.')
N('C52', 'The boundary of a generated multipart body occurs in no part',
  'Whatever fields and files the test client encodes, the boundary that it '
  'makes up for the multipart body does not occur inside a part.',
  ['inputs'],
  'for all fields and file contents',
  'Tests encode a few literal forms.',
  ['verktyg/test.py'],
  [('encoder', 'stream_encode_multipart, encode_multipart')],
  'The boundary is made from the clock and a random number at run time; that '
  'no content contains it is a probabilistic fact, not one of the source. '
  'What the parts hold is decided by C34.')
N('C53', 'Different contents have different entity tags',
  'Responses with different bodies get different generated entity tags.',
  ['inputs'],
  'for all pairs of bodies',
  'No test can compare all pairs.',
  ['verktyg/http/cache_control.py', 'verktyg/responses.py'],
  [('tags', 'generate_etag, ETagResponseMixin.add_etag')],
  'Collision freedom of a digest is not a property of the source.')
N('C54', 'Shared requests and maps can be used from several threads',
  'Lazily computed attributes and the lazily sorted route map give the same '
  'results whatever the interleaving of the threads using them.',
  ['schedules'],
  'for all interleavings',
  'Tests use one thread.',
  ['verktyg/utils.py', 'verktyg/routing.py', 'verktyg/requests.py'],
  [('lazy attributes', 'cached_property.__get__'),
   ('lazy sorting', 'URLMap.update')],
  'The package takes no locks beyond the interpreter; which interleavings '
  'matter depends on the granularity of bytecodes and list.sort, which no '
  'analysis of the source in reach bounds.')

