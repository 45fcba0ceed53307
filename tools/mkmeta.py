"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, how, note):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe, how=how, note=note))


R = 'verktyg/routing.py'
prop('C01', 'URL matching picks the right route and arguments',
     'Matching a path against a URL map yields the endpoint and converted arguments of a route whose pattern matches the whole path and whose converters accept every variable part; no route matching means NotFound (404), never a wrong endpoint. When several routes match, the winner is decided by priority: routes without variables and defaults first, then routes with more parts, then, part by part, static text before variables (longer static text first) and number converters before string, any and uuid converters before path converters; registration order only decides between routes that are equal in all this. Matching is a pure function of map and path: it does not depend on earlier matches, and paths match only as a whole (no trailing newline, no partial match).',
     ['inputs', 'configurations'], 'all URL maps built from literal text, the built in converters with their options, defaults, subdomains and hosts; all request paths',
     'The suite tries about thirty hand written maps and paths; priorities between many overlapping routes, converter limits and long paths are sampled once each.',
     [R], [('Route.compile/match regex', R), ('match_compare_key sort', R), ('converters to_python', R)],
     ['MapAdapter.match', 'MapAdapter.dispatch', 'MapAdapter.test'],
     'differential runtime oracle: an independent segment-wise matcher and priority model judges every match() call of generated maps and paths',
     'Generated maps and paths; the reference matcher is written from the documentation and shares no code with the library.')
prop('C02', 'Built URLs match back to the same endpoint and values',
     'For every route and every set of values acceptable to its converters, the URL that build() returns, when requested, matches the same endpoint with equal values (following at most a canonicalising redirect), with surplus values carried in the query string and nothing lost, reordered or doubly encoded. An unknown endpoint, a missing variable or values that contradict the defaults of every route of the endpoint raise BuildError instead of giving a URL. Forced external, host and subdomain forms denote the same resource as the relative one. The map tells which routes an endpoint has and which names they take (iter_routes, is_endpoint_expecting).',
     ['inputs', 'configurations'], 'all maps, endpoints, value sets (Unicode, reserved characters, dot segments, numbers of any size) and script roots',
     'Tests build fewer than forty fixed URLs; escaping bugs show up only for particular characters, numbers or combinations of defaults.',
     [R, 'verktyg/urls.py'], [('Route.build', R), ('MapAdapter.build', R), ('to_url of converters', R)],
     ['MapAdapter.build', 'MapAdapter.match'],
     'round trip monitor: each built URL is split with an independent URL parser and matched again; result compared with the input values',
     'Round trip over generated routes and values, URL splitting by urllib.')
prop('C03', 'Routing redirects converge, keep the query and stay on the site',
     'Redirects issued by URL matching for a missing trailing slash, default values or aliases lead, when followed, in a bounded number of steps to a URL that matches the same endpoint with the same arguments; they stay on the bound scheme, host and script root whatever the request path contains, and keep the query string unchanged. A redirect_to target is filled in with the encoded values and, when relative, also stays on the bound host. A path that is already canonical is never redirected.',
     ['inputs', 'configurations', 'histories'], 'all maps with strict slashes, redirect_defaults, aliases and redirect_to targets; all paths and query strings; chains of redirects',
     'The suite follows a single redirect for a few ASCII paths; loops and open redirects need unusual paths or route combinations.',
     [R], [('RequestSlash / RequestRedirect handling', R), ('get_default_redirect', R), ('make_redirect_url', R)],
     ['MapAdapter.match', 'RequestRedirect.new_url'],
     'trace monitor: follows every redirect chain and checks termination, target, host, script root, query and final match',
     'Generated maps and hostile paths; chain length bound 8.')
prop('C04', 'Content negotiation serves the best acceptable representation',
     'Among the representations bound to an endpoint and method, a request is served the one ranking highest by content type (client quality times source quality, then specificity of the range), then by language and then by charset (client quality, then specificity), then by source quality; the last registered wins between equals. For each of content type, language and charset the most specific range that matches decides the quality. A representation excluded by the request (q=0 or matched by no range) is never served, and if all are excluded the result is 406; an absent or malformed header accepts everything. Methods that are not bound give 405, HEAD falls back to GET, and the choice does not depend on the order of the ranges in the header.',
     ['inputs', 'configurations'], 'all sets of bindings (types, languages, charsets, source qualities, methods) and all Accept, Accept-Language and Accept-Charset headers',
     'Tests check about fifty header/representation pairs, mostly one dimension at a time and two candidates.',
     ['verktyg/accept/_base.py', 'verktyg/accept/__init__.py', 'verktyg/accept/content_type.py', 'verktyg/accept/language.py', 'verktyg/accept/charset.py', 'verktyg/dispatch.py'],
     [('_AcceptHeader.match / acceptability order', 'verktyg/accept/_base.py'), ('select_representation', 'verktyg/accept/__init__.py'), ('Dispatcher.lookup', 'verktyg/dispatch.py')],
     ['Dispatcher.lookup', 'Application.__call__', 'parse_accept_header'],
     'differential runtime oracle: independent RFC 7231 negotiation model judges every lookup and every end to end response',
     'Generated binding sets and headers; quality values with up to three decimals as in the RFC.')
prop('C05', 'Exceptions reach the most derived registered handler',
     'An exception raised while a request is handled is answered by the handler registered for the most derived class in its method resolution order for which an acceptable representation exists. Routing redirects are answered without any registered handler; every other exception without an acceptable handler propagates unchanged to the server, and exceptions that are not Exception subclasses are never handled. Handlers for unrelated or more derived classes are never called.',
     ['inputs', 'configurations'], 'all class hierarchies, handler sets, Accept headers and places of raising (routing, dispatch, view, handler)',
     'Tests register one or two handlers on a linear hierarchy.',
     ['verktyg/exception_dispatch.py', 'verktyg/application.py', 'verktyg/exceptions.py'],
     [('ExceptionDispatcher lookup by MRO', 'verktyg/exception_dispatch.py'), ('Application error handling', 'verktyg/application.py')],
     ['Application.__call__', 'ExceptionDispatcher.lookup'],
     'monitored handlers record every call; offline checker compares the call log with an MRO model',
     'Generated class hierarchies including multiple inheritance, exhaustive over the stock HTTP exceptions.')
prop('C06', 'Applications and responses obey the WSGI protocol',
     'For every request and every kind of response (text, bytes, iterable, streamed, redirect, error, HEAD, 1xx/204/304) the application calls start_response exactly once before the first byte with a valid native status string and header list, yields only bytes, and exposes the body and headers the view set: nothing lost, duplicated or reordered. HEAD, 1xx, 204 and 304 send no body. Location is absolute (while autocorrect_location_header is on), Location and Content-Location are ASCII, and both stay inside the requested site unless the view named another one. A 304 carries no entity headers but Expires and Content-Location, and sending a response does not change its headers.',
     ['inputs', 'configurations'], 'all requests, response classes, body shapes, statuses, headers and middleware combinations',
     'Tests call single responses directly; the protocol is not validated end to end.',
     ['verktyg/application.py', 'verktyg/responses.py', 'verktyg/exceptions.py'],
     [('BaseResponse.get_wsgi_response / get_wsgi_headers', 'verktyg/responses.py'), ('Application.__call__', 'verktyg/application.py')],
     ['WSGI start_response and iterator, through a protocol monitor'],
     'online WSGI protocol monitor (own state machine) wrapped around the real application, plus byte exact comparison with what the view returned',
     'Every execution passes the monitor; statuses are swept exhaustively 100 to 599.')
prop('C07', 'Content-Length is truthful',
     'Whenever a response carries a Content-Length for a message with a body, the number equals the number of body bytes that are sent, whatever mixture of text, bytes, charset, encoding state, iterables and in-place changes produced the body. Responses without entity (1xx, 204) carry 0 or none, and a stream that was not consumed is not consumed to compute it. Byte counts given by calculate_content_length agree.',
     ['inputs', 'histories'], 'all bodies (Unicode, charsets, chunkings, wrapped files) and histories of set_data, freeze, stream writes and header edits before sending',
     'Only ASCII bodies of a few bytes are tested.',
     ['verktyg/responses.py', 'verktyg/wsgi.py'],
     [('set_data', 'verktyg/responses.py'), ('get_wsgi_headers automatically_set_content_length', 'verktyg/responses.py'), ('make_sequence / freeze', 'verktyg/responses.py')],
     ['WSGI headers and body as seen by the server'],
     'conservation monitor: bytes delivered to the server are counted and compared with the header',
     'Generated histories of edits followed by sending.')
prop('C08', 'Clean-up runs exactly once for every way a request can end',
     'Every callback registered with call_on_close, every close method of a response iterable, wrapped file or body object, and the application teardown run exactly once after the server closes the response, whether the body was consumed fully, partly or not at all, raised midway, or was never started. They never run while the body is still being produced, they run in the documented order, and a request that fails before a response exists still leaves nothing open.',
     ['histories', 'fault_sequences', 'crash_points'], 'all response shapes, numbers of callbacks, middleware stacks, points at which the consumer stops or the producer fails',
     'Tests close one completely consumed response.',
     ['verktyg/responses.py', 'verktyg/wsgi.py', 'verktyg/application.py', 'verktyg/requests.py', 'verktyg/datastructures.py'],
     [('ClosingIterator', 'verktyg/wsgi.py'), ('BaseResponse.close / call_on_close', 'verktyg/responses.py'), ('FileWrapper.close', 'verktyg/wsgi.py')],
     ['close() of the iterable returned to the server'],
     'exactly-once monitor over the event log of counted close calls, with faults injected at every chunk index',
     'Stop and failure points are enumerated for every generated response.')
prop('C09', 'Concurrent requests do not influence each other',
     'Requests handled at the same time by one application, URL map or dispatcher produce the same responses as if handled one after the other, under every interleaving, including first requests on a freshly built application and routes added while others are served (each added route becomes visible as a whole). No request sees arguments, headers or bodies of another. Shared maps never expose a partly sorted or partly updated state.',
     ['schedules', 'histories'], 'all thread interleavings at line granularity of two to four requests, and free running thread stress',
     'There is no multi threaded test at all.',
     [R, 'verktyg/application.py', 'verktyg/dispatch.py', 'verktyg/responses.py', 'verktyg/requests.py'],
     [('URLMap.update lock and flag', R), ('per request state on request objects', 'verktyg/requests.py')],
     ['responses of each thread', 'URLMap.iter_routes / match'],
     'controlled scheduling of real threads (line level token scheduler with recorded choices) plus free running stress; sequential outcome is the oracle',
     'Interleavings are sampled, not enumerated; counts of distinct schedules are in the evidence.')
prop('C10', 'No header can be split by a value',
     'No public way of putting a value into a response or header collection can make the server send a header value containing CR or LF: the attempt is refused with ValueError, or the line break is encoded or removed. This covers header collections built, extended or edited in any way, header properties, cookies, redirects, authentication, disposition and options headers. A refused attempt leaves the headers as they were.',
     ['inputs', 'histories'], 'all entry points that end in a response header and all values containing CR, LF or both at any position',
     'One assertion tests one entry point with one value.',
     ['verktyg/http/basic.py', 'verktyg/http/cookies.py', 'verktyg/responses.py', 'verktyg/utils.py', 'verktyg/urls.py'],
     [('Headers value validation', 'verktyg/http/basic.py'), ('iri_to_uri of Location', 'verktyg/responses.py'), ('cookie quoting', 'verktyg/http/cookies.py')],
     ['WSGI header list handed to start_response', 'Headers.to_wsgi_list'],
     'taint style monitor on the header list given to start_response, over all entry points with CR/LF placed at every position',
     'Entry points are enumerated by hand.')
prop('C11', 'Headers is an ordered case-insensitive multimap',
     'A header collection behaves like an ordered list of name/value pairs: lookups, deletions and replacements ignore the case of names, adding keeps duplicates and order, setting replaces the first and removes all other entries of that name, and all other entries stay where they were. Copies are independent and equal. The read-only view of a WSGI environment shows exactly the headers in it, and removing hop-by-hop or entity headers removes exactly those.',
     ['histories', 'inputs'], 'all histories of operations on a header collection, names in any case, repeated names',
     'Tests run a dozen operations on three element lists.',
     ['verktyg/http/basic.py', 'verktyg/wsgi.py'], [('Headers', 'verktyg/http/basic.py'), ('EnvironHeaders', 'verktyg/wsgi.py')],
     ['Headers public methods'],
     'reference model checked after every operation of generated histories',
     'Histories of up to 40 operations.')
prop('C12', 'Multi-value dictionaries agree with their models',
     'MultiDict, OrderedMultiDict, CombinedMultiDict, TypeConversionDict and FileMultiDict behave like a mapping from keys to lists of values under every history of operations: single value access returns the first value, lists keep order of insertion, and all views (items, lists, values, keys, length, to_dict) agree with each other. The ordered variant keeps the order of all pairs across keys, the combined variant reads like the concatenation of its parts. Copies are independent, and comparison and type conversion follow the content.',
     ['histories', 'inputs'], 'all histories of operations, constructors and copies',
     'Tests exercise fixed sequences of a few operations.',
     ['verktyg/datastructures.py'], [('MultiDict / OrderedMultiDict / CombinedMultiDict', 'verktyg/datastructures.py')],
     ['public methods of the dictionaries'],
     'reference model (list of pairs) checked after every operation of generated histories',
     'Histories of up to 40 operations; values in lists are never empty.')
prop('C13', 'Immutable structures never change and copies keep their value',
     'Immutable lists, dicts, type conversion dicts and (ordered, combined) multi dicts, header views of requests, authorization and request cache control values can not be changed by any method or operator: every attempt raises TypeError and leaves content, hash and iteration unchanged. Equal immutable values of the same class hash equal. copy, deepcopy and pickle of every data structure give an equal object of the appropriate class, sharing no mutable state with the original.',
     ['inputs', 'histories'], 'all mutating methods and operators of all immutable classes, all contents',
     'Tests try a fixed list of methods on one small instance per class.',
     ['verktyg/datastructures.py', 'verktyg/http/auth.py', 'verktyg/http/basic.py', 'verktyg/http/cache_control.py'],
     [('Immutable*Mixin', 'verktyg/datastructures.py')],
     ['methods of the classes, hash, pickle'],
     'every mutator found by reflection on the class is called on generated contents; state before and after is compared',
     'Mutators are those of list, dict, set and the public methods of the classes.')
prop('C14', 'Typed header views write through and read back',
     'Setting a typed attribute of a response (dates, ages, lengths, header sets, cache control, content range, www-authenticate, mimetype parameters, etag) makes the raw header say exactly that, reading the attribute back gives an equal value, and removing it removes the header. In-place changes to a view (adding to a set, setting a directive, unsetting a range) update the header immediately. Reading never changes a header, and other headers are untouched.',
     ['histories', 'inputs'], 'all attributes, values and histories of reads, in-place edits, assignments and deletions, interleaved with raw header edits',
     'Each attribute is set once in the tests, with one value.',
     ['verktyg/responses.py', 'verktyg/http/basic.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py', 'verktyg/utils.py'],
     [('header_property', 'verktyg/utils.py'), ('on_update callbacks', 'verktyg/responses.py'), ('UpdateDictMixin', 'verktyg/datastructures.py')],
     ['Response attributes and Response.headers'],
     'reference model of attribute and raw header checked after every step of generated histories',
     'Header text is judged by independent parsers where the library defines the format.')
prop('C15', 'Header serialisation round trips',
     'For every value in the domain of a header type (lists, sets, dicts, options with parameters, etags, cache control, accept lists, authorization and www-authenticate), writing it and parsing the text again yields an equal value; quoting adds exactly what is needed so that separators, quotes, backslashes, spaces and empty strings inside values survive. Parsing tolerates white space around separators and equals signs and ignores empty list elements; authentication scheme names match in any case. Digest and basic credentials (Latin-1) decode to what the client encoded.',
     ['inputs'], 'all values of the header types, all characters allowed in header values',
     'Tests parse a handful of fixed headers per type.',
     ['verktyg/http/basic.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py'],
     [('quote/unquote_header_value', 'verktyg/http/basic.py'), ('parse/dump functions', 'verktyg/http/basic.py')],
     ['parse_* and dump_* functions, to_header methods'],
     'round trip monitor plus independent RFC 7230 tokenizer as second reader of the emitted text',
     'Values without CR/LF.')
prop('C16', 'Dates and byte ranges are exact',
     'Any date between years 1000 and 9999 written as HTTP date or cookie date reads back as the same second in UTC, whatever type (datetime, timestamp, tuple) it was given as, and the three HTTP date formats of one instant (two digit years meaning 1969 to 2068) parse equal. A single byte range header resolves against a length exactly as RFC 7233 says: the selected bytes are those requested, clipped to the content, and syntactically invalid, unsatisfiable or several ranges and other units select nothing and raise nothing. Range and Content-Range values round trip through their text.',
     ['inputs'], 'all instants, formats, lengths and range headers',
     'Tests use three dates and about ten range headers.',
     ['verktyg/http/cache_control.py', 'verktyg/http/basic.py', 'verktyg/http/cookies.py'],
     [('parse_date / http_date', 'verktyg/http/basic.py'), ('Range.range_for_length', 'verktyg/http/cache_control.py'), ('is_byte_range_valid', 'verktyg/http/cache_control.py')],
     ['parse_date, http_date, cookie_date, parse_range_header, Range, ContentRange'],
     'differential oracle: independent calendar arithmetic and range resolution on real byte strings',
     'Small lengths and ranges are swept exhaustively.')
prop('C17', 'Conditional requests are answered correctly',
     'A conditional response to GET (status 200) answers 304 without body exactly when the validators of the request say the client copy is current: a listed etag (weak comparison for If-None-Match, or *) or, when no etag is sent or the response has none, a modification date not older than the one of the response to the second; otherwise the full response is sent unchanged. If-Match, If-None-Match, If-Modified-Since, If-Unmodified-Since and If-Range headers parse to these meanings, and malformed validators never suppress the body. Etags generated from the same data are equal, from different data different.',
     ['inputs', 'configurations'], 'all combinations of validators, etags and dates',
     'Tests cover five combinations.',
     ['verktyg/http/cache_control.py', 'verktyg/responses.py', 'verktyg/wsgi.py'],
     [('is_resource_modified', 'verktyg/http/cache_control.py'), ('ETagResponseMixin.make_conditional', 'verktyg/responses.py'), ('ETags', 'verktyg/http/cache_control.py')],
     ['make_conditional and the WSGI response, is_resource_modified, ETags'],
     'decision table oracle evaluated on every generated validator combination and compared with the observed status and body',
     'Strong comparison subtleties of listed weak tags are outside the domain.')
prop('C18', 'Cookies survive the round trip to the client and back',
     'A cookie set on a response, sent back by a conforming client, is read by the next request with the same name and value for every Unicode value, and several cookies never interfere. All attributes given (expiry, max age, path, domain, secure, httponly) appear exactly once and unaltered, none appears that was not given; deleting a cookie produces an expired one with the same path and domain. The test client stores cookies over requests and sends exactly those whose host, path, secure flag and expiry fit the request.',
     ['inputs', 'histories'], 'all token names other than those of attributes (path, expires, secure, ...), all Unicode values, all attribute combinations, sequences of sets and deletes over several requests',
     'Tests use a few ASCII cookies.',
     ['verktyg/http/cookies.py', 'verktyg/responses.py', 'verktyg/test.py', 'verktyg/requests.py'],
     [('dump_cookie / parse_cookie', 'verktyg/http/cookies.py'), ('set_cookie / delete_cookie', 'verktyg/responses.py'), ('_TestCookieJar', 'verktyg/test.py')],
     ['Set-Cookie header, request.cookies'],
     'independent RFC 6265 user agent replays Set-Cookie headers into Cookie headers; values compared',
     'Names are tokens; values any text.')
prop('C19', 'Request bodies are never read past their declared length',
     'Whatever sequence of read, readline, readlines, iteration and exhaust calls is made on a request body, the bytes returned are in order exactly the first Content-Length bytes of the input, and not one byte more is taken from the server stream. If the client disconnects early the program gets the bytes that came and is told with ClientDisconnected before or instead of the end of the body: never a hang, made up data, or a truncated body that looks complete. get_data with or without caching returns the same bytes, and an absent or invalid length means an empty body.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of stream operations with all sizes, all lengths, all short-reading input streams and disconnection points',
     'Tests read one short body in a few ways.',
     ['verktyg/wsgi.py', 'verktyg/requests.py'],
     [('LimitedStream', 'verktyg/wsgi.py'), ('get_input_stream', 'verktyg/wsgi.py'), ('BaseRequest.get_data / stream', 'verktyg/requests.py')],
     ['wsgi.input calls, through a recording stream', 'bytes returned to the application'],
     'recording input stream with a tripwire behind the declared length; reference stream over the same bytes judges every call',
     'Short reads and disconnects injected at generated points.')
prop('C20', 'Line, chunk and file iteration do not depend on buffering',
     'Splitting a stream into lines or separator delimited chunks yields the same pieces for every buffer size and every way the data arrives in fragments, and for lines they are exactly those of the whole data (with \\n, \\r and \\r\\n as line ends, kept), for chunks the parts between separators; joined they give back the data. Wrapped files deliver exactly their bytes in blocks of at most the given size and stop at the end. Uploaded file objects iterate, save and read back exactly the bytes they contain.',
     ['inputs', 'schedules'], 'all byte and text strings, separators, buffer sizes, fragmentations and limits',
     'Tests use a dozen strings with one or two buffer sizes.',
     ['verktyg/wsgi.py', 'verktyg/http/basic.py'],
     [('make_line_iter / make_chunk_iter', 'verktyg/wsgi.py'), ('FileWrapper', 'verktyg/wsgi.py'), ('FileStorage', 'verktyg/http/basic.py')],
     ['pieces yielded'],
     'metamorphic and reference oracle: all buffer sizes and fragmentations of the same data compared with a one shot splitter',
     'Small inputs over a separator alphabet swept exhaustively, larger ones generated.')
prop('C21', 'Shared data stays inside its directory and is served exactly',
     'The static file middleware serves, for paths under an export, exactly the bytes of the regular file named by the rest of the path (for exports of a single file: requests for its exact name), with right length, type and validators, and passes every other request on unchanged to the wrapped application. No request path, however encoded, obtains the content of a file outside the exported directory or one that a disallow rule excludes. Served files are closed for every ending and 304 is only answered to GET and HEAD requests whose client copy is current.',
     ['inputs', 'configurations'], 'all exports, directory trees, disallow rules and request paths including dot segments, encoded and repeated separators and absolute paths',
     'Two existing files and one traversal are tested.',
     ['verktyg/wsgi.py', 'verktyg/utils.py'],
     [('SharedDataMiddleware.get_directory_loader', 'verktyg/wsgi.py'), ('SharedDataMiddleware.__call__', 'verktyg/wsgi.py'), ('is_allowed', 'verktyg/wsgi.py')],
     ['WSGI response, files opened (audit hook)'],
     'containment monitor: canary files around a scratch export plus a sys.audit hook recording every file opened; byte exact oracle for legal paths',
     'Runs in a scratch directory; symbolic links are outside the domain; paths with empty or dot segments are only checked for containment.')
prop('C22', 'Mounted applications see a consistent split of the path',
     'The dispatcher middleware forwards a request to the application with the longest mount point that is a segment-wise prefix of the path, or to the default application, calling exactly one. In the environment it passes on, SCRIPT_NAME and PATH_INFO joined equal the original path, SCRIPT_NAME grows by exactly the mount point, and everything else is unchanged. Header, path and host helpers of the nested application thus see the same URL as the outer one.',
     ['inputs', 'configurations'], 'all mount tables and paths, including nested mounts, repeated and trailing slashes and mounts that share a prefix',
     'Tests use one table with two mounts.',
     ['verktyg/wsgi.py', 'verktyg/application.py'], [('DispatcherMiddleware.__call__', 'verktyg/wsgi.py')],
     ['environ received by the mounted application'],
     'recording applications log the environ they get; longest-prefix model judges',
     'Path conservation is checked on every call. Mount points are non-empty segments without trailing slash; paths start with a slash or are empty.')
prop('C23', 'Only trusted hosts pass the host check',
     'With a list of trusted hosts, a request is accepted only if its host without port equals a listed name, or for a listed name that starts with a dot, is that domain itself or one below it; every other, malformed or undecodable host is refused with SecurityError (400). Prefixes, suffixes without a label boundary, ports, user info and address literals can not be used to pass. The host returned is the Host header (or the first X-Forwarded-Host value) as it was sent; without either it is the server name with the port unless that is the default of the scheme.',
     ['inputs', 'configurations'], 'all host header values, forwarded host values, ports, schemes and trust lists',
     'Six fixed pairs are tested.',
     ['verktyg/wsgi.py', 'verktyg/requests.py'], [('host_is_trusted', 'verktyg/wsgi.py'), ('get_host', 'verktyg/wsgi.py')],
     ['host_is_trusted, get_host, request.host'],
     'differential oracle: independent label-wise comparison judges each pair; near misses are derived from the trust list',
     'ASCII and IDNA names; X-Forwarded-Host as the code documents.')
prop('C24', 'Requests report the URL and headers the client sent',
     'The path, query, arguments, script root, base, full and root URLs, host, method, scheme and typed headers of a request are those of the URL and headers that produced its environment, for every Unicode path and query. URL to IRI and IRI to URI conversions are inverse to each other where both are defined, idempotent, ASCII for URIs, and never change which resource is denoted. Rebuilding the URL from the environment and requesting it again gives an equal environment.',
     ['inputs'], 'all Unicode paths, queries, hosts, ports, script roots and header values',
     'Tests use a handful of URLs.',
     ['verktyg/requests.py', 'verktyg/wsgi.py', 'verktyg/urls.py', 'verktyg/test.py'],
     [('get_current_url / get_query_string / get_path_info', 'verktyg/wsgi.py'), ('iri_to_uri / uri_to_iri', 'verktyg/urls.py'), ('BaseRequest attributes', 'verktyg/requests.py')],
     ['request attributes, get_current_url, EnvironBuilder'],
     'round trip and differential oracle using urllib.parse as independent implementation',
     'Hosts are valid names or addresses without user info; percent escapes are valid UTF-8; request paths start with exactly one slash.')
prop('C25', 'Hostile request data never crashes request processing',
     'No request, whatever bytes it carries in its path, query, headers, cookies or body length, makes parsing, attribute access, routing or negotiation raise anything but an HTTP exception (4xx, or 501), hang, or use time out of proportion to its size: malformed optional headers count as absent. The application answers each such request with a well formed response (an HTTP exception nobody handles goes to the server). Valid cookies, query arguments and entity tags next to malformed ones keep their meaning.',
     ['inputs'], 'all byte strings in every request header, path and query',
     'Tests contain about five malformed headers.',
     ['verktyg/requests.py', 'verktyg/http/basic.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py', 'verktyg/http/cookies.py', 'verktyg/accept/__init__.py', 'verktyg/routing.py', 'verktyg/wsgi.py', 'verktyg/urls.py'],
     [('parsers with fallbacks', 'verktyg/http/basic.py'), ('request attributes', 'verktyg/requests.py')],
     ['every attribute of the request, Application.__call__'],
     'coverage guided fuzzing of real requests under an exception and CPU-time monitor',
     'Latin-1 header text as a server delivers it; CPU time proportionality is checked with a generous budget (6 s for 24000 characters). Printing an unquotable If-Range tag is outside the domain.')
prop('C26', 'The test client delivers exactly the request described',
     'What a test describes (path, query, form fields, files, raw bodies, headers, method) is what the application receives, as read by independent parsers: every field and file once, those of one name in order, with its name, content type and bytes; the files given are closed afterwards. Attributes of the environ builder (base URL, query string, form, files, content type and length) read back as set, setting one side of a contradiction (input stream against form and files, query string against args) replaces the other, and contradictory descriptions and base URLs with a query or fragment are refused. The response object given back carries exactly the status, headers and body the application produced, including data passed to write(); buffered answers (also at the end of redirects) are read and closed when they are returned, others are neither read on nor closed before they are used. Cookies put into the client by hand or set by the application are sent until deleted or replaced. The objects a request is described with are left as they were, a builder can be used again, and a response wrapper is used for every answer, also after redirects and errors. Redirects are followed only when asked, only to the same host (and, when allowed, its subdomains), loops are detected and each resulting request has the URL of the location and the method GET, or for 307 the method of the request before.',
     ['inputs', 'histories'], 'all request descriptions and application behaviours, sequences of client requests',
     'Tests use the client as a tool but test it little: no multipart body is verified.',
     ['verktyg/test.py'], [('EnvironBuilder', 'verktyg/test.py'), ('encode_multipart / stream_encode_multipart', 'verktyg/test.py'), ('run_wsgi_app', 'verktyg/test.py'), ('Client.open', 'verktyg/test.py')],
     ['environ and body received, response returned'],
     'conservation monitor: recording application with its own strict multipart parser and urllib as second readers; model of the redirect graph',
     'Field names without quotes and line breaks; redirect locations are absolute; write() is called before the first block.')
prop('C27', 'File names and redirect pages are safe',
     'secure_filename returns, for every input, a name of ASCII letters, digits, dots, underscores and dashes that contains no path separator, does not start with a dot, is no reserved device name on Windows, and is stable when applied again; ordinary safe names are returned unchanged. Redirect responses carry the given code and point to the given location in encoded form, slash redirects to the same path with a slash and the same query on the same site, and the HTML body is always the same page: no tag or attribute in it comes from the location.',
     ['inputs'], 'all Unicode file names and locations',
     'Six names and four redirects are tested.',
     ['verktyg/utils.py', 'verktyg/exceptions.py'], [('secure_filename', 'verktyg/utils.py'), ('redirect', 'verktyg/utils.py'), ('append_slash_redirect', 'verktyg/utils.py')],
     ['return values, Location header, HTML body read by html.parser'],
     'safety automaton on every returned name; HTML body parsed by html.parser and compared',
     'Windows is simulated by a second copy of the module imported with os.name and os.path as there; dot segments in slash redirects are outside the domain.')
prop('C28', 'JSON views return what the view computed',
     'A JSON view answers with a body that decodes to exactly the value the view returned, as application/json with truthful length, in every debug setting (None is answered with 204, a Response is passed on as it is). Views, class views, JSON views and plain bindings, however they are registered, get exactly the requests for their endpoint and methods, with the application, the request and the converted URL values unchanged; HEAD falls back to GET. Values that can not be represented in JSON (NaN and infinity included) raise instead of producing invalid JSON silently. Methods without a view are refused with 405, endpoints without any view with 501, unknown paths with 404, and never reach another view.',
     ['inputs', 'configurations'], 'all JSON representable values, argument names and values, sets of views and methods',
     'Two views with fixed values are tested.',
     ['verktyg/views.py', 'verktyg/application.py', 'verktyg/dispatch.py'], [('View / ClassView / JsonView / expose / expose_json', 'verktyg/views.py'), ('Dispatcher.lookup', 'verktyg/dispatch.py'), ('BaseApplication._get_response', 'verktyg/application.py')],
     ['responses of an application'],
     'end to end comparison with the stdlib json decoder; recording views log what they were called with',
     'Dictionary keys are text; one view for each endpoint and method.')
prop('C29', 'Binding to a request uses the host and path it names',
     'A URL map bound to a WSGI environment matches, redirects and builds for exactly the site, script root, path and query the environment names. Without a server name the server is the Host header or, if there is none or it is empty, SERVER_NAME with the port unless that is the default of the scheme. With a server name the subdomain is what precedes it label by label in the host, ignoring case; a host that is not the server or below it matches no route at all (404), not even one with a variable subdomain. An explicitly given subdomain is used as it is. A host that is no valid name is refused with a 4xx HTTP exception, and the environment is not changed.',
     ['inputs', 'configurations'], 'all environments (hosts, ports, schemes, script roots, paths, queries), server names, subdomains and maps with subdomain or host routes',
     'The suite binds four environments; label boundaries, ports, case and foreign hosts combine.',
     [R], [('URLMap.bind_to_environ', R), ('URLMap.bind', R), ('MapAdapter.get_host', R)],
     ['MapAdapter.match, build, test', 'RequestRedirect.new_url'],
     'differential runtime oracle: an independent model of host, subdomain and script root predicts match, redirect and build for generated environments',
     'ASCII hosts; the Host header does not name the default port explicitly.')
prop('C30', 'Route factories are equivalent to writing routes out',
     'Submount, Subdomain, EndpointPrefix and RouteTemplate, nested to any depth, produce maps that behave like the flat list of routes with the prefix, subdomain or substituted text written into each route: every path matches alike and every build gives the same URL. All options of the inner routes (defaults, methods independent options, redirects, aliases, hosts, strictness, build only) keep their effect. Expanding a factory twice gives equal, independent routes.',
     ['configurations', 'inputs'], 'all nestings of factories around routes with all options',
     'One nesting is tested.',
     [R], [('RouteFactory.get_routes', R), ('RouteTemplate', R)],
     ['MapAdapter.match and build on both maps'],
     'differential monitor: factory map and hand flattened map are driven with the same matches and builds',
     'Template variables are plain text.')

prop('C31', 'Applications are assembled as declared',
     'An application has exactly the routes, converters, views, exception handlers, request and application mixins, configuration and middleware registered on its builder before it was built, in whatever order and form they were registered. Each middleware wraps all those added before it (the last is outermost), gets the arguments registered with it and sees every request once. Views get the application and a request of the registered request class with the default mixins unless switched off; the configuration can not be changed through the application; url_for gives URLs below the application root that the same application answers. Registering more on the builder later, or using another builder, changes nothing in an existing application.',
     ['configurations', 'histories'], 'all sequences of registrations on one or two builders, application roots, and requests to the applications built',
     'Tests build a handful of applications with one view or one middleware each.',
     ['verktyg/application.py', 'verktyg/views.py'], [('ApplicationBuilder', 'verktyg/application.py'), ('BaseApplication.__init__', 'verktyg/application.py'), ('url_for', 'verktyg/application.py')],
     ['Application.__call__', 'Application.url_for', 'Application.config'],
     'recording middleware, views and handlers; an offline checker compares their call log with the registration log',
     'One application per builder; mixins only add attributes.')
prop('C32', 'HTTP exceptions and abort carry the right status',
     'abort(code) raises exactly the exception class of that status code, with its code, reason phrase and description (the given one, else that of the class), for every code that has a class, and LookupError for every other one; a response given to abort is carried by the exception raised. Aborters with their own or additional mappings use these and leave the stock mapping and the given dictionaries alone. Wrapped exceptions are instances of both classes and keep both states. A missing query argument or header looked up in a view raises an error that is both KeyError and BadRequest (400), and all of these reach the handlers for their class or HTTPException with the same code.',
     ['inputs', 'configurations'], 'all status codes, stock classes, mappings, descriptions, missing names and handler sets',
     'Tests try one code and one custom mapping.',
     ['verktyg/exceptions.py', 'verktyg/datastructures.py', 'verktyg/wsgi.py'], [('Aborter', 'verktyg/exceptions.py'), ('HTTPException.wrap', 'verktyg/exceptions.py'), ('BadRequestKeyError', 'verktyg/exceptions.py')],
     ['abort', 'responses of an application'],
     'monitored raising: all codes exhaustively, generated mappings; an independent table of codes and reason phrases is the oracle',
     'The code table is exhaustive; mappings and requests are generated.')
prop('C33', 'Lazy and header backed attributes belong to one object',
     'A lazily computed attribute (cached_property) calls its function once per object, whatever that returns (None and false values included), and gives that very value from then on; a failure is passed on and not remembered; assignment replaces the value. Values belong to one attribute of one object: other objects, also equal ones or ones of other classes, are not influenced. A header backed attribute (header_property) reports the present header of its own object, converted, or the default if the header is absent or cannot be converted; assignment writes the converted value, deletion removes the header, both are refused when it is read only, and no other header changes. The attributes of a request do not depend on the order in which they are read or on other requests, and reading them does not change the environment of the request, which names the request only if it is populated; a shallow request refuses to touch the body.',
     ['inputs', 'histories'], 'all classes with such attributes, values, converters and histories of reading, assigning, deleting and changing headers over several objects',
     'Tests use one object and one attribute.',
     ['verktyg/utils.py', 'verktyg/requests.py', 'verktyg/responses.py'], [('cached_property', 'verktyg/utils.py'), ('header_property', 'verktyg/utils.py'), ('lazy attributes of requests', 'verktyg/requests.py')],
     ['attribute access', 'calls of the computing functions', 'headers'],
     'model based monitoring of attribute histories: every call of a computing function is recorded and compared with a model of what is cached',
     'Histories over several objects and classes at once.')

prop('C34', 'Converting URLs does not change what they address',
     'For an absolute URL with a host, or a path from the root, in which percent signs belong to escapes, iri_to_uri, uri_to_iri and url_fix give a URL with the same scheme, user name, password, host, port, path segments, query parameters and fragment once every component is split at its delimiters and percent decoded: data never becomes a delimiter and delimiters never become data. iri_to_uri and url_fix give only characters allowed in a URI (ASCII, no control characters, blanks, quotes, angle brackets or backslashes), uri_to_iri shows every escaped non-ASCII character and international host name as itself but keeps control characters and backslashes in the path escaped; all three leave their own results unchanged, converting to an IRI and back is lossless, escapes that are not UTF-8 affect nothing but themselves and are refused if errors are strict, and ports above 65535 are refused. url_fix also turns backslashes into slashes. encode_idna and decode_idna are inverse for canonical names of any number of labels. The Location of a response is the converted URL.',
     ['inputs'], 'all URLs with any scheme, user, international or numeric host, port and arbitrarily escaped components, of any length',
     'Tests convert about twenty fixed URLs.',
     ['verktyg/urls.py', 'verktyg/responses.py'], [('iri_to_uri / uri_to_iri / url_fix', 'verktyg/urls.py'), ('encode_idna / decode_idna', 'verktyg/urls.py'), ('Location in get_wsgi_headers', 'verktyg/responses.py')],
     ['return values', 'Location header'],
     'online oracle: a URL parser written from RFC 3986 takes the result of every conversion apart and compares it with the components given',
     'Generated URLs; host names from a table of known pairs.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                    'observe_at': p['observe'],
                    'hook_needed': None,
                }}) + '\n')
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, 'vf', 'props', p['id'].lower() + '.py')
        if os.path.exists(mod):
            checks.append({
                'property': p['id'],
                'quick_cmd': 'bash run.sh %s quick' % p['id'],
                'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
                'technique': 'runtime monitoring: ' + p['how'],
                'level': 'exploration',
                'level_note': p['note'] + ' Assurance is limited to the executions observed; counts are in the evidence file.',
            })
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': 'bash setup.sh',
            'checks': checks,
            'not_applicable': na,
            'notes': 'No hooks in /repo are needed: the library is observed through its public API, the WSGI interface, sys.monitoring, sys.audit and recording streams. /repo is imported from source on every run.',
        }, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
