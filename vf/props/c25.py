"""Hostile request data never crashes request processing."""
import io
import time

from vf.engine import Scenario
from vf import gen, rfc
from vf.server import serve

RULE = ('requests whose path, query, headers and length are hostile byte '
        'strings: mutations of valid values, fragments of grammars, '
        'literals of the code and noise; every public attribute of the '
        'request is read and a whole application answers it; only HTTP '
        'exceptions may leave; long repetitive values run under a CPU time '
        'budget; valid list items among malformed ones are compared; '
        'distinct = hash of the request')
ASSUMPTIONS = ['header text is latin-1 without line breaks, as servers '
               'deliver it', 'the environ has the keys PEP 3333 requires',
               'out of proportion: more than 6 CPU seconds for a value of '
               '24000 characters', 'responses with a Location need a well '
               'formed Host']
REQUIRED = {'attribute-read': 60000, 'hostile-request': 2500,
            'http-exception': 20, 'method-called': 5000,
            'answered': 2000, 'answer-2xx': 500, 'answer-4xx': 300,
            'answer-3xx': 20, 'bad-host': 200, 'bad-path': 800,
            'bad-query': 800, 'negotiated': 800, 'long-value': 300,
            'cookie-kept': 300, 'argument-kept': 300, 'etag-kept': 300,
            'absent': 1500, 'parser-called': 8000, 'empty-value': 300}

LATIN = ''.join(chr(c) for c in range(256) if c not in (10, 13))
HEADERS = ['COOKIE', 'ACCEPT', 'ACCEPT_LANGUAGE', 'ACCEPT_CHARSET',
           'IF_NONE_MATCH', 'IF_MATCH', 'IF_RANGE', 'RANGE',
           'CACHE_CONTROL', 'AUTHORIZATION', 'PRAGMA', 'DATE',
           'IF_MODIFIED_SINCE', 'IF_UNMODIFIED_SINCE', 'X_FORWARDED_FOR',
           'X_FORWARDED_HOST', 'MAX_FORWARDS', 'REFERER',
           'X_REQUESTED_WITH', 'CONTENT_ENCODING', 'CONTENT_MD5',
           'ACCEPT_ENCODING', 'USER_AGENT']
VALID = {
    'COOKIE': ['a=b; c="d\\"e\\073"', 'x=', 'a=b', '$Version=1; k=v'],
    'ACCEPT': ['text/html;q=0.5, */*', 'a/b;level=1', '*/*;q=0',
               'text/html;level="1"'],
    'ACCEPT_LANGUAGE': ['en-gb;q=0.3, de', '*', 'en'],
    'ACCEPT_CHARSET': ['utf-8;q=0.1, *', 'latin1'],
    'IF_NONE_MATCH': ['"a", W/"b"', '*', 'w/"x"', 'abc'],
    'IF_MATCH': ['"a", W/"b"', '*', '""'],
    'IF_RANGE': ['"a"', 'W/"b"', 'Sun, 06 Nov 1994 08:49:37 GMT'],
    'RANGE': ['bytes=0-1', 'bytes=-5,1-', 'items=1-2', 'bytes=5-2'],
    'CACHE_CONTROL': ['max-age=5, no-cache', 'private="a,b"', 'no-store',
                      'max-stale'],
    'AUTHORIZATION': ['Basic YTpi', 'Basic dXNlcg==', 'Basic ====',
                      'Digest username="a", realm="b", nonce="c", uri="/", '
                      'response="d", qop=auth, nc=00000001, cnonce="x"',
                      'digest qop="auth,auth-int"', 'Basic', 'Digest',
                      'Bearer abc'],
    'PRAGMA': ['no-cache', 'a="b, c", d'],
    'DATE': ['Sun, 06 Nov 1994 08:49:37 GMT',
             'Sunday, 06-Nov-94 08:49:37 GMT', 'Sun Nov  6 08:49:37 1994',
             'Sun, 06 Nov 1994 08:49:37 +9999',
             'Sun, 06 Nov 0000 08:49:37 GMT',
             'Sun, 06 Nov 1994 08:49:37 -999999999',
             'Sun, 99 Foo 1994 99:99:99 GMT', '0001-01-01',
             'Sat, 01 Jan 0001 00:00:00 +2359',
             'Fri, 31 Dec 9999 23:59:59 -2359', '1 Jan'],
    'X_FORWARDED_FOR': ['1.2.3.4, 5.6.7.8', ','],
    'X_FORWARDED_HOST': ['example.org', 'a, b', 'a:80'],
    'MAX_FORWARDS': ['5', '-1', '1_0', '\xb2'],
    'REFERER': ['http://a/b?c#d'],
    'X_REQUESTED_WITH': ['XMLHttpRequest'],
    'CONTENT_TYPE': ['text/html; charset=utf-8',
                     'multipart/form-data; boundary="x\\"y"', ';', 'a;b',
                     'application/x-www-form-urlencoded',
                     'a/b; filename="\\\\x\\y"'],
    'CONTENT_LENGTH': ['5', '-5', '0', 'x', '1' * 30, ' 3 ', '1_0', '\xb2',
                       '9' * 5000],
}
VALID['IF_MODIFIED_SINCE'] = VALID['IF_UNMODIFIED_SINCE'] = VALID['DATE']
HOSTS = ['[', ']', '[::1', 'a]b', 'a:b', 'a:99999', ':', '', 'a b', '@',
         'a/b', '\xe4', '\xff.com', 'xn--', 'xn--\xff', 'a' * 300, '..',
         '.a', 'a:80:80', '[::1]x', 'a?b', 'a#b', '%41', 'xn--a-\xe4.b',
         '[v1.a]', '[]', 'a\x00b', 'a:-1', 'a:\xb2', 'xn--0', '\u2100'[:0],
         'a.' + 'b' * 64 + '.c', 'xn--99999999', '\xad', 'a:0', 'a:']


def mutated(src, s):
    """A value that was valid once."""
    n = src.int(1, 4)
    for _ in range(n):
        i = src.draw(len(s) + 1)
        k = src.draw(6)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + src.choice(LATIN) + s[i:]
        elif k == 2:
            s = s[:i] + src.choice(('"', '\\', ',', ';', '=', ' ', '-', '/',
                                    '*', '\xff', '\x00', '%', '==', '"\\',
                                    '\t', "''", ':', '\x85', '\xb2', '9' * 20,
                                    '99999999999', '.', '+')) + s[i:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            s = s[i:] + s[:i]
        else:
            s = s[:i] + gen.latin1(src, 60) + s[i:]
    return s


def value(src, name):
    k = src.draw(6)
    pool = VALID.get(name)
    if k < 4 and pool:
        v = src.choice(pool)
        return mutated(src, v) if k else v
    if k == 4:
        return src.choice(VALID[src.choice(sorted(VALID))])
    return gen.latin1(src)


def raw_path(src):
    k = src.draw(6)
    if k == 0:
        return gen.latin1(src)
    if k == 1:
        return '/' + src.text(LATIN, 6)
    if k == 2:
        return src.choice(('', '/', '//', '/\xff', '/\xc3', '/int/\xb2',
                           '/\xc2\xb2', '/int/\xc2\xb2', '/..', '/%', '|',
                           '/a|b', '/\x00', '/.', '/int/\xd9\xa1',
                           '/float/1.\xd9\xa1', '/x\\y', '*'))
    return '/' + src.choice(('int', 'float', 'str', 'path', 'any', 'uuid',
                             'slash', 'json', 'num')) + src.choice((
        '/', '', '//', '/x/', '/a b')) + src.choice((
            '', '1', '-1', '1.5', '9' * 400, '9' * 5000, 'x', '\xff', 'a/b',
            '\xc3\xa4', '\xc2\xb2', '1_0', '+1', '1e5', '.', '%2F', 'nan',
            '0x1', '01', '\x00', '\xe2\x80\xae',
            '00000000-0000-0000-0000-000000000000'))


def raw_query(src):
    return src.choice((
        '', 'a=b', '%', '%zz=%', '&&&', '=', '=&=', 'a=%ff', '%C3', '+',
        'a=1;b=2', '\xff=\xfe', '#', '?', 'a=\x00', '&'.join(['a'] * 50),
        src.text(LATIN, 6), gen.latin1(src), mutated(src, 'a=b&c=%C3%A4'),
        mutated(src, 'x=%41+&y==z')))


def hostile(src, ev, bad_host=True):
    p, q = raw_path(src), raw_query(src)
    env = gen.environ('/', '')
    env['PATH_INFO'] = p
    env['QUERY_STRING'] = q
    env['REQUEST_METHOD'] = src.choice((
        'GET', 'GET', 'GET', 'POST', 'HEAD', 'get', '', 'X\xff', 'OPTIONS',
        'PUT', gen.latin1(src, 20)))
    env['SCRIPT_NAME'] = src.choice(('', '', '', '/x', '/\xff', 'x', '/a b',
                                     gen.latin1(src, 20)))
    body = bytes(src.draw(256) for _ in range(src.int(0, 8)))
    env['wsgi.input'] = io.BytesIO(body + b'next request')
    env['CONTENT_LENGTH'] = src.choice((
        str(len(body)), value(src, 'CONTENT_LENGTH')))
    if src.bool(1, 8):
        del env['CONTENT_LENGTH']
    env['CONTENT_TYPE'] = value(src, 'CONTENT_TYPE')
    if src.bool(1, 8):
        del env['CONTENT_TYPE']
    for name in src.sublist(HEADERS):
        if name == 'X_FORWARDED_HOST' and not bad_host:
            continue
        env['HTTP_' + name] = value(src, name)
        if not env['HTTP_' + name]:
            ev.hit('empty-value')
    for _ in range(src.int(0, 2)):
        n = gen.text(src, gen.ASCII + '_', 4, lo=1).upper()
        if n not in ('HOST', 'X_FORWARDED_HOST'):
            env['HTTP_' + n] = gen.latin1(src)
    if bad_host and src.bool(1, 4):
        env['HTTP_HOST'] = src.choice((src.choice(HOSTS), gen.latin1(src)))
        ev.hit('bad-host')
    ev.note(environ={k: v for k, v in env.items()
                     if isinstance(v, str) and k.isupper()})
    ev.hit('bad-path')
    ev.hit('bad-query')
    ev.hit('hostile-request')
    return env


SKIP = {'from_values', 'application', 'app', 'close', 'call_on_close'}


def walk(ev, v, depth=0):
    """Look at a value the way a program would."""
    from verktyg.http import IfRange
    if isinstance(v, type) or callable(v) and not hasattr(v, 'to_header'):
        return
    bool(v)
    if isinstance(v, IfRange):
        # formatting refuses tags that can not be quoted
        repr((v.etag, v.date))
        return
    repr(v)
    str(v)
    if depth < 2 and hasattr(v, '__iter__') and not isinstance(
            v, (str, bytes)) and not hasattr(v, 'read'):
        for i, x in enumerate(v):
            walk(ev, x, depth + 1)
            if i > 20:
                break
    if hasattr(v, 'to_header'):
        ev.ok(isinstance(v.to_header(), str), 'to-header')
    for name in dir(v):
        if name.startswith('_') or isinstance(v, (
                str, bytes, int, float, dict, list, tuple)):
            continue
        a = getattr(v, name)
        if not callable(a):
            repr(a)


def attributes(src, ev):
    """Everything a program can read."""
    from verktyg.exceptions import HTTPException
    from verktyg.requests import Request, BaseRequest, PlainRequest
    env = hostile(src, ev)
    cls = src.choice((Request, Request, BaseRequest, PlainRequest))
    req = cls(env)
    if src.bool(1, 4):
        req.trusted_hosts = ['example.org', '.a']
    names = [n for n in dir(req) if not n.startswith('_')
             and n not in SKIP]
    seen = {}
    for n in src.shuffle(list(names)):
        ev.note(attribute=n)
        try:
            v = getattr(req, n)
            if callable(v) and n in ('get_data', '__repr__'):
                v = v()
                ev.hit('method-called')
            if not callable(v):
                walk(ev, v)
        except HTTPException as e:
            ev.ok(400 <= e.code < 500, 'not-a-client-error', code=e.code)
            ev.hit('http-exception')
            seen[n] = e.code
        ev.hit('attribute-read')
    repr(req)
    ev.key(sorted((k, v) for k, v in env.items() if isinstance(v, str)))
    ev.case()


def parsers(src, ev):
    """The parsers themselves."""
    from verktyg import http
    from verktyg.wsgi import (
        host_is_trusted, get_content_length, get_host, get_current_url,
        get_query_string, get_path_info, get_script_name)
    from verktyg.exceptions import HTTPException
    from verktyg.accept import select_representation, Representation
    fns = [n for n in dir(http) if n.startswith('parse_')] + [
        'unquote_header_value', 'unquote_etag', 'is_hop_by_hop_header',
        'is_entity_header']
    v = value(src, src.choice(sorted(VALID)))
    for n in fns:
        fn = getattr(http, n, None)
        if fn is None:
            continue
        ev.note(parser=n, value=v)
        walk(ev, fn(v))
        ev.hit('parser-called')
    ev.note(parser='wsgi', value=v)
    try:
        host_is_trusted(v, ['example.org', '.a', 'xn--n3h.net'])
        select_representation(
            [Representation(content_type='text/html', language='en',
                            charset='utf-8')],
            accept=v if src.bool() else None,
            accept_language=v if src.bool() else None,
            accept_charset=v if src.bool() else None)
    except HTTPException as e:
        ev.ok(400 <= e.code < 500, 'not-a-client-error', code=e.code)
    ev.hit('negotiated')
    env = hostile(src, ev)
    for fn in (get_content_length, get_host, get_query_string, get_path_info,
               get_script_name, get_current_url):
        ev.note(parser=fn.__name__)
        try:
            fn(env)
        except HTTPException as e:
            ev.ok(400 <= e.code < 500, 'not-a-client-error', code=e.code)
        ev.hit('parser-called')
    ev.key(v)
    ev.case()


_apps = {}


def application(handlers):
    """An application that uses much of the library."""
    if handlers in _apps:
        return _apps[handlers]
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    from verktyg.exceptions import HTTPException
    from verktyg.views import View
    from verktyg.utils import redirect
    b = ApplicationBuilder()
    b.add_routes(
        Route('/', endpoint='all'), Route('/int/<int:v>', endpoint='v'),
        Route('/float/<float:v>', endpoint='v'),
        Route('/str/<v>', endpoint='v'), Route('/path/<path:v>',
                                               endpoint='v'),
        Route('/any/<any(a,b):v>', endpoint='v'),
        Route('/uuid/<uuid:v>', endpoint='v'),
        Route('/num/<int(fixed_digits=3, min=5):v>', endpoint='v'),
        Route('/slash/', endpoint='all'),
        Route('/slash/<v>/', endpoint='v'),
        Route('/json', endpoint='json'),
        Route('/json/<path:v>', endpoint='json'))

    def answer(app, req, v=None):
        text = repr((
            v, req.path, req.args, req.cookies, req.cache_control,
            req.if_match, req.if_none_match, req.if_modified_since,
            req.if_range.etag, req.range, req.authorization, req.content_type,
            req.mimetype, req.mimetype_params, req.pragma, req.date,
            req.access_route, req.is_xhr, req.content_length, req.headers,
            req.max_forwards, req.referrer))
        resp = Response(text)
        resp.set_etag('tag')
        resp.last_modified = 1000000
        for k, val in req.args.items():
            resp.set_cookie('seen', val)
        return resp.make_conditional(req)

    def reading(app, req, v=None):
        return Response(req.get_data() + repr(req.headers).encode())

    def other(app, req, v=None):
        return redirect(req.path)
    b.expose('all', methods=['GET'])(answer)
    b.expose('all', methods=['POST'])(reading)
    b.expose('v', methods=['GET'], content_type='text/html',
             language='en')(answer)
    b.expose('v', methods=['GET'], content_type='text/plain',
             charset='utf-8', language='de')(answer)
    b.expose('v', methods=['POST', 'PUT'])(reading)
    b.expose('json', methods=['GET'], content_type='application/json')(
        reading)
    b.expose('json', methods=['OPTIONS'])(other)
    if handlers:
        def handle(app, req, exc_type, exc_value, tb):
            return Response(exc_value.name, status=exc_value.code)
        b.add_exception_handler(HTTPException, handle)
        b.add_exception_handler(HTTPException, handle,
                                content_type='text/html')
    app = b('http://localhost/')
    _apps[handlers] = app
    return app


def answers(src, ev):
    from verktyg.exceptions import HTTPException
    env = hostile(src, ev, bad_host=False)
    handlers = src.bool(3, 4)
    app = application(handlers)
    res = serve(app, env, ev, expect=(HTTPException,))
    if res.error is not None:
        ev.ok(not handlers, 'unhandled', error=res.error)
        ev.ok(400 <= res.error.code < 500 or res.error.code in (501,),
              'not-a-client-error', code=res.error.code)
        ev.hit('answer-4xx')
    else:
        ev.ok(200 <= res.code < 500 or res.code == 501, 'server-error',
              status=res.status)
        ev.hit('answer-%dxx' % (res.code // 100))
    ev.hit('answered')
    ev.key(sorted((k, v) for k, v in env.items() if isinstance(v, str)))
    ev.case()


UNITS = ['"', '\\', '\\"', ',', ';', '=', ' ', 'a', 'a=', 'a=b;', 'a,', '";',
         '" ', 'W/', 'W/"a",', '"a",', '; ', '= ', ' ,', '\t', '*', '/',
         'a/b,', 'a/b;q=1,', '1-2,', '-', '%', '%41', '&', '&=', 'a=b&',
         '\\1', '\\101', '\xe4', '(', ')', '9', 'en-', '.', '::', '@', '[',
         ' =', '="', '\\;', ',"', ' a', 'a ', '\x85', '\xa0']
LONG = 24000
BUDGET = 6.0


def long_values(src, ev):
    """Time stays in proportion to size."""
    from verktyg.exceptions import HTTPException
    from verktyg.requests import Request
    from verktyg.accept import select_representation, Representation
    unit = src.choice(UNITS)
    if src.bool(1, 3):
        unit += src.choice(UNITS)
    if src.bool(1, 6):
        unit = gen.latin1(src, 10) or 'x'
    pre = src.choice(('', '', '"', 'a="', 'a=', 'digest ', 'digest a="',
                      'bytes=', 'basic ', 'Sun, ', 'text/html;', 'a;b="',
                      'en;q=', 'max-age=', 'W/"'))
    suf = src.choice(('', '"', '!', '=\x00', ';', ',x', '\\'))
    v = pre + unit * (LONG // len(unit)) + suf
    key, attrs = src.choice((
        ('HTTP_COOKIE', ['cookies']),
        ('HTTP_IF_NONE_MATCH', ['if_none_match']),
        ('HTTP_IF_RANGE', ['if_range']), ('HTTP_RANGE', ['range']),
        ('HTTP_CACHE_CONTROL', ['cache_control']),
        ('HTTP_AUTHORIZATION', ['authorization']),
        ('CONTENT_TYPE', ['mimetype', 'mimetype_params']),
        ('HTTP_PRAGMA', ['pragma']), ('HTTP_DATE', ['date']),
        ('HTTP_IF_MODIFIED_SINCE', ['if_modified_since']),
        ('QUERY_STRING', ['args', 'url', 'query_string']),
        ('HTTP_X_FORWARDED_FOR', ['access_route']),
        ('HTTP_HOST', ['url', 'host']),
        ('PATH_INFO', ['path', 'url', 'base_url']),
        ('CONTENT_LENGTH', ['content_length']),
        ('ACCEPT', []), ('ROUTE', [])))
    env = gen.environ('/')
    env[key] = v
    ev.note(header=key, unit=unit, prefix=pre, suffix=suf, length=len(v))
    t = time.process_time()
    try:
        if key == 'ACCEPT':
            select_representation(
                [Representation(content_type='text/html', language='en',
                                charset='utf-8')],
                accept=v, accept_language=v, accept_charset=v)
        elif key == 'ROUTE':
            env['PATH_INFO'] = '/' + src.choice((
                'path', 'int', 'str', 'float', 'slash')) + '/' + v
            serve(application(True), env, ev)
        else:
            req = Request(env)
            if src.bool(1, 8):
                req.trusted_hosts = ['example.org']
            for a in attrs:
                walk(ev, getattr(req, a))
    except HTTPException:
        pass
    t = time.process_time() - t
    ev.ok(t < BUDGET, 'out-of-proportion', cpu_seconds=t)
    ev.hit('long-value')
    ev.key(key, unit, pre, suf)
    ev.case()


JUNK = ['', ' ', 'x', '%', '%zz', '\xff', '\x00', 'a b', '=x', '=', '\t',
        '==', '/', '*', '\xe4', ':', '@', '(', '\\', "'", '%%%', '?', '#']


def lists(src, ev):
    """Valid items survive malformed neighbours; malformed headers count as
    absent."""
    from verktyg.requests import Request
    kind = src.draw(4)
    n = src.int(1, 4)
    if kind == 0:
        good = [('k%d' % i, src.text(gen.ASCII, 4)) for i in range(n)]
        items = ['%s=%s' % p for p in good] + [
            src.choice(JUNK) for _ in range(src.int(1, 4))]
        h = src.choice(('; ', ';')).join(src.shuffle(items))
        env = gen.environ('/', HTTP_COOKIE=h)
        ev.note(header=h)
        req = Request(env)
        for k, v in good:
            ev.eq(req.cookies.get(k), v, 'cookie-lost')
        ev.hit('cookie-kept')
    elif kind == 1:
        good = [('k%d' % i, src.text(gen.ASCII, 4)) for i in range(n)]
        items = ['%s=%s' % p for p in good] + [
            src.choice(JUNK) for _ in range(src.int(1, 4))]
        h = '&'.join(src.shuffle(items))
        ev.note(query=h)
        req = Request(gen.environ('/', h))
        for k, v in good:
            ev.eq(req.args.get(k), v, 'argument-lost')
        ev.hit('argument-kept')
    elif kind == 2:
        good = [src.text(gen.ASCII + ' ', 4) for _ in range(n)]
        items = ['"%s"' % t for t in good] + [
            src.choice([j for j in JUNK if j != '*'])
            for _ in range(src.int(1, 4))]
        h = src.choice((', ', ',')).join(src.shuffle(items))
        ev.note(etags=h)
        req = Request(gen.environ('/', HTTP_IF_NONE_MATCH=h,
                                  HTTP_IF_MATCH=h))
        for t in good:
            ev.ok(req.if_none_match.contains(t), 'etag-lost', etag=t)
            ev.ok(req.if_match.contains(t), 'etag-lost', etag=t)
        ev.ok(not req.if_none_match.contains('never sent'), 'etag-invented')
        ev.hit('etag-kept')
    else:
        g = src.text('ghjkvwxz\xe4~', 5, lo=1)
        env = gen.environ('/', CONTENT_LENGTH=g)
        for name in ('DATE', 'IF_MODIFIED_SINCE', 'IF_UNMODIFIED_SINCE',
                     'RANGE', 'AUTHORIZATION', 'MAX_FORWARDS'):
            env['HTTP_' + name] = g
        ev.note(garbage=g)
        req = Request(env)
        for a in ('date', 'if_modified_since', 'if_unmodified_since',
                  'range', 'authorization', 'max_forwards',
                  'content_length'):
            ev.eq(getattr(req, a), None, 'not-absent', attribute=a)
            ev.hit('absent')
        ev.eq(req.get_data(), b'', 'not-absent', attribute='body')
    ev.case()


def singles(ev):
    """Every byte alone, doubled and next to an ordinary value in every
    header."""
    from verktyg.exceptions import HTTPException
    from verktyg.requests import Request
    for c in LATIN:
        for v in (c, c * 2, c + 'a', 'a' + c, 'a=' + c, 'a="' + c + '"',
                  'basic ' + c, 'bytes=' + c, 'bytes=1' + c + '2',
                  'Sun, 0' + c + ' Nov 1994 08:49:37 GMT', '1' + c):
            env = gen.environ('/', v)
            env['PATH_INFO'] = '/' + v
            env['CONTENT_LENGTH'] = env['CONTENT_TYPE'] = v
            for n in HEADERS:
                env['HTTP_' + n] = v
            ev.note(value=v)
            req = Request(env)
            for n in dir(req):
                if n[0] == '_' or n in SKIP:
                    continue
                ev.note(attribute=n)
                try:
                    walk(ev, getattr(req, n))
                except HTTPException as e:
                    ev.ok(400 <= e.code < 500, 'not-a-client-error')
                ev.hit('attribute-read')


DIRECTED = [('singles', singles)]
SCENARIOS = [
    Scenario('attributes', attributes, 2500),
    Scenario('parsers', parsers, 1500),
    Scenario('answers', answers, 3000),
    Scenario('long_values', long_values, 250),
    Scenario('lists', lists, 1200),
]
