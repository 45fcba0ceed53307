"""The WSGI protocol, end to end."""
import io
from urllib.parse import unquote_to_bytes, urlsplit, quote

from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('generated responses (body shapes, statuses, headers, locations) '
        'sent directly and through applications with middleware; every '
        'execution passes a PEP 3333 monitor and the received message is '
        'compared with what the view set; distinct = hash of status, '
        'headers, body shape, method and environment')
ASSUMPTIONS = [
    'statuses are integers of three digits or strings starting with such',
    'Location, Content-Location and Content-Length appear at most once',
    'header values are Latin-1 text without line breaks',
]
REQUIRED = {'start-response': 8000, 'chunk': 8000, 'head': 1000,
            'no-body-status': 800, 'location': 1000, 'location-unicode': 200,
            'content-location': 300, 'middleware': 1000, 'redirect': 200,
            'error-handler': 300, 'app': 3000, 'direct': 3000,
            'status-sweep': 500, 'entity-stripped': 100, 'from-app': 500,
            'direct-passthrough': 300, 'stream-written': 300,
            'start-after-middleware': 100, 'slash-redirect': 300}

NAMES = ('X-A', 'x-b', 'Set-Cookie', 'Vary', 'Server', 'ETag',
         'Content-Language', 'Allow', 'Last-Modified', 'Expires', 'Link',
         'Content-Encoding', 'Content-MD5', 'Cache-Control')
ENTITY = {'allow', 'content-encoding', 'content-language', 'content-length',
          'content-md5', 'content-range', 'content-type', 'last-modified'}
PHRASE = {200: 'OK', 201: 'CREATED', 204: 'NO CONTENT', 206:
          'PARTIAL CONTENT', 301: 'MOVED PERMANENTLY', 302: 'FOUND',
          303: 'SEE OTHER', 304: 'NOT MODIFIED', 307: 'TEMPORARY REDIRECT',
          400: 'BAD REQUEST', 401: 'UNAUTHORIZED', 403: 'FORBIDDEN',
          404: 'NOT FOUND', 405: 'METHOD NOT ALLOWED', 500:
          'INTERNAL SERVER ERROR', 503: 'SERVICE UNAVAILABLE',
          100: 'CONTINUE', 101: 'SWITCHING PROTOCOLS', 202: 'ACCEPTED',
          205: 'RESET CONTENT', 300: 'MULTIPLE CHOICES', 305: 'USE PROXY',
          406: 'NOT ACCEPTABLE', 408: 'REQUEST TIMEOUT', 409: 'CONFLICT',
          410: 'GONE', 411: 'LENGTH REQUIRED', 412: 'PRECONDITION FAILED',
          413: 'REQUEST ENTITY TOO LARGE', 415: 'UNSUPPORTED MEDIA TYPE',
          422: 'UNPROCESSABLE ENTITY', 423: 'LOCKED',
          424: 'FAILED DEPENDENCY', 426: 'UPGRADE REQUIRED',
          501: 'NOT IMPLEMENTED', 502: 'BAD GATEWAY',
          504: 'GATEWAY TIMEOUT'}
SEG = ('a', 'b', 'foo', u'\xe4', u'\u2603', 'x y', 'a%20b', '%C3%A4', 'a+b',
       "it's", 'a:b', 'a@b', '~', '(1)', 'a,b', 'a|b', '<x>', '"q"')


class Body(object):
    """A body in some shape; .want(charset) is what must be sent."""

    def __init__(self, shape, pieces):
        self.shape = shape
        self.pieces = pieces

    def want(self, charset):
        return b''.join(p.encode(charset) if isinstance(p, str) else bytes(p)
                        for p in self.pieces)

    def value(self):
        s, p = self.shape, self.pieces
        if s == 'none':
            return None
        if s in ('str', 'bytes'):
            return p[0]
        if s == 'bytearray':
            return bytearray(p[0])
        if s == 'list':
            return list(p)
        if s == 'tuple':
            return tuple(p)
        if s == 'generator':
            return (x for x in p)
        if s == 'iterator':
            return iter(p)
        if s == 'object':
            return Iterable(p)
        if s == 'map':
            return map(lambda x: x, p)
        raise AssertionError(s)


class Iterable(object):
    def __init__(self, p):
        self.p = p

    def __iter__(self):
        return iter(list(self.p))


def body(src, charset='utf-8', passthrough=False):
    shape = src.choice(('str', 'bytes', 'none', 'list', 'tuple', 'generator',
                        'iterator', 'object', 'bytearray', 'map'))

    def piece():
        if src.bool() and not passthrough:
            s = gen.text(src, src.choice(('ab', gen.PRINTABLE,
                                          gen.PRINTABLE + gen.UNI, '\r\n<&')))
            return s.encode(charset, 'ignore').decode(charset)
        return bytes(bytearray(src.draw(256)
                               for _ in range(src.size(4)))) * \
            src.choice((1, 1, 1, 1, 1, 300))
    if shape == 'none':
        return Body(shape, [])
    if shape == 'str':
        s = gen.text(src, src.choice(('ab', gen.PRINTABLE + gen.UNI)), 8,
                     3000)
        return Body(shape, [s.encode(charset, 'ignore').decode(charset)])
    if shape in ('bytes', 'bytearray'):
        p = piece()
        return Body(shape, [p.encode(charset) if isinstance(p, str) else p])
    return Body(shape, src.list(piece, 4, 60))


def status(src):
    """(argument, code, reason or None)"""
    k = src.draw(8)
    if k < 3:
        c = src.choice((200, 200, 201, 204, 304, 404, 500, 301, 101, 100,
                        205, 206, 412))
        return c, c, PHRASE.get(c)
    if k < 5:
        c = src.int(100, 599)
        return c, c, PHRASE.get(c)
    if k < 7:
        return None, 200, 'OK'
    c = src.choice((200, 204, 304, 404, 599, 150, 299, 700))
    reason = src.choice(('Fine', 'Really OK', 'x', 'gone  away', '204'))
    return '%d %s' % (c, reason), c, reason


def location(src):
    """(text given, kind, [segments], query)"""
    kind = src.choice(('absolute', 'root', 'relative', 'same', 'network'))
    segs = [src.choice(SEG) for _ in range(src.int(1, 3))]
    q = src.choice(('', '', 'a=b', u'q=\xe4', 'a=%20+&b', 'x=/?'))
    return kind, segs, q


def quoted(s):
    """Percent decoded octets: equal for every equivalent encoding."""
    return unquote_to_bytes(s.encode('utf-8'))


def headers(src):
    out = []
    for _ in range(src.size(4, 30)):
        n = src.choice(NAMES)
        v = ''.join(c for c in gen.value(src)
                    if ord(c) < 256 and (ord(c) >= 32 or c == '\t') and
                    ord(c) != 127 and not 128 <= ord(c) < 160)
        out.append((n, v))
    return out


def plan(src, cls_options=True):
    """Everything about one response, and the expectations."""
    p = {}
    p['charset'] = src.choice(('utf-8', 'utf-8', 'utf-8', 'latin1',
                               'utf-16-le')) if cls_options else 'utf-8'
    p['status'] = status(src)
    p['headers'] = headers(src)
    p['body'] = body(src, p['charset'])
    p['ct'] = src.weighted([
        (4, None), (1, ('mimetype', 'text/html')),
        (1, ('mimetype', 'application/json')),
        (1, ('mimetype', 'application/xml')),
        (1, ('mimetype', 'application/atom+xml')),
        (1, ('mimetype', 'image/svg+xml')),
        (1, ('content_type', 'text/html')),
        (1, ('content_type', 'text/x-y; a=b')),
        (1, ('header', 'text/plain; charset=ascii'))])
    p['location'] = location(src) if src.bool(1, 4) else None
    p['content_location'] = location(src) if src.bool(1, 8) else None
    p['writes'] = src.list(
        lambda: gen.text(src, 'ab' + u'\xe4', 5) if src.bool() else b'\xffx',
        3) if src.bool(1, 6) else []
    p['explicit_length'] = src.bool(1, 10)
    p['headers_as'] = src.choice(('list', 'Headers', 'dict?'))
    p['autocorrect'] = not src.bool(1, 10)
    return p


def loc_text(loc, host):
    kind, segs, q = loc
    path = '/'.join(segs)
    text = {'absolute': u'http://\xfc.example:81/' + path,
            'same': 'http://%s/%s' % (host, path),
            'root': '/' + path,
            'network': '//other.example:82/' + path,
            'relative': 'rel/' + path}[kind]
    return text + ('?' + q if q else '')


def build(p, host):
    from verktyg.responses import Response
    from verktyg.http import Headers

    class R(Response):
        charset = p['charset']
        autocorrect_location_header = p['autocorrect']
    hs = list(p['headers'])
    kw = {}
    if p['ct']:
        if p['ct'][0] == 'header':
            hs.insert(len(hs) // 2, ('Content-Type', p['ct'][1]))
        else:
            kw[p['ct'][0]] = p['ct'][1]
    if p['location']:
        hs.append(('Location', loc_text(p['location'], host)))
    if p['content_location']:
        hs.append(('Content-Location', loc_text(p['content_location'],
                                                host)))
    if p['explicit_length'] and not p['writes']:
        hs.append(('content-length',
                   str(len(p['body'].want(p['charset'])))))
    # Location is text that need not be Latin-1 before it is sent
    h = Headers(hs) if p['headers_as'] == 'Headers' else hs
    if p['headers_as'] == 'list' and len(hs) % 2:
        h = [(k, v.encode('latin1') if v.isascii() and not k.istitle() else
              int(v) if v == '7' else v) for k, v in hs]
    if p['headers_as'] == 'dict?' and \
            len({k.lower() for k, _ in hs}) == len(hs):
        h = dict(hs)
    if p['status'][0] is not None:
        kw['status'] = p['status'][0]
    r = R(p['body'].value(), headers=h, **kw)
    for w in p['writes']:
        r.stream.write(w)
    return r


def resolve(loc, env, autocorrect):
    """Expected (scheme, netloc, decoded path, decoded query)."""
    kind, segs, q = loc
    path = '/'.join(segs)
    scheme = env['wsgi.url_scheme']
    host = env['HTTP_HOST']
    root = env['SCRIPT_NAME'].encode('latin1').rstrip(b'/') + b'/'
    if kind == 'absolute':
        return 'http', 'xn--tda.example:81', b'/' + quoted(path), quoted(q)
    if kind == 'same':
        return 'http', 'other.example', b'/' + quoted(path), quoted(q)
    if kind == 'network':
        return scheme if autocorrect else '', 'other.example:82', \
            b'/' + quoted(path), quoted(q)
    if not autocorrect:
        return '', '', (b'/' if kind == 'root' else b'rel/') + quoted(path), \
            quoted(q)
    if kind == 'root':
        return scheme, host, b'/' + quoted(path), quoted(q)
    return scheme, host, root + b'rel/' + quoted(path), quoted(q)


def judge(ev, p, env, res, extra=()):
    """Compare the message received with the plan."""
    code = p['status'][1]
    ev.eq(res.code, code, 'status-code')
    if p['status'][2] is not None:
        ev.eq(res.status[4:], p['status'][2], 'status-reason')
    charset = p['charset']
    want = p['body'].want(charset) + b''.join(
        w.encode(charset) if isinstance(w, str) else w for w in p['writes'])
    empty = 100 <= code < 200 or code in (204, 304)
    if empty or env['REQUEST_METHOD'] == 'HEAD':
        ev.eq(res.body, b'', 'body-for-bodyless-response')
        if empty:
            ev.hit('no-body-status')
        else:
            ev.hit('head')
    else:
        ev.eq(res.body, want, 'body-changed')
    special = ('content-type', 'content-length', 'location',
               'content-location')
    got = [(k.lower(), v) for k, v in res.headers
           if k.lower() not in special]
    exp = [(k.lower(), v) for k, v in list(p['headers']) + list(extra)
           if k.lower() not in special]
    if code == 304:
        before = exp
        exp = [(k, v) for k, v in exp if k not in ENTITY]
        if before != exp:
            ev.hit('entity-stripped')
    ev.eq(got, exp, 'headers-changed')
    # content type
    ct = res.get('content-type')
    if code == 304:
        ev.eq(ct, [], 'content-type-of-304')
    else:
        ev.eq(len(ct), 1, 'content-type-count')
        kind, val = p['ct'] or ('mimetype', 'text/plain')
        if kind == 'mimetype' and (
                val.startswith('text/') or val == 'application/xml' or
                val == 'application/atom+xml'):
            val += '; charset=' + charset
        ev.eq(ct[0], val, 'content-type')
    cl = res.get('content-length')
    ev.ok(len(cl) <= 1, 'content-length-count', got=cl)
    if cl and not empty:
        ev.eq(cl[0], str(len(want)), 'content-length')
    if code == 304:
        ev.eq(cl, [], 'content-length-of-304')
    for name, loc, fix in (('location', p['location'], p['autocorrect']),
                           ('content-location', p['content_location'],
                            False)):
        vs = res.get(name)
        if loc is None:
            ev.eq(vs, [], 'invented-' + name)
            continue
        ev.hit(name)
        ev.eq(len(vs), 1, name + '-count')
        ev.ok(vs[0].isascii() and ' ' not in vs[0] and '"' not in vs[0] and
              '<' not in vs[0], name + '-not-encoded', value=vs[0])
        if any(not s.isascii() for s in loc[1]):
            ev.hit('location-unicode')
        u = urlsplit(vs[0])
        ev.eq((u.scheme, u.netloc, quoted(u.path), quoted(u.query)),
              resolve(loc, env, fix), name, value=vs[0])


def environment(src):
    return gen.environ(
        src.choice(('/x', '/x/', '/')) if src.bool() else '/x',
        query=src.choice(('', 'a=b')),
        method=src.choice(('GET', 'GET', 'POST', 'HEAD', 'PUT')),
        script=src.choice(('', '', '/app', u'/\xe4 b', '/app/')),
        scheme=src.choice(('http', 'https')),
        host=src.choice(('localhost', 'example.org:8080', '127.0.0.1')))


def direct(src, ev):
    """A response object called as application."""
    p = plan(src)
    env = environment(src)
    r = build(p, 'other.example')
    before = list(r.headers)
    if p['location'] and p['location'][0] == 'same':
        env['HTTP_HOST'] = 'other.example'
    ev.note(plan={k: v for k, v in p.items() if k != 'body'},
            shape=p['body'].shape, pieces=p['body'].pieces,
            method=env['REQUEST_METHOD'])
    app = r
    if src.bool(1, 3):
        # the documented tuple interface
        def app(environ, start_response):
            it, st, hs = r.get_wsgi_response(environ)
            start_response(st, hs)
            return it
    ev.hit('direct')
    if p['writes']:
        ev.hit('stream-written')
    res = serve(app, env, ev)
    judge(ev, p, env, res)
    ev.eq(list(r.headers), before, 'sending-changed-the-response-headers')
    repeatable = p['body'].shape not in ('generator', 'iterator', 'map')
    if repeatable and src.bool(1, 3):
        # a response may be sent again, to another place as well
        env2 = environment(src) if src.bool() else env
        ev.note(second=(env2['REQUEST_METHOD'], env2['HTTP_HOST'],
                        env2['SCRIPT_NAME']))
        judge(ev, p, env2, serve(r, env2, ev))
        ev.hit('sent-again')
    ev.key(p['status'], p['headers'], p['body'].shape, p['body'].pieces,
           p['ct'], p['location'], p['writes'], env['REQUEST_METHOD'],
           env['SCRIPT_NAME'], env['HTTP_HOST'])
    ev.sample('response', status=res.status, headers=res.headers,
              body=res.body[:60])


def passthrough(src, ev):
    """direct_passthrough, wrapped files."""
    from verktyg.responses import Response
    from verktyg.wsgi import wrap_file, FileWrapper
    data = bytes(bytearray(src.draw(256) for _ in range(src.size(9)))) * \
        src.choice((1, 1, 7, 3000))
    env = environment(src)
    size = src.choice((1, 2, 7, 8192, 4096))
    how = src.draw(4)
    if how == 0:
        it = wrap_file(env, io.BytesIO(data), size)
    elif how == 1:
        it = FileWrapper(io.BytesIO(data), size)
    elif how == 2:
        import wsgiref.util
        env['wsgi.file_wrapper'] = wsgiref.util.FileWrapper
        it = wrap_file(env, io.BytesIO(data), size)
        ev.ok(type(it) is wsgiref.util.FileWrapper, 'server-wrapper-unused')
    else:
        it = [data[i:i + size] for i in range(0, len(data), size)] \
            if len(data) < 500 else [data]
    code = src.choice((200, 200, 206, 204, 304))
    r = Response(it, status=code, mimetype='image/png',
                 direct_passthrough=True)
    ev.hit('direct-passthrough')
    ev.note(data=data[:40], n=len(data), how=how, size=size, code=code)
    res = serve(r, env, ev)
    if code in (204, 304) or env['REQUEST_METHOD'] == 'HEAD':
        ev.eq(res.body, b'', 'body-for-bodyless-response')
    else:
        ev.eq(res.body, data, 'passthrough-body')
        if how == 2:
            pass
    ev.eq(res.code, code, 'status-code')
    ev.key(len(data), data[:20], how, size, code, env['REQUEST_METHOD'])


class Layer(object):
    """Middleware of the workload: tags the response, may buffer."""

    def __init__(self, app, log, name, buffer=False):
        self.app = app
        self.log = log
        self.name = name
        self.buffer = buffer

    def __call__(self, environ, start_response):
        self.log.append(self.name)

        def sr(status, headers, exc_info=None):
            return start_response(
                status, headers + [('X-Layer', self.name)])
        it = self.app(environ, sr)
        if not self.buffer:
            return it
        try:
            return [b''.join(it)]
        finally:
            if hasattr(it, 'close'):
                it.close()


def application(src, ev):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    from verktyg.exceptions import HTTPException, abort
    p = plan(src)
    env = environment(src)
    if p['location'] and p['location'][0] == 'same':
        env['HTTP_HOST'] = 'other.example'
    env['PATH_INFO'] = '/x'
    place = src.choice(('view', 'view', 'view', 'abort', 'missing', 'slash',
                        'method'))
    log, seen = [], []

    def view(app, req):
        seen.append(req)
        if place == 'abort':
            abort(src_code)
        return build(p, 'other.example')
    src_code = src.choice((400, 401, 403, 404, 410, 418, 500, 503))
    b = ApplicationBuilder()
    b.add_routes(Route('/x', endpoint='x'), Route('/dir/', endpoint='x'))
    b.expose('x', methods=['GET', 'POST', 'PUT'])(view)

    @b.exception_handler(HTTPException)
    def handle(app, req, t, e, tb):
        if place in ('abort', 'missing', 'method'):
            r = build(p, 'other.example')
            r.status_code = e.code
            return r
        raise e
    layers = [('m%d' % i, src.bool(1, 4)) for i in range(src.size(2, 6))]
    for name, buf in layers:
        b.add_middleware(Layer, log, name, buffer=buf)
    app = b('http://site.example/')
    code = None
    if place == 'missing':
        env['PATH_INFO'] = '/nothing'
        code = 404
    elif place == 'method':
        env['REQUEST_METHOD'] = 'DELETE'
        code = 405
    elif place == 'abort':
        code = src_code
    elif place == 'slash':
        env['PATH_INFO'] = '/dir'
    ev.note(plan={k: v for k, v in p.items() if k != 'body'},
            shape=p['body'].shape, pieces=p['body'].pieces, place=place,
            method=env['REQUEST_METHOD'], layers=layers)
    ev.hit('app')
    if layers:
        ev.hit('middleware')
    extra = [('X-Layer', n) for n, _ in layers]
    res = serve(app, env, ev)
    ev.eq(log, [n for n, _ in reversed(layers)], 'middleware-order')
    ev.ok(env.get('verktyg.application') is app, 'application-not-in-environ')
    if any(buf for _, buf in layers):
        ev.hit('start-after-middleware')
    if place == 'slash':
        ev.hit('redirect')
        ev.eq(seen, [], 'view-called-for-redirect')
        ev.eq(res.code, 301, 'redirect-code')
        u = urlsplit(res.one('location'))
        ev.eq((u.scheme, u.netloc, u.path, u.query),
              ('http', 'site.example', '/dir/', env['QUERY_STRING']),
              'redirect-location')
        ev.eq(res.get('x-layer'), [n for n, _ in layers], 'headers-changed')
        return
    if code is not None:
        ev.hit('error-handler')
        p = dict(p, status=(code, code, PHRASE.get(code)))
    judge(ev, p, env, res, extra)
    if place == 'view':
        ev.eq(len(seen), 1, 'view-call-count')
        ev.ok(seen[0].environ is env, 'view-request')
    ev.key('app', p['status'], p['headers'], p['body'].shape,
           p['body'].pieces, place, layers, env['REQUEST_METHOD'])


def from_app(src, ev):
    """Responses made from other applications keep the message."""
    from verktyg.responses import Response, BaseResponse
    hs = headers(src) + [('Content-Type', 'a/b')]
    chunks = [bytes(bytearray(src.draw(256) for _ in range(src.size(4))))
              for _ in range(src.size(4, 20))]
    code = src.choice(('200 OK', '404 Whatever', '204 No Content', '500 x'))
    env = environment(src)
    env['REQUEST_METHOD'] = 'GET'
    style = src.choice(('list', 'generator', 'write', 'both'))

    def other(environ, start_response):
        w = start_response(code, list(hs))
        if style == 'write':
            for c in chunks:
                w(c)
            return []
        if style == 'both':
            for c in chunks[:2]:
                w(c)
            return list(chunks[2:])
        return list(chunks)

    def lazy(environ, start_response):
        start_response(code, list(hs))
        for c in chunks:
            yield c
    app = lazy if style == 'generator' else other
    ev.note(headers=hs, chunks=chunks, style=style, code=code)
    ev.hit('from-app')

    class Mine(Response):
        pass
    how = src.draw(3)
    if how == 0:
        r = Mine.from_app(app, env, buffered=src.bool())
    elif how == 1:
        r = Mine.force_type(app, env)
    else:
        r = Mine.force_type(BaseResponse(list(chunks), status=code,
                                         headers=list(hs)))
    ev.ok(type(r) is Mine, 'from-app-class', got=type(r))
    ev.eq(r.status, code, 'from-app-status')
    ev.eq(r.status_code, int(code[:3]), 'from-app-status-code')
    res = serve(r, env, ev)
    ev.eq(res.status, code, 'from-app-status')
    got = [x for x in res.headers if x[0].lower() != 'content-length']
    ev.eq(got, hs, 'from-app-headers')
    ev.eq(res.body, b'' if code[:3] == '204' else b''.join(chunks),
          'from-app-body')
    ev.key('from-app', hs, chunks, style, code, how)


def redirects(src, ev):
    """utils.redirect and append_slash_redirect as messages."""
    from verktyg.utils import redirect, append_slash_redirect
    env = environment(src)
    env['REQUEST_METHOD'] = 'GET'
    ev.hit('slash-redirect')
    if src.bool():
        loc = location(src)
        code = src.choice((301, 302, 303, 305, 307))
        env['HTTP_HOST'] = 'other.example' if loc[0] == 'same' \
            else env['HTTP_HOST']
        res = serve(redirect(loc_text(loc, 'other.example'), code), env, ev)
        ev.note(loc=loc, res=res.headers)
        ev.eq(res.code, code, 'redirect-code')
        u = urlsplit(res.one('location'))
        ev.eq((u.scheme, u.netloc, quoted(u.path), quoted(u.query)),
              resolve(loc, env, True), 'redirect-location')
    else:
        segs = [s for s in (src.choice(SEG) for _ in range(src.int(1, 3)))]
        path = '/' + '/'.join(segs)
        env['PATH_INFO'] = gen.as_wsgi(path)
        res = serve(append_slash_redirect(env), env, ev)
        ev.note(path=path, res=res.headers)
        ev.eq(res.code, 301, 'redirect-code')
        u = urlsplit(res.one('location'))
        root = env['SCRIPT_NAME'].encode('latin1').rstrip(b'/')
        ev.eq((u.scheme, u.netloc, unquote_to_bytes(u.path), u.query),
              (env['wsgi.url_scheme'], env['HTTP_HOST'],
               root + path.encode('utf-8') + b'/', env['QUERY_STRING']),
              'slash-redirect-location', value=res.one('location'))
    ev.key('redirect', res.headers, res.status)


def status_sweep(ev):
    """Every status code with every method class and two shapes."""
    from verktyg.responses import Response
    for code in range(100, 600):
        for method in ('GET', 'HEAD', 'POST'):
            for shape in (b'body', [b'bo', 'dy'], iter([b'bo', b'dy'])):
                ev.case()
                ev.hit('status-sweep')
                r = Response(shape, status=code)
                res = serve(r, gen.environ('/', method=method), ev)
                ev.note(code=code, method=method)
                ev.eq(res.code, code, 'status-code')
                ev.eq(r.status_code, code, 'status-code-attribute')
                ev.ok(len(res.status) > 4, 'status-without-reason')
                if code in PHRASE:
                    ev.eq(res.status[4:], PHRASE[code], 'status-reason')
                empty = code < 200 or code in (204, 304)
                ev.eq(res.body, b'' if empty or method == 'HEAD' else
                      b'body', 'body-for-status')
                if code == 304:
                    ev.eq([k for k, _ in res.headers
                           if k.lower() in ENTITY], [], 'entity-headers')
                elif empty:
                    ev.ok(res.one('content-length') in (None, '0'),
                          'length-of-empty', got=res.headers)
                ev.key('sweep', code, method)


SCENARIOS = [
    Scenario('direct', direct, 9000, 200000),
    Scenario('application', application, 9000, 200000),
    Scenario('passthrough', passthrough, 1500, 20000),
    Scenario('from-app', from_app, 1500, 20000),
    Scenario('redirects', redirects, 2000, 40000),
]
DIRECTED = [('status-sweep', status_sweep)]
