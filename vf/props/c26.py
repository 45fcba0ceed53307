"""The test client delivers exactly the request described."""
import gc
import io
import tempfile
import os
from urllib.parse import parse_qsl, quote, unquote

from vf.engine import Scenario
from vf import gen

RULE = ('requests are described to the environ builder and the client in '
        'every way they offer, a recording application reads the environ '
        'and the body with its own parsers and the description is compared '
        'with what arrived; applications that answer in every way WSGI '
        'allows are run and what comes back is compared; redirect graphs '
        'are followed by a model as well; distinct = hash of the case')
ASSUMPTIONS = ['field and file names without quotes and line breaks',
               'write() is called before the first block is yielded',
               'redirects carry absolute locations and are followed outside '
               'script roots', 'paths start with exactly one slash and hosts '
               'are names']
REQUIRED = {'delivered': 2500, 'field': 3000, 'file': 1500, 'multipart': 800,
            'urlencoded': 300, 'raw-body': 400, 'no-body': 200,
            'header': 1500, 'query': 1000, 'same-name': 300,
            'real-file': 20, 'closed': 600, 'big': 20, 'on-disk': 40,
            'encoded': 500, 'answer': 1500, 'write': 300, 'late-start': 200,
            'buffered': 500, 'close-called': 400, 'app-error': 100,
            'redirected': 400, 'refused': 100, 'loop': 60, 'hops': 800,
            'not-followed': 80, 'subdomain': 60, 'kept-method': 60,
            'literal-question-mark': 100, 'from-values': 150,
            'get-request': 150, 'plain-dict': 60, 'lazy': 150,
            'refused-base': 60, 'stream-dropped': 60, 'charset': 250,
            'cookie': 500, 'redirect-to-error': 20, 'arguments-kept': 500,
            'short-reads': 60, 'wrapped-redirect': 80, 'environ-again': 300,
            'cookie-from-server': 150, 'cookie-deleted': 60, 'builder-step': 2000, 'conflict': 172, 'wrapped': 200, 'many-cookies': 20,
            'builder-closed': 200, 'host-header': 200, 'empty-list': 20}

NAME = gen.ASCII + '-_.[] ' + '\xe4\u4e2d\U0001f600'
BYTES = [b'', b'a', b'\r\n', b'--', b'\r\n--', b'\x00\xff', b'--x--\r\n',
         b'=&;%', b'\n', b'\r', b'Content-Disposition: form-data']


def blob(src, big=False):
    k = src.draw(5)
    if k == 0:
        return src.choice(BYTES)
    if k == 1:
        return bytes(src.draw(256) for _ in range(src.int(0, 12)))
    if k == 2:
        return b''.join(src.choice(BYTES) for _ in range(src.int(1, 5)))
    if k == 3 and big and src.bool(1, 4):
        n = src.choice((16383, 16384, 16385, 32768, 512000, 511990, 600000))
        return (b'0123456789\r\n' * (n // 12 + 1))[:n]
    return gen.text(src, NAME, 6, 200).encode()


def fname(src):
    return src.choice(('a.txt', 'b.png', 'c', '\xe4.pdf', 'x y.html', '.x',
                       'a.tar.gz', '', 'C:\\x.txt', 'a;b', "d'e.json"))


TYPES = {'a.txt': 'text/plain', 'b.png': 'image/png', '\xe4.pdf':
         'application/pdf', 'x y.html': 'text/html', 'd\'e.json':
         'application/json', 'C:\\x.txt': 'text/plain',
         'a.tar.gz': 'application/x-tar'}


def split_multipart(ev, body, boundary):
    """[(name, filename, content type, bytes)], strictly (RFC 7578)."""
    b = b'--' + boundary.encode('ascii')
    ev.ok(body.endswith(b + b'--\r\n'), 'multipart-end', tail=body[-80:])
    body = body[:-len(b) - 4]
    if not body:
        return []
    ev.ok(body.startswith(b + b'\r\n'), 'multipart-start', head=body[:80])
    ev.ok(body.endswith(b'\r\n'), 'multipart-separator')
    parts = body[:-2].split(b'\r\n' + b + b'\r\n')
    parts[0] = parts[0][len(b) + 2:]
    out = []
    for p in parts:
        head, sep, data = p.partition(b'\r\n\r\n')
        ev.ok(sep, 'multipart-part-without-head', part=p[:200])
        name = filename = ctype = None
        for line in head.decode('utf-8').split('\r\n'):
            k, _, v = line.partition(': ')
            if k.lower() == 'content-disposition':
                ev.ok(name is None, 'multipart-two-dispositions')
                ev.ok(v.startswith('form-data; name="'),
                      'multipart-disposition', value=v)
                v = v[len('form-data; name="'):]
                name, _, v = v.partition('"')
                if v:
                    ev.ok(v.startswith('; filename="') and v.endswith('"'),
                          'multipart-disposition', value=v)
                    filename = v[len('; filename="'):-1]
            elif k.lower() == 'content-type':
                ev.ok(ctype is None, 'multipart-two-types')
                ctype = v
            else:
                ev.fail('multipart-unknown-header', line=line)
        out.append((name, filename, ctype, data))
    return out


class Recorder(object):
    """A WSGI application that keeps what it gets."""

    def __init__(self):
        self.calls = []

    def __call__(self, env, start_response):
        n = int(env['CONTENT_LENGTH'] or 0)
        body = env['wsgi.input'].read()
        self.calls.append((dict(env), body, n))
        start_response('200 OK', [('Content-Type', 'text/plain')])
        return [b'fine']


class Slow(io.BytesIO):
    """A file that gives less than it is asked for, as pipes do."""

    def read(self, n=-1):
        return io.BytesIO.read(self, min(n, 5) if n > 0 else n)


class Tracked(io.BytesIO):
    """A file that can be named and knows if it was closed."""
    name = None


class Bad(Tracked):
    """A file that can not be closed."""
    bad = True

    def close(self):
        if self.bad:
            raise IOError('close')
        Tracked.close(self)


def one_file(src, ev, scratch):
    """(value for `data`, expected filename, expected type, bytes, file)"""
    from verktyg.http import FileStorage
    data = blob(src, big=True)
    if len(data) > 100000:
        ev.hit('big')
    k = src.draw(7)
    fn = fname(src)
    if len(data) < 1000 and src.bool(1, 10):
        f = Slow(data)
        ev.hit('short-reads')
        return (f, fn, 'x/y'), fn, 'x/y', data, f
    if k == 0:
        f = io.BytesIO(data)
        return f, None, 'application/octet-stream', data, f
    if k == 1:
        f = io.BytesIO(data)
        return ((f, fn), fn, TYPES.get(fn, 'application/octet-stream'),
                data, f)
    if k == 2:
        f = io.BytesIO(data)
        return (f, fn, 'x/y'), fn, 'x/y', data, f
    if k == 3:
        f = io.BytesIO(data)
        st = FileStorage(f, filename=fn, content_type='text/x-special')
        return st, fn, 'text/x-special', data, f
    if k == 4:
        fn = fn or 'n'
        f = Tracked(data)
        f.name = fn
        # the name of a file object names the upload
        return (f, fn, None, data, f) \
            if src.bool() else ((f, 'o.txt'), 'o.txt', 'text/plain', data, f)
    if k == 5 and scratch:
        p = os.path.join(scratch, 'up%d.txt' % len(os.listdir(scratch)))
        with open(p, 'wb') as f:
            f.write(data)
        ev.hit('real-file')
        if src.bool():
            f = open(p, 'rb')
            return (f, 'n.html'), 'n.html', 'text/html', data, f
        return (p,), p, 'text/plain', data, None
    f = io.BytesIO(b'skipped' + data)
    f.seek(7)
    return (f, fn, 'a/b; c=d'), fn, 'a/b; c=d', data, f


def describe(src, ev):
    from verktyg.test import Client, EnvironBuilder, create_environ
    from verktyg.datastructures import MultiDict
    scratch = None
    if src.bool(1, 3):
        scratch = tempfile.mkdtemp(prefix='vf-c26-')
    try:
        _describe(src, ev, scratch, Client, EnvironBuilder, create_environ,
                  MultiDict)
    finally:
        if scratch:
            for n in os.listdir(scratch):
                os.unlink(os.path.join(scratch, n))
            os.rmdir(scratch)


def _describe(src, ev, scratch, Client, EnvironBuilder, create_environ,
              MultiDict):
    path = '/' + quote(gen.text(src, NAME, 6, 80))
    kw = {}
    files = []
    want_query = []
    literal = False
    base = src.choice((None, None, 'http://example.org/',
                       'https://example.org:8443/app',
                       'http://example.org/a%20b/',
                       'http://localhost:12345/', 'https://e.x:65535/\xe4',
                       'http://h:1/a/b', 'http://127.0.0.1:443'))
    if base:
        kw['base_url'] = base
    k = src.draw(5)
    if k == 1:
        want_query = [(gen.text(src, NAME, 3, lo=1), gen.text(src, NAME, 4))
                      for _ in range(src.few(1, 4, 60))]
        kw['query_string'] = MultiDict(want_query)
    elif k == 2:
        want_query = [('a', 'x\xe4 &='), ('b', '')]
        kw['query_string'] = dict(want_query)
    elif k == 3:
        want_query = [('a', '1'), ('b', '2 3'), ('a', '\xe4')]
        path += '?a=1&b=2+3&a=%C3%A4'
        if src.bool():
            more = gen.text(src, gen.ASCII + '?/:@', 6)
            want_query.append(('u', 'x?' + more))
            path += '&u=x?' + more
    elif k == 4:
        want_query = [('a', '1'), ('b', '?')]
        kw['query_string'] = 'a=1&b=%3F'
        if src.bool():
            path += '?no=query'
            literal = True
            ev.hit('literal-question-mark')
    # group pairs by name: that is the order multi dicts have
    if isinstance(kw.get('query_string'), MultiDict):
        want_query = [(n, v) for n in dict(want_query)
                      for m, v in want_query if m == n]
    headers = []
    for i in range(src.int(0, 3)):
        n = src.choice(('X-A', 'X-Long-Name', 'Accept', 'User-Agent',
                        'x-lower', 'Cache-Control', 'If-None-Match'))
        if n.lower() not in [h[0].lower() for h in headers]:
            headers.append((n, gen.value(src, 60).encode(
                'latin1', 'replace').decode('latin1').strip()))
    if headers or src.bool():
        kw['headers'] = list(headers)
    fields = []
    uploads = []
    raw = None
    body_kind = src.choice(('none', 'raw', 'form', 'multi', 'multi',
                            'stream'))
    if body_kind == 'raw':
        raw = blob(src) or b'x'
        if src.bool(1, 3):
            s = gen.text(src, NAME, 8, 100, lo=1)
            raw = s.encode('utf-8')
            kw['data'] = s
        else:
            kw['data'] = raw
        kw['content_type'] = src.choice(('text/plain', 'application/json',
                                         'a/b; c=d'))
        ev.hit('raw-body')
    elif body_kind == 'stream':
        raw = blob(src)
        f = io.BytesIO(b'zz' + raw)
        f.seek(2)
        kw['input_stream'] = f
        kw['content_type'] = 'application/octet-stream'
        ev.hit('raw-body')
    elif body_kind in ('form', 'multi'):
        data = []
        for _ in range(src.few(1, 5, 30)):
            n = src.choice(('a', 'b', 'file', gen.text(
                src, NAME, 3, lo=1)))
            if body_kind == 'multi' and src.bool(2, 3):
                v, fn, ct, content, f = one_file(src, ev, scratch)
                uploads.append((n, fn, ct, content))
                if f is not None:
                    files.append(f)
            else:
                v = src.choice((gen.text(src, NAME, 6, 100), '', '7'))
                content = v
                if src.bool(1, 8):
                    v = v.encode('utf-8')
                elif src.bool(1, 6):
                    v = int('0' + ''.join(c for c in v if c in '0123456789'))
                    content = str(v)
                fields.append((n, content))
            data.append((n, v))
        if src.bool() or len({n for n, _ in data}) < len(data):
            if src.bool():
                kw['data'] = MultiDict(data)
            else:
                d = {}
                for n, v in data:
                    d.setdefault(n, []).append(v)
                kw['data'] = {n: v if len(v) > 1 or src.bool() else v[0]
                              for n, v in d.items()}
                if src.bool(1, 4):
                    # nothing was chosen
                    kw['data'].setdefault('none', [])
                    ev.hit('empty-list')
        else:
            kw['data'] = dict(data)
        if len({n for n, _ in data}) < len(data):
            ev.hit('same-name')
        if not uploads and src.bool(1, 3):
            kw['content_type'] = 'multipart/form-data'
    else:
        ev.hit('no-body')
    method = src.choice(('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD',
                         'OPTIONS', 'TRACE'))
    app = Recorder()
    client = Client(app, use_cookies=src.bool())
    how = src.draw(7)
    if how != 1 and src.bool(1, 8):
        method = src.choice(('get', 'Custom', 'M-SEARCH', 'x'))
    ev.note(path=path, how=how, method=method, kw={
        k: v for k, v in kw.items()})
    flags = {}
    if src.bool(1, 4):
        flags = src.choice(({'multithread': True, 'run_once': True},
                            {'multiprocess': True}, {'run_once': True}))
        kw.update(flags)
    errors = io.StringIO() if src.bool(1, 3) else None
    if errors is not None:
        kw['errors_stream'] = errors
    base_env = src.bool(1, 4)
    if base_env:
        kw['environ_base'] = {'REMOTE_ADDR': '1.2.3.4', 'PATH_INFO': 'no'}
        kw['environ_overrides'] = {'my.key': [1], 'SERVER_PROTOCOL': 'X/1'}
        if headers and src.bool():
            # the overrides have the last word
            h = src.draw(len(headers))
            headers[h] = (headers[h][0], 'overridden')
            kw['environ_overrides']['HTTP_' + headers[h][0].upper().replace(
                '-', '_')] = 'overridden'
    if 'headers' in kw and src.bool(1, 3):
        from verktyg.http import Headers
        kw['headers'] = Headers(kw['headers'])
    given = {n: (v, dict(v) if isinstance(v, dict) else list(v))
             for n, v in kw.items() if n in (
                 'headers', 'environ_base', 'environ_overrides') or
             n in ('data', 'query_string') and isinstance(v, dict)}
    if how == 0:
        client.open(path, method=method, **kw)
    elif how == 1:
        if src.bool(1, 4):
            # the name of the function has the last word
            getattr(client, method.lower())(path, **dict(kw, method='LOCK'))
        else:
            getattr(client, method.lower())(path, **kw)
    elif how == 2:
        client.open(EnvironBuilder(path, method=method, **kw))
    elif how == 3:
        client.open(create_environ(path, method=method, **kw))
    elif how == 5:
        from verktyg.requests import Request

        class Mine(Request):
            pass
        req = Mine.from_values(path, method=method, **kw)
        ev.ok(type(req) is Mine, 'request-class', got=type(req))
        app(req.environ, lambda *a: None)
        ev.hit('from-values')
    elif how == 6:
        from verktyg.requests import BaseRequest, Request
        b = EnvironBuilder(path, method=method, **kw)
        cls = src.choice((None, Request))
        req = b.get_request(cls) if cls else b.get_request()
        ev.ok(type(req) is (cls or BaseRequest), 'request-class',
              got=type(req))
        app(req.environ, lambda *a: None)
        b.close()
        ev.hit('get-request')
    else:
        env, _ = client.open(path, method=method, as_tuple=True,
                             buffered=True, **kw)
        ev.eq({k: v for k, v in env.items() if k != 'HTTP_COOKIE'},
              {k: v for k, v in app.calls[0][0].items()}, 'as-tuple')
    ev.eq(len(app.calls), 1, 'called-once')
    for n, (v, before) in given.items():
        ev.ok((dict(v) if isinstance(v, dict) else list(v)) == before,
              'argument-changed', argument=n, before=before, after=v)
        ev.hit('arguments-kept')
    env, body, n = app.calls[0]
    ev.eq(env['REQUEST_METHOD'], method, 'method')
    ev.eq(len(body), n, 'content-length', body=body[:300])
    ev.eq(env['PATH_INFO'].encode('latin1').decode(),
          unquote(path if literal else path.split('?')[0]), 'path')
    if isinstance(kw.get('query_string'), str) or \
            'query_string' not in kw and '?' in path:
        ev.eq(env['QUERY_STRING'], kw.get('query_string',
                                          path.partition('?')[2]),
              'query-string')
    got_query = parse_qsl(env['QUERY_STRING'], keep_blank_values=True)
    ev.eq(got_query, want_query, 'query')
    if want_query:
        ev.hit('query')
    want_base = base or 'http://localhost/'
    scheme, _, rest = want_base.partition('://')
    host, _, script = rest.partition('/')
    ev.eq((env['wsgi.url_scheme'], env['HTTP_HOST'], env['SCRIPT_NAME']),
          (scheme, host, gen.as_wsgi('/' + unquote(script)).rstrip('/')), 'base')
    name, _, port = host.partition(':')
    ev.eq((env['SERVER_NAME'], env['SERVER_PORT']),
          (name, port or ('443' if scheme == 'https' else '80')), 'server')
    for h, v in headers:
        ev.eq(env.get('HTTP_' + h.upper().replace('-', '_')), v, 'header',
              header=h)
        ev.hit('header')
    extra = {k for k in env if k.startswith('HTTP_')} - {
        'HTTP_' + h.upper().replace('-', '_') for h, _ in headers} - {
            'HTTP_HOST', 'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH'}
    ev.ok(not extra, 'header-invented', extra=extra)
    import sys
    ev.ok(env['wsgi.errors'] is (sys.stderr if errors is None else errors),
          'errors-stream')
    for k in ('multithread', 'multiprocess', 'run_once'):
        ev.eq(env['wsgi.' + k], flags.get(k, False), 'flag')
    if base_env:
        ev.eq((env['REMOTE_ADDR'], env['my.key'], env['SERVER_PROTOCOL']),
              ('1.2.3.4', [1], 'X/1'), 'environ-overrides')
    else:
        ev.eq(env['SERVER_PROTOCOL'], 'HTTP/1.1', 'protocol')
    ctype = env['CONTENT_TYPE']
    if raw is not None:
        ev.eq(body, raw, 'raw-body')
        ev.eq(ctype, kw['content_type'], 'content-type')
    elif uploads or kw.get('content_type') == 'multipart/form-data':
        ev.ok(ctype.startswith('multipart/form-data; boundary="'),
              'content-type', got=ctype)
        parts = split_multipart(ev, body, ctype[31:-1])
        check_parts(ev, parts, fields, uploads)
        ev.hit('multipart')
    elif fields:
        ev.eq(ctype, 'application/x-www-form-urlencoded', 'content-type')
        got = parse_qsl(body.decode('ascii'), keep_blank_values=True)
        check_order(ev, got, fields, 'fields')
        ev.hit('urlencoded')
    else:
        ev.eq(body, b'', 'made-up-body')
    if how != 2:
        for f in files:
            ev.ok(f.closed, 'file-left-open', files=len(files))
            ev.hit('closed')
    for f in files:
        f.close()
    ev.hit('delivered')
    ev.key(path, how, method, repr(sorted(kw)), fields,
           [u[:3] for u in uploads], raw)
    ev.case()


def check_order(ev, got, want, kind):
    """Every pair once, values of one name in order."""
    ev.eq(sorted(got), sorted(want), kind)
    for n in {k for k, _ in want}:
        ev.eq([v for k, v in got if k == n], [v for k, v in want if k == n],
              kind + '-order')
        ev.hit('field')


def check_parts(ev, parts, fields, uploads):
    f = [(n, d.decode('utf-8')) for n, fn, ct, d in parts
         if ct is None and fn is None]
    u = [(n, fn, ct, d) for n, fn, ct, d in parts
         if not (ct is None and fn is None)]
    check_order(ev, f, fields, 'fields')
    ev.eq(len(u), len(uploads), 'files')
    for n in {x[0] for x in uploads}:
        a = [x[1:] for x in u if x[0] == n]
        b = [x[1:] for x in uploads if x[0] == n]
        ev.eq(len(a), len(b), 'files', name=n)
        for x, y in zip(a, b):
            ev.eq(x[:2] if y[1] else x[:1], y[:2] if y[1] else y[:1],
                  'file-head')
            ev.ok(x[2] == y[2], 'file-bytes', got=x[2][:300],
                  want=y[2][:300], lengths=(len(x[2]), len(y[2])))
            ev.hit('file')


def encode(src, ev):
    """The encoders, on disk or not."""
    from verktyg.test import stream_encode_multipart, encode_multipart
    from verktyg.datastructures import MultiDict
    from verktyg.http import FileStorage
    spec = []
    for _ in range(src.few(0, 5, 40)):
        n = src.choice(('a', 'b', gen.text(src, NAME, 3, lo=1)))
        k = src.draw(4)
        if k == 0:
            spec.append((n, 'text', gen.text(src, NAME, 5, 100)))
        elif k == 1:
            spec.append((n, 'bytes', blob(src)))
        elif k == 2:
            spec.append((n, 'int', src.int(0, 99)))
        else:
            spec.append((n, 'file', blob(src, True), fname(src),
                         src.choice(('x/y', None))))

    def values():
        out = []
        for s in spec:
            if s[1] == 'file':
                out.append((s[0], FileStorage(
                    io.BytesIO(s[2]), filename=s[3], content_type=s[4])))
            else:
                out.append((s[0], s[2]))
        return dict(out) if plain else MultiDict(out)
    plain = len({x[0] for x in spec}) == len(spec) and src.bool()
    if plain:
        ev.hit('plain-dict')
    boundary = 'bound' + gen.text(src, gen.ASCII, 8)
    ev.note(spec=spec, boundary=boundary)
    b, whole = encode_multipart(values(), boundary)
    ev.eq(b, boundary, 'boundary')
    parts = split_multipart(ev, whole, boundary)
    got = [(n, fn, d) for n, fn, ct, d in parts]
    want = []
    for n in dict((s[0], 0) for s in spec):
        for s in spec:
            if s[0] == n:
                if s[1] == 'file':
                    want.append((n, s[3], s[2]))
                else:
                    v = s[2]
                    want.append((n, None, v if isinstance(v, bytes)
                                 else str(v).encode()))
    ev.ok(got == want, 'multipart-content', got=repr(got)[:800],
          want=repr(want)[:800])
    total = len(whole)
    threshold = max(0, src.choice((0, 1, total - 1, total, total // 2,
                                   total + 1, 1024 * 500)))
    stream, length, b2 = stream_encode_multipart(
        values(), use_tempfile=True, threshold=threshold, boundary=boundary)
    ev.note(threshold=threshold)
    ev.eq(stream.tell(), 0, 'stream-not-at-start')
    data = stream.read()
    stream.close()
    ev.ok(data == whole, 'on-disk-differs', got=data[-300:],
          want=whole[-300:], lengths=(len(data), total))
    ev.eq(length, total, 'stream-length')
    if threshold < total:
        ev.hit('on-disk')
    # boundaries made up by the encoder are different and not in the data
    b3, other = encode_multipart(values())
    b4, _ = encode_multipart(values())
    ev.ok(b3 != b4, 'same-boundary', boundary=b3)
    ev.eq([p[:2] + (len(p[3]),) for p in split_multipart(ev, other, b3)],
          [p[:2] + (len(p[3]),) for p in parts], 'made-up-boundary')
    ev.hit('encoded')
    ev.key(repr(spec)[:500], threshold)
    ev.case()


class Iter(object):
    def __init__(self, it, log):
        self.it = iter(it)
        self.log = log

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.log.append('close')


class Once(Iter):
    """Goes over its items with another object."""
    def __iter__(self):
        return Steps(self.it)

    __next__ = None


class Steps(object):
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class Failure(Exception):
    pass


class Interrupt(BaseException):
    pass


def answer(src, ev):
    """Whatever an application answers is what the client gets."""
    from verktyg.test import Client, run_wsgi_app
    from verktyg.responses import Response
    status = src.choice(('200 OK', '404 NOT FOUND', '299 Odd status',
                         '500 X', '302 Found', '204 No Content'))
    headers = [(gen.token(src).replace('_', '-') if src.bool(1, 3) else
                src.choice(('X-A', 'Content-Type', 'Vary', 'Link')),
                gen.value(src, 60).encode('latin1', 'replace').decode(
                    'latin1')) for _ in range(src.int(0, 4))]
    written = [blob(src) for _ in range(src.int(1, 3))] \
        if src.bool(1, 3) else []
    chunks = [blob(src) for _ in range(src.int(0, 4))]
    style = src.choice(('list', 'generator', 'iter', 'late', 'tuple'))
    err = src.choice((None,) * 8 + ('call', 'iter', 'exc_info'))
    Kind = src.choice((Iter, Once))
    Boom = src.choice((Failure, Interrupt))
    log = []

    def app(env, start_response):
        log.append('call')
        if err == 'call':
            raise Boom()
        if err == 'exc_info':
            try:
                raise Boom()
            except Boom:
                import sys
                start_response('500 X', [], sys.exc_info())

        def body():
            if style == 'late' or style == 'generator':
                w = start_response(status, list(headers))
                for d in written:
                    w(d)
            for i, c in enumerate(chunks):
                log.append('chunk')
                yield c
            if err == 'iter':
                raise Boom()
        if style in ('late', 'generator'):
            return Kind(body(), log) if style == 'late' else body()
        w = start_response(status, list(headers))
        for d in written:
            w(d)
        if style == 'list':
            if err == 'iter':
                raise Boom()
            return list(chunks)
        if style == 'tuple':
            if err == 'iter':
                raise Boom()
            return tuple(chunks)
        return Kind(body(), log)
    if style in ('late', 'generator') and err != 'iter' and not chunks:
        chunks = [b'']
    buffered = src.bool()
    env = gen.environ('/')
    how = src.draw(4)
    ev.note(status=status, headers=headers, written=written, chunks=chunks,
            style=style, err=err, buffered=buffered, how=how)
    want = b''.join(written + chunks)

    def use(fn):
        if err is None:
            return fn()
        ran = False
        try:
            it, st, hd = fn()
            ran = True
            b''.join(it)
            if hasattr(it, 'close'):
                it.close()
        except Boom:
            ev.hit('app-error')
            if 'call' in log and style in ('late', 'iter') and \
                    err == 'iter' and not ran:
                # there is nothing that the caller could close
                ev.eq(log.count('close'), 1, 'close-after-error')
            return None
        ev.fail('error-swallowed')
    if how == 0:
        r = use(lambda: run_wsgi_app(app, env, buffered=buffered))
    elif how == 1:
        r = use(lambda: Client(app).open(env, buffered=buffered)
                if False else Client(app).open('/', buffered=buffered))
    elif how == 2:
        r = use(lambda: Client(app, use_cookies=False).get(
            '/x', buffered=buffered))
    else:
        if err:
            return
        resp = Client(app, Response).get('/', buffered=buffered)
        ev.ok(isinstance(resp, Response), 'not-wrapped')
        ev.eq(resp.status, status, 'status')
        ev.eq(resp.get_data(), want, 'wrapped-body')
        got = [(k, v) for k, v in resp.headers.to_wsgi_list()]
        wl = [(k, v) for k, v in headers]
        if 'content-type' not in [k.lower() for k, _ in wl]:
            got = [(k, v) for k, v in got if k.lower() != 'content-type']
        got = [(k, v) for k, v in got if k.lower() != 'content-length'
               or 'content-length' in [a.lower() for a, _ in wl]]
        ev.eq(got, wl, 'wrapped-headers')
        ev.hit('wrapped')
        ev.hit('answer')
        ev.case()
        return
    if r is not None:
        it, st, hd = r
        ev.eq(st, status, 'status')
        if buffered and style in ('iter', 'late'):
            ev.eq(log.count('close'), 1, 'not-closed')
            ev.eq(log.count('chunk'), len(chunks), 'not-consumed')
        ev.eq([(k, v) for k, v in hd.to_wsgi_list()], headers, 'headers')
        if not buffered and style in ('iter', 'late'):
            ev.eq(log.count('close'), 0, 'closed-early')
            ev.ok(log.count('chunk') <= 1, 'consumed-early', log=log)
            ev.hit('lazy')
        ev.eq(b''.join(it), want, 'body')
        if not buffered and hasattr(it, 'close'):
            it.close()
        if style in ('iter', 'late'):
            ev.eq(log.count('close'), 1, 'close-count')
            ev.hit('close-called')
        ev.eq(log.count('call'), 1, 'calls')
        if written:
            ev.hit('write')
        if style in ('generator', 'late'):
            ev.hit('late-start')
        if buffered:
            ev.hit('buffered')
        ev.hit('answer')
    ev.key(status, headers, written, chunks, style, err, buffered, how)
    ev.case()


def redirects(src, ev):
    """A graph of redirects, followed by the client and by a model."""
    from verktyg.test import Client, ClientRedirectError
    n = src.int(1, 6)
    hosts = ['localhost', 'localhost', 'localhost:8080', 'a.localhost',
             'b.a.localhost', 'other.example', 'notlocalhost',
             'localhost.example']
    pages = {}
    for i in range(n):
        code = src.choice((301, 302, 303, 305, 307, 200, 308, 304, 404))
        host = src.choice(hosts) if src.bool(1, 4) else 'localhost'
        target = src.int(0, n)
        q = src.choice(('', '', 'a=1&b=%C3%A4', 'x=%26'))
        anchor = src.choice(('', '', '#top'))
        sp = src.choice(('/p%d', '/p%d', '/%%C3%%A4%d', '/x%%20y/%d')) \
            % target
        url = '%s://%s%s%s%s' % (src.choice(('http', 'http', 'https')), host,
                                 sp, '?' + q if q else '', anchor)
        pages[i] = (code, url, host, target, sp, q)
    log = []
    closes = {k: [] for k in range(60)}

    def app(env, start_response):
        log.append((env['REQUEST_METHOD'], env['wsgi.url_scheme'],
                    env['HTTP_HOST'], env['PATH_INFO'],
                    env['QUERY_STRING'], env['CONTENT_LENGTH']))
        i = int(''.join(c for c in env['PATH_INFO'] if c in '0123456789'))
        if boom == i:
            raise Failure()
        if i in pages:
            code, url = pages[i][:2]
            h = [('Location', url)]
        else:
            code, h = 200, []
        start_response('%d X' % code, h + [('X-Page', str(i))])
        return Iter([b'page %d' % i], closes[len(log) - 1])
    # an error of the application ends everything
    boom = src.int(1, n - 1) if n > 1 and src.bool(1, 6) else None
    sub = src.bool()
    follow = src.bool(5, 6)
    method = src.choice(('GET', 'GET', 'POST', 'PUT', 'DELETE'))
    wrap = (lambda *a: ('wrapped', a)) if src.bool(1, 3) else None
    client = Client(app, wrap, allow_subdomain_redirects=sub,
                    use_cookies=src.bool())
    ev.note(pages=pages, sub=sub, follow=follow, method=method)
    # the model
    start = 'localhost'
    more = {}
    if src.bool(1, 4):
        # the host the application sees is what counts
        start = src.choice(hosts)
        more = {'headers': [('Host', start)]} if src.bool() else {
            'environ_overrides': {'HTTP_HOST': start}}
        ev.hit('host-header')
    want = [(method, 'http', start, '/p0', '')]
    outcome = None
    seen = set()
    i, m, host = 0, method, start
    while outcome is None:
        if i not in pages or pages[i][0] not in (301, 302, 303, 305, 307) \
                or not follow:
            outcome = 'page'
            break
        code, url, nhost, target, sp, q = pages[i]
        if (url, code) in seen:
            outcome = 'loop'
            break
        seen.add((url, code))
        a, b = nhost.split(':')[0], host.split(':')[0]
        if not (a == b or sub and a.endswith('.' + b)):
            outcome = 'refused'
            if b == 'localhost' and a.endswith('localhost') and sub:
                ev.hit('subdomain')
            break
        if a != b:
            ev.hit('subdomain')
        if code == 307:
            if m != 'GET':
                ev.hit('kept-method')
        else:
            m = 'GET'
        want.append((m, url.split(':')[0], nhost,
                     gen.as_wsgi(unquote(sp)), q))
        i, host = target, nhost
        ev.hit('hops')
        if i == boom:
            outcome = 'redirect-to-error'
    buffered = src.bool()
    try:
        env, resp = client.open('/p0', method=method, as_tuple=True,
                                follow_redirects=follow,
                                buffered=buffered, **more)
        if wrap:
            ev.eq(resp[0], 'wrapped', 'final-not-wrapped')
            resp = resp[1]
            ev.hit('wrapped-redirect')
        it, st, hd = resp
        got = 'page'
    except ClientRedirectError:
        got = 'loop'
    except RuntimeError:
        got = 'refused'
    except Failure:
        got = 'redirect-to-error'
    ev.eq([x[:5] for x in log], want, 'requests')
    ev.eq(got, outcome, 'outcome')
    if got == 'page':
        ev.eq(len(closes[len(log) - 1]), 1 if buffered else 0,
              'final-buffering')
        ev.eq(b''.join(it), b'page %d' % i, 'final-body')
        ev.eq(st, '%d X' % (pages[i][0] if i in pages else 200), 'final')
        ev.eq(hd['X-Page'], str(i), 'final-header')
        ev.eq((env['HTTP_HOST'], env['PATH_INFO']), (want[-1][2],
                                                     want[-1][3]),
              'final-environ')
        ev.hit('redirected' if len(want) > 1 else 'not-followed')
    else:
        ev.hit(got)
    # the client is usable afterwards
    del log[:]
    r = client.get('/p%d' % n)
    if wrap:
        ev.eq(r[0], 'wrapped', 'wrapper-lost', outcome=got)
        r = r[1]
    it, st, hd = r
    ev.eq((b''.join(it), len(log)), (b'page %d' % n, 1), 'client-unusable')
    ev.key(sorted(pages.items()), sub, follow, method)
    ev.case()


def builder(src, ev):
    """Sequences of changes to one builder, against a model."""
    from verktyg.test import EnvironBuilder
    from verktyg.datastructures import MultiDict
    b = EnvironBuilder('/x')
    base = 'http://localhost/'
    length = None
    query, args, form, files, stream = None, [], [], [], None
    method, ctype = 'GET', None
    steps = []
    for _ in range(src.few(1, 8, 40)):
        k = src.draw(14)
        steps.append(k)
        ev.note(steps=steps)
        ev.hit('builder-step')
        if src.bool(1, 10) and stream is None:
            # one file that can not be closed does not keep the others open
            b2 = EnvironBuilder('/y', method='POST')
            fs = [Bad() if src.bool(1, 3) else Tracked(b'x')
                  for _ in range(src.int(1, 4))]
            for i, f in enumerate(fs):
                b2.files.add_file(src.choice('uv'), f, 'n%d.txt' % i)
            if src.bool():
                b2.close()
            else:
                del b2
                gc.collect(0)
            ev.eq([f.closed for f in fs], [not isinstance(f, Bad)
                                           for f in fs], 'file-left-open')
            for f in fs:
                f.bad = False
            ev.hit('builder-closed')
        if k == 0:
            query = src.choice(('a=b', '', 'x=%20&y', 'a+b=c+d', 'a=b+',
                                '%c3%A4=~*', 'a;b&&c', '?/:@!$\'(),'))
            b.query_string = query
            args = []
        elif k == 1:
            args = [('k', src.choice(('v', '\xe4', '')))]
            b.args = MultiDict(args)
            query = None
        elif k == 2:
            if query is None:
                args.append(('m', '1'))
                b.args.setlistdefault('m').append('1')
            else:
                ev.raises(AttributeError, lambda: b.args, 'args-conflict')
                ev.hit('conflict')
        elif k == 3:
            if stream is None:
                v = gen.text(src, NAME, 3)
                form.append(('f', v))
                b.form.setlistdefault('f').append(v)
            else:
                ev.raises(AttributeError, lambda: b.form, 'form-conflict')
                ev.raises(AttributeError, lambda: b.files, 'form-conflict')
                ev.hit('conflict')
        elif k == 4:
            if stream is None:
                data = blob(src)
                files.append(('u', 'n.txt', 'text/plain', data))
                b.files.add_file('u', io.BytesIO(data), 'n.txt')
        elif k == 5:
            stream = blob(src)
            b.input_stream = io.BytesIO(stream)
            form, files = [], []
        elif k == 6:
            b.input_stream = None
            stream, form, files = None, [], []
        elif k == 7:
            method = src.choice(('GET', 'POST', 'X'))
            b.method = method
        elif k == 8:
            h = src.choice(('http://example.org/app', 'https://e:1/',
                            'http://e:54321/x', 'https://e:10000',
                            'https://e', 'http://e:8080/a/b/', None))
            b.base_url = h
            base = (h or 'http://localhost').rstrip('/') + '/'
        elif k == 9:
            bad = src.choice(('http://e/?a', 'http://e/x#y',
                              'https://e/a?b=c', 'http://e?q=1#f'))

            def set_base():
                b.base_url = bad
            ev.raises(ValueError, set_base, 'base-with-query')
            ev.raises(ValueError, lambda: EnvironBuilder(
                '/', base_url=bad), 'base-with-query')
            ev.hit('refused-base')
        elif k == 10:
            length = src.choice((None, 0, 5, 1234))
            b.content_length = length
        elif k == 11:
            ctype = src.choice((None, None, 'text/x-z'))
            b.content_type = ctype
        elif k == 12:
            v = gen.text(src, NAME, 3)
            form = [('g', v), ('g', '2')]
            b.form = MultiDict(form)
            if stream is not None:
                ev.hit('stream-dropped')
            stream = None
        else:
            from verktyg.test import FileMultiDict
            data = blob(src)
            fs = FileMultiDict()
            fs.add_file('w', io.BytesIO(data), 'n.png')
            files = [('w', 'n.png', 'image/png', data)]
            b.files = fs
            if stream is not None:
                ev.hit('stream-dropped')
            stream = None
        # what can be read back is what was set
        ev.eq(b.base_url, base, 'base-read')
        ev.eq(b.content_length, length, 'length-read')
        if query is not None:
            ev.eq(b.query_string, query, 'query-read')
        else:
            check_order(ev, parse_qsl(b.query_string,
                                      keep_blank_values=True), args,
                        'query-read')
        ev.eq(b.content_type, ctype or (
            None if stream is not None else 'multipart/form-data' if files
            else 'application/x-www-form-urlencoded' if form else None),
            'content-type-read')
        if stream is None:
            check_order(ev, list(b.form.items(multi=True)), form,
                        'form-read')
            ev.eq([f.filename for f in b.files.values(
                multi=True)] if False else sorted(
                    f.filename for fs in b.files.listvalues() for f in fs),
                sorted(f[1] for f in files), 'files-read')
    if src.bool(1, 3):
        # asked a second time
        before = b.content_type, b.content_length, list(b.headers)
        b.get_environ()['wsgi.input'].read()
        ev.eq((b.content_type, b.content_length, list(b.headers)), before,
              'builder-changed')
        if stream is not None:
            b.input_stream.seek(0)
        elif files:
            for fs in b.files.listvalues():
                for f in fs:
                    f.stream.seek(0)
        ev.hit('environ-again')
    env = b.get_environ()
    body = env['wsgi.input'].read()
    if ctype is None:
        ev.eq(len(body), int(env['CONTENT_LENGTH']) if files or form or
              stream is not None else 0, 'content-length')
    ev.eq(env['REQUEST_METHOD'], method, 'method')
    scheme, _, rest = base.partition('://')
    host, _, script = rest.partition('/')
    ev.eq((env['wsgi.url_scheme'], env['HTTP_HOST'], env['SCRIPT_NAME'],
           env['SERVER_NAME'], env['SERVER_PORT']),
          (scheme, host, ('/' + script).rstrip('/'), host.split(':')[0],
           (host + ':' + ('443' if scheme == 'https' else '80')
            ).split(':')[1]), 'base')
    if query is not None:
        ev.eq(env['QUERY_STRING'], query, 'query-string')
    else:
        check_order(ev, parse_qsl(env['QUERY_STRING'],
                                  keep_blank_values=True), args, 'args')
    if stream is not None:
        ev.eq(body, stream, 'stream')
        ev.eq(env['CONTENT_TYPE'], ctype or '', 'content-type')
    elif ctype:
        ev.eq(env['CONTENT_TYPE'], ctype, 'content-type')
    elif files:
        check_parts(ev, split_multipart(
            ev, body, env['CONTENT_TYPE'][31:-1]), form, files)
    elif form:
        ev.eq(env['CONTENT_TYPE'], 'application/x-www-form-urlencoded',
              'content-type')
        check_order(ev, parse_qsl(body.decode('ascii'),
                                  keep_blank_values=True), form, 'form')
    else:
        ev.eq((body, env['CONTENT_TYPE']), (b'', ''), 'made-up-body')
    ev.key(steps, method, query, args, form, stream)
    ev.case()


def conflicts(src, ev):
    """Descriptions that contradict themselves are refused; encodings."""
    from verktyg.test import EnvironBuilder, Client
    from verktyg.datastructures import MultiDict
    data = src.choice(({'a': 'b'}, 'text', b'bytes', MultiDict([('a', 'b')])))
    stream = io.BytesIO(blob(src))
    ev.note(data=data)
    ev.raises(TypeError, lambda: EnvironBuilder(
        '/', data=data, input_stream=stream), 'data-and-stream')
    app = Recorder()
    ev.raises(TypeError, lambda: Client(app).post(
        '/', data=data, input_stream=stream), 'data-and-stream')
    ev.eq(len(app.calls), 0, 'sent-anyway')
    # another charset
    charset, alphabet = src.choice((
        ('latin1', 'a\xe4\xdf &=+%'), ('utf-8', 'a\xe4\u4e2d &=+%'),
        ('cp1252', 'a\u20ac\xe4&')))
    val = gen.text(src, alphabet, 6, lo=1)
    args = [('q', gen.text(src, alphabet, 6, lo=1))]
    ev.note(charset=charset, val=val, args=args)
    multi = src.bool()
    client = Client(app, use_cookies=src.bool())
    kind = src.draw(2)
    kw = {'data': {'f': val}} if kind else {
        'data': val, 'content_type': 'text/plain'}
    if multi and kind:
        kw['content_type'] = 'multipart/form-data'
    client.post('/', query_string=MultiDict(args), charset=charset, **kw)
    env, body, n = app.calls[0]
    ev.eq(n, len(body), 'content-length')
    ev.eq(parse_qsl(env['QUERY_STRING'], encoding=charset), args,
          'charset-query')
    if not kind:
        ev.eq(body, val.encode(charset), 'charset-body')
    elif multi:
        parts = body.split(b'\r\n\r\n', 1)[1].rsplit(b'\r\n--', 1)[0]
        ev.eq(parts, val.encode(charset), 'charset-part')
    else:
        ev.eq(parse_qsl(body.decode('ascii'), encoding=charset),
              [('f', val)], 'charset-field')
    ev.hit('charset')
    ev.key(charset, val, args, kind, multi)
    ev.case()


def cookie_jar(src, ev):
    """Cookies given to the client by hand are sent, until taken away."""
    from verktyg.test import Client
    rec = Recorder()
    reply = []

    def app(env, start_response):
        rv = list(rec(env, lambda *a: None))
        if src.bool(1, 3):
            # applications may take the path apart
            env['SCRIPT_NAME'] += env['PATH_INFO'].rstrip('/')
            env['PATH_INFO'] = ''
        start_response('200 OK', [('Set-Cookie', x) for x in reply])
        del reply[:]
        return rv
    app.calls = rec.calls
    client = Client(app)
    want = {}
    host, dom = 'localhost', {}
    if src.bool(1, 3):
        host, dom = 'a.example.org', {'domain': src.choice((
            'example.org', '.example.org', 'a.example.org'))}
    base = 'http://%s/' % host
    attr = '; Domain=' + dom['domain'] if dom else ''
    same = gen.environ('/dir/page', host=host)
    for _ in range(src.few(1, 8, 40)):
        k = src.choice(('a', 'b', 'c', 'a-b'))
        if src.bool(1, 4):
            # the server's turn
            v = gen.text(src, gen.ASCII + '-_.', 5, lo=1)
            reply.append('%s=%s; Path=/%s' % (k, v, attr))
            want[k] = v
            if src.bool(1, 12):
                for i in range(src.choice((5, 21, 40))):
                    reply.append('n%d=%s; Path=/%s' % (i, v, attr))
                    want['n%d' % i] = v
                ev.hit('many-cookies')
            client.get('/dir/page', base_url=base, buffered=src.bool())
            ev.hit('cookie-from-server')
        elif src.bool(2, 3):
            v = gen.text(src, gen.ASCII + '-_.', 5, lo=1)
            client.set_cookie(host, k, v, **dom)
            want[k] = v
        else:
            client.delete_cookie(host, k, **dom)
            if want.pop(k, None):
                ev.hit('cookie-deleted')
        if want and src.bool(1, 4):
            # one environ for several requests
            client.open(dict(same) if src.bool() else same)
            same['PATH_INFO'], same['SCRIPT_NAME'] = '/dir/page', ''
        else:
            client.get(src.choice(('/', '/dir/page')), base_url=base)
        sent = app.calls[-1][0].get('HTTP_COOKIE', '')
        got = dict(x.split('=', 1) for x in sent.split('; ') if x)
        ev.eq(got, want, 'cookies-by-hand', header=sent)
        ev.hit('cookie')
    ev.key(sorted(want.items()), len(app.calls))
    ev.case()


SCENARIOS = [
    Scenario('conflicts', conflicts, 900),
    Scenario('cookie_jar', cookie_jar, 600),
    Scenario('describe', describe, 3600),
    Scenario('encode', encode, 1500),
    Scenario('answer', answer, 3600),
    Scenario('redirects', redirects, 2700),
    Scenario('builder', builder, 1500),
]
