"""Content-Length against the bytes really sent."""
import io

from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('generated histories of body and header edits on a response, then '
        'sent to a byte counting server by GET and HEAD; distinct = hash of '
        'body shape, pieces, history and status')
ASSUMPTIONS = [
    'a Content-Length the program sets itself is right when it sets it',
    'the response attribute itself is not replaced behind the object',
]
REQUIRED = {'sent': 6000, 'length-present': 4000, 'streamed-untouched': 800,
            'changed-between': 100, 'non-ascii': 1500, 'after-write': 1500, 'after-freeze': 800,
            'after-set-data': 1500, 'head': 1000, 'calculated': 2000,
            'no-conversion': 300, 'big': 20, 'empty-status': 300,
            'conditional': 500, 'wrapped-file': 500, 'not-automatic': 500,
            'served-again': 1000}


class Counted(object):
    """An iterable that counts what was pulled from it."""

    def __init__(self, pieces):
        self.it = iter(pieces)
        self.pulled = 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        self.pulled += 1
        return x


def piece(src, charset):
    k = src.draw(6)
    if k < 3:
        s = gen.text(src, src.choice(
            ('ab', gen.PRINTABLE, gen.UNI, gen.PRINTABLE + gen.UNI)), 6, 400)
        return s.encode(charset, 'ignore').decode(charset)
    if k < 5:
        return bytes(bytearray(src.draw(256) for _ in range(src.size(5))))
    if src.bool():
        return b''
    return b'x' * (src.int(5000, 70000) if src.bool(1, 4)
                   else gen.num(src, 100000))


def enc(x, charset):
    return x.encode(charset) if isinstance(x, str) else bytes(x)


def history(src, ev):
    from verktyg.responses import Response
    charset = src.choice(('utf-8', 'utf-8', 'latin1', 'utf-16-le', 'cp1252'))
    auto = not src.bool(1, 6)
    implicit = not src.bool(1, 6)
    env_get = gen.environ('/')

    class R(Response):
        automatically_set_content_length = auto
        implicit_sequence_conversion = implicit
    R.charset = charset
    pieces = src.list(lambda: piece(src, charset), 3, 40)
    shape = src.choice(('str', 'list', 'tuple', 'stream', 'none', 'stream'))
    counted = None
    if shape == 'none':
        pieces = []
        r = R()
    elif shape == 'str':
        pieces = pieces[:1] or ['']
        p = pieces[0]
        if isinstance(p, bytes) and src.bool():
            p = bytearray(p)
        r = R(p)
    elif shape == 'stream':
        counted = Counted(list(pieces))
        r = R(counted)
    else:
        r = R(list(pieces) if shape == 'list' else tuple(pieces))
    status = src.choice((200, 200, 200, 404, 206, 500, 204, 100, 304))
    r.status_code = status
    body = [enc(p, charset) for p in pieces]
    streaming = shape == 'stream'
    log = []
    touched = False
    explicit = False
    served = 0
    while True:
        for _ in range(src.size(5, 14)):
            op = src.choice(('write', 'write', 'writelines', 'set', 'get',
                             'calc', 'freeze', 'sequence', 'drop', 'explicit',
                             'conditional', 'etag', 'repr', 'streamed', 'iter',
                             'copyheaders', 'cookie', 'status'))
            stuck = streaming and not implicit
            log.append(op)
            ev.note(shape=shape, pieces=pieces, charset=charset, auto=auto,
                    implicit=implicit, log=log)
            if op in ('write', 'writelines'):
                vs = [piece(src, charset) for _ in range(
                    1 if op == 'write' else src.size(3))]
                log[-1] = (op, vs)

                def go():
                    if op == 'write':
                        r.stream.write(vs[0])
                    else:
                        r.stream.writelines(iter(vs))
                if stuck and vs:
                    ev.raises(RuntimeError, go, 'implicit-conversion-happened')
                    ev.hit('no-conversion')
                else:
                    go()
                    body += [enc(v, charset) for v in vs]
                    if vs:
                        streaming = False
                        explicit = False
                        ev.hit('after-write')
            elif op == 'set':
                v = piece(src, charset)
                log[-1] = (op, v)
                r.set_data(v)
                body = [enc(v, charset)]
                if streaming:
                    counted = None
                streaming = False
                if not auto and explicit:
                    # the program owns the header
                    del r.headers['content-length']
                explicit = explicit and auto
                ev.hit('after-set-data')
            elif op in ('get', 'etag', 'calc'):
                touched = True
                if op == 'calc':
                    got = r.calculate_content_length()
                    if stuck:
                        ev.eq(got, None, 'length-of-unconsumed-stream')
                        ev.hit('no-conversion')
                        continue
                    ev.hit('calculated')
                    ev.eq(got, sum(map(len, body)), 'calculated-length')
                elif stuck:
                    ev.raises(RuntimeError, r.get_data if op == 'get'
                              else lambda: r.add_etag(overwrite=True),
                              'implicit-conversion-happened')
                    continue
                elif op == 'get':
                    ev.eq(r.get_data(), b''.join(body), 'get-data')
                    try:
                        text = b''.join(body).decode(charset)
                    except UnicodeDecodeError:
                        text = None
                    if text is not None:
                        ev.eq(r.get_data(as_text=True), text, 'get-text')
                else:
                    r.add_etag()
                streaming = False
            elif op == 'freeze':
                if src.bool(1, 4):
                    # whatever the header said before
                    r.headers['Content-Length'] = str(gen.num(src, 100))
                r.freeze()
                streaming = False
                explicit = True
                ev.hit('after-freeze')
                ev.eq(r.headers.getlist('content-length'),
                      [str(sum(map(len, body)))], 'length-after-freeze')
            elif op == 'sequence':
                r.make_sequence()
                streaming = False
                ev.ok(r.is_sequence, 'not-a-sequence')
            elif op == 'drop':
                k = src.draw(3)
                if k == 0:
                    r.headers.pop('Content-Length', None)
                elif k == 1:
                    del r.content_length
                else:
                    r.headers.remove('content-length')
                explicit = False
            elif op == 'explicit':
                n = sum(map(len, body))
                if src.bool():
                    r.content_length = n
                else:
                    r.headers['CONTENT-LENGTH'] = str(n)
                explicit = True
            elif op == 'conditional':
                ev.hit('conditional')
                was = streaming
                r.make_conditional(env_get)
                if auto and not stuck and not explicit and was and \
                        'content-length' in r.headers:
                    streaming = not r.is_sequence
            elif op == 'repr':
                repr(r)
            elif op == 'streamed':
                r.is_streamed, r.is_sequence
            elif op == 'iter':
                if not streaming:
                    ev.eq(b''.join(r.iter_encoded()), b''.join(body),
                          'iter-encoded')
            elif op == 'copyheaders':
                r.headers.add('X-A', 'b')
            elif op == 'cookie':
                if charset != 'utf-16-le':
                    r.set_cookie('a', 'b')
            elif op == 'status':
                status = src.choice((200, 200, 404, 206, 204, 150))
                r.status_code = status
            if streaming and counted is not None:
                ev.eq(counted.pulled, 0, 'stream-consumed')
        status = r.status_code
        total = sum(map(len, body))
        method = src.choice(('GET', 'GET', 'HEAD', 'POST'))
        had = 'content-length' in r.headers
        ev.note(shape=shape, pieces=pieces, charset=charset, auto=auto,
                implicit=implicit, log=log, method=method, status=status)
        pulled_at_start = []
        env = gen.environ('/', method=method)

        def app(environ, start_response):
            def sr(s, h, e=None):
                pulled_at_start.append(counted.pulled if counted else 0)
                return start_response(s, h)
            return r(environ, sr)
        was_stream = not r.is_sequence
        res = serve(app, env, ev)
        ev.hit('sent')
        if was_stream and counted is not None:
            ev.eq(pulled_at_start, [0], 'stream-consumed-before-start')
            ev.hit('streamed-untouched')
            if method != 'HEAD' and status == 200:
                ev.eq(counted.pulled, len(pieces), 'stream-not-sent')
        empty = 100 <= status < 200 or status in (204, 304)
        cl = res.get('content-length')
        ev.ok(len(cl) <= 1, 'content-length-twice', got=cl)
        if empty:
            ev.hit('empty-status')
            ev.eq(len(res.body), 0, 'body-for-empty-status')
            ev.ok(cl in ([], ['0']), 'length-for-empty-status', got=cl)
        else:
            sent = len(res.body)
            if method == 'HEAD':
                ev.hit('head')
                ev.eq(sent, 0, 'body-for-head')
                sent = total
            else:
                ev.eq(res.body, b''.join(body), 'body')
            if cl:
                ev.hit('length-present')
                ev.ok(cl[0].isdigit() and cl[0].isascii(), 'length-syntax',
                      got=cl)
                ev.eq(int(cl[0]), sent, 'content-length-wrong')
            elif auto and not was_stream:
                ev.fail('content-length-missing')
        if not auto:
            ev.hit('not-automatic')
            if not explicit and not empty:
                ev.eq(cl, [], 'length-set-although-disabled')
        served += 1
        if was_stream or served == 3 or not src.bool(1, 2):
            break
        # the same object is sent again, after more changes
        ev.hit('served-again')
        counted = None
        log.append('served')
        if src.bool(1, 3) and isinstance(r.response, list) and not explicit \
                and not had:
            ev.hit('changed-between')
            v = piece(src, charset)
            r.response.append(v)
            log.append(('append', v))
            body = body + [enc(v, charset)]
        if status in (100, 204, 304, 150) or src.bool(1, 4):
            r.status_code = src.choice((200, 404))
    if any(b > 127 for x in body for b in x[:50]):
        ev.hit('non-ascii')
    if total > 5000:
        ev.hit('big')
    ev.key(shape, [p[:20] for p in pieces], charset, auto, implicit,
           [x if isinstance(x, str) else x[0] for x in log], status, method)
    ev.sample('history', shape=shape, log=log, headers=res.headers,
              sent=len(res.body))


class Partial(io.RawIOBase):
    """A file whose read() returns less than asked for."""

    def __init__(self, data, src):
        self.b = io.BytesIO(data)
        self.src = src

    def readable(self):
        return True

    def read(self, n=-1):
        if n > 1 and self.src.bool():
            n = self.src.int(1, n)
        return self.b.read(n)


def files(src, ev):
    """Wrapped files with a declared length: all bytes are sent."""
    from verktyg.responses import Response
    from verktyg.wsgi import FileWrapper
    data = bytes(bytearray(src.draw(256) for _ in range(src.size(6)))) * \
        src.choice((1, 2, 50, 3000))
    size = src.choice((1, 3, 64, 8192, len(data) or 1))
    if len(data) // size > 3000:
        size = 64
    f = io.BytesIO(data) if src.bool() else Partial(data, src)
    r = Response(FileWrapper(f, size), direct_passthrough=True,
                 mimetype='a/b')
    if src.bool():
        r.content_length = len(data)
    ev.note(n=len(data), size=size)
    if src.bool(1, 3):
        ev.eq(r.calculate_content_length(), None, 'length-of-passthrough')
    if src.bool(1, 3):
        r.make_conditional(gen.environ('/'))
    res = serve(r, gen.environ('/'), ev)
    ev.hit('wrapped-file')
    ev.eq(res.body, data, 'file-body')
    cl = res.get('content-length')
    if cl:
        ev.eq(cl, [str(len(data))], 'file-length')
    ev.ok(all(len(c) <= size for c in res.chunks), 'block-too-big')
    ev.key('file', len(data), size, type(f).__name__)


def lengths(ev):
    """Every length up to 300 and neighbours of powers of two, as text and
    bytes, one and several pieces."""
    from verktyg.responses import Response
    sizes = list(range(300)) + [2 ** k + d for k in range(9, 18)
                                for d in (-1, 0, 1)]
    for n in sizes:
        for ch in ('a', u'\xe4', u'\u2603', b'x'):
            unit = len(enc(ch, 'utf-8'))
            for r in (Response(ch * n), Response([ch] * 3 + [ch * n])):
                extra = 0 if len(r.response) == 1 else 3
                ev.case()
                ev.hit('calculated')
                ev.eq(r.calculate_content_length(), unit * (n + extra),
                      'calculated-length', n=n, ch=ch)
                res = serve(r, gen.environ('/'), ev)
                ev.eq(res.get('content-length'), [str(unit * (n + extra))],
                      'content-length-wrong', n=n, ch=ch)
                ev.eq(len(res.body), unit * (n + extra), 'body-length')
            ev.key('len', n, ch)


SCENARIOS = [
    Scenario('history', history, 16000, 400000),
    Scenario('files', files, 1500, 20000),
]
DIRECTED = [('lengths', lengths)]
