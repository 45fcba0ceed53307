"""Request bodies are never read past their declared length."""
import io

from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('sequences of read operations on a request body are executed against '
        'a recording server stream that holds more bytes than declared (or '
        'fewer: disconnect) and against a plain in-memory file; every call '
        'to the server stream and every returned byte string is compared; '
        'distinct = hash of operations, length and fault')
ASSUMPTIONS = ['the server stream blocks until the requested bytes are there '
               '(PEP 3333), fewer bytes mean that the client is gone',
               'size hints of readlines are positive',
               'content lengths are plain digits or clearly invalid']
REQUIRED = {'op': 9000, 'complete': 600, 'disconnected': 500,
            'told': 400, 'wire-call': 1000, 'request': 800, 'no-length': 100,
            'bad-length': 100, 'terminated': 60, 'app-body': 300,
            'line-iter': 200, 'shallow': 5, 'swept': 200, 'override': 100,
            'as-text': 100, 'big': 5}


class Overread(Exception):
    """Not an OSError/ValueError: the library must not swallow it."""


class Wire(object):
    """What a server hands over.  `data` is what arrives, `limit` what was
    declared.  fault: None, 'eof', or an exception class raised when bytes
    beyond the ones that arrived are requested."""

    def __init__(self, ev, data, limit, fault=None):
        self.ev = ev
        self.data = data
        self.limit = limit
        self.fault = fault
        self.pos = 0
        self.armed = True

    def _want(self, n, what):
        self.ev.hit('wire-call')
        if not self.armed or self.pos >= len(self.data) < self.limit:
            return   # nothing left that could be taken by mistake
        if not isinstance(n, int) or n < 0 or self.pos + n > self.limit:
            raise Overread('%s(%r) at %d of %d' % (what, n, self.pos,
                                                   self.limit))

    def _short(self, got, n):
        if self.fault not in (None, 'eof') and n and len(got) < n \
                and self.pos >= len(self.data):
            raise self.fault('connection lost')

    def read(self, n=-1):
        self._want(n, 'read')
        if n is None or n < 0:
            n = len(self.data)
        got = self.data[self.pos:self.pos + n]
        self.pos += len(got)
        self._short(got, n)
        return got

    def readline(self, n=-1):
        self._want(n, 'readline')
        if n is None or n < 0:
            n = len(self.data)
        window = self.data[self.pos:self.pos + n]
        i = window.find(b'\n')
        got = window if i < 0 else window[:i + 1]
        self.pos += len(got)
        if i < 0 and not got:
            self._short(got, n)
        return got

    def readlines(self, hint=-1):
        raise Overread('readlines called on the server stream')

    def __iter__(self):
        raise Overread('server stream iterated')

    def __next__(self):
        raise Overread('server stream iterated')


def body(src):
    k = src.draw(8)
    if k < 5:
        s = src.text('ab\n\n\r', 12, 60)
        return s.encode()
    if k < 7:
        return bytes(src.draw(256) for _ in range(src.int(0, 20)))
    unit = src.text('abc\n\r\xff', 5, lo=1).encode('latin1')
    n = src.int(0, 90000) if src.bool(1, 4) else gen.num(src, 1 << 17)
    return (unit * (n // len(unit) + 1))[:n]


def operation(src, stream_like=True):
    k = src.draw(14)
    if k < 4:
        return 'read', (size(src),)
    if k < 5:
        return 'read', ()
    if k < 8:
        return 'readline', (size(src),)
    if k < 10:
        return 'readline', ()
    if k < 11:
        return 'readlines', ()
    if k < 12:
        return 'readlines-hint', (src.int(1, 9),)
    if k < 13:
        return 'next', ()
    return 'exhaust', ((src.int(1, 9),) if src.bool() else ())


def size(src):
    k = src.draw(8)
    if k < 5:
        return src.int(0, 6)
    if k < 6:
        return src.choice((-1, None, 1 << 30))
    return gen.num(src, 1 << 17)


def apply(stream, op, args, ref=False):
    if op == 'read':
        return stream.read(*args)
    if op == 'readline':
        return stream.readline(*args)
    if op == 'readlines':
        return stream.readlines()
    if op == 'readlines-hint':
        return stream.readlines(*args)
    if op == 'next':
        try:
            return next(stream)
        except StopIteration:
            return 'stop'
    if op == 'exhaust':
        if ref:
            stream.read()
            return None
        return stream.exhaust(*args)


def flat(r):
    if isinstance(r, list):
        return b''.join(r)
    if r is None or r == 'stop':
        return b''
    return r


def drive(ev, src, stream, wire, whole, declared, steps, kind):
    """whole: the bytes that arrive; declared >= len(whole) or less."""
    import verktyg.exceptions as ex
    full = whole[:declared]
    gone = len(full) < declared
    ref = io.BytesIO(full)
    out = 0
    lost = False
    for _ in range(steps):
        op, args = operation(src)
        pos = ref.tell()
        if op == 'readlines-hint' and not gone:
            r = apply(stream, op, args)
            got = flat(r)
            ev.ok(isinstance(r, list) and b'' not in r, 'empty-line',
                  op=op, args=args, got=r)
            ev.eq(got, full[pos:pos + len(got)], 'wrong-bytes', op=op,
                  args=args, pos=pos)
            ev.ok(len(got) >= min(args[0], len(full) - pos), 'too-few-bytes',
                  op=op, args=args, got=r, left=len(full) - pos)
            ref.seek(pos + len(got))
            ev.hit('op')
            continue
        if not gone:
            want = apply(ref, op, args, ref=True)
            got = apply(stream, op, args)
            ev.eq(got, want, 'wrong-result', op=op, args=args, pos=pos,
                  stream=kind)
            ev.hit('op')
            if hasattr(stream, 'limit'):
                ev.eq(stream.tell(), ref.tell(), 'wrong-position', op=op)
                ev.eq(bool(stream.is_exhausted), ref.tell() >= declared,
                      'wrong-exhausted', op=op)
                ev.eq(wire.pos, ref.tell(), 'bytes-taken', op=op)
            continue
        # the client goes away before the declared length
        ev.hit('op')
        try:
            got = apply(stream, op, args)
        except ex.ClientDisconnected as e:
            ev.eq(e.code, 400, 'disconnect-code')
            ev.ok(wire.pos >= len(full) or lost, 'told-too-early', op=op,
                  args=args, taken=wire.pos, arrived=len(full))
            lost = True
            ev.hit('told')
            continue
        b = flat(got)
        ev.ok(not (lost and b), 'bytes-after-disconnect', op=op, got=got)
        ev.eq(b, full[out:out + len(b)], 'made-up-data', op=op, args=args,
              at=out, arrived=full[-50:])
        if op in ('exhaust', 'readlines') or op == 'read' and (
                not args or args[0] is None or args[0] < 0 or
                out + args[0] > len(full)):
            ev.fail('truncated-body-looks-complete', op=op, args=args,
                    got=got, declared=declared, arrived=len(full))
        if op == 'read':
            ev.eq(len(b), args[0], 'short-read', op=op, args=args)
        if not b and op in ('next', 'readline') and not (
                args and args[0] == 0):
            ev.fail('truncated-body-looks-complete', op=op, args=args,
                    got=got, declared=declared, arrived=len(full))
        if op == 'exhaust':
            out = len(full)
        else:
            out += len(b)
    return lost


def limited(src, ev):
    from verktyg.wsgi import LimitedStream
    data = body(src)
    gone = src.bool(1, 3)
    fault = None
    if gone:
        declared = len(data) + src.choice((1, 2, 5, 100, 1 << 33))
        fault = src.choice(('eof', OSError, ValueError, ConnectionResetError))
        wire = Wire(ev, data, declared, fault)
        ev.hit('disconnected')
    else:
        declared = src.choice((len(data), src.int(0, len(data))))
        wire = Wire(ev, data + b'TRIPWIRE\nTRIPWIRE\n', declared)
        ev.hit('complete')
    if len(data) > 60000:
        ev.hit('big')
    ev.note(declared=declared, arrives=len(data), fault=str(fault),
            head=data[:60])
    stream = LimitedStream(wire, declared)
    steps = src.int(1, 14)
    drive(ev, src, stream, wire, data, declared, steps, 'LimitedStream')
    ev.key(declared, fault, data[:80], steps)
    ev.case()


def make_environ(src, ev, data, declared, wire, extra=()):
    env = gen.environ('/', '', 'POST')
    env['wsgi.input'] = wire
    if declared is None:
        del env['CONTENT_LENGTH']
    else:
        env['CONTENT_LENGTH'] = declared
    env.update(extra)
    return env


def classes():
    import verktyg.requests as rq
    return (rq.BaseRequest, rq.Request, rq.PlainRequest)


def request(src, ev):
    """The request object and its ways to the body."""
    from verktyg.wsgi import get_content_length, get_input_stream
    import verktyg.exceptions as ex
    data = body(src)
    mode = src.weighted([(6, 'plain'), (2, 'absent'), (2, 'bad'),
                         (2, 'gone'), (1, 'terminated')])
    extra = {}
    arrives = data + b'TRIPWIRE\n'
    if mode == 'plain':
        n = src.choice((len(data), src.int(0, len(data))))
        declared = str(n)
        if src.bool(1, 4):
            declared = src.choice((' %d', '%d ', '0%d')) % n
        full = data[:n]
        limit = n
    elif mode == 'absent':
        declared = src.choice((None, ''))
        full, limit = b'', 0
        ev.hit('no-length')
    elif mode == 'bad':
        declared = src.choice(('abc', '-1', '-5', '1.5', '1e3', '0x10', '5,5',
                               '5 5', '\xff', 'None', '-', '--5', '5a',
                               '5;', '"5"', '\x00', 'chunked', 'inf', 'nan'))
        full, limit = b'', 0
        ev.hit('bad-length')
    elif mode == 'terminated':
        extra['wsgi.input_terminated'] = True
        declared = src.choice((None, '0', str(len(data)), 'x', '99999'))
        arrives = data
        full, limit = data, len(data)
        ev.hit('terminated')
    else:
        n = len(data) + src.int(1, 50)
        declared = str(n)
        arrives = data
        full, limit = data, n
    if mode != 'terminated' and src.bool(1, 6):
        # the server says that the end is not marked
        extra['wsgi.input_terminated'] = src.choice((False, None, 0, ''))
        ev.hit('not-terminated')
    wire = Wire(ev, arrives, limit, 'eof')
    if mode == 'terminated':
        wire.armed = False
        wire = io.BytesIO(arrives)
    env = make_environ(src, ev, data, declared, wire, extra)
    cls = src.choice(classes())
    ev.note(mode=mode, declared=declared, cls=cls.__name__,
            arrives=len(arrives), head=data[:40])
    req = cls(env)
    ev.hit('request')
    if mode in ('plain', 'gone'):
        ev.eq(get_content_length(env), limit, 'content-length')
    elif mode == 'absent':
        ev.eq(get_content_length(env), None, 'content-length')
    elif mode == 'bad':
        ev.ok(get_content_length(env) in (None, 0), 'content-length',
              got=get_content_length(env))
    way = src.draw(5)
    if way == 0:
        # several get_data calls
        if mode == 'gone':
            ev.raises(ex.ClientDisconnected, req.get_data,
                      'truncated-body-looks-complete')
            ev.hit('told')
        else:
            text = src.bool(1, 3)
            want = full.decode('utf-8', 'replace') if text else full
            ev.eq(req.get_data(as_text=text), want, 'get-data')
            ev.eq(req.get_data(), full, 'get-data-again')
            ev.eq(req.get_data(cache=src.bool()), full, 'get-data-cached')
            if text:
                ev.hit('as-text')
    elif way == 1:
        if mode == 'gone':
            ev.raises(ex.ClientDisconnected,
                      lambda: req.get_data(cache=False),
                      'truncated-body-looks-complete')
            ev.hit('told')
        else:
            text = src.bool(1, 3)
            ev.eq(req.get_data(cache=False, as_text=text),
                  full.decode('utf-8', 'replace') if text else full,
                  'get-data-uncached')
            ev.eq(req.get_data(), b'', 'body-twice')
            ev.eq(req.stream.read(), b'', 'body-twice')
    elif way == 2:
        # a part by the stream, the rest by get_data
        k = src.int(0, len(full))
        ev.eq(req.stream.read(k), full[:k], 'stream-part')
        if mode == 'gone':
            ev.raises(ex.ClientDisconnected, req.get_data,
                      'truncated-body-looks-complete')
            ev.hit('told')
        else:
            ev.eq(req.get_data(), full[k:], 'rest-of-body')
            ev.eq(req.get_data(), full[k:], 'rest-of-body')
    elif way == 3 and mode in ('plain', 'gone'):
        drive(ev, src, req.stream, wire, arrives, limit, src.int(1, 8),
              cls.__name__)
    else:
        s = get_input_stream(env)
        if mode == 'gone':
            ev.raises(ex.ClientDisconnected, s.read,
                      'truncated-body-looks-complete')
            ev.hit('told')
        else:
            ev.eq(s.read(), full, 'input-stream')
            ev.eq(s.read(), b'', 'input-stream-end')
    if mode not in ('gone', 'terminated'):
        ev.ok(wire.pos <= limit, 'overread', taken=wire.pos, limit=limit)
    if src.bool(1, 8):
        shallow = src.choice((BaseShallow(), None))
        if shallow is not None:
            req = shallow(gen.environ('/', '', 'POST', body=b'abc'))
            ev.raises(RuntimeError, req.get_data, 'shallow-request-read')
            ev.hit('shallow')
    ev.key(mode, declared, cls.__name__, way, data[:60])
    ev.case()


def BaseShallow():
    from verktyg.requests import Request

    def make(env):
        return Request(env, shallow=True)
    return make


def lines(src, ev):
    """Line iteration over a request body stays inside it as well."""
    from verktyg.wsgi import make_line_iter, make_chunk_iter, LimitedStream
    data = body(src)
    n = src.int(0, len(data))
    wire = Wire(ev, data + b'TRIP\nTRIP\n', n)
    kw = {}
    if src.bool():
        stream = LimitedStream(wire, n)
    else:
        stream = wire
        kw['limit'] = n
    size = src.choice((1, 2, 3, 7, 10240)) if n < 500 else 10240
    ev.note(declared=n, buffer=size, wrapped=stream is not wire,
            head=data[:60])
    if src.bool():
        got = b''.join(make_line_iter(stream, buffer_size=size, **kw))
        ev.eq(got, data[:n], 'line-iter-bytes')
    else:
        got = b','.join(make_chunk_iter(stream, b',', buffer_size=size, **kw))
        ev.eq(got, data[:n], 'chunk-iter-bytes')
    ev.ok(wire.pos == n, 'line-iter-taken', taken=wire.pos, declared=n)
    ev.hit('line-iter')
    ev.key('lines', n, size, data[:60])
    ev.case()


def through_app(src, ev):
    """A view that reads the body in pieces; two requests on one
    connection: the second one must still be there."""
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    first, second = body(src), body(src)
    k = src.int(0, len(first))
    how = src.draw(4)
    seen = []

    builder = ApplicationBuilder()
    builder.add_routes(Route('/', endpoint='x'))

    @builder.expose('x', methods=['POST'])
    def view(app, req):
        if how == 0:
            seen.append(req.get_data())
        elif how == 1:
            seen.append(req.stream.read(k) + req.get_data())
        elif how == 2:
            seen.append(b''.join(req.stream))
        else:
            seen.append(b''.join(req.stream.readlines()))
        return Response(seen[-1])

    app = builder()
    conn = Wire(ev, first + second, len(first))
    for part in (first, second):
        env = make_environ(src, ev, part, str(len(part)), conn)
        res = serve(app, env, ev)
        ev.eq(res.code, 200, 'app-status')
        ev.eq(res.body, part, 'app-body', way=how)
        conn.limit = len(first) + len(second)
        ev.hit('app-body')
    ev.eq(len(seen), 2, 'view-calls')
    ev.key('app', how, first[:40], second[:40])
    ev.case()


def overrides(src, ev):
    """on_exhausted and on_disconnect decide what the program sees."""
    from verktyg.wsgi import LimitedStream

    class Custom(LimitedStream):
        exhausted = 0
        disconnected = 0

        def on_exhausted(self):
            self.exhausted += 1
            return b''

        def on_disconnect(self):
            self.disconnected += 1
            return b''
    data = src.text('ab\n', 10).encode()
    gone = src.bool()
    declared = len(data) + (src.int(1, 5) if gone else 0)
    fault = src.choice(('eof', OSError, ValueError))
    wire = Wire(ev, data, declared, fault if gone else None)
    s = Custom(wire, declared)
    op = src.choice(('read', 'readline', 'readlines', 'next', 'exhaust'))
    ev.note(op=op, declared=declared, data=data, fault=str(fault))
    got = b''
    for _ in range(len(data) + 3):
        r = apply(s, op, ())
        got += flat(r)
        if op in ('readlines', 'exhaust'):
            break
        if not flat(r):
            break
    ev.ok(data.startswith(got), 'override-bytes', got=got)
    if gone:
        ev.ok(s.disconnected > 0, 'on-disconnect-not-called', op=op)
    elif op not in ('readlines', 'exhaust'):
        ev.ok(s.exhausted > 0, 'on-exhausted-not-called', op=op)
        ev.eq(s.disconnected, 0, 'on-disconnect-called', op=op)
        ev.eq(got, data, 'override-bytes', op=op)
    ev.hit('override')
    ev.key('override', op, gone, data)
    ev.case()


def sweep(ev):
    """All pairs of operations on all short bodies."""
    import itertools
    from verktyg.wsgi import LimitedStream
    ops = [('read', (0,)), ('read', (1,)), ('read', (2,)), ('read', (3,)),
           ('read', (-1,)), ('read', ()), ('readline', ()),
           ('readline', (0,)), ('readline', (1,)), ('readline', (2,)),
           ('readline', (-1,)), ('readlines', ()), ('next', ()),
           ('exhaust', ()), ('exhaust', (1,)), ('exhaust', (2,))]
    for n in range(4):
        for chars in itertools.product((b'a', b'\n'), repeat=n):
            data = b''.join(chars)
            for pair in itertools.product(ops, repeat=2):
                wire = Wire(ev, data + b'\nXX', n)
                s = LimitedStream(wire, n)
                ref = io.BytesIO(data)
                for op, args in pair + (('read', ()),):
                    ev.eq(apply(s, op, args), apply(ref, op, args, True),
                          'wrong-result', data=data, ops=pair)
                    ev.eq(s.tell(), ref.tell(), 'wrong-position', data=data,
                          ops=pair)
                ev.eq(wire.pos, n, 'bytes-taken', data=data, ops=pair)
                ev.hit('swept')


DIRECTED = [('sweep', sweep)]
SCENARIOS = [
    Scenario('limited', limited, 2500),
    Scenario('request', request, 1800),
    Scenario('lines', lines, 200),
    Scenario('through_app', through_app, 160),
    Scenario('overrides', overrides, 150),
]
