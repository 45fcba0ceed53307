"""Line, chunk and file iteration do not depend on buffering."""
import io
import os
import re
import shutil
import itertools
import tempfile

from vf.engine import Scenario
from vf import gen

RULE = ('the same data is cut into lines or chunks with many buffer sizes '
        'and fragmentations and compared with a one-shot splitter; wrapped '
        'and uploaded files are read, iterated and saved and compared with '
        'their bytes; distinct = hash of data, separator and cut')
ASSUMPTIONS = ['separators are not empty', 'buffer sizes are positive',
               'streams with a limit deliver what is asked for (PEP 3333)']
REQUIRED = {'lines-stream': 1500, 'lines-fragments': 1000, 'crlf-cut': 200,
            'chunks-stream': 1000, 'chunks-fragments': 800,
            'separator-cut': 200, 'text': 800, 'long-line': 15,
            'wrapped-file': 500, 'server-wrapper': 60, 'file-storage': 600,
            'saved-path': 80, 'saved-file': 80, 'swept-lines': 3000,
            'swept-chunks': 2000, 'limit-zero': 200, 'rejected': 3, 'empty': 20,
            'storage-meta': 300, 'lazy': 100}

LINE_B = re.compile(br'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+')
LINE_T = re.compile(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+')


def want_lines(data):
    return (LINE_T if isinstance(data, str) else LINE_B).findall(data)


def want_chunks(data, sep):
    """A character wise splitter."""
    if not data:
        return []
    out, start, i = [], 0, 0
    while i < len(data):
        if data[i:i + len(sep)] == sep:
            out.append(data[start:i])
            i += len(sep)
            start = i
        else:
            i += 1
    out.append(data[start:])
    return out


class Dribble(object):
    """A stream which delivers less than asked for (sockets, pipes)."""

    def __init__(self, pieces):
        self.pieces = list(pieces)
        self.log = []

    def read(self, n=-1):
        self.log.append(n)
        if not self.pieces:
            return b''
        p = self.pieces[0]
        if n is None or n < 0 or n >= len(p):
            return self.pieces.pop(0)
        self.pieces[0] = p[n:]
        return p[:n]


def content(src, text):
    k = src.draw(10)
    if k < 5:
        s = src.text('ab\r\n', 12, 60)
    elif k < 7:
        s = src.text('a\r\n\x0b\x0c\x1c\x85\u2028\x00' if text
                     else 'a\r\n\x0b\x0c\x1c\x85\x00', 12, 60)
    elif k < 9:
        s = gen.text(src, gen.PRINTABLE + '\r\n' + ('\xe4\u4e2d\U0001f600'
                                                    if text else '\xff'), 10)
    else:
        unit = src.text(src.choice(('abc', 'abc\r\n')), 6, lo=1)
        n = src.int(0, 40000) if src.bool() else gen.num(src, 40000)
        s = (unit * (n // len(unit) + 1))[:n]
    return s if text else s.encode('latin1')


def cut(src, data):
    pieces = src.partition(data)
    if src.bool(1, 4):
        # empty pieces in between mean nothing
        out = []
        for p in pieces:
            if src.bool(1, 4):
                out.append(data[:0])
            out.append(p)
        pieces = out + [data[:0]] * src.draw(2)
    return pieces


def bufsize(src, data):
    if len(data) > 3000:
        return src.choice((1 << 10, 1 << 13, 10240, 10239, len(data)))
    return src.choice((1, 1, 2, 2, 3, 4, 5, 7, 16, 10240,
                       max(1, len(data)), len(data) + 1))


def collect(it, ev):
    out = []
    for x in it:
        out.append(x)
        if len(out) > 300000:
            ev.fail('endless')
    return out


def lines(src, ev):
    from verktyg.wsgi import make_line_iter, LimitedStream
    text = src.bool(1, 3)
    data = content(src, text)
    want = want_lines(data)
    if text:
        ev.hit('text')
    if not data:
        ev.hit('empty')
    if max([len(x) for x in want] or [0]) > 5000:
        ev.hit('long-line')
    mode = src.draw(4)
    size = bufsize(src, data)
    if mode == 0 or text:
        pieces = cut(src, data) if len(data) < 3000 else [
            data[i:i + 4096] for i in range(0, len(data), 4096)]
        ev.note(lines_of=data[:200], pieces=pieces[:30])
        it = src.choice((iter, list, tuple))(pieces)
        got = collect(make_line_iter(it), ev)
        ev.hit('lines-fragments')
        if any(a[-1:] in ('\r', b'\r') and b[:1] in ('\n', b'\n')
               for a, b in zip(pieces, pieces[1:])):
            ev.hit('crlf-cut')
        ev.key('l', data[:100], len(data), [len(p) for p in pieces[:50]])
    else:
        ev.note(lines_of=data[:200], size=len(data), buffer=size, mode=mode)
        if mode == 1:
            it = make_line_iter(io.BytesIO(data), limit=len(data),
                                buffer_size=size)
        elif mode == 2:
            s = io.BytesIO(data + b'\nNEXT')
            it = make_line_iter(LimitedStream(s, len(data)),
                                buffer_size=size)
        else:
            it = make_line_iter(Dribble(src.partition(data)
                                        if len(data) < 3000 else [data]),
                                buffer_size=size)
        got = collect(it, ev)
        ev.hit('lines-stream')
        i = data.find(b'\r\n')
        if i >= 0 and (i + 1) % size == 0:
            ev.hit('crlf-cut')
        ev.key('ls', data[:100], len(data), size, mode)
    ev.eq(got, want, 'lines')
    if len(data) < 200:
        ev.eq(data[:0].join(got), data, 'bytes-lost')
    ev.case()


def separator(src, data, text):
    k = src.draw(6)
    if k < 2:
        s = src.choice(('\n', ',', 'a', '\r\n', 'aa', 'ab', 'aba', '\r'))
    elif k < 4 and len(data) > 1:
        i = src.draw(len(data) - 1)
        s = data[i:i + src.int(1, 4)]
        return s
    elif k < 5:
        s = gen.text(src, 'ab\r\n-', 4, 30, lo=1)
    else:
        s = '--' + src.text('ab', 8, 40)
    return s if text else s.encode('latin1')


def chunks(src, ev):
    from verktyg.wsgi import make_chunk_iter, LimitedStream
    text = src.bool(1, 3)
    data = content(src, text)
    sep = separator(src, data, text)
    if len(data) < 300 and src.bool(1, 3):
        # make sure that it occurs
        for _ in range(src.int(1, 4)):
            i = src.draw(len(data) + 1)
            data = data[:i] + sep + data[i:]
    want = data.split(sep) if len(data) > 2000 else want_chunks(data, sep)
    if text:
        ev.hit('text')
    if not data:
        ev.hit('empty')
    mode = src.draw(4)
    size = bufsize(src, data)
    if mode == 0 or text:
        pieces = cut(src, data) if len(data) < 3000 else [
            data[i:i + 4096] for i in range(0, len(data), 4096)]
        ev.note(chunks_of=data[:200], separator=sep, pieces=pieces[:30])
        got = collect(make_chunk_iter(
            src.choice((iter, list, tuple))(pieces), sep), ev)
        ev.hit('chunks-fragments')
        pos = 0
        found = {m.start() for m in re.finditer(re.escape(sep), data)} \
            if len(data) < 300 else ()
        for p in pieces[:-1]:
            pos += len(p)
            if any(f < pos < f + len(sep) for f in found):
                ev.hit('separator-cut')
                break
        ev.key('c', data[:100], sep, [len(p) for p in pieces[:50]])
    else:
        ev.note(chunks_of=data[:200], separator=sep, buffer=size, mode=mode)
        if mode == 1:
            it = make_chunk_iter(io.BytesIO(data), sep, limit=len(data),
                                 buffer_size=size)
        elif mode == 2:
            s = io.BytesIO(data + sep + b'NEXT')
            it = make_chunk_iter(LimitedStream(s, len(data)), sep,
                                 buffer_size=size)
        else:
            it = make_chunk_iter(Dribble(src.partition(data)
                                         if len(data) < 3000 else [data]),
                                 sep, buffer_size=size)
        got = collect(it, ev)
        ev.hit('chunks-stream')
        ev.key('cs', data[:100], sep, size, mode)
    ev.eq(got, want, 'chunks')
    ev.case()


def lazy(src, ev):
    """A line that is complete is not held back until the end of the input:
    an endless stream can be processed."""
    from verktyg.wsgi import make_line_iter, make_chunk_iter
    lines = src.int(1, 6)
    text = src.bool()
    nl = '\n' if text else b'\n'

    def endless():
        n = 0
        while True:
            n += 1
            if n > 200:
                ev.fail('complete-line-held-back')
            yield (str(n) if text else str(n).encode()) + nl
    fn = src.bool()
    it = make_line_iter(endless()) if fn else make_chunk_iter(endless(), nl)
    for i in range(lines):
        w = str(i + 1) if text else str(i + 1).encode()
        ev.eq(next(it), w + nl if fn else w, 'endless-stream')
    ev.hit('lazy')
    ev.key('lazy', lines, text, fn)
    ev.case()


def some_bytes(src):
    k = src.draw(6)
    if k < 3:
        return src.text('ab\r\n\x00', 14, 80).encode()
    if k < 5:
        return bytes(src.draw(256) for _ in range(src.int(0, 30)))
    unit = src.text('abc\n', 6, lo=1).encode()
    n = gen.num(src, 1 << 16)
    return (unit * (n // len(unit) + 1))[:n]


def wrapped(src, ev):
    from verktyg.wsgi import FileWrapper, wrap_file
    data = some_bytes(src)
    size = bufsize(src, data)
    start = src.int(0, len(data)) if src.bool(1, 4) else 0
    dribble = src.bool(1, 4)
    if dribble and len(data) < 3000:
        f = Dribble(src.partition(data[start:]))
    else:
        f = io.BytesIO(data)
        f.seek(start)
    mode = src.draw(3)
    ev.note(file=data[:100], size=len(data), start=start, block=size,
            mode=mode)
    if mode == 0:
        it = FileWrapper(f, size)
    elif mode == 1:
        it = wrap_file(gen.environ(), f, size)
    else:
        calls = []

        def server_wrapper(file, block=8192):
            calls.append((file, block))
            return 'wrapped'
        env = gen.environ()
        env['wsgi.file_wrapper'] = server_wrapper
        ev.eq(wrap_file(env, f, size), 'wrapped', 'server-wrapper-result')
        ev.ok(len(calls) == 1 and calls[0][0] is f and calls[0][1] == size,
              'server-wrapper-call', calls=calls)
        ev.hit('server-wrapper')
        ev.key('sw', size)
        ev.case()
        return
    got = collect(it, ev)
    ev.ok(all(0 < len(b) <= size for b in got), 'block-size',
          sizes=[len(b) for b in got][:50])
    ev.eq(b''.join(got), data[start:], 'file-bytes')
    ev.eq(list(it), [], 'file-after-end')
    if isinstance(f, io.BytesIO):
        it.close()
        ev.ok(f.closed, 'file-not-closed')
    ev.hit('wrapped-file')
    ev.key('w', data[:60], len(data), size, start, dribble)
    ev.case()


def scratch():
    return tempfile.mkdtemp(prefix='vf-c20-')


def storage(src, ev):
    from verktyg.http import FileStorage
    data = some_bytes(src)
    tmp = None
    try:
        kind = src.draw(5)
        if kind == 0:
            stream = io.BytesIO(data)
        elif kind == 1:
            stream = io.BufferedReader(io.BytesIO(data))
        elif kind == 2:
            stream = tempfile.SpooledTemporaryFile(max_size=10)
            stream.write(data)
            stream.seek(0)
        elif kind == 3:
            stream = tempfile.TemporaryFile()
            stream.write(data)
            stream.seek(0)
        else:
            tmp = tmp or scratch()
            name = os.path.join(tmp, 'up.bin')
            with open(name, 'wb') as f:
                f.write(data)
            stream = open(name if src.bool() else name.encode(), 'rb')
        given = src.choice((None, 'f.txt', '\u4e2d.bin'))
        if kind == 3 and given is None and src.bool():
            given = 'x'
        fs = FileStorage(stream, filename=given)
        ev.note(data=data[:80], size=len(data), stream=type(stream).__name__,
                filename=given)
        if given is not None:
            ev.eq(fs.filename, given, 'filename')
        elif kind == 4:
            ev.eq(fs.filename, os.path.join(tmp, 'up.bin'), 'filename')
        start = src.int(0, min(len(data), 50)) if src.bool(1, 3) else 0
        ev.eq(fs.read(start), data[:start], 'storage-read')
        ev.eq(fs.tell(), start, 'storage-tell')
        left = data[start:]
        how = src.draw(6)
        size = bufsize(src, data)
        if how == 0:
            ev.eq(collect(iter(fs), ev), io.BytesIO(left).readlines(),
                  'storage-iteration')
        elif how == 1:
            ev.eq(fs.read(), left, 'storage-read')
        elif how == 2:
            tmp = tmp or scratch()
            dst = os.path.join(tmp, 'saved')
            if src.bool():
                with open(dst, 'wb') as f:
                    f.write(b'old content which is long' * 3)
            if src.bool():
                fs.save(dst)
            else:
                fs.save(dst, size)
            with open(dst, 'rb') as f:
                ev.eq(f.read(), left, 'saved-bytes')
            ev.hit('saved-path')
        elif how == 3:
            dst = io.BytesIO()
            dst.write(b'head')
            fs.save(dst, buffer_size=size)
            ev.eq(dst.getvalue(), b'head' + left, 'saved-bytes')
            ev.ok(not dst.closed, 'destination-closed')
            ev.hit('saved-file')
        elif how == 4:
            got = []
            while True:
                b = fs.readline()
                if not b:
                    break
                got.append(b)
            ev.eq(got, io.BytesIO(left).readlines(), 'storage-lines')
        else:
            fs.seek(0)
            ev.eq(fs.stream.read(), data, 'storage-seek')
        fs.close()
        ev.ok(stream.closed, 'storage-not-closed')
        fs.close()
        ev.hit('file-storage')
        ev.key('fs', kind, how, data[:60], len(data), start, size)
        ev.case()
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def storage_meta(src, ev):
    from verktyg.http import FileStorage, Headers, parse_options_header
    name = src.choice((None, 'field', 'x'))
    filename = src.choice((None, '', 'a.txt', '<x>', gen.text(src)))
    ctype = src.choice((None, 'text/plain', 'TEXT/HTML; charset=utf-8',
                        'a/b;c="d;e"', 'image/png'))
    clen = src.choice((None, 0, 5, 123456789, '77'))
    headers = None
    if src.bool():
        headers = Headers([('X-Field', 'v'), ('Content-Type', 'old/type')])
    fs = FileStorage(io.BytesIO(b'x'), filename=filename, name=name,
                     content_type=ctype, content_length=clen,
                     headers=headers)
    ev.note(filename=filename, content_type=ctype, content_length=clen,
            headers=headers)
    ev.eq(fs.name, name, 'name')
    ev.eq(fs.filename, filename, 'filename')
    ev.eq(bool(fs), bool(filename), 'truth')
    wtype = ctype if ctype is not None else (
        'old/type' if headers is not None else None)
    ev.eq(fs.content_type, wtype, 'content-type')
    ev.eq(fs.content_length, int(clen or 0), 'content-length')
    base, params = {
        None: ('', {}), 'text/plain': ('text/plain', {}),
        'TEXT/HTML; charset=utf-8': ('text/html', {'charset': 'utf-8'}),
        'a/b;c="d;e"': ('a/b', {'c': 'd;e'}),
        'image/png': ('image/png', {}), 'old/type': ('old/type', {}),
    }[wtype]
    ev.eq(fs.mimetype, base, 'mimetype')
    ev.eq(fs.mimetype_params, params, 'mimetype-params')
    if headers is not None:
        ev.eq(fs.headers.get('X-Field'), 'v', 'headers')
    repr(fs)
    ev.eq(FileStorage().read(), b'', 'empty-storage')

    class Named(io.BytesIO):
        pass
    s = Named(b'y')
    s.name = src.choice(('/p/q.txt', b'/p/q.txt', '<stdin>', '<fdopen>',
                         '', b'<x>', 'u\xe4', 7, '<a.txt', 'a>', '<', '>',
                         '<p>/q.txt'))
    fs = FileStorage(s)
    want = s.name
    if isinstance(want, int):
        want = None
    if isinstance(want, bytes):
        want = want.decode()
    if want in ('<stdin>', '<fdopen>', '<x>'):
        want = None
    ev.eq(fs.filename or None, want or None, 'filename-of-stream',
          name=s.name)
    ev.hit('storage-meta')
    ev.key('meta', name, filename, ctype, clen, s.name)
    ev.case()


def compositions(n):
    """All ways to cut n characters into consecutive pieces."""
    for bits in itertools.product((0, 1), repeat=max(0, n - 1)):
        cuts = [i + 1 for i, b in enumerate(bits) if b]
        yield [0] + cuts + [n]


def sweep_lines(ev):
    from verktyg.wsgi import make_line_iter
    for n in range(7):
        for chars in itertools.product(('a', '\r', '\n'), repeat=n):
            text = ''.join(chars)
            data = text.encode()
            want = want_lines(data)
            for size in range(1, n + 2):
                got = list(make_line_iter(io.BytesIO(data), limit=n,
                                          buffer_size=size))
                ev.eq(got, want, 'lines', data=data, buffer=size)
                ev.hit('swept-lines')
            if n <= 5:
                wt = want_lines(text)
                for cuts in compositions(n):
                    p = [text[a:b] for a, b in zip(cuts, cuts[1:])]
                    ev.eq(list(make_line_iter(p)), wt, 'lines', pieces=p)
                    ev.hit('swept-lines')


def sweep_chunks(ev):
    from verktyg.wsgi import make_chunk_iter
    for n in range(7):
        for chars in itertools.product('ab', repeat=n):
            data = ''.join(chars)
            for sep in ('a', 'ab', 'aa', 'aba', 'aab', 'abab'):
                want = want_chunks(data, sep)
                for cuts in compositions(n):
                    p = [data[a:b] for a, b in zip(cuts, cuts[1:])]
                    ev.eq(list(make_chunk_iter(p, sep)), want, 'chunks',
                          pieces=p, separator=sep)
                    ev.hit('swept-chunks')


def nothing(src, ev):
    """A limit of zero: nothing is read."""
    from verktyg.wsgi import make_line_iter, make_chunk_iter
    data = some_bytes(src)
    size = src.choice((1, 2, 10, 10240))
    for it in (lambda f: make_line_iter(f, limit=0, buffer_size=size),
               lambda f: make_chunk_iter(f, b'\n', limit=0,
                                         buffer_size=size)):
        f = io.BytesIO(data)
        ev.eq(b''.join(it(f)), b'', 'read-beyond-limit')
        ev.eq(f.tell(), 0, 'read-beyond-limit')
        ev.hit('limit-zero')
    n = src.int(0, min(len(data), 3000))
    ev.eq(list(make_line_iter(io.BytesIO(data), limit=n, buffer_size=size)),
          want_lines(data[:n]), 'lines-below-limit', limit=n)
    ev.key('limit', data[:60], n, size)
    ev.case()


def rejected(ev):
    """Strings are no streams: iterating them character by character would
    be an accident."""
    from verktyg.wsgi import make_line_iter, make_chunk_iter
    for bad in ('abc', b'abc', bytearray(b'abc')):
        ev.raises(TypeError, lambda: list(make_line_iter(bad)),
                  'string-accepted')
        ev.raises(TypeError, lambda: list(make_chunk_iter(bad, bad[:1])),
                  'string-accepted')
        ev.hit('rejected')


DIRECTED = [('sweep-lines', sweep_lines), ('sweep-chunks', sweep_chunks),
            ('rejected', rejected)]
SCENARIOS = [
    Scenario('lines', lines, 2600),
    Scenario('chunks', chunks, 2200),
    Scenario('lazy', lazy, 150),
    Scenario('nothing', nothing, 300),
    Scenario('wrapped', wrapped, 700),
    Scenario('storage', storage, 700),
    Scenario('storage_meta', storage_meta, 400),
]
