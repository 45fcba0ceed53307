"""A WSGI server with a protocol monitor (written from PEP 3333; it shares
nothing with the library)."""
import re

STATUS = re.compile(r'[0-9]{3} [\x20-\x7e\x80-\xff]+\Z')
NAME = re.compile(r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+\Z")
HOP = {'connection', 'keep-alive', 'proxy-authenticate',
       'proxy-authorization', 'te', 'trailers', 'transfer-encoding',
       'upgrade'}


class Result(object):
    def __init__(self):
        self.status = None
        self.headers = None
        self.chunks = []
        self.calls = 0
        self.error = None
        self.closed = 0
        self.length_seen = 0

    @property
    def code(self):
        return int(self.status[:3])

    @property
    def body(self):
        return b''.join(self.chunks)

    def get(self, name):
        """All values of a header."""
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def one(self, name):
        vs = self.get(name)
        return vs[0] if len(vs) == 1 else (None if not vs else tuple(vs))


def check_headers(ev, headers):
    ev.ok(type(headers) is list, 'wsgi-headers-not-a-list', headers=headers)
    for item in headers:
        ev.ok(type(item) is tuple and len(item) == 2,
              'wsgi-header-not-a-pair', item=item)
        k, v = item
        ev.ok(type(k) is str and type(v) is str,
              'wsgi-header-not-native', item=item)
        ev.ok(NAME.match(k), 'wsgi-header-name', item=item)
        ev.ok(not any(ord(c) < 32 and c != '\t' or ord(c) == 127
                      for c in v), 'wsgi-header-control', item=item)
        try:
            v.encode('latin1')
        except UnicodeError:
            ev.fail('wsgi-header-not-latin1', item=item)
        ev.hit('header-checked')


def serve(app, env, ev, stop=None, expect=(), close=True, on_chunk=None):
    """Run one request.  stop: close after that many chunks (0: before the
    first one).  Exceptions of the classes in `expect` are kept in .error,
    all others go through.  close() is always called, once."""
    res = Result()
    done = []

    def start_response(status, headers, exc_info=None):
        res.calls += 1
        ev.ok(res.calls == 1, 'wsgi-start-response-twice')
        ev.ok(exc_info is None, 'wsgi-exc-info')
        ev.ok(type(status) is str and STATUS.match(status),
              'wsgi-status', status=status)
        check_headers(ev, headers)
        res.status = status
        res.headers = list(headers)
        # PEP 3333: the list is the server's from here on
        headers.append(('X-Server-Added', 'by the server'))
        ev.ok(not res.chunks, 'wsgi-started-after-body')
        ev.hit('start-response')

        def write(data):
            ev.ok(type(data) is bytes, 'wsgi-write-not-bytes', data=data)
            res.chunks.append(data)
        return write
    it = None
    try:
        it = app(env, start_response)
        ev.ok(not isinstance(it, (str, bytes)), 'wsgi-iterable-is-a-string')
        if stop != 0:
            n = 0
            for chunk in it:
                ev.ok(type(chunk) is bytes, 'wsgi-chunk-not-bytes',
                      chunk=chunk)
                ev.ok(res.calls == 1, 'wsgi-body-before-start', chunk=chunk)
                res.chunks.append(chunk)
                ev.hit('chunk')
                n += 1
                if on_chunk is not None:
                    on_chunk(n)
                if stop is not None and n >= stop:
                    break
            else:
                done.append(1)
                ev.ok(res.calls == 1, 'wsgi-start-response-never-called')
    except expect as e:
        res.error = e
    finally:
        if close and it is not None and hasattr(it, 'close'):
            try:
                it.close()
            except expect as e:
                res.error = res.error or e
            res.closed = 1
    res.complete = bool(done)
    return res
