"""Clean-up exactly once, for every way a request can end."""
from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('each generated response (iterable kinds, callbacks, middleware) is '
        'run once per consumer stop point and once per producer failure '
        'point; the event log is checked for exactly-once closing, order and '
        'no closing during production; distinct = hash of configuration and '
        'ending')
ASSUMPTIONS = [
    'the server calls close() on the iterable once, as PEP 3333 requires',
    'close methods and callbacks do not raise',
    'a direct_passthrough response is closed by an application or by '
    'close(), not by the bare iterable',
]
REQUIRED = {'failed-collection': 1000, 'ending-complete': 1500, 'ending-partial': 2000,
            'ending-unstarted': 1500, 'ending-producer-fails': 1500,
            'ending-view-fails': 200, 'ending-start-fails': 200,
            'ending-handler-fails': 100, 'closed-once': 20000,
            'callback-once': 20000, 'order-checked': 4000,
            'request-callback-once': 3000, 'file-closed': 1000,
            'late-callback': 500, 'head': 500, 'sequence-made': 500,
            'middleware': 1000, 'upload-closed': 500, 'with-statement': 300,
            'closing-iterator': 1000, 'overlapping': 1000,
            'second-request-object': 300}


class Boom(Exception):
    pass


class Log(object):
    def __init__(self):
        self.events = []

    def __call__(self, *e):
        self.events.append(e)

    def count(self, *e):
        return sum(1 for x in self.events if x[:len(e)] == e)


class Callback(object):
    """Every registration counts, whether or not the callables look alike."""

    def __init__(self, log, name):
        self.log = log
        self.name = name

    def __call__(self):
        self.log('callback', self.name)

    def __eq__(self, other):
        return isinstance(other, Callback)

    def __hash__(self):
        return 1


class Body(object):
    """Iterable with close."""

    def __init__(self, log, chunks, fail_at, name='body'):
        self.log = log
        self.chunks = chunks
        self.fail_at = fail_at
        self.name = name
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i == self.fail_at:
            self.log('fail')
            raise Boom(self.i)
        if self.i >= len(self.chunks):
            raise StopIteration
        self.i += 1
        self.log('produce', self.i)
        return self.chunks[self.i - 1]

    def close(self):
        self.log('close', self.name)


class Container(Body):
    """Iterable whose iterator is another object (close is on the
    iterable)."""

    def __iter__(self):
        def it():
            for i, c in enumerate(self.chunks):
                if i == self.fail_at:
                    self.log('fail')
                    raise Boom(i)
                self.log('produce', i + 1)
                yield c
            if self.fail_at == len(self.chunks):
                self.log('fail')
                raise Boom(self.fail_at)
        return it()


def generator(log, chunks, fail_at, name='body', on_first=None):
    try:
        for i, c in enumerate(chunks):
            if i == fail_at:
                log('fail')
                raise Boom(i)
            if i == 0 and on_first is not None:
                on_first()
            log('produce', i + 1)
            yield c
        if fail_at == len(chunks):
            log('fail')
            raise Boom(fail_at)
    finally:
        log('close', name)


class File(object):
    def __init__(self, log, chunks, fail_at):
        self.log = log
        self.chunks = list(chunks)
        self.i = 0
        self.fail_at = fail_at

    def read(self, n=-1):
        if self.i == self.fail_at:
            self.log('fail')
            raise Boom(self.i)
        if self.i >= len(self.chunks):
            return b''
        self.i += 1
        self.log('produce', self.i)
        return self.chunks[self.i - 1]

    def close(self):
        self.log('close', 'body')


class Layer(object):
    """Middleware using ClosingIterator."""

    def __init__(self, app, log, name, single):
        self.app = app
        self.log = log
        self.name = name
        self.single = single

    def __call__(self, environ, start_response):
        from verktyg.wsgi import ClosingIterator

        def cb():
            self.log('callback', self.name)
        it = self.app(environ, start_response)
        return ClosingIterator(it, cb if self.single else [cb])


def config(src):
    c = {}
    c['kind'] = src.choice(('body', 'generator', 'container', 'file', 'list',
                            'text', 'generator', 'closing'))
    n = src.weighted([(3, 2), (2, 0), (2, 1), (2, 3), (1, 5), (1, 12)])
    c['chunks'] = [src.choice((b'a', b'', b'bc', b'x' * 50, b'\xff'))
                   for _ in range(n)]
    if c['kind'] == 'file':
        c['chunks'] = [x or b'y' for x in c['chunks']]
    c['callbacks'] = src.size(3, 20)
    c['sequence'] = src.bool(1, 5) and c['kind'] not in ('file',)
    c['sequence_at'] = src.int(0, c['callbacks'])
    c['late'] = src.bool(1, 4) and c['kind'] == 'generator' and \
        not c['sequence']
    c['status'] = src.choice((200, 200, 200, 404, 204, 304, 101))
    c['method'] = src.choice(('GET', 'GET', 'GET', 'HEAD'))
    c['req_callbacks'] = src.size(2, 8)
    c['layers'] = [src.bool() for _ in range(src.size(2, 5))] \
        if src.bool(1, 2) else []
    c['uploads'] = src.size(2) if src.bool(1, 3) else 0
    c['alike'] = src.bool(1, 3)
    c['buffered_status'] = src.bool(1, 8)
    return c


def make(c, log, fail_at, passthrough_ok=True):
    """A response as configured; returns (response, expected order of
    closing events)."""
    from verktyg.responses import Response
    from verktyg.wsgi import FileWrapper, ClosingIterator
    kw = {'status': c['status']}
    holder = []
    order = []
    has_close = True
    if c['kind'] == 'body':
        b = Body(log, c['chunks'], fail_at)
    elif c['kind'] == 'container':
        b = Container(log, c['chunks'], fail_at)
    elif c['kind'] == 'generator':
        def first():
            if c['late']:
                holder[0].call_on_close(lambda: log('callback', 'late'))
        b = generator(log, c['chunks'], fail_at, on_first=first)
    elif c['kind'] == 'file':
        b = FileWrapper(File(log, c['chunks'], fail_at), 100)
        kw['direct_passthrough'] = passthrough_ok
    elif c['kind'] == 'closing':
        b = ClosingIterator(Body(log, c['chunks'], fail_at), [
            lambda: log('callback', 'ci1'), lambda: log('callback', 'ci2')])
    elif c['kind'] == 'list':
        b = list(c['chunks'])
        has_close = False
    else:
        b = b''.join(c['chunks'])
        has_close = False
    r = Response(b, **kw)
    holder.append(r)
    cbs = []

    def reg(i):
        if c['alike']:
            cb = Callback(log, i)
        else:
            def cb():
                log('callback', i)
        cbs.append(('callback', i))
        got = r.call_on_close(cb)
        return got is cb
    body_close = []
    if has_close:
        body_close = [('close', 'body')]
        if c['kind'] == 'closing':
            body_close += [('callback', 'ci1'), ('callback', 'ci2')]
    ok = True
    made = False
    for i in range(c['callbacks'] + 1):
        if c['sequence'] and i == c['sequence_at'] and has_close and \
                fail_at is None:
            r.get_data() if i % 2 else r.make_sequence()
            cbs.append(None)
            made = True
        if i < c['callbacks']:
            ok = reg(i) and ok
    if made:
        # closing the consumed iterable takes the place where it was
        # registered
        if c['kind'] == 'generator':
            # an exhausted generator has closed itself
            order = [x for x in cbs if x is not None]
            pre = [('close', 'body')]
        else:
            k = cbs.index(None)
            order = cbs[:k] + body_close + cbs[k + 1:]
            pre = []
    else:
        order = body_close + cbs
        pre = []
    return r, order, pre, ok, made


def closing(log):
    return [e for e in log.events if e[0] in ('close', 'callback')]


def judge(ev, c, log, res, want, pre, ending, started_body=True):
    """want: closing events in order.  A generator that ended by itself (or
    was never begun) closes as part of production."""
    got = closing(log)
    ev.note(config=c, ending=ending, got=got, want=want, events=log.events)
    if pre:
        ev.eq(got[:len(pre)], pre, 'sequence-not-consumed')
        got = got[len(pre):]
    late = ('callback', 'late')
    if c['kind'] == 'generator' and not pre:
        # the finally clause belongs to the body: it runs when the generator
        # ends, is closed, or not at all when it never began
        began = any(e[0] in ('produce', 'fail') for e in log.events) or \
            (not c['chunks'] and started_body)
        body = ('close', 'body')
        n = got.count(body)
        ev.ok(n <= 1, 'body-closed-%d-times' % n)
        if began and started_body is not None:
            ev.eq(n, 1, 'generator-not-closed')
        got = [e for e in got if e != body]
        want = [e for e in want if e != body]
        if c['late'] and any(e[0] == 'produce' for e in log.events):
            ev.hit('late-callback')
            req = [e for e in want if isinstance(e[1], str)]
            mine = [e for e in want if not isinstance(e[1], str)]
            want = mine + [late] + req
    for e in want:
        n = got.count(e)
        if n != 1:
            ev.fail('%s-ran-%d-times' % (
                'close' if e[0] == 'close' else 'callback', n), event=e)
        ev.hit('closed-once' if e[0] == 'close' else 'callback-once')
        if isinstance(e[1], str) and e[1].startswith('req'):
            ev.hit('request-callback-once')
    for e in got:
        ev.ok(e in want, 'unknown-closing-event', event=e)
    ev.eq(got, want, 'closing-order')
    ev.hit('order-checked')
    # nothing is produced after something was closed
    seen = False
    for e in log.events[len(pre):] if not pre else []:
        if e[0] in ('close', 'callback'):
            if c['kind'] != 'generator' or e != ('close', 'body'):
                seen = True
        elif e[0] in ('produce', 'fail') and seen:
            ev.fail('closed-while-producing')
        elif e[0] == 'received' and seen:
            ev.fail('closed-before-the-server-was-done')
    if c['kind'] == 'file' and want:
        ev.hit('file-closed')
    if c['method'] == 'HEAD':
        ev.hit('head')
    if pre or (c['sequence'] and c['kind'] != 'generator'):
        ev.hit('sequence-made')
    if c['layers'] and ending != 'direct':
        ev.hit('middleware')
    ev.key(c['kind'], len(c['chunks']), c['callbacks'], c['sequence'],
           c['sequence_at'], c['late'], c['status'], c['method'],
           c['req_callbacks'], c['layers'], c['uploads'], ending)


def bodyless(c):
    s = c['status']
    return c['method'] == 'HEAD' or 100 <= s < 200 or s in (204, 304)


def endings(c, src):
    n = len(c['chunks'])
    out = [('complete', None, None)]
    if not bodyless(c):
        for k in range(0, n + 1):
            out.append(('stop', k, None))
        if c['kind'] in ('body', 'generator', 'container', 'file',
                         'closing') and not c['sequence']:
            for k in range(0, n + 1):
                out.append(('fail', None, k))
    else:
        out.append(('stop', 0, None))
    if len(out) > 8:
        out = out[:3] + [src.choice(out[3:]) for _ in range(4)]
    return out


def name_of(kind, stop, fail, c):
    if kind == 'fail':
        return 'ending-producer-fails'
    if kind == 'complete':
        return 'ending-complete'
    return 'ending-unstarted' if stop == 0 else 'ending-partial'


def direct(src, ev):
    """Bare response objects."""
    c = config(src)
    c['layers'] = []
    for kind, stop, fail in endings(c, src):
        log = Log()
        r, want, pre, ok, made = make(c, log, fail, passthrough_ok=False)
        ev.ok(ok, 'call-on-close-return-value')
        env = gen.environ('/', method=c['method'])
        ev.case()
        if kind == 'complete' and src.bool(1, 4):
            ev.hit('with-statement')
            with r as same:
                ev.ok(same is r, 'enter')
                log('inside')
                ev.eq([e for e in closing(log) if e not in pre], [],
                      'closed-too-early')
            judge(ev, c, log, None, want, pre, ('with',),
                  started_body=None)
            continue
        ev.hit(name_of(kind, stop, fail, c))
        res = serve(r, env, ev, stop=stop, expect=(Boom,),
                    on_chunk=lambda n: log('received', n))
        ev.eq(res.error is not None, fail is not None, 'failure-lost')
        judge(ev, c, log, res, want, pre, (kind, stop, fail, 'direct'),
              started_body=stop != 0 and not bodyless(c) or made)


class Upload(object):
    def __init__(self, log, i):
        self.log = log
        self.i = i

    def read(self, n=-1):
        return b''

    def close(self):
        self.log('close', 'req-upload-%d' % self.i)


def application(src, ev):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.datastructures import MultiDict
    from verktyg.http import FileStorage
    from verktyg.responses import Response
    c = config(src)
    special = []
    if src.bool(1, 4):
        special = [('view-fails', None, None), ('start-fails', None, None),
                   ('handler', None, None), ('handler-fails', None, None)]
    for kind, stop, fail in endings(c, src) + special:
        log = Log()
        state = {}

        def view(app, req):
            log('view')
            for i in range(c['req_callbacks']):
                cb = Callback(log, 'req-%d' % i)
                ev.ok(req.call_on_close(
                    cb if c['alike'] else lambda cb=cb: cb()) is not None,
                    'call-on-close-return-value')
            if c['uploads']:
                req.files = MultiDict(
                    [('f%d' % (i % 2), FileStorage(Upload(log, i)))
                     for i in range(c['uploads'])])
            if kind in ('view-fails', 'handler', 'handler-fails'):
                raise Boom('view')
            return respond()

        def respond():
            r, want, pre, ok, made = make(c, log, fail)
            state.update(want=want, pre=pre, made=made)
            return r
        b = ApplicationBuilder()
        b.add_routes(Route('/', endpoint='x'))
        b.expose('x')(view)
        if kind in ('handler', 'handler-fails'):
            @b.exception_handler(Boom)
            def handle(app, req, t, e, tb):
                if kind == 'handler-fails':
                    raise Boom('handler')
                return respond()
        for i, single in enumerate(c['layers']):
            b.add_middleware(Layer, log, 'req-layer%d' % i, single)
        app = b()
        env = gen.environ('/', method=c['method'])
        ev.case()
        outer = [('callback', 'req-layer%d' % i)
                 for i in range(len(c['layers']))]
        # all uploads belong to the request; order by key
        ups = []
        for key in ('f0', 'f1'):
            ups += [('close', 'req-upload-%d' % i)
                    for i in range(c['uploads'])
                    if 'f%d' % (i % 2) == key]
        reqs = ups + [('callback', 'req-%d' % i)
                      for i in range(c['req_callbacks'])]
        if kind in ('view-fails', 'handler-fails'):
            ev.hit('ending-' + kind)
            res = serve(app, env, ev, expect=(Boom,),
                        on_chunk=lambda n: log('received', n))
            ev.ok(res.error is not None and res.calls == 0, 'failure-lost')
            judge(ev, dict(c, kind='list'), log, res, reqs + outer, [],
                  (kind,))
            continue
        if kind == 'start-fails':
            ev.hit('ending-start-fails')

            def sr(s, h, e=None):
                raise Boom('start')
            it = None
            err = None
            try:
                it = app(env, sr)
                for x in it:
                    pass
            except Boom as e:
                err = e
            finally:
                if it is not None:
                    it.close()
            ev.ok(err is not None, 'failure-lost')
            judge(ev, c, log, None, state['want'] + reqs + outer,
                  state['pre'], (kind,), started_body=state['made'])
            continue
        if kind == 'handler':
            kind = 'complete'
        ev.hit(name_of(kind, stop, fail, c))
        res = serve(app, env, ev, stop=stop, expect=(Boom,),
                    on_chunk=lambda n: log('received', n))
        ev.eq(res.error is not None, fail is not None, 'failure-lost')
        if stop == 0:
            # never started: nothing was opened, nothing to close but what
            # the layers added
            ev.eq(log.count('view'), 0, 'view-called-without-iteration')
            judge(ev, dict(c, kind='list'), log, res, outer, [],
                  ('unstarted',))
            continue
        ev.eq(log.count('view'), 1, 'view-call-count')
        judge(ev, c, log, res, state['want'] + reqs + outer, state['pre'],
              (kind, stop, fail, 'app'),
              started_body=not bodyless(c) or state['made'])
        if ups:
            ev.hit('upload-closed')
    ev.sample('application', config=c, events=log.events)


def iterators(src, ev):
    """ClosingIterator by itself: nesting, callback forms."""
    from verktyg.wsgi import ClosingIterator
    chunks = [b'%d' % i for i in range(src.size(4))]
    log = Log()
    kind = src.choice(('body', 'container', 'list', 'generator'))
    fail = src.int(0, len(chunks)) if src.bool(1, 3) and kind != 'list' \
        else None
    stop = src.int(0, len(chunks)) if src.bool() else None
    if kind == 'body':
        it = Body(log, chunks, fail)
    elif kind == 'container':
        it = Container(log, chunks, fail)
    elif kind == 'generator':
        it = generator(log, chunks, fail)
    else:
        it = list(chunks)
    want = [('close', 'body')] if kind in ('body', 'container') else []
    depth = src.int(1, 3)
    for d in range(depth):
        n = src.size(3, 12)
        names = ['%d-%d' % (d, i) for i in range(n)]
        cbs = [Callback(log, x) for x in names] if src.bool(1, 3) else \
            [lambda x=x: log('callback', x) for x in names]
        form = src.draw(4)
        if form == 0:
            it = ClosingIterator(it, iter(cbs))
        elif form == 1:
            given = tuple(cbs)
            it = ClosingIterator(it, given)
        elif form == 2:
            cbs, names = cbs[:1], names[:1]
            it = ClosingIterator(it, cbs[0] if cbs else None)
        else:
            given = list(cbs)
            it = ClosingIterator(it, given)
            ev.eq(len(given), len(cbs), 'callback-list-changed')
        want += [('callback', x) for x in names]
    ev.note(kind=kind, chunks=chunks, fail=fail, stop=stop, want=want)
    ev.ok(iter(it) is it, 'not-its-own-iterator')
    got = []
    err = None
    try:
        if stop != 0:
            for x in it:
                got.append(x)
                bad = [e for e in closing(log) if e != ('close', 'body')]
                ev.eq(bad, [], 'closed-while-producing')
                if len(got) == stop:
                    break
    except Boom as e:
        err = e
    seen = closing(log)
    if kind != 'generator':
        ev.eq(seen, [], 'closed-before-close')
    it.close()
    ev.hit('closing-iterator')
    limit = len(chunks) if stop is None else stop
    if fail is not None:
        limit = min(limit, fail)
    ev.eq(got, chunks[:limit], 'chunks')
    if fail is not None and stop is None:
        ev.ok(err is not None, 'failure-lost')
    c = closing(log)
    if kind == 'generator':
        ev.ok(c.count(('close', 'body')) <= 1, 'generator-closed-twice')
        if stop != 0:
            ev.eq(c.count(('close', 'body')), 1, 'generator-not-closed')
        c = [e for e in c if e != ('close', 'body')]
    ev.eq(c, want, 'closing-order')
    ev.hit('callback-once', len(want))
    ev.key('iter', kind, len(chunks), fail, stop, want)


def failing_sequence(src, ev):
    """The body fails while the program itself collects it."""
    from verktyg.responses import Response
    c = config(src)
    c['sequence'] = False
    c['kind'] = src.choice(('body', 'container', 'generator', 'closing'))
    fail = src.int(0, len(c['chunks']))
    log = Log()
    r, want, pre, ok, made = make(c, log, fail)
    use = src.choice((r.get_data, r.make_sequence, r.freeze,
                      r.calculate_content_length, r.add_etag))
    ev.note(config=c, use=use.__name__)
    times = src.int(1, 2) if c['kind'] == 'body' else 1
    for _ in range(times):
        ev.raises(Boom, use, 'failure-lost')
    body = ('close', 'body')
    ev.eq([e for e in closing(log) if e != body or c['kind'] != 'generator'],
          [], 'closed-too-early')
    if src.bool():
        with r:
            pass
    else:
        r.close()
    got = closing(log)
    if c['kind'] == 'generator':
        ev.eq(got.count(body), 1, 'generator-not-closed')
        got = [e for e in got if e != body]
        want = [e for e in want if e != body]
        late = ('callback', 'late')
        if late in got:
            want = want + [late]
    ev.eq(got, want, 'closing-after-failed-collection')
    ev.hit('failed-collection')
    ev.key('failing', c['kind'], len(c['chunks']), fail, use.__name__, want)
    ev.case()


def overlap(src, ev):
    """One application, several requests on their way at once; further
    request objects for the same environments."""
    from verktyg.application import ApplicationBuilder
    from verktyg.requests import Request
    from verktyg.routing import Route
    from verktyg.responses import Response
    b = ApplicationBuilder()
    b.add_routes(Route('/', endpoint='x'))

    class Early(Exception):
        pass

    @b.expose('x')
    def view(app, req):
        t = req.environ['test.run']
        t.register(req, 'req')
        if t.extra == 'view':
            t.other(Request)
        if t.fails:
            raise Early()
        body = Body(t.log, t.chunks, None) if t.kind else \
            Container(t.log, t.chunks, None)
        r = Response(body, status=t.status)
        t.register(r, 'res')
        return r

    class Run(object):
        def __init__(self, i):
            self.i = i
            self.log = Log()
            self.kind = src.bool()
            self.chunks = [b'c%d' % k for k in range(src.size(3) + 1)]
            self.status = src.choice((200, 200, 204, 404))
            self.n = src.int(0, 3)
            self.fails = src.bool(1, 5)
            self.extra = src.choice((None, 'view', 'before', 'between'))
            self.want = []
            self.others = []
            self.env = gen.environ('/')
            self.env['test.run'] = self
            self.it = None
            self.started = False
            self.done = False

        def register(self, obj, kind):
            for k in range(self.n):
                cb = Callback(self.log, '%s-%d' % (kind, k))
                obj.call_on_close(cb)
            self.want.append((kind, self.n))

        def other(self, cls):
            """Another request object, opened and closed by other code."""
            with cls(self.env) as r:
                r.call_on_close(lambda: self.log('other'))
                before = closing(self.log)
            ev.eq(closing(self.log), before,
                  'closing-one-request-ran-callbacks-of-another')
            ev.eq(self.log.count('other'), 1, 'callback-count')
            self.log.events[:] = [e for e in self.log.events
                                  if e != ('other',)]
            ev.hit('second-request-object')
    app = b()
    runs = [Run(i) for i in range(src.int(2, 4))]
    ev.note(runs=[(r.n, r.kind, r.status, r.fails, r.extra, len(r.chunks))
                  for r in runs])
    live = list(runs)
    order = []
    for _ in range(60):
        if not live:
            break
        r = src.choice(live)
        order.append(r.i)
        seen = [(x, len(x.log.events)) for x in runs if x is not r]
        if r.it is None:
            if r.extra == 'before':
                r.other(Request)
            r.it = app(r.env, lambda s, h, e=None: lambda d: None)
        elif src.bool(1, 6):
            r.it.close()
            r.done = True
        else:
            if r.extra == 'between':
                r.other(Request)
            r.started = True
            try:
                next(r.it)
            except StopIteration:
                r.it.close()
                r.done = True
            except Early:
                r.it.close()
                r.done = True
            else:
                ev.eq(closing(r.log), [], 'closed-while-producing')
        for x, n in seen:
            ev.eq(len(x.log.events), n, 'one-request-touched-another',
                  events=x.log.events)
        if r.done:
            live.remove(r)
            want = []
            if r.started:
                if not r.fails:
                    want = [('close', 'body')] + \
                        [('callback', 'res-%d' % k) for k in range(r.n)]
                want += [('callback', 'req-%d' % k) for k in range(r.n)]
            ev.eq(closing(r.log), want, 'closing-events', order=order)
            ev.hit('overlapping')
    for r in live:
        if r.it is not None:
            r.it.close()
    ev.key('overlap', order, [(r.n, r.kind, r.status, r.fails, r.extra)
                              for r in runs])


SCENARIOS = [
    Scenario('failing-sequence', failing_sequence, 1500, 20000),
    Scenario('overlap', overlap, 1500, 30000),
    Scenario('direct', direct, 3000, 60000),
    Scenario('application', application, 3000, 60000),
    Scenario('iterators', iterators, 3000, 40000),
]
