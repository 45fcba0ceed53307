"""Concurrent requests give the same responses as separate ones."""
import os
import sys
import json
import re
import threading

from vf.engine import Scenario, CODE
from vf.sched import Scheduler, aim
from vf.server import serve
from vf import gen

RULE = ('two to four requests (or map operations) on shared objects run '
        'under a token scheduler that may switch threads at every line or '
        'bytecode of the library; outcomes are compared with those on a '
        'fresh, unshared application; plus free running threads with a tiny '
        'switch interval and interleaved iteration in one thread; distinct '
        '= hash of workload and sequence of switches')
ASSUMPTIONS = [
    'views keep no shared state of their own',
    'request and response objects are not shared between threads',
]
REQUIRED = {'controlled-app': 250, 'controlled-map': 400,
            'controlled-add': 200, 'controlled-dispatch': 150,
            'switches': 3000, 'fresh-first': 300, 'stress-requests': 3000,
            'interleaved': 800, 'history': 800, 'opcode-level': 100,
            'aimed': 1500, 'wrapped': 300}


# -- the application ----------------------------------------------------------

def routes():
    from verktyg.routing import Route, Submount
    return [
        Route('/', endpoint='index'),
        Route('/a/<int:n>', endpoint='num'),
        Route('/a/<x>', endpoint='str'),
        Route('/a/<x>/<int:n>', endpoint='two'),
        Route('/a/fixed', endpoint='fixed'),
        Route('/dir/', endpoint='dir'),
        Route('/dir/<path:p>', endpoint='path'),
        Route('/dir/<path:p>/edit', endpoint='edit'),
        Route('/page/', defaults={'page': 1}, endpoint='page'),
        Route('/page/<int:page>', endpoint='page'),
        Route('/old/<int:n>', redirect_to='/a/<n>', endpoint='old'),
        Route('/u/<any(foo,bar):k>', endpoint='any'),
        Submount('/sub', [Route('/<float:f>', endpoint='float'),
                          Route('/boom/<x>', endpoint='boom')]),
        Route('/stream/<int:n>', endpoint='stream'),
        Route('/body', endpoint='body'),
        Route('/lang', endpoint='lang'),
        Route('/json/<x>', endpoint='json'),
        Route('/cond/<x>', endpoint='cond'),
        Route('/mix/<int:n>', defaults={'m': 1}, endpoint='mix'),
        Route('/mix/<int:n>/<int:m>', endpoint='mix'),
        Route('/rich/<int:n>', endpoint='rich'),
        Route('/away/<x>', endpoint='away'),
        Route('/abort/<int:n>', endpoint='abort'),
    ]


def echo(app, req, name, kw):
    return {
        'endpoint': name, 'kw': {k: repr(v) for k, v in kw.items()},
        'args': sorted(req.args.items(multi=True)),
        'cookies': sorted(req.cookies.items()),
        'path': req.path, 'url': req.url, 'host': req.host,
        'method': req.method, 'x': req.headers.get('x-tag'),
        'query': str(req.query_string),
        'agent': req.headers.get('user-agent'),
        'auth': repr(req.authorization and req.authorization.username),
        'inm': sorted(req.if_none_match),
        'cc': repr(req.cache_control.max_age),
        'binding': req.binding.name,
    }


def make_app(order=None, wrapped=True):
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.views import expose_json
    b = ApplicationBuilder()
    rs = routes()
    if order:
        rs = order(rs)
    b.add_routes(*rs)

    def add(name, methods=('GET', 'POST'), **opts):
        def view(app, req, **kw):
            r = Response(json.dumps(echo(app, req, name, kw)))
            r.headers['X-Tag'] = req.headers.get('x-tag', '')
            r.set_cookie('seen', name)
            r.headers['X-Url'] = app.url_for('two', x=name, n=len(name))
            return r
        b.expose(name, methods=methods, **opts)(view)
    for n in ('index', 'num', 'str', 'two', 'fixed', 'dir', 'path', 'edit',
              'page', 'old', 'any', 'float', 'mix'):
        add(n)
    for lang in ('en', 'de', 'fr'):
        def view(app, req, lang=lang):
            r = Response('%s %s' % (lang, req.headers.get('x-tag')))
            r.content_language = [lang]
            r.vary.add('Accept-Language')
            return r
        b.expose('lang', language=lang)(view)

    @b.expose('boom')
    def boom(app, req, x):
        raise KeyError(x + '|' + str(req.headers.get('x-tag')))

    @b.exception_handler(KeyError)
    def on_key(app, req, t, e, tb):
        return Response('key %s' % e.args[0], status=400)

    from verktyg.exceptions import HTTPException

    @b.exception_handler(HTTPException)
    def on_http(app, req, t, e, tb):
        return Response('http %d %s %s' % (e.code, req.path,
                                           req.headers.get('x-tag')),
                        status=e.code)

    @b.expose('stream')
    def stream(app, req, n):
        def it():
            for i in range(n):
                yield '%d:%s:%s;' % (i, req.headers.get('x-tag'), req.path)
        return Response(it())

    @b.expose('body', methods=['POST', 'PUT'])
    def body(app, req):
        return Response(req.get_data() + b'|' +
                        req.mimetype.encode('latin1'))

    @expose_json(b, 'json')
    def js(app, req, x):
        return echo(app, req, 'json', {'x': x})

    @b.expose('cond')
    def cond(app, req, x):
        r = Response('conditional ' + x)
        r.set_etag(x)
        r.headers['Date'] = 'Thu, 01 Jan 2015 00:00:00 GMT'
        return r.make_conditional(req)

    @b.expose('rich', methods=('GET', 'POST'))
    def rich(app, req, n):
        from verktyg.http import (
            parse_options_header, parse_dict_header, parse_range_header,
            parse_set_header, quote_header_value)
        from verktyg.utils import secure_filename
        from verktyg.urls import iri_to_uri, uri_to_iri
        h = req.headers
        r = Response(repr((
            sorted(req.form.items(multi=True)),
            sorted((k, f.filename, f.read(), f.mimetype)
                   for k, f in req.files.items(multi=True)),
            sorted(req.values.items(multi=True)), req.mimetype,
            sorted(req.mimetype_params.items()), req.referrer,
            req.content_length, str(req.if_range), req.range and
            req.range.ranges, req.if_modified_since,
            parse_options_header(h.get('x-options', '')),
            parse_dict_header(h.get('x-dict', '')),
            parse_set_header(h.get('x-dict', '')).as_set(),
            getattr(parse_range_header(h.get('x-range', '')), 'ranges', 0),
            req.url_root, req.base_url, req.script_root, req.host_url,
            iri_to_uri(req.url), uri_to_iri(req.url),
            secure_filename(req.path), req.date, req.max_forwards)))
        tag = h.get('x-tag', '')
        r.set_cookie('n', tag, max_age=n, expires=n, path='/' + tag)
        r.delete_cookie('old' + tag)
        r.vary.update(['X-Tag', tag])
        r.cache_control.max_age = n
        r.cache_control.private = [tag]
        r.www_authenticate.set_basic(tag)
        r.content_range.set(0, n + 1, n + 2)
        r.last_modified = 1000000000 + n
        r.age = n
        r.allow.add(tag)
        r.headers.add('Link', '<%s>' % quote_header_value(tag), rel='x')
        r.mimetype_params['p'] = tag
        r.call_on_close(lambda: None)
        return r

    @b.expose('away')
    def away(app, req, x):
        from verktyg.utils import redirect
        return redirect('/a/' + x + '?' + str(req.query_string), 303)

    @b.expose('abort')
    def stop(app, req, n):
        from verktyg.exceptions import abort
        abort((400, 401, 403, 404, 405, 409, 410, 418, 500, 503)[n % 10],
              'stop %d' % n)

    if wrapped:
        from verktyg.wsgi import DispatcherMiddleware, SharedDataMiddleware

        def inner(environ, start_response):
            start_response('200 OK', [('X-Inner', environ['PATH_INFO'])])
            return [(environ['SCRIPT_NAME'] + '|' + environ['PATH_INFO'] +
                     '|' + environ.get('HTTP_X_TAG', '')).encode('latin1')]
        b.add_middleware(DispatcherMiddleware, {
            '/m': inner, '/m/deep': inner})
        b.add_middleware(SharedDataMiddleware, {
            '/files': os.path.dirname(__file__),
            '/one': __file__}, disallow=['c0*'])
    return b('http://site.example/')


PATHS = ('/', '/a/%d', '/a/x%d', '/a/y%d/%d', '/a/fixed', '/dir', '/dir/',
         '/dir/p%d/q', '/dir/p%d/edit', '/page/', '/page/1', '/page/%d',
         '/old/%d', '/u/foo', '/u/bar', '/u/baz', '/sub/%d.5',
         '/sub/boom/z%d', '/stream/3', '/body', '/lang', '/json/j%d',
         '/mix/%d', '/mix/%d/1', '/mix/%d/%d',
         '/cond/c%d', '/missing/%d', '/rich/%d', '/rich/%d', '/away/w%d',
         '/abort/%d', '/m/x%d', '/m/deep/%d', '/files/__init__.py',
         '/files/c09.py', '/one')


# answered by middleware
WRAPPED = ('/m/x%d', '/m/deep/%d', '/files/__init__.py', '/files/c10.py',
           '/files/c09.py', '/one', '/files/none', '/files/c11.py')


def request(src, i, patterns=PATHS):
    """A description of a request; tagged so leaks are visible."""
    pattern = p = src.choice(patterns)
    k = 10 * i + src.draw(10)
    p = p.replace('%d', str(k))
    h = [('X-Tag', 't%d' % k), ('User-Agent', 'agent %d' % k),
         ('Cookie', 'c=%d; only%d=1' % (k, i))]
    if src.bool():
        h.append(('Accept-Language', src.choice(
            ('en', 'de', 'fr;q=0.5, de;q=0.4', '*', 'it'))))
    if src.bool(1, 3):
        import base64
        h.append(('Authorization', 'Basic ' + base64.b64encode(
            b'user%d:pw' % k).decode()))
    if src.bool(1, 3):
        h.append(('If-None-Match', '"c%d"' % (10 * src.draw(4) +
                                              src.draw(10))))
    if src.bool(1, 3):
        h.append(('Cache-Control', 'max-age=%d' % k))
    if src.bool(1, 3):
        h.append(('Accept', src.choice(('application/json', 'text/*',
                                        '*/*', 'a/b;q=0'))))
    method = 'GET'
    body = b''
    if p == '/body' or src.bool(1, 6):
        method = src.choice(('POST', 'PUT', 'HEAD'))
        body = b'body %d' % k if method != 'HEAD' else b''
    ctype = 'a/t%d' % k
    if pattern == '/rich/%d':
        h += rich_headers(src, k)
        if src.bool(2, 3):
            method, body, ctype = 'POST', *form(src, k)
    return {'path': p, 'query': 'q=%d&r%d=' % (k, i) if src.bool() else '',
            'method': method, 'headers': h, 'body': body,
            'host': 'host%d.example' % i, 'pattern': pattern,
            'CONTENT_TYPE': ctype}


def rich_headers(src, k):
    return [x for x in (
        ('X-Options', 'a; b=%d; c="x%d"' % (k, k)),
        ('X-Dict', 'a=%d, b="y%d", c' % (k, k)),
        ('X-Range', 'bytes=%d-%d' % (k, k + 5)),
        ('Range', 'bytes=%d-' % k),
        ('If-Range', src.choice(('"r%d"' % k,
                                 'Thu, 01 Jan 2015 00:00:%02d GMT'
                                 % (k % 60)))),
        ('If-Modified-Since', 'Thu, 01 Jan 2015 00:01:%02d GMT' % (k % 60)),
        ('Referer', 'http://r%d.example/' % k),
        ('Date', 'Thu, 01 Jan 2015 00:02:%02d GMT' % (k % 60)),
        ('Max-Forwards', str(k))) if src.bool(2, 3)]


def form(src, k):
    if src.bool():
        return (b'f=%d&g=a+%d&f=x%%20%d' % (k, k, k),
                'application/x-www-form-urlencoded; charset=utf-8')
    bd = b'bound%d' % k
    body = b''.join(
        b'--' + bd + b'\r\nContent-Disposition: form-data; name="' + n +
        b'"' + extra + b'\r\n\r\n' + v + b'\r\n'
        for n, extra, v in (
            (b'p', b'', b'v%d' % k),
            (b'up%d' % k, b'; filename="f%d.txt"\r\nContent-Type: text/t%d'
             % (k, k), b'content %d' % k * src.int(1, 50))))
    return body + b'--' + bd + b'--\r\n', \
        'multipart/form-data; boundary=bound%d' % k


def twin(src, spec, i):
    """A request like another one, with other data."""
    k = 10 * i + src.draw(10)
    other = request(src, i)
    p = spec['pattern'].replace('%d', str(k))
    if spec['pattern'] == '/rich/%d':
        other['headers'] += rich_headers(src, k)
    if spec['CONTENT_TYPE'].startswith(('app', 'multi')):
        body, ctype = form(src, k)
    else:
        body, ctype = spec['body'] and b'body %d' % k, 'a/t%d' % k
    return dict(other, path=p, pattern=spec['pattern'],
                method=spec['method'], body=body, CONTENT_TYPE=ctype)


def run_request(app, spec, ev):
    env = environ(spec)
    try:
        res = serve(app, env, ev)
    except Exception as e:
        from vf.engine import Violation
        if isinstance(e, Violation):
            raise
        return ('raised', type(e).__name__, str(e))
    return (res.status, timeless(spec, res.headers), res.body)


def timeless(spec, headers):
    if spec['path'].startswith(('/files', '/one')):
        # the clock
        return [h for h in headers if h[0] not in ('Date', 'Expires')]
    return headers


class Quiet(object):
    """Event sink for threads other than the main one."""

    def __init__(self):
        self.bad = None

    def hit(self, *a):
        pass

    def ok(self, cond, kind, **kw):
        if not cond:
            self.fail(kind, **kw)

    def fail(self, kind, **kw):
        raise AssertionError('%s %r' % (kind, kw))


def environ(spec):
    env = dict(spec, headers=list(spec['headers']))
    del env['pattern']
    return gen.environ(**env)


def reversed_order(rs):
    return list(reversed(rs))


def app_threads(src, ev):
    """Requests on one application, first ones included."""
    order = reversed_order if src.bool() else None
    n = src.int(2, 4)
    specs = [request(src, i) for i in range(n)]
    if src.bool(1, 4):
        specs = [request(src, i, WRAPPED) for i in range(n)]
        ev.hit('wrapped')
    elif src.bool():
        specs[1] = twin(src, specs[0], 1)
    want = [run_request(make_app(order), s, ev) for s in specs]
    app = make_app(order)
    used = src.bool(1, 3)
    op = src.bool(1, 5)
    aims = None
    if src.bool(3, 4):
        def alone(s):
            a = make_app(order)
            if used:
                run_request(a, specs[0], ev)
            return lambda: run_request(a, s, ev)
        aims = aim(src, [alone(s) for s in specs], CODE, op)
        ev.hit('aimed')
    if used:
        run_request(app, specs[0], ev)      # not fresh any more
    else:
        ev.hit('fresh-first')
    sch = Scheduler(src, CODE, opcodes=op, aims=aims)
    out = sch.run([lambda s=s: run_request(app, s, Quiet()) for s in specs])
    seen(ev, sch, op, 'app')
    ev.note(requests=[(s['method'], s['path'], s['query']) for s in specs],
            schedule=sch.trace[-40:], steps=sch.steps)
    if out is None:
        ev.fail('deadlock')
    ev.hit('controlled-app')
    for i, (got, exc) in enumerate(out):
        if exc is not None:
            ev.fail('concurrent-request-raised', exc=repr(exc), request=i)
        ev.eq(got, want[i], 'concurrent-response-differs', request=i)
    ev.key('app', [(s['method'], s['path']) for s in specs], sch.trace)
    ev.sample('schedule', requests=[s['path'] for s in specs],
              switches=sch.trace[:20], steps=sch.steps)


def seen(ev, sch, op, what):
    ev.hit('switches', sch.switches)
    ev.hit('steps', sch.steps)
    ev.hit('lock-waits', sch.steals)
    if op:
        ev.hit('opcode-level')


def map_ops(src, i):
    """An operation on an adapter, as (name, function)."""
    p = src.choice(PATHS).replace('%d', str(10 * i + src.draw(10)))
    k = src.draw(6)
    if k < 3:
        return ('match', p)
    if k == 3:
        return ('build', src.choice((
            ('num', {'n': i}), ('two', {'x': 'a', 'n': i}),
            ('page', {'page': 1}), ('page', {'page': i + 2}),
            ('mix', {'n': i}), ('mix', {'n': i, 'm': 1}),
            ('mix', {'n': i, 'm': i + 2}),
            ('path', {'p': 'a/b%d' % i}), ('nothing', {}),
            ('fixed', {'q': i}))))
    if k == 4:
        return ('iter', src.choice((None, 'num', 'page')))
    return ('test', p)


def do_op(m, op):
    from verktyg.routing import RequestRedirect, BuildError
    from verktyg.exceptions import NotFound
    a = m.bind('site.example', '/s')
    kind, arg = op
    try:
        if kind == 'match':
            return a.match(arg)
        if kind == 'test':
            return a.test(arg)
        if kind == 'build':
            return a.build(*arg)
        if kind == 'iter':
            return [(r.rule if hasattr(r, 'rule') else repr(r))
                    for r in m.iter_routes(arg)]
    except RequestRedirect as e:
        return ('redirect', e.new_url)
    except NotFound:
        return 'not found'
    except BuildError:
        return 'build error'


def make_map(order):
    from verktyg.routing import URLMap
    rs = routes()
    if order:
        rs = order(rs)
    return URLMap(rs)


def map_threads(src, ev):
    """Matching and building on a fresh map."""
    order = reversed_order if src.bool() else None
    n = src.int(2, 4)
    ops = [[map_ops(src, i) for _ in range(src.int(1, 3))]
           for i in range(n)]
    if src.bool():
        # the same route or endpoint with other values
        kind, arg = ops[0][0]
        if kind == 'match':
            ops[1][0] = (kind, re.sub('[0-9]+', lambda m: str(
                int(m.group()) + src.int(1, 9)), arg))
        elif kind == 'build':
            ops[1][0] = (kind, (arg[0], {
                k: v + 1 if isinstance(v, int) else v + 'x'
                for k, v in arg[1].items()}))
    want = []
    for o in ops:
        m = make_map(order)
        want.append([do_op(m, x) for x in o])
    m = make_map(order)
    used = src.bool(1, 4)
    if used:
        m.update()
    else:
        ev.hit('fresh-first')
    op = src.bool(1, 4)
    aims = None
    if src.bool(2, 3):
        def alone(o):
            m = make_map(order)
            if used:
                m.update()
            return lambda: [do_op(m, x) for x in o]
        aims = aim(src, [alone(o) for o in ops], CODE, op)
        ev.hit('aimed')
    sch = Scheduler(src, CODE, opcodes=op, aims=aims)
    out = sch.run([lambda o=o: [do_op(m, x) for x in o] for o in ops])
    seen(ev, sch, op, 'map')
    ev.note(ops=ops, schedule=sch.trace[-40:], steps=sch.steps)
    if out is None:
        ev.fail('deadlock')
    ev.hit('controlled-map')
    for i, (got, exc) in enumerate(out):
        if exc is not None:
            ev.fail('concurrent-map-operation-raised', exc=repr(exc), ops=i)
        ev.eq(got, want[i], 'concurrent-match-differs', thread=i)
    ev.key('map', ops, sch.trace)


def add_threads(src, ev):
    """Routes added while others are matched: each match gives the result of
    the map before or after, other paths never notice."""
    from verktyg.routing import Route, URLMap
    order = reversed_order if src.bool() else None

    def news():
        return [Route('/new/<int:n>', endpoint='new'),
                Route('/a/7', endpoint='seven'),
                Route('/dir/p/edit', endpoint='special'),
                Route('/q/<x>', endpoint='num')]
    pick = [j for j in range(4) if src.bool()] or [0]
    n = src.int(1, 2)
    ops = []
    for i in range(n):
        o = [map_ops(src, i) if src.bool() else
             ('match', src.choice(('/new/3', '/a/7', '/dir/p/edit', '/a/8',
                                   '/dir/p/q', '/q/z')))
             for _ in range(src.int(1, 3))]
        ops.append([x for x in o if x[0] != 'iter'] or [('match', '/')])
    # the states the map may go through: routes are added one by one
    states = []
    for k in range(len(pick) + 1):
        m = make_map(order)
        m.add_routes(*[news()[j] for j in pick[:k]])
        states.append(m)
    allowed = [[[do_op(m, x) for m in states] for x in o] for o in ops]
    m = make_map(order)
    updated = src.bool(2, 3)
    if updated:
        m.update()
    fresh = [news()[j] for j in pick]
    one_call = src.bool()

    def adder():
        if one_call:
            m.add_routes(*fresh)
        else:
            for r in fresh:
                m.add_routes(r)
        return 'added'
    op = src.bool(1, 4)
    aims = None
    if src.bool(2, 3):
        def alone():
            m2 = make_map(order)
            if updated:
                m2.update()
            new = [news()[j] for j in pick]

            def work():
                if one_call:
                    m2.add_routes(*new)
                else:
                    for r in new:
                        m2.add_routes(r)
            return work

        def reader(o):
            m2 = make_map(order)
            if updated:
                m2.update()
            return lambda: [do_op(m2, x) for x in o]
        aims = aim(src, [alone()] + [reader(o) for o in ops], CODE, op)
        ev.hit('aimed')
    works = [adder] + [lambda o=o: [do_op(m, x) for x in o] for o in ops]
    if aims is not None and src.bool():
        # a reader is stopped first
        works = works[1:] + works[:1]
        aims = {(i - 1) % len(works): a for i, a in aims.items()}
        if 0 not in aims:
            aims.update(aim(src, [reader(ops[0])], CODE, op))
        moved = True
    else:
        moved = False
    sch = Scheduler(src, CODE, opcodes=op, aims=aims)
    out = sch.run(works)
    if out and moved:
        out = out[-1:] + out[:-1]
    seen(ev, sch, op, 'add')
    ev.note(added=pick, ops=ops, schedule=sch.trace[-40:],
            steps=sch.steps, steals=sch.steals)
    if out is None:
        ev.fail('deadlock')
    ev.hit('controlled-add')
    for i, (got, exc) in enumerate(out):
        if exc is not None:
            ev.fail('operation-raised-while-adding', exc=repr(exc), thread=i)
    for i, o in enumerate(ops):
        for x, got, may in zip(o, out[i + 1][0], allowed[i]):
            ev.ok(got in may, 'result-of-no-state-of-the-map', op=x,
                  got=got, allowed=may)
    # afterwards everything is there
    final = states[-1]
    for o in ops:
        for x in o:
            ev.eq(do_op(m, x), do_op(final, x), 'map-wrong-after-adding',
                  op=x)
    for j in pick:
        path = ('/new/3', '/a/7', '/dir/p/edit', '/q/z')[j]
        ev.eq(do_op(m, ('match', path)), do_op(final, ('match', path)),
              'map-wrong-after-adding', op=path)
    ev.eq(do_op(m, ('iter', None)), do_op(final, ('iter', None)),
          'order-wrong-after-adding')
    ev.key('add', pick, ops, sch.trace)


def dispatch_threads(src, ev):
    """Dispatcher and exception dispatcher lookups."""
    from verktyg.dispatch import Dispatcher, Binding
    from verktyg.exception_dispatch import (
        ExceptionDispatcher, ExceptionHandler)
    from verktyg.exceptions import HTTPException

    def build():
        d = Dispatcher([Binding('x', (t, l), content_type=t, language=l)
                        for t in ('text/html', 'application/json',
                                  'text/plain')
                        for l in ('en', 'de')])
        e = ExceptionDispatcher([
            ExceptionHandler(c, (c.__name__, t), content_type=t)
            for c in (Exception, LookupError, KeyError)
            for t in ('text/html', 'application/json')])
        return d, e

    def op():
        acc = src.choice((None, 'text/html', 'text/*;q=0.5, */*;q=0.1',
                          'application/json', 'a/b', 'text/plain, text/html',
                          'text/html;q=0.2, application/json;q=0.8'))
        lang = src.choice((None, 'en', 'de;q=0.5, en;q=0.2', 'it', '*'))
        exc = src.choice((None, None, KeyError, IndexError, ValueError))
        return acc, lang, exc

    def run(pair, o):
        d, e = pair
        acc, lang, exc = o
        try:
            if exc is not None:
                return e.lookup(exc, accept=acc)
            return d.lookup('x', accept=acc, accept_language=lang).action
        except HTTPException as x:
            return x.code
    n = src.int(2, 3)
    ops = [[op() for _ in range(src.int(1, 2))] for _ in range(n)]
    want = [[run(build(), o) for o in os] for os in ops]
    shared = build()
    oc = src.bool(1, 4)
    aims = None
    if src.bool(2, 3):
        def alone(os):
            pair = build()
            return lambda: [run(pair, o) for o in os]
        aims = aim(src, [alone(os) for os in ops], CODE, oc)
        ev.hit('aimed')
    sch = Scheduler(src, CODE, opcodes=oc, aims=aims)
    out = sch.run([lambda os=os: [run(shared, o) for o in os]
                   for os in ops])
    seen(ev, sch, oc, 'dispatch')
    ev.note(ops=ops, schedule=sch.trace[-40:])
    if out is None:
        ev.fail('deadlock')
    ev.hit('controlled-dispatch')
    for i, (got, exc) in enumerate(out):
        if exc is not None:
            ev.fail('concurrent-lookup-raised', exc=repr(exc))
        ev.eq(got, want[i], 'concurrent-lookup-differs', thread=i)
    ev.key('dispatch', ops, sch.trace)


def stress(src, ev):
    """Free running threads, the interpreter switches as often as it can."""
    n = src.int(3, 8)
    per = 12
    specs = [[request(src, i % 4) for _ in range(per)] for i in range(n)]
    order = reversed_order if src.bool() else None
    base = make_app(order)
    want = [[run_request(base, s, ev) for s in ss] for ss in specs]
    app = make_app(order)
    bad = []
    start = threading.Barrier(n)

    def work(i):
        try:
            start.wait(20)
            for s, w in zip(specs[i], want[i]):
                got = run_request(app, s, Quiet())
                if got != w:
                    bad.append((s['path'], got, w))
        except BaseException as e:
            bad.append(repr(e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True)
              for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    ev.ok(not any(t.is_alive() for t in ts), 'deadlock')
    ev.hit('stress-requests', n * per)
    ev.ok(not bad, 'concurrent-response-differs', first=bad[:1])


def interleaved(src, ev):
    """Response iterators of several requests advanced in turns."""
    n = src.int(2, 5)
    specs = [request(src, i) for i in range(n)]
    if src.bool(1, 3):
        specs[1] = twin(src, specs[0], 1)
    for s in specs:
        if src.bool(1, 3):
            s['path'] = '/stream/%d' % src.int(0, 5)
            s['method'] = 'GET'
    want = [run_request(make_app(), s, ev) for s in specs]
    app = make_app()
    state = []
    for s in specs:
        st = {'started': None, 'chunks': [], 'error': None}

        def sr(status, headers, exc_info=None, st=st):
            st['started'] = (status, list(headers))
        env = environ(s)
        st['rv'] = app(env, sr)
        st['it'] = iter(st['rv'])
        state.append(st)
    live = list(range(n))
    sched = []
    while live:
        i = src.choice(live)
        sched.append(i)
        st = state[i]
        try:
            st['chunks'].append(next(st['it']))
        except StopIteration:
            live.remove(i)
            if hasattr(st['rv'], 'close'):
                st['rv'].close()
        except Exception as e:
            st['error'] = ('raised', type(e).__name__, str(e))
            live.remove(i)
    ev.hit('interleaved')
    for i, st in enumerate(state):
        got = st['error'] or (st['started'][0],
                              timeless(specs[i], st['started'][1]),
                              b''.join(st['chunks']))
        ev.eq(got, want[i], 'interleaved-response-differs',
              requests=[s['path'] for s in specs], schedule=sched)
    ev.key('interleaved', [s['path'] for s in specs], sched)


def history(src, ev):
    """Earlier requests do not change later ones."""
    n = src.int(2, 6)
    specs = [request(src, i % 4) for i in range(n)]
    app = make_app()
    for s in specs[1:]:
        if src.bool(1, 4):
            s.update(twin(src, specs[0], 1))
    got = [run_request(app, s, ev) for s in specs]
    ev.hit('history')
    for i in (n - 1, src.draw(n)):
        ev.eq(got[i], run_request(make_app(), specs[i], ev),
              'earlier-request-influences-later',
              requests=[s['path'] for s in specs], index=i)
    ev.key('history', [(s['path'], s['method']) for s in specs])


SCENARIOS = [
    Scenario('app-threads', app_threads, 1600, 30000, fuzz=False),
    Scenario('map-threads', map_threads, 900, 20000, fuzz=False),
    Scenario('add-threads', add_threads, 700, 16000, fuzz=False),
    Scenario('dispatch-threads', dispatch_threads, 600, 12000, fuzz=False),
    Scenario('stress', stress, 64, 1500, fuzz=False),
    Scenario('interleaved', interleaved, 1200, 30000),
    Scenario('history', history, 1200, 30000),
]
