"""JSON views return what the view computed."""
import json
import datetime
import decimal

from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('applications with generated sets of views of every kind answer '
        'generated requests; JSON bodies are decoded by a strict decoder and '
        'compared with the value the view returned; recording views log the '
        'arguments and are compared with a table of endpoints and methods; '
        'distinct = hash of the value or of table and request')
ASSUMPTIONS = ['dictionary keys are text', 'one view for each pair of '
               'endpoint and method']
REQUIRED = {'json': 3000, 'debug': 1000, 'nested': 1500, 'unicode': 500,
            'number': 1500, 'falsy': 200, 'not-json': 500, 'none': 30,
            'passed-through': 200, 'dispatched': 2500, 'arguments': 1500,
            'method-refused': 300, 'no-view': 150, 'not-found': 100,
            'head': 25, 'class-view': 300, 'json-view': 400,
            'function-view': 600, 'independent': 50, 'not-acceptable': 80,
            'head-json': 80, 'status': 150, 'url': 300, 'asked-again': 400,
            'bound-twice': 100, 'no-methods': 100,
            'own-response-class': 40}

CHARS = gen.ASCII + ' "\\/\x00\x08\n\r\t\x1f\x7f<>&\'' + \
    '\xe4\u2028\u4e2d\U0001f600\ud800\ufeff'


def text(src):
    return gen.text(src, CHARS, 5, 300)


def scalar(src, ev):
    k = src.draw(8)
    if k == 0:
        return src.choice((True, False, None, 0, '', 0.0, -0.0))
    if k == 1:
        ev.hit('number')
        return src.choice((1, -1, 2 ** 31, -2 ** 63, 2 ** 64 + 1, 10 ** 30,
                           src.int(-1000, 1000)))
    if k == 2:
        ev.hit('number')
        return src.choice((1.5, -0.1, 1e300, 5e-324, 0.1 + 0.2, 1e-7,
                           123456789.123, 1.7976931348623157e308,
                           src.int(-9999, 9999) / 7))
    s = text(src)
    if not s.isascii():
        ev.hit('unicode')
    return s


def value(src, ev, depth=0):
    k = src.draw(4)
    if depth > 3 or k == 0 or k == 1 and depth > 1:
        return scalar(src, ev)
    ev.hit('nested')
    n = src.size(3, 12) if depth < 2 else src.int(0, 2)
    if k == 1:
        return {text(src): value(src, ev, depth + 1) for _ in range(n)}
    if k == 2 and src.bool(1, 6):
        return tuple(value(src, ev, depth + 1) for _ in range(n))
    if k == 2:
        return [value(src, ev, depth + 1) for _ in range(n)]
    return {text(src): value(src, ev, depth + 1) for _ in range(n)}


def plain(v):
    """As a decoder sees it, with types."""
    if isinstance(v, (list, tuple)):
        return ('array', [plain(x) for x in v])
    if isinstance(v, dict):
        return ('object', sorted(((k, plain(x)) for k, x in v.items()),
                                 key=lambda p: p[0]))
    return (type(v).__name__, repr(v))


def constant(s):
    raise ValueError('not JSON: ' + s)


def pairs(ps):
    d = dict(ps)
    if len(d) != len(ps):
        raise ValueError('repeated name')
    return d


def decode(ev, body):
    try:
        s = body.decode('utf-8')
        return json.loads(s, parse_constant=constant,
                          object_pairs_hook=pairs)
    except ValueError as e:
        ev.fail('body-is-not-json', body=body[:500], error=e)


def build(register):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    b = ApplicationBuilder()
    b.add_routes(Route('/j', endpoint='j'))
    register(b)
    return b('http://localhost/')


def json_app(src, view):
    from verktyg.views import JsonView, expose_json
    methods = src.choice((None, 'GET', ['GET'], ('POST', 'GET'), {'GET'}))

    def register(b):
        if src.bool():
            b.add_bindings(JsonView('j', view, methods=methods))
        else:
            f = expose_json(b, 'j', methods=methods)(view)
            assert f is view
    return build(register)


def values(src, ev):
    v = value(src, ev)
    debug = src.bool()
    box = [v]
    app = json_app(src, lambda app, req: box[0])
    if debug:
        app.debug = True
        ev.hit('debug')
    ev.note(value=v, debug=debug)
    head = src.bool(1, 8)
    env = gen.environ('/j', method='HEAD' if head else 'GET',
                      HTTP_ACCEPT=src.choice((
                          '*/*', 'application/json', 'application/*',
                          'text/html, application/json;q=0.1')))
    if src.bool(1, 4):
        del env['HTTP_ACCEPT']
    if src.bool(1, 3):
        # what the same view returned before does not matter
        box[0] = value(src, ev)
        serve(app, dict(env), ev)
        if isinstance(v, list) and src.bool():
            box[0] = v
            serve(app, dict(env), ev)
            v.append('added later')
        box[0] = v
        ev.hit('asked-again')
        ev.note(value=v)
    res = serve(app, env, ev)
    if v is None:
        ev.eq((res.code, res.body), (204, b''), 'none')
        ev.hit('none')
        ev.case()
        return
    ev.eq(res.code, 200, 'status')
    ct = res.one('Content-Type')
    ev.eq(ct.split(';')[0].strip(), 'application/json', 'content-type')
    if head:
        ev.eq(res.body, b'', 'head-body')
        ev.hit('head-json')
    else:
        ev.eq(res.one('Content-Length'), str(len(res.body)), 'length')
        got = decode(ev, res.body)
        ev.eq(plain(got), plain(v), 'value-changed', body=res.body[:500])
        ev.hit('json')
    if not v:
        ev.hit('falsy')
    ev.key(repr(plain(v))[:2000], debug)
    ev.case()


class Odd(object):
    pass


def unrepresentable(src, ev):
    bad = src.choice((
        set(), {1}, b'x', Odd(), 1j, decimal.Decimal('1.5'),
        datetime.datetime(2020, 1, 1), float('nan'), float('inf'),
        float('-inf'), range(3), frozenset(), lambda: 1, bytearray(b'x'),
        'circular', 'key'))
    if bad == 'circular':
        v = []
        v.append(v)
    elif bad == 'key':
        v = {(1, 2): 3}
    else:
        v = bad
    if src.bool():
        v = src.choice(([v], {'a': v}, [1, [v]], {'x': {'y': [v]}}))
    app = json_app(src, lambda app, req: v)
    app.debug = src.bool()
    ev.note(value=repr(bad))
    env = gen.environ('/j')
    res = serve(app, env, ev, expect=(Exception,))
    ev.ok(res.error is not None, 'invalid-json-sent', status=res.status,
          body=res.body[:300])
    ev.ok(isinstance(res.error, (TypeError, ValueError, RecursionError)),
          'other-error', error=res.error)
    ev.eq(res.chunks, [], 'invalid-json-sent')
    ev.hit('not-json')
    ev.key(repr(bad), app.debug)
    ev.case()


def passing(src, ev):
    """Responses of JSON views are left alone, None is no content."""
    from verktyg.responses import Response
    status = src.choice((200, 201, 404, 202, 500))
    body = src.choice(('text', '', '{"a": 1}', '\xe4'))
    ct = src.choice(('text/plain', 'application/json', 'a/b'))
    made = []
    cls = Response
    if src.bool(1, 3):
        cls = type('Own', (Response,), {})
        ev.hit('own-response-class')

    def view(app, req):
        r = cls(body, status=status, content_type=ct,
                     headers=[('X-Own', '1')])
        made.append(r)
        return r
    app = json_app(src, view)
    app.debug = src.bool()
    ev.note(status=status, body=body, ct=ct)
    res = serve(app, gen.environ('/j'), ev)
    ev.eq((res.code, res.body, res.one('X-Own'), len(made)),
          (status, body.encode(), '1', 1), 'response-changed')
    ev.eq(res.one('Content-Type'), ct, 'content-type')
    ev.hit('passed-through')
    if status != 200:
        ev.hit('status')
    ev.key(status, body, ct)
    ev.case()


METHODS = ('GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'OPTIONS', 'X')
CLASS_METHODS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE')


def table(src, ev):
    """A table of views against an application that has them."""
    from verktyg.application import ApplicationBuilder
    from verktyg.dispatch import Dispatcher, Binding
    from verktyg.routing import Route
    from verktyg.responses import Response
    from verktyg.views import View, ClassView, expose, expose_json, JsonView
    from verktyg.exceptions import HTTPException
    b = ApplicationBuilder()
    model = {}
    log = []
    endpoints = src.shuffle(['e0', 'e1', 'e2', 'f', ('t', 1), '', 0, (), 'E0'])[
        :src.int(1, 6)]

    def action(tag, js):
        def view(app, req, **kw):
            log.append((tag, app, req, kw))
            if js:
                return {'tag': tag}
            return Response(tag)
        return view
    tag = 0
    for e in endpoints:
        b.add_routes(
            Route('/%d/<int:n>/<name>' % endpoints.index(e), endpoint=e),
            Route('/%d' % endpoints.index(e), endpoint=e,
                  defaults={'fixed': e}),
            Route('/%d/p/<path:rest>' % endpoints.index(e), endpoint=e))
        free = src.shuffle(list(METHODS))
        if src.bool(1, 8):
            # declared for no method at all
            none = src.choice(([], (), set(), iter(())))
            if src.bool():
                b.add_bindings(View(e, action('never', False), methods=none))
            else:
                b.add_bindings(JsonView(e, action('never', True), none))
            ev.hit('no-methods')
        if src.bool(1, 8):
            continue
        while free and src.bool(3, 4):
            kind = src.choice(('view', 'expose', 'builder', 'json', 'class',
                               'binding', 'nested', 'json'))
            ms = [free.pop() for _ in range(min(len(free), src.int(1, 3)))]
            tag += 1
            t = 'v%d' % tag
            js = kind == 'json'
            if kind == 'class':
                ms2 = [m for m in ms if m in CLASS_METHODS]
                free += [m for m in ms if m not in CLASS_METHODS]
                ms = ms2
                if not ms:
                    break
                attrs = {'name': e}
                for m in ms:
                    # bound functions: the instance comes first
                    def f(self, app, req, _m=m, _t=t, **kw):
                        log.append((_t + _m, app, req, kw))
                        return Response(_t + _m)
                    attrs[m] = f
                own = src.sublist(ms) if src.bool(1, 3) else []
                held = {}
                for m in own:
                    held[m] = attrs.pop(m)
                cls = type('C', (ClassView,), attrs)
                obj = cls()
                for m in own:
                    # methods (and the name) of the instance
                    setattr(obj, m, held[m].__get__(obj))
                    ev.hit('class-view-instance')
                b.add_bindings(obj)
                for m in ms:
                    model[e, m] = (t + m, False)
                ev.hit('class-view')
                continue
            a = action(t, js)
            arg = ms
            if ms == ['GET'] and src.bool():
                arg = None
            elif len(ms) == 1 and src.bool():
                arg = ms[0]
            elif src.bool():
                arg = src.choice((set, tuple, frozenset, iter))(ms)
            if kind == 'view':
                if isinstance(arg, list):
                    arg = list(arg)
                view = View(e, a, methods=arg)
                if isinstance(arg, (list, set)) and src.bool():
                    # belongs to the caller
                    arg.clear()
                    getattr(arg, 'add', getattr(arg, 'append', None))(
                        'CHANGED')
                if src.bool():
                    # being bound somewhere else changes nothing
                    Dispatcher([view])
                b.add_bindings(view)
            elif kind == 'expose':
                expose(b, e, methods=arg)(a)
            elif kind == 'builder':
                b.expose(e, methods=arg)(a)
            elif kind == 'json':
                if src.bool():
                    b.add_bindings(JsonView(e, a, arg))
                else:
                    expose_json(b, e, methods=arg)(a)
                ev.hit('json-view')
            elif kind == 'binding':
                for m in ms:
                    b.add_bindings(Binding(e, a, method=m))
            else:
                d = Dispatcher([View(e, a, methods=arg)])
                if src.bool():
                    Dispatcher([d])
                    ev.hit('bound-twice')
                b.add_bindings(Dispatcher([d]) if src.bool() else d)
            if kind != 'json':
                ev.hit('function-view')
            for m in ms:
                model[e, m] = (t, js)
    handlers = src.bool()
    if handlers:
        @b.exception_handler(HTTPException)
        def handle(app, req, exc_type, exc, tb):
            return Response('refused', status=exc.code)
    app = b('http://localhost/')
    if src.bool(1, 6):
        # changes to the builder come too late for this application
        b.add_bindings(View(endpoints[0], action('late', False),
                            methods='LATE'))
        res = serve(app, gen.environ('/0', method='LATE'), ev,
                    expect=(HTTPException,))
        ev.eq(log, [], 'applications-share-views')
        code = res.error.code if res.error else res.code
        ev.ok(code in (405, 501), 'applications-share-views', code=code)
        ev.hit('independent')
    for _ in range(src.few(2, 8, 40)):
        i = src.int(0, len(endpoints) - (0 if src.bool(1, 5) else 1))
        m = src.choice(METHODS + ('get', 'TRACE', 'GET', 'POST', 'HEAD', 'GET'))
        k = src.draw(4)
        n, name = src.choice((0, 7, 123456789012)), src.choice(
            ('a', '\xe4 b', '%', 'x.y', '?#', 'None'))
        if k == 0:
            p, kw = '/%d' % i, None
        elif k == 1:
            p, kw = '/%d/p/a/b%s' % (i, name), {'rest': 'a/b' + name}
        elif k == 2:
            p, kw = '/%d/%d/%s' % (i, n, name), {'n': n, 'name': name}
        else:
            p, kw = '/%d/x/%s' % (i, name), 'missing'
        if i >= len(endpoints):
            kw = 'missing'
        elif kw is None:
            kw = {'fixed': endpoints[i]}
        accept = src.choice(('*/*', 'application/json', 'text/html', None))
        env = gen.environ(p, method=m)
        if accept:
            env['HTTP_ACCEPT'] = accept
        ev.note(endpoints=endpoints, model=model, path=p, method=m,
                accept=accept)
        del log[:]
        res = serve(app, env, ev, expect=(HTTPException,))
        code = res.error.code if res.error is not None else res.code
        if res.error is not None:
            ev.ok(not handlers, 'not-handled', error=res.error)
        if kw == 'missing':
            ev.eq((code, log), (404, []), 'not-found')
            ev.hit('not-found')
            continue
        e = endpoints[i]
        if not any(x == e for x, _ in model):
            ev.eq((code, log), (501, []), 'no-view')
            ev.hit('no-view')
            continue
        want = model.get((e, m))
        if want is None and m == 'HEAD':
            want = model.get((e, 'GET'))
            if want:
                ev.hit('head')
        if want is None:
            ev.eq((code, log), (405, []), 'method')
            ev.hit('method-refused')
            continue
        t, js = want
        if js and accept == 'text/html':
            ev.eq((code, log), (406, []), 'not-acceptable')
            ev.hit('not-acceptable')
            continue
        ev.eq(code, 200, 'status')
        ev.eq([x[0] for x in log], [t], 'dispatched-to')
        got_tag, got_app, req, got_kw = log[0]
        ev.ok(got_app is app, 'application-argument')
        ev.ok(req.environ is env and req.path == p, 'request-argument')
        ev.eq(got_kw, kw, 'arguments')
        ev.ok(all(type(got_kw[x]) is type(kw[x]) for x in kw),
              'argument-types')
        ev.hit('arguments')
        ev.eq(req.app, app, 'request-app')
        url = app.url_for(e, **kw)
        ev.ok(url.startswith('http://localhost/%d' % i) or
              url.startswith('/%d' % i), 'url-for', url=url)
        ev.hit('url')
        if m != 'HEAD':
            if js:
                ev.eq(decode(ev, res.body), {'tag': t}, 'json-of-view')
            else:
                ev.eq(res.body, t.encode(), 'answer-of-view')
        ev.hit('dispatched')
    ev.key(sorted(map(repr, model.items())), [repr(x) for x in endpoints])
    ev.case()


def sweep(ev):
    """Every character below U+0300 and some above, alone and as a name."""
    box = []
    class S(object):
        def choice(self, x):
            return x[0]

        def bool(self, *a):
            return True
    app = json_app(S(), lambda app, req: box[0])
    for debug in (False, True):
        app.debug = debug
        for i in list(range(0x300)) + [0x2028, 0x2029, 0xd800, 0xdfff,
                                       0xfeff, 0xffff, 0x1f600, 0x10ffff]:
            v = {chr(i): [chr(i), 'a' + chr(i) + 'b']}
            box[:] = [v]
            ev.note(value=v, debug=debug)
            res = serve(app, gen.environ('/j'), ev)
            ev.eq(decode(ev, res.body), v, 'value-changed')
            ev.hit('json')


DIRECTED = [('sweep', sweep)]
SCENARIOS = [
    Scenario('values', values, 2000),
    Scenario('unrepresentable', unrepresentable, 600),
    Scenario('passing', passing, 200),
    Scenario('table', table, 1500),
]
