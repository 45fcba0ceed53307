"""Applications are assembled as declared."""
from urllib.parse import urlsplit, unquote, parse_qsl

from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('builders are filled with generated routes, converters, views, '
        'handlers, mixins, configuration and recording middleware in any '
        'order and form; the application is driven through a monitored '
        'server and its behaviour compared with the registration log; '
        'distinct = hash of the registration log and the requests')
ASSUMPTIONS = ['one application is built from a builder, or the routes '
               'come from factories (a route belongs to one map)', 'mixins add attributes and do not override others',
               'one view for each endpoint and method']
REQUIRED = {'built': 2500, 'request': 5945, 'middleware': 4000,
            'middleware-order': 800, 'converter': 800, 'request-mixin': 800,
            'application-mixin': 800, 'config': 1418, 'late': 1016,
            'url-for': 2000, 'handler': 800, 'redirect': 148,
            'redirect-unhandled': 18, 'no-default-mixins': 300,
            'decorator': 1000, 'root': 1000, 'answered-by-middleware': 300,
            'not-found': 300, 'two-builders': 698, 'environ-key': 4000,
            'ties': 1000, 'inner': 500, 'negotiated': 3000, 'chosen': 1000, 'handler-chosen': 100,
            'middleware-twice': 300, 'mixins-again': 300, 'second-route': 30,
            'json-alternative': 300, 'rebuilt': 400,
            'rebuilt-request': 400}


class Boom(Exception):
    pass


class Boom2(Boom):
    pass


def app_case(src, ev, tag, other=None):
    """Fill one builder; returns (application, expectations)."""
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route, BaseConverter
    from verktyg.responses import Response
    from verktyg.dispatch import Binding, Dispatcher
    from verktyg.views import View
    from verktyg.exception_dispatch import (
        ExceptionHandler, ExceptionDispatcher)
    x = {'routes': {}, 'mixins': [], 'appmixins': [], 'mw': [],
         'handlers': {}, 'config': {}, 'log': [], 'tag': tag, 'more': set()}
    opts = {}
    if src.bool(1, 5):
        opts['default_request_mixins'] = False
        ev.hit('no-default-mixins')
    if src.bool(1, 5):
        opts['default_redirect_handler'] = False
    x['opts'] = opts
    b = ApplicationBuilder(**opts)
    x['builder'] = b

    class Hexa(BaseConverter):
        regex = '[0-9a-f]+'

        def to_python(self, value):
            return (tag, int(value, 16))

        def to_url(self, value):
            return '%x' % value[1]

    class Word(BaseConverter):
        regex = '(?:one|two)'

    def view_for(ep):
        def view(app, req, **kw):
            x['log'].append(('view', ep, app, req, kw))
            if 'boom' in kw:
                raise {'b1': Boom, 'b2': Boom2}[kw['boom']](ep)
            return Response('%s:%s' % (tag, ep))
        view.__name__ = ep
        return view

    def mw_for(name):
        def factory(app, *args, **kw):
            def wrapped(environ, start_response):
                x['log'].append(('in', name, args, kw))
                if name == 'stop' and environ['PATH_INFO'] == '/stop':
                    start_response('299 STOPPED', [('X-By', tag)])
                    return [b'stopped']

                def start(status, headers, exc_info=None):
                    return start_response(
                        status, headers + [('X-Mw', str(name))])
                rv = app(environ, start)
                x['log'].append(('out', name))
                return rv
            return wrapped
        return factory

    def handler_for(cls, n):
        def handler(app, req, exc_type, exc, tb):
            x['log'].append(('handler', cls, n, app, exc_type, exc))
            return Response('%s:handled:%s%d' % (tag, cls.__name__, n),
                            status=500)
        return handler
    steps = []
    conv = src.bool(1, 2)
    if conv:
        steps.append(('converter',))
    for i in range(src.int(1, 4)):
        steps.append(('endpoint', src.choice(
            ('ep%d', 'ep%d', '_ep%d', 'ep%d_', '__ep%d__', 'Ep%d')) % i))
    for i in range(src.size(3)):
        steps.append(('mw', src.choice((i, i, 'stop'))))
    for i in range(src.int(5, 9) if src.bool(1, 8) else src.size(2)):
        steps.append(('mixin', i))
    for i in range(src.size(2)):
        steps.append(('appmixin', i))
    for i in range(src.size(2)):
        steps.append(('handler', src.choice((Boom, Boom2, Exception)), i))
    for i in range(src.size(3)):
        steps.append(('config', src.choice('abc'), i))
    steps = src.shuffle(steps)
    x['steps'] = []
    for st in steps:
        kind = st[0]
        form = src.draw(4)
        x['steps'].append((st, form))
        if kind == 'converter':
            if form % 2:
                b.add_converters(hexa=Hexa, word=Word)
            else:
                b.add_converters(hexa=Hexa)
                b.add_converters(word=Word)
            ev.hit('converter')
        elif kind == 'endpoint':
            ep = st[1]
            tail, args = src.choice((
                ('', None), ('/<int:n>', 'int'), ('/<name>', 'str'),
                ('/', None), ('/<boom>', 'boom')))
            if conv and src.bool(1, 2):
                tail, args = src.choice((('/<hexa:h>', 'hexa'),
                                         ('/<word:w>', 'word')))
            rule = '/' + ep + tail
            view = view_for(ep)
            methods = src.choice((None, 'POST', ['GET', 'POST']))
            x['routes'][ep] = (rule, args, {'GET'} if methods is None
                               else {methods} if methods == 'POST'
                               else {'GET', 'POST'})
            mk = {} if methods is None else {'methods': methods}
            if form == 0:
                ret = b.expose(route=rule, **mk)(view)
                ev.ok(ret is view, 'decorator-result')
                ev.hit('decorator')
            elif form == 1:
                ret = b.expose(ep, route=rule, **mk)(view)
                ev.ok(ret is view, 'decorator-result')
                ev.hit('decorator')
                if src.bool(1, 3):
                    # another method, with a route of its own
                    b.expose(ep, route='/more/' + ep,
                             methods='DELETE')(view)
                    x['routes'][ep][2].add('DELETE')
                    x['more'].add(ep)
            elif form == 2:
                b.add_routes(Route(rule, endpoint=ep))
                b.add_bindings(View(ep, view, **mk))
            else:
                b.add_routes(Route('/unused-%s' % ep, endpoint='nil'),
                             Route(rule, endpoint=ep))
                d = Dispatcher()
                for m in sorted(x['routes'][ep][2]):
                    d.add_bindings(Binding(ep, view, method=m))
                b.add_bindings(d)
        elif kind == 'mw':
            args = (tag,) if form % 2 else ()
            kw = {'k': st[1]} if form > 1 else {}
            f = mw_for(st[1])
            b.add_middleware(f, *args, **kw)
            x['mw'].append((st[1], args, kw))
            if src.bool(1, 4):
                # the same one again
                b.add_middleware(f, *args, **kw)
                x['mw'].append((st[1], args, kw))
                ev.hit('middleware-twice')
        elif kind == 'mixin':
            def flag(self, _n='%s-%d' % (tag, st[1])):
                return (_n, self.method)
            cls = type('M%d' % st[1], (), {'flag%d' % st[1]: flag})
            b.add_request_mixins(*([cls, cls] if form == 0 else [cls]))
            if form == 1:
                b.add_request_mixins(cls)
            x['mixins'].append(cls)
            ev.hit('request-mixin')
        elif kind == 'appmixin':
            cls = type('A%d' % st[1], (), {'extra%d' % st[1]:
                                           property(lambda self: self.config)})
            b.add_application_mixins(*([cls, cls] if form == 0 else [cls]))
            if form == 1:
                b.add_application_mixins(cls)
            x['appmixins'].append(cls)
            ev.hit('application-mixin')
        elif kind == 'handler':
            h = handler_for(st[1], st[2])
            if form == 0:
                ret = b.exception_handler(st[1])(h)
                ev.ok(ret is h, 'decorator-result')
            elif form == 1:
                b.add_exception_handler(st[1], h)
            elif form == 2:
                b.add_exception_handlers(ExceptionHandler(st[1], h))
            else:
                d = ExceptionDispatcher()
                d.add_exception_handlers(ExceptionHandler(st[1], h))
                b.add_exception_handlers(d)
            x['handlers'].setdefault(st[1], []).append(st[2])
        else:
            b.config[st[1]] = st[2]
            x['config'][st[1]] = st[2]
    if src.bool(1, 4):
        # what is registered already stays as it is
        b.add_request_mixins(*src.sublist(x['mixins']))
        b.add_application_mixins(*src.sublist(x['appmixins']))
        ev.hit('mixins-again')
    x['root'] = src.choice(('', 'http://example.com/', 'http://example.com',
                            'https://example.com/app', 'http://a.b:81/x/y/'))
    if x['root']:
        ev.hit('root')
        app = b(x['root'])
    else:
        app = b()
    ev.hit('built')
    x['app'] = app
    return x


def later(src, ev, x):
    """Register more after the application exists: no effect on it."""
    from verktyg.routing import Route
    from verktyg.responses import Response
    b = x['builder']
    ev.hit('late')

    def view(app, req, **kw):
        ev.fail('late-view-called', endpoint='late')
    b.expose('late', route='/late')(view)
    b.config['late'] = 1
    b.config['a'] = 'late'

    def mw(app):
        ev.fail('late-middleware-used')
    b.add_middleware(mw)

    def handler(*args):
        ev.fail('late-handler-called')
    b.add_exception_handler(Boom2, handler)
    b.add_request_mixins(type('Late', (), {'late': 1}))
    b.add_bindings(*())


def path_for(src, rule, args, tag):
    """(path, kwargs of the view, kwargs for url_for)."""
    base = rule.split('<')[0]
    if args is None:
        return rule, {}, {}
    if args == 'int':
        n = src.int(0, 999)
        return base + str(n), {'n': n}, {'n': n}
    if args == 'str':
        s = src.choice(('bob', u'\xe4', 'a b', 'x&y', '%41'))
        return base + s, {'name': s}, {'name': s}
    if args == 'boom':
        s = src.choice(('b1', 'b2'))
        return base + s, {'boom': s}, {'boom': s}
    if args == 'hexa':
        n = src.int(0, 70000)
        return base + '%x' % n, {'h': (tag, n)}, {'h': (tag, n)}
    w = src.choice(('one', 'two'))
    return base + w, {'w': w}, {'w': w}


def drive(src, ev, x):
    from verktyg.routing import RequestRedirect
    from verktyg.exceptions import NotFound, MethodNotAllowed
    app, log, tag = x['app'], x['log'], x['tag']
    ep = src.choice(sorted(x['routes']))
    rule, args, methods = x['routes'][ep]
    path, kw, values = path_for(src, rule, args, x['tag'])
    method = src.choice(sorted(methods))
    kind = 'view'
    k = src.draw(8)
    if k == 0:
        kind, path = 'stop', '/stop'
    elif k == 1:
        kind, path = 'not-found', src.choice(('/late', '/zz', '/ep9',
                                              '/other', '/ep0/x/y/z'))
    elif k == 2 and rule.endswith('/'):
        kind, path = 'redirect', rule.rstrip('/')
    elif k == 3:
        kind, method = 'refused', 'PUT'
    elif k == 4 and ep in x['more']:
        path, kw = '/more/' + ep, {}
        ev.hit('second-route')
    root = urlsplit(x['root'])
    query = src.choice(('', '', 'a=1', 'x=%C3%A4&y', 'a=b&a=c%26'))
    env = gen.environ(path, host=root.netloc or 'localhost',
                      scheme=root.scheme or 'http',
                      script=root.path.rstrip('/'), method=method,
                      query=query)
    if src.bool(1, 8):
        # mounted below another application
        env['verktyg.application'] = object()
        env['verktyg.adapter'] = None
        ev.hit('inner')
    ev.note(request=(method, path), kind=kind)
    del log[:]
    ev.hit('request')
    ev.key(repr(x['steps']), x['root'], sorted(x['opts']), tag, method, path)
    res = serve(app, env, ev, expect=(Exception,))
    # middleware: the last one added is the outermost
    names = [m[0] for m in x['mw']]
    stop_at = None
    if kind == 'stop' and 'stop' in names:
        stop_at = len(names) - 1 - names[::-1].index('stop')
    outer = list(reversed(x['mw']))
    if stop_at is not None:
        outer = outer[:len(names) - stop_at]
    ins = [e[1:] for e in log if e[0] == 'in']
    ev.eq(ins, outer, 'middleware-not-as-declared')
    for _ in ins:
        ev.hit('middleware')
    if len(ins) > 1:
        ev.hit('middleware-order')
    ev.ok(env.get('verktyg.application') is app, 'application-not-announced')
    ev.hit('environ-key')
    views = [e for e in log if e[0] == 'view']
    hs = [e for e in log if e[0] == 'handler']
    if stop_at is not None:
        ev.hit('answered-by-middleware')
        ev.eq((res.status, res.body), ('299 STOPPED', b'stopped'),
              'middleware-answer')
        ev.eq(views, [], 'view-called')
        ev.eq(res.get('X-Mw'), [str(n) for n in names[stop_at + 1:]],
              'middleware-response')
        return
    raised = None
    if kind == 'redirect':
        raised = RequestRedirect
    elif kind in ('not-found', 'stop'):
        raised = NotFound
        ev.hit('not-found')
    elif kind == 'refused':
        raised = MethodNotAllowed
    elif 'boom' in kw:
        raised = {'b1': Boom, 'b2': Boom2}[kw['boom']]
    if kind == 'view':
        ev.eq(len(views), 1, 'view-calls', calls=views)
        _, vep, vapp, req, vkw = views[0]
        ev.eq((vep, vkw), (ep, kw), 'view-arguments')
        ev.ok(vapp is app, 'view-application')
        for i, cls in enumerate(x['mixins']):
            ev.ok(isinstance(req, cls), 'request-without-mixin', mixin=cls)
            name = [n for n in vars(cls) if n.startswith('flag')][0]
            ev.eq(getattr(req, name)(), ('%s-%s' % (tag, name[4:]), method),
                  'mixin-method')
        ev.eq(hasattr(req, 'late'), False, 'late-mixin')
        ev.eq(hasattr(req, 'authorization') and
              hasattr(req, 'if_none_match') and hasattr(req, 'referrer'),
              x['opts'].get('default_request_mixins', True),
              'default-mixins')
        ev.ok(type(req) is app.request_class, 'request-class')
    else:
        ev.eq(views, [], 'view-called')
    if raised is None:
        ev.eq(res.error, None, 'unexpected-error')
        ev.eq((res.code, res.body), (200, ('%s:%s' % (tag, ep)).encode()),
              'response')
        ev.eq(res.get('X-Mw'), [str(n) for n in names],
              'middleware-response')
        return
    want = None
    for cls in raised.mro():
        if cls is RequestRedirect and \
                x['opts'].get('default_redirect_handler', True):
            want = 'redirect'
            break
        if x['handlers'].get(cls):
            want = cls
            break
    if want is None:
        ev.ok(type(res.error) is raised, 'exception-lost', error=res.error)
        ev.eq(hs, [], 'handler-called')
        if raised is RequestRedirect:
            ev.hit('redirect-unhandled')
        return
    ev.eq(res.error, None, 'unexpected-error')
    ev.eq(res.get('X-Mw'), [str(n) for n in names], 'middleware-response')
    if want == 'redirect':
        ev.hit('redirect')
        ev.eq(res.code, 301, 'redirect-status')
        u = urlsplit(res.one('Location'))
        ev.eq(u.path, root.path.rstrip('/') + rule, 'redirect-target')
        ev.eq(u.query, query, 'redirect-query')
        ev.eq((u.scheme, u.netloc), (root.scheme or 'http',
                                     root.netloc or 'localhost'),
              'redirect-target')
        ev.eq(hs, [], 'handler-called')
        return
    ev.hit('handler')
    n = x['handlers'][want][-1]
    ev.eq([(h[1], h[2]) for h in hs], [(want, n)], 'handler-calls')
    ev.ok(hs[0][3] is app, 'handler-application')
    ev.ok(hs[0][4] is raised and type(hs[0][5]) is raised,
          'handler-exception')
    ev.eq((res.code, res.body),
          (500, ('%s:handled:%s%d' % (tag, want.__name__, n)).encode()),
          'response')


def static(src, ev, x):
    """What can be seen without a request."""
    from verktyg.routing import BuildError
    app = x['app']
    ev.eq(dict(app.config), x['config'], 'configuration')
    ev.raises(TypeError, lambda: app.config.__setitem__('z', 1),
              'configuration-changeable')
    ev.eq(dict(app.config), x['config'], 'configuration')
    ev.hit('config')
    for cls in x['appmixins']:
        ev.ok(isinstance(app, cls), 'application-without-mixin', mixin=cls)
        name = [n for n in vars(cls) if n.startswith('extra')][0]
        ev.ok(getattr(app, name) is app.config, 'application-mixin')
    root = urlsplit(x['root'])
    for ep, (rule, args, _) in sorted(x['routes'].items()):
        path, kw, values = path_for(src, rule, args, x['tag'])
        url = app.url_for(ep, **values)
        u = urlsplit(url)
        ev.hit('url-for')
        ev.note(endpoint=ep, values=values, url=url)
        ev.ok(url.isascii(), 'url-not-ascii')
        if u.netloc:
            ev.eq((u.scheme, u.netloc), (root.scheme, root.netloc),
                  'url-on-another-site')
        ev.eq(unquote(u.path), root.path.rstrip('/') + path, 'url-path')
        ev.eq(u.query, '', 'url-query')
        k = src.choice(('q', '_q', 'external', 'Name', 'anchor'))
        if src.bool(1, 4):
            k = gen.lit(src)
        if k in ('self', 'endpoint', 'n', 'name') or k in values:
            k = 'q'
        v = src.choice(('v', 'v', '', 0, 'a b', u'\xe9&', '1=2', 2.5))
        url = app.url_for(ep, **dict(values, **{k: v}))
        ev.eq(parse_qsl(urlsplit(url).query, keep_blank_values=True),
              [(k, str(v))], 'url-query')
    for ep in ('late', 'nobody'):
        ev.raises(BuildError, lambda: app.url_for(ep), 'url-for-unknown')


def assemble(src, ev):
    two = src.bool(1, 3)
    xs = [app_case(src, ev, 'first')]
    if two:
        ev.hit('two-builders')
        xs.append(app_case(src, ev, 'second'))
    if src.bool():
        later(src, ev, xs[0])
    for _ in range(src.few(1, 5, 20)):
        x = src.choice(xs)
        ev.note(steps=x['steps'], root=x['root'], options=x['opts'])
        if src.bool(1, 4):
            static(src, ev, x)
        drive(src, ev, x)


def alternatives(src, ev):
    """What is declared about a view or handler besides its name counts."""
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.routing import Route
    from verktyg.views import View, JsonView, expose, expose_json
    from verktyg.exception_dispatch import ExceptionHandler
    from verktyg.exceptions import NotAcceptable
    from vf.props import c04
    b = ApplicationBuilder()
    log = []
    eps = ('one', 'two')[:src.int(1, 2)]
    if src.bool():
        b.add_routes(*[Route('/' + e, endpoint=e) for e in eps])
        routed = set(eps)
    else:
        routed = set()
    views, handlers, how = [], [], []
    fail = src.bool(1, 3)
    for i in range(src.few(1, 5, 30)):
        ep = src.choice(eps)
        rep = c04.representation(src)
        method = src.choice(('GET', 'GET', 'POST'))
        kw = c04.kwargs(src, rep)
        if method != 'GET' or src.bool():
            kw['methods'] = method if src.bool() else [method]

        def view(app, req, _i=i):
            log.append(('view', _i, req.binding))
            if fail:
                raise Boom('x')
            return Response('view %d' % _i)
        k = src.draw(4)
        if ep not in routed:
            k = src.draw(2)
        elif src.bool(1, 5):
            k = 4
            rep = ('application/json', None, None, rep[3])
            kw.pop('content_type', None)
            kw.pop('language', None)
            kw.pop('charset', None)
            if 'qs' not in kw and rep[3] != 1:
                kw['qs'] = float(rep[3])
            ev.hit('json-alternative')
        how.append((ep, rep, method, k))
        if k == 0:
            if ep not in routed or src.bool(1, 8):
                kw['route'] = '/' + ep
                routed.add(ep)
            if src.bool():
                b.expose(endpoint=ep, **kw)(view)
            else:
                view.__name__ = ep
                b.expose(**kw)(view)
        elif k == 1:
            if ep not in routed:
                b.add_routes(Route('/' + ep, endpoint=ep))
                routed.add(ep)
            b.expose(ep, **kw)(view)
        elif k == 2:
            b.add_bindings(View(ep, view, **kw))
        elif k == 4:
            if src.bool():
                b.add_bindings(JsonView(ep, view, **kw))
            else:
                expose_json(b, ep, **kw)(view)
        else:
            expose(b, ep, **kw)(view)
        views.append((ep, method, rep))
        ev.hit('alternative')
    for i in range(src.size(3)):
        rep = c04.representation(src)
        kw = c04.kwargs(src, rep)

        def handler(app, req, t, e, tb, _i=i):
            log.append(('handler', _i, e))
            return Response('handler %d' % _i, status=500)
        k = src.draw(3)
        if k == 0:
            b.exception_handler(Boom, **kw)(handler)
        elif k == 1:
            b.add_exception_handler(Boom, handler, **kw)
        else:
            b.add_exception_handlers(ExceptionHandler(Boom, handler, **kw))
        handlers.append(rep)

    def refused(app, req, t, e, tb):
        return Response('refused', status=e.code)
    from verktyg.exceptions import HTTPException
    b.add_exception_handler(HTTPException, refused)
    app = b('http://h/')
    for _ in range(src.int(1, 4)):
        _, raw, hdrs = c04.setup(src)
        ep = src.choice(sorted({v[0] for v in views}))
        method = src.choice(('GET', 'GET', 'POST', 'HEAD', 'PUT'))
        env = gen.environ('/' + ep, host='h', method=method, headers=[
            (n, h) for n, h in zip(
                ('Accept', 'Accept-Language', 'Accept-Charset'), raw)
            if h is not None])
        del log[:]
        res = serve(app, env, ev, expect=(Boom,))
        ev.note(views=how, handlers=handlers, request=(method, ep),
                headers=raw, log=log, status=res.status)
        ev.key('alternatives', how, handlers, method, ep, raw)
        ev.hit('negotiated')
        m = method
        here = [i for i, v in enumerate(views) if v[0] == ep]
        if m == 'HEAD':
            m = 'GET'
        idx = [i for i in here if views[i][1] == m]
        called = [x[1] for x in log if x[0] == 'view']
        if not idx:
            ev.eq((res.code, called), (405, []), 'method-not-declared')
            continue
        want = [idx[w] for w in c04.choose([views[i][2] for i in idx], hdrs)]
        if not want:
            ev.eq((res.code, called), (406, []), 'nothing-acceptable')
            continue
        ev.ok(len(called) == 1 and called[0] in want, 'wrong-alternative',
              want=want)
        ev.hit('chosen')
        ev.eq(log[0][2].name, ep, 'request-binding')
        if not fail:
            if method != 'HEAD':
                ev.eq(res.body, b'view %d' % called[0], 'response')
            continue
        want = c04.choose(handlers, hdrs)
        ran = [x[1] for x in log if x[0] == 'handler']
        if not want:
            ev.ok(type(res.error) is Boom and not ran, 'handler-called')
            continue
        ev.hit('handler-chosen')
        ev.ok(len(ran) == 1 and ran[0] in want, 'wrong-handler', want=want)
        ev.eq(res.code, 500, 'handler-status')


def ties(src, ev):
    """Between routes that fit equally the one registered first wins."""
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.routing import Route
    from verktyg.views import View
    b = ApplicationBuilder()
    shapes = (('/same', '/same', None), ('/<v>', '/x', {'v': 'x'}),
              ('/n/<int:v>', '/n/5', {'v': 5}),
              ('/same/', '/same/', None))
    shape = src.choice(shapes)
    eps = src.shuffle(['b', 'a', 'c', 'Z', '_x', 'aa', 'index'])[
        :src.int(2, 5)]
    how, views = [], []

    def view_for(ep):
        def view(app, req, **kw):
            return Response('%s %r' % (ep, sorted(kw.items())))
        view.__name__ = ep
        return view
    pending = []
    for ep in eps:
        # the names of the variables make no difference
        rule, args = shape[0], shape[2] or {}
        if args and src.bool():
            rule = rule.replace('v>', 'w>')
            args = {'w': args['v']}
        k = src.draw(4)
        how.append((ep, rule, k))
        if k == 0:
            b.expose(route=rule)(view_for(ep))
        elif k == 1:
            b.expose(ep, route=rule)(view_for(ep))
        else:
            b.add_routes(Route(rule, endpoint=ep))
            v = View(ep, view_for(ep))
            if k == 2:
                b.add_bindings(v)
            else:
                pending.append(v)
        views.append((ep, args))
        if src.bool(1, 3):
            other = 'other%d' % len(how)
            b.add_routes(Route('/%s' % other, endpoint=other))
    b.add_bindings(*src.shuffle(pending))
    app = b('http://h/')
    ev.note(routes=how)
    for _ in range(2):
        res = serve(app, gen.environ(shape[1], host='h'), ev)
        ep, args = views[0]
        ev.eq(res.body.decode(), '%s %r' % (ep, sorted(args.items())),
              'not-the-first-of-equals')
        ev.hit('ties')
    ev.key(how)
    ev.case()


def rebuilt(src, ev):
    """Several applications of one builder, which grows between them (with
    routes that come from factories, so that every map has its own)."""
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route, Submount, BaseConverter
    from verktyg.responses import Response
    b = ApplicationBuilder()
    names = ['conv', 'route', 'view', 'mixin', 'appmixin', 'config', 'mw',
             'handler']
    have = {k: [] for k in names}
    apps = []

    def register(kind, i):
        have[kind].append(i)
        if kind == 'conv':
            b.add_converters(**{'c%d' % i: type('C', (BaseConverter,), {
                'regex': 'c%d' % i})})
        elif kind == 'route':
            rule = '/p%d' % i
            if have['conv'] and src.bool():
                c = src.choice(have['conv'])
                rule += '/<c%d:x>' % c
                paths[i] = '/s/p%d/c%d' % (i, c)
            else:
                paths[i] = '/s' + rule
            b.add_routes(Submount('/s', [Route(rule, endpoint='e%d' % i)]))
        elif kind == 'view':
            def view(app, req, x=None):
                return Response(repr((
                    i, [m for m in range(9) if hasattr(req, 'flag%d' % m)],
                    [m for m in range(9) if hasattr(app, 'flag%d' % m)])))
            b.expose('e%d' % i)(view)
        elif kind in ('mixin', 'appmixin'):
            cls = type('M%d' % i, (), {'flag%d' % i: i})
            (b.add_request_mixins if kind == 'mixin' else
             b.add_application_mixins)(cls)
        elif kind == 'config':
            b.config['k%d' % (i % 2)] = i
        elif kind == 'mw':
            def factory(app):
                def wrapped(environ, start_response):
                    def start(status, headers, exc_info=None):
                        return start_response(
                            status, headers + [('X-Mw', str(i))])
                    return app(environ, start)
                return wrapped
            b.add_middleware(factory)
        else:
            def handler(app, req, t, e, tb):
                return Response('h%d' % i, status=e.code)
            from verktyg.exceptions import NotFound, NotImplemented
            b.add_exception_handler(
                NotFound if i % 2 else NotImplemented, handler)
    paths = {}
    for _ in range(src.int(2, 3)):
        for _ in range(src.int(1, 6)):
            kind = src.choice(names)
            if len(have[kind]) < 9:
                register(kind, len(have[kind]))
        root = src.choice(('', 'http://a.example/x'))
        apps.append((b(root) if root else b(), root,
                     {k: list(v) for k, v in have.items()}))
        ev.hit('rebuilt')
    for app, root, got in src.shuffle(apps):
        ev.note(registered=got, applications=len(apps))
        want = {}
        for i in got['config']:
            want['k%d' % (i % 2)] = i
        ev.eq(dict(app.config), want, 'configuration-of-another-build')
        for i in have['route']:
            env = gen.environ(paths[i], host='a.example')
            miss = None
            if i not in got['route']:
                miss = 1
            elif i not in got['view']:
                miss = 0
            hs = [h for h in got['handler'] if h % 2 == miss]
            res = serve(app, env, ev, expect=(Exception,))
            if miss is None:
                ev.eq((res.status[:3], res.body), ('200', repr((
                    i, got['mixin'], got['appmixin'])).encode()),
                    'response-of-another-build', path=paths[i])
            elif hs:
                ev.eq((res.status[:3], res.body),
                      ('404' if miss else '501', b'h%d' % hs[-1]),
                      'handler-of-another-build', path=paths[i])
            else:
                ev.ok(res.error is not None, 'answered-by-another-build',
                      path=paths[i])
                continue
            ev.eq(res.get('X-Mw'), [str(m) for m in got['mw']],
                  'middleware-of-another-build', path=paths[i])
            ev.hit('rebuilt-request')
    ev.key('rebuilt', have, [a[2] for a in apps])


SCENARIOS = [Scenario('rebuilt', rebuilt, 600, 12000),
             Scenario('ties', ties, 600, 6000),
             Scenario('assemble', assemble, 2000, 60000),
             Scenario('alternatives', alternatives, 2000, 40000)]
