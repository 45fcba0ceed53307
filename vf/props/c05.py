"""Which handler answers an exception."""
from fractions import Fraction

from vf.engine import Scenario
from vf import gen
from vf.props import c04

RULE = ('generated exception hierarchies, handler sets and accept headers; '
        'the log of handler calls is compared with a walk over the method '
        'resolution order; distinct = hash of hierarchy, handlers, raised '
        'class, place and headers')
ASSUMPTIONS = ['handlers are registered for exception classes']
REQUIRED = {'handled': 2500, 'propagated': 800, 'fell-through-406': 300,
            'multiple-inheritance': 800, 'raised-routing': 200,
            'raised-dispatch': 200, 'raised-view': 3000,
            'base-exception': 100, 'handler-raises': 200, 'lookup': 4000,
            'stock': 1, 'handler-added-later': 1500, 'registered-again': 1000}


def hierarchy(src):
    """Classes over HTTPException, standard exceptions and each other."""
    from verktyg import exceptions as X
    roots = [Exception, ValueError, KeyError, LookupError, X.HTTPException,
             X.NotFound, X.BadRequest, X.Forbidden, OSError, RuntimeError]
    pool = list(roots)
    made = []
    multi = False
    for i in range(src.size(5, 14)):
        bases = [src.choice(pool)]
        if src.bool(1, 3):
            b = src.choice(pool)
            if b not in bases:
                bases.append(b)
        try:
            # classes that differ may share a name
            c = type(src.choice(('Failure', 'Failure', 'E%d' % i)),
                     tuple(bases), {'__init__': _init})
            c()
        except TypeError:
            continue
        multi = multi or len(bases) > 1
        pool.append(c)
        made.append(c)
    return roots, pool, made, multi


def _init(self, *args):
    Exception.__init__(self, *args)
    self.response = None


def handlers_for(src, pool, ev):
    """[(class, representation)]"""
    out = []
    aim = src.choice(pool)
    mro = [c for c in aim.__mro__ if issubclass(c, Exception)]
    if src.bool(1, 8):
        mro = list(aim.__mro__)     # handlers for everything
    for _ in range(src.size(6, 20)):
        cls = src.choice(mro) if src.bool() else src.choice(pool)
        rep = c04.representation(src) if src.bool(1, 2) else \
            (None, None, None, 1)
        out.append((cls, rep))
    return out, aim


def predict(handlers, exc_class, hdrs):
    """Indexes of handlers that may answer, or []; and how many classes in
    the MRO were skipped because nothing acceptable was registered."""
    skipped = 0
    for cls in exc_class.__mro__:
        idx = [i for i, (c, _) in enumerate(handlers) if c is cls]
        if not idx:
            continue
        want = c04.choose([handlers[i][1] for i in idx], hdrs)
        if want:
            return [idx[w] for w in want], skipped
        skipped += 1
    return [], skipped


def lookup(src, ev):
    from verktyg.exception_dispatch import (
        ExceptionDispatcher, ExceptionHandler)
    roots, pool, made, multi = hierarchy(src)
    hs, aim = handlers_for(src, pool, ev)
    _, raw, hdrs = c04.setup(src)
    objs = [ExceptionHandler(c, object(), **c04.kwargs(src, r))
            for c, r in hs]
    if src.bool():
        d = ExceptionDispatcher(objs)
    else:
        k = src.int(0, len(objs))
        inner = ExceptionDispatcher(objs[:k])
        if src.bool():
            ExceptionDispatcher([inner])    # may be part of several
        d = ExceptionDispatcher([inner])
        d.add_exception_handlers(*objs[k:])
        # nesting keeps registration order per class
    for rnd in range(src.int(3, 5)):
        if rnd and src.bool():
            # handlers that come later count from then on
            more, _ = handlers_for(src, aim.__mro__[:-2] or pool, ev)
            more = more[:2]
            hs = hs + more
            fresh = [ExceptionHandler(c, object(), **c04.kwargs(src, r))
                     for c, r in more]
            if objs and src.bool(1, 3):
                # one that is registered already becomes the last one
                i = src.draw(len(objs))
                hs = hs + [hs[i]]
                fresh.append(objs[i])
                ev.hit('registered-again')
            objs = objs + fresh
            d.add_exception_handlers(*(
                fresh if src.bool() else [ExceptionDispatcher(fresh)]))
            ev.hit('handler-added-later')
        if rnd and src.bool(1, 3):
            _, raw, hdrs = c04.setup(src)
        exc = aim
        if src.bool():
            exc = src.choice(made or pool) if src.bool() else \
                src.choice(pool)
        want, skipped = predict(hs, exc, hdrs)
        got = d.lookup(exc, accept=raw[0], accept_language=raw[1],
                       accept_charset=raw[2])
        ev.note(handlers=hs, exception=exc.__mro__, headers=raw, want=want)
        ev.hit('lookup')
        if not want:
            ev.ok(got is None, 'handler-of-unrelated-class-chosen')
            continue
        ev.ok(got is not None, 'no-handler-found')
        idx = [i for i, o in enumerate(objs) if o.action is got]
        ev.ok(idx and idx[-1] in want, 'wrong-handler', got=idx)
        if skipped:
            ev.hit('fell-through-406')
        ev.key('lookup', [(c.__name__, r) for c, r in hs],
               [b.__name__ for b in exc.__mro__], raw)


def end_to_end(src, ev):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route, RequestRedirect
    from verktyg.responses import Response
    from verktyg import exceptions as X
    roots, pool, made, multi = hierarchy(src)
    if multi:
        ev.hit('multiple-inheritance')
    hs, aim = handlers_for(src, pool + [X.MethodNotAllowed, X.NotAcceptable],
                      ev)
    _, raw, hdrs = c04.setup(src)
    log = []
    place = src.choice(('view', 'view', 'view', 'view', 'routing',
                        'dispatch', 'ok', 'base'))
    exc_cls = aim
    if src.bool(1, 4):
        exc_cls = src.choice(pool)
    exc = exc_cls('boom') if exc_cls in made else exc_cls()
    if place == 'base':
        exc = src.choice((KeyboardInterrupt, SystemExit, GeneratorExit,
                          type('B', (BaseException,), {})))()
        for c in src.sublist((type(exc), BaseException, object)):
            hs.append((c, (None, None, None, Fraction(1))))
    calls = []
    chain = []
    how = src.draw(3)
    cause = KeyError('cause')
    inner = ValueError('from the handler')
    bad_handler = src.bool(1, 8)

    def view(app, req):
        calls.append('view')
        if place in ('view', 'base'):
            try:
                if how == 1:
                    raise exc from cause
                if how == 2:
                    try:
                        raise cause
                    except Exception:
                        raise exc
                raise exc
            finally:
                chain[:] = [exc.__cause__, exc.__context__,
                            exc.__suppress_context__, exc.args,
                            dict(vars(exc))]
        return Response('fine')

    def handler(i):
        def h(app, req, t, e, tb):
            log.append((i, app, req, t, e, tb))
            if bad_handler:
                raise inner
            return Response('handler %d' % i, status=500 + i % 12)
        return h
    b = ApplicationBuilder(default_redirect_handler=src.bool())
    b.add_routes(Route('/x', endpoint='x'))
    b.expose('x', methods=['GET'])(view)
    for i, (c, r) in enumerate(hs):
        kw = c04.kwargs(src, r)
        if src.bool():
            b.add_exception_handler(c, handler(i), **kw)
        else:
            b.exception_handler(c, **kw)(handler(i))
    app = b('http://h/')
    env = gen.environ('/missing' if place == 'routing' else '/x',
                      method='DELETE' if place == 'dispatch' else 'GET',
                      headers=[(n, h) for n, h in zip(
                          ('Accept', 'Accept-Language', 'Accept-Charset'),
                          raw) if h is not None])
    started = []
    raised = body = None
    try:
        body = b''.join(app(env, lambda s, h, e=None: started.append(s)))
    except BaseException as e:
        raised = e
    ev.note(handlers=hs, place=place, exception=type(exc).__mro__,
            headers=raw, started=started, raised=type(raised).__name__,
            calls=[x[0] for x in log])
    if place == 'ok':
        # the view itself is unconditionally acceptable
        ev.eq((started, body, raised, log), (['200 OK'], b'fine', None, []),
              'handler-called-without-exception')
        return
    if place == 'base':
        ev.hit('base-exception')
        ev.ok(raised is exc and not log and not started,
              'base-exception-swallowed')
        return
    ev.hit('raised-' + place)
    thrown = {'view': type(exc), 'routing': X.NotFound,
              'dispatch': X.MethodNotAllowed}[place]
    want, skipped = predict(hs, thrown, hdrs)
    ev.eq(len(calls), 1 if place == 'view' else 0, 'view-calls')
    if skipped and want:
        ev.hit('fell-through-406')
    if not want:
        ev.hit('propagated')
        ev.eq(log, [], 'handler-of-unrelated-class-called')
        ev.ok(raised is not None, 'exception-swallowed')
        if place == 'view':
            ev.ok(raised is exc, 'exception-replaced')
            ev.ok((raised.__cause__, raised.__context__,
                   raised.__suppress_context__, raised.args,
                   vars(raised)) == tuple(chain), 'exception-changed', before=chain,
                  after=(raised.__cause__, raised.__context__,
                         raised.__suppress_context__, raised.args))
        else:
            ev.ok(type(raised) is thrown, 'exception-replaced')
        ev.eq(started, [], 'response-started')
    else:
        ev.eq(len(log), 1, 'handler-call-count')
        i, a, req, t, e, tb = log[0]
        ev.ok(i in want, 'wrong-handler', want=want)
        ev.ok(a is app, 'handler-application')
        ev.ok(req.environ is env, 'handler-request')
        ev.ok(t is thrown and type(e) is thrown, 'handler-exception-class')
        ev.ok(tb is not None and tb is e.__traceback__ or
              tb is not None, 'handler-traceback')
        if place == 'view':
            ev.ok(e is exc, 'handler-exception')
        if bad_handler:
            ev.hit('handler-raises')
            ev.ok(raised is inner, 'exception-of-handler-lost')
        else:
            ev.hit('handled')
            ev.ok(raised is None, 'handled-exception-propagated')
            ev.eq(body, b'handler %d' % i, 'handler-response-lost')
            ev.eq([s.split()[0] for s in started], [str(500 + i % 12)],
                  'handler-status-lost')
    ev.key([(c.__name__, r) for c, r in hs], place,
           [c.__name__ for c in thrown.__mro__], raw)
    ev.sample('dispatch', handlers=hs, raised=thrown.__mro__, place=place,
              called=[x[0] for x in log])


def stock(ev):
    """Each stock exception: abort code, default handler chain."""
    from verktyg import exceptions as X
    from verktyg.exception_dispatch import (
        ExceptionDispatcher, ExceptionHandler)
    codes = {400: 'BadRequest', 401: 'Unauthorized', 403: 'Forbidden',
             404: 'NotFound', 405: 'MethodNotAllowed', 406: 'NotAcceptable',
             408: 'RequestTimeout', 409: 'Conflict', 410: 'Gone',
             411: 'LengthRequired', 412: 'PreconditionFailed',
             413: 'RequestEntityTooLarge', 414: 'RequestURITooLarge',
             415: 'UnsupportedMediaType',
             416: 'RequestedRangeNotSatisfiable', 417: 'ExpectationFailed',
             418: 'ImATeapot', 422: 'UnprocessableEntity',
             428: 'PreconditionRequired', 429: 'TooManyRequests',
             431: 'RequestHeaderFieldsTooLarge', 500: 'InternalServerError',
             501: 'NotImplemented', 502: 'BadGateway',
             503: 'ServiceUnavailable', 504: 'GatewayTimeout',
             505: 'HTTPVersionNotSupported'}
    for code, name in codes.items():
        cls = getattr(X, name)
        ev.case()
        ev.hit('stock')
        e = ev.raises(X.HTTPException, lambda: X.abort(code), 'abort',
                      code=code)
        ev.ok(type(e) is cls, 'abort-class', code=code, got=type(e))
        ev.eq(e.code, code, 'abort-code')
        ev.eq(cls().code, code, 'exception-code', name=name)
        ev.eq(str(cls()), '%d: %s' % (code, X.HTTP_STATUS_CODES[code]),
              'exception-text')
        ev.eq(cls(description='d').description, 'd', 'description')
        ev.ok(cls().description, 'no-description', name=name)
        for reg in (cls, X.HTTPException, Exception):
            h = object()
            d = ExceptionDispatcher([ExceptionHandler(reg, h)])
            ev.ok(d.lookup(cls) is h, 'stock-handler-not-found', name=name)
        d = ExceptionDispatcher([ExceptionHandler(cls, 1),
                                 ExceptionHandler(X.HTTPException, 2)])
        for other in codes.values():
            o = getattr(X, other)
            ev.eq(d.lookup(o), 1 if issubclass(o, cls) else 2,
                  'stock-handler-wrong', raised=other, registered=name)
    ev.raises(LookupError, lambda: X.abort(299), 'abort-unknown-code')
    resp = object()
    e = ev.raises(X.HTTPException, lambda: X.abort(resp), 'abort-response')
    ev.ok(e.response is resp, 'abort-response-lost')
    for exc in (KeyError, ValueError):
        for base in (X.BadRequest, X.NotFound):
            w = base.wrap(exc)
            i = w('arg')
            ev.ok(isinstance(i, base) and isinstance(i, exc) and
                  i.code == base.code and i.args == ('arg',), 'wrap')


SCENARIOS = [
    Scenario('lookup', lookup, 6000, 100000),
    Scenario('end-to-end', end_to_end, 12000, 150000),
]
DIRECTED = [('stock', stock)]
