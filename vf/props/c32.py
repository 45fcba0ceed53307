"""HTTP exceptions, abort and missing request values."""
import copy
import pickle

from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('every status code and every stock exception class, generated '
        'mappings and descriptions; views of a monitored application that '
        'abort or look up missing values; handlers record what they get; '
        'distinct = hash of mapping, code and arguments')
ASSUMPTIONS = ['codes are plain integers']
REQUIRED = {'stock': 900, 'unknown-code': 324, 'custom': 700, 'extra': 250,
            'description': 45, 'wrapped': 400, 'missing-key': 462,
            'through-application': 720, 'unhandled': 100, 'proxy': 80,
            'present-key': 250}

#: RFC 7231/7232/7233/7235/6585/2324/4918
CODES = {
    'BadRequest': 400, 'Unauthorized': 401, 'Forbidden': 403,
    'NotFound': 404, 'MethodNotAllowed': 405, 'NotAcceptable': 406,
    'RequestTimeout': 408, 'Conflict': 409, 'Gone': 410,
    'LengthRequired': 411, 'PreconditionFailed': 412,
    'RequestEntityTooLarge': 413, 'RequestURITooLarge': 414,
    'UnsupportedMediaType': 415, 'RequestedRangeNotSatisfiable': 416,
    'ExpectationFailed': 417, 'ImATeapot': 418, 'UnprocessableEntity': 422,
    'PreconditionRequired': 428, 'TooManyRequests': 429,
    'RequestHeaderFieldsTooLarge': 431, 'InternalServerError': 500,
    'NotImplemented': 501, 'BadGateway': 502, 'ServiceUnavailable': 503,
    'GatewayTimeout': 504, 'HTTPVersionNotSupported': 505,
}
BY_CODE = {v: k for k, v in CODES.items()}
REASONS = {
    400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden',
    404: 'Not Found', 405: 'Method Not Allowed', 406: 'Not Acceptable',
    408: 'Request Timeout', 409: 'Conflict', 410: 'Gone',
    411: 'Length Required', 412: 'Precondition Failed',
    413: 'Request Entity Too Large', 414: 'Request URI Too Long',
    415: 'Unsupported Media Type', 416: 'Requested Range Not Satisfiable',
    417: 'Expectation Failed', 418: "I'm a teapot",
    422: 'Unprocessable Entity', 428: 'Precondition Required',
    429: 'Too Many Requests', 431: 'Request Header Fields Too Large',
    500: 'Internal Server Error', 501: 'Not Implemented',
    502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout',
    505: 'HTTP Version Not Supported',
}


def aborted(ev, fn):
    from verktyg.exceptions import HTTPException
    try:
        r = fn()
    except HTTPException as e:
        return e
    except LookupError as e:
        return e
    ev.fail('abort-returned', result=r)


def judge(ev, e, code, description, default):
    """One raised stock exception."""
    from verktyg import exceptions as x
    cls = getattr(x, BY_CODE[code])
    ev.ok(type(e) is cls, 'wrong-exception-class', got=type(e), code=code)
    ev.eq(e.code, code, 'exception-code')
    ev.eq(e.name, REASONS[code], 'exception-name')
    ev.ok(isinstance(e, x.HTTPException), 'not-an-http-exception')
    ev.eq(e.description, default if description is None else description,
          'exception-description')
    ev.ok(str(code) in str(e) and REASONS[code] in str(e), 'exception-text',
          text=str(e))
    ev.ok(str(code) in repr(e), 'exception-repr', text=repr(e))
    ev.hit('stock')


DEFAULTS = {}


def defaults():
    """The descriptions of the classes before anything was raised."""
    from verktyg import exceptions as x
    if not DEFAULTS:
        DEFAULTS.update((c, getattr(x, n).description)
                        for n, c in CODES.items())
    return DEFAULTS


def stock(ev):
    """Every code from 0 to 999."""
    from verktyg import exceptions as x
    defaults()
    for name, code in CODES.items():
        cls = getattr(x, name)
        ev.ok(name in x.__all__, 'not-exported', name=name)
        ev.ok(x.default_exceptions.get(code) is cls, 'default-mapping',
              code=code)
        ev.ok(isinstance(cls.description, str) and cls.description,
              'no-description', name=name)
    for n in range(0, 1000):
        ev.note(code=n)
        e = aborted(ev, lambda: x.abort(n))
        ev.case()
        ev.key('stock', n)
        if n in BY_CODE:
            cls = getattr(x, BY_CODE[n])
            judge(ev, e, n, None, DEFAULTS[n])
            # what a handler does to one error does not show in the next
            e.description = 'spoiled'
            e.response = 'spoiled'
            again = aborted(ev, lambda: x.abort(n))
            judge(ev, again, n, None, DEFAULTS[n])
            ev.eq(again.response, None, 'response-leaked')
            for d in ('', 'x', 'a<b>', u'\xe4', 'x' * 5000):
                kw = {'description': d}
                judge(ev, aborted(ev, lambda: x.abort(n, **kw)), n, d, None)
                if n != 405:
                    judge(ev, aborted(ev, lambda: x.abort(n, d)), n, d, None)
                ev.hit('description')
            ev.eq(cls().description, DEFAULTS[n], 'description-leaked')
            ev.eq(cls.description, DEFAULTS[n], 'description-leaked')
        else:
            ev.ok(isinstance(e, LookupError) and
                  not isinstance(e, x.HTTPException), 'unknown-code',
                  code=n, got=e)
            ev.hit('unknown-code')
    for sub, base in (('SecurityError', 'BadRequest'),
                      ('ClientDisconnected', 'BadRequest')):
        e = getattr(x, sub)()
        ev.ok(isinstance(e, getattr(x, base)) and e.code == 400,
              'special-error', name=sub)
    for ms in (['GET', 'POST'], ['POST', 'GET', 'X'], []):
        e = x.MethodNotAllowed(list(ms))
        ev.eq(list(e.valid_methods or []), ms, 'valid-methods')


def custom(src, ev):
    """Aborters with their own mapping."""
    from verktyg import exceptions as x

    def new(n):
        return type('Custom%d' % n, (x.HTTPException,), {
            'code': n, 'description': 'd%d' % n})
    defaults()
    mapping = None
    if src.bool(1, 3):
        mapping = {}
        for _ in range(src.size(3)):
            n = src.choice((400, 404, 418, 420, 599, 700))
            mapping[n] = new(n)
    extra = None
    if src.bool(2, 3):
        extra = {}
        for _ in range(src.size(3)):
            n = src.choice((400, 404, 418, 420, 599, 700))
            extra[n] = new(n)
        ev.hit('extra')
    before = dict(x.default_exceptions)
    given = (dict(mapping) if mapping is not None else None,
             dict(extra) if extra is not None else None)
    a = x.Aborter(mapping, extra)
    want = dict(before if mapping is None else mapping)
    want.update(extra or {})
    ev.note(mapping=mapping, extra=extra)
    if src.bool(1, 4):
        # the dictionaries still belong to the caller
        for d in (mapping, extra):
            if d is not None:
                d.clear()
        given = ({} if mapping is not None else None,
                 {} if extra is not None else None)
    for _ in range(src.few(1, 5, 30)):
        n = src.choice((400, 404, 418, 420, 599, 700, 500, 200, 0))
        d = src.choice((None, 'text', ''))
        ev.note(code=n, description=d)
        kw = {} if d is None else {'description': d}
        e = aborted(ev, lambda: a(n, **kw))
        ev.key('custom', sorted(want, key=str), n, d,
               mapping is None, extra is None)
        ev.hit('custom')
        if n in want:
            ev.ok(type(e) is want[n], 'wrong-exception-class', got=e)
            ev.eq(e.description, d if d is not None else 'd%d' % n
                  if want[n] is not before.get(n) else DEFAULTS[n],
                  'exception-description')
            ev.eq(e.code, n, 'exception-code')
            e.description = 'spoiled'
        else:
            ev.ok(isinstance(e, LookupError), 'unknown-code', got=e)
            e = aborted(ev, lambda: a(str(n), *src.choice(
                (('text',), ('text', None)))))
            ev.ok(isinstance(e, LookupError), 'unknown-code', got=e)
        # the stock one is not concerned
        e = aborted(ev, lambda: x.abort(n))
        if n in BY_CODE:
            judge(ev, e, n, None, DEFAULTS[n])
        else:
            ev.ok(isinstance(e, LookupError), 'stock-mapping-changed')
    ev.eq(x.default_exceptions, before, 'stock-mapping-changed')
    ev.eq((mapping, extra), given, 'argument-changed')


def wrapped(src, ev):
    from verktyg import exceptions as x
    base = getattr(x, src.choice(sorted(set(CODES) - {'MethodNotAllowed'})))
    other = src.choice((KeyError, ValueError, LookupError, IndexError,
                        RuntimeError, OSError))
    name = src.choice((None, 'Special'))
    cls = base.wrap(other, name) if name else base.wrap(other)
    arg = src.choice(('k', '', 3, u'\xe4', ('a', 1)))
    desc = src.choice((None, 'text'))
    ev.note(base=base, other=other, arg=arg)
    e = cls(arg) if desc is None else cls(arg, desc)
    ev.hit('wrapped')
    ev.key('wrapped', base.__name__, other.__name__, arg, desc, name)
    for c in (base, other, x.HTTPException):
        ev.ok(isinstance(e, c), 'wrapped-class', missing=c)
    ev.eq(e.code, base.code, 'exception-code')
    ev.eq(e.description, base.description if desc is None else desc,
          'exception-description')
    ev.eq(e.args, (arg,), 'wrapped-arguments')
    ev.eq(cls.__name__, name or base.__name__ + other.__name__,
          'wrapped-name')
    try:
        raise e
    except other as got:
        ev.ok(got is e, 'wrapped-catch')
    ev.ok(not issubclass(base, other), 'wrap-changed-the-base')


def make_app(ev, view, handled, log):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    b = ApplicationBuilder()
    b.add_routes(Route('/', endpoint='i'))
    b.expose('i')(view)
    for cls in handled:
        def handler(app, req, exc_type, exc, tb, cls=cls):
            log.append((cls, exc_type, exc))
            return Response('handled', status=exc.code)
        b.add_exception_handler(cls, handler)
    return b('http://localhost/')


def application(src, ev):
    """abort() and missing values inside of a view."""
    from verktyg import exceptions as x
    from verktyg.responses import Response
    what = src.choice(('abort', 'missing', 'missing', 'present'))
    log = []
    code = src.choice(sorted(BY_CODE))
    where = src.choice(('args', 'headers'))
    key = src.choice(('missing', 'x-y', 'q', 'A'))
    desc = src.choice((None, 'why'))

    def view(app, req):
        if what == 'abort':
            if desc is None:
                x.abort(code)
            x.abort(code, description=desc)
        v = getattr(req, where)[key]
        return Response('got:' + v)
    if what == 'abort':
        cls = getattr(x, BY_CODE[code])
        want = code
    else:
        cls, want = x.BadRequest, 400
    handled = src.sublist([cls, x.HTTPException,
                           x.NotFound if cls is not x.NotFound
                           else x.Conflict], 2, 3)
    env = gen.environ('/', 'a=b')
    if what == 'present':
        if where == 'args':
            env['QUERY_STRING'] = key + '=v'
        else:
            env['HTTP_' + key.upper().replace('-', '_')] = 'v'
    ev.note(what=what, code=code, where=where, key=key, handled=handled)
    ev.key('app', what, code, where, key, desc, [c.__name__ for c in handled])
    app = make_app(ev, view, handled, log)
    res = serve(app, env, ev, expect=(Exception,))
    if what == 'present':
        ev.hit('present-key')
        ev.eq((res.error, res.code, res.body), (None, 200, b'got:v'),
              'present-key')
        return
    ev.hit('through-application')
    if what == 'missing':
        ev.hit('missing-key')
    use = [c for c in (cls, x.HTTPException) if c in handled]
    if not use:
        ev.hit('unhandled')
        ev.eq(log, [], 'handler-called')
        e = res.error
        ev.ok(isinstance(e, cls), 'wrong-exception', error=e)
    else:
        ev.eq(res.error, None, 'not-handled')
        ev.eq((res.code, res.body), (want, b'handled'), 'status')
        ev.eq([h[0] for h in log], [use[0]], 'handler-calls')
        e = log[0][2]
    ev.eq(e.code, want, 'exception-code')
    if what == 'missing':
        ev.ok(isinstance(e, KeyError), 'missing-key-is-no-key-error', error=e)
    else:
        judge(ev, e, code, desc, cls.description)


def proxy(src, ev):
    """abort() with a response."""
    from verktyg import exceptions as x
    from verktyg.responses import Response
    r = Response('x', status=src.choice((200, 404, 500)))
    e = aborted(ev, lambda: x.abort(r))
    ev.ok(isinstance(e, x.HTTPException), 'proxy', got=e)
    ev.ok(e.response is r, 'proxy-response')
    ev.ok(isinstance(str(e), str) and isinstance(repr(e), str), 'proxy-text')
    ev.hit('proxy')
    ev.key('proxy', r.status)


DIRECTED = [('stock', stock)]
SCENARIOS = [Scenario('custom', custom, 400, 4000),
             Scenario('wrapped', wrapped, 500, 4000),
             Scenario('application', application, 1000, 20000),
             Scenario('proxy', proxy, 100, 200)]
