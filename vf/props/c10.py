"""No header can be split by a value."""
from vf.engine import Scenario
from vf import gen

RULE = ('one entry point that ends in a response header x one value with CR, '
        'LF or both x one prior content of the headers; distinct = (entry '
        'point, value, form of the value)')
ASSUMPTIONS = ['header names and the status text are chosen by the program, '
               'not taken from data',
               'entry points were enumerated by hand from the public API']
REQUIRED = {'refused': 4000, 'accepted': 500, 'control': 2000,
            'list-checked': 4000, 'routed-redirect': 60, 'unchanged': 3000}

BREAKS = ('\n', '\r', '\r\n', '\n\r', '\n\n', '\r\n\r\n', '\n ', '\r\n\t',
          '\n\x00', '\x0b\n', '\r\x85')
INJECT = ('Set-Cookie: a=b', 'X: y', '<html>', '', ' ', 'Location: //evil/')


def bad(src):
    """A text with a line break somewhere."""
    a = gen.value(src, 5000) if src.bool() else gen.token(src)
    b = src.choice(INJECT) if src.bool() else gen.text(src, gen.ASCII)
    br = src.choice(BREAKS)
    k = src.draw(4)
    if k == 0:
        return a + br + b
    if k == 1:
        return br + a
    if k == 2:
        return a + br
    i = src.int(0, len(a))
    return a[:i] + br + a[i:]


class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def form(src, v):
    """str, bytes or an object whose text it is."""
    k = src.draw(4)
    if k == 2:
        try:
            return v.encode('latin1')
        except UnicodeError:
            return v
    if k == 3:
        return Obj(v)
    return v


# -- entry points: fn(headers, value, src) ----------------------------------
def h_add(h, v, src):
    h.add('X-A', form(src, v))


def h_add_header(h, v, src):
    h.add_header('X-A', form(src, v))


def h_add_kw(h, v, src):
    if src.bool():
        h.add('Content-Disposition', 'attachment', filename=v)
    else:
        h.add_header('X-A', 'form-data', name='a', filename=v, x='y')


def h_add_kw_name(h, v, src):
    h.add('X-A', 'b', **{v: 'x'})


def h_add_kw_value(h, v, src):
    h.add('X-A', v, q='1')


def h_set(h, v, src):
    h.set(src.choice(('X-A', 'Old', 'old')), form(src, v))


def h_set_kw(h, v, src):
    h.set('Old', 'x', a=v)


def h_setdefault(h, v, src):
    h.setdefault('X-New', form(src, v))


def h_setitem(h, v, src):
    h[src.choice(('X-A', 'Old'))] = form(src, v)


def h_setindex(h, v, src):
    h[src.int(0, 1)] = ('X-A', form(src, v))


def h_setslice(h, v, src):
    if src.draw(4) == 3 and len(h) > 2:
        # every other header: as many values as places
        n = len(list(h)[::2])
        h[::2] = [('X-B', form(src, v))] + [('X-A', 'ok')] * (n - 1)
        return
    h[src.int(0, 2):src.int(0, 2)] = [('X-A', 'ok'), ('X-B', form(src, v)),
                                      ('X-C', 'ok')][src.int(0, 1):]


def h_extend_dict(h, v, src):
    h.extend({'X-A': form(src, v)})


def h_extend_dict_list(h, v, src):
    h.extend({'X-A': [form(src, v)] if src.bool() else (form(src, v),)})


def h_extend_iter(h, v, src):
    k = src.draw(3)
    pairs = [('X-A', form(src, v))]
    h.extend(pairs if k == 0 else iter(pairs) if k == 1 else tuple(pairs))


HEADERS = {k[2:]: v for k, v in list(globals().items())
           if k.startswith('h_')}


# -- constructors: fn(value, src) -> Headers
def k_list(v, src):
    from verktyg.http import Headers
    return Headers([('Old', '1'), ('X-A', form(src, v)), ('B', '2')])


def k_dict(v, src):
    from verktyg.http import Headers
    return Headers({'Old': '1', 'X-A': form(src, v)})


def k_dict_list(v, src):
    from verktyg.http import Headers
    return Headers({'X-A': ['ok', form(src, v)]})


def k_iter(v, src):
    from verktyg.http import Headers
    return Headers(iter([('X-A', form(src, v))]))


def k_tuple(v, src):
    from verktyg.http import Headers
    return Headers((('X-A', form(src, v)),))


def k_response_list(v, src):
    from verktyg.responses import Response
    return Response('x', headers=[('X-A', form(src, v))]).headers


def k_response_dict(v, src):
    from verktyg.responses import Response
    return Response('x', headers={'X-A': form(src, v)}).headers


def k_response_type(v, src):
    from verktyg.responses import Response
    return Response('x', content_type=v).headers


def k_response_mimetype(v, src):
    from verktyg.responses import Response
    return Response('x', mimetype=src.choice(('', 'text/')) + v).headers


def k_file_storage(v, src):
    import io
    from verktyg.http import FileStorage
    if src.bool():
        return FileStorage(io.BytesIO(b''), content_type=v).headers
    return FileStorage(io.BytesIO(b''), content_type='text/' + v).headers


def k_environ(v, src):
    from verktyg.http import Headers
    from verktyg.wsgi import EnvironHeaders
    v = v.encode('utf-8').decode('latin1')
    return Headers(EnvironHeaders({'HTTP_X_A': v}))


def k_headers(v, src):
    from verktyg.http import Headers
    h = Headers()
    h.add('X-A', form(src, v))
    return Headers(h)


def _inner(v):
    def app(env, start_response):
        start_response('200 OK', [('Content-Type', 'text/plain'),
                                  ('X-A', v)])
        return [b'x']
    return app


def k_from_app(v, src):
    from verktyg.responses import Response
    return Response.from_app(_inner(v), gen.environ('/'), src.bool()).headers


def k_force_type(v, src):
    from verktyg.responses import Response
    return Response.force_type(_inner(v), gen.environ('/')).headers


CONSTRUCT = {k[2:]: v for k, v in list(globals().items())
             if k.startswith('k_')}


# -- response entry points: fn(response, value, src)
def r_headers(r, v, src):
    r.headers['X-A'] = v


def r_location(r, v, src):
    r.location = src.choice(('', '/', 'http://h/', '/a?')) + v


def r_content_type(r, v, src):
    r.content_type = v


def r_content_location(r, v, src):
    r.content_location = v


def r_content_encoding(r, v, src):
    r.content_encoding = v


def r_content_md5(r, v, src):
    r.content_md5 = v


def r_content_length(r, v, src):
    r.headers['Content-Length'] = v


def r_accept_ranges(r, v, src):
    r.accept_ranges = v


def r_mimetype(r, v, src):
    r.mimetype = src.choice(('', 'text/', 'application/')) + v


def r_mimetype_params(r, v, src):
    r.mimetype = 'text/plain'
    r.headers['Old2'] = 'y'
    r.mimetype_params['x'] = v


def r_mimetype_params_name(r, v, src):
    r.mimetype_params[v] = 'x'


def r_mimetype_params_update(r, v, src):
    r.mimetype_params.update({'x': v})


def r_retry_after(r, v, src):
    r.retry_after = Obj(v)


def _set(name):
    def assign_text(r, v, src):
        setattr(r, name, v)

    def assign_list(r, v, src):
        setattr(r, name, [v] if src.bool() else ['a', v])

    def add(r, v, src):
        getattr(r, name).add(v)

    def update(r, v, src):
        getattr(r, name).update([v])
    return {'assign_text': assign_text, 'assign_list': assign_list,
            'add': add, 'update': update}


def r_cc_no_cache(r, v, src):
    r.cache_control.no_cache = v


def r_cc_private(r, v, src):
    r.cache_control.private = v


def r_cc_item(r, v, src):
    r.cache_control['x'] = v


def r_cc_name(r, v, src):
    r.cache_control[v] = 'x'


def r_cc_update(r, v, src):
    r.cache_control.update({'a': v})


def r_content_range_units(r, v, src):
    r.content_range.set(0, 4, 10, units=v)


def r_content_range_object(r, v, src):
    from verktyg.http import ContentRange
    r.content_range = ContentRange(v, 0, 4, 10)


def r_content_range_text(r, v, src):
    r.content_range = v


def r_auth_basic(r, v, src):
    r.www_authenticate.set_basic(v)


def r_auth_digest_realm(r, v, src):
    r.www_authenticate.set_digest(v, 'nonce')


def r_auth_digest_nonce(r, v, src):
    r.www_authenticate.set_digest('realm', v)


def r_auth_digest_qop(r, v, src):
    r.www_authenticate.set_digest('realm', 'n', qop=(v,))


def r_auth_digest_opaque(r, v, src):
    r.www_authenticate.set_digest('realm', 'n', opaque=v)


def r_auth_digest_algorithm(r, v, src):
    r.www_authenticate.set_digest('realm', 'n', algorithm=v)


def r_auth_item(r, v, src):
    r.www_authenticate['x'] = v


def r_auth_type(r, v, src):
    r.www_authenticate.type = v


def r_auth_realm(r, v, src):
    r.www_authenticate.realm = v


def r_auth_domain(r, v, src):
    r.www_authenticate.domain.add(v)


def r_etag(r, v, src):
    r.set_etag(v, src.bool())


def r_cookie_key(r, v, src):
    r.set_cookie(v, 'x')


def r_cookie_value(r, v, src):
    r.set_cookie('k', v)


def r_cookie_path(r, v, src):
    r.set_cookie('k', 'v', path='/' + v)


def r_cookie_domain(r, v, src):
    r.set_cookie('k', 'v', domain='a.' + v)


def r_cookie_expires(r, v, src):
    r.set_cookie('k', 'v', expires=v)


def r_cookie_max_age(r, v, src):
    r.set_cookie('k', 'v', max_age=v, expires='x')


def r_delete_cookie_key(r, v, src):
    r.delete_cookie(v)


def r_delete_cookie_path(r, v, src):
    r.delete_cookie('k', path='/' + v)


def r_delete_cookie_domain(r, v, src):
    r.delete_cookie('k', domain='a.' + v)


def r_to_header(r, v, src):
    from verktyg.http import HeaderSet
    r.headers['X-A'] = HeaderSet([v])


def r_dump_options(r, v, src):
    from verktyg.http import dump_options_header
    r.headers['X-A'] = dump_options_header('x', {'a': v})


def r_dump_header(r, v, src):
    from verktyg.http import dump_header
    r.headers['X-A'] = dump_header([v] if src.bool() else {'k': v})


def r_dump_cookie(r, v, src):
    from verktyg.http import dump_cookie
    k = src.draw(3)
    if k == 0:
        r.headers.add('Set-Cookie', dump_cookie('k', v))
    elif k == 1:
        r.headers.add('Set-Cookie', dump_cookie('k', 'v', path='/' + v))
    else:
        r.headers.add('Set-Cookie', dump_cookie('k', 'v', expires=v))


RESPONSE = {k[2:]: v for k, v in list(globals().items())
            if k.startswith('r_')}
for _n in ('vary', 'content_language', 'allow'):
    for _k, _f in _set(_n).items():
        RESPONSE['%s_%s' % (_n, _k)] = _f

# entry points for which only a small set of values makes sense as control
CONTROL = {
    'mimetype_params_name': 'y', 'cookie_key': 'kk',
    'cookie_domain': 'example.com', 'delete_cookie_domain': 'example.com',
    'cookie_expires': 'Thu, 01 Jan 1970', 'cookie_max_age': 10,
    'dump_cookie': 'z',
    'cc_name': 'z', 'add_kw_name': 'z', 'etag': 'abc',
    'delete_cookie_key': 'kk', 'mimetype': 'x', 'response_mimetype': 'x',
    'auth_type': 'z', 'retry_after': '120', 'content_length': '5',
    'content_range_text': 'bytes 0-1/2', 'content_range_units': 'u',
    'content_range_object': 'u', 'location': 'x', 'content_location': '/x',
}


def clean(ev, headers, where):
    for item in headers:
        ev.ok(len(item) == 2, 'header-not-a-pair', item=item)
        for x in item:
            if isinstance(x, bytes):
                x = x.decode('latin1')
            x = str(x)
            ev.ok('\r' not in x and '\n' not in x, 'line-break-in-header',
                  item=item, seen_in=where)
    ev.hit('list-checked')


def sent(ev, r, env=None):
    got = []

    def start_response(status, headers, exc_info=None):
        got.append(list(headers))
        return lambda b: None
    it = r(env or gen.environ('/', method='GET'), start_response)
    try:
        for _ in it:
            pass
    finally:
        if hasattr(it, 'close'):
            it.close()
    ev.eq(len(got), 1, 'start-response-calls')
    return got[0]


def attempt(ev, fn, *args):
    try:
        return True, fn(*args)
    except ValueError:
        ev.hit('refused')
        return False, None


def snapshot(h):
    return [(k, v) for k, v in h]


def headers(src, ev):
    from verktyg.http import Headers
    name = src.choice(sorted(HEADERS))
    v = bad(src)
    h = Headers([('Old', 'x'), ('Other', '1'), ('old', 'y')])
    ev.note(entry=name, value=v)
    before = snapshot(h)
    ok, _ = attempt(ev, HEADERS[name], h, v, src)
    clean(ev, h.to_wsgi_list(), name)
    ev.ok(not ok, 'line-break-not-refused', headers=list(h))
    ev.eq(snapshot(h), before, 'refused-value-half-applied')
    ev.hit('unchanged')
    # the same collection still works
    h.set('Old', 'z')
    ev.eq(h.getlist('old'), ['z'], 'unusable-after-refusal')
    ev.key('h', name, v)


def construct(src, ev):
    name = src.choice(sorted(CONSTRUCT))
    v = bad(src)
    ev.note(entry=name, value=v)
    ok, h = attempt(ev, CONSTRUCT[name], v, src)
    if ok:
        clean(ev, h, name)
        ev.fail('line-break-not-refused', headers=list(h))
    ev.key('k', name, v)


def extend_many(src, ev):
    """A refusal in the middle of several pairs: what was refused is absent
    and nothing that was there before got lost."""
    from verktyg.http import Headers
    h = Headers([('Old', 'x'), ('Other', '1')])
    n = src.int(1, 5)
    i = src.draw(n)
    v = bad(src)
    pairs = [('N%d' % j, v if j == i else 'ok%d' % j) for j in range(n)]
    k = src.draw(4)
    ev.note(value=v, pairs=pairs, form=k)
    if k == 0:
        ok, _ = attempt(ev, h.extend, pairs)
    elif k == 1:
        ok, _ = attempt(ev, h.extend, dict(pairs))
    elif k == 2:
        ok, _ = attempt(ev, h.extend, {'N0': [x for _, x in pairs]})
    else:
        ok, _ = attempt(ev, h.extend, iter(pairs))
    ev.ok(not ok, 'line-break-not-refused', headers=list(h))
    clean(ev, h, 'extend')
    ev.eq(snapshot(h)[:2], [('Old', 'x'), ('Other', '1')], 'earlier-lost')
    ev.ok(len(h) <= 2 + i, 'pairs-after-the-refusal', headers=list(h))
    ev.key('many', n, i, v, k)


def response(src, ev):
    from verktyg.responses import Response
    name = src.choice(sorted(RESPONSE))
    v = bad(src)
    r = Response(b'body', headers=[('Old', 'x'), ('Other', '1')])
    ev.note(entry=name, value=v)
    if name in ('mimetype_params',):
        before = None
    else:
        before = snapshot(r.headers)
    ok, _ = attempt(ev, RESPONSE[name], r, v, src)
    clean(ev, r.headers, name)
    if not ok:
        if before is not None:
            ev.eq(snapshot(r.headers), before, 'refused-value-half-applied')
            ev.hit('unchanged')
    else:
        ev.hit('accepted')
        ev.sample('accepted', entry=name, value=v, headers=list(r.headers))
    hs = sent(ev, r)
    clean(ev, hs, 'start_response')
    ev.ok(('Old', 'x') in hs and ('Other', '1') in hs, 'earlier-lost')
    ev.key('r', name, v, ok)


def redirects(src, ev):
    from verktyg.utils import redirect, append_slash_redirect
    from verktyg.responses import Response
    v = bad(src)
    k = src.draw(5)
    ev.note(value=v, form=k)
    env = gen.environ('/')
    if k == 0:
        ok, r = attempt(ev, redirect, v, src.choice((301, 302, 303, 307)))
    elif k == 1:
        ok, r = attempt(ev, redirect, src.choice(
            ('http://example.org/', '/x/', '//h/', '?', '/a?b=', '/#',
             'http://', 'http://u:p@')) + v)
    elif k == 2:
        env = gen.environ('/' + v)
        ok, r = attempt(ev, append_slash_redirect, env)
    elif k == 3:
        env = gen.environ('/x', query=gen.as_wsgi(v))
        ok, r = attempt(ev, append_slash_redirect, env)
    else:
        # header edited behind the back of the response: Location arrives
        # as text from elsewhere
        class App(Response):
            autocorrect_location_header = src.bool()
        r = App('x', 302)
        ok, _ = attempt(ev, r.headers.set, 'Location', v)
    if ok:
        ev.hit('accepted')
        clean(ev, sent(ev, r, env), 'start_response')
    ev.key('redirect', v, k)


def routed(src, ev):
    """Redirects of the routing take their text from the request."""
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    v = bad(src).strip('/') or '\n'
    b = ApplicationBuilder()
    b.add_routes(
        Route('/slash/<x>/', endpoint='a'),
        Route('/default/', endpoint='d', defaults={'p': '1'}),
        Route('/default/<p>', endpoint='d'),
        Route('/path/<path:x>/', endpoint='b'),
        Route('/old/<x>', endpoint='o', redirect_to='new/<x>'),
        Route('/new/<x>', endpoint='n'),
        Route('/call/<x>', endpoint='c', redirect_to=lambda ad, x: 'n/' + x),
        Route('/alias/<x>', endpoint='a2', alias=True),
        Route('/canonical/<x>', endpoint='a2'),
    )

    def view(app, req, **kw):
        return Response('view')
    for e in ('a', 'b', 'd', 'o', 'n', 'c', 'a2'):
        b.expose(e)(view)
    app = b()
    kind = src.choice(('slash', 'path', 'old', 'alias', 'call', 'query',
                       'host', 'script'))
    p, q, extra = '/x', '', {}
    if kind in ('slash', 'old', 'alias', 'call'):
        p = '/%s/%s' % (kind, v.replace('/', ''))
    elif kind == 'path':
        p = '/path/' + v
    elif kind == 'query':
        p, q = '/slash/x', gen.as_wsgi(v)
    elif kind == 'script':
        p = '/slash/x'
        extra['script'] = '/' + v
    else:
        p = '/slash/x'
        extra['host'] = gen.as_wsgi(v)
    ev.note(kind=kind, value=v)
    env = gen.environ(p, query=q, **extra)
    from verktyg.exceptions import HTTPException
    try:
        hs = sent(ev, app, env)
    except HTTPException:
        ev.hit('routed-http-exception')
        return
    except ValueError:
        ev.hit('refused')
        return
    clean(ev, hs, 'start_response')
    if any(k.lower() == 'location' for k, _ in hs):
        ev.hit('routed-redirect')
    ev.key('routed', kind, v)


def sweep(names, table, kind):
    """Every entry point x every kind of break x every position of a short
    value, plus a benign control value that must arrive."""
    def run(ev):
        from verktyg.http import Headers
        from verktyg.responses import Response
        from vf.source import Source
        for name in names:
            for seed in range(4):
                src = Source('%s|%d' % (name, seed))
                c = CONTROL.get(name, 'x')
                ev.note(entry=name, value=c)
                ev.case()
                if kind == 'h':
                    h = Headers([('Old', 'x'), ('Other', '1'), ('old', 'y')])
                    b = snapshot(h)
                    table[name](h, c, src)
                    ev.ok(snapshot(h) != b or name == 'setslice' or
                          name == 'set', 'control-value-lost')
                elif kind == 'k':
                    h = table[name](c, src)
                    ev.ok(any(c in str(v) or v == c.encode() for _, v in h
                              if isinstance(v, (str, bytes, Obj))),
                          'control-value-lost')
                else:
                    r = Response(b'body', headers=[('Old', 'x')])
                    b = snapshot(r.headers)
                    table[name](r, c, src)
                    ev.ok(snapshot(r.headers) != b, 'control-value-lost')
                ev.hit('control')
            for br in BREAKS:
                for i in range(0, 4):
                    for seed in range(6):
                        src = Source('%s|%s|%d|%d' % (name, br, i, seed))
                        v = 'abc'[:i] + br + 'abc'[i:]
                        ev.note(entry=name, value=v)
                        ev.case()
                        if kind == 'h':
                            h = Headers([('Old', 'x'), ('Other', '1'),
                                         ('old', 'y')])
                            b = snapshot(h)
                            ok, _ = attempt(ev, table[name], h, v, src)
                            clean(ev, h, name)
                            ev.ok(not ok, 'line-break-not-refused',
                                  headers=list(h))
                            ev.eq(snapshot(h), b,
                                  'refused-value-half-applied')
                        elif kind == 'k':
                            ok, h = attempt(ev, table[name], v, src)
                            if ok:
                                clean(ev, h, name)
                                ev.fail('line-break-not-refused',
                                        headers=list(h))
                        else:
                            r = Response(b'body', headers=[('Old', 'x')])
                            b = snapshot(r.headers)
                            ok, _ = attempt(ev, table[name], r, v, src)
                            clean(ev, r.headers, name)
                            if ok:
                                ev.hit('accepted')
                            elif name != 'mimetype_params':
                                ev.eq(snapshot(r.headers), b,
                                      'refused-value-half-applied')
                                ev.hit('unchanged')
                            clean(ev, sent(ev, r), 'start_response')
                        ev.key('sweep', kind, name, v)
    return run


DIRECTED = []
for _kind, _t in (('h', HEADERS), ('k', CONSTRUCT), ('r', RESPONSE)):
    for _n in sorted(_t):
        DIRECTED.append(('sweep-%s-%s' % (_kind, _n),
                         sweep([_n], _t, _kind)))

REQUIRED['control'] = 200

SCENARIOS = [
    Scenario('headers', headers, 3000, 60000),
    Scenario('construct', construct, 1500, 30000),
    Scenario('extend-many', extend_many, 800, 20000),
    Scenario('response', response, 5000, 100000),
    Scenario('redirects', redirects, 1500, 30000),
    Scenario('routed', routed, 600, 12000),
]
