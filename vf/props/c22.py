"""Mounted applications see a consistent split of the path."""
from vf.engine import Scenario
from vf import gen
from vf.server import serve

RULE = ('generated mount tables (also nested ones) are requested with paths '
        'on, below, above and beside the mount points; recording '
        'applications log the environ they get, which is compared with a '
        'longest-prefix model; distinct = hash of table and path')
ASSUMPTIONS = ['mount points are empty or / separated non-empty segments as a server '
               'delivers them (Latin-1 text)', 'paths start with a slash or '
               'are empty']
REQUIRED = {'request': 3000, 'root-mount': 300, 'mounted': 1000, 'default': 600, 'exact': 300,
            'below': 600, 'beside': 300, 'nested-table': 300,
            'shared-prefix': 300, 'repeated-slash': 300, 'trailing': 200,
            'script-root': 600, 'no-keys': 100, 'real-app': 300,
            'same-url': 400, 'unicode': 150, 'raised': 60, 'deep': 20,
            'swept': 500}

SEGS = ['a', 'b', 'ab', 'app', 'app2', 'a.b', 'x y', '%41', '..', '.', 'A',
        'a;b', gen.as_wsgi('\xe4'), gen.as_wsgi('\u4e2d'), 'a=b', 'app1']


def seg(src):
    if src.draw(8) == 7:
        s = gen.as_wsgi(gen.text(src, gen.ASCII + '-._~%\xe4', 5, 60, lo=1))
        return s
    return src.choice(SEGS)


def table(src):
    out = []
    for _ in range(src.size(4, 40)):
        if out and src.bool(1, 3):
            # share a prefix with another one
            base = src.choice(out)
            k = src.draw(4)
            if k == 0:
                m = base + '/' + seg(src)
            elif k == 1:
                m = base + src.choice(('x', '2', '.', '-'))
            elif k == 2:
                m = base.rsplit('/', 1)[0]
            else:
                m = base[:-1]
        else:
            m = ''.join('/' + seg(src) for _ in range(src.few(1, 3, 12)))
        if m and m != '/' and '//' not in m and not m.endswith('/') and \
                m not in out:
            out.append(m)
    if src.bool(1, 6):
        # everything is below it
        out.insert(src.draw(len(out) + 1), '')
    return out


def path_for(src, mounts):
    k = src.draw(10)
    mounts = [m for m in mounts if m]
    if k == 0:
        return src.choice(('', '/', '//', '///'))
    if mounts and k < 8:
        m = src.choice(mounts)
        j = src.draw(9)
        if j == 0:
            return m
        if j == 1:
            return m + '/'
        if j == 2:
            return m + ''.join('/' + seg(src)
                               for _ in range(src.size(3, 60)))
        if j == 3:
            return m + src.choice(('x', '2', '.', '%2F', ' '))
        if j == 4:
            return m[:-1]
        if j == 5:
            return m.rsplit('/', 1)[0] + '/' + seg(src)
        if j == 6:
            return m.replace('/', '//') if src.bool() else m + '//' + seg(src)
        if j == 7:
            return m.upper() if src.bool() else '/' + seg(src) + m
        return m + '/' + seg(src) + '/'
    return ''.join('/' + seg(src) for _ in range(src.size(4, 60)))


def longest(mounts, path):
    """Model: the longest mount point that is a segment-wise prefix."""
    best = None
    for m in mounts:
        if path == m or path.startswith(m + '/'):
            if best is None or len(m) > len(best):
                best = m
    return best


class Recorder(object):
    def __init__(self, name, log):
        self.name = name
        self.log = log
        self.result = [b'body of ', name.encode('utf-8')]
        self.error = None

    def __call__(self, environ, start_response):
        self.log.append((self.name, dict(environ), start_response))
        if self.error is not None:
            raise self.error
        start_response('200 OK', [('X-App', 'x')])
        return self.result


def request(src, ev):
    from verktyg.wsgi import DispatcherMiddleware
    mounts = table(src)
    log = []
    apps = {m: Recorder('m%d' % i, log) for i, m in enumerate(mounts)}
    default = Recorder('default', log)
    if not mounts and src.bool():
        mw = DispatcherMiddleware(default)
    else:
        mw = DispatcherMiddleware(default, apps)
    for _ in range(src.few(1, 5, 40)):
        path = path_for(src, mounts)
        script = src.choice(('', '', '/root', '/a/b', '/app', '/',
                             '/root/', '//', '/app//'))
        env = gen.environ('/', 'q=1', src.choice(('GET', 'POST', 'HEAD')))
        env['PATH_INFO'] = path
        env['SCRIPT_NAME'] = script
        if path == '' and src.bool():
            del env['PATH_INFO']
            ev.hit('no-keys')
        if script == '' and src.bool(1, 4):
            del env['SCRIPT_NAME']
            ev.hit('no-keys')
        before = dict(env)
        want = longest(mounts, path)
        app = default if want is None else apps[want]
        ev.note(mounts=mounts, path=path, script=script, model=want)
        boom = None
        if src.bool(1, 20):
            boom = app.error = KeyError('from the application')
        del log[:]

        def sr(status, headers, exc_info=None):
            pass
        try:
            got = mw(env, sr)
        except KeyError as e:
            ev.ok(boom is not None and e is boom, 'exception-replaced', got=e)
            ev.hit('raised')
            got = None
        finally:
            app.error = None
        ev.eq([x[0] for x in log], [app.name], 'wrong-application',
              called=[x[0] for x in log])
        if boom is None:
            ev.ok(got is app.result, 'result-replaced', got=got)
        seen = log[0][1]
        ev.ok(log[0][2] is sr, 'start-response-replaced')
        s, p = seen['SCRIPT_NAME'], seen['PATH_INFO']
        ev.eq(s + p, script + path, 'path-not-conserved', SCRIPT_NAME=s,
              PATH_INFO=p)
        ev.eq(s, script + (want or ''), 'script-name', PATH_INFO=p)
        ev.ok(p == '' or p.startswith('/'), 'path-info', PATH_INFO=p)
        for d in (seen, before):
            d.pop('SCRIPT_NAME', None)
            d.pop('PATH_INFO', None)
        ev.eq(seen, before, 'environ-changed')
        ev.hit('request')
        ev.hit('mounted' if want else 'default')
        if '' in mounts:
            ev.hit('root-mount')
        if want == path:
            ev.hit('exact')
        elif want:
            ev.hit('below')
        elif any(m and path.startswith(m) for m in mounts):
            ev.hit('beside')
        if any(a != b and b.startswith(a) for a in mounts for b in mounts):
            ev.hit('shared-prefix')
        if '//' in path:
            ev.hit('repeated-slash')
        if path.endswith('/'):
            ev.hit('trailing')
        if script:
            ev.hit('script-root')
        if not path.isascii():
            ev.hit('unicode')
        if path.count('/') > 20:
            ev.hit('deep')
        ev.key(mounts, path, script)
        ev.case()


def nested(src, ev):
    """A dispatcher mounted in a dispatcher."""
    from verktyg.wsgi import DispatcherMiddleware
    outer, inner = table(src), table(src)
    if not outer:
        outer = ['/o']
    log = []
    at = src.choice(outer)
    inner_apps = {m: Recorder('i' + m, log) for m in inner}
    inner_default = Recorder('inner', log)
    apps = {m: Recorder('o' + m, log) for m in outer}
    apps[at] = DispatcherMiddleware(inner_default, inner_apps)
    mw = DispatcherMiddleware(Recorder('outer', log), apps)
    rest = path_for(src, inner)
    path = at + rest if src.bool(3, 4) else path_for(src, outer)
    env = gen.environ('/')
    env['PATH_INFO'] = path
    w = longest(outer, path)
    if w == at:
        w2 = longest(inner, path[len(at):])
        name = 'inner' if w2 is None else 'i' + w2
        script = at + (w2 or '')
    else:
        name = 'outer' if w is None else 'o' + w
        script = w or ''
    ev.note(outer=outer, inner=inner, at=at, path=path)
    mw(env, lambda *a: None)
    ev.eq([x[0] for x in log], [name], 'wrong-application')
    seen = log[0][1]
    ev.eq((seen['SCRIPT_NAME'], seen['PATH_INFO']),
          (script, path[len(script):]), 'nested-split')
    ev.hit('nested-table')
    ev.key(outer, inner, at, path)
    ev.case()


def real_application(src, ev):
    """A verktyg application behind a mount point: routing works below it
    and request URLs are those of the outer request."""
    from verktyg.wsgi import DispatcherMiddleware
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    from verktyg.requests import Request
    log = []
    b = ApplicationBuilder()
    b.add_routes(Route('/', endpoint='index'),
                 Route('/dir/', endpoint='dir'),
                 Route('/item/<path:name>', endpoint='item'))

    def view(app, req, **kw):
        log.append((req.script_root, req.path, req.url, req.url_root, kw))
        return Response('ok')
    for e in ('index', 'dir', 'item'):
        b.expose(e)(view)
    app = b()
    m = src.choice(('/app', '/a/b', '/%41', '/x y', gen.as_wsgi('/\xe4')))
    mw = DispatcherMiddleware(app, {m: app, '/other': app})
    prefix = src.choice((m, m, m, '', '/other'))
    name = src.choice(('x', 'a/b', '\xe4', 'a b', '%41', 'a?b', 'a+b', 'dir'))
    rest = src.choice(('/', '/dir/', '/item/' + gen.as_wsgi(name), '/dir'))
    script = src.choice(('', '', '/root'))
    env = gen.environ('/', host='example.org')
    env['PATH_INFO'] = prefix + rest
    env['SCRIPT_NAME'] = script
    outer = Request(dict(env))
    outer_url, outer_host = outer.url, outer.host
    ev.note(mount=m, path=prefix + rest, script=script)
    res = serve(mw, env, ev)
    root = (script + prefix).encode('latin1').decode()
    if rest == '/dir':
        ev.eq(res.code // 100, 3, 'no-slash-redirect')
        from urllib.parse import urlsplit, unquote
        loc = urlsplit(res.one('Location'))
        ev.eq((loc.netloc, unquote(loc.path)),
              ('example.org', root + '/dir/'), 'redirect-leaves-mount')
    else:
        ev.eq(res.code, 200, 'status')
        ev.eq(len(log), 1, 'view-calls')
        script_root, path, url, url_root, kw = log[0]
        ev.eq(script_root, root, 'script-root')
        ev.eq(path, rest.encode('latin1').decode(), 'path')
        ev.eq(url, outer_url, 'url')
        ev.ok(url.startswith(url_root), 'url-root', got=url_root, url=url)
        if rest.startswith('/item/'):
            ev.eq(kw, {'name': name}, 'arguments')
        ev.hit('same-url')
    ev.hit('real-app')
    ev.key(m, prefix, rest, script)
    ev.case()


def sweep(ev):
    """All paths of up to three segments against small tables."""
    import itertools
    from verktyg.wsgi import DispatcherMiddleware
    pool = ['/a', '/b', '/a/b', '/ab', '/a/b/a']
    paths = [''] + [''.join('/' + s for s in t) for n in (1, 2, 3, 4)
                    for t in itertools.product(('a', 'b', 'ab', ''),
                                               repeat=n)]
    for r in range(4):
        for mounts in itertools.combinations(pool, r):
            log = []
            mw = DispatcherMiddleware(Recorder('default', log), {
                m: Recorder(m, log) for m in mounts})
            for path in paths:
                del log[:]
                env = {'PATH_INFO': path, 'SCRIPT_NAME': '/s'}
                mw(env, lambda *a: None)
                w = longest(mounts, path) or ''
                ev.eq([(n, e['SCRIPT_NAME'], e['PATH_INFO'])
                       for n, e, _ in log],
                      [(w or 'default', '/s' + w, path[len(w):])],
                      'dispatch', mounts=mounts, path=path)
                ev.hit('swept')


DIRECTED = [('sweep', sweep)]
SCENARIOS = [
    Scenario('request', request, 1500),
    Scenario('nested', nested, 500),
    Scenario('real_application', real_application, 250),
]
