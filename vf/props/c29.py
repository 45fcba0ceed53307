"""Binding a map to a request environment."""
from urllib.parse import urlsplit, unquote

from vf.engine import Scenario
from vf import gen

RULE = ('generated environments are bound to maps with routes for several '
        'subdomains or hosts; an independent model computes server, '
        'subdomain, script root, path and query from the environment and '
        'predicts match, redirect and build; distinct = hash of environment '
        'and map')
ASSUMPTIONS = [
    'the Host header does not name the default port explicitly',
    'an empty Host header counts as absent',
    'hosts are ASCII; labels the library can not represent only have to be '
    'refused with an HTTP exception',
]
REQUIRED = {'bound': 8000, 'subdomain': 1500, 'foreign': 500,
            'no-server-name': 1500, 'from-server-name': 1500, 'port': 800,
            'mixed-case': 800, 'explicit-subdomain': 400, 'match': 2500,
            'redirect': 330, 'build': 2500, 'not-found': 1500,
            'host-matching': 800, 'request-object': 400, 'variable': 250,
            'malformed': 300, 'unicode': 300, 'missing-keys': 200}

SERVERS = ('example.com', 'localhost', 'example.com:8080', 'Example.COM',
           'a.b.example.co', 'intranet', 'EXAMPLE.org:81', '10.0.0.1',
           'xn--4ca.com')
SUBS = ('', 'www', 'api', 'a.b', 'x1', 'deep.er.sub', 'WwW', 'example',
        'a.b.c.d.e.f', '1.2.3.4.5.6.7.8.9.10')
ROUTED = ('', 'www', 'a.b', 'api', 'ww', 'b')


class Env(object):
    def __init__(self, environ):
        self.environ = environ


def swap(src, s):
    return ''.join(c.upper() if src.bool() else c.lower() for c in s)


def foreign(src, server):
    """A host that is neither the server nor below it."""
    name = server.lower()
    cand = src.choice((
        'evil' + name, name + '.evil.com', 'evil.com', 'x' + name,
        name[1:].lstrip('.') or 'q', '10.9.8.7', 'www-' + name, name.replace('.', '-', 1),
        'com', 'www.evil.com', name + 'x', 'example.net',
        name + '.', 'invalid'))
    if ':' in name:
        cand = src.choice((cand, name.split(':')[0], name + '0',
                           'www.' + name.split(':')[0]))
    elif src.bool(1, 5):
        cand = src.choice((name + ':8080', 'www.' + name + ':81'))
    low = cand.lower()
    if low == name or low.endswith('.' + name):
        return 'other.test'
    return cand


def url_path(src, ev):
    k = src.draw(6)
    if k == 0:
        return src.choice(('/', '', '//'))
    if k == 1:
        ev.hit('unicode')
        return src.choice((u'/item/\xe4', u'/item/\u4e2d', '/item/a b',
                           '/item/%41', '/item/+'))
    if k == 2:
        return src.choice(('/branch', '/branch/', '//branch', '/nowhere',
                           '/item/', '/item'))
    return '/item/' + gen.ident(src)


def bind(src, ev):
    from verktyg.routing import URLMap, Route, RequestRedirect
    from verktyg.exceptions import NotFound, HTTPException
    host_matching = src.bool(1, 4)
    scheme = src.choice(('http', 'https'))
    script = src.choice(('', '', '/app', u'/a/b', '/app/'))
    query = src.choice(('', 'a=b', 'x=%20+y&x', 'q=%C3%A4', '=', 'a;b',
                        gen.as_wsgi(u'q=\xe4\u4e2d')))
    path = url_path(src, ev)
    env = gen.environ(path, query, script=script, scheme=scheme)
    server = src.choice(SERVERS)
    sub = src.choice(SUBS)
    kind = src.choice(('inside', 'inside', 'inside', 'foreign'))
    text = (sub + '.' if sub else '') + server
    if kind == 'foreign':
        text = foreign(src, server)
    if src.bool(1, 3):
        text = swap(src, text)
        ev.hit('mixed-case')
    # how the environment tells the host
    if src.bool():
        env['HTTP_HOST'] = text
        env['SERVER_NAME'] = src.choice(('localhost', 'backend', server))
        env['SERVER_PORT'] = src.choice(('80', '443', '9999'))
        host = text
    else:
        del env['HTTP_HOST']
        name, _, port = text.partition(':') if text[0] != '[' else \
            (text, '', '')
        if not port.isdigit():
            name, port = text, ''
        default = '443' if scheme == 'https' else '80'
        env['SERVER_NAME'] = name
        env['SERVER_PORT'] = port or default
        if src.bool(1, 4):
            env['HTTP_HOST'] = ''     # as good as none
            ev.hit('empty-host')
        host = name + (':' + port if port else '')
        ev.hit('from-server-name')
    if ':' in host:
        ev.hit('port')
    if src.bool(1, 20):
        for k in ('SCRIPT_NAME', 'QUERY_STRING'):
            env.pop(k)
        script = query = ''
        ev.hit('missing-keys')
    how = src.draw(4)
    kw = {}
    if host_matching:
        ev.hit('host-matching')
        if how == 0:
            kw['server_name'] = server
            want_server = server.lower()
        else:
            want_server = host.lower()
        want_sub = None
    elif how == 0:
        ev.hit('no-server-name')
        want_server = host.lower()
        want_sub = ''
    else:
        kw['server_name'] = server
        want_server = server.lower()
        if how == 1 and src.bool():
            ev.hit('explicit-subdomain')
            kw['subdomain'] = src.choice(SUBS)
            want_sub = kw['subdomain'].lower()
        elif kind == 'foreign':
            ev.hit('foreign')
            want_sub = NotFound
        else:
            ev.hit('subdomain')
            want_sub = sub.lower()
    # the map
    opt = {'subdomain': None}
    rs, table = [], []
    if host_matching:
        hosts = src.shuffle(list(dict.fromkeys(
            [want_server, 'other.org', 'example.com'])))
        hosts = hosts[:src.int(1, 3)]
        for i, h in enumerate(hosts):
            table.append((h, i))
        variable = src.bool(1, 3)
        if variable:
            table.append(('<dom>', 'v'))
        for h, i in table:
            rs += [Route('/item/<name>', endpoint='item%s' % i, host=h),
                   Route('/branch/', endpoint='branch%s' % i, host=h)]
    else:
        default = src.choice(('', '', 'www', 'api'))
        if how == 0:
            want_sub = default
        subs = src.sublist(ROUTED, 2, 3)
        if want_sub is not NotFound and want_sub not in subs and \
                src.bool(1, 2):
            subs.append(want_sub)
        for i, h in enumerate(src.shuffle(subs)):
            table.append((h, i))
        variable = src.bool(1, 3)
        if variable:
            table.append(('<dom>', 'v'))
        for h, i in table:
            rs += [Route('/item/<name>', endpoint='item%s' % i, subdomain=h),
                   Route('/branch/', endpoint='branch%s' % i, subdomain=h)]
        opt = {'default_subdomain': default}
    if host_matching:
        opt = {'host_matching': True}
    m = URLMap(rs, **opt)
    ev.note(host=env.get('HTTP_HOST'), name=env['SERVER_NAME'],
            port=env['SERVER_PORT'], scheme=scheme, path=path, script=script,
            query=query, args=kw, table=table, options=opt)
    before = dict(env)
    obj = env
    if src.bool(1, 8):
        obj = Env(env)
        ev.hit('request-object')
    a = m.bind_to_environ(obj, **kw)
    ev.hit('bound')
    ev.key(sorted((k, v) for k, v in env.items() if isinstance(v, str)),
           table, sorted(kw.items()), sorted(opt.items()))
    try:
        got = a.match()
    except RequestRedirect as e:
        got = e
    except NotFound:
        got = None
    ev.eq(env, before, 'environment-changed')
    clean = '/' + path.lstrip('/')
    domain = want_server if host_matching else want_sub
    wanted = None
    if domain is not NotFound:
        i = dict(table).get(domain)
        extra = {}
        if i is None and variable and domain:
            i = 'v'
            extra = {'dom': domain}
        if i is not None and clean.startswith('/item/') and \
                len(clean) > 6 and '/' not in clean[6:]:
            wanted = ('item%s' % i, dict(extra, name=clean[6:]))
        elif i is not None and clean == '/branch/':
            wanted = ('branch%s' % i, extra)
        elif i is not None and clean == '/branch':
            wanted = 'redirect'
        if i == 'v' and wanted:
            ev.hit('variable')
    base_host = want_server if host_matching or not domain or \
        domain is NotFound else domain + '.' + want_server
    root = '%s://%s%s' % (scheme, base_host, script.rstrip('/'))
    if wanted is None:
        ev.hit('not-found')
        ev.ok(got is None, 'matched-on-the-wrong-host', got=got,
              url=getattr(got, 'new_url', None))
    elif wanted == 'redirect':
        ev.hit('redirect')
        ev.ok(isinstance(got, RequestRedirect), 'no-slash-redirect', got=got)
        ev.eq(got.new_url, root + '/branch/' + (
            '?' + query.encode('latin1').decode('utf-8', 'replace')
            if query else ''),
              'redirect-to-another-site')
    else:
        ev.hit('match')
        ev.eq(got, wanted, 'wrong-match')
        # building from the same adapter
        ep, args = wanted
        url = a.build(ep, args)
        p = urlsplit(url)
        full = a.build(ep, args, force_external=True)
        q = urlsplit(full)
        ev.eq((q.scheme, q.netloc), (scheme, base_host), 'external-site')
        ev.eq(unquote(q.path), script.rstrip('/') + clean, 'external-path')
        if p.netloc:
            ev.eq(url, full, 'relative-form')
        else:
            ev.eq(url, q.path, 'relative-form')
            ev.eq(p.scheme, '', 'relative-form')
        ev.hit('build')
    ev.ok(a.test() == (wanted is not None), 'test-disagrees-with-match')


def malformed(src, ev):
    """Hosts that are no names are refused, nothing else."""
    from verktyg.routing import URLMap, Route
    from verktyg.exceptions import HTTPException
    host = src.choice((
        lambda: 'x' * src.choice((63, 64, 65, 300)) + '.example.com',
        lambda: gen.latin1(src, 60), lambda: '..', lambda: '.',
        lambda: 'a..b', lambda: '.example.com', lambda: '',
        lambda: 'a..example.com', lambda: ' example.com',
        lambda: '\xe4.example.com', lambda: 'example.com:x', lambda: '[::1]', lambda: '[::1]:80',
        lambda: '.'.join('ab' for _ in range(200))))()
    env = gen.environ('/x', host=host)
    m = URLMap([Route('/x', endpoint='x'),
                Route('/x', endpoint='v', subdomain='<dom>')],
               **src.choice(({}, {'default_subdomain': 'www'})))
    kw = src.choice(({}, {'server_name': 'example.com'},
                     {'server_name': 'example.com', 'subdomain': 'a'}))
    ev.note(host=host, args=kw)
    ev.key('malformed', host, sorted(kw.items()))
    ev.hit('malformed')
    try:
        ep, args = m.bind_to_environ(env, **kw).match()
    except HTTPException as e:
        ev.ok(400 <= e.code < 500, 'status', code=e.code)
        return
    if 'server_name' in kw and 'subdomain' not in kw:
        ok = host.lower() == 'example.com' or \
            host.lower().endswith('.example.com')
        ev.ok(ok, 'foreign-host-matched', endpoint=ep, args=args)


SCENARIOS = [Scenario('bind', bind, 5000, 150000),
             Scenario('malformed', malformed, 500, 10000)]
