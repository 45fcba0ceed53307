"""Requests report the URL and headers the client sent."""
from urllib.parse import urlsplit, unquote, quote

from vf.engine import Scenario
from vf import gen, rfc

RULE = ('URLs are generated as components (scheme, host, port, script root, '
        'path, query pairs), turned into a WSGI environ by hand and read '
        'back through every request attribute; reported URLs are parsed with '
        'urllib and compared component by component, and requested again; '
        'URI/IRI conversions are compared the same way; distinct = hash of '
        'the components')
ASSUMPTIONS = ['percent escapes in URLs are valid UTF-8', 'hosts are valid '
               'names or addresses, ports 1 to 65535', 'paths start with '
               'exactly one slash', 'no user info in host headers',
               'header values are native strings']
REQUIRED = {'missing-variable': 100, 'request': 1500, 'url-parsed': 3000, 'rebuilt': 800,
            'args': 1200, 'raw-query': 150, 'script-root': 400,
            'unicode-path': 400, 'reserved-path': 400, 'control-path': 60,
            'idna-host': 100, 'port': 200, 'ipv6': 50, 'iri-uri': 1000,
            'uri-iri': 1000, 'userinfo': 150, 'idempotent': 1500,
            'typed-header': 1500, 'builder': 600, 'url-fix': 300,
            'swept': 400, 'access-route': 200, 'no-header': 200}

HOSTS = ['localhost', 'example.org', 'www.example.org', '127.0.0.1', 'a-b.c',
         'xn--n3h.net', 'xn--bcher-kva.example', '[::1]', '[2001:db8::1]',
         'my_host', 'x', 'xn--0.net', 'a.xn--zzzzzzzzz.org']
IRI_HOSTS = HOSTS + ['\u2603.net', 'b\xfccher.example', '\xe4.\xf6.de',
                     '\u4e2d\u6587.cn']
CHARS = gen.ASCII + '-._~' + "!$&'()*+,;=:@" + ' "<>\\^`{|}[]' + '?#%' + \
    '\xe4\xdf\u4e2d\U0001f600\u0301\xa0\u2028'
CTRL = '\x00\x01\t\n\r\x1b\x7f'


def segment(src):
    k = src.draw(8)
    if k == 0:
        return src.choice(('.', '..', '%', '%41', '%2F', 'a b', 'a+b', '?',
                           '#', 'a#b', 'a?b=c', 'a;b', '\xe4', '%zz', ';',
                           ':', 'a:b', '@', '\\', '//'.strip('/'), '&', '=',
                           'index.html', '%25', "'", '"', '~x'))
    if k == 1:
        return src.text(CHARS + CTRL, 5, lo=0)
    if k == 2:
        s = gen.lit(src)
        return s.replace('/', '')[:200]
    return gen.text(src, src.choice(('ab', CHARS)), 4, 120)


def path(src):
    p = '/' + '/'.join(segment(src).replace('/', '') for _ in range(
        src.size(3, 20)))
    while p.startswith('//'):
        p = p[1:]
    return p.encode('utf-8', 'replace').decode()


def pairs(src):
    out = []
    if src.bool(1, 40):
        return [('k%d' % (i % 7), str(i)) for i in range(src.choice(
            (101, 600, 1001, 1300)))]
    for _ in range(src.size(3, 20)):
        out.append((gen.text(src, CHARS + '\x00\n', 3, 60),
                    gen.text(src, CHARS + '\x00\n\r', 4, 200)))
    return out


SAFE = set(gen.ASCII + '-._~')


def enc(src, s, plus=True):
    """Percent encoding as some client could do it."""
    style = src.draw(4)
    out = []
    for ch in s:
        if ch in SAFE or (style == 1 and ch in "!$'()*,:@/?"):
            out.append(ch)
        elif ch == ' ' and plus and style != 2:
            out.append('+')
        else:
            for b in ch.encode('utf-8'):
                out.append(('%%%02x' if style == 3 else '%%%02X') % b)
    return ''.join(out)


def query(src, ps):
    parts = []
    for k, v in ps:
        if v == '' and k and src.bool():
            parts.append(enc(src, k))
        else:
            parts.append(enc(src, k) + '=' + enc(src, v))
    q = '&'.join(parts)
    if src.bool(1, 8):
        q = q.replace('&', '&&') + '&'
    return q


def host_of(src, pool=HOSTS):
    h = src.choice(pool)
    port = None
    if src.bool(1, 3):
        port = src.choice((80, 443, 8080, 1, 65535, 5000))
    return h, port


def idna(h):
    h = (h or '').lower()
    if h.isascii():
        out = []
        for l in h.split('.'):
            out.append(l)
        return '.'.join(out)
    return '.'.join(l.encode('idna').decode() for l in h.split('.'))


def parts_of(url):
    """What a URL means."""
    u = urlsplit(url)
    pth = [unquote(s, errors='strict') for s in u.path.split('/')]
    q = []
    for item in u.query.split('&'):
        if item:
            k, eq, v = item.partition('=')
            q.append((unquote(k.replace('+', ' ')), bool(eq),
                      unquote(v.replace('+', ' '))))
    port = u.port
    if port is None:
        port = {'http': 80, 'https': 443}.get(u.scheme)
    return {'scheme': u.scheme, 'host': idna(u.hostname), 'port': port,
            'user': unquote(u.username or ''),
            'password': unquote(u.password or ''), 'path': pth, 'query': q,
            'fragment': unquote(u.fragment)}


def expected(scheme, h, port, whole_path, ps=None):
    d = {'scheme': scheme, 'host': idna(h.strip('[]')),
         'port': port or {'http': 80, 'https': 443}[scheme],
         'user': '', 'password': '', 'path': whole_path.split('/'),
         'fragment': ''}
    d['query'] = [(k, v) for k, v in ps or () if k or v]
    return d


def means(ev, url, want, kind, **kw):
    got = parts_of(url)
    got['query'] = [(k, v) for k, _, v in got['query'] if k or v]
    ev.eq(got, want, kind, url=url, **kw)
    ev.hit('url-parsed')


def request(src, ev):
    from verktyg.requests import Request, BaseRequest
    from verktyg.wsgi import (
        get_current_url, get_path_info, get_script_name, get_query_string)
    scheme = src.choice(('http', 'https'))
    h, port = host_of(src)
    host = h + (':%d' % port if port else '')
    script = ''
    if src.bool(1, 3):
        script = '/' + '/'.join(
            segment(src).replace('/', '') or 'x'
            for _ in range(src.int(1, 2)))
        script = script.encode('utf-8', 'replace').decode()
        if src.bool(1, 6):
            script += '/'
        ev.hit('script-root')
    p = path(src)
    ps = pairs(src)
    q = query(src, ps)
    if src.bool(1, 8):
        # browsers that do not encode
        raw = gen.ASCII + '\xe4\u4e2d' + '#"<>^`{|}\\ []@;,:'
        ps = [(gen.text(src, raw, 3), gen.text(src, raw, 3))
              for _ in range(src.int(1, 3))]
        q = gen.as_wsgi('&'.join(k + '=' + v for k, v in ps))
        ev.hit('raw-query')
    method = src.choice(('GET', 'POST', 'put', 'HEAD', 'X-THING'))
    env = gen.environ(p, q, method, script=script, scheme=scheme, host=host)
    if src.bool(1, 6) and not h.startswith('['):
        del env['HTTP_HOST']
        env['SERVER_NAME'] = h
        env['SERVER_PORT'] = str(port or {'http': 80, 'https': 443}[scheme])
        if (scheme, port) in (('http', 80), ('https', 443)):
            host = h
    elif src.bool(1, 10):
        env['HTTP_X_FORWARDED_HOST'] = host
        env['HTTP_HOST'] = 'inner.proxy'
    if p == '/' and src.bool(1, 3):
        env['PATH_INFO'] = ''
    full_env = dict(env)
    for k in ('PATH_INFO', 'SCRIPT_NAME', 'QUERY_STRING'):
        # variables that are empty may be missing (PEP 3333)
        if not env[k] and src.bool(1, 4):
            del env[k]
            ev.hit('missing-variable')
    ev.note(path=p, script=script, query=q, host=host, scheme=scheme)
    cls = src.choice((Request, BaseRequest))
    req = cls(env)
    ev.eq(req.path, p, 'path')
    ev.eq(req.script_root, script.rstrip('/'), 'script-root')
    ev.eq(req.host, host, 'host')
    ev.eq(req.method, method.upper(), 'method')
    ev.eq(req.scheme, scheme, 'scheme')
    ev.eq(req.is_secure, scheme == 'https', 'is-secure')
    ev.eq(req.query_string, q.encode('latin1').decode(), 'query-string')
    ev.eq(req.full_path, p + '?' + q.encode('latin1').decode(), 'full-path')
    if env.get('PATH_INFO'):
        ev.eq(get_path_info(env), p, 'get-path-info')
        ev.eq(get_path_info(env, charset=None), p.encode(), 'get-path-info')
    ev.eq(get_script_name(env), script, 'get-script-name')
    ev.ok(get_query_string(env).isascii(), 'query-not-ascii')
    real = [(k, v) for k, v in ps if k or v or '=' in q]
    got = [(k, v) for k in req.args for v in req.args.getlist(k)]
    want = {}
    for k, v in ps:
        want.setdefault(k, []).append(v)
    ev.eq({k: req.args.getlist(k) for k in req.args}, want, 'args',
          pairs=ps, got=got, real=real)
    ev.hit('args')
    root = script.rstrip('/')
    full = expected(scheme, h, port, root + p, ps)
    means(ev, req.url, full, 'url')
    ev.eq(req.url, get_current_url(env), 'get-current-url')
    means(ev, req.base_url, expected(scheme, h, port, root + p), 'base-url')
    means(ev, req.url_root, expected(scheme, h, port, root + '/'),
          'url-root')
    means(ev, req.host_url, expected(scheme, h, port, '/'), 'host-url')
    ev.hit('request')
    if not p.isascii():
        ev.hit('unicode-path')
    if set(p) & set('?#%;'):
        ev.hit('reserved-path')
    if set(p) & set(CTRL):
        ev.hit('control-path')
    if 'xn--' in h:
        ev.hit('idna-host')
    if h.startswith('['):
        ev.hit('ipv6')
    if port:
        ev.hit('port')
    if src.bool(1, 2) and not h.startswith('['):
        again(src, ev, req, full_env, p, root, ps, h, port, scheme)
    ev.key(scheme, host, script, p, q)
    ev.case()


def again(src, ev, req, env, p, root, ps, h, port, scheme):
    """Request the reported URL."""
    from verktyg.test import create_environ
    from verktyg.requests import Request
    url, url_root = req.url, req.url_root
    ev.ok(url.startswith(url_root), 'root-is-no-prefix', url=url,
          root=url_root)
    rest = '/' + url[len(url_root):]
    ev.note(url=url, again=rest)
    env2 = create_environ(rest, url_root)
    for k in ('SCRIPT_NAME', 'wsgi.url_scheme'):
        ev.eq(env2[k].rstrip('/'), env[k].rstrip('/'), 'again-' + k)
    ev.eq(env2['PATH_INFO'] or '/', env['PATH_INFO'] or '/',
          'again-PATH_INFO')
    r2 = Request(env2)
    ev.eq(idna(r2.host.split(':')[0]), idna(h), 'again-host')
    ev.eq({k: r2.args.getlist(k) for k in r2.args},
          {k: req.args.getlist(k) for k in req.args}, 'again-args')
    ev.eq(r2.url, url, 'again-url')
    ev.hit('rebuilt')


def component(src, safe):
    """(text, escaped text) of a URL component."""
    s = gen.text(src, CHARS, 4, 80)
    if src.bool(1, 6):
        s += src.choice(CTRL)
    out = ''
    for ch in s:
        if ch in safe and src.bool(2, 3):
            out += ch
        else:
            out += ''.join('%%%02X' % b for b in ch.encode())
    return out


IRI_EXTRA = '\xe4\xdf\u4e2d\U0001f600\u0301\xa0'
P_SAFE = gen.ASCII + "-._~!$&'()*+,=:@;"
Q_SAFE = gen.ASCII + "-._~!$'()*,:@/?;"
U_SAFE = gen.ASCII + '-._~!'


def make_url(src, iri, ev):
    extra = IRI_EXTRA + ' ' if iri else ''
    scheme = src.choice(('http', 'https', 'ftp'))
    h, port = host_of(src, IRI_HOSTS if iri else HOSTS)
    net = h + (':%d' % port if port else '')
    if src.bool(1, 4):
        u = component(src, U_SAFE + extra.strip()) or 'u'
        if src.bool():
            u += ':' + (component(src, U_SAFE + extra.strip()) or 'p')
        net = u + '@' + net
        ev.hit('userinfo')
    pth = ''.join('/' + component(src, P_SAFE + extra)
                  for _ in range(src.size(3, 15)))
    while pth.startswith('//'):
        pth = pth[1:]
    q = '&'.join(component(src, Q_SAFE + extra) + '=' +
                 component(src, Q_SAFE + '+' + extra)
                 for _ in range(src.size(2, 10)))
    f = component(src, Q_SAFE + extra) if src.bool(1, 4) else ''
    relative = src.bool(1, 5)
    if relative:
        url = pth or '/'
    else:
        url = '%s://%s%s' % (scheme, net, pth)
    if q:
        url += '?' + q
    if f:
        url += '#' + f
    return url


def convert(src, ev):
    from verktyg.urls import iri_to_uri, uri_to_iri
    iri = src.bool()
    url = make_url(src, iri, ev)
    meaning = parts_of(url)
    ev.note(url=url)
    uri = iri_to_uri(url)
    ev.ok(isinstance(uri, str) and uri.isascii(), 'uri-not-ascii', uri=uri)
    ev.ok(not set(uri) & set(' \n\r\t\x00"<>\\^`{|}'), 'uri-characters',
          uri=uri)
    ev.eq(parts_of(uri), meaning, 'iri-to-uri', uri=uri)
    ev.eq(iri_to_uri(uri), uri, 'iri-to-uri-twice')
    ev.hit('iri-uri')
    i = uri_to_iri(url)
    ev.eq(parts_of(i), meaning, 'uri-to-iri', iri=i)
    ev.eq(uri_to_iri(i), i, 'uri-to-iri-twice')
    ev.hit('uri-iri')
    ev.hit('idempotent')
    u2 = iri_to_uri(i)
    ev.ok(u2.isascii(), 'uri-not-ascii', uri=u2)
    ev.eq(parts_of(u2), meaning, 'there-and-back', iri=i, uri=u2)
    # one more turn changes nothing at all
    ev.eq(iri_to_uri(uri_to_iri(u2)), u2, 'not-inverse', uri=u2)
    i2 = uri_to_iri(u2)
    ev.eq(uri_to_iri(iri_to_uri(i2)), i2, 'not-inverse', iri=i2)
    ev.key(url)
    ev.case()


def fixing(src, ev):
    from verktyg.urls import url_fix
    url = make_url(src, True, ev)
    if src.bool():
        url = url.replace('%20', ' ')
    if '\\' in url:
        return
    ev.note(url=url)
    fixed = url_fix(url)
    ev.ok(fixed.isascii(), 'fixed-not-ascii', fixed=fixed)
    m, w = parts_of(fixed), parts_of(url)
    # anchors and query strings are written like form data
    m.pop('fragment'), w.pop('fragment')
    ev.eq(m, w, 'fix-changes-url', fixed=fixed)
    ev.eq(url_fix(fixed), fixed, 'fix-twice')
    ev.hit('url-fix')
    ev.key('fix', url)
    ev.case()


def builder(src, ev):
    """What the environ builder is told is what the request reports."""
    from verktyg.test import create_environ, EnvironBuilder
    from verktyg.requests import Request
    scheme = src.choice(('http', 'https'))
    h, port = host_of(src, [x for x in IRI_HOSTS if x[0] != '['])
    p = path(src)
    script = src.choice(('', '', '/app', '/a b', '/\xe4', '/a%25b', '/a/b'))
    base = '%s://%s%s%s%s' % (scheme, h, ':%d' % port if port else '',
                              script, src.choice(('', '/')))
    ps = pairs(src)
    # as IRI: reserved characters escaped, others perhaps
    ipath = ''.join(
        c if c in SAFE or c == '/' or (
            c not in '?#%' + CTRL and src.bool(3, 4))
        else ''.join('%%%02X' % b for b in c.encode()) for c in p)
    how = src.draw(3)
    ev.note(path=ipath, base_url=base, pairs=ps, how=how)
    if how == 0:
        env = create_environ(ipath + '?' + query(src, ps), base)
    elif how == 1:
        env = create_environ(ipath, base, query_string=query(src, ps))
    else:
        ps = [(k or 'k', v) for k, v in ps]
        from verktyg.datastructures import MultiDict
        env = create_environ(ipath, base, query_string=MultiDict(ps))
    want = {}
    for k, v in ps:
        want.setdefault(k, []).append(v)
    req = Request(env)
    ev.eq(req.path, p, 'builder-path')
    ev.eq(req.script_root, unquote(script), 'builder-script')
    ev.eq({k: req.args.getlist(k) for k in req.args}, want, 'builder-args')
    root = unquote(script)
    full = expected(scheme, h, port, root + p)
    full.pop('query')
    got = parts_of(req.url)
    got.pop('query')
    ev.eq(got, full, 'builder-url', url=req.url)
    ev.eq((env['SERVER_NAME'], env['SERVER_PORT']),
          (idna(h), str(port or (443 if scheme == 'https' else 80))),
          'builder-server')
    ev.eq(env['wsgi.url_scheme'], scheme, 'builder-scheme')
    with_req = Request.from_values(ipath, base)
    ev.eq(with_req.path, p, 'from-values')
    ev.hit('builder')
    ev.key('b', ipath, base, ps, how)
    ev.case()


def typed(src, ev):
    """Attributes made of single headers."""
    from verktyg.requests import Request
    env = gen.environ('/')
    del env['CONTENT_LENGTH']
    req = None

    def put(key, value):
        if value is not None:
            env[key] = value
    # dates
    t = rfc.random_instant(src)
    date = src.choice((None, rfc.imf(t), 'nonsense', ''))
    put('HTTP_DATE', date)
    mf = src.choice((None, '0', '10', 'x', '', '12345678901'))
    put('HTTP_MAX_FORWARDS', mf)
    cl = src.choice((None, '0', '17', 'x', '', '-4'))
    put('CONTENT_LENGTH', cl)
    ref = src.choice((None, 'http://example.org/?x', '', gen.value(
        src).encode('latin1', 'replace').decode('latin1')))
    put('HTTP_REFERER', ref)
    ce = src.choice((None, 'gzip', ''))
    put('HTTP_CONTENT_ENCODING', ce)
    md5 = src.choice((None, 'Q2hlY2s='))
    put('HTTP_CONTENT_MD5', md5)
    ct, mt, params = src.choice((
        (None, '', {}), ('text/html', 'text/html', {}),
        ('TEXT/Html; charset=utf-8', 'text/html', {'charset': 'utf-8'}),
        ('a/b; x="1;2"; y=z', 'a/b', {'x': '1;2', 'y': 'z'}),
        ('multipart/form-data; boundary="a b"', 'multipart/form-data',
         {'boundary': 'a b'})))
    if ct is None:
        env.pop('CONTENT_TYPE')
    else:
        env['CONTENT_TYPE'] = ct
    pragma = src.choice((None, 'no-cache', 'a, b', '"a b", c'))
    put('HTTP_PRAGMA', pragma)
    xhr = src.choice((None, 'XMLHttpRequest', 'xmlhttprequest', 'no',
                      'XMLHTTPREQUEST', 'NoXMLHttpRequest',
                      'XMLHttpRequest2'))
    put('HTTP_X_REQUESTED_WITH', xhr)
    fwd = src.choice((None, '1.2.3.4', '1.2.3.4, 5.6.7.8',
                      ' 1.1.1.1 ,2.2.2.2,  3.3.3.3', '::1, ::1',
                      '7.7.7.7,1.2.3.4, 7.7.7.7'))
    if src.bool(1, 6):
        fwd = src.choice((',', ', ')).join(
            '10.0.%d.%d' % (src.draw(3), i)
            for i in range(src.int(4, 60)))
    put('HTTP_X_FORWARDED_FOR', fwd)
    addr = src.choice((None, '9.9.9.9', '::1'))
    put('REMOTE_ADDR', addr)
    user = src.choice((None, 'alice', ''))
    put('REMOTE_USER', user)
    flags = [src.bool() for _ in range(3)]
    env['wsgi.multithread'], env['wsgi.multiprocess'], \
        env['wsgi.run_once'] = flags
    put('HTTP_X_FORWARDED_PROTO', src.choice((None, 'http', 'https')))
    env['wsgi.url_scheme'] = scheme = src.choice(('http', 'https'))
    tags = src.choice((None, '"a"', 'W/"a"', '"b", W/"c"', '*'))
    which = src.choice(('IF_MATCH', 'IF_NONE_MATCH'))
    put('HTTP_' + which, tags)
    stamp = src.choice(('IF_MODIFIED_SINCE', 'IF_UNMODIFIED_SINCE'))
    when = rfc.random_instant(src)
    put('HTTP_' + stamp, src.choice((rfc.imf(when), None)))
    rng = src.choice((None, 'bytes=0-4', 'bytes=-7', 'x'))
    put('HTTP_RANGE', rng)
    cookies = src.choice((None, 'a=b', 'a=b; c="d e"'))
    put('HTTP_COOKIE', cookies)
    req = Request(env)
    ev.note(environ={k: v for k, v in env.items()
                     if k.isupper() and isinstance(v, str)})
    ev.eq(req.date, rfc.naive(t) if date == rfc.imf(t) else None, 'date')
    ev.eq(req.max_forwards, int(mf) if mf and mf.isdigit() else None,
          'max-forwards')
    ev.eq(req.content_length, {None: None, '0': 0, '17': 17, 'x': None,
                               '': None, '-4': 0}[cl], 'content-length')
    ev.eq(req.referrer, ref, 'referrer')
    ev.eq(req.content_encoding, ce, 'content-encoding')
    ev.eq(req.content_md5, md5, 'content-md5')
    ev.eq(req.content_type, ct, 'content-type')
    ev.eq(req.mimetype, mt, 'mimetype')
    ev.eq(dict(req.mimetype_params), params, 'mimetype-params')
    ev.eq(sorted(req.pragma), {None: [], 'no-cache': ['no-cache'],
                               'a, b': ['a', 'b'],
                               '"a b", c': ['a b', 'c']}[pragma], 'pragma')
    ev.eq(bool(req.is_xhr), (xhr or '').lower() == 'xmlhttprequest',
          'is-xhr')
    want = [x.strip() for x in fwd.split(',')] if fwd else (
        [addr] if addr else [])
    ev.eq(list(req.access_route), want, 'access-route')
    ev.eq(req.remote_addr, addr, 'remote-addr')
    ev.eq(req.remote_user, user, 'remote-user')
    ev.eq((req.scheme, req.is_secure), (scheme, scheme == 'https'), 'scheme')
    strong, weak, star = {
        None: ([], [], False), '"a"': (['a'], [], False),
        'W/"a"': ([], ['a'], False), '*': ([], [], True),
        '"b", W/"c"': (['b'], ['c'], False)}[tags]
    for k, a in (('IF_MATCH', req.if_match),
                 ('IF_NONE_MATCH', req.if_none_match)):
        s, w, st = (strong, weak, star) if k == which else ([], [], False)
        ev.eq([(a.contains(x), a.contains_weak(x), a.star_tag)
               for x in 'abc'],
              [(x in s or st, x in s or x in w or st, st) for x in 'abc'],
              'etags',
              header=k)
    for k, a in (('IF_MODIFIED_SINCE', req.if_modified_since),
                 ('IF_UNMODIFIED_SINCE', req.if_unmodified_since)):
        ev.eq(a, rfc.naive(when) if 'HTTP_' + k in env else None,
              'validator-date', header=k)
    ev.eq(req.range and (req.range.units, req.range.ranges),
          {'bytes=0-4': ('bytes', [(0, 5)]),
           'bytes=-7': ('bytes', [(-7, None)])}.get(rng), 'range')
    ev.eq([req.is_multithread, req.is_multiprocess, req.is_run_once], flags,
          'server-flags')
    ev.eq(dict(req.cookies), {None: {}, 'a=b': {'a': 'b'},
                              'a=b; c="d e"': {'a': 'b', 'c': 'd e'}}[
                                  cookies], 'cookies')
    for k, v in env.items():
        if k.startswith('HTTP_'):
            ev.eq(req.headers.get(k[5:].replace('_', '-')), v, 'headers')
    ev.eq(len(req.headers), len(list(req.headers)), 'header-count')
    put('HTTP_X_NOTE', src.choice((None, '', 'x', '\xe4 b')))
    ev.eq(len(req.headers), len(list(req.headers)), 'header-count')
    ev.eq(sorted(k.lower() + '\n' + v for k, v in req.headers),
          sorted((k[5:] if k.startswith('HTTP_') else k).replace(
              '_', '-').lower() + '\n' + v for k, v in env.items()
              if k.startswith('HTTP_') or k in (
                  'CONTENT_TYPE', 'CONTENT_LENGTH')), 'header-list')
    # nothing a view does to its request shows in the next one
    kept = Request(dict(env))
    keep = dict(kept.mimetype_params), sorted(kept.pragma)
    req.mimetype_params['spoiled'] = 'yes'
    req.mimetype_params.pop('charset', None)
    req.pragma.add('spoiled')
    for other in (kept, Request(dict(env))):
        ev.eq((dict(other.mimetype_params), sorted(other.pragma)), keep,
              'one-request-changed-another')
        ev.eq((other.mimetype, list(other.access_route), dict(other.cookies)),
              (mt, want, dict(req.cookies)), 'one-request-changed-another')
    ev.hit('typed-header', 10)
    ev.hit('access-route')
    ev.hit('no-header')
    ev.key('t', date, mf, cl, ct, pragma, xhr, fwd, addr)
    ev.case()


def sweep(ev):
    """Every ASCII character (and a few others) in path, query, fragment and
    user info, raw and escaped."""
    from verktyg.urls import iri_to_uri, uri_to_iri
    from verktyg.requests import Request
    for c in [chr(i) for i in range(128)] + list(IRI_EXTRA):
        e = ''.join('%%%02X' % b for b in c.encode())
        for url in ('http://h/a%sb' % e, 'http://h/?a=%sb' % e,
                    'http://h/?%s' % e, 'http://h/#a%sb' % e,
                    'http://u%sv:p%sq@h/x' % (e, e),
                    'http://h/%s' % e.lower(), '/x%s' % e, '/?%s' % e):
            m = parts_of(url)
            i = uri_to_iri(url)
            ev.eq(parts_of(i), m, 'uri-to-iri', url=url, iri=i)
            ev.eq(uri_to_iri(i), i, 'uri-to-iri-twice', url=url)
            u = iri_to_uri(i)
            ev.ok(u.isascii(), 'uri-not-ascii', url=url, uri=u)
            ev.eq(parts_of(u), m, 'there-and-back', url=url, iri=i, uri=u)
            ev.hit('swept')
        p = '/a' + c + 'b'
        env = gen.environ(p, 'q=' + e)
        req = Request(env)
        ev.eq(req.path, p, 'path', char=c)
        ev.eq(req.args['q'], c, 'args', char=c)
        means(ev, req.url, expected('http', 'localhost', None, p,
                                    [('q', c)]), 'url', char=c)


DIRECTED = [('sweep', sweep)]
SCENARIOS = [
    Scenario('request', request, 3000),
    Scenario('convert', convert, 3000),
    Scenario('fixing', fixing, 300),
    Scenario('builder', builder, 1500),
    Scenario('typed', typed, 900),
]
