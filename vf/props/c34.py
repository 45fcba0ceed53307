"""Converting URLs does not change what they address."""
import re
from urllib.parse import unquote_to_bytes

from vf.engine import Scenario
from vf import gen

RULE = ('URLs are put together from their components, converted between URI '
        'and IRI and repaired, and each result is taken apart again by a '
        'parser written from RFC 3986 and compared with the components: '
        'scheme, user, host, port, segments of the path, parameters of the '
        'query and fragment; distinct = hash of URL')
ASSUMPTIONS = ['absolute URLs with a host or rooted paths',
               'host names in their lower case canonical form',
               'a plus sign in the query stands for a space',
               'well formed percent escapes',
               'no compatibility forms of delimiters in user names']
REQUIRED = {'to-uri': 2500, 'to-iri': 2500, 'both-ways': 2500,
            'fixed': 2500, 'user': 800, 'password': 250, 'port': 800,
            'idna': 800, 'ipv6': 200, 'rooted': 800, 'query': 2500,
            'fragment': 1200, 'encoded-delimiter': 2500, 'readable': 2500,
            'control': 500, 'long': 150, 'idempotent': 2500,
            'backslash': 400, 'broken': 800, 'strict': 200, 'again': 1200,
            'name': 1500, 'port-refused': 150, 'location': 800}

URL = re.compile(r'(?s)(?:([a-zA-Z][a-zA-Z0-9+.\-]*):)?(?://([^/?#]*))?'
                 r'([^?#]*)(?:\?([^#]*))?(?:#(.*))?\Z')
NAMES = [('example.com', 'example.com'), ('a-b.c.test', 'a-b.c.test'),
         ('b\xfccher.example', 'xn--bcher-kva.example'),
         ('\u4e2d\u56fd.example', 'xn--fiqs8s.example'),
         ('\u043f\u0440\u0438\u043c\u0435\u0440.\u0440\u0444',
          'xn--e1afmkfd.xn--p1ai'),
         ('www.\u2603.net', 'www.xn--n3h.net'),
         ('localhost', 'localhost'), ('127.0.0.1', '127.0.0.1'),
         ('x_y.example', 'x_y.example')]
V6 = ['[::1]', '[2001:db8::1:0]', '[fe80::a]']
SCHEMES = ['http', 'https', 'ftp', 'ws', 'itms-services', 'x-y+z.1']
# characters that are never delimiters of the component they appear in
PLAIN = gen.ASCII + '-._~'
WIDE = ['\xe4', '\xdf', '\u4e2d', '\U0001f600', '\u20ac', '\u0439', '\xa0',
        '\u2028', '\x85', '\u0301', '\ufffd', '\u202e', '\uff0f', '\u2044']
# percent encoded they are data, as they are they would divide something
DELIMS = '/?#&=;+%@:[]\\ \'"<>{}|^`!$*(),'
CONTROL = ['\x00', '\t', '\n', '\r', '\x1f', '\x7f']


def word(src, raw, big=60, wide=WIDE):
    """[(text of an IRI or URI, what it means)] -> text"""
    out = []
    for _ in range(src.few(0, 4, big)):
        k = src.draw(10)
        if k < 4:
            out.append(src.choice(PLAIN))
        elif k < 6:
            c = src.choice(wide)
            out.append(c if src.bool() else quoted(src, c))
        elif k < 8:
            out.append(quoted(src, src.choice(DELIMS)))
        elif k == 8:
            if raw:
                out.append(src.choice(raw))
        else:
            out.append(quoted(src, src.choice(CONTROL + list(PLAIN))))
    return ''.join(out)


def quoted(src, c):
    low = src.bool()
    return ''.join(('%%%02x' if low else '%%%02X') % b
                   for b in c.encode('utf-8'))


def url_of(src, ascii_only=False, fix=False):
    """The text of a URL."""
    out = ''
    if src.bool(3, 4):
        out = src.choice(SCHEMES) + '://'
        k = src.draw(4)
        if k == 0:
            u = word(src, "!$*',;", 6, WIDE[:6])
            out += u
            if not u or src.bool():
                out += ':' + (word(src, "!$*',;", 6, WIDE[:6]) or 'p')
            out += '@'
        if src.bool(1, 8):
            out += src.choice(V6)
        else:
            out += src.choice(src.choice(NAMES))
        if src.bool(1, 3):
            out += ':%d' % src.choice((1, 80, 443, 8080, 65535))
        n = src.few(0, 3, 60)
    else:
        n = src.few(1, 3, 60)
    for i in range(n):
        w = word(src, "!$*(),:@&=+ ~;|" + ('' if fix else '"<>'))
        if not i and not out:
            w = w or 'a'        # two slashes would start a host
        out += '/' + w
    if n and src.bool(1, 4):
        out += '/'
    if src.bool(2, 3):
        raw = '!$*(),:@/?+ ~' + '' if fix else '!$*(),:@/?+ ~|;'
        out += '?' + '&'.join(
            word(src, raw) + ('=' + word(src, raw + '=') if src.bool(4, 5)
                              else '')
            for _ in range(src.few(1, 3, 60)))
    if src.bool(1, 3):
        out += '#' + word(src, '!$*(),:@/?~&=')
    # the parser of the standard library removes it from the end
    return out.rstrip(' ')


def host_of(host):
    host = host.lower()
    if host.isascii():
        return host
    return '.'.join(p.encode('idna').decode('ascii')
                    for p in host.split('.'))


def parse(ev, url, semicolon=True, plus_in_fragment=False):
    """What a URL addresses."""
    scheme, netloc, path, query, fragment = URL.match(url).groups()
    user = password = host = port = None
    if netloc:
        user, at, rest = netloc.rpartition('@')
        user, _, password = user.partition(':')
        m = re.match(r'(\[[^\]]*\]|[^:\[\]]*)(?::([0-9]*))?\Z', rest)
        ev.ok(m is not None, 'host-broken', url=url)
        host, port = m.groups()
        host = host_of(host)
    sep = '([&=;])' if semicolon else '([&=])'
    if plus_in_fragment:
        fragment = (fragment or '').replace('+', ' ')
    return {
        'scheme': scheme and scheme.lower(), 'host': host or None,
        'port': port or None,
        'user': unquote_to_bytes(user or ''),
        'password': unquote_to_bytes(password or ''),
        'path': [unquote_to_bytes(s) for s in path.split('/')],
        'query': [unquote_to_bytes(s.replace('+', ' '))
                  for s in re.split(sep, query or '')],
        'fragment': unquote_to_bytes(fragment or ''),
    }


def same(ev, got, want, kind, **kw):
    for part in want:
        ev.eq(got[part], want[part], '%s-%s' % (kind, part), **kw)


def seen(ev, url, want):
    if want['user']:
        ev.hit('user')
        if want['password']:
            ev.hit('password')
    if want['port']:
        ev.hit('port')
    if want['host'] is None:
        ev.hit('rooted')
    elif '[' in want['host']:
        ev.hit('ipv6')
    elif 'xn--' in want['host']:
        ev.hit('idna')
    if want['query'] != [b'']:
        ev.hit('query')
    if want['fragment']:
        ev.hit('fragment')
    if re.search('(?i)%(2[0-9a-f]|3[a-f]|40|5[bcd])', url):
        ev.hit('encoded-delimiter')
    if re.search('(?i)%([01][0-9a-f]|7f)', url):
        ev.hit('control')
    if len(url) > 250:
        ev.hit('long')


def is_uri(ev, uri, kind):
    ev.ok(type(uri) is str and uri.isascii() and
          not re.search('[\x00-\x20\x7f"<>\\\\^`{}]', uri), kind, uri=uri)


def convert(src, ev):
    from verktyg.urls import iri_to_uri, uri_to_iri
    given = []
    for _ in range(src.int(1, 3)):
        url = url_of(src)
        ev.note(url=url)
        want = parse(ev, url)
        uri = iri_to_uri(url)
        is_uri(ev, uri, 'not-a-uri')
        same(ev, parse(ev, uri), want, 'uri', uri=uri)
        ev.eq(iri_to_uri(uri), uri, 'uri-not-stable')
        ev.hit('to-uri')
        ev.hit('idempotent')

        iri = uri_to_iri(uri)
        ev.note(uri=uri, iri=iri)
        same(ev, parse(ev, iri), want, 'iri')
        ev.ok(not re.search('[\x00-\x1f\x7f]', iri), 'control-character')
        ev.ok('\\' not in iri.partition('?')[0].partition('#')[0],
              'backslash')      # would be taken for a slash
        ev.eq(uri_to_iri(iri), iri, 'iri-not-stable')
        ev.ok(not re.search('(?i)%[89a-f][0-9a-f]', iri), 'not-readable')
        ev.ok('xn--' not in iri.partition('//')[2].partition('/')[0]
              .rpartition('@')[2], 'host-not-readable')
        if not iri.isascii():
            ev.hit('readable')
        ev.hit('to-iri')
        back = iri_to_uri(iri)
        is_uri(ev, back, 'not-a-uri')
        same(ev, parse(ev, back), want, 'back', back=back)
        ev.eq(uri_to_iri(back), iri, 'back-differs', back=back)
        ev.hit('both-ways')
        # both forms may be mixed
        same(ev, parse(ev, uri_to_iri(url)), want, 'mixed')
        seen(ev, url, want)
        given.append((url, uri, iri))
        ev.key(url)
        ev.case()
    for url, uri, iri in src.shuffle(given):
        ev.note(url=url)
        ev.eq(iri_to_uri(url), uri, 'differs-later')
        ev.eq(uri_to_iri(uri), iri, 'differs-later')
        ev.hit('again')


def fix(src, ev):
    from verktyg.urls import url_fix
    url = url_of(src, fix=True)
    want = parse(ev, url, False, True)
    given = url
    if src.bool(1, 3):
        # browsers take them for slashes
        head, sep, tail = given.partition('//')
        if not sep:
            tail, head = head, ''
        many = src.bool()
        for i in [m.start() for m in re.finditer('/', tail)]:
            if src.bool():
                tail = tail[:i] + '\\' + tail[i + 1:]
                ev.hit('backslash')
                if not many:
                    break
        given = head + sep + tail
    ev.note(url=given)
    fixed = url_fix(given)
    is_uri(ev, fixed, 'fixed-not-a-uri')
    same(ev, parse(ev, fixed, False, True), want, 'fixed', fixed=fixed)
    ev.eq(url_fix(fixed), fixed, 'fixed-not-stable')
    ev.hit('fixed')
    seen(ev, url, want)
    ev.key('fix', given)
    ev.case()


def broken(src, ev):
    """Escapes that are not text are kept apart from everything else."""
    from verktyg.urls import uri_to_iri
    def bad():
        out = ''
        for _ in range(src.int(0, 3)):
            out += src.choice(('a', '%FF', '%c3', '%80', '%ED%A0%80', '%2F',
                               '%C3%A4', '%26', '%f0%9f%98', '%25', '%00'))
        return out
    path = ['x' + bad() for _ in range(src.int(1, 3))]
    pairs = [(bad(), bad()) for _ in range(src.int(1, 3))]
    url = src.choice(('http://example.com', 'https://h:8080', '')) + '/' + \
        '/'.join(path) + '?' + '&'.join('%s=%s' % p for p in pairs) + \
        '#' + bad()
    ev.note(url=url)
    iri = uri_to_iri(url)
    got, want = parse(ev, iri), parse(ev, url)

    def text(v):
        if isinstance(v, list):
            return [text(x) for x in v]
        if isinstance(v, bytes):
            return v.decode('utf-8', 'replace')
        return v
    same(ev, text_of(got, text), text_of(want, text), 'broken', iri=iri)
    ev.hit('broken')
    if '\ufffd' in ''.join(text(want['path'])):
        ev.raises(ValueError, lambda: uri_to_iri(url, errors='strict'),
                  'strict-accepts')
        ev.hit('strict')
    ev.key('broken', url)
    ev.case()


def text_of(d, text):
    return {k: text(v) for k, v in d.items()}


def names(src, ev):
    from verktyg.urls import encode_idna, decode_idna, iri_to_uri, uri_to_iri
    for _ in range(src.int(1, 4)):
        shown, sent = src.choice(NAMES)
        labels = src.few(0, 2, 12)
        for _ in range(labels):
            a, b = src.choice((('www', 'www'), ('\xe4', 'xn--4ca'), ('x', 'x'),
                               ('\u4e2d', 'xn--fiq'), ('7', '7')))
            shown, sent = a + '.' + shown, b + '.' + sent
        ev.note(name=shown)
        ev.eq(encode_idna(shown), sent.encode('ascii'), 'name-encoded')
        ev.eq(encode_idna(sent), sent.encode('ascii'), 'name-encoded')
        ev.eq(encode_idna(sent.encode('ascii')), sent.encode('ascii'),
              'name-encoded')
        ev.eq(decode_idna(sent), shown, 'name-decoded')
        ev.eq(decode_idna(sent.encode('ascii')), shown, 'name-decoded')
        ev.eq(decode_idna(shown), shown, 'name-decoded')
        ev.hit('name')
        ev.key('name', shown)
        ev.case()
    if src.bool(1, 3):
        bad = 'http://%s:%d/' % (shown, src.choice((65536, 99999, 2 ** 40)))
        ev.note(url=bad)
        ev.raises(ValueError, lambda: iri_to_uri(bad), 'port-accepted')
        ev.raises(ValueError, lambda: uri_to_iri(bad), 'port-accepted')
        ev.hit('port-refused')


def location(src, ev):
    """Through a response and a request, which is where it matters."""
    from verktyg.responses import Response
    from verktyg.wsgi import get_current_url
    url = url_of(src)
    if parse(ev, url)['host'] is None:
        return
    want = parse(ev, url)
    ev.note(url=url)
    # no script root: an absolute location is not joined with anything
    environ = {'wsgi.url_scheme': 'http', 'HTTP_HOST': 'here.example',
               'SERVER_NAME': 'x', 'SERVER_PORT': '80', 'SCRIPT_NAME': '',
               'PATH_INFO': '/', 'REQUEST_METHOD': 'GET'}
    r = Response(b'', status=302, headers=[('Location', url)])
    r.autocorrect_location_header = src.bool(1, 8)
    if r.autocorrect_location_header and (
        any(s in (b'.', b'..') for s in want['path']) or
        want['scheme'] not in ('http', 'https', 'ftp')
    ):
        return
    got = r.get_wsgi_headers(environ)['Location']
    is_uri(ev, got, 'location-not-a-uri')
    same(ev, parse(ev, got), want, 'location', location=got)
    ev.eq(r.headers['Location'], url, 'response-changed')
    ev.hit('location')
    ev.key('location', url)
    ev.case()


SCENARIOS = [
    Scenario('convert', convert, 2500),
    Scenario('fix', fix, 4000),
    Scenario('broken', broken, 1500),
    Scenario('names', names, 1000),
    Scenario('location', location, 2500),
]
