"""Cookies survive the round trip to the client and back."""
import time
import datetime
import collections
import urllib.parse

from vf.engine import Scenario
from vf.server import serve
from vf import gen, rfc

RULE = ('Set-Cookie headers of responses are read by an independent user '
        'agent and sent back; the values the next request reports are '
        'compared with those set; attributes are compared with what was '
        'given; histories of set and delete over hosts, paths and time are '
        'driven through the test client and compared with the user agent; '
        'distinct = hash of cookies or history')
ASSUMPTIONS = ['names are tokens other than cookie attribute names',
               'values are text that the charset can encode']
REQUIRED = {'foreign-quoted': 300, 'same-name': 100, 'round-trip': 2000, 'cookie': 5000, 'escaped': 1500,
            'charset': 200, 'attributes': 1500, 'expires': 500,
            'max-age': 500, 'synced': 200, 'unsynced': 50, 'domain': 400,
            'domain-refused': 100, 'path': 400, 'no-path': 100,
            'deleted': 300, 'foreign': 500, 'client-request': 1500,
            'client-sent': 1500, 'client-withheld': 300,
            'client-expired': 50, 'client-deleted': 200, 'swept': 2000,
            'overwritten': 100}
RESERVED = {'expires', 'path', 'comment', 'max-age', 'secure', 'httponly',
            'version'}


def name(src):
    if src.bool(1, 30):
        # attributes that no client ever sent back
        n = src.choice(('domain', 'samesite', 'port', 'discard', 'Domain'))
    elif src.bool():
        n = src.choice(('a', 'b', 'session', 'A', 'id', '__Host-x', '$x',
                        'a.b', 'x-y', '%41', '#'))
    else:
        n = gen.token(src, 6, 40)
    return 'n' + n if n.lower() in RESERVED else n


def value(src, charset='utf-8'):
    k = src.draw(8)
    if k == 7:
        v = ''.join(chr(src.draw(256)) for _ in range(src.size(6, 60)))
    elif k == 6:
        v = src.choice(('\\054', '\\', '\\\\', '"', '""', '"a"', '\\"', '"\\',
                        '\\0', '\\400', '\\377', 'a\\073b', ';', ',', '=',
                        'a=b; c=d', '\n', '\r\n', 'x\r\nSet-Cookie: y=z',
                        ' ', ' a', 'a ', '\t', '\x00', '\x7f', "'", '%3B',
                        '\\"\\054', '\\\\"', 'Path=/', '; Path=/'))
    elif k == 5:
        v = gen.text(src, hi=400)
        if src.bool(1, 6):
            v = gen.text(src, lo=1) * src.choice((100, 1000, 3000))
    else:
        v = gen.text(src)
    return v.encode(charset, 'ignore').decode(charset)


class UserAgent(object):
    """RFC 6265, section 5."""

    def __init__(self):
        self.jar = {}

    def parse(self, header):
        first, *attrs = header.split(';')
        n, eq, v = first.partition('=')
        if not eq:
            return None
        out = []
        for a in attrs:
            k, eq, w = a.partition('=')
            out.append((k.strip(' \t').lower(),
                        w.strip(' \t') if eq else None))
        return n.strip(' \t'), v.strip(' \t'), out

    def store(self, header, host, path, now, expiry=None):
        """expiry: what the program asked for."""
        n, v, attrs = self.parse(header)
        d = dict(attrs)
        domain = (d.get('domain') or '').lstrip('.').lower()
        only = not domain
        domain = domain or host
        if not self.domain_match(host, domain, only):
            return
        p = d.get('path')
        if not p or p[0] != '/':
            p = path.rpartition('/')[0] or '/'
        # (clients differ in whether a cookie without domain replaces one
        # with the same domain; here it does not)
        key = (n, domain, p, only)
        self.jar.pop(key, None)
        if expiry is not None and expiry <= now:
            return
        self.jar[key] = (v, only, 'secure' in d, expiry)

    @staticmethod
    def domain_match(host, domain, only):
        return host == domain or not only and host.endswith('.' + domain)

    def matching(self, host, path, secure, now, lax=False):
        """lax: as Netscape clients, which send cookies without domain to
        the subdomains, too."""
        out = []
        for (n, domain, p, _), (v, only, sec, exp) in self.jar.items():
            if exp is not None and exp <= now:
                continue
            if not self.domain_match(host, domain, only and not lax):
                continue
            if not (path == p or path.startswith(p) and
                    (p.endswith('/') or path[len(p)] == '/')):
                continue
            if sec and not secure:
                continue
            out.append((len(p), n, v))
        out.sort(key=lambda x: -x[0])
        return [(n, v) for _, n, v in out]


SAFE = set(chr(c) for c in range(32, 127)) - set(';')


def check_text(ev, header):
    """A header a client can read: printable ASCII only."""
    bad = [c for c in header if ord(c) < 32 or ord(c) > 126]
    ev.ok(not bad, 'set-cookie-text', header=header)


def round_trip(src, ev):
    from verktyg.requests import Request
    from verktyg.responses import Response
    Rq, Rs = Request, Response
    model = {}
    for _ in range(src.int(1, 5) if src.draw(20) else src.int(1, 140)):
        n = name(src)
        if n in model:
            ev.hit('overwritten')
            continue
        model[n] = value(src)
    ev.note(cookies=model)
    seen = []

    def app(env, start_response):
        rq = Rq(env)
        seen.append(rq.cookies)
        rs = Rs('x')
        if rq.path == '/set':
            for n, v in model.items():
                rs.set_cookie(n, v)
        return rs(env, start_response)
    res = serve(app, gen.environ('/set'), ev)
    hs = res.get('Set-Cookie')
    ev.eq(len(hs), len(model), 'set-cookie-count', headers=hs)
    ua = UserAgent()
    for h, (n, v) in zip(hs, model.items()):
        check_text(ev, h)
        got = ua.parse(h)
        ev.eq(got[0], n, 'cookie-name', header=h)
        ev.eq(got[2], [('path', '/')], 'cookie-attributes', header=h)
        ev.ok(not any(c in ';,' for c in got[1]), 'separator-in-value',
              header=h)
        if '\\' in got[1]:
            ev.hit('escaped')
        ua.store(h, 'localhost', '/set', 0)
        ev.hit('cookie')
    pairs = src.shuffle(ua.matching('localhost', '/get', False, 0))
    text = src.choice(('; ', '; ', ';', '; \t')).join(
        '%s=%s' % p for p in pairs)
    serve(app, gen.environ('/get', headers=[('Cookie', text)]), ev)
    ev.eq(dict(seen[-1]), model, 'cookies-read-back', header=text)
    ev.hit('round-trip')
    ev.key(sorted(model.items()))
    ev.case()


def foreign(src, ev):
    """Cookies of other programs: plain values, any white space."""
    from verktyg.datastructures import OrderedMultiDict
    from verktyg.http import parse_cookie
    from verktyg.requests import Request
    model, parts = {}, []
    legal = "!#$%&'()*+-./:<=>?@[]^_`{|}~" + gen.ASCII
    for _ in range(src.few(1, 6, 120)):
        n = name(src)
        v = gen.text(src, legal, 8, 60)
        if n in model:
            continue
        if src.bool(1, 6):
            # quoted, as they are by http.cookies for one
            v = gen.text(src, legal.replace('"', '') + ' ,;', 6, 60, 0) \
                if src.bool(2, 3) else ''
            model[n] = v
            parts.append(n + '="' + v + '"')
            ev.hit('foreign-quoted')
            continue
        model[n] = v
        parts.append(n + '=' + v)
    text = src.choice(('; ', ';', ';  ')).join(parts)
    if src.draw(6) == 5:
        text += src.choice((';', '; '))
    ev.note(header=text)
    ev.eq(dict(parse_cookie(text)), model, 'foreign-cookies')
    env = gen.environ(headers=[('Cookie', text)])
    ev.eq(dict(parse_cookie(env)), model, 'foreign-cookies-environ')
    ev.eq(dict(Request(env).cookies), model, 'foreign-cookies-request')
    ev.eq(dict(parse_cookie(None)), {}, 'no-cookies')
    if model and src.bool(1, 3):
        # one of them was set for more than one path
        n = src.choice(list(model))
        v = gen.text(src, legal, 8, 60)
        got = parse_cookie(text.rstrip('; ') + '; ' + n + '=' + v,
                           cls=OrderedMultiDict)
        ev.eq(list(got.items(multi=True)), list(model.items()) + [(n, v)],
              'foreign-cookies-of-one-name')
        ev.hit('same-name')
    ev.eq(dict(Request(gen.environ()).cookies), {}, 'no-cookies')
    ev.hit('foreign')
    ev.key(text)
    ev.case()


def charsets(src, ev):
    from verktyg.http import dump_cookie, parse_cookie
    cs = src.choice(('latin-1', 'koi8-r', 'cp1252', 'utf-8', 'ascii'))
    model = {name(src): value(src, cs) for _ in range(src.few(1, 4, 80))}
    text = '; '.join(dump_cookie(n, v, path=None, charset=cs)
                     for n, v in model.items())
    ev.note(cookies=model, charset=cs, header=text)
    check_text(ev, text)
    ev.eq(dict(parse_cookie(text, charset=cs)), model, 'cookies-charset')
    ev.hit('charset')
    ev.key(cs, text)
    ev.case()


def path_text(src):
    k = src.draw(4)
    if k == 0:
        return '/'
    s = '/' + gen.text(src, gen.ASCII + '/-_.~' + 'äö€ ' + ';?#,="', 8, 60)
    return '/' + s.lstrip('/')


def attributes(src, ev):
    from verktyg.http import dump_cookie
    from verktyg.responses import Response
    n, v = name(src), value(src)
    kw, want = {}, {}
    k = src.draw(5)
    now = time.time()
    if k == 1:
        t = rfc.random_instant(src)
        kind = src.draw(4)
        kw['expires'] = (rfc.naive(t), t, float(t), time.gmtime(t))[kind]
        want['expires'] = rfc.cookie(t)
        ev.hit('expires')
    elif k == 2:
        t = rfc.random_instant(src)
        kw['expires'] = rfc.imf(t)
        want['expires'] = rfc.imf(t)
        ev.hit('expires')
    age = None
    if src.bool():
        age = gen.num(src, 1 << 30)
        kw['max_age'] = age
        if src.draw(3) == 2:
            if src.bool(1, 3):
                # long gone
                age = -age
            kw['max_age'] = datetime.timedelta(seconds=age)
            if src.bool():
                kw['max_age'] += datetime.timedelta(microseconds=7)
        want['max-age'] = str(age)
        ev.hit('max-age')
    direct = src.bool()
    sync = True
    if direct and src.draw(4) == 3:
        kw['sync_expires'] = sync = False
    dom = None
    if src.bool():
        dom = src.choice(('.example.com', 'example.com', 'www.example.com',
                          'a.b', 'example.com:8080', '127.0.0.1',
                          'b\xfccher.de', '.\u0434.example'))
        kw['domain'] = dom
        want['domain'] = '.'.join(
            p.encode('idna').decode('ascii') if p else ''
            for p in dom.split(':')[0].split('.'))
        ev.hit('domain')
    path = '/'
    if src.bool():
        if src.draw(5) == 4:
            path = kw['path'] = None
            ev.hit('no-path')
        else:
            path = kw['path'] = path_text(src)
        ev.hit('path')
    for f in ('secure', 'httponly'):
        if src.bool():
            kw[f] = src.bool(3, 4)
            if kw[f]:
                want[f] = None
    ev.note(name=n, value=v, arguments=kw)
    if direct:
        h = dump_cookie(n, v, **kw)
    else:
        r = Response()
        r.headers.add('Set-Cookie', 'old=1')
        r.set_cookie(n, v, **kw)
        hs = r.headers.getlist('Set-Cookie')
        ev.eq(len(hs), 2, 'set-cookie-count')
        ev.eq(hs[0], 'old=1', 'other-cookie-changed')
        h = hs[1]
    after = time.time()
    check_text(ev, h)
    gn, gv, attrs = UserAgent().parse(h)
    ev.eq(gn, n, 'cookie-name', header=h)
    got = dict(attrs)
    ev.eq(len(got), len(attrs), 'attribute-repeated', header=h)
    gp = got.pop('path', None)
    if path is None:
        ev.eq(gp, None, 'path-added', header=h)
    else:
        ev.ok(gp is not None, 'path-missing', header=h)
        # (a path in a URL ends at the first ? or #)
        if '?' in path or '#' in path:
            ev.ok(urllib.parse.unquote(gp).startswith(
                path.partition('?')[0].partition('#')[0]), 'path', header=h)
            ev.hit('path-and-more')
        else:
            ev.eq(urllib.parse.unquote(gp), path, 'path', header=h)
    if age is not None and 'expires' not in want:
        if sync:
            e = got.pop('expires', None)
            ev.ok(e is not None, 'expires-not-synced', header=h)
            lo, hi = int(now + age), int(after + age) + 1
            ev.ok(e in [rfc.cookie(t) for t in range(lo, hi + 1)],
                  'expires-synced', header=h, now=now)
            ev.hit('synced')
        else:
            ev.hit('unsynced')
    ev.eq(got, want, 'attributes', header=h)
    ev.hit('attributes')
    bad = src.choice(('localhost', 'com', 'localhost:80', 'a'))
    ev.raises(ValueError, lambda: dump_cookie(n, v, domain=bad),
              'local-domain-accepted', domain=bad)
    ev.hit('domain-refused')
    # deleting
    r = Response()
    dk = {k: kw[k] for k in ('path', 'domain') if k in kw}
    r.delete_cookie(n, **dk)
    hs = r.headers.getlist('Set-Cookie')
    ev.eq(len(hs), 1, 'delete-count')
    gn2, gv2, attrs2 = UserAgent().parse(hs[0])
    d2 = dict(attrs2)
    ev.eq(gn2, n, 'delete-name', header=hs[0])
    ev.eq(d2.get('path'), gp, 'delete-path', header=hs[0])
    ev.eq(d2.get('domain'), want.get('domain'), 'delete-domain',
          header=hs[0])
    ev.eq(d2.get('max-age'), '0', 'delete-max-age', header=hs[0])
    ev.eq(d2.get('expires'), rfc.cookie(0), 'delete-expires', header=hs[0])
    ev.hit('deleted')
    ev.key(n, v, repr(kw))
    ev.case()


HOSTS = ('localhost', 'example.com', 'www.example.com', 'a.www.example.com',
         'other.org', 'notexample.com')
PATHS = ('/', '/foo', '/foo/', '/foo/bar', '/foobar', '/foo/bar/baz', '/x')


def client(src, ev):
    """The test client against the user agent, over time."""
    from verktyg.test import Client
    from verktyg.requests import Request
    from verktyg.responses import Response
    real = time.time
    clock = [1500000000 + src.draw(1000000)]
    ua = UserAgent()
    todo, seen = [], []

    def app(env, start_response):
        rq = Request(env)
        seen.append((dict(rq.cookies), env.get('HTTP_COOKIE')))
        rs = Response('x')
        for op, n, v, kw in todo:
            if op == 'set':
                rs.set_cookie(n, v, **kw)
            else:
                rs.delete_cookie(n, **kw)
        return rs(env, start_response)
    c = Client(app)
    log = []
    ev.note(log=log)
    time.time = lambda: clock[0]
    try:
        for _ in range(src.few(2, 10, 40)):
            del todo[:]
            host = src.choice(HOSTS)
            path = src.choice(PATHS)
            secure = src.bool(1, 4)
            clock[0] += src.choice((0, 1, 50, 1000))
            by_hand = src.draw(5) == 4
            expiries = []
            for _ in range(src.size(2)):
                n = src.choice(('a', 'b', 'c', name(src)))
                if any(t[1] == n for t in todo):
                    continue
                kw = {}
                if src.bool():
                    kw['path'] = src.choice(PATHS)
                if host != 'localhost' and src.bool(1, 3):
                    kw['domain'] = src.choice([
                        d for d in ('.example.com', 'example.com',
                                    'www.example.com', host)
                        if ua.domain_match(host, d.lstrip('.'), False)])
                if src.bool(3, 4) or by_hand:
                    exp = None
                    if src.bool(1, 3):
                        exp = clock[0] + src.choice((-10, 0, 1, 40, 10000))
                        kw['expires'] = exp
                    if src.bool(1, 4) and not by_hand:
                        kw['secure'] = True
                    todo.append(('set', n, value(src), kw))
                else:
                    exp = 0
                    todo.append(('delete', n, '', kw))
                    ev.hit('client-deleted')
                expiries.append(exp)
            log.append((clock[0], host, path, secure, list(todo), by_hand))
            if by_hand:
                # put in the jar by the test itself
                for (op, n, v, kw), exp in zip(todo, expiries):
                    kw.setdefault('path', '/')
                    c.set_cookie(host, n, v, **kw)
                    from verktyg.http import dump_cookie
                    ua.store(dump_cookie(n, v, **kw), host, kw['path'],
                             clock[0], exp)
                continue
            want = ua.matching(host, path, secure, clock[0])
            base = ('https' if secure else 'http') + '://' + host
            it, status, headers = c.get(path, base)
            it = list(it)
            got, raw = seen[-1]
            may = ua.matching(host, path, secure, clock[0], True)
            if want:
                ev.ok(raw is not None, 'cookies-not-sent', expected=want)
                sent = [p.partition('=')[::2] for p in raw.split('; ')]
                sent = collections.Counter(sent)
                ev.ok(not collections.Counter(want) - sent,
                      'cookies-not-sent', observed=sent, expected=want)
                ev.ok(not sent - collections.Counter(may),
                      'cookies-sent', observed=sent, expected=may)
                ev.hit('client-sent', len(want))
            elif not may:
                ev.eq(raw, None, 'cookies-sent')
            ev.hit('client-withheld', len(ua.jar) - len(want))
            if any(x[3] is not None and x[3] <= clock[0]
                   for x in ua.jar.values()):
                ev.hit('client-expired')
            for h, exp in zip(headers.getlist('Set-Cookie'), expiries):
                ua.store(h, host, path, clock[0], exp)
            ev.hit('client-request')
    finally:
        time.time = real
    # without cookies nothing is kept
    c = Client(app, use_cookies=False)
    todo[:] = [('set', 'a', 'b', {})]
    for _ in range(2):
        c.get('/')
        ev.eq(seen[-1], ({}, None), 'cookies-without-jar')
    ev.key(repr(log))
    ev.case()


SCENARIOS = [
    Scenario('round-trip', round_trip, 3000),
    Scenario('foreign', foreign, 1000),
    Scenario('charsets', charsets, 500),
    Scenario('attributes', attributes, 3000),
    Scenario('client', client, 700),
]


def sweep(ev):
    """Every character in every position of short values, and all two
    character combinations of special ones."""
    from verktyg.http import dump_cookie, parse_cookie
    chars = [chr(i) for i in range(256)] + list(gen.UNI)
    vs = []
    for c in chars:
        vs += [c, 'a' + c, c + 'a', 'a' + c + 'b', c + c, '\\' + c,
               '"' + c + '"']
    special = '\\",; =a012347\n\xe4'
    vs += [a + b + c for a in special for b in special for c in special]
    for v in vs:
        h = dump_cookie('k', v)
        check_text(ev, h)
        text = 'x=1; %s; y=2' % h.split(';')[0]
        ev.eq(dict(parse_cookie(text)), {'x': '1', 'k': v, 'y': '2'},
              'cookies-read-back', header=text)
        ev.key('sweep', v)
    ev.hit('swept', len(vs))
    ev.case(len(vs))


DIRECTED = [('every-character', sweep)]
