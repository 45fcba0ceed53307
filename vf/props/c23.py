"""Only trusted hosts pass the host check."""
from urllib.parse import urlsplit

from vf.engine import Scenario
from vf import gen

RULE = ('pairs of a trust list and a host derived from it (the same, near '
        'misses, disguises, garbage) are judged by an independent label-wise '
        'comparison, directly, through get_host and through every URL '
        'attribute of a request; accepted URLs are parsed again and must '
        'lead to a trusted host; distinct = hash of list, host and place')
ASSUMPTIONS = ['the case of ASCII host names is as in the trust list',
               'hosts without empty labels', 'trust list entries are valid '
               'names, addresses or suffixes, perhaps with a port']
REQUIRED = {'accepted': 800, 'refused': 1500, 'disguised': 600,
            'suffix-accepted': 150, 'suffix-near-miss': 150, 'port': 400,
            'idna': 150, 'ipv6': 150, 'forwarded': 400, 'server-name': 150, 'malformed-entry': 100,
            'request-attribute': 400, 'security-error': 400,
            'no-list': 200, 'empty-list': 40, 'url-checked': 300,
            'undecodable': 60, 'string-list': 60}

NAMES = ['example.org', 'localhost', 'a.b', 'www.example.org', 'example.com',
         '127.0.0.1', '[::1]', '[2001:db8::1]', 'x', 'test-host.net',
         '\xe4\xf6\xfc.de', 'b\xfccher.example', '\u4e2d\u6587.cn',
         'xn--n3h.net', '10.0.0.10', 'my_host', '[::ffff:1.2.3.4]']


def trusted_entry(src):
    k = src.draw(6)
    n = src.choice(NAMES) if src.bool(5, 6) else gen.text(
        src, 'abc-09', 6, 40, lo=1).strip('-') + '.t'
    if k < 3 or n.startswith('['):
        pass
    elif k < 5:
        n = '.' + n
    else:
        n = n + ':' + src.choice(('80', '8080', '443'))
    return n


MALFORMED = ('', 'bad host', 'a:b:c', 'foo/bar', '[::1', '\xe4' * 70, 'a@b',
             'http://example.org', ' ', '\x00', '*')


def trust_list(src, ev, n):
    out = [trusted_entry(src) for _ in range(n)]
    if out and src.bool(1, 6):
        # an entry that is no host name does not matter for the others
        out.insert(src.draw(len(out)), src.choice(MALFORMED))
        ev.hit('malformed-entry')
    return out


def strip_port(h):
    """(host, ok).  A port is digits behind the last colon."""
    if h.startswith('['):
        i = h.find(']')
        if i < 0:
            return h, False
        rest = h[i + 1:]
        ok = rest == '' or rest[0] == ':' and all(
            c in '0123456789' for c in rest[1:])
        return h[:i + 1], ok
    if h.count(':') > 1:
        return h, False
    host, _, port = h.partition(':')
    return host, all(c in '0123456789' for c in port)


def labels(h):
    """Labels in comparable form, None if they can not be encoded."""
    if h.startswith('['):
        return [h]
    out = []
    for l in h.split('.'):
        if l.isascii():
            out.append(l)
        else:
            try:
                out.append(l.encode('idna').decode('ascii'))
            except UnicodeError:
                return None
    return out


BAD = set('/?#@\\[] \t\r\n\x00')


def verdict(host, trust):
    """True, False, or None (unspecified)."""
    if not host:
        return False
    h, ok = strip_port(host)
    if not ok or not h:
        return False
    inner = h[1:-1] if h.startswith('[') else h
    if any(c in BAD or ord(c) < 33 or ord(c) == 127 for c in inner):
        return False
    ls = labels(h)
    if ls is None:
        return False
    weak = False
    for t in trust:
        suffix = t.startswith('.')
        th, ok = strip_port(t[1:] if suffix else t)
        tl = labels(th) if ok and th else None
        if tl is None:
            continue
        if ls == tl:
            return True
        if suffix and not h.startswith('[') and len(ls) > len(tl) and \
                ls[-len(tl):] == tl:
            if '' in ls:
                weak = True
            else:
                return True
        # the same but for case: not specified
        if [x.lower() for x in ls[-len(tl):]] == [x.lower() for x in tl] \
                and (suffix or len(ls) == len(tl)):
            weak = True
    return None if weak else False


def candidate(src, trust):
    """(kind, host)"""
    if not trust or src.bool(1, 12):
        return 'other', src.choice(NAMES + ['evil.com', '', 'evil'])
    t = src.choice(trust)
    dot = t.startswith('.')
    base = strip_port(t.lstrip('.'))[0]
    k = src.draw(12)
    if k < 3:
        h = base
        if dot and src.bool(2, 3):
            h = src.choice(('a', 'www', 'a.b.c', 'x-y', '\xe4', 'evil.com',
                            'xn--n3h')) + '.' + base
        if src.bool(1, 3):
            h += ':' + src.choice(('80', '443', '8080', '1', '65535', ''))
            return 'port', h
        return 'plain', h
    if k == 3:
        return 'near', src.choice((
            'evil' + base, 'evil-' + base, base + 'x', base + '.evil.com',
            base[1:], base[:-1], 'x.' + base, base + '.', base.replace(
                '.', '-'), base.replace('.', ''), base + base, 'www' + base,
            base + '-evil.com', '.' + base, base.replace('.', 'x', 1)))
    if k == 4:
        evil = src.choice(('evil.com', 'e', '1.2.3.4', '[::2]'))
        return 'disguise', src.choice((
            base + ':80@' + evil, base + '@' + evil, base + ':x@' + evil,
            base + ':@' + evil, base + ':' + evil, evil + ':80:' + base,
            evil + '@' + base, evil + '/' + base, evil + '/.' + base,
            evil + '#.' + base, evil + '?.' + base, evil + '\\.' + base,
            evil + ' .' + base, evil + '\t.' + base, evil + '/..' + base,
            evil + ',' + base, base + '/' + evil, base + '#', base + '?',
            base + '\\' + evil, base + ' ' + evil, ' ' + base, base + ' ',
            base + ':80/', base + ':80#@' + evil, base + ':80\x00',
            evil + '\x00' + base, evil + '\x00.' + base, base + ':80 ',
            base + ':-1', base + ':8a', base + ':0x50', base + '::80',
            base + ':80:80', '[' + base + ']', '[' + base, base + ']',
            '[::1].' + base, '[' + evil + '].' + base, base + '%00',
            base + ':' + '\u0661', base + ':\xb2', evil + '/x.' + base,
            'http://' + base, '//' + base, evil + ':80/.' + base,
            'a@' + evil + '/.' + base))
    if k == 5:
        return 'ipv6', src.choice((
            '[::1]', '[::2]', '::1', '::2', '[::1', '::1]', '[::1]:80',
            '[::1]:', '[::1]x', '[::1]:80:90', '[2001:db8::2]', '[::1]@evil',
            '[2001:db8::1]:443', '[2001:db8::1].evil.com', '[]', '[',
            '[::ffff:1.2.3.4]', '2001:db8::1', '[::1]:evil.com'))
    if k == 6:
        return 'other', src.choice(NAMES)
    if k == 7:
        return 'undecodable', src.choice((
            '\xe4' * 70 + '.' + base, 'a\u2024b.' + base, '\xe4' * 64,
            '\u0378.' + base, '\xad.' + base, '\xe4-\u05d0a.' + base,
            'xn--\xe4.' + base, '\ud800.' + base))
    if k == 8:
        return 'case', base.upper()
    if k == 9:
        return 'idna', src.choice((
            'xn--4ca0bs.de', 'xn--bcher-kva.example', 'xn--fiq228c.cn',
            '\u2603.net', 'xn--n3h.net', '\xe4\xf6\xfc.de',
            'b\xfccher.example', '\xfc.de', 'xn--4ca0bs.example',
            'www.\xe4\xf6\xfc.de', 'www.xn--4ca0bs.de'))
    if k == 10:
        return 'garbage', gen.latin1(src, 60)
    return 'long', 'a.' * src.choice((10, 100, gen.num(src, 2000))) + base


def judge(ev, fn, host, trust, place):
    want = verdict(host, trust)
    got = fn()
    ev.ok(got is True or got is False, 'not-a-decision', got=got)
    if want is not None:
        ev.eq(got, want, 'wrong-decision', host=host, trusted=trust,
              place=place)
    return got


def direct(src, ev):
    from verktyg.wsgi import host_is_trusted
    trust = trust_list(src, ev, src.size(3, 30))
    kind, host = candidate(src, trust)
    arg = trust
    if len(trust) == 1 and src.bool():
        arg = trust[0]
        ev.hit('string-list')
    elif src.bool(1, 4):
        arg = tuple(trust)
    ev.note(host=host, trusted=arg, kind=kind)
    if not trust:
        ev.hit('empty-list')
    got = judge(ev, lambda: host_is_trusted(host, arg), host, trust,
                'host_is_trusted')
    count(ev, kind, host, trust, got)
    ev.key(kind, host, trust)
    ev.case()
    if arg is trust and src.bool(1, 2):
        # the decision follows the list, not what was decided before
        if trust and src.bool():
            trust.pop(src.draw(len(trust)))
        else:
            trust.append(trusted_entry(src)
                         if src.bool() or kind not in ('plain', 'port') else strip_port(host)[0])
        judge(ev, lambda: host_is_trusted(host, arg), host, trust,
              'host_is_trusted-changed-list')
        ev.hit('list-changed')


def count(ev, kind, host, trust, got):
    ev.hit('accepted' if got else 'refused')
    if kind in ('disguise', 'near'):
        ev.hit('disguised')
    if any(t.startswith('.') for t in trust):
        ev.hit('suffix-accepted' if got else 'suffix-near-miss')
    if kind == 'port':
        ev.hit('port')
    if kind == 'idna':
        ev.hit('idna')
    if kind == 'ipv6':
        ev.hit('ipv6')
    if kind == 'undecodable':
        ev.hit('undecodable')


ATTRS = ('host', 'url', 'base_url', 'url_root', 'host_url')


def through_request(src, ev):
    import verktyg.exceptions as ex
    from verktyg.wsgi import get_host, get_current_url
    from verktyg.requests import Request, BaseRequest
    trust = trust_list(src, ev, src.int(0, 3))
    kind, host = candidate(src, trust)
    try:
        host.encode('latin1')
    except UnicodeError:
        host, kind = 'example.org', 'plain'
    scheme = src.choice(('http', 'https'))
    port = src.choice(('80', '443', '8080'))
    env = gen.environ('/p', 'q=1', scheme=scheme)
    env['SERVER_PORT'] = port
    where = src.draw(4)
    if where == 0:
        env['HTTP_X_FORWARDED_HOST'] = host
        if src.bool() and ',' not in host:
            env['HTTP_X_FORWARDED_HOST'] = host + src.choice(
                (', proxy.example', ',' + (trust[0] if trust else 'x'),
                 ' , evil.com'))
        # the other places must not matter
        env['HTTP_HOST'] = src.choice(('example.org', 'evil.com'))
        host = host.split(',')[0].strip()
        ev.hit('forwarded')
    elif where == 1 and host and ':' not in host:
        del env['HTTP_HOST']
        env['SERVER_NAME'] = host
        if (scheme, port) not in (('http', '80'), ('https', '443')):
            host = host + ':' + port
        ev.hit('server-name')
    else:
        env['HTTP_HOST'] = host
        env['SERVER_NAME'] = src.choice(('example.org', 'localhost'))
    ev.note(host=host, trusted=trust, kind=kind, environ={
        k: v for k, v in env.items() if 'HOST' in k or 'SERVER' in k})
    ev.eq(get_host(env), host, 'host-without-list')
    ev.hit('no-list')

    def decide(fn, place):
        try:
            value[:] = [fn()]
            return True
        except ex.SecurityError as e:
            ev.eq(e.code, 400, 'security-error-code')
            ev.hit('security-error')
            return False
    value = []
    got = judge(ev, lambda: decide(
        lambda: get_host(env, trust), 'get_host'), host, trust, 'get_host')
    if got:
        ev.eq(value[0], host, 'host-returned')
    cls = src.choice((Request, BaseRequest))
    if src.bool():
        # other code has looked at the same request without a list, or with
        # another one
        Other = type('Other', (cls,), {'trusted_hosts': src.choice(
            (None, None, ['example.org'], [trusted_entry(src)]))})
        first = Other(env)
        for a in src.shuffle(ATTRS)[:src.int(1, 3)]:
            try:
                getattr(first, a)
            except (ex.SecurityError, ValueError):
                pass
        ev.hit('asked-before')
    Trusting = type('Trusting', (cls,), {'trusted_hosts': trust})
    attr = src.choice(ATTRS)
    req = Trusting(env)
    usable = verdict(host, [host]) is True
    if not got or usable:
        ev.eq(judge(ev, lambda: decide(lambda: getattr(req, attr), attr),
                    host, trust, 'request.' + attr), got, 'inconsistent',
              attribute=attr)
        ev.hit('request-attribute')
        if got and attr != 'host':
            # what the URL means to anybody who parses it
            parts = urlsplit(value[0])
            ev.eq(parts.scheme, scheme, 'url-scheme', url=value[0])
            h = parts.hostname or ''
            if ':' in h:
                h = '[%s]' % h
            ev.ok(verdict(h, trust) is not False or
                  verdict(h, [t.lower() for t in trust]) is not False,
                  'url-leads-elsewhere', url=value[0], hostname=h)
            ev.hit('url-checked')
        judge(ev, lambda: decide(lambda: get_current_url(
            env, trusted_hosts=trust), 'u'), host, trust, 'get_current_url')
    count(ev, kind, host, trust, got)
    ev.key(kind, host, trust, where, attr, scheme, port)
    ev.case()


def default_class(ev):
    """Without a list every host is accepted."""
    from verktyg.requests import Request
    for h in ('example.org', 'evil.com:99', '127.0.0.1'):
        ev.eq(Request(gen.environ('/', host=h)).host, h, 'default')


DIRECTED = [('default', default_class)]
SCENARIOS = [
    Scenario('direct', direct, 2500),
    Scenario('through_request', through_request, 1500),
]
