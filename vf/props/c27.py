"""File names and redirect pages are safe."""
import os
import sys
import ntpath
import posixpath
import importlib.util
from html.parser import HTMLParser
from urllib.parse import urlsplit, unquote, urljoin

from vf.engine import Scenario, CODE
from vf import gen
from vf.server import serve
from vf.props.c24 import parts_of

RULE = ('hostile file names go through secure_filename as on POSIX and, in '
        'a second copy of the module, as on Windows, and every result is '
        'judged by a character and device name automaton; redirects to '
        'generated locations are served, their body is read by html.parser '
        'and their Location by urllib; distinct = hash of name or location')
ASSUMPTIONS = ['locations have well formed hosts and valid percent escapes',
               'file names are text']
REQUIRED = {'name': 6000, 'unchanged': 800, 'stable': 4000, 'empty': 100,
            'windows': 2000, 'device': 300, 'traversal': 300,
            'unicode-name': 800, 'joined': 3000, 'page': 2500,
            'markup': 400, 'location': 2500, 'slash': 1000,
            'slash-hostile': 200, 'swept': 3000, 'handler-page': 200,
            'served': 2500, 'slash-query': 200}

OK = set(gen.ASCII + '._-')
DEVICES = ({'CON', 'PRN', 'AUX', 'NUL'} |
           {'COM%d' % i for i in range(1, 10)} |
           {'LPT%d' % i for i in range(1, 10)})
PIECES = ['..', '.', '/', '\\', '//', '../', '..\\', ' ', '\t', '\n', '\x00',
          'etc', 'passwd', 'a', 'B', '0', '_', '-', '~', ':', 'C:', '%2e',
          '%2F', '\u2024', '\uff0e', '\u2215', '\uff0f', '\u2044', '\uff3c',
          '\xe4', '\xdf', '\ufb01', '\u2026', '\u00a0', '\u2028', '\x85',
          '\U0001f600', '.txt', '.tar.gz', 'CON', 'nul', 'com1', 'LPT9',
          'aux.h', '*', '?', '"', '<', '>', '|', ';', '&', '$', '`', "'",
          '\u2025', '\u2100', '\u2e3a', '\ud800', '__', '--', '\u202e',
          '\u217d', '\uff23', '\u24d2', '\x1c', '\u00b9']


def name(src):
    k = src.draw(6)
    if k == 0:
        return gen.text(src)
    if k == 1:
        return gen.lit(src)
    if k == 2:
        d = src.choice(sorted(DEVICES))
        d = src.choice((d, d.lower(), d.title()))
        return src.choice(('', '.', '_', ' ', '/', '..', '\\')) + d + \
            src.choice(('', '.txt', '.', ' ', '.a.b', '_', 'x', ':', ' .h',
                        '\xe4', '\u2026'))
    return ''.join(src.choice(PIECES) for _ in range(src.size(4, 30)))


def judge(ev, n, fn):
    out = fn(n)
    ev.note(name=n)
    ev.ok(type(out) is str, 'not-text', out=out)
    ev.ok(set(out) <= OK, 'characters', out=out)
    ev.ok(not out.startswith('.'), 'leading-dot', out=out)
    ev.ok(out not in ('.', '..'), 'dot-name', out=out)
    ev.eq(fn(out), out, 'not-stable', out=out)
    ev.hit('stable')
    if not out:
        ev.hit('empty')
    else:
        j = posixpath.normpath(posixpath.join('/base', out))
        ev.eq(j, '/base/' + out, 'escapes')
        j = ntpath.normpath(ntpath.join('C:\\base', out))
        ev.eq(j, 'C:\\base\\' + out, 'escapes')
        ev.hit('joined')
    ev.hit('name')
    if '/' in n or '\\' in n:
        ev.hit('traversal')
    if not n.isascii():
        ev.hit('unicode-name')
    return out


def secure(src, ev):
    from verktyg.utils import secure_filename
    n = name(src)
    out = judge(ev, n, secure_filename)
    # the letters and digits of the name survive, in order
    if n.isascii():
        ev.eq([c for c in out if c.isalnum()],
              [c for c in n if c.isalnum()], 'letters-lost', out=out)
    s = gen.text(src, gen.ASCII + '._-', 8, 120, lo=1).strip('._')
    ev.note(name=s)
    if s:
        ev.eq(secure_filename(s), s, 'changed')
        ev.hit('unchanged')
    ev.key(n)
    ev.case()


_nt = []


class Windows(object):
    """What the module sees there."""

    def __enter__(self):
        self.old = os.name, sys.platform, os.path
        os.name, sys.platform = 'nt', 'win32'
        os.path = ntpath

    def __exit__(self, *exc):
        os.name, sys.platform, os.path = self.old


def windows_copy():
    """A second copy of verktyg.utils, imported as on Windows."""
    if not _nt:
        spec = importlib.util.spec_from_file_location(
            'vf_utils_nt', os.path.join(CODE, 'utils.py'))
        mod = importlib.util.module_from_spec(spec)
        code = spec.loader.get_code('vf_utils_nt')
        import unicodedata      # noqa: loaded before the change
        with Windows():
            exec(code, mod.__dict__)
        _nt.append(mod)
    return _nt[0]


def windows(src, ev):
    mod = windows_copy()

    def fn(n):
        with Windows():
            return mod.secure_filename(n)
    n = name(src)
    out = judge(ev, n, fn)
    stem = out.split('.')[0].upper()
    ev.ok(stem not in DEVICES, 'device-name', out=out)
    if any(d in n.upper() for d in DEVICES):
        ev.hit('device')
    ev.hit('windows')
    ev.key('nt', n)
    ev.case()


class Page(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.tags = []
        self.text = {}
        self.other = []

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, attrs))

    def handle_endtag(self, tag):
        pass

    def handle_comment(self, data):
        self.other.append(data)

    def handle_pi(self, data):
        self.other.append(data)

    def unknown_decl(self, data):
        self.other.append(data)

    def handle_data(self, data):
        if self.tags:
            t = self.tags[-1][0]
            self.text[t] = self.text.get(t, '') + data


MARKUP = ['<', '>', '"', "'", '&', '<script>', '</a>', '"><b>', '<!--',
          '&lt;', '&quot;', "' onclick=", '<?x', '" onmouseover="x',
          '&#60;', ']]>', '</title>']
CHARS = gen.ASCII + '-._~!$()*+,=:@ ' + '\xe4\u4e2d\U0001f600'


def location(src):
    out = src.choice(('http://example.org', 'https://example.org:8080',
                      'http://\xe4.example', '', '', '//example.org'))
    def part(extra=''):
        s = ''
        for _ in range(src.int(0, 4)):
            k = src.draw(4)
            if k == 0:
                s += src.choice(MARKUP).replace('?', '').replace('#', '') \
                    .replace('/', '')
            elif k == 1:
                s += '%%%02X' % src.choice((0x3c, 0x3e, 0x22, 0x27, 0x20,
                                            0x25, 0x41, 0x0a, 0x26))
            else:
                s += gen.text(src, CHARS + extra, 3)
        return s
    out += '/' + '/'.join(part() for _ in range(src.int(1, 3))).lstrip('/')
    if src.bool():
        out += '?' + '&'.join(part(';') for _ in range(src.int(1, 3)))
    if src.bool(1, 3):
        out += '#' + part(';')
    return out


def meaning(url):
    d = parts_of(url)
    d['path'] = [p for p in d['path']]
    return d


def look_at_page(ev, html, shown, target):
    p = Page()
    p.feed(html)
    p.close()
    tags = [t for t, _ in p.tags]
    ev.eq(tags, ['title', 'h1', 'p', 'a'], 'markup-in-page', html=html)
    ev.ok(not p.other, 'markup-in-page', other=p.other)
    attrs = p.tags[-1][1]
    ev.eq([k for k, _ in attrs], ['href'], 'attributes-in-page', html=html)
    ev.eq(p.tags[0][1] + p.tags[1][1] + p.tags[2][1], [],
          'attributes-in-page')
    ev.eq(attrs[0][1], target, 'href', html=html)
    text = p.text.get('a', '')
    ev.ok(text.startswith(shown), 'text-of-link', text=text, html=html)
    ev.hit('page')
    if set(shown) & set('<>"\'&'):
        ev.hit('markup')


def redirects(src, ev):
    from verktyg.utils import redirect
    from verktyg.responses import Response
    loc = location(src)
    code = src.choice((301, 302, 303, 305, 307))
    ev.note(location=loc, code=code)

    class Own(Response):
        pass
    k = src.draw(3)
    if k == 0:
        r = redirect(loc)
        code = 302
    elif k == 1:
        r = redirect(loc, code)
    else:
        r = redirect(loc, code, Response=Own)
        ev.ok(type(r) is Own, 'response-class', got=type(r))
    ev.eq(r.status_code, code, 'code')
    ev.eq(r.mimetype, 'text/html', 'mimetype')
    head = r.headers['Location']
    ev.ok(head.isascii() and not set(head) & set(' <>"\n\r\t'),
          'location-not-encoded', got=head)
    ev.eq(meaning(head), meaning(loc), 'location-changed', got=head)
    ev.hit('location')
    look_at_page(ev, r.get_data(as_text=True), loc, head)
    script = src.choice(('', '', '/app'))
    env = gen.environ('/x', script=script, host='site.example',
                      method=src.choice(('GET', 'POST', 'HEAD')))
    res = serve(r, env, ev)
    ev.eq(res.code, code, 'served-code')
    ev.eq(res.one('Location'),
          urljoin('http://site.example%s/' % script, head),
          'served-location')
    ev.hit('served')
    ev.key(loc, code)
    ev.case()


def slash(src, ev):
    from verktyg.utils import append_slash_redirect
    segs = []
    for _ in range(src.int(1, 3)):
        segs.append(src.choice((
            'a', 'b c', '\xe4', 'x' + src.choice(MARKUP).replace('/', ''),
            'http:', 'javascript:x', 'a?b', 'a#b', '%2F', '%41', 'a\\b',
            '@evil', 'evil.example', 'a:b', ';', 'a&b', '=',
            gen.text(src, CHARS, 4).replace('/', '') or 'z')))
    # dot segments vanish when urls are joined
    segs = [s if s not in ('.', '..') else 'z' for s in segs]
    p = src.choice(('/', '/', '/', '//', '///')) + '/'.join(segs)
    q = src.choice(('', '', 'a=b', 'a=%26&b=c', 'x=<b>', 'u=http://e/',
                    'flag', '1', '&', 'a&b', '%3D', '='))
    script = src.choice(('', '', '/app', '/a b'))
    code = src.choice((301, 302, 307))
    ev.note(path=p, query=q, script=script)
    env = gen.environ(p, q, script=script, host='site.example')
    r = append_slash_redirect(env, code) if src.bool(3, 4) else \
        append_slash_redirect(env)
    res = serve(r, env, ev)
    ev.ok(res.code in (code, 301), 'code', got=res.code)
    url = res.one('Location')
    ev.ok(url.isascii(), 'location-not-encoded', got=url)
    u = urlsplit(url)
    ev.eq((u.scheme, u.netloc), ('http', 'site.example'), 'leaves-site',
          url=url)
    ev.eq(unquote(u.path), script + '/' + p.strip('/') + '/', 'slash-path',
          url=url)
    ev.eq(unquote(u.query), unquote(q), 'slash-query', url=url)
    ev.eq(u.fragment, '', 'slash-fragment', url=url)
    ev.hit('slash')
    if q:
        ev.hit('slash-query')
    if p.startswith('//') or set(p) & set(':@\\?#'):
        ev.hit('slash-hostile')
    p2 = Page()
    p2.feed(res.body.decode())
    p2.close()
    ev.eq([t for t, _ in p2.tags], ['title', 'h1', 'p', 'a'],
          'markup-in-page')
    ev.eq([k for _, a in p2.tags for k, _ in a], ['href'],
          'attributes-in-page')
    ev.key('slash', p, q, script)
    ev.case()


_app = []


def handler(src, ev):
    """The page an application makes when routing asks for a redirect."""
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    if not _app:
        b = ApplicationBuilder()
        b.add_routes(Route('/d/<v>/', endpoint='d'))
        b.expose('d', methods=['GET'])(lambda app, req, v: Response(v))
        _app.append(b('http://site.example/'))
    v = (src.choice(MARKUP) + gen.text(src, CHARS, 4)).replace('/', '')
    if v in ('', '.', '..'):
        v = 'x'
    q = src.choice(('', 'a=<b>', 'a="x"', "a='"))
    ev.note(value=v, query=q)
    env = gen.environ('/d/' + v, q, host='site.example')
    res = serve(_app[0], env, ev)
    ev.eq(res.code, 301, 'code')
    u = urlsplit(res.one('Location'))
    ev.eq((u.netloc, unquote(u.path)), ('site.example', '/d/' + v + '/'),
          'handler-location')
    p = Page()
    p.feed(res.body.decode())
    p.close()
    ev.eq([t for t, _ in p.tags], ['title', 'h1', 'p', 'a'],
          'markup-in-page')
    ev.eq([k for _, a in p.tags for k, _ in a], ['href'],
          'attributes-in-page')
    ev.hit('handler-page')
    ev.key('handler', v, q)
    ev.case()


def sweep(ev):
    """Every BMP character class representative and all of Latin in names
    and locations."""
    from verktyg.utils import secure_filename, redirect
    for i in list(range(0, 0x600)) + list(range(0x2000, 0x2200)) + \
            list(range(0xff00, 0xfff0)):
        c = chr(i)
        for n in (c, c * 2 + '/', '.' + c + '.', 'a' + c + 'b'):
            judge(ev, n, secure_filename)
            ev.hit('swept')
    for i in range(0x21, 0x250):
        c = chr(i)
        if c in '%':
            continue
        loc = '/a' + c + 'b'
        ev.note(location=loc)
        r = redirect(loc)
        look_at_page(ev, r.get_data(as_text=True), loc,
                     r.headers['Location'])


DIRECTED = [('sweep', sweep)]
SCENARIOS = [
    Scenario('secure', secure, 6000),
    Scenario('windows', windows, 4000),
    Scenario('redirects', redirects, 4000),
    Scenario('slash', slash, 2500),
    Scenario('handler', handler, 800),
]
