"""Independent model of URL routing, and generators for maps and paths.

Written from the documentation of the routing module; it does not use regular
expressions or any code of the library.
"""
import uuid

from vf import gen

WEIGHT = {'default': 100, 'string': 100, 'any': 100, 'uuid': 100,
          'path': 200, 'int': 50, 'float': 50, 'hexa': 30, 'flag': 150, 'rev': 100}
HEX = '0123456789abcdefABCDEF'


def converters():
    """User defined converters (public extension point)."""
    from verktyg.routing import BaseConverter, ValidationError

    class Hexa(BaseConverter):
        regex = '[0-9a-f]+'
        weight = 30

        def to_python(self, value):
            if len(value) > 6:
                raise ValidationError()
            return int(value, 16)

        def to_url(self, value):
            if value > 0xffffff:
                raise ValidationError()
            return '%x' % value

    class Flag(BaseConverter):
        regex = 'yes|no'
        weight = 150

        def to_python(self, value):
            return value == 'yes'

        def to_url(self, value):
            return 'yes' if value else 'no'

    class Rev(BaseConverter):
        def to_python(self, value):
            return value[::-1]

        def to_url(self, value):
            return super(Rev, self).to_url(value[::-1])

    return {'hexa': Hexa, 'flag': Flag, 'rev': Rev}


# -- route descriptions ------------------------------------------------------

class V(object):
    """A variable part."""

    def __init__(self, name, conv='default', **opts):
        self.name, self.conv, self.opts = name, conv, opts

    def render(self):
        if self.conv == 'any':
            def item(x):
                if x.isidentifier() and x not in ('True', 'False', 'None'):
                    return x
                return '"%s"' % x
            return '<any(%s):%s>' % (
                ', '.join(item(x) for x in self.opts['items']), self.name)
        args = ', '.join('%s=%s' % kv for kv in sorted(self.opts.items()))
        if args:
            return '<%s(%s):%s>' % (self.conv, args, self.name)
        if self.conv == 'default':
            return '<%s>' % self.name
        return '<%s:%s>' % (self.conv, self.name)

    # end positions in the order in which they are preferred
    def ends(self, s, i):
        c, o, n = self.conv, self.opts, len(s)
        if c in ('default', 'string', 'rev'):
            run = 0
            while i + run < n and s[i + run] != '/':
                run += 1
            lo, hi = o.get('minlength', 1), o.get('maxlength', run)
            if 'length' in o:
                lo = hi = o['length']
            for k in range(min(run, hi), lo - 1, -1):
                yield i + k
        elif c == 'any':
            for x in o['items']:
                if s.startswith(x, i):
                    yield i + len(x)
        elif c == 'path':
            if i < n and s[i] != '/':
                j = i + 1
                yield j
                while j < n and s[j] != '\n':
                    j += 1
                    yield j
        elif c == 'int':
            run = 0
            while i + run < n and s[i + run].isdecimal():
                run += 1
            for k in range(run, 0, -1):
                yield i + k
        elif c == 'float':
            j = i
            while j < n and s[j].isdecimal():
                j += 1
            if j > i and j < n and s[j] == '.':
                k = j + 1
                while k < n and s[k].isdecimal():
                    k += 1
                for e in range(k, j + 1, -1):
                    yield e
        elif c == 'uuid':
            t = s[i:i + 36]
            if len(t) == 36 and all(
                    (ch == '-') if p in (8, 13, 18, 23) else (ch in HEX)
                    for p, ch in enumerate(t)):
                yield i + 36
        elif c == 'hexa':
            run = 0
            while i + run < n and s[i + run] in '0123456789abcdef':
                run += 1
            for k in range(run, 0, -1):
                yield i + k
        elif c == 'flag':
            for x in ('yes', 'no'):
                if s.startswith(x, i):
                    yield i + len(x)

    def convert(self, t):
        """(ok, value)"""
        c, o = self.conv, self.opts
        if c in ('int', 'float'):
            if o.get('fixed_digits') and len(t) != o['fixed_digits']:
                return False, None
            v = int(t) if c == 'int' else float(t)
            if 'min' in o and v < o['min'] or 'max' in o and v > o['max']:
                return False, None
            return True, v
        if c == 'uuid':
            return True, uuid.UUID(t)
        if c == 'hexa':
            return len(t) <= 6, int(t, 16)
        if c == 'flag':
            return True, t == 'yes'
        if c == 'rev':
            return True, t[::-1]
        return True, t


class R(object):
    """A route: ``domain`` and ``path`` are lists of text and V."""

    #: what is given for the feature the map does not use
    ignored = None

    def __init__(self, path, endpoint, domain=None, defaults=None,
                 strict=None, build_only=False, alias=False,
                 redirect_to=None):
        self.path, self.endpoint, self.domain = path, endpoint, domain
        self.defaults = defaults
        self.strict, self.build_only = strict, build_only
        self.alias, self.redirect_to = alias, redirect_to

    def text(self, tokens=None):
        return ''.join(t if isinstance(t, str) else t.render()
                       for t in (self.path if tokens is None else tokens))

    def kwargs(self, host_matching=False):
        kw = {'endpoint': self.endpoint}
        if self.domain is not None:
            kw['host' if host_matching else 'subdomain'] = \
                self.text(self.domain)
        if self.ignored is not None:
            kw['subdomain' if host_matching else 'host'] = self.ignored
        if self.defaults is not None:
            kw['defaults'] = dict(self.defaults)
        if self.strict is not None:
            kw['strict_slashes'] = self.strict
        if self.build_only:
            kw['build_only'] = True
        if self.alias:
            kw['alias'] = True
        if self.redirect_to is not None:
            kw['redirect_to'] = self.redirect_to
        return kw

    def make(self, host_matching=False):
        from verktyg.routing import Route
        return Route(self.text(), **self.kwargs(host_matching))

    def describe(self):
        return (self.text(), self.kwargs())

    @property
    def branch(self):
        return self.text().endswith('/')

    def tokens(self, dom):
        return list(dom) + list(self.path)

    def variables(self, dom=()):
        return [t for t in list(self.domain or dom) + list(self.path)
                if not isinstance(t, str)]


class Model(object):
    def __init__(self, routes=(), strict=True, redirect_defaults=True,
                 default_domain='', host_matching=False):
        self.routes = list(routes)
        self.strict = strict
        self.redirect_defaults = redirect_defaults
        self.default_domain = default_domain
        self.host_matching = host_matching

    def build_map(self, routes=None, **kw):
        from verktyg.routing import URLMap
        return URLMap(
            [r.make(self.host_matching)
             for r in (self.routes if routes is None else routes)],
            strict_slashes=self.strict,
            redirect_defaults=self.redirect_defaults,
            default_subdomain=self.default_domain,
            host_matching=self.host_matching,
            converters=converters(), **kw)

    # -- per route facts ---------------------------------------------------
    def dom(self, r):
        if r.domain is not None:
            return list(r.domain)
        if self.host_matching:
            return []
        return [self.default_domain] if self.default_domain else []

    def is_strict(self, r):
        return self.strict if r.strict is None else r.strict

    def arguments(self, r):
        a = {v.name for v in r.variables(self.dom(r))}
        return a | set(r.defaults or ())

    def weights(self, r):
        out = []
        for toks in (self.dom(r), r.path):
            for t in toks:
                if isinstance(t, str):
                    out.extend((0, -len(p)) for p in t.split('/') if p)
                else:
                    out.append((1, WEIGHT[t.conv]))
        return out

    def match_order(self):
        # insertion sort by explicit comparison, stable
        out = []
        for r in self.routes:
            k = self.match_key(r)
            i = len(out)
            while i > 0 and self.match_key(out[i - 1]) > k:
                i -= 1
            out.insert(i, r)
        return out

    def match_key(self, r):
        w = self.weights(r)
        return (bool(self.arguments(r)), -len(w), w)

    def build_order(self, endpoint):
        rs = [r for r in self.routes if r.endpoint == endpoint]
        return sorted(rs, key=lambda r: (
            bool(r.alias), -len(self.arguments(r)), -len(r.defaults or ())))

    # -- matching ----------------------------------------------------------
    def pattern(self, r, domain, path):
        """None, or (raw values, has_suffix_slash)."""
        if r.build_only:
            return None
        s = domain + '|' + path
        toks = self.dom(r) + ['|'] + list(r.path)
        if r.branch:
            last = toks[-1]
            toks = toks[:-1] + [last[:-1]]
        suffix_ok = r.branch or not self.is_strict(r)
        names = [t.name for t in toks if not isinstance(t, str)]

        def go(k, i, vals):
            if k == len(toks):
                if suffix_ok:
                    if i > 0 and s[i - 1] == '/':
                        return None
                    if i < len(s) and s[i] == '/' and i + 1 == len(s):
                        return vals, True
                    if i == len(s):
                        return vals, False
                    return None
                return (vals, False) if i == len(s) else None
            t = toks[k]
            if isinstance(t, str):
                if s.startswith(t, i):
                    return go(k + 1, i + len(t), vals)
                return None
            for e in t.ends(s, i):
                got = go(k + 1, e, vals + [(t, s[i:e])])
                if got is not None:
                    return got
            return None

        assert len(set(names)) == len(names)
        return go(0, 0, [])

    def suitable(self, r, values):
        for a in self.arguments(r):
            if a not in (r.defaults or {}) and a not in values:
                return False
        for k, v in (r.defaults or {}).items():
            if k in values and values[k] != v:
                return False
        return True

    def trace(self, r):
        out = ['']
        for t in self.dom(r) + ['|'] + list(r.path):
            if isinstance(t, str):
                out[-1] += t
            else:
                out.extend([t.name, ''])
        return out

    def match(self, domain, path):
        """('match', route, values) | ('slash', route) | ('alias', r, values)
        | ('default', r, target, values) | ('redirect_to', r, values) | None"""
        path = '/' + path.lstrip('/')
        for r in self.match_order():
            got = self.pattern(r, domain, path)
            if got is None:
                continue
            vals, slash = {}, got[1]
            bad = False
            for t, raw in got[0]:
                ok, v = t.convert(raw)
                if not ok:
                    bad = True
                    break
                vals[t.name] = v
            if bad:
                continue
            if r.branch and self.is_strict(r) and not slash:
                return ('slash', r, vals)
            vals.update(r.defaults or {})
            if r.alias and self.redirect_defaults:
                return ('alias', r, vals)
            if self.redirect_defaults:
                for o in self.build_order(r.endpoint):
                    if o is r:
                        break
                    if (not o.build_only and o.defaults and
                            self.trace(o) != self.trace(r) and
                            self.arguments(o) == self.arguments(r) and
                            self.suitable(o, vals)):
                        return ('default', r, vals, o)
            if r.redirect_to is not None:
                return ('redirect_to', r, vals)
            return ('match', r, vals)
        return None


# -- generators --------------------------------------------------------------
STATIC = ('a', 'b', 'foo', 'bar', 'foobar', 'fo', 'x.y', 'a-b', 'page', '1',
          '42', 'admin', 'A', 'f(o)', 'a+b', 'a.b', '[x]', '^', '$', 'a*',
          u'\xfcber', 'with space', '.', 'yes', 'a:b', '%', '~', 'a;b', '?')


def static(src, simple=False):
    k = src.draw(8)
    if simple or k < 5:
        if src.bool(1, 30):
            # longer and nearly as long
            return 'terms-and-conditions-of-use'[:src.int(14, 27)]
        return src.choice(STATIC[:11])
    if k == 5:
        return src.choice(STATIC)
    if k == 6:
        s = gen.text(src, gen.ASCII, 4, 40, 1)
        return s
    s = ''.join(c for c in gen.lit(src) if c not in '<>|/\n\r' and c > ' ')
    return (s[:20] if src.bool() else s[:60]) or 'lit'


def variable(src, name, conv=None, path_ok=True, custom=True):
    kinds = ['default', 'int', 'string', 'any', 'path', 'float', 'uuid',
             'hexa', 'flag', 'default', 'int', 'rev']
    c = conv or src.choice(kinds)
    if c == 'path' and not path_ok:
        c = 'default'
    if not custom and c in ('hexa', 'flag', 'rev'):
        c = 'string'
    o = {}
    if c == 'string':
        k = src.draw(4)
        if k == 1:
            o['length'] = src.choice((1, 2, 3, 5, gen.num(src, 40) or 1))
        if k == 2:
            o['minlength'] = src.int(1, 4)
        if k == 3:
            o['maxlength'] = src.choice((1, 2, 4, gen.num(src, 60) or 1))
            if src.bool():
                o['minlength'] = src.int(1, o['maxlength'])
    elif c == 'any':
        items = []
        for _ in range(src.few(1, 4, 15)):
            x = src.choice(('about', 'help', 'foo', 'foobar', 'foo,bar', 'a.b',
                            'a', 'x-y', 'two words', 'fo', 'a|b', '(x)', 'blog', 'news', 'team', 'en',
                            'de', 'fr', 'shop'))
            if x not in items:
                items.append(x)
        o['items'] = items
    elif c in ('int', 'float'):
        k = src.draw(5)
        if c == 'int' and k == 1:
            o['fixed_digits'] = src.int(1, 5)
        if k in (2, 4):
            o['min'] = src.choice((0, 1, 2, 10, 100, gen.num(src, 40)))
        if k in (3, 4):
            o['max'] = src.choice((5, 9, 10, 100, 12345, 0, 1,
                                   gen.num(src, 40)))
        if c == 'float' and src.bool(1, 3):
            for x in o:
                o[x] = src.choice((0.25, 1.125, 2.75, 10.05, 0.5, 199.999))
    return V(name, c, **o)


def path_tokens(src, names, allow_path=True, custom=True):
    """Tokens of a route path; variables take their names from ``names``."""
    toks = ['/']

    def lit(x):
        if isinstance(toks[-1], str):
            toks[-1] += x
        else:
            toks.append(x)

    segs = src.size(3, 7)
    names = list(names)
    for i in range(segs):
        if i:
            lit('/')
        shape = src.draw(6)
        if shape < 3 or not names:
            lit(static(src))
        elif shape < 5:
            v = variable(src, names.pop(0), path_ok=allow_path, custom=custom)
            toks.append(v)
        else:
            v = variable(src, names.pop(0), path_ok=allow_path, custom=custom)
            k = src.draw(4)
            if k == 0:
                lit(static(src, True))
                toks.append(v)
            elif k == 1:
                toks.append(v)
                lit(src.choice(('.html', '-', '.', 'x', '1', '0', '5.0')))
            elif k == 2 and names:
                toks.append(v)
                lit(src.choice(('-', '.', '_', ',', '0', 'a')))
                toks.append(variable(src, names.pop(0), path_ok=allow_path,
                                     custom=custom))
            else:
                toks.append(v)
    if segs and src.bool(1, 3):
        lit('/')
    if len(toks) > 1 and toks[-1] == '':
        toks.pop()
    return toks


def raw_value(src, v):
    """Text (not url quoted) that the converter probably accepts."""
    c, o = v.conv, v.opts
    if c in ('default', 'string', 'rev'):
        lo, hi = o.get('minlength', 1), o.get('maxlength', 200)
        if 'length' in o:
            lo = hi = o['length']
        k = src.draw(6)
        if k < 3:
            s = src.choice(STATIC)
        elif k == 3:
            s = gen.text(src, None, 4, 300, 1)
        elif k == 4:
            s = gen.lit(src)
        else:
            s = src.choice(('..', '.', '...', '%2F', '%', 'a b', u'\xe4', '+',
                            'a?b', 'a#b', ';', '&', '=', ':', '@', '|', '~',
                            'http:', u'\u4e2d', "'", '"', '<', '>', '\\'))
        s = s.replace('/', '').replace('\n', '').replace('\r', '') or 'v'
        while len(s) < lo:
            s += src.choice('ab1')
        return s[:hi]
    if c == 'any':
        return src.choice(o['items'])
    if c == 'path':
        k = src.draw(5)
        s = '/'.join(raw_value(src, V('x')) for _ in range(src.int(1, 4)))
        if k == 0:
            s = src.choice(('a/b', 'a', 'a//b', 'a/../b', 'foo/bar', './a'))
        if k == 1:
            s += src.choice(('', '/x', '//x', '/..', '.'))
        return s
    if c == 'int':
        if 'fixed_digits' in o:
            n = src.int(0, 10 ** o['fixed_digits'] - 1)
            return '%0*d' % (o['fixed_digits'], n)
        k = src.draw(6)
        if k < 3:
            n = src.int(0, 12)
        elif k == 3:
            n = gen.num(src, 1 << 20)
        elif k == 4:
            n = src.choice((o.get('min', 0), o.get('max', 7))) + src.int(0, 2)
        else:
            n = src.int(0, 1 << 70)
        return ('%03d' if src.draw(6) == 5 else '%d') % n
    if c == 'float':
        k = src.draw(4)
        if k == 0:
            return src.choice(('0.0', '1.5', '10.25', '00.10', '3.0', '9.99'))
        if k == 1:
            b = src.choice((o.get('min', 0), o.get('max', 7)))
            if src.bool():
                return str(float(b))
            return '%d.%s' % (b, src.choice(('0', '1', '25', '12', '13',
                                             '75', '76', '05', '06')))
        return '%d.%s' % (src.int(0, 200), src.text('0123456789', 3, 20, 1))
    if c == 'uuid':
        h = '%032x' % src.int(0, (1 << 128) - 1)
        u = str(uuid.UUID(h))
        return u.upper() if src.draw(4) == 3 else u
    if c == 'hexa':
        return '%x' % src.int(0, 0xffffff)
    return src.choice(('yes', 'no'))


def near_value(src, v):
    """Text near the border of what the converter accepts."""
    s = raw_value(src, v)
    k = src.draw(8)
    if k == 0:
        return s + src.choice(('x', '1', '.', '/', '-', ' ', '\u0663'))
    if k == 1:
        return src.choice(('-', '+', ' ', '0', 'x', '/')) + s
    if k == 2:
        return s[:-1]
    if k == 3:
        return s.swapcase()
    if k == 4:
        return src.choice(('1.', '.5', '-1', '1e5', '1_0', '+3', '', '٣', '²',
                           '1.5.5', 'nan', 'inf', '0x1', 'é'))
    if k == 5 and v.conv == 'string':
        n = v.opts.get('length', v.opts.get('maxlength', 3))
        return 'z' * max(0, n + src.int(-1, 1))
    return s


def render_path(src, r, near=0):
    """A concrete path for a route; ``near``: how many variables get a
    borderline value."""
    out = []
    vs = [t for t in r.path if not isinstance(t, str)]
    odd = set()
    for _ in range(near):
        if vs:
            odd.add(src.choice(vs).name)
    for t in r.path:
        if isinstance(t, str):
            out.append(t)
        elif t.name in odd:
            out.append(near_value(src, t))
        else:
            out.append(raw_value(src, t))
    return ''.join(out)


def some_path(src, routes, newline=False):
    k = src.draw(10)
    if not routes or k == 9:
        n = src.size(4, 40)
        p = '/' + '/'.join(src.choice(STATIC + ('', '..', 'http:'))
                           for _ in range(n))
        return p + ('/' if src.bool(1, 3) else '')
    r = src.choice(routes)
    p = render_path(src, r, src.choice((0, 0, 0, 1, 1, 2)))
    if k == 8:
        if newline:
            p += src.choice(('\n', '\r', '\n\n', ' ', '\x00'))
        else:
            p += src.choice(('\r', ' ', '\x00'))
    elif k == 7:
        p = p.rstrip('/')
    elif k == 6:
        p += '/'
    elif k == 5:
        p += src.choice(('/x', '//', 'x', '/..', '/.', '.', '?a', '/1'))
    elif k == 4 and len(p) > 1:
        i = src.int(1, len(p) - 1)
        p = p[:i] + src.choice(('/', 'x', '', '.')) + p[i + src.int(0, 1):]
    elif k == 3 and src.bool():
        p = src.choice(('/', '//', '')) + p.lstrip('/')
    return p
