"""URL building and matching are inverse to each other."""
from decimal import Decimal
from urllib.parse import urlsplit, unquote, unquote_to_bytes, parse_qsl

from vf.engine import Scenario
from vf import gen, routes as rt

RULE = ('generated maps; for each, value sets are built into URLs, the URL is '
        'taken apart with urllib and matched again; distinct = hash of route, '
        'values, script root and binding')
ASSUMPTIONS = [
    'a variable uses the same converter in all routes of one endpoint',
    'values are such that the pattern of the route, applied to their text, '
    'gives them back (e.g. no slash in a string value)',
    'script roots are ASCII; query values are scalars',
]
REQUIRED = {'built': 8000, 'matched-back': 4000, 'external': 800,
            'build-error': 800, 'query-values': 1500, 'non-ascii': 200,
            'default-route-built': 100,
            'other-domain': 150, 'routes-added-later': 2000,
            'almost-default': 300, 'refused-value': 200,
            'introspected': 3000}
NAMES = ('x', 'y', 'z', 'w', 'u')


def to_text(v, value):
    c = v.conv
    if c == 'int':
        t = str(int(value))
        return t.rjust(v.opts.get('fixed_digits', 0), '0')
    if c == 'float':
        t = format(Decimal(repr(float(value))), 'f')
        return t if '.' in t else t + '.0'
    if c == 'hexa':
        return '%x' % value
    if c == 'flag':
        return 'yes' if value else 'no'
    if c == 'rev':
        return value[::-1]
    return str(value)


def python_value(src, v, tries=6):
    for _ in range(tries):
        raw = rt.raw_value(src, v)
        if v.conv == 'float' and src.bool(1, 3):
            raw = src.choice(('0.1', '123456789012345678.0', '0.000001',
                              '1e-07', '1e16', '1e22', '5e-324', '2.5',
                              '1.7976931348623157e308', '12345.678'))
            val = float(raw)
            if 'min' in v.opts and val < v.opts['min'] or \
                    'max' in v.opts and val > v.opts['max']:
                continue
            return val
        ok, val = v.convert(raw)
        if ok:
            return val
    return None


def build_model(src, ev):
    mode = src.choice(('plain', 'plain', 'domain', 'host'))
    model = rt.Model(strict=src.bool(3, 4), redirect_defaults=src.bool(3, 4),
                     default_domain=src.choice(('', 'www'))
                     if mode == 'domain' else '',
                     host_matching=mode == 'host')
    rs = []
    for e in range(src.int(1, 3)):
        vs = [rt.variable(src, n, path_ok=(n == 'z')) for n in NAMES]
        dv = rt.variable(src, 'dom', src.choice(('string', 'int', 'default')))
        base = None
        for i in range(src.few(1, 4, 14)):
            pool = src.shuffle(vs)
            toks = ['/e%d' % e]

            def lit(x):
                if isinstance(toks[-1], str):
                    toks[-1] += x
                else:
                    toks.append(x)
            segs = src.size(3, 5)
            for _ in range(segs):
                lit('/')
                k = src.draw(5)
                if k < 2:
                    lit(rt.static(src))
                elif pool:
                    if k == 3 and src.bool():
                        lit(src.choice(('p-', 'v')))
                    toks.append(pool.pop())
                    if k == 4 and src.bool(1, 3):
                        lit(src.choice(('.html', '-', '.x')))
            if src.bool(1, 3):
                lit('/')
            dom = None
            if mode == 'domain':
                dom = src.choice((None, ['kb'], [dv], ['a-', dv]))
            elif mode == 'host':
                dom = src.choice((['example.com'], ['kb.example.com'],
                                  [dv, '.example.com']))
            r = rt.R(toks, 'ep%d' % e, dom,
                     strict=src.choice((None, None, False, True)),
                     build_only=src.bool(1, 10))
            if base is not None and src.bool(1, 3):
                # a shortcut for the base route with one variable fixed
                names = [v for v in base.path if not isinstance(v, str)]
                if names:
                    fix = {}
                    for v in names[:src.choice((1, 1, 2, 3))]:
                        val = python_value(src, v)
                        if val is not None:
                            fix[v.name] = val
                    if fix:
                        toks2 = ['/e%d/short%d/' % (e, i)]
                        for v in names:
                            if v.name in fix:
                                continue
                            toks2.append(v)
                            toks2.append('/')
                        if src.bool() and len(toks2) > 1:
                            toks2.pop()
                        r = rt.R(toks2, 'ep%d' % e,
                                 base.domain, fix)
            elif src.bool(1, 8):
                r.defaults = {src.choice(('d', 'd2')): src.choice((1, 'one'))}
                for v in r.variables():
                    r.defaults.pop(v.name, None)
                r.defaults = r.defaults or None
            elif src.bool(1, 10) and base is not None:
                toks2 = ['/e%d/old%d/' % (e, i)]
                for v in base.path:
                    if not isinstance(v, str):
                        toks2 += [v, '/']
                r = rt.R(toks2, 'ep%d' % e, base.domain, base.defaults,
                         alias=True)
            if base is None:
                base = r
                r.build_only = False
            rs.append(r)
    model.routes = rs
    return mode, model


def same(a, b):
    return a == b and type(a) is type(b)


def introspect(src, ev, model, m, endpoint):
    """What the map tells about the routes of an endpoint."""
    mine = [r for r in model.routes if r.endpoint == endpoint]
    taken = [model.arguments(r) for r in mine]
    names = sorted(set().union(*taken)) + ['q', 'absent']
    for _ in range(3):
        asked = [src.choice(names) for _ in range(src.int(1, 3))]
        ev.eq(m.is_endpoint_expecting(endpoint, *asked),
              any(set(asked) <= t for t in taken),
              'endpoint-expecting-differs', asked=asked, endpoint=endpoint)
    ev.eq(sorted(sorted(r.arguments) for r in m.iter_routes(endpoint)),
          sorted(sorted(t) for t in taken), 'routes-of-endpoint-differ',
          endpoint=endpoint)
    ev.eq(len(list(m.iter_routes())), len(model.routes),
          'number-of-routes-differs')
    ev.hit('introspected')


def roundtrip(src, ev):
    from verktyg.routing import BuildError, RequestRedirect
    mode, model = build_model(src, ev)
    charset = 'latin1' if src.draw(6) == 5 else 'utf-8'
    ev.note(routes=[r.describe() for r in model.routes], mode=mode,
            charset=charset)
    if charset != 'utf-8':
        for r in model.routes:
            try:
                r.text().encode(charset)
            except UnicodeEncodeError:
                charset = 'utf-8'
    held = []
    if src.bool(1, 3):
        # some routes come later
        aliased = {r.endpoint for r in model.routes if r.alias}
        held = [r for r in src.sublist(model.routes, 1, 4)
                if r.endpoint not in aliased]
        model.routes = [r for r in model.routes if r not in held]
    m = model.build_map(charset=charset)
    adapters = {}
    script = src.choice(('/', '/app', '/app/', '/a/b', '/x.y/'))
    site = src.choice(('example.com', 'example.com', 'kb.example.com',
                       'www.org', 'a-3.kb', 'localhost:8080', 'joe'))
    scheme = src.choice(('http', 'https'))
    for _ in range(src.int(2, 6)):
        if held and (src.bool(1, 3) or not model.routes):
            new = held[:src.int(1, 2)]
            del held[:len(new)]
            model.routes = model.routes + new
            m.add_routes(*[r.make(model.host_matching) for r in new])
            ev.hit('routes-added-later')
            ev.note(routes=[r.describe() for r in model.routes])
        r = src.choice(model.routes)
        if src.bool(1, 3):
            introspect(src, ev, model, m, r.endpoint)
        values = {}
        for v in r.variables(model.dom(r)):
            if v.name == 'dom':
                val = src.choice((3, 17)) if v.conv == 'int' else \
                    src.choice(('joe', 'al', 'kb', 'x1y'))
                ok, val = v.convert(str(val).ljust(v.opts.get(
                    'minlength', v.opts.get('length', 1)), 'q')[
                        :v.opts.get('maxlength', v.opts.get('length', 99))]
                    if v.conv != 'int' else str(val).rjust(
                        v.opts.get('fixed_digits', 0), '0'))
                if not ok:
                    val = None
            else:
                val = python_value(src, v)
            if val is not None:
                values[v.name] = val
        if r.defaults and src.bool():
            values.update(r.defaults)
            if src.bool(1, 4):
                # almost the default
                k = src.choice(sorted(r.defaults))
                v = [v for o in model.routes if o.endpoint == r.endpoint
                     for v in o.variables(model.dom(o)) if v.name == k]
                if not v:
                    values[k] = src.choice((1, '1', 1.0, True, 'One', 'one'))
                elif v[0].conv == 'int':
                    values[k] = str(values[k])
                ev.hit('almost-default')
        if src.bool(1, 6):
            for v in r.variables():
                if v.conv == 'hexa':
                    # refused by its converter: another route is needed
                    values[v.name] = 0x1000000 + src.int(0, 9)
                    ev.hit('refused-value')
        if src.draw(8) == 7 and values:
            del values[src.choice(sorted(values))]
        if src.draw(10) == 9 and values:
            values[src.choice(sorted(values))] = None
        for _ in range(src.size(2, 6)):
            k = src.choice(('q', 'page', 'a b', u'\xe9', 'x&y', 'd', 'next',
                            '_', '_x', '__a', 'a.b', 'a-b', '0', 'A',
                            'external', '', 'a=b', 'a[]', '%41'))
            if src.bool(1, 8):
                k = src.choice((gen.lit(src), gen.ident(src)))
            if k in [v.name for rr in model.routes
                     if rr.endpoint == r.endpoint
                     for v in rr.variables(model.dom(rr))]:
                continue
            values[k] = src.choice((1, 'one', u'\xfc', 'a&b=c', 'a+b', '',
                                    None, '100%', 'a b', '#', 'x;y', 2.5,
                                    '/?', '//'))
        if charset != 'utf-8':
            try:
                repr(values).encode(charset)
                for v in values.values():
                    str(v).encode(charset)
            except UnicodeEncodeError:
                continue
        ext = src.bool(1, 4)
        unknown = not src.bool(1, 6)
        domain = {'plain': '', 'domain': src.choice(('', 'kb', 'www', 'a-3')),
                  'host': src.choice(('example.com', 'kb.example.com'))}[mode]
        a = m.bind(domain if mode == 'host' else site, script,
                   domain if mode == 'domain' else None, scheme)
        if src.bool():
            a = adapters.setdefault(domain, a)
        endpoint = r.endpoint if src.draw(20) < 19 else 'nowhere'
        ev.note(endpoint=endpoint, values=values, domain=domain,
                script=script, external=ext, append_unknown=unknown)
        clean = {k: v for k, v in values.items() if v is not None}
        chosen = None
        for c in model.build_order(endpoint):
            if model.suitable(c, clean) and not any(
                    v.conv == 'hexa' and clean[v.name] > 0xffffff
                    for v in c.variables(model.dom(c))):
                chosen = c
                break
        given = dict(values)
        kw = {}
        if ext or src.bool():
            kw['force_external'] = ext
        if not unknown:
            kw['append_unknown'] = False
        ev.hit('built')
        try:
            if values or src.bool():
                url = a.build(endpoint, values, **kw)
            else:
                url = a.build(endpoint, **kw)
        except BuildError as e:
            ev.ok(chosen is None, 'build-error-for-valid-values')
            ev.hit('build-error')
            ev.eq(e.endpoint, endpoint, 'build-error-endpoint')
            ev.eq({k: v for k, v in e.values.items() if v is not None},
                  {k: v for k, v in given.items() if v is not None},
                  'build-error-values')
            ev.eq(values, given, 'build-changed-its-argument')
            continue
        ev.eq(values, given, 'build-changed-its-argument')
        ev.ok(chosen is not None, 'built-without-required-values', url=url)
        ev.note(url=url, chosen=chosen.describe())
        ev.ok(isinstance(url, str) and url.isascii(), 'url-not-ascii')
        if chosen.defaults:
            ev.hit('default-route-built')

        # where it points
        dom = ''.join(t if isinstance(t, str) else to_text(t, clean[t.name])
                      for t in model.dom(chosen))
        if mode == 'host':
            want_host = dom
        else:
            want_host = (dom + '.' if dom else '') + site
        parts = urlsplit(url)
        relative = not ext and dom == domain
        if relative:
            ev.eq((parts.scheme, parts.netloc), ('', ''), 'not-relative')
        else:
            ev.hit('external')
            if dom != domain:
                ev.hit('other-domain')
            ev.eq((parts.scheme, parts.netloc), (scheme, want_host),
                  'wrong-host')
        ev.eq(parts.fragment, '', 'has-fragment')

        # path text
        text = ''.join(t if isinstance(t, str) else to_text(t, clean[t.name])
                       for t in chosen.path)
        if not text.isascii():
            ev.hit('non-ascii')
        base = script.rstrip('/')
        ev.ok(parts.path.startswith(base + '/'), 'script-root-missing')
        rest = parts.path[len(base):]
        ev.eq(unquote(rest, charset, 'strict'), text, 'wrong-path')

        # query
        used = model.arguments(chosen)
        left = sorted((k, str(v)) for k, v in clean.items() if k not in used)
        if not unknown:
            left = []
        got_q = parse_qsl(parts.query, keep_blank_values=True,
                          strict_parsing=bool(parts.query), encoding=charset)
        ev.eq(sorted(got_q), left, 'wrong-query')
        if left:
            ev.hit('query-values')
        ev.ok(bool(parts.query) == bool(left) and
              ('?' in url) == bool(left), 'empty-query')
        ev.key(chosen.describe(), sorted(map(repr, clean.items())), script,
               ext, domain)

        # and back
        if chosen.build_only:
            continue
        path = unquote_to_bytes(rest).decode(charset)
        want = model.match(dom, path)
        own = model.pattern(chosen, dom, path)
        exp = {k: v for k, v in clean.items() if k in used}
        exp.update(chosen.defaults or {})
        for v in chosen.variables(model.dom(chosen)):
            if v.conv == 'int':
                exp[v.name] = int(exp[v.name])
        if own is None or dict(chosen.defaults or {}, **{
                t.name: t.convert(s)[1] for t, s in own[0]}) != exp:
            ev.hit('ambiguous-text')
            continue
        if not all(t.convert(s)[0] for t, s in own[0]):
            ev.fail('built-url-refused-by-its-converter')
        if want is None or want[1] is not chosen:
            ev.hit('shadowed')
            continue
        cur_dom, cur = dom, path
        for hop in range(4):
            env = gen.environ(cur, host=(want_host if mode != 'domain' else
                                         want_host), scheme=scheme)
            env['PATH_INFO'] = cur.encode(charset).decode('latin1')
            if mode == 'domain':
                b = m.bind_to_environ(env, server_name=site)
            else:
                b = m.bind_to_environ(env)
            try:
                ep, args = b.match()
                break
            except RequestRedirect as e:
                ev.hit('followed-redirect')
                p = urlsplit(e.new_url)
                want_host = p.netloc
                cur = unquote(p.path, charset, 'strict')
        else:
            ev.fail('redirect-loop')
        ev.note(matched=(ep, args))
        ev.eq(ep, endpoint, 'matches-other-endpoint')
        ev.eq(set(args), set(exp), 'argument-names-differ')
        for k, v in exp.items():
            ev.ok(same(args[k], v), 'argument-differs', name=k,
                  built=v, matched=args[k])
        ev.hit('matched-back')
        ev.sample('round trip', route=chosen.describe(), values=clean,
                  url=url, matched=args)


def characters(ev):
    """Every character below U+0300 (and some above) in each kind of value."""
    from verktyg.routing import URLMap, Route
    m = URLMap([Route('/s/<x>/end', endpoint='s'),
                Route('/p/<path:x>', endpoint='p'),
                Route('/d/<x>.<y>', endpoint='d')])
    a = m.bind('h', '/app')
    for cp in list(range(1, 0x300)) + [0x2028, 0x4e2d, 0xfffd, 0x1f600]:
        c = chr(cp)
        for ep, fmt in (('s', '%s'), ('s', 'a%sb'), ('p', 'a%sb'),
                        ('p', 'a/%s/b')):
            v = fmt % c
            if ep == 's' and '/' in v or ep == 'p' and c in '\n':
                continue
            url = a.build(ep, {'x': v, 'q': v})
            p = urlsplit(url)
            ev.note(value=v, url=url)
            ev.ok(url.isascii() and p.path.startswith('/app/'), 'bad-url')
            path = unquote(p.path[4:], 'utf-8', 'strict')
            ev.eq(a.match(path), (ep, {'x': v}), 'round-trip-differs')
            ev.eq(parse_qsl(p.query, True), [('q', v)], 'query-differs')
            ev.case()
            ev.hit('matched-back')


SCENARIOS = [Scenario('roundtrip', roundtrip, 16000, 300000)]
DIRECTED = [('characters', characters)]
