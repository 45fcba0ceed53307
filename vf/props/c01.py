"""URL matching against an independent matcher."""
from vf.engine import Scenario
from vf import gen, routes as rt

RULE = ('generated URL maps, each probed with paths derived from its routes; '
        'every match() is judged by an independent matcher and priority '
        'model; distinct = hash of map and path with an outcome other than '
        'NotFound on an empty map')
ASSUMPTIONS = [
    'path converter values contain no line breaks',
    'string converter minlength >= 1 as documented',
]
REQUIRED = {'probe': 20000, 'outcome-match': 4000, 'outcome-none': 1500,
            'outcome-slash': 300, 'ambiguous': 800, 'converter-refused': 200,
            'resorted-after-add': 500, 'earlier-arguments': 3000,
            'bound-path-kept': 500, 'own-converter': 2000, 'domain-map': 300, 'host-map': 200}
NAMES = ('x', 'y', 'z', 'w', 'u')
DOMS = (['kb'], ['www'], ['a.b'])


def routes_of(src, n, mode, endpoints):
    out = []
    for i in range(n):
        toks = rt.path_tokens(src, src.shuffle(NAMES))
        dom = None
        if mode == 'domain':
            k = src.draw(4)
            if k == 1:
                dom = list(src.choice(DOMS))
            elif k == 2:
                dom = [rt.V('dom')]
            elif k == 3:
                kind = src.choice(('int', 'string', 'any'))
                dom = [src.choice(('a', 'u-')), rt.variable(
                    src, 'dom_' + kind, kind)]
        elif mode == 'host':
            k = src.draw(3)
            dom = (['example.com'], [rt.V('dom'), '.example.com'],
                   ['kb.example.com'])[k]
        if out and src.bool(1, 4):
            toks = list(src.choice(out).path)
        defaults = None
        if src.bool(1, 6):
            defaults = {src.choice(('d', 'e')): src.choice((1, 'one', None))}
        endpoint = src.choice(endpoints) if src.bool() else \
            'ep%d' % len(out)
        names = [t.name for t in toks if not isinstance(t, str)]
        if names and src.bool(1, 12):
            # a default for a variable of the route itself takes its place
            defaults = dict(defaults or {})
            defaults[src.choice(names)] = src.choice((1, 'one', 'x'))
        if defaults:
            # no other route of the endpoint: a variable may have another
            # converter there, and a default redirect could not be built
            endpoint = 'own ' + ''.join(
                t if isinstance(t, str) else t.render()
                for t in list(dom or ()) + ['|'] + list(toks))
        out.append(rt.R(
            toks, endpoint, dom, defaults,
            strict=src.choice((None, None, None, True, False)),
            build_only=src.bool(1, 12)))
    return out


def observe(ev, fn):
    from verktyg.routing import RequestRedirect
    from verktyg.exceptions import NotFound
    try:
        return fn()
    except RequestRedirect as e:
        return ('redirect', e.new_url)
    except NotFound:
        return None


def same(a, b):
    return (a == b and type(a) is type(b))


def probe(ev, model, adapter, domain, path, fn=None, kept=None):
    want = model.match(domain, path)
    ev.hit('probe')
    ev.note(path=path, domain=domain,
            want=None if want is None else
            (want[0], want[1].describe()) + want[2:3],
            routes=[r.describe() for r in model.routes],
            strict=model.strict, redirect_defaults=model.redirect_defaults)
    got = observe(ev, fn or (lambda: adapter.match(path)))
    if want is None:
        ev.hit('outcome-none')
        ev.ok(got is None, 'matched-what-should-not-match', got=got)
        return want
    ev.hit('outcome-' + want[0])
    if want[0] != 'match':
        ev.ok(got is not None and got[0] == 'redirect', 'redirect-expected',
              got=got)
        return want
    ev.ok(got is not None, 'not-found-but-should-match')
    ev.ok(got[0] != 'redirect' or want[1].endpoint == 'redirect',
          'redirect-not-expected', got=got)
    ev.eq(got[0], want[1].endpoint, 'wrong-endpoint', got_args=got[1])
    ev.eq(set(got[1]), set(want[2]), 'wrong-argument-names')
    for k, v in want[2].items():
        ev.ok(same(got[1][k], v), 'wrong-argument', name=k, got=got[1][k],
              expected=v)
    if kept is not None:
        kept.append((path, got[1], dict(want[2])))
    return want


def settle(src, ev, kept):
    """Arguments handed out earlier belong to the caller."""
    for path, args, want in kept:
        ev.ok(args == want, 'earlier-arguments-changed', path=path, got=args,
              expected=want)
        ev.hit('earlier-arguments')
    # a caller may do with them what it likes
    if src.bool():
        for _, args, _ in kept:
            if src.bool():
                args.clear()
            args['added by the caller'] = 1
        del kept[:]


def maps(src, ev):
    mode = src.choice(('plain', 'plain', 'plain', 'domain', 'host'))
    strict = src.bool(3, 4)
    model = rt.Model(strict=strict, redirect_defaults=src.bool(),
                     default_domain=src.choice(('', '', 'www'))
                     if mode == 'domain' else '',
                     host_matching=mode == 'host')
    endpoints = ['one', 'two', 'three']
    first = routes_of(src, src.size(6, 40) + 1, mode, endpoints)
    model.routes = list(first)
    ev.note(routes=[r.describe() for r in first])
    m = model.build_map()
    if mode != 'plain':
        ev.hit(mode + '-map')
    has_path = any(v.conv == 'path' for r in first for v in r.variables())
    rounds = src.int(1, 3)
    kept = []
    adapters = {}
    for rnd in range(rounds):
        if rnd:
            more = routes_of(src, src.int(1, 3), mode, endpoints)
            has_path = has_path or any(
                v.conv == 'path' for r in more for v in r.variables())
            model.routes += more
            m.add_routes(*[r.make(model.host_matching) for r in more])
            ev.hit('resorted-after-add')
        for _ in range(src.int(2, 7)):
            path = rt.some_path(src, model.routes, newline=not has_path)
            if mode == 'plain':
                domain = ''
                a = m.bind('example.com')
            elif mode == 'domain':
                domain = src.choice(('', 'kb', 'www', 'a.b', 'joe', 'a7',
                                     'a12', 'u-x', 'afoo', 'u-foo', 'A5'))
                if src.bool(1, 4):
                    domain = model.default_domain
                    a = m.bind('example.com')
                else:
                    a = m.bind('example.com', subdomain=domain)
                domain = domain.lower()
            else:
                domain = src.choice(('example.com', 'kb.example.com',
                                     'joe.example.com', 'other.org',
                                     'a.b.example.com'))
                a = m.bind(domain)
            if src.bool():
                # one adapter answers many questions
                a = adapters.setdefault((domain, a.subdomain), a)
            want = probe(ev, model, a, domain, path, kept=kept)
            if want is not None:
                n = sum(1 for r in model.routes if rt.Model(
                    [r], model.strict, False, model.default_domain,
                    model.host_matching).match(domain, path) is not None)
                if n > 1:
                    ev.hit('ambiguous')
            for r in model.routes:
                p = model.pattern(r, domain, '/' + path.lstrip('/'))
                if p and not all(t.convert(s)[0] for t, s in p[0]):
                    ev.hit('converter-refused')
            # the other ways to ask the same question agree
            k = src.draw(5)
            if k == 0:
                b = m.bind(a.server_name, subdomain=a.subdomain,
                           path_info=path)
                probe(ev, model, b, domain, path, fn=b.match, kept=kept)
                if src.bool():
                    # the bound path is not changed by asking for others
                    other = rt.some_path(src, model.routes,
                                         newline=not has_path)
                    probe(ev, model, b, domain, other, kept=kept)
                    probe(ev, model, b, domain, path, fn=b.match, kept=kept)
                    ev.hit('bound-path-kept')
            elif k == 1:
                ev.eq(a.test(path), want is not None, 'test-differs')
            elif k == 2 and want is not None and want[0] == 'match':
                route, args = a.match(path, return_route=True)
                ev.eq((route.endpoint, args), (want[1].endpoint, want[2]),
                      'return-route-differs')
                ev.eq(str(route), want[1].text(), 'return-route-wrong-route')
            elif k == 3 and '\x00' not in path:
                env = gen.environ(path, host=a.server_name if mode != 'domain'
                                  else '.'.join(filter(None, (
                                      domain, 'example.com'))))
                if mode == 'domain':
                    b = m.bind_to_environ(env, server_name='example.com')
                else:
                    b = m.bind_to_environ(env)
                if mode != 'domain' or b.subdomain == domain:
                    probe(ev, model, b, domain, path, fn=b.match)
                    ev.hit('environ-probe')
            if src.bool(1, 3):
                settle(src, ev, kept)
            ev.key(mode, strict, [r.text() for r in model.routes], domain,
                   path)
    settle(src, ev, kept)
    ev.eq([str(r) for r in m.iter_routes()],
          [r.text() for r in model.match_order()], 'priority-order-differs')
    ev.sample('map', routes=[r.describe() for r in model.routes],
              path=path, outcome=want[0] if want else None)


def pairs(src, ev):
    """Two overlapping routes in both registration orders."""
    a, b = routes_of(src, 2, 'plain', ['one', 'two'])
    if a.endpoint == b.endpoint:
        b.endpoint = 'other'
    path = rt.some_path(src, [a, b], newline=not any(
        v.conv == 'path' for r in (a, b) for v in r.variables()))
    for rs in ([a, b], [b, a]):
        model = rt.Model(rs, redirect_defaults=False)
        m = model.build_map()
        ad = m.bind('h')
        probe(ev, model, ad, '', path)
        probe(ev, model, ad, '', path)
    ev.key('pair', a.describe(), b.describe(), path)


def overlapping(src, ev):
    """Routes that all match one common path: priority alone decides."""
    segs = [src.choice(('1', '42', '7', 'a', 'foo', 'yes', 'about', '12.5',
                        'ab')) for _ in range(src.int(1, 3))]
    path = '/' + '/'.join(segs)
    rs = []
    for i in range(src.int(2, 8)):
        toks = ['/']
        names = list(NAMES)

        def lit(x):
            if isinstance(toks[-1], str):
                toks[-1] += x
            else:
                toks.append(x)
        for j, s in enumerate(segs):
            if j:
                lit('/')
            k = src.draw(6)
            if k < 2:
                lit(s)
            elif k == 2 and len(s) > 1:
                lit(s[0])
                toks.append(rt.V(names.pop(0)))
            elif k == 3 and j == len(segs) - 1 or src.draw(8) == 7:
                toks.append(rt.V(names.pop(0), 'path'))
                if src.bool():
                    break
            else:
                c = 'default'
                if s.isdigit():
                    c = src.choice(('int', 'default', 'string', 'hexa'))
                elif s == '12.5':
                    c = src.choice(('float', 'default'))
                elif s == 'yes':
                    c = src.choice(('flag', 'default'))
                elif s == 'ab':
                    c = src.choice(('hexa', 'default'))
                toks.append(rt.V(names.pop(0), c))
        rs.append(rt.R(toks, 'e%d' % i, defaults={'q': i}
                       if src.bool(1, 5) else None))
    model = rt.Model(rs, redirect_defaults=False)
    m = model.build_map()
    want = probe(ev, model, m.bind('h'), '', path)
    if want:
        ev.hit('ambiguous')
    ev.key('over', [r.text() for r in rs], path)


def converters(src, ev):
    """Maps with converters of their own, of the same name and arguments."""
    from verktyg.routing import URLMap, Route, BaseConverter
    from verktyg.exceptions import NotFound
    maps = []
    for i in range(src.int(2, 3)):
        regex, ok = src.choice((
            ('[a-z]+', str.isalpha), ('[0-9]+', str.isdigit),
            ('x[a-z0-9]+', lambda s: s[0] == 'x' and len(s) > 1)))
        weight = src.choice((10, 50, 100, 150))

        def to_python(self, value, _i=i):
            return (_i, self.args, value)

        def init(self, router, *args, **kw):
            BaseConverter.__init__(self, router)
            self.args = args + tuple(sorted(kw.items()))
        cls = type('C', (BaseConverter,), {
            'regex': regex, 'weight': weight, '__init__': init,
            'to_python': to_python})
        name = src.choice(('c', 'c', 'string', 'int'))
        rules = [('/<%s:v>' % name, ()), ('/a/<%s(1):v>' % name, (1,)),
                 ('/b/<%s(k="x"):v>' % name, (('k', 'x'),))]
        m = URLMap([Route(r, endpoint=r) for r, _ in rules],
                   converters={name: cls}).bind('h')
        maps.append((i, m, rules, ok))
    for _ in range(src.int(3, 8)):
        i, m, rules, ok = src.choice(maps)
        rule, args = src.choice(rules)
        text = src.choice(('abc', 'x', 'xyz', '12', 'x1', 'a1', '007'))
        path = rule.split('<')[0] + text
        want = (rule, {'v': (i, args, text)}) \
            if ok(text) and text.isascii() else None
        ev.note(path=path, map=i, want=want)
        ev.eq(observe(ev, lambda: m.match(path)), want, 'own-converter')
        ev.hit('own-converter')
        ev.key('conv', i, rule, text)


def directed_root(ev):
    from verktyg.routing import URLMap, Route
    m = URLMap([Route('/', endpoint='root'), Route('/a', endpoint='a')])
    for p in ('', '/', '//'):
        ev.eq(m.bind('h').match(p), ('root', {}), 'root-path', path=p)
    ev.eq(m.bind('h').match(), ('root', {}), 'default-path-is-root')
    ev.eq(m.bind('h', path_info='/a').match(), ('a', {}), 'bound-path')
    ev.eq(m.bind('h', path_info='/a').match('/'), ('root', {}),
          'explicit-path-overrides')
    ev.case(6)


def directed_lengths(ev):
    """Length and number limits, exhaustively around each bound."""
    from verktyg.routing import URLMap, Route
    for lo in range(1, 5):
        for hi in [None] + list(range(lo, 6)):
            arg = 'minlength=%d' % lo
            if hi is not None:
                arg += ', maxlength=%d' % hi
            model = rt.Model([rt.R(['/', rt.V('x', 'string', **dict(
                [('minlength', lo)] +
                ([('maxlength', hi)] if hi is not None else [])))], 'e')])
            a = model.build_map().bind('h')
            for n in range(0, 9):
                probe(ev, model, a, '', '/' + 'q' * n)
                ev.case()
    for n in range(1, 6):
        model = rt.Model([rt.R(['/', rt.V('x', 'string', length=n)], 'e')])
        a = model.build_map().bind('h')
        for k in range(0, 9):
            probe(ev, model, a, '', '/' + 'q' * k)
            ev.case()
    for lo in (None, 0, 1, 5, 10):
        for hi in (None, 0, 1, 5, 10, 11):
            for conv in ('int', 'float'):
                o = {}
                if lo is not None:
                    o['min'] = lo
                if hi is not None:
                    o['max'] = hi
                model = rt.Model([rt.R(['/', rt.V('x', conv, **o)], 'e')])
                a = model.build_map().bind('h')
                for n in range(0, 14):
                    for t in ('%d', '%d.0', '%d.5', '0%d', '-%d'):
                        probe(ev, model, a, '', '/' + t % n)
                        ev.case()
    for fd in range(1, 5):
        for o in ({}, {'min': 3}, {'max': 20}):
            model = rt.Model([rt.R(['/', rt.V(
                'x', 'int', fixed_digits=fd, **o)], 'e')])
            a = model.build_map().bind('h')
            for n in (0, 1, 2, 3, 9, 19, 20, 21, 99, 100, 1000):
                for w in range(1, 6):
                    probe(ev, model, a, '', '/%0*d' % (w, n))
                    ev.case()


SCENARIOS = [
    Scenario('maps', maps, 4000, 60000),
    Scenario('pairs', pairs, 3000, 60000),
    Scenario('overlapping', overlapping, 6000, 100000),
    Scenario('converters', converters, 1000, 10000),
]
DIRECTED = [('root', directed_root), ('limits', directed_lengths)]
