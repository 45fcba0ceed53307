"""Route factories against hand flattened routes."""
import copy

from vf.engine import Scenario
from vf import gen, routes as rt
from vf.props.c02 import python_value

RULE = ('nested factories around generated routes; the map is driven with the '
        'same matches and builds as a map of the written out routes; distinct '
        '= hash of the flattened map and nesting')
ASSUMPTIONS = ['template values and route texts contain no braces',
               'the outermost Subdomain wins, as each factory overrides the '
               'subdomain of the routes in it']
REQUIRED = {'match': 15000, 'build': 8000, 'Submount': 500, 'Subdomain': 500,
            'EndpointPrefix': 500, 'Template': 500, 'nested': 500,
            'option-defaults': 300, 'option-alias': 100,
            'option-redirect_to': 100, 'option-strict': 300,
            'option-build_only': 100, 'option-host': 100,
            'option-ignored': 300, 'shared-routes': 300}
NAMES = ('x', 'y', 'z', 'w', 'u')


def leaf(src, ev, ids, host):
    toks = rt.path_tokens(src, src.shuffle(NAMES), allow_path=True)
    i = ids[0]
    ids[0] += 1
    toks = [t.replace('{', '').replace('}', '') if isinstance(t, str) else t
            for t in toks]
    if src.bool():
        # two markers that templates replace
        k = src.choice(('@a@', '@b@', 'x-@a@'))
        toks[0] = '/' + k + (toks[0] if toks[0] != '/' or len(toks) > 1
                             or src.bool() else '')
    ep = src.choice(('one', 'two', '@a@.show', 'ep%d' % i, '@b@'))
    r = rt.R(toks, ep)
    if src.bool(1, 4):
        r.defaults = {src.choice(('d', 'e')): src.choice(
            (1, 'v', '@a@', 'p-@b@', None))}
        ev.hit('option-defaults')
    if src.bool(1, 4):
        r.strict = src.bool()
        ev.hit('option-strict')
    if src.bool(1, 8):
        r.build_only = True
        ev.hit('option-build_only')
    if src.bool(1, 8):
        names = [v.name for v in r.variables() if v.conv != 'path']
        k = src.draw(5)
        if k == 3 and names:
            r.redirect_to = src.choice(('to/@a@/<%s>', '<%s>-@b@', 'x<%s>')) \
                % names[0]
        elif k == 4:
            r.redirect_to = target
        else:
            r.redirect_to = ('to/@a@', '/abs', 'q/x')[k % 3]
        ev.hit('option-redirect_to')
    if host:
        r.domain = [src.choice(('example.com', '@a@.example.com'))]
        ev.hit('option-host')
    elif src.bool(1, 4):
        r.domain = [src.choice(('kb', '@a@', 'www'))]
    if src.bool(1, 8):
        r.ignored = src.choice(('kb', 'x.example.com', 'www', '@a@'))
        ev.hit('option-ignored')
    return r


def target(adapter, **values):
    return 'called/%d' % len(values)


def subst(r, f):
    c = copy.copy(r)
    c.path = [f(t) if isinstance(t, str) else t for t in r.path]
    if r.domain is not None:
        c.domain = [f(t) if isinstance(t, str) else t for t in r.domain]
    if r.ignored is not None:
        c.ignored = f(r.ignored)
    if r.defaults:
        c.defaults = {k: f(v) if isinstance(v, str) else v
                      for k, v in r.defaults.items()}
    c.endpoint = f(r.endpoint)
    if isinstance(r.redirect_to, str):
        c.redirect_to = f(r.redirect_to)
    return c


def tree(src, ev, ids, host, depth):
    """(make() -> list of factories, flat routes, description); inside a
    template ``mark`` turns markers into placeholders."""
    kind = src.draw(7) if depth else 0
    if kind <= 1:
        rs = [leaf(src, ev, ids, host) for _ in range(src.few(1, 3, 10))]
        if src.bool(1, 4) and rs[0].redirect_to is None and \
                not rs[0].build_only:
            # an alias for the first route
            a = copy.copy(rs[0])
            a.path = ['/old%d/' % ids[0]]
            ids[0] += 1
            for v in rs[0].variables():
                a.path += [v, '/']
            a.alias = True
            rs.append(a)
            ev.hit('option-alias')

        def make(mark):
            return [subst(r, mark).make(host) for r in rs]
        return make, rs, [r.text() for r in rs]
    n = src.int(1, 2)
    subs = [tree(src, ev, ids, host, depth - 1) for _ in range(n)]
    flat = [r for s in subs for r in s[1]]
    desc = [s[2] for s in subs]
    if any(isinstance(d, tuple) for d in desc):
        ev.hit('nested')

    def inner(mark):
        return [f for s in subs for f in s[0](mark)]

    if kind == 6:
        # the same routes below two factories
        which = src.choice(('EndpointPrefix', 'Submount', 'Subdomain'))
        if host and which == 'Subdomain':
            which = 'Submount'
        ps = {'EndpointPrefix': ('p1.', 'p2.'), 'Submount': ('/p1', '/p2'),
              'Subdomain': ('kb', 'www')}[which]
        ps = [src.choice(ps + ('@a@',)) if which != 'Submount' else p
              for p in ps]
        out = []
        for p in ps:
            for r in flat:
                c = copy.copy(r)
                if which == 'EndpointPrefix':
                    c.endpoint = p + r.endpoint
                elif which == 'Submount':
                    c.path = [p + r.path[0]] + list(r.path[1:])
                else:
                    c.domain = [p]
                out.append(c)
        ev.hit('shared-routes')

        def make(mark):
            from verktyg import routing
            routes = inner(mark)
            return [getattr(routing, which)(mark(p), routes) for p in ps]
        return make, out, ('shared', which, ps, desc)
    if kind == 2:
        pre = src.choice(('/blog', '/a/b', '/blog/', '/x.y', '/@a@', '',
                          '/', '/<lang>', '/\xfc'))
        if '<' in pre:
            if any(v.name == 'lang' for r in flat for v in r.variables()):
                pre = '/blog'
        ev.hit('Submount')
        out = []
        for r in flat:
            c = copy.copy(r)
            if pre == '/<lang>':
                c.path = ['/', rt.V('lang')] + list(r.path)
            else:
                c.path = [pre.rstrip('/') + r.path[0]] + list(r.path[1:])
            out.append(c)

        def make(mark):
            from verktyg.routing import Submount
            return [Submount(mark(pre), inner(mark))]
        return make, out, ('Submount', pre, desc)
    if kind == 3 and not host:
        sd = src.choice(('kb', 'www', '', '@b@', '<dom>'))
        ev.hit('Subdomain')
        out = []
        for r in flat:
            c = copy.copy(r)
            c.domain = [rt.V('dom')] if sd == '<dom>' else [sd] if sd else []
            out.append(c)

        def make(mark):
            from verktyg.routing import Subdomain
            return [Subdomain(mark(sd), inner(mark))]
        return make, out, ('Subdomain', sd, desc)
    if kind == 4:
        pre = src.choice(('blog/', 'x.', '', '@a@-'))
        ev.hit('EndpointPrefix')
        out = []
        for r in flat:
            c = copy.copy(r)
            c.endpoint = pre + r.endpoint
            out.append(c)

        def make(mark):
            from verktyg.routing import EndpointPrefix
            return [EndpointPrefix(mark(pre), inner(mark))]
        return make, out, ('EndpointPrefix', pre, desc)
    ev.hit('Template')
    ctx = {'a': src.choice(('user', 'page', 'x')),
           'b': src.choice(('item', 'u-2', 'kb'))}

    def fill(s):
        return s.replace('@a@', ctx['a']).replace('@b@', ctx['b'])
    out = [subst(r, fill) for r in flat]

    def make(mark):
        from verktyg.routing import RouteTemplate

        def placeholder(s):
            return s.replace('@a@', '{a}').replace('@b@', '{b}')
        routes = inner(placeholder)
        tpl = RouteTemplate(iter(routes) if src.bool() else routes)
        # a template can be used many times; other uses do not matter
        other = tpl(a='other', b='another')
        if src.bool():
            for r in other.get_routes(None):
                spoil(r)
        return [tpl(**ctx) if src.bool() else tpl(dict(ctx))]
    return make, out, ('Template', ctx, desc)


def spoil(r):
    """Change what belongs to one expanded route."""
    if r.defaults:
        r.defaults.clear()
        r.defaults['changed'] = 1
    r.arguments.add('changed')
    r.subdomain = r.host = 'changed'


def ident(s):
    return s


def outcome(fn):
    from verktyg.routing import RequestRedirect, BuildError
    from verktyg.exceptions import NotFound
    try:
        return ('ok', fn())
    except RequestRedirect as e:
        return ('redirect', e.new_url)
    except NotFound:
        return ('not found',)
    except BuildError:
        return ('build error',)
    except RecursionError:
        raise
    except Exception as e:
        return ('error', type(e).__name__)


def equivalent(src, ev):
    from verktyg.routing import URLMap
    host = src.bool(1, 6)
    ids = [0]
    trees = [tree(src, ev, ids, host, src.int(1, 4))
             for _ in range(src.int(1, 2))]
    flat = [r for t in trees for r in t[1]]
    ev.note(tree=[t[2] for t in trees], flat=[r.describe() for r in flat])
    model = rt.Model(flat, strict=src.bool(3, 4),
                     redirect_defaults=src.bool(3, 4),
                     default_domain='' if host else src.choice(('', 'www')),
                     host_matching=host)
    plain = model.build_map()
    kw = dict(strict_slashes=model.strict,
              redirect_defaults=model.redirect_defaults,
              default_subdomain=model.default_domain, host_matching=host,
              converters=rt.converters())
    factories = [f for t in trees for f in t[0](ident)]
    nested = all(type(f).__name__ != 'Route' for f in factories)
    if nested and src.bool():
        # looking at the routes of a factory does not use them up
        for f in factories:
            for r in f.get_routes(plain):
                spoil(r)
    made = URLMap(factories, **kw)
    ev.eq([(str(r), r.endpoint, bool(r.build_only), bool(r.alias),
            r.defaults or None, r.redirect_to)
           for r in made.iter_routes()],
          [(str(r), r.endpoint, bool(r.build_only), bool(r.alias),
            r.defaults or None, r.redirect_to)
           for r in plain.iter_routes()], 'routes-differ')
    again = None
    if nested:
        # also before anything is bound
        first = [r for f in factories for r in f.get_routes(made)]
        second = [r for f in factories for r in f.get_routes(made)]
        ev.eq(len({id(r) for r in first + second}), 2 * len(first),
              'expansions-share-routes')
        for r in first:
            spoil(r)
        # factories are reusable, and what comes out is independent
        for r in URLMap(factories, **kw).iter_routes():
            spoil(r)
        again = URLMap(factories, **kw)
        ev.hit('reused')
    for _ in range(src.few(4, 10, 30)):
        domain = src.choice(('example.com', 'user.example.com',
                             'page.example.com')) if host else \
            src.choice((None, '', 'kb', 'www', 'user', 'item', 'joe'))
        aim = src.choice(flat)
        if src.bool(4, 5):
            domain = ''.join(t if isinstance(t, str) else 'joe'
                             for t in model.dom(aim))
        args = (domain, '/s') if host else ('example.com', '/s', domain)
        a, b = made.bind(*args), plain.bind(*args)
        if src.bool(3, 5):
            path = rt.some_path(src, [aim] if src.bool() else flat)
            w = outcome(lambda: b.match(path, query_args='q=1'))
            g = outcome(lambda: a.match(path, query_args='q=1'))
            ev.hit('match')
            ev.hit('match-' + w[0])
            ev.eq(g, w, 'match-differs', path=path, domain=domain)
            if again is not None:
                g = outcome(lambda: again.bind(*args).match(
                    path, query_args='q=1'))
                ev.eq(g, w, 'second-expansion-differs', path=path)
        else:
            r = src.choice(flat)
            vals = {}
            for v in r.variables():
                vals[v.name] = python_value(src, v) \
                    if v.name != 'dom' else 'joe'
            if r.defaults and src.bool():
                vals.update(r.defaults)
            if src.bool(1, 4):
                vals['extra'] = '1'
            ext = src.bool()
            w = outcome(lambda: b.build(r.endpoint, vals, ext))
            g = outcome(lambda: a.build(r.endpoint, vals, ext))
            ev.hit('build')
            ev.hit('build-' + w[0])
            ev.eq(g, w, 'build-differs', values=vals, endpoint=r.endpoint,
                  domain=domain)
            if again is not None:
                g = outcome(lambda: again.bind(*args).build(
                    r.endpoint, vals, ext))
                ev.eq(g, w, 'second-expansion-differs', values=vals)
    ev.key([r.describe() for r in flat], [t[2] for t in trees])
    ev.sample('tree', tree=[t[2] for t in trees],
              flat=[r.describe() for r in flat])


SCENARIOS = [Scenario('equivalent', equivalent, 10000, 100000)]
