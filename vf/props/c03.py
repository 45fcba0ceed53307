"""Redirects issued by URL matching."""
from urllib.parse import urlsplit, unquote, parse_qsl

from vf.engine import Scenario
from vf import gen, routes as rt
from vf.props.c02 import to_text, python_value

RULE = ('generated maps with branch routes, defaults, aliases and redirect_to; '
        'each redirect is predicted by the model, taken apart with urllib and '
        'followed to the end; distinct = hash of map, path and query')
ASSUMPTIONS = [
    'each alias has a canonical route with the same variables',
    'path values do not end in a slash where the redirect is followed',
    'script roots and query strings are ASCII',
    'targets returned by redirect_to callables are the responsibility of the '
    'caller; values in redirect_to strings may contain dot segments, which '
    'then are resolved on the same host',
]
REQUIRED = {'probe': 20000, 'slash': 3000, 'default': 800, 'alias': 800,
            'redirect_to': 800, 'no-redirect': 3000, 'followed': 4000,
            'with-query': 3000, 'hostile-path': 3000, 'redirects-off': 300,
            'extra-slashes': 1000, 'asked-in-between': 3000,
            'other-query-bound': 300}
HOSTILE = ('http://evil.com', '//evil.com', '\\evil.com', 'evil.com:80',
           '@evil.com', 'javascript:x', '..', '.', ';x', '%2f%2fevil.com',
           '?x', '#x', 'http:', ':', '\\\\evil.com', 'a\tb', u'\xe4',
           'http:evil.com', '%', '&', '=', '+', ' ', 'a b', '~', '*', '|')


def value_for(src, v, ev):
    if v.conv in ('default', 'string', 'path') and src.bool(1, 3):
        s = src.choice(HOSTILE)
        if v.conv != 'path':
            s = s.replace('/', '')
        else:
            s = s.lstrip('/')
        got = [e for e in v.ends(s, 0) if e == len(s)]
        if got and s:
            ev.hit('hostile-path')
            return s
    return python_value(src, v)


def make(src):
    mode = src.choice(('plain', 'plain', 'domain', 'host'))
    model = rt.Model(strict=src.bool(4, 5), redirect_defaults=src.bool(5, 6),
                     default_domain=src.choice(('', 'www'))
                     if mode == 'domain' else '',
                     host_matching=mode == 'host')
    rs = []
    for e in range(src.int(1, 3)):
        pre = src.choice(('/e%d', '/e%d', '/\xfc%d', '/e %d', '/e+%d')) % e
        vs = [rt.variable(src, n, path_ok=(n == 'z')) for n in ('x', 'y', 'z')]
        vs = [v for v in vs if v.conv != 'any' or
              not any(c in ''.join(v.opts['items']) for c in '|')]
        vs = src.sublist(vs, 2, 3)
        dom = None
        if mode == 'domain':
            dom = src.choice((None, ['kb'], ['<']))
            if dom == ['<']:
                dom = [rt.V('dom')]
        elif mode == 'host':
            dom = src.choice((['example.com'], [rt.V('dom'), '.example.com']))
        toks = [pre]

        def lit(x):
            if isinstance(toks[-1], str):
                toks[-1] += x
            else:
                toks.append(x)
        for v in vs:
            lit('/')
            if src.bool(1, 4):
                lit(src.choice(('page/', 'p-')))
            toks.append(v)
        if src.bool(3, 5):
            lit('/')
        ep = 'ep%d' % e
        base = rt.R(toks, ep, dom,
                    strict=src.choice((None, None, None, True, False)))
        group = [base]
        # shortcuts with defaults
        plain = True
        for k in range(src.int(4, 9) if src.bool(1, 8) else src.size(2)):
            if not vs:
                break
            fix = {}
            for v in src.sublist(vs):
                val = python_value(src, v)
                if val is not None:
                    fix[v.name] = val
            if not fix:
                continue
            t2 = ['%s-s%d/' % (pre, k)]
            for v in vs:
                if v.name not in fix:
                    t2 += [v, '/']
            if src.bool() and len(t2) > 1:
                t2.pop()
            odd = src.draw(8)
            if odd == 6:
                # takes and gives other arguments: no substitute for the rest
                fix = dict(fix, extra=src.choice((1, 'en')))
                plain = False
            group.append(rt.R(t2, ep, dom, fix, build_only=odd == 7))
            if odd == 7:
                plain = False
        if plain and src.bool(1, 3):
            t2 = ['%s-old/' % pre]
            for v in vs:
                t2 += [v, '/']
            if src.bool() and len(t2) > 1:
                t2.pop()
            group.append(rt.R(t2, ep, dom, alias=True))
        if src.bool(1, 3):
            t2 = ['%s-moved/' % pre]
            for v in vs:
                t2 += [v, '/']
            if src.bool() and len(t2) > 1:
                t2.pop()
            form = src.draw(5)
            names = ''.join('/<%s>' % v.name for v in vs)
            if form == 0:
                target = 'new/place' + names
            elif form == 1:
                target = '/abs' + names
            elif form == 2:
                target = names.lstrip('/') or 'x'
            elif form == 3:
                target = 'p' + names + '?v=1'
            else:
                target = 'new-' + names.lstrip('/')
            group.append(rt.R(t2, ep + '-moved', dom, redirect_to=target))
        rs += src.shuffle(group)
    model.routes = rs
    model.site = src.choice(('example.com', 'example.com', 'kb.example.com',
                             'www.org', 'joe.kb', 'localhost:8080'))
    return mode, model


def join_text(model, r, vals):
    return ''.join(t if isinstance(t, str) else to_text(t, vals[t.name])
                   for t in r.path)


def dom_text(model, r, vals):
    return ''.join(t if isinstance(t, str) else to_text(t, vals[t.name])
                   for t in model.dom(r))


def redirects(src, ev):
    from verktyg.routing import RequestRedirect
    from verktyg.exceptions import NotFound
    mode, model = make(src)
    ev.note(routes=[r.describe() for r in model.routes], mode=mode,
            redirect_defaults=model.redirect_defaults, strict=model.strict)
    m = model.build_map()
    adapters = {}
    if not model.redirect_defaults:
        ev.hit('redirects-off')
    for _ in range(src.few(3, 7, 20)):
        r = src.choice(model.routes)
        vals = {}
        for v in r.variables(model.dom(r)):
            if v.name == 'dom':
                vals['dom'] = src.choice(('joe', 'al', 'kb'))
                continue
            val = None
            # aim at the values some default route provides
            for o in model.routes:
                if o.endpoint == r.endpoint and o.defaults and \
                        v.name in o.defaults and src.bool(2, 3):
                    val = o.defaults[v.name]
            if val is None:
                val = value_for(src, v, ev)
            if val is None:
                break
            vals[v.name] = val
        else:
            path = join_text(model, r, vals)
            domain = dom_text(model, r, vals)
            k = src.draw(8)
            if k < 3:
                path = path.rstrip('/')
            elif k == 3:
                path += '/'
            elif k == 5 and src.bool():
                path = rt.some_path(src, model.routes)
                if '\n' in path:
                    continue
            if src.bool(1, 5):
                path = src.choice(('', '/', '//', '///')) + path
                ev.hit('extra-slashes')
            step(src, ev, mode, model, m, domain, path, adapters)


def step(src, ev, mode, model, m, domain, path, adapters):
    from verktyg.routing import RequestRedirect
    from verktyg.exceptions import NotFound
    script = src.choice(('/', '/app', '/app/', '/a/b', '/a=b&c/'))
    scheme = src.choice(('http', 'https'))
    qkind = src.draw(5)
    query, raw = None, None
    if qkind == 1:
        query = src.choice(('a=b', 'a=b&c=d', 'x=%20+y', '=', 'a=1&a=2&b',
                            'next=/x/?y', 'u=http://evil.com/', '%zz', '&&',
                            'q=%C3%A4', 'a;b=c', "q='\""))
        if src.bool(1, 4):
            query = gen.text(src, "abc=&%+/?:@!$'()*,;-._~", 8, 300, 1)
        raw = query
    elif qkind == 2:
        query = {}
        for _ in range(src.int(1, 3)):
            query[src.choice(('a', 'b', u'\xe4', 'c d'))] = src.choice(
                ('1', '', u'\xfc', 'x&y', 'http://evil/', '+', 3))
    elif qkind == 3:
        query = ''
    host = domain if mode == 'host' else \
        (domain + '.' if domain else '') + model.site
    if mode == 'host':
        kw = dict(server_name=domain)
    else:
        kw = dict(server_name=model.site, subdomain=domain)
    how = src.draw(3)
    if how == 0:
        bound = None
        if query is not None and src.bool(1, 3):
            # what is asked for explicitly wins over what was bound
            bound = src.choice(('bound=1', {'b': '2'}, ''))
            ev.hit('other-query-bound')
        a = m.bind(script_name=script, url_scheme=scheme, query_args=bound,
                   **kw)
        if bound is None and src.bool():
            a = adapters.setdefault((domain, script, scheme), a)
        call = lambda: a.match(path, query_args=query)
    elif how == 1:
        a = m.bind(script_name=script, url_scheme=scheme, path_info=path,
                   query_args=query, **kw)
        call = a.match
    else:
        if isinstance(query, dict):
            query = raw = 'a=1'
        env = gen.environ(path, query or '', host=host, scheme=scheme,
                          script=script.rstrip('/'))
        a = m.bind_to_environ(env, **({} if mode == 'host' else
                                      {'server_name': model.site}))
        call = a.match
    if src.bool(1, 4):
        # what is asked in between does not change what was bound
        try:
            a.match(rt.some_path(src, model.routes).replace('\n', ''),
                    query_args=src.choice((None, 'other=1', {'o': 'x'}, '')))
        except (RequestRedirect, NotFound):
            pass
        ev.hit('asked-in-between')
    want = model.match(domain, path)
    ev.note(path=path, domain=domain, query=query, script=script,
            scheme=scheme, want=want and (want[0], want[1].describe(),
                                          want[2]))
    ev.hit('probe')
    try:
        got = ('match', call())
    except RequestRedirect as e:
        got = ('redirect', e)
    except NotFound:
        got = None
    ev.key([r.describe() for r in model.routes], domain, path, repr(query))
    if want is None:
        ev.ok(got is None, 'should-not-be-found', got=got)
        return
    if want[0] == 'match':
        ev.hit('no-redirect')
        ev.ok(got is not None and got[0] == 'match',
              'canonical-path-redirected-or-lost', got=got,
              url=getattr(got and got[1], 'new_url', None))
        ev.eq(got[1], (want[1].endpoint, want[2]), 'wrong-match')
        return
    ev.hit(want[0])
    ev.ok(got is not None and got[0] == 'redirect', 'redirect-expected',
          got=got)
    e = got[1]
    url = e.new_url
    ev.note(url=url)
    ev.eq(e.code, 301, 'redirect-code')
    p = urlsplit(url)
    ev.ok(url.isascii() or want[0] == 'redirect_to', 'redirect-not-ascii')
    kind, r, vals = want[:3]
    base = script.rstrip('/')
    whost = host
    if kind == 'slash':
        text = '/' + path.lstrip('/') + '/'
    elif kind == 'default':
        o = want[3]
        text = join_text(model, o, vals)
        d = dom_text(model, o, vals)
        whost = d if mode == 'host' else (d + '.' if d else '') + model.site
    elif kind == 'alias':
        o = [x for x in model.build_order(r.endpoint)
             if model.suitable(x, vals)][0]
        text = join_text(model, o, vals)
    else:
        text = None
    ev.ok(url.startswith('%s://%s/' % (scheme, whost)),
          'redirect-leaves-the-site', host=whost)
    ev.eq((p.scheme, p.netloc), (scheme, whost), 'redirect-leaves-the-site')
    if kind == 'redirect_to':
        target = r.redirect_to
        for v in r.variables():
            target = target.replace('<%s>' % v.name,
                                    '\0' + v.name + '\0')
        out = ''
        for i, piece in enumerate(target.split('\0')):
            out += piece if i % 2 == 0 else to_text(
                [v for v in r.variables() if v.name == piece][0],
                vals[piece])
        tq = ''
        if r.redirect_to.endswith('?v=1'):
            out, tq = out[:-4], 'v=1'
        segs = out.split('/')
        if '.' not in segs and '..' not in segs and '//' not in out:
            full = out if out.startswith('/') else base + '/' + out
            ev.eq(unquote(p.path, errors='strict'), full,
                  'redirect-to-wrong-target')
            ev.eq(p.query, tq, 'redirect-to-wrong-query')
        return
    ev.eq(unquote(p.path, errors='strict'), base + text,
          'redirect-to-wrong-path')
    if isinstance(query, dict):
        ev.eq(parse_qsl(p.query, True), [(k, str(v))
                                         for k, v in query.items()],
              'query-lost')
    else:
        ev.eq(p.query, raw or '', 'query-lost')
    if query:
        ev.hit('with-query')
    ev.eq(p.fragment, '', 'fragment-in-redirect')
    # follow it
    if any(str(v).endswith('/') for v in vals.values()):
        return
    cur, chain = url, [url]
    for hop in range(8):
        p = urlsplit(cur)
        path2 = unquote(p.path, errors='strict')[len(base):]
        if mode == 'host':
            d2 = p.netloc
            b = m.bind(d2, script, url_scheme=scheme)
        else:
            d2 = p.netloc[:-len(model.site)].rstrip('.')
            b = m.bind(model.site, script, d2, scheme)
        w2 = model.match(d2, path2)
        if w2 is None or w2[1].endpoint != r.endpoint:
            ev.hit('shadowed')
            if w2 is None:
                ev.fail('redirect-to-nowhere', chain=chain)
            return
        if w2[0] == 'redirect_to':
            return
        try:
            ep, args = b.match(path2)
            break
        except RequestRedirect as e:
            cur = e.new_url
            chain.append(cur)
    else:
        ev.fail('redirect-loop', chain=chain)
    ev.hit('followed')
    ev.note(chain=chain)
    ev.eq(ep, r.endpoint, 'redirect-changes-endpoint')
    exp = dict(vals)
    exp.update(r.defaults or {})
    ev.eq(args, exp, 'redirect-changes-arguments')
    ev.sample('redirect', kind=kind, route=r.describe(), path=path,
              chain=chain, args=args)


def callable_targets(src, ev):
    """redirect_to callables get the values and are joined to the root."""
    from verktyg.routing import URLMap, Route, RequestRedirect
    seen = []
    target = src.choice(('new/x', '/x', 'http://other.org/y', '?a', '../z'))

    def go(adapter, **kw):
        seen.append((adapter, kw))
        return target
    m = URLMap([Route('/old/<int:id>/<name>', redirect_to=go)])
    script = src.choice(('/', '/app', '/a/b/'))
    a = m.bind('example.com', script)
    n = src.int(0, 99)
    e = ev.raises(RequestRedirect, lambda: a.match('/old/%d/bob' % n),
                  'no-redirect')
    ev.eq(len(seen), 1, 'callable-calls')
    ev.ok(seen[0][0] is a, 'callable-adapter')
    ev.eq(seen[0][1], {'id': n, 'name': 'bob'}, 'callable-values')
    root = 'http://example.com' + script.rstrip('/') + '/'
    want = {'new/x': root + 'new/x', '/x': 'http://example.com/x',
            'http://other.org/y': 'http://other.org/y', '?a': root + '?a',
            '../z': 'http://example.com' + {'/': '/z', '/app': '/z',
                                            '/a/b/': '/a/z'}[script]}[target]
    ev.eq(e.new_url, want, 'callable-target')
    ev.key('callable', target, script, n)


SCENARIOS = [Scenario('redirects', redirects, 12000, 200000),
             Scenario('callable', callable_targets, 400, 4000)]
